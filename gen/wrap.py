"""Puts generated definitions into the surroundings that users' definitions are found in: derives
named by path, definitions made by `macro_rules!`, documented fields, and traits in scope whose
methods are called like those of the library's traits. None of this changes what a type means."""
import re

DERIVE = re.compile(r"#\[derive\(Clone(?:, Copy)?, Debug, ToXml, FromXml\)\]")
STRING = re.compile(r'r(#*)".*?"\1|"(?:[^"\\]|\\.)*"', re.S)
LEX = re.compile(r'r(#+)".*?"\1|\br"[^"]*"|"(?:[^"\\]|\\.)*"|/\*.*?\*/|[()\[\]{};]|[^"/()\[\]{};r]+|.', re.S)
SCOPE = """
/// Like serde's trait of that name
#[allow(dead_code)]
trait Serialize {
    fn serialize<S>(&self, _: S) -> Result<(), ()> { Ok(()) }
    fn present(&self) -> u8 { 1 }
    fn matches(_: u8, _: u8) -> u8 { 1 }
    fn deserialize(_: u8) -> u8 { 1 }
}

impl<T: ?Sized> Serialize for T {}
"""


def item_end(text, start):
    depth, braces = 0, False
    for m in LEX.finditer(text, start):
        t = m.group()
        if t in ("(", "[", "{"):
            braces = t == "{" if depth == 0 else braces
            depth += 1
        elif t in (")", "]", "}"):
            depth -= 1
            if depth == 0 and t == "}" and braces:
                return m.end()
        elif t == ";" and depth == 0:
            return m.end()
    raise ValueError("unfinished item")


def lists(item):
    """Where the lists of xml attributes are"""
    for m in re.finditer(r"#\[xml\(", item):
        depth = 0
        for t in LEX.finditer(item, m.end() - 1):
            depth += {"(": 1, ")": -1}.get(t.group(), 0)
            if depth == 0:
                yield m.end(), t.start()
                break


def substituted(item, name, r):
    """The item as the expansion of a macro, with literals and types as arguments"""
    cuts = []
    for a, b in lists(item):
        cuts += [(m.start(), m.end(), "literal") for m in STRING.finditer(item, a, b) if r.randrange(100) < 70]
    inside = [(a, b) for a, b in lists(item)]
    for m in re.finditer(r"(?m)(?<=: )[^\n:]*?(?:::[^\n:]*?)*(?=,$)", item):
        if m.start() > item.index("{") and not any(a <= m.start() < b for a, b in inside) and r.randrange(100) < 60:
            cuts.append((m.start(), m.end(), "ty"))
    if re.search(r"\benum ", item):
        cuts += [(m.start(), m.end(), r.choice(["literal", "expr"])) for m in re.finditer(r"(?m)(?<= = )\w+(?=,$)", item)]
    if not cuts:
        return item
    out, args, at = [], [], 0
    for i, (a, b, kind) in enumerate(sorted(cuts)):
        out += [item[at:a], f"$a{i}"]
        args.append((f"$a{i}:{kind}", item[a:b]))
        at = b
    out.append(item[at:])
    return (f"macro_rules! {name} {{ ({', '.join(p for p, _ in args)}) => {{\n{''.join(out)}\n}}; }}\n"
            f"{name}!({', '.join(v for _, v in args)});")


MODEL = re.compile(r"^impl.* Model for (?:r#)?(\w+).*\{$")
ADD = re.compile(r"(e\.add_(?:field|attr|direct)\(.*?self\.(?:inline\.)?(?:r#)?(\w+).*?\);)(?= |$)")
REST = re.compile(r"(transparent\()(self\.(?:r#)?(\w+)\.nodes\(Some\(\(.*?\)\)\))(\)\)\);)")


def label(text):
    """What the field of each node of a model is called"""
    out, name = [], None
    for line in text.split("\n"):
        if m := MODEL.match(line):
            name = m[1]
        line = ADD.sub(lambda m: f'{m[1]} e.label("{"" if ".inline." in m[1] else name}::{m[2]}");', line)
        line = REST.sub(lambda m: f'{m[1]}labelled("{name}::{m[3]}", {m[2]}){m[4]}', line)
        out.append(line)
    return "\n".join(out)


def dress(text, r, all_by_path=False):
    """Only for C18: whatever else goes on, the other properties need types that compile"""
    out, at, n = [], 0, 0
    while m := DERIVE.search(text, at):
        end = item_end(text, m.end())
        item = text[m.start():end]
        if all_by_path or r.randrange(100) < 25:
            item = item.replace("ToXml, FromXml", r.choice(["::instant_xml::ToXml, instant_xml::FromXml", "instant_xml::ToXml, ::instant_xml::FromXml"]), 1)
        tuple_struct = re.search(r"pub struct \w+(<[^(]*>)?\(", item)
        if tuple_struct and r.randrange(100) < 40:
            item = item[:tuple_struct.end()] + item[tuple_struct.end():].replace("pub ", "/** One */ pub ")
        if r.randrange(100) < 30:
            n += 1
            item = substituted(item, f"define_{n}", r)
        out += [text[at:m.start()], item]
        at = end
    out.append(text[at:])
    return "".join(out) + (SCOPE if r.randrange(100) < 50 else "")
