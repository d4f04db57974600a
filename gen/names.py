#!/usr/bin/env python3
"""Generates types about names, in the form of gen/zoo.py: every rename rule applied to many
identifiers in every position, `rename`, discriminants and the grammar of `ns(..)`:
usage names.py SEED > names.rs. All values of the types have all their fields."""
import random
import sys

from wrap import dress, label
from zoo import RULES, URIS, field_case, variant_case

FIELDS = ["id", "field_one", "some_long_name", "x", "r#type", "r#match", "a1", "v2_b3", "trail_", "dou__ble", "r#fn",
          "camel_case_2", "a_b_c_d", "x1y2", "http_2_url", "ns", "_lead", "漢字_x", "_1", "name_of_漢", "value", "node",
          "field", "r#async", "deserializer", "serializer", "into", "element", "new", "prefix", "w", "f", "t"]
# Not spelled as Rust spells fields, or with letters whose case rules do not say
UNUSUAL_FIELDS = ["camelCase", "UPPER", "Mixed_Case", "größe", "Été_x", "ÄB", "naïve_ß"]
VARIANTS = ["Active", "VeryTasty", "A", "Z42", "HTTPServer", "X1", "Two2Three", "ABC", "V", "UnderScore", "漢字", "漢Zi",
            "X漢", "AaBbCc", "E5", "None", "Some", "Ok", "Err", "Default", "r#Type", "SelfSame"]
UNUSUAL_VARIANTS = ["lower", "snake_variant", "Under_Score", "Été", "ßa", "r#type", "camelVariant"]
LITERALS = {  # literal: string it stands for
    '"with-dash"': "with-dash", '"dotted.name"': "dotted.name", '"élan"': "élan", '"\\u{e9}t\\x61"': "éta",
    'r"raw-name"': "raw-name", 'r#"Raw.2"#': "Raw.2", '"_"': "_", '"漢字"': "漢字", '"A"': "A", '"type"': "type",
    '"x-1.y_z"': "x-1.y_z", '"xmlish"': "xmlish", '"con\\\ntinued"': "continued",
}
TEXTS = {
    '"a & b"': "a & b", '"<x>"': "<x>", '" padded "': " padded ", '"\\"q\\""': '"q"', 'r"a\\b"': "a\\b",
    'r#"say "hi""#': 'say "hi"', '"1.5"': "1.5", '"\\u{1F600}"': "😀", '"]]>"': "]]>", '"\'"': "'", '"tab\\tbed"': "tab\tbed",
    '"&amp;"': "&amp;",
}
INTS = [("7", 7), ("0", 0), ("0x1f", 31), ("0o17", 15), ("0b101", 5), ("1_000", 1000), ("12isize", 12), ("0xff_isize", 255),
        ("4294967296", 4294967296), ("00012", 12)]
PREFIXES = ["p", "p2", "my-ns", "my-ns.v1", "a.b", "x-y-z.w", "_u", "ns-1", "v1-2.x", "a-1.0", "type", "fn", "é", "漢", "Self",
            "n.1b", "xs-", "u."]
CONSTS = {u: f"URI{i}" for i, u in enumerate(URIS)}


def lit(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\t", "\\t") + '"'


class Names:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.out, self.roots, self.n = [], [], 0

    def ch(self, pct):
        return self.r.randrange(100) < pct

    def new(self, prefix="N"):
        self.n += 1
        return f"{prefix}{self.n}"

    def attrs(self, items):
        items = [i for i in items if i]
        if not items:
            return ""
        self.r.shuffle(items)
        groups = [[]]
        for i in items:
            if groups[-1] and self.ch(40):
                groups.append([])
            groups[-1].append(i)
        # Lists of others and doc comments in between
        out = []
        for g in groups:
            comma = "," if self.ch(20) else ""
            out.append(f"#[xml({', '.join(g)}{comma})]")
            if self.ch(15):
                out.append(self.r.choice(['#[doc = "text"]', "#[allow(dead_code)]", "/** doc */", "#[xml()]"]))
        return " ".join(out)

    def uri(self, u):
        c = CONSTS[u]
        return self.r.choice([lit(u), c, f"crate::consts::{c}", f"self::{c}", f"super::consts::{c}",
                              f"::harness::consts::{c}", f"::harness::consts::r#mod::r#{c}"])

    def ns(self, prefixes=None):
        """(item, default, prefixes)"""
        n = self.r.choice([0, 0, 1, 1, 2, 3, 4]) if prefixes is None else prefixes
        default = self.r.choice(URIS) if n == 0 or self.ch(70) else ""
        names = self.r.sample(PREFIXES, n)
        uris = self.r.sample(URIS, n)
        args = [self.uri(default)] if default else ['""'] if self.ch(20) else []
        args += [f"{p} = {self.uri(u)}" for p, u in zip(names, uris)]
        comma = "," if args and self.ch(20) else ""
        return f"ns({', '.join(args)}{comma})", default, dict(zip(names, uris))

    def add(self, name, body, root=True):
        self.out.append(body)
        if root:
            self.roots.append(name)

    def model(self, name, ns, tag, body, arb, params=""):
        self.out.append(f"""impl Model for {name} {{
    #[allow(unused_variables)]
    fn arb(g: &mut Gen<'_>, d: i32) -> Self {{ {arb} }}
    fn nodes(&self, _: Field<'_>) -> Vec<Kid> {{
        #[allow(unused_mut)]
        let mut e = Elem::new({lit(ns)}, {lit(tag)}, Kind::Struct);
        {' '.join(body)}
        kid(e)
    }}
}}""")

    def named(self, rule, pool):
        """Fields: (identifier, items, name), their names all different"""
        taken, out = set(), []
        for ident in pool:
            items, name = [], field_case(rule, ident)
            if name.startswith("-") or name[:1].isdigit() or not name:
                continue
            if self.ch(15):
                literal = self.r.choice(list(LITERALS))
                items, name = [f"rename = {literal}"], LITERALS[literal]
            if name in taken or name.lower().startswith("xmlns"):
                continue
            taken.add(name)
            out.append((ident, items, name))
        return out

    def fields(self, rule):
        pool = list(FIELDS)
        if rule is None:
            pool += UNUSUAL_FIELDS
        self.r.shuffle(pool)
        return self.named(rule, pool)

    def rule_item(self, rule):
        return f'rename_all = "{rule}"' if rule else None

    def elements(self, rule):
        name = self.new()
        item, default, prefixes = self.ns() if self.ch(50) else (None, "", {})
        lines, body, arb = [], [], []
        for i, (ident, items, tag) in enumerate(self.fields(rule)):
            ty = self.r.choice(["u8", "String", "bool"])
            lines.append(f"    {self.attrs(items)} pub {ident}: {ty},")
            body.append(f"e.add_field({i + 1}, self.{ident}.nodes(Some(({lit(default)}, {lit(tag)}))));")
            arb.append(f"{ident}: Model::arb(g, d)")
        # As declared, with the container's own name
        tag, items = name, [item, self.rule_item(rule)]
        if self.ch(30):
            literal = self.r.choice(list(LITERALS))
            tag = LITERALS[literal]
            items.append(f"rename = {literal}")
        nl = "\n"
        self.add(name, f"#[derive(Clone, Debug, ToXml, FromXml)]\n{self.attrs(items)}\npub struct {name} {{\n{nl.join(lines)}\n}}")
        self.model(name, default, tag, body, f"{name} {{ {', '.join(arb)} }}")

    def attributes(self, rule):
        name = self.new()
        item, default, prefixes = self.ns() if self.ch(50) else (None, "", {})
        lines, body, arb = [], [], []
        for ident, items, tag in self.fields(rule):
            ty = self.r.choice(["u8", "String", "bool"])
            ns = ""
            if prefixes and self.ch(40):
                ns = self.r.choice(list(prefixes.values()))
                items = items + [f"ns({CONSTS[ns]})"]
            lines.append(f"    {self.attrs(['attribute'] + items)} pub {ident}: {ty},")
            body.append(f"e.add_attr({lit(ns)}, {lit(tag)}, &self.{ident});")
            arb.append(f"{ident}: Model::arb(g, d)")
        nl = "\n"
        self.add(name, f"#[derive(Clone, Debug, ToXml, FromXml)]\n{self.attrs([item, self.rule_item(rule)])}\npub struct {name} {{\n{nl.join(lines)}\n}}")
        self.model(name, default, name, body, f"{name} {{ {', '.join(arb)} }}")

    def transparent(self, rule):
        inner, name = self.new(), self.new()
        lines, body, arb = [], [], []
        for i, (ident, items, tag) in enumerate(self.fields(rule)):
            ns = ""
            if self.ch(25):
                ns = self.r.choice(URIS)
                items = items + [f"ns({self.uri(ns)})"]
            lines.append(f"    {self.attrs(items)} pub {ident}: u8,")
            body.append(f"e.add_field({i + 1}, self.inline.{ident}.nodes(Some(({lit(ns)}, {lit(tag)}))));")
            arb.append(f"{ident}: Model::arb(g, d)")
        nl = "\n"
        self.add(inner, f"#[derive(Clone, Debug, ToXml, FromXml)]\n{self.attrs(['transparent', self.rule_item(rule)])}\npub struct {inner} {{\n{nl.join(lines)}\n}}", root=False)
        self.add(name, f"#[derive(Clone, Debug, ToXml, FromXml)]\npub struct {name} {{ pub inline: {inner} }}")
        self.model(name, "", name, body, f"{name} {{ inline: {inner} {{ {', '.join(arb)} }} }}")

    def scalars(self, rule):
        inner, name = self.new(), self.new()
        pool = VARIANTS + (UNUSUAL_VARIANTS if rule is None else [])
        if rule and "KEBAB" in rule.upper() or rule and "SNAKE" in rule.upper():
            pool = [v for v in pool if v not in ("漢Zi", "X漢")] + ["漢Zi"]
        pool = list(dict.fromkeys(pool))
        self.r.shuffle(pool)
        numbers = self.ch(50)
        texts, lines, taken, disc = [], [], set(), -1
        ints = sorted(self.r.sample(INTS, 5), key=lambda i: i[1])
        for v in pool:
            text, head, tail = variant_case(rule, v), "", ""
            how = self.r.randrange(5)
            if how == 0:
                literal = self.r.choice(list(TEXTS))
                head, text = f"{self.attrs([f'rename = {literal}'])} ", TEXTS[literal]
                disc += 1
            elif how == 1 and numbers and ints and ints[0][1] > disc:
                source, disc = ints.pop(0)
                tail, text = f" = {source}", str(disc)
            else:
                disc += 1
            if text in taken:
                disc -= 0 if tail else 1
                continue
            taken.add(text)
            lines.append(f"    {head}{v}{tail},")
            texts.append((v, text))
        ns = self.r.choice(["", self.r.choice(URIS)])
        items = ["scalar", self.rule_item(rule), f"ns({self.uri(ns)})" if ns else None]
        nl = "\n"
        self.add(inner, f"#[derive(Clone, Copy, Debug, ToXml, FromXml)]\n{self.attrs(items)}\npub enum {inner} {{\n{nl.join(lines)}\n}}", root=False)
        variants = ", ".join(f"{inner}::{v}" for v, _ in texts)
        all_texts = ", ".join(lit(t) for _, t in texts)
        arms = ", ".join(f"{inner}::{v} => {lit(t)}" for v, t in texts)
        self.out.append(f"""impl Model for {inner} {{
    const ABOUT: About = About {{ texts: Some(&[{all_texts}]), ..About::NONE }};
    fn arb(g: &mut Gen<'_>, _: i32) -> Self {{ *g.rng.pick(&[{variants}]) }}
    fn nodes(&self, field: Field<'_>) -> Vec<Kid> {{ one_of(scalar(self.text().unwrap(), field.map(|(_, n)| ({lit(ns)}, n))), &[{all_texts}]) }}
    fn text(&self) -> Option<String> {{ Some(match self {{ {arms} }}.to_owned()) }}
}}""")
        attr = "" if ns else f"    #[xml(attribute)] pub at: {inner},\n"
        add = "" if ns else 'e.add_attr("", "at", &self.at);'
        arb = "" if ns else "at: Model::arb(g, d), "
        self.add(name, f"#[derive(Clone, Debug, ToXml, FromXml)]\npub struct {name} {{\n{attr}    pub one: {inner},\n    #[xml(direct)] pub text: {inner},\n}}")
        self.out.append(f"""impl Model for {name} {{
    fn arb(g: &mut Gen<'_>, d: i32) -> Self {{ {name} {{ {arb}one: Model::arb(g, d), text: Model::arb(g, d) }} }}
    fn nodes(&self, _: Field<'_>) -> Vec<Kid> {{
        let mut e = Elem::new("", "{name}", Kind::Direct);
        {add} e.add_field(1, self.one.nodes(Some(("", "one")))); e.add_direct(2, &self.text);
        kid(e)
    }}
}}""")

    def namespaces(self, n):
        """Attributes and elements in the namespaces of a container"""
        name = self.new()
        item, default, prefixes = self.ns(n)
        lines, body, arb = [], [], []
        idents = self.r.sample([f for f in FIELDS if not f.startswith("_")], 8)
        for i, ident in enumerate(idents):
            tag = field_case(None, ident)
            if i < 4:
                ns, items = "", ["attribute"]
                if prefixes and self.ch(70):
                    ns = self.r.choice(list(prefixes.values()))
                    items.append(f"ns({CONSTS[ns]})")
                body.append(f"e.add_attr({lit(ns)}, {lit(tag)}, &self.{ident});")
            else:
                ns, items = default, []
                if self.ch(70):
                    ns = self.r.choice(URIS)
                    comma = "," if self.ch(15) else ""
                    items.append(f"ns({self.uri(ns)}{comma})")
                body.append(f"e.add_field({i + 1}, self.{ident}.nodes(Some(({lit(ns)}, {lit(tag)}))));")
            lines.append(f"    {self.attrs(items)} pub {ident}: u16,")
            arb.append(f"{ident}: Model::arb(g, d)")
        items = [item]
        if prefixes and self.ch(30):
            items.append("force_prefix")
        nl = "\n"
        self.add(name, f"#[derive(Clone, Debug, ToXml, FromXml)]\n{self.attrs(items)}\npub struct {name} {{\n{nl.join(lines)}\n}}")
        self.model(name, default, name, body, f"{name} {{ {', '.join(arb)} }}")

    def raw_container(self):
        for ident, kind in [("r#type", "{ pub x: u8 }"), ("r#fn", "(pub Leaf);"), ("r#struct", ";")]:
            name = f"raw{self.n}"
            body = {"r#type": 'e.add_field(1, self.x.nodes(Some(("", "x"))));', "r#fn": "e.add_field(1, self.0.nodes(None));",
                    "r#struct": ""}[ident]
            arb = {"r#type": f"{ident} {{ x: Model::arb(g, d) }}", "r#fn": f"{ident}(Model::arb(g, d))", "r#struct": ident}[ident]
            self.add(ident, f"#[derive(Clone, Debug, ToXml, FromXml)]\n#[allow(non_camel_case_types)]\npub struct {ident} {kind}")
            self.model(ident, "", ident[2:], [body] if body else [], arb)
        self.add("Leaf", "#[derive(Clone, Debug, ToXml, FromXml)]\npub struct Leaf;", root=False)
        self.model("Leaf", "", "Leaf", [], "Leaf")

    def generate(self):
        for rule in [None] + RULES:
            for make in (self.elements, self.attributes, self.transparent, self.scalars):
                make(rule)
        for n in (0, 1, 1, 2, 2, 3, 4) * 3:
            self.namespaces(n)
        self.raw_container()
        self.out.append("pub fn roots() -> Vec<Root> {\n    vec![")
        self.out += [f"        root!({n})," for n in self.roots]
        self.out.append("    ]\n}")
        return "\n".join(self.out)


if __name__ == "__main__":
    print("// Generated by gen/names.py")
    print("use crate::consts::*;")
    seed = int(sys.argv[1])
    dressed = "dressed" in sys.argv
    # Every other time, the traits are not in scope
    by_path = dressed and seed % 2 == 1
    if not by_path:
        print("use instant_xml::{FromXml, ToXml};")
    text = label(Names(seed).generate())
    print(dress(text, random.Random(seed), by_path) if dressed else text)
