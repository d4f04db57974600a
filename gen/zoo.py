#!/usr/bin/env python3
"""Generates random type definitions ("zoo") using the documented derive attributes, together with
an independent `Model` implementation for each: usage zoo.py SEED COUNT > zoo.rs

One in three of the scalar types, according to SEED, is used in each of the places that scalars can have."""
import random
import re
import sys

from wrap import dress, label

URIS = ["urn:a", "http://b.example/ns?x=1;y", "urn:c:x", "HTTP://d.example/D'"]
URI_CONST = {u: f"URI{i}" for i, u in enumerate(URIS)}
XML_URI = "http://www.w3.org/XML/1998/namespace"
PREFIXES = ["p", "q", "r", "ns-v1", "a.b", "p2", "a_rather-long.prefix_of.many-parts", "_", "xm", "B"]
FIELDS = [
    "id", "name", "value", "kind_of", "some_long_name", "x", "r#type", "data", "field", "node", "into",
    "element", "url2", "a_1b", "state", "child", "item", "text_content", "serializer", "deserializer",
    "r#match", "new", "ns", "_under", "nested", "attr", "v0", "prefix", "other_1",
]
RENAMES = ["with-dash", "dotted.name", "élan", "_u", "A", "id", "name", "T0", "漢字", "x-1.y_z", "Value", "type"]
TAGS = ["item", "Item", "node", "a", "b", "root-el", "é", "list.of", "T1", "T2"]
RULES = ["lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case",
         "SCREAMING-KEBAB-CASE"]
VARIANTS = ["Active", "InActive", "HTTPServer", "X", "Two2", "VeryLongName", "Za", "A1B", "Under_Score"]
VNAMES = ["a & b", "<x>", "é", "with space", " padded ", "1.5", "true", "x-y", "]]>", "", "Quote\\\"d", "&amp;"]
PRIMS = ["bool", "i8", "i16", "i32", "i64", "isize", "u8", "u16", "u32", "u64", "usize", "f32", "f64", "char",
         "String", "String", "String", "std::net::IpAddr", "chrono::DateTime<chrono::Utc>", "chrono::NaiveDateTime",
         "chrono::NaiveDate", "Cow<'static, str>"]


def rust_str(s):
    return '"' + s + '"'


def unraw(s):
    return s[2:] if s.startswith("r#") else s


def pascal(f):
    return "".join(w[:1].upper() + w[1:] for w in f.split("_"))


def field_case(rule, f):
    f = unraw(f)
    if rule in (None, "lowercase", "snake_case"):
        return f
    if rule in ("UPPERCASE", "SCREAMING_SNAKE_CASE"):
        return f.upper()
    p = pascal(f)
    if rule == "PascalCase":
        return p
    if rule == "camelCase":
        return p[:1].lower() + p[1:]
    if rule == "kebab-case":
        return f.replace("_", "-")
    return f.upper().replace("_", "-")


def variant_case(rule, v):
    v = unraw(v)
    if rule in (None, "PascalCase"):
        return v
    if rule == "lowercase":
        return v.lower()
    if rule == "UPPERCASE":
        return v.upper()
    if rule == "camelCase":
        return v[:1].lower() + v[1:]
    snake = "".join(("_" if i and c.isupper() else "") + c.lower() for i, c in enumerate(v))
    return {"snake_case": snake, "SCREAMING_SNAKE_CASE": snake.upper(), "kebab-case": snake.replace("_", "-"),
            "SCREAMING-KEBAB-CASE": snake.upper().replace("_", "-")}[rule]


class Ty:
    """A type that can be used in fields"""

    def __init__(self, name, kind, **kw):
        self.name = name  # Rust type, with 'a where a lifetime is needed
        self.kind = kind  # struct tuple unit forward transparent scalar_enum prim generic
        self.ns = ""
        self.ids = set()
        self.lt = False
        self.mind = 0
        self.required = False  # transparent: has a required field
        self.__dict__.update(kw)


class Zoo:
    def __init__(self, seed, count):
        self.r = random.Random(seed)
        self.count = count
        self.slice = seed % 3
        # With few namespaces, nested types share and redeclare each other's
        self.uris = self.r.sample(URIS, self.r.choice([1, 2, 2, 3, 4, 4]))
        self.out = []
        self.scalar_enums = []
        self.types = []
        self.roots = []
        self.n = 0

    # -- helpers ---------------------------------------------------------
    def ch(self, pct):
        return self.r.randrange(100) < pct

    def uri(self, u):
        """A literal or a path to a constant"""
        if u in URI_CONST and self.ch(50):
            return self.r.choice(["", "crate::consts::"]) + URI_CONST[u]
        return rust_str(u)

    def attrs(self, items):
        """#[xml(..)] attributes, split and ordered at random"""
        items = [i for i in items if i]
        if not items:
            return ""
        self.r.shuffle(items)
        groups = [[]]
        for i in items:
            if groups[-1] and self.ch(25):
                groups.append([])
            groups[-1].append(i)
        return " ".join(f"#[xml({', '.join(g)})]" for g in groups)

    def namespace(self):
        """(ns meta item or None, default uri, {prefix: uri})"""
        default = self.r.choice(self.uris) if self.ch(70) else ""
        prefixes = {}
        if self.ch(50):
            for p in self.r.sample(PREFIXES, self.r.choice([1, 1, 2, 3])):
                # Also a prefix for the default namespace
                u = default if default and self.ch(30) else self.r.choice(self.uris)
                if u not in prefixes.values():
                    prefixes[p] = u
        args = []
        if default or (prefixes and self.ch(20)):
            args.append(self.uri(default))
        args += [f"{p} = {self.uri(u)}" for p, u in prefixes.items()]
        if args and self.ch(5):
            args.append("xml = XML")
        return (f"ns({', '.join(args)})" if args else None), default, prefixes

    def new_name(self):
        self.n += 1
        return f"T{self.n}"

    def spell(self, ty):
        """The same type, perhaps by another path"""
        if not self.ch(12):
            return ty
        for what, paths in [("Option<", ["std::option::Option<", "::core::option::Option<"]), ("Vec<", ["std::vec::Vec<", "::std::vec::Vec<"]),
                            ("Box<", ["std::boxed::Box<"]), ("String", ["std::string::String", "::std::string::String"]),
                            ("Cow<", ["std::borrow::Cow<", "::std::borrow::Cow<", "paths::Cow<"])]:
            if what == "String":
                ty = re.sub(r"\bString\b", self.r.choice(paths), ty)
            else:
                ty = ty.replace(what, self.r.choice(paths))
        return ty

    # -- scalars ---------------------------------------------------------
    def scalar_enum(self):
        name = self.new_name()
        rule = self.r.choice(RULES) if self.ch(50) else None
        ns = self.r.choice(self.uris) if self.ch(35) else ""
        items = ["scalar", f'rename_all = "{rule}"' if rule else None, f"ns({self.uri(ns)})" if ns else None]
        used, variants, disc = set(), [], -1
        plain = self.ch(75)
        for v in self.r.sample(VARIANTS, self.r.randrange(1, 7)):
            how = self.r.randrange(4)
            head, tail, text = "", "", variant_case(rule, v)
            if how == 0:
                text = self.r.choice(VNAMES)
                head = f'#[xml(rename = "{text}")] '
                text = text.replace('\\"', '"')
                disc += 1
            elif how == 1 and not plain:
                disc += self.r.randrange(1, 300)
                text = str(disc)
                tail = " = " + self.r.choice([str(disc), hex(disc), f"{disc}isize"])
            else:
                disc += 1
            if text in used:
                continue
            used.add(text)
            variants.append((head, v, tail, text))
        self.out.append(f"#[derive(Clone, Debug, ToXml, FromXml)]\n{self.attrs(items)}\npub enum {name} {{")
        for head, v, tail, _ in variants:
            self.out.append(f"    {head}{v}{tail},")
        self.out.append("}")
        texts = ", ".join(f"{name}::{v} => {rust_str(t.replace(chr(34), chr(92) + chr(34)))}" for _, v, _, t in variants)
        all_texts = ", ".join(rust_str(t.replace('"', '\\"')) for _, _, _, t in variants)
        picks = ", ".join(f"{i} => {name}::{v}" for i, (_, v, _, _) in enumerate(variants[:-1]))
        last = f"_ => {name}::{variants[-1][1]}"
        self.out.append(f"""impl Model for {name} {{
    const ABOUT: About = About {{ texts: Some(&[{all_texts}]), empty_ok: {str('' in used).lower()}, ..About::NONE }};
    fn arb(g: &mut Gen<'_>, _: i32) -> Self {{ match g.rng.below({len(variants)}) {{ {picks + ', ' if picks else ''}{last} }} }}
    fn nodes(&self, field: Field<'_>) -> Vec<Kid> {{ one_of(scalar(self.text().unwrap(), field.map(|(_, n)| ("{ns}", n))), &[{all_texts}]) }}
    fn text(&self) -> Option<String> {{ Some(match self {{ {texts} }}.to_owned()) }}
}}""")
        t = Ty(name, "scalar_enum", ns=ns)
        self.scalar_enums.append(t)
        return t

    def prim(self, borrow=True):
        if borrow and self.ch(8):
            return Ty("Cow<'a, str>", "prim", lt=True)
        return Ty(self.r.choice(PRIMS), "prim")

    def scalar(self, ns=None, borrow=True):
        """Any scalar; only enums in namespace `ns` if that is given"""
        pool = [e for e in self.scalar_enums if ns is None or e.ns == ns]
        if pool and self.ch(25):
            return self.r.choice(pool)
        return self.prim(borrow)

    # -- structs ---------------------------------------------------------
    def composite(self, kinds, lt=True):
        pool = [t for t in self.types if t.kind in kinds and (lt or not t.lt) and t.mind < 6]
        # Prefer recent types for depth
        if pool and self.ch(50):
            pool = pool[-8:]
        return self.r.choice(pool) if pool else None

    def field_idents(self, n, rule):
        names = self.r.sample(FIELDS, n)
        if rule and "KEBAB" in rule.upper():
            names = [("under" if f == "_under" else f) for f in names]
        return names

    def field(self, ident, rule, default, prefixes, ids, self_name, transparent=False, borrow=True):
        """One element field: (attrs, rust type, nodes expr ns, tag, Ty, required)"""
        for _ in range(20):
            tag = field_case(rule, ident)
            items = []
            if self.ch(25):
                tag = self.r.choice(RENAMES)
                items.append(f'rename = "{tag}"')
            ns = default
            if self.ch(30) and not (transparent and self.ch(60)):
                pool = self.uris + list(prefixes.values()) * 2
                ns = self.r.choice(pool)
                items.append(f"ns({self.uri(ns)})")
            kind = self.r.randrange(100)
            wrap = self.r.choice(["{}", "{}", "Option<{}>", "Option<{}>", "Vec<{}>", "Vec<{}>", "Box<{}>", "Option<Box<{}>>",
                                  "Vec<Box<{}>>"])
            if self_name and kind < 10:
                t = Ty(self_name[0], "self", ids={self_name[1]}, lt=False)
                wrap = self.r.choice(["Option<Box<{}>>", "Vec<{}>", "Vec<Box<{}>>"])
                own = t.ids
            elif kind < 55:
                t = self.scalar(borrow=borrow)
                own = {(t.ns if t.kind == "scalar_enum" else ns, tag)}
                if t.name == "Cow<'a, str>":
                    wrap = self.r.choice(["{}", "Option<{}>"])
                elif "Vec" in wrap and t.kind == "prim" and "Cow" not in t.name and self.ch(15):
                    wrap = "Cow<'static, [{}]>"
            else:
                t = self.composite(["struct", "tuple", "unit", "forward", "generic", "transparent"], lt=borrow)
                if t is None:
                    continue
                own = t.ids
                if t.kind == "transparent":
                    if transparent:
                        continue
                    wrap = "Option<{}>" if t.required and self.ch(40) else "{}"
            if own & ids:
                continue
            ids |= own
            if t.lt:
                items.append("borrow")
            required = wrap in ("{}", "Box<{}>")
            if t.kind == "transparent":
                required = required and t.required
            return dict(ident=ident, attrs=self.attrs(items), ty=self.spell(wrap.format(t.name)), ns=ns, tag=tag, lt=t.lt,
                        mind=t.mind if wrap in ("{}", "Box<{}>") else 0, required=required)
        return None

    def container(self):
        item, default, prefixes = self.namespace()
        rule = self.r.choice(RULES) if self.ch(45) else None
        name = self.new_name()
        tag = name
        items = [item, f'rename_all = "{rule}"' if rule else None]
        if self.ch(45):
            tag = self.r.choice(TAGS)
            items.append(f'rename = "{tag}"')
        if prefixes and self.ch(25):
            items.append("force_prefix")
        return name, tag, default, prefixes, rule, items

    def add(self, t, root=True):
        self.types.append(t)
        if root:
            self.roots.append(t)

    def bounds(self, params):
        """(declaration, where clause, parameters of impls of Model)"""
        decl, where = [], []
        for p in params:
            bound = self.r.choice(["", "", "Clone", "Clone + std::fmt::Debug"])
            if bound and self.ch(50):
                where.append(f"{p}: {bound}")
                bound = ""
            decl.append(f"{p}: {bound}" if bound else p)
        model = ", ".join(f"{p}: Model + Clone + std::fmt::Debug" for p in params)
        return f"<{', '.join(decl)}>", f" where {', '.join(where)}" if where else "", f"<{model}>"

    def arguments(self, params, ids, scalar_ns, scalars=True, composites=True):
        """(arguments, depth they need) for a few instantiations of a generic type"""
        found = {}
        for _ in range(8):
            taken, args, mind = set(ids), [], 1
            for _ in params:
                if scalars and (not composites or self.ch(50)):
                    pool = ["u32", "String", "bool", "f64", "char"] + [e.name for e in self.scalar_enums[:3] if e.ns == scalar_ns]
                    args.append(self.r.choice(pool))
                    continue
                t = self.composite(["struct", "tuple", "unit", "forward", "generic"], lt=False)
                if t is None or t.ids & taken or t.mind >= 5:
                    break
                taken |= t.ids
                args.append(t.name)
                mind = max(mind, t.mind + 1)
            if len(args) == len(params):
                found[", ".join(args)] = (taken - set(ids), mind)
        return list(found.items())[:4]

    def struct(self, generic=False):
        name, tag, default, prefixes, rule, items = self.container()
        idents = self.field_idents(self.r.randrange(0, 8), rule)
        lines, body, arb = [], [], []
        lt, mind, aids, ids, slot = False, 0, set(), set(), 0
        targs = []
        if generic:
            targs = self.r.choice([["T"], ["T"], ["T", "U"], ["W"], ["S", "W"], ["D"]])
            for p, ident in zip(targs, ["inner", "other_inner"]):
                gtag = field_case(rule, ident)
                wrap = self.r.choice(["{}", "{}", "Option<{}>", "Vec<{}>", "Box<{}>"])
                lines.append(f"    pub {ident}: {self.spell(wrap.format(p))},")
                slot += 1
                body.append(f'e.add_field({slot}, self.{ident}.nodes(Some(("{default}", "{gtag}"))));')
                arb.append(f"{ident}: Model::arb(g, d - 1)")
                ids.add((default, gtag))
        for ident in idents:
            if self.ch(35):
                # attribute
                ns, fitems = "", ["attribute"]
                ftag = field_case(rule, ident)
                if self.ch(25):
                    ftag = self.r.choice(RENAMES)
                    fitems.append(f'rename = "{ftag}"')
                if prefixes and self.ch(45):
                    ns = self.r.choice(list(prefixes.values()))
                    fitems.append(f"ns({URI_CONST[ns]})")
                elif self.ch(8):
                    # Bound to a prefix without declaration
                    ns = XML_URI
                    fitems.append("ns(XML)")
                if (ns, ftag) in aids:
                    continue
                aids.add((ns, ftag))
                t = self.scalar(ns=ns, borrow=not generic)
                if t.lt:
                    fitems.append("borrow")
                ty = self.r.choice(["{}", "{}", "Option<{}>", "Option<{}>", "Box<{}>"]).format(t.name)
                if t.lt and ty.startswith("Box"):
                    ty = t.name
                ty = self.spell(ty)
                lt |= t.lt
                lines.append(f"    {self.attrs(fitems)} pub {ident}: {ty},")
                body.append(f'e.add_attr("{ns}", "{ftag}", &self.{ident});')
                arb.append(f"{ident}: Model::arb(g, d)")
                continue
            f = self.field(ident, rule, default, prefixes, ids, None if generic else (name, (default, tag)))
            if f is None or (generic and f["lt"]):
                continue
            slot += 1
            lt |= f["lt"]
            mind = max(mind, f["mind"])
            lines.append(f"    {f['attrs']} pub {ident}: {f['ty']},")
            body.append(f'e.add_field({slot}, self.{ident}.nodes(Some(("{f["ns"]}", "{f["tag"]}"))));')
            arb.append(f"{ident}: Model::arb(g, d - 1)")
        kind = "Struct"
        if self.ch(22):
            t = self.scalar(borrow=False)
            opt = self.ch(30) and t.name not in ("String",) and "Cow" not in t.name
            fitems = ["direct"]
            ty = f"Option<{t.name}>" if opt else t.name
            slot += 1
            lines.append(f"    {self.attrs(fitems)} pub direct_text: {ty},")
            body.append(f"e.add_direct({slot}, &self.direct_text);")
            arb.append("direct_text: Model::arb(g, d)")
            kind = "Direct"
        params = "<'a>" if lt else ""
        if lt:
            # A recursive field needs the lifetime as well
            lines = [re.sub(rf"\b{name}\b(?!<)", f"{name}<'a>", l) for l in lines]
            lines = [self.borrow(l, name) for l in lines]
        if self.ch(10):
            lines = [l if self.ch(70) else "    /// Documented\n    #[allow(unused)]\n" + l for l in lines]
        fields = "\n".join(lines)
        decl, where, impl = self.bounds(targs) if generic else (params, "", params)
        text = f"pub struct {name}{decl}{where} {{\n{fields}\n}}"
        if lt and self.ch(30):
            text = re.sub(r"'a\b", self.r.choice(["'xml", "'cx", "'de", "'x"]), text)
        self.out.append(f"#[derive(Clone, Debug, ToXml, FromXml)]\n{self.attrs(items)}\n{text}")
        self.model(name, f"<{', '.join(targs)}>" if generic else params, tag, default, kind, body, f"{name} {{ {', '.join(arb)} }}", impl)
        if generic:
            for args, (_, depth) in self.arguments(targs, ids, default):
                self.add(Ty(f"{name}<{args}>", "generic", ids={(default, tag)}, mind=max(mind, depth)))
            return
        self.add(Ty(name + ("<'a>" if lt else ""), "struct", ns=default, ids={(default, tag)}, lt=lt, mind=mind + 1))

    @staticmethod
    def borrow(line, name):
        if f"{name}<'a>" in line and "borrow" not in line:
            line = "    #[xml(borrow)] " + line.strip()
        return line

    def model(self, name, params, tag, ns, kind, body, arb, impl=""):
        impl = "impl" + impl
        mut = "mut " if body else ""
        self.out.append(f"""{impl} Model for {name}{params} {{
    #[allow(unused_variables)]
    fn arb(g: &mut Gen<'_>, d: i32) -> Self {{ g.budget -= 1; {arb} }}
    fn nodes(&self, _: Field<'_>) -> Vec<Kid> {{
        let {mut}e = Elem::new("{ns}", "{tag}", Kind::{kind});
        {' '.join(body)}
        kid(e)
    }}
}}""")

    def tuple(self):
        name, tag, default, prefixes, rule, items = self.container()
        tys, ids, mind = [], set(), 0
        scalar = self.ch(45)
        for _ in range(self.r.randrange(0 if scalar else 1, 4)):
            t = self.composite(["struct", "tuple", "unit", "forward", "generic"], lt=False)
            if t is None or t.ids & ids:
                continue
            ids |= t.ids
            wrap = self.r.choice(["{}", "Box<{}>"] if scalar else ["{}", "{}", "Option<{}>", "Vec<{}>", "Box<{}>"])
            if wrap in ("{}", "Box<{}>"):
                mind = max(mind, t.mind)
            tys.append(wrap.format(t.name))
        tys_elems = list(tys)
        if scalar or not tys:
            t = self.scalar(borrow=False)
            tys.append(f"Option<{t.name}>" if self.ch(25) and t.kind == "prim" and "String" != t.name and "Cow" not in t.name else t.name)
        self.out.append(f"#[derive(Clone, Debug, ToXml, FromXml)]\n{self.attrs(items)}\npub struct {name}({', '.join('pub ' + self.spell(t) for t in tys)});")
        body = [f"e.add_field({i + 1}, self.{i}.nodes(None));" for i in range(len(tys))]
        self.model(name, "", tag, default, "Scalar" if scalar or not tys_elems else "Tuple", body, f"{name}({', '.join(['Model::arb(g, d - 1)'] * len(tys))})")
        self.add(Ty(name, "tuple", ns=default, ids={(default, tag)}, mind=mind + 1))

    def generic_tuple(self):
        """The parameter comes last, for a scalar or for an element"""
        name, tag, default, prefixes, rule, items = self.container()
        scalar, tys, ids, mind = self.ch(50), [], set(), 1
        for _ in range(self.r.choice([0, 0, 1, 2])):
            t = self.composite(["struct", "tuple", "unit", "forward", "generic"], lt=False)
            if t is None or t.ids & ids:
                continue
            ids |= t.ids
            mind = max(mind, t.mind + 1)
            tys.append(t.name)
        p = self.r.choice(["T", "W"])
        tys.append(p if scalar else self.r.choice(["{}", "Box<{}>", "Option<{}>", "Vec<{}>"]).format(p))
        decl, where, impl = self.bounds([p])
        self.out.append(f"#[derive(Clone, Debug, ToXml, FromXml)]\n{self.attrs(items)}\npub struct {name}{decl}({', '.join('pub ' + self.spell(t) for t in tys)}){where};")
        body = [f"e.add_field({i + 1}, self.{i}.nodes(None));" for i in range(len(tys))]
        self.model(name, f"<{p}>", tag, default, "Scalar" if scalar else "Tuple", body, f"{name}({', '.join(['Model::arb(g, d - 1)'] * len(tys))})", impl)
        for args, (_, depth) in self.arguments([p], ids, None, scalars=scalar, composites=not scalar):
            self.add(Ty(f"{name}<{args}>", "generic", ids={(default, tag)}, mind=max(mind, depth)))

    def generic_forward(self):
        name, ids, variants, mind = self.new_name(), set(), [], 1
        for _ in range(self.r.randrange(0, 3)):
            t = self.composite(["struct", "tuple", "unit", "forward", "generic"], lt=False)
            if t is None or t.ids & ids:
                continue
            ids |= t.ids
            mind = max(mind, t.mind)
            variants.append(t.name)
        p = self.r.choice(["T", "W"])
        variants.insert(self.r.randrange(len(variants) + 1), p if self.ch(70) else f"Box<{p}>")
        decl, where, impl = self.bounds([p])
        self.out.append(f"#[derive(Clone, Debug, ToXml, FromXml)]\n#[xml(forward)]\npub enum {name}{decl}{where} {{ "
                        + ", ".join(f"V{i}({t})" for i, t in enumerate(variants)) + " }")
        n = len(variants)
        arms = [f"{i if i < n - 1 else '_'} => {name}::V{i}(Model::arb(g, d))" for i in range(n)]
        self.out.append(f"""impl{impl} Model for {name}<{p}> {{
    fn arb(g: &mut Gen<'_>, d: i32) -> Self {{ match g.rng.below({n}) {{ {', '.join(arms)} }} }}
    fn nodes(&self, _: Field<'_>) -> Vec<Kid> {{ match self {{ {', '.join(f'{name}::V{i}(x) => forward(x.nodes(None))' for i in range(n))} }} }}
}}""")
        for args, (own, depth) in self.arguments([p], ids, None, scalars=False):
            self.add(Ty(f"{name}<{args}>", "forward", ids=ids | own, mind=max(mind, depth - 1)))

    def unit(self):
        name, tag, default, prefixes, rule, items = self.container()
        self.out.append(f"#[derive(Clone, Debug, ToXml, FromXml)]\n{self.attrs(items)}\npub struct {name};")
        self.model(name, "", tag, default, "Unit", [], name)
        self.add(Ty(name, "unit", ns=default, ids={(default, tag)}, mind=1))

    def forward(self):
        name = self.new_name()
        ids, variants, mind = set(), [], 9
        for _ in range(self.r.randrange(1, 5)):
            t = self.composite(["struct", "tuple", "unit", "forward", "generic"], lt=False)
            if t is None or t.ids & ids:
                continue
            ids |= t.ids
            # Values are generated without looking for the shallowest variant
            mind = t.mind if mind == 9 else max(mind, t.mind)
            variants.append((f"V{len(variants)}", t.name if self.ch(70) else f"Box<{t.name}>"))
        if not variants:
            return
        self.out.append(f"#[derive(Clone, Debug, ToXml, FromXml)]\n#[xml(forward)]\npub enum {name} {{ "
                        + ", ".join(f"{v}({t})" for v, t in variants) + " }")
        n = len(variants)
        arms = [f"{i if i < n - 1 else '_'} => {name}::{v}(Model::arb(g, d))" for i, (v, _) in enumerate(variants)]
        self.out.append(f"""impl Model for {name} {{
    fn arb(g: &mut Gen<'_>, d: i32) -> Self {{ match g.rng.below({n}) {{ {', '.join(arms)} }} }}
    fn nodes(&self, _: Field<'_>) -> Vec<Kid> {{ match self {{ {', '.join(f'{name}::{v}(x) => forward(x.nodes(None))' for v, _ in variants)} }} }}
}}""")
        self.add(Ty(name, "forward", ids=ids, mind=mind))

    def transparent(self, generic=False):
        name = self.new_name()
        rule = self.r.choice(RULES) if self.ch(40) else None
        ids, lines, body, arb = set(), [], [], []
        lt, mind, required, targs = False, 0, False, []

        def add(ident, line, ns, tag, value):
            lines.append(line)
            body.append(f'out.extend(reslot({len(lines)}, transparent(self.{ident}.nodes(Some(("{ns}", "{tag}"))))));')
            arb.append(f"{ident}: {value}")

        if generic:
            targs = self.r.choice([["T"], ["T"], ["T", "U"], ["W"], ["D"]])
            for p, ident in zip(targs, ["inner", "other_inner"]):
                tag = field_case(rule, ident)
                wrap = self.r.choice(["{}", "{}", "Option<{}>", "Vec<{}>", "Box<{}>"])
                required |= wrap in ("{}", "Box<{}>")
                ids.add(("", tag))
                add(ident, f"    pub {ident}: {self.spell(wrap.format(p))},", "", tag, "Model::arb(g, d - 1)")
        for ident in self.field_idents(self.r.randrange(0 if generic else 1, 5), rule):
            f = self.field(ident, rule, "", {}, ids, None, transparent=True, borrow=not generic)
            if f is None:
                continue
            lt |= f["lt"]
            mind = max(mind, f["mind"])
            required |= f["required"]
            add(ident, f"    {f['attrs']} pub {ident}: {f['ty']},", f["ns"], f["tag"], "Model::arb(g, d)")
        if not lines:
            return
        params = f"<{', '.join(targs)}>" if generic else "<'a>" if lt else ""
        decl, where, impl = self.bounds(targs) if generic else (params, "", params)
        items = ["transparent", f'rename_all = "{rule}"' if rule else None]
        fields = "\n".join(lines)
        text = f"pub struct {name}{decl}{where} {{\n{fields}\n}}"
        if lt and self.ch(30):
            text = re.sub(r"'a\b", self.r.choice(["'xml", "'cx", "'de", "'x"]), text)
        self.out.append(f"#[derive(Clone, Debug, ToXml, FromXml)]\n{self.attrs(items)}\n{text}")
        self.out.append(f"""impl{impl} Model for {name}{params} {{
    fn arb(g: &mut Gen<'_>, d: i32) -> Self {{ {name} {{ {', '.join(arb)} }} }}
    fn nodes(&self, _: Field<'_>) -> Vec<Kid> {{
        let mut out = Vec::new();
        {' '.join(body)}
        out
    }}
}}""")
        if generic:
            for args, (own, depth) in self.arguments(targs, ids, ""):
                self.add(Ty(f"{name}<{args}>", "transparent", ids=ids | own, mind=max(mind, depth), required=required), root=False)
            return
        self.add(Ty(name + params, "transparent", ids=ids, lt=lt, mind=mind, required=required), root=False)

    def grid(self):
        """A few scalar types in all places"""
        prims = sorted(set(PRIMS))
        enum = self.r.choice([e.name for e in self.scalar_enums if not e.ns] or ["bool"])
        for s in [p for i, p in enumerate(prims) if i % 3 == self.slice] + [enum]:
            name = self.new_name()
            places = [("a", "{}", True), ("oa", "Option<{}>", True), ("e", "{}", False), ("oe", "Option<{}>", False),
                      ("ve", "Vec<{}>", False), ("be", "Box<{}>", False), ("obe", "Option<Box<{}>>", False)]
            self.r.shuffle(places)
            lines, body, arb = [], [], []
            for i, (f, wrap, attribute) in enumerate(places):
                lines.append(f"    {'#[xml(attribute)] ' if attribute else ''}pub {f}: {wrap.format(s)},")
                body.append(f'e.add_attr("", "{f}", &self.{f});' if attribute else f'e.add_field({i + 1}, self.{f}.nodes(Some(("", "{f}"))));')
                arb.append(f"{f}: Model::arb(g, d - 1)")
            fields = "\n".join(lines)
            self.out.append(f"#[derive(Clone, Debug, ToXml, FromXml)]\npub struct {name} {{\n{fields}\n}}")
            self.model(name, "", name, "", "Struct", body, f"{name} {{ {', '.join(arb)} }}")
            self.add(Ty(name, "struct", ids={("", name)}, mind=1))

            name = self.new_name()
            self.out.append(f"#[derive(Clone, Debug, ToXml, FromXml)]\npub struct {name} {{\n    #[xml(direct)] pub text: {s},\n}}")
            self.model(name, "", name, "", "Direct", ["e.add_direct(1, &self.text);"], f"{name} {{ text: Model::arb(g, d) }}")
            self.add(Ty(name, "struct", ids={("", name)}, mind=1))

            name = self.new_name()
            self.out.append(f"#[derive(Clone, Debug, ToXml, FromXml)]\npub struct {name}(pub {s});")
            self.model(name, "", name, "", "Scalar", ["e.add_field(1, self.0.nodes(None));"], f"{name}(Model::arb(g, d - 1))")
            self.add(Ty(name, "tuple", ids={("", name)}, mind=1))

    def ns_grid(self):
        """Default namespaces and prefixes of nested types in all combinations: own, shared, shadowed, exchanged"""
        a, b, c = self.r.sample(URIS, 3)
        shapes = [{}, {"p": a}, {"p": b}, {"q": a}, {"p": a, "q": b}, {"p": b, "q": a}, {"p": c, "q": a}, {"p": b, "r": c}]
        combos = [(d, m) for d in ("", a, b) for m in shapes]
        self.r.shuffle(combos)
        below = []
        for level, count in enumerate((6, 5, 4)):
            made = []
            for _ in range(count):
                default, prefixes = combos.pop()
                name = self.new_name()
                args = ([self.uri(default)] if default or prefixes and self.ch(30) else []) + [f"{p} = {self.uri(u)}" for p, u in prefixes.items()]
                lines, body, arb = [], [], []
                for p, u in prefixes.items():
                    ty = self.r.choice(["u8", "Option<u8>"])
                    lines.append(f"    #[xml(attribute, ns({URI_CONST[u]}))] pub {p}: {ty},")
                    body.append(f'e.add_attr("{u}", "{p}", &self.{p});')
                    arb.append(f"{p}: Model::arb(g, d)")
                ns = self.r.choice([default, a, b, c])
                fields = [("leaf", "Option<u8>", ns)]
                kids = self.r.sample(below, min(len(below), 4))
                fields += [(f"kid{i}", self.r.choice(["{}", "Option<{}>", "Vec<{}>"]).format(k), None) for i, k in enumerate(kids)]
                self.r.shuffle(fields)
                for slot, (ident, ty, own) in enumerate(fields):
                    lines.append("    " + (f"#[xml(ns({self.uri(own)}))] " if own is not None and own != default else "") + f"pub {ident}: {ty},")
                    body.append(f'e.add_field({slot + 1}, self.{ident}.nodes(Some(("{own}", "{ident}"))));')
                    arb.append(f"{ident}: Model::arb(g, d - 1)")
                items = [f"ns({', '.join(args)})" if args else None, "force_prefix" if prefixes and self.ch(25) else None]
                fields = "\n".join(lines)
                self.out.append(f"#[derive(Clone, Debug, ToXml, FromXml)]\n{self.attrs(items)}\npub struct {name} {{\n{fields}\n}}")
                self.model(name, "", name, default, "Struct", body, f"{name} {{ {', '.join(arb)} }}")
                self.add(Ty(name, "struct", ns=default, ids={(default, name)}, mind=level + 1))
                made.append(name)
            below = made + below[:2]

    def prefix_grid(self):
        """Each prefix in all places that prefixes are written in"""
        for i, p in enumerate(PREFIXES):
            if i % 3 != self.slice:
                continue
            a, b = self.r.sample(["", *URIS], 2) if self.ch(50) else self.r.sample(URIS, 2)
            if not b:
                a, b = b, a
            leaf, name = self.new_name(), self.new_name()
            tag = self.r.choice([name, *TAGS])
            attr = lambda ident, ty: (f"#[xml(attribute, ns({URI_CONST[b]}))] pub {ident}: {ty}", f'e.add_attr("{b}", "{ident}", &self.{ident});', ident)
            field = lambda slot, ident, ty, ns: (f"{f'#[xml(ns({self.uri(ns)}))] ' if ns is not None else ''}pub {ident}: {ty}",
                                                 f'e.add_field({slot}, self.{ident}.nodes(Some(("{ns}", "{ident}"))));', ident)
            def emit(name, tag, ns, kind, items, fields):
                lines = ",\n".join("    " + f[0] for f in fields)
                self.out.append(f"#[derive(Clone, Debug, ToXml, FromXml)]\n{self.attrs(items)}\npub struct {name} {{\n{lines},\n}}")
                arb = ", ".join(f"{f[2]}: Model::arb(g, d - 1)" for f in fields)
                self.model(name, "", tag, ns, kind, [f[1] for f in fields], f"{name} {{ {arb} }}")
                self.add(Ty(name, "struct", ns=ns, ids={(ns, tag)}, mind=2))
            prims = [t for t in PRIMS if t != "()"]
            emit(leaf, leaf, b, "Struct", [f"ns({self.uri(b)})", *(["force_prefix"] if self.ch(40) else [])],
                 [field(1, "v", self.r.choice(prims), b)])
            scalars = [("one", self.r.choice(prims)), ("text", "String"), ("many", f"Vec<{self.r.choice(prims)}>"),
                       ("maybe", f"Option<{self.r.choice(prims)}>")]
            self.r.shuffle(scalars)
            fields = [attr("at", self.r.choice(prims)), attr("other", f"Option<{self.r.choice(prims)}>")]
            fields += [field(n + 1, ident, ty, b) for n, (ident, ty) in enumerate(scalars)]
            fields.append(field(9, "leaf", self.r.choice(["{}", "Option<{}>", "Vec<{}>", "Box<{}>"]).format(leaf), None))
            head = [self.uri(a)] if a else self.r.choice([[], ['""']])
            emit(name, tag, a, "Struct", [f"ns({', '.join([*head, f'{p} = {self.uri(b)}'])})", f'rename = "{tag}"',
                                          *(["force_prefix"] if self.ch(25) else [])], fields)

    def names_grid(self):
        """One local name in several namespaces: as variants, as fields, as attributes, as inlined fields"""
        for _ in range(2):
            a, b = self.r.sample(URIS, 2)
            tag = self.r.choice(TAGS)
            prims = [t for t in PRIMS if t != "()"]
            spaces = ["", a, b]
            self.r.shuffle(spaces)
            made = []
            for ns in spaces:
                name = self.new_name()
                items = [f"ns({self.uri(ns)})" if ns else None, f'rename = "{tag}"']
                how = self.r.choice(["Unit", "Struct", "Scalar"])
                if how == "Unit":
                    self.out.append(f"#[derive(Clone, Debug, ToXml, FromXml)]\n{self.attrs(items)}\npub struct {name};")
                    self.model(name, "", tag, ns, "Unit", [], name)
                elif how == "Struct":
                    self.out.append(f"#[derive(Clone, Debug, ToXml, FromXml)]\n{self.attrs(items)}\npub struct {name} {{ #[xml(rename = \"{tag}\")] pub v: {self.r.choice(prims)} }}")
                    self.model(name, "", tag, ns, "Struct", [f'e.add_field(1, self.v.nodes(Some(("{ns}", "{tag}"))));'], f"{name} {{ v: Model::arb(g, d - 1) }}")
                else:
                    self.out.append(f"#[derive(Clone, Debug, ToXml, FromXml)]\n{self.attrs(items)}\npub struct {name}(pub {self.r.choice(prims)});")
                    self.model(name, "", tag, ns, "Scalar", ["e.add_field(1, self.0.nodes(None));"], f"{name}(Model::arb(g, d - 1))")
                self.add(Ty(name, how.lower(), ns=ns, ids={(ns, tag)}, mind=1))
                made.append((ns, name))

            either = self.new_name()
            self.r.shuffle(made)
            self.out.append(f"#[derive(Clone, Debug, ToXml, FromXml)]\n#[xml(forward)]\npub enum {either} {{ " + ", ".join(f"V{i}({t})" for i, (_, t) in enumerate(made)) + " }")
            arms = [f"{i if i < 2 else '_'} => {either}::V{i}(Model::arb(g, d))" for i in range(3)]
            self.out.append(f"""impl Model for {either} {{
    fn arb(g: &mut Gen<'_>, d: i32) -> Self {{ match g.rng.below(3) {{ {', '.join(arms)} }} }}
    fn nodes(&self, _: Field<'_>) -> Vec<Kid> {{ match self {{ {', '.join(f'{either}::V{i}(x) => forward(x.nodes(None))' for i in range(3))} }} }}
}}""")
            self.add(Ty(either, "forward", ids={(ns, tag) for ns, _ in made}, mind=1))

            # Fields of the three types, or scalars, under the one name; sometimes inlined from another type
            scalars = [(ns, self.r.choice(["{}", "Option<{}>", "Vec<{}>"]).format(self.r.choice(prims))) for ns in spaces]
            for kinds in ("types", "scalars", "either"):
                fields = {"types": [(ns, self.r.choice(["{}", "Option<{}>", "Vec<{}>"]).format(t)) for ns, t in made], "scalars": scalars,
                          "either": [("", self.r.choice([either, f"Vec<{either}>", f"Option<{either}>"]))]}[kinds]
                self.r.shuffle(fields)
                own = self.r.choice(spaces)
                lines, body, arb = [], [], []
                for i, (ns, ty) in enumerate(fields):
                    items = [f'rename = "{tag}"'] if kinds != "either" else []
                    if kinds == "scalars":
                        items.append(f"ns({self.uri(ns)})")
                    lines.append(f"    {self.attrs(items)}\n    pub f{i}: {ty},")
                    body.append(f'e.add_field({i + 1}, self.f{i}.nodes(Some(("{ns}", "{tag}"))));')
                    arb.append(f"f{i}: Model::arb(g, d - 1)")
                name = self.new_name()
                attrs = [f'    #[xml(attribute, rename = "{tag}")] pub a0: {self.r.choice(prims)},',
                         f'    #[xml(attribute, ns({URI_CONST[a]}), rename = "{tag}")] pub a1: {self.r.choice(prims)},',
                         f'    #[xml(attribute, rename = "{tag}", ns({URI_CONST[b]}))] pub a2: Option<{self.r.choice(prims)}>,']
                order = [("", "a0", attrs[0]), (a, "a1", attrs[1]), (b, "a2", attrs[2])]
                self.r.shuffle(order)
                head = [self.uri(own) if own else '""', f"p = {self.uri(a)}", f"q = {self.uri(b)}"]
                nl = "\n"
                self.out.append(f"#[derive(Clone, Debug, ToXml, FromXml)]\n{self.attrs([f'ns({chr(44).join(head)})'])}\npub struct {name} {{\n{nl.join(l for _, _, l in order)}\n{nl.join(lines)}\n}}")
                self.model(name, "", name, own, "Struct", [f'e.add_attr("{ns}", "{tag}", &self.{f});' for ns, f, _ in order]
                           + body,
                           f"{name} {{ {', '.join(arb)}, a0: Model::arb(g, d), a1: Model::arb(g, d), a2: Model::arb(g, d) }}")
                self.add(Ty(name, "struct", ns=own, ids={(own, name)}, mind=2))

    # --------------------------------------------------------------------
    def generate(self):
        for _ in range(max(4, self.count // 10)):
            self.scalar_enum()
        self.grid()
        self.ns_grid()
        self.prefix_grid()
        self.names_grid()
        makers = [self.struct] * 11 + [self.tuple] * 3 + [self.unit] + [self.forward] * 3 + [self.transparent] * 3
        while len(self.types) < self.count:
            if self.ch(12):
                self.r.choice([lambda: self.struct(generic=True)] * 3 + [lambda: self.transparent(generic=True), self.generic_tuple, self.generic_forward])()
            else:
                self.r.choice(makers)()
        self.out.append("pub fn roots() -> Vec<Root> {\n    vec![")
        for t in self.roots:
            if t.lt:
                s = t.name.replace("<'a>", "")
                self.out.append(f"        root!({s}<'static>, {s}<'_>),")
            else:
                self.out.append(f"        root!({t.name}),")
        self.out.append("    ]\n}")
        return "\n".join(self.out)


def main():
    seed, count = map(int, sys.argv[1:3])
    print("// Generated by gen/zoo.py")
    print("use crate::consts::*;")
    print("use instant_xml::{FromXml, ToXml};")
    text = label(Zoo(seed, count).generate())
    print(dress(text, random.Random(seed)) if "dressed" in sys.argv else text)


if __name__ == "__main__":
    main()
