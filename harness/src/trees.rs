//! Free-form documents: capture (C14), namespaces (C07), malformed input (C08, C09) and limits
//! (C10), judged by the reference parser.

use std::borrow::Cow;
use std::collections::BTreeMap;

use instant_xml::de::{Limits, Node as XmlNode};
use instant_xml::{from_str, AnyElement, Deserializer, Error, FromXml, Id, Kind as XmlKind};

use crate::infoset::{About, Attr, Card, Elem, Kid, Kind, Node};
use crate::model::{arb_string, unlimited};
use crate::refxml::{self, Class, Doc, XML_NS};
use crate::render::{render, Style, PREFIXES};
use crate::rng::Rng;
use crate::runner::{Campaign, Cx};
use crate::text::out_of_scope;

pub const NAMES: &[&str] = &["a", "b", "item", "é", "x-1.y", "_", "A", "漢字", "known", "xmlnsish"];
pub const URIS: &[&str] = &["", "", "urn:a", "urn:b", "http://x.example/?a=1;b", "urn:A"];

/// An arbitrary element of at most `budget` elements
pub fn tree(r: &mut Rng, budget: &mut i32, depth: usize) -> Elem {
    *budget -= 1;
    let ns = *r.pick(URIS);
    let mut e = Elem::new(ns, *r.pick(NAMES), Kind::Unknown);
    let n = match r.below(10) {
        0..=4 => 0,
        5..=8 => r.range(1, 3),
        _ => r.range(4, 20),
    };
    for i in 0..n {
        let ns = match r.below(6) {
            0..=2 => "",
            3 => XML_NS,
            _ => *r.pick(URIS),
        };
        let name = match r.chance(70) {
            true => (*r.pick(NAMES)).to_owned(),
            false => format!("k{i}"),
        };
        if !e.attrs.iter().any(|a| a.ns == ns && a.name == name) {
            let value = short_text(r);
            e.attrs.push(Attr { ns: ns.into(), name, value, card: Card::Unknown, about: About::NONE, label: "" });
        }
    }
    let n = match r.below(10) {
        0 | 1 => 0,
        2..=7 => r.range(1, 4),
        _ => r.range(4, 12),
    };
    for _ in 0..n {
        match depth > 0 && *budget > 0 && r.chance(60) {
            true => e.kids.push(Kid::new(Node::E(tree(r, budget, depth - 1)))),
            false => e.kids.push(Kid::text(short_text(r))),
        }
    }
    e
}

pub fn short_text(r: &mut Rng) -> String {
    match r.below(4) {
        0 => String::new(),
        1 => (*r.pick(&["x", "text", " ", "\n  ", "1", "é"])).to_owned(),
        _ => {
            let s = arb_string(r);
            s.chars().take(40).collect()
        }
    }
}

pub fn any_tree(r: &mut Rng) -> Elem {
    if r.chance(6) {
        let levels = r.range(5, 28);
        return chain(r, levels);
    }
    let mut budget = *r.pick(&[1, 4, 12, 40]);
    let depth = *r.pick(&[1, 3, 6, 28]);
    tree(r, &mut budget, depth)
}

/// A chain of `levels` elements with something at the bottom
fn chain(r: &mut Rng, levels: usize) -> Elem {
    // Often all in one namespace
    let (same, uri) = (r.chance(50), *r.pick(URIS));
    let ns = |r: &mut Rng| if same && r.chance(95) { uri } else { *r.pick(URIS) };
    let mut e = Elem::new(ns(r), "leaf", Kind::Unknown).text("t");
    for _ in 1..levels {
        let mut outer = Elem::new(ns(r), *r.pick(NAMES), Kind::Unknown);
        if r.chance(30) {
            outer.kids.push(Kid::text("x"));
        }
        outer.kids.push(Kid::new(Node::E(e)));
        if r.chance(20) {
            outer.kids.push(Kid::new(Node::E(Elem::new("", "z", Kind::Unknown))));
        }
        e = outer;
    }
    e
}

/// Whether a captured element is the parsed one
pub fn same(any: &AnyElement<'_>, e: &Elem) -> Result<(), String> {
    let id = |ns: &str, name: &str| format!("{{{ns}}}{name}");
    if any.ns != e.ns || any.name != e.name {
        return Err(format!("element {} captured as {}", id(&e.ns, &e.name), id(&any.ns, &any.name)));
    }
    let at = id(&e.ns, &e.name);
    let want: Vec<_> = e.attrs.iter().map(|a| (a.ns.as_str(), a.name.as_str(), a.value.as_str())).collect();
    let got: Vec<_> = any.attributes.iter().map(|a| (&*a.ns, &*a.name, &*a.value)).collect();
    if want != got {
        return Err(format!("{at}: attributes {want:?} captured as {got:?}"));
    }
    let text = e.own_text();
    if any.text.as_deref().unwrap_or("") != text {
        return Err(format!("{at}: text {text:?} captured as {:?}", any.text));
    }
    let kids: Vec<_> = e.kids.iter().filter_map(|k| k.elem()).collect();
    if kids.len() != any.children.len() {
        return Err(format!("{at}: {} children captured as {}", kids.len(), any.children.len()));
    }
    kids.iter().zip(&any.children).try_for_each(|(k, c)| same(c, k))
}

/// Consumes any element
#[derive(Debug)]
struct Skip;
impl<'xml> FromXml<'xml> for Skip {
    fn matches(_: Id<'_>, _: Option<Id<'_>>) -> bool {
        true
    }
    fn deserialize<'cx>(
        into: &mut Self::Accumulator,
        _: &'static str,
        de: &mut Deserializer<'cx, 'xml>,
    ) -> Result<(), Error> {
        *into = Some(Skip);
        de.ignore()
    }
    type Accumulator = Option<Self>;
    const KIND: XmlKind = XmlKind::Element;
}

/// Leaves its element unconsumed: the rest is up to `Deserializer::deserialize()`
#[derive(Debug)]
struct Nothing;
impl<'xml> FromXml<'xml> for Nothing {
    fn matches(_: Id<'_>, _: Option<Id<'_>>) -> bool {
        true
    }
    fn deserialize<'cx>(
        into: &mut Self::Accumulator,
        _: &'static str,
        _: &mut Deserializer<'cx, 'xml>,
    ) -> Result<(), Error> {
        *into = Some(Nothing);
        Ok(())
    }
    type Accumulator = Option<Self>;
    const KIND: XmlKind = XmlKind::Element;
}

/// Knows no fields, so that everything within is ignored by derived code
#[derive(Debug, FromXml)]
#[xml(rename = "a")]
struct Empty0 {}
#[derive(Debug, FromXml)]
#[xml(rename = "b")]
struct Empty1 {}
#[derive(Debug, FromXml)]
#[xml(rename = "item", ns("urn:a"))]
struct Empty2 {}
#[derive(Debug, FromXml)]
#[xml(rename = "a", ns("urn:b"))]
struct Empty3 {}

/// All nodes, through nested deserializers; the number of nodes
fn pull(de: &mut Deserializer<'_, '_>) -> Result<usize, Error> {
    let mut n = 0;
    loop {
        match de.next() {
            None => return Ok(n),
            Some(Err(e)) => return Err(e),
            Some(Ok(XmlNode::Open(e))) => {
                n += 1;
                n += pull(&mut de.nested(e))?;
            }
            Some(Ok(_)) => n += 1,
        }
    }
}

type Target = fn(&str) -> Result<(), Error>;

/// Targets that take any root element and look at no more than syntax (by how little they look)
const SYNTAX_TARGETS: &[(&str, Target)] = &[
    ("ignoring type", |s| from_str::<Skip>(s).map(drop)),
    ("type that reads nothing", |s| from_str::<Nothing>(s).map(drop)),
    ("pulled", |s| {
        let mut de = Deserializer::new(s)?;
        pull(&mut de).map(drop)
    }),
];

const EMPTY_TARGETS: &[(&str, &str, &str, Target)] = &[
    ("a", "", "empty struct", |s| from_str::<Empty0>(s).map(drop)),
    ("b", "", "empty struct", |s| from_str::<Empty1>(s).map(drop)),
    ("item", "urn:a", "empty struct", |s| from_str::<Empty2>(s).map(drop)),
    ("a", "urn:b", "empty struct", |s| from_str::<Empty3>(s).map(drop)),
];

fn within_defaults(d: &Doc) -> bool {
    let l = Limits::default();
    d.max_depth <= l.max_levels && d.max_attrs <= l.max_attributes && d.max_decls <= l.max_ns_declarations
}

// C14 -------------------------------------------------------------------

fn capture(cx: &mut Cx) -> Result<(), String> {
    let m = any_tree(&mut cx.rng);
    let style = match cx.rng.chance(70) {
        true => Style::ALL,
        false => Style::random(&mut cx.rng),
    };
    let xml = render(&m, style, &mut cx.rng);
    cx.input = xml.clone();
    cx.sample(|| xml.clone());
    let doc = refxml::parse(&xml).unwrap_or_else(|e| panic!("renderer: {e:?}: {xml}"));
    assert_eq!(doc.root.canon(), m.canon(), "renderer: {xml}");
    if m.count() > 1 || !m.attrs.is_empty() {
        cx.distinct(xml.as_bytes());
    }
    cx.saw_n("elements", m.count() as u64);
    if !within_defaults(&doc) {
        return Ok(());
    }
    let any = from_str::<AnyElement>(&xml).map_err(|e| format!("{e}\nxml: {xml}"))?;
    same(&any, &doc.root).map_err(|e| format!("{e}\nxml: {xml}"))?;
    cx.saw("elements captured as root");
    let (dbg, copy) = (format!("{any:?}"), any.clone());
    let owned = any.into_owned();
    if owned != copy || format!("{owned:?}") != dbg {
        return Err(format!("into_owned() differs\nwant: {dbg}\ngot:  {owned:?}"));
    }
    let mut all_owned = true;
    walk_any(&owned, &mut |s| all_owned &= matches!(s, Cow::Owned(_)));
    if !all_owned {
        return Err(format!("into_owned() borrows: {owned:?}"));
    }
    drop(copy);
    let mut bytes = xml.into_bytes();
    bytes.fill(b'#');
    drop(bytes);
    match format!("{owned:?}") == dbg {
        true => Ok(()),
        false => Err(format!("into_owned() value changed with its input\nwant: {dbg}\ngot:  {owned:?}")),
    }
}

fn walk_any<'a>(e: &'a AnyElement<'static>, f: &mut dyn FnMut(&'a Cow<'static, str>)) {
    f(&e.ns);
    f(&e.name);
    e.text.iter().for_each(&mut *f);
    for a in &e.attributes {
        f(&a.ns);
        f(&a.name);
        f(&a.value);
    }
    e.children.iter().for_each(|c| walk_any(c, f));
}

#[derive(Debug, FromXml)]
#[xml(rename = "holder", ns("urn:holder"))]
struct Holder<'a> {
    #[xml(attribute)]
    k: Option<String>,
    known: Option<String>,
    #[xml(borrow)]
    rest: Vec<AnyElement<'a>>,
}
#[derive(Debug, FromXml)]
#[xml(rename = "holder", ns("urn:holder"))]
struct OneHolder<'a> {
    known: Option<String>,
    #[xml(borrow)]
    any: AnyElement<'a>,
}
#[derive(Debug, FromXml)]
#[xml(rename = "holder", ns("urn:holder"))]
struct OptHolder<'a> {
    known: Option<String>,
    #[xml(borrow)]
    any: Option<AnyElement<'a>>,
}
#[derive(Debug, FromXml)]
#[xml(rename = "holder", ns("urn:holder"))]
struct BoxHolder<'a> {
    #[xml(borrow)]
    any: Box<AnyElement<'a>>,
}
#[derive(Debug, FromXml)]
#[xml(rename = "holder", ns("urn:holder"))]
struct OptBoxHolder<'a> {
    known: Option<String>,
    #[xml(borrow)]
    any: Option<Box<AnyElement<'a>>>,
}
#[derive(Debug, FromXml)]
#[xml(rename = "holder", ns("urn:holder"))]
struct CowHolder<'a> {
    known: Option<String>,
    #[xml(borrow)]
    rest: Cow<'a, [AnyElement<'a>]>,
}
#[derive(Debug, FromXml)]
#[xml(rename = "holder", ns("urn:holder"))]
struct OuterHolder<'a> {
    #[xml(borrow)]
    inlined: Inlined<'a>,
}
#[derive(Debug, FromXml)]
#[xml(transparent)]
struct Inlined<'a> {
    #[xml(ns("urn:holder"))]
    known: Option<String>,
    #[xml(borrow)]
    rest: Vec<AnyElement<'a>>,
}
fn capture_fields(cx: &mut Cx) -> Result<(), String> {
    let r = &mut cx.rng;
    let mut h = Elem::new("urn:holder", "holder", Kind::Unknown);
    let mut rest = Vec::new();
    let known = r.chance(60).then(|| short_text(r));
    let n = *r.pick(&[0, 1, 1, 1, 2, 3, 6]);
    let at = r.below(n + 1);
    for i in 0..=n {
        if i == at {
            if let Some(t) = &known {
                h = h.child(Elem::new("urn:holder", "known", Kind::Scalar).text(t));
            }
        }
        if i < n {
            let t = any_tree(r);
            h = h.child(t.clone());
            rest.push(t);
        }
    }
    let k = r.chance(50).then(|| short_text(r));
    if let Some(k) = &k {
        h = h.attr("", "k", k);
    }
    h.kind = Kind::Struct;
    let style = Style { inter: true, ..Style::random(r) };
    let xml = render(&h, style, r);
    cx.input = xml.clone();
    cx.sample(|| xml.clone());
    cx.distinct(xml.as_bytes());
    let doc = refxml::parse(&xml).unwrap_or_else(|e| panic!("renderer: {e:?}: {xml}"));
    if !within_defaults(&doc) {
        return Ok(());
    }
    let want: Vec<_> =
        doc.root.kids.iter().filter_map(|k| k.elem()).filter(|e| e.ns != "urn:holder" || e.name != "known").collect();
    assert_eq!(want.len(), rest.len());
    let check = |what: &str, got: Vec<&AnyElement<'_>>, got_known: Option<&str>| {
        if got.len() != want.len() {
            return Err(format!("{what}: {} elements captured as {}\nxml: {xml}", want.len(), got.len()));
        }
        if got_known != known.as_deref() {
            return Err(format!("{what}: other field is {got_known:?}, not {known:?}\nxml: {xml}"));
        }
        got.iter().zip(&want).try_for_each(|(g, w)| same(g, w)).map_err(|e| format!("{what}: {e}\nxml: {xml}"))
    };
    let fail = |what: &str, e: Error| Err(format!("{what}: {e}\nxml: {xml}"));
    match from_str::<Holder>(&xml) {
        Ok(v) if v.k == k => check("list", v.rest.iter().collect(), v.known.as_deref())?,
        Ok(v) => return Err(format!("list: attribute is {:?}, not {k:?}\nxml: {xml}", v.k)),
        Err(e) => return fail("list", e),
    }
    match from_str::<OneHolder>(&xml) {
        Ok(v) => check("single", vec![&v.any], v.known.as_deref())?,
        Err(_) if n != 1 => {}
        Err(e) => return fail("single", e),
    }
    match from_str::<OptHolder>(&xml) {
        Ok(v) => check("optional", v.any.iter().collect(), v.known.as_deref())?,
        Err(_) if n > 1 => {}
        Err(e) => return fail("optional", e),
    }
    match from_str::<BoxHolder>(&xml) {
        // Here it takes what is known elsewhere, too
        Ok(v) if known.is_none() => check("box", vec![&v.any], None)?,
        Ok(v) if n == 0 => same(&v.any, doc.root.kids.iter().find_map(|k| k.elem()).unwrap())?,
        Ok(v) => return Err(format!("box: the only element is {v:?}\nxml: {xml}")),
        Err(_) if n + known.is_some() as usize != 1 => {}
        Err(e) => return fail("box", e),
    }
    match from_str::<OptBoxHolder>(&xml) {
        Ok(v) => check("optional box", v.any.iter().map(|a| &**a).collect(), v.known.as_deref())?,
        Err(_) if n > 1 => {}
        Err(e) => return fail("optional box", e),
    }
    match from_str::<CowHolder>(&xml) {
        Ok(v) => check("slice", v.rest.iter().collect(), v.known.as_deref())?,
        Err(e) => return fail("slice", e),
    }
    match from_str::<OuterHolder>(&xml) {
        Ok(v) => check("transparent", v.inlined.rest.iter().collect(), v.inlined.known.as_deref())?,
        Err(e) => return fail("transparent", e),
    }
    cx.saw_n("elements captured in fields", n as u64);
    Ok(())
}

// C07 -------------------------------------------------------------------

/// Names as the deserializer resolves them while its caller walks the document
fn resolve(de: &mut Deserializer<'_, '_>, e: &Elem, scopes: &mut Vec<BTreeMap<String, String>>) -> Result<(), String> {
    let mut scope = scopes.last().cloned().unwrap_or_default();
    scope.extend(e.decls.iter().cloned());
    scopes.push(scope);
    let scope = scopes.last().unwrap();
    let id = de.parent();
    if id.ns != e.ns || id.name != e.name {
        return Err(format!("parent() is {id:?} in {{{}}}{}", e.ns, e.name));
    }
    for p in PREFIXES.iter().copied().chain(["nope"]) {
        let want = scope.get(p).map(String::as_str);
        if de.namespace(p) != want {
            return Err(format!("namespace({p:?}) is {:?}, not {want:?} in {{{}}}{}", de.namespace(p), e.ns, e.name));
        }
    }
    if de.namespace("xml") != Some(XML_NS) {
        return Err("namespace(\"xml\") is not the XML namespace".into());
    }
    let mut attrs = e.attrs.iter();
    let mut kids = e.kids.iter().filter_map(|k| k.elem());
    loop {
        match de.next() {
            None => break,
            Some(Err(err)) => return Err(err.to_string()),
            Some(Ok(XmlNode::Attribute(a))) => {
                let id = de.attribute_id(&a).map_err(|e| e.to_string())?;
                match attrs.next() {
                    Some(w) if w.ns == id.ns && w.name == id.name => {}
                    w => return Err(format!("attribute {a:?} is resolved to {id:?}, not {w:?}")),
                }
            }
            Some(Ok(XmlNode::Open(el))) => {
                let id = de.element_id(&el).map_err(|e| e.to_string())?;
                match kids.next() {
                    Some(w) if w.ns == id.ns && w.name == id.name => resolve(&mut de.nested(el), w, scopes)?,
                    w => return Err(format!("element {el:?} is resolved to {id:?}, not {:?}", w.map(|w| (&w.ns, &w.name)))),
                }
            }
            Some(Ok(_)) => {}
        }
    }
    scopes.pop();
    match (attrs.next(), kids.next()) {
        (None, None) => Ok(()),
        _ => Err("attributes or elements are missing".into()),
    }
}

fn names(cx: &mut Cx) -> Result<(), String> {
    let m = any_tree(&mut cx.rng);
    let style = Style { ns: true, tags: cx.rng.chance(30), ..Style::PLAIN };
    let xml = render(&m, style, &mut cx.rng);
    cx.input = xml.clone();
    cx.sample(|| xml.clone());
    let doc = refxml::parse(&xml).unwrap_or_else(|e| panic!("renderer: {e:?}: {xml}"));
    if !within_defaults(&doc) {
        return Ok(());
    }
    cx.distinct(xml.as_bytes());
    cx.saw_n("elements", m.count() as u64);
    cx.saw_n("namespace declarations", xml.matches("xmlns").count() as u64);
    let mut de = Deserializer::new(&xml).map_err(|e| format!("{e}\nxml: {xml}"))?;
    resolve(&mut de, &doc.root, &mut Vec::new()).map_err(|e| format!("{e}\nxml: {xml}"))
}

/// An undeclared prefix, or one that is out of scope, on an element or attribute
fn unbound(cx: &mut Cx) -> Result<(), String> {
    let m = any_tree(&mut cx.rng);
    let xml = render(&m, Style { ns: true, ..Style::PLAIN }, &mut cx.rng);
    // Break one declaration or use of a prefix
    let spots: Vec<usize> = xml.match_indices("xmlns:").map(|(i, _)| i + 6).collect();
    let uses: Vec<usize> = xml.match_indices(['<', ' ']).map(|(i, _)| i + 1).filter(|i| xml[*i..].starts_with(|c: char| c.is_alphabetic())).collect();
    let broken = match (!spots.is_empty() && cx.rng.chance(60), uses.is_empty()) {
        (true, _) => {
            let i = *cx.rng.pick(&spots);
            format!("{}Z{}", &xml[..i], &xml[i..])
        }
        (_, false) => {
            let i = *cx.rng.pick(&uses);
            let p = *cx.rng.pick(&["nope:", "b:", "xsi:", "A:"]);
            format!("{}{p}{}", &xml[..i], &xml[i..])
        }
        _ => return Ok(()),
    };
    cx.input = broken.clone();
    match refxml::parse(&broken) {
        Err(e) if e.class == Class::UnboundPrefix => {
            cx.distinct(broken.as_bytes());
            cx.saw("undeclared prefixes");
            match from_str::<AnyElement>(&broken) {
                Err(_) => Ok(()),
                Ok(any) => Err(format!("undeclared prefix accepted: {any:?}\nxml: {broken}")),
            }
        }
        Ok(doc) if within_defaults(&doc) && !out_of_scope(&broken) => {
            let any = from_str::<AnyElement>(&broken).map_err(|e| format!("{e}\nxml: {broken}"))?;
            same(&any, &doc.root).map_err(|e| format!("{e}\nxml: {broken}"))
        }
        _ => Ok(()),
    }
}

#[derive(Debug, FromXml)]
#[xml(rename = "r", ns("urn:r", p = "urn:p"))]
struct AttrNs {
    #[xml(attribute)]
    plain: Option<String>,
    #[xml(attribute, ns("urn:p"))]
    there: Option<String>,
    #[xml(attribute, ns("urn:r"))]
    own: Option<String>,
    #[xml(attribute, rename = "there")]
    there_plain: Option<String>,
}

/// Unprefixed attributes are in no namespace, whatever the namespace of the element
fn attributes_ns(cx: &mut Cx) -> Result<(), String> {
    let r = &mut cx.rng;
    let mut e = Elem::new("urn:r", "r", Kind::Unknown);
    for ns in ["", "urn:p", "urn:r", "urn:q", XML_NS] {
        for name in ["plain", "there", "own"] {
            if r.chance(35) {
                e = e.attr(ns, name, &format!("{ns}/{name}"));
            }
        }
    }
    r.shuffle(&mut e.attrs);
    let xml = render(&e, Style { ns: true, tags: true, ..Style::PLAIN }, r);
    cx.input = xml.clone();
    cx.sample(|| xml.clone());
    cx.distinct(xml.as_bytes());
    cx.saw_n("attributes", e.attrs.len() as u64);
    let find = |ns: &str, name: &str| e.attrs.iter().find(|a| a.ns == ns && a.name == name).map(|a| a.value.clone());
    let v = from_str::<AttrNs>(&xml).map_err(|e| format!("{e}\nxml: {xml}"))?;
    let got = [v.plain, v.there, v.own, v.there_plain];
    let want = [find("", "plain"), find("urn:p", "there"), find("urn:r", "own"), find("", "there")];
    match got == want {
        true => Ok(()),
        false => Err(format!("attributes {want:?} read as {got:?}\nxml: {xml}")),
    }
}

// C09 -------------------------------------------------------------------

pub const SNIPPETS: &[&str] = &[
    "<", ">", "&", "\"", "'", "</a>", "</", "<a>", "<a/>", "<b c='", "]]>", "]]", "<!--", "-->", "--", "<!", "<![CDATA[", "<?pi?>", "<?",
    "<!DOCTYPE a>", "\0", "\u{1}", "\u{fffe}", "\u{8}", "=", " ", "/", "/>", ":", "x", "é", " xmlns:p='u'", " xmlns='urn:a'",
    "<?xml version='1.0'?>", "&#0;", "&bogus;", "&amp;", "&#65;", "text", "<!-- c -->", "<![CDATA[x]]>", "\u{feff}", "0", "-", ".",
    "\n", "<a b='1'c='2'/>", "<a b=1/>", "<a b/>", "<a ='1'/>", "<a b='<'/>", "< a/>", "<1/>", "<a b='1' b='2'/>", "<!-- -- -->", "<!--->",
    "<!ELEMENT a>", "</ a>", "<a></a >", "<p:a/>", "a:b:c=''",
];

fn boundaries(s: &str) -> Vec<usize> {
    s.char_indices().map(|(i, _)| i).chain([s.len()]).collect()
}

/// Pieces of markup and text
fn tokens(s: &str) -> Vec<&str> {
    let mut out = Vec::new();
    let mut start = 0;
    for (i, c) in s.char_indices() {
        if c == '<' && i > start {
            out.push(&s[start..i]);
            start = i;
        } else if c == '>' {
            out.push(&s[start..=i]);
            start = i + 1;
        }
    }
    out.push(&s[start..]);
    out.retain(|t| !t.is_empty());
    out
}

pub fn malform(s: &str, r: &mut Rng) -> String {
    let at = boundaries(s);
    match r.below(12) {
        0 => s[..*r.pick(&at)].to_owned(),
        1 | 2 => {
            let i = *r.pick(&at);
            format!("{}{}{}", &s[..i], r.pick::<&str>(SNIPPETS), &s[i..])
        }
        3 if !s.is_empty() => {
            let (i, n) = (r.below(at.len() - 1), r.range(1, 6));
            let j = (i + n).min(at.len() - 1);
            format!("{}{}", &s[..at[i]], &s[at[j]..])
        }
        4 if !s.is_empty() => {
            let i = r.below(at.len() - 1);
            let c = *r.pick(&['<', '>', '&', '"', '\'', '/', '=', ' ', 'x', ':', '-', ']', '!', '?', '\0', 'é', ';', '#']);
            format!("{}{c}{}", &s[..at[i]], &s[at[i + 1]..])
        }
        5..=7 => {
            let mut t = tokens(s);
            if t.is_empty() {
                return s.to_owned();
            }
            let i = r.below(t.len());
            match r.below(4) {
                0 => drop(t.remove(i)),
                1 => t.insert(i, t[i]),
                2 => {
                    let j = r.below(t.len());
                    t.swap(i, j);
                }
                _ => t.insert(i, r.pick::<&str>(SNIPPETS)),
            }
            t.concat()
        }
        // A token that only differs in the name
        8 => {
            let t = tokens(s);
            let ends: Vec<usize> = (0..t.len()).filter(|i| t[*i].starts_with("</")).collect();
            if ends.is_empty() {
                return s.to_owned();
            }
            let i = *r.pick(&ends);
            let name = t[i].trim_start_matches("</").trim_end_matches('>');
            let new = match r.below(5) {
                0 => format!("</{name}x>"),
                1 => format!("</x:{name}>"),
                2 => match name.split_once(':') {
                    Some((_, local)) => format!("</{local}>"),
                    None => format!("</ {name}>"),
                },
                3 => format!("</{}>", name.to_uppercase()),
                _ => format!("</{name} x='1'>"),
            };
            let mut t: Vec<String> = t.into_iter().map(str::to_owned).collect();
            t[i] = new;
            t.concat()
        }
        9 => format!("{s}{}", r.pick::<&str>(SNIPPETS)),
        10 => format!("{}{s}", r.pick::<&str>(SNIPPETS)),
        _ => {
            let i = *r.pick(&at);
            format!("{}{}", &s[..i], tokens(s).get(r.below(3)).unwrap_or(&""))
        }
    }
}

/// A reference in what may be a namespace declaration, which the library keeps as written (see the
/// known finding on namespace names)
fn reference_in_decl(xml: &str) -> bool {
    xml.match_indices("xmlns").any(|(i, _)| {
        let rest = &xml[i..];
        let value = rest.find('=').map(|eq| rest[eq + 1..].trim_start());
        match value.and_then(|v| v.chars().next().filter(|c| "'\"".contains(*c)).map(|q| (v, q))) {
            Some((v, q)) => v[1..].split(q).next().unwrap_or("").contains('&'),
            None => false,
        }
    })
}

/// What the reference parser makes of a document, where the library should agree
pub enum Verdict {
    Good(Doc),
    /// Not well-formed
    Bad(Class),
    /// Names with undeclared prefixes, which only matter to types that look at them
    Unbound,
    /// Constructs the library treats its own way
    Open,
}

pub fn verdict(xml: &str) -> Verdict {
    // The tokenizer takes `:a` for `a` (a known finding)
    if out_of_scope(xml) || reference_in_decl(xml) || xml.contains("<:") || xml.contains("</:") {
        return Verdict::Open;
    }
    // The tokenizer (a dependency) knows a declaration by `<?xml` and a blank
    if xml.contains("<?xml\n") || xml.contains("<?xml\t") || xml.contains("<?xml\r") {
        return Verdict::Open;
    }
    match refxml::parse(xml) {
        Ok(d) if d.has_pi || !within_defaults(&d) => Verdict::Open,
        Ok(d) => Verdict::Good(d),
        Err(e) => match e.class {
            Class::DupAttr | Class::NsDecl | Class::QName | Class::Doctype | Class::Pi | Class::Prolog => Verdict::Open,
            Class::UnboundPrefix => Verdict::Unbound,
            c => Verdict::Bad(c),
        },
    }
}

fn judge(cx: &mut Cx, xml: &str) -> Result<(), String> {
    cx.input = xml.to_owned();
    let v = verdict(xml);
    let any = from_str::<AnyElement>(xml);
    match (&v, any) {
        (Verdict::Good(d), Ok(any)) => {
            same(&any, &d.root).map_err(|e| format!("{e}\nxml: {xml}"))?;
            cx.saw("still well-formed");
        }
        (Verdict::Good(_), Err(e)) => return Err(format!("well-formed document refused: {e}\nxml: {xml}")),
        (Verdict::Bad(c), Ok(any)) => return Err(format!("not well-formed ({c:?}) but accepted: {any:?}\nxml: {xml}")),
        (Verdict::Unbound, Ok(any)) => return Err(format!("undeclared prefix accepted: {any:?}\nxml: {xml}")),
        (Verdict::Bad(c), Err(_)) => cx.saw(match c {
            Class::Eof => "refused: truncated",
            Class::Mismatch => "refused: end tag",
            Class::Trailing => "refused: trailing content",
            Class::Char => "refused: character",
            Class::Entity => "refused: reference",
            Class::Comment => "refused: comment",
            Class::CdataEnd => "refused: ]]> in text",
            Class::LtInAttr => "refused: < in attribute",
            Class::Name => "refused: name",
            _ => "refused: syntax",
        }),
        _ => {}
    }
    for (what, f) in SYNTAX_TARGETS {
        match (&v, f(xml)) {
            (Verdict::Bad(c), Ok(())) if *what == "pulled" && trailing(xml, *c) => {}
            (Verdict::Bad(c), Ok(())) => return Err(format!("{what}: not well-formed ({c:?}) but accepted\nxml: {xml}")),
            (Verdict::Good(_), Err(e)) => return Err(format!("{what}: well-formed document refused: {e}\nxml: {xml}")),
            _ => {}
        }
    }
    for (name, ns, what, f) in EMPTY_TARGETS {
        match (&v, f(xml)) {
            (Verdict::Bad(c), Ok(())) => return Err(format!("{what}: not well-formed ({c:?}) but accepted\nxml: {xml}")),
            (Verdict::Good(d), Err(e)) if d.root.name == *name && d.root.ns == *ns => {
                return Err(format!("{what}: well-formed document refused: {e}\nxml: {xml}"))
            }
            _ => {}
        }
    }
    Ok(())
}

/// Pulling by hand stops at the end of the root element: only `from_str()` looks beyond
fn trailing(xml: &str, class: Class) -> bool {
    class == Class::Trailing
        || (0..xml.len()).any(|i| xml.is_char_boundary(i) && xml[..i].ends_with('>') && refxml::parse(&xml[..i]).is_ok())
}

fn malformed(cx: &mut Cx) -> Result<(), String> {
    let m = any_tree(&mut cx.rng);
    let style = Style::random(&mut cx.rng);
    let mut xml = render(&m, style, &mut cx.rng);
    for _ in 0..*cx.rng.pick(&[1, 1, 1, 2, 3]) {
        xml = malform(&xml, &mut cx.rng);
    }
    cx.sample(|| xml.clone());
    cx.distinct(xml.as_bytes());
    judge(cx, &xml)
}

/// A document cut off after every character
fn truncated(cx: &mut Cx) -> Result<(), String> {
    let mut budget = 6;
    let m = tree(&mut cx.rng, &mut budget, 4);
    let style = Style::random(&mut cx.rng);
    let mut xml = render(&m, style, &mut cx.rng);
    if xml.len() > 1500 {
        let m = Elem::new("urn:a", "item", Kind::Unknown).attr("", "k", "v").text("text").child(Elem::new("", "b", Kind::Unknown));
        xml = render(&m, Style::ALL, &mut cx.rng);
    }
    cx.sample(|| xml.clone());
    cx.distinct(xml.as_bytes());
    let cuts = boundaries(&xml);
    cx.saw_n("truncations", cuts.len() as u64);
    for i in cuts {
        judge(cx, &xml[..i])?;
    }
    Ok(())
}

/// Every document of a few tokens
fn small_documents(cx: &mut Cx) -> Result<(), String> {
    const T: &[&str] = &[
        "<a>", "</a>", "<a/>", "<b>", "</b>", "<p:a xmlns:p='u'>", "</p:a>", "t", " ", "<!--c-->", "<![CDATA[d]]>", "&amp;",
        "<a k='v'>", "</a >", "<q:a xmlns:q='u'/>", "]]>",
    ];
    // Index in base T.len(), all lengths up to 5
    let mut i = cx.index;
    let mut n = 1;
    let mut size = T.len() as u64;
    while i >= size {
        i -= size;
        size *= T.len() as u64;
        n += 1;
    }
    let mut xml = String::new();
    for _ in 0..n {
        xml.push_str(T[(i % T.len() as u64) as usize]);
        i /= T.len() as u64;
    }
    cx.sample(|| xml.clone());
    cx.distinct(xml.as_bytes());
    judge(cx, &xml)
}

// C08 -------------------------------------------------------------------

#[derive(Debug, FromXml)]
#[xml(rename = "a")]
struct Everything<'a> {
    #[xml(attribute)]
    a: Option<String>,
    #[xml(attribute, borrow)]
    b: Option<Cow<'a, str>>,
    #[xml(attribute)]
    item: Option<u8>,
    #[xml(rename = "b")]
    n: Vec<i32>,
    #[xml(rename = "é")]
    f: Option<f64>,
    #[xml(rename = "x-1.y", borrow)]
    c: Option<Cow<'a, str>>,
    #[xml(rename = "_")]
    d: Option<chrono::DateTime<chrono::Utc>>,
    #[xml(rename = "A")]
    bool_: Option<bool>,
    #[xml(rename = "item")]
    nested: Vec<Inner>,
    known: Option<char>,
    pick: Option<Pick>,
    #[xml(borrow)]
    rest: Vec<AnyElement<'a>>,
    #[xml(direct)]
    text: Option<String>,
}
#[derive(Debug, FromXml)]
#[xml(rename = "item", ns("urn:a", p = "urn:b"))]
struct Inner {
    #[xml(attribute, ns("urn:b"))]
    k: Option<String>,
    a: Option<Box<Inner>>,
    t: Option<Box<Tup>>,
    list: Vec<Pick>,
    group: Option<Group>,
}
#[derive(Debug, FromXml)]
#[xml(transparent)]
struct Group {
    b: Option<String>,
    known: Vec<u16>,
}
#[derive(Debug, FromXml)]
#[xml(rename = "b", ns("urn:b"))]
struct Tup(Pick, Option<Box<Inner>>);
#[derive(Debug, FromXml)]
#[xml(forward)]
enum Pick {
    One(Empty0),
    Two(Box<Inner>),
    Three(Unit),
}
#[derive(Debug, FromXml)]
#[xml(rename = "b")]
struct Unit;
#[derive(Debug, FromXml)]
#[xml(scalar)]
enum Word {
    #[allow(non_camel_case_types)]
    x,
    #[xml(rename = "text")]
    Text,
}
#[derive(Debug, FromXml)]
#[xml(rename = "a")]
struct NewWord(Word);
#[derive(Debug, FromXml)]
#[xml(rename = "a")]
struct NewFloat(f32);

fn run_any(xml: &str) -> Result<u64, String> {
    let mut ok = 0;
    ok += from_str::<AnyElement>(xml).is_ok() as u64;
    ok += from_str::<Everything>(xml).is_ok() as u64;
    ok += from_str::<Inner>(xml).is_ok() as u64;
    ok += from_str::<Tup>(xml).is_ok() as u64;
    ok += from_str::<Pick>(xml).is_ok() as u64;
    ok += from_str::<NewWord>(xml).is_ok() as u64;
    ok += from_str::<NewFloat>(xml).is_ok() as u64;
    ok += from_str::<Unit>(xml).is_ok() as u64;
    for (_, f) in SYNTAX_TARGETS {
        ok += f(xml).is_ok() as u64;
    }
    for (_, _, _, f) in EMPTY_TARGETS {
        ok += f(xml).is_ok() as u64;
    }
    // The same with limits out of the way, unless the input is deep
    if xml.matches('<').count() < 2000 {
        if let Ok(de) = Deserializer::new(xml) {
            ok += de.with_limits(unlimited()).deserialize::<AnyElement>().is_ok() as u64;
        }
        if let Ok(de) = Deserializer::new(xml) {
            ok += de.with_limits(unlimited()).deserialize::<Everything>().is_ok() as u64;
        }
    }
    // Iterate beyond errors, as a caller might: every node but the last error takes some of the input
    if let Ok(mut de) = Deserializer::new(xml) {
        let mut left = xml.len() + 16;
        loop {
            if left == 0 {
                return Err("iteration does not end".to_owned());
            }
            left -= 1;
            match de.next() {
                Some(Ok(XmlNode::Open(e))) => {
                    let _ = de.element_id(&e);
                    let _ = de.parent();
                    let mut nested = de.nested(e);
                    let _ = nested.take_str();
                    let _ = nested.parent();
                    if nested.next().is_none() {
                        let _ = nested.next();
                    }
                }
                Some(Ok(XmlNode::Attribute(a))) => {
                    let _ = de.attribute_id(&a);
                    let _ = de.for_node(XmlNode::AttributeValue(a.value)).take_str();
                }
                Some(Ok(node)) => {
                    let mut again = de.for_node(node);
                    let _ = again.take_str();
                }
                Some(Err(_)) => {
                    let _ = de.ignore();
                    let _ = de.next();
                }
                None => break,
            }
        }
    }
    Ok(ok)
}

fn fuzz(cx: &mut Cx) -> Result<(), String> {
    let r = &mut cx.rng;
    let xml = match r.below(4) {
        // Token soup
        0 => {
            let n = r.range(0, 30);
            (0..n).map(|_| *r.pick(SNIPPETS)).collect()
        }
        // Any characters
        1 => {
            let n = r.range(0, 60);
            (0..n).map(|_| if r.chance(40) { *r.pick(&['<', '>', '&', '/', '"', '=', ';', '!', '[']) } else { crate::model::arb_char(r) }).collect()
        }
        _ => {
            let m = any_tree(r);
            let style = Style::random(r);
            let mut xml = render(&m, style, r);
            for _ in 0..*r.pick(&[0, 1, 2, 4, 8, 20]) {
                xml = malform(&xml, r);
            }
            xml
        }
    };
    cx.input = xml.clone();
    cx.sample(|| xml.clone());
    if xml.contains('<') {
        cx.distinct(xml.as_bytes());
    }
    let ok = run_any(&xml)?;
    cx.saw_n("inputs accepted by some type", (ok > 0) as u64);
    cx.saw("inputs judged");
    Ok(())
}

/// Shapes that make naive code recurse, loop or overflow
fn extremes(cx: &mut Cx) -> Result<(), String> {
    let n = [1usize, 31, 32, 33, 64, 65, 1000, 30_000, 200_000][cx.index as usize / 24 % 9];
    let xml = match cx.index % 24 {
        0 => "<a>".repeat(n),
        1 => format!("{}{}", "<a>".repeat(n), "</a>".repeat(n)),
        2 => "</a>".repeat(n),
        3 => format!("<a {}/>", (0..n).map(|i| format!("k{i}='v' ")).collect::<String>()),
        4 => format!("<a {}/>", (0..n).map(|i| format!("xmlns:k{i}='v' ")).collect::<String>()),
        5 => format!("<a>{}</a>", "<!---->".repeat(n)),
        6 => format!("<a>{}</a>", "<![CDATA[x]]>".repeat(n)),
        7 => format!("<a>{}</a>", "&amp;".repeat(n)),
        8 => format!("<a>{}</a>", "<b>1</b>".repeat(n)),
        9 => format!("<a b='{}'/>", "&".repeat(n)),
        10 => format!("<a>&{};</a>", "#".repeat(n)),
        11 => format!("<a>&#{};</a>", "0".repeat(n)),
        12 => format!("<{}/>", "a".repeat(n)),
        13 => format!("<a>{}", "<![CDATA[".repeat(n)),
        14 => format!("<a>{}", "<!--".repeat(n)),
        15 => "<".repeat(n),
        16 => "<?xml version='1.0'?>".repeat(n),
        17 => format!("<a>{}</a>", " ".repeat(n)),
        18 => format!("<a><b>{}</b></a>", "9".repeat(n)),
        19 => format!("<a xmlns='{}'/>", "u".repeat(n)),
        20 => format!("<a>{}</a>", "x<b/>".repeat(n)),
        21 => format!("<a/>{}", "<!-- c -->\n".repeat(n)),
        22 => format!("<a b='1'{}>", " ".repeat(n)),
        _ => format!("<a><item xmlns='urn:a'>{}</item></a>", "<a>".repeat(n)),
    };
    cx.input = xml.chars().take(200).collect();
    cx.distinct(xml.as_bytes());
    let ok = run_any(&xml)?;
    cx.saw_n("inputs accepted by some type", (ok > 0) as u64);
    cx.saw("extreme inputs judged");
    Ok(())
}

/// A small stack, as in a spawned thread, is enough for the default limits
fn small_stack(cx: &mut Cx) -> Result<(), String> {
    let levels = 1 + cx.index as usize % 40;
    let m = chain(&mut cx.rng, levels);
    let xml = render(&m, Style { ns: true, ..Style::PLAIN }, &mut cx.rng);
    cx.input = xml.clone();
    cx.distinct(xml.as_bytes());
    std::thread::scope(|s| {
        let run = || crate::runner::catch(|| from_str::<AnyElement>(&xml).is_ok());
        let t = std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, run).unwrap();
        match t.join() {
            Ok(Ok(ok)) => {
                cx.saw(if ok { "nested documents accepted" } else { "nested documents refused" });
                Ok(())
            }
            Ok(Err((loc, msg))) => Err(format!("panic at {loc}: {msg}\nxml: {xml}")),
            Err(_) => Err(format!("thread ended\nxml: {xml}")),
        }
    })
}

// C10 -------------------------------------------------------------------

/// Attributes, declarations and depth of every element, as limits count them
fn measure(e: &Elem, level: usize, out: &mut Vec<(usize, usize, usize)>) {
    let decls = e.decls.iter().filter(|(p, _)| !p.is_empty()).count();
    out.push((level, e.attrs.len(), decls));
    for k in e.kids.iter().filter_map(|k| k.elem()) {
        measure(k, level + 1, out);
    }
}

type Limited = fn(Deserializer<'_, '_>) -> Result<(), Error>;
const LIMITED: &[(&str, Limited)] = &[
    ("AnyElement", |mut de| de.deserialize::<AnyElement>().map(drop)),
    ("ignoring type", |mut de| de.deserialize::<Skip>().map(drop)),
    ("type that reads nothing", |mut de| de.deserialize::<Nothing>().map(drop)),
    ("pulled", |mut de| pull(&mut de).map(drop)),
];

fn set(levels: usize, attributes: usize, declarations: usize) -> Limits {
    let mut l = Limits::default();
    l.max_levels = levels;
    l.max_attributes = attributes;
    l.max_ns_declarations = declarations;
    l
}

fn check_limits(cx: &mut Cx, xml: &str, limits: Option<Limits>) -> Result<(), String> {
    cx.input = format!("{limits:?} {xml}");
    cx.distinct(cx.input.clone().as_bytes());
    let doc = refxml::parse(xml).unwrap_or_else(|e| panic!("generator: {e:?}: {xml}"));
    let mut sizes = Vec::new();
    measure(&doc.root, 1, &mut sizes);
    let over = |l: &Limits, s: &(usize, usize, usize)| s.0 > l.max_levels || s.1 > l.max_attributes || s.2 > l.max_ns_declarations;
    let defaults = Limits::default();
    // The start tag of the root has been read by the time other limits are set
    let root_over = over(&defaults, &sizes[0]);
    let rest = limits.unwrap_or(defaults);
    let want = !root_over && !sizes[1..].iter().any(|s| over(&rest, s));
    for (what, f) in LIMITED {
        let got = Deserializer::new(xml).and_then(|de| match limits {
            Some(l) => f(de.with_limits(l)),
            None => f(de),
        });
        match (want, got) {
            (true, Ok(())) => cx.saw("documents within the limits"),
            (false, Err(_)) => cx.saw("documents over a limit"),
            (true, Err(e)) => return Err(format!("{what}: refused within {rest:?}: {e}\nxml: {xml}")),
            (false, Ok(())) => return Err(format!("{what}: accepted beyond {rest:?}\nxml: {xml}")),
        }
    }
    if limits.is_none() {
        match (want, from_str::<AnyElement>(xml)) {
            (true, Err(e)) => return Err(format!("from_str: refused within the defaults: {e}\nxml: {xml}")),
            (false, Ok(_)) => return Err(format!("from_str: accepted beyond the defaults\nxml: {xml}")),
            _ => {}
        }
    }
    Ok(())
}

fn limits_random(cx: &mut Cx) -> Result<(), String> {
    let m = any_tree(&mut cx.rng);
    let style = Style { outer: false, ..Style::random(&mut cx.rng) };
    let xml = render(&m, style, &mut cx.rng);
    cx.sample(|| xml.clone());
    let doc = refxml::parse(&xml).unwrap_or_else(|e| panic!("renderer: {e:?}: {xml}"));
    let mut sizes = Vec::new();
    measure(&doc.root, 1, &mut sizes);
    let r = &mut cx.rng;
    let max = |f: fn(&(usize, usize, usize)) -> usize| sizes[1..].iter().map(f).max().unwrap_or(1);
    let (d, a, n) = (max(|s| s.0), max(|s| s.1), max(|s| s.2));
    // Right at, below or above what the document has, or out of the way
    let mut near = |v: usize| match r.below(6) {
        0 | 1 => v,
        2 => v.saturating_sub(1),
        3 => v + 1,
        4 => r.below(4),
        _ => usize::MAX,
    };
    let limits = set(near(d), near(a), near(n));
    check_limits(cx, &xml, Some(limits))
}

/// The defaults, and others, one below, at and above, at different places
fn limits_exact(cx: &mut Cx) -> Result<(), String> {
    let r = &mut cx.rng;
    let which = cx.index % 3;
    let custom = r.chance(50);
    let limit = match custom {
        true => *r.pick(&[1usize, 2, 3, 7, 63, 64, 65, 200, 31, 32, 33]),
        false => [32, 64, 32][which as usize],
    };
    let n = match r.below(4) {
        0 => limit - 1,
        1 => limit,
        2 => limit + 1,
        _ => limit + r.below(40),
    };
    let n = n.max(1);
    let mut attrs: Vec<String> = match which {
        0 => vec![],
        1 => (0..n).map(|i| format!("k{i}=\"v{i}\"")).collect(),
        _ => (0..n).map(|i| format!("xmlns:k{i}=\"urn:{i}\"")).collect(),
    };
    if which == 1 && r.chance(50) {
        // Attributes and declarations are counted apart
        attrs.extend((0..r.below(20)).map(|i| format!("xmlns:n{i}='urn:n'")));
    } else if which == 2 && r.chance(50) {
        attrs.extend((0..r.below(50)).map(|i| format!("n{i}='v'")));
    }
    if which == 2 && r.chance(30) {
        // Some in namespaces declared here
        attrs.push("k0:n='v'".into());
    }
    if r.chance(30) {
        attrs.push("xmlns='urn:d'".into());
    }
    r.shuffle(&mut attrs);
    let tag = format!("x {}", attrs.join(" "));
    let hot = match which {
        0 => {
            // `n` levels within the root, in all
            let inner = *r.pick(&["<y/>", "<y></y>", "<y/><z/>", "<y/>t"]);
            match n {
                1 => String::new(),
                _ => format!("{}{inner}{}", "<y>".repeat(n - 2), "</y>".repeat(n - 2)),
            }
        }
        _ => match r.below(3) {
            0 => format!("<{tag}/>"),
            1 => format!("<{tag}></x>"),
            _ => format!("<{tag}>t<y/></x>"),
        },
    };
    let filler = ["", "<e/>", "text", "<e k='v'><e/></e>", "<!-- c -->", "<e xmlns:q='u' q:k='v'/>"];
    let (before, after) = (*r.pick(&filler), *r.pick(&filler));
    let root = *r.pick(&["root", "root k='v' xmlns:m='u'"]);
    let xml = match (which, r.below(4)) {
        // As the root element itself
        (1 | 2, 0) => hot.clone(),
        (1 | 2, 1) => format!("<{root}>{before}<e>{hot}</e>{after}</root>"),
        _ => format!("<{root}>{before}{hot}{after}</root>"),
    };
    cx.sample(|| xml.clone());
    let far = |cx: &mut Cx| *cx.rng.pick(&[usize::MAX, 1000]);
    let limits = match custom {
        false => None,
        true => {
            let (a, b) = (far(cx), far(cx));
            Some(match which {
                0 => set(limit, a, b),
                1 => set(a, limit, b),
                _ => set(a, b, limit),
            })
        }
    };
    check_limits(cx, &xml, limits)
}

pub fn campaigns(prop: &str) -> Vec<Campaign> {
    let c = Campaign::new;
    match prop {
        "C07" => vec![
            c("names/resolved", 400_000, 2_000_000, names),
            c("names/unbound", 400_000, 2_000_000, unbound),
            c("names/attributes", 100_000, 300_000, attributes_ns),
        ],
        "C08" => vec![
            c("fuzz/extremes", 24 * 9, 24 * 9, extremes),
            c("fuzz/small-stack", 200, 2_000, small_stack),
            c("fuzz/random", 1_000_000, 6_000_000, fuzz),
        ],
        "C09" => vec![
            c("malformed/small", 16 + 256 + 4096 + 65536, 16 + 256 + 4096 + 65536 + 1048576, small_documents),
            c("malformed/truncated", 2_500, 50_000, truncated),
            c("malformed/random", 500_000, 4_000_000, malformed),
        ],
        "C10" => vec![
            c("limits/exact", 200_000, 1_000_000, limits_exact),
            c("limits/random", 200_000, 1_500_000, limits_random),
        ],
        "C14" => vec![
            c("capture/root", 400_000, 2_500_000, capture),
            c("capture/fields", 200_000, 1_500_000, capture_fields),
        ],
        _ => vec![],
    }
}
