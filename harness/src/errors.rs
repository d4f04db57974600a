//! What the errors say (C26). Only errors that are reported are judged here; whether one is due
//! is the concern of the other properties.

use std::borrow::Cow;

use instant_xml::{from_str, AnyElement, Error, FromXml, ToXml};

use crate::infoset::{Card, Elem, Kid, Kind, Node};
use crate::model::Root;
use crate::mutate;
use crate::render::{render, Style};
use crate::rng::Rng;
use crate::runner::{Campaign, Cx};
use crate::trees::any_tree;
use crate::zoomore::{scalars, At};
use crate::zooprops::{any, observe};

/// The variant of an error, and the text it carries
fn parts(e: &Error) -> (&'static str, String) {
    match e {
        Error::Format(e) => ("Format", e.to_string()),
        Error::InvalidEntity(s) => ("InvalidEntity", s.clone()),
        Error::Parse(e) => ("Parse", e.to_string()),
        Error::Other(s) => ("Other", s.clone()),
        Error::UnexpectedEndOfStream => ("UnexpectedEndOfStream", String::new()),
        Error::UnexpectedValue(s) => ("UnexpectedValue", s.clone()),
        Error::UnexpectedTag(s) => ("UnexpectedTag", s.clone()),
        Error::MissingTag => ("MissingTag", String::new()),
        Error::MissingValue(s) => ("MissingValue", (*s).to_owned()),
        Error::UnexpectedToken(s) => ("UnexpectedToken", s.clone()),
        Error::UnknownPrefix(s) => ("UnknownPrefix", s.clone()),
        Error::UnexpectedNode(s) => ("UnexpectedNode", s.clone()),
        Error::UnexpectedState(s) => ("UnexpectedState", (*s).to_owned()),
        Error::ExpectedScalar(s) => ("ExpectedScalar", s.clone()),
        Error::DuplicateValue(s) => ("DuplicateValue", (*s).to_owned()),
        #[allow(unreachable_patterns)]
        _ => ("another variant", e.to_string()),
    }
}

/// The error is of this variant and mentions all of `names`
fn expect(e: &Error, what: &str, variant: &str, names: &[&str], xml: &str) -> Result<(), String> {
    let (got, text) = parts(e);
    let plain = text.replace("r#", "");
    if got == variant && names.iter().all(|n| plain.contains(n) || text.contains(n)) {
        let shown = e.to_string();
        if shown.contains(&text) {
            return Ok(());
        }
        return Err(format!("{what}: {e:?} is shown as {shown:?}\nxml: {xml}"));
    }
    Err(format!("{what}: want {variant} naming {names:?}\ngot:  {e:?}\nxml: {xml}"))
}

fn style(r: &mut Rng) -> Style {
    match r.chance(50) {
        true => Style::PLAIN,
        false => Style { split: false, refs: false, ..Style::random(r) },
    }
}

fn read(root: &Root, xml: &str) -> Option<Error> {
    (root.de)(xml).err()
}

// Fields ----------------------------------------------------------------

fn missing(cx: &mut Cx) -> Result<(), String> {
    let (root, case) = any(cx);
    let mut m = case.model();
    let sites: Vec<_> = mutate::sites(&m).into_iter().filter(|s| s.card == Card::One).collect();
    if sites.is_empty() {
        return Ok(());
    }
    let s = cx.rng.pick(&sites).clone();
    let e = m.nth_mut(s.elem).unwrap();
    let (label, empty_ok) = match s.attr {
        true => (e.attrs[s.at].label, false),
        false => (e.kids[s.at].label, s.text && e.kids[s.at].about.empty_ok),
    };
    if empty_ok || label.is_empty() {
        return Ok(());
    }
    mutate::remove(&mut m, &s);
    let style = style(&mut cx.rng);
    let xml = render(&m, style, &mut cx.rng);
    observe(cx, &m, &xml);
    let Some(e) = read(root, &xml) else { return Ok(()) };
    if s.text && !matches!(e, Error::MissingValue(_)) {
        // The empty text may as well be a bad one
        return empty_text(&e, root, &xml);
    }
    cx.saw("errors about missing values");
    expect(&e, &format!("{}: value missing", root.name), "MissingValue", &[label], &xml)
}

fn empty_text(e: &Error, root: &Root, xml: &str) -> Result<(), String> {
    match e {
        Error::Other(s) if s.contains("date") => Ok(()),
        _ => expect(e, &format!("{}: direct text missing", root.name), "UnexpectedValue", &[], xml),
    }
}

fn duplicate(cx: &mut Cx) -> Result<(), String> {
    let (root, case) = any(cx);
    let mut m = case.model();
    let sites: Vec<_> = mutate::sites(&m)
        .into_iter()
        .filter(|s| matches!(s.card, Card::One | Card::Opt | Card::Group) && !s.text)
        .collect();
    if sites.is_empty() {
        return Ok(());
    }
    let s = cx.rng.pick(&sites).clone();
    let e = m.nth_mut(s.elem).unwrap();
    let label = match s.attr {
        true => {
            let a = e.attrs[s.at].clone();
            let label = a.label;
            let at = cx.rng.below(e.attrs.len() + 1);
            e.attrs.insert(at, a);
            label
        }
        false => {
            let k = e.kids[s.at].clone();
            let label = k.label;
            let at = cx.rng.below(e.kids.len() + 1);
            e.kids.insert(at, k);
            label
        }
    };
    if label.is_empty() {
        return Ok(());
    }
    let style = style(&mut cx.rng);
    let xml = render(&m, style, &mut cx.rng);
    observe(cx, &m, &xml);
    let Some(e) = read(root, &xml) else { return Ok(()) };
    cx.saw("errors about repeated values");
    expect(&e, &format!("{}: value given twice", root.name), "DuplicateValue", &[label], &xml)
}

/// What tuple structs and fields of hand-picked types say
fn tuples(cx: &mut Cx) -> Result<(), String> {
    let (root, case) = any(cx);
    let mut m = case.model();
    let (mut sites, mut n) = (Vec::new(), 0);
    m.walk(&mut |e| {
        if matches!(e.kind, Kind::Tuple | Kind::Scalar) {
            let text = e.kids.iter().any(|k| k.elem().is_none());
            for (i, k) in e.kids.iter().enumerate() {
                // Text after an element that is missing is passed over
                if k.card == Card::One && !k.label.is_empty() && (k.elem().is_some() != text) && !(text && k.about.empty_ok) {
                    sites.push((n, i, k.label, k.elem().is_none()));
                }
            }
        }
        n += 1;
    });
    if sites.is_empty() {
        return Ok(());
    }
    let (n, i, label, text) = *cx.rng.pick(&sites);
    m.nth_mut(n).unwrap().kids.remove(i);
    let style = style(&mut cx.rng);
    let xml = render(&m, style, &mut cx.rng);
    observe(cx, &m, &xml);
    let Some(e) = read(root, &xml) else { return Ok(()) };
    if text && !matches!(e, Error::MissingValue(_)) {
        return empty_text(&e, root, &xml);
    }
    cx.saw("errors about missing tuple fields");
    // An enum names itself
    let label = if text { label.split("::").next().unwrap_or("") } else { label };
    match (text, &e) {
        (true, Error::MissingValue(s)) if !s.contains("::") => Ok(()),
        _ => expect(&e, &format!("{}: tuple field missing", root.name), "MissingValue", &[label], &xml),
    }
}

#[derive(Debug, FromXml)]
#[allow(dead_code)]
struct Hand<'a> {
    #[xml(attribute, deserialize_with = "instant_xml::from_xml_str")]
    at: u16,
    #[xml(deserialize_with = "instant_xml::from_xml_str")]
    port: u16,
    unit: (),
    maybe: Option<()>,
    #[xml(borrow)]
    text: Cow<'a, str>,
    slice: String,
    any: AnyElement<'a>,
}

fn hand(cx: &mut Cx) -> Result<(), String> {
    let fields = ["port", "unit", "maybe", "text", "slice", "any"];
    let r = &mut cx.rng;
    let mut at = " at='1'".to_owned();
    let mut kids: Vec<String> = ["<port>2</port>", "<unit/>", "<maybe/>", "<text>t</text>", "<slice>s</slice>", "<zz><y/></zz>"].map(String::from).into();
    let i = r.below(fields.len());
    let label = format!("Hand::{}", fields[i]);
    let bogus = *r.pick(&["x", "-1", "65536", "é"]);
    let attr = r.chance(20);
    let (variant, name) = match r.below(3) {
        0 if attr => {
            at.clear();
            ("MissingValue", "Hand::at".to_owned())
        }
        1 if attr => {
            at.push_str(" at='3'");
            ("DuplicateValue", "Hand::at".to_owned())
        }
        0 if fields[i] != "maybe" => {
            kids.remove(i);
            ("MissingValue", label)
        }
        1 => {
            let k = kids[i].clone();
            kids.push(k);
            ("DuplicateValue", label)
        }
        _ if attr => {
            at = format!(" at='{bogus}'");
            ("UnexpectedValue", bogus.to_owned())
        }
        _ => match *r.pick(&["port", "text", "slice"]) {
            "port" if r.chance(50) => {
                kids[0] = format!("<port>{bogus}</port>");
                ("UnexpectedValue", bogus.to_owned())
            }
            field => {
                let i = fields.iter().position(|f| *f == field).unwrap();
                let attr = *r.pick(&["", " k='1'", " k='1' l=''"]);
                kids[i] = format!("<{field}{attr}><zz-in/>a</{field}>");
                ("ExpectedScalar", "zz-in".to_owned())
            }
        },
    };
    // The catch-all comes last, where it does not take what belongs to others
    let any = kids.iter().position(|k| k.starts_with("<zz>"));
    let any = any.map(|i| kids.remove(i));
    r.shuffle(&mut kids);
    kids.extend(any);
    let xml = format!("<Hand{at}>{}</Hand>", kids.concat());
    cx.input = xml.clone();
    cx.distinct(xml.as_bytes());
    let Err(e) = from_str::<Hand>(&xml) else { return Ok(()) };
    cx.saw("errors about fields of hand-picked types");
    expect(&e, "hand-picked fields", variant, &[&name], &xml)
}

// Values ----------------------------------------------------------------

const BOGUS: &[&str] = &["zz-bogus", "7q3", "no such é", "tru", "-", "1e", "9999999999999999999999999999999999999999", "0x1f"];

fn value(cx: &mut Cx) -> Result<(), String> {
    let (root, case) = any(cx);
    let mut m = case.model();
    let sites = scalars(&m);
    if sites.is_empty() {
        return Ok(());
    }
    let (n, at, _, _) = *cx.rng.pick(&sites);
    let e = m.nth_mut(n).unwrap();
    // As it stands, with the white space around it
    let (before, after) = (*cx.rng.pick(&["", "", " ", "\n\t", "  "]), *cx.rng.pick(&["", "", " ", "\t\n"]));
    let bogus = &*format!("{before}{}{after}", cx.rng.pick(BOGUS));
    match at {
        At::Attr(i) => e.attrs[i].value = bogus.into(),
        At::Text(i) => e.kids[i].node = Node::T(bogus.into()),
        At::Elem(i) => {
            let Node::E(c) = &mut e.kids[i].node else { unreachable!() };
            c.kids = vec![Kid::text(bogus)];
        }
    }
    let style = style(&mut cx.rng);
    let xml = render(&m, style, &mut cx.rng);
    observe(cx, &m, &xml);
    let Some(e) = read(root, &xml) else { return Ok(()) };
    let what = format!("{}: bad text {bogus:?}", root.name);
    match &e {
        // Dates say only that they are none
        Error::Other(s) if s.contains("date") => {
            cx.saw("errors about dates");
            Ok(())
        }
        _ => {
            cx.saw("errors about values");
            expect(&e, &what, "UnexpectedValue", &[bogus], &xml)
        }
    }
}

/// An element where only text may be
fn no_scalar(cx: &mut Cx) -> Result<(), String> {
    let (root, case) = any(cx);
    let mut m = case.model();
    let mut sites = Vec::new();
    let mut n = 0;
    m.walk(&mut |e| {
        if e.kind == Kind::Scalar && e.kids.iter().all(|k| k.elem().is_none()) {
            sites.push(n);
        }
        n += 1;
    });
    if sites.is_empty() {
        return Ok(());
    }
    let e = m.nth_mut(*cx.rng.pick(&sites)).unwrap();
    if e.kids.iter().any(|k| k.card != Card::Unknown) {
        // The text of a tuple struct
        return Ok(());
    }
    for i in 0..*cx.rng.pick(&[0, 0, 1, 2]) {
        *e = e.clone().attr("", &format!("k{i}"), "v");
    }
    let name = *cx.rng.pick(&["zz-in", "éé", "bb"]);
    let child = Kid::new(Node::E(Elem::new(*cx.rng.pick(&["", "urn:a"]), name, Kind::Unknown)));
    let at = cx.rng.below(e.kids.len() + 1);
    e.kids.insert(at, child);
    let style = style(&mut cx.rng);
    let xml = render(&m, style, &mut cx.rng);
    observe(cx, &m, &xml);
    let Some(e) = read(root, &xml) else { return Ok(()) };
    cx.saw("errors about elements in scalars");
    expect(&e, &format!("{}: element in a scalar", root.name), "ExpectedScalar", &[name], &xml)
}

fn other_root(cx: &mut Cx) -> Result<(), String> {
    let (root, case) = any(cx);
    let mut m = case.model();
    match cx.rng.below(3) {
        0 => m.name = (*cx.rng.pick(&["zz-root", "zzé", "Zz.1"])).into(),
        1 => m.ns = (*cx.rng.pick(&["urn:zz", "http://zz.example/?q"])).into(),
        _ => m = Elem::new("urn:zz", "zz-root", Kind::Unknown),
    }
    let style = style(&mut cx.rng);
    let xml = render(&m, style, &mut cx.rng);
    observe(cx, &m, &xml);
    if m.canon() == case.model().canon() {
        return Ok(());
    }
    let Some(e) = read(root, &xml) else { return Ok(()) };
    cx.saw("errors about root elements");
    expect(&e, &format!("{}: another root element", root.name), "UnexpectedValue", &[&m.name, &m.ns], &xml)
}

// Syntax ----------------------------------------------------------------

const MARK: &str = "@mark@";

const REFERENCES: &[&str] = &[
    "zz", "nbsp", "AMP", "Lt", "#0", "#x0", "#1", "#xD800", "#xdfff", "#x110000", "#-1", "#+65", "#xg", "", "#", "#x", "# 65", "amp ",
    "#xFFFE", "#xFFFFFFFFFF", "quotquot", "averylongnameindeed", "#00000000000000000000000000000000000000000000065",
];

fn reference(cx: &mut Cx) -> Result<(), String> {
    let (root, mut m) = match cx.rng.chance(50) {
        true => {
            let (root, case) = any(cx);
            (Some(root), case.model())
        }
        false => (None, any_tree(&mut cx.rng)),
    };
    let n = m.count();
    let e = m.nth_mut(cx.rng.below(n)).unwrap();
    match e.attrs.is_empty() || cx.rng.chance(60) {
        true if e.kids.iter().all(|k| k.elem().is_none()) && !e.kids.is_empty() => e.kids = vec![Kid::text(MARK)],
        true => e.kids.push(Kid::new(Node::E(Elem::new("", "zz", Kind::Unknown).text(MARK)))),
        false => {
            let i = cx.rng.below(e.attrs.len());
            e.attrs[i].value = MARK.into();
        }
    }
    let style = style(&mut cx.rng);
    let text = render(&m, style, &mut cx.rng);
    let body = *cx.rng.pick(REFERENCES);
    let (before, after) = *cx.rng.pick(&[("", ""), ("x", "y"), ("&lt;", "&amp;"), ("é ", " ok; "), ("", ";")]);
    let end = if cx.rng.chance(70) { ";" } else { "" };
    let bad = format!("{before}&{body}{end}{after}");
    let xml = text.replacen(MARK, &bad, 1);
    observe(cx, &m, &xml);
    let e = match root {
        Some(root) => read(root, &xml),
        None => from_str::<AnyElement>(&xml).err(),
    };
    let Some(e) = e else { return Ok(()) };
    // What the value is without it may be wrong as well, but is looked at only afterwards
    if matches!(e, Error::ExpectedScalar(_)) {
        return Ok(());
    }
    let Error::InvalidEntity(named) = &e else {
        return Err(format!("reference &{body}{end}: {e:?}\nxml: {xml}"));
    };
    cx.saw("errors about references");
    let source = &bad[before.len() + 1..];
    let named = named.trim_end_matches('\u{fffd}');
    match source.starts_with(named) && named.len() >= body.len().min(6) {
        true => expect(&e, "reference", "InvalidEntity", &[named], &xml),
        false => Err(format!("reference &{body}{end} is called {named:?}\nxml: {xml}")),
    }
}

fn prefix(cx: &mut Cx) -> Result<(), String> {
    let (root, mut m) = match cx.rng.chance(50) {
        true => {
            let (root, case) = any(cx);
            (Some(root), case.model())
        }
        false => (None, any_tree(&mut cx.rng)),
    };
    let n = m.count();
    let e = m.nth_mut(cx.rng.below(n)).unwrap();
    let marked = Elem::new("", "markedelement", Kind::Unknown).attr("", "markedattribute", "v");
    let at = cx.rng.below(e.kids.len() + 1);
    e.kids.insert(at, Kid::new(Node::E(marked)));
    *e = std::mem::replace(e, Elem::new("", "", Kind::Unknown)).attr("", "markedattribute", "v");
    let style = style(&mut cx.rng);
    let text = render(&m, style, &mut cx.rng);
    let prefix = *cx.rng.pick(&["zzq", "zz-1", "zé", "xmlzz", "Zz"]);
    let xml = match cx.rng.chance(50) {
        true => text.replace("markedelement", &format!("{prefix}:marked")),
        false => text.replace("markedattribute", &format!("{prefix}:marked")),
    };
    observe(cx, &m, &xml);
    let e = match root {
        Some(root) => read(root, &xml),
        None => from_str::<AnyElement>(&xml).err(),
    };
    let Some(e) = e else { return Ok(()) };
    // An element in a scalar is refused before anything in it is looked at
    if matches!(e, Error::ExpectedScalar(_)) {
        return Ok(());
    }
    cx.saw("errors about prefixes");
    expect(&e, "prefix", "UnknownPrefix", &[prefix], &xml)
}

fn truncated(cx: &mut Cx) -> Result<(), String> {
    let (root, m) = match cx.rng.chance(60) {
        true => {
            let (root, case) = any(cx);
            (Some(root), case.model())
        }
        false => (None, any_tree(&mut cx.rng)),
    };
    let style = Style { outer: false, ..style(&mut cx.rng) };
    let xml = render(&m, style, &mut cx.rng);
    observe(cx, &m, &xml);
    for _ in 0..8 {
        let mut at = cx.rng.below(xml.len());
        while !xml.is_char_boundary(at) {
            at -= 1;
        }
        let cut = &xml[..at];
        let e = match root {
            Some(root) => read(root, cut),
            None => from_str::<AnyElement>(cut).err(),
        };
        let Some(e) = e else { continue };
        cx.saw("errors about the end of the document");
        match &e {
            Error::UnexpectedEndOfStream | Error::Parse(_) => {}
            // Within text, what there is of it may be read first
            Error::InvalidEntity(s) if cut.ends_with(s.as_str()) => {}
            Error::UnexpectedValue(_) if cut.rfind('>').is_some_and(|i| i + 1 < cut.len()) => {}
            Error::Other(s) if s.contains("date") => {}
            _ => return Err(format!("document ends early: {e:?}\nxml: {cut}")),
        }
    }
    Ok(())
}

fn limits(cx: &mut Cx) -> Result<(), String> {
    let (root, case) = any(cx);
    let mut m = case.model();
    let n = m.count();
    let which = cx.rng.below(3);
    let mut e = Elem::new("", "zz", Kind::Unknown);
    let (mut from, mut to, name) = (String::new(), String::new(), ["attributes", "levels", "declarations"][which]);
    match which {
        0 => {
            for i in 0..65 {
                e = e.attr("", &format!("zz{i}"), "v");
            }
        }
        1 => {
            for _ in 0..32 {
                e = Elem::new("", "zz", Kind::Unknown).child(e);
            }
        }
        _ => {
            e.name = MARK.replace('@', "_");
            from = format!("<{}", e.name);
            to = (0..33).fold(from.clone(), |s, i| format!("{s} xmlns:zz{i}='u'"));
        }
    }
    let parent = m.nth_mut(cx.rng.below(n)).unwrap();
    let at = cx.rng.below(parent.kids.len() + 1);
    parent.kids.insert(at, Kid::new(Node::E(e)));
    let style = style(&mut cx.rng);
    let mut xml = render(&m, Style { ns: false, ..style }, &mut cx.rng);
    if !from.is_empty() {
        xml = xml.replacen(&from, &to, 1);
    }
    observe(cx, &m, &xml);
    let Some(e) = read(root, &xml) else { return Ok(()) };
    // An element in a scalar is refused before anything in it is looked at
    if matches!(e, Error::ExpectedScalar(_)) {
        return Ok(());
    }
    cx.saw("errors about limits");
    expect(&e, &format!("{}: over a limit", root.name), "Other", &[name], &xml)
}

// Writing ---------------------------------------------------------------

#[derive(Debug, ToXml, FromXml)]
struct Texts<'a> {
    #[xml(attribute)]
    at: String,
    element: String,
    list: Vec<String>,
    optional: Option<Cow<'a, str>>,
    #[xml(attribute)]
    character: Option<char>,
    #[xml(direct)]
    direct: String,
}

fn forbidden(cx: &mut Cx) -> Result<(), String> {
    let r = &mut cx.rng;
    let c = match r.below(4) {
        0 => *r.pick(&['\u{fffe}', '\u{ffff}']),
        1 => '\0',
        _ => loop {
            let c = char::from(r.below(32) as u8);
            if !matches!(c, '\t' | '\n' | '\r') {
                break c;
            }
        },
    };
    let s = format!("{}{c}{}", r.pick(&["", "a", "é<", "\n"]), r.pick(&["", "b", "&", "漢"]));
    let mut v = Texts { at: "a".into(), element: "e".into(), list: vec!["l".into()], optional: None, character: None, direct: "d".into() };
    let at = r.below(6);
    match at {
        0 => v.at = s.clone(),
        1 => v.element = s.clone(),
        2 => v.list.push(s.clone()),
        3 => v.optional = Some(s.clone().into()),
        4 => v.character = Some(c),
        _ => v.direct = s.clone(),
    }
    cx.input = format!("{v:?}");
    cx.distinct(cx.input.clone().as_bytes());
    let Err(e) = instant_xml::to_string(&v) else { return Ok(()) };
    cx.saw("errors about forbidden characters");
    let (variant, text) = parts(&e);
    let code = format!("{:x}", c as u32);
    let named = text.contains(c) || text.contains(&c.escape_debug().to_string()) || text.to_lowercase().contains(&code);
    match variant == "UnexpectedValue" && named {
        true => Ok(()),
        false => Err(format!("{c:?} in {v:?}: {e:?}")),
    }
}

pub fn campaigns(prop: &str) -> Vec<Campaign> {
    let c = Campaign::new;
    match prop {
        "C26" => vec![
            c("zoo/missing", 120_000, 2_000_000, missing),
            c("zoo/duplicate", 120_000, 2_000_000, duplicate),
            c("zoo/tuples", 60_000, 1_000_000, tuples),
            c("zoo/hand", 20_000, 200_000, hand),
            c("zoo/value", 120_000, 2_000_000, value),
            c("zoo/scalar", 60_000, 1_000_000, no_scalar),
            c("zoo/root", 60_000, 1_000_000, other_root),
            c("zoo/reference", 80_000, 1_000_000, reference),
            c("zoo/prefix", 80_000, 1_000_000, prefix),
            c("zoo/limits", 40_000, 400_000, limits),
            c("zoo/truncated", 30_000, 400_000, truncated),
            c("zoo/forbidden", 20_000, 200_000, forbidden),
        ],
        _ => vec![],
    }
}
