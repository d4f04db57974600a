//! What the API offers and the generated types do not use: `()`, fields behind references,
//! `from_xml_str()` and the borrowing helpers in hand-written implementations.

use std::borrow::Cow;
use std::str::FromStr;

use chrono::NaiveDate;
use instant_xml::de::Node;
use instant_xml::{from_str, to_string, Deserializer, Error, FromXml, Id, Kind as XmlKind, ToXml};

use crate::infoset::{Elem, Kind};
use crate::model::arb_string;
use crate::refxml;
use crate::render::{render, Style};
use crate::rng::Rng;
use crate::runner::{Campaign, Cx};
use crate::text::{inside, raw_text};
use crate::trees::short_text;

const NS: &str = "urn:r";
const Q: &str = "urn:q";

/// Written `#5`
#[derive(Debug, PartialEq)]
struct Parsed(u32);

impl FromStr for Parsed {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        s.strip_prefix('#').and_then(|s| s.parse().ok()).map(Parsed).ok_or(())
    }
}

impl<'xml> FromXml<'xml> for Parsed {
    fn matches(id: Id<'_>, field: Option<Id<'_>>) -> bool {
        field == Some(id)
    }
    fn deserialize<'cx>(into: &mut Option<Self>, field: &'static str, de: &mut Deserializer<'cx, 'xml>) -> Result<(), Error> {
        instant_xml::from_xml_str(into, field, de)
    }
    type Accumulator = Option<Self>;
    const KIND: XmlKind = XmlKind::Scalar;
}

#[derive(Debug, FromXml)]
#[xml(rename = "r", ns("urn:r"))]
struct Rare<'a> {
    unit: (),
    opt_unit: Option<()>,
    units: Vec<()>,
    parsed: Parsed,
    opt_parsed: Option<Parsed>,
    parsed_list: Vec<Parsed>,
    #[xml(deserialize_with = "instant_xml::from_xml_str")]
    hooked: u32,
    boxed: Box<u32>,
    opt_box: Option<Box<u32>>,
    list: Cow<'a, [u32]>,
    #[xml(borrow)]
    word: Cow<'a, str>,
    date: Option<NaiveDate>,
}

#[derive(Clone, Copy, PartialEq)]
enum Often {
    Once,
    Maybe,
    Any,
}

const RARE: &[(&str, Often, fn(u32) -> String)] = &[
    ("unit", Often::Once, |_| String::new()),
    ("opt_unit", Often::Maybe, |_| String::new()),
    ("units", Often::Any, |_| String::new()),
    ("parsed", Often::Once, |n| format!("#{n}")),
    ("opt_parsed", Often::Maybe, |n| format!("#{n}")),
    ("parsed_list", Often::Any, |n| format!("#{n}")),
    ("hooked", Often::Once, |n| n.to_string()),
    ("boxed", Often::Once, |n| n.to_string()),
    ("opt_box", Often::Maybe, |n| n.to_string()),
    ("list", Often::Any, |n| n.to_string()),
    ("word", Often::Once, |n| format!("w{n}")),
    ("date", Often::Maybe, |n| format!("2024-01-{:02}", n % 31 + 1)),
];

/// C13: fields of all these types, as often as may be or not
fn cardinality(cx: &mut Cx) -> Result<(), String> {
    let r = &mut cx.rng;
    let odd = r.chance(70).then(|| r.below(RARE.len()));
    let bad_text = r.chance(10);
    let mut kids: Vec<(usize, u32)> = Vec::new();
    for (i, (_, often, _)) in RARE.iter().enumerate() {
        let n = match often {
            _ if odd == Some(i) => *r.pick(&[0, 1, 2, 2, 3]),
            Often::Once => 1,
            Often::Maybe => r.below(2),
            Often::Any => r.below(4),
        };
        kids.extend((0..n).map(|_| (i, r.below(100_000) as u32)));
    }
    r.shuffle(&mut kids);
    let texts = |i: usize| -> Vec<String> { kids.iter().filter(|k| k.0 == i).map(|k| RARE[k.0].2(k.1)).collect() };
    let mut ok = RARE.iter().enumerate().all(|(i, (_, often, _))| match often {
        Often::Once => texts(i).len() == 1,
        Often::Maybe => texts(i).len() <= 1,
        Often::Any => true,
    });
    let mut root = Elem::new(NS, "r", Kind::Struct);
    let spoilt = kids.iter().position(|k| RARE[k.0].0.contains("parsed") || RARE[k.0].0 == "hooked").filter(|_| bad_text);
    for (at, &(i, n)) in kids.iter().enumerate() {
        let (name, _, text) = RARE[i];
        let mut text = text(n);
        if spoilt == Some(at) {
            text = (*r.pick(&["x", "#", "-1", "# 1", "1 #", "99999999999"])).to_owned();
            ok = false;
        }
        root = root.child(Elem::new(NS, name, Kind::Scalar).text(&text));
    }
    let style = Style { inter: true, ..Style::random(r) };
    let xml = render(&root, style, r);
    cx.input = xml.clone();
    cx.distinct(xml.as_bytes());
    cx.sample(|| xml.clone());
    match (from_str::<Rare>(&xml), ok) {
        (Err(_), false) => cx.saw("wrong numbers or texts refused"),
        (Ok(v), false) => return Err(format!("accepted as {v:?}\nxml: {xml}")),
        (Err(e), true) => return Err(format!("refused: {e}\nxml: {xml}")),
        (Ok(v), true) => {
            let parsed = |n: &Parsed| format!("#{}", n.0);
            let got = [
                vec![String::new()],
                v.opt_unit.iter().map(|_| String::new()).collect(),
                v.units.iter().map(|_| String::new()).collect(),
                vec![parsed(&v.parsed)],
                v.opt_parsed.iter().map(parsed).collect(),
                v.parsed_list.iter().map(parsed).collect(),
                vec![v.hooked.to_string()],
                vec![v.boxed.to_string()],
                v.opt_box.iter().map(|n| n.to_string()).collect(),
                v.list.iter().map(|n| n.to_string()).collect(),
                vec![v.word.to_string()],
                v.date.iter().map(|d| d.to_string()).collect(),
            ];
            for (i, got) in got.iter().enumerate() {
                if *got != texts(i) {
                    return Err(format!("{}: {got:?} instead of {:?}\nxml: {xml}", RARE[i].0, texts(i)));
                }
            }
            cx.saw("right numbers accepted");
        }
    }
    Ok(())
}

#[derive(Clone, Debug, ToXml)]
#[xml(rename = "sub", ns("urn:s", q = Q))]
struct Sub {
    #[xml(attribute, ns(Q))]
    k: Option<String>,
    #[xml(direct)]
    t: Option<String>,
}

#[derive(Clone, Debug, ToXml)]
#[xml(rename = "r", ns("urn:r"))]
struct Owned {
    #[xml(attribute)]
    a: String,
    #[xml(attribute)]
    b: Option<u8>,
    #[xml(attribute)]
    c: Option<String>,
    d: Vec<String>,
    e: Vec<Option<i64>>,
    f: Option<String>,
    g: Sub,
    h: Option<Sub>,
    i: Vec<Sub>,
    j: char,
    k: Option<bool>,
    l: String,
    #[xml(ns("urn:l"))]
    m: Option<Vec<u8>>,
}

#[derive(Debug, ToXml)]
#[xml(rename = "r", ns("urn:r"))]
struct ByRef<'a> {
    #[xml(attribute)]
    a: &'a str,
    #[xml(attribute)]
    b: &'a Option<u8>,
    #[xml(attribute)]
    c: &'a &'a Option<String>,
    d: &'a [String],
    e: &'a Vec<Option<i64>>,
    f: Option<&'a str>,
    g: &'a Sub,
    h: Option<&'a Sub>,
    i: Vec<&'a Sub>,
    j: &'a char,
    k: &'a Option<&'a bool>,
    l: Cow<'a, str>,
    #[xml(ns("urn:l"))]
    m: Option<&'a [u8]>,
}

#[derive(Debug, ToXml)]
#[xml(rename = "r", ns("urn:r"))]
struct InBoxes<'a> {
    #[xml(attribute)]
    a: Box<str>,
    #[xml(attribute)]
    b: Box<Option<u8>>,
    #[xml(attribute)]
    c: Option<Box<&'a str>>,
    d: Box<[String]>,
    e: Cow<'a, [Option<i64>]>,
    f: Box<Option<Box<str>>>,
    g: Box<&'a Sub>,
    h: &'a Option<Box<Sub>>,
    i: Box<[&'a Sub]>,
    j: Box<&'a char>,
    k: Option<Box<bool>>,
    l: &'a Box<str>,
    #[xml(ns("urn:l"))]
    m: Box<Option<Vec<&'a u8>>>,
}

fn sub(cx: &mut Cx) -> Sub {
    let r = &mut cx.rng;
    Sub { k: r.chance(50).then(|| arb_string(r)), t: r.chance(60).then(|| short_text(r)) }
}

/// C03: a field behind a reference or in a box is written like the field itself
fn references(cx: &mut Cx) -> Result<(), String> {
    let g = sub(cx);
    let h = cx.rng.chance(50).then(|| sub(cx));
    let i: Vec<Sub> = (0..cx.rng.below(4)).map(|_| sub(cx)).collect();
    let r = &mut cx.rng;
    let v = Owned {
        a: arb_string(r),
        b: r.chance(50).then(|| r.next() as u8),
        c: r.chance(50).then(|| arb_string(r)),
        d: (0..r.below(4)).map(|_| arb_string(r)).collect(),
        e: (0..r.below(4)).map(|_| r.chance(60).then(|| r.next() as i64)).collect(),
        f: r.chance(50).then(|| arb_string(r)),
        g,
        h,
        i,
        j: *r.pick(&['a', '<', '&', '"', '\n', '漢']),
        k: r.chance(50).then(|| r.chance(50)),
        l: arb_string(r),
        m: r.chance(60).then(|| (0..r.below(4)).map(|_| r.next() as u8).collect()),
    };
    let written = |what: &str, w: Result<String, Error>| match w {
        Ok(s) => match refxml::parse(&s) {
            Ok(d) => Ok((s, d.root.canon())),
            Err(e) => Err(format!("{what} is written as {s}: {e:?}")),
        },
        Err(e) => Err(format!("{what} is not written: {e}\nvalue: {v:?}")),
    };
    let (xml, want) = written("a value", to_string(&v))?;
    cx.input = xml.clone();
    cx.distinct(xml.as_bytes());
    cx.sample(|| xml.clone());
    let by_ref = ByRef {
        a: &v.a,
        b: &v.b,
        c: &&v.c,
        d: &v.d,
        e: &v.e,
        f: v.f.as_deref(),
        g: &v.g,
        h: v.h.as_ref(),
        i: v.i.iter().collect(),
        j: &v.j,
        k: &v.k.as_ref(),
        l: Cow::Borrowed(&v.l),
        m: v.m.as_deref(),
    };
    let boxed_sub = v.h.clone().map(Box::new);
    let boxed_str = v.l.clone().into_boxed_str();
    let in_boxes = InBoxes {
        a: v.a.clone().into_boxed_str(),
        b: Box::new(v.b),
        c: v.c.as_deref().map(Box::new),
        d: v.d.clone().into_boxed_slice(),
        e: Cow::Owned(v.e.clone()),
        f: Box::new(v.f.clone().map(String::into_boxed_str)),
        g: Box::new(&v.g),
        h: &boxed_sub,
        i: v.i.iter().collect(),
        j: Box::new(&v.j),
        k: v.k.map(Box::new),
        l: &boxed_str,
        m: Box::new(v.m.as_ref().map(|m| m.iter().collect())),
    };
    for (what, w) in [
        ("a reference", to_string(&&&v)),
        ("a box", to_string(&Box::new(&v))),
        ("some value", to_string(&Some(&v))),
        ("a value of references", to_string(&by_ref)),
        ("a value of boxes", to_string(&in_boxes)),
    ] {
        let (got, canon) = written(what, w)?;
        if canon != want {
            return Err(format!("{what} is written as {got}, the value itself as {xml}"));
        }
        cx.saw("values behind references written like themselves");
    }
    Ok(())
}

/// Borrows its text as bytes
#[derive(Debug)]
struct Bytes<'a>(Cow<'a, [u8]>);

#[derive(Default)]
struct BytesAccumulator<'a>(Option<Cow<'a, [u8]>>);

impl<'a> instant_xml::Accumulate<Bytes<'a>> for BytesAccumulator<'a> {
    fn try_done(self, field: &'static str) -> Result<Bytes<'a>, Error> {
        self.0.map(Bytes).ok_or(Error::MissingValue(field))
    }
}

impl<'xml: 'a, 'a> FromXml<'xml> for Bytes<'a> {
    fn matches(id: Id<'_>, field: Option<Id<'_>>) -> bool {
        field == Some(id)
    }
    fn deserialize<'cx>(into: &mut BytesAccumulator<'a>, field: &'static str, de: &mut Deserializer<'cx, 'xml>) -> Result<(), Error> {
        let mut bytes: Option<Cow<'xml, [u8]>> = None;
        if into.0.is_some() {
            // It is the helper that must notice
            bytes = Some(Cow::Borrowed(b"before"));
        }
        instant_xml::de::borrow_cow_slice_u8(&mut bytes, field, de)?;
        into.0 = bytes;
        Ok(())
    }
    type Accumulator = BytesAccumulator<'a>;
    const KIND: XmlKind = XmlKind::Scalar;
}

#[derive(Debug, FromXml)]
#[xml(rename = "r")]
struct OfBytes<'a> {
    #[xml(attribute, borrow)]
    a: Bytes<'a>,
    #[xml(borrow)]
    b: Bytes<'a>,
    #[xml(borrow)]
    inner: Option<InnerBytes<'a>>,
}

#[derive(Debug, FromXml)]
#[xml(rename = "in")]
struct InnerBytes<'a> {
    #[xml(borrow)]
    b: Option<Bytes<'a>>,
    after: Option<u8>,
}

/// C16: the helper for byte slices
fn bytes(cx: &mut Cx) -> Result<(), String> {
    let r = &mut cx.rng;
    let (a, b, c) = (raw_text(r, true), raw_text(r, false), raw_text(r, false));
    let twice = r.chance(10);
    let ignored = *r.pick(&["", "", "<x>y</x>", "<b>z</b>"]);
    let inner = match r.chance(60) {
        true => format!("<in><b>{}</b><after>7</after></in>", c.0),
        false => String::new(),
    };
    let again = if twice { "<b>x</b>" } else { "" };
    let mut kids = [format!("<b>{}{ignored}</b>{again}", b.0), inner.clone()];
    r.shuffle(&mut kids);
    let xml = format!("<r a=\"{}\">{}</r>", a.0, kids.concat());
    cx.input = xml.clone();
    cx.distinct(xml.as_bytes());
    cx.sample(|| xml.clone());
    let v = match from_str::<OfBytes>(&xml) {
        Ok(_) if twice && !b.1.is_empty() => return Err(format!("the second <b> is not refused\nxml: {xml}")),
        Ok(v) => v,
        // An empty text leaves nothing behind
        Err(_) if twice || a.1.is_empty() || b.1.is_empty() => return Ok(()),
        Err(e) => return Err(format!("{e}\nxml: {xml}")),
    };
    if twice {
        return Ok(());
    }
    let mut got = vec![("attribute", &v.a.0, &a), ("element", &v.b.0, &b)];
    if let Some(inner) = &v.inner {
        if inner.after != Some(7) {
            return Err(format!("{inner:?}\nxml: {xml}"));
        }
        match &inner.b {
            Some(b) => got.push(("nested element", &b.0, &c)),
            None if c.1.is_empty() => {}
            None => return Err(format!("nested element: None\nxml: {xml}")),
        }
    }
    if v.inner.is_some() != !inner.is_empty() {
        return Err(format!("inner: {:?}\nxml: {xml}", v.inner));
    }
    for (what, g, (raw, want, plain)) in got {
        if **g != *want.as_bytes() {
            return Err(format!("{what}: {raw:?} read as {g:?}\nxml: {xml}"));
        }
        match g {
            Cow::Borrowed(s) if s.is_empty() => {}
            Cow::Borrowed(s) => match inside(&xml, std::str::from_utf8(s).map_err(|e| e.to_string())?) {
                true => cx.saw("bytes borrowed"),
                false => return Err(format!("{what}: borrowed from elsewhere than the input\nxml: {xml}")),
            },
            Cow::Owned(s) if *plain && !s.is_empty() => return Err(format!("{what}: {raw:?} was copied\nxml: {xml}")),
            Cow::Owned(_) => cx.saw("bytes decoded into a copy"),
        }
    }
    Ok(())
}

/// Reads its attribute `n` and a few of the nodes after it, and skips the others
#[derive(Debug, PartialEq, Clone)]
struct Part<const P: char>(u32);

impl<'xml, const P: char> FromXml<'xml> for Part<P> {
    fn matches(id: Id<'_>, _: Option<Id<'_>>) -> bool {
        id.ns == NS && id.name.chars().eq([P])
    }
    fn deserialize<'cx>(into: &mut Option<Self>, field: &'static str, de: &mut Deserializer<'cx, 'xml>) -> Result<(), Error> {
        if into.is_some() {
            return Err(Error::DuplicateValue(field));
        }
        let mut more = None;
        while more != Some(0) {
            more = more.map(|n: u32| n - 1);
            match de.next() {
                Some(Ok(Node::Attribute(a))) if a.local == "n" => {
                    let (n, nodes) = a.value.split_once(' ').unwrap();
                    *into = Some(Part(n.parse().unwrap()));
                    more = Some(nodes.parse().unwrap());
                }
                Some(Ok(Node::Open(e))) => {
                    let mut inner = de.nested(e);
                    for _ in 0..more.unwrap_or(0) % 3 {
                        if let Some(Ok(Node::Open(e))) = inner.next() {
                            inner.nested(e).ignore()?;
                        }
                    }
                    inner.ignore()?;
                }
                Some(node) => drop(node?),
                None => break,
            }
        }
        de.ignore()
    }
    type Accumulator = Option<Self>;
    const KIND: XmlKind = XmlKind::Element;
}

#[derive(Debug, PartialEq, FromXml)]
#[xml(rename = "pair", ns("urn:r"))]
struct Pair(Part<'p'>, Part<'o'>, Box<Part<'q'>>);
#[derive(Debug, PartialEq, FromXml)]
#[xml(rename = "opts", ns("urn:r"))]
struct Opts(Option<Part<'p'>>, Vec<Part<'o'>>, Option<Box<Part<'q'>>>);
#[derive(Debug, PartialEq, FromXml)]
#[xml(rename = "one", ns("urn:r"))]
struct One(Box<Part<'o'>>);
#[derive(Debug, PartialEq, FromXml)]
#[xml(forward)]
enum Either {
    P(Part<'p'>),
    O(Part<'o'>),
}
#[derive(Debug, PartialEq, FromXml)]
#[xml(transparent)]
struct Inline {
    q: Part<'q'>,
}
#[derive(Debug, PartialEq, FromXml)]
#[xml(rename = "r", ns("urn:r"))]
struct Parts {
    pair: Pair,
    opts: Vec<Opts>,
    one: Option<One>,
    either: Vec<Either>,
    inline: Inline,
    last: u32,
}

/// Any content, named like what is looked for outside
fn lookalikes(r: &mut Rng, mut e: Elem, depth: usize) -> Elem {
    for _ in 0..r.below(4) {
        if depth == 0 || r.chance(30) {
            e = e.text(&short_text(r));
            continue;
        }
        let mut kid = Elem::new(NS, *r.pick(&["p", "o", "q", "last", "pair", "one", "opts", "x"]), Kind::Struct);
        if r.chance(60) {
            kid = kid.attr("", "n", "4711 0");
        }
        e = e.child(lookalikes(r, kid, depth - 1));
    }
    e
}

/// C22: what an implementation skips of its element is not seen outside, wherever it is used
fn partial(cx: &mut Cx) -> Result<(), String> {
    let r = &mut cx.rng;
    let part = |r: &mut Rng, name: &str| {
        let n = r.below(4000) as u32;
        let mut e = Elem::new(NS, name, Kind::Struct);
        for i in 0..r.below(3) {
            e = e.attr("", &format!("a{i}"), "x");
        }
        let at = r.below(e.attrs.len() + 1);
        let value = format!("{n} {}", r.below(6));
        e = e.attr("", "n", &value);
        let last = e.attrs.len() - 1;
        e.attrs.swap(at, last);
        (n, lookalikes(r, e, 3))
    };
    let mut root = Vec::new();

    let (p, o, q) = (part(r, "p"), part(r, "o"), part(r, "q"));
    let pair = Pair(Part(p.0), Part(o.0), Box::new(Part(q.0)));
    root.push(Elem::new(NS, "pair", Kind::Tuple).child(p.1).child(o.1).child(q.1));

    let mut opts = Vec::new();
    for _ in 0..r.below(3) {
        let mut e = Elem::new(NS, "opts", Kind::Tuple);
        let mut v = Opts(None, Vec::new(), None);
        if r.chance(50) {
            let p = part(r, "p");
            v.0 = Some(Part(p.0));
            e = e.child(p.1);
        }
        for _ in 0..r.below(3) {
            let o = part(r, "o");
            v.1.push(Part(o.0));
            e = e.child(o.1);
        }
        if r.chance(50) {
            let q = part(r, "q");
            v.2 = Some(Box::new(Part(q.0)));
            e = e.child(q.1);
        }
        opts.push(v);
        root.push(e);
    }

    let mut one = None;
    if r.chance(50) {
        let o = part(r, "o");
        one = Some(One(Box::new(Part(o.0))));
        root.push(Elem::new(NS, "one", Kind::Tuple).child(o.1));
    }

    let mut either = Vec::new();
    for _ in 0..r.below(3) {
        let p = r.chance(50);
        let (n, e) = part(r, if p { "p" } else { "o" });
        either.push(if p { Either::P(Part(n)) } else { Either::O(Part(n)) });
        root.push(e);
    }
    let (q, last) = (part(r, "q"), r.below(100_000) as u32);
    let want = Parts { pair, opts, one, either, inline: Inline { q: Part(q.0) }, last };
    root.insert(r.below(root.len() + 1), q.1);
    root.insert(r.below(root.len() + 1), Elem::new(NS, "last", Kind::Scalar).text(&last.to_string()));

    let root = root.into_iter().fold(Elem::new(NS, "r", Kind::Struct), Elem::child);
    let style = Style::random(r);
    let xml = render(&root, style, r);
    cx.input = xml.clone();
    cx.distinct(xml.as_bytes());
    cx.sample(|| xml.clone());
    match from_str::<Parts>(&xml) {
        Ok(v) if v == want => {
            cx.saw("partly read elements");
            Ok(())
        }
        other => Err(format!("expected {want:?}, got {other:?}\nxml: {xml}")),
    }
}

pub fn campaigns(prop: &str) -> Vec<Campaign> {
    let c = Campaign::new;
    match prop {
        "C03" => vec![c("extra/references", 20_000, 400_000, references)],
        "C13" => vec![c("extra/cardinality", 60_000, 1_000_000, cardinality)],
        "C22" => vec![c("extra/partial", 40_000, 600_000, partial)],
        "C16" => vec![c("extra/bytes", 40_000, 500_000, bytes)],
        _ => vec![],
    }
}
