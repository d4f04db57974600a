//! C23: what must hold of memory. The campaigns here run in binaries whose allocator counts what
//! every thread holds (a leak shows as a balance that does not return to what it was), built with
//! AddressSanitizer or interpreted by Miri. Inputs are exact allocations which are gone by the time
//! owned values are looked at.

use std::alloc::{GlobalAlloc, Layout, System};
use std::borrow::Cow;
use std::cell::Cell;
use std::fmt;
use std::hint::black_box;

use chrono::{DateTime, NaiveDate, Utc};
use instant_xml::de::Node;
use instant_xml::ser::{Context, Prefix};
use instant_xml::{from_str, to_string, to_writer, Accumulate, AnyElement, Deserializer, Error, FromXml, Id, Kind, Serializer, ToXml};

use crate::model;
use crate::render::{render, Style};
use crate::rng::Rng;
use crate::runner::{Campaign, Cx};
use crate::trees::{any_tree, malform, SNIPPETS};
use crate::zooprops::any;

// The allocator -----------------------------------------------------------------

pub struct Balanced;

thread_local! {
    static HELD: Cell<i64> = const { Cell::new(0) };
}

fn hold(n: i64) {
    let _ = HELD.try_with(|h| h.set(h.get() + n));
}

unsafe impl GlobalAlloc for Balanced {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        hold(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        hold(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        hold(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

/// Runs `f`, whose result holds no memory, until it leaves none behind; a leak is one that happens
/// each time
fn balanced<T: Copy>(what: &str, mut f: impl FnMut() -> Result<T, String>) -> Result<T, String> {
    let mut held = 0;
    for _ in 0..3 {
        let before = HELD.get();
        let result = f()?;
        held = HELD.get() - before;
        if held == 0 {
            return Ok(result);
        }
    }
    Err(format!("{what}: {held} bytes are not freed"))
}

// Monitors ----------------------------------------------------------------------

/// Reads every byte and judges the encoding
pub fn touch(s: &str) -> Result<u64, String> {
    let bytes = black_box(s).as_bytes();
    let mut sum = 0u64;
    // Miri sees what the library's code does
    if !cfg!(miri) {
        for b in bytes {
            sum = sum.wrapping_mul(31).wrapping_add(*black_box(b) as u64);
        }
    }
    match std::str::from_utf8(black_box(bytes)) {
        Ok(_) => Ok(sum | 1),
        Err(e) => Err(format!("string that is not UTF-8: {e}: {bytes:?}")),
    }
}

fn touch_any(e: &AnyElement<'_>, n: &mut u64) -> Result<(), String> {
    for s in [&e.ns, &e.name] {
        *n += 1;
        touch(s)?;
    }
    for a in &e.attributes {
        for s in [&a.ns, &a.name, &a.value] {
            *n += 1;
            touch(s)?;
        }
    }
    if let Some(s) = &e.text {
        *n += 1;
        touch(s)?;
    }
    e.children.iter().try_for_each(|c| touch_any(c, n))
}

fn touch_error(e: &Error, n: &mut u64) -> Result<(), String> {
    *n += 1;
    touch(&e.to_string())?;
    touch(&format!("{e:?}"))?;
    Ok(())
}

fn debugged(v: &impl fmt::Debug, n: &mut u64) -> Result<(), String> {
    *n += 1;
    touch(&format!("{v:?}")).map(drop)
}

// Types ---------------------------------------------------------------------------

const P: &str = "urn:b";

/// Everything at once, without lifetimes
#[derive(Clone, Debug, PartialEq, FromXml, ToXml)]
#[xml(rename = "a", ns("", p = P))]
struct Owned {
    #[xml(attribute)]
    a: Option<String>,
    #[xml(attribute, ns(P))]
    item: Option<u8>,
    #[xml(rename = "b")]
    n: Vec<i32>,
    #[xml(rename = "é")]
    f: Option<f64>,
    #[xml(rename = "_")]
    d: Option<DateTime<Utc>>,
    #[xml(rename = "x-1.y")]
    s: Vec<String>,
    #[xml(ns(P))]
    known: Option<char>,
    k: Option<Cow<'static, str>>,
    nested: Vec<Nested>,
    word: Option<Word>,
    pick: Vec<Pick>,
    group: Option<Group>,
    #[xml(serialize_with = "put", deserialize_with = "take")]
    hook: Vec<String>,
    #[xml(direct)]
    text: Option<String>,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml)]
#[xml(rename = "item", ns("urn:a", q = "urn:b"))]
struct Nested {
    #[xml(attribute)]
    k: String,
    text: Option<Box<String>>,
    nested: Vec<Nested>,
    date: Option<NaiveDate>,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml)]
#[xml(scalar)]
enum Word {
    #[xml(rename = "x")]
    X,
    Text,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml)]
#[xml(forward)]
enum Pick {
    One(One),
    Two(Box<Two>),
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml)]
#[xml(rename = "one")]
struct One(String);

#[derive(Clone, Debug, PartialEq, FromXml, ToXml)]
#[xml(rename = "two")]
struct Two {
    #[xml(attribute)]
    x: Option<f32>,
    #[xml(direct)]
    t: String,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml)]
#[xml(transparent)]
struct Group {
    g: Option<String>,
    h: Vec<u16>,
}

fn take<'xml>(acc: &mut <Vec<String> as FromXml<'xml>>::Accumulator, field: &'static str, de: &mut Deserializer<'_, 'xml>) -> Result<(), Error> {
    match de.take_str()? {
        Some(s) if s.contains("no") => return Err(Error::UnexpectedValue(format!("{field}: {s}"))),
        s => acc.push(s.unwrap_or_default().into_owned()),
    }
    de.ignore()
}

fn put<W: fmt::Write + ?Sized>(v: &Vec<String>, ser: &mut Serializer<'_, W>) -> Result<(), Error> {
    for s in v {
        let e = ser.write_start("hook", "", None::<Context<0>>)?;
        ser.end_start()?;
        s.serialize(None, ser)?;
        ser.write_close(e)?;
    }
    Ok(())
}

/// Everything that borrows
#[derive(Debug, FromXml)]
#[xml(rename = "a")]
struct Borrowed<'a> {
    #[xml(attribute, borrow)]
    a: Option<Cow<'a, str>>,
    #[xml(borrow)]
    b: Vec<Cow<'a, str>>,
    #[xml(rename = "é", borrow)]
    c: Option<Cow<'a, str>>,
    #[xml(borrow)]
    item: Vec<BorrowedItem<'a>>,
    #[xml(borrow)]
    rest: Vec<AnyElement<'a>>,
    #[xml(direct)]
    text: Option<String>,
}

#[derive(Debug, FromXml)]
#[xml(rename = "item", ns("urn:a"))]
struct BorrowedItem<'a> {
    #[xml(borrow)]
    t: Cow<'a, str>,
}

/// A value that its accumulator may refuse when all has been read
#[derive(Clone, Debug)]
struct Picky(Box<String>);

#[derive(Default)]
struct Picked(Option<String>);

impl Accumulate<Picky> for Picked {
    fn try_done(self, field: &'static str) -> Result<Picky, Error> {
        match self.0 {
            Some(s) if s.len() % 4 != 3 => Ok(Picky(Box::new(s))),
            Some(_) => Err(Error::MissingValue(field)),
            None => Err(Error::MissingValue(field)),
        }
    }
}

impl<'xml> FromXml<'xml> for Picky {
    fn matches(id: Id<'_>, field: Option<Id<'_>>) -> bool {
        field == Some(id)
    }
    fn deserialize<'cx>(into: &mut Picked, field: &'static str, de: &mut Deserializer<'cx, 'xml>) -> Result<(), Error> {
        let mut s = None;
        String::deserialize(&mut s, field, de)?;
        into.0 = s;
        Ok(())
    }
    type Accumulator = Picked;
    const KIND: Kind = Kind::Scalar;
}

#[derive(Debug, FromXml)]
#[xml(rename = "a")]
struct Fussy {
    #[xml(attribute)]
    k: Option<Picky>,
    b: Vec<Picky>,
    item: Cow<'static, [Picky]>,
    #[xml(rename = "é")]
    e: Option<Box<Picky>>,
    group: FussyGroup,
    known: Vec<Option<Box<Picky>>>,
}

#[derive(Debug, FromXml)]
#[xml(transparent)]
struct FussyGroup {
    #[xml(rename = "x-1.y")]
    x: Vec<Picky>,
    #[xml(rename = "_")]
    y: Option<Picky>,
}

impl Owned {
    fn arb(r: &mut Rng) -> Self {
        let strings = |r: &mut Rng, n| (0..r.below(n)).map(|_| arb_string(r)).collect::<Vec<_>>();
        Owned {
            a: r.chance(50).then(|| arb_string(r)),
            item: r.chance(50).then(|| r.below(256) as u8),
            n: (0..r.below(4)).map(|_| r.next() as i32).collect(),
            f: r.chance(50).then(|| r.next() as i32 as f64 / 7.0),
            d: r.chance(50).then(|| DateTime::from_timestamp((r.next() as u32).into(), 0).unwrap()),
            s: strings(r, 4),
            known: r.chance(50).then(|| *r.pick(&['x', '<', '😀'])),
            k: r.chance(50).then(|| arb_string(r).into()),
            nested: (0..r.below(3)).map(|_| Nested::arb(r, 2)).collect(),
            word: r.chance(50).then(|| if r.chance(50) { Word::X } else { Word::Text }),
            pick: (0..r.below(3))
                .map(|_| match r.chance(50) {
                    true => Pick::One(One(arb_string(r))),
                    false => Pick::Two(Box::new(Two { x: r.chance(50).then_some(0.5), t: arb_string(r) })),
                })
                .collect(),
            group: r.chance(50).then(|| Group { g: Some(arb_string(r)), h: vec![1, 2] }),
            hook: strings(r, 3),
            text: r.chance(50).then(|| arb_string(r)),
        }
    }
}

impl Nested {
    fn arb(r: &mut Rng, depth: usize) -> Self {
        Nested {
            k: arb_string(r),
            text: r.chance(50).then(|| Box::new(arb_string(r))),
            nested: (0..if depth == 0 { 0 } else { r.below(3) }).map(|_| Nested::arb(r, depth - 1)).collect(),
            date: None,
        }
    }
}

// Campaigns -------------------------------------------------------------------------

fn arb_string(r: &mut Rng) -> String {
    match cfg!(miri) {
        true => (0..r.below(5)).map(|_| *r.pick(&['a', ' ', '<', '&', '"', 'é', '漢', '😀', ']', '>', '\n'])).collect(),
        false => model::arb_string(r),
    }
}

/// Parts of small documents for `Owned` and `Borrowed`
const PARTS: &[&str] = &[
    "<b>1</b>", "<b>-7</b>", "<é>1.5</é>", "<é>inf</é>", "<_>2020-01-01T00:00:00Z</_>", "<x-1.y>a&lt;é</x-1.y>", "<x-1.y/>",
    "<known xmlns='urn:b'>x</known>", "<k>&#x1F600;</k>", "<k/>", "<k><![CDATA[<]]>a</k>", "<u>a<v>b</v>c</u>",
    "<i:item xmlns:i='urn:a' k='v'><i:text>t</i:text><i:item k=''/></i:item>", "<item xmlns='urn:a' k=''><t>t&gt;</t></item>",
    "<word>x</word>", "<word>Text</word>", "<one>o</one>", "<one/>", "<two x='0.5'>é</two>", "<g>1</g>", "<h>2</h>",
    "<hook>yes</hook>", "<hook/>", "<!-- é -->", "<![CDATA[]]>", "<u:u xmlns:u='urn:u' u:é='漢'/>",
];
const TEXTS: &[&str] = &["text", "&amp;", "<![CDATA[]] >]]>", " &#233;", "a<!-- c -->&quot;<![CDATA[é]]>"];
const BAD_PARTS: &[&str] = &[
    "<word>y</word>", "<nested k='1'/>", "<hook>no</hook>", "</a>", "<a>", "&bad;", "<", "<p:x/>", "<?pi?>", "<b/>", "<b>x</b>", "&#55296;", "&#99999999999;",
];

fn small(r: &mut Rng) -> String {
    let mut xml = String::from(*r.pick(&["", "", "<?xml version='1.0'?>", "<!-- c -->"]));
    xml += *r.pick(&["<a>", "<a a='x'>", "<a a='&quot;é'>", "<a xmlns:p='urn:b' p:item='3'>"]);
    for _ in 0..r.below(5) {
        xml += PARTS[r.below(PARTS.len())];
    }
    if r.chance(40) {
        xml += *r.pick(TEXTS);
    }
    if r.chance(25) {
        xml += *r.pick(BAD_PARTS);
    }
    let end = if r.chance(90) { 0 } else { r.below(5) };
    xml + ["</a>", "", "</a", "</p:a>", "</a>x"][end]
}

/// Any document, good or bad
fn document(r: &mut Rng) -> String {
    if cfg!(miri) || r.chance(20) {
        return small(r);
    }
    match r.below(8) {
        0 => (0..r.range(0, 20)).map(|_| *r.pick(SNIPPETS)).collect(),
        1..=3 => {
            let mut xml = to_string(&Owned::arb(r)).unwrap_or_default();
            for _ in 0..*r.pick(&[0, 0, 1, 3]) {
                xml = malform(&xml, r);
            }
            xml
        }
        _ => {
            let m = any_tree(r);
            let style = Style::random(r);
            let mut xml = render(&m, style, r);
            for _ in 0..*r.pick(&[0, 0, 0, 1, 2, 8]) {
                xml = malform(&xml, r);
            }
            xml
        }
    }
}

fn gone(xml: Box<str>) {
    let mut bytes = xml.into_boxed_bytes();
    bytes.fill(b'#');
    drop(black_box(bytes));
}

fn read(cx: &mut Cx) -> Result<(), String> {
    let text = document(&mut cx.rng);
    cx.input = text.clone();
    cx.sample(|| text.clone());
    cx.distinct(text.as_bytes());
    let fail = |e: String| format!("{e}\nxml: {text}");
    let (values, strings) = balanced("reading", || {
        let mut n = 0;
        let mut values = 0;
        let xml: Box<str> = text.as_str().into();
        match from_str::<AnyElement>(&xml) {
            Ok(any) => {
                values += 1;
                touch_any(&any, &mut n)?;
                let copy = any.clone();
                let owned = any.into_owned();
                drop(copy);
                gone(xml);
                touch_any(&owned, &mut n)?;
            }
            Err(e) => {
                gone(xml);
                touch_error(&e, &mut n)?;
            }
        }
        let xml: Box<str> = text.as_str().into();
        let result = from_str::<Owned>(&xml);
        gone(xml);
        match result {
            Ok(v) => {
                values += 1;
                debugged(&v, &mut n)?;
                for s in v.s.iter().chain(&v.hook).chain(&v.a).chain(&v.text) {
                    n += 1;
                    touch(s)?;
                }
                v.k.iter().try_for_each(|s| touch(s).map(drop))?;
            }
            Err(e) => touch_error(&e, &mut n)?,
        }
        let xml: Box<str> = text.as_str().into();
        let result = from_str::<Fussy>(&xml);
        gone(xml);
        match result {
            Ok(v) => {
                values += 1;
                debugged(&v, &mut n)?;
            }
            Err(e) => touch_error(&e, &mut n)?,
        }
        let xml: Box<str> = text.as_str().into();
        match from_str::<Borrowed>(&xml) {
            Ok(v) => {
                values += 1;
                debugged(&v, &mut n)?;
                let all = v.b.iter().chain(&v.a).chain(&v.c).chain(v.item.iter().map(|i| &i.t));
                for s in all {
                    n += 1;
                    touch(s)?;
                }
                v.rest.iter().try_for_each(|a| touch_any(a, &mut n))?;
            }
            Err(e) => touch_error(&e, &mut n)?,
        }
        Ok((values, n))
    })
    .map_err(fail)?;
    cx.saw_n("values read", values);
    cx.saw_n("strings looked at", strings);
    Ok(())
}

/// What the nodes of a caller hold that outlives its deserializers
#[derive(Default)]
struct Kept<'xml> {
    strings: Vec<Cow<'xml, str>>,
    errors: Vec<Error>,
}

/// Pulls, skips and abandons nodes at random, also after errors
fn wander<'xml>(de: &mut Deserializer<'_, 'xml>, r: &mut Rng, kept: &mut Kept<'xml>, budget: &mut u32) {
    loop {
        if *budget == 0 || r.chance(3) {
            return;
        }
        *budget -= 1;
        let id = de.parent();
        kept.strings.extend([id.ns.into(), id.name.into()]);
        match de.next() {
            None => return,
            Some(Err(e)) => {
                kept.errors.push(e);
                if r.chance(50) {
                    return;
                }
            }
            Some(Ok(Node::Open(e))) => {
                match de.element_id(&e) {
                    Ok(id) => kept.strings.extend([id.ns.into(), id.name.into()]),
                    Err(e) => kept.errors.push(e),
                }
                let result = match r.below(8) {
                    0 => de.nested(e).ignore(),
                    1 => de.nested(e).deserialize::<AnyElement>().map(|any| {
                        let owned = any.clone();
                        kept.strings.extend([any.ns, any.name]);
                        drop(owned);
                    }),
                    2 => de.nested(e).take_str().map(|s| kept.strings.extend(s)),
                    3 => de.nested(e).deserialize::<Owned>().map(drop),
                    // Never looked at
                    4 => {
                        drop(de.nested(e));
                        Ok(())
                    }
                    5 => {
                        let node = Node::Open(e);
                        wander(&mut de.for_node(node), r, kept, budget);
                        Ok(())
                    }
                    _ => {
                        wander(&mut de.nested(e), r, kept, budget);
                        Ok(())
                    }
                };
                kept.errors.extend(result.err());
            }
            Some(Ok(Node::Attribute(a))) => {
                match de.attribute_id(&a) {
                    Ok(id) => kept.strings.extend([id.ns.into(), id.name.into()]),
                    Err(e) => kept.errors.push(e),
                }
                match r.below(3) {
                    0 => kept.strings.push(a.value),
                    1 => match de.for_node(Node::AttributeValue(a.value)).take_str() {
                        Ok(s) => kept.strings.extend(s),
                        Err(e) => kept.errors.push(e),
                    },
                    _ => drop(a),
                }
            }
            Some(Ok(Node::Text(t))) => match r.below(3) {
                0 => kept.strings.push(t),
                1 => match de.for_node(Node::Text(t)).take_str() {
                    Ok(s) => kept.strings.extend(s),
                    Err(e) => kept.errors.push(e),
                },
                _ => wander(&mut de.for_node(Node::Text(t)), r, kept, budget),
            },
            Some(Ok(Node::AttributeValue(v))) => kept.strings.push(v),
            Some(Ok(Node::Close { prefix, local })) => {
                kept.strings.push(local.into());
                kept.strings.extend(prefix.map(Cow::Borrowed));
            }
        }
    }
}

fn pulled(cx: &mut Cx) -> Result<(), String> {
    let text = document(&mut cx.rng);
    cx.input = text.clone();
    cx.sample(|| text.clone());
    cx.distinct(text.as_bytes());
    let seed = cx.rng.next();
    let strings = balanced("pulling", || {
        let mut n = 0;
        let xml: Box<str> = text.as_str().into();
        let mut kept = Kept::default();
        let mut r = Rng::new(seed);
        match Deserializer::new(&xml) {
            Ok(mut de) => wander(&mut de, &mut r, &mut kept, &mut 300),
            Err(e) => kept.errors.push(e),
        }
        // The deserializer is gone, the input is not
        for s in &kept.strings {
            n += 1;
            touch(s)?;
        }
        let Kept { strings, errors } = kept;
        drop(strings);
        gone(xml);
        errors.iter().try_for_each(|e| touch_error(e, &mut n))?;
        Ok(n)
    })
    .map_err(|e| format!("{e}\nxml: {text}"))?;
    cx.saw_n("strings looked at", strings);
    Ok(())
}

/// Takes this many bytes
struct Full(String, usize);

impl fmt::Write for Full {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        touch(s).map_err(|_| fmt::Error)?;
        if self.0.len() + s.len() > self.1 {
            return Err(fmt::Error);
        }
        self.0.push_str(s);
        Ok(())
    }
}

fn write(cx: &mut Cx) -> Result<(), String> {
    let v = Owned::arb(&mut cx.rng);
    cx.input = format!("{v:?}");
    cx.distinct(cx.input.clone().as_bytes());
    let limit = cx.rng.below(400);
    let (bytes, read) = balanced("writing", || {
        let mut n = 0;
        let copy = v.clone();
        let xml = to_string(&copy).map_err(|e| e.to_string())?;
        drop(copy);
        touch(&xml)?;
        let mut out = Full(String::new(), limit);
        if let Err(e) = to_writer(&v, &mut out) {
            touch_error(&e, &mut n)?;
        }
        touch(&out.0)?;
        if !xml.starts_with(&out.0) {
            return Err("output differs".into());
        }
        let size = xml.len() as u64;
        let xml = xml.into_boxed_str();
        let back = from_str::<Owned>(&xml);
        gone(xml);
        let ok = match back {
            Ok(back) => {
                debugged(&back, &mut n)?;
                true
            }
            Err(e) => {
                touch_error(&e, &mut n)?;
                false
            }
        };
        Ok((size, ok))
    })
    .map_err(|e| format!("{e}\nvalue: {v:?}"))?;
    cx.saw_n("bytes written", bytes);
    cx.saw_n("values read", read as u64);
    Ok(())
}

fn calls(cx: &mut Cx) -> Result<(), String> {
    const NS: &[&str] = &["", "urn:a", "urn:b", "urn:c"];
    const PREFIXES: &[&str] = &["", "p", "q", "é"];
    let seed = cx.rng.next();
    let limit = cx.rng.below(600);
    let n = balanced("serializer calls", || {
        let mut r = Rng::new(seed);
        let mut out = Full(String::new(), limit);
        let mut ser = Serializer::new(&mut out);
        let mut open = Vec::new();
        let mut n = 0;
        // Names that are gone when the document is done
        let names: Vec<String> = (0..4).map(|i| format!("name{i}é")).collect();
        for _ in 0..r.range(1, 40) {
            n += 1;
            let result = match r.below(7) {
                0..=1 => {
                    let mut context = Context::<2>::default();
                    context.default_ns = r.pick::<&str>(NS);
                    context.force_prefix = r.chance(30);
                    for p in &mut context.prefixes {
                        *p = Prefix { ns: r.pick::<&str>(NS), prefix: r.pick::<&str>(PREFIXES) };
                    }
                    let ns = r.pick::<&str>(NS);
                    ser.write_start(&names[r.below(4)], ns, Some(context)).map(|e| open.push(e))
                }
                2 => ser.write_attr(&names[r.below(4)], r.pick::<&str>(NS), &arb_string(&mut r)),
                3 => ser.end_start(),
                4 => ser.end_empty().map(|()| drop(open.pop())),
                5 => arb_string(&mut r).serialize(r.chance(50).then_some(Id { ns: "urn:a", name: "x" }), &mut ser),
                _ => match open.pop() {
                    Some(e) => ser.write_close(e),
                    None => Ok(()),
                },
            };
            for ns in NS {
                if let Some(p) = ser.prefix(ns) {
                    touch(p)?;
                }
            }
            touch(ser.default_ns())?;
            if let Err(e) = result {
                touch_error(&e, &mut n)?;
                if r.chance(20) {
                    break;
                }
            }
        }
        drop(open);
        drop(names);
        touch(&out.0)?;
        Ok(n)
    })?;
    cx.distinct(&seed.to_le_bytes());
    cx.saw_n("serializer calls", n);
    Ok(())
}

/// Values of generated types: written, read from an input that is gone when they are looked at
fn zoo(cx: &mut Cx) -> Result<(), String> {
    let (root, case) = any(cx);
    let m = case.model();
    let mut xml = match cx.rng.chance(30) {
        true => case.ser().unwrap_or_default(),
        false => {
            let style = Style::random(&mut cx.rng);
            render(&m, style, &mut cx.rng)
        }
    };
    for _ in 0..*cx.rng.pick(&[0, 0, 0, 1, 2]) {
        xml = malform(&xml, &mut cx.rng);
    }
    cx.input = xml.clone();
    cx.sample(|| xml.clone());
    cx.distinct(xml.as_bytes());
    let limit = cx.rng.below(2000);
    let (read, same) = balanced(root.name, || {
        let mut out = Full(String::new(), limit);
        let _ = case.ser_to(&mut out);
        touch(&out.0)?;
        let input: Box<str> = xml.as_str().into();
        let here = (root.de)(&input).map(|(_, dbg)| dbg);
        let there = (root.de_freed)(input).map(|(_, dbg)| dbg);
        let mut n = 0;
        match (&here, &there) {
            (Ok(a), Ok(b)) if a == b => {
                touch(b)?;
            }
            (Err(a), Err(b)) if a == b => touch_error(b, &mut n)?,
            _ => return Err(format!("what is read changes with its input: {here:?}, then {there:?}")),
        }
        Ok((there.is_ok(), n))
    })
    .map_err(|e| format!("{}: {e}\nxml: {xml}", root.name))?;
    cx.saw_n("values read", read as u64);
    cx.saw_n("errors looked at", same);
    Ok(())
}

pub fn campaigns() -> Vec<Campaign> {
    vec![
        Campaign::new("safety/read", 40_000, 1_000_000, read),
        Campaign::new("safety/pulled", 40_000, 1_000_000, pulled),
        Campaign::new("safety/write", 20_000, 500_000, write),
        Campaign::new("safety/calls", 40_000, 1_000_000, calls),
    ]
}

pub fn zoo_campaigns(prop: &str) -> Vec<Campaign> {
    match prop {
        "C23" => vec![Campaign::new("safety/zoo", 40_000, 400_000, zoo)],
        _ => vec![],
    }
}
