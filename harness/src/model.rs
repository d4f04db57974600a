//! What a value should look like as XML, written down independently of the library: every type
//! in the zoo implements `Model`, which generates arbitrary values and says which XML
//! information they stand for.

use std::borrow::Cow;
use std::fmt::{self, Debug};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};

use chrono::{DateTime, Datelike, Duration, NaiveDate, NaiveDateTime, Timelike, Utc};

use crate::dict;
use crate::infoset::{About, Attr, Card, Elem, Kid, Kind, Node};
use crate::rng::Rng;
use instant_xml::Error;

pub struct Gen<'r> {
    pub rng: &'r mut Rng,
    /// Elements that may still be produced where they are optional
    pub budget: i32,
}

pub type Field<'a> = Option<(&'a str, &'a str)>;

pub trait Model: Sized {
    const CARD: Card = Card::One;
    const ABOUT: About = About::NONE;
    fn arb(g: &mut Gen<'_>, depth: i32) -> Self;
    /// Children this value stands for, as a field named `field` or on its own
    fn nodes(&self, field: Field<'_>) -> Vec<Kid>;
    /// Text of this value as an attribute or as direct text, if present
    fn text(&self) -> Option<String> {
        unreachable!("not a scalar")
    }
}

pub fn kid(e: Elem) -> Vec<Kid> {
    vec![Kid { node: Node::E(e), slot: 0, card: Card::One, about: About::NONE, label: "" }]
}

/// A scalar as a child element or (without a field name) as text
pub fn scalar(text: String, field: Field<'_>) -> Vec<Kid> {
    match field {
        Some((ns, name)) => {
            let mut e = Elem::new(ns, name, Kind::Scalar);
            if !text.is_empty() {
                e.kids.push(Kid::text(text));
            }
            kid(e)
        }
        None => vec![Kid { node: Node::T(text), slot: 0, card: Card::One, about: About::NONE, label: "" }],
    }
}

impl Elem {
    pub fn add_attr<T: Model>(&mut self, ns: &str, name: &str, value: &T) {
        if let Some(value) = value.text() {
            self.attrs.push(Attr { ns: ns.into(), name: name.into(), value, card: T::CARD, about: T::ABOUT, label: "" });
        }
    }
    /// What was added since the last call belongs to this field
    pub fn label(&mut self, label: &'static str) {
        self.attrs.iter_mut().filter(|a| a.label.is_empty()).for_each(|a| a.label = label);
        self.kids.iter_mut().filter(|k| k.label.is_empty()).for_each(|k| k.label = label);
    }
    pub fn add_field(&mut self, slot: u64, kids: Vec<Kid>) {
        self.kids.extend(reslot(slot, kids));
    }
    pub fn add_direct<T: Model>(&mut self, slot: u64, value: &T) {
        if let Some(t) = value.text().filter(|t| !t.is_empty()) {
            self.kids.push(Kid { node: Node::T(t), slot, card: T::CARD, about: T::ABOUT, label: "" });
        }
    }
}

/// Nodes of an enum whose variant is chosen by the element
pub fn forward(mut kids: Vec<Kid>) -> Vec<Kid> {
    kids.iter_mut().for_each(|k| k.about.forward = true);
    kids
}

/// Nodes that belong to a field of an inlined struct
pub fn labelled(label: &'static str, mut kids: Vec<Kid>) -> Vec<Kid> {
    kids.iter_mut().filter(|k| k.label.is_empty()).for_each(|k| k.label = label);
    kids
}

/// Nodes of a field inlined into the parent element
pub fn transparent(mut kids: Vec<Kid>) -> Vec<Kid> {
    kids.iter_mut().for_each(|k| k.about.transparent = true);
    kids
}

/// Nodes of a scalar enum
pub fn one_of(mut kids: Vec<Kid>, texts: &'static [&'static str]) -> Vec<Kid> {
    kids.iter_mut().for_each(|k| {
        k.about.texts = Some(texts);
        k.about.empty_ok = texts.contains(&"");
    });
    kids
}

/// Fields of an inlined struct keep slots of their own
pub fn reslot(slot: u64, kids: Vec<Kid>) -> impl Iterator<Item = Kid> {
    kids.into_iter().map(move |mut k| {
        k.slot = match k.slot {
            0 => slot,
            inner => slot.wrapping_mul(1_000_003).wrapping_add(inner),
        };
        k
    })
}

impl<T: Model> Model for Option<T> {
    const CARD: Card = Card::Opt;
    const ABOUT: About = T::ABOUT;
    fn arb(g: &mut Gen<'_>, depth: i32) -> Self {
        let p = if depth <= 0 || g.budget <= 0 { 0 } else { 60 };
        g.rng.chance(p).then(|| T::arb(g, depth))
    }
    fn nodes(&self, field: Field<'_>) -> Vec<Kid> {
        let mut kids = self.as_ref().map(|v| v.nodes(field)).unwrap_or_default();
        let single = kids.len() == 1 && kids[0].slot == 0;
        for k in &mut kids {
            k.card = match k.card {
                Card::One if single => Card::Opt,
                Card::One => Card::Group,
                c => c,
            };
        }
        kids
    }
    fn text(&self) -> Option<String> {
        self.as_ref().and_then(|v| v.text())
    }
}

impl<T: Model> Model for Vec<T> {
    const CARD: Card = Card::Many;
    const ABOUT: About = T::ABOUT;
    fn arb(g: &mut Gen<'_>, depth: i32) -> Self {
        if depth <= 0 || g.budget <= 0 {
            return Vec::new();
        }
        let n = match g.rng.below(20) {
            0 if g.rng.chance(3) => dict::length(g.rng, 200),
            0..=5 => 0,
            6..=11 => 1,
            12..=15 => 2,
            16..=18 => 3,
            _ => g.rng.range(4, 9),
        };
        (0..n).map(|_| T::arb(g, depth)).collect()
    }
    fn nodes(&self, field: Field<'_>) -> Vec<Kid> {
        let mut kids: Vec<_> = self.iter().flat_map(|v| v.nodes(field)).collect();
        kids.iter_mut().for_each(|k| k.card = Card::Many);
        kids
    }
}

impl<T: Model> Model for Box<T> {
    const CARD: Card = T::CARD;
    const ABOUT: About = T::ABOUT;
    fn arb(g: &mut Gen<'_>, depth: i32) -> Self {
        Box::new(T::arb(g, depth))
    }
    fn nodes(&self, field: Field<'_>) -> Vec<Kid> {
        (**self).nodes(field)
    }
    fn text(&self) -> Option<String> {
        (**self).text()
    }
}

impl<T: Model + Clone> Model for Cow<'_, [T]> {
    const CARD: Card = Card::Many;
    fn arb(g: &mut Gen<'_>, depth: i32) -> Self {
        Cow::Owned(Vec::arb(g, depth))
    }
    fn nodes(&self, field: Field<'_>) -> Vec<Kid> {
        self.to_vec().nodes(field)
    }
}

const fn about(ty: &str) -> About {
    match ty.as_bytes() {
        b"String" | b"Cow<'_, str>" => About::STRING,
        _ => About::NONE,
    }
}

macro_rules! scalar_model {
    ($($t:ty: |$g:ident| $arb:expr, |$v:ident| $text:expr;)*) => {$(
        impl Model for $t {
            const ABOUT: About = about(stringify!($t));
            fn arb($g: &mut Gen<'_>, _: i32) -> Self { $arb }
            fn nodes(&self, field: Field<'_>) -> Vec<Kid> {
                let mut kids = scalar(self.text().unwrap(), field);
                kids.iter_mut().for_each(|k| k.about = Self::ABOUT);
                kids
            }
            fn text(&self) -> Option<String> { let $v = self; Some($text) }
        }
    )*};
}

macro_rules! int_model {
    ($($t:ty),*) => {scalar_model! {$(
        $t: |g| match g.rng.below(6) {
            0 => <$t>::MIN,
            1 => <$t>::MAX,
            2 => 0,
            3 => g.rng.below(100) as $t,
            _ => g.rng.next() as $t,
        }, |v| v.to_string();
    )*}};
}

int_model!(i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);

scalar_model! {
    bool: |g| g.rng.chance(50), |v| if *v { "true".into() } else { "false".into() };
    char: |g| arb_char(g.rng), |v| v.to_string();
    f32: |g| match g.rng.below(8) {
        0 => f32::INFINITY, 1 => f32::NEG_INFINITY, 2 => -0.0, 3 => f32::MIN_POSITIVE, 4 => f32::MAX,
        5 => g.rng.below(1000) as f32 / 8.0,
        _ => finite32(g.rng),
    }, |v| v.to_string();
    f64: |g| match g.rng.below(8) {
        0 => f64::INFINITY, 1 => f64::NEG_INFINITY, 2 => -0.0, 3 => f64::MIN_POSITIVE, 4 => f64::MAX,
        5 => g.rng.below(1000) as f64 / 8.0,
        _ => finite64(g.rng),
    }, |v| v.to_string();
    String: |g| arb_string(g.rng), |v| v.clone();
    Cow<'_, str>: |g| Cow::Owned(arb_string(g.rng)), |v| v.to_string();
    IpAddr: |g| arb_ip(g.rng), |v| v.to_string();
    NaiveDate: |g| arb_date(g.rng), |v| {
        let (y, m, d) = (v.year(), v.month(), v.day());
        format!("{y:04}-{m:02}-{d:02}")
    };
    NaiveDateTime: |g| arb_datetime(g.rng), |v| datetime_text(v);
    DateTime<Utc>: |g| arb_datetime(g.rng).and_utc(), |v| format!("{}+00:00", datetime_text(&v.naive_utc()));
}

fn datetime_text(v: &NaiveDateTime) -> String {
    let (date, t) = (v.date().text().unwrap(), v.time());
    // A leap second is the 59th with more than its nanoseconds
    let (second, nanos) = (t.second() + t.nanosecond() / 1_000_000_000, t.nanosecond() % 1_000_000_000);
    let frac = match nanos {
        0 => String::new(),
        n if n % 1_000_000 == 0 => format!(".{:03}", n / 1_000_000),
        n if n % 1_000 == 0 => format!(".{:06}", n / 1_000),
        n => format!(".{n:09}"),
    };
    format!("{date}T{:02}:{:02}:{:02}{frac}", t.hour(), t.minute(), second)
}

fn finite32(r: &mut Rng) -> f32 {
    loop {
        let f = f32::from_bits(r.next() as u32);
        if f.is_finite() {
            return f;
        }
    }
}

fn finite64(r: &mut Rng) -> f64 {
    loop {
        let f = f64::from_bits(r.next());
        if f.is_finite() {
            return f;
        }
    }
}

fn arb_ip(r: &mut Rng) -> IpAddr {
    match r.below(4) {
        0 => IpAddr::V4(Ipv4Addr::from(r.next() as u32)),
        1 => IpAddr::V6(Ipv6Addr::from(((r.next() as u128) << 64) | r.next() as u128)),
        2 => IpAddr::V6(Ipv6Addr::from(r.next() as u16 as u128)),
        _ => IpAddr::V6(Ipv4Addr::from(r.next() as u32).to_ipv6_mapped()),
    }
}

fn arb_date(r: &mut Rng) -> NaiveDate {
    match r.below(6) {
        0 => NaiveDate::from_ymd_opt(0, 1, 1).unwrap(),
        1 => NaiveDate::from_ymd_opt(9999, 12, 31).unwrap(),
        2 => NaiveDate::from_ymd_opt(2024, 2, 29).unwrap(),
        _ => NaiveDate::from_ymd_opt(0, 1, 1).unwrap() + Duration::days(r.below(3_600_000) as i64),
    }
}

fn arb_datetime(r: &mut Rng) -> NaiveDateTime {
    let leap = r.chance(3);
    let second = if leap { 59 } else { r.below(60) as u32 };
    let nanos = match r.below(4) {
        0 => 0,
        1 => r.below(1000) as u32 * 1_000_000,
        2 => r.below(1_000_000) as u32 * 1_000,
        _ => r.below(1_000_000_000) as u32,
    };
    arb_date(r)
        .and_hms_nano_opt(r.below(24) as u32, r.below(60) as u32, second, nanos + u32::from(leap) * 1_000_000_000)
        .unwrap()
}

pub const SPECIAL: &[char] = &[
    '&', '<', '>', '"', '\'', ';', '#', ']', '[', '!', '-', '=', '/', '?', ' ', '\t', '\n', '\r', 'x', 'a', '1',
    'é', '\u{7f}', '\u{80}', '\u{85}', '\u{2028}', '漢', '\u{e000}', '\u{fffd}', '\u{d7ff}', '\u{10000}', '\u{10ffff}',
    '😀', '\u{301}', '\u{feff}',
];

/// Any character that XML allows
pub fn arb_char(r: &mut Rng) -> char {
    loop {
        let c = match r.below(4) {
            0 => *r.pick(SPECIAL),
            1 => char::from(r.range(0x20, 0x7e) as u8),
            2 => char::from_u32(r.below(0x3000) as u32).unwrap_or('a'),
            _ => char::from_u32(r.below(0x110000) as u32).unwrap_or('b'),
        };
        if crate::refxml::is_char(c) {
            return c;
        }
    }
}

const TRICKY: &[&str] = &[
    "]]>", "<![CDATA[x]]>", "<!-- c -->", "&amp;", "&#65;", "&lt;/a&gt;", "<?pi?>", "--", "-->", "</a>", "a=\"b\"",
    "xmlns:p=\"u\"", " ", "  \n ", "\t", "&", "<", ">", "\"", "'", "&&", "<<", "\"'\"", "&#x26;", "&quot;", "]]", "é&é", "漢<字",
    "\u{10ffff}&", "\r\n", "true", "0", "xsi:nil",
];

pub fn arb_string(r: &mut Rng) -> String {
    match r.below(12) {
        10 => {
            let mut s = String::new();
            for _ in 0..r.range(1, 3) {
                s.push_str(dict::word(r));
                if r.chance(30) {
                    s.push_str(r.pick::<&str>(TRICKY));
                }
                if r.chance(30) {
                    s.push(arb_char(r));
                }
            }
            s
        }
        11 if r.chance(15) => {
            // Around some length, plain but for one character
            let n = dict::length(r, 5000);
            let mut s = (*r.pick(&["a", "é", " ", "ab ", "漢"])).repeat(n);
            let at: Vec<usize> = [0, s.len()].into_iter().chain((0..8).map(|i| s.len() * i / 8)).filter(|i| s.is_char_boundary(*i)).collect();
            s.insert(*r.pick(&at), arb_char(r));
            s
        }
        0 => String::new(),
        1 | 2 => {
            let n = r.range(1, 8);
            (0..n).map(|_| char::from(b'a' + r.below(26) as u8)).collect()
        }
        3 => (*r.pick(TRICKY)).to_owned(),
        4 => {
            let n = r.range(1, 4);
            (0..n).map(|_| *r.pick(&[' ', '\t', '\n', '\r'])).collect()
        }
        5 => {
            let n = r.range(2, 5);
            (0..n).map(|_| *r.pick(TRICKY)).collect()
        }
        6 => {
            // padded
            format!(" {}\n", arb_char(r))
        }
        7 => {
            let n = r.range(30, 300);
            (0..n).map(|_| arb_char(r)).collect()
        }
        _ => {
            let n = r.range(1, 12);
            (0..n).map(|_| arb_char(r)).collect()
        }
    }
}

/// An object-safe handle on a value of a type that can be the root element
pub trait Case {
    fn ser(&self) -> Result<String, Error>;
    fn ser_to(&self, out: &mut dyn fmt::Write) -> Result<(), Error>;
    fn model(&self) -> Elem;
    fn dbg(&self) -> String;
}

pub struct Value<T>(pub T);

impl<T: instant_xml::ToXml + Model + Debug> Case for Value<T> {
    fn ser(&self) -> Result<String, Error> {
        instant_xml::to_string(&self.0)
    }
    fn ser_to(&self, out: &mut dyn fmt::Write) -> Result<(), Error> {
        instant_xml::to_writer(&self.0, out)
    }
    fn model(&self) -> Elem {
        root_elem(self.0.nodes(None))
    }
    fn dbg(&self) -> String {
        format!("{:?}", self.0)
    }
}

pub fn root_elem(kids: Vec<Kid>) -> Elem {
    match <[Kid; 1]>::try_from(kids) {
        Ok([Kid { node: Node::E(e), .. }]) => e,
        other => panic!("not a root element: {other:?}"),
    }
}

pub struct Root {
    pub name: &'static str,
    pub gen: fn(&mut Gen<'_>, i32) -> Box<dyn Case>,
    /// Model and debug form of what is deserialized from a document
    pub de: fn(&str) -> Result<(Elem, String), Error>,
    /// The same through a `Deserializer` with limits raised out of the way
    pub de_unlimited: fn(&str) -> Result<(Elem, String), Error>,
    /// The same from an input that is freed, unless the value borrows from it, before the value
    /// is looked at
    pub de_freed: fn(Box<str>) -> Result<(Elem, String), Error>,
}

impl Root {
    pub fn arb(&self, rng: &mut Rng) -> Box<dyn Case> {
        let budget = *rng.pick(&[3, 12, 40, 120]);
        let depth = rng.range(1, 7) as i32;
        (self.gen)(&mut Gen { rng, budget }, depth)
    }
}

pub fn unlimited() -> instant_xml::de::Limits {
    let mut limits = instant_xml::de::Limits::default();
    limits.max_attributes = usize::MAX;
    limits.max_levels = usize::MAX;
    limits.max_ns_declarations = usize::MAX;
    limits
}

/// `root!(Type)` or `root!(Type<'static>, Type<'_>)`
#[macro_export]
macro_rules! root {
    ($t:ty) => {
        $crate::root!($t, $t, |s: Box<str>| {
            let result = instant_xml::from_str::<$t>(&s);
            drop(std::hint::black_box(s));
            let v = result?;
            Ok(($crate::model::root_elem($crate::model::Model::nodes(&v, None)), format!("{v:?}")))
        })
    };
    ($s:ty, $t:ty) => {
        $crate::root!($s, $t, |s: Box<str>| {
            let v: $t = instant_xml::from_str(&s)?;
            Ok(($crate::model::root_elem($crate::model::Model::nodes(&v, None)), format!("{v:?}")))
        })
    };
    ($s:ty, $t:ty, $freed:expr) => {
        $crate::model::Root {
            name: stringify!($s),
            gen: |g, d| Box::new($crate::model::Value(<$s as $crate::model::Model>::arb(g, d))),
            de: |s| {
                let v: $t = instant_xml::from_str(s)?;
                Ok(($crate::model::root_elem($crate::model::Model::nodes(&v, None)), format!("{v:?}")))
            },
            de_unlimited: |s| {
                let mut de = instant_xml::Deserializer::new(s)?.with_limits($crate::model::unlimited());
                let v: $t = de.deserialize()?;
                Ok(($crate::model::root_elem($crate::model::Model::nodes(&v, None)), format!("{v:?}")))
            },
            de_freed: $freed,
        }
    };
}
