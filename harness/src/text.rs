//! Text on the way out (C05) and in (C06), scalar syntax (C15), borrowing (C16).

use std::borrow::Cow;
use std::fmt::{self, Write as _};
use std::net::IpAddr;

use chrono::{DateTime, NaiveDate, NaiveDateTime, Utc};
use instant_xml::{
    from_str, to_string, AnyElement, Error, FromXml, Id, Kind as XmlKind, Serializer, ToXml,
};

use crate::dict;
use crate::infoset::Elem;
use crate::model::{arb_char, arb_string};
use crate::refxml::{self, is_char};
use crate::rng::Rng;
use crate::runner::{Campaign, Cx};

// Positions a string can be written to and read from

#[derive(Debug, ToXml, FromXml)]
struct El {
    v: String,
}
#[derive(Debug, ToXml, FromXml)]
#[xml(ns("urn:t"))]
struct ElNs {
    #[xml(ns("urn:other"))]
    v: String,
}
#[derive(Debug, ToXml, FromXml)]
struct At {
    #[xml(attribute)]
    v: String,
}
const PNS: &str = "urn:p";
#[derive(Debug, ToXml, FromXml)]
#[xml(ns("urn:t", p = PNS))]
struct AtNs {
    #[xml(attribute, ns(PNS))]
    v: Option<String>,
}
#[derive(Debug, ToXml, FromXml)]
struct Di {
    #[xml(direct)]
    v: String,
}
#[derive(Debug, ToXml, FromXml)]
struct Nt(String);
#[derive(Debug, ToXml, FromXml)]
struct CoEl<'a> {
    #[xml(borrow)]
    v: Cow<'a, str>,
}
#[derive(Debug, ToXml, FromXml)]
struct CoAt<'a> {
    #[xml(attribute, borrow)]
    v: Cow<'a, str>,
}
#[derive(Debug, ToXml, FromXml)]
struct CoDi {
    #[xml(direct)]
    v: Cow<'static, str>,
}
#[derive(Debug, ToXml, FromXml)]
struct OpEl {
    v: Option<Box<String>>,
}
#[derive(Debug, ToXml, FromXml)]
struct VeEl {
    v: Vec<String>,
}
#[derive(Debug, ToXml)]
struct RefEl<'a> {
    v: &'a str,
}
#[derive(Debug, ToXml)]
struct RefAt<'a> {
    #[xml(attribute)]
    v: &'a str,
}
#[derive(Debug, ToXml, FromXml)]
struct ChEl {
    v: char,
}
#[derive(Debug, ToXml, FromXml)]
struct ChAt {
    #[xml(attribute)]
    v: char,
}
#[derive(Debug, ToXml, FromXml)]
struct ChDi {
    #[xml(direct)]
    v: char,
}

/// A type with a `Display` implementation, written with `display_to_xml()`
#[derive(Debug)]
struct Shown(String);
impl fmt::Display for Shown {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        // In pieces, as `write!()` would
        for c in self.0.chars() {
            f.write_char(c)?;
        }
        Ok(())
    }
}
impl ToXml for Shown {
    fn serialize<W: fmt::Write + ?Sized>(
        &self,
        field: Option<Id<'_>>,
        serializer: &mut Serializer<'_, W>,
    ) -> Result<(), Error> {
        instant_xml::display_to_xml(self, field, serializer)
    }
}
#[derive(ToXml)]
struct ShEl {
    v: Shown,
}
#[derive(ToXml)]
struct ShAt {
    #[xml(attribute)]
    v: Shown,
}

/// A type with a `FromStr` implementation, read with `from_xml_str()`
#[derive(Debug)]
struct Parsed(String);
impl std::str::FromStr for Parsed {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        Ok(Parsed(s.to_owned()))
    }
}
impl<'xml> FromXml<'xml> for Parsed {
    fn matches(id: Id<'_>, field: Option<Id<'_>>) -> bool {
        field.is_some_and(|f| f == id)
    }
    fn deserialize<'cx>(
        into: &mut Self::Accumulator,
        field: &'static str,
        de: &mut instant_xml::Deserializer<'cx, 'xml>,
    ) -> Result<(), Error> {
        instant_xml::from_xml_str(into, field, de)
    }
    type Accumulator = Option<Self>;
    const KIND: XmlKind = XmlKind::Scalar;
}
#[derive(FromXml)]
struct PaAt {
    #[xml(attribute)]
    v: Parsed,
}
#[derive(FromXml)]
struct PaEl {
    v: Parsed,
}

type Back = fn(&Elem) -> Option<String>;

fn in_elem(e: &Elem) -> Option<String> {
    let [kid] = e.kids.as_slice() else { return None };
    kid.elem().filter(|c| c.name == "v" && c.kids.iter().all(|k| k.elem().is_none())).map(Elem::own_text)
}
fn in_attr(e: &Elem) -> Option<String> {
    match (e.attrs.as_slice(), e.kids.len()) {
        ([a], 0) if a.name == "v" => Some(a.value.clone()),
        _ => None,
    }
}
fn in_text(e: &Elem) -> Option<String> {
    e.kids.iter().all(|k| k.elem().is_none()).then(|| e.own_text())
}
fn in_list(e: &Elem) -> Option<String> {
    let all: Vec<_> = e.kids.iter().filter_map(|k| k.elem()).map(Elem::own_text).collect();
    (all.len() == 2 && all[0] == all[1]).then(|| all[0].clone())
}

type Writer = fn(&str) -> Result<String, Error>;
/// Reads the written document with the library
type Reader = fn(&str) -> Result<String, Error>;

#[rustfmt::skip]
const POSITIONS: &[(&str, Writer, Back, Reader)] = &[
    ("element", |s| to_string(&El { v: s.into() }), in_elem, |x| from_str::<El>(x).map(|v| v.v)),
    ("element in another namespace", |s| to_string(&ElNs { v: s.into() }), in_elem, |x| from_str::<ElNs>(x).map(|v| v.v)),
    ("attribute", |s| to_string(&At { v: s.into() }), in_attr, |x| from_str::<At>(x).map(|v| v.v)),
    ("prefixed optional attribute", |s| to_string(&AtNs { v: Some(s.into()) }), in_attr, |x| from_str::<AtNs>(x).map(|v| v.v.unwrap())),
    ("direct", |s| to_string(&Di { v: s.into() }), in_text, |x| from_str::<Di>(x).map(|v| v.v)),
    ("newtype", |s| to_string(&Nt(s.into())), in_text, |x| from_str::<Nt>(x).map(|v| v.0)),
    ("Cow element", |s| to_string(&CoEl { v: s.into() }), in_elem, |x| from_str::<CoEl>(x).map(|v| v.v.into_owned())),
    ("Cow attribute", |s| to_string(&CoAt { v: s.into() }), in_attr, |x| from_str::<CoAt>(x).map(|v| v.v.into_owned())),
    ("Cow direct", |s| to_string(&CoDi { v: s.to_owned().into() }), in_text, |x| from_str::<CoDi>(x).map(|v| v.v.into_owned())),
    ("optional boxed element", |s| to_string(&OpEl { v: Some(Box::new(s.into())) }), in_elem, |x| from_str::<OpEl>(x).map(|v| *v.v.unwrap())),
    ("list", |s| to_string(&VeEl { v: vec![s.into(), s.into()] }), in_list, |x| from_str::<VeEl>(x).map(|v| v.v[1].clone())),
    ("&str element", |s| to_string(&RefEl { v: s }), in_elem, |x| from_str::<El>(&x.replace("RefEl", "El")).map(|v| v.v)),
    ("&str attribute", |s| to_string(&RefAt { v: s }), in_attr, |x| from_str::<At>(&x.replace("RefAt", "At")).map(|v| v.v)),
    ("display_to_xml() element", |s| to_string(&ShEl { v: Shown(s.into()) }), in_elem, |x| from_str::<PaEl>(&x.replace("ShEl", "PaEl")).map(|v| v.v.0)),
    ("display_to_xml() attribute", |s| to_string(&ShAt { v: Shown(s.into()) }), in_attr, |x| from_str::<PaAt>(&x.replace("ShAt", "PaAt")).map(|v| v.v.0)),
];

#[rustfmt::skip]
const CHAR_POSITIONS: &[(&str, fn(char) -> Result<String, Error>, Back, fn(&str) -> Result<char, Error>)] = &[
    ("char element", |c| to_string(&ChEl { v: c }), in_elem, |x| from_str::<ChEl>(x).map(|v| v.v)),
    ("char attribute", |c| to_string(&ChAt { v: c }), in_attr, |x| from_str::<ChAt>(x).map(|v| v.v)),
    ("char direct", |c| to_string(&ChDi { v: c }), in_text, |x| from_str::<ChDi>(x).map(|v| v.v)),
];

fn check_written(
    cx: &mut Cx,
    what: &str,
    s: &str,
    out: Result<String, Error>,
    back: Back,
    read: impl Fn(&str) -> Option<Result<String, Error>>,
) -> Result<(), String> {
    cx.input = s.to_owned();
    let legal = s.chars().all(is_char);
    let xml = match (out, legal) {
        (Ok(xml), true) => xml,
        (Err(_), false) => {
            cx.saw("strings with illegal characters refused");
            return Ok(());
        }
        (Err(e), true) => return Err(format!("{what}: {s:?} refused: {e}")),
        (Ok(xml), false) => return Err(format!("{what}: {s:?} has characters XML does not allow, written as {xml:?}")),
    };
    let doc = refxml::parse(&xml).map_err(|e| format!("{what}: {s:?}: not well-formed: {e:?}\nxml: {xml:?}"))?;
    match back(&doc.root) {
        Some(got) if got == s => {}
        got => return Err(format!("{what}: wrote {s:?}, the reference parser reads {got:?}\nxml: {xml:?}")),
    }
    match read(&xml) {
        None => {}
        Some(Ok(got)) if got == s => cx.saw("strings read back"),
        Some(got) => return Err(format!("{what}: wrote {s:?}, from_str reads {got:?}\nxml: {xml:?}")),
    }
    cx.saw("strings written");
    Ok(())
}

fn everywhere(cx: &mut Cx, s: &str) -> Result<(), String> {
    for &(what, write, back, read) in POSITIONS {
        // An empty element has no text for `from_xml_str()` to parse
        let skip = s.is_empty() && what == "display_to_xml() element";
        let r = |x: &str| (!skip).then(|| read(x));
        check_written(cx, what, s, write(s), back, r)?;
    }
    Ok(())
}

fn char_everywhere(cx: &mut Cx, c: char) -> Result<(), String> {
    for &(what, write, back, read) in CHAR_POSITIONS {
        check_written(cx, what, &c.to_string(), write(c), back, |x| Some(read(x).map(|c| c.to_string())))?;
    }
    Ok(())
}

/// Every Unicode scalar value, 256 at a time
fn every_char(cx: &mut Cx) -> Result<(), String> {
    let base = cx.index as u32 * 256;
    let chars: Vec<char> = (base..base + 256).filter_map(char::from_u32).collect();
    let legal: String = chars.iter().filter(|c| is_char(**c)).collect();
    if !legal.is_empty() {
        everywhere(cx, &legal)?;
        cx.distinct(legal.as_bytes());
    }
    for &c in &chars {
        char_everywhere(cx, c)?;
        if !is_char(c) {
            for s in [c.to_string(), format!("{c}&"), format!("&é{c}"), format!("a{c}b")] {
                everywhere(cx, &s)?;
            }
            cx.distinct(c.to_string().as_bytes());
        }
    }
    cx.saw_n("characters", chars.len() as u64);
    Ok(())
}

fn random_text(cx: &mut Cx) -> Result<(), String> {
    let mut s = arb_string(&mut cx.rng);
    if cx.rng.chance(15) {
        let bad = *cx.rng.pick(&['\0', '\u{1}', '\u{8}', '\u{b}', '\u{1f}', '\u{fffe}', '\u{ffff}', '\u{c}', '\u{e}']);
        let at: Vec<usize> = s.char_indices().map(|(i, _)| i).chain([s.len()]).collect();
        let at = *cx.rng.pick(&at);
        s.insert(at, bad);
    }
    cx.sample(|| format!("{s:?}"));
    if !s.is_empty() {
        cx.distinct(s.as_bytes());
    }
    everywhere(cx, &s)
}

// C06 -------------------------------------------------------------------

#[derive(FromXml)]
struct DecEl<'a> {
    #[xml(borrow)]
    v: Cow<'a, str>,
}
#[derive(FromXml)]
struct DecAt<'a> {
    #[xml(attribute, borrow)]
    v: Cow<'a, str>,
}
#[derive(FromXml)]
#[xml(rename = "DecEl")]
struct DecElS {
    v: String,
}
#[derive(FromXml)]
#[xml(rename = "DecAt")]
struct DecAtS {
    #[xml(attribute)]
    v: String,
}

/// References only this library reads (`&#X41;`) or does not read (more than eight characters)
pub fn out_of_scope(body: &str) -> bool {
    let mut rest = body;
    while let Some(i) = rest.find('&') {
        rest = &rest[i + 1..];
        let Some(end) = rest.find([';', '&']) else { break };
        if rest.as_bytes()[end] == b';' && (end > 8 || rest.starts_with("#X")) {
            return true;
        }
    }
    false
}

fn check_decode(cx: &mut Cx, body: &str) -> Result<(), String> {
    if out_of_scope(body) {
        cx.saw("references out of scope");
        return Ok(());
    }
    let el = format!("<DecEl><v>{body}</v></DecEl>");
    let at = format!("<DecAt v=\"{body}\"/>");
    let any = format!("<a v=\"{body}\">{body}</a>");
    cx.input = el.clone();
    let plain = body.chars().filter(|c| *c != '\u{a0}').count() < 200;
    let want = match (refxml::parse(&el), refxml::parse(&at)) {
        (Ok(e), Ok(a)) => {
            let (e, a) = (in_elem(&e.root), in_attr(&a.root));
            assert_eq!(e, a, "reference parser on {body:?}");
            e
        }
        (Err(_), Err(_)) => None,
        other => panic!("reference parser on {body:?}: {other:?}"),
    };
    let got = [
        ("borrowed element", from_str::<DecEl>(&el).map(|v| v.v.into_owned())),
        ("element", from_str::<DecElS>(&el).map(|v| v.v)),
        ("borrowed attribute", from_str::<DecAt>(&at).map(|v| v.v.into_owned())),
        ("attribute", from_str::<DecAtS>(&at).map(|v| v.v)),
        (
            "captured attribute",
            from_str::<AnyElement>(&any).map(|v| v.attributes[0].value.clone().into_owned()),
        ),
        ("captured text", from_str::<AnyElement>(&any).map(|v| v.text.unwrap_or_default().into_owned())),
    ];
    for (what, got) in got {
        match (&want, got) {
            (Some(w), Ok(g)) if *w == g => cx.saw("references decoded"),
            (None, Err(_)) => cx.saw("references refused"),
            (w, g) => return Err(format!("{what}: {body:?}: expected {w:?}, got {g:?}")),
        }
    }
    // Where the value is of no use to the type, malformed references are errors all the same
    for (i, (what, doc)) in IGNORED.iter().enumerate() {
        if !(plain || i == 0) {
            break;
        }
        let xml = doc.replace('@', body);
        let ok = match i % 3 {
            0 => from_str::<DecElS>(&xml).map(|v| v.v == "1"),
            1 => from_str::<DecUnit>(&xml).map(|_| true),
            _ => from_str::<DecOpt>(&xml).map(|v| v.v.is_empty()),
        };
        match (&want, ok) {
            (Some(_), Ok(true)) => cx.saw("references in ignored parts accepted"),
            (None, Err(_)) => cx.saw("references in ignored parts refused"),
            (w, g) => return Err(format!("{what}: expected {}, got {g:?}\nxml: {xml:?}", if w.is_some() { "Ok(true)" } else { "an error" })),
        }
    }
    // CDATA sections have no references, in whole or next to some
    if !body.contains("]]>") && !body.ends_with(']') {
        let xml = format!("<DecEl><v>{}<![CDATA[{body}]]>{}</v></DecEl>", "&lt;", "&#65;");
        let got = from_str::<DecElS>(&xml).map(|v| v.v);
        match &got {
            Ok(v) if *v == format!("<{body}A") => cx.saw("CDATA sections kept verbatim"),
            _ => return Err(format!("CDATA section: got {got:?}\nxml: {xml:?}")),
        }
    }
    Ok(())
}

#[derive(FromXml)]
#[xml(rename = "DecEl")]
struct DecUnit;
#[derive(FromXml)]
#[xml(rename = "DecEl")]
struct DecOpt {
    v: Vec<u8>,
}
/// `@` stands for the text; the first, fourth, ... document has an element `v`
const IGNORED: &[(&str, &str)] = &[
    ("text of an unknown element", "<DecEl><v>1</v><zz>@</zz></DecEl>"),
    ("text of a unit struct", "<DecEl>@</DecEl>"),
    ("attribute of an unknown element", "<DecEl><zz a=\"@\"/></DecEl>"),
    ("text of a nested unknown element", "<DecEl><zz><y/><x>a<w>@</w></x></zz><v>1</v></DecEl>"),
    ("attribute of a unit struct", "<DecEl a='1' b=\"@\"/>"),
    ("text among elements", "<DecEl> <zz/>@</DecEl>"),
    ("unknown attribute of a scalar's element", "<DecEl><v zz=\"@\">1</v></DecEl>"),
    ("text of a unit struct's child", "<DecEl><v>1</v><v>@</v></DecEl>"),
    ("text behind a comment in an unknown element", "<DecEl><zz><!-- c -->@<y/></zz></DecEl>"),
    ("unknown attribute of the root", "<DecEl zz=\"@\"><v>1</v></DecEl>"),
    ("attribute of a unit struct's nested child", "<DecEl><a><v xmlns=\"urn:x\" k=\"@\"/></a></DecEl>"),
    ("text behind CDATA in an unknown element", "<DecEl><zz><![CDATA[x]]>@</zz></DecEl>"),
];

/// Every number, as a decimal and a hexadecimal reference
fn every_reference(cx: &mut Cx) -> Result<(), String> {
    let base = cx.index as u32 * 512;
    for n in base..base + 512 {
        // Many at once where they are fine
        let c = char::from_u32(n).filter(|c| is_char(*c));
        if c.is_some() && n % 8 != 0 {
            continue;
        }
        for body in [format!("&#{n};"), format!("&#x{n:x};"), format!("x&#x{n:X};y&#{n};")] {
            check_decode(cx, &body)?;
        }
        cx.distinct(&n.to_le_bytes());
    }
    let all: Vec<u32> = (base..base + 512).filter(|n| char::from_u32(*n).is_some_and(is_char)).collect();
    if !all.is_empty() {
        let dec: String = all.iter().map(|n| format!("&#{n};")).collect();
        let hex: String = all.iter().map(|n| format!("&#x{n:X};")).collect();
        check_decode(cx, &dec)?;
        check_decode(cx, &hex)?;
        cx.saw_n("characters referenced", all.len() as u64);
    }
    Ok(())
}

const PIECES: &[&str] = &[
    "&", "&", "#", "#x", "#X", ";", ";", "x", "amp", "lt", "gt", "quot", "apos", "AMP", "Amp", "am", "nbsp", "a", "é", "漢", "😀", " ",
    "0", "00", "9", "65", "041", "x41", "26", "3c", "1114111", "1114112", "10FFFF", "110000", "xD800", "55296", "FFFE",
    "65534", "+", "-", "_", ".", "&amp;", "&lt;", "&gt;", "&apos;", "&quot;", "&#65;", "&#x41;", "&#0;", "&#9;", "&amp",
    "&#;", "&#x;", "&;", "& ", "&&", "&amp;amp;", "text", ">", "\u{301}", "&#12345678;", "&#x0000041;", "&#0000065;", "&é;", "&#é;",
    "&#x٣;", "&#٣;", "&#x1F600;", "&#128512;", "&ampx;", "&lt;b&gt;",
    "&#xD83D;&#xDE00;", "&#xd83d;&#xde00;", "&#55357;&#56832;", "&#xDE00;&#xD83D;", "&#xC3;&#xA9;", "&#xFEFF;", "&#38;lt;", "&#x26;amp;",
    "&amp;#65;", "&#38;#60;",
];

fn random_references(cx: &mut Cx) -> Result<(), String> {
    let n = cx.rng.range(1, 9);
    let mut body = String::new();
    for _ in 0..n {
        match cx.rng.below(20) {
            0 => body.extend(dict::word(&mut cx.rng).chars().filter(|c| !"<\"]\r\n\t".contains(*c))),
            // Far into a long text
            1 if cx.rng.chance(20) => {
                let n = dict::length(&mut cx.rng, 300);
                body.push_str(&cx.rng.pick::<&str>(&["a", "é", "x "]).repeat(n));
            }
            // The code units of UTF-16 or the bytes of UTF-8
            2 if cx.rng.chance(15) => {
                let c = arb_char(&mut cx.rng);
                let units: Vec<u32> = match cx.rng.chance(60) {
                    true => c.encode_utf16(&mut [0; 2]).iter().map(|u| *u as u32).collect(),
                    false => c.encode_utf8(&mut [0; 4]).bytes().map(u32::from).collect(),
                };
                let how = cx.rng.below(3);
                body.extend(units.iter().map(|u| match how {
                    0 => format!("&#{u};"),
                    1 => format!("&#x{u:x};"),
                    _ => format!("&#x{u:X};"),
                }));
            }
            3.. => body.push_str(cx.rng.pick::<&str>(PIECES)),
            _ => {
                let c = arb_char(&mut cx.rng);
                if !"<\"]\r\n\t".contains(c) {
                    body.push(c);
                }
            }
        }
    }
    if body.contains('&') {
        cx.distinct(body.as_bytes());
    }
    cx.sample(|| body.clone());
    check_decode(cx, &body)
}

// C15 -------------------------------------------------------------------

macro_rules! scalar_reader {
    ($name:ident, $t:ty) => {
        fn $name(text: &str) -> [Result<String, Error>; 4] {
            #[derive(FromXml)]
            struct E {
                v: $t,
            }
            #[derive(FromXml)]
            struct A {
                #[xml(attribute)]
                v: $t,
            }
            #[derive(FromXml)]
            struct D {
                #[xml(direct)]
                v: $t,
            }
            #[derive(FromXml)]
            struct N($t);
            let t = refs(text);
            [
                from_str::<E>(&format!("<E><v>{t}</v></E>")).map(|v| format!("{:?}", v.v)),
                from_str::<A>(&format!("<A v=\"{t}\"/>")).map(|v| format!("{:?}", v.v)),
                from_str::<D>(&format!("<D>{t}</D>")).map(|v| format!("{:?}", v.v)),
                from_str::<N>(&format!("<N>{t}</N>")).map(|v| format!("{:?}", v.0)),
            ]
        }
    };
}

fn refs(s: &str) -> String {
    s.chars()
        .map(|c| match c {
            '<' => "&lt;".into(),
            '&' => "&amp;".into(),
            '"' => "&quot;".into(),
            '>' => "&gt;".into(),
            c => c.to_string(),
        })
        .collect()
}

scalar_reader!(read_i8, i8);
scalar_reader!(read_i16, i16);
scalar_reader!(read_i32, i32);
scalar_reader!(read_i64, i64);
scalar_reader!(read_isize, isize);
scalar_reader!(read_u8, u8);
scalar_reader!(read_u16, u16);
scalar_reader!(read_u32, u32);
scalar_reader!(read_u64, u64);
scalar_reader!(read_usize, usize);
scalar_reader!(read_f32, f32);
scalar_reader!(read_f64, f64);
scalar_reader!(read_bool, bool);
scalar_reader!(read_char, char);
scalar_reader!(read_ip, IpAddr);
scalar_reader!(read_date, NaiveDate);
scalar_reader!(read_naive, NaiveDateTime);
scalar_reader!(read_utc, DateTime<Utc>);

/// Sign, digits and range, without the standard library's parsers
fn ref_int(s: &str, min: i128, max: i128) -> Option<i128> {
    let (neg, digits) = match s.as_bytes().first()? {
        b'-' if min < 0 => (true, &s[1..]),
        b'+' => (false, &s[1..]),
        _ => (false, s),
    };
    if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let mut n: i128 = 0;
    for b in digits.bytes() {
        n = n * 10 + (b - b'0') as i128;
        if n > 1 << 70 {
            return None;
        }
    }
    let n = if neg { -n } else { n };
    (min..=max).contains(&n).then_some(n)
}

/// What a document must yield
enum Want {
    Value(String),
    Refused,
    /// Either is fine: nothing is promised
    Open(Option<String>),
}

type Read = fn(&str) -> [Result<String, Error>; 4];

fn want_int(s: &str, min: i128, max: i128) -> Want {
    // Surrounding white space is ignored
    match ref_int(s.trim(), min, max) {
        Some(n) => Want::Value(n.to_string()),
        None => Want::Refused,
    }
}

fn int_case(r: &mut Rng, min: i128, max: i128) -> String {
    let n: i128 = match r.below(10) {
        9 => dict::number(r).unwrap_or(7),
        0 => min,
        1 => max,
        2 => min - 1,
        3 => max + 1,
        4 => r.below(300) as i128 - 150,
        5 => min + r.below(10) as i128,
        6 => max - r.below(10) as i128,
        7 => (r.next() as i128) * if r.chance(50) { -1 } else { 1 },
        _ => (r.next() as i128).rem_euclid(max - min + 1) + min,
    };
    let mut s = n.to_string();
    if r.chance(10) {
        s = format!("+{s}");
    }
    if r.chance(10) {
        let zeros = "0".repeat(r.range(1, 30));
        s = match s.strip_prefix('-') {
            Some(d) => format!("-{zeros}{d}"),
            None => format!("{zeros}{s}"),
        };
    }
    tweak(r, s)
}

/// Padding and noise
fn tweak(r: &mut Rng, mut s: String) -> String {
    match r.below(10) {
        0 => s = format!("{}{s}{}", r.pick(&[" ", "\n", "\t ", ""]), r.pick(&[" ", "\n\n", "\t"])),
        1 | 2 => {
            let junk = if r.chance(25) { dict::word(r) } else { "" };
            let junk = if !junk.is_empty() { junk } else { *r.pick(&["x", " ", "-", "+", ".", "e", "_", ",", "é", "٣", "0x", "&", "1", "T", "Z", ":", "\u{2003}", "\u{feff}"]) };
            let at: Vec<usize> = s.char_indices().map(|(i, _)| i).chain([s.len()]).collect();
            let at = *r.pick(&at);
            s.insert_str(at, junk);
        }
        3 if !s.is_empty() => {
            let at: Vec<usize> = s.char_indices().map(|(i, _)| i).collect();
            let at = *r.pick(&at);
            s.remove(at);
        }
        _ => {}
    }
    s
}

fn expect_scalar(cx: &mut Cx, ty: &str, text: &str, read: Read, want: Want) -> Result<(), String> {
    cx.input = format!("{ty}: {text:?}");
    for (i, got) in read(text).into_iter().enumerate() {
        let what = ["element", "attribute", "direct text", "newtype"][i];
        match (&want, &got) {
            (Want::Value(w), Ok(g)) if w == g => cx.saw("scalars accepted"),
            (Want::Refused, Err(_)) => cx.saw("scalars refused"),
            (Want::Open(_), Err(_)) => cx.saw("scalars open"),
            (Want::Open(Some(w)), Ok(g)) if w == g => cx.saw("scalars open"),
            (Want::Open(None), Ok(_)) => cx.saw("scalars open"),
            (Want::Value(w), g) => return Err(format!("{ty} {what} {text:?}: expected {w}, got {g:?}")),
            (_, g) => return Err(format!("{ty} {what} {text:?}: expected an error, got {g:?}")),
        }
    }
    Ok(())
}

macro_rules! int_types {
    ($($t:ty => $read:ident),*) => {
        const INTS: &[(&str, i128, i128, Read)] =
            &[$((stringify!($t), <$t>::MIN as i128, <$t>::MAX as i128, $read)),*];
    };
}
int_types!(i8 => read_i8, i16 => read_i16, i32 => read_i32, i64 => read_i64, isize => read_isize,
    u8 => read_u8, u16 => read_u16, u32 => read_u32, u64 => read_u64, usize => read_usize);

fn ints(cx: &mut Cx) -> Result<(), String> {
    let (ty, min, max, read) = INTS[cx.index as usize % INTS.len()];
    let s = int_case(&mut cx.rng, min, max);
    cx.distinct(format!("{ty}{s}").as_bytes());
    cx.sample(|| format!("{ty} {s:?}"));
    let want = want_int(&s, min, max);
    expect_scalar(cx, ty, &s, read, want)
}

/// All of the small types, one beyond the range on both sides
fn all_small_ints(cx: &mut Cx) -> Result<(), String> {
    let (ty, min, max, read) = INTS[[0, 5, 1, 6][cx.index as usize % 4]];
    let base = min - 2 + (cx.index as i128 / 4) * 128;
    for n in base..base + 128 {
        if n > max + 2 {
            break;
        }
        let s = n.to_string();
        let want = want_int(&s, min, max);
        expect_scalar(cx, ty, &s, read, want)?;
        cx.distinct(format!("{ty}{s}").as_bytes());
    }
    Ok(())
}

/// A number halfway between two `f32`, or off it by too little for an `f64` to tell
fn near_halfway(r: &mut Rng) -> String {
    let bits = match r.below(3) {
        0 => r.below(0x7f7f_ffff) as u32,
        1 => 0x3f80_0000 + r.below(0x0c00_0000) as u32, // 1 to 2^24
        _ => r.below(200) as u32,
    };
    let half = (f64::from(f32::from_bits(bits)) + f64::from(f32::from_bits(bits + 1))) / 2.0;
    let exact = format!("{half:.150}"); // all its digits
    let mut s = exact.trim_end_matches('0').to_owned();
    match r.below(3) {
        0 => s.push_str("0001"),
        1 => match s.pop() {
            Some(c @ '1'..='9') => {
                s.push((c as u8 - 1) as char);
                s.push_str("9999");
            }
            other => s.extend(other),
        },
        _ => {}
    }
    if r.below(4) == 0 {
        s.insert(0, '-');
    }
    s
}

fn floats(cx: &mut Cx) -> Result<(), String> {
    let r = &mut cx.rng;
    let mut s = match r.below(9) {
        8 => near_halfway(r),
        0 => (*r.pick(&["inf", "-inf", "NaN", "infinity", "INF", "-INF", "1e400", "-1e400", "1e-400", "0x1p3", ".5", "5.", ".", "e5", "1e", "-0", "+1.5", "1E5", "1e+5", "1_0", "1,5", "nan", "+inf"])).to_owned(),
        1 => format!("{}.{}", r.next(), r.next()),
        2 => format!("{}e{}", r.below(100), r.below(700) as i32 - 350),
        3 => f32::from_bits(r.next() as u32).to_string(),
        4 => format!("{:e}", f64::from_bits(r.next())),
        5 => int_case(r, -1000, 1000),
        _ => f64::from_bits(r.next()).to_string(),
    };
    s = tweak(r, s);
    cx.distinct(s.as_bytes());
    cx.sample(|| s.clone());
    // Rust's own syntax, surrounding white space is ignored
    let t = s.trim();
    let want = |v: Option<String>| v.map_or(Want::Refused, Want::Value);
    let w32 = want(t.parse::<f32>().ok().map(|v| format!("{v:?}")));
    let w64 = want(t.parse::<f64>().ok().map(|v| format!("{v:?}")));
    expect_scalar(cx, "f32", &s, read_f32, w32)?;
    expect_scalar(cx, "f64", &s, read_f64, w64)
}

fn others(cx: &mut Cx) -> Result<(), String> {
    let r = &mut cx.rng;
    let padded = |s: &str| s != s.trim();
    match cx.index % 6 {
        0 => {
            let mut s = (*r.pick(&["true", "false", "1", "0", "True", "FALSE", "yes", "no", "", "2", "00", "01", "tru", "truee", "on", "-1", "+1", "t", "f"])).to_owned();
            s = tweak(r, s);
            let value = match s.trim() {
                "true" | "1" => Some("true".to_owned()),
                "false" | "0" => Some("false".to_owned()),
                _ => None,
            };
            let want = match (padded(&s), value) {
                (true, v @ Some(_)) => Want::Open(v),
                (_, Some(v)) => Want::Value(v),
                (_, None) => Want::Refused,
            };
            cx.distinct(s.as_bytes());
            cx.sample(|| s.clone());
            expect_scalar(cx, "bool", &s, read_bool, want)
        }
        1 => {
            let n = *r.pick(&[1, 1, 1, 2, 3]);
            let s: String = (0..n).map(|_| arb_char(r)).filter(|c| !"\r".contains(*c)).collect();
            let mut it = s.chars();
            let want = match (it.next(), it.next()) {
                (Some(c), None) => Want::Value(format!("{c:?}")),
                _ => Want::Refused,
            };
            if s.is_empty() {
                return Ok(());
            }
            cx.distinct(s.as_bytes());
            expect_scalar(cx, "char", &s, read_char, want)
        }
        2 => {
            let v4 = [r.below(300), r.below(260), r.below(256), r.below(256)].map(|n| n.to_string());
            let mut s = match r.below(6) {
                0 | 1 => v4.join("."),
                2 => std::net::Ipv6Addr::from(((r.next() as u128) << 64) | r.next() as u128).to_string(),
                3 => format!("::{:x}:{:x}", r.below(70000), r.below(65536)),
                4 => format!("::ffff:{}", v4.join(".")),
                _ => (*r.pick(&["::", "::1", "1.2.3", "1.2.3.4.5", "01.2.3.4", "fe80::1%eth0", "[::1]", "1::2::3", "1.2.3.4/8", ":::"])).to_owned(),
            };
            s = tweak(r, s);
            cx.distinct(s.as_bytes());
            let want = match (padded(&s), s.trim().parse::<IpAddr>().ok().map(|v| format!("{v:?}"))) {
                (true, Some(v)) => Want::Open(Some(v)),
                (_, Some(v)) => Want::Value(v),
                (_, None) => Want::Refused,
            };
            expect_scalar(cx, "IpAddr", &s, read_ip, want)
        }
        n => {
            let (y, m, d) = (r.below(10000), r.below(14), r.below(33));
            let (h, mi, sec) = (r.below(25), r.below(61), r.below(61));
            let frac = *r.pick(&["", ".5", ".123", ".123456789", ".000000001", ".120"]);
            let zone = *r.pick(&["Z", "+00:00", "-00:00", "+01:00", "-07:30", "", "z", "+0000"]);
            let date_ok = NaiveDate::from_ymd_opt(y as i32, m as u32, d as u32);
            let time_ok = h < 24 && mi < 60 && sec < 60;
            let nanos: u32 = match frac {
                "" => 0,
                f => format!("{:0<9}", &f[1..]).parse().unwrap(),
            };
            let dt = date_ok.filter(|_| time_ok).map(|d| d.and_hms_nano_opt(h as u32, mi as u32, sec as u32, nanos).unwrap());
            let value = |v: Option<String>| v.map_or(Want::Refused, Want::Value);
            let date = format!("{y:04}-{m:02}-{d:02}");
            let naive = format!("{date}T{h:02}:{mi:02}:{sec:02}{frac}");
            let full = format!("{naive}{zone}");
            cx.distinct(full.as_bytes());
            let leap = sec == 60;
            if cx.rng.chance(40) {
                let (ty, text, read): (_, _, Read) = match n {
                    3 => ("NaiveDate", &date, read_date),
                    4 => ("NaiveDateTime", &naive, read_naive),
                    _ => ("DateTime<Utc>", &full, read_utc),
                };
                let Some(text) = no_date(&mut cx.rng, text) else { return Ok(()) };
                cx.distinct(text.as_bytes());
                return expect_scalar(cx, ty, &text, read, Want::Refused);
            }
            match n {
                3 => expect_scalar(cx, "NaiveDate", &date, read_date, value(date_ok.map(|d| format!("{d:?}")))),
                4 if leap => Ok(()),
                4 => expect_scalar(cx, "NaiveDateTime", &naive, read_naive, value(dt.map(|d| format!("{d:?}")))),
                _ if leap || zone == "z" => Ok(()),
                _ => {
                    // Only UTC is a `DateTime<Utc>`
                    let utc = matches!(zone, "Z" | "+00:00" | "-00:00");
                    let want = value(dt.filter(|_| utc).map(|d| format!("{:?}", d.and_utc())));
                    expect_scalar(cx, "DateTime<Utc>", &full, read_utc, want)
                }
            }
        }
    }
}

/// Neither a date nor a time, however lenient
fn no_date(r: &mut Rng, text: &str) -> Option<String> {
    let at: Vec<usize> = text.char_indices().map(|(i, _)| i).collect();
    if text.contains('T') && r.chance(20) {
        // RFC 3339 allows a space for a time stamp, ISO 8601 does not
        let with: &[&str] = match text.ends_with(['Z', 'z']) || text.contains('+') || text.matches('-').count() > 2 {
            true => &["_", "U", "x", "/"],
            false => &[" ", "t", "_", "U", "x", "/"],
        };
        // Without a zone, this is none of a `DateTime<Utc>` either
        return Some(text.replacen('T', r.pick(with), 1));
    }
    match r.below(4) {
        0 => Some(format!("{text}{}", r.pick(&["x", "Zx", "ZZ", "T", "-", "/", "\u{e9}", "x1", "-x", ":", "Z1", "+", "+x", " x", "\nx", " 1", "-1-1", "--"]))),
        1 => Some(format!("{}{text}", r.pick(&["x", "T", "Z", "/", ":", "x ", "1-", "1 ", "--", "+-"]))),
        2 => {
            let (a, b) = text.split_at(*r.pick(&at));
            Some(format!("{a}{}{b}", r.pick(&["x", "/", "--", "\u{663}", "&", "_", ",", "a1", "T-"])))
        }
        _ => {
            let seps: Vec<usize> = text.match_indices(['-', ':']).map(|(i, _)| i).filter(|i| *i < 17).collect();
            let at = *r.pick(&seps);
            let with = *r.pick(&["/", ".", "", "_", "x"]);
            // What is left of a date is too short, but may be a number of more digits
            (!with.is_empty() || at < 10).then(|| format!("{}{with}{}", &text[..at], &text[at + 1..]))
        }
    }
}

#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(scalar, rename_all = "kebab-case")]
enum Mode {
    FastMode,
    #[xml(rename = "a & <b>")]
    Odd,
    Plain,
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(scalar)]
enum Level {
    Low = 1,
    Mid = 0x20,
    High = 300,
}
scalar_reader!(read_mode, Mode);
scalar_reader!(read_level, Level);

fn enums(cx: &mut Cx) -> Result<(), String> {
    let r = &mut cx.rng;
    let mut s = (*r.pick(&["fast-mode", "a & <b>", "plain", "FastMode", "Odd", "Plain", "fast_mode", "1", "32", "300", "0x20", "Low", "01", "+1"])).to_owned();
    if r.chance(40) {
        s = tweak(r, s);
    }
    cx.distinct(s.as_bytes());
    cx.sample(|| s.clone());
    let mode = match s.as_str() {
        "fast-mode" => Some(Mode::FastMode),
        "a & <b>" => Some(Mode::Odd),
        "plain" => Some(Mode::Plain),
        _ => None,
    };
    let level = match s.as_str() {
        "1" => Some(Level::Low),
        "32" => Some(Level::Mid),
        "300" => Some(Level::High),
        _ => None,
    };
    let want = |v: Option<String>| match v {
        Some(v) => Want::Value(v),
        None if s != s.trim() => Want::Open(None),
        None => Want::Refused,
    };
    let (mode, level) = (want(mode.map(|m| format!("{m:?}"))), want(level.map(|m| format!("{m:?}"))));
    expect_scalar(cx, "scalar enum", &s, read_mode, mode)?;
    expect_scalar(cx, "scalar enum with discriminants", &s, read_level, level)
}

// C16 -------------------------------------------------------------------

mod paths {
    pub use std::borrow::Cow;
}

#[derive(FromXml)]
struct Borrows<'a> {
    #[xml(attribute, borrow)]
    a: Cow<'a, str>,
    #[xml(attribute, borrow)]
    b: std::borrow::Cow<'a, str>,
    #[xml(borrow)]
    e: Cow<'a, str>,
    #[xml(borrow)]
    f: ::std::borrow::Cow<'a, str>,
    #[xml(borrow)]
    g: paths::Cow<'a, str>,

    #[xml(borrow)]
    any: AnyElement<'a>,
    #[xml(borrow)]
    inner: Vec<InnerBorrows<'a>>,
}
#[derive(FromXml)]
#[xml(rename = "in")]
struct InnerBorrows<'a> {
    #[xml(borrow)]
    t: Cow<'a, str>,
}

/// Raw text and what it stands for
pub fn raw_text(r: &mut Rng, attr: bool) -> (String, String, bool) {
    let plain: String = (0..r.below(12)).map(|_| *r.pick(&['a', 'b', ' ', 'é', '漢', '😀', ';', '\'', '-', '='])).collect();
    match r.below(6) {
        0..=2 => (plain.clone(), plain, true),
        3 => (format!("{plain}&lt;x"), format!("{plain}<x"), false),
        4 if !attr && !plain.is_empty() => (format!("<![CDATA[{plain}]]>"), plain, true),
        // Comments around a single piece of text do not require a copy, text on both sides does
        5 if !attr => (format!("{plain}<!-- c -->z<![CDATA[<]]>"), format!("{plain}z<"), false),
        _ => (format!("&#233;{plain}"), format!("é{plain}"), false),
    }
}

pub fn inside(xml: &str, s: &str) -> bool {
    let (lo, hi) = (xml.as_ptr() as usize, xml.as_ptr() as usize + xml.len());
    let p = s.as_ptr() as usize;
    p >= lo && p + s.len() <= hi
}

fn borrowed(cx: &mut Cx) -> Result<(), String> {
    let r = &mut cx.rng;
    // Texts of up to some hundred thousand bytes now and then
    let long = (cx.index % 200 == 199).then(|| 1 << r.below(15));
    let raw_text = |r: &mut Rng, attr| match long {
        Some(n) if r.chance(50) => {
            let mut texts = raw_text(r, attr);
            if !texts.0.starts_with('<') {
                let more: String = "aé漢b".repeat(n);
                texts = (format!("{more}{}", texts.0), format!("{more}{}", texts.1), texts.2);
            }
            texts
        }
        _ => raw_text(r, attr),
    };
    let (a, e, any, any_a) = (raw_text(r, true), raw_text(r, false), raw_text(r, false), raw_text(r, true));
    let (b, f, g, any_b) = (raw_text(r, true), raw_text(r, false), raw_text(r, false), raw_text(r, true));
    let inner: Vec<_> = (0..r.below(4)).map(|_| raw_text(r, false)).collect();
    let mut kids = vec![
        format!("<e>{}</e>", e.0),
        format!("<any k=\"{}\" xmlns:p='urn:p' p:k2=\"{}\"><sub xmlns=\"urn:x\" xml:lang='en' p:u=''/>{}</any>", any_a.0, any_b.0, any.0),
    ];
    kids.insert(r.below(2), format!("<f>{}</f>", f.0));
    kids.insert(r.below(2), format!("<g>{}</g>", g.0));
    kids.extend(inner.iter().map(|t| format!("<in><t>{}</t></in>", t.0)));
    if r.chance(50) {
        // AnyElement takes any element the fields before it do not
        kids.swap(2, 3);
    }
    let xml = format!("<Borrows a=\"{}\" b=\"{}\">{}</Borrows>", a.0, b.0, kids.concat());
    cx.input = xml.clone();
    cx.distinct(xml.as_bytes());
    cx.sample(|| xml.clone());
    let v = match from_str::<Borrows>(&xml) {
        Ok(v) => v,
        Err(e) => {
            // `any` matches every element no earlier field does, the list included
            if !inner.is_empty() {
                return Ok(());
            }
            return Err(format!("{e}\nxml: {xml}"));
        }
    };
    let any_text = v.any.text.clone().unwrap_or_default();
    let mut got = vec![("attribute", &v.a, a), ("element", &v.e, e), ("attribute by path", &v.b, b), ("element by path", &v.f, f), ("element by module", &v.g, g)];
    for (i, t) in inner.into_iter().enumerate() {
        got.push(("nested element", &v.inner[i].t, t));
    }
    got.push(("captured attribute", &v.any.attributes[0].value, any_a));
    got.push(("captured prefixed attribute", &v.any.attributes[1].value, any_b));
    for (what, g, (raw, want, plain)) in got {
        if **g != want {
            return Err(format!("{what}: {raw:?} read as {g:?}\nxml: {xml}"));
        }
        match (g, plain) {
            (Cow::Borrowed(s), _) if !s.is_empty() && !inside(&xml, s) => {
                return Err(format!("{what}: borrowed from elsewhere than the input\nxml: {xml}"))
            }
            (Cow::Borrowed(_), true) => cx.saw("borrowed without a copy"),
            (Cow::Owned(s), true) if !s.is_empty() => return Err(format!("{what}: {raw:?} was copied\nxml: {xml}")),
            _ => cx.saw("decoded into a copy"),
        }
    }
    if any_text != any.1 {
        return Err(format!("captured text: {:?} read as {any_text:?}\nxml: {xml}", any.0));
    }
    let (captured, sub) = (&v.any, &v.any.children[0]);
    let lang = sub.attributes.iter().find(|a| a.name == "lang").ok_or("no attribute xml:lang")?;
    for (what, s) in [("name", &captured.name), ("namespace", &sub.ns), ("child name", &sub.name), ("attribute name", &captured.attributes[0].name),
        ("prefixed attribute's name", &captured.attributes[1].name), ("attribute's namespace", &captured.attributes[1].ns),
        ("child's attribute's namespace", &sub.attributes[1].ns), ("child's attribute's name", &sub.attributes[1].name),
        ("name of xml:lang", &lang.name), ("value of xml:lang", &lang.value)]
    {
        match s {
            Cow::Borrowed(s) if inside(&xml, s) => cx.saw("names borrowed"),
            other => return Err(format!("{what}: {other:?} does not borrow from the input\nxml: {xml}")),
        }
    }
    if let (Some(t), true) = (&v.any.text, any.2) {
        match t {
            s if s.is_empty() => {}
            Cow::Borrowed(s) if inside(&xml, s) => cx.saw("borrowed without a copy"),
            other => return Err(format!("captured text {other:?} was copied\nxml: {xml}")),
        }
    }
    // Owned copies survive the input
    let any = v.any.clone();
    let (dbg, owned) = (format!("{any:?}"), any.clone().into_owned());
    if owned != v.any || format!("{owned:?}") != dbg {
        return Err(format!("into_owned() differs: {owned:?} from {dbg}"));
    }
    drop(v);
    let mut xml = xml.into_bytes();
    xml.fill(b'#');
    drop(xml);
    match format!("{owned:?}") == dbg {
        true => Ok(()),
        false => Err(format!("into_owned() value changed with its input: {owned:?} from {dbg}")),
    }
}

pub fn campaigns(prop: &str) -> Vec<Campaign> {
    let c = Campaign::new;
    match prop {
        "C05" => vec![
            c("text/every-char", 0x110000 / 256, 0x110000 / 256, every_char),
            c("text/random", 60_000, 1_500_000, random_text),
        ],
        "C06" => vec![
            c("refs/every-number", 0x118000 / 512, 0x118000 / 512, every_reference),
            c("refs/random", 300_000, 6_000_000, random_references),
        ],
        "C15" => vec![
            c("scalars/small-integers", 4 * (65540 / 128 + 1), 4 * (65540 / 128 + 1), all_small_ints),
            c("scalars/integers", 200_000, 3_000_000, ints),
            c("scalars/floats", 100_000, 2_000_000, floats),
            c("scalars/others", 200_000, 3_000_000, others),
            c("scalars/enums", 50_000, 300_000, enums),
        ],
        "C16" => vec![c("borrow/fields", 150_000, 2_000_000, borrowed)],
        _ => vec![],
    }
}
