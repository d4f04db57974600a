//! Documents and values with more of something than fits in eight or sixteen bits: long lists and
//! texts, many references, comments, attributes, declarations and levels.

use std::borrow::Cow;
use std::fmt::Debug;

use instant_xml::de::Limits;
use instant_xml::{from_str, to_string, AnyElement, Deserializer, Error, FromXml, ToXml};

use crate::model::unlimited;
use crate::refxml;
use crate::runner::{CaseFn, Cx};

type Out = Result<(), String>;

/// More than `u8` and `u16` can count
const SOME: usize = 300;
const MANY: usize = 70_000;

fn given(cx: &mut Cx, xml: &str) {
    let short: String = xml.chars().take(200).collect();
    cx.input = format!("{short}... ({} bytes)", xml.len());
    cx.distinct(xml.as_bytes());
    cx.saw("large documents");
    let input = cx.input.clone();
    cx.sample(|| input);
}

fn abridged(v: &impl Debug) -> String {
    let s = format!("{v:?}");
    match s.len() > 600 {
        true => format!("{}... ({} bytes)", s.chars().take(600).collect::<String>(), s.len()),
        false => s,
    }
}

/// `read` gives `want`, or tells where it first differs
fn same(what: &str, got: Result<String, Error>, want: &str) -> Out {
    let got = got.map_err(|e| format!("{what}: {e}"))?;
    if got == want {
        return Ok(());
    }
    let at = got.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count();
    Err(format!("{what}: {} bytes instead of {}, different from byte {at}", got.len(), want.len()))
}

fn check(what: &str, ok: bool) -> Out {
    match ok {
        true => Ok(()),
        false => Err(what.to_owned()),
    }
}

fn read<'xml, T: FromXml<'xml>>(xml: &'xml str, limits: Limits) -> Result<T, Error> {
    Deserializer::new(xml)?.with_limits(limits).deserialize()
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml)]
#[xml(rename = "a")]
struct Lists {
    n: Vec<u32>,
    s: Vec<String>,
    #[xml(rename = "item")]
    items: Vec<Item>,
    last: Option<u8>,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml)]
#[xml(rename = "item")]
struct Item {
    #[xml(attribute)]
    k: u32,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml)]
#[xml(rename = "a")]
struct Texts {
    #[xml(attribute)]
    k: String,
    e: String,
    o: Option<Cow<'static, str>>,
    #[xml(direct)]
    d: String,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml)]
#[xml(rename = "a")]
struct Deep {
    #[xml(attribute)]
    k: u32,
    inner: Vec<Deep>,
    e: u32,
}

fn deep(n: u32) -> Deep {
    (1..=n).fold(Deep { k: 0, inner: vec![], e: 0 }, |d, k| Deep { k, inner: vec![d], e: k })
}

fn lists() -> Lists {
    Lists {
        n: (0..MANY as u32).collect(),
        s: (0..MANY).map(|i| if i % 7 == 0 { String::new() } else { format!("<{i}>") }).collect(),
        items: (0..MANY as u32).map(|k| Item { k }).collect(),
        last: Some(1),
    }
}

fn round_trip<T: ToXml + for<'x> FromXml<'x> + PartialEq + Debug>(cx: &mut Cx, v: &T) -> Out {
    let xml = to_string(v).map_err(|e| format!("not written: {e}"))?;
    given(cx, &xml);
    let got: T = read(&xml, unlimited()).map_err(|e| format!("not read back: {e}"))?;
    check(&format!("read back as {}", abridged(&got)), got == *v)
}

/// Long texts, with something to escape far apart
fn texts() -> Vec<String> {
    let mut out = Vec::new();
    for n in [255, 256, 257, 4095, 4096, 65_535, 65_536, MANY, 1 << 20] {
        out.push(format!("&{}<", "a".repeat(n)));
        out.push(format!("{}\u{10ffff}&", "é".repeat(n)));
    }
    out.push("&".repeat(MANY));
    out.push("<a>]]>\"'&amp;".repeat(MANY / 10));
    out
}

fn written_texts(cx: &mut Cx) -> Out {
    for t in texts() {
        let v = Texts { k: t.clone(), e: t.clone(), o: Some(t.clone().into()), d: t.clone() };
        let xml = to_string(&v).map_err(|e| format!("not written: {e}"))?;
        given(cx, &xml);
        let doc = refxml::parse(&xml).map_err(|e| format!("{e:?}"))?;
        let kids: Vec<_> = doc.root.kids.iter().filter_map(|k| k.elem()).collect();
        same("attribute", Ok(doc.root.attrs[0].value.clone()), &t)?;
        same("element", Ok(kids[0].own_text()), &t)?;
        same("optional element", Ok(kids[1].own_text()), &t)?;
        same("direct text", Ok(doc.root.own_text()), &t)?;
        let got = read::<Texts>(&xml, unlimited()).map_err(|e| format!("not read back: {e}"))?;
        check("a long text is not read back", got == v)?;
    }
    for t in texts() {
        let t = format!("{t}\u{1}");
        let v = Texts { k: "".into(), e: t, o: None, d: "".into() };
        check("a forbidden character at the end of a long text is written", to_string(&v).is_err())?;
    }
    Ok(())
}

fn read_references(cx: &mut Cx) -> Out {
    let parts = [("&amp;", "&"), ("&#x10FFFF;", "\u{10ffff}"), ("&#65;", "A"), ("é", "é"), ("&gt;&lt;", "><"), ("x", "x")];
    let (mut xml, mut want) = (String::new(), String::new());
    for i in 0..MANY {
        let (x, w) = parts[i % parts.len()];
        xml.push_str(x);
        want.push_str(w);
        if i % 1000 == 0 {
            xml.push_str(&"a".repeat(i));
            want.push_str(&"a".repeat(i));
        }
    }
    let doc = format!("<a k='{xml}'>{xml}</a>");
    given(cx, &doc);
    let any: AnyElement<'_> = from_str(&doc).map_err(|e| e.to_string())?;
    same("attribute", Ok(any.attributes[0].value.to_string()), &want)?;
    same("text", Ok(any.text.clone().unwrap_or_default().to_string()), &want)?;
    for bad in ["&", "&nope;", "&#0;", "&amp"] {
        check("a malformed reference after many others is accepted", from_str::<AnyElement<'_>>(&format!("<a k='{xml}{bad}'/>")).is_err())?;
        check("a malformed reference after many others is accepted", from_str::<AnyElement<'_>>(&format!("<a>{xml}{bad}</a>")).is_err())?;
    }
    Ok(())
}

fn split_text(cx: &mut Cx) -> Out {
    let (mut xml, mut want) = (String::new(), String::new());
    for i in 0..MANY {
        xml.push_str(["<!--c-->", "<![CDATA[<&]]>", "t", "&amp;", "<![CDATA[]]>", "é", "<!-- - -->"][i % 7]);
        want.push_str(["", "<&", "t", "&", "", "é", ""][i % 7]);
    }
    let doc = format!("<a k=''><e>{xml}</e><o>{xml}</o>{xml}</a>");
    given(cx, &doc);
    let got: Texts = from_str(&doc).map_err(|e| e.to_string())?;
    same("element", Ok(got.e), &want)?;
    same("optional element", Ok(got.o.unwrap_or_default().into_owned()), &want)?;
    same("direct text", Ok(got.d), &want)
}

fn interleaved(cx: &mut Cx) -> Out {
    let want = Lists { last: None, ..lists() };
    let mut xml = String::from("<a>");
    for i in 0..MANY {
        xml.push_str(&format!("<n>{i}</n><s>{}</s><unknown/><item k='{i}'/>", if i % 7 == 0 { String::new() } else { format!("&lt;{i}>") }));
    }
    xml.push_str("</a>");
    given(cx, &xml);
    let got: Lists = from_str(&xml).map_err(|e| e.to_string())?;
    check("items of long interleaved lists are lost or out of order", got == want)?;
    let twice = xml.replace("</a>", "<last>1</last></a>").replacen("<a>", "<a><last>1</last>", 1);
    check("a second value after many elements is accepted", from_str::<Lists>(&twice).is_err())
}

fn any_children(cx: &mut Cx) -> Out {
    let mut xml = String::from("<r>");
    for i in 0..MANY {
        xml.push_str(&format!("{i}<c{i} k='{i}'>{i}</c{i}>"));
    }
    xml.push_str("</r>");
    given(cx, &xml);
    let any: AnyElement<'_> = from_str(&xml).map_err(|e| e.to_string())?;
    let all: String = (0..MANY).map(|i| i.to_string()).collect();
    for any in [any.clone(), any.into_owned()] {
        same("text", Ok(any.text.clone().unwrap_or_default().to_string()), &all)?;
        check("children are lost", any.children.len() == MANY)?;
        for (i, c) in any.children.iter().enumerate() {
            let n = i.to_string();
            let ok = c.name == format!("c{i}") && c.text.as_deref() == Some(&n) && c.attributes.len() == 1 && c.attributes[0].value == n;
            check(&format!("child {i} is {c:?}"), ok)?;
        }
    }
    Ok(())
}

fn any_attributes(cx: &mut Cx) -> Out {
    let attrs: String = (0..SOME).map(|i| format!(" k{i}='{i}'")).collect();
    let xml = format!("<r><a{attrs}><b{attrs}/></a></r>");
    given(cx, &xml);
    let any: AnyElement<'_> = read(&xml, unlimited()).map_err(|e| e.to_string())?;
    let a = &any.children[0];
    for e in [a, &a.children[0]] {
        check("attributes are lost", e.attributes.len() == SOME)?;
        for (i, k) in e.attributes.iter().enumerate() {
            check(&format!("attribute {i} is {k:?}"), k.name == format!("k{i}") && k.value == i.to_string())?;
        }
    }
    Ok(())
}

fn any_levels(cx: &mut Cx) -> Out {
    // Each level declares the same prefix and the default namespace anew and uses the one outside in its siblings
    let mut xml = String::new();
    for i in 0..SOME {
        xml.push_str(&format!("<e xmlns='urn:{i}' xmlns:p='urn:p{i}' p:k='{i}'>"));
    }
    for i in (0..SOME).rev() {
        xml.push_str(&format!("<x/><p:x/>{i}</e>"));
    }
    given(cx, &xml);
    let any: AnyElement<'_> = read(&xml, unlimited()).map_err(|e| e.to_string())?;
    let (mut at, mut depth) = (&any, 0);
    loop {
        let (ns, p) = (format!("urn:{depth}"), format!("urn:p{depth}"));
        let n = at.children.len();
        let ok = at.ns == ns
            && at.attributes.len() == 1
            && at.attributes[0].ns == p
            && at.text.as_deref() == Some(&depth.to_string())
            && n == if depth + 1 < SOME { 3 } else { 2 }
            && at.children[n - 2].ns == ns
            && at.children[n - 1].ns == p;
        check(&format!("level {depth} is {}", abridged(at)), ok)?;
        depth += 1;
        if depth == SOME {
            return Ok(());
        }
        at = &at.children[0];
    }
}

/// What the root declares holds on every level, until it is declared anew
fn inherited(cx: &mut Cx) -> Out {
    let mut xml = String::from("<r xmlns='urn:d' xmlns:p='urn:p'>");
    xml.extend((0..SOME).map(|i| if i % 3 == 2 { "<p:e p:k='' k=''>" } else { "<e p:k='' k=''>" }));
    xml.push_str("<x xmlns='' xmlns:p='urn:q'><y p:k=''/></x>");
    xml.extend((0..SOME).rev().map(|i| if i % 3 == 2 { "</p:e>" } else { "</e>" }));
    xml.push_str("</r>");
    given(cx, &xml);
    let any: AnyElement<'_> = read(&xml, unlimited()).map_err(|e| e.to_string())?;
    let mut at = &any;
    for i in 0..SOME {
        at = &at.children[0];
        let ok = at.ns == if i % 3 == 2 { "urn:p" } else { "urn:d" } && at.attributes[0].ns == "urn:p" && at.attributes[1].ns.is_empty();
        check(&format!("level {i} is {}", abridged(at)), ok)?;
    }
    let x = &at.children[0];
    check(&format!("redeclared: {x:?}"), x.ns.is_empty() && x.children[0].ns.is_empty() && x.children[0].attributes[0].ns == "urn:q")
}

fn declarations(cx: &mut Cx) -> Out {
    let decls: String = (0..SOME).map(|i| format!(" xmlns:p{i}='urn:{i}'")).collect();
    let kids: String = (0..SOME).map(|i| format!("<p{i}:e p{}:k='1'/>", SOME - 1 - i)).collect();
    let xml = format!("<r><a{decls}>{kids}</a></r>");
    given(cx, &xml);
    let any: AnyElement<'_> = read(&xml, unlimited()).map_err(|e| e.to_string())?;
    let a = &any.children[0];
    check("children are lost", a.children.len() == SOME)?;
    for (i, c) in a.children.iter().enumerate() {
        let ok = c.ns == format!("urn:{i}") && c.attributes[0].ns == format!("urn:{}", SOME - 1 - i);
        check(&format!("child {i} is {c:?}"), ok)?;
    }
    Ok(())
}

/// Exactly what a limit allows is accepted, and one more is not
fn limits(cx: &mut Cx) -> Out {
    let at = |l: fn(&mut Limits, usize), n: usize| {
        let mut limits = unlimited();
        l(&mut limits, n);
        limits
    };
    for n in [100, 127, 128, 255, 256, 257, 1000] {
        let attrs: String = (0..n).map(|i| format!(" k{i}=''")).collect();
        let decls: String = (0..n).map(|i| format!(" xmlns:p{i}='u'")).collect();
        let levels = "<e>".repeat(n - 1) + &"</e>".repeat(n - 1);
        for (what, l, xml) in [
            ("attributes", (|l, n| l.max_attributes = n) as fn(&mut Limits, usize), format!("<r><e{attrs}/></r>")),
            ("declarations", |l, n| l.max_ns_declarations = n, format!("<r><e{decls}/></r>")),
            ("levels", |l, n| l.max_levels = n, format!("<r>{levels}</r>")),
        ] {
            given(cx, &xml);
            read::<AnyElement<'_>>(&xml, at(l, n)).map_err(|e| format!("{n} {what}, as many as allowed, are refused: {e}"))?;
            check(&format!("{n} {what}, one more than allowed, are accepted"), read::<AnyElement<'_>>(&xml, at(l, n - 1)).is_err())?;
        }
    }
    Ok(())
}

fn ignored(cx: &mut Cx) -> Out {
    let junk: String = (0..MANY).map(|i| format!("<j{i} k='&lt;'>&amp;<n>{i}</n></j{i}>")).collect();
    let nested = "<e><last>2</last>".repeat(SOME) + &"</e>".repeat(SOME);
    let xml = format!("<a>{junk}<n>1</n>{nested}<n>2</n>{junk}</a>");
    given(cx, &xml);
    let got: Lists = read(&xml, unlimited()).map_err(|e| e.to_string())?;
    check(&format!("read as {}", abridged(&got)), got == Lists { n: vec![1, 2], s: vec![], items: vec![], last: None })
}

pub fn cases() -> Vec<(&'static str, &'static str, CaseFn)> {
    vec![
        ("C01", "large/lists", |cx| round_trip(cx, &lists())),
        ("C01", "large/levels", |cx| round_trip(cx, &deep(SOME as u32))),
        ("C03", "large/levels", |cx| {
            let xml = to_string(&deep(SOME as u32)).map_err(|e| e.to_string())?;
            given(cx, &xml);
            let n = SOME as u32;
            let mut want: String = (0..=n).rev().map(|k| format!("<a k=\"{k}\">")).collect();
            want.extend((0..=n).map(|k| format!("<e>{k}</e></a>")));
            let (got, want) = (refxml::parse(&xml), refxml::parse(&want));
            check("levels are lost or out of order", got.map_err(|e| format!("{e:?}"))?.root.canon() == want.unwrap().root.canon())
        }),
        ("C05", "large/texts", written_texts),
        ("C06", "large/references", read_references),
        ("C07", "large/levels", any_levels),
        ("C07", "large/inherited", inherited),
        ("C07", "large/declarations", declarations),
        ("C10", "large/limits", limits),
        ("C11", "large/split", split_text),
        ("C12", "large/ignored", ignored),
        ("C13", "large/interleaved", interleaved),
        ("C14", "large/children", any_children),
        ("C14", "large/attributes", any_attributes),
    ]
}
