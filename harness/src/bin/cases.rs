//! Directed cases: what once failed (see known_findings.json), and what still does. Each case is
//! a campaign of its own, run once; a listed finding is known by its campaign and its input.

use std::borrow::Cow;
use std::fmt::Debug;

use harness::refxml;
use harness::runner::{args, finish, Campaign, CaseFn, Cx};
use instant_xml::de::Node;
use instant_xml::{display_to_xml, from_str, to_string, AnyElement, Deserializer, Error, FromXml, Id, Serializer, ToXml};

type Out = Result<(), String>;

fn given(cx: &mut Cx, xml: &str) {
    cx.input = xml.to_owned();
    cx.distinct(xml.as_bytes());
    cx.saw("directed cases");
    let xml = xml.to_owned();
    cx.sample(|| xml);
}

macro_rules! reads {
    ($cx:expr, $xml:expr, $t:ty, $want:expr) => {{
        given($cx, $xml);
        match from_str::<$t>($xml) {
            Ok(v) if v == $want => Ok(()),
            got => Err(format!("{} is read as {got:?}, not {:?}", $xml, $want)),
        }
    }};
}

macro_rules! refused {
    ($cx:expr, $xml:expr, $t:ty) => {{
        given($cx, $xml);
        match from_str::<$t>($xml) {
            Err(_) => Ok(()),
            got => Err(format!("{} is read as {got:?}, not refused", $xml)),
        }
    }};
}

/// The value is written as a document with the content of `want`
fn writes<T: ToXml + Debug>(cx: &mut Cx, value: &T, want: &str) -> Out {
    given(cx, want);
    let want_doc = refxml::parse(want).unwrap_or_else(|e| panic!("{e:?}: {want}"));
    let got = to_string(value).map_err(|e| format!("{value:?} is not written: {e}"))?;
    match refxml::parse(&got) {
        Ok(d) if d.root.canon() == want_doc.root.canon() => Ok(()),
        Ok(_) => Err(format!("{value:?} is written as {got}, not {want}")),
        Err(e) => Err(format!("{value:?} is written as {got}: {e:?}")),
    }
}

fn not_written<T: ToXml + Debug>(cx: &mut Cx, value: &T) -> Out {
    given(cx, &format!("{value:?}"));
    match to_string(value) {
        Err(_) => Ok(()),
        Ok(s) => Err(format!("{value:?} is written as {s:?}")),
    }
}

macro_rules! round {
    ($cx:expr, $v:expr, $t:ty) => {{
        let v: $t = $v;
        let xml = to_string(&v).map_err(|e| format!("{v:?} is not written: {e}"))?;
        reads!($cx, &xml, $t, v)
    }};
}

fn all(results: impl IntoIterator<Item = Out>) -> Out {
    results.into_iter().collect()
}

#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(rename = "a")]
struct Empty {}

#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(rename = "a")]
struct Text {
    b: String,
}

#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(rename = "a")]
struct Number {
    b: u32,
}

#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(rename = "a")]
struct OptNumber {
    b: Option<u32>,
}

#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(rename = "a", ns("urn:a", p = "urn:a"))]
struct PrefixedAttr {
    #[xml(attribute, ns(URN_A))]
    k: String,
}

#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(rename = "a")]
struct Borrowed<'a> {
    #[xml(borrow)]
    b: Cow<'a, str>,
}

#[derive(Debug, PartialEq, ToXml)]
#[xml(rename = "a")]
struct Boxed<'a> {
    b: Box<Option<u32>>,
    c: &'a Option<u32>,
}

#[derive(Debug, PartialEq)]
struct Shown(String);
impl std::fmt::Display for Shown {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl ToXml for Shown {
    fn serialize<W: std::fmt::Write + ?Sized>(&self, field: Option<Id<'_>>, s: &mut Serializer<W>) -> Result<(), Error> {
        display_to_xml(&self.0, field, s)
    }
}
#[derive(Debug, PartialEq, ToXml)]
#[xml(rename = "a")]
struct ShownIn {
    b: Shown,
}

#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(rename = "a", ns("urn:a", p = "urn:p"))]
struct Outer {
    first: Inner,
    #[xml(rename = "p", ns("urn:p"))]
    last: String,
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(rename = "in", ns("urn:b", p = "urn:q"))]
struct Inner {}

#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(rename = "a", ns("urn:a", p = "urn:p"))]
struct Shadows {
    inner: ShadowIn,
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(rename = "in", ns("urn:b", p = "urn:q"))]
struct ShadowIn {
    #[xml(ns("urn:p"))]
    x: String,
    #[xml(ns("urn:q"))]
    y: String,
}

#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(rename = "a")]
struct Direct {
    c: Option<u32>,
    #[xml(direct)]
    t: Option<String>,
}

#[derive(Clone, Debug, PartialEq, FromXml, ToXml)]
#[xml(scalar)]
enum Marked {
    #[xml(rename = "a<b&c")]
    One,
    Two,
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(rename = "a")]
struct MarkedIn {
    b: Marked,
    #[xml(attribute)]
    k: Marked,
}

#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(transparent)]
struct Inline {
    x: u32,
    y: Option<String>,
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(rename = "a")]
struct Inlined {
    i: Inline,
    z: u32,
}

#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(rename = "b")]
struct One {
    #[xml(attribute)]
    k: u32,
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(rename = "c")]
struct Unit;
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(rename = "d")]
struct Tuple(u32);
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(forward)]
enum Fwd {
    One(One),
    Unit(Unit),
}
#[derive(Debug, PartialEq, FromXml)]
#[xml(rename = "a")]
struct Singles {
    b: Option<One>,
    c: Option<Unit>,
    d: Option<Tuple>,
}
#[derive(Debug, PartialEq, FromXml)]
#[xml(rename = "a")]
struct SingleFwd {
    f: Option<Fwd>,
}
#[derive(Debug, PartialEq, FromXml)]
#[xml(rename = "a")]
struct SingleAny<'a> {
    #[xml(borrow)]
    f: Option<AnyElement<'a>>,
}

#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(rename = "a")]
struct Pair(Option<One>, Option<Unit>);

#[derive(Debug, PartialEq, FromXml)]
#[xml(rename = "a")]
struct HookedElem {
    #[xml(deserialize_with = "instant_xml::from_xml_str")]
    k: u8,
    j: u8,
}
#[derive(Debug, PartialEq, FromXml)]
#[xml(rename = "a")]
struct HookedInline {
    inline: HookedInner,
    j: u8,
}
#[derive(Debug, PartialEq, FromXml)]
#[xml(transparent)]
struct HookedInner {
    #[xml(deserialize_with = "instant_xml::from_xml_str")]
    k: u8,
}

#[derive(Debug, PartialEq, FromXml)]
#[xml(rename = "a")]
struct Nothing {
    b: (),
    c: Option<()>,
}

#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(rename = "a")]
struct Inlines<'a> {
    #[xml(borrow)]
    borrowing: InlineBorrowing<'a>,
    generic: InlineGeneric<u8, One>,
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(transparent)]
struct InlineBorrowing<'a> {
    #[xml(borrow)]
    wrapped: Wrapped<'a>,
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(rename = "w")]
struct Wrapped<'a> {
    #[xml(attribute, borrow)]
    k: Cow<'a, str>,
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(transparent)]
struct InlineGeneric<T: Clone, U>
where
    U: Debug,
{
    t: T,
    u: Option<U>,
}

fn lower<'xml>(into: &mut Option<String>, _: &'static str, de: &mut Deserializer<'_, 'xml>) -> Result<(), Error> {
    *into = de.take_str()?.map(|s| s.to_lowercase());
    Ok(())
}
#[derive(Debug, PartialEq, FromXml)]
#[xml(rename = "a")]
struct HookedAttr<'a> {
    #[xml(attribute, deserialize_with = "lower")]
    k: String,
    #[xml(attribute, borrow)]
    j: Cow<'a, str>,
}

const URN_A: &str = "urn:a";

// The known findings
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(rename = "a", ns("urn:x?a=1&b=2"))]
struct AmpersandNs {
    b: u32,
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(rename = "a", ns("urn:x?a=1;b=2"))]
struct SemicolonNs {
    b: u32,
}
#[derive(Clone, Debug, PartialEq, FromXml, ToXml)]
#[xml(scalar, ns("urn:e"))]
enum EnumWithNs {
    One,
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(rename = "a")]
struct AttrOfEnumWithNs {
    #[xml(attribute)]
    k: EnumWithNs,
}

/// Only the ways of writing of it are derived
#[derive(Debug, ToXml)]
#[xml(transparent)]
struct InlinePair(One, Unit);

#[derive(Debug, ToXml)]
#[xml(rename = "a")]
struct InlineParent {
    pair: InlinePair,
    c: u8,
}

fn scalar_root<'xml, T: FromXml<'xml> + Debug>(xml: &'xml str) -> Out {
    match from_str::<T>(xml) {
        Err(_) => Ok(()),
        got => Err(format!("{xml} is read as {} {got:?}, which has no element of its own", std::any::type_name::<T>())),
    }
}

const XML: &str = "http://www.w3.org/XML/1998/namespace";

#[derive(Debug, Clone, PartialEq, FromXml, ToXml)]
struct XmlNs {
    #[xml(attribute, ns(XML))]
    lang: String,
    #[xml(attribute, ns(XML))]
    space: Option<String>,
    b: XmlNsInner,
}

#[derive(Debug, Clone, PartialEq, FromXml, ToXml)]
#[xml(rename = "b", ns("", xml = XML))]
struct XmlNsInner {
    #[xml(attribute, ns(XML))]
    lang: String,
}

fn cases() -> Vec<(&'static str, &'static str, CaseFn)> {
    vec![
        ("C01", "case/empty-cow", |cx| reads!(cx, "<a><b></b></a>", Borrowed, Borrowed { b: "".into() })),
        ("C16", "case/empty-cow", |cx| reads!(cx, "<a><b/></a>", Borrowed, Borrowed { b: "".into() })),
        ("C01", "case/absent-behind-box", |cx| writes(cx, &Boxed { b: Box::new(None), c: &None }, "<a/>")),
        ("C01", "case/transparent-scalars", |cx| {
            all([
                round!(cx, Inlined { i: Inline { x: 1, y: None }, z: 2 }, Inlined),
                round!(cx, Inlined { i: Inline { x: 1, y: Some("2".into()) }, z: 3 }, Inlined),
            ])
        }),
        ("C19", "case/transparent-scalars", |cx| {
            reads!(cx, "<a><z>3</z><y>2</y><x>1</x></a>", Inlined, Inlined { i: Inline { x: 1, y: Some("2".into()) }, z: 3 })
        }),
        ("C01", "case/tuple-absent", |cx| {
            all([
                round!(cx, Pair(None, Some(Unit)), Pair),
                round!(cx, Pair(Some(One { k: 1 }), None), Pair),
                round!(cx, Pair(None, None), Pair),
            ])
        }),
        ("C12", "case/tuple-unknown", |cx| reads!(cx, "<a> <z/><b k='1'/> <!-- --><c/></a>", Pair, Pair(Some(One { k: 1 }), Some(Unit)))),
        ("C02", "case/direct-none", |cx| writes(cx, &Direct { t: None, c: Some(1) }, "<a><c>1</c></a>")),
        ("C25", "case/direct-none", |cx| {
            all([
                round!(cx, Direct { t: None, c: Some(1) }, Direct),
                round!(cx, Direct { t: None, c: None }, Direct),
                round!(cx, Direct { t: Some("x".into()), c: Some(1) }, Direct),
            ])
        }),
        ("C03", "case/attribute-namespace", |cx| {
            writes(cx, &PrefixedAttr { k: "v".into() }, "<a xmlns='urn:a' xmlns:p='urn:a' p:k='v'/>")
        }),
        ("C03", "case/transparent-tuple", |cx| {
            writes(cx, &InlineParent { pair: InlinePair(One { k: 1 }, Unit), c: 2 }, "<a><b k='1'/><c/><c>2</c></a>")
        }),
        ("C07", "case/scalar-root", |cx| {
            given(cx, "<a>1</a>");
            all([
                scalar_root::<bool>("<a>1</a>"),
                scalar_root::<char>("<a>1</a>"),
                scalar_root::<u8>("<a>1</a>"),
                scalar_root::<u16>("<a>1</a>"),
                scalar_root::<u32>("<a>1</a>"),
                scalar_root::<u64>("<a>1</a>"),
                scalar_root::<usize>("<a>1</a>"),
                scalar_root::<i8>("<a>1</a>"),
                scalar_root::<i16>("<a>1</a>"),
                scalar_root::<i32>("<a>1</a>"),
                scalar_root::<i64>("<a>1</a>"),
                scalar_root::<isize>("<a>1</a>"),
                scalar_root::<f32>("<a>1</a>"),
                scalar_root::<f64>("<a>1</a>"),
                scalar_root::<String>("<a>1</a>"),
                scalar_root::<Cow<'_, str>>("<a>1</a>"),
                scalar_root::<std::net::IpAddr>("<a>::1</a>"),
                scalar_root::<chrono::NaiveDate>("<a>2020-01-01</a>"),
                scalar_root::<chrono::NaiveDateTime>("<a>2020-01-01T00:00:00</a>"),
                scalar_root::<chrono::DateTime<chrono::Utc>>("<a>2020-01-01T00:00:00Z</a>"),
            ])
        }),
        ("C04", "case/after-empty-element", |cx| {
            writes(cx, &Outer { first: Inner {}, last: "x".into() }, "<a xmlns='urn:a'><in xmlns='urn:b'/><p xmlns='urn:p'>x</p></a>")
        }),
        ("C04", "case/shadowed-prefix", |cx| {
            let v = Shadows { inner: ShadowIn { x: "1".into(), y: "2".into() } };
            writes(cx, &v, "<a xmlns='urn:a'><in xmlns='urn:b'><x xmlns='urn:p'>1</x><y xmlns='urn:q'>2</y></in></a>")
        }),
        ("C05", "case/display", |cx| writes(cx, &ShownIn { b: Shown("<&>\"'".into()) }, "<a><b>&lt;&amp;&gt;\"'</b></a>")),
        ("C05", "case/forbidden", |cx| {
            all(["\0", "x\u{b}", "\u{1b}[0m", "\u{fffe}", "é\u{ffff}"].map(|s| not_written(cx, &Text { b: s.into() })))
        }),
        ("C05", "case/scalar-enum", |cx| {
            let v = MarkedIn { b: Marked::One, k: Marked::One };
            all([writes(cx, &v, "<a k='a&lt;b&amp;c'><b>a&lt;b&amp;c</b></a>"), round!(cx, v, MarkedIn)])
        }),
        ("C06", "case/signed-reference", |cx| {
            all(["<a><b>&#+65;</b></a>", "<a><b>&#x+41;</b></a>", "<a><b>&#-65;</b></a>"].map(|s| refused!(cx, s, Text)))
        }),
        ("C08", "case/parent-prefix", |cx| {
            all(["<p:a/>", "<a><p:b>x</p:b></a>", "<a><p:b/></a>", "<p:a xmlns:q='urn:q'/>"].map(|s| {
                given(cx, s);
                let _ = from_str::<Text>(s);
                let _ = from_str::<AnyElement>(s);
                if let Ok(mut de) = Deserializer::new(s) {
                    let _ = de.parent();
                    while let Some(Ok(node)) = de.next() {
                        if let Node::Open(e) = node {
                            let _ = de.nested(e).parent();
                        }
                    }
                }
                Ok(())
            }))
        }),
        ("C22", "case/parent-after-child", |cx| {
            let xml = "<p:a xmlns:p='urn:1'><p:b xmlns:p='urn:2'/>x</p:a>";
            given(cx, xml);
            let mut de = Deserializer::new(xml).map_err(|e| e.to_string())?;
            let before = de.parent();
            let Some(Ok(Node::Open(e))) = de.next() else { return Err("no child".into()) };
            let mut nested = de.nested(e);
            let child = nested.parent();
            nested.ignore().map_err(|e| e.to_string())?;
            match (before, child, de.parent()) {
                (Id { ns: "urn:1", name: "a" }, Id { ns: "urn:2", name: "b" }, Id { ns: "urn:1", name: "a" }) => Ok(()),
                ids => Err(format!("parents in {xml} are {ids:?}")),
            }
        }),
        ("C22", "case/unconsumed-node", |cx| {
            let xml = "<a>t<b>u</b></a>";
            given(cx, xml);
            let mut de = Deserializer::new(xml).map_err(|e| e.to_string())?;
            let Some(Ok(node)) = de.next() else { return Err("no node".into()) };
            drop(de.for_node(node));
            match de.next() {
                Some(Ok(Node::Open(e))) if matches!(de.element_id(&e), Ok(Id { name: "b", .. })) => Ok(()),
                got => Err(format!("{got:?} comes after a node of for_node() that was not consumed")),
            }
        }),
        ("C09", "case/unclosed", |cx| {
            all(["<a>", "<a><b>x</b>", "<a><b>x", "<a><b/>", "<a", "<a><z>"].map(|s| refused!(cx, s, Empty)))
        }),
        ("C09", "case/after-root", |cx| {
            all(["<a/><a/>", "<a></a>x", "<a/></a>", "<a/><![CDATA[]]>", "<a/> <b>"].map(|s| refused!(cx, s, Empty)))
        }),
        ("C09", "case/empty-prefix", |cx| {
            all(["<:a/>", "<:a></:a>", "<a></:a>", "<a :k='1'/>", "<a><:b/></a>", "<a><b></:b></a>", "<a :xmlns='urn:a'/>"]
                .map(|s| refused!(cx, s, Empty)))
        }),
        ("C11", "case/split", |cx| {
            let want = || Text { b: " x<y& ".into() };
            all([
                reads!(cx, "<a><b> x<!-- - -->&lt;y<![CDATA[&]]> </b></a>", Text, want()),
                reads!(cx, "<a><b><![CDATA[ x<y]]>&#38;<!---->&#x20;</b></a>", Text, want()),
            ])
        }),
        ("C13", "case/twice", |cx| {
            all([
                refused!(cx, "<a><b k='1'/><b k='2'/></a>", Singles),
                refused!(cx, "<a><c/><c/></a>", Singles),
                refused!(cx, "<a><d>1</d><d>2</d></a>", Singles),
                refused!(cx, "<a><b k='1'/><c/></a>", SingleFwd),
                refused!(cx, "<a><b/><c/></a>", SingleAny),
                refused!(cx, "<a><b>1</b><b>2</b></a>", Number),
            ])
        }),
        ("C14", "case/mixed-text", |cx| {
            let xml = "<a>x<b/>y<b/><![CDATA[z]]></a>";
            given(cx, xml);
            match from_str::<AnyElement>(xml) {
                Ok(v) if v.text.as_deref() == Some("xyz") && v.children.len() == 2 => Ok(()),
                got => Err(format!("{xml} is read as {got:?}")),
            }
        }),
        ("C21", "case/start-in-attribute", |cx| {
            given(cx, "attribute value with text, then write_start()");
            let mut out = String::new();
            let mut s = Serializer::new(&mut out);
            let e = |e: Error| e.to_string();
            let root = s.write_start("a", "", None::<instant_xml::ser::Context<0>>).map_err(e)?;
            struct Nested;
            impl ToXml for Nested {
                fn serialize<W: std::fmt::Write + ?Sized>(&self, _: Option<Id<'_>>, s: &mut Serializer<W>) -> Result<(), Error> {
                    s.write_str("x")?;
                    match s.write_start("b", "", None::<instant_xml::ser::Context<0>>) {
                        Err(_) => Ok(()),
                        Ok(_) => Err(Error::Other("element started within an attribute value".into())),
                    }
                }
            }
            s.write_attr("k", "", &Nested).map_err(e)?;
            s.end_start().map_err(e)?;
            s.write_close(root).map_err(e)?;
            match out.as_str() {
                "<a k=\"x\"></a>" | "<a k=\"x\"/>" | "<a k=\"x\" />" => Ok(()),
                _ => Err(format!("{out} was written")),
            }
        }),
        ("C24", "case/attribute", |cx| {
            reads!(cx, "<a k='ABC' j='DEF'/>", HookedAttr, HookedAttr { k: "abc".into(), j: "DEF".into() })
        }),
        ("C24", "case/from-str", |cx| {
            all([
                reads!(cx, "<a><k>1</k><j>2</j></a>", HookedElem, HookedElem { k: 1, j: 2 }),
                reads!(cx, "<a><j>2</j><k>1<!-- --></k></a>", HookedElem, HookedElem { k: 1, j: 2 }),
                reads!(cx, "<a><k>1</k><j>2</j></a>", HookedInline, HookedInline { inline: HookedInner { k: 1 }, j: 2 }),
            ])
        }),
        ("C13", "case/nothing-twice", |cx| {
            all([
                refused!(cx, "<a><b/><b/></a>", Nothing),
                refused!(cx, "<a><b/><c/><c/></a>", Nothing),
                reads!(cx, "<a><c/><b/></a>", Nothing, Nothing { b: (), c: Some(()) }),
                reads!(cx, "<a><b/></a>", Nothing, Nothing { b: (), c: None }),
            ])
        }),
        ("C18", "case/inline-parameters", |cx| {
            let value = |n| Inlines {
                borrowing: InlineBorrowing { wrapped: Wrapped { k: "x".into() } },
                generic: InlineGeneric { t: n, u: None },
            };
            all([
                writes(cx, &value(7), "<a><w k='x'/><t>7</t></a>"),
                reads!(cx, "<a><t>8</t><w k='x'/></a>", Inlines<'_>, value(8)),
            ])
        }),
        ("C01", "case/xml-namespace", |cx| {
            let value = XmlNs { lang: "en".into(), space: Some("preserve".into()), b: XmlNsInner { lang: "é".into() } };
            all([
                round!(cx, value.clone(), XmlNs),
                reads!(cx, "<XmlNs xml:lang='en' xml:space='preserve'><b xml:lang='é'/></XmlNs>", XmlNs, value),
                writes(cx, &value, "<XmlNs xml:lang='en' xml:space='preserve'><b xml:lang='é'/></XmlNs>"),
            ])
        }),
        // What still fails, next to what does not
        ("C02", "case/ns-plain", |cx| writes(cx, &SemicolonNs { b: 1 }, "<a xmlns='urn:x?a=1;b=2'><b>1</b></a>")),
        ("C02", "known/ns-ampersand", |cx| writes(cx, &AmpersandNs { b: 1 }, "<a xmlns='urn:x?a=1&amp;b=2'><b>1</b></a>")),
        ("C07", "known/ns-reference", |cx| reads!(cx, "<a xmlns='urn:x?a=1&amp;b=2'><b>1</b></a>", AmpersandNs, AmpersandNs { b: 1 })),
        ("C07", "known/ns-reference-number", |cx| reads!(cx, "<a xmlns='urn:x?a=1&#59;b=2'><b>1</b></a>", SemicolonNs, SemicolonNs { b: 1 })),
        ("C09", "known/ns-reference", |cx| refused!(cx, "<a><b xmlns:p='&nope;'/></a>", Empty)),
        ("C13", "case/number-twice", |cx| refused!(cx, "<a><b>1</b><b/></a>", Number)),
        ("C13", "known/empty-then-number", |cx| refused!(cx, "<a><b/><b>1</b></a>", Number)),
        ("C13", "known/empty-then-option", |cx| refused!(cx, "<a><b/><b>1</b></a>", OptNumber)),
        ("C01", "known/attribute-of-enum-with-ns", |cx| {
            let result = round!(cx, AttrOfEnumWithNs { k: EnumWithNs::One }, AttrOfEnumWithNs);
            cx.input = "AttrOfEnumWithNs { k: One }".into();
            result
        }),
        ("C19", "known/attribute-of-enum-with-ns", |cx| reads!(cx, "<a k='One'/>", AttrOfEnumWithNs, AttrOfEnumWithNs { k: EnumWithNs::One })),
    ]
}

fn main() {
    let args = args();
    let campaigns: Vec<_> =
        cases().into_iter().chain(harness::large::cases()).filter(|c| c.0 == args.prop).map(|(_, name, run)| Campaign::new(name, 1, 1, run)).collect();
    finish(&args, &campaigns);
}
