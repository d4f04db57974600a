//! C20: families of documents and values that grow in one dimension each. What is measured is
//! only the library's reading or writing; `bin/meter.rs` measures.

use std::borrow::Cow;
use std::fmt;
use std::hint::black_box;

use instant_xml::de::{Limits, Node};
use instant_xml::ser::{Context, Prefix};
use instant_xml::{from_str, to_string, to_writer, AnyElement, Deserializer, Error, FromXml, Id, Serializer, ToXml};

/// What is measured; true if it succeeded
pub type Op = Box<dyn FnMut() -> bool>;

pub struct Family {
    pub name: &'static str,
    /// Something of about `n` parts: its size in bytes and what is to be done with it
    pub make: Box<dyn Fn(usize) -> (usize, Op)>,
}

// Readers ----------------------------------------------------------------------

#[derive(Debug, FromXml)]
#[xml(rename = "r", ns("urn:r", p = "urn:p"))]
#[allow(dead_code)]
struct Typed<'a> {
    #[xml(attribute)]
    at: Option<String>,
    #[xml(attribute, ns("urn:p"))]
    pat: Option<u64>,
    e: Vec<String>,
    n: Vec<u64>,
    #[xml(ns("urn:p"))]
    o: Vec<bool>,
    #[xml(borrow)]
    sub: Vec<Sub<'a>>,
    one: Option<String>,
    inline: Inline,
    choice: Vec<Choice>,
    #[xml(direct)]
    own: Option<String>,
}

#[derive(Debug, FromXml)]
#[xml(rename = "sub", ns("urn:r"))]
#[allow(dead_code)]
struct Sub<'a> {
    #[xml(attribute, borrow)]
    at: Option<Cow<'a, str>>,
    #[xml(borrow)]
    e: Vec<Cow<'a, str>>,
    #[xml(borrow)]
    sub: Vec<Sub<'a>>,
}

#[derive(Debug, FromXml)]
#[xml(transparent)]
#[allow(dead_code)]
struct Inline {
    #[xml(ns("urn:r"))]
    i: Vec<String>,
}

#[derive(Debug, FromXml)]
#[xml(forward)]
#[allow(dead_code)]
enum Choice {
    A(A),
    B(B),
}

#[derive(Debug, FromXml)]
#[xml(rename = "a", ns("urn:r"))]
#[allow(dead_code)]
struct A {
    #[xml(direct)]
    x: Option<String>,
}

#[derive(Debug, FromXml)]
#[xml(rename = "b", ns("urn:r"))]
struct B;

#[derive(Debug, FromXml)]
#[xml(rename = "r", ns("urn:r"))]
struct Ignoring {}

#[derive(Debug, FromXml)]
#[xml(rename = "r", ns("urn:r"))]
#[allow(dead_code)]
struct Borrowing<'a> {
    #[xml(borrow)]
    any: Vec<AnyElement<'a>>,
}

#[derive(Debug, FromXml)]
#[xml(rename = "r", ns("urn:r"))]
#[allow(dead_code)]
struct Scalar(String);

fn pull(de: &mut Deserializer<'_, '_>) -> Result<u64, Error> {
    let mut seen = 0;
    while let Some(node) = de.next() {
        seen += match node? {
            Node::Attribute(a) => {
                let id = de.attribute_id(&a)?;
                id.ns.len() as u64
                    + match seen % 2 {
                        0 => de.for_node(Node::AttributeValue(a.value)).take_str()?.map_or(0, |s| s.len() as u64),
                        _ => 1,
                    }
            }
            Node::Open(e) => {
                let id = de.element_id(&e)?;
                black_box(de.parent());
                id.name.len() as u64 + pull(&mut de.nested(e))?
            }
            Node::Text(t) => t.len() as u64,
            _ => 0,
        };
    }
    Ok(seen)
}

type Reader = fn(&str) -> bool;

fn read<'a, T: FromXml<'a>>(xml: &'a str) -> bool {
    black_box(&from_str::<T>(xml)).is_ok()
}

const READERS: &[(&str, Reader)] = &[
    ("any", |xml| black_box(&from_str::<AnyElement>(xml)).is_ok()),
    ("typed", |xml| black_box(&from_str::<Typed>(xml)).is_ok()),
    ("borrowing", |xml| black_box(&from_str::<Borrowing>(xml)).is_ok()),
    ("scalar", |xml| read::<Scalar>(xml)),
    ("ignoring", |xml| read::<Ignoring>(xml)),
    ("pulled", |xml| match Deserializer::new(xml) {
        Ok(mut de) => black_box(pull(&mut de)).is_ok(),
        Err(_) => false,
    }),
    ("skipped", |xml| match Deserializer::new(xml) {
        Ok(mut de) => black_box(de.ignore()).is_ok(),
        Err(_) => false,
    }),
];

// Documents ---------------------------------------------------------------------

fn root(inner: &str) -> String {
    format!(r#"<r xmlns="urn:r" xmlns:p="urn:p">{inner}</r>"#)
}

fn rep(s: &str, n: usize) -> String {
    root(&s.repeat(n))
}

/// `f` of each number
fn each(n: usize, f: impl Fn(usize) -> String) -> String {
    root(&(0..n).map(f).collect::<String>())
}

fn attrs(n: usize) -> String {
    (0..n).map(|i| format!(r#" a{i}="v{i}&lt;""#)).collect()
}

fn decls(n: usize) -> String {
    (0..n).map(|i| format!(r#" xmlns:q{i}="urn:q:{i}""#)).collect()
}

fn nested(s: &str, depth: usize) -> String {
    format!("{}{}", format!("<{s}>").repeat(depth), format!("</{s}>").repeat(depth))
}

/// Far down, though within the limits
const DEEP: usize = 24;

/// That there are no more declarations in the end must not matter to the average
fn pad() -> String {
    format!("<!--{}-->", "-x".repeat(24))
}

/// Declarations on every level around this, the more the larger `n` is
fn around(n: usize, inner: &str) -> String {
    let open = format!("<d{}>", decls((n / 32).min(30)));
    let inner = inner.replace('\n', &pad());
    root(&format!("{}{inner}{}", open.repeat(DEEP), "</d>".repeat(DEEP)))
}

type Doc = (&'static str, &'static [&'static str], fn(usize) -> String);

const ALL: &[&str] = &["any", "typed", "borrowing", "ignoring", "pulled", "skipped"];
const TEXT: &[&str] = &["any", "typed", "scalar", "pulled", "skipped"];

const DOCS: &[Doc] = &[
    ("text", TEXT, |n| rep("some plain text ", n)),
    ("non-ASCII text", TEXT, |n| rep("é漢😀 ", n)),
    ("named references", TEXT, |n| rep("&amp;x", n)),
    ("numeric references", TEXT, |n| rep("&#65;&#x1F600;", n)),
    ("CDATA sections", TEXT, |n| rep("<![CDATA[<&]]>", n)),
    ("empty CDATA sections", TEXT, |n| rep("<![CDATA[]]>", n)),
    ("text and comments", TEXT, |n| rep("x<!-- c -->", n)),
    ("text and CDATA", TEXT, |n| rep("x&lt;<![CDATA[y]]>", n)),
    ("comments", ALL, |n| rep("<!-- c -->", n)),
    ("comments around an element", ALL, |n| {
        let c = "<!-- c -->".repeat(n / 2);
        root(&format!("{c}<e>x</e>{c}"))
    }),
    ("one comment", ALL, |n| root(&format!("<!--{}-->", " some comment".repeat(n)))),
    ("one CDATA section", TEXT, |n| root(&format!("<![CDATA[{}]]>", "]] > ".repeat(n)))),
    ("white space", ALL, |n| rep("  \n\t", n)),
    ("known elements", ALL, |n| rep("<e>some text</e>", n)),
    ("known empty elements", ALL, |n| rep("<e/>", n)),
    ("references in elements", ALL, |n| rep("<e>a&amp;b</e>", n)),
    ("split text in elements", ALL, |n| rep("<e>a<!-- --><![CDATA[b]]>c</e>", n)),
    ("numbers", ALL, |n| each(n, |i| format!("<n>{i}</n><p:o>true</p:o>"))),
    ("white space between elements", &["any", "borrowing", "ignoring", "pulled", "skipped"], |n| rep("\n  <e>x</e>", n)),
    ("mixed content", &["any", "borrowing", "ignoring", "pulled", "skipped"], |n| rep("text<e/>", n)),
    ("elements of all kinds", ALL, |n| {
        rep(r#"<e/><n>1</n><p:o>1</p:o><sub at="x"/><i>x</i><a/><b/><unknown/>"#, n)
    }),
    ("structures", ALL, |n| rep(r#"<sub at="&lt;"><e>1</e><sub/><e>2</e></sub>"#, n)),
    ("choices", ALL, |n| rep("<a>x</a><b/>", n)),
    ("inlined elements", ALL, |n| rep("<i>x</i>", n)),
    ("unknown elements", ALL, |n| rep("<x:u xmlns:x='urn:x'>t<y>z</y></x:u>", n)),
    ("unknown names", ALL, |n| each(n, |i| format!("<u{i} b{i}='1'/>"))),
    ("new prefixes", ALL, |n| each(n, |i| format!("<q{i}:e xmlns:q{i}='urn:r'>x</q{i}:e>"))),
    ("new namespaces", ALL, |n| each(n, |i| format!("<e xmlns='urn:{i}'>x</e>"))),
    ("deep unknown trees", ALL, |n| rep(&nested("x", DEEP), n / 16)),
    ("deep structures", ALL, |n| rep(&nested("sub", DEEP), n / 16)),
    ("elements deep within", &["any", "ignoring", "pulled", "skipped"], |n| {
        root(&format!("{}{}{}", "<d xmlns:z='urn:z'>".repeat(DEEP), "<p:e/>".repeat(n), "</d>".repeat(DEEP)))
    }),
    ("declarations around elements", &["any", "ignoring", "pulled", "skipped"], |n| around(n, &"<e/>\n".repeat(n))),
    ("declarations around structures", ALL, |n| {
        let some = decls((n / 32).min(28));
        format!("<r xmlns='urn:r'{some}>{}</r>", format!("<sub{some}>{}</sub>", format!("<e>x</e>{}", pad()).repeat(n / 8)).repeat(8))
    }),
    ("declarations around attributes", &["any", "ignoring", "pulled", "skipped"], |n| {
        around(n, &"<e q1:a='x' q3:a='&lt;'/>\n".repeat(n))
    }),
    ("declarations around prefixes", &["any", "ignoring", "pulled", "skipped"], |n| {
        around(n, &"<q2:e p:a='x'><q0:e/></q2:e>\n".repeat(n))
    }),
    ("declarations around declarations", &["any", "ignoring", "pulled", "skipped"], |n| {
        around(n, &format!("<e{}/>\n", decls(4)).repeat(n))
    }),
    ("attributes around elements", ALL, |n| {
        format!("<r xmlns='urn:r'{}>{}</r>", attrs((n / 16).min(60)), "<e/>".repeat(n))
    }),
    ("elements with many attributes", ALL, |n| rep(&format!("<e{}/>", attrs(60)), n / 64)),
    ("structures with many attributes", ALL, |n| rep(&format!("<sub{}/>", attrs(60)), n / 64)),
    ("elements with many declarations", ALL, |n| rep(&format!("<e{} q7:x='1'/>", decls(14)), n / 16)),
    ("a long attribute", ALL, |n| {
        root(&format!("<sub at='{}'/>", "attribute value ".repeat(n)))
    }),
    ("references in an attribute", ALL, |n| root(&format!("<sub at='{}'/>", "&quot;&#10;x".repeat(n)))),
    ("a long unknown attribute", ALL, |n| root(&format!("<sub zz='{}'/>", "&quot;&#10;x".repeat(n)))),
    ("a long attribute of the root", ALL, |n| {
        format!("<r xmlns='urn:r' at='{}'/>", "attribute&#32;value ".repeat(n))
    }),
    ("a long element name", ALL, |n| root(&format!("<{}/>", "name-".repeat(n)))),
    ("a long prefix", ALL, |n| {
        let p = "p-".repeat(n);
        root(&format!("<{p}:e xmlns:{p}='urn:r'>x</{p}:e>"))
    }),
    ("a long namespace", ALL, |n| root(&format!("<e xmlns='{}'>x</e>", "urn:r".repeat(n)))),
    ("white space within tags", ALL, |n| rep("<sub   \n  at = 'x' \t ></sub \n >", n)),
    ("comments before the root", ALL, |n| format!("{}{}", "<!-- c -->\n".repeat(n), root("<e/>"))),
    ("comments after the root", ALL, |n| format!("{}{}", root("<e/>"), "<!-- c -->\n<?pi x?>".repeat(n))),
    // Those that fail
    ("no end tag", ALL, |n| rep("<e>x</e>", n).replace("</r>", "")),
    ("no end tags", ALL, |n| rep("<e>x</e>", n).replace("</r>", "<e><e>")),
    ("an error at the end", ALL, |n| rep("<e>x</e>", n).replace("</r>", "<e & /></r>")),
    ("an error after text", TEXT, |n| rep("x&lt;<!-- -->", n).replace("</r>", "<?pi?></r>")),
    ("a bad reference at the end", TEXT, |n| rep("x&lt;", n).replace("</r>", "&bad;</r>")),
    ("an endless reference", TEXT, |n| root(&format!("&{}", "amp".repeat(n)))),
    ("a bad number", ALL, |n| root(&format!("<n>{}</n>", "123".repeat(n)))),
    ("many zeros", ALL, |n| root(&format!("<n>{}1</n>", "000".repeat(n)))),
    ("something after the root", ALL, |n| format!("{}{}", root("<e/>"), "text &amp; more ".repeat(n))),
];

/// Beyond what the default limits allow
const UNLIMITED: &[(&str, fn(usize) -> String)] = &[
    ("any number of attributes", |n| root(&format!("<e{}/>", attrs(n)))),
    ("any number of attributes twice", |n| root(&format!("<e{}/>", attrs(n / 2)).repeat(2))),
    ("any number of declarations", |n| root(&format!("<e{}/>", decls(n)))),
];

fn unlimited(xml: &str) -> Result<Deserializer<'_, '_>, Error> {
    let mut limits = Limits::default();
    limits.max_attributes = usize::MAX;
    limits.max_ns_declarations = usize::MAX;
    Deserializer::new(xml).map(|de| de.with_limits(limits))
}

fn any(xml: &str) -> bool {
    unlimited(xml).and_then(|mut de| de.deserialize::<AnyElement>()).is_ok_and(|v| black_box(v).children.len() > 0)
}

fn pulled(xml: &str) -> bool {
    unlimited(xml).and_then(|mut de| pull(&mut de)).is_ok()
}

fn skipped(xml: &str) -> bool {
    unlimited(xml).and_then(|mut de| de.ignore()).is_ok()
}

const Q: &str = "urn:q";

// Writers ------------------------------------------------------------------------

#[derive(ToXml)]
#[xml(rename = "r", ns("urn:r", p = "urn:p"))]
struct Out {
    #[xml(attribute)]
    at: String,
    e: Vec<String>,
    #[xml(ns("urn:p"))]
    n: Vec<u64>,
    sub: Vec<OutSub>,
    one: Option<String>,
}

impl Out {
    fn new() -> Self {
        Out { at: String::new(), e: Vec::new(), n: Vec::new(), sub: Vec::new(), one: None }
    }
}

#[derive(Clone, ToXml)]
#[xml(rename = "sub", ns("urn:s", q = Q, w = "urn:w"))]
struct OutSub {
    #[xml(attribute, ns(Q))]
    at: Option<u8>,
    #[xml(ns("urn:p"))]
    x: Option<u8>,
    sub: Vec<OutSub>,
}

struct Pieces(usize);

impl fmt::Display for Pieces {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for _ in 0..self.0 {
            f.write_str("a<")?;
        }
        Ok(())
    }
}

impl ToXml for Pieces {
    fn serialize<W: fmt::Write + ?Sized>(&self, field: Option<Id<'_>>, ser: &mut Serializer<'_, W>) -> Result<(), Error> {
        instant_xml::display_to_xml(&self.0, field, ser)?;
        instant_xml::display_to_xml(self, field, ser)
    }
}

#[derive(ToXml)]
struct Shown {
    x: Pieces,
    #[xml(attribute)]
    y: Pieces,
}

fn writes<T: ToXml + 'static>(v: T) -> (usize, Op) {
    // Up to the error, if there is one
    let mut out = String::new();
    let _ = to_writer(&v, &mut out);
    (out.len(), Box::new(move || black_box(&to_string(&v)).is_ok()))
}

/// Every prefix again at every sibling
fn by_hand(n: usize, nested: bool) -> Result<String, Error> {
    let mut out = String::new();
    let mut ser = Serializer::new(&mut out);
    let cx = |i: usize| {
        let mut cx = Context::<2>::default();
        cx.default_ns = ["urn:a", "urn:b", ""][i % 3];
        cx.prefixes = [
            Prefix { ns: ["urn:c", "urn:d"][i % 2], prefix: ["p", "q", "w"][i % 3] },
            Prefix { ns: ["urn:e", "urn:d", "urn:f"][i % 3], prefix: ["y", "q"][i % 2] },
        ];
        cx.force_prefix = i % 5 == 0;
        cx
    };
    let root = ser.write_start("r", "", Some(cx(0)))?;
    ser.end_start()?;
    let mut open = Vec::new();
    for i in 0..n {
        let c = cx(i);
        let ns = c.default_ns;
        let e = ser.write_start("e", ns, Some(c))?;
        ser.write_attr("a", "", "x")?;
        if i % 4 == 3 && !nested {
            ser.end_empty()?;
            continue;
        }
        ser.end_start()?;
        if nested {
            open.push(e);
        } else {
            ser.write_str("text")?;
            ser.write_close(e)?;
        }
    }
    while let Some(e) = open.pop() {
        ser.write_close(e)?;
    }
    ser.write_close(root)?;
    Ok(out)
}

fn nest(depth: usize, leaf: usize) -> OutSub {
    let mut s = OutSub { at: Some(1), x: Some(2), sub: vec![OutSub { at: None, x: Some(1), sub: vec![] }; leaf] };
    for _ in 0..depth {
        s = OutSub { at: Some(1), x: None, sub: vec![s] };
    }
    s
}

type Written = (&'static str, fn(usize) -> (usize, Op));

const WRITTEN: &[Written] = &[
    ("write text", |n| writes(Out { one: Some("some plain text ".repeat(n)), ..Out::new() })),
    ("write markup", |n| writes(Out { one: Some("<&>\"'".repeat(n)), ..Out::new() })),
    ("write non-ASCII", |n| writes(Out { one: Some("é漢😀<".repeat(n)), ..Out::new() })),
    ("write an attribute", |n| writes(Out { at: "x<&>\"'\n".repeat(n), ..Out::new() })),
    ("write strings", |n| writes(Out { e: vec!["some &".into(); n], ..Out::new() })),
    ("write empty strings", |n| writes(Out { e: vec![String::new(); n], ..Out::new() })),
    ("write numbers", |n| writes(Out { n: (0..n as u64).collect(), ..Out::new() })),
    ("write structures", |n| writes(Out { sub: vec![nest(1, 1); n], ..Out::new() })),
    ("write structures deep within", |n| writes(Out { sub: vec![nest(60, n)], ..Out::new() })),
    ("write deep structures", |n| writes(Out { sub: vec![nest(60, 1); n / 64], ..Out::new() })),
    ("write displayed pieces", |n| writes(Shown { x: Pieces(n), y: Pieces(n) })),
    ("write an error at the end", |n| writes(Out { e: vec!["some <".into(); n], one: Some("\0".into()), ..Out::new() })),
    ("write an illegal character at the end", |n| {
        let text = "ab<".repeat(n) + "\0";
        (text.len(), Box::new(move || black_box(&to_string(&Out { one: Some(text.clone()), ..Out::new() })).is_ok()))
    }),
    ("write elements by hand", |n| {
        (by_hand(n, false).unwrap().len(), Box::new(move || black_box(&by_hand(n, false)).is_ok()))
    }),
    ("write nested elements by hand", |n| {
        (by_hand(n, true).unwrap().len(), Box::new(move || black_box(&by_hand(n, true)).is_ok()))
    }),
];

pub fn families() -> Vec<Family> {
    let mut all = Vec::new();
    for &(doc, readers, make) in DOCS {
        for &(reader, read) in READERS.iter().filter(|r| readers.contains(&r.0)) {
            all.push(Family {
                name: Box::leak(format!("{doc}/{reader}").into_boxed_str()),
                make: Box::new(move |n| {
                    let xml = make(n);
                    (xml.len(), Box::new(move || black_box(read(&xml))))
                }),
            });
        }
    }
    for &(doc, make) in UNLIMITED {
        for &(reader, read) in &[("any", any as Reader), ("pulled", pulled), ("skipped", skipped)] {
            all.push(Family {
                name: Box::leak(format!("{doc}/{reader}").into_boxed_str()),
                make: Box::new(move |n| {
                    let xml = make(n);
                    (xml.len(), Box::new(move || black_box(read(&xml))))
                }),
            });
        }
    }
    for &(name, make) in WRITTEN {
        all.push(Family { name, make: Box::new(make) });
    }
    all
}
