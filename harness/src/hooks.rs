//! Custom `deserialize_with` and `serialize_with` functions (C24): every call is recorded and
//! compared to the document, and types are compared to twins without hooks.

use std::borrow::Cow;
use std::cell::RefCell;
use std::fmt;

use instant_xml::ser::Context;
use instant_xml::{from_str, to_string, to_writer, AnyElement, Deserializer, Error, FromXml, Id, Serializer, ToXml};

use crate::infoset::{Elem, Kid, Kind, Node};
use crate::model::arb_string;
use crate::mutate;
use crate::refxml;
use crate::render::{render, Style};
use crate::rng::Rng;
use crate::runner::{Campaign, Cx};
use crate::trees::{same, short_text};

pub const H: &str = "urn:h";
pub const P: &str = "urn:p";

#[derive(Default)]
struct State {
    calls: Vec<String>,
    /// The call that fails
    fail_at: Option<usize>,
    /// Hooks return without reading to the end of their element
    lazy: bool,
    tree_problem: Option<String>,
    /// What a tree hook should find, one by one
    trees: std::collections::VecDeque<Elem>,
}

thread_local! {
    static STATE: RefCell<State> = RefCell::default();
}

fn start(fail_at: Option<usize>, trees: Vec<Elem>, lazy: bool) {
    STATE.with(|s| *s.borrow_mut() = State { fail_at, lazy, trees: trees.into(), ..State::default() });
}

fn finish() -> State {
    STATE.with(|s| s.take())
}

const FAILURE: &str = "the hook says no";

/// Records a call; the chosen one fails
fn called(what: String) -> Result<(), Error> {
    STATE.with(|s| {
        let mut s = s.borrow_mut();
        s.calls.push(what);
        match s.fail_at == Some(s.calls.len() - 1) {
            true => Err(Error::Other(FAILURE.into())),
            false => Ok(()),
        }
    })
}

/// Reads the rest of the element, or leaves it
fn rest(de: &mut Deserializer<'_, '_>) -> Result<(), Error> {
    match STATE.with(|s| s.borrow().lazy) {
        true => Ok(()),
        false => de.ignore(),
    }
}

type Acc<'xml, T> = <T as FromXml<'xml>>::Accumulator;

// What the hooks do --------------------------------------------------------

/// Repeated text elements; leaves its mark on the value
fn take_text<'xml>(acc: &mut Acc<'xml, Vec<String>>, field: &'static str, de: &mut Deserializer<'_, 'xml>) -> Result<(), Error> {
    let at = de.parent();
    let text = de.take_str()?.unwrap_or_default();
    called(format!("{field} {{{}}}{} {text:?} after {}", at.ns, at.name, acc.len()))?;
    acc.push(format!("hook:{text}"));
    rest(de)
}

/// Sees the call and nothing else
fn skip<'xml>(acc: &mut Acc<'xml, Vec<u32>>, field: &'static str, de: &mut Deserializer<'_, 'xml>) -> Result<(), Error> {
    let at = de.parent();
    called(format!("{field} {{{}}}{} after {}", at.ns, at.name, acc.len()))?;
    acc.push(7);
    rest(de)
}

/// Captures all there is
fn take_tree<'xml>(acc: &mut Acc<'xml, Vec<u64>>, field: &'static str, de: &mut Deserializer<'_, 'xml>) -> Result<(), Error> {
    let at = de.parent();
    called(format!("{field} {{{}}}{} after {}", at.ns, at.name, acc.len()))?;
    let mut any = None;
    AnyElement::deserialize(&mut any, field, de)?;
    let any = any.ok_or(Error::MissingTag)?;
    STATE.with(|s| {
        let mut s = s.borrow_mut();
        let result = match s.trees.pop_front() {
            Some(e) => same(&any, &e),
            None => Err("more elements than the document has".into()),
        };
        if let Err(e) = result {
            s.tree_problem.get_or_insert(e);
        }
    });
    acc.push(1);
    Ok(())
}

/// A single value, refusing a second one as the documentation shows
fn take_yes<'xml>(acc: &mut Acc<'xml, bool>, field: &'static str, de: &mut Deserializer<'_, 'xml>) -> Result<(), Error> {
    let at = de.parent();
    if acc.is_some() {
        return Err(Error::DuplicateValue(field));
    }
    let Some(text) = de.take_str()? else {
        called(format!("{field} {{{}}}{} none", at.ns, at.name))?;
        return Ok(());
    };
    called(format!("{field} {{{}}}{} {text:?}", at.ns, at.name))?;
    *acc = Some(match text.as_ref() {
        "yes" => true,
        "no" => false,
        other => return Err(Error::UnexpectedValue(format!("not yes or no: {other}"))),
    });
    rest(de)
}

/// An attribute
fn take_mark<'xml>(acc: &mut Acc<'xml, Option<String>>, field: &'static str, de: &mut Deserializer<'_, 'xml>) -> Result<(), Error> {
    let at = de.parent();
    let text = de.take_str()?.unwrap_or_default();
    called(format!("{field} {{{}}}{} {text:?}", at.ns, at.name))?;
    *acc.get_mut() = Some(format!("hook:{text}"));
    Ok(())
}

fn take_size<'xml>(acc: &mut Acc<'xml, u32>, field: &'static str, de: &mut Deserializer<'_, 'xml>) -> Result<(), Error> {
    let at = de.parent();
    let text = de.take_str()?.unwrap_or_default();
    called(format!("{field} {{{}}}{} {text:?}", at.ns, at.name))?;
    *acc = Some(text.chars().count() as u32);
    Ok(())
}

fn take_cow<'xml, 'a>(acc: &mut Acc<'xml, Cow<'a, str>>, field: &'static str, de: &mut Deserializer<'_, 'xml>) -> Result<(), Error>
where
    'xml: 'a,
{
    let at = de.parent();
    called(format!("{field} {{{}}}{}", at.ns, at.name))?;
    instant_xml::de::borrow_cow_str(acc, field, de)
}

// Types and their twins ---------------------------------------------------

#[derive(Clone, Debug, PartialEq, FromXml)]
#[xml(rename = "h", ns(H, p = P))]
struct Hooked<'a> {
    #[xml(attribute)]
    plain: Option<String>,
    #[xml(attribute, deserialize_with = "take_mark")]
    mark: Option<String>,
    before: Option<u32>,
    #[xml(deserialize_with = "take_text")]
    text: Vec<String>,
    #[xml(attribute, ns(P), deserialize_with = "crate::hooks::take_size", rename = "mark")]
    size: u32,
    list: Vec<String>,
    #[xml(rename = "skip-me", ns(P), deserialize_with = "self::skip")]
    skipped: Vec<u32>,
    sub: Vec<Sub>,
    #[xml(deserialize_with = "take_tree")]
    tree: Vec<u64>,
    #[xml(deserialize_with = "take_yes")]
    yes: bool,
    #[xml(borrow, deserialize_with = "take_cow")]
    cow: Cow<'a, str>,
    inline: Inline,
    choice: Option<Choice>,
    #[xml(direct)]
    own: String,
}

#[derive(Clone, Debug, PartialEq, FromXml)]
#[xml(rename = "sub", ns(H))]
struct Sub {
    #[xml(deserialize_with = "take_text")]
    text: Vec<String>,
    #[xml(attribute, deserialize_with = "take_mark")]
    mark: Option<String>,
    other: Option<String>,
}

#[derive(Clone, Debug, PartialEq, FromXml)]
#[xml(transparent)]
struct Inline {
    #[xml(ns(H), deserialize_with = "take_text", rename = "in-text")]
    text: Vec<String>,
    #[xml(ns(H))]
    plain: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, FromXml)]
#[xml(forward)]
enum Choice {
    One(One),
    Two(Box<Two>),
}

#[derive(Clone, Debug, PartialEq, FromXml)]
#[xml(rename = "one")]
struct One {
    #[xml(deserialize_with = "take_text")]
    text: Vec<String>,
}

#[derive(Clone, Debug, PartialEq, FromXml)]
#[xml(rename = "two")]
struct Two {
    #[xml(deserialize_with = "skip")]
    text: Vec<u32>,
}

/// Only what has no hook
#[derive(Clone, Debug, PartialEq, FromXml)]
#[xml(rename = "h", ns(H))]
struct Plain {
    #[xml(attribute)]
    plain: Option<String>,
    before: Option<u32>,
    list: Vec<String>,
    sub: Vec<PlainSub>,
    #[xml(rename = "plain")]
    inline: Vec<u8>,
    #[xml(direct)]
    own: String,
}

#[derive(Clone, Debug, PartialEq, FromXml)]
#[xml(rename = "sub", ns(H))]
struct PlainSub {
    other: Option<String>,
}

impl Hooked<'_> {
    fn plain(&self) -> Plain {
        Plain {
            plain: self.plain.clone(),
            before: self.before,
            list: self.list.clone(),
            sub: self.sub.iter().map(|s| PlainSub { other: s.other.clone() }).collect(),
            inline: self.inline.plain.clone(),
            own: self.own.clone(),
        }
    }
}

// Documents -----------------------------------------------------------------

fn text_elem(r: &mut Rng, ns: &str, name: &str) -> Elem {
    let mut e = Elem::new(ns, name, Kind::Scalar);
    if r.chance(85) {
        e = e.text(&arb_string(r));
    }
    e.kids.retain(|k| !matches!(&k.node, Node::T(t) if t.is_empty()));
    e
}

fn tree_elem(r: &mut Rng) -> Elem {
    let mut budget = r.range(1, 12) as i32;
    let mut e = crate::trees::tree(r, &mut budget, 4);
    (e.ns, e.name) = (H.into(), "tree".into());
    e
}

/// A document for `Hooked`, perhaps without something it needs or with something it refuses
fn document(r: &mut Rng) -> Elem {
    let mut e = Elem::new(H, "h", Kind::Direct);
    if r.chance(60) {
        e = e.attr("", "plain", &short_text(r));
    }
    if r.chance(60) {
        e = e.attr("", "mark", &arb_string(r));
    }
    if r.chance(95) {
        e = e.attr(P, "mark", &arb_string(r));
    }
    let mut kids = Vec::new();
    let mut slot = 0;
    let mut put = |r: &mut Rng, min: usize, max: usize, f: &mut dyn FnMut(&mut Rng) -> Elem| {
        slot += 1;
        for _ in 0..r.range(min, max) {
            let mut k = Kid::new(Node::E(f(r)));
            k.slot = slot;
            kids.push(k);
        }
    };
    put(r, 0, 1, &mut |r| Elem::new(H, "before", Kind::Scalar).text(&r.below(100).to_string()));
    put(r, 0, 4, &mut |r| text_elem(r, H, "text"));
    put(r, 0, 3, &mut |r| text_elem(r, H, "list"));
    put(r, 0, 3, &mut |r| {
        let mut e = text_elem(r, P, "skip-me");
        if r.chance(40) {
            e = e.child(tree_elem(r));
        }
        e.kind = Kind::Unknown;
        e
    });
    put(r, 0, 3, &mut |r| {
        let mut e = Elem::new(H, "sub", Kind::Struct);
        if r.chance(60) {
            e = e.attr("", "mark", &arb_string(r));
        }
        for _ in 0..r.below(3) {
            e = e.child(text_elem(r, H, "text"));
        }
        if r.chance(50) {
            let at = r.below(e.kids.len() + 1);
            let other = Elem::new(H, "other", Kind::Scalar).text("x");
            e.kids.insert(at, Kid::new(Node::E(other)));
        }
        e
    });
    put(r, 0, 3, &mut |r| tree_elem(r));
    let twice = r.chance(4) as usize;
    put(r, 1, 1 + twice, &mut |r| {
        let text = match r.below(30) {
            0 => "maybe",
            1..=15 => "yes",
            _ => "no",
        };
        Elem::new(H, "yes", Kind::Scalar).text(text)
    });
    put(r, 1, 1, &mut |r| text_elem(r, H, "cow"));
    put(r, 0, 3, &mut |r| text_elem(r, H, "in-text"));
    put(r, 0, 3, &mut |r| Elem::new(H, "plain", Kind::Scalar).text(&r.below(256).to_string()));
    put(r, 0, 1, &mut |r| {
        let mut e = Elem::new("", *r.pick(&["one", "two"]), Kind::Struct);
        for _ in 0..r.below(3) {
            e = e.child(text_elem(r, "", "text"));
        }
        e
    });
    e.kids = kids;
    if r.chance(70) {
        let t = short_text(r);
        if !t.is_empty() {
            let mut k = Kid::text(t);
            k.slot = 99;
            e.kids.push(k);
        }
    }
    e
}

// What the calls should be --------------------------------------------------

struct Expected {
    calls: Vec<String>,
    trees: Vec<Elem>,
    /// The call after which the operation must fail by itself
    error: Option<Error>,
    yes: usize,
}

fn expected(doc: &Elem) -> Expected {
    let mut x = Expected { calls: Vec::new(), trees: Vec::new(), error: None, yes: 0 };
    for a in &doc.attrs {
        let field = match (a.ns.as_str(), a.name.as_str()) {
            ("", "mark") => "Hooked::mark",
            (P, "mark") => "Hooked::size",
            _ => continue,
        };
        x.calls.push(format!("{field} {{{H}}}h {:?}", a.value));
    }
    let mut counts = std::collections::BTreeMap::new();
    for k in doc.kids.iter().filter_map(|k| k.elem()) {
        let mut after = |field: &'static str| {
            let n = counts.entry(field).or_insert(0);
            *n += 1;
            *n - 1
        };
        let text = k.own_text();
        let at = format!("{{{}}}{}", k.ns, k.name);
        match (k.ns.as_str(), k.name.as_str()) {
            (H, "text") => x.calls.push(format!("Hooked::text {at} {text:?} after {}", after("Hooked::text"))),
            (H, "in-text") => x.calls.push(format!("Inline::text {at} {text:?} after {}", after("Inline::text"))),
            (P, "skip-me") => x.calls.push(format!("Hooked::skipped {at} after {}", after("Hooked::skipped"))),
            (H, "tree") => {
                x.calls.push(format!("Hooked::tree {at} after {}", after("Hooked::tree")));
                x.trees.push(k.clone());
            }
            (H, "yes") => {
                x.yes += 1;
                if x.yes > 1 {
                    x.error = Some(Error::DuplicateValue("Hooked::yes"));
                    return x;
                }
                x.calls.push(format!("Hooked::yes {at} {text:?}"));
                if !matches!(text.as_str(), "yes" | "no") {
                    x.error = Some(Error::UnexpectedValue(format!("not yes or no: {text}")));
                    return x;
                }
            }
            (H, "cow") => x.calls.push(format!("Hooked::cow {at}")),
            (H, "sub") => {
                for a in k.attrs.iter().filter(|a| a.ns.is_empty() && a.name == "mark") {
                    x.calls.push(format!("Sub::mark {at} {:?}", a.value));
                }
                let texts = k.kids.iter().filter_map(|k| k.elem()).filter(|e| e.ns == H && e.name == "text");
                for (n, e) in texts.enumerate() {
                    x.calls.push(format!("Sub::text {{{H}}}text {:?} after {n}", e.own_text()));
                }
            }
            ("", "one") | ("", "two") => {
                let texts = k.kids.iter().filter_map(|k| k.elem()).filter(|e| e.ns.is_empty() && e.name == "text");
                for (n, e) in texts.enumerate() {
                    x.calls.push(match k.name.as_str() {
                        "one" => format!("One::text {{}}text {:?} after {n}", e.own_text()),
                        _ => format!("Two::text {{}}text after {n}"),
                    });
                }
            }
            _ => {}
        }
    }
    x
}

fn expect_calls(got: &[String], want: &[String], xml: &str) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    let n = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    Err(format!(
        "hook call {n} is {}, not {}\nall: {got:#?}\nxml: {xml}",
        got.get(n).map_or("missing", |s| s),
        want.get(n).map_or("expected", |s| s)
    ))
}

fn marked(e: &Elem, ns: &str, name: &str) -> Vec<String> {
    let kids = e.kids.iter().filter_map(|k| k.elem()).filter(|k| k.ns == ns && k.name == name);
    kids.map(|k| format!("hook:{}", k.own_text())).collect()
}

fn deserialize_with(cx: &mut Cx) -> Result<(), String> {
    let mut m = document(&mut cx.rng);
    mutate::permute(&mut m, &mut cx.rng);
    if cx.rng.chance(40) {
        mutate::add_unknown(&mut m, &mut cx.rng);
    }
    let style = match cx.rng.chance(30) {
        true => Style::PLAIN,
        // White space between elements is a value of the direct field
        false => Style { inter: false, ..Style::random(&mut cx.rng) },
    };
    let xml = render(&m, style, &mut cx.rng);
    cx.input = xml.clone();
    cx.sample(|| xml.clone());
    let doc = refxml::parse(&xml).map_err(|e| format!("harness: {e:?} in {xml}"))?;
    // Beyond the limits
    if doc.max_decls > 32 || doc.max_depth > 32 || doc.max_attrs > 64 {
        return Ok(());
    }
    let x = expected(&doc.root);
    cx.distinct(xml.as_bytes());

    // With one of the hooks failing
    if !x.calls.is_empty() && cx.rng.chance(30) {
        let at = cx.rng.below(x.calls.len());
        start(Some(at), x.trees.clone(), cx.rng.chance(30));
        let result = from_str::<Hooked>(&xml);
        let state = finish();
        expect_calls(&state.calls, &x.calls[..=at], &xml)?;
        if result != Err(Error::Other(FAILURE.into())) {
            return Err(format!("hook call {at} failed, but the result is {result:?}\nxml: {xml}"));
        }
        cx.saw("hooks that failed");
    }

    let lazy = cx.rng.chance(30);
    if lazy {
        cx.saw("documents read by hooks that leave the rest of their element");
    }
    start(None, x.trees.clone(), lazy);
    let result = from_str::<Hooked>(&xml);
    let state = finish();
    expect_calls(&state.calls, &x.calls, &xml)?;
    cx.saw_n("deserialize_with calls", state.calls.len() as u64);
    if let Some(e) = state.tree_problem {
        return Err(format!("a hook saw another element than it was called for: {e}\nxml: {xml}"));
    }
    let twin = from_str::<Plain>(&xml);
    let root = &doc.root;
    if let Some(e) = x.error {
        cx.saw("errors of hooks");
        return match result == Err(e.clone()) {
            true => Ok(()),
            false => Err(format!("the hook's error was {e:?}, the result is {result:?}\nxml: {xml}")),
        };
    }
    let size = root.attrs.iter().find(|a| a.ns == P && a.name == "mark");
    if size.is_none() {
        cx.saw("required hook fields missing");
        return match result {
            Err(_) => Ok(()),
            Ok(v) => Err(format!("a required hook field is missing, but the result is {v:?}\nxml: {xml}")),
        };
    }
    let (value, twin) = match (result, twin) {
        (Ok(v), Ok(t)) => (v, t),
        (Err(_), Err(_)) => return Ok(()),
        (r, t) => return Err(format!("with hooks: {r:?}\nwithout: {t:?}\nxml: {xml}")),
    };
    if value.plain() != twin {
        return Err(format!("other fields differ: with hooks: {value:?}\nwithout: {twin:?}\nxml: {xml}"));
    }
    let mark = root.attrs.iter().find(|a| a.ns.is_empty() && a.name == "mark").map(|a| format!("hook:{}", a.value));
    let count = |ns: &str, name: &str| root.kids.iter().filter_map(|k| k.elem()).filter(|k| k.ns == ns && k.name == name).count();
    let subs: Vec<_> = root.kids.iter().filter_map(|k| k.elem()).filter(|k| k.ns == H && k.name == "sub").collect();
    let ok = value.mark == mark
        && value.size as usize == size.unwrap().value.chars().count()
        && value.text == marked(root, H, "text")
        && value.inline.text == marked(root, H, "in-text")
        && value.skipped == vec![7; count(P, "skip-me")]
        && value.tree == vec![1; count(H, "tree")]
        && marked(root, H, "cow") == [format!("hook:{}", value.cow)]
        && marked(root, H, "yes") == [if value.yes { "hook:yes" } else { "hook:no" }]
        && value.sub.len() == subs.len()
        && value.sub.iter().zip(&subs).all(|(v, e)| v.text == marked(e, H, "text"));
    match ok {
        true => {
            cx.saw("values with hook fields");
            Ok(())
        }
        false => Err(format!("hook fields differ from the document: {value:?}\nxml: {xml}")),
    }
}

// Writing ---------------------------------------------------------------------

fn put<T: ToXml + fmt::Debug, W: fmt::Write + ?Sized>(id: Id<'_>, v: &T, ser: &mut Serializer<'_, W>) -> Result<(), Error> {
    called(format!("{} {v:?} in {:?}", id.name, ser.default_ns()))?;
    v.serialize(Some(id), ser)
}

fn put_one<W: fmt::Write + ?Sized>(v: &String, ser: &mut Serializer<'_, W>) -> Result<(), Error> {
    put(Id { ns: H, name: "one" }, v, ser)
}

fn put_list<W: fmt::Write + ?Sized>(v: &Vec<u8>, ser: &mut Serializer<'_, W>) -> Result<(), Error> {
    put(Id { ns: P, name: "list" }, v, ser)
}

fn put_opt<W: fmt::Write + ?Sized>(v: &Option<Box<u8>>, ser: &mut Serializer<'_, W>) -> Result<(), Error> {
    put(Id { ns: "urn:o", name: "opt" }, v, ser)
}

fn put_sub<W: fmt::Write + ?Sized>(v: &Vec<WriteSub>, ser: &mut Serializer<'_, W>) -> Result<(), Error> {
    put(Id { ns: "", name: "sub" }, v, ser)
}

fn put_in<W: fmt::Write + ?Sized>(v: &u8, ser: &mut Serializer<'_, W>) -> Result<(), Error> {
    put(Id { ns: "", name: "in" }, v, ser)
}

fn put_generic<T: ToXml + fmt::Debug, W: fmt::Write + ?Sized>(v: &T, ser: &mut Serializer<'_, W>) -> Result<(), Error> {
    put(Id { ns: H, name: "generic" }, v, ser)
}

/// Elements of its own making
fn put_made<W: fmt::Write + ?Sized>(v: &(String, u8), ser: &mut Serializer<'_, W>) -> Result<(), Error> {
    called(format!("made {v:?} in {:?}", ser.default_ns()))?;
    let e = ser.write_start("made", H, None::<Context<0>>)?;
    ser.write_attr("n", "", &v.1)?;
    ser.end_start()?;
    v.0.serialize(None, ser)?;
    ser.write_close(e)
}

#[derive(Clone, Debug, ToXml)]
#[xml(rename = "w", ns(H, p = P))]
struct Write {
    #[xml(attribute)]
    at: Option<u8>,
    #[xml(serialize_with = "put_one")]
    one: String,
    plain: Option<String>,
    #[xml(ns(P), serialize_with = "crate::hooks::put_list")]
    list: Vec<u8>,
    #[xml(ns("urn:o"), serialize_with = "put_opt")]
    opt: Option<Box<u8>>,
    other: Vec<u8>,
    #[xml(serialize_with = "self::put_sub")]
    sub: Vec<WriteSub>,
    #[xml(serialize_with = "put_made")]
    made: (String, u8),
    inline: WriteIn,
    #[xml(serialize_with = "put_generic")]
    generic: Option<i8>,
    last: bool,
}

#[derive(Clone, Debug, ToXml)]
#[xml(rename = "sub")]
struct WriteSub {
    #[xml(serialize_with = "put_in")]
    x: u8,
}

#[derive(Clone, Debug, ToXml)]
#[xml(transparent)]
struct WriteIn {
    #[xml(serialize_with = "put_in")]
    x: u8,
    #[xml(ns(H))]
    y: u8,
}

impl Write {
    fn arb(r: &mut Rng) -> Self {
        let n = |r: &mut Rng| r.below(256) as u8;
        Write {
            at: r.chance(50).then(|| n(r)),
            one: arb_string(r),
            plain: r.chance(50).then(|| arb_string(r)),
            list: (0..r.below(4)).map(|_| n(r)).collect(),
            opt: r.chance(50).then(|| Box::new(n(r))),
            other: (0..r.below(4)).map(|_| n(r)).collect(),
            sub: (0..r.below(4)).map(|_| WriteSub { x: n(r) }).collect(),
            made: (arb_string(r), n(r)),
            inline: WriteIn { x: n(r), y: n(r) },
            generic: r.chance(50).then(|| n(r) as i8),
            last: r.chance(50),
        }
    }

    fn calls(&self) -> Vec<String> {
        let mut calls = vec![
            format!("one {:?} in {H:?}", self.one),
            format!("list {:?} in {H:?}", self.list),
            format!("opt {:?} in {H:?}", self.opt),
            format!("sub {:?} in {H:?}", self.sub),
        ];
        calls.extend(self.sub.iter().map(|s| format!("in {:?} in \"\"", s.x)));
        calls.push(format!("made {:?} in {H:?}", self.made));
        calls.push(format!("in {:?} in {H:?}", self.inline.x));
        calls.push(format!("generic {:?} in {H:?}", self.generic));
        calls
    }

    fn model(&self) -> Elem {
        let el = |ns: &str, name: &str, text: &str| {
            let e = Elem::new(ns, name, Kind::Scalar);
            if text.is_empty() { e } else { e.text(text) }
        };
        let mut e = Elem::new(H, "w", Kind::Struct);
        if let Some(at) = self.at {
            e = e.attr("", "at", &at.to_string());
        }
        e = e.child(el(H, "one", &self.one));
        if let Some(s) = &self.plain {
            e = e.child(el(H, "plain", s));
        }
        for n in &self.list {
            e = e.child(el(P, "list", &n.to_string()));
        }
        if let Some(n) = &self.opt {
            e = e.child(el("urn:o", "opt", &n.to_string()));
        }
        for n in &self.other {
            e = e.child(el(H, "other", &n.to_string()));
        }
        for s in &self.sub {
            e = e.child(Elem::new("", "sub", Kind::Struct).child(el("", "in", &s.x.to_string())));
        }
        e = e.child(el(H, "made", &self.made.0).attr("", "n", &self.made.1.to_string()));
        e = e.child(el("", "in", &self.inline.x.to_string()));
        e = e.child(el(H, "y", &self.inline.y.to_string()));
        if let Some(n) = self.generic {
            e = e.child(el(H, "generic", &n.to_string()));
        }
        e.child(el(H, "last", if self.last { "true" } else { "false" }))
    }
}

fn serialize_with(cx: &mut Cx) -> Result<(), String> {
    let v = Write::arb(&mut cx.rng);
    cx.input = format!("{v:?}");
    let want = v.calls();
    start(None, vec![], false);
    let result = to_string(&v);
    let state = finish();
    let xml = result.map_err(|e| format!("to_string failed: {e}\nvalue: {v:?}"))?;
    cx.sample(|| xml.clone());
    cx.distinct(xml.as_bytes());
    expect_calls(&state.calls, &want, &xml)?;
    cx.saw_n("serialize_with calls", want.len() as u64);
    let doc = refxml::parse(&xml).map_err(|e| format!("not namespace-well-formed: {e:?}\nxml: {xml}"))?;
    if doc.root.canon() != v.model().canon() {
        return Err(format!("written XML differs\nwant: {}\ngot:  {}\nxml: {xml}", v.model().canon(), doc.root.canon()));
    }
    // With one of the hooks failing
    let at = cx.rng.below(want.len());
    start(Some(at), vec![], false);
    let mut out = String::new();
    let result = to_writer(&v, &mut out);
    let state = finish();
    expect_calls(&state.calls, &want[..=at], &xml)?;
    cx.saw("hooks that failed");
    if result != Err(Error::Other(FAILURE.into())) {
        return Err(format!("hook call {at} failed, but the result is {result:?}"));
    }
    match xml.starts_with(&out) && out.len() < xml.len() {
        true => Ok(()),
        false => Err(format!("hook call {at} failed, what was written is no prefix\nwant: {xml}\ngot:  {out}")),
    }
}

pub fn campaigns(prop: &str) -> Vec<Campaign> {
    match prop {
        "C24" => vec![
            Campaign::new("hooks/deserialize", 150_000, 1_500_000, deserialize_with),
            Campaign::new("hooks/serialize", 100_000, 1_000_000, serialize_with),
        ],
        _ => vec![],
    }
}
