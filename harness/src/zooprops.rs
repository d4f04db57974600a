//! Campaigns over every root type of the zoo: each compares what the library does with a value
//! or document to the independent model.

use std::fmt;
use std::sync::OnceLock;

use instant_xml::Error;

use crate::infoset::{Card, Elem, Kid, Kind, Node};
use crate::model::{Case, Root};
use crate::mutate;
use crate::refxml;
use crate::render::{render, Style};
use crate::runner::{Campaign, Cx};
use crate::trees::{malform, verdict, Verdict};

static ROOTS: OnceLock<Vec<Root>> = OnceLock::new();

pub fn set_roots(roots: Vec<Root>) {
    assert!(!roots.is_empty());
    let _ = ROOTS.set(roots);
}

pub fn roots() -> &'static [Root] {
    ROOTS.get().expect("roots")
}

/// A root type and an arbitrary value of it
pub fn any(cx: &mut Cx) -> (&'static Root, Box<dyn Case>) {
    let roots = roots();
    // Every type in turn, so that none is left out
    let root = &roots[cx.index as usize % roots.len()];
    let case = root.arb(&mut cx.rng);
    (root, case)
}

pub fn observe(cx: &mut Cx, m: &Elem, xml: &str) {
    cx.input = xml.to_owned();
    cx.sample(|| xml.to_owned());
    let (mut elems, mut attrs, mut text) = (0, 0, 0);
    m.walk(&mut |e| {
        elems += 1;
        attrs += e.attrs.len() as u64;
        text += e.kids.iter().filter(|k| k.elem().is_none()).count() as u64;
    });
    cx.saw_n("elements", elems);
    cx.saw_n("attributes", attrs);
    cx.saw_n("text values", text);
    if elems + attrs + text > 1 {
        cx.distinct(xml.as_bytes());
    }
}

pub fn ser(case: &dyn Case, root: &Root) -> Result<String, String> {
    case.ser().map_err(|e| format!("{}: to_string failed: {e}\nvalue: {}", root.name, case.dbg()))
}

pub fn expect_value(root: &Root, xml: &str, case: &dyn Case, what: &str) -> Result<(), String> {
    match (root.de)(xml) {
        Ok((_, dbg)) if dbg == case.dbg() => Ok(()),
        Ok((_, dbg)) => Err(format!("{}: {what}: value differs\nwant: {}\ngot:  {dbg}\nxml: {xml}", root.name, case.dbg())),
        Err(e) => Err(format!("{}: {what}: from_str failed: {e}\nvalue: {}\nxml: {xml}", root.name, case.dbg())),
    }
}

pub fn expect_model(root: &Root, xml: &str, m: &Elem, what: &str) -> Result<(), String> {
    match (root.de)(xml) {
        Ok((got, _)) if got.canon() == m.canon() => Ok(()),
        Ok((got, _)) => Err(format!("{}: {what}: content differs\nwant: {}\ngot:  {}\nxml: {xml}", root.name, m.canon(), got.canon())),
        Err(e) => Err(format!("{}: {what}: from_str failed: {e}\nwant: {}\nxml: {xml}", root.name, m.canon())),
    }
}

pub fn expect_err(root: &Root, xml: &str, what: &str) -> Result<(), String> {
    match (root.de)(xml) {
        Err(_) => Ok(()),
        Ok((_, dbg)) => Err(format!("{}: {what}: accepted\ngot: {dbg}\nxml: {xml}", root.name)),
    }
}

// C01 -------------------------------------------------------------------

fn roundtrip(cx: &mut Cx) -> Result<(), String> {
    let (root, case) = any(cx);
    let xml = ser(&*case, root)?;
    observe(cx, &case.model(), &xml);
    cx.sample(|| xml.clone());
    expect_value(root, &xml, &*case, "round trip")?;
    cx.saw("values read back equal");
    Ok(())
}

// C02 -------------------------------------------------------------------

fn wellformed(cx: &mut Cx) -> Result<(), String> {
    let (root, case) = any(cx);
    let xml = ser(&*case, root)?;
    observe(cx, &case.model(), &xml);
    cx.sample(|| xml.clone());
    let doc = refxml::parse(&xml)
        .map_err(|e| format!("{}: output is not well-formed: {:?} at byte {}\nxml: {xml}", root.name, e.class, e.pos))?;
    cx.saw_n("elements parsed by the reference parser", doc.root.count() as u64);
    Ok(())
}

// C03 -------------------------------------------------------------------

fn infoset(cx: &mut Cx) -> Result<(), String> {
    let (root, case) = any(cx);
    let xml = ser(&*case, root)?;
    let m = case.model();
    observe(cx, &m, &xml);
    cx.sample(|| m.canon());
    let doc = refxml::parse(&xml).map_err(|e| format!("{}: not namespace-well-formed: {e:?}\nxml: {xml}", root.name))?;
    match doc.root.canon() == m.canon() {
        true => Ok(()),
        false => Err(format!("{}: written XML differs from the type's definition\nwant: {}\ngot:  {}\nxml: {xml}", root.name, m.canon(), doc.root.canon())),
    }
}

// C07 -------------------------------------------------------------------

fn namespaces_in(cx: &mut Cx) -> Result<(), String> {
    let (root, case) = any(cx);
    let m = case.model();
    let style = Style { ns: true, tags: cx.rng.chance(30), outer: cx.rng.chance(10), ..Style::PLAIN };
    let xml = render(&m, style, &mut cx.rng);
    observe(cx, &m, &xml);
    cx.sample(|| xml.clone());
    cx.saw_n("namespace declarations", xml.matches("xmlns").count() as u64);
    expect_value(root, &xml, &*case, "equivalent namespace declarations")
}

/// The same names in other namespaces are other names
fn namespaces_differ(cx: &mut Cx) -> Result<(), String> {
    let (root, case) = any(cx);
    let m = case.model();
    let mut sites = mutate::sites(&m);
    sites.retain(|s| !s.text && matches!(s.card, Card::One | Card::Opt | Card::Many));
    let style = Style { ns: true, ..Style::PLAIN };
    let pick = cx.rng.below(sites.len() + 1);
    let mut changed = m.clone();
    if pick == sites.len() {
        // the root element
        changed.ns = other_ns(cx, &m.ns);
        let xml = render(&changed, style, &mut cx.rng);
        observe(cx, &m, &xml);
        if root.name.starts_with("T") && root_ids_include(root, &changed) {
            return Ok(());
        }
        cx.saw("root elements in another namespace");
        return expect_err(root, &xml, "root element in another namespace");
    }
    let s = sites[pick].clone();
    let e = changed.nth_mut(s.elem).unwrap();
    let own_ns = e.ns.clone();
    if s.attr {
        let taken: Vec<_> = e.attrs.iter().map(|a| (a.ns.clone(), a.name.clone())).collect();
        let a = &mut e.attrs[s.at];
        let ns = match (a.ns.is_empty(), cx.rng.below(3)) {
            // Unprefixed attributes are in no namespace, also where the element has one
            (true, 0) if !own_ns.is_empty() => own_ns,
            (false, 0) => String::new(),
            _ => "urn:zz-unknown".into(),
        };
        if taken.contains(&(ns.clone(), a.name.clone())) || ns == a.ns {
            return Ok(());
        }
        // Another attribute of the type may have just this name: only sure for an unknown one
        if ns != "urn:zz-unknown" {
            return Ok(());
        }
        a.ns = ns;
        cx.saw("attributes in another namespace");
    } else {
        if let Node::E(k) = &mut e.kids[s.at].node {
            k.ns = "urn:zz-unknown".into();
            cx.saw("elements in another namespace");
        }
    }
    let xml = render(&changed, style, &mut cx.rng);
    observe(cx, &m, &xml);
    if s.card == Card::One {
        return expect_err(root, &xml, "required item in another namespace");
    }
    let mut want = m.clone();
    mutate::remove(&mut want, &s);
    expect_model(root, &xml, &want, "optional item in another namespace")
}

/// Forward enums accept several root elements
fn root_ids_include(root: &Root, changed: &Elem) -> bool {
    let mut rng = crate::rng::Rng::new(7);
    (0..64).any(|_| {
        let m = root.arb(&mut rng).model();
        m.ns == changed.ns && m.name == changed.name
    })
}

fn other_ns(cx: &mut Cx, ns: &str) -> String {
    match cx.rng.below(3) {
        0 if !ns.is_empty() => String::new(),
        1 => format!("{ns}/"),
        _ => match ns {
            "urn:a" => "urn:A".into(),
            _ => "urn:a".into(),
        },
    }
}

// C11 -------------------------------------------------------------------

fn split_text(cx: &mut Cx) -> Result<(), String> {
    let (root, case) = any(cx);
    let m = case.model();
    let style = Style { split: true, refs: cx.rng.chance(40), tags: cx.rng.chance(20), ..Style::PLAIN };
    let xml = render(&m, style, &mut cx.rng);
    observe(cx, &m, &xml);
    cx.sample(|| xml.clone());
    cx.saw_n("comments", xml.matches("<!--").count() as u64);
    cx.saw_n("CDATA sections", xml.matches("<![CDATA[").count() as u64);
    expect_value(root, &xml, &*case, "text split by comments and CDATA sections")
}

// C12 -------------------------------------------------------------------

fn reordered(cx: &mut Cx) -> Result<(), String> {
    let (root, case) = any(cx);
    let mut m = case.model();
    if mutate::permute(&mut m, &mut cx.rng) {
        cx.saw("documents reordered");
    }
    let style = match cx.rng.chance(50) {
        true => Style::PLAIN,
        false => Style::random(&mut cx.rng),
    };
    let xml = render(&m, style, &mut cx.rng);
    observe(cx, &m, &xml);
    cx.sample(|| xml.clone());
    expect_value(root, &xml, &*case, "fields in another order")
}

fn unknown_added(cx: &mut Cx) -> Result<(), String> {
    let (root, case) = any(cx);
    let mut m = case.model();
    let n = mutate::add_unknown(&mut m, &mut cx.rng);
    cx.saw_n("unknown elements and attributes added", n as u64);
    if cx.rng.chance(40) {
        mutate::permute(&mut m, &mut cx.rng);
    }
    let style = match cx.rng.chance(50) {
        true => Style::PLAIN,
        false => Style::random(&mut cx.rng),
    };
    let xml = render(&m, style, &mut cx.rng);
    observe(cx, &m, &xml);
    cx.sample(|| xml.clone());
    expect_value(root, &xml, &*case, "unknown elements and attributes")
}

fn spaced(cx: &mut Cx) -> Result<(), String> {
    let (root, case) = any(cx);
    let m = case.model();
    let style = Style { inter: true, outer: true, tags: true, ..Style::random(&mut cx.rng) };
    let xml = render(&m, style, &mut cx.rng);
    observe(cx, &m, &xml);
    cx.sample(|| xml.clone());
    expect_value(root, &xml, &*case, "white space, comments and tag syntax")
}

// C13 -------------------------------------------------------------------

fn site_style(cx: &mut Cx) -> Style {
    match cx.rng.chance(60) {
        true => Style::PLAIN,
        false => Style { split: false, ..Style::random(&mut cx.rng) },
    }
}

fn missing(cx: &mut Cx) -> Result<(), String> {
    let (root, case) = any(cx);
    let m = case.model();
    let mut sites = mutate::sites(&m);
    sites.retain(|s| !s.text && s.card != Card::Group && s.card != Card::Unknown);
    if sites.is_empty() {
        return Ok(());
    }
    let s = cx.rng.pick(&sites).clone();
    let mut without = m.clone();
    mutate::remove(&mut without, &s);
    let style = site_style(cx);
    let xml = render(&without, style, &mut cx.rng);
    observe(cx, &m, &xml);
    cx.sample(|| xml.clone());
    match s.card {
        Card::One => {
            cx.saw("required values removed");
            expect_err(root, &xml, "required value missing")
        }
        _ => {
            cx.saw("optional values removed");
            expect_model(root, &xml, &without, "optional value missing")
        }
    }
}

fn duplicate(cx: &mut Cx) -> Result<(), String> {
    let (root, case) = any(cx);
    let m = case.model();
    let mut sites = mutate::sites(&m);
    sites.retain(|s| s.card != Card::Unknown && !s.text);
    if sites.is_empty() {
        return Ok(());
    }
    let s = cx.rng.pick(&sites).clone();
    let mut twice = m.clone();
    let e = twice.nth_mut(s.elem).unwrap();
    let style = site_style(cx);
    if s.attr {
        let a = e.attrs[s.at].clone();
        let at = cx.rng.below(e.attrs.len() + 1);
        e.attrs.insert(at, a);
        let xml = render(&twice, style, &mut cx.rng);
        observe(cx, &m, &xml);
        cx.saw("attributes repeated");
        return expect_err(root, &xml, "attribute repeated");
    }
    let k = e.kids[s.at].clone();
    // Anywhere after or before, for lists right next to the original
    let at = match s.card {
        Card::Many => s.at,
        _ => cx.rng.below(e.kids.len() + 1),
    };
    e.kids.insert(at, k);
    let xml = render(&twice, style, &mut cx.rng);
    observe(cx, &m, &xml);
    cx.sample(|| xml.clone());
    match s.card {
        Card::Many => {
            cx.saw("list items repeated");
            expect_model(root, &xml, &twice, "list item repeated")
        }
        _ => {
            cx.saw("single values repeated");
            expect_err(root, &xml, "single-valued field given twice")
        }
    }
}

// C17 -------------------------------------------------------------------

/// Refuses to write more than `left` bytes, then records whether it is used again
struct Faulty {
    got: String,
    left: usize,
    /// Write as much as fits before failing
    partial: bool,
    failed: bool,
    after: usize,
    recover: bool,
}

impl fmt::Write for Faulty {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed {
            self.after += 1;
            if !self.recover {
                return Err(fmt::Error);
            }
        } else if s.len() > self.left {
            self.failed = true;
            if self.partial {
                let mut n = self.left;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                self.got.push_str(&s[..n]);
            }
            return Err(fmt::Error);
        }
        self.left = self.left.saturating_sub(s.len());
        self.got.push_str(s);
        Ok(())
    }
}

fn writers(cx: &mut Cx) -> Result<(), String> {
    let (root, case) = any(cx);
    let xml = ser(&*case, root)?;
    observe(cx, &case.model(), &xml);
    if ser(&*case, root)? != xml {
        return Err(format!("{}: two serializations of a value differ", root.name));
    }
    let mut out = String::from("before|");
    case.ser_to(&mut out).map_err(|e| format!("{}: to_writer failed: {e}", root.name))?;
    if out.strip_prefix("before|") != Some(&xml) {
        return Err(format!("{}: to_writer and to_string differ\nwant: {xml}\ngot:  {out}", root.name));
    }
    // Every position for short documents, otherwise a sample
    let points: Vec<usize> = match xml.len() <= 120 || cx.thorough {
        true => (0..xml.len().min(600)).collect(),
        false => (0..60).map(|_| cx.rng.below(xml.len())).collect(),
    };
    for left in points {
        let (partial, recover) = (cx.rng.chance(50), cx.rng.chance(50));
        let mut w = Faulty { got: String::new(), left, partial, failed: false, after: 0, recover };
        let result = case.ser_to(&mut w);
        cx.saw("writer faults injected");
        if !w.failed {
            return Err(format!("{}: wrote less than {left} of {} bytes", root.name, xml.len()));
        }
        match result {
            Err(Error::Format(_)) => {}
            other => return Err(format!("{}: writer failed after {left} bytes, result is {other:?}", root.name)),
        }
        if w.after > 0 {
            return Err(format!("{}: {} more writes after the writer failed at byte {left}", root.name, w.after));
        }
        if !xml.starts_with(&w.got) {
            return Err(format!("{}: output before the fault at {left} is no prefix\nwant: {xml}\ngot:  {}", root.name, w.got));
        }
    }
    // The value is as usable as before
    match ser(&*case, root)? == xml {
        true => Ok(()),
        false => Err(format!("{}: serialization differs after faults", root.name)),
    }
}

// C08, C09 --------------------------------------------------------------

fn broken_document(cx: &mut Cx) -> (&'static Root, String) {
    let (root, case) = any(cx);
    let mut m = case.model();
    if cx.rng.chance(30) {
        mutate::add_unknown(&mut m, &mut cx.rng);
    }
    let style = Style::random(&mut cx.rng);
    let mut xml = render(&m, style, &mut cx.rng);
    for _ in 0..*cx.rng.pick(&[1, 1, 1, 2, 4, 9]) {
        xml = malform(&xml, &mut cx.rng);
    }
    cx.input = xml.clone();
    cx.sample(|| xml.clone());
    cx.distinct(xml.as_bytes());
    (root, xml)
}

fn fuzzed(cx: &mut Cx) -> Result<(), String> {
    let (root, xml) = broken_document(cx);
    match (root.de)(&xml) {
        Ok(_) => cx.saw("broken documents accepted"),
        Err(e) => {
            // Errors can be shown
            let _ = (e.to_string(), format!("{e:?}"));
            cx.saw("broken documents refused");
        }
    }
    // Documents of one type given to another
    let other = cx.rng.pick(roots());
    let _ = (other.de)(&xml);
    Ok(())
}

fn malformed(cx: &mut Cx) -> Result<(), String> {
    let (root, xml) = broken_document(cx);
    match (verdict(&xml), (root.de)(&xml)) {
        (Verdict::Bad(_), Err(_)) => cx.saw("malformed documents refused"),
        (Verdict::Bad(c), Ok((_, dbg))) => {
            return Err(format!("{}: not well-formed ({c:?}) but accepted: {dbg}\nxml: {xml}", root.name))
        }
        _ => cx.saw("changed documents without syntax error"),
    }
    Ok(())
}

fn truncated(cx: &mut Cx) -> Result<(), String> {
    let (root, case) = any(cx);
    let style = Style::random(&mut cx.rng);
    let xml = render(&case.model(), style, &mut cx.rng);
    observe(cx, &case.model(), &xml);
    let cuts: Vec<usize> = xml.char_indices().map(|(i, _)| i).collect();
    for _ in 0..cuts.len().min(40) {
        let cut = &xml[..*cx.rng.pick(&cuts)];
        if let (Verdict::Bad(c), Ok((_, dbg))) = (verdict(cut), (root.de)(cut)) {
            return Err(format!("{}: truncated ({c:?}) but accepted: {dbg}\nxml: {cut}", root.name));
        }
        cx.saw("truncated documents");
    }
    Ok(())
}

// C10 -------------------------------------------------------------------

/// An unknown element at, below or above one of the default limits, anywhere in a document
fn limits(cx: &mut Cx) -> Result<(), String> {
    let (root, case) = any(cx);
    let mut m = case.model();
    let mut places = Vec::new();
    let (mut n, mut depth_at) = (0, Vec::new());
    depths(&m, 1, &mut depth_at);
    m.walk(&mut |e| {
        if matches!(e.kind, Kind::Struct | Kind::Direct | Kind::Unit) {
            places.push(n);
        }
        n += 1;
    });
    if places.is_empty() {
        return Ok(());
    }
    let r = &mut cx.rng;
    let at = *r.pick(&places);
    let (levels, attrs) = match r.chance(50) {
        true => (*r.pick(&[31i32, 32, 32, 33, 33, 34, 60]), 0),
        false => (0, *r.pick(&[63usize, 64, 64, 65, 65, 66, 200])),
    };
    let mut e = Elem::new("urn:zz-unknown", "zz", Kind::Unknown);
    let over = match levels {
        0 => {
            for i in 0..attrs {
                e = e.attr("", &format!("zz{i}"), "v");
            }
            for _ in 0..r.below(3) {
                e = Elem::new("", "zz", Kind::Unknown).child(e);
            }
            attrs > 64
        }
        _ => {
            for _ in 0..(levels - depth_at[at] as i32 - 1).max(0) {
                e = Elem::new("", "zz", Kind::Unknown).child(e);
            }
            levels > 32
        }
    };
    let parent = m.nth_mut(at).unwrap();
    let i = r.below(parent.kids.len() + 1);
    parent.kids.insert(i, Kid::new(Node::E(e)));
    let xml = render(&m, Style { tags: true, ..Style::PLAIN }, r);
    observe(cx, &m, &xml);
    if over {
        cx.saw("documents over a limit");
        return expect_err(root, &xml, "limit exceeded in unknown content");
    }
    cx.saw("documents within the limits");
    match refxml::parse(&xml) {
        Ok(d) if d.max_depth <= 32 && d.max_attrs <= 64 && d.max_decls <= 32 => {
            expect_value(root, &xml, &*case, "document within the limits")
        }
        _ => Ok(()),
    }
}

fn depths(e: &Elem, level: usize, out: &mut Vec<usize>) {
    out.push(level);
    for k in e.kids.iter().filter_map(|k| k.elem()) {
        depths(k, level + 1, out);
    }
}

pub fn campaigns(prop: &str) -> Vec<Campaign> {
    let c = Campaign::new;
    match prop {
        "C01" => vec![c("zoo/roundtrip", 400_000, 6_000_000, roundtrip)],
        "C02" => vec![c("zoo/wellformed", 400_000, 6_000_000, wellformed)],
        "C03" => vec![c("zoo/infoset", 400_000, 6_000_000, infoset)],
        "C07" => vec![
            c("zoo/equivalent", 250_000, 4_000_000, namespaces_in),
            c("zoo/different", 120_000, 2_000_000, namespaces_differ),
        ],
        "C08" => vec![c("zoo/fuzzed", 300_000, 4_000_000, fuzzed)],
        "C09" => vec![
            c("zoo/malformed", 200_000, 3_000_000, malformed),
            c("zoo/truncated", 20_000, 300_000, truncated),
        ],
        "C10" => vec![c("zoo/limits", 60_000, 1_000_000, limits)],
        "C11" => vec![c("zoo/split", 300_000, 4_000_000, split_text)],
        "C12" => vec![
            c("zoo/reordered", 150_000, 2_000_000, reordered),
            c("zoo/unknown", 150_000, 2_000_000, unknown_added),
            c("zoo/spaced", 150_000, 2_000_000, spaced),
        ],
        "C13" => vec![
            c("zoo/missing", 200_000, 3_000_000, missing),
            c("zoo/duplicate", 200_000, 3_000_000, duplicate),
        ],
        "C17" => vec![c("zoo/writers", 60_000, 600_000, writers)],
        _ => vec![],
    }
}
