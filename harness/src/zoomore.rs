//! More campaigns over the zoo: names (C18), enums and transparent structs (C19), direct text (C25).

use std::collections::HashSet;
use std::sync::OnceLock;

use crate::infoset::{Card, Elem, Kid, Kind, Node};
use crate::model::{Case, Root};
use crate::mutate;
use crate::refxml;
use crate::render::{render, Style};
use crate::rng::Rng;
use crate::runner::{Campaign, Cx};
use crate::zooprops::{any, expect_err, expect_model, expect_value, observe, roots, ser};

/// Roots some of whose values satisfy `f`
fn roots_where(cell: &'static OnceLock<Vec<usize>>, f: fn(&Elem) -> bool) -> &'static [usize] {
    cell.get_or_init(|| {
        let mut rng = Rng::new(11);
        let all = roots();
        let found: Vec<_> = (0..all.len()).filter(|i| (0..40).any(|_| f(&all[*i].arb(&mut rng).model()))).collect();
        found
    })
}

fn any_of(cx: &mut Cx, which: &[usize]) -> Option<(&'static Root, Box<dyn Case>)> {
    if which.is_empty() {
        return None;
    }
    let root = &roots()[which[cx.index as usize % which.len()]];
    let case = root.arb(&mut cx.rng);
    Some((root, case))
}

/// Writes the value and reads it back, both judged by the model
fn both_ways(cx: &mut Cx, root: &Root, case: &dyn Case) -> Result<(), String> {
    let xml = ser(case, root)?;
    let m = case.model();
    observe(cx, &m, &xml);
    let doc = refxml::parse(&xml).map_err(|e| format!("{}: not namespace-well-formed: {e:?}\nxml: {xml}", root.name))?;
    if doc.root.canon() != m.canon() {
        return Err(format!("{}: written XML differs from the type's definition\nwant: {}\ngot:  {}\nxml: {xml}", root.name, m.canon(), doc.root.canon()));
    }
    expect_value(root, &xml, case, "round trip")?;
    let style = Style::random(&mut cx.rng);
    let xml = render(&m, style, &mut cx.rng);
    cx.input = xml.clone();
    expect_value(root, &xml, case, "document by the type's definition")
}

// C18 -------------------------------------------------------------------

fn names(cx: &mut Cx) -> Result<(), String> {
    let (root, case) = any(cx);
    both_ways(cx, root, &*case)?;
    cx.saw("values written and read by the documented names");
    Ok(())
}

/// A name that is only nearly the documented one is another name (types of gen/names.py only:
/// there all fields are present, so that all names are known)
fn near_names(cx: &mut Cx) -> Result<(), String> {
    let (root, case) = any(cx);
    let m = case.model();
    let mut changed = m.clone();
    let style = Style::random(&mut cx.rng);
    let (attrs, kids): (HashSet<_>, HashSet<_>) = (
        m.attrs.iter().map(|a| a.name.clone()).collect(),
        m.kids.iter().filter_map(|k| k.elem()).map(|e| e.name.clone()).collect(),
    );
    let what = cx.rng.below(m.attrs.len() + m.kids.len() + 1);
    let name = match what {
        0 => &mut changed.name,
        n if n <= m.attrs.len() => &mut changed.attrs[n - 1].name,
        n => match &mut changed.kids[n - 1 - m.attrs.len()].node {
            Node::E(e) => &mut e.name,
            Node::T(_) => return Ok(()),
        },
    };
    let near = near_name(name, &mut cx.rng);
    let known = match what {
        0 => near == m.name,
        n if n <= m.attrs.len() => attrs.contains(&near),
        _ => kids.contains(&near),
    };
    if known || near.to_lowercase().starts_with("xmlns") {
        return Ok(());
    }
    *name = near;
    let xml = render(&changed, style, &mut cx.rng);
    observe(cx, &changed, &xml);
    cx.saw("nearly right names");
    expect_err(root, &xml, "name other than the documented one")
}

fn near_name(name: &str, r: &mut Rng) -> String {
    let first = name.chars().next().unwrap();
    let rest = &name[first.len_utf8()..];
    let near = match r.below(12) {
        0 => name.to_lowercase(),
        1 => name.to_uppercase(),
        2 => format!("{}{rest}", first.to_uppercase()),
        3 => format!("{}{rest}", first.to_lowercase()),
        4 => name.replace('_', "-"),
        5 => name.replace('-', "_"),
        6 => name.replace(['_', '-', '.'], ""),
        7 => format!("{name}_"),
        8 => format!("{name}1"),
        9 => name[..name.len() - name.chars().last().unwrap().len_utf8()].to_owned(),
        10 => format!("_{name}"),
        _ => format!("{name}.{name}"),
    };
    match near.chars().next() {
        None | Some('0'..='9' | '-' | '.') => format!("{name}x"),
        _ => near,
    }
}

// C19 -------------------------------------------------------------------

static CHOICES: OnceLock<Vec<usize>> = OnceLock::new();
static FORWARD: OnceLock<Vec<usize>> = OnceLock::new();
static TEXTS: OnceLock<Vec<usize>> = OnceLock::new();
static DIRECT: OnceLock<Vec<usize>> = OnceLock::new();

fn any_kid(m: &Elem, f: fn(&Kid) -> bool) -> bool {
    let mut found = false;
    m.walk(&mut |e| found |= e.kids.iter().any(f));
    found
}

fn has_texts(m: &Elem) -> bool {
    let mut found = false;
    m.walk(&mut |e| {
        found |= e.attrs.iter().any(|a| a.about.texts.is_some()) || e.kids.iter().any(|k| k.about.texts.is_some())
    });
    found
}

fn has_forward(m: &Elem) -> bool {
    any_kid(m, |k| k.about.forward)
}

fn choices(cx: &mut Cx) -> Result<(), String> {
    let which = roots_where(&CHOICES, |m| has_texts(m) || any_kid(m, |k| k.about.forward || k.about.transparent));
    let Some((root, case)) = any_of(cx, which) else { return Ok(()) };
    let m = case.model();
    both_ways(cx, root, &*case)?;
    let mut counts = [0; 3];
    m.walk(&mut |e| {
        for k in &e.kids {
            counts[0] += k.about.forward as u64;
            counts[1] += k.about.transparent as u64;
            counts[2] += k.about.texts.is_some() as u64;
        }
        counts[2] += e.attrs.iter().filter(|a| a.about.texts.is_some()).count() as u64;
    });
    cx.saw_n("elements of forward enums", counts[0]);
    cx.saw_n("fields of transparent structs", counts[1]);
    cx.saw_n("texts of scalar enums", counts[2]);
    Ok(())
}

/// (element in document order, child) of all children that satisfy `f`
fn places(m: &Elem, f: fn(&Kid) -> bool) -> Vec<(usize, usize)> {
    let (mut out, mut n) = (Vec::new(), 0);
    m.walk(&mut |e| {
        out.extend(e.kids.iter().enumerate().filter(|(_, k)| f(k)).map(|(i, _)| (n, i)));
        n += 1;
    });
    out
}

/// An element no variant defines in place of a variant's
fn no_variant(cx: &mut Cx) -> Result<(), String> {
    let Some((root, case)) = any_of(cx, roots_where(&FORWARD, has_forward)) else { return Ok(()) };
    let m = case.model();
    let sites = places(&m, |k| k.about.forward && k.elem().is_some());
    if sites.is_empty() {
        return Ok(());
    }
    let (n, i) = *cx.rng.pick(&sites);
    let mut changed = m.clone();
    let parent = changed.nth_mut(n).unwrap();
    let card = parent.kids[i].card;
    let Node::E(e) = &mut parent.kids[i].node else { unreachable!() };
    match cx.rng.below(4) {
        0 => e.ns = "urn:zz-unknown".into(),
        1 => e.name.push_str("zz"),
        2 => e.name = "zz".into(),
        _ => {
            // Nearly the namespace
            e.ns = format!("{}zz", e.ns);
        }
    }
    let style = Style::random(&mut cx.rng);
    let xml = render(&changed, style, &mut cx.rng);
    observe(cx, &changed, &xml);
    if card == Card::Group {
        return Ok(());
    }
    if card == Card::One {
        cx.saw("required variants replaced by other elements");
        return expect_err(root, &xml, "element of no variant");
    }
    cx.saw("optional variants replaced by other elements");
    let mut want = m.clone();
    want.nth_mut(n).unwrap().kids.remove(i);
    expect_model(root, &xml, &want, "element of no variant")
}

/// The root of a forward enum must be one of its variants' elements
fn no_root_variant(cx: &mut Cx) -> Result<(), String> {
    let (root, case) = any(cx);
    let mut m = case.model();
    match cx.rng.below(3) {
        0 => m.ns = "urn:zz-unknown".into(),
        1 => m.name.push_str("zz"),
        _ => m.name = "zz".into(),
    }
    let style = Style::random(&mut cx.rng);
    let xml = render(&m, style, &mut cx.rng);
    observe(cx, &m, &xml);
    cx.saw("documents with another root element");
    expect_err(root, &xml, "root element of no variant")
}

/// Texts next to those of a scalar enum
fn enum_texts(cx: &mut Cx) -> Result<(), String> {
    let Some((root, case)) = any_of(cx, roots_where(&TEXTS, has_texts)) else { return Ok(()) };
    let mut m = case.model();
    let mut sites = Vec::new();
    let mut n = 0;
    m.walk(&mut |e| {
        sites.extend(e.attrs.iter().enumerate().filter(|(_, a)| a.about.texts.is_some()).map(|(i, _)| (n, i, true)));
        sites.extend(e.kids.iter().enumerate().filter(|(_, k)| k.about.texts.is_some()).map(|(i, _)| (n, i, false)));
        n += 1;
    });
    if sites.is_empty() {
        return Ok(());
    }
    let (n, i, attr) = *cx.rng.pick(&sites);
    let e = m.nth_mut(n).unwrap();
    let texts = match attr {
        true => e.attrs[i].about.texts,
        false => e.kids[i].about.texts,
    }
    .unwrap();
    let text = near_text(cx.rng.pick(texts), &mut cx.rng);
    if text.is_empty() {
        return Ok(());
    }
    match attr {
        true => e.attrs[i].value = text.clone(),
        false => match &mut e.kids[i].node {
            Node::E(e) => e.kids = vec![Kid::text(text.clone())],
            Node::T(t) => *t = text.clone(),
        },
    }
    let style = Style::random(&mut cx.rng);
    let xml = render(&m, style, &mut cx.rng);
    observe(cx, &m, &xml);
    match texts.contains(&text.as_str()) {
        true => {
            cx.saw("texts of other variants");
            expect_model(root, &xml, &m, "text of another variant")
        }
        false => {
            cx.saw("texts of no variant");
            expect_err(root, &xml, &format!("text {text:?} of no variant"))
        }
    }
}

fn near_text(text: &str, r: &mut Rng) -> String {
    let first = text.chars().next();
    match r.below(14) {
        0 => text.to_lowercase(),
        1 => text.to_uppercase(),
        2 => format!(" {text}"),
        3 => format!("{text} "),
        4 => format!("{text}{text}"),
        5 => text.trim().to_owned(),
        6 => text.replace('_', "-"),
        7 => text.replace('-', "_"),
        8 => first.map_or(String::new(), |c| text[c.len_utf8()..].to_owned()),
        9 => (*r.pick(&["Active", "X", "0", "1", "InActive", "HTTPServer", "01", "+1", "Za", "\u{0}x", "A1B"])).replace('\0', "_"),
        10 => text.replace("&", "&amp;"),
        11 => text.parse::<u64>().map_or(format!("{text}."), |n| format!("{n:#x}")),
        12 => text.parse::<u64>().map_or(format!("{text}\n"), |n| format!("0{n}")),
        _ => text.to_owned(),
    }
}

// C25 -------------------------------------------------------------------

fn has_direct(m: &Elem) -> bool {
    let mut found = false;
    m.walk(&mut |e| found |= e.kind == Kind::Direct);
    found
}

fn any_direct(cx: &mut Cx) -> Option<(&'static Root, Box<dyn Case>, Elem)> {
    let (root, case) = any_of(cx, roots_where(&DIRECT, has_direct))?;
    let m = case.model();
    let mut counts = [0; 2];
    m.walk(&mut |e| {
        if e.kind == Kind::Direct {
            counts[e.kids.iter().any(|k| k.elem().is_none()) as usize] += 1;
        }
    });
    cx.saw_n("direct fields without text", counts[0]);
    cx.saw_n("direct fields with text", counts[1]);
    (counts[0] + counts[1] > 0).then_some((root, case, m))
}

fn direct(cx: &mut Cx) -> Result<(), String> {
    let Some((root, case, _)) = any_direct(cx) else { return Ok(()) };
    both_ways(cx, root, &*case)
}

/// The text anywhere among the children, with unknown ones in between
fn direct_moved(cx: &mut Cx) -> Result<(), String> {
    let Some((root, case, mut m)) = any_direct(cx) else { return Ok(()) };
    let mut moved = 0;
    let r = &mut cx.rng;
    m.walk_mut(&mut |e| {
        if e.kind != Kind::Direct {
            return;
        }
        if let Some(i) = e.kids.iter().position(|k| k.elem().is_none()) {
            let text = e.kids.remove(i);
            let at = r.below(e.kids.len() + 1);
            e.kids.insert(at, text);
            moved += (at != i) as u64;
        }
        // Text of other elements is none of its business
        for _ in 0..r.below(3) {
            let u = mutate::unknown(r, None, 1);
            let at = r.below(e.kids.len() + 1);
            e.kids.insert(at, Kid::new(Node::E(u)));
        }
    });
    cx.saw_n("direct texts moved", moved);
    let style = match cx.rng.chance(50) {
        true => Style::PLAIN,
        false => Style::random(&mut cx.rng),
    };
    let xml = render(&m, style, &mut cx.rng);
    observe(cx, &m, &xml);
    expect_value(root, &xml, &*case, "direct text elsewhere among the children")
}

/// Text in two places, or a second text next to the first
fn direct_twice(cx: &mut Cx) -> Result<(), String> {
    let Some((root, case, mut m)) = any_direct(cx) else { return Ok(()) };
    let sites = {
        let (mut out, mut n) = (Vec::new(), 0);
        m.walk(&mut |e| {
            if e.kind == Kind::Direct {
                out.extend(e.kids.iter().position(|k| k.elem().is_none()).map(|i| (n, i)));
            }
            n += 1;
        });
        out
    };
    if sites.is_empty() {
        return Ok(());
    }
    let (n, i) = *cx.rng.pick(&sites);
    let e = m.nth_mut(n).unwrap();
    let Node::T(text) = e.kids[i].node.clone() else { unreachable!() };
    let cuts: Vec<_> = text.char_indices().map(|(i, _)| i).skip(1).collect();
    let (a, b) = match cx.rng.below(3) {
        0 if !cuts.is_empty() => {
            let at = *cx.rng.pick(&cuts);
            (text[..at].to_owned(), text[at..].to_owned())
        }
        1 => (text.clone(), "x".to_owned()),
        _ => (text.clone(), text.clone()),
    };
    e.kids.remove(i);
    // With an element in between, known or not
    if e.kids.is_empty() || cx.rng.chance(50) {
        let u = mutate::unknown(&mut cx.rng, None, 1);
        let at = cx.rng.below(e.kids.len() + 1);
        e.kids.insert(at, Kid::new(Node::E(u)));
    }
    let first = cx.rng.below(e.kids.len());
    let second = cx.rng.range(first + 1, e.kids.len());
    e.kids.insert(second, Kid::text(b));
    e.kids.insert(first, Kid::text(a));
    let xml = render(&m, Style { refs: cx.rng.chance(30), tags: cx.rng.chance(30), ..Style::PLAIN }, &mut cx.rng);
    observe(cx, &m, &xml);
    cx.saw("direct texts given in two places");
    expect_err(root, &xml, "direct text in two places").map_err(|e| format!("{e}\nvalue: {}", case.dbg()))
}

/// Without its text a required direct value is missing, unless the empty string is one
fn direct_missing(cx: &mut Cx) -> Result<(), String> {
    let Some((root, _, mut m)) = any_direct(cx) else { return Ok(()) };
    let sites = places(&m, |k| k.elem().is_none() && k.card != Card::Unknown);
    let mut kinds = Vec::new();
    m.walk(&mut |e| kinds.push(e.kind));
    let sites: Vec<_> = sites.into_iter().filter(|(n, _)| kinds[*n] == Kind::Direct).collect();
    if sites.is_empty() {
        return Ok(());
    }
    let (n, i) = *cx.rng.pick(&sites);
    let e = m.nth_mut(n).unwrap();
    let k = e.kids.remove(i);
    if cx.rng.chance(50) {
        // Text, but not its own
        let u = Elem::new("urn:zz-unknown", "zz", Kind::Unknown).text("1");
        e.kids.push(Kid::new(Node::E(u)));
    }
    let mut want = m.clone();
    want.walk_mut(&mut |e| e.kids.retain(|k| k.elem().is_none_or(|e| e.ns != "urn:zz-unknown")));
    let style = match cx.rng.chance(50) {
        true => Style::PLAIN,
        false => Style { tags: true, ns: true, inter: false, ..Style::random(&mut cx.rng) },
    };
    let xml = render(&m, style, &mut cx.rng);
    observe(cx, &m, &xml);
    match k.card == Card::Opt || k.about.empty_ok {
        true => {
            cx.saw("optional direct texts removed");
            expect_model(root, &xml, &want, "direct text removed")
        }
        false => {
            cx.saw("required direct texts removed");
            expect_err(root, &xml, "direct text removed")
        }
    }
}

// C13, C15 --------------------------------------------------------------

#[derive(Clone, Copy, PartialEq)]
pub enum At {
    Attr(usize),
    /// A child element with nothing but the value
    Elem(usize),
    /// Text that is the value of a field itself
    Text(usize),
}

/// Scalar values other than strings: element in document order, place in it, what is known
pub fn scalars(m: &Elem) -> Vec<(usize, At, Card, &'static [&'static str])> {
    let (mut out, mut n) = (Vec::new(), 0);
    m.walk(&mut |e| {
        for (i, a) in e.attrs.iter().enumerate() {
            if a.card != Card::Unknown && !a.about.empty_ok {
                out.push((n, At::Attr(i), a.card, a.about.texts.unwrap_or(&[])));
            }
        }
        for (i, k) in e.kids.iter().enumerate() {
            if k.card == Card::Unknown || k.about.empty_ok {
                continue;
            }
            let texts = k.about.texts.unwrap_or(&[]);
            match &k.node {
                Node::T(_) => out.push((n, At::Text(i), k.card, texts)),
                Node::E(c) if c.kind == Kind::Scalar && c.attrs.is_empty() && !c.kids.is_empty() && c.kids.iter().all(|k| k.elem().is_none() && k.card == Card::Unknown) => {
                    out.push((n, At::Elem(i), k.card, texts));
                }
                Node::E(_) => {}
            }
        }
        n += 1;
    });
    out
}

fn set_scalar(m: &mut Elem, n: usize, at: At, text: &str) {
    let e = m.nth_mut(n).unwrap();
    match at {
        At::Attr(i) => e.attrs[i].value = text.to_owned(),
        At::Elem(i) => {
            if let Node::E(c) = &mut e.kids[i].node {
                c.kids = if text.is_empty() { vec![] } else { vec![Kid::text(text)] };
            }
        }
        At::Text(i) => e.kids[i].node = Node::T(text.to_owned()),
    }
}

/// A value that is none of its type, in any place a type may have it
fn garbage(cx: &mut Cx) -> Result<(), String> {
    let (root, case) = any(cx);
    let mut m = case.model();
    let sites = scalars(&m);
    if sites.is_empty() {
        return Ok(());
    }
    let (n, at, _, texts) = *cx.rng.pick(&sites);
    let text = *cx.rng.pick(&["zz!", "1.2.3", "0x10 x", "TRUE!", "é漢", "12 34", "--1", "1;", "2024-13-01", "24:00", "300.1.1.1"]);
    if texts.contains(&text) {
        return Ok(());
    }
    set_scalar(&mut m, n, at, text);
    let style = Style::random(&mut cx.rng);
    let xml = render(&m, style, &mut cx.rng);
    observe(cx, &m, &xml);
    cx.saw("values replaced by text of no value");
    expect_err(root, &xml, &format!("text {text:?} for a scalar")).map_err(|e| format!("{e}\nvalue: {}", case.dbg()))
}

/// No text where a number or the like is required
fn emptied(cx: &mut Cx) -> Result<(), String> {
    let (root, case) = any(cx);
    let mut m = case.model();
    let mut sites = scalars(&m);
    // An empty element of an optional field may be taken as absent
    sites.retain(|(_, at, card, texts)| {
        !texts.contains(&"") && match at {
            At::Attr(_) => true,
            At::Elem(_) => matches!(card, Card::One | Card::Many),
            At::Text(_) => *card == Card::One,
        }
    });
    if sites.is_empty() {
        return Ok(());
    }
    let (n, at, card, _) = *cx.rng.pick(&sites);
    set_scalar(&mut m, n, at, "");
    let style = Style { inter: false, ..Style::random(&mut cx.rng) };
    let xml = render(&m, style, &mut cx.rng);
    observe(cx, &m, &xml);
    cx.saw(match (at, card) {
        (At::Attr(_), _) => "attributes emptied",
        (_, Card::Many) => "list items emptied",
        _ => "required values emptied",
    });
    expect_err(root, &xml, "empty scalar").map_err(|e| format!("{e}\nvalue: {}", case.dbg()))
}

/// Scalars in other spellings of the same value
fn spellings(cx: &mut Cx) -> Result<(), String> {
    let (root, case) = any(cx);
    let mut m = case.model();
    let mut changed = 0;
    for (n, at, _, texts) in scalars(&m) {
        if !texts.is_empty() {
            continue;
        }
        let e = m.nth_mut(n).unwrap();
        let text = match at {
            At::Attr(i) => e.attrs[i].value.clone(),
            At::Elem(i) => e.kids[i].elem().unwrap().own_text(),
            At::Text(i) => match &e.kids[i].node {
                Node::T(t) => t.clone(),
                Node::E(_) => continue,
            },
        };
        // Not for characters: only where the text is longer than those are
        let other = match text.as_str() {
            "true" => "1".to_owned(),
            "false" => "0".to_owned(),
            t if t.chars().count() > 1 && t.bytes().all(|b| b.is_ascii_digit()) => match cx.rng.below(3) {
                0 => format!("0{t}"),
                1 => format!("+{t}"),
                _ => format!("{}{t}", "0".repeat(cx.rng.range(1, 20))),
            },
            t if t.len() > 2 && t.starts_with('-') && t[1..].bytes().all(|b| b.is_ascii_digit()) => format!("-00{}", &t[1..]),
            t if t.ends_with("+00:00") => t.replace("+00:00", "Z"),
            _ => continue,
        };
        set_scalar(&mut m, n, at, &other);
        changed += 1;
    }
    if changed == 0 {
        return Ok(());
    }
    let style = Style::random(&mut cx.rng);
    let xml = render(&m, style, &mut cx.rng);
    observe(cx, &m, &xml);
    cx.saw_n("values in another spelling", changed);
    expect_value(root, &xml, &*case, "other spellings of scalars")
}

pub fn campaigns(prop: &str) -> Vec<Campaign> {
    let c = Campaign::new;
    let generated_names = roots()[0].name.starts_with('N');
    match prop {
        "C18" if generated_names => {
            vec![c("names/both-ways", 60_000, 1_000_000, names), c("names/near", 100_000, 1_500_000, near_names)]
        }
        "C18" => vec![c("zoo/names", 100_000, 1_500_000, names)],
        "C19" if generated_names => {
            vec![c("names/choices", 30_000, 500_000, choices), c("names/texts", 60_000, 800_000, enum_texts)]
        }
        "C19" => vec![
            c("zoo/choices", 120_000, 2_000_000, choices),
            c("zoo/no-variant", 60_000, 1_000_000, no_variant),
            c("zoo/no-root-variant", 30_000, 500_000, no_root_variant),
            c("zoo/texts", 80_000, 1_000_000, enum_texts),
        ],
        "C13" => vec![c("zoo/emptied", 60_000, 1_000_000, emptied)],
        "C15" => vec![
            c("zoo/garbage", 120_000, 2_000_000, garbage),
            c("zoo/emptied", 60_000, 1_000_000, emptied),
            c("zoo/spellings", 80_000, 1_000_000, spellings),
        ],
        "C25" if generated_names => vec![],
        "C25" => vec![
            c("zoo/direct", 80_000, 1_500_000, direct),
            c("zoo/direct-moved", 80_000, 1_500_000, direct_moved),
            c("zoo/direct-twice", 60_000, 1_000_000, direct_twice),
            c("zoo/direct-missing", 60_000, 1_000_000, direct_missing),
        ],
        _ => vec![],
    }
}
