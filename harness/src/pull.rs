//! Callers that pull nodes from a `Deserializer` on random schedules (C22): what they see is
//! compared to the reference parser's tree.

use std::cell::RefCell;
use std::collections::BTreeMap;

use instant_xml::de::Node as XmlNode;
use instant_xml::{from_str, AnyElement, Deserializer, Error, FromXml, Id, Kind as XmlKind};

use crate::infoset::{Elem, Kid, Kind, Node};
use crate::refxml::{self, XML_NS};
use crate::render::{render, Style};
use crate::rng::Rng;
use crate::runner::{Campaign, Cx};
use crate::trees::{any_tree, same, short_text};

type Scope = BTreeMap<String, String>;

enum Event<'e> {
    Attr(usize),
    Text(String),
    Open(&'e Elem),
}

fn events(e: &Elem) -> Vec<Event<'_>> {
    let mut out: Vec<Event<'_>> = (0..e.attrs.len()).map(Event::Attr).collect();
    for k in &e.kids {
        match (&k.node, out.last_mut()) {
            (Node::T(t), _) if t.is_empty() => {}
            (Node::T(t), Some(Event::Text(last))) => last.push_str(t),
            (Node::T(t), _) => out.push(Event::Text(t.clone())),
            (Node::E(k), _) => out.push(Event::Open(k)),
        }
    }
    out
}

pub struct Walk {
    pub r: Rng,
    pub log: Vec<String>,
    pub steps: BTreeMap<&'static str, u64>,
}

impl Walk {
    pub fn new(r: Rng) -> Self {
        Walk { r, log: Vec::new(), steps: BTreeMap::new() }
    }

    fn step(&mut self, what: &'static str) {
        *self.steps.entry(what).or_default() += 1;
        if self.log.len() < 400 {
            self.log.push(what.to_owned());
        }
    }

    fn at(&self, e: &Elem) -> String {
        format!("in {{{}}}{}", e.ns, e.name)
    }

    /// What the deserializer says about where it is
    fn here(&mut self, de: &Deserializer<'_, '_>, e: &Elem, scope: &Scope) -> Result<(), String> {
        let id = de.parent();
        if id.ns != e.ns || id.name != e.name {
            return Err(format!("{}: parent() is {id:?}", self.at(e)));
        }
        for p in ["a", "ns", "x-1", "p.q", "é", "nope", "xml", "b", "n0"] {
            let want = match p {
                "xml" => Some(XML_NS),
                p => scope.get(p).map(String::as_str),
            };
            if de.namespace(p) != want {
                return Err(format!("{}: namespace({p:?}) is {:?}, not {want:?}", self.at(e), de.namespace(p)));
            }
        }
        Ok(())
    }

    /// The next node that is not an empty text
    fn next<'x>(&mut self, de: &mut Deserializer<'_, 'x>) -> Option<Result<XmlNode<'x>, Error>> {
        loop {
            match de.next() {
                Some(Ok(XmlNode::Text(t))) if t.is_empty() => {}
                other => return other,
            }
        }
    }

    /// Consumes `e`, from event `from` on, in any way a caller may; the deserializer is at its end afterwards
    pub fn element<'x>(&mut self, de: &mut Deserializer<'_, 'x>, e: &Elem, from: usize, outer: &Scope) -> Result<(), String> {
        let mut scope = outer.clone();
        scope.extend(e.decls.iter().cloned());
        let events = events(e);
        let mut i = from;
        loop {
            if self.r.chance(50) {
                self.here(de, e, &scope)?;
            }
            match self.r.below(16) {
                // Skip the rest
                0 => {
                    self.step("ignore()");
                    de.ignore().map_err(|err| format!("{}: ignore(): {err}", self.at(e)))?;
                    return self.end(de, e, &scope);
                }
                // Take text, where that is what comes next (attributes are skipped)
                1 | 2 => {
                    let next = events[i..].iter().position(|ev| !matches!(ev, Event::Attr(_)));
                    let want = match next.map(|n| &events[i + n]) {
                        Some(Event::Text(t)) => Some(t.clone()),
                        None => None,
                        _ => continue,
                    };
                    self.step("take_str()");
                    let mut got = de.take_str().map_err(|err| format!("{}: take_str(): {err}", self.at(e)))?;
                    while got.as_deref() == Some("") {
                        got = de.take_str().map_err(|err| format!("{}: take_str(): {err}", self.at(e)))?;
                    }
                    if got.as_deref() != want.as_deref() {
                        return Err(format!("{}: take_str() is {got:?}, not {want:?}", self.at(e)));
                    }
                    match next {
                        Some(n) => i += n + 1,
                        None => return self.end(de, e, &scope),
                    }
                    continue;
                }
                _ => {}
            }
            self.step("next()");
            let node = match self.next(de) {
                Some(Ok(node)) => node,
                Some(Err(err)) => return Err(format!("{}: {err}", self.at(e))),
                None if i == events.len() => return self.end(de, e, &scope),
                None => return Err(format!("{}: ended before event {i} of {}", self.at(e), events.len())),
            };
            let Some(event) = events.get(i) else {
                return Err(format!("{}: {node:?} after the last event", self.at(e)));
            };
            i += 1;
            match (event, node) {
                (Event::Attr(n), XmlNode::Attribute(a)) => {
                    let want = &e.attrs[*n];
                    let id = de.attribute_id(&a).map_err(|err| format!("{}: attribute_id(): {err}", self.at(e)))?;
                    if id.ns != want.ns || id.name != want.name || a.local != want.name || a.value != want.value {
                        return Err(format!("{}: attribute {a:?} ({id:?}) instead of {want:?}", self.at(e)));
                    }
                    match self.r.below(4) {
                        0 => {
                            self.step("for_node(AttributeValue)");
                            let mut one = de.for_node(XmlNode::AttributeValue(a.value));
                            match self.r.below(3) {
                                0 => match one.take_str() {
                                    Ok(Some(v)) if v == want.value => {}
                                    other => return Err(format!("{}: attribute value {:?} taken as {other:?}", self.at(e), want.value)),
                                },
                                1 => match one.next() {
                                    Some(Ok(XmlNode::AttributeValue(v))) if v == want.value => {}
                                    other => return Err(format!("{}: attribute value {:?} pulled as {other:?}", self.at(e), want.value)),
                                },
                                _ => {
                                    // Left alone: must not turn up anywhere else
                                    drop(one);
                                    continue;
                                }
                            }
                            for _ in 0..self.r.below(3) {
                                if let Some(more) = one.next() {
                                    return Err(format!("{}: {more:?} after an attribute's value", self.at(e)));
                                }
                            }
                        }
                        1 => {
                            self.step("for_node(Attribute)");
                            let name = a.local;
                            let mut again = de.for_node(XmlNode::Attribute(a));
                            match again.next() {
                                Some(Ok(XmlNode::Attribute(a))) if a.local == name => {}
                                other => return Err(format!("{}: attribute {name} again as {other:?}", self.at(e))),
                            }
                            if self.r.chance(30) {
                                // It goes on with the rest of this element
                                self.element(&mut again, e, i, outer)?;
                                drop(again);
                                return self.end(de, e, &scope);
                            }
                        }
                        _ => {}
                    }
                }
                (Event::Text(want), XmlNode::Text(t)) => {
                    if t != *want {
                        return Err(format!("{}: text {t:?} instead of {want:?}", self.at(e)));
                    }
                    match self.r.below(4) {
                        0 => {
                            self.step("for_node(Text)");
                            let mut again = de.for_node(XmlNode::Text(t));
                            match again.take_str() {
                                Ok(Some(v)) if v == *want => {}
                                other => return Err(format!("{}: text {want:?} taken as {other:?}", self.at(e))),
                            }
                            if self.r.chance(30) {
                                self.element(&mut again, e, i, outer)?;
                                drop(again);
                                return self.end(de, e, &scope);
                            }
                        }
                        1 => {
                            self.step("for_node(Text) left alone");
                            drop(de.for_node(XmlNode::Text(t)));
                        }
                        _ => {}
                    }
                }
                (Event::Open(k), XmlNode::Open(el)) => {
                    let id = de.element_id(&el).map_err(|err| format!("{}: element_id(): {err}", self.at(e)))?;
                    if id.ns != k.ns || id.name != k.name {
                        return Err(format!("{}: element {id:?} instead of {{{}}}{}", self.at(e), k.ns, k.name));
                    }
                    if self.r.chance(20) {
                        self.step("for_node(Open)");
                        let mut again = de.for_node(XmlNode::Open(el));
                        let el = match again.next() {
                            Some(Ok(XmlNode::Open(el))) => el,
                            other => return Err(format!("{}: element again as {other:?}", self.at(e))),
                        };
                        self.child(&mut again.nested(el), k, &scope)?;
                        if self.r.chance(30) {
                            self.element(&mut again, e, i, outer)?;
                            drop(again);
                            return self.end(de, e, &scope);
                        }
                        continue;
                    }
                    self.child(&mut de.nested(el), k, &scope)?;
                }
                (_, node) => return Err(format!("{}: {node:?} at event {}", self.at(e), i - 1)),
            }
        }
    }

    fn child(&mut self, de: &mut Deserializer<'_, '_>, k: &Elem, scope: &Scope) -> Result<(), String> {
        match self.r.below(6) {
            0 => {
                self.step("nested ignore()");
                de.ignore().map_err(|err| format!("{}: ignore(): {err}", self.at(k)))?;
                let mut inner = scope.clone();
                inner.extend(k.decls.iter().cloned());
                self.end(de, k, &inner)
            }
            1 => {
                self.step("nested deserialize()");
                let any = de.deserialize::<AnyElement>().map_err(|err| format!("{}: deserialize(): {err}", self.at(k)))?;
                same(&any, k)?;
                let mut inner = scope.clone();
                inner.extend(k.decls.iter().cloned());
                self.end(de, k, &inner)
            }
            _ => {
                self.step("nested");
                self.element(de, k, 0, scope)
            }
        }
    }

    /// There is nothing left, however often one asks
    fn end(&mut self, de: &mut Deserializer<'_, '_>, e: &Elem, _: &Scope) -> Result<(), String> {
        for _ in 0..self.r.below(4) {
            self.step("next() at the end");
            if let Some(more) = de.next() {
                return Err(format!("{}: {more:?} after the end", self.at(e)));
            }
        }
        if self.r.chance(20) {
            match de.take_str() {
                Ok(None) => {}
                other => return Err(format!("{}: take_str() at the end is {other:?}", self.at(e))),
            }
        }
        if self.r.chance(20) {
            de.ignore().map_err(|err| format!("{}: ignore() at the end: {err}", self.at(e)))?;
        }
        let id = de.parent();
        if id.ns != e.ns || id.name != e.name {
            return Err(format!("{}: parent() at the end is {id:?}", self.at(e)));
        }
        Ok(())
    }
}

fn flush(cx: &mut Cx, w: Walk) -> Vec<String> {
    for (k, v) in w.steps {
        cx.saw_n(k, v);
    }
    w.log
}

fn document(cx: &mut Cx) -> Option<(String, Elem)> {
    let m = any_tree(&mut cx.rng);
    let style = match cx.rng.chance(30) {
        true => Style::ALL,
        false => Style::random(&mut cx.rng),
    };
    let xml = render(&m, style, &mut cx.rng);
    cx.input = xml.clone();
    cx.sample(|| xml.clone());
    let doc = refxml::parse(&xml).unwrap_or_else(|e| panic!("renderer: {e:?}: {xml}"));
    if doc.max_depth > 32 || doc.max_attrs > 64 || doc.max_decls > 32 {
        return None;
    }
    if m.count() > 1 {
        cx.distinct(xml.as_bytes());
    }
    Some((xml, doc.root))
}

fn schedules(cx: &mut Cx) -> Result<(), String> {
    let Some((xml, root)) = document(cx) else { return Ok(()) };
    for _ in 0..2 {
        let mut w = Walk::new(Rng::new(cx.rng.next()));
        let result = Deserializer::new(&xml)
            .map_err(|e| e.to_string())
            .and_then(|mut de| w.element(&mut de, &root, 0, &Scope::new()));
        let log = flush(cx, w);
        result.map_err(|e| format!("{e}\nxml: {xml}\nschedule: {}", log.join(", ")))?;
    }
    Ok(())
}

/// What is seen of an element by a caller that looks at the nodes of its children too, or does not
fn seen(e: &Elem, into: bool, out: &mut Vec<String>) {
    for event in events(e) {
        match event {
            Event::Attr(i) => out.push(format!("{}={:?}", e.attrs[i].name, e.attrs[i].value)),
            Event::Text(t) => out.push(format!("{t:?}")),
            Event::Open(k) => {
                out.push(format!("<{}>", k.name));
                if into {
                    seen(k, into, out);
                }
            }
        }
    }
}

/// A caller that does not descend into children, nor skip them: what it gets may be an error, but the element does not end
/// while there is more of it
fn flat(cx: &mut Cx) -> Result<(), String> {
    let Some((xml, root)) = document(cx) else { return Ok(()) };
    let views = [true, false].map(|into| {
        let mut out = Vec::new();
        seen(&root, into, &mut out);
        out
    });
    let mut de = Deserializer::new(&xml).map_err(|e| e.to_string())?;
    let (mut got, mut failed) = (Vec::new(), None);
    while let Some(node) = de.next() {
        match node {
            Ok(XmlNode::Attribute(a)) => got.push(format!("{}={:?}", a.local, a.value)),
            Ok(XmlNode::Text(t)) if t.is_empty() => {}
            Ok(XmlNode::Text(t)) => got.push(format!("{t:?}")),
            // An element name only shows in what it matches
            Ok(XmlNode::Open(e)) => got.push(format!("<{}>", de.element_id(&e).map_err(|e| e.to_string())?.name)),
            Ok(node) => return Err(format!("unexpected node {node:?}\nxml: {xml}")),
            Err(e) => {
                failed = Some(e);
                break;
            }
        }
    }
    let fits = |view: &Vec<String>| match failed {
        Some(_) => view.starts_with(&got),
        None => *view == got,
    };
    cx.saw(if failed.is_some() { "flat: error" } else { "flat: end" });
    match views.iter().any(fits) {
        true => Ok(()),
        false => Err(format!("nodes {got:?}, then {failed:?}, of {:?}\nxml: {xml}", views[0])),
    }
}

// Within derived types --------------------------------------------------

thread_local! {
    /// The walk of `Walked` fields, the elements they are to see (last first) and what went wrong
    static WALK: RefCell<Option<(Walk, Vec<(Elem, Scope)>, Result<(), String>)>> = const { RefCell::new(None) };
}

/// A field that pulls its element on a random schedule
#[derive(Debug, PartialEq)]
struct Walked;

impl<'xml> FromXml<'xml> for Walked {
    fn matches(id: Id<'_>, _: Option<Id<'_>>) -> bool {
        id.ns == "urn:w" && id.name == "walked"
    }
    fn deserialize<'cx>(into: &mut Option<Self>, _: &'static str, de: &mut Deserializer<'cx, 'xml>) -> Result<(), Error> {
        WALK.with(|w| {
            let mut w = w.borrow_mut();
            let (walk, elems, result) = w.as_mut().unwrap();
            match elems.pop() {
                Some((e, scope)) if result.is_ok() => *result = walk.element(de, &e, 0, &scope),
                _ => {}
            }
        });
        *into = Some(Walked);
        de.ignore()
    }
    type Accumulator = Option<Self>;
    const KIND: XmlKind = XmlKind::Element;
}

#[derive(Debug, FromXml)]
#[xml(rename = "walks", ns("urn:w"))]
struct Within<'a> {
    #[xml(attribute)]
    k: Option<String>,
    before: Vec<String>,
    walked: Vec<Walked>,
    inner: Vec<Inner>,
    #[xml(borrow)]
    any: Vec<AnyElement<'a>>,
    #[xml(direct)]
    text: Option<String>,
}

#[derive(Debug, FromXml)]
#[xml(rename = "inner", ns("urn:w"))]
struct Inner {
    before: Vec<String>,
    walked: Vec<Walked>,
}

fn within(cx: &mut Cx) -> Result<(), String> {
    let r = &mut cx.rng;
    let mut walked = Vec::new();
    let mut strings = Vec::new();
    let mut inner_strings = Vec::new();
    let mut any = 0;
    let mut root = Elem::new("urn:w", "walks", Kind::Unknown);
    let text = r.chance(50).then(|| {
        let mut t = short_text(r);
        t.insert(0, 'x');
        t
    });
    let n = r.range(1, 8);
    let at = r.below(n);
    for i in 0..n {
        match (&text, i == at) {
            (Some(t), true) => root.kids.push(Kid::text(t.clone())),
            _ => {}
        }
        let target = |r: &mut Rng, strings: &mut Vec<String>, walked: &mut Vec<()>| match r.chance(50) {
            true => {
                let s = short_text(r);
                strings.push(s.clone());
                Elem::new("urn:w", "before", Kind::Unknown).text(&s)
            }
            false => {
                walked.push(());
                let mut e = any_tree(r);
                e.ns = "urn:w".into();
                e.name = "walked".into();
                e
            }
        };
        match r.below(4) {
            0 | 1 => root.kids.push(Kid::new(Node::E(target(r, &mut strings, &mut walked)))),
            2 => {
                let mut e = Elem::new("urn:w", "inner", Kind::Unknown);
                for _ in 0..r.below(4) {
                    e = e.child(target(r, &mut inner_strings, &mut walked));
                }
                root.kids.push(Kid::new(Node::E(e)));
            }
            _ => {
                any += 1;
                let mut e = any_tree(r);
                e.ns = "urn:other".into();
                root.kids.push(Kid::new(Node::E(e)));
            }
        }
    }
    let k = r.chance(50).then(|| short_text(r));
    if let Some(k) = &k {
        root = root.attr("", "k", k);
    }
    let style = Style { inter: false, ..Style::random(r) };
    let xml = render(&root, style, r);
    cx.input = xml.clone();
    cx.sample(|| xml.clone());
    cx.distinct(xml.as_bytes());
    let doc = refxml::parse(&xml).unwrap_or_else(|e| panic!("renderer: {e:?}: {xml}"));
    if doc.max_depth > 32 || doc.max_attrs > 64 || doc.max_decls > 32 {
        return Ok(());
    }
    let mut elems = Vec::new();
    let scope0: Scope = doc.root.decls.iter().cloned().collect();
    for e in doc.root.kids.iter().filter_map(|k| k.elem()) {
        match (&*e.ns, &*e.name) {
            ("urn:w", "walked") => elems.push((e.clone(), scope0.clone())),
            ("urn:w", "inner") => {
                let mut scope = scope0.clone();
                scope.extend(e.decls.iter().cloned());
                let own = e.kids.iter().filter_map(|k| k.elem()).filter(|e| e.name == "walked");
                elems.extend(own.map(|e| (e.clone(), scope.clone())));
            }
            _ => {}
        }
    }
    let total = elems.len();
    assert_eq!(total, walked.len());
    elems.reverse();
    let walk = Walk::new(Rng::new(cx.rng.next()));
    WALK.with(|w| *w.borrow_mut() = Some((walk, elems, Ok(()))));
    let got = from_str::<Within>(&xml);
    let (walk, left, result) = WALK.with(|w| w.borrow_mut().take().unwrap());
    let log = flush(cx, walk);
    let fail = |e: String| Err(format!("{e}\nxml: {xml}\nschedule: {}", log.join(", ")));
    if let Err(e) = result {
        return fail(e);
    }
    let v = match got {
        Ok(v) => v,
        Err(e) => return fail(format!("other fields: {e}")),
    };
    let inner: Vec<&String> = v.inner.iter().flat_map(|i| &i.before).collect();
    let walks = v.walked.len() + v.inner.iter().map(|i| i.walked.len()).sum::<usize>();
    if v.k != k || v.before != strings || inner.into_iter().ne(&inner_strings) || v.any.len() != any || v.text != text {
        return fail(format!(
            "other fields are {:?} {:?} {:?} {} {:?}, not {k:?} {strings:?} {inner_strings:?} {any} {text:?}",
            v.k, v.before, v.inner, v.any.len(), v.text
        ));
    }
    if !left.is_empty() || walks != total {
        return fail(format!("{walks} of {total} elements walked"));
    }
    cx.saw_n("elements walked within derived types", total as u64);
    Ok(())
}

pub fn campaigns(prop: &str) -> Vec<Campaign> {
    let c = Campaign::new;
    match prop {
        "C22" => vec![
            c("pull/schedules", 300_000, 4_000_000, schedules),
            c("pull/flat", 100_000, 1_500_000, flat),
            c("pull/within", 200_000, 3_000_000, within),
        ],
        _ => vec![],
    }
}
