//! Programs of `Serializer` calls: its namespace bookkeeping against the start tags it has
//! written (C04), and calls in the wrong state (C21).

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt;
use std::rc::Rc;

use instant_xml::ser::{Context, Prefix};
use instant_xml::{Error, Id, Serializer, ToXml};

use crate::infoset::{Elem, Kid, Kind, Node};
use crate::refxml::{self, XML_NS};
use crate::rng::Rng;
use crate::runner::{Campaign, Cx};
use crate::trees::{short_text, NAMES};

const URIS: &[&str] = &["", "urn:a", "urn:b", "urn:c", "urn:d"];
const PREFIXES: &[&str] = &["p", "q", "r", "x-1.y", "é", "a_rather-long.prefix_of.many-parts", "_", "xm"];

/// A writer whose output can be looked at while a serializer holds it
#[derive(Clone, Default)]
struct Out(Rc<RefCell<String>>);

impl fmt::Write for Out {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0.borrow_mut().push_str(s);
        Ok(())
    }
}

impl Out {
    fn len(&self) -> usize {
        self.0.borrow().len()
    }
    fn from(&self, at: usize) -> String {
        self.0.borrow()[at..].to_owned()
    }
}

type Ser<'a> = Serializer<'a, Out>;
type Scope = BTreeMap<String, String>;

/// What the serializer says about namespaces
fn snapshot(s: &Ser<'_>) -> (Vec<Option<&'static str>>, &'static str) {
    (URIS.iter().map(|u| s.prefix(u)).collect(), s.default_ns())
}

/// Namespace declarations in a start tag (without end) as written
fn declarations(tag: &str) -> Vec<(String, String)> {
    let mut out = Vec::new();
    for part in tag.split(' ').skip(1) {
        let Some((name, value)) = part.split_once('=') else { continue };
        let value = value.trim_matches('"').to_owned();
        if name == "xmlns" {
            out.push((String::new(), value));
        } else if let Some(p) = name.strip_prefix("xmlns:") {
            out.push((p.to_owned(), value));
        }
    }
    out
}

struct Program<'r> {
    r: &'r mut Rng,
    out: Out,
    scopes: Vec<Scope>,
    budget: i32,
    log: Vec<String>,
    checks: u64,
    refused: u64,
    declared: u64,
    /// Chance in percent of calls in the wrong state
    wrong: u32,
    /// Decides about those, so that `r` takes the same course with and without them
    wr: Rng,
}

impl Program<'_> {
    fn fail<T>(&self, what: String) -> Result<T, String> {
        let (log, out) = (self.log.join("\n  "), self.out.from(0));
        Err(format!("{what}\noutput so far: {out}\ncalls:\n  {log}"))
    }

    fn scope(&self) -> Scope {
        self.scopes.last().cloned().unwrap_or_default()
    }

    /// Every prefix the serializer offers is bound as it says; `default`: its default namespace too
    fn sound(&mut self, s: &Ser<'_>, default: bool) -> Result<(), String> {
        let scope = self.scope();
        for uri in URIS.iter().skip(1) {
            if let Some(p) = s.prefix(uri) {
                let got = scope.get(p).map(String::as_str);
                if got != Some(uri) {
                    return self.fail(format!("prefix({uri:?}) is {p:?}, which is bound to {got:?} here"));
                }
            }
        }
        let want = scope.get("").map_or("", String::as_str);
        if default && s.default_ns() != want {
            return self.fail(format!("default_ns() is {:?}, in scope is {want:?}", s.default_ns()));
        }
        self.checks += 1;
        Ok(())
    }

    /// A call in the wrong state must be refused, write nothing and change nothing
    fn refuse(&mut self, s: &mut Ser<'_>, what: &str, f: impl FnOnce(&mut Ser<'_>) -> Result<(), Error>) -> Result<(), String> {
        let (before, at) = (snapshot(s), self.out.len());
        self.log.push(format!("{what} (wrong state)"));
        let result = f(s);
        if result.is_ok() {
            return self.fail(format!("{what} was accepted"));
        }
        if self.out.len() != at {
            return self.fail(format!("{what} was refused ({result:?}) but wrote {:?}", self.out.from(at)));
        }
        if snapshot(s) != before {
            return self.fail(format!("{what} was refused but changed the namespaces from {before:?} to {:?}", snapshot(s)));
        }
        self.refused += 1;
        Ok(())
    }

    /// Calls that are wrong within a start tag
    fn wrong_in_tag(&mut self, s: &mut Ser<'_>) -> Result<(), String> {
        while self.wr.below(100) < self.wrong as usize {
            let uri = *self.wr.pick(URIS);
            match self.wr.below(5) {
                0 => self.refuse(s, "write_start() in a start tag", |s| s.write_start("wrong", uri, None::<Context<0>>).map(drop))?,
                1 => {
                    let cx = context::<1>(&mut self.wr, uri);
                    self.refuse(s, "write_start() with context in a start tag", |s| s.write_start("wrong", uri, Some(cx)).map(drop))?
                }
                2 => self.refuse(s, "write_str() in a start tag", |s| s.write_str("wrong"))?,
                3 => {
                    let text = *self.wr.pick(&["", "wrong"]);
                    self.refuse(s, "text in a start tag", |s| text.serialize(None, s))?
                }
                _ => {
                    let mut other = String::new();
                    let mut os = Serializer::new(&mut other);
                    let handle = os.write_start("wrong", uri, None::<Context<0>>).unwrap();
                    self.refuse(s, "write_close() in a start tag", |s| s.write_close(handle))?
                }
            }
        }
        Ok(())
    }

    /// Calls that are wrong between tags
    fn wrong_in_content(&mut self, s: &mut Ser<'_>) -> Result<(), String> {
        while self.wr.below(100) < self.wrong as usize {
            match self.wr.below(4) {
                0 => self.refuse(s, "write_attr() after the start tag", |s| s.write_attr("wrong", "", "x"))?,
                1 => {
                    let uri = *self.wr.pick(URIS);
                    self.refuse(s, "write_attr() with namespace after the start tag", |s| s.write_attr("wrong", uri, "x"))?
                }
                2 => self.refuse(s, "end_start() after the start tag", |s| s.end_start())?,
                _ => self.refuse(s, "end_empty() after the start tag", |s| s.end_empty())?,
            }
        }
        Ok(())
    }

    fn attributes(&mut self, s: &mut Ser<'_>, e: &mut Elem) -> Result<(), String> {
        let n = *self.r.pick(&[0, 0, 1, 2, 4]);
        for i in 0..n {
            self.wrong_in_tag(s)?;
            let uri = match self.r.chance(10) {
                true => XML_NS,
                false => *self.r.pick(URIS),
            };
            let name = format!("k{i}");
            let value = short_text(self.r);
            self.log.push(format!("write_attr({name:?}, {uri:?}, {value:?})"));
            let (known, at, before) = (s.prefix(uri), self.out.len(), snapshot(s));
            let (pieces, calls) = (self.r.range(1, 3), RefCell::new(Vec::new()));
            let inner = self.r.chance(40);
            let result = match self.wrong > 0 && inner {
                // Markup from within an attribute's value
                true => {
                    let v = Value { text: &value, pieces, wrong: self.wr.below(64), calls: &calls };
                    let result = s.write_attr(&name, uri, &v);
                    for (what, bad) in calls.into_inner() {
                        self.refused += 1;
                        if let Some(bad) = bad {
                            return self.fail(format!("{what} within an attribute value {bad}"));
                        }
                    }
                    result
                }
                false => s.write_attr(&name, uri, &*value),
            };
            match (uri.is_empty() || uri == XML_NS || known.is_some(), result) {
                (true, Ok(())) => *e = std::mem::replace(e, Elem::new("", "", Kind::Unknown)).attr(uri, &name, &value),
                (false, Err(_)) => {
                    if self.out.len() != at {
                        return self.fail(format!("refused attribute, but wrote {:?}", self.out.from(at)));
                    }
                    self.refused += 1;
                }
                (true, Err(err)) => return self.fail(format!("attribute refused: {err}")),
                (false, Ok(())) => return self.fail(format!("attribute in {uri:?} accepted without prefix: {}", self.out.from(at))),
            }
            if snapshot(s) != before {
                return self.fail(format!("write_attr() changed the namespaces from {before:?} to {:?}", snapshot(s)));
            }
        }
        self.wrong_in_tag(s)
    }

    /// The start tag written from `at`: how its name reads, and its declarations
    fn started(&mut self, at: usize, e: &Elem, prefix: Option<&str>) -> Result<(), String> {
        let tag = self.out.from(at);
        let mut scope = self.scope();
        let decls = declarations(&tag);
        let names: Vec<_> = decls.iter().map(|d| &d.0).collect();
        if (1..names.len()).any(|i| names[..i].contains(&names[i])) {
            return self.fail(format!("declared twice: {tag}"));
        }
        self.declared += decls.len() as u64;
        scope.extend(decls);
        let qname = tag.trim_start_matches('<').split(' ').next().unwrap_or("");
        let (p, local) = refxml::split_qname(qname).unwrap_or(("?", qname));
        if local != e.name || p != prefix.unwrap_or("") {
            return self.fail(format!("start tag {tag} for {:?} with prefix {prefix:?}", e.name));
        }
        if scope.get(p).map_or("", String::as_str) != e.ns {
            return self.fail(format!("start tag {tag} is not in namespace {:?}: in scope are {scope:?}", e.ns));
        }
        self.scopes.push(scope);
        Ok(())
    }

    /// An element with a context of `N` prefixes and whatever is in it
    fn element<const N: usize>(&mut self, s: &mut Ser<'_>, depth: usize) -> Result<Elem, String> {
        self.budget -= 1;
        let ns = *self.r.pick(URIS);
        let name = *self.r.pick(NAMES);
        let mut e = Elem::new(ns, name, Kind::Unknown);
        let cx = context::<N>(self.r, ns);
        self.log.push(format!("write_start({name:?}, {ns:?}, {:?} force_prefix={})", cx.prefixes, cx.force_prefix));
        let (before, at) = (snapshot(s), self.out.len());
        let (mine, force) = (cx.prefixes, cx.force_prefix);
        let handle = match s.write_start(name, ns, Some(cx)) {
            Ok(h) => h,
            Err(err) => return self.fail(format!("write_start() failed: {err}")),
        };
        self.started(at, &e, handle.prefix)?;
        self.sound(s, true)?;
        // Namespaces are only forgotten where something else takes their prefix
        for (i, uri) in URIS.iter().enumerate() {
            let declares = mine.iter().any(|p| p.ns == *uri && !p.prefix.is_empty());
            let inherits = before.0[i].is_some_and(|old| mine.iter().all(|p| p.prefix != old));
            if (declares || inherits) && s.prefix(uri).is_none() {
                return self.fail(format!("no prefix for {uri:?}, which is {}", if declares { "declared here" } else { "inherited" }));
            }
        }
        if force && handle.prefix.is_none() && before.0[URIS.iter().position(|u| *u == ns).unwrap()].is_some_and(|old| mine.iter().all(|p| p.prefix != old)) {
            return self.fail("no prefix although forced and declared".into());
        }
        self.attributes(s, &mut e)?;
        if self.r.chance(35) {
            self.log.push("end_empty()".into());
            drop(handle);
            if let Err(err) = s.end_empty() {
                return self.fail(format!("end_empty() failed: {err}"));
            }
        } else {
            self.log.push("end_start()".into());
            if let Err(err) = s.end_start() {
                return self.fail(format!("end_start() failed: {err}"));
            }
            self.content(s, &mut e, depth)?;
            self.log.push("write_close()".into());
            if let Err(err) = s.write_close(handle) {
                return self.fail(format!("write_close() failed: {err}"));
            }
        }
        self.scopes.pop();
        if snapshot(s) != before {
            return self.fail(format!("after the element, namespaces are {:?}, before it {before:?}", snapshot(s)));
        }
        self.sound(s, true)?;
        self.wrong_in_content(s)?;
        Ok(e)
    }

    /// A leaf written without context, by hand or as a scalar field
    fn leaf(&mut self, s: &mut Ser<'_>) -> Result<Elem, String> {
        self.budget -= 1;
        let ns = *self.r.pick(URIS);
        let name = *self.r.pick(NAMES);
        let text = short_text(self.r);
        let mut e = Elem::new(ns, name, Kind::Unknown);
        let (before, at) = (snapshot(s), self.out.len());
        if self.r.chance(50) {
            self.log.push(format!("field {{{ns}}}{name} {text:?}"));
            if let Err(err) = text.serialize(Some(Id { ns, name }), s) {
                return self.fail(format!("text field failed: {err}"));
            }
            e = e.text(&text);
        } else {
            self.log.push(format!("write_start({name:?}, {ns:?}, None)"));
            let handle = match s.write_start(name, ns, None::<Context<0>>) {
                Ok(h) => h,
                Err(err) => return self.fail(format!("write_start() failed: {err}")),
            };
            self.started(at, &e, handle.prefix)?;
            self.sound(s, false)?;
            self.attributes(s, &mut e)?;
            if self.r.chance(40) {
                self.log.push("end_empty()".into());
                if let Err(err) = s.end_empty() {
                    return self.fail(format!("end_empty() failed: {err}"));
                }
            } else {
                self.log.push(format!("end_start(), {text:?}, write_close()"));
                let done = s.end_start().and_then(|()| text.serialize(None, s)).and_then(|()| s.write_close(handle));
                if let Err(err) = done {
                    return self.fail(format!("element failed: {err}"));
                }
                e = e.text(&text);
            }
            self.scopes.pop();
        }
        if snapshot(s) != before {
            return self.fail(format!("after the leaf, namespaces are {:?}, before it {before:?}", snapshot(s)));
        }
        self.sound(s, true)?;
        Ok(e)
    }

    fn content(&mut self, s: &mut Ser<'_>, e: &mut Elem, depth: usize) -> Result<(), String> {
        self.wrong_in_content(s)?;
        for _ in 0..*self.r.pick(&[0, 1, 2, 3, 5]) {
            let kid = match self.r.below(8) {
                0 | 1 => {
                    let text = short_text(self.r);
                    self.log.push(format!("text {text:?}"));
                    if let Err(err) = text.serialize(None, s) {
                        return self.fail(format!("text failed: {err}"));
                    }
                    e.kids.push(Kid::text(text));
                    continue;
                }
                2 => self.leaf(s)?,
                _ if depth == 0 || self.budget <= 0 => self.leaf(s)?,
                n => self.any_element(s, n % 4, depth - 1)?,
            };
            e.kids.push(Kid::new(Node::E(kid)));
            self.wrong_in_content(s)?;
        }
        Ok(())
    }

    fn any_element(&mut self, s: &mut Ser<'_>, n: usize, depth: usize) -> Result<Elem, String> {
        match n {
            0 => self.element::<0>(s, depth),
            1 => self.element::<1>(s, depth),
            2 => self.element::<2>(s, depth),
            _ => self.element::<3>(s, depth),
        }
    }
}

/// A context as derived code makes it: the default namespace is the element's, prefixes differ
fn context<const N: usize>(r: &mut Rng, ns: &'static str) -> Context<N> {
    let mut cx = Context::default();
    cx.default_ns = ns;
    cx.force_prefix = r.chance(30);
    let mut free: Vec<&'static str> = PREFIXES.to_vec();
    for slot in &mut cx.prefixes {
        if r.chance(85) {
            let prefix = free.remove(r.below(free.len()));
            *slot = Prefix { prefix, ns: URIS[r.range(1, URIS.len() - 1)] };
        }
    }
    cx
}

/// An attribute value that is written in pieces and tries to write markup in between
struct Value<'a> {
    text: &'a str,
    pieces: usize,
    wrong: usize,
    calls: &'a RefCell<Vec<(&'static str, Option<String>)>>,
}

impl Value<'_> {
    fn attempt<W: fmt::Write + ?Sized>(&self, s: &mut Serializer<'_, W>) {
        type F<W> = fn(&mut Serializer<'_, W>) -> Result<(), Error>;
        let mut other = String::new();
        let mut os = Serializer::new(&mut other);
        let handle = os.write_start("wrong", "", None::<Context<0>>).unwrap();
        let calls: [(&'static str, F<W>); 5] = [
            ("write_start()", |s| s.write_start("wrong", "", None::<Context<0>>).map(drop)),
            ("write_attr()", |s| s.write_attr("wrong", "", "x")),
            ("end_start()", |s| s.end_start()),
            ("end_empty()", |s| s.end_empty()),
            ("element field", |s| 1u8.serialize(Some(Id { ns: "urn:a", name: "wrong" }), s)),
        ];
        let mut note = |what, ok: bool| self.calls.borrow_mut().push((what, ok.then(|| "was accepted".to_owned())));
        for (i, (what, f)) in calls.into_iter().enumerate() {
            if self.wrong >> i & 1 == 1 {
                note(what, f(s).is_ok());
            }
        }
        if self.wrong >> 5 & 1 == 1 {
            note("write_close()", s.write_close(handle).is_ok());
        }
    }
}

impl ToXml for Value<'_> {
    fn serialize<W: fmt::Write + ?Sized>(&self, _: Option<Id<'_>>, s: &mut Serializer<'_, W>) -> Result<(), Error> {
        self.attempt(s);
        let cuts: Vec<usize> = self.text.char_indices().map(|(i, _)| i).chain([self.text.len()]).collect();
        let mut from = 0;
        for i in 1..=self.pieces {
            let to = cuts[(cuts.len() - 1) * i / self.pieces];
            self.text[from..to].serialize(None, s)?;
            from = to;
            self.attempt(s);
        }
        Ok(())
    }
}

fn program(cx: &mut Cx, wrong: u32) -> Result<(), String> {
    let seed = cx.rng.next();
    let run = |wrong: u32| {
        let mut r = Rng::new(seed);
        let out = Out::default();
        let mut sink = out.clone();
        let mut s = Serializer::new(&mut sink);
        let depth = *r.pick(&[1, 3, 6]);
        let budget = *r.pick(&[4, 12, 30]);
        let mut p = Program {
            wr: Rng::new(seed ^ 0x5555),
            r: &mut r,
            out: out.clone(),
            scopes: Vec::new(),
            budget,
            log: Vec::new(),
            checks: 0,
            refused: 0,
            declared: 0,
            wrong,
        };
        p.wrong_in_content(&mut s)?;
        let n = p.r.below(4);
        let e = p.any_element(&mut s, n, depth)?;
        let xml = out.from(0);
        match refxml::parse(&xml) {
            Ok(d) if d.root.canon() == e.canon() => {}
            Ok(d) => return p.fail(format!("the document differs from the calls\nwant: {}\ngot:  {}", e.canon(), d.root.canon())),
            Err(err) => return p.fail(format!("output is not well-formed: {err:?}")),
        }
        Ok((xml, [p.checks, p.refused, p.declared, p.log.len() as u64], e.count()))
    };
    let (xml, [checks, refused, declared, calls], elements) = run(wrong)?;
    cx.input = xml.clone();
    cx.sample(|| xml.clone());
    if elements > 1 {
        cx.distinct(xml.as_bytes());
    }
    cx.saw_n("states compared to the output", checks);
    cx.saw_n("calls refused", refused);
    cx.saw_n("namespace declarations", declared);
    cx.saw_n("serializer calls", calls);
    if wrong > 0 && run(0)?.0 != xml && !xml.is_empty() {
        return Err(format!("refused calls changed the document\nwith:    {xml}\nwithout: {}", run(0)?.0));
    }
    Ok(())
}

fn bookkeeping(cx: &mut Cx) -> Result<(), String> {
    program(cx, 0)
}

fn misuse(cx: &mut Cx) -> Result<(), String> {
    let wrong = *cx.rng.pick(&[10, 30, 60]);
    program(cx, wrong)
}

pub fn campaigns(prop: &str) -> Vec<Campaign> {
    let c = Campaign::new;
    match prop {
        "C04" => vec![c("serializer/bookkeeping", 400_000, 6_000_000, bookkeeping)],
        "C21" => vec![c("serializer/misuse", 300_000, 4_000_000, misuse)],
        _ => vec![],
    }
}
