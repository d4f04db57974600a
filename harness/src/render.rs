//! Writes an infoset as XML text in one of many equivalent ways.

use std::collections::{BTreeMap, BTreeSet};

use crate::infoset::{Elem, Kind, Node};
use crate::refxml::XML_NS;
use crate::rng::Rng;

/// Which freedoms to use
#[derive(Clone, Copy, Debug, Default)]
pub struct Style {
    /// Prefixes, placement and shadowing of namespace declarations, unused declarations
    pub ns: bool,
    /// Quotes, spaces in tags, empty-element tags, attribute order
    pub tags: bool,
    /// Character references in place of characters
    pub refs: bool,
    /// CDATA sections and comments within text
    pub split: bool,
    /// White space and comments between elements, where text is of no significance
    pub inter: bool,
    /// XML declaration, comments and white space around the root element
    pub outer: bool,
}

impl Style {
    pub const PLAIN: Style =
        Style { ns: false, tags: false, refs: false, split: false, inter: false, outer: false };
    pub const ALL: Style = Style { ns: true, tags: true, refs: true, split: true, inter: true, outer: true };

    pub fn random(r: &mut Rng) -> Style {
        Style {
            ns: r.chance(60),
            tags: r.chance(50),
            refs: r.chance(50),
            split: r.chance(50),
            inter: r.chance(50),
            outer: r.chance(40),
        }
    }
}

pub const PREFIXES: &[&str] = &[
    "a", "b", "ns", "x-1", "p.q", "_u", "xsi", "é", "A", "n0", "xmlx", "XML", "xm",
    "a-prefix-of-more-than-thirty-two.characters_0123456789",
];
const JUNK_URIS: &[&str] = &["urn:junk", "http://junk.example/a?b=c;d", "u", "urn:a", "urn:b", " spaced "];

pub fn render(root: &Elem, style: Style, r: &mut Rng) -> String {
    let lazy = style.ns && r.chance(30);
    let mut w = Writer { out: String::new(), style, lazy, r, comment_budget: 12 };
    if style.outer {
        if w.r.chance(50) {
            let decl = *w.r.pick(&[
                "<?xml version=\"1.0\"?>",
                "<?xml version='1.0' encoding='UTF-8'?>",
                "<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"yes\" ?>",
            ]);
            w.out.push_str(decl);
        }
        w.misc();
    }
    w.elem(root, &Scope { prefixes: BTreeMap::new(), default: String::new() });
    if style.outer {
        w.misc();
    }
    w.out
}

#[derive(Clone)]
struct Scope {
    prefixes: BTreeMap<String, String>,
    default: String,
}

struct Writer<'r> {
    out: String,
    style: Style,
    /// Declares what is needed only, so that descendants rely on elements far above
    lazy: bool,
    r: &'r mut Rng,
    comment_budget: usize,
}

impl Writer<'_> {
    /// White space and comments
    fn misc(&mut self) {
        for _ in 0..self.r.below(3) {
            match self.r.chance(50) {
                true => self.spaces(0),
                false => self.comment(),
            }
        }
    }

    fn spaces(&mut self, min: usize) {
        for _ in 0..self.r.range(min, min + 2) {
            let c = *self.r.pick(&[' ', '\n', '\t']);
            self.out.push(c);
        }
    }

    fn comment(&mut self) {
        let body = *self.r.pick(&[
            "", " ", "c", " a - b ", "<x>", "&bogus; & <", "]]>", "<![CDATA[", " é漢 ", "</a>", "\n", "?>",
        ]);
        self.out.push_str("<!--");
        self.out.push_str(body);
        self.out.push_str("-->");
    }

    fn elem(&mut self, e: &Elem, outer: &Scope) {
        let mut decls: BTreeMap<String, String> = BTreeMap::new();
        // Prefixes that names on this element rely on from outer elements
        let mut relied: BTreeSet<String> = BTreeSet::new();
        let mut default_decl: Option<String> = None;

        let name = if e.ns.is_empty() {
            if !outer.default.is_empty() {
                default_decl = Some(String::new());
            } else if self.style.ns && self.r.chance(10) {
                default_decl = Some(String::new());
            }
            e.name.clone()
        } else {
            let bound: Vec<_> =
                outer.prefixes.iter().filter(|(_, u)| **u == e.ns).map(|(p, _)| p.clone()).collect();
            let choice = match self.style.ns && !self.lazy {
                false if outer.default == e.ns => 0,
                false if self.lazy && !bound.is_empty() => 1,
                false if self.lazy => self.r.range(2, 3),
                false => 2,
                true => self.r.below(4),
            };
            match choice {
                0 if outer.default == e.ns => e.name.clone(),
                1 | 0 if !bound.is_empty() => {
                    let p = self.r.pick(&bound).clone();
                    relied.insert(p.clone());
                    format!("{p}:{}", e.name)
                }
                3 => {
                    let p = (*self.r.pick(PREFIXES)).to_owned();
                    decls.insert(p.clone(), e.ns.clone());
                    format!("{p}:{}", e.name)
                }
                _ => {
                    default_decl = Some(e.ns.clone());
                    e.name.clone()
                }
            }
        };

        let mut attrs: Vec<(String, String)> = Vec::new();
        for a in &e.attrs {
            let qname = match a.ns.as_str() {
                "" => a.name.clone(),
                XML_NS => format!("xml:{}", a.name),
                _ => {
                    let here = decls.iter().find(|(_, u)| **u == a.ns).map(|(p, _)| p.clone());
                    let above = outer
                        .prefixes
                        .iter()
                        .find(|(p, u)| **u == a.ns && !decls.contains_key(*p))
                        .map(|(p, _)| p.clone());
                    let fresh = !self.style.ns || self.r.chance(70);
                    let p = match (here, above) {
                        (Some(p), _) if fresh => p,
                        (_, Some(p)) if fresh => {
                            relied.insert(p.clone());
                            p
                        }
                        _ => {
                            let mut n = 0;
                            let p = loop {
                                let p = match self.style.ns {
                                    true if n > 40 => format!("z{n}"),
                                    true => (*self.r.pick(PREFIXES)).to_owned(),
                                    false => format!("q{n}"),
                                };
                                n += 1;
                                if !decls.contains_key(&p) && !relied.contains(&p) {
                                    break p;
                                }
                            };
                            decls.insert(p.clone(), a.ns.clone());
                            p
                        }
                    };
                    format!("{p}:{}", a.name)
                }
            };
            attrs.push((qname, self.attr_value(&a.value)));
        }

        if self.style.ns && !(self.lazy && self.r.chance(90)) {
            // Declarations nothing on this element needs
            while self.r.chance(25) {
                let p = (*self.r.pick(PREFIXES)).to_owned();
                if !decls.contains_key(&p) && !relied.contains(&p) {
                    let u = match self.r.chance(50) && !e.ns.is_empty() {
                        true => e.ns.clone(),
                        false => (*self.r.pick(JUNK_URIS)).to_owned(),
                    };
                    decls.insert(p, u);
                }
            }
            if default_decl.is_none() && name.contains(':') && self.r.chance(25) {
                default_decl = Some(match self.r.below(3) {
                    0 => String::new(),
                    1 => e.ns.clone(),
                    _ => (*self.r.pick(JUNK_URIS)).to_owned(),
                });
            }
        }

        let mut parts: Vec<(String, String)> = Vec::new();
        let quote = |u: &str| format!("\"{u}\"");
        parts.extend(default_decl.iter().map(|u| ("xmlns".to_owned(), quote(u))));
        parts.extend(decls.iter().map(|(p, u)| (format!("xmlns:{p}"), quote(u))));
        parts.extend(attrs);
        if self.style.tags || self.style.ns {
            self.r.shuffle(&mut parts);
        }

        self.out.push('<');
        self.out.push_str(&name);
        for (k, v) in parts {
            match self.style.tags {
                true => self.spaces(1),
                false => self.out.push(' '),
            }
            self.out.push_str(&k);
            if self.style.tags && self.r.chance(10) {
                self.spaces(0);
            }
            self.out.push('=');
            if self.style.tags && self.r.chance(10) {
                self.spaces(0);
            }
            self.out.push_str(&v);
        }
        if self.style.tags && self.r.chance(30) {
            self.spaces(0);
        }

        let mut scope = outer.clone();
        scope.prefixes.extend(decls);
        if let Some(d) = default_decl {
            scope.default = d;
        }

        let empty = e.kids.iter().all(|k| matches!(&k.node, Node::T(t) if t.is_empty()));
        let self_close = match self.style.tags {
            true => self.r.chance(50),
            false => true,
        };
        if empty && self_close {
            self.out.push_str("/>");
            return;
        }
        self.out.push('>');

        let has_text = e.kids.iter().any(|k| matches!(k.node, Node::T(_)));
        let inter = self.style.inter
            && match e.kind {
                Kind::Struct | Kind::Unit => true,
                Kind::Tuple => !has_text,
                _ => false,
            };
        for kid in &e.kids {
            self.between(inter);
            match &kid.node {
                Node::E(c) => self.elem(c, &scope),
                Node::T(t) => self.text(t),
            }
        }
        self.between(inter);

        self.out.push_str("</");
        self.out.push_str(&name);
        if self.style.tags && self.r.chance(20) {
            self.spaces(0);
        }
        self.out.push('>');
    }

    fn between(&mut self, inter: bool) {
        if inter {
            self.misc();
        } else if (self.style.split || self.style.inter) && self.r.chance(15) {
            // A comment alone never adds text
            self.comment();
        }
    }

    /// Quoted value
    fn attr_value(&mut self, v: &str) -> String {
        let q = if self.style.tags && self.r.chance(50) { '\'' } else { '"' };
        let mut out = String::from(q);
        for c in v.chars() {
            let must = matches!(c, '&' | '<' | '\t' | '\n' | '\r') || c == q;
            self.character(&mut out, c, must);
        }
        out.push(q);
        out
    }

    fn character(&mut self, out: &mut String, c: char, must: bool) {
        if !must && !(self.style.refs && self.r.chance(15)) {
            out.push(c);
            return;
        }
        let n = c as u32;
        let named = match c {
            '&' => "amp",
            '<' => "lt",
            '>' => "gt",
            '"' => "quot",
            '\'' => "apos",
            _ => "",
        };
        let pick = if self.style.refs { self.r.below(4) } else { 0 };
        let body = match pick {
            0 | 1 if !named.is_empty() => named.to_owned(),
            0 => format!("#{n}"),
            1 => format!("#x{n:x}"),
            2 => format!("#x{n:X}"),
            _ => {
                // Leading zeros
                let s = n.to_string();
                let zeros = self.r.below(8 - s.len().min(7));
                format!("#{}{s}", "0".repeat(zeros))
            }
        };
        out.push('&');
        out.push_str(&body);
        out.push(';');
    }

    fn text(&mut self, t: &str) {
        if !self.style.split {
            self.plain(t);
            return;
        }
        let chars: Vec<char> = t.chars().collect();
        let mut i = 0;
        loop {
            if self.comment_budget > 0 && self.r.chance(20) {
                self.comment_budget -= 1;
                self.comment();
            }
            let n = match self.r.chance(50) {
                true => chars.len() - i,
                false => self.r.range(0, chars.len() - i),
            };
            let piece: String = chars[i..i + n].iter().collect();
            i += n;
            if self.r.chance(40) && !piece.contains('\r') && !piece.contains("]]>") {
                self.out.push_str("<![CDATA[");
                self.out.push_str(&piece);
                self.out.push_str("]]>");
            } else {
                self.plain(&piece);
            }
            if i >= chars.len() {
                break;
            }
        }
        if self.comment_budget > 0 && self.r.chance(10) {
            self.comment_budget -= 1;
            self.comment();
        }
    }

    fn plain(&mut self, t: &str) {
        let mut out = String::new();
        for c in t.chars() {
            // `>` only has to be escaped after `]]`, possibly from the piece before
            let must = matches!(c, '&' | '<' | '\r')
                || (c == '>' && (out.ends_with(']') || out.is_empty() && self.out.ends_with(']')));
            self.character(&mut out, c, must);
        }
        self.out.push_str(&out);
    }
}
