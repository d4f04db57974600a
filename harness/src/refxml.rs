//! Independent reference parser: XML 1.0 (5th ed.) well-formedness without DTDs, plus Namespaces
//! in XML 1.0. Shares no code with the crate under test (nor with its tokenizer). Differences from
//! a conforming processor, on purpose: no line-end or attribute-value normalization. It is
//! cross-checked against Python's expat by `gen/expat_check.py`.

use crate::infoset::{About, Attr, Card, Elem, Kid, Kind, Node};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Class {
    Eof,
    Syntax,
    Name,
    Char,
    Entity,
    DupAttr,
    UnboundPrefix,
    NsDecl,
    Mismatch,
    Trailing,
    Prolog,
    Comment,
    Pi,
    CdataEnd,
    LtInAttr,
    /// Uses a document type declaration, which this parser does not support
    Doctype,
    QName,
}

#[derive(Clone, Debug)]
pub struct XmlError {
    pub class: Class,
    pub pos: usize,
}

#[derive(Clone, Debug)]
pub struct Doc {
    pub root: Elem,
    pub has_pi: bool,
    pub max_depth: usize,
    pub max_attrs: usize,
    pub max_decls: usize,
}

pub const XML_NS: &str = "http://www.w3.org/XML/1998/namespace";
pub const XMLNS_NS: &str = "http://www.w3.org/2000/xmlns/";

pub fn is_char(c: char) -> bool {
    matches!(c, '\u{9}' | '\u{A}' | '\u{D}' | '\u{20}'..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
}

pub fn is_name_start(c: char) -> bool {
    matches!(c, ':' | 'A'..='Z' | '_' | 'a'..='z' | '\u{C0}'..='\u{D6}' | '\u{D8}'..='\u{F6}'
        | '\u{F8}'..='\u{2FF}' | '\u{370}'..='\u{37D}' | '\u{37F}'..='\u{1FFF}'
        | '\u{200C}'..='\u{200D}' | '\u{2070}'..='\u{218F}' | '\u{2C00}'..='\u{2FEF}'
        | '\u{3001}'..='\u{D7FF}' | '\u{F900}'..='\u{FDCF}' | '\u{FDF0}'..='\u{FFFD}'
        | '\u{10000}'..='\u{EFFFF}')
}

pub fn is_name_char(c: char) -> bool {
    is_name_start(c)
        || matches!(c, '-' | '.' | '0'..='9' | '\u{B7}' | '\u{300}'..='\u{36F}' | '\u{203F}'..='\u{2040}')
}

struct P<'a> {
    s: &'a str,
    i: usize,
}

type R<T> = Result<T, XmlError>;

impl<'a> P<'a> {
    fn err<T>(&self, class: Class) -> R<T> {
        // Running out of input is a class of its own
        let class = if self.i >= self.s.len() { Class::Eof } else { class };
        Err(XmlError { class, pos: self.i })
    }
    fn rest(&self) -> &'a str {
        &self.s[self.i..]
    }
    fn peek(&self) -> Option<char> {
        self.rest().chars().next()
    }
    fn eat(&mut self, lit: &str) -> bool {
        if self.rest().starts_with(lit) {
            self.i += lit.len();
            true
        } else {
            false
        }
    }
    fn spaces(&mut self) -> bool {
        let start = self.i;
        while let Some(' ' | '\t' | '\r' | '\n') = self.peek() {
            self.i += 1;
        }
        self.i > start
    }
    fn name(&mut self) -> R<&'a str> {
        let start = self.i;
        match self.peek() {
            Some(c) if is_name_start(c) => self.i += c.len_utf8(),
            _ => return self.err(Class::Name),
        }
        while let Some(c) = self.peek() {
            if !is_name_char(c) {
                break;
            }
            self.i += c.len_utf8();
        }
        Ok(&self.s[start..self.i])
    }
    fn qname(&mut self) -> R<(&'a str, &'a str)> {
        let name = self.name()?;
        split_qname(name).ok_or(XmlError { class: Class::QName, pos: self.i })
    }
    fn until(&mut self, end: &str, class: Class) -> R<&'a str> {
        let start = self.i;
        match self.rest().find(end) {
            Some(n) => {
                let body = &self.s[start..start + n];
                if let Some(bad) = body.char_indices().find(|(_, c)| !is_char(*c)) {
                    self.i = start + bad.0;
                    return self.err(Class::Char);
                }
                self.i = start + n + end.len();
                Ok(body)
            }
            None => {
                self.i = self.s.len();
                self.err(class)
            }
        }
    }
    /// After "<!--"
    fn comment(&mut self) -> R<()> {
        let start = self.i;
        let body = self.until("-->", Class::Comment)?;
        if body.contains("--") || body.ends_with('-') {
            self.i = start;
            return self.err(Class::Comment);
        }
        Ok(())
    }
    /// After "<?"
    fn pi(&mut self) -> R<()> {
        let target = self.name()?;
        if target.eq_ignore_ascii_case("xml") || target.contains(':') {
            return self.err(Class::Pi);
        }
        if self.eat("?>") {
            return Ok(());
        }
        if !self.spaces() {
            return self.err(Class::Pi);
        }
        self.until("?>", Class::Pi)?;
        Ok(())
    }
    /// After "&"
    fn reference(&mut self) -> R<char> {
        let rest = self.rest();
        let Some(end) = rest.find(';') else {
            return self.err(Class::Entity);
        };
        let body = &rest[..end];
        let c = match body {
            "amp" => Some('&'),
            "lt" => Some('<'),
            "gt" => Some('>'),
            "apos" => Some('\''),
            "quot" => Some('"'),
            _ => match body.strip_prefix("#x") {
                Some(hex) if !hex.is_empty() && hex.bytes().all(|b| b.is_ascii_hexdigit()) => {
                    parse_radix(hex, 16)
                }
                Some(_) => None,
                None => match body.strip_prefix('#') {
                    Some(dec) if !dec.is_empty() && dec.bytes().all(|b| b.is_ascii_digit()) => {
                        parse_radix(dec, 10)
                    }
                    _ => None,
                },
            },
        };
        match c.filter(|c| is_char(*c)) {
            Some(c) => {
                self.i += end + 1;
                Ok(c)
            }
            None => Err(XmlError { class: Class::Entity, pos: self.i }),
        }
    }
    fn attr_value(&mut self) -> R<String> {
        let quote = match self.peek() {
            Some(c @ ('"' | '\'')) => c,
            _ => return self.err(Class::Syntax),
        };
        self.i += 1;
        let mut out = String::new();
        loop {
            match self.peek() {
                None => return self.err(Class::Eof),
                Some(c) if c == quote => {
                    self.i += 1;
                    return Ok(out);
                }
                Some('<') => return self.err(Class::LtInAttr),
                Some('&') => {
                    self.i += 1;
                    out.push(self.reference()?);
                }
                Some(c) if is_char(c) => {
                    self.i += c.len_utf8();
                    out.push(c);
                }
                Some(_) => return self.err(Class::Char),
            }
        }
    }
    /// After "<?xml": version, encoding, standalone
    fn declaration(&mut self) -> R<()> {
        let mut step = 0;
        loop {
            let spaces = self.spaces();
            if self.eat("?>") {
                return if step > 0 { Ok(()) } else { self.err(Class::Prolog) };
            }
            if !spaces {
                return self.err(Class::Prolog);
            }
            let name = self.name()?;
            let n = match name {
                "version" => 1,
                "encoding" => 2,
                "standalone" => 3,
                _ => return self.err(Class::Prolog),
            };
            if n <= step || (step == 0 && n != 1) {
                return self.err(Class::Prolog);
            }
            step = n;
            self.spaces();
            if !self.eat("=") {
                return self.err(Class::Prolog);
            }
            self.spaces();
            let start = self.i;
            let v = self.attr_value()?;
            if self.s[start..self.i].contains('&') {
                return self.err(Class::Prolog);
            }
            let ok = match n {
                1 => v.strip_prefix("1.").is_some_and(|d| !d.is_empty() && d.bytes().all(|b| b.is_ascii_digit())),
                2 => v.bytes().next().is_some_and(|b| b.is_ascii_alphabetic())
                    && v.bytes().all(|b| b.is_ascii_alphanumeric() || matches!(b, b'.' | b'_' | b'-')),
                _ => v == "yes" || v == "no",
            };
            if !ok {
                return self.err(Class::Prolog);
            }
        }
    }
}

fn parse_radix(digits: &str, radix: u32) -> Option<char> {
    let mut n: u32 = 0;
    for d in digits.chars() {
        n = n.checked_mul(radix)?.checked_add(d.to_digit(radix)?)?;
    }
    char::from_u32(n)
}

pub fn split_qname(name: &str) -> Option<(&str, &str)> {
    match name.split_once(':') {
        None => Some(("", name)),
        Some((prefix, local)) => {
            let ok = |s: &str| s.chars().next().is_some_and(is_name_start) && !s.contains(':');
            (ok(prefix) && ok(local)).then_some((prefix, local))
        }
    }
}

struct Open {
    qname: String,
    /// With the (prefix, uri) pairs declared here; "" is the default namespace
    elem: Elem,
}

fn lookup(stack: &[Open], own: &[(String, String)], prefix: &str) -> Option<String> {
    if prefix == "xml" {
        return Some(XML_NS.into());
    }
    if let Some((_, uri)) = own.iter().find(|(p, _)| p == prefix) {
        return Some(uri.clone());
    }
    for open in stack.iter().rev() {
        if let Some((_, uri)) = open.elem.decls.iter().find(|(p, _)| p == prefix) {
            return Some(uri.clone());
        }
    }
    if prefix.is_empty() {
        return Some(String::new());
    }
    None
}

pub fn parse(s: &str) -> R<Doc> {
    let mut p = P { s, i: 0 };
    let mut doc = Doc {
        root: Elem::new("", "", Kind::Unknown),
        has_pi: false,
        max_depth: 0,
        max_attrs: 0,
        max_decls: 0,
    };
    p.eat("\u{FEFF}");
    if p.rest().starts_with("<?xml") && !p.rest()[5..].starts_with(is_name_char) {
        p.i += 5;
        p.declaration()?;
    }

    let mut stack: Vec<Open> = Vec::new();
    let mut root: Option<Elem> = None;
    loop {
        if stack.is_empty() {
            // prolog or epilog
            p.spaces();
            if p.i >= s.len() {
                return match root {
                    Some(root) => {
                        doc.root = root;
                        Ok(doc)
                    }
                    None => p.err(Class::Eof),
                };
            }
            if p.eat("<!--") {
                p.comment()?;
                continue;
            }
            if p.eat("<?") {
                doc.has_pi = true;
                p.pi()?;
                continue;
            }
            if p.rest().starts_with("<!DOCTYPE") {
                return Err(XmlError { class: Class::Doctype, pos: p.i });
            }
            if root.is_some() {
                return Err(XmlError { class: Class::Trailing, pos: p.i });
            }
            if !p.rest().starts_with('<') || p.rest().starts_with("<![CDATA[") {
                return Err(XmlError { class: Class::Syntax, pos: p.i });
            }
        }

        if p.eat("<!--") {
            p.comment()?;
        } else if p.eat("<![CDATA[") {
            let text = p.until("]]>", Class::Eof)?;
            stack.last_mut().unwrap().elem.kids.push(Kid::text(text));
        } else if p.eat("<?") {
            doc.has_pi = true;
            p.pi()?;
        } else if p.eat("</") {
            let start = p.i;
            let name = p.name()?;
            p.spaces();
            if !p.eat(">") {
                return p.err(Class::Syntax);
            }
            let Some(open) = stack.pop() else {
                return Err(XmlError { class: Class::Mismatch, pos: start });
            };
            if open.qname != name {
                return Err(XmlError { class: Class::Mismatch, pos: start });
            }
            close(&mut stack, &mut root, open.elem);
        } else if p.eat("<") {
            let start = p.i;
            let (prefix, local) = p.qname()?;
            let qname = s[start..p.i].to_owned();
            let mut raw: Vec<(&str, &str, String)> = Vec::new();
            let empty = loop {
                let spaces = p.spaces();
                if p.eat("/>") {
                    break true;
                }
                if p.eat(">") {
                    break false;
                }
                if !spaces {
                    return p.err(Class::Syntax);
                }
                let (ap, al) = p.qname()?;
                p.spaces();
                if !p.eat("=") {
                    return p.err(Class::Syntax);
                }
                p.spaces();
                let value = p.attr_value()?;
                if raw.iter().any(|(rp, rl, _)| *rp == ap && *rl == al) {
                    return Err(XmlError { class: Class::DupAttr, pos: p.i });
                }
                raw.push((ap, al, value));
            };

            let ns_err = |class| Err(XmlError { class, pos: start });
            let mut decls = Vec::new();
            for (ap, al, value) in &raw {
                let decl = match (*ap, *al) {
                    ("", "xmlns") => "",
                    ("xmlns", p) => p,
                    _ => continue,
                };
                let reserved = value == XMLNS_NS || (value == XML_NS) != (decl == "xml");
                if decl == "xmlns" || reserved || (!decl.is_empty() && value.is_empty()) {
                    return ns_err(Class::NsDecl);
                }
                decls.push((decl.to_owned(), value.clone()));
            }

            if prefix == "xmlns" {
                return ns_err(Class::NsDecl);
            }
            let Some(ns) = lookup(&stack, &decls, prefix) else {
                return ns_err(Class::UnboundPrefix);
            };
            let mut elem = Elem::new(&ns, local, Kind::Unknown);
            for (ap, al, value) in raw {
                if ap == "xmlns" || (ap.is_empty() && al == "xmlns") {
                    continue;
                }
                let ns = match ap {
                    "" => String::new(),
                    _ => match lookup(&stack, &decls, ap) {
                        Some(ns) => ns,
                        None => return ns_err(Class::UnboundPrefix),
                    },
                };
                if elem.attrs.iter().any(|a| a.ns == ns && a.name == al) {
                    return ns_err(Class::DupAttr);
                }
                elem.attrs.push(Attr { ns, name: al.into(), value, card: Card::Unknown, about: About::NONE, label: "" });
            }
            doc.max_attrs = doc.max_attrs.max(elem.attrs.len());
            doc.max_decls = doc.max_decls.max(decls.iter().filter(|(p, _)| !p.is_empty()).count());
            doc.max_depth = doc.max_depth.max(stack.len() + 1);
            elem.decls = decls;
            match empty {
                true => close(&mut stack, &mut root, elem),
                false => stack.push(Open { qname, elem }),
            }
        } else {
            // character data
            let mut text = String::new();
            loop {
                match p.peek() {
                    None => return p.err(Class::Eof),
                    Some('<') => break,
                    Some('&') => {
                        p.i += 1;
                        text.push(p.reference()?);
                    }
                    Some(']') if p.rest().starts_with("]]>") => return p.err(Class::CdataEnd),
                    Some(c) if is_char(c) => {
                        p.i += c.len_utf8();
                        text.push(c);
                    }
                    Some(_) => return p.err(Class::Char),
                }
            }
            stack.last_mut().unwrap().elem.kids.push(Kid::text(text));
        }
    }
}

fn close(stack: &mut [Open], root: &mut Option<Elem>, elem: Elem) {
    match stack.last_mut() {
        Some(open) => open.elem.kids.push(Kid::new(Node::E(elem))),
        None => *root = Some(elem),
    }
}

#[cfg(test)]
mod tests {
    use super::*;

    #[test]
    fn basics() {
        let d = parse("<?xml version='1.0'?>\n<!-- c --><a xmlns='u' b=\"&lt;&#65;\"><c/>x<![CDATA[<]]>y</a><?pi x?>").unwrap();
        assert_eq!(d.root.canon(), "<{u}a {}b=\"<A\"><{u}c></>\"x<y\"</>");
        for (s, class) in [
            ("<a>", Class::Eof),
            ("<a></b>", Class::Mismatch),
            ("<a/><b/>", Class::Trailing),
            ("<a/>x", Class::Trailing),
            ("<x:a/>", Class::UnboundPrefix),
            ("<a b='1' b='2'/>", Class::DupAttr),
            ("<a xmlns:x='u' xmlns:y='u' x:b='1' y:b='2'/>", Class::DupAttr),
            ("<a>]]></a>", Class::CdataEnd),
            ("<a>&foo;</a>", Class::Entity),
            ("<a>&#0;</a>", Class::Entity),
            ("<a b='<'/>", Class::LtInAttr),
            ("<a><!-- -- --></a>", Class::Comment),
        ] {
            assert_eq!(parse(s).unwrap_err().class, class, "{s}");
        }
    }
}
