//! The XML information the checks compare: expanded names, attributes, text and order.

/// How often a node may occur in the type it was produced for
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Card {
    One,
    Opt,
    Many,
    /// Part of a group that is present or absent as a whole
    Group,
    /// Not known (parsed documents)
    Unknown,
}

/// What kind of type an element stands for
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    /// Children matched by name, no direct text
    Struct,
    /// Children matched by name, text is the value of a field
    Direct,
    /// Children in order
    Tuple,
    /// No content
    Unit,
    /// Text is a scalar value
    Scalar,
    /// Not known (parsed documents)
    Unknown,
}

/// More about the type a node was produced for
#[derive(Clone, Copy, Debug, Default)]
pub struct About {
    /// A scalar enum: all its texts
    pub texts: Option<&'static [&'static str]>,
    /// The element selects the variant of a forward enum
    pub forward: bool,
    /// A field of a transparent struct
    pub transparent: bool,
    /// Absent text is the empty value
    pub empty_ok: bool,
}

impl About {
    pub const NONE: About = About { texts: None, forward: false, transparent: false, empty_ok: false };
    pub const STRING: About = About { empty_ok: true, ..About::NONE };
}

#[derive(Clone, Debug)]
pub struct Attr {
    pub ns: String,
    pub name: String,
    pub value: String,
    pub card: Card,
    pub about: About,
    pub label: &'static str,
}

#[derive(Clone, Debug)]
pub enum Node {
    E(Elem),
    T(String),
}

#[derive(Clone, Debug)]
pub struct Kid {
    pub node: Node,
    /// Kids with different slots belong to different fields
    pub slot: u64,
    pub card: Card,
    pub about: About,
    /// What the field this node belongs to is called: `Type::field`
    pub label: &'static str,
}

#[derive(Clone, Debug)]
pub struct Elem {
    pub ns: String,
    pub name: String,
    pub attrs: Vec<Attr>,
    pub kids: Vec<Kid>,
    pub kind: Kind,
    /// Namespace declarations (parsed documents only)
    pub decls: Vec<(String, String)>,
}

impl Kid {
    pub fn new(node: Node) -> Self {
        Kid { node, slot: 0, card: Card::Unknown, about: About::NONE, label: "" }
    }
    pub fn text(s: impl Into<String>) -> Self {
        Kid::new(Node::T(s.into()))
    }
    pub fn elem(&self) -> Option<&Elem> {
        match &self.node {
            Node::E(e) => Some(e),
            Node::T(_) => None,
        }
    }
}

impl Elem {
    pub fn new(ns: &str, name: &str, kind: Kind) -> Self {
        Elem { ns: ns.into(), name: name.into(), attrs: Vec::new(), kids: Vec::new(), kind, decls: Vec::new() }
    }

    pub fn attr(mut self, ns: &str, name: &str, value: &str) -> Self {
        self.attrs.push(Attr {
            ns: ns.into(),
            name: name.into(),
            value: value.into(),
            card: Card::Unknown,
            about: About::NONE,
            label: "",
        });
        self
    }

    pub fn child(mut self, e: Elem) -> Self {
        self.kids.push(Kid::new(Node::E(e)));
        self
    }

    pub fn text(mut self, s: &str) -> Self {
        self.kids.push(Kid::text(s));
        self
    }

    /// Unambiguous string form used for comparison: attributes sorted, adjacent text merged.
    pub fn canon(&self) -> String {
        let mut out = String::new();
        self.canon_into(&mut out);
        out
    }

    fn canon_into(&self, out: &mut String) {
        use std::fmt::Write;
        write!(out, "<{{{}}}{}", self.ns, self.name).unwrap();
        let mut attrs: Vec<_> = self.attrs.iter().map(|a| (&a.ns, &a.name, &a.value)).collect();
        attrs.sort();
        for (ns, name, value) in attrs {
            write!(out, " {{{ns}}}{name}={value:?}").unwrap();
        }
        out.push('>');
        let mut text = String::new();
        for kid in &self.kids {
            match &kid.node {
                Node::T(t) => text.push_str(t),
                Node::E(e) => {
                    if !text.is_empty() {
                        write!(out, "{text:?}").unwrap();
                        text.clear();
                    }
                    e.canon_into(out);
                }
            }
        }
        if !text.is_empty() {
            write!(out, "{text:?}").unwrap();
        }
        out.push_str("</>");
    }

    pub fn count(&self) -> usize {
        1 + self.kids.iter().filter_map(|k| k.elem()).map(Elem::count).sum::<usize>()
    }

    pub fn depth(&self) -> usize {
        1 + self.kids.iter().filter_map(|k| k.elem()).map(Elem::depth).max().unwrap_or(0)
    }

    /// Direct text content (all text kids joined)
    pub fn own_text(&self) -> String {
        self.kids
            .iter()
            .filter_map(|k| match &k.node {
                Node::T(t) => Some(t.as_str()),
                Node::E(_) => None,
            })
            .collect()
    }

    /// Visit all elements, parents before children
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Elem)) {
        f(self);
        for kid in &self.kids {
            if let Node::E(e) = &kid.node {
                e.walk(f);
            }
        }
    }

    pub fn walk_mut(&mut self, f: &mut dyn FnMut(&mut Elem)) {
        f(self);
        for kid in &mut self.kids {
            if let Node::E(e) = &mut kid.node {
                e.walk_mut(f);
            }
        }
    }

    /// The `n`th element in document order
    pub fn nth_mut(&mut self, n: usize) -> Option<&mut Elem> {
        fn go<'a>(e: &'a mut Elem, n: &mut usize) -> Option<&'a mut Elem> {
            if *n == 0 {
                return Some(e);
            }
            *n -= 1;
            for kid in &mut e.kids {
                if let Node::E(c) = &mut kid.node {
                    if let Some(found) = go(c, n) {
                        return Some(found);
                    }
                }
            }
            None
        }
        let mut n = n;
        go(self, &mut n)
    }
}
