//! Changes to a model with a known effect on what it means.

use crate::infoset::{Card, Elem, Kid, Kind, Node};
use crate::rng::Rng;

/// Reorders the fields of structs; the order within a field is kept
pub fn permute(e: &mut Elem, r: &mut Rng) -> bool {
    let mut changed = false;
    e.walk_mut(&mut |e| {
        if !matches!(e.kind, Kind::Struct | Kind::Direct) || e.kids.len() < 2 {
            return;
        }
        let mut by_slot: Vec<(u64, std::collections::VecDeque<Kid>)> = Vec::new();
        let before: Vec<u64> = e.kids.iter().map(|k| k.slot).collect();
        for k in e.kids.drain(..) {
            match by_slot.iter_mut().find(|(s, _)| *s == k.slot) {
                Some((_, q)) => q.push_back(k),
                None => by_slot.push((k.slot, [k].into())),
            }
        }
        while !by_slot.is_empty() {
            let i = r.below(by_slot.len());
            e.kids.push(by_slot[i].1.pop_front().unwrap());
            if by_slot[i].1.is_empty() {
                by_slot.swap_remove(i);
            }
        }
        changed |= e.kids.iter().map(|k| k.slot).ne(before);
    });
    e.walk_mut(&mut |e| {
        if e.attrs.len() > 1 {
            r.shuffle(&mut e.attrs);
            changed = true;
        }
    });
    changed
}

/// An element no type in the zoo knows
pub fn unknown(r: &mut Rng, like: Option<&Elem>, depth: usize) -> Elem {
    let ns = match (r.below(4), like) {
        // Known name in another namespace, and the other way around
        (0, Some(e)) => {
            let mut e = Elem::new("urn:zz-unknown", &e.name, Kind::Unknown);
            e.kids = junk_kids(r, depth);
            return e;
        }
        (1, Some(e)) => e.ns.clone(),
        (2, _) => String::new(),
        _ => "urn:zz-unknown".into(),
    };
    let name = *r.pick(&["zz1", "zz-two", "zzé", "Zz.3"]);
    let mut e = Elem::new(&ns, name, Kind::Unknown);
    for i in 0..r.below(3) {
        e = e.attr(*r.pick(&["", "urn:zz-unknown"]), &format!("zz{i}"), *r.pick(&["", "v<&>'\"", "é", "true"]));
    }
    e.kids = junk_kids(r, depth);
    e
}

fn junk_kids(r: &mut Rng, depth: usize) -> Vec<Kid> {
    let mut kids = Vec::new();
    for _ in 0..r.below(3) {
        kids.push(match depth > 0 && r.chance(40) {
            true => Kid::new(Node::E(unknown(r, None, depth - 1))),
            false => Kid::text(*r.pick(&["", "text", " \n", "<&>]]>", "é漢😀", "true"])),
        });
    }
    kids
}

/// Adds unknown elements and attributes where they must be ignored; returns how many
pub fn add_unknown(root: &mut Elem, r: &mut Rng) -> usize {
    let mut added = 0;
    root.walk_mut(&mut |e| {
        if e.kind == Kind::Unknown {
            return;
        }
        let text = e.kids.iter().any(|k| matches!(k.node, Node::T(_)));
        let elements = match e.kind {
            Kind::Struct | Kind::Direct | Kind::Unit => true,
            Kind::Tuple => !text,
            _ => false,
        };
        if elements && r.chance(40) {
            let like = e.kids.iter().filter_map(|k| k.elem()).next().cloned();
            let u = unknown(r, like.as_ref(), 2);
            let at = r.below(e.kids.len() + 1);
            e.kids.insert(at, Kid::new(Node::E(u)));
            added += 1;
        }
        if r.chance(30) {
            let (ns, name) = match (r.below(4), e.attrs.first()) {
                (0, Some(a)) => ("urn:zz-unknown".to_owned(), a.name.clone()),
                (1, _) => (e.ns.clone(), "zzattr".to_owned()),
                (2, _) => (crate::refxml::XML_NS.to_owned(), "lang".to_owned()),
                _ => (String::new(), "zzattr".to_owned()),
            };
            if !e.attrs.iter().any(|a| a.ns == ns && a.name == name) {
                let at = r.below(e.attrs.len() + 1);
                let mut tmp = std::mem::replace(e, Elem::new("", "", Kind::Unknown));
                tmp = tmp.attr(&ns, &name, *r.pick(&["", "v", "1", "<&\""]));
                let a = tmp.attrs.pop().unwrap();
                tmp.attrs.insert(at, a);
                *e = tmp;
                added += 1;
            }
        }
    });
    added
}

/// A place where the number of occurrences matters
#[derive(Clone, Debug)]
pub struct Site {
    /// Element in document order
    pub elem: usize,
    pub attr: bool,
    /// Attribute or child
    pub at: usize,
    pub card: Card,
    pub text: bool,
}

pub fn sites(root: &Elem) -> Vec<Site> {
    let mut out = Vec::new();
    let mut n = 0;
    root.walk(&mut |e| {
        for (at, a) in e.attrs.iter().enumerate() {
            out.push(Site { elem: n, attr: true, at, card: a.card, text: false });
        }
        if matches!(e.kind, Kind::Struct | Kind::Direct) {
            for (at, k) in e.kids.iter().enumerate() {
                out.push(Site { elem: n, attr: false, at, card: k.card, text: k.elem().is_none() });
            }
        }
        n += 1;
    });
    out
}

pub fn remove(root: &mut Elem, s: &Site) {
    let e = root.nth_mut(s.elem).unwrap();
    match s.attr {
        true => drop(e.attrs.remove(s.at)),
        false => drop(e.kids.remove(s.at)),
    }
}
