//! Writes what the reference parser says of many documents, for gen/expat_check.py
use std::io::Write;

use harness::infoset::{Elem, Node};
use harness::refxml::{self, Doc};
use harness::render::{render, Style};
use harness::rng::Rng;
use harness::runner::json_str;
use harness::trees::{any_tree, malform};

fn put(e: &Elem, out: &mut String) {
    out.push_str(&format!("[{},{},[", json_str(&e.ns), json_str(&e.name)));
    let mut attrs: Vec<_> = e.attrs.iter().map(|a| (&a.ns, &a.name, &a.value)).collect();
    attrs.sort();
    let attrs: Vec<_> =
        attrs.into_iter().map(|(n, l, v)| format!("[{},{},{}]", json_str(n), json_str(l), json_str(v))).collect();
    out.push_str(&attrs.join(","));
    out.push_str("],[");
    let mut text = String::new();
    let mut first = true;
    let mut sep = |out: &mut String| {
        if !std::mem::take(&mut first) {
            out.push(',');
        }
    };
    for kid in &e.kids {
        match &kid.node {
            Node::T(t) => text.push_str(t),
            Node::E(k) => {
                if !text.is_empty() {
                    sep(out);
                    out.push_str(&json_str(&std::mem::take(&mut text)));
                }
                sep(out);
                put(k, out);
            }
        }
    }
    if !text.is_empty() {
        sep(out);
        out.push_str(&json_str(&text));
    }
    out.push_str("]]");
}

fn main() {
    let mut args = std::env::args().skip(1);
    let mut arg = || args.next().expect("SEED COUNT").parse::<u64>().unwrap();
    let (seed, count) = (arg(), arg());
    let mut out = std::io::BufWriter::new(std::io::stdout());
    for i in 0..count {
        let mut r = Rng::new(seed.wrapping_mul(1 << 32) ^ i);
        let m = any_tree(&mut r);
        let style = match r.chance(50) {
            true => Style::ALL,
            false => Style::random(&mut r),
        };
        let mut xml = render(&m, style, &mut r);
        for _ in 0..r.below(3) {
            xml = malform(&xml, &mut r);
        }
        let (class, tree) = match refxml::parse(&xml) {
            Ok(Doc { root, .. }) => {
                let mut s = String::new();
                put(&root, &mut s);
                ("ok".to_owned(), s)
            }
            Err(e) => (format!("{:?}", e.class), "null".to_owned()),
        };
        writeln!(out, "[{},{},{tree}]", json_str(&xml), json_str(&class)).unwrap();
    }
}
