//! Words and numbers for generated inputs, among them the literals of the code under test (as a
//! fuzzer's dictionary): they say what to try, never what is right.

use std::sync::OnceLock;

use crate::refxml::is_char;
use crate::rng::Rng;

#[derive(Default)]
pub struct Dict {
    pub words: Vec<String>,
    pub numbers: Vec<u64>,
}

/// Lines `s HEX` and `n NUMBER` in the file `$HARNESS_DICT`
pub fn dict() -> &'static Dict {
    static DICT: OnceLock<Dict> = OnceLock::new();
    DICT.get_or_init(|| {
        let mut d = Dict::default();
        let Some(path) = std::env::var_os("HARNESS_DICT") else { return d };
        let Ok(text) = std::fs::read_to_string(path) else { return d };
        for line in text.lines() {
            match line.split_once(' ') {
                Some(("s", hex)) => {
                    let bytes: Vec<u8> =
                        (0..hex.len() / 2).filter_map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).ok()).collect();
                    let s: String = String::from_utf8_lossy(&bytes).chars().filter(|c| is_char(*c)).collect();
                    if !s.is_empty() {
                        d.words.push(s);
                    }
                }
                Some(("n", n)) => d.numbers.extend(n.parse::<u64>()),
                _ => {}
            }
        }
        d
    })
}

const REAL: &[&str] = &[
    "http://example.com/a?b=1", "https://x.example/#z", "mailto:a@b.example", "urn:x:y", "user@example.com", "2024-01-01",
    "12:30:00", "1,234.50", "C:\\x\\y", "/a/b.c", "../x", "#fff", "$1.00", "100%", "{\"a\": [1]}", "a<b;", "if (a && b) { c(); }",
    "a|b", "~", "`x`", "^", "null", "None", "NaN", "inf", "yes", "no", "TRUE", "0x1F", "+1", "-0", "1e5", "٣", "ﬁ", "İ", "ß", "ǅ",
    "\u{200b}", "\u{a0}", "e\u{301}", "👨\u{200d}👩", "--", "://", "?x=1", "=", "@", ":", ",", ".", "/", "\\", "(", ")", "*", "_", "%20",
    "xmlns", "xmlns:a", "xml:lang", "xsi:type", "<br/>", "\u{feff}x", "\u{2003}x\u{2003}", "\u{1680}", "\u{3000}",
];

/// A word as it stands, or a part of one
pub fn word(r: &mut Rng) -> &'static str {
    let words = &dict().words;
    let w: &'static str = match !words.is_empty() && r.chance(60) {
        true => r.pick(words),
        false => r.pick(REAL),
    };
    if r.chance(70) {
        return w;
    }
    let parts: Vec<&str> = w.split(|c: char| !c.is_alphanumeric()).filter(|s| !s.is_empty()).collect();
    match parts.is_empty() {
        true => w,
        false => *r.pick(&parts),
    }
}

/// A length around some power of two or number in the code
pub fn length(r: &mut Rng, max: usize) -> usize {
    let numbers = &dict().numbers;
    let n = match !numbers.is_empty() && r.chance(50) {
        true => *r.pick(numbers) as usize,
        false => 1 << r.below(17),
    };
    let n = n.saturating_add(r.below(3)).saturating_sub(1);
    match n > max {
        true => r.below(max + 1),
        false => n,
    }
}

/// An integer around one in the code
pub fn number(r: &mut Rng) -> Option<i128> {
    let numbers = &dict().numbers;
    (!numbers.is_empty()).then(|| *r.pick(numbers) as i128 + r.below(3) as i128 - 1)
}
