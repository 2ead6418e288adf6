//! Workload generators: hostile but realistic queries and candidates.

use crate::model::{norm_map, Algo, Cfg, Kind, Sch, Sens};
use crate::normtab::TABLE;
use crate::rng::Rng;
use std::sync::OnceLock;

/// Integer and char literals harvested from the sources under test: an
/// automatic fuzzing dictionary (sizes and characters worth trying), nothing
/// else depends on it.
#[derive(Default, Clone)]
pub struct Dict {
    pub ints: Vec<usize>,
    /// Integers beyond 5000.
    pub bigs: Vec<usize>,
    pub chars: Vec<char>,
}

static DICT: OnceLock<Dict> = OnceLock::new();

pub fn set_dict(d: Dict) {
    let _ = DICT.set(d);
}

pub fn dict() -> &'static Dict {
    DICT.get_or_init(Dict::default)
}

#[derive(Clone, Debug)]
pub struct Step {
    pub query: String,
    pub raw: bool,
    pub cand: String,
    pub cfg: Cfg,
}

static TINY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub fn set_tiny() {
    TINY.store(true, std::sync::atomic::Ordering::SeqCst);
}

fn tiny() -> bool {
    TINY.load(std::sync::atomic::Ordering::SeqCst)
}

/// What kind of queries a workload is made of.
#[derive(Clone)]
pub struct Focus {
    /// Weights of fuzzy, exact, prefix, suffix, equal terms.
    pub kinds: [usize; 5],
    /// Percentage of negated terms.
    pub inverse: usize,
    /// Percentage of queries parsed without the extended syntax.
    pub raw: usize,
    /// Weights of 1, 2, 3, 4.. terms.
    pub terms: [usize; 4],
    /// Percentage of queries that are syntactic soup.
    pub soup: usize,
    /// One case in `large` uses long inputs; 0 means never.
    pub large: usize,
    /// One case in `huge` has a candidate or a query beyond the sizes that
    /// 8- and 16-bit counters, offsets or scores can hold; 0 means never.
    pub huge: usize,
    /// Upper bound on len(query) * len(candidate).
    pub max_cells: usize,
}

impl Focus {
    pub const ANY: Focus = Focus {
        kinds: [4, 2, 2, 2, 1],
        inverse: 15,
        raw: 15,
        terms: [5, 3, 2, 1],
        soup: 10,
        large: 120,
        huge: 5000,
        max_cells: 400_000,
    };
    pub const FUZZY: Focus = Focus {
        kinds: [1, 0, 0, 0, 0],
        inverse: 0,
        raw: 50,
        terms: [1, 0, 0, 0],
        soup: 0,
        large: 100,
        huge: 4000,
        max_cells: 400_000,
    };
    pub const EXACT: Focus = Focus {
        kinds: [0, 4, 3, 3, 3],
        inverse: 0,
        raw: 0,
        terms: [1, 0, 0, 0],
        soup: 0,
        large: 100,
        huge: 4000,
        max_cells: 400_000,
    };
    pub const MULTI: Focus = Focus {
        kinds: [3, 3, 2, 2, 1],
        inverse: 20,
        raw: 0,
        terms: [1, 4, 4, 4],
        soup: 5,
        large: 150,
        huge: 5000,
        max_cells: 200_000,
    };
}

const FLIP_PAIRS: &[char] = &[
    '@', '`', '[', '{', '\\', '|', ']', '}', '^', '~', '_', '\x7f', '!', '\x01', '0', '\x10', ' ',
    '\0', 'P', 'p', 'a', 'A', 'z', 'Z', '-', '\r', '\n', '*',
];

const ODD_CASE: &[char] = &[
    'İ', 'ı', 'I', 'i', 'K', 'k', 'K', 'Å', 'å', 'Å', 'ſ', 's', 'S', 'ǅ', 'ǆ', 'Ǆ', 'ß', 'ẞ', 'ς',
    'σ', 'Σ', 'ﬁ', 'Ω', 'ω', 'Ω', 'ა', 'Ა', 'Ꭰ', 'ꭰ', 'Ⓐ', 'ⓐ', 'Ⅷ', 'ⅷ', 'Ā', 'ā', 'a', 'A',
];

const UNMAPPED: &[char] = &[
    '×', '÷', 'Þ', 'þ', 'Æ', 'æ', 'Ð', 'ð', 'Œ', 'œ', 'Ŋ', 'ŋ', '\u{bf}', '\u{370}', '\u{1cff}',
    '\u{1efa}', '\u{2070}', '\u{2185}', '\u{24f}', '\u{362}', 'À', 'a', 'x', 'o', 'Ā', 'Č', 'Ő',
];

const CLASS_MIX: &[char] = &[
    'a', 'b', 'c', 'x', 'A', 'B', 'C', 'X', '0', '1', '9', ' ', '\t', '/', ',', ':', ';', '|', '_',
    '-', '.', '\\', '#', '(',
];

const WORDS: &[&str] = &[
    "foo", "bar", "baz", "src", "lib", "main", "test", "Foo", "Bar", "README", "index", "query",
    "fuzzy", "match", "aaa", "ab", "abc", "x", "é", "über", "naïve", "Ünï", "日本", "данные", "42",
    "v2", "0", "HTTPServer", "getURL", "fooBar", "fooBarBaz", "co.rs", "rs",
];

const SEPS: &[&str] =
    &["/", "_", "-", " ", ".", "", "::", ":", ",", ";", "|", "\t", "  ", "\\", "·", "\u{a0}"];

pub fn random_scalar(r: &mut Rng) -> char {
    loop {
        let v = match r.below(8) {
            0 => r.below(0x80),
            1 => r.range(0x80, 0x24f),
            2 => r.range(0x250, 0x7ff),
            3 => r.range(0x800, 0xffff),
            4 => r.range(0x1d00, 0x2200),
            5 => r.range(0xfff0, 0x10010),
            6 => *r.pick(&[0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff]),
            _ => r.below(0x110000),
        };
        if let Some(c) = char::from_u32(v as u32) {
            return c;
        }
    }
}

/// Picks the set of characters a case is made of.
pub fn alphabet(r: &mut Rng) -> Vec<char> {
    let mut a = one_alphabet(r);
    if r.one_in(12) {
        let more = one_alphabet(r);
        for _ in 0..r.range(1, 4) {
            a.push(*r.pick(&more));
        }
    }
    a
}

fn one_alphabet(r: &mut Rng) -> Vec<char> {
    let mut a: Vec<char> = match r.below(20) {
        0 | 1 => "ab".chars().collect(),
        2 => "abAB".chars().collect(),
        3 => "abc_".chars().collect(),
        4 => "aA /1".chars().collect(),
        5 | 6 => CLASS_MIX.to_vec(),
        7 => (0x20u8..0x7f).map(char::from).collect(),
        8 => FLIP_PAIRS.to_vec(),
        9 | 10 => {
            // Normalizable letters along with what they normalize to.
            let mut v = Vec::new();
            for _ in 0..r.range(1, 4) {
                let &(c, n) = r.pick(TABLE);
                v.extend([c, n, n.to_ascii_uppercase(), n.to_ascii_lowercase()]);
                v.extend(c.to_uppercase());
                v.extend(c.to_lowercase());
            }
            v
        },
        11 => UNMAPPED.to_vec(),
        12 => "αβγΑΒΓабвАБВ".chars().collect(),
        13 => "日本語🦀👍é—ab".chars().collect(),
        14 => ODD_CASE.to_vec(),
        15 => (0..r.range(2, 6)).map(|_| random_scalar(r)).collect(),
        16 => "ab !'^$|\\".chars().collect(),
        17 => "a1B-é/ 2c".chars().collect(),
        18 => {
            let n = r.range(2, 5);
            (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect()
        },
        _ => {
            let mut v: Vec<char> = "abcABC ".chars().collect();
            v.push(random_scalar(r));
            v
        },
    };
    if r.one_in(10) {
        a.push(random_scalar(r));
    }
    if r.one_in(25) && !dict().chars.is_empty() {
        a.push(*r.pick(&dict().chars));
    }
    // Sub-sample large alphabets so that repeats (and hence alternative
    // alignments) are common.
    if a.len() > 6 && r.pct(60) {
        r.shuffle(&mut a);
        let n = r.range(2, 6);
        a.truncate(n);
    }
    a
}

const EDGES: &[usize] = &[63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513];

pub fn length(r: &mut Rng, large: bool) -> usize {
    if tiny() {
        return if r.one_in(12) { r.range(60, 140) } else { r.below(16) };
    }
    if large {
        return match r.below(4) {
            0 => r.range(257, 600),
            1 => r.range(500, 2500),
            2 => *r.pick(EDGES),
            _ => r.range(100, 1200),
        };
    }
    match r.below(40) {
        0 => 0,
        1..=12 => r.range(1, 6),
        13..=24 => r.range(3, 14),
        25..=32 => r.range(8, 30),
        33..=36 => r.range(20, 80),
        37 => *r.pick(EDGES),
        38 => {
            if dict().ints.is_empty() {
                r.range(60, 140)
            } else {
                let d = *r.pick(&dict().ints);
                (d + r.below(3)).saturating_sub(1).min(1500)
            }
        },
        _ => r.range(60, 300),
    }
}

pub fn candidate(r: &mut Rng, alpha: &[char], large: bool) -> Vec<char> {
    let n = length(r, large);
    let mut c: Vec<char> = Vec::with_capacity(n);
    match r.below(10) {
        0..=3 => {
            for _ in 0..n {
                c.push(*r.pick(alpha));
            }
        },
        4 | 5 => {
            // Runs.
            while c.len() < n {
                let ch = *r.pick(alpha);
                let run = if r.one_in(12) { r.range(5, 60) } else { r.range(1, 4) };
                for _ in 0..run {
                    c.push(ch);
                }
            }
            c.truncate(n);
        },
        6 => {
            // Words and separators.
            while c.len() < n {
                let w = *r.pick(WORDS);
                if r.one_in(4) {
                    c.extend(w.to_uppercase().chars());
                } else {
                    c.extend(w.chars());
                }
                c.extend(r.pick(SEPS).chars());
            }
            if r.pct(50) {
                c.truncate(n);
            }
        },
        7 => {
            // Long gaps of an unrelated filler.
            let filler = *r.pick(&['_', '.', ' ', 'q', 'é', '—', 'Q', '7', '/']);
            while c.len() < n {
                for _ in 0..r.range(1, 3) {
                    c.push(*r.pick(alpha));
                }
                let gap = match r.below(4) {
                    0 => r.range(0, 3),
                    1 => r.range(4, 12),
                    2 => r.range(10, 50),
                    _ => r.range(20, 200),
                };
                c.extend(std::iter::repeat(filler).take(gap));
            }
            c.truncate(n.max(1));
            if r.pct(70) {
                c.push(*r.pick(alpha));
            }
        },
        8 => {
            // A repeated motif with a defect.
            let m: Vec<char> = (0..r.range(1, 5)).map(|_| *r.pick(alpha)).collect();
            while c.len() < n {
                c.extend(&m);
                if r.one_in(5) {
                    c.push(*r.pick(alpha));
                }
            }
            c.truncate(n);
        },
        _ => {
            // Surrounded by spaces.
            let (a, b) = (r.below(4), r.below(4));
            c.extend(std::iter::repeat(' ').take(a));
            for _ in 0..n {
                c.push(*r.pick(alpha));
            }
            c.extend(std::iter::repeat(' ').take(b));
        },
    }
    // A lone non-ASCII char moves the candidate to the other representation.
    if r.one_in(12) {
        let i = r.below(c.len() + 1);
        c.insert(i, *r.pick(&['é', '—', '日', '🦀', '\u{80}', 'ß', 'À']));
    }
    // Something out of place.
    if r.one_in(15) {
        for _ in 0..r.range(1, 2) {
            let ch = match r.below(4) {
                0 => *r.pick(ODD_CASE),
                1 => *r.pick(UNMAPPED),
                2 => *r.pick(CLASS_MIX),
                _ => random_scalar(r),
            };
            let i = r.below(c.len() + 1);
            c.insert(i, ch);
        }
    }
    c
}

fn flip_case(ch: char) -> char {
    let one = |mut it: Box<dyn Iterator<Item = char>>| {
        let c = it.next();
        if it.next().is_some() {
            None
        } else {
            c
        }
    };
    let o = if ch.is_uppercase() {
        one(Box::new(ch.to_lowercase()))
    } else {
        one(Box::new(ch.to_uppercase()))
    };
    o.unwrap_or(ch)
}

/// Rewrites a text the way a user might have typed it differently.
pub fn perturb(r: &mut Rng, t: &mut Vec<char>, alpha: &[char], miss: bool) {
    match r.below(8) {
        0 => {
            for c in t.iter_mut() {
                if r.pct(40) {
                    *c = flip_case(*c);
                }
            }
        },
        1 => {
            for c in t.iter_mut() {
                *c = c.to_lowercase().next().unwrap();
            }
        },
        2 => {
            for c in t.iter_mut() {
                if let Some(&n) = norm_map().get(c) {
                    if r.pct(70) {
                        *c = n;
                    }
                }
            }
        },
        3 => {
            for c in t.iter_mut() {
                if let Some(&n) = norm_map().get(c) {
                    *c = if r.pct(50) { n.to_ascii_lowercase() } else { n.to_ascii_uppercase() };
                }
            }
        },
        _ => {},
    }
    if miss && !t.is_empty() {
        let i = r.below(t.len());
        match r.below(4) {
            0 => t[i] = *r.pick(alpha),
            1 => t.insert(i, *r.pick(alpha)),
            2 => {
                let j = r.below(t.len());
                t.swap(i, j);
            },
            _ => t.push(random_scalar(r)),
        }
    }
}

fn text_len(r: &mut Rng, n: usize, large: bool) -> usize {
    let k = match r.below(16) {
        0..=2 => 1,
        3..=9 => r.range(2, 5),
        10..=12 => r.range(2, 9),
        13 => r.range(5, 40),
        14 if large => r.range(30, 300),
        _ => n,
    };
    k.min(n).min(if large { 700 } else { 120 }).max(1)
}

/// The text of one term, mostly chosen so that it matches.
pub fn term_text(
    r: &mut Rng,
    kind: Kind,
    cand: &[char],
    alpha: &[char],
    large: bool,
    max: usize,
) -> Vec<char> {
    let n = cand.len();
    if n == 0 || r.pct(10) {
        let k = text_len(r, 6, false);
        return (0..k.min(max)).map(|_| *r.pick(alpha)).collect();
    }
    let k = text_len(r, n, large).min(max.max(1));
    let mut t: Vec<char> = match kind {
        Kind::Fuzzy => {
            let mut v = Vec::with_capacity(k);
            match r.below(4) {
                // Spread out.
                0 | 1 => {
                    let mut left = k;
                    for (i, &c) in cand.iter().enumerate() {
                        if left > 0 && r.below(n - i) < left {
                            v.push(c);
                            left -= 1;
                        }
                    }
                },
                // Clusters.
                2 => {
                    let mut i = r.below(n - k + 1);
                    while v.len() < k && i < n {
                        v.push(cand[i]);
                        i += if r.pct(75) { 1 } else { r.range(1, 12) };
                    }
                },
                _ => {
                    let s = r.below(n - k + 1);
                    v.extend(&cand[s..s + k]);
                },
            }
            v
        },
        Kind::Exact => {
            let s = r.below(n - k + 1);
            cand[s..s + k].to_vec()
        },
        Kind::Prefix => {
            let l = cand.iter().take_while(|&&c| c == ' ').count();
            let s = if l > 0 { r.below(l + 1) } else { 0 };
            cand[s..(s + k).min(n)].to_vec()
        },
        Kind::Suffix => {
            let l = cand.iter().rev().take_while(|&&c| c == ' ').count();
            let e = n - if l > 0 { r.below(l + 1) } else { 0 };
            cand[e.saturating_sub(k)..e].to_vec()
        },
        Kind::Equal => {
            let l = cand.iter().take_while(|&&c| c == ' ').count();
            let t = cand.iter().rev().take_while(|&&c| c == ' ').count();
            if l == n {
                cand[..r.range(1, n)].to_vec()
            } else {
                let s = r.below(l + 1);
                let e = n - r.below(t + 1);
                let mut v = cand[s..e].to_vec();
                v.truncate(max.max(1));
                v
            }
        },
    };
    let miss = r.pct(18);
    perturb(r, &mut t, alpha, miss);
    if t.is_empty() {
        t.push(*r.pick(alpha));
    }
    t
}

/// Writes a term in the extended syntax.
pub fn render(r: &mut Rng, text: &[char], kind: Kind, inverse: bool, out: &mut String) {
    let (mut pre, mut post) = (String::new(), "");
    if inverse {
        pre.push('!');
    }
    match (kind, inverse) {
        (Kind::Fuzzy, false) => {},
        (Kind::Fuzzy, true) => pre.push('\''),
        (Kind::Exact, false) => {
            pre.push('\'');
            // `$` is ignored on exact terms.
            if r.one_in(25) {
                post = "$";
            }
        },
        (Kind::Exact, true) => {},
        (Kind::Prefix, _) => pre.push('^'),
        (Kind::Suffix, _) => post = "$",
        (Kind::Equal, _) => {
            pre.push('^');
            post = "$";
        },
    }
    out.push_str(&pre);
    for &c in text {
        if c == ' ' {
            out.push('\\');
        }
        out.push(c);
    }
    out.push_str(post);
}

const SOUP: &[&str] = &[
    " ", "  ", "|", " | ", "!", "'", "^", "$", "\\", "\\ ", "a", "b", "A", "ab", "é", "!'", "!^",
    "'!", "^$", "$$", "||", " |", "| ", "\\|", "\t", "foo", "!a", "^a", "a$", "'a", "\\\\ ",
];

pub fn soup(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.range(0, 12) {
        s.push_str(*r.pick(SOUP));
    }
    s
}

/// A query with so many terms that it outgrows whatever is sized for the
/// usual handful of them.
pub fn dense(r: &mut Rng, alpha: &[char]) -> String {
    let edge = if !dict().ints.is_empty() && r.one_in(3) {
        let d = *r.pick(&dict().ints);
        if d < 2000 { d } else { 128 }
    } else {
        *r.pick(EDGES)
    };
    let n = match r.below(3) {
        0 => (edge + r.below(3)).saturating_sub(1),
        1 => (edge / 2 + r.below(3)).saturating_sub(1),
        _ => r.range(20, 300),
    };
    let n = n.clamp(4, 600);
    if r.pct(40) {
        // The densest a query can be.
        let text: Vec<char> = alpha.iter().copied().filter(|&c| c != ' ' && c != '|').collect();
        let sep = *r.pick(&[" ", " | "]);
        let mut s = String::new();
        for i in 0..n {
            if i > 0 {
                s.push_str(sep);
            }
            s.push(if text.is_empty() { 'a' } else { *r.pick(&text) });
        }
        return s;
    }
    // Mostly the same few pieces, so that all sorts of counts are reached.
    let mixed = r.pct(50);
    let (sep, empty) = (r.below(3), r.pct(30));
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push_str(match if mixed { r.below(3) } else { sep } {
                0 => " ",
                1 => " | ",
                _ => "  ",
            });
        }
        if empty && r.pct(50) {
            s.push_str(r.pick(&["!", "'", "^", "!^", "!'", "|"]));
            continue;
        }
        if r.one_in(4) {
            s.push_str(r.pick(&["!", "'", "^"]));
        }
        for _ in 0..r.range(1, 2) {
            let c = *r.pick(alpha);
            if c == ' ' {
                s.push('\\');
            }
            s.push(c);
        }
        if r.one_in(12) {
            s.push('$');
        }
    }
    s
}

pub fn kind_of(i: usize) -> Kind {
    [Kind::Fuzzy, Kind::Exact, Kind::Prefix, Kind::Suffix, Kind::Equal][i]
}

/// Many conditions that all hold, or all but one.
fn crowd(r: &mut Rng, f: &Focus, cand: &[char]) -> String {
    let most = (f.max_cells / cand.len().max(1)).clamp(2, 600);
    let n = match r.below(4) {
        0 => *r.pick(&[31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 130, 255, 256, 257, 258]),
        1 => r.range(60, 140),
        2 => r.range(5, 60),
        _ => r.range(100, 520),
    }
    .min(most);
    let absent: Vec<char> = "qzjQZ7#éж日"
        .chars()
        .filter(|c| !cand.iter().any(|d| d.to_lowercase().eq(c.to_lowercase())))
        .filter(|c| !(c.is_ascii() && cand.iter().any(|d| norm_map().contains_key(d))))
        .collect();
    let spoiled = if r.pct(50) { r.below(n) } else { n };
    let negated = *r.pick(&[3, 20, 60]);
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push(' ');
        }
        let negate = !absent.is_empty() && (cand.is_empty() || r.pct(negated));
        let holds = i != spoiled || absent.is_empty();
        let alternatives = if holds && r.one_in(6) { r.range(2, 3) } else { 1 };
        let good = r.below(alternatives);
        for k in 0..alternatives {
            if k > 0 {
                s.push_str(" | ");
            }
            let present = negate != (holds && k == good);
            let text: Vec<char> = if present && !cand.is_empty() {
                let len = r.range(1, 3.min(cand.len()));
                let i = r.below(cand.len() - len + 1);
                cand[i..i + len].to_vec()
            } else if absent.is_empty() {
                vec!['\u{1}']
            } else {
                vec![*r.pick(&absent)]
            };
            let kind = if r.pct(60) { Kind::Exact } else { Kind::Fuzzy };
            render(r, &text, kind, negate, &mut s);
        }
    }
    s
}

pub fn query(
    r: &mut Rng,
    f: &Focus,
    cand: &[char],
    alpha: &[char],
    large: bool,
) -> (String, bool) {
    let max = (f.max_cells / cand.len().max(1)).max(2);
    if f.soup > 0 && r.one_in(150) {
        return (dense(r, alpha), r.one_in(20));
    }
    if f.terms[3] > 0 && !tiny() && r.one_in(120) {
        return (crowd(r, f, cand), false);
    }
    if r.pct(f.soup) {
        return (soup(r), r.one_in(6));
    }
    if r.pct(f.raw) {
        let kind = if r.one_in(8) { Kind::Exact } else { Kind::Fuzzy };
        let t = term_text(r, kind, cand, alpha, large, max);
        let mut s: String = t.iter().collect();
        if r.one_in(30) {
            s = soup(r);
        }
        return (s, true);
    }
    let n = match r.weighted(&f.terms) {
        0 => 1,
        1 => 2,
        2 => 3,
        _ => {
            if r.one_in(10) {
                r.range(5, 40)
            } else {
                r.range(4, 7)
            }
        },
    };
    let mut s = String::new();
    if r.one_in(12) {
        s.push_str(r.pick(&[" ", "   ", "| ", " | "]));
    }
    for i in 0..n {
        if i > 0 {
            s.push_str(match r.below(12) {
                0..=3 => " ",
                4 => "   ",
                5..=9 => " | ",
                10 => "  |  ",
                _ => " | | ",
            });
        }
        let kind = kind_of(r.weighted(&f.kinds));
        let inverse = r.pct(f.inverse);
        let t = if inverse && r.pct(60) {
            // Likely absent, so that the negation holds.
            let k = r.range(1, 4);
            (0..k).map(|_| if r.pct(70) { *r.pick(alpha) } else { random_scalar(r) }).collect()
        } else {
            term_text(r, kind, cand, alpha, large && n < 4, max / n + 1)
        };
        render(r, &t, kind, inverse, &mut s);
        if r.one_in(40) {
            s.push_str(r.pick(&[" '", " !", " ^", " |", " !'", "\\", " \\ "]));
        }
    }
    if r.one_in(12) {
        s.push_str(r.pick(&[" ", "  ", " |", " | ", "\\", "\\ "]));
    }
    (s, false)
}

pub fn cfg(r: &mut Rng) -> Cfg {
    Cfg {
        sens: *r.pick(&[Sens::Sensitive, Sens::Insensitive, Sens::Smart]),
        norm: r.pct(50),
        scheme: *r.pick(&[Sch::Default, Sch::Path, Sch::History]),
    }
}

pub fn algo(r: &mut Rng) -> Algo {
    if r.pct(50) {
        Algo::V1
    } else {
        Algo::V2
    }
}

/// A candidate made of whole and partial copies of the text searched for, so
/// that placements with much in common compete.
fn echo(r: &mut Rng, f: &Focus) -> Step {
    let alpha = alphabet(r);
    let n = if tiny() { r.range(1, 6) } else { r.range(1, 18) };
    let text: Vec<char> = match r.below(4) {
        // One class of chars after another.
        0 => {
            let first = *r.pick(&['-', '_', '/', ':', '1', 'a', 'A', 'é', '.', '\\']);
            let rest = if r.pct(50) { 'A' } else { 'a' };
            std::iter::once(first)
                .chain((1..n).map(|i| (rest as u8 + (i % 26) as u8) as char))
                .collect()
        },
        _ => (0..n).map(|_| *r.pick(&alpha)).collect(),
    };
    let copies = if tiny() { 2 } else { r.range(1, 5) };
    let mut cand: Vec<char> = Vec::new();
    if r.pct(50) {
        cand.extend(r.pick(SEPS).chars());
    }
    for _ in 0..copies {
        let mut piece = text.clone();
        match r.below(8) {
            0..=2 => {},
            3 | 4 => {
                piece.drain(..r.below(n));
            },
            5 => piece.truncate(r.range(1, n)),
            6 => {
                let i = r.below(n);
                piece[i] = if r.pct(50) { flip_case(piece[i]) } else { *r.pick(&alpha) };
            },
            _ => {
                let i = r.below(n + 1);
                let sep: Vec<char> = r.pick(SEPS).chars().collect();
                piece.splice(i..i, sep);
            },
        }
        cand.extend(piece);
        if r.pct(85) {
            let times = if r.one_in(6) { r.range(2, 12) } else { 1 };
            for _ in 0..times {
                cand.extend(r.pick(SEPS).chars());
            }
        }
    }
    let mut text = text;
    let miss = r.pct(8);
    perturb(r, &mut text, &alpha, miss);
    let raw = r.pct(f.raw);
    let mut query = String::new();
    if raw {
        query.extend(text);
    } else {
        let kind = kind_of(r.weighted(&f.kinds));
        render(r, &text, kind, false, &mut query);
    }
    Step { query, raw, cand: cand.into_iter().collect(), cfg: cfg(r) }
}

pub fn step(r: &mut Rng, f: &Focus) -> Step {
    if r.one_in(9) {
        return echo(r, f);
    }
    let large = f.large > 0 && r.one_in(f.large);
    let alpha = alphabet(r);
    let cand = candidate(r, &alpha, large);
    let (query, raw) = query(r, f, &cand, &alpha, large);
    let mut s = Step { query, raw, cand: cand.into_iter().collect(), cfg: cfg(r) };
    match r.below(60) {
        0 => {
            s.query = recase(r, &s.query);
            s.cand = recase(r, &s.cand);
        },
        1 => s.cand = recase(r, &s.cand),
        2 => s.cand = accent(r, &s.cand),
        _ => {},
    }
    if f.huge > 0 && !tiny() && r.one_in(f.huge) {
        enlarge(r, f, &mut s);
    }
    s
}

/// Blows a step up.
fn enlarge(r: &mut Rng, f: &Focus, s: &mut Step) {
    if s.query.len() > 60 || s.cand.len() > 3000 {
        return;
    }
    if r.one_in(4) {
        // A long run of matches; just a single one, too long for its score.
        let n = if r.pct(50) { r.range(257, 700) } else { r.range(1250, 1700) };
        let unit: Vec<char> = s.cand.chars().filter(|&c| c != ' ').take(7).collect();
        let unit = if unit.is_empty() { vec!['a'] } else { unit };
        let text: Vec<char> = unit.iter().copied().cycle().take(n).collect();
        let kind = if f.raw == 100 { Kind::Fuzzy } else { kind_of(r.weighted(&f.kinds)) };
        s.raw = kind == Kind::Fuzzy && r.pct(f.raw);
        s.query.clear();
        if s.raw {
            s.query.extend(&text);
        } else {
            render(r, &text, kind, false, &mut s.query);
        }
        s.cand = text.iter().collect();
        if kind != Kind::Prefix && kind != Kind::Equal && r.pct(50) {
            s.cand.insert_str(0, r.pick(&["_", "x", "é", "xyz "]));
        }
        return;
    }
    // Far away from the candidate's start, or with a lot after it.
    let filler = *r.pick(&["_", "-", "q", "日", "é", " ", "/", "a", "x_", "Qé"]);
    let n = match dict().bigs.is_empty() || r.pct(50) {
        true => r.range(65_000, 70_000),
        false => (*r.pick(&dict().bigs) + 2).saturating_sub(r.below(6)),
    } / filler.chars().count();
    let pad = filler.repeat(n);
    match r.below(5) {
        0 => s.cand.push_str(&pad),
        1 => {
            let i = s.cand.char_indices().map(|(i, _)| i).nth(s.cand.chars().count() / 2);
            s.cand.insert_str(i.unwrap_or(0), &pad);
        },
        _ => s.cand.insert_str(0, &pad),
    }
}

/// Letters that are, or are easily taken for, the same but for their case.
const RELATED: &[&str] = &[
    "kK\u{212a}", "sSſ", "åÅ\u{212b}", "iIİıíÍ", "ßẞs", "σςΣ", "ωΩ\u{2126}", "ǆǅǄ", "ⅷⅧ8", "ⓐⒶa",
    "ᲐაA", "ꭰᎠ", "ⱥȺa", "ÿŸy", "µμΜ", "éÉe", "дД", "aA", "bB", "ffﬀ", "ŉn", "ǰj", "θϑϴΘ", "ɐⱯ",
];

/// Replaces some of the letters by related ones.
pub fn recase(r: &mut Rng, s: &str) -> String {
    let pct = r.range(5, 60);
    let group = *r.pick(RELATED);
    let group: Vec<char> = group.chars().collect();
    s.chars()
        .map(|c| {
            if !c.is_alphanumeric() || !r.pct(pct) {
                return c;
            }
            match RELATED.iter().find(|g| g.contains(c)) {
                Some(g) if r.pct(70) => {
                    let g: Vec<char> = g.chars().collect();
                    *r.pick(&g)
                },
                _ => *r.pick(&group),
            }
        })
        .collect()
}

/// Replaces some ASCII letters by letters that are normalized to them.
pub fn accent(r: &mut Rng, s: &str) -> String {
    static BY_LETTER: OnceLock<Vec<Vec<char>>> = OnceLock::new();
    let by = BY_LETTER.get_or_init(|| {
        ('a'..='z')
            .map(|l| TABLE.iter().filter(|(_, n)| n.to_ascii_lowercase() == l).map(|t| t.0).collect())
            .collect()
    });
    let pct = r.range(5, 80);
    s.chars()
        .map(|c| {
            if !c.is_ascii_alphabetic() || !r.pct(pct) {
                return c;
            }
            let of = &by[(c.to_ascii_lowercase() as u8 - b'a') as usize];
            if of.is_empty() { c } else { *r.pick(of) }
        })
        .collect()
}

/// A step that is cheap to interpret, except for the odd one that outgrows
/// the buffers instances start with.
pub fn tiny_step(r: &mut Rng, f: &Focus) -> Step {
    let mut s = step(r, f);
    if r.one_in(10) {
        let n = r.range(60, 160);
        let c = if r.pct(50) { 'x' } else { 'ж' };
        match r.below(4) {
            0 => s.query = std::iter::repeat(c).take(n).collect(),
            1 => s.cand.extend(std::iter::repeat(c).take(n)),
            2 => {
                let q: String = s.cand.chars().filter(|c| *c != ' ').take(6).collect();
                s.query = q;
                s.cand.extend(std::iter::repeat(c).take(n));
            },
            _ => {
                let q: String = s.query.chars().filter(|c| c.is_alphanumeric()).take(3).collect();
                s.cand.extend(std::iter::repeat(c).take(n));
                s.cand = format!("{q}{}{q}", s.cand);
                s.query = q;
            },
        }
    }
    s
}

/// Several steps meant to run on the same instance: related or unrelated.
pub fn session(r: &mut Rng, f: &Focus, max_steps: usize) -> Vec<Step> {
    let n = if max_steps <= 1 { 1 } else { r.range(1, max_steps) };
    let mut steps: Vec<Step> = Vec::with_capacity(n);
    for _ in 0..n {
        let s = match (steps.last(), r.below(10)) {
            // Same query and config, another candidate.
            (Some(p), 0..=2) => {
                let mut cand: Vec<char> = p.cand.chars().collect();
                let alpha = alphabet(r);
                match r.below(7) {
                    // Of the same size, at least in chars.
                    5 | 6 if !cand.is_empty() => {
                        let i = r.below(cand.len());
                        cand[i] = *r.pick(&alpha);
                    },
                    0 => cand.truncate(cand.len() / 2),
                    1 => {
                        let i = r.below(cand.len() + 1);
                        cand.insert(i, *r.pick(&alpha));
                    },
                    2 => {
                        let i = r.below(cand.len() + 1);
                        cand.insert(i, random_scalar(r));
                    },
                    3 => {
                        let t = cand.clone();
                        cand.push(*r.pick(&alpha));
                        if t.len() < 600 {
                            cand.extend(t);
                        }
                    },
                    _ => cand.reverse(),
                }
                Step { cand: cand.into_iter().collect(), ..p.clone() }
            },
            // Same query and candidate, another config.
            (Some(p), 3) => Step { cfg: cfg(r), ..p.clone() },
            // Another query that looks like the last one.
            (Some(p), 4) => {
                let mut q: Vec<char> = p.query.chars().collect();
                let mut raw = p.raw;
                match r.below(4) {
                    0 => q.reverse(),
                    1 => raw = !raw,
                    _ if !q.is_empty() => {
                        let i = r.below(q.len());
                        let alpha = alphabet(r);
                        q[i] = *r.pick(&alpha);
                    },
                    _ => {},
                }
                Step { query: q.into_iter().collect(), raw, ..p.clone() }
            },
            _ => step(r, f),
        };
        steps.push(s);
    }
    steps
}

/// How often an instance is used before it's judged again: about as often as
/// small counters can count, or as the sources mention. `slack` is subtracted
/// at most.
pub fn many(r: &mut Rng, slack: usize) -> usize {
    let n = match r.below(7) {
        0 | 1 => 256,
        2 | 3 => 65_536,
        4 if !dict().ints.is_empty() => *r.pick(&dict().ints),
        5 if !dict().bigs.is_empty() => *r.pick(&dict().bigs),
        4 => 128,
        5 => 32_768,
        _ => r.range(8, 3000),
    };
    n.saturating_sub(r.below(slack + 1))
}

// ------------------------------------------------- all the small inputs --

#[derive(Clone, Copy, PartialEq)]
pub enum Sweep {
    /// One fuzzy term.
    Fuzzy,
    /// One exact, prefix, suffix or equality term.
    Exact,
    /// Up to three terms.
    Multi,
}

/// The `n`-th string over `alpha`, the shortest first.
pub fn nth(alpha: &[char], mut n: u64) -> String {
    let k = alpha.len() as u64;
    let mut s = Vec::new();
    while n > 0 {
        n -= 1;
        s.push(alpha[(n % k) as usize]);
        n /= k;
    }
    s.iter().collect()
}

/// How many strings of up to `len` chars there are.
pub fn nths(k: u64, len: u32) -> u64 {
    (0..=len).map(|l| k.pow(l)).sum()
}

/// Case `case` of an exhaustive sweep over small queries and candidates, or
/// `None` once that's done.
pub fn swept(kind: Sweep, case: u64, thorough: bool) -> Option<(Algo, Vec<Step>)> {
    let algo = [Algo::V1, Algo::V2][(case & 1) as usize];
    let n = case >> 1;
    let cfgs = [
        Cfg { sens: Sens::Smart, norm: false, scheme: Sch::Default },
        Cfg { sens: Sens::Insensitive, norm: true, scheme: Sch::Path },
        Cfg { sens: Sens::Smart, norm: true, scheme: Sch::History },
        Cfg { sens: Sens::Sensitive, norm: false, scheme: Sch::Path },
    ];
    // One is ASCII, the other isn't.
    let alphas: [[char; 5]; 2] = [['a', 'b', 'B', '/', ' '], ['a', 'É', '1', '日', '-']];
    let steps = match kind {
        Sweep::Fuzzy | Sweep::Exact => {
            let fuzzy = kind == Sweep::Fuzzy;
            let len = match (fuzzy, thorough) {
                (true, false) => 5,
                (true, true) => 7,
                (false, false) => 4,
                (false, true) => 6,
            };
            let (cfg, n) = (cfgs[(n % 4) as usize], n / 4);
            let (alpha, n) = (&alphas[(n % 2) as usize], n / 2);
            if n >= nths(5, len) {
                return None;
            }
            let cand = nth(alpha, n);
            let step = |query: String| Step { query, raw: fuzzy, cand: cand.clone(), cfg };
            if fuzzy {
                (1..nths(2, 3)).map(|q| step(nth(&alpha[..2], q))).collect::<Vec<_>>()
            } else {
                let (a, b) = (alpha[0], alpha[1]);
                let texts = [
                    format!("{a}"), format!("{b}"), format!("{a}{b}"), format!("{a}{a}"),
                    format!("{b}{a}{a}"), format!("{a}\\ "), format!("\\ {a}"), "\\ ".to_string(),
                    format!("{a}{}", alpha[3]),
                ];
                texts
                    .iter()
                    .flat_map(|t| {
                        [format!("'{t}"), format!("^{t}"), format!("{t}$"), format!("^{t}$"),
                         format!("!{t}"), format!("!^{t}"), format!("!{t}$"), format!("!^{t}$")]
                    })
                    .map(step)
                    .collect()
            }
        },
        Sweep::Multi => {
            let terms = ["a", "b", "ab", "ba", "'a", "'ab", "^a", "b$", "^ab$", "!a", "!b$", "!'ab"];
            let join = [" ", " | "];
            let query = if n < 12 {
                terms[n as usize].to_string()
            } else if n < 12 + 288 {
                let n = n as usize - 12;
                format!("{}{}{}", terms[n % 12], join[n / 12 % 2], terms[n / 24])
            } else if n < 12 + 288 + 6912 {
                let n = n as usize - 300;
                let (a, b, c) = (terms[n % 12], terms[n / 12 % 12], terms[n / 144 % 12]);
                format!("{a}{}{b}{}{c}", join[n / 1728 % 2], join[n / 3456])
            } else {
                return None;
            };
            let len = if thorough { 5 } else { 3 };
            let cfg = cfgs[(n % 4) as usize];
            (0..nths(3, len))
                .map(|c| Step { query: query.clone(), raw: false, cand: nth(&['a', 'b', ' '], c), cfg })
                .collect()
        },
    };
    Some((algo, steps))
}
