//! The reference model: a direct, allocation-happy transcription of what the
//! library's documentation (and fzf, whose behaviour it promises) says a
//! query means. It shares no code with the library under observation.

use crate::normtab::TABLE;
use std::collections::HashMap;
use std::sync::OnceLock;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sens {
    Sensitive,
    Insensitive,
    Smart,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sch {
    Default,
    Path,
    History,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Algo {
    V1,
    V2,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Cfg {
    pub sens: Sens,
    pub norm: bool,
    pub scheme: Sch,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Fuzzy,
    Exact,
    Prefix,
    Suffix,
    Equal,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Term {
    pub text: Vec<char>,
    pub kind: Kind,
    pub inverse: bool,
}

pub type Positions = Vec<usize>;
pub type Ranges = Vec<(usize, usize)>;

/// What a call is expected to return.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Out {
    pub score: i64,
    pub ranges: Ranges,
}

// ---------------------------------------------------------------- syntax --

/// Splits an extended-mode query into its words.
pub fn words(query: &str) -> Vec<Vec<char>> {
    let mut words = Vec::new();
    let mut cur: Option<Vec<char>> = None;
    let mut escaping = false;
    for ch in query.chars() {
        if ch == ' ' {
            if escaping {
                let w = cur.as_mut().unwrap();
                *w.last_mut().unwrap() = ' ';
                escaping = false;
            } else if let Some(w) = cur.take() {
                words.push(w);
            }
        } else {
            cur.get_or_insert_with(Vec::new).push(ch);
            escaping = ch == '\\';
        }
    }
    words.extend(cur);
    words
}

pub fn term(word: &[char]) -> Option<Term> {
    let mut t = word;
    let mut inverse = false;
    let mut anchored_end = false;
    if let [ '!', rest @ .. ] = t {
        inverse = true;
        t = rest;
    }
    if t.len() > 1 {
        if let [ rest @ .., '$' ] = t {
            anchored_end = true;
            t = rest;
        }
    }
    let kind = match t {
        ['\'', rest @ ..] => {
            t = rest;
            if inverse {
                Kind::Fuzzy
            } else {
                Kind::Exact
            }
        },
        ['^', rest @ ..] => {
            t = rest;
            if anchored_end {
                Kind::Equal
            } else {
                Kind::Prefix
            }
        },
        _ if anchored_end => Kind::Suffix,
        _ if inverse => Kind::Exact,
        _ => Kind::Fuzzy,
    };
    if t.is_empty() {
        return None;
    }
    Some(Term { text: t.to_vec(), kind, inverse })
}

/// The AND-list of OR-lists that an extended-mode query stands for.
pub fn parse(query: &str) -> Vec<Vec<Term>> {
    let mut conds: Vec<Vec<Term>> = Vec::new();
    // Does the next term join the last condition?
    let mut join = false;
    for w in words(query) {
        if w == ['|'] {
            join = true;
        } else if let Some(t) = term(&w) {
            match conds.last_mut() {
                Some(c) if join => c.push(t),
                _ => conds.push(vec![t]),
            }
            join = false;
        }
    }
    conds
}

pub fn parse_raw(query: &str) -> Vec<Vec<Term>> {
    if query.is_empty() {
        return Vec::new();
    }
    vec![vec![Term {
        text: query.chars().collect(),
        kind: Kind::Fuzzy,
        inverse: false,
    }]]
}

// ------------------------------------------------------ char comparison --

pub fn norm_map() -> &'static HashMap<char, char> {
    static MAP: OnceLock<HashMap<char, char>> = OnceLock::new();
    MAP.get_or_init(|| TABLE.iter().copied().collect())
}

pub fn norm_char(c: char) -> char {
    if c.is_ascii() {
        return c;
    }
    norm_map().get(&c).copied().unwrap_or(c)
}

pub fn fold_eq(a: char, b: char) -> bool {
    if a == b {
        return true;
    }
    if a.is_ascii() || b.is_ascii() {
        a.is_ascii() && b.is_ascii() && a.to_ascii_lowercase() == b.to_ascii_lowercase()
    } else {
        a.to_lowercase().collect::<Vec<_>>() == b.to_lowercase().collect::<Vec<_>>()
    }
}

#[derive(Clone, Copy)]
pub struct CharCmp {
    pub sensitive: bool,
    pub norm: bool,
}

impl CharCmp {
    pub fn new(cfg: Cfg, text: &[char]) -> Self {
        let sensitive = match cfg.sens {
            Sens::Sensitive => true,
            Sens::Insensitive => false,
            Sens::Smart => text.iter().any(|c| c.is_uppercase()),
        };
        Self { sensitive, norm: cfg.norm }
    }

    /// Does the query's character `q` match the candidate's character `c`?
    pub fn eq(&self, q: char, c: char) -> bool {
        if self.sensitive {
            q == c || (self.norm && q.is_ascii() && q == norm_char(c))
        } else if fold_eq(q, c) {
            true
        } else if self.norm && q.is_ascii() && !c.is_ascii() {
            if fold_eq(q, norm_char(c)) {
                return true;
            }
            let low: Vec<char> = c.to_lowercase().collect();
            low.len() == 1 && fold_eq(q, norm_char(low[0]))
        } else {
            false
        }
    }
}

// ------------------------------------------------------------- bonuses --

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Class {
    White,
    NonWord,
    Delim,
    Lower,
    Upper,
    Letter,
    Number,
}

pub fn class(c: char, scheme: Sch) -> Class {
    let delims: &[char] = match scheme {
        Sch::Path if cfg!(windows) => &['/', '\\'],
        Sch::Path => &['/'],
        _ => &['/', ',', ':', ';', '|'],
    };
    if c.is_ascii() {
        match c {
            'a'..='z' => Class::Lower,
            'A'..='Z' => Class::Upper,
            '0'..='9' => Class::Number,
            ' ' | '\t' | '\n' | '\r' | '\x0C' => Class::White,
            _ if delims.contains(&c) => Class::Delim,
            _ => Class::NonWord,
        }
    } else if c.is_lowercase() {
        Class::Lower
    } else if c.is_uppercase() {
        Class::Upper
    } else if c.is_numeric() {
        Class::Number
    } else if c.is_alphabetic() {
        Class::Letter
    } else if c.is_whitespace() {
        Class::White
    } else {
        Class::NonWord
    }
}

pub const BOUNDARY: i64 = 8;

pub fn bonus_of(prev: Class, this: Class, scheme: Sch) -> i64 {
    let (white, delim) = match scheme {
        Sch::Default => (10, 9),
        Sch::Path => (8, 9),
        Sch::History => (8, 8),
    };
    match this {
        Class::NonWord => 8,
        Class::White => white,
        Class::Upper if prev == Class::Lower => 7,
        Class::Number if prev != Class::Number => 7,
        _ => match prev {
            Class::White => white,
            Class::Delim => delim,
            Class::NonWord => 8,
            _ => 0,
        },
    }
}

/// The positional bonus of every character of the candidate.
pub fn bonuses(cand: &[char], scheme: Sch) -> Vec<i64> {
    let mut prev = match scheme {
        Sch::Path => Class::Delim,
        _ => Class::White,
    };
    cand.iter()
        .map(|&c| {
            let this = class(c, scheme);
            let b = bonus_of(prev, this, scheme);
            prev = this;
            b
        })
        .collect()
}

/// The score of matching a pattern at the given ascending char positions.
pub fn score_alignment(pos: &[usize], bon: &[i64]) -> i64 {
    let mut score = 0;
    let mut first_bonus = 0;
    for (k, &p) in pos.iter().enumerate() {
        let mut b = bon[p];
        if k > 0 && pos[k - 1] + 1 == p {
            if b >= BOUNDARY && b > first_bonus {
                first_bonus = b;
            }
            b = b.max(first_bonus).max(4);
        } else {
            first_bonus = b;
            if k > 0 {
                let gap = (p - pos[k - 1] - 1) as i64;
                score -= 3 + (gap - 1);
            }
        }
        score += 16 + if k == 0 { 2 * b } else { b };
    }
    score
}

// ----------------------------------------------------------- matching --

pub fn is_subsequence(q: &[char], c: &[char], cmp: CharCmp) -> bool {
    let mut i = 0;
    for &ch in c {
        if i < q.len() && cmp.eq(q[i], ch) {
            i += 1;
        }
    }
    i == q.len()
}

fn greedy_from(q: &[char], c: &[char], start: usize, cmp: CharCmp) -> Option<Positions> {
    let mut pos = Vec::with_capacity(q.len());
    let mut at = start;
    for &qc in q {
        while at < c.len() && !cmp.eq(qc, c[at]) {
            at += 1;
        }
        if at == c.len() {
            return None;
        }
        pos.push(at);
        at += 1;
    }
    Some(pos)
}

/// fzf's v1: earliest end, then latest start for that end.
pub fn fuzzy_v1(q: &[char], c: &[char], cmp: CharCmp, sch: Sch) -> Option<(i64, Positions)> {
    let fwd = greedy_from(q, c, 0, cmp)?;
    let mut at = *fwd.last().unwrap() + 1;
    for &qc in q.iter().rev() {
        at -= 1;
        while !cmp.eq(qc, c[at]) {
            at -= 1;
        }
    }
    let pos = greedy_from(q, c, at, cmp).unwrap();
    Some((score_alignment(&pos, &bonuses(c, sch)), pos))
}

/// fzf's v2.
pub fn fuzzy_v2(q: &[char], c: &[char], cmp: CharCmp, sch: Sch) -> Option<(i64, Positions)> {
    let bon = bonuses(c, sch);
    if q.len() == 1 {
        let mut best: Option<(i64, usize)> = None;
        for (i, &ch) in c.iter().enumerate() {
            if cmp.eq(q[0], ch) {
                let s = 16 + 2 * bon[i];
                if best.map_or(true, |(b, _)| s > b) {
                    best = Some((s, i));
                }
            }
        }
        return best.map(|(s, i)| (s, vec![i]));
    }
    let first = greedy_from(q, c, 0, cmp)?;
    let m = q.len();
    let last = (0..c.len()).rev().find(|&i| cmp.eq(q[m - 1], c[i])).unwrap();
    let off = first[0];
    let w = last - off + 1;
    // h[i][j]: best score of q[..=i] against c[off..=off+j]
    // k[i][j]: length of the run of consecutive matches ending there.
    let mut h = vec![0i64; m * w];
    let mut k = vec![0usize; m * w];
    let (mut best, mut best_j) = (0i64, 0usize);
    for i in 0..m {
        let mut in_gap = false;
        for j in (first[i] - off)..w {
            let left = if j > first[i] - off { h[i * w + j - 1] } else { 0 };
            let skip = (left - if in_gap { 1 } else { 3 }).max(0);
            let mut take = 0;
            let mut run = 0;
            if cmp.eq(q[i], c[off + j]) {
                let b = bon[off + j];
                if i == 0 {
                    h[j] = 16 + 2 * b;
                    k[j] = 1;
                    in_gap = false;
                    if m == 1 && h[j] > best {
                        best = h[j];
                        best_j = j;
                    }
                    continue;
                }
                take = h[(i - 1) * w + j - 1] + 16;
                run = k[(i - 1) * w + j - 1] + 1;
                let mut bb = b;
                if run > 1 {
                    let fb = bon[off + j + 1 - run];
                    if bb >= BOUNDARY && bb > fb {
                        run = 1;
                    } else {
                        bb = bb.max(fb).max(4);
                    }
                }
                if take + bb < skip {
                    take += b;
                    run = 0;
                } else {
                    take += bb;
                }
            }
            in_gap = take < skip;
            h[i * w + j] = take.max(skip);
            k[i * w + j] = run;
            if i == m - 1 && h[i * w + j] > best {
                best = h[i * w + j];
                best_j = j;
            }
        }
    }
    // Traceback.
    let mut pos = Vec::new();
    let (mut i, mut j) = (m - 1, best_j);
    let mut prefer = true;
    loop {
        let s = h[i * w + j];
        let diag = if i > 0 && j >= first[i] - off && j > 0 { h[(i - 1) * w + j - 1] } else { 0 };
        let left = if j > first[i] - off { h[i * w + j - 1] } else { 0 };
        let prefer_now = prefer;
        prefer = k[i * w + j] > 1
            || (i + 1) * w + j + 1 < m * w && k[(i + 1) * w + j + 1] > 0;
        if s > diag && (s > left || s == left && prefer_now) {
            pos.push(off + j);
            if i == 0 {
                break;
            }
            i -= 1;
        }
        if j == 0 {
            break;
        }
        j -= 1;
    }
    pos.reverse();
    Some((best, pos))
}

/// The best score over every alignment, with nothing but the per-alignment
/// scoring rule: the state is the bonus that the current run of consecutive
/// matches hands on (0, 7, 8, 9 or 10). With `clamp`, as in v2, a gap can
/// cost no more than what has been scored so far.
pub fn best_alignment(
    q: &[char],
    c: &[char],
    cmp: CharCmp,
    sch: Sch,
    clamp: bool,
) -> Option<i64> {
    const NONE: i64 = i64::MIN / 4;
    const FB: usize = 11;
    let bon = bonuses(c, sch);
    let n = c.len();
    // run[j][f]: q[..=i] matched, the last char at j, run bonus f.
    let mut run = vec![[NONE; FB]; n];
    for (i, &qc) in q.iter().enumerate() {
        let mut cur = vec![[NONE; FB]; n];
        // Best of the previous row ending before j - 1, gap penalty applied.
        let mut gap = NONE;
        for j in 0..n {
            if i > 0 && j >= 2 {
                let ended = *run[j - 2].iter().max().unwrap();
                gap = (gap - 1).max(ended - 3).max(NONE);
                if clamp && gap > NONE / 2 {
                    gap = gap.max(0);
                }
            }
            if !cmp.eq(qc, c[j]) {
                continue;
            }
            let b = bon[j];
            if i == 0 {
                cur[j][b as usize] = 16 + 2 * b;
                continue;
            }
            if gap > NONE / 2 {
                let s = gap + 16 + b;
                cur[j][b as usize] = cur[j][b as usize].max(s);
            }
            if j > 0 {
                for f in 0..FB {
                    let s = run[j - 1][f];
                    if s > NONE / 2 {
                        let nf = if b >= BOUNDARY && b > f as i64 { b as usize } else { f };
                        let s = s + 16 + b.max(nf as i64).max(4);
                        cur[j][nf] = cur[j][nf].max(s);
                    }
                }
            }
        }
        run = cur;
    }
    run.iter().flatten().copied().max().filter(|&s| s > NONE / 2)
}

#[cfg(test)]
mod tests {
    use super::*;

    fn brute(q: &[char], c: &[char], cmp: CharCmp, sch: Sch) -> Option<i64> {
        fn go(q: &[char], c: &[char], cmp: CharCmp, bon: &[i64], from: usize, pos: &mut Vec<usize>, best: &mut Option<i64>) {
            if pos.len() == q.len() {
                let s = score_alignment(pos, bon);
                *best = Some(best.map_or(s, |b| b.max(s)));
                return;
            }
            for i in from..c.len() {
                if cmp.eq(q[pos.len()], c[i]) {
                    pos.push(i);
                    go(q, c, cmp, bon, i + 1, pos, best);
                    pos.pop();
                }
            }
        }
        let mut best = None;
        go(q, c, cmp, &bonuses(c, sch), 0, &mut Vec::new(), &mut best);
        best
    }

    /// The oracles agree with each other where they must.
    #[test]
    fn oracles_are_consistent() {
        for case in 0..200_000u64 {
            let mut r = crate::rng::Rng::new(1, "model", case);
            let mut alpha = crate::gen::alphabet(&mut r);
            alpha.truncate(4);
            let c: Vec<char> = (0..r.range(1, 11)).map(|_| *r.pick(&alpha)).collect();
            let q: Vec<char> = (0..r.range(1, 4)).map(|_| *r.pick(&alpha)).collect();
            let cfg = crate::gen::cfg(&mut r);
            let cmp = CharCmp::new(cfg, &q);
            let best = brute(&q, &c, cmp, cfg.scheme);
            assert_eq!(best_alignment(&q, &c, cmp, cfg.scheme, false), best, "{q:?} {c:?} {cfg:?}");
            let clamped = best_alignment(&q, &c, cmp, cfg.scheme, true);
            assert!(clamped >= best);
            let v1 = fuzzy_v1(&q, &c, cmp, cfg.scheme);
            let v2 = fuzzy_v2(&q, &c, cmp, cfg.scheme);
            assert_eq!(v1.is_some(), best.is_some());
            assert_eq!(v2.is_some(), best.is_some());
            if let Some(best) = best {
                let ((s1, p1), (s2, p2)) = (v1.unwrap(), v2.unwrap());
                assert!(s1 <= best && s2 <= clamped.unwrap(), "{q:?} {c:?} {cfg:?}");
                for p in [p1, p2] {
                    assert_eq!(p.len(), q.len());
                    assert!(p.windows(2).all(|w| w[0] < w[1]));
                    assert!(p.iter().zip(&q).all(|(&i, &x)| cmp.eq(x, c[i])));
                }
            }
        }
    }
}

fn lead(c: &[char]) -> usize {
    c.iter().take_while(|&&c| c == ' ').count()
}

fn trail(c: &[char]) -> usize {
    c.iter().rev().take_while(|&&c| c == ' ').count()
}

/// Where an exact-family term matches (start, in chars), if it does.
pub fn exact_at(t: &Term, c: &[char], cmp: CharCmp, sch: Sch) -> Option<usize> {
    let q = &t.text;
    let m = q.len();
    let here = |s: usize| {
        s + m <= c.len() && q.iter().zip(&c[s..s + m]).all(|(&a, &b)| cmp.eq(a, b))
    };
    match t.kind {
        Kind::Fuzzy => unreachable!(),
        Kind::Exact => {
            let bon = bonuses(c, sch);
            let mut best: Option<usize> = None;
            if m > c.len() {
                return None;
            }
            for s in 0..=c.len() - m {
                if here(s) {
                    if best.map_or(true, |b| bon[s] > bon[b]) {
                        best = Some(s);
                    }
                    if bon[s] >= BOUNDARY {
                        break;
                    }
                }
            }
            best
        },
        Kind::Prefix => {
            let s = lead(c).checked_sub(lead(q))?;
            here(s).then_some(s)
        },
        Kind::Suffix => {
            let e = c.len() - trail(c).checked_sub(trail(q))?;
            let s = e.checked_sub(m)?;
            here(s).then_some(s)
        },
        Kind::Equal => {
            let s = lead(c).checked_sub(lead(q))?;
            let e = c.len() - trail(c).checked_sub(trail(q))?;
            (s + m == e && here(s)).then_some(s)
        },
    }
}

/// Score and char positions of a term, ignoring its negation.
pub fn eval_term(
    algo: Algo,
    cfg: Cfg,
    t: &Term,
    c: &[char],
) -> Option<(i64, Positions)> {
    let cmp = CharCmp::new(cfg, &t.text);
    match t.kind {
        Kind::Fuzzy => match algo {
            Algo::V1 => fuzzy_v1(&t.text, c, cmp, cfg.scheme),
            Algo::V2 => fuzzy_v2(&t.text, c, cmp, cfg.scheme),
        },
        _ => {
            let s = exact_at(t, c, cmp, cfg.scheme)?;
            let pos: Positions = (s..s + t.text.len()).collect();
            Some((score_alignment(&pos, &bonuses(c, cfg.scheme)), pos))
        },
    }
}

/// Turns a set of char positions into maximal byte ranges.
pub fn to_ranges(mut pos: Positions, c: &[char]) -> Ranges {
    pos.sort_unstable();
    pos.dedup();
    let mut offs = Vec::with_capacity(c.len() + 1);
    let mut o = 0;
    for ch in c {
        offs.push(o);
        o += ch.len_utf8();
    }
    offs.push(o);
    let mut out: Ranges = Vec::new();
    for p in pos {
        let (s, e) = (offs[p], offs[p + 1]);
        match out.last_mut() {
            Some(l) if l.1 == s => l.1 = e,
            _ => out.push((s, e)),
        }
    }
    out
}

pub fn eval(algo: Algo, cfg: Cfg, conds: &[Vec<Term>], cand: &str) -> Option<Out> {
    let c: Vec<char> = cand.chars().collect();
    let mut total = 0;
    let mut pos = Positions::new();
    for cond in conds {
        let mut hit = false;
        for t in cond {
            let r = eval_term(algo, cfg, t, &c);
            match (r, t.inverse) {
                (Some((s, p)), false) => {
                    total += s;
                    pos.extend(p);
                    hit = true;
                },
                (None, true) => hit = true,
                _ => {},
            }
            if hit {
                break;
            }
        }
        if !hit {
            return None;
        }
    }
    Some(Out { score: total, ranges: to_ranges(pos, &c) })
}
