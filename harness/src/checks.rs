//! One monitor per property. Each judges executions of the real library.

use crate::gen::{self, Focus, Step, Sweep};
use crate::model::{self, Algo, Cfg, CharCmp, Kind, Ranges, Sch, Sens, Term};
use crate::normtab::TABLE;
use crate::rng::{hash_str, mix, Rng};
use crate::run::{CaseFn, Obs};
use crate::subj::{self, guard, parse, show, Met, Res, Viol};
use crate::tools;
use norm::fzf::{FzfDistance, FzfParser};

pub struct Check {
    pub id: &'static str,
    pub f: CaseFn,
    pub quick: u64,
    pub thorough: u64,
}

const ALGOS: [Algo; 2] = [Algo::V1, Algo::V2];
const SENSES: [Sens; 3] = [Sens::Sensitive, Sens::Insensitive, Sens::Smart];
const SCHEMES: [Sch; 3] = [Sch::Default, Sch::Path, Sch::History];

macro_rules! fail {
    ($($t:tt)*) => { return Err(Viol::new(format!($($t)*))) };
}

/// All the small inputs first, then random ones.
fn swept_or(
    kind: Sweep,
    case: u64,
    o: &mut Obs,
    random: impl FnOnce() -> (Algo, Vec<Step>),
) -> (Algo, Vec<Step>) {
    match gen::swept(kind, case, o.tier_thorough) {
        Some(s) => {
            o.count("swept_calls", s.1.len() as u64);
            s
        },
        None => random(),
    }
}

fn ctx<T>(r: Res<T>, what: impl FnOnce() -> String) -> Res<T> {
    r.map_err(|v| Viol::new(format!("{}\n  in: {}", v.msg, what())))
}

fn terms_of(s: &Step) -> Vec<Vec<Term>> {
    if s.raw {
        model::parse_raw(&s.query)
    } else {
        model::parse(&s.query)
    }
}

/// Counts what kind of execution this was.
fn note(o: &mut Obs, s: &Step, algo: Algo, matched: Option<usize>) {
    o.count(if algo == Algo::V1 { "calls_v1" } else { "calls_v2" }, 1);
    match matched {
        None => o.count("non_matches", 1),
        Some(n) => {
            o.count("matches", 1);
            if n > 1 {
                o.count("matches_with_several_ranges", 1);
            }
        },
    }
    if !s.cand.is_ascii() {
        o.count("non_ascii_candidates", 1);
    }
    o.max("max_candidate_bytes", s.cand.len() as u64);
    o.max("max_query_bytes", s.query.len() as u64);
}

pub fn judged(o: &mut Obs, s: &Step, algo: Algo, nontrivial: bool) {
    let k = hash_str(&s.query)
        ^ hash_str(&s.cand).rotate_left(17)
        ^ mix(s.cfg.sens as u64 + 4 * s.cfg.norm as u64 + 8 * s.cfg.scheme as u64)
        ^ mix(100 + algo as u64 * 2 + s.raw as u64);
    o.eval_h(k, nontrivial);
    if nontrivial {
        o.sample(|| show(s, algo));
    }
}

fn fresh_dnr(s: &Step, algo: Algo) -> Res<Option<(i64, Ranges)>> {
    let mut p = FzfParser::new();
    let q = parse(&mut p, &s.query, s.raw)?;
    Met::with(algo, s.cfg).dnr(q, &s.cand)
}

fn fresh_q(query: &str, raw: bool, cand: &str, cfg: Cfg, algo: Algo) -> Res<Option<(i64, Ranges)>> {
    let mut p = FzfParser::new();
    let q = parse(&mut p, query, raw)?;
    Met::with(algo, cfg).dnr(q, cand)
}

// ------------------------------------------------------- C01: totality --

fn c01(r: &mut Rng, _: u64, o: &mut Obs) -> Res {
    let mut f = Focus { soup: 20, large: 60, max_cells: 600_000, ..Focus::ANY };
    if o.tier_thorough {
        f.max_cells = 2_000_000;
        f.large = 25;
    }
    let algo = gen::algo(r);
    let huge = r.one_in(if o.tier_thorough { 1500 } else { 2500 });
    let steps = if huge { vec![if r.pct(60) { huge_query(r) } else { huge_cand(r, algo) }] } else { gen::session(r, &f, 4) };
    let mut p = FzfParser::new();
    let mut m = Met::new(algo);
    for s in &steps {
        let what = || crate::run::clip(&show(s, algo));
        m.set(s.cfg);
        let text = ctx(guard("Debug of the parser", || format!("{p:?}")), what)?;
        let q = ctx(parse(&mut p, &s.query, s.raw), what)?;
        let qtext = ctx(guard("Debug of the query", || format!("{q:?} {q:#?}")), what)?;
        let mtext = ctx(guard("Debug of the metric", || format!("{m:?} {m:#?}")), what)?;
        let d = ctx(m.dist_raw(q, &s.cand), what)?;
        let dtext = ctx(guard("Debug of the distance", || format!("{d:?}")), what)?;
        let mut buf = Vec::new();
        let d2 = ctx(m.dnr_into(q, &s.cand, &mut buf), what)?;
        for b in &buf {
            if s.cand.get(b.clone()).is_none() {
                fail!("range {b:?} can't be used to slice the candidate\n  in: {}", what());
            }
        }
        std::hint::black_box((text, qtext, mtext, dtext));
        note(o, s, algo, d2.map(|_| buf.len()));
        if huge {
            o.count("huge_inputs", 1);
        }
        judged(o, s, algo, !s.query.is_empty() && !s.cand.is_empty());
    }
    Ok(())
}

/// A short motif of the query syntax, repeated a lot.
fn huge_query(r: &mut Rng) -> Step {
    const PIECES: &[&str] = &[
        " ", "!", "'", "^", "$", "|", "\\", "\\ ", "a", "é", " | ", "! ", "| ", "' ", "^ ", "a ", "$ ",
        "!' ", "!^ ", "!$ ", "^$ ", "\\\\ ", "!a ", "'b ", "a$ ", "^a ", "a | ", "!z ",
    ];
    let motif: String = (0..r.range(1, 3)).map(|_| *r.pick(PIECES)).collect();
    let mut query = String::new();
    if r.pct(30) {
        query.push_str("ab ");
    }
    query.push_str(&motif.repeat(if !gen::dict().bigs.is_empty() && r.pct(50) {
        (*r.pick(&gen::dict().bigs) + 2).saturating_sub(r.below(6))
    } else {
        r.range(60_000, 130_000)
    }));
    if r.pct(30) {
        query.push_str(" | b");
    } else if r.pct(30) {
        query.push('a');
    }
    let cand = r.pick(&["", "a", "ab", "éa b", "b!'^$| \\a"]).to_string();
    Step { query, raw: r.one_in(12), cand, cfg: gen::cfg(r) }
}

/// Inputs beyond 2^16 chars or bytes.
fn huge_cand(r: &mut Rng, algo: Algo) -> Step {
    let n = if !gen::dict().bigs.is_empty() && r.pct(60) {
        (*r.pick(&gen::dict().bigs) + 2).saturating_sub(r.below(6))
    } else {
        r.range(65_000, 90_000)
    };
    let tail: Vec<char> = match r.below(3) {
        0 => "aB".chars().collect(),
        1 => "éa".chars().collect(),
        _ => "a🦀b".chars().collect(),
    };
    let filler = *r.pick(&['a', '_', 'é', '日']);
    let mut cand: Vec<char> = vec![filler; n];
    for _ in 0..r.below(6) {
        let i = r.below(n);
        cand[i] = *r.pick(&tail);
    }
    cand.extend(&tail);
    let (query, raw): (Vec<char>, bool) = if algo == Algo::V1 && r.pct(50) {
        // A run longer than 2^16.
        (cand.clone(), true)
    } else {
        match r.below(4) {
            0 => (tail.clone(), true),
            1 => {
                let mut q = vec!['\''];
                q.extend(&tail);
                (q, false)
            },
            2 => {
                let mut q = tail.clone();
                q.push('$');
                (q, false)
            },
            _ => {
                let mut q = vec!['^', filler, filler, ' '];
                q.extend(&tail);
                (q, false)
            },
        }
    };
    Step {
        query: query.into_iter().collect(),
        raw,
        cand: cand.into_iter().collect(),
        cfg: gen::cfg(r),
    }
}

// --------------------------------------- C04: metric history independence --

/// One instance is used very often, mostly for small things, and judged on the
/// first and the last calls.
fn c04_marathon(r: &mut Rng, o: &mut Obs) -> Res {
    let f = Focus { large: 8, huge: 0, max_cells: 60_000, ..Focus::ANY };
    let algo = if r.pct(80) { Algo::V2 } else { Algo::V1 };
    let mut m = Met::new(algo);
    let cfg = gen::cfg(r);
    let judge = |m: &mut Met, s: &Step, calls: usize, o: &mut Obs| -> Res {
        let what = || format!("{}\n  after {calls} calls on the same instance", show(s, algo));
        let expected = ctx(fresh_dnr(s, algo), what)?;
        m.set(s.cfg);
        let mut p = FzfParser::new();
        let q = parse(&mut p, &s.query, s.raw)?;
        let got = ctx(m.dnr(q, &s.cand), what)?;
        if got != expected {
            fail!("result is {got:?}, a new instance returns {expected:?}\n  in: {}", what());
        }
        judged(o, s, algo, expected.is_some());
        Ok(())
    };
    // The same query with its chars apart, then next to one another: what is
    // known of one candidate's chars is wrong for the other's.
    let k = r.range(2, 30);
    let gap = r.range(5, 10);
    let query = format!("a{}", "b".repeat(k));
    let apart = |i: usize| format!("xa{}{}", "_".repeat(i), format!("b{}", "_".repeat(gap - 1)).repeat(k + 4));
    let close = format!("{}a{}", r.pick(&["x", "x", "x", "_", ""]), "b".repeat(k + r.below(3)));
    let step = |cand: String| Step { query: query.clone(), raw: true, cand, cfg };
    let mut calls = 0;
    let before: Vec<Step> = if r.pct(60) {
        (0..gap).map(|i| step(apart(i))).collect()
    } else {
        gen::session(r, &f, 4)
    };
    for s in &before {
        judge(&mut m, s, calls, o)?;
        calls += 1;
    }
    let n = gen::many(r, gap);
    if n <= 3000 && r.pct(50) {
        let small = Focus { large: 0, huge: 0, max_cells: 400, ..Focus::ANY };
        for _ in 0..n {
            let s = gen::step(r, &small);
            judge(&mut m, &s, calls, o)?;
            calls += 1;
        }
    } else {
        let (q, c) = *r.pick(&[("ab", "ab"), ("ab", "a_b"), ("ab", "éab"), ("ab", "xab"), ("'b", "ab"), ("ab", "b"), ("a", "a")]);
        let s = Step { query: q.into(), raw: false, cand: c.into(), cfg };
        let expected = fresh_dnr(&s, algo)?;
        m.set(cfg);
        let mut p = FzfParser::new();
        let q = parse(&mut p, &s.query, s.raw)?;
        let mut buf = Vec::new();
        let with_ranges = r.pct(50);
        for _ in 0..n {
            buf.clear();
            let d = if with_ranges { m.dnr_into(q, &s.cand, &mut buf)? } else { m.dist(q, &s.cand)? };
            calls += 1;
            if d != expected.as_ref().map(|e| e.0) {
                fail!("distance is {d:?}, a new instance returns {expected:?}\n  in: {}\n  after {calls} calls on the same instance", show(&s, algo));
            }
        }
        o.evals += n as u64;
    }
    let after: Vec<Step> = if before.len() == gap && r.pct(80) {
        vec![step(close)]
    } else {
        gen::session(r, &f, 4)
    };
    for s in &after {
        judge(&mut m, s, calls, o)?;
        calls += 1;
    }
    o.count("marathons", 1);
    o.count("calls_on_used_instances", calls as u64);
    Ok(())
}

fn c04(r: &mut Rng, _: u64, o: &mut Obs) -> Res {
    if r.one_in(3000) {
        return c04_marathon(r, o);
    }
    let f = Focus { large: 25, max_cells: 120_000, ..Focus::ANY };
    let algo = gen::algo(r);
    let mut steps = gen::session(r, &f, 7);
    // Make growing and shrinking sequences common.
    match r.below(4) {
        0 => steps.sort_by_key(|s| s.cand.len()),
        1 => steps.sort_by_key(|s| std::cmp::Reverse(s.cand.len())),
        _ => {},
    }
    let mut p = FzfParser::new();
    let mut m = Met::new(algo);
    let mut hist = Vec::new();
    // All candidates and all queries lie at the same address.
    let room = |f: fn(&Step) -> usize| steps.iter().map(f).max().unwrap_or(0);
    let mut cand = String::with_capacity(room(|s| s.cand.len()));
    let mut query = String::with_capacity(room(|s| s.query.len()));
    for (i, s) in steps.iter().enumerate() {
        if r.one_in(6) {
            let in_place = r.pct(50);
            let mut copy = Met::new(algo);
            if in_place {
                // The copy has been used, too.
                let s = gen::step(r, &Focus { large: 0, huge: 0, ..f.clone() });
                copy.set(s.cfg);
                let mut p = FzfParser::new();
                let q = parse(&mut p, &s.query, s.raw)?;
                let _ = copy.dnr(q, &s.cand)?;
            }
            guard("cloning the metric", || copy.copy_from(&m, in_place))?;
            m = copy;
            hist.push(if in_place { "clone_from" } else { "clone" }.to_string());
        }
        let mut order = [0, 1, 2];
        r.shuffle(&mut order);
        if r.one_in(4) {
            // Options are last-write-wins.
            m.set(gen::cfg(r));
        }
        m.set_in_order(s.cfg, &order);
        if r.pct(50) {
            p = FzfParser::new();
        }
        cand.clear();
        cand.push_str(&s.cand);
        query.clear();
        query.push_str(&s.query);
        let q = parse(&mut p, &query, s.raw)?;
        let how = r.below(3);
        let fresh = ctx(fresh_dnr(s, algo), || show(s, algo))?;
        let what = || {
            format!(
                "step {} on a reused instance: {}\n  after: {}",
                i + 1,
                show(s, algo),
                hist.join("\n         ")
            )
        };
        if how == 0 {
            let d = ctx(m.dist(q, &cand), what)?;
            let e = fresh.as_ref().map(|f| f.0);
            if d != e {
                fail!("distance is {d:?}, a new instance returns {e:?}\n  in: {}", what());
            }
        } else {
            let d = ctx(m.dnr(q, &cand), what)?;
            if d != fresh {
                fail!("result is {d:?}, a new instance returns {fresh:?}\n  in: {}", what());
            }
        }
        note(o, s, algo, fresh.as_ref().map(|f| f.1.len()));
        judged(o, s, algo, i > 0 && fresh.is_some());
        if i > 0 {
            o.count("calls_on_used_instances", 1);
        }
        hist.push(crate::run::clip(&show(s, algo)));
    }
    Ok(())
}

// ------------------------------------------------ C05: parser reuse/clone --

/// One parser is used very often, mostly for small things.
fn c05_marathon(r: &mut Rng, o: &mut Obs) -> Res {
    let f = Focus { large: 8, huge: 0, max_cells: 30_000, raw: 25, soup: 15, ..Focus::ANY };
    let mut p = FzfParser::new();
    let judge = |p: &mut FzfParser, s: &Step, parses: usize, o: &mut Obs| -> Res {
        let algo = Algo::V1;
        let what = || format!("{}\n  after {parses} parses by the same parser", show(s, algo));
        let expected = ctx(fresh_dnr(s, algo), what)?;
        let q = parse(p, &s.query, s.raw)?;
        let got = ctx(Met::with(algo, s.cfg).dnr(q, &s.cand), what)?;
        if got != expected {
            fail!("reused parser gives {got:?}, a new one gives {expected:?}\n  in: {}", what());
        }
        judged(o, s, algo, !s.query.is_empty());
        Ok(())
    };
    let mut parses = 0;
    for s in gen::session(r, &f, 4) {
        judge(&mut p, &s, parses, o)?;
        parses += 1;
    }
    let n = gen::many(r, 8);
    if n <= 3000 && r.pct(50) {
        let small = Focus { large: 0, huge: 0, max_cells: 400, raw: 25, soup: 15, ..Focus::ANY };
        for _ in 0..n {
            let s = gen::step(r, &small);
            judge(&mut p, &s, parses, o)?;
            parses += 1;
        }
    } else {
        let text = *r.pick(&["a", "a b", "!a | b", "", "a\\ b", "^a$ 'b"]);
        let raw = r.pct(30);
        for _ in 0..n {
            parse(&mut p, text, raw)?;
        }
        parses += n;
    }
    for s in gen::session(r, &f, 4) {
        judge(&mut p, &s, parses, o)?;
        parses += 1;
    }
    o.count("marathons", 1);
    o.count("parses_in_marathons", parses as u64);
    Ok(())
}

fn c05(r: &mut Rng, _: u64, o: &mut Obs) -> Res {
    if r.one_in(3000) {
        return c05_marathon(r, o);
    }
    let f = Focus { large: 25, max_cells: 60_000, raw: 25, soup: 15, ..Focus::ANY };
    let mut steps = gen::session(r, &f, 6);
    match r.below(4) {
        0 => steps.sort_by_key(|s| s.query.len()),
        1 => steps.sort_by_key(|s| std::cmp::Reverse(s.query.len())),
        _ => {},
    }
    let mut p = FzfParser::new();
    let mut hist = Vec::new();
    // All queries lie at the same address.
    let mut text = String::with_capacity(steps.iter().map(|s| s.query.len()).max().unwrap_or(0));
    for (i, s) in steps.iter().enumerate() {
        let algo = gen::algo(r);
        text.clear();
        text.push_str(&s.query);
        let what = || format!("{}\n  after parsing: {hist:?}", show(s, algo));
        let expected = ctx(fresh_dnr(s, algo), what)?;
        let mut m = Met::with(algo, s.cfg);
        match r.below(5) {
            // A clone of a parser parses like the parser, and parsing on
            // either leaves the other's live query alone.
            0 => {
                let other = gen::step(r, &f);
                let mut p2 = FzfParser::new();
                if r.pct(50) {
                    p2 = guard("cloning the parser", || normapi::clone_parser(&p))?;
                } else {
                    parse(&mut p2, &other.query, other.raw)?;
                    guard("cloning the parser", || p2.clone_from(&p))?;
                }
                let q = parse(&mut p, &text, s.raw)?;
                let q2 = parse(&mut p2, &other.query, other.raw)?;
                let _ = m.dnr(q2, &s.cand)?;
                let got = ctx(m.dnr(q, &s.cand), what)?;
                if got != expected {
                    fail!("with a clone parsing {:?}: {got:?}, a new parser gives {expected:?}\n  in: {}", other.query, what());
                }
                let q2 = parse(&mut p2, &text, s.raw)?;
                let got = ctx(m.dnr(q2, &s.cand), what)?;
                if got != expected {
                    fail!("the clone gives {got:?}, a new parser gives {expected:?}\n  in: {}", what());
                }
                o.count("clones", 1);
            },
            // A query outlives the clone made while it's alive.
            1 => {
                let p2 = guard("cloning the parser", || normapi::clone_parser(&p))?;
                let q = parse(&mut p, &text, s.raw)?;
                drop(p2);
                let copy = q;
                for q in [copy, q, copy] {
                    let got = ctx(m.dnr(q, &s.cand), what)?;
                    if got != expected {
                        fail!("copied query gives {got:?}, a new parser gives {expected:?}\n  in: {}", what());
                    }
                }
                o.count("copies", 1);
            },
            _ => {
                let q = parse(&mut p, &text, s.raw)?;
                let before = guard("Debug of the query", || format!("{q:?}"))?;
                let got = ctx(m.dnr(q, &s.cand), what)?;
                if got != expected {
                    fail!("reused parser gives {got:?}, a new one gives {expected:?}\n  in: {}", what());
                }
                // The query can be used any number of times.
                let got = ctx(m.dnr(q, &s.cand), what)?;
                if got != expected {
                    fail!("second use of the query gives {got:?}, expected {expected:?}\n  in: {}", what());
                }
                let after = guard("Debug of the query", || format!("{q:?}"))?;
                if before != after {
                    fail!("the query changed from {before} to {after}\n  in: {}", what());
                }
                let mut fp = FzfParser::new();
                let fq = parse(&mut fp, &s.query, s.raw)?;
                let fresh = guard("Debug of the query", || format!("{fq:?}"))?;
                if before != fresh {
                    fail!("reused parser parses {before}, a new one {fresh}\n  in: {}", what());
                }
            },
        }
        note(o, s, algo, expected.as_ref().map(|f| f.1.len()));
        judged(o, s, algo, i > 0 && !s.query.is_empty());
        hist.push(crate::run::clip(&s.query));
    }
    Ok(())
}

// ------------------------------- C06: distance and distance_and_ranges agree --

fn c06(r: &mut Rng, case: u64, o: &mut Obs) -> Res {
    let f = Focus { large: 60, max_cells: 200_000, ..Focus::ANY };
    let (algo, steps) = swept_or(Sweep::Multi, case, o, || (gen::algo(r), gen::session(r, &f, 3)));
    let mut p = FzfParser::new();
    let mut m = Met::new(algo);
    for s in steps {
        let s = &s;
        let what = || show(s, algo);
        m.set(s.cfg);
        let q = parse(&mut p, &s.query, s.raw)?;
        let mut results = Vec::new();
        let mut ranges: Option<Option<(i64, Ranges)>> = None;
        for _ in 0..r.range(2, 5) {
            if r.pct(50) {
                results.push(("distance", ctx(m.dist(q, &s.cand), what)?));
            } else {
                let d = ctx(m.dnr(q, &s.cand), what)?;
                results.push(("distance_and_ranges", d.as_ref().map(|d| d.0)));
                if let Some(e) = &ranges {
                    if *e != d {
                        fail!("repeating the call gives {d:?} after {e:?}\n  in: {}", what());
                    }
                }
                ranges = Some(d);
            }
        }
        let mut other = Met::with(algo, s.cfg);
        results.push(("distance on a new instance", ctx(other.dist(q, &s.cand), what)?));
        let d = ctx(Met::with(algo, s.cfg).dnr(q, &s.cand), what)?;
        results.push(("distance_and_ranges on a new instance", d.as_ref().map(|d| d.0)));
        if results.windows(2).any(|w| w[0].1 != w[1].1) {
            fail!("the operations disagree: {results:?}\n  in: {}", what());
        }
        o.count("operations_compared", results.len() as u64);
        note(o, s, algo, d.as_ref().map(|d| d.1.len()));
        judged(o, s, algo, d.is_some() && !s.query.is_empty());
    }
    Ok(())
}

// --------------------------------------------------- C07: buffer contract --

fn c07(r: &mut Rng, case: u64, o: &mut Obs) -> Res {
    let mut f = Focus { large: 80, max_cells: 150_000, ..Focus::MULTI };
    if r.pct(40) {
        f = Focus { large: 80, max_cells: 150_000, ..Focus::ANY };
    }
    let (algo, steps) = swept_or(Sweep::Multi, case, o, || (gen::algo(r), gen::session(r, &f, 4)));
    let mut p = FzfParser::new();
    let mut m = Met::new(algo);
    // One buffer for the whole session, as a caller would use it.
    let mut shared: Vec<std::ops::Range<usize>> = Vec::new();
    for s in steps {
        let s = &s;
        let what = || show(s, algo);
        m.set(s.cfg);
        let q = parse(&mut p, &s.query, s.raw)?;
        let alone = ctx(fresh_dnr(s, algo), what)?;
        let mut pre: Vec<std::ops::Range<usize>> = match r.below(4) {
            // One that has been appended to again and again.
            _ if r.one_in(2500) => {
                let n = (gen::many(r, 2) + r.below(4)) as usize;
                let step = r.range(1, 4);
                (0..n).map(|i| i * step..i * step + 1).collect()
            },
            0 => shared.clone(),
            1 => Vec::new(),
            _ => {
                let n = s.cand.len() + 2;
                (0..r.range(1, 5))
                    .map(|_| match r.below(5) {
                        0 => 0..r.below(n),
                        1 => r.below(n)..n,
                        2 => r.below(n)..r.below(n),
                        3 => 0..usize::MAX,
                        _ => {
                            // Something the call itself would append.
                            match &alone {
                                Some((_, rs)) if !rs.is_empty() => {
                                    let &(a, b) = r.pick(rs);
                                    match r.below(3) {
                                        0 => a..b,
                                        1 => a.saturating_sub(1)..a,
                                        _ => b..b + 1,
                                    }
                                },
                                _ => 0..1,
                            }
                        },
                    })
                    .collect()
            },
        };
        if r.pct(50) {
            pre.shrink_to_fit();
        } else {
            pre.reserve(r.below(40));
        }
        let mut buf = pre.clone();
        if r.pct(50) {
            buf.shrink_to_fit();
        }
        let d = ctx(m.dnr_into(q, &s.cand, &mut buf), what)?;
        let same = buf.len() >= pre.len() && buf[..pre.len()] == pre[..];
        if !same {
            fail!("the buffer held {} ranges and now holds {} others: earlier contents changed\n  before: {}\n  after: {}\n  in: {}", pre.len(), buf.len(), crate::run::clip(&format!("{pre:?}")), crate::run::clip(&format!("{buf:?}")), what());
        }
        let appended: Ranges = buf[pre.len()..].iter().map(|x| (x.start, x.end)).collect();
        match (&d, &alone) {
            (None, None) => {
                if !appended.is_empty() {
                    fail!("no match, but {appended:?} was appended\n  in: {}", what());
                }
                o.count("untouched_on_non_match", 1);
            },
            (Some(d), Some((e, rs))) => {
                if d != e || appended != *rs {
                    fail!("with {} in the buffer: {d} and {appended:?} appended; with an empty one: {e} and {rs:?}\n  in: {}", crate::run::clip(&format!("{pre:?}")), what());
                }
                if !pre.is_empty() && !rs.is_empty() {
                    o.count("appended_after_earlier_contents", 1);
                }
            },
            _ => fail!("with {} in the buffer: {d:?}; with an empty one: {alone:?}\n  in: {}", crate::run::clip(&format!("{pre:?}")), what()),
        }
        shared = buf;
        if shared.len() > 300 {
            shared.clear();
        }
        note(o, s, algo, alone.as_ref().map(|d| d.1.len()));
        judged(o, s, algo, !pre.is_empty());
    }
    Ok(())
}

// ----------------------------------------------- C08: range well-formedness --

fn well_formed(rs: &Ranges, cand: &str) -> Result<(), String> {
    let mut last: Option<usize> = None;
    for &(a, b) in rs {
        if a >= b {
            return Err(format!("{a}..{b} is empty or reversed"));
        }
        if b > cand.len() {
            return Err(format!("{a}..{b} is out of bounds ({} bytes)", cand.len()));
        }
        if !cand.is_char_boundary(a) || !cand.is_char_boundary(b) {
            return Err(format!("{a}..{b} isn't on char boundaries"));
        }
        if let Some(l) = last {
            if a < l {
                return Err(format!("{a}..{b} overlaps or precedes an earlier range"));
            }
            if a == l {
                return Err(format!("{a}..{b} touches the range before it"));
            }
        }
        last = Some(b);
    }
    Ok(())
}

fn c08(r: &mut Rng, case: u64, o: &mut Obs) -> Res {
    // The union of the terms' ranges, for all small queries.
    if let Some((algo, steps)) = gen::swept(Sweep::Multi, case, o.tier_thorough) {
        o.count("swept_calls", steps.len() as u64);
        return steps.iter().try_for_each(|s| whole_and_parts(s, algo, o));
    }
    if case % 3 == 0 {
        return c08_overlaps(r, o);
    }
    let base = match r.below(4) {
        0 => Focus::FUZZY,
        1 => Focus::EXACT,
        2 => Focus::MULTI,
        _ => Focus::ANY,
    };
    let f = Focus { large: 60, max_cells: 200_000, ..base };
    let algo = gen::algo(r);
    let mut m = Met::new(algo);
    for s in gen::session(r, &f, 3) {
        let s = &s;
        m.set(s.cfg);
        let mut p = FzfParser::new();
        let q = parse(&mut p, &s.query, s.raw)?;
        let mut buf = Vec::new();
        let d = ctx(m.dnr_into(q, &s.cand, &mut buf), || show(s, algo))?;
        let rs: Ranges = buf.iter().map(|x| (x.start, x.end)).collect();
        if let Err(e) = well_formed(&rs, &s.cand) {
            fail!("ranges {rs:?}: {e}\n  in: {}", show(s, algo));
        }
        note(o, s, algo, d.map(|_| rs.len()));
        o.count("ranges_checked", rs.len() as u64);
        judged(o, s, algo, !rs.is_empty());
    }
    Ok(())
}

/// Many terms whose matches overlap, nest, touch and interleave: the union of
/// what they matched must come out.
fn c08_overlaps(r: &mut Rng, o: &mut Obs) -> Res {
    let wide = r.pct(40);
    let n = r.range(4, 20);
    let cand: Vec<char> = (0..n)
        .map(|i| {
            if wide {
                char::from_u32(*r.pick(&[0x3b1, 0x430, 0x4e00, 0x1f600]) + i as u32).unwrap()
            } else {
                (b'a' + i as u8) as char
            }
        })
        .collect();
    let mut q = String::new();
    let mut covered = vec![];
    for i in 0..r.range(2, 7) {
        if i > 0 {
            q.push(' ');
        }
        let a = r.below(n);
        let b = r.range(a + 1, n.min(a + 8));
        let t: Vec<char> = match r.below(5) {
            0 | 1 | 2 => {
                covered.extend(a..b);
                q.push('\'');
                cand[a..b].to_vec()
            },
            3 => {
                let pos: Vec<usize> = (a..n).filter(|_| r.pct(40)).collect();
                let pos = if pos.is_empty() { vec![a] } else { pos };
                covered.extend(pos.iter());
                pos.iter().map(|&i| cand[i]).collect()
            },
            _ => {
                covered.extend(0..b);
                q.push('^');
                cand[..b].to_vec()
            },
        };
        q.extend(t);
    }
    let expected = model::to_ranges(covered, &cand);
    let s = Step {
        query: q,
        raw: false,
        cand: cand.into_iter().collect(),
        cfg: Cfg { sens: Sens::Sensitive, norm: r.pct(50), scheme: *r.pick(&SCHEMES) },
    };
    let algo = gen::algo(r);
    let got = ctx(fresh_dnr(&s, algo), || show(&s, algo))?;
    let Some((_, rs)) = got else {
        fail!("no match, expected ranges {expected:?}\n  in: {}", show(&s, algo));
    };
    if let Err(e) = well_formed(&rs, &s.cand) {
        fail!("ranges {rs:?}: {e}\n  in: {}", show(&s, algo));
    }
    if rs != expected {
        fail!("ranges {rs:?}, but the terms match exactly {expected:?}\n  in: {}", show(&s, algo));
    }
    o.count("overlapping_unions_checked", 1);
    o.count("ranges_checked", rs.len() as u64);
    judged(o, &s, algo, true);
    Ok(())
}

// ------------------------------------------------ C09: fuzzy acceptance --

fn single_fuzzy(s: &Step) -> Option<Term> {
    let t = terms_of(s);
    match &t[..] {
        [c] => match &c[..] {
            [t] if t.kind == Kind::Fuzzy => Some(t.clone()),
            _ => None,
        },
        _ => None,
    }
}

/// What is compared of a query of several terms.
#[derive(Clone, Copy, PartialEq)]
enum Part {
    Match,
    Ranges,
    Score,
    All,
}

/// Queries of several terms, all of which are of the kinds that the property
/// is about, on an instance that's used for a few of them.
fn several(r: &mut Rng, o: &mut Obs, kinds: [usize; 5], inverse: usize, algos: &[Algo], part: Part) -> Res {
    let f = Focus {
        kinds,
        inverse,
        raw: 0,
        terms: [0, 4, 3, 2],
        soup: 0,
        huge: 0,
        large: 300,
        max_cells: 60_000,
    };
    let steps = gen::session(r, &f, 3);
    for &algo in algos {
        let mut m = Met::new(algo);
        for s in &steps {
            let terms = terms_of(s);
            let apt = |t: &Term| {
                (t.kind == Kind::Fuzzy) == (kinds[0] > 0) && (inverse > 0 || !t.inverse)
            };
            if !terms.iter().flatten().all(apt) {
                continue;
            }
            m.set(s.cfg);
            let mut p = FzfParser::new();
            let q = parse(&mut p, &s.query, s.raw)?;
            let what = || crate::run::clip(&show(s, algo));
            let got = ctx(m.dnr(q, &s.cand), what)?;
            let d = ctx(m.dist(q, &s.cand), what)?;
            let e = model::eval(algo, s.cfg, &terms, &s.cand).map(|e| (e.score, e.ranges));
            let same = got.is_some() == e.is_some()
                && d.is_some() == e.is_some()
                && match (&got, d, &e) {
                    (Some((gs, gr)), Some(d), Some((es, er))) => {
                        let score = gs == es && d == *es;
                        match part {
                            Part::Match => true,
                            Part::Ranges => gr == er,
                            Part::Score => score,
                            Part::All => score && gr == er,
                        }
                    },
                    _ => true,
                };
            if !same {
                fail!("got {got:?} (distance: {d:?}), expected {e:?}\n  in: {}", what());
            }
            note(o, s, algo, got.as_ref().map(|d| d.1.len()));
            o.count("queries_of_several_such_terms", (terms.iter().flatten().count() > 1) as u64);
            judged(o, s, algo, got.is_some());
        }
    }
    Ok(())
}

const FUZZY_ONLY: [usize; 5] = [1, 0, 0, 0, 0];
const EXACT_ONLY: [usize; 5] = [0, 4, 3, 3, 3];

fn c09(r: &mut Rng, case: u64, o: &mut Obs) -> Res {
    if r.one_in(20) && gen::swept(Sweep::Fuzzy, case * 2, o.tier_thorough).is_none() {
        return several(r, o, FUZZY_ONLY, 20, &ALGOS, Part::Match);
    }
    let mut f = Focus { large: 80, inverse: 10, ..Focus::FUZZY };
    if case % 4 == 0 {
        f.soup = 5;
    }
    let mut ms = ALGOS.map(Met::new);
    // Both metrics are judged in any case.
    let (_, steps) = swept_or(Sweep::Fuzzy, case * 2, o, || {
        let steps =
            if r.one_in(5000) { vec![huge_cand(r, Algo::V2)] } else { gen::session(r, &f, 3) };
        (Algo::V2, steps)
    });
    for s in &steps {
        let Some(t) = single_fuzzy(s) else {
            o.count("skipped_not_a_single_fuzzy_term", 1);
            continue;
        };
        let cand: Vec<char> = s.cand.chars().collect();
        let cmp = CharCmp::new(s.cfg, &t.text);
        let sub = model::is_subsequence(&t.text, &cand, cmp);
        let expected = sub != t.inverse;
        let mut p = FzfParser::new();
        let q = parse(&mut p, &s.query, s.raw)?;
        for m in ms.iter_mut() {
            let algo = if matches!(m, Met::V1(_)) { Algo::V1 } else { Algo::V2 };
            m.set(s.cfg);
            let d = ctx(m.dist(q, &s.cand), || show(s, algo))?;
            if d.is_some() != expected {
                fail!(
                    "{} although the term is {}a subsequence of the candidate\n  in: {}",
                    if d.is_some() { "match" } else { "no match" },
                    if sub { "" } else { "not " },
                    crate::run::clip(&show(s, algo))
                );
            }
            let d = ctx(m.dnr(q, &s.cand), || show(s, algo))?;
            if d.is_some() != expected {
                fail!("distance_and_ranges: match={}, expected {expected}\n  in: {}", d.is_some(), crate::run::clip(&show(s, algo)));
            }
            note(o, s, algo, d.map(|d| d.1.len()));
            judged(o, s, algo, !s.query.is_empty() && !s.cand.is_empty());
        }
    }
    Ok(())
}

// -------------------------------------------- C10: ranges spell the query --

fn c10(r: &mut Rng, case: u64, o: &mut Obs) -> Res {
    let f = Focus { large: 60, ..Focus::FUZZY };
    let (algo, steps) = swept_or(Sweep::Fuzzy, case, o, || {
        let algo = gen::algo(r);
        let steps = if r.one_in(5000) { vec![huge_cand(r, algo)] } else { gen::session(r, &f, 3) };
        (algo, steps)
    });
    let mut m = Met::new(algo);
    for s in &steps {
        let Some(t) = single_fuzzy(s) else { continue };
        if t.inverse {
            continue;
        }
        m.set(s.cfg);
        let mut p = FzfParser::new();
        let q = parse(&mut p, &s.query, s.raw)?;
        let what = || crate::run::clip(&show(s, algo));
        let d = ctx(m.dnr(q, &s.cand), what)?;
        note(o, s, algo, d.as_ref().map(|d| d.1.len()));
        if let Some((_, rs)) = &d {
            if let Err(e) = well_formed(rs, &s.cand) {
                fail!("ranges {rs:?}: {e}\n  in: {}", what());
            }
            let cmp = CharCmp::new(s.cfg, &t.text);
            let spelled: Vec<char> =
                rs.iter().flat_map(|&(a, b)| s.cand[a..b].chars()).collect();
            if spelled.len() != t.text.len() {
                fail!(
                    "ranges {rs:?} cover {} chars of the candidate, the query has {}\n  in: {}",
                    spelled.len(),
                    t.text.len(),
                    what()
                );
            }
            for (i, (&qc, &cc)) in t.text.iter().zip(&spelled).enumerate() {
                if !cmp.eq(qc, cc) {
                    fail!("ranges {rs:?}: matched char {i} is {cc:?}, the query has {qc:?}\n  in: {}", what());
                }
            }
            o.count("matched_chars_checked", spelled.len() as u64);
        }
        judged(o, s, algo, d.is_some());
    }
    Ok(())
}

// ------------------------------------- C11: exact-family acceptance/location --

fn exact_steps(r: &mut Rng, case: u64, o: &mut Obs, inverse: usize) -> (Algo, Vec<Step>) {
    swept_or(Sweep::Exact, case, o, || (gen::algo(r), random_exact_steps(r, inverse)))
}

fn random_exact_steps(r: &mut Rng, inverse: usize) -> Vec<Step> {
    let f = Focus { large: 80, inverse, max_cells: 300_000, ..Focus::EXACT };
    if r.one_in(5000) {
        let mut s = huge_cand(r, Algo::V2);
        s.raw = false;
        return vec![s];
    }
    gen::session(r, &f, 3)
}

fn c11(r: &mut Rng, case: u64, o: &mut Obs) -> Res {
    if r.one_in(20) && gen::swept(Sweep::Exact, case, o.tier_thorough).is_none() {
        let algo = gen::algo(r);
        return several(r, o, EXACT_ONLY, 15, &[algo], Part::Ranges);
    }
    let (algo, steps) = exact_steps(r, case, o, 15);
    let mut m = Met::new(algo);
    for s in &steps {
        let terms = terms_of(s);
        let t = match &terms[..] {
            [c] if c.len() == 1 && c[0].kind != Kind::Fuzzy => &c[0],
            _ => continue,
        };
        let cand: Vec<char> = s.cand.chars().collect();
        let cmp = CharCmp::new(s.cfg, &t.text);
        let at = model::exact_at(t, &cand, cmp, s.cfg.scheme);
        let expected: Option<Ranges> = match (at, t.inverse) {
            (Some(a), false) => Some(model::to_ranges((a..a + t.text.len()).collect(), &cand)),
            (None, true) => Some(vec![]),
            _ => None,
        };
        m.set(s.cfg);
        let mut p = FzfParser::new();
        let q = parse(&mut p, &s.query, s.raw)?;
        let what = || crate::run::clip(&show(s, algo));
        let got = ctx(m.dnr(q, &s.cand), what)?.map(|d| d.1);
        let acc = ctx(m.dist(q, &s.cand), what)?.is_some();
        if got != expected || acc != expected.is_some() {
            fail!("{:?} term {:?}: matched {got:?} (distance: {acc}), expected {expected:?}\n  in: {}", t.kind, t.text.iter().collect::<String>(), what());
        }
        o.count(
            match t.kind {
                Kind::Exact => "exact_terms",
                Kind::Prefix => "prefix_terms",
                Kind::Suffix => "suffix_terms",
                _ => "equal_terms",
            },
            1,
        );
        note(o, s, algo, got.as_ref().map(|d| d.len()));
        judged(o, s, algo, expected.is_some() && !t.inverse);
    }
    Ok(())
}

// ----------------------------------------------- C12: AND / OR / NOT --

/// Writes a term so that it parses back to itself.
fn canonical(t: &Term) -> Option<String> {
    let mut s = String::new();
    if t.inverse {
        s.push('!');
    }
    match (t.kind, t.inverse) {
        (Kind::Fuzzy, true) | (Kind::Exact, false) => s.push('\''),
        (Kind::Prefix | Kind::Equal, _) => s.push('^'),
        _ => {},
    }
    for &c in &t.text {
        if c == ' ' {
            s.push('\\');
        }
        s.push(c);
    }
    if matches!(t.kind, Kind::Suffix | Kind::Equal) {
        s.push('$');
    }
    let back = model::parse(&s);
    (back.len() == 1 && back[0].len() == 1 && back[0][0] == *t).then_some(s)
}

fn union(all: &[Ranges]) -> Ranges {
    let mut v: Ranges = all.iter().flatten().copied().collect();
    v.sort_unstable();
    let mut out: Ranges = Vec::new();
    for (a, b) in v {
        match out.last_mut() {
            Some(l) if a <= l.1 => l.1 = l.1.max(b),
            _ => out.push((a, b)),
        }
    }
    out
}

fn c12(r: &mut Rng, case: u64, o: &mut Obs) -> Res {
    let mut f = Focus { large: 200, max_cells: 60_000, ..Focus::MULTI };
    if r.one_in(4) {
        // Negations of single terms.
        f.terms = [1, 0, 0, 0];
        f.inverse = 100;
    }
    let (algo, steps) = swept_or(Sweep::Multi, case, o, || (gen::algo(r), vec![gen::step(r, &f)]));
    steps.iter().try_for_each(|s| whole_and_parts(s, algo, o))
}

fn whole_and_parts(s: &Step, algo: Algo, o: &mut Obs) -> Res {
    let what = || show(s, algo);
    let conds = terms_of(s);
    if conds.is_empty() {
        return Ok(());
    }
    let mut total = 0;
    let mut all: Vec<Ranges> = Vec::new();
    let mut ok = true;
    let mut alternatives = 0;
    let mut parts = Vec::new();
    for c in &conds {
        let mut hit = false;
        for (i, t) in c.iter().enumerate() {
            let plain = Term { inverse: false, ..t.clone() };
            let Some(cq) = canonical(&plain) else {
                o.count("skipped_not_expressible", 1);
                return Ok(());
            };
            // What the term does on its own, without its negation.
            let one = ctx(fresh_q(&cq, false, &s.cand, s.cfg, algo), what)?;
            parts.push(format!("{}{cq:?} -> {one:?}", if t.inverse { "NOT " } else { "" }));
            let res = match (one, t.inverse) {
                (Some(_), true) => None,
                (None, true) => Some((0, vec![])),
                (x, false) => x,
            };
            if let Some((d, rs)) = res {
                total += d;
                all.push(rs);
                hit = true;
                if i > 0 {
                    alternatives += 1;
                }
                break;
            }
        }
        if !hit {
            ok = false;
            break;
        }
    }
    let expected = ok.then(|| (total, union(&all)));
    let got = ctx(fresh_dnr(s, algo), what)?;
    if got != expected {
        fail!("the query gives {got:?}, but its terms alone amount to {expected:?}\n  terms: {}\n  in: {}", parts.join("; "), what());
    }
    let d = ctx(
        (|| {
            let mut p = FzfParser::new();
            let q = parse(&mut p, &s.query, s.raw)?;
            Met::with(algo, s.cfg).dist(q, &s.cand)
        })(),
        what,
    )?;
    if d != expected.as_ref().map(|e| e.0) {
        fail!("distance gives {d:?}, but the terms alone amount to {expected:?}\n  terms: {}\n  in: {}", parts.join("; "), what());
    }
    o.count("conditions", conds.len() as u64);
    o.count("later_alternatives_taken", alternatives);
    o.count("negated_terms", conds.iter().flatten().filter(|t| t.inverse).count() as u64);
    note(o, s, algo, got.as_ref().map(|d| d.1.len()));
    judged(o, s, algo, conds.len() > 1 || conds[0].len() > 1 || conds[0][0].inverse);
    Ok(())
}

// ------------------------------------------------------ C13: query syntax --

/// Candidates that tell apart the queries that can be made of these terms.
fn probes(r: &mut Rng, conds: &[Vec<Term>], query: &str) -> Vec<String> {
    let texts: Vec<String> =
        conds.iter().flatten().map(|t| t.text.iter().collect::<String>()).collect();
    let mut v: Vec<String> = vec![String::new(), query.to_string()];
    v.push(texts.concat());
    v.push(texts.join(" "));
    v.push(texts.join("#"));
    let pick = |r: &mut Rng| -> String {
        if texts.is_empty() {
            "a".into()
        } else {
            r.pick(&texts).clone()
        }
    };
    for _ in 0..6 {
        let mut s = String::new();
        for _ in 0..r.range(1, 4) {
            let t = pick(r);
            let t: String = match r.below(8) {
                // Scattered: only fuzzy terms accept it.
                0 | 1 => t.chars().flat_map(|c| [c, '#']).collect(),
                2 => t.chars().skip(1).collect(),
                3 => t.chars().rev().collect(),
                4 => t.replace(' ', ""),
                5 => t.replace(' ', "\\ "),
                _ => t,
            };
            match r.below(4) {
                0 => {
                    s.push('#');
                    s.push_str(&t);
                },
                1 => {
                    s.push_str(&t);
                    s.push('#');
                },
                2 => {
                    s = format!("{t}{s}");
                },
                _ => s.push_str(&t),
            }
        }
        v.push(s);
    }
    let extra = ["!", "'", "^", "$", "|", "\\", " ", "#"];
    let t = pick(r);
    v.push(format!("{}{t}", r.pick(&extra)));
    let t = pick(r);
    v.push(format!("{t}{}", r.pick(&extra)));
    v
}

fn c13(r: &mut Rng, case: u64, o: &mut Obs) -> Res {
    // All the short queries.
    let chars: Vec<char> = "a !'^$|\\".chars().collect();
    let swept = gen::nths(8, if o.tier_thorough { 7 } else { 5 });
    let f = Focus { soup: 45, large: 0, raw: 0, ..Focus::MULTI };
    let alpha: Vec<char> = match r.below(4) {
        0 => "abc".chars().collect(),
        1 => "ab !'^$|\\".chars().collect(),
        2 => "aé日 ".chars().collect(),
        _ => gen::alphabet(r),
    };
    let cand = gen::candidate(r, &alpha, false);
    let mut p = FzfParser::new();
    for _ in 0..if case < swept { 1 } else { 2 } {
        let query = if case < swept {
            o.count("swept_queries", 1);
            gen::nth(&chars, case)
        } else {
            gen::query(r, &f, &cand, &alpha, false).0
        };
        let conds = model::parse(&query);
        let q = parse(&mut p, &query, false)?;
        let algo = gen::algo(r);
        let cfg = Cfg { sens: Sens::Sensitive, norm: false, scheme: *r.pick(&SCHEMES) };
        let mut m = Met::with(algo, cfg);
        let mut ps = probes(r, &conds, &query);
        ps.push(cand.iter().collect());
        let (mut yes, mut no) = (0, 0);
        for c in ps {
            let s = Step { query: query.clone(), raw: false, cand: c, cfg };
            let e = model::eval(algo, cfg, &conds, &s.cand);
            let d = ctx(m.dist(q, &s.cand), || show(&s, algo))?;
            if d.is_some() != e.is_some() {
                fail!(
                    "{}, but the query means {conds:?}\n  in: {}",
                    if d.is_some() { "match" } else { "no match" },
                    show(&s, algo)
                );
            }
            if e.is_some() {
                yes += 1
            } else {
                no += 1
            }
            judged(o, &s, algo, !conds.is_empty());
        }
        o.count("probes_accepted", yes);
        o.count("probes_rejected", no);
        o.count("queries", 1);
        if yes > 0 && no > 0 {
            o.count("queries_with_both_verdicts", 1);
        }
    }
    Ok(())
}

// -------------------------------------------- C14: non-extended parsing --

fn c14(r: &mut Rng, _: u64, o: &mut Obs) -> Res {
    let mut f = Focus { raw: 100, soup: 0, large: 60, ..Focus::FUZZY };
    f.max_cells = 200_000;
    let alpha: Vec<char> = match r.below(3) {
        0 => "ab !'^$|\\".chars().collect(),
        1 => " a'|é".chars().collect(),
        _ => gen::alphabet(r),
    };
    let large = r.one_in(60);
    let cand = gen::candidate(r, &alpha, large);
    let mut p = FzfParser::new();
    for _ in 0..r.range(1, 3) {
        let (query, raw) = if r.pct(25) {
            (gen::soup(r), true)
        } else {
            gen::query(r, &f, &cand, &alpha, large)
        };
        debug_assert!(raw);
        let algo = gen::algo(r);
        let mut c = cand.clone();
        if r.pct(40) {
            c = query.chars().flat_map(|c| [c, '#']).collect();
        }
        let s = &Step { query, raw: true, cand: c.iter().collect(), cfg: gen::cfg(r) };
        let text: Vec<char> = s.query.chars().collect();
        let what = || show(s, algo);
        let q = ctx(parse(&mut p, &s.query, true), what)?;
        let got = ctx(Met::with(algo, s.cfg).dnr(q, &s.cand), what)?;
        if text.is_empty() {
            if got != Some((0, vec![])) {
                fail!("the empty query gives {got:?}\n  in: {}", what());
            }
            judged(o, s, algo, false);
            continue;
        }
        let cmp = CharCmp::new(s.cfg, &text);
        let expected = model::is_subsequence(&text, &c, cmp);
        if got.is_some() != expected {
            fail!("match={} although subsequence={expected}\n  in: {}", got.is_some(), what());
        }
        if let Some((_, rs)) = &got {
            let n: usize = rs.iter().map(|&(a, b)| s.cand[a..b].chars().count()).sum();
            if n != text.len() {
                fail!("{n} chars matched out of {}: {rs:?}\n  in: {}", text.len(), what());
            }
            let ok = rs
                .iter()
                .flat_map(|&(a, b)| s.cand[a..b].chars())
                .zip(&text)
                .all(|(c, &q)| cmp.eq(q, c));
            if !ok {
                fail!("the matched chars {rs:?} aren't those of the query\n  in: {}", what());
            }
        }
        // A query without special characters means the same in both syntaxes.
        let t = Term { text: text.clone(), kind: Kind::Fuzzy, inverse: false };
        if let Some(cq) = canonical(&t) {
            let ext = ctx(fresh_q(&cq, false, &s.cand, s.cfg, algo), what)?;
            if ext != got {
                fail!("parse_not_extended gives {got:?}, parse({cq:?}) gives {ext:?}\n  in: {}", what());
            }
            o.count("compared_with_extended", 1);
        } else {
            o.count("queries_with_operators", 1);
        }
        note(o, s, algo, got.as_ref().map(|d| d.1.len()));
        judged(o, s, algo, got.is_some());
    }
    Ok(())
}

// ----------------------------------------------------- C15: case --

/// The other case of a char, when that is a clean round trip.
fn swap_case(c: char) -> char {
    let other: Vec<char> = if c.is_uppercase() {
        c.to_lowercase().collect()
    } else {
        c.to_uppercase().collect()
    };
    match other[..] {
        [d] if d != c && d.is_ascii() == c.is_ascii() => {
            let back: Vec<char> =
                if d.is_uppercase() { d.to_lowercase().collect() } else { d.to_uppercase().collect() };
            if back == [c] && model::fold_eq(c, d) {
                d
            } else {
                c
            }
        },
        _ => c,
    }
}

fn single_char_case(o: &mut Obs, qc: char, cc: char, wide: bool, algo: Algo) -> Res {
    let cand: String = if wide { format!("{cc}日") } else { cc.to_string() };
    for sens in SENSES {
        for (query, raw) in [(qc.to_string(), true), (format!("'{qc}"), false)] {
            if !raw && model::parse(&query).len() != 1 {
                continue;
            }
            let cfg = Cfg { sens, norm: false, scheme: Sch::Default };
            let s = Step { query, raw, cand: cand.clone(), cfg };
            let e = CharCmp::new(cfg, &[qc]).eq(qc, cc);
            let d = ctx(fresh_dnr(&s, algo), || show(&s, algo))?;
            if d.is_some() != e {
                fail!("match={}, expected {e}\n  in: {}", d.is_some(), show(&s, algo));
            }
            judged(o, &s, algo, qc != cc);
        }
    }
    o.count("char_pairs", 1);
    Ok(())
}

fn c15(r: &mut Rng, case: u64, o: &mut Obs) -> Res {
    // Every ASCII pair, each in both representations.
    if case < 128 {
        let qc = case as u8 as char;
        for c in 0u8..128 {
            let algo = gen::algo(r);
            single_char_case(o, qc, c as char, r.pct(50), algo)?;
        }
        return Ok(());
    }
    // Every char that has a case, against its relatives.
    let per = 64;
    let blocks = 0x20000 / per;
    if case < 128 + blocks {
        let lo = ((case - 128) * per) as u32;
        for v in lo.max(0x80)..lo + per as u32 {
            let Some(c) = char::from_u32(v) else { continue };
            let mut rel: Vec<char> = vec![c];
            rel.extend(c.to_lowercase());
            rel.extend(c.to_uppercase());
            if rel.iter().all(|&x| x == c) {
                continue;
            }
            rel.push(char::from_u32(v ^ 0x20).unwrap_or('x'));
            rel.push(char::from_u32(v & 0x7f).unwrap_or('x'));
            for &x in &rel {
                let algo = gen::algo(r);
                single_char_case(o, c, x, false, algo)?;
                single_char_case(o, x, c, r.pct(50), algo)?;
            }
        }
        return Ok(());
    }
    let f = Focus { large: 200, max_cells: 50_000, soup: 2, ..Focus::ANY };
    let algo = gen::algo(r);
    let mut s = gen::step(r, &f);
    if r.pct(30) {
        s.query = gen::recase(r, &s.query);
        s.cand = gen::recase(r, &s.cand);
        if r.pct(50) {
            s.cfg.sens = Sens::Insensitive;
        }
    }
    match r.below(3) {
        // Ignoring case, the case of the query is irrelevant.
        0 => {
            s.cfg.sens = Sens::Insensitive;
            let other: String = s
                .query
                .chars()
                .map(|c| if r.pct(60) { swap_case(c) } else { c })
                .collect();
            let a = ctx(fresh_dnr(&s, algo), || show(&s, algo))?;
            let b = ctx(fresh_q(&other, s.raw, &s.cand, s.cfg, algo), || show(&s, algo))?;
            if a != b {
                fail!("{a:?}, but {b:?} when the query is {other:?}\n  in: {}", show(&s, algo));
            }
            o.count("query_case_swaps", (other != s.query) as u64);
            judged(o, &s, algo, other != s.query && a.is_some());
            // .. and so is the case of the candidate to whether it matches.
            if !s.cfg.norm {
                let swapped: String = s.cand.chars().map(swap_case).collect();
                let b = ctx(fresh_q(&s.query, s.raw, &swapped, s.cfg, algo), || show(&s, algo))?;
                if a.is_some() != b.is_some() {
                    fail!("match={}, but match={} when the candidate is {swapped:?}\n  in: {}", a.is_some(), b.is_some(), show(&s, algo));
                }
                o.count("candidate_case_swaps", (swapped != s.cand) as u64);
            }
        },
        // Smart is, term by term, one of the other two.
        1 => {
            s.cfg.sens = Sens::Smart;
            let conds = terms_of(&s);
            let upper: Vec<bool> = conds
                .iter()
                .flatten()
                .map(|t| t.text.iter().any(|c| c.is_uppercase()))
                .collect();
            let same = if upper.iter().all(|&u| u) {
                Some(Sens::Sensitive)
            } else if upper.iter().all(|&u| !u) {
                Some(Sens::Insensitive)
            } else {
                None
            };
            let a = ctx(fresh_dnr(&s, algo), || show(&s, algo))?;
            if let Some(sens) = same {
                let t = Step { cfg: Cfg { sens, ..s.cfg }, ..s.clone() };
                let b = ctx(fresh_dnr(&t, algo), || show(&t, algo))?;
                if a != b {
                    fail!("{a:?} with smart case, but {b:?} with {sens:?}\n  in: {}", show(&s, algo));
                }
                o.count("smart_uniform_queries", 1);
            } else {
                o.count("smart_mixed_queries", 1);
            }
            let e = model::eval(algo, s.cfg, &conds, &s.cand);
            if a.is_some() != e.is_some() {
                fail!("match={}, expected {}\n  in: {}", a.is_some(), e.is_some(), show(&s, algo));
            }
            judged(o, &s, algo, a.is_some());
        },
        // The strictness of the modes is ordered, and acceptance follows the
        // per-char definition.
        _ => {
            let conds = terms_of(&s);
            let e = model::eval(algo, s.cfg, &conds, &s.cand);
            let a = ctx(fresh_dnr(&s, algo), || show(&s, algo))?;
            if a.is_some() != e.is_some() {
                fail!("match={}, expected {}\n  in: {}", a.is_some(), e.is_some(), show(&s, algo));
            }
            judged(o, &s, algo, a.is_some());
        },
    }
    note(o, &s, algo, None);
    Ok(())
}

// ------------------------------------------------- C16: normalization --

fn norm_pair(o: &mut Obs, r: &mut Rng, qc: char, cc: char) -> Res {
    let algo = gen::algo(r);
    let shape = r.below(6);
    let (query, raw, cand) = match shape {
        0 => (qc.to_string(), true, cc.to_string()),
        1 => (format!("'{qc}"), false, format!("{cc}")),
        2 => (format!("^{qc}"), false, format!("{cc}z")),
        3 => (format!("{qc}$"), false, format!("z{cc}")),
        4 => (format!("^{qc}$"), false, format!("{cc}")),
        _ => (format!("{qc}{qc}"), true, format!("{cc}.{cc}")),
    };
    let conds = if raw { model::parse_raw(&query) } else { model::parse(&query) };
    if conds.len() != 1 || conds[0].len() != 1 {
        return Ok(());
    }
    for sens in SENSES {
        for norm in [true, false] {
            let cfg = Cfg { sens, norm, scheme: Sch::Default };
            let s = Step { query: query.clone(), raw, cand: cand.clone(), cfg };
            let e = model::eval(algo, cfg, &conds, &cand);
            let d = ctx(fresh_dnr(&s, algo), || show(&s, algo))?;
            let got = d.as_ref().map(|d| &d.1);
            let want = e.as_ref().map(|e| &e.ranges);
            if got != want {
                fail!("matched {got:?}, expected {want:?}\n  in: {}", show(&s, algo));
            }
            o.count(if d.is_some() { "matches" } else { "non_matches" }, 1);
            judged(o, &s, algo, qc != cc);
        }
    }
    o.count("char_pairs", 1);
    Ok(())
}

fn c16(r: &mut Rng, case: u64, o: &mut Obs) -> Res {
    // Every entry of the table, against related and unrelated queries.
    if (case as usize) < TABLE.len() {
        let (c, n) = TABLE[case as usize];
        let mut qs = vec![
            n,
            n.to_ascii_lowercase(),
            n.to_ascii_uppercase(),
            c,
            (b'a' + r.below(26) as u8) as char,
            (b'A' + r.below(26) as u8) as char,
            TABLE[r.below(TABLE.len())].0,
            TABLE[(case as usize + 1) % TABLE.len()].1,
        ];
        qs.extend(c.to_lowercase());
        qs.extend(c.to_uppercase());
        for q in qs {
            for _ in 0..3 {
                norm_pair(o, r, q, c)?;
                // Only the candidate gets normalized.
                norm_pair(o, r, c, q)?;
            }
        }
        o.count("table_entries", 1);
        return Ok(());
    }
    // Every char of and around the table's blocks against every letter.
    let blocks: Vec<u32> =
        (0x80..0x400).chain(0x1cf0..0x1f08).chain(0x2060..0x2190).step_by(8).collect();
    let k = case as usize - TABLE.len();
    if k < blocks.len() {
        for v in blocks[k]..blocks[k] + 8 {
            let Some(c) = char::from_u32(v) else { continue };
            // All letters in one go: which of them match?
            for norm in [true, false] {
                for sens in [Sens::Sensitive, Sens::Insensitive] {
                    let cfg = Cfg { sens, norm, scheme: Sch::Default };
                    let cand = c.to_string();
                    let algo = gen::algo(r);
                    let mut m = Met::with(algo, cfg);
                    let mut p = FzfParser::new();
                    for b in 0u8..128 {
                        let qc = b as char;
                        let q = parse(&mut p, &qc.to_string(), true)?;
                        let got = m.dist(q, &cand)?.is_some();
                        let e = CharCmp::new(cfg, &[qc]).eq(qc, c);
                        if got != e {
                            fail!("query {qc:?} on {c:?}: match={got}, expected {e} with {cfg:?} {algo:?}");
                        }
                    }
                    o.eval_h(mix(v as u64) ^ mix(7 + norm as u64 * 2 + sens as u64), true);
                }
            }
            o.count("chars_swept", 1);
        }
        return Ok(());
    }
    // Whole queries.
    let mut f = Focus { large: 200, max_cells: 50_000, ..Focus::ANY };
    f.soup = 0;
    let algo = gen::algo(r);
    let mut s = gen::step(r, &f);
    if r.pct(70) {
        s.cfg.norm = true;
    }
    if r.pct(40) {
        s.cand = gen::accent(r, &s.cand);
    }
    if r.one_in(10) {
        s.query = gen::accent(r, &s.query);
    }
    let conds = terms_of(&s);
    let e = model::eval(algo, s.cfg, &conds, &s.cand);
    let d = ctx(fresh_dnr(&s, algo), || show(&s, algo))?;
    if d.is_some() != e.is_some() {
        fail!("match={}, expected {}\n  in: {}", d.is_some(), e.is_some(), show(&s, algo));
    }
    // Without anything to normalize, the option changes nothing.
    if s.cand.chars().all(|c| model::norm_char(c) == c && c.to_lowercase().all(|l| model::norm_char(l) == l && l.is_ascii() == c.is_ascii())) {
        let t = Step { cfg: Cfg { norm: !s.cfg.norm, ..s.cfg }, ..s.clone() };
        let d2 = ctx(fresh_dnr(&t, algo), || show(&t, algo))?;
        if d != d2 {
            fail!("{d:?}, but {d2:?} with normalization {}\n  in: {}", t.cfg.norm, show(&s, algo));
        }
        o.count("nothing_to_normalize", 1);
    } else {
        o.count("candidates_with_something_to_normalize", 1);
    }
    note(o, &s, algo, d.as_ref().map(|d| d.1.len()));
    judged(o, &s, algo, d.is_some() && s.cfg.norm);
    Ok(())
}

// ------------------------------------------- C17/C18: scores and alignments --

fn scored(r: &mut Rng, case: u64, o: &mut Obs, algo: Algo) -> Res {
    if r.one_in(20) && gen::swept(Sweep::Fuzzy, case * 2, o.tier_thorough).is_none() {
        return several(r, o, FUZZY_ONLY, 0, &[algo], Part::All);
    }
    let f = Focus {
        large: if o.tier_thorough { 30 } else { 60 },
        max_cells: if o.tier_thorough { 500_000 } else { 250_000 },
        inverse: 0,
        ..Focus::FUZZY
    };
    let mut m = Met::new(algo);
    let (_, steps) = swept_or(Sweep::Fuzzy, case * 2, o, || {
        let steps = if r.one_in(4000) {
            let mut s = huge_cand(r, algo);
            s.raw = true;
            vec![s]
        } else {
            gen::session(r, &f, 3)
        };
        (algo, steps)
    });
    for s in &steps {
        let Some(t) = single_fuzzy(s) else { continue };
        if t.inverse {
            continue;
        }
        m.set(s.cfg);
        let mut p = FzfParser::new();
        let q = parse(&mut p, &s.query, s.raw)?;
        let what = || crate::run::clip(&show(s, algo));
        let got = ctx(m.dnr(q, &s.cand), what)?;
        let d = ctx(m.dist(q, &s.cand), what)?;
        let e = model::eval(algo, s.cfg, &[vec![t.clone()]], &s.cand).map(|e| (e.score, e.ranges));
        if got != e {
            fail!("got {got:?}, expected {e:?}\n  in: {}", what());
        }
        if d != e.as_ref().map(|e| e.0) {
            fail!("distance gives {d:?}, expected {e:?}\n  in: {}", what());
        }
        note(o, s, algo, got.as_ref().map(|d| d.1.len()));
        if let Some((sc, _)) = &e {
            o.max("max_score", (*sc).max(0) as u64);
        }
        judged(o, s, algo, got.is_some());
    }
    Ok(())
}

fn c17(r: &mut Rng, case: u64, o: &mut Obs) -> Res {
    scored(r, case, o, Algo::V1)
}

fn c18(r: &mut Rng, case: u64, o: &mut Obs) -> Res {
    scored(r, case, o, Algo::V2)
}

// ------------------------------------------- C19: scores are attainable --

fn c19(r: &mut Rng, case: u64, o: &mut Obs) -> Res {
    let f = Focus { large: 400, huge: 20_000, max_cells: 20_000, ..Focus::FUZZY };
    let mut ms = ALGOS.map(Met::new);
    let (_, steps) =
        swept_or(Sweep::Fuzzy, case * 2, o, || (Algo::V2, gen::session(r, &f, 3)));
    for s in &steps {
        let Some(t) = single_fuzzy(s) else { continue };
        if t.inverse {
            continue;
        }
        let cand: Vec<char> = s.cand.chars().collect();
        let cmp = CharCmp::new(s.cfg, &t.text);
        let bests = [false, true]
            .map(|clamp| model::best_alignment(&t.text, &cand, cmp, s.cfg.scheme, clamp));
        let bon = model::bonuses(&cand, s.cfg.scheme);
        let mut p = FzfParser::new();
        let q = parse(&mut p, &s.query, s.raw)?;
        for m in ms.iter_mut() {
            let algo = if matches!(m, Met::V1(_)) { Algo::V1 } else { Algo::V2 };
            let best = bests[(algo == Algo::V2) as usize];
            m.set(s.cfg);
            let what = || show(s, algo);
            let got = ctx(m.dnr(q, &s.cand), what)?;
            let d = ctx(m.dist(q, &s.cand), what)?;
            if got.is_some() != best.is_some() || d.is_some() != best.is_some() {
                fail!("{got:?}, distance {d:?}, but the best alignment scores {best:?}\n  in: {}", what());
            }
            let (Some((sc, rs)), Some(best), Some(d)) = (&got, best, d) else {
                judged(o, s, algo, false);
                continue;
            };
            if *sc > best || d > best {
                fail!("score {sc} (distance: {d}), but no alignment scores more than {best}\n  in: {}", what());
            }
            let chars: Vec<usize> = char_positions(rs, &s.cand);
            if algo == Algo::V1 || t.text.len() == 1 {
                // The score is the one of the alignment that is reported.
                let a = model::score_alignment(&chars, &bon);
                if a != *sc {
                    fail!("score {sc}, but the reported alignment {rs:?} scores {a}\n  in: {}", what());
                }
                o.count("scores_recomputed_from_the_alignment", 1);
            }
            o.count(if *sc == best { "optimal" } else { "below_the_optimum" }, 1);
            note(o, s, algo, Some(rs.len()));
            judged(o, s, algo, true);
        }
    }
    Ok(())
}

fn char_positions(rs: &Ranges, cand: &str) -> Vec<usize> {
    cand.char_indices()
        .enumerate()
        .filter(|(_, (b, _))| rs.iter().any(|&(x, y)| x <= *b && *b < y))
        .map(|(i, _)| i)
        .collect()
}

// -------------------------------------------------- C20: exact-term scores --

fn c20(r: &mut Rng, case: u64, o: &mut Obs) -> Res {
    if r.one_in(20) && gen::swept(Sweep::Exact, case, o.tier_thorough).is_none() {
        let algo = gen::algo(r);
        return several(r, o, EXACT_ONLY, 3, &[algo], Part::Score);
    }
    let (algo, steps) = exact_steps(r, case, o, 3);
    let mut m = Met::new(algo);
    for s in &steps {
        let terms = terms_of(s);
        let t = match &terms[..] {
            [c] if c.len() == 1 && c[0].kind != Kind::Fuzzy => &c[0],
            _ => continue,
        };
        m.set(s.cfg);
        let mut p = FzfParser::new();
        let q = parse(&mut p, &s.query, s.raw)?;
        let what = || crate::run::clip(&show(s, algo));
        let e = model::eval(algo, s.cfg, &terms, &s.cand).map(|e| e.score);
        let a = ctx(m.dist(q, &s.cand), what)?;
        let b = ctx(m.dnr(q, &s.cand), what)?;
        if a != e || b.as_ref().map(|b| b.0) != e {
            fail!("{:?} term: distance {a:?}, with ranges {b:?}, expected {e:?}\n  in: {}", t.kind, what());
        }
        note(o, s, algo, b.as_ref().map(|d| d.1.len()));
        judged(o, s, algo, e.is_some() && !t.inverse);
    }
    Ok(())
}

// ------------------------------------------- C21: schemes and positions --

fn positional(
    o: &mut Obs,
    r: &mut Rng,
    prev: Option<char>,
    c: char,
    scheme: Sch,
) -> Res {
    let cand: String = prev.iter().chain(Some(&c)).collect();
    let e = 16
        + 2 * *model::bonuses(&cand.chars().collect::<Vec<_>>(), scheme).last().unwrap();
    let cfg = Cfg { sens: Sens::Sensitive, norm: false, scheme };
    if prev == Some(c) {
        return Ok(());
    }
    // The last char is the only one that matches.
    let t = Term { text: vec![c], kind: Kind::Exact, inverse: false };
    let ext = canonical(&t);
    for algo in ALGOS {
        let (query, raw) = match &ext {
            Some(x) if r.pct(30) => (x.clone(), false),
            _ => (c.to_string(), true),
        };
        // Also as part of the other representation, and mid-candidate.
        let (cand2, shift) = match r.below(4) {
            0 => (format!("{cand}日"), 0),
            1 if prev.is_some_and(|p| p != '!' && c != '!') => (format!("!{cand}"), 1),
            _ => (cand.clone(), 0),
        };
        if cand2.matches(c).count() > 1 {
            continue;
        }
        let e = if shift == 1 {
            16 + 2 * *model::bonuses(&cand2.chars().collect::<Vec<_>>(), scheme).last().unwrap()
        } else {
            e
        };
        let s = Step { query, raw, cand: cand2, cfg };
        let d = ctx(fresh_dnr(&s, algo), || show(&s, algo))?.map(|d| d.0);
        if d != Some(e) {
            fail!("score {d:?}, expected {e}\n  in: {}", show(&s, algo));
        }
        judged(o, &s, algo, true);
    }
    Ok(())
}

fn c21(r: &mut Rng, case: u64, o: &mut Obs) -> Res {
    // Every ASCII pair under every scheme.
    if case < 384 {
        let (scheme, p) = (SCHEMES[(case / 128) as usize], (case % 128) as u8 as char);
        positional(o, r, None, p, scheme)?;
        for c in 0u8..128 {
            positional(o, r, Some(p), c as char, scheme)?;
        }
        o.count("ascii_pairs_swept", 128);
        return Ok(());
    }
    let scheme = *r.pick(&SCHEMES);
    if r.pct(50) {
        for _ in 0..16 {
            let a = if r.pct(30) { r.below(128) as u8 as char } else { gen::random_scalar(r) };
            let b = if r.pct(30) { r.below(128) as u8 as char } else { gen::random_scalar(r) };
            positional(o, r, None, b, scheme)?;
            positional(o, r, Some(a), b, scheme)?;
            o.count("random_pairs", 1);
        }
        return Ok(());
    }
    // The same in arbitrary candidates.
    if r.pct(40) {
        let f = Focus { inverse: 0, terms: [1, 0, 0, 0], soup: 0, ..Focus::ANY };
        let mut s = gen::step(r, &f);
        s.cfg.scheme = scheme;
        let terms = terms_of(&s);
        for algo in ALGOS {
            let e = model::eval(algo, s.cfg, &terms, &s.cand).map(|e| e.score);
            let d = ctx(fresh_dnr(&s, algo), || crate::run::clip(&show(&s, algo)))?.map(|d| d.0);
            if d != e {
                fail!("score {d:?}, expected {e:?}\n  in: {}", crate::run::clip(&show(&s, algo)));
            }
            judged(o, &s, algo, d.is_some());
        }
        o.count("arbitrary_candidates", 1);
        return Ok(());
    }
    // A multi-char match: every matched char's bonus counts.
    let alpha: Vec<char> = {
        let mut v: Vec<char> = "aAbB01 \t/,:;|_-.\\".chars().collect();
        if r.pct(40) {
            v.extend("éÉ٣日\u{a0}—ǅ".chars());
        }
        v
    };
    let cand: Vec<char> = (0..r.range(2, 12)).map(|_| *r.pick(&alpha)).collect();
    let kind = gen::kind_of(r.below(5));
    let text = gen::term_text(r, kind, &cand, &alpha, false, 40);
    let t = Term { text, kind, inverse: false };
    let Some(query) = canonical(&t) else { return Ok(()) };
    let s = Step {
        query,
        raw: false,
        cand: cand.iter().collect(),
        cfg: Cfg { sens: *r.pick(&SENSES), norm: false, scheme },
    };
    let mut res = Vec::new();
    for algo in ALGOS {
        let e = model::eval(algo, s.cfg, &[vec![t.clone()]], &s.cand);
        let d = ctx(fresh_dnr(&s, algo), || show(&s, algo))?;
        if d.as_ref().map(|d| d.0) != e.as_ref().map(|e| e.score) {
            fail!("got {d:?}, expected {e:?}\n  in: {}", show(&s, algo));
        }
        judged(o, &s, algo, d.is_some());
        res.push(d);
    }
    o.count("multi_char_matches", res.iter().flatten().count() as u64);
    Ok(())
}

// ------------------------------------- C22: irrelevant text is irrelevant --

fn c22(r: &mut Rng, _: u64, o: &mut Obs) -> Res {
    let mut f = Focus { large: 60, max_cells: 100_000, ..Focus::ANY };
    f.soup = 3;
    let algo = gen::algo(r);
    let s = &gen::step(r, &f);
    let conds = terms_of(s);
    let what = || show(s, algo);
    let all = || conds.iter().flatten();
    // Chars that match nothing in the query.
    let inert = |c: char| {
        all().all(|t| {
            let cmp = CharCmp::new(s.cfg, &t.text);
            t.text.iter().all(|&q| !cmp.eq(q, c))
        })
    };
    let pool: Vec<char> = "日—🦀\u{80}é#~zZ_9/ Q×\u{10ffff}\0".chars().filter(|&c| inert(c)).collect();
    if pool.is_empty() {
        return Ok(());
    }
    let mk = |r: &mut Rng| -> String {
        let n = if r.one_in(10) {
            r.range(100, 300)
        } else if r.one_in(4000) {
            r.range(65_000, 70_000)
        } else {
            r.range(1, 6)
        };
        let one = *r.pick(&pool);
        (0..n).map(|_| if r.pct(60) { one } else { *r.pick(&pool) }).collect()
    };
    let base = ctx(fresh_dnr(s, algo), what)?;
    let mut did = false;

    // After the candidate: irrelevant unless a term is anchored to its end.
    if all().all(|t| !matches!(t.kind, Kind::Suffix | Kind::Equal)) {
        let tail = mk(r);
        let c = format!("{}{tail}", s.cand);
        let got = ctx(fresh_q(&s.query, s.raw, &c, s.cfg, algo), what)?;
        if got != base {
            fail!("{base:?}, but {got:?} after appending {tail:?} to the candidate\n  in: {}", what());
        }
        did = true;
        o.count("appended", 1);
        o.count("representation_switches", (s.cand.is_ascii() && !tail.is_ascii()) as u64);
    }
    // Before the candidate: it only moves the ranges, if the candidate's own
    // first char takes no part, and nothing is anchored to its start.
    let first = s.cand.chars().next();
    if first.is_some_and(|c| inert(c))
        && all().all(|t| !matches!(t.kind, Kind::Prefix | Kind::Equal))
    {
        let head = mk(r);
        let c = format!("{head}{}", s.cand);
        let got = ctx(fresh_q(&s.query, s.raw, &c, s.cfg, algo), what)?;
        // A candidate made of spaces only is trimmed differently.
        let spaces = all().any(|t| t.kind == Kind::Suffix) && s.cand.trim_matches(' ').is_empty();
        let e = base.as_ref().map(|(d, rs)| {
            (*d, rs.iter().map(|&(a, b)| (a + head.len(), b + head.len())).collect::<Ranges>())
        });
        if !spaces {
            if got != e {
                fail!("expected {e:?}, got {got:?} after prepending {head:?} to the candidate\n  in: {}", what());
            }
            did = true;
            o.count("prepended", 1);
        }
    }
    note(o, s, algo, base.as_ref().map(|d| d.1.len()));
    judged(o, s, algo, did && base.is_some());
    Ok(())
}

// --------------------------------------------------- C26: distance order --

fn c26(r: &mut Rng, _: u64, o: &mut Obs) -> Res {
    use std::cmp::Ordering;
    let f = Focus { large: 300, max_cells: 30_000, ..Focus::ANY };
    // Long runs reach scores of any size.
    let long = r.one_in(12);
    let algo = if long { Algo::V1 } else { gen::algo(r) };
    let s = if long {
        let alpha = gen::alphabet(r);
        let n = r.range(1, 6000);
        let c = *r.pick(&alpha);
        let text: String = std::iter::repeat(c).take(n).collect();
        Step { query: text.clone(), raw: true, cand: text, cfg: gen::cfg(r) }
    } else {
        gen::step(r, &f)
    };
    let mut p = FzfParser::new();
    let mut m = Met::with(algo, s.cfg);
    let mut ds: Vec<(FzfDistance, i64)> = Vec::new();
    if long {
        // Scores of other sizes, by other queries.
        for _ in 0..6 {
            let n = r.range(1, 6000);
            let t: String = s.query.chars().cycle().take(n).collect();
            let q = parse(&mut p, &t, true)?;
            if let Some(d) = m.dist_raw(q, &t)? {
                ds.push((d, d.into_score() as i64));
                o.max("max_score", d.into_score() as u64);
            }
        }
    }
    let q = parse(&mut p, &s.query, s.raw)?;
    let mut base: Vec<char> = s.cand.chars().collect();
    let alpha = gen::alphabet(r);
    for _ in 0..8 {
        let c: String = base.iter().collect();
        if let Some(d) = m.dist_raw(q, &c)? {
            ds.push((d, d.into_score() as i64));
        }
        let i = r.below(base.len() + 1);
        base.insert(i, *r.pick(&alpha));
    }
    let empty = parse(&mut FzfParser::new(), "", r.pct(50)).and_then(|q| m.dist_raw(q, &s.cand))?;
    let def = FzfDistance::default();
    if empty != Some(def) {
        fail!("the empty query's distance is {empty:?}, the default one is {def:?}");
    }
    ds.push((def, 0));
    for a in &ds {
        for b in &ds {
            // The higher the score, the lower the distance.
            let want = b.1.cmp(&a.1);
            let got = a.0.cmp(&b.0);
            let ok = got == want
                && a.0.partial_cmp(&b.0) == Some(want)
                && (a.0 == b.0) == (want == Ordering::Equal)
                && (a.0 != b.0) == (want != Ordering::Equal)
                && (a.0 < b.0) == (want == Ordering::Less)
                && (a.0 <= b.0) == (want != Ordering::Greater)
                && (a.0 > b.0) == (want == Ordering::Greater)
                && (a.0 >= b.0) == (want != Ordering::Less)
                && a.0.max(b.0).into_score() as i64 == a.1.min(b.1)
                && a.0.min(b.0).into_score() as i64 == a.1.max(b.1);
            if !ok {
                fail!("distances of scores {} and {} compare as {got:?}, expected {want:?}\n  in: {}", a.1, b.1, show(&s, algo));
            }
            o.eval_h(mix(a.1 as u64) ^ mix(b.1 as u64).rotate_left(9), a.1 != b.1);
        }
    }
    let mut sorted = ds.clone();
    sorted.sort_by_key(|d| d.0);
    if sorted.windows(2).any(|w| w[0].1 < w[1].1) {
        let v: Vec<i64> = sorted.iter().map(|d| d.1).collect();
        fail!("sorting by distance gives the scores {v:?}\n  in: {}", show(&s, algo));
    }
    for _ in 0..4 {
        let (x, lo, hi) = (r.pick(&ds).0, r.below(ds.len()), r.below(ds.len()));
        let (lo, hi) = (sorted[lo.min(hi)].0, sorted[lo.max(hi)].0);
        let e = if x < lo { lo } else if x > hi { hi } else { x };
        if x.clamp(lo, hi) != e {
            fail!("{x:?} clamped to {lo:?}..{hi:?} is {:?}, expected {e:?}\n  in: {}", x.clamp(lo, hi), show(&s, algo));
        }
    }
    let iter = || sorted.iter().map(|d| d.0);
    if iter().min() != Some(sorted[0].0) || iter().max() != Some(sorted[sorted.len() - 1].0) {
        fail!("the least and the greatest of {sorted:?} are {:?} and {:?}", iter().min(), iter().max());
    }
    o.count("rankings", 1);
    o.count("distances", ds.len() as u64);
    o.sample(|| format!("scores {:?} of {}", ds.iter().map(|d| d.1).collect::<Vec<_>>(), show(&s, algo)));
    if long {
        return Ok(());
    }
    // The order is the one of the match quality: model scores.
    let conds = terms_of(&s);
    let mut cands: Vec<String> = vec![s.cand.clone()];
    for _ in 0..2 {
        let mut c: Vec<char> = s.cand.chars().collect();
        let i = r.below(c.len() + 1);
        c.insert(i, *r.pick(&['_', ' ', 'x', '/']));
        cands.push(c.into_iter().collect());
    }
    let mut seen: Vec<(FzfDistance, i64, String)> = Vec::new();
    for c in cands {
        let d = m.dist_raw(q, &c)?;
        let e = model::eval(algo, s.cfg, &conds, &c);
        if let (Some(d), Some(e)) = (d, e) {
            seen.push((d, e.score, c));
        }
    }
    for a in &seen {
        for b in &seen {
            if a.1 > b.1 && a.0 >= b.0 {
                fail!("{:?} matches {:?} better than {:?} but its distance isn't lower\n  in: {}", a.2, s.query, b.2, show(&s, algo));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------- C27: configuration --

fn c27(r: &mut Rng, case: u64, o: &mut Obs) -> Res {
    let f = Focus { large: 300, max_cells: 30_000, ..Focus::ANY };
    let algo = gen::algo(r);
    if case % 64 == 0 {
        let d = (subj::sens_of(Default::default()), subj::scheme_of(Default::default()));
        if d != (Sens::Smart, Sch::Default) {
            fail!("the default options are {d:?}");
        }
    }
    // Two instances, configured independently.
    let default = Cfg { sens: Sens::Smart, norm: false, scheme: Sch::Default };
    let made = |r: &mut Rng| if r.pct(50) { Met::new(algo) } else { Met::by_default(algo) };
    let mut ms = [(made(r), default), (made(r), default)];
    let mut log: Vec<String> = Vec::new();
    for _ in 0..r.range(2, 6) {
        let who = r.below(2);
        for _ in 0..r.below(4) {
            let (m, cfg) = &mut ms[who];
            let new = gen::cfg(r);
            let which = r.below(5);
            match which {
                0 => cfg.sens = new.sens,
                1 => cfg.norm = new.norm,
                2 => cfg.scheme = new.scheme,
                3 => *cfg = new,
                _ => {},
            }
            match which {
                0..=2 => m.set_in_order(*cfg, &[which]),
                3 => {
                    let mut order = [0, 1, 2];
                    r.shuffle(&mut order);
                    m.set_in_order(*cfg, &order);
                },
                _ => {
                    // The other becomes a copy of this one.
                    let cfg = *cfg;
                    let (a, b) = ms.split_at_mut(1);
                    let (from, to) = if who == 0 { (&a[0], &mut b[0]) } else { (&b[0], &mut a[0]) };
                    let in_place = r.pct(50);
                    guard("cloning the metric", || to.0.copy_from(&from.0, in_place))?;
                    to.1 = cfg;
                },
            }
            log.push(format!("{} <- {which} {new:?}", ["a", "b"][who]));
        }
        if r.one_in(8) {
            // Debug prints the options in force, whatever the instance's past.
            let shown = |m: &Met| guard("printing the metric", || m.printed());
            let (a, b) = (shown(&ms[who].0)?, shown(&Met::with(algo, ms[who].1))?);
            if a != b {
                fail!("Debug prints {a}, but a new metric with {:?} prints {b}\n  configured by: {log:?}", ms[who].1);
            }
            let other = gen::cfg(r);
            let c = shown(&Met::with(algo, other))?;
            if (a == c) != (ms[who].1 == other) {
                fail!("Debug prints {a} with {:?} and {c} with {other:?}", ms[who].1);
            }
            o.count("debug_outputs_compared", 2);
        }
        let (m, cfg) = &mut ms[who];
        let s = Step { cfg: *cfg, ..gen::step(r, &f) };
        let mut p = FzfParser::new();
        let q = parse(&mut p, &s.query, s.raw)?;
        let e = model::eval(algo, *cfg, &terms_of(&s), &s.cand).map(|e| (e.score, e.ranges));
        let what = || format!("{}\n  configured by: {log:?}", show(&s, algo));
        let got = ctx(m.dnr(q, &s.cand), what)?;
        if got != e {
            fail!("got {got:?}, expected {e:?} with {cfg:?}\n  in: {}", what());
        }
        let d = ctx(m.dist(q, &s.cand), what)?;
        if d != e.as_ref().map(|e| e.0) {
            fail!("distance {d:?}, expected {e:?} with {cfg:?}\n  in: {}", what());
        }
        note(o, &s, algo, got.as_ref().map(|d| d.1.len()));
        o.count(if *cfg == default { "calls_with_the_defaults" } else { "calls_reconfigured" }, 1);
        judged(o, &s, algo, got.is_some());
    }
    Ok(())
}

pub const CHECKS: &[Check] = &[
    Check { id: "C01", f: c01, quick: 1_500_000, thorough: 60_000_000 },
    Check { id: "C02", f: tools::c02, quick: 120_000, thorough: 4_800_000 },
    Check { id: "C03", f: tools::c03, quick: 40_000, thorough: 1_600_000 },
    Check { id: "C04", f: c04, quick: 1_200_000, thorough: 48_000_000 },
    Check { id: "C05", f: c05, quick: 1_000_000, thorough: 40_000_000 },
    Check { id: "C06", f: c06, quick: 1_600_000, thorough: 64_000_000 },
    Check { id: "C07", f: c07, quick: 2_000_000, thorough: 80_000_000 },
    Check { id: "C08", f: c08, quick: 4_000_000, thorough: 160_000_000 },
    Check { id: "C09", f: c09, quick: 1_500_000, thorough: 60_000_000 },
    Check { id: "C10", f: c10, quick: 3_000_000, thorough: 120_000_000 },
    Check { id: "C11", f: c11, quick: 4_000_000, thorough: 160_000_000 },
    Check { id: "C12", f: c12, quick: 3_500_000, thorough: 140_000_000 },
    Check { id: "C13", f: c13, quick: 500_000, thorough: 20_000_000 },
    Check { id: "C14", f: c14, quick: 2_500_000, thorough: 100_000_000 },
    Check { id: "C15", f: c15, quick: 3_000_000, thorough: 120_000_000 },
    Check { id: "C16", f: c16, quick: 4_000_000, thorough: 160_000_000 },
    Check { id: "C17", f: c17, quick: 3_000_000, thorough: 120_000_000 },
    Check { id: "C18", f: c18, quick: 1_200_000, thorough: 48_000_000 },
    Check { id: "C19", f: c19, quick: 1_000_000, thorough: 40_000_000 },
    Check { id: "C20", f: c20, quick: 3_000_000, thorough: 120_000_000 },
    Check { id: "C21", f: c21, quick: 600_000, thorough: 24_000_000 },
    Check { id: "C22", f: c22, quick: 3_000_000, thorough: 120_000_000 },
    Check { id: "C23", f: tools::c23, quick: 90_000, thorough: 3_600_000 },
    Check { id: "C26", f: c26, quick: 500_000, thorough: 20_000_000 },
    Check { id: "C27", f: c27, quick: 1_200_000, thorough: 48_000_000 },
];
