//! Workloads for the checks whose oracle is a sanitizer, an interpreter, an
//! instruction counter or an allocator rather than a comparison of results.

use crate::gen::{self, Focus, Step};
use crate::model::{Algo, Cfg, Sch, Sens};
use crate::rng::Rng;
use crate::run::Obs;
use crate::subj::{self, guard, show, Met, Res, Viol};
use norm::fzf::{FzfParser, FzfQuery};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::ops::Range;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};

macro_rules! fail {
    ($($t:tt)*) => { return Err(Viol::new(format!($($t)*))) };
}

/// Set when every step is costly (under an interpreter).
static TINY: AtomicBool = AtomicBool::new(false);

pub fn set_tiny() {
    TINY.store(true, SeqCst);
    gen::set_tiny();
}

fn tiny() -> bool {
    TINY.load(SeqCst)
}

// ---------------------------------------------------- C02: memory safety --

/// Parsing with whatever the parser holds; panics are another property's.
fn quiet<T>(o: &mut Obs, f: impl FnOnce() -> T) -> Option<T> {
    match guard("call", f) {
        Ok(v) => Some(v),
        Err(_) => {
            o.count("panics_ignored", 1);
            None
        },
    }
}

fn parse_q<'a>(o: &mut Obs, p: &'a mut FzfParser, s: &Step) -> Option<FzfQuery<'a>> {
    quiet(o, || if s.raw { p.parse_not_extended(&s.query) } else { p.parse(&s.query) })
}

/// Everything the API lets a program do with instances: create, reuse,
/// clone, move, swap and drop them in any order.
pub fn c02(r: &mut Rng, _: u64, o: &mut Obs) -> Res {
    let f = if tiny() {
        Focus { large: 0, max_cells: 300, ..Focus::ANY }
    } else {
        Focus { large: 25, max_cells: 60_000, soup: 15, ..Focus::ANY }
    };
    let mut parsers: Vec<Box<FzfParser>> = vec![Box::default()];
    let mut mets: Vec<Box<Met>> = vec![Box::new(Met::new(gen::algo(r)))];
    let mut buf: Vec<Range<usize>> = Vec::new();
    let n = r.range(2, if tiny() { 6 } else { 14 });
    for _ in 0..n {
        match r.below(12) {
            0 => parsers.push(Box::new(FzfParser::new())),
            1 => {
                let p = r.pick(&parsers).clone();
                parsers.push(p);
                o.count("clones", 1);
            },
            2 => {
                let m = r.pick(&mets).clone();
                mets.push(m);
                o.count("clones", 1);
            },
            3 if parsers.len() > 1 => {
                let i = r.below(parsers.len());
                // Moved out of its box and dropped elsewhere.
                let p = *parsers.swap_remove(i);
                let p2 = p;
                drop(p2);
                o.count("drops", 1);
            },
            4 if mets.len() > 1 => {
                let i = r.below(mets.len());
                let m = *mets.swap_remove(i);
                drop(m);
                o.count("drops", 1);
            },
            5 if parsers.len() > 1 => {
                let last = parsers.len() - 1;
                let (a, b) = parsers.split_at_mut(last);
                std::mem::swap(&mut *a[0], &mut *b[0]);
                o.count("moves", 1);
            },
            6 => {
                mets.push(Box::new(Met::new(gen::algo(r))));
            },
            _ => {},
        }
        let (pi, mi) = (r.below(parsers.len()), r.below(mets.len()));
        let s = if tiny() { gen::tiny_step(r, &f) } else { gen::step(r, &f) };
        mets[mi].set(s.cfg);
        // Clones made before and after, dropped while the query is alive.
        let before = r.one_in(4).then(|| parsers[pi].clone());
        let Some(q) = parse_q(o, &mut parsers[pi], &s) else { continue };
        drop(before);
        let copy = q;
        if r.one_in(5) {
            let _ = quiet(o, || format!("{q:?} {:?}", mets[mi]).len());
        }
        for q in [q, copy] {
            let cand: &str = &s.cand;
            // A candidate that ends where its allocation ends.
            let exact: Box<str> = cand.into();
            let d = quiet(o, || match &mut *mets[mi] {
                Met::V1(m) => normapi::v1::distance(m, q, &exact),
                Met::V2(m) => normapi::v2::distance(m, q, &exact),
            });
            let e = quiet(o, || match &mut *mets[mi] {
                Met::V1(m) => normapi::v1::distance_and_ranges(m, q, &exact, &mut buf),
                Met::V2(m) => normapi::v2::distance_and_ranges(m, q, &exact, &mut buf),
            });
            // Look at everything that came back.
            let mut sum = 0usize;
            for x in &buf {
                sum = sum.wrapping_add(x.start).wrapping_mul(31).wrapping_add(x.end);
            }
            std::hint::black_box((sum, d == e));
            o.count("calls", 2);
            if let Some(Some(_)) = e {
                o.count("matches", 1);
            }
            if !exact.is_ascii() {
                o.count("non_ascii_candidates", 1);
            }
        }
        if r.one_in(5) {
            let m2 = mets[mi].clone();
            mets[mi] = m2;
        }
        if r.pct(70) {
            buf.clear();
            if r.pct(50) {
                buf.shrink_to_fit();
            }
        }
        let algo = if matches!(*mets[mi], Met::V1(_)) { Algo::V1 } else { Algo::V2 };
        crate::checks::judged(o, &s, algo, !s.query.is_empty() && !s.cand.is_empty());
    }
    // Drop in a random order.
    while !mets.is_empty() || !parsers.is_empty() {
        if !mets.is_empty() && r.pct(50) {
            let i = r.below(mets.len());
            mets.swap_remove(i);
        } else if !parsers.is_empty() {
            let i = r.below(parsers.len());
            parsers.swap_remove(i);
        }
    }
    o.count("sessions", 1);
    Ok(())
}

// ------------------------------------------------------- C03: threads --

/// Shares anything: whether the library's types may be shared is checked by
/// a program of its own, which must compile.
struct Share<T>(T);
unsafe impl<T> Sync for Share<T> {}
unsafe impl<T> Send for Share<T> {}

impl<T> Share<T> {
    fn get(&self) -> &T {
        &self.0
    }
    fn take(self) -> T {
        self.0
    }
}

type Answer = (Option<i64>, Vec<(usize, usize)>);

fn answer(m: &mut Met, q: FzfQuery<'_>, cand: &str) -> Res<Answer> {
    let mut buf = Vec::new();
    let d = m.dnr_into(q, cand, &mut buf)?;
    Ok((d, buf.iter().map(|x| (x.start, x.end)).collect()))
}

pub fn c03(r: &mut Rng, case: u64, o: &mut Obs) -> Res {
    let f = if tiny() {
        Focus { large: 0, max_cells: 200, ..Focus::ANY }
    } else {
        Focus { large: 60, huge: 20_000, max_cells: 20_000, ..Focus::ANY }
    };
    let threads = if tiny() { 2 } else { r.range(2, 5) };
    let nq = if tiny() { 2 } else { r.range(2, 7) };
    let steps: Vec<Step> = (0..nq)
        .map(|_| if tiny() { gen::tiny_step(r, &f) } else { gen::step(r, &f) })
        .collect();
    let cands: Vec<&str> = steps.iter().map(|s| &*s.cand).collect();
    let mut parsers: Vec<FzfParser> = (0..nq).map(|_| FzfParser::new()).collect();
    let queries: Vec<FzfQuery<'_>> = parsers
        .iter_mut()
        .zip(&steps)
        .map(|(p, s)| subj::parse(p, &s.query, s.raw))
        .collect::<Res<_>>()?;
    let algo = gen::algo(r);

    // Metrics that are set up, and maybe used, on another thread than the one
    // that will use them. Not always: then nothing is called before the threads
    // call it at the same time.
    let mode = r.below(20);
    let (set_before, used_before) = (mode < 6, mode < 3);
    let lead = r.below(nq);
    let veteran = |i: usize| -> Res<Met> {
        let mut m = Met::new(algo);
        if set_before {
            m.set(steps[i].cfg);
        }
        if used_before {
            answer(&mut m, queries[i], cands[i])?;
        }
        Ok(m)
    };
    let shared = Share((&queries[..], veteran(lead)?));
    let barrier = std::sync::Barrier::new(threads);
    let base = r.next();
    let rounds = if tiny() { 1 } else { 3 };
    type Done = (Vec<(usize, usize, Answer)>, u64, Share<(Option<usize>, Met)>);
    let results: Vec<Res<Done>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (shared, barrier, steps, cands) = (&shared, &barrier, &steps, &cands);
                // Moved into the thread.
                let mine = (base as usize).wrapping_add(t) % nq;
                let own = Share((veteran(mine), FzfParser::new()));
                sc.spawn(move || -> Res<Done> {
                    let mut r = Rng::new(base, "thread", t as u64 ^ (case << 8));
                    let (own, mut parser) = own.take();
                    let mut own = own?;
                    barrier.wait();
                    // Cloning a metric that other threads see.
                    let mut clone = guard("clone", || shared.get().1.clone())?;
                    let (mut answers, mut switches) = (Vec::new(), 0);
                    let mut last = set_before.then_some(mine);
                    if set_before {
                        // With the options that they came with.
                        for (m, i) in [(&mut own, mine), (&mut clone, lead)] {
                            let j = r.below(cands.len());
                            answers.push((i, j, answer(m, shared.get().0[i], cands[j])?));
                        }
                    }
                    for _ in 0..rounds * steps.len() {
                        let i = r.below(steps.len());
                        let s = &steps[i];
                        let q = if r.pct(60) {
                            shared.get().0[i]
                        } else {
                            // Parse it here, at the same time as the others.
                            subj::parse(&mut parser, &s.query, s.raw)?
                        };
                        let m = if r.pct(50) {
                            last = Some(i);
                            &mut own
                        } else {
                            &mut clone
                        };
                        m.set(s.cfg);
                        for _ in 0..2 {
                            let j = r.below(cands.len());
                            let got = answer(m, q, cands[j])?;
                            answers.push((i, j, got));
                        }
                        if r.one_in(3) {
                            std::thread::yield_now();
                            switches += 1;
                        }
                    }
                    Ok((answers, switches, Share((last, own))))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("worker thread")).collect()
    });
    // What a single thread gets. Asked for afterwards, so that whatever is set
    // up on first use was set up by threads that ran at the same time.
    let mut expected: Vec<Vec<Answer>> = Vec::new();
    for (s, &q) in steps.iter().zip(&queries) {
        let mut m = Met::with(algo, s.cfg);
        expected.push(cands.iter().map(|c| answer(&mut m, q, c)).collect::<Res<_>>()?);
    }
    for (t, x) in results.into_iter().enumerate() {
        let (mut answers, y, back) = x?;
        // Moved out of the thread, with the options that were set there.
        let (last, mut m) = back.take();
        if let Some(i) = last {
            for (j, c) in cands.iter().enumerate() {
                answers.push((i, j, answer(&mut m, queries[i], c)?));
            }
            o.count("metrics_moved_back", 1);
        }
        o.count("calls_compared", answers.len() as u64);
        for (i, j, got) in answers {
            if got != expected[i][j] {
                fail!(
                    "thread {t} of {threads} got {got:?}, a single thread gets {:?}\n  in: {}",
                    expected[i][j],
                    show(&Step { cand: cands[j].into(), ..steps[i].clone() }, algo)
                );
            }
        }
        o.count("injected_yields", y);
    }
    o.count("thread_groups", 1);
    o.count("groups_of_configured_metrics", set_before as u64);
    o.count("threads", threads as u64);
    for s in &steps {
        crate::checks::judged(o, s, algo, !s.query.is_empty());
    }
    Ok(())
}

// -------------------------------------------------------- C23: memory --

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

fn moved(d: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + d;
        l.set(v);
        let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
    });
    if d > 0 {
        let _ = CALLS.try_with(|c| c.set(c.get() + 1));
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        moved(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        moved(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        moved(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // While it moves, both blocks exist.
        moved(n as i64);
        let q = System.realloc(p, l, n);
        moved(-(l.size() as i64));
        q
    }
}

fn live() -> i64 {
    LIVE.with(|l| l.get())
}

/// Runs `f` and returns by how much the live bytes rose at most.
fn peak_of<T>(f: impl FnOnce() -> T) -> (T, i64) {
    let base = live();
    PEAK.with(|p| p.set(base));
    let v = f();
    (v, PEAK.with(|p| p.get()) - base)
}

const FLOOR: i64 = 64 << 10;
const PER_CELL: i64 = 64;
const PER_BYTE: i64 = 400;

/// The footprint that inputs of this size may lead to.
fn allowance(algo: Algo, query: usize, cand: usize) -> i64 {
    let (q, c) = (query as i64, cand as i64);
    let linear = FLOOR + PER_BYTE * (q + c);
    match algo {
        Algo::V1 => linear,
        Algo::V2 => linear + PER_CELL * q * c,
    }
}

/// The text with its ASCII letters and digits replaced by others: a different
/// input of the same shape and size.
fn rotated(s: &str, k: u8) -> String {
    let turn = |c: u8, base: u8, n: u8| (base + (c - base + k) % n) as char;
    s.chars()
        .map(|c| match c {
            'a'..='z' => turn(c as u8, b'a', 26),
            'A'..='Z' => turn(c as u8, b'A', 26),
            '0'..='9' => turn(c as u8, b'0', 10),
            c => c,
        })
        .collect()
}

/// Many different inputs, none larger than the first ones.
fn crowd(r: &mut Rng, o: &mut Obs) -> Res {
    let f = Focus { large: 0, huge: 0, max_cells: 20_000, ..Focus::ANY };
    let algo = gen::algo(r);
    let (maxq, maxc) = if r.pct(70) {
        let q = r.range(4, 60);
        (q, r.range(q + 20, 300))
    } else {
        (r.range(2, 8), r.range(300, 2000))
    };
    let calls = r.range(1000, 4000);
    let cut = |s: &str, n: usize| -> String {
        let n = (0..=n.min(s.len())).rev().find(|&i| s.is_char_boundary(i)).unwrap_or(0);
        s[..n].to_string()
    };
    for k in ["calls", "calls_after_the_largest", "crowds", "panics_ignored"] {
        o.count(k, 0);
    }
    let steps: Vec<Step> = (0..calls)
        .map(|_| {
            let mut s = gen::step(r, &f);
            if r.pct(40) {
                // Matches of all lengths, in all places.
                let base = ["abcab", "aé", "xyz_ ", "日a"];
                let a = *r.pick(&base);
                let n = r.below(maxq + 1);
                s.query = cut(&a.repeat(maxq), n);
                let filler = *r.pick(&["-", "_a", ""]);
                let unit = format!("{a}{filler}");
                let (i, n) = (r.below(maxc + 1), r.below(maxc + 1));
                let gap = r.below(maxc + 1);
                s.cand = format!("{}{}{}", "#".repeat(i.min(n)), cut(&unit.repeat(maxc), n), "#".repeat(gap));
                if r.pct(50) {
                    s.cand = format!("{a}{}{a}", "#".repeat(gap));
                }
            }
            let (nq, nc) = if r.pct(50) { (r.below(maxq + 1), r.below(maxc + 1)) } else { (maxq, maxc) };
            s.query = cut(&s.query, nq);
            s.cand = cut(&s.cand, nc);
            s
        })
        .collect();
    // Once to warm up whatever is process-wide.
    for check in [false, true] {
        let start = live();
        let mut m = Met::new(algo);
        let mut p = FzfParser::new();
        let mut held = live() - start;
        let mut out: Vec<Range<usize>> = Vec::with_capacity(2 * maxc + 2);
        // What the library holds on to after this call.
        let mut call = |q: &str, raw: bool, c: &str, cfg: Cfg| -> Result<i64, Viol> {
            out.clear();
            out.reserve(2 * maxc + 2);
            let before = live();
            m.set(cfg);
            let query = subj::parse(&mut p, q, raw)?;
            m.dist_raw(query, c)?;
            m.dnr_into(query, c, &mut out)?;
            held += live() - before;
            Ok(held)
        };
        let mut most = 0;
        for a in ["a", "é", "日"] {
            let (q, c) = (cut(&a.repeat(maxq), maxq), cut(&a.repeat(maxc), maxc));
            let mixed = cut(&format!("é{c}"), maxc);
            let queries = [
                (q.clone(), true),
                (q, false),
                ("a ".repeat(maxq / 2), false),
                (cut(&format!("'{a} | ^{a} !{a} ").repeat(maxq), maxq), false),
            ];
            for (q, raw) in &queries {
                for c in [&c, &mixed] {
                    let Ok(h) = call(q, *raw, c, Cfg { sens: Sens::Smart, norm: false, scheme: Sch::Default }) else {
                        o.count("panics_ignored", 1);
                        return Ok(());
                    };
                    most = h;
                }
            }
        }
        let room = most + 8192 + 64 * (maxq + maxc) as i64;
        for (i, Step { query: q, raw, cand: c, cfg }) in steps.iter().enumerate() {
            let Ok(held) = call(q, *raw, c, *cfg) else {
                o.count("panics_ignored", 1);
                return Ok(());
            };
            if check && held > room {
                fail!(
                    "{most} bytes were held after calls with queries of {maxq} and candidates of {maxc} bytes, {held} after {i} other ones that aren't larger ({algo:?}; the last one: query={q:?} candidate={c:?})"
                );
            }
            if check {
                o.count("calls", 2);
                o.count("calls_after_the_largest", 2);
            }
        }
        drop((m, p, out));
        let left = live() - start;
        if check && left != 0 {
            fail!("{left} bytes are left after dropping everything ({algo:?}, {calls} calls, queries of up to {maxq} and candidates of up to {maxc} bytes)");
        }
    }
    o.count("crowds", 1);
    Ok(())
}

pub fn c23(r: &mut Rng, _: u64, o: &mut Obs) -> Res {
    if r.one_in(400) {
        return crowd(r, o);
    }
    let f = Focus { large: 12, huge: 0, max_cells: 60_000, ..Focus::ANY };
    let algo = gen::algo(r);
    let mut steps = gen::session(r, &f, 6);
    if r.pct(30) {
        let mut s = gen::step(r, &f);
        s.cand = s.cand.repeat(r.range(2, 40));
        s.cand.truncate((0..=s.cand.len().min(40_000)).rev().find(|&i| s.cand.is_char_boundary(i)).unwrap());
        let room = 300_000 / s.cand.len().max(1);
        if s.query.len() <= room {
            steps.push(s);
        }
    }
    if r.pct(30) {
        // Many terms over one candidate.
        let mut s = gen::step(r, &f);
        s.raw = false;
        s.query = vec![s.query; r.range(2, 30)].join(" ");
        if s.query.len() * s.cand.len() < 400_000 {
            steps.push(s);
        }
    }
    // The same calls several times, then others of the same shapes.
    let mut turns: Vec<u8> = vec![0; 4];
    let others = if r.one_in(8) { 24 } else { 3 };
    turns.extend((0..others).map(|_| r.range(1, 129) as u8));
    let chain = if r.one_in(16) { 60 } else { 0 };
    let maxq = steps.iter().map(|s| s.query.len()).max().unwrap();
    let maxc = steps.iter().map(|s| s.cand.len()).max().unwrap();
    let allow = allowance(algo, maxq, maxc);
    let what = || {
        let l: Vec<String> = steps.iter().map(|s| crate::run::clip(&show(s, algo))).collect();
        l.join("\n      ")
    };

    let session = |check: bool, o: &mut Obs| -> Res {
        let start = live();
        let mut m = Met::new(algo);
        let mut p = FzfParser::new();
        let created = live() - start;
        if created > FLOOR {
            fail!("a new parser and a new metric hold {created} bytes");
        }
        let mut out: Vec<Range<usize>> = Vec::with_capacity(maxc + 1);
        let with_out = live();
        let mut after_first = 0;
        for (round, &turn) in turns.iter().enumerate() {
            for s in &steps {
                let other;
                let s = if turn > 0 && s.query.is_ascii() && s.cand.is_ascii() {
                    other = gen::Step {
                        query: rotated(&s.query, turn),
                        cand: rotated(&s.cand, turn),
                        ..s.clone()
                    };
                    &other
                } else {
                    s
                };
                out.clear();
                m.set(s.cfg);
                let (res, up) = peak_of(|| -> Res {
                    let q = subj::parse(&mut p, &s.query, s.raw)?;
                    m.dist_raw(q, &s.cand)?;
                    m.dnr_into(q, &s.cand, &mut out)?;
                    Ok(())
                });
                if let Err(v) = res {
                    // Not this property's business.
                    o.count("panics_ignored", 1);
                    drop(v);
                    return Ok(());
                }
                if check && up > allow {
                    fail!("the call's memory peaked {up} bytes above what was held before it, more than {allow}\n  in: {}", crate::run::clip(&show(s, algo)));
                }
                o.max("max_peak_bytes", up.max(0) as u64);
                o.count("calls", 2);
            }
            let held = live() - with_out + created;
            if check && held > allow {
                fail!("{held} bytes are held after {} rounds, more than {allow} for queries of {maxq} and candidates of {maxc} bytes\n  in: {}", round + 1, what());
            }
            if round == 0 {
                after_first = held;
            } else if check && held > after_first + if turn > 0 { 1024 } else { 0 } {
                fail!("{after_first} bytes were held after the first round of calls, {held} after round {} of the same ones\n  in: {}", round + 1, what());
            }
            o.max("max_held_bytes", held.max(0) as u64);
        }
        // Whatever was allocated by a clone goes with it.
        let before = live();
        drop((m.clone(), p.clone()));
        if check && live() != before {
            fail!("cloning and dropping left {} bytes behind\n  in: {}", live() - before, what());
        }
        // No generation of clones holds more than what they're clones of may.
        if chain > 0 {
            let before = live();
            let mut k = m.clone();
            for i in 0..chain {
                let next = k.clone();
                k.copy_from(&next, i % 3 == 2);
                let held = live() - before;
                if check && held > allow {
                    fail!("a clone of a clone .. ({} in all) holds {held} bytes, more than {allow}\n  in: {}", i + 2, what());
                }
            }
            drop(k);
            o.count("clones", chain as u64);
        }
        drop((m, p, out));
        let left = live() - start;
        if check && left != 0 {
            fail!("{left} bytes are left after dropping everything\n  in: {}", what());
        }
        Ok(())
    };
    // Once to warm up whatever is process-wide.
    let mut scratch = Obs::default();
    scratch.count("calls", 0);
    scratch.count("clones", 0);
    session(false, &mut scratch)?;
    o.count("calls", 0);
    o.count("panics_ignored", 0);
    o.count("clones", 0);
    o.max("max_peak_bytes", 0);
    o.max("max_held_bytes", 0);
    session(true, o)?;
    o.count("sessions", 1);
    for s in &steps {
        crate::checks::judged(o, s, algo, !s.query.is_empty() && !s.cand.is_empty());
    }
    Ok(())
}

// -------------------------------------------------- C24: work done --

fn rep(unit: &str, n: usize) -> String {
    unit.repeat(n.div_ceil(unit.chars().count()))
}

/// `n` chars that are all different.
fn alphabet(n: usize) -> String {
    (0x3400..0xd800).chain(0xe000..0x30000).take(n).filter_map(char::from_u32).collect()
}

/// The last of them.
fn last(n: usize) -> String {
    alphabet(n).chars().last().into_iter().collect()
}

/// A named workload of size `n`: (query, raw, candidate).
pub fn workload(name: &str, n: usize) -> Option<(Algo, String, bool, String)> {
    let mut parts = name.split('-');
    let algo = match parts.next()? {
        "v1" => Algo::V1,
        "v2" => Algo::V2,
        _ => return None,
    };
    let wide = match parts.next()? {
        "ascii" => false,
        "wide" => true,
        _ => return None,
    };
    let (a, b, x) = if wide { ("é", "日", "—") } else { ("a", "b", "_") };
    let (query, raw, cand) = match parts.next()? {
        // Every char could match.
        "run" => (rep(a, 8), true, rep(a, n)),
        // Matches far apart.
        "sparse" => (format!("{a}{b}"), true, format!("{a}{}{b}", rep(x, n))),
        // Alternating matches and gaps.
        "comb" => (format!("{a}{b}{a}{b}"), true, rep(&format!("{a}{x}{b}"), n)),
        // The query grows along with the candidate.
        "long" => (rep(a, n / 2), true, rep(a, n)),
        "longcomb" => (rep(a, n / 2), true, rep(&format!("{a}{x}"), n)),
        // The last char is missing.
        "miss" => (format!("{}{b}", rep(a, 7)), true, rep(a, n)),
        "misslong" => (format!("{}{b}", rep(a, n / 2)), true, rep(a, n)),
        "missfirst" => (format!("{b}{a}"), true, rep(a, n)),
        // The other kinds of terms.
        "exact" => (format!("'{a}{a}{b}"), false, rep(a, n)),
        "exactend" => (format!("'{a}{a}{b}"), false, format!("{}{b}", rep(a, n))),
        "prefix" => (format!("^{a}{a}{b}"), false, rep(a, n)),
        "suffix" => (format!("{b}{a}$"), false, rep(a, n)),
        "equal" => (format!("^{}$", rep(a, 8)), false, rep(a, n)),
        "spaces" => (format!("^{a} {a}$"), false, format!("{}{a}{}", rep(" ", n / 2), rep(" ", n / 2))),
        "terms" => (format!("{a}{a} '{a}{b} | '{a}{a} !{b} {a}$"), false, rep(a, n)),
        // The parser alone.
        "parse" => (rep(&format!("{a}{b} | '{x}\\ {a} "), n), false, String::from("x")),
        "parseraw" => (rep(a, n), true, String::from("x")),
        "parseword" => (rep(&format!("{a}{b}$"), n), false, String::from("x")),
        "parseshort" => (rep(&format!("{a} "), n), false, String::from("x")),
        "parseor" => (rep(&format!("{a} | "), n), false, String::from("x")),
        "parsepipes" => (rep("| ", n), false, String::from("x")),
        "parseblank" => (format!("{}{a}{}", rep(" ", n / 2), rep(" ", n / 2)), false, String::from("x")),
        "parseesc" => (rep(&format!("{a}\\ "), n), false, String::from("x")),
        "parseslash" => (rep("\\", n), false, String::from("x")),
        "parsebang" => (rep("!", n), false, String::from("x")),
        "parsequote" => (format!("{}{a}", rep("'", n)), false, String::from("x")),
        // Terms, or chars, that are all different.
        "parsedist" => ((0..n).map(|i| format!("{i:06}{a} ")).collect(), false, String::from("x")),
        "parsechars" => (format!("{a}{} {x}", alphabet(n)), false, String::from("x")),
        "parseops" => (rep(&format!("! ' ^ $ ^$ '$ !^{a}$ "), n), false, String::from("x")),
        // Many terms, the candidate stays the same.
        "manyand" => (rep(&format!("{a}{b} '{a}{x} "), n), false, format!("{a}{x}{b}{a}{x}")),
        "manyor" => (rep(&format!("{b}{b} | "), n) + a, false, rep(a, 50)),
        "manynot" => (rep(&format!("!{b}{b} "), n), false, rep(a, 50)),
        "manyanch" => (rep(&format!("^{a}{x} {x}$ !^{b} !{b}$ ^{a}{x}{a}{x}$ | {a} "), n), false, format!("{a}{x}{a}{x}")),
        "manydist" => ((0..n).map(|i| format!("!{i:06}{b} {x}{i} | {a} ")).collect(), false, rep(a, 50)),
        "alphabet" => (format!("{}{}", alphabet(1), last(n)), true, alphabet(n)),
        // Terms that match in several places.
        "places" => (format!("'{a}{b} {a}{b} '{x}{a} {b}{x}{a} ^{a} {b}$"), false, format!("{}{a}{b}", rep(&format!("{a}{b}{x}"), n))),
        "notexact" => (format!("!{a}{a}{b} !'{b}{a} !^{b} !{x}$"), false, rep(a, n)),
        // A single char.
        "one" => (a.into(), false, format!("{}{a}", rep(x, n))),
        "ones" => (a.into(), false, rep(&format!("{a}{x}"), n)),
        "onemiss" => (b.into(), false, rep(a, n)),
        // Words of all kinds.
        "words" => (format!("{a}B1"), true, rep(&format!("{a}{x}B {b}1/"), n)),
        // One large candidate, and then as many small ones.
        "afterbig" => (format!("{a}{b}"), true, format!("{a}{}{b}", rep(x, n))),
        // Many different ones, and a buffer that's never cleared.
        "crowd" => (format!("{a}{b}"), true, format!("{a}{x}{b}")),
        // The size of the product.
        "square" => {
            let k = (n as f64).sqrt() as usize;
            (rep(a, k), true, rep(a, k * 4))
        },
        _ => return None,
    };
    Some((algo, query, raw, cand))
}

pub fn work(name: &str, n: usize) -> i32 {
    if n == 0 {
        return 0;
    }
    let Some((algo, query, raw, cand)) = workload(name, n) else {
        eprintln!("unknown workload {name}");
        return 2;
    };
    let mut p = FzfParser::new();
    let mut m = Met::new(algo);
    if name.ends_with("-sens") {
        m.set(Cfg { sens: Sens::Sensitive, norm: false, scheme: Sch::Path });
    } else if name.ends_with("-norm") {
        m.set(Cfg { sens: Sens::Insensitive, norm: true, scheme: Sch::History });
    }
    let q = if raw { p.parse_not_extended(&query) } else { p.parse(&query) };
    let mut buf = Vec::new();
    let d = m.dnr_into(q, &cand, &mut buf);
    let e = m.dist_raw(q, &cand);
    if name.contains("-afterbig") {
        for _ in 0..n / 8 {
            buf.clear();
            let _ = m.dnr_into(q, "-ab é日 a", &mut buf);
            let _ = m.dist_raw(q, "a b");
        }
        drop(p.parse(&"ab ".repeat(n / 4)));
        for _ in 0..n / 8 {
            p.parse("a b | c");
        }
    }
    if name.contains("-crowd") {
        let wide = name.contains("-wide");
        for i in 0..n / 4 {
            let c = format!("{i}_a{}{}", if wide { "é" } else { "e" }, i % 7);
            let q = p.parse(&c[..(1 + i % 3).min(i.to_string().len())]);
            let _ = m.dnr_into(q, &c, &mut buf);
            let _ = m.dist_raw(q, &c);
            let t = format!("{} '{}", i % 10, i);
            let q = p.parse(&t);
            let _ = m.dnr_into(q, &c, &mut buf);
            if i % 16 == 0 {
                m.set(Cfg {
                    sens: [Sens::Smart, Sens::Sensitive, Sens::Insensitive][i / 16 % 3],
                    norm: i % 32 == 0,
                    scheme: [Sch::Default, Sch::Path][i / 32 % 2],
                });
                m = m.clone();
                p = p.clone();
            }
        }
    }
    println!("{}", matches!((&d, &e), (Ok(Some(_)), Ok(Some(_)))));
    0
}
