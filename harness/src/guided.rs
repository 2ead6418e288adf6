//! Coverage-guided cases: the draws a case was made from are recorded,
//! altered and replayed, and kept when they made the library do something it
//! hadn't done before. The monitors are the same as everywhere else.

#![cfg_attr(not(feature = "guided"), allow(dead_code))]

use crate::rng::{mix, Draw, Rng, TAPE_CAP};
use crate::run::{clip, cpu_ticks, write_result, CaseFn, Obs, Opts};
use std::cell::UnsafeCell;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};

const BITS: usize = 1 << 21;

struct Global {
    counters: Vec<(*mut u8, *mut u8)>,
    /// What the comparisons of this case looked like.
    cmp: Vec<u64>,
    cmp_set: Vec<u32>,
    /// How many there were: what the case cost, in a way that's repeatable.
    cost: u64,
}

struct Cell(UnsafeCell<Global>);
// Only touched by the thread that's `WATCHED` (and when loading).
unsafe impl Sync for Cell {}

thread_local! {
    static WATCHED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

static G: Cell =
    Cell(UnsafeCell::new(Global { counters: Vec::new(), cmp: Vec::new(), cmp_set: Vec::new(), cost: 0 }));

#[allow(clippy::mut_from_ref)]
fn g() -> &'static mut Global {
    unsafe { &mut *G.0.get() }
}

#[inline(never)]
fn origin() {}

#[inline]
fn compared(pc: usize, a: u64, b: u64) {
    if !WATCHED.with(|w| w.get()) {
        return;
    }
    g().cost += 1;
    let pc = pc.wrapping_sub(origin as *const () as usize) as u64;
    if a == b {
        return note(pc, 0);
    }
    // How far apart, and in how many bits.
    let d = a.abs_diff(b);
    note(pc, if d <= 4 { d } else { 4 + (64 - d.leading_zeros() as u64) });
    note(pc, 100 + (a ^ b).count_ones() as u64);
}

#[inline]
fn note(pc: u64, class: u64) {
    let g = g();
    let h = mix(pc.wrapping_mul(0x9E3779B97F4A7C15) ^ class.wrapping_mul(0xD1342543DE82EF95));
    let bit = (h as usize) & (BITS - 1);
    let w = &mut g.cmp[bit / 64];
    if *w >> (bit % 64) & 1 == 0 {
        *w |= 1 << (bit % 64);
        g.cmp_set.push(bit as u32);
    }
}

#[cfg(feature = "guided")]
mod callbacks {
    use super::{compared, g};
    use std::arch::asm;

    #[no_mangle]
    extern "C" fn __sanitizer_cov_8bit_counters_init(a: *mut u8, b: *mut u8) {
        let g = g();
        if !g.counters.iter().any(|c| c.0 == a) {
            g.counters.push((a, b));
        }
    }

    macro_rules! cmp {
        ($($name:ident $t:ty),*) => {$(
            #[no_mangle]
            #[inline(never)]
            unsafe extern "C" fn $name(a: $t, b: $t) {
                compared(caller(), a as u64, b as u64);
            }
        )*};
    }

    /// Frame pointers are forced, so this is the caller's caller.
    #[inline(always)]
    fn caller() -> usize {
        let pc: usize;
        unsafe { asm!("mov {}, [rbp + 8]", out(reg) pc, options(nostack, readonly)) };
        pc
    }

    cmp!(
        __sanitizer_cov_trace_cmp1 u8, __sanitizer_cov_trace_cmp2 u16,
        __sanitizer_cov_trace_cmp4 u32, __sanitizer_cov_trace_cmp8 u64,
        __sanitizer_cov_trace_const_cmp1 u8, __sanitizer_cov_trace_const_cmp2 u16,
        __sanitizer_cov_trace_const_cmp4 u32, __sanitizer_cov_trace_const_cmp8 u64
    );

    #[no_mangle]
    #[inline(never)]
    unsafe extern "C" fn __sanitizer_cov_trace_switch(v: u64, cases: *const u64) {
        let pc = caller();
        let n = *cases as usize;
        for i in 0..n {
            compared(pc.wrapping_add(i << 20), v, *cases.add(2 + i));
        }
    }
}

fn bucket(n: u8) -> u8 {
    match n {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}

/// What's been seen so far.
struct Seen {
    edges: Vec<u8>,
    cmp: Vec<u64>,
    n_edges: u64,
    n_counts: u64,
    n_cmp: u64,
}

fn clear() {
    let g = g();
    g.cost = 0;
    for &(a, b) in &g.counters {
        unsafe { std::slice::from_raw_parts_mut(a, b as usize - a as usize).fill(0) };
    }
    for bit in g.cmp_set.drain(..) {
        g.cmp[bit as usize / 64] = 0;
    }
}

impl Seen {
    /// The news of the case that's just run.
    fn news(&mut self) -> (u64, u64) {
        let g = g();
        let (mut new, mut new_cmp) = (0, 0);
        let mut i = 0;
        for &(a, b) in &g.counters {
            let c = unsafe { std::slice::from_raw_parts(a, b as usize - a as usize) };
            if self.edges.len() < i + c.len() {
                self.edges.resize(i + c.len(), 0);
            }
            for (k, &v) in c.iter().enumerate() {
                if v != 0 {
                    let (b, s) = (bucket(v), &mut self.edges[i + k]);
                    if *s & b == 0 {
                        self.n_edges += (*s == 0) as u64;
                        self.n_counts += 1;
                        *s |= b;
                        new += 1;
                    }
                }
            }
            i += c.len();
        }
        for &bit in &g.cmp_set {
            let (w, b) = (&mut self.cmp[bit as usize / 64], bit % 64);
            if *w >> b & 1 == 0 {
                *w |= 1 << b;
                new_cmp += 1;
            }
        }
        self.n_cmp += new_cmp;
        (new, new_cmp)
    }
}

struct Entry {
    case: u64,
    cost: u64,
    draws: Vec<Draw>,
}

fn redraw(r: &mut Rng, d: &mut Draw) {
    let n = d.0 as usize;
    d.1 = match r.below(6) {
        0 => d.1.saturating_add(1).min(d.0 - 1),
        1 => d.1.saturating_sub(1),
        2 if r.one_in(2) => 0,
        2 => d.0 - 1,
        _ => r.below(n) as u32,
    };
}

fn mutate(r: &mut Rng, e: &[Draw], other: &[Draw]) -> Vec<Draw> {
    let mut d = e.to_vec();
    for _ in 0..1 + r.below(4) {
        if d.is_empty() {
            break;
        }
        let at = r.below(d.len());
        match r.below(10) {
            // One draw, a few in a row, a few anywhere.
            0..=3 => redraw(r, &mut d[at]),
            4 => {
                let n = 1 + r.below(8);
                d.iter_mut().skip(at).take(n).for_each(|x| redraw(r, x));
            },
            // A stretch goes, or comes twice.
            5 => {
                let n = (1 + r.below(12)).min(d.len() - at);
                d.drain(at..at + n);
            },
            6 => {
                let n = (1 + r.below(12)).min(d.len() - at);
                let x: Vec<Draw> = d[at..at + n].to_vec();
                d.splice(at..at, x);
            },
            // All new from here.
            7 => d.truncate(at),
            // On with another's, from where a draw is from as many.
            8 => {
                let n = d[at].0;
                let ps: Vec<usize> =
                    (0..other.len()).filter(|&i| other[i].0 == n).take(64).collect();
                if !ps.is_empty() {
                    let p = *r.pick(&ps);
                    d.truncate(at);
                    d.extend_from_slice(&other[p..]);
                }
            },
            // A draw like another one that's from as many.
            _ => {
                let n = d[at].0;
                let ks: Vec<u32> = d.iter().filter(|x| x.0 == n).map(|x| x.1).collect();
                d[at].1 = *r.pick(&ks);
            },
        }
    }
    d.truncate(TAPE_CAP);
    d
}

fn draws_str(d: &[Draw]) -> String {
    let mut s = String::new();
    for (n, k) in d {
        let _ = write!(s, "{n}:{k} ");
    }
    s
}

pub fn parse_draws(s: &str) -> Vec<Draw> {
    s.split_whitespace()
        .filter_map(|x| x.split_once(':'))
        .filter_map(|(n, k)| Some((n.parse().ok()?, k.parse().ok()?)))
        .collect()
}

/// Beyond what enumerations number.
const FIRST: u64 = 1 << 60;

/// Ends the process if a case uses too much CPU time.
fn watch(o: &Opts, now: &AtomicU64, done: &AtomicBool, tid: &str) {
    let (mut at, mut since, mut tick) = (u64::MAX, 0, 0u64);
    while !done.load(SeqCst) {
        std::thread::sleep(std::time::Duration::from_millis(20));
        tick += 1;
        if tick % 50 != 0 {
            continue;
        }
        let Some(cpu) = cpu_ticks(tid) else { continue };
        let i = now.load(SeqCst);
        if i != at {
            (at, since) = (i, cpu);
        } else if (cpu - since) / 100 >= o.cpu_limit {
            let msg = format!("guided case {i} used {} s of CPU without returning", o.cpu_limit);
            write_result(&o.out, "hang", Some(FIRST + i), &msg, &Obs::default(), 0.0);
            std::process::exit(11);
        }
    }
}

/// One case again, from its draws: its number, its seed's number, the draws.
pub fn replay(f: CaseFn, o: &Opts, file: &str) -> i32 {
    let s = std::fs::read_to_string(file).expect("reading the draws");
    let mut l = s.lines();
    let mut num = || l.next().and_then(|x| x.parse::<u64>().ok()).expect("a number");
    let (case, idx) = (num(), num());
    let mut obs = Obs { tier_thorough: o.thorough, ..Obs::default() };
    let given = parse_draws(l.next().unwrap_or(""));
    let mut rng = Rng::new(o.seed, &o.check, idx).replaying(given);
    crate::subj::place(Some(idx));
    match f(&mut rng, case, &mut obs) {
        Ok(()) => {
            println!("case {idx}: held");
            0
        },
        Err(v) => {
            println!("case {idx}: VIOLATED\n{}", v.msg);
            10
        },
    }
}

pub fn run(f: CaseFn, o: &Opts) -> i32 {
    let (now, done) = (AtomicU64::new(0), AtomicBool::new(false));
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::scope(|s| {
        let (now, done) = (&now, &done);
        let t = std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(s, move || {
                let tid = std::fs::read_link("/proc/thread-self")
                    .map(|p| p.file_name().unwrap().to_string_lossy().into_owned())
                    .unwrap_or_default();
                let _ = tx.send(tid);
                WATCHED.with(|w| w.set(true));
                let code = explore(f, o, now);
                done.store(true, SeqCst);
                code
            })
            .expect("spawning the worker");
        watch(o, now, done, &rx.recv().unwrap_or_default());
        t.join().unwrap_or(101)
    })
}

fn explore(f: CaseFn, o: &Opts, now: &AtomicU64) -> i32 {
    let t0 = std::time::Instant::now();
    let mut obs = Obs { tier_thorough: o.thorough, ..Obs::default() };
    g().cmp = vec![0; BITS / 64];
    let mut seen =
        Seen { edges: Vec::new(), cmp: vec![0; BITS / 64], n_edges: 0, n_counts: 0, n_cmp: 0 };
    let mut corpus: Vec<Entry> = Vec::new();
    let mut r = Rng::new(o.seed, "guide", 0);
    let cur = std::fs::File::create(format!("{}.cur", o.out)).expect("creating the case file");
    let file = format!("{}.draws", o.out);
    let (mut ran, mut bytes) = (0, Vec::new());
    for i in 0..o.cases {
        if t0.elapsed().as_secs() >= o.max_seconds {
            break;
        }
        ran += 1;
        now.store(i, SeqCst);
        let fresh = corpus.len() < 16 || r.one_in(5);
        let (case, given) = if fresh {
            (FIRST + i, Vec::new())
        } else {
            // The later ones more often.
            let n = corpus.len();
            let pick = |r: &mut Rng| {
                if r.one_in(2) {
                    r.below(n)
                } else {
                    n - 1 - r.below(n.min(64))
                }
            };
            // The cheapest of three.
            let at = (0..3).map(|_| pick(&mut r)).min_by_key(|&i| corpus[i].cost).unwrap();
            let other = r.below(n);
            (corpus[at].case, mutate(&mut r, &corpus[at].draws, &corpus[other].draws))
        };
        // In case the process dies.
        bytes.clear();
        for x in [case, FIRST + i, given.len() as u64] {
            bytes.extend(x.to_le_bytes());
        }
        for d in &given {
            bytes.extend(d.0.to_le_bytes());
            bytes.extend(d.1.to_le_bytes());
        }
        crate::run::write_at(&cur, &bytes, 0);
        let mut rng = Rng::new(o.seed, &o.check, FIRST + i).replaying(given);
        crate::subj::place(Some(FIRST + i));
        clear();
        let res = f(&mut rng, case, &mut obs);
        let (new, new_cmp) = seen.news();
        let draws = rng.draws();
        if let Err(v) = res {
            let _ = std::fs::write(&file, format!("{case}\n{}\n{}\n", FIRST + i, draws_str(&draws)));
            write_result(
                &o.out,
                "violation",
                Some(FIRST + i),
                &clip(&v.msg),
                &obs,
                t0.elapsed().as_secs_f64(),
            );
            return 10;
        }
        if !fresh {
            obs.count("altered_replays", 1);
        }
        if new + new_cmp > 0 && draws.len() < TAPE_CAP {
            corpus.push(Entry { case, cost: g().cost, draws });
        }
    }
    obs.count("cases", ran);
    obs.count("kept_for_doing_something_new", corpus.len() as u64);
    obs.max("max_blocks_reached", seen.n_edges);
    obs.max("max_block_count_classes", seen.n_counts);
    obs.max("max_comparison_classes", seen.n_cmp);
    write_result(&o.out, "ok", None, "", &obs, t0.elapsed().as_secs_f64());
    0
}
