//! Runs the cases of a check on all cores, with a watchdog, and writes what
//! was observed to a result file.

use crate::rng::{mix, Rng};
use crate::subj::{Res, Viol};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

const DISTINCT_CAP: usize = 3_000_000;

/// What a run observed.
#[derive(Default)]
pub struct Obs {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub tier_thorough: bool,
    pub sample_skip: u64,
}

impl Obs {
    /// Counts one judged execution; `key` identifies it.
    pub fn eval_h(&mut self, key: u64, nontrivial: bool) {
        self.evals += 1;
        // The count of distinct cases saturates, to bound the memory.
        if nontrivial && self.distinct.len() < DISTINCT_CAP {
            self.distinct.insert(mix(key));
        }
    }
    pub fn count(&mut self, name: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(name) {
            *c += n;
        } else {
            self.counters.insert(name.to_string(), n);
        }
    }
    pub fn max(&mut self, name: &str, n: u64) {
        let c = self.counters.entry(name.to_string()).or_insert(0);
        *c = (*c).max(n);
    }
    /// Keeps a few cases, increasingly far apart.
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 4 {
            if self.sample_skip == 0 {
                let s = f();
                if s.len() < 600 {
                    self.samples.push(s);
                    self.sample_skip = 1 << (self.samples.len() * 3);
                }
            } else {
                self.sample_skip -= 1;
            }
        }
    }
    fn merge(&mut self, o: Obs) {
        self.evals += o.evals;
        self.distinct.extend(o.distinct);
        for (k, v) in o.counters {
            let c = self.counters.entry(k.clone()).or_insert(0);
            if k.starts_with("max_") {
                *c = (*c).max(v);
            } else {
                *c += v;
            }
        }
        self.samples.extend(o.samples);
    }
}

pub type CaseFn = fn(&mut Rng, u64, &mut Obs) -> Res;

pub struct Opts {
    pub check: String,
    pub seed: u64,
    pub cases: u64,
    pub threads: usize,
    pub out: String,
    pub thorough: bool,
    pub only: Option<u64>,
    pub cpu_limit: u64,
    /// Stop starting new cases after this many seconds.
    pub max_seconds: u64,
}

pub fn json_str(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            },
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Best effort: the file says which cases were running if the process dies.
pub fn write_at(f: &std::fs::File, bytes: &[u8], at: u64) {
    #[cfg(unix)]
    let _ = std::os::unix::fs::FileExt::write_at(f, bytes, at);
    #[cfg(not(unix))]
    let _ = (f, bytes, at);
}

pub fn clip(s: &str) -> String {
    if s.chars().count() <= 4000 {
        return s.to_string();
    }
    let mut t: String = s.chars().take(4000).collect();
    t.push_str("… (clipped)");
    t
}

pub fn cpu_ticks(tid: &str) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let s = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = s.split(' ').collect();
    Some(f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?)
}

/// The CPU time used by all threads but `me`, and whether one of them is
/// running or would like to.
fn activity(me: &str) -> (u64, bool) {
    let (mut cpu, mut runnable) = (0, false);
    for e in std::fs::read_dir("/proc/self/task").into_iter().flatten().flatten() {
        let tid = e.file_name().to_string_lossy().into_owned();
        if tid == me {
            continue;
        }
        cpu += cpu_ticks(&tid).unwrap_or(0);
        let stat = std::fs::read_to_string(e.path().join("stat")).unwrap_or_default();
        let state = stat.rfind(')').and_then(|i| stat[i + 1..].trim().chars().next());
        runnable |= !matches!(state, Some('S'));
    }
    (cpu, runnable)
}

struct Slot {
    case: AtomicU64,
    tid: Mutex<String>,
}

const IDLE: u64 = u64::MAX;

pub fn write_result(out: &str, status: &str, case: Option<u64>, msg: &str, obs: &Obs, wall: f64) {
    let mut s = String::from("{\n");
    let _ = writeln!(s, " \"status\": {},", json_str(status));
    if let Some(c) = case {
        let _ = writeln!(s, " \"case\": {c},");
    }
    let _ = writeln!(s, " \"message\": {},", json_str(msg));
    let _ = writeln!(s, " \"evaluations\": {},", obs.evals);
    let _ = writeln!(s, " \"distinct\": {},", obs.distinct.len());
    let _ = writeln!(s, " \"wall_s\": {wall:.3},");
    let c: Vec<String> =
        obs.counters.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect();
    let _ = writeln!(s, " \"counters\": {{{}}},", c.join(", "));
    let c: Vec<String> = obs.samples.iter().take(12).map(|x| json_str(x)).collect();
    let _ = writeln!(s, " \"samples\": [{}]", c.join(",\n  "));
    s.push('}');
    std::fs::write(out, s).expect("writing the result");
}

pub fn run(f: CaseFn, o: &Opts) -> i32 {
    let t0 = std::time::Instant::now();
    let fresh = || Obs { tier_thorough: o.thorough, ..Obs::default() };
    // These watch the allocator, or memory accesses beyond an allocation.
    let place = !["C02", "C03", "C23"].contains(&o.check.as_str());

    if let Some(case) = o.only {
        let mut obs = fresh();
        let mut rng = Rng::new(o.seed, &o.check, case);
        crate::subj::place(place.then_some(case));
        return match f(&mut rng, case, &mut obs) {
            Ok(()) => {
                println!("case {case}: held");
                0
            },
            Err(v) => {
                println!("case {case}: VIOLATED\n{}", v.msg);
                10
            },
        };
    }

    let cur = std::fs::File::create(format!("{}.cur", o.out)).expect("creating the case file");
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let viol: Mutex<Option<(u64, Viol)>> = Mutex::new(None);
    let total = Mutex::new(fresh());
    let slots: Vec<Slot> = (0..o.threads)
        .map(|_| Slot { case: AtomicU64::new(IDLE), tid: Mutex::new(String::new()) })
        .collect();
    let done = AtomicU64::new(0);
    const CHUNK: u64 = 16;

    // The totality monitor runs on the stack threads have by default.
    let stack = if o.check == "C01" { 2 << 20 } else { 16 << 20 };
    std::thread::scope(|s| {
        for t in 0..o.threads {
            let (next, stop, viol, total, slots, done, cur) =
                (&next, &stop, &viol, &total, &slots, &done, &cur);
            std::thread::Builder::new()
                .stack_size(stack)
                .spawn_scoped(s, move || {
                    if let Ok(p) = std::fs::read_link("/proc/thread-self") {
                        *slots[t].tid.lock().unwrap() =
                            p.file_name().unwrap().to_string_lossy().into_owned();
                    }
                    let mut obs = Obs { tier_thorough: o.thorough, ..Obs::default() };
                    'outer: loop {
                        let start = next.fetch_add(CHUNK, SeqCst);
                        if start >= o.cases || t0.elapsed().as_secs() >= o.max_seconds {
                            break;
                        }
                        for case in start..(start + CHUNK).min(o.cases) {
                            if stop.load(SeqCst) {
                                break 'outer;
                            }
                            slots[t].case.store(case, SeqCst);
                            write_at(cur, &case.to_le_bytes(), 8 * t as u64);
                            let mut rng = Rng::new(o.seed, &o.check, case);
                            crate::subj::place(place.then_some(case));
                            if let Err(v) = f(&mut rng, case, &mut obs) {
                                let mut g = viol.lock().unwrap();
                                if g.as_ref().map_or(true, |(c, _)| case < *c) {
                                    *g = Some((case, v));
                                }
                                stop.store(true, SeqCst);
                                break 'outer;
                            }
                        }
                    }
                    slots[t].case.store(IDLE, SeqCst);
                    write_at(cur, &IDLE.to_le_bytes(), 8 * t as u64);
                    total.lock().unwrap().merge(obs);
                    done.fetch_add(1, SeqCst);
                })
                .expect("spawning a worker");
        }

        // Watchdog: judges CPU time spent inside one case, not wall time.
        let mut last: Vec<(u64, u64)> = vec![(IDLE, 0); o.threads];
        let mut tick = 0u64;
        // Seconds during which all threads slept, the same cases being unfinished.
        let (mut blocked, mut blocked_cases, mut blocked_cpu) = (0, Vec::new(), 0);
        let me = std::fs::read_link("/proc/thread-self")
            .map(|p| p.file_name().unwrap().to_string_lossy().into_owned())
            .unwrap_or_default();
        while done.load(SeqCst) < o.threads as u64 {
            std::thread::sleep(std::time::Duration::from_millis(20));
            tick += 1;
            if tick % 50 != 0 {
                continue;
            }
            let cases: Vec<u64> = slots.iter().map(|s| s.case.load(SeqCst)).collect();
            let (cpu, runnable) = activity(&me);
            if runnable || cases != blocked_cases || cpu > blocked_cpu + 10 {
                (blocked, blocked_cases, blocked_cpu) = (0, cases.clone(), cpu);
            } else if let Some(case) = cases.iter().find(|&&c| c != IDLE) {
                blocked += 1;
                if blocked >= 25 {
                    write_result(
                        &o.out,
                        "hang",
                        Some(*case),
                        &format!("case {case} is deadlocked: all threads have been asleep for 25 s"),
                        &Obs::default(),
                        t0.elapsed().as_secs_f64(),
                    );
                    std::process::exit(11);
                }
            }
            for t in 0..o.threads {
                let case = slots[t].case.load(SeqCst);
                let tid = slots[t].tid.lock().unwrap().clone();
                let Some(cpu) = cpu_ticks(&tid) else { continue };
                if case == IDLE || case != last[t].0 {
                    last[t] = (case, cpu);
                } else if (cpu - last[t].1) / 100 >= o.cpu_limit {
                    write_result(
                        &o.out,
                        "hang",
                        Some(case),
                        &format!("case {case} used {} s of CPU without returning", o.cpu_limit),
                        &Obs::default(),
                        t0.elapsed().as_secs_f64(),
                    );
                    std::process::exit(11);
                }
            }
        }
    });

    let obs = total.into_inner().unwrap();
    let wall = t0.elapsed().as_secs_f64();
    match viol.into_inner().unwrap() {
        Some((case, v)) => {
            write_result(&o.out, "violation", Some(case), &clip(&v.msg), &obs, wall);
            10
        },
        None => {
            write_result(&o.out, "ok", None, "", &obs, wall);
            0
        },
    }
}

/// Runs the cases one after the other and prints what was observed.
pub fn serial(f: CaseFn, id: &str, seed: u64, from: u64, to: u64) -> i32 {
    let mut obs = Obs::default();
    for case in from..to {
        let mut rng = Rng::new(seed, id, case);
        eprintln!("case {case}");
        if let Err(v) = f(&mut rng, case, &mut obs) {
            println!("case {case}: VIOLATED\n{}", v.msg);
            return 10;
        }
    }
    let c: Vec<String> =
        obs.counters.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect();
    let s: Vec<String> = obs.samples.iter().map(|x| json_str(x)).collect();
    println!(
        "RESULT {{\"cases\": {}, \"evaluations\": {}, \"distinct\": {}, \"counters\": {{{}}}, \"samples\": [{}]}}",
        to - from,
        obs.evals,
        obs.distinct.len(),
        c.join(", "),
        s.join(", ")
    );
    0
}
