//! Glue to the code under observation. Every call into it goes through
//! `guard`, so that a panic is an observation and not the end of the run.

use crate::gen::Step;
use crate::model::{Algo, Cfg, Ranges, Sch, Sens};
use norm::fzf::{FzfDistance, FzfParser, FzfQuery, FzfScheme, FzfV1, FzfV2};
use norm::CaseSensitivity;
use normapi::{v1, v2};
use std::cell::{Cell, RefCell};
use std::ops::Range;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// A refuted property, with what was observed.
#[derive(Debug, Clone)]
pub struct Viol {
    pub msg: String,
}

impl Viol {
    pub fn new(msg: impl Into<String>) -> Self {
        Viol { msg: msg.into() }
    }
}

pub type Res<T = ()> = Result<T, Viol>;

thread_local! {
    static IN_SUBJECT: RefCell<bool> = const { RefCell::new(false) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Where the strings that the subject is given lie in memory.
///
/// All candidates (and all queries) of a case start at the same address, so
/// that each takes the place of the one before, at every alignment, within
/// text that the subject must not look at.
struct Arena(Vec<u8>);

const AROUND: usize = 64;

impl Arena {
    fn put(&mut self, s: &str, shift: usize) -> &str {
        let need = s.len() + 4 * AROUND;
        if self.0.len() < need {
            self.0 = vec![b'a'; need.next_power_of_two().max(1 << 20)];
        }
        let start = AROUND + self.0.as_ptr().align_offset(AROUND) + shift % 16;
        let end = start + s.len();
        self.0[start..end].copy_from_slice(s.as_bytes());
        // More of the same.
        let n = s.len().min(AROUND);
        self.0.copy_within(start..start + n, end);
        self.0.copy_within(end - n..end, start - n);
        std::str::from_utf8(&self.0[start..end]).expect("it's a copy of a str")
    }
}

thread_local! {
    static SHIFT: Cell<Option<u64>> = const { Cell::new(None) };
    static CANDS: RefCell<Arena> = const { RefCell::new(Arena(Vec::new())) };
    static QUERIES: RefCell<Arena> = const { RefCell::new(Arena(Vec::new())) };
}

/// From now on the strings that are given to the subject are put into a
/// buffer first (or not).
pub fn place(shift: Option<u64>) {
    SHIFT.with(|s| s.set(shift));
}

fn placed<T>(
    arena: &'static std::thread::LocalKey<RefCell<Arena>>,
    s: &str,
    f: impl FnOnce(&str) -> T,
) -> T {
    match SHIFT.with(|s| s.get()) {
        Some(shift) => arena.with(|a| f(a.borrow_mut().put(s, shift as usize))),
        None => f(s),
    }
}

pub fn install_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if IN_SUBJECT.with(|s| *s.borrow()) {
            LAST_PANIC.with(|p| *p.borrow_mut() = info.to_string());
        } else {
            default(info);
        }
    }));
}

/// Runs a call into the subject; a panic in it is a violation.
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Res<T> {
    IN_SUBJECT.with(|s| *s.borrow_mut() = true);
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_SUBJECT.with(|s| *s.borrow_mut() = false);
    r.map_err(|_| {
        let p = LAST_PANIC.with(|p| p.borrow().clone());
        Viol::new(format!("{what} panicked: {p}"))
    })
}

#[derive(Debug)]
pub enum Met {
    V1(FzfV1),
    V2(FzfV2),
}

impl Clone for Met {
    fn clone(&self) -> Self {
        match self {
            Met::V1(m) => Met::V1(v1::clone(m)),
            Met::V2(m) => Met::V2(v2::clone(m)),
        }
    }
}

pub fn sens(s: Sens) -> CaseSensitivity {
    match s {
        Sens::Sensitive => CaseSensitivity::Sensitive,
        Sens::Insensitive => CaseSensitivity::Insensitive,
        Sens::Smart => CaseSensitivity::Smart,
    }
}

pub fn scheme(s: Sch) -> FzfScheme {
    match s {
        Sch::Default => FzfScheme::Default,
        Sch::Path => FzfScheme::Path,
        Sch::History => FzfScheme::History,
    }
}

pub fn sens_of(s: CaseSensitivity) -> Sens {
    match s {
        CaseSensitivity::Sensitive => Sens::Sensitive,
        CaseSensitivity::Insensitive => Sens::Insensitive,
        CaseSensitivity::Smart => Sens::Smart,
    }
}

pub fn scheme_of(s: FzfScheme) -> Sch {
    match s {
        FzfScheme::Default => Sch::Default,
        FzfScheme::Path => Sch::Path,
        FzfScheme::History => Sch::History,
    }
}

impl Met {
    pub fn by_default(algo: Algo) -> Self {
        match algo {
            Algo::V1 => Met::V1(v1::default()),
            Algo::V2 => Met::V2(v2::default()),
        }
    }

    pub fn new(algo: Algo) -> Self {
        match algo {
            Algo::V1 => Met::V1(v1::new()),
            Algo::V2 => Met::V2(v2::new()),
        }
    }

    pub fn with(algo: Algo, cfg: Cfg) -> Self {
        let mut m = Self::new(algo);
        m.set(cfg);
        m
    }

    /// Becomes a copy of another instance, by `clone` or by `clone_from`.
    pub fn copy_from(&mut self, other: &Met, in_place: bool) {
        match (&mut *self, other) {
            (Met::V1(a), Met::V1(b)) if in_place => v1::clone_from(a, b),
            (Met::V2(a), Met::V2(b)) if in_place => v2::clone_from(a, b),
            _ => *self = other.clone(),
        }
    }

    pub fn printed(&self) -> String {
        match self {
            Met::V1(m) => v1::printed(m),
            Met::V2(m) => v2::printed(m),
        }
    }

    pub fn set(&mut self, c: Cfg) {
        match self {
            Met::V1(m) => v1::set(m, sens(c.sens), c.norm, scheme(c.scheme)),
            Met::V2(m) => v2::set(m, sens(c.sens), c.norm, scheme(c.scheme)),
        }
    }

    /// Sets the options one at a time, in the given order.
    pub fn set_in_order(&mut self, c: Cfg, order: &[usize]) {
        for &o in order {
            match (&mut *self, o % 3) {
                (Met::V1(m), 0) => v1::set_case_sensitivity(m, sens(c.sens)),
                (Met::V1(m), 1) => v1::set_candidate_normalization(m, c.norm),
                (Met::V1(m), _) => v1::set_scoring_scheme(m, scheme(c.scheme)),
                (Met::V2(m), 0) => v2::set_case_sensitivity(m, sens(c.sens)),
                (Met::V2(m), 1) => v2::set_candidate_normalization(m, c.norm),
                (Met::V2(m), _) => v2::set_scoring_scheme(m, scheme(c.scheme)),
            }
        }
    }

    pub fn dist_raw(&mut self, q: FzfQuery<'_>, c: &str) -> Res<Option<FzfDistance>> {
        placed(&CANDS, c, |c| {
            guard("distance", || match self {
                Met::V1(m) => v1::distance(m, q, c),
                Met::V2(m) => v2::distance(m, q, c),
            })
        })
    }

    pub fn dist(&mut self, q: FzfQuery<'_>, c: &str) -> Res<Option<i64>> {
        Ok(self.dist_raw(q, c)?.map(|d| d.into_score() as i64))
    }

    pub fn dnr_into(
        &mut self,
        q: FzfQuery<'_>,
        c: &str,
        buf: &mut Vec<Range<usize>>,
    ) -> Res<Option<i64>> {
        placed(&CANDS, c, |c| {
            guard("distance_and_ranges", || match self {
                Met::V1(m) => v1::distance_and_ranges(m, q, c, buf),
                Met::V2(m) => v2::distance_and_ranges(m, q, c, buf),
            })
        })
        .map(|d| d.map(|d| d.into_score() as i64))
    }

    /// distance_and_ranges on an empty buffer.
    pub fn dnr(&mut self, q: FzfQuery<'_>, c: &str) -> Res<Option<(i64, Ranges)>> {
        let mut buf = Vec::new();
        let d = self.dnr_into(q, c, &mut buf)?;
        let ranges: Ranges = buf.iter().map(|r| (r.start, r.end)).collect();
        match d {
            Some(d) => Ok(Some((d, ranges))),
            None if ranges.is_empty() => Ok(None),
            None => Err(Viol::new(format!(
                "no match for {c:?}, but ranges {ranges:?} were appended to the buffer"
            ))),
        }
    }
}

pub fn parse<'a>(p: &'a mut FzfParser, q: &str, raw: bool) -> Res<FzfQuery<'a>> {
    placed(&QUERIES, q, |q| {
        if raw {
            guard("parse_not_extended", || normapi::parse_not_extended(p, q))
        } else {
            guard("parse", || normapi::parse(p, q))
        }
    })
}

pub fn show(s: &Step, algo: Algo) -> String {
    format!(
        "{algo:?} query={:?} parse={} candidate={:?} case={:?} normalization={} scheme={:?}",
        s.query,
        if s.raw { "not_extended" } else { "extended" },
        s.cand,
        s.cfg.sens,
        s.cfg.norm,
        s.cfg.scheme
    )
}
