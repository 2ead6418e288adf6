//! Runs a fixed workload and prints what the public API returns, so that
//! builds of the library in different configurations can be compared.
#![allow(dead_code)]

#[cfg(target_os = "zkvm")]
mod bare;
#[path = "../../../harness/src/gen.rs"]
mod gen;
#[path = "../../../harness/src/model.rs"]
mod model;
#[path = "../../../harness/src/normtab.rs"]
mod normtab;
#[path = "../../../harness/src/rng.rs"]
mod rng;

use gen::Focus;
use model::{Sch, Sens};
use norm::fzf::{FzfDistance, FzfParser, FzfScheme};
use norm::{CaseSensitivity, Metric};
use std::hash::{Hash, Hasher};

fn sens(s: Sens) -> CaseSensitivity {
    match s {
        Sens::Sensitive => CaseSensitivity::Sensitive,
        Sens::Insensitive => CaseSensitivity::Insensitive,
        Sens::Smart => CaseSensitivity::Smart,
    }
}

fn scheme(s: Sch) -> FzfScheme {
    match s {
        Sch::Default => FzfScheme::Default,
        Sch::Path => FzfScheme::Path,
        Sch::History => FzfScheme::History,
    }
}

struct Fnv(u64);

impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.0 = (self.0 ^ x as u64).wrapping_mul(0x100000001b3);
        }
    }
}

macro_rules! one_case {
    ($M:ty, $q:expr, $cfg:expr, $cands:expr, $detail:expr) => {{
        let mut m = <$M>::new();
        m.set_case_sensitivity(sens($cfg.sens))
            .set_candidate_normalization($cfg.norm)
            .set_scoring_scheme(scheme($cfg.scheme));
        let mut found: Vec<(FzfDistance, usize)> = Vec::new();
        let mut text = String::new();
        for (i, c) in $cands.iter().enumerate() {
            let mut buf = Vec::new();
            let d = m.distance($q, c);
            let e = m.distance_and_ranges($q, c, &mut buf);
            text.push_str(&format!("{:?}{:?}{:?};", d.is_some(), d == e, buf));
            if let Some(d) = d {
                found.push((d, i));
            }
        }
        // The ranking, with ties marked.
        found.sort();
        for w in 0..found.len() {
            let tie = w > 0 && found[w - 1].0 == found[w].0;
            text.push_str(&format!("{}{}", if tie { "=" } else { "<" }, found[w].1));
        }
        text
    }};
}

fn main() {
    let args: Vec<u64> = std::env::args().skip(1).map(|a| a.parse().expect("number")).collect();
    let (seed, from, to, chunk, tiny) = (args[0], args[1], args[2], args[3], args[4] != 0);
    let detail = chunk == 1;
    let f = if tiny {
        gen::set_tiny();
        Focus { large: 0, max_cells: 200, ..Focus::ANY }
    } else {
        Focus { large: 60, max_cells: 60_000, ..Focus::ANY }
    };
    let mut hashes = [Fnv(0xcbf29ce484222325), Fnv(0xcbf29ce484222325)];
    let (mut calls, mut matches) = (0u64, 0u64);
    let mut parser = FzfParser::new();
    for case in from..to {
        let mut r = rng::Rng::new(seed, "config", case);
        let s = if tiny { gen::tiny_step(&mut r, &f) } else { gen::step(&mut r, &f) };
        let alpha = gen::alphabet(&mut r);
        let mut cands = vec![s.cand.clone()];
        for _ in 0..if tiny { 2 } else { 4 } {
            let mut c: Vec<char> = s.cand.chars().collect();
            let i = r.below(c.len() + 1);
            match r.below(3) {
                0 => c.insert(i, *r.pick(&alpha)),
                1 => c.insert(0, *r.pick(&['_', ' ', '/', 'Z', 'é'])),
                _ => c = gen::candidate(&mut r, &alpha, false),
            }
            cands.push(c.into_iter().collect());
        }
        // With spaces around: what anchored terms skip.
        if r.pct(40) {
            let (a, b) = (r.range(1, 9), r.range(0, 9));
            let inner: String = s.query.chars().filter(|c| c.is_alphanumeric()).collect();
            let inner = if r.pct(50) { inner } else { s.cand.clone() };
            cands.push(format!("{}{inner}{}", " ".repeat(a), " ".repeat(b)));
            cands.push(format!("{}{inner}{}", " ".repeat(b), " ".repeat(a)));
        }
        let q = if s.raw { parser.parse_not_extended(&s.query) } else { parser.parse(&s.query) };
        // That's a delimiter there, and isn't elsewhere.
        if cfg!(windows) && matches!(s.cfg.scheme, Sch::Path) && cands.iter().any(|c| c.contains('\\')) {
            continue;
        }
        let mut texts: Vec<(usize, String)> = Vec::new();
        #[cfg(feature = "v1")]
        texts.push((0, one_case!(norm::fzf::FzfV1, q, s.cfg, cands, detail)));
        #[cfg(feature = "v2")]
        texts.push((1, one_case!(norm::fzf::FzfV2, q, s.cfg, cands, detail)));
        for (i, t) in texts {
            calls += 2 * cands.len() as u64;
            matches += t.matches("true").count() as u64;
            t.hash(&mut hashes[i]);
            if detail {
                println!("detail v{} {case} query={:?} raw={} cands={cands:?} {:?}: {t}", i + 1, s.query, s.raw, s.cfg);
            }
        }
        if (case + 1 - from) % chunk == 0 || case + 1 == to {
            #[cfg(feature = "v1")]
            println!("v1 {} {:016x}", (case - from) / chunk, hashes[0].finish());
            #[cfg(feature = "v2")]
            println!("v2 {} {:016x}", (case - from) / chunk, hashes[1].finish());
        }
    }
    println!("calls {calls} {matches}");
}
