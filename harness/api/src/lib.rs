//! The public calls of the library, one function each. What's inlined or
//! generic in the library is compiled into this crate, so that instrumenting
//! these two crates alone instruments the code under observation and none of
//! the observers'.

use norm::fzf::{FzfDistance, FzfParser, FzfQuery, FzfScheme, FzfV1, FzfV2};
use norm::{CaseSensitivity, Metric};
use std::ops::Range;

macro_rules! metric {
    ($mod:ident, $M:ty) => {
        pub mod $mod {
            use super::*;

            #[inline(never)]
            pub fn new() -> $M {
                <$M>::new()
            }

            #[inline(never)]
            pub fn default() -> $M {
                <$M>::default()
            }

            #[inline(never)]
            pub fn distance(m: &mut $M, q: FzfQuery<'_>, c: &str) -> Option<FzfDistance> {
                m.distance(q, c)
            }

            #[inline(never)]
            pub fn distance_and_ranges(
                m: &mut $M,
                q: FzfQuery<'_>,
                c: &str,
                ranges: &mut Vec<Range<usize>>,
            ) -> Option<FzfDistance> {
                m.distance_and_ranges(q, c, ranges)
            }

            #[inline(never)]
            pub fn set_case_sensitivity(m: &mut $M, s: CaseSensitivity) {
                m.set_case_sensitivity(s);
            }

            #[inline(never)]
            pub fn set_candidate_normalization(m: &mut $M, n: bool) {
                m.set_candidate_normalization(n);
            }

            #[inline(never)]
            pub fn set_scoring_scheme(m: &mut $M, s: FzfScheme) {
                m.set_scoring_scheme(s);
            }

            /// All of them, chained.
            #[inline(never)]
            pub fn set(m: &mut $M, s: CaseSensitivity, n: bool, sch: FzfScheme) {
                m.set_case_sensitivity(s).set_candidate_normalization(n).set_scoring_scheme(sch);
            }

            #[inline(never)]
            pub fn clone(m: &$M) -> $M {
                m.clone()
            }

            #[inline(never)]
            pub fn clone_from(m: &mut $M, other: &$M) {
                m.clone_from(other)
            }

            #[inline(never)]
            pub fn printed(m: &$M) -> String {
                format!("{m:?}")
            }
        }
    };
}

metric!(v1, FzfV1);
metric!(v2, FzfV2);

#[inline(never)]
pub fn parse<'a>(p: &'a mut FzfParser, q: &str) -> FzfQuery<'a> {
    p.parse(q)
}

#[inline(never)]
pub fn parse_not_extended<'a>(p: &'a mut FzfParser, q: &str) -> FzfQuery<'a> {
    p.parse_not_extended(q)
}

#[inline(never)]
pub fn clone_parser(p: &FzfParser) -> FzfParser {
    p.clone()
}
