//! Must compile and run: safe uses of a query.
use norm::fzf::*;
use norm::Metric;
fn main() {
    let mut p = FzfParser::new();
    let q = p.parse("abc 'def");
    let r = q;
    let mut m = FzfV2::new();
    assert!(m.distance(q, "abcdef").is_some());
    assert!(m.distance(r, "abcdef").is_some());
    let q = p.parse_not_extended("xyz");
    assert!(m.distance(q, "xyz").is_some());
}
