//! A query of a local parser in a place that outlives it.
use norm::fzf::*;
use norm::Metric;
fn get() -> FzfQuery<'static> {
    let mut p = FzfParser::new();
    p.parse_not_extended("abcdef")
}
fn main() {
    let q = get();
    let mut m1 = FzfV1::new();
    let mut m2 = FzfV2::new();
    let mut b = Vec::new();
    println!("{:?} {:?}", m1.distance(q, "abcdéf"), m2.distance_and_ranges(q, "abcdef", &mut b));
    println!("{q:?} {b:?}");
}
