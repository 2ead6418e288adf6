//! A query that is still alive while its parser parses another one.
use norm::fzf::*;
use norm::Metric;
fn main() {
    let mut p = FzfParser::new();
    let q = p.parse_not_extended("abcdef");
    let long = "xyz ".repeat(400);
    let _ = p.parse(&long);
    let _ = p.parse_not_extended(&long);
    let mut m1 = FzfV1::new();
    let mut m2 = FzfV2::new();
    let mut b = Vec::new();
    println!("{:?} {:?}", m1.distance(q, "abcdéf"), m2.distance_and_ranges(q, "abcdef", &mut b));
    println!("{q:?} {b:?}");
}
