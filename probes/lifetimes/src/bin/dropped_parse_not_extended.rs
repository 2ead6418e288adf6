//! A query that outlives its parser.
use norm::fzf::*;
use norm::Metric;
fn main() {
    let q = {
        let mut p = FzfParser::new();
        p.parse_not_extended("abcdef")
    };
    let mut m1 = FzfV1::new();
    let mut m2 = FzfV2::new();
    let mut b = Vec::new();
    println!("{:?} {:?}", m1.distance(q, "abcdéf"), m2.distance_and_ranges(q, "abcdef", &mut b));
    println!("{q:?} {b:?}");
}
