//! Compiles if and only if the public types can be used from several threads.

use norm::fzf::*;
use norm::CaseSensitivity;

fn sync<T: Send + Sync>() {}
fn plain<T: Copy + Send + Sync + 'static>() {}

fn main() {
    sync::<FzfParser>();
    sync::<FzfV1>();
    sync::<FzfV2>();
    sync::<FzfQuery<'static>>();
    plain::<FzfQuery<'static>>();
    plain::<FzfDistance>();
    sync::<FzfScheme>();
    sync::<CaseSensitivity>();
    // One parser's query used by several threads, each with its own metric.
    let mut p = FzfParser::new();
    let q = p.parse("ab 'c | d$");
    std::thread::scope(|s| {
        for _ in 0..2 {
            s.spawn(move || norm::Metric::distance(&mut FzfV2::new(), q, "abcd").is_some());
        }
    });
    let (p, v1) = (FzfParser::new(), FzfV1::new());
    let _ = std::thread::spawn(move || drop((p, v1))).join();
}
