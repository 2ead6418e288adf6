//! A tiny deterministic generator (splitmix64), whose draws can be recorded
//! and replayed.

pub struct Rng(u64, Option<Box<Tape>>);

/// A draw: how many there were to choose from, and which it was.
pub type Draw = (u32, u32);

/// Draws to repeat, then draws to make.
#[derive(Default)]
struct Tape {
    given: Vec<Draw>,
    pos: usize,
    made: Vec<Draw>,
}

pub const TAPE_CAP: usize = 6000;

impl Tape {
    fn below(&mut self, n: usize, fresh: usize) -> usize {
        let rest = &self.given[self.pos.min(self.given.len())..];
        // A draw that was from as many, not far ahead.
        let k = match rest.iter().take(12).position(|d| d.0 as usize == n) {
            Some(i) => {
                self.pos += i + 1;
                rest[i].1 as usize
            },
            None => fresh,
        };
        if self.made.len() < TAPE_CAP && n <= u32::MAX as usize {
            self.made.push((n as u32, k as u32));
        }
        k
    }
}

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64, stream: &str, idx: u64) -> Self {
        let s = mix(seed.wrapping_add(0x9E3779B97F4A7C15))
            ^ hash_str(stream)
            ^ mix(idx.wrapping_mul(0xD1342543DE82EF95).wrapping_add(1));
        Rng(mix(s), None)
    }
    /// Repeats these draws as long as they fit what's asked for.
    pub fn replaying(mut self, given: Vec<Draw>) -> Self {
        self.1 = Some(Box::new(Tape { given, ..Tape::default() }));
        self
    }
    pub fn draws(self) -> Vec<Draw> {
        self.1.map_or(Vec::new(), |t| t.made)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    /// Uniform in `0..n` (`n > 0`).
    pub fn below(&mut self, n: usize) -> usize {
        let k = ((self.next() as u128 * n as u128) >> 64) as usize;
        match &mut self.1 {
            Some(t) => t.below(n, k),
            None => k,
        }
    }
    /// Uniform in `lo..=hi`.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pct(&mut self, p: usize) -> bool {
        self.below(100) < p
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn weighted(&mut self, ws: &[usize]) -> usize {
        let total: usize = ws.iter().sum();
        let mut x = self.below(total);
        for (i, &w) in ws.iter().enumerate() {
            if x < w {
                return i;
            }
            x -= w;
        }
        unreachable!()
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            xs.swap(i, self.below(i + 1));
        }
    }
}
