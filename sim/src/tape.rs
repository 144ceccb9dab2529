//! The choice tape: every nondeterministic decision of a run is one draw.
//!
//! Convention: 0 is always the simplest choice (no fault, first task, smallest
//! size), so that minimisation by deleting and lowering draws simplifies runs.

use std::cell::RefCell;

#[derive(Clone)]
pub struct Rng(u64, u64);

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        let a = splitmix(&mut s);
        let b = splitmix(&mut s);
        Self(a | 1, b)
    }
    pub fn next(&mut self) -> u64 {
        // xoroshiro128+
        let (s0, mut s1) = (self.0, self.1);
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.0 = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.1 = s1.rotate_left(37);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() >> 11) as u128 * n as u128 >> 53) as u64
    }
}

pub enum Source {
    Random(Rng),
    Replay(Vec<u64>),
}

pub struct Tape {
    source: Source,
    pos: usize,
    pub rec: Vec<u64>,
}

thread_local! {
    static TAPE: RefCell<Option<Tape>> = const { RefCell::new(None) };
}

pub fn install(source: Source) {
    TAPE.with(|t| *t.borrow_mut() = Some(Tape { source, pos: 0, rec: Vec::with_capacity(512) }));
}

pub fn uninstall() -> Vec<u64> {
    TAPE.with(|t| t.borrow_mut().take().map(|t| t.rec).unwrap_or_default())
}

/// A uniformly drawn value in `0..n` (0 when `n <= 1`).
pub fn draw(n: u64) -> u64 {
    let n = n.max(1);
    TAPE.with(|t| {
        let mut t = t.borrow_mut();
        let t = t.as_mut().expect("no choice tape installed");
        let v = match &mut t.source {
            Source::Random(r) => r.below(n),
            Source::Replay(v) => v.get(t.pos).copied().unwrap_or(0) % n,
        };
        t.pos += 1;
        t.rec.push(v);
        v
    })
}

pub fn range(lo: u64, hi: u64) -> u64 {
    lo + draw(hi - lo + 1)
}

/// True with a probability of `percent` percent; `false` is the simple choice.
pub fn chance(percent: u32) -> bool {
    if percent == 0 {
        return false;
    }
    draw(100) >= 100 - percent.min(100) as u64
}

pub fn pick<T>(xs: &[T]) -> &T {
    &xs[draw(xs.len() as u64) as usize]
}

/// Index drawn according to weights.
pub fn weighted(ws: &[u32]) -> usize {
    let total: u64 = ws.iter().map(|w| *w as u64).sum();
    let mut x = draw(total.max(1));
    for (i, w) in ws.iter().enumerate() {
        if x < *w as u64 {
            return i;
        }
        x -= *w as u64;
    }
    0
}

/// A size biased towards small values, up to `max`.
pub fn size(max: u64) -> u64 {
    match draw(4) {
        0 => draw(3.min(max + 1)),
        1 => draw(8.min(max + 1)),
        2 => draw(32.min(max + 1)),
        _ => draw(max + 1),
    }
}
