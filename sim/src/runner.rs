//! One run: a fresh thread, a tape, the seams, a scenario, a verdict.

use crate::{
    exec, log, props,
    scene::{harness_panic, Stats, Stop, Violation, STATS},
    seam,
    tape::{self, Rng, Source},
};
use std::{
    collections::BTreeMap,
    panic::{self, AssertUnwindSafe},
    sync::mpsc,
    thread,
    time::{Duration, Instant},
};

pub enum Verdict {
    Ok,
    Violation(Violation),
    Internal(String),
}

pub struct Outcome {
    pub verdict: Verdict,
    pub tape: Vec<u64>,
    pub hash: u64,
    pub sched_hash: u64,
    pub events: u64,
    pub lines: Vec<String>,
    pub counts: BTreeMap<&'static str, u64>,
    pub stats: Stats,
    pub entropy_reads: u64,
    pub clock_reads: u64,
    pub wall: Duration,
}

/// Real time after which a run that burns the processor counts as hung.
pub const HANG: Duration = Duration::from_secs(100);

fn body(prop: &str, thorough: bool, source: Source, tracing: bool) -> Outcome {
    let started = Instant::now();
    tape::install(source);
    let entropy = tape::draw(1 << 53);
    STATS.with(|s| s.set(Stats::default()));
    log::start(tracing);
    seam::enter(entropy);
    let r = panic::catch_unwind(AssertUnwindSafe(|| props::run(prop, thorough)));
    let (entropy_reads, clock_reads) = seam::leave();
    let verdict = match r {
        Ok(Ok(())) => Verdict::Ok,
        Ok(Err(Stop::Violation(v))) => Verdict::Violation(v),
        Ok(Err(Stop::Internal(m))) => Verdict::Internal(m),
        Err(e) => {
            let m = exec::take_panic(&*e);
            if harness_panic(&m) {
                Verdict::Internal(format!("harness panic: {m}"))
            } else {
                crate::ev!("VIOLATED [panic] {m}");
                Verdict::Violation(Violation { class: "panic".into(), msg: m })
            }
        }
    };
    let l = log::finish();
    Outcome {
        verdict,
        tape: tape::uninstall(),
        hash: l.hash,
        sched_hash: l.sched_hash,
        events: l.events,
        lines: l.lines,
        counts: l.counts,
        stats: STATS.with(|s| s.get()),
        entropy_reads,
        clock_reads,
        wall: started.elapsed(),
    }
}

fn lost(class: &str, msg: String) -> Outcome {
    Outcome {
        verdict: Verdict::Violation(Violation { class: class.into(), msg }),
        tape: vec![],
        hash: 0,
        sched_hash: 0,
        events: 0,
        lines: vec![],
        counts: BTreeMap::new(),
        stats: Stats::default(),
        entropy_reads: 0,
        clock_reads: 0,
        wall: HANG,
    }
}

/// Runs in a thread of its own, so that thread-local state (hasher keys
/// included) starts fresh; a thread that never comes back is left behind.
pub fn one(prop: &str, thorough: bool, source: Source, tracing: bool) -> Outcome {
    let (tx, rx) = mpsc::channel();
    let p = prop.to_string();
    let h = thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let o = body(&p, thorough, source, tracing);
            let _ = tx.send(o);
        })
        .expect("cannot start a thread");
    let id = h.thread().id();
    let begin = Instant::now();
    loop {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(o) => {
                let _ = h.join();
                return o;
            }
            Err(mpsc::RecvTimeoutError::Disconnected) => {
                return lost("panic", "the run's thread ended without a verdict".into());
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {
                if seam::exhausted(id) {
                    return lost("memory", format!("a run held more than {} MiB", seam::LIMIT >> 20));
                }
                if begin.elapsed() > HANG {
                    return lost("hang", format!("no end after {} s of real time", HANG.as_secs()));
                }
            }
        }
    }
}

pub fn seeded(prop: &str, thorough: bool, seed: u64, tracing: bool) -> Outcome {
    one(prop, thorough, Source::Random(Rng::new(seed)), tracing)
}

pub fn replayed(prop: &str, thorough: bool, tape: &[u64], tracing: bool) -> Outcome {
    one(prop, thorough, Source::Replay(tape.to_vec()), tracing)
}

pub fn run_seed(base: u64, prop: &str, index: u64) -> u64 {
    let mut h = base ^ 0x5151_7a7a_0f0f_3c3c;
    for b in prop.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    let mut x = h.wrapping_add(index.wrapping_mul(0x9E37_79B9_7F4A_7C15));
    tape::splitmix(&mut x)
}

pub fn class_of(o: &Outcome) -> Option<&str> {
    match &o.verdict {
        Verdict::Violation(v) => Some(&v.class),
        _ => None,
    }
}

/// Minimises a failing tape: fewer draws first, then smaller ones.
///
/// `fails` executes a tape and returns what it really drew if it fails alike.
pub fn shrink(
    first: Vec<u64>,
    budget: Duration,
    mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>,
) -> (Vec<u64>, u64) {
    let end = Instant::now() + budget;
    let mut best = first;
    let mut tries = 0;
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>| -> bool {
        tries += 1;
        // What the run really drew, without the zeros replay supplies anyway.
        let Some(mut t) = fails(&cand) else { return false };
        while t.last() == Some(&0) {
            t.pop();
        }
        let mut c = cand;
        while c.last() == Some(&0) {
            c.pop();
        }
        let t = if t.len() <= c.len() { t } else { c };
        let less = (t.len(), &t) < (best.len(), best);
        if less {
            *best = t;
        }
        less
    };
    loop {
        let mut improved = false;
        // Deletions, coarse to fine.
        let mut n = (best.len() / 2).max(1);
        loop {
            let mut i = best.len();
            while i > 0 {
                if Instant::now() > end {
                    return (best, tries);
                }
                let lo = i.saturating_sub(n);
                if lo < best.len() {
                    let hi = i.min(best.len());
                    let mut c = best.clone();
                    c.drain(lo..hi);
                    if attempt(c, &mut best) {
                        improved = true;
                    }
                }
                i = lo;
            }
            if n == 1 {
                break;
            }
            n /= 2;
        }
        // Zero blocks, then lower single values.
        for n in [16usize, 4, 1] {
            let mut i = 0;
            while i < best.len() {
                if Instant::now() > end {
                    return (best, tries);
                }
                let hi = (i + n).min(best.len());
                if best[i..hi].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    c[i..hi].fill(0);
                    if attempt(c, &mut best) {
                        improved = true;
                    }
                }
                i += n;
            }
        }
        let mut i = 0;
        while i < best.len() {
            let mut step = best[i] / 2;
            while step > 0 && i < best.len() && best[i] >= step {
                if Instant::now() > end {
                    return (best, tries);
                }
                let mut c = best.clone();
                c[i] -= step;
                if attempt(c, &mut best) {
                    improved = true;
                } else {
                    step /= 2;
                }
            }
            i += 1;
        }
        if !improved {
            return (best, tries);
        }
    }
}
