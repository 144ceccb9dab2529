//! Event log of a run: a running hash always, text only when tracing.

use std::{
    cell::RefCell,
    collections::BTreeMap,
    fmt::{Arguments, Write},
};

pub struct Log {
    pub hash: u64,
    pub sched_hash: u64,
    pub events: u64,
    pub tracing: bool,
    pub lines: Vec<String>,
    buf: String,
    pub counts: BTreeMap<&'static str, u64>,
    pub now_ms: u64,
}

thread_local! {
    static LOG: RefCell<Log> = const { RefCell::new(Log {
        hash: 0, sched_hash: 0, events: 0, tracing: false, lines: vec![], buf: String::new(),
        counts: BTreeMap::new(), now_ms: 0,
    }) };
}

fn fnv(mut h: u64, s: &[u8]) -> u64 {
    for b in s {
        h = (h ^ *b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h ^ (h >> 29)
}

pub fn start(tracing: bool) {
    LOG.with(|l| {
        *l.borrow_mut() = Log {
            hash: 0xcbf2_9ce4_8422_2325,
            sched_hash: 0xcbf2_9ce4_8422_2325,
            events: 0,
            tracing,
            lines: vec![],
            buf: String::new(),
            counts: BTreeMap::new(),
            now_ms: 0,
        }
    });
}

pub fn finish() -> Log {
    LOG.with(|l| {
        std::mem::replace(
            &mut *l.borrow_mut(),
            Log {
                hash: 0,
                sched_hash: 0,
                events: 0,
                tracing: false,
                lines: vec![],
                buf: String::new(),
                counts: BTreeMap::new(),
                now_ms: 0,
            },
        )
    })
}

pub fn set_now(ms: u64) {
    LOG.with(|l| l.borrow_mut().now_ms = ms);
}

pub fn event(a: Arguments<'_>) {
    LOG.with(|l| {
        let Ok(mut l) = l.try_borrow_mut() else { return };
        let l = &mut *l;
        l.buf.clear();
        let _ = write!(l.buf, "[{:>7} ms] ", l.now_ms);
        let _ = l.buf.write_fmt(a);
        l.hash = fnv(l.hash, l.buf.as_bytes());
        l.events += 1;
        if l.tracing {
            l.lines.push(l.buf.clone());
        }
    });
}

/// Mixes a scheduling decision into the interleaving measure.
pub fn sched(x: u64) {
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        l.sched_hash = fnv(l.sched_hash, &x.to_le_bytes());
    });
}

pub fn count(k: &'static str) {
    count_n(k, 1);
}

pub fn count_n(k: &'static str, n: u64) {
    LOG.with(|l| {
        if let Ok(mut l) = l.try_borrow_mut() {
            *l.counts.entry(k).or_insert(0) += n;
        }
    });
}

pub fn fired(k: &'static str) -> u64 {
    LOG.with(|l| l.borrow().counts.get(k).copied().unwrap_or(0))
}

#[macro_export]
macro_rules! ev {
    ($($t:tt)*) => { $crate::log::event(format_args!($($t)*)) };
}
