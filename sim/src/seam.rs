//! Seams below the library: wall clock, OS entropy, heap accounting.
//!
//! `clock_gettime` and `getrandom` are interposed for the whole process: this
//! executable defines the C symbols that std links against. On simulation
//! threads they are answered by the simulator, elsewhere by the kernel.

use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::{Cell, RefCell},
    rc::Rc,
    sync::Mutex,
    thread::{self, ThreadId},
    time::Duration,
};

thread_local! {
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static ENTROPY: Cell<u64> = const { Cell::new(0) };
    static ENTROPY_READS: Cell<u64> = const { Cell::new(0) };
    static VIRTUAL_NS: Cell<u64> = const { Cell::new(0) };
    static CLOCK: RefCell<Option<Rc<Clock>>> = const { RefCell::new(None) };
    static CLOCK_READS: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

/// The wall clock of one simulated host.
#[derive(Debug)]
pub struct Clock {
    /// Seconds relative to the Unix epoch at virtual time zero (may be negative).
    pub base: Cell<i64>,
    /// Sub-second part in nanoseconds at virtual time zero.
    pub nanos: Cell<u64>,
    /// Steps applied just before the n-th read (1-based): (read number, delta seconds).
    pub steps: RefCell<Vec<(u64, i64)>>,
    reads: Cell<u64>,
    /// Readings returned so far, as Unix seconds (negative = before the epoch).
    pub readings: RefCell<Vec<i64>>,
    pub steps_fired: Cell<u64>,
}

impl Clock {
    pub fn new(base: i64) -> Rc<Self> {
        Rc::new(Self {
            base: Cell::new(base),
            nanos: Cell::new(0),
            steps: RefCell::new(vec![]),
            reads: Cell::new(0),
            readings: RefCell::new(vec![]),
            steps_fired: Cell::new(0),
        })
    }
    fn total_ns(&self) -> i128 {
        self.base.get() as i128 * 1_000_000_000
            + self.nanos.get() as i128
            + VIRTUAL_NS.with(|v| v.get()) as i128
    }
    /// Unix seconds (floor) without counting as a read.
    pub fn peek(&self) -> i64 {
        self.total_ns().div_euclid(1_000_000_000) as i64
    }
    fn read(&self) -> (i64, i64) {
        let n = self.reads.get() + 1;
        self.reads.set(n);
        for (at, delta) in self.steps.borrow().iter() {
            if *at == n {
                self.base.set(self.base.get().saturating_add(*delta));
                self.steps_fired.set(self.steps_fired.get() + 1);
            }
        }
        let t = self.total_ns();
        let (s, ns) = (t.div_euclid(1_000_000_000) as i64, t.rem_euclid(1_000_000_000) as i64);
        self.readings.borrow_mut().push(s);
        (s, ns)
    }
}

pub fn enter(entropy: u64) {
    ENTROPY.with(|e| e.set(entropy));
    ENTROPY_READS.with(|e| e.set(0));
    VIRTUAL_NS.with(|e| e.set(0));
    CLOCK_READS.with(|e| e.set(0));
    CLOCK.with(|c| *c.borrow_mut() = None);
    ACTIVE.with(|a| a.set(true));
}

pub fn leave() -> (u64, u64) {
    ACTIVE.with(|a| a.set(false));
    CLOCK.with(|c| *c.borrow_mut() = None);
    (ENTROPY_READS.with(|e| e.get()), CLOCK_READS.with(|e| e.get()))
}

pub fn set_virtual_ns(ns: u64) {
    VIRTUAL_NS.with(|v| v.set(ns));
}

pub fn set_clock(c: Option<Rc<Clock>>) -> Option<Rc<Clock>> {
    CLOCK.with(|x| std::mem::replace(&mut *x.borrow_mut(), c))
}

pub fn is_active() -> bool {
    ACTIVE.try_with(|a| a.get()).unwrap_or(false)
}

/// # Safety
/// Called by C and std code with a valid timespec pointer.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if is_active() {
        let r = if clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE {
            CLOCK_READS.with(|c| c.set(c.get() + 1));
            CLOCK
                .try_with(|c| c.try_borrow().ok().and_then(|c| c.as_ref().map(|c| c.read())))
                .ok()
                .flatten()
                .unwrap_or((1_700_000_000, 0))
        } else {
            // Monotonic clocks follow virtual time.
            let v = VIRTUAL_NS.with(|v| v.get());
            ((1_000_000 + v / 1_000_000_000) as i64, (v % 1_000_000_000) as i64)
        };
        (*ts).tv_sec = r.0;
        (*ts).tv_nsec = r.1;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
}

/// # Safety
/// Called by std with a valid buffer.
#[no_mangle]
pub unsafe extern "C" fn getrandom(
    buf: *mut libc::c_void,
    len: libc::size_t,
    flags: libc::c_uint,
) -> libc::ssize_t {
    if is_active() {
        ENTROPY_READS.with(|e| e.set(e.get() + 1));
        let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
        ENTROPY.with(|e| {
            let mut s = e.get();
            for b in out {
                *b = crate::tape::splitmix(&mut s) as u8;
            }
            e.set(s);
        });
        return len as libc::ssize_t;
    }
    libc::syscall(libc::SYS_getrandom, buf, len, flags) as libc::ssize_t
}

/// A run that holds more heap than this is stopped: its thread is parked in
/// the allocator and the runner reports it.
pub const LIMIT: i64 = 3 << 30;

static EXHAUSTED: Mutex<Option<ThreadId>> = Mutex::new(None);

pub fn exhausted(id: ThreadId) -> bool {
    EXHAUSTED.lock().map_or(false, |e| *e == Some(id))
}

#[cold]
fn park_forever() {
    ACTIVE.with(|a| a.set(false));
    if let Ok(mut e) = EXHAUSTED.lock() {
        *e = Some(thread::current().id());
    }
    loop {
        thread::sleep(Duration::from_secs(3600));
    }
}

pub struct Counting;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        add(-(l.size() as i64));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            add(n as i64 - l.size() as i64);
        }
        q
    }
}

fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        if v > LIMIT && is_active() {
            park_forever();
        }
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}

pub fn live_bytes() -> i64 {
    LIVE.with(|l| l.get())
}
pub fn peak_bytes() -> i64 {
    PEAK.with(|p| p.get())
}
pub fn reset_peak() {
    let l = live_bytes();
    PEAK.with(|p| p.set(l));
}
