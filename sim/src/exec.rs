//! The scheduler: owns every session task and decides who is polled.
//!
//! It runs as the root future of a current-thread tokio runtime with a paused
//! clock. When no session is runnable it returns `Pending`; tokio then runs
//! whatever the library may have spawned and, when everything is idle, jumps
//! virtual time to the next timer (discrete-event time).

use crate::{ev, log, seam, seam::Clock, tape};
use std::{
    any::Any,
    cell::{Cell, RefCell},
    future::Future,
    panic::{self, AssertUnwindSafe},
    pin::Pin,
    rc::Rc,
    sync::{
        atomic::{AtomicBool, Ordering},
        Arc, Mutex,
    },
    task::{Context, Poll, Wake, Waker},
    time::Duration,
};
use tokio::time::Instant;

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    let default = panic::take_hook();
    panic::set_hook(Box::new(move |info| {
        if seam::is_active() {
            let s = info.to_string().replace('\n', " ");
            LAST_PANIC.with(|p| *p.borrow_mut() = Some(s));
        } else {
            default(info);
        }
    }));
}

pub fn take_panic(e: &(dyn Any + Send)) -> String {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| {
        e.downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| e.downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into())
    })
}

struct TaskWaker {
    ready: AtomicBool,
    root: Arc<Mutex<Option<Waker>>>,
}

impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref();
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.ready.store(true, Ordering::SeqCst);
        let w = self.root.lock().unwrap().clone();
        if let Some(w) = w {
            w.wake();
        }
    }
}

struct Task {
    name: String,
    fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
    waker: Arc<TaskWaker>,
    clock: Option<Rc<Clock>>,
}

type Inbox = Rc<RefCell<Vec<(String, Option<Rc<Clock>>, Pin<Box<dyn Future<Output = ()>>>)>>>;

#[derive(Clone)]
pub struct Spawner(Inbox);

impl Spawner {
    pub fn spawn(
        &self,
        name: impl Into<String>,
        clock: Option<Rc<Clock>>,
        f: impl Future<Output = ()> + 'static,
    ) {
        self.0.borrow_mut().push((name.into(), clock, Box::pin(f)));
    }
}

pub struct Config {
    pub spurious: u32,   // percent of steps that poll a task that was not woken
    pub yield_pct: u32,  // percent of steps after which tokio gets a turn
    pub max_steps: u64,
    pub horizon: Duration,
}

#[derive(Debug, Default)]
pub struct Report {
    pub steps: u64,
    pub contended: u64, // steps with more than one runnable task
    pub virtual_ms: u64,
    pub stuck: Option<String>,
    pub panics: Vec<(String, String)>,
}

struct Sim {
    tasks: Vec<Task>,
    inbox: Inbox,
    root: Arc<Mutex<Option<Waker>>>,
    cfg: Config,
    rep: Report,
    start: Instant,
    horizon: Pin<Box<tokio::time::Sleep>>,
}

impl Sim {
    fn now(&self) -> Duration {
        Instant::now().duration_since(self.start)
    }
}

impl Future for Sim {
    type Output = Report;

    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Report> {
        *self.root.lock().unwrap() = Some(cx.waker().clone());
        loop {
            let now = self.now();
            seam::set_virtual_ns(now.as_nanos() as u64);
            log::set_now(now.as_millis() as u64);

            let incoming: Vec<_> = self.inbox.borrow_mut().drain(..).collect();
            for (name, clock, fut) in incoming {
                let waker = Arc::new(TaskWaker {
                    ready: AtomicBool::new(true),
                    root: self.root.clone(),
                });
                self.tasks.push(Task { name, fut: Some(fut), waker, clock });
            }

            let live: Vec<usize> =
                (0..self.tasks.len()).filter(|&i| self.tasks[i].fut.is_some()).collect();
            if live.is_empty() {
                self.rep.virtual_ms = now.as_millis() as u64;
                return Poll::Ready(std::mem::take(&mut self.rep));
            }
            if self.rep.steps > self.cfg.max_steps {
                let names: Vec<_> = live.iter().map(|&i| self.tasks[i].name.clone()).collect();
                self.rep.stuck = Some(format!("step limit reached, still running: {names:?}"));
                self.rep.virtual_ms = now.as_millis() as u64;
                return Poll::Ready(std::mem::take(&mut self.rep));
            }
            if self.horizon.as_mut().poll(cx).is_ready() {
                let names: Vec<_> = live.iter().map(|&i| self.tasks[i].name.clone()).collect();
                self.rep.stuck = Some(format!("no progress until the horizon, waiting: {names:?}"));
                self.rep.virtual_ms = now.as_millis() as u64;
                return Poll::Ready(std::mem::take(&mut self.rep));
            }

            let ready: Vec<usize> = live
                .iter()
                .copied()
                .filter(|&i| self.tasks[i].waker.ready.load(Ordering::SeqCst))
                .collect();

            let chosen = if ready.is_empty() {
                return Poll::Pending;
            } else {
                if ready.len() > 1 {
                    self.rep.contended += 1;
                }
                let spurious = self.cfg.spurious;
                if spurious > 0 && live.len() > ready.len() && tape::chance(spurious) {
                    log::count("spurious_poll");
                    *tape::pick(&live)
                } else if ready.len() > 1 {
                    *tape::pick(&ready)
                } else {
                    ready[0]
                }
            };
            self.rep.steps += 1;
            log::sched(chosen as u64);

            self.tasks[chosen].waker.ready.store(false, Ordering::SeqCst);
            let mut fut = self.tasks[chosen].fut.take().unwrap();
            let waker = Waker::from(self.tasks[chosen].waker.clone());
            let clock = self.tasks[chosen].clock.clone();
            let prev = seam::set_clock(clock);
            let r = panic::catch_unwind(AssertUnwindSafe(|| {
                fut.as_mut().poll(&mut Context::from_waker(&waker))
            }));
            match r {
                Ok(Poll::Pending) => self.tasks[chosen].fut = Some(fut),
                Ok(Poll::Ready(())) => {
                    drop(fut);
                }
                Err(e) => {
                    let msg = take_panic(&*e);
                    let name = self.tasks[chosen].name.clone();
                    ev!("task {name} PANICKED: {msg}");
                    self.rep.panics.push((name, msg));
                    let _ = panic::catch_unwind(AssertUnwindSafe(|| drop(fut)));
                }
            }
            seam::set_clock(prev);

            if self.cfg.yield_pct > 0 && tape::chance(self.cfg.yield_pct) {
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
        }
    }
}

/// Runs a simulation to quiescence.
pub fn run(cfg: Config, setup: impl FnOnce(&Spawner)) -> Report {
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .unwrap();
    let rep = rt.block_on(async {
        let inbox: Inbox = Default::default();
        let spawner = Spawner(inbox.clone());
        setup(&spawner);
        let horizon = Box::pin(tokio::time::sleep(cfg.horizon));
        Sim {
            tasks: vec![],
            inbox,
            root: Arc::new(Mutex::new(None)),
            cfg,
            rep: Report::default(),
            start: Instant::now(),
            horizon,
        }
        .await
    });
    drop(rt);
    rep
}

/// A point where the scheduler may switch to another session.
pub async fn switch() {
    let done = Cell::new(false);
    std::future::poll_fn(|cx| {
        if done.get() {
            Poll::Ready(())
        } else {
            done.set(true);
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    })
    .await
}
