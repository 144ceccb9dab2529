//! The simulated DNS: zones with a timeline, per-query latency and faults, and
//! a record of everything every session asked for.

use crate::{ev, log, model::Answer, tape};
use std::{
    collections::BTreeMap,
    future::Future,
    io::{self, ErrorKind},
    pin::Pin,
    sync::{Arc, Mutex},
    task::Poll,
    time::Duration,
};
use tokio::time::Instant;
use viadkim::verifier::LookupTxt;

/// One TXT record as delivered: data, or an error for this record only.
pub type Txt = Result<Vec<u8>, ()>;

#[derive(Clone, Debug, PartialEq)]
pub enum RrSet {
    NxDomain,
    Records(Vec<Txt>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    None,
    NxDomain,
    Empty,
    InvalidInput,
    TimedOut,
    Other(ErrorKind),
    Stall,
    /// The TXT data arrives cut short.
    Truncated,
    /// The TXT data arrives with a flipped byte.
    Garbled,
    /// An unrelated record precedes the real ones.
    ExtraFirst,
    /// Records come in reverse order.
    Reversed,
}

/// Every stable error kind the documentation gives no special meaning.
pub const OTHER_KINDS: [ErrorKind; 35] = [
    ErrorKind::Other,
    ErrorKind::ConnectionRefused,
    ErrorKind::ConnectionReset,
    ErrorKind::PermissionDenied,
    ErrorKind::InvalidData,
    ErrorKind::UnexpectedEof,
    ErrorKind::Interrupted,
    ErrorKind::WouldBlock,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::AlreadyExists,
    ErrorKind::ArgumentListTooLong,
    ErrorKind::BrokenPipe,
    ErrorKind::ConnectionAborted,
    ErrorKind::CrossesDevices,
    ErrorKind::Deadlock,
    ErrorKind::DirectoryNotEmpty,
    ErrorKind::ExecutableFileBusy,
    ErrorKind::FileTooLarge,
    ErrorKind::HostUnreachable,
    ErrorKind::IsADirectory,
    ErrorKind::NetworkDown,
    ErrorKind::NetworkUnreachable,
    ErrorKind::NotADirectory,
    ErrorKind::NotConnected,
    ErrorKind::NotSeekable,
    ErrorKind::OutOfMemory,
    ErrorKind::QuotaExceeded,
    ErrorKind::ReadOnlyFilesystem,
    ErrorKind::ResourceBusy,
    ErrorKind::StaleNetworkFileHandle,
    ErrorKind::StorageFull,
    ErrorKind::TooManyLinks,
    ErrorKind::Unsupported,
    ErrorKind::WriteZero,
];

/// Kind of the error of the `i`th record: any there is.
fn txt_kind(form: u32, i: usize) -> ErrorKind {
    match (form as usize + i) % 8 {
        0 => ErrorKind::NotFound,
        1 => ErrorKind::TimedOut,
        2 => ErrorKind::InvalidInput,
        3 => ErrorKind::InvalidData,
        _ => OTHER_KINDS[(form as usize / 8 + i) % OTHER_KINDS.len()],
    }
}

/// An error of this kind, in one of the ways there are to make one.
fn make_error(kind: ErrorKind, form: u32) -> io::Error {
    match form / 280 {
        0 => kind.into(),
        1 => io::Error::new(kind, "simulated resolver error"),
        2 => (1..134)
            .map(io::Error::from_raw_os_error)
            .find(|e| e.kind() == kind)
            .unwrap_or_else(|| kind.into()),
        _ => io::Error::new(kind, io::Error::from(ErrorKind::TimedOut)),
    }
}

/// How one query will go.
#[derive(Clone, Debug)]
pub struct Plan {
    pub yields: u32,
    pub latency_ms: u64,
    pub fault: Fault,
    /// How errors are made up.
    pub form: u32,
}

/// Distribution the plans are drawn from.
#[derive(Clone, Debug, Default)]
pub struct Weather {
    pub fault_pct: u32,
    pub stall_pct: u32,
    pub slow_pct: u32,
    /// The sessions' lookup timeout, to place answers around it.
    pub timeout_ms: u64,
    pub max_latency_ms: u64,
    pub yield_pct: u32,
    /// Only faults that are temporary errors.
    pub temporary_only: bool,
    /// Faults that change the delivered record data.
    pub garble: bool,
    /// What mostly goes wrong in this weather, if anything does.
    pub usual: Option<ErrorKind>,
}

impl Weather {
    fn kind(&self) -> ErrorKind {
        match self.usual {
            Some(k) if tape::chance(75) => k,
            _ => *tape::pick(&OTHER_KINDS),
        }
    }

    pub fn plan(&self) -> Plan {
        let yields = if tape::chance(self.yield_pct) { tape::range(1, 3) as u32 } else { 0 };
        let t = self.timeout_ms.min(60_000);
        let mut latency_ms = if tape::chance(self.slow_pct) {
            match tape::draw(5) {
                0 => t.saturating_sub(tape::draw(20)),
                1 => t.saturating_add(tape::draw(20)),
                2 => t / 2,
                3 => t.saturating_mul(2).saturating_add(tape::draw(100)),
                _ => t.saturating_sub(t / 10),
            }
        } else {
            match tape::draw(4) {
                0 => 0,
                1 => tape::draw(3),
                _ => tape::draw(self.max_latency_ms.max(1)),
            }
        };
        if self.slow_pct == 0 {
            latency_ms = latency_ms.min(self.max_latency_ms);
        }
        let fault = if tape::chance(self.stall_pct) {
            Fault::Stall
        } else if tape::chance(self.fault_pct) {
            if self.temporary_only {
                match tape::draw(3) {
                    0 => Fault::TimedOut,
                    1 => Fault::Other(self.kind()),
                    _ => Fault::Stall,
                }
            } else if self.usual.is_some() && tape::chance(40) {
                Fault::Other(self.kind())
            } else {
                match tape::draw(if self.garble { 11 } else { 7 }) {
                    0 => Fault::NxDomain,
                    1 => Fault::Empty,
                    2 => Fault::InvalidInput,
                    3 | 4 => Fault::TimedOut,
                    5 | 6 => Fault::Other(self.kind()),
                    7 => Fault::Truncated,
                    8 => Fault::Garbled,
                    9 => Fault::ExtraFirst,
                    _ => Fault::Reversed,
                }
            }
        } else {
            Fault::None
        };
        let form = tape::draw(1120) as u32;
        Plan { yields, latency_ms, fault, form }
    }
}

#[derive(Clone, Debug)]
pub struct Query {
    pub session: usize,
    pub name: String,
    pub issued: Duration,
    pub polled: Option<Duration>,
    pub done: Option<Duration>,
    pub dropped: Option<Duration>,
    pub answer: Option<Answer>,
    pub plan: Plan,
}

#[derive(Default)]
pub struct Shared {
    /// Name to versions (valid from virtual ms, content).
    pub zones: BTreeMap<String, Vec<(u64, RrSet)>>,
    pub plans: BTreeMap<(usize, String), Plan>,
    pub weather: BTreeMap<usize, Weather>,
    /// Answers a replaying session must get, by session and name.
    pub scripted: BTreeMap<(usize, String), Answer>,
    pub log: Vec<Query>,
    pub start: Option<Instant>,
    /// Absolute offset of the current phase.
    pub offset: Duration,
    pub stalls_woken: u64,
}

#[derive(Clone, Default)]
pub struct SimDns {
    pub shared: Arc<Mutex<Shared>>,
    pub session: usize,
}

impl SimDns {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn for_session(&self, session: usize) -> Self {
        Self { shared: self.shared.clone(), session }
    }
    /// To be called when virtual time restarts for a new phase.
    pub fn begin_phase(&self) {
        let mut s = self.shared.lock().unwrap();
        s.start = None;
    }
    pub fn now(&self) -> Duration {
        let mut s = self.shared.lock().unwrap();
        let n = Instant::now();
        let st = *s.start.get_or_insert(n);
        n.duration_since(st)
    }
    pub fn publish(&self, name: &str, from_ms: u64, set: RrSet) {
        let mut s = self.shared.lock().unwrap();
        s.zones.entry(name.to_string()).or_default().push((from_ms, set));
    }
    pub fn set_weather(&self, session: usize, w: Weather) {
        self.shared.lock().unwrap().weather.insert(session, w);
    }
    pub fn set_plan(&self, session: usize, name: &str, p: Plan) {
        self.shared.lock().unwrap().plans.insert((session, name.into()), p);
    }
    pub fn queries(&self, session: usize) -> Vec<Query> {
        self.shared.lock().unwrap().log.iter().filter(|q| q.session == session).cloned().collect()
    }
    pub fn live(&self, session: usize) -> usize {
        self.shared
            .lock()
            .unwrap()
            .log
            .iter()
            .filter(|q| q.session == session && q.done.is_none() && q.dropped.is_none())
            .count()
    }
    pub fn zone_at(&self, name: &str, ms: u64) -> RrSet {
        let s = self.shared.lock().unwrap();
        zone_at(&s, name, ms)
    }
}

fn zone_at(s: &Shared, name: &str, ms: u64) -> RrSet {
    s.zones
        .get(&name.to_ascii_lowercase())
        .and_then(|v| v.iter().rev().find(|(from, _)| *from <= ms))
        .map_or(RrSet::NxDomain, |(_, r)| r.clone())
}

struct Guard {
    dns: SimDns,
    id: usize,
    finished: bool,
}

impl Drop for Guard {
    fn drop(&mut self) {
        if !self.finished {
            let now = self.dns.now();
            let mut s = self.dns.shared.lock().unwrap();
            let q = &mut s.log[self.id];
            q.dropped = Some(now);
            if q.answer.is_none() {
                q.answer = Some(Answer::GivenUp);
            }
            ev!("dns s{} {} dropped unanswered", q.session, q.name);
            drop(s);
            log::count("lookup_dropped");
        }
    }
}

/// The answer list: an opaque iterator, as the real resolver's is.
pub struct TxtAnswer(Vec<Txt>, u32);

impl IntoIterator for TxtAnswer {
    type Item = io::Result<Vec<u8>>;
    type IntoIter = Box<dyn Iterator<Item = Self::Item>>;
    fn into_iter(self) -> Self::IntoIter {
        let form = self.1;
        Box::new(self.0.into_iter().enumerate().map(move |(i, r)| {
            r.map_err(|_| make_error(txt_kind(form, i), form))
        }))
    }
}

async fn yield_once() {
    let mut done = false;
    std::future::poll_fn(|cx| {
        if done {
            Poll::Ready(())
        } else {
            done = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    })
    .await
}

impl LookupTxt for SimDns {
    type Answer = TxtAnswer;
    type Query<'a> = Pin<Box<dyn Future<Output = io::Result<TxtAnswer>> + Send + 'a>>;

    fn lookup_txt(&self, domain: &str) -> Self::Query<'_> {
        let now = self.now();
        let name = domain.to_string();
        let id;
        let plan;
        {
            let key = (self.session, name.clone());
            let (w, existing) = {
                let s = self.shared.lock().unwrap();
                (s.weather.get(&self.session).cloned(), s.plans.get(&key).cloned())
            };
            plan = existing.unwrap_or_else(|| match w {
                Some(w) => w.plan(),
                None => Plan { yields: 0, latency_ms: 0, fault: Fault::None, form: 0 },
            });
            let mut s = self.shared.lock().unwrap();
            id = s.log.len();
            s.log.push(Query {
                session: self.session,
                name: name.clone(),
                issued: now,
                polled: None,
                done: None,
                dropped: None,
                answer: None,
                plan: plan.clone(),
            });
        }
        ev!(
            "dns s{} query {name} (latency {} ms, yields {}, {:?})",
            self.session, plan.latency_ms, plan.yields, plan.fault
        );
        log::count("lookup");
        let guard = Guard { dns: self.clone(), id, finished: false };

        Box::pin(async move {
            let mut guard = guard;
            {
                let now = guard.dns.now();
                guard.dns.shared.lock().unwrap().log[id].polled = Some(now);
            }
            for _ in 0..plan.yields {
                yield_once().await;
            }
            if plan.fault == Fault::Stall {
                log::count("fault_dns_stall");
                std::future::pending::<()>().await;
            }
            if plan.latency_ms > 0 {
                log::count("fault_dns_delay");
                tokio::time::sleep(Duration::from_millis(plan.latency_ms)).await;
            }
            let now = guard.dns.now();
            let mut s = guard.dns.shared.lock().unwrap();
            let session = s.log[id].session;
            let mut answer = match s.scripted.get(&(session, name.clone())) {
                Some(a) => a.clone(),
                None => match zone_at(&s, &name, now.as_millis() as u64) {
                    RrSet::NxDomain => Answer::NotFound,
                    RrSet::Records(r) => Answer::Records(r),
                },
            };
            match plan.fault {
                Fault::None | Fault::Stall => {}
                Fault::NxDomain => {
                    log::count("fault_dns_nxdomain");
                    answer = Answer::NotFound;
                }
                Fault::Empty => {
                    log::count("fault_dns_empty");
                    answer = Answer::Records(vec![]);
                }
                Fault::InvalidInput => {
                    log::count("fault_dns_invalid_name");
                    answer = Answer::InvalidInput;
                }
                Fault::TimedOut => {
                    log::count("fault_dns_timedout");
                    answer = Answer::TimedOut;
                }
                Fault::Other(_) => {
                    log::count("fault_dns_error");
                    answer = Answer::Other;
                }
                Fault::Truncated | Fault::Garbled | Fault::ExtraFirst | Fault::Reversed => {
                    if let Answer::Records(r) = &mut answer {
                        log::count(match plan.fault {
                            Fault::Truncated => "fault_dns_truncated",
                            Fault::Garbled => "fault_dns_garbled",
                            Fault::ExtraFirst => "fault_dns_extra_record",
                            _ => "fault_dns_reordered",
                        });
                        match plan.fault {
                            Fault::Truncated => {
                                for d in r.iter_mut().flatten() {
                                    let n = d.len() - d.len() / 3;
                                    d.truncate(n);
                                }
                            }
                            Fault::Garbled => {
                                for d in r.iter_mut().flatten() {
                                    let n = d.len() / 2;
                                    if let Some(b) = d.get_mut(n) {
                                        *b ^= 0x80;
                                    }
                                }
                            }
                            Fault::ExtraFirst => r.insert(0, Ok(b"v=spf1 -all".to_vec())),
                            _ => r.reverse(),
                        }
                    }
                }
            }
            let q = &mut s.log[id];
            q.done = Some(now);
            q.answer = Some(answer.clone());
            drop(s);
            guard.finished = true;
            ev!("dns s{session} answer {name}: {}", brief(&answer));
            match answer {
                Answer::Records(r) => Ok(TxtAnswer(r, plan.form)),
                Answer::NotFound => Err(make_error(ErrorKind::NotFound, plan.form)),
                Answer::InvalidInput => Err(make_error(ErrorKind::InvalidInput, plan.form)),
                Answer::TimedOut => Err(make_error(ErrorKind::TimedOut, plan.form)),
                Answer::Other | Answer::GivenUp => Err(match plan.fault {
                    Fault::Other(k) => make_error(k, plan.form),
                    _ => make_error(ErrorKind::Other, plan.form),
                }),
            }
        })
    }
}

pub fn brief(a: &Answer) -> String {
    match a {
        Answer::Records(r) => {
            let v: Vec<String> = r
                .iter()
                .map(|r| match r {
                    Ok(d) => {
                        let s: String = d.escape_ascii().to_string();
                        if s.len() > 72 {
                            format!("{}..({})", &s[..60], d.len())
                        } else {
                            s
                        }
                    }
                    Err(()) => "<error>".into(),
                })
                .collect();
            format!("{v:?}")
        }
        x => format!("{x:?}"),
    }
}
