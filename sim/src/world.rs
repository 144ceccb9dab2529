//! Sessions run by the simulator, and the judge that compares what the library
//! reported with what the model allows.

use crate::{
    dns::{RrSet, SimDns},
    ev, exec,
    exec::Spawner,
    gen::Req,
    log,
    model::{self, Answer, Cfg, Dom, Field, Policy, RecErr, Sig, V},
    seam::Clock,
};
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet},
    future::Future,
    pin::Pin,
    rc::Rc,
    task::Poll,
    time::{Duration, SystemTime},
};
use tokio::time::Instant;
use viadkim::{
    crypto,
    header::FieldName,
    message_hash::BodyHasherStance,
    record::DkimKeyRecordError,
    verifier::{Config, PolicyError, VerificationError, VerificationResult, VerificationStatus},
    DkimResult, HeaderFields, RequestError, Signer, SigningError, SigningOutput, Verifier,
};

// ---------------------------------------------------------------- configuration

#[derive(Clone, Debug)]
pub struct VCfg {
    pub m: Cfg,
    pub max: usize,
    pub timeout: Duration,
    /// Fixed time in seconds relative to the epoch.
    pub fixed: Option<i64>,
    /// Part of a second on top of the tolerance.
    pub tolerance_ms: u64,
}

impl Default for VCfg {
    fn default() -> Self {
        Self {
            m: Cfg {
                required: vec![],
                protected: vec!["From".into()],
                min_bits: 1024,
                allow_sha1: false,
                forbid_unsigned: false,
                allow_expired: false,
                allow_future: false,
                tolerance: 300,
            },
            max: 10,
            timeout: Duration::from_secs(10),
            fixed: None,
            tolerance_ms: 0,
        }
    }
}

impl VCfg {
    pub fn lib(&self) -> Config {
        let names = |v: &[String]| v.iter().map(|n| FieldName::new(n.as_str()).unwrap()).collect();
        Config {
            lookup_timeout: self.timeout,
            max_signatures: self.max,
            headers_required_in_signature: names(&self.m.required),
            headers_forbidden_to_be_unsigned: names(&self.m.protected),
            min_key_bits: self.m.min_bits,
            allow_sha1: self.m.allow_sha1,
            forbid_unsigned_content: self.m.forbid_unsigned,
            allow_expired: self.m.allow_expired,
            allow_timestamp_in_future: self.m.allow_future,
            time_tolerance: Duration::from_secs(self.m.tolerance) + Duration::from_millis(self.tolerance_ms),
            fixed_system_time: self.fixed.map(systime),
        }
    }
}

pub fn systime(s: i64) -> SystemTime {
    if s >= 0 {
        SystemTime::UNIX_EPOCH + Duration::from_secs(s as u64)
    } else {
        SystemTime::UNIX_EPOCH - Duration::from_secs(s.unsigned_abs())
    }
}

// ---------------------------------------------------------------- verify sessions

#[derive(Clone, Debug, PartialEq)]
pub enum Cancel {
    No,
    /// Drop the header verification at this time after its start.
    AfterMs(u64),
    /// Drop it after this many polls that left it pending.
    AfterPolls(u32),
    /// Abandon after this many body chunks.
    InBody(usize),
}

#[derive(Clone)]
pub struct VIn {
    pub id: usize,
    pub label: String,
    pub headers: Vec<Field>,
    /// The whole body; the chunks concatenate to it.
    pub body: Vec<u8>,
    pub chunks: Vec<Vec<u8>>,
    /// Only this many chunks are delivered (then the stream ends).
    pub deliver: usize,
    pub stop_on_done: bool,
    /// Fed after the body hasher said it was done (or after the end, then
    /// counted as body).
    pub junk_after_done: Option<Vec<u8>>,
    pub cfg: VCfg,
    pub clock: Rc<Clock>,
    pub start_ms: u64,
    pub cancel: Cancel,
}

#[derive(Clone, Default, Debug)]
pub struct VOut {
    pub rejected: bool,
    pub started: Duration,
    pub header_done: Option<Duration>,
    pub none: bool,
    pub stances: Vec<bool>, // true = done
    pub delivered: usize,   // bytes fed in order from the body
    pub done_seen: bool,
    pub results: Option<Vec<VerificationResult>>,
    pub cancelled: Option<Duration>,
    /// Lookups alive a moment after the session was dropped or finished.
    pub live_after: usize,
    /// Lookups alive right when the header verification returned.
    pub live_at_return: usize,
    pub settled: Option<Duration>,
    pub nows: Vec<i64>,
    pub polls: u32,
}

pub type Shared<T> = Rc<RefCell<T>>;

pub fn spawn_verify(sp: &Spawner, dns: &SimDns, i: VIn, out: Shared<BTreeMap<usize, VOut>>) {
    let dns = dns.for_session(i.id);
    let name = format!("verify#{}", i.id);
    let clock = i.clock.clone();
    let (s2, d2, o2, c2) = (sp.clone(), dns.clone(), out.clone(), clock.clone());
    sp.spawn(name.clone(), Some(clock.clone()), async move {
        if i.start_ms > 0 {
            tokio::time::sleep(Duration::from_millis(i.start_ms)).await;
        }
        let id = i.id;
        out.borrow_mut().insert(id, VOut { started: dns.now(), ..Default::default() });
        let first_reading = clock.readings.borrow().len();
        let peek0 = clock.peek();
        verify_session(&dns, &i, &out).await;
        let mut o = out.borrow_mut();
        let o = o.get_mut(&id).unwrap();
        o.nows.push(peek0);
        o.nows.extend_from_slice(&clock.readings.borrow()[first_reading..]);
        o.nows.sort();
        o.nows.dedup();
        // A short while later nothing may be left running.
        s2.spawn(format!("{name}.settle"), Some(c2), async move {
            exec::switch().await;
            tokio::time::sleep(Duration::from_millis(2)).await;
            let mut o = o2.borrow_mut();
            let o = o.get_mut(&id).unwrap();
            o.live_after = d2.live(id);
            o.settled = Some(d2.now());
        });
    });
}

async fn verify_session(dns: &SimDns, i: &VIn, out: &Shared<BTreeMap<usize, VOut>>) {
    let id = i.id;
    let Ok(headers) = HeaderFields::from_vec(i.headers.clone()) else {
        ev!("s{id} header not well-formed, message refused");
        out.borrow_mut().get_mut(&id).unwrap().rejected = true;
        return;
    };
    let config = i.cfg.lib();
    ev!("s{id} {} verify_header starts", i.label);
    for (n, f) in i.headers.iter().enumerate() {
        ev!("s{id}   {n} {}:{}", f.0, String::from_utf8_lossy(&f.1).escape_debug());
    }
    let verifier = {
        let mut f: Pin<Box<dyn Future<Output = Option<Verifier>> + '_>> =
            Box::pin(Verifier::verify_header(dns, &headers, &config));
        let mut timer = match i.cancel {
            Cancel::AfterMs(ms) => Some(Box::pin(tokio::time::sleep(Duration::from_millis(ms)))),
            _ => None,
        };
        let mut polls = 0u32;
        let r = std::future::poll_fn(|cx| {
            if let Some(t) = &mut timer {
                if t.as_mut().poll(cx).is_ready() {
                    return Poll::Ready(None);
                }
            }
            match f.as_mut().poll(cx) {
                Poll::Ready(v) => Poll::Ready(Some(v)),
                Poll::Pending => {
                    polls += 1;
                    if matches!(i.cancel, Cancel::AfterPolls(n) if polls >= n) {
                        return Poll::Ready(None);
                    }
                    Poll::Pending
                }
            }
        })
        .await;
        let returned = r.is_some();
        drop(f);
        let mut o = out.borrow_mut();
        let o = o.get_mut(&id).unwrap();
        o.polls = polls;
        if !returned {
            ev!("s{id} caller drops the header verification");
            log::count("cancelled_header");
            o.cancelled = Some(dns.now());
            return;
        }
        o.header_done = Some(dns.now());
        o.live_at_return = dns.live(id);
        r.unwrap()
    };
    let Some(mut verifier) = verifier else {
        ev!("s{id} no signatures");
        out.borrow_mut().get_mut(&id).unwrap().none = true;
        return;
    };
    ev!("s{id} header verified");
    for (n, c) in i.chunks.iter().take(i.deliver).enumerate() {
        exec::switch().await;
        if i.cancel == Cancel::InBody(n) {
            ev!("s{id} caller abandons the verifier after {n} chunks");
            log::count("cancelled_body");
            let mut o = out.borrow_mut();
            o.get_mut(&id).unwrap().cancelled = Some(dns.now());
            return;
        }
        let done = verifier.process_body_chunk(c) == BodyHasherStance::Done;
        let mut o = out.borrow_mut();
        let o = o.get_mut(&id).unwrap();
        o.stances.push(done);
        o.delivered += c.len();
        if done {
            o.done_seen = true;
            if let Some(j) = &i.junk_after_done {
                let _ = verifier.process_body_chunk(j);
                log::count("junk_after_done");
                break;
            }
            if i.stop_on_done {
                log::count("stopped_on_done");
                break;
            }
        }
    }
    exec::switch().await;
    let results = verifier.finish();
    for r in &results {
        ev!("s{id} result index {} {}", r.index, show(&r.status));
    }
    out.borrow_mut().get_mut(&id).unwrap().results = Some(results);
}

pub fn show(s: &VerificationStatus) -> String {
    match s {
        VerificationStatus::Success => "Success".into(),
        VerificationStatus::Failure(e) => match e {
            VerificationError::DkimSignatureFormat(e) => format!("Format({:?})", e.kind),
            e => format!("{e:?}"),
        },
    }
}

// ---------------------------------------------------------------- sign sessions

#[derive(Clone)]
pub struct SIn {
    pub id: usize,
    pub headers: Vec<Field>,
    pub body: Vec<u8>,
    pub chunks: Vec<Vec<u8>>,
    pub reqs: Vec<Req>,
    pub stop_on_done: bool,
    pub junk_after_done: Option<Vec<u8>>,
    pub clock: Rc<Clock>,
    pub start_ms: u64,
    pub abandon_after: Option<usize>,
}

#[derive(Clone, Default, Debug)]
pub struct SOut {
    pub refused: Option<RequestError>,
    pub stances: Vec<bool>,
    pub delivered: usize,
    pub done_seen: bool,
    pub abandoned: bool,
    pub outcomes: Option<Vec<Result<SigningOutput, SigningError>>>,
    pub readings: Vec<i64>,
    pub around: (i64, i64),
}

pub fn spawn_sign(sp: &Spawner, i: SIn, out: Shared<BTreeMap<usize, SOut>>) {
    let clock = i.clock.clone();
    sp.spawn(format!("sign#{}", i.id), Some(clock.clone()), async move {
        if i.start_ms > 0 {
            tokio::time::sleep(Duration::from_millis(i.start_ms)).await;
        }
        let first = clock.readings.borrow().len();
        let peek0 = clock.peek();
        let mut o = sign_session(&i).await;
        o.readings = clock.readings.borrow()[first..].to_vec();
        o.around = (peek0, clock.peek());
        out.borrow_mut().insert(i.id, o);
    });
}

pub async fn sign_session(i: &SIn) -> SOut {
    let mut o = SOut::default();
    let id = i.id;
    let headers = HeaderFields::from_vec(i.headers.clone()).expect("harness: signer's header");
    ev!("sign{id} prepare {} requests", i.reqs.len());
    let reqs: Vec<_> = i.reqs.iter().map(|r| r.build()).collect();
    let mut signer = match Signer::prepare_signing(headers, reqs) {
        Ok(s) => s,
        Err(e) => {
            ev!("sign{id} refused: {e:?}");
            o.refused = Some(e);
            return o;
        }
    };
    for (n, c) in i.chunks.iter().enumerate() {
        exec::switch().await;
        if i.abandon_after == Some(n) {
            ev!("sign{id} abandoned");
            log::count("cancelled_sign");
            o.abandoned = true;
            return o;
        }
        let done = signer.process_body_chunk(c) == BodyHasherStance::Done;
        o.stances.push(done);
        o.delivered += c.len();
        if done {
            o.done_seen = true;
            if let Some(j) = &i.junk_after_done {
                let _ = signer.process_body_chunk(j);
                log::count("junk_after_done");
                break;
            }
            if i.stop_on_done {
                log::count("stopped_on_done");
                break;
            }
        }
    }
    exec::switch().await;
    let r = signer.sign().await;
    for x in &r {
        match x {
            Ok(s) => ev!("sign{id} -> {}:{}", s.header_name, s.header_value.escape_default()),
            Err(e) => ev!("sign{id} -> {e:?}"),
        }
    }
    o.outcomes = Some(r);
    o
}

// ---------------------------------------------------------------- expectations

pub fn rec_err(e: &DkimKeyRecordError) -> RecErr {
    use DkimKeyRecordError as E;
    match e {
        E::RecordFormat => RecErr::RecordFormat,
        E::TagListFormat => RecErr::TagListFormat,
        E::MisplacedVersionTag => RecErr::MisplacedVersionTag,
        E::IncompatibleVersion => RecErr::IncompatibleVersion,
        E::InvalidHashAlgorithm => RecErr::InvalidHashAlgorithm,
        E::NoSupportedHashAlgorithms => RecErr::NoSupportedHashAlgorithms,
        E::UnsupportedKeyType => RecErr::UnsupportedKeyType,
        E::InvalidQuotedPrintable => RecErr::InvalidQuotedPrintable,
        E::InvalidBase64 => RecErr::InvalidBase64,
        E::InvalidServiceType => RecErr::InvalidServiceType,
        E::NoSupportedServiceTypes => RecErr::NoSupportedServiceTypes,
        E::InvalidFlag => RecErr::InvalidFlag,
        E::MissingKeyTag => RecErr::MissingKeyTag,
    }
}

pub fn verdict(s: &VerificationStatus) -> V {
    use VerificationError as E;
    let VerificationStatus::Failure(e) = s else { return V::Success };
    match e {
        E::DkimSignatureFormat(_) => V::Format,
        E::Overflow => V::Overflow,
        E::NoKeyFound => V::NoKeyFound,
        E::InvalidKeyDomain => V::InvalidKeyDomain,
        E::Timeout => V::Timeout,
        E::KeyLookup => V::KeyLookup,
        E::KeyRecordFormat(e) => V::Record(rec_err(e)),
        E::WrongKeyType => V::WrongKeyType,
        E::KeyRevoked => V::KeyRevoked,
        E::DisallowedHashAlgorithm => V::DisallowedHash,
        E::DomainMismatch => V::DomainMismatch,
        E::VerificationFailure(c) => match c {
            crypto::VerificationError::InvalidKey => V::InvalidKey,
            crypto::VerificationError::InsufficientKeySize => V::InsufficientKeySize,
            crypto::VerificationError::VerificationFailure => V::CryptoFailure,
        },
        E::InsufficientContent => V::InsufficientContent,
        E::BodyHashMismatch => V::BodyHashMismatch,
        E::Policy(p) => V::Policy(match p {
            PolicyError::RequiredHeaderNotSigned => Policy::RequiredHeaderNotSigned,
            PolicyError::UnsignedHeaderOccurrence => Policy::UnsignedHeaderOccurrence,
            PolicyError::UnsignedContent => Policy::UnsignedContent,
            PolicyError::SignatureExpired => Policy::SignatureExpired,
            PolicyError::TimestampInFuture => Policy::TimestampInFuture,
            PolicyError::Sha1HashAlgorithm => Policy::Sha1HashAlgorithm,
            PolicyError::KeyTooSmall => Policy::KeyTooSmall,
        }),
    }
}

pub fn class_name(r: DkimResult) -> &'static str {
    match r {
        DkimResult::None => "none",
        DkimResult::Pass => "pass",
        DkimResult::Fail => "fail",
        DkimResult::Policy => "policy",
        DkimResult::Neutral => "neutral",
        DkimResult::Temperror => "temperror",
        DkimResult::Permerror => "permerror",
    }
}

/// What the model says about one signature header in one session.
pub struct Exp {
    pub index: usize,
    pub parsed: Result<Sig, String>,
    /// Allowed verdicts.
    pub set: BTreeSet<V>,
    /// The model has no opinion on the verdict.
    pub open: bool,
    pub name: Option<String>,
    /// Whether a lookup must, may be made for this signature.
    pub must_query: bool,
    pub may_query: bool,
    pub queried: bool,
    pub answer: Option<Answer>,
    /// Policies violated at any stage (for the policy properties).
    pub violated: BTreeSet<Policy>,
    pub policies_open: bool,
    /// Records allowed with the result (`None` = no record).
    pub record_keys: Option<BTreeSet<Option<model::Record>>>,
    pub rec_count: usize,
}

pub fn is_sig_header(f: &Field) -> bool {
    f.0.eq_ignore_ascii_case("DKIM-Signature")
}

pub fn now_secs(cfg: &VCfg, nows: &[i64]) -> Vec<u64> {
    match cfg.fixed {
        Some(t) => vec![t.max(0) as u64],
        None => nows.iter().map(|t| (*t).max(0) as u64).collect(),
    }
}

pub fn expect(i: &VIn, o: &VOut, dns: &SimDns, body: &[u8]) -> Vec<Exp> {
    let queries = dns.queries(i.id);
    let nows = now_secs(&i.cfg, &o.nows);
    let cfg = &i.cfg.m;
    let mut r = vec![];
    for (index, f) in
        i.headers.iter().enumerate().filter(|(_, f)| is_sig_header(f)).take(i.cfg.max)
    {
        let mut e = Exp {
            index,
            parsed: model::parse_sig(&f.1),
            set: BTreeSet::new(),
            open: false,
            name: None,
            must_query: false,
            may_query: false,
            queried: false,
            answer: None,
            violated: BTreeSet::new(),
            policies_open: false,
            record_keys: None,
            rec_count: 0,
        };
        let sig = match &e.parsed {
            Err(_) => {
                e.set.insert(V::Format);
                r.push(e);
                continue;
            }
            Ok(s) => s.clone(),
        };
        // The two times of a signature may be judged by different readings of
        // a clock that moves meanwhile.
        let both = sig.x.is_some() && sig.t.is_some();
        let later = if both { &nows[..] } else { &nows[..1] };
        let prelims: Vec<BTreeSet<V>> = nows
            .iter()
            .flat_map(|a| later.iter().map(move |b| (*a, if both { *b } else { *a })))
            .map(|(a, b)| model::preliminary(&sig, &i.headers, cfg, a, b))
            .collect();
        for p in prelims.iter().flatten() {
            if let V::Policy(p) = p {
                e.violated.insert(*p);
            }
            e.set.insert(*p);
        }
        e.must_query = prelims.iter().all(|p| p.is_empty());
        e.may_query = prelims.iter().any(|p| p.is_empty());
        let name = format!("{}._domainkey.{}.", sig.s_ascii, sig.d_ascii);
        e.name = Some(name.clone());
        let mut qs = queries.iter().filter(|q| q.name.eq_ignore_ascii_case(&name));
        let q = qs.next().cloned();
        e.queried = q.is_some();
        // An answer right at the deadline may count as late.
        let close = q.as_ref().and_then(|q| q.done).map_or(false, |d| {
            d + Duration::from_millis(2) >= o.started.saturating_add(i.cfg.timeout)
        });
        let answer = match q {
            Some(q) => q.answer.unwrap_or(Answer::GivenUp),
            // Never asked: judge by what DNS would have said.
            None => match dns.zone_at(&name, o.started.as_millis() as u64) {
                RrSet::NxDomain => Answer::NotFound,
                RrSet::Records(r) => Answer::Records(r),
            },
        };
        // Policies that concern the key and the body.
        let body_r = model::body_causes(&sig, body, cfg);
        match &body_r {
            None => e.policies_open = true,
            Some(b) => {
                if b.contains(&V::Policy(Policy::UnsignedContent)) {
                    e.violated.insert(Policy::UnsignedContent);
                }
            }
        }
        if let Answer::Records(recs) = &answer {
            for rec in model::considered(recs) {
                if let Ok(Ok(rec)) = rec.as_ref().map(|t| model::parse_record(t)) {
                    if let Some(k) = model::decode_key(rec.rsa, &rec.key) {
                        if k.bits().map_or(false, |b| b < cfg.min_bits) {
                            e.violated.insert(Policy::KeyTooSmall);
                        }
                    }
                }
            }
        }
        e.answer = Some(answer.clone());
        if e.may_query {
            match &answer {
                Answer::NotFound => {
                    e.set.insert(V::NoKeyFound);
                }
                Answer::InvalidInput => {
                    e.set.insert(V::InvalidKeyDomain);
                }
                Answer::TimedOut | Answer::GivenUp => {
                    e.set.insert(V::Timeout);
                }
                Answer::Other => {
                    e.set.insert(V::KeyLookup);
                }
                Answer::Records(recs) if recs.is_empty() => {
                    e.set.insert(V::NoKeyFound);
                }
                Answer::Records(recs) => {
                    let cons = model::considered(recs);
                    e.rec_count = recs.len();
                    let causes: Vec<_> = cons
                        .iter()
                        .map(|rec| model::record_causes(&sig, &i.headers, index, rec, cfg))
                        .collect();
                    let key_of = |rec: &&Result<Vec<u8>, ()>| {
                        rec.as_ref().ok().and_then(|t| model::parse_record(t).ok())
                    };
                    let mut keys = BTreeSet::new();
                    if causes.iter().any(|c| c.is_empty()) {
                        for (c, rec) in causes.iter().zip(&cons) {
                            if c.is_empty() {
                                keys.insert(key_of(rec));
                            }
                        }
                        match &body_r {
                            None => e.open = true,
                            Some(b) if b.is_empty() => {
                                e.set.insert(V::Success);
                            }
                            Some(b) => e.set.extend(b),
                        }
                    } else {
                        e.set.extend(causes.last().unwrap());
                        keys.insert(key_of(cons.last().unwrap()));
                    }
                    if e.must_query {
                        e.record_keys = Some(keys);
                    }
                }
            }
        }
        if close && e.may_query {
            e.set.insert(V::Timeout);
            e.record_keys = None;
        }
        r.push(e);
    }
    r
}

/// A verdict outside the allowed set.
pub struct Mis {
    pub index: usize,
    pub set: BTreeSet<V>,
    pub got: V,
    pub text: String,
    pub rec_count: usize,
    pub exp_i: usize,
}

impl Mis {
    pub fn doms(&self) -> BTreeSet<Dom> {
        self.set
            .iter()
            .chain([&self.got])
            .filter(|v| **v != V::Success)
            .map(|v| v.dom())
            .collect()
    }
    pub fn touches(&self, ds: &[Dom]) -> bool {
        let mine = self.doms();
        ds.iter().any(|d| mine.contains(d))
    }
}

pub fn mismatches(id: usize, exps: &[Exp], results: &[VerificationResult]) -> Vec<Mis> {
    let mut v = vec![];
    for (exp_i, e) in exps.iter().enumerate() {
        let Some(r) = results.iter().find(|r| r.index == e.index) else { continue };
        let got = verdict(&r.status);
        log::count(match got.dom() {
            Dom::Success => "verdict_success",
            Dom::Format => "verdict_format",
            Dom::PolicyHeader | Dom::PolicyTime | Dom::PolicySha1 | Dom::PolicyKey
            | Dom::PolicyBody => "verdict_policy",
            Dom::DnsPermanent => "verdict_dns_permanent",
            Dom::DnsTemporary => "verdict_dns_temporary",
            Dom::Record => "verdict_record",
            Dom::Crypto => "verdict_crypto",
            Dom::Body => "verdict_body",
        });
        if e.open
            && matches!(
                got,
                V::Success | V::BodyHashMismatch | V::InsufficientContent
                    | V::Policy(Policy::UnsignedContent)
            )
        {
            continue;
        }
        if e.set.contains(&got) {
            continue;
        }
        v.push(Mis {
            index: e.index,
            set: e.set.clone(),
            got,
            text: format!(
                "session {id}, signature at header index {}: verdict {} but the model allows {:?}",
                e.index,
                show(&r.status),
                e.set
            ),
            rec_count: e.rec_count,
            exp_i,
        });
    }
    v
}

pub fn same_signature(lib: &viadkim::signature::DkimSignature, m: &Sig) -> Result<(), String> {
    use viadkim::signature::CanonicalizationAlgorithm as C;
    let c = |c: C| match c {
        C::Simple => model::Canon::Simple,
        C::Relaxed => model::Canon::Relaxed,
    };
    let chk = |ok: bool, what: &str| if ok { Ok(()) } else { Err(what.to_string()) };
    let alg = match lib.algorithm {
        viadkim::SigningAlgorithm::RsaSha256 => model::Alg::RsaSha256,
        viadkim::SigningAlgorithm::Ed25519Sha256 => model::Alg::EdSha256,
        #[cfg(feature = "pre-rfc8301")]
        viadkim::SigningAlgorithm::RsaSha1 => model::Alg::RsaSha1,
    };
    chk(alg == m.alg, "algorithm")?;
    chk(lib.signature_data[..] == m.b[..], "signature data")?;
    chk(lib.body_hash[..] == m.bh[..], "body hash")?;
    chk(c(lib.canonicalization.header) == m.hc, "header canonicalization")?;
    chk(c(lib.canonicalization.body) == m.bc, "body canonicalization")?;
    chk(model::to_ascii(lib.domain.as_ref()).as_ref() == Some(&m.d_ascii), "domain")?;
    chk(model::to_ascii(lib.selector.as_ref()).as_ref() == Some(&m.s_ascii), "selector")?;
    chk(
        lib.signed_headers.len() == m.h.len()
            && lib.signed_headers.iter().zip(&m.h).all(|(a, b)| a.as_ref() == b),
        "signed headers",
    )?;
    chk(
        match (&lib.identity, &m.i) {
            (None, None) => true,
            (Some(a), Some((lp, d))) => {
                a.local_part.as_deref() == lp.as_deref()
                    && model::to_ascii(a.domain.as_ref()) == model::to_ascii(d)
            }
            _ => false,
        },
        "identity",
    )?;
    chk(lib.body_length == m.l, "body length")?;
    chk(lib.timestamp == m.t, "timestamp")?;
    chk(lib.expiration == m.x, "expiration")?;
    chk(
        lib.copied_headers.len() == m.z.len()
            && lib
                .copied_headers
                .iter()
                .zip(&m.z)
                .all(|(a, b)| a.0.as_ref() == b.0 && a.1[..] == b.1[..]),
        "copied headers",
    )?;
    chk(
        lib.ext_tags.len() == m.ext.len()
            && lib.ext_tags.iter().all(|(n, v)| {
                m.ext.iter().any(|(mn, mv)| **n == *mn && **v == *mv)
            }),
        "extension tags",
    )?;
    Ok(())
}

/// Where the library's record differs from the model's.
pub fn record_differs(lib: &viadkim::record::DkimKeyRecord, m: &model::Record) -> Option<&'static str> {
    use viadkim::record::{SelectorFlag, ServiceType};
    let has = |s: &str| lib.hash_algorithms.iter().any(|h| h.to_string() == s);
    let notes = |n: &str| {
        model::qp_decode(n).map(|v| String::from_utf8_lossy(&v).into_owned())
    };
    if lib.key_data[..] != m.key[..] {
        return Some("key data");
    }
    if (lib.key_type == viadkim::crypto::KeyType::Rsa) != m.rsa {
        return Some("key type");
    }
    if has("sha256") != m.sha256 || has("sha1") != (model::PRE8301 && m.sha1) {
        return Some("hash algorithms");
    }
    if lib.flags.contains(&SelectorFlag::NoSubdomains) != m.strict_domain {
        return Some("strict-domain flag");
    }
    if lib.flags.contains(&SelectorFlag::Testing) != m.testing || lib.is_testing() != m.testing {
        return Some("testing flag");
    }
    if lib.service_types.contains(&ServiceType::Any) != m.any_service
        || lib.service_types.contains(&ServiceType::Email) != m.email_service
    {
        return Some("service types");
    }
    let ext = lib.ext_tags.iter().map(|(n, v)| (n.to_string(), v.to_string())).collect::<BTreeSet<_>>();
    if ext != m.ext {
        return Some("extension tags");
    }
    match (lib.notes.as_deref(), m.notes.as_deref()) {
        (None, None) => None,
        (Some(a), Some(b)) if notes(b).map_or(true, |n| n == a) => None,
        _ => Some("notes"),
    }
}

/// The header hash input a signature header stands for.
pub fn signed_input(headers: &[Field], own: Option<usize>, f: &Field) -> Option<(Sig, Vec<u8>)> {
    let sig = model::parse_sig(&f.1).ok()?;
    let input = model::header_hash_input(sig.hc, headers, own, &sig.h, &f.0, &sig.stripped);
    Some((sig, input))
}

pub fn ms(d: Duration) -> u64 {
    d.as_millis() as u64
}

#[allow(dead_code)]
pub fn instant() -> Instant {
    Instant::now()
}
