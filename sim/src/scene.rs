//! Building blocks of a simulated mail world: accounts and zones, composing and
//! signing messages, transit, verification sessions.

use crate::{
    dns::{RrSet, SimDns, Weather},
    exec,
    gen::{self, Account, Foreign, Len, Req, ReqKnobs, Ts},
    keys, log, model,
    model::{Canon, Field, Sig},
    seam::Clock,
    tape::{chance, draw, pick, range},
    world::{self, is_sig_header, Cancel, SIn, SOut, VCfg, VIn, VOut},
};
use std::{
    cell::{Cell, RefCell},
    collections::{BTreeMap, HashSet},
    rc::Rc,
    time::Duration,
};

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}

pub enum Stop {
    Violation(Violation),
    /// The harness itself is wrong or could not judge.
    Internal(String),
}

pub type R<T = ()> = Result<T, Stop>;

pub fn bad<T>(class: &str, msg: impl Into<String>) -> R<T> {
    let msg = msg.into();
    crate::ev!("VIOLATED [{class}] {msg}");
    Err(Stop::Violation(Violation { class: class.into(), msg }))
}

pub fn internal<T>(msg: impl Into<String>) -> R<T> {
    Err(Stop::Internal(msg.into()))
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Stats {
    pub virtual_ms: u64,
    pub steps: u64,
    pub contended: u64,
    pub phases: u64,
    pub verify_sessions: u64,
    pub sign_sessions: u64,
}

thread_local! {
    pub static STATS: Cell<Stats> = const { Cell::new(Stats {
        virtual_ms: 0, steps: 0, contended: 0, phases: 0, verify_sessions: 0, sign_sessions: 0,
    }) };
}

fn stat(f: impl FnOnce(&mut Stats)) {
    STATS.with(|s| {
        let mut x = s.get();
        f(&mut x);
        s.set(x);
    })
}

/// Whether a caught panic came from the harness, not from the library.
pub fn harness_panic(msg: &str) -> bool {
    msg.contains("panicked at src/") || msg.contains("/verif/sim/src/")
}

pub fn sim(setup: impl FnOnce(&exec::Spawner)) -> R {
    let cfg = exec::Config {
        spurious: *pick(&[0, 0, 10, 30]),
        yield_pct: *pick(&[0, 10, 50]),
        max_steps: 2_000_000,
        horizon: Duration::from_secs(86_400 * 400),
    };
    let rep = exec::run(cfg, setup);
    stat(|s| {
        s.virtual_ms += rep.virtual_ms;
        s.steps += rep.steps;
        s.contended += rep.contended;
        s.phases += 1;
    });
    if let Some((name, msg)) = rep.panics.first() {
        if harness_panic(msg) {
            return internal(format!("harness panic in {name}: {msg}"));
        }
        return bad("panic", format!("{name} panicked: {msg}"));
    }
    if let Some(s) = rep.stuck {
        return bad("hang", s);
    }
    Ok(())
}

// ---------------------------------------------------------------- knobs

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Times {
    /// No times in signatures.
    None,
    /// Times in signatures, but not judged.
    Loose,
    /// Times around the verifiers' clocks.
    Boundary,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Transit {
    None,
    Harmless,
    Tamper,
    Body,
    Mixed,
}

#[derive(Clone)]
pub struct Knobs {
    pub accounts: (u64, u64),
    pub rsa_pct: u32,
    pub bad_pct: u32,
    pub multi_pct: u32,
    pub nx_pct: u32,
    pub requests: (u64, u64),
    pub foreigns: (u64, u64),
    pub hops: u64,
    pub malformed_pct: u32,
    pub limit_pct: u32,
    pub odd_format_pct: u32,
    pub sign_sigs_pct: u32,
    /// Signatures must survive the addition of further signatures.
    pub intact: bool,
    pub max_headers: u64,
    pub max_body: u64,
    pub definite_body: bool,
    pub times: Times,
    pub transit: Transit,
    pub policy_pct: u32,
    pub forbid_pct: u32,
    pub max_pct: u32,
    pub sessions: (u64, u64),
    pub cancel_pct: u32,
    pub rotate_pct: u32,
    pub stop_pct: u32,
    pub junk_pct: u32,
    pub fault_pct: u32,
    pub stall_pct: u32,
    pub slow_pct: u32,
    pub garble: bool,
    pub strict_i_pct: u32,
    /// Foreign signatures with a wrong body hash, otherwise good.
    pub wrong_bh_pct: u32,
    pub clock_pct: u32,
    pub stagger_pct: u32,
}

impl Default for Knobs {
    fn default() -> Self {
        Self {
            accounts: (1, 3),
            rsa_pct: 12,
            bad_pct: 0,
            multi_pct: 0,
            nx_pct: 0,
            requests: (0, 2),
            foreigns: (0, 2),
            hops: 1,
            malformed_pct: 10,
            limit_pct: 25,
            odd_format_pct: 40,
            sign_sigs_pct: 4,
            intact: false,
            max_headers: 10,
            max_body: 60,
            definite_body: false,
            times: Times::None,
            transit: Transit::None,
            policy_pct: 0,
            forbid_pct: 20,
            max_pct: 5,
            sessions: (1, 3),
            cancel_pct: 0,
            rotate_pct: 0,
            stop_pct: 20,
            junk_pct: 5,
            fault_pct: 0,
            stall_pct: 0,
            slow_pct: 0,
            garble: false,
            strict_i_pct: 30,
            wrong_bh_pct: 5,
            clock_pct: 10,
            stagger_pct: 40,
        }
    }
}

// ---------------------------------------------------------------- scene

pub struct Msg {
    pub headers: Vec<Field>,
    pub body: Vec<u8>,
}

/// One signing session with its result.
pub struct Signed {
    pub input: SIn,
    pub out: SOut,
}

pub struct Scene {
    pub k: Knobs,
    pub dns: SimDns,
    pub accs: Vec<Account>,
    /// What key holders signed: key and hash of the exact header hash input.
    pub ghosts: HashSet<(usize, Vec<u8>)>,
    pub next_id: usize,
    /// The wall clock time the world is at.
    pub now: i64,
    pub signed: Vec<Signed>,
}

impl Scene {
    pub fn new(k: Knobs) -> Self {
        let now = match draw(8) {
            0 if k.clock_pct > 0 => draw(1000) as i64,
            1 if k.clock_pct > 0 => 4_294_967_290 + draw(20) as i64,
            _ => 1_700_000_000 + draw(1000) as i64,
        };
        let n = range(k.accounts.0, k.accounts.1) as usize;
        let accs = gen::accounts(n, k.rsa_pct);
        let dns = SimDns::new();
        let mut s = Self {
            k,
            dns,
            accs,
            ghosts: HashSet::new(),
            next_id: 0,
            now,
            signed: vec![],
        };
        for i in 0..s.accs.len() {
            s.publish(i);
        }
        s
    }

    fn publish(&mut self, i: usize) {
        let a = self.accs[i].clone();
        let name = a.dns_name();
        let one = |k: &Knobs| {
            if chance(k.nx_pct) {
                if draw(2) == 0 {
                    RrSet::NxDomain
                } else {
                    RrSet::Records(vec![])
                }
            } else {
                gen::rrset(a.key, k.bad_pct, k.multi_pct)
            }
        };
        let first = one(&self.k);
        crate::ev!("zone {name} key {}: {}", keys::all()[a.key].name, show_set(&first));
        self.dns.publish(&name, 0, first);
        if chance(self.k.rotate_pct) {
            let mut at = 0;
            for _ in 0..range(1, 3) {
                at += range(1, 3000);
                let set = match draw(4) {
                    0 => RrSet::Records(vec![Ok(gen::good_record(a.key))]),
                    1 => RrSet::Records(vec![Ok(gen::good_record(gen::any_key(self.k.rsa_pct)))]),
                    2 => RrSet::Records(vec![gen::odd_record(a.key)]),
                    _ => {
                        if draw(2) == 0 {
                            RrSet::NxDomain
                        } else {
                            RrSet::Records(vec![Ok(b"v=DKIM1; p=".to_vec())])
                        }
                    }
                };
                log::count("fault_key_rotated");
                crate::ev!("zone {name} from {at} ms: {}", show_set(&set));
                self.dns.publish(&name, at, set);
            }
        }
    }

    pub fn id(&mut self) -> usize {
        self.next_id += 1;
        self.next_id
    }

    pub fn message(&self) -> Msg {
        let headers = gen::headers(self.k.max_headers);
        let mut body = gen::body(self.k.max_body);
        if self.k.definite_body && model::canon_body(Canon::Relaxed, &body).is_none() {
            body.extend(b"\r\n");
        }
        Msg { headers, body }
    }

    pub fn account(&self) -> Account {
        pick(&self.accs).clone()
    }

    fn sig_times(&self) -> (Option<u64>, Option<u64>) {
        let now = self.now.max(0) as u64;
        let near = |x: u64| {
            let d = *pick(&[0u64, 1, 2, 5, 299, 300, 301, 600, 100_000]);
            if draw(2) == 0 {
                x.saturating_sub(d)
            } else {
                x + d
            }
        };
        match self.k.times {
            Times::None => (None, None),
            _ => {
                let t = (draw(2) == 0).then(|| near(now));
                let mut x = (draw(3) > 0).then(|| near(now));
                if let (Some(t), Some(xx)) = (t, x) {
                    if xx <= t {
                        x = Some(t + 1 + draw(3));
                    }
                }
                (t, x)
            }
        }
    }

    pub fn request(&self, msg: &Msg) -> Req {
        let k = ReqKnobs {
            limit_pct: self.k.limit_pct,
            time_pct: if self.k.times == Times::None { 0 } else { 70 },
            odd_format_pct: self.k.odd_format_pct,
            sign_sigs_pct: self.k.sign_sigs_pct,
        };
        let acc = self.account();
        let mut r = gen::request(&acc, &msg.headers, &msg.body, &k);
        if model::PRE8301 && keys::all()[r.key].is_rsa() && chance(40) {
            r.sha1 = true;
        }
        if self.k.times != Times::None && chance(60) {
            if let (Some(t), _) = self.sig_times() {
                r.ts = Ts::Exact(t);
                r.dur = Some(Duration::from_secs(*pick(&[1u64, 2, 300, 301, 600, 100_000])));
            }
        }
        r
    }

    pub fn foreign(&self, msg: &Msg) -> Option<(Foreign, Field)> {
        let acc = self.account();
        let mut f = Foreign::plain(&acc, &msg.headers);
        if chance(self.k.sign_sigs_pct) {
            f.h.push("DKIM-Signature".into());
        }
        if chance(self.k.strict_i_pct) {
            let sub = pick(&["", "", "mail.", "x.y."]);
            f.i = Some(format!("{}@{sub}{}", pick(&["", "me", "a+b"]), gen::respell(&acc.domain)));
        }
        if chance(self.k.limit_pct) {
            let c = model::canon_body(f.bc, &msg.body)?;
            f.l = Some(match draw(5) {
                0 => c.len() as u64,
                1 => (c.len() as u64).saturating_sub(draw(4)),
                2 => 0,
                _ => draw(c.len() as u64 + 1),
            });
        }
        if model::PRE8301 && keys::all()[f.key].is_rsa() && chance(40) {
            f.sha1 = true;
        }
        (f.t, f.x) = self.sig_times();
        if chance(self.k.wrong_bh_pct) && chance(30) {
            // a limit beyond the body, with the hash of what there is or of
            // what a reduced limit would cover
            let c = model::canon_body(f.bc, &msg.body)?;
            let n = draw(c.len() as u64 + 1);
            let over = match draw(6) {
                0 => c.len() as u64 + 1 + draw(3),
                1 => (1 << 16) + n,
                2 => (1 << 31) + n,
                3 => (1 << 32) + n,
                4 => (1 << 63) + n,
                _ => 256 + n,
            };
            if over > c.len() as u64 {
                f.l = Some(over);
                let cut = if chance(70) { n as usize } else { c.len() };
                f.bh = Some(model::hash(f.sha1, &c[..cut]));
                log::count("foreign_limit_beyond_body");
            }
        } else if chance(self.k.wrong_bh_pct) {
            let c = model::canon_body(f.bc, &msg.body)?;
            let c = match f.l {
                Some(l) => c.get(..usize::try_from(l).ok()?)?,
                None => &c[..],
            };
            let mut bh = model::hash(f.sha1, c);
            match draw(5) {
                0 => bh.truncate(range(1, bh.len() as u64 - 1) as usize),
                1 => bh.push(draw(256) as u8),
                2 => {
                    let i = draw(bh.len() as u64) as usize;
                    bh[i] ^= 1 << draw(8);
                }
                3 => bh = model::hash(!f.sha1, c),
                _ => bh = model::hash(f.sha1, b"something else"),
            }
            f.bh = Some(bh);
            log::count("foreign_wrong_body_hash");
        }
        f.name = pick(&["DKIM-Signature", "DKIM-Signature", "dkim-signature", "Dkim-signature"]).to_string();
        let field = gen::foreign(&f, &msg.headers, &msg.body)?;
        Some((f, field))
    }

    pub fn clock(&self) -> Rc<Clock> {
        let c = Clock::new(self.now);
        c.nanos.set(draw(4) * 333_333_333);
        if chance(self.k.clock_pct) {
            match draw(5) {
                0 => c.base.set(-(draw(100_000) as i64)),
                1 => c.base.set(0),
                2 => c.base.set(self.now + draw(100_000) as i64 - 50_000),
                _ => {
                    for _ in 0..range(1, 2) {
                        let d = *pick(&[1i64, -1, 300, -300, 86_400, -86_400, -2_000_000_000]);
                        c.steps.borrow_mut().push((range(1, 6), d));
                    }
                }
            }
        }
        c
    }

    pub fn signer_session(&mut self, msg: &Msg, reqs: Vec<Req>) -> SIn {
        SIn {
            id: self.id(),
            headers: msg.headers.clone(),
            body: msg.body.clone(),
            chunks: gen::chunks(&msg.body),
            reqs,
            stop_on_done: chance(self.k.stop_pct),
            junk_after_done: chance(self.k.junk_pct).then(|| gen::body(10)),
            clock: self.clock(),
            start_ms: if chance(self.k.stagger_pct) { draw(50) } else { 0 },
            abandon_after: None,
        }
    }

    pub fn run_signers(&mut self, ins: Vec<SIn>) -> R<BTreeMap<usize, SOut>> {
        let out: world::Shared<BTreeMap<usize, SOut>> = Default::default();
        stat(|s| s.sign_sessions += ins.len() as u64);
        sim(|sp| {
            for i in ins {
                world::spawn_sign(sp, i, out.clone());
            }
        })?;
        let r = out.borrow().clone();
        Ok(r)
    }

    pub fn run_verifiers(&mut self, ins: &[VIn]) -> R<BTreeMap<usize, VOut>> {
        let out: world::Shared<BTreeMap<usize, VOut>> = Default::default();
        stat(|s| s.verify_sessions += ins.len() as u64);
        self.dns.begin_phase();
        let dns = self.dns.clone();
        sim(|sp| {
            for i in ins {
                world::spawn_verify(sp, &dns, i.clone(), out.clone());
            }
        })?;
        let r = out.borrow().clone();
        Ok(r)
    }

    /// Records what the holder of `key` signed when producing `field`.
    pub fn ghost(&mut self, key: usize, headers: &[Field], field: &Field) {
        if let Some((_, input)) = world::signed_input(headers, None, field) {
            self.ghosts.insert((key, model::hash(false, &input)));
        }
    }

    /// Signs `msg` in hops and puts the signatures on top.
    pub fn sign(&mut self, mut msg: Msg) -> R<Msg> {
        let hops = range(1, self.k.hops);
        for hop in 0..hops {
            if hop > 0 && may_add(&msg.headers, "Received") {
                msg.headers.insert(0, ("Received".into(), b" from a by b; date".to_vec()));
            }
            let mut ins = vec![];
            let n = range(self.k.requests.0, self.k.requests.1);
            let foreigns = range(self.k.foreigns.0, self.k.foreigns.1);
            // An oversigned signature header would be broken by its neighbours.
            let last_alone = hop + 1 == hops && n + foreigns == 1;
            let oversign = last_alone || !self.k.intact;
            let mut left = n;
            while left > 0 {
                let m = range(1, left.min(10));
                left -= m;
                let mut reqs: Vec<Req> = (0..m).map(|_| self.request(&msg)).collect();
                let have = msg.headers.iter().filter(|f| is_sig_header(f)).count();
                for r in &mut reqs {
                    if let (false, Some(n)) = (oversign, &mut r.names) {
                        let mut seen = 0;
                        n.retain(|n| {
                            let is = n.eq_ignore_ascii_case("DKIM-Signature");
                            seen += is as usize;
                            !is || seen <= have
                        });
                    }
                }
                ins.push(self.signer_session(&msg, reqs));
            }
            let outs =
                if ins.is_empty() { BTreeMap::new() } else { self.run_signers(ins.clone())? };
            let mut new: Vec<Field> = vec![];
            for i in ins {
                let Some(o) = outs.get(&i.id) else { return internal("signer without result") };
                if let Some(e) = o.refused {
                    return bad("refused", format!("acceptable signing request refused: {e:?}"));
                }
                for (r, x) in i.reqs.iter().zip(o.outcomes.iter().flatten()) {
                    if let Ok(x) = x {
                        let f = (x.header_name.clone(), x.header_value.clone().into_bytes());
                        self.ghost(r.key, &i.headers, &f);
                        new.insert(draw(new.len() as u64 + 1) as usize, f);
                        log::count("signature_made");
                    }
                }
                self.signed.push(Signed { input: i, out: o.clone() });
            }
            for _ in 0..foreigns {
                let Some((f, field)) = self.foreign(&msg) else { continue };
                let want = f.h.iter().filter(|n| n.eq_ignore_ascii_case("DKIM-Signature")).count();
                let have = msg.headers.iter().filter(|f| is_sig_header(f)).count();
                if want > have {
                    if !oversign {
                        continue;
                    }
                    log::count("oversigned_signature_header");
                }
                self.ghost(f.key, &msg.headers, &field);
                new.insert(draw(new.len() as u64 + 1) as usize, field);
                log::count("foreign_signature_made");
            }
            new.extend(std::mem::take(&mut msg.headers));
            msg.headers = new;
        }
        while chance(self.k.malformed_pct) {
            let sigs: Vec<Field> =
                msg.headers.iter().filter(|f| is_sig_header(f)).cloned().collect();
            let m = gen::malformed(sigs.last());
            let at = draw(msg.headers.len() as u64 + 1) as usize;
            msg.headers.insert(at, m);
            log::count("fault_malformed_signature");
        }
        Ok(msg)
    }

    pub fn transit(&mut self, mut msg: Msg) -> Msg {
        let t = match self.k.transit {
            Transit::Mixed => {
                *pick(&[Transit::None, Transit::Harmless, Transit::Tamper, Transit::Body])
            }
            t => t,
        };
        match t {
            Transit::None | Transit::Mixed => {}
            Transit::Harmless => harmless(&mut msg),
            Transit::Tamper => {
                for _ in 0..range(1, 2) {
                    self.tamper(&mut msg);
                }
            }
            Transit::Body => msg.body = damage_body(&msg.body),
        }
        msg
    }

    // ------------------------------------------------------------ verifiers

    pub fn vcfg(&self, msg: &Msg) -> VCfg {
        let mut c = VCfg::default();
        c.timeout = Duration::from_millis(*pick(&[10_000u64, 5_000, 1_000, 300, 60_000]));
        c.m.forbid_unsigned = chance(self.k.forbid_pct);
        if self.k.times == Times::Loose {
            c.m.allow_expired = true;
            c.m.allow_future = true;
        }
        if self.k.times == Times::Boundary {
            c.m.tolerance = *pick(&[300u64, 0, 1, 299, 301, 100_000]);
            c.m.allow_expired = chance(20);
            c.m.allow_future = chance(20);
            if chance(30) {
                c.fixed = Some(match draw(4) {
                    0 => -(draw(100) as i64),
                    1 => 0,
                    _ => self.now + draw(700) as i64 - 350,
                });
            }
        }
        if chance(self.k.max_pct) {
            c.max = *pick(&[1usize, 2, 3, 0, usize::MAX]);
        } else if msg.headers.iter().filter(|f| is_sig_header(f)).count() > 10 {
            c.max = 30;
        }
        if model::PRE8301 {
            c.m.allow_sha1 = chance(70);
            c.m.min_bits = *pick(&[1024usize, 512, 0, 768]);
        }
        if chance(self.k.policy_pct) {
            let most = if chance(20) { 6 } else { 3 };
            for _ in 0..draw(most) {
                let n = pick(&msg.headers).0.clone();
                c.m.required.push(match draw(10) {
                    0 | 1 => "List-Id".into(),
                    2 => gen::near_name(&n),
                    _ => gen::recase(&n),
                });
            }
            match draw(4) {
                0 => {}
                1 => c.m.protected.clear(),
                _ => {
                    for _ in 0..draw(most) {
                        let n = &pick(&msg.headers).0;
                        c.m.protected.push(if chance(10) { gen::near_name(n) } else { gen::recase(n) });
                    }
                }
            }
            c.m.min_bits = *pick(&[1024usize, 0, 512, 1023, 1025, 2048, 2049, 1026, 1536, 1537, 4096, 100_000]);
            c.m.forbid_unsigned = draw(2) == 0;
            c.m.allow_sha1 = draw(2) == 0;
        }
        c
    }

    pub fn weather(&self, c: &VCfg) -> Weather {
        Weather {
            fault_pct: self.k.fault_pct,
            stall_pct: self.k.stall_pct,
            slow_pct: self.k.slow_pct,
            timeout_ms: c.timeout.as_millis().min(u64::MAX as u128) as u64,
            max_latency_ms: *pick(&[1u64, 20, 100, 250]),
            yield_pct: *pick(&[0, 20, 60]),
            temporary_only: false,
            garble: self.k.garble,
            usual: chance(40).then(|| *pick(&crate::dns::OTHER_KINDS)),
        }
    }

    pub fn session(&mut self, msg: &Msg) -> VIn {
        let cfg = self.vcfg(msg);
        let id = self.id();
        let w = self.weather(&cfg);
        self.dns.set_weather(id, w);
        let chunks = gen::chunks(&msg.body);
        let cancel = if chance(self.k.cancel_pct) {
            match draw(4) {
                0 => Cancel::AfterMs(draw(400)),
                1 => Cancel::AfterPolls(range(1, 6) as u32),
                2 => Cancel::AfterMs(draw(20_000)),
                _ => Cancel::InBody(draw(chunks.len() as u64 + 1) as usize),
            }
        } else {
            Cancel::No
        };
        VIn {
            id,
            label: "delivery".into(),
            headers: msg.headers.clone(),
            body: msg.body.clone(),
            deliver: chunks.len(),
            chunks,
            stop_on_done: chance(self.k.stop_pct),
            junk_after_done: chance(self.k.junk_pct).then(|| gen::body(10)),
            cfg,
            clock: self.clock(),
            start_ms: if chance(self.k.stagger_pct) { draw(4000) } else { 0 },
            cancel,
        }
    }

    fn tamper(&mut self, msg: &mut Msg) {
        log::count("fault_transit_tamper");
        let n = msg.headers.len();
        let sigs: Vec<usize> = (0..n).filter(|i| is_sig_header(&msg.headers[*i])).collect();
        match draw(20) {
            18 => look_alike(&mut msg.body),
            19 => {
                let i = draw(n as u64) as usize;
                look_alike(&mut msg.headers[i].1);
            }
            0 | 1 => msg.body = damage_body(&msg.body),
            2 => {
                let i = draw(n as u64) as usize;
                flip(&mut msg.headers[i].1);
            }
            3 => {
                if n > 1 {
                    msg.headers.remove(draw(n as u64) as usize);
                }
            }
            4 => {
                let f = pick(&msg.headers).clone();
                msg.headers.insert(draw(n as u64 + 1) as usize, f);
            }
            5 => {
                let at = if draw(2) == 0 { 0 } else { n };
                msg.headers.insert(at, (gen::recase("From"), b" evil@example.net".to_vec()));
            }
            6 => {
                let name = pick(&msg.headers).0.clone();
                let at = if draw(2) == 0 { n } else { draw(n as u64 + 1) as usize };
                msg.headers.insert(at, (name, gen::header_value()));
            }
            7 => {
                let (i, j) = (draw(n as u64) as usize, draw(n as u64) as usize);
                msg.headers.swap(i, j);
            }
            8 => {
                // same-named headers change places
                for i in 0..n {
                    for j in i + 1..n {
                        if msg.headers[i].0.eq_ignore_ascii_case(&msg.headers[j].0) && chance(50) {
                            msg.headers.swap(i, j);
                        }
                    }
                }
            }
            9 => {
                let i = draw(n as u64) as usize;
                msg.headers[i].0.push('x');
            }
            10 => {
                if let Some(&i) = sigs.first() {
                    flip(&mut msg.headers[i].1);
                }
            }
            11 | 12 | 13 => {
                if !sigs.is_empty() {
                    let i = *pick(&sigs);
                    edit_tag(&mut msg.headers[i].1, &self.accs);
                }
            }
            14 => {
                // replay the signature on other content
                for i in 0..n {
                    if !is_sig_header(&msg.headers[i]) {
                        msg.headers[i].1 = gen::header_value();
                    }
                }
            }
            15 => msg.body = gen::body(40),
            16 => {
                let i = draw(n as u64) as usize;
                msg.headers[i].1 = refold(&msg.headers[i].1);
                msg.headers[i].0 = gen::recase(&msg.headers[i].0.clone());
            }
            _ => {
                if sigs.len() >= 2 {
                    // exchange signature values
                    let (a, b) = (sigs[0], sigs[1]);
                    let (va, vb) = (tag_value(&msg.headers[a].1, "b"), tag_value(&msg.headers[b].1, "b"));
                    if let (Some(va), Some(vb)) = (va, vb) {
                        set_tag(&mut msg.headers[a].1, "b", &vb);
                        set_tag(&mut msg.headers[b].1, "b", &va);
                    }
                }
            }
        }
    }
}

pub fn show_set(s: &RrSet) -> String {
    match s {
        RrSet::NxDomain => "NXDOMAIN".into(),
        RrSet::Records(r) => crate::dns::brief(&model::Answer::Records(r.clone())),
    }
}

/// Something that a careless eye takes for the same.
fn look_alike(v: &mut Vec<u8>) {
    let blank: &[u8] = pick(&[
        &b"\xa0"[..], "\u{a0}".as_bytes(), "\u{3000}".as_bytes(), "\u{200b}".as_bytes(), b"\x0b", b"\x0c", b"\x85", b"\0", b"\x1f",
        b"\x7f", "\u{feff}".as_bytes(), "\u{2028}".as_bytes(),
    ]);
    let spaces: Vec<usize> = (0..v.len()).filter(|&i| matches!(v[i], b' ' | b'\t')).collect();
    match draw(4) {
        0 if !spaces.is_empty() => {
            let i = *pick(&spaces);
            v.splice(i..i + 1, blank.iter().copied());
        }
        1 if !spaces.is_empty() => {
            let i = *pick(&spaces) + draw(2) as usize;
            v.splice(i..i, blank.iter().copied());
        }
        2 => v.extend(blank),
        _ => {
            let i = draw(v.len() as u64 + 1) as usize;
            v.splice(i..i, blank.iter().copied());
        }
    }
}

fn flip(v: &mut Vec<u8>) {
    if v.is_empty() {
        v.push(b'x');
        return;
    }
    let i = draw(v.len() as u64) as usize;
    match draw(4) {
        0 => {
            v[i] = match v[i] {
                b'\r' | b'\n' => return,
                b'a'..=b'y' | b'A'..=b'Y' | b'0'..=b'8' => v[i] + 1,
                b'Z' => b'A',
                _ => b'q',
            }
        }
        1 => v.insert(i, *pick(b" xA=;:\t")),
        2 if v[i] != b'\r' && v[i] != b'\n' => {
            v.remove(i);
        }
        _ => {
            if v[i].is_ascii_alphabetic() {
                v[i] ^= 0x20;
            }
        }
    }
}

fn tag_value(v: &[u8], tag: &str) -> Option<String> {
    let s = std::str::from_utf8(v).ok()?;
    let t = model::parse_tags(s)?;
    t.iter().find(|t| t.name == tag).map(|t| t.value.to_string())
}

pub fn set_tag(v: &mut Vec<u8>, tag: &str, value: &str) {
    let Ok(s) = std::str::from_utf8(v) else { return };
    let Some(tags) = model::parse_tags(s) else { return };
    let Some(t) = tags.iter().find(|t| t.name == tag) else { return };
    let r = format!("{}{}{}", &s[..t.raw.0], value, &s[t.raw.1..]);
    *v = r.into_bytes();
}

fn add_tag(v: &mut Vec<u8>, tag: &str) {
    if v.ends_with(b";") {
        v.extend(format!(" {tag}").bytes());
    } else {
        v.extend(format!("; {tag}").bytes());
    }
}

fn edit_tag(v: &mut Vec<u8>, accs: &[Account]) {
    let a = pick(accs).clone();
    let cur = |t: &str| tag_value(v, t);
    match draw(14) {
        0 => set_tag(v, "d", &a.domain),
        1 => set_tag(v, "s", &a.selector),
        2 => match cur("l") {
            Some(l) => {
                let n = l.parse::<u64>().unwrap_or(0);
                let m = if draw(2) == 0 { n.saturating_sub(1) } else { n + 1 };
                set_tag(v, "l", &m.to_string())
            }
            None => add_tag(v, &format!("l={}", draw(60))),
        },
        3 => match cur("x") {
            Some(x) => set_tag(v, "x", &(x.parse::<u64>().unwrap_or(0) + 1000).to_string()),
            None => add_tag(v, "x=4000000000"),
        },
        4 => match cur("t") {
            Some(_) => set_tag(v, "t", "1"),
            None => add_tag(v, "t=1"),
        },
        5 => {
            if let Some(h) = cur("h") {
                let mut names: Vec<&str> = h.split(':').collect();
                match draw(3) {
                    0 if names.len() > 1 => {
                        names.remove(draw(names.len() as u64) as usize);
                    }
                    1 => names.push("X-Extra"),
                    _ => names.reverse(),
                }
                set_tag(v, "h", &names.join(":"));
            }
        }
        6 => {
            if let Some(c) = cur("c") {
                let n = *pick(&["simple/simple", "simple/relaxed", "relaxed/simple", "relaxed/relaxed", "relaxed", "simple"]);
                if n != c {
                    set_tag(v, "c", n);
                }
            }
        }
        7 => {
            if let Some(b) = cur("bh") {
                let mut b = b.into_bytes();
                flip(&mut b);
                set_tag(v, "bh", &String::from_utf8_lossy(&b));
            }
        }
        8 => {
            if let Some(b) = cur("b") {
                let data = if draw(2) == 0 { None } else { model::b64(&b) };
                let b = match data {
                    None => {
                        let mut b = b.into_bytes();
                        flip(&mut b);
                        b
                    }
                    // longer, shorter, shifted or changed in one bit
                    Some(mut d) => {
                        match draw(6) {
                            0 => d.push(draw(256) as u8),
                            1 => d.extend(d.clone()),
                            2 => drop(d.pop()),
                            3 => d.insert(0, 0),
                            4 if !d.is_empty() => drop(d.remove(0)),
                            _ => {
                                let i = draw(d.len().max(1) as u64) as usize;
                                d.iter_mut().skip(i).take(1).for_each(|b| *b ^= 1 << draw(8));
                            }
                        }
                        use base64ct::Encoding;
                        base64ct::Base64::encode_string(&d).into_bytes()
                    }
                };
                set_tag(v, "b", &String::from_utf8_lossy(&b));
            }
        }
        9 => match cur("i") {
            Some(_) => set_tag(v, "i", &format!("other@{}", a.domain)),
            None => add_tag(v, &format!("i=x@{}", a.domain)),
        },
        10 => add_tag(v, "ww=1"),
        11 => {
            if let Some(al) = cur("a") {
                let n = if al.to_ascii_lowercase().starts_with("rsa") { "ed25519-sha256" } else { "rsa-sha256" };
                set_tag(v, "a", n);
            }
        }
        12 => {
            // an extra white space somewhere between tags
            if let Some(p) = v.iter().position(|b| *b == b';') {
                v.insert(p + 1, b' ');
            }
        }
        _ => {
            if let Some(d) = cur("d") {
                set_tag(v, "d", &format!("sub.{d}"));
            }
        }
    }
}

pub fn damage_body(b: &[u8]) -> Vec<u8> {
    log::count("fault_body_damaged");
    let mut v = b.to_vec();
    let n = v.len() as u64;
    match draw(10) {
        0 => {
            v.truncate(draw(n + 1) as usize);
        }
        1 => {
            let k = n - draw(4.min(n + 1));
            v.truncate(k as usize);
        }
        2 => v.extend(gen::body(10)),
        3 => v.push(*pick(b"x \r\n\0")),
        4 => v.extend(b"\r\n\r\n"),
        5 => {
            if n > 0 {
                let i = draw(n) as usize;
                v[i] ^= 1 << draw(8);
            }
        }
        6 => {
            let i = draw(n + 1) as usize;
            v.insert(i, *pick(b"x \t\r\n."));
        }
        7 => {
            if n > 0 {
                v.remove(draw(n) as usize);
            }
        }
        8 => {
            if n > 0 {
                let i = draw(n) as usize;
                v[i..].rotate_left(1);
            }
        }
        _ => v.extend(b" trailing\r\n"),
    }
    v
}

/// Refolds white space without changing the relaxed form.
pub fn refold(v: &[u8]) -> Vec<u8> {
    let is = |b: u8| matches!(b, b' ' | b'\t' | b'\r' | b'\n');
    let start = v.iter().position(|b| !is(*b));
    let Some(start) = start else { return v.to_vec() };
    let end = v.iter().rposition(|b| !is(*b)).unwrap() + 1;
    let mut r = vec![];
    if chance(60) {
        r.extend(&v[..start]);
    } else {
        r.extend(pick(&["", " ", "\t", "\r\n ", "  "]).bytes());
    }
    let mid = &v[start..end];
    let mut i = 0;
    while i < mid.len() {
        if is(mid[i]) {
            let mut j = i;
            while j < mid.len() && is(mid[j]) {
                j += 1;
            }
            if chance(50) {
                r.extend(pick(&[" ", "\t", "  ", "\r\n ", " \r\n\t", "\r\n  "]).bytes());
            } else {
                r.extend(&mid[i..j]);
            }
            i = j;
        } else {
            r.push(mid[i]);
            i += 1;
        }
    }
    if v[end - 1] == b';' {
        r.extend(&v[end..]);
    } else {
        r.extend(pick(&["", " ", "\t "]).bytes());
    }
    r
}

fn relax_body(b: &[u8]) -> Vec<u8> {
    let is = |b: u8| matches!(b, b' ' | b'\t');
    let mut r = vec![];
    let mut rest = b;
    while let Some(p) = rest.windows(2).position(|w| w == b"\r\n") {
        let line = &rest[..p];
        let mut i = 0;
        while i < line.len() {
            if is(line[i]) {
                let mut j = i;
                while j < line.len() && is(line[j]) {
                    j += 1;
                }
                if j == line.len() {
                    r.extend(pick(&["", " ", "\t\t"]).bytes());
                } else {
                    r.extend(pick(&[" ", "\t", "   ", " \t"]).bytes());
                }
                i = j;
            } else {
                r.push(line[i]);
                i += 1;
            }
        }
        if chance(20) {
            r.push(b' ');
        }
        r.extend(b"\r\n");
        rest = &rest[p + 2..];
    }
    r.extend(rest);
    r
}

pub fn covered(headers: &[Field], own: usize, h: &[String]) -> Vec<usize> {
    let mut used: Vec<usize> = vec![];
    for name in h {
        if let Some(i) = (0..headers.len())
            .rev()
            .find(|i| *i != own && !used.contains(i) && headers[*i].0.eq_ignore_ascii_case(name))
        {
            used.push(i);
        }
    }
    used
}

fn parsed(headers: &[Field]) -> Vec<(usize, Sig)> {
    headers
        .iter()
        .enumerate()
        .filter(|(_, f)| is_sig_header(f))
        .filter_map(|(i, f)| Some((i, model::parse_sig(&f.1).ok()?)))
        .collect()
}

/// Whether a header added on top leaves every signature intact.
fn may_add(headers: &[Field], name: &str) -> bool {
    let have = headers.iter().filter(|f| f.0.eq_ignore_ascii_case(name)).count();
    parsed(headers)
        .iter()
        .all(|(_, s)| s.h.iter().filter(|h| h.eq_ignore_ascii_case(name)).count() <= have)
}

/// Changes that no signature on the message covers.
pub fn harmless(msg: &mut Msg) {
    for _ in 0..range(1, 5) {
        let sigs = parsed(&msg.headers);
        let n = msg.headers.len();
        match draw(7) {
            0 => {
                let name = *pick(&["Received", "Authentication-Results", "X-Spam", "Return-Path", "Subject"]);
                if may_add(&msg.headers, name) {
                    msg.headers.insert(0, (gen::recase(name), gen::header_value()));
                    log::count("transit_trace_header");
                }
            }
            1 => {
                let free: Vec<usize> = (0..n)
                    .filter(|i| {
                        !is_sig_header(&msg.headers[*i])
                            && !msg.headers[*i].0.eq_ignore_ascii_case("from")
                            && sigs.iter().all(|(o, s)| !covered(&msg.headers, *o, &s.h).contains(i))
                    })
                    .collect();
                if !free.is_empty() {
                    let i = *pick(&free);
                    if draw(2) == 0 {
                        msg.headers[i].1 = gen::header_value();
                    } else {
                        msg.headers.remove(i);
                    }
                    log::count("transit_unsigned_header");
                }
            }
            2 => {
                if n > 1 {
                    for _ in 0..range(1, 6) {
                        let i = draw(n as u64 - 1) as usize;
                        if !msg.headers[i].0.eq_ignore_ascii_case(&msg.headers[i + 1].0) {
                            msg.headers.swap(i, i + 1);
                            log::count("transit_reorder");
                        }
                    }
                }
            }
            3 => {
                let mut b = msg.body.clone();
                for _ in 0..range(1, 4) {
                    b.extend(b"\r\n");
                }
                replace_body(msg, b, &sigs);
            }
            4 | 5 => {
                for i in 0..n {
                    if !chance(40) {
                        continue;
                    }
                    let own_ok = sigs.iter().all(|(o, s)| *o != i || s.hc == Canon::Relaxed);
                    let cov_ok = sigs.iter().all(|(o, s)| {
                        s.hc == Canon::Relaxed || !covered(&msg.headers, *o, &s.h).contains(&i)
                    });
                    if own_ok && cov_ok {
                        msg.headers[i].1 = refold(&msg.headers[i].1);
                        msg.headers[i].0 = gen::recase(&msg.headers[i].0.clone());
                        log::count("transit_refold");
                    }
                }
            }
            _ => {
                let b = relax_body(&msg.body);
                replace_body(msg, b, &sigs);
            }
        }
    }
}

fn replace_body(msg: &mut Msg, b: Vec<u8>, sigs: &[(usize, Sig)]) {
    let same = sigs.iter().all(|(_, s)| {
        let (x, y) = (model::canon_body(s.bc, &msg.body), model::canon_body(s.bc, &b));
        x.is_some() && x == y
    });
    if same {
        msg.body = b;
        log::count("transit_body");
    }
}

/// The limits of a request, as body hash selection.
pub fn req_is_unlimited(r: &Req) -> bool {
    !matches!(r.len, Len::Exact(_))
}

/// How many canonical body bytes are certain to have been received after
/// `prefix`, whatever follows.
pub fn certain(c: Canon, prefix: &[u8]) -> u64 {
    let mut end = prefix.len();
    while end > 0 && matches!(prefix[end - 1], b' ' | b'\t' | b'\r' | b'\n') {
        end -= 1;
    }
    if end == 0 {
        return 0;
    }
    model::canon_body(c, &prefix[..end]).map_or(0, |v| v.len() as u64 - 2)
}

pub fn concat(chunks: &[Vec<u8>]) -> Vec<u8> {
    chunks.concat()
}

pub type Outs<T> = RefCell<BTreeMap<usize, T>>;
