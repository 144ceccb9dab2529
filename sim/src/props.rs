//! Per-property scenarios and oracles.

use crate::{
    dns::{Fault, Plan, RrSet, Weather},
    gen::{self, Foreign, Len, Req, ReqKnobs, Ts},
    keys, log,
    model::{self, Answer, Canon, Dom, Policy, V},
    scene::*,
    seam,
    tape::{chance, draw, pick, range},
    world::{self, is_sig_header, ms, verdict, Cancel, Exp, Mis, SIn, SOut, VCfg, VIn, VOut},
};
use std::{
    collections::{BTreeMap, BTreeSet},
    time::Duration,
};
use viadkim::{
    verifier::{VerificationResult, VerificationStatus},
    RequestError, SigningError, SigningOutput,
};

pub const IDS: [&str; 22] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13",
    "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22",
];

const SLACK: Duration = Duration::from_millis(5);

/// Marks the run as having exercised what the property is about.
fn hit(what: &'static str) {
    log::count(what);
}

/// One judged verification session.
struct J<'a> {
    i: &'a VIn,
    o: &'a VOut,
    exps: Vec<Exp>,
    results: &'a [VerificationResult],
}

impl J<'_> {
    fn mis(&self) -> Vec<Mis> {
        world::mismatches(self.i.id, &self.exps, self.results)
    }
}

fn judge<'a>(sc: &Scene, ins: &'a [VIn], outs: &'a BTreeMap<usize, VOut>) -> R<Vec<J<'a>>> {
    let mut v = vec![];
    for i in ins {
        let Some(o) = outs.get(&i.id) else { return internal(format!("no record of session {}", i.id)) };
        if o.rejected {
            continue;
        }
        let exps = world::expect(i, o, &sc.dns, &i.body);
        let results = o.results.as_deref().unwrap_or(&[]);
        v.push(J { i, o, exps, results });
    }
    Ok(v)
}

fn no_mismatch(js: &[J], doms: &[Dom], class: &str, also: impl Fn(&Mis, &Exp) -> bool) -> R {
    for j in js {
        for m in j.mis() {
            if m.touches(doms) && also(&m, &j.exps[m.exp_i]) {
                return bad(class, m.text);
            }
        }
    }
    Ok(())
}

/// Composes, signs, transports and delivers as the knobs say.
fn mail(k: Knobs) -> R<(Scene, Vec<VIn>, BTreeMap<usize, VOut>)> {
    let mut sc = Scene::new(k);
    let msg = sc.message();
    let msg = sc.sign(msg)?;
    let msg = sc.transit(msg);
    let n = range(sc.k.sessions.0, sc.k.sessions.1);
    let mut ins = vec![];
    for _ in 0..n {
        let i = sc.session(&msg);
        ins.push(i);
    }
    let outs = sc.run_verifiers(&ins)?;
    Ok((sc, ins, outs))
}

pub fn run(prop: &str, thorough: bool) -> R {
    // Deeper worlds in the thorough tier, and occasionally in the quick one.
    let deep = thorough && chance(40);
    let mut k = Knobs::default();
    if deep {
        k.accounts = (1, 6);
        k.requests = (0, 6);
        k.foreigns = (0, 5);
        k.hops = 3;
        k.max_headers = 40;
        k.max_body = 400;
        k.sessions = (1, 8);
    }
    match prop {
        "C01" => c01(k),
        "C02" => c02(k),
        "C03" => c03(k),
        "C04" => c04(k),
        "C05" => c05(k),
        "C06" => c06(k),
        "C07" => c07(k),
        "C08" => c08(k),
        "C09" => c09(k),
        "C10" => c10(k),
        "C11" => c11(k),
        "C12" => c12(k),
        "C13" => c13(k),
        "C14" => c14(k),
        "C15" => c15(k),
        "C16" => c16(k),
        "C17" => c17(k),
        "C18" => c18(k),
        "C19" => c19(k),
        "C20" => c20(k, thorough),
        "C21" => c21(k),
        "C22" => c22(k),
        _ => internal(format!("unknown property {prop}")),
    }
}

/// The property-specific measure of whether a run was non-trivial.
pub fn relevant(prop: &str) -> &'static str {
    match prop {
        "C01" => "hash_compared_split",
        "C02" => "early_stop_compared",
        "C03" => "length_or_damage_judged",
        "C04" => "tampered_judged",
        "C05" => "roundtrip_judged",
        "C06" => "dns_outcome_judged",
        "C07" => "slow_lookup_judged",
        "C08" => "concurrent_lookups_judged",
        "C09" => "queries_judged",
        "C10" => "mixed_results_judged",
        "C11" => "signature_time_judged",
        "C12" => "stamp_judged",
        "C13" => "policy_judged",
        "C14" => "record_judged",
        "C15" => "multi_record_judged",
        "C16" => "compared_alone",
        "C17" => "abandoned_or_finished_with_lookups",
        "C18" => "hostile_input_survived",
        "C19" => "equal_inputs_compared",
        "C20" => "stream_measured",
        "C21" => "request_compared_alone",
        _ => "retry_compared",
    }
}

// ---------------------------------------------------------------- C01

fn canon_lib(c: viadkim::signature::CanonicalizationAlgorithm) -> Canon {
    match c {
        viadkim::signature::CanonicalizationAlgorithm::Simple => Canon::Simple,
        viadkim::signature::CanonicalizationAlgorithm::Relaxed => Canon::Relaxed,
    }
}

/// The body hash and covered length a request must give; `Ok(None)` if open.
fn want_hash(r: &Req, body: &[u8]) -> Option<Result<(Vec<u8>, u64), ()>> {
    let c = model::canon_body(r.bc, body)?;
    Some(match r.len {
        Len::Exact(n) if n > c.len() as u64 => Err(()),
        Len::Exact(n) => Ok((model::hash(r.sha1, &c[..n as usize]), n)),
        _ => Ok((model::hash(r.sha1, &c), c.len() as u64)),
    })
}

fn check_body_hashes(i: &SIn, o: &SOut) -> R {
    let Some(outs) = &o.outcomes else { return Ok(()) };
    for (n, (r, x)) in i.reqs.iter().zip(outs).enumerate() {
        let Some(want) = want_hash(r, &i.body) else { continue };
        if i.chunks.len() > 1 {
            hit("hash_compared_split");
        }
        match (x, &want) {
            (Ok(s), Ok((h, l))) => {
                if s.signature.body_hash[..] != h[..] {
                    return bad("body-hash", format!(
                        "sign#{} request {n} ({:?}, {:?}): body hash is not that of the canonical body",
                        i.id, r.bc, r.len
                    ));
                }
                if r.len != Len::NoLimit && s.signature.body_length != Some(*l) {
                    return bad("length", format!(
                        "sign#{} request {n} ({:?}): l= is {:?}, covered {l}",
                        i.id, r.len, s.signature.body_length
                    ));
                }
            }
            (Err(SigningError::InsufficientContent), Err(())) => {}
            (Err(e), Ok(_)) => {
                return bad("body-hash", format!(
                    "sign#{} request {n} ({:?}, {:?}) failed with {e:?} though the body suffices",
                    i.id, r.bc, r.len
                ));
            }
            (Ok(_), Err(())) => {
                return bad("body-hash", format!(
                    "sign#{} request {n} ({:?}) signed though the body is too short", i.id, r.len
                ));
            }
            (Err(e), Err(())) => {
                return bad("body-hash", format!(
                    "sign#{} request {n} ({:?}): {e:?} instead of insufficient content", i.id, r.len
                ));
            }
        }
    }
    Ok(())
}

fn c01(mut k: Knobs) -> R {
    k.limit_pct = 60;
    k.requests = (1, 8);
    k.max_headers = 1;
    k.max_body = if chance(10) { 2000 } else { 120 };
    k.rsa_pct = if model::PRE8301 { 30 } else { 0 };
    k.malformed_pct = 0;
    k.stop_pct = 0;
    k.junk_pct = 0;
    k.hops = 1;
    k.foreigns = (0, 6);
    k.sessions = (1, 3);
    k.odd_format_pct = 0;
    let mut sc = Scene::new(k);
    let msg = sc.message();
    let body = msg.body.clone();
    let reqs: Vec<Req> = (0..range(1, 8))
        .map(|_| {
            let mut r = sc.request(&msg);
            r.copy = false;
            r
        })
        .collect();
    let mut ins: Vec<SIn> = (0..range(1, 3)).map(|_| sc.signer_session(&msg, reqs.clone())).collect();
    // the first session gets the body in one piece
    ins[0].chunks = vec![body.clone()];
    let outs = sc.run_signers(ins.clone())?;
    for i in &ins {
        check_body_hashes(i, &outs[&i.id])?;
    }
    // Also where the canonical form is open the split must not matter.
    let base = body_hashes(&outs[&ins[0].id]);
    for i in &ins[1..] {
        let this = body_hashes(&outs[&i.id]);
        if i.chunks.len() > 1 {
            hit("hash_compared_split");
        }
        if base != this {
            return bad("split", format!("sign#{}: body hashes differ from the unsplit run", i.id));
        }
    }
    // The verifying side: several signatures share one stream.
    let mut m = Msg { headers: msg.headers.clone(), body };
    for _ in 0..range(0, sc.k.foreigns.1) {
        if let Some((_, f)) = sc.foreign(&msg) {
            m.headers.insert(0, f);
        }
    }
    for x in outs[&ins[0].id].outcomes.iter().flatten().flatten() {
        m.headers.insert(0, (x.header_name.clone(), x.header_value.clone().into_bytes()));
    }
    if chance(25) {
        m.body = damage_body(&m.body);
    }
    let mut vs: Vec<VIn> = vec![];
    for _ in 0..range(1, 3) {
        let mut i = sc.session(&m);
        i.cfg.max = 30;
        vs.push(i);
    }
    vs[0].chunks = vec![m.body.clone()];
    vs[0].deliver = 1;
    let (sha1, bits) = (vs[0].cfg.m.allow_sha1, vs[0].cfg.m.min_bits);
    for i in &mut vs {
        (i.cfg.m.allow_sha1, i.cfg.m.min_bits) = (sha1, bits);
    }
    let vouts = sc.run_verifiers(&vs)?;
    let js = judge(&sc, &vs, &vouts)?;
    no_mismatch(&js, &[Dom::Body, Dom::PolicyBody], "verifier-hash", |_, _| true)?;
    for j in &js {
        if j.i.chunks.len() > 1 {
            hit("hash_compared_split");
        }
        for other in &js {
            if other.i.cfg.m.forbid_unsigned == j.i.cfg.m.forbid_unsigned {
                for (a, b) in j.results.iter().zip(other.results) {
                    if a.status != b.status {
                        return bad("split", format!(
                            "sessions {} and {}: verdict at {} depends on the split: {} / {}",
                            j.i.id, other.i.id, a.index, world::show(&a.status), world::show(&b.status)
                        ));
                    }
                }
            }
        }
    }
    Ok(())
}

fn body_hashes(o: &SOut) -> Vec<Result<(Vec<u8>, Option<u64>), SigningError>> {
    o.outcomes
        .iter()
        .flatten()
        .map(|x| match x {
            Ok(s) => Ok((s.signature.body_hash.to_vec(), s.signature.body_length)),
            Err(e) => Err(*e),
        })
        .collect()
}

// ---------------------------------------------------------------- C02

fn limits_of(i: &VIn, results: &[VerificationResult]) -> Vec<(Option<u64>, Canon)> {
    let _ = i;
    results
        .iter()
        .filter(|r| {
            matches!(
                verdict(&r.status),
                V::Success | V::BodyHashMismatch | V::InsufficientContent
                    | V::Policy(Policy::UnsignedContent)
            )
        })
        .filter_map(|r| r.signature.as_ref())
        .map(|s| (s.body_length, canon_lib(s.canonicalization.body)))
        .collect()
}

fn check_stances(
    who: &str,
    chunks: &[Vec<u8>],
    stances: &[bool],
    limits: &[(Option<u64>, Canon)],
) -> R {
    let unlimited = limits.iter().any(|l| l.0.is_none());
    let mut prefix = vec![];
    for (n, (c, done)) in chunks.iter().zip(stances).enumerate() {
        prefix.extend_from_slice(c);
        if *done && unlimited {
            return bad("done-early", format!(
                "{who}: done after chunk {} though a request without limit is outstanding", n + 1
            ));
        }
        // (of very many chunks, a part of them)
        let look = n < 200 || n % 97 == 0 || n + 1 == stances.len();
        if look && !*done && !unlimited && limits.iter().all(|l| prefix.len() as u64 > l.0.unwrap()) {
            let beyond = limits.iter().all(|(l, c)| certain(*c, &prefix) > l.unwrap());
            if beyond {
                return bad("done-late", format!(
                    "{who}: not done after chunk {} though every request ({limits:?}) has content beyond its limit",
                    n + 1
                ));
            }
        }
        if *done {
            hit("done_reported");
            break;
        }
    }
    Ok(())
}

fn c02(mut k: Knobs) -> R {
    k.limit_pct = 85;
    k.rsa_pct = 3;
    k.max_headers = 3;
    k.max_body = 100;
    k.malformed_pct = 10;
    k.bad_pct = 25;
    k.times = if chance(20) { Times::Boundary } else { Times::None };
    k.forbid_pct = 50;
    k.stop_pct = 0;
    k.junk_pct = 0;
    k.clock_pct = 0;
    k.stagger_pct = 0;
    k.odd_format_pct = 0;
    k.max_pct = 0;
    let mut sc = Scene::new(k);
    let msg = sc.message();
    // Signers.
    let mut reqs: Vec<Req> = (0..range(1, 4)).map(|_| sc.request(&msg)).collect();
    if chance(70) {
        for r in &mut reqs {
            if !matches!(r.len, Len::Exact(_)) {
                r.len = Len::Exact(gen::limit(&msg.body));
            }
        }
    }
    let mut base = sc.signer_session(&msg, reqs.clone());
    base.chunks = vec![msg.body.clone()];
    let mut ins = vec![base.clone()];
    for n in 0..4 {
        let mut i = base.clone();
        i.id = sc.id();
        i.clock = crate::seam::Clock::new(sc.now);
        i.chunks = gen::chunks(&msg.body);
        i.stop_on_done = n % 2 == 0;
        i.junk_after_done = (n == 1).then(|| gen::body(20));
        ins.push(i);
    }
    ins[0].clock = crate::seam::Clock::new(sc.now);
    let outs = sc.run_signers(ins.clone())?;
    let full = &outs[&ins[0].id];
    let lim: Vec<_> = reqs.iter().map(|r| (r.limit(), r.bc)).collect();
    for i in &ins {
        let o = &outs[&i.id];
        check_stances(&format!("sign#{}", i.id), &i.chunks, &o.stances, &lim)?;
        if o.done_seen && (i.stop_on_done || i.junk_after_done.is_some()) {
            hit("early_stop_compared");
        }
        if o.outcomes != full.outcomes && reqs.iter().all(|r| r.ts != Ts::Now) {
            return bad("sign-differs", format!(
                "sign#{}: stopping after done (or feeding more) changed the outcome", i.id
            ));
        }
        check_body_hashes(i, o)?;
    }
    // Verifiers.
    let msg = sc.sign(msg)?;
    let mut m = sc.transit(msg);
    if chance(40) {
        m.body = damage_body(&m.body);
    }
    let base = sc.session(&m);
    let mut vs = vec![];
    for n in 0..5 {
        let mut i = base.clone();
        i.id = sc.id();
        i.clock = crate::seam::Clock::new(sc.now);
        i.start_ms = 0;
        sc.dns.set_weather(i.id, Weather::default());
        if n == 0 {
            i.chunks = vec![m.body.clone()];
        } else {
            i.chunks = gen::chunks(&m.body);
        }
        i.deliver = i.chunks.len();
        i.stop_on_done = n == 1 || n == 3;
        i.junk_after_done = (n == 2).then(|| gen::body(20));
        vs.push(i);
    }
    let outs = sc.run_verifiers(&vs)?;
    let Some(full) = outs[&vs[0].id].results.clone() else { return Ok(()) };
    let lim = limits_of(&vs[0], &full);
    for i in &vs {
        let o = &outs[&i.id];
        check_stances(&format!("session {}", i.id), &i.chunks, &o.stances, &lim)?;
        if lim.is_empty() && o.stances.first() == Some(&false) {
            return bad("done-late", format!("session {}: no request needs the body, but not done", i.id));
        }
        if o.done_seen && (i.stop_on_done || i.junk_after_done.is_some()) {
            hit("early_stop_compared");
        }
        if o.results.as_ref() != Some(&full) {
            return bad("verify-differs", format!(
                "session {}: results differ from those for the whole body (stop {}, more {})",
                i.id, i.stop_on_done, i.junk_after_done.is_some()
            ));
        }
    }
    let js = judge(&sc, &vs, &outs)?;
    no_mismatch(&js, &[Dom::Body, Dom::PolicyBody], "verify-body", |_, _| true)
}

// ---------------------------------------------------------------- C03

fn c03(mut k: Knobs) -> R {
    k.wrong_bh_pct = 20;
    k.limit_pct = 70;
    k.rsa_pct = 3;
    k.max_headers = 3;
    k.max_body = 80;
    k.forbid_pct = 50;
    k.malformed_pct = 3;
    k.odd_format_pct = 5;
    k.max_pct = 0;
    let mut sc = Scene::new(k);
    let msg = sc.message();
    let msg = sc.sign(msg)?;
    let mut vs = vec![];
    for _ in 0..range(2, 5) {
        let mut m = Msg { headers: msg.headers.clone(), body: msg.body.clone() };
        match draw(4) {
            0 => {}
            1 => {
                // the stream ends early
                log::count("fault_body_cut");
                m.body.truncate(draw(msg.body.len() as u64 + 1) as usize);
            }
            2 => {
                log::count("fault_body_appended");
                m.body.extend(gen::body(6));
            }
            _ => m.body = damage_body(&m.body),
        }
        let i = sc.session(&m);
        vs.push(i);
    }
    let outs = sc.run_verifiers(&vs)?;
    let js = judge(&sc, &vs, &outs)?;
    for j in &js {
        if j.exps.iter().any(|e| {
            e.parsed.as_ref().map_or(false, |s| s.l.is_some()) || j.i.body != msg.body
        }) {
            hit("length_or_damage_judged");
        }
    }
    no_mismatch(&js, &[Dom::Body, Dom::PolicyBody], "body-verdict", |_, _| true)?;
    check_classes(&js, &[Dom::Body, Dom::PolicyBody])
}

/// Correct verdicts must also map to their result class.
fn check_classes(js: &[J], doms: &[Dom]) -> R {
    for j in js {
        for r in j.results {
            let v = verdict(&r.status);
            if !doms.contains(&v.dom()) {
                continue;
            }
            if let Some(want) = v.class() {
                let got = world::class_name(r.status.to_dkim_result());
                if got != want {
                    return bad("class", format!(
                        "session {}: {} at {} is classified as {got}, not {want}",
                        j.i.id, world::show(&r.status), r.index
                    ));
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C04

fn c04(mut k: Knobs) -> R {
    k.wrong_bh_pct = 12;
    k.transit = if chance(80) { Transit::Tamper } else { Transit::Body };
    k.requests = (0, 3);
    k.foreigns = (0, 3);
    k.hops = 2;
    k.malformed_pct = 5;
    k.times = if chance(20) { Times::Loose } else { Times::None };
    k.bad_pct = 10;
    k.multi_pct = 10;
    k.garble = true;
    k.fault_pct = if chance(20) { 20 } else { 0 };
    k.max_headers = 8;
    k.sign_sigs_pct = 15;
    k.max_pct = 0;
    let (sc, ins, outs) = mail(k)?;
    let js = judge(&sc, &ins, &outs)?;
    not_forged(&sc, &js)
}

fn not_forged(sc: &Scene, js: &[J]) -> R {
    for j in js {
        for e in &j.exps {
            let Some(r) = j.results.iter().find(|r| r.index == e.index) else { continue };
            if e.set.iter().any(|v| matches!(v.dom(), Dom::Crypto | Dom::Body | Dom::Format)) {
                hit("tampered_judged");
            }
            if verdict(&r.status) != V::Success {
                continue;
            }
            if !e.open
                && !e.set.contains(&V::Success)
                && e.set.iter().any(|v| {
                    matches!(
                        v.dom(),
                        Dom::Format | Dom::DnsPermanent | Dom::DnsTemporary | Dom::Record
                            | Dom::Crypto | Dom::Body
                    )
                })
            {
                return bad("forged", format!(
                    "session {}: signature at {} passes, the model says {:?}", j.i.id, e.index, e.set
                ));
            }
            // Independently: some holder of a published key signed exactly this.
            let f = &j.i.headers[e.index];
            let Some((sig, input)) = world::signed_input(&j.i.headers, Some(e.index), f) else {
                return bad("forged", format!("session {}: unparsable signature at {} passes", j.i.id, e.index));
            };
            let h = model::hash(false, &input);
            let published: Vec<Vec<u8>> = match &e.answer {
                Some(Answer::Records(rs)) => rs
                    .iter()
                    .filter_map(|r| r.as_ref().ok())
                    .filter_map(|t| model::parse_record(t).ok())
                    .map(|r| r.key)
                    .collect(),
                _ => vec![],
            };
            let known = keys::all().iter().enumerate().any(|(n, key)| {
                sc.ghosts.contains(&(n, h.clone()))
                    && published.iter().any(|p| *p == key.usual || *p == key.other)
            });
            if !known {
                return bad("forged", format!(
                    "session {}: signature at {} passes, but nobody with a key published at {:?} signed this",
                    j.i.id, e.index, e.name
                ));
            }
            if let Some(c) = model::canon_body(sig.bc, &j.i.body) {
                let c = match sig.l {
                    Some(l) => c.get(..l as usize).map(|c| c.to_vec()),
                    None => Some(c),
                };
                if c.map(|c| model::hash(sig.alg.is_sha1(), &c)) != Some(sig.bh.clone()) {
                    return bad("forged", format!(
                        "session {}: signature at {} passes with another body", j.i.id, e.index
                    ));
                }
            }
            hit("pass_attributed");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C05

/// RFC 6376, section 5.4.1.
const DEFAULT_SIGNED: [&str; 19] = [
    "From", "Reply-To", "Subject", "Date", "To", "Cc", "Resent-Date", "Resent-From", "Resent-To",
    "Resent-Cc", "In-Reply-To", "References", "List-Id", "List-Help", "List-Unsubscribe",
    "List-Subscribe", "List-Post", "List-Owner", "List-Archive",
];

fn check_parse_back(r: &Req, i: &SIn, x: &SigningOutput) -> R {
    let who = format!("sign#{}", i.id);
    let parsed: viadkim::signature::DkimSignature = match x.header_value.parse() {
        Ok(s) => s,
        Err(e) => return bad("parse-back", format!("{who}: produced header does not parse: {e:?}: {:?}", x.header_value)),
    };
    if viadkim::header::FieldBody::new(x.header_value.as_bytes()).is_err() {
        return bad("parse-back", format!("{who}: produced header is not well-formed: {:?}", x.header_value));
    }
    if x.header_name != r.header_name {
        return bad("parse-back", format!("{who}: header name {:?}, requested {:?}", x.header_name, r.header_name));
    }
    let m = match model::parse_sig(x.header_value.as_bytes()) {
        Ok(m) => m,
        Err(e) => return bad("parse-back", format!("{who}: produced header is not a signature ({e}): {:?}", x.header_value)),
    };
    for (what, s) in [("parsed", &parsed), ("returned", &x.signature)] {
        if let Err(e) = world::same_signature(s, &m) {
            return bad("parse-back", format!("{who}: {what} signature data has another {e} than the header {:?}", x.header_value));
        }
    }
    if r.ascii && !x.header_value.is_ascii() {
        // names stay out of it: identity, tags and headers may only be escaped
        let allowed = r.ext.iter().any(|(_, v)| !v.is_ascii());
        if !allowed {
            return bad("parse-back", format!("{who}: ASCII-only header is not ASCII: {:?}", x.header_value));
        }
    }
    // What was asked for.
    let ok = |c: bool, what: &str| {
        if c {
            Ok(())
        } else {
            bad("request", format!("{who}: the signature has another {what} than requested: {:?}", x.header_value))
        }
    };
    ok(Some(&m.d_ascii) == model::to_ascii(&r.domain).as_ref(), "domain")?;
    ok(Some(&m.s_ascii) == model::to_ascii(&r.selector).as_ref(), "selector")?;
    ok(m.hc == r.hc && m.bc == r.bc, "canonicalization")?;
    ok(m.alg.is_rsa() == keys::all()[r.key].is_rsa() && m.alg.is_sha1() == r.sha1, "algorithm")?;
    match &r.names {
        Some(n) => ok(m.h == *n, "set of signed headers")?,
        None => {
            // every instance of a header in the default set is named, and no other
            let sorted = |names: Vec<String>| {
                let mut v: Vec<_> = names.into_iter().map(|n| n.to_ascii_lowercase()).collect();
                v.sort();
                v
            };
            let want = i.headers.iter().map(|f| f.0.clone())
                .filter(|n| DEFAULT_SIGNED.iter().any(|d| d.eq_ignore_ascii_case(n)));
            ok(sorted(m.h.clone()) == sorted(want.collect()), "set of signed headers")?;
        }
    }
    match &r.identity {
        None => ok(m.i.is_none(), "identity")?,
        Some(id) => {
            let (lp, d) = id.rsplit_once('@').unwrap();
            ok(
                m.i.as_ref().map_or(false, |(a, b)| {
                    a.as_deref().unwrap_or("") == lp && model::to_ascii(b) == model::to_ascii(d)
                }),
                "identity",
            )?;
        }
    }
    ok(m.l.is_some() == (r.len != Len::NoLimit), "body length")?;
    if let Ts::Exact(t) = r.ts {
        ok(m.t == Some(t), "timestamp")?;
    }
    ok(m.t.is_some() == (r.ts != Ts::None), "timestamp")?;
    ok(m.x.is_some() == r.dur.is_some(), "expiration")?;
    if r.copy {
        let want: Vec<_> = i
            .headers
            .iter()
            .filter(|f| m.h.iter().any(|h| h.eq_ignore_ascii_case(&f.0)))
            .collect();
        ok(
            m.z.len() == want.len()
                && m.z.iter().zip(&want).all(|(a, b)| {
                    a.0.eq_ignore_ascii_case(&b.0) && a.1 == b.1
                }),
            "list of copied headers",
        )?;
    } else {
        ok(m.z.is_empty(), "list of copied headers")?;
    }
    let strip = |s: &str| -> String { s.to_string() };
    ok(
        m.ext.len() == r.ext.len()
            && r.ext.iter().all(|(n, v)| m.ext.iter().any(|(a, b)| a == n && strip(b) == strip(v))),
        "extension tags",
    )?;
    hit("parse_back_checked");
    Ok(())
}

fn c05(mut k: Knobs) -> R {
    k.wrong_bh_pct = 0;
    k.transit = if chance(85) { Transit::Harmless } else { Transit::None };
    k.requests = (1, 4);
    k.foreigns = (0, 3);
    k.hops = 2;
    k.malformed_pct = 0;
    k.definite_body = true;
    k.limit_pct = 20;
    k.odd_format_pct = 70;
    k.times = if chance(50) { Times::Loose } else { Times::None };
    k.rsa_pct = 20;
    k.sign_sigs_pct = 10;
    k.intact = true;
    k.max_pct = 0;
    k.forbid_pct = 0;
    k.max_headers = 10;
    let mut sc = Scene::new(k);
    let msg = sc.message();
    // A signature that signs signature headers covers the existing ones only.
    let sc_sign = |sc: &mut Scene, msg: Msg| -> R<Msg> { sc.sign(msg) };
    let msg = sc_sign(&mut sc, msg)?;
    for s in &sc.signed {
        for (r, x) in s.input.reqs.iter().zip(s.out.outcomes.iter().flatten()) {
            match x {
                Ok(x) => check_parse_back(r, &s.input, x)?,
                Err(SigningError::InsufficientContent)
                    if matches!(want_hash(r, &s.input.body), Some(Err(()))) => {}
                Err(e) => {
                    return bad("not-signed", format!("sign#{}: {e:?} for an acceptable request", s.input.id))
                }
            }
        }
    }
    let pristine = Msg { headers: msg.headers.clone(), body: msg.body.clone() };
    let msg = sc.transit(msg);
    let mut vs = vec![];
    for n in 0..range(2, 3) {
        let m = if n == 0 { &pristine } else { &msg };
        let mut i = sc.session(m);
        i.cfg.m.allow_expired = true;
        i.cfg.m.allow_future = true;
        i.cfg.m.allow_sha1 = true;
        i.cfg.m.min_bits = 1024;
        i.cfg.m.protected = vec![];
        vs.push(i);
    }
    let outs = sc.run_verifiers(&vs)?;
    let js = judge(&sc, &vs, &outs)?;
    let success = BTreeSet::from([V::Success]);
    for (n, j) in js.iter().enumerate() {
        for e in &j.exps {
            let Some(r) = j.results.iter().find(|r| r.index == e.index) else {
                return bad("lost", format!("session {}: no result for the signature at {}", j.i.id, e.index));
            };
            // Signed with SHA-1, and the domain's record rules that out.
            if e.set == BTreeSet::from([V::DisallowedHash]) {
                continue;
            }
            if r.status != VerificationStatus::Success {
                return bad("not-passing", format!(
                    "session {}: valid signature at {} does not pass after harmless transit: {} ({:?}: {:?})",
                    j.i.id, e.index, world::show(&r.status), e.set,
                    String::from_utf8_lossy(&j.i.headers[e.index].1)
                ));
            }
            if e.set != success && !e.open {
                if n == 0 {
                    return bad("not-verifiable", format!(
                        "the reference cannot verify the fresh signature at {}: {:?}: {:?}",
                        e.index, e.set, String::from_utf8_lossy(&j.i.headers[e.index].1)
                    ));
                }
                return internal(format!(
                    "transit meant to be harmless was not: {:?} at {} of {:?}", e.set, e.index, j.i.headers
                ));
            }
            hit("roundtrip_judged");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C06

fn c06(mut k: Knobs) -> R {
    k.accounts = (2, 5);
    k.foreigns = (1, 5);
    k.requests = (0, 2);
    k.rsa_pct = 3;
    k.fault_pct = *pick(&[60, 30, 90]);
    k.stall_pct = *pick(&[0, 10]);
    k.slow_pct = *pick(&[0, 20]);
    k.nx_pct = 15;
    k.multi_pct = 25;
    k.bad_pct = 10;
    k.limit_pct = 5;
    k.max_headers = 4;
    k.max_body = 12;
    k.malformed_pct = 5;
    k.max_pct = 0;
    let (sc, ins, outs) = mail(k)?;
    let js = judge(&sc, &ins, &outs)?;
    for j in &js {
        for e in &j.exps {
            if e.set.iter().any(|v| matches!(v.dom(), Dom::DnsPermanent | Dom::DnsTemporary)) {
                hit("dns_outcome_judged");
            }
        }
    }
    let d = [Dom::DnsPermanent, Dom::DnsTemporary];
    no_mismatch(&js, &d, "dns-verdict", |_, _| true)?;
    check_classes(&js, &d)
}

// ---------------------------------------------------------------- C07

fn c07(mut k: Knobs) -> R {
    k.accounts = (1, 6);
    k.foreigns = (1, 6);
    k.requests = (0, 1);
    k.rsa_pct = 3;
    k.stall_pct = *pick(&[30, 10, 100, 0]);
    k.slow_pct = *pick(&[30, 60, 0]);
    k.fault_pct = *pick(&[0, 20]);
    k.limit_pct = 5;
    k.max_headers = 3;
    k.max_body = 10;
    k.malformed_pct = 3;
    k.max_pct = 0;
    let mut sc = Scene::new(k);
    let msg = sc.message();
    let msg = sc.sign(msg)?;
    let mut ins = vec![];
    for _ in 0..range(1, 3) {
        let mut i = sc.session(&msg);
        i.cfg.timeout = Duration::from_millis(*pick(&[
            1000u64, 10_000, 50, 1, 0, 5_000, 9_999, 10_001, 30_000, 120_000, 86_400_000,
        ]));
        let w = sc.weather(&i.cfg);
        sc.dns.set_weather(i.id, w);
        ins.push(i);
    }
    let outs = sc.run_verifiers(&ins)?;
    let js = judge(&sc, &ins, &outs)?;
    for j in &js {
        let Some(done) = j.o.header_done else { continue };
        let took = done - j.o.started;
        let t = j.i.cfg.timeout;
        let qs = sc.dns.queries(j.i.id);
        if took > t + SLACK {
            return bad("late", format!(
                "session {}: header verification took {} ms with a lookup timeout of {} ms",
                j.i.id, ms(took), ms(t)
            ));
        }
        for q in &qs {
            if let Some(d) = q.dropped {
                hit("slow_lookup_judged");
                if d + SLACK < j.o.started + t {
                    return bad("gave-up", format!(
                        "session {}: lookup of {} was given up after {} of {} ms",
                        j.i.id, q.name, ms(d - j.o.started), ms(t)
                    ));
                }
            } else if q.done.map_or(false, |d| d - j.o.started > t / 3) {
                hit("slow_lookup_judged");
            }
        }
        // Results: stalled lookups time out, answered ones are evaluated.
        for m in j.mis() {
            let name = &j.exps[m.exp_i].name;
            let q = qs.iter().find(|q| Some(&q.name) == name.as_ref());
            if m.set.contains(&V::Timeout) || m.got == V::Timeout || q.map_or(false, |q| q.dropped.is_some()) {
                return bad("timeout-verdict", m.text);
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C08

fn c08(mut k: Knobs) -> R {
    k.accounts = (2, 12);
    k.foreigns = (2, 14);
    k.requests = (0, 1);
    k.rsa_pct = 0;
    k.stall_pct = *pick(&[0, 0, 10]);
    k.slow_pct = *pick(&[0, 30]);
    k.fault_pct = *pick(&[0, 20]);
    k.limit_pct = 5;
    k.max_headers = 3;
    k.max_body = 6;
    k.malformed_pct = 3;
    k.max_pct = 0;
    let mut sc = Scene::new(k);
    let msg = sc.message();
    let msg = sc.sign(msg)?;
    let mut ins = vec![];
    for _ in 0..range(1, 2) {
        let mut i = sc.session(&msg);
        i.cfg.timeout = Duration::from_millis(*pick(&[60_000u64, 10_000, 86_400_000, 2_000]));
        let mut w = sc.weather(&i.cfg);
        w.max_latency_ms = *pick(&[100u64, 1000, 1500]);
        sc.dns.set_weather(i.id, w);
        ins.push(i);
    }
    let outs = sc.run_verifiers(&ins)?;
    let js = judge(&sc, &ins, &outs)?;
    for j in &js {
        let Some(done) = j.o.header_done else { continue };
        let qs = sc.dns.queries(j.i.id);
        if qs.len() >= 2 {
            hit("concurrent_lookups_judged");
        }
        let slack = Duration::from_millis(3);
        for q in &qs {
            let p = q.polled.unwrap_or(Duration::MAX);
            if p > j.o.started + slack {
                return bad("sequential", format!(
                    "session {}: lookup of {} started {} after the verification",
                    j.i.id, q.name,
                    q.polled.map_or("never".into(), |p| format!("{} ms", ms(p - j.o.started)))
                ));
            }
        }
        let last = qs.iter().filter_map(|q| q.done.or(q.dropped)).max().unwrap_or(j.o.started);
        if done > last.max(j.o.started) + slack {
            return bad("late", format!(
                "session {}: finished {} ms after the slowest lookup", j.i.id, ms(done - last)
            ));
        }
    }
    no_mismatch(
        &js,
        &[Dom::DnsPermanent, Dom::DnsTemporary, Dom::Record, Dom::Crypto],
        "order",
        |_, _| true,
    )
}

// ---------------------------------------------------------------- C09

fn c09(mut k: Knobs) -> R {
    k.accounts = (1, 5);
    k.foreigns = (0, 6);
    k.requests = (0, 3);
    k.rsa_pct = 3;
    k.bad_pct = 15;
    k.fault_pct = *pick(&[0, 20]);
    k.limit_pct = 10;
    k.policy_pct = *pick(&[0, 50]);
    k.times = if chance(40) { Times::Boundary } else { Times::None };
    k.clock_pct = 10;
    k.max_pct = 25;
    k.malformed_pct = 30;
    k.max_headers = 6;
    k.max_body = 10;
    k.cancel_pct = *pick(&[0, 0, 30]);
    let (sc, ins, outs) = mail(k)?;
    let js = judge(&sc, &ins, &outs)?;
    for j in &js {
        let qs = sc.dns.queries(j.i.id);
        let cancelled = j.o.cancelled.is_some() && j.o.header_done.is_none();
        let mut counts: BTreeMap<&str, usize> = BTreeMap::new();
        for q in &qs {
            *counts.entry(&q.name).or_default() += 1;
        }
        for (name, n) in &counts {
            let may = j.exps.iter().any(|e| e.may_query && e.name.as_deref() == Some(*name));
            if !may {
                return bad("needless-query", format!(
                    "session {}: query {name:?} is not what any acceptable signature needs", j.i.id
                ));
            }
            if *n > 1 {
                return bad("repeated-query", format!("session {}: {n} queries for {name:?}", j.i.id));
            }
        }
        for e in &j.exps {
            if e.must_query && !cancelled && !counts.contains_key(e.name.as_deref().unwrap()) {
                return bad("missing-query", format!(
                    "session {}: no query for {:?}", j.i.id, e.name
                ));
            }
        }
        hit("queries_judged");
    }
    no_mismatch(
        &js,
        &[Dom::DnsPermanent, Dom::DnsTemporary, Dom::Record, Dom::Crypto],
        "shared-answer",
        |m, e| {
            e.may_query
                && js.iter().filter(|j| j.results.iter().any(|r| r.index == m.index)).any(|j| {
                    j.exps.iter().filter(|x| x.name == e.name && x.may_query).count() > 1
                })
        },
    )
}

// ---------------------------------------------------------------- C10

fn c10(mut k: Knobs) -> R {
    k.accounts = (1, 5);
    k.foreigns = (0, 6);
    k.requests = (0, 3);
    k.rsa_pct = 3;
    k.bad_pct = 25;
    k.multi_pct = 10;
    k.fault_pct = 25;
    k.stall_pct = 5;
    k.policy_pct = 30;
    k.times = if chance(30) { Times::Boundary } else { Times::None };
    k.max_pct = 40;
    k.malformed_pct = 50;
    k.transit = Transit::Mixed;
    k.max_headers = 8;
    k.max_body = 20;
    k.stop_pct = 30;
    k.limit_pct = 30;
    let mut sc = Scene::new(k);
    let msg = sc.message();
    let msg = sc.sign(msg)?;
    let msg = sc.transit(msg);
    let mut ins = vec![];
    for _ in 0..range(1, 3) {
        let mut i = sc.session(&msg);
        // however much of the body is delivered
        if chance(40) {
            i.deliver = draw(i.chunks.len() as u64 + 1) as usize;
            i.chunks.truncate(i.deliver);
            i.body = concat(&i.chunks);
            log::count("fault_body_cut");
        }
        ins.push(i);
    }
    let outs = sc.run_verifiers(&ins)?;
    for i in &ins {
        let o = &outs[&i.id];
        if o.rejected {
            continue;
        }
        let want: Vec<usize> = i
            .headers
            .iter()
            .enumerate()
            .filter(|(_, f)| is_sig_header(f))
            .map(|(n, _)| n)
            .take(i.cfg.max)
            .collect();
        if want.is_empty() != o.none {
            return bad("none", format!(
                "session {}: {} selected signatures, but returned {}",
                i.id, want.len(), if o.none { "nothing" } else { "a verifier" }
            ));
        }
        let Some(rs) = &o.results else {
            if o.none {
                continue;
            }
            return internal("session without results");
        };
        let got: Vec<usize> = rs.iter().map(|r| r.index).collect();
        if got != want {
            return bad("results", format!("session {}: results for {got:?}, selected {want:?}", i.id));
        }
        if want.len() > 1 {
            hit("mixed_results_judged");
        }
        for r in rs {
            let m = model::parse_sig(&i.headers[r.index].1);
            match (&m, &r.signature) {
                (Ok(m), Some(s)) => {
                    if let Err(e) = world::same_signature(s, m) {
                        return bad("signature", format!(
                            "session {}: result for {} carries another {e} than its header", i.id, r.index
                        ));
                    }
                    if matches!(r.status, VerificationStatus::Failure(viadkim::VerificationError::DkimSignatureFormat(_))) {
                        return bad("signature", format!("session {}: parsed signature at {} reported malformed", i.id, r.index));
                    }
                }
                (Ok(_), None) => {
                    return bad("signature", format!(
                        "session {}: no signature data for the parsable header at {}: {}",
                        i.id, r.index, world::show(&r.status)
                    ));
                }
                (Err(_), Some(_)) => {
                    return bad("signature", format!(
                        "session {}: signature data for the malformed header at {}", i.id, r.index
                    ));
                }
                (Err(e), None) => {
                    if let VerificationStatus::Failure(viadkim::VerificationError::DkimSignatureFormat(d)) = &r.status {
                        // the excerpts given with the error are the header's own
                        let s = std::str::from_utf8(&i.headers[r.index].1).unwrap_or("");
                        let tags = model::parse_tags(s).unwrap_or_default();
                        for (n, v) in [
                            ("a", &d.algorithm_str), ("b", &d.signature_data_str), ("d", &d.domain_str),
                            ("i", &d.identity_str), ("s", &d.selector_str),
                        ] {
                            if let Some(v) = v {
                                if !tags.iter().any(|t| t.name == n && t.value == &**v) {
                                    return bad("signature", format!(
                                        "session {}: the error for {} quotes {n}={v}, not in its header", i.id, r.index
                                    ));
                                }
                            }
                        }
                    }
                    if verdict(&r.status) != V::Format {
                        return bad("signature", format!(
                            "session {}: malformed header ({e}) at {} reported as {}",
                            i.id, r.index, world::show(&r.status)
                        ));
                    }
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C11

fn c11(mut k: Knobs) -> R {
    k.accounts = (1, 2);
    k.foreigns = (1, 4);
    k.requests = (0, 2);
    k.rsa_pct = 2;
    k.times = Times::Boundary;
    k.clock_pct = 35;
    k.limit_pct = 5;
    k.max_headers = 2;
    k.max_body = 6;
    k.malformed_pct = 0;
    k.max_pct = 0;
    k.odd_format_pct = 10;
    k.sessions = (1, 4);
    let mut sc = Scene::new(k);
    let msg = sc.message();
    let mut msg = sc.sign(msg)?;
    let mut ins = vec![];
    for _ in 0..range(1, 4) {
        let mut i = sc.session(&msg);
        // put one more signature exactly at this verifier's boundary
        if chance(60) {
            let now = match i.cfg.fixed {
                Some(t) => t.max(0),
                None => i.clock.peek().max(0) + (i.start_ms / 1000) as i64,
            } as u64;
            if chance(25) {
                // only whole seconds of the tolerance count
                i.cfg.tolerance_ms = *pick(&[500u64, 1, 999]);
            }
            let tol = i.cfg.m.tolerance;
            let acc = sc.account();
            let mut f = Foreign::plain(&acc, &msg.headers[msg.headers.len() - 1..]);
            f.h = vec!["From".into()];
            if !msg.headers.iter().any(|h| h.0.eq_ignore_ascii_case("from")) {
                continue;
            }
            let off = draw(3) as i128 - 1;
            let at = |v: i128| v.max(0).min(1 << 50) as u64;
            if draw(2) == 0 {
                f.x = Some(at(now as i128 - tol as i128 + off));
            } else {
                f.t = Some(at(now as i128 + tol as i128 + off));
            }
            let froms: Vec<_> =
                msg.headers.iter().filter(|h| !is_sig_header(h)).cloned().collect();
            if let Some(field) = gen::foreign(&f, &froms, &msg.body) {
                sc.ghost(f.key, &froms, &field);
                msg.headers.insert(0, field);
                log::count("boundary_signature");
            }
            i.headers = msg.headers.clone();
        }
        i.cfg.max = 20;
        ins.push(i);
    }
    let outs = sc.run_verifiers(&ins)?;
    let js = judge(&sc, &ins, &outs)?;
    for j in &js {
        if j.exps.iter().any(|e| e.parsed.as_ref().map_or(false, |s| s.t.is_some() || s.x.is_some())) {
            hit("signature_time_judged");
        }
    }
    no_mismatch(&js, &[Dom::PolicyTime], "time-verdict", |_, _| true)?;
    check_classes(&js, &[Dom::PolicyTime])
}

// ---------------------------------------------------------------- C12

fn c12(mut k: Knobs) -> R {
    k.rsa_pct = 2;
    k.limit_pct = 0;
    k.max_headers = 2;
    k.max_body = 4;
    k.odd_format_pct = 20;
    k.clock_pct = 70;
    let mut sc = Scene::new(k);
    let msg = sc.message();
    let mut ins = vec![];
    for _ in 0..range(1, 4) {
        let mut reqs: Vec<Req> = vec![];
        for _ in 0..range(1, 5) {
            let mut r = sc.request(&msg);
            r.ts = match draw(4) {
                0 | 1 => Ts::Now,
                2 => Ts::None,
                _ => Ts::Exact(match draw(4) {
                    0 => 0,
                    1 => u64::MAX - draw(3),
                    _ => 1_700_000_000 + draw(1000),
                }),
            };
            r.dur = match draw(6) {
                0 => None,
                1 => Some(Duration::from_millis(range(1000, 3999))),
                2 => Some(Duration::from_secs(432_000)),
                3 => Some(Duration::new(1, 999_999_999)),
                4 => Some(Duration::from_secs(u64::MAX - draw(3))),
                _ => Some(Duration::from_secs(range(1, 100))),
            };
            reqs.push(r);
        }
        if chance(8) {
            // a validity of no whole second: refused, or else judged like any other
            let n = draw(reqs.len() as u64) as usize;
            reqs[n].dur = Some(Duration::from_millis(*pick(&[1u64, 0, 500, 999])));
            hit("sub_second_validity");
        }
        let mut i = sc.signer_session(&msg, reqs);
        if chance(40) {
            i.clock.steps.borrow_mut().clear();
            for _ in 0..range(1, 4) {
                let d = *pick(&[1i64, -1, 2, -3, 3600, -3600, 100_000_000, -3_000_000_000]);
                i.clock.steps.borrow_mut().push((range(1, 12), d));
            }
        }
        i.clock.nanos.set(draw(2) * 999_999_999);
        // body arrives while the clock goes on
        i.start_ms = draw(3000);
        ins.push(i);
    }
    let outs = sc.run_signers(ins.clone())?;
    for i in &ins {
        let o = &outs[&i.id];
        log::count_n("fault_clock_step", i.clock.steps_fired.get());
        let pos = |t: i64| t.max(0) as u64;
        let shown: BTreeSet<u64> = o.readings.iter().map(|t| pos(*t)).collect();
        if o.refused.is_some() && i.reqs.iter().any(|r| r.dur.map_or(false, |d| d.as_secs() == 0)) {
            continue;
        }
        for (r, x) in i.reqs.iter().zip(o.outcomes.iter().flatten()) {
            let Ok(x) = x else {
                return bad("not-signed", format!("sign#{}: {:?}", i.id, x));
            };
            let m = match model::parse_sig(x.header_value.as_bytes()) {
                Ok(m) => Some((m.t, m.x)),
                Err(e) => {
                    // x= may equal t= only at the end of time
                    let max = matches!(r.ts, Ts::Exact(u64::MAX)) && r.dur.is_some();
                    if !max {
                        return bad("expires-at-once", format!("sign#{}: {e}: {:?}", i.id, x.header_value));
                    }
                    None
                }
            };
            let (t, xp) = (x.signature.timestamp, x.signature.expiration);
            if m.map_or(false, |m| m != (t, xp)) {
                return bad("stamp", format!("sign#{}: header and returned times differ", i.id));
            }
            match r.ts {
                Ts::None => {
                    if t.is_some() {
                        return bad("stamp", format!("sign#{}: unrequested timestamp {t:?}", i.id));
                    }
                }
                Ts::Exact(e) => {
                    if t != Some(e) {
                        return bad("stamp", format!("sign#{}: timestamp {t:?}, requested {e}", i.id));
                    }
                }
                Ts::Now => {
                    if !t.map_or(false, |t| shown.contains(&t)) {
                        return bad("stamp", format!(
                            "sign#{}: timestamp {t:?}, the clock showed {shown:?} during signing", i.id
                        ));
                    }
                }
            }
            match (r.dur, xp) {
                (None, None) => {}
                (Some(d), Some(xp)) => {
                    let ok = match t {
                        Some(t) => xp == t.saturating_add(d.as_secs()),
                        None => shown.iter().any(|s| xp == s.saturating_add(d.as_secs())),
                    };
                    if !ok {
                        return bad("expiration", format!(
                            "sign#{}: expiration {xp} for timestamp {t:?}, duration {} s, clock readings {shown:?}",
                            i.id, d.as_secs()
                        ));
                    }
                    if t.map_or(false, |t| xp <= t && t != u64::MAX) {
                        return bad("expiration", format!("sign#{}: expires at {xp}, stamped {t:?}", i.id));
                    }
                }
                _ => return bad("expiration", format!("sign#{}: expiration {xp:?}, requested {:?}", i.id, r.dur)),
            }
            hit("stamp_judged");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C13

fn c13(mut k: Knobs) -> R {
    k.accounts = (1, 3);
    k.foreigns = (0, 4);
    k.requests = (0, 2);
    k.rsa_pct = 40;
    k.multi_pct = 15;
    k.policy_pct = 85;
    k.forbid_pct = 50;
    k.limit_pct = 40;
    k.times = if chance(40) { Times::Boundary } else { Times::None };
    k.transit = if chance(30) { Transit::Mixed } else { Transit::None };
    k.max_headers = 6;
    k.max_body = 20;
    k.malformed_pct = 3;
    k.max_pct = 0;
    k.odd_format_pct = 10;
    let mut sc = Scene::new(k);
    // weak keys that hold valid signatures
    if chance(50) {
        let n = sc.accs.len();
        let mut a = sc.accs[draw(n as u64) as usize].clone();
        a.key = keys::RSA_WEAK[draw(5) as usize];
        a.selector = "weak".into();
        let rec = if draw(2) == 0 { keys::all()[a.key].usual_b64() } else { keys::all()[a.key].other_b64() };
        let mut recs = vec![Ok(format!("p={rec}").into_bytes())];
        for _ in 0..draw(3) {
            // it is not the only one
            let r = if draw(2) == 0 { gen::odd_record(a.key) } else { Ok(gen::good_record(gen::any_key(50))) };
            recs.insert(draw(recs.len() as u64 + 1) as usize, r);
        }
        sc.dns.publish(&a.dns_name(), 0, RrSet::Records(recs));
        sc.accs.push(a);
        log::count("weak_key_published");
    }
    let msg = sc.message();
    let msg = sc.sign(msg)?;
    let msg = sc.transit(msg);
    let mut ins = vec![];
    for _ in 0..range(2, 4) {
        let i = sc.session(&msg);
        ins.push(i);
    }
    let outs = sc.run_verifiers(&ins)?;
    let js = judge(&sc, &ins, &outs)?;
    for j in &js {
        for e in &j.exps {
            let Some(r) = j.results.iter().find(|r| r.index == e.index) else { continue };
            let got = verdict(&r.status);
            let pol = e.set.iter().any(|v| matches!(v, V::Policy(_) | V::InsufficientKeySize));
            if pol || matches!(got, V::Policy(_)) {
                hit("policy_judged");
            }
            if got == V::Success && !e.open && !e.set.contains(&V::Success) && pol {
                return bad("bypassed", format!(
                    "session {}: signature at {} passes, but {:?} applies", j.i.id, e.index, e.set
                ));
            }
            if let V::Policy(p) = got {
                if !e.violated.contains(&p) && !(p == Policy::UnsignedContent && e.policies_open) {
                    return bad("invented", format!(
                        "session {}: {p:?} reported at {}, violated are {:?}", j.i.id, e.index, e.violated
                    ));
                }
            }
            if got == V::InsufficientKeySize && !e.set.contains(&got) {
                return bad("invented", format!(
                    "session {}: key at {} reported too small, model: {:?}", j.i.id, e.index, e.set
                ));
            }
        }
    }
    check_classes(&js, &[Dom::PolicyHeader, Dom::PolicyTime, Dom::PolicySha1, Dom::PolicyKey, Dom::PolicyBody])
}

// ---------------------------------------------------------------- C14

fn records_returned(js: &[J], multi_only: bool) -> R {
    for j in js {
        for e in &j.exps {
            let Some(want) = &e.record_keys else { continue };
            if multi_only && e.rec_count < 2 {
                continue;
            }
            let Some(r) = j.results.iter().find(|r| r.index == e.index) else { continue };
            if e.answer == Some(Answer::GivenUp) || verdict(&r.status) == V::Timeout {
                continue;
            }
            let got = r.key_record.as_deref();
            if !want.iter().any(|w| match (got, w) {
                (None, None) => true,
                (Some(a), Some(b)) => world::record_differs(a, b).is_none(),
                _ => false,
            }) {
                let how = got.and_then(|a| want.iter().flatten().find_map(|b| world::record_differs(a, b)));
                return bad("record", format!(
                    "session {}: result for {} ({}) comes with {} key record{}",
                    j.i.id, e.index, world::show(&r.status),
                    if got.is_some() { "another" } else { "no" },
                    how.map_or(String::new(), |h| format!(" (other {h})"))
                ));
            }
        }
    }
    Ok(())
}

fn c14(mut k: Knobs) -> R {
    k.accounts = (1, 4);
    k.foreigns = (0, 4);
    k.requests = (0, 2);
    k.rsa_pct = 30;
    k.bad_pct = 60;
    k.multi_pct = 5;
    k.rotate_pct = *pick(&[0, 50, 100]);
    k.limit_pct = 5;
    k.strict_i_pct = 60;
    k.max_headers = 3;
    k.max_body = 8;
    k.malformed_pct = 0;
    k.max_pct = 0;
    k.odd_format_pct = 5;
    k.garble = chance(30);
    k.fault_pct = if k.garble { 30 } else { 0 };
    k.sessions = (2, 5);
    k.stagger_pct = 80;
    let (sc, ins, outs) = mail(k)?;
    let js = judge(&sc, &ins, &outs)?;
    for j in &js {
        for e in &j.exps {
            if e.record_keys.is_some() {
                hit("record_judged");
            }
        }
    }
    no_mismatch(&js, &[Dom::Record], "record-verdict", |_, _| true)?;
    records_returned(&js, false)?;
    check_classes(&js, &[Dom::Record])
}

// ---------------------------------------------------------------- C15

fn c15(mut k: Knobs) -> R {
    k.accounts = (1, 3);
    k.foreigns = (1, 4);
    k.requests = (0, 1);
    k.rsa_pct = 25;
    k.multi_pct = 90;
    k.bad_pct = 50;
    k.policy_pct = if chance(25) { 60 } else { 0 };
    k.limit_pct = 5;
    k.max_headers = 3;
    k.max_body = 8;
    k.malformed_pct = 0;
    k.max_pct = 0;
    k.odd_format_pct = 5;
    k.strict_i_pct = 50;
    k.garble = chance(30);
    k.fault_pct = if k.garble { 30 } else { 0 };
    k.transit = if chance(20) { Transit::Tamper } else { Transit::None };
    let (sc, ins, outs) = mail(k)?;
    let js = judge(&sc, &ins, &outs)?;
    for j in &js {
        if j.exps.iter().any(|e| e.rec_count >= 2) {
            hit("multi_record_judged");
        }
    }
    no_mismatch(&js, &[Dom::Record, Dom::Crypto, Dom::PolicyKey], "multi-record", |m, _| m.rec_count >= 2)?;
    records_returned(&js, true)
}

// ---------------------------------------------------------------- C16

fn freeze_answers(sc: &Scene, from: usize, to: usize) {
    let qs = sc.dns.queries(from);
    let mut s = sc.dns.shared.lock().unwrap();
    for q in qs {
        let a = q.answer.clone().unwrap_or(Answer::GivenUp);
        let key = (to, q.name.clone());
        if a == Answer::GivenUp {
            s.plans.insert(key, Plan { yields: 0, latency_ms: 0, fault: Fault::Stall, form: 0 });
        } else {
            s.plans.insert(key.clone(), Plan { yields: 0, latency_ms: 0, fault: Fault::None, form: 0 });
            s.scripted.insert(key, a);
        }
    }
    s.weather.remove(&to);
}

fn same_results(a: &VOut, b: &VOut) -> bool {
    a.none == b.none && a.results == b.results
}

fn c16(mut k: Knobs) -> R {
    k.accounts = (1, 4);
    k.foreigns = (0, 3);
    k.requests = (0, 2);
    k.rsa_pct = 5;
    k.bad_pct = 20;
    k.multi_pct = 15;
    k.fault_pct = 15;
    k.stall_pct = 5;
    k.rotate_pct = 60;
    k.limit_pct = 25;
    k.policy_pct = 15;
    k.times = if chance(30) { Times::Boundary } else { Times::None };
    k.clock_pct = 15;
    k.max_headers = 5;
    k.max_body = 25;
    k.malformed_pct = 8;
    k.transit = Transit::Mixed;
    k.cancel_pct = 20;
    let mut sc = Scene::new(k);
    // several messages, some delivered repeatedly
    let mut msgs = vec![];
    for _ in 0..range(1, 3) {
        let m = sc.message();
        let m = sc.sign(m)?;
        let m = sc.transit(m);
        msgs.push(m);
    }
    let mut vs: Vec<VIn> = vec![];
    let n_sess = range(2, if sc.k.sessions.1 > 3 { 12 } else { 6 });
    for _ in 0..n_sess {
        let m = pick(&msgs);
        let mut i = sc.session(&Msg { headers: m.headers.clone(), body: m.body.clone() });
        i.clock.steps.borrow_mut().clear();
        vs.push(i);
    }
    // and signers at the same time
    let mut ss: Vec<SIn> = vec![];
    for _ in 0..draw(3) {
        let m = sc.message();
        let reqs: Vec<Req> = (0..range(1, 3)).map(|_| sc.request(&m)).collect();
        let mut s = sc.signer_session(&m, reqs);
        s.clock = seam::Clock::new(sc.now);
        s.start_ms = draw(3000);
        if chance(15) {
            s.abandon_after = Some(draw(s.chunks.len() as u64 + 1) as usize);
        }
        ss.push(s);
    }
    let sout: world::Shared<BTreeMap<usize, SOut>> = Default::default();
    let vout: world::Shared<BTreeMap<usize, VOut>> = Default::default();
    sc.dns.begin_phase();
    let dns = sc.dns.clone();
    sim(|sp| {
        for i in &vs {
            world::spawn_verify(sp, &dns, i.clone(), vout.clone());
        }
        for i in &ss {
            world::spawn_sign(sp, i.clone(), sout.clone());
        }
    })?;
    let vout = vout.borrow().clone();
    let sout = sout.borrow().clone();
    let js = judge(&sc, &vs, &vout)?;
    // every verification consults the resolver anew
    for j in &js {
        if j.o.header_done.is_none() {
            continue;
        }
        let qs = sc.dns.queries(j.i.id);
        for e in &j.exps {
            if e.must_query && !qs.iter().any(|q| Some(&q.name) == e.name.as_ref()) {
                return bad("remembered", format!(
                    "session {}: did not ask for {:?} anew", j.i.id, e.name
                ));
            }
        }
    }
    // each session alone, on the answers it got
    for i in &vs {
        let o = &vout[&i.id];
        if o.rejected {
            continue;
        }
        let mut a = i.clone();
        a.id = sc.id();
        a.cancel = Cancel::No;
        a.start_ms = 0;
        a.stop_on_done = false;
        a.junk_after_done = None;
        a.chunks = vec![i.body.clone()];
        a.deliver = 1;
        a.label = format!("alone, as session {}", i.id);
        a.clock = seam::Clock::new(i.clock.base.get());
        a.clock.nanos.set(i.clock.nanos.get());
        if o.nows.len() > 1 {
            continue; // the clock moved on during the session
        }
        if i.cfg.fixed.is_none() {
            a.clock.base.set(o.nows[0]);
            a.clock.nanos.set(0);
        }
        if o.results.is_none() && !o.none {
            // abandoned: redo it in full
            log::count("abandoned_redone");
            let qs = sc.dns.queries(i.id);
            let complete = qs.iter().all(|q| q.done.is_some());
            if o.header_done.is_none() || !complete {
                sc.dns.set_weather(a.id, Weather::default());
            } else {
                freeze_answers(&sc, i.id, a.id);
            }
            let outs = sc.run_verifiers(std::slice::from_ref(&a))?;
            let j = judge(&sc, std::slice::from_ref(&a), &outs)?;
            for m in j.iter().flat_map(|j| j.mis()) {
                return bad("redo", format!("redone after abandonment: {}", m.text));
            }
            continue;
        }
        freeze_answers(&sc, i.id, a.id);
        let outs = sc.run_verifiers(std::slice::from_ref(&a))?;
        let b = &outs[&a.id];
        hit("compared_alone");
        let near_deadline = sc.dns.queries(i.id).iter().any(|q| {
            q.done.map_or(false, |d| d + SLACK >= o.started + i.cfg.timeout)
        });
        if !near_deadline && !same_results(o, b) {
            return bad("interference", format!(
                "session {} gives {:?}, alone {:?}",
                i.id, statuses(o), statuses(b)
            ));
        }
    }
    for s in &ss {
        let o = &sout[&s.id];
        let mut a = s.clone();
        a.id = sc.id();
        a.abandon_after = None;
        a.start_ms = 0;
        a.chunks = vec![s.body.clone()];
        a.stop_on_done = false;
        a.junk_after_done = None;
        a.clock = seam::Clock::new(o.readings.first().copied().unwrap_or(o.around.0));
        let uniq: BTreeSet<_> = o.readings.iter().collect();
        if o.abandoned || uniq.len() > 1 {
            continue;
        }
        let outs = sc.run_signers(vec![a.clone()])?;
        hit("compared_alone");
        if outs[&a.id].outcomes != o.outcomes {
            return bad("interference", format!("sign#{}: another outcome alone", s.id));
        }
    }
    Ok(())
}

fn statuses(o: &VOut) -> Vec<String> {
    o.results.iter().flatten().map(|r| format!("{}: {}", r.index, world::show(&r.status))).collect()
}

// ---------------------------------------------------------------- C17

fn c17(mut k: Knobs) -> R {
    k.accounts = (1, 6);
    k.foreigns = (1, 6);
    k.requests = (0, 1);
    k.rsa_pct = 2;
    k.stall_pct = *pick(&[20, 60, 0]);
    k.slow_pct = *pick(&[30, 60]);
    k.fault_pct = *pick(&[0, 20]);
    k.cancel_pct = *pick(&[70, 100, 0]);
    k.limit_pct = 5;
    k.max_headers = 3;
    k.max_body = 8;
    k.malformed_pct = 3;
    k.max_pct = 0;
    k.sessions = (1, 4);
    let (sc, ins, outs) = mail(k)?;
    for i in &ins {
        let o = &outs[&i.id];
        if o.rejected {
            continue;
        }
        let qs = sc.dns.queries(i.id);
        if !qs.is_empty() {
            hit("abandoned_or_finished_with_lookups");
        }
        if o.live_after > 0 {
            return bad("left-running", format!(
                "session {}: {} lookups still running after it was {}",
                i.id, o.live_after, if o.header_done.is_some() { "finished" } else { "dropped" }
            ));
        }
        let end = match (o.header_done, o.cancelled) {
            (Some(d), _) => d,
            (None, Some(c)) => c,
            _ => continue,
        };
        for q in &qs {
            if q.issued > end + Duration::from_millis(1) {
                return bad("issued-later", format!(
                    "session {}: lookup of {} issued {} ms after the end", i.id, q.name, ms(q.issued - end)
                ));
            }
        }
    }
    // other sessions are unaffected
    let js = judge(&sc, &ins, &outs)?;
    for j in js.iter().filter(|j| j.o.results.is_some()) {
        for m in j.mis() {
            if m.touches(&[Dom::DnsPermanent, Dom::DnsTemporary]) {
                return bad("affected", m.text);
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C18

fn hostile_bytes(max: u64) -> Vec<u8> {
    let n = crate::tape::size(max);
    let style = draw(4);
    (0..n)
        .map(|_| match style {
            0 => draw(256) as u8,
            1 => *pick(b"=;: \r\n\tabv1bh"),
            2 => *pick(b"0123456789;=xlt"),
            _ => *pick("=;,:/+ é\u{2028}@.-_AZaz09\r\n\t\0".as_bytes()),
        })
        .collect()
}

/// One thing over and over, up to several 100 kB.
fn huge(units: &[&str]) -> Vec<u8> {
    let unit = pick(units).bytes().collect::<Vec<_>>();
    let n = pick(&[3_000u64, 30_000, 100_000, 300_000]) + draw(3);
    log::count("fault_huge_input");
    unit.repeat((n as usize).min(600_000 / unit.len()))
}

const HOSTILE: [&str; 30] = [
    "", ";", ";;", "=", "v", "v=", "v=1;", "v=1; b=", "l=18446744073709551615", "l=18446744073709551616",
    "t=18446744073709551615", "x=18446744073709551615", "x=0", "t=0", "l=0", "h=:::", "h=From:", "i=@",
    "i=@@", "i==", "z=|", "z=:|:", "z==3A=", "c=/", "c=relaxed/", "q=:", "d=.", "s=.", "bh==", "b====",
];

fn hostile_sig(base: Option<Vec<u8>>) -> Vec<u8> {
    match draw(5) {
        0 => {
            let mut v: Vec<u8> = vec![b' '];
            for _ in 0..draw(12) {
                v.extend(pick(&HOSTILE).bytes());
                v.extend(pick(&["; ", ";", " ;", ";\r\n "]).bytes());
            }
            v
        }
        1 => hostile_bytes(200),
        _ => {
            let mut v = base.unwrap_or_else(|| b" v=1; a=ed25519-sha256; d=example.com; s=sel; h=From; bh=YWJj; b=YWJj".to_vec());
            for _ in 0..range(1, 6) {
                let n = v.len() as u64;
                let at = draw(n + 1) as usize;
                match draw(6) {
                    0 => {
                        v.splice(at..at, pick(&HOSTILE).bytes());
                    }
                    1 => v.truncate(at),
                    2 => {
                        v.splice(at..at, hostile_bytes(6));
                    }
                    3 => {
                        let tag = *pick(&["l", "t", "x", "d", "s", "i", "h", "b", "bh", "c", "a", "z", "q", "v"]);
                        let val = match draw(5) {
                            0 => u64::MAX.to_string(),
                            1 => (u64::MAX - draw(400)).to_string(),
                            2 => "9".repeat(draw(60) as usize),
                            3 => String::from_utf8_lossy(&hostile_bytes(20)).into_owned(),
                            _ => pick(&["a".repeat(300).as_str(), "=", "@", "ü", "xn--", "-", "a..b", "*"]).to_string(),
                        };
                        set_tag(&mut v, tag, &val);
                    }
                    4 => v.extend(format!("; {}", pick(&HOSTILE)).bytes()),
                    _ => {
                        if n > 0 {
                            v[at.min(n as usize - 1)] = draw(256) as u8;
                        }
                    }
                }
            }
            v
        }
    }
}

fn c18(mut k: Knobs) -> R {
    k.accounts = (1, 3);
    k.foreigns = (0, 3);
    k.requests = (0, 2);
    k.rsa_pct = 10;
    k.bad_pct = 30;
    k.multi_pct = 20;
    k.fault_pct = 20;
    k.garble = true;
    k.stall_pct = 5;
    k.transit = Transit::Mixed;
    k.malformed_pct = 20;
    k.times = Times::Boundary;
    k.policy_pct = 30;
    k.max_body = 30;
    let mut sc = Scene::new(k);
    let msg = sc.message();
    let mut msg = sc.sign(msg)?;
    let wild_length = chance(30);
    if wild_length {
        // validly signed, with extreme numbers
        for _ in 0..2 {
            let acc = sc.account();
            let mut f = Foreign::plain(&acc, &msg.headers);
            f.bh = Some(hostile_bytes(40));
            if f.bh.as_ref().unwrap().is_empty() {
                f.bh = Some(vec![0]);
            }
            f.l = Some(*pick(&[u64::MAX, u64::MAX - 1, 1 << 63, 1 << 32, 0]));
            if chance(50) {
                f.x = Some(u64::MAX - draw(500));
                f.t = Some(*pick(&[0u64, u64::MAX - 501]));
            }
            if let Some(h) = gen::foreign(&f, &msg.headers, &msg.body) {
                msg.headers.insert(0, h);
            }
        }
    }
    for _ in 0..range(0, 4) {
        let base = msg.headers.iter().filter(|f| is_sig_header(f)).next().map(|f| f.1.clone());
        let f = ("DKIM-Signature".to_string(), hostile_sig(base));
        let at = draw(msg.headers.len() as u64 + 1) as usize;
        msg.headers.insert(at, f);
    }
    for _ in 0..draw(3) {
        let at = draw(msg.headers.len() as u64 + 1) as usize;
        let name = String::from_utf8_lossy(&hostile_bytes(8)).into_owned();
        msg.headers.insert(at, (if draw(2) == 0 { "From".into() } else { name }, hostile_bytes(60)));
    }
    if chance(1) {
        let (name, v) = match draw(4) {
            0 => ("X-Deep", huge(&["a\r\n ", " ", "\t", "\u{fc}", "a"])),
            1 => ("Dkim-Signature", huge(&[";", "a=b;", "a=b; ", "=", ":", " a1=;", "\r\n ", "\u{fc}", "b=b; b"])),
            _ => {
                let pre = pick(&["h=", "z=", "i=", "bh=", "d=", "s=", "q=", "l=", "t=", "c=", "xx=", "b="]);
                let mut v = format!(" v=1; a=ed25519-sha256; d=example.org; s=sel; bh=YWJj; h=From; b=YWJj; {pre}").into_bytes();
                v.extend(huge(&["From:", ":", "|a:b", "=41", "a", "a.", "YWJj", "0", "9", "\r\n a", "@", "\u{fc}", "x/"]));
                ("DKIM-Signature", v)
            }
        };
        let at = draw(msg.headers.len() as u64 + 1) as usize;
        msg.headers.insert(at, (name.into(), v));
    } else if draw(1500) >= 1499 {
        gen::many_fields(&mut msg.headers, range(65_530, 65_800) as usize);
    }
    if chance(50) {
        // most damage is found at the door; keep only what passes it
        msg.headers.retain(|f| {
            viadkim::FieldName::new(f.0.as_str()).is_ok()
                && viadkim::FieldBody::new(f.1.as_slice()).is_ok()
        });
    }
    if msg.headers.is_empty() {
        msg.headers.push(("From".into(), vec![]));
    }
    let mut ins = vec![];
    for _ in 0..range(1, 3) {
        let mut i = sc.session(&msg);
        i.body = hostile_bytes(600);
        if chance(1) {
            let mut b = huge(&["\r\n", " ", "\t \r\n", "\r", "a\r\n", "\r\n ", "a"]);
            b.extend(i.body);
            i.body = b;
        }
        i.chunks = gen::chunks(&i.body);
        i.deliver = i.chunks.len();
        let c = &mut i.cfg;
        if chance(50) {
            c.timeout = *pick(&[Duration::MAX, Duration::ZERO, Duration::from_nanos(1), Duration::from_secs(u64::MAX), Duration::from_secs(10)]);
            c.max = *pick(&[10usize, 0, 1, usize::MAX]);
            c.m.tolerance = *pick(&[300u64, 0, u64::MAX, u64::MAX - 1, 1 << 62]);
            c.m.min_bits = *pick(&[1024usize, 0, usize::MAX]);
            c.fixed = *pick(&[None, Some(0i64), Some(-1), Some(-4_000_000_000), Some(1 << 55), Some(i64::MAX / 4)]);
        }
        if chance(30) {
            i.clock.base.set(*pick(&[0i64, -1, -4_000_000_000, i64::MAX / 2_000_000_000, i64::MAX / 8, 253_402_300_800]));
        }
        // finite lookups even with an endless timeout
        let long = c.timeout > Duration::from_secs(1000);
        let mut w = sc.weather(&i.cfg);
        if long {
            w.stall_pct = 0;
            w.slow_pct = 0;
        }
        sc.dns.set_weather(i.id, w);
        // hostile answers
        if chance(50) {
            let names: Vec<String> = sc.accs.iter().map(|a| a.dns_name()).collect();
            let mut s = sc.dns.shared.lock().unwrap();
            for n in names {
                let recs: Vec<_> = (0..draw(5))
                    .map(|_| {
                        if chance(20) {
                            Err(())
                        } else if chance(1) {
                            let mut v = pick(&["v=DKIM1; p=", "p=YWJj; n=", "t=", "h=", "", "s=", "k="]).as_bytes().to_vec();
                            v.extend(huge(&["YWJj", "=41", "a:", ":", ";", "a=;", "s:", " ", "\u{fc}", "sha256:"]));
                            Ok(v)
                        } else if chance(50) {
                            Ok(hostile_bytes(150))
                        } else {
                            let mut v = gen::good_record(gen::any_key(10));
                            for _ in 0..range(1, 4) {
                                let at = draw(v.len() as u64 + 1) as usize;
                                let h = hostile_bytes(4);
                                v.splice(at..at, h);
                            }
                            Ok(v)
                        }
                    })
                    .collect();
                s.scripted.insert((i.id, n), Answer::Records(recs));
            }
            log::count("fault_hostile_answer");
        }
        ins.push(i);
    }
    let outs = sc.run_verifiers(&ins)?;
    for i in &ins {
        let o = &outs[&i.id];
        if !o.rejected && !o.none && o.results.is_none() && o.cancelled.is_none() {
            return bad("no-results", format!("session {} ended without results", i.id));
        }
        if !o.rejected {
            hit("hostile_input_survived");
        }
        for r in o.results.iter().flatten() {
            // the results can be displayed and mapped
            let _ = format!("{:?} {}", r, world::class_name(r.status.to_dkim_result()));
            if let VerificationStatus::Failure(e) = &r.status {
                let mut s: Option<&dyn std::error::Error> = Some(e);
                while let Some(e) = s {
                    let _ = e.to_string();
                    s = e.source();
                }
            }
        }
    }
    // The signing side.
    let hs: Vec<_> = msg
        .headers
        .iter()
        .filter(|f| {
            viadkim::FieldName::new(f.0.as_str()).is_ok()
                && viadkim::FieldBody::new(f.1.as_slice()).is_ok()
        })
        .cloned()
        // signing all of very many fields takes long: each name is looked up in all of them
        .take(2000)
        .collect();
    if !hs.is_empty() {
        let m = Msg { headers: hs, body: hostile_bytes(600) };
        let mut reqs = vec![];
        for _ in 0..range(1, 12) {
            let acc = sc.account();
            let mut r = gen::request(&acc, &m.headers, &m.body, &ReqKnobs { odd_format_pct: 80, ..Default::default() });
            r.names = r.names.map(|v| v.into_iter().filter(|n| !n.is_empty()).collect());
            if chance(20) {
                r.names = Some(vec![]);
            }
            if chance(20) {
                r.names = Some(m.headers.iter().map(|f| f.0.clone()).chain(["From".into()]).collect());
            }
            if chance(30) {
                r.len = Len::Exact(*pick(&[u64::MAX, 1 << 63, 1 << 32, 0, 1]));
            }
            if chance(30) {
                r.ts = *pick(&[Ts::Exact(u64::MAX), Ts::Exact(0), Ts::Now]);
                r.dur = *pick(&[Some(Duration::MAX), Some(Duration::ZERO), Some(Duration::from_secs(1)), None]);
            }
            if chance(30) {
                r.width = *pick(&[1usize, usize::MAX, 2, 5]);
            }
            if chance(20) {
                r.indent = pick(&["", " ", "x", "\r\n", "\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t"]).to_string();
            }
            if chance(20) {
                r.ext.push((
                    pick(&["", "b", "v", "é", "ok", "1x", "a_"]).to_string(),
                    String::from_utf8_lossy(&hostile_bytes(20)).into_owned(),
                ));
            }
            if chance(10) {
                r.header_name = pick(&["", "X", "DKIM-Signature ", "dkim-signature"]).to_string();
            }
            reqs.push(r);
        }
        if chance(70) {
            reqs.truncate(3);
        }
        let mut i = sc.signer_session(&m, reqs);
        if chance(30) {
            i.clock.base.set(*pick(&[0i64, -1, -4_000_000_000, i64::MAX / 8]));
        }
        let outs = sc.run_signers(vec![i.clone()])?;
        let o = &outs[&i.id];
        if o.refused.is_none() {
            hit("hostile_request_survived");
            for x in o.outcomes.iter().flatten().flatten() {
                let _ = x.to_header_field();
                let _ = x.format_header().to_string();
            }
        }
    }
    // The low-level entry points the two sides are built on.
    for _ in 0..range(1, 4) {
        let s = hostile_sig(None);
        let _ = std::panic::catch_unwind(|| {
            let t = String::from_utf8_lossy(&s).into_owned();
            let _ = t.parse::<viadkim::signature::DkimSignature>();
            let _ = t.parse::<viadkim::record::DkimKeyRecord>();
            let _ = viadkim::quoted_printable::decode(&t);
            let _ = viadkim::decode_base64(&t);
            let _ = viadkim::DomainName::new(t.as_str());
            let _ = viadkim::Selector::new(t.as_str());
            let _ = viadkim::signature::Identity::new(&t);
        })
        .map_err(|e| crate::exec::take_panic(&*e))
        .or_else(|m| {
            if harness_panic(&m) {
                internal(m)
            } else {
                bad("panic", format!("parsing {:?}: {m}", String::from_utf8_lossy(&s)))
            }
        })?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C19

fn c19(mut k: Knobs) -> R {
    k.accounts = (1, 5);
    k.foreigns = (0, 5);
    k.requests = (0, 2);
    k.rsa_pct = 5;
    k.bad_pct = 30;
    k.multi_pct = 25;
    k.nx_pct = 5;
    k.limit_pct = 30;
    k.policy_pct = 25;
    k.times = if chance(30) { Times::Boundary } else { Times::None };
    k.clock_pct = 0;
    k.transit = Transit::Mixed;
    k.max_headers = 6;
    k.max_body = 30;
    k.malformed_pct = 20;
    k.max_pct = 5;
    let mut sc = Scene::new(k);
    let msg = sc.message();
    let msg = sc.sign(msg)?;
    let msg = sc.transit(msg);
    let base = sc.session(&msg);
    // definite answers, among them definite failures
    let mut fixed: BTreeMap<String, Answer> = BTreeMap::new();
    for a in &sc.accs {
        if chance(20) {
            let ans = pick(&[Answer::NotFound, Answer::Records(vec![]), Answer::InvalidInput, Answer::TimedOut, Answer::Other]).clone();
            fixed.insert(a.dns_name(), ans);
        }
    }
    let mut ins = vec![];
    for n in 0..range(2, 5) {
        let mut i = base.clone();
        i.id = sc.id();
        i.clock = seam::Clock::new(sc.now);
        i.cfg.fixed = Some(i.cfg.fixed.unwrap_or(sc.now));
        i.cfg.timeout = Duration::from_secs(60);
        i.start_ms = if n == 0 { 0 } else { draw(30) };
        i.chunks = gen::chunks(&i.body);
        i.deliver = i.chunks.len();
        i.stop_on_done = chance(30);
        i.junk_after_done = None;
        let w = Weather {
            max_latency_ms: *pick(&[1u64, 100, 1000]),
            yield_pct: *pick(&[0, 50]),
            ..Default::default()
        };
        sc.dns.set_weather(i.id, w);
        for (n, a) in &fixed {
            sc.dns.shared.lock().unwrap().scripted.insert((i.id, n.clone()), a.clone());
        }
        ins.push(i);
    }
    let outs = sc.run_verifiers(&ins)?;
    let first = &outs[&ins[0].id];
    for i in &ins[1..] {
        let o = &outs[&i.id];
        if first.results.as_ref().map_or(false, |r| !r.is_empty()) {
            hit("equal_inputs_compared");
        }
        if !same_results(first, o) {
            return bad("verify-differs", format!(
                "sessions {} and {} differ on equal inputs: {:?} / {:?}",
                ins[0].id, i.id, statuses(first), statuses(o)
            ));
        }
    }
    // Signing.
    let m = sc.message();
    let reqs: Vec<Req> = (0..range(1, 4)).map(|_| sc.request(&m)).collect();
    let mut ss = vec![];
    for _ in 0..range(2, 3) {
        let mut s = sc.signer_session(&m, reqs.clone());
        s.clock = seam::Clock::new(sc.now);
        s.start_ms = draw(400); // stays within the same second
        s.junk_after_done = None;
        ss.push(s);
    }
    let outs = sc.run_signers(ss.clone())?;
    for s in &ss[1..] {
        hit("equal_signing_compared");
        if outs[&s.id].outcomes != outs[&ss[0].id].outcomes {
            return bad("sign-differs", format!("sign#{} and sign#{} differ on equal inputs", ss[0].id, s.id));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C20

struct Filler {
    kind: u64,
    n: u64,
}

impl Filler {
    fn chunk(&mut self, len: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(len);
        while v.len() < len {
            let n = self.n;
            self.n += 1;
            let b: u8 = match self.kind {
                0 => b'x',                                          // one endless line
                1 => if n % 2 == 0 { b'\r' } else { b'\n' },        // endless blank lines
                2 => b' ',                                          // endless white space
                3 => b'\r',                                         // endless CRs
                4 => b'\n',
                5 => [b' ', b'\r', b'\n'][(n % 3) as usize],        // endless blank-ish lines
                6 => [b' ', b'\t', b'a'][(n % 3) as usize],
                7 => [b'\r', b' '][(n % 2) as usize],
                8 => *b"The quick brown fox.\r\n".get((n % 22) as usize).unwrap(),
                9 => [b'\r', b'\r', b'\n'][(n % 3) as usize],
                _ => if n % 1000 == 999 { b'z' } else if n % 2 == 0 { b'\r' } else { b'\n' },
            };
            v.push(b);
        }
        v
    }
}

fn c20(mut k: Knobs, thorough: bool) -> R {
    k.rsa_pct = 0;
    k.limit_pct = 40;
    k.max_headers = 2;
    k.max_body = 4;
    k.odd_format_pct = 0;
    k.foreigns = (1, 4);
    k.requests = (0, 1);
    k.malformed_pct = 5;
    k.forbid_pct = 50;
    let mut sc = Scene::new(k);
    let msg = sc.message();
    let reqs: Vec<Req> = (0..range(1, 5))
        .map(|_| {
            let mut r = sc.request(&msg);
            if let Len::Exact(n) = r.len {
                r.len = Len::Exact(*pick(&[n, 1 << 20, 1 << 30, 100_000]));
            }
            r
        })
        .collect();
    let signed = sc.sign(msg)?;
    let m = Msg { headers: signed.headers, body: signed.body };
    let mut f = Filler { kind: draw(11), n: draw(3) };
    let csize = *pick(&[4096usize, 1024, 100, 37, 16384]);
    let mut total = (if thorough { 16 } else { 2 }) * *pick(&[1u64, 1, 2]) * 1_000_000
        / if csize < 1000 { 8 } else { 1 };
    // few bytes in very many chunks, some of them empty
    let tiny = draw(8) == 7;
    let csize = if tiny { *pick(&[1usize, 2, 3]) } else { csize };
    if tiny {
        total = csize as u64 * if thorough { 300_000 } else { 100_000 };
    }
    let empties = tiny && draw(2) == 1;
    let i = sc.session(&m);
    sc.dns.set_weather(i.id, Weather::default());
    let dns = sc.dns.for_session(i.id);
    sc.dns.begin_phase();
    let hs = viadkim::HeaderFields::from_vec(m.headers.clone());
    let hs = match hs {
        Ok(h) => h,
        Err(_) => return internal("C20 header"),
    };
    let config = i.cfg.lib();
    let worst = std::rc::Rc::new(std::cell::Cell::new((0i64, 0u64, "")));
    let w2 = worst.clone();
    let built: Vec<_> = reqs.iter().map(|r| r.build()).collect();
    let clock = seam::Clock::new(sc.now);
    sim(move |sp| {
        sp.spawn("stream", Some(clock), async move {
            let mut signer = viadkim::Signer::prepare_signing(hs.clone(), built).ok();
            let mut verifier = viadkim::Verifier::verify_header(&dns, &hs, &config).await;
            let mut fed = 0u64;
            let mut turn = 0u64;
            let base_s = std::cell::Cell::new(0i64);
            let base_v = std::cell::Cell::new(0i64);
            while fed < total {
                turn += 1;
                let c = if empties && turn % 2 == 0 { vec![] } else { f.chunk(csize) };
                if let Some(s) = &mut signer {
                    let before = seam::live_bytes();
                    let _ = s.process_body_chunk(&c);
                    base_s.set(base_s.get() + seam::live_bytes() - before);
                    if base_s.get() > w2.get().0 {
                        w2.set((base_s.get(), fed, "signing"));
                    }
                }
                if let Some(v) = &mut verifier {
                    let before = seam::live_bytes();
                    let _ = v.process_body_chunk(&c);
                    base_v.set(base_v.get() + seam::live_bytes() - before);
                    if base_v.get() > w2.get().0 {
                        w2.set((base_v.get(), fed, "verification"));
                    }
                }
                fed += c.len() as u64;
            }
            if let Some(s) = signer {
                let _ = s.sign().await;
            }
            if let Some(v) = verifier {
                let _ = v.finish();
            }
        });
    })?;
    hit("stream_measured");
    log::count_n("stream_bytes", total);
    let bound = 64 * 1024 + 8 * csize as i64;
    let (b, at, who) = worst.get();
    crate::ev!("retained at most {b} bytes");
    if b > bound {
        return bad("retained", format!("{who} session retains {b} bytes after {at} bytes of body"));
    }
    Ok(())
}

// ---------------------------------------------------------------- C21

fn spoil(reqs: &mut Vec<Req>, headers: &mut Vec<model::Field>) -> Vec<RequestError> {
    let n = draw(reqs.len() as u64) as usize;
    match draw(13) {
        0 => {
            headers.retain(|f| !f.0.eq_ignore_ascii_case("from"));
            if headers.is_empty() {
                headers.push(("To".into(), b" x".to_vec()));
            }
            vec![RequestError::MissingFromHeader]
        }
        1 => {
            while reqs.len() < 11 {
                let r = pick(reqs).clone();
                reqs.push(r);
            }
            vec![RequestError::TooManyRequests]
        }
        2 => {
            reqs.clear();
            vec![RequestError::EmptyRequests]
        }
        3 => {
            reqs[n].names = Some(vec!["To".into(), "Subject".into()]);
            vec![RequestError::FromHeaderNotSigned]
        }
        4 => {
            reqs[n].names = Some(vec!["From".into(), "A;b".into()]);
            vec![RequestError::InvalidSignedFieldName]
        }
        5 => {
            reqs[n].identity = Some(format!("me@x{}", reqs[n].domain));
            vec![RequestError::DomainMismatch]
        }
        6 => {
            reqs[n].dur = Some(*pick(&[Duration::ZERO, Duration::from_millis(999)]));
            vec![RequestError::ZeroExpirationDuration]
        }
        7 => {
            reqs[n].ext = vec![("r".into(), "y".into()), ("r".into(), "z".into())];
            vec![RequestError::InvalidExtTags]
        }
        8 => {
            let t = *pick(&["b", "d", "bh", "v", "a", "l", "z", "s", "h", "x", "t", "i", "c"]);
            reqs[n].ext = vec![(t.into(), "y".into())];
            vec![RequestError::InvalidExtTags]
        }
        9 => {
            reqs[n].ext = vec![(pick(&["1a", "", "a-b", "ü"]).to_string(), "y".into())];
            vec![RequestError::InvalidExtTags]
        }
        10 => {
            reqs[n].ext = vec![("r".into(), pick(&["a;b", " a", "a ", "a\u{1}", "a\r\nb"]).to_string())];
            vec![RequestError::InvalidExtTags]
        }
        11 => {
            reqs[n].header_name = pick(&["DKIM-Signatur", "X-DKIM-Signature", "", "DKIM Signature"]).to_string();
            vec![RequestError::InvalidDkimSignatureHeaderName]
        }
        _ => {
            reqs[n].indent = pick(&["", "x", " x", "\r\n "]).to_string();
            vec![RequestError::InvalidIndentationWhitespace]
        }
    }
}

fn c21(mut k: Knobs) -> R {
    k.rsa_pct = 8;
    k.limit_pct = 60;
    k.max_headers = 5;
    k.max_body = 40;
    k.odd_format_pct = 30;
    k.times = if chance(40) { Times::Loose } else { Times::None };
    let mut sc = Scene::new(k);
    let msg = sc.message();
    let mut reqs: Vec<Req> = (0..range(1, 10)).map(|_| sc.request(&msg)).collect();
    if chance(30) {
        // near-duplicates that share or nearly share a body hash
        let mut r = pick(&reqs).clone();
        match draw(4) {
            0 => r.len = Len::NoLimit,
            1 => r.len = Len::Content,
            2 => r.bc = if r.bc == Canon::Simple { Canon::Relaxed } else { Canon::Simple },
            _ => r.len = Len::Exact(msg.body.len() as u64 + draw(4)),
        }
        reqs.insert(draw(reqs.len() as u64 + 1) as usize, r);
        reqs.truncate(10);
    }
    // an unusable set is refused as a whole
    if chance(30) {
        let mut rs = reqs.clone();
        let mut m = Msg { headers: msg.headers.clone(), body: msg.body.clone() };
        let want = spoil(&mut rs, &mut m.headers);
        let i = sc.signer_session(&m, rs);
        let outs = sc.run_signers(vec![i.clone()])?;
        let o = &outs[&i.id];
        hit("unusable_set");
        match o.refused {
            None => return bad("not-refused", format!("sign#{}: unusable set accepted, expected {want:?}", i.id)),
            Some(e) if !want.contains(&e) => {
                return bad("refusal", format!("sign#{}: refused with {e:?}, expected {want:?}", i.id))
            }
            _ => {}
        }
    }
    let mut i = sc.signer_session(&msg, reqs.clone());
    i.clock = seam::Clock::new(sc.now);
    i.start_ms = 0;
    let outs = sc.run_signers(vec![i.clone()])?;
    let o = &outs[&i.id];
    if let Some(e) = o.refused {
        return bad("refusal", format!("sign#{}: acceptable set refused: {e:?}", i.id));
    }
    let Some(all) = &o.outcomes else { return internal("no outcome") };
    if all.len() != reqs.len() {
        return bad("count", format!("sign#{}: {} outcomes for {} requests", i.id, all.len(), reqs.len()));
    }
    check_body_hashes(&i, o)?;
    let mut singles = vec![];
    for r in &reqs {
        let mut s = sc.signer_session(&msg, vec![r.clone()]);
        s.clock = seam::Clock::new(sc.now);
        s.start_ms = 0;
        s.junk_after_done = None;
        singles.push(s);
    }
    let souts = sc.run_signers(singles.clone())?;
    for (n, s) in singles.iter().enumerate() {
        let one = souts[&s.id].outcomes.as_ref().and_then(|v| v.first());
        hit("request_compared_alone");
        if one != Some(&all[n]) {
            return bad("not-alone", format!(
                "sign#{}: outcome {n} of {} differs from that request alone: {:?} / {:?}",
                i.id, reqs.len(), all[n].as_ref().map(|x| &x.header_value), one.map(|x| x.as_ref().map(|x| &x.header_value))
            ));
        }
        if let Ok(x) = &all[n] {
            check_parse_back(&reqs[n], &i, x)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C22

fn c22(mut k: Knobs) -> R {
    k.accounts = (1, 5);
    k.foreigns = (0, 5);
    k.requests = (0, 2);
    k.rsa_pct = 5;
    k.bad_pct = 15;
    k.multi_pct = 10;
    k.limit_pct = 20;
    k.policy_pct = 10;
    k.clock_pct = 0;
    k.transit = if chance(30) { Transit::Mixed } else { Transit::None };
    k.max_headers = 5;
    k.max_body = 15;
    k.malformed_pct = 8;
    k.max_pct = 0;
    let mut sc = Scene::new(k);
    let msg = sc.message();
    let msg = sc.sign(msg)?;
    let msg = sc.transit(msg);
    let mut base = sc.session(&msg);
    base.cfg.fixed = Some(sc.now);
    base.start_ms = 0;
    // fault-free control
    let mut control = base.clone();
    control.id = sc.id();
    control.stop_on_done = false;
    control.junk_after_done = None;
    control.clock = seam::Clock::new(sc.now);
    sc.dns.set_weather(control.id, Weather::default());
    // troubled attempts, then the resolver works
    let tries = range(1, 3);
    let mut bads = vec![];
    for _ in 0..tries {
        let mut t = base.clone();
        t.id = sc.id();
        t.clock = seam::Clock::new(sc.now);
        t.cfg.timeout = Duration::from_millis(*pick(&[1000u64, 100, 5000]));
        t.chunks = gen::chunks(&t.body);
        t.deliver = t.chunks.len();
        let w = Weather {
            fault_pct: *pick(&[50, 100, 30]),
            slow_pct: *pick(&[0, 40]),
            timeout_ms: t.cfg.timeout.as_millis() as u64,
            max_latency_ms: 50,
            yield_pct: 20,
            temporary_only: true,
            usual: chance(40).then(|| *pick(&crate::dns::OTHER_KINDS)),
            ..Default::default()
        };
        sc.dns.set_weather(t.id, w);
        bads.push(t);
    }
    let mut retry = base.clone();
    retry.id = sc.id();
    retry.clock = seam::Clock::new(sc.now);
    retry.chunks = gen::chunks(&retry.body);
    retry.deliver = retry.chunks.len();
    retry.cfg.timeout = bads[0].cfg.timeout;
    let retry_latency = if draw(2) == 0 { 0 } else { 30 };
    sc.dns.set_weather(retry.id, Weather { max_latency_ms: retry_latency, ..Default::default() });

    let order_control_last = draw(2) == 1;
    let mut outs = BTreeMap::new();
    if !order_control_last {
        outs.extend(sc.run_verifiers(std::slice::from_ref(&control))?);
    }
    let mut all = bads.clone();
    if chance(40) {
        // all in one process at once, the retry after the last trouble
        retry.start_ms = 60_000;
        all.push(retry.clone());
        outs.extend(sc.run_verifiers(&all)?);
    } else {
        for b in &bads {
            outs.extend(sc.run_verifiers(std::slice::from_ref(b))?);
        }
        outs.extend(sc.run_verifiers(std::slice::from_ref(&retry))?);
    }
    if order_control_last {
        outs.extend(sc.run_verifiers(std::slice::from_ref(&control))?);
    }
    let js = judge(&sc, &bads, &outs)?;
    let mut troubled = false;
    for j in &js {
        let qs = sc.dns.queries(j.i.id);
        for e in &j.exps {
            if !e.must_query {
                continue;
            }
            let Some(r) = j.results.iter().find(|r| r.index == e.index) else { continue };
            let Some(q) = qs.iter().find(|q| Some(&q.name) == e.name.as_ref()) else { continue };
            let hurt = q.dropped.is_some()
                || matches!(q.answer, Some(Answer::TimedOut | Answer::Other | Answer::GivenUp));
            if !hurt {
                continue;
            }
            troubled = true;
            let v = verdict(&r.status);
            if v.dom() != Dom::DnsTemporary || world::class_name(r.status.to_dkim_result()) != "temperror" {
                return bad("not-temporary", format!(
                    "session {}: lookup for {} failed temporarily, verdict {} ({})",
                    j.i.id, e.index, world::show(&r.status), world::class_name(r.status.to_dkim_result())
                ));
            }
        }
    }
    no_mismatch(&js, &[Dom::DnsTemporary], "temporary-verdict", |_, _| true)?;
    let (c, r) = (&outs[&control.id], &outs[&retry.id]);
    if troubled {
        hit("retry_compared");
    }
    if !same_results(c, r) {
        return bad("retry-differs", format!(
            "retry gives {:?}, a fault-free first attempt {:?}", statuses(r), statuses(c)
        ));
    }
    Ok(())
}

#[allow(dead_code)]
fn _unused(_: VCfg) {}
