//! Generators: accounts, key records, messages, sign requests, signatures of a
//! foreign signer, chunk plans, transit.

use crate::{
    dns::{RrSet, Txt},
    keys,
    model::{self, Canon, Field},
    tape::{chance, draw, pick, range, size, weighted},
};
use base64ct::{Base64, Encoding};
use std::{cmp::Ordering, sync::Arc, time::Duration};
use viadkim::{
    crypto::{SigningKey},
    header::FieldName,
    signature::{Canonicalization, CanonicalizationAlgorithm, Identity},
    signer::{BodyLength, HeaderSelection, OutputFormat, Timestamp},
    DomainName, Selector, SignRequest, SigningAlgorithm,
};

// ---------------------------------------------------------------- accounts

#[derive(Clone, Debug)]
pub struct Account {
    pub domain: String,
    pub selector: String,
    pub key: usize,
}

impl Account {
    pub fn dns_name(&self) -> String {
        dns_name(&self.domain, &self.selector)
    }
}

pub fn dns_name(domain: &str, selector: &str) -> String {
    format!(
        "{}._domainkey.{}.",
        model::to_ascii(selector).expect("model knows selector"),
        model::to_ascii(domain).expect("model knows domain")
    )
}

pub const DOMAINS: [&str; 10] = [
    "a.b.example.org",
    "mail.bücher.example",
    "example.com",
    "example.org",
    "mail.example.com",
    "Example.NET",
    "bücher.example",
    "xn--mnchen-3ya.example",
    "例え.テスト",
    "sub.bücher.example",
];
pub const SELECTORS: [&str; 7] = ["sel.mail", "sel", "Sel2", "s.2023", "bücher", "xn--fiqs8s", "k_1"];

/// Accounts with distinct key names; later ones may share a domain or selector.
pub fn accounts(n: usize, rsa_pct: u32) -> Vec<Account> {
    let mut v: Vec<Account> = vec![];
    while v.len() < n {
        let mut a = Account {
            domain: pick(&DOMAINS).to_string(),
            selector: pick(&SELECTORS).to_string(),
            key: any_key(rsa_pct),
        };
        // a neighbour of an earlier one: a label moved between the two names
        if let (true, Some(b)) = (chance(15), v.last()) {
            a.domain = b.domain.clone();
            a.selector = b.selector.clone();
            match (b.selector.rsplit_once('.'), b.domain.split_once('.')) {
                (Some((s, l)), _) if draw(2) == 0 => {
                    a.selector = s.into();
                    a.domain = format!("{l}.{}", b.domain);
                }
                (_, Some((l, d))) if d.contains('.') => {
                    a.selector = format!("{}.{l}", b.selector);
                    a.domain = d.into();
                }
                _ => a.domain = format!("mail.{}", b.domain),
            }
        }
        while v.iter().any(|b| b.dns_name() == a.dns_name()) {
            a.selector = format!("s{}", v.len() + 1);
            if v.iter().any(|b| b.dns_name() == a.dns_name()) {
                a.domain = format!("d{}.example", v.len());
            }
        }
        v.push(a);
    }
    v
}

pub fn any_key(rsa_pct: u32) -> usize {
    if chance(rsa_pct) {
        if chance(15) {
            keys::RSA_GOOD[2 + *pick(&[0usize, 1, 0, 1, 2, 3, 4])]
        } else if chance(1) {
            keys::RSA_GOOD[7]
        } else {
            keys::RSA_GOOD[draw(2) as usize]
        }
    } else {
        keys::ED[draw(4) as usize]
    }
}

/// Another way to write the same domain or selector.
pub fn respell(s: &str) -> String {
    match draw(4) {
        0 => s.to_string(),
        1 => s.to_ascii_uppercase(),
        2 => model::to_ascii(s).unwrap_or_else(|| s.into()),
        _ => s
            .chars()
            .enumerate()
            .map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
            .collect(),
    }
}

// ---------------------------------------------------------------- records

/// A name no tag of signatures or records has, though it may look like one.
pub fn ext_tag_name() -> String {
    const KNOWN: [&str; 15] =
        ["v", "a", "b", "bh", "c", "d", "h", "i", "l", "q", "s", "t", "x", "z", "p"];
    let c = |set: &str| set.as_bytes()[draw(set.len() as u64) as usize] as char;
    let t = pick(&KNOWN[..14]).to_string();
    let n = match draw(6) {
        0 => t.to_ascii_uppercase(),
        1 => format!("{}{t}", c("xabhXz")),
        2 => format!("{t}{}", c("_1bhx0B")),
        3 => format!("{t}{t}"),
        4 => {
            let mut n = c("abcdefxyzABZ").to_string();
            for _ in 0..size(12) {
                n.push(c("abzABZ019_"));
            }
            n
        }
        _ => pick(&["r", "xx", "Xx_1", "zz", "B", "BH"]).to_string(),
    };
    if KNOWN.contains(&n.as_str()) || ["k", "n"].contains(&n.as_str()) {
        return "rr".into();
    }
    n
}

/// A well-formed tag value, possibly empty.
pub fn ext_tag_value() -> String {
    let mut v = String::new();
    for i in 0..size(6) {
        if i > 0 && chance(30) {
            v.push_str(pick(&[" ", "\r\n ", "\t", " \r\n\t", "  "]));
        }
        v.push_str(pick(&["y", "a=b", "b=", ":", "ü:x", "=", "|", "1", "64==", "dns/txt", "~!#"]));
    }
    v
}

/// Colon-separated items with white space here and there.
fn colon_list(items: &[&str], max: u64) -> String {
    let mut v = String::new();
    for i in 0..range(1, max) {
        if i > 0 {
            v.push_str(pick(&[":", ":", " : ", " :", ": "]));
        }
        v.push_str(pick(items));
    }
    v
}

/// A record put together tag by tag.
fn composed_record(key: usize) -> Vec<u8> {
    let k = &keys::all()[key];
    let p = if chance(30) { k.other_b64() } else { k.usual_b64() };
    let mut tags: Vec<String> = vec![];
    if !k.is_rsa() || chance(60) {
        tags.push(format!("k={}", match draw(8) {
            0 => *pick(&["rsa", "ed25519", "dsa", "", "rsa2"]),
            1 => if k.is_rsa() { "RSA" } else { "ED25519" },
            _ => if k.is_rsa() { "rsa" } else { "ed25519" },
        }));
    }
    if chance(40) {
        let l = if chance(85) {
            colon_list(&["sha256", "sha1", "sha512", "SHA256", "foo", "sha384", "SHA1", "sha-256"], 5)
        } else {
            colon_list(&["sha256", "sha1", ""], 4)
        };
        tags.push(format!("h={l}"));
    }
    if chance(40) {
        let l = if chance(85) {
            colon_list(&["y", "s", "S", "Y", "foo", "ss", "t"], 5)
        } else {
            colon_list(&["s", "y", ""], 4)
        };
        tags.push(format!("t={l}"));
    }
    if chance(30) {
        let l = if chance(85) {
            colon_list(&["*", "email", "tlsrpt", "EMAIL", "**", "mail"], 5)
        } else {
            colon_list(&["*", "email", ""], 4)
        };
        tags.push(format!("s={l}"));
    }
    for _ in 0..size(2) {
        tags.push(format!("{}={}", ext_tag_name(), ext_tag_value()));
    }
    if !chance(3) {
        tags.push(if chance(4) { "p=".into() } else { format!("p={p}") });
    }
    for i in (1..tags.len()).rev() {
        tags.swap(i, draw(i as u64 + 1) as usize);
    }
    if chance(70) {
        tags.insert(0, "v=DKIM1".into());
    } else if chance(10) {
        let at = draw(tags.len() as u64 + 1) as usize;
        tags.insert(at, pick(&["v=DKIM1", "v=DKIM2", "v=dkim1", "v="]).to_string());
    }
    if !tags.is_empty() && chance(4) {
        let t = pick(&tags).clone();
        tags.push(t);
    }
    let mut s = tags.join(*pick(&["; ", ";", " ; ", ";\t"]));
    if chance(25) {
        s.push(';');
    }
    s.into_bytes()
}

/// A record that lets `key` validate (for SHA-256).
pub fn good_record(key: usize) -> Vec<u8> {
    let k = &keys::all()[key];
    let p = if chance(30) { k.other_b64() } else { k.usual_b64() };
    let mut tags: Vec<String> = vec![];
    if !k.is_rsa() {
        tags.push(pick(&["k=ed25519", "k=Ed25519", "k = ed25519"]).to_string());
    } else if chance(50) {
        tags.push(pick(&["k=rsa", "k=RSA"]).to_string());
    }
    if chance(20) {
        tags.push(pick(&["h=sha256", "h=sha1:sha256", "h=SHA256:foo", "h=sha256 : sha1"]).to_string());
    }
    if chance(15) {
        tags.push(pick(&["s=*", "s=email", "s=tlsrpt:email", "s=EMAIL"]).to_string());
    }
    if chance(15) {
        tags.push(pick(&["t=y", "t=foo"]).to_string());
    }
    if chance(10) {
        tags.push("n=a=20note".to_string());
    }
    if chance(10) {
        tags.push(format!("{}={}", ext_tag_name(), ext_tag_value()));
    }
    let p = if chance(15) && p.len() > 20 {
        format!("p={} {}", &p[..16], &p[16..])
    } else {
        format!("p={p}")
    };
    let at = draw(tags.len() as u64 + 1) as usize;
    tags.insert(at, p);
    if chance(75) {
        tags.insert(0, "v=DKIM1".into());
    }
    let sep = *pick(&["; ", ";", " ; "]);
    let mut s = tags.join(sep);
    if chance(20) {
        s.push(';');
    }
    s.into_bytes()
}

/// A record that does not (or may not) let `key` validate.
pub fn odd_record(key: usize) -> Txt {
    let k = &keys::all()[key];
    let kt = if k.is_rsa() { "rsa" } else { "ed25519" };
    let other_kt = if k.is_rsa() { "ed25519" } else { "rsa" };
    let p = k.usual_b64();
    let other_same = if k.is_rsa() {
        keys::RSA_GOOD[draw(8) as usize]
    } else {
        keys::ED[draw(4) as usize]
    };
    let weak = keys::RSA_WEAK[draw(5) as usize];
    let s = match draw(36) {
        0 => format!("v=DKIM1; k={other_kt}; p={p}"),
        1 => format!("v=DKIM1; k={kt}; p="),
        2 => format!("v=DKIM1; h=sha1; k={kt}; p={p}"),
        3 => format!("v=DKIM1; k={kt}; t=s; p={p}"),
        4 => format!("v=DKIM1; k={kt}; t=y:s; p={p}"),
        5 => format!("v=DKIM1; k={kt}; p={p}!!"),
        6 => format!("v=DKIM2; k={kt}; p={p}"),
        7 => format!("k={kt}; v=DKIM1; p={p}"),
        8 => format!("v=DKIM1; k=dsa; p={p}"),
        9 => format!("v=DKIM1; k={kt}; s=tlsrpt; p={p}"),
        10 => format!("v=DKIM1; k={kt}"),
        11 => format!("v=DKIM1; k={kt}; p={}", keys::all()[other_same].usual_b64()),
        12 => format!("v=DKIM1; k=rsa; p={}", keys::all()[weak].usual_b64()),
        13 => format!("v=DKIM1; p={}", keys::all()[weak].other_b64()),
        14 => {
            let mut d = k.usual.clone();
            let n = d.len() - 1 - draw(4) as usize;
            d.truncate(n);
            format!("v=DKIM1; k={kt}; p={}", Base64::encode_string(&d))
        }
        15 => format!("v=DKIM1; h=; k={kt}; p={p}"),
        16 => format!("v=DKIM1; h=sha256::sha1; k={kt}; p={p}"),
        17 => format!("v=DKIM1; k={kt}; p={p}; p={p}"),
        18 => "v=spf1 include:_spf.example.com -all".into(),
        19 => String::new(),
        20 => return Ok(b"v=DKIM1; n=\xff\xfe; p=".to_vec()),
        21 => return Err(()),
        22 => format!("v=DKIM1; h=sha512; k={kt}; p={p}"),
        23 => format!("v=DKIM1; t=; k={kt}; p={p}"),
        24 => format!("v=DKIM1; k={other_kt}; p={}", keys::all()[if k.is_rsa() { 0 } else { 4 }].usual_b64()),
        25 => format!("v=DKIM1; k={kt}; h=sha256; t=s; s=email; p={p}"),
        _ => return Ok(composed_record(key)),
    };
    Ok(s.into_bytes())
}

/// What is published for an account.
pub fn rrset(key: usize, bad_pct: u32, multi_pct: u32) -> RrSet {
    let one = |pct| if chance(pct) { odd_record(key) } else { Ok(good_record(key)) };
    if chance(multi_pct) {
        let n = *pick(&[2usize, 3, 3, 4, 5, 6]);
        // usually one good record, somewhere
        let good = draw(n as u64 + 1) as usize;
        let mut set: Vec<Txt> =
            (0..n).map(|i| if i == good { Ok(good_record(key)) } else { one(85) }).collect();
        if chance(25) {
            set.insert(draw(n as u64 + 1) as usize, Err(()));
        }
        if set.iter().any(|t| t.is_err()) {
            crate::log::count("fault_dns_record_error");
        }
        RrSet::Records(set)
    } else {
        RrSet::Records(vec![one(bad_pct)])
    }
}

// ---------------------------------------------------------------- messages

const NAMES: [&str; 17] = [
    "To", "Subject", "Date", "Cc", "Reply-To", "Message-ID", "Received", "List-Id", "References",
    "X-Foo", "MIME-Version", "Comments", "X!#$%&'*+-.^_`|~", "Sender",
    "In-Reply-To", "Resent-From", "List-Unsubscribe",
];

pub fn recase(s: &str) -> String {
    match draw(4) {
        0 | 1 => s.to_string(),
        2 => s.to_ascii_lowercase(),
        _ => s.to_ascii_uppercase(),
    }
}

/// A header name that is easily taken for the given one.
pub fn near_name(n: &str) -> String {
    let s = match draw(7) {
        0 => format!("{n}-X"),
        1 => format!("X-{n}"),
        2 => format!("{n}s"),
        3 => format!("Resent-{n}"),
        4 => n.chars().take(n.len().saturating_sub(1)).collect(),
        5 => n.chars().skip(1).collect(),
        _ => n.replace('-', "_"),
    };
    if s.is_empty() || s.starts_with('-') {
        format!("{n}2")
    } else {
        s
    }
}

fn wsp_run() -> &'static str {
    pick(&[" ", " ", "  ", "\t", " \t ", "\t\t"])
}

pub fn header_value() -> Vec<u8> {
    let mut v: Vec<u8> = vec![];
    if !chance(10) {
        v.extend(wsp_run().bytes());
    }
    let n = size(8);
    for i in 0..n {
        if i > 0 {
            match weighted(&[6, 2, 1, 1]) {
                0 => v.extend(wsp_run().bytes()),
                1 => v.extend(pick(&["\r\n ", "\r\n\t", " \r\n  ", "\t\r\n "]).bytes()),
                _ => {}
            }
        }
        let w: &[u8] = match draw(10) {
            0 => "ümläut".as_bytes(),
            1 => b"\xe9\xff",
            2 => b"a:b;c=d|e",
            3 => b"=3D=20",
            4 => b"<me@example.com>",
            _ => b"word",
        };
        v.extend(w);
        if draw(3) == 0 {
            v.extend(draw(1000).to_string().bytes());
        }
    }
    if chance(15) && !v.ends_with(b" ") {
        v.extend(wsp_run().bytes());
    }
    v
}

pub fn headers(max_extra: u64) -> Vec<Field> {
    let mut v: Vec<Field> = vec![(recase("From"), header_value())];
    let n = size(max_extra);
    for _ in 0..n {
        let mut name = recase(pick(&NAMES));
        if chance(6) {
            let n = if draw(3) == 0 { "From".to_string() } else { pick(&v).0.clone() };
            name = recase(&near_name(&n));
        }
        let at = draw(v.len() as u64 + 1) as usize;
        v.insert(at, (name, header_value()));
    }
    // many occurrences of one name
    if chance(3) {
        let name = if draw(4) == 0 { "From".to_string() } else { pick(&v).0.clone() };
        for _ in 0..range(4, 20) {
            let at = draw(v.len() as u64 + 1) as usize;
            v.insert(at, (recase(&name), header_value()));
        }
        crate::log::count("headers_repeated_name");
    }
    // so many fields that a count or a position would overflow
    if draw(1000) >= 996 {
        many_fields(&mut v, range(250, 420) as usize);
    }
    v
}

/// Puts `n` simple fields in one place.
pub fn many_fields(v: &mut Vec<Field>, n: usize) {
    let at = draw(v.len() as u64 + 1) as usize;
    let name = *pick(&["X-Filler", "Received", "Subject", "Comments"]);
    let tail = v.split_off(at);
    v.extend((0..n).map(|i| (name.to_string(), format!(" {}", i % 7).into_bytes())));
    v.extend(tail);
    crate::log::count("headers_many_fields");
}

pub fn body(max: u64) -> Vec<u8> {
    let mut v: Vec<u8> = vec![];
    let n = size(max);
    let style = draw(4); // swarm: which alphabet dominates
    for _ in 0..n {
        let w = match style {
            0 => weighted(&[6, 3, 5, 1, 1, 1, 1, 1, 1, 0]),
            1 => weighted(&[1, 4, 5, 3, 2, 2, 2, 1, 0, 0]),
            2 => weighted(&[1, 1, 8, 1, 1, 1, 4, 1, 0, 0]),
            _ => weighted(&[3, 3, 3, 2, 2, 2, 2, 2, 1, 1]),
        };
        match w {
            0 => v.extend(*pick(&[&b"abc"[..], b"Hello", b"x", b".", b"--"])),
            1 => v.extend(wsp_run().bytes()),
            2 => v.extend(b"\r\n"),
            3 => v.push(b'\r'),
            4 => v.push(b'\n'),
            5 => v.extend(b" \r\n"),
            6 => {
                for _ in 0..range(2, 5) {
                    v.extend(b"\r\n");
                }
            }
            7 => match draw(3) {
                0 => v.extend(*pick(&[&b"\0"[..], b"\xff\xfe", "é".as_bytes(), b"\x1a", b"\x0b"])),
                1 => v.extend(*pick(&[&b"\x0c"[..], b"\x85", b"\xa0", "\u{a0}".as_bytes(), "\u{2028}".as_bytes(), b"\x1c", b"\x7f"])),
                _ => v.extend((0..range(1, 12)).map(|_| draw(256) as u8)),
            },
            8 => v.extend(std::iter::repeat(b'w').take(range(50, 200) as usize)),
            _ => v.extend(b"\r\r\n"),
        }
    }
    if chance(4) {
        // long runs of one thing, in particular such as to overflow a count
        let n = match draw(8) {
            0..=3 => 254 + draw(6),
            4 | 5 => 1020 + draw(10),
            6 => range(300, 5000),
            _ => 65_533 + draw(6),
        } as usize;
        let unit: &[u8] = pick(&[&b"\r\n"[..], b" ", b"\t", b"w", b"\r", b"\n", b" \r\n", b"a\r\n"]);
        let at = draw(v.len() as u64 + 1) as usize;
        let tail = v.split_off(at);
        v.extend(unit.repeat(n));
        v.extend(tail);
        crate::log::count("body_long_run");
    }
    if chance(40) {
        v.extend(b"\r\n");
    }
    v
}

// ---------------------------------------------------------------- chunking

/// Cuts `body` into chunks; empty ones are included.
pub fn chunks(body: &[u8]) -> Vec<Vec<u8>> {
    let n = body.len();
    let mut cuts: Vec<usize> = vec![];
    match draw(6) {
        0 => {}
        1 if n <= 600 => cuts.extend(1..n),
        2 => {
            // between the bytes that matter
            for i in 1..n {
                if matches!(body[i - 1], b'\r' | b'\n' | b' ' | b'\t') && chance(60) {
                    cuts.push(i);
                }
            }
        }
        3 => {
            let k = range(1, 7) as usize;
            cuts.extend((1..n).filter(|i| i % k == 0));
        }
        _ => {
            for _ in 0..size(12) {
                cuts.push(draw(n as u64 + 1) as usize);
            }
        }
    }
    if n > 0 && chance(15) {
        cuts.extend(vec![draw(n as u64 + 1) as usize; 2]);
    }
    cuts.sort();
    let mut v = vec![];
    let mut last = 0;
    for c in cuts {
        v.push(body[last..c].to_vec());
        last = c;
    }
    if last < n || !chance(20) {
        v.push(body[last..].to_vec());
    }
    if chance(15) {
        let at = draw(v.len() as u64 + 1) as usize;
        v.insert(at, vec![]);
    }
    v
}

// ---------------------------------------------------------------- sign requests

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Len {
    NoLimit,
    Content,
    Exact(u64),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ts {
    None,
    Now,
    Exact(u64),
}

#[derive(Clone, Debug)]
pub struct Req {
    pub key: usize,
    pub sha1: bool,
    pub hc: Canon,
    pub bc: Canon,
    pub domain: String,
    pub selector: String,
    /// `None` is the automatic selection.
    pub names: Option<Vec<String>>,
    pub identity: Option<String>,
    pub len: Len,
    pub ts: Ts,
    pub dur: Option<Duration>,
    pub copy: bool,
    pub ext: Vec<(String, String)>,
    pub header_name: String,
    pub width: usize,
    pub indent: String,
    pub order: Option<u64>,
    pub ascii: bool,
}

fn lib_canon(c: Canon) -> CanonicalizationAlgorithm {
    match c {
        Canon::Simple => CanonicalizationAlgorithm::Simple,
        Canon::Relaxed => CanonicalizationAlgorithm::Relaxed,
    }
}

impl Req {
    pub fn plain(key: usize, domain: &str, selector: &str) -> Self {
        Self {
            key,
            sha1: false,
            hc: Canon::Relaxed,
            bc: Canon::Relaxed,
            domain: domain.into(),
            selector: selector.into(),
            names: None,
            identity: None,
            len: Len::NoLimit,
            ts: Ts::None,
            dur: None,
            copy: false,
            ext: vec![],
            header_name: "DKIM-Signature".into(),
            width: 78,
            indent: "\t".into(),
            order: None,
            ascii: false,
        }
    }

    pub fn alg(&self) -> SigningAlgorithm {
        if !keys::all()[self.key].is_rsa() {
            return SigningAlgorithm::Ed25519Sha256;
        }
        if self.sha1 {
            #[cfg(feature = "pre-rfc8301")]
            return SigningAlgorithm::RsaSha1;
        }
        SigningAlgorithm::RsaSha256
    }

    /// The library's request. Panics only on a harness error.
    pub fn build(&self) -> SignRequest<Arc<SigningKey>> {
        let mut r = SignRequest::new(
            DomainName::new(self.domain.as_str()).expect("domain"),
            Selector::new(self.selector.as_str()).expect("selector"),
            self.alg(),
            keys::all()[self.key].signing.clone(),
        );
        r.canonicalization = Canonicalization::from((lib_canon(self.hc), lib_canon(self.bc)));
        r.header_selection = match &self.names {
            None => HeaderSelection::Auto,
            Some(v) => HeaderSelection::Manual(
                v.iter().map(|n| FieldName::new(n.as_str()).expect("name")).collect(),
            ),
        };
        r.identity = self.identity.as_ref().map(|i| Identity::new(i).expect("identity"));
        r.body_length = match self.len {
            Len::NoLimit => BodyLength::NoLimit,
            Len::Content => BodyLength::MessageContent,
            Len::Exact(n) => BodyLength::Exact(n),
        };
        r.timestamp = match self.ts {
            Ts::None => Timestamp::None,
            Ts::Now => Timestamp::Now,
            Ts::Exact(t) => Timestamp::Exact(t),
        };
        r.valid_duration = self.dur;
        r.copy_headers = self.copy;
        r.ext_tags = self.ext.clone();
        r.format = OutputFormat {
            header_name: self.header_name.clone(),
            line_width: self.width.try_into().unwrap(),
            indentation: self.indent.clone(),
            tag_order: self.order.map(|o| -> Box<dyn Fn(&str, &str) -> Ordering + Send + Sync> {
                match o {
                    0 => Box::new(|a: &str, b: &str| a.cmp(b)),
                    1 => Box::new(|a: &str, b: &str| b.cmp(a)),
                    s => Box::new(move |a: &str, b: &str| {
                        (mix(s, a), a).cmp(&(mix(s, b), b))
                    }),
                }
            }),
            ascii_only: self.ascii,
        };
        r
    }

    /// Body hash key as the request selects it.
    pub fn limit(&self) -> Option<u64> {
        match self.len {
            Len::Exact(n) => Some(n),
            _ => None,
        }
    }
}

fn mix(s: u64, x: &str) -> u64 {
    let mut h = s ^ 0xcbf2_9ce4_8422_2325;
    for b in x.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

pub fn canon() -> Canon {
    if draw(2) == 0 {
        Canon::Relaxed
    } else {
        Canon::Simple
    }
}

/// A list of names for the h= tag that includes From.
pub fn name_list(headers: &[Field], oversign_pct: u32) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for (n, _) in headers.iter().rev() {
        if n.eq_ignore_ascii_case("from") || !chance(35) {
            if !n.contains(';') {
                v.push(recase(n));
            }
        }
    }
    if chance(oversign_pct) {
        for _ in 0..range(1, 3) {
            let n = match draw(5) {
                0 => "From".to_string(),
                1 => pick(&NAMES).to_string(),
                4 => near_name(&pick(headers).0),
                _ => pick(headers).0.clone(),
            };
            if !n.contains(';') {
                v.push(recase(&n));
            }
        }
    }
    if !v.is_empty() && chance(20) {
        let (i, j) = (draw(v.len() as u64) as usize, draw(v.len() as u64) as usize);
        v.swap(i, j);
    }
    v
}

pub struct ReqKnobs {
    pub limit_pct: u32,
    pub time_pct: u32,
    pub odd_format_pct: u32,
    pub sign_sigs_pct: u32,
}

impl Default for ReqKnobs {
    fn default() -> Self {
        Self { limit_pct: 30, time_pct: 0, odd_format_pct: 40, sign_sigs_pct: 4 }
    }
}

/// A length limit interesting for `body`.
pub fn limit(body: &[u8]) -> u64 {
    let n = body.len() as u64;
    match draw(7) {
        6 => {
            // congruent to something small, or just huge
            let small = draw(n + 4);
            match draw(6) {
                0 => (1 << 32) + small,
                1 => (1 << 16) + small,
                2 => 256 + small,
                3 => (1 << 31) + small,
                4 => (1 << 63) + small,
                _ => u64::MAX - draw(3),
            }
        }
        0 => 0,
        1 => draw(4),
        2 => draw(n + 1),
        3 => {
            let c = model::canon_body(canon(), body).map_or(n, |c| c.len() as u64);
            (c + 2).saturating_sub(draw(5))
        }
        4 => n,
        _ => draw(n + 8),
    }
}

pub fn request(acc: &Account, headers: &[Field], body: &[u8], k: &ReqKnobs) -> Req {
    let mut r = Req::plain(acc.key, &respell(&acc.domain), &respell(&acc.selector));
    r.hc = canon();
    r.bc = canon();
    if chance(60) {
        let mut names = name_list(headers, 30);
        if chance(k.sign_sigs_pct) {
            for _ in 0..pick(&[1, 1, 2]).clone() {
                names.push("DKIM-Signature".into());
            }
        }
        r.names = Some(names);
    }
    if chance(30) {
        let sub = pick(&["", "", "sub.", "a.B."]);
        let d = format!("{sub}{}", respell(&acc.domain));
        let lp = pick(&["", "me", "a.b+c", "\"q q\"", "\"a\\\"b\"", "ü", "x|y", "x=y"]);
        r.identity = Some(format!("{lp}@{d}"));
    }
    r.len = if chance(k.limit_pct) {
        if draw(2) == 0 {
            Len::Content
        } else {
            Len::Exact(limit(body))
        }
    } else {
        Len::NoLimit
    };
    if k.time_pct > 0 && chance(k.time_pct) {
        r.ts = match draw(3) {
            0 => Ts::Now,
            1 => Ts::None,
            _ => Ts::Exact(1_699_990_000 + draw(20_000)),
        };
        r.dur = match draw(4) {
            0 => None,
            1 => Some(Duration::from_secs(range(1, 3))),
            2 => Some(Duration::from_millis(range(1000, 5000))),
            _ => Some(Duration::from_secs(range(1, 1_000_000))),
        };
    }
    r.copy = chance(20);
    if chance(20) {
        r.ext.push(("r".into(), "y".into()));
        if chance(35) {
            // names that may look like those of defined tags
            let n = ext_tag_name();
            if !r.ext.iter().any(|(o, _)| *o == n) {
                r.ext.push((n, ext_tag_value()));
            }
        }
        if chance(50) && !r.ext.iter().any(|(o, _)| o == "Xx_1") {
            r.ext.push(("Xx_1".into(), pick(&["", "a b\r\n c", "a=b", "ü:x", "b64=="]).to_string()));
        }
    }
    if chance(k.odd_format_pct) {
        r.header_name = pick(&["DKIM-Signature", "Dkim-Signature", "dkim-signature", "DKIM-SIGNATURE"]).to_string();
        r.width = *pick(&[78usize, 1, 10, 20, 40, 60, 998, 100_000]);
        r.indent = pick(&["\t", " ", "  ", " \t", "        "]).to_string();
        r.order = match draw(4) {
            0 => None,
            1 => Some(0),
            2 => Some(1),
            _ => Some(2 + draw(1000)),
        };
        r.ascii = draw(2) == 1;
    }
    r
}

// ---------------------------------------------------------------- foreign signer

/// A signature by another implementation, possibly oddly formatted.
#[derive(Clone, Debug)]
pub struct Foreign {
    pub key: usize,
    pub sha1: bool,
    pub hc: Canon,
    pub bc: Canon,
    pub d: String,
    pub s: String,
    pub h: Vec<String>,
    pub i: Option<String>,
    pub l: Option<u64>,
    pub t: Option<u64>,
    pub x: Option<u64>,
    pub bh: Option<Vec<u8>>,
    pub odd: bool,
    pub name: String,
}

impl Foreign {
    pub fn plain(acc: &Account, headers: &[Field]) -> Self {
        Self {
            key: acc.key,
            sha1: false,
            hc: canon(),
            bc: canon(),
            d: respell(&acc.domain),
            s: respell(&acc.selector),
            h: name_list(headers, 25),
            i: None,
            l: None,
            t: None,
            x: None,
            bh: None,
            odd: chance(40),
            name: "DKIM-Signature".into(),
        }
    }
}

fn fws(odd: bool) -> &'static str {
    if odd && chance(25) {
        pick(&[" ", "\r\n ", "\t", " \r\n\t", "  "])
    } else {
        ""
    }
}

fn fold(s: &str, odd: bool) -> String {
    if !odd || s.len() < 4 {
        return s.to_string();
    }
    let mut r = String::new();
    let step = range(3, 70) as usize;
    for (i, c) in s.chars().enumerate() {
        if i > 0 && i % step == 0 {
            r.push_str(pick(&["\r\n ", " ", "\t", "\r\n\t"]));
        }
        r.push(c);
    }
    r
}

/// Makes the signature header. `None` if the body's canonical form is open and
/// no body hash was given, or the body is shorter than the limit.
pub fn foreign(f: &Foreign, headers: &[Field], body: &[u8]) -> Option<Field> {
    let bh = match &f.bh {
        Some(b) => b.clone(),
        None => {
            let c = model::canon_body(f.bc, body)?;
            let c = match f.l {
                Some(l) => c.get(..usize::try_from(l).ok()?)?,
                None => &c[..],
            };
            model::hash(f.sha1, c)
        }
    };
    let odd = f.odd;
    let key = &keys::all()[f.key];
    let alg = match (key.is_rsa(), f.sha1) {
        (false, _) => "ed25519-sha256",
        (true, false) => "rsa-sha256",
        (true, true) => "rsa-sha1",
    };
    let cs = |c: Canon| if c == Canon::Simple { "simple" } else { "relaxed" };
    let mut tags: Vec<(String, String)> = vec![];
    tags.push(("a".into(), if odd && chance(20) { alg.to_uppercase() } else { alg.into() }));
    if !(f.hc == Canon::Simple && f.bc == Canon::Simple && odd && chance(50)) {
        let c = if f.bc == Canon::Simple && odd && chance(50) {
            cs(f.hc).to_string()
        } else {
            format!("{}/{}", cs(f.hc), cs(f.bc))
        };
        tags.push(("c".into(), if odd && chance(10) { c.to_uppercase() } else { c }));
    }
    tags.push(("d".into(), f.d.clone()));
    tags.push(("s".into(), f.s.clone()));
    let mut h = String::new();
    for (i, n) in f.h.iter().enumerate() {
        if i > 0 {
            h.push_str(fws(odd));
            h.push(':');
            h.push_str(fws(odd));
        }
        h.push_str(n);
    }
    tags.push(("h".into(), h));
    tags.push(("bh".into(), fold(&Base64::encode_string(&bh), odd && chance(50))));
    if let Some(i) = &f.i {
        let enc: String =
            i.chars().map(|c| match c {
                ' ' => "=20".to_string(),
                ';' => "=3B".to_string(),
                '=' => "=3D".to_string(),
                c => c.to_string(),
            }).collect();
        tags.push(("i".into(), enc));
    }
    for (n, v) in [("l", f.l), ("t", f.t), ("x", f.x)] {
        if let Some(v) = v {
            tags.push((n.into(), if odd && chance(10) { format!("00{v}") } else { v.to_string() }));
        }
    }
    if odd && chance(25) {
        tags.push(("q".into(), pick(&["dns/txt", "foo:dns/txt", "DNS/TXT : bar"]).to_string()));
    }
    if odd && chance(25) {
        tags.push(("zz".into(), pick(&["", "b=1", "ext value", "é"]).to_string()));
    }
    if odd && chance(30) {
        let n = ext_tag_name();
        if !tags.iter().any(|(o, _)| *o == n) {
            tags.push((n, ext_tag_value()));
        }
    }
    tags.push(("b".into(), "\u{1}".into()));
    if odd {
        for i in (1..tags.len()).rev() {
            let j = draw(i as u64 + 1) as usize;
            tags.swap(i, j);
        }
    }
    let vat = if odd { draw(tags.len() as u64 + 1) as usize } else { 0 };
    tags.insert(vat, ("v".into(), "1".into()));

    let mut value = String::new();
    let n = tags.len();
    for (i, (name, v)) in tags.iter().enumerate() {
        // white space before the tag name: usually folding after some tags
        if odd {
            value.push_str(pick(&[" ", " ", "\r\n ", "", "\r\n\t", " \r\n  "]));
        } else {
            value.push_str(if i % 3 == 0 && i > 0 { "\r\n\t" } else { " " });
        }
        value.push_str(name);
        value.push_str(if v.is_empty() { "" } else { fws(odd) });
        value.push('=');
        if !v.is_empty() {
            value.push_str(fws(odd));
        }
        value.push_str(v);
        if i + 1 < n {
            if !v.is_empty() {
                value.push_str(fws(odd));
            }
            value.push(';');
        } else if odd && chance(40) {
            value.push(';');
        }
    }
    let stripped = {
        // everything between '=' of b and the next ';' goes
        let m = value.find('\u{1}').unwrap();
        let start = value[..m].rfind('=').unwrap() + 1;
        let end = value[m..].find(';').map_or(value.len(), |e| m + e);
        format!("{}{}", &value[..start], &value[end..])
    };
    let input =
        model::header_hash_input(f.hc, headers, None, &f.h, &f.name, stripped.as_bytes());
    let b = key.sign(f.sha1, &input);
    let b64 = Base64::encode_string(&b);
    let folded = fold(&b64, odd || key.is_rsa());
    let value = value.replace('\u{1}', &folded);
    Some((f.name.clone(), value.into_bytes()))
}

// ---------------------------------------------------------------- malformed signatures

/// A signature header no verifier can use, derived from a good one.
/// A signature value edited in a few places, by tag or by character. What
/// comes out may or may not be a well-formed signature.
fn mutated(base: &str) -> String {
    let mut segs: Vec<String> = base.split(';').map(|s| s.to_string()).collect();
    let find = |segs: &[String], t: &str| {
        segs.iter().position(|s| s.split('=').next().unwrap_or("").trim() == t)
    };
    for _ in 0..*pick(&[1, 1, 1, 2, 3]) {
        let n = segs.len();
        let at = draw(n as u64) as usize;
        match draw(9) {
            0 => {
                if n > 1 {
                    segs.remove(at);
                }
            }
            1 => {
                let t = segs[at].clone();
                segs.insert(draw(n as u64 + 1) as usize, t);
            }
            2 => {
                let to = draw(n as u64) as usize;
                segs.swap(at, to);
            }
            3 => {
                // another case of a tag's name or value
                let s = segs[at].clone();
                if let Some((a, b)) = s.split_once('=') {
                    segs[at] = match draw(3) {
                        0 => format!("{}={b}", a.to_ascii_uppercase()),
                        1 => format!("{a}={}", b.to_ascii_uppercase()),
                        _ => format!("{a}={}", b.to_ascii_lowercase()),
                    };
                }
            }
            4 => {
                // a value from the edge of what the tag allows
                let tags: [(&str, &[&str]); 14] = [
                    ("v", &["1", "01", "", "1.0", "2", " 1 ", "11", "1 1", "l", "0"]),
                    ("a", &["rsa-sha256", "RSA-SHA256", "rsa-sha1", "ed25519-sha1", "rsa", "sha256", "rsa - sha256", "ed25519-sha256", "-", "", "rsa-sha256-", "rsa-sha512", "dsa-sha256"]),
                    ("c", &["simple", "relaxed", "simple/", "/simple", "/", "simple/relaxed/", "relaxed/simple", "SIMPLE", "Relaxed/Simple", "relaxed / simple", "nowsp", "relaxed/", "", "simple/nofws", "relaxed/relaxed"]),
                    ("d", &["example", "example.com.", ".example.com", "exam_ple.com", "-a.example", "a-.example", "a..example", "EXAMPLE.com", "xn--bcher-kva.example", "localhost", "", "ex ample.com", "1.2.3.4", "a.1", "123.example", "_x.example"]),
                    ("s", &["a.b.c", "a..b", ".a", "a.", "_x", "-", "x_y", "a b", "", "1", "*", "xn--zz", "0-0"]),
                    ("h", &["From", "from", "From:", ":From", "From::To", "To", "From : To", "From:To:From:From", "Fröm:From", "From:a b", "F rom", "from:\r\n to", "From:b:=", "From!:From", "From,To"]),
                    ("i", &["@", "", "x", "x@", "@@", "a@b@", "=40", "x=40y@", "\"a b\"@", "=", "a..b@", "=GG@", "=4@", ".a@"]),
                    ("l", &["0", "00", "-1", "1.5", "0x1", "1 0", "", "18446744073709551615", "18446744073709551616", "9999999999999999999999", "1e3", "٣"]),
                    ("t", &["0", "-1", "", "1 2", "00012", "99999999999999999999", "abc", "1.", "0x10"]),
                    ("x", &["0", "-1", "", "1 2", "00012", "99999999999999999999", "abc", "2 "]),
                    ("q", &["dns/txt", "dns", "dns/", "dns/txt:", ":dns/txt", "foo : dns/txt", "dns / txt", "DNS/TXT", "dns/txt/x", "", "foo", "dns/foo:dns/txt"]),
                    ("bh", &["", "=", "====", "AA==", "AAA", "AAAA", "A A A A", "AA=A", "AAAA=", "AAB=", "****", "AAAA;"]),
                    ("b", &["", "=", "AA==", "AAA", "AAAA", "A\r\n AAA", "AAB=", "AAAA====", "A-_A"]),
                    ("z", &["", "From:x", "From", ":x", "From:a|To:b", "From:a|", "|From:a", "From:=20=3B", "From:=2", "Fr=6Fm:x", "From=3Ax", "From : x", "From:=ZZ", "From:a=FFb", "From:=3b"]),
                ];
                let (t, vs) = pick(&tags);
                let mut v = pick(vs).to_string();
                if *t == "i" && v.ends_with('@') && chance(70) {
                    let d = find(&segs, "d").and_then(|i| segs[i].split_once('=').map(|x| x.1.trim().to_string()));
                    v.push_str(*pick(&["", "", "mail.", ".", "not", "a.b."]));
                    v.push_str(&d.unwrap_or_default());
                }
                let seg = format!(" {t}={v}");
                match find(&segs, t) {
                    Some(i) => segs[i] = seg,
                    None => segs.insert(at, seg),
                }
            }
            5 => segs.insert(at, pick(&["", " ", "\r\n ", " =", " x", " _x=1", " 1x=1", " x y=1", " x-y=", " x=", "\r\n\tx1_ = \r\n y"]).to_string()),
            _ => {
                // characters
                let mut cs: Vec<char> = segs.join(";").chars().collect();
                let p = draw(cs.len() as u64 + 1) as usize;
                let c = *pick(&[' ', '\t', ';', '=', ':', '/', '|', '@', '.', '-', '_', '0', '1', 'A', 'z', 'é', '"', '+', ',', '~', '!']);
                match draw(5) {
                    0 if p < cs.len() => {
                        cs.remove(p);
                    }
                    1 if p < cs.len() => cs[p] = c,
                    2 => {
                        for (i, c) in pick(&["\r\n ", "\r\n\t", " \r\n \r\n ", "  ", "\r\n"]).chars().enumerate() {
                            cs.insert(p + i, c);
                        }
                    }
                    3 if p + 1 < cs.len() => cs.swap(p, p + 1),
                    _ => cs.insert(p, c),
                }
                segs = cs.into_iter().collect::<String>().split(';').map(|s| s.to_string()).collect();
            }
        }
    }
    segs.join(";")
}

pub fn malformed(good: Option<&Field>) -> Field {
    let name = recase("DKIM-Signature");
    let base = good.map_or_else(
        || " v=1; a=rsa-sha256; d=example.com; s=sel; h=From; bh=YWJj; b=YWJj".to_string(),
        |f| String::from_utf8_lossy(&f.1).into_owned(),
    );
    let repl = |tag: &str, v: &str| {
        let mut r = String::new();
        for (i, seg) in base.split(';').enumerate() {
            if i > 0 {
                r.push(';');
            }
            let t = seg.split('=').next().unwrap_or("").trim();
            if t == tag {
                r.push_str(v);
            } else {
                r.push_str(seg);
            }
        }
        r.into_bytes()
    };
    if good.is_some() && chance(50) {
        for _ in 0..4 {
            let v = mutated(&base);
            if viadkim::FieldBody::new(v.as_bytes()).is_ok() {
                return (name, v.into_bytes());
            }
        }
    }
    let v: Vec<u8> = match draw(23) {
        0 => b"".to_vec(),
        1 => b" garbage".to_vec(),
        2 => b" \xff\xfe".to_vec(),
        3 => repl("v", " v=2"),
        4 => repl("a", " a=rsa-md5"),
        5 => repl("d", " d=not..valid"),
        6 => repl("s", " s="),
        7 => repl("h", " h=To:Subject"),
        8 => repl("bh", " bh=***"),
        9 => repl("b", " b="),
        10 => repl("b", " bx=1"),
        11 => repl("bh", " bhx=1"),
        12 => repl("d", " d=example.com; d=example.org"),
        13 => repl("d", " d=other.example; i=@example.com"),
        14 => repl("v", " x=5; t=9"),
        15 => repl("v", " v=1; t=abc"),
        16 => repl("v", " v=1; q=dns/foo"),
        17 => repl("v", " v=1; l=99999999999999999999999"),
        20 => repl("d", " d=example.com; i=me@notexample.com"),
        21 => repl("d", " d=mail.example.com; i=me@example.com"),
        22 => repl("b", " B=YWJj"),
        18 => repl("a", " c=bogus/simple; a=rsa-sha256"),
        _ => repl("h", " h="),
    };
    (name, v)
}
