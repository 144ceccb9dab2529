//! Executable reference: RFC 6376 evaluation of one message, batch style.
//!
//! Written from the RFCs, independent of the library: whole-message
//! canonicalization, its own tag-list and key record parsing, its own choice of
//! key, crypto through `rsa`/`ed25519-dalek`/`sha2`. Verdicts are *sets*: the
//! causes of the earliest failing stage.

use base64ct::{Base64, Encoding};
use rsa::{traits::PublicKeyParts, Pkcs1v15Sign, RsaPublicKey};
use sha2::Digest;
use std::collections::BTreeSet;

pub type Field = (String, Vec<u8>);

pub const PRE8301: bool = cfg!(feature = "pre-rfc8301");
pub const HARD_MIN_BITS: usize = if PRE8301 { 512 } else { 1024 };

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Canon {
    Simple,
    Relaxed,
}

// ---------------------------------------------------------------- body

/// Canonical body, or `None` where the RFC leaves the result open: relaxed, and
/// the last line is unterminated and whitespace only.
pub fn canon_body(c: Canon, body: &[u8]) -> Option<Vec<u8>> {
    match c {
        Canon::Simple => {
            let mut b = body;
            while b.ends_with(b"\r\n") {
                b = &b[..b.len() - 2];
            }
            let mut r = b.to_vec();
            r.extend(b"\r\n");
            Some(r)
        }
        Canon::Relaxed => {
            let mut lines: Vec<Vec<u8>> = vec![];
            let mut rest = body;
            loop {
                match rest.windows(2).position(|w| w == b"\r\n") {
                    Some(i) => {
                        lines.push(relax_line(&rest[..i]));
                        rest = &rest[i + 2..];
                    }
                    None => {
                        if !rest.is_empty() {
                            let l = relax_line(rest);
                            if l.is_empty() {
                                return None;
                            }
                            lines.push(l);
                        }
                        break;
                    }
                }
            }
            while lines.last().map_or(false, |l| l.is_empty()) {
                lines.pop();
            }
            let mut r = vec![];
            for l in lines {
                r.extend(l);
                r.extend(b"\r\n");
            }
            Some(r)
        }
    }
}

fn is_wsp(b: u8) -> bool {
    b == b' ' || b == b'\t'
}

fn relax_line(l: &[u8]) -> Vec<u8> {
    let mut end = l.len();
    while end > 0 && is_wsp(l[end - 1]) {
        end -= 1;
    }
    let mut r = vec![];
    let mut prev = false;
    for &b in &l[..end] {
        if is_wsp(b) {
            if !prev {
                r.push(b' ');
            }
            prev = true;
        } else {
            r.push(b);
            prev = false;
        }
    }
    r
}

pub fn hash(sha1: bool, data: &[u8]) -> Vec<u8> {
    if sha1 {
        sha1::Sha1::digest(data).to_vec()
    } else {
        sha2::Sha256::digest(data).to_vec()
    }
}

// ---------------------------------------------------------------- header

pub fn canon_header(c: Canon, name: &str, value: &[u8]) -> Vec<u8> {
    match c {
        Canon::Simple => {
            let mut r = name.as_bytes().to_vec();
            r.push(b':');
            r.extend(value);
            r
        }
        Canon::Relaxed => {
            let mut r = name.to_ascii_lowercase().into_bytes();
            r.push(b':');
            // unfold, reduce, trim
            let unfolded: Vec<u8> =
                value.iter().copied().filter(|b| *b != b'\r' && *b != b'\n').collect();
            let relaxed = relax_line(&unfolded);
            let s = if relaxed.first() == Some(&b' ') { &relaxed[1..] } else { &relaxed[..] };
            r.extend(s);
            r
        }
    }
}

/// The header hash input for the signature header at `own` (or a new one when
/// `own` is `None`), whose value without signature is `stripped`.
pub fn header_hash_input(
    c: Canon,
    headers: &[Field],
    own: Option<usize>,
    h: &[String],
    sig_name: &str,
    stripped: &[u8],
) -> Vec<u8> {
    let mut used = BTreeSet::new();
    let mut r = vec![];
    for name in h {
        let found = (0..headers.len()).rev().find(|i| {
            Some(*i) != own && !used.contains(i) && headers[*i].0.eq_ignore_ascii_case(name)
        });
        if let Some(i) = found {
            used.insert(i);
            r.extend(canon_header(c, &headers[i].0, &headers[i].1));
            r.extend(b"\r\n");
        }
    }
    r.extend(canon_header(c, sig_name, stripped));
    r
}

// ---------------------------------------------------------------- tag lists

#[derive(Clone, Debug)]
pub struct Tag<'a> {
    pub name: &'a str,
    pub value: &'a str,
    /// Byte range of everything after `=` up to `;` or the end.
    pub raw: (usize, usize),
}

fn strip_fws_start(s: &str) -> &str {
    // one FWS = [*WSP CRLF] 1*WSP
    let t = s.trim_start_matches([' ', '\t']);
    if let Some(u) = t.strip_prefix("\r\n") {
        let v = u.trim_start_matches([' ', '\t']);
        if v.len() < u.len() {
            return v;
        }
    }
    t
}

fn strip_fws_end(s: &str) -> &str {
    let t = s.trim_end_matches([' ', '\t']);
    if t.len() == s.len() {
        return s;
    }
    if let Some(u) = t.strip_suffix("\r\n") {
        return u.trim_end_matches([' ', '\t']);
    }
    t
}

/// Value characters with inner FWS only between non-blank runs.
fn valid_value(v: &str) -> bool {
    let ok = |c: char| matches!(c, '!'..=':' | '<'..='~') || !c.is_ascii();
    let mut s = v;
    loop {
        let t = s.trim_start_matches(ok);
        if t.len() == s.len() {
            return false;
        }
        if t.is_empty() {
            return true;
        }
        let u = strip_fws_start(t);
        if u.len() == t.len() {
            return false;
        }
        s = u;
    }
}

pub fn parse_tags(s: &str) -> Option<Vec<Tag<'_>>> {
    let mut tags = vec![];
    let mut pos = 0;
    let segs: Vec<&str> = s.split(';').collect();
    let n = segs.len();
    for (i, seg) in segs.into_iter().enumerate() {
        if i == n - 1 && i > 0 && seg.is_empty() {
            break;
        }
        let eq = seg.find('=')?;
        let name = strip_fws_end(strip_fws_start(&seg[..eq]));
        let mut cs = name.chars();
        if !cs.next().map_or(false, |c| c.is_ascii_alphabetic())
            || !cs.all(|c| c.is_ascii_alphanumeric() || c == '_')
        {
            return None;
        }
        let value = strip_fws_end(strip_fws_start(&seg[eq + 1..]));
        if !value.is_empty() && !valid_value(value) {
            return None;
        }
        tags.push(Tag { name, value, raw: (pos + eq + 1, pos + seg.len()) });
        pos += seg.len() + 1;
    }
    let mut seen = BTreeSet::new();
    if tags.is_empty() || !tags.iter().all(|t| seen.insert(t.name)) {
        return None;
    }
    Some(tags)
}

fn no_ws(v: &str) -> String {
    v.chars().filter(|c| !matches!(c, ' ' | '\t' | '\r' | '\n')).collect()
}

pub fn b64(v: &str) -> Option<Vec<u8>> {
    let s = no_ws(v);
    let bytes = s.as_bytes();
    // tolerate non-canonical trailing bits the way decoders do? No: strict.
    if !bytes.iter().all(|b| b.is_ascii_alphanumeric() || matches!(b, b'+' | b'/' | b'=')) {
        return None;
    }
    Base64::decode_vec(&s).ok()
}

pub fn qp_decode(v: &str) -> Option<Vec<u8>> {
    let s = no_ws(v);
    let b = s.as_bytes();
    let mut r = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'=' {
            let h = std::str::from_utf8(b.get(i + 1..i + 3)?).ok()?;
            if !h.bytes().all(|c| c.is_ascii_hexdigit()) {
                return None;
            }
            r.push(u8::from_str_radix(h, 16).ok()?);
            i += 3;
        } else {
            r.push(b[i]);
            i += 1;
        }
    }
    Some(r)
}

// ---------------------------------------------------------------- domains

/// ASCII, lower-case form of a domain or selector, if it is acceptable. The IDNA
/// conversion itself is the idna crate's, and trusted.
pub fn to_ascii(s: &str) -> Option<String> {
    let a = idna::domain_to_ascii(s).ok()?;
    idna::domain_to_unicode(s).1.ok()?;
    let label = |l: &str| {
        (1..=63).contains(&l.len())
            && !l.starts_with('-')
            && !l.ends_with('-')
            && l.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-' || b == b'_')
    };
    ((1..=253).contains(&a.len()) && a.split('.').all(label)).then(|| a.to_ascii_lowercase())
}

/// As `to_ascii`, but the last label must not be a number.
pub fn domain_to_ascii(s: &str) -> Option<String> {
    to_ascii(s).filter(|a| !a.rsplit('.').next().unwrap().bytes().all(|b| b.is_ascii_digit()))
}

/// RFC 5321 and 6531 local parts.
fn local_part(s: &str) -> bool {
    if s.len() > 64 {
        return false;
    }
    if let Some(q) = s.strip_prefix('"') {
        let mut cs = q.chars();
        loop {
            match cs.next() {
                None => return false,
                Some('"') => return cs.next().is_none(),
                Some('\\') => match cs.next() {
                    Some(' '..='~') => {}
                    _ => return false,
                },
                Some(c) if c.is_ascii() && !(' '..='~').contains(&c) => return false,
                Some(_) => {}
            }
        }
    }
    s.split('.').all(|a| {
        !a.is_empty()
            && a.chars().all(|c| {
                !c.is_ascii() || c.is_ascii_alphanumeric() || "!#$%&'*+-/=?^_`{|}~".contains(c)
            })
    })
}

// ---------------------------------------------------------------- signatures

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Alg {
    RsaSha256,
    EdSha256,
    RsaSha1,
}

impl Alg {
    pub fn is_rsa(self) -> bool {
        self != Alg::EdSha256
    }
    pub fn is_sha1(self) -> bool {
        self == Alg::RsaSha1
    }
}

#[derive(Clone, Debug)]
pub struct Sig {
    pub alg: Alg,
    pub b: Vec<u8>,
    pub bh: Vec<u8>,
    pub hc: Canon,
    pub bc: Canon,
    pub d: String,
    pub s: String,
    pub d_ascii: String,
    pub s_ascii: String,
    pub h: Vec<String>,
    pub i: Option<(Option<String>, String)>,
    pub i_ascii: Option<String>,
    pub l: Option<u64>,
    pub t: Option<u64>,
    pub x: Option<u64>,
    pub z: Vec<(String, Vec<u8>)>,
    pub ext: Vec<(String, String)>,
    pub stripped: Vec<u8>,
}

fn canon_of(s: &str) -> Option<Canon> {
    match s.to_ascii_lowercase().as_str() {
        "simple" => Some(Canon::Simple),
        "relaxed" => Some(Canon::Relaxed),
        _ => None,
    }
}

fn digits(s: &str) -> Option<u64> {
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    s.parse().ok()
}

/// Parses a signature header value; an `Err` is any format failure.
pub fn parse_sig(value: &[u8]) -> Result<Sig, String> {
    let e = |m: &str| m.to_string();
    let s = std::str::from_utf8(value).map_err(|_| e("utf-8"))?;
    let tags = parse_tags(s).ok_or_else(|| e("tag list"))?;
    let get = |n: &str| tags.iter().find(|t| t.name == n);
    if get("v").ok_or_else(|| e("no v"))?.value != "1" {
        return Err(e("version"));
    }
    let alg = match get("a").ok_or_else(|| e("no a"))?.value.to_ascii_lowercase().as_str() {
        "rsa-sha256" => Alg::RsaSha256,
        "ed25519-sha256" => Alg::EdSha256,
        "rsa-sha1" if PRE8301 => Alg::RsaSha1,
        _ => return Err(e("algorithm")),
    };
    let b = b64(get("b").ok_or_else(|| e("no b"))?.value).filter(|b| !b.is_empty()).ok_or_else(|| e("b"))?;
    let bh = b64(get("bh").ok_or_else(|| e("no bh"))?.value).filter(|b| !b.is_empty()).ok_or_else(|| e("bh"))?;
    let (hc, bc) = match get("c") {
        None => (Canon::Simple, Canon::Simple),
        Some(t) => match t.value.split_once('/') {
            Some((a, b)) => {
                (canon_of(a).ok_or_else(|| e("c"))?, canon_of(b).ok_or_else(|| e("c"))?)
            }
            None => (canon_of(t.value).ok_or_else(|| e("c"))?, Canon::Simple),
        },
    };
    let d = get("d").ok_or_else(|| e("no d"))?.value.to_string();
    let d_ascii = domain_to_ascii(&d).ok_or_else(|| e("d"))?;
    let sel = get("s").ok_or_else(|| e("no s"))?.value.to_string();
    let s_ascii = to_ascii(&sel).ok_or_else(|| e("s"))?;
    let hv = get("h").ok_or_else(|| e("no h"))?.value;
    let h: Vec<String> =
        hv.split(':').map(|x| strip_fws_end(strip_fws_start(x)).to_string()).collect();
    if h.iter().any(|x| x.is_empty() || !x.bytes().all(|b| b.is_ascii_graphic())) {
        return Err(e("h"));
    }
    if !h.iter().any(|x| x.eq_ignore_ascii_case("from")) {
        return Err(e("From not signed"));
    }
    let (mut i, mut i_ascii) = (None, None);
    if let Some(t) = get("i") {
        let v = qp_decode(t.value).and_then(|v| String::from_utf8(v).ok()).ok_or_else(|| e("i"))?;
        let (lp, dom) = v.rsplit_once('@').ok_or_else(|| e("i"))?;
        let a = domain_to_ascii(dom).ok_or_else(|| e("i"))?;
        if !lp.is_empty() && !local_part(lp) {
            return Err(e("i local part"));
        }
        if a != d_ascii && !a.ends_with(&format!(".{d_ascii}")) {
            return Err(e("i not in d"));
        }
        i = Some(((!lp.is_empty()).then(|| lp.to_string()), dom.to_string()));
        i_ascii = Some(a);
    }
    let num = |n: &str| -> Result<Option<u64>, String> {
        match get(n) {
            None => Ok(None),
            Some(t) => digits(t.value).map(Some).ok_or_else(|| e(n)),
        }
    };
    let (l, t, x) = (num("l")?, num("t")?, num("x")?);
    if let (Some(t), Some(x)) = (t, x) {
        if x <= t {
            return Err(e("x <= t"));
        }
    }
    if let Some(q) = get("q") {
        let methods: Vec<String> = q
            .value
            .split(':')
            .map(|m| strip_fws_end(strip_fws_start(m)).to_ascii_lowercase())
            .collect();
        if methods.iter().any(|m| m.is_empty()) || !methods.iter().any(|m| m == "dns/txt") {
            return Err(e("q"));
        }
    }
    let mut z = vec![];
    if let Some(t) = get("z") {
        for f in t.value.split('|') {
            let f = qp_decode(f).ok_or_else(|| e("z"))?;
            let c = f.iter().position(|b| *b == b':').ok_or_else(|| e("z"))?;
            let name = std::str::from_utf8(&f[..c]).map_err(|_| e("z"))?;
            if name.is_empty() || !name.bytes().all(|b| b.is_ascii_graphic()) {
                return Err(e("z"));
            }
            z.push((name.to_string(), f[c + 1..].to_vec()));
        }
    }
    let known = ["v", "a", "b", "bh", "c", "d", "h", "i", "l", "q", "s", "t", "x", "z"];
    let ext = tags
        .iter()
        .filter(|t| !known.contains(&t.name))
        .map(|t| (t.name.to_string(), t.value.to_string()))
        .collect();
    let raw = get("b").unwrap().raw;
    let mut stripped = s.as_bytes()[..raw.0].to_vec();
    stripped.extend(&s.as_bytes()[raw.1..]);
    Ok(Sig { alg, b, bh, hc, bc, d, s: sel, d_ascii, s_ascii, h, i, i_ascii, l, t, x, z, ext, stripped })
}

// ---------------------------------------------------------------- key records

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum RecErr {
    RecordFormat,
    TagListFormat,
    MisplacedVersionTag,
    IncompatibleVersion,
    InvalidHashAlgorithm,
    NoSupportedHashAlgorithms,
    UnsupportedKeyType,
    InvalidQuotedPrintable,
    InvalidBase64,
    InvalidServiceType,
    NoSupportedServiceTypes,
    InvalidFlag,
    MissingKeyTag,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Record {
    pub rsa: bool,
    pub sha256: bool,
    pub sha1: bool,
    pub key: Vec<u8>,
    pub strict_domain: bool,
    pub testing: bool,
    pub any_service: bool,
    pub email_service: bool,
    pub notes: Option<String>,
    pub ext: BTreeSet<(String, String)>,
}

/// `Err` holds every defect present in the record (any may be reported).
pub fn parse_record(txt: &[u8]) -> Result<Record, BTreeSet<RecErr>> {
    let one = |x| BTreeSet::from([x]);
    let s = std::str::from_utf8(txt).map_err(|_| one(RecErr::RecordFormat))?;
    let tags = parse_tags(s).ok_or_else(|| one(RecErr::TagListFormat))?;
    let mut errs = BTreeSet::new();
    let mut r = Record {
        rsa: true,
        sha256: true,
        sha1: true,
        key: vec![],
        strict_domain: false,
        testing: false,
        any_service: true,
        email_service: false,
        notes: None,
        ext: BTreeSet::new(),
    };
    let mut have_p = false;
    for (i, t) in tags.iter().enumerate() {
        let items: Vec<&str> =
            t.value.split(':').map(|x| strip_fws_end(strip_fws_start(x))).collect();
        match t.name {
            "v" => {
                if i != 0 {
                    errs.insert(RecErr::MisplacedVersionTag);
                } else if t.value != "DKIM1" {
                    errs.insert(RecErr::IncompatibleVersion);
                }
            }
            "h" => {
                r.sha256 = items.iter().any(|x| x.eq_ignore_ascii_case("sha256"));
                r.sha1 = items.iter().any(|x| x.eq_ignore_ascii_case("sha1"));
                if items.iter().any(|x| x.is_empty()) {
                    errs.insert(RecErr::InvalidHashAlgorithm);
                } else if !r.sha256 && !(PRE8301 && r.sha1) {
                    errs.insert(RecErr::NoSupportedHashAlgorithms);
                }
            }
            "k" => match t.value.to_ascii_lowercase().as_str() {
                "rsa" => r.rsa = true,
                "ed25519" => r.rsa = false,
                _ => {
                    errs.insert(RecErr::UnsupportedKeyType);
                }
            },
            "p" => {
                have_p = true;
                match b64(t.value) {
                    Some(k) => r.key = k,
                    None => {
                        errs.insert(RecErr::InvalidBase64);
                    }
                }
            }
            "n" => r.notes = Some(t.value.to_string()),
            "s" => {
                r.any_service = items.contains(&"*");
                r.email_service = items.iter().any(|x| x.eq_ignore_ascii_case("email"));
                if items.iter().any(|x| x.is_empty()) {
                    errs.insert(RecErr::InvalidServiceType);
                } else if !items.iter().any(|x| *x == "*" || x.eq_ignore_ascii_case("email")) {
                    errs.insert(RecErr::NoSupportedServiceTypes);
                }
            }
            "t" => {
                if items.iter().any(|x| x.is_empty()) {
                    errs.insert(RecErr::InvalidFlag);
                }
                r.strict_domain = items.iter().any(|x| x.eq_ignore_ascii_case("s"));
                r.testing = items.iter().any(|x| x.eq_ignore_ascii_case("y"));
            }
            _ => {
                r.ext.insert((t.name.to_string(), t.value.to_string()));
            }
        }
    }
    if !have_p {
        errs.insert(RecErr::MissingKeyTag);
    }
    if errs.is_empty() {
        Ok(r)
    } else {
        Err(errs)
    }
}

pub enum PubKey {
    Rsa(RsaPublicKey),
    Ed(ed25519_dalek::VerifyingKey),
}

impl PubKey {
    pub fn bits(&self) -> Option<usize> {
        match self {
            PubKey::Rsa(k) => Some(k.n().bits()),
            PubKey::Ed(_) => None,
        }
    }
    pub fn verify(&self, sha1: bool, input: &[u8], sig: &[u8]) -> bool {
        match self {
            PubKey::Rsa(k) => {
                let h = hash(sha1, input);
                if sha1 {
                    k.verify(Pkcs1v15Sign::new::<sha1::Sha1>(), &h, sig).is_ok()
                } else {
                    k.verify(Pkcs1v15Sign::new::<sha2::Sha256>(), &h, sig).is_ok()
                }
            }
            PubKey::Ed(k) => {
                use ed25519_dalek::Verifier;
                let Ok(s) = ed25519_dalek::Signature::from_slice(sig) else { return false };
                k.verify(&hash(false, input), &s).is_ok()
            }
        }
    }
}

pub fn decode_key(rsa: bool, data: &[u8]) -> Option<PubKey> {
    use pkcs8::DecodePublicKey;
    if rsa {
        use rsa::pkcs1::DecodeRsaPublicKey;
        RsaPublicKey::from_public_key_der(data)
            .ok()
            .or_else(|| RsaPublicKey::from_pkcs1_der(data).ok())
            .map(PubKey::Rsa)
    } else {
        let raw = <[u8; 32]>::try_from(data)
            .ok()
            .and_then(|b| ed25519_dalek::VerifyingKey::from_bytes(&b).ok());
        raw.or_else(|| ed25519_dalek::VerifyingKey::from_public_key_der(data).ok()).map(PubKey::Ed)
    }
}

// ---------------------------------------------------------------- verdicts

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Policy {
    RequiredHeaderNotSigned,
    UnsignedHeaderOccurrence,
    UnsignedContent,
    SignatureExpired,
    TimestampInFuture,
    Sha1HashAlgorithm,
    KeyTooSmall,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum V {
    Success,
    Format,
    Overflow,
    NoKeyFound,
    InvalidKeyDomain,
    Timeout,
    KeyLookup,
    Record(RecErr),
    WrongKeyType,
    KeyRevoked,
    DisallowedHash,
    DomainMismatch,
    InvalidKey,
    InsufficientKeySize,
    CryptoFailure,
    InsufficientContent,
    BodyHashMismatch,
    Policy(Policy),
}

/// How a status class groups into the concerns of the properties.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Dom {
    Success,
    Format,
    PolicyHeader,
    PolicyTime,
    PolicySha1,
    PolicyKey,
    PolicyBody,
    DnsPermanent,
    DnsTemporary,
    Record,
    Crypto,
    Body,
}

impl V {
    pub fn dom(self) -> Dom {
        use V::*;
        match self {
            Success => Dom::Success,
            Format | Overflow => Dom::Format,
            NoKeyFound | InvalidKeyDomain => Dom::DnsPermanent,
            Timeout | KeyLookup => Dom::DnsTemporary,
            Record(_) | WrongKeyType | KeyRevoked | DisallowedHash | DomainMismatch | InvalidKey
            | InsufficientKeySize => Dom::Record,
            CryptoFailure => Dom::Crypto,
            InsufficientContent | BodyHashMismatch => Dom::Body,
            Policy(p) => match p {
                self::Policy::RequiredHeaderNotSigned | self::Policy::UnsignedHeaderOccurrence => {
                    Dom::PolicyHeader
                }
                self::Policy::UnsignedContent => Dom::PolicyBody,
                self::Policy::SignatureExpired | self::Policy::TimestampInFuture => Dom::PolicyTime,
                self::Policy::Sha1HashAlgorithm => Dom::PolicySha1,
                self::Policy::KeyTooSmall => Dom::PolicyKey,
            },
        }
    }

    /// The RFC 8601 result class, where it does not depend on details.
    pub fn class(self) -> Option<&'static str> {
        use V::*;
        Some(match self {
            Success => "pass",
            Format | Record(_) => return None,
            Overflow => "neutral",
            NoKeyFound | InvalidKeyDomain | WrongKeyType | KeyRevoked | DisallowedHash
            | DomainMismatch | InsufficientContent | InvalidKey | InsufficientKeySize => "permerror",
            Timeout | KeyLookup => "temperror",
            CryptoFailure | BodyHashMismatch => "fail",
            Policy(_) => "policy",
        })
    }
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub required: Vec<String>,
    pub protected: Vec<String>,
    pub min_bits: usize,
    pub allow_sha1: bool,
    pub forbid_unsigned: bool,
    pub allow_expired: bool,
    pub allow_future: bool,
    pub tolerance: u64,
}

/// The answer one session got for one key name.
#[derive(Clone, Debug, PartialEq)]
pub enum Answer {
    Records(Vec<Result<Vec<u8>, ()>>),
    NotFound,
    InvalidInput,
    TimedOut,
    Other,
    /// The lookup was given up before it answered.
    GivenUp,
}

/// Preliminary causes, which need neither key nor body; `now` judges the
/// expiration, `now_t` the timestamp.
pub fn preliminary(sig: &Sig, headers: &[Field], cfg: &Cfg, now: u64, now_t: u64) -> BTreeSet<V> {
    let mut r = BTreeSet::new();
    for req in &cfg.required {
        if !sig.h.iter().any(|h| h.eq_ignore_ascii_case(req)) {
            r.insert(V::Policy(Policy::RequiredHeaderNotSigned));
        }
    }
    for p in &cfg.protected {
        let have = headers.iter().filter(|(n, _)| n.eq_ignore_ascii_case(p)).count();
        let signed = sig.h.iter().filter(|n| n.eq_ignore_ascii_case(p)).count();
        if signed < have {
            r.insert(V::Policy(Policy::UnsignedHeaderOccurrence));
        }
    }
    if let Some(x) = sig.x {
        if !cfg.allow_expired && now as u128 >= x as u128 + cfg.tolerance as u128 {
            r.insert(V::Policy(Policy::SignatureExpired));
        }
    }
    if let Some(t) = sig.t {
        if !cfg.allow_future && t as u128 > now_t as u128 + cfg.tolerance as u128 {
            r.insert(V::Policy(Policy::TimestampInFuture));
        }
    }
    if sig.alg.is_sha1() && !cfg.allow_sha1 {
        r.insert(V::Policy(Policy::Sha1HashAlgorithm));
    }
    r
}

/// Causes for which one record cannot validate the signature, by stage.
pub fn record_causes(
    sig: &Sig,
    headers: &[Field],
    own: usize,
    rec: &Result<Vec<u8>, ()>,
    cfg: &Cfg,
) -> BTreeSet<V> {
    let Ok(txt) = rec else { return BTreeSet::from([V::Record(RecErr::RecordFormat)]) };
    let rec = match parse_record(txt) {
        Ok(r) => r,
        Err(e) => return e.into_iter().map(V::Record).collect(),
    };
    let mut r = BTreeSet::new();
    if rec.rsa != sig.alg.is_rsa() {
        r.insert(V::WrongKeyType);
    }
    if rec.key.is_empty() {
        r.insert(V::KeyRevoked);
    }
    if !(if sig.alg.is_sha1() { rec.sha1 } else { rec.sha256 }) {
        r.insert(V::DisallowedHash);
    }
    if rec.strict_domain {
        if let Some(i) = &sig.i_ascii {
            if *i != sig.d_ascii {
                r.insert(V::DomainMismatch);
            }
        }
    }
    if !r.is_empty() {
        return r;
    }
    let Some(key) = decode_key(rec.rsa, &rec.key) else {
        return BTreeSet::from([V::InvalidKey]);
    };
    if let Some(bits) = key.bits() {
        if bits < HARD_MIN_BITS {
            r.insert(V::InsufficientKeySize);
        }
        if bits < cfg.min_bits {
            r.insert(V::Policy(Policy::KeyTooSmall));
        }
    }
    if !r.is_empty() {
        return r;
    }
    let input =
        header_hash_input(sig.hc, headers, Some(own), &sig.h, &headers[own].0, &sig.stripped);
    if !key.verify(sig.alg.is_sha1(), &input, &sig.b) {
        r.insert(V::CryptoFailure);
    }
    r
}

/// The records a verifier considers: the first two and the last.
pub fn considered<T>(v: &[T]) -> Vec<&T> {
    let mut r: Vec<&T> = v.iter().take(2).collect();
    if v.len() > 2 {
        r.push(v.last().unwrap());
    }
    r
}

/// Body causes; `None` if the RFC leaves the canonical form open.
pub fn body_causes(sig: &Sig, body: &[u8], cfg: &Cfg) -> Option<BTreeSet<V>> {
    let c = canon_body(sig.bc, body)?;
    let mut r = BTreeSet::new();
    let covered = match sig.l {
        None => &c[..],
        Some(l) => {
            if (c.len() as u64) < l {
                return Some(BTreeSet::from([V::InsufficientContent]));
            }
            if cfg.forbid_unsigned && c.len() as u64 > l {
                r.insert(V::Policy(Policy::UnsignedContent));
            }
            &c[..l as usize]
        }
    };
    if hash(sig.alg.is_sha1(), covered) != sig.bh {
        r.insert(V::BodyHashMismatch);
    }
    Some(r)
}
