//! Fixed key material of the simulated signing hosts.

use base64ct::{Base64, Encoding};
use pkcs8::{DecodePrivateKey, EncodePublicKey};
use rsa::{traits::PublicKeyParts, Pkcs1v15Sign, RsaPrivateKey, RsaPublicKey};
use std::sync::{Arc, OnceLock};
use viadkim::crypto::SigningKey;

pub enum Private {
    Rsa(Box<RsaPrivateKey>),
    Ed(Box<ed25519_dalek::SigningKey>),
}

pub struct Key {
    pub name: &'static str,
    pub private: Private,
    pub signing: Arc<SigningKey>,
    /// Encoding used in DNS by most (RSA: SubjectPublicKeyInfo, Ed25519: raw).
    pub usual: Vec<u8>,
    /// The other accepted encoding.
    pub other: Vec<u8>,
    pub bits: usize,
}

impl Key {
    pub fn is_rsa(&self) -> bool {
        matches!(self.private, Private::Rsa(_))
    }
    pub fn usual_b64(&self) -> String {
        Base64::encode_string(&self.usual)
    }
    pub fn other_b64(&self) -> String {
        Base64::encode_string(&self.other)
    }
    /// Signs the given header hash input directly (used by the foreign signer).
    pub fn sign(&self, sha1: bool, input: &[u8]) -> Vec<u8> {
        use sha2::Digest;
        match &self.private {
            Private::Rsa(k) => {
                if sha1 {
                    k.sign(Pkcs1v15Sign::new::<sha1::Sha1>(), &sha1::Sha1::digest(input)).unwrap()
                } else {
                    k.sign(Pkcs1v15Sign::new::<sha2::Sha256>(), &sha2::Sha256::digest(input)).unwrap()
                }
            }
            Private::Ed(k) => {
                use ed25519_dalek::Signer;
                k.sign(&sha2::Sha256::digest(input)).to_bytes().to_vec()
            }
        }
    }
}

fn rsa_key(name: &'static str, pem: &str) -> Key {
    let k = RsaPrivateKey::from_pkcs8_pem(pem).unwrap();
    let p = RsaPublicKey::from(&k);
    use rsa::pkcs1::EncodeRsaPublicKey;
    Key {
        name,
        usual: p.to_public_key_der().unwrap().as_bytes().to_vec(),
        other: p.to_pkcs1_der().unwrap().as_bytes().to_vec(),
        bits: p.n().bits(),
        signing: Arc::new(SigningKey::Rsa(k.clone())),
        private: Private::Rsa(Box::new(k)),
    }
}

fn ed_key(name: &'static str, seed: u8) -> Key {
    let k = ed25519_dalek::SigningKey::from_bytes(&[seed; 32]);
    let v = k.verifying_key();
    Key {
        name,
        usual: v.to_bytes().to_vec(),
        other: v.to_public_key_der().unwrap().as_bytes().to_vec(),
        bits: 256,
        signing: Arc::new(SigningKey::Ed25519(k.clone())),
        private: Private::Ed(Box::new(k)),
    }
}

/// Indexes of the keys in `all()`.
pub const ED: [usize; 4] = [0, 1, 2, 3];
pub const RSA_GOOD: [usize; 8] = [4, 5, 6, 12, 13, 14, 15, 16];
pub const RSA_WEAK: [usize; 5] = [7, 8, 9, 10, 11];

pub fn all() -> &'static [Key] {
    static K: OnceLock<Vec<Key>> = OnceLock::new();
    K.get_or_init(|| {
        vec![
            ed_key("ed-a", 1),
            ed_key("ed-b", 2),
            ed_key("ed-c", 3),
            ed_key("ed-d", 4),
            rsa_key("rsa1024a", include_str!("../keys/rsa1024a.pem")),
            rsa_key("rsa1024b", include_str!("../keys/rsa1024b.pem")),
            rsa_key("rsa2048", include_str!("../keys/rsa2048.pem")),
            rsa_key("rsa1023", include_str!("../keys/rsa1023.pem")),
            rsa_key("rsa1020", include_str!("../keys/rsa1020.pem")),
            rsa_key("rsa1016", include_str!("../keys/rsa1016.pem")),
            rsa_key("rsa768", include_str!("../keys/rsa768.pem")),
            rsa_key("rsa512", include_str!("../keys/rsa512.pem")),
            rsa_key("rsa2048b", include_str!("../keys/rsa2048b.pem")),
            rsa_key("rsa1536", include_str!("../keys/rsa1536.pem")),
            rsa_key("rsa1025", include_str!("../keys/rsa1025.pem")),
            rsa_key("rsa1024e3", include_str!("../keys/rsa1024e3.pem")),
            rsa_key("rsa4096", include_str!("../keys/rsa4096.pem")),
        ]
    })
}
