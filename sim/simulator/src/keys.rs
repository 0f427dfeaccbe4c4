//! Keys, peer ids, statement digests and signatures, written independently of the code under test.
use ed25519_dalek::{Signer, SigningKey, VerifyingKey};
use sha2::{Digest, Sha256};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Alg {
    Ed,
    Secp,
}
impl Alg {
    pub fn label(self) -> &'static str {
        match self {
            Alg::Ed => "ed25519",
            Alg::Secp => "secp256k1",
        }
    }
    pub fn byte(self) -> u8 {
        match self {
            Alg::Ed => 0,
            Alg::Secp => 2,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Pk {
    pub alg: Alg,
    pub raw: Vec<u8>,
}

impl Pk {
    pub fn new(alg: Alg, raw: &[u8]) -> Option<Pk> {
        let ok = match alg {
            Alg::Ed => raw.len() == 32 && VerifyingKey::from_bytes(raw.try_into().unwrap()).is_ok(),
            Alg::Secp => raw.len() == 33 && libsecp256k1::PublicKey::parse_compressed(raw.try_into().unwrap()).is_ok(),
        };
        ok.then(|| Pk { alg, raw: raw.to_vec() })
    }
    /// type byte + key, as covered by signatures and used in text certificates
    pub fn encode(&self) -> Vec<u8> {
        let mut v = vec![self.alg.byte()];
        v.extend(&self.raw);
        v
    }
    pub fn decode(b: &[u8]) -> Option<Pk> {
        match b.first()? {
            0 => Pk::new(Alg::Ed, &b[1..]),
            2 => Pk::new(Alg::Secp, &b[1..]),
            _ => None,
        }
    }
    pub fn peer_id(&self) -> String {
        let mut v = match self.alg {
            Alg::Ed => vec![0x00, 0x24, 0x08, 0x01, 0x12, 0x20],
            Alg::Secp => vec![0x00, 0x25, 0x08, 0x02, 0x12, 0x21],
        };
        v.extend(&self.raw);
        bs58::encode(v).into_string()
    }
    pub fn from_peer_id(s: &str) -> Option<Pk> {
        let b = bs58::decode(s).into_vec().ok()?;
        match b.get(..6)? {
            [0x00, 0x24, 0x08, 0x01, 0x12, 0x20] => Pk::new(Alg::Ed, &b[6..]),
            [0x00, 0x25, 0x08, 0x02, 0x12, 0x21] => Pk::new(Alg::Secp, &b[6..]),
            _ => None,
        }
    }
    pub fn verify(&self, msg: &[u8], sig: &[u8]) -> bool {
        match self.alg {
            Alg::Ed => {
                let Ok(pk) = VerifyingKey::from_bytes(self.raw.as_slice().try_into().unwrap()) else { return false };
                let Ok(s) = ed25519_dalek::Signature::from_slice(sig) else { return false };
                ed25519_dalek::Verifier::verify(&pk, msg, &s).is_ok()
            }
            Alg::Secp => {
                let Ok(pk) = libsecp256k1::PublicKey::parse_compressed(self.raw.as_slice().try_into().unwrap()) else {
                    return false;
                };
                let Ok(s) = libsecp256k1::Signature::parse_der(sig) else { return false };
                let m = libsecp256k1::Message::parse(&sha(msg));
                libsecp256k1::verify(&m, &s, &pk)
            }
        }
    }
}

pub fn sha(b: &[u8]) -> [u8; 32] {
    Sha256::digest(b).into()
}

#[derive(Clone)]
pub struct Kp {
    pub pk: Pk,
    pub peer: String,
    secret: [u8; 32],
}

impl Kp {
    pub fn derive(alg: Alg, tag: &str, i: u64) -> Kp {
        Kp::of(alg, sha(format!("tgsim {} {tag} {i}", alg.label()).as_bytes()))
    }
    fn of(alg: Alg, secret: [u8; 32]) -> Kp {
        let raw = match alg {
            Alg::Ed => SigningKey::from_bytes(&secret).verifying_key().to_bytes().to_vec(),
            Alg::Secp => {
                let sk = libsecp256k1::SecretKey::parse(&secret).expect("secret");
                libsecp256k1::PublicKey::from_secret_key(&sk).serialize_compressed().to_vec()
            }
        };
        let pk = Pk { alg, raw };
        let peer = pk.peer_id();
        Kp { pk, peer, secret }
    }
    pub fn restore(alg: &str, hex: &str) -> Option<Kp> {
        let alg = if alg == "ed25519" { Alg::Ed } else { Alg::Secp };
        let b: Vec<u8> = (0..hex.len() / 2).filter_map(|i| u8::from_str_radix(hex.get(2 * i..2 * i + 2)?, 16).ok()).collect();
        Some(Kp::of(alg, b.try_into().ok()?))
    }
    pub fn hex(&self) -> (String, String) {
        (self.pk.alg.label().into(), self.secret.iter().map(|b| format!("{b:02x}")).collect())
    }
    pub fn secret(&self) -> [u8; 32] {
        self.secret
    }
    pub fn sign(&self, msg: &[u8]) -> Vec<u8> {
        match self.pk.alg {
            Alg::Ed => SigningKey::from_bytes(&self.secret).sign(msg).to_bytes().to_vec(),
            Alg::Secp => {
                let sk = libsecp256k1::SecretKey::parse(&self.secret).expect("secret");
                let m = libsecp256k1::Message::parse(&sha(msg));
                libsecp256k1::sign(&m, &sk).0.serialize_der().as_ref().to_vec()
            }
        }
    }
}

pub fn trust_digest(pk: &Pk, exp: u64, iat: u64) -> Vec<u8> {
    let mut v = pk.encode();
    v.extend(exp.to_le_bytes());
    v.extend(iat.to_le_bytes());
    sha(&v).to_vec()
}
pub fn revocation_digest(pk: &Pk, at: u64) -> Vec<u8> {
    let e = pk.encode();
    let mut v = vec![e.len() as u8];
    v.extend(e);
    v.extend(at.to_le_bytes());
    sha(&v).to_vec()
}
