//! Peers that use the trust-graph and keypair libraries directly (C15, C18): each has a key pair, trusted
//! roots and a clock of its own; certificates, public keys and signatures travel in every encoding over a
//! network that delays, duplicates, reorders, drops and corrupts; peers crash and restart from stored key
//! material, which may be torn or damaged. Everything received is judged by an independent decoder/verifier.
use crate::exec::Stats;
use crate::keys::{sha, Alg, Kp, Pk};
use crate::rng::{Digest, Rng};
use fluence_keypair::{KeyFormat, KeyPair, PublicKey, Signature};
use libp2p_identity::PeerId;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::BTreeMap;
use std::convert::TryFrom;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use std::time::{Duration, Instant};
use trust_graph::{Certificate, PublicKeyHashable, Revocation, Trust};

#[cfg(feature = "graph")]
#[path = "graph_world.rs"]
mod graph_world;
#[cfg(not(feature = "graph"))]
mod graph_world {
    pub struct G;
}

const RSA: [&[u8]; 4] = [include_bytes!("../data/rsa-2048.pk8"), include_bytes!("../data/rsa-3072.pk8"), include_bytes!("../data/rsa-2048b.pk8"), include_bytes!("../data/rsa-2048c.pk8")];
const T0: u64 = 1_700_000_000;

// ---------------------------------------------------------------- independent model of keys and chains

/// type byte (0 Ed25519, 1 RSA, 2 secp256k1) and raw key
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct LPk {
    t: u8,
    raw: Vec<u8>,
}
impl LPk {
    fn enc(&self) -> Vec<u8> {
        let mut v = vec![self.t];
        v.extend(&self.raw);
        v
    }
    fn dec(b: &[u8]) -> Option<LPk> {
        match b.first()? {
            1 => Some(LPk { t: 1, raw: b[1..].to_vec() }),
            _ => Pk::decode(b).map(|p| LPk { t: p.alg.byte(), raw: p.raw }),
        }
    }
    fn verify(&self, msg: &[u8], sig: &[u8]) -> bool {
        thread_local!(static SEEN: std::cell::RefCell<std::collections::HashMap<[u8; 32], bool>> = Default::default());
        let mut k = self.enc();
        k.extend((msg.len() as u64).to_le_bytes());
        k.extend(msg);
        k.extend(sig);
        let k = sha(&k);
        if let Some(r) = SEEN.with(|m| m.borrow().get(&k).copied()) {
            return r;
        }
        let r = self.verify_now(msg, sig);
        SEEN.with(|m| m.borrow_mut().insert(k, r));
        r
    }
    fn verify_now(&self, msg: &[u8], sig: &[u8]) -> bool {
        match self.t {
            0 => Pk::new(Alg::Ed, &self.raw).map_or(false, |p| p.verify(msg, sig)),
            2 => Pk::new(Alg::Secp, &self.raw).map_or(false, |p| p.verify(msg, sig)),
            1 => ring::signature::UnparsedPublicKey::new(&ring::signature::RSA_PKCS1_2048_8192_SHA256, &self.raw).verify(msg, sig).is_ok(),
            _ => false,
        }
    }
    /// SubjectPublicKeyInfo of an RSA key
    fn x509(&self) -> Vec<u8> {
        fn der(tag: u8, body: &[u8]) -> Vec<u8> {
            let mut v = vec![tag];
            let n = body.len();
            if n < 128 {
                v.push(n as u8);
            } else {
                let b: Vec<u8> = n.to_be_bytes().iter().copied().skip_while(|x| *x == 0).collect();
                v.push(0x80 | b.len() as u8);
                v.extend(b);
            }
            v.extend(body);
            v
        }
        let mut alg = der(0x06, &[0x2A, 0x86, 0x48, 0x86, 0xF7, 0x0D, 0x01, 0x01, 0x01]);
        alg.extend([0x05, 0x00]);
        let mut bits = vec![0u8];
        bits.extend(&self.raw);
        let mut body = der(0x30, &alg);
        body.extend(der(0x03, &bits));
        der(0x30, &body)
    }
    fn protobuf(&self) -> Vec<u8> {
        let (t, data) = match self.t {
            0 => (1, self.raw.clone()),
            1 => (0, self.x509()),
            _ => (2, self.raw.clone()),
        };
        let mut v = vec![0x08, t, 0x12];
        let mut n = data.len();
        while n >= 128 {
            v.push((n & 127) as u8 | 128);
            n >>= 7;
        }
        v.push(n as u8);
        v.extend(data);
        v
    }
    fn peer_id(&self) -> String {
        let pb = self.protobuf();
        let mh = if pb.len() <= 42 {
            let mut v = vec![0, pb.len() as u8];
            v.extend(pb);
            v
        } else {
            let mut v = vec![0x12, 0x20];
            v.extend(sha(&pb));
            v
        };
        bs58::encode(mh).into_string()
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MLink {
    pk: LPk,
    st: u8,
    sig: Vec<u8>,
    exp: u64,
    iat: u64,
}
impl MLink {
    fn digest(&self) -> Vec<u8> {
        let mut v = self.pk.enc();
        v.extend(self.exp.to_le_bytes());
        v.extend(self.iat.to_le_bytes());
        sha(&v).to_vec()
    }
    fn signed_by(&self, by: &LPk) -> bool {
        by.verify(&self.digest(), &self.sig)
    }
}

/// genuine apart from expiry and choice of root
fn genuine(c: &[MLink]) -> bool {
    !c.is_empty() && (0..c.len()).all(|i| c[i].signed_by(&c[i.saturating_sub(1)].pk))
}
fn valid(c: &[MLink], roots: &[LPk], now: Duration) -> bool {
    genuine(c) && roots.contains(&c[0].pk) && c.iter().all(|l| Duration::from_secs(l.exp) >= now)
}
/// a signature's type byte disagrees with its signer's key: whether that still counts as signed is left open
fn mislabelled(c: &[MLink]) -> bool {
    (0..c.len()).any(|i| c[i].st != c[i.saturating_sub(1)].pk.t)
}

fn link_of(t: &Trust) -> Option<MLink> {
    let s = t.signature.encode();
    (t.expires_at.subsec_nanos() == 0 && t.issued_at.subsec_nanos() == 0).then_some(())?;
    Some(MLink { pk: LPk::dec(&t.issued_for.encode())?, st: *s.first()?, sig: s[1..].to_vec(), exp: t.expires_at.as_secs(), iat: t.issued_at.as_secs() })
}
fn links_of(c: &Certificate) -> Option<Vec<MLink>> {
    c.chain.iter().map(link_of).collect()
}

fn strict_sig(b: &[u8]) -> Option<(u8, Vec<u8>)> {
    (b.len() > 1 && *b.first()? <= 2).then(|| (b[0], b[1..].to_vec()))
}
/// the documented binary form, nothing more lenient
fn strict_bin(b: &[u8]) -> Option<Vec<MLink>> {
    if b.get(..6)? != [0; 6] || *b.get(6)? < 2 {
        return None;
    }
    let mut p = 7;
    let mut out = vec![];
    for _ in 0..b[6] {
        let n = *b.get(p)? as usize;
        let t = b.get(p + 1..p + 1 + n)?;
        p += 1 + n;
        let kl = *t.first()? as usize;
        let pk = LPk::dec(t.get(1..1 + kl)?)?;
        let sl = *t.get(1 + kl)? as usize;
        let (st, sig) = strict_sig(t.get(2 + kl..2 + kl + sl)?)?;
        let r = t.get(2 + kl + sl..)?;
        if r.len() != 16 {
            return None;
        }
        out.push(MLink { pk, st, sig, exp: u64::from_le_bytes(r[..8].try_into().ok()?), iat: u64::from_le_bytes(r[8..].try_into().ok()?) });
    }
    (p == b.len()).then_some(out)
}
fn strict_text(s: &str) -> Option<Vec<MLink>> {
    let body = s.strip_suffix('\n')?;
    let l: Vec<&str> = body.split('\n').collect();
    if l.len() < 6 || (l.len() - 2) % 4 != 0 || l[0] != "11" || l[1] != "1111" {
        return None;
    }
    let num = |s: &str| s.parse::<u64>().ok().filter(|n| n.to_string() == s);
    l[2..]
        .chunks(4)
        .map(|c| {
            let pk = LPk::dec(&bs58::decode(c[0]).into_vec().ok()?)?;
            let (st, sig) = strict_sig(&bs58::decode(c[1]).into_vec().ok()?)?;
            Some(MLink { pk, st, sig, exp: num(c[2])?, iat: num(c[3])? })
        })
        .collect()
}
/// the certificate of a given text, put together link by link and printed by the library
pub fn printed(text: &str) -> Option<String> {
    let chain = strict_text(text)?
        .iter()
        .map(|l| {
            let mut sig = vec![l.st];
            sig.extend(&l.sig);
            Some(Trust::new(PublicKey::decode(&l.pk.enc()).ok()?, Duration::from_secs(l.exp), Duration::from_secs(l.iat), Signature::decode(sig).ok()?))
        })
        .collect::<Option<Vec<_>>>()?;
    std::panic::catch_unwind(|| Certificate { chain }.to_string()).ok()
}
fn bin_of(c: &[MLink]) -> Vec<u8> {
    let mut v = vec![0, 0, 0, 0, 0, 0, c.len() as u8];
    for l in c {
        let k = l.pk.enc();
        let mut t = vec![k.len() as u8];
        t.extend(k);
        t.push(l.sig.len() as u8 + 1);
        t.push(l.st);
        t.extend(&l.sig);
        t.extend(l.exp.to_le_bytes());
        t.extend(l.iat.to_le_bytes());
        v.push(t.len() as u8);
        v.extend(t);
    }
    v
}
fn text_of(c: &[MLink]) -> String {
    let mut s = "11\n1111\n".to_string();
    for l in c {
        let mut g = vec![l.st];
        g.extend(&l.sig);
        s += &format!("{}\n{}\n{}\n{}\n", bs58::encode(l.pk.enc()).into_string(), bs58::encode(g).into_string(), l.exp, l.iat);
    }
    s
}

// ---------------------------------------------------------------- events

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Form {
    Bin,
    Text,
    Serde,
}

/// Damage in transit or at rest. Positions are taken modulo the length of what is damaged.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Dmg {
    Flip { pos: u32, bit: u8 },
    Set { pos: u32, to: u8 },
    Trunc { at: u32 },
    Insert { pos: u32, b: u8 },
    Append { b: Vec<u8> },
    Zero { from: u32, n: u32 },
    /// binary certificates: link `link` declares and carries `n` bytes more
    Pad { link: u8, n: u8 },
    /// text: exchange two lines / drop a line / repeat a line / empty a line
    Swap { a: u32, b: u32 },
    DropLine { a: u32 },
    DupLine { a: u32 },
    ClearLine { a: u32 },
    /// everything gone
    Empty,
    /// an encoded secp256k1 public key in one of its longer forms
    Inflate { kind: u8 },
    /// JSON: a list of numbers `by` longer (or, negative, shorter)
    Resize { by: i8 },
}

/// A link of a hand-assembled chain: taken from another certificate, or made up.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Mk {
    Take { cert: u32, link: u8 },
    /// taken, with the signature of another link
    Swap { cert: u32, link: u8, scert: u32, slink: u8 },
    /// taken, with one field changed and the signature kept
    Edit { cert: u32, link: u8, field: u8, to: u64 },
    New { by: usize, to: usize, exp: u64, iat: u64 },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum LEv {
    Tick { ms: u64 },
    Skew { peer: usize, ms: i64 },
    Roots { peer: usize, of: Vec<usize> },
    IssueRoot { out: u32, by: usize, to: usize, exp: u64, iat: u64 },
    FromRoot { out: u32, at: usize, root: Mk, link: Mk },
    Extend { out: u32, by: usize, to: usize, cert: u32, exp: u64, iat: u64 },
    ExtendWith { out: u32, by: usize, cert: u32, link: Mk, at: usize },
    Craft { out: u32, links: Vec<Mk> },
    Send { msg: u32, cert: u32, form: Form, dmg: Vec<Dmg> },
    Deliver { msg: u32, to: usize, keep: Option<u32> },
    /// a peer looks at a certificate it holds
    Look { peer: usize, cert: u32 },
    /// make signatures whose validity must survive
    Sign { peer: usize, msg: u64 },
    Store { peer: usize, form: u8 },
    Crash { peer: usize, dmg: Vec<Dmg>, label: Vec<Dmg> },
    /// new identity from the system's randomness
    Regen { peer: usize, rnd: u64 },
    PkSend { peer: usize, form: u8, dmg: Vec<Dmg> },
    SigSend { peer: usize, to: usize, msg: u64, form: u8, dmg: Vec<Dmg> },
    /// a single trust passed from peer to peer, said to be `by`'s, looked at by `to`
    TrustSend { link: Mk, by: usize, to: usize, form: u8, dmg: Vec<Dmg> },
    /// a revocation of `of` made by `by`; on the way it may be ascribed to someone else, aimed at someone else or redated
    RevSend { by: usize, of: usize, at: u64, form: u8, edit: Option<(u8, u64)>, dmg: Vec<Dmg> },
    /// a peer's own trust graph, over a storage of its own
    Graph { peer: usize, e: GEv },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum GEv {
    Root { of: usize, len: u32 },
    Add { link: Mk, by: usize },
    Cert { links: Vec<Mk> },
    Revoke { by: usize, of: usize, when: u64, edit: Option<(u8, u64)> },
    Ask { of: usize, from: Option<usize>, weight: bool },
    Revocations { of: usize },
    /// the weight factor of certificates handed in
    Factor { certs: Vec<Vec<Mk>> },
    /// in the next call, storage operation number `after` (of those of kind `on`, 0 for any) fails, before or after taking effect, alone or with all that follow
    Fail { on: u8, after: u32, late: bool, lasting: bool },
    /// rows come in another order from now on
    Order { seed: u64 },
    /// stored, and started anew over what was stored
    Restart { form: u8 },
}

fn damage(mut b: Vec<u8>, d: &[Dmg]) -> Vec<u8> {
    for x in d {
        let n = b.len();
        let at = |p: u32| p as usize % n.max(1);
        let lines = |b: &[u8]| -> Vec<Vec<u8>> { b.split(|c| *c == b'\n').map(|l| l.to_vec()).collect() };
        let join = |l: Vec<Vec<u8>>| l.join(&b'\n');
        match x {
            Dmg::Empty => b.clear(),
            Dmg::Inflate { kind } => {
                let head = b.len().saturating_sub(33);
                if let Some(k) = b.get(head..).and_then(|x| libsecp256k1::PublicKey::parse_slice(x, Some(libsecp256k1::PublicKeyFormat::Compressed)).ok()) {
                    let full = k.serialize();
                    b.truncate(head);
                    match kind % 3 {
                        0 => b.extend(full),
                        1 => b.extend(&full[1..]),
                        _ => {
                            b.push(6 + (full[64] & 1));
                            b.extend(&full[1..]);
                        }
                    }
                }
            }
            Dmg::Resize { by } => {
                if let Some(e) = b.iter().rposition(|c| *c == b']') {
                    for _ in 0..*by {
                        b.splice(e..e, *b",7");
                    }
                    for _ in *by..0 {
                        let e = b.iter().rposition(|c| *c == b']').unwrap_or(0);
                        if let Some(c) = b[..e].iter().rposition(|c| *c == b',') {
                            b.drain(c..e);
                        }
                    }
                }
            }
            Dmg::Append { b: a } => b.extend(a),
            Dmg::Insert { pos, b: v } => b.insert(*pos as usize % (n + 1), *v),
            _ if n == 0 => {}
            Dmg::Flip { pos, bit } => b[at(*pos)] ^= 1 << (bit & 7),
            Dmg::Set { pos, to } => b[at(*pos)] = *to,
            Dmg::Trunc { at: a } => b.truncate(at(*a)),
            Dmg::Zero { from, n: k } => {
                let f = at(*from);
                let e = (f + *k as usize).min(n);
                b[f..e].fill(0);
            }
            Dmg::Pad { link, n: k } => {
                let mut p = 7;
                for _ in 0..*link {
                    if p < b.len() {
                        p += 1 + b[p] as usize;
                    }
                }
                if p < b.len() {
                    let e = (p + 1 + b[p] as usize).min(b.len());
                    b[p] = b[p].wrapping_add(*k);
                    for _ in 0..*k {
                        b.insert(e, 7);
                    }
                }
            }
            Dmg::Swap { a, b: c } => {
                let mut l = lines(&b);
                let k = l.len();
                l.swap(*a as usize % k, *c as usize % k);
                b = join(l);
            }
            Dmg::DropLine { a } => {
                let mut l = lines(&b);
                let k = l.len();
                l.remove(*a as usize % k);
                b = join(l);
            }
            Dmg::DupLine { a } => {
                let mut l = lines(&b);
                let i = *a as usize % l.len();
                let v = l[i].clone();
                l.insert(i, v);
                b = join(l);
            }
            Dmg::ClearLine { a } => {
                let mut l = lines(&b);
                let i = *a as usize % l.len();
                l[i].clear();
                b = join(l);
            }
        }
    }
    b
}

// ---------------------------------------------------------------- world

#[derive(Clone, Debug)]
pub struct LViol {
    pub at: usize,
    pub kind: &'static str,
    pub prop: &'static str,
    pub call: String,
    pub detail: String,
}

struct Peer {
    kp: KeyPair,
    id: LPk,
    roots: Vec<LPk>,
    skew: i64,
    stored: Option<(u8, Vec<u8>, String)>,
    sigs: Vec<(Vec<u8>, Vec<u8>)>,
}

struct World {
    peers: Vec<Peer>,
    /// every identity there ever was, to name keys
    certs: BTreeMap<u32, Certificate>,
    model: BTreeMap<u32, Vec<MLink>>,
    msgs: BTreeMap<u32, (Form, Vec<u8>, Option<Vec<MLink>>)>,
    #[allow(dead_code)]
    graphs: BTreeMap<usize, graph_world::G>,
    now_ms: u64,
    stats: Stats,
    digest: Digest,
    step: usize,
}

type R<T> = Result<T, (&'static str, &'static str, String, String)>;
fn bad<T>(prop: &'static str, call: &str, detail: String) -> R<T> {
    Err(("Answer", prop, call.to_string(), detail))
}
/// a call into the code under test
fn guard<T>(prop: &'static str, call: &str, f: impl FnOnce() -> T) -> R<T> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        ("Panic", prop, call.to_string(), format!("{call} panicked: {m}"))
    })
}

fn fmt_of(t: u8) -> KeyFormat {
    match t {
        0 => KeyFormat::Ed25519,
        1 => KeyFormat::Rsa,
        _ => KeyFormat::Secp256k1,
    }
}
/// independent public key of a 32-byte secret
fn pk_of_secret(t: u8, s: &[u8]) -> Option<LPk> {
    let s: [u8; 32] = s.try_into().ok()?;
    match t {
        0 => Some(LPk { t, raw: ed25519_dalek::SigningKey::from_bytes(&s).verifying_key().to_bytes().to_vec() }),
        2 => {
            let k = libsecp256k1::SecretKey::parse(&s).ok()?;
            Some(LPk { t, raw: libsecp256k1::PublicKey::from_secret_key(&k).serialize_compressed().to_vec() })
        }
        _ => None,
    }
}

fn initial(i: usize, t: u8) -> (KeyPair, LPk) {
    if t == 1 {
        let der = RSA[i % 4];
        let rk = ring::signature::RsaKeyPair::from_pkcs8(der).expect("rsa");
        let raw = ring::signature::KeyPair::public_key(&rk).as_ref().to_vec();
        (KeyPair::rsa_from_pkcs8(&mut der.to_vec()).expect("rsa key"), LPk { t, raw })
    } else {
        let k = Kp::derive(if t == 0 { Alg::Ed } else { Alg::Secp }, "peer", i as u64);
        let kp = KeyPair::from_secret_key(k.secret().to_vec(), fmt_of(t)).expect("key");
        (kp, LPk { t, raw: k.pk.raw.clone() })
    }
}
/// an ECPrivateKey (RFC 5915): version and key, optionally the curve, optionally the public key
fn secp_der(secret: &[u8], form: u8, public: &[u8]) -> Vec<u8> {
    let mut v = vec![0x30, 0, 0x02, 0x01, 0x01, 0x04, 0x20];
    v.extend(secret);
    if form & 1 != 0 {
        v.extend([0xA0, 0x07, 0x06, 0x05, 0x2B, 0x81, 0x04, 0x00, 0x0A]);
    }
    if form & 2 != 0 {
        v.extend([0xA1, public.len() as u8 + 3, 0x03, public.len() as u8 + 1, 0x00]);
        v.extend(public);
    }
    v[1] = (v.len() - 2) as u8;
    v
}

#[derive(Serialize, Deserialize)]
struct Wrapped {
    #[serde(with = "trust_graph::certificate_serde::vec")]
    certs: Vec<Certificate>,
}
#[derive(Serialize, Deserialize)]
struct WrappedId {
    #[serde(with = "fluence_keypair::peerid_serializer")]
    id: PeerId,
}

fn short(b: &[u8]) -> String {
    let s = bs58::encode(b).into_string();
    if s.len() > 14 { format!("{}..", &s[..14]) } else { s }
}

impl World {
    fn new(types: &[u8]) -> World {
        let peers = types
            .iter()
            .enumerate()
            .map(|(i, t)| {
                let (kp, id) = initial(i, *t);
                Peer { kp, id, roots: vec![], skew: 0, stored: None, sigs: vec![] }
            })
            .collect();
        World { peers, certs: BTreeMap::new(), model: BTreeMap::new(), msgs: BTreeMap::new(), graphs: BTreeMap::new(), now_ms: T0 * 1000, stats: Stats::default(), digest: Digest::default(), step: 0 }
    }
    fn clock(&self, p: usize) -> Duration {
        Duration::from_millis((self.now_ms as i64 + self.peers[p].skew).max(0) as u64)
    }
    fn p(&self, i: usize) -> usize {
        i % self.peers.len()
    }
    fn name(&self, k: &LPk) -> String {
        match self.peers.iter().position(|p| p.id == *k) {
            Some(i) => format!("peer{i}"),
            None => short(&k.enc()),
        }
    }
    fn show(&self, c: &[MLink]) -> String {
        let mut by = None;
        let mut s = vec![];
        for l in c {
            let signer = by.as_ref().unwrap_or(&l.pk).clone();
            s.push(format!("{}{} exp {} iat {}", self.name(&l.pk), if l.signed_by(&signer) { "" } else { " (NOT signed by the previous)" }, l.exp, l.iat));
            by = Some(l.pk.clone());
        }
        format!("[{}]", s.join(" -> "))
    }
    fn note(&mut self, k: &str) {
        self.stats.probe(k);
    }
    fn log(&mut self, b: &[u8]) {
        self.digest.bytes(b);
    }
    fn make(&mut self, m: &Mk) -> R<Option<Trust>> {
        let take = |w: &World, c: u32, l: u8| -> Option<Trust> {
            let ch = &w.certs.get(&c)?.chain;
            (!ch.is_empty()).then(|| ch[l as usize % ch.len()].clone())
        };
        Ok(match m {
            Mk::Take { cert, link } => take(self, *cert, *link),
            Mk::Swap { cert, link, scert, slink } => take(self, *cert, *link).zip(take(self, *scert, *slink)).map(|(mut a, b)| {
                a.signature = b.signature;
                a
            }),
            Mk::Edit { cert, link, field, to } => take(self, *cert, *link).map(|mut a| {
                match field % 4 {
                    0 => a.expires_at = Duration::from_secs(*to),
                    1 => a.issued_at = Duration::from_secs(*to),
                    2 => a.issued_for = self.peers[self.p(*to as usize)].kp.public(),
                    _ => {
                        // another type byte on the same signature bytes
                        let mut e = a.signature.encode();
                        e[0] = (*to % 3) as u8;
                        if let Ok(s) = Signature::decode(e) {
                            a.signature = s;
                        }
                    }
                }
                a
            }),
            Mk::New { by, to, exp, iat } => {
                let (by, to) = (self.p(*by), self.p(*to));
                let (k, pk) = (self.peers[by].kp.clone(), self.peers[to].kp.public());
                let t = guard("C15", "Trust::create", || Trust::create(&k, pk, Duration::from_secs(*exp), Duration::from_secs(*iat)))?;
                let Some(l) = link_of(&t) else { return bad("C15", "Trust::create", "fields do not encode".into()) };
                if l.pk != self.peers[to].id || l.exp != *exp || l.iat != *iat || !l.signed_by(&self.peers[by].id) {
                    return bad("C15", "Trust::create", format!("trust of peer{by} for peer{to} (exp {exp}, iat {iat}) came out as {} exp {} iat {}, genuine: {}", self.name(&l.pk), l.exp, l.iat, l.signed_by(&self.peers[by].id)));
                }
                Some(t)
            }
        })
    }
    fn keep(&mut self, out: u32, c: Certificate) -> R<()> {
        let Some(m) = links_of(&c) else { return bad("C15", "Certificate", "a link does not encode to a known key".into()) };
        self.stats.states.insert({
            let mut d = Digest::default();
            d.bytes(&bin_of_any(&m));
            d.0
        });
        self.log(&bin_of_any(&m));
        self.certs.insert(out, c);
        self.model.insert(out, m);
        Ok(())
    }
    /// verify() against the oracle
    fn check_verify(&mut self, c: &Certificate, m: &[MLink], roots: &[LPk], now: Duration, who: &str) -> R<bool> {
        let rs: Vec<PublicKey> = match roots.iter().map(|r| PublicKey::decode(&r.enc())).collect::<Result<_, _>>() {
            Ok(r) => r,
            Err(e) => return bad("C18", "PublicKey::decode", format!("a peer's own public key does not decode: {e}")),
        };
        let r = guard("C15", "Certificate::verify", || Certificate::verify(c, &rs, now).map_err(|e| e.to_string()))?;
        let want = valid(m, roots, now);
        self.stats.calls += 1;
        self.digest.num(r.is_ok() as u64);
        self.note(if want { "verify_valid" } else if genuine(m) { "verify_genuine_but_expired_or_untrusted" } else { "verify_not_genuine" });
        if r.is_ok() != want && !mislabelled(m) {
            return bad("C15", "Certificate::verify", format!("{who}: verify of {} at {:?} with roots {:?} answered {:?}, should be {}", self.show(m), now, roots.iter().map(|r| self.name(r)).collect::<Vec<_>>(), r, if want { "accepted" } else { "refused" }));
        }
        Ok(r.is_ok())
    }

    fn run(&mut self, e: &LEv) -> R<()> {
        match e {
            LEv::Tick { ms } => self.now_ms += ms,
            LEv::Skew { peer, ms } => {
                let p = self.p(*peer);
                self.peers[p].skew = *ms;
                *self.stats.faults.0.entry("clock_jump".into()).or_default() += 1;
            }
            LEv::Roots { peer, of } => {
                let p = self.p(*peer);
                self.peers[p].roots = of.iter().map(|i| self.peers[self.p(*i)].id.clone()).collect();
            }
            LEv::IssueRoot { out, by, to, exp, iat } => {
                let (by, to) = (self.p(*by), self.p(*to));
                let (k, pk) = (self.peers[by].kp.clone(), self.peers[to].kp.public());
                let c = guard("C15", "Certificate::issue_root", || Certificate::issue_root(&k, pk, Duration::from_secs(*exp), Duration::from_secs(*iat)))?;
                self.stats.calls += 1;
                let m = links_of(&c).unwrap_or_default();
                let (b, t) = (&self.peers[by].id, &self.peers[to].id);
                if m.len() != 2 || !genuine(&m) || m[0].pk != *b || m[1].pk != *t || m[1].exp != *exp || m[1].iat != *iat {
                    return bad("C15", "Certificate::issue_root", format!("peer{by} for peer{to} exp {exp} iat {iat} gave {}", self.show(&m)));
                }
                self.keep(*out, c)?;
            }
            LEv::FromRoot { out, at, root, link } => {
                let (Some(r), Some(l)) = (self.make(root)?, self.make(link)?) else { return Ok(()) };
                let now = self.clock(self.p(*at));
                let (Some(mr), Some(ml)) = (link_of(&r), link_of(&l)) else { return Ok(()) };
                let m = vec![mr.clone(), ml];
                let got = guard("C15", "Certificate::new_from_root_trust", || Certificate::new_from_root_trust(r, l, now).map_err(|e| e.to_string()))?;
                self.stats.calls += 1;
                self.digest.num(got.is_ok() as u64);
                let want = valid(&m, &[mr.pk], now);
                if got.is_ok() != want && !mislabelled(&m) {
                    return bad("C15", "Certificate::new_from_root_trust", format!("{} at {now:?} answered {:?}, should be {}", self.show(&m), got.as_ref().map(|_| "ok"), if want { "accepted" } else { "refused" }));
                }
                if let Ok(c) = got {
                    let cm = links_of(&c).unwrap_or_default();
                    if cm != m {
                        return bad("C15", "Certificate::new_from_root_trust", format!("{} became {}", self.show(&m), self.show(&cm)));
                    }
                    self.note("from_root");
                    self.keep(*out, c)?;
                }
            }
            LEv::Extend { out, by, to, cert, exp, iat } => {
                let Some(c) = self.certs.get(cert).cloned() else { return Ok(()) };
                let (by, to) = (self.p(*by), self.p(*to));
                let now = self.clock(by);
                let (k, pk) = (self.peers[by].kp.clone(), self.peers[to].kp.public());
                let got = guard("C15", "Certificate::issue", || Certificate::issue(&k, pk, &c, Duration::from_secs(*exp), Duration::from_secs(*iat), now).map_err(|e| e.to_string()))?;
                let (b, t) = (self.peers[by].id.clone(), self.peers[to].id.clone());
                self.extended("Certificate::issue", *out, *cert, got, &b, now, *exp >= *iat, |n| n.pk == t && n.exp == *exp && n.iat == *iat && n.signed_by(&b))?;
            }
            LEv::ExtendWith { out, by, cert, link, at } => {
                let Some(c) = self.certs.get(cert).cloned() else { return Ok(()) };
                let Some(t) = self.make(link)? else { return Ok(()) };
                let (by, at) = (self.p(*by), self.p(*at));
                let now = self.clock(at);
                let pk = self.peers[by].kp.public();
                let Some(ml) = link_of(&t) else { return Ok(()) };
                let b = self.peers[by].id.clone();
                let ok_link = ml.signed_by(&b) && ml.st == b.t && ml.exp >= ml.iat;
                let got = guard("C15", "Certificate::issue_with_trust", || Certificate::issue_with_trust(pk, t, &c, now).map_err(|e| e.to_string()))?;
                // a link not signed by the named issuer may be refused now or at verification; an expired one too
                let open = !ok_link || Duration::from_secs(ml.exp) < now;
                self.extended("Certificate::issue_with_trust", *out, *cert, got, &b, now, !open, |n| *n == ml)?;
            }
            LEv::Craft { out, links } => {
                let mut ch = vec![];
                for l in links {
                    if let Some(t) = self.make(l)? {
                        ch.push(t);
                    }
                }
                self.note("crafted_chain");
                self.keep(*out, Certificate::new_unverified(ch))?;
            }
            LEv::Send { msg, cert, form, dmg } => {
                let Some(c) = self.certs.get(cert).cloned() else { return Ok(()) };
                let m = self.model[cert].clone();
                let has_rsa = m.iter().any(|l| l.pk.t == 1 || l.st == 1 || l.sig.len() > 200);
                let b = match form {
                    Form::Bin => guard("C15", "Certificate::encode", || c.encode())?,
                    Form::Text => guard("C15", "Certificate::to_string", || c.to_string())?.into_bytes(),
                    Form::Serde => guard("C15", "certificate_serde", || serde_json::to_string(&Wrapped { certs: vec![c.clone()] }).map_err(|e| e.to_string()))?.map_err(|e| ("Answer", "C15", "certificate_serde".to_string(), e))?.into_bytes(),
                };
                self.stats.calls += 1;
                // one-byte lengths: the binary form carries Ed25519 and secp256k1 only, and 2 to 255 links
                let fits = *form != Form::Bin || (!has_rsa && (2..256).contains(&m.len()));
                if fits && *form != Form::Serde {
                    let want = if *form == Form::Bin { bin_of(&m) } else { text_of(&m).into_bytes() };
                    if b != want {
                        return bad("C15", "encode", format!("{:?} form of {} is not the documented one", form, self.show(&m)));
                    }
                }
                let d = damage(b.clone(), dmg);
                let clean = d == b;
                if !clean {
                    *self.stats.faults.0.entry("corrupted_message".into()).or_default() += 1;
                }
                self.log(&d);
                self.msgs.insert(*msg, (*form, d, (clean && fits).then_some(m)));
            }
            LEv::Deliver { msg, to, keep } => {
                let Some((form, b, sent)) = self.msgs.get(msg).cloned() else { return Ok(()) };
                let to = self.p(*to);
                let (what, got, strict): (&str, Result<Certificate, String>, Option<Vec<MLink>>) = match form {
                    Form::Bin => ("Certificate::decode", guard("C15", "Certificate::decode", || Certificate::decode(&b).map_err(|e| e.to_string()))?, strict_bin(&b)),
                    Form::Text => {
                        let s = String::from_utf8_lossy(&b).into_owned();
                        ("Certificate::from_str", guard("C15", "Certificate::from_str", || Certificate::from_str(&s).map_err(|e| e.to_string()))?, strict_text(&s))
                    }
                    Form::Serde => {
                        let s = String::from_utf8_lossy(&b).into_owned();
                        let r = guard("C15", "certificate_serde", || serde_json::from_str::<Wrapped>(&s).map_err(|e| e.to_string()))?;
                        let one = r.and_then(|w| w.certs.into_iter().next().ok_or_else(|| "none".to_string()));
                        ("certificate_serde", one, sent.clone())
                    }
                };
                self.stats.calls += 1;
                self.digest.num(got.is_ok() as u64);
                let want = sent.clone().or(strict.filter(|c| genuine(c)));
                match (&got, &want) {
                    (Err(e), Some(w)) if !w.is_empty() && !mislabelled(w) && genuine(w) => return bad("C15", what, format!("{} {} is refused: {e}", if sent.is_some() { "the undamaged" } else { "the well-formed" }, self.show(w))),
                    (Ok(c), Some(w)) => {
                        let m = links_of(c);
                        if m.as_ref() != Some(w) {
                            return bad("C15", what, format!("{} arrived as {}", self.show(w), m.map_or("an unknown key".into(), |m| self.show(&m))));
                        }
                    }
                    _ => {}
                }
                match got {
                    Err(_) => self.note("delivered_undecodable"),
                    Ok(c) => {
                        let Some(m) = links_of(&c) else { return Ok(()) };
                        let roots = self.peers[to].roots.clone();
                        let now = self.clock(to);
                        let ok = self.check_verify(&c, &m, &roots, now, &format!("peer{to}"))?;
                        self.note(if ok { "delivered_accepted" } else { "delivered_refused" });
                        if let Some(k) = keep {
                            self.keep(*k, c)?;
                        }
                    }
                }
            }
            LEv::Look { peer, cert } => {
                let Some(c) = self.certs.get(cert).cloned() else { return Ok(()) };
                let m = self.model[cert].clone();
                let p = self.p(*peer);
                let roots = self.peers[p].roots.clone();
                let now = self.clock(p);
                self.check_verify(&c, &m, &roots, now, &format!("peer{p}"))?;
                // and as seen by someone who trusts exactly its root, at the edge of every expiry
                if let Some(r) = m.first().map(|l| l.pk.clone()) {
                    // each distinct one; of many, the earliest decide
                    let exps: Vec<u64> = m.iter().map(|l| l.exp).collect::<std::collections::BTreeSet<u64>>().into_iter().take(6).collect();
                    for exp in exps {
                        for t in [Duration::from_secs(exp), Duration::from_secs(exp).saturating_add(Duration::from_millis(1)), Duration::from_secs(exp.saturating_add(1))] {
                            self.check_verify(&c, &m, &[r.clone()], t, "at an expiry edge")?;
                        }
                    }
                }
            }
            LEv::Sign { peer, msg } => {
                let p = self.p(*peer);
                let m = msg_of(*msg);
                let s = self.sign(p, &m)?;
                self.peers[p].sigs.push((m, s.encode()));
            }
            LEv::Store { peer, form } => {
                let p = self.p(*peer);
                let kp = self.peers[p].kp.clone();
                let t = self.peers[p].id.t;
                let label: String = KeyPair::key_format(&kp).into();
                if label != ["ed25519", "rsa", "secp256k1"][t as usize] || u8::from(kp.key_format()) != t || u8::from(kp.public().get_key_format()) != t {
                    return bad("C18", "key_format", format!("key of type {t} says {label}"));
                }
                let (f, b) = match (t, form % 4) {
                    (1, f) => (10 + f % 2, RSA[p % 4].to_vec()),
                    (_, 0) => (0, guard("C18", "KeyPair::to_vec", || kp.to_vec())?),
                    (_, 1) => (1, guard("C18", "KeyPair::secret", || kp.secret().unwrap_or_default())?),
                    (2, 2) => (2, secp_der(&guard("C18", "KeyPair::secret", || kp.secret().unwrap_or_default())?, form / 4 % 4, &self.peers[p].id.raw)),
                    _ => {
                        let l: libp2p_identity::Keypair = guard("C18", "KeyPair to libp2p", || kp.clone().into())?;
                        (3, l.to_protobuf_encoding().unwrap_or_default())
                    }
                };
                self.stats.calls += 1;
                self.log(&b);
                self.peers[p].stored = Some((f, b, label));
            }
            LEv::Crash { peer, dmg, label } => {
                let p = self.p(*peer);
                let Some((f, b, l)) = self.peers[p].stored.clone() else { return Ok(()) };
                self.stats.crashes += 1;
                let db = damage(b.clone(), dmg);
                let dl = String::from_utf8_lossy(&damage(l.clone().into_bytes(), label)).into_owned();
                let clean = db == b && dl == l;
                if !clean {
                    *self.stats.faults.0.entry("damaged_key_file".into()).or_default() += 1;
                }
                let fmt = guard("C18", "KeyFormat::from_str", || KeyFormat::from_str(&dl).map_err(|e| e.to_string()))?;
                let fmt = match fmt {
                    Ok(x) => x,
                    Err(e) => {
                        if dl == l {
                            return bad("C18", "KeyFormat::from_str", format!("{l}: {e}"));
                        }
                        self.note("restart_refused");
                        return Ok(());
                    }
                };
                let got: Result<KeyPair, String> = match f {
                    0 => guard("C18", "KeyPair::from_vec", || KeyPair::from_vec(db.clone(), fmt).map_err(|e| e.to_string()))?,
                    1 => guard("C18", "KeyPair::from_secret_key", || KeyPair::from_secret_key(db.clone(), fmt).map_err(|e| e.to_string()))?,
                    2 => guard("C18", "KeyPair::secp256k1_from_der", || KeyPair::secp256k1_from_der(&mut db.clone()).map_err(|e| e.to_string()))?,
                    3 => match libp2p_identity::Keypair::from_protobuf_encoding(&db) {
                        Err(e) => Err(e.to_string()),
                        // libp2p itself lets a key pair with a foreign public half pass; converting it cannot fail gracefully
                        Ok(k) if !clean && k.clone().try_into_ed25519().map_or(false, |e| pk_of_secret(0, e.secret().as_ref()).map(|p| p.raw) != Some(e.public().to_bytes().to_vec())) => Err("inconsistent".into()),
                        Ok(k) => Ok(guard("C18", "KeyPair from libp2p", || KeyPair::from(k))?),
                    },
                    _ => {
                        let r = guard("C18", "KeyPair::rsa_from_pkcs8", || KeyPair::rsa_from_pkcs8(&mut db.clone()).map_err(|e| e.to_string()))?;
                        match r {
                            Ok(k) if f == 11 => Ok(guard("C18", "RSA KeyPair via libp2p", || {
                                let l: libp2p_identity::Keypair = k.into();
                                KeyPair::from(l)
                            })?),
                            x => x,
                        }
                    }
                };
                self.stats.boots += 1;
                self.digest.num(got.is_ok() as u64);
                if f < 2 {
                    // what these bytes say, damaged or not
                    let says = match (f, u8::from(fmt)) {
                        (0, 0) => (db.len() == 64).then(|| pk_of_secret(0, &db[..32])).flatten().filter(|k| k.raw == db[32..]),
                        (_, t) => pk_of_secret(t, &db),
                    };
                    let is = got.as_ref().ok().and_then(|k| LPk::dec(&k.public().encode()));
                    if says != is {
                        return bad("C18", "restart", format!("{} key material (form {f}, {dl}) of peer{p} gives {}, should give {}", if clean { "intact" } else { "damaged" },
                            is.map_or("an error".into(), |k| self.name(&k)), says.map_or("an error".into(), |k| self.name(&k))));
                    }
                }
                match got {
                    Err(e) => {
                        if clean {
                            return bad("C18", "restart", format!("peer{p} cannot load its stored key (form {f}, {l}): {e}"));
                        }
                        self.note("restart_refused");
                    }
                    Ok(kp) => {
                        let public = guard("C18", "KeyPair::public", || kp.public())?;
                        let Some(id) = LPk::dec(&public.encode()) else { return bad("C18", "PublicKey::encode", "unknown encoding".into()) };
                        if clean && id != self.peers[p].id {
                            return bad("C18", "restart", format!("peer{p} ({l}, form {f}) came back as {}", self.name(&id)));
                        }
                        // whatever it is now, it must be one consistent key
                        let m = msg_of(self.step as u64);
                        let s = guard("C18", "KeyPair::sign", || kp.sign(&m).map_err(|e| e.to_string()))?;
                        match s {
                            Err(e) if clean => return bad("C18", "KeyPair::sign", format!("peer{p} cannot sign after a restart: {e}")),
                            // a damaged key may be noticed when it is first used
                            Err(_) => {
                                self.note("restart_refused");
                                return Ok(());
                            }
                            Ok(s) => {
                                if !id.verify(&m, s.to_vec()) || guard("C18", "KeyPair::verify", || KeyPair::verify(&public, &m, &s).is_err())? {
                                    return bad("C18", "restart", format!("after a restart from {} key material (form {f}, {l}) peer{p} signs with another key than its public key {}", if clean { "intact" } else { "damaged" }, self.name(&id)));
                                }
                            }
                        }
                        if id.t != 1 {
                            let sec = guard("C18", "KeyPair::secret", || kp.secret().unwrap_or_default())?;
                            if pk_of_secret(id.t, &sec).as_ref() != Some(&id) {
                                return bad("C18", "KeyPair::secret", format!("the secret key of peer{p} after a restart does not belong to its public key"));
                            }
                        }
                        self.check_peer_id(&kp, &id)?;
                        if id == self.peers[p].id {
                            for (m, s) in self.peers[p].sigs.clone() {
                                let ok = guard("C18", "KeyPair::verify", || Signature::decode(s.clone()).map_err(|e| e.to_string()).and_then(|s| KeyPair::verify(&public, &m, &s).map_err(|e| e.to_string())))?;
                                if let Err(e) = ok {
                                    return bad("C18", "KeyPair::verify", format!("a signature of peer{p} from before the restart no longer verifies: {e}"));
                                }
                            }
                            self.peers[p].kp = kp;
                            self.note("restarted_same_identity");
                        } else {
                            self.note("restart_other_key");
                        }
                    }
                }
            }
            LEv::Regen { peer, rnd } => {
                let p = self.p(*peer);
                let t = self.peers[p].id.t;
                if t == 1 {
                    return Ok(());
                }
                crate::node::seed_rnd(*rnd);
                let kp = guard("C18", "KeyPair::generate", || KeyPair::generate(fmt_of(t)))?;
                let sec = guard("C18", "KeyPair::secret", || kp.secret().unwrap_or_default())?;
                let id = LPk::dec(&kp.public().encode());
                if id.is_none() || pk_of_secret(t, &sec) != id {
                    return bad("C18", "KeyPair::generate", "the generated secret key does not belong to its public key".into());
                }
                let id = id.unwrap();
                self.check_peer_id(&kp, &id)?;
                self.log(&id.enc());
                let q = &mut self.peers[p];
                (q.kp, q.id, q.stored) = (kp, id, None);
                q.sigs.clear();
                self.note("new_identity");
            }
            LEv::PkSend { peer, form, dmg } => self.pk_send(*peer, *form, dmg)?,
            LEv::SigSend { peer, to, msg, form, dmg } => {
                let (p, to) = (self.p(*peer), self.p(*to));
                let m = msg_of(*msg);
                let s = self.sign(p, &m)?;
                let f = form % 3;
                let b = match f {
                    0 => guard("C18", "Signature::encode", || s.encode())?,
                    1 => {
                        let r = guard("C18", "Signature::get_raw_signature", || s.get_raw_signature())?;
                        let mut v = vec![u8::from(r.sig_type)];
                        v.extend(r.bytes);
                        v
                    }
                    _ => serde_json::to_vec(&s).unwrap_or_default(),
                };
                let d = damage(b.clone(), dmg);
                let clean = d == b;
                if !clean {
                    *self.stats.faults.0.entry("corrupted_message".into()).or_default() += 1;
                }
                self.stats.calls += 1;
                let got: Result<Signature, String> = match f {
                    0 => guard("C18", "Signature::decode", || Signature::decode(d.clone()).map_err(|e| e.to_string()))?,
                    1 => match d.first().map(|t| KeyFormat::try_from(*t)) {
                        Some(Ok(k)) => Ok(guard("C18", "Signature::from_bytes", || Signature::from_bytes(k, d[1..].to_vec()))?),
                        _ => Err("label".into()),
                    },
                    _ => serde_json::from_slice(&d).map_err(|e| e.to_string()),
                };
                self.digest.num(got.is_ok() as u64);
                match got {
                    Err(e) if clean => return bad("C18", "Signature::decode", format!("undamaged signature (form {f}) refused: {e}")),
                    Err(_) => self.note("signature_undecodable"),
                    Ok(g) => {
                        let e = g.encode();
                        if clean && (g != s || e != s.encode()) {
                            return bad("C18", "Signature::decode", format!("signature of peer{p} changed on the way (form {f})"));
                        }
                        for (q, k) in [(p, &self.peers[p]), (to, &self.peers[to])] {
                            let pk = k.kp.public();
                            let r = guard("C18", "PublicKey::verify", || pk.verify(&m, &g).map_err(|e| e.to_string()))?;
                            let want = k.id.verify(&m, if f < 2 { &d[1..] } else { &e[1..] });
                            if r.is_ok() != want && e[0] == k.id.t {
                                return bad("C18", "PublicKey::verify", format!("signature of peer{p} checked with the key of peer{q}: {r:?}, should be {want}"));
                            }
                        }
                        self.note("signature_checked");
                    }
                }
            }
            LEv::TrustSend { link, by, to, form, dmg } => self.trust_send(link, *by, *to, *form, dmg)?,
            LEv::RevSend { by, of, at, form, edit, dmg } => self.rev_send(*by, *of, *at, *form, edit, dmg)?,
            #[cfg(feature = "graph")]
            LEv::Graph { peer, e } => self.graph(*peer, e)?,
            #[cfg(not(feature = "graph"))]
            LEv::Graph { .. } => panic!("built without graphs"),
        }
        Ok(())
    }

    fn damaged(&mut self, b: &[u8], dmg: &[Dmg]) -> (Vec<u8>, bool) {
        let d = damage(b.to_vec(), dmg);
        let clean = d == b;
        if !clean {
            *self.stats.faults.0.entry("corrupted_message".into()).or_default() += 1;
        }
        self.log(&d);
        (d, clean)
    }

    fn trust_send(&mut self, link: &Mk, by: usize, to: usize, form: u8, dmg: &[Dmg]) -> R<()> {
        let Some(t) = self.make(link)? else { return Ok(()) };
        let Some(m) = link_of(&t) else { return Ok(()) };
        let (by, to) = (self.p(by), self.p(to));
        let f = form % 4;
        let b: Vec<u8> = match f {
            0 => guard("C15", "Trust::encode", || t.encode())?,
            1 => guard("C15", "Trust::to_string", || t.to_string())?.into_bytes(),
            2 => serde_json::to_vec(&t).unwrap_or_default(),
            _ => rmp_serde::to_vec(&t).unwrap_or_default(),
        };
        // one-byte lengths: the binary form carries Ed25519 and secp256k1 only
        let fits = f != 0 || (m.pk.t != 1 && m.sig.len() < 200);
        let (d, clean) = self.damaged(&b, dmg);
        let text = String::from_utf8_lossy(&d).into_owned();
        self.stats.calls += 1;
        let got: Result<Trust, String> = match f {
            0 => guard("C15", "Trust::decode", || Trust::decode(&d).map_err(|e| e.to_string()))?,
            1 => {
                let l: Vec<&str> = text.split('\n').collect();
                if l.len() != 4 {
                    return Ok(());
                }
                guard("C15", "Trust::convert_from_strings", || Trust::convert_from_strings(l[0], l[1], l[2], l[3]).map_err(|e| e.to_string()))?
            }
            2 => guard("C15", "Trust from serde", || serde_json::from_str(&text).map_err(|e| e.to_string()))?,
            _ => guard("C15", "Trust from serde", || rmp_serde::from_slice(&d).map_err(|e| e.to_string()))?,
        };
        self.digest.num(got.is_ok() as u64);
        let t2 = match got {
            Err(e) if clean && fits => return bad("C15", "Trust::decode", format!("an undamaged trust (form {f}) for {} is refused: {e}", self.name(&m.pk))),
            Err(_) => {
                self.note("trust_undecodable");
                return Ok(());
            }
            Ok(t2) => t2,
        };
        if clean && fits && t2 != t {
            return bad("C15", "Trust::decode", format!("a trust for {} arrived changed (form {f})", self.name(&m.pk)));
        }
        let Some(m) = link_of(&t2) else { return Ok(()) };
        let now = self.clock(to);
        let exp = Duration::from_secs(m.exp);
        for (k, t) in [(by, now), (to, now), (by, exp), (by, exp.saturating_add(Duration::from_millis(1)))] {
            let (pk, id) = (self.peers[k].kp.public(), self.peers[k].id.clone());
            let r = guard("C15", "Trust::verify", || Trust::verify(&t2, &pk, t).map_err(|e| e.to_string()))?;
            let want = exp >= t && m.signed_by(&id);
            if r.is_ok() != want && m.st == id.t {
                return bad("C15", "Trust::verify", format!("a trust for {} (expiry {}, issued {}) said to be of peer{k}, at {t:?}: {r:?}, should be {want}", self.name(&m.pk), m.exp, m.iat));
            }
            self.note(if want { "single_trust_verified" } else { "single_trust_refused" });
        }
        Ok(())
    }

    fn rev_send(&mut self, by: usize, of: usize, at: u64, form: u8, edit: &Option<(u8, u64)>, dmg: &[Dmg]) -> R<()> {
        let (by, of) = (self.p(by), self.p(of));
        let (kp, pk) = (self.peers[by].kp.clone(), self.peers[of].kp.public());
        let mut r = guard("C15", "Revocation::create", || Revocation::create(&kp, pk, Duration::from_secs(at)))?;
        let digest = |pk: &PublicKey, at: u64| {
            let e = pk.encode();
            let mut v = vec![e.len() as u8];
            v.extend(e);
            v.extend(at.to_le_bytes());
            sha(&v)
        };
        let id = self.peers[by].id.clone();
        if r.pk.encode() != self.peers[of].id.enc() || r.revoked_by.encode() != id.enc() || r.revoked_at != Duration::from_secs(at) || !id.verify(&digest(&r.pk, at), r.signature.to_vec()) {
            return bad("C15", "Revocation::create", format!("peer{by}'s revocation of peer{of} at {at} is not what it signed"));
        }
        if let Some((field, x)) = edit {
            let q = self.p(*x as usize);
            match field % 4 {
                0 => r.revoked_at = Duration::from_secs(*x),
                1 => r.pk = self.peers[q].kp.public(),
                2 => r.revoked_by = self.peers[q].kp.public(),
                // the signature of a trust with the same peer and time
                _ => r.signature = guard("C15", "Trust::create", || Trust::create(&kp, r.pk.clone(), r.revoked_at, r.revoked_at).signature)?,
            }
        }
        let f = form % 2;
        let b = if f == 0 { serde_json::to_vec(&r).unwrap_or_default() } else { rmp_serde::to_vec(&r).unwrap_or_default() };
        let (d, clean) = self.damaged(&b, dmg);
        self.stats.calls += 1;
        let got: Result<Revocation, String> = if f == 0 {
            let text = String::from_utf8_lossy(&d).into_owned();
            guard("C15", "Revocation from serde", || serde_json::from_str(&text).map_err(|e| e.to_string()))?
        } else {
            guard("C15", "Revocation from serde", || rmp_serde::from_slice(&d).map_err(|e| e.to_string()))?
        };
        self.digest.num(got.is_ok() as u64);
        let g = match got {
            Err(e) if clean => return bad("C15", "Revocation from serde", format!("an undamaged revocation is refused: {e}")),
            Err(_) => {
                self.note("revocation_undecodable");
                return Ok(());
            }
            Ok(g) => g,
        };
        if clean && (g.pk != r.pk || g.revoked_by != r.revoked_by || g.revoked_at != r.revoked_at || g.signature != r.signature) {
            return bad("C15", "Revocation from serde", format!("peer{by}'s revocation of peer{of} arrived changed"));
        }
        let Some(rb) = LPk::dec(&g.revoked_by.encode()) else { return Ok(()) };
        let v = guard("C15", "Revocation::verify", || Revocation::verify(&g).map_err(|e| e.to_string()))?;
        let want = rb.verify(&digest(&g.pk, g.revoked_at.as_secs()), g.signature.to_vec());
        if v.is_ok() != want && g.revoked_at.subsec_nanos() == 0 && g.signature.encode().first() == Some(&rb.t) {
            return bad("C15", "Revocation::verify", format!("a revocation of {} said to be of {} at {:?}: {v:?}, should be {want}", LPk::dec(&g.pk.encode()).map_or("?".into(), |k| self.name(&k)), self.name(&rb), g.revoked_at));
        }
        self.note(if want { "revocation_verified" } else { "revocation_refused" });
        Ok(())
    }

    fn sign(&mut self, p: usize, m: &[u8]) -> R<Signature> {
        let kp = self.peers[p].kp.clone();
        self.stats.calls += 1;
        let s = guard("C18", "KeyPair::sign", || kp.sign(m).map_err(|e| e.to_string()))?.map_err(|e| ("Answer", "C18", "KeyPair::sign".to_string(), e))?;
        if s.encode().first() != Some(&self.peers[p].id.t) || !self.peers[p].id.verify(m, s.to_vec()) {
            return bad("C18", "KeyPair::sign", format!("peer{p}'s signature is not one of its key"));
        }
        self.digest.bytes(&s.encode());
        Ok(s)
    }

    fn check_peer_id(&mut self, kp: &KeyPair, id: &LPk) -> R<()> {
        let a = guard("C18", "KeyPair::get_peer_id", || kp.get_peer_id().to_base58())?;
        if a != id.peer_id() {
            return bad("C18", "KeyPair::get_peer_id", format!("peer id {a}, should be {}", id.peer_id()));
        }
        Ok(())
    }

    fn pk_send(&mut self, peer: usize, form: u8, dmg: &[Dmg]) -> R<()> {
        let p = self.p(peer);
        let pk = self.peers[p].kp.public();
        let id = self.peers[p].id.clone();
        let f = form % 9;
        let hash = PublicKeyHashable::from(pk.clone());
        let b: Vec<u8> = match f {
            0 => guard("C18", "PublicKey::encode", || pk.encode())?,
            1 => bs58::encode(guard("C18", "PublicKey::encode", || pk.encode())?).into_string().into_bytes(),
            2 => guard("C18", "PublicKey::to_peer_id", || pk.to_peer_id().to_base58())?.into_bytes(),
            3 => {
                let l: libp2p_identity::PublicKey = guard("C18", "PublicKey to libp2p", || pk.clone().into())?;
                l.encode_protobuf()
            }
            4 => serde_json::to_vec(&pk).unwrap_or_default(),
            6 => guard("C18", "PublicKeyHashable::to_string", || hash.to_string())?.into_bytes(),
            7 => serde_json::to_vec(&hash).unwrap_or_default(),
            8 => rmp_serde::to_vec(&hash).unwrap_or_default(),
            _ => guard("C18", "peerid_serializer", || serde_json::to_vec(&WrappedId { id: pk.to_peer_id() }).unwrap_or_default())?,
        };
        let want: Option<Vec<u8>> = match f {
            0 => Some(id.enc()),
            1 | 6 => Some(bs58::encode(id.enc()).into_string().into_bytes()),
            2 => Some(id.peer_id().into_bytes()),
            3 => Some(id.protobuf()),
            5 => Some(json!({"id": id.peer_id()}).to_string().into_bytes()),
            _ => None,
        };
        if want.map_or(false, |w| w != b) || pk.to_vec() != id.raw {
            return bad("C18", "public key encoding", format!("form {f} of peer{p}'s public key is not the documented one"));
        }
        let d = damage(b.clone(), dmg);
        let clean = d == b;
        if !clean {
            *self.stats.faults.0.entry("corrupted_message".into()).or_default() += 1;
        }
        let text = String::from_utf8_lossy(&d).into_owned();
        self.stats.calls += 1;
        let of_peer = |s: &str| -> R<Result<PublicKey, String>> {
            match PeerId::from_str(s) {
                Err(e) => Ok(Err(e.to_string())),
                Ok(i) => guard("C18", "PublicKey::try_from(PeerId)", || PublicKey::try_from(i).map_err(|e| e.to_string())),
            }
        };
        let got: Result<PublicKey, String> = match f {
            0 => guard("C18", "PublicKey::decode", || PublicKey::decode(&d).map_err(|e| e.to_string()))?,
            1 => guard("C18", "PublicKey::from_base58", || PublicKey::from_base58(&text).map_err(|e| e.to_string()))?,
            2 => of_peer(&text)?,
            3 => match libp2p_identity::PublicKey::try_decode_protobuf(&d) {
                Err(e) => Err(e.to_string()),
                Ok(l) => Ok(guard("C18", "PublicKey from libp2p", || PublicKey::from(l))?),
            },
            4 => serde_json::from_str(&text).map_err(|e| e.to_string()),
            6 => guard("C18", "PublicKeyHashable::from_str", || PublicKeyHashable::from_str(&text).map(PublicKey::from).map_err(|e| e.to_string()))?,
            7 => guard("C18", "PublicKeyHashable from serde", || serde_json::from_str::<PublicKeyHashable>(&text).map(PublicKey::from).map_err(|e| e.to_string()))?,
            8 => guard("C18", "PublicKeyHashable from serde", || rmp_serde::from_slice::<PublicKeyHashable>(&d).map(PublicKey::from).map_err(|e| e.to_string()))?,
            _ => {
                let w = guard("C18", "peerid_serializer", || serde_json::from_str::<WrappedId>(&text).map_err(|e| e.to_string()))?;
                match w {
                    Err(e) => Err(e),
                    Ok(w) => of_peer(&w.id.to_base58())?,
                }
            }
        };
        self.digest.num(got.is_ok() as u64);
        // the bytes this form spells, if it spells any
        let spelt: Option<Vec<u8>> = match f {
            0 => Some(d.clone()),
            1 | 6 => bs58::decode(&text).into_vec().ok(),
            4 => serde_json::from_str::<serde_json::Value>(&text).ok().and_then(|v| {
                let o = v.as_object().filter(|o| o.len() == 1)?;
                let t = match o.keys().next()?.as_str() {
                    "Ed25519" => 0u8,
                    "Secp256k1" => 2,
                    _ => return None,
                };
                let l = o.values().next()?.as_array()?;
                std::iter::once(Some(t)).chain(l.iter().map(|x| x.as_u64().and_then(|x| u8::try_from(x).ok()))).collect()
            }),
            7 => serde_json::from_str::<String>(&text).ok().and_then(|t| bs58::decode(t).into_vec().ok()),
            _ => None,
        };
        if let Some(x) = spelt.filter(|x| !x.is_empty() && x[0] != 1) {
            let says = LPk::dec(&x).map(|k| k.enc());
            let is = got.as_ref().ok().map(|k| k.encode());
            if says != is {
                return bad("C18", "public key decoding", format!("form {f}: {x:?} gives {is:?}, should give {says:?}"));
            }
        }
        let by_id = f == 2 || f == 5;
        match got {
            // the peer id of an RSA key is a hash: nothing to recover
            Err(e) if clean && !(by_id && id.t == 1) => return bad("C18", "public key decoding", format!("form {f} of peer{p}'s public key is refused: {e}")),
            Err(_) => self.note("public_key_undecodable"),
            Ok(k) => {
                let e = guard("C18", "PublicKey::encode", || k.encode())?;
                if clean && (k != pk || e != id.enc()) {
                    return bad("C18", "public key decoding", format!("peer{p}'s public key arrived as another key (form {f})"));
                }
                if !clean && f < 2 && e == id.enc() && d != b {
                    return bad("C18", "public key decoding", format!("a damaged form {f} of peer{p}'s public key still decodes to that key"));
                }
                // whatever arrived is usable without an abort
                let again = guard("C18", "PublicKey::decode", || PublicKey::decode(&e).ok())?;
                if again.as_ref() != Some(&k) {
                    return bad("C18", "PublicKey::decode", "a decoded public key does not decode again from its own encoding".into());
                }
                let m = msg_of(3);
                let s = self.sign(p, &m)?;
                let r = guard("C18", "PublicKey::verify", || k.verify(&m, &s).is_ok())?;
                let Some(lk) = LPk::dec(&e) else { return bad("C18", "PublicKey::encode", "unknown encoding".into()) };
                if r != lk.verify(&m, s.to_vec()) {
                    return bad("C18", "PublicKey::verify", format!("with the received key: {r}"));
                }
                let i = guard("C18", "PublicKey::to_peer_id", || k.to_peer_id().to_base58())?;
                if i != lk.peer_id() {
                    return bad("C18", "PublicKey::to_peer_id", format!("{i}, should be {}", lk.peer_id()));
                }
                self.note(if clean { "public_key_arrived" } else { "public_key_damaged_but_decodable" });
            }
        }
        Ok(())
    }

    #[allow(clippy::too_many_arguments)]
    fn extended(&mut self, what: &'static str, out: u32, cert: u32, got: Result<Certificate, String>, by: &LPk, now: Duration, must: bool, is_new: impl Fn(&MLink) -> bool) -> R<()> {
        self.stats.calls += 1;
        self.digest.num(got.is_ok() as u64);
        let m = self.model[&cert].clone();
        let verified = m.first().map_or(false, |r| valid(&m, &[r.pk.clone()], now));
        let inside = m.iter().any(|l| l.pk == *by);
        let loose = mislabelled(&m);
        match got {
            Err(e) => {
                if verified && inside && must && !loose {
                    return bad("C15", what, format!("{} could not extend {} at {now:?}: {e}", self.name(by), self.show(&m)));
                }
                self.note("extension_refused");
            }
            Ok(c) => {
                if (!verified || !inside) && !loose {
                    return bad("C15", what, format!("{} extended {} at {now:?} (verifies: {verified}, contains the issuer: {inside})", self.name(by), self.show(&m)));
                }
                let r = links_of(&c).unwrap_or_default();
                let n = r.len();
                let ok = n >= 2 && n - 1 <= m.len() && r[..n - 1] == m[..n - 1] && r[n - 2].pk == *by && is_new(&r[n - 1]);
                if !ok && !loose {
                    return bad("C15", what, format!("{} extending {} got {}", self.name(by), self.show(&m), self.show(&r)));
                }
                self.note("extended");
                if n >= 4 {
                    self.note("extended_to_4_links_or_more");
                }
                self.keep(out, c)?;
            }
        }
        Ok(())
    }
}

fn bin_of_any(m: &[MLink]) -> Vec<u8> {
    let mut v = vec![];
    for l in m {
        v.extend(l.pk.enc());
        v.push(l.st);
        v.extend(&l.sig);
        v.extend(l.exp.to_le_bytes());
        v.extend(l.iat.to_le_bytes());
    }
    v
}
fn msg_of(n: u64) -> Vec<u8> {
    let mut r = Rng::new(n);
    let len = match n % 7 {
        0 => 0,
        1 => 1,
        2 => 32,
        _ => r.idx(200),
    };
    r.bytes(len)
}

// ---------------------------------------------------------------- generation

struct LGen<'a> {
    r: Rng,
    w: &'a mut World,
    next: u32,
    held: Vec<u32>,
    flight: Vec<(u32, usize)>,
    keys: bool,
    msgs: [u64; 5],
}
impl LGen<'_> {
    fn id(&mut self) -> u32 {
        self.next += 1;
        self.next
    }
    fn peer(&mut self) -> usize {
        self.r.idx(self.w.peers.len())
    }
    fn cert(&mut self) -> Option<u32> {
        if self.held.is_empty() {
            return None;
        }
        // prefer recent ones so that chains grow
        let n = self.held.len();
        let pick = |s: &mut Self| {
            let i = if s.r.chance(0.5) { n - 1 - s.r.idx(n.min(4)) } else { s.r.idx(n) };
            s.held[i]
        };
        let mut c = pick(self);
        // the very long ones take long
        for _ in 0..4 {
            if self.w.model[&c].len() > 60 && self.r.chance(0.7) {
                c = pick(self);
            }
        }
        Some(c)
    }
    fn now(&self) -> u64 {
        self.w.now_ms / 1000
    }
    fn exp(&mut self) -> u64 {
        let n = self.now();
        match self.r.idx(10) {
            0 => n,
            1 => n.saturating_sub(self.r.range(1, 50)),
            2 => n + 1,
            3 => u64::MAX,
            4 => i64::MAX as u64 + self.r.range(0, 2),
            _ => n + self.r.range(1, 2000),
        }
    }
    fn iat(&mut self) -> u64 {
        let n = self.now();
        match self.r.idx(8) {
            0 => 0,
            1 => n + self.r.range(0, 100),
            2 => u64::MAX,
            _ => n.saturating_sub(self.r.range(0, 1000)),
        }
    }
    fn mk(&mut self) -> Mk {
        let c = self.cert().unwrap_or(0);
        let k = self.r.idx(8) as u8;
        match self.r.idx(6) {
            0 | 1 => Mk::Take { cert: c, link: k },
            2 => {
                let sc = self.cert().unwrap_or(0);
                Mk::Swap { cert: c, link: k, scert: sc, slink: self.r.idx(8) as u8 }
            }
            3 => {
                let field = self.r.idx(4) as u8;
                let to = if field == 2 { self.peer() as u64 } else if field == 3 { self.r.below(3) } else { self.exp() };
                Mk::Edit { cert: c, link: k, field, to }
            }
            _ => Mk::New { by: self.peer(), to: self.peer(), exp: self.exp(), iat: self.iat() },
        }
    }
    fn dmg(&mut self, text: bool, n: usize) -> Vec<Dmg> {
        (0..n)
            .map(|_| {
                let pos = self.r.u64() as u32;
                match self.r.idx(if text { 12 } else { 9 }) {
                    0 | 1 => Dmg::Flip { pos, bit: self.r.idx(8) as u8 },
                    2 => Dmg::Set { pos, to: self.r.u64() as u8 },
                    3 => Dmg::Trunc { at: pos },
                    4 => Dmg::Insert { pos, b: if text { *self.r.pick(b"1aZ\n +-0") } else { self.r.u64() as u8 } },
                    5 => {
                        let n = 1 + self.r.idx(20);
                        Dmg::Append { b: if text { b"\n11111111111".repeat(2)[..n].to_vec() } else { self.r.bytes(n) } }
                    }
                    6 => Dmg::Zero { from: pos, n: self.r.below(64) as u32 },
                    7 if !text => Dmg::Pad { link: self.r.idx(4) as u8, n: 1 + self.r.idx(9) as u8 },
                    7 => Dmg::ClearLine { a: pos },
                    8 if self.r.chance(0.2) => Dmg::Empty,
                    8 => Dmg::Set { pos: self.r.below(12) as u32, to: *self.r.pick(&[0, 1, 2, 3, 5, 127, 255]) },
                    9 => Dmg::Swap { a: pos, b: self.r.u64() as u32 },
                    10 => Dmg::DropLine { a: pos },
                    _ => Dmg::DupLine { a: pos },
                }
            })
            .collect()
    }
    fn some_dmg(&mut self, text: bool, p: f64) -> Vec<Dmg> {
        if self.r.chance(p) {
            let n = self.r.weighted(&[(6.0, 1), (2.0, 2), (1.0, 3)]);
            self.dmg(text, n)
        } else {
            vec![]
        }
    }
    fn next_event(&mut self) -> LEv {
        let base: &[(f64, u8)] = if self.keys {
            &[(1.0, 0), (1.0, 1), (1.0, 2), (2.0, 3), (2.0, 5), (1.0, 8), (2.0, 9), (1.0, 10), (4.0, 11), (6.0, 12), (9.0, 13), (3.0, 14), (9.0, 15), (9.0, 16)]
        } else {
            &[(3.0, 0), (2.0, 1), (2.0, 2), (3.0, 3), (2.0, 4), (8.0, 5), (3.0, 6), (6.0, 7), (10.0, 8), (12.0, 9), (5.0, 10), (0.5, 12), (0.7, 13), (0.3, 14), (5.0, 17), (4.0, 18), (0.5, 19)]
        };
        match self.r.weighted(base) {
            0 => {
                // often to the edge of some link's expiry on some peer's clock
                let mut ms = match self.r.idx(4) {
                    0 => self.r.range(1, 2000),
                    1 => self.r.range(1, 400_000),
                    _ => 1000 * self.r.range(0, 60),
                };
                if self.r.chance(0.5) {
                    if let Some(c) = self.cert() {
                        let m = &self.w.model[&c];
                        if !m.is_empty() {
                            let l = &m[self.r.idx(m.len())];
                            let p = self.r.idx(self.w.peers.len());
                            let target = (l.exp as i128) * 1000 - self.w.peers[p].skew as i128 + *self.r.pick(&[-1i128, 0, 1, 1000, 999]);
                            let d = target - self.w.now_ms as i128;
                            if d > 0 && d < 10_000_000 {
                                ms = d as u64;
                            }
                        }
                    }
                }
                LEv::Tick { ms }
            }
            1 => {
                let ms = match self.r.idx(5) {
                    0 => 0,
                    1 => self.r.range(0, 3000) as i64 - 1500,
                    2 => -(T0 as i64) * 1000 * 2,
                    _ => self.r.range(0, 2_000_000) as i64 - 1_000_000,
                };
                LEv::Skew { peer: self.peer(), ms }
            }
            2 => {
                let n = self.r.idx(4);
                LEv::Roots { peer: self.peer(), of: (0..n).map(|_| self.peer()).collect() }
            }
            3 => {
                let out = self.id();
                LEv::IssueRoot { out, by: self.peer(), to: self.peer(), exp: self.exp(), iat: self.iat() }
            }
            4 => {
                let out = self.id();
                let by = self.peer();
                let (root, link) = if self.r.chance(0.6) {
                    (Mk::New { by, to: by, exp: self.exp(), iat: self.iat() }, Mk::New { by, to: self.peer(), exp: self.exp(), iat: self.iat() })
                } else {
                    (self.mk(), self.mk())
                };
                LEv::FromRoot { out, at: self.peer(), root, link }
            }
            5 => {
                let Some(cert) = self.cert() else { return self.first_cert() };
                let out = self.id();
                let by = self.holder(cert, 0.85);
                LEv::Extend { out, by, to: self.peer(), cert, exp: self.exp(), iat: self.iat() }
            }
            6 => {
                let Some(cert) = self.cert() else { return self.first_cert() };
                let out = self.id();
                let by = self.holder(cert, 0.85);
                let link = if self.r.chance(0.75) { Mk::New { by, to: self.peer(), exp: self.exp(), iat: self.iat() } } else { self.mk() };
                LEv::ExtendWith { out, by, cert, link, at: self.peer() }
            }
            7 => {
                if self.held.is_empty() {
                    return self.first_cert();
                }
                let out = self.id();
                // start from a real chain and disturb it, or assemble from pieces
                let c = self.cert().unwrap();
                let n = self.w.model[&c].len();
                let mut links: Vec<Mk> = (0..n).map(|i| Mk::Take { cert: c, link: i as u8 }).collect();
                match self.r.idx(7) {
                    0 if n > 1 => {
                        let (a, b) = (self.r.idx(n), self.r.idx(n));
                        links.swap(a, b);
                    }
                    1 if n > 1 => {
                        let i = self.r.idx(n);
                        links.remove(i);
                    }
                    2 if n > 0 => {
                        let i = self.r.idx(n);
                        let l = links[i].clone();
                        links.insert(i, l);
                    }
                    3 => {
                        // head of one, tail of another
                        let d = self.cert().unwrap();
                        let k = self.w.model[&d].len();
                        let (a, b) = (self.r.idx(n + 1), self.r.idx(k + 1));
                        links.truncate(a);
                        links.extend((b..k).map(|i| Mk::Take { cert: d, link: i as u8 }));
                    }
                    4 if n > 0 => {
                        let i = self.r.idx(n);
                        let field = self.r.idx(4) as u8;
                        let to = if field == 2 { self.peer() as u64 } else if field == 3 { self.r.below(3) } else { self.exp() };
                        links[i] = Mk::Edit { cert: c, link: i as u8, field, to };
                    }
                    5 if n > 0 => {
                        let i = self.r.idx(n);
                        let d = self.cert().unwrap();
                        links[i] = Mk::Swap { cert: c, link: i as u8, scert: d, slink: self.r.idx(8) as u8 };
                    }
                    _ => {
                        // links genuinely signed, but not by the previous subject
                        let k = self.r.range(1, 3);
                        for _ in 0..k {
                            let i = self.r.idx(links.len() + 1);
                            links.insert(i, Mk::New { by: self.peer(), to: self.peer(), exp: self.exp(), iat: self.iat() });
                        }
                    }
                }
                LEv::Craft { out, links }
            }
            8 => {
                let Some(cert) = self.cert() else { return self.first_cert() };
                let msg = self.id();
                let rsa = self.w.model[&cert].iter().any(|l| l.pk.t == 1);
                let form = match self.r.idx(5) {
                    0 | 1 if !rsa => Form::Bin,
                    2 => Form::Serde,
                    _ => Form::Text,
                };
                let dmg = self.some_dmg(form != Form::Bin, 0.45);
                self.msgs[0] += 1;
                if self.r.chance(0.08) {
                    self.msgs[1] += 1; // lost
                } else {
                    let copies = if self.r.chance(0.2) { 2 } else { 1 };
                    self.msgs[2] += copies - 1;
                    let root = self.w.model[&cert].first().map(|l| l.pk.clone());
                    let trusting: Vec<usize> = (0..self.w.peers.len()).filter(|i| root.as_ref().map_or(false, |r| self.w.peers[*i].roots.contains(r))).collect();
                    for _ in 0..copies {
                        let to = if !trusting.is_empty() && self.r.chance(0.7) { *self.r.pick(&trusting) } else { self.peer() };
                        self.flight.push((msg, to));
                    }
                }
                LEv::Send { msg, cert, form, dmg }
            }
            9 => {
                if self.flight.is_empty() {
                    return LEv::Tick { ms: 500 };
                }
                // any order
                let i = self.r.idx(self.flight.len());
                if i > 0 {
                    self.msgs[3] += 1;
                }
                let (msg, to) = self.flight.remove(i);
                let keep = if self.r.chance(0.6) { Some(self.id()) } else { None };
                LEv::Deliver { msg, to, keep }
            }
            10 => {
                let Some(cert) = self.cert() else { return self.first_cert() };
                LEv::Look { peer: self.peer(), cert }
            }
            11 => LEv::Sign { peer: self.peer(), msg: self.r.below(1 << 20) },
            12 => LEv::Store { peer: self.peer(), form: self.r.idx(16) as u8 },
            13 => {
                let peer = self.peer();
                let dmg = self.some_dmg(false, 0.5);
                let label = if self.r.chance(0.08) { self.some_dmg(true, 1.0) } else { vec![] };
                let label = if self.r.chance(0.04) { vec![Dmg::Empty, Dmg::Append { b: self.r.pick(&[b"rsa".to_vec(), b"ed25519".to_vec(), b"secp256k1".to_vec()]).clone() }] } else { label };
                LEv::Crash { peer, dmg, label }
            }
            14 => LEv::Regen { peer: self.peer(), rnd: self.r.u64() },
            15 => {
                let form = self.r.idx(9) as u8;
                let mut dmg = self.some_dmg(form != 0 && form != 3 && form != 8, 0.5);
                if form == 0 && self.r.chance(0.25) {
                    dmg = vec![Dmg::Inflate { kind: self.r.idx(3) as u8 }];
                }
                if form == 4 && self.r.chance(0.25) {
                    dmg = vec![Dmg::Resize { by: *self.r.pick(&[-1i8, 1, 2, 31, 32]) }];
                }
                LEv::PkSend { peer: self.peer(), form, dmg }
            }
            17 => {
                let form = self.r.idx(4) as u8;
                let dmg = self.some_dmg(form == 1 || form == 2, 0.4);
                let link = if self.r.chance(0.6) { Mk::New { by: self.peer(), to: self.peer(), exp: self.exp(), iat: self.iat() } } else { self.mk() };
                let by = match &link {
                    Mk::New { by, .. } if self.r.chance(0.7) => *by,
                    _ => self.peer(),
                };
                LEv::TrustSend { link, by, to: self.peer(), form, dmg }
            }
            19 => {
                // a genuine chain far longer than anyone builds link by link
                let out = self.id();
                let n = if self.r.chance(0.94) || self.held.iter().any(|c| self.w.model[c].len() > 60) { *self.r.pick(&[7usize, 9, 12, 17, 18, 24, 33, 40]) } else { *self.r.pick(&[65, 127, 128, 129, 200, 255, 256, 258]) };
                let mut by = self.peer();
                let dead = if self.r.chance(0.4) { self.r.idx(n) } else { n };
                let links = (0..n)
                    .map(|i| {
                        let to = if i == 0 { by } else { self.peer() };
                        let exp = if i == dead { self.now().saturating_sub(1) } else { self.now() + 1_000_000 };
                        let l = Mk::New { by, to, exp, iat: self.iat() };
                        by = to;
                        l
                    })
                    .collect();
                LEv::Craft { out, links }
            }
            18 => {
                let form = self.r.idx(2) as u8;
                let dmg = self.some_dmg(form == 0, 0.35);
                let edit = if self.r.chance(0.4) { Some((self.r.idx(4) as u8, if self.r.chance(0.5) { self.r.below(8) } else { self.iat() })) } else { None };
                LEv::RevSend { by: self.peer(), of: self.peer(), at: self.iat(), form, edit, dmg }
            }
            _ => {
                let form = self.r.idx(3) as u8;
                let dmg = self.some_dmg(form == 2, 0.5);
                LEv::SigSend { peer: self.peer(), to: self.peer(), msg: self.r.below(1 << 20), form, dmg }
            }
        }
    }
    // ------------------------------------------------ graphs over storages of their own

    fn g_iat(&mut self) -> u64 {
        let n = self.now();
        match self.r.idx(12) {
            0 => 0,
            1 => n + self.r.range(0, 100),
            2 => u64::MAX,
            3 | 4 => n,
            5 => n.saturating_sub(1),
            _ => n.saturating_sub(self.r.range(0, 20)),
        }
    }
    fn g_exp(&mut self) -> u64 {
        let n = self.now();
        match self.r.idx(14) {
            0 => n,
            1 => n.saturating_sub(self.r.range(1, 50)),
            2 => n + 1,
            3 => u64::MAX,
            4 => i64::MAX as u64 + self.r.range(0, 2),
            5 | 6 => n + self.r.range(1, 20),
            _ => n + self.r.range(1, 2000),
        }
    }
    fn g_link(&mut self, by: usize, to: usize) -> Mk {
        Mk::New { by, to, exp: self.g_exp(), iat: self.g_iat() }
    }
    fn graph_event(&mut self, hosts: usize, known: &mut Vec<usize>, ended: &mut Vec<u64>) -> Vec<LEv> {
        let peer = self.r.idx(hosts);
        let g = |e: GEv| LEv::Graph { peer, e };
        let mut out = vec![];
        // those who have had a trust are the ones to issue and to be asked about
        let someone = |s: &mut Self, k: &[usize]| if !k.is_empty() && s.r.chance(0.75) { *s.r.pick(k) } else { s.peer() };
        let e = match self.r.weighted(&[(1.5, 0u8), (14.0, 1), (4.0, 2), (6.0, 3), (12.0, 4), (2.0, 5), (1.0, 6), (2.0, 7), (3.0, 8), (1.0, 9), (2.0, 10), (1.2, 11), (1.0, 12)]) {
            0 => {
                let of = self.peer();
                known.push(of);
                GEv::Root { of, len: *self.r.pick(&[0, 1, 2, 3, 4, 5, 15, 16, 17, 100, u32::MAX]) }
            }
            1 | 9 => {
                let by = someone(self, known);
                let to = self.peer();
                known.push(to);
                let link = if self.r.chance(0.9) { self.g_link(by, to) } else { self.mk() };
                if let Mk::New { exp, .. } = &link {
                    ended.push(*exp);
                }
                let by = if self.r.chance(0.93) { by } else { self.peer() };
                GEv::Add { link, by }
            }
            2 => {
                let n = self.r.range(1, 6);
                let mut by = someone(self, known);
                let mut links = vec![self.g_link(by, by)];
                for _ in 1..n {
                    let to = self.peer();
                    known.push(to);
                    links.push(self.g_link(by, to));
                    by = to;
                }
                if self.r.chance(0.2) {
                    let i = self.r.idx(links.len());
                    links[i] = self.mk();
                }
                if self.r.chance(0.03) {
                    links.clear();
                }
                GEv::Cert { links }
            }
            3 => {
                let (by, of) = (someone(self, known), someone(self, known));
                let edit = if self.r.chance(0.15) { Some((self.r.idx(4) as u8, if self.r.chance(0.5) { self.r.below(8) } else { self.g_iat() })) } else { None };
                GEv::Revoke { by, of, when: self.g_iat(), edit }
            }
            4 => {
                let of = someone(self, known);
                let from = if self.r.chance(0.3) { Some(someone(self, known)) } else { None };
                GEv::Ask { of, from, weight: self.r.chance(0.4) }
            }
            11 => {
                // a line below a root, a revocation across it, and the question about its end with every lookup failing
                let mut line: Vec<usize> = (0..self.w.peers.len()).collect();
                self.r.shuffle(&mut line);
                if !known.is_empty() {
                    let head = *self.r.pick(known);
                    line.retain(|x| *x != head);
                    line.insert(0, head);
                }
                let n = self.r.range(3, 6).min(line.len() as u64) as usize;
                line.truncate(n);
                let (iat, exp) = (self.now(), self.now() + self.r.range(20, 3000));
                if self.r.chance(0.5) {
                    out.push(g(GEv::Root { of: line[0], len: self.r.range(2, 7) as u32 }));
                }
                out.push(g(GEv::Add { link: Mk::New { by: line[0], to: line[0], exp, iat }, by: line[0] }));
                for k in line.windows(2) {
                    out.push(g(GEv::Add { link: Mk::New { by: k[0], to: k[1], exp, iat }, by: k[0] }));
                }
                known.extend(&line);
                ended.push(exp);
                if n > 3 && self.r.chance(0.7) {
                    let i = self.r.idx(n - 2);
                    let j = i + 2 + self.r.idx(n - i - 2);
                    out.push(g(GEv::Revoke { by: line[i], of: line[j], when: iat, edit: None }));
                }
                let ask = GEv::Ask { of: line[n - 1], from: None, weight: self.r.chance(0.4) };
                if self.r.chance(0.6) {
                    let on = *self.r.pick(&[0, 1, 2, 2, 2, 3]);
                    let lasting = self.r.chance(0.3);
                    for k in 0..self.r.range(3, 9) as u32 {
                        out.push(g(GEv::Fail { on, after: k, late: false, lasting }));
                        out.push(g(ask.clone()));
                    }
                }
                out.push(g(ask));
                return out;
            }
            5 => GEv::Revocations { of: someone(self, known) },
            12 => {
                let n = self.r.weighted(&[(0.5, 0u64), (4.0, 1), (3.0, 2), (2.0, 3)]);
                let certs = (0..n)
                    .map(|_| {
                        if self.r.chance(0.06) {
                            return vec![];
                        }
                        let mut by = if known.is_empty() || self.r.chance(0.08) { self.peer() } else { known[self.r.idx(known.len().min(2))] };
                        let mut c = vec![self.g_link(by, by)];
                        for _ in 0..self.r.range(0, 8) {
                            let to = self.peer();
                            c.push(self.g_link(by, to));
                            by = to;
                        }
                        c
                    })
                    .collect();
                GEv::Factor { certs }
            }
            6 => GEv::Order { seed: self.r.u64() },
            7 => GEv::Restart { form: self.r.idx(3) as u8 },
            8 => {
                let mut ms = match self.r.idx(4) {
                    0 => self.r.range(1, 2000),
                    1 => self.r.range(1, 40_000),
                    _ => 1000 * self.r.range(0, 6),
                };
                if !ended.is_empty() && self.r.chance(0.5) {
                    // to the edge of some expiry, on the host's clock
                    let x = *self.r.pick(ended);
                    let d = x as i128 * 1000 - self.w.peers[peer].skew as i128 + *self.r.pick(&[-1i128, 0, 1, 500, 1000]) - self.w.now_ms as i128;
                    if d > 0 && d < 3_000_000 {
                        ms = d as u64;
                    }
                }
                return vec![LEv::Tick { ms }];
            }
            _ => return vec![LEv::Skew { peer, ms: *self.r.pick(&[0, 0, 1500, -1500, 60_000, -60_000, 4_000_000, -4_000_000]) }],
        };
        if self.r.chance(0.18) {
            // the same call at every point of failure, or at one of them
            let (late, lasting) = (self.r.chance(0.5), self.r.chance(0.3));
            let n = self.r.weighted(&[(3.0, 1u32), (1.0, 6)]);
            let on = if self.r.chance(0.5) { 1 + self.r.idx(7) as u8 } else { 0 };
            let first = self.r.below(if n > 1 || on != 0 { 3 } else { 12 }) as u32;
            for k in 0..n {
                out.push(g(GEv::Fail { on, after: first + k, late, lasting }));
                out.push(g(e.clone()));
            }
        }
        out.push(g(e));
        out
    }
    fn graph_start(&mut self, hosts: usize, known: &mut Vec<usize>, ended: &mut Vec<u64>) -> Vec<LEv> {
        let mut out = vec![];
        if self.w.peers.len() > 10 {
            let (iat, exp) = (self.now(), self.now() + 100_000);
            let mut by = 0;
            out.push(LEv::Graph { peer: 0, e: GEv::Root { of: 0, len: *self.r.pick(&[14, 15, 16, 16, 16, 17, 100]) } });
            for to in 0..self.w.peers.len() {
                out.push(LEv::Graph { peer: 0, e: GEv::Add { link: Mk::New { by, to, exp, iat }, by } });
                by = to;
                if to > 13 {
                    out.push(LEv::Graph { peer: 0, e: GEv::Ask { of: to, from: None, weight: self.r.chance(0.5) } });
                }
            }
            known.extend(0..self.w.peers.len());
            ended.push(exp);
            return out;
        }
        for peer in 0..hosts {
            let n = 1 + self.r.idx(3);
            for _ in 0..n {
                let of = self.peer();
                known.push(of);
                let len = *self.r.pick(&[1, 2, 3, 3, 4, 5, 8, 16]);
                out.push(LEv::Graph { peer, e: GEv::Root { of, len } });
                let exp = if self.r.chance(0.8) { self.now() + 100_000 } else { self.g_exp() };
                ended.push(exp);
                out.push(LEv::Graph { peer, e: GEv::Add { link: Mk::New { by: of, to: of, exp, iat: self.now().saturating_sub(self.r.range(0, 50)) }, by: of } });
            }
        }
        out
    }
    fn graph_end(&mut self, hosts: usize) -> Vec<LEv> {
        let mut out = vec![];
        for peer in 0..hosts {
            for of in 0..self.w.peers.len() {
                out.push(LEv::Graph { peer, e: GEv::Ask { of, from: None, weight: of % 2 == 0 } });
                out.push(LEv::Graph { peer, e: GEv::Ask { of, from: None, weight: of % 2 == 1 } });
            }
        }
        out
    }
    fn first_cert(&mut self) -> LEv {
        let out = self.id();
        LEv::IssueRoot { out, by: self.peer(), to: self.peer(), exp: self.now() + 3000, iat: self.now() }
    }
    fn holder(&mut self, cert: u32, p: f64) -> usize {
        let m = &self.w.model[&cert];
        if !m.is_empty() && self.r.chance(p) {
            let i = if self.r.chance(0.6) { m.len() - 1 } else { self.r.idx(m.len()) };
            if let Some(i) = self.w.peers.iter().position(|q| q.id == m[i].pk) {
                return i;
            }
        }
        self.peer()
    }
}

pub struct Outcome {
    pub types: Vec<u8>,
    pub evs: Vec<LEv>,
    pub viol: Option<LViol>,
    pub stats: Stats,
    pub digest: u64,
    pub msgs: [u64; 5],
}

fn step(w: &mut World, i: usize, e: &LEv) -> Option<LViol> {
    w.step = i;
    let r = w.run(e);
    w.digest.num(i as u64);
    r.err().map(|(kind, prop, call, detail)| LViol { at: i, kind, prop, call, detail })
}

pub fn types_of(p: &str, seed: u64) -> Vec<u8> {
    let mut r = Rng::new(seed ^ 0x71);
    let n = 3 + r.idx(4);
    let rsa = if p == "C18" { 0.3 } else { 0.12 };
    let n = if p == "C21" { 3 + r.idx(5) } else { n };
    if p == "C21" && r.chance(0.04) {
        // enough for a chain of the greatest length, and one beyond
        return (0..18 + r.idx(2)).map(|_| if r.chance(0.8) { 0 } else { 2 }).collect();
    }
    (0..n).map(|_| if r.chance(rsa) { 1 } else if r.chance(0.5) { 0 } else { 2 }).collect()
}

fn threaded<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    // a thread of its own: thread-local generators of the libraries start afresh
    std::thread::Builder::new().stack_size(16 << 20).spawn(f).expect("thread").join().expect("run")
}

pub fn seeded(p: &str, seed: u64, journal: Option<std::fs::File>) -> Outcome {
    let p = p.to_string();
    threaded(move || {
        use std::io::Write;
        let mut journal = journal;
        crate::node::seed_rnd(seed);
        let types = types_of(&p, seed);
        let mut w = World::new(&types);
        let mut evs = vec![];
        let mut viol = None;
        let mut g = LGen { r: Rng::new(seed), w: &mut w, next: 0, held: vec![], flight: vec![], keys: p == "C18", msgs: [0; 5] };
        let n = g.r.range(30, 120) as usize;
        let n = if g.w.peers.len() > 10 { n / 6 } else { n };
        for i in 0..g.w.peers.len() {
            let k = 1 + g.r.idx(3);
            let of = (0..k).map(|_| g.peer()).collect();
            evs.push(LEv::Roots { peer: i, of });
        }
        let graphs = p == "C21";
        let (mut known, mut ended) = (vec![], vec![]);
        let hosts = if graphs { 1 + g.r.chance(0.3) as usize } else { 0 };
        if graphs {
            evs = g.graph_start(hosts, &mut known, &mut ended);
        }
        let pre = evs.len();
        let mut i = 0;
        loop {
            if i == evs.len() {
                if i >= n + pre {
                    break;
                }
                if graphs {
                    let more = g.graph_event(hosts, &mut known, &mut ended);
                    evs.extend(more);
                    if evs.len() >= n + pre {
                        let more = g.graph_end(hosts);
                        evs.extend(more);
                    }
                } else {
                    let e = g.next_event();
                    evs.push(e);
                }
            }
            if let Some(j) = journal.as_mut() {
                let _ = writeln!(j, "{}", serde_json::to_string(&evs[i]).unwrap());
                let _ = j.flush();
            }
            if let Some(v) = step(g.w, i, &evs[i]) {
                viol = Some(v);
                evs.truncate(i + 1);
                break;
            }
            i += 1;
            g.held = g.w.certs.keys().copied().collect();
        }
        let msgs = g.msgs;
        w.stats.sim_secs = (w.now_ms - T0 * 1000) / 1000;
        Outcome { types, evs, viol, digest: w.digest.0, stats: w.stats, msgs }
    })
}

pub fn run(types: &[u8], rnd: u64, evs: &[LEv]) -> (Option<LViol>, u64) {
    let (types, evs) = (types.to_vec(), evs.to_vec());
    threaded(move || {
        crate::node::seed_rnd(rnd);
        let mut w = World::new(&types);
        for (i, e) in evs.iter().enumerate() {
            if let Some(v) = step(&mut w, i, e) {
                return (Some(v), w.digest.0);
            }
        }
        (None, w.digest.0)
    })
}

pub fn shrink(types: &[u8], rnd: u64, evs: &[LEv], v: &LViol, budget: Duration) -> (Vec<LEv>, LViol, u32) {
    let end = Instant::now() + budget;
    let mut best = evs[..=v.at.min(evs.len() - 1)].to_vec();
    let mut viol = v.clone();
    let mut tries = 0;
    let mut attempt = |c: Vec<LEv>, best: &mut Vec<LEv>, viol: &mut LViol| -> bool {
        if c.is_empty() || Instant::now() > end {
            return false;
        }
        tries += 1;
        match run(types, rnd, &c).0 {
            Some(x) if x.kind == viol.kind && x.prop == viol.prop && x.call == viol.call => {
                *best = c[..=x.at].to_vec();
                *viol = x;
                true
            }
            _ => false,
        }
    };
    loop {
        let before = best.clone();
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let mut c = best[..i].to_vec();
                c.extend_from_slice(&best[(i + size).min(best.len())..]);
                if !attempt(c, &mut best, &mut viol) {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size = (size / 2).max(1);
        }
        for i in 0..best.len() {
            if i >= best.len() {
                break;
            }
            // less damage, shorter chains
            let parts = match &best[i] {
                LEv::Send { dmg, .. } | LEv::PkSend { dmg, .. } | LEv::SigSend { dmg, .. } | LEv::Crash { dmg, .. } => dmg.len(),
                LEv::Craft { links, .. } | LEv::Graph { e: GEv::Cert { links }, .. } => links.len(),
                LEv::Graph { e: GEv::Factor { certs }, .. } => certs.len(),
                _ => 0,
            };
            for k in (0..parts).rev() {
                let mut c = best.clone();
                if i >= c.len() {
                    break;
                }
                match &mut c[i] {
                    LEv::Send { dmg, .. } | LEv::PkSend { dmg, .. } | LEv::SigSend { dmg, .. } | LEv::Crash { dmg, .. } if k < dmg.len() => {
                        dmg.remove(k);
                    }
                    LEv::Craft { links, .. } | LEv::Graph { e: GEv::Cert { links }, .. } if k < links.len() => {
                        links.remove(k);
                    }
                    LEv::Graph { e: GEv::Factor { certs }, .. } if k < certs.len() => {
                        certs.remove(k);
                    }
                    _ => continue,
                }
                attempt(c, &mut best, &mut viol);
            }
        }
        if best == before || Instant::now() > end {
            break;
        }
    }
    (best, viol, tries)
}
