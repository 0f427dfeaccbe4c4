//! Executable reference model of one node, as a set of possible worlds.
//! A world is what the node may have recorded; faults, crashes and the few deliberately unspecified
//! corners split worlds, answers narrow them down. No world left = violation.
use crate::keys::{revocation_digest, trust_digest, Pk};
use crate::node::Resp;
use crate::trace::{Call, Cp};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub const MAX_LEN: u32 = 16;
pub type K = u16;

/// known findings of the original tree that a world may have needed (bits)
pub const F_RESURRECT: u8 = 1;
pub const F_CALLER_CLOCK: u8 = 2;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Rel {
    pub rev: bool,
    pub at: u64,
    pub exp: u64,
    pub sig: Rc<str>,
    pub label: Rc<str>,
    /// 0: recorded; 1: may have been discarded as expired; 2: same, but only by a clock the caller chose
    pub gone: u8,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct World {
    pub roots: BTreeMap<K, u32>,
    /// (issued_for, issued_by)
    pub rel: BTreeMap<(K, K), Rel>,
    pub found: u8,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Link {
    pub peer: String,
    pub exp: u64,
    pub iat: u64,
    pub sig: String,
    pub label: String,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Why {
    NotOwner,
    Malformed,
    Provenance,
    Future,
    Expired,
    Signature,
    /// not even of the form the issuer's kind of key produces
    SignatureForm,
    EmptyCert,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Want {
    Refuse(Why),
    Done,
    Weight(u32, String),
    Certs(BTreeSet<Vec<Link>>),
    AddWeight(u32),
    Revs(BTreeSet<Link>, String),
    Bytes(Vec<u8>),
    TrustDto(Link),
    RevDto(Link, String),
    /// success, content not judged
    AnyOk,
}

pub struct Alt {
    pub after: World,
    /// states that may remain if the call is cut short (besides the one before it)
    pub partial: Vec<World>,
    pub want: Want,
}

#[derive(Default, Clone)]
pub struct Keyring {
    pub keys: Vec<Pk>,
    pub peers: Vec<String>,
    by_peer: HashMap<String, Option<K>>,
    sigs: HashMap<(K, Vec<u8>, Vec<u8>), bool>,
}
impl Keyring {
    pub fn peer(&mut self, s: &str) -> Option<K> {
        if let Some(k) = self.by_peer.get(s) {
            return *k;
        }
        let r = Pk::from_peer_id(s).map(|pk| self.add(pk));
        self.by_peer.insert(s.to_string(), r);
        r
    }
    fn add(&mut self, pk: Pk) -> K {
        if let Some(i) = self.keys.iter().position(|x| *x == pk) {
            return i as K;
        }
        self.peers.push(pk.peer_id());
        self.keys.push(pk);
        (self.keys.len() - 1) as K
    }
    fn encoded(&mut self, b: &[u8]) -> Option<K> {
        Pk::decode(b).map(|pk| self.add(pk))
    }
    fn verify(&mut self, k: K, msg: Vec<u8>, sig: Vec<u8>) -> bool {
        let pk = &self.keys[k as usize];
        *self.sigs.entry((k, msg, sig)).or_insert_with_key(|(_, m, s)| pk.verify(m, s))
    }
    /// a signature that does not verify: of the right form for the key's kind, or not even that
    fn why_not(&self, k: K, sig: &[u8]) -> Why {
        let formed = match self.keys[k as usize].alg {
            crate::keys::Alg::Ed => sig.len() == 64,
            crate::keys::Alg::Secp => sig.len() >= 8 && sig[0] == 0x30 && sig[1] as usize + 2 == sig.len(),
        };
        if formed { Why::Signature } else { Why::SignatureForm }
    }
    pub fn name(&self, k: K) -> &str {
        &self.peers[k as usize]
    }
}

pub struct Overflow;

#[derive(Clone)]
struct Tr {
    who: K,
    exp: u64,
    iat: u64,
    sig: Vec<u8>,
    sig58: Rc<str>,
    label: Rc<str>,
    /// signature kind exists natively but not in the deployed service: either outcome is fine
    odd: bool,
}

fn s(v: &Value, f: &str) -> String {
    v.get(f).and_then(|x| x.as_str()).unwrap_or("").to_string()
}
fn n(v: &Value, f: &str) -> u64 {
    v.get(f).and_then(|x| x.as_u64()).unwrap_or(0)
}
fn arg_s(c: &Call, i: usize) -> &str {
    c.args.get(i).and_then(|x| x.as_str()).unwrap_or("")
}
fn arg_n(c: &Call, i: usize) -> u64 {
    c.args.get(i).and_then(|x| x.as_u64()).unwrap_or(0)
}

pub fn host_clock(cp: &Cp, i: usize) -> bool {
    cp.tetraplets
        .get(i)
        .and_then(|t| t.first())
        .map(|t| t.service_id == "peer" && t.function_name == "timestamp_sec" && t.peer_pk == cp.host_id)
        .unwrap_or(false)
}

/// position of the timestamp argument, for the calls that carry one
pub fn ts_arg(f: &str) -> Option<usize> {
    Some(match f {
        "get_host_certs" => 0,
        "get_all_certs" | "get_host_certs_from" | "get_weight" | "revoke" | "insert_cert" | "insert_cert_raw" => 1,
        "get_all_certs_from" | "get_weight_from" | "verify_trust" | "add_trust" => 2,
        _ => return None,
    })
}
pub fn is_query(f: &str) -> bool {
    f.starts_with("get_") && f != "get_trust_bytes" && f != "get_revocation_bytes" || f == "export_revocations"
}
pub fn is_mutation(f: &str) -> bool {
    matches!(f, "set_root" | "add_trust" | "revoke" | "insert_cert" | "insert_cert_raw")
}

fn parse_trust(kr: &mut Keyring, v: &Value) -> Option<Tr> {
    let who = kr.peer(&s(v, "issued_for"))?;
    let sig58 = s(v, "signature");
    let sig = bs58::decode(&sig58).into_vec().ok()?;
    let label = s(v, "sig_type");
    let odd = label == "rsa";
    if !odd && label != "ed25519" && label != "secp256k1" {
        return None;
    }
    Some(Tr { who, exp: n(v, "expires_at"), iat: n(v, "issued_at"), sig, sig58: sig58.into(), label: label.into(), odd })
}

/// text form: two header lines, then four lines per trust
fn parse_text(kr: &mut Keyring, t: &str) -> Option<Vec<Tr>> {
    let l: Vec<&str> = t.lines().collect();
    if l.len() < 2 || (l.len() - 2) % 4 != 0 {
        return None;
    }
    let mut out = vec![];
    for c in l[2..].chunks(4) {
        let who = kr.encoded(&bs58::decode(c[0]).into_vec().ok()?)?;
        let sb = bs58::decode(c[1]).into_vec().ok()?;
        let (label, odd) = match sb.first()? {
            0 => ("ed25519", false),
            1 => ("rsa", true),
            2 => ("secp256k1", false),
            _ => return None,
        };
        let sig = sb[1..].to_vec();
        let sig58: Rc<str> = bs58::encode(&sig).into_string().into();
        out.push(Tr { who, exp: c[2].parse().ok()?, iat: c[3].parse().ok()?, sig, sig58, label: label.into(), odd });
    }
    Some(out)
}

/// structured form of a certificate given as text
pub fn chain_of_text(kr: &mut Keyring, t: &str) -> Vec<Value> {
    let chain = parse_text(kr, t).unwrap_or_default();
    chain
        .into_iter()
        .map(|t| {
            serde_json::json!({"issued_for": kr.name(t.who), "expires_at": t.exp, "issued_at": t.iat,
                "signature": &*t.sig58, "sig_type": &*t.label})
        })
        .collect()
}

impl World {
    /// Split on trusts that may or may not have been discarded while the clock was ahead.
    fn resolve(&self, ts: u64) -> Result<Vec<World>, Overflow> {
        let open: Vec<(K, K)> =
            self.rel.iter().filter(|(_, r)| r.gone != 0 && !r.rev && r.exp > ts).map(|(k, _)| *k).collect();
        if open.is_empty() {
            return Ok(vec![self.clone()]);
        }
        if open.len() > 6 {
            return Err(Overflow);
        }
        let mut out = vec![];
        for m in 0..(1u32 << open.len()) {
            let mut w = self.clone();
            for (i, k) in open.iter().enumerate() {
                if m & (1 << i) != 0 {
                    w.rel.get_mut(k).unwrap().gone = 0;
                } else {
                    let r = w.rel.remove(k).unwrap();
                    if r.gone == 2 {
                        w.found |= F_CALLER_CLOCK;
                    }
                }
            }
            out.push(w);
        }
        Ok(out)
    }

    fn discard(&mut self, ts: u64, own_clock: bool) {
        for r in self.rel.values_mut() {
            if !r.rev && r.exp <= ts {
                if own_clock {
                    r.gone = 1;
                } else if r.gone == 0 {
                    r.gone = 2;
                }
            }
        }
    }

    /// All valid chains for `t`, root first; needs `resolve`d world.
    pub fn chains(&self, t: K, ts: u64) -> Result<Vec<Vec<(K, &Rel)>>, Overflow> {
        // edges: issued_for -> [(issued_by, rel)]
        let mut by: BTreeMap<K, Vec<(K, &Rel)>> = BTreeMap::new();
        let mut revs: BTreeSet<(K, K)> = BTreeSet::new(); // (revoked, revoker)
        for ((f, b), r) in &self.rel {
            if r.rev {
                revs.insert((*f, *b));
            } else if r.exp > ts {
                by.entry(*f).or_default().push((*b, r));
            }
        }
        let mut out = vec![];
        let mut steps = 0u32;
        let mut path: Vec<(K, K, &Rel)> = vec![]; // (issued_for, issued_by, rel)
        fn go<'a>(
            w: &World,
            by: &BTreeMap<K, Vec<(K, &'a Rel)>>,
            revs: &BTreeSet<(K, K)>,
            at: K,
            path: &mut Vec<(K, K, &'a Rel)>,
            out: &mut Vec<Vec<(K, &'a Rel)>>,
            steps: &mut u32,
        ) -> Result<(), Overflow> {
            *steps += 1;
            if *steps > 20_000 {
                return Err(Overflow);
            }
            for (b, r) in by.get(&at).into_iter().flatten() {
                // each link's subject is above-or-equal everything already in the path
                let first = path.is_empty();
                if !first && path.iter().any(|(f, _, _)| f == b) {
                    continue;
                }
                // the new member must not have revoked anyone below it
                let below = path.iter().map(|x| x.0).chain([at]);
                if below.clone().any(|x| revs.contains(&(x, *b))) {
                    continue;
                }
                path.push((at, *b, r));
                if at == *b && path.len() > 1 {
                    if let Some(l) = w.roots.get(b) {
                        if path.len() as u32 - 1 <= *l {
                            out.push(path.iter().rev().map(|(f, _, r)| (*f, *r)).collect());
                        }
                    }
                }
                go(w, by, revs, *b, path, out, steps)?;
                path.pop();
            }
            Ok(())
        }
        go(self, &by, &revs, t, &mut path, &mut out, &mut steps)?;
        Ok(out)
    }

    fn chain_weight(&self, c: &[(K, &Rel)]) -> u32 {
        let l = self.roots[&c[0].0];
        1 << (l - (c.len() as u32 - 1))
    }

    pub fn weight(&self, t: K, ts: u64) -> Result<u32, Overflow> {
        let mut m = self.roots.get(&t).map(|l| 1u32 << l).unwrap_or(0);
        for c in self.chains(t, ts)? {
            m = m.max(self.chain_weight(&c));
        }
        Ok(m)
    }

    fn certs(&self, kr: &Keyring, t: K, ts: u64, from: Option<K>) -> Result<(BTreeSet<Vec<Link>>, u32), Overflow> {
        let mut out = BTreeSet::new();
        let mut m = 0;
        for c in self.chains(t, ts)? {
            if let Some(i) = from {
                if !c.iter().any(|(k, _)| *k == i) {
                    continue;
                }
            }
            m = m.max(self.chain_weight(&c));
            out.insert(
                c.iter()
                    .map(|(k, r)| Link {
                        peer: kr.name(*k).to_string(),
                        exp: r.exp,
                        iat: r.at,
                        sig: r.sig.to_string(),
                        label: r.label.to_string(),
                    })
                    .collect(),
            );
        }
        Ok((out, m))
    }

    /// the newest statement of a pair wins; ties go to the first
    fn update(&self, pair: (K, K), new: Rel) -> Vec<World> {
        let mut with = self.clone();
        with.rel.insert(pair, new.clone());
        match self.rel.get(&pair) {
            None => vec![with],
            Some(e) if e.at < new.at => vec![with],
            Some(e) if e.gone != 0 && !e.rev => {
                if !(e.at == new.at && e.exp == new.exp && e.rev == new.rev && e.sig == new.sig) {
                    with.found |= F_RESURRECT;
                }
                if e.gone == 2 {
                    with.found |= F_CALLER_CLOCK;
                }
                vec![self.clone(), with]
            }
            Some(_) => vec![self.clone()],
        }
    }

    /// One genuine-looking trust handed to the graph. Returns (world, answered weight) or a refusal.
    fn add(&self, kr: &mut Keyring, t: &Tr, by: K, ts: u64, own_clock: bool) -> Result<Vec<(World, Result<u32, Why>)>, Overflow> {
        let mut out = vec![];
        let d = trust_digest(&kr.keys[t.who as usize].clone(), t.exp, t.iat);
        if t.exp < ts {
            return Ok(vec![(self.clone(), Err(Why::Expired))]);
        }
        if !kr.verify(by, d, t.sig.clone()) {
            let why = kr.why_not(by, &t.sig);
            return Ok(vec![(self.clone(), Err(why))]);
        }
        if t.exp == ts {
            out.push((self.clone(), Err(Why::Expired)));
        }
        if t.odd || *t.label != *kr.keys[by as usize].alg.label() {
            out.push((self.clone(), Err(Why::Malformed)));
        }
        for mut w in self.resolve(ts)? {
            let wb = w.weight(by, ts)?;
            let nw = if by == t.who { wb } else { wb / 2 };
            w.discard(ts, own_clock);
            if nw == 0 {
                out.push((w, Ok(0)));
                continue;
            }
            let rel = Rel {
                rev: false,
                at: t.iat,
                exp: t.exp,
                sig: t.sig58.clone(),
                label: t.label.clone(),
                gone: if t.exp <= ts { 1 } else { 0 },
            };
            for w2 in w.update((t.who, by), rel) {
                out.push((w2, Ok(nw)));
            }
        }
        Ok(out)
    }

    fn insert(&self, kr: &mut Keyring, chain: &[Tr], ts: u64, own_clock: bool) -> Result<Vec<Alt>, Overflow> {
        let Some(first) = chain.first() else { return Ok(vec![self.refuse(Why::EmptyCert)]) };
        let mut cur: Vec<(World, Vec<World>)> = vec![(self.clone(), vec![])];
        let mut out = vec![];
        let mut by = first.who;
        for t in chain {
            let mut next = vec![];
            for (w, hist) in cur {
                for (w2, r) in w.add(kr, t, by, ts, own_clock)? {
                    let mut h2 = hist.clone();
                    match r {
                        Ok(_) => {
                            h2.push(w2.clone());
                            next.push((w2, h2));
                        }
                        Err(why) => out.push(Alt { after: w2, partial: h2, want: Want::Refuse(why) }),
                    }
                }
            }
            if next.len() > 64 {
                return Err(Overflow);
            }
            cur = next;
            by = t.who;
        }
        for (w, h) in cur {
            out.push(Alt { after: w, partial: h, want: Want::Done });
        }
        Ok(out)
    }

    /// not carried out, though expired trusts may have been discarded on the way
    fn interrupted(&self, c: &Call, alts: &[Alt]) -> World {
        let mut w = self.clone();
        if let Some(i) = ts_arg(&c.f) {
            if c.f != "revoke" && alts.iter().any(|a| !matches!(a.want, Want::Refuse(_)) || !a.partial.is_empty()) {
                w.discard(arg_n(c, i), host_clock(&c.cp, i));
            }
        }
        w
    }

    fn refuse(&self, why: Why) -> Alt {
        Alt { after: self.clone(), partial: vec![], want: Want::Refuse(why) }
    }
    fn keep(&self, want: Want) -> Alt {
        Alt { after: self.clone(), partial: vec![], want }
    }

    /// Everything the node may answer to `c` and the states it may be in afterwards.
    pub fn apply(&self, kr: &mut Keyring, c: &Call) -> Result<Vec<Alt>, Overflow> {
        let cp = &c.cp;
        let bad = |w| Ok(vec![self.refuse(w)]);
        macro_rules! key {
            ($s:expr) => {
                match kr.peer($s) {
                    Some(k) => k,
                    None => return bad(Why::Malformed),
                }
            };
        }
        macro_rules! clock {
            ($i:expr) => {
                if !host_clock(cp, $i) {
                    return bad(Why::Provenance);
                }
            };
        }
        match c.f.as_str() {
            "set_root" => {
                if cp.init_peer_id != cp.service_creator_peer_id {
                    return bad(Why::NotOwner);
                }
                let k = key!(arg_s(c, 0));
                let mut w = self.clone();
                w.roots.insert(k, (arg_n(c, 1).min(MAX_LEN as u64)) as u32);
                Ok(vec![Alt { after: w, partial: vec![], want: Want::Done }])
            }
            "add_trust" => {
                clock!(2);
                let by = key!(arg_s(c, 1));
                let ts = arg_n(c, 2);
                let Some(t) = parse_trust(kr, &c.args[0]) else { return bad(Why::Malformed) };
                if t.iat > ts {
                    return bad(Why::Future);
                }
                Ok(self
                    .add(kr, &t, by, ts, true)?
                    .into_iter()
                    .map(|(w, r)| Alt {
                        after: w,
                        partial: vec![],
                        want: match r {
                            Ok(x) => Want::AddWeight(x),
                            Err(y) => Want::Refuse(y),
                        },
                    })
                    .collect())
            }
            "verify_trust" => {
                clock!(2);
                let by = key!(arg_s(c, 1));
                let ts = arg_n(c, 2);
                let Some(t) = parse_trust(kr, &c.args[0]) else { return bad(Why::Malformed) };
                if t.exp < ts {
                    return bad(Why::Expired);
                }
                let d = trust_digest(&kr.keys[t.who as usize].clone(), t.exp, t.iat);
                if !kr.verify(by, d, t.sig.clone()) {
                    return bad(kr.why_not(by, &t.sig));
                }
                let mut v = vec![self.keep(Want::Done)];
                if t.exp == ts {
                    v.push(self.refuse(Why::Expired));
                }
                if t.odd || *t.label != *kr.keys[by as usize].alg.label() {
                    v.push(self.refuse(Why::Malformed));
                }
                Ok(v)
            }
            "insert_cert" => {
                let mut chain = vec![];
                for t in c.args[0].get("chain").and_then(|x| x.as_array()).into_iter().flatten() {
                    match parse_trust(kr, t) {
                        Some(t) => chain.push(t),
                        None => return bad(Why::Malformed),
                    }
                }
                self.insert(kr, &chain, arg_n(c, 1), host_clock(cp, 1))
            }
            "insert_cert_raw" => {
                let Some(chain) = parse_text(kr, arg_s(c, 0)) else { return bad(Why::Malformed) };
                self.insert(kr, &chain, arg_n(c, 1), host_clock(cp, 1))
            }
            "revoke" => {
                clock!(1);
                let v = &c.args[0];
                let ts = arg_n(c, 1);
                let who = key!(&s(v, "revoked_peer_id"));
                let by = key!(&s(v, "revoked_by"));
                let at = n(v, "revoked_at");
                let sig58 = s(v, "signature");
                let Ok(sig) = bs58::decode(&sig58).into_vec() else { return bad(Why::Malformed) };
                let label = s(v, "sig_type");
                let odd = label == "rsa";
                if !odd && label != "ed25519" && label != "secp256k1" {
                    return bad(Why::Malformed);
                }
                if at > ts {
                    return bad(Why::Future);
                }
                let d = revocation_digest(&kr.keys[who as usize].clone(), at);
                if !kr.verify(by, d, sig.clone()) {
                    return bad(kr.why_not(by, &sig));
                }
                let rel = Rel { rev: true, at, exp: 0, sig: sig58.into(), label: label.as_str().into(), gone: 0 };
                let mut out: Vec<Alt> = self
                    .update((who, by), rel)
                    .into_iter()
                    .map(|w| Alt { after: w, partial: vec![], want: Want::Done })
                    .collect();
                if odd || label != kr.keys[by as usize].alg.label() {
                    out.push(self.refuse(Why::Malformed));
                }
                Ok(out)
            }
            "get_weight" | "get_all_certs" | "get_host_certs" | "get_weight_from" | "get_all_certs_from" | "get_host_certs_from" => {
                let i = ts_arg(&c.f).unwrap();
                clock!(i);
                let ts = arg_n(c, i);
                let host = c.f.contains("host");
                let peer = if host { cp.host_id.as_str() } else { arg_s(c, 0) };
                let t = key!(peer);
                let from = if c.f.ends_with("_from") { Some(key!(arg_s(c, if host { 0 } else { 1 }))) } else { None };
                let mut out = vec![];
                for mut w in self.resolve(ts)? {
                    let want = if from == Some(t) {
                        Want::AnyOk
                    } else if c.f.starts_with("get_weight") {
                        let x = match from {
                            None => w.weight(t, ts)?,
                            Some(_) => w.certs(kr, t, ts, from)?.1,
                        };
                        Want::Weight(x, peer.to_string())
                    } else {
                        Want::Certs(w.certs(kr, t, ts, from)?.0)
                    };
                    w.discard(ts, true);
                    out.push(Alt { after: w, partial: vec![], want });
                }
                Ok(out)
            }
            "export_revocations" => {
                let t = key!(arg_s(c, 0));
                let set = self
                    .rel
                    .iter()
                    .filter(|((f, _), r)| *f == t && r.rev)
                    .map(|((_, b), r)| Link {
                        peer: kr.name(*b).to_string(),
                        exp: 0,
                        iat: r.at,
                        sig: r.sig.to_string(),
                        label: r.label.to_string(),
                    })
                    .collect();
                Ok(vec![self.keep(Want::Revs(set, arg_s(c, 0).to_string()))])
            }
            "get_trust_bytes" => {
                let t = key!(arg_s(c, 0));
                let d = trust_digest(&kr.keys[t as usize], arg_n(c, 1), arg_n(c, 2));
                Ok(vec![self.keep(Want::Bytes(d))])
            }
            "get_revocation_bytes" => {
                let t = key!(arg_s(c, 0));
                let d = revocation_digest(&kr.keys[t as usize], arg_n(c, 1));
                Ok(vec![self.keep(Want::Bytes(d))])
            }
            "issue_trust" => {
                key!(arg_s(c, 0));
                let mut v = vec![self.keep(Want::TrustDto(Link {
                    peer: arg_s(c, 0).to_string(),
                    exp: arg_n(c, 1),
                    iat: arg_n(c, 2),
                    sig: bs58::encode(bytes(&c.args[3])).into_string(),
                    label: String::new(),
                }))];
                if !signature_like(&bytes(&c.args[3])) {
                    v.push(self.refuse(Why::Malformed));
                }
                Ok(v)
            }
            "issue_revocation" => {
                let by = key!(arg_s(c, 0));
                key!(arg_s(c, 1));
                let mut v = vec![self.keep(Want::RevDto(
                    Link {
                        peer: arg_s(c, 0).to_string(),
                        exp: 0,
                        iat: arg_n(c, 2),
                        sig: bs58::encode(bytes(&c.args[3])).into_string(),
                        label: kr.keys[by as usize].alg.label().to_string(),
                    },
                    arg_s(c, 1).to_string(),
                ))];
                if !signature_like(&bytes(&c.args[3])) {
                    v.push(self.refuse(Why::Malformed));
                }
                Ok(v)
            }
            _ => Ok(vec![self.keep(Want::AnyOk)]),
        }
    }
}

/// could some peer have produced these bytes as a signature?
fn signature_like(b: &[u8]) -> bool {
    b.len() == 64 || libsecp256k1::Signature::parse_der(b).is_ok()
}

pub fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect()).unwrap_or_default()
}

pub fn success(r: &Resp) -> Option<bool> {
    match r {
        Resp::Ok(v) => v.get("success").and_then(|x| x.as_bool()),
        _ => None,
    }
}

/// a failure, reported with a reason and without anything that could be taken for an answer
fn reported(r: &Resp) -> bool {
    let Resp::Ok(v) = r else { return false };
    let empty = |f: &str| v.get(f).map_or(true, |x| x.as_array().map_or(true, |a| a.is_empty()));
    success(r) == Some(false) && !s(v, "error").is_empty() && n(v, "weight") == 0 && ["certificates", "revocations", "result"].into_iter().all(empty)
}

fn link_of(v: &Value) -> Link {
    Link { peer: s(v, "issued_for"), exp: n(v, "expires_at"), iat: n(v, "issued_at"), sig: s(v, "signature"), label: s(v, "sig_type") }
}
fn rev_of(v: &Value) -> (Link, String) {
    (
        Link { peer: s(v, "revoked_by"), exp: 0, iat: n(v, "revoked_at"), sig: s(v, "signature"), label: s(v, "sig_type") },
        s(v, "revoked_peer_id"),
    )
}
pub fn certs_of(v: &Value) -> Vec<Vec<Link>> {
    v.get("certificates")
        .and_then(|x| x.as_array())
        .map(|a| {
            a.iter()
                .map(|c| c.get("chain").and_then(|x| x.as_array()).map(|l| l.iter().map(link_of).collect()).unwrap_or_default())
                .collect()
        })
        .unwrap_or_default()
}
pub fn revs_of(v: &Value) -> Vec<(Link, String)> {
    v.get("revocations").and_then(|x| x.as_array()).map(|a| a.iter().map(rev_of).collect()).unwrap_or_default()
}

/// Does the answer agree with what is wanted?
pub fn agrees(r: &Resp, want: &Want) -> bool {
    let Resp::Ok(v) = r else { return false };
    let ok = success(r);
    match want {
        Want::Refuse(_) => reported(r),
        _ if ok != Some(true) || !s(v, "error").is_empty() => false,
        Want::Done | Want::AnyOk => true,
        Want::Weight(w, p) => n(v, "weight") == *w as u64 && s(v, "peer_id") == *p,
        Want::AddWeight(w) => n(v, "weight") == *w as u64,
        Want::Certs(set) => {
            let got = certs_of(v);
            got.len() == set.len() && got.iter().collect::<BTreeSet<_>>().len() == got.len() && got.iter().all(|c| set.contains(c))
        }
        Want::Revs(set, who) => {
            let got = revs_of(v);
            got.len() == set.len()
                && got.iter().map(|x| &x.0).collect::<BTreeSet<_>>().len() == got.len()
                && got.iter().all(|(l, p)| p == who && set.contains(l))
        }
        Want::Bytes(b) => bytes(v.get("result").unwrap_or(&Value::Null)) == *b,
        Want::TrustDto(l) => {
            let g = link_of(v.get("trust").unwrap_or(&Value::Null));
            g.peer == l.peer && g.exp == l.exp && g.iat == l.iat && g.sig == l.sig && known_label(&g.label)
        }
        Want::RevDto(l, p) => {
            let (g, gp) = rev_of(v.get("revocation").unwrap_or(&Value::Null));
            g.peer == l.peer && g.iat == l.iat && g.sig == l.sig && gp == *p && g.label == l.label
        }
    }
}
fn known_label(l: &str) -> bool {
    l == "ed25519" || l == "secp256k1"
}

/// One node's possible worlds.
pub struct Judge {
    pub worlds: Vec<World>,
    pub blind: bool,
}

#[derive(Clone, Debug)]
pub struct Mismatch {
    pub want: Want,
}

impl Default for Judge {
    fn default() -> Self {
        Judge { worlds: vec![World::default()], blind: false }
    }
}

impl Judge {
    fn set(&mut self, mut ws: Vec<World>) {
        ws.sort();
        ws.dedup();
        // a world that needed no known finding explains at least as much as one that did
        let clean: BTreeSet<World> = ws.iter().filter(|w| w.found == 0).cloned().collect();
        if !clean.is_empty() {
            ws.retain(|w| {
                w.found == 0 || {
                    let mut c = w.clone();
                    c.found = 0;
                    !clean.contains(&c)
                }
            });
        }
        if ws.len() > 256 {
            self.blind = true;
            ws.truncate(1);
        }
        self.worlds = ws;
    }

    /// call completed, `faulty` = an injected storage error fired in it
    pub fn completed(&mut self, kr: &mut Keyring, c: &Call, r: &Resp, faulty: bool) -> Result<(), Mismatch> {
        if self.blind {
            return Ok(());
        }
        let mut next = vec![];
        let mut first_want = None;
        for w in self.worlds.clone() {
            let alts = match w.apply(kr, c) {
                Ok(a) => a,
                Err(Overflow) => {
                    self.blind = true;
                    return Ok(());
                }
            };
            let before = w.interrupted(c, &alts);
            for a in alts {
                if faulty && reported(r) {
                    next.push(before.clone());
                    next.extend(a.partial);
                    next.push(a.after);
                } else if agrees(r, &a.want) {
                    next.push(a.after);
                }
                first_want.get_or_insert(a.want);
            }
        }
        if next.is_empty() {
            return Err(Mismatch { want: first_want.unwrap_or(Want::AnyOk) });
        }
        self.set(next);
        Ok(())
    }

    /// what the first possible world expects of the call
    pub fn expects(&self, kr: &mut Keyring, c: &Call) -> Option<Want> {
        let w = self.worlds.first()?.clone();
        w.apply(kr, c).ok()?.into_iter().next().map(|a| a.want)
    }

    /// the process died inside the call
    pub fn cut(&mut self, kr: &mut Keyring, c: &Call) {
        let mut next = vec![];
        for w in self.worlds.clone() {
            match w.apply(kr, c) {
                Ok(alts) => {
                    next.push(w.interrupted(c, &alts));
                    for a in alts {
                        next.extend(a.partial);
                        next.push(a.after);
                    }
                }
                Err(Overflow) => self.blind = true,
            }
        }
        if !self.blind {
            self.set(next);
        }
    }

    pub fn findings(&self) -> u8 {
        self.worlds.iter().map(|w| w.found).fold(0xff, |a, b| a & b)
    }
}
