//! Applications that keep a `TrustGraph` over a storage of their own (C21). The storage is simulated: it keeps the
//! contract of the `Storage` trait, hands rows out in whatever order the seed says, fails at a chosen operation
//! before or after taking effect, once or for good, and is written out and read back at a restart. The graph above
//! it is the real one. What it answers is judged against what the storage really holds.
use super::*;
use std::cell::RefCell;
use std::rc::Rc;
use trust_graph::{Auth, Storage, StorageError, TrustGraph, TrustRelation, WeightFactor};

#[derive(Debug)]
pub struct Broken(&'static str);
impl std::fmt::Display for Broken {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "storage failure in {}", self.0)
    }
}
impl std::error::Error for Broken {}
impl StorageError for Broken {}

#[derive(Clone, Copy)]
struct Plan {
    on: u8,
    left: u32,
    late: bool,
    lasting: bool,
}

struct Store {
    rows: Vec<TrustRelation>,
    roots: Vec<(PublicKeyHashable, u32)>,
    order: Rng,
    plan: Option<Plan>,
    fired: Vec<&'static str>,
    ops: u64,
}
impl Store {
    /// Some(late) if this operation fails
    fn fails(&mut self, op: &'static str) -> Option<bool> {
        self.ops += 1;
        let p = self.plan.as_mut()?;
        let kind = ["", "get_authorizations", "get_revocations", "get_root_weight_factor", "root_keys", "remove_expired", "update_auth", "get_relation"];
        if p.on != 0 && kind[p.on as usize % kind.len()] != op {
            return None;
        }
        if p.left > 0 {
            p.left -= 1;
            return None;
        }
        let late = p.late;
        if !p.lasting {
            self.plan = None;
        }
        self.fired.push(op);
        Some(late)
    }
    fn put(&mut self, r: TrustRelation) {
        let k = |r: &TrustRelation| (r.issued_for().encode(), r.issued_by().encode());
        let key = k(&r);
        match self.rows.iter_mut().find(|x| k(x) == key) {
            Some(x) => *x = r,
            None => self.rows.push(r),
        }
    }
    /// the newest statement of a pair wins
    fn update(&mut self, r: TrustRelation) {
        let newer = self
            .rows
            .iter()
            .find(|x| x.issued_for().encode() == r.issued_for().encode() && x.issued_by().encode() == r.issued_by().encode())
            .map_or(true, |x| x.issued_at() < r.issued_at());
        if newer {
            self.put(r);
        }
    }
}

#[derive(Clone)]
struct Shared(Rc<RefCell<Store>>);
impl Shared {
    fn read<T>(&self, op: &'static str, f: impl FnOnce(&mut Store) -> T) -> Result<T, Broken> {
        let mut s = self.0.borrow_mut();
        match s.fails(op) {
            Some(_) => Err(Broken(op)),
            None => Ok(f(&mut s)),
        }
    }
    fn write(&self, op: &'static str, f: impl FnOnce(&mut Store)) -> Result<(), Broken> {
        let mut s = self.0.borrow_mut();
        let failed = s.fails(op);
        if failed != Some(false) {
            f(&mut s);
        }
        failed.map_or(Ok(()), |_| Err(Broken(op)))
    }
}
fn same(a: &PublicKeyHashable, b: &PublicKey) -> bool {
    let k: &PublicKey = a.as_ref();
    k.encode() == b.encode()
}
impl Storage for Shared {
    type Error = Broken;
    fn get_relation(&self, issued_for: &PublicKeyHashable, issued_by: &PublicKeyHashable) -> Result<Option<TrustRelation>, Broken> {
        self.read("get_relation", |s| s.rows.iter().find(|r| same(issued_for, r.issued_for()) && same(issued_by, r.issued_by())).cloned())
    }
    fn get_authorizations(&self, issued_for: &PublicKeyHashable) -> Result<Vec<Auth>, Broken> {
        self.read("get_authorizations", |s| {
            let mut v: Vec<Auth> = s
                .rows
                .iter()
                .filter_map(|r| match r {
                    TrustRelation::Auth(a) if same(issued_for, &a.trust.issued_for) => Some(a.clone()),
                    _ => None,
                })
                .collect();
            s.order.shuffle(&mut v);
            v
        })
    }
    fn get_revocations(&self, issued_for: &PublicKeyHashable) -> Result<Vec<Revocation>, Broken> {
        self.read("get_revocations", |s| {
            let mut v: Vec<Revocation> = s
                .rows
                .iter()
                .filter_map(|r| match r {
                    TrustRelation::Revocation(a) if same(issued_for, &a.pk) => Some(a.clone()),
                    _ => None,
                })
                .collect();
            s.order.shuffle(&mut v);
            v
        })
    }
    fn insert(&mut self, node: TrustRelation) -> Result<(), Broken> {
        self.write("insert", |s| s.put(node))
    }
    fn get_root_weight_factor(&self, pk: &PublicKeyHashable) -> Result<Option<WeightFactor>, Broken> {
        self.read("get_root_weight_factor", |s| s.roots.iter().find(|(k, _)| same(k, pk.as_ref())).map(|x| x.1))
    }
    fn set_root_weight_factor(&mut self, pk: PublicKeyHashable, weight_factor: WeightFactor) -> Result<(), Broken> {
        self.write("set_root_weight_factor", |s| {
            s.roots.retain(|(k, _)| !same(k, pk.as_ref()));
            s.roots.push((pk, weight_factor));
        })
    }
    fn root_keys(&self) -> Result<Vec<PublicKeyHashable>, Broken> {
        self.read("root_keys", |s| {
            let mut v: Vec<PublicKeyHashable> = s.roots.iter().map(|x| x.0.clone()).collect();
            s.order.shuffle(&mut v);
            v
        })
    }
    fn revoke(&mut self, revocation: Revocation) -> Result<(), Broken> {
        self.write("revoke", |s| s.update(TrustRelation::Revocation(revocation)))
    }
    fn update_auth(&mut self, auth: Auth, _cur_time: Duration) -> Result<(), Broken> {
        self.write("update_auth", |s| s.update(TrustRelation::Auth(auth)))
    }
    fn remove_expired(&mut self, current_time: Duration) -> Result<(), Broken> {
        self.write("remove_expired", |s| s.rows.retain(|r| !matches!(r, TrustRelation::Auth(a) if a.trust.expires_at <= current_time)))
    }
}

pub struct G {
    store: Shared,
    graph: TrustGraph<Shared>,
}
impl G {
    pub fn new(seed: u64) -> G {
        let s = Shared(Rc::new(RefCell::new(Store { rows: vec![], roots: vec![], order: Rng::new(seed), plan: None, fired: vec![], ops: 0 })));
        G { graph: TrustGraph::new(s.clone()), store: s }
    }
}

// ---------------------------------------------------------------- what the storage holds, and what follows from it

/// a recorded statement: trust (expiry) or revocation (none), with its encoded signature
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Row {
    exp: Option<u64>,
    at: u64,
    sig: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Default)]
struct Book {
    /// (about, by)
    rows: BTreeMap<(LPk, LPk), Row>,
    /// how long chains may be
    roots: BTreeMap<LPk, u32>,
}
type Chain = Vec<(LPk, Row)>;

fn gone(r: &Row, now: Duration, edge: bool) -> bool {
    r.exp.map_or(false, |e| if edge { Duration::from_secs(e) < now } else { Duration::from_secs(e) <= now })
}

impl Book {
    fn of(s: &Store) -> Option<Book> {
        let mut b = Book::default();
        for r in &s.rows {
            let sub = [r.issued_at(), r.expires_at()].iter().any(|d| d.subsec_nanos() != 0);
            if sub {
                return None;
            }
            let row = Row { exp: matches!(r, TrustRelation::Auth(_)).then(|| r.expires_at().as_secs()), at: r.issued_at().as_secs(), sig: r.signature().encode() };
            b.rows.insert((LPk::dec(&r.issued_for().encode())?, LPk::dec(&r.issued_by().encode())?), row);
        }
        for (k, f) in &s.roots {
            let k: &PublicKey = k.as_ref();
            b.roots.insert(LPk::dec(&k.encode())?, 16u32.checked_sub(*f)?);
        }
        Some(b)
    }
    /// without what is expired: whether that is still there is left open
    fn live(&self, now: Duration) -> Book {
        Book { rows: self.rows.iter().filter(|(_, r)| !gone(r, now, false)).map(|(k, r)| (k.clone(), r.clone())).collect(), roots: self.roots.clone() }
    }
    /// every chain from a root to `to`, root first
    fn chains(&self, to: &LPk, now: Duration, edge: bool) -> Vec<Chain> {
        let mut keys: Vec<&LPk> = vec![];
        fn ix<'a>(keys: &mut Vec<&'a LPk>, k: &'a LPk) -> usize {
            keys.iter().position(|x| *x == k).unwrap_or_else(|| {
                keys.push(k);
                keys.len() - 1
            })
        }
        let mut by: BTreeMap<usize, Vec<(usize, &Row)>> = BTreeMap::new();
        let mut revs: std::collections::BTreeSet<(usize, usize)> = Default::default();
        for ((f, b), r) in &self.rows {
            let (f, b) = (ix(&mut keys, f), ix(&mut keys, b));
            if r.exp.is_none() {
                revs.insert((f, b));
            } else if !gone(r, now, edge) {
                by.entry(f).or_default().push((b, r));
            }
        }
        let Some(t) = keys.iter().position(|k| *k == to) else { return vec![] };
        let limit: Vec<Option<u32>> = keys.iter().map(|k| self.roots.get(*k).copied()).collect();
        let mut out: Vec<Vec<(usize, &Row)>> = vec![];
        fn go<'a>(at: usize, by: &BTreeMap<usize, Vec<(usize, &'a Row)>>, revs: &std::collections::BTreeSet<(usize, usize)>, limit: &[Option<u32>], path: &mut Vec<(usize, &'a Row)>, out: &mut Vec<Vec<(usize, &'a Row)>>) {
            for (b, r) in by.get(&at).into_iter().flatten() {
                // no one twice, except for a root's trust in itself at the end
                if !path.is_empty() && path.iter().any(|(f, _)| f == b) {
                    continue;
                }
                if path.iter().map(|x| x.0).chain([at]).any(|x| revs.contains(&(x, *b))) {
                    continue;
                }
                path.push((at, *r));
                if at == *b && path.len() > 1 && limit[*b].map_or(false, |l| path.len() as u32 - 1 <= l) {
                    out.push(path.iter().rev().cloned().collect());
                }
                go(*b, by, revs, limit, path, out);
                path.pop();
            }
        }
        go(t, &by, &revs, &limit, &mut vec![], &mut out);
        out.into_iter().map(|c| c.into_iter().map(|(k, r)| (keys[k].clone(), r.clone())).collect()).collect()
    }
    fn heaviest(&self, cs: &[Chain]) -> u32 {
        cs.iter().map(|c| 1 << (self.roots[&c[0].0] - (c.len() as u32 - 1))).max().unwrap_or(0)
    }
    fn weight(&self, to: &LPk, now: Duration, edge: bool) -> u32 {
        self.heaviest(&self.chains(to, now, edge)).max(self.roots.get(to).map_or(0, |l| 1 << l))
    }
    /// what may be left after recording a statement: the newest wins, and one that has expired may be out of the way
    fn record(&self, pair: &(LPk, LPk), new: Row, now: Duration) -> Vec<Book> {
        let mut with = self.clone();
        with.rows.insert(pair.clone(), new.clone());
        match self.rows.get(pair) {
            Some(e) if e.at >= new.at && gone(e, now, false) => vec![self.clone(), with],
            Some(e) if e.at >= new.at => vec![self.clone()],
            _ => vec![with],
        }
    }
    /// every acceptable outcome of handing one trust over: the answer, if not refused, and what is recorded
    fn add(&self, l: &MLink, by: &LPk, now: Duration) -> Vec<(Option<u32>, Book)> {
        let exp = Duration::from_secs(l.exp);
        let mut out = vec![];
        if exp <= now || !l.signed_by(by) || l.st != by.t {
            out.push((None, self.clone()));
        }
        if exp < now || !l.signed_by(by) {
            return out;
        }
        for edge in [false, true] {
            let w = self.weight(by, now, edge);
            let w = if *by == l.pk { w } else { w / 2 };
            if w == 0 {
                out.push((Some(0), self.clone()));
                continue;
            }
            let mut sig = vec![l.st];
            sig.extend(&l.sig);
            for b in self.record(&(l.pk.clone(), by.clone()), Row { exp: Some(l.exp), at: l.iat, sig }, now) {
                out.push((Some(w), b));
            }
        }
        out.sort();
        out.dedup();
        out
    }
}

fn chain_of(c: &Certificate) -> Option<Chain> {
    c.chain
        .iter()
        .map(|t| {
            (t.expires_at.subsec_nanos() == 0 && t.issued_at.subsec_nanos() == 0).then_some(())?;
            Some((LPk::dec(&t.issued_for.encode())?, Row { exp: Some(t.expires_at.as_secs()), at: t.issued_at.as_secs(), sig: t.signature.encode() }))
        })
        .collect()
}

const P: &str = "C21";

impl World {
    fn book(&self, at: usize) -> R<Book> {
        Book::of(&self.graphs[&at].store.0.borrow()).map_or_else(|| bad(P, "TrustGraph", "the storage was given a statement that no one made: a key or root that does not exist, or a time no one stated".into()), Ok)
    }
    fn tell(&self, b: &Book) -> String {
        let rows: Vec<String> = b
            .rows
            .iter()
            .map(|((f, by), r)| match r.exp {
                Some(e) => format!("{} trusts {} (issued {}, expires {e})", self.name(by), self.name(f), r.at),
                None => format!("{} revoked {} at {}", self.name(by), self.name(f), r.at),
            })
            .collect();
        format!("roots {:?}, {}", b.roots.iter().map(|(k, l)| format!("{}:{l}", self.name(k))).collect::<Vec<_>>(), if rows.is_empty() { "nothing recorded".into() } else { rows.join("; ") })
    }
    /// runs one call on a graph; says which storage operations failed under it
    fn call<T>(&mut self, at: usize, what: &str, f: impl FnOnce(&mut TrustGraph<Shared>) -> T) -> R<(T, bool)> {
        let g = self.graphs.get_mut(&at).unwrap();
        let before = g.store.0.borrow().ops;
        let r = guard(P, what, || f(&mut g.graph));
        let (fired, ops) = {
            let mut s = g.store.0.borrow_mut();
            // a lasting failure ends with the call, one that was not reached waits for nothing
            s.plan = None;
            (std::mem::take(&mut s.fired), s.ops - before)
        };
        self.stats.calls += 1;
        self.stats.disk_ops += ops;
        for op in &fired {
            *self.stats.faults.0.entry(format!("storage_error_in_{op}")).or_default() += 1;
        }
        let r = r?;
        let b = self.book(at)?;
        let mut d = Digest::default();
        d.bytes(format!("{b:?}").as_bytes());
        self.stats.states.insert(d.0);
        self.digest.num(d.0);
        self.digest.num(ops);
        Ok((r, !fired.is_empty()))
    }
    /// nothing but what has expired may differ
    fn unchanged(&mut self, at: usize, what: &str, before: &Book, now: Duration) -> R<()> {
        let after = self.book(at)?;
        if after.live(now) != before.live(now) {
            return bad(P, what, format!("{what} on peer{at}'s graph at {now:?} left [{}] where there was [{}]", self.tell(&after), self.tell(before)));
        }
        Ok(())
    }
    /// the outcome must be one of those expected, or, if the storage failed, an error with one of the states on the way
    fn settle(&mut self, at: usize, what: &str, before: &Book, now: Duration, got: Option<u32>, want: &[(Option<u32>, Book)], on_the_way: &[Book], failed: bool) -> R<()> {
        let after = self.book(at)?.live(now);
        let ok = want.iter().any(|(a, b)| *a == got && b.live(now) == after)
            || got.is_none() && failed && (after == before.live(now) || want.iter().any(|(a, b)| a.is_some() && b.live(now) == after) || on_the_way.iter().any(|b| b.live(now) == after))
            || got.is_none() && want.iter().any(|(a, _)| a.is_none()) && on_the_way.iter().any(|b| b.live(now) == after);
        self.digest.num(got.map_or(u64::MAX, |x| x as u64));
        self.note(&format!("{what}_{}", if got.is_some() { "accepted" } else { "refused" }).replace("TrustGraph::", "graph_"));
        if !ok {
            return bad(P, what, format!("{what} on peer{at}'s graph at {now:?}{}, which held [{}], answered {} and left [{}]; acceptable: {}", if failed { ", with a storage failure," } else { "" }, self.tell(before), got.map_or("an error".into(), |w| w.to_string()), self.tell(&after), want.iter().map(|(a, b)| format!("{} leaving [{}]", a.map_or("an error".into(), |w| w.to_string()), self.tell(&b.live(now)))).collect::<Vec<_>>().join(" or ")));
        }
        Ok(())
    }
    fn ask(&mut self, at: usize, of: usize, from: Option<usize>, weight: bool) -> R<()> {
        let now = self.clock(at);
        let before = self.book(at)?;
        let (pk, id) = (self.peers[of].kp.public(), self.peers[of].id.clone());
        let via = from.map(|f| (self.peers[f].kp.public(), self.peers[f].id.clone()));
        let (what, r, failed) = match (&via, weight) {
            (None, true) => {
                let (r, f) = self.call(at, "TrustGraph::weight", |g| g.weight(pk, now).map_err(|e| e.to_string()))?;
                ("TrustGraph::weight", r.map(Err), f)
            }
            (Some(v), true) => {
                let (r, f) = self.call(at, "TrustGraph::weight_from", |g| g.weight_from(pk, v.0.clone(), now).map_err(|e| e.to_string()))?;
                ("TrustGraph::weight_from", r.map(Err), f)
            }
            (None, false) => {
                let (r, f) = self.call(at, "TrustGraph::get_all_certs", |g| g.get_all_certs(pk, now).map_err(|e| e.to_string()))?;
                ("TrustGraph::get_all_certs", r.map(Ok), f)
            }
            (Some(v), false) => {
                let (r, f) = self.call(at, "TrustGraph::get_all_certs_from", |g| g.get_all_certs_from(pk, v.0.clone(), now).map_err(|e| e.to_string()))?;
                ("TrustGraph::get_all_certs_from", r.map(Ok), f)
            }
        };
        self.unchanged(at, what, &before, now)?;
        let got: Result<Result<Vec<Chain>, u32>, String> = match r {
            Err(e) => Err(e),
            Ok(Err(w)) => Ok(Err(w)),
            Ok(Ok(cs)) => {
                let Some(mut v) = cs.iter().map(chain_of).collect::<Option<Vec<_>>>() else { return bad(P, what, "a certificate names a key or a time that no one stated".into()) };
                v.sort();
                Ok(Ok(v))
            }
        };
        let mut wants = vec![];
        for edge in [false, true] {
            let mut cs = before.chains(&id, now, edge);
            if let Some(v) = &via {
                cs.retain(|c| c.iter().any(|l| l.0 == v.1));
            }
            cs.sort();
            let w = before.heaviest(&cs).max(if via.is_none() { before.roots.get(&id).map_or(0, |l| 1 << l) } else { 0 });
            wants.push(if weight { Err(w) } else { Ok(cs) });
        }
        match &wants[0] {
            Ok(c) if c.len() > 1 => self.note("graph_several_certificates"),
            Ok(c) if c.len() == 1 => self.note("graph_one_certificate"),
            Err(w) if *w > 0 => self.note("graph_weight"),
            _ => self.note("graph_nothing_known"),
        }
        match &got {
            Err(_) if failed => {
                self.digest.num(1);
                self.note("graph_query_failed_with_the_storage");
                Ok(())
            }
            Ok(x) if wants.contains(x) => {
                self.digest.num(2);
                Ok(())
            }
            _ => {
                let tell = |w: &World, x: &Result<Vec<Chain>, u32>| match x {
                    Err(n) => n.to_string(),
                    Ok(cs) => format!("{:?}", cs.iter().map(|c| c.iter().map(|l| format!("{} (issued {}, expires {:?})", w.name(&l.0), l.1.at, l.1.exp.unwrap_or(0))).collect::<Vec<_>>().join(" -> ")).collect::<Vec<_>>()),
                };
                let g = match &got {
                    Err(e) => format!("error {e}"),
                    Ok(x) => tell(self, x),
                };
                bad(P, what, format!("{what} of peer{of}{} on peer{at}'s graph at {now:?}{}, which holds [{}], answered {g}, should be {}", from.map_or(String::new(), |f| format!(" from peer{f}")), if failed { ", with a storage failure," } else { "" }, self.tell(&before), tell(self, &wants[0])))
            }
        }
    }

    pub(super) fn graph(&mut self, peer: usize, e: &GEv) -> R<()> {
        let at = self.p(peer);
        if !self.graphs.contains_key(&at) {
            self.graphs.insert(at, G::new(at as u64 + 1));
        }
        let now = self.clock(at);
        match e {
            GEv::Order { seed } => self.graphs[&at].store.0.borrow_mut().order = Rng::new(*seed),
            GEv::Fail { on, after, late, lasting } => {
                self.graphs[&at].store.0.borrow_mut().plan = Some(Plan { on: *on, left: *after, late: *late, lasting: *lasting });
            }
            GEv::Root { of, len } => {
                let of = self.p(*of);
                let before = self.book(at)?;
                let pk = self.peers[of].kp.public();
                let mut with = before.clone();
                with.roots.insert(self.peers[of].id.clone(), (*len).min(16));
                let (r, failed) = self.call(at, "TrustGraph::set_root", |g| g.set_root(pk, *len).map_err(|e| e.to_string()))?;
                self.settle(at, "TrustGraph::set_root", &before, now, r.ok().map(|_| 0), &[(Some(0), with)], &[], failed)?;
            }
            GEv::Add { link, by } => {
                let Some(t) = self.make(link)? else { return Ok(()) };
                let Some(l) = link_of(&t) else { return Ok(()) };
                let by = self.p(*by);
                let (pk, id) = (self.peers[by].kp.public(), self.peers[by].id.clone());
                let before = self.book(at)?;
                let want = before.add(&l, &id, now);
                let (r, failed) = self.call(at, "TrustGraph::add_trust", |g| g.add_trust(t, pk, now).map_err(|e| e.to_string()))?;
                if matches!(r, Ok(w) if w > 0) {
                    self.note("graph_trust_recorded");
                }
                self.settle(at, "TrustGraph::add_trust", &before, now, r.ok(), &want, &[], failed)?;
            }
            GEv::Cert { links } => {
                let mut ch = vec![];
                for l in links {
                    if let Some(t) = self.make(l)? {
                        ch.push(t);
                    }
                }
                let Some(m) = ch.iter().map(link_of).collect::<Option<Vec<_>>>() else { return Ok(()) };
                let before = self.book(at)?;
                let mut cur = vec![before.clone()];
                let mut way = vec![before.clone()];
                let mut want = vec![];
                let mut by = m.first().map(|l| l.pk.clone());
                if m.is_empty() {
                    want.push((None, before.clone()));
                }
                for l in &m {
                    let mut next = vec![];
                    for b in &cur {
                        for (a, b2) in b.add(l, by.as_ref().unwrap(), now) {
                            match a {
                                None => want.push((None, b2)),
                                Some(_) => next.push(b2),
                            }
                        }
                    }
                    next.sort();
                    next.dedup();
                    way.extend(next.iter().cloned());
                    cur = next;
                    by = Some(l.pk.clone());
                }
                if !m.is_empty() {
                    want.extend(cur.into_iter().map(|b| (Some(0), b)));
                }
                let c = Certificate::new_unverified(ch);
                let (r, failed) = self.call(at, "TrustGraph::add", |g| g.add(c, now).map_err(|e| e.to_string()))?;
                self.settle(at, "TrustGraph::add", &before, now, r.ok().map(|_| 0), &want, &way, failed)?;
            }
            GEv::Revoke { by, of, when, edit } => {
                let (by, of) = (self.p(*by), self.p(*of));
                let kp = self.peers[by].kp.clone();
                let pk = self.peers[of].kp.public();
                let mut r = guard("C15", "Revocation::create", || Revocation::create(&kp, pk, Duration::from_secs(*when)))?;
                if let Some((field, x)) = edit {
                    let q = self.p(*x as usize);
                    match field % 4 {
                        0 => r.revoked_at = Duration::from_secs(*x),
                        1 => r.pk = self.peers[q].kp.public(),
                        2 => r.revoked_by = self.peers[q].kp.public(),
                        _ => r.signature = guard("C15", "Trust::create", || Trust::create(&kp, r.pk.clone(), r.revoked_at, r.revoked_at).signature)?,
                    }
                }
                let (Some(f), Some(b)) = (LPk::dec(&r.pk.encode()), LPk::dec(&r.revoked_by.encode())) else { return Ok(()) };
                let mut d = vec![f.enc().len() as u8];
                d.extend(f.enc());
                d.extend(r.revoked_at.as_secs().to_le_bytes());
                let genuine = b.verify(&sha(&d), r.signature.to_vec());
                let labelled = r.signature.encode().first() == Some(&b.t);
                let before = self.book(at)?;
                let mut want = vec![];
                if !genuine || !labelled {
                    want.push((None, before.clone()));
                }
                if genuine {
                    let row = Row { exp: None, at: r.revoked_at.as_secs(), sig: r.signature.encode() };
                    want.extend(before.record(&(f, b), row, now).into_iter().map(|b| (Some(0), b)));
                }
                let (r, failed) = self.call(at, "TrustGraph::revoke", |g| g.revoke(r).map_err(|e| e.to_string()))?;
                self.settle(at, "TrustGraph::revoke", &before, now, r.ok().map(|_| 0), &want, &[], failed)?;
            }
            GEv::Ask { of, from, weight } => {
                let (of, from) = (self.p(*of), from.map(|f| self.p(f)));
                self.ask(at, of, from, *weight)?;
            }
            GEv::Revocations { of } => {
                let of = self.p(*of);
                let before = self.book(at)?;
                let pk = self.peers[of].kp.public();
                let id = self.peers[of].id.clone();
                let (r, failed) = self.call(at, "TrustGraph::get_revocations", |g| g.get_revocations(pk).map_err(|e| e.to_string()))?;
                self.unchanged(at, "TrustGraph::get_revocations", &before, now)?;
                let want: Vec<(LPk, u64, Vec<u8>)> = before.rows.iter().filter(|((f, _), r)| *f == id && r.exp.is_none()).map(|((_, b), r)| (b.clone(), r.at, r.sig.clone())).collect();
                match r {
                    Err(_) if failed => {}
                    Ok(v) => {
                        let mut got: Vec<(LPk, u64, Vec<u8>)> = v.iter().filter_map(|r| Some((LPk::dec(&r.revoked_by.encode())?, r.revoked_at.as_secs(), r.signature.encode()))).collect();
                        got.sort();
                        if got != want || v.iter().any(|r| r.pk.encode() != id.enc()) {
                            return bad(P, "TrustGraph::get_revocations", format!("revocations of peer{of} on peer{at}'s graph, which holds [{}], came out as {:?}", self.tell(&before), got.iter().map(|g| format!("by {} at {}", self.name(&g.0), g.1)).collect::<Vec<_>>()));
                        }
                        if !want.is_empty() {
                            self.note("graph_revocations_listed");
                        }
                    }
                    Err(e) => return bad(P, "TrustGraph::get_revocations", format!("revocations of peer{of} on peer{at}'s graph: error {e}")),
                }
            }
            GEv::Factor { certs } => {
                let mut cs = vec![];
                for links in certs {
                    let mut ch = vec![];
                    for l in links {
                        if let Some(t) = self.make(l)? {
                            ch.push(t);
                        }
                    }
                    cs.push(Certificate::new_unverified(ch));
                }
                let before = self.book(at)?;
                // an error, no factor, or the best one
                let mut want: Result<Option<u32>, ()> = Ok(None);
                for c in &cs {
                    let root = c.chain.first().and_then(|t| LPk::dec(&t.issued_for.encode())).and_then(|k| before.roots.get(&k).copied());
                    want = match (want, root) {
                        (Ok(w), Some(l)) => {
                            let f = 16 - l + c.chain.len() as u32 - 1;
                            Ok(Some(w.map_or(f, |x| x.min(f))))
                        }
                        _ => Err(()),
                    };
                }
                let n = cs.len();
                let (r, failed) = self.call(at, "TrustGraph::certificates_weight_factor", |g| g.certificates_weight_factor(cs).map_err(|e| e.to_string()))?;
                self.unchanged(at, "TrustGraph::certificates_weight_factor", &before, now)?;
                self.note(if want.is_ok() { "graph_factor" } else { "graph_factor_refused" });
                match (&r, &want) {
                    (Err(_), _) if failed => {}
                    (Err(_), Err(())) => {}
                    (Ok(a), Ok(b)) if a == b => {}
                    _ => return bad(P, "TrustGraph::certificates_weight_factor", format!("the weight factor of {n} certificates on peer{at}'s graph, which holds [{}], came out as {r:?}, should be {want:?}", self.tell(&before))),
                }
            }
            GEv::Restart { form } => {
                let before = self.book(at)?;
                let (rows, roots) = {
                    let g = &self.graphs[&at];
                    let s = g.store.0.borrow();
                    (s.rows.clone(), s.roots.clone())
                };
                let saved = (rows, roots);
                let loaded: Result<(Vec<TrustRelation>, Vec<(PublicKeyHashable, u32)>), String> = match form % 3 {
                    0 => Ok(saved),
                    1 => guard(P, "serde", || serde_json::to_string(&saved).and_then(|s| serde_json::from_str(&s)).map_err(|e| e.to_string()))?,
                    _ => guard(P, "serde", || rmp_serde::to_vec(&saved).map_err(|e| e.to_string()).and_then(|b| rmp_serde::from_slice(&b).map_err(|e| e.to_string())))?,
                };
                let (rows, roots) = match loaded {
                    Ok(x) => x,
                    Err(e) => return bad(P, "serde", format!("what peer{at}'s storage holds [{}] does not come back (form {}): {e}", self.tell(&before), form % 3)),
                };
                let mut g = G::new(*form as u64 ^ 0x55);
                g.store.0.borrow_mut().rows = rows;
                g.store.0.borrow_mut().roots = roots;
                g.graph = TrustGraph::new(g.store.clone());
                self.graphs.insert(at, g);
                self.stats.crashes += 1;
                *self.stats.faults.0.entry("restart_over_stored_graph".into()).or_default() += 1;
                let after = self.book(at)?;
                if after != before {
                    return bad(P, "serde", format!("peer{at}'s storage held [{}] and after a restart holds [{}]", self.tell(&before), self.tell(&after)));
                }
            }
        }
        Ok(())
    }
}
