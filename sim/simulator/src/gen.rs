//! Seeded scheduler: clients, hostile peers, network, clocks and faults.
//! It decides online, from one PRNG, what happens next; what happened is recorded as a linear trace.
use crate::exec::{Exec, Viol};
use crate::keys::{revocation_digest, trust_digest, Alg, Kp};
use crate::model::{certs_of, is_mutation, is_query, success, ts_arg};
use crate::node::Resp;
use crate::rng::Rng;
use crate::trace::{Call, Cp, Ev, FKind, Fault, Seam, Tet};
use serde_json::{json, Value};
use std::cmp::Reverse;
use std::collections::{BTreeSet, BinaryHeap};

#[derive(Clone, Debug)]
pub struct Cfg {
    pub w: W,
    pub nodes: (u64, u64),
    pub peers: (u64, u64),
    pub steps: (u64, u64),
    pub fault: f64,
    pub crash: f64,
    pub heal: bool,
    pub pair_bias: f64,
    pub line: f64,
    pub shape: f64,
    pub extreme: f64,
    pub from_bias: f64,
    pub tie: f64,
    pub retry: f64,
    pub probe: f64,
    /// share of probes of the issuer's and subject's neighbourhood right after a change
    pub boundary: f64,
    /// the packaged deployment is what the run is about
    pub deploy: bool,
    /// clients use the published functions
    pub aqua: bool,
}

#[derive(Clone, Debug, Default)]
pub struct W {
    pub trust: f64,
    pub revoke: f64,
    pub cert: f64,
    pub query: f64,
    pub root: f64,
    pub replay: f64,
    pub forge: f64,
    pub badprov: f64,
    pub malformed: f64,
    pub transfer: f64,
    pub issue: f64,
    pub crash: f64,
    pub nonowner: f64,
    pub clock: f64,
    pub partition: f64,
    pub boundary: f64,
    pub chain: f64,
    pub future: f64,
    /// the same call with the fault at one step after the other
    pub sweep: f64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    Trust,
    Revoke,
    Cert,
    Query,
    Root,
    Replay,
    Forge,
    BadProv,
    Malformed,
    Transfer,
    Issue,
    Crash,
    NonOwner,
    Clock,
    Partition,
    Boundary,
    Chain,
    Future,
    Sweep,
}

pub fn profile(id: &str) -> Cfg {
    let base = W {
        trust: 10.0, revoke: 3.0, cert: 3.0, query: 6.0, root: 1.0, replay: 2.0, forge: 1.0, badprov: 0.7, malformed: 0.7,
        transfer: 1.0, issue: 0.7, crash: 0.7, nonowner: 0.3, clock: 0.7, partition: 0.3, boundary: 1.5, chain: 2.0, future: 0.5, sweep: 0.0,
    };
    let mut c = Cfg {
        w: base, nodes: (1, 2), peers: (3, 6), steps: (15, 45), fault: 0.0, crash: 0.0, heal: false, pair_bias: 0.3,
        line: 0.1, shape: 0.03, extreme: 0.1, from_bias: 0.2, tie: 0.15, retry: 0.5, probe: 0.35, boundary: 0.2, deploy: false, aqua: false,
    };
    match id {
        "C01" => {
            c.w.forge = 8.0;
            c.w.malformed = 1.5;
        }
        "C02" => {
            c.w.root = 2.0;
            c.shape = 0.08;
            c.w.boundary = 3.0;
            c.line = 0.25;
            c.w.revoke = 5.0;
        }
        "C03" => {
            c.peers = (4, 7);
            c.line = 0.2;
            c.shape = 0.15;
            c.w.query = 8.0;
        }
        "C04" => {
            c.w.revoke = 10.0;
            c.shape = 0.08;
            c.w.chain = 4.0;
            c.w.crash = 1.5;
            c.w.replay = 3.0;
        }
        "C05" => {
            c.peers = (2, 4);
            c.extreme = 0.2;
            c.w.chain = 3.0;
            c.w.cert = 5.0;
            c.pair_bias = 0.8;
            c.w.replay = 8.0;
            c.w.revoke = 8.0;
            c.tie = 0.35;
        }
        "C06" => {
            c.w.boundary = 8.0;
            c.w.clock = 3.0;
            c.extreme = 0.35;
            c.boundary = 0.5;
        }
        "C07" => {
            c.crash = 0.15;
            c.w.sweep = 0.4;
            c.w.crash = 4.0;
            c.steps = (10, 30);
            c.nodes = (1, 1);
        }
        "C08" => {
            c.fault = 0.25;
            c.w.sweep = 0.8;
            c.steps = (10, 35);
            c.nodes = (1, 1);
        }
        "C09" => {
            c.w.badprov = 8.0;
            c.w.future = 4.0;
            c.w.clock = 2.0;
            c.from_bias = 0.4;
        }
        "C10" => {
            c.w.root = 8.0;
            c.w.nonowner = 5.0;
            c.w.crash = 1.5;
            c.line = 0.2;
        }
        "C11" => {
            c.nodes = (2, 4);
            c.peers = (3, 6);
            c.heal = true;
            c.w.crash = 1.5;
            c.w.partition = 1.5;
            c.tie = 0.0;
            c.extreme = 0.0;
            c.steps = (10, 30);
            c.fault = 0.03;
            c.crash = 0.03;
            c.w.forge = 0.5;
            c.probe = 0.1;
            c.w.query = 3.0;
        }
        "C12" => {
            c.w.malformed = 12.0;
        }
        "C13" => {
            c.nodes = (2, 3);
            c.w.transfer = 8.0;
            c.shape = 0.08;
            c.w.issue = 6.0;
            c.extreme = 0.3;
        }
        "C14" => {
            c.from_bias = 0.8;
            c.shape = 0.08;
            c.w.query = 12.0;
            c.peers = (4, 7);
        }
        "C16" => {
            c.w.query = 10.0;
            c.w.forge = 3.0;
            c.w.badprov = 3.0;
            c.w.malformed = 3.0;
            c.w.future = 3.0;
            c.w.nonowner = 2.0;
            c.w.issue = 2.0;
        }
        "C19" => {
            c.deploy = true;
            c.peers = (2, 4);
            c.steps = (6, 16);
            c.line = 0.0;
            c.shape = 0.0;
            c.fault = 0.1;
            c.crash = 0.1;
        }
        "C20" => {
            c.aqua = true;
            c.nodes = (1, 3);
            c.peers = (4, 6);
            c.steps = (15, 40);
            c.line = 0.0;
            c.shape = 0.0;
            c.fault = 0.12;
            c.crash = 0.08;
        }
        "C17" => {
            c.w.trust = 14.0;
            c.w.root = 2.0;
            c.w.boundary = 3.0;
            c.w.revoke = 4.0;
            c.line = 0.3;
        }
        _ => {}
    }
    c
}

#[derive(Clone, Debug)]
pub struct Stmt {
    pub rev: bool,
    pub by: usize,
    pub who: usize,
    pub at: u64,
    pub exp: u64,
    pub sig: Vec<u8>,
    pub label: String,
}

struct Msg {
    node: usize,
    call: Call,
}

/// how the peers of a run relate to each other
#[derive(Clone, Copy, PartialEq, Debug)]
enum Shape {
    /// a line of trusts amid peers that revoke its members
    Feud(usize, usize),
    /// as it comes
    Free,
    /// many issuers between the root and one peer
    Star(usize),
    /// two or three full layers between the root and one peer
    Layers(usize, usize, usize),
    /// many roots trusting one peer
    Roots(usize),
    /// a short chain and many peers revoking its end
    Revokers(usize),
}

pub struct Gen<'a> {
    pub rng: Rng,
    pub ex: &'a mut Exec,
    pub trace: Vec<Ev>,
    pub journal: Option<std::fs::File>,
    cfg: Cfg,
    ps: Vec<Kp>,
    n_hosts: usize,
    owner: Kp,
    strangers: Vec<Kp>,
    now: u64,
    start: u64,
    skew: Vec<i64>,
    parted: Vec<bool>,
    pool: Vec<Stmt>,
    /// hosts by other names
    alias: Vec<String>,
    roots: Vec<usize>,
    lens: Vec<u64>,
    queue: BinaryHeap<Reverse<(u64, u64)>>,
    msgs: std::collections::BTreeMap<u64, Msg>,
    seq: u64,
    p_drop: f64,
    p_dup: f64,
    max_delay: u64,
    max_edges: usize,
    line: bool,
    shape: Shape,
    exports: Vec<Value>,
    rev_exports: Vec<Value>,
    fault_kinds: Vec<FKind>,
    fault_seams: Vec<Seam>,
    last_iat: std::collections::BTreeMap<(usize, usize), u64>,
    pub messages: [u64; 5],
}

type Res = Result<(), Viol>;

impl<'a> Gen<'a> {
    pub fn new(cfg: &Cfg, ex_seed: u64, ex: &'a mut Exec) -> Gen<'a> {
        let mut rng = Rng::new(ex_seed);
        let mut cfg = cfg.clone();
        // swarm: every run has its own mix
        {
            let w = &mut cfg.w;
            for x in [
                &mut w.revoke, &mut w.cert, &mut w.query, &mut w.root, &mut w.replay, &mut w.forge, &mut w.badprov,
                &mut w.malformed, &mut w.transfer, &mut w.issue, &mut w.crash, &mut w.nonowner, &mut w.clock,
                &mut w.partition, &mut w.boundary, &mut w.chain, &mut w.future,
            ] {
                let core = *x >= 4.0;
                *x *= match rng.idx(6) {
                    0 if !core => 0.0,
                    0 | 1 => 0.4,
                    2 | 3 => 1.0,
                    4 => 2.0,
                    _ => {
                        if core {
                            1.0
                        } else {
                            0.0
                        }
                    }
                };
            }
        }
        let line = rng.chance(cfg.line);
        let shape = match rng.idx(5) {
            _ if line || !rng.chance(cfg.shape) => Shape::Free,
            0 => Shape::Star(rng.range(9, if cfg.heal { 18 } else { 36 }) as usize),
            1 if !cfg.heal && rng.chance(0.35) => Shape::Layers(rng.range(4, 6) as usize, rng.range(4, 7) as usize, rng.range(4, 6) as usize),
            1 => Shape::Layers(rng.range(3, if cfg.heal { 6 } else { 9 }) as usize, rng.range(3, if cfg.heal { 4 } else { 9 }) as usize, 0),
            2 => Shape::Roots(rng.range(5, if cfg.heal { 9 } else { 20 }) as usize),
            3 => Shape::Feud(rng.range(3, 7) as usize, rng.range(3, 8) as usize),
            _ => Shape::Revokers(rng.range(5, if cfg.heal { 12 } else { 30 }) as usize),
        };
        if shape != Shape::Free {
            cfg.steps = (4, 14);
        }
        let n_peers = if shape != Shape::Free {
            match shape {
                Shape::Star(n) | Shape::Revokers(n) => n + 2,
                Shape::Layers(a, b, c) => a + b + c + 2,
                Shape::Feud(a, b) => a + b + 1,
                Shape::Roots(n) => n + 1,
                Shape::Free => 0,
            }
        } else if line { rng.range(14, 20) as usize } else { rng.range(cfg.peers.0, cfg.peers.1) as usize };
        let secp = *rng.pick(&[0.0, 0.0, 0.3, 0.6]);
        let ps: Vec<Kp> = (0..n_peers)
            .map(|i| Kp::derive(if rng.chance(secp) { Alg::Secp } else { Alg::Ed }, "peer", i as u64))
            .collect();
        let nodes = ex.nodes.len();
        let n_roots = if let Shape::Roots(n) = shape { n } else if line && rng.chance(0.25) { rng.range(2, 5) as usize } else if line || shape != Shape::Free { 1 } else { rng.range(1, 3.min(n_peers as u64)) as usize };
        let mut idx: Vec<usize> = (0..n_peers).collect();
        rng.shuffle(&mut idx);
        let roots = if line && n_roots > 1 {
            // the others stand somewhere in the line
            let mut r: Vec<usize> = idx.iter().copied().filter(|i| *i != 0).take(n_roots - 1).collect();
            r.insert(0, 0);
            r
        } else if line || shape != Shape::Free { (0..n_roots).collect() } else { idx[..n_roots].to_vec() };
        let start = if rng.chance(0.06) {
            *rng.pick(&[(1u64 << 53) - 50, i64::MAX as u64 - 50, i64::MAX as u64 - 3000])
        } else {
            *rng.pick(&[1_000u64, 5_000_000, 1_700_000_000, 1_700_000_000, (1 << 31) - 50, (1 << 32) - 50])
        };
        let skewed = rng.chance(0.5);
        let skew = (0..nodes).map(|_| if skewed { rng.below(20) as i64 - 10 } else { 0 }).collect();
        let lossy = rng.chance(0.6);
        let mut kinds = vec![];
        for k in [FKind::IoErr, FKind::Full, FKind::Torn { seed: 0 }, FKind::Busy, FKind::NoMem] {
            if rng.chance(0.6) {
                kinds.push(k);
            }
        }
        if kinds.is_empty() {
            kinds.push(FKind::IoErr);
        }
        let seams = match rng.idx(3) {
            0 => vec![Seam::Vfs],
            1 => vec![Seam::Host],
            _ => vec![Seam::Vfs, Seam::Host],
        };
        let lens = if shape != Shape::Free {
            if matches!(shape, Shape::Layers(_, _, 1..)) { vec![4, 5, 7, 16] } else { vec![3, 4, 7, 16] }
        } else if line {
            vec![*rng.pick(&[12, 13, 14, 15, 16, 17, 20])]
        } else {
            match rng.idx(4) {
                0 => vec![1, 2, 3],
                1 => vec![0, 1, 2, 4, 15, 16],
                2 => vec![10, 16, 17, u32::MAX as u64],
                _ => vec![2, 3, 5, 10],
            }
        };
        // the service belongs to an outsider, to a peer of the graph, or to its host
        let owner = match rng.idx(6) {
            0 => ps[rng.idx(ps.len())].clone(),
            1 => ps[0].clone(),
            _ => Kp::derive(Alg::Ed, "owner", 0),
        };
        let p_drop = if lossy { 0.15 } else { 0.0 };
        let p_dup = if lossy { 0.15 } else { 0.0 };
        let max_delay = *rng.pick(&[0u64, 3, 20]);
        Gen {
            rng, ex, trace: vec![], journal: None, cfg, ps, n_hosts: nodes, owner,
            strangers: vec![Kp::derive(Alg::Ed, "stranger", 0), Kp::derive(Alg::Secp, "stranger", 1)],
            now: start, start, skew, parted: vec![false; nodes], pool: vec![], alias: vec![], roots, lens,
            queue: BinaryHeap::new(), msgs: Default::default(), seq: 0, p_drop, p_dup, max_delay,
            max_edges: if shape != Shape::Free { 1 } else if line { 26 } else { 14 }, line, shape, exports: vec![], rev_exports: vec![],
            fault_kinds: kinds, fault_seams: seams, last_iat: Default::default(), messages: [0; 5],
        }
    }

    pub fn nodes_of(cfg: &Cfg, seed: u64) -> usize {
        Rng::new(seed ^ 0xabcdef).range(cfg.nodes.0, cfg.nodes.1) as usize
    }

    fn host(&self, node: usize) -> &str {
        if let Some(h) = self.alias.get(node) {
            return h;
        }
        // hosts are peers of the graph themselves, as far as there are enough
        &self.ps[node % self.ps.len()].peer
    }

    /// Host time a client passes: the node's clock now, or as read a little earlier.
    fn clock(&mut self, node: usize) -> u64 {
        let t = self.now.saturating_add_signed(self.skew[node]);
        if self.rng.chance(0.1) {
            t.saturating_sub(self.rng.range(1, 5))
        } else {
            t
        }
    }

    fn cp(&mut self, node: usize, f: &str, nargs: usize, init: &str) -> Cp {
        let host = self.host(node).to_string();
        self.seq += 1;
        Cp {
            init_peer_id: init.to_string(),
            service_id: "trust-graph".into(),
            service_creator_peer_id: self.owner.peer.clone(),
            particle_id: format!("p{}", self.seq),
            tetraplets: (0..nargs)
                .map(|i| {
                    vec![if ts_arg(f) == Some(i) {
                        Tet { peer_pk: host.clone(), service_id: "peer".into(), function_name: "timestamp_sec".into(), json_path: String::new() }
                    } else {
                        Tet { peer_pk: init.to_string(), ..Default::default() }
                    }]
                })
                .collect(),
            host_id: host,
        }
    }

    fn mk(&mut self, node: usize, f: &str, args: Vec<Value>, note: &str) -> Call {
        let init = if f == "set_root" || self.rng.chance(0.1) { self.owner.peer.clone() } else { let i = self.rng.idx(self.ps.len()); self.ps[i].peer.clone() };
        let cp = self.cp(node, f, args.len(), &init);
        Call { node, f: f.into(), args, cp, faults: vec![], note: note.into() }
    }

    /// Executes one event for real.
    fn emit(&mut self, ev: Ev) -> Result<Option<Resp>, Viol> {
        if let Some(j) = &mut self.journal {
            use std::io::Write;
            let _ = writeln!(j, "{}", serde_json::to_string(&ev).unwrap());
        }
        self.trace.push(ev.clone());
        self.ex.step(&ev)
    }

    fn send_now(&mut self, mut c: Call) -> Result<Option<Resp>, Viol> {
        let node = c.node;
        if c.faults.is_empty() {
            let mutating = is_mutation(&c.f);
            if self.rng.chance(self.cfg.crash * if mutating { 1.5 } else { 0.4 }) {
                let n = self.ex.sizes.get(&c.f).map(|s| s.1).unwrap_or(12).max(1) as u64;
                c.faults.push(Fault {
                    seam: Seam::Vfs,
                    kind: FKind::Crash { power: self.rng.chance(0.6), seed: self.rng.u64() >> 12 },
                    at: self.rng.below(n + 1) as u32,
                    span: 1,
                });
            } else if self.rng.chance(self.cfg.fault) {
                let f = self.fault(&c.f.clone());
                c.faults.push(f);
            }
        }
        let again = c.clone();
        let r = self.emit(Ev::Call(c))?;
        let failed = self.ex.last_cut || self.ex.last_faulty && r.as_ref().and_then(success) == Some(false);
        if failed && self.rng.chance(self.cfg.retry) {
            // client retry, with a fresh host timestamp
            let mut c = again;
            c.faults.clear();
            c.note = "retry".into();
            if let Some(i) = ts_arg(&c.f) {
                let t = self.clock(node);
                if c.args[i].as_u64().map(|x| x <= t).unwrap_or(false) {
                    c.args[i] = json!(t);
                }
            }
            return self.emit(Ev::Call(c));
        }
        Ok(r)
    }

    fn fault(&mut self, f: &str) -> Fault {
        let (any, _mt, wr, lk, host) = self.ex.sizes.get(f).copied().unwrap_or((12, 8, 5, 3, 12));
        let seam = *self.rng.pick(&self.fault_seams);
        let mut kind = *self.rng.pick(&self.fault_kinds);
        if let FKind::Torn { seed } = &mut kind {
            *seed = self.rng.u64() >> 12;
        }
        if seam == Seam::Vfs && kind == FKind::NoMem || seam == Seam::Host && matches!(kind, FKind::Torn { .. }) {
            kind = FKind::IoErr;
        }
        let n = match (seam, kind) {
            (Seam::Host, _) => host,
            (_, FKind::Full | FKind::Torn { .. }) => wr,
            (_, FKind::Busy) => lk,
            _ => any,
        };
        Fault { seam, kind, at: self.rng.below(n as u64 + 1) as u32, span: *self.rng.pick(&[1, 1, 2, 5, 1000]) }
    }

    /// The network: loss, duplication, delay (hence reordering), partitions.
    fn post(&mut self, c: Call) -> Res {
        self.messages[0] += 1;
        if self.rng.chance(self.p_drop) {
            self.messages[1] += 1;
            return Ok(());
        }
        let copies = if self.rng.chance(self.p_dup) { 2 } else { 1 };
        if copies == 2 {
            self.messages[2] += 1;
        }
        for _ in 0..copies {
            let delay = if self.rng.chance(0.5) { 0 } else { self.rng.below(self.max_delay + 1) };
            if delay == 0 && !self.parted[c.node] {
                self.deliver(c.clone())?;
            } else {
                self.messages[3] += 1;
                self.seq += 1;
                let id = self.seq;
                self.queue.push(Reverse((self.now + delay, id)));
                self.msgs.insert(id, Msg { node: c.node, call: c.clone() });
            }
        }
        Ok(())
    }

    fn deliver(&mut self, mut c: Call) -> Res {
        let node = c.node;
        // the host stamps the call when it executes it
        if let Some(i) = ts_arg(&c.f) {
            if c.note != "wild clock" {
                c.args[i] = json!(self.clock(node));
            }
        }
        let f = c.f.clone();
        let touched = self.touched(&c);
        if is_mutation(&f) && self.rng.chance(self.cfg.probe * 0.35) {
            // the same question in the same second, right before and right after
            let p = touched.filter(|_| self.rng.chance(0.5));
            let t = ts_arg(&f).and_then(|i| c.args[i].as_u64()).filter(|_| c.note != "wild clock");
            let t = t.unwrap_or_else(|| self.clock(node));
            let q = self.question(node, p, t);
            self.ask(q.clone())?;
            self.send_now(c)?;
            self.ex.stats.probe("asked_before_and_after");
            return self.ask(q);
        }
        self.send_now(c)?;
        if is_mutation(&f) && self.rng.chance(self.cfg.probe) {
            let p = match touched {
                Some(p) if self.rng.chance(0.7) => p,
                _ => self.rng.idx(self.ps.len()),
            };
            self.query(node, Some(p))?;
        }
        Ok(())
    }

    fn touched(&self, c: &Call) -> Option<usize> {
        let v = c.args.first()?;
        let p = v
            .get("issued_for")
            .or(v.get("revoked_peer_id"))
            .or(v.get("chain").and_then(|x| x.as_array()).and_then(|x| x.last()).and_then(|x| x.get("issued_for")))
            .or(Some(v))?
            .as_str()?;
        self.ps.iter().position(|k| k.peer == p)
    }

    fn pump(&mut self) -> Res {
        let mut held = vec![];
        while let Some(Reverse((t, id))) = self.queue.peek().copied() {
            if t > self.now {
                break;
            }
            self.queue.pop();
            let node = self.msgs[&id].node;
            if self.parted[node] {
                self.messages[4] += 1;
                held.push(Reverse((self.now + 5, id)));
                continue;
            }
            let m = self.msgs.remove(&id).unwrap();
            self.deliver(m.call)?;
        }
        self.queue.extend(held);
        Ok(())
    }

    // ---- statements -------------------------------------------------------------------------------------------

    fn standing(&mut self, node: usize) -> Vec<usize> {
        if !self.ex.judge_on {
            let mut s: BTreeSet<usize> = self.roots.iter().copied().collect();
            s.extend(self.pool.iter().filter(|s| !s.rev).map(|s| s.who));
            return s.into_iter().collect();
        }
        let ts = self.now.saturating_add_signed(self.skew[node]);
        let mut out = vec![];
        for i in 0..self.ps.len() {
            let Some(k) = self.ex.kr.peer(&self.ps[i].peer) else { continue };
            let Some(w) = self.ex.judges[node].worlds.first() else { continue };
            if w.weight(k, ts).map(|x| x > 0).unwrap_or(false) {
                out.push(i);
            }
        }
        out
    }

    fn pick_issuer(&mut self) -> usize {
        if self.rng.chance(0.75) {
            let node = self.rng.idx(self.n_hosts);
            let s = self.standing(node);
            if !s.is_empty() {
                return *self.rng.pick(&s);
            }
        }
        self.rng.idx(self.ps.len())
    }

    fn edges(&self) -> BTreeSet<(usize, usize)> {
        self.pool.iter().map(|s| (s.by, s.who)).collect()
    }

    fn pick_pair(&mut self) -> (usize, usize) {
        let e: Vec<(usize, usize)> = self.edges().into_iter().collect();
        if !e.is_empty() && (self.rng.chance(self.cfg.pair_bias) || e.len() >= self.max_edges) {
            return *self.rng.pick(&e);
        }
        let by = self.pick_issuer();
        if self.line {
            // mostly extend the line
            if self.rng.chance(0.8) && by + 1 < self.ps.len() {
                return (by, by + 1);
            }
        }
        if self.rng.chance(0.08) {
            return (by, by);
        }
        let mut who = self.rng.idx(self.ps.len());
        if who == by {
            who = (who + 1) % self.ps.len();
        }
        (by, who)
    }

    fn pick_iat(&mut self, pair: (usize, usize)) -> u64 {
        let prev: Vec<u64> = self.pool.iter().filter(|s| (s.by, s.who) == pair).map(|s| s.at).collect();
        if self.cfg.heal {
            // no ties: strictly fresh times per pair, in random arrival order
            let m = self.last_iat.get(&pair).copied().unwrap_or(self.now - 900);
            let x = if m < self.now && self.rng.chance(0.7) { self.rng.range(m + 1, self.now) } else { m + 1 };
            self.last_iat.insert(pair, x);
            return x;
        }
        if let Some(&p) = prev.last() {
            if self.rng.chance(self.cfg.tie) {
                return p;
            }
            match self.rng.idx(6) {
                0 => return p.saturating_sub(self.rng.range(1, 10)),
                1 => return p.saturating_add(1),
                _ => {}
            }
        }
        if self.rng.chance(self.cfg.extreme * 0.15) {
            return *self.rng.pick(&[u64::MAX, u64::MAX - 1, i64::MAX as u64, i64::MAX as u64 + 1, 1 << 63 | 77, (1 << 32) + 7, (1 << 32) - 1, 1 << 53]);
        }
        if self.rng.chance(0.03) {
            // dated ahead: refused on its own, though not inside a certificate
            return self.now + self.rng.range(1, 2000);
        }
        match self.rng.idx(10) {
            0 => 0,
            1 | 2 => self.now.saturating_sub(self.rng.below(100)),
            3 => self.now.saturating_sub(15),
            _ => self.now.saturating_sub(self.rng.below(12)),
        }
    }

    fn pick_exp(&mut self) -> u64 {
        if self.rng.chance(self.cfg.extreme) {
            return *self.rng.pick(&[u64::MAX, u64::MAX - 1, i64::MAX as u64, i64::MAX as u64 + 1, 1 << 63 | 12345, (1 << 32) + 7, self.now + 1]);
        }
        if self.rng.chance(self.cfg.boundary) {
            return self.now + self.rng.below(8);
        }
        match self.rng.idx(12) {
            0 => self.now + self.rng.range(1, 10),
            1 => self.now + self.rng.range(10, 60),
            2 => self.now.saturating_sub(self.rng.below(5)),
            3 if !self.pool.is_empty() => self.rng.pick(&self.pool).exp.max(1),
            4 => u64::MAX,
            _ => self.now + self.rng.range(100, 100_000),
        }
    }

    fn sign_trust(&mut self, by: usize, who: usize, at: u64, exp: u64) -> Stmt {
        let sig = self.ps[by].sign(&trust_digest(&self.ps[who].pk, exp, at));
        let s = Stmt { rev: false, by, who, at, exp, sig, label: self.ps[by].pk.alg.label().into() };
        self.pool.push(s.clone());
        s
    }
    fn sign_rev(&mut self, by: usize, who: usize, at: u64) -> Stmt {
        let sig = self.ps[by].sign(&revocation_digest(&self.ps[who].pk, at));
        let s = Stmt { rev: true, by, who, at, exp: 0, sig, label: self.ps[by].pk.alg.label().into() };
        self.pool.push(s.clone());
        s
    }

    fn dto(&self, s: &Stmt) -> Value {
        let sig = bs58::encode(&s.sig).into_string();
        if s.rev {
            json!({"revoked_peer_id": self.ps[s.who].peer, "revoked_at": s.at, "signature": sig, "sig_type": s.label, "revoked_by": self.ps[s.by].peer})
        } else {
            json!({"issued_for": self.ps[s.who].peer, "expires_at": s.exp, "signature": sig, "sig_type": s.label, "issued_at": s.at})
        }
    }

    fn submit(&mut self, node: usize, s: &Stmt, note: &str) -> Call {
        let t = self.clock(node);
        let d = self.dto(s);
        if s.rev {
            self.mk(node, "revoke", vec![d, json!(t)], note)
        } else {
            let by = self.ps[s.by].peer.clone();
            self.mk(node, "add_trust", vec![d, json!(by), json!(t)], note)
        }
    }

    fn targets(&mut self) -> Vec<usize> {
        if self.rng.chance(0.6) {
            (0..self.n_hosts).collect()
        } else {
            vec![self.rng.idx(self.n_hosts)]
        }
    }

    fn spread(&mut self, s: &Stmt, note: &str) -> Res {
        for node in self.targets() {
            let c = self.submit(node, s, note);
            self.post(c)?;
        }
        Ok(())
    }

    /// a chain of known trusts ending somewhere, root first
    fn known_chain(&mut self) -> Vec<Stmt> {
        let trusts: Vec<Stmt> = self.pool.iter().filter(|s| !s.rev).cloned().collect();
        if trusts.is_empty() {
            return vec![];
        }
        let mut chain: Vec<Stmt> = vec![self.rng.pick(&trusts).clone()];
        for _ in 0..18 {
            let head = chain[0].clone();
            if head.by == head.who && chain.len() > 1 && self.rng.chance(0.9) {
                break;
            }
            let mut up: Vec<&Stmt> = trusts.iter().filter(|t| t.who == head.by).collect();
            if up.is_empty() {
                break;
            }
            // prefer ending at a root's own trust
            let selfs: Vec<&Stmt> = up.iter().copied().filter(|t| t.by == t.who).collect();
            if !selfs.is_empty() && self.rng.chance(0.8) {
                up = selfs;
            }
            let t = (*self.rng.pick(&up)).clone();
            chain.insert(0, t);
        }
        chain
    }

    fn cert_value(&self, chain: &[Stmt]) -> Value {
        json!({"chain": chain.iter().map(|s| self.dto(s)).collect::<Vec<_>>()})
    }

    fn insert(&mut self, node: usize, cert: Value, raw: bool, note: &str) -> Call {
        let mut t = self.clock(node);
        let mut note = note.to_string();
        if !self.cfg.heal && self.rng.chance(0.02) {
            t = *self.rng.pick(&[0, t + 200, t.saturating_sub(200)]);
            note = "wild clock".into();
        }
        let mut c = if raw {
            match text_of(&cert) {
                Some(s) => {
                    if self.rng.chance(0.4) {
                        note.push_str(PRINTED);
                    }
                    self.mk(node, "insert_cert_raw", vec![json!(s), json!(t)], &note)
                }
                None => self.mk(node, "insert_cert", vec![cert, json!(t)], &note),
            }
        } else {
            self.mk(node, "insert_cert", vec![cert, json!(t)], &note)
        };
        if c.note.starts_with("wild clock") {
            let p = c.cp.init_peer_id.clone();
            c.cp.tetraplets[1] = vec![Tet { peer_pk: p, ..Default::default() }];
        }
        c
    }

    fn root_call(&mut self, node: usize, r: usize, len: u64) -> Call {
        let p = self.ps[r].peer.clone();
        self.mk(node, "set_root", vec![json!(p), json!(len)], "")
    }

    /// Someone who does not own the service sets a root.
    fn non_owner(&mut self, node: usize) -> Res {
        let i = self.rng.idx(self.ps.len());
        let r = if self.rng.chance(0.5) { *self.rng.pick(&self.roots.clone()) } else { i };
        let len = self.rng.below(20);
        let mut c = self.root_call(node, r, len);
        let own = self.owner.peer.clone();
        c.cp.init_peer_id = match self.rng.idx(9) {
            0 => self.host(node).to_string(),
            1 => self.ps[r].peer.clone(),
            2 => String::new(),
            3 => self.near(&own),
            4 => c.cp.service_id.clone(),
            5 => self.ps[i].peer.clone(),
            _ => self.strangers[0].peer.clone(),
        };
        if self.rng.chance(0.3) {
            // the arguments claim to come from the owner
            for t in c.cp.tetraplets.iter_mut() {
                t[0].peer_pk = self.owner.peer.clone();
            }
        }
        c.note = "not the owner".into();
        self.send_now(c)?;
        if self.rng.chance(0.7) {
            self.query(node, Some(r))?;
        }
        Ok(())
    }

    /// A node that has no roots yet: whoever comes first gets nothing out of it.
    fn virgin(&mut self, node: usize) -> Res {
        for _ in 0..self.rng.range(1, 4) {
            match self.rng.idx(6) {
                0..=2 => self.non_owner(node)?,
                3 => self.query(node, None)?,
                4 => {
                    let (by, who) = (self.rng.idx(self.ps.len()), self.rng.idx(self.ps.len()));
                    let who = if self.rng.chance(0.4) { by } else { who };
                    let (at, exp) = (self.now - self.rng.below(30), self.pick_exp());
                    let s = self.sign_trust(by, who, at, exp);
                    let c = self.submit(node, &s, "");
                    self.deliver(c)?;
                }
                _ => {
                    let (by, who) = (self.rng.idx(self.ps.len()), self.rng.idx(self.ps.len()));
                    let at = self.now - self.rng.below(60);
                    let s = self.sign_rev(by, who, at);
                    let c = self.submit(node, &s, "");
                    self.deliver(c)?;
                }
            }
        }
        self.ex.stats.probe("node_without_roots");
        Ok(())
    }

    /// A root is cut short and restored within one second; someone below it is asked about in between.
    fn root_and_back(&mut self, r: usize, len: u64) -> Res {
        let node = self.rng.idx(self.n_hosts);
        let below: Vec<usize> = self.standing(node).into_iter().filter(|i| *i != r).collect();
        let who = if below.is_empty() { None } else { Some(*self.rng.pick(&below)) };
        let t = self.clock(node);
        let q = if self.rng.chance(0.5) {
            let p = self.ps[who.unwrap_or(r)].peer.clone();
            self.mk(node, "get_weight", vec![json!(p), json!(t)], "")
        } else {
            self.question(node, who, t)
        };
        for l in [0, len.max(1)] {
            self.ask(q.clone())?;
            let c = self.root_call(node, r, l);
            self.send_now(c)?;
        }
        self.ex.stats.probe("root_cut_and_restored");
        self.ask(q)
    }

    // ---- queries ----------------------------------------------------------------------------------------------

    fn query(&mut self, node: usize, who: Option<usize>) -> Res {
        let t = self.clock(node);
        let c = self.question(node, who, t);
        self.ask(c)
    }

    fn question(&mut self, node: usize, who: Option<usize>, t: u64) -> Call {
        let p = who.unwrap_or_else(|| self.rng.idx(self.ps.len()));
        let peer = if self.rng.chance(0.03) { self.strangers[0].peer.clone() } else { self.ps[p].peer.clone() };
        if self.rng.chance(self.cfg.from_bias) {
            let i = self.rng.idx(self.ps.len());
            let iss = if self.rng.chance(0.05) { self.strangers[1].peer.clone() } else { self.ps[i].peer.clone() };
            match self.rng.idx(5) {
                0 | 1 => self.mk(node, "get_weight_from", vec![json!(peer), json!(iss), json!(t)], ""),
                2 | 3 => self.mk(node, "get_all_certs_from", vec![json!(peer), json!(iss), json!(t)], ""),
                _ => self.mk(node, "get_host_certs_from", vec![json!(iss), json!(t)], ""),
            }
        } else {
            match self.rng.idx(10) {
                0..=3 => self.mk(node, "get_weight", vec![json!(peer), json!(t)], ""),
                4..=7 => self.mk(node, "get_all_certs", vec![json!(peer), json!(t)], ""),
                8 => self.mk(node, "get_host_certs", vec![json!(t)], ""),
                _ => self.mk(node, "export_revocations", vec![json!(peer)], ""),
            }
        }
    }

    fn ask(&mut self, c: Call) -> Res {
        let r = self.send_now(c)?;
        if let Some(Resp::Ok(v)) = r {
            for x in v.get("certificates").and_then(|x| x.as_array()).into_iter().flatten() {
                if self.exports.len() < 40 && !self.exports.contains(x) {
                    self.exports.push(x.clone());
                }
            }
            for x in v.get("revocations").and_then(|x| x.as_array()).into_iter().flatten() {
                if self.rev_exports.len() < 20 && !self.rev_exports.contains(x) {
                    self.rev_exports.push(x.clone());
                }
            }
        }
        Ok(())
    }

    // ---- hostile input ----------------------------------------------------------------------------------------

    fn forge(&mut self) -> Res {
        let node = self.rng.idx(self.n_hosts);
        if self.pool.is_empty() {
            return Ok(());
        }
        let real = self.rng.pick(&self.pool).clone();
        let mut s = real.clone();
        let kind = self.rng.idx(14);
        let note;
        let mut issuer = None;
        match kind {
            0 => {
                // someone else's signature under this issuer's name
                let other = self.rng.idx(self.ps.len());
                let d = if s.rev { revocation_digest(&self.ps[s.who].pk, s.at) } else { trust_digest(&self.ps[s.who].pk, s.exp, s.at) };
                s.sig = self.ps[other].sign(&d);
                if other == s.by {
                    return Ok(());
                }
                // same kind of signature as the issuer's key would make
                note = "forged: signed by another key";
            }
            1 => {
                s.exp = s.exp.saturating_add(self.rng.range(1, 1000));
                if s.rev {
                    s.at = s.at.saturating_add(1);
                }
                note = "forged: expiry changed";
            }
            2 => {
                s.at = if self.rng.chance(0.5) { s.at.saturating_add(self.rng.range(1, 5)) } else { s.at.saturating_sub(self.rng.range(1, 5)) };
                note = "forged: issue time changed";
            }
            3 => {
                s.who = self.rng.idx(self.ps.len());
                note = "forged: subject changed";
            }
            4 => {
                s.by = self.rng.idx(self.ps.len());
                note = "forged: issuer changed";
            }
            5 => {
                s.rev = !s.rev;
                if !s.rev {
                    s.exp = self.now + 1000;
                }
                note = "forged: kind changed";
            }
            6 => {
                let i = self.rng.idx(s.sig.len());
                s.sig[i] ^= 1 << self.rng.idx(8);
                note = "forged: signature bit flipped";
            }
            7 => {
                let other = self.rng.pick(&self.pool).clone();
                s.sig = other.sig;
                note = "forged: signature of another statement";
            }
            8 => {
                std::mem::swap(&mut s.at, &mut s.exp);
                note = "forged: times swapped";
            }
            10 => {
                s.exp ^= 1 << self.rng.idx(64);
                if s.rev {
                    s.at ^= 1 << self.rng.idx(32);
                }
                note = "forged: bit of the expiry flipped";
            }
            11 => {
                s.at ^= 1 << self.rng.idx(32);
                note = "forged: bit of the issue time flipped";
            }
            12 => {
                let extra = self.rng.range(1, 40);
                for _ in 0..extra {
                    let b = if self.rng.chance(0.5) { 0 } else { self.rng.u64() as u8 };
                    s.sig.push(b);
                }
                note = "forged: signature extended";
            }
            13 => {
                if self.rng.chance(0.5) {
                    let keep = self.rng.idx(s.sig.len());
                    s.sig.truncate(keep);
                    note = "forged: signature truncated";
                } else {
                    s.sig.iter_mut().for_each(|b| *b = 0);
                    note = "forged: signature zeroed";
                }
            }
            _ => {
                // a secp256k1-looking signature for an ed25519 issuer and the other way round
                let st = self.strangers[self.rng.idx(2)].clone();
                let d = if s.rev { revocation_digest(&self.ps[s.who].pk, s.at) } else { trust_digest(&self.ps[s.who].pk, s.exp, s.at) };
                s.sig = st.sign(&d);
                s.label = st.pk.alg.label().into();
                issuer = None::<usize>;
                note = "forged: stranger's signature";
            }
        }
        let _ = issuer;
        if self.rng.chance(0.2) {
            s.label = self.rng.pick(&["ed25519", "rsa", "secp256k1"]).to_string();
        }
        if !s.rev && self.rng.chance(0.3) {
            // hide the forgery inside a certificate
            let mut ch = self.known_chain();
            if !ch.is_empty() {
                let i = self.rng.idx(ch.len());
                if self.rng.chance(0.5) {
                    ch[i] = s;
                } else {
                    let j = self.rng.idx(ch[i].sig.len());
                    ch[i].sig[j] ^= 1;
                }
                let v = self.cert_value(&ch);
                let raw = self.rng.chance(0.5);
                let c = self.insert(node, v, raw, note);
                return self.post(c);
            }
        }
        if !s.rev && self.rng.chance(0.2) {
            let t = self.clock(node);
            let by = self.ps[s.by].peer.clone();
            let c = self.mk(node, "verify_trust", vec![self.dto(&s), json!(by), json!(t)], note);
            self.send_now(c)?;
            return Ok(());
        }
        let mut c = self.submit(node, &s, note);
        if self.rng.chance(0.4) {
            // sent by the very peer it is attributed to, or by the service's owner
            c.cp.init_peer_id = if self.rng.chance(0.7) { self.ps[s.by].peer.clone() } else { self.owner.peer.clone() };
        }
        self.post(c)?;
        if self.rng.chance(0.6) {
            self.query(node, Some(s.who))?;
        }
        Ok(())
    }

    /// some well-formed call, to be spoiled by the caller
    fn some_call(&mut self, node: usize) -> Call {
        let t = self.clock(node);
        let (by, who) = self.pick_pair();
        let p = self.ps[who].peer.clone();
        let q = self.ps[by].peer.clone();
        match self.rng.idx(13) {
            0 | 1 => {
                let (iat, exp) = (self.pick_iat((by, who)), self.now + 1000);
                let s = self.sign_trust(by, who, iat, exp);
                self.submit(node, &s, "")
            }
            2 | 3 => {
                let iat = self.pick_iat((by, who));
                let s = self.sign_rev(by, who, iat);
                self.submit(node, &s, "")
            }
            4 => {
                let iat = self.pick_iat((by, who));
                let s = self.sign_trust(by, who, iat, self.now + 500);
                let d = self.dto(&s);
                self.mk(node, "verify_trust", vec![d, json!(q), json!(t)], "")
            }
            5 => self.mk(node, "get_weight", vec![json!(p), json!(t)], ""),
            6 => self.mk(node, "get_all_certs", vec![json!(p), json!(t)], ""),
            7 => self.mk(node, "get_weight_from", vec![json!(p), json!(q), json!(t)], ""),
            8 => self.mk(node, "get_all_certs_from", vec![json!(p), json!(q), json!(t)], ""),
            9 => self.mk(node, "get_host_certs", vec![json!(t)], ""),
            10 => self.mk(node, "get_host_certs_from", vec![json!(q), json!(t)], ""),
            11 => {
                let ch = self.known_chain();
                let v = self.cert_value(&ch);
                let raw = self.rng.chance(0.5);
                self.insert(node, v, raw, "")
            }
            _ => self.mk(node, "export_revocations", vec![json!(p)], ""),
        }
    }

    fn bad_provenance(&mut self) -> Res {
        let node = self.rng.idx(self.n_hosts);
        let mut c = self.some_call(node);
        let Some(i) = ts_arg(&c.f) else { return Ok(()) };
        if c.f.starts_with("insert_cert") {
            return Ok(());
        }
        let good = c.cp.tetraplets[i][0].clone();
        let json_path = if self.rng.chance(0.4) { self.rng.pick(&[".$", ".$.[0]", ".$.timestamp_sec", "peer", ".$.result!"]).to_string() } else { String::new() };
        let lit = Tet { peer_pk: c.cp.init_peer_id.clone(), json_path: json_path.clone(), ..Default::default() };
        let other = self.strangers[0].peer.clone();
        let note = match self.rng.idx(12) {
            11 => {
                // another reading comes first, the genuine one after it
                let first = if self.rng.chance(0.5) { lit } else { Tet { peer_pk: other, ..good.clone() } };
                c.cp.tetraplets[i] = vec![first, good];
                "provenance: genuine only second"
            }
            0 => {
                c.cp.tetraplets[i] = vec![lit];
                "provenance: literal"
            }
            1 | 2 => {
                let k = self.rng.idx(self.ps.len());
                let peer_pk = match self.rng.idx(8) {
                    0 => self.owner.peer.clone(),
                    1 => c.cp.init_peer_id.clone(),
                    2 => self.ps[k].peer.clone(),
                    3 => String::new(),
                    4 => self.near(&good.peer_pk),
                    5 => c.cp.service_id.clone(),
                    6 => self.weird(),
                    _ => other,
                };
                c.cp.tetraplets[i] = vec![Tet { peer_pk, json_path, ..good }];
                "provenance: another peer's clock"
            }
            3 => {
                let service_id = match self.rng.idx(8) {
                    0 => String::new(),
                    1 => "Peer".into(),
                    2 => "peer ".into(),
                    3 => c.cp.service_id.clone(),
                    4 => "op".into(),
                    5 => self.weird(),
                    6 => "timestamp_sec".into(),
                    _ => "my_peer".into(),
                };
                c.cp.tetraplets[i] = vec![Tet { service_id, json_path, ..good }];
                "provenance: another service"
            }
            4 => {
                let function_name = match self.rng.idx(8) {
                    0 => String::new(),
                    1 => "Timestamp_sec".into(),
                    2 => "timestamp".into(),
                    3 => "timestamp_sec2".into(),
                    4 => "peer".into(),
                    5 => self.weird(),
                    6 => "identify".into(),
                    _ => "timestamp_ms".into(),
                };
                c.cp.tetraplets[i] = vec![Tet { function_name, json_path, ..good }];
                "provenance: another function"
            }
            5 => {
                c.cp.tetraplets[i] = vec![];
                if self.rng.chance(0.4) {
                    c.cp.tetraplets.push(vec![good]);
                }
                "provenance: none"
            }
            6 => {
                c.cp.tetraplets.truncate(i);
                if self.rng.chance(0.4) {
                    c.cp.tetraplets.iter_mut().for_each(|t| *t = vec![good.clone()]);
                }
                "provenance: missing"
            }
            7 => {
                c.cp.tetraplets[i] = vec![Tet::default()];
                "provenance: empty"
            }
            8 => {
                // genuine readings next to the argument list or for one other argument only
                c.cp.tetraplets[i] = vec![lit.clone(), lit];
                if self.rng.chance(0.5) {
                    c.cp.tetraplets.push(vec![good]);
                } else if i > 0 {
                    c.cp.tetraplets[i - 1] = vec![good];
                }
                "provenance: of another argument"
            }
            _ => {
                // a genuine clock reading, but for another argument
                for (j, t) in c.cp.tetraplets.iter_mut().enumerate() {
                    *t = vec![if j == i { lit.clone() } else { good.clone() }];
                }
                "provenance: of another argument"
            }
        };
        c.note = note.into();
        if self.rng.chance(0.6) {
            // lie about the time as well
            c.args[i] = json!(*self.rng.pick(&[0, 1, self.now.saturating_sub(1000), self.now + 100_000, u64::MAX, self.now + 60]));
        }
        let who = self.touched(&c);
        self.send_now(c)?;
        if self.rng.chance(0.7) {
            self.query(node, who)?;
        }
        Ok(())
    }

    fn future(&mut self) -> Res {
        let node = self.rng.idx(self.n_hosts);
        let (by, who) = self.pick_pair();
        let t = self.clock(node);
        let iat = t.saturating_add(*self.rng.pick(&[1, 1, 2, 30, 100_000]));
        let s = if self.rng.chance(0.5) {
            let exp = iat.saturating_add(1000);
            self.sign_trust(by, who, iat, exp)
        } else {
            self.sign_rev(by, who, iat)
        };
        let mut c = self.submit(node, &s, "dated ahead");
        let i = ts_arg(&c.f).unwrap();
        c.args[i] = json!(t);
        self.send_now(c)?;
        if self.rng.chance(0.7) {
            self.query(node, Some(who))?;
        }
        Ok(())
    }

    /// a string almost like this one
    fn near(&mut self, t: &str) -> String {
        let mut c: Vec<char> = t.chars().collect();
        let i = self.rng.idx(c.len().max(1)).min(c.len().saturating_sub(1));
        match self.rng.idx(7) {
            0 => {
                c.pop();
            }
            1 => c.push('1'),
            2 => c.push(' '),
            3 => c.insert(0, ' '),
            4 if !c.is_empty() => c[i] = if c[i] == 'z' { 'y' } else { 'z' },
            5 => c.truncate(8),
            _ => return t.to_lowercase(),
        }
        c.into_iter().collect()
    }

    /// text that upsets whoever cuts, indexes or parses it carelessly
    fn weird(&mut self) -> String {
        let wide = *self.rng.pick(&["ü", "€", "😀", "\u{301}"]);
        let pad = "a".repeat(self.rng.idx(5));
        match self.rng.idx(8) {
            0 => String::new(),
            1 => wide.into(),
            2 => "\0".repeat(1 + self.rng.idx(70)),
            3 => " ".repeat(1 + self.rng.idx(5)),
            4 => {
                let n = self.rng.idx(90);
                format!("{}{}", "1".repeat(n), wide)
            }
            5 => {
                let n = self.rng.idx(120);
                (0..n).map(|_| *self.rng.pick(&['1', 'z', 'Q', 'm', '\n', '%', '{', '}', '"', '\'', ';', '\\', 'é'])).collect()
            }
            _ => {
                let n = 1 + self.rng.idx(420);
                format!("{pad}{}", wide.repeat(n))
            }
        }
    }

    /// base58 that decodes to something
    fn junk58(&mut self) -> String {
        let n = self.rng.idx(80);
        let mut b: Vec<u8> = (0..n).map(|_| self.rng.below(256) as u8).collect();
        if !b.is_empty() && self.rng.chance(0.7) {
            b[0] = self.rng.below(4) as u8;
        }
        bs58::encode(b).into_string()
    }

    fn bad_peer(&mut self) -> String {
        match self.rng.idx(5) {
            0 => return self.weird(),
            1 => {
                let n = self.rng.idx(48);
                // multihash headers with a body of some other length or content
                let mut b = vec![*self.rng.pick(&[0u8, 0x12, 0x11, 0x13]), *self.rng.pick(&[n as u8, 32, 36, 37, 0])];
                b.extend([8u8, *self.rng.pick(&[0u8, 1, 2, 3, 9]), 0x12, *self.rng.pick(&[32u8, 33, 0, n as u8])]);
                b.extend((0..n).map(|_| self.rng.below(256) as u8));
                return bs58::encode(b).into_string();
            }
            2 if self.rng.chance(0.3) => return self.junk58(),
            _ => {}
        }
        let i = self.rng.idx(self.ps.len());
        let good = self.ps[i].peer.clone();
        match self.rng.idx(12) {
            0 => String::new(),
            1 => "abc".into(),
            2 => good[..good.len() - 1].into(),
            3 => format!("{good}1"),
            4 => format!(" {good}"),
            5 => "QmYyQSo1c1Ym7orWxLYvCrM2EmxFTANf8wXmmE7DWjhx5N".into(),
            6 => "0OIl0OIl".into(),
            7 => "ü".repeat(40),
            8 => good.repeat(200),
            9 => "1".into(),
            10 => format!("{good}\0"),
            _ => good.chars().rev().collect(),
        }
    }
    fn bad_sig(&mut self, sig: &str) -> String {
        match self.rng.idx(13) {
            10 | 11 => {
                // a genuine signature with something before or after it
                let mut b = bs58::decode(sig).into_vec().unwrap_or_default();
                let at = if self.rng.chance(0.7) { b.len() } else { 0 };
                for _ in 0..self.rng.range(1, 9) {
                    b.insert(at, if self.rng.chance(0.5) { 0 } else { self.rng.below(256) as u8 });
                }
                bs58::encode(b).into_string()
            }
            12 => {
                let mut b = bs58::decode(sig).into_vec().unwrap_or_default();
                for _ in 0..self.rng.range(1, 3) {
                    b.pop();
                }
                bs58::encode(b).into_string()
            }
            7 => self.weird(),
            8 => self.junk58(),
            9 => self.near(sig),
            0 => String::new(),
            1 => "0".into(),
            2 => sig[..sig.len() / 2].into(),
            3 => format!("{sig}{sig}"),
            4 => "1".into(),
            5 => "not base58 !".into(),
            _ => "z".repeat(3000),
        }
    }

    fn spoil_trust(&mut self, v: &mut Value) {
        match self.rng.idx(4) {
            0 | 1 => v["issued_for"] = json!(self.bad_peer()),
            2 => {
                let s = v["signature"].as_str().unwrap_or("11").to_string();
                v["signature"] = json!(self.bad_sig(&s));
            }
            _ if self.rng.chance(0.4) => v["sig_type"] = json!(self.weird()),
            _ => v["sig_type"] = json!(*self.rng.pick(&["", "Ed25519", "ed25519 ", "bls", "secp256k1\n", "0"])),
        }
    }

    /// signature bytes of any length
    fn odd_bytes(&mut self) -> Value {
        let n = *self.rng.pick(&[0usize, 0, 1, 3, 32, 63, 64, 65, 70, 72, 73, 144, 300]);
        let mut b: Vec<u8> = (0..n).map(|_| self.rng.below(256) as u8).collect();
        if n > 60 && self.rng.chance(0.4) {
            b[0] = 0x30;
            b[1] = n as u8 - 2 + (n > 256) as u8;
        }
        json!(b)
    }

    fn malformed(&mut self) -> Res {
        let node = self.rng.idx(self.n_hosts);
        let mut c = if self.rng.chance(0.25) {
            let p = json!(self.bad_peer());
            match self.rng.idx(5) {
                0 => {
                    let l = self.rng.below(20);
                    self.mk(node, "set_root", vec![p, json!(l)], "")
                }
                1 => self.mk(node, "get_trust_bytes", vec![p, json!(1), json!(2)], ""),
                2 => {
                    let b = self.odd_bytes();
                    let p = if self.rng.chance(0.6) { json!(self.rng.pick(&self.ps).peer) } else { p };
                    self.mk(node, "issue_trust", vec![p, json!(1), json!(2), b], "")
                }
                3 => self.mk(node, "get_revocation_bytes", vec![p, json!(7)], ""),
                _ => {
                    let g = json!(self.ps[0].peer);
                    let p = if self.rng.chance(0.4) { json!(self.rng.pick(&self.ps).peer) } else { p };
                    let (a, b) = if self.rng.chance(0.5) { (p, g) } else { (g, p) };
                    let sig = self.odd_bytes();
                    self.mk(node, "issue_revocation", vec![a, b, json!(9), sig], "")
                }
            }
        } else {
            let mut c = self.some_call(node);
            match c.f.as_str() {
                "add_trust" | "verify_trust" => {
                    let mut v = c.args[0].clone();
                    if self.rng.chance(0.25) {
                        c.args[1] = json!(self.bad_peer());
                    } else {
                        self.spoil_trust(&mut v);
                        c.args[0] = v;
                    }
                }
                "revoke" => {
                    let mut v = c.args[0].clone();
                    match self.rng.idx(4) {
                        0 => v["revoked_peer_id"] = json!(self.bad_peer()),
                        1 => v["revoked_by"] = json!(self.bad_peer()),
                        2 => {
                            let s = v["signature"].as_str().unwrap_or("11").to_string();
                            v["signature"] = json!(self.bad_sig(&s));
                        }
                        _ if self.rng.chance(0.4) => v["sig_type"] = json!(self.weird()),
                        _ => v["sig_type"] = json!(*self.rng.pick(&["", "ED25519", "none"])),
                    }
                    c.args[0] = v;
                }
                "insert_cert" => {
                    let mut v = c.args[0].clone();
                    let n = v["chain"].as_array().map(|a| a.len()).unwrap_or(0);
                    if n == 0 || self.rng.chance(0.15) {
                        v["chain"] = json!([]);
                    } else {
                        let i = self.rng.idx(n);
                        let mut t = v["chain"][i].clone();
                        self.spoil_trust(&mut t);
                        v["chain"][i] = t;
                    }
                    c.args[0] = v;
                }
                "insert_cert_raw" => {
                    let t = c.args[0].as_str().unwrap_or("").to_string();
                    c.args[0] = json!(self.bad_text(&t));
                }
                "get_host_certs" => return Ok(()),
                "get_host_certs_from" => c.args[0] = json!(self.bad_peer()),
                "get_weight_from" | "get_all_certs_from" => {
                    let i = self.rng.idx(2);
                    c.args[i] = json!(self.bad_peer());
                }
                _ => c.args[0] = json!(self.bad_peer()),
            }
            c
        };
        c.note = "malformed".into();
        self.send_now(c)?;
        if self.rng.chance(0.5) {
            self.query(node, None)?;
        }
        Ok(())
    }

    fn bad_text(&mut self, t: &str) -> String {
        let mut l: Vec<String> = t.lines().map(|x| x.to_string()).collect();
        match self.rng.idx(14) {
            12 => self.weird(),
            13 => {
                if l.is_empty() {
                    return self.weird();
                }
                let i = self.rng.idx(l.len());
                if i < 2 {
                    // the two header lines are ignored today
                    return format!("{}\n{}", t, self.weird().replace(['\n', '\r'], "x"));
                }
                l[i] = match self.rng.idx(3) {
                    0 => self.weird().replace(['\n', '\r'], "x"),
                    1 => self.junk58(),
                    _ => format!("{}{}", l[i], self.rng.pick(&["€", "0", " ", "."])),
                };
                l.join("\n")
            }
            0 => String::new(),
            1 => "11".into(),
            2 => "11\n1111".into(),
            3 => "\n".into(),
            4 => {
                l.pop();
                l.join("\n")
            }
            5 => {
                l.push("junk".into());
                l.join("\n")
            }
            6 => t.chars().take(t.len() / 2).collect(),
            _ => {
                if l.len() < 6 {
                    return "11\n1111\n\n\n\n".into();
                }
                let i = 2 + self.rng.idx(l.len() - 2);
                l[i] = match (i - 2) % 4 {
                    0 => self.rng.pick(&["", "1", "0", "z", "Qm", "11111111111111111111111111111111111"]).to_string(),
                    1 => self.rng.pick(&["", "z", "0", "3", "11"]).to_string(),
                    _ if self.rng.chance(0.4) => {
                        let n = self.rng.idx(48);
                        format!("{}{}", "9".repeat(n), self.rng.pick(&["€", "ü", "😀", "é7", "-", "_0", "e3"]))
                    }
                    _ => self.rng.pick(&["", "-1", "abc", "99999999999999999999999", "1.5", " 7", "-0", "0x10", "18446744073709551616", "1e3", "1_000", "٣"]).to_string(),
                };
                l.join("\n")
            }
        }
    }

    // ---- moving statements between nodes ----------------------------------------------------------------------

    fn transfer(&mut self) -> Res {
        let from = self.rng.idx(self.n_hosts);
        let to = self.rng.idx(self.n_hosts);
        if self.rng.chance(0.6) || self.exports.is_empty() {
            let p = self.rng.idx(self.ps.len());
            let t = self.clock(from);
            let peer = self.ps[p].peer.clone();
            let c = self.mk(from, "get_all_certs", vec![json!(peer), json!(t)], "export");
            self.ask(c)?;
            let c = self.mk(from, "export_revocations", vec![json!(peer)], "export");
            self.ask(c)?;
        }
        if !self.exports.is_empty() && self.rng.chance(0.8) {
            let v = self.rng.pick(&self.exports).clone();
            let raw = self.rng.chance(0.5);
            let c = self.insert(to, v.clone(), raw, "import");
            self.post(c)?;
            if self.rng.chance(0.5) {
                let p = v["chain"].as_array().and_then(|a| a.last()).and_then(|x| x["issued_for"].as_str()).unwrap_or("").to_string();
                let t = self.clock(to);
                let c = self.mk(to, "get_all_certs", vec![json!(p), json!(t)], "");
                self.ask(c)?;
            }
        }
        if !self.rev_exports.is_empty() && self.rng.chance(0.6) {
            let v = self.rng.pick(&self.rev_exports).clone();
            let t = self.clock(to);
            let c = self.mk(to, "revoke", vec![v, json!(t)], "import");
            self.post(c)?;
        }
        Ok(())
    }

    fn issue_flow(&mut self) -> Res {
        let node = self.rng.idx(self.n_hosts);
        let (by, who) = self.pick_pair();
        let at = self.pick_iat((by, who));
        let p = self.ps[who].peer.clone();
        let q = self.ps[by].peer.clone();
        if self.rng.chance(0.7) {
            let exp = self.pick_exp();
            let c = self.mk(node, "get_trust_bytes", vec![json!(p), json!(exp), json!(at)], "");
            let Some(Resp::Ok(v)) = self.send_now(c)? else { return Ok(()) };
            if success(&Resp::Ok(v.clone())) != Some(true) {
                return Ok(());
            }
            let sig = self.ps[by].sign(&crate::model::bytes(&v["result"]));
            self.pool.push(Stmt { rev: false, by, who, at, exp, sig: sig.clone(), label: self.ps[by].pk.alg.label().into() });
            let c = self.mk(node, "issue_trust", vec![json!(p), json!(exp), json!(at), json!(sig)], "");
            let Some(Resp::Ok(v)) = self.send_now(c)? else { return Ok(()) };
            let d = v["trust"].clone();
            if success(&Resp::Ok(v.clone())) != Some(true) {
                return Ok(());
            }
            let t = self.clock(node);
            let c = self.mk(node, "verify_trust", vec![d.clone(), json!(q), json!(t)], "");
            self.send_now(c)?;
            for to in self.targets() {
                let t = self.clock(to);
                let c = self.mk(to, "add_trust", vec![d.clone(), json!(q), json!(t)], "issued");
                self.post(c)?;
            }
        } else {
            let c = self.mk(node, "get_revocation_bytes", vec![json!(p), json!(at)], "");
            let Some(Resp::Ok(v)) = self.send_now(c)? else { return Ok(()) };
            if success(&Resp::Ok(v.clone())) != Some(true) {
                return Ok(());
            }
            let sig = self.ps[by].sign(&crate::model::bytes(&v["result"]));
            self.pool.push(Stmt { rev: true, by, who, at, exp: 0, sig: sig.clone(), label: self.ps[by].pk.alg.label().into() });
            let c = self.mk(node, "issue_revocation", vec![json!(q), json!(p), json!(at), json!(sig)], "");
            let Some(Resp::Ok(v)) = self.send_now(c)? else { return Ok(()) };
            if success(&Resp::Ok(v.clone())) != Some(true) {
                return Ok(());
            }
            let d = v["revocation"].clone();
            for to in self.targets() {
                let t = self.clock(to);
                let c = self.mk(to, "revoke", vec![d.clone(), json!(t)], "issued");
                self.post(c)?;
            }
        }
        Ok(())
    }

    /// a root's own trust and a few links below it, delivered in order
    /// the statements of a world with a given shape, in an order in which each issuer has standing when it is its turn
    fn populate(&mut self) -> Res {
        let t = self.ps.len() - 1;
        let mut waves: Vec<Vec<(usize, usize)>> = vec![];
        match self.shape {
            Shape::Star(n) => {
                waves.push((1..=n).map(|i| (0, i)).collect());
                waves.push((1..=n).map(|i| (i, t)).collect());
            }
            Shape::Layers(a, b, c) => {
                waves.push((1..=a).map(|i| (0, i)).collect());
                waves.push((1..=a).flat_map(|i| (a + 1..=a + b).map(move |j| (i, j))).collect());
                waves.push((a + 1..=a + b).flat_map(|i| (a + b + 1..=a + b + c).map(move |j| (i, j))).collect());
                let last = if c > 0 { a + b + 1..=a + b + c } else { a + 1..=a + b };
                waves.push(last.map(|j| (j, t)).collect());
            }
            Shape::Roots(n) => waves.push((0..n).map(|i| (i, t)).collect()),
            Shape::Revokers(n) => {
                waves.push(vec![(0, 1)]);
                waves.push((2..=n).map(|i| (1, i)).chain([(1, t)]).collect());
            }
            Shape::Feud(a, b) => {
                waves.push((a..a + b).map(|i| (0, i)).collect());
                for i in 1..a {
                    waves.push(vec![(i - 1, i)]);
                }
                waves.push(vec![(a - 1, t)]);
                // some ways around
                waves.push((0..self.rng.idx(3)).map(|_| (a + self.rng.idx(b), *self.rng.pick(&[1, a - 1, t]))).collect());
            }
            Shape::Free => {}
        }
        self.ex.stats.probe("shaped_world");
        let node = self.rng.idx(self.n_hosts);
        if !self.cfg.heal && !self.roots.iter().all(|r| self.edges().contains(&(*r, *r))) {
            for r in self.roots.clone() {
                let s = self.sign_trust(r, r, self.now - 40, u64::MAX);
                let c = self.submit(node, &s, "");
                self.deliver(c)?;
            }
        }
        for mut w in waves {
            self.rng.shuffle(&mut w);
            for (by, who) in w {
                let at = if self.cfg.heal { self.pick_iat((by, who)) } else { self.now - self.rng.below(30) };
                let exp = if self.rng.chance(0.9) { self.now + self.rng.range(1000, 100_000) } else { self.pick_exp() };
                let s = self.sign_trust(by, who, at, exp);
                let c = self.submit(node, &s, "");
                self.deliver(c)?;
            }
        }
        let revoked = match self.shape {
            Shape::Revokers(n) => n,
            Shape::Star(_) | Shape::Layers(..) if self.rng.chance(0.5) => self.rng.idx(4),
            _ => 0,
        };
        if let Shape::Feud(a, b) = self.shape {
            let member = |g: &mut Self, from: usize| if g.rng.chance(0.25) { t } else { from + g.rng.idx(a - from) };
            let mut revs: Vec<(usize, usize)> = vec![];
            for i in a..a + b {
                for _ in 0..self.rng.range(1, 3) {
                    let who = member(self, 0);
                    revs.push((i, who));
                }
            }
            for _ in 0..self.rng.range(0, 2) {
                let by = self.rng.idx(a - 1);
                let who = member(self, by + 1);
                revs.push((by, who));
            }
            self.rng.shuffle(&mut revs);
            for (by, who) in revs {
                let at = if self.cfg.heal { self.pick_iat((by, who)) } else { self.now - self.rng.below(30) };
                let s = self.sign_rev(by, who, at);
                let c = self.submit(node, &s, "");
                self.deliver(c)?;
            }
        }
        for i in 0..revoked {
            let by = if let Shape::Revokers(_) = self.shape { i } else { self.rng.idx(t) };
            let at = if self.cfg.heal { self.pick_iat((by, t)) } else { self.now - self.rng.below(30) };
            let s = self.sign_rev(by, t, at);
            let c = self.submit(node, &s, "");
            self.deliver(c)?;
        }
        self.query(node, Some(t))
    }

    fn sweep(&mut self) -> Res {
        let node = self.rng.idx(self.n_hosts);
        let crash = self.cfg.crash > self.cfg.fault;
        let mut c = if crash || self.rng.chance(0.4) {
            match self.rng.idx(6) {
                0 => {
                    let (r, l) = (*self.rng.pick(&self.roots.clone()), *self.rng.pick(&self.lens.clone()));
                    self.root_call(node, r, l)
                }
                1 => {
                    let ch = self.known_chain();
                    if ch.is_empty() {
                        return Ok(());
                    }
                    let v = self.cert_value(&ch);
                    self.insert(node, v, false, "")
                }
                k => {
                    let pair = self.pick_pair();
                    let at = self.now.saturating_sub(self.rng.below(6));
                    let exp = self.now + self.rng.range(100, 5000);
                    let s = if k < 4 { self.sign_trust(pair.0, pair.1, at, exp) } else { self.sign_rev(pair.0, pair.1, at) };
                    self.submit(node, &s, "")
                }
            }
        } else {
            // about someone whose standing depends on revocations, if there is one
            let who: Vec<usize> = self.pool.iter().filter(|s| s.rev).map(|s| s.who).collect();
            let who = if !who.is_empty() && self.rng.chance(0.6) { Some(*self.rng.pick(&who)) } else { None };
            let t = self.clock(node);
            self.question(node, who, t)
        };
        let t = self.clock(node);
        if let Some(i) = ts_arg(&c.f) {
            c.args[i] = json!(t);
        }
        c.note = "sweep".into();
        let mut fault = self.fault(&c.f.clone());
        fault.span = *self.rng.pick(&[1, 1, 3]);
        let limit = if crash { 30 } else { 70 };
        let stride = *self.rng.pick(&[1u32, 1, 2]);
        let mut at = 0;
        while at < limit {
            let mut f = fault.clone();
            if crash {
                f = Fault { seam: Seam::Vfs, kind: FKind::Crash { power: self.rng.chance(0.6), seed: self.rng.u64() >> 12 }, at: 0, span: 1 };
            }
            f.at = at;
            let mut d = c.clone();
            d.faults = vec![f];
            self.emit(Ev::Call(d))?;
            if !(self.ex.last_faulty || self.ex.last_cut) {
                break;
            }
            at += stride;
        }
        self.ex.stats.probe("swept_a_call");
        let who = self.touched(&c);
        self.query(node, who)
    }

    fn chain(&mut self) -> Res {
        let r = *self.rng.pick(&self.roots.clone());
        let len = if self.line { self.rng.range(10, self.ps.len() as u64 - 1) as usize } else { self.rng.range(1, self.ps.len() as u64) as usize };
        let mut order: Vec<usize> = (0..self.ps.len()).filter(|x| *x != r).collect();
        if !self.line {
            self.rng.shuffle(&mut order);
        }
        let mut links = vec![(r, r)];
        let mut cur = r;
        for &x in order.iter().take(len) {
            links.push((cur, x));
            cur = x;
        }
        let known = self.edges();
        let mut chain = vec![];
        for (by, who) in links {
            if !known.contains(&(by, who)) && self.edges().len() >= self.max_edges {
                break;
            }
            let at = if self.rng.chance(0.7) && !self.cfg.heal { self.now.saturating_sub(20) } else { self.pick_iat((by, who)) };
            let exp = if self.rng.chance(0.75) { self.now + self.rng.range(1000, 5000) } else { self.pick_exp() };
            chain.push(self.sign_trust(by, who, at, exp));
        }
        let node = self.rng.idx(self.n_hosts);
        if self.rng.chance(0.4) {
            let v = self.cert_value(&chain);
            let raw = self.rng.chance(0.5);
            let c = self.insert(node, v, raw, "");
            self.post(c)
        } else {
            for s in chain {
                let c = self.submit(node, &s, "");
                self.deliver(c)?;
            }
            Ok(())
        }
    }

    // ---- main loop --------------------------------------------------------------------------------------------

    fn act(&mut self) -> Act {
        let w = &self.cfg.w;
        let t = [
            (w.trust, Act::Trust), (w.revoke, Act::Revoke), (w.cert, Act::Cert), (w.query, Act::Query), (w.root, Act::Root),
            (w.replay, Act::Replay), (w.forge, Act::Forge), (w.badprov, Act::BadProv), (w.malformed, Act::Malformed),
            (w.transfer, Act::Transfer), (w.issue, Act::Issue), (w.crash, Act::Crash), (w.nonowner, Act::NonOwner),
            (w.clock, Act::Clock), (w.partition, Act::Partition), (w.boundary, Act::Boundary), (w.chain, Act::Chain),
            (w.future, Act::Future), (w.sweep, Act::Sweep),
        ];
        self.rng.weighted(&t)
    }

    /// A node gets the package, again and again, through crashes, storage faults and the years.
    fn deployment(&mut self) -> Res {
        let pk = crate::deploy::package();
        let peers: Vec<String> = pk.certs.iter().flat_map(|c| c["chain"].as_array().cloned().unwrap_or_default()).filter_map(|t| t["issued_for"].as_str().map(String::from)).collect();
        let times = |k: &str| -> Vec<u64> { pk.certs.iter().flat_map(|c| c["chain"].as_array().cloned().unwrap_or_default()).filter_map(|t| t[k].as_u64()).collect() };
        let (iat, exp) = (times("issued_at"), times("expires_at"));
        let (first, end) = (iat.iter().min().copied().unwrap_or(0), exp.iter().min().copied().unwrap_or(u64::MAX));
        self.now = match self.rng.idx(5) {
            0 => first.saturating_sub(self.rng.below(1000)),
            1 => first,
            2 => end.saturating_sub(self.rng.range(1, 300)),
            _ => self.rng.range(first, end),
        };
        self.start = self.now;
        self.skew.iter_mut().for_each(|s| *s = 0);
        // the owner of the service, and sometimes the host, are peers of the package
        let owner = self.owner.peer.clone();
        let hosts: Vec<String> = (0..self.n_hosts).map(|n| if self.rng.chance(0.7) { self.rng.pick(&peers).clone() } else { self.host(n).to_string() }).collect();
        let steps = self.rng.range(self.cfg.steps.0, self.cfg.steps.1);
        for step in 0..steps {
            self.now += *self.rng.pick(&[0, 1, 3, 60]);
            if self.rng.chance(0.06) {
                self.now += self.rng.range(1000, 10_000_000);
            }
            if self.rng.chance(0.03) {
                self.now = self.now.max((end + self.rng.below(3)).saturating_sub(1));
            }
            let node = self.rng.idx(self.n_hosts);
            let a = if step == 0 { 0 } else { self.rng.idx(12) };
            match a {
                0..=3 => {
                    let script = self.rng.chance(0.7);
                    let mut faults = vec![];
                    let mut stop = None;
                    if self.rng.chance(0.5) {
                        match self.rng.idx(4) {
                            0 => stop = Some(self.rng.below(14) as u32),
                            1 | 2 => {
                                let k = self.rng.below(14) as u32;
                                let n = self.ex.sizes.get(if k == 0 { "set_root" } else { "insert_cert" }).map(|s| s.1).unwrap_or(12).max(1) as u64;
                                faults.push((k, Fault { seam: Seam::Vfs, kind: FKind::Crash { power: self.rng.chance(0.6), seed: self.rng.u64() >> 12 }, at: self.rng.below(n + 1) as u32, span: 1 }));
                            }
                            _ => {
                                for _ in 0..self.rng.range(1, 2) {
                                    let k = self.rng.below(14) as u32;
                                    let f = self.fault(if k == 0 { "set_root" } else { "insert_cert" });
                                    faults.push((k, f));
                                }
                            }
                        }
                    }
                    let pace = *self.rng.pick(&[0, 0, 1, 5]);
                    self.emit(Ev::Install { node, ts: self.now, pace, owner: owner.clone(), host: hosts[node].clone(), script, faults, stop })?;
                    self.now += pace * 13;
                }
                4 | 5 => {
                    self.emit(Ev::Inspect { node, ts: self.now, owner: owner.clone() })?;
                }
                6 => {
                    let (power, seed) = (self.rng.chance(0.6), self.rng.u64() >> 12);
                    self.emit(Ev::Crash { node, power, seed })?;
                }
                7 => {
                    // the owner (or somebody) configures roots: his own, or the package's
                    let p = if self.rng.chance(0.5) { pk.root.clone() } else { let r = self.rng.idx(self.ps.len()); self.ps[r].peer.clone() };
                    let len = self.rng.below(18);
                    let mut c = self.mk(node, "set_root", vec![json!(p), json!(len)], "");
                    if self.rng.chance(0.4) {
                        c.cp.init_peer_id = self.strangers[0].peer.clone();
                        c.note = "not the owner".into();
                        self.emit(Ev::Call(c))?;
                    } else {
                        self.send_now(c)?;
                    }
                }
                8 | 9 => {
                    // other business on the same node
                    let r = self.roots[0];
                    let c = self.root_call(node, r, 4);
                    self.send_now(c)?;
                    let t = self.now;
                    let s = self.sign_trust(r, r, t, t + 10_000);
                    self.spread(&s, "")?;
                    let w = self.rng.idx(self.ps.len());
                    let s = if self.rng.chance(0.7) { self.sign_trust(r, w, t, t + 10_000) } else { self.sign_rev(r, w, t) };
                    self.spread(&s, "")?;
                }
                _ => {
                    let p = self.rng.pick(&peers).clone();
                    let q = self.rng.pick(&peers).clone();
                    let t = self.now;
                    let c = match self.rng.idx(5) {
                        0 => self.mk(node, "get_weight", vec![json!(p), json!(t)], ""),
                        1 => self.mk(node, "get_all_certs", vec![json!(p), json!(t)], ""),
                        2 => self.mk(node, "get_weight_from", vec![json!(p), json!(q), json!(t)], ""),
                        3 => self.mk(node, "export_revocations", vec![json!(p)], ""),
                        _ => {
                            // a packaged certificate with one thing changed
                            let mut v = self.rng.pick(&pk.certs).clone();
                            let n = v["chain"].as_array().map(|c| c.len()).unwrap_or(0);
                            if n > 0 {
                                let i = self.rng.idx(n);
                                match self.rng.idx(3) {
                                    0 => v["chain"][i]["expires_at"] = json!(end + 1000),
                                    1 => v["chain"][i]["issued_for"] = json!(self.ps[0].peer),
                                    _ => v["chain"][i]["issued_at"] = json!(t),
                                }
                            }
                            self.mk(node, "insert_cert", vec![v, json!(t)], "forged: packaged certificate changed")
                        }
                    };
                    self.send_now(c)?;
                }
            }
            if self.ex.stats.blind {
                return Ok(());
            }
        }
        // faults stop: one undisturbed start is enough
        self.cfg.fault = 0.0;
        self.cfg.crash = 0.0;
        self.now += self.max_delay + 1;
        self.pump()?;
        for node in 0..self.n_hosts {
            let script = self.rng.chance(0.7);
            self.emit(Ev::Install { node, ts: self.now, pace: 1, owner: owner.clone(), host: hosts[node].clone(), script, faults: vec![], stop: None })?;
            self.now += 13;
            self.emit(Ev::Inspect { node, ts: self.now, owner: owner.clone() })?;
            if self.rng.chance(0.5) {
                let seed = self.rng.u64() >> 12;
                self.emit(Ev::Crash { node, power: true, seed })?;
                self.emit(Ev::Inspect { node, ts: self.now, owner: owner.clone() })?;
            }
        }
        self.ex.stats.sim_secs = self.now - self.start;
        Ok(())
    }

    /// a client runs a published function, through some relay
    fn particle(&mut self, f: &str, args: Vec<Value>, at: Option<usize>, init: Option<String>, calm: bool) -> Res {
        let hosts: Vec<String> = (0..self.n_hosts).map(|i| self.host(i).to_string()).collect();
        let init = init.unwrap_or_else(|| match self.rng.idx(3) {
            0 => self.owner.peer.clone(),
            1 => self.strangers[0].peer.clone(),
            _ => {
                let k = self.rng.range(self.n_hosts as u64, self.ps.len() as u64 - 1) as usize;
                self.ps[k].peer.clone()
            }
        });
        let mut clocks: Vec<u64> = (0..self.n_hosts).map(|i| self.now.saturating_add_signed(self.skew[i])).collect();
        clocks.push(self.now.saturating_sub(self.rng.below(100)));
        let mut keys: Vec<(String, String)> = self.ps.iter().map(|k| k.hex()).collect();
        keys.push(self.owner.hex());
        let mut p = crate::flow::Particle {
            f: f.into(), args, init, at, relay: self.rng.idx(self.n_hosts), hosts, owner: self.owner.peer.clone(), clocks,
            pace: *self.rng.pick(&[0, 0, 0, 1, 3]), keys, declines: false, lose: None, faults: vec![],
        };
        if !calm {
            p.declines = self.rng.chance(0.06);
            if self.rng.chance(0.08) {
                p.lose = Some(self.rng.below(6) as u32);
            }
            // the calls that reach the storage
            let k = match f {
                "add_trust" | "revoke" => 2,
                "add_root_trust" => self.rng.range(2, 3) as u32,
                _ => 0,
            };
            if self.rng.chance(self.cfg.crash) {
                p.faults.push((k, Fault { seam: Seam::Vfs, kind: FKind::Crash { power: self.rng.chance(0.6), seed: self.rng.u64() >> 12 }, at: self.rng.below(14) as u32, span: 1 }));
            } else if self.rng.chance(self.cfg.fault) {
                let g = match f {
                    "import_trust" => "add_trust",
                    "import_revocation" => "revoke",
                    "add_root_trust" if k == 2 => "set_root",
                    "add_root_trust" => "add_trust",
                    "isFluencePeer" => "get_host_certs_from",
                    x => x,
                };
                let x = self.fault(g);
                p.faults.push((k, x));
            }
        }
        self.now += p.pace * 3;
        self.emit(Ev::Aqua(p))?;
        Ok(())
    }

    /// clients that know the published functions only
    fn clients(&mut self) -> Res {
        let n = self.ps.len();
        if self.rng.chance(0.15) {
            // nodes of the packaged network
            let pk = crate::deploy::package();
            let links: Vec<Value> = pk.certs.iter().flat_map(|c| c["chain"].as_array().cloned().unwrap_or_default()).collect();
            let first = links.iter().filter_map(|t| t["issued_at"].as_u64()).max().unwrap_or(0);
            let end = links.iter().filter_map(|t| t["expires_at"].as_u64()).min().unwrap_or(u64::MAX);
            self.now = self.rng.range(first, end.max(first + 1) - 1);
            self.start = self.now;
            let mut peers: Vec<String> = pk.certs.iter().filter_map(|c| c["chain"].as_array()?.last()?["issued_for"].as_str().map(String::from)).collect();
            peers.sort();
            peers.dedup();
            self.rng.shuffle(&mut peers);
            if peers.len() >= self.n_hosts {
                self.alias = peers[..self.n_hosts].to_vec();
                for node in 0..self.n_hosts {
                    let (owner, host) = (self.owner.peer.clone(), self.alias[node].clone());
                    let script = self.rng.chance(0.5);
                    self.emit(Ev::Install { node, ts: self.now, pace: 0, owner, host, script, faults: vec![], stop: None })?;
                    self.particle("isFluencePeer", vec![], Some(node), None, false)?;
                }
            }
        }
        for i in 0..self.roots.len() {
            let r = self.roots[i];
            for node in 0..self.n_hosts {
                let to = self.host(node).to_string();
                let len = *self.rng.pick(&[0u64, 1, 2, 3, 4, 4, 10, 16, 17, u32::MAX as u64]);
                let exp = if self.rng.chance(0.6) { u64::MAX } else { self.now + self.rng.range(100, 100_000) };
                let o = self.owner.peer.clone();
                let calm = self.rng.chance(0.6);
                self.particle("add_root_trust", vec![json!(to), json!(self.ps[r].peer), json!(len), json!(exp)], None, Some(o), calm)?;
            }
        }
        let steps = self.rng.range(self.cfg.steps.0, self.cfg.steps.1);
        for step in 0..steps + 8 {
            self.now += *self.rng.pick(&[0, 0, 1, 1, 2, 5, 30]);
            if self.rng.chance(0.03) {
                self.now += self.rng.range(100, 20_000);
            }
            let calm = step >= steps;
            if step == steps {
                // faults stop
                self.cfg.fault = 0.0;
                self.cfg.crash = 0.0;
                self.now += self.max_delay + 1;
                self.pump()?;
            }
            self.now = self.now.max(1000);
            let node = self.rng.idx(self.n_hosts);
            let to = json!(self.host(node));
            let (i, j) = (self.rng.idx(n), self.rng.idx(n));
            let (a, mut b) = (json!(self.ps[i].peer), json!(self.ps[j].peer));
            if self.rng.chance(0.03) {
                b = json!(self.weird());
            }
            let r = json!(self.ps[self.roots[self.rng.idx(self.roots.len())]].peer);
            let by = if self.rng.chance(0.35) { r.clone() } else { a.clone() };
            match self.rng.idx(if calm { 20 } else { 23 }) {
                0..=5 => {
                    let exp = self.pick_exp();
                    self.particle("add_trust", vec![to, by, b, json!(exp)], None, None, calm)?;
                }
                6 => self.particle("revoke", vec![to, by, b], None, None, calm)?,
                7 => {
                    let exp = self.pick_exp();
                    self.particle("issue_trust", vec![by, b, json!(exp)], None, None, calm)?;
                }
                8 => self.particle("issue_revocation", vec![by, b], None, None, calm)?,
                9 | 10 => {
                    let (iat, exp) = (self.pick_iat((i, j)), self.pick_exp());
                    let mut s = if self.rng.chance(0.6) { self.sign_trust(i, j, iat, exp) } else { self.sign_rev(i, j, iat) };
                    if self.rng.chance(0.2) {
                        s.at += 1;
                    }
                    let v = self.dto(&s);
                    let f = match (s.rev, self.rng.chance(0.3)) {
                        (true, _) => "import_revocation",
                        (false, true) => "verify_trust",
                        _ => "import_trust",
                    };
                    let args = if s.rev { vec![v] } else { vec![v, a] };
                    self.particle(f, args, Some(node), None, calm)?;
                }
                11 | 12 => self.particle("get_weight", vec![b], Some(node), None, calm)?,
                13 => self.particle("get_weight_from", vec![b, by], Some(node), None, calm)?,
                14 => self.particle("get_all_certs", vec![b], Some(node), None, calm)?,
                15 => self.particle("get_all_certs_from", vec![b, by], Some(node), None, calm)?,
                16 => self.particle("get_host_certs", vec![], Some(node), None, calm)?,
                17 => self.particle("get_host_certs_from", vec![by], Some(node), None, calm)?,
                18 => match self.rng.idx(3) {
                    0 => self.particle("isFluencePeer", vec![], Some(node), None, calm)?,
                    1 => {
                        let o = self.owner.peer.clone();
                        let len = self.rng.below(18);
                        let init = if self.rng.chance(0.7) { Some(o) } else { None };
                        self.particle("set_root", vec![r, json!(len)], Some(node), init, calm)?;
                    }
                    _ => {
                        let o = self.owner.peer.clone();
                        let len = self.rng.below(18);
                        let exp = self.pick_exp();
                        let init = if self.rng.chance(0.7) { Some(o) } else { None };
                        self.particle("add_root_trust", vec![to, r, json!(len), json!(exp)], None, init, calm)?;
                    }
                },
                19 => {
                    let t = self.now;
                    let mut s = vec![];
                    let r0 = self.roots[0];
                    s.push(self.sign_trust(r0, r0, t - 20, t + 5000));
                    s.push(self.sign_trust(r0, i, t - 10, t + 4000));
                    if self.rng.chance(0.7) {
                        s.push(self.sign_trust(i, j, t - 5, t + 3000));
                    }
                    if self.rng.chance(0.15) {
                        let k = self.rng.idx(s.len());
                        s[k].exp += 1;
                    }
                    let chain: Vec<Value> = s.iter().map(|s| self.dto(s)).collect();
                    self.particle("insert_cert", vec![json!({ "chain": chain })], Some(node), None, calm)?;
                }
                20 => {
                    let (power, seed) = (self.rng.chance(0.6), self.rng.u64() >> 12);
                    self.emit(Ev::Crash { node, power, seed })?;
                }
                21 => self.skew[node] = self.rng.below(40) as i64 - 20,
                _ => {
                    let c = self.some_call(node);
                    self.send_now(c)?;
                }
            }
            if self.ex.stats.blind {
                return Ok(());
            }
        }
        self.ex.stats.sim_secs = self.now.saturating_sub(self.start);
        Ok(())
    }

    pub fn run(&mut self) -> Res {
        if self.cfg.deploy {
            return self.deployment();
        }
        if self.cfg.aqua {
            return self.clients();
        }
        let steps = self.rng.range(self.cfg.steps.0, self.cfg.steps.1);
        // deployment: the owner sets roots; most roots publish their own trust
        for node in 0..self.n_hosts {
            if self.rng.chance(self.cfg.crash + self.cfg.fault) {
                let faults = vec![if self.rng.chance(0.5) {
                    Fault { seam: Seam::Vfs, kind: FKind::Crash { power: true, seed: self.rng.u64() >> 12 }, at: self.rng.below(30) as u32, span: 1 }
                } else {
                    self.fault("boot")
                }];
                self.emit(Ev::Boot { node, faults })?;
            }
            if !self.cfg.heal && self.rng.chance(if self.cfg.w.nonowner > 1.0 { 0.35 } else { 0.08 }) {
                self.virgin(node)?;
            }
            for r in self.roots.clone() {
                let len = *self.rng.pick(&self.lens);
                let c = self.root_call(node, r, len);
                self.send_now(c)?;
            }
        }
        for r in self.roots.clone() {
            if self.rng.chance(0.85) {
                let at = if self.cfg.heal { self.pick_iat((r, r)) } else { self.now - 30 };
                let exp = if self.rng.chance(0.8) { u64::MAX >> self.rng.below(2) } else { self.pick_exp() };
                let s = self.sign_trust(r, r, at, exp);
                self.spread(&s, "")?;
            }
        }
        if self.shape != Shape::Free {
            self.populate()?;
        } else if self.rng.chance(0.6) || self.line {
            self.chain()?;
        }
        for _ in 0..steps {
            self.now += *self.rng.pick(&[0, 0, 1, 1, 2, 5]);
            if self.rng.chance(0.02) {
                self.now += self.rng.range(100, 20_000);
            }
            if self.rng.chance(0.004) {
                // nothing happens for years
                self.now += self.rng.range(10_000_000, 400_000_000);
                self.ex.stats.probe("idle_for_years");
            }
            self.pump()?;
            let a = self.act();
            self.ex.stats.probe(&format!("act_{a:?}"));
            match a {
                Act::Trust => {
                    let pair = self.pick_pair();
                    let at = self.pick_iat(pair);
                    let exp = self.pick_exp();
                    let s = self.sign_trust(pair.0, pair.1, at, exp);
                    self.spread(&s, "")?;
                }
                Act::Revoke => {
                    let e: Vec<(usize, usize)> = self.edges().into_iter().collect();
                    // direct, or of someone further down
                    let pair = if !e.is_empty() && self.rng.chance(0.5) { *self.rng.pick(&e) } else { (self.pick_issuer(), self.rng.idx(self.ps.len())) };
                    let at = self.pick_iat(pair);
                    let s = self.sign_rev(pair.0, pair.1, at);
                    self.spread(&s, "")?;
                }
                Act::Cert => {
                    let ch = self.known_chain();
                    if !ch.is_empty() {
                        let v = self.cert_value(&ch);
                        for node in self.targets() {
                            let raw = !self.cfg.heal && self.rng.chance(0.4);
                            let c = self.insert(node, v.clone(), raw, "");
                            self.post(c)?;
                        }
                    }
                }
                Act::Query => {
                    let node = self.rng.idx(self.n_hosts);
                    self.query(node, None)?;
                    if self.rng.chance(0.2) {
                        // ask again, nothing changed in between
                        if let Some(Ev::Call(c)) = self.trace.last().cloned() {
                            if is_query(&c.f) {
                                self.send_now(c)?;
                            }
                        }
                    }
                }
                Act::Root => {
                    let r = if self.rng.chance(0.8) { *self.rng.pick(&self.roots.clone()) } else { self.rng.idx(self.ps.len()) };
                    if !self.roots.contains(&r) {
                        self.roots.push(r);
                    }
                    let len = if self.rng.chance(0.3) { self.rng.below(18) } else { *self.rng.pick(&self.lens) };
                    if !self.cfg.heal && self.rng.chance(0.3) {
                        self.root_and_back(r, len)?;
                        continue;
                    }
                    for node in self.targets() {
                        let c = self.root_call(node, r, len);
                        self.post(c)?;
                    }
                }
                Act::NonOwner => {
                    let node = self.rng.idx(self.n_hosts);
                    self.non_owner(node)?;
                }
                Act::Replay => {
                    if !self.pool.is_empty() {
                        let s = self.rng.pick(&self.pool).clone();
                        let node = self.rng.idx(self.n_hosts);
                        let c = self.submit(node, &s, "replayed");
                        self.post(c)?;
                    }
                }
                Act::Forge => self.forge()?,
                Act::BadProv => self.bad_provenance()?,
                Act::Future => {
                    if !self.cfg.heal {
                        self.future()?
                    }
                }
                Act::Malformed => self.malformed()?,
                Act::Transfer => self.transfer()?,
                Act::Issue => self.issue_flow()?,
                Act::Crash => {
                    let node = self.rng.idx(self.n_hosts);
                    let (power, seed) = (self.rng.chance(0.6), self.rng.u64() >> 12);
                    self.emit(Ev::Crash { node, power, seed })?;
                    if self.rng.chance(self.cfg.crash + self.cfg.fault) {
                        let faults = vec![if self.rng.chance(0.5) {
                            Fault { seam: Seam::Vfs, kind: FKind::Crash { power: self.rng.chance(0.5), seed: self.rng.u64() >> 12 }, at: self.rng.below(8) as u32, span: 1 }
                        } else {
                            self.fault("boot")
                        }];
                        self.emit(Ev::Boot { node, faults })?;
                    }
                    if self.rng.chance(0.5) {
                        self.query(node, None)?;
                    }
                }
                Act::Clock => {
                    let node = self.rng.idx(self.n_hosts);
                    self.skew[node] = match self.rng.idx(4) {
                        0 => 0,
                        1 => self.rng.below(60) as i64 - 30,
                        2 => self.rng.below(2000) as i64,
                        _ => -(self.rng.below(50) as i64),
                    };
                    self.ex.stats.probe("clock_skew_change");
                    self.query(node, None)?;
                }
                Act::Partition => {
                    let node = self.rng.idx(self.n_hosts);
                    self.parted[node] = !self.parted[node];
                    self.ex.stats.probe(if self.parted[node] { "partition" } else { "partition_heal" });
                }
                Act::Boundary => {
                    // move a node's clock to the edge of some expiry
                    let exps: Vec<u64> = self.pool.iter().filter(|s| !s.rev && s.exp > self.now && s.exp < self.now + 200_000).map(|s| s.exp).collect();
                    if !exps.is_empty() {
                        let node = self.rng.idx(self.n_hosts);
                        let e = *self.rng.pick(&exps);
                        let t = match self.rng.idx(4) {
                            0 => e - 1,
                            1 | 2 => e,
                            _ => e + 1,
                        };
                        let near = self.pool.iter().find(|s| s.exp == e).map(|s| s.who);
                        if e - self.now < 2000 && self.rng.chance(0.6) {
                            self.now = t.max(self.now);
                            self.skew[node] = 0;
                        } else {
                            self.skew[node] = t as i64 - self.now as i64;
                        }
                        self.ex.stats.probe("clock_at_expiry_edge");
                        self.query(node, near)?;
                        if self.rng.chance(0.4) {
                            self.query(node, near)?;
                        }
                    }
                }
                Act::Chain => self.chain()?,
                Act::Sweep => self.sweep()?,
            }
            if self.ex.stats.blind {
                return Ok(());
            }
        }
        self.finale()
    }

    fn finale(&mut self) -> Res {
        self.parted.iter_mut().for_each(|p| *p = false);
        self.cfg.fault = 0.0;
        self.cfg.crash = 0.0;
        self.now += self.max_delay + 1;
        self.pump()?;
        self.ex.stats.sim_secs = self.now - self.start;
        if self.cfg.heal {
            let ts = self.trace.iter().filter_map(|e| match e {
                Ev::Call(c) => ts_arg(&c.f).and_then(|i| c.args[i].as_u64()),
                _ => None,
            }).max().unwrap_or(0).max(self.now) + self.rng.below(40);
            let hosts = (0..self.n_hosts).map(|n| self.host(n).to_string()).collect();
            let peers = self.ps.iter().map(|p| p.peer.clone()).collect();
            let seed = self.rng.u64() >> 12;
            let owner = self.owner.peer.clone();
            self.emit(Ev::Heal { ts, seed, owner, roots: vec![], hosts, peers })?;
            return Ok(());
        }
        if self.rng.chance(0.3) {
            for node in 0..self.n_hosts {
                let (power, seed) = (self.rng.chance(0.5), self.rng.u64() >> 12);
                self.emit(Ev::Crash { node, power, seed })?;
            }
        }
        for node in 0..self.n_hosts {
            let t = self.clock(node);
            let mut order: Vec<usize> = (0..self.ps.len()).collect();
            self.rng.shuffle(&mut order);
            for p in order {
                let peer = self.ps[p].peer.clone();
                let c = self.mk(node, "get_weight", vec![json!(peer), json!(t)], "final");
                self.emit(Ev::Call(c))?;
                let c = self.mk(node, "get_all_certs", vec![json!(peer), json!(t)], "final");
                let r = self.emit(Ev::Call(c))?;
                if let Some(Resp::Ok(v)) = &r {
                    if !certs_of(v).is_empty() {
                        self.ex.stats.probe("final_certificates_nonempty");
                    }
                }
                let c = self.mk(node, "export_revocations", vec![json!(peer)], "final");
                self.emit(Ev::Call(c))?;
                if self.rng.chance(self.cfg.from_bias) {
                    let q = self.rng.idx(self.ps.len());
                    let iss = self.ps[q].peer.clone();
                    let c = self.mk(node, "get_weight_from", vec![json!(peer), json!(iss), json!(t)], "final");
                    self.emit(Ev::Call(c))?;
                    let c = self.mk(node, "get_all_certs_from", vec![json!(peer), json!(iss), json!(t)], "final");
                    self.emit(Ev::Call(c))?;
                }
            }
            if self.rng.chance(0.5) {
                let c = self.mk(node, "get_host_certs", vec![json!(t)], "final");
                self.emit(Ev::Call(c))?;
            }
        }
        Ok(())
    }
}

/// text form of a certificate given in structured form
/// mark of a call whose certificate text is printed by the library when the call is made
pub const PRINTED: &str = ", printed by the library";

pub fn text_of(cert: &Value) -> Option<String> {
    let mut s = String::from("11\n1111\n");
    for t in cert["chain"].as_array()? {
        let pk = crate::keys::Pk::from_peer_id(t["issued_for"].as_str()?)?;
        let mut sig = vec![match t["sig_type"].as_str()? {
            "ed25519" => 0u8,
            "rsa" => 1,
            "secp256k1" => 2,
            _ => return None,
        }];
        sig.extend(bs58::decode(t["signature"].as_str()?).into_vec().ok()?);
        s.push_str(&format!(
            "{}\n{}\n{}\n{}\n",
            bs58::encode(pk.encode()).into_string(),
            bs58::encode(sig).into_string(),
            t["expires_at"].as_u64()?,
            t["issued_at"].as_u64()?
        ));
    }
    Some(s)
}
