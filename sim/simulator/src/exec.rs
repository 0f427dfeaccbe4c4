//! Executes events against the real service instances and judges every answer.
use crate::deploy::{Asked, Flow, Vm};
use crate::disk::{self, FaultCount};
use crate::model::{self, certs_of, is_mutation, is_query, success, Judge, Keyring, Link, Want};
use crate::node::{Node, Resp};
use crate::rng::{mix, Digest, Rng};
use crate::trace::{Call, Cp, Ev, Tet};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};

#[derive(Clone, Debug, PartialEq)]
pub enum VKind {
    /// an answer no possible state explains
    Answer,
    Panic,
    /// does not come up although nothing is wrong with the storage
    BootFail,
    /// nodes disagree after everything was redelivered
    Diverge,
    /// the package does not do what it promises
    Deploy,
    /// a published client function does not do what it documents
    Aqua,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub at: usize,
    pub kind: VKind,
    pub f: String,
    pub want: Option<Want>,
    pub resp: Option<Resp>,
    pub faulty: bool,
    pub detail: String,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub calls: u64,
    pub boots: u64,
    pub crashes: u64,
    pub faults: FaultCount,
    pub probes: BTreeMap<String, u64>,
    pub states: HashSet<u64>,
    pub disk_ops: u64,
    pub known: u8,
    pub blind: bool,
    pub sim_secs: u64,
}
impl Stats {
    pub fn probe(&mut self, k: &str) {
        *self.probes.entry(k.to_string()).or_default() += 1;
    }
}

pub struct Exec {
    pub nodes: Vec<Node>,
    pub judges: Vec<Judge>,
    pub kr: Keyring,
    pub judge_on: bool,
    pub n: usize,
    pub digest: Digest,
    pub stats: Stats,
    /// typical operation counts per function, to aim faults: (any, mutating, writes, locks, host)
    pub sizes: BTreeMap<String, (u32, u32, u32, u32, u32)>,
    stmts: Vec<(bool, Value, String)>,
    roots: BTreeMap<String, u32>,
    /// the package's start went through, and the owner has not changed its root since
    pub installed: Vec<bool>,
    latest: Vec<u64>,
    pub last_faulty: bool,
    pub last_cut: bool,
    /// what the model expected of each call, if asked to remember
    pub note_wants: bool,
    pub wants: Vec<(usize, Want)>,
}

impl Exec {
    pub fn new(nodes: usize, judge_on: bool, rnd: u64) -> Exec {
        disk::reset_sqlite_prng();
        Exec {
            nodes: (0..nodes).map(|i| Node::new(i, rnd)).collect(),
            judges: (0..nodes).map(|_| Judge::default()).collect(),
            kr: Keyring::default(),
            judge_on,
            n: 0,
            digest: Digest::default(),
            stats: Stats::default(),
            sizes: BTreeMap::new(),
            stmts: vec![],
            roots: BTreeMap::new(),
            installed: vec![false; nodes],
            latest: vec![0; nodes],
            last_faulty: false,
            last_cut: false,
            note_wants: false,
            wants: vec![],
        }
    }

    pub fn viol(&self, kind: VKind, f: &str, want: Option<Want>, resp: Option<Resp>, faulty: bool, detail: String) -> Viol {
        Viol { at: self.n - 1, kind, f: f.to_string(), want, resp, faulty, detail }
    }

    pub fn ensure_up(&mut self, i: usize) -> Result<(), Viol> {
        if !self.nodes[i].is_up() {
            self.boot(i, &[])?;
        }
        Ok(())
    }

    fn boot(&mut self, i: usize, faults: &[crate::trace::Fault]) -> Result<(), Viol> {
        self.stats.boots += 1;
        let r = self.nodes[i].boot(faults);
        let (fired, crashed) = {
            let d = self.nodes[i].disk.lock().unwrap();
            self.digest.num(d.log.0);
            self.sizes.insert("boot".into(), (d.n_any, d.n_mut, d.n_write, d.n_lock, d.n_host));
            (d.fired_now, d.crashed)
        };
        if let Some((power, seed)) = crashed {
            self.stats.probe("crash_while_starting");
            self.nodes[i].crash(power, seed);
            return Ok(());
        }
        if let Err(e) = r {
            self.nodes[i].crash(false, 0);
            if fired == 0 {
                return Err(self.viol(VKind::BootFail, "boot", None, None, false, e));
            }
            self.stats.probe("start_failed_on_storage_error");
        }
        Ok(())
    }

    pub fn step(&mut self, ev: &Ev) -> Result<Option<Resp>, Viol> {
        self.n += 1;
        self.last_faulty = false;
        self.last_cut = false;
        match ev {
            Ev::Crash { node, power, seed } => {
                if self.nodes[*node].is_up() {
                    self.stats.crashes += 1;
                    self.stats.faults.add(if *power { "power_loss_between_calls" } else { "process_crash_between_calls" });
                    self.nodes[*node].crash(*power, *seed);
                }
                Ok(None)
            }
            Ev::Boot { node, faults } => {
                if !self.nodes[*node].is_up() {
                    self.boot(*node, faults)?;
                }
                Ok(None)
            }
            Ev::Call(c) => {
                self.ensure_up(c.node)?;
                self.record(c);
                if self.installed[c.node] && c.f == "set_root" && c.cp.init_peer_id == c.cp.service_creator_peer_id && c.args[0] == json!(crate::deploy::package().root) {
                    self.installed[c.node] = false;
                }
                self.call(c)
            }
            Ev::Heal { ts, seed, owner, hosts, peers, .. } => {
                self.heal(*ts, *seed, owner, hosts, peers)?;
                Ok(None)
            }
            Ev::Install { node, ts, pace, owner, host, script, faults, stop } => {
                self.install(*node, *ts, *pace, owner, host, *script, faults, *stop)?;
                Ok(None)
            }
            Ev::Aqua(p) => {
                self.particle(p)?;
                Ok(None)
            }
            Ev::Inspect { node, ts, owner } => {
                self.inspect(*node, *ts, owner)?;
                Ok(None)
            }
        }
    }

    pub fn call(&mut self, c: &Call) -> Result<Option<Resp>, Viol> {
        let mut want = None;
        if self.note_wants && self.judge_on {
            want = self.judges[c.node].expects(&mut self.kr, c);
            if let Some(w) = &want {
                self.wants.push((self.n - 1, w.clone()));
            }
        }
        let printed = match c.note.ends_with(crate::gen::PRINTED).then(|| crate::lib_world::printed(c.args[0].as_str().unwrap_or(""))) {
            Some(Some(text)) => {
                self.stats.probe("text_printed_by_the_library");
                let mut c = c.clone();
                c.args[0] = json!(text);
                Some(c)
            }
            _ => None,
        };
        if let Some(t) = model::ts_arg(&c.f).and_then(|i| c.args[i].as_u64()) {
            self.latest[c.node] = self.latest[c.node].max(t);
        }
        let r = self.nodes[c.node].call(printed.as_ref().unwrap_or(c));
        self.stats.calls += 1;
        let (fired, crashed, what) = {
            let d = self.nodes[c.node].disk.lock().unwrap();
            self.digest.num(d.log.0);
            if c.faults.is_empty() {
                let e = self.sizes.entry(c.f.clone()).or_default();
                *e = (e.0.max(d.n_any), e.1.max(d.n_mut), e.2.max(d.n_write), e.3.max(d.n_lock), e.4.max(d.n_host));
            }
            (d.fired_now, d.crashed, d.crash_before)
        };
        if let Some((power, seed)) = crashed {
            self.stats.crashes += 1;
            self.stats.probe(&format!("crash_before_{what}_in_{}", c.f));
            self.last_cut = true;
            self.nodes[c.node].crash(power, seed);
            if self.judge_on {
                self.judges[c.node].cut(&mut self.kr, c);
            }
            return Ok(None);
        }
        let faulty = fired > 0;
        self.last_faulty = faulty;
        self.digest.bytes(format!("{r:?}").as_bytes());
        if faulty {
            self.stats.probe(&format!("fault_in_{}", c.f));
            if success(&r) == Some(true) {
                self.stats.probe("call_succeeded_despite_fault");
            }
        }
        if let Resp::Panic(m) = &r {
            let d = format!("{} aborted: {m}", c.f);
            return Err(self.viol(VKind::Panic, &c.f, want, Some(r.clone()), faulty, d));
        }
        if self.judge_on {
            let j = &mut self.judges[c.node];
            let before = j.findings();
            if let Err(m) = j.completed(&mut self.kr, c, &r, faulty) {
                let d = explain(c, &m.want, &r);
                return Err(self.viol(VKind::Answer, &c.f, Some(m.want), Some(r), faulty, d));
            }
            if j.blind {
                self.stats.blind = true;
            }
            let f = j.findings();
            if f & !before != 0 && !j.blind {
                self.stats.known |= f & !before;
            }
            if is_query(&c.f) || is_mutation(&c.f) {
                let mut d = Digest::default();
                if let Some(w) = j.worlds.first() {
                    for (k, l) in &w.roots {
                        d.num(*k as u64);
                        d.num(*l as u64);
                    }
                    for ((a, b), r) in &w.rel {
                        d.num((*a as u64) << 32 | *b as u64);
                        d.num(r.rev as u64 | (r.gone as u64) << 1);
                        d.num(r.at);
                        d.num(r.exp);
                    }
                }
                d.num(j.worlds.len() as u64);
                self.stats.states.insert(d.0);
            }
            if let Resp::Ok(v) = &r {
                if c.f.contains("certs") {
                    let n = certs_of(v);
                    if n.len() > 1 {
                        self.stats.probe("several_certificates");
                    }
                    if n.iter().any(|c| c.len() > 3) {
                        self.stats.probe("chain_of_3_or_more_links");
                    }
                    if n.iter().any(|c| c.len() > 15) {
                        self.stats.probe("chain_near_length_limit");
                    }
                }
            }
        } else {
            let mut d = Digest::default();
            d.bytes(format!("{r:?}{}", c.f).as_bytes());
            self.stats.states.insert(d.0);
        }
        Ok(Some(r))
    }

    /// what Heal redelivers
    fn record(&mut self, c: &Call) {
        let mut push = |s: (bool, Value, String)| {
            if !self.stmts.contains(&s) {
                self.stmts.push(s);
            }
        };
        match c.f.as_str() {
            "set_root" if c.cp.init_peer_id == c.cp.service_creator_peer_id => {
                if let (Some(p), Some(l)) = (c.args[0].as_str(), c.args[1].as_u64()) {
                    if crate::keys::Pk::from_peer_id(p).is_some() {
                        self.roots.insert(p.to_string(), l.min(u32::MAX as u64) as u32);
                    }
                }
            }
            "add_trust" => push((false, c.args[0].clone(), c.args[1].as_str().unwrap_or("").to_string())),
            "revoke" => push((true, c.args[0].clone(), String::new())),
            "insert_cert" | "insert_cert_raw" => {
                let ch: Vec<Value> = if c.f == "insert_cert" {
                    c.args[0].get("chain").and_then(|x| x.as_array()).cloned().unwrap_or_default()
                } else {
                    model::chain_of_text(&mut self.kr, c.args[0].as_str().unwrap_or(""))
                };
                let mut by = ch.first().and_then(|t| t["issued_for"].as_str()).unwrap_or("").to_string();
                for t in ch {
                    let next = t["issued_for"].as_str().unwrap_or("").to_string();
                    push((false, t, by));
                    by = next;
                }
            }
            _ => {}
        }
    }

    fn heal(&mut self, ts: u64, seed: u64, owner: &str, hosts: &[String], peers: &[String]) -> Result<(), Viol> {
        // whether a trust may be submitted in the very second it expires is left open
        let mut ts = ts;
        while self.stmts.iter().any(|s| !s.0 && s.1["expires_at"].as_u64() == Some(ts)) {
            ts += 1;
        }
        // the guarantee is about statements of the past without ties
        let mut times: BTreeMap<(String, String), Vec<(u64, Value)>> = BTreeMap::new();
        for (rev, v, by) in &self.stmts {
            let (f, b, at) = if *rev {
                (&v["revoked_peer_id"], v["revoked_by"].as_str().unwrap_or(""), &v["revoked_at"])
            } else {
                (&v["issued_for"], by.as_str(), &v["issued_at"])
            };
            let at = at.as_u64().unwrap_or(0);
            if at > ts {
                return Ok(());
            }
            times.entry((f.as_str().unwrap_or("").into(), b.into())).or_default().push((at, v.clone()));
        }
        for l in times.values() {
            for (i, a) in l.iter().enumerate() {
                if l[..i].iter().any(|b| b.0 == a.0 && b.1 != a.1) {
                    return Ok(());
                }
            }
        }
        let mk = |node: usize, f: &str, args: Vec<Value>| -> Call {
            let cp = Cp {
                init_peer_id: owner.to_string(),
                service_id: "trust-graph".into(),
                service_creator_peer_id: owner.to_string(),
                host_id: hosts[node].clone(),
                particle_id: "heal".into(),
                tetraplets: args
                    .iter()
                    .enumerate()
                    .map(|(i, _)| {
                        vec![if model::ts_arg(f) == Some(i) {
                            Tet { peer_pk: hosts[node].clone(), service_id: "peer".into(), function_name: "timestamp_sec".into(), json_path: String::new() }
                        } else {
                            Tet { peer_pk: owner.to_string(), ..Default::default() }
                        }]
                    })
                    .collect(),
            };
            Call { node, f: f.into(), args, cp, faults: vec![], note: String::new() }
        };
        let n = self.nodes.len();
        let roots = self.roots.clone();
        let stmts = self.stmts.clone();
        let max_rounds = peers.len() + 2;
        let mut answers: Vec<BTreeMap<String, (u64, BTreeSet<Vec<Link>>, Vec<(Link, String)>)>> = vec![];
        for node in 0..n {
            self.ensure_up(node)?;
            for (p, l) in &roots {
                self.call(&mk(node, "set_root", vec![json!(p), json!(l)]))?;
            }
            // expired trusts are forgotten before the redelivery starts
            if let Some(p) = peers.first() {
                self.call(&mk(node, "get_weight", vec![json!(p), json!(ts)]))?;
            }
            let mut last: Vec<(usize, String)> = vec![];
            let mut rounds = 0;
            for round in 0..max_rounds {
                let mut order: Vec<usize> = (0..stmts.len()).collect();
                Rng::new(mix(seed ^ (node as u64) << 20 ^ round as u64)).shuffle(&mut order);
                let mut res = vec![];
                for i in order {
                    let (rev, v, by) = &stmts[i];
                    let c = if *rev {
                        mk(node, "revoke", vec![v.clone(), json!(ts)])
                    } else {
                        mk(node, "add_trust", vec![v.clone(), json!(by), json!(ts)])
                    };
                    let r = self.call(&c)?;
                    res.push((i, format!("{r:?}")));
                }
                res.sort();
                rounds = round + 1;
                if res == last {
                    break;
                }
                last = res;
            }
            self.stats.probe(&format!("healed_in_{rounds}_rounds"));
            let mut m = BTreeMap::new();
            for p in peers {
                let w = self.call(&mk(node, "get_weight", vec![json!(p), json!(ts)]))?;
                let c = self.call(&mk(node, "get_all_certs", vec![json!(p), json!(ts)]))?;
                let r = self.call(&mk(node, "export_revocations", vec![json!(p)]))?;
                let (Some(Resp::Ok(w)), Some(Resp::Ok(c)), Some(Resp::Ok(r))) = (w, c, r) else { continue };
                let mut revs = model::revs_of(&r);
                revs.sort();
                m.insert(p.clone(), (w["weight"].as_u64().unwrap_or(u64::MAX), certs_of(&c).into_iter().collect(), revs));
            }
            answers.push(m);
        }
        for a in answers.iter_mut() {
            // a revocation by someone who cannot pass trust on can cut nothing and is not compared
            let standing: BTreeSet<String> = a.iter().filter(|x| x.1 .0 > 1).map(|x| x.0.clone()).collect();
            for x in a.values_mut() {
                x.2.retain(|(l, _)| standing.contains(&l.peer));
            }
        }
        for node in 1..n {
            for p in peers {
                if answers[0].get(p) != answers[node].get(p) {
                    let d = format!(
                        "after every statement was redelivered to every node, nodes 0 and {node} disagree about {p}: {:?} vs {:?}",
                        answers[0].get(p).map(brief), answers[node].get(p).map(brief)
                    );
                    return Err(self.viol(VKind::Diverge, "heal", None, None, false, d));
                }
            }
        }
        if answers.iter().any(|a| a.values().any(|x| !x.1.is_empty())) {
            self.stats.probe("nodes_agree_on_certificates");
        }
        Ok(())
    }

    #[allow(clippy::too_many_arguments)]
    fn install(&mut self, node: usize, ts: u64, pace: u64, owner: &str, host: &str, script: bool, faults: &[(u32, crate::trace::Fault)], stop: Option<u32>) -> Result<(), Viol> {
        let pk = crate::deploy::package();
        self.ensure_up(node)?;
        self.installed[node] = false;
        let (mut n, mut now) = (0u32, ts);
        // what the script reported, in order, and what went wrong
        let mut said: Vec<Value> = vec![];
        let mut wrong: Option<String> = None;
        let mut touched = false;
        let mut ask = |a: Asked| -> Result<Value, Flow<Option<Viol>>> {
            match (a.service.as_str(), a.f.as_str()) {
                ("peer", "timestamp_sec") => {
                    now += pace;
                    Ok(json!(now))
                }
                ("op", "return") => {
                    said.push(a.args.first().cloned().unwrap_or(Value::Null));
                    Ok(Value::Null)
                }
                ("trust-graph", f) => {
                    if stop == Some(n) {
                        return Err(Flow::Stop(None));
                    }
                    let c = Call {
                        node,
                        f: f.to_string(),
                        args: a.args,
                        cp: Cp {
                            init_peer_id: owner.to_string(),
                            service_id: "trust-graph".into(),
                            service_creator_peer_id: owner.to_string(),
                            host_id: host.to_string(),
                            particle_id: format!("start{n}"),
                            tetraplets: a.tets,
                        },
                        faults: faults.iter().filter(|x| x.0 == n).map(|x| x.1).collect(),
                        note: String::new(),
                    };
                    n += 1;
                    match self.call(&c) {
                        Err(v) => Err(Flow::Stop(Some(v))),
                        Ok(None) => Err(Flow::Stop(None)),
                        Ok(Some(r)) => {
                            touched |= self.last_faulty;
                            match r {
                                Resp::Ok(v) => {
                                    if v["success"].as_bool() != Some(true) {
                                        wrong.get_or_insert(format!("{f}: {}", v["error"]));
                                    }
                                    Ok(v)
                                }
                                x => {
                                    wrong.get_or_insert(format!("{f}: {x:?}"));
                                    Err(Flow::Fail(format!("{x:?}")))
                                }
                            }
                        }
                    }
                }
                (s, f) => Err(Flow::Fail(format!("no function {s}.{f}"))),
            }
        };
        let r = if script {
            Vm::new(host, owner, &pk.data, &mut ask).run(&pk.script)
        } else {
            let me = Tet { peer_pk: owner.to_string(), ..Default::default() };
            let clock = Tet { peer_pk: host.to_string(), service_id: "peer".into(), function_name: "timestamp_sec".into(), json_path: String::new() };
            let mut go = || -> Result<(), Flow<Option<Viol>>> {
                let call = |f: &str, args: Vec<Value>, tets: Vec<Vec<Tet>>| Asked { service: "trust-graph".into(), f: f.into(), args, tets };
                ask(call("set_root", vec![json!(pk.root), json!(pk.len)], vec![vec![me.clone()], vec![me.clone()]]))?;
                for c in &pk.certs {
                    let t = ask(Asked { service: "peer".into(), f: "timestamp_sec".into(), args: vec![], tets: vec![] })?;
                    ask(call("insert_cert", vec![c.clone(), t], vec![vec![me.clone()], vec![clock.clone()]]))?;
                }
                Ok(())
            };
            go()
        };
        match r {
            Err(Flow::Stop(Some(v))) => return Err(v),
            Err(Flow::Stop(None)) => {
                self.stats.probe("install_interrupted");
                return Ok(());
            }
            Err(Flow::Fail(e)) => {
                if !touched && wrong.is_none() {
                    return Err(self.viol(VKind::Deploy, "install", None, None, false, format!("the start script cannot be run: {e}")));
                }
                wrong.get_or_insert(e);
            }
            Ok(()) => {}
        }
        let expired = pk.certs.iter().any(|c| c["chain"].as_array().into_iter().flatten().any(|t| t["expires_at"].as_u64().unwrap_or(0) <= now));
        match wrong {
            Some(w) => {
                if script && said.first() == Some(&json!(true)) {
                    return Err(self.viol(VKind::Deploy, "install", None, None, touched, format!("the start script reports success although a step failed: {w}")));
                }
                if !touched && !expired {
                    return Err(self.viol(VKind::Deploy, "install", None, None, false, format!("the package's start fails on a sound node at {now}: {w}")));
                }
                self.stats.probe(if expired { "install_refused_after_expiry" } else { "install_failed_on_storage_error" });
            }
            None => {
                if script && said != [json!(true)] {
                    return Err(self.viol(VKind::Deploy, "install", None, None, touched, format!("the start script went through and reports {said:?}")));
                }
                self.stats.probe("installed");
                self.installed[node] = true;
            }
        }
        Ok(())
    }

    /// After an installation: root, weights, certificates and the label are as the package says, for every peer in it.
    fn inspect(&mut self, node: usize, ts: u64, owner: &str) -> Result<(), Viol> {
        let pk = crate::deploy::package();
        if !self.installed[node] {
            return Ok(());
        }
        self.ensure_up(node)?;
        let by_then = ts.max(self.latest[node]);
        let mk = |f: &str, host: &str, args: Vec<Value>| -> Call {
            let clock = Tet { peer_pk: host.to_string(), service_id: "peer".into(), function_name: "timestamp_sec".into(), json_path: String::new() };
            let me = Tet { peer_pk: owner.to_string(), ..Default::default() };
            let tetraplets = (0..args.len()).map(|i| vec![if model::ts_arg(f) == Some(i) { clock.clone() } else { me.clone() }]).collect();
            let cp = Cp { init_peer_id: owner.into(), service_id: "trust-graph".into(), service_creator_peer_id: owner.into(), host_id: host.into(), particle_id: "inspect".into(), tetraplets };
            Call { node, f: f.into(), args, cp, faults: vec![], note: String::new() }
        };
        let weight = |l: u64, d: u64| if d > l.min(16) { 0 } else { 1u64 << (l.min(16) - d) };
        let r = self.call(&mk("get_weight", &pk.root, vec![json!(pk.root), json!(ts)]))?;
        let got = match &r {
            Some(Resp::Ok(v)) => v["weight"].as_u64().unwrap_or(0),
            _ => 0,
        };
        // nobody else in a simulated system trusts peers of the package
        if got != weight(pk.len, 0) {
            return Err(self.viol(VKind::Deploy, "inspect", None, r, false, format!("after the installation the package's root has weight {got}, not {}", weight(pk.len, 0))));
        }
        for c in &pk.certs {
            let links: Vec<Link> = certs_of(&json!({ "certificates": [c] })).into_iter().flatten().collect();
            let Some(last) = links.last() else { continue };
            if links.iter().any(|l| l.exp <= by_then) {
                continue;
            }
            let host = last.peer.clone();
            let d = links.len() as u64 - 1;
            let w = self.call(&mk("get_weight", &host, vec![json!(host), json!(ts)]))?;
            let a = self.call(&mk("get_all_certs", &host, vec![json!(host), json!(ts)]))?;
            let l = self.call(&mk("get_host_certs_from", &host, vec![json!(pk.label), json!(ts)]))?;
            let (Some(Resp::Ok(w)), Some(Resp::Ok(a)), Some(Resp::Ok(l))) = (&w, &a, &l) else {
                return Err(self.viol(VKind::Deploy, "inspect", None, None, false, format!("no answer about {host}")));
            };
            let got = w["weight"].as_u64().unwrap_or(0);
            let has = certs_of(a).iter().any(|x| *x == links);
            // what isFluencePeer() of aqua/labelling.aqua looks for
            let mut labelled = certs_of(l).iter().any(|x| x.len() == 3 && x[0].peer == pk.root && x[1].peer == pk.label);
            let should = d == 2 && links[0].peer == pk.root && links[1].peer == pk.label;
            if crate::aqua::program().is_ok() {
                let hosts = (0..self.nodes.len()).map(|i| if i == node { host.clone() } else { format!("node {i}") }).collect();
                let p = crate::flow::Particle {
                    f: "isFluencePeer".into(), args: vec![], init: owner.into(), at: Some(node), relay: node, hosts, owner: owner.into(),
                    clocks: vec![ts; self.nodes.len() + 1], pace: 0, keys: vec![], declines: false, lose: None, faults: vec![],
                };
                labelled &= self.particle(&p)?.map(|r| r.first() == Some(&json!([true]))).unwrap_or(false);
            }
            if got != weight(pk.len, d) || !has || should && !labelled {
                let dt = format!("after the installation {host} has weight {got} (the package gives it {}), its packaged certificate is {}returned, and it is {}a labelled peer", weight(pk.len, d), if has { "" } else { "not " }, if labelled { "" } else { "not " });
                return Err(self.viol(VKind::Deploy, "inspect", None, None, false, dt));
            }
            self.stats.probe("package_promise_checked");
            if labelled {
                self.stats.probe("labelled_peer");
            }
        }
        if !pk.certs.is_empty() && pk.certs.iter().all(|c| c["chain"][0]["issued_for"].as_str() != Some(&pk.root)) {
            return Err(self.viol(VKind::Deploy, "inspect", None, None, false, "no packaged certificate starts at the packaged root".into()));
        }
        Ok(())
    }

    pub fn finish(&mut self) {
        for n in &self.nodes {
            let d = n.disk.lock().unwrap();
            for (k, v) in &d.fired.0 {
                *self.stats.faults.0.entry(k.clone()).or_default() += v;
            }
            self.stats.disk_ops += d.ops;
        }
        // the next system to be simulated uses the same service images
        for n in &mut self.nodes {
            n.kill();
        }
    }
}

fn brief(a: &(u64, BTreeSet<Vec<Link>>, Vec<(Link, String)>)) -> String {
    format!("weight {}, {} certificate(s), {} revocation(s)", a.0, a.1.len(), a.2.len())
}

pub fn explain(c: &Call, want: &Want, r: &Resp) -> String {
    let got = match r {
        Resp::Ok(v) => {
            let mut t = v.to_string();
            if t.len() > 600 {
                let cut = (0..=600).rev().find(|i| t.is_char_boundary(*i)).unwrap_or(0);
                t.truncate(cut);
                t.push('…');
            }
            t
        }
        x => format!("{x:?}"),
    };
    let w = match want {
        Want::Refuse(w) => format!("refusal ({w:?})"),
        Want::Certs(s) => {
            let Resp::Ok(v) = r else { return format!("{}: got {got}", c.f) };
            let g = certs_of(v);
            let gs: BTreeSet<_> = g.iter().cloned().collect();
            let missing = s.difference(&gs).count();
            let extra = gs.difference(s).count();
            return format!(
                "{} node {}: expected {} certificate(s), got {} ({missing} missing, {extra} not justified, {} repeated); first missing: {:?}; first unjustified: {:?}; answer: {got}",
                c.f, c.node, s.len(), g.len(), g.len() - gs.len(), s.difference(&gs).next(), gs.difference(s).next()
            );
        }
        x => format!("{x:?}"),
    };
    format!("{} node {}: expected {w}, got {got}", c.f, c.node)
}
