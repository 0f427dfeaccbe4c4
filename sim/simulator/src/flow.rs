//! Runs of the published client functions: who talks to whom, what it must come to.
use crate::aqua::{self, Aqua, Need};
use crate::deploy::Flow;
use crate::exec::{Exec, VKind, Viol};
use crate::keys::{revocation_digest, trust_digest, Kp, Pk};
use crate::model::{certs_of, host_clock, is_mutation, ts_arg, Want, Why};
use crate::node::Resp;
use crate::trace::{Call, Cp, Fault, Tet};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Particle {
    pub f: String,
    pub args: Vec<Value>,
    /// the client; it runs the function itself, or on node `at`
    pub init: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub at: Option<usize>,
    pub relay: usize,
    pub hosts: Vec<String>,
    pub owner: String,
    /// clocks of the nodes, last: of the client; each reading takes `pace` seconds
    pub clocks: Vec<u64>,
    pub pace: u64,
    /// signers the client can reach: key kind and secret
    pub keys: Vec<(String, String)>,
    /// the signer declines
    #[serde(default)]
    pub declines: bool,
    /// lost on the n-th hop
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub lose: Option<u32>,
    /// (which call of the service, fault)
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub faults: Vec<(u32, Fault)>,
}

struct Done {
    node: usize,
    call: Call,
    resp: Value,
    want: Option<Want>,
}

fn s(v: &Value) -> &str {
    v.as_str().unwrap_or("")
}
fn n(v: &Value) -> u64 {
    v.as_u64().unwrap_or(0)
}

/// is `t` the trust the named issuer was asked for, dated by one of these readings?
fn is_trust(t: &Value, issuer: &str, who: &str, exp: u64, times: &[u64]) -> bool {
    let (Some(by), Some(pk)) = (Pk::from_peer_id(issuer), Pk::from_peer_id(who)) else { return false };
    let Ok(sig) = bs58::decode(s(&t["signature"])).into_vec() else { return false };
    let iat = n(&t["issued_at"]);
    s(&t["issued_for"]) == who && n(&t["expires_at"]) == exp && times.contains(&iat) && by.verify(&trust_digest(&pk, exp, iat), &sig)
}
fn is_rev(t: &Value, issuer: &str, who: &str, times: &[u64]) -> bool {
    let (Some(by), Some(pk)) = (Pk::from_peer_id(issuer), Pk::from_peer_id(who)) else { return false };
    let Ok(sig) = bs58::decode(s(&t["signature"])).into_vec() else { return false };
    let at = n(&t["revoked_at"]);
    s(&t["revoked_peer_id"]) == who && s(&t["revoked_by"]) == issuer && times.contains(&at) && by.verify(&revocation_digest(&pk, at), &sig)
}

impl Exec {
    /// What the client gets back, if anything.
    pub fn particle(&mut self, p: &Particle) -> Result<Option<Vec<Value>>, Viol> {
        let prog = match aqua::program() {
            Ok(p) => p,
            Err(e) => {
                eprintln!("the published functions cannot be read: {e}");
                std::process::exit(2);
            }
        };
        let keys: Vec<Kp> = p.keys.iter().filter_map(|(a, k)| Kp::restore(a, k)).collect();
        for i in 0..self.nodes.len() {
            self.ensure_up(i)?;
        }
        let mut log: Vec<Done> = vec![];
        let mut readings: Vec<(String, u64)> = vec![];
        let (mut calls, mut hops, mut reads) = (0u32, 0u32, 0u64);
        let mut declined = false;
        let mut touched = false;
        let start = p.at.map(|i| p.hosts[i].clone()).unwrap_or_else(|| p.init.clone());
        let result = {
            let mut net = |q: Need| -> Result<Value, Flow<Option<Viol>>> {
                let (peer, a) = match q {
                    Need::Hop(to) => {
                        hops += 1;
                        if to != p.init && !p.hosts.contains(&to) {
                            return Err(Flow::Fail(format!("no peer {to}")));
                        }
                        if p.lose == Some(hops - 1) {
                            return Err(Flow::Stop(None));
                        }
                        return Ok(Value::Null);
                    }
                    Need::Ask(peer, a) => (peer, a),
                };
                let node = p.hosts.iter().position(|h| *h == peer);
                match (a.service.as_str(), a.f.as_str()) {
                    ("peer", "timestamp_sec") => {
                        let base = match node {
                            Some(i) => p.clocks[i],
                            None if peer == p.init => *p.clocks.last().unwrap(),
                            None => return Err(Flow::Fail(format!("no peer {peer}"))),
                        };
                        let t = base + reads * p.pace;
                        reads += 1;
                        readings.push((peer, t));
                        Ok(json!(t))
                    }
                    ("op", "array_length") => match a.args.first().and_then(|v| v.as_array()) {
                        Some(l) => Ok(json!(l.len())),
                        None => Err(Flow::Fail("array_length of something else".into())),
                    },
                    ("op", "noop") => Ok(Value::Null),
                    (id, "sign") if peer == p.init => {
                        let bytes: Vec<u8> = a.args[0].as_array().into_iter().flatten().map(|b| n(b) as u8).collect();
                        // the peer's own signer goes by its default name as well
                        let who = if id == "sig" { p.init.as_str() } else { id };
                        match keys.iter().find(|k| k.peer == who) {
                            Some(k) if !p.declines => Ok(json!({"success": true, "signature": [k.sign(&bytes)], "error": []})),
                            Some(_) => {
                                declined = true;
                                Ok(json!({"success": false, "signature": [], "error": ["the signer declines"]}))
                            }
                            None => Err(Flow::Fail(format!("no signer {id} at the client"))),
                        }
                    }
                    ("trust-graph", f) => {
                        let Some(node) = node else { return Err(Flow::Fail(format!("{f} called on {peer}, which has no trust graph"))) };
                        let call = Call {
                            node,
                            f: f.to_string(),
                            args: a.args,
                            cp: Cp {
                                init_peer_id: p.init.clone(),
                                service_id: "trust-graph".into(),
                                service_creator_peer_id: p.owner.clone(),
                                host_id: peer,
                                particle_id: format!("p{}", self.n),
                                tetraplets: a.tets,
                            },
                            faults: p.faults.iter().filter(|x| x.0 == calls).map(|x| x.1).collect(),
                            note: String::new(),
                        };
                        calls += 1;
                        let want = if self.judge_on { self.judges[node].expects(&mut self.kr, &call) } else { None };
                        match self.call(&call) {
                            Err(v) => Err(Flow::Stop(Some(v))),
                            Ok(None) => {
                                // it may have been made, or not
                                log.push(Done { node, call, resp: Value::Null, want });
                                    Err(Flow::Stop(None))
                            }
                            Ok(Some(r)) => {
                                touched |= self.last_faulty;
                                match r {
                                    Resp::Ok(v) => {
                                        log.push(Done { node, call, resp: v.clone(), want });
                                        Ok(v)
                                    }
                                    x => Err(Flow::Fail(format!("{f}: {x:?}"))),
                                }
                            }
                        }
                    }
                    (s, f) => Err(Flow::Fail(format!("no function {s}.{f} on {peer}"))),
                }
            };
            Aqua::new(prog, &p.init, &p.relay_id(), &start, &mut net).run(&p.f, &p.args)
        };
        // the particle leaves in time for its answer to be lost as well
        let answer = match result {
            Err(Flow::Stop(Some(v))) => return Err(v),
            Err(Flow::Stop(None)) => None,
            Err(Flow::Fail(e)) => {
                return Err(self.viol(VKind::Aqua, &p.f, None, None, touched, format!("{} does not come to an end: {e}", p.f)));
            }
            Ok(v) => Some(v),
        };
        let bad = |m: String| Err(self.viol(VKind::Aqua, &p.f, None, None, touched, m));
        // what it did
        let times: Vec<u64> = readings.iter().filter(|r| r.0 == p.hosts[p.relay]).map(|r| r.1).collect();
        let a = &p.args;
        let here = p.at.unwrap_or(usize::MAX);
        let to = |v: &Value| p.hosts.iter().position(|h| h == s(v)).unwrap_or(usize::MAX);
        type Is<'b> = (usize, &'static str, Box<dyn Fn(&[Value]) -> bool + 'b>);
        let is = |node: usize, f: &'static str, x: Box<dyn Fn(&[Value]) -> bool>| -> Is { (node, f, x) };
        let steps: Vec<Is> = match p.f.as_str() {
            "set_root" => {
                let a = a.clone();
                vec![is(here, "set_root", Box::new(move |x| x == a))]
            }
            "import_trust" => {
                let a = a.clone();
                vec![is(here, "add_trust", Box::new(move |x| x[..2] == a[..]))]
            }
            "import_revocation" => {
                let a = a.clone();
                vec![is(here, "revoke", Box::new(move |x| x[0] == a[0]))]
            }
            "insert_cert" => {
                let a = a.clone();
                vec![is(here, "insert_cert", Box::new(move |x| x[0] == a[0]))]
            }
            "add_trust" => {
                let (a, t) = (a.clone(), times.clone());
                vec![is(to(&a[0]), "add_trust", Box::new(move |x| x[1] == a[1] && is_trust(&x[0], s(&a[1]), s(&a[2]), n(&a[3]), &t)))]
            }
            "add_root_trust" => {
                let (a, b, t) = (a.clone(), a.clone(), times.clone());
                vec![
                    is(to(&a[0]), "set_root", Box::new(move |x| x == &b[1..3])),
                    is(to(&a[0]), "add_trust", Box::new(move |x| x[1] == a[1] && is_trust(&x[0], s(&a[1]), s(&a[1]), n(&a[3]), &t))),
                ]
            }
            "revoke" => {
                let (a, t) = (a.clone(), times.clone());
                vec![is(to(&a[0]), "revoke", Box::new(move |x| is_rev(&x[0], s(&a[1]), s(&a[2]), &t)))]
            }
            _ => vec![],
        };
        let mut done = 0;
        for d in log.iter().filter(|d| is_mutation(&d.call.f)) {
            if done > 0 && steps[done - 1].0 == d.node && steps[done - 1].1 == d.call.f && (steps[done - 1].2)(&d.call.args) {
                continue;
            }
            match steps.get(done) {
                Some((node, f, ok)) if *node == d.node && *f == d.call.f && ok(&d.call.args) => done += 1,
                _ => return bad(format!("{}({}) submits to node {} what was not asked for: {} {}", p.f, short(a), d.node, d.call.f, short(&d.call.args))),
            }
        }
        for d in &log {
            if let Some(i) = ts_arg(&d.call.f) {
                if !host_clock(&d.call.cp, i) {
                    return bad(format!("{} passes a time to {} on node {} that is not a reading of that node's clock", p.f, d.call.f, d.node));
                }
            }
        }
        let fine = |d: &Done| d.resp["success"].as_bool() == Some(true);
        if let Some(i) = log.iter().position(|d| !fine(d)) {
            if log[i + 1..].iter().any(|d| is_mutation(&d.call.f)) && !log[i].resp.is_null() {
                return bad(format!("{} goes on changing things after {} failed", p.f, log[i].call.f));
            }
        }
        let Some(r) = answer else {
            self.stats.probe("aqua_cut_short");
            return Ok(None);
        };
        let wrong = log.iter().find(|d| !fine(d));
        let failed = declined || wrong.is_some();
        let opt = |v: &Value| -> Result<Option<Value>, ()> {
            match v {
                Value::Array(l) => Ok(l.first().cloned()),
                _ => Err(()),
            }
        };
        let no = |m: &str, r: &[Value]| format!("{}({}) {m}: it returned {}", p.f, short(a), short(r));
        // a call that failed although everything was in order
        if let (Some(d), false) = (wrong, touched || declined) {
            let sound = a.iter().filter_map(|v| v.as_str()).all(|x| Pk::from_peer_id(x).is_some());
            let given = matches!(p.f.as_str(), "import_trust" | "import_revocation" | "insert_cert" | "verify_trust");
            let excused = match &d.want {
                Some(Want::Refuse(w)) => match w {
                    Why::NotOwner | Why::Expired | Why::Future => true,
                    Why::Malformed => !sound || given,
                    Why::Provenance => false,
                    _ => given,
                },
                // the model leaves it open, or is not sure of the node's state
                _ => n(&d.call.args.first().unwrap_or(&Value::Null)["expires_at"]) == ts_arg(&d.call.f).map(|i| n(&d.call.args[i])).unwrap_or(u64::MAX) || given || !sound || !self.judge_on,
            };
            if !excused {
                return bad(format!("{}({}) fails although nothing is in its way: {} answers {}", p.f, short(a), d.call.f, d.resp));
            }
        }
        match p.f.as_str() {
            "import_trust" | "add_trust" | "add_root_trust" | "import_revocation" | "revoke" => {
                let Some(Ok(e)) = r.first().map(opt) else { return bad(no("has no result", &r)) };
                match e {
                    None if failed => return bad(no("reports no error although a step failed", &r)),
                    None if done != steps.len() => return bad(no("reports no error although not everything was done", &r)),
                    Some(_) if !failed => return bad(no("reports an error although every step succeeded", &r)),
                    Some(e) if s(&e).is_empty() => return bad(no("reports an error without saying which", &r)),
                    _ => {}
                }
                self.stats.probe(&format!("aqua_{}_{}", p.f, if failed { "error" } else { "done" }));
            }
            "issue_trust" | "issue_revocation" => {
                let (Some(Ok(x)), Some(Ok(e))) = (r.first().map(opt), r.get(1).map(opt)) else { return bad(no("has no result", &r)) };
                if x.is_some() == e.is_some() {
                    return bad(no("returns neither or both of statement and error", &r));
                }
                if e.is_some() != failed {
                    return bad(no("reports an error, or none, wrongly", &r));
                }
                if let Some(x) = x {
                    let ok = if p.f == "issue_trust" { is_trust(&x, s(&a[0]), s(&a[1]), n(&a[2]), &times) } else { is_rev(&x, s(&a[0]), s(&a[1]), &times) };
                    if !ok {
                        return bad(no("yields another statement than was asked for", &r));
                    }
                }
                self.stats.probe(&format!("aqua_{}_{}", p.f, if failed { "error" } else { "done" }));
            }
            "isFluencePeer" => {
                let (Some(Ok(x)), Some(Ok(e))) = (r.first().map(opt), r.get(1).map(opt)) else { return bad(no("has no result", &r)) };
                if failed {
                    if x.is_some() || e.is_none() {
                        return bad(no("hides an error", &r));
                    }
                } else {
                    // the label every packaged certificate carries
                    let pk = crate::deploy::package();
                    let ts = readings.iter().rev().find(|r| Some(&r.0) == p.hosts.get(here)).map(|r| r.1).unwrap_or(p.clocks[here]);
                    let clock = Tet { peer_pk: p.hosts[here].clone(), service_id: "peer".into(), function_name: "timestamp_sec".into(), json_path: String::new() };
                    let c = Call {
                        node: here,
                        f: "get_host_certs_from".into(),
                        args: vec![json!(pk.label), json!(ts)],
                        cp: Cp {
                            init_peer_id: p.init.clone(),
                            service_id: "trust-graph".into(),
                            service_creator_peer_id: p.owner.clone(),
                            host_id: p.hosts[here].clone(),
                            particle_id: "label".into(),
                            tetraplets: vec![vec![Tet { peer_pk: p.init.clone(), ..Default::default() }], vec![clock]],
                        },
                        faults: vec![],
                        note: String::new(),
                    };
                    let answer = self.call(&c)?;
                    let Some(Resp::Ok(answer)) = answer else { return Ok(Some(r)) };
                    let labelled = certs_of(&answer).iter().any(|c| c.len() == 3 && c[0].peer == pk.root && c[1].peer == pk.label);
                    let bad = |m: String| Err(self.viol(VKind::Aqua, &p.f, None, None, touched, m));
                    if x != Some(json!(labelled)) || e.is_some() {
                        return bad(no(if labelled { "does not recognise a labelled peer" } else { "recognises a peer without the label" }, &r));
                    }
                    self.stats.probe(if labelled { "aqua_isFluencePeer_true" } else { "aqua_isFluencePeer_false" });
                }
            }
            f => {
                // the answer of the node it runs on
                let spec: Vec<Value> = a.clone();
                let same = |d: &Done| {
                    let mut x = d.call.args.clone();
                    if let Some(i) = ts_arg(f) {
                        x.remove(i);
                    }
                    d.node == here && d.call.f == f && x == spec
                };
                let Some(got) = r.first() else { return bad(no("has no result", &r)) };
                if !log.iter().any(|d| same(d) && d.resp == *got) {
                    return bad(no("does not return the node's answer", &r));
                }
                self.stats.probe(&format!("aqua_{f}_{}", if failed { "error" } else { "done" }));
            }
        }
        Ok(Some(r))
    }
}

impl Particle {
    fn relay_id(&self) -> String {
        self.hosts[self.relay].clone()
    }
}

fn short(v: &[Value]) -> String {
    let mut t = v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ");
    if t.len() > 700 {
        let cut = (0..=700).rev().find(|i| t.is_char_boundary(*i)).unwrap_or(0);
        t.truncate(cut);
        t.push('…');
    }
    t
}
