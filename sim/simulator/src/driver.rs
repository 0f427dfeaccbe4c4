//! Batches of seeded runs over worker processes, reporting, replay, evidence.
use crate::classify;
use crate::exec::{Stats, Viol};
use crate::gen;
use crate::lib_world as lw;
use crate::shrink::{self, Setup};
use crate::trace::{Ev, FKind};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc::{channel, RecvTimeoutError};
use std::time::{Duration, Instant};

/// a run normally takes well under a second
const HANG: u64 = 40;
/// a worker silent for this long is ended; its run is then repeated, with more time, to be sure
const SILENT: u64 = 20;

fn judged(p: &str) -> bool {
    p != "C11"
}
/// peers using the libraries directly, no service
fn is_lib(p: &str) -> bool {
    p == "C15" || p == "C18" || p == "C21"
}
fn lib_json(p: &str, seed: u64, types: &[u8], evs: &[lw::LEv], v: &lw::LViol, digest: u64, original: usize, tries: u32) -> Value {
    json!({
        "world": "lib", "property": p, "seed": seed, "types": types, "rnd": seed,
        "violation": {"at_event": v.at, "kind": v.kind, "call": v.call, "detail": v.detail},
        "digest": format!("{digest:016x}"), "events_before_minimising": original, "minimising_runs": tries, "events": evs,
    })
}

pub fn seed_of(p: &str, base: u64, i: u64) -> u64 {
    let h = p.bytes().fold(base.wrapping_mul(0x9e3779b97f4a7c15), |a, b| crate::rng::mix(a ^ b as u64));
    (h >> 16).wrapping_add(i)
}

fn viol_json(v: &Viol) -> Value {
    json!({"at_event": v.at, "kind": format!("{:?}", v.kind), "call": v.f, "detail": v.detail, "under_fault": v.faulty})
}

fn replay_json(p: &str, seed: u64, s: &Setup, evs: &[Ev], v: &Viol, digest: u64, original: usize, tries: u32) -> Value {
    json!({
        "world": "service", "property": p, "seed": seed, "nodes": s.nodes, "judge": s.judge, "rnd": s.rnd,
        "violation": viol_json(v), "digest": format!("{digest:016x}"),
        "events_before_minimising": original, "minimising_runs": tries, "events": evs,
    })
}

fn limit_memory() {
    let l = libc::rlimit { rlim_cur: 4 << 30, rlim_max: 4 << 30 };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
    let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe { libc::setrlimit(libc::RLIMIT_CORE, &c) };
}

pub struct Totals {
    pub runs: u64,
    pub stats: Stats,
    pub msgs: [u64; 5],
    pub events: u64,
    pub blind: u64,
    pub nontrivial: HashSet<u64>,
    pub known_runs: [u64; 2],
    pub sample: Option<Value>,
}
impl Default for Totals {
    fn default() -> Self {
        Totals { runs: 0, stats: Stats::default(), msgs: [0; 5], events: 0, blind: 0, nontrivial: HashSet::new(), known_runs: [0; 2], sample: None }
    }
}
impl Totals {
    fn add(&mut self, s: &Stats) {
        let t = &mut self.stats;
        t.calls += s.calls;
        t.boots += s.boots;
        t.crashes += s.crashes;
        t.disk_ops += s.disk_ops;
        t.sim_secs += s.sim_secs;
        for (k, v) in &s.faults.0 {
            *t.faults.0.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &s.probes {
            *t.probes.entry(k.clone()).or_default() += v;
        }
        if t.states.len() < 400_000 {
            t.states.extend(s.states.iter());
        }
        self.blind += s.blind as u64;
        for b in 0..2 {
            if s.known & (1 << b) != 0 {
                self.known_runs[b] += 1;
            }
        }
    }
    fn to_json(&self) -> Value {
        json!({
            "runs": self.runs, "calls": self.stats.calls, "boots": self.stats.boots, "crashes": self.stats.crashes,
            "disk_ops": self.stats.disk_ops, "sim_secs": self.stats.sim_secs, "faults": self.stats.faults.0,
            "probes": self.stats.probes, "states": self.stats.states.iter().collect::<Vec<_>>(), "msgs": self.msgs,
            "events": self.events, "blind": self.blind, "nontrivial": self.nontrivial.iter().collect::<Vec<_>>(),
            "known": self.known_runs, "sample": self.sample,
        })
    }
    fn merge(&mut self, v: &Value) {
        let n = |k: &str| v[k].as_u64().unwrap_or(0);
        self.runs += n("runs");
        self.stats.calls += n("calls");
        self.stats.boots += n("boots");
        self.stats.crashes += n("crashes");
        self.stats.disk_ops += n("disk_ops");
        self.stats.sim_secs += n("sim_secs");
        self.events += n("events");
        self.blind += n("blind");
        let map = |v: &Value, m: &mut BTreeMap<String, u64>| {
            for (k, x) in v.as_object().into_iter().flatten() {
                *m.entry(k.clone()).or_default() += x.as_u64().unwrap_or(0);
            }
        };
        map(&v["faults"], &mut self.stats.faults.0);
        map(&v["probes"], &mut self.stats.probes);
        self.stats.states.extend(v["states"].as_array().into_iter().flatten().filter_map(|x| x.as_u64()));
        self.nontrivial.extend(v["nontrivial"].as_array().into_iter().flatten().filter_map(|x| x.as_u64()));
        for i in 0..5 {
            self.msgs[i] += v["msgs"][i].as_u64().unwrap_or(0);
        }
        for i in 0..2 {
            self.known_runs[i] += v["known"][i].as_u64().unwrap_or(0);
        }
    }
}

/// What makes a run count as non-trivial for a property (beyond having been executed).
fn nontrivial(p: &str, s: &Stats) -> bool {
    let has = |k: &str| s.probes.keys().any(|x| x.starts_with(k));
    match p {
        "C01" => has("act_Forge"),
        "C02" | "C03" | "C14" | "C17" => has("several_certificates") || has("chain_of_3") || has("final_certificates_nonempty"),
        "C04" | "C05" => has("act_Revoke") && has("final_certificates_nonempty"),
        "C06" => has("clock_at_expiry_edge"),
        "C07" => s.faults.0.keys().any(|k| k.contains("crash") || k.contains("power")),
        "C08" => has("fault_in_"),
        "C09" => has("act_BadProv") || has("act_Future"),
        "C10" => has("act_Root") || has("act_NonOwner"),
        "C11" => has("nodes_agree_on_certificates"),
        "C12" => has("act_Malformed"),
        "C15" => has("delivered_accepted") && has("delivered_refused"),
        "C18" => has("restarted_same_identity"),
        "C19" => has("package_promise_checked"),
        "C21" => has("graph_trust_recorded") && (has("graph_one_certificate") || has("graph_several_certificates")),
        "C20" => has("aqua_add_trust_done") && has("aqua_get_"),
        "C13" => has("act_Transfer") || has("act_Issue"),
        "C16" => has("act_Forge") || has("act_BadProv") || has("act_Malformed") || has("act_Future") || has("act_NonOwner"),
        _ => true,
    }
}
fn nontrivial_rule(p: &str) -> &'static str {
    match p {
        "C01" => "the run submitted forged statements",
        "C02" | "C03" | "C14" | "C17" => "the run ended with non-empty certificates or chains of 3 or more links",
        "C04" | "C05" => "the run contained revocations and ended with non-empty certificates",
        "C06" => "a node's clock was put at the edge of an expiry",
        "C07" => "at least one process crash or power loss happened",
        "C08" => "at least one storage fault fired inside a call",
        "C09" => "timestamps of foreign origin or statements dated ahead were submitted",
        "C10" => "roots were reconfigured, by the owner or by others, during the run",
        "C11" => "after healing the nodes agreed on at least one certificate",
        "C12" => "malformed calls were made",
        "C13" => "certificates or revocations were exported and imported, or the issue flow was used",
        "C16" => "refused calls were made",
        "C15" => "received certificates were accepted and others refused",
        "C18" => "a peer restarted with its identity from stored key material",
        "C20" => "a published function added a trust and another one queried the graph",
        "C21" => "a graph over a storage of the application recorded trusts and gave certificates",
        "C19" => "an installation went through and every promise of the package was looked up",
        _ => "every run",
    }
}

struct Found {
    relevant: bool,
    replay: Value,
    detail: String,
}

fn one(p: &str, seed: u64, tot: &mut Totals, budget: Duration, say_min: &dyn Fn()) -> Option<Found> {
    if is_lib(p) {
        let o = lw::seeded(p, seed, None);
        if tot.sample.is_none() {
            tot.sample = Some(json!({"seed": seed, "key_types": o.types, "events": o.evs.iter().take(16).collect::<Vec<_>>(), "length": o.evs.len()}));
        }
        tot.runs += 1;
        tot.events += o.evs.len() as u64;
        tot.add(&o.stats);
        if nontrivial(p, &o.stats) {
            tot.nontrivial.insert(o.digest);
        }
        for i in 0..5 {
            tot.msgs[i] += o.msgs[i];
        }
        let v = o.viol?;
        say_min();
        let (evs, mv, tries) = lw::shrink(&o.types, seed, &o.evs, &v, budget);
        let (again, digest) = lw::run(&o.types, seed, &evs);
        let v = again.unwrap_or(mv);
        return Some(Found { relevant: v.prop == p, detail: v.detail.clone(), replay: lib_json(p, seed, &o.types, &evs, &v, digest, o.evs.len(), tries) });
    }
    let cfg = gen::profile(p);
    let (s, evs, v, ex, msgs) = shrink::seeded(&cfg, judged(p), seed, None);
    if tot.sample.is_none() {
        tot.sample = Some(json!({"seed": seed, "events": evs.iter().take(12).map(brief).collect::<Vec<_>>(), "length": evs.len()}));
    }
    tot.runs += 1;
    tot.events += evs.len() as u64;
    tot.add(&ex.stats);
    if nontrivial(p, &ex.stats) {
        tot.nontrivial.insert(ex.digest.0);
    }
    for i in 0..5 {
        tot.msgs[i] += msgs[i];
    }
    drop(ex);
    let v = v?;
    say_min();
    let m = shrink::shrink(&s, &evs, &v, budget);
    let (again, ex) = shrink::run(&s, &m.evs);
    let digest = ex.digest.0;
    let relevant = classify::relevant(p, &s, &m.evs, &m.viol);
    let v = again.unwrap_or(m.viol);
    Some(Found { relevant, detail: v.detail.clone(), replay: replay_json(p, seed, &s, &m.evs, &v, digest, evs.len(), m.tries) })
}

fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

pub fn worker(p: &str, first: u64, step: u64, count: u64, wall: u64) -> i32 {
    limit_memory();
    let t0 = Instant::now();
    let mut tot = Totals::default();
    let mut foreign = 0;
    let out = std::io::stdout();
    let say = |s: String| {
        let mut o = out.lock();
        let _ = writeln!(o, "{s}");
        let _ = o.flush();
    };
    let mut told = Instant::now();
    for k in 0..count {
        if t0.elapsed().as_secs() >= wall {
            break;
        }
        if told.elapsed().as_secs() >= 3 {
            say(format!("T {}", std::mem::take(&mut tot).to_json()));
            told = Instant::now();
        }
        let seed = first.wrapping_add(k * step);
        say(format!("S {seed}"));
        if let Some(f) = one(p, seed, &mut tot, Duration::from_secs(if foreign == 0 { 25 } else { 5 }), &|| say(format!("M {seed}"))) {
            say(format!("V {}", json!({"relevant": f.relevant, "detail": f.detail, "replay": f.replay, "seed": seed})));
            if f.relevant {
                break;
            }
            foreign += 1;
            if foreign >= 60 {
                break;
            }
        }
    }
    say(format!("E {}", tot.to_json()));
    0
}

pub fn digests(p: &str, first: u64, count: u64) -> i32 {
    limit_memory();
    for k in 0..count {
        if is_lib(p) {
            let o = lw::seeded(p, first + k, None);
            println!("{} {:016x} {} {}", first + k, o.digest, o.evs.len(), o.viol.is_some());
            continue;
        }
        let (_, evs, v, ex, _) = shrink::seeded(&gen::profile(p), judged(p), first + k, None);
        println!("{} {:016x} {} {}", first + k, ex.digest.0, evs.len(), v.is_some());
    }
    0
}

pub fn journal(p: &str, seed: u64, file: &str) -> i32 {
    limit_memory();
    quiet_panics();
    let f = std::fs::File::create(file).expect("journal");
    if is_lib(p) {
        return lw::seeded(p, seed, Some(f)).viol.is_some() as i32;
    }
    let (_, _, v, _, _) = shrink::seeded(&gen::profile(p), judged(p), seed, Some(f));
    v.is_some() as i32
}

fn load(file: &str) -> (Value, Setup, Vec<Ev>) {
    let r: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
    let s = Setup { nodes: r["nodes"].as_u64().unwrap() as usize, judge: r["judge"].as_bool().unwrap(), rnd: r["rnd"].as_u64().unwrap() };
    let evs: Vec<Ev> = serde_json::from_value(r["events"].clone()).expect("events");
    (r, s, evs)
}

fn load_lib(r: &Value) -> (Vec<u8>, u64, Vec<lw::LEv>) {
    (serde_json::from_value(r["types"].clone()).expect("types"), r["rnd"].as_u64().unwrap(), serde_json::from_value(r["events"].clone()).expect("events"))
}

pub fn trace(file: &str) -> i32 {
    limit_memory();
    quiet_panics();
    let raw: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
    if raw["world"] == "lib" {
        let (t, rnd, evs) = load_lib(&raw);
        return lw::run(&t, rnd, &evs).0.is_some() as i32;
    }
    let (_, s, evs) = load(file);
    shrink::run(&s, &evs).0.is_some() as i32
}

/// exit 1: reproduced exactly; 0: the trace passes on this tree; 3: fails differently
pub fn replay(file: &str) -> i32 {
    let raw: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
    if raw["violation"]["kind"] == "Died" || raw["violation"]["kind"] == "Hang" {
        let st = run_timed(Command::new(std::env::current_exe().unwrap()).arg("trace").arg(file), Duration::from_secs(HANG));
        let k = match st {
            None => "Hang",
            Some(0) | Some(1) => {
                println!("the trace passes");
                return 0;
            }
            Some(_) => "Died",
        };
        println!("reproduced: {k}: {}", raw["violation"]["detail"].as_str().unwrap_or(""));
        return 1;
    }
    if raw["world"] == "lib" {
        quiet_panics();
        let (t, rnd, evs) = load_lib(&raw);
        let (v, digest) = lw::run(&t, rnd, &evs);
        let Some(v) = v else {
            println!("the trace passes (digest {digest:016x})");
            return 0;
        };
        println!("{} at event {} of {}: {}", v.kind, v.at, evs.len(), v.detail);
        let same = raw["violation"]["detail"].as_str() == Some(&v.detail) && raw["digest"].as_str() == Some(&format!("{digest:016x}"));
        println!("digest {digest:016x}: {}", if same { "identical to the recorded run" } else { "differs from the recorded run" });
        return if same { 1 } else { 3 };
    }
    let (r, s, evs) = load(file);
    let (v, ex) = shrink::run(&s, &evs);
    match v {
        None => {
            println!("the trace passes (digest {:016x}, findings {})", ex.digest.0, ex.stats.known);
            0
        }
        Some(v) => {
            println!("{:?} at event {} of {}: {}", v.kind, v.at, evs.len(), v.detail);
            let same = r["violation"]["detail"].as_str() == Some(&v.detail) && r["digest"].as_str() == Some(&format!("{:016x}", ex.digest.0));
            println!("digest {:016x}: {}", ex.digest.0, if same { "identical to the recorded run" } else { "differs from the recorded run" });
            if same { 1 } else { 3 }
        }
    }
}

pub fn finding(p: &str, bit: u8, first: u64, file: &str) -> i32 {
    let cfg = gen::profile(p);
    for seed in first..first + 5000 {
        let (s, mut evs, v, ex, _) = shrink::seeded(&cfg, true, seed, None);
        if v.is_some() || ex.stats.known & bit == 0 || ex.stats.blind {
            continue;
        }
        let shows = |e: &[Ev]| {
            let (v, ex) = shrink::run(&s, e);
            v.is_none() && ex.stats.known == bit
        };
        let mut size = evs.len();
        while size > 0 {
            let mut i = 0;
            while i < evs.len() {
                let mut c = evs[..i].to_vec();
                c.extend_from_slice(&evs[(i + size).min(evs.len())..]);
                if shows(&c) {
                    evs = c;
                } else {
                    i += size;
                }
            }
            size = if size > 1 && size < 3 { 1 } else { size / 2 };
        }
        if !shows(&evs) {
            continue;
        }
        let r = json!({"world": "service", "property": p, "seed": seed, "nodes": s.nodes, "judge": s.judge, "rnd": s.rnd, "events": evs});
        std::fs::write(file, serde_json::to_string_pretty(&r).unwrap()).unwrap();
        println!("seed {seed}: {} events", evs.len());
        return 0;
    }
    1
}

/// Processor time of a process so far, in ms.
fn cpu_ms(pid: u32) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let t = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    (t(11) + t(12)) * 10
}

/// After `waited` for a process given `limit`: it had the processor for most of that, or was given three times as long.
/// A machine too busy to run it is not a hang.
fn stuck(pid: u32, cpu0: u64, waited: Duration, limit: Duration) -> bool {
    waited >= limit && (waited >= limit * 3 || cpu_ms(pid).saturating_sub(cpu0) * 10 >= limit.as_millis() as u64 * 7)
}

fn run_timed(c: &mut Command, d: Duration) -> Option<i32> {
    let mut ch = c.stdout(Stdio::null()).stderr(Stdio::null()).spawn().expect("spawn");
    let end = Instant::now() + d;
    loop {
        if let Some(st) = ch.try_wait().expect("wait") {
            return Some(st.code().unwrap_or(-1));
        }
        if Instant::now() > end && stuck(ch.id(), 0, end.elapsed() + d, d) {
            let _ = ch.kill();
            let _ = ch.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

fn timed_output(c: &mut Command, d: Duration) -> Option<String> {
    let mut ch = c.stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
    let mut o = ch.stdout.take()?;
    let h = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = std::io::Read::read_to_string(&mut o, &mut s);
        s
    });
    let end = Instant::now() + d;
    while ch.try_wait().ok()?.is_none() {
        if Instant::now() > end && stuck(ch.id(), 0, end.elapsed() + d, d) {
            let _ = ch.kill();
            let _ = ch.wait();
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    h.join().ok()
}

/// A run that killed or hung its process: get its trace from a journalled rerun, shrink it out of process.
fn post_mortem(p: &str, seed: u64, dir: &str, patience: Duration) -> Option<(Value, String)> {
    let exe = std::env::current_exe().unwrap();
    let jf = format!("{dir}/{p}-{seed}.journal");
    let st = run_timed(Command::new(&exe).args(["journal", p, &seed.to_string(), &jf]), Duration::from_secs(HANG));
    let kind = match st {
        None => "Hang",
        Some(0) | Some(1) => {
            let _ = std::fs::remove_file(&jf);
            return None;
        }
        Some(_) => "Died",
    };
    let mut evs: Vec<Value> = std::fs::read_to_string(&jf).ok()?.lines().filter_map(|l| serde_json::from_str(l).ok()).collect();
    let _ = std::fs::remove_file(&jf);
    if evs.is_empty() {
        return None;
    }
    let lib = is_lib(p);
    let nodes = if lib { 0 } else { gen::Gen::nodes_of(&gen::profile(p), seed) };
    let types = lw::types_of(p, seed);
    let original = evs.len();
    let tf = format!("{dir}/{p}-{seed}.try");
    let mk = |evs: &[Value]| {
        let f = last_call(evs);
        let what = if kind == "Hang" { format!("{f} did not return within {HANG} s") } else { format!("{f} killed the process (stack or memory exhausted, or abort)") };
        json!({"world": if lib { "lib" } else { "service" }, "types": types, "property": p, "seed": seed, "nodes": nodes, "judge": judged(p), "rnd": seed,
            "violation": {"at_event": evs.len() - 1, "kind": kind, "call": f, "detail": what}, "digest": "",
            "events_before_minimising": original, "minimising_runs": 0, "events": evs})
    };
    let end = Instant::now() + patience;
    let mut size = (evs.len() / 2).max(1);
    loop {
        let mut i = 0;
        while i + 1 < evs.len() && Instant::now() < end {
            let hi = (i + size).min(evs.len() - 1);
            let mut c = evs[..i].to_vec();
            c.extend_from_slice(&evs[hi..]);
            let _ = std::fs::write(&tf, mk(&c).to_string());
            let r = run_timed(Command::new(&exe).arg("trace").arg(&tf), Duration::from_secs(6));
            if c.len() < evs.len() && !matches!(r, Some(0) | Some(1)) {
                evs = c;
            } else {
                i += size;
            }
        }
        if size == 1 || Instant::now() > end {
            break;
        }
        size = (size / 2).max(1);
    }
    let _ = std::fs::remove_file(&tf);
    let r = mk(&evs);
    let d = r["violation"]["detail"].as_str().unwrap_or("").to_string();
    Some((r, d))
}

fn last_call(evs: &[Value]) -> String {
    let Some(e) = evs.last() else { return String::new() };
    match e["Call"]["f"].as_str() {
        Some(f) => f.to_string(),
        None if e.get("Crash").is_some() || e.get("Boot").is_some() => "restart".into(),
        None => e.as_object().and_then(|o| o.keys().next().cloned()).unwrap_or_default(),
    }
}

fn death_relevant(p: &str, evs: &Value) -> bool {
    if p == "C21" {
        return last_call(evs.as_array().map_or(&[], |a| a)) == "Graph";
    }
    if is_lib(p) {
        let keys = ["Store", "Crash", "Regen", "PkSend", "SigSend", "Sign"].contains(&last_call(evs.as_array().map_or(&[], |a| a)).replace("restart", "Crash").as_str());
        return keys == (p == "C18");
    }
    let evs: Vec<Ev> = serde_json::from_value(evs.clone()).unwrap_or_default();
    let f = match evs.last() {
        Some(Ev::Call(c)) => c.f.clone(),
        _ => "restart".into(),
    };
    let has = |g: &str| evs.iter().any(|e| matches!(e, Ev::Call(c) if c.f == g));
    let submits = matches!(f.as_str(), "add_trust" | "verify_trust" | "revoke" | "insert_cert" | "insert_cert_raw");
    match p {
        "C01" => submits,
        "C10" => f == "set_root",
        "C13" => f.starts_with("insert_cert") || f.starts_with("issue_") || f.ends_with("_bytes") || f == "export_revocations",
        "C17" => f == "add_trust",
        "C19" => evs.iter().any(|e| matches!(e, Ev::Install { .. })),
        "C20" => matches!(evs.last(), Some(Ev::Aqua(_))),
        "C02" | "C03" => f.starts_with("get_") || f == "add_trust",
        "C04" => has("revoke"),
        "C07" => evs.iter().any(|e| matches!(e, Ev::Crash { .. } | Ev::Boot { .. }) || matches!(e, Ev::Call(c) if c.faults.iter().any(|f| matches!(f.kind, FKind::Crash { .. })))),
        "C08" => evs.iter().any(|e| matches!(e, Ev::Call(c) if c.faults.iter().any(|f| !matches!(f.kind, FKind::Crash { .. })))),
        "C11" | "C12" => true,
        "C14" => f.ends_with("_from") || f.contains("host"),
        _ => false,
    }
}

struct W {
    child: Child,
    seed: u64,
    since: Instant,
    limit: u64,
    done: bool,
    started: u64,
    deaths: u32,
    /// processor time when it last said something
    cpu: u64,
}

pub fn check(p: &str, tier: &str, base: u64, evidence: &str, replays: &str, known: &str) -> i32 {
    quiet_panics();
    let t0 = Instant::now();
    let _ = std::fs::create_dir_all(replays);
    let cores = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16) as u64;
    let (runs, wall) = budget(p, tier);
    let exe = std::env::current_exe().unwrap();
    let first = seed_of(p, base, 0);
    // failures that kill or hang a process are looked into until then
    let limit = if tier == "thorough" { wall + 30 } else { wall + 200 };
    let (tx, rx) = channel::<(usize, Option<String>)>();
    let spawn = |i: u64, from: u64, left: u64| -> Child {
        let mut child = Command::new(&exe)
            .args(["worker", p, &from.to_string(), &cores.to_string(), &left.to_string(), &wall.saturating_sub(t0.elapsed().as_secs()).to_string()])
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("worker");
        let o = child.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(o).lines().map_while(Result::ok) {
                if tx.send((i as usize, Some(l))).is_err() {
                    return;
                }
            }
            let _ = tx.send((i as usize, None));
        });
        child
    };
    let mut ws: Vec<W> = vec![];
    for i in 0..cores {
        ws.push(W { child: spawn(i, first.wrapping_add(i), runs / cores + 1), seed: 0, since: Instant::now(), limit: SILENT, done: false, started: 0, deaths: 0, cpu: 0 });
    }
    let mut samples: Vec<Value> = vec![];
    let mut autopsies = 0;
    let mut tot = Totals::default();
    let mut foreign: Vec<Value> = vec![];
    let mut found: Option<(Value, String)> = None;
    let mut unexplained: Vec<String> = vec![];
    let mut ended = vec![false; ws.len()];
    while ended.iter().any(|e| !e) {
        let mut dead: Option<usize> = None;
        match rx.recv_timeout(Duration::from_millis(300)) {
            Ok((i, Some(l))) => {
                let w = &mut ws[i];
                w.since = Instant::now();
                w.cpu = cpu_ms(w.child.id());
                match l.split_at(1.min(l.len())) {
                    ("S", r) => {
                        w.seed = r.trim().parse().unwrap_or(0);
                        w.limit = SILENT;
                        w.started += 1;
                    }
                    ("M", _) => w.limit = HANG + 60,
                    ("V", r) => {
                        let v: Value = serde_json::from_str(r.trim()).unwrap_or(Value::Null);
                        w.limit = HANG + 60;
                        if v["relevant"] == true {
                            if found.is_none() {
                                found = Some((v["replay"].clone(), v["detail"].as_str().unwrap_or("").into()));
                            }
                        } else {
                            foreign.push(json!({"seed": v["seed"], "detail": v["detail"], "replay": v["replay"]}));
                        }
                    }
                    ("E", r) => {
                        w.done = true;
                        let v = serde_json::from_str(r.trim()).unwrap_or(Value::Null);
                        tot.merge(&v);
                        if samples.len() < 2 && v["sample"].is_object() {
                            samples.push(v["sample"].clone());
                        }
                    }
                    ("T", r) => {
                        let v = serde_json::from_str(r.trim()).unwrap_or(Value::Null);
                        tot.merge(&v);
                        if samples.len() < 2 && v["sample"].is_object() {
                            samples.push(v["sample"].clone());
                        }
                    }
                    _ => {}
                }
            }
            Ok((i, None)) => {
                ended[i] = true;
                if !ws[i].done {
                    dead = Some(i);
                }
            }
            Err(RecvTimeoutError::Timeout) => {
                for (i, w) in ws.iter_mut().enumerate() {
                    if !ended[i] && !w.done && stuck(w.child.id(), w.cpu, w.since.elapsed(), Duration::from_secs(w.limit)) {
                        let _ = w.child.kill();
                        w.since = Instant::now();
                    }
                }
                if t0.elapsed().as_secs() > limit + 60 {
                    break;
                }
            }
            Err(_) => break,
        }
        if found.is_some() {
            break;
        }
        if let Some(i) = dead {
            let seed = ws[i].seed;
            let _ = ws[i].child.wait();
            ws[i].deaths += 1;
            let left = (runs / cores + 1).saturating_sub(ws[i].started);
            if left > 0 && ws[i].deaths < 20 && t0.elapsed().as_secs() + 2 < wall {
                ws[i].child = spawn(i as u64, seed.wrapping_add(cores), left);
                ws[i].since = Instant::now();
                ws[i].cpu = 0;
                ended[i] = false;
            }
            if autopsies >= 6 || t0.elapsed().as_secs() > limit {
                unexplained.push(format!("worker died at seed {seed}, not looked into"));
                continue;
            }
            autopsies += 1;
            match post_mortem(p, seed, replays, Duration::from_secs(40)) {
                Some((r, d)) => {
                    if death_relevant(p, &r["events"]) {
                        found = Some((r, d));
                        break;
                    }
                    foreign.push(json!({"seed": seed, "detail": d, "replay": r}));
                }
                None => unexplained.push(format!("worker died at seed {seed}, the rerun completed")),
            }
        }
    }
    for w in ws.iter_mut() {
        let _ = w.child.kill();
        let _ = w.child.wait();
    }
    // stats of workers stopped early are lost; what ended in time is counted

    let mut code = 0;
    let mut replay_path = String::new();
    if let Some((r, d)) = &found {
        let name = format!("{replays}/{p}-{}.json", r["seed"]);
        std::fs::write(&name, serde_json::to_string_pretty(r).unwrap()).expect("replay file");
        replay_path = name.clone();
        let st = run_timed(Command::new(&exe).arg("replay").arg(&name), Duration::from_secs(HANG * 2));
        println!("{d}");
        println!("seed {}, {} event(s) after minimising ({} before); replay in a fresh process: {}",
            r["seed"], r["events"].as_array().map(|a| a.len()).unwrap_or(0), r["events_before_minimising"],
            match st { Some(1) => "identical", Some(0) => "NOT reproduced", Some(3) => "fails differently", _ => "no answer" });
        println!("VIOLATION property={p} replay={name}");
        code = 1;
    }
    for (i, f) in foreign.iter().enumerate().take(5) {
        let name = format!("{replays}/{p}-other-{i}.json");
        let _ = std::fs::write(&name, serde_json::to_string_pretty(&f["replay"]).unwrap());
        println!("note: seed {} fails in a way that is not about {p}: {} (replay {name})", f["seed"], f["detail"].as_str().unwrap_or("").chars().take(300).collect::<String>());
    }
    for u in unexplained.iter().take(5) {
        println!("note: {u}");
    }

    // findings recorded for this property: show that they are still there
    let mut known_seen = vec![];
    for k in known_of(known, p) {
        let f = format!("{}/{}", std::path::Path::new(known).parent().unwrap().display(), k["replay"].as_str().unwrap_or(""));
        let bit = k["bit"].as_u64().unwrap_or(0) as u8;
        let out = timed_output(Command::new(&exe).arg("replay").arg(&f), Duration::from_secs(HANG)).unwrap_or_default();
        let bits: u8 = out.split("findings ").nth(1).and_then(|x| x.split(')').next()).and_then(|x| x.parse().ok()).unwrap_or(0);
        if out.starts_with("the trace passes") && bits & bit != 0 {
            println!("KNOWN-FINDING: property={p} {}", k["what"].as_str().unwrap_or(""));
            known_seen.push(k["id"].clone());
        }
    }

    // determinism: the same seeds, in two fresh processes
    let (mut det_same, mut det_diff) = (0, 0);
    if code == 0 {
        let n = if tier == "thorough" { "40" } else { "6" };
        let get = |exe: &std::path::Path, p: &str| timed_output(Command::new(exe).args(["digests", p, &first.to_string(), n]), Duration::from_secs(3 * HANG)).unwrap_or_default();
        let h1 = std::thread::spawn({
            let (exe, p) = (exe.clone(), p.to_string());
            move || timed_output(Command::new(&exe).args(["digests", &p, &first.to_string(), n]), Duration::from_secs(3 * HANG)).unwrap_or_default()
        });
        let h2 = get(&exe, p);
        let h1 = h1.join().unwrap_or_default();
        for (a, b) in h1.lines().zip(h2.lines()) {
            if a == b { det_same += 1 } else { det_diff += 1 }
        }
    }

    let wall_s = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": p, "tier": tier, "seed": base, "level": "exploration",
        "coverage": {
            "evaluations": tot.runs,
            "distinct_nontrivial": tot.nontrivial.len(),
            "rule": format!("one evaluation = one simulated run of the whole system generated from one seed; counted as distinct by the digest of everything observable in it (every disk operation and every answer), non-trivial when {}", nontrivial_rule(p)),
            "samples": samples,
            "first_seed": first, "worker_processes": cores,
            "runs_per_hour": if wall_s > 0.0 { (tot.runs as f64 * 3600.0 / wall_s) as u64 } else { 0 },
            "simulated_seconds": tot.stats.sim_secs,
            "events": tot.events, "service_calls": tot.stats.calls, "simulated_disk_operations": tot.stats.disk_ops,
            "process_starts": tot.stats.boots, "crashes": tot.stats.crashes,
            "faults_injected": tot.stats.faults.0,
            "network": {"sent": tot.msgs[0], "dropped": tot.msgs[1], "duplicated": tot.msgs[2], "delayed": tot.msgs[3], "held_by_partition": tot.msgs[4]},
            "distinct_states": tot.stats.states.len(),
            "state_measure": "content of a node's reference-model state (roots, pairs, times, revocations) after a call; for C11: distinct answers; for C15 and C18: distinct certificates held by peers; for C21: distinct contents of a storage",
            "probes": tot.stats.probes,
            "runs_ended_early_too_many_possible_states": tot.blind,
            "determinism": {"seeds_run_in_two_processes": det_same + det_diff, "different": det_diff},
            "known_findings_tolerated_runs": {"resurrection_after_expiry": tot.known_runs[0], "caller_chosen_clock": tot.known_runs[1]},
            "known_findings_reproduced": known_seen,
            "failures_not_about_this_property": foreign.len(),
            "components_real": if p == "C21" { json!(["trust-graph/ (TrustGraph, trusts, revocations, certificates, serde forms)", "keypair/"]) } else if is_lib(p) { json!(["trust-graph/ (certificates, trusts, codecs)", "keypair/"]) } else { json!(["service/ (all of it, native build)", "trust-graph/", "keypair/", "marine-sqlite-connector 0.9.2", "SQLite C library"]) },
            "components_simulated": if p == "C21" { json!(["the application's storage (row order, failures, restart over stored content)", "clocks", "applications and hostile peers", "getrandom"]) } else if is_lib(p) { json!(["network between peers", "clocks", "key files, crash and restart", "hostile peers", "getrandom"]) } else { json!(["Marine host boundary (calls, call parameters, tetraplets, logger)", "AIR and Aqua interpreters (C19, C20)", "disk under SQLite (VFS)", "clocks", "network", "clients and hostile peers", "process crash, power loss, restart", "getrandom"]) },
            "replay": replay_path,
        },
        "assumptions": if p == "C21" { json!(["the storage keeps the contract the service's storage keeps: the newest statement of a pair is the one kept, expired trusts are dropped on request, a key's rows are all there", "the signature primitives of ed25519-dalek, libsecp256k1 and ring are correct (the oracle uses them directly)"]) } else if is_lib(p) { json!(["the signature primitives of ed25519-dalek, libsecp256k1 and ring are correct (the oracle uses them directly)"]) } else { json!([
            "the native build behaves as the WASM build of the same source",
            "file deletion by SQLite is durable at once (as in SQLite's own power-loss model); every other unsynced write may be lost or torn on power loss",
            "storage errors at opening the database are injected only at start-up"
        ]) },
        "wall_s": wall_s,
        "violations": code,
    });
    if let Some(d) = std::path::Path::new(evidence).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    std::fs::write(evidence, serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    println!("{p} {tier}: {} runs, {} calls, {} states, {:.1} s{}", tot.runs, tot.stats.calls, tot.stats.states.len(), wall_s, if code == 0 { ", held" } else { ", VIOLATED" });
    if code == 0 && tot.runs.max(ws.iter().map(|w| w.started).sum()) < 100 {
        println!("the check explored next to nothing: no answer");
        code = 2;
    }
    if det_diff > 0 {
        println!("note: {det_diff} of {} seeds did not repeat exactly", det_same + det_diff);
    }
    code
}

fn brief(e: &Ev) -> Value {
    match e {
        Ev::Call(c) => {
            let mut m = Map::new();
            m.insert("node".into(), json!(c.node));
            m.insert("call".into(), json!(c.f));
            let a = serde_json::to_string(&c.args).unwrap_or_default();
            m.insert("args".into(), json!(a.chars().take(160).collect::<String>()));
            if !c.faults.is_empty() {
                m.insert("faults".into(), json!(c.faults));
            }
            if !c.note.is_empty() {
                m.insert("note".into(), json!(c.note));
            }
            Value::Object(m)
        }
        x => serde_json::to_value(x).unwrap_or(Value::Null),
    }
}

fn known_of(file: &str, p: &str) -> Vec<Value> {
    let v: Value = std::fs::read_to_string(file).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(Value::Null);
    v["findings"].as_array().into_iter().flatten().filter(|k| k["property"] == p).cloned().collect()
}

fn budget(p: &str, tier: &str) -> (u64, u64) {
    let env = |k: &str| std::env::var(k).ok().and_then(|x| x.parse().ok());
    let (r, w) = match (tier, p) {
        ("thorough", _) => (2_000_000, 660),
        _ => (4000, 45),
    };
    (env("TGSIM_RUNS").unwrap_or(r), env("TGSIM_WALL").unwrap_or(w))
}
