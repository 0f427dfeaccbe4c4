//! Delta debugging of a failing trace: the result is a smallest-we-found list of events that still fails.
use crate::exec::{Exec, VKind, Viol};
use crate::gen::Gen;
use crate::model::{ts_arg, Want};
use crate::node::Resp;
use crate::trace::{Ev, FKind};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Setup {
    pub nodes: usize,
    pub judge: bool,
    pub rnd: u64,
}

/// Runs a trace in a fresh system.
pub fn run(s: &Setup, evs: &[Ev]) -> (Option<Viol>, Exec) {
    let mut ex = Exec::new(s.nodes, s.judge, s.rnd);
    ex.note_wants = true;
    for e in evs {
        if let Err(v) = ex.step(e) {
            ex.finish();
            return (Some(v), ex);
        }
    }
    ex.finish();
    (None, ex)
}

/// coarse kind of failure that shrinking must not leave
fn class(v: &Viol) -> (u8, bool, bool) {
    let k = match v.kind {
        VKind::Answer => 0,
        VKind::Panic => 1,
        VKind::BootFail => 2,
        VKind::Diverge => 3,
        VKind::Deploy => 4,
        VKind::Aqua => 5,
    };
    let ok = matches!(&v.resp, Some(Resp::Ok(x)) if x["success"].as_bool() == Some(true));
    (k, ok, matches!(v.want, Some(Want::Refuse(_))))
}

pub struct Shrunk {
    pub evs: Vec<Ev>,
    pub viol: Viol,
    pub tries: u32,
}

pub fn shrink(s: &Setup, evs: &[Ev], v: &Viol, budget: Duration) -> Shrunk {
    let end = Instant::now() + budget;
    let cl = class(v);
    let mut best: Vec<Ev> = evs[..=v.at.min(evs.len() - 1)].to_vec();
    let mut viol = v.clone();
    let mut tries = 0u32;
    let mut attempt = |c: &[Ev], best: &mut Vec<Ev>, viol: &mut Viol| -> bool {
        if Instant::now() > end || c.is_empty() {
            return false;
        }
        tries += 1;
        let (r, _) = run(s, c);
        match r {
            Some(x) if class(&x) == cl => {
                *best = c[..=x.at].to_vec();
                *viol = x;
                true
            }
            _ => false,
        }
    };
    // the failing call alone may do with a different history: drop chunks of decreasing size
    loop {
        let before = best.len();
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i + 1 < best.len() {
                let hi = (i + size).min(best.len() - 1);
                let mut c = best[..i].to_vec();
                c.extend_from_slice(&best[hi..]);
                if c.len() < best.len() && attempt(&c, &mut best, &mut viol) {
                    continue;
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size = (size / 2).max(1);
        }
        // faults
        for i in 0..best.len() {
            if i >= best.len() {
                break;
            }
            let mut c = best.clone();
            let changed = match &mut c[i] {
                Ev::Call(x) if !x.faults.is_empty() => {
                    x.faults.clear();
                    true
                }
                Ev::Boot { faults, .. } if !faults.is_empty() => {
                    faults.clear();
                    true
                }
                Ev::Aqua(p) if !p.faults.is_empty() || p.lose.is_some() || p.declines => {
                    p.faults.clear();
                    p.lose = None;
                    p.declines = false;
                    true
                }
                Ev::Install { faults, stop, .. } if !faults.is_empty() || stop.is_some() => {
                    faults.clear();
                    *stop = None;
                    true
                }
                _ => false,
            };
            if changed && attempt(&c, &mut best, &mut viol) {
                continue;
            }
            let mut c = best.clone();
            let mut changed = false;
            match &mut c[i] {
                Ev::Call(x) => {
                    for f in x.faults.iter_mut() {
                        if f.span > 1 {
                            f.span = 1;
                            changed = true;
                        }
                        if let FKind::Crash { power, .. } = &mut f.kind {
                            if *power {
                                *power = false;
                                changed = true;
                            }
                        }
                    }
                }
                Ev::Crash { power, .. } if *power => {
                    *power = false;
                    changed = true;
                }
                _ => {}
            }
            if changed {
                attempt(&c, &mut best, &mut viol);
            }
        }
        if best.len() == before || Instant::now() > end {
            break;
        }
    }
    // does time matter? try one common timestamp
    let ts: Vec<u64> = best
        .iter()
        .filter_map(|e| match e {
            Ev::Call(c) => ts_arg(&c.f).and_then(|i| c.args[i].as_u64()),
            _ => None,
        })
        .collect();
    if ts.iter().any(|t| *t != ts[0]) {
        for t in [*ts.iter().max().unwrap(), *ts.iter().min().unwrap(), *ts.last().unwrap(), ts[0]] {
            let mut c = best.clone();
            for e in c.iter_mut() {
                if let Ev::Call(x) = e {
                    if let Some(i) = ts_arg(&x.f) {
                        x.args[i] = serde_json::json!(t);
                    }
                }
            }
            if attempt(&c, &mut best, &mut viol) {
                break;
            }
        }
    }
    Shrunk { evs: best, viol, tries }
}

/// Generates and executes one seeded run.
pub fn seeded(cfg: &crate::gen::Cfg, judge: bool, seed: u64, journal: Option<std::fs::File>) -> (Setup, Vec<Ev>, Option<Viol>, Exec, [u64; 5]) {
    let s = Setup { nodes: Gen::nodes_of(cfg, seed), judge, rnd: seed };
    let mut ex = Exec::new(s.nodes, s.judge, s.rnd);
    let (trace, v, msgs) = {
        let mut g = Gen::new(cfg, seed, &mut ex);
        g.journal = journal;
        let v = g.run().err();
        (std::mem::take(&mut g.trace), v, g.messages)
    };
    ex.finish();
    (s, trace, v, ex, msgs)
}
