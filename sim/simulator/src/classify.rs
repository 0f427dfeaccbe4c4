//! Which properties does a minimised violation speak about? By minimality every event of the trace is
//! needed for the failure, so its ingredients tell.
use crate::exec::{VKind, Viol};
use crate::model::{certs_of, host_clock, is_mutation, is_query, success, ts_arg, Want, Why};
use crate::node::Resp;
use crate::shrink::{run, Setup};
use crate::trace::{Call, Ev, FKind};
use serde_json::Value;
use std::collections::BTreeMap;

fn is_crash(k: &FKind) -> bool {
    matches!(k, FKind::Crash { .. })
}

/// (subject, issuer, issued, expires) of every statement a call carries
fn stmts(kr: &mut crate::model::Keyring, c: &Call) -> Vec<(String, String, u64, u64)> {
    let g = |v: &Value, f: &str| v[f].as_str().unwrap_or("").to_string();
    match c.f.as_str() {
        "add_trust" | "verify_trust" => {
            let v = &c.args[0];
            vec![(g(v, "issued_for"), c.args[1].as_str().unwrap_or("").into(), v["issued_at"].as_u64().unwrap_or(0), v["expires_at"].as_u64().unwrap_or(0))]
        }
        "revoke" => {
            let v = &c.args[0];
            vec![(g(v, "revoked_peer_id"), g(v, "revoked_by"), v["revoked_at"].as_u64().unwrap_or(0), u64::MAX)]
        }
        "insert_cert" | "insert_cert_raw" => {
            let ch = if c.f == "insert_cert" {
                c.args[0]["chain"].as_array().cloned().unwrap_or_default()
            } else {
                crate::model::chain_of_text(kr, c.args[0].as_str().unwrap_or(""))
            };
            let mut by = ch.first().map(|t| g(t, "issued_for")).unwrap_or_default();
            ch.iter()
                .map(|t| {
                    let r = (g(t, "issued_for"), by.clone(), t["issued_at"].as_u64().unwrap_or(0), t["expires_at"].as_u64().unwrap_or(0));
                    by = g(t, "issued_for");
                    r
                })
                .collect()
        }
        _ => vec![],
    }
}

pub fn relevant(p: &str, s: &Setup, evs: &[Ev], v: &Viol) -> bool {
    match v.kind {
        VKind::Diverge => return p == "C11",
        _ if p == "C19" => return evs.iter().any(|e| matches!(e, Ev::Install { .. })),
        VKind::Aqua => return p == "C20",
        _ if p == "C20" => return matches!(evs.last(), Some(Ev::Aqua(_))),
        VKind::Deploy => return false,
        _ if p == "C11" => return matches!(v.kind, VKind::Panic | VKind::BootFail) && evs.iter().any(|e| matches!(e, Ev::Heal { .. })),
        _ => {}
    }
    let (_, mut ex) = run(s, evs);
    let calls: Vec<&Call> = evs
        .iter()
        .filter_map(|e| match e {
            Ev::Call(c) => Some(c),
            _ => None,
        })
        .collect();
    let Some(last) = evs.last() else { return false };
    let lastc = match last {
        Ev::Call(c) => Some(c),
        _ => None,
    };
    let f = v.f.as_str();
    let crash = evs.iter().any(|e| match e {
        Ev::Crash { .. } => true,
        Ev::Call(c) => c.faults.iter().any(|f| is_crash(&f.kind)),
        Ev::Boot { .. } => true,
        _ => false,
    });
    let fault = evs.iter().any(|e| match e {
        Ev::Call(c) => c.faults.iter().any(|f| !is_crash(&f.kind)),
        Ev::Boot { faults, .. } => faults.iter().any(|f| !is_crash(&f.kind)),
        _ => false,
    });
    let why = |w: &[Why]| ex.wants.iter().any(|(_, x)| matches!(x, Want::Refuse(y) if w.contains(y)));
    let want_ok = !matches!(v.want, None | Some(Want::Refuse(_)));
    let answered_ok = v.resp.as_ref().and_then(success) == Some(true);
    let refused = want_ok && !answered_ok;
    let submits = matches!(f, "add_trust" | "verify_trust" | "revoke" | "insert_cert" | "insert_cert_raw");
    let abort = v.kind == VKind::Panic;
    let refusals = why(&[Why::NotOwner, Why::Malformed, Why::Provenance, Why::Future, Why::Expired, Why::Signature, Why::SignatureForm, Why::EmptyCert]);
    let sig = why(&[Why::Signature, Why::SignatureForm]);
    let provenance = why(&[Why::Provenance, Why::Future]);
    let malformed = why(&[Why::Malformed, Why::EmptyCert, Why::SignatureForm]);
    let not_owner = why(&[Why::NotOwner]);
    let expired = why(&[Why::Expired]);
    let zero = ex.wants.iter().any(|(i, x)| *x == Want::AddWeight(0) && *i < v.at);
    let mut kr = std::mem::take(&mut ex.kr);
    let all: Vec<_> = calls.iter().flat_map(|c| stmts(&mut kr, c)).collect();
    let tss: Vec<u64> = calls.iter().filter_map(|c| ts_arg(&c.f).and_then(|i| c.args[i].as_u64())).collect();
    let (extra, missing, weight_up, weight_off, altered) = compare(v);
    let query = is_query(f);
    match p {
        "C01" => sig || submits && refused,
        "C02" => query && (extra || weight_up || abort) || f == "add_trust" && (weight_up || abort),
        "C03" if f.ends_with("_from") || f.contains("host") => query && !general_is_right(s, evs),
        "C03" => query && (extra || missing || weight_off || abort || refused),
        "C04" => calls.iter().any(|c| c.f == "revoke") || f == "export_revocations",
        "C05" => {
            let mut m: BTreeMap<(&str, &str), u32> = BTreeMap::new();
            for s in &all {
                *m.entry((&s.0, &s.1)).or_default() += 1;
            }
            m.values().any(|n| *n > 1)
        }
        "C06" => {
            let moved = tss.iter().any(|t| *t != tss[0]);
            expired || moved || all.iter().any(|s| s.3 >= 1 << 62 && s.3 != u64::MAX || tss.iter().any(|t| s.3 <= t.saturating_add(1)))
                || all.iter().any(|s| s.3 == u64::MAX) && calls.iter().all(|c| c.f != "revoke")
        }
        "C07" => crash || v.kind == VKind::BootFail,
        "C08" => fault,
        "C09" => provenance || calls.iter().any(|c| ts_arg(&c.f).map(|i| !host_clock(&c.cp, i)).unwrap_or(false)) || lastc.map(|c| ts_arg(&c.f).is_some()).unwrap_or(false) && refused,
        "C10" => {
            not_owner || f == "set_root" || calls.iter().filter(|c| c.f == "set_root").count() > 1
                || crash && calls.iter().any(|c| c.f == "set_root") && all.is_empty()
                || all.is_empty() && weight_off
        }
        "C12" => abort || malformed || matches!(v.resp, Some(Resp::ArgErr(_))),
        "C13" => {
            f.starts_with("issue_") || f.ends_with("_bytes") || f == "export_revocations" || altered || submits && refused
                || calls.iter().any(|c| c.note.starts_with("import") || c.f == "insert_cert" || c.f == "insert_cert_raw" || c.f == "export_revocations")
        }
        "C14" => (f.ends_with("_from") || f.contains("host")) && general_is_right(s, evs),
        "C16" => refusals && v.want.as_ref().map(|w| !matches!(w, Want::Refuse(_))).unwrap_or(true)
            || evs[..evs.len() - 1].iter().any(|e| matches!(e, Ev::Call(c) if !is_mutation(&c.f))),
        "C17" => f == "add_trust" && (weight_off || refused || abort) || zero
            || query && (missing || weight_off) && !crash && !fault && calls[..calls.len() - 1].iter().all(|c| c.f == "set_root" || c.f == "add_trust"),
        _ => true,
    }
}

/// (something unjustified, something missing, weight too high, weight wrong, a field changed on the way)
fn compare(v: &Viol) -> (bool, bool, bool, bool, bool) {
    let (Some(w), Some(Resp::Ok(r))) = (&v.want, &v.resp) else { return (false, false, false, false, false) };
    let got = r["weight"].as_u64().unwrap_or(0);
    match w {
        Want::Weight(x, p) => (false, false, got > *x as u64, got != *x as u64, r["peer_id"].as_str() != Some(p)),
        Want::AddWeight(x) => (false, false, got > *x as u64, got != *x as u64, false),
        Want::Certs(set) => {
            let g = certs_of(r);
            let extra = g.iter().any(|c| !set.contains(c));
            let missing = set.iter().any(|c| !g.contains(c)) || g.len() != set.len();
            let peers = |c: &Vec<crate::model::Link>| c.iter().map(|l| l.peer.clone()).collect::<Vec<_>>();
            let altered = g.iter().any(|c| !set.contains(c) && set.iter().any(|d| peers(d) == peers(c)));
            (extra, missing, false, false, altered)
        }
        _ => (false, false, false, false, false),
    }
}

/// Does the unrestricted query, asked instead of the last one, get the right answer?
fn general_is_right(s: &Setup, evs: &[Ev]) -> bool {
    let mut evs = evs.to_vec();
    let Some(Ev::Call(c)) = evs.last_mut() else { return false };
    let ts = c.args[ts_arg(&c.f).unwrap_or(0)].clone();
    let peer = if c.f.contains("host") { Value::String(c.cp.host_id.clone()) } else { c.args[0].clone() };
    c.f = if c.f.starts_with("get_weight") { "get_weight".into() } else { "get_all_certs".into() };
    let tet = c.cp.tetraplets.last().cloned().unwrap_or_default();
    c.cp.tetraplets = vec![vec![Default::default()], tet];
    c.args = vec![peer, ts];
    run(s, &evs).0.is_none()
}
