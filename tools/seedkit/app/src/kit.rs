//! A minimal Marine host: the service's exports called with JSON, its SQLite imports served by real SQLite on a
//! database in a scratch directory, with optional failures.
#![allow(dead_code, non_snake_case)]
use fluence_keypair::KeyPair;
use libsqlite3_sys as ffi;
use marine_rs_sdk::{CallParameters, SecurityTetraplet};
use marine_sqlite_connector::{DBExecDescriptor, DBOpenDescriptor, DBPrepareDescriptor};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::ffi::{c_int, CStr, CString};
use std::path::PathBuf;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Duration;
use trust_graph::{Revocation, Trust};

pub use tg_service::main as service_main;

type R = Result<Value, String>;
macro_rules! exports {
    ($($f:ident => $s:literal),* $(,)?) => {
        extern "Rust" { $( #[link_name = $s] fn $f(args: Vec<Value>) -> R; )* }
        fn dispatch(name: &str, args: Vec<Value>) -> R {
            match name { $( stringify!($f) => unsafe { $f(args) }, )* _ => Err(format!("no such function: {name}")) }
        }
    };
}
exports! {
    set_root => "tgsim_export_set_root",
    insert_cert_raw => "tgsim_export_insert_cert_raw",
    insert_cert => "tgsim_export_insert_cert",
    get_all_certs => "tgsim_export_get_all_certs",
    get_all_certs_from => "tgsim_export_get_all_certs_from",
    get_host_certs => "tgsim_export_get_host_certs",
    get_host_certs_from => "tgsim_export_get_host_certs_from",
    get_weight => "tgsim_export_get_weight",
    get_weight_from => "tgsim_export_get_weight_from",
    get_trust_bytes => "tgsim_export_get_trust_bytes",
    issue_trust => "tgsim_export_issue_trust",
    verify_trust => "tgsim_export_verify_trust",
    add_trust => "tgsim_export_add_trust",
    get_revocation_bytes => "tgsim_export_get_revocation_bytes",
    issue_revocation => "tgsim_export_issue_revocation",
    revoke => "tgsim_export_revoke",
    export_revocations => "tgsim_export_export_revocations",
}

// ---- the SQLite module ----
/// when > 0: counts down statement steps; the step that reaches 0 fails with an I/O error
pub static FAIL_STEP: AtomicI64 = AtomicI64::new(0);
/// what the failing step returns
pub static FAIL_CODE: AtomicI64 = AtomicI64::new(10);
/// when > 0: counts down statement steps; the process dies right after the one that reaches 0
pub static DIE_AFTER_STEP: AtomicI64 = AtomicI64::new(0);
pub static STEPS: AtomicI64 = AtomicI64::new(0);
pub static DB: Mutex<Option<PathBuf>> = Mutex::new(None);
#[derive(Default)]
struct Tab { next: u32, db: HashMap<u32, usize>, st: HashMap<u32, (usize, u32)>, err: HashMap<u32, c_int> }
static TAB: Mutex<Option<Tab>> = Mutex::new(None);
fn tab<T>(f: impl FnOnce(&mut Tab) -> T) -> T {
    f(TAB.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_with(Default::default))
}
fn db(h: u32) -> *mut ffi::sqlite3 { tab(|t| t.db.get(&h).copied().unwrap_or(0)) as *mut _ }
fn st(h: u32) -> *mut ffi::sqlite3_stmt { tab(|t| t.st.get(&h).map(|x| x.0).unwrap_or(0)) as *mut _ }

#[no_mangle] pub fn tgsim_host_sqlite3_open_v2(_f: &str, flags: i32, _v: &str) -> DBOpenDescriptor {
    let p = DB.lock().unwrap().clone().expect("database path");
    let c = CString::new(p.to_str().unwrap()).unwrap();
    let mut raw = std::ptr::null_mut();
    let ret_code = unsafe { ffi::sqlite3_open_v2(c.as_ptr(), &mut raw, flags, std::ptr::null()) };
    let db_handle = tab(|t| { t.next += 1; t.db.insert(t.next, raw as usize); t.next });
    DBOpenDescriptor { ret_code, db_handle }
}
#[no_mangle] pub fn tgsim_host_sqlite3_close(h: u32) -> i32 { tab(|t| t.db.remove(&h)).map(|p| unsafe { ffi::sqlite3_close_v2(p as *mut _) }).unwrap_or(0) }
#[no_mangle] pub fn tgsim_host_sqlite3_prepare_v2(h: u32, sql: &str) -> DBPrepareDescriptor {
    let mut raw = std::ptr::null_mut();
    let rc = unsafe { ffi::sqlite3_prepare_v2(db(h), sql.as_ptr() as *const _, sql.len() as c_int, &mut raw, std::ptr::null_mut()) };
    let s = if rc == 0 { tab(|t| { t.next += 1; t.st.insert(t.next, (raw as usize, h)); t.next }) } else { 0 };
    DBPrepareDescriptor { ret_code: rc, stmt_handle: s, tail: 0 }
}
#[no_mangle] pub fn tgsim_host_sqlite3_exec(h: u32, sql: &str, _c: i32, _a: i32) -> DBExecDescriptor {
    let c = CString::new(sql).unwrap();
    let ret_code = unsafe { ffi::sqlite3_exec(db(h), c.as_ptr(), None, std::ptr::null_mut(), std::ptr::null_mut()) };
    DBExecDescriptor { ret_code, err_msg: if ret_code == 0 { String::new() } else { tgsim_host_sqlite3_errmsg(h) } }
}
#[no_mangle] pub fn tgsim_host_sqlite3_libversion_number() -> i32 { unsafe { ffi::sqlite3_libversion_number() } }
#[no_mangle] pub fn tgsim_host_sqlite3_changes(h: u32) -> i32 { unsafe { ffi::sqlite3_changes(db(h)) } }
#[no_mangle] pub fn tgsim_host_sqlite3_total_changes(h: u32) -> i32 { unsafe { ffi::sqlite3_total_changes(db(h)) } }
#[no_mangle] pub fn tgsim_host_sqlite3_busy_timeout(h: u32, ms: u32) -> i32 { unsafe { ffi::sqlite3_busy_timeout(db(h), ms as c_int) } }
#[no_mangle] pub fn tgsim_host_sqlite3_errmsg(h: u32) -> String {
    if tab(|t| t.err.contains_key(&h)) { return "injected failure".to_string(); }
    unsafe { CStr::from_ptr(ffi::sqlite3_errmsg(db(h))) }.to_string_lossy().into_owned()
}
#[no_mangle] pub fn tgsim_host_sqlite3_errcode(h: u32) -> i32 { tab(|t| t.err.get(&h).copied()).unwrap_or_else(|| unsafe { ffi::sqlite3_errcode(db(h)) }) }
#[no_mangle] pub fn tgsim_host_sqlite3_column_type(s: u32, i: u32) -> i32 { unsafe { ffi::sqlite3_column_type(st(s), i as c_int) } }
#[no_mangle] pub fn tgsim_host_sqlite3_column_name(s: u32, i: u32) -> String { unsafe { CStr::from_ptr(ffi::sqlite3_column_name(st(s), i as c_int)) }.to_string_lossy().into_owned() }
#[no_mangle] pub fn tgsim_host_sqlite3_step(s: u32) -> i32 {
    STEPS.fetch_add(1, SeqCst);
    let h = tab(|t| t.st.get(&s).map(|x| x.1).unwrap_or(0));
    tab(|t| t.err.remove(&h));
    if FAIL_STEP.load(SeqCst) > 0 && FAIL_STEP.fetch_sub(1, SeqCst) == 1 {
        let c = FAIL_CODE.load(SeqCst) as c_int;
        tab(|t| t.err.insert(h, c));
        return c;
    }
    let rc = unsafe { ffi::sqlite3_step(st(s)) };
    if DIE_AFTER_STEP.load(SeqCst) > 0 && DIE_AFTER_STEP.fetch_sub(1, SeqCst) == 1 { std::process::exit(77); }
    rc
}
#[no_mangle] pub fn tgsim_host_sqlite3_reset(s: u32) -> i32 { unsafe { ffi::sqlite3_reset(st(s)) } }
#[no_mangle] pub fn tgsim_host_sqlite3_bind_blob(s: u32, p: i32, b: &Vec<u8>, _x: i32) -> i32 { unsafe { ffi::sqlite3_bind_blob(st(s), p, b.as_ptr() as *const _, b.len() as c_int, ffi::SQLITE_TRANSIENT()) } }
#[no_mangle] pub fn tgsim_host_sqlite3_bind_double(s: u32, p: i32, v: f64) -> i32 { unsafe { ffi::sqlite3_bind_double(st(s), p, v) } }
#[no_mangle] pub fn tgsim_host_sqlite3_bind_int64(s: u32, p: i32, v: i64) -> i32 { unsafe { ffi::sqlite3_bind_int64(st(s), p, v) } }
#[no_mangle] pub fn tgsim_host_sqlite3_bind_null(s: u32, p: i32) -> i32 { unsafe { ffi::sqlite3_bind_null(st(s), p) } }
#[no_mangle] pub fn tgsim_host_sqlite3_bind_text(s: u32, p: i32, t: &str, _x: i32) -> i32 { unsafe { ffi::sqlite3_bind_text(st(s), p, t.as_ptr() as *const _, t.len() as c_int, ffi::SQLITE_TRANSIENT()) } }
#[no_mangle] pub fn tgsim_host_sqlite3_column_count(s: u32) -> i32 { unsafe { ffi::sqlite3_column_count(st(s)) } }
fn bytes(s: u32, i: i32) -> Vec<u8> { unsafe {
    let p = ffi::sqlite3_column_blob(st(s), i) as *const u8;
    let n = ffi::sqlite3_column_bytes(st(s), i) as usize;
    if p.is_null() || n == 0 { vec![] } else { std::slice::from_raw_parts(p, n).to_vec() }
} }
#[no_mangle] pub fn tgsim_host_sqlite3_column_blob(s: u32, i: i32) -> Vec<u8> { bytes(s, i) }
#[no_mangle] pub fn tgsim_host_sqlite3_column_double(s: u32, i: i32) -> f64 { unsafe { ffi::sqlite3_column_double(st(s), i) } }
#[no_mangle] pub fn tgsim_host_sqlite3_column_int64(s: u32, i: u32) -> i64 { unsafe { ffi::sqlite3_column_int64(st(s), i as c_int) } }
#[no_mangle] pub fn tgsim_host_sqlite3_column_text(s: u32, i: u32) -> String { String::from_utf8_lossy(&bytes(s, i as i32)).into_owned() }
#[no_mangle] pub fn tgsim_host_sqlite3_column_bytes(s: u32, i: u32) -> i32 { unsafe { ffi::sqlite3_column_bytes(st(s), i as c_int) } }
#[no_mangle] pub fn tgsim_host_sqlite3_finalize(s: u32) -> i32 { tab(|t| t.st.remove(&s)).map(|x| unsafe { ffi::sqlite3_finalize(x.0 as *mut _) }).unwrap_or(0) }
#[no_mangle] pub fn tgsim_host_sqlite3_soft_heap_limit64(_n: i64) -> i64 { 0 }
#[no_mangle] pub fn tgsim_host_sqlite3_hard_heap_limit64(_n: i64) -> i64 { 0 }

// ---- calling the service ----
pub fn s(d: u64) -> Duration { Duration::from_secs(d) }
pub fn ed(n: u8) -> KeyPair { KeyPair::from_secret_key(vec![n; 32], fluence_keypair::KeyFormat::Ed25519).unwrap() }
pub fn secp(n: u8) -> KeyPair { KeyPair::from_secret_key(vec![n; 32], fluence_keypair::KeyFormat::Secp256k1).unwrap() }
pub fn pid(k: &KeyPair) -> String { k.get_peer_id().to_base58() }
pub fn trust(by: &KeyPair, to: &KeyPair, exp: u64, iat: u64) -> Trust { Trust::create(by, to.public(), s(exp), s(iat)) }
pub fn jtrust(t: &Trust) -> Value {
    let r = t.signature.get_raw_signature();
    json!({"issued_for": t.issued_for.to_peer_id().to_base58(), "expires_at": t.expires_at.as_secs(), "issued_at": t.issued_at.as_secs(),
        "signature": bs58::encode(r.bytes).into_string(), "sig_type": String::from(r.sig_type)})
}
pub fn revocation(by: &KeyPair, to: &KeyPair, at: u64) -> Revocation { Revocation::create(by, to.public(), s(at)) }
pub fn jrev(t: &Revocation) -> Value {
    let r = t.signature.get_raw_signature();
    json!({"revoked_peer_id": t.pk.to_peer_id().to_base58(), "revoked_at": t.revoked_at.as_secs(), "revoked_by": t.revoked_by.to_peer_id().to_base58(),
        "signature": bs58::encode(r.bytes).into_string(), "sig_type": String::from(r.sig_type)})
}

/// A node whose data lies in `dir`; each one runs the service on a thread of its own, as a freshly started process would.
pub struct Node { pub host: String, pub owner: String, dir: PathBuf }
pub fn scratch() -> PathBuf { PathBuf::from(std::env::var("DEMO_SCRATCH").expect("DEMO_SCRATCH")) }
impl Node {
    pub fn new(name: &str) -> Node {
        let dir = scratch().join(name);
        std::fs::create_dir_all(&dir).unwrap();
        Node { host: "12D3KooWHostHostHostHostHostHostHostHostHostHostHost1".into(), owner: pid(&ed(200)), dir }
    }
    /// starts the service (again) on the node's database and runs `f` against it
    pub fn run<T: Send>(&self, f: impl FnOnce(&Node) -> T + Send) -> T {
        *DB.lock().unwrap() = Some(self.dir.join("trust-graph.sqlite"));
        std::thread::scope(|sc| sc.spawn(|| { service_main(); f(self) }).join()).unwrap()
    }
    pub fn params(&self, init: &str, args: usize, ts: Option<usize>) -> CallParameters {
        let mut tetraplets = vec![vec![SecurityTetraplet::literal_tetraplet(init)]; args];
        if let Some(i) = ts { tetraplets[i] = vec![SecurityTetraplet::new(self.host.clone(), "peer", "timestamp_sec", "")]; }
        CallParameters { init_peer_id: init.into(), service_id: "tg".into(), service_creator_peer_id: self.owner.clone(), host_id: self.host.clone(), particle_id: "p".into(), tetraplets }
    }
    pub fn call_with(&self, f: &str, args: Value, cp: CallParameters) -> Value {
        marine_rs_sdk::__sim_set_call_parameters(cp);
        dispatch(f, args.as_array().unwrap().clone()).unwrap()
    }
    /// a call by some client, the last argument being the host's timestamp
    pub fn call(&self, f: &str, args: Value) -> Value {
        let n = args.as_array().unwrap().len();
        let cp = self.params(&pid(&ed(201)), n, n.checked_sub(1));
        self.call_with(f, args, cp)
    }
    pub fn set_root(&self, k: &KeyPair, len: u32) -> Value { let cp = self.params(&self.owner, 2, None); self.call_with("set_root", json!([pid(k), len]), cp) }
    pub fn add(&self, by: &KeyPair, to: &KeyPair, exp: u64, iat: u64, now: u64) -> Value { self.call("add_trust", json!([jtrust(&trust(by, to, exp, iat)), pid(by), now])) }
    pub fn revoke(&self, by: &KeyPair, to: &KeyPair, at: u64, now: u64) -> Value { self.call("revoke", json!([jrev(&revocation(by, to, at)), now])) }
    pub fn weight(&self, k: &KeyPair, now: u64) -> u64 { let r = self.call("get_weight", json!([pid(k), now])); assert_eq!(r["success"], true, "{r}"); r["weight"].as_u64().unwrap() }
    pub fn certs(&self, k: &KeyPair, now: u64) -> Vec<Value> { let r = self.call("get_all_certs", json!([pid(k), now])); assert_eq!(r["success"], true, "{r}"); r["certificates"].as_array().unwrap().clone() }
    pub fn revocations(&self, k: &KeyPair) -> Vec<Value> { let r = self.call("export_revocations", json!([pid(k)])); assert_eq!(r["success"], true, "{r}"); r["revocations"].as_array().unwrap().clone() }
}
