//! The service as a shared object with a small C interface. Every simulated node boot loads its own
//! pristine instance, so process-wide state dies with the simulated process exactly as WASM memory does.
#![allow(non_snake_case, clippy::missing_safety_doc)]
use marine_rs_sdk::CallParameters;
use marine_sqlite_connector::{DBExecDescriptor, DBOpenDescriptor, DBPrepareDescriptor};
use serde_json::Value;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

// the real service's main()
use tg_service::main as service_main;

type R = Result<Value, String>;
macro_rules! exports {
    ($($f:ident => $s:literal),* $(,)?) => {
        extern "Rust" { $( #[link_name = $s] fn $f(args: Vec<Value>) -> R; )* }
        fn dispatch(name: &str, args: Vec<Value>) -> R {
            match name {
                $( stringify!($f) => unsafe { $f(args) }, )*
                _ => Err(format!("no such function: {name}")),
            }
        }
    };
}
exports! {
    set_root => "tgsim_export_set_root",
    insert_cert_raw => "tgsim_export_insert_cert_raw",
    insert_cert => "tgsim_export_insert_cert",
    get_all_certs => "tgsim_export_get_all_certs",
    get_all_certs_from => "tgsim_export_get_all_certs_from",
    get_host_certs => "tgsim_export_get_host_certs",
    get_host_certs_from => "tgsim_export_get_host_certs_from",
    get_weight => "tgsim_export_get_weight",
    get_weight_from => "tgsim_export_get_weight_from",
    get_trust_bytes => "tgsim_export_get_trust_bytes",
    issue_trust => "tgsim_export_issue_trust",
    verify_trust => "tgsim_export_verify_trust",
    add_trust => "tgsim_export_add_trust",
    get_revocation_bytes => "tgsim_export_get_revocation_bytes",
    issue_revocation => "tgsim_export_issue_revocation",
    revoke => "tgsim_export_revoke",
    export_revocations => "tgsim_export_export_revocations",
}

/// SQLite as seen by the service: provided by the simulator (real SQLite on the simulated disk).
#[repr(C)]
#[derive(Clone, Copy)]
pub struct HostTable {
    pub open: extern "C" fn(*const u8, usize, i32, *mut u32) -> i32,
    pub close: extern "C" fn(u32) -> i32,
    pub prepare: extern "C" fn(u32, *const u8, usize, *mut u32, *mut u32) -> i32,
    pub exec: extern "C" fn(u32, *const u8, usize) -> i32,
    pub libversion: extern "C" fn() -> i32,
    pub changes: extern "C" fn(u32) -> i32,
    pub total_changes: extern "C" fn(u32) -> i32,
    pub busy_timeout: extern "C" fn(u32, u32) -> i32,
    pub errmsg: extern "C" fn(u32, *mut usize) -> *const u8,
    pub errcode: extern "C" fn(u32) -> i32,
    pub column_type: extern "C" fn(u32, u32) -> i32,
    pub column_name: extern "C" fn(u32, u32, *mut usize) -> *const u8,
    pub step: extern "C" fn(u32) -> i32,
    pub reset: extern "C" fn(u32) -> i32,
    pub bind_blob: extern "C" fn(u32, i32, *const u8, usize) -> i32,
    pub bind_double: extern "C" fn(u32, i32, f64) -> i32,
    pub bind_int64: extern "C" fn(u32, i32, i64) -> i32,
    pub bind_null: extern "C" fn(u32, i32) -> i32,
    pub bind_text: extern "C" fn(u32, i32, *const u8, usize) -> i32,
    pub column_count: extern "C" fn(u32) -> i32,
    pub column_blob: extern "C" fn(u32, u32, *mut usize) -> *const u8,
    pub column_double: extern "C" fn(u32, u32) -> f64,
    pub column_int64: extern "C" fn(u32, u32) -> i64,
    pub column_text: extern "C" fn(u32, u32, *mut usize) -> *const u8,
    pub column_bytes: extern "C" fn(u32, u32) -> i32,
    pub finalize: extern "C" fn(u32) -> i32,
}

static mut HOST: Option<HostTable> = None;
fn h() -> &'static HostTable {
    unsafe { (*std::ptr::addr_of!(HOST)).as_ref().expect("host table") }
}
unsafe fn vec(p: *const u8, n: usize) -> Vec<u8> {
    if p.is_null() || n == 0 {
        Vec::new()
    } else {
        std::slice::from_raw_parts(p, n).to_vec()
    }
}
unsafe fn string(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(&vec(p, n)).into_owned()
}

#[no_mangle]
pub fn tgsim_host_sqlite3_open_v2(filename: &str, flags: i32, _vfs: &str) -> DBOpenDescriptor {
    let mut db = 0;
    let ret_code = (h().open)(filename.as_ptr(), filename.len(), flags, &mut db);
    DBOpenDescriptor { ret_code, db_handle: db }
}
#[no_mangle]
pub fn tgsim_host_sqlite3_close(db: u32) -> i32 {
    (h().close)(db)
}
#[no_mangle]
pub fn tgsim_host_sqlite3_prepare_v2(db: u32, sql: &str) -> DBPrepareDescriptor {
    let (mut s, mut t) = (0, 0);
    let ret_code = (h().prepare)(db, sql.as_ptr(), sql.len(), &mut s, &mut t);
    DBPrepareDescriptor { ret_code, stmt_handle: s, tail: t }
}
#[no_mangle]
pub fn tgsim_host_sqlite3_exec(db: u32, sql: &str, _cb: i32, _arg: i32) -> DBExecDescriptor {
    let ret_code = (h().exec)(db, sql.as_ptr(), sql.len());
    let err_msg = if ret_code == 0 { String::new() } else { tgsim_host_sqlite3_errmsg(db) };
    DBExecDescriptor { ret_code, err_msg }
}
#[no_mangle]
pub fn tgsim_host_sqlite3_libversion_number() -> i32 {
    (h().libversion)()
}
#[no_mangle]
pub fn tgsim_host_sqlite3_changes(db: u32) -> i32 {
    (h().changes)(db)
}
#[no_mangle]
pub fn tgsim_host_sqlite3_total_changes(db: u32) -> i32 {
    (h().total_changes)(db)
}
#[no_mangle]
pub fn tgsim_host_sqlite3_busy_timeout(db: u32, ms: u32) -> i32 {
    (h().busy_timeout)(db, ms)
}
#[no_mangle]
pub fn tgsim_host_sqlite3_errmsg(db: u32) -> String {
    let mut n = 0;
    let p = (h().errmsg)(db, &mut n);
    unsafe { string(p, n) }
}
#[no_mangle]
pub fn tgsim_host_sqlite3_errcode(db: u32) -> i32 {
    (h().errcode)(db)
}
#[no_mangle]
pub fn tgsim_host_sqlite3_column_type(s: u32, i: u32) -> i32 {
    (h().column_type)(s, i)
}
#[no_mangle]
pub fn tgsim_host_sqlite3_column_name(s: u32, i: u32) -> String {
    let mut n = 0;
    let p = (h().column_name)(s, i, &mut n);
    unsafe { string(p, n) }
}
#[no_mangle]
pub fn tgsim_host_sqlite3_step(s: u32) -> i32 {
    (h().step)(s)
}
#[no_mangle]
pub fn tgsim_host_sqlite3_reset(s: u32) -> i32 {
    (h().reset)(s)
}
#[no_mangle]
pub fn tgsim_host_sqlite3_bind_blob(s: u32, pos: i32, blob: &Vec<u8>, _x: i32) -> i32 {
    (h().bind_blob)(s, pos, blob.as_ptr(), blob.len())
}
#[no_mangle]
pub fn tgsim_host_sqlite3_bind_double(s: u32, pos: i32, v: f64) -> i32 {
    (h().bind_double)(s, pos, v)
}
#[no_mangle]
pub fn tgsim_host_sqlite3_bind_int64(s: u32, pos: i32, v: i64) -> i32 {
    (h().bind_int64)(s, pos, v)
}
#[no_mangle]
pub fn tgsim_host_sqlite3_bind_null(s: u32, pos: i32) -> i32 {
    (h().bind_null)(s, pos)
}
#[no_mangle]
pub fn tgsim_host_sqlite3_bind_text(s: u32, pos: i32, t: &str, _x: i32) -> i32 {
    (h().bind_text)(s, pos, t.as_ptr(), t.len())
}
#[no_mangle]
pub fn tgsim_host_sqlite3_column_count(s: u32) -> i32 {
    (h().column_count)(s)
}
#[no_mangle]
pub fn tgsim_host_sqlite3_column_blob(s: u32, i: i32) -> Vec<u8> {
    let mut n = 0;
    let p = (h().column_blob)(s, i as u32, &mut n);
    unsafe { vec(p, n) }
}
#[no_mangle]
pub fn tgsim_host_sqlite3_column_double(s: u32, i: i32) -> f64 {
    (h().column_double)(s, i as u32)
}
#[no_mangle]
pub fn tgsim_host_sqlite3_column_int64(s: u32, i: u32) -> i64 {
    (h().column_int64)(s, i)
}
#[no_mangle]
pub fn tgsim_host_sqlite3_column_text(s: u32, i: u32) -> String {
    let mut n = 0;
    let p = (h().column_text)(s, i, &mut n);
    unsafe { string(p, n) }
}
#[no_mangle]
pub fn tgsim_host_sqlite3_column_bytes(s: u32, i: u32) -> i32 {
    (h().column_bytes)(s, i)
}
#[no_mangle]
pub fn tgsim_host_sqlite3_finalize(s: u32) -> i32 {
    (h().finalize)(s)
}
#[no_mangle]
pub fn tgsim_host_sqlite3_soft_heap_limit64(_n: i64) -> i64 {
    0
}
#[no_mangle]
pub fn tgsim_host_sqlite3_hard_heap_limit64(_n: i64) -> i64 {
    0
}

thread_local!(static LAST_PANIC: RefCell<String> = RefCell::new(String::new()));

#[no_mangle]
pub unsafe extern "C" fn tgsim_init(table: *const HostTable) {
    HOST = Some(*table);
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = s);
    }));
}

/// Runs on unload so that nothing of this instance stays behind.
#[no_mangle]
pub unsafe extern "C" fn tgsim_fini() {
    let _ = std::panic::take_hook();
}

#[no_mangle]
pub unsafe extern "C" fn tgsim_free(p: *mut u8, n: usize) {
    if !p.is_null() {
        drop(Vec::from_raw_parts(p, n, n));
    }
}

unsafe fn give(s: String, out: *mut *mut u8, out_n: *mut usize) {
    let b = s.into_bytes().into_boxed_slice();
    *out_n = b.len();
    *out = Box::into_raw(b) as *mut u8;
}

/// 0: started; 2: aborted (out = panic message)
#[no_mangle]
pub unsafe extern "C" fn tgsim_boot(out: *mut *mut u8, out_n: *mut usize) -> i32 {
    match catch_unwind(AssertUnwindSafe(service_main)) {
        Ok(_) => {
            give(String::new(), out, out_n);
            0
        }
        Err(_) => {
            give(LAST_PANIC.with(|p| p.borrow().clone()), out, out_n);
            2
        }
    }
}

/// 0: out = JSON result; 1: host-level argument error; 2: the service aborted (panic = WASM trap)
#[no_mangle]
pub unsafe extern "C" fn tgsim_call(
    req: *const u8,
    req_n: usize,
    out: *mut *mut u8,
    out_n: *mut usize,
) -> i32 {
    let req = std::slice::from_raw_parts(req, req_n);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let (name, args, cp): (String, Vec<Value>, CallParameters) =
            serde_json::from_slice(req).map_err(|e| e.to_string())?;
        marine_rs_sdk::__sim_set_call_parameters(cp);
        dispatch(&name, args)
    }));
    match r {
        Ok(Ok(v)) => {
            give(v.to_string(), out, out_n);
            0
        }
        Ok(Err(e)) => {
            give(e, out, out_n);
            1
        }
        Err(_) => {
            give(LAST_PANIC.with(|p| p.borrow().clone()), out, out_n);
            2
        }
    }
}
