//! The Marine host's side of the module boundary: the SQLite module the service is linked to.
//! Real SQLite, on the simulated disk, with faults injected at the API.
use crate::disk;
use libsqlite3_sys as ffi;
use std::collections::HashMap;
use std::ffi::{c_int, c_void, CString};
use std::sync::Mutex;

#[derive(Default)]
struct Tab {
    next: u32,
    db: HashMap<u32, usize>,
    stmt: HashMap<u32, (usize, u32)>,
    err: HashMap<u32, c_int>,
}
static TAB: Mutex<Option<Tab>> = Mutex::new(None);
fn tab<R>(f: impl FnOnce(&mut Tab) -> R) -> R {
    let mut g = TAB.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(Default::default))
}
fn db(h: u32) -> *mut ffi::sqlite3 {
    tab(|t| t.db.get(&h).copied().unwrap_or(0)) as *mut _
}
fn st(h: u32) -> *mut ffi::sqlite3_stmt {
    tab(|t| t.stmt.get(&h).map(|x| x.0).unwrap_or(0)) as *mut _
}
fn inject(dbh: u32) -> Option<c_int> {
    let d = disk::current()?;
    let r = d.lock().unwrap().host_gate();
    tab(|t| match r {
        Some(c) => {
            t.err.insert(dbh, c);
        }
        None => {
            t.err.remove(&dbh);
        }
    });
    r
}
fn inject_stmt(s: u32) -> Option<c_int> {
    let dbh = tab(|t| t.stmt.get(&s).map(|x| x.1).unwrap_or(0));
    inject(dbh)
}
fn suspend(on: bool) {
    if let Some(d) = disk::current() {
        d.lock().unwrap().suspended = on;
    }
}

pub extern "C" fn open(p: *const u8, n: usize, flags: i32, out: *mut u32) -> i32 {
    // faults inside open are only simulated at start-up: the service opens its database when it starts
    let boot = BOOTING.with(|b| b.get());
    if !boot {
        suspend(true);
    }
    let name = CString::new(unsafe { std::slice::from_raw_parts(p, n) }.to_vec()).unwrap_or_default();
    let mut raw = std::ptr::null_mut();
    let rc = unsafe { ffi::sqlite3_open_v2(name.as_ptr(), &mut raw, flags, std::ptr::null()) };
    if !boot {
        suspend(false);
    }
    let h = tab(|t| {
        t.next += 1;
        t.db.insert(t.next, raw as usize);
        t.next
    });
    unsafe { *out = h };
    rc
}
pub extern "C" fn close(h: u32) -> i32 {
    let p = tab(|t| {
        t.err.remove(&h);
        t.db.remove(&h)
    });
    match p {
        Some(p) if p != 0 => unsafe { ffi::sqlite3_close_v2(p as *mut _) },
        _ => 0,
    }
}
pub extern "C" fn prepare(h: u32, p: *const u8, n: usize, out: *mut u32, tail: *mut u32) -> i32 {
    unsafe {
        *out = 0;
        *tail = 0;
    }
    if let Some(c) = inject(h) {
        return c;
    }
    let mut raw = std::ptr::null_mut();
    let rc = unsafe { ffi::sqlite3_prepare_v2(db(h), p as *const _, n as c_int, &mut raw, std::ptr::null_mut()) };
    if rc == 0 {
        let s = tab(|t| {
            t.next += 1;
            t.stmt.insert(t.next, (raw as usize, h));
            t.next
        });
        unsafe { *out = s };
    }
    rc
}
pub extern "C" fn exec(h: u32, p: *const u8, n: usize) -> i32 {
    if let Some(c) = inject(h) {
        return c;
    }
    let sql = CString::new(unsafe { std::slice::from_raw_parts(p, n) }.to_vec()).unwrap_or_default();
    unsafe { ffi::sqlite3_exec(db(h), sql.as_ptr(), None, std::ptr::null_mut(), std::ptr::null_mut()) }
}
pub extern "C" fn libversion() -> i32 {
    unsafe { ffi::sqlite3_libversion_number() }
}
pub extern "C" fn changes(h: u32) -> i32 {
    unsafe { ffi::sqlite3_changes(db(h)) }
}
pub extern "C" fn total_changes(h: u32) -> i32 {
    unsafe { ffi::sqlite3_total_changes(db(h)) }
}
pub extern "C" fn busy_timeout(h: u32, ms: u32) -> i32 {
    unsafe { ffi::sqlite3_busy_timeout(db(h), ms as c_int) }
}
pub extern "C" fn errmsg(h: u32, n: *mut usize) -> *const u8 {
    unsafe {
        let p = match tab(|t| t.err.get(&h).copied()) {
            Some(c) => ffi::sqlite3_errstr(c),
            None => ffi::sqlite3_errmsg(db(h)),
        };
        *n = if p.is_null() { 0 } else { std::ffi::CStr::from_ptr(p).to_bytes().len() };
        p as *const u8
    }
}
pub extern "C" fn errcode(h: u32) -> i32 {
    tab(|t| t.err.get(&h).copied()).unwrap_or_else(|| unsafe { ffi::sqlite3_errcode(db(h)) })
}
pub extern "C" fn column_type(s: u32, i: u32) -> i32 {
    unsafe { ffi::sqlite3_column_type(st(s), i as c_int) }
}
pub extern "C" fn column_name(s: u32, i: u32, n: *mut usize) -> *const u8 {
    unsafe {
        let p = ffi::sqlite3_column_name(st(s), i as c_int);
        *n = if p.is_null() { 0 } else { std::ffi::CStr::from_ptr(p).to_bytes().len() };
        p as *const u8
    }
}
pub extern "C" fn step(s: u32) -> i32 {
    if let Some(c) = inject_stmt(s) {
        return c;
    }
    unsafe { ffi::sqlite3_step(st(s)) }
}
pub extern "C" fn reset(s: u32) -> i32 {
    unsafe { ffi::sqlite3_reset(st(s)) }
}
pub extern "C" fn bind_blob(s: u32, pos: i32, p: *const u8, n: usize) -> i32 {
    if let Some(c) = inject_stmt(s) {
        return c;
    }
    unsafe { ffi::sqlite3_bind_blob(st(s), pos, p as *const c_void, n as c_int, ffi::SQLITE_TRANSIENT()) }
}
pub extern "C" fn bind_double(s: u32, pos: i32, v: f64) -> i32 {
    unsafe { ffi::sqlite3_bind_double(st(s), pos, v) }
}
pub extern "C" fn bind_int64(s: u32, pos: i32, v: i64) -> i32 {
    unsafe { ffi::sqlite3_bind_int64(st(s), pos, v) }
}
pub extern "C" fn bind_null(s: u32, pos: i32) -> i32 {
    unsafe { ffi::sqlite3_bind_null(st(s), pos) }
}
pub extern "C" fn bind_text(s: u32, pos: i32, p: *const u8, n: usize) -> i32 {
    if let Some(c) = inject_stmt(s) {
        return c;
    }
    let e = b"\0";
    let p = if n == 0 { e.as_ptr() } else { p };
    unsafe { ffi::sqlite3_bind_text(st(s), pos, p as *const _, n as c_int, ffi::SQLITE_TRANSIENT()) }
}
pub extern "C" fn column_count(s: u32) -> i32 {
    unsafe { ffi::sqlite3_column_count(st(s)) }
}
pub extern "C" fn column_blob(s: u32, i: u32, n: *mut usize) -> *const u8 {
    unsafe {
        let p = ffi::sqlite3_column_blob(st(s), i as c_int);
        *n = ffi::sqlite3_column_bytes(st(s), i as c_int) as usize;
        p as *const u8
    }
}
pub extern "C" fn column_double(s: u32, i: u32) -> f64 {
    unsafe { ffi::sqlite3_column_double(st(s), i as c_int) }
}
pub extern "C" fn column_int64(s: u32, i: u32) -> i64 {
    unsafe { ffi::sqlite3_column_int64(st(s), i as c_int) }
}
pub extern "C" fn column_text(s: u32, i: u32, n: *mut usize) -> *const u8 {
    unsafe {
        let p = ffi::sqlite3_column_text(st(s), i as c_int);
        *n = ffi::sqlite3_column_bytes(st(s), i as c_int) as usize;
        p
    }
}
pub extern "C" fn column_bytes(s: u32, i: u32) -> i32 {
    unsafe { ffi::sqlite3_column_bytes(st(s), i as c_int) }
}
pub extern "C" fn finalize(s: u32) -> i32 {
    match tab(|t| t.stmt.remove(&s)) {
        Some((p, _)) => unsafe { ffi::sqlite3_finalize(p as *mut _) },
        None => 0,
    }
}

thread_local!(pub static BOOTING: std::cell::Cell<bool> = std::cell::Cell::new(false));

#[repr(C)]
#[derive(Clone, Copy)]
pub struct HostTable {
    open: extern "C" fn(*const u8, usize, i32, *mut u32) -> i32,
    close: extern "C" fn(u32) -> i32,
    prepare: extern "C" fn(u32, *const u8, usize, *mut u32, *mut u32) -> i32,
    exec: extern "C" fn(u32, *const u8, usize) -> i32,
    libversion: extern "C" fn() -> i32,
    changes: extern "C" fn(u32) -> i32,
    total_changes: extern "C" fn(u32) -> i32,
    busy_timeout: extern "C" fn(u32, u32) -> i32,
    errmsg: extern "C" fn(u32, *mut usize) -> *const u8,
    errcode: extern "C" fn(u32) -> i32,
    column_type: extern "C" fn(u32, u32) -> i32,
    column_name: extern "C" fn(u32, u32, *mut usize) -> *const u8,
    step: extern "C" fn(u32) -> i32,
    reset: extern "C" fn(u32) -> i32,
    bind_blob: extern "C" fn(u32, i32, *const u8, usize) -> i32,
    bind_double: extern "C" fn(u32, i32, f64) -> i32,
    bind_int64: extern "C" fn(u32, i32, i64) -> i32,
    bind_null: extern "C" fn(u32, i32) -> i32,
    bind_text: extern "C" fn(u32, i32, *const u8, usize) -> i32,
    column_count: extern "C" fn(u32) -> i32,
    column_blob: extern "C" fn(u32, u32, *mut usize) -> *const u8,
    column_double: extern "C" fn(u32, u32) -> f64,
    column_int64: extern "C" fn(u32, u32) -> i64,
    column_text: extern "C" fn(u32, u32, *mut usize) -> *const u8,
    column_bytes: extern "C" fn(u32, u32) -> i32,
    finalize: extern "C" fn(u32) -> i32,
}
pub static TABLE: HostTable = HostTable {
    open, close, prepare, exec, libversion, changes, total_changes, busy_timeout, errmsg, errcode,
    column_type, column_name, step, reset, bind_blob, bind_double, bind_int64, bind_null, bind_text,
    column_count, column_blob, column_double, column_int64, column_text, column_bytes, finalize,
};
