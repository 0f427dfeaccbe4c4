//! The simulated disk and the SQLite VFS on top of it.
//! Per file: what the process sees (`cur`), what is on the platter (`dur`) and the writes in between.
use crate::rng::{Digest, Rng};
use crate::trace::{FKind, Fault, Seam};
use libsqlite3_sys as ffi;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::ffi::{c_char, c_int, c_void, CStr};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
enum Pend {
    Create,
    Write(usize, Vec<u8>),
    Trunc(usize),
}

#[derive(Clone, Debug, Default)]
struct File {
    cur: Vec<u8>,
    dur: Vec<u8>,
    dur_exists: bool,
    pend: Vec<Pend>,
    shared: u32,
    reserved: u64,
    pending: u64,
    exclusive: u64,
    shm: Vec<Arc<ShmPage>>,
}

/// WAL index memory: lives and dies with the process
struct ShmPage(std::cell::UnsafeCell<Vec<u8>>);
unsafe impl Send for ShmPage {}
unsafe impl Sync for ShmPage {}
impl std::fmt::Debug for ShmPage {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("shm")
    }
}

#[derive(Default, Clone, Debug)]
pub struct FaultCount(pub BTreeMap<String, u64>);
impl FaultCount {
    pub fn add(&mut self, k: &str) {
        *self.0.entry(k.to_string()).or_default() += 1;
    }
}

#[derive(Default, Debug)]
pub struct Disk {
    files: BTreeMap<String, File>,
    next_handle: u64,
    /// after a crash nothing reaches the disk any more
    pub dead: bool,
    /// Some((power, seed)) when a planned crash fired
    pub crashed: Option<(bool, u64)>,
    pub plan: Vec<Fault>,
    pub suspended: bool,
    // counters since the start of the current call
    pub n_any: u32,
    pub n_mut: u32,
    pub n_write: u32,
    pub n_lock: u32,
    pub n_host: u32,
    pub fired: FaultCount,
    pub fired_now: u32,
    pub crash_before: &'static str,
    pub log: Digest,
    pub ops: u64,
}

#[derive(Clone, Copy, PartialEq)]
enum Op {
    Open,
    Read,
    Write,
    Trunc,
    Sync,
    Delete,
    Lock,
    Stat,
}

enum Out {
    Go,
    Err(c_int),
    Torn(u64),
}

impl Disk {
    pub fn begin(&mut self, plan: &[Fault]) {
        self.plan = plan.to_vec();
        self.n_any = 0;
        self.n_mut = 0;
        self.n_write = 0;
        self.n_lock = 0;
        self.n_host = 0;
        self.fired_now = 0;
        self.suspended = false;
    }

    /// State found by the next process after a crash of the current one.
    pub fn after_crash(&mut self, power: bool, seed: u64) -> Disk {
        self.dead = true;
        let mut rng = Rng::new(seed);
        let mut d = Disk { fired: std::mem::take(&mut self.fired), log: self.log, ops: self.ops, ..Default::default() };
        for (name, f) in &self.files {
            let (data, exists) = if power {
                let mut data = f.dur.clone();
                let mut exists = f.dur_exists;
                // most losses drop everything unsynced, some keep a random subset
                let mode = rng.idx(4);
                for p in &f.pend {
                    let keep = match mode {
                        0 => false,
                        1 => true,
                        _ => rng.chance(0.5),
                    };
                    match p {
                        Pend::Create => exists |= keep,
                        Pend::Trunc(n) => {
                            if keep {
                                data.resize(*n, 0)
                            }
                        }
                        Pend::Write(off, b) => {
                            if keep {
                                let torn = mode == 3 && rng.chance(0.4);
                                write_sectors(&mut data, *off, b, |_| !torn || rng.chance(0.5));
                                exists = true;
                            }
                        }
                    }
                }
                (data, exists)
            } else {
                (f.cur.clone(), true)
            };
            if exists {
                d.files.insert(
                    name.clone(),
                    File { cur: data.clone(), dur: data, dur_exists: true, ..Default::default() },
                );
            }
        }
        d
    }

    fn hit(&mut self, f: &Fault, n: u32) -> bool {
        n >= f.at && n < f.at.saturating_add(f.span.max(1))
    }

    fn gate(&mut self, op: Op, path: &str) -> Out {
        self.ops += 1;
        self.log.num(op as u64);
        self.log.num(path.len() as u64);
        if self.dead {
            return Out::Err(ffi::SQLITE_IOERR);
        }
        if self.suspended {
            return Out::Go;
        }
        let mutating = matches!(op, Op::Write | Op::Trunc | Op::Sync | Op::Delete);
        let (any, mt, wr, lk) = (self.n_any, self.n_mut, self.n_write, self.n_lock);
        if op != Op::Lock {
            self.n_any += 1;
        } else {
            self.n_lock += 1;
        }
        if mutating {
            self.n_mut += 1;
        }
        if op == Op::Write {
            self.n_write += 1;
        }
        for f in self.plan.clone() {
            if f.seam != Seam::Vfs {
                continue;
            }
            match f.kind {
                FKind::Crash { power, seed } if mutating && self.hit(&f, mt) => {
                    self.fired.add(if power { "power_loss_in_call" } else { "process_crash_in_call" });
                    self.fired_now += 1;
                    self.crash_before = match op {
                        Op::Write => "write",
                        Op::Sync => "sync",
                        Op::Trunc => "truncate",
                        _ => "delete",
                    };
                    self.crashed = Some((power, seed));
                    self.dead = true;
                    return Out::Err(ffi::SQLITE_IOERR);
                }
                FKind::IoErr if op != Op::Lock && self.hit(&f, any) => {
                    let (name, code) = match op {
                        Op::Open => ("ioerr_open", ffi::SQLITE_CANTOPEN),
                        Op::Read => ("ioerr_read", ffi::SQLITE_IOERR_READ),
                        Op::Write => ("ioerr_write", ffi::SQLITE_IOERR_WRITE),
                        Op::Trunc => ("ioerr_truncate", ffi::SQLITE_IOERR_TRUNCATE),
                        Op::Sync => ("ioerr_fsync", ffi::SQLITE_IOERR_FSYNC),
                        Op::Delete => ("ioerr_delete", ffi::SQLITE_IOERR_DELETE),
                        _ => ("ioerr_stat", ffi::SQLITE_IOERR_FSTAT),
                    };
                    self.fired.add(name);
                    self.fired_now += 1;
                    return Out::Err(code);
                }
                FKind::Full if op == Op::Write && self.hit(&f, wr) => {
                    self.fired.add("disk_full");
                    self.fired_now += 1;
                    return Out::Err(ffi::SQLITE_FULL);
                }
                FKind::Torn { seed } if op == Op::Write && self.hit(&f, wr) => {
                    self.fired.add("torn_write");
                    self.fired_now += 1;
                    return Out::Torn(seed);
                }
                FKind::Busy if op == Op::Lock && self.hit(&f, lk) => {
                    self.fired.add("lock_busy");
                    self.fired_now += 1;
                    return Out::Err(ffi::SQLITE_BUSY);
                }
                _ => {}
            }
        }
        Out::Go
    }

    /// Gate for calls of the SQLite API itself (host boundary).
    pub fn host_gate(&mut self) -> Option<c_int> {
        if self.suspended || self.dead {
            return None;
        }
        let n = self.n_host;
        self.n_host += 1;
        for f in self.plan.clone() {
            if f.seam == Seam::Host && self.hit(&f, n) {
                let (name, code) = match f.kind {
                    FKind::Busy => ("host_busy", ffi::SQLITE_BUSY),
                    FKind::Full => ("host_full", ffi::SQLITE_FULL),
                    FKind::NoMem => ("host_nomem", ffi::SQLITE_NOMEM),
                    _ => ("host_ioerr", ffi::SQLITE_IOERR),
                };
                self.fired.add(name);
                self.fired_now += 1;
                return Some(code);
            }
        }
        None
    }
}

fn write_sectors(data: &mut Vec<u8>, off: usize, b: &[u8], mut keep: impl FnMut(usize) -> bool) {
    let mut i = 0;
    while i < b.len() {
        let abs = off + i;
        let end = ((abs / 512 + 1) * 512 - off).min(b.len());
        if keep(abs / 512) {
            if data.len() < off + end {
                data.resize(off + end, 0);
            }
            data[abs..off + end].copy_from_slice(&b[i..end]);
        }
        i = end;
    }
}

thread_local!(static CUR: RefCell<Option<Arc<Mutex<Disk>>>> = RefCell::new(None));
pub fn set_current(d: Option<Arc<Mutex<Disk>>>) {
    CUR.with(|c| *c.borrow_mut() = d)
}
pub fn current() -> Option<Arc<Mutex<Disk>>> {
    CUR.try_with(|c| c.borrow().clone()).ok().flatten()
}

#[repr(C)]
struct SimFile {
    base: ffi::sqlite3_file,
    inner: *mut Handle,
}
struct Handle {
    disk: Arc<Mutex<Disk>>,
    name: String,
    id: u64,
    level: c_int,
    delete_on_close: bool,
}
unsafe fn h<'a>(f: *mut ffi::sqlite3_file) -> &'a mut Handle {
    &mut *(*(f as *mut SimFile)).inner
}

unsafe extern "C" fn x_open(_v: *mut ffi::sqlite3_vfs, name: *const c_char, f: *mut ffi::sqlite3_file, flags: c_int, out: *mut c_int) -> c_int {
    (*f).pMethods = std::ptr::null();
    let Some(disk) = current() else { return ffi::SQLITE_CANTOPEN };
    let mut d = disk.lock().unwrap();
    d.next_handle += 1;
    let id = d.next_handle;
    let name = if name.is_null() { format!("temp-{id}") } else { CStr::from_ptr(name).to_string_lossy().into_owned() };
    match d.gate(Op::Open, &name) {
        Out::Go => {}
        _ => return ffi::SQLITE_CANTOPEN,
    }
    if !d.files.contains_key(&name) {
        if flags & ffi::SQLITE_OPEN_CREATE == 0 && flags & ffi::SQLITE_OPEN_DELETEONCLOSE == 0 {
            return ffi::SQLITE_CANTOPEN;
        }
        d.files.insert(name.clone(), File { pend: vec![Pend::Create], ..Default::default() });
    }
    drop(d);
    let hd = Handle { disk, name, id, level: 0, delete_on_close: flags & ffi::SQLITE_OPEN_DELETEONCLOSE != 0 };
    (*(f as *mut SimFile)).inner = Box::into_raw(Box::new(hd));
    (*f).pMethods = &IO;
    if !out.is_null() {
        *out = flags;
    }
    ffi::SQLITE_OK
}
unsafe extern "C" fn x_close(f: *mut ffi::sqlite3_file) -> c_int {
    x_unlock(f, ffi::SQLITE_LOCK_NONE);
    let b = Box::from_raw((*(f as *mut SimFile)).inner);
    if b.delete_on_close {
        b.disk.lock().unwrap().files.remove(&b.name);
    }
    (*f).pMethods = std::ptr::null();
    ffi::SQLITE_OK
}
unsafe extern "C" fn x_read(f: *mut ffi::sqlite3_file, buf: *mut c_void, n: c_int, off: i64) -> c_int {
    let hd = h(f);
    let mut d = hd.disk.lock().unwrap();
    if let Out::Err(e) = d.gate(Op::Read, &hd.name) {
        return e;
    }
    let out = std::slice::from_raw_parts_mut(buf as *mut u8, n as usize);
    let off = off as usize;
    let empty = vec![];
    let cur = d.files.get(&hd.name).map(|f| &f.cur).unwrap_or(&empty);
    let have = cur.len().saturating_sub(off).min(out.len());
    if have > 0 {
        out[..have].copy_from_slice(&cur[off..off + have]);
    }
    out[have..].fill(0);
    if have < out.len() {
        ffi::SQLITE_IOERR_SHORT_READ
    } else {
        ffi::SQLITE_OK
    }
}
unsafe extern "C" fn x_write(f: *mut ffi::sqlite3_file, buf: *const c_void, n: c_int, off: i64) -> c_int {
    let hd = h(f);
    let mut d = hd.disk.lock().unwrap();
    let b = std::slice::from_raw_parts(buf as *const u8, n as usize);
    let off = off as usize;
    let (torn, ret) = match d.gate(Op::Write, &hd.name) {
        Out::Err(e) => return e,
        Out::Go => (None, ffi::SQLITE_OK),
        Out::Torn(s) => (Some(s), ffi::SQLITE_IOERR_WRITE),
    };
    d.log.num(off as u64);
    d.log.bytes(b);
    if let Some(file) = d.files.get_mut(&hd.name) {
        let part: &[u8] = match torn {
            // a short write: a prefix of the data got out before the error
            Some(s) => &b[..Rng::new(s).idx(b.len().max(1))],
            None => b,
        };
        write_sectors(&mut file.cur, off, part, |_| true);
        file.pend.push(Pend::Write(off, part.to_vec()));
    }
    ret
}
unsafe extern "C" fn x_truncate(f: *mut ffi::sqlite3_file, n: i64) -> c_int {
    let hd = h(f);
    let mut d = hd.disk.lock().unwrap();
    if let Out::Err(e) = d.gate(Op::Trunc, &hd.name) {
        return e;
    }
    if let Some(file) = d.files.get_mut(&hd.name) {
        file.cur.resize(n as usize, 0);
        file.pend.push(Pend::Trunc(n as usize));
    }
    ffi::SQLITE_OK
}
unsafe extern "C" fn x_sync(f: *mut ffi::sqlite3_file, _flags: c_int) -> c_int {
    let hd = h(f);
    let mut d = hd.disk.lock().unwrap();
    if let Out::Err(e) = d.gate(Op::Sync, &hd.name) {
        return e;
    }
    if let Some(file) = d.files.get_mut(&hd.name) {
        file.dur = file.cur.clone();
        file.dur_exists = true;
        file.pend.clear();
    }
    ffi::SQLITE_OK
}
unsafe extern "C" fn x_file_size(f: *mut ffi::sqlite3_file, out: *mut i64) -> c_int {
    let hd = h(f);
    let mut d = hd.disk.lock().unwrap();
    if let Out::Err(e) = d.gate(Op::Stat, &hd.name) {
        return e;
    }
    *out = d.files.get(&hd.name).map(|f| f.cur.len()).unwrap_or(0) as i64;
    ffi::SQLITE_OK
}
unsafe extern "C" fn x_lock(f: *mut ffi::sqlite3_file, level: c_int) -> c_int {
    let hd = h(f);
    if hd.level >= level {
        return ffi::SQLITE_OK;
    }
    let mut d = hd.disk.lock().unwrap();
    if let Out::Err(e) = d.gate(Op::Lock, &hd.name) {
        return e;
    }
    let Some(file) = d.files.get_mut(&hd.name) else { return ffi::SQLITE_IOERR_LOCK };
    let id = hd.id;
    let other = |x: u64| x != 0 && x != id;
    match level {
        ffi::SQLITE_LOCK_SHARED => {
            if other(file.pending) || other(file.exclusive) {
                return ffi::SQLITE_BUSY;
            }
            file.shared += 1;
        }
        ffi::SQLITE_LOCK_RESERVED => {
            if other(file.reserved) || other(file.pending) || other(file.exclusive) {
                return ffi::SQLITE_BUSY;
            }
            file.reserved = id;
        }
        ffi::SQLITE_LOCK_EXCLUSIVE | ffi::SQLITE_LOCK_PENDING => {
            if other(file.reserved) || other(file.pending) || other(file.exclusive) {
                return ffi::SQLITE_BUSY;
            }
            file.pending = id;
            if level == ffi::SQLITE_LOCK_EXCLUSIVE {
                if file.shared > 1 {
                    hd.level = ffi::SQLITE_LOCK_PENDING;
                    return ffi::SQLITE_BUSY;
                }
                file.exclusive = id;
            }
        }
        _ => {}
    }
    hd.level = level;
    ffi::SQLITE_OK
}
unsafe extern "C" fn x_unlock(f: *mut ffi::sqlite3_file, level: c_int) -> c_int {
    let hd = h(f);
    if hd.level <= level {
        return ffi::SQLITE_OK;
    }
    let mut d = hd.disk.lock().unwrap();
    let id = hd.id;
    if let Some(file) = d.files.get_mut(&hd.name) {
        for x in [&mut file.reserved, &mut file.pending, &mut file.exclusive] {
            if *x == id {
                *x = 0;
            }
        }
        if level == ffi::SQLITE_LOCK_NONE && hd.level >= ffi::SQLITE_LOCK_SHARED {
            file.shared = file.shared.saturating_sub(1);
        }
    }
    hd.level = level;
    ffi::SQLITE_OK
}
unsafe extern "C" fn x_check_reserved(f: *mut ffi::sqlite3_file, out: *mut c_int) -> c_int {
    let hd = h(f);
    let d = hd.disk.lock().unwrap();
    *out = d.files.get(&hd.name).map(|f| f.reserved != 0 || f.pending != 0 || f.exclusive != 0).unwrap_or(false) as c_int;
    ffi::SQLITE_OK
}
unsafe extern "C" fn x_file_control(_f: *mut ffi::sqlite3_file, _op: c_int, _a: *mut c_void) -> c_int {
    ffi::SQLITE_NOTFOUND
}
unsafe extern "C" fn x_sector(_f: *mut ffi::sqlite3_file) -> c_int {
    512
}
unsafe extern "C" fn x_devchar(_f: *mut ffi::sqlite3_file) -> c_int {
    0
}
unsafe extern "C" fn x_shm_map(f: *mut ffi::sqlite3_file, region: c_int, size: c_int, extend: c_int, out: *mut *mut c_void) -> c_int {
    let hd = h(f);
    let mut d = hd.disk.lock().unwrap();
    let Some(file) = d.files.get_mut(&hd.name) else { return ffi::SQLITE_IOERR };
    while file.shm.len() <= region as usize {
        if extend == 0 {
            *out = std::ptr::null_mut();
            return ffi::SQLITE_OK;
        }
        file.shm.push(Arc::new(ShmPage(std::cell::UnsafeCell::new(vec![0; size as usize]))));
    }
    *out = (*file.shm[region as usize].0.get()).as_mut_ptr() as *mut c_void;
    ffi::SQLITE_OK
}
unsafe extern "C" fn x_shm_lock(_f: *mut ffi::sqlite3_file, _o: c_int, _n: c_int, _fl: c_int) -> c_int {
    ffi::SQLITE_OK
}
unsafe extern "C" fn x_shm_barrier(_f: *mut ffi::sqlite3_file) {}
unsafe extern "C" fn x_shm_unmap(f: *mut ffi::sqlite3_file, del: c_int) -> c_int {
    let hd = h(f);
    if del != 0 {
        if let Some(file) = hd.disk.lock().unwrap().files.get_mut(&hd.name) {
            file.shm.clear();
        }
    }
    ffi::SQLITE_OK
}

unsafe extern "C" fn x_delete(_v: *mut ffi::sqlite3_vfs, name: *const c_char, _sync: c_int) -> c_int {
    let Some(disk) = current() else { return ffi::SQLITE_IOERR };
    let name = CStr::from_ptr(name).to_string_lossy().into_owned();
    let mut d = disk.lock().unwrap();
    if let Out::Err(e) = d.gate(Op::Delete, &name) {
        return e;
    }
    // removal of a directory entry is taken as durable at once (see DESIGN: assumptions)
    match d.files.remove(&name) {
        Some(_) => ffi::SQLITE_OK,
        None => ffi::SQLITE_IOERR_DELETE_NOENT,
    }
}
unsafe extern "C" fn x_access(_v: *mut ffi::sqlite3_vfs, name: *const c_char, _flags: c_int, out: *mut c_int) -> c_int {
    let Some(disk) = current() else { return ffi::SQLITE_IOERR };
    let name = CStr::from_ptr(name).to_string_lossy().into_owned();
    let mut d = disk.lock().unwrap();
    if let Out::Err(_) = d.gate(Op::Stat, &name) {
        return ffi::SQLITE_IOERR_ACCESS;
    }
    *out = d.files.contains_key(&name) as c_int;
    ffi::SQLITE_OK
}
unsafe extern "C" fn x_full(_v: *mut ffi::sqlite3_vfs, name: *const c_char, n: c_int, out: *mut c_char) -> c_int {
    let b = CStr::from_ptr(name).to_bytes_with_nul();
    if b.len() > n as usize {
        return ffi::SQLITE_CANTOPEN;
    }
    std::ptr::copy_nonoverlapping(b.as_ptr() as *const c_char, out, b.len());
    ffi::SQLITE_OK
}
unsafe extern "C" fn x_random(_v: *mut ffi::sqlite3_vfs, n: c_int, out: *mut c_char) -> c_int {
    for i in 0..n as usize {
        *out.add(i) = (i * 37 + 11) as c_char;
    }
    n
}
unsafe extern "C" fn x_sleep(_v: *mut ffi::sqlite3_vfs, us: c_int) -> c_int {
    us // simulated: waiting costs no real time
}
unsafe extern "C" fn x_time(_v: *mut ffi::sqlite3_vfs, out: *mut f64) -> c_int {
    *out = 2_460_000.5;
    ffi::SQLITE_OK
}
unsafe extern "C" fn x_time64(_v: *mut ffi::sqlite3_vfs, out: *mut i64) -> c_int {
    *out = 2_460_000 * 86_400_000;
    ffi::SQLITE_OK
}
unsafe extern "C" fn x_last(_v: *mut ffi::sqlite3_vfs, _n: c_int, _o: *mut c_char) -> c_int {
    0
}

static IO: ffi::sqlite3_io_methods = ffi::sqlite3_io_methods {
    iVersion: 2,
    xClose: Some(x_close),
    xRead: Some(x_read),
    xWrite: Some(x_write),
    xTruncate: Some(x_truncate),
    xSync: Some(x_sync),
    xFileSize: Some(x_file_size),
    xLock: Some(x_lock),
    xUnlock: Some(x_unlock),
    xCheckReservedLock: Some(x_check_reserved),
    xFileControl: Some(x_file_control),
    xSectorSize: Some(x_sector),
    xDeviceCharacteristics: Some(x_devchar),
    xShmMap: Some(x_shm_map),
    xShmLock: Some(x_shm_lock),
    xShmBarrier: Some(x_shm_barrier),
    xShmUnmap: Some(x_shm_unmap),
    xFetch: None,
    xUnfetch: None,
};

pub fn install() {
    unsafe {
        let vfs: &'static mut ffi::sqlite3_vfs = Box::leak(Box::new(ffi::sqlite3_vfs {
            iVersion: 2,
            szOsFile: std::mem::size_of::<SimFile>() as c_int,
            mxPathname: 1024,
            pNext: std::ptr::null_mut(),
            zName: b"sim\0".as_ptr() as *const c_char,
            pAppData: std::ptr::null_mut(),
            xOpen: Some(x_open),
            xDelete: Some(x_delete),
            xAccess: Some(x_access),
            xFullPathname: Some(x_full),
            xDlOpen: None,
            xDlError: None,
            xDlSym: None,
            xDlClose: None,
            xRandomness: Some(x_random),
            xSleep: Some(x_sleep),
            xCurrentTime: Some(x_time),
            xGetLastError: Some(x_last),
            xCurrentTimeInt64: Some(x_time64),
            xSetSystemCall: None,
            xGetSystemCall: None,
            xNextSystemCall: None,
        }));
        assert_eq!(ffi::sqlite3_initialize(), 0);
        assert_eq!(ffi::sqlite3_vfs_register(vfs, 1), 0);
    }
}

/// Same SQLite-internal randomness for every run.
pub fn reset_sqlite_prng() {
    unsafe { ffi::sqlite3_randomness(0, std::ptr::null_mut()) }
}
