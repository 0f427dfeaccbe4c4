//! A simulated node: one disk, and (while it is up) one process = one freshly loaded instance of the
//! service on a thread of its own. The simulator hands it one call at a time, so nothing runs concurrently.
use crate::disk::{self, Disk};
use crate::host;
use crate::rng::mix;
use crate::trace::{Call, Fault};
use std::cell::Cell;
use std::ffi::{c_void, CStr, CString};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Mutex};

thread_local!(static RND: Cell<u64> = Cell::new(0x1234_5678));

pub fn seed_rnd(s: u64) {
    RND.with(|r| r.set(mix(s ^ 0xa076)));
}

/// Every `getrandom` of the process and of the loaded service instances ends here.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, _flags: u32) -> isize {
    let mut s = RND.try_with(|r| r.get()).unwrap_or(7);
    for i in 0..len {
        s = s.wrapping_add(0x9e3779b97f4a7c15);
        *(buf as *mut u8).add(i) = mix(s) as u8;
    }
    let _ = RND.try_with(|r| r.set(s));
    len as isize
}

/// The getrandom crate goes through libc's `syscall`; everything else is passed on.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == libc::SYS_getrandom {
        return if b == 0 { 0 } else { getrandom(a as *mut c_void, b, 0) as i64 };
    }
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    r
}

#[derive(Debug, Clone, PartialEq)]
pub enum Resp {
    Ok(serde_json::Value),
    ArgErr(String),
    Panic(String),
}

enum Req {
    Boot,
    Call(String),
    Quit,
}

struct Proc {
    tx: Sender<Req>,
    rx: Receiver<(i32, String)>,
    join: std::thread::JoinHandle<()>,
    lib: usize,
}

pub struct Node {
    pub idx: usize,
    pub disk: Arc<Mutex<Disk>>,
    proc: Option<Proc>,
    boots: u64,
    rnd_seed: u64,
}

type FInit = unsafe extern "C" fn(*const host::HostTable);
type FVoid = unsafe extern "C" fn();
type FBoot = unsafe extern "C" fn(*mut *mut u8, *mut usize) -> i32;
type FCall = unsafe extern "C" fn(*const u8, usize, *mut *mut u8, *mut usize) -> i32;
type FFree = unsafe extern "C" fn(*mut u8, usize);

unsafe fn sym<T: Copy>(lib: usize, name: &str) -> T {
    let n = CString::new(name).unwrap();
    let p = libc::dlsym(lib as *mut c_void, n.as_ptr());
    assert!(!p.is_null(), "symbol {name}");
    std::mem::transmute_copy::<*mut c_void, T>(&p)
}

pub fn so_path(idx: usize) -> String {
    let dir = std::env::var("TGSIM_SO").expect("TGSIM_SO");
    format!("{dir}/n{idx}.so")
}

impl Node {
    pub fn new(idx: usize, rnd_seed: u64) -> Node {
        Node { idx, disk: Arc::new(Mutex::new(Disk::default())), proc: None, boots: 0, rnd_seed }
    }

    pub fn is_up(&self) -> bool {
        self.proc.is_some()
    }

    /// Starts the process. Err = the service aborted while starting.
    pub fn boot(&mut self, faults: &[Fault]) -> Result<(), String> {
        assert!(self.proc.is_none());
        self.boots += 1;
        self.disk.lock().unwrap().begin(faults);
        let path = CString::new(so_path(self.idx)).unwrap();
        let lib = unsafe { libc::dlopen(path.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL) } as usize;
        if lib == 0 {
            panic!("dlopen: {}", unsafe { CStr::from_ptr(libc::dlerror()) }.to_string_lossy());
        }
        let (tx, rx_req) = channel::<Req>();
        let (tx_resp, rx) = channel();
        let disk = self.disk.clone();
        let seed = mix(self.rnd_seed ^ (self.idx as u64) << 32 ^ self.boots);
        let join = std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || unsafe {
                disk::set_current(Some(disk));
                RND.with(|r| r.set(seed));
                let init: FInit = sym(lib, "tgsim_init");
                let boot: FBoot = sym(lib, "tgsim_boot");
                let call: FCall = sym(lib, "tgsim_call");
                let free: FFree = sym(lib, "tgsim_free");
                let fini: FVoid = sym(lib, "tgsim_fini");
                init(&host::TABLE);
                while let Ok(req) = rx_req.recv() {
                    let (mut p, mut n) = (std::ptr::null_mut(), 0usize);
                    let rc = match &req {
                        Req::Quit => break,
                        Req::Boot => {
                            host::BOOTING.with(|b| b.set(true));
                            let rc = boot(&mut p, &mut n);
                            host::BOOTING.with(|b| b.set(false));
                            rc
                        }
                        Req::Call(s) => call(s.as_ptr(), s.len(), &mut p, &mut n),
                    };
                    let s = String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned();
                    free(p, n);
                    if tx_resp.send((rc, s)).is_err() {
                        break;
                    }
                }
                fini();
            })
            .expect("thread");
        self.proc = Some(Proc { tx, rx, join, lib });
        let (rc, msg) = self.ask(Req::Boot);
        if rc == 0 {
            Ok(())
        } else {
            Err(msg)
        }
    }

    fn ask(&mut self, r: Req) -> (i32, String) {
        let p = self.proc.as_ref().expect("node is up");
        p.tx.send(r).expect("node thread");
        p.rx.recv().expect("node thread")
    }

    pub fn call(&mut self, c: &Call) -> Resp {
        self.disk.lock().unwrap().begin(&c.faults);
        let req = serde_json::to_string(&(&c.f, &c.args, &c.cp)).unwrap();
        let (rc, s) = self.ask(Req::Call(req));
        match rc {
            0 => Resp::Ok(serde_json::from_str(&s).expect("json")),
            1 => Resp::ArgErr(s),
            _ => Resp::Panic(s),
        }
    }

    /// The process dies here; only what the disk kept survives.
    pub fn crash(&mut self, power: bool, seed: u64) {
        let next = self.disk.lock().unwrap().after_crash(power, seed);
        self.kill();
        self.disk = Arc::new(Mutex::new(next));
    }

    pub fn kill(&mut self) {
        if let Some(p) = self.proc.take() {
            self.disk.lock().unwrap().dead = true;
            let _ = p.tx.send(Req::Quit);
            drop(p.tx);
            p.join.join().expect("node thread");
            unsafe {
                libc::dlclose(p.lib as *mut c_void);
                let path = CString::new(so_path(self.idx)).unwrap();
                // nothing of the process may survive, statics included
                let left = libc::dlopen(path.as_ptr(), libc::RTLD_NOW | libc::RTLD_NOLOAD);
                assert!(left.is_null(), "the service instance was not unloaded");
            }
        }
    }
}

impl Drop for Node {
    fn drop(&mut self) {
        self.kill();
    }
}
