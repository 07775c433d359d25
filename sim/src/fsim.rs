//! The file-system seam: `open64`, `read`, `lseek64` and `close` of this process
//! are interposed. Files under the scratch directory are real (tmpfs), but every
//! operation on them follows a plan drawn from the tape: errors, interrupted
//! calls, short reads. All other files pass through untouched.

use crate::core::*;
use std::collections::BTreeSet;
use std::ffi::CStr;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;

#[derive(Default)]
struct Plan {
    fds: BTreeSet<i32>,
    prefix: String,
    outcomes: Vec<u32>,
    next: usize,
    stats: [u64; 8],
    log: Vec<(u32, i64)>,
    failing: bool,
}

static ACTIVE: AtomicBool = AtomicBool::new(false);
static PLAN: Mutex<Option<Plan>> = Mutex::new(None);

// File operations run on tokio's blocking thread only while the simulator waits for them, so
// whether one has finished by the time its task is polled is never a race.
static GATE: Mutex<bool> = Mutex::new(false);
static GATE_CV: std::sync::Condvar = std::sync::Condvar::new();

pub fn gate(open: bool) {
    *GATE.lock().unwrap_or_else(|e| e.into_inner()) = open;
    GATE_CV.notify_all();
}

fn gate_wait() {
    let mut g = GATE.lock().unwrap_or_else(|e| e.into_inner());
    while !*g && ACTIVE.load(Ordering::Relaxed) {
        g = GATE_CV.wait(g).unwrap_or_else(|e| e.into_inner());
    }
}

fn errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}

const OK: u32 = 0;
const SHORT1: u32 = 1;
const SHORTN: u32 = 2;
const EINTR: u32 = 3;
const EIO: u32 = 4;

impl Plan {
    fn take(&mut self) -> u32 {
        if !self.failing {
            return OK;
        }
        let o = self.outcomes.get(self.next).copied().unwrap_or(OK);
        self.next += 1;
        o
    }
}

fn with_plan<T>(f: impl FnOnce(&mut Plan) -> T) -> Option<T> {
    if !ACTIVE.load(Ordering::Relaxed) {
        return None;
    }
    PLAN.lock().unwrap_or_else(|e| e.into_inner()).as_mut().map(f)
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: libc::c_int, mode: libc::mode_t) -> libc::c_int {
    let mut track = false;
    if ACTIVE.load(Ordering::Relaxed) {
        let p = CStr::from_ptr(path).to_string_lossy().into_owned();
        let mine = with_plan(|pl| p.starts_with(&pl.prefix) && flags & libc::O_ACCMODE == libc::O_RDONLY) == Some(true);
        if mine {
            gate_wait();
        }
        let fate = with_plan(|pl| {
            if mine {
                Some(pl.take())
            } else {
                None
            }
        })
        .flatten();
        if let Some(o) = fate {
            track = true;
            if o == EIO {
                with_plan(|pl| {
                    pl.stats[0] += 1;
                    pl.log.push((1, -1));
                });
                errno(libc::EMFILE);
                return -1;
            }
        }
    }
    let fd = libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as i32;
    if track && fd >= 0 {
        with_plan(|pl| {
            pl.fds.insert(fd);
            pl.log.push((1, 0));
        });
    }
    fd
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: libc::c_int) -> libc::c_int {
    with_plan(|pl| pl.fds.remove(&fd));
    libc::syscall(libc::SYS_close, fd) as i32
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: libc::c_int, buf: *mut libc::c_void, count: libc::size_t) -> libc::ssize_t {
    let mut n = count;
    if with_plan(|pl| pl.fds.contains(&fd)) == Some(true) {
        gate_wait();
    }
    let fate = with_plan(|pl| if pl.fds.contains(&fd) { Some(pl.take()) } else { None }).flatten();
    let tracked = fate.is_some();
    match fate {
        Some(EIO) => {
            with_plan(|pl| {
                pl.stats[1] += 1;
                pl.log.push((2, -1));
            });
            errno(libc::EIO);
            return -1;
        }
        Some(EINTR) => {
            with_plan(|pl| {
                pl.stats[2] += 1;
                pl.log.push((2, -2));
            });
            errno(libc::EINTR);
            return -1;
        }
        Some(SHORT1) => n = n.min(1),
        Some(SHORTN) => n = n.min(1 + count / 3),
        _ => {}
    }
    let r = libc::syscall(libc::SYS_read, fd, buf, n) as isize;
    if tracked {
        with_plan(|pl| {
            if n < count {
                pl.stats[3] += 1;
            }
            pl.log.push((2, r as i64));
        });
    }
    r
}

unsafe fn seek(fd: libc::c_int, off: i64, whence: libc::c_int) -> i64 {
    if with_plan(|pl| pl.fds.contains(&fd)) == Some(true) {
        gate_wait();
    }
    let fate = with_plan(|pl| if pl.fds.contains(&fd) { Some(pl.take()) } else { None }).flatten();
    if fate == Some(EIO) {
        with_plan(|pl| {
            pl.stats[4] += 1;
            pl.log.push((3, -1));
        });
        errno(libc::EIO);
        return -1;
    }
    let r = libc::syscall(libc::SYS_lseek, fd, off, whence);
    if fate.is_some() {
        with_plan(|pl| pl.log.push((3, r)));
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: libc::c_int, off: i64, whence: libc::c_int) -> i64 {
    seek(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: libc::c_int, off: i64, whence: libc::c_int) -> i64 {
    seek(fd, off, whence)
}

// ---------------------------------------------------------------- harness side

pub struct FsSim {
    pub dir: String,
    rt: Option<tokio::runtime::Runtime>,
}

fn root() -> String {
    std::env::var("ZIPSIM_SCRATCH").unwrap_or_else(|_| "/tmp".into())
}

impl FsSim {
    /// `faults`: permille of operations that misbehave (0 = a healthy disk).
    pub fn new(faults: u32) -> FsSim {
        let dir = format!("{}/zipsim-{}", root(), std::process::id());
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).expect("scratch dir");
        let mut outcomes = Vec::new();
        if faults > 0 {
            for _ in 0..160 {
                outcomes.push(if chance(faults) { 1 + weighted(&[3, 3, 2, 3]) as u32 } else { 0 });
            }
        }
        *PLAN.lock().unwrap_or_else(|e| e.into_inner()) =
            Some(Plan { prefix: dir.clone(), outcomes, failing: faults > 0, ..Default::default() });
        gate(false);
        ACTIVE.store(true, Ordering::Relaxed);
        let rt = tokio::runtime::Builder::new_current_thread()
            .max_blocking_threads(1)
            .thread_keep_alive(std::time::Duration::from_secs(3600))
            .build()
            .expect("runtime");
        HANDLE.with(|h| *h.borrow_mut() = Some(rt.handle().clone()));
        FsSim { dir, rt: Some(rt) }
    }
    pub fn enter(&self) -> tokio::runtime::EnterGuard<'_> {
        self.rt.as_ref().unwrap().enter()
    }
    pub fn put(&self, name: &str, bytes: &[u8]) -> String {
        let p = format!("{}/{}", self.dir, name);
        std::fs::write(&p, bytes).expect("scratch file");
        p
    }
}

thread_local! {
    static HANDLE: std::cell::RefCell<Option<tokio::runtime::Handle>> = const { std::cell::RefCell::new(None) };
}

/// Waits until no file operation is in flight (they run one at a time, in order).
/// False when no simulated disk is active.
pub fn quiesce() -> bool {
    let h = HANDLE.with(|h| h.borrow().clone());
    let Some(h) = h else { return false };
    let (tx, rx) = std::sync::mpsc::channel();
    drop(h.spawn_blocking(move || tx.send(()).is_ok()));
    gate(true);
    let ok = rx.recv().is_ok();
    gate(false);
    ok
}

pub fn set_failing(on: bool) {
    with_plan(|pl| pl.failing = on);
}
/// Injected errors so far (not short reads or retried interruptions).
pub fn errors() -> u64 {
    with_plan(|pl| pl.stats[0] + pl.stats[1] + pl.stats[4]).unwrap_or(0)
}

impl Drop for FsSim {
    fn drop(&mut self) {
        // Wait for anything still on the blocking thread, then account and clean up.
        HANDLE.with(|h| *h.borrow_mut() = None);
        gate(true);
        if let Some(rt) = self.rt.take() {
            rt.shutdown_timeout(std::time::Duration::from_secs(20));
        }
        ACTIVE.store(false, Ordering::Relaxed);
        let plan = PLAN.lock().unwrap_or_else(|e| e.into_inner()).take();
        if let Some(pl) = plan {
            let names = ["file_open_error", "file_read_error", "file_read_interrupted", "file_short_read", "file_seek_error"];
            for (i, n) in names.iter().enumerate() {
                for _ in 0..pl.stats[i] {
                    fault(n);
                }
            }
            for (op, r) in &pl.log {
                io_event(50, 10 + op, *r as u64 & 0xFFFF_FFFF, true);
            }
        }
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

pub fn cleanup() {
    HANDLE.with(|h| *h.borrow_mut() = None);
    ACTIVE.store(false, Ordering::Relaxed);
    let p = PLAN.lock().unwrap_or_else(|e| e.into_inner()).take();
    if let Some(p) = p {
        let _ = std::fs::remove_dir_all(&p.prefix);
    }
}
