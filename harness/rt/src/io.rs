//! File-system calls of this process, recorded and failed on demand.
//!
//! SQLite (linked statically) and everything else in this process call the
//! definitions below instead of the C library's. Outside of the watched
//! directory, and while nothing is being recorded, they only forward.

use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_long, c_void};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering};
use std::sync::{Mutex, Once};

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
}

const SYS_WRITE: c_long = 1;
const SYS_LSEEK: c_long = 8;
const SYS_PWRITE64: c_long = 18;
const SYS_FSYNC: c_long = 74;
const SYS_FDATASYNC: c_long = 75;
const SYS_FTRUNCATE: c_long = 77;
const SYS_UNLINK: c_long = 87;
const SYS_READLINK: c_long = 89;

pub const EIO: c_int = 5;
pub const ENOSPC: c_int = 28;

#[derive(Clone, Debug)]
pub enum Event {
    Write { file: String, off: u64, data: Vec<u8> },
    Truncate { file: String, len: u64 },
    Sync { file: String },
    Unlink { file: String },
    /// Set by the harness: operation `n` starts / has returned.
    Begin(usize),
    Ack(usize),
}

static ON: AtomicBool = AtomicBool::new(false);
/// Counts down on every watched call that can fail; fails the one reaching 0
/// (and, if `STICKY`, all the later ones).
static FAIL_AT: AtomicI64 = AtomicI64::new(i64::MAX);
static STICKY: AtomicBool = AtomicBool::new(false);
static FAILED: AtomicBool = AtomicBool::new(false);
static ERRNO: AtomicI64 = AtomicI64::new(EIO as i64);

struct Rec {
    dir: Vec<u8>,
    log: Vec<Event>,
}

static mut REC_CELL: Option<Mutex<Option<Rec>>> = None;
static REC_ONCE: Once = Once::new();

fn rec() -> &'static Mutex<Option<Rec>> {
    unsafe {
        REC_ONCE.call_once(|| REC_CELL = Some(Mutex::new(None)));
        REC_CELL.as_ref().unwrap()
    }
}

pub fn start(dir: &str) {
    *rec().lock().unwrap() = Some(Rec { dir: dir.as_bytes().to_vec(), log: vec![] });
    FAIL_AT.store(i64::MAX, Ordering::SeqCst);
    FAILED.store(false, Ordering::SeqCst);
    ON.store(true, Ordering::SeqCst);
}

pub fn stop() -> Vec<Event> {
    ON.store(false, Ordering::SeqCst);
    FAIL_AT.store(i64::MAX, Ordering::SeqCst);
    rec().lock().unwrap().take().map(|r| r.log).unwrap_or_default()
}

pub fn mark(e: Event) {
    if let Some(r) = rec().lock().unwrap().as_mut() {
        r.log.push(e);
    }
}

pub fn fail_at(n: i64, errno: c_int, sticky: bool) {
    FAILED.store(false, Ordering::SeqCst);
    ERRNO.store(errno as i64, Ordering::SeqCst);
    STICKY.store(sticky, Ordering::SeqCst);
    FAIL_AT.store(n, Ordering::SeqCst);
}

/// Disarms; returns the countdown reached.
pub fn no_fail() -> i64 {
    FAIL_AT.swap(i64::MAX, Ordering::SeqCst)
}

pub fn failed() -> bool {
    FAILED.load(Ordering::SeqCst)
}

fn should_fail() -> bool {
    let left = FAIL_AT.load(Ordering::SeqCst);
    if left == i64::MAX {
        return false;
    }
    if left > 0 {
        FAIL_AT.store(left - 1, Ordering::SeqCst);
        return false;
    }
    if !STICKY.load(Ordering::SeqCst) {
        FAIL_AT.store(i64::MAX, Ordering::SeqCst);
    }
    FAILED.store(true, Ordering::SeqCst);
    unsafe { *__errno_location() = ERRNO.load(Ordering::SeqCst) as c_int };
    true
}

/// The name of the watched file behind `fd`, relative to the watched directory.
fn watched(fd: c_int, rec: &Rec) -> Option<String> {
    let link = CString::new(format!("/proc/self/fd/{}", fd)).unwrap();
    let mut buf = [0u8; 512];
    let n = unsafe { syscall(SYS_READLINK, link.as_ptr(), buf.as_mut_ptr(), buf.len()) };
    if n <= 0 {
        return None;
    }
    name_in(&buf[..n as usize], rec)
}

fn name_in(path: &[u8], rec: &Rec) -> Option<String> {
    let rest = path.strip_prefix(&rec.dir[..])?.strip_prefix(b"/")?;
    let s = String::from_utf8_lossy(rest).into_owned();
    if s.ends_with("-shm") {
        return None; // not needed after a crash: rebuilt by SQLite
    }
    Some(s)
}

/// Runs `f` with the recorder if the call on `fd` is watched.
fn on_fd(fd: c_int, f: impl FnOnce(String, &mut Rec)) {
    let errno = unsafe { *__errno_location() };
    if let Ok(mut g) = rec().lock() {
        if let Some(r) = g.as_mut() {
            if let Some(name) = watched(fd, r) {
                f(name, r);
            }
        }
    }
    unsafe { *__errno_location() = errno };
}

fn is_watched(fd: c_int) -> bool {
    let mut w = false;
    on_fd(fd, |_, _| w = true);
    w
}

unsafe fn wrote(fd: c_int, buf: *const c_void, n: isize, off: u64) {
    let data = std::slice::from_raw_parts(buf as *const u8, n as usize).to_vec();
    on_fd(fd, |file, r| r.log.push(Event::Write { file, off, data }));
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    if !ON.load(Ordering::Relaxed) || fd < 3 {
        return syscall(SYS_WRITE, fd, buf, n) as isize;
    }
    if is_watched(fd) {
        if should_fail() {
            return -1;
        }
        let off = syscall(SYS_LSEEK, fd, 0 as c_long, 1 as c_int);
        let r = syscall(SYS_WRITE, fd, buf, n) as isize;
        if r > 0 {
            wrote(fd, buf, r, off as u64);
        }
        return r;
    }
    syscall(SYS_WRITE, fd, buf, n) as isize
}

#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    if ON.load(Ordering::Relaxed) && is_watched(fd) {
        if should_fail() {
            return -1;
        }
        let r = syscall(SYS_PWRITE64, fd, buf, n, off) as isize;
        if r > 0 {
            wrote(fd, buf, r, off as u64);
        }
        return r;
    }
    syscall(SYS_PWRITE64, fd, buf, n, off) as isize
}

#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    pwrite64(fd, buf, n, off)
}

unsafe fn sync(fd: c_int, nr: c_long) -> c_int {
    if ON.load(Ordering::Relaxed) {
        if is_watched(fd) {
            if should_fail() {
                return -1;
            }
            on_fd(fd, |file, r| r.log.push(Event::Sync { file }));
        }
        return 0; // scratch files: recorded, never really flushed
    }
    syscall(nr, fd) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    sync(fd, SYS_FSYNC)
}

#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    sync(fd, SYS_FDATASYNC)
}

unsafe fn truncate_fd(fd: c_int, len: i64) -> c_int {
    if ON.load(Ordering::Relaxed) && is_watched(fd) {
        if should_fail() {
            return -1;
        }
        let r = syscall(SYS_FTRUNCATE, fd, len) as c_int;
        if r == 0 {
            on_fd(fd, |file, r| r.log.push(Event::Truncate { file, len: len as u64 }));
        }
        return r;
    }
    syscall(SYS_FTRUNCATE, fd, len) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: i64) -> c_int {
    truncate_fd(fd, len)
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    truncate_fd(fd, len)
}

#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    if ON.load(Ordering::Relaxed) {
        if let Ok(mut g) = rec().lock() {
            if let Some(r) = g.as_mut() {
                if let Some(file) = name_in(CStr::from_ptr(path).to_bytes(), r) {
                    r.log.push(Event::Unlink { file });
                }
            }
        }
    }
    syscall(SYS_UNLINK, path) as c_int
}
