//! What the storage crate asks of the system goes through here: its threads' sleeps are gates the
//! driver opens one at a time, and its file operations can be counted, made the last thing the
//! process does, or be the point, as its requests for locks are, where a thread stops until told to go on.
use std::cell::Cell;
use std::ffi::CStr;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Condvar, Mutex, MutexGuard, OnceLock};
use std::time::{Duration, Instant};
use libc::{c_char, c_int, c_void, mode_t, off64_t, size_t, ssize_t, timespec};

// ------------------------------------------------------------------ gates
#[derive(Default)]
struct Th { wake: std::sync::Arc<Condvar>, tid: i64, permits: u32, asleep: bool, passes: u64, gone: bool }
static THREADS: Mutex<Vec<Th>> = Mutex::new(Vec::new());
static CHANGED: Condvar = Condvar::new();
struct Slot(usize);
impl Drop for Slot { fn drop(&mut self) { let mut t = lock(); t[self.0].gone = true; CHANGED.notify_all(); } }
thread_local! { static SLOT: std::cell::OnceCell<Slot> = const { std::cell::OnceCell::new() }; static MINE: Cell<bool> = const { Cell::new(false) }; }
fn lock() -> MutexGuard<'static, Vec<Th>> { THREADS.lock().unwrap_or_else(|e| e.into_inner()) }
fn gate() {
    let i = SLOT.with(|s| s.get_or_init(|| { let mut t = lock(); t.push(Th { tid: unsafe { libc::syscall(libc::SYS_gettid) }, ..Default::default() }); Slot(t.len() - 1) }).0);
    let mut t = lock();
    t[i].asleep = true; t[i].passes += 1; CHANGED.notify_all();
    let wake = t[i].wake.clone();
    loop {
        if t[i].permits > 0 { t[i].permits -= 1; break; }
        t = wake.wait(t).unwrap_or_else(|e| e.into_inner());
    }
    t[i].asleep = false;
}
/// the driver's own threads sleep for real
pub fn mine() { MINE.with(|m| m.set(true)); }
unsafe fn real_sleep(req: *const timespec) -> c_int { libc::syscall(libc::SYS_nanosleep, req, std::ptr::null_mut::<c_void>()) as c_int }
#[no_mangle] pub unsafe extern "C" fn nanosleep(req: *const timespec, _rem: *mut timespec) -> c_int { if MINE.with(|m| m.get()) { return real_sleep(req); } gate(); 0 }
#[no_mangle] pub unsafe extern "C" fn clock_nanosleep(_c: c_int, _f: c_int, req: *const timespec, _rem: *mut timespec) -> c_int { if MINE.with(|m| m.get()) { return real_sleep(req); } gate(); 0 }

fn wait(t0: Duration, mut ok: impl FnMut(&Vec<Th>) -> bool) -> bool {
    let end = Instant::now() + t0;
    let mut t = lock();
    loop {
        if ok(&t) { return true; }
        let now = Instant::now();
        if now >= end { return false; }
        t = CHANGED.wait_timeout(t, end - now).unwrap_or_else(|e| e.into_inner()).0;
    }
}
pub fn threads() -> usize { lock().len() }
/// The background threads of a store just opened, in the order they were started.
pub fn background(base: usize) -> Vec<usize> {
    if !wait(Duration::from_secs(20), |t| t.len() >= base + 3 && t[base..base + 3].iter().all(|x| x.asleep)) { eprintln!("background threads did not come up"); std::process::exit(2); }
    let t = lock();
    let mut v: Vec<usize> = (base..base + 3).collect();
    // thread numbers grow, but start again at some point
    let hi = v.iter().map(|i| t[*i].tid).max().unwrap();
    v.sort_by_key(|i| if hi - t[*i].tid > 10000 { t[*i].tid + (1 << 40) } else { t[*i].tid });
    v
}
/// lets thread `i` go once and waits for it, or for `done`
pub fn step_until(i: usize, done: impl Fn() -> bool) {
    if lock()[i].gone { std::thread::sleep(Duration::from_millis(1)); return; }
    let p = go(i);
    for _ in 0..30000 { if done() || back(i, p, Duration::from_millis(2)) != 0 { return; } }
}
pub fn go(i: usize) -> u64 { let mut t = lock(); let p = t[i].passes; t[i].permits += 1; t[i].wake.notify_all(); p }
/// waits until thread `i` is back at its gate: 1 yes, -1 it died, 0 not within the time
pub fn back(i: usize, since: u64, within: Duration) -> i32 {
    let mut r = 0;
    wait(within, |t| { if t[i].gone { r = -1; true } else if t[i].asleep && t[i].passes > since { r = 1; true } else { false } });
    r
}
pub fn step(i: usize) -> i32 { if lock()[i].gone { return -1; } let p = go(i); back(i, p, Duration::from_secs(60)) }

// ------------------------------------------------------------------ file operations
static DIR: OnceLock<Vec<u8>> = OnceLock::new();
static ON: AtomicBool = AtomicBool::new(false);
static COUNT: AtomicI64 = AtomicI64::new(0);
static LAST: AtomicI64 = AtomicI64::new(-1);
static TORN: AtomicBool = AtomicBool::new(false);
static FDS: [AtomicUsize; 4096] = [const { AtomicUsize::new(0) }; 4096];
static LOG: Mutex<Vec<String>> = Mutex::new(Vec::new());
static KEEP: AtomicBool = AtomicBool::new(false);
/// from now on file operations below `dir` count; the process ends before operation `last` (or in the middle of it)
pub fn watch(dir: &str, last: i64, torn: bool) { parking_lot::hook(pause); let _ = DIR.set(dir.as_bytes().to_vec()); LAST.store(last, SeqCst); TORN.store(torn, SeqCst); ON.store(true, SeqCst); }
pub fn keep_log() { KEEP.store(true, SeqCst); }
pub fn log() -> Vec<String> { LOG.lock().unwrap().clone() }
pub fn count() -> i64 { COUNT.load(SeqCst) }
fn inside(p: &[u8]) -> bool { ON.load(SeqCst) && DIR.get().map_or(false, |d| p.starts_with(d)) }
/// true if this operation is to be cut in half
fn op(what: &str, p: &[u8], changes: bool, whole: bool) -> bool {
    pause();
    if !changes { return false; }
    if KEEP.load(SeqCst) { LOG.lock().unwrap().push(format!("{what} {}", String::from_utf8_lossy(p))); }
    let n = COUNT.fetch_add(1, SeqCst);
    if n == LAST.load(SeqCst) { if TORN.load(SeqCst) && !whole { return true; } unsafe { libc::_exit(77) } }
    false
}
unsafe fn err(r: libc::c_long) -> libc::c_long { r }
#[no_mangle] pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let p = CStr::from_ptr(path).to_bytes();
    let wr = flags & (libc::O_WRONLY | libc::O_RDWR) != 0;
    let dir = flags & libc::O_DIRECTORY != 0;
    let mut name = 0;
    if inside(p) && !dir { op(if wr { "open" } else { "read" }, p, flags & (libc::O_CREAT | libc::O_TRUNC) != 0, true); if wr { name = 1 + LABEL.lock().map(|mut l| { l.push(p.to_vec()); l.len() - 1 }).unwrap_or(0); } }
    let fd = libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode as libc::c_uint) as c_int;
    if fd >= 0 && (fd as usize) < FDS.len() { FDS[fd as usize].store(name, SeqCst); }
    fd
}
static LABEL: Mutex<Vec<Vec<u8>>> = Mutex::new(Vec::new());
#[no_mangle] pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    let name = if fd >= 0 && (fd as usize) < FDS.len() { FDS[fd as usize].load(SeqCst) } else { 0 };
    if name > 0 && ON.load(SeqCst) {
        let p = LABEL.lock().unwrap()[name - 1].clone();
        if op("write", &p, true, n < 2) { libc::syscall(libc::SYS_write, fd, buf, n / 2); libc::_exit(77) }
    }
    libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t
}
#[no_mangle] pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int { let p = CStr::from_ptr(a).to_bytes(); if inside(p) { op("rename", p, true, true); } err(libc::syscall(libc::SYS_rename, a, b)) as c_int }
#[no_mangle] pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int { let p = CStr::from_ptr(a).to_bytes(); if inside(p) { op("unlink", p, true, true); } err(libc::syscall(libc::SYS_unlink, a)) as c_int }
#[no_mangle] pub unsafe extern "C" fn mkdir(a: *const c_char, m: mode_t) -> c_int { let p = CStr::from_ptr(a).to_bytes(); if inside(p) { op("mkdir", p, true, true); } err(libc::syscall(libc::SYS_mkdir, a, m as libc::c_uint)) as c_int }
#[no_mangle] pub unsafe extern "C" fn linkat(od: c_int, a: *const c_char, nd: c_int, b: *const c_char, f: c_int) -> c_int { let p = CStr::from_ptr(a).to_bytes(); if inside(p) { op("link", p, true, true); } err(libc::syscall(libc::SYS_linkat, od, a, nd, b, f)) as c_int }
#[no_mangle] pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int { linkat(libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0) }
/// how std::fs::copy copies
#[no_mangle] pub unsafe extern "C" fn copy_file_range(a: c_int, ao: *mut off64_t, b: c_int, bo: *mut off64_t, n: size_t, f: libc::c_uint) -> ssize_t {
    let name = if b >= 0 && (b as usize) < FDS.len() { FDS[b as usize].load(SeqCst) } else { 0 };
    if name > 0 && ON.load(SeqCst) { let p = LABEL.lock().unwrap()[name - 1].clone(); if op("copy", &p, true, false) { libc::syscall(libc::SYS_copy_file_range, a, ao, b, bo, 100, f); libc::_exit(77) } }
    libc::syscall(libc::SYS_copy_file_range, a, ao, b, bo, n, f) as ssize_t
}
#[no_mangle] pub unsafe extern "C" fn ftruncate64(fd: c_int, n: off64_t) -> c_int {
    let name = if fd >= 0 && (fd as usize) < FDS.len() { FDS[fd as usize].load(SeqCst) } else { 0 };
    if name > 0 && ON.load(SeqCst) { let p = LABEL.lock().unwrap()[name - 1].clone(); op("truncate", &p, true, true); }
    libc::syscall(libc::SYS_ftruncate, fd, n) as c_int
}

// ------------------------------------------------------------------ stopping a thread at a file operation
struct Pause { arm: Vec<i64>, at: Vec<bool>, go: Vec<bool> }
static PAUSE: Mutex<Pause> = Mutex::new(Pause { arm: vec![], at: vec![], go: vec![] });
static STOPS: Condvar = Condvar::new();
thread_local! { static TOKEN: Cell<usize> = const { Cell::new(usize::MAX) }; }
static BG: Mutex<Vec<(usize, usize)>> = Mutex::new(Vec::new());      // background thread, token
static BUSY: AtomicBool = AtomicBool::new(false);
pub fn pause() {
    if !BUSY.load(SeqCst) { return; }
    let tok = match TOKEN.try_with(|t| t.get()) { Ok(t) if t != usize::MAX => t, Ok(_) => { let Ok(Some(me)) = SLOT.try_with(|s| s.get().map(|x| x.0)) else { return }; match BG.lock().unwrap().iter().rev().find(|x| x.0 == me) { Some(x) => x.1, None => return } } Err(_) => return };
    let mut g = PAUSE.lock().unwrap();
    let k = g.arm[tok]; if k < 0 { return; }
    g.arm[tok] = k - 1; if k > 0 { return; }
    g.at[tok] = true; STOPS.notify_all();
    while !g.go[tok] { g = STOPS.wait(g).unwrap(); }
}
fn token(k: i64) -> usize { let mut g = PAUSE.lock().unwrap(); g.arm.push(k); g.at.push(false); g.go.push(false); g.arm.len() - 1 }
/// Runs `a` up to its `k`-th file operation or request for a lock, then `b` as far as it gets, then the rest of both.
/// `a` is a call on a thread of its own or, given as `Err(i)`, one round of background thread `i`.
pub fn overlap<A: Send + 'static, B: Send + 'static>(k: i64, a: Result<Box<dyn FnOnce() -> A + Send>, usize>, b: impl FnOnce() -> B + Send + 'static) -> (Option<A>, B, bool, bool) {
    let w = token(k);
    BUSY.store(true, SeqCst);
    let done = std::sync::Arc::new(AtomicBool::new(false));
    let mut ta = None; let mut bgp = None;
    match a {
        Ok(f) => { let d2 = done.clone(); ta = Some(std::thread::spawn(move || { mine(); TOKEN.with(|t| t.set(w)); let r = f(); d2.store(true, SeqCst); r })); }
        Err(i) => { BG.lock().unwrap().push((i, w)); bgp = Some((i, go(i))); }
    }
    let stopped = loop {
        { let g = PAUSE.lock().unwrap(); if g.at[w] { break true; } let (g, _) = STOPS.wait_timeout(g, Duration::from_millis(1)).unwrap(); if g.at[w] { break true; } }
        if done.load(SeqCst) { break false; }
        if let Some((i, p)) = bgp { if back(i, p, Duration::from_millis(0)) != 0 { break false; } }
    };
    let (tx, rx) = std::sync::mpsc::channel();
    let tb = std::thread::spawn(move || { mine(); let r = b(); let _ = tx.send(()); r });
    let _ = rx.recv_timeout(Duration::from_millis(if stopped { 15 } else { 60000 }));
    { let mut g = PAUSE.lock().unwrap(); g.go[w] = true; g.arm[w] = -1; STOPS.notify_all(); }
    let rb = tb.join();
    let ra = ta.map(|t| t.join().unwrap());
    let mut lives = true;
    if let Some((i, p)) = bgp { lives = back(i, p, Duration::from_secs(60)) == 1; BG.lock().unwrap().clear(); }
    BUSY.store(false, SeqCst);
    (ra, rb.unwrap(), stopped, lives)
}
