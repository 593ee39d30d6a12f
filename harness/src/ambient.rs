//! What code can learn from its surroundings: the environment, the clock, the process, the current
//! directory. The C library's functions for these are interposed: calls made while a thread watches
//! are counted, and while it perturbs, they're answered with something else.

use std::cell::Cell;
use std::collections::BTreeSet;
use std::ffi::{c_char, c_int, CStr};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

/// The answers given for environment variables; the first one is "not set".
pub const VALUES: [Option<&CStr>; 13] = [
    None,
    Some(c"1"),
    Some(c""),
    Some(c"0"),
    Some(c"true"),
    Some(c"false"),
    Some(c"yes"),
    Some(c"no"),
    Some(c"16"),
    Some(c"4096"),
    Some(c"strict"),
    Some(c"debug"),
    Some(c"/"),
];

thread_local! {
    static WATCH: Cell<bool> = const { Cell::new(false) };
    /// Zero, or one more than a seed.
    static PERTURB: Cell<u64> = const { Cell::new(0) };
}
static SEEN: AtomicU64 = AtomicU64::new(0);
static NAMES: Mutex<BTreeSet<String>> = Mutex::new(BTreeSet::new());

struct Restore(bool, u64);
impl Drop for Restore {
    fn drop(&mut self) {
        WATCH.with(|w| w.set(self.0));
        PERTURB.with(|p| p.set(self.1));
    }
}

/// Runs something while counting its calls.
pub fn watched<T>(f: impl FnOnce() -> T) -> T {
    let _r = Restore(WATCH.with(|w| w.replace(true)), PERTURB.with(|p| p.get()));
    f()
}

/// Runs something with other answers.
pub fn perturbed<T>(seed: u64, f: impl FnOnce() -> T) -> T {
    let _r = Restore(WATCH.with(|w| w.replace(true)), PERTURB.with(|p| p.replace(seed.max(1))));
    f()
}

/// Calls counted so far, by all threads.
pub fn seen() -> u64 {
    SEEN.load(Ordering::Relaxed)
}

/// The environment variables that were asked for, by all threads.
pub fn names() -> Vec<String> {
    NAMES.lock().unwrap().iter().cloned().collect()
}

fn perturbation() -> Option<u64> {
    if !WATCH.try_with(|w| w.get()).unwrap_or(false) {
        return None;
    }
    SEEN.fetch_add(1, Ordering::Relaxed);
    match PERTURB.try_with(|p| p.get()).unwrap_or(0) {
        0 => None,
        p => Some(p),
    }
}

extern "C" {
    static environ: *const *const c_char;
}

/// # Safety
/// As getenv(3).
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    let name = CStr::from_ptr(name).to_bytes();
    // The standard library's own, for panics and threads.
    if !name.starts_with(b"RUST_BACKTRACE") && !name.starts_with(b"RUST_LIB_BACKTRACE") && !name.starts_with(b"RUST_MIN_STACK") {
        if let Some(p) = perturbation() {
            return VALUES[p as usize % VALUES.len()].map_or(std::ptr::null_mut(), |v| v.as_ptr() as *mut c_char);
        }
        if WATCH.try_with(|w| w.get()).unwrap_or(false) {
            if let Ok(mut n) = NAMES.lock() {
                if n.len() < 8 {
                    n.insert(String::from_utf8_lossy(name).into_owned());
                }
            }
        }
    }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let v = CStr::from_ptr(*e).to_bytes();
        if v.len() > name.len() && v[..name.len()] == *name && v[name.len()] == b'=' {
            return (*e).add(name.len() + 1) as *mut c_char;
        }
        e = e.add(1);
    }
    std::ptr::null_mut()
}

/// # Safety
/// As clock_gettime(2).
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: libc::clockid_t, t: *mut libc::timespec) -> c_int {
    let r = libc::syscall(libc::SYS_clock_gettime, clock, t) as c_int;
    if let Some(p) = perturbation() {
        // Every look at the clock finds another hour passed, or several years.
        thread_local!(static LOOKS: Cell<i64> = const { Cell::new(0) });
        let n = LOOKS.try_with(|l| l.replace(l.get() + 1)).unwrap_or(0);
        (*t).tv_sec += (n % 100_000) * if p % 2 == 0 { 3601 } else { 100_000_007 };
    }
    r
}

#[no_mangle]
pub extern "C" fn getpid() -> libc::pid_t {
    match perturbation() {
        Some(p) => 2 + (p % 30_000) as libc::pid_t,
        None => unsafe { libc::syscall(libc::SYS_getpid) as libc::pid_t },
    }
}

/// # Safety
/// As getcwd(3), for a buffer that isn't null.
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, len: usize) -> *mut c_char {
    if let Some(p) = perturbation() {
        let d = if p % 2 == 0 { c"/" } else { c"/proc" };
        if len > 6 {
            std::ptr::copy_nonoverlapping(d.as_ptr(), buf, d.to_bytes_with_nul().len());
            return buf;
        }
    }
    match libc::syscall(libc::SYS_getcwd, buf, len) {
        n if n > 0 => buf,
        _ => std::ptr::null_mut(),
    }
}
