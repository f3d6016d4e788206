//! System-call seam. While crate code runs, its calls to the outside world are
//! intercepted here: counted, and answered as the run's fault plan says. Also
//! the panic hook that keeps panics silent and remembers their message.
#![allow(unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
use std::cell::RefCell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};

static INSIDE: AtomicBool = AtomicBool::new(false);
static FAIL: AtomicBool = AtomicBool::new(false);
static CALLS: AtomicU64 = AtomicU64::new(0);
static LAST: AtomicU64 = AtomicU64::new(0);
thread_local! { static MSG: RefCell<String> = const { RefCell::new(String::new()) }; }

pub fn enter() {
    INSIDE.store(true, Relaxed);
}
pub fn leave() {
    INSIDE.store(false, Relaxed);
}
/// for handing the run to another thread
pub fn swap_inside(on: bool) -> bool {
    INSIDE.swap(on, Relaxed)
}
/// make every intercepted call fail while crate code runs
pub fn fail_io(on: bool) {
    FAIL.store(on, Relaxed);
}
pub fn io_calls() -> u64 {
    CALLS.load(Relaxed)
}
pub fn last_call() -> &'static str {
    NAMES[LAST.load(Relaxed) as usize]
}
pub fn take_panic() -> String {
    MSG.with(|m| std::mem::take(&mut *m.borrow_mut()))
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let inside = INSIDE.swap(false, Relaxed);
        let text = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let at = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        if !inside {
            eprintln!("harness panic: {}{}", text, at);
        }
        let text: String = text.chars().take(160).collect();
        MSG.with(|m| *m.borrow_mut() = format!("{}{}", text, at));
        INSIDE.store(inside, Relaxed);
    }));
}

const NAMES: &[&str] = &["none", "write", "open", "openat", "socket", "connect", "unlink", "sleep", "fork/exec", "thread", "read",
    "stat", "getcwd", "directory change", "send/receive", "kill"];

extern "C" {
    fn __errno_location() -> *mut i32;
}
/// errno and -1, as the C library returns a failed call
pub fn done(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        unsafe { *__errno_location() = -r as i32 };
        return -1;
    }
    r
}
/// a system call that nothing intercepts
pub unsafe fn raw(n: i64, a: [i64; 6]) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
        in("r10") a[3], in("r8") a[4], in("r9") a[5], out("rcx") _, out("r11") _);
    done(r)
}
macro_rules! call {
    ($n:expr, $($a:expr),*) => {{
        let v: &[i64] = &[$($a as i64),*];
        let mut a = [0i64; 6];
        a[..v.len()].copy_from_slice(v);
        raw($n, a)
    }};
}
const ENOSPC: i32 = 28;

/// true if the call is to be refused
fn seen(what: u64) -> bool {
    if INSIDE.load(Relaxed) {
        CALLS.fetch_add(1, Relaxed);
        LAST.store(what, Relaxed);
        if FAIL.load(Relaxed) {
            unsafe { *__errno_location() = ENOSPC };
            return true;
        }
    }
    false
}

macro_rules! hook {
    ($name:ident, $what:expr, $nr:expr, ($($a:ident : $t:ty),*), $r:ty) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> $r {
            if seen($what) { return -1; }
            call!($nr, $($a),*) as $r
        }
    };
}
// x86_64 numbers
hook!(write, 1, 1, (fd: i32, b: *const u8, n: usize), isize);
hook!(writev, 1, 20, (fd: i32, b: *const u8, n: i32), isize);
hook!(open, 2, 2, (p: *const u8, fl: i32, m: u32), i32);
hook!(open64, 2, 2, (p: *const u8, fl: i32, m: u32), i32);
hook!(openat, 3, 257, (d: i32, p: *const u8, fl: i32, m: u32), i32);
hook!(openat64, 3, 257, (d: i32, p: *const u8, fl: i32, m: u32), i32);
hook!(socket, 4, 41, (a: i32, b: i32, c: i32), i32);
hook!(connect, 5, 42, (a: i32, b: *const u8, c: u32), i32);
hook!(unlink, 6, 87, (p: *const u8), i32);
hook!(nanosleep, 7, 35, (a: *const u8, b: *mut u8), i32);
hook!(clock_nanosleep, 7, 230, (a: i32, f: i32, b: *const u8, c: *mut u8), i32);
hook!(read, 10, 0, (fd: i32, b: *mut u8, n: usize), isize);
hook!(readv, 10, 19, (fd: i32, b: *mut u8, n: i32), isize);
hook!(pread64, 10, 17, (fd: i32, b: *mut u8, n: usize, o: i64), isize);
hook!(pwrite64, 1, 18, (fd: i32, b: *const u8, n: usize, o: i64), isize);
hook!(statx, 11, 332, (d: i32, p: *const u8, f: i32, m: u32, b: *mut u8), i32);
hook!(stat64, 11, 4, (p: *const u8, b: *mut u8), i32);
hook!(lstat64, 11, 6, (p: *const u8, b: *mut u8), i32);
hook!(fstat64, 11, 5, (fd: i32, b: *mut u8), i32);
hook!(fsync, 1, 74, (fd: i32), i32);
hook!(fdatasync, 1, 75, (fd: i32), i32);
hook!(chdir, 13, 80, (p: *const u8), i32);
hook!(mkdir, 13, 83, (p: *const u8, m: u32), i32);
hook!(rmdir, 13, 84, (p: *const u8), i32);
hook!(rename, 13, 82, (a: *const u8, b: *const u8), i32);
hook!(bind, 14, 49, (a: i32, b: *const u8, c: u32), i32);
hook!(listen, 14, 50, (a: i32, b: i32), i32);
hook!(sendto, 14, 44, (a: i32, b: *const u8, n: usize, f: i32, c: *const u8, l: u32), isize);
hook!(recvfrom, 14, 45, (a: i32, b: *mut u8, n: usize, f: i32, c: *mut u8, l: *mut u32), isize);
hook!(kill, 15, 62, (p: i32, s: i32), i32);

#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut u8, n: usize) -> *mut u8 {
    if seen(12) || call!(79, b, n) < 0 {
        return std::ptr::null_mut();
    }
    b
}

type Start = extern "C" fn(*mut u8) -> *mut u8;
extern "C" {
    fn dlsym(h: *mut u8, name: *const u8) -> *mut u8;
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut usize, a: *const u8, f: Start, arg: *mut u8) -> i32 {
    if seen(9) {
        return 11;
    }
    let next = -1isize as *mut u8;
    let real: unsafe extern "C" fn(*mut usize, *const u8, Start, *mut u8) -> i32 =
        std::mem::transmute(dlsym(next, c"pthread_create".as_ptr() as *const u8));
    real(t, a, f, arg)
}

static CLOCK: AtomicU64 = AtomicU64::new(0);
/// simulated time, in microseconds
pub fn set_clock(us: u64) {
    CLOCK.store(us, Relaxed);
}

/// Crate code that asks for the time gets simulated time, a thousand times as fast (so that the delays of
/// a network are long ones), and a wall clock that also jumps.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: i32, t: *mut i64) -> i32 {
    if !INSIDE.load(Relaxed) {
        return call!(228, clock, t) as i32;
    }
    let us = CLOCK.load(Relaxed);
    let mut s = 1_000_000 + us / 1000;
    if clock == 0 {
        s += 1_700_000_000 - us / 100_000 % 7 * 3600;
    }
    *t = s as i64;
    *t.add(1) = (us % 1000 * 1_000_000) as i64;
    0
}

/// the seeds of hash maps: the same in every process
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut u8, n: usize, _: u32) -> isize {
    std::slice::from_raw_parts_mut(b, n).fill(0x5a);
    n as isize
}
