//! libc symbols defined in the executable, so that every call from the
//! statically linked Rust code (std included) comes here instead of libc.
#![allow(non_snake_case)]
use crate::{raw, sched};
use libc::*;

unsafe fn set_errno(e: i64) -> c_long {
    *__errno_location() = e as c_int;
    -1
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if n == SYS_futex {
        let op = b as c_int & !(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
        let r = match op {
            FUTEX_WAIT | FUTEX_WAIT_BITSET => {
                let dl = if d == 0 {
                    None
                } else {
                    let ts = &*(d as *const timespec);
                    let ns = (ts.tv_sec as u64).saturating_mul(1_000_000_000).saturating_add(ts.tv_nsec as u64);
                    Some(if op == FUTEX_WAIT { sched::now_ns().saturating_add(ns) } else { ns })
                };
                let bs = if op == FUTEX_WAIT_BITSET { f as u32 } else { u32::MAX };
                sched::futex_wait(a, c as u32, bs, dl)
            }
            FUTEX_WAKE => sched::futex_wake(a, c, u32::MAX),
            FUTEX_WAKE_BITSET => sched::futex_wake(a, c, f as u32),
            _ => raw::die(b"detsim: unsupported futex operation\n"),
        };
        return if r < 0 { set_errno(-r) } else { r };
    }
    if n == SYS_getrandom {
        sched::random_bytes(a as *mut u8, b);
        return b as c_long;
    }
    if n == SYS_sched_yield {
        sched::yield_now();
        return 0;
    }
    let r = raw::sc6(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        set_errno(-r)
    } else {
        r
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut c_void, n: size_t, _f: c_uint) -> ssize_t {
    sched::random_bytes(p as *mut u8, n);
    n as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(p: *mut c_void, n: size_t) -> c_int {
    sched::random_bytes(p as *mut u8, n);
    0
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    sched::yield_now();
    0
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: clockid_t, ts: *mut timespec) -> c_int {
    let (mono, ws, wn) = sched::clock_read();
    if clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE {
        (*ts).tv_sec = ws;
        (*ts).tv_nsec = wn;
    } else {
        (*ts).tv_sec = (mono / 1_000_000_000) as i64;
        (*ts).tv_nsec = (mono % 1_000_000_000) as i64;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut timeval, _tz: *mut c_void) -> c_int {
    let (_, ws, wn) = sched::clock_read();
    (*tv).tv_sec = ws;
    (*tv).tv_usec = wn / 1000;
    0
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut time_t) -> time_t {
    let (_, ws, _) = sched::clock_read();
    if !t.is_null() {
        *t = ws;
    }
    ws
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(r: *const timespec, _rem: *mut timespec) -> c_int {
    sched::sleep_ns((*r).tv_sec as u64 * 1_000_000_000 + (*r).tv_nsec as u64);
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: clockid_t, flags: c_int, r: *const timespec, _rem: *mut timespec) -> c_int {
    let mut ns = (*r).tv_sec as u64 * 1_000_000_000 + (*r).tv_nsec as u64;
    if flags & TIMER_ABSTIME != 0 {
        if clk == CLOCK_REALTIME {
            return EINVAL;
        }
        ns = ns.saturating_sub(sched::now_ns());
    }
    sched::sleep_ns(ns);
    0
}
#[no_mangle]
pub unsafe extern "C" fn usleep(us: c_uint) -> c_int {
    sched::sleep_ns(us as u64 * 1000);
    0
}

#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(_pid: pid_t, sz: size_t, set: *mut cpu_set_t) -> c_int {
    std::ptr::write_bytes(set as *mut u8, 0, sz);
    for i in 0..sched::ncpu() {
        *(set as *mut u8).add(i / 8) |= 1 << (i % 8);
    }
    0
}
/// Host-specific CPU quota files are hidden from the code under test.
unsafe fn hidden(p: *const c_char) -> bool {
    let s = std::ffi::CStr::from_ptr(p).to_bytes();
    s.starts_with(b"/proc/self/cgroup") || s.starts_with(b"/proc/self/mountinfo") || s.starts_with(b"/sys/fs/cgroup")
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, fl: c_int, mode: mode_t) -> c_int {
    if hidden(p) {
        return set_errno(ENOENT as i64) as c_int;
    }
    let r = raw::sc6(SYS_openat, AT_FDCWD as usize, p as usize, fl as usize, mode as usize, 0, 0);
    if r < 0 {
        return set_errno(-r) as c_int;
    }
    r as c_int
}

static mut REAL_CREATE: usize = 0;
static mut REAL_JOIN: usize = 0;

unsafe fn real(sym: &[u8], slot: *mut usize) -> usize {
    if *slot == 0 {
        *slot = dlsym(RTLD_NEXT, sym.as_ptr() as *const c_char) as usize;
        if *slot == 0 {
            raw::die(b"detsim: symbol not found\n");
        }
    }
    *slot
}
pub fn real_create() -> sched::CreateFn {
    unsafe { std::mem::transmute(real(b"pthread_create\0", std::ptr::addr_of_mut!(REAL_CREATE))) }
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    out: *mut pthread_t,
    attr: *const pthread_attr_t,
    start: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    let rc = real_create();
    if !sched::active() {
        return rc(out, attr, start, arg);
    }
    sched::spawn(rc, out, start as usize, arg as usize)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: pthread_t, ret: *mut *mut c_void) -> c_int {
    sched::join(t);
    let f: unsafe extern "C" fn(pthread_t, *mut *mut c_void) -> c_int =
        std::mem::transmute(real(b"pthread_join\0", std::ptr::addr_of_mut!(REAL_JOIN)));
    f(t, ret)
}

/// Force the linker to keep this object.
pub fn link() {}

/// Simulated thread stacks have unmapped space below them; std insists on
/// seeing a guard page.
#[no_mangle]
pub unsafe extern "C" fn pthread_attr_getguardsize(_a: *const pthread_attr_t, out: *mut size_t) -> c_int {
    *out = 4096;
    0
}
