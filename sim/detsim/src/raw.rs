//! Raw Linux x86_64 system calls that bypass the interposed libc symbols.
use std::arch::asm;

#[inline]
pub unsafe fn sc6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
#[inline]
pub unsafe fn futex_wait(addr: *const u32, val: u32) {
    sc6(libc::SYS_futex, addr as usize, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, val as usize, 0, 0, 0);
}
#[inline]
pub unsafe fn futex_wake(addr: *const u32, n: usize) {
    sc6(libc::SYS_futex, addr as usize, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize, n, 0, 0, 0);
}
/// Maps zeroed memory at a fixed address. The kernel may refuse for want of memory while
/// other runs are being torn down; wait a little before giving up.
pub unsafe fn mmap_fixed(addr: usize, len: usize) -> *mut u8 {
    let flags = libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE;
    for i in 0..50u64 {
        let r = sc6(libc::SYS_mmap, addr, len, (libc::PROT_READ | libc::PROT_WRITE) as usize, flags as usize, usize::MAX, 0);
        if r as usize == addr {
            return addr as *mut u8;
        }
        if i == 49 {
            let e = (-r) as u64;
            let mut m = *b"detsim: fixed mmap failed, errno 000\n";
            for (k, d) in [100, 10, 1].iter().enumerate() {
                m[33 + k] = b'0' + (e / d % 10) as u8;
            }
            sc6(libc::SYS_write, 2, m.as_ptr() as usize, m.len(), 0, 0, 0);
            sc6(libc::SYS_exit_group, 98, 0, 0, 0, 0, 0);
        }
        let ts = libc::timespec { tv_sec: 0, tv_nsec: 1_000_000 * (1 + i as i64) };
        sc6(libc::SYS_nanosleep, &ts as *const _ as usize, 0, 0, 0, 0, 0);
    }
    unreachable!()
}
pub fn die(msg: &[u8]) -> ! {
    unsafe {
        sc6(libc::SYS_write, 2, msg.as_ptr() as usize, msg.len(), 0, 0, 0);
        sc6(libc::SYS_exit_group, 97, 0, 0, 0, 0, 0);
    }
    loop {}
}
/// The real monotonic clock, for the driver only (never inside a run).
pub fn real_now_ns() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe {
        sc6(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as usize, &mut ts as *mut _ as usize, 0, 0, 0, 0);
    }
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}
