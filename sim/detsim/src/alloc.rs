//! Deterministic global allocator: fixed address range, size classes, FIFO
//! quarantine, poisoning, double-free / bad-layout detection and per-tag live
//! accounting. It is only ever entered by one thread at a time: the driver is
//! single threaded, and inside a run the scheduler serialises all threads.
use crate::raw;
use std::alloc::{GlobalAlloc, Layout};

pub struct DetAlloc;

const BASE: usize = 0x2000_0000_0000;
const LEN: usize = 12 << 30;
/// A second heap for the simulated run itself, so that what the driver
/// allocated before the fork cannot influence addresses inside the run.
const BASE2: usize = 0x2800_0000_0000;
const HDR: usize = 32;
const MAGIC_LIVE: u32 = 0xA110_C8ED;
const MAGIC_FREE: u32 = 0xF4EE_D00D;
const NCLASS: usize = 160;
const QUAR: usize = 24;
pub const NTAGS: usize = 4096;

#[repr(C)]
struct Hdr {
    magic: u32,
    class: u16,
    tag: u16,
    size: u64,
    next: *mut Hdr,
    seq: u64,
}

#[derive(Clone, Copy)]
struct Fl {
    head: *mut Hdr,
    tail: *mut Hdr,
    n: usize,
}

struct St {
    init: bool,
    base: usize,
    bump: usize,
    fl: [Fl; NCLASS],
    live_blocks: u64,
    live_bytes: u64,
    seq: u64,
    tag: u16,
    tag_live: [u32; NTAGS],
    tag_bytes: [u64; 4],
    poison: bool,
    reuse: bool,
    bad: u32,
    bad_msg: &'static str,
}

static mut ST: St = St {
    init: false,
    base: BASE,
    bump: 0,
    fl: [Fl { head: std::ptr::null_mut(), tail: std::ptr::null_mut(), n: 0 }; NCLASS],
    live_blocks: 0,
    live_bytes: 0,
    seq: 0,
    tag: 0,
    tag_live: [0; NTAGS],
    tag_bytes: [0; 4],
    poison: true,
    reuse: false,
    bad: 0,
    bad_msg: "",
};

#[inline]
#[allow(static_mut_refs)]
fn st() -> &'static mut St {
    unsafe { &mut *std::ptr::addr_of_mut!(ST) }
}

// class c < 64: (c+1)*16 bytes; then geometric, 4 steps per doubling.
fn class_of(sz: usize) -> (usize, usize) {
    if sz <= 1024 {
        let c = (sz.max(1) + 15) / 16 - 1;
        return (c, (c + 1) * 16);
    }
    let mut c = 64;
    let mut s = 1024usize;
    loop {
        for k in 1..=4 {
            let t = s + s / 4 * k;
            if sz <= t {
                return (c, t);
            }
            c += 1;
        }
        s *= 2;
        if c + 4 >= NCLASS {
            raw::die(b"detsim: allocation too large\n");
        }
    }
}

unsafe impl GlobalAlloc for DetAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        crate::sched::tick_alloc();
        let s = st();
        if !s.init {
            raw::mmap_fixed(s.base, LEN);
            s.bump = s.base + 4096;
            s.init = true;
        }
        let al = l.align();
        let extra = if al > 16 { al } else { 0 };
        let (c, csz) = class_of(l.size() + extra);
        let fl = &mut s.fl[c];
        let base: *mut Hdr;
        if fl.n > (if s.reuse { 0 } else { QUAR }) {
            base = fl.head;
            fl.head = (*base).next;
            fl.n -= 1;
            if (*base).magic != MAGIC_FREE {
                s.bad += 1;
                s.bad_msg = "heap header of a freed block was overwritten";
            }
        } else {
            base = s.bump as *mut Hdr;
            s.bump += csz + HDR;
            if s.bump > s.base + LEN {
                raw::die(b"detsim: heap exhausted\n");
            }
        }
        s.seq += 1;
        (*base).magic = MAGIC_LIVE;
        (*base).class = c as u16;
        (*base).size = l.size() as u64;
        (*base).seq = s.seq;
        (*base).tag = s.tag;
        s.tag_live[s.tag as usize % NTAGS] += 1;
        s.tag_bytes[s.tag as usize & 3] += l.size() as u64;
        s.live_blocks += 1;
        s.live_bytes += l.size() as u64;
        let mut p = base as usize + HDR;
        if al > 16 {
            p = (p + al - 1) & !(al - 1);
            // store back pointer for over-aligned blocks just before payload
            if p != base as usize + HDR {
                *((p - 8) as *mut usize) = base as usize;
                *((p - 16) as *mut usize) = 0xBACC_BACC;
            }
        }
        p as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        crate::sched::tick_alloc();
        let s = st();
        let pa = p as usize;
        if pa < s.base || pa >= s.base + LEN {
            if s.base == BASE2 && pa >= BASE && pa < BASE + LEN {
                // allocated before the run's own heap was opened: abandon it
                return;
            }
            s.bad += 1;
            s.bad_msg = "free of a pointer that is not from this heap";
            return;
        }
        let mut base = (pa - HDR) as *mut Hdr;
        if l.align() > 16 && *((pa - 16) as *const usize) == 0xBACC_BACC {
            base = *((pa - 8) as *const usize) as *mut Hdr;
        }
        if (*base).magic == MAGIC_FREE {
            s.bad += 1;
            s.bad_msg = "double free";
            return;
        }
        if (*base).magic != MAGIC_LIVE {
            s.bad += 1;
            s.bad_msg = "free of an invalid pointer";
            return;
        }
        if (*base).size != l.size() as u64 {
            s.bad += 1;
            s.bad_msg = "free with a layout that differs from the allocation";
        }
        (*base).magic = MAGIC_FREE;
        s.tag_live[(*base).tag as usize % NTAGS] -= 1;
        s.tag_bytes[(*base).tag as usize & 3] -= (*base).size;
        s.live_blocks -= 1;
        s.live_bytes -= (*base).size;
        if s.poison {
            std::ptr::write_bytes(p, 0xD5, (l.size()).min(256));
        }
        (*base).next = std::ptr::null_mut();
        let fl = &mut s.fl[(*base).class as usize];
        if fl.n == 0 {
            fl.head = base;
            fl.tail = base;
        } else if s.reuse {
            (*base).next = fl.head;
            fl.head = base;
        } else {
            (*fl.tail).next = base;
            fl.tail = base;
        }
        fl.n += 1;
    }
}

/// Open the run's own heap. From here on every allocation address depends on
/// the run alone. Called once, in a freshly forked child, before the run.
pub fn open_run_heap() {
    let s = st();
    s.base = BASE2;
    unsafe { raw::mmap_fixed(BASE2, LEN) };
    s.init = true;
    s.bump = BASE2 + 4096;
    for f in s.fl.iter_mut() {
        *f = Fl { head: std::ptr::null_mut(), tail: std::ptr::null_mut(), n: 0 };
    }
    s.live_blocks = 0;
    s.live_bytes = 0;
    s.seq = 0;
    s.tag_live = [0; NTAGS];
    s.tag_bytes = [0; 4];
    s.bad = 0;
}

/// Hand the most recently freed block of a size out again first (and with no
/// quarantine), so that new objects land at the addresses of dead ones.
pub fn set_reuse(on: bool) {
    st().reuse = on;
}

pub fn live_blocks() -> u64 {
    st().live_blocks
}
pub fn live_bytes() -> u64 {
    st().live_bytes
}
pub fn alloc_seq() -> u64 {
    st().seq
}
/// Tag every allocation made from now on (by whichever thread runs).
#[inline(never)]
pub fn set_tag(t: u16) -> u16 {
    use std::sync::atomic::{compiler_fence, Ordering::SeqCst};
    compiler_fence(SeqCst);
    let p = std::hint::black_box(&mut st().tag as *mut u16);
    let old = unsafe { p.replace(t) };
    std::hint::black_box(p);
    compiler_fence(SeqCst);
    old
}
pub fn tag_live(t: u16) -> u32 {
    st().tag_live[t as usize % NTAGS]
}
pub fn tag_bytes(t: u16) -> u64 {
    st().tag_bytes[t as usize & 3]
}
/// Heap misuse (double free, bad layout, foreign pointer) seen so far.
pub fn misuse() -> Option<&'static str> {
    if st().bad > 0 {
        Some(st().bad_msg)
    } else {
        None
    }
}
/// Is [p, p+len) inside one live heap block?
pub fn is_live_range(p: usize, len: usize) -> bool {
    // Only used for exact block starts.
    let b = st().base;
    if p < b + HDR || p >= b + LEN {
        return false;
    }
    unsafe {
        let h = (p - HDR) as *const Hdr;
        (*h).magic == MAGIC_LIVE && (*h).size as usize >= len
    }
}
