//! The deterministic scheduler. Real OS threads, exactly one of which runs at
//! any time; every hand-over is decided here from the seed.
use crate::raw;
use crate::rng::Rng;
use std::arch::global_asm;
use std::sync::atomic::{AtomicU32, Ordering};

pub const MAXT: usize = 640;
const STACK_BASE: usize = 0x3000_0000_0000;
const STACK_SLOT: usize = 64 << 20;
const STACK_SIZE: usize = 16 << 20;
const TRACE_BASE: usize = 0x4000_0000_0000;
const TRACE_MAX: usize = 1 << 19;
const FOREVER: u64 = u64::MAX / 4;

/// Ticks left until the scheduler is entered. One tick = one yield point
/// (basic block edge / load / store in instrumented code, allocation, futex
/// call, clock read, metric update, harness point).
#[no_mangle]
pub static mut DETSIM_COUNTDOWN: u64 = FOREVER;

// Fast paths. The callbacks are plain C functions for the instrumented code,
// so caller-saved registers may be clobbered.
global_asm!(
    r#"
    .text
    .globl __sanitizer_cov_trace_pc_guard
    .type __sanitizer_cov_trace_pc_guard,@function
__sanitizer_cov_trace_pc_guard:
    dec qword ptr [rip + DETSIM_COUNTDOWN]
    jz 1f
    ret
1:  mov rdi, [rsp]
    jmp detsim_expired
    .size __sanitizer_cov_trace_pc_guard, .-__sanitizer_cov_trace_pc_guard

    .globl __sanitizer_cov_trace_pc_guard_init
    .type __sanitizer_cov_trace_pc_guard_init,@function
__sanitizer_cov_trace_pc_guard_init:
    ret
    .size __sanitizer_cov_trace_pc_guard_init, .-__sanitizer_cov_trace_pc_guard_init
"#
);

macro_rules! access {
    ($($l:ident $s:ident),*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $l(a: usize) { access(a, false) }
        #[no_mangle]
        pub unsafe extern "C" fn $s(a: usize) { access(a, true) }
    )*}
}
access!(
    __sanitizer_cov_load1 __sanitizer_cov_store1,
    __sanitizer_cov_load2 __sanitizer_cov_store2,
    __sanitizer_cov_load4 __sanitizer_cov_store4,
    __sanitizer_cov_load8 __sanitizer_cov_store8,
    __sanitizer_cov_load16 __sanitizer_cov_store16
);

#[derive(Clone, Copy)]
struct Acc {
    a: usize,
    t: u16,
    w: bool,
}
const NACC: usize = 8192;
static mut ACC: [Acc; NACC] = [Acc { a: 0, t: 0, w: false }; NACC];

#[inline]
unsafe fn access(a: usize, w: bool) {
    DETSIM_COUNTDOWN -= 1;
    if a >= STACK_BASE {
        if DETSIM_COUNTDOWN == 0 {
            detsim_expired(a);
        }
        return;
    }
    if CONFLICT {
        let e = &mut (*std::ptr::addr_of_mut!(ACC))[(a >> 3).wrapping_mul(0x9e37_79b9) >> 7 & (NACC - 1)];
        let s = sim();
        if e.a == a >> 3 {
            if e.t != s.cur as u16 && (w || e.w) {
                s.n_conflict += 1;
                e.t = s.cur as u16;
                e.w = w;
                if s.conflict_den > 0 && s.replay.is_null() && s.rng_s.below(s.conflict_den) == 0 {
                    // enter the scheduler now, as an early expiry
                    s.force = true;
                    let left = DETSIM_COUNTDOWN;
                    let st = s.step_at + (s.cd_init - left);
                    s.step_at = st;
                    s.cd_init = 0;
                    DETSIM_COUNTDOWN = 0;
                    detsim_expired(a);
                    return;
                }
            }
            e.w |= w;
        } else {
            *e = Acc { a: a >> 3, t: s.cur as u16, w };
        }
    }
    if DETSIM_COUNTDOWN == 0 {
        detsim_expired(a);
    }
}

static mut CONFLICT: bool = false;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Status {
    Free,
    Runnable,
    Futex,
    Sleep,
    Join,
    Custom,
    Exited,
}

struct Thr {
    park: AtomicU32,
    status: Status,
    addr: usize,
    bitset: u32,
    deadline: u64,
    woken: bool,
    prio: u64,
    stall_until: u64,
    pthread: libc::pthread_t,
    tag: u16,
    start: usize,
    arg: usize,
    /// steps this thread was the running one
    ran: u64,
    /// simulated ns this thread spent blocked on a lock or condition variable
    /// longest single wait, measured in steps its waker executed meanwhile; and the waker
    hold: (u64, u16),
    wait_mark: [u64; MAXT],
    label: u32,
}

const THR0: Thr = Thr {
    park: AtomicU32::new(0),
    status: Status::Free,
    addr: 0,
    bitset: 0,
    deadline: u64::MAX,
    woken: false,
    prio: 0,
    stall_until: 0,
    pthread: 0,
    tag: 0,
    start: 0,
    arg: 0,
    ran: 0,
    hold: (0, 0),
    wait_mark: [0; MAXT],
    label: 0,
};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Policy {
    /// preempt after a random gap (mean `a` ticks), next thread uniform
    Gap(u64),
    /// probabilistic concurrency testing: `a` priority change points spread over `b` steps
    Pct(u64, u64),
    /// never preempt between blocking points
    Coop,
}

#[derive(Clone, Debug)]
pub struct Config {
    pub seed: u64,
    pub policy: Policy,
    /// preempt with probability 1/den when a memory access conflicts with another thread's
    pub conflict_den: u64,
    pub max_steps: u64,
    /// spurious futex wake-ups: probability 1/den (0 = off)
    pub spurious_den: u64,
    /// (step, ticks): whichever thread runs at `step` is stalled for `ticks`
    pub stalls: Vec<(u64, u64)>,
    /// (step, delta seconds) applied to the wall clock
    pub clock_jumps: Vec<(u64, i64)>,
    pub epoch: i64,
    pub ns_per_tick: u64,
    pub ncpu: usize,
    /// explicit schedule: (step, thread)
    pub replay: Option<Vec<(u64, u16)>>,
}

impl Default for Config {
    fn default() -> Self {
        Config {
            seed: 0,
            policy: Policy::Coop,
            conflict_den: 0,
            max_steps: 50_000_000,
            spurious_den: 0,
            stalls: vec![],
            clock_jumps: vec![],
            epoch: 1_750_000_000,
            ns_per_tick: 20,
            ncpu: 4,
            replay: None,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(u32)]
pub enum Outcome {
    Running = 0,
    Done = 1,
    Deadlock = 2,
    StepLimit = 3,
    Aborted = 4,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(C)]
pub struct Sw {
    pub step: u64,
    pub site: u64,
    pub from: u16,
    pub to: u16,
    pub why: u16,
    pub pad: u16,
}
pub const WHY_PREEMPT: u16 = 1;
pub const WHY_BLOCK: u16 = 2;
pub const WHY_EXIT: u16 = 3;
pub const WHY_YIELD: u16 = 4;
pub const WHY_WAKE: u16 = 5;
pub const WHY_CONFLICT: u16 = 6;

#[derive(Clone, Copy, Debug, Default)]
#[repr(C)]
pub struct Stats {
    pub steps: u64,
    pub switches: u64,
    pub preempts: u64,
    pub threads: u64,
    pub futex_waits: u64,
    pub futex_wakes: u64,
    pub spurious: u64,
    pub stalls: u64,
    pub clock_jumps: u64,
    pub clock_reads: u64,
    pub conflicts: u64,
    pub time_ns: u64,
    pub idle_jumps: u64,
    pub trace_hash: u64,
    pub inter_hash: u64,
    pub trace_len: u64,
}

struct Sim {
    active: bool,
    cur: usize,
    n: usize,
    thr: [Thr; MAXT],
    step_at: u64,
    cd_init: u64,
    force: bool,
    next_preempt: u64,
    now_ns: u64,
    now_step: u64,
    rt_off: i64,
    epoch: i64,
    ns_per_tick: u64,
    rng_s: Rng,
    rng_f: Rng,
    rng_h: Rng,
    policy: Policy,
    pct_low: u64,
    pct: [u64; 32],
    npct: usize,
    ipct: usize,
    conflict_den: u64,
    max_steps: u64,
    spurious_den: u64,
    stalls: *const (u64, u64),
    nstalls: usize,
    istall: usize,
    jumps: *const (u64, i64),
    njumps: usize,
    ijump: usize,
    replay: *const (u64, u16),
    nreplay: usize,
    ireplay: usize,
    done: AtomicU32,
    outcome: Outcome,
    last_switch_step: u64,
    n_conflict: u64,
    ncpu: usize,
    stats: Stats,
    key: libc::pthread_key_t,
    seq: u64,
    abort_code: u64,
}

static mut SIM: Sim = Sim {
    active: false,
    cur: 0,
    n: 0,
    thr: [THR0; MAXT],
    step_at: 0,
    cd_init: FOREVER,
    force: false,
    next_preempt: u64::MAX,
    now_ns: 0,
    now_step: 0,
    rt_off: 0,
    epoch: 1_750_000_000,
    ns_per_tick: 20,
    rng_s: Rng::zero(),
    rng_f: Rng::zero(),
    rng_h: Rng::zero(),
    policy: Policy::Coop,
    pct_low: 0,
    pct: [0; 32],
    npct: 0,
    ipct: 0,
    conflict_den: 0,
    max_steps: u64::MAX,
    spurious_den: 0,
    stalls: std::ptr::null(),
    nstalls: 0,
    istall: 0,
    jumps: std::ptr::null(),
    njumps: 0,
    ijump: 0,
    replay: std::ptr::null(),
    nreplay: 0,
    ireplay: 0,
    done: AtomicU32::new(0),
    outcome: Outcome::Running,
    last_switch_step: 0,
    n_conflict: 0,
    ncpu: 4,
    stats: Stats {
        steps: 0,
        switches: 0,
        preempts: 0,
        threads: 0,
        futex_waits: 0,
        futex_wakes: 0,
        spurious: 0,
        stalls: 0,
        clock_jumps: 0,
        clock_reads: 0,
        conflicts: 0,
        time_ns: 0,
        idle_jumps: 0,
        trace_hash: 0,
        inter_hash: 0,
        trace_len: 0,
    },
    key: 0,
    seq: 0,
    abort_code: 0,
};

#[inline]
fn sim() -> &'static mut Sim {
    // The compiler takes allocator calls for free of side effects on other
    // memory; ours enter the scheduler.
    std::sync::atomic::compiler_fence(Ordering::SeqCst);
    unsafe { &mut *std::hint::black_box(std::ptr::addr_of_mut!(SIM)) }
}

pub fn active() -> bool {
    sim().active
}
pub fn cur() -> usize {
    sim().cur
}
#[inline(never)]
pub fn step() -> u64 {
    let s = sim();
    unsafe { s.step_at + (s.cd_init - std::ptr::addr_of!(DETSIM_COUNTDOWN).read_volatile()) }
}
/// Globally unique, monotonically increasing event number.
#[inline(never)]
pub fn seq() -> u64 {
    let s = sim();
    s.seq += 1;
    s.seq
}
pub fn ncpu() -> usize {
    sim().ncpu
}
#[inline(never)]
/// Longest wait of thread `t` since the last call, as steps executed by the
/// thread that ended it (the lock's holder), and that thread.
pub fn take_hold(t: usize) -> (u64, u16) {
    std::mem::take(&mut sim().thr[t].hold)
}
#[inline(never)]
pub fn ran(t: usize) -> u64 {
    let s = sim();
    if t == s.cur {
        s.thr[t].ran + (step() - s.last_switch_step)
    } else {
        s.thr[t].ran
    }
}

fn fold(h: u64, v: u64) -> u64 {
    crate::rng::mix(h ^ v.wrapping_mul(0x2545f4914f6cdd1d))
}

/// Fold an observable of the run into the trace hash (determinism proof).
pub fn trace_note(v: u64) {
    let s = sim();
    s.stats.trace_hash = fold(s.stats.trace_hash, v);
}

fn arm() {
    let s = sim();
    let now = s.step_at;
    let mut nx = s.max_steps;
    if s.replay.is_null() {
        nx = nx.min(s.next_preempt);
        if s.ipct < s.npct {
            nx = nx.min(s.pct[s.ipct]);
        }
    } else if s.ireplay < s.nreplay {
        nx = nx.min(unsafe { (*s.replay.add(s.ireplay)).0 });
    }
    if s.istall < s.nstalls {
        nx = nx.min(unsafe { (*s.stalls.add(s.istall)).0 });
    }
    if s.ijump < s.njumps {
        nx = nx.min(unsafe { (*s.jumps.add(s.ijump)).0 });
    }
    // starvation guard
    nx = nx.min(s.last_switch_step.max(now) + 400_000);
    let d = if nx > now { nx - now } else { 1 };
    s.cd_init = d;
    unsafe { DETSIM_COUNTDOWN = d };
}

fn arm_keep() {
    // re-arm without drawing a new gap
    arm();
}

/// Stop the countdown and return the current step (scheduler entered).
fn enter() -> u64 {
    let s = sim();
    unsafe {
        s.step_at += s.cd_init - DETSIM_COUNTDOWN;
        s.cd_init = FOREVER;
        DETSIM_COUNTDOWN = FOREVER;
    }
    let adv = (s.step_at - s.now_step) * s.ns_per_tick;
    s.now_ns += adv;
    s.now_step = s.step_at;
    s.step_at
}

/// A decision point of its own: counts as one step and never expires first,
/// so every scheduling decision has a unique step number.
fn enter_tick() -> u64 {
    sim().step_at += 1;
    enter()
}

fn set_gap() {
    let s = sim();
    if let Policy::Gap(m) = s.policy {
        // roughly geometric: sum of two uniforms
        let g = 1 + s.rng_s.below(m) + s.rng_s.below(m);
        s.next_preempt = s.step_at + g;
    } else {
        s.next_preempt = u64::MAX;
    }
}

fn fire_timers() {
    let s = sim();
    for t in 0..s.n {
        let th = &mut s.thr[t];
        if matches!(th.status, Status::Futex | Status::Sleep | Status::Custom) && th.deadline <= s.now_ns {
            th.status = Status::Runnable;
            th.woken = false;
        }
    }
}

/// Choose who runs next. `me_ok`: may the current thread continue?
fn choose(me_ok: bool, avoid_me: bool) -> Option<usize> {
    let s = sim();
    fire_timers();
    loop {
        let mut cand = [0u16; MAXT];
        let mut nc = 0;
        let mut stalled = 0;
        for t in 0..s.n {
            if s.thr[t].status != Status::Runnable || (t == s.cur && !me_ok) {
                continue;
            }
            if s.thr[t].stall_until > s.step_at {
                stalled += 1;
                continue;
            }
            cand[nc] = t as u16;
            nc += 1;
        }
        if nc == 0 && stalled > 0 {
            // everyone else waits: let simulated time pass until the first stall ends
            let mut best = u64::MAX;
            let mut bt = 0;
            for t in 0..s.n {
                if s.thr[t].status == Status::Runnable && s.thr[t].stall_until < best && (t != s.cur || me_ok) {
                    best = s.thr[t].stall_until;
                    bt = t;
                }
            }
            // timers may expire first
            let wait_ns = (best - s.step_at) * s.ns_per_tick;
            let mut dl = u64::MAX;
            for t in 0..s.n {
                if matches!(s.thr[t].status, Status::Futex | Status::Sleep | Status::Custom) {
                    dl = dl.min(s.thr[t].deadline);
                }
            }
            s.stats.idle_jumps += 1;
            if dl <= s.now_ns + wait_ns {
                s.now_ns = s.now_ns.max(dl);
                fire_timers();
                continue;
            }
            s.now_ns += wait_ns;
            for t in 0..s.n {
                if s.thr[t].stall_until <= best {
                    s.thr[t].stall_until = 0;
                }
            }
            return Some(bt);
        }
        if nc == 0 {
            // idle: jump the clock to the next deadline
            let mut dl = u64::MAX;
            for t in 0..s.n {
                if matches!(s.thr[t].status, Status::Futex | Status::Sleep | Status::Custom) {
                    dl = dl.min(s.thr[t].deadline);
                }
            }
            if dl == u64::MAX {
                return None;
            }
            s.stats.idle_jumps += 1;
            s.now_ns = s.now_ns.max(dl);
            fire_timers();
            continue;
        }
        let mut c = &cand[..nc];
        let mut tmp = [0u16; MAXT];
        if avoid_me && nc > 1 {
            let mut k = 0;
            for &x in c {
                if x as usize != s.cur {
                    tmp[k] = x;
                    k += 1;
                }
            }
            c = &tmp[..k];
        }
        if !s.replay.is_null() {
            // skip stale entries
            while s.ireplay < s.nreplay && unsafe { (*s.replay.add(s.ireplay)).0 } < s.step_at {
                s.ireplay += 1;
            }
            if s.ireplay < s.nreplay {
                let (st, t) = unsafe { *s.replay.add(s.ireplay) };
                if st == s.step_at {
                    s.ireplay += 1;
                    if c.contains(&t) || cand[..nc].contains(&t) {
                        return Some(t as usize);
                    }
                }
            }
            if !avoid_me && me_ok && c.contains(&(s.cur as u16)) {
                return Some(s.cur);
            }
            return Some(c[0] as usize);
        }
        return Some(match s.policy {
            Policy::Gap(_) => c[s.rng_s.below(c.len() as u64) as usize] as usize,
            Policy::Coop => {
                if me_ok && !avoid_me && c.contains(&(s.cur as u16)) {
                    s.cur
                } else {
                    c[s.rng_s.below(c.len() as u64) as usize] as usize
                }
            }
            Policy::Pct(..) => {
                let mut b = c[0] as usize;
                for &x in c {
                    if s.thr[x as usize].prio > s.thr[b].prio {
                        b = x as usize;
                    }
                }
                b
            }
        });
    }
}

fn record(from: usize, to: usize, why: u16, site: usize) {
    let s = sim();
    s.stats.switches += 1;
    s.stats.trace_hash = fold(s.stats.trace_hash, s.step_at ^ ((from as u64) << 48) ^ ((to as u64) << 56) ^ why as u64);
    s.stats.inter_hash = fold(s.stats.inter_hash, (site as u64) ^ ((from as u64) << 48) ^ ((to as u64) << 56));
    let i = s.stats.trace_len as usize;
    if i < TRACE_MAX {
        unsafe {
            *(TRACE_BASE as *mut Sw).add(i) = Sw {
                step: s.step_at,
                site: site as u64,
                from: from as u16,
                to: to as u16,
                why,
                pad: 0,
            };
        }
    }
    s.stats.trace_len += 1;
}

fn finish(o: Outcome) {
    let s = sim();
    if s.outcome == Outcome::Running {
        s.outcome = o;
    }
    s.active = false;
    s.stats.steps = s.step_at;
    s.stats.time_ns = s.now_ns;
    s.stats.conflicts = s.n_conflict;
    s.stats.threads = s.n as u64;
    s.done.store(1, Ordering::SeqCst);
    unsafe { raw::futex_wake(s.done.as_ptr(), 1) };
}

fn park_forever() -> ! {
    let w = AtomicU32::new(0);
    loop {
        unsafe { raw::futex_wait(w.as_ptr(), 0) };
    }
}

/// Hand the processor from `from` to `to` and wait for our own next turn.
fn hand_over(from: usize, to: usize, wait: bool) {
    let s = sim();
    s.thr[from].ran += s.step_at - s.last_switch_step;
    s.last_switch_step = s.step_at;
    s.thr[from].tag = crate::alloc::set_tag(s.thr[to].tag);
    s.cur = to;
    set_gap();
    arm();
    let p = &s.thr[from].park;
    if wait {
        p.store(0, Ordering::SeqCst);
    }
    let q = s.thr[to].park.as_ptr();
    unsafe {
        (*(q as *const AtomicU32)).store(1, Ordering::SeqCst);
        raw::futex_wake(q, 1);
        if wait {
            while p.load(Ordering::SeqCst) == 0 {
                raw::futex_wait(p.as_ptr(), 0);
            }
        }
    }
}

fn resched(me_ok: bool, avoid_me: bool, why: u16, site: usize, wait: bool) {
    let s = sim();
    let me = s.cur;
    match choose(me_ok, avoid_me) {
        None => {
            finish(Outcome::Deadlock);
            if wait {
                park_forever();
            }
        }
        Some(t) if t == me && me_ok => {
            set_gap();
            arm();
        }
        Some(t) => {
            record(me, t, why, site);
            if why == WHY_PREEMPT || why == WHY_CONFLICT {
                s.stats.preempts += 1;
            }
            hand_over(me, t, wait);
        }
    }
}

#[no_mangle]
unsafe extern "C" fn detsim_expired(site: usize) {
    let s = sim();
    if !s.active {
        DETSIM_COUNTDOWN = FOREVER;
        s.cd_init = FOREVER;
        return;
    }
    enter();
    let why = if s.force { WHY_CONFLICT } else { WHY_PREEMPT };
    let mut want = s.force;
    s.force = false;
    if s.step_at >= s.max_steps {
        finish(Outcome::StepLimit);
        park_forever();
    }
    while s.istall < s.nstalls && (*s.stalls.add(s.istall)).0 <= s.step_at {
        let d = (*s.stalls.add(s.istall)).1;
        s.istall += 1;
        s.thr[s.cur].stall_until = s.step_at + d;
        s.stats.stalls += 1;
        trace_note(0x57a11 ^ d);
        want = true;
    }
    while s.ijump < s.njumps && (*s.jumps.add(s.ijump)).0 <= s.step_at {
        s.rt_off += (*s.jumps.add(s.ijump)).1;
        s.ijump += 1;
        s.stats.clock_jumps += 1;
    }
    if s.replay.is_null() {
        if s.step_at >= s.next_preempt {
            want = true;
        }
        while s.ipct < s.npct && s.pct[s.ipct] <= s.step_at {
            s.ipct += 1;
            s.pct_low -= 1;
            s.thr[s.cur].prio = s.pct_low;
            want = true;
        }
    } else if s.ireplay < s.nreplay && (*s.replay.add(s.ireplay)).0 <= s.step_at {
        want = true;
    }
    let mut avoid = false;
    if s.step_at - s.last_switch_step >= 400_000 {
        // starvation guard: bounded monopolisation
        want = true;
        avoid = true;
        if let Policy::Pct(..) = s.policy {
            s.pct_low -= 1;
            s.thr[s.cur].prio = s.pct_low;
        }
        s.thr[s.cur].ran += s.step_at - s.last_switch_step;
        s.last_switch_step = s.step_at;
    }
    if want {
        resched(true, avoid, why, site, true);
    } else {
        arm();
    }
}

/// A yield point in uninstrumented code.
#[inline(never)]
pub fn tick() {
    unsafe {
        DETSIM_COUNTDOWN -= 1;
        if DETSIM_COUNTDOWN == 0 {
            detsim_expired(1);
        }
    }
}
#[inline(never)]
pub fn tick_alloc() {
    unsafe {
        DETSIM_COUNTDOWN -= 1;
        if DETSIM_COUNTDOWN == 0 {
            detsim_expired(2);
        }
    }
}

pub fn yield_now() {
    let s = sim();
    if !s.active {
        return;
    }
    enter_tick();
    if let Policy::Pct(..) = s.policy {
        s.pct_low -= 1;
        s.thr[s.cur].prio = s.pct_low;
    }
    if s.step_at >= s.max_steps {
        finish(Outcome::StepLimit);
        park_forever();
    }
    resched(true, true, WHY_YIELD, 3, true);
}

fn block(st: Status, addr: usize, bitset: u32, deadline: u64) -> bool {
    let s = sim();
    enter_tick();
    if s.step_at >= s.max_steps {
        finish(Outcome::StepLimit);
        park_forever();
    }
    let me = s.cur;
    let t = &mut s.thr[me];
    t.status = st;
    t.addr = addr;
    t.bitset = bitset;
    t.deadline = deadline;
    t.woken = false;
    // a thread blocked here may be the only one and its timer the next event
    resched_blocked();
    let s = sim();
    s.thr[me].woken
}

fn resched_blocked() {
    let s = sim();
    let me = s.cur;
    match choose_blocked() {
        None => {
            finish(Outcome::Deadlock);
            park_forever();
        }
        Some(t) if t == me => {
            set_gap();
            arm();
        }
        Some(t) => {
            record(me, t, WHY_BLOCK, s.thr[me].addr);
            hand_over(me, t, true);
        }
    }
}
fn choose_blocked() -> Option<usize> {
    // `me` is not Runnable, so choose() only picks it if its timer fires
    choose(true, false)
}

#[inline(never)]
pub fn now_ns() -> u64 {
    let s = sim();
    if s.active {
        let st = step();
        s.now_ns + (st - s.now_step) * s.ns_per_tick
    } else {
        s.now_ns
    }
}
#[inline(never)]
pub fn wall_s() -> i64 {
    let s = sim();
    s.epoch + s.rt_off + (now_ns() / 1_000_000_000) as i64
}
pub fn wall_jump(delta: i64) {
    let s = sim();
    s.rt_off += delta;
    s.stats.clock_jumps += 1;
}
pub fn set_epoch(e: i64) {
    sim().epoch = e;
    sim().rt_off = 0;
}
pub fn advance_ns(d: u64) {
    sim().now_ns += d;
}
pub fn clock_read() -> (u64, i64, i64) {
    let s = sim();
    tick();
    s.stats.clock_reads += 1;
    if s.active {
        s.now_ns += 37;
    }
    let n = now_ns();
    (n, s.epoch + s.rt_off + (n / 1_000_000_000) as i64, (n % 1_000_000_000) as i64)
}

pub fn sleep_ns(d: u64) {
    let s = sim();
    if !s.active {
        s.now_ns += d;
        return;
    }
    let dl = now_ns().saturating_add(d);
    block(Status::Sleep, 4, 0, dl);
}

/// Block until another thread calls `custom_wake(key)` or `timeout_ns` passes.
pub fn custom_wait(key: usize, timeout_ns: Option<u64>) -> bool {
    let dl = timeout_ns.map(|t| now_ns().saturating_add(t)).unwrap_or(u64::MAX);
    block(Status::Custom, key, 0, dl)
}
pub fn custom_wake(key: usize) {
    let s = sim();
    for t in 0..s.n {
        if s.thr[t].status == Status::Custom && s.thr[t].addr == key {
            s.thr[t].status = Status::Runnable;
            s.thr[t].woken = true;
        }
    }
    after_wake();
}

fn after_wake() {
    let s = sim();
    if !s.active {
        return;
    }
    enter_tick();
    if s.step_at >= s.max_steps {
        finish(Outcome::StepLimit);
        park_forever();
    }
    let pct = matches!(s.policy, Policy::Pct(..)) && s.replay.is_null();
    let rep = !s.replay.is_null() && s.ireplay < s.nreplay && unsafe { (*s.replay.add(s.ireplay)).0 } <= s.step_at;
    if pct || rep {
        resched(true, false, WHY_WAKE, 5, true);
    } else {
        arm_keep();
    }
}

/// returns 0 or a negative errno
pub fn futex_wait(addr: usize, val: u32, bitset: u32, deadline: Option<u64>) -> i64 {
    let s = sim();
    tick();
    let cur = unsafe { (*(addr as *const AtomicU32)).load(Ordering::SeqCst) };
    if cur != val {
        return -(libc::EAGAIN as i64);
    }
    if !s.active {
        raw::die(b"detsim: futex wait outside a run\n");
    }
    s.stats.futex_waits += 1;
    if s.spurious_den > 0 && s.rng_f.below(s.spurious_den) == 0 {
        s.stats.spurious += 1;
        return 0;
    }
    let me = s.cur;
    for t in 0..s.n {
        s.thr[me].wait_mark[t] = ran(t);
    }
    let woken = block(Status::Futex, addr, bitset, deadline.unwrap_or(u64::MAX));
    if woken {
        0
    } else {
        -(libc::ETIMEDOUT as i64)
    }
}

pub fn futex_wake(addr: usize, n: usize, bitset: u32) -> i64 {
    let s = sim();
    if !s.active {
        return 0;
    }
    tick();
    s.stats.futex_wakes += 1;
    let mut left = n;
    let mut done = 0;
    while left > 0 {
        let mut c = [0u16; MAXT];
        let mut k = 0;
        for t in 0..s.n {
            let th = &s.thr[t];
            if th.status == Status::Futex && th.addr == addr && (th.bitset & bitset) != 0 {
                c[k] = t as u16;
                k += 1;
            }
        }
        if k == 0 {
            break;
        }
        let t = c[s.rng_f.below(k as u64) as usize] as usize;
        s.thr[t].status = Status::Runnable;
        s.thr[t].woken = true;
        let h = ran(s.cur) - s.thr[t].wait_mark[s.cur];
        if h > s.thr[t].hold.0 {
            s.thr[t].hold = (h, s.cur as u16);
        }
        left -= 1;
        done += 1;
    }
    // A release: whoever still waits here has not been kept waiting by one holder since before it.
    for t in 0..s.n {
        if s.thr[t].status == Status::Futex && s.thr[t].addr == addr {
            for u in 0..s.n {
                s.thr[t].wait_mark[u] = ran(u);
            }
        }
    }
    if done > 0 {
        after_wake();
    }
    done
}

pub fn random_bytes(p: *mut u8, n: usize) {
    let s = sim();
    for i in 0..n {
        unsafe { *p.add(i) = (s.rng_h.next() >> 24) as u8 };
    }
}

extern "C" fn trampoline(slot: *mut libc::c_void) -> *mut libc::c_void {
    let i = slot as usize;
    let s = sim();
    unsafe {
        while s.thr[i].park.load(Ordering::SeqCst) == 0 {
            raw::futex_wait(s.thr[i].park.as_ptr(), 0);
        }
        libc::pthread_setspecific(s.key, 1 as *const libc::c_void);
        let f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void = std::mem::transmute(s.thr[i].start);
        f(s.thr[i].arg as *mut _)
    }
}

// Runs after Rust's thread-local destructors; re-arms itself so that it is
// the last key destructor, then gives up the processor for good.
extern "C" fn exit_dtor(v: *mut libc::c_void) {
    let s = sim();
    let k = v as usize;
    if k < 3 {
        unsafe { libc::pthread_setspecific(s.key, (k + 1) as *const _) };
        return;
    }
    enter_tick();
    let me = s.cur;
    s.thr[me].status = Status::Exited;
    let pt = s.thr[me].pthread as usize;
    let mut live = 0;
    for t in 0..s.n {
        if s.thr[t].status == Status::Join && s.thr[t].addr == pt {
            s.thr[t].status = Status::Runnable;
            s.thr[t].woken = true;
        }
        if !matches!(s.thr[t].status, Status::Exited | Status::Free) {
            live += 1;
        }
    }
    if live == 0 || (me == 0) {
        // the root thread is gone: the run is over (pool threads are daemons)
        finish(Outcome::Done);
        return;
    }
    resched(false, true, WHY_EXIT, 6, false);
}

extern "C" {
    fn pthread_attr_setstack(a: *mut libc::pthread_attr_t, p: *mut libc::c_void, n: usize) -> libc::c_int;
}

pub type CreateFn = unsafe extern "C" fn(
    *mut libc::pthread_t,
    *const libc::pthread_attr_t,
    extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    *mut libc::c_void,
) -> libc::c_int;

pub unsafe fn spawn(real: CreateFn, out: *mut libc::pthread_t, start: usize, arg: usize) -> libc::c_int {
    tick(); // may run another thread that spawns too
    let s = sim();
    let i = s.n;
    if i >= MAXT {
        return libc::EAGAIN;
    }
    s.thr[i].status = Status::Exited;
    s.n += 1;
    let mut at: libc::pthread_attr_t = std::mem::zeroed();
    libc::pthread_attr_init(&mut at);
    let st = STACK_BASE + i * STACK_SLOT;
    raw::mmap_fixed(st, STACK_SIZE);
    pthread_attr_setstack(&mut at, st as *mut _, STACK_SIZE);
    s.thr[i].start = start;
    s.thr[i].arg = arg;
    s.thr[i].park.store(0, Ordering::SeqCst);
    s.thr[i].tag = 0;
    s.thr[i].prio = (1 << 40) + s.rng_s.below(1 << 30);
    let r = real(out, &at, trampoline, i as *mut _);
    libc::pthread_attr_destroy(&mut at);
    if r != 0 {
        return r;
    }
    s.thr[i].pthread = *out;
    s.thr[i].status = Status::Runnable;
    0
}

pub fn join(pt: libc::pthread_t) {
    let s = sim();
    if !s.active {
        return;
    }
    for t in 0..s.n {
        if s.thr[t].pthread == pt && s.thr[t].status != Status::Free {
            if s.thr[t].status != Status::Exited {
                block(Status::Join, pt as usize, 0, u64::MAX);
            } else {
                tick();
            }
            return;
        }
    }
}

/// End the run now, from inside (used for fatal oracle failures).
pub fn abort_run(code: u64) -> ! {
    let s = sim();
    s.abort_code = code;
    enter();
    finish(Outcome::Aborted);
    park_forever();
}

/// Label the current thread (for traces).
pub fn set_label(l: u32) {
    let s = sim();
    s.thr[s.cur].label = l;
}

/// What is every thread doing (for deadlock reports).
pub fn describe_threads(out: &mut String) {
    use std::fmt::Write;
    let s = sim();
    for t in 0..s.n {
        let th = &s.thr[t];
        let _ = write!(out, "t{}:{:?}{} ", t, th.status, if th.status == Status::Futex { "(lock)" } else { "" });
    }
}

pub fn trace() -> &'static [Sw] {
    let s = sim();
    unsafe { std::slice::from_raw_parts(TRACE_BASE as *const Sw, (s.stats.trace_len as usize).min(TRACE_MAX)) }
}
pub fn trace_complete() -> bool {
    sim().stats.trace_len as usize <= TRACE_MAX
}
pub fn stats() -> Stats {
    let s = sim();
    let mut st = s.stats;
    if s.active {
        st.steps = step();
        st.time_ns = now_ns();
    }
    st
}
pub fn thread_count() -> usize {
    sim().n
}

/// Seed the deterministic streams used outside a run (set-up code).
pub fn seed_streams(seed: u64, ncpu: usize) {
    let s = sim();
    s.rng_h = Rng::new(seed, 3);
    s.ncpu = ncpu;
}

/// Run `f` as thread 0 under the scheduler. Must be called at most once per
/// process. Returns when thread 0 (and its joined children) ended.
pub fn run(cfg: &Config, real: CreateFn, f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, arg: *mut libc::c_void) -> (Outcome, u64) {
    let s = sim();
    unsafe {
        raw::mmap_fixed(TRACE_BASE, TRACE_MAX * std::mem::size_of::<Sw>());
        libc::pthread_key_create(&mut s.key, Some(std::mem::transmute(exit_dtor as usize)));
    }
    s.rng_s = Rng::new(cfg.seed, 1);
    s.rng_f = Rng::new(cfg.seed, 2);
    s.policy = cfg.policy;
    s.conflict_den = cfg.conflict_den;
    unsafe { CONFLICT = cfg.conflict_den > 0 };
    s.max_steps = cfg.max_steps;
    s.spurious_den = cfg.spurious_den;
    s.epoch = cfg.epoch;
    s.ns_per_tick = cfg.ns_per_tick;
    s.ncpu = cfg.ncpu;
    s.stalls = cfg.stalls.as_ptr();
    s.nstalls = cfg.stalls.len();
    s.jumps = cfg.clock_jumps.as_ptr();
    s.njumps = cfg.clock_jumps.len();
    s.pct_low = 1 << 40;
    if let Policy::Pct(d, k) = cfg.policy {
        s.npct = (d as usize).min(32);
        for i in 0..s.npct {
            s.pct[i] = 1 + s.rng_s.below(k);
        }
        s.pct[..s.npct].sort_unstable();
    }
    if let Some(r) = &cfg.replay {
        s.replay = r.as_ptr();
        s.nreplay = r.len();
    }
    s.stats.trace_hash = 0x1234;
    s.outcome = Outcome::Running;
    unsafe {
        let mut pt: libc::pthread_t = 0;
        let r = spawn(real, &mut pt, f as usize, arg as usize);
        if r != 0 {
            raw::die(b"detsim: cannot create root thread\n");
        }
        s.step_at = 0;
        s.cd_init = FOREVER;
        DETSIM_COUNTDOWN = FOREVER;
        s.active = true;
        s.cur = 0;
        set_gap();
        arm();
        s.thr[0].park.store(1, Ordering::SeqCst);
        raw::futex_wake(s.thr[0].park.as_ptr(), 1);
        while s.done.load(Ordering::SeqCst) == 0 {
            raw::futex_wait(s.done.as_ptr(), 0);
        }
        DETSIM_COUNTDOWN = FOREVER;
        s.cd_init = FOREVER;
    }
    (s.outcome, s.abort_code)
}
