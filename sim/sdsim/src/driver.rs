//! Search over seeds, confirmation, minimisation, replay and evidence.
//! Every simulated run happens in a process forked for it alone; the driver
//! itself never executes the code under test.
use crate::check::{self, Alone, Verdict, Viol};
use crate::exec::{self, History};
use crate::gen;
use crate::plan::*;
use detsim::rng::mix;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

const BUF: usize = 96 << 20;

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Summary {
    pub outcome: String,
    pub steps: u64,
    pub switches: u64,
    pub preempts: u64,
    pub conflicts: u64,
    pub time_ns: u64,
    pub spurious: u64,
    pub stalls: u64,
    pub trace_hash: u64,
    pub inter_hash: u64,
    pub nthreads: u64,
    pub ops: u64,
    pub counts: Vec<(String, u64)>,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct RunOut {
    pub verdict: Verdict,
    pub sum: Summary,
    /// (step, from, to, why) when asked for
    pub trace: Vec<(u64, u16, u16, u16)>,
    pub trace_complete: bool,
    /// digest of the whole recorded history
    pub hist_hash: u64,
}

struct Shared {
    base: *mut u8,
}
fn map_shared(n: usize) -> *mut u8 {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            n,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p as *mut u8
    }
}
pub enum Child {
    Data(Vec<u8>),
    Crash(i32),
    Hang,
}
impl Shared {
    fn new() -> Self {
        Shared { base: map_shared(BUF) }
    }
    /// Run `f` in a forked process and fetch what it returns.
    fn fork(&self, secs: u64, f: impl Fn() -> Vec<u8>) -> Child {
        for _ in 0..3 {
            match self.fork_once(secs, &f) {
                // the machine, not the run: no memory for the simulated heap, or killed from outside
                Child::Crash(1098) | Child::Crash(libc::SIGKILL) => {
                    std::thread::sleep(std::time::Duration::from_millis(300));
                }
                c => return c,
            }
        }
        self.fork_once(secs, &f)
    }
    fn fork_once(&self, secs: u64, f: &impl Fn() -> Vec<u8>) -> Child {
        unsafe {
            *(self.base as *mut u64) = u64::MAX;
            let pid = libc::fork();
            assert!(pid >= 0, "fork failed");
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let d = f();
                let n = d.len().min(BUF - 8);
                std::ptr::copy_nonoverlapping(d.as_ptr(), self.base.add(8), n);
                *(self.base as *mut u64) = n as u64;
                libc::_exit(0);
            }
            let t0 = detsim::raw::real_now_ns();
            let mut st = 0;
            let mut nap = 20_000u64;
            loop {
                let r = libc::waitpid(pid, &mut st, libc::WNOHANG);
                if r == pid {
                    break;
                }
                if detsim::raw::real_now_ns() - t0 > secs * 1_000_000_000 {
                    libc::kill(pid, libc::SIGKILL);
                    libc::waitpid(pid, &mut st, 0);
                    return Child::Hang;
                }
                let ts = libc::timespec { tv_sec: 0, tv_nsec: nap as i64 };
                libc::syscall(libc::SYS_nanosleep, &ts as *const libc::timespec, 0usize);
                nap = (nap + nap / 4).min(2_000_000);
            }
            let n = *(self.base as *mut u64);
            if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 && n != u64::MAX {
                Child::Data(std::slice::from_raw_parts(self.base.add(8), n as usize).to_vec())
            } else if libc::WIFSIGNALED(st) {
                Child::Crash(libc::WTERMSIG(st))
            } else {
                Child::Crash(1000 + libc::WEXITSTATUS(st))
            }
        }
    }
}

fn simulate(js: &str) -> (Plan, History) {
    detsim::alloc::open_run_heap();
    let p: Plan = serde_json::from_str(js).expect("plan");
    detsim::alloc::set_reuse(p.sched.reuse);
    let keep = p.clone();
    let h = exec::run_plan(p);
    (keep, h)
}
fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}
fn net_counts(h: &History, c: &mut BTreeMap<String, u64>) {
    for n in &h.net {
        let k = match (n.status, n.err.as_str()) {
            (0, e) => format!("net {}", e.to_lowercase()),
            (s, _) => format!("net reply {}xx", s / 100),
        };
        *c.entry(k).or_default() += 1;
    }
}

pub fn run_one(sh: &Shared_, plan: &Plan, want_trace: bool, secs: u64) -> RunOut {
    let sh = &sh.0;
    let mut alone = Alone::default();
    for s in check::needs_alone(plan) {
        let js = serde_json::to_string(&check::alone_plan(plan, s)).unwrap();
        match sh.fork(secs, || serde_json::to_vec(&simulate(&js).1).unwrap()) {
            Child::Data(d) => match serde_json::from_slice::<History>(&d) {
                Ok(h) => check::add_alone(&mut alone, s, &h),
                Err(_) => {
                    alone.built.insert(s, "unreadable".into());
                }
            },
            // a configuration that kills the process even alone: nothing to compare
            Child::Crash(_) | Child::Hang => {}
        }
    }
    let js = serde_json::to_string(plan).unwrap();
    let al = serde_json::to_string(&alone).unwrap();
    let r = sh.fork(secs, || {
        let (p, h) = simulate(&js);
        let alone: Alone = serde_json::from_str(&al).unwrap();
        let verdict = check::check(&p, &h, &alone);
        let mut counts: BTreeMap<String, u64> = h.counts.iter().cloned().collect();
        net_counts(&h, &mut counts);
        if p.sched.reuse {
            counts.insert("freed memory reused at once (runs)".into(), 1);
        }
        let hist_hash = hash_bytes(serde_json::to_string(&(&h.recs, &h.net, &h.outcome)).unwrap().as_bytes());
        let out = RunOut {
            verdict,
            sum: Summary {
                outcome: h.outcome.clone(),
                steps: h.steps,
                switches: h.switches,
                preempts: h.preempts,
                conflicts: h.conflicts,
                time_ns: h.time_ns,
                spurious: h.spurious,
                stalls: h.stalls,
                trace_hash: h.trace_hash,
                inter_hash: h.inter_hash,
                nthreads: h.nthreads,
                ops: h.recs.len() as u64,
                counts: counts.into_iter().collect(),
            },
            trace: if want_trace { detsim::sched::trace().iter().map(|s| (s.step, s.from, s.to, s.why)).collect() } else { vec![] },
            trace_complete: h.trace_complete,
            hist_hash,
        };
        serde_json::to_vec(&out).unwrap()
    });
    let dead = |class: &str, msg: String| RunOut {
        verdict: Verdict { viols: vec![Viol { class: class.into(), msg }], ..Default::default() },
        sum: Summary { outcome: class.into(), ..Default::default() },
        ..Default::default()
    };
    match r {
        Child::Data(d) => match serde_json::from_slice(&d) {
            Ok(x) => x,
            Err(e) => dead("harness", format!("unreadable result: {}", e)),
        },
        Child::Crash(1097) | Child::Crash(1098) | Child::Crash(libc::SIGKILL) => dead("harness", "simulator error".into()),
        Child::Crash(s) => dead("crash", format!("the process died: {}", if s < 1000 { format!("signal {}", s) } else { format!("exit {}", s - 1000) })),
        Child::Hang => dead("hang", "the run made no scheduler step for too long".into()),
    }
}
pub struct Shared_(Shared);
impl Shared_ {
    pub fn new() -> Self {
        Shared_(Shared::new())
    }
}

pub fn seed_of(base: u64, i: u64) -> u64 {
    base.wrapping_mul(1_000_000_007).wrapping_add(i)
}

// ---- search -----------------------------------------------------------------

#[derive(Default, Serialize, Deserialize, Clone)]
pub struct Agg {
    pub runs: u64,
    pub evals: u64,
    pub hot: u64,
    pub steps: u64,
    pub switches: u64,
    pub preempts: u64,
    pub conflicts: u64,
    pub time_ns: u128,
    pub spurious: u64,
    pub stalls: u64,
    pub ops: u64,
    pub multi: u64,
    pub counts: BTreeMap<String, u64>,
    pub cov: BTreeMap<String, u64>,
    pub tags: BTreeMap<String, u64>,
    pub inter: Vec<u64>,
    pub hists: Vec<u64>,
    pub samples: Vec<serde_json::Value>,
    pub found: Vec<(u64, Viol)>,
    pub harness: Vec<String>,
    pub longest_ms: (u64, u64),
}
impl Agg {
    fn add(&mut self, plan: &Plan, seed: u64, o: &RunOut, ms: u64) {
        self.runs += 1;
        self.evals += o.verdict.evals;
        self.hot += o.verdict.hot;
        let s = &o.sum;
        self.steps += s.steps;
        self.switches += s.switches;
        self.preempts += s.preempts;
        self.conflicts += s.conflicts;
        self.time_ns += s.time_ns as u128;
        self.spurious += s.spurious;
        self.stalls += s.stalls;
        self.ops += s.ops;
        if s.nthreads > 2 {
            self.multi += 1;
        }
        for (k, n) in &s.counts {
            *self.counts.entry(k.clone()).or_default() += n;
        }
        for (k, n) in &o.verdict.cov {
            *self.cov.entry(k.clone()).or_default() += n;
        }
        *self.tags.entry(if plan.tag.is_empty() { "plain".into() } else { plan.tag.clone() }).or_default() += 1;
        if o.verdict.hot > 0 {
            self.hists.push(mix(s.inter_hash ^ o.hist_hash));
        }
        self.inter.push(s.inter_hash);
        if self.samples.len() < 2 && o.verdict.hot > 0 {
            self.samples.push(serde_json::json!({"seed": seed, "tag": plan.tag, "threads": s.nthreads, "operations": s.ops,
                "scheduler_steps": s.steps, "context_switches": s.switches, "oracle_comparisons": o.verdict.evals,
                "trace_hash": format!("{:016x}", s.trace_hash)}));
        }
        self.longest_ms = self.longest_ms.max((ms, seed));
    }
    fn merge(&mut self, o: Agg) {
        self.runs += o.runs;
        self.evals += o.evals;
        self.hot += o.hot;
        self.steps += o.steps;
        self.switches += o.switches;
        self.preempts += o.preempts;
        self.conflicts += o.conflicts;
        self.time_ns += o.time_ns;
        self.spurious += o.spurious;
        self.stalls += o.stalls;
        self.ops += o.ops;
        self.multi += o.multi;
        for (k, n) in o.counts {
            *self.counts.entry(k).or_default() += n;
        }
        for (k, n) in o.cov {
            *self.cov.entry(k).or_default() += n;
        }
        for (k, n) in o.tags {
            *self.tags.entry(k).or_default() += n;
        }
        self.inter.extend(o.inter);
        self.hists.extend(o.hists);
        self.samples.extend(o.samples);
        self.found.extend(o.found);
        self.harness.extend(o.harness);
        self.longest_ms = self.longest_ms.max(o.longest_ms);
    }
}

pub struct Limits {
    pub secs: u64,
    pub runs: u64,
    pub workers: u64,
    pub hang: u64,
}

pub fn search(prop: &str, base: u64, from: u64, lim: &Limits) -> Agg {
    let ctl = map_shared(4096);
    let next = unsafe { &*(ctl as *const AtomicU64) };
    let nfound = unsafe { &*(ctl.add(64) as *const AtomicU64) };
    next.store(from, SeqCst);
    let start = detsim::raw::real_now_ns();
    let mut pids = vec![];
    for _ in 0..lim.workers {
        let res = map_shared(BUF);
        unsafe {
            *(res as *mut u64) = u64::MAX;
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let sh = Shared_::new();
                let mut a = Agg::default();
                loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= from + lim.runs || nfound.load(SeqCst) >= 4 {
                        break;
                    }
                    let now = detsim::raw::real_now_ns();
                    if now - start > lim.secs * 1_000_000_000 {
                        break;
                    }
                    let seed = seed_of(base, i);
                    let plan = gen::generate(prop, seed);
                    let o = run_one(&sh, &plan, false, lim.hang);
                    a.add(&plan, seed, &o, (detsim::raw::real_now_ns() - now) / 1_000_000);
                    if let Some(v) = o.verdict.viols.first() {
                        if v.class == "harness" {
                            a.harness.push(format!("seed {}: {}", seed, v.msg));
                        } else if a.found.len() < 50 {
                            for v in &o.verdict.viols {
                                a.found.push((seed, v.clone()));
                            }
                        }
                        if !o.verdict.viols.iter().all(|v| known(prop, v).is_some()) {
                            nfound.fetch_add(1, SeqCst);
                        }
                    }
                }
                let d = serde_json::to_vec(&a).unwrap();
                std::ptr::copy_nonoverlapping(d.as_ptr(), res.add(8), d.len().min(BUF - 8));
                *(res as *mut u64) = d.len() as u64;
                libc::_exit(0);
            }
            pids.push((pid, res));
        }
    }
    let mut a = Agg::default();
    for (pid, res) in pids {
        unsafe {
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
            let n = *(res as *mut u64);
            if n == u64::MAX {
                a.harness.push(format!("worker died: {}", st));
            } else {
                match serde_json::from_slice::<Agg>(std::slice::from_raw_parts(res.add(8), n as usize)) {
                    Ok(x) => a.merge(x),
                    Err(e) => a.harness.push(format!("worker result unreadable: {}", e)),
                }
            }
            libc::munmap(res as *mut _, BUF);
        }
    }
    a.found.sort_by_key(|x| x.0);
    a
}

// ---- known findings -----------------------------------------------------------

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var("VERIF_DIR").map(Into::into).unwrap_or_else(|_| "/verif".into())
}
/// Lines "known: property=<id> class=<class> needle=<text in the message> :: <what fails>"
pub fn known(prop: &str, v: &Viol) -> Option<String> {
    let t = std::fs::read_to_string(verif_dir().join("known-findings.txt")).ok()?;
    for l in t.lines() {
        let Some(l) = l.strip_prefix("known: ") else { continue };
        let Some((head, what)) = l.split_once(" :: ") else { continue };
        let Some((p, needle)) = head.split_once(" needle=") else { continue };
        if p == format!("property={} class={}", prop, v.class) && v.msg.contains(needle) {
            return Some(what.to_string());
        }
    }
    None
}

// ---- minimisation ---------------------------------------------------------------

fn fails(sh: &Shared_, p: &Plan, class: &str, hang: u64) -> Option<RunOut> {
    let o = run_one(sh, p, true, hang);
    if o.verdict.viols.iter().any(|v| v.class == class && known(&p.prop, v).is_none()) {
        Some(o)
    } else {
        None
    }
}
/// Does the plan fail under its own schedule or a few others? Returns it with the failing one.
fn fails_some(sh: &Shared_, p: &Plan, class: &str, hang: u64, tries: u64, dl: u64) -> Option<(Plan, RunOut)> {
    for k in 0..tries {
        if detsim::raw::real_now_ns() > dl {
            return None;
        }
        let mut q = p.clone();
        match k {
            0 => {}
            1 => {
                q.sched.policy = Pol::Coop;
                q.sched.stalls.clear();
                q.sched.spurious_den = 0;
                q.sched.conflict_den = 0;
            }
            _ => q.sched.seed = mix(p.sched.seed ^ k),
        }
        if let Some(o) = fails(sh, &q, class, hang) {
            return Some((q, o));
        }
    }
    None
}
fn pieces(p: &Plan) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for i in 0..p.steady.as_ref().map_or(0, |s| s.round.len()) {
        v.push((STEADY, i));
    }
    for i in 0..p.postlude.len() {
        v.push((POST, i));
    }
    for (t, ops) in p.threads.iter().enumerate() {
        for i in 0..ops.len() {
            v.push((t + 1, i));
        }
    }
    for i in 0..p.prelude.len() {
        v.push((0, i));
    }
    v
}
fn without(p: &Plan, drop: &HashSet<(usize, usize)>) -> Plan {
    let mut q = p.clone();
    let keep = |th: usize, v: &Vec<Op>| -> Vec<Op> {
        v.iter().enumerate().filter(|(i, _)| !drop.contains(&(th, *i))).map(|x| x.1.clone()).collect()
    };
    q.prelude = keep(0, &p.prelude);
    q.postlude = keep(POST, &p.postlude);
    if let (Some(a), Some(b)) = (&mut q.steady, &p.steady) {
        a.round = keep(STEADY, &b.round);
    }
    q.threads = p.threads.iter().enumerate().map(|(t, v)| keep(t + 1, v)).filter(|v| !v.is_empty()).collect();
    q
}
pub fn minimise(sh: &Shared_, plan: Plan, class: &str, hang: u64, secs: u64) -> (Plan, RunOut) {
    let dl = detsim::raw::real_now_ns() + secs * 1_000_000_000;
    let mut best = plan;
    let mut out = fails(sh, &best, class, hang).expect("reproduces");
    // 1. operations (delta debugging over chunks); marks and their counts must stay whole
    let mut chunk = (pieces(&best).len() / 2).max(1);
    while chunk >= 1 && detsim::raw::real_now_ns() < dl {
        let mut progress = false;
        let mut i = 0;
        loop {
            let ps = pieces(&best);
            if i >= ps.len() || detsim::raw::real_now_ns() > dl {
                break;
            }
            let drop: HashSet<_> = ps[i..(i + chunk).min(ps.len())].iter().copied().collect();
            let q = without(&best, &drop);
            match fails_some(sh, &q, class, hang, 5, dl) {
                Some((q, o)) => {
                    best = q;
                    out = o;
                    progress = true;
                }
                None => i += chunk,
            }
        }
        if chunk == 1 && !progress {
            break;
        }
        chunk = if progress && chunk == 1 { 1 } else { chunk / 2 };
    }
    // 2. rules of scanners
    for s in 0..best.scanners.len() {
        let mut i = 0;
        while i < best.scanners[s].rules.len() && best.scanners[s].rules.len() > 1 && detsim::raw::real_now_ns() < dl {
            let mut q = best.clone();
            q.scanners[s].rules.remove(i);
            match fails_some(sh, &q, class, hang, 4, dl) {
                Some((q, o)) => {
                    best = q;
                    out = o;
                }
                None => i += 1,
            }
        }
    }
    // 3. fields of events
    for e in 0..best.events.len() {
        let mut i = 0;
        while detsim::raw::real_now_ns() < dl {
            let Node::M(m) = &best.events[e] else { break };
            if i >= m.len() || m.len() < 2 {
                break;
            }
            let mut q = best.clone();
            if let Node::M(m) = &mut q.events[e] {
                m.remove(i);
            }
            match fails_some(sh, &q, class, hang, 3, dl) {
                Some((q, o)) => {
                    best = q;
                    out = o;
                }
                None => i += 1,
            }
        }
    }
    // 4. environment faults that are not needed
    let mut tries: Vec<Box<dyn Fn(&mut Plan)>> = vec![
        Box::new(|q| q.slow_exporter = (0, 0)),
        Box::new(|q| q.sched.spurious_den = 0),
        Box::new(|q| q.sched.stalls.clear()),
        Box::new(|q| q.sched.reuse = false),
        Box::new(|q| q.net.outages.clear()),
    ];
    for f in tries.drain(..) {
        let mut q = best.clone();
        f(&mut q);
        if q != best && detsim::raw::real_now_ns() < dl {
            if let Some((q, o)) = fails_some(sh, &q, class, hang, 3, dl) {
                best = q;
                out = o;
            }
        }
    }
    // 5. the schedule itself: explicit switches, fewest that still fail
    if out.trace_complete && !out.trace.is_empty() && out.trace.len() < 200_000 && class != "crash" && class != "hang" {
        let sw: Vec<(u64, u16)> = out.trace.iter().map(|t| (t.0, t.2)).collect();
        let mut q = best.clone();
        q.sched.explicit = Some(sw.clone());
        if let Some(o) = fails(sh, &q, class, hang) {
            best = q;
            out = o;
            let mut cur = sw;
            let mut n = (cur.len() / 2).max(1);
            while n >= 1 && detsim::raw::real_now_ns() < dl {
                let mut i = 0;
                let mut progress = false;
                while i < cur.len() && detsim::raw::real_now_ns() < dl {
                    let mut c = cur.clone();
                    c.drain(i..(i + n).min(cur.len()));
                    let mut q = best.clone();
                    q.sched.explicit = Some(c.clone());
                    match fails(sh, &q, class, hang) {
                        Some(o) => {
                            cur = c;
                            best = q;
                            out = o;
                            progress = true;
                        }
                        None => i += n,
                    }
                }
                if n == 1 && !progress {
                    break;
                }
                n = if n == 1 { 1 } else { n / 2 };
            }
        }
    }
    (best, out)
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub seed: u64,
    pub class: String,
    pub message: String,
    pub trace_hash: String,
    pub history_hash: String,
    pub faults: BTreeMap<String, u64>,
    /// context switches of the failing run: (step, from, to, reason)
    pub schedule: Vec<(u64, u16, u16, String)>,
    pub plan: Plan,
}
fn why(w: u16) -> &'static str {
    ["?", "preempt", "block", "exit", "yield", "wake", "conflict"].get(w as usize).copied().unwrap_or("?")
}

// ---- commands ---------------------------------------------------------------------

fn now_s(t0: u64) -> f64 {
    (detsim::raw::real_now_ns() - t0) as f64 / 1e9
}

pub fn cmd_check(prop: &str, tier: &str) -> i32 {
    let t0 = detsim::raw::real_now_ns();
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let envn = |k: &str, d: u64| std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d);
    let quick = tier == "quick";
    let lim = Limits {
        secs: envn("SIM_SECS", if quick { 60 } else { 1500 }),
        runs: envn("SIM_RUNS", u64::MAX / 4),
        workers: envn("SIM_WORKERS", 8),
        hang: envn("SIM_HANG", 200),
    };
    // the same seed twice must be the same execution
    let sh = Shared_::new();
    let mut det = vec![];
    for i in 0..3 {
        let plan = gen::generate(prop, seed_of(base, i));
        if plan.tag.contains("distinct") {
            continue;
        }
        let a = run_one(&sh, &plan, false, lim.hang);
        let b = run_one(&sh, &plan, false, lim.hang);
        det.push((a.sum.trace_hash, a.hist_hash) == (b.sum.trace_hash, b.hist_hash));
    }
    let deterministic = det.iter().all(|x| *x);
    let a = search(prop, base, 0, &lim);
    let search_s = now_s(t0);
    let mut code = 0;
    let mut replay_path;
    let mut known_lines: Vec<String> = vec![];
    let mut msgs: Vec<serde_json::Value> = vec![];
    let mut tried: HashSet<(u64, String)> = HashSet::new();
    for (seed, v) in &a.found {
        if let Some(w) = known(prop, v) {
            let l = format!("KNOWN-FINDING: property={} {}", prop, w);
            if !known_lines.contains(&l) {
                known_lines.push(l);
            }
            continue;
        }
        if code == 1 || !tried.insert((*seed, v.class.clone())) {
            continue;
        }
        let plan = gen::generate(prop, *seed);
        if fails(&sh, &plan, &v.class, lim.hang).is_none() {
            eprintln!("seed {}: {} did not reproduce", seed, v.class);
            continue;
        }
        let (p, o) = minimise(&sh, plan, &v.class, lim.hang, envn("SIM_MIN_SECS", if quick { 60 } else { 300 }));
        // replays must agree exactly
        let o2 = run_one(&sh, &p, true, lim.hang);
        if (o.sum.trace_hash, o.hist_hash) != (o2.sum.trace_hash, o2.hist_hash) {
            eprintln!("seed {}: minimised run is not repeatable", seed);
        }
        let vv = o2.verdict.viols.iter().find(|x| x.class == v.class).unwrap_or(v).clone();
        let dir = verif_dir().join("sim/out");
        let _ = std::fs::create_dir_all(&dir);
        let f = dir.join(format!("{}-{}-{}.json", prop, vv.class, seed));
        let rep = Replay {
            property: prop.into(),
            seed: *seed,
            class: vv.class.clone(),
            message: vv.msg.clone(),
            trace_hash: format!("{:016x}", o2.sum.trace_hash),
            history_hash: format!("{:016x}", o2.hist_hash),
            faults: o2.sum.counts.iter().cloned().collect(),
            schedule: o2.trace.iter().take(5000).map(|t| (t.0, t.1, t.2, why(t.3).to_string())).collect(),
            plan: p,
        };
        std::fs::write(&f, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
        replay_path = f.display().to_string();
        println!("seed {}: {}: {}", seed, vv.class, vv.msg);
        println!("VIOLATION property={} replay={}", prop, replay_path);
        msgs.push(serde_json::json!({"seed": seed, "class": vv.class, "message": vv.msg, "replay": replay_path}));
        code = 1;
    }
    for l in &known_lines {
        println!("{}", l);
    }
    let unrepro = code == 0 && a.found.iter().any(|(_, v)| known(prop, v).is_none());
    let inter: HashSet<u64> = a.inter.iter().copied().collect();
    let hists: HashSet<u64> = a.hists.iter().copied().collect();
    let wall = now_s(t0);
    let mut faults: BTreeMap<String, u64> = a.counts.clone();
    faults.insert("forced preemption".into(), a.preempts);
    faults.insert("preemption at a conflicting access".into(), a.conflicts);
    faults.insert("thread stalled".into(), a.stalls);
    faults.insert("spurious wake-up".into(), a.spurious);
    let per_h = |n: u64| (n as f64 / search_s.max(0.001) * 3600.0) as u64;
    let ev = serde_json::json!({
        "property": prop,
        "tier": tier,
        "seed": base,
        "level": "exploration",
        "coverage": {
            "evaluations": a.runs,
            "distinct_nontrivial": hists.len(),
            "rule": "one evaluation is one simulated run (one seed: one generated plan of rules, events, threads and faults under one seeded schedule); non-trivial: a run in which at least one oracle comparison was non-vacuous (see DESIGN.md), distinct by hash of (order of conflicting accesses and context switches, recorded history)",
            "samples": a.samples.iter().take(4).collect::<Vec<_>>(),
            "oracle_comparisons": a.evals,
            "nonvacuous_comparisons": a.hot,
            "runs_and_seeds_per_hour": per_h(a.runs),
            "first_seed": seed_of(base, 0),
            "simulated_seconds": a.time_ns as f64 / 1e9,
            "scheduler_steps": a.steps,
            "context_switches": a.switches,
            "operations": a.ops,
            "multi_threaded_runs": a.multi,
            "distinct_interleavings": inter.len(),
            "distinct_interleavings_measure": "hash of the sequence of (program site, from, to) of all context switches of a run",
            "faults_injected": faults,
            "oracle_counts": a.cov,
            "scenarios": a.tags,
            "same_seed_same_execution": deterministic,
            "real_code": ["dd-sds (whole crate)", "sds-go/rust C interface", "sds-bindings-utils", "regex-automata fork", "rayon", "std sync, threads and time (intercepted at futex/clock/pthread level)"],
            "stubs": ["reqwest transport (in-process servers)", "metrics exporter (recording)", "clock, futex, scheduler, randomness, allocator (simulator)", "Go side of the Go binding (its byte protocol is re-implemented)"],
            "longest_run_ms": a.longest_ms.0,
            "longest_run_seed": a.longest_ms.1
        },
        "assumptions": [
            "sequentially consistent memory: weak-memory reorderings are not simulated",
            "preemption only at instrumented basic blocks, memory accesses and system calls of the code under test"
        ],
        "violations": msgs.len(),
        "violation_reports": msgs,
        "wall_s": wall
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", prop)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{}: {} runs in {:.0} s, {} comparisons ({} non-vacuous), {} distinct interleavings, {:.0} simulated s, longest run {} ms (seed {})",
        prop,
        a.runs,
        search_s,
        a.evals,
        a.hot,
        inter.len(),
        a.time_ns as f64 / 1e9,
        a.longest_ms.0,
        a.longest_ms.1
    );
    if code == 1 {
        return 1;
    }
    for h in a.harness.iter().take(3) {
        eprintln!("harness: {}", h);
    }
    if unrepro || !a.harness.is_empty() || !deterministic || a.evals == 0 {
        eprintln!("harness error (unreproducible={} deterministic={} evals={})", unrepro, deterministic, a.evals);
        return 3;
    }
    0
}

pub fn cmd_replay(file: &str) -> i32 {
    let r: Replay = match std::fs::read_to_string(file).ok().and_then(|t| serde_json::from_str(&t).ok()) {
        Some(r) => r,
        None => {
            eprintln!("cannot read {}", file);
            return 2;
        }
    };
    let sh = Shared_::new();
    let o = run_one(&sh, &r.plan, true, 400);
    println!("trace hash {:016x} (recorded {}), history hash {:016x} (recorded {})", o.sum.trace_hash, r.trace_hash, o.hist_hash, r.history_hash);
    for v in &o.verdict.viols {
        println!("{}: {}", v.class, v.msg);
    }
    if o.verdict.viols.iter().any(|v| v.class == r.class) {
        println!("VIOLATION property={} replay={}", r.property, file);
        1
    } else {
        println!("not reproduced on this tree");
        0
    }
}
