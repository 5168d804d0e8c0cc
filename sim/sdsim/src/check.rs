//! Oracles: decide a property on the recorded history of one run.
use crate::ev;
use crate::exec::{History, OpRec, Res, What, SIM_PANIC};
use crate::model::{MOut, Model, ScanIn, ScanOut, Wall};
use crate::net::NetRec;
use crate::plan::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Viol {
    /// stable class of the violation (minimisation keeps it)
    pub class: String,
    pub msg: String,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Verdict {
    pub viols: Vec<Viol>,
    /// comparisons made against the oracle
    pub evals: u64,
    /// comparisons that could fail in an interesting way (matches present etc.)
    pub hot: u64,
    pub cov: BTreeMap<String, u64>,
}
/// What a scanner built and used alone in a fresh process does.
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Alone {
    pub built: BTreeMap<usize, String>,
    /// (spec, event) -> result
    pub scans: Vec<((usize, usize), String)>,
    /// spec -> (regexes, bytes of their caches) as reported with nothing else around
    #[serde(default)]
    pub gauges: BTreeMap<usize, (u64, u64)>,
}

struct Ck<'a> {
    p: &'a Plan,
    h: &'a History,
    m: Model<'a>,
    v: Verdict,
    lossy: Vec<Node>,
}

pub fn op_name(r: &OpRec) -> String {
    let th = match r.th {
        0 => "prelude".to_string(),
        POST => "postlude".to_string(),
        STEADY => "steady round".to_string(),
        n => format!("thread {}", n),
    };
    let w = match &r.what {
        What::Scan { spec, ev, blocked, kind, .. } => format!("scan(scanner {}, event {}, blocked {:?}, {:?})", spec, ev, blocked, kind),
        What::Validate { spec, ev, .. } => format!("validate(scanner {}, event {})", spec, ev),
        What::Build { spec } => format!("build(scanner {})", spec),
        What::FfiBuild { spec } => format!("ffi build(scanner {})", spec),
        What::FfiScan { spec, ev } => format!("ffi scan(scanner {}, event {})", spec, ev),
        What::Drop => "drop".into(),
        What::FfiBad => "malformed ffi call".into(),
        What::Other => "op".into(),
    };
    format!("{} op {}{}: {}", th, r.op, if r.nested > 0 { " (nested)" } else { "" }, w)
}
fn cut(s: String) -> String {
    if s.len() > 1500 {
        let mut i = 1500;
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        format!("{}…", &s[..i])
    } else {
        s
    }
}

impl<'a> Ck<'a> {
    fn bad(&mut self, class: &str, msg: String) {
        if self.v.viols.len() < 20 {
            self.v.viols.push(Viol { class: class.into(), msg: cut(msg) });
        }
    }
    fn cov(&mut self, k: &str, n: u64) {
        *self.v.cov.entry(k.into()).or_default() += n;
    }
    fn wall(&self, r: &OpRec) -> (i64, i64) {
        self.clock((r.s0, r.s1, r.w0, r.w1))
    }
    fn clock(&self, (s0, s1, w0, w1): (u64, u64, i64, i64)) -> (i64, i64) {
        let mut lo = w0.min(w1);
        let mut hi = w0.max(w1);
        for (s, a, b) in &self.h.jumps {
            if *s >= s0 && *s <= s1 {
                lo = lo.min(*a).min(*b);
                hi = hi.max(*a).max(*b);
            }
        }
        (lo, hi)
    }
    fn expect(&self, r: &OpRec, spec: usize, evi: usize, blocked: &[usize], kind: Kind) -> Option<ScanOut> {
        let sp = &self.p.scanners[spec];
        if !self.m.knows(sp) {
            return None;
        }
        let ev = &self.lossy[evi];
        if kind == Kind::Hash {
            return None;
        }
        let e = kind_order(kind, ev);
        let wall = if r.times == 1 && r.seen.len() == leaves(&e).len() {
            Wall::Leaf(r.seen.iter().map(|s| self.clock(*s)).collect())
        } else {
            Wall::Scan(self.wall(r))
        };
        let o = self.m.scan(&ScanIn { scanner: sp, ev: &e, blocked, utf16: kind == Kind::Utf16, wall });
        if o.ambiguous {
            return None;
        }
        Some(o)
    }
    /// No run may end otherwise than by finishing.
    fn finished(&mut self) -> bool {
        if self.h.outcome != "Done" {
            let open: Vec<String> = self.h.recs.iter().filter(|r| r.res == Res::Open).map(op_name).collect();
            self.bad("stuck", format!("the run did not finish: {}; unfinished: {:?}; threads: {}", self.h.outcome, open, self.h.threads_desc));
            return false;
        }
        if let Some(r) = self.h.recs.iter().find(|r| r.res == Res::Open) {
            let n = op_name(r);
            self.bad("thread-died", format!("{} never returned: its thread ended", n));
            return false;
        }
        true
    }
    fn memory(&mut self) {
        if let Some(x) = &self.h.misuse {
            let x = x.clone();
            self.bad("heap-misuse", x);
        }
    }
    fn breaches(&mut self) {
        for b in self.h.breaches.clone() {
            self.bad("event-contract", b);
        }
    }
    fn boom(&self, spec: usize, evi: usize) -> bool {
        self.p.scanners[spec].rules.iter().any(|r| self.p.rules[*r].once)
            && leaves(&self.p.events[evi]).iter().any(|(_, s)| s.contains("BOOM!"))
    }
    /// Scans: results against the reference model.
    fn scans(&mut self) {
        let h = self.h;
        for r in &h.recs {
            let What::Scan { spec, ev, blocked, kind, planned_panic } = &r.what else { continue };
            match &r.res {
                Res::Scanned { matches, event } => {
                    let Some(x) = self.expect(r, *spec, *ev, blocked, *kind) else {
                        self.cov("scan_not_decided", 1);
                        continue;
                    };
                    self.v.evals += 1;
                    self.cov("scan_compared", 1);
                    if !x.matches.is_empty() {
                        self.v.hot += 1;
                        self.cov("scan_with_matches", 1);
                    }
                    if x.matches != *matches {
                        self.bad("scan-matches", format!("{}: returned matches {:?}, its rules specify {:?}", op_name(r), matches, x.matches));
                    } else if canon(&x.event) != canon(event) {
                        self.bad("scan-event", format!("{}: left the event as {:?}, its rules specify {:?}", op_name(r), event, x.event));
                    }
                }
                Res::Panicked(p) => {
                    self.v.evals += 1;
                    let ok = p == SIM_PANIC && (*planned_panic || self.boom(*spec, *ev));
                    if ok {
                        self.cov("planned_panic", 1);
                    } else {
                        self.bad("scan-panic", format!("{}: panicked: {}", op_name(r), p));
                    }
                }
                _ => {}
            }
        }
    }
    /// Scanners the reference model knows must be created.
    fn builds(&mut self) {
        let h = self.h;
        for r in &h.recs {
            match &r.what {
                What::Build { spec } => {
                    let sp = &self.p.scanners[*spec];
                    if !self.m.knows(sp) {
                        continue;
                    }
                    self.v.evals += 1;
                    match &r.res {
                        Res::Built(Ok(())) => {}
                        o => self.bad("build", format!("{}: valid configuration, but {:?}", op_name(r), o)),
                    }
                }
                What::Drop => {
                    if let Res::Panicked(p) = &r.res {
                        self.bad("drop-panic", format!("{}: panicked: {}", op_name(r), p));
                    }
                }
                What::Other => {
                    if let Res::Churned { failed, .. } = &r.res {
                        self.v.evals += 1;
                        if *failed > 0 {
                            self.bad("churn", format!("{}: {} of the fresh one-rule scanners did not find their one match", op_name(r), failed));
                        }
                    }
                }
                _ => {}
            }
        }
    }
    fn ffi_scans(&mut self) {
        let h = self.h;
        for r in &h.recs {
            let What::FfiScan { spec, ev } = &r.what else { continue };
            match &r.res {
                Res::FfiScanned { matches, event, mutated, err, bad } => {
                    self.v.evals += 1;
                    if let Some(b) = bad {
                        self.bad("ffi-response", format!("{}: {}", op_name(r), b));
                        continue;
                    }
                    if let Some(e) = err {
                        self.bad("ffi-error", format!("{}: well-formed event, but error {:?}", op_name(r), e));
                        continue;
                    }
                    let Some(x) = self.expect(r, *spec, *ev, &[], Kind::Ffi) else {
                        self.cov("scan_not_decided", 1);
                        continue;
                    };
                    let want: Vec<MOut> = x
                        .matches
                        .iter()
                        .map(|m| MOut { value: None, status: String::new(), ..m.clone() })
                        .collect();
                    if !want.is_empty() {
                        self.v.hot += 1;
                        self.cov("ffi_scan_with_matches", 1);
                    }
                    self.cov("ffi_scan_compared", 1);
                    if want != *matches {
                        self.bad("ffi-matches", format!("{}: returned {:?}, the Rust API specifies {:?}", op_name(r), matches, want));
                    } else if x.event != *event {
                        self.bad("ffi-event", format!("{}: event becomes {:?}, the Rust API specifies {:?}", op_name(r), event, x.event));
                    } else {
                        let b: BTreeMap<String, String> =
                            leaves(&self.lossy[*ev]).iter().map(|(p, _)| (format!("{:?}", p), crate::model::path_string(p))).collect();
                        let mut seen = BTreeSet::new();
                        for p in mutated {
                            if !seen.insert(p.clone()) {
                                self.bad("ffi-mutation-twice", format!("{}: two mutations of {}", op_name(r), p));
                            }
                            let mutating = x.matches.iter().any(|m| Some(&m.path) == b.get(p) && m.repl != "none");
                            if !mutating || !b.contains_key(p) {
                                self.bad("ffi-mutation", format!("{}: mutation sent for {} which has no mutating match", op_name(r), p));
                            }
                        }
                    }
                }
                Res::Panicked(p) => self.bad("ffi-panic", format!("{}: a panic crossed the C interface: {}", op_name(r), p)),
                _ => {}
            }
        }
    }
    fn ffi_codes(&mut self, alone: &Alone) {
        let h = self.h;
        let code = |built: &str| -> i64 {
            if built == "Ok(())" {
                1
            } else if built.contains("InvalidRegex") {
                -2
            } else if built.contains("InvalidKeywords") {
                -3
            } else if built.contains("InvalidMatchAction") {
                -4
            } else {
                0
            }
        };
        let all_ok = alone.built.values().all(|b| b == "Ok(())");
        for r in &h.recs {
            match (&r.what, &r.res) {
                (_, Res::Panicked(p)) => {
                    self.bad("ffi-panic", format!("{}: a panic crossed the C interface: {}", op_name(r), p));
                }
                (What::FfiBuild { spec }, Res::Code(c, e)) => {
                    self.v.evals += 1;
                    let want = alone.built.get(spec).map_or(0, |b| code(b));
                    if want == 0 {
                        continue;
                    }
                    if want < 0 {
                        self.v.hot += 1;
                        self.cov("ffi_rejected", 1);
                    }
                    if (*c).min(1) != want || e.is_some() {
                        self.bad("ffi-code", format!("{}: code {} error {:?}, expected {}", op_name(r), c, e, want));
                    }
                }
                (What::Other, Res::Code(c, e)) => {
                    self.v.evals += 1;
                    if !(*c == 1 || (!all_ok && (-4..=-2).contains(c))) || e.is_some() {
                        self.bad("ffi-code", format!("{}: create from a shared rule list: code {} error {:?}", op_name(r), c, e));
                    }
                }
                (What::FfiBad, Res::Code(c, _)) => {
                    self.v.evals += 1;
                    self.v.hot += 1;
                    let Op::FfiBadRule { json } = self.op(r) else { continue };
                    let valid = matches!(json.as_str(), "{\"pattern\":\"a\",\"match_action\":{\"type\":\"None\"}}");
                    if *c >= 0 && !valid {
                        self.bad("ffi-bad-rule", format!("{}: malformed rule {:?} accepted", op_name(r), json));
                    } else if *c < 0 && valid {
                        self.bad("ffi-bad-rule", format!("{}: well-formed rule {:?} rejected with {}", op_name(r), json, c));
                    }
                }
                (What::FfiBad, Res::FfiScanned { err, bad, .. }) => {
                    self.v.evals += 1;
                    self.v.hot += 1;
                    let Op::FfiBadScan { bytes, .. } = self.op(r) else { continue };
                    if let Some(b) = bad {
                        self.bad("ffi-response", format!("{}: {}", op_name(r), b));
                    }
                    match wire_ok(bytes) {
                        Some(false) if err.is_none() => {
                            self.bad("ffi-malformed-accepted", format!("{}: malformed event {:?} scanned without an error", op_name(r), bytes))
                        }
                        Some(true) if err.is_some() => {
                            self.bad("ffi-error", format!("{}: well-formed event {:?}, but error {:?}", op_name(r), bytes, err))
                        }
                        Some(false) => self.cov("malformed_reported", 1),
                        _ => {}
                    }
                }
                _ => {}
            }
        }
    }
    fn op(&self, r: &OpRec) -> &'a Op {
        match r.th {
            0 => &self.p.prelude[r.op],
            POST => &self.p.postlude[r.op],
            STEADY => {
                let s = self.p.steady.as_ref().unwrap();
                s.round.get(r.op).unwrap_or_else(|| &s.reset[r.op - s.round.len()])
            }
            t => &self.p.threads[t - 1][r.op],
        }
    }
    fn growth(&mut self, what: &str) {
        let Some(st) = &self.p.steady else { return };
        let v: Vec<(u64, u64)> = self
            .h
            .recs
            .iter()
            .filter_map(|r| match &r.res {
                Res::Mark { blocks, bytes, .. } if r.th == STEADY => Some((*blocks, *bytes)),
                _ => None,
            })
            .collect();
        if v.len() < 6 {
            return;
        }
        self.v.evals += 1;
        self.v.hot += 1;
        // a leak grows in every interval; one-off growth (tables, caches) does not
        let g: Vec<i64> = v.windows(2).map(|w| w[1].0 as i64 - w[0].0 as i64).collect();
        let lim = (st.n / 2).max(1) as i64;
        let late = |g: &[i64]| g[g.len() - 4..].to_vec();
        if late(&g).iter().all(|x| *x >= lim) {
            self.bad("leak", format!("{}: (live blocks, bytes) at the marks {:?}: every {} rounds of the same calls leave {:?} more blocks", what, v, st.n, g));
        }
        let gb: Vec<i64> = v.windows(2).map(|w| w[1].1 as i64 - w[0].1 as i64).collect();
        if late(&gb).iter().all(|x| *x >= 16 * st.n as i64) {
            self.bad("leak", format!("{}: (live blocks, bytes) at the marks {:?}: every {} rounds of the same calls leave {:?} more bytes", what, v, st.n, gb));
        }
    }
    fn churn_bound(&mut self) {
        // per thread: peaks of each churn operation
        let mut by_round: BTreeMap<usize, Vec<u64>> = BTreeMap::new();
        let mut lows = vec![];
        let held = self.p.threads.iter().flatten().any(|o| matches!(o, Op::Churn { hold, .. } if *hold > 0));
        for r in &self.h.recs {
            if let Res::Churned { peaks, low, failed } = &r.res {
                if *failed > 0 {
                    self.bad("churn", format!("{}: {} of the fresh scanners, or of the one in use meanwhile, did not find their matches", op_name(r), failed));
                }
                lows.push(*low);
                if r.th > 0 && r.th < POST {
                    by_round.entry(r.op).or_default().extend(peaks.clone());
                }
            }
        }
        if by_round.len() < 3 {
            return;
        }
        let mx: Vec<u64> = by_round.values().map(|v| v.iter().copied().max().unwrap_or(0)).collect();
        self.v.evals += 1;
        self.v.hot += 1;
        let n = mx.len();
        let (a, b) = (mx[n - 2], mx[n - 1]);
        // One thread reuses one set of search scratch space, which saturates within a round. With
        // several, how many sets exist and how full each is depends on the schedule.
        let lim = if self.p.threads.len() <= 1 { a + 24_000 + a / 200 } else { mx[0] * 8 / 5 + 1_000_000 };
        if self.p.threads.len() == 1 && lows.len() == n && n > 2 {
            // right after each clean-up only what is in use remains
            let g = |k: usize| lows[k] > lows[k - 1] + 24_000 + lows[k - 1] / 200;
            if g(n - 1) && g(n - 2) {
                self.bad("churn-low-growth", format!("least library memory per round of never-repeated patterns keeps growing: {:?} bytes", lows));
            }
        }
        if b > lim && !held {
            self.bad("churn-growth", format!("peak library memory per round of never-repeated patterns keeps growing: {:?} bytes", mx));
        }
    }
    fn telemetry(&mut self) {
        let h = self.h;
        let mut want: BTreeMap<(String, Vec<(String, String)>), u64> = BTreeMap::new();
        let mut dur_hi: BTreeMap<Vec<(String, String)>, u64> = BTreeMap::new();
        let mut dur_lo: BTreeMap<Vec<(String, String)>, u64> = BTreeMap::new();
        let mut created = 0u64;
        let mut undecided = false;
        let key = |l: &[(String, String)]| l.to_vec();
        for r in &h.recs {
            match (&r.what, &r.res) {
                (What::Scan { spec, ev, blocked, kind, .. }, Res::Scanned { .. }) => {
                    let Some(x) = self.expect(r, *spec, *ev, blocked, *kind) else {
                        undecided = true;
                        continue;
                    };
                    for (k, n) in x.metrics {
                        *want.entry(k).or_default() += n * r.times as u64;
                    }
                    let l = key(&self.p.scanners[*spec].labels);
                    *dur_hi.entry(l.clone()).or_default() += r.t1 - r.t0;
                    if let Op::Scan { hook: Hook::Sleep(n, ns), kind, .. } = self.op(r) {
                        // callbacks during the visit: two per string
                        if matches!(kind, Kind::Ordered | Kind::Utf16) && (*n as u64) <= 2 * leaves(&self.p.events[*ev]).len() as u64 {
                            *dur_lo.entry(l).or_default() += ns;
                        }
                    }
                }
                (What::Build { .. }, Res::Built(Ok(()))) => created += 1,
                (What::Other, Res::Churned { .. }) => {
                    *dur_hi.entry(vec![]).or_default() += r.t1 - r.t0;
                }
                // a creation that fails leaves no trace
                (What::Other, Res::Panicked(_)) if matches!(self.op(r), Op::BuildBoom { .. }) => {}
                (_, Res::Panicked(_)) => undecided = true,
                _ => {}
            }
        }
        created += h.churn_ok;
        if undecided {
            // what a scan that panicked has counted is not specified
            self.cov("telemetry_partly_decided", 1);
        }
        if h.churn_ok > 0 {
            *want.entry(("scanned_events".into(), vec![])).or_default() += h.churn_ok;
            *want.entry(("scanning.match_count".into(), vec![])).or_default() += h.churn_ok;
        }
        want.insert(("scanner.creations".into(), vec![]), created);
        want.insert(("scanner.deletions".into(), vec![]), created - h.live as u64);
        let sort = |k: &(String, Vec<(String, String)>)| {
            let mut k = k.clone();
            k.1.sort();
            k
        };
        let mut got: BTreeMap<(String, Vec<(String, String)>), u64> = BTreeMap::new();
        for (k, v) in &h.snap.counters {
            *got.entry(sort(k)).or_default() += v;
        }
        let mut w2: BTreeMap<(String, Vec<(String, String)>), u64> = BTreeMap::new();
        for (k, v) in &want {
            *w2.entry(sort(k)).or_default() += v;
        }
        let names = [
            "scanned_events",
            "scanning.match_count",
            "scanner.creations",
            "scanner.deletions",
            "false_positive.multipass.excluded_match",
            "false_positive.proximity_keywords",
        ];
        let keys: BTreeSet<_> = got.keys().chain(w2.keys()).cloned().collect();
        for k in keys {
            if !names.contains(&k.0.as_str()) || (undecided && !k.0.starts_with("scanner.")) {
                continue;
            }
            self.v.evals += 1;
            let (a, b) = (got.get(&k).copied().unwrap_or(0), w2.get(&k).copied().unwrap_or(0));
            if b > 0 {
                self.v.hot += 1;
                self.cov(&format!("counter {}", k.0), 1);
            }
            if a != b {
                self.bad("counter", format!("counter {:?} reports {} but {} happened", k, a, b));
            }
        }
        for (k, v) in &got {
            if k.0 == "scanning.duration" && !undecided {
                let mut l = dur_hi.iter().filter(|(a, _)| {
                    let mut a = (*a).clone();
                    a.sort();
                    a == k.1
                });
                let hi: u64 = l.by_ref().map(|x| *x.1).sum();
                let lo: u64 = dur_lo
                    .iter()
                    .filter(|(a, _)| {
                        let mut a = (*a).clone();
                        a.sort();
                        a == k.1
                    })
                    .map(|x| *x.1)
                    .sum();
                self.v.evals += 1;
                if *v > hi || *v < lo {
                    self.bad("duration", format!("scanning.duration{:?} = {} ns, but the scans took between {} and {} ns", k.1, v, lo, hi));
                }
            }
        }
        for (k, v, neg) in &h.snap.gauges {
            match k.0.as_str() {
                "scanner.total_count" => {
                    self.v.evals += 1;
                    if *v != h.live as f64 {
                        self.bad("gauge-scanners", format!("gauge scanner.total_count = {} with {} scanners alive", v, h.live));
                    }
                    if *neg > 0 {
                        self.bad("gauge-negative", "gauge scanner.total_count was negative".into());
                    }
                }
                "scanner.total_regexes" => {
                    self.v.evals += 1;
                    let (lo, hi) = self.regex_bounds();
                    if *v < lo as f64 || *v > hi as f64 {
                        self.bad("gauge-regexes", format!("gauge scanner.total_regexes = {}, but between {} and {} distinct expressions are in use", v, lo, hi));
                    }
                }
                "scanner.total_regex_cache_size" => {
                    self.v.evals += 1;
                    let (lo, _) = self.regex_bounds();
                    if *neg > 0 || *v < 0.0 {
                        self.bad("gauge-cache-negative", format!("gauge scanner.total_regex_cache_size reported a negative size (now {})", v));
                    } else if lo > 0 && *v <= 0.0 {
                        self.bad("gauge-cache-zero", format!("gauge scanner.total_regex_cache_size = {} with {} expressions in use", v, lo));
                    }
                }
                _ => {}
            }
        }
        if created > 0 && !h.snap.gauges.iter().any(|g| g.0 .0 == "scanner.total_count") {
            self.bad("gauge-missing", "gauge scanner.total_count never reported".into());
        }
    }
    /// The gauges of held regexes and of their memory, against what each
    /// scanner of this run holds when it is the only one.
    fn held(&mut self, alone: &Alone) {
        if alone.gauges.len() != self.p.scanners.len() + 1 {
            return;
        }
        let g = |n: &str| self.h.snap.gauges.iter().find(|g| g.0 .0 == n).map(|g| g.1);
        let (Some(n), Some(bytes)) = (g("scanner.total_regexes"), g("scanner.total_regex_cache_size")) else { return };
        let one = alone.gauges[&self.p.scanners.len()];
        let churned = self.h.churn_ok + self.h.recs.iter().filter(|r| matches!(r.res, Res::Churned { .. })).count() as u64;
        if churned > 0 && one.1 == 0 {
            return;
        }
        self.v.evals += 1;
        self.v.hot += 1;
        self.cov("gauges_compared", 1);
        // nothing else goes on: one more scanner adds what it needs, less what is cleaned up
        let quiet: Vec<(f64, f64)> = self.h.recs.iter().filter(|r| r.th == POST).filter_map(|r| if let Res::Gauges { n, bytes } = r.res { Some((n, bytes)) } else { None }).collect();
        if let ([a, b], true) = (&quiet[..], one.1 > 0) {
            if b.0 > a.0 + one.0 as f64 {
                self.bad("gauge-regexes-stale", format!("gauge scanner.total_regexes went from {} to {} when one scanner with {} regexes was made", a.0, b.0, one.0));
            }
            if b.1 > a.1 + 2.0 * one.1 as f64 {
                self.bad("gauge-cache-stale", format!("gauge scanner.total_regex_cache_size went from {} to {} when one scanner that needs {} was made", a.1, b.1, one.1));
            }
        }
        let specs = 0..self.p.scanners.len();
        let lo = self.h.live_specs.iter().map(|i| alone.gauges[i]).fold((0, 0), |a, b| (a.0.max(b.0), a.1.max(b.1)));
        let sum = specs.clone().map(|i| alone.gauges[&i]).fold((0, 0), |a, b| (a.0 + b.0, a.1 + b.1));
        let hi = (sum.0 + churned * one.0, sum.1 + 2 * churned * one.1);
        let most = specs.map(|i| alone.gauges[&i].1).max().unwrap_or(0).max(2 * one.1);
        if n < lo.0 as f64 || n > hi.0 as f64 {
            self.bad("gauge-regexes-held", format!("gauge scanner.total_regexes = {}; a scanner in use has {}, all scanners of this run together have {}", n, lo.0, hi.0));
        }
        if bytes < lo.1 as f64 || bytes > hi.1 as f64 {
            self.bad("gauge-cache-held", format!("gauge scanner.total_regex_cache_size = {}; a scanner in use has {}, all scanners of this run together have {}", bytes, lo.1, hi.1));
        } else if bytes > n * most as f64 {
            self.bad("gauge-cache-per-regex", format!("gauge scanner.total_regex_cache_size = {} for {} regexes, none of which has more than {}", bytes, n, most));
        }
    }
    /// distinct user patterns in live scanners, and an upper bound of all ever used
    fn regex_bounds(&self) -> (usize, usize) {
        let mut live = BTreeSet::new();
        for s in &self.h.live_specs {
            for r in &self.p.scanners[*s].rules {
                if !self.p.rules[*r].once {
                    live.insert(self.p.rules[*r].p.clone());
                }
            }
        }
        let mut n = 0;
        for r in &self.p.rules {
            n += 1;
            if let Some(k) = &r.kw {
                n += 3 * (k.inc.len() + k.exc.len()) + 6;
            }
        }
        (live.len(), n + 8 * self.h.churn_ok as usize)
    }
    // ---- match validation ----
    fn validated(&self) -> Vec<(&'a OpRec, usize, usize, Kind, &'a Vec<MOut>, &'a Vec<MOut>, &'a Result<(), String>)> {
        self.h
            .recs
            .iter()
            .filter_map(|r| match (&r.what, &r.res) {
                (What::Validate { spec, ev, kind }, Res::Validated { before, after, res, .. }) => {
                    Some((r, *spec, *ev, *kind, before, after, res))
                }
                _ => None,
            })
            .collect()
    }
    fn validate_panics(&mut self) {
        for r in &self.h.recs {
            if let (What::Validate { .. }, Res::Panicked(p)) = (&r.what, &r.res) {
                self.bad("validate-panic", format!("{}: panicked: {}", op_name(r), p));
            }
        }
    }
    fn rule_of(&self, spec: usize, m: &MOut) -> &'a RuleSpec {
        &self.p.rules[self.p.scanners[spec].rules[m.rule]]
    }
    /// The requests validation of these matches calls for: (match positions, url, credential)
    fn wanted(&self, spec: usize, ms: &[MOut]) -> Vec<Want> {
        let mut out = vec![];
        for (i, m) in ms.iter().enumerate() {
            let v = m.value.clone().unwrap_or_default();
            match &self.rule_of(spec, m).mv {
                Mv::Http(h) => {
                    let eps: Vec<String> = if h.hosts.is_empty() {
                        vec![h.endpoint.clone()]
                    } else {
                        h.hosts.iter().map(|x| h.endpoint.replace("$HOST", x)).collect()
                    };
                    let mut hd: Vec<String> =
                        h.headers.iter().map(|(k, t)| format!("{}={}", k.to_lowercase(), t.replace("$MATCH", &v))).collect();
                    hd.sort();
                    for e in eps {
                        out.push(Want {
                            of: vec![i],
                            url: e,
                            cred: hd.join("&"),
                            method: ["GET", "POST", "PUT", "DELETE", "PATCH"][h.method as usize].into(),
                            timeout_ms: h.timeout_ms,
                            aws: false,
                            valid: h.valid.clone(),
                            invalid: h.invalid.clone(),
                            sendable: v.chars().all(|c| c == '\t' || (c >= ' ' && c != '\u{7f}')),
                        });
                    }
                }
                Mv::AwsId => {
                    for (j, s) in ms.iter().enumerate() {
                        if let Mv::AwsSecret { endpoint, timeout_ms } = &self.rule_of(spec, s).mv {
                            let sec = secret_of(s.value.as_deref().unwrap_or(""));
                            out.push(Want {
                                of: vec![i, j],
                                url: endpoint.clone(),
                                cred: format!("{}|{}", v, sec),
                                method: "POST".into(),
                                timeout_ms: *timeout_ms,
                                aws: true,
                                valid: vec![],
                                invalid: vec![],
                                sendable: v.chars().all(|c| c == '\t' || (' '..='~').contains(&c)),
                            });
                        }
                    }
                }
                _ => {}
            }
        }
        out
    }
    fn replies(&self, r: &OpRec, w: &Want) -> Vec<&'a NetRec> {
        self.h
            .net
            .iter()
            .filter(|n| n.url.trim_end_matches('/') == w.url.trim_end_matches('/') && n.cred == w.cred && n.t0 >= r.t0 && n.t1 <= r.t1)
            .collect()
    }
    fn statuses(&mut self) {
        let rank = |s: &str| match s {
            "Valid" => 4,
            "Error" => 3,
            "Invalid" => 2,
            "NotAvailable" => 1,
            _ => 0,
        };
        for (r, spec, _, _, before, after, res) in self.validated() {
            if res.is_err() {
                continue;
            }
            let want = self.wanted(spec, before);
            // per match position: achievable ranks
            let mut can: Vec<BTreeSet<u8>> = before
                .iter()
                .map(|m| [if self.rule_of(spec, m).mv == Mv::None { 1 } else { 0 }].into_iter().collect())
                .collect();
            for w in &want {
                let mut ks: BTreeSet<u8> = BTreeSet::new();
                for n in self.replies(r, w) {
                    ks.extend(w.kinds(n));
                }
                if ks.is_empty() {
                    ks.insert(if w.sendable { 0 } else { 3 });
                }
                for i in &w.of {
                    let mut n = BTreeSet::new();
                    for a in &can[*i] {
                        for b in &ks {
                            n.insert((*a).max(*b));
                        }
                    }
                    can[*i] = n;
                }
            }
            // match results by identity of the match (position is C10's business)
            let mut used = vec![false; after.len()];
            for (i, m) in before.iter().enumerate() {
                let Some(j) = (0..after.len()).find(|j| !used[*j] && same(&after[*j], m) && can[i].contains(&rank(&after[*j].status))) else {
                    let got = after.iter().find(|x| same(x, m)).map(|x| x.status.clone());
                    if let Some(g) = got {
                        self.v.evals += 1;
                        let reps: Vec<String> = want
                            .iter()
                            .filter(|w| w.of.contains(&i))
                            .map(|w| {
                                format!("{} {:?}", w.url, self.replies(r, w).iter().map(|n| format!("{}{}", n.status, n.err)).collect::<Vec<_>>())
                            })
                            .collect();
                        self.bad("status", format!("{}: match {:?} was given status {} but the replies were {:?}", op_name(r), m.value, g, reps));
                    }
                    continue;
                };
                used[j] = true;
                self.v.evals += 1;
                if rank(&after[j].status) >= 2 {
                    self.v.hot += 1;
                }
                self.cov(&format!("status {}", after[j].status), 1);
            }
        }
    }
    fn conserved(&mut self) {
        for (r, spec, _, _, before, after, res) in self.validated() {
            self.v.evals += 1;
            let vals = self.m.returns_values(&self.p.scanners[spec]);
            if res.is_ok() != vals {
                self.bad("validate-result", format!("{}: returned {:?}; the scanner {} validators", op_name(r), res, if vals { "has" } else { "has no" }));
                continue;
            }
            if before.len() > 1 {
                self.v.hot += 1;
            }
            let mut want: Vec<&MOut> = before.iter().collect();
            if vals {
                want.sort_by_key(|m| m.start);
            }
            let strip = |m: &MOut| MOut { status: String::new(), ..m.clone() };
            let a: Vec<MOut> = after.iter().map(strip).collect();
            let b: Vec<MOut> = want.iter().map(|m| strip(m)).collect();
            if a != b {
                let (mut x, mut y) = (a.clone(), b.clone());
                x.sort();
                y.sort();
                if x == y {
                    self.bad("order", format!("{}: validation returned the matches in the order {:?}, expected {:?}", op_name(r), a, b));
                } else {
                    self.bad("lost-match", format!("{}: {} matches before validation, {} after: before {:?} after {:?}", op_name(r), before.len(), after.len(), b, a));
                }
            }
        }
    }
    fn requests(&mut self) {
        let mut budget: BTreeMap<(String, String), usize> = BTreeMap::new();
        let mut all: Vec<(String, String)> = vec![];
        let slack = 2_000_000_000 + self.h.steps * self.p.sched.ns_per_tick;
        let total: u64 = self.h.net.iter().map(|n| n.t1 - n.t0).sum();
        let mut undecided = false;
        for r in &self.h.recs {
            if let (What::Validate { .. }, Res::Panicked(_)) = (&r.what, &r.res) {
                undecided = true;
            }
        }
        for (r, spec, _, _, before, _, res) in self.validated() {
            if res.is_err() {
                continue;
            }
            for w in self.wanted(spec, before) {
                self.v.evals += 1;
                *budget.entry((w.url.trim_end_matches('/').into(), w.cred.clone())).or_default() += 1;
                all.push((w.url.trim_end_matches('/').into(), w.cred.clone()));
                if !w.sendable {
                    continue;
                }
                self.v.hot += 1;
                let reps = self.replies(r, &w);
                if reps.is_empty() {
                    let sent: Vec<String> =
                        self.h.net.iter().filter(|n| n.t0 >= r.t0 && n.t1 <= r.t1).map(|n| format!("{} {} {}", n.url, n.cred, n.sig)).collect();
                    self.bad("no-request", format!("{}: no correct request to {} with credential {:?}; sent: {:?}", op_name(r), w.url, w.cred, sent));
                    continue;
                }
                for n in reps {
                    if n.method != w.method {
                        self.bad("method", format!("{}: {} used instead of {} for {}", op_name(r), n.method, w.method, w.url));
                    }
                    if n.timeout_ms != Some(w.timeout_ms) {
                        self.bad("timeout", format!("{}: request to {} bounded by {:?} ms, configured {} ms", op_name(r), w.url, n.timeout_ms, w.timeout_ms));
                    }
                    if w.aws {
                        let d = n.headers.iter().find(|(k, _)| k == "x-amz-date").map(|x| x.1.clone()).unwrap_or_default();
                        let t = chrono::NaiveDateTime::parse_from_str(&d, "%Y%m%dT%H%M%SZ").map(|t| t.and_utc().timestamp()).unwrap_or(0);
                        // concurrent validations may share the credential
                        let (mut lo, mut hi) = (i64::MAX, i64::MIN);
                        for q in &self.h.recs {
                            if matches!(q.what, What::Validate { .. }) && q.t0 <= n.t0 && q.t1 >= n.t1 {
                                let (a, b) = self.wall(q);
                                lo = lo.min(a);
                                hi = hi.max(b);
                            }
                        }
                        if t < lo - 1 || t > hi + 1 {
                            self.bad("aws-date", format!("{}: request dated {} while the clock showed {}..{}", op_name(r), d, lo, hi));
                        }
                    }
                }
            }
            // Requests wait for each other only for want of a pool thread. With several threads and no
            // other validation, some must overlap if each takes long.
            let alone = !self.h.recs.iter().any(|q| !std::ptr::eq(q, r) && matches!(q.what, What::Validate { .. }) && q.t0 < r.t1 && r.t0 < q.t1);
            if alone && self.p.sched.rayon >= 2 {
                let mut w: Vec<(u64, u64)> = self.h.net.iter().filter(|n| n.t0 >= r.t0 && n.t1 <= r.t1).map(|n| (n.t0, n.t1)).collect();
                w.sort();
                if w.len() >= 3 && w[..w.len() - 1].iter().all(|x| x.1 - x.0 > 150_000_000) {
                    self.cov("parallel_requests", 1);
                    if w.windows(2).all(|x| x[1].0 >= x[0].1) {
                        self.bad("serial", format!("{}: {} requests one after the other, although {} pool threads are idle: {:?} (ns)", op_name(r), w.len(), self.p.sched.rayon, w));
                    }
                }
            }
            // A validation does not wait for others while a pool thread has nothing to do.
            if self.p.sched.rayon >= 2 {
                let keys: Vec<(String, String)> =
                    self.wanted(spec, before).iter().filter(|w| w.sendable).map(|w| (w.url.trim_end_matches('/').to_string(), w.cred.clone())).collect();
                let first = self
                    .h
                    .net
                    .iter()
                    .filter(|n| n.t0 >= r.t0 && keys.iter().any(|k| k.0 == n.url.trim_end_matches('/') && k.1 == n.cred))
                    .map(|n| n.t0)
                    .min();
                if let Some(first) = first {
                    let mut at: Vec<u64> = self.h.net.iter().flat_map(|n| [n.t0, n.t1]).chain([r.t0, first]).filter(|t| *t >= r.t0 && *t <= first).collect();
                    at.sort();
                    at.dedup();
                    let mut idle = 0;
                    for w in at.windows(2) {
                        let busy = self.h.net.iter().filter(|n| n.t0 <= w[0] && n.t1 >= w[1]).count();
                        if busy < self.p.sched.rayon {
                            idle += w[1] - w[0];
                        } else {
                            self.cov("validation_waits_for_pool", 1);
                        }
                    }
                    if !alone {
                        self.cov("validations_side_by_side", 1);
                    }
                    if idle > 2 * self.h.steps * self.p.sched.ns_per_tick + 30_000_000 {
                        self.bad("starved", format!("{}: sent its first request {} ms after it was called, {} ms of it with a pool thread idle", op_name(r), (first - r.t0) / 1_000_000, idle / 1_000_000));
                    }
                }
            }
            if r.t1 - r.t0 > total + slack {
                self.bad("slow", format!("{}: took {} ms; all requests together {} ms", op_name(r), (r.t1 - r.t0) / 1_000_000, total / 1_000_000));
            }
        }
        if undecided {
            return;
        }
        let mut sent: BTreeMap<(String, String), usize> = BTreeMap::new();
        for n in &self.h.net {
            *sent.entry((n.url.trim_end_matches('/').into(), n.cred.clone())).or_default() += 1;
        }
        for (k, n) in sent {
            match budget.get(&k) {
                None => self.bad("stray-request", format!("a request to {} with {:?} ({}) belongs to no match", k.0, k.1, n)),
                Some(b) if n > *b => self.bad("extra-request", format!("{} requests to {} with {:?} for {} matches", n, k.0, k.1, b)),
                _ => {}
            }
        }
    }
    fn progress(&mut self) {
        let h = self.h;
        // held scans: an hour in the caller's callback
        let held: Vec<&OpRec> = h.recs.iter().filter(|r| r.nested == 0 && self.holds(r)).collect();
        let lim = 600_000_000_000u64;
        for r in &h.recs {
            if r.res == Res::Open || self.holds(r) {
                continue;
            }
            if let What::Validate { .. } = r.what {
                continue;
            }
            if held.iter().any(|x| x.t0 < r.t1 && r.t0 < x.t1) {
                self.v.evals += 1;
                self.v.hot += 1;
                self.cov("op_beside_held_scan", 1);
            }
            
            if r.t1 - r.t0 > lim {
                self.bad("blocked", format!("{}: took {} s of simulated time next to a scan held in its caller's callback, or a creation held in a caller's rule", op_name(r), (r.t1 - r.t0) / 1_000_000_000));
            }
        }
        // slow validation
        let vals: Vec<&OpRec> = h.recs.iter().filter(|r| matches!(r.what, What::Validate { .. })).collect();
        for r in &h.recs {
            if matches!(r.what, What::Validate { .. }) || self.holds(r) {
                continue;
            }
            for v in &vals {
                let ov = r.t1.min(v.t1).saturating_sub(r.t0.max(v.t0));
                if v.t0 < r.t1 && r.t0 < v.t1 {
                    self.v.evals += 1;
                    if v.t1 - v.t0 > 100_000_000 {
                        self.v.hot += 1;
                        self.cov("op_beside_slow_validation", 1);
                    }
                }
                let busy = 2 * h.steps * self.p.sched.ns_per_tick + 20_000_000;
                if ov > busy {
                    self.bad("blocked", format!("{}: took {} ms of simulated time next to a validation waiting for the network", op_name(r), (r.t1 - r.t0) / 1_000_000));
                    break;
                }
            }
        }
        // slow build: nobody waits on a lock for a good part of it
        if self.p.tag.contains("slow_build") {
            let big = self.p.scanners.len() - 1;
            let Some(b) = h.recs.iter().find(|r| matches!(r.what, What::Build { spec } if spec == big)) else { return };
            if self.p.prelude.is_empty() {
                return; // the first build of a process initialises statics
            }
            for r in &h.recs {
                if std::ptr::eq(r, b) || !(r.t0 < b.t1 && b.t0 < r.t1) {
                    continue;
                }
                self.v.evals += 1;
                self.v.hot += 1;
                self.cov("op_beside_slow_build", 1);
                if r.hold.1 == b.tid && r.hold.0 > b.ran / 4 {
                    self.bad("build-blocks", format!("{}: waited for a lock while its holder, building another scanner, went through {} of that build's {} steps", op_name(r), r.hold.0, b.ran));
                }
            }
        }
    }
    fn holds(&self, r: &OpRec) -> bool {
        if r.nested == 0 && matches!(self.op(r), Op::BuildSlow { .. }) {
            return true;
        }
        r.nested == 0 && matches!(r.what, What::Scan { .. }) && matches!(self.op(r), Op::Scan { hook: Hook::Sleep(_, ns), .. } if *ns > 1_000_000_000_000)
    }
    fn order_free(&mut self) {
        let mut groups: BTreeMap<(usize, String), (String, String)> = BTreeMap::new();
        for r in &self.h.recs {
            let What::Scan { spec, ev, kind, .. } = &r.what else { continue };
            if *kind == Kind::Utf16 {
                continue;
            }
            let key = (*spec, format!("{:?}", canon(&self.p.events[*ev])));
            let (hot, val) = match &r.res {
                Res::Scanned { matches, event } => {
                    let mut m = matches.clone();
                    m.sort();
                    (!m.is_empty(), format!("{:?} {:?}", m, canon(event)))
                }
                Res::Panicked(_) => (true, "a panic".to_string()),
                _ => continue,
            };
            match groups.get(&key) {
                None => {
                    groups.insert(key, (val, op_name(r)));
                }
                Some((v, who)) => {
                    self.v.evals += 1;
                    if hot {
                        self.v.hot += 1;
                    }
                    if *v != val {
                        let (v, who) = (v.clone(), who.clone());
                        self.bad("order", format!("the same event in two field orders: {} gives {}, {} gives {}", who, v, op_name(r), val));
                    }
                }
            }
        }
    }
    fn alone(&mut self, al: &Alone) {
        let scans: BTreeMap<(usize, usize), &String> = al.scans.iter().map(|(k, v)| (*k, v)).collect();
        for r in &self.h.recs {
            match (&r.what, &r.res) {
                (What::Build { spec }, x) => {
                    let got = built_str(x);
                    if let Some(w) = al.built.get(spec) {
                        self.v.evals += 1;
                        if w != "Ok(())" {
                            self.v.hot += 1;
                            self.cov("rejected", 1);
                        }
                        if *w != got {
                            self.bad("build-differs", format!("{}: {} — built alone in a fresh process: {}", op_name(r), got, w));
                        }
                    }
                }
                (What::Scan { spec, ev, kind: Kind::Ordered, blocked, .. }, x) if blocked.is_empty() => {
                    if let Some(w) = scans.get(&(*spec, *ev)) {
                        let got = scan_str(x);
                        self.v.evals += 1;
                        if w.contains("rule:") {
                            self.v.hot += 1;
                        }
                        if **w != got {
                            let w = (*w).clone();
                            self.bad("scan-differs", format!("{}: {} — alone in a fresh process: {}", op_name(r), got, w));
                        }
                    }
                }
                _ => {}
            }
        }
    }
}
pub fn built_str(r: &Res) -> String {
    match r {
        Res::Built(x) => format!("{:?}", x),
        Res::Panicked(_) => "panic".into(),
        x => format!("{:?}", x),
    }
}
pub fn scan_str(r: &Res) -> String {
    match r {
        Res::Panicked(_) => "panic".into(),
        x => format!("{:?}", x),
    }
}
struct Want {
    of: Vec<usize>,
    url: String,
    cred: String,
    method: String,
    timeout_ms: u64,
    aws: bool,
    valid: Vec<(u16, u16)>,
    invalid: Vec<(u16, u16)>,
    sendable: bool,
}
impl Want {
    /// ranks this reply may give
    fn kinds(&self, n: &NetRec) -> Vec<u8> {
        let s = n.status;
        if s == 0 {
            return vec![3];
        }
        if self.aws {
            return match s {
                200..=299 => vec![4],
                400..=499 => vec![2],
                500..=599 => vec![3],
                // neither accepted nor refused: anything but a verdict
                _ => vec![0, 3],
            };
        }
        let inr = |v: &[(u16, u16)]| v.iter().any(|(a, b)| s >= *a && s < *b);
        vec![if inr(&self.valid) {
            4
        } else if inr(&self.invalid) {
            2
        } else {
            3
        }]
    }
}
fn same(a: &MOut, b: &MOut) -> bool {
    (a.rule, &a.path, a.start, a.end, &a.value) == (b.rule, &b.path, b.start, b.end, &b.value)
}
fn secret_of(v: &str) -> String {
    let b = v.as_bytes();
    let ok = |c: u8| c.is_ascii_alphanumeric() || c == b'/' || c == b'+';
    // first run of 40 that ends at a word boundary
    let mut i = 0;
    while i + 40 <= b.len() {
        if b[i..i + 40].iter().all(|c| ok(*c)) {
            let w = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
            let l = w(b[i + 39]);
            let r = b.get(i + 40).map_or(false, |c| w(*c));
            if l != r {
                return v[i..i + 40].to_string();
            }
        }
        i += 1;
    }
    String::new()
}
/// Is this byte string a correctly encoded event? None: not specified (stray pops and such).
fn wire_ok(b: &[u8]) -> Option<bool> {
    let mut i = 0;
    let mut depth = 0i32;
    let mut odd = false;
    while i < b.len() {
        match b[i] {
            0 | 3 => {
                let Some(l) = b.get(i + 1..i + 5) else { return Some(false) };
                let n = u32::from_be_bytes(l.try_into().unwrap()) as usize;
                if b.len() < i + 5 + n {
                    return Some(false);
                }
                if b[i] == 0 {
                    depth += 1;
                }
                i += 5 + n;
            }
            1 => {
                if b.len() < i + 5 {
                    return Some(false);
                }
                depth += 1;
                i += 5;
            }
            2 => {
                depth -= 1;
                if depth < 0 {
                    odd = true;
                    depth = 0;
                }
                i += 1;
            }
            _ => return if odd { None } else { Some(false) },
        }
    }
    if odd {
        None
    } else if depth != 0 {
        None
    } else {
        Some(true)
    }
}

pub fn needs_alone(p: &Plan) -> Vec<usize> {
    match p.prop.as_str() {
        "C02" | "C07" => (0..p.scanners.len()).collect(),
        // the last one stands for the scanners of `Churn`
        "C04" if p.sched.seed % 2 == 0 => (0..p.scanners.len() + 1).collect(),
        _ => vec![],
    }
}
/// The plan whose run gives the run-alone reference of one scanner.
pub fn alone_plan(p: &Plan, spec: usize) -> Plan {
    let mut q = p.clone();
    q.sched.policy = Pol::Coop;
    q.sched.stalls = vec![];
    q.sched.clock_jumps = vec![];
    q.sched.explicit = None;
    q.sched.seed = 1;
    q.prelude = vec![Op::Build { spec, slot: 0 }];
    if p.prop == "C02" {
        for e in 0..p.events.len() {
            q.prelude.push(Op::Scan { slot: 0, ev: e, blocked: vec![], kind: Kind::Ordered, hook: Hook::None });
        }
    }
    if spec == p.scanners.len() {
        q.prelude = vec![Op::Churn { base: 55_000, n: 1, kw: true, hold: 0 }];
    }
    q.slow_exporter = (0, 0);
    q.slots = q.slots.max(1);
    q.threads = vec![];
    q.postlude = vec![];
    q.steady = None;
    q
}
pub fn add_alone(a: &mut Alone, spec: usize, h: &History) {
    let g = |n: &str| h.snap.gauges.iter().find(|g| g.0 .0 == n).map(|g| g.1.max(0.0) as u64).unwrap_or(0);
    a.gauges.insert(spec, (g("scanner.total_regexes"), g("scanner.total_regex_cache_size")));
    for r in &h.recs {
        match &r.what {
            What::Build { .. } => {
                a.built.insert(spec, built_str(&r.res));
            }
            What::Scan { ev, .. } => a.scans.push(((spec, *ev), scan_str(&r.res))),
            _ => {}
        }
    }
}

pub fn check(p: &Plan, h: &History, alone: &Alone) -> Verdict {
    let mut c = Ck { p, h, m: Model::new(p), v: Verdict::default(), lossy: p.events.iter().map(ev::lossy).collect() };
    if !c.finished() {
        return c.v;
    }
    c.memory();
    match p.prop.as_str() {
        "C01" | "C05" | "C06" => {
            c.scans();
            c.builds();
            c.breaches();
        }
        "C02" => c.alone(alone),
        "C03" => {
            c.growth("repeated builds, scans, drops and panics");
            c.churn_bound();
        }
        "C04" => {
            c.telemetry();
            c.held(alone);
        }
        "C07" => {
            c.ffi_codes(alone);
            c.ffi_scans();
            c.breaches();
            c.growth("repeated calls through the C interface");
        }
        "C08" => {
            c.ffi_scans();
            c.scans();
            c.breaches();
        }
        "C09" => {
            c.validate_panics();
            c.statuses();
        }
        "C10" => {
            c.validate_panics();
            c.conserved();
        }
        "C11" => {
            c.validate_panics();
            c.requests();
        }
        "C12" => c.progress(),
        "C13" => c.order_free(),
        _ => {}
    }
    c.v
}
