//! Runs one plan inside the simulator and records its history.
use crate::ev::{self, SimEvent, Utf16};
use crate::model::MOut;
use crate::net::{self, NetRec};
use crate::plan::*;
use crate::rec;
use dd_sds::*;
use detsim::{alloc, sched};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::ffi::{c_char, c_void, CString};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicPtr, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

/// allocation tag of everything the harness itself keeps
pub const HARNESS: u16 = 1;
pub const SIM_PANIC: &str = "SIM-PANIC";

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum What {
    Scan { spec: usize, ev: usize, blocked: Vec<usize>, kind: Kind, planned_panic: bool },
    Validate { spec: usize, ev: usize, kind: Kind },
    Build { spec: usize },
    Drop,
    FfiBuild { spec: usize },
    FfiScan { spec: usize, ev: usize },
    FfiBad,
    Other,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Res {
    /// still running when the run ended
    Open,
    Skipped,
    Done,
    Panicked(String),
    Built(Result<(), String>),
    Scanned { matches: Vec<MOut>, event: Node },
    Validated { before: Vec<MOut>, after: Vec<MOut>, event: Node, res: Result<(), String> },
    Code(i64, Option<String>),
    FfiScanned { matches: Vec<MOut>, event: Node, mutated: Vec<String>, err: Option<String>, bad: Option<String> },
    Mark { v: u64, blocks: u64, bytes: u64, peak: u64 },
    Churned { peaks: Vec<u64>, low: u64, failed: u32 },
    /// regexes and bytes of their caches, as reported
    Gauges { n: f64, bytes: f64 },
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct OpRec {
    pub th: usize,
    pub op: usize,
    pub nested: u8,
    pub what: What,
    pub res: Res,
    pub t0: u64,
    pub t1: u64,
    pub s0: u64,
    pub s1: u64,
    pub w0: i64,
    pub w1: i64,
    /// when the scanner was given each string of the event
    pub seen: Vec<ev::Seen>,
    pub ran: u64,
    /// simulated thread
    pub tid: u16,
    /// longest wait on a lock, in steps its holder ran meanwhile; the holder
    pub hold: (u64, u16),
    /// how many equal operations this record stands for
    pub times: u32,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct History {
    pub outcome: String,
    pub recs: Vec<OpRec>,
    pub net: Vec<NetRec>,
    pub jumps: Vec<(u64, i64, i64)>,
    pub snap: rec::Snap,
    pub live: usize,
    pub live_specs: Vec<usize>,
    pub breaches: Vec<String>,
    pub misuse: Option<String>,
    pub counts: Vec<(String, u64)>,
    pub threads_desc: String,
    pub steps: u64,
    pub switches: u64,
    pub preempts: u64,
    pub conflicts: u64,
    pub time_ns: u64,
    pub spurious: u64,
    pub stalls: u64,
    pub trace_hash: u64,
    pub inter_hash: u64,
    pub nthreads: u64,
    pub trace_complete: bool,
    pub churn_ok: u64,
    pub first_mark_total: u64,
}

pub struct World {
    pub plan: Plan,
    pub fresh: AtomicU64,
    pub slots: Vec<Mutex<Option<(usize, Arc<Scanner>)>>>,
    pub ffi: Vec<Mutex<Option<FfiSlot>>>,
    pub lists: Vec<Mutex<i64>>,
    pub marks: Mutex<Vec<u64>>,
    pub recs: Mutex<Vec<OpRec>>,
    pub net: Mutex<Vec<NetRec>>,
    pub jumps: Mutex<Vec<(u64, i64, i64)>>,
    pub breaches: Mutex<Vec<String>>,
    pub counts: Mutex<Vec<(String, u64)>>,
    pub rec: &'static rec::Rec,
    pub churn_built: AtomicI64,
}
pub struct FfiSlot {
    pub spec: usize,
    pub id: Arc<FfiScanner>,
}
/// Deletes the scanner when the last user is done (like the Go finalizer).
pub struct FfiScanner(pub i64);
impl Drop for FfiScanner {
    fn drop(&mut self) {
        dd_sds_go::delete_scanner::delete_scanner(self.0)
    }
}

static WORLD: AtomicPtr<World> = AtomicPtr::new(std::ptr::null_mut());
pub fn world() -> &'static World {
    unsafe { &*WORLD.load(SeqCst) }
}
thread_local! {
    static ME: Cell<(usize, usize)> = const { Cell::new((0, 0)) };
}
/// Run harness bookkeeping: its allocations are not the library's.
pub fn bk<T>(f: impl FnOnce() -> T) -> T {
    let old = alloc::set_tag(HARNESS);
    let r = f();
    alloc::set_tag(old);
    r
}
pub fn breach(s: &str) {
    bk(|| {
        let mut b = world().breaches.lock().unwrap();
        if b.len() < 8 {
            b.push(s.to_string())
        }
    });
}
pub fn count(k: &str) {
    bk(|| {
        let mut c = world().counts.lock().unwrap();
        match c.iter_mut().find(|x| x.0 == k) {
            Some(x) => x.1 += 1,
            None => c.push((k.to_string(), 1)),
        }
    });
}
/// What the library (and the caller's own scanners and events) hold.
pub fn lib_mem() -> (u64, u64) {
    (
        alloc::live_blocks() - alloc::tag_live(HARNESS) as u64,
        alloc::live_bytes() - alloc::tag_bytes(HARNESS),
    )
}

// ---- configuration conversion -------------------------------------------

fn path(p: &PathSpec) -> Path<'static> {
    Path {
        segments: p
            .iter()
            .map(|s| match s {
                Seg::F(f) => PathSegment::Field(f.clone().into()),
                Seg::I(i) => PathSegment::Index(*i),
            })
            .collect(),
    }
}
fn paths(p: &[PathSpec]) -> Vec<Path<'static>> {
    p.iter().map(path).collect()
}
fn scope(s: &ScopeSpec) -> Scope {
    match s {
        ScopeSpec::All => Scope::all(),
        ScopeSpec::Include(a, b) if b.is_empty() => Scope::include(paths(a)),
        ScopeSpec::Include(a, b) => Scope::include_and_exclude(paths(a), paths(b)),
        ScopeSpec::Exclude(b) => Scope::exclude(paths(b)),
    }
}
fn action(a: &Act) -> MatchAction {
    match a {
        Act::None => MatchAction::None,
        Act::Redact(s) => MatchAction::Redact { replacement: s.clone() },
        Act::Hash => MatchAction::Hash,
        Act::First(n) => MatchAction::PartialRedact { direction: PartialRedactDirection::FirstCharacters, character_count: *n },
        Act::Last(n) => MatchAction::PartialRedact { direction: PartialRedactDirection::LastCharacters, character_count: *n },
    }
}
fn labels(l: &[(String, String)]) -> Labels {
    Labels::new(l)
}
pub fn ranges(v: &[(u16, u16)]) -> Vec<std::ops::Range<u16>> {
    v.iter().map(|(a, b)| *a..*b).collect()
}
fn mv(m: &Mv) -> Option<MatchValidationType> {
    Some(match m {
        Mv::None => return None,
        Mv::AwsId => MatchValidationType::Aws(AwsType::AwsId),
        Mv::AwsSession => MatchValidationType::Aws(AwsType::AwsSession),
        Mv::AwsSecret { endpoint, timeout_ms } => MatchValidationType::Aws(AwsType::AwsSecret(AwsConfig {
            aws_sts_endpoint: endpoint.clone(),
            forced_datetime_utc: None,
            timeout: std::time::Duration::from_millis(*timeout_ms),
        })),
        Mv::Http(h) => {
            let mut b = HttpValidatorConfigBuilder::new(h.endpoint.clone());
            b.set_hosts(h.hosts.clone());
            b.set_method(match h.method {
                0 => HttpMethod::Get,
                1 => HttpMethod::Post,
                2 => HttpMethod::Put,
                3 => HttpMethod::Delete,
                _ => HttpMethod::Patch,
            });
            b.set_request_header(
                h.headers.iter().map(|(k, v)| RequestHeader { key: k.clone(), value: v.clone() }).collect(),
            );
            b.set_valid_http_status_code(ranges(&h.valid));
            b.set_invalid_http_status_code(ranges(&h.invalid));
            b.set_timeout(std::time::Duration::from_millis(h.timeout_ms));
            MatchValidationType::CustomHttp(b.build().expect("http config"))
        }
    })
}
pub fn rule(r: &RuleSpec) -> Arc<dyn RuleConfig> {
    if r.once {
        return Arc::new(OnceCfg { lit: r.p.clone(), act: action(&r.act), scope: scope(&r.scope), boom: None });
    }
    let mut c = RegexRuleConfig::new(&r.p).match_action(action(&r.act)).scope(scope(&r.scope)).labels(labels(&r.labels));
    if let Some(k) = &r.kw {
        c = c.proximity_keywords(ProximityKeywordsConfig {
            look_ahead_character_count: k.ahead,
            included_keywords: k.inc.clone(),
            excluded_keywords: k.exc.clone(),
        });
    }
    match r.val {
        Val::None => {}
        Val::Luhn => c = c.validator(SecondaryValidator::LuhnChecksum),
        Val::Jwt => c = c.validator(SecondaryValidator::JwtExpirationChecker),
        Val::ChineseId => c = c.validator(SecondaryValidator::ChineseIdChecksum),
        Val::Github => c = c.validator(SecondaryValidator::GithubTokenChecksum),
        Val::Iban => c = c.validator(SecondaryValidator::IbanChecker),
        Val::Nhs => c = c.validator(SecondaryValidator::NhsCheckDigit),
        Val::Nir => c = c.validator(SecondaryValidator::NirChecksum),
    }
    if let Some(m) = mv(&r.mv) {
        c = c.match_validation_type(m);
    }
    c.build()
}

/// A caller-implemented rule with per-scan state.
struct OnceCfg {
    lit: String,
    act: MatchAction,
    scope: Scope,
    /// conversion panics (0) or takes that long
    boom: Option<u64>,
}
struct OnceRule {
    idx: usize,
    lit: String,
    act: MatchAction,
    scope: Scope,
}
#[derive(Default)]
pub struct OnceCache(Vec<usize>);
#[derive(Default)]
pub struct OnceGroup(usize);
impl RuleConfig for OnceCfg {
    fn convert_to_compiled_rule(&self, i: usize, _: Labels) -> Result<Box<dyn CompiledRuleDyn>, CreateScannerError> {
        match self.boom {
            Some(0) => {
                count("panic_in_rule_config");
                std::panic::panic_any(SIM_PANIC);
            }
            Some(ns) => {
                count("slow_rule_config");
                detsim::sched::sleep_ns(ns)
            }
            None => {}
        }
        Ok(Box::new(OnceRule { idx: i, lit: self.lit.clone(), act: self.act.clone(), scope: self.scope.clone() }))
    }
    fn get_match_validation_type(&self) -> Option<&MatchValidationType> {
        None
    }
}
impl CompiledRule for OnceRule {
    type GroupData = OnceGroup;
    type GroupConfig = usize;
    type RuleScanCache = OnceCache;
    fn create_group_data(_: &Labels) -> OnceGroup {
        OnceGroup(0)
    }
    fn create_group_config() -> usize {
        0
    }
    fn create_rule_scan_cache() -> OnceCache {
        OnceCache(vec![])
    }
    fn get_match_action(&self) -> &MatchAction {
        &self.act
    }
    fn get_scope(&self) -> &Scope {
        &self.scope
    }
    fn get_string_matches(
        &self,
        content: &str,
        _path: &Path,
        _rc: &mut RegexCaches,
        group: &mut OnceGroup,
        cfg: &usize,
        cache: &mut OnceCache,
        ex: &ExclusionCheck<'_>,
        _em: &mut ahash::AHashSet<String>,
        emit: &mut dyn MatchEmitter,
        _tp: &[usize],
        _kws: bool,
    ) where
        Self: Sized,
    {
        // per-string data: each rule of this kind runs at most once per string
        group.0 += 1;
        if group.0 > *cfg {
            breach("per-string group data survived from another string");
        }
        if content.contains("BOOM!") {
            count("panic_in_rule");
            std::panic::panic_any(SIM_PANIC);
        }
        if ex.is_excluded(self.idx) || cache.0.contains(&self.idx) || !content.contains(&self.lit) {
            return;
        }
        cache.0.push(self.idx);
        for (s, _) in content.match_indices(&self.lit) {
            emit.emit(StringMatch { start: s, end: s + self.lit.len() });
        }
    }
    fn get_match_validation_type(&self) -> Option<&MatchValidationType> {
        None
    }
    fn get_internal_match_validation_type(&self) -> Option<&InternalMatchValidationType> {
        None
    }
    fn process_scanner_config(&self, c: &mut usize) {
        *c += 1;
    }
}

pub fn build(spec: &ScannerSpec, rules: &[RuleSpec], boom: Option<u64>) -> Result<Scanner, String> {
    let (mut cfg, lab) = bk(|| {
        let v: Vec<Arc<dyn RuleConfig>> = spec.rules.iter().map(|&r| rule(&rules[r])).collect();
        (v, labels(&spec.labels))
    });
    if boom.is_some() {
        cfg.push(Arc::new(OnceCfg { lit: "x".into(), act: MatchAction::None, scope: Scope::all(), boom }));
    }
    let r = Scanner::builder(&cfg)
        .labels(lab)
        .with_multipass_v0(spec.multipass)
        .with_implicit_wildcard_indexes_for_scopes(spec.wild)
        .with_keywords_should_match_event_paths(spec.kwpaths)
        .build();
    bk(|| r.map_err(|e| format!("{:?}", e)))
}

// ---- operations ------------------------------------------------------------

fn status_kind(s: &MatchStatus) -> String {
    match s {
        MatchStatus::NotChecked => "NotChecked",
        MatchStatus::NotAvailable => "NotAvailable",
        MatchStatus::Invalid => "Invalid",
        MatchStatus::Error(_) => "Error",
        MatchStatus::Valid => "Valid",
    }
    .into()
}
fn mout(m: &RuleMatch) -> MOut {
    MOut {
        rule: m.rule_index,
        path: m.path.to_string(),
        repl: m.replacement_type.to_string(),
        start: m.start_index,
        end: m.end_index_exclusive,
        shift: m.shift_offset,
        value: m.match_value.clone(),
        status: status_kind(&m.match_status),
    }
}
fn panic_msg(e: Box<dyn std::any::Any + Send>) -> String {
    bk(|| {
        let m = if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        drop(e);
        m
    })
}
struct Start {
    idx: usize,
    ran: u64,
}
fn begin(what: What, nested: u8) -> Start {
    let me = sched::cur();
    bk(|| {
        let (th, op) = ME.with(|m| m.get());
        let mut r = world().recs.lock().unwrap();
        r.push(OpRec {
            th,
            op,
            nested,
            what,
            res: Res::Open,
            t0: sched::now_ns(),
            t1: 0,
            s0: sched::seq(),
            s1: 0,
            w0: sched::wall_s(),
            w1: 0,
            ran: 0,
            tid: me as u16,
            hold: (0, 0),
            times: 1,
            seen: vec![],
        });
        Start { idx: r.len() - 1, ran: sched::ran(me) }
    })
}
fn end(s: Start, res: Res) {
    let me = sched::cur();
    bk(|| {
        let (ran, hold) = (sched::ran(me) - s.ran, sched::take_hold(me));
        let mut r = world().recs.lock().unwrap();
        let x = &mut r[s.idx];
        // a copy of the harness's own: parts of the result may be library memory
        x.res = res.clone();
        drop(res);
        x.t1 = sched::now_ns();
        x.s1 = sched::seq();
        x.w1 = sched::wall_s();
        x.ran = ran;
        x.hold = hold;
    })
}
fn take(slot: usize) -> Option<(usize, Arc<Scanner>)> {
    world().slots[slot].lock().unwrap().clone()
}

fn do_scan(sc: &Scanner, n: &Node, blocked: &[usize], kind: Kind, hook: &Hook) -> (Vec<RuleMatch>, Node, Vec<ev::Seen>) {
    let blocked = bk(|| blocked.to_vec());
    // a caller that holds text has replaced invalid bytes
    let n = &bk(|| ev::lossy(n));
    match kind {
        Kind::Simple | Kind::Ffi => {
            let mut e = bk(|| ev::to_simple(n));
            let m = sc.scan(&mut e, blocked);
            (m, bk(|| ev::from_simple(&e)), vec![])
        }
        Kind::Json => {
            let mut e = bk(|| ev::to_json(n));
            let m = sc.scan(&mut e, blocked);
            (m, bk(|| ev::from_json(&e)), vec![])
        }
        Kind::Hash => {
            let mut e: std::collections::HashMap<String, serde_json::Value> = bk(|| match ev::to_json(n) {
                serde_json::Value::Object(m) => m.into_iter().collect(),
                x => std::iter::once((String::from("message"), x)).collect(),
            });
            let m = sc.scan(&mut e, blocked);
            (m, bk(|| Node::M(e.iter().map(|(k, v)| (k.clone(), ev::from_json(v))).collect())), vec![])
        }
        Kind::Binary => {
            let bytes = bk(|| {
                let mut d = vec![];
                ev::encode(n, &mut d);
                d
            });
            let mut e = sds_bindings_utils::BinaryEvent::<Utf8Encoding>::new(bytes, true);
            let m = sc.scan(&mut e, blocked);
            let resp = sds_bindings_utils::encode_response(&e.storage, &m);
            drop(e);
            let r = bk(|| {
                let Some(resp) = &resp else { return n.clone() };
                match ev::decode(resp, n) {
                    Ok(d) if d.matches.len() == m.len() => d.event,
                    Ok(d) => panic!("the response holds {} of {} matches", d.matches.len(), m.len()),
                    Err(x) => panic!("the response cannot be decoded: {}", x),
                }
            });
            (m, r, vec![])
        }
        Kind::Ordered => {
            let mut e: SimEvent<Utf8Encoding> = bk(|| SimEvent::new(n.clone(), hook.clone()));
            let m = sc.scan(&mut e, blocked);
            (m, e.root, e.seen)
        }
        Kind::Utf16 => {
            let mut e: SimEvent<Utf16> = bk(|| SimEvent::new(n.clone(), hook.clone()));
            let m = sc.scan(&mut e, blocked);
            (m, e.root, e.seen)
        }
    }
}
pub fn scan_op(slot: usize, evi: usize, blocked: &[usize], kind: Kind, hook: &Hook, nested: u8) {
    let Some((spec, sc)) = take(slot) else { return };
    scan_core(spec, sc, evi, blocked, kind, hook, nested)
}
fn scan_core(spec: usize, sc: Arc<Scanner>, evi: usize, blocked: &[usize], kind: Kind, hook: &Hook, nested: u8) {
    let w = world();
    let s = begin(
        bk(|| What::Scan { spec, ev: evi, blocked: blocked.to_vec(), kind, planned_panic: matches!(hook, Hook::Panic(_)) }),
        nested,
    );
    let r = catch_unwind(AssertUnwindSafe(move || {
        let r = do_scan(&sc, &w.plan.events[evi], blocked, kind, hook);
        drop(sc);
        r
    }));
    match r {
        Ok((m, e, seen)) => {
            let ms: Vec<MOut> = bk(|| m.iter().map(mout).collect());
            drop(m);
            bk(|| world().recs.lock().unwrap()[s.idx].seen = seen);
            end(s, Res::Scanned { matches: ms, event: e });
        }
        Err(e) => {
            let p = panic_msg(e);
            end(s, Res::Panicked(p))
        }
    }
}
/// Many scans in a row; equal scans must have equal results. One record per kind of scan.
fn burst(slot: usize, n: u32, ffi: bool) {
    let w = world();
    let ne = w.plan.events.len();
    count("burst");
    let mut first: Vec<Option<(Start, u32, String, Res)>> = bk(|| (0..ne).map(|_| None).collect());
    if ffi {
        let Some((spec, id)) = w.ffi[slot].lock().unwrap().as_ref().map(|f| (f.spec, f.id.clone())) else { return };
        for i in 0..n as usize {
            let ev = i % ne;
            let s = if first[ev].is_none() { Some(begin(What::FfiScan { spec, ev }, 0)) } else { None };
            let (data, seen) = bk(|| {
                let n = &w.plan.events[ev];
                let mut d = vec![];
                ev::encode(n, &mut d);
                (d, ev::lossy(n))
            });
            let r = match catch_unwind(AssertUnwindSafe(|| ffi_scan(id.0, &data, Some(&seen)))) {
                Ok(r) => r,
                Err(e) => Res::Panicked(panic_msg(e)),
            };
            bk(|| keep(&mut first[ev], s, r));
        }
    } else {
        let Some((spec, sc)) = take(slot) else { return };
        for i in 0..n as usize {
            let ev = i % ne;
            let s = if first[ev].is_none() {
                Some(begin(bk(|| What::Scan { spec, ev, blocked: vec![], kind: Kind::Ordered, planned_panic: false }), 0))
            } else {
                None
            };
            let r = match catch_unwind(AssertUnwindSafe(|| do_scan(&sc, &w.plan.events[ev], &[], Kind::Ordered, &Hook::None))) {
                Ok((m, e, _)) => {
                    let ms: Vec<MOut> = bk(|| m.iter().map(mout).collect());
                    drop(m);
                    Res::Scanned { matches: ms, event: e }
                }
                Err(e) => Res::Panicked(panic_msg(e)),
            };
            bk(|| keep(&mut first[ev], s, r));
        }
        drop(sc);
    }
    for f in first.into_iter().flatten() {
        let (s, times, _, r) = f;
        bk(|| world().recs.lock().unwrap()[s.idx].times = times);
        end(s, r);
    }
}
fn keep(f: &mut Option<(Start, u32, String, Res)>, s: Option<Start>, r: Res) {
    let t = format!("{:?}", r);
    match f {
        None => *f = Some((s.unwrap(), 1, t, r)),
        Some(x) => {
            x.1 += 1;
            if x.2 != t {
                breach("the same scan of the same event by the same scanner had different results");
            }
        }
    }
}
fn build_rec(spec: usize, boom: Option<u64>, nested: u8) -> Option<Scanner> {
    let w = world();
    let s = begin(if boom.is_some() { What::Other } else { What::Build { spec } }, nested);
    let r = catch_unwind(AssertUnwindSafe(|| build(&w.plan.scanners[spec], &w.plan.rules, boom)));
    match r {
        Ok(Ok(sc)) => {
            end(s, Res::Built(Ok(())));
            Some(sc)
        }
        Ok(Err(e)) => {
            end(s, Res::Built(Err(e)));
            None
        }
        Err(e) => {
            let p = panic_msg(e);
            end(s, Res::Panicked(p));
            None
        }
    }
}
/// The event with field names and values that never occurred before.
fn fresh(n: &Node, k: u64) -> Node {
    match n {
        Node::S(s) => Node::S(format!("{} {}{}", s, s.split(' ').next().unwrap_or(""), k)),
        Node::L(l) => Node::L(l.iter().map(|c| fresh(c, k)).collect()),
        Node::M(m) => Node::M(m.iter().map(|(f, c)| (format!("{}{}", f, k), fresh(c, k))).collect()),
    }
}
pub fn nested_build(spec: usize) {
    drop(build_rec(spec, None, 1));
}

/// JSON for a rule, in the shape the Go binding produces (plus scope and labels).
pub fn rule_json(r: &RuleSpec) -> String {
    use serde_json::json;
    let act = match &r.act {
        Act::None => json!({"type":"None","match_action":"None"}),
        Act::Redact(s) => json!({"type":"Redact","match_action":"Redact","replacement":s}),
        Act::Hash => json!({"type":"Hash","match_action":"Hash"}),
        Act::First(n) => json!({"type":"PartialRedact","match_action":"PartialRedact","character_count":n,"direction":"FirstCharacters"}),
        Act::Last(n) => json!({"type":"PartialRedact","match_action":"PartialRedact","character_count":n,"direction":"LastCharacters"}),
    };
    let mut j = json!({"id":"r","pattern":r.p,"match_action":act});
    if let Some(k) = &r.kw {
        let f = |v: &Vec<String>| if v.is_empty() { serde_json::Value::Null } else { json!(v) };
        j["proximity_keywords"] =
            json!({"look_ahead_character_count":k.ahead,"included_keywords":f(&k.inc),"excluded_keywords":f(&k.exc)});
    }
    match r.val {
        Val::None => {}
        Val::Luhn => j["validator"] = json!({"type":"LuhnChecksum"}),
        Val::Jwt => j["validator"] = json!({"type":"JwtExpirationChecker"}),
        Val::ChineseId => j["validator"] = json!({"type":"ChineseIdChecksum"}),
        Val::Github => j["validator"] = json!({"type":"GithubTokenChecksum"}),
        Val::Iban => j["validator"] = json!({"type":"IbanChecker"}),
        Val::Nhs => j["validator"] = json!({"type":"NhsCheckDigit"}),
        Val::Nir => j["validator"] = json!({"type":"NirChecksum"}),
    }
    if !r.labels.is_empty() {
        j["labels"] = json!(r.labels.iter().map(|(a, b)| vec![a, b]).collect::<Vec<_>>());
    }
    let pj = |p: &PathSpec| {
        json!({"segments": p.iter().map(|s| match s {
            Seg::F(f) => json!({"type":"Field","value":f}),
            Seg::I(i) => json!({"type":"Index","value":i}),
        }).collect::<Vec<_>>()})
    };
    match &r.scope {
        ScopeSpec::All => {}
        ScopeSpec::Include(a, b) => {
            j["scope"] = json!({"type":"Include","paths":{"include":a.iter().map(pj).collect::<Vec<_>>(),"exclude":b.iter().map(pj).collect::<Vec<_>>()}})
        }
        ScopeSpec::Exclude(b) => j["scope"] = json!({"type":"Exclude","paths":b.iter().map(pj).collect::<Vec<_>>()}),
    }
    j.to_string()
}
mod native {
    pub use dd_sds_go::create_scanner::create_scanner;
    pub use dd_sds_go::rule::*;
    pub use dd_sds_go::scan::*;
}
fn take_err(p: *const c_char) -> Option<String> {
    if p.is_null() {
        return None;
    }
    let s = bk(|| unsafe { std::ffi::CStr::from_ptr(p) }.to_string_lossy().into_owned());
    native::free_string(p);
    Some(s)
}
fn ffi_rules(spec: &ScannerSpec) -> Vec<i64> {
    let js: Vec<CString> =
        bk(|| spec.rules.iter().map(|&r| CString::new(rule_json(&world().plan.rules[r])).unwrap()).collect());
    let mut out = bk(|| Vec::with_capacity(js.len()));
    for (k, j) in js.iter().enumerate() {
        // a rule that is listed twice is created once
        match spec.rules[..k].iter().position(|x| *x == spec.rules[k]) {
            Some(i) => {
                let h = out[i];
                out.push(h)
            }
            None => out.push(native::create_regex_rule(j.as_ptr())),
        }
    }
    out
}
fn ffi_free_rules(rules: &[i64]) {
    for (k, r) in rules.iter().enumerate() {
        if *r > 0 && !rules[..k].contains(r) {
            native::free_any_rule(*r);
        }
    }
}
fn ffi_build(spec: usize, free_early: bool) -> Result<FfiScanner, (i64, Option<String>)> {
    let sp = &world().plan.scanners[spec];
    let rules = ffi_rules(sp);
    if let Some(bad) = rules.iter().find(|r| **r < 0) {
        let code = *bad;
        ffi_free_rules(&rules);
        return Err((code, None));
    }
    let list = native::create_rule_list();
    for r in &rules {
        native::append_rule_to_list(*r, list);
    }
    if free_early {
        ffi_free_rules(&rules);
    }
    let mut err: *const c_char = std::ptr::null();
    let id = native::create_scanner(list, &mut err, sp.kwpaths);
    native::free_rule_list(list);
    if !free_early {
        ffi_free_rules(&rules);
    }
    let e = take_err(err);
    if id > 0 {
        Ok(FfiScanner(id))
    } else {
        Err((id, e))
    }
}
fn ffi_scan(id: i64, data: &[u8], ev: Option<&Node>) -> Res {
    let (mut n, mut cap) = (-7i64, -7i64);
    let mut err: *const c_char = std::ptr::null();
    let p = native::scan(id, data.as_ptr() as *const c_void, data.len() as i64, &mut n, &mut cap, &mut err);
    let mut bad = None;
    let e = take_err(err);
    let mut out = (vec![], ev.cloned().unwrap_or(Node::S(String::new())), vec![]);
    if p.is_null() {
        if n != 0 || cap != 0 {
            bad = Some("null response with a size".to_string());
        }
    } else if n <= 0 || cap < n || !alloc::is_live_range(p as usize, n as usize) {
        bad = Some("response pointer, size and capacity do not describe a live buffer".to_string());
    } else {
        let bytes = bk(|| unsafe { std::slice::from_raw_parts(p as *const u8, n as usize) }.to_vec());
        native::free_vec(p, n, cap);
        bk(|| match ev {
            Some(ev) => match ev::decode(&bytes, ev) {
                Ok(d) => out = (d.matches, d.event, d.mutated),
                Err(x) => bad = Some(x),
            },
            None => {}
        });
    }
    Res::FfiScanned { matches: out.0, event: out.1, mutated: out.2, err: e, bad }
}

fn run_op(o: &Op) {
    let w = world();
    match o {
        Op::Build { spec, slot } => {
            if let Some(sc) = build_rec(*spec, None, 0) {
                let old = {
                    let sc = Arc::new(sc);
                    std::mem::replace(&mut *w.slots[*slot].lock().unwrap(), Some((*spec, sc)))
                };
                drop_rec(old);
            }
        }
        Op::BuildSlow { spec, ns } => drop(build_rec(*spec, Some(*ns), 0)),
        Op::BuildBoom { spec } => drop(build_rec(*spec, Some(0), 0)),
        Op::Owned { spec, ev, n } => {
            if let Some(sc) = build_rec(*spec, None, 0) {
                count("scanner dropped by a panic");
                let sc = bk(|| Arc::new(sc));
                scan_core(*spec, sc, *ev, &[], Kind::Ordered, &Hook::Panic(*n), 0);
            }
        }
        Op::Drop { slot } => {
            let old = w.slots[*slot].lock().unwrap().take();
            drop_rec(old);
        }
        Op::Scan { slot, ev, blocked, kind, hook } => scan_op(*slot, *ev, blocked, *kind, hook, 0),
        Op::Validate { slot, ev, kind } => {
            let Some((spec, sc)) = take(*slot) else { return };
            let s = begin(What::Validate { spec, ev: *ev, kind: *kind }, 0);
            let r = catch_unwind(AssertUnwindSafe(|| {
                let (mut m, e, _) = do_scan(&sc, &w.plan.events[*ev], &[], *kind, &Hook::None);
                let before: Vec<MOut> = bk(|| m.iter().map(mout).collect());
                let r = sc.validate_matches(&mut m);
                bk(|| (before, m.iter().map(mout).collect::<Vec<_>>(), e, r.map_err(|e| format!("{:?}", e))))
            }));
            match r {
                Ok((before, after, event, res)) => end(s, Res::Validated { before, after, event, res }),
                Err(e) => {
                    let p = panic_msg(e);
                    end(s, Res::Panicked(p))
                }
            }
            drop(sc);
        }
        Op::Churn { base, n, kw, hold } => {
            let s = begin(What::Other, 0);
            let mut failed = 0;
            let mut peaks = bk(|| Vec::with_capacity(*n as usize / 200 + 2));
            let mut peak = 0;
            let mut low = u64::MAX;
            let mut held: Option<Scanner> = None;
            for i in 0..*n {
                if *hold > 0 && i % 400 == 0 {
                    drop(held.take());
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        let cfg: Vec<Arc<dyn RuleConfig>> = (0..*hold).map(|k| RegexRuleConfig::new(&format!("h{}h", k)).build() as Arc<dyn RuleConfig>).collect();
                        Scanner::builder(&cfg).build().ok()
                    }));
                    held = r.ok().flatten();
                }
                if *hold > 0 && i % 100 == 99 {
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        let mut e = format!("h0h h{}h h{}h", hold - 1, hold);
                        held.as_ref().map(|h| h.scan(&mut e, vec![]).len())
                    }));
                    if !matches!(r, Ok(Some(k)) if k == 1 + (*hold > 1) as usize) {
                        failed += 1;
                    }
                }
                let lit = bk(|| format!("z{}q", base + i as u64));
                let text = bk(|| format!("kz{} {} and z{}q", base + i as u64, lit, base + i as u64 + 1));
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let mut c = RegexRuleConfig::new(&lit);
                    if *kw {
                        c = c.proximity_keywords(ProximityKeywordsConfig {
                            look_ahead_character_count: 30,
                            included_keywords: vec![format!("kz{}", base + i as u64)],
                            excluded_keywords: vec![],
                        });
                    }
                    let cfg: [Arc<dyn RuleConfig>; 1] = [c.build()];
                    let sc = Scanner::builder(&cfg).build().ok()?;
                    let mut e = text.clone();
                    Some(sc.scan(&mut e, vec![]).len())
                }));
                if !matches!(r, Ok(Some(1))) {
                    failed += 1;
                }
                let now = lib_mem().1;
                peak = peak.max(now);
                low = low.min(now);
                if i % 200 == 199 {
                    bk(|| peaks.push(peak));
                    peak = 0;
                }
            }
            drop(held);
            w.churn_built.fetch_add(*n as i64, SeqCst);
            end(s, Res::Churned { peaks, low, failed });
        }
        Op::Spawn { n, ops } => {
            let me = ME.with(|m| m.get());
            // the plan outlives every thread
            let ops: &'static [Op] = unsafe { &*(ops.as_slice() as *const [Op]) };
            let mut hs = bk(|| Vec::with_capacity(*n));
            for _ in 0..*n {
                bk(|| {
                    hs.push(
                        std::thread::Builder::new()
                            .stack_size(1 << 20)
                            .spawn(move || {
                                ME.with(|m| m.set(me));
                                for o in ops {
                                    run_op(o);
                                }
                            })
                            .unwrap(),
                    );
                });
                count("short_lived_thread");
            }
            for h in hs {
                let _ = h.join();
            }
        }
        Op::Burst { slot, n, ffi } => burst(*slot, *n, *ffi),
        Op::FreshScan { slot, ev, n } => {
            let Some((_, sc)) = take(*slot) else { return };
            let s = begin(What::Other, 0);
            let mut res = Res::Done;
            for _ in 0..*n {
                let e = bk(|| fresh(&w.plan.events[*ev], w.fresh.fetch_add(1, SeqCst)));
                match catch_unwind(AssertUnwindSafe(|| do_scan(&sc, &e, &[], Kind::Ordered, &Hook::None))) {
                    Ok((m, e, _)) => {
                        drop(m);
                        drop(e);
                    }
                    Err(e) => res = Res::Panicked(panic_msg(e)),
                }
                bk(|| drop(e));
            }
            end(s, res);
            drop(sc);
        }
        Op::FreshBuild { spec, ev, what } => {
            let s = begin(What::Other, 0);
            let k = w.fresh.fetch_add(1, SeqCst);
            let (sp, rules) = bk(|| {
                let mut sp = w.plan.scanners[*spec].clone();
                let mut rules = w.plan.rules.clone();
                if *what == 1 {
                    sp.labels.push((format!("fresh{}", k), format!("v{}", k)));
                }
                for i in &sp.rules {
                    let r = &mut rules[*i];
                    if r.once && *what >= 4 {
                        continue;
                    }
                    match what {
                        4 => r.p = format!("fresh{}(", k),
                        6 | 7 => {
                            r.mv = Mv::Http(HttpSpec {
                                endpoint: format!("https://fresh{}.example/", k),
                                hosts: vec![],
                                method: 0,
                                headers: vec![("X-Key".into(), "$MATCH".into())],
                                valid: vec![(200, 300)],
                                invalid: vec![(400, 500)],
                                timeout_ms: 100,
                            })
                        }
                        5 => r.kw = Some(Kw { ahead: 5, inc: vec![format!("fresh{:09}", k)], exc: vec![] }),
                        0 => r.labels = vec![(format!("fresh{}", k), format!("v{}", k))],
                        2 => r.act = Act::Redact(format!("[R{}]", k)),
                        3 => r.scope = ScopeSpec::Exclude(vec![vec![Seg::F(format!("fresh{}", k)), Seg::I(k as usize)]]),
                        _ => {}
                    }
                }
                (sp, rules)
            });
            let r = catch_unwind(AssertUnwindSafe(|| {
                if let Ok(sc) = build(&sp, &rules, None) {
                    let (mut m, e, _) = do_scan(&sc, &w.plan.events[*ev], &[], Kind::Ordered, &Hook::None);
                    if *what == 7 {
                        m.truncate(3);
                        let _ = sc.validate_matches(&mut m);
                    }
                    drop(m);
                    drop(e);
                }
            }));
            bk(|| drop((sp, rules)));
            end(
                s,
                match r {
                    Ok(()) => Res::Done,
                    Err(e) => Res::Panicked(panic_msg(e)),
                },
            );
        }
        Op::Gauges => {
            let s = begin(What::Other, 0);
            let (n, bytes) = bk(|| {
                let snap = w.rec.snap();
                let g = |k: &str| snap.gauges.iter().find(|g| g.0 .0 == k).map(|g| g.1).unwrap_or(0.0);
                (g("scanner.total_regexes"), g("scanner.total_regex_cache_size"))
            });
            end(s, Res::Gauges { n, bytes });
        }
        Op::Sleep { ns } => sched::sleep_ns(*ns),
        Op::Jump { s } => bk(|| {
            let mut j = w.jumps.lock().unwrap();
            let a = sched::wall_s();
            sched::wall_jump(*s);
            j.push((sched::seq(), a, sched::wall_s()));
            drop(j);
            count("clock_jump");
        }),
        Op::FfiBuild { spec, slot, free_early } => {
            let s = begin(What::FfiBuild { spec: *spec }, 0);
            match catch_unwind(AssertUnwindSafe(|| ffi_build(*spec, *free_early))) {
                Ok(Ok(sc)) => {
                    end(s, Res::Code(1, None));
                    let id = bk(|| Arc::new(sc));
                    let old = bk(|| w.ffi[*slot].lock().unwrap().replace(FfiSlot { spec: *spec, id }));
                    drop(old);
                }
                Ok(Err((c, e))) => end(s, Res::Code(c, e)),
                Err(e) => {
                    let p = panic_msg(e);
                    end(s, Res::Panicked(p))
                }
            }
        }
        Op::FfiDrop { slot } => {
            let s = begin(What::Drop, 0);
            let old = w.ffi[*slot].lock().unwrap().take();
            drop(old);
            end(s, Res::Done);
        }
        Op::FfiScan { slot, ev } => {
            let Some((spec, id)) = w.ffi[*slot].lock().unwrap().as_ref().map(|f| (f.spec, f.id.clone())) else { return };
            let s = begin(What::FfiScan { spec, ev: *ev }, 0);
            let (data, seen) = bk(|| {
                let n = &w.plan.events[*ev];
                let mut d = vec![];
                ev::encode(n, &mut d);
                (d, ev::lossy(n))
            });
            let r = match catch_unwind(AssertUnwindSafe(|| ffi_scan(id.0, &data, Some(&seen)))) {
                Ok(r) => r,
                Err(e) => Res::Panicked(panic_msg(e)),
            };
            end(s, r);
            drop(id);
        }
        Op::FfiBadScan { slot, bytes } => {
            let Some((_, id)) = w.ffi[*slot].lock().unwrap().as_ref().map(|f| (f.spec, f.id.clone())) else { return };
            count("malformed_event");
            let s = begin(What::FfiBad, 0);
            let r = match catch_unwind(AssertUnwindSafe(|| ffi_scan(id.0, bytes, None))) {
                Ok(r) => r,
                Err(e) => Res::Panicked(panic_msg(e)),
            };
            end(s, r);
            drop(id);
        }
        Op::FfiBadRule { json } => {
            count("malformed_rule");
            let s = begin(What::FfiBad, 0);
            let j = bk(|| CString::new(json.split('\0').next().unwrap()).unwrap());
            let r = match catch_unwind(AssertUnwindSafe(|| native::create_regex_rule(j.as_ptr()))) {
                Ok(id) => {
                    if id > 0 {
                        native::free_any_rule(id);
                    }
                    Res::Code(id.min(1), None)
                }
                Err(e) => Res::Panicked(panic_msg(e)),
            };
            end(s, r);
        }
        Op::FfiShared { list, spec } => {
            let s = begin(What::Other, 0);
            let sp = &w.plan.scanners[*spec];
            let l = *w.lists[*list].lock().unwrap();
            let r = catch_unwind(AssertUnwindSafe(|| {
                let rules = ffi_rules(sp);
                for r in &rules {
                    if *r > 0 {
                        native::append_rule_to_list(*r, l);
                    }
                }
                ffi_free_rules(&rules);
                let mut err: *const c_char = std::ptr::null();
                let id = native::create_scanner(l, &mut err, sp.kwpaths);
                let e = take_err(err);
                if id > 0 {
                    dd_sds_go::delete_scanner::delete_scanner(id);
                }
                (id.min(1), e)
            }));
            match r {
                Ok((c, e)) => end(s, Res::Code(c, e)),
                Err(e) => {
                    let p = panic_msg(e);
                    end(s, Res::Panicked(p))
                }
            }
        }
        Op::FfiMark { id } => {
            let s = begin(What::Other, 0);
            let l = *w.lists[2].lock().unwrap();
            let js = bk(|| {
                let r = RuleSpec {
                    p: format!("mk{:05}q", id),
                    m: None,
                    act: Act::None,
                    scope: ScopeSpec::All,
                    kw: None,
                    val: Val::None,
                    labels: vec![],
                    mv: Mv::None,
                    once: false,
                };
                CString::new(rule_json(&r)).unwrap()
            });
            let r = catch_unwind(AssertUnwindSafe(|| {
                let rule = native::create_regex_rule(js.as_ptr());
                if rule <= 0 {
                    return Res::Code(rule, None);
                }
                native::append_rule_to_list(rule, l);
                native::free_any_rule(rule);
                let (all, data) = bk(|| {
                    let mut m = w.marks.lock().unwrap();
                    m.push(*id);
                    let all = m.clone();
                    drop(m);
                    let n = Node::S(all.iter().map(|i| format!("mk{:05}q ", i)).collect());
                    let mut d = vec![];
                    ev::encode(&n, &mut d);
                    (all, (n, d))
                });
                let mut err: *const c_char = std::ptr::null();
                let sc = native::create_scanner(l, &mut err, false);
                let e = take_err(err);
                if sc <= 0 {
                    breach("a scanner cannot be made from a list of valid rules");
                    return Res::Code(sc, e);
                }
                let sc = FfiScanner(sc);
                if let Res::FfiScanned { matches, err, bad, .. } = ffi_scan(sc.0, &data.1, Some(&data.0)) {
                    bk(|| {
                        if matches.len() != all.len() || err.is_some() || bad.is_some() {
                            breach(&format!(
                                "a scanner made from a list of {} or more rules found what {} of them are for (error {:?} {:?})",
                                all.len(),
                                matches.len(),
                                err,
                                bad
                            ));
                        }
                        drop((matches, err, bad));
                    });
                }
                bk(|| drop((all, data)));
                Res::Code(1, e)
            }));
            match r {
                Ok(r) => end(s, r),
                Err(e) => {
                    let p = panic_msg(e);
                    end(s, Res::Panicked(p))
                }
            }
            bk(|| drop(js));
        }
        Op::Mark { v } => {
            let s = begin(What::Other, 0);
            let (blocks, bytes) = lib_mem();
            end(s, Res::Mark { v: *v, blocks, bytes, peak: 0 });
        }
    }
}
fn drop_rec(old: Option<(usize, Arc<Scanner>)>) {
    if let Some(o) = old {
        let s = begin(What::Drop, 0);
        let r = catch_unwind(AssertUnwindSafe(move || drop(o)));
        end(
            s,
            match r {
                Ok(()) => Res::Done,
                Err(e) => Res::Panicked(panic_msg(e)),
            },
        );
    }
}

extern "C" fn root(_: *mut c_void) -> *mut c_void {
    let w = world();
    for l in &w.lists {
        *l.lock().unwrap() = native::create_rule_list();
    }
    for (i, o) in w.plan.prelude.iter().enumerate() {
        ME.with(|m| m.set((0, i)));
        run_op(o);
    }
    let mut hs = vec![];
    for (t, ops) in w.plan.threads.iter().enumerate() {
        hs.push(bk(|| {
            std::thread::Builder::new()
                .stack_size(1 << 20)
                .spawn(move || {
                    for (i, o) in ops.iter().enumerate() {
                        ME.with(|m| m.set((t + 1, i)));
                        run_op(o);
                    }
                })
                .unwrap()
        }));
    }
    for h in hs {
        let _ = h.join();
    }
    for (i, o) in w.plan.postlude.iter().enumerate() {
        ME.with(|m| m.set((POST, i)));
        run_op(o);
    }
    if let Some(st) = &w.plan.steady {
        // from one starting state; every round then ends in the same state
        for (i, o) in st.reset.iter().enumerate() {
            ME.with(|m| m.set((STEADY, st.round.len() + i)));
            run_op(o);
        }
        for k in 0..st.marks {
            for _ in 0..st.n {
                for (i, o) in st.round.iter().enumerate() {
                    ME.with(|m| m.set((STEADY, i)));
                    run_op(o);
                }
            }
            run_op(&Op::Mark { v: k });
        }
    }
    for l in &w.lists {
        native::free_rule_list(*l.lock().unwrap());
    }
    std::ptr::null_mut()
}

pub fn sched_config(s: &SchedSpec) -> sched::Config {
    sched::Config {
        seed: s.seed,
        policy: match s.policy {
            Pol::Gap(m) => sched::Policy::Gap(m),
            Pol::Pct(d, k) => sched::Policy::Pct(d, k),
            Pol::Coop => sched::Policy::Coop,
        },
        conflict_den: s.conflict_den,
        max_steps: s.max_steps,
        spurious_den: s.spurious_den,
        stalls: s.stalls.clone(),
        clock_jumps: s.clock_jumps.clone(),
        epoch: s.epoch,
        ns_per_tick: s.ns_per_tick,
        ncpu: s.ncpu,
        replay: s.explicit.clone(),
    }
}

/// Run the plan in this (freshly forked) process. At most once per process.
pub fn run_plan(plan: Plan) -> History {
    detsim::interpose::link();
    std::env::set_var("RAYON_NUM_THREADS", plan.sched.rayon.to_string());
    std::panic::set_hook(Box::new(|_| {}));
    sched::seed_streams(plan.sched.seed, plan.sched.ncpu);
    reqwest::sim::set_transport(net::transport);
    let cfg = sched_config(&plan.sched);
    alloc::set_tag(HARNESS);
    let w = Box::leak(Box::new(World {
        slots: (0..plan.slots).map(|_| Mutex::new(None)).collect(),
        ffi: (0..plan.slots).map(|_| Mutex::new(None)).collect(),
        lists: (0..3).map(|_| Mutex::new(0)).collect(),
        marks: Mutex::new(vec![]),
        recs: Mutex::new(Vec::with_capacity(64)),
        net: Mutex::new(vec![]),
        jumps: Mutex::new(vec![]),
        breaches: Mutex::new(vec![]),
        counts: Mutex::new(vec![]),
        rec: rec::install(plan.slow_exporter),
        churn_built: AtomicI64::new(0),
        fresh: AtomicU64::new(0),
        plan,
    }));
    WORLD.store(w, SeqCst);
    alloc::set_tag(0);
    let (o, _) = sched::run(&cfg, detsim::interpose::real_create(), root, std::ptr::null_mut());
    let st = sched::stats();
    let mut h = History {
        outcome: format!("{:?}", o),
        steps: st.steps,
        switches: st.switches,
        preempts: st.preempts,
        conflicts: st.conflicts,
        time_ns: st.time_ns,
        spurious: st.spurious,
        stalls: st.stalls,
        trace_hash: st.trace_hash,
        inter_hash: st.inter_hash,
        nthreads: st.threads,
        trace_complete: sched::trace_complete(),
        misuse: alloc::misuse().map(|s| s.to_string()),
        churn_ok: w.churn_built.load(SeqCst) as u64,
        ..Default::default()
    };
    sched::describe_threads(&mut h.threads_desc);
    // On a dead run some lock may be held for ever: take what is free.
    if let Ok(r) = w.recs.try_lock() {
        h.recs = r.clone();
    }
    if let Ok(r) = w.net.try_lock() {
        h.net = r.clone();
    }
    if let Ok(r) = w.jumps.try_lock() {
        h.jumps = r.clone();
    }
    if let Ok(r) = w.breaches.try_lock() {
        h.breaches = r.clone();
    }
    if let Ok(r) = w.counts.try_lock() {
        h.counts = r.clone();
    }
    if o == sched::Outcome::Done {
        h.snap = w.rec.snap();
        h.live_specs = w.slots.iter().filter_map(|s| s.lock().unwrap().as_ref().map(|x| x.0)).collect();
        h.live = w.slots.iter().filter(|s| s.lock().unwrap().is_some()).count()
            + w.ffi.iter().filter(|s| s.lock().unwrap().is_some()).count();
    }
    h
}
