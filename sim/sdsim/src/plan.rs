//! What one simulated run does: a serialisable, seed-independent description.
//! The plan plus the schedule is the replay file.
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Act {
    None,
    Redact(String),
    Hash,
    First(usize),
    Last(usize),
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Seg {
    F(String),
    I(usize),
}
pub type PathSpec = Vec<Seg>;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum ScopeSpec {
    All,
    Include(Vec<PathSpec>, Vec<PathSpec>),
    Exclude(Vec<PathSpec>),
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Kw {
    pub ahead: usize,
    pub inc: Vec<String>,
    pub exc: Vec<String>,
}
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Val {
    None,
    Luhn,
    Jwt,
    ChineseId,
    Github,
    Iban,
    Nhs,
    Nir,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Mv {
    None,
    AwsId,
    AwsSecret { endpoint: String, timeout_ms: u64 },
    AwsSession,
    Http(HttpSpec),
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct HttpSpec {
    pub endpoint: String,
    pub hosts: Vec<String>,
    pub method: u8,
    pub headers: Vec<(String, String)>,
    pub valid: Vec<(u16, u16)>,
    pub invalid: Vec<(u16, u16)>,
    pub timeout_ms: u64,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct RuleSpec {
    /// pattern given to the scanner
    pub p: String,
    /// the same language for the reference model's engine; None: only the
    /// run-alone oracle applies
    pub m: Option<String>,
    pub act: Act,
    pub scope: ScopeSpec,
    pub kw: Option<Kw>,
    pub val: Val,
    pub labels: Vec<(String, String)>,
    pub mv: Mv,
    /// a caller-implemented rule that reports its literal only in the first
    /// string of a scan that contains it (exercises per-scan state)
    pub once: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct ScannerSpec {
    pub rules: Vec<usize>,
    pub labels: Vec<(String, String)>,
    pub multipass: bool,
    pub wild: bool,
    pub kwpaths: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Node {
    S(String),
    L(Vec<Node>),
    M(Vec<(String, Node)>),
}
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Simple,
    Ordered,
    Utf16,
    Ffi,
    /// serde_json::Value
    Json,
    /// std HashMap of serde_json::Value: the map's own random order
    Hash,
    /// the encoded event of the bindings, its text declared to be valid UTF-8,
    /// scanned by the library and answered in the encoding of the bindings
    Binary,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Hook {
    None,
    /// panic in the n-th callback the scanner makes into the event
    Panic(u32),
    /// sleep (simulated ns) in the n-th callback
    Sleep(u32, u64),
    /// run another scan inside the n-th callback
    Nested(u32, usize, usize),
    /// build and drop a scanner inside the n-th callback
    Build(u32, usize),
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Op {
    Build { spec: usize, slot: usize },
    /// build the scanner with one more, caller-implemented rule whose conversion panics
    BuildBoom { spec: usize },
    /// build the scanner with one more, caller-implemented rule whose conversion takes that long
    BuildSlow { spec: usize, ns: u64 },
    Drop { slot: usize },
    Scan { slot: usize, ev: usize, blocked: Vec<usize>, kind: Kind, hook: Hook },
    /// build a scanner and scan with a panic in the n-th callback; the scanner is dropped by the unwinding
    Owned { spec: usize, ev: usize, n: u32 },
    /// scan, then validate the matches found
    Validate { slot: usize, ev: usize, kind: Kind },
    /// build and drop n single-rule scanners with never-seen patterns
    /// (while one of `hold` rules stays in use, built anew now and then)
    Churn {
        base: u64,
        n: u32,
        kw: bool,
        #[serde(default)]
        hold: u32,
    },
    /// n threads that live only for these operations
    Spawn { n: usize, ops: Vec<Op> },
    /// n scans, over all events in turn, every result compared with the first of its kind
    Burst { slot: usize, n: u32, ffi: bool },
    /// scan n events whose fields and values never occurred before
    FreshScan { slot: usize, ev: usize, n: u32 },
    /// build, use and drop a variant of the scanner that never occurred before:
    /// 0 rule labels, 1 scanner labels, 2 replacement text, 3 scope,
    /// 4 a pattern that is rejected, 5 a keyword that is rejected,
    /// 6 an endpoint to validate matches with, 7 the same, and used
    FreshBuild { spec: usize, ev: usize, what: u8 },
    Sleep { ns: u64 },
    Jump { s: i64 },
    /// rule list / rule / scanner life cycle through the C interface
    FfiBuild { spec: usize, slot: usize, free_early: bool },
    FfiDrop { slot: usize },
    FfiScan { slot: usize, ev: usize },
    /// malformed input at the C interface
    FfiBadScan { slot: usize, bytes: Vec<u8> },
    FfiBadRule { json: String },
    /// append rules to a shared list / create from it, concurrently
    FfiShared { list: usize, spec: usize },
    /// append a rule to a list that all threads append to; a scanner made from it
    /// finds what all rules appended so far are for
    FfiMark { id: u64 },
    /// read the gauges
    Gauges,
    /// pick up the clock (for C05): no-op marker
    Mark { v: u64 },
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct NetSpec {
    pub seed: u64,
    /// weights: ok2xx, 4xx, 5xx, odd status, connect error, reset, slow reply, never reply
    pub w: [u32; 8],
    pub max_delay_ms: u64,
    /// simulated ns windows in which no connection succeeds
    pub outages: Vec<(u64, u64)>,
    /// secrets the AWS stand-in knows
    pub secrets: Vec<String>,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Pol {
    Gap(u64),
    Pct(u64, u64),
    Coop,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct SchedSpec {
    pub seed: u64,
    pub policy: Pol,
    pub conflict_den: u64,
    pub spurious_den: u64,
    pub stalls: Vec<(u64, u64)>,
    pub clock_jumps: Vec<(u64, i64)>,
    pub epoch: i64,
    pub ns_per_tick: u64,
    pub ncpu: usize,
    pub rayon: usize,
    pub max_steps: u64,
    /// freed memory is handed out again at once, last freed first
    #[serde(default)]
    pub reuse: bool,
    /// explicit schedule (replay files): (step, thread)
    pub explicit: Option<Vec<(u64, u16)>>,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub sched: SchedSpec,
    pub rules: Vec<RuleSpec>,
    pub scanners: Vec<ScannerSpec>,
    pub events: Vec<Node>,
    pub slots: usize,
    pub prelude: Vec<Op>,
    pub threads: Vec<Vec<Op>>,
    pub postlude: Vec<Op>,
    pub steady: Option<Steady>,
    pub net: NetSpec,
    /// slow metrics exporter: one call in n sleeps this many simulated ns (0 = off)
    pub slow_exporter: (u64, u64),
    /// what kind of scenario the generator chose (for coverage counts)
    pub tag: String,
}

pub const POST: usize = 1000;
/// The same round of calls over and over, memory compared between blocks of rounds.
pub const STEADY: usize = 1001;
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Steady {
    pub round: Vec<Op>,
    pub n: u64,
    pub marks: u64,
    /// back to a fixed state before each mark (always executed as a whole)
    pub reset: Vec<Op>,
}

/// In raw events, this private-use character stands for the byte 0xFF (not UTF-8).
pub const RAW_FF: char = '\u{E0FF}';

pub fn leaves(n: &Node) -> Vec<(PathSpec, &String)> {
    fn go<'a>(n: &'a Node, p: &mut PathSpec, out: &mut Vec<(PathSpec, &'a String)>) {
        match n {
            Node::S(s) => out.push((p.clone(), s)),
            Node::L(l) => {
                for (i, c) in l.iter().enumerate() {
                    p.push(Seg::I(i));
                    go(c, p, out);
                    p.pop();
                }
            }
            Node::M(m) => {
                for (k, c) in m {
                    p.push(Seg::F(k.clone()));
                    go(c, p, out);
                    p.pop();
                }
            }
        }
    }
    let mut out = vec![];
    go(n, &mut vec![], &mut out);
    out
}
pub fn leaf_mut<'a>(n: &'a mut Node, p: &[Seg]) -> Option<&'a mut String> {
    let mut v = n;
    for s in p {
        v = match (s, v) {
            (Seg::I(i), Node::L(l)) => l.get_mut(*i)?,
            (Seg::F(k), Node::M(m)) => &mut m.iter_mut().find(|(a, _)| a == k)?.1,
            _ => return None,
        };
    }
    match v {
        Node::S(s) => Some(s),
        _ => None,
    }
}
/// The order in which `SimpleEvent` visits fields ("message" first, then sorted).
pub fn simple_order(n: &Node) -> Node {
    match n {
        Node::S(s) => Node::S(s.clone()),
        Node::L(l) => Node::L(l.iter().map(simple_order).collect()),
        Node::M(m) => {
            let mut v: Vec<(String, Node)> = m.iter().map(|(k, c)| (k.clone(), simple_order(c))).collect();
            v.sort_by(|a, b| (a.0 != "message", &a.0).cmp(&(b.0 != "message", &b.0)));
            Node::M(v)
        }
    }
}
/// The order in which a visit of this kind of event meets the fields.
pub fn kind_order(k: Kind, n: &Node) -> Node {
    match k {
        Kind::Simple => simple_order(n),
        Kind::Json => canon(n),
        _ => n.clone(),
    }
}
/// Sorted by key: to compare events whatever their visit order.
pub fn canon(n: &Node) -> Node {
    match n {
        Node::S(s) => Node::S(s.clone()),
        Node::L(l) => Node::L(l.iter().map(canon).collect()),
        Node::M(m) => {
            let mut v: Vec<(String, Node)> = m.iter().map(|(k, c)| (k.clone(), canon(c))).collect();
            v.sort_by(|a, b| a.0.cmp(&b.0));
            Node::M(v)
        }
    }
}
