//! Seeded generation of plans: one generator per property, sharing a
//! vocabulary of rules, events and schedules. Swarm style: every run draws
//! which features it uses.
use crate::plan::*;
use base64::Engine;
use detsim::rng::Rng;

pub fn vec_of<T>(n: u64, mut f: impl FnMut() -> T) -> Vec<T> {
    (0..n).map(|_| f()).collect()
}
fn s(x: &str) -> String {
    x.to_string()
}

const STEMS: &[&str] = &["alfa", "bravo", "carol", "delta", "echoo", "fox7", "golfe", "hotelx"];
const KWS: &[&str] = &["pin", "visa no", "api_key", "ssn", "acct-id", "secretWord", "badge"];
const EXK: &[&str] = &["sample", "test-only", "trace_id", "dummy"];
const FILL: &[&str] = &[
    "and", "the quick", "né", "日本語", "😀", "x", "lorem ipsum dolor", "0", "--", "a_b", "Ωmega", "user", "ok", "12", "\n",
];
const FIELDS: &[&str] = &["PIN", "ApiKey", "acctID", "message", "user", "userId", "api-key", "body", "items", "pin", "acct_id", "x", "ssn", "visaNo", "deep"];
const SEPS: &[&str] = &[" ", " ", " ", ", ", ":", "=", "; ", "|", ""];

#[derive(Clone)]
pub struct Pat {
    pub p: String,
    pub m: Option<String>,
    pub samples: Vec<String>,
    pub val: Val,
}
pub fn luhn_number(r: &mut Rng, len: usize, good: bool) -> String {
    let mut d: Vec<u32> = (0..len).map(|_| r.below(10) as u32).collect();
    d[0] = 4;
    let sum = |d: &[u32]| {
        let mut t = 0;
        for (i, x) in d.iter().rev().enumerate() {
            t += if i % 2 == 1 {
                let y = x * 2;
                if y > 9 {
                    y - 9
                } else {
                    y
                }
            } else {
                *x
            };
        }
        t % 10
    };
    let last = d.len() - 1;
    d[last] = 0;
    let c = sum(&d);
    d[last] = (10 - c) % 10;
    if !good {
        d[last] = (d[last] + 1) % 10;
    }
    d.iter().map(|x| char::from_digit(*x, 10).unwrap()).collect()
}
pub fn jwt(r: &mut Rng, exp: Option<serde_json::Value>) -> String {
    let e = |v: &serde_json::Value| base64::engine::general_purpose::URL_SAFE_NO_PAD.encode(v.to_string());
    let mut pl = serde_json::json!({"sub": format!("u{}", r.below(90))});
    if let Some(x) = exp {
        pl["exp"] = x;
    }
    format!("{}.{}.sig{}", e(&serde_json::json!({"alg":"HS256"})), e(&pl), r.below(1000))
}
pub fn jwt_samples(r: &mut Rng, epoch: i64, n: usize) -> Vec<String> {
    let mut v = vec![];
    for _ in 0..n {
        let d = *r.pick(&[1i64, 2, 5, 60, 3600, 86_400, 10_000_000, 3_000_000_000]) * if r.chance(1, 2) { 1 } else { -1 };
        let exp = match r.below(14) {
            0 => None,
            1 => Some(serde_json::json!("1700000000")),
            2 => Some(serde_json::json!(1e12)),
            3 => Some(serde_json::json!(-5)),
            4 => Some(serde_json::json!(i64::MAX)),
            5 => Some(serde_json::json!(epoch as f64 + 100.5)),
            6 => Some(serde_json::json!(null)),
            _ => Some(serde_json::json!(epoch + d)),
        };
        v.push(jwt(r, exp));
    }
    if r.chance(1, 3) {
        v.push(s("eyJhbGciOiJIUzI1NiJ9.bm90anNvbg.sig"));
    }
    v
}
pub const JWT_P: &str = r"eyJ[A-Za-z0-9_-]*\.[A-Za-z0-9_-]+\.[A-Za-z0-9_-]+";

/// Text of the shape validator `v` looks at, half of the time with the right checksum.
fn checked(r: &mut Rng, v: Val) -> String {
    let good = r.chance(1, 2);
    loop {
        let d = |r: &mut Rng, n: u64| -> String { (0..n).map(|_| char::from(b'0' + r.below(10) as u8)).collect() };
        let (t, ok) = match v {
            Val::ChineseId => {
                let t = format!("{}{}", d(r, 17), r.pick(&["X", "x", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9"]));
                let ok = crate::model::chinese(&t);
                (t, ok)
            }
            Val::Github => {
                let n = 2 + r.below(20);
                let a = token(r, n, AN);
                let c = crate::model::crc32(a.as_bytes());
                if c < 1_000_000_000 {
                    continue; // short checksums: padding is not specified
                }
                let mut b = crate::model::base62(c).into_bytes();
                if !good {
                    b[5] = if b[5] == b'0' { b'1' } else { b'0' };
                }
                let t = format!("ghp_{}{}", a, String::from_utf8(b).unwrap());
                let ok = crate::model::github(&t);
                (t, ok)
            }
            Val::Iban => {
                let t = format!("DE{}{}", 2 + r.below(9) * 10 + r.below(10), d(r, 18));
                let t = if t.len() == 21 { t.replacen("DE", "DE0", 1) } else { t };
                let ok = crate::model::iban(&t);
                (t, ok)
            }
            Val::Nhs => {
                let sep = *r.pick(&["", " ", "-"]);
                let t = format!("{}{}{}{}{}", d(r, 3), sep, d(r, 3), sep, d(r, 4));
                let ok = crate::model::nhs(&t);
                (t, ok)
            }
            _ => {
                let mut t = format!("{}{}", 1 + r.below(2), d(r, 12));
                let n: u64 = t.parse().unwrap();
                t.push_str(&format!("{:02}", (97 - n % 97 + if good { 0 } else { 1 + r.below(2) }) % 100));
                let ok = crate::model::nir(&t);
                (t, ok)
            }
        };
        if ok == good {
            return t;
        }
    }
}

pub fn pat(r: &mut Rng, k: u64, stem: &str, epoch: i64) -> Pat {
    let d = |r: &mut Rng, n: u64| -> String { (0..n).map(|_| char::from(b'0' + r.below(10) as u8)).collect() };
    let up = stem.to_uppercase();
    let (p, m, samples): (String, String, Vec<String>) = match k {
        0 => (s(stem), s(stem), vec![s(stem), format!("x{}y", stem)]),
        1 => {
            let p = format!("{}[0-9]{{2,4}}", stem);
            (p.clone(), p, vec![format!("{}{}", stem, d(r, 2)), format!("{}{}", stem, d(r, 4)), format!("{}{}", stem, d(r, 5))])
        }
        2 => (
            format!(r"{}-\d{{3}}", stem),
            format!("{}-[0-9]{{3}}", stem),
            vec![format!("{}-{}", stem, d(r, 3)), format!("{}-{}", stem, d(r, 4)), format!("{}-{}", stem, d(r, 2))],
        ),
        3 => (
            format!(r"\b{}\w+", stem),
            format!(r"(?-u:\b){}[A-Za-z0-9_]+", stem),
            vec![format!("{}X1", stem), format!("x{}Y", stem), format!("{}_é", stem)],
        ),
        4 => {
            let p = format!("(?:{}|{})[a-c]+", stem, up);
            (p.clone(), p, vec![format!("{}abc", stem), format!("{}cab", up)])
        }
        5 => {
            let p = format!("é+{}", stem);
            (p.clone(), p, vec![format!("é{}", stem), format!("ééé{}", stem)])
        }
        6 => {
            let p = format!("{}[^ ]{{1,6}}", stem);
            (p.clone(), p, vec![format!("{}日本語", stem), format!("{}zz", stem), format!("{}😀😀", stem)])
        }
        7 => (
            format!(r"(?i){}\d", stem),
            format!("(?i){}[0-9]", stem),
            vec![format!("{}{}", up, d(r, 1)), format!("{}{}", stem, d(r, 2))],
        ),
        8 => {
            let p = format!("{}(?:x|xy|xyz)", stem);
            (p.clone(), p, vec![format!("{}xyz", stem), format!("{}x", stem)])
        }
        9 => {
            let p = format!("{}.{{0,3}}", stem);
            (p.clone(), p, vec![format!("{}ab", stem), s(stem), format!("{}日本語字", stem)])
        }
        10 => {
            let p = s("[0-9]{13,16}");
            let v = vec![luhn_number(r, 16, true), luhn_number(r, 16, false), luhn_number(r, 13, true), luhn_number(r, 15, false)];
            return Pat { p: p.clone(), m: Some(p), samples: v, val: Val::Luhn };
        }
        11 => {
            let v = jwt_samples(r, epoch, 3);
            return Pat { p: s(JWT_P), m: Some(s(JWT_P)), samples: v, val: Val::Jwt };
        }
        12 => (
            format!(r"{}=(\d+)", stem),
            format!("{}=([0-9]+)", stem),
            vec![format!("{}={}", stem, d(r, 2)), format!("{}={}", stem, d(r, 7))],
        ),
        14 => {
            let v = vec_of(3, || checked(r, Val::ChineseId));
            return Pat { p: s("[0-9]{17}[0-9Xx]"), m: Some(s("[0-9]{17}[0-9Xx]")), samples: v, val: Val::ChineseId };
        }
        15 => {
            let v = vec_of(3, || checked(r, Val::Github));
            let p = s("gh[ps]_[A-Za-z0-9]{8,30}");
            return Pat { p: p.clone(), m: Some(p), samples: v, val: Val::Github };
        }
        16 => {
            let v = vec_of(3, || checked(r, Val::Iban));
            return Pat { p: s("DE[0-9]{20}"), m: Some(s("DE[0-9]{20}")), samples: v, val: Val::Iban };
        }
        17 => {
            let v = vec_of(3, || checked(r, Val::Nhs));
            return Pat { p: s(r"\d{3}[ -]?\d{3}[ -]?\d{4}"), m: Some(s("[0-9]{3}[ -]?[0-9]{3}[ -]?[0-9]{4}")), samples: v, val: Val::Nhs };
        }
        18 => {
            let v = vec_of(3, || checked(r, Val::Nir));
            return Pat { p: s("[12][0-9]{14}"), m: Some(s("[12][0-9]{14}")), samples: v, val: Val::Nir };
        }
        _ => {
            let p = format!("{}([ab]|[cd]e)*f", stem);
            (p.clone(), p, vec![format!("{}abcef", stem), format!("{}f", stem), format!("{}ab", stem)])
        }
    };
    Pat { p, m: Some(m), samples, val: Val::None }
}

pub struct G {
    pub r: Rng,
    pub epoch: i64,
    pub rules: Vec<RuleSpec>,
    pub pats: Vec<Pat>,
    pub scanners: Vec<ScannerSpec>,
    pub events: Vec<Node>,
    pub tag: Vec<String>,
    /// (scanner, event) of unusual size
    pub big: Option<(usize, usize)>,
    pub ffi: bool,
    pub odd_kw: bool,
}
pub struct Feat {
    pub once: bool,
    pub jwt: bool,
    pub kw: bool,
    pub scope: bool,
    pub labels: bool,
    pub ffi: bool,
    pub raw: bool,
    pub boom: bool,
    pub nrules: (u64, u64),
    pub nscanners: (u64, u64),
    pub nevents: (u64, u64),
}
impl Default for Feat {
    fn default() -> Self {
        Feat {
            once: true,
            jwt: false,
            kw: true,
            scope: true,
            labels: true,
            ffi: false,
            raw: false,
            boom: false,
            nrules: (2, 6),
            nscanners: (1, 3),
            nevents: (2, 5),
        }
    }
}

impl G {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng::new(seed, 11);
        let epoch = match r.below(6) {
            0 => 1_000_000_000 + r.below(1_000_000) as i64,
            1 => 2_147_483_647 - 30 + r.below(60) as i64,
            2 => 4_294_967_296 - 30 + r.below(60) as i64,
            _ => 1_750_000_000 + r.below(10_000_000) as i64,
        };
        G { r, epoch, rules: vec![], pats: vec![], scanners: vec![], events: vec![], tag: vec![], big: None, ffi: false, odd_kw: false }
    }
    fn act(&mut self) -> Act {
        match self.r.below(10) {
            0..=2 => Act::None,
            3..=4 => Act::Redact(s(*self.r.pick(&["[REDACTED]", "", "é", "***", "日本", "alfa"]))),
            5..=6 => Act::Hash,
            7..=8 => Act::First(1 + self.r.below(5) as usize),
            _ => Act::Last(1 + self.r.below(5) as usize),
        }
    }
    fn text(&mut self, f: &Feat) -> String {
        let mut o = String::new();
        if self.r.chance(1, 30) {
            o.push_str(*self.r.pick(&["\u{feff}", "\0", "\r\n", "\u{202e}"]));
        }
        let n = 1 + self.r.below(7);
        for _ in 0..n {
            match self.r.below(10) {
                0..=4 if !self.pats.is_empty() => {
                    let i = self.r.below(self.pats.len() as u64) as usize;
                    let j = self.r.below(self.pats[i].samples.len() as u64) as usize;
                    o.push_str(&self.pats[i].samples[j]);
                }
                5..=6 if f.kw => {
                    let k = if self.r.chance(2, 3) { *self.r.pick(KWS) } else { *self.r.pick(EXK) };
                    if self.r.chance(1, 4) {
                        o.push_str(&k.to_uppercase());
                    } else {
                        o.push_str(k);
                    }
                }
                _ => {
                    let w = *self.r.pick(FILL);
                    o.push_str(w);
                    if self.r.chance(1, 8) {
                        o.push_str(&" pad".repeat(self.r.below(12) as usize));
                    }
                }
            }
            if f.raw && self.r.chance(1, 6) {
                o.push(RAW_FF);
            }
            let sep = *self.r.pick(SEPS);
            o.push_str(sep);
        }
        if f.boom && self.r.chance(1, 5) {
            o.push_str(" BOOM!");
        }
        o
    }
    fn node(&mut self, f: &Feat, depth: u64) -> Node {
        let k = if depth == 0 { 0 } else { self.r.below(4) };
        match k {
            0 => Node::S(self.text(f)),
            1 => {
                let n = 1 + self.r.below(3);
                Node::L((0..n).map(|_| self.node(f, depth - 1)).collect())
            }
            _ => self.map(f, depth),
        }
    }
    fn map(&mut self, f: &Feat, depth: u64) -> Node {
        let n = 1 + self.r.below(4);
        let mut v: Vec<(String, Node)> = vec![];
        for _ in 0..n {
            let mut k = s(*self.r.pick(FIELDS));
            if self.r.chance(1, 40) {
                k.push_str(*self.r.pick(&["\0x", "\u{feff}", "\n", "/", "é", "😀"]));
            }
            if f.raw && self.r.chance(1, 8) {
                k.push(RAW_FF);
            }
            if v.iter().any(|(a, _)| *a == k) {
                continue;
            }
            let c = self.node(f, depth - 1);
            v.push((k, c));
        }
        if self.r.chance(1, 12) {
            // fields whose names look like the path of others
            let t = self.text(f);
            let twin = v.iter().find_map(|(k, c)| match c {
                Node::M(m) => m.first().map(|(n, _)| format!("{}.{}", k, n)),
                Node::L(_) => Some(format!("{}[0]", k)),
                Node::S(_) => None,
            });
            match twin {
                Some(k) if !v.iter().any(|(a, _)| *a == k) => v.push((k, Node::S(t))),
                _ => {}
            }
        }
        Node::M(v)
    }
    pub fn event(&mut self, f: &Feat) -> Node {
        if self.r.chance(1, 8) {
            return Node::S(self.text(f));
        }
        self.map(f, 3)
    }
    fn prefix(&mut self) -> Option<PathSpec> {
        let e = self.r.below(self.events.len() as u64) as usize;
        let l = leaves(&self.events[e]);
        if l.is_empty() {
            return None;
        }
        let (p, _) = &l[self.r.below(l.len() as u64) as usize];
        let mut p = p.clone();
        for x in p.iter_mut() {
            if let Seg::F(n) = x {
                *n = n.replace(RAW_FF, "\u{FFFD}");
            }
        }
        let cut = self.r.below(p.len() as u64 + 1) as usize;
        if self.r.chance(3, 4) {
            p.truncate(cut.max(1));
        }
        if self.r.chance(1, 4) {
            // drop an index: only reachable with implicit wildcards
            if let Some(i) = p.iter().position(|x| matches!(x, Seg::I(_))) {
                p.remove(i);
            }
        }
        if p.is_empty() {
            return None;
        }
        Some(p)
    }
    fn prefixes(&mut self, max: u64) -> Vec<PathSpec> {
        let n = 1 + self.r.below(max);
        let mut v: Vec<PathSpec> = vec![];
        for _ in 0..n {
            if let Some(p) = self.prefix() {
                if !v.contains(&p) {
                    v.push(p);
                }
            }
        }
        v
    }
    fn scope(&mut self) -> ScopeSpec {
        match self.r.below(6) {
            0..=2 => ScopeSpec::All,
            3 => ScopeSpec::Exclude(self.prefixes(3)),
            4 => ScopeSpec::Include(self.prefixes(2), vec![]),
            _ => {
                let a = self.prefixes(2);
                let mut b = self.prefixes(2);
                // the same path on both lists is contradictory configuration
                b.retain(|p| !a.contains(p));
                ScopeSpec::Include(a, b)
            }
        }
    }
    pub fn labels(&mut self, on: bool) -> Vec<(String, String)> {
        if !on || self.r.chance(1, 2) {
            return vec![];
        }
        let n = 1 + self.r.below(2);
        (0..n).map(|i| (format!("k{}", i), format!("v{}", self.r.below(3)))).collect()
    }
    pub fn kw(&mut self) -> Kw {
        let mut inc = vec![];
        let mut exc = vec![];
        let mode = self.r.below(3);
        if mode != 1 {
            for _ in 0..1 + self.r.below(2) {
                let l = if self.r.chance(1, 8) { EXK } else { KWS };
                let k = s(*self.r.pick(l));
                if !inc.contains(&k) {
                    inc.push(k);
                }
            }
        }
        if mode != 0 {
            for _ in 0..1 + self.r.below(2) {
                let l = if self.r.chance(1, 8) { KWS } else { EXK };
                let k = s(*self.r.pick(l));
                if !exc.contains(&k) {
                    exc.push(k);
                }
            }
        }
        // a keyword longer than the window is rejected
        let longest = inc.iter().chain(&exc).map(|k: &String| k.chars().count()).max().unwrap_or(1);
        Kw { ahead: (*self.r.pick(&[1usize, 5, 10, 20, 30, 50])).max(longest), inc, exc }
    }
    /// rules, events, scanners
    pub fn world(&mut self, f: &Feat) {
        let n = self.r.range(f.nrules.0, f.nrules.1);
        let stems = 1 + self.r.below(STEMS.len() as u64) as usize;
        for _ in 0..n {
            let k = loop {
                let k = if self.r.chance(4, 5) { self.r.below(14) } else { 14 + self.r.below(5) };
                if k != 11 || f.jwt {
                    break k;
                }
            };
            let stem = STEMS[self.r.below(stems as u64) as usize];
            let p = pat(&mut self.r, k, stem, self.epoch);
            self.pats.push(p);
        }
        for _ in 0..self.r.range(f.nevents.0, f.nevents.1) {
            let e = self.event(f);
            self.events.push(e);
        }
        for i in 0..self.pats.len() {
            let p = self.pats[i].clone();
            let act = self.act();
            let scope = if f.scope { self.scope() } else { ScopeSpec::All };
            if f.once && self.r.chance(1, 6) {
                let lit = p.samples[0].clone();
                self.rules.push(RuleSpec {
                    p: lit,
                    m: None,
                    act,
                    scope,
                    kw: None,
                    val: Val::None,
                    labels: vec![],
                    mv: Mv::None,
                    once: true,
                });
                continue;
            }
            let kw = if f.kw && self.r.chance(2, 5) { Some(self.kw()) } else { None };
            let labels = self.labels(f.labels);
            let val = if p.val != Val::Jwt && self.r.chance(1, 5) { Val::None } else { p.val };
            self.rules.push(RuleSpec { p: p.p, m: p.m, act, scope, kw, val, labels, mv: Mv::None, once: false });
        }
        for _ in 0..self.r.range(f.nscanners.0, f.nscanners.1) {
            let sp = self.scanner(f);
            self.scanners.push(sp);
        }
    }
    pub fn scanner(&mut self, f: &Feat) -> ScannerSpec {
        let n = 1 + self.r.below(5.min(self.rules.len() as u64));
        let mut v = vec![];
        for _ in 0..n {
            let i = self.r.below(self.rules.len() as u64) as usize;
            if f.ffi && self.rules[i].once {
                continue;
            }
            v.push(i);
        }
        ScannerSpec {
            rules: v,
            labels: if f.ffi { vec![] } else { self.labels(f.labels) },
            multipass: f.ffi || self.r.chance(3, 4),
            wild: !f.ffi && self.r.chance(1, 3),
            kwpaths: self.r.chance(1, 3),
        }
    }
    /// A rule that makes the creation of its scanner fail.
    pub fn bad_rule(&mut self) -> RuleSpec {
        let mut x = RuleSpec {
            p: s("okpat[0-9]"),
            m: None,
            act: Act::Redact(s("[R]")),
            scope: ScopeSpec::All,
            kw: None,
            val: Val::None,
            labels: vec![],
            mv: Mv::None,
            once: false,
        };
        match self.r.below(6) {
            0 => x.act = if self.r.chance(1, 2) { Act::First(0) } else { Act::Last(0) },
            1 => x.kw = Some(Kw { ahead: *self.r.pick(&[0, 51]), inc: vec![s("pin")], exc: vec![] }),
            2 => x.kw = Some(Kw { ahead: 10, inc: vec![s("")], exc: vec![] }),
            _ => x.p = s(*self.r.pick(BADPAT)),
        }
        x
    }
    /// A scanner that cannot be created, mostly because of its last rule.
    pub fn bad_scanner(&mut self, f: &Feat) -> usize {
        let b = self.bad_rule();
        self.rules.push(b);
        let i = self.rules.len() - 1;
        let mut sp = self.scanner(f);
        let at = if self.r.chance(2, 3) { sp.rules.len() } else { self.r.below(sp.rules.len() as u64 + 1) as usize };
        sp.rules.insert(at, i);
        self.scanners.push(sp);
        self.tag.push(s("invalid"));
        self.scanners.len() - 1
    }
    /// Scanners that differ from an existing one in a single attribute.
    pub fn twins(&mut self, f: &Feat) {
        let n = 1 + self.r.below(2);
        for _ in 0..n {
            let i = self.spec();
            let mut sp = self.scanners[i].clone();
            if sp.rules.is_empty() {
                continue;
            }
            let at = self.r.below(sp.rules.len() as u64) as usize;
            let mut x = self.rules[sp.rules[at]].clone();
            let mut rule = true;
            match self.r.below(12) {
                0..=3 if f.kw && !x.once => {
                    // other keywords, the same window
                    match &mut x.kw {
                        None => x.kw = Some(self.kw()),
                        Some(k) => {
                            let l = if k.inc.is_empty() || (!k.exc.is_empty() && self.r.chance(1, 3)) { (&mut k.exc, EXK) } else { (&mut k.inc, KWS) };
                            if self.odd_kw && l.0.len() > 1 && self.r.chance(1, 2) {
                                // one keyword made of two, joined as if it were a list
                                let j = l.0.join(*self.r.pick(&["|", "|", ",", " ", "", ";", "\0", "\n"]));
                                if j.chars().count() <= k.ahead {
                                    *l.0 = vec![j];
                                }
                            } else if self.r.chance(1, 6) {
                                // the other list
                                std::mem::swap(&mut k.inc, &mut k.exc);
                            } else if self.r.chance(1, 6) {
                                l.0.clear();
                                if k.inc.is_empty() && k.exc.is_empty() {
                                    x.kw = None;
                                }
                            } else {
                                let j = self.r.below(l.0.len() as u64) as usize;
                                let w = s(*self.r.pick(l.1));
                                if w.chars().count() <= k.ahead && !l.0.contains(&w) {
                                    l.0[j] = w;
                                }
                            }
                        }
                    }
                }
                4 if f.scope => x.scope = self.scope(),
                5 => x.act = self.act(),
                6 => x.labels = self.labels(f.labels),
                7 if x.val != Val::None && x.val != Val::Jwt => x.val = Val::None,
                8 if !f.ffi => {
                    rule = false;
                    match self.r.below(3) {
                        0 => sp.multipass = !sp.multipass,
                        1 => sp.wild = !sp.wild,
                        _ => sp.labels = self.labels(f.labels),
                    }
                }
                9 => {
                    rule = false;
                    sp.kwpaths = !sp.kwpaths;
                }
                10 => {
                    rule = false;
                    sp.rules.rotate_left(1);
                }
                _ if !x.once => {
                    let stem = *self.r.pick(STEMS);
                    let k = self.r.below(10);
                    let p = pat(&mut self.r, k, stem, self.epoch);
                    x.p = p.p;
                    x.m = p.m;
                    x.val = Val::None;
                }
                _ => rule = false,
            }
            if rule {
                self.rules.push(x);
                sp.rules[at] = self.rules.len() - 1;
            }
            self.scanners.push(sp);
        }
        self.tag.push(s("twins"));
    }
    /// Sometimes: a long history of scans in one thread.
    fn burst(&mut self, threads: &mut Vec<Vec<Op>>, slots: usize) {
        if self.big.is_some() || !self.r.chance(1, 25) {
            return;
        }
        self.tag.push(s("burst"));
        let t = self.r.below(threads.len() as u64) as usize;
        let at = self.r.below(threads[t].len() as u64 + 1) as usize;
        let o = Op::Burst { slot: self.r.below(slots as u64) as usize, n: self.r.logu(100, 1500) as u32, ffi: self.ffi };
        threads[t].insert(at, o);
    }
    /// Threads that live for a few scans only; some end with a panicking scan.
    fn spawn(&mut self, slots: usize) -> Op {
        let mut ops = vec![];
        for _ in 0..1 + self.r.below(2) {
            let mut o = self.scan(slots);
            if let Op::Scan { ev, kind: Kind::Ordered, hook, .. } = &mut o {
                if self.r.chance(1, 5) {
                    *hook = Hook::Panic(1 + self.r.below(2 * self.nleaf(*ev).max(1)) as u32);
                }
            }
            ops.push(o);
        }
        Op::Spawn { n: 1 + self.r.below(3) as usize, ops }
    }
    /// A scan, another scanner in the same place, the same scan again.
    fn swap(&mut self, slot: usize, out: &mut Vec<Op>) {
        let ev = self.r.below(self.events.len() as u64) as usize;
        let kind = self.kind();
        for _ in 0..2 {
            let spec = self.spec();
            if self.r.chance(2, 3) {
                out.push(if self.ffi { Op::FfiDrop { slot } } else { Op::Drop { slot } });
            }
            out.push(if self.ffi { Op::FfiBuild { spec, slot, free_early: self.r.chance(1, 2) } } else { Op::Build { spec, slot } });
            out.push(if self.ffi { Op::FfiScan { slot, ev } } else { Op::Scan { slot, ev, blocked: vec![], kind, hook: Hook::None } });
        }
    }
    /// A line of short-lived scanners in one thread, each like the one before
    /// it but for one attribute, that scan the same few small events. With
    /// `reuse`, each finds the memory of its predecessor.
    fn succession(mut self, prop: &str, f: &Feat) -> Plan {
        self.tag.push(s("succession"));
        let stem = *self.r.pick(STEMS);
        let k = self.r.below(10);
        let p = pat(&mut self.r, k, stem, self.epoch);
        let mut sp = ScannerSpec { rules: vec![], labels: vec![], multipass: f.ffi || self.r.chance(3, 4), wild: false, kwpaths: self.r.chance(3, 4) };
        self.pats.push(p.clone());
        for _ in 0..1 + self.r.below(2) {
            let mut e = vec![];
            for _ in 0..1 + self.r.below(3) {
                let key = if self.r.chance(1, 2) { s(*self.r.pick(FIELDS)) } else { s(*self.r.pick(KWS)) };
                let smp = p.samples[self.r.below(p.samples.len() as u64) as usize].clone();
                let t = match self.r.below(4) {
                    0 => self.text(f),
                    1 => format!("{} {}", *self.r.pick(KWS), smp),
                    _ => smp,
                };
                let leaf = if self.r.chance(1, 4) { Node::M(vec![(s("deep"), Node::S(t))]) } else { Node::S(t) };
                if !e.iter().any(|(a, _)| *a == key) {
                    e.push((key, leaf));
                }
            }
            self.events.push(Node::M(e));
        }
        for _ in 0..1 + self.r.below(2) {
            let kw = if self.r.chance(3, 4) { Some(self.kw()) } else { None };
            let act = self.act();
            let scope = if self.r.chance(1, 3) { self.scope() } else { ScopeSpec::All };
            self.rules.push(RuleSpec { p: p.p.clone(), m: p.m.clone(), act, scope, kw, val: p.val, labels: vec![], mv: Mv::None, once: false });
            sp.rules.push(self.rules.len() - 1);
        }
        self.scanners.push(sp);
        for _ in 0..2 {
            self.twins(f);
        }
        let mut threads = vec![];
        let slots = 2;
        for slot in 0..1 + self.r.below(2) as usize {
            let mut ops = vec![];
            for _ in 0..3 + self.r.below(5) {
                self.swap(slot, &mut ops);
            }
            threads.push(ops);
        }
        let mut p = self.plan(prop, slots, vec![], threads, vec![]);
        p.sched.reuse = true;
        p
    }
    /// Unusual sizes: many fields, many distinct values excluded by scope, long
    /// strings, long lists, deep nesting, many rules.
    pub fn oversize(&mut self, f: &Feat) {
        let k = *self.r.pick(&[1u64, 2, 4, 8]);
        let stem = *self.r.pick(STEMS);
        let p = pat(&mut self.r, k, stem, self.epoch);
        let stem: String = p.samples[0].clone();
        let mut rule = RuleSpec {
            p: s("[a-z]+-[0-9]{1,5}"),
            m: Some(s("[a-z]+-[0-9]{1,5}")),
            act: self.act(),
            scope: ScopeSpec::All,
            kw: None,
            val: Val::None,
            labels: vec![],
            mv: Mv::None,
            once: false,
        };
        let mut multipass = self.r.chance(1, 2);
        let mut rules = vec![];
        let ev = match self.r.below(6) {
            0 | 1 => {
                // values seen in excluded fields suppress equal values elsewhere
                self.tag.push(s("many_excluded"));
                multipass = true;
                let n = self.r.logu(40, 400);
                let mut m: Vec<(String, Node)> = vec![];
                let per = 1 + self.r.below(3);
                let mut left = vec![];
                for i in 0..n {
                    let t: Vec<String> = (0..per).map(|j| format!("v-{}", 10 + i * per + j)).collect();
                    left.extend(t.clone());
                    m.push((format!("x{}", i), Node::S(t.join(" "))));
                }
                let mut tail = vec![];
                for _ in 0..6 {
                    tail.push(self.r.pick(&left).clone());
                }
                tail.push(s("v-99999"));
                m.push((s("keep"), Node::S(tail.join(" "))));
                if self.r.chance(1, 2) {
                    m.rotate_right(1);
                }
                rule.scope = if self.r.chance(1, 2) {
                    ScopeSpec::Exclude((0..n).map(|i| vec![Seg::F(format!("x{}", i))]).collect())
                } else {
                    m = vec![(s("out"), Node::M(m.iter().filter(|x| x.0 != "keep").cloned().collect())), m.iter().find(|x| x.0 == "keep").unwrap().clone()];
                    ScopeSpec::Exclude(vec![vec![Seg::F(s("out"))]])
                };
                Node::M(m)
            }
            2 => {
                self.tag.push(s("long_string"));
                let step = *self.r.pick(&[2, 16, 16]);
                let n = if step == 2 { self.r.logu(300, 1_500) } else { self.r.logu(300, 12_000) };
                if self.r.chance(1, 3) {
                    rule.act = Act::Redact("[R]".repeat(1 + self.r.below(60) as usize));
                }
                let mut t = String::new();
                for i in 0..n {
                    t.push_str(*self.r.pick(&["é ", "word ", "日本 ", "x "]));
                    if i % step == 0 {
                        t.push_str(&format!("{} k-{} ", stem, i));
                    }
                }
                if self.r.chance(1, 2) {
                    // another rule whose matches overlap
                    let mut x = rule.clone();
                    x.p = s(*self.r.pick(&["k-[0-9]", "-[0-9]+ ", "[a-z]-"]));
                    x.m = Some(x.p.clone());
                    x.act = self.act();
                    rules.push(self.rules.len());
                    self.rules.push(x);
                }
                if f.scope && self.r.chance(1, 3) {
                    // some of them are suppressed, because they occur in an excluded place
                    multipass = true;
                    rule.scope = ScopeSpec::Exclude(vec![vec![Seg::F(s("user"))]]);
                }
                Node::M(vec![(s("message"), Node::S(t)), (s("user"), Node::S(format!("{} k-16 ", stem)))])
            }
            3 => {
                self.tag.push(s("long_list"));
                let n = if f.ffi && self.r.chance(1, 10) { 65_545 + self.r.below(20) } else { 250 + self.r.below(120) };
                if n > 10_000 && self.r.chance(3, 4) {
                    rule.act = Act::Redact(s("[R]"));
                }
                let l: Vec<Node> = (0..n).map(|i| Node::S(if (i < 2000 && i % 7 == 0) || i + 15 > n { format!("{} k-{}", stem, i) } else { s("-") })).collect();
                rule.scope = match self.r.below(3) {
                    0 => ScopeSpec::All,
                    1 => ScopeSpec::Include(vec![vec![Seg::F(s("items")), Seg::I(n as usize - 1)]], vec![]),
                    _ => ScopeSpec::Exclude(vec![vec![Seg::F(s("items")), Seg::I(256)], vec![Seg::F(s("items")), Seg::I(0)]]),
                };
                Node::M(vec![(s("items"), Node::L(l))])
            }
            4 => {
                self.tag.push(s("deep"));
                let n = if self.r.chance(1, 2) { 8 + self.r.below(16) } else { 20 + self.r.below(17) };
                let mut e = Node::S(format!("{} k-7", stem));
                let mut path = vec![];
                for i in 0..n {
                    if i % 3 == 1 {
                        e = Node::L(vec![Node::S(format!("k-{}", i)), e]);
                        path.insert(0, Seg::I(1));
                    } else {
                        let k = s(*self.r.pick(FIELDS));
                        e = Node::M(vec![(k.clone(), e), (s("z"), Node::S(format!("k-{}", i)))]);
                        path.insert(0, Seg::F(k));
                    }
                }
                if self.r.chance(1, 2) && matches!(path.first(), Some(Seg::F(_))) {
                    // more rules with scopes along the way
                    for _ in 0..1 + self.r.below(3) {
                        let cut = |g: &mut G| path[..(1 + g.r.below(path.len() as u64) as usize)].to_vec();
                        let mut x = rule.clone();
                        x.p = s(*self.r.pick(&["k-[0-9]", "k-[0-9]+", "[a-z]-[0-9]+"]));
                        x.m = Some(x.p.clone());
                        x.act = self.act();
                        let (a, b) = (cut(self), cut(self));
                        x.scope = if self.r.chance(1, 3) || a == b { ScopeSpec::Exclude(vec![a]) } else { ScopeSpec::Include(vec![a], vec![b]) };
                        rules.push(self.rules.len());
                        self.rules.push(x);
                    }
                }
                let cut = self.r.below(path.len() as u64 + 1) as usize;
                path.truncate(cut.max(1));
                if let Some(Seg::I(_)) = path.first() {
                    Node::M(vec![(s("w"), e)])
                } else {
                    if self.r.chance(2, 3) {
                        rule.scope = if self.r.chance(1, 2) { ScopeSpec::Include(vec![path], vec![]) } else { ScopeSpec::Exclude(vec![path]) };
                    }
                    e
                }
            }
            _ => {
                self.tag.push(s("many_rules"));
                let n = if f.ffi && self.r.chance(1, 2) { 250 + self.r.below(60) } else { self.r.logu(20, 160) };
                let base = self.rules.len();
                let mut t = vec![];
                for i in 0..n {
                    let mut x = rule.clone();
                    x.p = format!("r{}-[0-9]+", i);
                    x.m = Some(x.p.clone());
                    x.act = self.act();
                    x.labels = self.labels(f.labels);
                    if self.r.chance(1, 6) && f.kw {
                        x.kw = Some(self.kw());
                    }
                    if self.r.chance(1, 6) && f.scope {
                        x.scope = self.scope();
                    }
                    self.rules.push(x);
                    rules.push(base + i as usize);
                    if self.r.chance(1, 2) {
                        t.push(format!("r{}-{}", i, 7 * i));
                    }
                }
                Node::M(vec![(s("message"), Node::S(t.join(" "))), (s("user"), Node::S(t.join(",")))])
            }
        };
        let mut x = rule.clone();
        x.p = p.p;
        x.m = p.m;
        x.act = self.act();
        x.scope = ScopeSpec::All;
        self.rules.push(rule);
        self.rules.push(x);
        rules.extend([self.rules.len() - 2, self.rules.len() - 1]);
        self.events.push(ev);
        self.scanners.push(ScannerSpec { rules, labels: vec![], multipass: multipass || f.ffi, wild: !f.ffi && self.r.chance(1, 3), kwpaths: self.r.chance(1, 3) });
        self.big = Some((self.scanners.len() - 1, self.events.len() - 1));
    }
    pub fn sched(&mut self, nthreads: usize) -> SchedSpec {
        let r = &mut self.r;
        let policy = if nthreads < 2 && r.chance(1, 2) {
            Pol::Coop
        } else {
            match r.below(10) {
                0..=5 => Pol::Gap(r.logu(15, 30_000)),
                6..=8 => Pol::Pct(1 + r.below(6), r.logu(20_000, 4_000_000)),
                _ => Pol::Coop,
            }
        };
        let nst = if r.chance(1, 3) { 1 + r.below(3) } else { 0 };
        let mut stalls = vec_of(nst, || (r.logu(1000, 2_000_000), r.logu(1000, 400_000)));
        stalls.sort();
        SchedSpec {
            seed: r.next(),
            policy,
            conflict_den: *r.pick(&[0, 0, 3, 10, 40, 150]),
            spurious_den: *r.pick(&[0, 0, 4, 30]),
            stalls,
            clock_jumps: vec![],
            epoch: self.epoch,
            ns_per_tick: 20,
            ncpu: *r.pick(&[1usize, 2, 4, 4, 8]),
            rayon: 1 + r.below(4) as usize,
            max_steps: 400_000_000,
            reuse: r.chance(1, 2),
            explicit: None,
        }
    }
    pub fn net0(&mut self) -> NetSpec {
        NetSpec { seed: self.r.next(), w: [1, 0, 0, 0, 0, 0, 0, 0], max_delay_ms: 1, outages: vec![], secrets: vec![] }
    }
    pub fn plan(mut self, prop: &str, slots: usize, mut prelude: Vec<Op>, mut threads: Vec<Vec<Op>>, mut postlude: Vec<Op>) -> Plan {
        if let Some((spec, ev)) = self.big {
            let ffi = self.ffi;
            let b = if ffi { Op::FfiBuild { spec, slot: spec, free_early: true } } else { Op::Build { spec, slot: spec } };
            let sc = |k: Kind| if ffi { Op::FfiScan { slot: spec, ev } } else { Op::Scan { slot: spec, ev, blocked: vec![], kind: k, hook: Hook::None } };
            prelude.push(b);
            let k = self.kind();
            for t in threads.iter_mut() {
                if self.r.chance(1, 2) {
                    let at = self.r.below(t.len() as u64 + 1) as usize;
                    t.insert(at, sc(k));
                }
            }
            postlude.push(sc(Kind::Ordered));
        }
        let mut sched = self.sched(threads.len());
        let long = prelude.iter().chain(threads.iter().flatten()).chain(&postlude).any(|o| matches!(o, Op::Churn { n, .. } if *n > 200));
        if long || self.events.iter().any(|e| leaves(e).len() > 10_000) {
            sched.max_steps = 1_500_000_000;
        }
        let net = self.net0();
        Plan {
            prop: s(prop),
            sched,
            rules: self.rules,
            scanners: self.scanners,
            events: self.events,
            slots,
            prelude,
            threads,
            postlude,
            steady: None,
            net,
            slow_exporter: (0, 0),
            tag: self.tag.join("+"),
        }
    }
    fn kind(&mut self) -> Kind {
        *self.r.pick(&[Kind::Simple, Kind::Ordered, Kind::Ordered, Kind::Utf16])
    }
    /// A thread that sets the system clock forwards and backwards.
    fn jumps(&mut self) -> Vec<Op> {
        let mut v = vec![];
        for _ in 0..1 + self.r.below(4) {
            if self.r.chance(2, 3) {
                v.push(Op::Sleep { ns: self.r.logu(100, 2_000_000) });
            }
            let d = self.r.logu(1, 100_000) as i64;
            v.push(Op::Jump { s: if self.r.chance(2, 3) { -d } else { d } });
        }
        v
    }
    fn blocked(&mut self) -> Vec<usize> {
        if self.r.chance(1, 6) {
            vec_of(1 + self.r.below(2), || 0).iter().map(|_| self.r.below(4) as usize).collect()
        } else {
            vec![]
        }
    }
    fn scan(&mut self, slots: usize) -> Op {
        Op::Scan {
            slot: self.r.below(slots as u64) as usize,
            ev: self.r.below(self.events.len() as u64) as usize,
            blocked: self.blocked(),
            kind: self.kind(),
            hook: Hook::None,
        }
    }
    fn nleaf(&self, ev: usize) -> u64 {
        leaves(&self.events[ev]).len() as u64
    }
    fn spec(&mut self) -> usize {
        self.r.below(self.scanners.len() as u64) as usize
    }
    /// a churn that leaves the memo store shortly before its next clean-up
    /// scanners in use, and built again, while the memo store is cleaned up
    fn gc_live(&mut self, pre: &mut Vec<Op>, ns: usize) {
        self.tag.push(s("gc_live"));
        let mut c = self.churn();
        if let Op::Churn { n, .. } = &mut c {
            *n += 50 + self.r.below(200) as u32;
        }
        pre.push(c);
        for _ in 0..self.r.below(1 + ns as u64) {
            let slot = self.r.below(ns as u64) as usize;
            if self.r.chance(1, 2) {
                pre.push(Op::Build { spec: self.r.below(ns as u64) as usize, slot });
            } else {
                let o = self.scan(ns);
                pre.push(o);
            }
        }
    }
    fn churn(&mut self) -> Op {
        Op::Churn { base: 1000 * (1 + self.r.below(50)), n: 900 + self.r.below(130) as u32, kw: false, hold: 0 }
    }
}

pub fn generate(prop: &str, seed: u64) -> Plan {
    let seed = prop.bytes().fold(detsim::rng::mix(seed), |h, b| detsim::rng::mix(h ^ b as u64));
    let mut p = match prop {
        "C01" => c01(seed),
        "C02" => c02(seed),
        "C03" => c03(seed),
        "C04" => c04(seed),
        "C05" => c05(seed),
        "C06" => c06(seed),
        "C07" => c07(seed),
        "C08" => c08(seed),
        "C09" | "C10" | "C11" => net(prop, seed),
        "C12" => c12(seed),
        "C13" => c13(seed),
        _ => panic!("unknown property {}", prop),
    };
    json_events(&mut p, seed);
    p
}
/// some of the library's own events are the ones made of `serde_json::Value`
fn json_events(p: &mut Plan, seed: u64) {
    let mut r = Rng::new(seed, 0x75);
    let hash = p.prop == "C13";
    let ffi = p.prop == "C08";
    let maps: Vec<bool> = p.events.iter().map(|e| matches!(e, Node::M(_))).collect();
    for o in p.prelude.iter_mut().chain(p.threads.iter_mut().flatten()).chain(p.postlude.iter_mut()) {
        let plain = !matches!(o, Op::Scan { hook, .. } if *hook != Hook::None);
        if let Op::Scan { kind, ev, .. } | Op::Validate { kind, ev, .. } = o {
            if *kind == Kind::Simple && r.chance(1, 4) || ffi && plain && *kind == Kind::Ordered && r.chance(1, 2) {
                *kind = Kind::Binary;
            }
            if *kind == Kind::Simple && r.chance(1, 2) {
                *kind = if hash && maps[*ev] && r.chance(1, 2) { Kind::Hash } else { Kind::Json };
            }
        }
    }
}

fn build_all(g: &G) -> Vec<Op> {
    (0..g.scanners.len()).map(|i| Op::Build { spec: i, slot: i }).collect()
}

fn c01(seed: u64) -> Plan {
    let mut g = G::new(seed);
    let f = Feat { jwt: g.r.chance(1, 4), nscanners: (1, 4), nrules: (2, 7), ..Default::default() };
    if g.r.chance(1, 6) {
        return g.succession("C01", &f);
    }
    g.world(&f);
    let swaps = g.r.chance(1, 3);
    if swaps {
        g.twins(&f);
    }
    if g.r.chance(1, 9) {
        g.oversize(&f);
    }
    let ns = g.scanners.len();
    let mut pre = build_all(&g);
    if g.r.chance(1, 30) {
        let c = g.churn();
        pre.insert(0, c);
        g.tag.push(s("gc"));
    }
    if g.r.chance(1, 40) {
        g.gc_live(&mut pre, ns);
    }
    let short = g.r.chance(1, 8);
    if short {
        g.tag.push(s("short_threads"));
    }
    let churny = g.r.chance(1, 3);
    let nested = g.r.chance(1, 3);
    let nt = 2 + g.r.below(3);
    let mut threads = vec![];
    for _ in 0..nt {
        let mut ops = vec![];
        for _ in 0..2 + g.r.below(5) {
            if churny && g.r.chance(1, 4) {
                let slot = g.r.below(ns as u64) as usize;
                let what = g.r.below(3);
                if what == 0 {
                    ops.push(Op::Drop { slot });
                }
                ops.push(match what {
                    1 => Op::Churn { base: 77_000 + g.r.below(100), n: 1 + g.r.below(4) as u32, kw: g.r.chance(1, 2), hold: 0 },
                    _ => Op::Build { spec: slot, slot },
                });
                continue;
            }
            if short && g.r.chance(1, 3) {
                let o = g.spawn(ns);
                ops.push(o);
                continue;
            }
            if swaps && g.r.chance(1, 3) {
                let slot = g.r.below(ns as u64) as usize;
                g.swap(slot, &mut ops);
                continue;
            }
            let mut o = g.scan(ns);
            if nested && g.r.chance(1, 3) {
                if let Op::Scan { ev, kind, hook, .. } = &mut o {
                    *kind = Kind::Ordered;
                    let n = 1 + g.r.below(2 * g.nleaf(*ev).max(1) + 2) as u32;
                    *hook = match g.r.below(4) {
                        0 => Hook::Build(n, g.spec()),
                        1 => Hook::Sleep(n, g.r.logu(1000, 5_000_000)),
                        _ => Hook::Nested(n, g.r.below(ns as u64) as usize, g.r.below(g.events.len() as u64) as usize),
                    };
                }
            }
            ops.push(o);
        }
        threads.push(ops);
    }
    if churny {
        g.tag.push(s("churn"));
    }
    if nested {
        g.tag.push(s("nested"));
    }
    if !f.jwt {
        g.burst(&mut threads, ns);
        if g.r.chance(1, 10) {
            g.tag.push(s("clock_jump"));
            threads.push(g.jumps());
        }
    }
    let post = vec_of(1 + g.r.below(2), || ()).iter().map(|_| g.scan(ns)).collect();
    g.plan("C01", ns, pre, threads, post)
}

/// Texts that are legal both as a pattern and, escaped, as a keyword, or that
/// are only legal as one of them.
const CROSS: &[(&str, &str, &str)] = &[
    // (keyword, pattern, sample)
    ("$abc$", r"\$abc\$", "$ABC$"),
    ("é", "é", "É é"),
    ("_id_", "_id_", "_ID_ _id_"),
    ("(ab", r"\(ab", "(AB (ab"),
    ("日本", "日本", "日本"),
    ("Ω", "Ω", "ω Ω"),
    ("#ref", "#ref", "#REF"),
    ("a.b", r"a\.b", "A.B a.b"),
    ("pin", "(?-u:\\bpin\\b)", "PIN pin"),
    ("{x}", r"\{x\}", "{X} {x}"),
    ("__", "__", "__"),
    ("żó", "żó", "ŻÓ żó"),
];
const BADPAT: &[&str] = &[
    "(", "[a", "a{2,1}", "x*", "(a|)", r"\p{Nope}", "a{1,70000}", "", r"(?<=a)b", "(?:a{100}){100}", r"\b", "[b-a]", "a**b??",
];

fn c02(seed: u64) -> Plan {
    let mut g = G::new(seed);
    g.odd_kw = true;
    let f = Feat { once: false, scope: false, labels: false, nrules: (1, 3), nscanners: (1, 2), nevents: (1, 2), ..Default::default() };
    g.world(&f);
    let plain = |p: &str| RuleSpec {
        p: s(p),
        m: None,
        act: Act::Redact(s("[R]")),
        scope: ScopeSpec::All,
        kw: None,
        val: Val::None,
        labels: vec![],
        mv: Mv::None,
        once: false,
    };
    let one = |i: usize| ScannerSpec { rules: vec![i], labels: vec![], multipass: true, wild: false, kwpaths: false };
    // keyword / pattern pairs
    if g.r.chance(1, 2) {
        g.tag.push(s("cross"));
        for _ in 0..1 + g.r.below(2) {
            let (k, p, t) = *g.r.pick(CROSS);
            let mut a = plain(p);
            a.m = None;
            let mut b = plain("qq[0-9]+");
            let kw = if g.r.chance(1, 2) {
                Kw { ahead: 30, inc: vec![s(k)], exc: vec![] }
            } else {
                Kw { ahead: 30, inc: vec![], exc: vec![s(k)] }
            };
            b.kw = Some(kw);
            let i = g.rules.len();
            g.rules.push(a);
            g.rules.push(b);
            g.scanners.push(one(i));
            let mut sb = one(i + 1);
            sb.kwpaths = g.r.chance(1, 3);
            g.scanners.push(sb);
            let tail = if g.r.chance(1, 2) { t.to_lowercase() } else { s(t) };
            g.events.push(Node::M(vec![(s("a"), Node::S(format!("{} qq12 {}", t, tail))), (s(k), Node::S(s("qq77")))]));
        }
    }
    // near-identical patterns: same text up to case, spaces, flags
    if g.r.chance(1, 2) {
        g.tag.push(s("near"));
        let st = *g.r.pick(STEMS);
        let long = "lorem-ipsum-".repeat(1 + g.r.below(30) as usize);
        let v = [
            (s(st), format!("{} {}", st, st.to_uppercase())),
            (st.to_uppercase(), format!("{} {}", st, st.to_uppercase())),
            (format!("(?i){}", st), format!("{} {}", st, st.to_uppercase())),
            (format!("{} ", st), format!("{} {}", st, st)),
            (format!("{}+", st), format!("{}{}", st, &st[st.len() - 1..])),
            (format!("(?:{})", st), s(st)),
            (format!("{}{}1", st, long), format!("{}{}1 {}{}2", st, long, st, long)),
            (format!("{}{}2", st, long), format!("{}{}1 {}{}2", st, long, st, long)),
            (format!("1{}{}", long, st), format!("1{}{} 2{}{}", long, st, long, st)),
            (format!("2{}{}", long, st), format!("1{}{} 2{}{}", long, st, long, st)),
            (format!("{}{}1{}", st, long, long), format!("{0}{1}1{1} {0}{1}2{1}", st, long)),
            (format!("{}{}2{}", st, long, long), format!("{0}{1}1{1} {0}{1}2{1}", st, long)),
            (format!("{}12{}", long, st), format!("{0}12{1} {0}21{1}", long, st)),
            (format!("{}21{}", long, st), format!("{0}12{1} {0}21{1}", long, st)),
        ];
        let pair = if g.r.chance(1, 2) { Some(6 + 2 * g.r.below(4) as usize) } else { None };
        for k in 0..2 + g.r.below(2) as usize {
            let (p, t) = match pair {
                Some(i) if k < 2 => v[i + k].clone(),
                _ => g.r.pick(&v).clone(),
            };
            let i = g.rules.len();
            let mut x = plain(&p);
            x.act = g.act();
            g.rules.push(x);
            g.scanners.push(one(i));
            g.events.push(Node::S(t));
        }
    }
    // configurations that must be rejected
    if g.r.chance(2, 3) {
        g.tag.push(s("invalid"));
        for _ in 0..1 + g.r.below(2) {
            let i = g.rules.len();
            let x = g.bad_rule();
            g.rules.push(x);
            let mut sp = one(i);
            if g.r.chance(1, 3) {
                sp.rules.insert(0, 0);
            }
            g.scanners.push(sp);
        }
    }
    if g.r.chance(1, 3) {
        g.twins(&f);
    }
    if g.r.chance(1, 40) {
        g.oversize(&f);
    }
    let n = g.scanners.len();
    let mut pre = vec![];
    if g.r.chance(1, 14) {
        pre.push(g.churn());
        g.tag.push(s("gc"));
    }
    for i in 0..n {
        if g.r.chance(1, 3) {
            pre.push(Op::Build { spec: i, slot: i });
        }
    }
    if g.r.chance(1, 20) {
        g.gc_live(&mut pre, n);
    }
    let nt = 1 + g.r.below(4);
    let mut threads = vec![];
    for _ in 0..nt {
        let mut ops = vec![];
        for _ in 0..3 + g.r.below(6) {
            let slot = g.r.below(n as u64) as usize;
            if g.r.chance(1, 12) {
                g.swap(slot, &mut ops);
                continue;
            }
            ops.push(match g.r.below(9) {
                0..=3 => Op::Build { spec: if g.r.chance(1, 4) { g.spec() } else { slot }, slot },
                4 => Op::Drop { slot },
                5 => Op::Churn { base: 88_000 + g.r.below(50), n: 1 + g.r.below(8) as u32, kw: g.r.chance(1, 2), hold: 0 },
                _ => {
                    let mut o = g.scan(n);
                    if let Op::Scan { slot: sl, blocked, kind, .. } = &mut o {
                        *sl = slot;
                        blocked.clear();
                        *kind = Kind::Ordered;
                    }
                    o
                }
            });
        }
        threads.push(ops);
    }
    let mut post = vec![];
    for i in 0..n {
        if g.r.chance(2, 3) {
            post.push(Op::Build { spec: i, slot: i });
            for e in 0..g.events.len() {
                post.push(Op::Scan { slot: i, ev: e, blocked: vec![], kind: Kind::Ordered, hook: Hook::None });
            }
        }
    }
    g.plan("C02", n, pre, threads, post)
}

fn c03(seed: u64) -> Plan {
    let mut g = G::new(seed);
    let f = Feat { nrules: (1, 3), nscanners: (1, 2), nevents: (1, 2), ..Default::default() };
    g.world(&f);
    let n = g.scanners.len();
    let mode = g.r.below(12);
    match mode {
        0 | 1 => {
            // distinct patterns: windows of several clean-up cycles
            g.tag.push(s("distinct"));
            let nt = 1 + g.r.below(3);
            let kw = mode == 1;
            let rounds = 3u64;
            let hold = if nt == 1 && g.r.chance(2, 3) { 300 } else { 0 };
            if hold > 0 {
                g.tag.push(s("held"));
            }
            let mut pre = build_all(&g);
            if g.r.chance(1, 2) {
                // after some failures
                for _ in 0..1 + g.r.below(3) {
                    let slot = g.r.below(n as u64) as usize;
                    let ev = g.r.below(g.events.len() as u64) as usize;
                    let k = 1 + g.r.below(2 * g.nleaf(ev).max(1)) as u32;
                    pre.push(match g.r.below(4) {
                        0 => Op::BuildBoom { spec: slot },
                        1 => Op::Owned { spec: slot, ev, n: k },
                        _ => Op::Scan { slot, ev, blocked: vec![], kind: Kind::Ordered, hook: Hook::Panic(k) },
                    });
                }
            }
            let mut threads = vec![];
            // every thread churns its own never-seen patterns
            for t in 0..nt {
                let each = 3300 / nt;
                let mut ops = vec![];
                for k in 0..rounds {
                    ops.push(Op::Churn { base: 1_000_000 * (t + 1) + 10_000 * k, n: each as u32, kw, hold });
                }
                threads.push(ops);
            }
            pre.push(Op::Mark { v: 0 });
            let mut p = g.plan("C03", n, pre, threads, vec![Op::Mark { v: 9 }]);
            // long runs: spread the preemptions
            if let Pol::Gap(m) = p.sched.policy {
                p.sched.policy = Pol::Gap(m.max(5000));
            }
            p.sched.conflict_den = if p.sched.conflict_den > 0 { p.sched.conflict_den.max(200) } else { 0 };
            p
        }
        _ => {
            // the same configuration again and again, with failures in between
            g.tag.push(s("repeat"));
            let mut round = vec![];
            let fresh = g.r.chance(1, 3);
            let short = g.r.chance(1, 4);
            if fresh {
                g.tag.push(s("fresh"));
            }
            if short {
                g.tag.push(s("short_threads"));
                round.push(g.spawn(n));
            }
            for _ in 0..3 + g.r.below(4) {
                let slot = g.r.below(n as u64) as usize;
                if fresh && g.r.chance(1, 2) {
                    let ev = g.r.below(g.events.len() as u64) as usize;
                    round.push(if g.r.chance(1, 2) {
                        Op::FreshScan { slot, ev, n: 1 + g.r.below(3) as u32 }
                    } else {
                        Op::FreshBuild { spec: slot, ev, what: g.r.below(8) as u8 }
                    });
                    continue;
                }
                round.push(match g.r.below(8) {
                    0 if g.r.chance(1, 2) => Op::Owned { spec: slot, ev: g.r.below(g.events.len() as u64) as usize, n: 1 + g.r.below(6) as u32 },
                    0 => Op::BuildBoom { spec: slot },
                    1..=2 => Op::Build { spec: slot, slot },
                    3 => Op::Drop { slot },
                    4 => {
                        let ev = g.r.below(g.events.len() as u64) as usize;
                        let k = 1 + g.r.below(2 * g.nleaf(ev).max(1)) as u32;
                        Op::Scan { slot, ev, blocked: vec![], kind: Kind::Ordered, hook: Hook::Panic(k) }
                    }
                    _ => g.scan(n),
                });
            }
            let mut threads = vec![];
            for _ in 0..1 + g.r.below(3) {
                let mut v = vec![];
                for _ in 0..if short { 6 } else { 20 } {
                    v.extend(round.clone());
                }
                threads.push(v);
            }
            let pre = build_all(&g);
            let reset = build_all(&g);
            let mut p = g.plan("C03", n, pre, threads, vec![]);
            p.steady = Some(Steady { round, n: if short { 16 } else { 40 }, marks: 8, reset });
            p
        }
    }
}

fn c04(seed: u64) -> Plan {
    let mut g = G::new(seed);
    let f = Feat { jwt: false, nscanners: (1, 4), nrules: (2, 6), ..Default::default() };
    g.world(&f);
    if g.r.chance(1, 4) {
        g.twins(&f);
    }
    if g.r.chance(1, 40) {
        g.oversize(&f);
    }
    let ns = g.scanners.len();
    if g.r.chance(1, 3) {
        g.bad_scanner(&f);
    }
    let boom = g.r.chance(1, 6);
    let owned = g.r.chance(1, 8);
    if g.r.chance(1, 8) {
        let mut e = g.scanners[0].clone();
        e.rules.clear();
        g.scanners.push(e);
    }
    let mut pre = vec![];
    if g.r.chance(1, 20) {
        pre.push(g.churn());
        g.tag.push(s("gc"));
    }
    for i in 0..ns {
        if g.r.chance(2, 3) {
            pre.push(Op::Build { spec: i, slot: i });
        }
    }
    if g.r.chance(1, 20) {
        g.gc_live(&mut pre, ns);
    }
    let lifecycle = g.r.chance(1, 2);
    let nt = 2 + g.r.below(4);
    let mut threads = vec![];
    for _ in 0..nt {
        let mut ops = vec![];
        for _ in 0..2 + g.r.below(6) {
            let slot = g.r.below(ns as u64) as usize;
            ops.push(match g.r.below(if lifecycle { 8 } else { 20 }) {
                0 if owned => Op::Owned { spec: g.spec(), ev: g.r.below(g.events.len() as u64) as usize, n: 1 + g.r.below(6) as u32 },
                0 if boom => Op::BuildBoom { spec: slot },
                0..=2 => Op::Build { spec: g.spec(), slot },
                3..=4 => Op::Drop { slot },
                5 => Op::Churn { base: 99_000 + g.r.below(1000), n: 1 + g.r.below(4) as u32, kw: g.r.chance(1, 2), hold: 0 },
                _ => {
                    let mut o = g.scan(ns);
                    if let Op::Scan { ev, kind, hook, .. } = &mut o {
                        if *kind != Kind::Simple && g.r.chance(1, 5) {
                            let k = 1 + g.r.below(2 * g.nleaf(*ev).max(1)) as u32;
                            *hook = Hook::Sleep(k, g.r.logu(1000, 2_000_000_000));
                        }
                    }
                    o
                }
            });
        }
        threads.push(ops);
    }
    g.burst(&mut threads, ns);
    let mut post = vec![];
    if g.r.chance(1, 3) {
        for i in 0..ns {
            post.push(Op::Drop { slot: i });
        }
    }
    post.push(Op::Gauges);
    post.push(Op::Churn { base: 7_000_000, n: 1, kw: true, hold: 0 });
    post.push(Op::Gauges);
    if g.r.chance(1, 6) {
        g.tag.push(s("clock_jump"));
        threads.push(g.jumps());
    }
    let slow = if g.r.chance(1, 3) { (1 + g.r.below(6), g.r.logu(1000, 3_000_000)) } else { (0, 0) };
    if slow.0 > 0 {
        g.tag.push(s("slow_exporter"));
    }
    let mut p = g.plan("C04", ns, pre, threads, post);
    p.slow_exporter = slow;
    p
}

fn c05(seed: u64) -> Plan {
    let mut g = G::new(seed);
    let f = Feat { jwt: true, nscanners: (1, 2), nrules: (0, 2), nevents: (0, 1), once: false, ..Default::default() };
    let nj = 3 + g.r.below(3) as usize;
    let samples = jwt_samples(&mut g.r, g.epoch, nj);
    g.pats.push(Pat { p: s(JWT_P), m: Some(s(JWT_P)), samples, val: Val::Jwt });
    let e = g.event(&f);
    g.events.push(e);
    g.world(&f);
    // make sure tokens occur
    let toks = g.pats[0].samples.clone();
    for t in &toks {
        if g.r.chance(2, 3) {
            g.events.push(Node::M(vec![(s("token"), Node::S(format!("jwt {} end", t)))]));
        }
    }
    let all = toks.join(" ");
    let many = g.events.len();
    g.events.push(Node::M(toks.iter().enumerate().map(|(i, t)| (format!("t{}", i), Node::S(t.clone()))).collect()));
    g.events.push(Node::S(all));
    let mut x = g.rules[0].clone();
    x.p = s(JWT_P);
    x.m = Some(s(JWT_P));
    x.val = Val::Jwt;
    x.kw = None;
    x.scope = ScopeSpec::All;
    x.once = false;
    g.rules.push(x);
    let j = g.rules.len() - 1;
    for sc in g.scanners.iter_mut() {
        sc.rules.push(j);
    }
    g.scanners.push(ScannerSpec { rules: vec![j], labels: vec![], multipass: true, wild: false, kwpaths: false });
    let ns = g.scanners.len();
    let pre = build_all(&g);
    let mut threads = vec![];
    for _ in 0..1 + g.r.below(3) {
        let mut ops = vec![];
        for _ in 0..4 + g.r.below(6) {
            if g.r.chance(1, 4) {
                ops.push(Op::Sleep { ns: g.r.logu(1_000_000, 90_000_000_000_000) });
            }
            let mut o = g.scan(ns);
            if let Op::Scan { ev, blocked, kind, hook, .. } = &mut o {
                blocked.clear();
                if g.r.chance(1, 3) {
                    // the caller is slow, or tokens expire, in the middle of the scan
                    if g.r.chance(2, 3) {
                        *ev = many;
                    }
                    *kind = if g.r.chance(3, 4) { Kind::Ordered } else { Kind::Utf16 };
                    let n = 1 + g.r.below(2 * g.nleaf(*ev).max(1)) as u32;
                    *hook = Hook::Sleep(n, g.r.logu(1_000_000, 900_000_000_000_000));
                }
            }
            ops.push(o);
        }
        threads.push(ops);
    }
    let mut clock = vec![];
    // the clock never goes back before 1970
    let mut room = g.epoch - 1_000_000;
    let mut jump = |g: &mut G| {
        let d = *g.r.pick(&[1i64, 2, 6, 61, 3601, 90_000, 11_000_000, 900_000_000]);
        if g.r.chance(1, 2) && room > d {
            room -= d;
            Op::Jump { s: -d }
        } else {
            Op::Jump { s: d }
        }
    };
    for _ in 0..2 + g.r.below(5) {
        clock.push(Op::Sleep { ns: g.r.logu(1000, 50_000_000_000) });
        clock.push(jump(&mut g));
    }
    threads.push(clock);
    let mut post = vec![];
    for _ in 0..2 + g.r.below(4) {
        post.push(jump(&mut g));
        let ev = g.events.len() - 1 - g.r.below(3.min(g.events.len() as u64)) as usize;
        post.push(Op::Scan { slot: ns - 1, ev, blocked: vec![], kind: Kind::Simple, hook: Hook::None });
    }
    g.plan("C05", ns, pre, threads, post)
}

fn c06(seed: u64) -> Plan {
    let mut g = G::new(seed);
    let f = Feat { boom: g.r.chance(1, 2), nscanners: (1, 3), nrules: (2, 6), ..Default::default() };
    if g.r.chance(1, 20) {
        return g.succession("C06", &f);
    }
    g.world(&f);
    if g.r.chance(1, 4) {
        g.twins(&f);
    }
    if g.r.chance(1, 40) {
        g.oversize(&f);
    }
    let ns = g.scanners.len();
    let mut pre = build_all(&g);
    if g.r.chance(1, 3) {
        g.bad_scanner(&f);
    }
    if g.r.chance(1, 30) {
        let c = g.churn();
        pre.insert(0, c);
        g.tag.push(s("gc"));
    }
    if g.r.chance(1, 40) {
        g.gc_live(&mut pre, ns);
    }
    let nt = 1 + g.r.below(4);
    let mut threads = vec![];
    for _ in 0..nt {
        let mut ops = vec![];
        for _ in 0..3 + g.r.below(5) {
            let slot = g.r.below(ns as u64) as usize;
            ops.push(match g.r.below(10) {
                0 if g.r.chance(1, 3) => g.spawn(ns),
                0 if g.r.chance(1, 3) => Op::Owned { spec: slot, ev: g.r.below(g.events.len() as u64) as usize, n: 1 + g.r.below(6) as u32 },
                0 => Op::BuildBoom { spec: slot },
                1 => Op::Build { spec: g.spec(), slot },
                2..=5 => {
                    let mut o = g.scan(ns);
                    if let Op::Scan { ev, kind, hook, .. } = &mut o {
                        if *kind == Kind::Simple {
                            *kind = Kind::Ordered;
                        }
                        *hook = Hook::Panic(1 + g.r.below(3 * g.nleaf(*ev).max(1) + 1) as u32);
                    }
                    o
                }
                _ => g.scan(ns),
            });
        }
        threads.push(ops);
    }
    if !f.boom {
        g.burst(&mut threads, ns);
    }
    let mut post = vec![];
    for i in 0..ns {
        let mut o = g.scan(ns);
        if let Op::Scan { slot, .. } = &mut o {
            *slot = i;
        }
        post.push(o);
        if g.r.chance(1, 3) {
            post.push(Op::Build { spec: i, slot: i });
            let o = g.scan(ns);
            post.push(o);
        }
    }
    g.plan("C06", ns, pre, threads, post)
}

fn bad_bytes(g: &mut G) -> Vec<u8> {
    let mut b = vec![];
    if !g.events.is_empty() && g.r.chance(3, 4) {
        let i = g.r.below(g.events.len() as u64) as usize;
        crate::ev::encode(&g.events[i], &mut b);
        match g.r.below(4) {
            0 => {
                let n = g.r.below(b.len() as u64 + 1) as usize;
                b.truncate(n);
            }
            1 => {
                if !b.is_empty() {
                    let i = g.r.below(b.len() as u64) as usize;
                    b[i] = g.r.below(256) as u8;
                }
            }
            2 => b.push(2),
            _ => b.extend([3, 0xFF, 0xFF, 0xFF, 0xF0]),
        }
    } else {
        b = vec_of(g.r.below(20), || 0u8);
        for x in b.iter_mut() {
            *x = g.r.below(8) as u8;
        }
    }
    b
}
fn bad_json(g: &mut G) -> String {
    s(*g.r.pick(&[
        "",
        "{",
        "[]",
        "null",
        "{\"pattern\":1}",
        "{\"pattern\":\"a\"}",
        "{\"pattern\":\"a\",\"match_action\":{\"type\":\"Nope\"}}",
        "{\"pattern\":\"a\",\"match_action\":{\"type\":\"PartialRedact\"}}",
        "{\"pattern\":\"a\",\"match_action\":{\"type\":\"None\"},\"labels\":[[\"x\"]]}",
        "{\"pattern\":\"a\",\"match_action\":{\"type\":\"None\"},\"validator\":{\"type\":\"X\"}}",
        "{\"pattern\":\"a\u{0}b\",\"match_action\":{\"type\":\"None\"}}",
    ]))
}

fn c07(seed: u64) -> Plan {
    let mut g = G::new(seed);
    let f = Feat { ffi: true, once: false, raw: g.r.chance(1, 2), nscanners: (1, 3), nrules: (1, 4), nevents: (1, 3), ..Default::default() };
    g.world(&f);
    // some specs that creation must reject
    let nvalid = g.scanners.len();
    if g.r.chance(1, 2) {
        let mut x = g.rules[0].clone();
        match g.r.below(3) {
            0 => x.p = s(*g.r.pick(BADPAT)),
            1 => x.act = Act::First(0),
            _ => x.kw = Some(Kw { ahead: 0, inc: vec![s("pin")], exc: vec![] }),
        }
        x.m = None;
        g.rules.push(x);
        let i = g.rules.len() - 1;
        g.scanners.push(ScannerSpec { rules: vec![i], labels: vec![], multipass: true, wild: false, kwpaths: false });
    }
    let ns = g.scanners.len();
    let mut round = vec![];
    for _ in 0..4 + g.r.below(6) {
        let slot = g.r.below(ns as u64) as usize;
        round.push(match g.r.below(10) {
            0..=2 => Op::FfiBuild { spec: slot, slot, free_early: g.r.chance(1, 2) },
            3 => Op::FfiDrop { slot },
            4 => Op::FfiBadScan { slot, bytes: bad_bytes(&mut g) },
            5 => Op::FfiBadRule { json: bad_json(&mut g) },
            _ => Op::FfiScan { slot, ev: g.r.below(g.events.len() as u64) as usize },
        });
    }
    let mut pre = vec![];
    for i in 0..nvalid {
        pre.push(Op::FfiBuild { spec: i, slot: i, free_early: true });
    }
    // several callers at one rule list
    let shared = g.r.chance(1, 4);
    if shared {
        g.tag.push(s("shared_list"));
    }
    let marks = g.r.chance(1, 2);
    let steady = !g.r.chance(1, 2);
    let nt = if shared { 2 + g.r.below(3) } else { 1 + g.r.below(3) };
    let mut threads = vec![];
    for _ in 0..nt {
        let mut v = vec![];
        for _ in 0..1 + g.r.below(2) {
            v.extend(round.clone());
        }
        if shared && marks {
            for _ in 0..1 + g.r.below(3) {
                let id = 100 * threads.len() as u64 + v.len() as u64;
                v.push(Op::FfiMark { id });
            }
        } else if shared {
            for _ in 0..1 + g.r.below(3) {
                v.push(Op::FfiShared { list: 0, spec: g.r.below(ns as u64) as usize });
            }
        } else if g.r.chance(1, 3) {
            v.push(Op::FfiShared { list: g.r.below(2) as usize, spec: g.r.below(ns as u64) as usize });
        }
        // every thread its own rotation of the round
        let k = if shared { v.len() - 1 - g.r.below(v.len().min(4) as u64) as usize } else { g.r.below(v.len() as u64) as usize };
        v.rotate_left(k);
        threads.push(v);
    }
    let mut post = vec![];
    if shared && marks {
        post.push(Op::FfiMark { id: 99_000 });
    }
    for i in 0..nvalid {
        for e in 0..g.events.len() {
            post.push(Op::FfiScan { slot: i, ev: e });
        }
    }
    // steady state: the same round over and over must not accumulate anything
    let mut reset = vec![];
    for i in 0..ns {
        reset.push(Op::FfiDrop { slot: i });
    }
    for i in 0..nvalid {
        reset.push(Op::FfiBuild { spec: i, slot: i, free_early: true });
    }
    let mut p = g.plan("C07", ns, pre, threads, post);
    if steady {
        p.steady = Some(Steady { round, n: 12, marks: 8, reset });
    }
    p
}

fn c08(seed: u64) -> Plan {
    let mut g = G::new(seed);
    let f = Feat { ffi: true, once: false, raw: g.r.chance(1, 2), jwt: g.r.chance(1, 6), nscanners: (1, 3), nrules: (1, 6), nevents: (2, 5), ..Default::default() };
    g.ffi = true;
    if g.r.chance(1, 10) {
        return g.succession("C08", &f);
    }
    g.world(&f);
    let swaps = g.r.chance(1, 4);
    if swaps {
        g.twins(&f);
    }
    if g.r.chance(1, 20) {
        g.oversize(&f);
    }
    let ns = g.scanners.len();
    let mut pre = vec![];
    for i in 0..ns {
        pre.push(Op::FfiBuild { spec: i, slot: i, free_early: g.r.chance(1, 2) });
        pre.push(Op::Build { spec: i, slot: i });
    }
    let nt = 1 + g.r.below(3);
    let mut threads = vec![];
    for _ in 0..nt {
        let mut ops = vec![];
        for _ in 0..2 + g.r.below(4) {
            let slot = g.r.below(ns as u64) as usize;
            let mut ev = g.r.below(g.events.len() as u64) as usize;
            if g.nleaf(ev) > 10_000 {
                ev = 0;
            }
            if swaps && g.r.chance(1, 4) {
                g.swap(slot, &mut ops);
            }
            ops.push(Op::FfiScan { slot, ev });
            if g.r.chance(1, 2) {
                ops.push(Op::Scan { slot, ev, blocked: vec![], kind: Kind::Ordered, hook: Hook::None });
            }
            if g.r.chance(1, 6) {
                ops.push(Op::FfiBuild { spec: slot, slot, free_early: g.r.chance(1, 2) });
            }
        }
        threads.push(ops);
    }
    if !f.jwt {
        g.burst(&mut threads, ns);
    }
    let mut post = vec![];
    if threads.len() > 1 && g.r.chance(1, 8) {
        g.tag.push(s("shared_list"));
        for (k, t) in threads.iter_mut().enumerate() {
            for j in 0..1 + g.r.below(3) {
                let at = g.r.below(t.len() as u64 + 1) as usize;
                t.insert(at, Op::FfiMark { id: 100 * k as u64 + j });
            }
        }
        post.push(Op::FfiMark { id: 99_000 });
    }
    for i in 0..ns {
        for e in 0..g.events.len() {
            if g.nleaf(e) > 10_000 {
                continue;
            }
            post.push(Op::FfiScan { slot: i, ev: e });
            post.push(Op::Scan { slot: i, ev: e, blocked: vec![], kind: Kind::Ordered, hook: Hook::None });
        }
    }
    g.plan("C08", ns, pre, threads, post)
}

/// another value of the same length that differs from this one in a single place
fn near_twin(r: &mut Rng, t: &str) -> String {
    let mut b: Vec<char> = t.chars().collect();
    let i = *r.pick(&[0, b.len() / 2, b.len() - 1, b.len() - 1]);
    b[i] = if b[i] == '7' { '8' } else { '7' };
    if r.chance(1, 6) {
        // only the case differs
        let u: String = t.to_uppercase();
        if u != t {
            return u;
        }
    }
    b.into_iter().collect()
}
fn token(r: &mut Rng, n: u64, cs: &[u8]) -> String {
    (0..n).map(|_| cs[r.below(cs.len() as u64) as usize] as char).collect()
}
const VISIBLE: &[u8] = b"AZaz09=+/_-.%&?#:;,'\"$(){}[]<>|~^`@!*\\";
const AN: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789";

fn net(prop: &str, seed: u64) -> Plan {
    let mut g = G::new(seed);
    let f = Feat { scope: false, kw: false, labels: false, once: false, nrules: (0, 2), nscanners: (0, 0), nevents: (0, 0), ..Default::default() };
    g.world(&f);
    for x in g.rules.iter_mut() {
        x.scope = ScopeSpec::All;
        x.kw = None;
    }
    let plain = g.rules.len();
    let base = |p: &str, m: &str, mv: Mv, act: Act| RuleSpec {
        p: s(p),
        m: Some(s(m)),
        act,
        scope: ScopeSpec::All,
        kw: None,
        val: Val::None,
        labels: vec![],
        mv,
        once: false,
    };
    let mut secrets = vec![];
    let mut values: Vec<Vec<String>> = vec![];
    let timeouts = [200u64, 1000, 3000, 10_000];
    // custom HTTP validators: one configuration per endpoint set
    let nh = g.r.below(4);
    let bulk = nh > 0 && g.r.chance(1, 30);
    for i in 0..nh {
        let nhosts = if !bulk && g.r.chance(1, 12) { 5 + g.r.below(10) } else { 1 + g.r.below(3) };
        if nhosts > 4 {
            g.tag.push(s("many_hosts"));
        }
        let hosts = if g.r.chance(1, 2) { vec_of(nhosts, || ()).iter().enumerate().map(|(k, _)| format!("h{}-{}.example", i, k)).collect() } else { vec![] };
        let endpoint = if hosts.is_empty() { format!("https://v{}.example/check", i) } else { format!("https://$HOST/v{}", i) };
        let headers = match g.r.below(3) {
            0 => vec![(s("Authorization"), s("Bearer $MATCH"))],
            1 => vec![(s("X-Key"), s("$MATCH")), (s("User-Agent"), s("sds"))],
            _ => vec![(s("X-Key"), s("a $MATCH b $MATCH")), (s("Accept"), s("application/json"))],
        };
        let (valid, invalid) = match g.r.below(4) {
            0 => (vec![(200, 201)], vec![(403, 404)]),
            1 => (vec![(200, 300), (404, 405)], vec![(400, 500)]),
            2 => (vec![(200, 202), (299, 300)], vec![(400, 404), (500, 501)]),
            _ => (vec![(200, 300)], vec![(400, 500)]),
        };
        let h = HttpSpec { endpoint, hosts, method: g.r.below(5) as u8, headers, valid, invalid, timeout_ms: *g.r.pick(&timeouts) };
        let act = if g.r.chance(1, 2) { Act::None } else { g.act() };
        let act2 = g.act();
        // credentials of any characters, also ones no header can carry
        let rich = g.r.chance(1, 3);
        let tp = if rich { format!("tk{}-[^ ]{{8}}", i) } else { format!("tk{}-[A-Za-z0-9]{{8}}", i) };
        g.rules.push(base(&tp, &tp, Mv::Http(h.clone()), act));
        let np = 2 + g.r.below(2);
        let mut vs: Vec<String> = (0..np).map(|_| format!("tk{}-{}", i, token(&mut g.r, 8, if rich { VISIBLE } else { AN }))).collect();
        if !rich && g.r.chance(1, 3) {
            let x = near_twin(&mut g.r, &vs[0][vs[0].len() - 8..]);
            vs.push(format!("tk{}-{}", i, x));
        }
        if rich {
            g.tag.push(s("rich_tokens"));
            let t = token(&mut g.r, 6, AN);
            vs.push(format!("tk{}-{}==", i, t));
            if g.r.chance(1, 3) {
                vs.push(format!("tk{}-\n{}\u{1}", i, t));
            }
        }
        values.push(vs);
        if g.r.chance(1, 4) {
            // a second rule with the very same validator
            g.rules.push(base(&format!("uk{}-[a-z0-9]{{6}}", i), &format!("uk{}-[a-z0-9]{{6}}", i), Mv::Http(h), act2));
            let vs = (0..2).map(|_| format!("uk{}-{}", i, token(&mut g.r, 6, b"abcxyz019"))).collect();
            values.push(vs);
        }
    }
    // AWS
    if nh == 0 || g.r.chance(1, 2) {
        g.tag.push(s("aws"));
        let weird = g.r.chance(1, 6);
        let idp = if weird { "A[KS]IA[^ ]{8}" } else { "A[KS]IA[A-Z0-9]{8}" };
        let a = g.act();
        g.rules.push(base(idp, idp, Mv::AwsId, a));
        let sp = "(?:secret=)?[A-Za-z0-9/+]{40}";
        let a = g.act();
        g.rules.push(base(sp, sp, Mv::AwsSecret { endpoint: s("https://sts.example/"), timeout_ms: *g.r.pick(&timeouts) }, a));
        if g.r.chance(1, 4) {
            g.rules.push(base("FQoG[A-Za-z0-9]{6}", "FQoG[A-Za-z0-9]{6}", Mv::AwsSession, Act::None));
            values.push(vec![format!("FQoG{}", token(&mut g.r, 6, AN))]);
        }
        let mut ids: Vec<String> = (0..1 + g.r.below(3)).map(|_| format!("A{}IA{}", if g.r.chance(1, 4) { "S" } else { "K" }, token(&mut g.r, 8, b"ABCDEFGHJK0123456789"))).collect();
        if weird {
            ids.push(format!("AKIAab\u{e9}{}", "cdefg"));
            ids.push(s("AKIA12\n45678"));
        }
        secrets = (0..1 + g.r.below(3)).map(|_| token(&mut g.r, 40, AN)).collect();
        if g.r.chance(1, 3) {
            let x = near_twin(&mut g.r, &secrets[0]);
            secrets.push(x);
        }
        if g.r.chance(1, 3) {
            let x = format!("{}{}", &ids[0][..4], near_twin(&mut g.r, &ids[0][4..].to_lowercase()).to_uppercase());
            if !weird {
                ids.push(x);
            }
        }
        values.push(ids);
        values.push(secrets.iter().enumerate().map(|(i, x)| if i % 2 == 0 { x.clone() } else { format!("secret={}", x) }).collect());
        secrets.push(String::new());
    }
    let many = g.r.chance(1, 15);
    if many {
        g.tag.push(s("many_credentials"));
        for v in values.iter_mut() {
            // distinct ones, of the rules with a token of their own
            let (p, n) = match v[0].split_once('-') {
                Some((p, t)) => (s(p), t.len() as u64),
                None => continue,
            };
            for _ in 0..10 {
                let t = token(&mut g.r, n, b"abcxyz019");
                v.push(format!("{}-{}", p, t));
            }
        }
    }
    // events: mixtures of credentials and plain matches, several strings
    for _ in 0..2 + g.r.below(3) {
        let mut m = vec![];
        for k in 0..1 + g.r.below(3) {
            let mut t = String::new();
            for _ in 0..if many { 5 + g.r.below(9) } else { g.r.below(5) } {
                let v = if values.is_empty() || (plain > 0 && g.r.chance(1, 4)) {
                    let i = g.r.below(g.pats.len().max(1) as u64) as usize;
                    match g.pats.get(i) {
                        Some(p) => p.samples[0].clone(),
                        None => s("none"),
                    }
                } else {
                    let i = g.r.below(values.len() as u64) as usize;
                    g.r.pick(&values[i]).clone()
                };
                t.push_str(&v);
                t.push(' ');
                if g.r.chance(1, 4) {
                    t.push_str("日本 ");
                }
            }
            m.push((format!("f{}", k), Node::S(t)));
        }
        g.events.push(Node::M(m));
    }
    if bulk {
        g.tag.push(s("bulk"));
        let n = g.r.logu(70, 400);
        let fresh = g.r.chance(3, 4);
        let mut t = String::new();
        for _ in 0..n {
            let i = g.r.below(values.len() as u64) as usize;
            if values[i][0].contains("k") && values[i][0].contains('-') {
                let v = g.r.pick(&values[i]).clone();
                if fresh && v.is_ascii() {
                    // mostly distinct credentials
                    let cut = v.find('-').unwrap() + 1;
                    t.push_str(&v[..cut]);
                    for _ in cut..v.len() {
                        t.push(*g.r.pick(&['a', 'b', 'c', 'k', 'x', 'y', 'z', '0', '1', '2', '7', '9']));
                    }
                } else {
                    t.push_str(&v);
                }
            }
            t.push(' ');
        }
        let mut m = vec![(s("f0"), Node::S(t))];
        if g.r.chance(1, 2) {
            m.push((s("f1"), Node::S(g.r.pick(&values[0]).clone())));
        }
        g.events = vec![Node::M(m)];
    }
    let all: Vec<usize> = (0..g.rules.len()).collect();
    for k in 0..1 + g.r.below(2) {
        let mut rules = all.clone();
        if k > 0 {
            rules.retain(|_| g.r.chance(2, 3));
            // AWS ids without a secret rule cannot be validated: keep them together
            let sec = all.iter().find(|i| matches!(g.rules[**i].mv, Mv::AwsSecret { .. })).copied();
            if rules.iter().any(|i| matches!(g.rules[*i].mv, Mv::AwsId)) {
                if let Some(x) = sec {
                    if !rules.contains(&x) {
                        rules.push(x);
                    }
                }
            }
            if rules.is_empty() {
                rules = all.clone();
            }
            if g.r.chance(1, 2) {
                // the same endpoints, used in another way by another scanner
                g.tag.push(s("other_settings"));
                let method = g.r.below(5) as u8;
                let timeout = *g.r.pick(&timeouts);
                let strict = g.r.chance(1, 2);
                for x in rules.iter_mut() {
                    let mut n = g.rules[*x].clone();
                    match &mut n.mv {
                        Mv::Http(h) => {
                            h.method = method;
                            h.timeout_ms = timeout;
                            h.headers.push((s("X-Variant"), s("2")));
                            if strict {
                                h.valid = vec![(201, 202)];
                                h.invalid = vec![(400, 402), (500, 600)];
                            }
                        }
                        Mv::AwsSecret { endpoint, timeout_ms } => {
                            if strict {
                                *timeout_ms = timeout;
                                *endpoint = s("https://sts2.example/");
                            }
                        }
                        _ => continue,
                    }
                    g.rules.push(n);
                    *x = g.rules.len() - 1;
                }
            }
        }
        g.scanners.push(ScannerSpec { rules, labels: vec![], multipass: true, wild: false, kwpaths: false });
    }
    let ns = g.scanners.len();
    let pre = build_all(&g);
    let nt = 1 + g.r.below(3);
    let mut threads = vec![];
    for _ in 0..nt {
        let mut ops = vec![];
        for _ in 0..1 + g.r.below(3) {
            if g.r.chance(1, 4) {
                ops.push(Op::Sleep { ns: g.r.logu(1_000_000, 5_000_000_000) });
            }
            ops.push(Op::Validate {
                slot: g.r.below(ns as u64) as usize,
                ev: g.r.below(g.events.len() as u64) as usize,
                kind: *g.r.pick(&[Kind::Ordered, Kind::Simple, Kind::Utf16]),
            });
        }
        threads.push(ops);
    }
    if g.r.chance(1, 4) {
        let d = *g.r.pick(&[-4000i64, 300, 90_000, -86_400 * 40]);
        threads.push(vec![Op::Sleep { ns: g.r.logu(1000, 2_000_000_000) }, Op::Jump { s: d }]);
    }
    let mut w = [0u32; 8];
    match g.r.below(5) {
        0 => w[0] = 1,
        1 => {
            w = [5, 5, 1, 1, 1, 1, 1, 1];
        }
        2 => {
            w = [1, 1, 3, 1, 3, 3, 3, 3];
        }
        3 => {
            w = [0, 6, 1, 1, 1, 1, 1, 1];
        }
        _ => {
            for x in w.iter_mut() {
                *x = g.r.below(4) as u32;
            }
        }
    }
    let outages = if g.r.chance(1, 4) {
        let a = g.r.logu(1000, 2_000_000_000);
        vec![(a, a + g.r.logu(1_000_000, 5_000_000_000))]
    } else {
        vec![]
    };
    let md = *g.r.pick(&[5u64, 300, 4000, 30_000]);
    let mut p = g.plan(prop, ns, pre, threads, vec![]);
    p.net.w = w;
    p.net.max_delay_ms = md;
    p.net.outages = outages;
    p.net.secrets = secrets;
    p
}

/// Scans, builds and drops next to validations that wait for the network.
fn slow_net(seed: u64) -> Plan {
    let mut p = net("C12", seed);
    let mut r = Rng::new(seed, 0x51);
    let (ns, ne) = (p.scanners.len() as u64, p.events.len() as u64);
    for _ in 0..1 + r.below(3) {
        let mut ops = vec![Op::Sleep { ns: r.logu(1000, 2_000_000_000) }];
        for _ in 0..2 + r.below(5) {
            let slot = r.below(ns) as usize;
            ops.push(match r.below(6) {
                0..=1 => Op::Build { spec: slot, slot },
                2 => Op::Churn { base: 66_000 + r.below(50), n: 1 + r.below(2) as u32, kw: r.chance(1, 2), hold: 0 },
                3 => Op::Sleep { ns: r.logu(1000, 2_000_000_000) },
                _ => Op::Scan {
                    slot,
                    ev: r.below(ne) as usize,
                    blocked: vec![],
                    kind: *r.pick(&[Kind::Ordered, Kind::Simple, Kind::Utf16]),
                    hook: Hook::None,
                },
            });
        }
        p.threads.push(ops);
    }
    p.net.max_delay_ms = *r.pick(&[300, 4000, 30_000]);
    p.sched.stalls.clear();
    p.tag = format!("{} slow_net", p.tag);
    p
}
fn c12(seed: u64) -> Plan {
    if seed % 5 == 0 {
        return slow_net(seed);
    }
    let mut g = G::new(seed);
    let mode = g.r.below(4);
    let f = Feat { nscanners: (1, 3), nrules: (1, 4), nevents: (1, 3), jwt: false, ..Default::default() };
    g.world(&f);
    let ns = g.scanners.len();
    let pre = build_all(&g);
    let mut threads: Vec<Vec<Op>> = vec![];
    // victims: scans held for a very long simulated time in a callback
    let nv = match mode {
        3 => 0,
        _ if g.r.chance(1, 8) => 6 + g.r.below(14),
        _ => 1 + g.r.below(4),
    };
    // held in a callback of the event, or in the conversion of a caller's rule
    let slow = g.r.below(3);
    for _ in 0..nv {
        if slow == 0 || (slow == 1 && g.r.chance(1, 2)) {
            threads.push(vec![Op::BuildSlow { spec: g.r.below(ns as u64) as usize, ns: 3_600_000_000_000 }]);
            continue;
        }
        let ev = g.r.below(g.events.len() as u64) as usize;
        let k = 1 + g.r.below(2 * g.nleaf(ev).max(1)) as u32;
        threads.push(vec![Op::Scan {
            slot: g.r.below(ns as u64) as usize,
            ev,
            blocked: vec![],
            kind: Kind::Ordered,
            hook: Hook::Sleep(k, 3_600_000_000_000),
        }]);
    }
    let mut heavy = false;
    if mode == 3 {
        // a slow build: a big pattern, next to small ones
        heavy = true;
        g.tag.push(s("slow_build"));
        let i = g.rules.len();
        let mut x = g.rules[0].clone();
        x.once = false;
        x.kw = None;
        x.val = Val::None;
        x.p = format!(r"hv{}(?:[\w\-é日]{{1,{}}}[.,]){{1,3}}", g.r.below(9), 20 + g.r.below(10));
        x.m = None;
        g.rules.push(x);
        g.scanners.push(ScannerSpec { rules: vec![i], labels: vec![], multipass: true, wild: false, kwpaths: false });
        let sp = g.scanners.len() - 1;
        threads.push(vec![Op::Build { spec: sp, slot: ns }]);
    } else {
        g.tag.push(s("held"));
        if g.r.chance(1, 6) {
            // patterns with matches of no width: rejected, or scanned in finite time
            let i = g.rules.len();
            let mut x = g.rules[0].clone();
            x.once = false;
            x.kw = None;
            x.val = Val::None;
            x.m = None;
            x.p = s(*g.r.pick(&[r"\b", r"\B", r"\bq*", r"[0-9]*\b", r"(?:\b|alfa)", r"q*\B", r"(?:$|^)\b"]));
            g.rules.push(x);
            g.scanners.push(ScannerSpec { rules: vec![i], labels: vec![], multipass: true, wild: false, kwpaths: false });
            g.tag.push(s("no_width"));
            let mut ops = vec![Op::Build { spec: g.scanners.len() - 1, slot: ns }];
            for ev in 0..g.events.len() {
                ops.push(Op::Scan { slot: ns, ev, blocked: vec![], kind: Kind::Ordered, hook: Hook::None });
            }
            threads.push(ops);
        }
    }
    for _ in 0..1 + g.r.below(3) {
        let mut ops = vec![];
        if !heavy {
            // let the held scans get to their callback first, mostly
            ops.push(Op::Sleep { ns: g.r.logu(1000, 2_000_000_000) });
        }
        for _ in 0..2 + g.r.below(4) {
            let slot = g.r.below(ns as u64) as usize;
            ops.push(match g.r.below(8) {
                0..=1 => Op::Build { spec: slot, slot },
                2 => Op::Drop { slot },
                3 => Op::Churn { base: 66_000 + g.r.below(50), n: 1 + g.r.below(3) as u32, kw: g.r.chance(1, 2), hold: 0 },
                4 => {
                    let mut o = g.scan(ns);
                    if let Op::Scan { ev, kind, hook, .. } = &mut o {
                        *kind = Kind::Ordered;
                        let k = 1 + g.r.below(2 * g.nleaf(*ev).max(1)) as u32;
                        *hook = if g.r.chance(1, 2) {
                            Hook::Build(k, g.r.below(ns as u64) as usize)
                        } else {
                            Hook::Nested(k, g.r.below(ns as u64) as usize, g.r.below(g.events.len() as u64) as usize)
                        };
                    }
                    o
                }
                _ => g.scan(ns),
            });
        }
        threads.push(ops);
    }
    let gc = !heavy && g.r.chance(1, 100);
    if gc {
        // clean-ups while others are held
        g.tag.push(s("gc"));
        threads.push(vec![
            Op::Sleep { ns: g.r.logu(1000, 2_000_000_000) },
            Op::Churn { base: 67_000, n: 510 + g.r.below(600) as u32, kw: true, hold: 0 },
        ]);
    }
    let mut p = g.plan("C12", ns + 1, pre, threads, vec![]);
    if gc {
        p.sched.policy = Pol::Gap(5000 + p.sched.seed % 20_000);
        p.sched.conflict_den = 0;
    }
    if heavy {
        p.sched.policy = Pol::Gap(200 + p.sched.seed % 2000);
        p.sched.stalls.clear();
    }
    p
}

/// another order of the fields of every map
fn permute(r: &mut Rng, n: &Node) -> Node {
    match n {
        Node::S(x) => Node::S(x.clone()),
        Node::L(l) => Node::L(l.iter().map(|c| permute(r, c)).collect()),
        Node::M(m) => {
            let mut v: Vec<(String, Node)> = m.iter().map(|(k, c)| (k.clone(), permute(r, c))).collect();
            for i in (1..v.len()).rev() {
                let j = r.below(i as u64 + 1) as usize;
                v.swap(i, j);
            }
            Node::M(v)
        }
    }
}
fn c13(seed: u64) -> Plan {
    let mut g = G::new(seed);
    let f = Feat { once: false, nscanners: (1, 3), nrules: (2, 6), nevents: (1, 2), ..Default::default() };
    g.world(&f);
    // values repeated across fields make scoping and multi-pass matter
    let vals: Vec<String> = g.pats.iter().flat_map(|p| p.samples.clone()).collect();
    for e in g.events.iter_mut() {
        if let Node::M(m) = e {
            let v = g.r.pick(&vals).clone();
            for k in ["message", "user", "body", "pin"] {
                if !m.iter().any(|(a, _)| a == k) && g.r.chance(2, 3) {
                    m.push((s(k), Node::S(format!("{} pin {}", v, v))));
                }
            }
        }
    }
    for sc in g.scanners.iter_mut() {
        if g.r.chance(2, 3) {
            sc.multipass = true;
        }
    }
    if g.r.chance(1, 10) {
        g.oversize(&f);
    } else if g.r.chance(1, 4) {
        // long values, or very many, found in an excluded field and elsewhere
        let many = g.r.chance(1, 6);
        g.tag.push(s(if many { "many_excluded" } else { "long_excluded" }));
        let len = if many { 5 } else { *g.r.pick(&[20u64, 40, 64, 100, 300, 1100]) };
        let n = if many { 200 + g.r.below(1200) } else { 1 + g.r.below(5) };
        let vs: Vec<String> = (0..n).map(|_| format!("lg{}", token(&mut g.r, len, b"abcdefghijkmnpqrstuvwxyz23456789"))).collect();
        let p = format!("lg[a-z0-9]{{{}}}", len);
        let act = g.act();
        g.rules.push(RuleSpec {
            p: p.clone(),
            m: Some(p),
            act,
            scope: ScopeSpec::Exclude(vec![vec![Seg::F(s("zone"))]]),
            kw: None,
            val: Val::None,
            labels: vec![],
            mv: Mv::None,
            once: false,
        });
        let ri = g.rules.len() - 1;
        let mut rules = vec![ri];
        if g.r.chance(1, 2) {
            rules.insert(0, 0);
        }
        g.scanners.push(ScannerSpec { rules, labels: vec![], multipass: true, wild: false, kwpaths: false });
        let half = vs.len() / 2;
        let mut seen = vec![vs[vs.len() - 1].clone(), s("lgzzzzz"), vs[0].clone()];
        let x = g.r.pick(&vs).clone();
        seen.push(x);
        let split = g.r.chance(1, 2);
        let zone = if split {
            Node::M(vec![(s("a"), Node::S(vs[..half].join(" "))), (s("b"), Node::S(vs[half..].join(" ")))])
        } else {
            Node::S(vs.join(" "))
        };
        g.events.push(Node::M(vec![(s("zone"), zone), (s("body"), Node::S(seen.join(" "))), (s("aa"), Node::S(seen[0].clone()))]));
    }
    let base = g.events.len();
    for i in 0..base {
        for _ in 0..2 + g.r.below(2) {
            let e = permute(&mut g.r, &g.events[i].clone());
            g.events.push(e);
        }
    }
    let ns = g.scanners.len();
    let pre = build_all(&g);
    let mut threads = vec![];
    for _ in 0..1 + g.r.below(3) {
        let mut ops = vec![];
        for _ in 0..3 + g.r.below(5) {
            let mut o = g.scan(ns);
            if let Op::Scan { blocked, kind, .. } = &mut o {
                blocked.clear();
                *kind = if g.r.chance(1, 4) { Kind::Simple } else { Kind::Ordered };
            }
            ops.push(o);
        }
        threads.push(ops);
    }
    let mut post = vec![];
    for i in 0..ns {
        for e in 0..g.events.len() {
            post.push(Op::Scan { slot: i, ev: e, blocked: vec![], kind: Kind::Ordered, hook: Hook::None });
        }
    }
    g.plan("C13", ns, pre, threads, post)
}
