//! Independent reference model of one scan, of rule creation, and of match
//! validation. It shares no code with the scanner: its own keyword matcher,
//! scope evaluation, overlap resolution and index arithmetic, and the plain
//! `regex` crate for the patterns.
use crate::plan::*;
use base64::Engine;
use regex::Regex;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct MOut {
    pub rule: usize,
    pub path: String,
    pub repl: String,
    pub start: usize,
    pub end: usize,
    pub shift: isize,
    pub value: Option<String>,
    pub status: String,
}
#[derive(Clone, Debug, PartialEq)]
pub struct ScanOut {
    pub matches: Vec<MOut>,
    pub event: Node,
    pub metrics: BTreeMap<(String, Vec<(String, String)>), u64>,
    /// the wall clock moved across an expiry during the scan: not decidable
    pub ambiguous: bool,
}

pub struct Model<'a> {
    pub plan: &'a Plan,
    re: Vec<Option<Regex>>,
}

pub fn path_string(p: &[Seg]) -> String {
    let mut s = String::new();
    for (i, g) in p.iter().enumerate() {
        match g {
            Seg::F(f) => {
                if i > 0 {
                    s.push('.');
                }
                s.push_str(f);
            }
            Seg::I(i) => s.push_str(&format!("[{}]", i)),
        }
    }
    s
}

/// Is `pat` a prefix of `path`, where (optionally) list indices of the path
/// may be skipped; an index right after a skipped index cannot match exactly.
fn covers(pat: &[Seg], path: &[Seg], wild: bool) -> bool {
    fn go(pat: &[Seg], path: &[Seg], wild: bool, skipped: bool) -> bool {
        if pat.is_empty() {
            return true;
        }
        let Some(s) = path.first() else { return false };
        let idx = matches!(s, Seg::I(_));
        if pat[0] == *s && !(skipped && idx) && go(&pat[1..], &path[1..], wild, false) {
            return true;
        }
        wild && idx && go(pat, &path[1..], wild, true)
    }
    go(pat, path, wild, false)
}

fn is_word(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b == b'_'
}
fn fold(c: char) -> char {
    c.to_lowercase().next().unwrap_or(c)
}
/// Does keyword `kw` occur in `hay` starting at byte `at` (case-insensitive,
/// ASCII word boundaries next to an ASCII letter or digit)? Returns its end.
fn kw_at(hay: &str, at: usize, kw: &str) -> Option<usize> {
    let mut h = hay[at..].chars();
    let mut end = at;
    for k in kw.chars() {
        let c = h.next()?;
        if fold(c) != fold(k) {
            return None;
        }
        end += c.len_utf8();
    }
    let b = hay.as_bytes();
    let bound = |i: usize| {
        let l = i > 0 && is_word(b[i - 1]);
        let r = i < b.len() && is_word(b[i]);
        l != r
    };
    let edge = |c: char| c.is_ascii_alphanumeric();
    if edge(kw.chars().next()?) && !bound(at) {
        return None;
    }
    if edge(kw.chars().next_back()?) && !bound(end) {
        return None;
    }
    Some(end)
}
fn next_char(s: &str, i: usize) -> Option<usize> {
    let n = s[i..].chars().next()?.len_utf8();
    if i + n < s.len() {
        Some(i + n)
    } else {
        None
    }
}
fn back_chars(s: &str, from: usize, n: usize) -> (usize, bool) {
    let mut i = from;
    for _ in 0..n {
        match s[..i].chars().next_back() {
            Some(c) => i -= c.len_utf8(),
            None => return (0, false),
        }
    }
    (i, true)
}
/// ASCII-only version of the documented path / keyword standardisation.
fn standardise(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    let link = |c: char| "-_. /".contains(c);
    if !c.is_empty() && (c.iter().all(|x| x.is_ascii_lowercase()) || c.iter().all(|x| x.is_ascii_uppercase())) {
        return s.to_ascii_lowercase();
    }
    let mut o = String::new();
    for i in 0..c.len() {
        if i == 0 || i + 1 == c.len() {
            o.push(c[i]);
        } else if link(c[i - 1]) {
            // directly after a separator characters are taken as they are
            o.push(c[i]);
        } else if link(c[i]) {
            o.push('.');
        } else if c[i].is_ascii_uppercase() && !c[i - 1].is_ascii_uppercase() {
            o.push('.');
            o.push(c[i]);
        } else {
            o.push(c[i]);
        }
    }
    o.to_ascii_lowercase()
}
fn kw_standardise(s: &str) -> String {
    // a keyword is standardised like a path field, without the single-case shortcut
    let c: Vec<char> = s.chars().collect();
    let link = |c: char| "-_. /".contains(c);
    let mut o = String::new();
    for i in 0..c.len() {
        if i == 0 || i + 1 == c.len() || link(c[i - 1]) {
            o.push(c[i]);
        } else if link(c[i]) {
            o.push('.');
        } else if c[i].is_ascii_uppercase() && !c[i - 1].is_ascii_uppercase() {
            o.push('.');
            o.push(c[i]);
        } else {
            o.push(c[i]);
        }
    }
    o.to_ascii_lowercase()
}
fn sane_path(p: &[Seg]) -> String {
    let mut o = String::new();
    for (i, s) in p.iter().enumerate() {
        if let Seg::F(f) = s {
            if i > 0 {
                o.push('.');
            }
            o.push_str(&standardise(f));
        }
    }
    o
}
fn path_has_kw(p: &[Seg], kws: &[String]) -> bool {
    let hay = sane_path(p);
    let starts: Vec<usize> = hay.char_indices().map(|x| x.0).collect();
    kws.iter().any(|k| {
        let k = k.trim();
        // boundaries are decided on the keyword as given, matching on its standard form
        let std = kw_standardise(k);
        starts.iter().any(|&i| {
            let mut end = i;
            let mut h = hay[i..].chars();
            for a in std.chars() {
                match h.next() {
                    Some(c) if fold(c) == fold(a) => end += c.len_utf8(),
                    _ => return false,
                }
            }
            let b = hay.as_bytes();
            let bound = |i: usize| (i > 0 && is_word(b[i - 1])) != (i < b.len() && is_word(b[i]));
            let edge = |c: char| c.is_ascii_alphanumeric();
            (!edge(k.chars().next().unwrap()) || bound(i)) && (!edge(k.chars().next_back().unwrap()) || bound(end))
        })
    })
}

fn luhn(s: &str) -> bool {
    let d: Vec<u32> = s.chars().filter_map(|c| c.to_digit(10)).collect();
    let mut sum = 0;
    for (i, x) in d.iter().rev().enumerate() {
        sum += if i % 2 == 1 { let y = x * 2; if y > 9 { y - 9 } else { y } } else { *x };
    }
    sum % 10 == 0
}
// The checksum rules, for the shapes of text the generator's patterns match.
pub fn digits(s: &str) -> Vec<u64> {
    s.chars().filter_map(|c| c.to_digit(10)).map(|x| x as u64).collect()
}
/// ISO 7064 MOD 11-2 over 17 digits and a check character.
pub fn chinese(s: &str) -> bool {
    let c: Vec<char> = s.chars().collect();
    if c.len() != 18 {
        return false;
    }
    let mut p = 0;
    for x in &c[..17] {
        p = (p + x.to_digit(10).unwrap()) * 2 % 11;
    }
    let last = if c[17].eq_ignore_ascii_case(&'x') { 10 } else { c[17].to_digit(10).unwrap() };
    (p + last) % 11 == 1
}
pub fn crc32(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for x in b {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0xEDB8_8320 } else { c >> 1 };
        }
    }
    !c
}
pub fn base62(mut n: u32) -> String {
    let d = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";
    let mut o = vec![];
    while n > 0 {
        o.push(d[(n % 62) as usize] as char);
        n /= 62;
    }
    o.iter().rev().collect()
}
pub fn github(s: &str) -> bool {
    let t = s.rsplit('_').next().unwrap();
    let (a, b) = t.split_at(t.len() - 6);
    base62(crc32(a.as_bytes())) == b
}
/// A German IBAN (two letters, two check digits, 18 digits).
pub fn iban(s: &str) -> bool {
    let d = digits(s);
    let mut n: u128 = 0;
    for x in d[2..].iter().chain(&[1, 3, 1, 4]).chain(&d[..2]) {
        n = (n * 10 + *x as u128) % 97;
    }
    let c = d[0] * 10 + d[1];
    n == 1 && (2..=98).contains(&c)
}
pub fn nhs(s: &str) -> bool {
    let d = digits(s);
    d.len() == 10 && d.iter().enumerate().map(|(i, x)| (10 - i as u64) * x).sum::<u64>() % 11 == 0
}
pub fn nir(s: &str) -> bool {
    let d = digits(s);
    let n = |v: &[u64]| v.iter().fold(0, |a, x| a * 10 + x);
    d.len() == 15 && n(&d[..13]) % 97 + n(&d[13..]) == 97
}
#[derive(PartialEq, Clone, Copy)]
enum Tri {
    Yes,
    No,
    Unknown,
}
fn jwt(s: &str, lo: i64, hi: i64) -> Tri {
    let seg: Vec<&str> = s.split('.').collect();
    if seg.len() != 3 {
        return Tri::No;
    }
    let dec = |x: &str| -> Option<serde_json::Value> {
        let b = base64::engine::general_purpose::URL_SAFE_NO_PAD.decode(x).ok()?;
        serde_json::from_slice(&b).ok()
    };
    let (Some(_), Some(pl)) = (dec(seg[0]), dec(seg[1])) else { return Tri::No };
    match pl.get("exp") {
        None => Tri::Yes,
        Some(e) => match e.as_i64() {
            None => Tri::No,
            Some(e) => {
                if e > hi {
                    Tri::Yes
                } else if e <= lo {
                    Tri::No
                } else {
                    Tri::Unknown
                }
            }
        },
    }
}

pub struct ScanIn<'a> {
    pub scanner: &'a ScannerSpec,
    /// the event, in the order its fields are visited
    pub ev: &'a Node,
    pub blocked: &'a [usize],
    pub utf16: bool,
    /// what the clock showed while each string was looked at
    pub wall: Wall,
}
pub enum Wall {
    Scan((i64, i64)),
    Leaf(Vec<(i64, i64)>),
}
impl Wall {
    fn at(&self, leaf: usize) -> (i64, i64) {
        match self {
            Wall::Scan(w) => *w,
            Wall::Leaf(v) => v[leaf],
        }
    }
}

struct Raw {
    rule: usize,
    s: usize,
    e: usize,
}

impl<'a> Model<'a> {
    pub fn new(plan: &'a Plan) -> Self {
        let re = plan
            .rules
            .iter()
            .map(|r| if r.once { None } else { r.m.as_ref().and_then(|m| Regex::new(m).ok()) })
            .collect();
        Model { plan, re }
    }
    /// Can the model decide scans of this scanner?
    pub fn knows(&self, s: &ScannerSpec) -> bool {
        s.rules.iter().all(|&r| self.plan.rules[r].once || self.re[r].is_some())
    }
    pub fn returns_values(&self, s: &ScannerSpec) -> bool {
        s.rules.iter().any(|&r| matches!(self.plan.rules[r].mv, Mv::AwsSecret { .. } | Mv::Http(_)))
    }

    pub fn scan(&self, i: &ScanIn) -> ScanOut {
        let mut st = St {
            amb: false,
            wall: (0, 0),
            excluded: BTreeSet::new(),
            kwfp: BTreeMap::new(),
            done_once: BTreeSet::new(),
        };
        let mut per: Vec<(PathSpec, String, Vec<Raw>)> = vec![];
        for (leaf, (path, content)) in leaves(i.ev).into_iter().enumerate() {
            st.wall = i.wall.at(leaf);
            let mut raws = vec![];
            for (ri, &rid) in i.scanner.rules.iter().enumerate() {
                if i.blocked.contains(&ri) {
                    continue;
                }
                let r = &self.plan.rules[rid];
                let (inc, exc) = match &r.scope {
                    ScopeSpec::All => (true, false),
                    ScopeSpec::Include(a, b) => (
                        a.iter().any(|p| covers(p, &path, i.scanner.wild)),
                        b.iter().any(|p| covers(p, &path, i.scanner.wild)),
                    ),
                    ScopeSpec::Exclude(b) => (true, b.iter().any(|p| covers(p, &path, i.scanner.wild))),
                };
                if !inc {
                    continue;
                }
                self.rule(i, ri, rid, &path, content, exc, &mut raws, &mut st);
            }
            if !raws.is_empty() {
                per.push((path, content.clone(), raws));
            }
        }
        let mut out = ScanOut { matches: vec![], event: i.ev.clone(), metrics: BTreeMap::new(), ambiguous: st.amb };
        let sl = i.scanner.labels.clone();
        let rule_labels = |ri: usize| {
            let mut l = sl.clone();
            l.extend(self.plan.rules[i.scanner.rules[ri]].labels.clone());
            l
        };
        let values = self.returns_values(i.scanner);
        for (path, content, mut raws) in per {
            if i.scanner.multipass {
                raws.retain(|m| {
                    let r = &self.plan.rules[i.scanner.rules[m.rule]];
                    if !r.once && st.excluded.contains(&content[m.s..m.e]) {
                        *out.metrics.entry(("false_positive.multipass.excluded_match".into(), rule_labels(m.rule))).or_default() += 1;
                        false
                    } else {
                        true
                    }
                });
            }
            let kept = self.resolve(i, raws);
            let utf16 = i.utf16;
            let idx = |b: usize| if utf16 { content[..b].encode_utf16().count() } else { b };
            let len = |s: &str| if utf16 { s.encode_utf16().count() as isize } else { s.len() as isize };
            let mut new = String::new();
            let mut at = 0usize;
            let mut shift: isize = 0;
            for m in &kept {
                let r = &self.plan.rules[i.scanner.rules[m.rule]];
                let text = &content[m.s..m.e];
                let start = (idx(m.s) as isize + shift) as usize;
                let rep: Option<(usize, usize, String)> = match &r.act {
                    Act::None => None,
                    Act::Redact(s) => Some((0, text.len(), s.clone())),
                    Act::Hash => Some((0, text.len(), format!("{:x}", farmhash::fingerprint64(text.as_bytes())))),
                    Act::First(n) => {
                        let e = text.char_indices().nth(*n).map_or(text.len(), |x| x.0);
                        Some((0, e, "*".repeat(*n)))
                    }
                    Act::Last(n) => {
                        let c = text.chars().count();
                        let s = if c > *n { text.char_indices().nth(c - n).unwrap().0 } else { 0 };
                        Some((s, text.len(), "*".repeat(*n)))
                    }
                };
                if let Some((a, b, s)) = rep {
                    new.push_str(&content[at..m.s + a]);
                    new.push_str(&s);
                    at = m.s + b;
                    shift += len(&s) - len(&text[a..b]);
                }
                out.matches.push(MOut {
                    rule: m.rule,
                    path: path_string(&path),
                    repl: match r.act {
                        Act::None => "none",
                        Act::Redact(_) => "placeholder",
                        Act::Hash => "hash",
                        Act::First(_) => "partial_beginning",
                        Act::Last(_) => "partial_end",
                    }
                    .into(),
                    start,
                    end: (idx(m.e) as isize + shift) as usize,
                    shift,
                    value: if values { Some(text.to_string()) } else { None },
                    status: if r.mv == Mv::None { "NotAvailable".into() } else { "NotChecked".into() },
                });
            }
            new.push_str(&content[at..]);
            if let Some(s) = leaf_mut(&mut out.event, &path) {
                *s = new;
            }
        }
        for (ri, n) in st.kwfp {
            let mut l = rule_labels(ri);
            l.push(("type".into(), "excluded_keywords".into()));
            *out.metrics.entry(("false_positive.proximity_keywords".into(), l)).or_default() += n;
        }
        *out.metrics.entry(("scanned_events".into(), sl.clone())).or_default() += 1;
        *out.metrics.entry(("scanning.match_count".into(), sl)).or_default() += out.matches.len() as u64;
        out
    }

    fn resolve(&self, i: &ScanIn, mut raws: Vec<Raw>) -> Vec<Raw> {
        let mutating = |m: &Raw| self.plan.rules[i.scanner.rules[m.rule]].act != Act::None;
        raws.sort_by_key(|m| (!mutating(m), m.s, std::cmp::Reverse(m.e - m.s), m.rule));
        let mut kept: Vec<Raw> = vec![];
        for m in raws {
            if !kept.iter().any(|k| k.s < m.e && m.s < k.e) {
                kept.push(m);
            }
        }
        kept.sort_by_key(|m| m.s);
        kept
    }

    #[allow(clippy::too_many_arguments)]
    fn rule(&self, i: &ScanIn, ri: usize, rid: usize, path: &[Seg], c: &str, excluded: bool, out: &mut Vec<Raw>, st: &mut St) {
        let r = &self.plan.rules[rid];
        if r.once {
            let lit = &r.p;
            if !excluded && !st.done_once.contains(&ri) && c.contains(lit.as_str()) {
                st.done_once.insert(ri);
                for (s, _) in c.match_indices(lit.as_str()) {
                    out.push(Raw { rule: ri, s, e: s + lit.len() });
                }
            }
            return;
        }
        let Some(re) = &self.re[rid] else { return };
        // next accepted match at or after `from`
        let next = |from: usize, check_exc: bool, st: &mut St| -> Option<(usize, usize)> {
            let mut from = from;
            loop {
                if from > c.len() {
                    return None;
                }
                let m = re.find_at(c, from)?;
                let mut ok = true;
                if check_exc {
                    if let Some(k) = &r.kw {
                        if !k.exc.is_empty() && excluded_kw(c, m.start(), k) {
                            *st.kwfp.entry(ri).or_default() += 1;
                            ok = false;
                        }
                    }
                }
                if ok {
                    match r.val {
                        Val::None => {}
                        Val::Luhn => ok = luhn(m.as_str()),
                        Val::ChineseId => ok = chinese(m.as_str()),
                        Val::Github => ok = github(m.as_str()),
                        Val::Iban => ok = iban(m.as_str()),
                        Val::Nhs => ok = nhs(m.as_str()),
                        Val::Nir => ok = nir(m.as_str()),
                        Val::Jwt => match jwt(m.as_str(), st.wall.0, st.wall.1) {
                            Tri::Yes => {}
                            Tri::No => ok = false,
                            Tri::Unknown => st.amb = true,
                        },
                    }
                }
                if ok {
                    return Some((m.start(), m.end()));
                }
                from = next_char(c, m.start())?;
            }
        };
        let inc: &[String] = r.kw.as_ref().map_or(&[], |k| &k.inc);
        if inc.is_empty() {
            let mut at = 0;
            while let Some((s, e)) = next(at, true, st) {
                at = e;
                if excluded {
                    st.excluded.insert(c[s..e].to_string());
                } else {
                    out.push(Raw { rule: ri, s, e });
                }
            }
            return;
        }
        let ahead = r.kw.as_ref().unwrap().ahead;
        let kw_next = |from: usize| -> Option<(usize, usize)> {
            let mut i = from;
            while i < c.len() {
                if c.is_char_boundary(i) {
                    for k in inc {
                        if let Some(e) = kw_at(c, i, k.trim()) {
                            return Some((i, e));
                        }
                    }
                }
                i += 1;
            }
            None
        };
        let mut from = 0usize;
        'kw: while let Some((ks, ke)) = kw_next(from) {
            from = next_char(c, ks).unwrap_or(ke);
            let mut at = ks;
            loop {
                let Some((s, e)) = next(at, false, st) else { break 'kw };
                at = e;
                if excluded {
                    st.excluded.insert(c[s..e].to_string());
                    continue;
                }
                let within = c[ks..].char_indices().nth(ahead).map_or(true, |(x, _)| ks + x >= s);
                if within {
                    from = from.max(s);
                    out.push(Raw { rule: ri, s, e });
                } else {
                    from = from.max(back_chars(c, s, ahead).0);
                    continue 'kw;
                }
            }
        }
        if i.scanner.kwpaths && re.is_match(c) && path_has_kw(path, inc) {
            let mut at = 0;
            while let Some((s, e)) = next(at, false, st) {
                at = e;
                if excluded {
                    st.excluded.insert(c[s..e].to_string());
                } else {
                    out.push(Raw { rule: ri, s, e });
                }
            }
        }
    }
}

struct St {
    amb: bool,
    wall: (i64, i64),
    excluded: BTreeSet<String>,
    kwfp: BTreeMap<usize, u64>,
    done_once: BTreeSet<usize>,
}

fn excluded_kw(c: &str, m: usize, k: &Kw) -> bool {
    let (ps, all) = back_chars(c, m, k.ahead + 1);
    let pe = next_char(c, m).unwrap_or(c.len());
    let strip: String = c[ps..pe].chars().filter(|x| *x != '-' && *x != '_').collect();
    let end = strip.char_indices().next_back().map_or(0, |x| x.0);
    let start = if all { next_char(&strip, 0).unwrap_or(strip.len()) } else { 0 };
    if start > end {
        return false;
    }
    (start..end).filter(|i| strip.is_char_boundary(*i)).any(|i| {
        k.exc.iter().any(|w| {
            let w: String = w.trim().chars().filter(|x| *x != '-' && *x != '_').collect();
            kw_at(&strip, i, &w).map_or(false, |e| e <= end)
        })
    })
}
