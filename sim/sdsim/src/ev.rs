//! Events: a caller-implemented `Event` that visits fields in a chosen order,
//! counts the scanner's callbacks and can panic, sleep, scan or build inside
//! them; conversion to the library's own events and to the binary encoding.
use crate::exec;
use crate::plan::*;
use dd_sds::{EncodeIndices, Encoding, Event, EventVisitor, Path, PathSegment, SimpleEvent};
use std::marker::PhantomData;

pub struct Utf16;
impl Encoding for Utf16 {
    type Index = usize;
    type IndexShift = isize;
    fn zero_index() -> usize {
        0
    }
    fn zero_shift() -> isize {
        0
    }
    fn get_index(value: &usize, _utf8: usize) -> usize {
        *value
    }
    fn get_shift(value: &isize, _utf8: isize) -> isize {
        *value
    }
    fn calculate_indices<'a>(content: &str, it: impl Iterator<Item = EncodeIndices<'a, Self>>) {
        // relies on the documented guarantee that starts are ascending
        let mut at8 = 0;
        let mut at16 = 0;
        for m in it {
            if m.utf8_start < at8 {
                exec::breach("match indices were given to the encoding out of order");
                at8 = 0;
                at16 = 0;
            }
            if !content.is_char_boundary(m.utf8_start) || !content.is_char_boundary(m.utf8_end) {
                exec::breach("match indices not on character boundaries");
                continue;
            }
            at16 += content[at8..m.utf8_start].encode_utf16().count();
            at8 = m.utf8_start;
            *m.custom_start = at16;
            *m.custom_end = at16 + content[m.utf8_start..m.utf8_end].encode_utf16().count();
        }
    }
    fn adjust_shift(shift: &mut isize, before: &str, after: &str) {
        *shift += after.encode_utf16().count() as isize - before.encode_utf16().count() as isize;
    }
}

pub type Seen = (u64, u64, i64, i64);
pub struct SimEvent<E> {
    pub root: Node,
    pub hook: Hook,
    pub calls: u32,
    pub fired: bool,
    might: Vec<(String, bool)>,
    /// when each string was given to the scanner: steps and wall clock, before and after
    pub seen: Vec<Seen>,
    _p: PhantomData<E>,
}
impl<E> SimEvent<E> {
    pub fn new(root: Node, hook: Hook) -> Self {
        SimEvent { root, hook, calls: 0, fired: false, might: vec![], seen: vec![], _p: PhantomData }
    }
}
fn fire(hook: &Hook, calls: &mut u32, fired: &mut bool) {
    *calls += 1;
    let n = match hook {
        Hook::None => return,
        Hook::Panic(n) | Hook::Sleep(n, _) | Hook::Nested(n, _, _) | Hook::Build(n, _) => *n,
    };
    if *calls != n {
        return;
    }
    *fired = true;
    exec::count("hook");
    match hook {
        Hook::Panic(_) => {
            exec::count("panic_in_event");
            std::panic::panic_any(exec::SIM_PANIC)
        }
        Hook::Sleep(_, ns) => {
            exec::count("slow_caller");
            detsim::sched::sleep_ns(*ns)
        }
        Hook::Nested(_, slot, ev) => {
            exec::count("nested_scan");
            exec::scan_op(*slot, *ev, &[], Kind::Ordered, &Hook::None, 1)
        }
        Hook::Build(_, spec) => {
            exec::count("nested_build");
            exec::nested_build(*spec)
        }
        Hook::None => {}
    }
}
fn visit<'p, V: EventVisitor<'p>>(
    n: &'p Node,
    v: &mut V,
    hook: &Hook,
    calls: &mut u32,
    fired: &mut bool,
    path: &mut PathSpec,
    might: &mut Vec<(String, bool)>,
    seen: &mut Vec<Seen>,
) {
    match n {
        Node::S(s) => {
            fire(hook, calls, fired);
            let (a, b) = (detsim::sched::seq(), detsim::sched::wall_s());
            let r = v.visit_string(s);
            exec::bk(|| seen.push((a, detsim::sched::seq(), b, detsim::sched::wall_s())));
            let mine = crate::model::path_string(path);
            if r.path.to_string() != mine {
                exec::breach("visit_string returned a path other than the one being visited");
            }
            might.push((format!("{:?}", path), r.might_mutate));
            fire(hook, calls, fired);
        }
        Node::L(l) => {
            for (i, c) in l.iter().enumerate() {
                v.push_segment(PathSegment::Index(i));
                path.push(Seg::I(i));
                visit(c, v, hook, calls, fired, path, might, seen);
                path.pop();
                v.pop_segment();
            }
        }
        Node::M(m) => {
            for (k, c) in m {
                v.push_segment(PathSegment::Field(k.as_str().into()));
                path.push(Seg::F(k.clone()));
                visit(c, v, hook, calls, fired, path, might, seen);
                path.pop();
                v.pop_segment();
            }
        }
    }
}
impl<E: Encoding> Event for SimEvent<E> {
    type Encoding = E;
    fn visit_event<'a>(&'a mut self, v: &mut impl EventVisitor<'a>) {
        let SimEvent { root, hook, calls, fired, might, seen, .. } = self;
        visit(root, v, hook, calls, fired, &mut vec![], might, seen);
    }
    fn visit_string_mut(&mut self, path: &Path, mut f: impl FnMut(&mut String) -> bool) {
        fire(&self.hook, &mut self.calls, &mut self.fired);
        let p: PathSpec = path
            .segments
            .iter()
            .map(|s| match s {
                PathSegment::Field(f) => Seg::F(f.to_string()),
                PathSegment::Index(i) => Seg::I(*i),
            })
            .collect();
        // (names can look like the path of others)
        let ps = format!("{:?}", p);
        match self.might.iter().find(|(q, _)| *q == ps) {
            Some((_, true)) => {}
            Some((_, false)) => exec::breach("visit_string_mut for a string announced as not mutable (might_mutate=false)"),
            None => exec::breach("visit_string_mut with a path that was never visited"),
        }
        if let Some(s) = leaf_mut(&mut self.root, &p) {
            let before = s.clone();
            let mutated = f(s);
            if !mutated && *s != before {
                exec::breach("a string was modified but reported as not mutated");
            }
        }
        fire(&self.hook, &mut self.calls, &mut self.fired);
    }
}

pub fn to_simple(n: &Node) -> SimpleEvent {
    match n {
        Node::S(s) => SimpleEvent::String(s.clone()),
        Node::L(l) => SimpleEvent::List(l.iter().map(to_simple).collect()),
        Node::M(m) => SimpleEvent::Map(m.iter().map(|(k, c)| (k.clone(), to_simple(c))).collect()),
    }
}
pub fn from_simple(e: &SimpleEvent) -> Node {
    match e {
        SimpleEvent::String(s) => Node::S(s.clone()),
        SimpleEvent::List(l) => Node::L(l.iter().map(from_simple).collect()),
        SimpleEvent::Map(m) => Node::M(m.iter().map(|(k, c)| (k.clone(), from_simple(c))).collect()),
    }
}

pub fn to_json(n: &Node) -> serde_json::Value {
    match n {
        Node::S(s) => serde_json::Value::String(s.clone()),
        Node::L(l) => serde_json::Value::Array(l.iter().map(to_json).collect()),
        Node::M(m) => serde_json::Value::Object(m.iter().map(|(k, c)| (k.clone(), to_json(c))).collect()),
    }
}
pub fn from_json(e: &serde_json::Value) -> Node {
    match e {
        serde_json::Value::Array(l) => Node::L(l.iter().map(from_json).collect()),
        serde_json::Value::Object(m) => Node::M(m.iter().map(|(k, c)| (k.clone(), from_json(c))).collect()),
        serde_json::Value::String(s) => Node::S(s.clone()),
        x => Node::S(x.to_string()),
    }
}

fn raw_bytes(s: &str) -> Vec<u8> {
    let mut o = vec![];
    for c in s.chars() {
        if c == RAW_FF {
            o.push(0xFF);
        } else {
            let mut b = [0; 4];
            o.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
        }
    }
    o
}
fn put(o: &mut Vec<u8>, b: &[u8]) {
    o.extend((b.len() as u32).to_be_bytes());
    o.extend(b);
}
/// Binary event encoding, as the Go and Java bindings produce it.
pub fn encode(n: &Node, o: &mut Vec<u8>) {
    match n {
        Node::S(s) => {
            o.push(3);
            put(o, &raw_bytes(s));
        }
        Node::L(l) => {
            for (i, c) in l.iter().enumerate() {
                o.push(1);
                o.extend((i as u32).to_be_bytes());
                encode(c, o);
                o.push(2);
            }
        }
        Node::M(m) => {
            for (k, c) in m {
                o.push(0);
                put(o, &raw_bytes(k));
                encode(c, o);
                o.push(2);
            }
        }
    }
}
/// The event as the scanner sees it: invalid UTF-8 replaced.
pub fn lossy(n: &Node) -> Node {
    let f = |s: &str| s.replace(RAW_FF, "\u{FFFD}");
    match n {
        Node::S(s) => Node::S(f(s)),
        Node::L(l) => Node::L(l.iter().map(lossy).collect()),
        Node::M(m) => Node::M(m.iter().map(|(k, c)| (f(k), lossy(c))).collect()),
    }
}

pub struct Decoded {
    pub matches: Vec<crate::model::MOut>,
    pub event: Node,
    pub mutated: Vec<String>,
}
/// Decode a scan response and apply it to the event, like the Go binding does.
pub fn decode(resp: &[u8], ev: &Node) -> Result<Decoded, String> {
    let mut i = 0usize;
    let u32_at = |i: &mut usize| -> Result<u32, String> {
        let b = resp.get(*i..*i + 4).ok_or("truncated integer")?;
        *i += 4;
        Ok(u32::from_be_bytes(b.try_into().unwrap()))
    };
    fn bytes<'a>(resp: &'a [u8], i: &mut usize, n: u32) -> Result<&'a [u8], String> {
        let b = resp.get(*i..*i + n as usize).ok_or("truncated bytes")?;
        *i += n as usize;
        Ok(b)
    }
    let utf8 = |b: &[u8]| String::from_utf8(b.to_vec()).map_err(|_| "invalid utf-8 in response".to_string());
    let mut d = Decoded { matches: vec![], event: ev.clone(), mutated: vec![] };
    while i < resp.len() {
        let tag = resp[i];
        i += 1;
        match tag {
            4 => {
                if !d.matches.is_empty() {
                    return Err("mutation after a match".into());
                }
                let mut p = vec![];
                loop {
                    let t = *resp.get(i).ok_or("truncated mutation")?;
                    i += 1;
                    match t {
                        0 => {
                            let n = u32_at(&mut i)?;
                            p.push(Seg::F(utf8(bytes(resp, &mut i, n)?)?));
                        }
                        1 => p.push(Seg::I(u32_at(&mut i)? as usize)),
                        3 => {
                            let n = u32_at(&mut i)?;
                            let s = utf8(bytes(resp, &mut i, n)?)?;
                            let leaf = leaf_mut(&mut d.event, &p).ok_or("mutation of a path that is not in the event")?;
                            *leaf = s;
                            d.mutated.push(format!("{:?}", p));
                            break;
                        }
                        _ => return Err(format!("unexpected tag {} in a mutation", t)),
                    }
                }
            }
            5 => {
                let rule = u32_at(&mut i)? as usize;
                let n = u32_at(&mut i)?;
                let path = utf8(bytes(resp, &mut i, n)?)?;
                let n = u32_at(&mut i)?;
                let repl = utf8(bytes(resp, &mut i, n)?)?;
                let start = u32_at(&mut i)? as usize;
                let end = u32_at(&mut i)? as usize;
                let shift = u32_at(&mut i)? as i32 as isize;
                d.matches.push(crate::model::MOut { rule, path, repl, start, end, shift, value: None, status: String::new() });
            }
            t => return Err(format!("unexpected tag {}", t)),
        }
    }
    Ok(d)
}
