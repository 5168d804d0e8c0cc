//! Metrics recorder: keeps every counter and gauge the library reports.
use metrics::{Counter, CounterFn, Gauge, GaugeFn, Histogram, HistogramFn, Key, KeyName, Metadata, Recorder, SharedString, Unit};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

pub type MKey = (String, Vec<(String, String)>);
pub struct Cell {
    v: AtomicU64,
    neg: AtomicU64,
    slow: (u64, u64),
    calls: AtomicU64,
}
impl Cell {
    fn enter(&self) {
        let n = self.calls.fetch_add(1, SeqCst);
        detsim::sched::tick();
        if self.slow.0 > 0 && (n + 1) % self.slow.0 == 0 && detsim::sched::active() {
            detsim::sched::sleep_ns(self.slow.1);
        }
    }
    fn f(&self) -> f64 {
        f64::from_bits(self.v.load(SeqCst))
    }
    fn addf(&self, d: f64) {
        let r = self.v.fetch_update(SeqCst, SeqCst, |b| Some((f64::from_bits(b) + d).to_bits()));
        if f64::from_bits(r.unwrap()) + d < 0.0 {
            self.neg.fetch_add(1, SeqCst);
        }
    }
    fn setf(&self, x: f64) {
        if x < 0.0 {
            self.neg.fetch_add(1, SeqCst);
        }
        self.v.store(x.to_bits(), SeqCst);
    }
}
impl CounterFn for Cell {
    fn increment(&self, value: u64) {
        self.enter();
        self.v.fetch_add(value, SeqCst);
    }
    fn absolute(&self, value: u64) {
        self.enter();
        self.v.fetch_max(value, SeqCst);
    }
}
impl GaugeFn for Cell {
    fn increment(&self, value: f64) {
        self.enter();
        self.addf(value);
    }
    fn decrement(&self, value: f64) {
        self.enter();
        self.addf(-value);
    }
    fn set(&self, value: f64) {
        self.enter();
        self.setf(value);
    }
}
impl HistogramFn for Cell {
    fn record(&self, _: f64) {
        self.enter();
        self.v.fetch_add(1, SeqCst);
    }
}
pub struct Rec {
    pub map: Mutex<BTreeMap<(u8, MKey), Arc<Cell>>>,
    pub slow: (u64, u64),
}
impl Rec {
    fn cell(&self, kind: u8, key: &Key) -> Arc<Cell> {
        let old = detsim::alloc::set_tag(crate::exec::HARNESS);
        let k: MKey = (key.name().to_string(), key.labels().map(|l| (l.key().to_string(), l.value().to_string())).collect());
        let c = self
            .map
            .lock()
            .unwrap()
            .entry((kind, k))
            .or_insert_with(|| {
                Arc::new(Cell { v: AtomicU64::new(0), neg: AtomicU64::new(0), slow: self.slow, calls: AtomicU64::new(0) })
            })
            .clone();
        detsim::alloc::set_tag(old);
        c
    }
}
pub struct Shared(pub &'static Rec);
impl Recorder for Shared {
    fn describe_counter(&self, _: KeyName, _: Option<Unit>, _: SharedString) {}
    fn describe_gauge(&self, _: KeyName, _: Option<Unit>, _: SharedString) {}
    fn describe_histogram(&self, _: KeyName, _: Option<Unit>, _: SharedString) {}
    fn register_counter(&self, key: &Key, _: &Metadata<'_>) -> Counter {
        Counter::from_arc(self.0.cell(0, key))
    }
    fn register_gauge(&self, key: &Key, _: &Metadata<'_>) -> Gauge {
        Gauge::from_arc(self.0.cell(1, key))
    }
    fn register_histogram(&self, key: &Key, _: &Metadata<'_>) -> Histogram {
        Histogram::from_arc(self.0.cell(2, key))
    }
}
pub fn install(slow: (u64, u64)) -> &'static Rec {
    let r: &'static Rec = Box::leak(Box::new(Rec { map: Mutex::new(BTreeMap::new()), slow }));
    let _ = metrics::set_global_recorder(Shared(r));
    r
}
#[derive(serde::Serialize, serde::Deserialize, Clone, Debug, Default)]
pub struct Snap {
    pub counters: Vec<(MKey, u64)>,
    pub gauges: Vec<(MKey, f64, u64)>,
}
impl Rec {
    pub fn snap(&self) -> Snap {
        let m = self.map.lock().unwrap();
        let mut s = Snap::default();
        for ((k, key), c) in m.iter() {
            match k {
                0 => s.counters.push((key.clone(), c.v.load(SeqCst))),
                1 => s.gauges.push((key.clone(), c.f(), c.neg.load(SeqCst))),
                _ => {}
            }
        }
        s
    }
}
