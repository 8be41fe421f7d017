//! Histories: scanners are built, used and dropped in a given order, on one or several threads, in
//! one process. Patterns are shared between scanners by the library, so this is where one scanner
//! could influence another.
use crate::conv::*;
use crate::ops;
use dd_sds::*;
use metrics::{Counter, Gauge, GaugeFn, Histogram, Key, KeyName, Metadata, Recorder, SharedString, Unit};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex, OnceLock};

type Cells = Mutex<HashMap<Key, Arc<AtomicU64>>>;
static CELLS: OnceLock<Cells> = OnceLock::new();
struct Rec;

fn cell(key: &Key) -> Arc<AtomicU64> {
    CELLS.get_or_init(Default::default).lock().unwrap().entry(key.clone()).or_default().clone()
}

/// How many of the coming updates of gauges are held back, each until no other thread has
/// set the same gauge for a moment. This puts the thread
/// switch where it hurts: between computing a value and publishing it.
static HOLD: AtomicI64 = AtomicI64::new(0);

struct Gated {
    cell: Arc<AtomicU64>,
    sets: AtomicU64,
}

impl GaugeFn for Gated {
    fn increment(&self, v: f64) {
        self.cell.increment(v)
    }
    fn decrement(&self, v: f64) {
        self.cell.decrement(v)
    }
    fn set(&self, v: f64) {
        if HOLD.load(Ordering::SeqCst) > 0 && HOLD.fetch_sub(1, Ordering::SeqCst) > 0 {
            let mut seen = self.sets.load(Ordering::SeqCst);
            let mut quiet = 0;
            while quiet < 20 {
                std::thread::sleep(std::time::Duration::from_micros(500));
                let now = self.sets.load(Ordering::SeqCst);
                quiet = if now == seen { quiet + 1 } else { 0 };
                seen = now;
            }
        }
        GaugeFn::set(&*self.cell, v);
        self.sets.fetch_add(1, Ordering::SeqCst);
    }
}

impl Recorder for Rec {
    fn describe_counter(&self, _: KeyName, _: Option<Unit>, _: SharedString) {}
    fn describe_gauge(&self, _: KeyName, _: Option<Unit>, _: SharedString) {}
    fn describe_histogram(&self, _: KeyName, _: Option<Unit>, _: SharedString) {}
    fn register_counter(&self, key: &Key, _: &Metadata<'_>) -> Counter {
        Counter::from_arc(cell(key))
    }
    fn register_gauge(&self, key: &Key, _: &Metadata<'_>) -> Gauge {
        // the other gauges are set under the lock of the store, where holding them back changes nothing
        if key.name() == "scanner.total_count" {
            Gauge::from_arc(Arc::new(Gated { cell: cell(key), sets: AtomicU64::new(0) }))
        } else {
            Gauge::from_arc(cell(key))
        }
    }
    fn register_histogram(&self, _: &Key, _: &Metadata<'_>) -> Histogram {
        Histogram::noop()
    }
}

pub fn install() {
    let _ = metrics::set_global_recorder(Rec);
}

fn gauge(name: &'static str) -> i64 {
    f64::from_bits(cell(&Key::from_name(name)).load(Ordering::SeqCst)) as i64
}

fn count(name: &'static str) -> u64 {
    cell(&Key::from_name(name)).load(Ordering::SeqCst)
}

/// All counters carrying the given label, as [name, sorted labels, value].
pub fn counters_with(label: &str) -> Vec<Value> {
    let m = CELLS.get_or_init(Default::default).lock().unwrap();
    let mut out: Vec<(String, Vec<(String, String)>, u64)> = m
        .iter()
        .filter(|(k, _)| k.labels().any(|l| l.value() == label))
        .map(|(k, v)| {
            let mut l: Vec<(String, String)> =
                k.labels().filter(|l| l.value() != label).map(|l| (l.key().to_string(), l.value().to_string())).collect();
            l.sort();
            (k.name().to_string(), l, v.load(Ordering::SeqCst))
        })
        .collect();
    out.sort();
    // the same labels in another order are the same labels
    out.dedup_by(|b, a| {
        let same = a.0 == b.0 && a.1 == b.1;
        if same {
            a.2 += b.2;
        }
        same
    });
    out.into_iter()
        .map(|(n, l, v)| {
            let l: Vec<Value> = l.iter().map(|(k, v)| json!([cps(k), cps(v)])).collect();
            json!({"name": n, "labels": l, "n": if n == "scanning.duration" { (v > 0) as u64 } else { v }})
        })
        .collect()
}

type Slots = HashMap<u64, Arc<Scanner>>;

fn gauges() -> Value {
    json!({"scanners": gauge("scanner.total_count"), "regexes": gauge("scanner.total_regexes"),
           "cache": gauge("scanner.total_regex_cache_size"),
           "made": count("scanner.creations"), "gone": count("scanner.deletions")})
}

fn step(s: &Value, slots: &mut Slots, with_gauges: bool) -> Value {
    let r = catch_unwind(AssertUnwindSafe(|| match s["do"].as_str().unwrap() {
        "build" => match ops::build(s) {
            Ok(x) => {
                slots.insert(s["k"].as_u64().unwrap(), Arc::new(x));
                json!({"build": "ok"})
            }
            Err(e) => json!({"build": create_err(&e)}),
        },
        "scan" => {
            let x = slots[&s["k"].as_u64().unwrap()].clone();
            ops::scan_case(&x, s)
        }
        "drop" => {
            slots.remove(&s["k"].as_u64().unwrap());
            json!({"build": "ok"})
        }
        "churn" => {
            let tag = st(&s["tag"]);
            for i in 0..s["n"].as_u64().unwrap() {
                let r = RegexRuleConfig::new(&format!("{tag}{i}")).build();
                Scanner::builder(&[r]).build().expect("harness: churn pattern");
            }
            json!({"build": "ok"})
        }
        x => panic!("harness: step {x}"),
    }));
    let mut v = r.unwrap_or_else(|e| {
        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
        json!({"panic": m.unwrap_or_default()})
    });
    if with_gauges {
        v["g"] = gauges();
    }
    v
}

pub fn run(case: &Value) -> Value {
    let mut slots = Slots::new();
    let start = gauges();
    let threads = case["threads"].as_array().unwrap();
    let pre: Vec<Value> = case["pre"].as_array().unwrap().iter().map(|s| step(s, &mut slots, true)).collect();
    let barrier = Arc::new(Barrier::new(threads.len().max(1)));
    HOLD.store(case["hold"].as_i64().unwrap_or(0), Ordering::SeqCst);
    let outs: Vec<(Vec<Value>, Slots)> = std::thread::scope(|sc| {
        let hs: Vec<_> = threads
            .iter()
            .map(|t| {
                let mut mine = slots.clone();
                let b = barrier.clone();
                sc.spawn(move || {
                    b.wait();
                    let o = t.as_array().unwrap().iter().map(|s| step(s, &mut mine, false)).collect();
                    (o, mine)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    HOLD.store(0, Ordering::SeqCst);
    let mid = gauges();
    let (outs, kept): (Vec<_>, Vec<_>) = outs.into_iter().unzip();
    drop(kept);
    drop(slots);
    json!({"pre": pre, "outs": outs, "mid": mid, "start": start, "end": gauges()})
}

pub fn live_scanners() -> i64 {
    gauge("scanner.total_count")
}
