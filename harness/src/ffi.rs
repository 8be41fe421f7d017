//! Histories of calls of the C interface (sds-go/rust), made the way a C client would make them.
//! Rules are handed over as JSON text, events and responses as bytes.
use dd_sds_go::{create_scanner, delete_scanner, rule, scan};
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::HashMap;
use std::ffi::{c_char, c_void, CString};
use std::sync::atomic::{AtomicI64, Ordering};

/// Counts live bytes and overwrites released memory, so that leaks and uses after release show.
pub struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Ordering::Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed);
        std::ptr::write_bytes(p, 0xDD, l.size().min(512));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_add(n as i64 - l.size() as i64, Ordering::Relaxed);
        System.realloc(p, l, n)
    }
}

fn step(s: &Value, h: &mut HashMap<u64, i64>) -> Value {
    let get = |f: &str, h: &HashMap<u64, i64>| h[&s[f].as_u64().unwrap()];
    // a client does not use a handle it did not get
    let needs: &[&str] = match s["do"].as_str().unwrap() {
        "append" => &["rule", "list"],
        "free_rule" | "free_list" | "delete" | "scan" => &["h"],
        "scanner" => &["list"],
        _ => &[],
    };
    if needs.iter().any(|f| !h.contains_key(&s[f].as_u64().unwrap())) {
        return json!({"skip": true});
    }
    match s["do"].as_str().unwrap() {
        "rule" => {
            let doc = CString::new(crate::tree::to_text(&s["doc"])).unwrap();
            let p = rule::create_regex_rule(doc.as_ptr());
            if p > 0 {
                h.insert(s["h"].as_u64().unwrap(), p);
            }
            json!({"ok": p > 0})
        }
        "list" => {
            h.insert(s["h"].as_u64().unwrap(), rule::create_rule_list());
            json!({"ok": true})
        }
        "append" => {
            rule::append_rule_to_list(get("rule", h), get("list", h));
            json!({"ok": true})
        }
        "free_rule" => {
            rule::free_any_rule(h.remove(&s["h"].as_u64().unwrap()).unwrap());
            json!({"ok": true})
        }
        "free_list" => {
            rule::free_rule_list(h.remove(&s["h"].as_u64().unwrap()).unwrap());
            json!({"ok": true})
        }
        "scanner" => {
            let mut err: *const c_char = std::ptr::null();
            let p = create_scanner::create_scanner(get("list", h), &mut err, s["kwpath"] == true);
            let has = !err.is_null();
            if has {
                scan::free_string(err);
            }
            if p > 0 {
                h.insert(s["h"].as_u64().unwrap(), p);
            }
            json!({"code": if p > 0 { 1 } else { p }, "err": has})
        }
        "delete" => {
            delete_scanner::delete_scanner(h.remove(&s["h"].as_u64().unwrap()).unwrap());
            json!({"ok": true})
        }
        "scan" => {
            let bytes: Vec<u8> = s["bytes"].as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect();
            let (mut size, mut cap, mut err): (i64, i64, *const c_char) = (-7, -7, std::ptr::null());
            let p = scan::scan(get("h", h), bytes.as_ptr() as *const c_void, bytes.len() as i64, &mut size, &mut cap, &mut err);
            let has = !err.is_null();
            if has {
                scan::free_string(err);
            }
            let mut resp = vec![];
            if !p.is_null() && size > 0 {
                resp = unsafe { std::slice::from_raw_parts(p as *const u8, size as usize) }.to_vec();
                scan::free_vec(p, size, cap);
            }
            json!({"err": has, "size": size, "cap": cap, "resp": resp})
        }
        x => panic!("harness: step {x}"),
    }
}

pub fn run(case: &Value) -> Value {
    let steps = case["steps"].as_array().unwrap();
    let live0 = crate::hist::live_scanners();
    let mut h = HashMap::new();
    let outs: Vec<Value> = steps.iter().map(|s| step(s, &mut h)).collect();
    assert!(h.is_empty(), "harness: the history leaves handles");
    let live = crate::hist::live_scanners() - live0;
    let reps = case["reps"].as_u64().unwrap_or(0);
    let mut grow = 0;
    let again = || {
        let mut h = HashMap::new();
        for s in steps {
            step(s, &mut h);
        }
    };
    if reps > 0 {
        for _ in 0..3 {
            again();
        }
        let before = LIVE.load(Ordering::Relaxed);
        for _ in 0..reps {
            again();
        }
        grow = (LIVE.load(Ordering::Relaxed) - before).abs();
    }
    json!({"outs": outs, "live": live, "grow": grow, "slack": case["slack"].as_i64().unwrap_or(0)})
}
