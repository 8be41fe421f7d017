//! The library's own event types, built from a tagged tree (see spec/Tree.tla).
use crate::conv::*;
use dd_sds::*;
use serde_json::{json, Value};
use std::collections::HashMap;

fn entries(v: &Value) -> impl Iterator<Item = (String, &Value)> {
    v["m"].as_array().unwrap().iter().map(|e| (st(&e["k"]), &e["v"]))
}
fn simple(v: &Value) -> SimpleEvent {
    match v["t"].as_str().unwrap() {
        "s" => SimpleEvent::String(st(&v["s"])),
        "l" => SimpleEvent::List(v["l"].as_array().unwrap().iter().map(simple).collect()),
        "m" => SimpleEvent::Map(entries(v).map(|(k, v)| (k, simple(v))).collect()),
        x => panic!("harness: node {x}"),
    }
}
fn from_simple(e: &SimpleEvent) -> Value {
    match e {
        SimpleEvent::String(s) => json!({"t": "s", "s": cps(s)}),
        SimpleEvent::List(l) => json!({"t": "l", "l": l.iter().map(from_simple).collect::<Vec<_>>()}),
        SimpleEvent::Map(m) => {
            json!({"t": "m", "m": m.iter().map(|(k, v)| json!({"k": cps(k), "v": from_simple(v)})).collect::<Vec<_>>()})
        }
    }
}
pub fn to_json(v: &Value) -> Value {
    match v["t"].as_str().unwrap() {
        "s" => Value::String(st(&v["s"])),
        "n" => serde_json::from_str(&st(&v["s"])).expect("harness: JSON number or boolean"),
        "z" => Value::Null,
        "l" => Value::Array(v["l"].as_array().unwrap().iter().map(to_json).collect()),
        "m" => Value::Object(entries(v).map(|(k, v)| (k, to_json(v))).collect()),
        x => panic!("harness: node {x}"),
    }
}
/// JSON text of a tagged tree, keys in the order given.
pub fn to_text(v: &Value) -> String {
    match v["t"].as_str().unwrap() {
        "l" => format!("[{}]", v["l"].as_array().unwrap().iter().map(to_text).collect::<Vec<_>>().join(", ")),
        "m" => {
            let es: Vec<String> = entries(v).map(|(k, v)| format!("{}: {}", Value::String(k), to_text(v))).collect();
            format!("{{{}}}", es.join(","))
        }
        _ => to_json(v).to_string(),
    }
}
pub fn from_json(v: &Value) -> Value {
    match v {
        Value::String(s) => json!({"t": "s", "s": cps(s)}),
        Value::Number(_) | Value::Bool(_) => json!({"t": "n", "s": cps(&v.to_string())}),
        Value::Null => json!({"t": "z"}),
        Value::Array(a) => json!({"t": "l", "l": a.iter().map(from_json).collect::<Vec<_>>()}),
        Value::Object(m) => from_map(m.iter()),
    }
}
fn from_map<'a>(it: impl Iterator<Item = (&'a String, &'a Value)>) -> Value {
    json!({"t": "m", "m": it.map(|(k, v)| json!({"k": cps(k), "v": from_json(v)})).collect::<Vec<_>>()})
}

pub fn run(case: &Value) -> Value {
    let scanner = match crate::ops::build(case) {
        Ok(s) => s,
        Err(e) => return json!({"build": create_err(&e), "tree": case["tree"], "matches": []}),
    };
    let blocked: Vec<usize> = case["blocked"].as_array().map(|a| a.iter().map(usz).collect()).unwrap_or_default();
    let (m, tree) = match case["kind"].as_str().unwrap() {
        "string" => {
            let mut e = st(&case["tree"]["s"]);
            (scanner.scan(&mut e, blocked), json!({"t": "s", "s": cps(&e)}))
        }
        "simple" => {
            let mut e = simple(&case["tree"]);
            (scanner.scan(&mut e, blocked), from_simple(&e))
        }
        "json" => {
            let mut e = to_json(&case["tree"]);
            (scanner.scan(&mut e, blocked), from_json(&e))
        }
        "map" => {
            let mut e: HashMap<String, Value> = entries(&case["tree"]).map(|(k, v)| (k, to_json(v))).collect();
            (scanner.scan(&mut e, blocked), from_map(e.iter()))
        }
        x => panic!("harness: kind {x}"),
    };
    let mut out = json!({"build": "ok", "tree": tree, "matches": m.iter().map(match_json).collect::<Vec<_>>()});
    if case["hash"] == true {
        let mut h = vec![];
        fn walk(v: &Value, h: &mut Vec<Value>) {
            match v["t"].as_str().unwrap() {
                "s" | "n" => crate::ops::hashes(&st(&v["s"]), h),
                "l" => v["l"].as_array().unwrap().iter().for_each(|v| walk(v, h)),
                "m" => v["m"].as_array().unwrap().iter().for_each(|e| walk(&e["v"], h)),
                _ => {}
            }
        }
        walk(&case["tree"], &mut h);
        out["hash"] = Value::Array(h);
    }
    out
}

/// An event given as bytes, scanned as the bindings do.
pub fn binary(case: &Value) -> Value {
    let scanner = match crate::ops::build(case) {
        Ok(s) => s,
        Err(e) => return json!({"build": create_err(&e), "err": false, "size": 0, "cap": 0, "resp": []}),
    };
    let go = |f: &dyn Fn() -> Option<Vec<u8>>| match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => json!({"build": "ok", "err": false, "size": r.as_ref().map_or(0, |r| r.len()), "cap": r.as_ref().map_or(0, |r| r.capacity()),
                        "resp": r.unwrap_or_default()}),
        Err(_) => json!({"build": "ok", "err": true, "size": 0, "cap": 0, "resp": []}),
    };
    fn one<E: Encoding>(scanner: &Scanner, case: &Value) -> Option<Vec<u8>> {
        let bytes: Vec<u8> = case["bytes"].as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect();
        let mut ev = sds_bindings_utils::BinaryEvent::<E>::new(bytes, case["valid"] == true);
        let m = scanner.scan(&mut ev, case["blocked"].as_array().unwrap().iter().map(usz).collect());
        sds_bindings_utils::encode_response(&ev.storage, &m)
    }
    let mut out = if case["enc"] == "utf16" {
        go(&|| one::<crate::list_event::Utf16Encoding>(&scanner, case))
    } else {
        go(&|| one::<Utf8Encoding>(&scanner, case))
    };
    if case["hash"] == true {
        let mut h = vec![];
        case["texts"].as_array().unwrap().iter().for_each(|t| crate::ops::hashes(&st(t), &mut h));
        out["hash"] = Value::Array(h);
    }
    out
}

/// A rule document is read, used and written; or a rule of the builder is written.
pub fn doc(case: &Value) -> Value {
    let write = |r: &RegexRuleConfig| {
        let text = serde_json::to_string(r).unwrap();
        let again = serde_json::from_str::<RegexRuleConfig>(&text).map(|x| &x == r).unwrap_or(false);
        (from_json(&serde_json::from_str(&text).unwrap()), again)
    };
    if case["rule"].is_object() {
        let (written, again) = write(&regex_rule(&case["rule"], &crate::ops::no_mv));
        return json!({"written": written, "again": again});
    }
    let rule: RegexRuleConfig = match serde_json::from_str(&to_text(&case["doc"])) {
        Ok(r) => r,
        Err(_) => return json!({"ok": false}),
    };
    let (written, again) = write(&rule);
    let can = rule.get_match_validation_type().map(|t| t.can_create_match_validator()).unwrap_or(false);
    let scan = match Scanner::builder(&[rule.build()]).build() {
        Ok(s) => crate::ops::scan_case(&s, case),
        Err(e) => json!({"build": create_err(&e)}),
    };
    json!({"ok": true, "written": written, "again": again, "can": can, "scan": scan})
}

/// A match validation configuration made with the builder, as a document.
pub fn http_builder(case: &Value) -> Value {
    let mut b = HttpValidatorConfigBuilder::new(st(&case["ep"]));
    if let Some(h) = case["hosts"].as_array() {
        b.set_hosts(h.iter().map(st).collect());
    }
    if case["set"].is_object() {
        // values come from a document; which of them are set varies
        let text = format!("{{\"CustomHttp\":{}}}", to_text(&case["set"]));
        let MatchValidationType::CustomHttp(c) = serde_json::from_str(&text).expect("harness: HTTP validation document") else {
            panic!("harness: not an HTTP validation");
        };
        for f in case["which"].as_array().unwrap() {
            match f.as_str().unwrap() {
                "method" => b.set_method(c.method.clone()),
                "headers" => b.set_request_header(c.request_header.clone()),
                "valid" => b.set_valid_http_status_code(c.valid_http_status_code.clone()),
                "invalid" => b.set_invalid_http_status_code(c.invalid_http_status_code.clone()),
                _ => b.set_timeout(c.options.timeout),
            };
        }
    }
    match b.build() {
        Ok(c) => json!({"ok": true, "written": from_json(&serde_json::to_value(&c).unwrap())}),
        Err(_) => json!({"ok": false}),
    }
}
