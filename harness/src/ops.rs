use crate::conv::*;
use crate::list_event::*;
use dd_sds::*;
use serde_json::{json, Value};

pub fn setup(_mode: &str) {
    crate::hist::install();
}

pub fn run(case: &Value) -> Value {
    match case["op"].as_str().unwrap() {
        "scan" => scan(case),
        "regex" => regex(case),
        "validate" => validate(case),
        "hist" => crate::hist::run(case),
        "mval" => crate::mval::run(case),
        "tree" => crate::tree::run(case),
        "doc" => crate::tree::doc(case),
        "http" => crate::tree::http_builder(case),
        "hashes" => {
            let mut h = vec![];
            case["texts"].as_array().unwrap().iter().for_each(|t| hashes(&st(t), &mut h));
            json!({"hash": h})
        }
        "metrics" => metrics(case),
        "probe" => probe(case),
        "binary" => crate::tree::binary(case),
        "ffi" => crate::ffi::run(case),
        x => panic!("harness: op {x}"),
    }
}

pub fn no_mv(_: &Value) -> Option<MatchValidationType> {
    None
}

pub fn build(case: &Value) -> Result<Scanner, CreateScannerError> {
    let rules = rules(&case["rules"], &crate::mval::mv_type);
    let o = &case["opts"];
    let mut b = ScannerBuilder::new(&rules);
    if let Some(v) = o["implicit"].as_bool() {
        b = b.with_implicit_wildcard_indexes_for_scopes(v);
    }
    if let Some(v) = o["kwpath"].as_bool() {
        b = b.with_keywords_should_match_event_paths(v);
    }
    if let Some(v) = o["multipass"].as_bool() {
        b = b.with_multipass_v0(v);
    }
    if o["labels"].is_array() {
        b = b.labels(labels(&o["labels"]));
    }
    b.build()
}

/// Several scans by one scanner, with the counters after each. A label of its own keeps the counters of
/// this scanner apart from those of all others.
fn metrics(case: &Value) -> Value {
    static NEXT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let id = format!("case-{}", NEXT.fetch_add(1, std::sync::atomic::Ordering::SeqCst));
    let mut case = case.clone();
    let own = json!([cps("verif"), cps(&id)]);
    let at = case["at"].as_u64().unwrap() as usize;
    case["opts"]["labels"].as_array_mut().unwrap().insert(at, own);
    let scanner = match build(&case) {
        Ok(s) => s,
        Err(e) => return json!({"build": create_err(&e), "steps": []}),
    };
    let run = |s: &Value| json!({"matches": scan_case(&scanner, s)["matches"], "counters": crate::hist::counters_with(&id)});
    let steps: Vec<Value> = case["scans"].as_array().unwrap().iter().map(run).collect();
    json!({"build": "ok", "steps": steps})
}

/// Several scans by one scanner whose rules record what they are given.
fn probe(case: &Value) -> Value {
    use crate::scripted::{log, Log};
    let n = case["rules"].as_array().unwrap().len();
    log(|l| *l = Log { rules: n, ..Log::default() });
    let scanner = match build(case) {
        Ok(s) => s,
        Err(e) => return json!({"build": create_err(&e), "made": [], "steps": []}),
    };
    let made = log(|l| std::mem::take(&mut l.made));
    let run = |s: &Value| {
        let mut o = scan_case(&scanner, s);
        o["calls"] = Value::Array(log(|l| std::mem::take(&mut l.calls)));
        o["excluded"] = Value::Array(log(|l| std::mem::take(&mut l.excluded)));
        o
    };
    let steps: Vec<Value> = case["scans"].as_array().unwrap().iter().map(run).collect();
    json!({"build": "ok", "made": made, "steps": steps})
}

pub fn hashes(s: &str, out: &mut Vec<Value>) {
    // every substring could be a match: only used with short strings
    let idx: Vec<usize> = s.char_indices().map(|(i, _)| i).chain([s.len()]).collect();
    for a in 0..idx.len() {
        for b in a + 1..idx.len() {
            hash_of(&s[idx[a]..idx[b]], out);
        }
    }
}

pub fn hash_of(t: &str, out: &mut Vec<Value>) {
    out.push(json!([cps(t), cps(&format!("{:x}", farmhash::fingerprint64(t.as_bytes())))]));
    // the UTF-16 variant of the action: key marked by a leading -1
    let b: Vec<u8> = t.encode_utf16().flat_map(u16::to_le_bytes).collect();
    let mut key = vec![json!(-1)];
    key.extend(t.chars().map(|c| json!(c as u32)));
    out.push(json!([key, cps(&format!("{:x}", farmhash::fingerprint64(&b)))]));
}

fn scan_event<E: Encoding>(scanner: &Scanner, case: &Value) -> Value {
    let mut ev = ListEvent::<E>::from_json(&case["ev"]);
    let blocked = case["blocked"].as_array().map(|a| a.iter().map(usz).collect()).unwrap_or_default();
    ENC_ERRORS.with(|e| e.borrow_mut().clear());
    let m = scanner.scan(&mut ev, blocked);
    json!({
        "build": "ok",
        "trace": ev.trace,
        "leaves": ev.leaves.iter().map(|(_, s)| cps(s)).collect::<Vec<_>>(),
        "matches": m.iter().map(match_json).collect::<Vec<_>>(),
        "encerr": ENC_ERRORS.with(|e| e.borrow().len()),
    })
}

fn scan(case: &Value) -> Value {
    let scanner = match build(case) {
        Ok(s) => s,
        Err(e) => return json!({"build": create_err(&e), "trace": [], "leaves": [], "matches": [], "encerr": 0}),
    };
    scan_case(&scanner, case)
}

pub fn scan_case(scanner: &Scanner, case: &Value) -> Value {
    let mut out = if case["enc"] == "utf16" {
        scan_event::<Utf16Encoding>(scanner, case)
    } else {
        scan_event::<Utf8Encoding>(scanner, case)
    };
    if case["hash"] == true {
        let mut h = vec![];
        for l in case["ev"].as_array().unwrap() {
            hashes(&st(&l["s"]), &mut h);
        }
        out["hash"] = Value::Array(h);
    }
    if let Some(l) = case["hlist"].as_array() {
        let mut h = vec![];
        l.iter().for_each(|t| hash_of(&st(t), &mut h));
        out["hash"] = Value::Array(h);
    }
    out
}

/// Only validation: the answer of `validate_regex`, of building a scanner, and the size estimate.
fn validate(case: &Value) -> Value {
    let pat = st(&case["pat"]);
    let val = match validate_regex(&pat) {
        Ok(()) => "ok".to_string(),
        Err(e) => format!("{e:?}"),
    };
    let build = match Scanner::builder(&[RegexRuleConfig::new(&pat).build()]).build() {
        Ok(_) => "ok".to_string(),
        Err(e) => create_err(&e),
    };
    let mut out = json!({"val": val, "build": build});
    if case["size"] == true {
        out["size"] = match get_regex_complexity_estimate_very_slow(&pat) {
            Ok(n) => json!(["ok", n]),
            Err(e) => json!([format!("{e:?}"), 0]),
        };
    }
    out
}

/// One rule, several inputs: spans in characters. The pattern is also run in a form that keeps its
/// meaning (an extra alternative no input contains), see DESIGN.md on the regex engine.
fn regex(case: &Value) -> Value {
    let pat = st(&case["pat"]);
    let val = match validate_regex(&pat) {
        Ok(()) => "ok".to_string(),
        Err(e) => format!("{e:?}"),
    };
    let (build, spans) = regex_spans(&pat, &case["ins"]);
    let (_, guarded) = regex_spans(&format!("(?:{pat})|\\x{{10FFFE}}\\x{{10FFFF}}"), &case["ins"]);
    json!({"val": val, "build": build, "spans": spans, "guarded": guarded})
}

fn regex_spans(pat: &str, ins: &Value) -> (String, Vec<Value>) {
    let rule = RegexRuleConfig::new(pat).build();
    let scanner = match Scanner::builder(&[rule]).build() {
        Ok(s) => s,
        Err(e) => return (create_err(&e), vec![]),
    };
    let spans = ins
        .as_array()
        .unwrap()
        .iter()
        .map(|s| {
            let mut s = st(s);
            let orig = s.clone();
            let m = scanner.scan(&mut s, vec![]);
            assert!(s == orig, "a rule without action changed the string");
            m.iter()
                .map(|m| json!([char_index(&s, m.start_index), char_index(&s, m.end_index_exclusive)]))
                .collect()
        })
        .collect();
    ("ok".to_string(), spans)
}

/// byte index -> character index, -1 when not on a boundary
pub fn char_index(s: &str, i: usize) -> i64 {
    if i <= s.len() && s.is_char_boundary(i) {
        s[..i].chars().count() as i64
    } else {
        -1
    }
}
