//! Match validation: a scan followed by `validate_matches` against a local HTTP server that records
//! every request and answers as the case says.
use crate::conv::*;
use crate::list_event::*;
use dd_sds::*;
use serde_json::{json, Value};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::{Mutex, OnceLock};
use std::time::Duration;

struct State {
    case: Value,
    reqs: Vec<Value>,
}
static STATE: Mutex<Option<State>> = Mutex::new(None);
static PORT: OnceLock<u16> = OnceLock::new();
const DATE: i64 = 1_700_000_000;

fn port() -> u16 {
    *PORT.get_or_init(|| {
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        let p = l.local_addr().unwrap().port();
        std::thread::spawn(move || {
            for c in l.incoming().flatten() {
                std::thread::spawn(move || serve(c));
            }
        });
        p
    })
}

fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}

fn serve(mut c: TcpStream) {
    let _ = c.set_read_timeout(Some(Duration::from_secs(20)));
    let mut buf = vec![];
    let mut tmp = [0; 4096];
    let head_end = loop {
        if let Some(i) = find(&buf, b"\r\n\r\n") {
            break i;
        }
        match c.read(&mut tmp) {
            Ok(n) if n > 0 => buf.extend_from_slice(&tmp[..n]),
            _ => return,
        }
    };
    let head: String = String::from_utf8_lossy(&buf[..head_end]).to_string();
    let mut lines = head.split("\r\n");
    let first = lines.next().unwrap_or("").to_string();
    let headers: Vec<(String, String)> = lines
        .filter_map(|l| l.split_once(':').map(|(k, v)| (k.trim().to_lowercase(), v.strip_prefix(' ').unwrap_or(v).to_string())))
        .collect();
    let len: usize = headers.iter().find(|h| h.0 == "content-length").and_then(|h| h.1.parse().ok()).unwrap_or(0);
    while buf.len() < head_end + 4 + len {
        match c.read(&mut tmp) {
            Ok(n) if n > 0 => buf.extend_from_slice(&tmp[..n]),
            _ => break,
        }
    }
    let body = String::from_utf8_lossy(&buf[head_end + 4..]).to_string();
    let code = {
        let mut g = STATE.lock().unwrap();
        match g.as_mut() {
            Some(s) => answer(s, &first, &headers, &body),
            None => 0,
        }
    };
    if code < 0 {
        // no answer in time
        std::thread::sleep(Duration::from_millis(-code as u64));
    }
    if code > 0 {
        let _ = c.write_all(format!("HTTP/1.1 {code} X\r\nContent-Length: 0\r\nConnection: close\r\n\r\n").as_bytes());
    }
}

fn answer(s: &mut State, first: &str, headers: &[(String, String)], body: &str) -> i64 {
    let mut w = first.split(' ');
    let method = w.next().unwrap_or("").to_string();
    let path = w.next().unwrap_or("").to_string();
    let own = ["host", "accept", "content-length", "accept-encoding", "content-type", "x-amz-date"];
    let mut vals: Vec<(String, String)> = headers.iter().filter(|h| !own.contains(&h.0.as_str())).cloned().collect();
    let aws = headers.iter().any(|h| h.0 == "x-amz-date");
    if aws {
        // which key pair signed this?
        let auth = headers.iter().find(|h| h.0 == "authorization").map(|h| h.1.clone()).unwrap_or_default();
        let url = format!("http://127.0.0.1:{}{}", PORT.get().unwrap(), path);
        let mut who = vec![("?".to_string(), "?".to_string())];
        for id in s.case["ids"].as_array().unwrap() {
            for sec in s.case["secrets"].as_array().unwrap() {
                if sign(&url, &st(id), &st(sec), body) == auth {
                    who = vec![(st(id), st(sec))];
                }
            }
        }
        vals = who;
    }
    vals.sort();
    let mut code = s.case["default"].as_i64().unwrap();
    for e in s.case["srv"].as_array().unwrap() {
        let hit = vals.iter().any(|(k, v)| v.contains(&st(&e["needle"])) && (!aws || *k == st(&e["id"])));
        if e["path"].as_str().unwrap() == path && hit && e["aws"].as_bool().unwrap() == aws {
            code = e["code"].as_i64().unwrap();
            break;
        }
    }
    s.reqs.push(json!({"method": method, "path": path, "aws": aws,
        "vals": vals.iter().map(|(k, v)| json!([cps(k), cps(v)])).collect::<Vec<_>>()}));
    code
}

fn sign(url: &str, id: &str, secret: &str, body: &str) -> String {
    let date = chrono::DateTime::from_timestamp(DATE, 0).unwrap();
    let mut h = reqwest::header::HeaderMap::new();
    h.insert("X-Amz-Date", date.format("%Y%m%dT%H%M%SZ").to_string().parse().unwrap());
    h.insert("Accept-Encoding", "identity".parse().unwrap());
    h.insert("Content-Type", "application/x-www-form-urlencoded; charset=utf-8".parse().unwrap());
    h.insert("host", "sts.us-east-1.amazonaws.com".parse().unwrap());
    aws_sign_v4::AwsSign::new("POST", url, &date, &h, "us-east-1", id, secret, "sts", body).sign()
}

fn ranges(v: &Value) -> Vec<std::ops::Range<u16>> {
    v.as_array().unwrap().iter().map(|r| usz(&r[0]) as u16..usz(&r[1]) as u16).collect()
}

fn timeout(v: &Value) -> Duration {
    Duration::from_millis(v["timeout"].as_u64().unwrap_or(20_000))
}

/// Where requests go: to our server, or (dead) to where none answers or to something that is no address.
fn base(v: &Value) -> String {
    if v["dead"] == true && matches!(v["ep"].as_str(), Some("/w" | "/aws2")) {
        "[no address".into()
    } else if v["dead"] == true {
        "127.0.0.1:1".into()
    } else {
        format!("127.0.0.1:{}", port())
    }
}

pub fn mv_type(v: &Value) -> Option<MatchValidationType> {
    match v["t"].as_str()? {
        "aws_id" => Some(MatchValidationType::Aws(AwsType::AwsId)),
        "aws_session" => Some(MatchValidationType::Aws(AwsType::AwsSession)),
        "aws_secret" => Some(MatchValidationType::Aws(AwsType::AwsSecret(AwsConfig {
            aws_sts_endpoint: format!("http://{}{}", base(v), v["ep"].as_str().unwrap()),
            forced_datetime_utc: chrono::DateTime::from_timestamp(DATE, 0),
            timeout: timeout(v),
        }))),
        _ => {
            let hosts: Vec<String> = v["hosts"]
                .as_array()
                .unwrap()
                .iter()
                .map(|h| format!("{}{}", base(v), h.as_str().unwrap()))
                .collect();
            let mut b = if hosts.is_empty() {
                HttpValidatorConfigBuilder::new(format!("http://{}{}", base(v), v["ep"].as_str().unwrap()))
            } else {
                HttpValidatorConfigBuilder::new(format!("http://$HOST{}", v["ep"].as_str().unwrap()))
            };
            b.set_hosts(hosts);
            b.set_timeout(timeout(v));
            // what the configuration leaves out has its documented default
            let dflt = v["dflt"] == true;
            match v["method"].as_str().filter(|_| !dflt) {
                Some("POST") => b.set_method(HttpMethod::Post),
                Some("PUT") => b.set_method(HttpMethod::Put),
                Some("DELETE") => b.set_method(HttpMethod::Delete),
                Some("PATCH") => b.set_method(HttpMethod::Patch),
                Some("GET") => b.set_method(HttpMethod::Get),
                _ => &mut b,
            };
            if !dflt {
                let h = v["headers"].as_array().unwrap();
                b.set_request_header(h.iter().map(|h| RequestHeader { key: st(&h[0]), value: st(&h[1]) }).collect());
                b.set_valid_http_status_code(ranges(&v["valid"]));
                b.set_invalid_http_status_code(ranges(&v["invalid"]));
            }
            Some(MatchValidationType::CustomHttp(b.build().expect("harness: validator config")))
        }
    }
}

fn full(m: &RuleMatch) -> Value {
    let mut j = match_json(m);
    j["msg"] = match &m.match_status {
        MatchStatus::Error(s) => json!(s.split(" (").next().unwrap().split(": ").next().unwrap()),
        _ => json!(""),
    };
    j
}

pub fn run(case: &Value) -> Value {
    port();
    *STATE.lock().unwrap() = Some(State { case: case.clone(), reqs: vec![] });
    let rules = rules(&case["rules"], &mv_type);
    let scanner = match ScannerBuilder::new(&rules).build() {
        Ok(s) => s,
        Err(e) => return json!({"build": create_err(&e)}),
    };
    let mut ev = ListEvent::<Utf8Encoding>::from_json(&case["ev"]);
    let mut m = scanner.scan(&mut ev, vec![]);
    let before: Vec<Value> = m.iter().map(full).collect();
    // the order in which the caller passes them, and whether it does so twice
    if case["rev"] == true {
        m.reverse();
    }
    let r = scanner.validate_matches(&mut m);
    let after: Vec<Value> = m.iter().map(full).collect();
    let reqs = STATE.lock().unwrap().take().unwrap().reqs;
    json!({"build": "ok", "before": before, "after": after, "res": if r.is_ok() { "ok" } else { "err" }, "reqs": reqs})
}
