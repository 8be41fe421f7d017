//! Executor: reads one JSON case per line on stdin, runs it against the library, writes one JSON
//! result per line. It decides nothing: results are judged by TLC against the TLA+ specification.
mod conv;
mod ffi;
mod hist;
mod list_event;
mod mval;
mod ops;
mod scripted;
mod tree;

#[global_allocator]
static ALLOC: ffi::Counting = ffi::Counting;

use serde_json::{json, Value};
use std::io::{BufRead, Write};

fn main() {
    let mode = std::env::args().nth(1).unwrap_or_default();
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    std::panic::set_hook(Box::new(|_| {}));
    ops::setup(&mode);
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let case: Value = serde_json::from_str(&line).expect("case JSON");
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ops::run(&case)));
        let out = match res {
            Ok(v) => v,
            Err(e) => {
                let msg = e
                    .downcast_ref::<&str>()
                    .map(|s| s.to_string())
                    .or_else(|| e.downcast_ref::<String>().cloned())
                    .unwrap_or_default();
                json!({"panic": msg})
            }
        };
        let mut o = stdout.lock();
        writeln!(o, "{}", json!({"id": case["id"], "out": out})).unwrap();
        o.flush().unwrap();
    }
}
