//! Conformance driver: executes recorded or generated histories against the library and
//! records what it observed. It judges nothing itself; the TLA+ specification does.
//!
//! usage: kicad-conformance IN.ndjson OUT.ndjson SCRATCHDIR
//! IN has one history per line: {"id":n,"steps":[{"op":...},...]}
//! OUT gets one line per history: {"id":n,"out":[...]}

mod fp;
mod json;
mod lay;
mod ops;
mod sch;

use json::{obj, s, J};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() != 4 {
        json::driver_error("usage: kicad-conformance IN OUT SCRATCH")
    }
    std::panic::set_hook(Box::new(|_| {}));
    let input = std::fs::read_to_string(&a[1]).unwrap_or_else(|e| json::driver_error(&e.to_string()));
    let mut out = std::fs::File::create(&a[2]).unwrap_or_else(|e| json::driver_error(&e.to_string()));
    // documents can be nested; give the library a roomy stack
    let scratch = a[3].clone();
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            for line in input.lines() {
                let t = json::parse(line);
                // announce the history first so that an abort can be attributed to it
                let _ = writeln!(out, "{{\"begin\":{}}}", t.gi("id"));
                let mut st = ops::Session::new(scratch.clone());
                let mut res = vec![];
                for step in t.get("steps").arr() {
                    match catch_unwind(AssertUnwindSafe(|| st.step(step))) {
                        Ok(x) => res.push(x),
                        Err(e) => {
                            let m = if let Some(x) = e.downcast_ref::<&str>() {
                                x.to_string()
                            } else if let Some(x) = e.downcast_ref::<String>() {
                                x.clone()
                            } else {
                                "?".to_string()
                            };
                            res.push(obj(vec![("panic", s(m))]));
                            break;
                        }
                    }
                }
                let o = J::O(vec![("id".to_string(), J::N(t.gi("id"))), ("out".to_string(), J::A(res))]);
                let _ = writeln!(out, "{}", o.dump());
            }
        })
        .unwrap();
    if h.join().is_err() {
        json::driver_error("driver thread died")
    }
}
