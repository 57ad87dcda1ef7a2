//! Executes cases (one JSON object per line on stdin) against the walky library and prints what
//! was observed (one JSON object per operation on stdout).
//!
//! Only the public interface of the library is used. A panic is an observation (`"k":"panic"`).
//! Before each operation a line `{"id":..,"o":..,"k":"start"}` is printed, so that the driver
//! knows which operation killed the process or ran into the alarm.

mod hooks;
mod ops;

use serde_json::{json, Value};
use std::io::{BufRead, Write};

extern "C" {
    fn alarm(seconds: u32) -> u32;
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let limit: u32 = std::env::args()
        .nth(1)
        .and_then(|a| a.parse().ok())
        .unwrap_or(20);
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let case: Value = serde_json::from_str(&line).expect("case");
        let id = case["id"].clone();
        let first = case["from"].as_u64().unwrap_or(0) as usize;
        let inst = ops::Inst::new(&case);
        for (o, op) in case["ops"].as_array().unwrap().iter().enumerate() {
            if o < first {
                continue;
            }
            {
                let mut w = out.lock();
                writeln!(w, "{}", json!({"id": id, "o": o, "k": "start"})).unwrap();
                w.flush().unwrap();
            }
            unsafe { alarm(limit) };
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                ops::run(&inst, op)
            }));
            unsafe { alarm(0) };
            let mut res = match res {
                Ok(v) => v,
                Err(e) => {
                    let msg = e
                        .downcast_ref::<String>()
                        .cloned()
                        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or_default();
                    json!({"k": "panic", "msg": msg.chars().take(200).collect::<String>()})
                }
            };
            res["id"] = id.clone();
            res["o"] = json!(o);
            let mut w = out.lock();
            writeln!(w, "{}", res).unwrap();
            w.flush().unwrap();
        }
    }
}
