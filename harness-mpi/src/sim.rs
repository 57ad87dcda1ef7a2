//! Executes cases in simulated MPI worlds; input and output as for walkyh.

mod calls;
#[path = "../../harness/src/hooks.rs"]
mod hooks;
#[path = "../../harness/src/ops.rs"]
#[allow(dead_code)]
mod ops;
#[allow(non_snake_case, clippy::missing_safety_doc, clippy::too_many_arguments)]
mod shim;
mod wire;
mod world;

use serde_json::{json, Value};
use std::io::{BufRead, Write};

fn say(v: Value) {
    let mut w = std::io::stdout().lock();
    writeln!(w, "{v}").unwrap();
    w.flush().unwrap();
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let limit: u64 = std::env::args().nth(1).and_then(|a| a.parse().ok()).unwrap_or(20);
    let stdin = std::io::stdin();
    let mut line = String::new();
    loop {
        line.clear();
        if stdin.lock().read_line(&mut line).unwrap() == 0 {
            break;
        }
        if line.trim().is_empty() {
            continue;
        }
        let case: Value = serde_json::from_str(&line).expect("case");
        let id = case["id"].clone();
        let first = case["from"].as_u64().unwrap_or(0) as usize;
        let inst = ops::Inst::new(&case);
        for (o, op) in case["ops"].as_array().unwrap().iter().enumerate() {
            if o < first {
                continue;
            }
            say(json!({"id": id, "o": o, "k": "start"}));
            let cfg = world::Config {
                size: op["size"].as_u64().expect("size") as usize,
                seed: op["seed"].as_u64().unwrap_or(1),
                sync: op["sync"].as_u64().unwrap_or(2),
                loose: op["loose"].as_bool().unwrap_or(true),
                prio: op["prio"].as_bool().unwrap_or(false),
                sched: op["sched"].as_array().map_or(vec![], |a| a.iter().map(|x| x.as_i64().unwrap()).collect()),
                limit,
            };
            let out = world::run(&cfg, |_| calls::calls(&inst, op).to_string().into_bytes());
            let mut res: Vec<Value> = vec![];
            let mut kind = out.kind.clone();
            let mut text = out.text.clone();
            for r in 0..cfg.size {
                let v: Value = out.results[r].as_ref().map_or(json!([]), |d| serde_json::from_slice(d).unwrap());
                if let Some(p) = v.as_array().unwrap().iter().find(|x| x["k"] == "panic") {
                    kind = "panic".into();
                    text = format!("rank {r}: {}", p["msg"].as_str().unwrap());
                }
                res.push(v);
            }
            if kind == "ok" {
                if let Some(r) = out.closed.iter().position(|&(i, f)| i && !f) {
                    kind = "unfinalized".into();
                    text = format!("rank {r} never finalized MPI");
                }
            }
            let mut v = json!({
                "id": id, "o": o, "k": kind, "msg": text, "steps": out.steps, "forced": out.forced, "left": out.left,
            });
            if kind == "ok" {
                v["res"] = json!(res);
            }
            if op["log"].as_bool() == Some(true) {
                // source, target, tag, length, the first number of the message
                let edges = op["calls"][0]["verts"].as_array().map_or(1, |v| v.len() / 2);
                let log: Vec<Value> = out
                    .log
                    .iter()
                    .map(|d| {
                        let x = if d.data.len() >= 8 {
                            inst.enc_of(f64::from_ne_bytes(d.data[..8].try_into().unwrap()), edges)
                        } else {
                            json!({"k": "none", "v": -1})
                        };
                        json!({"s": d.src, "d": d.dst, "t": d.tag, "l": d.data.len(), "k": x["k"], "v": x["v"]})
                    })
                    .collect();
                v["log"] = json!(log);
            }
            if op["stdout"].as_bool() == Some(true) {
                v["out"] = json!(out.stdout);
            }
            say(v);
        }
    }
}
