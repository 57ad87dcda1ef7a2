//! The multi-threaded exact solver: number of threads, schedule of the critical sections and the
//! recorded updates of the shared best tour.
//!
//! The schedule is a sequence of worker numbers (in order of first arrival). A worker that wants
//! to enter a critical section waits for its turn, but never forever: if nothing happens for a
//! while, it goes on. A schedule is therefore a suggestion, and never the cause of a deadlock.

use crate::ops::Inst;
use serde_json::{json, Value};
use walky::datastructures::{NAMatrix, Solution};

extern "C" {
    fn sched_setaffinity(pid: i32, size: usize, mask: *const u64) -> i32;
    fn sched_getaffinity(pid: i32, size: usize, mask: *mut u64) -> i32;
}

fn with_cpus<R>(t: usize, f: impl FnOnce() -> R) -> R {
    let mut old = [0u64; 16];
    unsafe { sched_getaffinity(0, 128, old.as_mut_ptr()) };
    let mut new = [0u64; 16];
    let mut left = t;
    for cpu in 0..1024 {
        if left > 0 && old[cpu / 64] >> (cpu % 64) & 1 == 1 {
            new[cpu / 64] |= 1 << (cpu % 64);
            left -= 1;
        }
    }
    unsafe { sched_setaffinity(0, 128, new.as_ptr()) };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    unsafe { sched_setaffinity(0, 128, old.as_ptr()) };
    match r {
        Ok(r) => r,
        Err(e) => std::panic::resume_unwind(e),
    }
}

pub fn threaded(
    inst: &Inst,
    m: &NAMatrix,
    op: &Value,
    solver: fn(&NAMatrix) -> Solution,
) -> Value {
    static POOL: std::sync::Once = std::sync::Once::new();
    POOL.call_once(|| {
        let _ = rayon::ThreadPoolBuilder::new().num_threads(16).build_global();
    });
    let t = op["t"].as_u64().unwrap() as usize;
    let sched: Vec<usize> = match op["sched"].as_array() {
        Some(a) => a.iter().map(|x| x.as_u64().unwrap() as usize).collect(),
        None => vec![],
    };
    gate::start(sched);
    let (t, s) = with_cpus(t, || {
        let t: usize = std::thread::available_parallelism().map_or(1, |x| x.into());
        (t, solver(m))
    });
    let (ev, forced) = gate::stop();
    let ev: Vec<Value> = ev
        .iter()
        .map(|(w, b, a)| {
            let e = inst.enc_of(a.0, inst.n);
            json!([w, inst.enc_of(b.0, inst.n)["v"], e["v"], a.1])
        })
        .collect();
    let mut v = inst.enc_of(s.0, inst.n);
    v["p"] = json!(s.1);
    v["t"] = json!(t);
    v["ev"] = json!(ev);
    v["forced"] = json!(forced);
    v
}

#[cfg(not(walky_verif))]
mod gate {
    use walky::datastructures::Solution;
    pub fn start(_: Vec<usize>) {}
    pub fn stop() -> (Vec<(usize, Solution, Solution)>, usize) {
        (vec![], 0)
    }
}

#[cfg(walky_verif)]
mod gate {
    use std::collections::HashMap;
    use std::sync::{Condvar, Mutex};
    use std::thread::ThreadId;
    use std::time::Duration;
    use walky::datastructures::Solution;
    use walky::verif::{set_callback, Event};

    struct State {
        sched: Vec<usize>,
        pos: usize,
        forced: usize,
        ids: HashMap<ThreadId, usize>,
        before: HashMap<usize, Solution>,
        log: Vec<(usize, Solution, Solution)>,
    }
    static STATE: Mutex<Option<State>> = Mutex::new(None);
    static TURN: Condvar = Condvar::new();

    pub fn start(sched: Vec<usize>) {
        *STATE.lock().unwrap() = Some(State {
            sched,
            pos: 0,
            forced: 0,
            ids: HashMap::new(),
            before: HashMap::new(),
            log: vec![],
        });
        set_callback(Some(on_event));
    }

    pub fn stop() -> (Vec<(usize, Solution, Solution)>, usize) {
        set_callback(None);
        let s = STATE.lock().unwrap().take().unwrap();
        (s.log, s.forced)
    }

    fn on_event(e: Event, value: Option<&Solution>) {
        let mut g = STATE.lock().unwrap();
        let Some(s) = g.as_mut() else { return };
        let new = s.ids.len();
        let me = *s.ids.entry(std::thread::current().id()).or_insert(new);
        match e {
            Event::Before => loop {
                let s = g.as_mut().unwrap();
                // if more critical sections are entered than expected, start all over
                let free = s.sched.is_empty() || s.forced > 150;
                if free || s.sched[s.pos % s.sched.len()] == me {
                    s.pos += 1;
                    TURN.notify_all();
                    return;
                }
                let seen = s.pos;
                let (g2, timeout) = TURN.wait_timeout(g, Duration::from_millis(2)).unwrap();
                g = g2;
                let Some(s) = g.as_mut() else { return };
                if timeout.timed_out() && s.pos == seen {
                    // the worker whose turn it is does not come: skip it
                    s.pos += 1;
                    s.forced += 1;
                    TURN.notify_all();
                }
            },
            Event::Acquired => {
                if let Some(v) = value {
                    s.before.insert(me, v.clone());
                }
            }
            Event::Releasing => {
                if let (Some(v), Some(b)) = (value, s.before.remove(&me)) {
                    if s.log.len() < 100_000 {
                        s.log.push((me, b, v.clone()));
                    }
                }
            }
        }
    }
}
