//! A simulated MPI world. Every rank is a child process; its MPI calls arrive here as requests.
//! Only one rank runs at a time: whenever every rank is waiting for an answer, one of the steps
//! that the MPI standard allows now is chosen, at random, by priorities, or as a schedule says.
//! So a run is determined by its seed, a deadlock is found at once, and orders of delivery that a
//! real network hardly ever produces are as likely as any other.

use crate::wire::*;
use std::collections::HashMap;
use std::io::{Read, Seek, SeekFrom};
use std::os::fd::{AsRawFd, FromRawFd};
use std::os::unix::net::UnixStream;
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}

#[derive(Clone, Default)]
pub struct Config {
    pub size: usize,
    pub seed: u64,
    /// standard sends: 0 never wait for the receiver, 1 always do, 2 at random
    pub sync: u64,
    /// may a rank leave a collective operation as early as the standard allows?
    pub loose: bool,
    /// choose by random priorities of the ranks instead of uniformly
    pub prio: bool,
    /// whose message a receive from anybody gets
    pub sched: Vec<i64>,
    pub limit: u64,
}

pub struct Delivered {
    pub src: i64,
    pub dst: i64,
    pub tag: i64,
    pub data: Vec<u8>,
}

#[derive(Default)]
pub struct Outcome {
    pub kind: String,
    pub text: String,
    /// what each rank returned
    pub results: Vec<Option<Vec<u8>>>,
    /// initialized, finalized
    pub closed: Vec<(bool, bool)>,
    pub stdout: Vec<String>,
    pub log: Vec<Delivered>,
    pub steps: u64,
    pub forced: u64,
    pub left: usize,
}

struct Env {
    src: i64,
    dst: i64,
    comm: i64,
    tag: i64,
    data: Vec<u8>,
    send: Option<usize>,
}
struct Posted {
    req: usize,
    rank: i64,
    comm: i64,
    src: i64,
    tag: i64,
    cap: usize,
}
impl Posted {
    fn fits(&self, e: &Env) -> bool {
        self.rank == e.dst
            && self.comm == e.comm
            && (self.src == -1 || self.src == e.src)
            && (self.tag == -1 || self.tag == e.tag)
    }
}

#[derive(Clone)]
enum State {
    Running,
    Call(usize),
    Wait(i64, bool, Vec<usize>),
    Probe(bool, i64, i64, i64, bool),
    Finished,
}

struct Part {
    req: usize,
    parts: Vec<Vec<u8>>,
    bytes: i64,
    extra: i64,
}
struct Coll {
    kind: i64,
    root: i64,
    arrived: Vec<Option<Part>>,
    served: Vec<bool>,
    assoc: i64,
    order: Vec<usize>,
}

enum Step {
    Match(usize, usize),
    Resume(usize),
}

struct World<'a> {
    cfg: &'a Config,
    rng: Rng,
    socks: Vec<UnixStream>,
    state: Vec<State>,
    done: HashMap<usize, Option<Msg>>,
    next: usize,
    msgs: Vec<Env>,
    recvs: Vec<Posted>,
    taken: HashMap<usize, Env>,
    colls: HashMap<(i64, usize), Coll>,
    count: HashMap<(usize, i64), usize>,
    comms: i64,
    out: Outcome,
    prio: Vec<u64>,
    sched: usize,
}

type R<T> = Result<T, (String, String)>;
fn stop<T>(k: &str, t: String) -> R<T> {
    Err((k.into(), t))
}

impl World<'_> {
    fn request(&mut self) -> usize {
        self.next += 1;
        self.done.insert(self.next, None);
        self.next
    }
    fn finish(&mut self, req: usize, m: Msg) {
        self.done.insert(req, Some(m));
    }
    fn reply(&mut self, r: usize, m: Msg) -> R<()> {
        match m.write(&mut self.socks[r]) {
            Ok(()) => Ok(()),
            Err(e) => stop("crash", format!("rank {r} is gone: {e}")),
        }
    }
    /// a posted request: answer with its number, or let the rank wait for it
    fn posted(&mut self, r: usize, wait: bool, req: usize) -> R<()> {
        if wait {
            self.state[r] = State::Call(req);
            Ok(())
        } else {
            self.reply(r, Msg::new(0, &[req as i64]))
        }
    }

    /// serves requests of rank r until it waits for something
    fn pump(&mut self, r: usize, deadline: Instant) -> R<()> {
        while matches!(self.state[r], State::Running) {
            let left = deadline.saturating_duration_since(Instant::now());
            if left.is_zero() {
                return stop("timeout", format!("rank {r} computes"));
            }
            self.socks[r].set_read_timeout(Some(left.max(Duration::from_millis(1)))).ok();
            let m = match Msg::read(&mut self.socks[r]) {
                Ok(m) => m,
                Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => {
                    return stop("timeout", format!("rank {r} computes"));
                }
                Err(_) => return stop("crash", format!("rank {r} died")),
            };
            self.serve(r, m)?;
        }
        Ok(())
    }

    fn serve(&mut self, r: usize, m: Msg) -> R<()> {
        let me = r as i64;
        let size = self.cfg.size as i64;
        match m.k {
            INIT | FINALIZE => self.reply(r, Msg::default()),
            ERROR => stop("mpierr", format!("rank {r}: {}", String::from_utf8_lossy(&m.d[0]))),
            UNSUPPORTED => stop("unsupported", String::from_utf8_lossy(&m.d[0]).into_owned()),
            ABORT => stop("abort", format!("rank {r} called MPI_Abort({})", m.a[0])),
            RESULT => {
                self.out.closed[r] = (m.a[0] != 0, m.a[1] != 0);
                self.out.results[r] = Some(m.d[0].clone());
                self.state[r] = State::Finished;
                Ok(())
            }
            SEND => {
                let (mode, comm, mut dest, tag) = (m.a[1], m.a[2], m.a[3], m.a[4]);
                let mut src = me;
                if comm < 0 {
                    if dest > 0 {
                        return stop("mpierr", format!("rank {r}: send to rank {dest} of itself"));
                    }
                    dest = me;
                    src = me;
                }
                if dest >= size {
                    return stop("mpierr", format!("rank {r}: send to rank {dest} of {size}"));
                }
                let req = self.request();
                if dest < 0 {
                    self.finish(req, Msg::new(0, &[0, 0, 0]));
                    return self.posted(r, m.a[0] != 0, req);
                }
                let e = Env { src, dst: dest, comm, tag, data: m.d[0].clone(), send: None };
                if mode == READY && !self.recvs.iter().any(|p| p.fits(&e)) {
                    return stop("mpierr", format!("rank {r}: ready send without receive"));
                }
                let sync = mode == SYNCHRONOUS
                    || mode == STANDARD
                        && match self.cfg.sync {
                            0 => false,
                            1 => true,
                            _ => self.rng.below(2) == 0,
                        };
                let e = Env { send: sync.then_some(req), ..e };
                if !sync {
                    self.finish(req, Msg::new(0, &[0, 0, 0]));
                }
                self.msgs.push(e);
                self.posted(r, m.a[0] != 0, req)
            }
            RECV => {
                let (comm, mut src, tag, cap) = (m.a[1], m.a[2], m.a[3], m.a[4]);
                if src >= if comm < 0 { 1 } else { size } {
                    return stop("mpierr", format!("rank {r}: receive from rank {src} of {size}"));
                }
                if comm < 0 && src == 0 {
                    src = me;
                }
                let req = self.request();
                if src == -2 {
                    self.finish(req, Msg::new(0, &[-2, -1, 0]));
                } else {
                    self.recvs.push(Posted { req, rank: me, comm, src, tag, cap: cap as usize });
                }
                self.posted(r, m.a[0] != 0, req)
            }
            MRECV => {
                let req = self.request();
                let Some(e) = self.taken.remove(&(m.a[1] as usize)) else {
                    return stop("mpierr", format!("rank {r}: unknown matched message"));
                };
                self.deliver(e, req, m.a[2] as usize)?;
                self.posted(r, m.a[0] != 0, req)
            }
            WAIT => {
                self.state[r] = State::Wait(m.a[0], m.a[1] != 0, m.a[2..].iter().map(|&x| x as usize).collect());
                Ok(())
            }
            PROBE => {
                self.state[r] = State::Probe(m.a[0] != 0, m.a[1], m.a[2], m.a[3], m.a[4] != 0);
                Ok(())
            }
            COLL => self.collective(r, m),
            k => stop("mpierr", format!("unknown request {k}")),
        }
    }

    fn deliver(&mut self, e: Env, req: usize, cap: usize) -> R<()> {
        if e.data.len() > cap {
            return stop(
                "mpierr",
                format!("message of {} bytes from rank {} to rank {} truncated to {}", e.data.len(), e.src, e.dst, cap),
            );
        }
        if let Some(s) = e.send {
            self.finish(s, Msg::new(0, &[0, 0, 0]));
        }
        let src = if e.comm < 0 { 0 } else { e.src };
        if self.out.log.len() < 20000 {
            self.out.log.push(Delivered { src: e.src, dst: e.dst, tag: e.tag, data: e.data.clone() });
        }
        self.finish(req, Msg::with(0, &[src, e.tag, 0], vec![e.data]));
        Ok(())
    }

    fn collective(&mut self, r: usize, m: Msg) -> R<()> {
        let (comm, kind, root, bytes, extra) = (m.a[1], m.a[2], m.a[3], m.a[4], *m.a.get(5).unwrap_or(&0));
        let req = self.request();
        let size = if comm < 0 { 1 } else { self.cfg.size };
        let at = if comm < 0 { 0 } else { r };
        let n = self.count.entry((r, comm)).or_insert(0);
        // the communicators of a single rank are numbered apart
        let key = (if comm < 0 { -1 - r as i64 } else { comm }, *n);
        *n += 1;
        if root < 0 || root >= size as i64 {
            return stop("mpierr", format!("rank {r}: {} with root {root}", KINDS[kind as usize]));
        }
        if !self.colls.contains_key(&key) {
            let assoc = self.rng.next() as i64;
            let mut order: Vec<usize> = (0..size).collect();
            if extra != 0 {
                for i in (1..size).rev() {
                    let j = self.rng.below(i + 1);
                    order.swap(i, j);
                }
            }
            self.colls.insert(
                key,
                Coll {
                    kind,
                    root,
                    arrived: (0..size).map(|_| None).collect(),
                    served: vec![false; size],
                    assoc,
                    order,
                },
            );
            if kind == COMMDUP {
                self.comms += 1;
            }
        }
        let same = {
            let c = &self.colls[&key];
            let rooted = matches!(kind, BCAST | REDUCE | GATHER | SCATTER);
            let sized = matches!(kind, BCAST | REDUCE | ALLREDUCE | SCAN | EXSCAN | REDUCE_SCATTER);
            let other = c.arrived.iter().flatten().next().map(|p| p.bytes);
            if c.kind != kind {
                Some(format!("rank {r} calls {} while others call {}", KINDS[kind as usize], KINDS[c.kind as usize]))
            } else if rooted && c.root != root {
                Some(format!("{} with roots {root} and {}", KINDS[kind as usize], c.root))
            } else if sized && other.is_some_and(|b| b != bytes) {
                Some(format!("{} of {bytes} and {} bytes", KINDS[kind as usize], other.unwrap()))
            } else {
                None
            }
        };
        if let Some(t) = same {
            return stop("mpierr", t);
        }
        self.colls.get_mut(&key).unwrap().arrived[at] = Some(Part { req, parts: m.d, bytes, extra });
        self.advance(key);
        self.posted(r, m.a[0] != 0, req)
    }

    /// completes the collective operation for everybody for whom it can be completed
    fn advance(&mut self, key: (i64, usize)) {
        let loose = self.cfg.loose;
        let dup = self.comms;
        let c = self.colls.get_mut(&key).unwrap();
        let size = c.arrived.len();
        let all = c.arrived.iter().all(|p| p.is_some());
        let root = c.root as usize;
        let mut ready = vec![];
        for r in 0..size {
            let Some(p) = &c.arrived[r] else { continue };
            if c.served[r] {
                continue;
            }
            let root_in = c.arrived[root].is_some();
            let ok = all
                || loose
                    && match c.kind {
                        BCAST | SCATTER => root_in,
                        REDUCE | GATHER => r != root,
                        SCAN | EXSCAN => (0..=r).all(|i| c.arrived[i].is_some()),
                        _ => false,
                    };
            if !ok {
                continue;
            }
            let part = |i: usize, k: usize| c.arrived[i].as_ref().unwrap().parts[k].clone();
            let ordered = || c.order.iter().map(|&i| part(i, 0)).collect::<Vec<_>>();
            let d = match c.kind {
                BCAST if r != root => vec![part(root, 0)],
                REDUCE if r == root => ordered(),
                ALLREDUCE => ordered(),
                GATHER if r == root => (0..size).map(|i| part(i, 0)).collect(),
                ALLGATHER => (0..size).map(|i| part(i, 0)).collect(),
                SCATTER => vec![part(root, r)],
                ALLTOALL => (0..size).map(|i| part(i, r)).collect(),
                REDUCE_SCATTER => c.order.iter().map(|&i| part(i, r)).collect(),
                SCAN => (0..=r).map(|i| part(i, 0)).collect(),
                EXSCAN => (0..r).map(|i| part(i, 0)).collect(),
                _ => vec![],
            };
            let first = if c.kind == COMMDUP { dup } else { 0 };
            let _ = p.extra;
            ready.push((r, p.req, Msg::with(0, &[first, 0, c.assoc], d)));
        }
        for (r, _, _) in &ready {
            c.served[*r] = true;
        }
        for (_, q, m) in ready {
            self.finish(q, m);
        }
    }

    fn probe(&self, r: usize, comm: i64, src: i64, tag: i64) -> Vec<usize> {
        // the first fitting message of each sender
        let p = Posted { req: 0, rank: r as i64, comm, src, tag, cap: 0 };
        let mut seen = vec![];
        let mut v = vec![];
        for (i, e) in self.msgs.iter().enumerate() {
            if p.fits(e) && !seen.contains(&e.src) {
                seen.push(e.src);
                v.push(i);
            }
        }
        v
    }

    fn steps(&self) -> Vec<Step> {
        let mut v = vec![];
        for (ri, p) in self.recvs.iter().enumerate() {
            let mut seen = vec![];
            for (mi, e) in self.msgs.iter().enumerate() {
                if !p.fits(e) || seen.contains(&e.src) {
                    continue;
                }
                seen.push(e.src);
                // an earlier receive has the right of way
                if self.recvs[..ri].iter().any(|q| q.fits(e)) {
                    continue;
                }
                v.push(Step::Match(ri, mi));
            }
        }
        for (r, s) in self.state.iter().enumerate() {
            let ok = match s {
                State::Call(q) => self.done[q].is_some(),
                State::Wait(mode, test, qs) => {
                    *test
                        || if *mode == 0 {
                            qs.iter().all(|q| self.done[q].is_some())
                        } else {
                            qs.iter().any(|q| self.done[q].is_some())
                        }
                }
                State::Probe(block, c, s, t, _) => !block || !self.probe(r, *c, *s, *t).is_empty(),
                _ => false,
            };
            if ok {
                v.push(Step::Resume(r));
            }
        }
        v
    }

    fn resume(&mut self, r: usize) -> R<()> {
        let s = std::mem::replace(&mut self.state[r], State::Running);
        match s {
            State::Call(q) => {
                let m = self.done.remove(&q).flatten().unwrap();
                self.reply(r, m)
            }
            State::Wait(mode, test, qs) => {
                let ready: Vec<usize> = (0..qs.len()).filter(|&i| self.done[&qs[i]].is_some()).collect();
                let mut take = match mode {
                    0 if ready.len() == qs.len() => ready,
                    0 => vec![],
                    1 if ready.is_empty() => vec![],
                    1 => vec![ready[self.rng.below(ready.len())]],
                    _ => ready,
                };
                if test && self.rng.below(4) == 0 {
                    take.clear();
                }
                let mut a = vec![];
                let mut d = vec![];
                for i in take {
                    let m = self.done.remove(&qs[i]).flatten().unwrap();
                    a.extend([i as i64, m.a[0], m.a[1], m.d.len() as i64, m.a[2]]);
                    d.extend(m.d);
                }
                self.reply(r, Msg::with(0, &a, d))
            }
            State::Probe(block, c, src, tag, take) => {
                let v = self.probe(r, c, src, tag);
                if v.is_empty() || !block && self.rng.below(4) == 0 {
                    return self.reply(r, Msg::new(0, &[0]));
                }
                let v: Vec<usize> = match self.choose_src(&v.iter().map(|&i| self.msgs[i].src).collect::<Vec<_>>()) {
                    Some(s) if src == -1 => v.into_iter().filter(|&i| self.msgs[i].src == s).collect(),
                    _ => v,
                };
                let i = v[self.rng.below(v.len())];
                let (s, t, n) = (self.msgs[i].src, self.msgs[i].tag, self.msgs[i].data.len());
                let mut id = 0;
                if take {
                    let e = self.msgs.remove(i);
                    self.next += 1;
                    id = self.next;
                    self.taken.insert(id, e);
                }
                self.reply(r, Msg::new(0, &[1, s, t, n as i64, id as i64]))
            }
            x => {
                self.state[r] = x;
                Ok(())
            }
        }
    }

    /// the schedule says from whom to receive next, as far as it can be followed
    fn choose_src(&mut self, from: &[i64]) -> Option<i64> {
        while self.sched < self.cfg.sched.len() {
            let s = self.cfg.sched[self.sched];
            self.sched += 1;
            if from.contains(&s) {
                return Some(s);
            }
            self.out.forced += 1;
        }
        None
    }

    fn pick(&mut self, steps: &[Step]) -> usize {
        let open = |s: &Step| match s {
            Step::Match(r, _) => self.recvs[*r].src == -1,
            Step::Resume(_) => false,
        };
        if !self.cfg.sched.is_empty() {
            let rest: Vec<usize> = (0..steps.len()).filter(|&i| !open(&steps[i])).collect();
            if !rest.is_empty() {
                return rest[self.rng.below(rest.len())];
            }
            let srcs: Vec<i64> = steps
                .iter()
                .map(|s| match s {
                    Step::Match(_, m) => self.msgs[*m].src,
                    _ => -1,
                })
                .collect();
            return match self.choose_src(&srcs) {
                Some(s) => srcs.iter().position(|&x| x == s).unwrap(),
                None => self.rng.below(steps.len()),
            };
        }
        if self.cfg.prio {
            if self.rng.below(40) == 0 {
                let k = self.rng.below(self.prio.len());
                self.prio[k] = self.rng.next();
            }
            let actor = |s: &Step| match s {
                Step::Match(_, m) => self.msgs[*m].src as usize,
                Step::Resume(r) => *r,
            };
            return (0..steps.len()).max_by_key(|&i| self.prio[actor(&steps[i])]).unwrap();
        }
        self.rng.below(steps.len())
    }

    fn run(&mut self, deadline: Instant) -> R<()> {
        for r in 0..self.cfg.size {
            self.pump(r, deadline)?;
        }
        loop {
            let steps = self.steps();
            if steps.is_empty() {
                let stuck: Vec<usize> =
                    (0..self.cfg.size).filter(|&r| !matches!(self.state[r], State::Finished)).collect();
                if stuck.is_empty() {
                    return Ok(());
                }
                return stop("deadlock", format!("ranks {stuck:?} of {} wait for ever", self.cfg.size));
            }
            self.out.steps += 1;
            if self.out.steps > 3_000_000 || Instant::now() > deadline {
                return stop("timeout", "too many steps".into());
            }
            let k = self.pick(&steps);
            match steps[k] {
                Step::Match(ri, mi) => {
                    let e = self.msgs.remove(mi);
                    let p = self.recvs.remove(ri);
                    self.deliver(e, p.req, p.cap)?;
                }
                Step::Resume(r) => {
                    self.resume(r)?;
                    self.pump(r, deadline)?;
                }
            }
        }
    }
}

fn scratch() -> std::fs::File {
    unsafe {
        let fd = libc::memfd_create(c"out".as_ptr(), 0);
        assert!(fd >= 0, "memfd");
        std::fs::File::from_raw_fd(fd)
    }
}

/// runs `body(rank)` on every rank of a new world
pub fn run(cfg: &Config, body: impl Fn(usize) -> Vec<u8>) -> Outcome {
    let mut socks = vec![];
    let mut pids = vec![];
    let mut outs = vec![];
    for r in 0..cfg.size {
        let (a, b) = UnixStream::pair().expect("socketpair");
        let mut f = scratch();
        let parent = unsafe { libc::getpid() };
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            unsafe {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                if libc::getppid() != parent {
                    libc::_exit(6);
                }
                libc::dup2(f.as_raw_fd(), 1);
                let null = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
                libc::dup2(null, 0);
                libc::dup2(null, 2);
            }
            drop(a);
            drop(std::mem::take(&mut socks));
            crate::shim::enter(b, r as i32, cfg.size as i32);
            let d = body(r);
            std::io::Write::flush(&mut std::io::stdout()).ok();
            crate::shim::leave(d);
            unsafe { libc::_exit(0) };
        }
        drop(b);
        f.seek(SeekFrom::Start(0)).ok();
        socks.push(a);
        outs.push(f);
        pids.push(pid);
    }
    let mut rng = Rng(cfg.seed);
    let prio = (0..cfg.size).map(|_| rng.next()).collect();
    let mut w = World {
        cfg,
        rng,
        socks,
        state: vec![State::Running; cfg.size],
        done: HashMap::new(),
        next: 0,
        msgs: vec![],
        recvs: vec![],
        taken: HashMap::new(),
        colls: HashMap::new(),
        count: HashMap::new(),
        comms: 0,
        out: Outcome {
            results: vec![None; cfg.size],
            closed: vec![(false, false); cfg.size],
            ..Default::default()
        },
        prio,
        sched: 0,
    };
    let res = w.run(Instant::now() + Duration::from_secs(cfg.limit.max(1)));
    let mut out = std::mem::take(&mut w.out);
    out.left = w.msgs.len();
    match res {
        Ok(()) => out.kind = "ok".into(),
        Err((k, t)) => {
            out.kind = k;
            out.text = t;
        }
    }
    for (r, p) in pids.iter().enumerate() {
        let mut st = 0;
        unsafe {
            if out.kind == "crash" && libc::waitpid(*p, &mut st, libc::WNOHANG) == *p {
                if libc::WIFSIGNALED(st) {
                    out.text += &format!(", rank {r}: signal {}", libc::WTERMSIG(st));
                }
                continue;
            }
            if out.kind != "ok" {
                libc::kill(*p, libc::SIGKILL);
            }
            libc::waitpid(*p, &mut st, 0);
        }
    }
    for f in outs.iter_mut() {
        let mut s = vec![];
        f.seek(SeekFrom::Start(0)).ok();
        f.read_to_end(&mut s).ok();
        out.stdout.push(String::from_utf8_lossy(&s).into_owned());
    }
    out
}
