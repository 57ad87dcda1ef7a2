//! Messages between a rank (a child process) and the simulated world (its parent).

use std::io::{Read, Write};

#[derive(Debug, Clone, Default)]
pub struct Msg {
    pub k: u8,
    pub a: Vec<i64>,
    pub d: Vec<Vec<u8>>,
}

// requests of a rank
pub const SEND: u8 = 1; // a = wait, mode, comm, dest, tag; d = data
pub const RECV: u8 = 2; // a = wait, comm, src, tag, capacity
pub const COLL: u8 = 3; // a = wait, comm, kind, root, bytes of the own part; d = parts
pub const WAIT: u8 = 4; // a = mode (0 all, 1 any, 2 some), test, requests...
pub const PROBE: u8 = 5; // a = blocking, comm, src, tag, take the message out
pub const MRECV: u8 = 6; // a = wait, message, capacity
pub const INIT: u8 = 7;
pub const FINALIZE: u8 = 8;
pub const ABORT: u8 = 9; // a = code
pub const RESULT: u8 = 10; // d = json
pub const UNSUPPORTED: u8 = 11; // d = name
pub const ERROR: u8 = 12; // d = text

// modes of a send
pub const STANDARD: i64 = 0;
pub const BUFFERED: i64 = 1;
pub const SYNCHRONOUS: i64 = 2;
pub const READY: i64 = 3;

// kinds of collectives
pub const BARRIER: i64 = 0;
pub const BCAST: i64 = 1;
pub const REDUCE: i64 = 2;
pub const ALLREDUCE: i64 = 3;
pub const GATHER: i64 = 4;
pub const ALLGATHER: i64 = 5;
pub const SCATTER: i64 = 6;
pub const ALLTOALL: i64 = 7;
pub const SCAN: i64 = 8;
pub const EXSCAN: i64 = 9;
pub const REDUCE_SCATTER: i64 = 10;
pub const COMMDUP: i64 = 11;

pub const KINDS: [&str; 12] = [
    "barrier", "bcast", "reduce", "allreduce", "gather", "allgather", "scatter", "alltoall", "scan",
    "exscan", "reduce_scatter_block", "comm_dup",
];

impl Msg {
    pub fn new(k: u8, a: &[i64]) -> Self {
        Msg { k, a: a.to_vec(), d: vec![] }
    }
    pub fn with(k: u8, a: &[i64], d: Vec<Vec<u8>>) -> Self {
        Msg { k, a: a.to_vec(), d }
    }
    pub fn write<W: Write>(&self, w: &mut W) -> std::io::Result<()> {
        let mut b = vec![0u8; 4];
        b.push(self.k);
        b.extend((self.a.len() as u32).to_le_bytes());
        for x in &self.a {
            b.extend(x.to_le_bytes());
        }
        b.extend((self.d.len() as u32).to_le_bytes());
        for x in &self.d {
            b.extend((x.len() as u32).to_le_bytes());
            b.extend(x);
        }
        let n = (b.len() - 4) as u32;
        b[..4].copy_from_slice(&n.to_le_bytes());
        w.write_all(&b)
    }
    pub fn read<R: Read>(r: &mut R) -> std::io::Result<Self> {
        let mut n = [0u8; 4];
        r.read_exact(&mut n)?;
        let mut b = vec![0u8; u32::from_le_bytes(n) as usize];
        r.read_exact(&mut b)?;
        let mut p = 1;
        let u = |p: &mut usize| {
            let x = u32::from_le_bytes(b[*p..*p + 4].try_into().unwrap()) as usize;
            *p += 4;
            x
        };
        let na = u(&mut p);
        let mut a = Vec::with_capacity(na);
        for _ in 0..na {
            a.push(i64::from_le_bytes(b[p..p + 8].try_into().unwrap()));
            p += 8;
        }
        let nd = u(&mut p);
        let mut d = Vec::with_capacity(nd);
        for _ in 0..nd {
            let l = u(&mut p);
            d.push(b[p..p + l].to_vec());
            p += l;
        }
        Ok(Msg { k: b[0], a, d })
    }
}
