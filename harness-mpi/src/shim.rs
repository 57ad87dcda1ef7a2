//! The MPI functions of one rank. Every call that concerns another rank becomes a request to the
//! simulated world (world.rs), which decides when and how it is answered; everything else
//! (datatypes, operations, requests of this rank) is kept here.
//!
//! The definitions take precedence over those of the MPI library the program is linked with.

use crate::wire::*;
use mpi::ffi;
use std::collections::HashMap;
use std::os::raw::{c_char, c_double, c_int, c_void};
use std::os::unix::net::UnixStream;
use std::sync::Mutex;

type P = *mut c_void;
type Cp = *const c_void;
type H = usize; // a handle: datatype, operation, communicator, request, message
type St = *mut ffi::MPI_Status;
type UserFn = unsafe extern "C" fn(P, P, *mut c_int, *mut H);

#[derive(Clone, Copy, PartialEq, Debug)]
enum B {
    F64,
    F32,
    I8,
    I16,
    I32,
    I64,
    U8,
    U16,
    U32,
    U64,
    Bool,
    Other,
}

#[derive(Clone, Debug)]
struct Ty {
    /// offset, size and kind of the parts
    map: Vec<(isize, usize, B)>,
    lb: isize,
    extent: isize,
}

impl Ty {
    fn basic(size: usize, b: B) -> Self {
        Ty { map: vec![(0, size, b)], lb: 0, extent: size as isize }
    }
    fn size(&self) -> usize {
        self.map.iter().map(|m| m.1).sum()
    }
    fn build(parts: Vec<(isize, Ty)>) -> Self {
        let mut map = vec![];
        let (mut lo, mut hi, mut al) = (isize::MAX, isize::MIN, 1isize);
        for (at, t) in &parts {
            for m in &t.map {
                map.push((at + m.0, m.1, m.2));
                al = al.max(m.1.min(16) as isize);
            }
            lo = lo.min(at + t.lb);
            hi = hi.max(at + t.lb + t.extent);
        }
        if parts.is_empty() {
            (lo, hi) = (0, 0);
        }
        let ext = (hi - lo + al - 1) / al * al;
        Ty { map, lb: lo, extent: ext }
    }
}

type Done = Box<dyn FnOnce(Msg) + Send>;

struct Rank {
    sock: UnixStream,
    rank: i32,
    size: i32,
    inited: bool,
    finalized: bool,
    types: HashMap<H, Ty>,
    ops: HashMap<H, (UserFnBox, bool)>,
    comms: HashMap<H, i64>,
    reqs: HashMap<H, Done>,
    attached: (usize, c_int),
    next: H,
}
#[derive(Clone, Copy)]
struct UserFnBox(UserFn);

static RANK: Mutex<Option<Rank>> = Mutex::new(None);

fn with<T>(f: impl FnOnce(&mut Rank) -> T) -> T {
    let mut g = RANK.lock().unwrap_or_else(|e| e.into_inner());
    f(g.as_mut().expect("no rank in this process"))
}

unsafe fn h<T: Copy>(x: T) -> H {
    std::mem::transmute_copy(&x)
}

/// makes this process the given rank of a world
pub fn enter(sock: UnixStream, rank: i32, size: i32) {
    let mut types = HashMap::new();
    let mut comms = HashMap::new();
    unsafe {
        for (t, s, b) in [
            (ffi::RSMPI_DOUBLE, 8, B::F64),
            (ffi::RSMPI_FLOAT, 4, B::F32),
            (ffi::RSMPI_INT8_T, 1, B::I8),
            (ffi::RSMPI_INT16_T, 2, B::I16),
            (ffi::RSMPI_INT32_T, 4, B::I32),
            (ffi::RSMPI_INT64_T, 8, B::I64),
            (ffi::RSMPI_UINT8_T, 1, B::U8),
            (ffi::RSMPI_UINT16_T, 2, B::U16),
            (ffi::RSMPI_UINT32_T, 4, B::U32),
            (ffi::RSMPI_UINT64_T, 8, B::U64),
            (ffi::RSMPI_C_BOOL, 1, B::Bool),
            (ffi::RSMPI_FLOAT_COMPLEX, 8, B::Other),
            (ffi::RSMPI_DOUBLE_COMPLEX, 16, B::Other),
        ] {
            types.insert(h(t), Ty::basic(s, b));
        }
        comms.insert(h(ffi::RSMPI_COMM_WORLD), 0);
        comms.insert(h(ffi::RSMPI_COMM_SELF), -1);
    }
    *RANK.lock().unwrap() = Some(Rank {
        sock,
        rank,
        size,
        inited: false,
        finalized: false,
        types,
        ops: HashMap::new(),
        comms,
        reqs: HashMap::new(),
        attached: (0, 0),
        next: 0x7100_0000_0000,
    });
}

/// the result of this rank; nothing may follow
pub fn leave(d: Vec<u8>) {
    let m = with(|r| Msg::with(RESULT, &[r.inited as i64, r.finalized as i64, r.reqs.len() as i64], vec![d]));
    with(|r| m.write(&mut r.sock)).ok();
}

fn fresh() -> H {
    with(|r| {
        r.next += 64;
        r.next
    })
}

fn rpc(m: Msg) -> Msg {
    let mut s = with(|r| {
        m.write(&mut r.sock).unwrap_or_else(|_| unsafe { libc::_exit(3) });
        r.sock.try_clone().unwrap()
    });
    Msg::read(&mut s).unwrap_or_else(|_| unsafe { libc::_exit(3) })
}

fn fail(text: String) -> ! {
    rpc(Msg::with(ERROR, &[], vec![text.into_bytes()]));
    unsafe { libc::_exit(4) }
}

fn unsupported(name: &str) -> ! {
    rpc(Msg::with(UNSUPPORTED, &[], vec![name.as_bytes().to_vec()]));
    unsafe { libc::_exit(4) }
}

fn active(what: &str) {
    let (i, f) = with(|r| (r.inited, r.finalized));
    if !i || f {
        fail(format!("{what} called {} MPI", if i { "after finalizing" } else { "before initializing" }));
    }
}

fn ty(t: H) -> Ty {
    with(|r| r.types.get(&t).cloned()).unwrap_or_else(|| fail(format!("unknown datatype {t:x}")))
}

fn comm(c: H) -> i64 {
    with(|r| r.comms.get(&c).copied()).unwrap_or_else(|| fail(format!("unknown communicator {c:x}")))
}

unsafe fn pack(buf: Cp, count: c_int, t: &Ty) -> Vec<u8> {
    if count < 0 {
        fail(format!("negative count {count}"));
    }
    let mut v = Vec::with_capacity(t.size() * count as usize);
    for k in 0..count as isize {
        for m in &t.map {
            let p = (buf as isize).wrapping_add(k * t.extent + m.0) as *const u8;
            v.extend_from_slice(std::slice::from_raw_parts(p, m.1));
        }
    }
    v
}

unsafe fn unpack(d: &[u8], buf: P, t: &Ty) {
    let mut at = 0;
    let mut k = 0isize;
    while at < d.len() {
        for m in &t.map {
            if at >= d.len() {
                return;
            }
            let n = m.1.min(d.len() - at);
            let p = (buf as isize).wrapping_add(k * t.extent + m.0) as *mut u8;
            std::ptr::copy_nonoverlapping(d[at..].as_ptr(), p, n);
            at += n;
        }
        k += 1;
    }
}

unsafe fn status(st: St, src: i64, tag: i64, bytes: usize) {
    if st.is_null() || h(st) == h(ffi::RSMPI_STATUS_IGNORE) {
        return;
    }
    (*st).MPI_SOURCE = src as c_int;
    (*st).MPI_TAG = tag as c_int;
    (*st).MPI_ERROR = 0;
    (*st)._cancelled = 0;
    (*st)._ucount = bytes;
}

/// posts a request and, unless `req` is given, waits until it has been served
unsafe fn post(k: u8, a: &[i64], d: Vec<Vec<u8>>, req: *mut H, done: impl FnOnce(Msg) + Send + 'static) -> c_int {
    let mut b = vec![req.is_null() as i64];
    b.extend_from_slice(a);
    let r = rpc(Msg { k, a: b, d });
    if req.is_null() {
        done(r);
    } else {
        let id = r.a[0] as H;
        *req = 0x7200_0000_0000 + id * 64;
        with(|x| x.reqs.insert(id, Box::new(done)));
    }
    0
}

#[derive(Clone, Copy)]
struct Ptr(P);
unsafe impl Send for Ptr {}
#[derive(Clone, Copy)]
struct Sp(St);
unsafe impl Send for Sp {}

unsafe fn ignore() -> St {
    ffi::RSMPI_STATUS_IGNORE
}

// ------------------------------------------------------------------ environment

#[no_mangle]
pub unsafe extern "C" fn MPI_Initialized(f: *mut c_int) -> c_int {
    *f = with(|r| r.inited) as c_int;
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Finalized(f: *mut c_int) -> c_int {
    *f = with(|r| r.finalized) as c_int;
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Init_thread(_: P, _: P, required: c_int, provided: *mut c_int) -> c_int {
    if with(|r| r.inited) {
        fail("MPI initialized twice".into());
    }
    with(|r| r.inited = true);
    rpc(Msg::new(INIT, &[]));
    *provided = required;
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Init(a: P, b: P) -> c_int {
    let mut p = 0;
    MPI_Init_thread(a, b, 0, &mut p)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Finalize() -> c_int {
    active("MPI_Finalize");
    rpc(Msg::new(FINALIZE, &[]));
    with(|r| r.finalized = true);
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Query_thread(p: *mut c_int) -> c_int {
    *p = ffi::RSMPI_THREAD_SINGLE;
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Is_thread_main(p: *mut c_int) -> c_int {
    *p = 1;
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Abort(_: H, code: c_int) -> c_int {
    rpc(Msg::new(ABORT, &[code as i64]));
    libc::_exit(5)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Get_version(a: *mut c_int, b: *mut c_int) -> c_int {
    *a = 3;
    *b = 1;
    0
}
unsafe fn text(p: *mut c_char, len: *mut c_int, s: &str) -> c_int {
    std::ptr::copy_nonoverlapping(s.as_ptr() as *const c_char, p, s.len());
    *p.add(s.len()) = 0;
    *len = s.len() as c_int;
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Get_processor_name(p: *mut c_char, l: *mut c_int) -> c_int {
    text(p, l, "sim")
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Get_library_version(p: *mut c_char, l: *mut c_int) -> c_int {
    text(p, l, "simulated MPI")
}
#[no_mangle]
pub extern "C" fn MPI_Wtime() -> c_double {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs_f64()
}
#[no_mangle]
pub extern "C" fn MPI_Wtick() -> c_double {
    1e-9
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Buffer_attach(p: P, n: c_int) -> c_int {
    with(|r| r.attached = (p as usize, n));
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Buffer_detach(p: P, n: *mut c_int) -> c_int {
    let (a, l) = with(|r| r.attached);
    *(p as *mut usize) = a;
    *n = l;
    0
}

// --------------------------------------------------------------- communicators

#[no_mangle]
pub unsafe extern "C" fn MPI_Comm_rank(c: H, r: *mut c_int) -> c_int {
    active("MPI_Comm_rank");
    *r = if comm(c) < 0 { 0 } else { with(|x| x.rank) };
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Comm_size(c: H, s: *mut c_int) -> c_int {
    active("MPI_Comm_size");
    *s = if comm(c) < 0 { 1 } else { with(|x| x.size) };
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Comm_dup(c: H, out: *mut H) -> c_int {
    active("MPI_Comm_dup");
    let r = rpc(Msg::new(COLL, &[1, comm(c), COMMDUP, 0, 0]));
    let n = 0x7300_0000_0000 + r.a[0] as H * 64;
    with(|x| x.comms.insert(n, r.a[0]));
    *out = n;
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Comm_free(c: *mut H) -> c_int {
    *c = h(ffi::RSMPI_COMM_NULL);
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Comm_compare(a: H, b: H, r: *mut c_int) -> c_int {
    *r = if a == b { ffi::RSMPI_IDENT } else { ffi::RSMPI_CONGRUENT };
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Comm_set_errhandler(_: H, _: H) -> c_int {
    0
}

// ------------------------------------------------------------------- datatypes

unsafe fn new_type(t: Ty, out: *mut H) -> c_int {
    let k = fresh();
    with(|r| r.types.insert(k, t));
    *out = k;
    0
}
fn at(t: &Ty, k: isize) -> (isize, Ty) {
    (k * t.extent, t.clone())
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Type_create_struct(n: c_int, l: *const c_int, d: *const isize, t: *const H, out: *mut H) -> c_int {
    let mut v = vec![];
    for i in 0..n as usize {
        let x = ty(*t.add(i));
        for k in 0..*l.add(i) as isize {
            let (o, y) = at(&x, k);
            v.push((*d.add(i) + o, y));
        }
    }
    new_type(Ty::build(v), out)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Type_contiguous(n: c_int, t: H, out: *mut H) -> c_int {
    let x = ty(t);
    new_type(Ty::build((0..n as isize).map(|k| at(&x, k)).collect()), out)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Type_vector(n: c_int, l: c_int, s: c_int, t: H, out: *mut H) -> c_int {
    let x = ty(t);
    MPI_Type_create_hvector(n, l, s as isize * x.extent, t, out)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Type_create_hvector(n: c_int, l: c_int, s: isize, t: H, out: *mut H) -> c_int {
    let x = ty(t);
    let mut v = vec![];
    for i in 0..n as isize {
        for k in 0..l as isize {
            v.push((i * s + k * x.extent, x.clone()));
        }
    }
    new_type(Ty::build(v), out)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Type_create_hindexed(n: c_int, l: *const c_int, d: *const isize, t: H, out: *mut H) -> c_int {
    let x = ty(t);
    let mut v = vec![];
    for i in 0..n as usize {
        for k in 0..*l.add(i) as isize {
            v.push((*d.add(i) + k * x.extent, x.clone()));
        }
    }
    new_type(Ty::build(v), out)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Type_indexed(n: c_int, l: *const c_int, d: *const c_int, t: H, out: *mut H) -> c_int {
    let e = ty(t).extent;
    let v: Vec<isize> = (0..n as usize).map(|i| *d.add(i) as isize * e).collect();
    MPI_Type_create_hindexed(n, l, v.as_ptr(), t, out)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Type_create_hindexed_block(n: c_int, l: c_int, d: *const isize, t: H, out: *mut H) -> c_int {
    let v = vec![l; n as usize];
    MPI_Type_create_hindexed(n, v.as_ptr(), d, t, out)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Type_create_indexed_block(n: c_int, l: c_int, d: *const c_int, t: H, out: *mut H) -> c_int {
    let v = vec![l; n as usize];
    MPI_Type_indexed(n, v.as_ptr(), d, t, out)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Type_create_resized(t: H, lb: isize, e: isize, out: *mut H) -> c_int {
    let mut x = ty(t);
    x.lb = lb;
    x.extent = e;
    new_type(x, out)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Type_dup(t: H, out: *mut H) -> c_int {
    new_type(ty(t), out)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Type_commit(_: *mut H) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Type_free(t: *mut H) -> c_int {
    *t = h(ffi::RSMPI_DATATYPE_NULL);
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Type_size(t: H, s: *mut c_int) -> c_int {
    *s = ty(t).size() as c_int;
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Type_get_extent(t: H, lb: *mut isize, e: *mut isize) -> c_int {
    let x = ty(t);
    *lb = x.lb;
    *e = x.extent;
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Get_address(p: Cp, a: *mut isize) -> c_int {
    *a = p as isize;
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Get_count(st: *const ffi::MPI_Status, t: H, n: *mut c_int) -> c_int {
    let s = ty(t).size();
    let b = (*st)._ucount;
    *n = if s == 0 {
        0
    } else if b % s == 0 {
        (b / s) as c_int
    } else {
        ffi::RSMPI_UNDEFINED
    };
    0
}

// ------------------------------------------------------------------ operations

#[no_mangle]
pub unsafe extern "C" fn MPI_Op_create(f: Option<UserFn>, commute: c_int, out: *mut H) -> c_int {
    let k = fresh();
    let f = f.unwrap_or_else(|| fail("MPI_Op_create without function".into()));
    with(|r| r.ops.insert(k, (UserFnBox(f), commute != 0)));
    *out = k;
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Op_free(o: *mut H) -> c_int {
    with(|r| r.ops.remove(&*o));
    *o = 0;
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Op_commutative(o: H, c: *mut c_int) -> c_int {
    *c = with(|r| r.ops.get(&o).map_or(true, |x| x.1)) as c_int;
    0
}

macro_rules! fold {
    ($t:ty, $a:expr, $b:expr, $f:expr) => {{
        let x = <$t>::from_ne_bytes($a.try_into().unwrap());
        let y = <$t>::from_ne_bytes((&*$b).try_into().unwrap());
        let z: $t = $f(x, y);
        $b.copy_from_slice(&z.to_ne_bytes());
    }};
}
macro_rules! int {
    ($t:ty, $a:expr, $b:expr, $o:expr) => {
        fold!($t, $a, $b, |x: $t, y: $t| match $o {
            0 => x.max(y),
            1 => x.min(y),
            2 => x.wrapping_add(y),
            3 => x.wrapping_mul(y),
            4 => (x != 0 && y != 0) as u8 as $t,
            5 => x & y,
            6 => (x != 0 || y != 0) as u8 as $t,
            7 => x | y,
            8 => ((x != 0) != (y != 0)) as u8 as $t,
            _ => x ^ y,
        })
    };
}
macro_rules! float {
    ($t:ty, $a:expr, $b:expr, $o:expr) => {
        fold!($t, $a, $b, |x: $t, y: $t| match $o {
            0 => if x > y { x } else { y },
            1 => if x < y { x } else { y },
            2 => x + y,
            3 => x * y,
            _ => fail("logical operation on floats".into()),
        })
    };
}

/// packed: b = a op b
unsafe fn combine(op: H, a: &[u8], b: &mut [u8], count: c_int, th: H, t: &Ty) {
    let user = with(|r| r.ops.get(&op).map(|x| x.0));
    if let Some(f) = user {
        let n = (t.extent.max(1) as usize) * count as usize + 64;
        let mut x = vec![0u128; n / 16 + 2];
        let mut y = vec![0u128; n / 16 + 2];
        unpack(a, x.as_mut_ptr() as P, t);
        unpack(b, y.as_mut_ptr() as P, t);
        let (mut l, mut d) = (count, th);
        (f.0)(x.as_mut_ptr() as P, y.as_mut_ptr() as P, &mut l, &mut d);
        b.copy_from_slice(&pack(y.as_ptr() as Cp, count, t));
        return;
    }
    let names = [
        h(ffi::RSMPI_MAX), h(ffi::RSMPI_MIN), h(ffi::RSMPI_SUM), h(ffi::RSMPI_PROD), h(ffi::RSMPI_LAND),
        h(ffi::RSMPI_BAND), h(ffi::RSMPI_LOR), h(ffi::RSMPI_BOR), h(ffi::RSMPI_LXOR), h(ffi::RSMPI_BXOR),
    ];
    let o = names.iter().position(|&x| x == op).unwrap_or_else(|| fail(format!("unknown operation {op:x}")));
    let mut p = 0;
    for _ in 0..count {
        for m in &t.map {
            let (x, y) = (&a[p..p + m.1], &mut b[p..p + m.1]);
            match m.2 {
                B::F64 => float!(f64, x, y, o),
                B::F32 => float!(f32, x, y, o),
                B::I8 => int!(i8, x, y, o),
                B::I16 => int!(i16, x, y, o),
                B::I32 => int!(i32, x, y, o),
                B::I64 => int!(i64, x, y, o),
                B::U8 | B::Bool => int!(u8, x, y, o),
                B::U16 => int!(u16, x, y, o),
                B::U32 => int!(u32, x, y, o),
                B::U64 => int!(u64, x, y, o),
                B::Other => unsupported("reduction of complex numbers"),
            }
            p += m.1;
        }
    }
}

/// folds the parts in the given order, associated as the world wants it
unsafe fn reduce(op: H, mut parts: Vec<Vec<u8>>, assoc: i64, count: c_int, th: H, t: &Ty) -> Vec<u8> {
    let mut s = assoc as u64 | 1;
    while parts.len() > 1 {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        let k = (s >> 11) as usize % (parts.len() - 1);
        let a = parts.remove(k);
        let mut b = std::mem::take(&mut parts[k]);
        if a.len() != b.len() {
            fail("reduction of buffers of different sizes".into());
        }
        combine(op, &a, &mut b, count, th, t);
        parts[k] = b;
    }
    parts.pop().unwrap_or_default()
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Reduce_local(a: Cp, b: P, n: c_int, t: H, op: H) -> c_int {
    let x = ty(t);
    let mut y = pack(b, n, &x);
    combine(op, &pack(a, n, &x), &mut y, n, t, &x);
    unpack(&y, b, &x);
    0
}

// -------------------------------------------------------------- point to point

unsafe fn send(mode: i64, b: Cp, n: c_int, t: H, dest: c_int, tag: c_int, c: H, req: *mut H) -> c_int {
    active("send");
    let d = pack(b, n, &ty(t));
    post(SEND, &[mode, comm(c), dest as i64, tag as i64], vec![d], req, |_| ())
}
unsafe fn recv(b: P, n: c_int, t: H, src: c_int, tag: c_int, c: H, st: St, req: *mut H) -> c_int {
    active("receive");
    let x = ty(t);
    let cap = x.size() * n as usize;
    let (b, s) = (Ptr(b), Sp(st));
    let src = if src == ffi::RSMPI_ANY_SOURCE { -1 } else if src == ffi::RSMPI_PROC_NULL { -2 } else { src as i64 };
    let tag = if tag == ffi::RSMPI_ANY_TAG { -1 } else { tag as i64 };
    post(RECV, &[comm(c), src, tag, cap as i64], vec![], req, move |m| take(m, b, s, &x))
}
fn take(m: Msg, b: Ptr, s: Sp, x: &Ty) {
    unsafe {
        let d = m.d.first().cloned().unwrap_or_default();
        unpack(&d, b.0, x);
        let src = if m.a[0] == -2 { ffi::RSMPI_PROC_NULL as i64 } else { m.a[0] };
        let tag = if m.a[0] == -2 { ffi::RSMPI_ANY_TAG as i64 } else { m.a[1] };
        status(s.0, src, tag, d.len());
    }
}
macro_rules! sends {
    ($($b:ident $i:ident $m:expr;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $b(b: Cp, n: c_int, t: H, d: c_int, g: c_int, c: H) -> c_int {
            send($m, b, n, t, d, g, c, std::ptr::null_mut())
        }
        #[no_mangle]
        pub unsafe extern "C" fn $i(b: Cp, n: c_int, t: H, d: c_int, g: c_int, c: H, r: *mut H) -> c_int {
            send($m, b, n, t, d, g, c, r)
        }
    )*};
}
sends! {
    MPI_Send MPI_Isend STANDARD;
    MPI_Bsend MPI_Ibsend BUFFERED;
    MPI_Ssend MPI_Issend SYNCHRONOUS;
    MPI_Rsend MPI_Irsend READY;
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Recv(b: P, n: c_int, t: H, s: c_int, g: c_int, c: H, st: St) -> c_int {
    recv(b, n, t, s, g, c, st, std::ptr::null_mut())
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Irecv(b: P, n: c_int, t: H, s: c_int, g: c_int, c: H, r: *mut H) -> c_int {
    recv(b, n, t, s, g, c, ignore(), r)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Sendrecv(b: Cp, n: c_int, t: H, d: c_int, g: c_int, rb: P, rn: c_int, rt: H, s: c_int, rg: c_int, c: H, st: St) -> c_int {
    let mut rs: [H; 2] = [0; 2];
    recv(rb, rn, rt, s, rg, c, ignore(), &mut rs[1]);
    send(STANDARD, b, n, t, d, g, c, &mut rs[0]);
    let mut ss: [ffi::MPI_Status; 2] = std::mem::zeroed();
    MPI_Waitall(2, rs.as_mut_ptr(), ss.as_mut_ptr());
    if !st.is_null() && h(st) != h(ignore()) {
        *st = ss[1];
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Sendrecv_replace(b: P, n: c_int, t: H, d: c_int, g: c_int, s: c_int, rg: c_int, c: H, st: St) -> c_int {
    let mut q = 0;
    send(STANDARD, b, n, t, d, g, c, &mut q);
    recv(b, n, t, s, rg, c, st, std::ptr::null_mut());
    MPI_Wait(&mut q, ignore())
}

unsafe fn probe(block: bool, s: c_int, g: c_int, c: H, flag: *mut c_int, msg: *mut H, st: St) -> c_int {
    active("probe");
    let src = if s == ffi::RSMPI_ANY_SOURCE { -1 } else { s as i64 };
    let tag = if g == ffi::RSMPI_ANY_TAG { -1 } else { g as i64 };
    let r = rpc(Msg::new(PROBE, &[block as i64, comm(c), src, tag, !msg.is_null() as i64]));
    if !flag.is_null() {
        *flag = r.a[0] as c_int;
    }
    if r.a[0] != 0 {
        status(st, r.a[1], r.a[2], r.a[3] as usize);
        if !msg.is_null() {
            *msg = 0x7400_0000_0000 + r.a[4] as H * 64;
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Probe(s: c_int, g: c_int, c: H, st: St) -> c_int {
    probe(true, s, g, c, std::ptr::null_mut(), std::ptr::null_mut(), st)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Iprobe(s: c_int, g: c_int, c: H, f: *mut c_int, st: St) -> c_int {
    probe(false, s, g, c, f, std::ptr::null_mut(), st)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Mprobe(s: c_int, g: c_int, c: H, m: *mut H, st: St) -> c_int {
    probe(true, s, g, c, std::ptr::null_mut(), m, st)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Improbe(s: c_int, g: c_int, c: H, f: *mut c_int, m: *mut H, st: St) -> c_int {
    probe(false, s, g, c, f, m, st)
}
unsafe fn mrecv(b: P, n: c_int, t: H, m: *mut H, st: St, req: *mut H) -> c_int {
    let x = ty(t);
    let id = ((*m - 0x7400_0000_0000) / 64) as i64;
    *m = h(ffi::RSMPI_MESSAGE_NULL);
    let cap = (x.size() * n as usize) as i64;
    let (b, s) = (Ptr(b), Sp(st));
    post(MRECV, &[id, cap], vec![], req, move |r| take(r, b, s, &x))
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Mrecv(b: P, n: c_int, t: H, m: *mut H, st: St) -> c_int {
    mrecv(b, n, t, m, st, std::ptr::null_mut())
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Imrecv(b: P, n: c_int, t: H, m: *mut H, r: *mut H) -> c_int {
    mrecv(b, n, t, m, ignore(), r)
}

// -------------------------------------------------------------------- requests

/// Waits for (or tests) requests. Returns the indices that were completed, None if nothing was
/// active.
unsafe fn wait(mode: i64, test: bool, n: c_int, rs: *mut H, sts: impl Fn(usize, usize) -> St) -> Option<Vec<usize>> {
    active("wait");
    let null = h(ffi::RSMPI_REQUEST_NULL);
    let idx: Vec<usize> = (0..n as usize).filter(|&i| *rs.add(i) != null).collect();
    if idx.is_empty() {
        return None;
    }
    let mut a = vec![mode, test as i64];
    a.extend(idx.iter().map(|&i| ((*rs.add(i) - 0x7200_0000_0000) / 64) as i64));
    let r = rpc(Msg::new(WAIT, &a));
    // a = per completed request: position, source, tag, number of parts, extra
    let mut out = vec![];
    let mut p = 0;
    for (k, c) in r.a.chunks(5).enumerate() {
        let i = idx[c[0] as usize];
        let id = (*rs.add(i) - 0x7200_0000_0000) / 64;
        let d: Vec<Vec<u8>> = r.d[p..p + c[3] as usize].to_vec();
        p += c[3] as usize;
        status(sts(i, k), c[1], c[2], d.iter().map(|x| x.len()).sum());
        let done = with(|x| x.reqs.remove(&id)).unwrap_or_else(|| fail("unknown request".into()));
        done(Msg { k: 0, a: vec![c[1], c[2], c[4]], d });
        *rs.add(i) = null;
        out.push(i);
    }
    Some(out)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Wait(r: *mut H, st: St) -> c_int {
    wait(0, false, 1, r, |_, _| st);
    0
}
unsafe fn nth(st: St, i: usize) -> St {
    if st.is_null() || h(st) == h(ffi::RSMPI_STATUSES_IGNORE) {
        ignore()
    } else {
        st.add(i)
    }
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Waitall(n: c_int, r: *mut H, st: St) -> c_int {
    wait(0, false, n, r, |i, _| nth(st, i));
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Waitany(n: c_int, r: *mut H, i: *mut c_int, st: St) -> c_int {
    *i = wait(1, false, n, r, |_, _| st).map_or(ffi::RSMPI_UNDEFINED, |v| v[0] as c_int);
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Waitsome(n: c_int, r: *mut H, k: *mut c_int, ix: *mut c_int, st: St) -> c_int {
    match wait(2, false, n, r, |_, j| nth(st, j)) {
        None => *k = ffi::RSMPI_UNDEFINED,
        Some(v) => {
            *k = v.len() as c_int;
            for (j, i) in v.iter().enumerate() {
                *ix.add(j) = *i as c_int;
            }
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Test(r: *mut H, f: *mut c_int, st: St) -> c_int {
    *f = wait(0, true, 1, r, |_, _| st).map_or(1, |v| !v.is_empty() as c_int);
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Testall(n: c_int, r: *mut H, f: *mut c_int, st: St) -> c_int {
    *f = wait(0, true, n, r, |i, _| nth(st, i)).map_or(1, |v| !v.is_empty() as c_int);
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Testany(n: c_int, r: *mut H, i: *mut c_int, f: *mut c_int, st: St) -> c_int {
    match wait(1, true, n, r, |_, _| st) {
        None => {
            *f = 1;
            *i = ffi::RSMPI_UNDEFINED;
        }
        Some(v) if v.is_empty() => *f = 0,
        Some(v) => {
            *f = 1;
            *i = v[0] as c_int;
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Testsome(n: c_int, r: *mut H, k: *mut c_int, ix: *mut c_int, st: St) -> c_int {
    match wait(2, true, n, r, |_, j| nth(st, j)) {
        None => *k = ffi::RSMPI_UNDEFINED,
        Some(v) => {
            *k = v.len() as c_int;
            for (j, i) in v.iter().enumerate() {
                *ix.add(j) = *i as c_int;
            }
        }
    }
    0
}

// ----------------------------------------------------------------- collectives

unsafe fn coll(kind: i64, c: H, root: c_int, bytes: usize, extra: i64, d: Vec<Vec<u8>>, req: *mut H, done: impl FnOnce(Msg) + Send + 'static) -> c_int {
    active(KINDS[kind as usize]);
    post(COLL, &[comm(c), kind, root as i64, bytes as i64, extra], d, req, done)
}
const NOW: *mut H = std::ptr::null_mut();
/// the last number of an answer: how to associate a reduction
fn extra(m: &Msg) -> i64 {
    *m.a.last().unwrap()
}

#[no_mangle]
pub unsafe extern "C" fn MPI_Ibarrier(c: H, r: *mut H) -> c_int {
    coll(BARRIER, c, 0, 0, 0, vec![], r, |_| ())
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Barrier(c: H) -> c_int {
    MPI_Ibarrier(c, NOW)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Ibcast(b: P, n: c_int, t: H, root: c_int, c: H, r: *mut H) -> c_int {
    let x = ty(t);
    let me = if comm(c) < 0 { 0 } else { with(|z| z.rank) };
    let d = if me == root { vec![pack(b, n, &x)] } else { vec![] };
    let b = Ptr(b);
    let mine = me == root;
    coll(BCAST, c, root, x.size() * n as usize, 0, d, r, move |m| {
        let b = b;
        if !mine {
            unpack(&m.d[0], b.0, &x)
        }
    })
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Bcast(b: P, n: c_int, t: H, root: c_int, c: H) -> c_int {
    MPI_Ibcast(b, n, t, root, c, NOW)
}
unsafe fn reduction(kind: i64, s: Cp, b: P, n: c_int, t: H, o: H, root: c_int, c: H, r: *mut H) -> c_int {
    let x = ty(t);
    let mut com = 0;
    MPI_Op_commutative(o, &mut com);
    let b = Ptr(b);
    let d = vec![pack(s, n, &x)];
    coll(kind, c, root, x.size() * n as usize, com as i64, d, r, move |m| {
        let b = b;
        if !m.d.is_empty() {
            let e = extra(&m);
            let y = reduce(o, m.d, e, n, t, &x);
            unpack(&y, b.0, &x)
        }
    })
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Ireduce(s: Cp, b: P, n: c_int, t: H, o: H, root: c_int, c: H, r: *mut H) -> c_int {
    reduction(REDUCE, s, b, n, t, o, root, c, r)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Reduce(s: Cp, b: P, n: c_int, t: H, o: H, root: c_int, c: H) -> c_int {
    reduction(REDUCE, s, b, n, t, o, root, c, NOW)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Iallreduce(s: Cp, b: P, n: c_int, t: H, o: H, c: H, r: *mut H) -> c_int {
    reduction(ALLREDUCE, s, b, n, t, o, 0, c, r)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Allreduce(s: Cp, b: P, n: c_int, t: H, o: H, c: H) -> c_int {
    reduction(ALLREDUCE, s, b, n, t, o, 0, c, NOW)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Iscan(s: Cp, b: P, n: c_int, t: H, o: H, c: H, r: *mut H) -> c_int {
    reduction(SCAN, s, b, n, t, o, 0, c, r)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Scan(s: Cp, b: P, n: c_int, t: H, o: H, c: H) -> c_int {
    reduction(SCAN, s, b, n, t, o, 0, c, NOW)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Iexscan(s: Cp, b: P, n: c_int, t: H, o: H, c: H, r: *mut H) -> c_int {
    reduction(EXSCAN, s, b, n, t, o, 0, c, r)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Exscan(s: Cp, b: P, n: c_int, t: H, o: H, c: H) -> c_int {
    reduction(EXSCAN, s, b, n, t, o, 0, c, NOW)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Ireduce_scatter_block(s: Cp, b: P, n: c_int, t: H, o: H, c: H, r: *mut H) -> c_int {
    let x = ty(t);
    let k = size(c);
    let mut com = 0;
    MPI_Op_commutative(o, &mut com);
    let d = (0..k).map(|i| pack((s as isize + i as isize * n as isize * x.extent) as Cp, n, &x)).collect();
    let b = Ptr(b);
    coll(REDUCE_SCATTER, c, 0, x.size() * n as usize, com as i64, d, r, move |m| {
        let b = b;
        let e = extra(&m);
        let y = reduce(o, m.d, e, n, t, &x);
        unpack(&y, b.0, &x)
    })
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Reduce_scatter_block(s: Cp, b: P, n: c_int, t: H, o: H, c: H) -> c_int {
    MPI_Ireduce_scatter_block(s, b, n, t, o, c, NOW)
}

unsafe fn size(c: H) -> usize {
    if comm(c) < 0 { 1 } else { with(|r| r.size) as usize }
}
/// places of the blocks of the ranks, in elements
unsafe fn regular(n: c_int, k: usize) -> Vec<(isize, c_int)> {
    (0..k).map(|i| (i as isize * n as isize, n)).collect()
}
unsafe fn ragged(n: *const c_int, d: *const c_int, k: usize) -> Vec<(isize, c_int)> {
    (0..k).map(|i| (*d.add(i) as isize, *n.add(i))).collect()
}
fn scatter_parts(m: Msg, b: Ptr, at: Vec<(isize, c_int)>, x: Ty) {
    for (d, (p, n)) in m.d.iter().zip(at) {
        if d.len() > x.size() * n as usize {
            fail("block larger than its place in the receive buffer".into());
        }
        unsafe { unpack(d, (b.0 as isize + p * x.extent) as P, &x) }
    }
}
unsafe fn pack_parts(s: Cp, at: &[(isize, c_int)], x: &Ty) -> Vec<Vec<u8>> {
    at.iter().map(|&(p, n)| pack((s as isize + p * x.extent) as Cp, n, x)).collect()
}

unsafe fn gather(kind: i64, s: Cp, sn: c_int, st: H, b: P, at: Vec<(isize, c_int)>, rt: H, root: c_int, c: H, r: *mut H) -> c_int {
    let x = ty(st);
    let d = pack(s, sn, &x);
    let rx = if at.is_empty() { x.clone() } else { ty(rt) };
    let b = Ptr(b);
    coll(kind, c, root, d.len(), 0, vec![d], r, move |m| scatter_parts(m, b, at, rx))
}
unsafe fn here(c: H, root: c_int) -> bool {
    (if comm(c) < 0 { 0 } else { with(|z| z.rank) }) == root
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Igather(s: Cp, sn: c_int, st: H, b: P, n: c_int, t: H, root: c_int, c: H, r: *mut H) -> c_int {
    let at = if here(c, root) { regular(n, size(c)) } else { vec![] };
    gather(GATHER, s, sn, st, b, at, t, root, c, r)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Gather(s: Cp, sn: c_int, st: H, b: P, n: c_int, t: H, root: c_int, c: H) -> c_int {
    MPI_Igather(s, sn, st, b, n, t, root, c, NOW)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Igatherv(s: Cp, sn: c_int, st: H, b: P, n: *const c_int, d: *const c_int, t: H, root: c_int, c: H, r: *mut H) -> c_int {
    let at = if here(c, root) { ragged(n, d, size(c)) } else { vec![] };
    gather(GATHER, s, sn, st, b, at, t, root, c, r)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Gatherv(s: Cp, sn: c_int, st: H, b: P, n: *const c_int, d: *const c_int, t: H, root: c_int, c: H) -> c_int {
    MPI_Igatherv(s, sn, st, b, n, d, t, root, c, NOW)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Iallgather(s: Cp, sn: c_int, st: H, b: P, n: c_int, t: H, c: H, r: *mut H) -> c_int {
    gather(ALLGATHER, s, sn, st, b, regular(n, size(c)), t, 0, c, r)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Allgather(s: Cp, sn: c_int, st: H, b: P, n: c_int, t: H, c: H) -> c_int {
    MPI_Iallgather(s, sn, st, b, n, t, c, NOW)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Iallgatherv(s: Cp, sn: c_int, st: H, b: P, n: *const c_int, d: *const c_int, t: H, c: H, r: *mut H) -> c_int {
    gather(ALLGATHER, s, sn, st, b, ragged(n, d, size(c)), t, 0, c, r)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Allgatherv(s: Cp, sn: c_int, st: H, b: P, n: *const c_int, d: *const c_int, t: H, c: H) -> c_int {
    MPI_Iallgatherv(s, sn, st, b, n, d, t, c, NOW)
}
unsafe fn scatter(kind: i64, parts: Vec<Vec<u8>>, b: P, at: Vec<(isize, c_int)>, rt: H, root: c_int, c: H, r: *mut H) -> c_int {
    let x = ty(rt);
    let b = Ptr(b);
    coll(kind, c, root, 0, 0, parts, r, move |m| scatter_parts(m, b, at, x))
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Iscatter(s: Cp, sn: c_int, st: H, b: P, n: c_int, t: H, root: c_int, c: H, r: *mut H) -> c_int {
    let d = if here(c, root) { pack_parts(s, &regular(sn, size(c)), &ty(st)) } else { vec![] };
    scatter(SCATTER, d, b, vec![(0, n)], t, root, c, r)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Scatter(s: Cp, sn: c_int, st: H, b: P, n: c_int, t: H, root: c_int, c: H) -> c_int {
    MPI_Iscatter(s, sn, st, b, n, t, root, c, NOW)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Iscatterv(s: Cp, sn: *const c_int, sd: *const c_int, st: H, b: P, n: c_int, t: H, root: c_int, c: H, r: *mut H) -> c_int {
    let d = if here(c, root) { pack_parts(s, &ragged(sn, sd, size(c)), &ty(st)) } else { vec![] };
    scatter(SCATTER, d, b, vec![(0, n)], t, root, c, r)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Scatterv(s: Cp, sn: *const c_int, sd: *const c_int, st: H, b: P, n: c_int, t: H, root: c_int, c: H) -> c_int {
    MPI_Iscatterv(s, sn, sd, st, b, n, t, root, c, NOW)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Ialltoall(s: Cp, sn: c_int, st: H, b: P, n: c_int, t: H, c: H, r: *mut H) -> c_int {
    scatter(ALLTOALL, pack_parts(s, &regular(sn, size(c)), &ty(st)), b, regular(n, size(c)), t, 0, c, r)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Alltoall(s: Cp, sn: c_int, st: H, b: P, n: c_int, t: H, c: H) -> c_int {
    MPI_Ialltoall(s, sn, st, b, n, t, c, NOW)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Ialltoallv(s: Cp, sn: *const c_int, sd: *const c_int, st: H, b: P, n: *const c_int, d: *const c_int, t: H, c: H, r: *mut H) -> c_int {
    scatter(ALLTOALL, pack_parts(s, &ragged(sn, sd, size(c)), &ty(st)), b, ragged(n, d, size(c)), t, 0, c, r)
}
#[no_mangle]
pub unsafe extern "C" fn MPI_Alltoallv(s: Cp, sn: *const c_int, sd: *const c_int, st: H, b: P, n: *const c_int, d: *const c_int, t: H, c: H) -> c_int {
    MPI_Ialltoallv(s, sn, sd, st, b, n, d, t, c, NOW)
}

macro_rules! missing {
    ($($f:ident)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $f() -> c_int { unsupported(stringify!($f)) }
    )*};
}
missing! {
    MPI_Cancel MPI_Request_free MPI_Pack MPI_Pack_size MPI_Unpack MPI_Cart_coords MPI_Cart_create MPI_Cart_get
    MPI_Cart_map MPI_Cart_rank MPI_Cart_shift MPI_Cart_sub MPI_Cartdim_get MPI_Comm_create MPI_Comm_create_group
    MPI_Comm_get_name MPI_Comm_set_name MPI_Comm_group MPI_Comm_split MPI_Comm_split_type MPI_Group_compare
    MPI_Group_difference MPI_Group_excl MPI_Group_free MPI_Group_incl MPI_Group_intersection MPI_Group_rank
    MPI_Group_size MPI_Group_translate_ranks MPI_Group_union MPI_Topo_test
}
