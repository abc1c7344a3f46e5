//! C20: connections served by one process never influence each other.
//!
//! Every connection is a script of calls on objects of its own. The scripts are
//! executed twice: each alone on a thread that has never run anything else, and
//! all of them interleaved by the scheduler, on one thread or on several, call by
//! call and inside each other's callbacks. The two records of every connection
//! have to be the same.

#![allow(dangerous_implicit_autorefs)]
use crate::api::*;
use crate::ctx::*;
use crate::entry::*;
use crate::paths;
use crate::refcbor::*;
use crate::rng::Src;
use crate::scen::hostile;
use crate::zoo;
use cbored::state::State;
use cbored::validate::Validator;
use cbored::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicPtr, Ordering::Relaxed};
use std::sync::mpsc::{channel, Sender};

pub const RULE: &str = "a run is nontrivial if a fault occurred (a callback that panics, a storm of refused decodes, damaged content, a buffer reused, readers and iterators dropped midway, a step inside another connection's callback, a step on another thread) and at least one call was compared; distinct by the hash of all events and outcomes";

// ------------------------------------------- the user's own callbacks ---

/// a value whose user-written Encode and Decode do something of their own
#[derive(Debug, Clone, PartialEq)]
pub struct Y<T>(pub T);
impl<T: Encode> Encode for Y<T> {
    fn encode(&self, w: &mut Writer) {
        hook();
        w.encode(&self.0);
        hook();
    }
}
impl<T: Decode> Decode for Y<T> {
    fn decode<'a>(r: &mut Reader<'a>) -> Result<Self, DecodeError> {
        hook();
        let t = T::decode(r)?;
        hook();
        Ok(Y(t))
    }
}
/// a type whose decoder panics in the middle of its value
struct Quits;
impl Decode for Quits {
    fn decode<'a>(r: &mut Reader<'a>) -> Result<Self, DecodeError> {
        r.decode::<DataOwned>()?;
        std::panic::resume_unwind(Box::new(Boom))
    }
}

/// a record inside a byte string: its Encode and Decode use the library again
#[derive(Debug, Clone, PartialEq)]
pub struct Z(pub Vec<u64>);
impl Encode for Z {
    fn encode(&self, w: &mut Writer) {
        let mut inner = Writer::new();
        inner.array_build(StructureLength::from(self.0.len() as u64), |i| {
            for x in &self.0 {
                i.encode(&Y(*x));
            }
        });
        let b = inner.finalize();
        hook();
        w.encode(&b[..]);
    }
}
impl Decode for Z {
    fn decode<'a>(r: &mut Reader<'a>) -> Result<Self, DecodeError> {
        let b: Vec<u8> = r.decode()?;
        hook();
        let mut i = Reader::new(&b);
        let v = decode_vec::<Y<u64>>(&mut i).map_err(|e| e.push::<Self>())?;
        i.expect_finished().map_err(|e| DecodeErrorKind::ReaderError(e).context::<Self>())?;
        Ok(Z(v.into_iter().map(|y| y.0).collect()))
    }
}
#[derive(Debug, Clone, PartialEq, CborRepr)]
#[cborrepr(enumtype = "tagvariant")]
pub enum Msg {
    A(Y<u64>),
    B { s: Y<String>, z: Z },
    C(Vec<Y<u8>>),
    D,
}
#[derive(Debug, Clone, PartialEq, CborRepr)]
#[cborrepr(structure = "array")]
pub struct Cb {
    a: Y<u64>,
    b: Y<String>,
    m: Msg,
    z: Z,
}
#[derive(Debug, Clone, PartialEq, CborRepr)]
#[cborrepr(structure = "mapint")]
pub struct Cm {
    #[cborrepr(mandatory)]
    a: Y<u8>,
    b: Option<Msg>,
    c: Option<Z>,
}

fn z(s: &mut Src, g: &Gen) -> Z {
    let n = s.draw(4);
    Z((0..n).map(|_| g.int(s)).collect())
}
fn msg(s: &mut Src, g: &Gen) -> Msg {
    match s.draw(4) {
        0 => Msg::D,
        1 => Msg::A(Y(g.int(s))),
        2 => Msg::B { s: Y(g.utf8(s)), z: z(s, g) },
        _ => Msg::C((0..s.draw(5)).map(|x| Y(x as u8 * 11)).collect()),
    }
}
fn cb(s: &mut Src, g: &Gen) -> Cb {
    Cb { a: Y(g.int(s)), b: Y(g.utf8(s)), m: msg(s, g), z: z(s, g) }
}
fn cm(s: &mut Src, g: &Gen) -> Cm {
    Cm { a: Y(s.draw(256) as u8), b: if s.draw(2) == 1 { Some(msg(s, g)) } else { None }, c: if s.draw(2) == 1 { Some(z(s, g)) } else { None } }
}

// the same records as other software would write them: the scripts are made
// without the library
fn hd(out: &mut Vec<u8>, major: u8, v: u64) {
    head(out, major, min_w(v), v)
}
fn w_str(o: &mut Vec<u8>, x: &str) {
    hd(o, 3, x.len() as u64);
    o.extend_from_slice(x.as_bytes());
}
fn w_z(o: &mut Vec<u8>, x: &Z) {
    let mut i = vec![];
    hd(&mut i, 4, x.0.len() as u64);
    for v in &x.0 {
        hd(&mut i, 0, *v);
    }
    hd(o, 2, i.len() as u64);
    o.extend(i);
}
fn w_msg(o: &mut Vec<u8>, m: &Msg) {
    match m {
        Msg::A(v) => {
            hd(o, 4, 2);
            hd(o, 0, 0);
            hd(o, 0, v.0);
        }
        Msg::B { s, z } => {
            hd(o, 4, 3);
            hd(o, 0, 1);
            w_str(o, &s.0);
            w_z(o, z);
        }
        Msg::C(v) => {
            hd(o, 4, 2);
            hd(o, 0, 2);
            hd(o, 4, v.len() as u64);
            for x in v {
                hd(o, 0, x.0 as u64);
            }
        }
        Msg::D => {
            hd(o, 4, 1);
            hd(o, 0, 3);
        }
    }
}
fn w_cb(o: &mut Vec<u8>, x: &Cb) {
    hd(o, 4, 4);
    hd(o, 0, x.a.0);
    w_str(o, &x.b.0);
    w_msg(o, &x.m);
    w_z(o, &x.z);
}
fn w_cm(o: &mut Vec<u8>, x: &Cm) {
    hd(o, 5, 1 + x.b.is_some() as u64 + x.c.is_some() as u64);
    hd(o, 0, 0);
    hd(o, 0, x.a.0 as u64);
    if let Some(m) = &x.b {
        hd(o, 0, 1);
        w_msg(o, m);
    }
    if let Some(z) = &x.c {
        hd(o, 0, 2);
        w_z(o, z);
    }
}

// ------------------------------------------------------------ the world ---

struct Boom;

#[derive(Clone, Debug)]
struct Op {
    k: u64,
    a: u64,
    b: u64,
    st: u64,
    /// the callback that panics; 0 = none
    boom: u64,
}

/// everything a connection owns; the borrowing parts come first and are dropped first
struct Conn {
    iter: Option<Box<dyn Iterator<Item = Reader<'static>>>>,
    held: Option<Box<Data<'static>>>,
    reader: Option<Reader<'static>>,
    validator: Option<Validator<'static>>,
    state: State,
    at: usize,
    writer: Writer,
    builder: ArrayBuilder,
    owned: Option<DataOwned>,
    told: Option<(DataOwned, String)>,
    kept: Vec<(DecodeError, String)>,
    typed: Option<CborDataOf<Cb>>,
    buf: Vec<u8>,
    fills: Vec<Vec<u8>>,
    recs: Vec<(usize, Vec<Node>, Vec<u8>)>,
    cbs: Vec<Cb>,
    cms: Vec<Cm>,
    ops: Vec<Op>,
    pos: usize,
    log: Vec<String>,
    calls: u64,
    boom: u64,
    booms: u64,
    /// callback from which on to single-step, and how far
    arm: (u64, u64),
    busy: bool,
}
impl Conn {
    fn buf(&self) -> &'static [u8] {
        // the buffer is never grown, and what borrows from it goes first
        unsafe { std::slice::from_raw_parts(self.buf.as_ptr(), self.buf.len()) }
    }
    fn rewind(&mut self) {
        self.iter = None;
        self.held = None;
        self.reader = Some(Reader::new(self.buf()));
        self.validator = Some(Validator::new(self.buf()));
        self.state = State::new();
        self.at = 0;
    }
}

type Work = Box<dyn FnOnce() + Send>;

struct World {
    conns: Vec<Conn>,
    depth: usize,
    c: *mut Ctx,
    solo: bool,
    types: Vec<zoo::RecTy>,
    /// the other threads; thread 0 is the simulator's own
    pool: Vec<Sender<Work>>,
    here: usize,
    blocked: Vec<bool>,
    overlap: Option<(std::sync::mpsc::Receiver<()>, usize)>,
}
impl World {
    fn free(&self) -> Vec<usize> {
        (0..self.conns.len()).filter(|j| !self.conns[*j].busy && self.conns[*j].pos < self.conns[*j].ops.len()).collect()
    }
}

// ------------------------------------------------------------ preemption ---
//
// A thread of the simulation can also be stopped inside the library, between any
// two instructions: it single-steps (trap flag, SIGTRAP) up to an instruction
// drawn, and waits in the handler while another thread does a step. Instructions
// of this binary are counted, those of libc are not, so the place is the same
// in every execution of the tape and malloc is never interrupted.

mod preempt {
    use std::cell::Cell;
    use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
    #[repr(C)]
    struct Action {
        handler: usize,
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }
    extern "C" {
        fn sigaction(n: i32, a: *const Action, o: *mut Action) -> i32;
        static __executable_start: u8;
        static etext: u8;
    }
    thread_local! {
        /// > 0: this thread is in the simulator's own code
        pub static GUARD: Cell<u32> = const { Cell::new(0) };
    }
    pub static ARMED: AtomicBool = AtomicBool::new(false);
    static AT: AtomicU64 = AtomicU64::new(0);
    static SEEN: AtomicU64 = AtomicU64::new(0);
    static ALL: AtomicU64 = AtomicU64::new(0);

    extern "C" fn trap(_n: i32, _i: *mut u8, u: *mut u8) {
        unsafe {
            let regs = u.add(40) as *mut i64; // uc_mcontext.gregs
            let rip = *regs.add(16) as usize;
            let all = ALL.fetch_add(1, Relaxed) + 1;
            let own = rip >= &raw const __executable_start as usize && rip < &raw const etext as usize;
            if own && GUARD.get() == 0 && SEEN.fetch_add(1, Relaxed) + 1 >= AT.load(Relaxed) {
                *regs.add(17) &= !0x100;
                super::preempted();
            } else if all > 300 + 3 * AT.load(Relaxed) {
                *regs.add(17) &= !0x100;
            }
        }
    }
    pub fn install() {
        static ONCE: std::sync::Once = std::sync::Once::new();
        ONCE.call_once(|| unsafe {
            // SA_SIGINFO | SA_RESTART
            let a = Action { handler: trap as *const () as usize, mask: [0; 16], flags: 4 | 0x1000_0000, restorer: 0 };
            sigaction(5, &a, std::ptr::null_mut());
        });
    }
    #[inline(always)]
    pub fn arm(at: u64) {
        AT.store(at, Relaxed);
        SEEN.store(0, Relaxed);
        ALL.store(0, Relaxed);
        #[cfg(target_arch = "x86_64")]
        unsafe {
            std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq")
        }
    }
    #[inline(always)]
    pub fn disarm() {
        #[cfg(target_arch = "x86_64")]
        unsafe {
            std::arch::asm!("pushfq", "and qword ptr [rsp], 0xfffffffffffffeff", "popfq")
        }
    }
    pub struct Guard;
    pub fn guard() -> Guard {
        GUARD.set(GUARD.get() + 1);
        Guard
    }
    impl Drop for Guard {
        fn drop(&mut self) {
            GUARD.set(GUARD.get() - 1)
        }
    }
}

/// the armed thread has reached its instruction
fn preempted() {
    let _g = preempt::guard();
    let w = WORLD.load(Relaxed);
    if w.is_null() {
        return;
    }
    unsafe {
        let t: Vec<usize> = (1..=(*w).pool.len()).filter(|t| *t != (*w).here && !(*w).blocked[*t]).collect();
        let free = (*w).free();
        if t.is_empty() || free.is_empty() {
            return;
        }
        let s = &mut (*(*w).c).s;
        let j = free[s.draw(free.len() as u64) as usize];
        let t = t[s.draw(t.len() as u64) as usize];
        (*(*w).c).fault("preempted-inside-call", j as u64);
        hand_over(w, j, t, true);
    }
}

thread_local! {
    /// the connection this thread works for
    static CUR: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}

static WORLD: AtomicPtr<World> = AtomicPtr::new(std::ptr::null_mut());

/// a point inside a callback of the user's: the scheduler may go elsewhere
fn hook() {
    callback();
    let w = WORLD.load(Relaxed);
    let i = CUR.get();
    if w.is_null() || i == usize::MAX {
        return;
    }
    unsafe {
        let conn = &mut (*w).conns[i];
        if conn.arm.0 != 0 && conn.calls == conn.arm.0 {
            let at = conn.arm.1;
            conn.arm = (0, 0);
            preempt::arm(at);
        }
    }
}
fn callback() {
    let w = WORLD.load(Relaxed);
    if w.is_null() {
        return;
    }
    let _g = preempt::guard();
    let i = CUR.get();
    if i == usize::MAX {
        return;
    }
    unsafe {
        let conn = &mut (*w).conns[i];
        conn.calls += 1;
        if conn.calls == conn.boom {
            conn.boom = 0;
            conn.booms += 1;
            std::panic::resume_unwind(Box::new(Boom));
        }
        if !(*w).solo && conn.calls <= 8 && (*w).overlap.is_none() && (*w).depth < 4 {
            let s = &mut (*(*w).c).s;
            if s.chance(1, 2) {
                let free = (*w).free();
                if !free.is_empty() {
                    let j = free[s.draw(free.len() as u64) as usize];
                    (*(*w).c).fault("step-in-callback", j as u64);
                    dispatch(w, j);
                }
            }
        }
    }
}

struct P(*mut World);
unsafe impl Send for P {}
impl P {
    fn step(self, i: usize) {
        unsafe { step(self.0, i) }
    }
}

/// one step of a connection, on whichever thread the scheduler picks; everybody
/// else waits meanwhile
unsafe fn dispatch(w: *mut World, i: usize) {
    let n = (*w).pool.len() as u64;
    let t = if n == 0 { 0 } else { (*(*w).c).s.draw(n + 1) as usize };
    (*(*w).c).ev("step", i as u64, t as u64);
    if t == (*w).here || (*w).blocked[t] || n == 0 {
        step(w, i);
        return;
    }
    (*(*w).c).fault("thread-hop", t as u64);
    hand_over(w, i, t, false);
}

/// a step of connection `i` on thread `t`, while this one waits
unsafe fn hand_over(w: *mut World, i: usize, t: usize, inside: bool) {
    let from = (*w).here;
    (*w).blocked[from] = true;
    (*w).here = t;
    let p = P(w);
    let (tx, rx) = channel::<()>();
    let job: Work = Box::new(move || {
        p.step(i);
        let _ = tx.send(());
    });
    let _ = (*w).pool[t - 1].send(job);
    if inside {
        // what was stopped may hold a lock the other one needs: then it goes on,
        // as it would, and the other one is waited for afterwards
        let mut asleep = 0;
        loop {
            let was = crate::seam::simulated(false);
            let got = rx.recv_timeout(std::time::Duration::from_millis(1));
            crate::seam::back(was);
            match got {
                Ok(()) => break,
                Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => panic!("a simulated thread ended"),
                Err(_) => {
                    asleep = if crate::all_asleep() { asleep + 1 } else { 0 };
                    if asleep >= 20 {
                        (*w).overlap = Some((rx, from));
                        return;
                    }
                }
            }
        }
    } else {
        assert!(rx.recv().is_ok(), "a simulated thread ended");
    }
    (*w).here = from;
    (*w).blocked[from] = false;
}

unsafe fn step(w: *mut World, i: usize) {
    let conn = &mut (*w).conns[i] as *mut Conn;
    (*conn).busy = true;
    (*w).depth += 1;
    let cur = CUR.replace(i);
    let o = (&(*conn).ops)[(*conn).pos].clone();
    (*conn).pos += 1;
    (*conn).calls = 0;
    (*conn).boom = o.boom;
    let outer = RENDER.with(|r| r.replace(Some(String::new())));
    let s = &mut (*(*w).c).s;
    let there = (1..=(*w).pool.len()).any(|t| t != (*w).here && !(*w).blocked[t]);
    let arm = !(*w).solo && there && (*w).overlap.is_none() && !preempt::ARMED.load(Relaxed) && !(*w).free().is_empty() && s.chance(1, 3);
    // from the start of the call, or from one of its callbacks
    let (at, from_call) = if arm {
        let bits = 3 + s.draw(8);
        (1 + s.draw(1 << bits), s.draw(4))
    } else {
        (0, 0)
    };
    (*conn).arm = if from_call > 0 { (from_call, at) } else { (0, 0) };
    if arm {
        preempt::install();
        preempt::ARMED.store(true, Relaxed);
    }
    let r = catch_unwind(AssertUnwindSafe(|| {
        if arm && from_call == 0 {
            preempt::arm(at);
        }
        let r = act(w, conn, &o);
        if arm {
            preempt::disarm();
        }
        r
    }));
    if arm {
        preempt::disarm();
        if let Some((rx, from)) = (*w).overlap.take() {
            assert!(rx.recv().is_ok(), "a simulated thread ended");
            (*w).here = from;
            (*w).blocked[from] = false;
        }
        preempt::ARMED.store(false, Relaxed);
    }
    let text = RENDER.with(|r| r.replace(outer)).unwrap_or_default();
    let out = match r {
        Ok(s) => s,
        Err(p) if p.is::<Boom>() => "callback panicked".to_string(),
        Err(_) => {
            // an outcome like any other: whether the library may panic is C01's matter
            let (at, msg) = crate::PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            format!("panicked at {}: {}", at, msg)
        }
    };
    (*conn).log.push(format!("{} {} calls={} {}", NAMES[o.k as usize], out, (*conn).calls, text));
    CUR.set(cur);
    (*w).depth -= 1;
    (*conn).busy = false;
}

fn h(b: &[u8]) -> String {
    let mut f = 0xcbf29ce484222325u64;
    for x in b {
        f = (f ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    format!("{}({:x})", hex(b, 40), f)
}
fn hv2(r: Result<Vec<u8>, De>) -> String {
    match r {
        Ok(b) => h(&b),
        Err(De::Lib(e)) => format!("{:?}", e),
        Err(De::Bad(v)) => format!("BAD {} {}", v.class, v.msg),
    }
}
fn dbg<T: std::fmt::Debug>(r: Result<T, DecodeError>) -> String {
    match r {
        Ok(t) => format!("{:?}", t),
        Err(e) => {
            let t = told(&e);
            keep(&e, &t);
            t
        }
    }
}
fn told(e: &DecodeError) -> String {
    format!("{} | {} | {:?}", e, e.context_as_path(), e.error())
}
/// the connection whose call this is keeps a copy of the error
fn keep(e: &DecodeError, t: &str) {
    let w = WORLD.load(Relaxed);
    if w.is_null() {
        return;
    }
    let _g = preempt::guard();
    let i = CUR.get();
    if i != usize::MAX {
        let k = unsafe { &mut (*w).conns[i].kept };
        if k.len() < 6 {
            k.push((e.clone(), t.to_string()))
        }
    }
}

const NAMES: [&str; 21] = [
    "entry", "validator", "state", "decode", "exact", "array-to-vec", "map-to-vec", "read-data", "hold", "refill", "storm", "path", "record",
    "put", "finalize", "builder", "encode", "drop", "whole", "text-of", "kept",
];

const STORM: [u64; 6] = [2, 5, 40, 200, 700, 2500];

fn act(w: *mut World, conn: *mut Conn, o: &Op) -> String {
    let c = unsafe { &mut *conn };
    let st = &mut Style(o.st);
    let pos = |c: &Conn| c.reader.as_ref().map_or((0, 0), |r| (r.consumed_bytes(), r.remaining_bytes()));
    match o.k {
        0 => {
            let e = &ENTRIES[o.a as usize % ENTRIES.len()];
            let r = c.reader.as_mut().map(|r| (e.run)(r, st));
            format!("{} {} {:?}", e.name, r.map(hv2).unwrap_or_default(), pos(c))
        }
        1 => match c.validator.as_mut().map(|v| (v.next().map(|(s, n)| (h(s.as_ref()), n)), v.remaining_bytes())) {
            Some(x) => format!("{:?}", x),
            None => String::new(),
        },
        2 => match lead(&c.buf[c.at.min(c.buf.len())..]) {
            Ok(l) => {
                let r = state_feed(&mut c.state, l);
                let step = match l {
                    Lead::Val { major: 2 | 3, v, size, .. } => size.saturating_add(v as usize),
                    Lead::Val { size, .. } => size,
                    _ => 1,
                };
                c.at = c.at.saturating_add(step).min(c.buf.len());
                format!("{:?} {}", r, c.state.acceptable())
            }
            Err(_) => "no header".to_string(),
        },
        3 => {
            let r = match c.reader.as_mut() {
                Some(r) => r,
                None => return String::new(),
            };
            let out = match o.a % 7 {
                0 => dbg(r.decode::<Cb>()),
                1 => dbg(r.decode::<Cm>()),
                2 => dbg(r.decode::<Msg>()),
                3 => dbg(r.decode::<Y<u64>>()),
                4 => dbg(r.decode::<Y<DataOwned>>().map(|d| h(&enc(&d.0)))),
                5 => dbg(decode_vec::<Y<Y<u64>>>(r)),
                _ => dbg(r.decode::<Y<String>>()),
            };
            format!("{} {:?}", out, pos(c))
        }
        4 => {
            let r = match c.reader.as_mut() {
                Some(r) => r,
                None => return String::new(),
            };
            let out = match o.a % 3 {
                0 => match r.exact_decodable_data::<Cb>() {
                    Ok(d) => {
                        let b = h(d.as_ref());
                        c.typed = Some(d.clone());
                        format!("{} {:?}", b, d.unserialize())
                    }
                    Err(e) => format!("{} | {}", e, e.context_as_path()),
                },
                1 => dbg(r.exact_decodable_slice::<Y<DataOwned>>().map(|s| (h(s.untype().as_ref()), h(&enc(&s.to_owned().unserialize().0))))),
                _ => match &c.typed {
                    Some(d) => format!("{:?}", d.unserialize()),
                    None => "none".to_string(),
                },
            };
            format!("{} {:?}", out, pos(c))
        }
        5 => {
            let r = match c.reader.as_mut() {
                Some(r) => r,
                None => return String::new(),
            };
            let out = match r.array() {
                Ok(a) => {
                    let v: Result<Vec<u64>, _> = match o.a % 2 {
                        0 => a.to_vec(|r| {
                            hook();
                            let x = r.decode::<Y<u64>>().map_err(|e| e.error().clone())?;
                            Ok(x.0)
                        }),
                        _ => a.owned().to_vec(|r| {
                            hook();
                            Ok(r.positive()?.to_u64())
                        }),
                    };
                    format!("{:?}", v)
                }
                Err(e) => format!("{:?}", e),
            };
            format!("{} {:?}", out, pos(c))
        }
        6 => {
            let r = match c.reader.as_mut() {
                Some(r) => r,
                None => return String::new(),
            };
            let out = match r.map() {
                Ok(a) => {
                    let v: Result<Vec<(u64, DataOwned)>, _> = match o.a % 2 {
                        0 => a.to_vec(
                            |r| {
                                hook();
                                Ok(r.positive()?.to_u64())
                            },
                            |r| {
                                let d = r.data()?.owned();
                                hook();
                                Ok(d)
                            },
                        ),
                        _ => a.owned().to_vec(
                            |r| {
                                hook();
                                Ok(r.positive()?.to_u64())
                            },
                            |r| Ok(r.data()?.owned()),
                        ),
                    };
                    match v {
                        Ok(v) => v.iter().map(|(k, d)| format!("{}:{} ", k, h(&enc(d)))).collect::<String>(),
                        Err(e) => format!("{:?}", e),
                    }
                }
                Err(e) => format!("{:?}", e),
            };
            format!("{} {:?}", out, pos(c))
        }
        7 => {
            let r = match c.reader.as_mut() {
                Some(r) => r,
                None => return String::new(),
            };
            let out = match r.tag() {
                Ok(t) => match o.a % 2 {
                    0 => format!(
                        "{:?}",
                        t.read_data(|r| {
                            hook();
                            let d = r.data()?.owned();
                            hook();
                            Ok(h(&enc(&d)))
                        })
                    ),
                    _ => dbg(t.decode_data::<Y<DataOwned>>().map(|d| h(&enc(&d.0)))),
                },
                Err(e) => format!("{:?}", e),
            };
            format!("{} {:?}", out, pos(c))
        }
        8 => {
            if let (Some(it), true) = (c.iter.as_mut(), o.a % 4 != 0) {
                // members of the value held, some at a time
                let mut out = String::new();
                for _ in 0..1 + o.b % 3 {
                    match it.next() {
                        Some(mut r) => {
                            let x = r.decode::<Y<DataOwned>>();
                            out += &format!("{} {} ", dbg(x.map(|d| h(&enc(&d.0)))), r.remaining_bytes());
                        }
                        None => out += "end ",
                    }
                }
                return out;
            }
            c.iter = None;
            if let (Some(d), true) = (&c.held, o.a % 8 == 4) {
                let d = d.owned();
                c.owned = Some(d.clone());
                c.told = Some((d.clone(), h(&enc(&d))));
                return format!("{} {}", h(&enc(&d)), d == d.clone());
            }
            c.held = None;
            let r = match c.reader.as_mut() {
                Some(r) => r,
                None => return String::new(),
            };
            let out = match r.data() {
                Ok(d) => {
                    let d = Box::new(d);
                    let out = h(&enc(&*d));
                    // the box stays where it is until the iterator is gone
                    let stay: &'static Data<'static> = unsafe { &*(&*d as *const Data<'static>) };
                    c.iter = match stay {
                        Data::Array(a) => Some(Box::new(a.iter())),
                        Data::Map(m) => match o.b % 3 {
                            0 => Some(Box::new(m.iter().map(|(k, _)| k))),
                            1 => Some(Box::new(m.keys())),
                            _ => Some(Box::new(m.values())),
                        },
                        Data::Tag(t) => Some(Box::new(std::iter::once(t.reader()))),
                        _ => None,
                    };
                    c.held = Some(d);
                    out
                }
                Err(e) => format!("{:?}", e),
            };
            format!("{} {:?}", out, pos(c))
        }
        9 => {
            // other content, same length, same place
            c.iter = None;
            c.held = None;
            c.reader = None;
            c.validator = None;
            let f = &c.fills[o.a as usize % c.fills.len()];
            c.buf.copy_from_slice(f);
            c.rewind();
            String::new()
        }
        10 => {
            let n = STORM[o.b as usize % STORM.len()];
            let b = c.buf();
            let rec = c.recs.get(o.a as usize % c.recs.len().max(1)).map(|r| &r.2[..]).unwrap_or(b);
            // half of the record: hardly ever acceptable
            let part = &rec[..rec.len() - rec.len().min(1 + (o.st % 3) as usize)];
            let types = unsafe { &(*w).types };
            let mut first = String::new();
            let long = b.len() > 400 || rec.len() > 400;
            for i in 0..if long { n.min(40) } else { n } {
                let out = match o.a % 14 {
                    0 => dbg(decode_from_bytes::<Cb>(b)),
                    1 => dbg(decode_from_bytes::<Msg>(part)),
                    2 => {
                        let e = &ENTRIES[o.st as usize % ENTRIES.len()];
                        hv2((e.run)(&mut Reader::new(b), &mut Style(7)))
                    }
                    3 => format!("{:?}", Validator::new(part).next().map(|x| x.1)),
                    4 => {
                        let t = &types[c.recs.first().map_or(0, |r| r.0)];
                        match (t.whole)(part, &mut Style(3)) {
                            Ok(n) => format!("{:?}", n),
                            Err(De::Lib(e)) => format!("{:?}", e),
                            Err(De::Bad(v)) => v.msg,
                        }
                    }
                    5 => dbg((paths::TYPES[o.st as usize % paths::TYPES.len()].dec)(b, o.st % paths::PLAIN, 0)),
                    6 => dbg(Reader::new(b).decode::<Y<DataOwned>>().map(|d| h(&enc(&d.0)))),
                    7 => dbg(decode_vec::<Y<u64>>(&mut Reader::new(b))),
                    8 => dbg(raw_data(part).validate_as::<Cm>().map(|d| h(d.as_ref()))),
                    9 => {
                        // written and thrown away
                        let x = &c.cbs[o.st as usize % c.cbs.len()];
                        h(&encode_to_bytes(x))
                    }
                    10 => {
                        // begun and given up inside, over and over
                        let r = catch_unwind(AssertUnwindSafe(|| {
                            let mut w = Writer::new();
                            let quit = |w: &mut Writer| {
                                w.encode(&o.b);
                                std::panic::resume_unwind(Box::new(Boom))
                            };
                            match o.b % 4 {
                                0 => w.array_build(StructureLength::from(3u64), quit),
                                1 => w.map_build(StructureLength::Indefinite, quit),
                                2 => w.tag_build(TagValue::from_u64(o.st), quit),
                                _ => w.array_build(StructureLength::Indefinite, |w| w.tag_build(TagValue::from_u64(1), |w| w.map_build(StructureLength::from(1u64), quit))),
                            }
                        }));
                        match r {
                            Err(p) if p.is::<Boom>() => String::new(),
                            Err(_) => format!("{:?}", crate::PANIC.with(|p| p.borrow_mut().take())),
                            Ok(()) => "finished".to_string(),
                        }
                    }
                    11 => {
                        let r = catch_unwind(AssertUnwindSafe(|| match o.b % 4 {
                            0 => Reader::new(b).array().and_then(|a| Ok(a.to_vec(|_| -> Result<u64, _> { std::panic::resume_unwind(Box::new(Boom)) }).is_ok())),
                            1 => Reader::new(b).map().and_then(|a| Ok(a.to_vec(|r| r.positive().map(|x| x.to_u64()).map_err(|e| e.into()), |_| -> Result<u64, _> { std::panic::resume_unwind(Box::new(Boom)) }).is_ok())),
                            2 => Reader::new(b).tag().and_then(|t| t.read_data(|_| -> Result<bool, _> { std::panic::resume_unwind(Box::new(Boom)) })),
                            _ => Reader::new(b).exact_decodable_data::<Quits>().map(|_| true).map_err(|e| match e.error() {
                                DecodeErrorKind::ReaderError(e) => e.clone(),
                                _ => ReaderError::UnexpectedBreakType,
                            }),
                        }));
                        match r {
                            Err(p) if p.is::<Boom>() => "gave up".to_string(),
                            Err(_) => format!("{:?}", crate::PANIC.with(|p| p.borrow_mut().take())),
                            Ok(x) => format!("{:?}", x),
                        }
                    }
                    12 => format!("{:?}", Reader::new(b).tag().and_then(|t| t.read_data(|r| Ok(r.array()?.len())))),
                    _ => {
                        let mut w = Writer::new();
                        let l = StructureLength::from(2u64);
                        w.array_build(l, |w| {
                            w.encode(&c.cbs[0]);
                            w.tag_build(TagValue::from_u64(o.st), |w| w.encode(&c.cms[0]));
                        });
                        h(w.finalize_data().as_ref())
                    }
                };
                if i == 0 {
                    first = out;
                } else if out != first {
                    return format!("DRIFT at repetition {}: {} then {}", i, first, out);
                }
            }
            first
        }
        11 => {
            let t = &paths::TYPES[o.a as usize % paths::TYPES.len()];
            dbg((t.dec)(c.buf(), if t.seq { 1 } else { o.b % paths::PLAIN }, 0))
        }
        12 => {
            let types = unsafe { &(*w).types };
            if c.recs.is_empty() {
                return String::new();
            }
            let (ti, nodes, bytes) = &c.recs[o.a as usize % c.recs.len()];
            let t = &types[*ti];
            let say = |r: Result<String, De>| match r {
                Ok(s) => s,
                Err(De::Lib(e)) => format!("{:?}", e),
                Err(De::Bad(v)) => format!("BAD {}", v.msg),
            };
            match o.b % 5 {
                0 => say((t.dec)(bytes, st).map(|(n, e, u)| format!("{} {} {}", h(&zoo::enc_nodes(&n)), h(&e), u))),
                1 => say((t.whole)(bytes, st).map(|n| h(&zoo::enc_nodes(&n)))),
                2 => say((t.typed)(bytes, st).map(|(b, n)| format!("{} {}", h(&b), h(&zoo::enc_nodes(&n))))),
                3 => say((t.eq)(nodes, bytes).map(|x| x.to_string())),
                _ => (t.enc)(nodes, st).map(|b| h(&b)).unwrap_or_default(),
            }
        }
        13 => {
            let x = &c.cbs[o.b as usize % c.cbs.len()];
            let y = &c.cms[o.b as usize % c.cms.len()];
            let types = unsafe { &(*w).types };
            let wr = &mut c.writer;
            match o.a % 9 {
                0 => wr.encode(x),
                1 => wr.encode(y),
                2 => {
                    if let Some((ti, nodes, _)) = c.recs.get(o.b as usize % c.recs.len().max(1)) {
                        (types[*ti].put)(nodes, wr);
                    }
                }
                3 => wr.array_build(StructureLength::from(3u64), |wr| {
                    hook();
                    wr.encode(x);
                    hook();
                    wr.map_build(StructureLength::Indefinite, |wr| {
                        wr.encode(&Y(o.b));
                        hook();
                        wr.encode(y);
                    });
                    wr.encode(&o.b);
                }),
                4 => wr.tag_build(TagValue::from_u64(o.b), |wr| {
                    hook();
                    wr.encode(&x.m);
                    hook();
                }),
                5 => encode_vec(&[Y(1u64), Y(o.b), Y(o.st)], wr),
                6 => {
                    if let Some(d) = &c.held {
                        wr.data(d)
                    }
                }
                7 => {
                    if let Some(d) = &c.owned {
                        wr.encode(d)
                    }
                }
                _ => wr.array_build(StructureLength::Indefinite, |wr| {
                    for i in 0..o.b % 30 {
                        wr.encode(&Y(i));
                    }
                    hook();
                }),
            }
            String::new()
        }
        14 => {
            let wr = std::mem::replace(&mut c.writer, if o.a % 2 == 0 { Writer::new() } else { Writer::new_from_vec(vec![0x18, 0x2a]) });
            let b = match o.b % 2 {
                0 => wr.finalize(),
                _ => wr.finalize_data().as_ref().to_vec(),
            };
            h(&b)
        }
        15 => match o.a % 4 {
            0 => {
                let b = std::mem::replace(&mut c.builder, ArrayBuilder::new());
                let a = if o.b % 2 == 0 { b.finite() } else { b.indefinite() };
                let mut wr = Writer::new();
                wr.array(&a.borrow());
                format!("{} {}", a.len(), h(&wr.finalize()))
            }
            1 => {
                c.builder.append_encodable(&c.cms[o.b as usize % c.cms.len()]);
                String::new()
            }
            2 => {
                c.builder.append_encodable(&Y(o.b));
                String::new()
            }
            _ => {
                let mut wr = Writer::new();
                wr.encode(&c.cbs[o.b as usize % c.cbs.len()]);
                c.builder.append(wr.finalize_data());
                String::new()
            }
        },
        16 => {
            let x = &c.cbs[o.b as usize % c.cbs.len()];
            match o.a % 3 {
                0 => h(&encode_to_bytes(x)),
                1 => {
                    let d: CborDataOf<Cb> = (x).into();
                    let same = d.unserialize() == *x;
                    let out = format!("{} {}", h(d.as_ref()), same);
                    c.typed = Some(d);
                    out
                }
                _ => dbg(decode_from_bytes::<Cb>(&encode_to_bytes(x)).map(|y| y == *x)),
            }
        }
        17 => {
            match o.a % 4 {
                0 => c.iter = None,
                1 => {
                    c.iter = None;
                    c.held = None;
                }
                2 => c.rewind(),
                _ => c.writer = Writer::new(),
            }
            String::new()
        }
        18 => {
            let e = &WHOLES[o.a as usize % WHOLES.len()];
            format!("{} {}", e.name, hv2((e.run)(c.buf(), st).map(|x| x.0)))
        }
        19 => {
            // a call, something else, another call
            let r = match c.reader.as_mut() {
                Some(r) => r,
                None => return String::new(),
            };
            let e1 = r.text().map(|t| t.to_string());
            hook();
            let e2 = r.bytes().map(|t| t.to_vec());
            format!("{:?} {:?} {:?} {:?}", e1, e2, r.peek_type(), r.expect_finished())
        }
        _ => {
            // what was kept still says what it said
            let k = std::mem::take(&mut c.kept);
            for (e, t) in &k {
                let now = told(e);
                if now != *t {
                    return format!("DRIFT at an error kept: {} then {}", t, now);
                }
            }
            if let Some((d, t)) = &c.told {
                let now = h(&enc(d));
                if now != *t {
                    return format!("DRIFT at a value kept: {} then {}", t, now);
                }
            }
            format!("{} kept", k.len())
        }
    }
}

// --------------------------------------------------------------- scripts ---

fn content(c: &mut Ctx, g: &Gen) -> Vec<u8> {
    let s = &mut c.s;
    let n = 1 + s.draw(4);
    let mut b = vec![];
    let mut marks = vec![];
    for _ in 0..n {
        marks.push(b.len());
        match s.draw(8) {
            0 => w_cb(&mut b, &cb(s, g)),
            1 => w_cm(&mut b, &cm(s, g)),
            2 => w_msg(&mut b, &msg(s, g)),
            3 => {
                let k = s.draw(6);
                hd(&mut b, 4, k);
                for _ in 0..k {
                    hd(&mut b, 0, g.int(s));
                }
            }
            4 => {
                let k = s.draw(4);
                head(&mut b, 5, 0, k);
                for i in 0..k {
                    head(&mut b, 0, 0, i);
                    b.extend(g.leaf(s).enc());
                }
            }
            5 => {
                head(&mut b, 6, 0, s.draw(24));
                b.extend(g.node(s).enc());
            }
            _ => b.extend(g.node(s).enc()),
        }
    }
    if c.chaos(1, 3) {
        for _ in 0..1 + c.s.draw(3) {
            let k = damage(&mut c.s, &mut b, &marks);
            c.fault(DAMAGE[k], 0);
        }
    } else if c.chaos(1, 12) {
        let m = hostile::crafted(c, g, 300).bytes;
        if m.len() < 2000 {
            c.fault("crafted", 0);
            b = m;
        }
    }
    b.truncate(4000);
    b
}

#[derive(Clone)]
struct Script {
    fills: Vec<Vec<u8>>,
    recs: Vec<(usize, Vec<Node>, Vec<u8>)>,
    cbs: Vec<Cb>,
    cms: Vec<Cm>,
    ops: Vec<Op>,
}

fn script(c: &mut Ctx, g: &Gen, types: &[zoo::RecTy]) -> Script {
    let mut fills = vec![content(c, g)];
    for _ in 0..c.s.draw(3) {
        let f = if c.s.chance(1, 2) {
            let mut f = fills[0].clone();
            if !f.is_empty() {
                let i = c.s.draw(f.len() as u64) as usize;
                f[i] ^= 1 << c.s.draw(8);
            }
            f
        } else {
            content(c, g)
        };
        fills.push(f)
    }
    let n = fills.iter().map(|f| f.len()).max().unwrap_or(0);
    for f in fills.iter_mut() {
        while f.len() < n {
            f.push(0)
        }
    }
    let mut recs = vec![];
    for _ in 0..1 + c.s.draw(2) {
        let t = c.s.draw(types.len() as u64) as usize;
        let nodes = (types[t].gen)(g, &mut c.s);
        let mut b = zoo::enc_nodes(&nodes);
        if c.chaos(1, 3) {
            let k = damage(&mut c.s, &mut b, &[]);
            c.fault(DAMAGE[k], 1);
        }
        recs.push((t, nodes, b));
    }
    let cbs = (0..1 + c.s.draw(2)).map(|_| cb(&mut c.s, g)).collect();
    let cms = (0..1 + c.s.draw(2)).map(|_| cm(&mut c.s, g)).collect();
    // every connection prefers some of the calls
    let mut w: Vec<u64> = vec![6, 4, 4, 6, 3, 3, 3, 3, 6, 2, 1, 4, 4, 6, 2, 3, 4, 2, 2, 2, 3];
    for x in w.iter_mut() {
        if c.s.chance(1, 4) {
            *x = [0, 12][c.s.draw(2) as usize];
        }
    }
    let mut ops = vec![];
    for _ in 0..2 + c.s.draw(18) {
        let k = c.s.weighted(&w) as u64;
        let boom = if c.chaos(1, 8) { 1 + c.s.draw(5) } else { 0 };
        ops.push(Op { k, a: c.s.draw(1 << 12), b: c.s.draw(1 << 12), st: c.s.draw(1 << 20), boom });
        match k {
            9 => c.fault("refill-same-place", 0),
            10 => c.fault("storm", 0),
            17 => c.fault("drop-midway", 0),
            _ => (),
        }
    }
    Script { fills, recs, cbs, cms, ops }
}

/// nearly the same connection
fn sibling(c: &mut Ctx, g: &Gen, x: &Script) -> Script {
    let mut y = x.clone();
    for f in y.fills.iter_mut() {
        if c.s.chance(2, 3) && !f.is_empty() {
            let i = c.s.draw(f.len() as u64) as usize;
            f[i] ^= 1 << c.s.draw(8);
        }
    }
    for r in y.recs.iter_mut() {
        if c.s.chance(1, 2) && !r.2.is_empty() {
            let i = c.s.draw(r.2.len() as u64) as usize;
            r.2[i] ^= 1 << c.s.draw(8);
        }
    }
    if c.s.chance(2, 3) {
        let i = c.s.draw(y.cbs.len() as u64) as usize;
        y.cbs[i] = cb(&mut c.s, g);
    }
    if c.s.chance(1, 2) {
        let i = c.s.draw(y.ops.len() as u64) as usize;
        y.ops[i].boom = 0;
        y.ops[i].a = c.s.draw(1 << 12);
    }
    y
}

fn conn(x: &Script) -> Conn {
    let mut c = Conn {
        iter: None,
        held: None,
        reader: None,
        validator: None,
        state: State::new(),
        at: 0,
        writer: Writer::new(),
        builder: ArrayBuilder::new(),
        owned: None,
        told: None,
        kept: vec![],
        typed: None,
        buf: x.fills[0].clone(),
        fills: x.fills.clone(),
        recs: x.recs.clone(),
        cbs: x.cbs.clone(),
        cms: x.cms.clone(),
        ops: x.ops.clone(),
        pos: 0,
        log: vec![],
        calls: 0,
        boom: 0,
        booms: 0,
        arm: (0, 0),
        busy: false,
    };
    c.rewind();
    c
}

/// which script of the run this process was started to execute alone
pub static ONLY: AtomicI64 = AtomicI64::new(-1);

/// the record of script `i` in a process that has done nothing else
fn elsewhere(c: &mut Ctx, i: usize) -> Option<Vec<String>> {
    use std::io::{Read, Write};
    let exe = std::env::current_exe().ok()?;
    let mut kid = std::process::Command::new(exe)
        .args(["alone", "--script", &i.to_string()])
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .ok()?;
    let n = c.s.used().min(c.s.tape.len());
    let mut raw = vec![0u8];
    for x in &c.s.tape[..n] {
        raw.extend(x.to_le_bytes());
    }
    let mut pipe = kid.stdin.take()?;
    let sent = pipe.write_all(&raw);
    drop(pipe);
    let mut text = String::new();
    let got = kid.stdout.take()?.read_to_string(&mut text);
    let st = kid.wait().ok()?;
    if st.code() == Some(0) && sent.is_ok() && got.is_ok() {
        Some(text.split('\u{1}').map(|x| x.to_string()).collect())
    } else {
        None
    }
}

fn world(c: *mut Ctx, conns: Vec<Conn>, solo: bool, threads: usize) -> World {
    World {
        conns,
        depth: 0,
        c,
        solo,
        types: zoo::all(),
        pool: vec![],
        here: 0,
        blocked: vec![false; threads + 1],
        overlap: None,
    }
}

const STACK: usize = 8 << 20;

struct Off;
impl Drop for Off {
    fn drop(&mut self) {
        WORLD.store(std::ptr::null_mut(), Relaxed);
    }
}

type Record = Vec<Vec<String>>;

/// each script alone, on a thread of its own
fn alone(c: *mut Ctx, scripts: &[Script]) -> Record {
    let mut logs = vec![];
    for x in scripts {
        let mut w = Box::new(world(c, vec![conn(x)], true, 0));
        let p = P(&mut *w);
        let _off = Off;
        WORLD.store(&mut *w, Relaxed);
        let n = x.ops.len();
        let t = std::thread::Builder::new().stack_size(STACK).spawn(move || {
            let p = p;
            crate::seam::simulated(true);
            for _ in 0..n {
                unsafe { step(p.0, 0) }
            }
        });
        t.expect("thread").join().expect("simulated thread");
        logs.push(std::mem::take(&mut w.conns[0].log));
    }
    logs
}

fn together(c: *mut Ctx, scripts: &[Script], threads: usize) -> (Record, u64) {
    let mut w = Box::new(world(c, scripts.iter().map(conn).collect(), false, threads));
    let mut joins = vec![];
    for _ in 0..threads {
        let (tx, rx) = channel::<Work>();
        w.pool.push(tx);
        joins.push(
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn(move || {
                    crate::seam::simulated(true);
                    while let Ok(f) = rx.recv() {
                        f()
                    }
                })
                .expect("thread"),
        );
    }
    let p: *mut World = &mut *w;
    let _off = Off;
    WORLD.store(p, Relaxed);
    unsafe {
        loop {
            let free: Vec<usize> = (0..(*p).conns.len()).filter(|j| (*p).conns[*j].pos < (*p).conns[*j].ops.len()).collect();
            if free.is_empty() {
                break;
            }
            (*c).now += (*c).s.draw(100);
            let j = free[(*c).s.draw(free.len() as u64) as usize];
            let k = 1 + (*c).s.draw(3);
            for _ in 0..k {
                if (*p).conns[j].pos < (*p).conns[j].ops.len() {
                    dispatch(p, j);
                }
            }
        }
    }
    w.pool.clear();
    for j in joins {
        j.join().expect("simulated thread");
    }
    let logs = w.conns.iter_mut().map(|x| std::mem::take(&mut x.log)).collect();
    let booms = w.conns.iter().map(|x| x.booms).sum();
    (logs, booms)
}

pub fn run(c: &mut Ctx) -> R {
    c.calm = c.s.chance(1, 10);
    let g = if c.s.chance(1, 2) { Gen::plain() } else { Gen::swarm(&mut c.s) };
    let types = zoo::all();
    let k = 1 + c.s.draw(4) as usize;
    let mut scripts = vec![script(c, &g, &types)];
    while scripts.len() < k {
        let x = if c.s.chance(2, 3) {
            let first = scripts[0].clone();
            sibling(c, &g, &first)
        } else {
            script(c, &g, &types)
        };
        scripts.push(x);
    }
    let threads = if c.s.chance(1, 3) { 1 + c.s.draw(3) as usize } else { 0 };
    let order = c.s.draw(2);
    let apart = c.s.chance(1, 6);
    let only = ONLY.load(Relaxed);
    if only >= 0 {
        let x = scripts.get(only as usize).cloned();
        let log = alone(c, x.as_slice());
        print!("{}", log.concat().join("\u{1}"));
        return Ok(());
    }
    let p: *mut Ctx = c;
    let (solo, (inter, booms)) = if order == 0 {
        let a = alone(p, &scripts);
        (a, together(p, &scripts, threads))
    } else {
        let b = together(p, &scripts, threads);
        (alone(p, &scripts), b)
    };
    for _ in 0..booms {
        c.fault("callback-panic", 0);
    }
    if apart {
        crate::IN_RUN.store(false, Relaxed);
        for i in 0..k {
            if let Some(a) = elsewhere(c, i) {
                c.fault("past-forgotten", 0);
                for (j, (x, y)) in a.iter().zip(solo[i].iter()).enumerate() {
                    if x != y {
                        crate::IN_RUN.store(true, Relaxed);
                        return viol(
                            "past",
                            format!(
                                "connection {}, call {}: in a process of its own {} but in one that has served others {}",
                                i,
                                j,
                                x.chars().take(400).collect::<String>(),
                                y.chars().take(400).collect::<String>()
                            ),
                        );
                    }
                }
            }
        }
        crate::IN_RUN.store(true, Relaxed);
    }
    for (i, (a, b)) in solo.iter().zip(inter.iter()).enumerate() {
        for (j, (x, y)) in a.iter().zip(b.iter()).enumerate() {
            c.ops += 1;
            c.data(x.as_bytes());
            c.note(|| format!("connection {} call {}: {}", i, j, x.chars().take(200).collect::<String>()));
            for (t, how) in [(x, "alone"), (y, "among others")] {
                if let Some(at) = t.find("DRIFT at") {
                    return viol("drift", format!("connection {} {}: the same call on the same bytes changes its answer: {}", i, how, t[at..].chars().take(600).collect::<String>()));
                }
            }
            if x != y {
                return viol(
                    "influenced",
                    format!("connection {} of {}, call {}: alone {} but among the others {}", i, k, j, x.chars().take(400).collect::<String>(), y.chars().take(400).collect::<String>()),
                );
            }
            c.probe(NAMES[scripts[i].ops[j].k as usize]);
        }
    }
    Ok(())
}
