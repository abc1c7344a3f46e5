//! Per-run simulation context: simulated clock, event trace, fault and probe
//! counters, and the violation type.

use crate::rng::{mix, Src};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap};

#[derive(Debug, Clone)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}
pub type R<T = ()> = Result<T, Viol>;

pub fn viol<T>(class: &str, msg: impl Into<String>) -> R<T> {
    Err(Viol { class: class.to_string(), msg: msg.into() })
}

pub struct Ctx {
    pub s: Src,
    pub now: u64,
    pub steps: u64,
    pub ops: u64,
    /// fault-free configuration: nothing is injected in this run
    pub calm: bool,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub sched: u64,
    pub full: u64,
    pub pairs: Vec<u32>,
    last_ev: u32,
    pub log: Option<Vec<String>>,
}

impl Ctx {
    pub fn new(s: Src, verbose: bool) -> Ctx {
        Ctx {
            s,
            now: 0,
            steps: 0,
            ops: 0,
            calm: false,
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            sched: 0x1234,
            full: 0x5678,
            pairs: Vec::new(),
            last_ev: 0,
            log: if verbose { Some(Vec::new()) } else { None },
        }
    }
    /// record one scheduler step: `name` by `actor` (hashes only; never draws)
    pub fn ev(&mut self, name: &'static str, actor: u64, val: u64) {
        let mut h = 0u64;
        for b in name.bytes() {
            h = h.wrapping_mul(131).wrapping_add(b as u64);
        }
        let k = mix(h ^ (actor << 48));
        self.sched = mix(self.sched ^ k);
        self.full = mix(self.full ^ k ^ mix(val) ^ self.now);
        let e = (k >> 48) as u32;
        self.pairs.push(self.last_ev << 16 | e);
        self.last_ev = e;
        self.steps += 1;
        let now = self.now;
        if let Some(l) = self.log.as_mut() {
            if l.len() < 4000 {
                l.push(format!("t={}us #{} {}[{}] {}", now, self.steps, name, actor, val));
            }
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if let Some(l) = self.log.as_mut() {
            if l.len() < 4000 {
                l.push(format!("      {}", f()));
            }
        }
    }
    pub fn fault(&mut self, name: &'static str, actor: u64) {
        *self.faults.entry(name).or_insert(0) += 1;
        self.ev(name, actor, 0xfa);
    }
    /// a fault opportunity: fires with probability num/den unless the run is calm
    pub fn chaos(&mut self, num: u64, den: u64) -> bool {
        !self.calm && self.s.chance(num, den)
    }
    pub fn style(&mut self) -> crate::api::Style {
        crate::api::Style(self.s.draw(1 << 20))
    }
    pub fn probe(&mut self, name: &'static str) {
        *self.probes.entry(name).or_insert(0) += 1;
    }
    pub fn data(&mut self, b: &[u8]) {
        let mut h = 0xcbf29ce484222325u64;
        for x in b {
            h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
        }
        self.full = mix(self.full ^ h);
    }
}

/// Discrete-event queue ordered by (time, sequence number): a total order.
pub struct Queue<E> {
    h: BinaryHeap<Reverse<(u64, u64, Slot<E>)>>,
    seq: u64,
}
struct Slot<E>(E);
impl<E> PartialEq for Slot<E> {
    fn eq(&self, _: &Self) -> bool {
        true
    }
}
impl<E> Eq for Slot<E> {}
impl<E> PartialOrd for Slot<E> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl<E> Ord for Slot<E> {
    fn cmp(&self, _: &Self) -> std::cmp::Ordering {
        std::cmp::Ordering::Equal
    }
}
impl<E> Queue<E> {
    pub fn new() -> Self {
        Queue { h: BinaryHeap::new(), seq: 0 }
    }
    pub fn at(&mut self, t: u64, e: E) {
        self.seq += 1;
        self.h.push(Reverse((t, self.seq, Slot(e))));
    }
    pub fn pop(&mut self) -> Option<(u64, E)> {
        self.h.pop().map(|Reverse((t, _, Slot(e)))| (t, e))
    }
}

/// Simulated in-order byte pipe (one direction of a connection).
#[derive(Default)]
pub struct Pipe {
    pub epoch: u64,
    last: u64,
}

impl Pipe {
    /// cut `bytes` into fragments with delivery times; order is preserved
    pub fn send(&mut self, c: &mut Ctx, actor: u64, bytes: &[u8]) -> Vec<(u64, Vec<u8>)> {
        let mut out = Vec::new();
        let mut at = 0;
        let style = if c.calm { 0 } else { c.s.draw(5) };
        let mut n = 0;
        while at < bytes.len() {
            let left = bytes.len() - at;
            let l = match style {
                0 => left,
                1 if n < 64 => 1,
                2 if n < 12 => 1 + c.s.draw(left.min(9) as u64) as usize,
                3 if n < 6 => 1 + c.s.draw(left as u64) as usize,
                4 if n < 1 => left - left.min(1 + c.s.draw(3) as usize),
                _ => left,
            }
            .max(1)
            .min(left);
            let mut d = 1 + c.s.draw(200);
            if c.chaos(1, 24) {
                d += 5_000 + c.s.draw(40_000);
                c.fault("stall", actor);
            }
            let t = self.last.max(c.now) + d;
            self.last = t;
            out.push((t, bytes[at..at + l].to_vec()));
            at += l;
            n += 1;
        }
        if n > 1 {
            c.fault("fragment", actor);
        }
        out
    }
    pub fn reset(&mut self) {
        self.epoch += 1;
        self.last = 0;
    }
}

/// Simulated append-only file: `durable` survives a crash, `pending` may survive
/// as any prefix.
#[derive(Default, Clone)]
pub struct Disk {
    pub durable: Vec<u8>,
    pub pending: Vec<u8>,
}

pub enum AppendErr {
    Full,
}

impl Disk {
    /// append everything unless the disk is full; short writes are retried by the
    /// caller's loop in here, a full disk keeps the part already written
    pub fn append(&mut self, c: &mut Ctx, actor: u64, b: &[u8], faults: bool) -> Result<(), AppendErr> {
        let mut at = 0;
        while at < b.len() {
            let mut n = b.len() - at;
            if faults && n > 1 && c.chaos(1, 20) {
                n = 1 + c.s.draw(n as u64 - 1) as usize;
                c.fault("short-write", actor);
            }
            self.pending.extend_from_slice(&b[at..at + n]);
            at += n;
            if faults && at < b.len() && c.chaos(1, 6) {
                c.fault("disk-full", actor);
                return Err(AppendErr::Full);
            }
        }
        Ok(())
    }
    pub fn sync(&mut self) {
        self.durable.append(&mut self.pending);
    }
    pub fn crash(&mut self, c: &mut Ctx, actor: u64) {
        let n = self.pending.len();
        if n > 0 {
            let keep = match c.s.draw(3) {
                0 => 0,
                1 => c.s.draw(n as u64 + 1) as usize,
                _ => n - 1,
            };
            if keep == 0 {
                c.fault("lost-write", actor)
            } else if keep < n {
                c.fault("torn-write", actor)
            }
            let p = std::mem::take(&mut self.pending);
            self.durable.extend_from_slice(&p[..keep]);
        }
    }
    pub fn truncate(&mut self, at: usize) {
        self.durable.truncate(at);
        self.pending.clear();
    }
}
