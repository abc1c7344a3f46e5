//! Peers of different versions exchange and store derived records: foreign
//! encoders and relays re-encode them, the network tears, repeats and damages
//! them, peers crash and replay their logs.
use crate::api::*;
use crate::ctx::*;
use crate::refcbor::*;
use crate::scen::hostile::{foreign, restruct, shallow};
use crate::zoo::{self, enc_nodes, parse_seq, RecTy};
use cbored::*;

pub const RULE: &str = "a run is 2-5 peers (each with its own version of the record types) exchanging 1-8 derived records over 1-4 hops with foreign re-encoders, torn, repeated, damaged and restructured deliveries, and logs replayed after crashes; every delivery is decoded by the receiver's types and judged by an independent layout table; non-trivial: at least one fault fired and at least one decode was judged; distinct by the hash of every event, time and payload";

struct Peer {
    up: bool,
    /// newest version of the types?
    new: bool,
    foreign: bool,
    disk: Disk,
    /// frames written: type name, bytes, what they decoded to
    mem: Vec<(&'static str, Vec<u8>, Vec<Node>)>,
    synced: usize,
}

#[derive(Clone)]
struct Job {
    id: usize,
    ty: RecTy,
    hop: usize,
    path: Vec<usize>,
    bytes: Vec<u8>,
    marks: Vec<usize>,
    tries: u64,
    /// value before the hop, for conservation
    value: Vec<Node>,
}

enum E {
    Send(Job),
    /// hop attempt's fragments arrive: (job, fragments left, assembled)
    Part(Job, Vec<(u64, Vec<u8>)>, Vec<u8>),
    Restart(usize),
}

/// the layout table's answer on the start of a buffer: value and length
fn first(t: &RecTy, b: &[u8]) -> Option<(Vec<Node>, usize)> {
    let mut nodes = vec![];
    let mut at = 0;
    while at < b.len() && nodes.len() < if t.flat { 8 } else { 1 } {
        let (n, l) = parse(&b[at..])?;
        nodes.push(n);
        at += l;
        if let Some(v) = (t.refdec)(&nodes) {
            return Some((v, at));
        }
    }
    None
}
fn whole(t: &RecTy, b: &[u8]) -> Option<Vec<Node>> {
    (t.refdec)(&parse_seq(b, None)?)
}

fn say(t: &RecTy, how: &str, b: &[u8]) -> String {
    format!("{} {} of {}", t.name, how, hex(b, 100))
}

fn settle(c: &mut Ctx, t: &RecTy, how: &'static str, b: &[u8], got: Result<Vec<Node>, De>, want: Option<Vec<Node>>) -> R<Option<Vec<Node>>> {
    c.probe(how);
    match (got, want) {
        (Err(De::Bad(v)), _) => Err(v),
        (Ok(n), None) => viol("invalid-accepted", format!("{} is accepted as {}", say(t, how, b), hex(&enc_nodes(&n), 80))),
        (Err(De::Lib(e)), Some(_)) => viol("valid-refused", format!("{} fails: {:?}", say(t, how, b), e)),
        (Ok(n), Some(w)) => {
            c.data(&enc_nodes(&n));
            if n != w {
                return viol("value-changed", format!("{} gives {} instead of {}", say(t, how, b), hex(&enc_nodes(&n), 80), hex(&enc_nodes(&w), 80)));
            }
            c.probe("accepted");
            Ok(Some(w))
        }
        (Err(De::Lib(_)), None) => {
            c.probe("refused");
            Ok(None)
        }
    }
}

/// decode `b` as `t` in some way and compare with the layout table
fn judge(c: &mut Ctx, t: &RecTy, b: &[u8]) -> R<Option<Vec<Node>>> {
    c.ops += 1;
    let mut st = c.style();
    if !shallow(b) {
        return Ok(None);
    }
    match c.s.draw(6) {
        1 => {
            let want = first(t, b);
            let got = (t.dec)(b, &mut st);
            let got = match got {
                Ok((n, re, used)) => {
                    if let Some((w, l)) = &want {
                        if used != *l {
                            return viol("boundary", format!("{} consumes {} and not {}", say(t, "decode", b), used, l));
                        }
                        if re != enc_nodes(w) {
                            return viol("reencode", format!("{} encodes again as {} and not {}", say(t, "decode", b), hex(&re, 80), hex(&enc_nodes(w), 80)));
                        }
                    }
                    Ok(n)
                }
                Err(e) => Err(e),
            };
            settle(c, t, "decode", b, got, want.map(|x| x.0))
        }
        2 if !t.flat => {
            let want = first(t, b);
            let got = (t.typed)(b, &mut st);
            let got = match got {
                Ok((raw, n)) => {
                    if let Some((_, l)) = &want {
                        if raw != b[..*l] {
                            return viol("bytes-changed", format!("{} keeps {}", say(t, "typed data", b), hex(&raw, 80)));
                        }
                    }
                    Ok(n)
                }
                Err(e) => Err(e),
            };
            settle(c, t, "typed-data", b, got, want.map(|x| x.0))
        }
        3 if !t.flat => {
            // as the last member of a batch whose others are intact
            let v0 = c.s.draw(3);
            let mut good = vec![];
            for _ in 0..v0 {
                good.push((t.gen)(&Gen::plain(), &mut c.s));
            }
            let want = match (whole(t, b), parse_seq(b, Some(1))) {
                (Some(w), Some(_)) => Some(w),
                _ => None,
            };
            let mut buf = vec![];
            let indef = c.s.chance(1, 2);
            if indef {
                buf.push(0x9f)
            } else {
                head(&mut buf, 4, min_w(v0 + 1), v0 + 1)
            }
            for g in &good {
                buf.extend_from_slice(&enc_nodes(g))
            }
            buf.extend_from_slice(b);
            if indef {
                buf.push(0xff)
            }
            // what the array turns out to hold
            let want = if want.is_some() {
                let mut all = good.clone();
                all.extend(want);
                Some((all, buf.len()))
            } else {
                match parse(&buf) {
                    Some((Node::A(_, v), l)) => v.iter().map(|x| (t.refdec)(std::slice::from_ref(x))).collect::<Option<Vec<_>>>().map(|v| (v, l)),
                    _ => None,
                }
            };
            let got = (t.vec_get)(&buf);
            c.probe("batch");
            match (got, want) {
                (Err(De::Bad(v)), _) => Err(v),
                (Ok((v, _)), None) => viol("invalid-accepted", format!("{} is accepted as {} values", say(t, "batch", &buf), v.len())),
                (Err(De::Lib(e)), Some(_)) => viol("valid-refused", format!("{} fails: {:?}", say(t, "batch", &buf), e)),
                (Ok((v, l)), Some((w, m))) => {
                    if v != w || l != m {
                        return viol("value-changed", say(t, "batch", &buf));
                    }
                    // sent on as a batch
                    let mut wr = Writer::new();
                    if !(t.vec_put)(&v, &mut wr) {
                        return viol("harness", "batch cannot be rebuilt");
                    }
                    let out = wr.finalize();
                    let mut exp = vec![];
                    head(&mut exp, 4, min_w(v.len() as u64), v.len() as u64);
                    for x in &v {
                        exp.extend_from_slice(&enc_nodes(x))
                    }
                    if out != exp {
                        return viol("reencode", format!("{} encodes again as {}", say(t, "batch", &buf), hex(&out, 80)));
                    }
                    Ok(if parse_seq(b, Some(1)).is_some() { whole(t, b) } else { None })
                }
                (Err(De::Lib(_)), None) => Ok(None),
            }
        }
        4 => {
            let want = whole(t, b);
            if let Some(w) = &want {
                c.probe("equality");
                let same = must(c, (t.eq)(w, b), "valid-refused", || say(t, "decode", b))?;
                if !same {
                    return viol("value-changed", format!("{} is not equal to the value that was sent", say(t, "decode", b)));
                }
                return Ok(want);
            }
            let got = (t.whole)(b, &mut st);
            settle(c, t, "decode-whole", b, got, want)
        }
        _ => {
            let want = whole(t, b);
            let got = (t.whole)(b, &mut st);
            settle(c, t, "decode-whole", b, got, want)
        }
    }
}

struct World {
    p: Vec<Peer>,
    q: Queue<E>,
    budget: u64,
    pipe: Vec<Pipe>,
}

/// the version of a record type a peer uses
fn version(t: &RecTy, new: bool) -> RecTy {
    for (o, n) in zoo::SKEW {
        if t.name == *o || t.name == *n {
            return zoo::by_name(if new { n } else { o });
        }
    }
    *t
}

fn encode(c: &mut Ctx, t: &RecTy, value: &[Node]) -> R<Vec<u8>> {
    let mut st = c.style();
    c.ops += 1;
    let b = match (t.enc)(value, &mut st) {
        Some(b) => b,
        None => return viol("harness", format!("{} cannot be built from its own nodes", t.name)),
    };
    if b != enc_nodes(value) {
        return viol("layout", format!("{} is encoded as {} and not as {}", t.name, hex(&b, 100), hex(&enc_nodes(value), 100)));
    }
    Ok(b)
}

fn frame(name: &str, b: &[u8]) -> Vec<u8> {
    let mut f = (b.len() as u32).to_be_bytes().to_vec();
    f.push(name.len() as u8);
    f.extend_from_slice(name.as_bytes());
    f.extend_from_slice(b);
    f
}

impl World {
    fn crash(&mut self, c: &mut Ctx, n: usize) {
        c.fault("crash", n as u64);
        let mut d = std::mem::take(&mut self.p[n].disk);
        d.crash(c, n as u64);
        self.p[n].disk = d;
        self.p[n].up = false;
        let t = c.now + 300 + c.s.draw(5000);
        self.q.at(t, E::Restart(n));
    }

    /// replay the log: every complete record decodes to what it was
    fn replay(&mut self, c: &mut Ctx, n: usize) -> R {
        let log = self.p[n].disk.durable.clone();
        let mem = std::mem::take(&mut self.p[n].mem);
        let mut at = 0;
        let mut keep = vec![];
        for m in mem {
            let f = frame(m.0, &m.1);
            if log.len() < at + f.len() {
                // the tail of the log is torn inside this record
                let head = 5 + m.0.len();
                if log.len() > at + head {
                    let t = zoo::by_name(m.0);
                    c.probe("torn-record");
                    judge(c, &t, &log[at + head..])?;
                }
                break;
            }
            let t = zoo::by_name(m.0);
            let b = &log[at + 5 + m.0.len()..at + f.len()];
            let got = judge(c, &t, b)?;
            if let Some(g) = got {
                if g != m.2 {
                    return viol("value-changed", format!("stored {} reads back as {}", say(&t, "record", b), hex(&enc_nodes(&g), 80)));
                }
            } else {
                return viol("valid-refused", format!("stored {}", say(&t, "record", b)));
            }
            if c.chaos(1, 20) {
                // bit rot in the stored record
                let mut d = b.to_vec();
                let k = damage(&mut c.s, &mut d, &[]);
                c.fault(DAMAGE[k], n as u64);
                judge(c, &t, &d)?;
            }
            at += f.len();
            keep.push(m);
        }
        self.p[n].disk.truncate(at);
        self.p[n].synced = keep.len();
        self.p[n].mem = keep;
        self.p[n].up = true;
        c.probe("log-replayed");
        Ok(())
    }

    /// a delivery is complete at the receiver
    fn arrived(&mut self, c: &mut Ctx, mut j: Job, b: Vec<u8>, n: usize) -> R {
        let intact = b == j.bytes;
        let t = version(&j.ty, self.p[n].new);
        c.ev("arrive", n as u64, j.id as u64);
        c.note(|| format!("peer {} gets {}", n, say(&t, if intact { "a copy" } else { "a damaged copy" }, &b)));
        let got = judge(c, &t, &b)?;
        if c.s.chance(1, 8) {
            // somebody else's type
            let all = zoo::all();
            let o = all[c.s.draw(all.len() as u64) as usize];
            c.probe("other-type");
            judge(c, &o, &b)?;
        }
        if !intact {
            // the sender's copy is still there: it sends again
            c.probe("retransmit");
            j.tries += 1;
            let d = 200 + c.s.draw(3000);
            self.q.at(c.now + d, E::Send(j));
            return Ok(());
        }
        let got = match got {
            Some(g) => g,
            None => {
                // an older peer cannot read a newer record that uses the new parts: routed past it
                if t.name == j.ty.name && shallow(&b) && whole(&t, &b).is_some() && parse_seq(&b, None).map_or(false, |v| v.len() == 1 || t.flat) {
                    return viol("valid-refused", say(&t, "record", &b));
                }
                c.probe("skew-refused");
                j.hop += 1;
                if j.hop + 1 < j.path.len() {
                    let d = 100 + c.s.draw(1000);
                    self.q.at(c.now + d, E::Send(j));
                }
                return Ok(());
            }
        };
        if t.name != j.ty.name {
            c.probe("skew-accepted");
        }
        // a retry of something already there changes nothing
        if c.chaos(1, 6) {
            c.fault("duplicate", n as u64);
            let again = judge(c, &t, &b)?;
            if again.as_ref() != Some(&got) {
                return viol("value-changed", format!("{} gives another value the second time", say(&t, "record", &b)));
            }
        }
        // store
        let f = frame(t.name, &b);
        let mut d = std::mem::take(&mut self.p[n].disk);
        let ok = d.append(c, n as u64, &f, self.budget > 0);
        self.p[n].disk = d;
        match ok {
            Ok(()) => self.p[n].mem.push((t.name, b.clone(), got.clone())),
            Err(_) => {
                self.budget = self.budget.saturating_sub(1);
                // what was half written is the start of a record
                self.p[n].mem.push((t.name, b.clone(), got.clone()));
                self.crash(c, n);
                j.tries += 1;
                self.q.at(c.now + 8000, E::Send(j));
                return Ok(());
            }
        }
        if c.s.chance(2, 3) {
            self.p[n].disk.sync();
            self.p[n].synced = self.p[n].mem.len();
        }
        // and send on
        j.hop += 1;
        if j.hop + 1 < j.path.len() {
            let (bytes, marks) = if self.p[n].foreign {
                // a foreign implementation encodes the same data its own way
                c.fault("foreign-encoder", n as u64);
                let nodes = parse_seq(&b, None).unwrap_or_default();
                let (wi, ind, sh) = (c.s.draw(101), c.s.draw(60), c.s.chance(1, 2));
                let mut bytes = vec![];
                let mut marks = vec![];
                for x in &nodes {
                    let (eb, em) = foreign(&mut c.s, x, wi, ind, sh).enc_marks();
                    marks.extend(em.iter().map(|y| y + bytes.len()));
                    bytes.extend_from_slice(&eb);
                }
                (bytes, marks)
            } else if c.s.chance(1, 2) {
                // decoded and encoded again by this peer's version
                j.ty = t;
                (encode(c, &t, &got)?, vec![])
            } else {
                (b, j.marks.clone())
            };
            // conservation: what goes on is the same value
            if let Some(w) = whole(&j.ty, &bytes) {
                if !self.p[n].foreign && w != got && j.ty.name == t.name {
                    return viol("value-changed", format!("{} sends on {}", say(&t, "record", &enc_nodes(&got)), hex(&bytes, 80)));
                }
                j.value = w;
            }
            j.bytes = bytes;
            j.marks = marks;
            let d = 100 + c.s.draw(1000);
            self.q.at(c.now + d, E::Send(j));
        }
        Ok(())
    }
}

pub fn run(c: &mut Ctx) -> R {
    c.calm = c.s.chance(1, 6);
    let g = Gen::swarm(&mut c.s);
    let recs = zoo::all();
    let np = 2 + c.s.draw(4) as usize;
    let mut p = vec![];
    for _ in 0..np {
        p.push(Peer {
            up: true,
            new: c.s.chance(1, 2),
            foreign: c.s.chance(1, 3),
            disk: Disk::default(),
            mem: vec![],
            synced: 0,
        });
    }
    let budget = if c.calm { 0 } else { c.s.draw(8) };
    let mut w = World { p, q: Queue::new(), budget, pipe: (0..np).map(|_| Pipe::default()).collect() };
    // a run favours a few types
    let nt = 1 + c.s.draw(5) as usize;
    let mut favour = vec![];
    for _ in 0..nt {
        favour.push(recs[c.s.draw(recs.len() as u64) as usize]);
    }
    let nj = 1 + c.s.draw(8) as usize;
    for id in 0..nj {
        let t0 = favour[c.s.draw(nt as u64) as usize];
        let hops = 1 + c.s.draw(4) as usize;
        let mut path = vec![];
        for _ in 0..=hops {
            path.push(c.s.draw(np as u64) as usize);
        }
        let t = version(&t0, w.p[path[0]].new);
        let value = (t.gen)(&g, &mut c.s);
        let bytes = encode(c, &t, &value)?;
        c.note(|| format!("record {} for peers {:?}: {}", id, path, say(&t, "encoding", &bytes)));
        // both sides of an upgrade
        for (o, n) in zoo::SKEW {
            if t.name == *o {
                let nt = zoo::by_name(n);
                if whole(&nt, &bytes).is_none() {
                    return viol("harness", format!("{} does not extend {}", n, o));
                }
            }
        }
        let mut marks = vec![];
        let mut at = 0;
        for n in &value {
            let (b, m) = n.enc_marks();
            marks.extend(m.iter().map(|x| x + at));
            at += b.len();
        }
        let d = c.s.draw(500);
        w.q.at(d, E::Send(Job { id, ty: t, hop: 0, path, bytes, marks, tries: 0, value }));
    }
    let mut n = 0;
    while let Some((t, e)) = w.q.pop() {
        c.now = t;
        n += 1;
        if n > 20_000 {
            return viol("no-progress", "records do not arrive");
        }
        match e {
            E::Send(j) => {
                let to = j.path[j.hop + 1];
                if !w.p[to].up {
                    let d = 2000 + c.s.draw(2000);
                    w.q.at(c.now + d, E::Send(j));
                    continue;
                }
                let mut b = j.bytes.clone();
                if j.tries < 4 && c.chaos(1, 2) {
                    match c.s.draw(4) {
                        0 => {
                            let k = damage(&mut c.s, &mut b, &j.marks);
                            c.fault(DAMAGE[k], to as u64);
                        }
                        k => {
                            // a buggy or misconfigured peer: one structural mistake, sometimes two
                            if let Some(mut nodes) = parse_seq(&b, None) {
                                for _ in 0..(1 + (k == 3) as u64) {
                                    if let Some(name) = restruct(&mut c.s, &mut nodes) {
                                        c.fault(name, to as u64);
                                    }
                                }
                                if c.s.chance(1, 3) {
                                    nodes = nodes.iter().map(|x| foreign(&mut c.s, x, 40, 20, true)).collect();
                                }
                                b = enc_nodes(&nodes);
                            }
                        }
                    }
                }
                c.ev("send", to as u64, j.id as u64);
                let mut pipe = std::mem::take(&mut w.pipe[to]);
                let frags = if b.is_empty() { vec![(c.now + 1, vec![])] } else { pipe.send(c, to as u64, &b) };
                w.pipe[to] = pipe;
                let at = frags[0].0;
                w.q.at(at, E::Part(j, frags, vec![]));
            }
            E::Part(mut j, mut frags, mut got) => {
                let to = j.path[j.hop + 1];
                if !w.p[to].up {
                    // connection lost with the peer
                    j.tries += 1;
                    let d = 2000 + c.s.draw(2000);
                    w.q.at(c.now + d, E::Send(j));
                    continue;
                }
                let (_, f) = frags.remove(0);
                got.extend_from_slice(&f);
                c.ev("part", to as u64, f.len() as u64);
                if frags.is_empty() {
                    w.arrived(c, j, got, to)?;
                } else {
                    if c.s.chance(1, 4) {
                        // an eager receiver tries what is there
                        let t = version(&j.ty, w.p[to].new);
                        c.probe("torn-attempt");
                        judge(c, &t, &got)?;
                    }
                    if c.chaos(1, 40) {
                        c.fault("connection-reset", to as u64);
                        j.tries += 1;
                        let d = 500 + c.s.draw(2000);
                        w.q.at(c.now + d, E::Send(j));
                        continue;
                    }
                    let at = frags[0].0.max(c.now);
                    w.q.at(at, E::Part(j, frags, got));
                }
                if w.budget > 0 && c.chaos(1, 12) {
                    w.budget -= 1;
                    let v = c.s.draw(np as u64) as usize;
                    if w.p[v].up {
                        w.crash(c, v);
                    }
                }
            }
            E::Restart(n) => {
                c.ev("restart", n as u64, 0);
                w.replay(c, n)?;
            }
        }
    }
    // at the end every peer goes through its log once more
    for n in 0..np {
        w.p[n].disk.sync();
        w.replay(c, n)?;
    }
    Ok(())
}
