//! Store-and-forward relay chain: every record must reach every node with
//! exactly the bytes the source had, whatever route each hop takes through the
//! library, through fragmentation, stalls, resets, duplicates and crashes.
use crate::api::*;
use crate::ctx::*;
use crate::refcbor::*;
use crate::rng::Src;
use cbored::tagged::EncodedCBOR;
use cbored::validate::Validator;
use cbored::*;

pub const RULE: &str = "a run is one relay chain (2-5 processes, 1-7 records) driven to completion under seeded fragmentation, stalls, resets, duplicates, torn and lost log writes, crashes and restarts; non-trivial: at least one fault fired and at least one element went through the library; distinct by the hash of every event, time and payload";

struct Proc {
    up: bool,
    /// records held in memory, in order
    store: Vec<Vec<u8>>,
    disk: Disk,
    ends: Vec<usize>,
    synced: usize,
    logfmt: u64,
    inbuf: Vec<u8>,
    ackbuf: Vec<u8>,
    acked: usize,
    sent: usize,
    mark: usize,
}

struct Hop {
    fmt: u64,
    down: Pipe,
    back: Pipe,
    route: u64,
}

enum E {
    Data(usize, u64, Vec<u8>),
    Ack(usize, u64, Vec<u8>),
    Tick(usize),
    Restart(usize),
}

fn lib<T>(d: Result<T, De>) -> Result<T, De> {
    d
}

/// one frame of a hop's protocol carrying a record
fn frame(fmt: u64, seq: u64, rec: &[u8], st: &mut Style) -> Result<Vec<u8>, De> {
    let mut w = Writer::new();
    let mut v = Validator::new(rec);
    let (s, _) = v.next().map_err(|e| De::Lib(verr(&e)))?;
    let two = [0u8, 1, 2, 4, 8][st.pick(5) as usize];
    match fmt {
        0 => w.array_build(to_sl(Some(two), 2), |w| {
            w.encode(&seq);
            w.encode(s)
        }),
        1 => w.array_build(StructureLength::Indefinite, |w| {
            w.encode(&seq);
            w.encode(&s.to_owned())
        }),
        2 => w.map_build(to_sl(Some(two), 1), |w| {
            w.encode(&seq);
            w.encode(s)
        }),
        3 => w.tag_build(TagValue::from_u64(seq), |w| w.encode(s)),
        4 => {
            w.encode(&seq);
            w.encode(s)
        }
        5 => w.array_build(2.into(), |w| {
            w.encode(&seq);
            w.encode(&EncodedCBOR::from_bytes(rec))
        }),
        6 => {
            let mut b = ArrayBuilder::new();
            b.append_encodable(&seq);
            b.append(s.to_owned());
            w.array(&b.finite().borrow())
        }
        7 => {
            let mut b = ArrayBuilder::new();
            b.append_encodable(&seq);
            b.append_encodable(&s.to_owned());
            w.array(&b.indefinite().borrow())
        }
        _ => w.map_build(StructureLength::Indefinite, |w| {
            w.encode(&seq);
            w.encode(s)
        }),
    }
    Ok(w.finalize())
}

/// take one frame off the front of `buf`: (seq, record bytes out of the route, frame length)
fn take(fmt: u64, buf: &[u8], recs: &[(Node, Vec<u8>)], route: u64, st: &mut Style) -> Result<(usize, Vec<u8>, usize), De> {
    let mut r = Reader::new(buf);
    let via = |seq: u64, s: &CborSlice, st: &mut Style| -> Result<(usize, Vec<u8>), De> {
        let i = seq as usize;
        if i >= recs.len() {
            return Err(De::Bad(Viol { class: "frame-changed".into(), msg: format!("sequence number {} arrived, never sent", seq) }));
        }
        let mut mr = s.reader();
        let out = forward(&mut mr, s.as_ref(), &recs[i].0, route, st)?;
        if !mr.is_finished() {
            return Err(De::Bad(Viol { class: "member-not-confined".into(), msg: "record reader not at its end".into() }));
        }
        Ok((i, out))
    };
    match fmt {
        0 | 1 | 5 | 6 | 7 => {
            let a = r.array()?;
            if a.len() != 2 {
                return Err(De::Bad(Viol { class: "frame-changed".into(), msg: format!("a frame of 2 members reads back with {}", a.len()) }));
            }
            let seq: u64 = a[0].decode()?;
            let n = r.consumed_bytes();
            if fmt == 5 {
                let e: EncodedCBOR = a[1].decode()?;
                let b = e.to_bytes();
                let i = seq as usize;
                if i >= recs.len() || b != recs[i].1 {
                    return Ok((i.min(recs.len() - 1), b, n));
                }
                let mut mr = Reader::new(&b);
                let out = forward(&mut mr, &b, &recs[i].0, route, st)?;
                return Ok((i, out, n));
            }
            let (i, out) = via(seq, a[1], st)?;
            Ok((i, out, n))
        }
        2 | 8 => {
            let m = r.map()?;
            if m.len() != 1 {
                return Err(De::Bad(Viol { class: "frame-changed".into(), msg: format!("a map of 1 entry reads back with {}", m.len()) }));
            }
            let n = r.consumed_bytes();
            let seq: u64 = m[0].0.decode()?;
            let (i, out) = via(seq, m[0].1, st)?;
            Ok((i, out, n))
        }
        3 => {
            let t = r.tag()?;
            let n = r.consumed_bytes();
            let (i, out) = via(t.value(), t.data(), st)?;
            Ok((i, out, n))
        }
        _ => {
            let seq: u64 = r.decode()?;
            let at = r.consumed_bytes();
            let i = seq as usize;
            if i >= recs.len() {
                return Err(De::Bad(Viol { class: "frame-changed".into(), msg: format!("sequence number {} arrived, never sent", seq) }));
            }
            // nothing of the record may have arrived yet
            if r.is_finished() {
                return Err(De::Lib(Ec::Missing(1, 0)));
            }
            let _ = at;
            let out = forward(&mut r, buf, &recs[i].0, route, st)?;
            Ok((i, out, r.consumed_bytes()))
        }
    }
}

/// is the first frame in `buf` complete, by the reference scanner?
fn complete(fmt: u64, buf: &[u8]) -> bool {
    match wf(buf) {
        Wf::Ok(n) if fmt == 4 => matches!(wf(&buf[n..]), Wf::Ok(_)),
        Wf::Ok(_) => true,
        _ => false,
    }
}

struct World {
    p: Vec<Proc>,
    h: Vec<Hop>,
    q: Queue<E>,
    recs: Vec<(Node, Vec<u8>)>,
    budget: u64,
    window: usize,
}

impl World {
    fn lost(&mut self, c: &mut Ctx, h: usize) {
        // the connection of hop h is gone: in-flight bytes and partial input vanish
        c.fault("connection-reset", h as u64);
        self.h[h].down.reset();
        self.h[h].back.reset();
        self.p[h + 1].inbuf.clear();
        self.p[h].ackbuf.clear();
        self.p[h].sent = self.p[h].acked;
    }

    fn pump(&mut self, c: &mut Ctx, h: usize) -> R {
        if !self.p[h].up || !self.p[h + 1].up {
            return Ok(());
        }
        while self.p[h].sent < self.p[h].synced && self.p[h].sent < self.p[h].acked + self.window {
            let i = self.p[h].sent;
            let mut st = c.style();
            let rec = self.p[h].store[i].clone();
            let f = must(c, frame(self.h[h].fmt, i as u64, &rec, &mut st), "valid-refused", || format!("framing record {}", short(&rec)))?;
            let want_tail: &[u8] = &rec;
            c.ev("send", h as u64, f.len() as u64);
            c.data(&f);
            if self.h[h].fmt == 3 || self.h[h].fmt == 4 {
                if !f.ends_with(want_tail) {
                    return viol("bytes-changed", format!("frame {} does not end with the record {}", hex(&f, 60), hex(want_tail, 60)));
                }
            }
            let e = self.h[h].down.epoch;
            for (t, b) in self.h[h].down.send(c, h as u64, &f) {
                self.q.at(t, E::Data(h, e, b));
            }
            self.p[h].sent += 1;
        }
        Ok(())
    }

    fn ack(&mut self, c: &mut Ctx, h: usize) {
        let n = self.p[h + 1].synced as u64;
        let mut w = Writer::new();
        w.encode(&n);
        let b = w.finalize();
        let e = self.h[h].back.epoch;
        for (t, b) in self.h[h].back.send(c, 100 + h as u64, &b) {
            self.q.at(t, E::Ack(h, e, b));
        }
    }

    fn sync(&mut self, c: &mut Ctx, n: usize) {
        self.p[n].disk.sync();
        self.p[n].synced = self.p[n].store.len();
        c.ev("sync", n as u64, self.p[n].synced as u64);
    }

    fn crash(&mut self, c: &mut Ctx, n: usize) {
        c.fault("crash", n as u64);
        let mut d = std::mem::take(&mut self.p[n].disk);
        d.crash(c, n as u64);
        self.p[n].disk = d;
        self.p[n].up = false;
        self.p[n].store.clear();
        if n > 0 {
            self.lost(c, n - 1);
        }
        if n + 1 < self.p.len() {
            self.lost(c, n);
        }
        self.p[n].acked = 0;
        self.p[n].sent = 0;
        let t = c.now + 500 + c.s.draw(20_000);
        self.q.at(t, E::Restart(n));
    }

    fn log_entry(&self, n: usize, i: usize, rec: &[u8], st: &mut Style) -> Result<Vec<u8>, De> {
        match self.p[n].logfmt {
            0 => Ok(rec.to_vec()),
            1 => frame(0, i as u64, rec, st),
            2 => Ok(enc(&EncodedCBOR::from_bytes(rec))),
            3 => frame(1, i as u64, rec, st),
            _ => {
                let d: CborDataOf<DataOwned> = decode_from_bytes(rec)?;
                Ok(enc(&d))
            }
        }
    }

    /// restart: scan the log with the validator, keep the complete records
    fn recover(&mut self, c: &mut Ctx, n: usize) -> R {
        let log = self.p[n].disk.durable.clone();
        let whole = self.p[n].ends.iter().filter(|e| **e <= log.len()).count();
        let mut got: Vec<Vec<u8>> = Vec::new();
        let mut at = 0;
        c.ops += 1;
        if !log.is_empty() {
            let mut v = Validator::new(&log);
            while v.remaining_bytes() > 0 {
                match v.next() {
                    Ok((s, d)) => {
                        let i = got.len();
                        at += d;
                        if i >= whole || at != self.p[n].ends[i] {
                            return viol("log-boundary", format!("log scan puts the end of record {} at {}, it was written to {:?}", i, at, self.p[n].ends.get(i)));
                        }
                        let raw: Vec<u8> = s.as_ref().to_vec();
                        let mut st = c.style();
                        let route = c.s.draw(ROUTES);
                        let rec = match self.p[n].logfmt {
                            0 | 4 => {
                                let mut r = s.reader();
                                must(c, forward(&mut r, &raw, &self.recs[i].0, route, &mut st), "valid-refused", || format!("stored record {}", hex(&raw, 60)))?
                            }
                            1 | 3 => {
                                let (j, b, _) = must(c, take(0, &raw, &self.recs, route, &mut st), "valid-refused", || format!("stored frame {}", hex(&raw, 60)))?;
                                if j != i {
                                    return viol("frame-changed", format!("log record {} reads back with sequence number {}", i, j));
                                }
                                b
                            }
                            _ => {
                                let e = must(c, s.decode::<EncodedCBOR>().map_err(De::from), "valid-refused", || format!("stored encoded-cbor {}", hex(&raw, 60)))?;
                                e.to_bytes()
                            }
                        };
                        self.same(c, n, i, &rec, "recovered from the log")?;
                        got.push(rec);
                    }
                    Err(e) => {
                        if !matches!(verr(&e), Ec::Missing(..)) {
                            return viol("valid-refused", format!("log scan failed at {} with {:?}, the log holds only whole records and one torn tail", at, e));
                        }
                        c.probe("torn-tail-found");
                        break;
                    }
                }
            }
        }
        if got.len() != whole {
            return viol("record-lost", format!("{} complete records survived the crash, the scan found {}", whole, got.len()));
        }
        self.p[n].disk.truncate(at);
        self.p[n].ends.truncate(whole);
        self.p[n].store = got;
        self.p[n].synced = whole;
        self.p[n].up = true;
        Ok(())
    }

    fn same(&self, c: &mut Ctx, n: usize, i: usize, rec: &[u8], how: &str) -> R {
        c.data(rec);
        if rec != &self.recs[i].1[..] {
            return viol(
                "bytes-changed",
                format!("record {} at process {} {}: {} instead of {}", i, n, how, hex(rec, 80), hex(&self.recs[i].1, 80)),
            );
        }
        Ok(())
    }

    fn arrived(&mut self, c: &mut Ctx, h: usize) -> R {
        let n = h + 1;
        loop {
            let buf = std::mem::take(&mut self.p[n].inbuf);
            if buf.is_empty() {
                return Ok(());
            }
            let mut st = c.style();
            let route = if c.s.chance(1, 3) { c.s.draw(ROUTES) } else { self.h[h].route };
            let full = complete(self.h[h].fmt, &buf);
            c.ops += 1;
            let got = lib(take(self.h[h].fmt, &buf, &self.recs, route, &mut st));
            match got {
                Err(De::Bad(v)) => return Err(v),
                Err(De::Lib(Ec::Missing(..))) if !full => {
                    self.p[n].inbuf = buf;
                    return Ok(());
                }
                Err(De::Lib(e)) => {
                    return viol(
                        "valid-refused",
                        format!("hop {} via {}: well-formed input {} refused with {:?}", h, ROUTE_NAMES[route as usize], hex(&buf, 80), e),
                    )
                }
                Ok((i, out, used)) => {
                    if !full {
                        return viol("torn-accepted", format!("hop {}: incomplete frame {} was accepted", h, hex(&buf, 80)));
                    }
                    c.probe(ROUTE_NAMES[route as usize]);
                    c.ev("recv", n as u64, i as u64);
                    c.note(|| format!("process {} got record {} via {}: {}", n, i, ROUTE_NAMES[route as usize], hex(&out, 40)));
                    self.same(c, n, i, &out, ROUTE_NAMES[route as usize])?;
                    self.p[n].inbuf = buf[used..].to_vec();
                    if i == self.p[n].store.len() {
                        let e = must(c, self.log_entry(n, i, &out, &mut st), "valid-refused", || format!("logging {}", hex(&out, 60)))?;
                        if self.p[n].logfmt == 4 && e != out {
                            return viol("bytes-changed", format!("typed data re-encodes {} as {}", hex(&out, 60), hex(&e, 60)));
                        }
                        let mut d = std::mem::take(&mut self.p[n].disk);
                        let ok = d.append(c, n as u64, &e, self.budget > 0);
                        self.p[n].disk = d;
                        match ok {
                            Ok(()) => {
                                let end = self.p[n].disk.durable.len() + self.p[n].disk.pending.len();
                                self.p[n].ends.push(end);
                                self.p[n].store.push(out);
                            }
                            Err(_) => {
                                // the disk is full with half a record in it: restart and recover
                                self.budget = self.budget.saturating_sub(1);
                                self.crash(c, n);
                                return Ok(());
                            }
                        }
                        if self.budget > 0 && c.chaos(1, 12) {
                            self.budget -= 1;
                            self.crash(c, n);
                            return Ok(());
                        }
                        if c.calm || c.s.chance(2, 3) {
                            self.sync(c, n);
                            self.ack(c, h);
                            if n + 1 < self.p.len() {
                                self.pump(c, n)?;
                            }
                        }
                    } else if i < self.p[n].store.len() {
                        c.probe("duplicate-dropped");
                        self.ack(c, h);
                    }
                }
            }
        }
    }
}

fn short(b: &[u8]) -> String {
    hex(b, 60)
}

/// a string of thousands of small chunks, by itself or as a member
fn chunky(s: &mut Src) -> Node {
    let n = match s.draw(12) {
        11 => 65_530 + s.draw(12),
        k => [257u64, 1023, 1025, 4094, 4097, 5000][k as usize % 6],
    };
    let (k, at) = (s.draw(2), s.draw(n));
    let chunks = (0..n)
        .map(|i| {
            let l = k + (i == at) as u64;
            (0, (0..l).map(|j| b'a' + ((i * 7 + j) % 26) as u8).collect())
        })
        .collect();
    let t = if s.chance(1, 2) { Node::T(Str::I(chunks)) } else { Node::B(Str::I(chunks)) };
    match s.draw(4) {
        0 => Node::A(Some(0), vec![Node::U(0, 1), t]),
        1 => Node::G(0, 5, Box::new(t)),
        _ => t,
    }
}

pub fn run(c: &mut Ctx) -> R {
    c.calm = c.s.chance(1, 5);
    let g = Gen::swarm(&mut c.s);
    let nrec = 1 + c.s.draw(7) as usize;
    let nproc = 2 + c.s.draw(4) as usize;
    let mut recs: Vec<(Node, Vec<u8>)> = (0..nrec)
        .map(|_| {
            let n = g.node(&mut c.s);
            let b = n.enc();
            (n, b)
        })
        .collect();
    if c.s.chance(1, 150) {
        // one record is a string in very many chunks
        let k = c.s.draw(nrec as u64) as usize;
        let n = chunky(&mut c.s);
        recs[k] = (n.clone(), n.enc());
    }
    let mk = |src: bool, logfmt: u64| Proc {
        up: true,
        store: if src { recs.iter().map(|r| r.1.clone()).collect() } else { vec![] },
        disk: Disk::default(),
        ends: vec![],
        synced: if src { nrec } else { 0 },
        logfmt,
        inbuf: vec![],
        ackbuf: vec![],
        acked: 0,
        sent: 0,
        mark: 0,
    };
    let p = (0..nproc).map(|i| mk(i == 0, c.s.draw(5))).collect();
    let h = (0..nproc - 1)
        .map(|_| Hop { fmt: c.s.draw(9), down: Pipe::default(), back: Pipe::default(), route: c.s.draw(ROUTES) })
        .collect();
    let budget = if c.calm { 0 } else { c.s.draw(7) };
    let window = 1 + c.s.draw(4) as usize;
    let mut w = World { p, h, q: Queue::new(), recs, budget, window };
    for i in 0..w.recs.len() {
        let b = w.recs[i].1.clone();
        c.note(|| format!("record {}: {}", i, hex(&b, 100)));
    }
    for i in 0..nproc - 1 {
        w.q.at(c.s.draw(300), E::Tick(i));
    }
    let mut n = 0;
    while let Some((t, e)) = w.q.pop() {
        c.now = t;
        n += 1;
        if n > 60_000 {
            return viol("no-progress", format!("{} events after the start not every record has arrived: {:?}", n, w.p.iter().map(|p| p.store.len()).collect::<Vec<_>>()));
        }
        match e {
            E::Tick(h) => {
                let done = w.p.iter().all(|p| p.up && p.synced == nrec);
                if done {
                    break;
                }
                if w.p[h].up && w.p[h + 1].up {
                    if w.p[h + 1].synced < w.p[h + 1].store.len() {
                        w.sync(c, h + 1);
                        w.ack(c, h);
                    }
                    if w.p[h].acked == w.p[h].mark && w.p[h].sent > w.p[h].acked {
                        // nothing acknowledged since the last tick: send again
                        c.ev("retransmit", h as u64, w.p[h].acked as u64);
                        w.p[h].sent = w.p[h].acked;
                    }
                    w.p[h].mark = w.p[h].acked;
                    if w.budget > 0 && c.chaos(1, 10) {
                        w.budget -= 1;
                        match c.s.draw(3) {
                            0 => w.lost(c, h),
                            1 => {
                                c.fault("duplicate", h as u64);
                                w.p[h].sent = 0;
                                w.p[h].acked = 0
                            }
                            _ => {
                                let n = 1 + c.s.draw(nproc as u64 - 1) as usize;
                                if w.p[n].up {
                                    w.crash(c, n)
                                }
                            }
                        }
                    }
                    w.pump(c, h)?;
                }
                let d = 20_000 + c.s.draw(20_000);
                w.q.at(c.now + d, E::Tick(h));
            }
            E::Data(h, ep, b) => {
                if w.h[h].down.epoch == ep && w.p[h + 1].up {
                    w.p[h + 1].inbuf.extend_from_slice(&b);
                    c.ev("data", h as u64, b.len() as u64);
                    w.arrived(c, h)?;
                }
            }
            E::Ack(h, ep, b) => {
                if w.h[h].back.epoch == ep && w.p[h].up {
                    w.p[h].ackbuf.extend_from_slice(&b);
                    while !w.p[h].ackbuf.is_empty() {
                        let buf = w.p[h].ackbuf.clone();
                        let mut r = Reader::new(&buf);
                        match r.decode::<u64>() {
                            Ok(v) => {
                                let used = r.consumed_bytes();
                                c.ev("ack", h as u64, v);
                                if v as usize > w.p[h + 1].synced {
                                    return viol("frame-changed", format!("acknowledgement {} was never sent", v));
                                }
                                w.p[h].acked = w.p[h].acked.max((v as usize).min(w.p[h].store.len()));
                                w.p[h].sent = w.p[h].sent.max(w.p[h].acked);
                                w.p[h].ackbuf.drain(..used);
                            }
                            Err(e) if matches!(derr(&e), Ec::Missing(..)) => break,
                            Err(e) => return viol("valid-refused", format!("acknowledgement {} refused: {:?}", hex(&buf, 20), derr(&e))),
                        }
                    }
                    w.pump(c, h)?;
                }
            }
            E::Restart(n) => {
                c.ev("restart", n as u64, 0);
                w.recover(c, n)?;
                if w.budget > 0 && c.chaos(1, 8) {
                    // crash again straight after recovery
                    w.budget -= 1;
                    w.crash(c, n);
                } else {
                    w.ack(c, n - 1);
                    if n + 1 < nproc {
                        // learn from downstream what it already has
                        w.ack(c, n);
                        w.pump(c, n)?;
                    }
                    w.pump(c, n - 1)?;
                }
            }
        }
    }
    for (n, p) in w.p.iter().enumerate() {
        for (i, b) in p.store.iter().enumerate() {
            w.same(c, n, i, b, "at the end")?;
        }
        if p.store.len() != nrec {
            return viol("no-progress", format!("process {} holds {} of {} records", n, p.store.len(), nrec));
        }
    }
    Ok(())
}
