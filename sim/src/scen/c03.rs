//! Append-only element log: a writer appends and syncs, crashes at arbitrary
//! points with torn tails, recovers by scanning and resumes; readers scan the
//! durable part with every kind of stepping; a tail follower keeps up.
use crate::api::*;
use crate::ctx::*;
use crate::entry::*;
use crate::refcbor::*;
use crate::scen::c02::{item, pick_entry, Item};
use crate::zoo;
use cbored::state::State;
use cbored::validate::Validator;
use cbored::*;

pub const RULE: &str = "a run is one element log with a writer, scanners and a tail follower over 2-40 append/sync/crash/recover/scan events with short, torn and lost writes and a full disk; non-trivial: at least one fault fired and at least one scan was judged; distinct by the hash of every event, time and payload";

/// one stored element
struct El {
    node: Node,
    end: usize,
}

struct World {
    disk: Disk,
    /// everything appended and not lost, in order
    els: Vec<El>,
    synced: usize,
    /// follower: bytes taken, elements seen
    f_at: usize,
    f_n: usize,
}

impl World {
    fn len(&self) -> usize {
        self.disk.durable.len() + self.disk.pending.len()
    }
    fn complete(&self, upto: usize) -> usize {
        self.els.iter().filter(|e| e.end <= upto).count()
    }
    fn start(&self, i: usize) -> usize {
        if i == 0 {
            0
        } else {
            self.els[i - 1].end
        }
    }

    /// scan `buf` = durable[base..] where element `first` starts at its beginning.
    /// Returns the number of whole elements found.
    fn scan(&self, c: &mut Ctx, buf: &[u8], first: usize) -> R<usize> {
        let base = self.start(first);
        let want = self.complete(base + buf.len()) - first;
        let torn = base + buf.len() != self.start(first + want);
        let how = c.s.draw(6);
        c.ops += 1;
        let n = match how {
            0 | 1 => self.by_validator(c, buf, first, want, torn)?,
            2 => self.by_state(c, buf, first, want, torn)?,
            _ => self.by_reader(c, buf, first, want, torn)?,
        };
        if torn {
            c.probe("torn-tail-found");
        }
        Ok(n)
    }

    fn by_validator(&self, c: &mut Ctx, buf: &[u8], first: usize, want: usize, torn: bool) -> R<usize> {
        c.probe("scan-validator");
        let base = self.start(first);
        let mut v = Validator::new(buf);
        let mut at = 0;
        let mut st = c.style();
        for i in 0..want {
            let el = &self.els[first + i];
            let len = el.end - base - at;
            if v.remaining_bytes() != buf.len() - at {
                return viol("boundary", format!("validator: {} bytes remain at {} of {}", v.remaining_bytes(), at, buf.len()));
            }
            match v.next() {
                Ok((s, d)) => {
                    if d != len || s.as_ref() != &buf[at..at + len] {
                        return viol(
                            "boundary",
                            format!("validator: element {} at {} is {} with size {}, written was {} with size {}", i, at, hex(s.as_ref(), 40), d, hex(&buf[at..at + len], 40), len),
                        );
                    }
                    if !inside(buf, s.as_ref()) || s.as_ref().as_ptr() as usize != buf.as_ptr() as usize + at {
                        return viol("boundary", "validator: slice is not the element's place in the input");
                    }
                    match st.pick(4) {
                        0 => {
                            let mut r = s.reader();
                            let n = must(c, deep(&mut r, &mut st), "valid-refused", || format!("reading validated element {}", hex(s.as_ref(), 60)))?;
                            if n != el.node {
                                return viol("result", format!("element {} reads as {}", el.node.short(), n.short()));
                            }
                            if !r.is_finished() {
                                return viol("boundary", "reader of a validated element is not finished after it");
                            }
                        }
                        1 => {
                            // a validator on the element alone ends with it
                            let mut v2 = Validator::new(s.as_ref());
                            match v2.next() {
                                Ok((_, d2)) if d2 == len && v2.remaining_bytes() == 0 => (),
                                o => return viol("boundary", format!("validating an element alone: {:?}", o.map(|x| x.1).map_err(|e| verr(&e)))),
                            }
                        }
                        _ => (),
                    }
                    at += len;
                }
                Err(e) => return viol("valid-refused", format!("validator: element {} at {} ({}) refused: {:?}", i, at, hex(&buf[at..], 40), e)),
            }
        }
        if v.remaining_bytes() != buf.len() - at {
            return viol("boundary", format!("validator: {} bytes remain after the last whole element, {} are there", v.remaining_bytes(), buf.len() - at));
        }
        match v.next() {
            Ok((s, _)) => return viol("torn-accepted", format!("validator: takes {} for an element, the log is torn there", hex(s.as_ref(), 40))),
            Err(e) => {
                if !matches!(verr(&e), Ec::Missing(..)) {
                    return viol("torn-error", format!("validator: {:?} at the {} of the log: {}", e, if torn { "torn tail" } else { "end" }, hex(&buf[at..], 40)));
                }
            }
        }
        Ok(want)
    }

    fn by_state(&self, c: &mut Ctx, buf: &[u8], first: usize, want: usize, torn: bool) -> R<usize> {
        c.probe("scan-state");
        let base = self.start(first);
        let mut s = State::new();
        let reuse = c.s.chance(1, 2);
        let mut at = 0;
        let mut i = 0;
        let mut from = 0;
        loop {
            let l = match lead(&buf[at..]) {
                Ok(l) => l,
                Err(_) => break,
            };
            if let Err(e) = state_feed(&mut s, l) {
                return viol("valid-refused", format!("state machine refuses the header at {} of {}: {}", at - from, hex(&buf[from..], 60), e));
            }
            at += match l {
                Lead::Val { size, .. } => size,
                _ => 1,
            };
            if let Lead::Val { major: 2 | 3, v, .. } = l {
                if v > (buf.len() - at) as u64 {
                    // content torn away
                    i = i.min(want);
                    if i != want {
                        return viol("harness", "reference lost count");
                    }
                    return Ok(want);
                }
                at += v as usize;
            }
            let end = i < want && at == self.els[first + i].end - base;
            if s.acceptable() != end {
                return viol(
                    "boundary",
                    format!("state machine: acceptable() is {} at {} of element {} ({})", s.acceptable(), at - from, hex(&buf[from..], 60), if end { "its end" } else { "inside" }),
                );
            }
            if end {
                i += 1;
                from = at;
                if !reuse {
                    s = State::new();
                }
            }
        }
        if i != want {
            return viol("boundary", format!("state machine: {} elements found, {} are whole", i, want));
        }
        let _ = torn;
        Ok(want)
    }

    fn by_reader(&self, c: &mut Ctx, buf: &[u8], first: usize, want: usize, torn: bool) -> R<usize> {
        c.probe("scan-reader");
        let base = self.start(first);
        let mut r = Reader::new(buf);
        let mut at = 0;
        let mut st = c.style();
        let mode = c.s.draw(4);
        for i in 0..want {
            let el = &self.els[first + i];
            let len = el.end - base - at;
            self.counters(&r, at, buf.len())?;
            match mode {
                0 => {
                    let n = must(c, deep(&mut r, &mut st), "valid-refused", || format!("element {} at {}", hex(&buf[at..at + len], 60), at))?;
                    if n != el.node {
                        return viol("result", format!("element {} reads as {}", el.node.short(), n.short()));
                    }
                }
                1 => {
                    let s = must(c, r.exact_decodable_slice::<DataOwned>().map_err(De::from), "valid-refused", || format!("element {} at {}", hex(&buf[at..at + len], 60), at))?;
                    if s.untype().as_ref() != &buf[at..at + len] {
                        return viol("boundary", format!("whole-element read returns {} for {}", hex(s.untype().as_ref(), 40), hex(&buf[at..at + len], 40)));
                    }
                }
                _ => {
                    let e = pick_entry(c, &el.node);
                    let b = must(c, (e.run)(&mut r, &mut st), "valid-refused", || format!("{}: element {} at {}", e.name, hex(&buf[at..at + len], 60), at))?;
                    c.probe(e.name);
                    let exp = expect(e, &el.node).unwrap();
                    if b != exp {
                        return viol("result", format!("{}: element {} reads as {}", e.name, hex(&exp, 40), hex(&b, 40)));
                    }
                }
            }
            at += len;
        }
        self.counters(&r, at, buf.len())?;
        // at the end or the tear
        let e = match st.pick(3) {
            0 => r.data().map(|_| ()).map_err(|e| rerr(&e)),
            1 => r.exact_decodable_data::<DataOwned>().map(|_| ()).map_err(|e| derr(&e)),
            _ => r.peek_type().and_then(|_| r.data()).map(|_| ()).map_err(|e| rerr(&e)),
        };
        match e {
            Err(Ec::Missing(..)) => Ok(want),
            Err(o) => viol("torn-error", format!("reader: {:?} at the {} of the log: {}", o, if torn { "torn tail" } else { "end" }, hex(&buf[at..], 40))),
            Ok(()) => viol("torn-accepted", format!("reader: takes {} for an element, the log is torn there", hex(&buf[at..], 40))),
        }
    }

    fn counters(&self, r: &Reader, at: usize, len: usize) -> R {
        if r.consumed_bytes() != at || r.remaining_bytes() != len - at {
            return viol("counters", format!("reader at byte {} of {} says consumed {} remaining {}", at, len, r.consumed_bytes(), r.remaining_bytes()));
        }
        let end = at == len;
        if r.is_finished() != end || r.expect_finished().is_ok() != end {
            return viol("counters", format!("reader at byte {} of {}: is_finished {} expect_finished {:?}", at, len, r.is_finished(), r.expect_finished()));
        }
        Ok(())
    }

    /// whole-buffer decodes: exact, and with something behind
    fn single(&self, c: &mut Ctx) -> R {
        let whole = self.complete(self.disk.durable.len());
        if whole == 0 {
            return Ok(());
        }
        let i = c.s.draw(whole as u64) as usize;
        let el = &self.els[i];
        let mut bytes = self.disk.durable[self.start(i)..el.end].to_vec();
        let cut = bytes.len();
        let trail = if c.s.chance(1, 2) {
            const LEADS: [u8; 24] = [
                0x1c, 0x1f, 0x3d, 0x3f, 0x5c, 0x5f, 0x7e, 0x7f, 0x9c, 0x9f, 0xbd, 0xbf, 0xdc, 0xdf, 0xe0, 0xf3, 0xf8, 0xf9, 0xfb, 0xfc, 0xfd, 0xfe, 0xf6, 0xa0,
            ];
            match c.s.draw(6) {
                0 => vec![0u8],
                1 => vec![0xffu8],
                4 => vec![LEADS[c.s.draw(24) as usize]; 1 + c.s.draw(3) as usize],
                5 => (0..1 + c.s.draw(9)).map(|_| c.s.draw(256) as u8).collect(),
                2 => self.disk.durable[el.end..].to_vec(),
                _ => vec![0x9b, 0xff, 0xff, 0xff, 0xff],
            }
        } else {
            vec![]
        };
        bytes.extend_from_slice(&trail);
        let mut st = c.style();
        let exact: Vec<&crate::entry::Whole> = crate::entry::WHOLES.iter().filter(|w| w.exact && (w.exp)(&el.node).is_some()).collect();
        let w = exact[c.s.draw(exact.len() as u64) as usize];
        c.ops += 1;
        c.probe(w.name);
        match (w.run)(&bytes, &mut st) {
            Err(De::Bad(v)) => return Err(v),
            Ok((b, _)) => {
                if !trail.is_empty() {
                    return viol("trailing-accepted", format!("{}: {} followed by {} decodes as a single value", w.name, hex(&bytes[..cut], 40), hex(&trail, 20)));
                }
                if b != (w.exp)(&el.node).unwrap() {
                    return viol("result", format!("{}: {} reads as {}", w.name, hex(&bytes, 40), hex(&b, 40)));
                }
            }
            Err(De::Lib(e)) => {
                if trail.is_empty() {
                    return viol("valid-refused", format!("{}: {} refused with {:?}", w.name, hex(&bytes, 60), e));
                }
                c.probe("trailing-refused");
            }
        }
        // a tag's content is a value of its own
        if let Node::G(_, t, inner) = &el.node {
            let mut r = Reader::new(&bytes[..cut]);
            if let Ok(tag) = r.tag() {
                c.probe("tag-content");
                if tag.value() != *t {
                    return viol("result", format!("tag {} reads as {}", t, tag.value()));
                }
                match tag.read_data(|_| Ok(())) {
                    Err(_) => (),
                    Ok(()) => return viol("trailing-accepted", "Tag::read_data accepts content that was not read"),
                }
                match tag.read_data(|r| r.data().map(|_| ())) {
                    Ok(()) => (),
                    Err(e) if !matches!(**inner, Node::T(_)) || all_text_ok(inner) => {
                        return viol("valid-refused", format!("Tag::read_data refuses {}: {:?}", hex(&inner.enc(), 40), e))
                    }
                    Err(_) => (),
                }
            }
        }
        Ok(())
    }

    fn follow(&mut self, c: &mut Ctx) -> R {
        let buf = self.disk.durable[self.f_at..].to_vec();
        let n = self.scan(c, &buf, self.f_n)?;
        self.f_n += n;
        self.f_at = self.start(self.f_n);
        c.ev("follow", 1, n as u64);
        Ok(())
    }
}

fn append(c: &mut Ctx, w: &mut World, it: Item, budget: &mut u64) -> R<bool> {
    let base = w.len();
    let ok = {
        let mut d = std::mem::take(&mut w.disk);
        let r = d.append(c, 0, &it.bytes, *budget > 0);
        w.disk = d;
        r
    };
    for (n, e) in it.nodes.iter().zip(&it.ends) {
        w.els.push(El { node: n.clone(), end: base + e });
    }
    c.ev("append", 0, it.bytes.len() as u64);
    Ok(ok.is_ok())
}

pub fn run(c: &mut Ctx) -> R {
    c.calm = c.s.chance(1, 8);
    let g = Gen::swarm(&mut c.s);
    let recs = zoo::all();
    let p = [15, 0, 60][c.s.draw(3) as usize];
    let mut w = World { disk: Disk::default(), els: vec![], synced: 0, f_at: 0, f_n: 0 };
    let mut budget = if c.calm { 0 } else { 1 + c.s.draw(5) };
    let steps = 2 + c.s.draw(30);
    for _ in 0..steps {
        c.now += 1 + c.s.draw(5_000);
        let crash = match c.s.weighted(&[10, 4, 5, 3, 3, 2]) {
            0 => {
                let it = item(c, &g, &recs, p);
                c.note(|| format!("append {}", hex(&it.bytes, 80)));
                !append(c, &mut w, it, &mut budget)?
            }
            1 => {
                w.disk.sync();
                w.synced = w.els.len();
                c.ev("sync", 0, w.synced as u64);
                false
            }
            2 => {
                // scan from some element on
                let whole = w.complete(w.disk.durable.len());
                let first = if c.s.chance(1, 2) { 0 } else { c.s.draw(whole as u64 + 1) as usize };
                let buf = w.disk.durable[w.start(first)..].to_vec();
                c.ev("scan", 2, first as u64);
                w.scan(c, &buf, first)?;
                false
            }
            3 => {
                w.follow(c)?;
                false
            }
            4 => {
                w.single(c)?;
                false
            }
            _ => true,
        };
        if crash && budget > 0 && !c.calm {
            budget -= 1;
            c.fault("crash", 0);
            let mut d = std::mem::take(&mut w.disk);
            d.crash(c, 0);
            w.disk = d;
            // the torn log is read as it is
            let buf = w.disk.durable.clone();
            c.data(&buf);
            let whole = w.complete(buf.len());
            if whole < w.synced {
                return viol("harness", "synced elements lost");
            }
            for _ in 0..1 + c.s.draw(3) {
                w.scan(c, &buf, 0)?;
            }
            if c.s.chance(1, 2) && w.f_at <= buf.len() {
                w.follow(c)?;
            }
            let n = w.scan(c, &buf, 0)?;
            w.els.truncate(n);
            let end = w.start(n);
            w.disk.truncate(end);
            w.synced = n;
            c.ev("recovered", 0, n as u64);
        } else if crash {
            // nothing left to break: a plain restart loses the unsynced tail only logically
            w.disk.sync();
            let whole = w.complete(w.disk.durable.len());
            w.els.truncate(whole);
            let end = w.start(whole);
            w.disk.truncate(end);
            w.synced = whole;
        }
    }
    w.disk.sync();
    let whole = w.complete(w.disk.durable.len());
    w.els.truncate(whole);
    let end = w.start(whole);
    w.disk.truncate(end);
    let buf = w.disk.durable.clone();
    for _ in 0..4 {
        let n = w.scan(c, &buf, 0)?;
        if n != w.els.len() {
            return viol("record-lost", "final scan misses elements");
        }
    }
    w.follow(c)?;
    w.single(c)?;
    Ok(())
}
