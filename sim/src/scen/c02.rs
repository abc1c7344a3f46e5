//! Ingest server: clients stream elements and records over connections that
//! fragment, stall and break; the server keeps a receive buffer per connection,
//! tries to read, and after a shortfall waits for exactly the bytes it was told.
use crate::api::*;
use crate::ctx::*;
use crate::entry::*;
use crate::refcbor::*;
use crate::zoo::{self, RecTy};
use cbored::validate::Validator;
use cbored::*;

pub const RULE: &str = "a run is one ingest server with 1-4 client connections, each streaming 1-8 elements or derived records, driven to completion under seeded fragmentation (down to single bytes and at header boundaries), stalls, resets and retransmission, with torn reads attempted through every right-type entry point; non-trivial: at least one fault fired and at least one library read was judged; distinct by the hash of every event, time and payload";

pub struct Item {
    pub rec: Option<RecTy>,
    pub nodes: Vec<Node>,
    pub bytes: Vec<u8>,
    /// ends of the elements the item consists of
    pub ends: Vec<usize>,
    pub marks: Vec<usize>,
}

pub fn item(c: &mut Ctx, g: &Gen, recs: &[RecTy], p: u64) -> Item {
    let (rec, nodes) = if c.s.chance(p, 100) {
        let r = recs[c.s.draw(recs.len() as u64) as usize];
        (Some(r), (r.gen)(g, &mut c.s))
    } else {
        (None, vec![g.node(&mut c.s)])
    };
    let mut bytes = vec![];
    let mut ends = vec![];
    let mut marks = vec![];
    for n in &nodes {
        let (b, m) = n.enc_marks();
        marks.extend(m.iter().map(|x| x + bytes.len()));
        bytes.extend_from_slice(&b);
        ends.push(bytes.len());
    }
    Item { rec, nodes, bytes, ends, marks }
}

struct Conn {
    items: Vec<Item>,
    pipe: Pipe,
    inbuf: Vec<u8>,
    /// item at `off` in the buffer
    next: usize,
    off: usize,
    /// first item still in the buffer
    base: usize,
    /// processed items stay in the buffer: reads start behind them
    lazy: bool,
    want: usize,
    attempts: u64,
    resets: u64,
}

enum E {
    Send(usize, u64, usize),
    Data(usize, u64, Vec<u8>),
}

/// skip the processed items in front
fn skip(r: &mut Reader, items: &[Item], st: &mut Style) -> Result<(), De> {
    for it in items {
        for _ in &it.nodes {
            match st.pick(3) {
                0 => {
                    r.exact_decodable_slice::<DataOwned>()?;
                }
                _ => {
                    r.data()?;
                }
            }
        }
    }
    Ok(())
}

/// bytes missing from the element that is torn at `have` bytes into the item
fn missing(it: &Item, have: usize) -> usize {
    it.ends.iter().find(|e| **e > have).map(|e| e - have).unwrap_or(0)
}

/// one read of `items[next]` at its place in the buffer through one entry point:
/// judged against the bytes that have arrived
fn attempt(c: &mut Ctx, k: &Conn, probe: bool) -> R<Option<usize>> {
    let it = &k.items[k.next];
    let here = &k.inbuf[k.off..];
    let total = it.bytes.len();
    let full = here.len() >= total;
    let mut st = c.style();
    c.ops += 1;
    // which entry
    let pre = &k.items[k.base..k.next];
    let (name, got, exp): (&'static str, Result<(Vec<u8>, usize), De>, Vec<u8>) = match &it.rec {
        Some(r) if !probe || c.s.chance(2, 3) => {
            let want = it.bytes.clone();
            match c.s.draw(3) {
                // reading at the start of a buffer, more may follow
                0 => (r.name, (r.dec)(here, &mut st).map(|(n, re, used)| (if re != zoo::enc_nodes(&n) { re } else { zoo::enc_nodes(&n) }, used)), want),
                1 => {
                    // a buffer cut at the item, read as the whole
                    let cut = &here[..here.len().min(total)];
                    (r.name, (r.whole)(cut, &mut st).map(|n| (zoo::enc_nodes(&n), cut.len())), want)
                }
                _ if !r.flat => {
                    let got = (r.typed)(here, &mut st).map(|(raw, n)| {
                        let l = raw.len();
                        (if zoo::enc_nodes(&n) == want { raw } else { zoo::enc_nodes(&n) }, l)
                    });
                    (r.name, got, want)
                }
                _ => (r.name, (r.dec)(here, &mut st).map(|(n, _, used)| (zoo::enc_nodes(&n), used)), want),
            }
        }
        _ => {
            // by elements: read the complete ones before the torn one in this item
            let node = it
                .ends
                .iter()
                .position(|e| *e > here.len())
                .unwrap_or(if probe { c.s.draw(it.nodes.len() as u64) as usize } else { it.nodes.len() - 1 });
            let start = if node == 0 { 0 } else { it.ends[node - 1] };
            let n = &it.nodes[node];
            let torn = here.len() < it.ends[node];
            let what = c.s.draw(8);
            if what == 0 {
                // peeking
                let mut r = Reader::new(&k.inbuf);
                let r0 = skip(&mut r, pre, &mut st).and_then(|_| {
                    for _ in 0..node {
                        r.data()?;
                    }
                    Ok(())
                });
                must(c, r0, "valid-refused", || format!("stepping over complete elements of {}", hex(&k.inbuf, 60)))?;
                match r.peek_type() {
                    Ok(t) => {
                        if here.len() <= start || kind_of(t) != n.kind() {
                            return viol("torn-accepted", format!("peek_type answers {:?} on {}, the element there is {}", t, hex(&here[start.min(here.len())..], 40), n.short()));
                        }
                    }
                    Err(e) => match rerr(&e) {
                        Ec::Missing(a, b) if torn => judge_hint(a, b, it.ends[node] - here.len(), "peek_type", here)?,
                        o => return viol("torn-error", format!("peek_type fails with {:?} on {}", o, hex(&here[start..], 40))),
                    },
                }
                return Ok(None);
            }
            let from = here.len().min(start);
            let (nm, got, exp) = if what <= 2 {
                let w = pick_whole(c, n);
                let mut cut = &here[from..];
                if w.exact {
                    cut = &cut[..cut.len().min(it.ends[node] - start)];
                }
                let got = (w.run)(cut, &mut st);
                (w.name, got, (w.exp)(n).unwrap())
            } else if what == 3 && !probe {
                // one validator for the whole buffer
                let mut v = Validator::new(&k.inbuf);
                let k0: usize = pre.iter().map(|i| i.nodes.len()).sum::<usize>() + node;
                for _ in 0..k0 {
                    let x = v.next().map(|_| ()).map_err(|e| De::Lib(verr(&e)));
                    must(c, x, "valid-refused", || format!("validator stepping over complete elements of {}", hex(&k.inbuf, 60)))?;
                }
                let got = v.next().map(|(s, d)| (s.as_ref().to_vec(), d)).map_err(|e| De::Lib(verr(&e)));
                ("validator-stepping", got, n.enc())
            } else {
                let e = pick_entry(c, n);
                let mut r = Reader::new(&k.inbuf);
                let r0 = skip(&mut r, pre, &mut st).and_then(|_| {
                    for _ in 0..node {
                        r.data()?;
                    }
                    Ok(())
                });
                must(c, r0, "valid-refused", || format!("stepping over complete elements of {}", hex(&k.inbuf, 60)))?;
                let at = r.consumed_bytes();
                if at != k.off + from {
                    return viol("boundary", format!("stepping over complete elements arrives at {} instead of {}", at, k.off + from));
                }
                let got = (e.run)(&mut r, &mut st);
                let used = r.consumed_bytes() - at;
                (e.name, got.map(|b| (b, used)), expect(e, n).unwrap())
            };
            // judged as one element
            let etotal = it.ends[node] - start;
            return verdict(c, nm, got, &exp, etotal, torn, if torn { it.ends[node] - here.len().max(start) } else { 0 }, &here[from..]).map(|o| {
                if torn || !full {
                    o
                } else {
                    None
                }
            });
        }
    };
    verdict(c, name, got, &exp, total, !full, missing(it, here.len()), here)
}

fn verdict(c: &mut Ctx, name: &'static str, got: Result<(Vec<u8>, usize), De>, exp: &[u8], total: usize, torn: bool, missing: usize, here: &[u8]) -> R<Option<usize>> {
    c.probe(name);
    match got {
        Err(De::Bad(v)) => Err(v),
        Ok((b, used)) => {
            if torn {
                return viol("torn-accepted", format!("{}: {} bytes of a {} byte element were read as a value: {}", name, here.len(), total, hex(here, 60)));
            }
            c.data(&b);
            if b != exp {
                return viol("result", format!("{}: {} read from {}", name, hex(&b, 60), hex(exp, 60)));
            }
            if used != total {
                return viol("boundary", format!("{}: consumed {} bytes of a {} byte element {}", name, used, total, hex(exp, 60)));
            }
            Ok(None)
        }
        Err(De::Lib(Ec::Missing(e, g))) if torn => {
            judge_hint(e, g, missing, name, here)?;
            c.probe("torn");
            Ok(Some(e - g))
        }
        Err(De::Lib(e)) => {
            if torn {
                viol("torn-error", format!("{}: torn element {} ({} bytes short) is reported as {:?} instead of missing data", name, hex(here, 60), missing, e))
            } else {
                viol("valid-refused", format!("{}: complete element {} refused with {:?}", name, hex(exp, 80), e))
            }
        }
    }
}

pub fn pick_entry(c: &mut Ctx, n: &Node) -> &'static Entry {
    let ok: Vec<&Entry> = ENTRIES.iter().filter(|e| (e.kind)(n) && (e.exp)(n).is_some()).collect();
    ok[c.s.draw(ok.len() as u64) as usize]
}
pub fn pick_whole(c: &mut Ctx, n: &Node) -> &'static Whole {
    let ok: Vec<&Whole> = WHOLES.iter().filter(|e| (e.exp)(n).is_some()).collect();
    ok[c.s.draw(ok.len() as u64) as usize]
}

fn serve(c: &mut Ctx, k: &mut Conn) -> R {
    while k.next < k.items.len() {
        let probes = if c.s.chance(1, 2) { 1 + c.s.draw(3) } else { 0 };
        for _ in 0..probes {
            attempt(c, k, true)?;
        }
        if k.inbuf.len() < k.want {
            return Ok(());
        }
        let total = k.items[k.next].bytes.len();
        let full = k.inbuf.len() - k.off >= total;
        k.attempts += 1;
        match attempt(c, k, false)? {
            Some(h) => {
                k.want = k.inbuf.len() + h;
                c.ev("wait", k.next as u64, h as u64);
                return Ok(());
            }
            None if !full => {
                // a probe without a hint (peek): try again with the next byte
                k.want = k.inbuf.len() + 1;
                return Ok(());
            }
            None => {
                c.ev("item", k.next as u64, total as u64);
                k.next += 1;
                k.off += total;
                k.want = 0;
                if !k.lazy || k.next - k.base > 5 {
                    k.inbuf.drain(..k.off);
                    k.off = 0;
                    k.base = k.next;
                }
            }
        }
    }
    Ok(())
}

/// A sender announces far more than it will ever send: what arrives is the beginning
/// of a valid element all the same.
fn giant(c: &mut Ctx) -> R {
    const OUTER: [(&[u8], &[u8]); 9] = [
        (&[0x81], &[]),
        (&[0x82, 0x05], &[]),
        (&[0x9f], &[0xff]),
        (&[0x9f, 0x61, 0x78], &[0xff]),
        (&[0xa1, 0x01], &[]),
        (&[0xa1], &[0x01]),
        (&[0xbf, 0x20], &[0xff]),
        (&[0xd8, 0x64], &[]),
        (&[0xb9, 0x00, 0x02, 0x01, 0xf6, 0x02], &[]),
    ];
    let (mut b, mut small) = (vec![], vec![]);
    let mut close: Vec<&[u8]> = vec![];
    for _ in 0..c.s.draw(4) {
        let (a, z) = OUTER[c.s.draw(9) as usize];
        b.extend_from_slice(a);
        close.push(z);
    }
    small.extend_from_slice(&b);
    let major = 2 + c.s.draw(4) as u8;
    let n = match c.s.draw(5) {
        0 => (1u64 << (32 + c.s.draw(31))) + c.s.draw(6),
        1 => u32::MAX as u64 - c.s.draw(3),
        2 => (1 << (17 + c.s.draw(15))) + c.s.draw(6),
        3 => (c.s.draw(1 << 20) << 32) | c.s.draw(12),
        _ => i64::MAX as u64 - c.s.draw(3),
    }
    .max(1 << 16);
    head(&mut b, major, if n > u32::MAX as u64 || c.s.chance(1, 3) { 8 } else { 4 }, n);
    let have = c.s.draw(12);
    for i in 0..have {
        b.push(if major < 4 { b'a' } else { i as u8 });
    }
    // the same with little in it says what to ask for
    head(&mut small, major, 0, 2);
    small.extend_from_slice(if major == 5 { &[0, 1, 2, 3] } else { &[0x61, 0x62][..] });
    if major == 4 {
        small.truncate(small.len() - 2);
        small.extend([0, 1]);
    }
    for z in close.iter().rev() {
        small.extend_from_slice(z);
    }
    let Some((node, _)) = parse(&small) else { return viol("harness", hex(&small, 60)) };
    let missing = n.saturating_mul(if major == 5 { 2 } else { 1 }).saturating_sub(have) as usize;
    let missing = missing.saturating_add(close.iter().map(|z| z.len()).sum());
    let total = b.len().saturating_add(missing);
    c.fault("announces-gigabytes", n);
    for _ in 0..3 {
        let mut st = c.style();
        c.ops += 1;
        let (name, got) = if c.s.chance(1, 2) {
            let w = pick_whole(c, &node);
            (w.name, (w.run)(&b, &mut st))
        } else {
            let e = pick_entry(c, &node);
            let mut r = Reader::new(&b);
            (e.name, (e.run)(&mut r, &mut st).map(|x| (x, r.consumed_bytes())))
        };
        verdict(c, name, got, &[], total, true, missing, &b)?;
    }
    Ok(())
}

pub fn run(c: &mut Ctx) -> R {
    c.calm = c.s.chance(1, 8);
    let g = Gen::swarm(&mut c.s);
    let recs = zoo::all();
    let p = [40, 0, 100, 40][c.s.draw(4) as usize];
    let nc = 1 + c.s.draw(4) as usize;
    let mut q = Queue::new();
    let mut conns: Vec<Conn> = Vec::new();
    for i in 0..nc {
        let n = 1 + c.s.draw(8);
        let items: Vec<Item> = (0..n).map(|_| item(c, &g, &recs, p)).collect();
        for it in &items {
            c.note(|| format!("conn {} will send {} {}", i, it.rec.map(|r| r.name).unwrap_or("element"), hex(&it.bytes, 80)));
        }
        conns.push(Conn {
            items,
            pipe: Pipe::default(),
            inbuf: vec![],
            next: 0,
            off: 0,
            base: 0,
            lazy: c.s.chance(1, 2),
            want: 0,
            attempts: 0,
            resets: 0,
        });
        q.at(c.s.draw(500), E::Send(i, 0, 0));
    }
    let mut events = 0u64;
    while let Some((t, e)) = q.pop() {
        c.now = t;
        events += 1;
        if events > 200_000 {
            return viol("no-progress", "the exchange does not finish");
        }
        match e {
            E::Send(i, ep, n) => {
                let k = &mut conns[i];
                if ep != k.pipe.epoch || n >= k.items.len() {
                    continue;
                }
                c.ev("send", i as u64, n as u64);
                let it = &k.items[n];
                // cut at header boundaries, or wherever the pipe cuts
                let mut cuts = vec![0, it.bytes.len()];
                if c.chaos(1, 2) && !it.marks.is_empty() {
                    for _ in 0..1 + c.s.draw(4) {
                        let m = it.marks[c.s.draw(it.marks.len() as u64) as usize] + c.s.draw(2) as usize;
                        cuts.push(m.min(it.bytes.len()));
                    }
                    cuts.sort();
                    cuts.dedup();
                }
                for w in cuts.windows(2) {
                    for (t, b) in k.pipe.send(c, i as u64, &it.bytes[w[0]..w[1]]) {
                        q.at(t, E::Data(i, k.pipe.epoch, b));
                    }
                }
                let d = c.s.draw(400);
                q.at(c.now + d, E::Send(i, ep, n + 1));
            }
            E::Data(i, ep, b) => {
                let k = &mut conns[i];
                if ep != k.pipe.epoch {
                    continue;
                }
                k.inbuf.extend_from_slice(&b);
                c.ev("data", i as u64, b.len() as u64);
                serve(c, k)?;
                if k.resets < 3 && k.next < k.items.len() && c.chaos(1, 30) {
                    k.resets += 1;
                    c.fault("connection-reset", i as u64);
                    k.pipe.reset();
                    k.inbuf.clear();
                    k.off = 0;
                    k.base = k.next;
                    k.want = 0;
                    let d = 500 + c.s.draw(5000);
                    q.at(c.now + d, E::Send(i, k.pipe.epoch, k.next));
                }
            }
        }
    }
    if c.chaos(1, 3) {
        giant(c)?;
    }
    for (i, k) in conns.iter().enumerate() {
        if k.next != k.items.len() {
            return viol(
                "no-progress",
                format!("connection {}: everything was delivered, but the reader waits for byte {} with {} in the buffer (item {} of {})", i, k.want, k.inbuf.len(), k.next, k.items.len()),
            );
        }
    }
    Ok(())
}
