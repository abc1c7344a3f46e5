//! Several parsers take turns on one reader, each trying to read what it expects.
//! Only the parser whose expectation matches may move it.
use crate::api::*;
use crate::ctx::*;
use crate::entry::*;
use crate::refcbor::*;
use crate::scen::c02::{item, pick_entry};
use crate::zoo;
use cbored::*;

pub const RULE: &str = "a run is 2-5 parsers with seeded expectations taking turns on readers over received streams of 1-10 elements (members of containers included, torn tails after connection loss); every failed attempt is checked for position and type afterwards; non-trivial: at least one wrong-type attempt and one right-type read were judged; distinct by the hash of every event and payload";

/// what a parser asks for
struct Parser {
    /// entries it will try, in its own order
    wants: Vec<&'static Entry>,
    at: usize,
}

fn wrong(c: &mut Ctx, r: &mut Reader, e: &Entry, n: &Node) -> R {
    let mut st = c.style();
    let at = r.consumed_bytes();
    let rem = r.remaining_bytes();
    c.ops += 1;
    c.probe(e.name);
    match (e.run)(r, &mut st) {
        Err(De::Bad(v)) => return Err(v),
        Ok(b) => return viol("wrong-type-accepted", format!("{} reads {} from a {:?}: {}", e.name, hex(&b, 40), n.kind(), hex(&n.enc(), 40))),
        Err(De::Lib(x)) => {
            let ok = match x {
                Ec::WrongType => true,
                // reads of one of several tag numbers, or of a tag
                Ec::WrongTag => n.kind() == Kind::Tag,
                _ => false,
            };
            if !ok {
                return viol("wrong-error", format!("{} on a {:?} ({}) fails with {:?}", e.name, n.kind(), hex(&n.enc(), 40), x));
            }
        }
    }
    if r.consumed_bytes() != at || r.remaining_bytes() != rem {
        return viol(
            "wrong-type-consumed",
            format!("{} on {} failed and moved the reader from {} to {}", e.name, hex(&n.enc(), 40), at, r.consumed_bytes()),
        );
    }
    c.probe("wrong-attempt");
    Ok(())
}

fn peek(c: &mut Ctx, r: &Reader, n: &Node) -> R {
    let at = r.consumed_bytes();
    match r.peek_type() {
        Ok(t) if kind_of(t) == n.kind() => (),
        o => return viol("peek", format!("peek_type on {} answers {:?}", hex(&n.enc(), 40), o.map_err(|e| rerr(&e)))),
    }
    if r.consumed_bytes() != at {
        return viol("peek", "peek_type moved the reader");
    }
    c.probe("peek");
    Ok(())
}

/// the parsers read the elements `els` from `r`, whose last one may be torn
fn session(c: &mut Ctx, r: &mut Reader, els: &[Node], torn: Option<&Node>, ps: &mut [Parser], depth: u32, seq: bool) -> R {
    let mut at = r.consumed_bytes();
    for n in els {
        let turns = if seq { 1 } else { c.s.draw(7) };
        for _ in 0..turns {
            // whose turn it is
            let who = c.s.draw(ps.len() as u64) as usize;
            let p = &mut ps[who];
            if p.wants.is_empty() {
                continue;
            }
            let e = p.wants[p.at % p.wants.len()];
            p.at += 1;
            if (e.kind)(n) {
                continue;
            }
            c.ev("try", who as u64, p.at as u64);
            wrong(c, r, e, n)?;
            if c.s.chance(1, 2) {
                peek(c, r, n)?;
            }
        }
        // the parser whose turn is right
        let e = pick_entry(c, n);
        let total = n.enc().len();
        // members of containers are read by a nested session
        let inner = depth < 3 && matches!(n, Node::A(_, v) if !v.is_empty() && v.len() < 40) && c.s.chance(1, 4);
        let innerg = depth < 3 && matches!(n, Node::G(..)) && c.s.chance(1, 4);
        let mut st = c.style();
        if inner {
            let a = must(c, r.array().map_err(De::from), "valid-refused", || format!("array {} after wrong attempts", hex(&n.enc(), 60)))?;
            if let Node::A(_, v) = n {
                if a.len() != v.len() {
                    return viol("result", format!("array of {} reads with {} members", v.len(), a.len()));
                }
                for (i, m) in v.iter().enumerate() {
                    let mut mr = a[i].reader();
                    session(c, &mut mr, std::slice::from_ref(m), None, ps, depth + 1, seq)?;
                }
            }
        } else if innerg {
            let a = must(c, r.tag().map_err(De::from), "valid-refused", || format!("tag {} after wrong attempts", hex(&n.enc(), 60)))?;
            if let Node::G(_, t, m) = n {
                if a.value() != *t {
                    return viol("result", format!("tag {} reads as {}", t, a.value()));
                }
                let mut mr = a.reader();
                session(c, &mut mr, std::slice::from_ref(m), None, ps, depth + 1, seq)?;
            }
        } else {
            let b = must(c, (e.run)(r, &mut st), "valid-refused", || format!("{}: {} after wrong attempts", e.name, hex(&n.enc(), 60)))?;
            c.probe(e.name);
            c.data(&b);
            let exp = expect(e, n).unwrap();
            if b != exp {
                return viol("result", format!("{}: {} reads as {}", e.name, hex(&exp, 60), hex(&b, 60)));
            }
        }
        at += total;
        c.ev("read", depth as u64, total as u64);
        if r.consumed_bytes() != at {
            return viol("boundary", format!("{}: after {} the reader is at {} instead of {}", e.name, hex(&n.enc(), 60), r.consumed_bytes(), at));
        }
    }
    if let Some(n) = torn {
        // only the head of the next element is there: wrong attempts still consume nothing
        if r.remaining_bytes() > 0 {
            for _ in 0..c.s.draw(6) {
                let who = c.s.draw(ps.len() as u64) as usize;
                let p = &mut ps[who];
                if p.wants.is_empty() {
                    continue;
                }
                let e = p.wants[p.at % p.wants.len()];
                p.at += 1;
                if (e.kind)(n) {
                    continue;
                }
                let at = r.consumed_bytes();
                let mut st = c.style();
                c.ops += 1;
                match (e.run)(r, &mut st) {
                    Err(De::Bad(v)) => return Err(v),
                    Ok(b) => return viol("wrong-type-accepted", format!("{} reads {} from the torn head of {}", e.name, hex(&b, 20), hex(&n.enc(), 40))),
                    Err(De::Lib(_)) => (),
                }
                if r.consumed_bytes() != at {
                    return viol("wrong-type-consumed", format!("{} on the torn head of {} moved the reader", e.name, hex(&n.enc(), 40)));
                }
                peek(c, r, n)?;
                c.probe("torn-wrong-attempt");
            }
        }
    } else if !r.is_finished() || r.expect_finished().is_err() {
        return viol("boundary", "reader is not finished after its last element");
    }
    Ok(())
}

pub fn run(c: &mut Ctx) -> R {
    c.calm = c.s.chance(1, 10);
    let g = Gen::swarm(&mut c.s);
    let recs = zoo::all();
    let np = 2 + c.s.draw(4);
    let mut ps: Vec<Parser> = (0..np)
        .map(|_| {
            let n = 1 + c.s.draw(8);
            let wants = (0..n)
                .map(|_| &ENTRIES[c.s.draw(ENTRIES.len() as u64) as usize])
                .filter(|e| !takes_whole(e.name))
                .collect();
            Parser { wants, at: 0 }
        })
        .collect();
    let streams = 1 + c.s.draw(3);
    for s in 0..streams {
        let n = 1 + c.s.draw(10) as usize;
        let mut els = vec![];
        let mut bytes = vec![];
        for _ in 0..n {
            let it = item(c, &g, &recs, 15);
            bytes.extend_from_slice(&it.bytes);
            els.extend(it.nodes);
        }
        c.note(|| format!("stream {}: {}", s, hex(&bytes, 200)));
        let mut pipe = Pipe::default();
        // the connection may be lost with only part of the stream delivered
        let mut got = vec![];
        let lose = c.chaos(1, 4);
        let frags = pipe.send(c, s, &bytes);
        let keep = if lose { c.s.draw(bytes.len() as u64 + 1) as usize } else { bytes.len() };
        for (t, f) in frags {
            c.now = c.now.max(t);
            c.ev("data", s, f.len() as u64);
            got.extend_from_slice(&f);
        }
        if lose {
            c.fault("connection-lost", s);
            got.truncate(keep);
        }
        let mut at = 0;
        let mut whole = 0;
        for n in &els {
            let l = n.enc().len();
            if at + l > got.len() {
                break;
            }
            at += l;
            whole += 1;
        }
        let torn = if whole < els.len() { Some(&els[whole]) } else { None };
        let seq = c.s.chance(1, 6);
        let mut r = Reader::new(&got);
        session(c, &mut r, &els[..whole], torn, &mut ps, 0, seq)?;
    }
    Ok(())
}
