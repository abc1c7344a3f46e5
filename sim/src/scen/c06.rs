//! Acceptors on damaged data, differential against the reference model.
use crate::api::*;
use crate::ctx::*;
use crate::entry::*;
use crate::refcbor::*;
use crate::scen::hostile::*;
use cbored::state::State;
use cbored::validate::Validator;
use cbored::*;

pub const RULE: &str = "a run is a record log with rot, misdirected and torn writes plus peers sending damaged and hostile messages; every message, record, stream prefix and log is put to every kind of acceptor, bare and embedded in a valid container; non-trivial: at least one fault fired and at least one acceptor was judged; distinct by the hash of every event and payload";

pub struct J;

/// every acceptor must agree with the reference on the element at the start of `b`
pub fn agree(c: &mut Ctx, b: &[u8], all: bool) -> R {
    let w = wf(b);
    let end = match w {
        Wf::Ok(e) => Some(e),
        _ => None,
    };
    let small = shallow(b);
    let node = if small { parse(b).map(|x| x.0) } else { None };
    c.probe(match w {
        Wf::Ok(_) => "well-formed",
        Wf::Incomplete => "incomplete",
        Wf::Bad(_) => "malformed",
    });
    // validator
    {
        c.ops += 1;
        let mut v = Validator::new(b);
        match (v.next(), end) {
            (Ok((s, d)), Some(e)) => {
                if d != e || s.as_ref() != &b[..e] || v.remaining_bytes() != b.len() - e {
                    return viol("boundary", format!("validator: element {} ends at {} and not at {}", hex(b, 60), e, d));
                }
            }
            (Ok((s, _)), None) => return viol("malformed-accepted", format!("validator accepts {} of {} ({:?})", hex(s.as_ref(), 60), hex(b, 60), w)),
            (Err(e), Some(_)) => return viol("well-formed-refused", format!("validator refuses {}: {:?}", hex(b, 80), e)),
            (Err(_), None) => (),
        }
    }
    // as the member of a container: boundaries and bytes without interpretation
    {
        c.ops += 1;
        let mut wrapped = vec![];
        let how = c.s.draw(4);
        wrapped.push([0x81u8, 0xc1, 0x9f, 0xa1][how as usize]);
        if how == 3 {
            wrapped.push(0);
        }
        wrapped.extend_from_slice(b);
        let h = if how == 3 { 2 } else { 1 };
        if how == 2 {
            if let Some(e) = end {
                wrapped.truncate(h + e);
            }
            wrapped.push(0xff);
        }
        let mut r = Reader::new(&wrapped);
        let got = match how {
            0 => r.array().map(|a| a[0].as_ref().to_vec()),
            1 => r.tag().map(|t| t.data().as_ref().to_vec()),
            2 => r.array().map(|a| if a.len() == 1 { a[0].as_ref().to_vec() } else { enc(&a) }),
            _ => r.map().map(|m| m[0].1.as_ref().to_vec()),
        };
        let used = r.consumed_bytes();
        // an indefinite array may close around something else than one element
        if how != 2 {
            same(b, w, end, got.map_err(|e| rerr(&e)), used.max(h) - h, "member read")?;
        } else if end.is_some() {
            same(b, w, end, got.map_err(|e| rerr(&e)), used.max(h + 1) - h - 1, "member read")?;
        } else if got.is_ok() != matches!(wf(&wrapped), Wf::Ok(_)) {
            return viol(if got.is_ok() { "malformed-accepted" } else { "well-formed-refused" }, format!("indefinite array read of {}: {:?}", hex(&wrapped, 80), got.map_err(|e| rerr(&e))));
        }
    }
    if !small {
        // too deep for a tree: container reads only
        for k in [Kind::Array, Kind::Map, Kind::Tag] {
            let mut r = Reader::new(b);
            let first = b.first().map(|x| x >> 5);
            let got = match k {
                Kind::Array if first == Some(4) => r.array().map(|a| enc(&a)),
                Kind::Map if first == Some(5) => r.map().map(|a| enc(&a)),
                Kind::Tag if first == Some(6) => r.tag().map(|a| enc(&a)),
                _ => continue,
            };
            same(b, w, end, got.map_err(|e| rerr(&e)), r.consumed_bytes(), "container read")?;
        }
        return Ok(());
    }
    // typed reads
    let n = if all { ENTRIES.len() } else { 5 };
    for i in 0..n {
        let e = if all { &ENTRIES[i] } else { &ENTRIES[c.s.draw(ENTRIES.len() as u64) as usize] };
        let mut st = c.style();
        let mut r = Reader::new(b);
        c.ops += 1;
        c.probe(e.name);
        let got = (e.run)(&mut r, &mut st);
        let used = r.consumed_bytes();
        let want = node.as_ref().and_then(|n| if (e.kind)(n) { expect(e, n) } else { None });
        match (got, want) {
            (Err(De::Bad(v)), _) => return Err(v),
            (Ok(x), Some(y)) => {
                if x != y {
                    return viol("result", format!("{}: {} reads as {}", e.name, hex(&y, 80), hex(&x, 80)));
                }
                if Some(used) != end {
                    return viol("boundary", format!("{}: element {} ends at {:?}, reader is at {}", e.name, hex(b, 60), end, used));
                }
            }
            (Ok(x), None) => {
                return viol(
                    "malformed-accepted",
                    format!("{} accepts {} ({}) and returns {}", e.name, hex(b, 80), node.as_ref().map(|n| format!("a {:?}", n.kind())).unwrap_or(format!("{:?}", w)), hex(&x, 60)),
                )
            }
            (Err(De::Lib(x)), Some(_)) => return viol("well-formed-refused", format!("{} refuses {}: {:?}", e.name, hex(b, 80), x)),
            (Err(De::Lib(_)), None) => (),
        }
    }
    let n = if all { WHOLES.len() } else { 2 };
    for i in 0..n {
        let e = if all { &WHOLES[i] } else { &WHOLES[c.s.draw(WHOLES.len() as u64) as usize] };
        let mut st = c.style();
        c.ops += 1;
        c.probe(e.name);
        let mut want = node.as_ref().and_then(|n| (e.exp)(n));
        if e.exact && end != Some(b.len()) {
            want = None;
        }
        match ((e.run)(b, &mut st), want) {
            (Err(De::Bad(v)), _) => return Err(v),
            (Ok((x, used)), Some(y)) => {
                if x != y || Some(used) != end {
                    return viol("result", format!("{}: {} reads as {} up to {}", e.name, hex(&y, 80), hex(&x, 80), used));
                }
            }
            (Ok((x, _)), None) => return viol("malformed-accepted", format!("{} accepts {} ({:?}) and returns {}", e.name, hex(b, 80), w, hex(&x, 60))),
            (Err(De::Lib(x)), Some(_)) => return viol("well-formed-refused", format!("{} refuses {}: {:?}", e.name, hex(b, 80), x)),
            (Err(De::Lib(_)), None) => (),
        }
    }
    // structural state machine fed with the headers
    let mut s = State::new();
    let mut m = Nest::default();
    let mut at = 0;
    while at < b.len() {
        let l = match lead(&b[at..]) {
            Ok(l) => l,
            Err(_) => break,
        };
        let want = m.feed(l);
        let got = state_feed(&mut s, l);
        if got.is_ok() != want {
            return viol(
                if want { "well-formed-refused" } else { "malformed-accepted" },
                format!("state machine {} the header at {} of {}", if want { "refuses" } else { "accepts" }, at, hex(b, 80)),
            );
        }
        if !want {
            break;
        }
        if s.acceptable() != m.done() {
            return viol("boundary", format!("state machine: acceptable() is {} after the header at {} of {}", s.acceptable(), at, hex(b, 80)));
        }
        if m.done() {
            break;
        }
        at += match l {
            Lead::Val { size, .. } => size,
            _ => 1,
        };
        if let Lead::Val { major: 2 | 3, v, .. } = l {
            if v > (b.len() - at) as u64 {
                break;
            }
            at += v as usize;
        }
    }
    Ok(())
}

fn same(b: &[u8], w: Wf, end: Option<usize>, got: Result<Vec<u8>, Ec>, used: usize, who: &str) -> R {
    match (got, end) {
        (Ok(x), Some(e)) => {
            if x != &b[..e] {
                return viol("result", format!("{}: {} comes out as {}", who, hex(&b[..e], 60), hex(&x, 60)));
            }
            if used != e {
                return viol("boundary", format!("{}: element {} ends at {}, reader is at {}", who, hex(b, 60), e, used));
            }
            Ok(())
        }
        (Ok(x), None) => viol("malformed-accepted", format!("{} accepts {} of {} ({:?})", who, hex(&x, 60), hex(b, 60), w)),
        (Err(x), Some(_)) => viol("well-formed-refused", format!("{} refuses {}: {:?}", who, hex(b, 80), x)),
        (Err(_), None) => Ok(()),
    }
}

/// put `b` where an element goes in something valid
fn embed(c: &mut Ctx, b: &[u8]) -> Vec<u8> {
    let mut o: Vec<u8> = vec![];
    let depth = if c.s.chance(1, 10) { depth(&mut c.s) as u64 } else { 1 + c.s.draw(3) };
    let mut close: Vec<&[u8]> = vec![];
    for _ in 0..depth {
        let (a, z): (&[u8], &[u8]) = [
            (&[0x81u8][..], &[][..]),
            (&[0x82, 0x01], &[]),
            (&[0x82], &[0x01]),
            (&[0x9f], &[0xff]),
            (&[0x9f, 0x01], &[0x02, 0xff]),
            (&[0xa1, 0x00], &[]),
            (&[0xa1], &[0x00]),
            (&[0xbf, 0x00], &[0xff]),
            (&[0xbf], &[0x00, 0xff]),
            (&[0xc5], &[]),
            (&[0xd8, 0x18], &[]),
            (&[0x5f], &[0xff]),
            (&[0x7f], &[0xff]),
            (&[0xa2, 0x00, 0x01], &[0x02]),
        ][c.s.draw(14) as usize];
        o.extend_from_slice(a);
        close.push(z);
    }
    o.extend_from_slice(b);
    for z in close.iter().rev() {
        o.extend_from_slice(z);
    }
    o
}

impl Judge for J {
    fn msg(&mut self, c: &mut Ctx, m: &Msg) -> R {
        let big = m.bytes.len() > 5000;
        let all = !big && c.s.chance(1, 4);
        agree(c, &m.bytes, all)?;
        if !big {
            for _ in 0..1 + c.s.draw(3) {
                let b = embed(c, &m.bytes);
                agree(c, &b, false)?;
            }
        }
        Ok(())
    }
    fn log(&mut self, c: &mut Ctx, b: &[u8]) -> R {
        agree(c, b, false)?;
        // whatever a scan calls an element is one, also after errors
        let mut v = Validator::new(b);
        let mut errs = 0;
        let mut n = 0;
        while v.remaining_bytes() > 0 && errs < 6 && n < 400 {
            n += 1;
            let rem = v.remaining_bytes();
            match v.next() {
                Ok((s, d)) => {
                    let x = s.as_ref();
                    c.ops += 1;
                    if wf(x) != Wf::Ok(x.len()) {
                        return viol("malformed-accepted", format!("validator hands out {} as an element ({} errors before)", hex(x, 80), errs));
                    }
                    if d != x.len() || v.remaining_bytes() + d != rem || !inside(b, x) {
                        return viol("boundary", format!("validator: displacement {} for {} bytes", d, x.len()));
                    }
                    if errs > 0 {
                        c.probe("element-after-error");
                    }
                }
                Err(e) => {
                    errs += 1;
                    if errs == 1 {
                        // the first refusal has to be where the reference refuses
                        let at = b.len() - rem;
                        if let Wf::Ok(_) = wf(&b[at..]) {
                            return viol("well-formed-refused", format!("validator refuses {} at {}: {:?}", hex(&b[at..], 60), at, e));
                        }
                    }
                }
            }
        }
        // the same log through a reader
        let mut r = Reader::new(b);
        let mut n = 0;
        while !r.is_finished() && n < 400 {
            n += 1;
            let at = r.consumed_bytes();
            let w = wf(&b[at..]);
            let got = r.exact_decodable_data::<DataOwned>().map(|d| d.as_ref().to_vec());
            c.ops += 1;
            if b[at] >> 5 == 3 && got.is_err() {
                // text that is no UTF-8 is judged as a message
                break;
            }
            let end = match w {
                Wf::Ok(e) => Some(e),
                _ => None,
            };
            let stop = got.is_err();
            same(&b[at..], w, end, got.map_err(|e| derr(&e)), r.consumed_bytes() - at, "whole-element read in a log")?;
            if stop {
                break;
            }
        }
        Ok(())
    }
}

/// strings of very many chunks and structures of very many members with
/// damage far behind
fn wide(c: &mut Ctx) -> R {
    let n = match c.s.draw(40) {
        0 => 65_530 + c.s.draw(20),
        1..=4 => 4090 + c.s.draw(20),
        5..=9 => 1020 + c.s.draw(20),
        10..=20 => 250 + c.s.draw(20),
        _ => 1 + c.s.draw(100),
    };
    let major = 2 + c.s.draw(4) as u8;
    let indef = major < 4 || c.s.chance(1, 2);
    let mut b = vec![];
    if indef {
        b.push(major << 5 | 31)
    } else {
        head(&mut b, major, [min_w(n), 8][c.s.draw(2) as usize], n);
    }
    let total = if major == 5 { 2 * n } else { n };
    let bad = if c.s.chance(1, 6) { total } else { total - 1 - c.s.draw(total.min(12)) };
    let item: &[u8] = match major {
        2 => [&[0x41, 0x80][..], &[0x40], &[0x42, 1, 2]][c.s.draw(3) as usize],
        3 => [&[0x61, b'a'][..], &[0x60], &[0x62, 0xc3, 0xa9]][c.s.draw(3) as usize],
        _ => [&[0x05][..], &[0x61, b'x'], &[0x80], &[0xc1, 0x00]][c.s.draw(4) as usize],
    };
    const BAD: [&[u8]; 16] = [
        &[0x61, 0xff], &[0x62, b'a', 0xc3], &[0x61, 0x80], &[0x41, 0x00], &[0x61, b'a'], &[0x1c], &[0xff], &[0x7f, 0xff], &[0x5f, 0xff], &[0x9f],
        &[0x81], &[0xc1], &[0x7f, 0x61, 0xff, 0xff], &[0x5f, 0x61, b'a', 0xff], &[0xf8], &[],
    ];
    let x = BAD[c.s.draw(16) as usize];
    for i in 0..total {
        b.extend_from_slice(if i == bad { x } else { item });
    }
    if indef && !c.s.chance(1, 12) {
        b.push(0xff);
    }
    c.fault("damage-far-behind", n);
    agree(c, &b, false)?;
    if c.s.chance(1, 3) && b.len() < 20_000 {
        let b = embed(c, &b);
        agree(c, &b, false)?;
    }
    Ok(())
}

pub fn run(c: &mut Ctx) -> R {
    world(c, &mut J, 8)?;
    if c.chaos(1, 4) {
        wide(c)?;
    }
    Ok(())
}
