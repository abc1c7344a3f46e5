//! Every read path on damaged and hostile bytes, in seeded call histories: no
//! panic, abort, hang, and nothing handed out that lies outside the input.
use crate::api::*;
use crate::ctx::*;
use crate::entry::*;
use crate::refcbor::*;
use crate::scen::hostile::*;
use crate::zoo::{self, RecTy};
use cbored::state::{HeaderValue, State};
use cbored::tagged::*;
use cbored::validate::Validator;
use cbored::*;

pub const RULE: &str = "a run is a record log with rot, misdirected, torn and zeroed writes plus peers sending damaged and hostile messages; every message, record, stream prefix and log is put through seeded call histories over every read path, and what is accepted is inspected, owned, re-encoded and read again; non-trivial: at least one fault fired and at least one call was made; distinct by the hash of every event and payload";

pub struct J {
    recs: Vec<RecTy>,
    /// values that outlive the message they came from
    kept: Vec<DataOwned>,
    reuse: State,
}

fn within(whole: &[u8], part: &[u8], who: &str) -> R {
    if !inside(whole, part) {
        return viol("slice-outside", format!("{} hands out {} bytes that are not in its input", who, part.len()));
    }
    Ok(())
}

/// everything a borrowed value refers to is inside the input
fn confined(whole: &[u8], d: &Data) -> R {
    match d {
        Data::Bytes(Bytes::Imm(b)) => within(whole, b.as_slice(), "bytes"),
        Data::Bytes(Bytes::Chunks(v)) => v.iter().try_for_each(|b| within(whole, b.as_slice(), "bytes chunk")),
        Data::Text(Text::Imm(b)) => within(whole, b.as_str().as_bytes(), "text"),
        Data::Text(Text::Chunks(v)) => v.iter().try_for_each(|b| within(whole, b.as_str().as_bytes(), "text chunk")),
        Data::Array(a) => {
            for i in 0..a.len() {
                within(whole, a[i].as_ref(), "array")?;
            }
            Ok(())
        }
        Data::Map(m) => {
            for i in 0..m.len() {
                within(whole, m[i].0.as_ref(), "map key")?;
                within(whole, m[i].1.as_ref(), "map value")?;
            }
            Ok(())
        }
        Data::Tag(t) => within(whole, t.data().as_ref(), "tag"),
        _ => Ok(()),
    }
}

fn bad<T>(d: Result<T, De>) -> R<Option<T>> {
    match d {
        Ok(v) => Ok(Some(v)),
        Err(De::Bad(v)) => Err(v),
        Err(De::Lib(_)) => Ok(None),
    }
}

/// inspect a value that was returned, in depth where recursion can follow
fn inspect(c: &mut Ctx, d: &Data, small: bool) -> R {
    let mut st = c.style();
    c.ops += 1;
    let b = {
        let mut w = Writer::new();
        w.data(d);
        w.finalize()
    };
    let o = d.owned();
    let b2 = enc(&o.clone());
    if b != b2 {
        return viol("owned-differs", format!("{} written, owned copy writes {}", hex(&b, 60), hex(&b2, 60)));
    }
    if o.borrow() != *d {
        return viol("owned-differs", format!("the owned copy of {} is not equal to it", hex(&b, 60)));
    }
    if small {
        // members may hold text that is no UTF-8: an error, not a panic
        bad(data_node(d, &mut st))?;
        bad(data_node(&o.borrow(), &mut st))?;
        if b.len() < 300 {
            let s = format!("{:?}", d);
            c.data(s.as_bytes());
        }
    }
    // it reads back
    let mut r = Reader::new(&b);
    match r.data() {
        Ok(x) if x == *d && r.is_finished() => (),
        Ok(_) => return viol("reread", format!("{} reads back as something else", hex(&b, 60))),
        Err(e) => return viol("reread", format!("{} does not read back: {:?}", hex(&b, 60), e)),
    }
    Ok(())
}

impl J {
    /// a history of reads on one reader, going on after errors
    fn reader(&mut self, c: &mut Ctx, b: &[u8], small: bool) -> R {
        let mut r = Reader::new(b);
        let mut errs = 0;
        let n = 1 + c.s.draw(8);
        for _ in 0..n {
            let at = r.consumed_bytes();
            c.ops += 1;
            let ok = match c.s.draw(4) {
                0 => {
                    match r.data() {
                        Ok(d) => {
                            confined(b, &d)?;
                            inspect(c, &d, small)?;
                            if small && c.s.chance(1, 4) && self.kept.len() < 8 {
                                self.kept.push(d.owned());
                            }
                            true
                        }
                        Err(e) => {
                            c.data(e_text(&e).as_bytes());
                            false
                        }
                    }
                }
                1 => {
                    match r.exact_decodable_slice::<DataOwned>() {
                        Ok(s) => {
                            within(b, s.untype().as_ref(), "whole-element read")?;
                            let d = s.to_owned();
                            let v = d.unserialize();
                            inspect(c, &v.borrow(), small)?;
                            true
                        }
                        Err(e) => {
                            c.data(e.to_string().as_bytes());
                            c.data(e.context_as_path().as_bytes());
                            false
                        }
                    }
                }
                _ => {
                    // a read that recurses is kept for inputs too short to nest deeply
                    let usable: Vec<&crate::entry::Entry> = ENTRIES.iter().filter(|e| small || !e.deep).collect();
                    let e = usable[c.s.draw(usable.len() as u64) as usize];
                    let mut st = c.style();
                    c.probe(e.name);
                    bad((e.run)(&mut r, &mut st))?.is_some()
                }
            };
            let _ = r.peek_type();
            let now = r.consumed_bytes();
            if now > b.len() || now < at || r.remaining_bytes() != b.len() - now {
                return viol("position", format!("reader over {} bytes is at {} with {} remaining, was at {}", b.len(), now, r.remaining_bytes(), at));
            }
            if ok && now == at {
                return viol("no-progress", format!("a read at {} of {} succeeds without consuming anything", at, hex(b, 60)));
            }
            if r.is_finished() {
                let _ = r.expect_finished();
            } else if let Err(e) = r.expect_finished() {
                c.data(e_text(&e).as_bytes());
            }
            if !ok {
                errs += 1;
                if errs > 3 {
                    break;
                }
                c.probe("call-after-error");
            }
        }
        Ok(())
    }

    fn validator(&mut self, c: &mut Ctx, b: &[u8], small: bool) -> R {
        let mut v = Validator::new(b);
        let mut errs = 0;
        for _ in 0..200 {
            let rem = v.remaining_bytes();
            c.ops += 1;
            match v.next() {
                Ok((s, d)) => {
                    within(b, s.as_ref(), "validator")?;
                    if d == 0 || v.remaining_bytes() + d != rem || s.as_ref().len() != d {
                        return viol("no-progress", format!("validator returns {} bytes with displacement {}", s.as_ref().len(), d));
                    }
                    if c.s.chance(1, 4) {
                        let o = s.to_owned();
                        let mut r = o.read();
                        if let Ok(x) = r.data() {
                            inspect(c, &x, small)?;
                        }
                        let _ = s.decode::<DataOwned>();
                        let _ = o.decode::<RationalNumber>();
                    }
                }
                Err(e) => {
                    c.data(format!("{:?}", e).as_bytes());
                    errs += 1;
                    if v.remaining_bytes() > rem {
                        return viol("position", "validator has more bytes remaining after an error");
                    }
                    if errs > 3 {
                        break;
                    }
                    c.probe("call-after-error");
                }
            }
        }
        Ok(())
    }

    /// headers fed to the state machine, also illegal ones and after errors
    fn state(&mut self, c: &mut Ctx, b: &[u8]) -> R {
        let fresh = c.s.chance(1, 2);
        let mut own = State::new();
        let s = if fresh { &mut own } else { &mut self.reuse };
        let mut at = 0;
        let mut n = 0;
        while at < b.len() && n < 3000 {
            n += 1;
            match lead(&b[at..]) {
                Ok(l) => {
                    if let Err(e) = state_feed(s, l) {
                        let t = format!("{} {:?}", e, e);
                        c.data(t.as_bytes());
                    }
                    let _ = s.acceptable();
                    at += match l {
                        Lead::Val { size, .. } => size,
                        _ => 1,
                    };
                }
                Err(_) => at += 1,
            }
        }
        // random events on top
        for _ in 0..c.s.draw(6) {
            let v = match c.s.draw(5) {
                0 => None,
                1 => Some(HeaderValue::U64(u64::MAX)),
                2 => Some(HeaderValue::Imm(0)),
                3 => Some(HeaderValue::U64(1 << 63)),
                _ => Some(HeaderValue::Imm(1)),
            };
            let s = if fresh { &mut own } else { &mut self.reuse };
            let _ = match c.s.draw(7) {
                0 => s.simple(),
                1 => s.brk(),
                2 => s.tag(),
                3 => s.array(v),
                4 => s.map(v),
                5 => s.bytes(v),
                _ => s.text(v),
            };
            c.ops += 1;
        }
        Ok(())
    }

    fn records(&mut self, c: &mut Ctx, b: &[u8], rec: Option<RecTy>, small: bool) -> R {
        let _ = small;
        for i in 0..3 {
            let t = match rec {
                Some(t) if i == 0 => t,
                _ => self.recs[c.s.draw(self.recs.len() as u64) as usize],
            };
            let mut st = c.style();
            c.ops += 1;
            c.probe(t.name);
            match c.s.draw(3) {
                0 => {
                    if let Some((_, re, used)) = bad((t.dec)(b, &mut st))? {
                        if used > b.len() {
                            return viol("position", "derived decode consumed more than its input");
                        }
                        // what was decoded encodes to something that decodes again
                        if bad((t.whole)(&re, &mut st))?.is_none() {
                            return viol("reread", format!("{}: {} decodes, its re-encoding {} does not", t.name, hex(b, 60), hex(&re, 60)));
                        }
                    }
                }
                1 => {
                    bad((t.whole)(b, &mut st))?;
                }
                _ => {
                    bad((t.typed)(b, &mut st))?;
                }
            }
        }
        // with the container forms the record types do not start with
        let mut st = c.style();
        for w in 0..2 {
            let w = &WHOLES[(c.s.draw(WHOLES.len() as u64) as usize + w) % WHOLES.len()];
            bad((w.run)(b, &mut st))?;
            c.probe(w.name);
        }
        Ok(())
    }
}

fn e_text(e: &ReaderError) -> String {
    format!("{:?}", e)
}

impl Judge for J {
    fn msg(&mut self, c: &mut Ctx, m: &Msg) -> R {
        let b = &m.bytes[..];
        let small = shallow(b);
        self.reader(c, b, small)?;
        if c.s.chance(1, 2) {
            self.reader(c, b, small)?;
        }
        self.validator(c, b, small)?;
        self.state(c, b)?;
        self.records(c, b, m.rec, small)?;
        // untyped data made of these bytes, as a store would hand out
        if c.s.chance(1, 3) {
            let d = raw_data(b);
            let mut st = c.style();
            c.ops += 1;
            match st.pick(4) {
                0 => drop(d.decode::<DataOwned>()),
                1 => drop(d.validate_as::<RationalNumber>()),
                2 => drop(d.read().data()),
                _ => {
                    let mut r = d.read();
                    if small {
                        bad(deep(&mut r, &mut st))?;
                    }
                }
            }
        }
        // the bytes as the payload of an encoded-CBOR element
        if c.s.chance(1, 6) && small {
            let e = enc(&EncodedCBOR::from_bytes(b));
            let x: EncodedCBOR = match decode_from_bytes(&e) {
                Ok(x) => x,
                Err(e) => return viol("reread", format!("encoded CBOR does not read back: {}", e)),
            };
            let inner = x.to_bytes();
            self.reader(c, &inner, small)?;
        }
        Ok(())
    }
    fn log(&mut self, c: &mut Ctx, b: &[u8]) -> R {
        let small = shallow(b);
        self.validator(c, b, small)?;
        self.reader(c, b, small)?;
        self.state(c, b)
    }
    fn end(&mut self, c: &mut Ctx) -> R {
        // values kept from messages long gone
        for d in std::mem::take(&mut self.kept) {
            inspect(c, &d.borrow(), true)?;
        }
        Ok(())
    }
}

pub fn run(c: &mut Ctx) -> R {
    struct Quiet;
    impl Drop for Quiet {
        fn drop(&mut self) {
            INSPECT.with(|x| x.set(false))
        }
    }
    let _quiet = Quiet;
    INSPECT.with(|x| x.set(true));
    let mut j = J { recs: zoo::all(), kept: vec![], reuse: State::new() };
    world(c, &mut j, 10)
}
