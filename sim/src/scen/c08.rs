//! Producers filling output buffers: buffers are recycled between producers and
//! carry framing prefixes, containers are built by nested closures inside which
//! other producers get their turns, producers die half-way and start over.
use crate::api::*;
use crate::ctx::*;
use crate::entry::raw_data;
use crate::refcbor::*;
use crate::scen::hostile::foreign;
use crate::zoo::{self, RecTy};
use cbored::tagged::EncodedCBOR;
use cbored::validate::Validator;
use cbored::*;

pub const RULE: &str = "a run is 1-4 producers emitting 1-6 values each into recycled or prefixed buffers, taking turns at any point including inside nested array, map and tag builders, dying and restarting; after every turn the output is compared with an append-only reference encoder; non-trivial: at least one writer operation was judged and a fault fired or producers interleaved; distinct by the hash of every event and payload";

struct Prod {
    id: u64,
    w: Writer,
    /// what the buffer must hold
    exp: Vec<u8>,
    prefix: usize,
    items: Vec<Item>,
    at: usize,
    ends: Vec<usize>,
    /// set when the producer died: what it left behind
    left: Option<Vec<u8>>,
}
#[derive(Clone)]
enum Item {
    V(Node),
    Rec(RecTy, Vec<Node>),
}

struct World {
    ps: Vec<Option<Prod>>,
    pool: Vec<Vec<u8>>,
    deep: u32,
    deaths: u64,
}

struct Life {
    id: u64,
    left: Option<Vec<u8>>,
}

/// what the writer holds now: taken out and put back, as recycling callers do
fn look(w: &mut Writer) -> Vec<u8> {
    let v = std::mem::replace(w, Writer::new()).finalize();
    let copy = v.clone();
    *w = Writer::new_from_vec(v);
    copy
}

fn same(c: &mut Ctx, got: &[u8], exp: &[u8], who: u64, how: &str) -> R {
    c.data(got);
    if got != exp {
        let at = got.iter().zip(exp).take_while(|(a, b)| a == b).count();
        let s = at.saturating_sub(6);
        return viol(
            "stream-changed",
            format!("producer {} {}: output differs at byte {} of {}: ..{} instead of ..{}", who, how, at, exp.len(), hex(&got[s.min(got.len())..], 40), hex(&exp[s.min(exp.len())..], 40)),
        );
    }
    Ok(())
}

/// point at which the scheduler may act while a value is being written
fn turn(c: &mut Ctx, world: &mut World, w: &mut Writer, exp: &[u8], life: &mut Life) -> R {
    if c.s.chance(1, 4) {
        let got = look(w);
        same(c, &got, exp, life.id, "mid-way")?;
    }
    if world.deaths > 0 && c.chaos(1, 30) {
        world.deaths -= 1;
        c.fault("producer-death", life.id);
        let got = std::mem::replace(w, Writer::new()).finalize();
        same(c, &got, exp, life.id, "at its death")?;
        life.left = Some(got);
        return Ok(());
    }
    if c.s.chance(1, 3) {
        let live: Vec<usize> = (0..world.ps.len()).filter(|i| matches!(&world.ps[*i], Some(p) if p.at < p.items.len() && p.left.is_none())).collect();
        if !live.is_empty() && world.deep < 4 {
            let i = live[c.s.draw(live.len() as u64) as usize];
            c.probe("turn-inside-value");
            world.deep += 1;
            let r = step(c, world, i);
            world.deep -= 1;
            r?;
        }
    }
    Ok(())
}

fn val<T: Decode>(c: &mut Ctx, n: &Node) -> R<T> {
    must(c, decode_from_bytes::<T>(&n.enc()).map_err(De::from), "valid-refused", || format!("constructing {}", n.short()))
}
/// a value with a chosen encoding comes from reading one
fn read<T>(c: &mut Ctx, n: &Node, f: impl FnOnce(&mut Reader) -> Result<T, ReaderError>) -> R<T> {
    let raw = n.enc();
    let mut r = Reader::new(&raw);
    must(c, f(&mut r).map_err(De::from), "valid-refused", || format!("constructing {}", n.short()))
}
fn cdata(n: &Node) -> CborData {
    raw_data(&n.enc())
}
type CborData = <CborSlice as ToOwned>::Owned;
fn canon(w: W, v: u64) -> bool {
    w == min_w(v)
}
fn text(b: &[u8]) -> &str {
    std::str::from_utf8(b).unwrap_or("")
}

fn build(
    c: &mut Ctx,
    world: &mut World,
    w: &mut Writer,
    exp: &mut Vec<u8>,
    l: Option<W>,
    count: usize,
    map: bool,
    kids: &[&Node],
    life: &mut Life,
) -> R {
    let sl = match l {
        Some(x) if canon(x, count as u64) && c.s.chance(1, 2) => StructureLength::from(count as u64),
        Some(x) if canon(x, count as u64) && c.s.chance(1, 2) => StructureLength::Definite(cbored::state::HeaderValue::canonical(count as u64)),
        l => to_sl(l, count),
    };
    let mut res: R = Ok(());
    let f = |w: &mut Writer| {
        match l {
            Some(x) => head(exp, if map { 5 } else { 4 }, x, count as u64),
            None => exp.push(if map { 0xbf } else { 0x9f }),
        }
        res = members(c, world, w, exp, kids, life);
    };
    if map {
        w.map_build(sl, f)
    } else {
        w.array_build(sl, f)
    }
    res?;
    if life.left.is_none() && l.is_none() {
        exp.push(0xff)
    }
    Ok(())
}

fn members(c: &mut Ctx, world: &mut World, w: &mut Writer, exp: &mut Vec<u8>, kids: &[&Node], life: &mut Life) -> R {
    for k in kids {
        if kids.len() < 64 || c.s.chance(1, 16) {
            turn(c, world, w, exp, life)?;
        }
        if life.left.is_some() {
            return Ok(());
        }
        emit(c, world, w, exp, k, life)?;
        if life.left.is_some() {
            return Ok(());
        }
    }
    turn(c, world, w, exp, life)
}

/// write one value through some API that can express it
fn emit(c: &mut Ctx, world: &mut World, w: &mut Writer, exp: &mut Vec<u8>, n: &Node, life: &mut Life) -> R {
    c.ops += 1;
    let raw = n.enc();
    // forms any element can be written in
    if c.s.chance(1, 5) {
        if matches!(n, Node::T(s) if !text_ok(s)) {
            unreachable!()
        }
        match c.s.draw(7) {
            0 => {
                c.probe("data-owned");
                let d: DataOwned = val(c, n)?;
                w.encode(&d)
            }
            1 => {
                c.probe("data-borrowed");
                let mut r = Reader::new(&raw);
                let d = must(c, r.data().map_err(De::from), "valid-refused", || n.short())?;
                if c.s.chance(1, 2) {
                    w.data(&d)
                } else {
                    w.encode(&d)
                }
            }
            2 => {
                c.probe("cbor-data");
                let d = cdata(n);
                w.encode(&d)
            }
            3 => {
                c.probe("cbor-slice");
                let mut v = Validator::new(&raw);
                let (s, _) = must(c, v.next().map_err(|e| De::Lib(verr(&e))), "valid-refused", || n.short())?;
                w.encode(s)
            }
            4 => {
                c.probe("cbor-data-of");
                let d: CborDataOf<DataOwned> = val(c, n)?;
                w.encode(&d)
            }
            5 => {
                c.probe("cbor-slice-of");
                let mut r = Reader::new(&raw);
                let d = must(c, r.exact_decodable_slice::<DataOwned>().map_err(De::from), "valid-refused", || n.short())?;
                w.encode(d)
            }
            _ => {
                // written apart and taken over as finished data
                c.probe("finished-data");
                let mut w2 = Writer::new();
                let mut e2 = vec![];
                let mut l2 = Life { id: life.id, left: None };
                let deaths = std::mem::replace(&mut world.deaths, 0);
                let r = emit(c, world, &mut w2, &mut e2, n, &mut l2);
                world.deaths = deaths;
                r?;
                let d = w2.finalize_data();
                same(c, d.as_ref(), &e2, life.id, "in a separate buffer")?;
                w.encode(&d)
            }
        }
        exp.extend_from_slice(&raw);
        return Ok(());
    }
    match n {
        Node::U(x, v) if canon(*x, *v) => {
            c.probe("native-int");
            match c.s.draw(8) {
                0 if *v <= 0xff => w.encode(&(*v as u8)),
                1 if *v <= 0xffff => w.encode(&(*v as u16)),
                2 if *v <= 0xffff_ffff => w.encode(&(*v as u32)),
                3 => w.positive(Positive::canonical(*v)),
                4 => w.encode(&Positive::canonical(*v)),
                5 => w.scalar(Scalar::canonical_positive(*v)),
                6 => w.encode(&Scalar::canonical_positive(*v)),
                _ => w.encode(v),
            }
        }
        Node::U(..) => {
            c.probe("wide-int");
            match c.s.draw(3) {
                0 => w.positive(read(c, n, |r| r.positive())?),
                1 => w.scalar(val::<Scalar>(c, n)?),
                _ => w.encode(&read(c, n, |r| r.positive())?),
            }
        }
        Node::N(x, v) => {
            c.probe("negative");
            match c.s.draw(5) {
                0 if canon(*x, *v) => w.negative(Negative::canonical(*v)),
                1 if canon(*x, *v) => w.scalar(Scalar::canonical_negative(*v)),
                2 => w.scalar(val::<Scalar>(c, n)?),
                3 => w.negative(read(c, n, |r| r.negative())?),
                _ => w.encode(&read(c, n, |r| r.negative())?),
            }
        }
        Node::B(Str::D(x, b)) if canon(*x, b.len() as u64) => {
            c.probe("native-bytes");
            match c.s.draw(7) {
                0 => w.encode(b),
                1 => w.bytes(&Bytes::from_slice(b)),
                2 => w.encode(&BytesOwned::from_vec(b.clone())),
                3 => w.bytes(&Bytes::Imm(BytesData::from_slice(b))),
                4 if b.len() == 4 => w.encode(&[b[0], b[1], b[2], b[3]]),
                4 if b.is_empty() => w.encode(&[0u8; 0]),
                4 if b.len() == 32 => w.encode(&<[u8; 32]>::try_from(&b[..]).unwrap()),
                5 => w.bytes(&BytesOwned::Imm(BytesDataOwned::from_vec(b.clone())).borrow()),
                _ => w.encode(b.as_slice()),
            }
        }
        Node::B(Str::I(v)) if v.iter().all(|x| canon(x.0, x.1.len() as u64)) && c.s.chance(2, 3) => {
            c.probe("chunked-bytes");
            match c.s.draw(3) {
                0 => w.bytes(&Bytes::Chunks(v.iter().map(|x| BytesData::from_slice(&x.1)).collect())),
                1 => w.encode(&BytesOwned::Chunks(v.iter().map(|x| BytesDataOwned::from_vec(x.1.clone())).collect())),
                _ => w.encode(&Bytes::Chunks(v.iter().map(|x| BytesData::from_slice(&x.1)).collect()).owned()),
            }
        }
        Node::B(_) => match c.s.draw(2) {
            0 => w.encode(&read(c, n, |r| r.bytes().map(|b| b.owned()))?),
            _ => {
                let mut r = Reader::new(&raw);
                let b = must(c, r.bytes().map_err(De::from), "valid-refused", || n.short())?;
                w.bytes(&b)
            }
        },
        Node::T(Str::D(x, b)) if canon(*x, b.len() as u64) => {
            c.probe("native-text");
            let t = text(b);
            match c.s.draw(5) {
                0 => w.encode(&t.to_string()),
                1 => w.text(&Text::from_str(t)),
                2 => w.text(&Text::Imm(TextData::from_str(t))),
                3 => w.text(&TextOwned::Imm(TextDataOwned::from_string(t.to_string())).borrow()),
                _ => w.encode(t),
            }
        }
        Node::T(Str::I(v)) if v.iter().all(|x| canon(x.0, x.1.len() as u64)) && c.s.chance(2, 3) => {
            c.probe("chunked-text");
            match c.s.draw(2) {
                0 => w.text(&Text::Chunks(v.iter().map(|x| TextData::from_str(text(&x.1))).collect())),
                _ => w.encode(&TextOwned::Chunks(v.iter().map(|x| TextDataOwned::from_string(text(&x.1).to_string())).collect()).borrow()),
            }
        }
        Node::T(_) => {
            let mut r = Reader::new(&raw);
            let t = must(c, r.text().map_err(De::from), "valid-refused", || n.short())?;
            w.text(&t)
        }
        Node::A(l, v) => {
            let len_canon = matches!(l, Some(x) if canon(*x, v.len() as u64)) || l.is_none();
            match c.s.draw(8) {
                0 if len_canon => {
                    c.probe("array-builder");
                    let mut b = ArrayBuilder::new();
                    for k in v {
                        match (k, c.s.draw(3)) {
                            (Node::U(x, v), 0) if canon(*x, *v) => b.append_encodable(v),
                            (_, 1) => b.append(cdata(k)),
                            _ => b.append_encodable(&val::<DataOwned>(c, k)?),
                        }
                    }
                    let a = if l.is_none() { b.indefinite() } else { b.finite() };
                    w.array(&a.borrow())
                }
                1 if matches!(l, Some(x) if canon(*x, v.len() as u64)) => {
                    c.probe("encode-vec");
                    let nat: Option<Vec<u64>> = v.iter().map(|k| if let Node::U(x, v) = k { Some(*v).filter(|v| canon(*x, *v)) } else { None }).collect();
                    match nat {
                        Some(ns) => encode_vec(&ns, w),
                        None => {
                            let mut ds = vec![];
                            for k in v {
                                ds.push(cdata(k))
                            }
                            encode_vec(&ds, w)
                        }
                    }
                }
                2 => {
                    c.probe("array-read");
                    let mut r = Reader::new(&raw);
                    let a = must(c, r.array().map_err(De::from), "valid-refused", || n.short())?;
                    match c.s.draw(3) {
                        0 => w.array(&a),
                        1 => w.encode(&a),
                        _ => w.array(&a.owned().borrow()),
                    }
                }
                _ => {
                    c.probe("array-build");
                    let kids: Vec<&Node> = v.iter().collect();
                    return build(c, world, w, exp, *l, v.len(), false, &kids, life);
                }
            }
        }
        Node::M(l, v) => {
            if c.s.chance(1, 6) {
                c.probe("map-read");
                let mut r = Reader::new(&raw);
                let m = must(c, r.map().map_err(De::from), "valid-refused", || n.short())?;
                match c.s.draw(3) {
                    0 => w.map(&m),
                    1 => w.encode(&m),
                    _ => w.map(&m.owned().borrow()),
                }
            } else {
                c.probe("map-build");
                let kids: Vec<&Node> = v.iter().flat_map(|x| [&x.0, &x.1]).collect();
                return build(c, world, w, exp, *l, v.len(), true, &kids, life);
            }
        }
        Node::G(x, t, k) => {
            if let (24, Node::B(Str::D(y, b)), true) = (*t, &**k, *x == 1) {
                if canon(*y, b.len() as u64) && c.s.chance(1, 2) {
                    c.probe("encoded-cbor");
                    w.encode(&EncodedCBOR::from_bytes(b));
                    exp.extend_from_slice(&raw);
                    return Ok(());
                }
            }
            if c.s.chance(1, 5) {
                c.probe("tag-read");
                let mut r = Reader::new(&raw);
                let g = must(c, r.tag().map_err(De::from), "valid-refused", || n.short())?;
                match c.s.draw(2) {
                    0 => w.tag(&g),
                    _ => w.encode(&g),
                }
            } else {
                c.probe("tag-build");
                let tv = if canon(*x, *t) && c.s.chance(2, 3) {
                    TagValue::from_u64(*t)
                } else {
                    // a tag value in a chosen width comes from reading one
                    let mut b = vec![];
                    head(&mut b, 6, *x, *t);
                    b.push(0);
                    let mut r = Reader::new(&b);
                    must(c, r.tag().map_err(De::from), "valid-refused", || n.short())?.tag_repr()
                };
                let mut res: R = Ok(());
                w.tag_build(tv, |w| {
                    head(exp, 6, *x, *t);
                    res = members(c, world, w, exp, &[&**k], life);
                });
                return res;
            }
        }
        Node::S(wide, v) => {
            c.probe("byte");
            let b = if *wide == (*v >= 20) && c.s.chance(2, 3) { Byte::canonical(*v) } else { read(c, n, |r| r.byte())? };
            match c.s.draw(2) {
                0 => w.byte(b),
                _ => w.encode(&b),
            }
        }
        Node::C(k) => {
            let k2 = [Constant::False, Constant::True, Constant::Null, Constant::Undefined][*k as usize];
            match c.s.draw(4) {
                0 if *k < 2 => w.bool(*k == 1),
                1 if *k < 2 => w.encode(&(*k == 1)),
                2 => w.constant(k2),
                _ => w.encode(&k2),
            }
        }
        Node::F16(_) | Node::F32(_) | Node::F64(_) => {
            let f = match n {
                Node::F16(x) => Float::FP16(*x),
                Node::F32(x) => Float::FP32(*x),
                Node::F64(x) => Float::FP64(*x),
                _ => unreachable!(),
            };
            match c.s.draw(3) {
                0 => w.float(f),
                1 => w.data(&Data::Float(f)),
                _ => w.encode(&f),
            }
        }
    }
    exp.extend_from_slice(&raw);
    Ok(())
}

fn start(c: &mut Ctx, world: &mut World, id: u64, items: Vec<Item>) -> Prod {
    // where the buffer comes from: fresh, with capacity, recycled empty, or with framing in front
    let mut buf = match c.s.draw(4) {
        0 => vec![],
        1 => Vec::with_capacity(c.s.draw(64) as usize),
        _ => match world.pool.pop() {
            Some(b) => {
                c.probe("recycled");
                c.fault("buffer-recycled", id);
                b
            }
            None => vec![],
        },
    };
    let keep = match c.s.draw(3) {
        0 => 0,
        1 => (c.s.draw(9) as usize).min(buf.len()),
        _ => buf.len(),
    };
    buf.truncate(keep);
    if c.s.chance(1, 3) {
        let n = c.s.draw(8);
        for _ in 0..n {
            let b = [0xff, 0x9f, 0x5f, 0x00, 0x81, c.s.draw(256) as u8][c.s.draw(6) as usize];
            buf.push(b)
        }
    }
    if !buf.is_empty() {
        c.probe("prefix");
    }
    let exp = buf.clone();
    let prefix = exp.len();
    let w = if buf.is_empty() && buf.capacity() == 0 { Writer::new() } else { Writer::new_from_vec(buf) };
    Prod { id, w, exp, prefix, items, at: 0, ends: vec![], left: None }
}

fn step(c: &mut Ctx, world: &mut World, i: usize) -> R {
    let mut p = world.ps[i].take().expect("producer");
    let it = p.items[p.at].clone();
    let mut life = Life { id: p.id, left: None };
    c.ev("write", p.id, p.at as u64);
    let r = match &it {
        Item::V(n) => {
            c.note(|| format!("producer {} writes {}", i, n.short()));
            emit(c, world, &mut p.w, &mut p.exp, n, &mut life)
        }
        Item::Rec(t, nodes) => {
            c.probe("derived");
            c.ops += 1;
            c.note(|| format!("producer {} writes a {}: {}", i, t.name, hex(&zoo::enc_nodes(nodes), 60)));
            if (t.put)(nodes, &mut p.w) {
                p.exp.extend_from_slice(&zoo::enc_nodes(nodes));
                Ok(())
            } else {
                viol("harness", format!("{} cannot be built from its own nodes", t.name))
            }
        }
    };
    if r.is_ok() {
        if life.left.is_some() {
            p.left = life.left;
        } else {
            p.at += 1;
            p.ends.push(p.exp.len());
        }
    }
    world.ps[i] = Some(p);
    r
}

/// a reader at the other end takes the stream apart again
fn readback(c: &mut Ctx, out: &[u8], p: &Prod, whole: usize) -> R {
    let body = &out[p.prefix..];
    let mut r = Reader::new(body);
    for i in 0..whole {
        let nodes: Vec<&Node> = match &p.items[i] {
            Item::V(n) => vec![n],
            Item::Rec(_, v) => v.iter().collect(),
        };
        if let (Item::Rec(t, v), true) = (&p.items[i], c.s.chance(1, 2)) {
            let mut st = c.style();
            let at = r.consumed_bytes();
            let (got, _, used) = must(c, (t.dec)(&body[at..], &mut st), "written-unreadable", || format!("a {}", t.name))?;
            if got != *v || at + used != p.ends[i] - p.prefix {
                return viol("read-back", format!("{} reads back as {} instead of {}", t.name, hex(&zoo::enc_nodes(&got), 60), hex(&zoo::enc_nodes(v), 60)));
            }
            r = Reader::new(body);
            // move on past it
            while r.consumed_bytes() < p.ends[i] - p.prefix {
                if let Err(e) = r.exact_decodable_slice::<DataOwned>() {
                    return viol("written-unreadable", format!("stepping over {}: {:?}", t.name, derr(&e)));
                }
            }
            continue;
        }
        for n in nodes {
            let mut st = c.style();
            let got = if c.s.chance(1, 2) { deep(&mut r, &mut st) } else { typed(&mut r, &mut st) };
            let got = must(c, got, "written-unreadable", || n.short())?;
            if got != *n {
                return viol("read-back", format!("{} reads back as {}", n.short(), got.short()));
            }
        }
        if r.consumed_bytes() + p.prefix != p.ends[i] {
            return viol("read-back", format!("value {} ends at {} and not at {}", i, r.consumed_bytes() + p.prefix, p.ends[i]));
        }
    }
    if p.prefix + r.consumed_bytes() == out.len() {
        if !r.is_finished() {
            return viol("read-back", "stream not finished after its last value");
        }
        return Ok(());
    }
    if whole == p.items.len() {
        return viol("read-back", format!("{} bytes after the last value", r.remaining_bytes()));
    }
    // torn: the rest is only the beginning of a value
    if let Item::V(n) = &p.items[whole] {
        let rest = &body[r.consumed_bytes()..];
        let full = n.enc();
        if !full.starts_with(rest) {
            return viol("torn-rest", format!("a dying producer left {} of {}", hex(rest, 60), hex(&full, 60)));
        }
        let mut v = Validator::new(rest);
        match v.next() {
            Ok((_, d)) if d == full.len() => c.probe("died-after-last-byte"),
            Err(e) if matches!(verr(&e), Ec::Missing(..)) => c.probe("torn-rest"),
            o => return viol("torn-rest", format!("what a dying producer left, {}, is {:?}", hex(rest, 40), o.map(|x| x.1))),
        }
    }
    Ok(())
}

pub fn run(c: &mut Ctx) -> R {
    c.calm = c.s.chance(1, 6);
    let g = Gen::swarm(&mut c.s);
    let recs = zoo::all();
    let np = 1 + c.s.draw(4);
    let deaths = if c.calm { 0 } else { c.s.draw(4) };
    let mut world = World { ps: vec![], pool: vec![], deep: 0, deaths };
    for _ in 0..c.s.draw(3) {
        let n = c.s.draw(40) as usize;
        world.pool.push((0..n).map(|i| (i as u8).wrapping_mul(37)).collect());
    }
    let minimal = c.s.chance(1, 3);
    for id in 0..np {
        let k = 1 + c.s.draw(6);
        let mut items = vec![];
        for _ in 0..k {
            if c.s.chance(1, 6) {
                let t = recs[c.s.draw(recs.len() as u64) as usize];
                items.push(Item::Rec(t, (t.gen)(&g, &mut c.s)));
            } else {
                let mut n = g.node(&mut c.s);
                if c.s.chance(1, 10) {
                    let v = c.s.draw(256) as u8;
                    // every simple value the API can construct
                    n = Node::S(v >= 20, v);
                } else if minimal && crate::scen::hostile::size(&n) < 500 {
                    n = foreign(&mut c.s, &n, 0, 20, false);
                }
                items.push(Item::V(n));
            }
        }
        let p = start(c, &mut world, id, items);
        world.ps.push(Some(p));
    }
    let mut steps = 0;
    loop {
        steps += 1;
        if steps > 5000 {
            return viol("no-progress", "producers do not finish");
        }
        let live: Vec<usize> = (0..world.ps.len()).filter(|i| world.ps[*i].is_some()).collect();
        if live.is_empty() {
            break;
        }
        c.now += 1;
        let i = live[c.s.draw(live.len() as u64) as usize];
        let p = world.ps[i].as_mut().unwrap();
        if let Some(left) = p.left.take() {
            // died: a peer reads what got out, the producer starts over
            let p = world.ps[i].take().unwrap();
            readback(c, &left, &p, p.at)?;
            world.pool.push(left);
            let items = p.items.clone();
            c.ev("restart", p.id, 0);
            let q = start(c, &mut world, p.id, items);
            world.ps[i] = Some(q);
            continue;
        }
        if p.at == p.items.len() {
            let mut p = world.ps[i].take().unwrap();
            let w = std::mem::replace(&mut p.w, Writer::new());
            let out = if c.s.chance(1, 2) { w.finalize() } else { w.finalize_data().as_ref().to_vec() };
            same(c, &out, &p.exp, p.id, "when finished")?;
            readback(c, &out, &p, p.items.len())?;
            c.ev("finish", p.id, out.len() as u64);
            world.pool.push(out);
            continue;
        }
        step(c, &mut world, i)?;
        if let Some(p) = world.ps[i].as_mut() {
            if p.left.is_none() && c.s.chance(1, 3) {
                let got = look(&mut p.w);
                let (exp, id) = (p.exp.clone(), p.id);
                same(c, &got, &exp, id, "after a value")?;
            }
        }
    }
    Ok(())
}
