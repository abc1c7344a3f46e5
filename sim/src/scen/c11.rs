//! Memory and work of every read path on damaged and hostile bytes, measured by
//! the simulated process's accounting allocator: alone, repeated, and over many
//! connections at once.
use crate::alloc;
use crate::api::*;
use crate::ctx::*;
use crate::refcbor::*;
use crate::scen::hostile::*;
use crate::rng::Src;
use crate::zoo::{self, RecTy};
use cbored::state::State;
use cbored::tagged::*;
use cbored::validate::Validator;
use cbored::*;

pub const RULE: &str = "a run is a record log with rot and torn writes plus peers sending damaged and hostile messages declaring absurd lengths and counts; every operation runs under the accounting allocator (peak and rest) and twice in a row, and at the end all messages are served interleaved as connections of one process; non-trivial: at least one fault fired and at least one operation was measured; distinct by the hash of every event and payload";

pub const CONST: usize = 48 << 10;
pub const FACTOR: usize = 400;
const CPU_NS: u64 = 4_000_000_000;

fn cpu() -> u64 {
    let mut t = crate::seam::Ts { s: 0, n: 0 };
    unsafe { crate::seam::real_clock(3, &mut t) };
    t.s as u64 * 1_000_000_000 + t.n as u64
}

/// processor time one operation may take: a multiple of the bytes present for
/// each level of nesting, more than five times what the slowest one takes on a busy
/// machine, tens of times what most take
const BASE_NS: u64 = 40_000_000;
const BYTE_NS: u64 = 1_000;
/// Processor time is the one thing here that a tape does not fix: when a recorded run is
/// confirmed or replayed, half of the bound is enough
pub static CONFIRM: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// deepest nesting that the headers present open
fn levels(b: &[u8]) -> u64 {
    let mut open: Vec<Option<u64>> = Vec::new();
    let (mut at, mut deep) = (0usize, 0usize);
    while at < b.len() {
        let mut done = true;
        match lead(&b[at..]) {
            Err(_) => break,
            Ok(Lead::Break) => {
                at += 1;
                if let Some(None) = open.last() {
                    open.pop();
                }
            }
            Ok(Lead::Indef { .. }) => {
                at += 1;
                open.push(None);
                done = false;
            }
            Ok(Lead::Val { major, v, size, .. }) => {
                at += size;
                match major {
                    2 | 3 => at = at.saturating_add(v.min(usize::MAX as u64) as usize),
                    4 | 5 | 6 => {
                        let n = if major == 6 { 1 } else { v.saturating_mul(major as u64 - 3) };
                        if n > 0 {
                            open.push(Some(n));
                            done = false;
                        }
                    }
                    _ => (),
                }
            }
        }
        deep = deep.max(open.len());
        while done {
            match open.last_mut() {
                Some(Some(n)) => {
                    *n -= 1;
                    if *n > 0 {
                        break;
                    }
                    open.pop();
                }
                _ => break,
            }
        }
    }
    deep as u64
}

const OPS: [&str; 22] = [
    "validate-all", "data-all", "data-owned", "decode-owned", "slice-of", "data-of", "bytes", "text", "array", "map", "tag", "array-to-vec",
    "map-to-vec", "decode-vec", "decode-vec-u64", "std-tagged", "natives", "derived", "untyped", "state", "tree", "tower",
];

fn kdec<'b>(r: &mut Reader<'b>) -> Result<DataOwned, DecodeErrorKind> {
    r.decode::<DataOwned>().map_err(|e| e.error().clone())
}

// ---- user types that contain themselves: their decode functions count the calls ----

/// calls so far, allowed, depth, where to go
struct Count {
    calls: u64,
    max: u64,
    depth: u32,
    st: u64,
}
thread_local! {
    static COUNT: std::cell::RefCell<Count> = const { std::cell::RefCell::new(Count { calls: 0, max: 0, depth: 0, st: 0 }) };
}
struct Level;
/// the user's type stops going down at some depth
fn level(what: &str) -> Result<Option<Level>, DecodeError> {
    COUNT.with(|c| {
        let mut c = c.borrow_mut();
        c.calls += 1;
        if c.calls > c.max {
            return Err(DecodeErrorKind::Custom(format!("enough of {}", what)).context::<Tree>());
        }
        if c.depth >= 64 {
            return Ok(None);
        }
        c.depth += 1;
        Ok(Some(Level))
    })
}
impl Drop for Level {
    fn drop(&mut self) {
        COUNT.with(|c| c.borrow_mut().depth -= 1)
    }
}
fn way(n: u64) -> u64 {
    COUNT.with(|c| {
        let mut c = c.borrow_mut();
        c.st = c.st.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (c.st >> 33) % n
    })
}
fn lib<T>(r: Result<T, ReaderError>) -> Result<T, DecodeError> {
    r.map_err(DecodeErrorKind::ReaderError).map_err(|e| e.context::<Tree>())
}

/// any element whatever, member by member
struct Tree(#[allow(dead_code)] Vec<Tree>);
fn tdec<'b>(r: &mut Reader<'b>) -> Result<Tree, DecodeErrorKind> {
    r.decode::<Tree>().map_err(|e| e.error().clone())
}
impl Decode for Tree {
    fn decode<'a>(r: &mut Reader<'a>) -> Result<Self, DecodeError> {
        let Some(_l) = level("trees")? else {
            return lib(r.data()).map(|_| Tree(vec![]));
        };
        let k = |e: DecodeErrorKind| e.context::<Tree>();
        Ok(Tree(match lib(r.peek_type())? {
            Type::Array => match way(6) {
                0 => decode_vec(r)?,
                1 => lib(r.array())?.to_vec(tdec).map_err(k)?,
                2 => lib(r.array())?.owned().to_vec(tdec).map_err(k)?,
                3 => lib(r.array())?.iter().map(|mut r| r.decode()).collect::<Result<_, _>>()?,
                4 => {
                    let a = lib(r.array())?;
                    (0..a.len()).map(|i| a[i].decode()).collect::<Result<_, _>>()?
                }
                _ => {
                    let a = lib(r.array())?.owned();
                    (0..a.len()).map(|i| a[i].decode()).collect::<Result<_, _>>()?
                }
            },
            Type::Map => {
                let m = lib(r.map())?;
                let (ks, vs): (Vec<Tree>, Vec<Tree>) = match way(3) {
                    0 => m.to_vec(tdec, tdec).map_err(k)?.into_iter().unzip(),
                    1 => m.owned().to_vec(tdec, tdec).map_err(k)?.into_iter().unzip(),
                    _ => (
                        m.keys().map(|mut r| r.decode()).collect::<Result<_, _>>()?,
                        m.values().map(|mut r| r.decode()).collect::<Result<_, _>>()?,
                    ),
                };
                ks.into_iter().chain(vs).collect()
            }
            Type::Tag => {
                let t = lib(r.tag())?;
                vec![match way(4) {
                    0 => t.decode_data()?,
                    1 => t.reader().decode()?,
                    2 => t.data().decode()?,
                    _ => t.owned().read_data().decode_one()?,
                }]
            }
            _ => {
                lib(r.data())?;
                vec![]
            }
        }))
    }
}

macro_rules! row {
    ($row:ident $of:ident) => {
        struct $row(#[allow(dead_code)] Vec<$of>);
        impl Decode for $row {
            fn decode<'a>(r: &mut Reader<'a>) -> Result<Self, DecodeError> {
                let Some(_l) = level(stringify!($row))? else {
                    return lib(r.array()).map(|_| $row(vec![]));
                };
                decode_vec(r).map($row)
            }
        }
        impl Encode for $row {
            fn encode(&self, w: &mut Writer) {
                encode_vec(&self.0, w)
            }
        }
    };
}
// each layout of the derive contains rows of the next one
row!(RowA LevelA);
row!(RowM LevelM);
row!(RowT LevelT);
row!(RowV LevelV);
#[derive(CborRepr)]
#[cborrepr(structure = "array")]
struct LevelA {
    n: u64,
    kids: RowM,
}
#[derive(CborRepr)]
#[cborrepr(structure = "mapint")]
struct LevelM {
    #[cborrepr(mandatory)]
    kids: RowT,
    n: Option<u64>,
}
#[derive(CborRepr)]
#[cborrepr(enumtype = "enumtype")]
enum LevelT {
    #[cborrepr(cbortype = "positive")]
    Leaf(u64),
    #[cborrepr(cbortype = "array")]
    List(RowV),
}
#[derive(CborRepr)]
#[cborrepr(enumtype = "tagvariant")]
enum LevelV {
    Leaf(u64),
    Node(Vec<LevelA>),
    Tagged(LevelS),
    Last { a: LevelL },
}
#[derive(CborRepr)]
#[cborrepr(structure = "flat", tag = 7)]
struct LevelS {
    kids: RowA,
}
#[derive(CborRepr)]
#[cborrepr(structure = "array_lastopt", tag = 9)]
struct LevelL {
    n: u64,
    kids: Option<RowA>,
}

/// a row of the self-containing types, `depth` levels down along the first member
fn tower(s: &mut Src, o: &mut Vec<u8>, k: usize, depth: usize, leaf: bool, room: &mut usize) {
    let n = if depth == 0 { s.draw(2) as usize } else { 1 + s.draw(8).saturating_sub(5) as usize };
    o.push(0x80 + n as u8);
    for i in 0..n {
        *room = room.saturating_sub(1);
        let d = if i == n - 1 || *room == 0 { depth } else { depth.min(s.draw(4) as usize) };
        let d = if *room == 0 { 0 } else { d.saturating_sub(1) };
        match k {
            0 => {
                o.extend([0x82, 5]);
                tower(s, o, 1, d, leaf, room)
            }
            1 => {
                o.extend([0xa1, 0]);
                tower(s, o, 2, d, leaf, room)
            }
            2 if d == 0 => o.push(if leaf { 7 } else { 0x21 }),
            2 => tower(s, o, 3, d, leaf, room),
            _ if d == 0 => o.extend([0x82, 0, if leaf { 7 } else { 0xf4 }]),
            _ => {
                match s.draw(3) {
                    0 => o.extend([0x82, 1]),
                    1 => o.extend([0x82, 2, 0xc7]),
                    _ => o.extend([0x82, 3, 0xc9, 0x82, 3]),
                }
                tower(s, o, 0, d, leaf, room)
            }
        }
    }
}

/// one operation of the library; everything it made is gone when it returns
fn op(k: usize, b: &[u8], rec: &RecTy, st: u64) {
    let mut st = Style(st);
    let mut r = Reader::new(b);
    match k {
        0 => {
            let mut v = Validator::new(b);
            let mut n = 0;
            while v.remaining_bytes() > 0 && n < 2000 {
                n += 1;
                if v.next().is_err() {
                    break;
                }
            }
        }
        1 => {
            let mut n = 0;
            while !r.is_finished() && n < 2000 {
                n += 1;
                if r.data().is_err() {
                    break;
                }
            }
        }
        2 => {
            if let Ok(d) = r.data() {
                let o = d.owned();
                let x = enc(&o);
                drop(x);
                let o2 = o.clone();
                drop(o);
                drop(o2);
            }
        }
        3 => drop(r.decode::<DataOwned>()),
        4 => {
            if let Ok(s) = r.exact_decodable_slice::<DataOwned>() {
                let o = s.to_owned();
                drop(o.unserialize());
            }
        }
        5 => {
            if let Ok(s) = r.exact_decodable_data::<DataOwned>() {
                drop(s.clone().untype());
            }
        }
        6 => {
            if let Ok(x) = r.bytes() {
                drop(x.to_vec());
                drop(enc(&x.owned()));
            }
        }
        7 => {
            if let Ok(x) = r.text() {
                drop(x.to_string());
                drop(enc(&x.owned().borrow()));
            }
        }
        8 => {
            if let Ok(x) = r.array() {
                let o = x.owned();
                drop(enc(&o.borrow()));
            }
        }
        9 => {
            if let Ok(x) = r.map() {
                let o = x.owned();
                drop(enc(&o.borrow()));
            }
        }
        10 => {
            if let Ok(x) = r.tag() {
                let o = x.owned();
                drop(enc(&o.borrow()));
                drop(x.decode_data::<DataOwned>());
            }
        }
        11 => {
            if let Ok(x) = r.array() {
                drop(x.to_vec(kdec));
            }
        }
        12 => {
            if let Ok(x) = r.map() {
                drop(x.to_vec(kdec, kdec));
            }
        }
        13 => drop(decode_vec::<DataOwned>(&mut r)),
        14 => drop(decode_vec::<u64>(&mut r)),
        15 => match st.pick(6) {
            0 => drop(r.decode::<StandardDateTime>()),
            1 => drop(r.decode::<PositiveBignum>()),
            2 => drop(r.decode::<NegativeBignum>()),
            3 => drop(r.decode::<EncodedCBOR>().map(|e| e.to_bytes())),
            4 => drop(r.decode::<RationalNumber>()),
            _ => drop(RationalNumber::read(&mut r)),
        },
        16 => match st.pick(5) {
            0 => drop(r.decode::<String>()),
            1 => drop(r.decode::<Vec<u8>>()),
            2 => drop(r.decode::<[u8; 32]>()),
            3 => drop(r.decode::<CborDataOf<DataOwned>>()),
            _ => drop(r.decode::<u64>()),
        },
        17 => match st.pick(3) {
            0 => drop((rec.dec)(b, &mut st)),
            1 => drop((rec.whole)(b, &mut st)),
            _ => drop((rec.typed)(b, &mut st)),
        },
        18 => {
            let mut w = Writer::new_from_vec(b.to_vec());
            w.bool(true);
            let d = w.finalize_data();
            drop(d.decode::<DataOwned>());
            drop(d.validate_as::<RationalNumber>());
            drop(d.clone());
        }
        20 => drop(r.decode::<Tree>()),
        21 => match st.pick(5) {
            0 => drop(r.decode::<RowA>()),
            1 => drop(decode_from_bytes::<RowA>(b)),
            2 => drop(r.exact_decodable_slice::<RowA>().is_ok()),
            3 => drop(r.exact_decodable_data::<RowA>().is_ok()),
            _ => drop(decode_vec::<LevelA>(&mut r)),
        },
        _ => {
            let mut s = State::new();
            let mut at = 0;
            while at < b.len() {
                match lead(&b[at..]) {
                    Ok(l) => {
                        if state_feed(&mut s, l).is_err() {
                            break;
                        }
                        at += match l {
                            Lead::Val { size, .. } => size,
                            _ => 1,
                        };
                    }
                    Err(_) => break,
                }
            }
        }
    }
}

pub struct J {
    recs: Vec<RecTy>,
    seen: Vec<Vec<u8>>,
    kept: isize,
}

/// what was set aside only once: no leak, but no more than a small constant either
fn keeps(kept: &mut isize, left: isize, what: &str) -> R {
    *kept += left;
    if *kept > CONST as isize {
        return viol("kept", format!("after {} there are {} bytes allocated that belong to nothing", what, kept));
    }
    Ok(())
}

fn measure(c: &mut Ctx, kept: &mut isize, k: usize, b: &[u8], rec: &RecTy) -> R {
    let st = c.s.draw(1 << 20);
    c.ops += 1;
    c.probe(OPS[k]);
    if k == 20 && b.len() > 20_000 {
        return Ok(());
    }
    let counted = |n: u64| COUNT.with(|c| *c.borrow_mut() = Count { calls: 0, max: n, depth: 0, st });
    // a member is decoded once; some more for each level are granted
    let calls = (b.len() as u64 + 1).saturating_mul(4).saturating_mul(1 + levels(b));
    counted(calls);
    let t0 = cpu();
    let (_, peak, left) = alloc::scope(|| op(k, b, rec, st));
    let dt = cpu() - t0;
    if COUNT.with(|c| c.borrow().calls) > calls {
        return viol("work", format!("{} on {} received bytes ({}) calls the user's decode functions more than {} times", OPS[k], b.len(), hex(b, 60), calls));
    }
    counted(calls);
    keeps(kept, left, OPS[k])?;
    let max = CONST + FACTOR * b.len();
    if peak > max {
        return viol("memory", format!("{} on {} received bytes ({}) allocates {} bytes (bound {})", OPS[k], b.len(), hex(b, 60), peak, max));
    }
    let div = 1 + CONFIRM.load(std::sync::atomic::Ordering::Relaxed) as u64;
    let work = CPU_NS.min(BASE_NS + BYTE_NS.saturating_mul(b.len() as u64).saturating_mul(1 + levels(b))) / div;
    // time is not the simulator's: a slow moment of the machine is no verdict
    if dt > work && (0..4).all(|_| {
        counted(calls);
        let t0 = cpu();
        op(k, b, rec, st);
        cpu() - t0 > work
    }) {
        return viol("work", format!("{} on {} received bytes ({}) takes {} ms of processor time", OPS[k], b.len(), hex(b, 60), dt / 1_000_000));
    }
    if left > 0 {
        // a one-time cost is no leak: it does not come back
        let mut worst = left;
        for _ in 0..3 {
            counted(calls);
            let (_, _, l) = alloc::scope(|| op(k, b, rec, st));
            *kept += l;
            worst = worst.min(l);
        }
        if worst > 0 {
            return viol("leak", format!("{} on {} received bytes ({}) leaves {} bytes allocated, every time", OPS[k], b.len(), hex(b, 60), worst));
        }
    }
    Ok(())
}

impl Judge for J {
    fn msg(&mut self, c: &mut Ctx, m: &Msg) -> R {
        let b = &m.bytes[..];
        // the operation that gets furthest, and some others
        let first = match b.first().map(|x| x >> 5) {
            Some(2) => 6,
            Some(3) => 7,
            Some(4) => [8usize, 11, 13, 14][c.s.draw(4) as usize],
            Some(5) => [9usize, 12][c.s.draw(2) as usize],
            Some(6) => [10usize, 15][c.s.draw(2) as usize],
            _ => 16,
        };
        for i in 0..4 {
            let k = if i == 0 { first } else { c.s.draw(22) as usize };
            let rec = match m.rec {
                Some(r) if c.s.chance(2, 3) => r,
                _ => self.recs[c.s.draw(self.recs.len() as u64) as usize],
            };
            measure(c, &mut self.kept, k, b, &rec)?;
        }
        if self.seen.len() < 24 && b.len() < 20_000 {
            self.seen.push(b.to_vec());
        }
        Ok(())
    }
    fn log(&mut self, c: &mut Ctx, b: &[u8]) -> R {
        let rec = self.recs[0];
        measure(c, &mut self.kept, 0, b, &rec)?;
        measure(c, &mut self.kept, 1, b, &rec)
    }
    /// one process serves all connections at once, holding what it has read
    fn end(&mut self, c: &mut Ctx) -> R {
        for _ in 0..c.s.draw(3) {
            let most = if c.s.chance(1, 4) { 60 } else { 30 };
            let depth = c.s.draw(most) as usize;
            let leaf = c.s.chance(2, 3);
            let mut b = vec![];
            tower(&mut c.s, &mut b, 0, depth, leaf, &mut 150);
            if c.s.chance(1, 4) {
                let at = c.s.draw(b.len() as u64) as usize;
                b[at] = c.s.draw(256) as u8;
                c.fault("byte-overwrite", at as u64);
            }
            COUNT.with(|c| *c.borrow_mut() = Count { calls: 0, max: 1 << 20, depth: 0, st: 0 });
            if depth > 10 && Reader::new(&b).decode::<RowA>().is_ok() {
                c.probe("tower-whole");
            }
            let rec = self.recs[0];
            measure(c, &mut self.kept, 21, &b, &rec)?;
            measure(c, &mut self.kept, 20, &b, &rec)?;
        }
        if self.seen.is_empty() {
            return Ok(());
        }
        let total: usize = self.seen.iter().map(|b| b.len()).sum();
        let n = self.seen.len() as u64;
        let steps: Vec<(usize, u64)> = (0..n * 3).map(|_| (c.s.draw(n) as usize, c.s.draw(6))).collect();
        for (k, w) in &steps {
            c.ev("serve", *k as u64, *w);
        }
        let seen = &self.seen;
        let steps = &steps;
        c.ops += steps.len() as u64;
        let serve = || {
            let mut rs: Vec<Reader> = seen.iter().map(|b| Reader::new(b)).collect();
            let mut held: Vec<Option<DataOwned>> = seen.iter().map(|_| None).collect();
            let mut lent: Vec<Option<Data>> = seen.iter().map(|_| None).collect();
            for (k, what) in steps {
                let r = &mut rs[*k];
                match what {
                    0 => held[*k] = r.data().ok().map(|d| d.owned()),
                    1 => lent[*k] = r.data().ok(),
                    2 => drop(r.exact_decodable_data::<DataOwned>()),
                    3 => held[*k] = r.decode::<DataOwned>().ok(),
                    4 => drop(Validator::new(&seen[*k]).next().map(|_| ())),
                    _ => *r = Reader::new(&seen[*k]),
                }
            }
            drop(lent);
            drop(held);
        };
        let (_, peak, left) = alloc::scope(serve);
        let max = CONST + FACTOR * total;
        if peak > max {
            return viol("memory", format!("{} connections with {} received bytes allocate {} bytes (bound {})", n, total, peak, max));
        }
        keeps(&mut self.kept, left, "serving connections")?;
        if left > 0 {
            let mut worst = left;
            for _ in 0..3 {
                let (_, _, l) = alloc::scope(serve);
                worst = worst.min(l);
            }
            if worst > 0 {
                return viol("leak", format!("serving {} connections leaves {} bytes allocated, every time", n, worst));
            }
        }
        Ok(())
    }
}

pub fn run(c: &mut Ctx) -> R {
    let mut j = J { recs: zoo::all(), seen: vec![], kept: 0 };
    world(c, &mut j, 12)
}
