//! Replicas whose stored records rot. A replica learns what to fetch again from
//! nothing but the names in a refusal; the fetch goes over a lossy link, and what
//! was repaired but not yet synced is lost in a crash.
use crate::ctx::*;
use crate::paths::*;
use crate::refcbor::*;
use crate::scen::hostile;
use cbored::*;

pub const RULE: &str = "a run is 1-3 replicas of a source peer's 1-4 nested records; members rot in place (also during the repair), replicas decode by every route, follow the reported path to the member, fetch just that over a link that loses, duplicates, delays and reorders, and lose unsynced repairs in crashes; every reported path is compared with the reference; non-trivial: at least one fault fired and at least one path was judged; distinct by the hash of every event and payload";

struct Copy {
    ty: usize,
    durable: Vec<u8>,
    cur: Vec<u8>,
    /// repairs made since faults last touched this copy
    streak: usize,
}
enum Ev {
    Scan(usize, usize),
    /// replica, record, names
    Ask(usize, usize, Vec<String>),
    Answer(usize, usize, Vec<String>, usize, Vec<u8>),
    Rot(usize, usize),
    Sync(usize, usize),
    Crash(usize),
    Batch(usize, usize),
}

fn flat(n: &[Node]) -> Vec<u8> {
    n.iter().flat_map(|x| x.enc()).collect()
}
/// the record's elements, if it is nothing but whole elements
fn elements(b: &[u8]) -> Option<Vec<Node>> {
    let mut at = 0;
    let mut out = vec![];
    while at < b.len() {
        let (n, e) = parse(&b[at..])?;
        at += e;
        out.push(n);
    }
    Some(out)
}
fn names(e: &DecodeError) -> Vec<String> {
    e.context().iter().rev().map(|x| x.to_string()).collect()
}
fn show(w: &[Comp]) -> String {
    w.iter()
        .map(|x| match x {
            Comp::T(t) => t.to_string(),
            Comp::M(x) => x.clone(),
            Comp::Leaf(x) => x.to_string(),
            Comp::Opt(x) => format!("[{}]", x),
        })
        .collect::<Vec<_>>()
        .join("->")
}

/// the refusal says what the reference says, in every form it can be asked for
fn agree(c: &mut Ctx, e: &DecodeError, want: &[Comp], what: &str, b: &[u8]) -> R<Vec<String>> {
    c.ops += 1;
    let got = names(e);
    if !same(&got, want) {
        return viol("path", format!("{}: the refusal names {} instead of {}, on {}", what, got.join("->"), show(want), hex(b, 120)));
    }
    let path = e.context_as_path();
    if path != got.join("->") {
        return viol("rendered-path", format!("{}: context is {:?} but the path reads {}", what, e.context(), path));
    }
    if !format!("{}", e).starts_with(&path) {
        return viol("rendered-path", format!("{}: the message {:?} does not start with the path {}", what, e.to_string(), path));
    }
    c.probe("path-judged");
    c.probe(match got.len() {
        0..=1 => "path-1",
        2..=3 => "path-2-3",
        4..=6 => "path-4-6",
        7..=10 => "path-7-10",
        _ => "path-11+",
    });
    Ok(got)
}

/// decode a record by some route and judge the outcome; the names reported, if any
fn decode(c: &mut Ctx, ty: usize, b: &[u8]) -> R<Option<Vec<String>>> {
    let t = &TYPES[ty];
    let want = judge(t.def, b);
    let one = !t.seq && matches!(wf(b), Wf::Ok(e) if e == b.len());
    let route = c.s.draw(if one { 13 } else { PLAIN });
    let lead = [0, 1, 2, 9, 10, 23, 24, 300][c.s.weighted(&[4, 2, 2, 1, 1, 1, 1, 1])];
    let got = (t.dec)(b, route, lead);
    let what = format!("{} by {}", t.def.name, PATH_ROUTES[route as usize]);
    c.probe(PATH_ROUTES[route as usize]);
    c.ev("decode", ty as u64, route);
    match (got, want) {
        (Ok(()), Ok(end)) => {
            if end < b.len() && route != 1 {
                return viol("accepted", format!("{} accepts {} trailing bytes: {}", what, b.len() - end, hex(b, 120)));
            }
            // a reader of a stream does not mind what is behind
            Ok(if end < b.len() { Some(vec![]) } else { None })
        }
        (Ok(()), Err(w)) => viol("accepted", format!("{} accepts a record whose {} is damaged: {}", what, show(&w), hex(b, 120))),
        (Err(e), Err(w)) => {
            let n = agree(c, &e, &w, &what, b)?;
            c.note(|| format!("refused: {}", e));
            Ok(Some(n))
        }
        (Err(e), Ok(end)) if end < b.len() => {
            // what is behind the record is refused in the name of the record
            if !matches!(route, 5 | 6) {
                agree(c, &e, &[Comp::T(t.def.name)], &what, b)?;
            }
            Ok(Some(vec![]))
        }
        (Err(e), Ok(_)) => viol("refused", format!("{} refuses a good record: {} on {}", what, e, hex(b, 120))),
    }
}

/// damage one place of the record so that it is refused; the kind of damage
fn rot(c: &mut Ctx, ty: usize, clean: &[Node], b: &mut Vec<u8>) -> Option<&'static str> {
    let t = &TYPES[ty];
    let refused = |b: &[u8]| !matches!(judge(t.def, b), Ok(e) if e == b.len());
    let seen = b.clone();
    if c.s.chance(1, 7) {
        // raw damage: the record may no longer be whole elements
        let k = damage(&mut c.s, b, &[]);
        if *b != seen && refused(b) {
            return Some(DAMAGE[k]);
        }
        *b = seen;
        return None;
    }
    // try the damage on a clean copy first: a damage that goes unnoticed is not one
    let mut trial = clean.to_vec();
    let mut cur = elements(b)?;
    let total: usize = clean.iter().map(hostile::size).sum();
    let steps = pick_steps(clean, c.s.draw(total as u64) as usize)?;
    let mut place = vec![at(&trial, &steps)?.clone()];
    let kind = match c.s.draw(5) {
        0 => {
            place[0] = spoil(&mut c.s, &place[0]);
            "member-spoiled"
        }
        1 => {
            place[0] = Gen::plain().node(&mut c.s);
            "member-replaced"
        }
        _ => hostile::restruct(&mut c.s, &mut place)?,
    };
    if place.len() != 1 {
        return None;
    }
    let new = place.pop().unwrap();
    *at_mut(&mut trial, &steps)? = new.clone();
    if !refused(&flat(&trial)) {
        return None;
    }
    *at_mut(&mut cur, &steps)? = new;
    let now = flat(&cur);
    if now == seen || !refused(&now) {
        return None;
    }
    *b = now;
    Some(kind)
}
fn spoil(s: &mut crate::rng::Src, n: &Node) -> Node {
    let v = match s.draw(3) {
        0 => 256,
        1 => 65536,
        _ => 1 << 32,
    };
    match n {
        Node::U(..) => Node::U(min_w(v), v),
        Node::T(_) => Node::T(Str::D(0, vec![b'a', 0xff])),
        Node::B(x) => {
            let mut b = x.concat();
            b.push(1);
            Node::B(Str::D(min_w(b.len() as u64), b))
        }
        _ => Node::C(3),
    }
}
/// the steps to the `k`-th node in preorder
fn pick_steps(rec: &[Node], k: usize) -> Option<Vec<usize>> {
    fn down(n: &Node, k: &mut usize, at: &mut Vec<usize>) -> bool {
        if *k == 0 {
            return true;
        }
        *k -= 1;
        let kids: Vec<&Node> = match n {
            Node::A(_, v) => v.iter().collect(),
            Node::M(_, v) => v.iter().flat_map(|(a, b)| [a, b]).collect(),
            Node::G(_, _, x) => vec![x],
            _ => vec![],
        };
        for (i, x) in kids.into_iter().enumerate() {
            at.push(i);
            if down(x, k, at) {
                return true;
            }
            at.pop();
        }
        false
    }
    let mut k = k;
    for (i, n) in rec.iter().enumerate() {
        let mut at = vec![i];
        if down(n, &mut k, &mut at) {
            return Some(at);
        }
    }
    None
}

/// several copies of one record type in a row, or in a row of rows
fn batch(c: &mut Ctx, ty: usize, rows: &[Vec<u8>], indef: bool, nested: bool) -> R {
    let t = &TYPES[ty];
    let row = |rows: &[Vec<u8>]| {
        let mut b = vec![];
        if indef {
            b.push(0x9f)
        } else {
            head(&mut b, 4, min_w(rows.len() as u64), rows.len() as u64);
        }
        rows.iter().for_each(|r| b.extend_from_slice(r));
        if indef {
            b.push(0xff)
        }
        b
    };
    let seq = |p: Vec<Comp>, i: usize| {
        let mut o = vec![Comp::M("Vec".into()), Comp::M(i.to_string())];
        o.extend(p);
        o
    };
    let first = |rows: &[Vec<u8>]| rows.iter().enumerate().find_map(|(i, r)| judge(t.def, r).err().map(|w| seq(w, i)));
    let (b, mut want) = if nested {
        // cut the row into up to three
        let x = c.s.draw(rows.len() as u64 + 1) as usize;
        let y = x + c.s.draw((rows.len() - x) as u64 + 1) as usize;
        let parts = [&rows[..x], &rows[x..y], &rows[y..]];
        let w = parts.iter().enumerate().find_map(|(i, r)| first(r).map(|w| seq(w, i)));
        (row(&parts.iter().map(|r| row(r)).collect::<Vec<_>>()), w)
    } else {
        (row(rows), first(rows))
    };
    if rows.iter().any(|r| !matches!(wf(r), Wf::Ok(e) if e == r.len())) {
        if matches!(wf(&b), Wf::Ok(_)) {
            return Ok(());
        }
        want = Some(vec![Comp::M("Vec".into())]);
    }
    let route = 13 + nested as u64;
    let what = format!("{} of {} {}", PATH_ROUTES[route as usize], rows.len(), t.def.name);
    c.probe(PATH_ROUTES[route as usize]);
    match ((t.dec)(&b, route, 0), want) {
        (Ok(()), None) => Ok(()),
        (Err(e), Some(w)) => agree(c, &e, &w, &what, &b).map(|_| ()),
        (Ok(()), Some(w)) => viol("accepted", format!("{} accepts a row whose {} is damaged: {}", what, show(&w), hex(&b, 120))),
        (Err(e), None) => viol("refused", format!("{} refuses a good row: {} on {}", what, e, hex(&b, 120))),
    }
}

/// types that contain themselves, as deep as the sender likes
#[derive(CborRepr)]
#[cborrepr(structure = "mapint", map_starts_at = 1)]
struct Chain {
    #[cborrepr(mandatory)]
    val: u16,
    next: Option<Held>,
}
struct Held(#[allow(dead_code)] Box<Chain>);
impl Decode for Held {
    fn decode<'a>(r: &mut Reader<'a>) -> Result<Self, DecodeError> {
        Ok(Held(Box::new(r.decode()?)))
    }
}
impl Encode for Held {
    fn encode(&self, w: &mut Writer) {
        w.encode(&*self.0)
    }
}
#[derive(CborRepr)]
#[cborrepr(enumtype = "tagvariant")]
enum Wood {
    Leaf(#[allow(dead_code)] bool),
    Fork(#[allow(dead_code)] u8, #[allow(dead_code)] Vec<Wood>),
}

/// a record of such a type, refused at one place far inside
fn deep(c: &mut Ctx) -> R {
    let depth = match c.s.draw(30) {
        0 => 900 + c.s.draw(200),
        1..=4 => 120 + c.s.draw(150),
        5..=12 => 20 + c.s.draw(60),
        _ => c.s.draw(20),
    };
    let wood = c.s.draw(2) == 1;
    let (mut b, mut want) = (vec![], vec![]);
    let mut close: Vec<Vec<u8>> = vec![];
    let rows = 1 + c.s.draw(3);
    for i in 0..depth {
        if wood {
            let at = i % rows;
            b.extend([0x83, 1, 7]);
            b.push(0x80 + rows as u8);
            for _ in 0..at {
                b.extend([0x82, 0, 0xf5]);
            }
            close.push((0..rows - at - 1).flat_map(|_| [0x82, 0, 0xf4]).collect());
            want.extend([Comp::T("Wood"), Comp::M("Fork".into()), Comp::M("field1".into()), Comp::M("Vec".into()), Comp::M(at.to_string())]);
        } else {
            b.extend([0xa2, 1, 5, 2]);
            want.extend([Comp::T("Chain"), Comp::M("next".into())]);
        }
    }
    let kind = c.s.draw(4);
    let (bytes, tail): (&[u8], Vec<Comp>) = match (wood, kind) {
        (true, 0) => (&[0x82, 0, 0x61, b'x'], vec![Comp::T("Wood"), Comp::M("Leaf".into()), Comp::M("field0".into()), Comp::Leaf("bool")]),
        (true, 1) => (&[0xa0], vec![Comp::T("Wood")]),
        (true, 2) => (&[0x82, 9, 0], vec![Comp::T("Wood")]),
        (true, _) => (&[0x82, 0, 0xf5], vec![]),
        (false, 0) => (&[0xa1, 1, 0x1a, 0, 1, 0, 0], vec![Comp::T("Chain"), Comp::M("val".into()), Comp::Leaf("u16")]),
        (false, 1) => (&[0x41, 0], vec![Comp::T("Chain")]),
        (false, 2) => (&[0xa2, 1, 0, 3, 0], vec![Comp::T("Chain")]),
        (false, _) => (&[0xa1, 1, 0], vec![]),
    };
    b.extend_from_slice(bytes);
    for z in close.iter().rev() {
        b.extend_from_slice(z);
    }
    let want = if tail.is_empty() { vec![] } else { [want, tail].concat() };
    c.fault("damage-far-inside", depth);
    let typed = c.s.draw(2) == 1;
    fn go<T: Decode>(b: &[u8], typed: bool) -> Option<DecodeError> {
        if typed {
            Reader::new(b).exact_decodable_slice::<T>().err()
        } else {
            decode_from_bytes::<T>(b).err()
        }
    }
    let got = if wood { go::<Wood>(&b, typed) } else { go::<Chain>(&b, typed) };
    match (got, want.is_empty()) {
        (None, true) => Ok(()),
        (Some(e), false) => agree(c, &e, &want, "a record that contains itself", &b).map(|_| ()),
        (None, false) => viol("accepted", format!("a record whose {} is damaged is accepted: {}", show(&want), hex(&b, 120))),
        (Some(e), true) => viol("refused", format!("a good record is refused: {} on {}", e, hex(&b, 120))),
    }
}

pub fn run(c: &mut Ctx) -> R {
    c.calm = c.s.chance(1, 12);
    if c.chaos(1, 10) {
        deep(c)?;
    }
    let g = if c.s.chance(1, 2) { Gen::plain() } else { Gen::swarm(&mut c.s) };
    let nrec = 1 + c.s.draw(4) as usize;
    let nrep = 1 + c.s.draw(3) as usize;
    let (widths, indef) = ([0, 0, 30][c.s.draw(3) as usize], [0, 0, 20][c.s.draw(3) as usize]);
    let shuffle = c.s.draw(2) == 1;
    let mut source: Vec<(usize, Vec<Node>)> = vec![];
    for _ in 0..nrec {
        let ty = c.s.weighted(&[4, 4, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 2, 2, 2]);
        let rec = gen_rec(TYPES[ty].def, &g, &mut c.s);
        let rec: Vec<Node> = rec.iter().map(|n| hostile::foreign(&mut c.s, n, widths, indef, shuffle)).collect();
        if flat(&rec).len() > 6000 {
            continue;
        }
        source.push((ty, rec));
    }
    let mut copies: Vec<Vec<Copy>> = (0..nrep)
        .map(|_| {
            source
                .iter()
                .map(|(ty, r)| Copy { ty: *ty, durable: flat(r), cur: flat(r), streak: 0 })
                .collect()
        })
        .collect();
    let mut q: Queue<Ev> = Queue::new();
    for i in 0..nrep {
        for k in 0..source.len() {
            if !c.calm {
                for _ in 0..1 + c.s.draw(4) {
                    q.at(c.s.draw(60), Ev::Rot(i, k));
                }
                if c.s.chance(1, 3) {
                    // more of it while the repair is under way
                    q.at(c.s.draw(6000), Ev::Rot(i, k));
                }
            }
            q.at(100 + c.s.draw(1000), Ev::Scan(i, k));
            if c.s.chance(1, 3) {
                q.at(c.s.draw(4000), Ev::Batch(i, k));
            }
            q.at(c.s.draw(3000), Ev::Sync(i, k));
        }
        if c.chaos(1, 3) {
            q.at(c.s.draw(6000), Ev::Crash(i));
        }
    }
    let calm_at = 8_000; // nothing is lost, damaged or crashes after this
    let mut left = 6000;
    while let Some((t, ev)) = q.pop() {
        c.now = c.now.max(t);
        left -= 1;
        if left == 0 {
            return viol("no-progress", "the repair does not come to an end although nothing is damaged any more");
        }
        match ev {
            Ev::Rot(i, k) => {
                let (ty, clean) = (source[k].0, source[k].1.clone());
                let mut b = copies[i][k].cur.clone();
                if let Some(kind) = rot(c, ty, &clean, &mut b) {
                    c.fault(kind, i as u64);
                    c.data(&b);
                    c.note(|| format!("replica {} record {} ({}): {}", i, k, TYPES[ty].def.name, hex(&b, 100)));
                    let x = &mut copies[i][k];
                    x.cur = b.clone();
                    x.durable = b;
                    x.streak = 0;
                    q.at(c.now + 1 + c.s.draw(900), Ev::Scan(i, k));
                }
            }
            Ev::Sync(i, k) => {
                c.ev("sync", i as u64, k as u64);
                let x = &mut copies[i][k];
                x.durable = x.cur.clone();
            }
            Ev::Crash(i) => {
                c.fault("crash", i as u64);
                for k in 0..source.len() {
                    let lost = copies[i][k].cur != copies[i][k].durable;
                    if lost {
                        c.fault("lost-write", i as u64);
                    }
                    let x = &mut copies[i][k];
                    x.cur = x.durable.clone();
                    x.streak = 0;
                    q.at(c.now + 1 + c.s.draw(50), Ev::Scan(i, k));
                }
            }
            Ev::Batch(i, k) => {
                let ty = copies[i][k].ty;
                if TYPES[ty].seq {
                    continue;
                }
                // the copies of this and other replicas in a row
                let good = flat(&source[k].1);
                let n = match c.s.weighted(&[2, 3, 3, 1, 1, 1, 1]) {
                    6 if good.len() < 12 && c.s.chance(1, 30) => 65_530 + c.s.draw(20),
                    6 if good.len() < 60 => 250 + c.s.draw(60),
                    k => [1, 2, 3, 10, 11, 26, 4][k],
                };
                // good ones up to some place
                let from = if n > 65_000 { n - c.s.draw(14) } else { c.s.draw(n + 1) };
                let rows: Vec<Vec<u8>> = (0..n)
                    .map(|j| match if j < from { 2 } else { c.s.draw(3) } {
                        0 => copies[i][k].cur.clone(),
                        1 => copies[c.s.draw(nrep as u64) as usize][k].cur.clone(),
                        _ => good.clone(),
                    })
                    .collect();
                c.ev("batch", i as u64, n);
                let indef = c.s.chance(1, 4);
                let nested = c.s.chance(1, 3);
                batch(c, ty, &rows, indef, nested)?;
            }
            Ev::Scan(i, k) => {
                let ty = copies[i][k].ty;
                let b = copies[i][k].cur.clone();
                c.ev("scan", i as u64, k as u64);
                match decode(c, ty, &b)? {
                    None => {
                        if b != flat(&source[k].1) {
                            c.probe("unnoticed");
                        }
                        c.probe("record-good");
                    }
                    Some(path) => {
                        let d = 1 + c.s.draw(300);
                        let lose = c.now < calm_at && c.chaos(1, 8);
                        if lose {
                            c.fault("drop", i as u64);
                        } else {
                            q.at(c.now + d, Ev::Ask(i, k, path.clone()));
                            if c.now < calm_at && c.chaos(1, 10) {
                                c.fault("duplicate", i as u64);
                                q.at(c.now + d + c.s.draw(2000), Ev::Ask(i, k, path));
                            }
                        }
                        q.at(c.now + 900 + c.s.draw(200), Ev::Scan(i, k));
                    }
                }
            }
            Ev::Ask(i, k, path) => {
                // the source follows the names in its own, whole copy
                let rec = &source[k].1;
                let d = TYPES[source[k].0].def;
                let (steps, used) = locate(d, &path, rec);
                let bytes = match at(rec, &steps) {
                    Some(n) if used > 0 => n.enc(),
                    _ => flat(rec),
                };
                c.ev("ask", i as u64, used as u64);
                if c.now < calm_at && c.chaos(1, 8) {
                    c.fault("drop", 9);
                    continue;
                }
                let mut delay = 1 + c.s.draw(300);
                if c.now < calm_at && c.chaos(1, 12) {
                    c.fault("stall", i as u64);
                    delay += c.s.draw(3000);
                }
                q.at(c.now + delay, Ev::Answer(i, k, path, used, bytes));
            }
            Ev::Answer(i, k, path, used, bytes) => {
                let ty = copies[i][k].ty;
                let d = TYPES[ty].def;
                let b = copies[i][k].cur.clone();
                // an answer counts only while it is what the copy lacks
                let now = match judge(d, &b) {
                    Err(w) => same(&path, &w),
                    Ok(e) => e < b.len() && path.is_empty(),
                };
                if !now {
                    c.probe("stale-answer");
                    continue;
                }
                let fresh = match elements(&b) {
                    // not even elements: only the whole record helps
                    _ if used == 0 => bytes,
                    None => flat(&source[k].1),
                    Some(mut rec) => {
                        let (steps, here) = locate(d, &path[..used], &rec);
                        match (at_mut(&mut rec, &steps), parse(&bytes)) {
                            (Some(n), Some((new, _))) if here == used => {
                                if *n == new {
                                    return viol(
                                        "wrong-member",
                                        format!("{}: the refusal leads to {}, which is as it should be, in {}", d.name, path[..used].join("->"), hex(&b, 120)),
                                    );
                                }
                                *n = new;
                                c.probe("member-repaired");
                                flat(&rec)
                            }
                            _ => flat(&source[k].1),
                        }
                    }
                };
                c.ev("repair", i as u64, used as u64);
                c.data(&fresh);
                let limit = source[k].1.iter().map(hostile::size).sum::<usize>() + 1;
                let x = &mut copies[i][k];
                x.cur = fresh;
                x.streak += 1;
                if x.streak > limit {
                    return viol("no-progress", format!("{}: {} repairs of a record of {} nodes did not mend it", d.name, x.streak, limit - 1));
                }
                q.at(c.now + 1 + c.s.draw(40), Ev::Scan(i, k));
                if c.s.chance(1, 2) {
                    q.at(c.now + c.s.draw(600), Ev::Sync(i, k));
                }
            }
        }
    }
    // after the last fault every copy is as good as the source again
    for (i, r) in copies.iter().enumerate() {
        for (k, x) in r.iter().enumerate() {
            if !matches!(judge(TYPES[x.ty].def, &x.cur), Ok(e) if e == x.cur.len()) {
                return viol("not-repaired", format!("replica {} record {} is still damaged at the end: {}", i, k, hex(&x.cur, 120)));
            }
        }
    }
    Ok(())
}
