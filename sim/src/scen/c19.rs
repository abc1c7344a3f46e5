//! A compare-and-set store with watching clients. Everybody keeps decoded values
//! and decides by comparing them: the server whether a proposal still matches, a
//! client whether anything changed, an inbox whether it has seen a value before.
//! A model that compares bytes says what each of these decisions has to be.
use crate::api::*;
use crate::ctx::*;
use crate::entry::{all_text_ok, raw_data};
use crate::refcbor::*;
use crate::rng::Src;
use crate::scen::hostile;
use cbored::tagged::*;
use cbored::*;
use std::borrow::Borrow;

pub const RULE: &str = "a run is a server of 1-3 registers and 1-4 clients that read, watch, compare-and-set and deduplicate near variants of one value (one width, length form, chunk boundary, order, bit apart) over a network that loses, repeats, delays, reorders, damages and re-encodes, with server crashes and recovery from its log; non-trivial: at least one decision by comparison on two different encodings was judged; distinct by the hash of every event and payload";

type D<T> = Result<T, De>;

fn bad<T>(class: &str, msg: String) -> D<T> {
    Err(viol::<()>(class, msg).unwrap_err().into())
}

// --------------------------------------------------------------- variants ---

fn other_w(s: &mut Src, w: &mut W, v: u64) -> bool {
    let all: Vec<W> = [0u8, 1, 2, 4, 8].into_iter().filter(|x| *x >= min_w(v) && x != w).collect();
    if all.is_empty() {
        return false;
    }
    *w = all[s.draw(all.len() as u64) as usize];
    true
}
fn other_v(s: &mut Src, w: W, v: &mut u64) -> bool {
    // another number in the same header
    let x = match s.draw(4) {
        0 => v.wrapping_add(1),
        1 => v.wrapping_sub(1),
        2 => *v ^ (1 << s.draw(64)),
        _ => *v ^ (1 << s.draw(8 * (w as u64).max(1))),
    };
    if min_w(x) > w {
        return false;
    }
    *v = x;
    true
}
fn string(s: &mut Src, x: &mut Str, text: bool) -> bool {
    let ok = |b: &[u8]| !text || std::str::from_utf8(b).is_ok();
    match x {
        Str::D(w, b) => match s.draw(4) {
            0 => other_w(s, w, b.len() as u64),
            1 => {
                // the same in one chunk, or none
                let c = if b.is_empty() && s.draw(2) == 0 { vec![] } else { vec![(*w, b.clone())] };
                *x = Str::I(c);
                true
            }
            2 if !b.is_empty() => {
                let i = match s.draw(3) {
                    0 => 0,
                    1 => b.len() - 1,
                    _ => s.draw(b.len() as u64) as usize,
                };
                b[i] ^= if text { 1 } else { 1 << s.draw(8) };
                ok(b)
            }
            _ => {
                if s.draw(2) == 0 || b.is_empty() {
                    b.push(0)
                } else {
                    b.pop();
                }
                *w = (*w).max(min_w(b.len() as u64));
                ok(b)
            }
        },
        Str::I(v) => match s.draw(6) {
            0 if !v.is_empty() => {
                let i = s.draw(v.len() as u64) as usize;
                let (w, b) = &mut v[i];
                other_w(s, w, b.len() as u64)
            }
            1 => {
                let i = s.draw(v.len() as u64 + 1) as usize;
                v.insert(i, (0, vec![]));
                true
            }
            2 if v.len() > 1 => {
                // two chunks as one
                let i = s.draw(v.len() as u64 - 1) as usize;
                let (_, b) = v.remove(i + 1);
                v[i].1.extend_from_slice(&b);
                v[i].0 = v[i].0.max(min_w(v[i].1.len() as u64));
                true
            }
            3 if v.len() > 1 => {
                // a boundary elsewhere
                let i = s.draw(v.len() as u64 - 1) as usize;
                if v[i].1.is_empty() {
                    return false;
                }
                let x = v[i].1.pop().unwrap();
                v[i + 1].1.insert(0, x);
                v[i + 1].0 = v[i + 1].0.max(min_w(v[i + 1].1.len() as u64));
                ok(&v[i].1) && ok(&v[i + 1].1)
            }
            4 if !v.is_empty() => {
                let i = s.draw(v.len() as u64) as usize;
                let b = &mut v[i].1;
                if b.is_empty() {
                    return false;
                }
                let j = s.draw(b.len() as u64) as usize;
                b[j] ^= 1;
                ok(b)
            }
            _ => {
                let b: Vec<u8> = v.iter().flat_map(|c| c.1.clone()).collect();
                *x = Str::D(min_w(b.len() as u64), b);
                true
            }
        },
    }
}
fn container(s: &mut Src, l: &mut Option<W>, n: usize) -> bool {
    match l {
        Some(w) if s.draw(2) == 0 => other_w(s, w, n as u64),
        Some(_) => {
            *l = None;
            true
        }
        None => {
            *l = Some(min_w(n as u64));
            true
        }
    }
}

/// one small step away: false if there is none here
fn near(s: &mut Src, n: &mut Node) -> bool {
    match n {
        Node::U(w, v) | Node::N(w, v) => match s.draw(3) {
            0 => other_v(s, *w, v),
            1 => other_w(s, w, *v),
            _ => {
                *n = if let Node::U(w, v) = n {
                    Node::N(*w, *v)
                } else if let Node::N(w, v) = n {
                    Node::U(*w, *v)
                } else {
                    return false;
                };
                true
            }
        },
        Node::B(x) => {
            if s.chance(1, 6) && text_ok(x) {
                let x = x.clone();
                *n = Node::T(x);
                return true;
            }
            string(s, x, false)
        }
        Node::T(x) => {
            if s.chance(1, 6) {
                let x = x.clone();
                *n = Node::B(x);
                return true;
            }
            string(s, x, true)
        }
        Node::A(l, v) => match s.draw(5) {
            0 if v.len() > 1 => {
                let i = s.draw(v.len() as u64 - 1) as usize;
                v.swap(i, i + 1);
                true
            }
            1 if v.len() % 2 == 0 => {
                // the same members as pairs
                let l = match l {
                    Some(w) => Some((*w).max(min_w(v.len() as u64 / 2))),
                    None => None,
                };
                let v = v.chunks(2).map(|x| (x[0].clone(), x[1].clone())).collect();
                *n = Node::M(l, v);
                true
            }
            2 if !v.is_empty() => {
                v.pop();
                true
            }
            _ => container(s, l, v.len()),
        },
        Node::M(l, v) => match s.draw(5) {
            0 | 1 if v.len() > 1 => {
                let i = s.draw(v.len() as u64 - 1) as usize;
                v.swap(i, i + 1);
                true
            }
            2 if !v.is_empty() => {
                // key and value change places
                let i = s.draw(v.len() as u64) as usize;
                let (a, b) = v[i].clone();
                v[i] = (b, a);
                true
            }
            3 if !v.is_empty() => {
                let e = v[s.draw(v.len() as u64) as usize].clone();
                v.push(e);
                if let Some(w) = l {
                    *w = (*w).max(min_w(v.len() as u64))
                }
                true
            }
            _ => container(s, l, v.len()),
        },
        Node::G(w, t, x) => match s.draw(4) {
            0 => other_v(s, *w, t),
            1 => {
                let x = (**x).clone();
                *n = x;
                true
            }
            _ => other_w(s, w, *t),
        },
        Node::S(long, v) => match s.draw(2) {
            0 if *v < 20 => {
                *long = !*long;
                true
            }
            _ => {
                let x = *v ^ (1 << s.draw(8));
                if !*long && x >= 20 {
                    return false;
                }
                *v = x;
                true
            }
        },
        Node::C(v) => {
            if s.chance(1, 3) {
                // the same number as a byte
                let x = 20 + *v;
                *n = Node::S(true, x);
            } else {
                *v = (*v + 1 + s.draw(3) as u8) % 4;
            }
            true
        }
        Node::F16(x) => match s.draw(4) {
            0 => {
                *x ^= 0x8000;
                true
            }
            1 => {
                *x ^= 1 << s.draw(15);
                true
            }
            2 if *x & 0x7c00 != 0 && *x & 0x7c00 != 0x7c00 => {
                // the same value, wider
                let e = (*x >> 10 & 31) as u32 + 112;
                *n = Node::F32((*x as u32 & 0x8000) << 16 | e << 23 | (*x as u32 & 0x3ff) << 13);
                true
            }
            _ => {
                if *x & 0x7fff == 0 {
                    *n = Node::F32((*x as u32) << 16);
                } else {
                    *x = (*x & 0x8000) | 0x7c00 | s.draw(4) as u16
                }
                true
            }
        },
        Node::F32(x) => match s.draw(4) {
            0 => {
                *x ^= 1 << 31;
                true
            }
            1 => {
                *x ^= 1 << s.draw(31);
                true
            }
            2 => {
                let v = f32::from_bits(*x);
                if v.is_nan() {
                    *x ^= 1;
                } else {
                    *n = Node::F64((v as f64).to_bits());
                }
                true
            }
            _ => {
                *x = [0x7f80_0000, 0x7fc0_0000, 0x7f80_0001, 0xffc0_0000, 0x7fff_ffff, 0][s.draw(6) as usize];
                true
            }
        },
        Node::F64(x) => match s.draw(3) {
            0 => {
                *x ^= 1 << 63;
                true
            }
            1 => {
                *x ^= 1 << s.draw(63);
                true
            }
            _ => {
                *x = [0x7ff0 << 48, 0x7ff8 << 48, (0x7ff0 << 48) + 1, 0xfff8 << 48, 0, 1 << 63][s.draw(6) as usize];
                true
            }
        },
    }
}
/// the register's next value: near what is there, rarely something else
fn variant(s: &mut Src, g: &Gen, n: &Node) -> Node {
    let mut out = n.clone();
    match s.draw(12) {
        0 => return n.clone(),
        1 => return value(s, g),
        2 => {
            let shuffle = s.draw(2) == 0;
            return hostile::foreign(s, n, 60, 30, shuffle);
        }
        3 => {
            let mut v = vec![out];
            hostile::restruct(s, &mut v);
            return v.into_iter().next().unwrap_or(Node::C(2));
        }
        _ => (),
    }
    let total = hostile::size(&out) as u64;
    for _ in 0..if s.chance(1, 6) { 2 } else { 1 } {
        for _ in 0..6 {
            let mut k = if s.draw(3) == 0 { 0 } else { s.draw(total) as usize };
            let mut cand = out.clone();
            let done = match hostile::nth(&mut cand, &mut k) {
                Some(t) => near(s, t),
                None => false,
            };
            if done {
                out = cand;
                break;
            }
        }
    }
    out
}
fn value(s: &mut Src, g: &Gen) -> Node {
    match s.draw(6) {
        0 => g.leaf(s),
        1 => {
            let t = [0u64, 2, 3, 24, 30][s.draw(5) as usize];
            let big = |s: &mut Src| match s.draw(3) {
                0 => {
                    let v = g.int(s);
                    Node::U(g.width(s, v), v)
                }
                1 => Node::G(0, 2, Box::new(Node::B(Str::D(0, vec![s.draw(256) as u8])))),
                _ => Node::U(0, s.draw(24)),
            };
            let x = match t {
                0 => Node::T(Str::D(0, b"2013-03-21".to_vec())),
                30 => Node::A(if s.draw(2) == 0 { None } else { Some(0) }, vec![big(s), big(s)]),
                _ => {
                    let b: Vec<u8> = (0..s.draw(6)).map(|_| s.draw(256) as u8).collect();
                    Node::B(if s.draw(2) == 0 { Str::D(0, b) } else { Str::I(vec![(0, b.clone()), (1, b)]) })
                }
            };
            Node::G(min_w(t), t, Box::new(x))
        }
        _ => {
            for _ in 0..4 {
                let n = g.node(s);
                if usable(&n) {
                    return n;
                }
            }
            g.leaf(s)
        }
    }
}
fn depth(n: &Node) -> usize {
    1 + match n {
        Node::A(_, v) => v.iter().map(depth).max().unwrap_or(0),
        Node::M(_, v) => v.iter().map(|(a, b)| depth(a).max(depth(b))).max().unwrap_or(0),
        Node::G(_, _, x) => depth(x),
        _ => 0,
    }
}
fn usable(n: &Node) -> bool {
    hostile::size(n) < 600 && depth(n) < 40 && all_text_ok(n)
}

// ------------------------------------------------------------- comparing ---

/// a value as somebody keeps it
struct Kept {
    node: Node,
    bytes: Vec<u8>,
    data: DataOwned,
    raw: CborData,
}

/// take the element out of a message, by one of the ways there are
fn keep(b: &[u8], n: &Node, st: &mut Style) -> D<Kept> {
    // the receive buffer is gone afterwards
    let mut buf = b.to_vec();
    let raw = {
        let mut r = Reader::new(&buf);
        let raw: CborData = match st.pick(4) {
            0 => r.exact_decodable_slice::<DataOwned>()?.untype().to_owned(),
            1 => r.exact_decodable_data::<DataOwned>()?.untype(),
            2 => {
                let mut w = Writer::new();
                w.data(&r.data()?);
                w.finalize_data()
            }
            _ => raw_data(b),
        };
        raw
    };
    let data = match st.pick(6) {
        0 => Reader::new(&buf).data()?.owned(),
        1 => Reader::new(&buf).decode::<DataOwned>()?,
        2 => decode_from_bytes::<DataOwned>(&buf)?,
        3 => raw.decode::<DataOwned>()?,
        4 => Reader::new(&buf).data()?.owned().borrow().owned(),
        _ => raw.validate_as::<DataOwned>()?.unserialize(),
    };
    buf.iter_mut().for_each(|x| *x = !*x);
    drop(buf);
    let raw = if st.pick(2) == 0 { raw.clone() } else { raw };
    let data = if st.pick(2) == 0 { data.clone() } else { data };
    Ok(Kept { node: n.clone(), bytes: b.to_vec(), data, raw })
}
impl Kept {
    /// another copy, by one of the ways there are
    fn again(&self, st: &mut Style) -> D<Kept> {
        match st.pick(4) {
            0 => keep(&enc(&self.data), &self.node, st),
            1 => keep(&enc(&self.raw), &self.node, st),
            2 => keep(&enc(&self.data.borrow()), &self.node, st),
            _ => Ok(Kept { node: self.node.clone(), bytes: self.bytes.clone(), data: self.data.borrow().owned(), raw: self.raw.clone() }),
        }
    }
}

fn eq<T: PartialEq + ?Sized>(a: &T, b: &T, want: bool, what: &str, x: &[u8], y: &[u8]) -> D<()> {
    let (ab, ba, ne) = (a == b, b == a, a != b);
    if ab != ba || ab == ne {
        return bad("not-an-equality", format!("comparing {} of {} and {} gives {} one way and {} the other, and != says {}", what, hex(x, 60), hex(y, 60), ab, ba, ne));
    }
    if ab != want {
        let class = if want { "false-difference" } else { "missed-difference" };
        return bad(class, format!("{} of {} and {} compare as {}", what, hex(x, 70), hex(y, 70), if ab { "equal" } else { "different" }));
    }
    Ok(())
}

/// does `a` equal `b`? by one form of comparison; the answer is judged
fn compare(a: &Kept, b: &Kept, st: &mut Style) -> D<bool> {
    let (x, y) = (&a.bytes[..], &b.bytes[..]);
    let want = x == y;
    match st.pick(7) {
        0 => eq(&a.data, &b.data, want, "owned data", x, y)?,
        1 => eq(&a.data.borrow(), &b.data.borrow(), want, "borrowed data", x, y)?,
        2 => eq(&a.raw, &b.raw, want, "raw data", x, y)?,
        3 => {
            let (p, q): (&CborSlice, &CborSlice) = (a.raw.borrow(), b.raw.borrow());
            eq(p, q, want, "slices", x, y)?
        }
        4 => {
            // one of them straight from the wire
            let d = Reader::new(y).data()?;
            eq(&a.data.borrow(), &d, want, "data just read", x, y)?;
            eq(&a.data.clone(), &d.owned(), want, "data just owned", x, y)?;
        }
        5 => {
            let (p, q) = (a.raw.validate_as::<DataOwned>()?, b.raw.validate_as::<DataOwned>()?);
            eq(&p, &q, want, "typed data", x, y)?;
            eq(&p.clone(), &q, want, "cloned typed data", x, y)?;
            eq(&p.unserialize(), &q.unserialize(), want, "unserialized data", x, y)?;
        }
        _ => as_kind(a, b, st)?,
    }
    Ok(want)
}
fn header(a: cbored::state::HeaderValue, b: cbored::state::HeaderValue, p: (W, u64), q: (W, u64), x: &[u8], y: &[u8]) -> D<()> {
    eq(&a, &b, p == q, "header values", x, y)
}
fn typed_as<T: Decode + Encode + PartialEq + Clone>(x: &[u8], y: &[u8]) -> D<()> {
    // as data of a type: the very bytes, as two values of that type
    let (p, q): (Result<CborDataOf<T>, _>, Result<CborDataOf<T>, _>) = (raw_data(x).validate_as::<T>(), raw_data(y).validate_as::<T>());
    if let (Ok(p), Ok(q)) = (p, q) {
        eq(&p, &q, x == y, std::any::type_name::<CborDataOf<T>>(), x, y)?;
        let s: &CborSliceOf<T> = p.borrow();
        eq(&s.to_owned(), &p, true, "a borrowed and owned copy of typed data", x, x)?;
        eq(&p.clone().untype(), &q.clone().untype(), x == y, "untyped data", x, y)?;
        let (u, v) = (Reader::new(x).decode::<CborDataOf<T>>()?, Reader::new(y).decode::<CborDataOf<T>>()?);
        eq(&u, &q, x == y, "typed data as read", x, y)?;
        eq(&p, &v, x == y, "typed data as read", x, y)?;
    }
    Ok(())
}
fn std_as<T: Decode + Encode + PartialEq + Clone>(x: &[u8], y: &[u8]) -> D<()> {
    let (p, q) = (Reader::new(x).decode::<T>()?, decode_from_bytes::<T>(y)?);
    let what = std::any::type_name::<T>();
    eq(&p, &q, x == y, what, x, y)?;
    eq(&p.clone(), &p, true, what, x, x)?;
    eq(&decode_from_bytes::<T>(&enc(&q))?, &p, x == y, what, x, y)?;
    typed_as::<T>(x, y)
}

fn slen(a: StructureLength, b: StructureLength, l: &Option<W>, m: &Option<W>, i: usize, j: usize, x: &[u8], y: &[u8]) -> D<()> {
    let want = match (l, m) {
        (None, None) => true,
        (Some(v), Some(w)) => v == w && i == j,
        _ => false,
    };
    eq(&a, &b, want, "declared lengths", x, y)?;
    // as it would be built here
    eq(&a, &StructureLength::from(j as u64), *l == Some(min_w(j as u64)) && i == j, "a declared and a native length", x, y)?;
    eq(&StructureLength::from(if m.is_none() { None } else { Some(to_hv(m.unwrap(), j as u64)) }), &b, true, "a built and a declared length", y, y)
}

/// as what they are, if they are the same thing
fn as_kind(a: &Kept, b: &Kept, st: &mut Style) -> D<()> {
    let (x, y) = (&a.bytes[..], &b.bytes[..]);
    let want = x == y;
    match (&a.node, &b.node) {
        (Node::U(w, v), Node::U(u, z)) => {
            let (p, q) = (Reader::new(x).positive()?, Reader::new(y).positive()?);
            eq(&p, &q, want, "positives", x, y)?;
            header(p.raw_value(), q.raw_value(), (*w, *v), (*u, *z), x, y)?;
            eq(&p, &Positive::canonical(*z), v == z && *w == min_w(*v), "a read and a native positive", x, y)?;
            eq(&Scalar::Positive(p), &Reader::new(y).scalar()?, want, "scalars", x, y)?;
            header(p.raw_value(), to_hv(*u, *z), (*w, *v), (*u, *z), x, y)?;
            eq(&Data::Positive(p), &b.data.borrow(), want, "data made of a positive", x, y)?;
            typed_as::<u64>(x, y)?;
            typed_as::<Scalar>(x, y)?;
        }
        (Node::N(w, v), Node::N(u, z)) => {
            let (p, q) = (Reader::new(x).negative()?, Reader::new(y).negative()?);
            eq(&p, &q, want, "negatives", x, y)?;
            header(p.raw_value(), q.raw_value(), (*w, *v), (*u, *z), x, y)?;
            eq(&p, &Negative::canonical(*z), v == z && *w == min_w(*v), "a read and a native negative", x, y)?;
            eq(&Reader::new(x).scalar()?, &Scalar::Negative(q), want, "scalars", x, y)?;
            typed_as::<Scalar>(x, y)?;
        }
        (Node::U(..), Node::N(..)) | (Node::N(..), Node::U(..)) => {
            eq(&Reader::new(x).scalar()?, &Reader::new(y).scalar()?, false, "scalars", x, y)?;
        }
        (Node::B(s), Node::B(t)) => {
            let (p, q) = (Reader::new(x).bytes()?, Reader::new(y).bytes()?);
            eq(&p, &q, want, "byte strings", x, y)?;
            eq(&p.owned(), &q.owned(), want, "owned byte strings", x, y)?;
            eq(&p, &q.owned().borrow(), want, "a byte string and a borrowed one", x, y)?;
            if let Str::D(w, d) = s {
                let native = *w == min_w(d.len() as u64);
                eq(&Bytes::from_slice(d), &p, native, "a native and a read byte string", x, x)?;
                eq(&BytesOwned::from_vec(d.clone()), &p.owned(), native, "a native and a read byte string", x, x)?;
                let same = b.node == Node::B(Str::D(min_w(d.len() as u64), d.clone()));
                eq(&Bytes::from_slice(d), &q, same, "a native and a read byte string", x, y)?;
            }
            match (&p, &q) {
                (Bytes::Imm(c), Bytes::Imm(d)) => {
                    eq(c, d, want, "byte chunks", x, y)?;
                    eq(&c.owned(), &d.owned(), want, "owned byte chunks", x, y)?;
                }
                (Bytes::Chunks(c), Bytes::Chunks(d)) => {
                    if let (Str::I(s), Str::I(t)) = (s, t) {
                        for _ in 0..4 {
                            if !s.is_empty() && !t.is_empty() {
                                let i = st.pick(s.len() as u64) as usize;
                                let j = if i < t.len() && st.pick(3) > 0 { i } else { st.pick(t.len() as u64) as usize };
                                eq(&c[i], &d[j], s[i] == t[j], "byte chunks", x, y)?;
                                eq(&c[i].owned(), &d[j].owned(), s[i] == t[j], "owned byte chunks", x, y)?;
                                eq(&c[i].owned().borrow(), &d[j], s[i] == t[j], "byte chunks", x, y)?;
                                let native = s[i].0 == min_w(s[i].1.len() as u64);
                                eq(&BytesData::from_slice(&s[i].1), &c[i], native, "a native and a read byte chunk", x, x)?;
                                eq(&BytesDataOwned::from_vec(s[i].1.clone()).borrow(), &c[i], native, "a native and a read byte chunk", x, x)?;
                            }
                        }
                    }
                }
                _ => (),
            }
            typed_as::<Vec<u8>>(x, y)?;
            typed_as::<[u8; 4]>(x, y)?;
        }
        (Node::T(s), Node::T(t)) => {
            let (p, q) = (Reader::new(x).text()?, Reader::new(y).text()?);
            eq(&p, &q, want, "texts", x, y)?;
            eq(&p.owned(), &q.owned(), want, "owned texts", x, y)?;
            eq(&p, &q.owned().borrow(), want, "a text and a borrowed one", x, y)?;
            if let Str::D(w, d) = s {
                let native = *w == min_w(d.len() as u64);
                let d = std::str::from_utf8(d).unwrap_or("");
                eq(&Text::from_str(d), &p, native, "a native and a read text", x, x)?;
                eq(&TextOwned::from_string(d.to_string()), &p.owned(), native, "a native and a read text", x, x)?;
                let same = b.node == Node::T(Str::D(min_w(d.len() as u64), d.as_bytes().to_vec()));
                eq(&Text::from_str(d), &q, same, "a native and a read text", x, y)?;
            }
            match (&p, &q) {
                (Text::Imm(c), Text::Imm(d)) => {
                    eq(c, d, want, "text chunks", x, y)?;
                    eq(&c.owned(), &d.owned(), want, "owned text chunks", x, y)?;
                }
                (Text::Chunks(c), Text::Chunks(d)) => {
                    if let (Str::I(s), Str::I(t)) = (s, t) {
                        for _ in 0..4 {
                            if !s.is_empty() && !t.is_empty() {
                                let i = st.pick(s.len() as u64) as usize;
                                let j = if i < t.len() && st.pick(3) > 0 { i } else { st.pick(t.len() as u64) as usize };
                                eq(&c[i], &d[j], s[i] == t[j], "text chunks", x, y)?;
                                eq(&c[i].owned(), &d[j].owned(), s[i] == t[j], "owned text chunks", x, y)?;
                                eq(&c[i].owned().borrow(), &d[j], s[i] == t[j], "text chunks", x, y)?;
                                let native = s[i].0 == min_w(s[i].1.len() as u64);
                                eq(&TextData::from_str(c[i].as_str()), &c[i], native, "a native and a read text chunk", x, x)?;
                                eq(&TextDataOwned::from_string(c[i].as_str().to_string()).borrow(), &c[i], native, "a native and a read text chunk", x, x)?;
                            }
                        }
                    }
                }
                _ => (),
            }
            typed_as::<String>(x, y)?;
        }
        (Node::A(l, s), Node::A(m, t)) => {
            let (p, q) = (Reader::new(x).array()?, Reader::new(y).array()?);
            eq(&p, &q, want, "arrays", x, y)?;
            let (po, qo) = (p.owned(), q.owned());
            eq(&po, &qo, want, "owned arrays", x, y)?;
            eq(&po.clone().borrow(), &q, want, "an array and a borrowed one", x, y)?;
            slen(p.struct_len(), qo.struct_len(), l, m, s.len(), t.len(), x, y)?;
            for _ in 0..4 {
                if s.is_empty() || t.is_empty() {
                    break;
                }
                let i = st.pick(s.len() as u64) as usize;
                let j = if i < t.len() && st.pick(3) > 0 { i } else { st.pick(t.len() as u64) as usize };
                let w = s[i].enc() == t[j].enc();
                eq(p[i], q[j], w, "array members", x, y)?;
                eq(&po[i], &qo[j], w, "owned array members", x, y)?;
                let o: &CborSlice = po[i].borrow();
                eq(o, q[j], w, "array members", x, y)?;
            }
            // put together again from the members
            let mut bd = ArrayBuilder::new();
            s.iter().enumerate().for_each(|(i, _)| bd.append(po[i].clone()));
            let (own, lw) = if st.pick(2) == 0 { (bd.finite(), Some(min_w(s.len() as u64))) } else { (bd.indefinite(), None) };
            eq(&own, &qo, lw == *m && s == t, "a built and a read array", x, y)?;
            eq(&own.borrow(), &p, lw == *l, "an array and what was built of its members", x, x)?;
        }
        (Node::M(l, s), Node::M(m, t)) => {
            let (p, q) = (Reader::new(x).map()?, Reader::new(y).map()?);
            eq(&p, &q, want, "maps", x, y)?;
            let (po, qo) = (p.owned(), q.owned());
            eq(&po, &qo, want, "owned maps", x, y)?;
            eq(&po.clone().borrow(), &q, want, "a map and a borrowed one", x, y)?;
            slen(p.struct_len(), qo.struct_len(), l, m, s.len(), t.len(), x, y)?;
            for _ in 0..4 {
                if s.is_empty() || t.is_empty() {
                    break;
                }
                let i = st.pick(s.len() as u64) as usize;
                let j = if i < t.len() && st.pick(3) > 0 { i } else { st.pick(t.len() as u64) as usize };
                let (k, v) = (s[i].0.enc() == t[j].0.enc(), s[i].1.enc() == t[j].1.enc());
                eq(&p[i], &q[j], k && v, "map entries", x, y)?;
                eq(p[i].0, q[j].0, k, "map keys", x, y)?;
                eq(p[i].1, q[j].1, v, "map values", x, y)?;
                let (po, qo) = (po.borrow(), qo.borrow());
                eq(&po[i], &qo[j], k && v, "owned map entries", x, y)?;
                eq(&(p[i].0.to_owned(), p[i].1.to_owned()), &(qo[j].0.to_owned(), qo[j].1.to_owned()), k && v, "owned map entries", x, y)?;
            }
        }
        (Node::G(w, t, c), Node::G(u, v, d)) => {
            let (p, q) = (Reader::new(x).tag()?, Reader::new(y).tag()?);
            eq(&p, &q, want, "tags", x, y)?;
            let (po, qo) = (p.owned(), q.owned());
            eq(&po, &qo, want, "owned tags", x, y)?;
            eq(&po.clone().borrow(), &q, want, "a tag and a borrowed one", x, y)?;
            eq(&p.tag_repr(), &qo.tag_repr(), (w, t) == (u, v), "tag values", x, y)?;
            eq(&TagValue::from_u64(*t), &q.tag_repr(), t == v && *u == min_w(*v), "a native and a read tag value", x, y)?;
            header(p.tag_repr().raw_value(), q.tag_repr().raw_value(), (*w, *t), (*u, *v), x, y)?;
            let inner = c.enc() == d.enc();
            eq(p.data(), q.data(), inner, "tagged elements", x, y)?;
            eq(po.data(), qo.data(), inner, "owned tagged elements", x, y)?;
            if let (Some(k), Some(l)) = (std_of(&a.node), std_of(&b.node)) {
                if k == l {
                    match k {
                        Std::Date => std_as::<StandardDateTime>(x, y)?,
                        Std::Pos => std_as::<PositiveBignum>(x, y)?,
                        Std::Neg => std_as::<NegativeBignum>(x, y)?,
                        Std::Enc => {
                            std_as::<EncodedCBOR>(x, y)?;
                            if let Node::B(s) = &**c {
                                let native = enc(&EncodedCBOR::from_bytes(&s.concat()));
                                eq(&EncodedCBOR::from_bytes(&s.concat()), &decode_from_bytes::<EncodedCBOR>(y)?, native == y, "native and read encoded CBOR", x, y)?;
                            }
                        }
                        Std::Rat => {
                            std_as::<RationalNumber>(x, y)?;
                            let (p, q) = (decode_from_bytes::<RationalNumber>(x)?, decode_from_bytes::<RationalNumber>(y)?);
                            if let (Node::A(_, s), Node::A(_, t)) = (&**c, &**d) {
                                eq(p.numerator(), q.numerator(), s[0] == t[0], "numerators", x, y)?;
                                eq(p.denominator(), q.denominator(), s[1] == t[1], "denominators", x, y)?;
                            }
                        }
                    }
                }
            }
        }
        (Node::S(..), Node::S(long, v)) => {
            let (p, q) = (Reader::new(x).byte()?, Reader::new(y).byte()?);
            eq(&p, &q, want, "bytes", x, y)?;
            eq(&Byte::canonical(*v), &q, *long == (*v >= 20), "a native and a read byte", y, y)?;
        }
        (Node::C(v), Node::C(w)) => {
            let k = [Constant::False, Constant::True, Constant::Null, Constant::Undefined];
            eq(&k[*v as usize], &k[*w as usize], want, "constants", x, y)?;
            let d = [Data::False, Data::True, Data::Null, Data::Undefined];
            eq(&d[*v as usize], &b.data.borrow(), want, "a constant and data", x, y)?;
            typed_as::<bool>(x, y)?;
        }
        (Node::F16(_) | Node::F32(_) | Node::F64(_), Node::F16(_) | Node::F32(_) | Node::F64(_)) => {
            let (p, q) = (Reader::new(x).float()?, Reader::new(y).float()?);
            eq(&p, &q, want, "floats", x, y)?;
            eq(&Data::Float(p), &b.data.borrow(), want, "data made of a float", x, y)?;
        }
        _ => eq(&a.data, &b.data, false, "owned data", x, y)?,
    }
    Ok(())
}

// ------------------------------------------------------------------ world ---

#[derive(Clone)]
enum Msg {
    /// client, request number, register
    Get(usize, u64, usize),
    /// client, request number, register, expected, new
    Cas(usize, u64, usize, Vec<u8>, Vec<u8>),
}
enum Ev {
    Act(usize),
    Server(Msg),
    /// client, request number, register, the value there
    Reply(usize, u64, usize, Vec<u8>),
    Sync,
    Crash,
}
struct Client {
    cache: Vec<Option<Kept>>,
    inbox: Vec<Kept>,
    req: u64,
    left: u64,
}

/// what is on the wire, as an element the library has to take; None: nobody can
fn taken(b: &[u8]) -> Option<Node> {
    match parse(b) {
        Some((n, used)) if used == b.len() && usable(&n) => Some(n),
        _ => None,
    }
}
fn kept(c: &mut Ctx, b: &[u8], n: &Node) -> R<Kept> {
    let mut st = c.style();
    let d = keep(b, n, &mut st);
    must(c, d, "refused", || format!("taking {}", hex(b, 100)))
}
fn same(c: &mut Ctx, a: &Kept, b: &Kept) -> R<bool> {
    let mut st = c.style();
    let d = compare(a, b, &mut st);
    if a.bytes != b.bytes {
        c.probe("compared-different");
    } else {
        c.probe("compared-same");
    }
    must(c, d, "refused", || format!("comparing {} and {}", hex(&a.bytes, 80), hex(&b.bytes, 80)))
}

pub fn run(c: &mut Ctx) -> R {
    c.calm = c.s.chance(1, 10);
    let g = if c.s.chance(1, 2) { Gen::plain() } else { Gen::swarm(&mut c.s) };
    let nreg = 1 + c.s.draw(3) as usize;
    let ncl = 1 + c.s.draw(4) as usize;
    let acts = 2 + c.s.draw(10);
    let mut regs: Vec<Kept> = vec![];
    let mut model: Vec<Vec<u8>> = vec![];
    let mut durable: Vec<Vec<u8>> = vec![];
    // registers start near each other
    let mut n = value(&mut c.s, &g);
    if !usable(&n) {
        n = g.leaf(&mut c.s);
    }
    for _ in 0..nreg {
        let b = n.enc();
        regs.push(kept(c, &b, &n)?);
        model.push(b.clone());
        durable.push(b);
        for _ in 0..4 {
            let v = variant(&mut c.s, &g, &n);
            if usable(&v) {
                n = v;
                break;
            }
        }
    }
    let mut disk = Disk::default();
    // (register, bytes) as appended, whether lost or not
    let mut log: Vec<(usize, usize)> = vec![];
    let mut clients: Vec<Client> = (0..ncl).map(|_| Client { cache: (0..nreg).map(|_| None).collect(), inbox: vec![], req: 0, left: acts }).collect();
    let mut q: Queue<Ev> = Queue::new();
    for i in 0..ncl {
        q.at(c.s.draw(500), Ev::Act(i));
    }
    if c.chaos(1, 3) {
        q.at(c.s.draw(8000), Ev::Crash);
    }
    let mut judged = 0u64;
    while let Some((t, ev)) = q.pop() {
        c.now = c.now.max(t);
        // when a message arrives, if it does, and how often
        let carry = |c: &mut Ctx, who: usize| -> Vec<u64> {
            if c.chaos(1, 10) {
                c.fault("drop", who as u64);
                return vec![];
            }
            let mut d = 1 + c.s.draw(300);
            if c.chaos(1, 10) {
                c.fault("stall", who as u64);
                d += c.s.draw(4000);
            }
            let mut out = vec![c.now + d];
            if c.chaos(1, 8) {
                c.fault("duplicate", who as u64);
                out.push(c.now + 1 + c.s.draw(2500));
            }
            out
        };
        let spoil = |c: &mut Ctx, who: usize, b: &mut Vec<u8>| {
            if c.chaos(1, 10) && !b.is_empty() {
                c.fault("bit-flip", who as u64);
                let i = c.s.draw(b.len() as u64) as usize;
                b[i] ^= 1 << c.s.draw(8);
            } else if c.chaos(1, 12) {
                if let Some((n, _)) = parse(b) {
                    let m = hostile::foreign(&mut c.s, &n, 50, 20, false).enc();
                    if m != *b {
                        c.fault("re-encoded", who as u64);
                        *b = m;
                    }
                }
            }
        };
        match ev {
            Ev::Act(i) => {
                let k = c.s.draw(nreg as u64) as usize;
                clients[i].req += 1;
                let rq = clients[i].req;
                let m = match &clients[i].cache[k] {
                    Some(old) if c.s.chance(3, 4) => {
                        let mut new = variant(&mut c.s, &g, &old.node);
                        if !usable(&new) {
                            new = old.node.clone();
                        }
                        let mut st = c.style();
                        // what it expects is its own copy, written out
                        let exp = match st.pick(3) {
                            0 => enc(&old.data),
                            1 => enc(&old.raw),
                            _ => enc(&old.data.borrow()),
                        };
                        let mut m = (exp, new.enc());
                        if m.0 != old.bytes {
                            return viol("copy-changed", format!("a kept copy of {} is written as {}", hex(&old.bytes, 80), hex(&m.0, 80)));
                        }
                        // on the way
                        spoil(c, i, &mut m.0);
                        c.ev("cas", i as u64, k as u64);
                        c.data(&m.1);
                        Msg::Cas(i, rq, k, m.0, m.1)
                    }
                    _ => {
                        c.ev("get", i as u64, k as u64);
                        Msg::Get(i, rq, k)
                    }
                };
                for t in carry(c, i) {
                    q.at(t, Ev::Server(m.clone()));
                }
                clients[i].left -= 1;
                if clients[i].left > 0 {
                    q.at(c.now + 200 + c.s.draw(1500), Ev::Act(i));
                }
            }
            Ev::Server(m) => {
                let (i, rq, k) = match m {
                    Msg::Get(i, rq, k) => (i, rq, k),
                    Msg::Cas(i, rq, k, exp, new) => {
                        let n = match taken(&new) {
                            Some(n) => n,
                            None => continue,
                        };
                        let e = match taken(&exp) {
                            Some(e) => e,
                            None => {
                                c.probe("spoiled-request");
                                continue;
                            }
                        };
                        let e = kept(c, &exp, &e)?;
                        c.ops += 1;
                        judged += (e.bytes != regs[k].bytes) as u64;
                        if same(c, &regs[k], &e)? {
                            c.ev("set", k as u64, new.len() as u64);
                            c.data(&new);
                            c.probe("cas-took");
                            regs[k] = kept(c, &new, &n)?;
                            model[k] = new.clone();
                            // the log: register number and value, as an array
                            let mut b = ArrayBuilder::new();
                            b.append_encodable(&(k as u64));
                            b.append(regs[k].raw.clone());
                            let rec = enc(&b.finite().borrow());
                            let _ = disk.append(c, 0, &rec, false);
                            log.push((k, disk.durable.len() + disk.pending.len()));
                            if c.s.draw(2) == 0 {
                                q.at(c.now + c.s.draw(600), Ev::Sync);
                            }
                        } else {
                            c.ev("conflict", k as u64, 0);
                            c.probe("cas-refused");
                        }
                        if regs[k].bytes != model[k] {
                            return viol("lost-update", format!("register {} holds {} instead of {}", k, hex(&regs[k].bytes, 80), hex(&model[k], 80)));
                        }
                        (i, rq, k)
                    }
                };
                let mut b = enc(&regs[k].data);
                if b != model[k] {
                    return viol("copy-changed", format!("a kept copy of {} is written as {}", hex(&model[k], 80), hex(&b, 80)));
                }
                spoil(c, i, &mut b);
                for t in carry(c, i) {
                    q.at(t, Ev::Reply(i, rq, k, b.clone()));
                }
            }
            Ev::Reply(i, rq, k, b) => {
                c.ev("reply", i as u64, rq);
                c.data(&b);
                let n = match taken(&b) {
                    Some(n) => n,
                    None => {
                        c.probe("spoiled-reply");
                        continue;
                    }
                };
                let new = kept(c, &b, &n)?;
                // has anything changed?
                let cl = &mut clients[i];
                let old = cl.cache[k].take();
                if let Some(old) = old {
                    judged += (old.bytes != new.bytes) as u64;
                    if same(c, &old, &new)? {
                        c.probe("watch-quiet");
                        let mut st = c.style();
                        let d = old.again(&mut st);
                        let again = must(c, d, "refused", || format!("keeping {} again", hex(&b, 80)))?;
                        if !same(c, &again, &new)? {
                            return viol("false-difference", "a copy of a copy differs");
                        }
                        clients[i].cache[k] = Some(again);
                    } else {
                        c.probe("watch-change");
                        // seen before?
                        let mut at = None;
                        let inbox = std::mem::take(&mut clients[i].inbox);
                        for (j, x) in inbox.iter().enumerate() {
                            judged += (x.bytes != new.bytes) as u64;
                            if same(c, x, &new)? && at.is_none() {
                                at = Some(j);
                            }
                        }
                        let want = inbox.iter().position(|x| x.bytes == new.bytes);
                        clients[i].inbox = inbox;
                        if at != want {
                            return viol("deduplication", format!("{} is found at {:?} instead of {:?}", hex(&b, 80), at, want));
                        }
                        if at.is_none() && clients[i].inbox.len() < 8 {
                            let again = kept(c, &b, &n)?;
                            clients[i].inbox.push(again);
                        } else {
                            c.probe("seen-before");
                        }
                        clients[i].cache[k] = Some(new);
                    }
                } else {
                    clients[i].cache[k] = Some(new);
                }
            }
            Ev::Sync => {
                c.ev("sync", 0, 0);
                disk.sync();
            }
            Ev::Crash => {
                c.fault("crash", 0);
                disk.crash(c, 0);
                // what the log still has, by the model
                let have = disk.durable.len();
                let mut want = durable.clone();
                let mut at = 0;
                let bytes = disk.durable.clone();
                for (k, end) in &log {
                    if *end <= have {
                        let (rec, _) = match parse(&bytes[at..]) {
                            Some(x) => x,
                            None => return viol("log", "the log is not what was written"),
                        };
                        if let Node::A(_, v) = rec {
                            want[*k] = v[1].enc();
                        }
                        at = *end;
                    }
                }
                disk.truncate(at);
                log.retain(|x| x.1 <= at);
                // and by the library
                let mut st = c.style();
                let d = recover(&disk.durable, &durable, &mut st);
                let got = must(c, d, "refused", || "recovering the log".into())?;
                for (k, b) in got.iter().enumerate() {
                    if *b != want[k] {
                        return viol("lost-update", format!("register {} is recovered as {} instead of {}", k, hex(b, 80), hex(&want[k], 80)));
                    }
                    let n = match taken(b) {
                        Some(n) => n,
                        None => return viol("log", "a recovered value is not one"),
                    };
                    regs[k] = kept(c, b, &n)?;
                }
                model = want;
                c.probe("recovered");
                if c.chaos(1, 3) {
                    q.at(c.now + 500 + c.s.draw(6000), Ev::Crash);
                }
            }
        }
    }
    // nothing is lost any more: everybody looks again, and then sees no change
    for k in 0..nreg {
        let b = enc(&regs[k].data.borrow());
        let n = match taken(&b) {
            Some(n) => n,
            None => return viol("copy-changed", format!("register {} is written as {}", k, hex(&b, 80))),
        };
        for i in 0..ncl {
            let new = kept(c, &b, &n)?;
            if let Some(old) = clients[i].cache[k].take() {
                same(c, &old, &new)?;
            }
            if !same(c, &new, &regs[k])? {
                return viol("false-difference", "a fresh copy differs from the register");
            }
            clients[i].cache[k] = Some(new);
        }
        for i in 1..ncl {
            let (a, b) = (clients[0].cache[k].take().unwrap(), clients[i].cache[k].take().unwrap());
            same(c, &a, &b)?;
            clients[0].cache[k] = Some(a);
            clients[i].cache[k] = Some(b);
        }
        // and registers among each other
        for j in 0..k {
            let (a, b) = (&regs[j], &regs[k]);
            judged += (a.bytes != b.bytes) as u64;
            same(c, a, b)?;
        }
    }
    if judged > 0 {
        c.probe("decided-on-different");
    }
    Ok(())
}

fn recover(log: &[u8], base: &[Vec<u8>], st: &mut Style) -> D<Vec<Vec<u8>>> {
    let mut out = base.to_vec();
    let mut r = Reader::new(log);
    while !r.is_finished() {
        let a = r.array()?;
        let (k, b) = match st.pick(2) {
            0 => (a[0].reader().decode::<u64>()?, a[1].as_ref().to_vec()),
            _ => {
                let o = a.owned();
                (o[0].decode::<u64>()?, o[1].as_ref().to_vec())
            }
        };
        out[k as usize] = b;
    }
    Ok(out)
}
