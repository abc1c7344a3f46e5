//! Replicas that keep values in normal form and compare nothing but digests. What
//! travels between them is re-encoded by middleboxes of other makes; applications
//! take values out as native types wherever a copy is.
use crate::api::*;
use crate::ctx::*;
use crate::entry::raw_data;
use crate::refcbor::*;
use crate::rng::Src;
use crate::scen::hostile;
use cbored::state::HeaderValue;
use cbored::*;
use std::borrow::Borrow;
use std::collections::BTreeMap;

pub const RULE: &str = "a run is 2-4 replicas of 1-4 items; items are written natively, gossiped by digest, fetched through middleboxes that choose other widths, chunkings, lengths and key orders, normalised by the receiver and read by applications as native types of any range; messages are lost, repeated, torn, glued, delayed and reordered, pairs are partitioned and replicas crash; non-trivial: at least one fault fired and at least one copy was normalised; distinct by the hash of every event and payload";

type D<T> = Result<T, De>;

fn bad<T>(class: &str, msg: String) -> D<T> {
    Err(viol::<()>(class, msg).unwrap_err().into())
}

// ------------------------------------------------------------- reference ---

/// the shortest form of the same data: no choices left
fn normal(n: &Node) -> Node {
    let s = |x: &Str| {
        let b = x.concat();
        Str::D(min_w(b.len() as u64), b)
    };
    match n {
        Node::U(_, v) => Node::U(min_w(*v), *v),
        Node::N(_, v) => Node::N(min_w(*v), *v),
        Node::B(x) => Node::B(s(x)),
        Node::T(x) => Node::T(s(x)),
        Node::A(_, v) => Node::A(Some(min_w(v.len() as u64)), v.iter().map(normal).collect()),
        Node::M(_, v) => {
            let mut e: Vec<(Vec<u8>, Vec<u8>, Node, Node)> = v
                .iter()
                .map(|(a, b)| {
                    let (a, b) = (normal(a), normal(b));
                    (a.enc(), b.enc(), a, b)
                })
                .collect();
            e.sort_by(|x, y| (&x.0, &x.1).cmp(&(&y.0, &y.1)));
            Node::M(Some(min_w(v.len() as u64)), e.into_iter().map(|x| (x.2, x.3)).collect())
        }
        Node::G(_, t, x) => Node::G(min_w(*t), *t, Box::new(normal(x))),
        Node::S(_, v) => Node::S(*v >= 20, *v),
        x => x.clone(),
    }
}

/// values with many numbers at and around the edges
fn value(s: &mut Src, g: &Gen) -> Node {
    let many = |s: &mut Src, f: &mut dyn FnMut(&mut Src) -> Node| {
        let n = if s.chance(1, 400) { 65_534 + s.draw(4) } else { 1 + s.draw(24) };
        let n = if n > 1000 && s.draw(2) == 0 { 254 + s.draw(4) } else { n };
        Node::A(Some(0), (0..n).map(|_| f(s)).collect())
    };
    let fp16 = |s: &mut Src| match s.draw(3) {
        0 => Node::F16(s.draw(1 << 16) as u16),
        1 => {
            let e = [0u16, 1, 14, 15, 16, 30, 31][s.draw(7) as usize];
            let f = [0u16, 1, 2, 3, 511, 512, 513, 1022, 1023][s.draw(9) as usize];
            Node::F16((s.draw(2) as u16) << 15 | e << 10 | f)
        }
        _ => Node::F16((s.draw(2) as u16) << 15 | 1 << s.draw(15)),
    };
    match s.draw(8) {
        0 => many(s, &mut |s| {
            let v = g.int(s);
            Node::U(0, v)
        }),
        1 => many(s, &mut |s| {
            let v = g.int(s);
            if s.draw(2) == 0 {
                Node::N(0, v)
            } else {
                Node::U(0, v)
            }
        }),
        2 => many(s, &mut |s| match s.draw(4) {
            0 | 1 => fp16(s),
            2 => Node::F32((s.draw(2) << 31 | [0, 1, 126, 127, 128, 254, 255, s.draw(256)][s.draw(8) as usize] << 23 | [0, 1, 0x3f_ffff, 0x40_0000, 0x7f_ffff, s.draw(1 << 23)][s.draw(6) as usize]) as u32),
            _ => Node::F64(s.u64()),
        }),
        3 => many(s, &mut |s| match s.draw(3) {
            0 => Node::S(false, s.draw(20) as u8),
            1 => Node::S(true, s.draw(256) as u8),
            _ => Node::C(s.draw(4) as u8),
        }),
        4 => {
            // strings of one length, texts of another
            let t = s.draw(2) == 0;
            many(s, &mut |s| {
                if t {
                    Node::T(Str::D(0, g.utf8(s).into_bytes()))
                } else {
                    Node::B(Str::D(0, g.blob(s)))
                }
            })
        }
        5 => {
            // a map of native keys
            let n = 1 + s.draw(30);
            let text = s.draw(2) == 0;
            let e = (0..n)
                .map(|i| {
                    let k = if text { Node::T(Str::D(0, format!("k{}", i * 7 % 31).into_bytes())) } else { Node::U(0, g.int(s)) };
                    let v = g.int(s);
                    (k, Node::U(0, v))
                })
                .collect();
            Node::M(Some(0), e)
        }
        6 => many(s, &mut |s| {
            let t = g.int(s);
            let v = g.int(s);
            Node::G(0, t, Box::new(Node::U(0, v)))
        }),
        _ => g.node(s),
    }
}

// ---------------------------------------------------------------- writing ---

macro_rules! sizes {
    ($m:ident) => {
        $m!(0 1 2 3 4 5 7 8 9 12 16 20 22 23 24 25 28 31 32 33 48 64 65 96 128 255 256 257 300)
    };
}

/// write a value with native types and canonical constructors only
fn put(w: &mut Writer, n: &Node, st: &mut Style) {
    match n {
        Node::U(_, v) => put_u(w, *v, st),
        Node::N(_, v) => match st.pick(4) {
            0 => w.negative(Negative::canonical(*v)),
            1 => w.scalar(Scalar::canonical_negative(*v)),
            2 => w.encode(&Scalar::Negative(Negative::canonical(*v))),
            _ => w.data(&Data::Negative(Negative::canonical(*v))),
        },
        Node::B(x) => put_b(w, &x.concat(), st),
        Node::T(x) => put_t(w, &String::from_utf8_lossy(&x.concat()), st),
        Node::A(_, v) => match st.pick(5) {
            0 => {
                let mut b = ArrayBuilder::new();
                for x in v {
                    let mut i = Writer::new();
                    put(&mut i, x, st);
                    b.append(i.finalize_data())
                }
                w.array(&b.finite().borrow())
            }
            1 => {
                let mut b = ArrayBuilder::new();
                for x in v {
                    let mut i = Writer::new();
                    put(&mut i, x, st);
                    match x {
                        Node::U(_, v) => b.append_encodable(v),
                        _ => b.append_encodable(&i.finalize_data()),
                    }
                }
                w.encode(&Data::Array(b.finite().borrow()))
            }
            2 => {
                let e: Vec<CborData> = v
                    .iter()
                    .map(|x| {
                        let mut i = Writer::new();
                        put(&mut i, x, st);
                        i.finalize_data()
                    })
                    .collect();
                encode_vec(&e, w)
            }
            _ => w.array_build(StructureLength::from(v.len() as u64), |w| v.iter().for_each(|x| put(w, x, st))),
        },
        Node::M(_, v) => w.map_build(StructureLength::from(v.len() as u64), |w| {
            for (a, b) in v {
                put(w, a, st);
                put(w, b, st)
            }
        }),
        Node::G(_, t, x) => match &**x {
            Node::B(b) if *t == 24 && st.pick(2) == 0 => w.encode(&tagged::EncodedCBOR::from_bytes(&b.concat())),
            x => w.tag_build(TagValue::from_u64(*t), |w| put(w, x, st)),
        },
        Node::S(_, v) => match st.pick(3) {
            0 => w.byte(Byte::canonical(*v)),
            1 => w.encode(&Byte::canonical(*v)),
            _ => w.data(&Data::Byte(Byte::canonical(*v))),
        },
        Node::C(v) => match (v, st.pick(3)) {
            (0 | 1, 0) => w.encode(&(*v == 1)),
            (0 | 1, 1) => w.bool(*v == 1),
            (0, _) => w.data(&Data::False),
            (1, _) => w.constant(Constant::True),
            (2, 0) => w.data(&Data::Null),
            (2, _) => w.encode(&Constant::Null),
            (_, 0) => w.data(&Data::Undefined),
            _ => w.constant(Constant::Undefined),
        },
        Node::F16(v) => w.float(Float::FP16(*v)),
        Node::F32(v) => w.encode(&Float::FP32(*v)),
        Node::F64(v) => w.data(&Data::Float(Float::FP64(*v))),
    }
}
fn put_u(w: &mut Writer, v: u64, st: &mut Style) {
    match st.pick(9) {
        0 if v < 1 << 8 => w.encode(&(v as u8)),
        0 | 1 if v < 1 << 16 => w.encode(&(v as u16)),
        0..=2 if v < 1 << 32 => w.encode(&(v as u32)),
        0..=4 => w.encode(&v),
        5 => w.positive(Positive::canonical(v)),
        6 => w.scalar(Scalar::canonical_positive(v)),
        7 => w.encode(&Positive::canonical(v)),
        _ => w.data(&Data::Positive(Positive::canonical(v))),
    }
}
fn put_b(w: &mut Writer, b: &[u8], st: &mut Style) {
    macro_rules! fixed {
        ($($n:literal)*) => {
            match b.len() {
                $($n => {
                    let mut a = [0u8; $n];
                    a.copy_from_slice(b);
                    return w.encode(&a);
                })*
                _ => (),
            }
        };
    }
    match st.pick(7) {
        0 => w.encode(b),
        1 => w.encode(&b.to_vec()),
        2 => w.bytes(&Bytes::from_slice(b)),
        3 => w.encode(&BytesOwned::from_vec(b.to_vec())),
        4 => w.encode(&Data::Bytes(BytesOwned::from_vec(b.to_vec()).borrow())),
        _ => {
            sizes!(fixed);
            w.encode(b)
        }
    }
}
fn put_t(w: &mut Writer, t: &str, st: &mut Style) {
    match st.pick(5) {
        0 => w.encode(t),
        1 => w.encode(&t.to_string()),
        2 => w.text(&Text::from_str(t)),
        3 => w.text(&TextOwned::from_string(t.to_string()).borrow()),
        _ => w.data(&Data::Text(Text::from_str(t))),
    }
}

// ------------------------------------------------------------ normalising ---

fn canon(h: HeaderValue, w: W, v: u64, what: &str) -> D<()> {
    if h.is_canonical() != (w == min_w(v)) {
        return bad("canonical-query", format!("{} {} in width {} says is_canonical {}", what, v, w, h.is_canonical()));
    }
    Ok(())
}
fn canon_len(l: StructureLength, w: Option<W>, n: usize) -> D<()> {
    match (l, w) {
        (StructureLength::Definite(h), Some(w)) => canon(h, w, n as u64, "length"),
        (StructureLength::Indefinite, None) => Ok(()),
        _ => bad("length-form", format!("a container's length form is presented as {:?}", l)),
    }
}

/// read one element `n` and write it again in normal form, values going through
/// the library's conversions only
fn norm(r: &mut Reader, n: &Node, w: &mut Writer, st: &mut Style) -> D<()> {
    match n {
        Node::U(wd, v) => {
            let v = match st.pick(8) {
                0 if *v < 1 << 8 => r.decode::<u8>()? as u64,
                0 | 1 if *v < 1 << 16 => r.decode::<u16>()? as u64,
                0..=2 if *v < 1 << 32 => r.decode::<u32>()? as u64,
                0..=3 => r.decode::<u64>()?,
                4 => {
                    let p = r.positive()?;
                    scalar_node(Scalar::Positive(p))?;
                    canon(p.raw_value(), *wd, *v, "integer")?;
                    if p.is_canonical() {
                        // already is what it should be
                        w.positive(p);
                        return Ok(());
                    }
                    p.to_u64()
                }
                5 => {
                    let x = r.decode::<Scalar>()?;
                    canon(x.raw_value(), *wd, *v, "integer")?;
                    if x.is_canonical() {
                        w.scalar(x);
                        return Ok(());
                    }
                    x.raw_value().to_u64()
                }
                6 => match r.scalar()?.to_i64() {
                    Some(i) => i as u64,
                    None => *v,
                },
                _ => match r.data()? {
                    Data::Positive(p) => p.to_u64(),
                    x => return bad("wrong-type", format!("data() of a positive gives {:?}", x)),
                },
            };
            put_u(w, v, st)
        }
        Node::N(wd, v) => {
            let x = match st.pick(3) {
                0 => r.negative()?,
                1 => match r.scalar()? {
                    Scalar::Negative(x) => x,
                    x => return bad("wrong-type", format!("scalar() of a negative gives {:?}", x)),
                },
                _ => match r.data()? {
                    Data::Negative(x) => x,
                    x => return bad("wrong-type", format!("data() of a negative gives {:?}", x)),
                },
            };
            scalar_node(Scalar::Negative(x))?;
            canon(x.raw_value(), *wd, *v, "negative")?;
            if x.is_canonical() && st.pick(2) == 0 {
                w.negative(x)
            } else {
                put(w, &Node::N(0, x.negative_u64()), st)
            }
        }
        Node::B(s) => {
            let b = match st.pick(4) {
                0 => r.decode::<Vec<u8>>()?,
                1 => r.bytes()?.owned().borrow().to_vec(),
                _ => {
                    let b = r.bytes()?;
                    if b.len() != s.concat().len() {
                        return bad("length-accessor", format!("{} bytes are said to be {}", s.concat().len(), b.len()));
                    }
                    match (&b, s) {
                        (Bytes::Imm(d), Str::D(w, x)) => canon(d.value(), *w, x.len() as u64, "bytes length")?,
                        (Bytes::Chunks(c), Str::I(x)) if c.len() == x.len() => {
                            for (d, (w, x)) in c.iter().zip(x) {
                                canon(d.value(), *w, x.len() as u64, "chunk length")?
                            }
                        }
                        _ => return bad("length-form", "a byte string's chunks are presented in another form".into()),
                    }
                    b.to_vec()
                }
            };
            put_b(w, &b, st)
        }
        Node::T(s) => {
            let t = match st.pick(5) {
                0 => r.decode::<String>()?,
                1 => r.text()?.owned().borrow().to_string(),
                2 => r.text()?.to_str_chunks().concat(),
                _ => {
                    let t = r.text()?;
                    match (&t, s) {
                        (Text::Imm(d), Str::D(w, x)) => canon(d.value(), *w, x.len() as u64, "text length")?,
                        (Text::Chunks(c), Str::I(x)) if c.len() == x.len() => {
                            for (d, (w, x)) in c.iter().zip(x) {
                                canon(d.value(), *w, x.len() as u64, "chunk length")?
                            }
                        }
                        _ => return bad("length-form", "a text's chunks are presented in another form".into()),
                    }
                    t.to_string()
                }
            };
            put_t(w, &t, st)
        }
        Node::A(l, v) => {
            let a = r.array()?;
            canon_len(a.struct_len(), *l, v.len())?;
            if a.len() != v.len() {
                return bad("member-count", format!("{} members are presented as {}", v.len(), a.len()));
            }
            let mut out = vec![];
            match st.pick(3) {
                0 => {
                    for (mut i, n) in a.iter().zip(v) {
                        let mut w = Writer::new();
                        norm(&mut i, n, &mut w, st)?;
                        out.push(w.finalize_data())
                    }
                }
                1 => {
                    let o = a.owned();
                    for (i, n) in v.iter().enumerate() {
                        let mut w = Writer::new();
                        norm(&mut o[i].read(), n, &mut w, st)?;
                        out.push(w.finalize_data())
                    }
                }
                _ => {
                    for (i, n) in v.iter().enumerate() {
                        let mut w = Writer::new();
                        norm(&mut a[i].reader(), n, &mut w, st)?;
                        out.push(w.finalize_data())
                    }
                }
            }
            match st.pick(3) {
                0 => encode_vec(&out, w),
                1 => {
                    let mut b = ArrayBuilder::new();
                    out.into_iter().for_each(|x| b.append(x));
                    w.array(&b.finite().borrow())
                }
                _ => w.array_build(StructureLength::from(a.len() as u64), |w| out.iter().for_each(|x| w.encode(x))),
            }
        }
        Node::M(l, v) => {
            let m = r.map()?;
            canon_len(m.struct_len(), *l, v.len())?;
            if m.len() != v.len() {
                return bad("member-count", format!("{} entries are presented as {}", v.len(), m.len()));
            }
            let own = m.owned();
            let mut out = vec![];
            let parts: Vec<(Reader, Reader)> = match st.pick(4) {
                0 => m.iter().collect(),
                1 => own.iter().collect(),
                2 => m.keys().zip(m.values()).collect(),
                _ => (0..m.len()).map(|i| (m[i].0.reader(), m[i].1.reader())).collect(),
            };
            for ((mut a, mut b), (kn, vn)) in parts.into_iter().zip(v) {
                let (mut x, mut y) = (Writer::new(), Writer::new());
                norm(&mut a, kn, &mut x, st)?;
                norm(&mut b, vn, &mut y, st)?;
                out.push((x.finalize(), y.finalize()))
            }
            out.sort();
            w.map_build(StructureLength::from(out.len() as u64), |w| {
                for (a, b) in &out {
                    w.encode(&raw_data(a));
                    w.encode(&raw_data(b))
                }
            })
        }
        Node::G(wd, t, x) => {
            if let (Some(s), 0) = (std_of(n), st.pick(3)) {
                // the same number as a standard tagged type
                let (_, payload) = std_read(s, &mut Reader::new(&n.enc()), st)?;
                let want = std_payload(n);
                if payload != want {
                    return bad("tagged-value", format!("{:?} of {} is {}", s, n.short(), hex(&payload, 40)));
                }
            }
            let tag = r.tag()?;
            canon(tag.tag_repr().raw_value(), *wd, *t, "tag")?;
            let mut inner = Writer::new();
            match st.pick(3) {
                0 => norm(&mut tag.owned().read_data(), x, &mut inner, st)?,
                1 => norm(&mut tag.data().reader(), x, &mut inner, st)?,
                _ => norm(&mut tag.reader(), x, &mut inner, st)?,
            }
            let inner = inner.finalize_data();
            w.tag_build(TagValue::from_u64(tag.value()), |w| w.encode(&inner))
        }
        Node::S(..) => {
            let b = match st.pick(2) {
                0 => r.byte()?,
                _ => match r.data()? {
                    Data::Byte(b) => b,
                    x => return bad("wrong-type", format!("data() of a byte gives {:?}", x)),
                },
            };
            byte_node(b)?;
            put(w, &Node::S(false, b.to_u8()), st)
        }
        Node::C(_) => match typed(r, st)? {
            x @ Node::C(_) => put(w, &x, st),
            x => return bad("wrong-type", format!("a constant is read as {}", x.short())),
        },
        Node::F16(_) | Node::F32(_) | Node::F64(_) => {
            let f = r.float()?;
            put(w, &float_node(f)?, st)
        }
    }
    Ok(())
}

// ----------------------------------------------------------- applications ---

fn get<T: Decode + Encode>(b: &[u8], st: &mut Style) -> Option<T> {
    match st.pick(8) {
        0 => decode_from_bytes(b).ok(),
        1 => Reader::new(b).decode().ok(),
        2 => Reader::new(b).decode_one().ok(),
        3 => raw_data(b).decode().ok(),
        4 => raw_data(b).validate_as::<T>().ok().map(|x| x.unserialize()),
        5 => {
            let d = raw_data(b);
            let s: &CborSlice = d.borrow();
            s.validate_as::<T>().ok().map(|x| {
                let o: CborDataOf<T> = x.to_owned();
                o.unserialize()
            })
        }
        6 => Reader::new(b).exact_decodable_data::<T>().ok().map(|x| x.unserialize()),
        _ => {
            let buf = behind(b);
            let mut r = started(&buf).ok()?;
            r.decode().ok()
        }
    }
}

/// take the element out as some native type; it is that value or it is refused
fn native(b: &[u8], n: &Node, st: &mut Style) -> D<&'static str> {
    fn same<T: PartialEq + std::fmt::Debug>(got: Option<T>, want: Option<T>, n: &Node) -> D<()> {
        if got != want {
            let cut = |x: String| x.chars().take(80).collect::<String>();
            return bad(
                "native-value",
                format!("{} as {}: {} instead of {}", n.short(), std::any::type_name::<T>(), cut(format!("{:?}", got)), cut(format!("{:?}", want))),
            );
        }
        Ok(())
    }
    let int = match n {
        Node::U(_, v) => Some(*v),
        _ => None,
    };
    let blob = match n {
        Node::B(x) => Some(x.concat()),
        _ => None,
    };
    let which = match (n, st.pick(4)) {
        (_, 0) => st.pick(10),
        (Node::U(..) | Node::N(..), _) => st.pick(5),
        (Node::B(_), 1) => 6,
        (Node::B(_), _) => 8,
        (Node::T(_), _) => 5,
        (Node::C(_), _) => 7,
        _ => 9,
    };
    Ok(match which {
        0 => {
            same(get::<u8>(b, st), int.and_then(|v| u8::try_from(v).ok()), n)?;
            "as-u8"
        }
        1 => {
            same(get::<u16>(b, st), int.and_then(|v| u16::try_from(v).ok()), n)?;
            "as-u16"
        }
        2 => {
            same(get::<u32>(b, st), int.and_then(|v| u32::try_from(v).ok()), n)?;
            "as-u32"
        }
        3 => {
            same(get::<u64>(b, st), int, n)?;
            "as-u64"
        }
        4 => {
            let want = match n {
                Node::U(_, v) => i64::try_from(*v).ok(),
                Node::N(_, v) => i64::try_from(-1 - *v as i128).ok(),
                _ => None,
            };
            let got = match st.pick(3) {
                0 => get::<Scalar>(b, st).and_then(|x| x.to_i64()),
                1 => Reader::new(b).scalar().ok().and_then(|x| x.to_i64()),
                _ => match Reader::new(b).negative() {
                    Ok(x) => x.to_i64(),
                    Err(_) => Reader::new(b).positive().ok().and_then(|x| i64::try_from(x.to_u64()).ok()),
                },
            };
            same(got, want, n)?;
            "as-i64"
        }
        5 => {
            let want = match n {
                Node::T(x) if text_ok(x) => String::from_utf8(x.concat()).ok(),
                _ => None,
            };
            same(get::<String>(b, st), want, n)?;
            "as-string"
        }
        6 => {
            same(get::<Vec<u8>>(b, st), blob, n)?;
            "as-vec"
        }
        7 => {
            let want = match n {
                Node::C(x) if *x < 2 => Some(*x == 1),
                _ => None,
            };
            same(get::<bool>(b, st), want, n)?;
            "as-bool"
        }
        8 => {
            let len = blob.as_ref().map_or(0, |x| x.len()) as u64;
            let k = match st.pick(3) {
                0 => st.pick(70),
                1 => len + st.pick(3),
                _ => len,
            };
            macro_rules! fixed {
                ($($n:literal)*) => {
                    match k {
                        $($n => same(get::<[u8; $n]>(b, st).map(|x| x.to_vec()), blob.filter(|x| x.len() == $n), n)?,)*
                        _ => (),
                    }
                };
            }
            sizes!(fixed);
            "as-array"
        }
        _ => {
            let d = get::<DataOwned>(b, st);
            match d {
                Some(d) => {
                    let got = data_node(&d.borrow(), st)?;
                    if got != *n {
                        return bad("native-value", format!("{} as data is {}", n.short(), got.short()));
                    }
                }
                None => return bad("native-value", format!("{} is refused as data", n.short())),
            }
            "as-data"
        }
    })
}

/// an application walks a copy and takes members out
fn app(c: &mut Ctx, b: &[u8], n: &Node, st: &mut Style) -> D<()> {
    c.ops += 1;
    let p = native(b, n, st)?;
    c.probe(p);
    match n {
        Node::A(_, v) => {
            rows(b, v, st)?;
            let a = Reader::new(b).array()?;
            let owned = a.owned();
            for (i, x) in v.iter().enumerate().take(600) {
                let m = match st.pick(2) {
                    0 => a[i].as_ref().to_vec(),
                    _ => owned[i].as_ref().to_vec(),
                };
                app(c, &m, x, st)?
            }
        }
        Node::M(_, v) => {
            let m = Reader::new(b).map()?;
            pairs(b, v, st)?;
            for (i, (x, y)) in v.iter().enumerate().take(300) {
                let (k, e) = m[i];
                let (k, e) = (k.as_ref().to_vec(), e.as_ref().to_vec());
                app(c, &k, x, st)?;
                app(c, &e, y, st)?
            }
        }
        Node::G(_, t, x) => {
            let tag = Reader::new(b).tag()?;
            if tag.value() != *t {
                return bad("native-value", format!("tag {} is {}", t, tag.value()));
            }
            let d: CborData = tag.data().to_owned();
            app(c, d.as_ref(), x, st)?
        }
        _ => (),
    }
    Ok(())
}

fn inner<T: Decode>(r: &mut Reader) -> Result<T, DecodeErrorKind> {
    r.decode::<T>().map_err(|e| e.error().clone())
}
/// a whole array as a row of natives
fn rows(b: &[u8], v: &[Node], st: &mut Style) -> D<()> {
    fn row<T: Decode + PartialEq + std::fmt::Debug>(b: &[u8], want: Option<Vec<T>>, st: &mut Style) -> D<()> {
        let got = match st.pick(3) {
            0 => decode_vec::<T>(&mut Reader::new(b)).ok(),
            1 => Reader::new(b).array()?.to_vec(inner::<T>).ok(),
            _ => {
                let o = Reader::new(b).array()?.owned();
                let x = o.to_vec(inner::<T>).ok();
                x
            }
        };
        if got != want {
            return bad("native-row", format!("{} as a row of {}: {:?} instead of {:?}", hex(b, 60), std::any::type_name::<T>(), got.map(|x| x.len()), want.map(|x| x.len())));
        }
        Ok(())
    }
    let ints: Option<Vec<u64>> = v.iter().map(|x| if let Node::U(_, v) = x { Some(*v) } else { None }).collect();
    match st.pick(6) {
        0 => row::<u8>(b, ints.and_then(|v| v.into_iter().map(|x| u8::try_from(x).ok()).collect()), st),
        1 => row::<u16>(b, ints.and_then(|v| v.into_iter().map(|x| u16::try_from(x).ok()).collect()), st),
        2 => row::<u32>(b, ints.and_then(|v| v.into_iter().map(|x| u32::try_from(x).ok()).collect()), st),
        3 => row::<u64>(b, ints, st),
        4 => row::<String>(
            b,
            v.iter()
                .map(|x| match x {
                    Node::T(x) if text_ok(x) => String::from_utf8(x.concat()).ok(),
                    _ => None,
                })
                .collect(),
            st,
        ),
        _ => row::<Vec<u8>>(b, v.iter().map(|x| if let Node::B(x) = x { Some(x.concat()) } else { None }).collect(), st),
    }
}
/// a whole map as pairs of natives
fn pairs(b: &[u8], v: &[(Node, Node)], st: &mut Style) -> D<()> {
    let u = |x: &Node| if let Node::U(_, v) = x { Some(*v) } else { None };
    let t = |x: &Node| match x {
        Node::T(x) if text_ok(x) => String::from_utf8(x.concat()).ok(),
        _ => None,
    };
    let m = Reader::new(b).map()?;
    let o = m.owned();
    let ok = if st.pick(2) == 0 {
        let want: Option<Vec<(u64, u32)>> = v.iter().map(|(a, b)| Some((u(a)?, u32::try_from(u(b)?).ok()?))).collect();
        let got = if st.pick(2) == 0 { m.to_vec(inner::<u64>, inner::<u32>) } else { o.to_vec(inner::<u64>, inner::<u32>) };
        got.ok() == want
    } else {
        let want: Option<Vec<(String, u64)>> = v.iter().map(|(a, b)| Some((t(a)?, u(b)?))).collect();
        let got = if st.pick(2) == 0 { m.to_vec(inner::<String>, inner::<u64>) } else { o.to_vec(inner::<String>, inner::<u64>) };
        got.ok() == want
    };
    if !ok {
        return bad("native-row", format!("{} as pairs of natives is another set of values", hex(b, 60)));
    }
    Ok(())
}

// ------------------------------------------------------------------ world ---

#[derive(Clone)]
struct Entry {
    stamp: u64,
    bytes: Vec<u8>,
}
#[derive(Default)]
struct Store {
    cur: BTreeMap<usize, Entry>,
    durable: BTreeMap<usize, Entry>,
}
enum Ev {
    Put(usize, usize),
    Gossip(usize, usize),
    /// from, to, (item, stamp, digest)
    Digests(usize, usize, Vec<(usize, u64, u64)>),
    Fetch(usize, usize, usize),
    /// to, item, stamp, as it left, as it arrives
    Copy(usize, usize, u64, Vec<u8>),
    App(usize, usize),
    Sync(usize),
    Crash(usize),
}

fn digest(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325, |h: u64, x| (h ^ *x as u64).wrapping_mul(0x100000001b3))
}

/// one copy in transit is brought into normal form
fn normalise(c: &mut Ctx, b: &[u8], n: &Node, value: &Node) -> R<Vec<u8>> {
    let mut st = c.style();
    let mut w = Writer::new();
    let mut r = Reader::new(b);
    let d = norm(&mut r, n, &mut w, &mut st);
    must(c, d, "refused", || format!("normalising {}", hex(b, 100)))?;
    let out = w.finalize();
    let want = value.enc();
    if out != want {
        return viol("normal-form", format!("{} normalised is {} instead of {}", hex(b, 80), hex(&out, 80), hex(&want, 80)));
    }
    c.probe("normalised");
    // doing it again changes nothing
    if c.s.chance(1, 4) {
        let mut w = Writer::new();
        let d = norm(&mut Reader::new(&out), value, &mut w, &mut st);
        must(c, d, "refused", || format!("normalising {} again", hex(&out, 100)))?;
        if w.finalize() != out {
            return viol("not-idempotent", format!("normalising {} again changes it", hex(&out, 100)));
        }
        c.probe("normalised-again");
    }
    Ok(out)
}

pub fn run(c: &mut Ctx) -> R {
    c.calm = c.s.chance(1, 10);
    let g = if c.s.chance(1, 2) { Gen::plain() } else { Gen::swarm(&mut c.s) };
    let n = 2 + c.s.draw(3) as usize;
    let items = 1 + c.s.draw(4) as usize;
    let (widths, indef) = ([0u64, 30, 60, 100][c.s.draw(4) as usize], [0u64, 20, 60][c.s.draw(3) as usize]);
    let shuffle = c.s.draw(2) == 1;
    let mut stores: Vec<Store> = (0..n).map(|_| Store::default()).collect();
    // what was written under each stamp, in normal form
    let mut book: Vec<Node> = vec![];
    let mut q: Queue<Ev> = Queue::new();
    for k in 0..items {
        for _ in 0..1 + c.s.draw(2) {
            q.at(c.s.draw(2000), Ev::Put(c.s.draw(n as u64) as usize, k));
        }
    }
    let calm_at = 6000;
    for i in 0..n {
        for j in 0..n {
            if i == j {
                continue;
            }
            for _ in 0..c.s.draw(3) {
                q.at(c.s.draw(calm_at), Ev::Gossip(i, j));
            }
            // once nothing is lost any more: along the ring, twice
            if j == (i + 1) % n {
                for round in 0..2 * n as u64 {
                    q.at(20_000 + round * 10_000 + i as u64, Ev::Gossip(i, j));
                }
            }
        }
        q.at(c.s.draw(5000), Ev::Sync(i));
        if c.chaos(1, 3) {
            q.at(c.s.draw(calm_at), Ev::Crash(i));
        }
        q.at(c.s.draw(4000), Ev::App(i, c.s.draw(items as u64) as usize));
    }
    // one pair does not hear of each other for a while
    let cut = if c.chaos(1, 3) { Some((c.s.draw(n as u64) as usize, c.s.draw(n as u64) as usize, c.s.draw(calm_at))) } else { None };
    let last_round = 20_000 + (2 * n as u64 - 1) * 10_000;
    while let Some((t, ev)) = q.pop() {
        c.now = c.now.max(t);
        let faults = c.now < calm_at;
        // a message between two: when it arrives, if it does, and how often
        let carry = |c: &mut Ctx, i: usize, j: usize| -> Vec<u64> {
            let now = c.now;
            if let Some((x, y, until)) = cut {
                if now < until && (x, y) == (i.min(j), i.max(j)) && i != j {
                    c.fault("partition", i as u64);
                    return vec![];
                }
            }
            if faults && c.chaos(1, 8) {
                c.fault("drop", i as u64);
                return vec![];
            }
            let mut d = 1 + c.s.draw(400);
            if faults && c.chaos(1, 10) {
                c.fault("stall", i as u64);
                d += c.s.draw(5000);
            }
            let mut out = vec![now + d];
            if faults && c.chaos(1, 10) {
                c.fault("duplicate", i as u64);
                out.push(now + 1 + c.s.draw(3000));
            }
            out
        };
        match ev {
            Ev::Put(i, k) => {
                let v = value(&mut c.s, &g);
                if v.enc().len() > 300_000 || !shallow(&v, 0) {
                    continue;
                }
                let v = normal(&v);
                let mut w = Writer::new();
                let mut st = c.style();
                put(&mut w, &v, &mut st);
                let bytes = w.finalize();
                if bytes != v.enc() {
                    return viol("normal-form", format!("{} written natively is {}", hex(&v.enc(), 80), hex(&bytes, 80)));
                }
                let stamp = book.len() as u64;
                c.ev("put", i as u64, stamp);
                c.data(&bytes);
                book.push(v);
                stores[i].cur.insert(k, Entry { stamp, bytes });
                q.at(c.now + c.s.draw(1500), Ev::App(i, k));
                let j = (i + 1 + c.s.draw(n as u64 - 1) as usize) % n;
                q.at(c.now + c.s.draw(500), Ev::Gossip(i, j));
            }
            Ev::Gossip(i, j) => {
                c.ev("gossip", i as u64, j as u64);
                let d: Vec<_> = stores[i].cur.iter().map(|(k, e)| (*k, e.stamp, digest(&e.bytes))).collect();
                for t in carry(c, i, j) {
                    q.at(t, Ev::Digests(i, j, d.clone()));
                }
            }
            Ev::Digests(i, j, d) => {
                c.ev("digests", j as u64, d.len() as u64);
                for (k, stamp, h) in d {
                    match stores[j].cur.get(&k) {
                        Some(e) if e.stamp == stamp && digest(&e.bytes) != h => {
                            return viol("diverged", format!("two replicas hold item {} of stamp {} in different normal forms, one is {}", k, stamp, hex(&e.bytes, 80)));
                        }
                        Some(e) if e.stamp >= stamp => c.probe("digest-agrees"),
                        _ => {
                            if c.now > last_round + 5000 {
                                return viol("no-progress", "replicas still fetch from each other long after the last change");
                            }
                            for t in carry(c, j, i) {
                                q.at(t, Ev::Fetch(j, i, k));
                            }
                        }
                    }
                }
            }
            Ev::Fetch(j, i, k) => {
                c.ev("fetch", j as u64, k as u64);
                if let Some(e) = stores[i].cur.get(&k).cloned() {
                    // on its way through other people's boxes
                    let mut n = book[e.stamp as usize].clone();
                    for _ in 0..1 + c.s.draw(2) {
                        n = hostile::foreign(&mut c.s, &n, widths, indef, shuffle);
                    }
                    let b = n.enc();
                    if b != e.bytes {
                        c.fault("re-encoded", i as u64);
                    }
                    for t in carry(c, i, j) {
                        q.at(t, Ev::Copy(j, k, e.stamp, b.clone()));
                    }
                }
            }
            Ev::Copy(j, k, stamp, b) => {
                c.ev("copy", j as u64, stamp);
                let value = book[stamp as usize].clone();
                let mut arrived = b.clone();
                if c.now < calm_at && c.chaos(1, 8) {
                    // only a part of it, or more than one of it
                    if c.s.draw(2) == 0 {
                        c.fault("torn", j as u64);
                        arrived.truncate(c.s.draw(b.len() as u64) as usize);
                    } else {
                        c.fault("glued", j as u64);
                        arrived.extend_from_slice(&b);
                    }
                }
                c.data(&arrived);
                let node = match parse(&arrived) {
                    Some((n, _)) => n,
                    None => {
                        // whoever takes it gets nothing
                        let mut st = c.style();
                        let (got, _) = (get::<DataOwned>(&arrived, &mut st), ());
                        if got.is_some() {
                            return viol("torn-accepted", format!("a torn copy is read: {}", hex(&arrived, 100)));
                        }
                        c.probe("torn-refused");
                        continue;
                    }
                };
                if c.s.chance(1, 2) {
                    let mut st = c.style();
                    let d = app(c, &b, &node, &mut st);
                    must(c, d, "refused", || format!("reading {}", hex(&b, 100)))?;
                    c.probe("read-in-transit");
                }
                let out = normalise(c, &arrived, &node, &value)?;
                let newer = stores[j].cur.get(&k).map_or(true, |e| e.stamp < stamp);
                if newer {
                    stores[j].cur.insert(k, Entry { stamp, bytes: out });
                    if c.s.chance(1, 2) {
                        q.at(c.now + c.s.draw(800), Ev::Sync(j));
                    }
                    if c.now < calm_at {
                        q.at(c.now + c.s.draw(800), Ev::App(j, k));
                        let o = (j + 1 + c.s.draw(n as u64 - 1) as usize) % n;
                        q.at(c.now + c.s.draw(800), Ev::Gossip(j, o));
                    }
                } else {
                    c.probe("stale-copy");
                }
            }
            Ev::App(i, k) => {
                if let Some(e) = stores[i].cur.get(&k).cloned() {
                    c.ev("app", i as u64, k as u64);
                    let mut st = c.style();
                    let v = book[e.stamp as usize].clone();
                    let d = app(c, &e.bytes, &v, &mut st);
                    must(c, d, "refused", || format!("reading {}", hex(&e.bytes, 100)))?;
                }
            }
            Ev::Sync(i) => {
                c.ev("sync", i as u64, 0);
                let s = &mut stores[i];
                s.durable = s.cur.clone();
            }
            Ev::Crash(i) => {
                c.fault("crash", i as u64);
                let s = &mut stores[i];
                let lost = s.cur.iter().any(|(k, e)| s.durable.get(k).map_or(true, |d| d.stamp != e.stamp));
                s.cur = s.durable.clone();
                if lost {
                    c.fault("lost-write", i as u64);
                }
            }
        }
    }
    // everybody ends with the same bytes, and they are those of what was written
    for k in 0..items {
        let first = stores[0].cur.get(&k).map(|e| (e.stamp, e.bytes.clone()));
        for (i, s) in stores.iter().enumerate() {
            let e = s.cur.get(&k).map(|e| (e.stamp, e.bytes.clone()));
            if e != first {
                return viol("diverged", format!("replica {} ends with another copy of item {}", i, k));
            }
            if let Some((stamp, b)) = e {
                if b != book[stamp as usize].enc() {
                    return viol("normal-form", format!("replica {} ends with {} for item {}", i, hex(&b, 80), k));
                }
            }
        }
    }
    Ok(())
}
fn shallow(n: &Node, d: usize) -> bool {
    d < 60
        && match n {
            Node::A(_, v) => v.len() <= 70_000 && v.iter().all(|x| shallow(x, d + 1)),
            Node::M(_, v) => v.len() <= 70_000 && v.iter().all(|(a, b)| shallow(a, d + 1) && shallow(b, d + 1)),
            Node::G(_, _, x) => shallow(x, d + 1),
            _ => true,
        }
}
