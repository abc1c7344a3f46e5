//! Every way of reading one element through the library's public API, each with
//! the reference decision of what it accepts and what it must return.

use crate::api::*;
use crate::ctx::*;
use crate::refcbor::*;
use crate::zoo::Fld;
use cbored::tagged::*;
use cbored::validate::Validator;
use cbored::*;

type D<T> = Result<T, De>;

/// a read at the reader's cursor
pub struct Entry {
    pub name: &'static str,
    /// the element has the type (or standard tag) this read asks for
    pub kind: fn(&Node) -> bool,
    /// what the read returns for this element (as bytes), None = must be refused
    pub exp: fn(&Node) -> Option<Vec<u8>>,
    pub run: for<'a> fn(&mut Reader<'a>, &mut Style) -> D<Vec<u8>>,
    /// members are read too (recursion): not for deep towers
    pub deep: bool,
}

fn has(n: &Node, k: &[Kind]) -> bool {
    k.contains(&n.kind())
}
fn only(n: &Node, k: &[Kind]) -> Option<Vec<u8>> {
    if has(n, k) {
        Some(n.enc())
    } else {
        None
    }
}
/// every text in the tree is readable
pub fn all_text_ok(n: &Node) -> bool {
    match n {
        Node::T(s) => text_ok(s),
        Node::A(_, e) => e.iter().all(all_text_ok),
        Node::M(_, e) => e.iter().all(|(k, v)| all_text_ok(k) && all_text_ok(v)),
        Node::G(_, _, c) => all_text_ok(c),
        _ => true,
    }
}
fn top_text_ok(n: &Node) -> bool {
    match n {
        Node::T(s) => text_ok(s),
        _ => true,
    }
}
fn fld<T: Fld>(n: &Node) -> Option<Vec<u8>> {
    T::from(n).map(|t| t.node().enc())
}
fn nat<'a, T: Fld + Decode>(r: &mut Reader<'a>, st: &mut Style) -> D<Vec<u8>> {
    let t: T = match st.pick(2) {
        0 => r.decode()?,
        _ => T::decode(r)?,
    };
    Ok(t.node().enc())
}
fn is_tag(n: &Node, t: u64) -> bool {
    matches!(n, Node::G(_, v, _) if *v == t)
}
fn std_exp(n: &Node, s: Std) -> Option<Vec<u8>> {
    if std_of(n) == Some(s) {
        Some(n.enc())
    } else {
        None
    }
}

macro_rules! e {
    ($name:expr, $kind:expr, $exp:expr, $deep:expr, $run:expr) => {
        Entry { name: $name, kind: $kind, exp: $exp, deep: $deep, run: $run }
    };
}

pub const ENTRIES: &[Entry] = &[
    e!("data", |_| true, |n| if all_text_ok(n) { Some(n.enc()) } else { None }, true, |r, st| {
        let d = r.data()?;
        Ok(data_node(&d, st)?.enc())
    }),
    e!("data-write", |_| true, |n| if top_text_ok(n) { Some(n.enc()) } else { None }, false, |r, st| {
        let d = r.data()?;
        let mut w = Writer::new();
        match st.pick(3) {
            0 => w.data(&d),
            1 => w.encode(&d.owned()),
            _ => w.data(&d.clone()),
        }
        Ok(w.finalize())
    }),
    e!("typed-deep", |_| true, |n| if all_text_ok(n) { Some(n.enc()) } else { None }, true, |r, st| Ok(typed(r, st)?.enc())),
    e!("positive", |n| has(n, &[Kind::Positive]), |n| only(n, &[Kind::Positive]), false, |r, _| Ok(scalar_node(Scalar::Positive(r.positive()?))?.enc())),
    e!("negative", |n| has(n, &[Kind::Negative]), |n| only(n, &[Kind::Negative]), false, |r, _| Ok(scalar_node(Scalar::Negative(r.negative()?))?.enc())),
    e!("scalar", |n| has(n, &[Kind::Positive, Kind::Negative]), |n| only(n, &[Kind::Positive, Kind::Negative]), false, |r, st| {
        match st.pick(2) {
            0 => Ok(scalar_node(r.scalar()?)?.enc()),
            _ => Ok(enc(&r.decode::<Scalar>()?)),
        }
    }),
    e!("byte", |n| has(n, &[Kind::Byte]), |n| only(n, &[Kind::Byte]), false, |r, _| {
        let b = r.byte()?;
        byte_node(b)?;
        Ok(enc(&b))
    }),
    e!("float", |n| has(n, &[Kind::Float]), |n| only(n, &[Kind::Float]), false, |r, _| {
        let f = r.float()?;
        float_node(f)?;
        Ok(enc(&f))
    }),
    e!(
        "constant",
        |n| has(n, &[Kind::False, Kind::True, Kind::Null, Kind::Undefined]),
        |n| only(n, &[Kind::False, Kind::True, Kind::Null, Kind::Undefined]),
        false,
        |r, _| Ok(enc(&r.constant()?))
    ),
    e!("null", |n| has(n, &[Kind::Null]), |n| only(n, &[Kind::Null]), false, |r, _| {
        r.null()?;
        Ok(vec![0xf6])
    }),
    e!("undefined", |n| has(n, &[Kind::Undefined]), |n| only(n, &[Kind::Undefined]), false, |r, _| {
        r.undefined()?;
        Ok(vec![0xf7])
    }),
    e!("bool", |n| has(n, &[Kind::False, Kind::True]), |n| only(n, &[Kind::False, Kind::True]), false, |r, st| {
        let b = match st.pick(2) {
            0 => r.bool()?,
            _ => r.decode::<bool>()?,
        };
        Ok(vec![0xf4 + b as u8])
    }),
    e!("bytes", |n| has(n, &[Kind::Bytes]), |n| only(n, &[Kind::Bytes]), false, |r, st| {
        let b = r.bytes()?;
        Ok(match st.pick(3) {
            0 => data_node(&Data::Bytes(b), st)?.enc(),
            1 => enc(&b.owned()),
            _ => enc(&b),
        })
    }),
    e!(
        "text",
        |n| has(n, &[Kind::Text]),
        |n| if top_text_ok(n) { only(n, &[Kind::Text]) } else { None },
        false,
        |r, st| {
            let b = r.text()?;
            Ok(match st.pick(3) {
                0 => data_node(&Data::Text(b), st)?.enc(),
                1 => enc(&b.owned().borrow()),
                _ => enc(&b),
            })
        }
    ),
    e!("array", |n| has(n, &[Kind::Array]), |n| only(n, &[Kind::Array]), false, |r, st| {
        let a = r.array()?;
        Ok(match st.pick(3) {
            0 => enc(&a.owned().borrow()),
            _ => enc(&a),
        })
    }),
    e!("map", |n| has(n, &[Kind::Map]), |n| only(n, &[Kind::Map]), false, |r, st| {
        let a = r.map()?;
        Ok(match st.pick(3) {
            0 => enc(&a.owned().borrow()),
            _ => enc(&a),
        })
    }),
    e!("tag", |n| has(n, &[Kind::Tag]), |n| only(n, &[Kind::Tag]), false, |r, st| {
        let a = r.tag()?;
        Ok(match st.pick(3) {
            0 => enc(&a.owned().borrow()),
            _ => enc(&a),
        })
    }),
    e!("slice-of", |_| true, |n| if top_text_ok(n) { Some(n.enc()) } else { None }, false, |r, _| {
        Ok(enc(r.exact_decodable_slice::<DataOwned>()?))
    }),
    e!("data-of", |_| true, |n| if top_text_ok(n) { Some(n.enc()) } else { None }, false, |r, st| {
        Ok(match st.pick(2) {
            0 => enc(&r.exact_decodable_data::<DataOwned>()?),
            _ => enc(&r.decode::<CborDataOf<DataOwned>>()?),
        })
    }),
    e!("owned", |_| true, |n| if top_text_ok(n) { Some(n.enc()) } else { None }, false, |r, st| nat::<DataOwned>(r, st)),
    e!("u8", |n| has(n, &[Kind::Positive]), fld::<u8>, false, nat::<u8>),
    e!("u16", |n| has(n, &[Kind::Positive]), fld::<u16>, false, nat::<u16>),
    e!("u32", |n| has(n, &[Kind::Positive]), fld::<u32>, false, nat::<u32>),
    e!("u64", |n| has(n, &[Kind::Positive]), fld::<u64>, false, nat::<u64>),
    e!("string", |n| has(n, &[Kind::Text]), fld::<String>, false, nat::<String>),
    e!("vec-u8", |n| has(n, &[Kind::Bytes]), fld::<Vec<u8>>, false, nat::<Vec<u8>>),
    e!("u8x4", |n| has(n, &[Kind::Bytes]), fld::<[u8; 4]>, false, nat::<[u8; 4]>),
    e!("u8x32", |n| has(n, &[Kind::Bytes]), fld::<[u8; 32]>, false, nat::<[u8; 32]>),
    e!("u8x0", |n| has(n, &[Kind::Bytes]), fld::<[u8; 0]>, false, nat::<[u8; 0]>),
    e!(
        "decode-vec",
        |n| has(n, &[Kind::Array]),
        |n| match n {
            Node::A(_, e) if e.iter().all(top_text_ok) => Some(n.enc()),
            _ => None,
        },
        false,
        |r, _| {
            // the outer form is not part of a Vec: take it from a second look
            let v: Vec<DataOwned> = decode_vec(r)?;
            let mut w = Writer::new();
            for d in &v {
                w.encode(d)
            }
            Ok(w.finalize())
        }
    ),
    e!("std-date", |n| is_tag(n, 0), |n| std_exp(n, Std::Date), false, |r, st| Ok(std_read(Std::Date, r, st)?.0)),
    e!("std-pos", |n| is_tag(n, 2), |n| std_exp(n, Std::Pos), false, |r, st| Ok(std_read(Std::Pos, r, st)?.0)),
    e!("std-neg", |n| is_tag(n, 3), |n| std_exp(n, Std::Neg), false, |r, st| Ok(std_read(Std::Neg, r, st)?.0)),
    e!("std-enc", |n| is_tag(n, 24), |n| std_exp(n, Std::Enc), false, |r, st| Ok(std_read(Std::Enc, r, st)?.0)),
    e!("std-rat", |n| is_tag(n, 30), |n| std_exp(n, Std::Rat), false, |r, st| Ok(std_read(Std::Rat, r, st)?.0)),
    e!("typed-rat", |n| is_tag(n, 30), |n| std_exp(n, Std::Rat), false, |r, _| {
        let d: CborDataOf<RationalNumber> = r.decode()?;
        let v = d.unserialize();
        drop(v);
        Ok(enc(&d))
    }),
];

/// typed reads that first take the whole element: a mismatch is found after the
/// element was consumed, so they are no subject of the consume-nothing property
pub fn takes_whole(name: &str) -> bool {
    matches!(name, "typed-rat" | "slice-of" | "data-of")
}

/// `decode_vec` returns the members; compare those
pub fn strip(name: &str, n: &Node, exp: Vec<u8>) -> Vec<u8> {
    match (name, n) {
        ("decode-vec", Node::A(_, e)) => e.iter().flat_map(|x| x.enc()).collect(),
        _ => exp,
    }
}

/// expected result of entry `e` on element `n`
pub fn expect(e: &Entry, n: &Node) -> Option<Vec<u8>> {
    (e.exp)(n).map(|x| strip(e.name, n, x))
}

/// a read that starts at the beginning of a buffer of its own
pub struct Whole {
    pub name: &'static str,
    /// trailing bytes must be refused
    pub exact: bool,
    pub exp: fn(&Node) -> Option<Vec<u8>>,
    pub run: fn(&[u8], &mut Style) -> D<(Vec<u8>, usize)>,
}
macro_rules! w {
    ($name:expr, $exact:expr, $exp:expr, $run:expr) => {
        Whole { name: $name, exact: $exact, exp: $exp, run: $run }
    };
}
fn from_bytes<T: Fld + Decode>(b: &[u8], st: &mut Style) -> D<(Vec<u8>, usize)> {
    let t: T = decode_whole(b, st)?;
    Ok((t.node().enc(), b.len()))
}
pub const WHOLES: &[Whole] = &[
    w!("validator", false, |n| Some(n.enc()), |b, st| {
        let mut v = Validator::new(b);
        let (s, n) = v.next().map_err(|e| De::Lib(verr(&e)))?;
        if v.remaining_bytes() != b.len() - n {
            return Err(viol::<()>("boundary", "remaining_bytes disagrees with the displacement").unwrap_err().into());
        }
        if !inside(b, s.as_ref()) {
            return Err(viol::<()>("slice-outside", "validator slice is not inside its input").unwrap_err().into());
        }
        Ok((
            match st.pick(2) {
                0 => enc(s),
                _ => s.as_ref().to_vec(),
            },
            n,
        ))
    }),
    w!("from-bytes", true, |n| if top_text_ok(n) { Some(n.enc()) } else { None }, |b, st| {
        let t: DataOwned = decode_whole(b, st)?;
        Ok((enc(&t), b.len()))
    }),
    w!("from-bytes-typed", true, |n| if top_text_ok(n) { Some(n.enc()) } else { None }, |b, st| {
        let t: CborDataOf<DataOwned> = decode_whole(b, st)?;
        Ok((enc(&t), b.len()))
    }),
    w!("from-bytes-u64", true, fld::<u64>, from_bytes::<u64>),
    w!("from-bytes-string", true, fld::<String>, from_bytes::<String>),
    w!("from-bytes-bytes", true, fld::<Vec<u8>>, from_bytes::<Vec<u8>>),
    w!("from-bytes-bool", true, fld::<bool>, from_bytes::<bool>),
    w!("from-bytes-bignum", true, fld::<PositiveBignum>, from_bytes::<PositiveBignum>),
    w!("cbor-data", true, |n| if top_text_ok(n) { Some(n.enc()) } else { None }, |b, st| {
        // untyped data made of raw bytes, as a store hands them out
        let d = raw_data(b);
        match st.pick(3) {
            0 => Ok((enc(&d.decode::<DataOwned>()?), b.len())),
            1 => Ok((enc(&d.validate_as::<DataOwned>()?), b.len())),
            _ => {
                let s: &CborSlice = std::borrow::Borrow::borrow(&d);
                match st.pick(2) {
                    0 => Ok((enc(&s.decode::<DataOwned>()?), b.len())),
                    _ => Ok((enc(s.validate_as::<DataOwned>()?), b.len())),
                }
            }
        }
    }),
];

struct Raw<'a>(&'a [u8]);
impl<'a> Encode for Raw<'a> {
    fn encode(&self, w: &mut Writer) {
        // the public way to put verbatim bytes into a writer
        let v = std::mem::replace(w, Writer::new()).finalize();
        let mut v = v;
        v.extend_from_slice(self.0);
        *w = Writer::new_from_vec(v);
    }
}
/// untyped data holding arbitrary bytes
pub fn raw_data(b: &[u8]) -> CborData {
    let mut w = Writer::new();
    w.encode(&Raw(b));
    w.finalize_data()
}

pub fn inside(whole: &[u8], part: &[u8]) -> bool {
    let (a, b) = (whole.as_ptr() as usize, part.as_ptr() as usize);
    part.is_empty() || (b >= a && b + part.len() <= a + whole.len())
}

/// bytes still missing from the sequence that `buf` is a prefix of, where the
/// first element(s) in full are `total` bytes long; judges a shortfall report
pub fn judge_hint(e: usize, g: usize, missing: usize, who: &str, buf: &[u8]) -> R {
    if e <= g {
        return viol("shortfall-none", format!("{}: reports missing data with expected {} and available {} on {}", who, e, g, hex(buf, 60)));
    }
    if e - g > missing {
        return viol(
            "shortfall-too-big",
            format!("{}: reports {} missing bytes where only {} are still missing, on {}", who, e - g, missing, hex(buf, 60)),
        );
    }
    Ok(())
}
