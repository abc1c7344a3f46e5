//! The seam to the library under test: only its public API, with results
//! translated into the reference vocabulary.

use crate::ctx::{viol, Ctx, Viol, R};
use crate::refcbor::*;
use cbored::state::HeaderValue;
use cbored::tagged::*;
use cbored::validate::{ValidateError, Validator};
use cbored::*;
use std::borrow::Borrow;

/// the library's owned untyped data (reachable, but not exported by name)
pub type CborData = <CborSlice as ToOwned>::Owned;

/// classes of library errors the properties talk about
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ec {
    Missing(usize, usize),
    WrongType,
    WrongTag,
    Trailing,
    Other,
}

/// what a refusal reports, in the reference vocabulary
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fact {
    Missing(usize, usize),
    Reserved(u8),
    Indefinite(u8),
    /// the structural machine's reason
    State(&'static str),
    Type(Vec<Kind>, Kind),
    Tag(Vec<u64>, u64),
    Length(usize, usize),
    Break,
    Utf8(usize, Option<usize>),
    TextInText,
    BytesInBytes,
    InText(Kind),
    InBytes(Kind),
    NotTerminated(usize, usize, u8),
    Rest(usize),
    Range(u64, u64, u64),
    Size(usize, usize),
    Custom,
}
thread_local! {
    /// whether refusals are kept in full
    pub static FACTS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    /// the last refusal, in full
    pub static LAST: std::cell::RefCell<Option<Fact>> = const { std::cell::RefCell::new(None) };
}
fn keep(f: impl FnOnce() -> Fact) {
    if FACTS.with(|x| x.get()) {
        LAST.with(|l| *l.borrow_mut() = Some(f()));
    }
}
fn kinds(t: &[Type]) -> Vec<Kind> {
    let mut v: Vec<Kind> = t.iter().map(|t| kind_of(*t)).collect();
    v.sort_by_key(|k| *k as u8);
    v
}
pub fn sfact(e: &cbored::state::StateError) -> Fact {
    use cbored::state::StateError as S;
    Fact::State(match e {
        S::BreakInNonStreamable => "break-in-definite",
        S::BreakEmptyStack => "break-outside",
        S::ChunksInChunks => "chunks-in-chunks",
        S::StructureInChunks => "structure-in-chunks",
        S::StructureNotFinished => "structure-not-finished",
        S::StructureEndNotInStructure => "end-outside",
        S::InvalidTypeInChunk => "type-in-chunks",
        S::TagNotFinished => "tag-not-finished",
        S::TagInChunk => "tag-in-chunks",
    })
}
pub fn rfact(e: &ReaderError) -> Fact {
    match e {
        ReaderError::LeadError(l) => lead_fact(&format!("{:?}", l)),
        ReaderError::DataMissing(m) => Fact::Missing(m.expecting_bytes, m.got_bytes),
        ReaderError::StateError(s) => sfact(s),
        ReaderError::WrongExpectedType { expected, got } => Fact::Type(kinds(&[*expected]), kind_of(*got)),
        ReaderError::WrongExpectedTypes { expected, got } => Fact::Type(kinds(expected), kind_of(*got)),
        ReaderError::WrongExpectedTag { expected, got } => Fact::Tag(vec![*expected], *got),
        ReaderError::WrongExpectedTags { expected, got } => Fact::Tag(expected.to_vec(), *got),
        ReaderError::WrongExpectedLength { expected, got } => Fact::Length(*expected, *got),
        ReaderError::UnexpectedBreakType => Fact::Break,
        ReaderError::TextUTF8Error(u) => Fact::Utf8(u.valid_up_to(), u.error_len()),
        ReaderError::TextChunksInTextChunks => Fact::TextInText,
        ReaderError::BytesChunksInBytesChunks => Fact::BytesInBytes,
        ReaderError::WrongExpectedTypeInText { got } => Fact::InText(kind_of(*got)),
        ReaderError::WrongExpectedTypeInBytes { got } => Fact::InBytes(kind_of(*got)),
        ReaderError::NotTerminated { at, remaining_bytes, next_byte } => Fact::NotTerminated(*at, *remaining_bytes, *next_byte),
    }
}
/// the lead error type has no public name: its rendering does
fn lead_fact(s: &str) -> Fact {
    let n: u64 = s.chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(999);
    let b = if n < 256 { n as u8 } else { 0 };
    if s.starts_with("Indefinite") {
        Fact::Indefinite(b)
    } else {
        Fact::Reserved(b)
    }
}
pub fn kfact(e: &DecodeErrorKind) -> Fact {
    match e {
        DecodeErrorKind::ReaderError(r) => rfact(r),
        DecodeErrorKind::ReaderNotTerminated { remaining_bytes } => Fact::Rest(*remaining_bytes),
        DecodeErrorKind::OutOfRange { min, max, got } => Fact::Range(*min, *max, *got),
        DecodeErrorKind::UnexpectedLength { expected, got } => Fact::Size(*expected, *got),
        DecodeErrorKind::Custom(_) => Fact::Custom,
    }
}
pub fn vfact(e: &ValidateError) -> Fact {
    match e {
        ValidateError::LeadError(l) => lead_fact(&format!("{:?}", l)),
        ValidateError::DataMissing(m) => Fact::Missing(m.expecting_bytes, m.got_bytes),
        ValidateError::StateError(s) => sfact(s),
    }
}

pub fn rerr(e: &ReaderError) -> Ec {
    keep(|| rfact(e));
    match e {
        ReaderError::DataMissing(m) => Ec::Missing(m.expecting_bytes, m.got_bytes),
        ReaderError::WrongExpectedType { .. } | ReaderError::WrongExpectedTypes { .. } => Ec::WrongType,
        ReaderError::WrongExpectedTag { .. } | ReaderError::WrongExpectedTags { .. } => Ec::WrongTag,
        ReaderError::NotTerminated { .. } => Ec::Trailing,
        _ => Ec::Other,
    }
}
pub fn derr(e: &DecodeError) -> Ec {
    kerr(e.error())
}
pub fn kerr(e: &DecodeErrorKind) -> Ec {
    keep(|| kfact(e));
    match e {
        DecodeErrorKind::ReaderError(r) => rerr(r),
        DecodeErrorKind::ReaderNotTerminated { .. } => Ec::Trailing,
        _ => Ec::Other,
    }
}
pub fn verr(e: &ValidateError) -> Ec {
    keep(|| vfact(e));
    match e {
        ValidateError::DataMissing(m) => Ec::Missing(m.expecting_bytes, m.got_bytes),
        _ => Ec::Other,
    }
}

pub fn kind_of(t: Type) -> Kind {
    match t {
        Type::Positive => Kind::Positive,
        Type::Negative => Kind::Negative,
        Type::Bytes => Kind::Bytes,
        Type::Text => Kind::Text,
        Type::Array => Kind::Array,
        Type::Map => Kind::Map,
        Type::Tag => Kind::Tag,
        Type::False => Kind::False,
        Type::True => Kind::True,
        Type::Null => Kind::Null,
        Type::Undefined => Kind::Undefined,
        Type::Float => Kind::Float,
        Type::Byte => Kind::Byte,
        _ => Kind::Break,
    }
}

pub fn hv(h: HeaderValue) -> (W, u64) {
    let w = match h {
        HeaderValue::Imm(_) => 0,
        HeaderValue::U8(_) => 1,
        HeaderValue::U16(_) => 2,
        HeaderValue::U32(_) => 4,
        HeaderValue::U64(_) => 8,
    };
    (w, h.to_u64())
}
pub fn to_hv(w: W, v: u64) -> HeaderValue {
    match w {
        0 => HeaderValue::Imm(v as u8),
        1 => HeaderValue::U8(v as u8),
        2 => HeaderValue::U16(v as u16),
        4 => HeaderValue::U32(v as u32),
        _ => HeaderValue::U64(v),
    }
}
pub fn to_sl(l: Option<W>, n: usize) -> StructureLength {
    match l {
        None => StructureLength::Indefinite,
        Some(w) => StructureLength::Definite(to_hv(w, n as u64)),
    }
}

pub fn enc<T: Encode + ?Sized>(t: &T) -> Vec<u8> {
    let mut w = Writer::new();
    w.encode(t);
    w.finalize()
}

/// either the library refused, or it did something it must not
#[derive(Debug)]
pub enum De {
    Lib(Ec),
    Bad(Viol),
}
thread_local! {
    /// whether errors are rendered where they surface
    pub static INSPECT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
thread_local! {
    /// where errors are rendered to, when somebody wants to see them
    pub static RENDER: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}
fn show(e: &dyn std::fmt::Debug, f: impl FnOnce() -> String) {
    if RENDER.with(|x| x.borrow().is_some()) {
        let t = format!("[{:?} {}]", e, f());
        RENDER.with(|x| {
            if let Some(x) = x.borrow_mut().as_mut() {
                if x.len() < 1500 {
                    x.push_str(&t)
                }
            }
        });
        return;
    }
    if INSPECT.with(|x| x.get()) {
        std::hint::black_box(format!("{:?}", e));
        std::hint::black_box(f());
    }
}
impl From<ReaderError> for De {
    fn from(e: ReaderError) -> De {
        show(&e, String::new);
        De::Lib(rerr(&e))
    }
}
impl From<DecodeError> for De {
    fn from(e: DecodeError) -> De {
        show(&e, || format!("{} {} {}", e, e.context_as_path(), e.context().len()));
        De::Lib(derr(&e))
    }
}
impl From<DecodeErrorKind> for De {
    fn from(e: DecodeErrorKind) -> De {
        show(&e, || format!("{}", e));
        De::Lib(kerr(&e))
    }
}
impl From<Viol> for De {
    fn from(v: Viol) -> De {
        De::Bad(v)
    }
}
type D<T> = Result<T, De>;

/// cheap stream of access-style choices, seeded by one draw
pub struct Style(pub u64);
impl Style {
    pub fn pick(&mut self, n: u64) -> u64 {
        self.0 = crate::rng::mix(self.0);
        self.0 % n
    }
}

/// everything in a buffer as one value
pub fn decode_whole<T: Decode>(b: &[u8], st: &mut Style) -> D<T> {
    Ok(match st.pick(3) {
        0 => decode_from_bytes(b)?,
        1 => Reader::new(b).decode_one()?,
        _ => {
            let buf = behind(b);
            started(&buf)?.decode_one()?
        }
    })
}

/// the same bytes at the end of what a reader is already part of the way through
pub fn behind(b: &[u8]) -> Vec<u8> {
    let mut buf = Vec::with_capacity(b.len() + 3);
    buf.extend_from_slice(&[0x19, 0x12, 0x34]);
    buf.extend_from_slice(b);
    buf
}
pub fn started(buf: &[u8]) -> D<Reader<'_>> {
    let mut r = Reader::new(buf);
    r.positive()?;
    Ok(r)
}

fn width_len(l: StructureLength, n: usize) -> R<Option<W>> {
    match l {
        StructureLength::Indefinite => Ok(None),
        StructureLength::Definite(h) => {
            let (w, v) = hv(h);
            if v != n as u64 {
                return viol("length-mismatch", format!("declared length {} but {} members are presented", v, n));
            }
            Ok(Some(w))
        }
    }
}

fn bytes_str(b: &Bytes) -> R<Str> {
    let s = match b {
        Bytes::Imm(d) => chunk(hv(d.value()), d.as_slice()).map(|(w, v)| Str::D(w, v))?,
        Bytes::Chunks(c) => Str::I(c.iter().map(|d| chunk(hv(d.value()), d.as_slice())).collect::<R<Vec<_>>>()?),
    };
    let cat = s.concat();
    if b.to_vec() != cat || b.len() != cat.len() {
        return viol("bytes-accessor", "Bytes::to_vec/len differ from the chunks");
    }
    Ok(s)
}
fn chunk(h: (W, u64), b: &[u8]) -> R<(W, Vec<u8>)> {
    if h.1 != b.len() as u64 {
        return viol("length-mismatch", format!("string header says {} but {} bytes are presented", h.1, b.len()));
    }
    Ok((h.0, b.to_vec()))
}
fn text_str(t: &Text) -> R<Str> {
    let s = match t {
        Text::Imm(d) => chunk(hv(d.value()), d.as_str().as_bytes()).map(|(w, v)| Str::D(w, v))?,
        Text::Chunks(c) => Str::I(c.iter().map(|d| chunk(hv(d.value()), d.as_str().as_bytes())).collect::<R<Vec<_>>>()?),
    };
    let cat = s.concat();
    if t.to_string().as_bytes() != &cat[..] || t.to_str_chunks().concat().as_bytes() != &cat[..] {
        return viol("text-accessor", "Text::to_string/to_str_chunks differ from the chunks");
    }
    Ok(s)
}
pub fn byte_node(b: Byte) -> R<Node> {
    let e = enc(&b);
    let wide = e.first() == Some(&0xf8);
    if b.raw_value().to_u8() != b.to_u8() || b.is_canonical() != (!wide || b.to_u8() >= 20) {
        return viol("int-accessor", format!("accessors of the byte value {} disagree", b.to_u8()));
    }
    Ok(Node::S(wide, b.to_u8()))
}
/// an integer and everything that can be asked of it
pub fn scalar_node(s: Scalar) -> R<Node> {
    let (w, v) = hv(s.raw_value());
    let small = i64::try_from(v).ok();
    let minimal = w == min_w(v);
    Ok(match s {
        Scalar::Positive(p) => {
            if p.to_u64() != v || hv(p.raw_value()) != (w, v) || !s.is_positive() || s.is_negative() {
                return viol("int-accessor", format!("accessors of the positive integer {} disagree with its bytes", v));
            }
            if s.to_i64() != small || p.is_canonical() != minimal || s.is_canonical() != minimal {
                return viol("int-accessor", format!("positive {} in width {}: to_i64 {:?} canonical {}", v, w, s.to_i64(), p.is_canonical()));
            }
            Node::U(w, v)
        }
        Scalar::Negative(n) => {
            if n.negative_u64() != v || hv(n.raw_value()) != (w, v) || s.is_positive() || !s.is_negative() {
                return viol("int-accessor", format!("accessors of the negative integer -1-{} disagree with its bytes", v));
            }
            let want = small.map(|x| -1 - x);
            if n.to_i64() != want || s.to_i64() != want || n.is_canonical() != minimal || s.is_canonical() != minimal {
                return viol("int-accessor", format!("negative -1-{} in width {}: to_i64 {:?} canonical {}", v, w, n.to_i64(), n.is_canonical()));
            }
            Node::N(w, v)
        }
    })
}
pub fn const_node(c: Constant) -> Node {
    Node::C(match c {
        Constant::False => 0,
        Constant::True => 1,
        Constant::Null => 2,
        Constant::Undefined => 3,
    })
}
/// the number a half precision float denotes
fn half(v: u16) -> f64 {
    let (e, f) = ((v >> 10) & 31, (v & 1023) as f64);
    let m = match e {
        0 => f * 2f64.powi(-24),
        31 if f == 0.0 => f64::INFINITY,
        31 => f64::NAN,
        _ => (1024.0 + f) * 2f64.powi(e as i32 - 25),
    };
    if v >> 15 == 1 {
        -m
    } else {
        m
    }
}
pub fn float_node(f: Float) -> R<Node> {
    fn same(a: f64, b: f64) -> bool {
        a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan()
    }
    let (n, want) = match f {
        Float::FP16(v) => (Node::F16(v), half(v)),
        Float::FP32(v) => (Node::F32(v), f32::from_bits(v) as f64),
        Float::FP64(v) => (Node::F64(v), f64::from_bits(v)),
    };
    if !same(f.to_f64(), want) {
        return viol("float-accessor", format!("{:?} is {} as f64, should be {}", f, f.to_f64(), want));
    }
    let narrow = f.to_f32();
    if !matches!(f, Float::FP64(_)) && !same(narrow as f64, want) {
        return viol("float-accessor", format!("{:?} is {} as f32, should be {}", f, narrow, want));
    }
    Ok(n)
}

/// the member's own reader has to end where the member ends
fn ended(r: &Reader) -> R {
    if !r.is_finished() || r.remaining_bytes() != 0 || r.expect_finished().is_err() {
        return viol("member-not-confined", "a member's reader does not end at the end of the member");
    }
    Ok(())
}

fn slice_node(s: &CborSlice, st: &mut Style) -> D<Node> {
    match st.pick(4) {
        0 => {
            let d: DataOwned = s.decode()?;
            data_node(&d.borrow(), st)
        }
        1 => {
            let o: CborData = s.to_owned();
            let mut r = o.read();
            let n = deep(&mut r, st)?;
            ended(&r)?;
            Ok(n)
        }
        _ => {
            let mut r = s.reader();
            let n = deep(&mut r, st)?;
            ended(&r)?;
            Ok(n)
        }
    }
}

fn cdata_node(s: &CborData, st: &mut Style) -> D<Node> {
    match st.pick(3) {
        0 => {
            let d: DataOwned = s.decode()?;
            data_node(&d.borrow(), st)
        }
        1 => slice_node(Borrow::<CborSlice>::borrow(s), st),
        _ => {
            let mut r = s.read();
            let n = deep(&mut r, st)?;
            ended(&r)?;
            Ok(n)
        }
    }
}

fn kdec<'b>(r: &mut Reader<'b>) -> Result<DataOwned, DecodeErrorKind> {
    r.decode::<DataOwned>().map_err(|e| e.error().clone())
}

pub fn array_node(a: &Array, st: &mut Style) -> D<Node> {
    let l = width_len(a.struct_len(), a.len())?;
    let mut v = Vec::new();
    match st.pick(6) {
        0 => {
            for mut r in a.iter() {
                v.push(deep(&mut r, st)?);
                ended(&r)?;
            }
        }
        1 => {
            let o = a.owned();
            if width_len(o.struct_len(), o.len())? != l {
                return Err(viol::<()>("owned-differs", "owned array has another length form").unwrap_err().into());
            }
            match st.pick(3) {
                0 => {
                    for mut r in o.iter() {
                        v.push(deep(&mut r, st)?);
                        ended(&r)?;
                    }
                }
                1 => {
                    for i in 0..o.len() {
                        v.push(cdata_node(&o[i], st)?)
                    }
                }
                _ => {
                    let b = o.borrow();
                    for i in 0..b.len() {
                        v.push(slice_node(b[i], st)?)
                    }
                }
            }
        }
        2 => {
            for d in a.to_vec(kdec)? {
                v.push(data_node(&d.borrow(), st)?)
            }
        }
        _ => {
            for i in 0..a.len() {
                v.push(slice_node(a[i], st)?)
            }
        }
    }
    if v.len() != a.len() {
        return Err(viol::<()>("member-count", "iteration yields another number of members than len()").unwrap_err().into());
    }
    Ok(Node::A(l, v))
}

pub fn map_node(m: &Map, st: &mut Style) -> D<Node> {
    let l = width_len(m.struct_len(), m.len())?;
    let mut v = Vec::new();
    match st.pick(7) {
        0 => {
            for (mut k, mut x) in m.iter() {
                let kn = deep(&mut k, st)?;
                ended(&k)?;
                let xn = deep(&mut x, st)?;
                ended(&x)?;
                v.push((kn, xn));
            }
        }
        1 => {
            let mut ks = Vec::new();
            for mut r in m.keys() {
                ks.push(deep(&mut r, st)?);
                ended(&r)?
            }
            let mut vs = Vec::new();
            for mut r in m.values() {
                vs.push(deep(&mut r, st)?);
                ended(&r)?
            }
            if ks.len() != vs.len() {
                return Err(viol::<()>("member-count", "keys() and values() differ in number").unwrap_err().into());
            }
            v = ks.into_iter().zip(vs).collect();
        }
        2 => {
            let o = m.owned();
            if width_len(o.struct_len(), o.len())? != l {
                return Err(viol::<()>("owned-differs", "owned map has another length form").unwrap_err().into());
            }
            match st.pick(4) {
                0 => {
                    for (mut k, mut x) in o.iter() {
                        let kn = deep(&mut k, st)?;
                        ended(&k)?;
                        let xn = deep(&mut x, st)?;
                        ended(&x)?;
                        v.push((kn, xn));
                    }
                }
                1 => {
                    let ks = o.keys().map(|mut r| deep(&mut r, st)).collect::<D<Vec<_>>>()?;
                    let vs = o.values().map(|mut r| deep(&mut r, st)).collect::<D<Vec<_>>>()?;
                    v = ks.into_iter().zip(vs).collect();
                }
                2 => {
                    for (a, b) in o.to_vec(kdec, kdec)? {
                        v.push((data_node(&a.borrow(), st)?, data_node(&b.borrow(), st)?))
                    }
                }
                _ => {
                    let b = o.borrow();
                    for i in 0..b.len() {
                        let (k, x) = b[i];
                        v.push((slice_node(k, st)?, slice_node(x, st)?))
                    }
                }
            }
        }
        3 => {
            for (a, b) in m.to_vec(kdec, kdec)? {
                v.push((data_node(&a.borrow(), st)?, data_node(&b.borrow(), st)?))
            }
        }
        _ => {
            for i in 0..m.len() {
                let (k, x) = m[i];
                v.push((slice_node(k, st)?, slice_node(x, st)?))
            }
        }
    }
    if v.len() != m.len() {
        return Err(viol::<()>("member-count", "iteration yields another number of entries than len()").unwrap_err().into());
    }
    Ok(Node::M(l, v))
}

pub fn tag_node(t: &Tag, st: &mut Style) -> D<Node> {
    let (w, v) = hv(t.tag_repr().raw_value());
    if t.value() != v || t.tag_repr().to_u64() != v {
        return Err(viol::<()>("tag-accessor", "Tag::value differs from its representation").unwrap_err().into());
    }
    let n = match st.pick(6) {
        0 => slice_node(t.data(), st)?,
        1 => {
            let mut r = t.reader();
            let n = deep(&mut r, st)?;
            ended(&r)?;
            n
        }
        2 => data_node(&t.decode_data::<DataOwned>()?.borrow(), st)?,
        3 => {
            let o = t.owned();
            if hv(o.tag_repr().raw_value()) != (w, v) || o.value() != v {
                return Err(viol::<()>("owned-differs", "owned tag has another tag value").unwrap_err().into());
            }
            match st.pick(3) {
                0 => cdata_node(o.data(), st)?,
                1 => {
                    let mut r = o.read_data();
                    let n = deep(&mut r, st)?;
                    ended(&r)?;
                    n
                }
                _ => {
                    let b = o.borrow();
                    slice_node(b.data(), st)?
                }
            }
        }
        _ => {
            let mut inner = None;
            let r = t.read_data(|r| {
                let x = r.data()?;
                inner = Some(x);
                Ok(())
            });
            r?;
            match inner {
                Some(d) => data_node(&d, st)?,
                None => return Err(De::Lib(Ec::Other)),
            }
        }
    };
    Ok(Node::G(w, v, Box::new(n)))
}

pub fn data_node(d: &Data, st: &mut Style) -> D<Node> {
    Ok(match d {
        Data::Positive(p) => scalar_node(Scalar::Positive(*p))?,
        Data::Negative(n) => scalar_node(Scalar::Negative(*n))?,
        Data::Float(f) => float_node(*f)?,
        Data::Byte(b) => byte_node(*b)?,
        Data::Bytes(b) => Node::B(bytes_str(b)?),
        Data::Text(t) => Node::T(text_str(t)?),
        Data::Array(a) => array_node(a, st)?,
        Data::Map(m) => map_node(m, st)?,
        Data::Tag(t) => tag_node(t, st)?,
        Data::False => Node::C(0),
        Data::True => Node::C(1),
        Data::Null => Node::C(2),
        Data::Undefined => Node::C(3),
    })
}

/// read one element completely, members included, through a seeded mix of
/// reader operations
pub fn deep(r: &mut Reader, st: &mut Style) -> D<Node> {
    match st.pick(4) {
        0 => {
            let d = r.data()?;
            data_node(&d, st)
        }
        1 => {
            let d = r.data()?.owned();
            let d2 = d.clone();
            data_node(&d2.borrow(), st)
        }
        2 => {
            let d: DataOwned = r.decode()?;
            data_node(&d.borrow(), st)
        }
        _ => typed(r, st),
    }
}

/// through the type-specific reads
pub fn typed(r: &mut Reader, st: &mut Style) -> D<Node> {
    Ok(match kind_of(r.peek_type()?) {
        Kind::Positive => match st.pick(3) {
            0 => scalar_node(r.scalar()?)?,
            1 => scalar_node(r.decode::<Scalar>()?)?,
            _ => scalar_node(Scalar::Positive(r.positive()?))?,
        },
        Kind::Negative => match st.pick(3) {
            0 => scalar_node(r.scalar()?)?,
            1 => scalar_node(r.decode::<Scalar>()?)?,
            _ => scalar_node(Scalar::Negative(r.negative()?))?,
        },
        Kind::Bytes => {
            let b = r.bytes()?;
            Node::B(bytes_str(&b.owned().borrow())?)
        }
        Kind::Text => {
            let t = r.text()?;
            Node::T(text_str(&t.owned().borrow())?)
        }
        Kind::Array => {
            let a = r.array()?;
            array_node(&a, st)?
        }
        Kind::Map => {
            let m = r.map()?;
            map_node(&m, st)?
        }
        Kind::Tag => {
            let t = r.tag()?;
            tag_node(&t, st)?
        }
        Kind::False | Kind::True => match st.pick(2) {
            0 => const_node(r.constant()?),
            _ => Node::C(r.bool()? as u8),
        },
        Kind::Null => match st.pick(2) {
            0 => const_node(r.constant()?),
            _ => {
                r.null()?;
                Node::C(2)
            }
        },
        Kind::Undefined => match st.pick(2) {
            0 => const_node(r.constant()?),
            _ => {
                r.undefined()?;
                Node::C(3)
            }
        },
        Kind::Float => float_node(r.float()?)?,
        Kind::Byte => byte_node(r.byte()?)?,
        Kind::Break => {
            keep(|| Fact::Break);
            return Err(De::Lib(Ec::Other));
        }
    })
}

// ------------------------------------------------------------ forwarding ---

/// which standard tagged type an element is an instance of
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Std {
    Date,
    Pos,
    Neg,
    Enc,
    Rat,
}

fn txt_ok(n: &Node) -> bool {
    matches!(n, Node::T(s) if text_ok(s))
}
/// the reference decision, from the tag registry
pub fn std_of(n: &Node) -> Option<Std> {
    if let Node::G(_, t, c) = n {
        match (t, &**c) {
            (0, x) if txt_ok(x) => Some(Std::Date),
            (2, Node::B(_)) => Some(Std::Pos),
            (3, Node::B(_)) => Some(Std::Neg),
            (24, Node::B(_)) => Some(Std::Enc),
            (30, Node::A(_, e)) if e.len() == 2 => {
                let big = |n: &Node, t: u64| matches!(n, Node::G(_, x, c) if *x == t && matches!(**c, Node::B(_)));
                let num = matches!(e[0], Node::U(..) | Node::N(..)) || big(&e[0], 2) || big(&e[0], 3);
                let den = matches!(e[1], Node::U(..)) || big(&e[1], 2);
                if num && den {
                    Some(Std::Rat)
                } else {
                    None
                }
            }
            _ => None,
        }
    } else {
        None
    }
}

/// read as the standard tagged type, return what it re-encodes to and its payload
pub fn std_read(which: Std, r: &mut Reader, st: &mut Style) -> D<(Vec<u8>, Vec<u8>)> {
    fn both<'a, T: Decode>(r: &mut Reader<'a>, st: &mut Style, f: impl FnOnce(&mut Reader<'a>) -> Result<T, ReaderError>) -> D<T> {
        if st.pick(2) == 0 {
            Ok(r.decode::<T>()?)
        } else {
            Ok(f(r)?)
        }
    }
    Ok(match which {
        Std::Date => {
            let v = both(r, st, StandardDateTime::read)?;
            (enc(&v.clone()), vec![])
        }
        Std::Pos => {
            let v = both(r, st, PositiveBignum::read)?;
            (enc(&v), v.to_be_bytes())
        }
        Std::Neg => {
            let v = both(r, st, NegativeBignum::read)?;
            (enc(&v), v.to_be_bytes())
        }
        Std::Enc => {
            let v = both(r, st, EncodedCBOR::read)?;
            (enc(&v), v.to_bytes())
        }
        Std::Rat => {
            let v = both(r, st, RationalNumber::read)?;
            let mut w = Writer::new();
            match v.numerator() {
                RationalNumerator::Positive(p) => w.positive(*p),
                RationalNumerator::Negative(p) => w.negative(*p),
                RationalNumerator::PositiveBignum(p) => w.encode(p),
                RationalNumerator::NegativeBignum(p) => w.encode(p),
            }
            match v.denominator() {
                RationalDenominator::Positive(p) => w.positive(*p),
                RationalDenominator::PositiveBignum(p) => w.encode(p),
            }
            (enc(&v), w.finalize())
        }
    })
}
pub fn std_payload(n: &Node) -> Vec<u8> {
    match n {
        Node::G(_, 0, _) => vec![],
        Node::G(_, 30, c) => match &**c {
            Node::A(_, e) => [e[0].enc(), e[1].enc()].concat(),
            _ => vec![],
        },
        Node::G(_, _, c) => match &**c {
            Node::B(s) => s.concat(),
            _ => vec![],
        },
        _ => vec![],
    }
}

pub const ROUTES: u64 = 16;
pub const ROUTE_NAMES: [&str; 16] = [
    "route-data", "route-owned", "route-owned-clone", "route-decode-owned", "route-typed", "route-slice-of", "route-data-of",
    "route-decode-data-of", "route-validator", "route-rebuild", "route-array-builder", "route-std-tagged", "route-to-vec",
    "route-recursive", "route-retype", "route-exact-clone",
];

/// read the next element of `r` and write it out again through one of the
/// library's many routes; `node` is the reference tree of that element
pub fn forward(r: &mut Reader, src: &[u8], node: &Node, route: u64, st: &mut Style) -> D<Vec<u8>> {
    let mut w = Writer::new();
    match route {
        0 => w.data(&r.data()?),
        1 => w.data(&r.data()?.owned().borrow()),
        2 => w.encode(&r.data()?.owned().clone()),
        3 => w.encode(&r.decode::<DataOwned>()?),
        4 => typed_write(r, &mut w, st)?,
        5 => {
            let s = r.exact_decodable_slice::<DataOwned>()?;
            match st.pick(4) {
                0 => w.encode(s),
                1 => w.encode(s.untype()),
                2 => w.encode(&s.to_owned()),
                _ => w.encode(&s.to_owned().unserialize()),
            }
        }
        6 => {
            let s = r.exact_decodable_data::<DataOwned>()?;
            match st.pick(4) {
                0 => w.encode(&s),
                1 => w.encode(&s.clone().untype()),
                2 => w.encode(Borrow::<CborSliceOf<DataOwned>>::borrow(&s)),
                _ => w.encode(&s.unserialize()),
            }
        }
        7 => {
            let s: CborDataOf<DataOwned> = r.decode()?;
            w.encode(&s.clone())
        }
        8 => {
            let at = r.consumed_bytes();
            let mut v = Validator::new(&src[at..]);
            let (s, n) = v.next().map_err(|e| De::Lib(verr(&e)))?;
            match st.pick(3) {
                0 => w.encode(s),
                1 => w.encode(&s.to_owned()),
                _ => w.data(&s.reader().data()?),
            }
            let d = r.data()?;
            drop(d);
            if r.consumed_bytes() - at != n {
                return Err(viol::<()>("boundary", "validator and reader disagree on an element's size").unwrap_err().into());
            }
        }
        9 => rebuild(&r.data()?, &mut w)?,
        10 => match (r.data()?, node) {
            (Data::Array(a), Node::A(l, e)) if *l == None || *l == Some(min_w(e.len() as u64)) => {
                let mut b = ArrayBuilder::new();
                let o = a.owned();
                for i in 0..o.len() {
                    match st.pick(3) {
                        0 => b.append(o[i].clone()),
                        1 => b.append_encodable(&o[i]),
                        _ => b.append_encodable(&o[i].decode::<DataOwned>()?),
                    }
                }
                let o = if l.is_none() { b.indefinite() } else { b.finite() };
                w.array(&o.borrow())
            }
            (d, _) => w.data(&d),
        },
        11 => match std_of(node) {
            Some(s) => {
                let (b, pay) = std_read(s, r, st)?;
                if pay != std_payload(node) {
                    return Err(viol::<()>("std-payload", format!("payload of standard tagged {:?} differs from the bytes", s))
                        .unwrap_err()
                        .into());
                }
                return Ok(b);
            }
            None => w.data(&r.data()?),
        },
        12 => match r.data()? {
            Data::Array(a) => {
                let v = a.to_vec(kdec)?;
                w.array_build(a.struct_len(), |w| {
                    for d in &v {
                        w.encode(d)
                    }
                })
            }
            Data::Map(m) => {
                let v = m.to_vec(kdec, kdec)?;
                w.map_build(m.struct_len(), |w| {
                    for (a, b) in &v {
                        w.encode(a);
                        w.encode(b)
                    }
                })
            }
            Data::Tag(t) => {
                let d = t.decode_data::<DataOwned>()?;
                w.tag_build(t.tag_repr(), |w| w.encode(&d))
            }
            d => w.data(&d),
        },
        13 => {
            let d = r.data()?;
            recursive(&d, &mut w)?
        }
        14 => {
            let s = r.exact_decodable_data::<DataOwned>()?.untype();
            let t: CborDataOf<DataOwned> = s.validate_as()?;
            let u = t.untype().clone();
            w.encode(&u);
        }
        _ => {
            let d = r.decode::<CborDataOf<DataOwned>>()?;
            let b = enc(&d);
            let again: CborDataOf<DataOwned> = decode_from_bytes(&b)?;
            w.encode(&CborDataOf::<DataOwned>::from(&again.unserialize()))
        }
    }
    Ok(w.finalize())
}

fn typed_write(r: &mut Reader, w: &mut Writer, st: &mut Style) -> D<()> {
    match kind_of(r.peek_type()?) {
        Kind::Positive => match st.pick(3) {
            0 => w.scalar(r.scalar()?),
            1 => w.encode(&r.positive()?),
            _ => w.positive(r.positive()?),
        },
        Kind::Negative => match st.pick(3) {
            0 => w.scalar(r.scalar()?),
            1 => w.encode(&r.negative()?),
            _ => w.negative(r.negative()?),
        },
        Kind::Bytes => {
            let b = r.bytes()?;
            match st.pick(3) {
                0 => w.bytes(&b),
                1 => w.encode(&b.owned().clone()),
                _ => w.encode(&b),
            }
        }
        Kind::Text => {
            let t = r.text()?;
            match st.pick(2) {
                0 => w.text(&t),
                _ => w.encode(&t.owned().clone().borrow()),
            }
        }
        Kind::Array => {
            let a = r.array()?;
            match st.pick(3) {
                0 => w.array(&a),
                1 => w.encode(&a.clone()),
                _ => w.array(&a.owned().clone().borrow()),
            }
        }
        Kind::Map => {
            let a = r.map()?;
            match st.pick(3) {
                0 => w.map(&a),
                1 => w.encode(&a.clone()),
                _ => w.map(&a.owned().clone().borrow()),
            }
        }
        Kind::Tag => {
            let a = r.tag()?;
            match st.pick(3) {
                0 => w.tag(&a),
                1 => w.encode(&a.clone()),
                _ => w.tag(&a.owned().clone().borrow()),
            }
        }
        Kind::False | Kind::True => match st.pick(3) {
            0 => w.constant(r.constant()?),
            1 => w.bool(r.bool()?),
            _ => w.encode(&r.decode::<bool>()?),
        },
        Kind::Null | Kind::Undefined => w.encode(&r.constant()?),
        Kind::Float => match st.pick(2) {
            0 => w.float(r.float()?),
            _ => w.encode(&r.float()?),
        },
        Kind::Byte => match st.pick(2) {
            0 => w.byte(r.byte()?),
            _ => w.encode(&r.byte()?),
        },
        Kind::Break => {
            keep(|| Fact::Break);
            return Err(De::Lib(Ec::Other));
        }
    }
    Ok(())
}

fn rebuild(d: &Data, w: &mut Writer) -> D<()> {
    match d {
        Data::Array(a) => w.array_build(a.struct_len(), |w| {
            for i in 0..a.len() {
                w.encode(a[i])
            }
        }),
        Data::Map(m) => w.map_build(m.struct_len(), |w| {
            for i in 0..m.len() {
                let (k, v) = m[i];
                w.encode(k);
                w.encode(v)
            }
        }),
        Data::Tag(t) => w.tag_build(t.tag_repr(), |w| w.encode(t.data())),
        d => w.data(d),
    }
    Ok(())
}

/// take the element apart down to its leaves and rebuild it with the builders
fn recursive(d: &Data, w: &mut Writer) -> D<()> {
    let mut err = None;
    match d {
        Data::Array(a) => w.array_build(a.struct_len(), |w| {
            for mut r in a.iter() {
                if let Err(e) = r.data().map_err(De::from).and_then(|d| recursive(&d, w)) {
                    err = Some(e)
                }
            }
        }),
        Data::Map(m) => w.map_build(m.struct_len(), |w| {
            for (mut k, mut v) in m.iter() {
                if let Err(e) = k.data().map_err(De::from).and_then(|d| recursive(&d, w)) {
                    err = Some(e)
                }
                if let Err(e) = v.data().map_err(De::from).and_then(|d| recursive(&d, w)) {
                    err = Some(e)
                }
            }
        }),
        Data::Tag(t) => w.tag_build(t.tag_repr(), |w| {
            if let Err(e) = t.reader().data().map_err(De::from).and_then(|d| recursive(&d, w)) {
                err = Some(e)
            }
        }),
        d => w.data(d),
    }
    match err {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

/// expectation helper: the library must have succeeded
pub fn must<T>(c: &mut Ctx, d: D<T>, class: &str, what: impl FnOnce() -> String) -> R<T> {
    c.ops += 1;
    match d {
        Ok(v) => Ok(v),
        Err(De::Bad(v)) => Err(v),
        Err(De::Lib(e)) => viol(class, format!("{}: refused with {:?}", what(), e)),
    }
}

/// feed one header to the library's structural state machine
pub fn state_feed(s: &mut cbored::state::State, l: Lead) -> Result<(), cbored::state::StateError> {
    let arg = |w: W, v: u64| Some(to_hv(w, v));
    match l {
        Lead::Val { major: 2, w, v, .. } => s.bytes(arg(w, v)),
        Lead::Val { major: 3, w, v, .. } => s.text(arg(w, v)),
        Lead::Val { major: 4, w, v, .. } => s.array(arg(w, v)),
        Lead::Val { major: 5, w, v, .. } => s.map(arg(w, v)),
        Lead::Val { major: 6, .. } => s.tag(),
        Lead::Val { .. } => s.simple(),
        Lead::Indef { major: 2 } => s.bytes(None),
        Lead::Indef { major: 3 } => s.text(None),
        Lead::Indef { major: 4 } => s.array(None),
        Lead::Indef { .. } => s.map(None),
        Lead::Break => s.brk(),
    }
}
