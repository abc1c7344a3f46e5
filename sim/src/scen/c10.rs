//! A store of typed data used by several clients: entries are validated,
//! cloned, untyped, retyped, owned, borrowed, embedded, persisted, damaged and
//! recovered in any order; what was accepted once can always be taken out.
use crate::api::*;
use crate::ctx::*;
use crate::entry::raw_data;
use crate::refcbor::*;
use crate::scen::hostile::{foreign, restruct, shallow};
use crate::zoo::{self, enc_nodes, parse_seq, Fld, Rec};
use cbored::tagged::*;
use cbored::validate::Validator;
use cbored::*;
use std::borrow::Borrow;
use std::marker::PhantomData;

pub const RULE: &str = "a run is a store of 1-6 typed or untyped entries handled by 1-4 clients through 10-60 seeded operations (accept, refuse, clone, untype, retype, own, borrow, embed, write out, persist) with rot, trailing garbage, torn and lost writes, crashes and recovery; non-trivial: at least one acceptance was judged and one value taken out; distinct by the hash of every event and payload";

type CborData = <CborSlice as ToOwned>::Owned;

trait K: 'static {
    type T: Encode + Decode + 'static;
    const FLAT: bool;
    fn name() -> &'static str;
    fn nodes(t: &Self::T) -> Vec<Node>;
    fn from(n: &[Node]) -> Option<Self::T>;
    fn gen(g: &Gen, s: &mut crate::rng::Src) -> Self::T;
}
struct AsFld<T>(PhantomData<T>);
impl<T: Fld + Encode + Decode + 'static> K for AsFld<T> {
    type T = T;
    const FLAT: bool = false;
    fn name() -> &'static str {
        std::any::type_name::<T>()
    }
    fn nodes(t: &T) -> Vec<Node> {
        vec![t.node()]
    }
    fn from(n: &[Node]) -> Option<T> {
        match n {
            [n] => T::from(n),
            _ => None,
        }
    }
    fn gen(g: &Gen, s: &mut crate::rng::Src) -> T {
        T::gen(g, s)
    }
}
struct AsRec<T>(PhantomData<T>);
impl<T: Rec + 'static> K for AsRec<T> {
    type T = T;
    const FLAT: bool = T::FLAT;
    fn name() -> &'static str {
        T::NAME
    }
    fn nodes(t: &T) -> Vec<Node> {
        t.nodes()
    }
    fn from(n: &[Node]) -> Option<T> {
        T::from_nodes(n)
    }
    fn gen(g: &Gen, s: &mut crate::rng::Src) -> T {
        T::make(g, s)
    }
}

/// typed data whose type is known to the table only
trait H {
    fn bytes(&self) -> Vec<u8>;
    fn twin(&self) -> Box<dyn H>;
    fn same_as(&self, o: &[u8]) -> bool;
    /// take the value out
    fn value(&self) -> Vec<Node>;
    fn untype(self: Box<Self>) -> CborData;
    /// borrow as a slice, own it again
    fn round(&self) -> Box<dyn H>;
    /// the slice without its type
    fn slice_bytes(&self) -> Vec<u8>;
    /// the slice, untyped, and validated again
    fn slice_again(&self) -> Result<Box<dyn H>, De>;
    fn put(&self, w: &mut Writer, slice: bool);
    fn append(&self, b: &mut ArrayBuilder);
}
struct Hd<X: K>(CborDataOf<X::T>);
impl<X: K> H for Hd<X> {
    fn bytes(&self) -> Vec<u8> {
        self.0.as_ref().to_vec()
    }
    fn twin(&self) -> Box<dyn H> {
        Box::new(Hd::<X>(self.0.clone()))
    }
    fn same_as(&self, o: &[u8]) -> bool {
        self.0.as_ref() == o
    }
    fn value(&self) -> Vec<Node> {
        X::nodes(&self.0.unserialize())
    }
    fn untype(self: Box<Self>) -> CborData {
        self.0.untype()
    }
    fn round(&self) -> Box<dyn H> {
        let s: &CborSliceOf<X::T> = self.0.borrow();
        Box::new(Hd::<X>(s.to_owned()))
    }
    fn slice_bytes(&self) -> Vec<u8> {
        let s: &CborSliceOf<X::T> = self.0.borrow();
        s.untype().as_ref().to_vec()
    }
    fn slice_again(&self) -> Result<Box<dyn H>, De> {
        let s: &CborSliceOf<X::T> = self.0.borrow();
        let u = s.untype();
        let t = u.validate_as::<X::T>()?;
        Ok(Box::new(Hd::<X>(t.to_owned())))
    }
    fn put(&self, w: &mut Writer, slice: bool) {
        if slice {
            let s: &CborSliceOf<X::T> = self.0.borrow();
            w.encode(s)
        } else {
            w.encode(&self.0)
        }
    }
    fn append(&self, b: &mut ArrayBuilder) {
        b.append_encodable(&self.0)
    }
}

#[derive(Clone, Copy)]
struct Ty {
    name: fn() -> &'static str,
    flat: bool,
    gen: fn(&Gen, &mut crate::rng::Src) -> Vec<Node>,
    refdec: fn(&[Node]) -> Option<Vec<Node>>,
    wrap: fn(&[Node]) -> Option<Box<dyn H>>,
    fresh: fn(&[u8]) -> Result<Vec<Node>, De>,
    by_data: fn(&CborData) -> Result<Box<dyn H>, De>,
    by_slice: fn(&CborSlice) -> Result<Box<dyn H>, De>,
    /// decode without wrapping
    dec_data: fn(&CborData) -> Result<Vec<Node>, De>,
    dec_slice: fn(&CborSlice) -> Result<Vec<Node>, De>,
    read: fn(&mut Reader, u64) -> Result<Box<dyn H>, De>,
}
fn ty<X: K>() -> Ty {
    Ty {
        name: X::name,
        flat: X::FLAT,
        gen: |g, s| X::nodes(&X::gen(g, s)),
        refdec: |n| X::from(n).map(|t| X::nodes(&t)),
        wrap: |n| X::from(n).map(|t| Box::new(Hd::<X>(<CborDataOf<X::T> as std::convert::From<&X::T>>::from(&t))) as Box<dyn H>),
        fresh: |b| Ok(X::nodes(&decode_from_bytes::<X::T>(b)?)),
        by_data: |d| Ok(Box::new(Hd::<X>(d.validate_as::<X::T>()?))),
        by_slice: |s| Ok(Box::new(Hd::<X>(s.validate_as::<X::T>()?.to_owned()))),
        dec_data: |d| Ok(X::nodes(&d.decode::<X::T>()?)),
        dec_slice: |s| Ok(X::nodes(&s.decode::<X::T>()?)),
        read: |r, how| {
            Ok(Box::new(Hd::<X>(match how {
                0 => r.exact_decodable_data::<X::T>()?,
                1 => r.decode::<CborDataOf<X::T>>()?,
                _ => r.exact_decodable_slice::<X::T>()?.to_owned(),
            })))
        },
    }
}

fn table() -> Vec<Ty> {
    vec![
        ty::<AsFld<u64>>(),
        ty::<AsFld<u8>>(),
        ty::<AsFld<u16>>(),
        ty::<AsFld<u32>>(),
        ty::<AsFld<bool>>(),
        ty::<AsFld<String>>(),
        ty::<AsFld<Vec<u8>>>(),
        ty::<AsFld<[u8; 4]>>(),
        ty::<AsFld<Scalar>>(),
        ty::<AsFld<DataOwned>>(),
        ty::<AsFld<CborDataOf<DataOwned>>>(),
        ty::<AsFld<CborDataOf<CborDataOf<zoo::Point>>>>(),
        ty::<AsFld<CborDataOf<u16>>>(),
        ty::<AsFld<StandardDateTime>>(),
        ty::<AsFld<PositiveBignum>>(),
        ty::<AsFld<NegativeBignum>>(),
        ty::<AsFld<EncodedCBOR>>(),
        ty::<AsFld<RationalNumber>>(),
        ty::<AsRec<zoo::Point>>(),
        ty::<AsRec<zoo::Point2>>(),
        ty::<AsRec<zoo::Mixed>>(),
        ty::<AsRec<zoo::TagArr>>(),
        ty::<AsRec<zoo::TagLast>>(),
        ty::<AsRec<zoo::FlatPoint>>(),
        ty::<AsRec<zoo::FlatTup>>(),
        ty::<AsRec<zoo::NewType>>(),
        ty::<AsRec<zoo::TagNew>>(),
        ty::<AsRec<zoo::MapV1>>(),
        ty::<AsRec<zoo::MapV2>>(),
        ty::<AsRec<zoo::MapSkip>>(),
        ty::<AsRec<zoo::Variant>>(),
        ty::<AsRec<zoo::Code>>(),
        ty::<AsRec<zoo::ByType>>(),
        ty::<AsRec<zoo::Nest>>(),
        ty::<AsRec<zoo::MapNest>>(),
        ty::<AsRec<zoo::Tagged>>(),
    ]
}

enum Form {
    Untyped(CborData),
    Typed(usize, Box<dyn H>),
}
struct Entry {
    /// the bytes this entry holds
    model: Vec<u8>,
    form: Form,
    /// a type it is known to be data of
    known: usize,
}

struct Stored {
    frame: Vec<u8>,
    model: Vec<u8>,
    ty: usize,
}

struct World {
    tys: Vec<Ty>,
    e: Vec<Entry>,
    disk: Disk,
    stored: Vec<Stored>,
    /// the type this run keeps coming back to
    fav: usize,
}

fn whole(t: &Ty, b: &[u8]) -> Option<Vec<Node>> {
    (t.refdec)(&parse_seq(b, None)?)
}
fn say(t: &Ty, b: &[u8]) -> String {
    format!("{} {}", (t.name)(), hex(b, 80))
}

/// accepted data: bytes as given, value as the reference says, twice the same
fn check(c: &mut Ctx, t: &Ty, h: &dyn H, model: &[u8], how: &str) -> R {
    c.ops += 1;
    if !h.same_as(model) || h.bytes() != model {
        return viol("bytes-changed", format!("{} {} holds {}", say(t, model), how, hex(&h.bytes(), 80)));
    }
    if h.slice_bytes() != model {
        return viol("bytes-changed", format!("{} {} borrowed: {}", say(t, model), how, hex(&h.slice_bytes(), 80)));
    }
    let want = match whole(t, model) {
        Some(w) => w,
        None => return viol("accepted", format!("{} is accepted {}", say(t, model), how)),
    };
    let got = h.value();
    c.data(&enc_nodes(&got));
    if got != want {
        return viol("value", format!("{} {}: takes out {} instead of {}", say(t, model), how, hex(&enc_nodes(&got), 60), hex(&enc_nodes(&want), 60)));
    }
    match (t.fresh)(model) {
        Ok(f) if f == want => Ok(()),
        Ok(f) => viol("value", format!("{}: a fresh decode gives {}", say(t, model), hex(&enc_nodes(&f), 60))),
        Err(De::Bad(v)) => Err(v),
        Err(De::Lib(e)) => viol("fresh-decode", format!("{} {} was accepted, a fresh decode fails: {:?}", say(t, model), how, e)),
    }
}

/// put bytes up for acceptance as a type: accepted exactly when they are one
fn offer(c: &mut Ctx, t: &Ty, b: &[u8]) -> R<Option<Box<dyn H>>> {
    c.ops += 1;
    let want = if shallow(b) { whole(t, b) } else { return Ok(None) };
    let d = raw_data(b);
    let how = c.s.draw(5);
    let (name, got): (&'static str, Result<Option<Box<dyn H>>, De>) = match how {
        0 | 1 => ("validate-data", (t.by_data)(&d).map(Some)),
        2 => {
            let s: &CborSlice = d.borrow();
            ("validate-slice", (t.by_slice)(s).map(Some))
        }
        3 => ("decode-data", (t.dec_data)(&d).and_then(|n| settle(t, b, n, &want)).map(|_| None)),
        _ => {
            let s: &CborSlice = d.borrow();
            ("decode-slice", (t.dec_slice)(s).and_then(|n| settle(t, b, n, &want)).map(|_| None))
        }
    };
    c.probe(name);
    // offering changed nothing
    if d.as_ref() != b {
        return viol("bytes-changed", format!("{} became {}", hex(b, 60), hex(d.as_ref(), 60)));
    }
    match (got, &want) {
        (Err(De::Bad(v)), _) => Err(v),
        (Ok(_), None) => viol("accepted", format!("{} accepts {}", name, say(t, b))),
        (Err(De::Lib(e)), Some(_)) => viol("refused", format!("{} refuses {}: {:?}", name, say(t, b), e)),
        (Err(De::Lib(_)), None) => {
            c.probe("refusal");
            // untyped data stays what it was
            if matches!(wf(b), Wf::Ok(n) if n == b.len()) {
                let mut r = d.read();
                let mut st = c.style();
                let n = parse(b).map(|x| x.0).unwrap_or(Node::C(2));
                if crate::entry::all_text_ok(&n) {
                    let got = must(c, deep(&mut r, &mut st), "unusable", || format!("reading {} after it was refused as {}", hex(b, 60), (t.name)()))?;
                    if got != n {
                        return viol("unusable", format!("{} reads as {} after it was refused", hex(b, 60), got.short()));
                    }
                }
            }
            Ok(None)
        }
        (Ok(Some(h)), Some(_)) => {
            check(c, t, &*h, b, name)?;
            Ok(Some(h))
        }
        (Ok(None), Some(_)) => Ok(None),
    }
}
fn settle(t: &Ty, b: &[u8], n: Vec<Node>, want: &Option<Vec<Node>>) -> Result<(), De> {
    match want {
        Some(w) if *w != n => Err(De::Bad(Viol { class: "value".into(), msg: format!("{} decodes as {}", say(t, b), hex(&enc_nodes(&n), 60)) })),
        _ => Ok(()),
    }
}

/// read typed data from a stream holding `b` first
fn read(c: &mut Ctx, t: &Ty, b: &[u8], more: &[u8]) -> R<Option<Box<dyn H>>> {
    c.ops += 1;
    c.probe("read-typed");
    let mut s = b.to_vec();
    s.extend_from_slice(more);
    if !shallow(&s) {
        return Ok(None);
    }
    let one = parse(&s);
    let want = one.as_ref().and_then(|x| (t.refdec)(std::slice::from_ref(&x.0)));
    let mut r = Reader::new(&s);
    let got = (t.read)(&mut r, c.s.draw(3));
    match (got, want, one) {
        (Err(De::Bad(v)), _, _) => Err(v),
        (Ok(h), Some(_), Some((_, l))) => {
            if r.consumed_bytes() != l {
                return viol("boundary", format!("typed read of {} consumes {} instead of {}", say(t, &s), r.consumed_bytes(), l));
            }
            check(c, t, &*h, &s[..l], "read")?;
            Ok(if l == b.len() { Some(h) } else { None })
        }
        (Ok(h), _, _) => viol("accepted", format!("typed read accepts {} as {}", hex(&s, 80), say(t, &h.bytes()))),
        (Err(De::Lib(e)), Some(_), _) => viol("refused", format!("typed read refuses {}: {:?}", say(t, &s), e)),
        (Err(De::Lib(_)), None, _) => {
            c.probe("refusal");
            Ok(None)
        }
    }
}

impl World {
    fn pick_ty(&self, c: &mut Ctx) -> usize {
        if c.s.chance(1, 3) {
            c.s.draw(self.tys.len() as u64) as usize
        } else {
            self.fav
        }
    }

    /// bytes of a type, often in a foreign encoding
    fn bytes(&self, c: &mut Ctx, g: &Gen, k: usize) -> Vec<u8> {
        let t = self.tys[k];
        let nodes = (t.gen)(g, &mut c.s);
        let plain = enc_nodes(&nodes);
        if c.s.chance(1, 2) {
            let f: Vec<Node> = nodes.iter().map(|n| foreign(&mut c.s, n, 40, 30, true)).collect();
            let b = enc_nodes(&f);
            if whole(&t, &b).is_some() {
                c.probe("foreign");
                return b;
            }
        }
        plain
    }

    /// what rot, a splice or a careless writer makes of it
    fn spoil(&self, c: &mut Ctx, b: &[u8]) -> Vec<u8> {
        let mut b = b.to_vec();
        match c.s.draw(5) {
            0 => {
                // trailing bytes
                c.fault("trailing-bytes", 0);
                let n = 1 + c.s.draw(3);
                for _ in 0..n {
                    let x = [0xff, 0x00, 0xf6, 0x80, 0x18, 0xc0][c.s.draw(6) as usize];
                    b.push(x)
                }
            }
            1 => {
                c.fault("written-twice", 0);
                let x = b.clone();
                b.extend_from_slice(&x)
            }
            2 => {
                if let Some(mut n) = parse_seq(&b, None) {
                    if let Some(k) = restruct(&mut c.s, &mut n) {
                        c.fault(k, 0)
                    }
                    b = enc_nodes(&n);
                }
            }
            _ => {
                let k = damage(&mut c.s, &mut b, &[]);
                c.fault(DAMAGE[k], 0);
            }
        }
        b
    }

    fn op(&mut self, c: &mut Ctx, g: &Gen, who: u64) -> R {
        let o = if self.e.is_empty() { 0 } else { c.s.draw(16) };
        c.ev(["accept", "wrap", "offer-spoiled", "take-out", "clone", "untype", "retype", "borrow", "slice-again", "embed", "build", "stream", "persist", "sync", "forget", "known"][o as usize], who, self.e.len() as u64);
        let i = if self.e.is_empty() { 0 } else { c.s.draw(self.e.len() as u64) as usize };
        match o {
            0 => {
                // new data arrives: typed read or validation
                let k = self.pick_ty(c);
                let t = self.tys[k];
                let b = self.bytes(c, g, k);
                c.note(|| say(&t, &b));
                let h = if c.s.chance(1, 2) && !t.flat {
                    let k2 = self.pick_ty(c);
                    let more = if c.s.chance(1, 2) { self.bytes(c, g, k2) } else { vec![] };
                    read(c, &t, &b, &more)?
                } else {
                    offer(c, &t, &b)?
                };
                let form = match h {
                    Some(h) => Form::Typed(k, h),
                    None => Form::Untyped(raw_data(&b)),
                };
                self.add(c, Entry { model: b, form, known: k });
            }
            1 => {
                let k = self.pick_ty(c);
                let t = self.tys[k];
                let n = (t.gen)(g, &mut c.s);
                let h = match (t.wrap)(&n) {
                    Some(h) => h,
                    None => return viol("harness", format!("{} not constructible", (t.name)())),
                };
                let b = enc_nodes(&n);
                c.probe("wrap-value");
                check(c, &t, &*h, &b, "wrapped from a value")?;
                self.add(c, Entry { model: b, form: Form::Typed(k, h), known: k });
            }
            2 => {
                if c.calm {
                    return Ok(());
                }
                let b = self.e[i].model.clone();
                let b = self.spoil(c, &b);
                let k = if c.s.chance(2, 3) { self.e[i].known } else { self.pick_ty(c) };
                let t = self.tys[k];
                c.note(|| format!("offered: {}", say(&t, &b)));
                let h = if c.s.chance(1, 3) && !t.flat { read(c, &t, &b, &[])? } else { offer(c, &t, &b)? };
                if let Some(h) = h {
                    // the damage left valid data of the type
                    c.probe("spoiled-yet-valid");
                    self.add(c, Entry { model: b, form: Form::Typed(k, h), known: k });
                }
            }
            3 => self.verify(c, i)?,
            4 => {
                let f = match &self.e[i].form {
                    Form::Untyped(d) => {
                        let d2 = d.clone();
                        if d2 != *d {
                            return viol("bytes-changed", "a clone differs");
                        }
                        Form::Untyped(d2)
                    }
                    Form::Typed(k, h) => Form::Typed(*k, h.twin()),
                };
                let (model, known) = (self.e[i].model.clone(), self.e[i].known);
                self.add(c, Entry { model, form: f, known });
            }
            5 => {
                let e = self.e.swap_remove(i);
                let form = match e.form {
                    Form::Typed(_, h) => Form::Untyped(h.untype()),
                    f => f,
                };
                if let Form::Untyped(d) = &form {
                    if d.as_ref() != &e.model[..] {
                        return viol("bytes-changed", format!("untyped {} is {}", hex(&e.model, 60), hex(d.as_ref(), 60)));
                    }
                }
                self.e.push(Entry { form, ..e });
            }
            6 => {
                // untyped data is given a type, maybe the wrong one first
                let k = if c.s.chance(1, 2) { self.e[i].known } else { self.pick_ty(c) };
                let t = self.tys[k];
                let b = self.e[i].model.clone();
                let h = match &self.e[i].form {
                    Form::Untyped(d) if shallow(&b) => {
                        let want = whole(&t, &b).is_some();
                        let got = if c.s.chance(1, 2) {
                            (t.by_data)(d)
                        } else {
                            let s: &CborSlice = d.borrow();
                            (t.by_slice)(s)
                        };
                        if d.as_ref() != &b[..] {
                            return viol("bytes-changed", format!("validating changed {}", hex(&b, 60)));
                        }
                        c.probe(if want { "retype" } else { "retype-refused" });
                        match (got, want) {
                            (Err(De::Bad(v)), _) => return Err(v),
                            (Ok(h), true) => Some(h),
                            (Ok(_), false) => return viol("accepted", format!("{} is accepted", say(&t, &b))),
                            (Err(De::Lib(e)), true) => return viol("refused", format!("{} is refused: {:?}", say(&t, &b), e)),
                            _ => None,
                        }
                    }
                    _ => offer(c, &t, &b)?,
                };
                if let Some(h) = h {
                    check(c, &t, &*h, &b, "retyped")?;
                    self.e[i].form = Form::Typed(k, h);
                    self.e[i].known = k;
                }
            }
            7 => {
                if let Form::Typed(k, h) = &self.e[i].form {
                    let h2 = h.round();
                    let k = *k;
                    self.e[i].form = Form::Typed(k, h2);
                    c.probe("borrow-own");
                }
            }
            8 => {
                if let Form::Typed(k, h) = &self.e[i].form {
                    let (t, b) = (self.tys[*k], self.e[i].model.clone());
                    let k = *k;
                    let h2 = must(c, h.slice_again(), "refused", || format!("validating the borrowed {} again", say(&t, &b)))?;
                    check(c, &t, &*h2, &b, "borrowed and validated again")?;
                    self.e[i].form = Form::Typed(k, h2);
                }
            }
            9 | 10 | 11 => self.embed(c, o, i)?,
            12 => {
                let e = &self.e[i];
                let mut f = (e.model.len() as u32).to_be_bytes().to_vec();
                f.push(e.known as u8);
                let body = match &e.form {
                    Form::Untyped(d) => d.as_ref().to_vec(),
                    Form::Typed(_, h) => {
                        let mut w = Writer::new();
                        h.put(&mut w, false);
                        w.finalize()
                    }
                };
                f.extend_from_slice(&body);
                if body != e.model {
                    return viol("bytes-changed", format!("{} is stored as {}", hex(&e.model, 60), hex(&body, 60)));
                }
                let s = Stored { frame: f.clone(), model: e.model.clone(), ty: e.known };
                let mut d = std::mem::take(&mut self.disk);
                let r = d.append(c, who, &f, true);
                self.disk = d;
                self.stored.push(s);
                if r.is_err() {
                    self.crash(c)?;
                }
            }
            13 => self.disk.sync(),
            14 => {
                if self.e.len() > 1 {
                    let e = self.e.swap_remove(i);
                    drop(e);
                }
            }
            _ => {
                // offered as every known type of the run's favourites: agreement with the reference
                let k = self.fav;
                let t = self.tys[k];
                let b = self.e[i].model.clone();
                offer(c, &t, &b)?;
            }
        }
        Ok(())
    }

    fn add(&mut self, c: &mut Ctx, e: Entry) {
        if self.e.len() >= 6 {
            let i = c.s.draw(6) as usize;
            self.e[i] = e
        } else {
            self.e.push(e)
        }
    }

    fn verify(&mut self, c: &mut Ctx, i: usize) -> R {
        let e = &self.e[i];
        match &e.form {
            Form::Typed(k, h) => {
                c.probe("take-out");
                let t = self.tys[*k];
                check(c, &t, &**h, &e.model, "later")
            }
            Form::Untyped(d) => {
                if d.as_ref() != &e.model[..] {
                    return viol("bytes-changed", format!("untyped {} became {}", hex(&e.model, 60), hex(d.as_ref(), 60)));
                }
                Ok(())
            }
        }
    }

    /// the entry becomes part of something bigger and is taken out again
    fn embed(&mut self, c: &mut Ctx, o: u64, i: usize) -> R {
        let e = &self.e[i];
        let t = self.tys[e.known];
        if parse_seq(&e.model, Some(1)).is_none() || !shallow(&e.model) {
            // not one element (flat records, damaged data)
            return Ok(());
        }
        c.probe("embed");
        let slice = c.s.chance(1, 2);
        let put = |w: &mut Writer| match &e.form {
            Form::Typed(_, h) => h.put(w, slice),
            Form::Untyped(d) if slice => {
                let s: &CborSlice = d.borrow();
                w.encode(s)
            }
            Form::Untyped(d) => w.encode(d),
        };
        let how = c.s.draw(5);
        let pad = c.s.draw(3);
        let msg = if o == 10 {
            let mut b = ArrayBuilder::new();
            for _ in 0..pad {
                b.append_encodable(&7u8)
            }
            match &e.form {
                Form::Typed(_, h) if c.s.chance(1, 2) => h.append(&mut b),
                Form::Typed(_, h) => b.append(h.twin().untype()),
                Form::Untyped(d) => b.append(d.clone()),
            }
            let a = if c.s.chance(1, 2) { b.finite() } else { b.indefinite() };
            enc(&DataOwned::Array(a))
        } else {
            let mut w = Writer::new();
            match how {
                0 => w.array_build((pad + 1).into(), |w| {
                    for _ in 0..pad {
                        w.bool(true)
                    }
                    put(w)
                }),
                1 => w.array_build(StructureLength::Indefinite, |w| {
                    for _ in 0..pad {
                        w.bool(true)
                    }
                    put(w)
                }),
                2 => w.map_build(1.into(), |w| {
                    w.encode(&pad);
                    put(w)
                }),
                3 => w.tag_build(TagValue::from_u64(pad + 40), |w| put(w)),
                _ => {
                    for _ in 0..pad {
                        w.bool(true)
                    }
                    put(&mut w)
                }
            }
            w.finalize()
        };
        let want = &e.model;
        // take it out
        let mut r = Reader::new(&msg);
        let take = || -> Result<CborData, De> {
            if o == 10 || how < 2 {
                let a = r.array()?;
                if a.len() as u64 != pad + 1 {
                    return Err(De::Bad(Viol { class: "embedded".into(), msg: format!("{} members instead of {}", a.len(), pad + 1) }));
                }
                Ok(a[pad as usize].to_owned())
            } else if how == 2 {
                let m = r.map()?;
                Ok(m[0].1.to_owned())
            } else if how == 3 {
                let g = r.tag()?;
                Ok(g.data().to_owned())
            } else {
                let mut v = Validator::new(&msg);
                for _ in 0..pad {
                    v.next().map_err(|e| De::Lib(verr(&e)))?;
                }
                let (s, _) = v.next().map_err(|e| De::Lib(verr(&e)))?;
                Ok(s.to_owned())
            }
        };
        let d = {
            let mut take = take;
            match take() {
                Ok(d) => d,
                Err(De::Bad(v)) => return Err(v),
                Err(De::Lib(e)) => return viol("embedded", format!("{} embedded in {} does not come out: {:?}", hex(want, 60), hex(&msg, 80), e)),
            }
        };
        if d.as_ref() != &want[..] {
            return viol("embedded", format!("{} embedded comes out as {}", hex(want, 60), hex(d.as_ref(), 60)));
        }
        let (model, known) = (e.model.clone(), e.known);
        let want = whole(&t, &model).is_some();
        match ((t.by_data)(&d), want) {
            (Err(De::Bad(v)), _) => return Err(v),
            (Ok(h), true) => {
                check(c, &t, &*h, &model, "taken out of a container")?;
                self.e[i] = Entry { model, form: Form::Typed(known, h), known };
            }
            (Ok(_), false) => return viol("accepted", format!("{} is accepted", say(&t, &model))),
            (Err(De::Lib(x)), true) => return viol("refused", format!("{} from a container is refused: {:?}", say(&t, &model), x)),
            _ => (),
        }
        Ok(())
    }

    /// all handles are gone; entries come back from the log, some of it rotten
    fn crash(&mut self, c: &mut Ctx) -> R {
        c.fault("crash", 0);
        self.disk.crash(c, 0);
        self.e.clear();
        let log = self.disk.durable.clone();
        let stored = std::mem::take(&mut self.stored);
        let mut at = 0;
        for s in stored {
            if log.len() < at + s.frame.len() {
                // torn tail
                if log.len() > at + 5 {
                    let t = self.tys[s.ty];
                    let b = &log[at + 5..];
                    c.probe("torn-record");
                    offer(c, &t, b)?;
                }
                break;
            }
            let b = log[at + 5..at + s.frame.len()].to_vec();
            let t = self.tys[s.ty];
            if b != s.model {
                return viol("harness", "log differs");
            }
            let h = if c.s.chance(1, 3) && !t.flat { read(c, &t, &b, &[])? } else { offer(c, &t, &b)? };
            let form = match h {
                Some(h) => Form::Typed(s.ty, h),
                None => Form::Untyped(raw_data(&b)),
            };
            c.probe("recovered");
            self.add(c, Entry { model: b, form, known: s.ty });
            at += s.frame.len();
            self.stored.push(s);
        }
        self.disk.truncate(at);
        c.ev("restart", 0, self.e.len() as u64);
        Ok(())
    }
}

pub fn run(c: &mut Ctx) -> R {
    c.calm = c.s.chance(1, 6);
    let g = Gen::swarm(&mut c.s);
    let tys = table();
    let fav = c.s.draw(tys.len() as u64) as usize;
    let mut w = World { tys, e: vec![], disk: Disk::default(), stored: vec![], fav };
    let clients = 1 + c.s.draw(4);
    let n = 10 + c.s.draw(51);
    let mut crashes = if c.calm { 0 } else { c.s.draw(4) };
    for _ in 0..n {
        c.now += 1 + c.s.draw(50);
        let who = c.s.draw(clients);
        w.op(c, &g, who)?;
        if crashes > 0 && c.chaos(1, 25) {
            crashes -= 1;
            w.crash(c)?;
        }
    }
    for i in 0..w.e.len() {
        w.verify(c, i)?;
    }
    Ok(())
}
