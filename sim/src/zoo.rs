//! Derived record types of the simulated peers, and for each an independent
//! layout table: how a value is laid out on the wire and which wire data are a
//! value of the type. The derived code itself comes from the library's macro.
#![allow(clippy::all)]

use crate::api::*;
use crate::refcbor::*;
use crate::rng::Src;
use cbored::tagged::*;
use cbored::*;
use std::fmt::Debug;

/// a native or derived type that occupies exactly one element
pub trait Fld: Sized {
    fn node(&self) -> Node;
    fn from(n: &Node) -> Option<Self>;
    fn gen(g: &Gen, s: &mut Src) -> Self;
}
/// a derived type; `FLAT` types may occupy several elements
pub trait Rec: Encode + Decode + PartialEq + Debug + Clone {
    const NAME: &'static str;
    const FLAT: bool = false;
    fn nodes(&self) -> Vec<Node>;
    fn from_nodes(n: &[Node]) -> Option<Self>;
    fn make(g: &Gen, s: &mut Src) -> Self;
}
impl<T: Rec> Fld for T {
    fn node(&self) -> Node {
        self.nodes().pop().unwrap()
    }
    fn from(n: &Node) -> Option<Self> {
        T::from_nodes(std::slice::from_ref(n))
    }
    fn gen(g: &Gen, s: &mut Src) -> Self {
        T::make(g, s)
    }
}

fn u(v: u64) -> Node {
    Node::U(min_w(v), v)
}
fn arr(v: Vec<Node>) -> Node {
    Node::A(Some(min_w(v.len() as u64)), v)
}
fn map(v: Vec<(Node, Node)>) -> Node {
    Node::M(Some(min_w(v.len() as u64)), v)
}
fn tag(t: u64, n: Node) -> Node {
    Node::G(min_w(t), t, Box::new(n))
}
fn untag(t: u64, n: &Node) -> Option<&Node> {
    match n {
        Node::G(_, v, c) if *v == t => Some(c),
        _ => None,
    }
}

macro_rules! int_fld {
    ($($t:ty),*) => {$(
        impl Fld for $t {
            fn node(&self) -> Node { u(*self as u64) }
            fn from(n: &Node) -> Option<Self> {
                match n { Node::U(_, v) => <$t>::try_from(*v).ok(), _ => None }
            }
            fn gen(g: &Gen, s: &mut Src) -> Self {
                let v = g.int(s);
                if v > <$t>::MAX as u64 { (v % (<$t>::MAX as u64 + 1)) as $t } else { v as $t }
            }
        }
    )*};
}
int_fld!(u8, u16, u32);
impl Fld for u64 {
    fn node(&self) -> Node {
        u(*self)
    }
    fn from(n: &Node) -> Option<Self> {
        match n {
            Node::U(_, v) => Some(*v),
            _ => None,
        }
    }
    fn gen(g: &Gen, s: &mut Src) -> Self {
        g.int(s)
    }
}
impl Fld for bool {
    fn node(&self) -> Node {
        Node::C(*self as u8)
    }
    fn from(n: &Node) -> Option<Self> {
        match n {
            Node::C(0) => Some(false),
            Node::C(1) => Some(true),
            _ => None,
        }
    }
    fn gen(_: &Gen, s: &mut Src) -> Self {
        s.draw(2) == 1
    }
}
impl Fld for String {
    fn node(&self) -> Node {
        Node::T(Str::D(min_w(self.len() as u64), self.clone().into_bytes()))
    }
    fn from(n: &Node) -> Option<Self> {
        match n {
            Node::T(t) if text_ok(t) => String::from_utf8(t.concat()).ok(),
            _ => None,
        }
    }
    fn gen(g: &Gen, s: &mut Src) -> Self {
        g.utf8(s)
    }
}
impl Fld for Vec<u8> {
    fn node(&self) -> Node {
        Node::B(Str::D(min_w(self.len() as u64), self.clone()))
    }
    fn from(n: &Node) -> Option<Self> {
        match n {
            Node::B(b) => Some(b.concat()),
            _ => None,
        }
    }
    fn gen(g: &Gen, s: &mut Src) -> Self {
        g.blob(s)
    }
}
impl<const N: usize> Fld for [u8; N] {
    fn node(&self) -> Node {
        Node::B(Str::D(min_w(N as u64), self.to_vec()))
    }
    fn from(n: &Node) -> Option<Self> {
        match n {
            Node::B(b) => <[u8; N]>::try_from(b.concat()).ok(),
            _ => None,
        }
    }
    fn gen(_: &Gen, s: &mut Src) -> Self {
        let mut o = [0u8; N];
        for x in o.iter_mut() {
            *x = s.draw(256) as u8
        }
        o
    }
}
impl Fld for Scalar {
    fn node(&self) -> Node {
        scalar_node(*self).unwrap_or(Node::C(3))
    }
    fn from(n: &Node) -> Option<Self> {
        // there is no constructor for a given width: read it
        match n {
            Node::U(..) | Node::N(..) => decode_from_bytes(&n.enc()).ok(),
            _ => None,
        }
    }
    fn gen(g: &Gen, s: &mut Src) -> Self {
        let v = g.int(s);
        if s.draw(2) == 0 {
            Scalar::canonical_positive(v)
        } else {
            Scalar::canonical_negative(v)
        }
    }
}
impl Fld for DataOwned {
    fn node(&self) -> Node {
        parse(&enc(self)).map(|x| x.0).unwrap_or(Node::C(3))
    }
    fn from(n: &Node) -> Option<Self> {
        match n {
            Node::T(t) if !text_ok(t) => None,
            _ => decode_from_bytes(&n.enc()).ok(),
        }
    }
    fn gen(g: &Gen, s: &mut Src) -> Self {
        let n = g.node(s);
        decode_from_bytes(&n.enc()).unwrap_or_else(|_| decode_from_bytes(&[0]).unwrap())
    }
}
impl<T: Fld + Encode + Decode> Fld for CborDataOf<T> {
    fn node(&self) -> Node {
        parse(self.as_ref()).map(|x| x.0).unwrap_or(Node::C(3))
    }
    fn from(n: &Node) -> Option<Self> {
        T::from(n)?;
        decode_from_bytes(&n.enc()).ok()
    }
    fn gen(g: &Gen, s: &mut Src) -> Self {
        <CborDataOf<T> as std::convert::From<&T>>::from(&T::gen(g, s))
    }
}
macro_rules! std_fld {
    ($($t:ty, $std:expr, $gen:expr;)*) => {$(
        impl Fld for $t {
            fn node(&self) -> Node { parse(&enc(self)).map(|x| x.0).unwrap_or(Node::C(3)) }
            fn from(n: &Node) -> Option<Self> {
                if std_of(n) == Some($std) { decode_from_bytes(&n.enc()).ok() } else { None }
            }
            fn gen(g: &Gen, s: &mut Src) -> Self {
                let f: fn(&Gen, &mut Src) -> Node = $gen;
                let n = f(g, s);
                match decode_from_bytes(&n.enc()) { Ok(x) => x, Err(_) => decode_from_bytes(&f(&Gen::plain(), &mut Src::replay(vec![])).enc()).expect("plain value") }
            }
        }
    )*};
}
std_fld! {
    StandardDateTime, Std::Date, |g, s| tag(0, g.utf8(s).node());
    PositiveBignum, Std::Pos, |g, s| tag(2, g.blob(s).node());
    NegativeBignum, Std::Neg, |g, s| tag(3, g.blob(s).node());
    EncodedCBOR, Std::Enc, |g, s| tag(24, g.blob(s).node());
    RationalNumber, Std::Rat, |g, s| {
        let num = match s.draw(4) { 0 => u(g.int(s)), 1 => { let v = g.int(s); Node::N(min_w(v), v) }, 2 => tag(2, g.blob(s).node()), _ => tag(3, g.blob(s).node()) };
        let den = match s.draw(2) { 0 => u(g.int(s)), _ => tag(2, g.blob(s).node()) };
        tag(30, arr(vec![num, den]))
    };
}

fn opt<T: Fld>(g: &Gen, s: &mut Src) -> Option<T> {
    if s.draw(2) == 1 {
        Some(T::gen(g, s))
    } else {
        None
    }
}
fn opt_from<T: Fld>(n: Option<&Node>) -> Option<Option<T>> {
    match n {
        None => Some(None),
        Some(n) => T::from(n).map(Some),
    }
}

// ------------------------------------------------------- layout tables ---

macro_rules! with_tag {
    ($n:expr) => { $n };
    ($n:expr, $t:expr) => { tag($t, $n) };
}
macro_rules! strip_tag {
    ($n:expr) => { $n };
    ($n:expr, $t:expr) => { untag($t, $n)? };
}

macro_rules! rec_array {
    ($name:ident { $($f:ident : $ix:tt),* } $(tag $t:expr)?) => {
        impl Rec for $name {
            const NAME: &'static str = stringify!($name);
            fn nodes(&self) -> Vec<Node> { vec![with_tag!(arr(vec![$(self.$f.node()),*]) $(, $t)?)] }
            fn from_nodes(n: &[Node]) -> Option<Self> {
                if n.len() != 1 { return None }
                match strip_tag!(&n[0] $(, $t)?) {
                    Node::A(_, e) => {
                        let want = [$($ix as usize),*].len();
                        if e.len() != want { return None }
                        Some($name { $($f: Fld::from(&e[$ix])?),* })
                    }
                    _ => None
                }
            }
            fn make(g: &Gen, s: &mut Src) -> Self { $name { $($f: Fld::gen(g, s)),* } }
        }
    };
}
macro_rules! rec_tuple {
    ($name:ident ( $($ix:tt),* ) $(tag $t:expr)?) => {
        impl Rec for $name {
            const NAME: &'static str = stringify!($name);
            fn nodes(&self) -> Vec<Node> { vec![with_tag!(arr(vec![$(self.$ix.node()),*]) $(, $t)?)] }
            fn from_nodes(n: &[Node]) -> Option<Self> {
                if n.len() != 1 { return None }
                match strip_tag!(&n[0] $(, $t)?) {
                    Node::A(_, e) => {
                        let want = [$($ix as usize),*].len();
                        if e.len() != want { return None }
                        Some($name ( $(Fld::from(&e[$ix])?),* ))
                    }
                    _ => None
                }
            }
            #[allow(unused_variables)]
            fn make(g: &Gen, s: &mut Src) -> Self { $name ( $({ const _I: usize = $ix; Fld::gen(g, s) }),* ) }
        }
    };
}
macro_rules! rec_lastopt {
    ($name:ident { $($f:ident : $ix:tt),* ; $last:ident : $lix:tt } $(tag $t:expr)?) => {
        impl Rec for $name {
            const NAME: &'static str = stringify!($name);
            fn nodes(&self) -> Vec<Node> {
                let mut v: Vec<Node> = vec![$(self.$f.node()),*];
                if let Some(x) = &self.$last { v.push(x.node()) }
                vec![with_tag!(arr(v) $(, $t)?)]
            }
            fn from_nodes(n: &[Node]) -> Option<Self> {
                if n.len() != 1 { return None }
                match strip_tag!(&n[0] $(, $t)?) {
                    Node::A(_, e) => {
                        if e.len() != $lix && e.len() != $lix + 1 { return None }
                        Some($name { $($f: Fld::from(&e[$ix])?,)* $last: opt_from(e.get($lix))? })
                    }
                    _ => None
                }
            }
            fn make(g: &Gen, s: &mut Src) -> Self { $name { $($f: Fld::gen(g, s),)* $last: opt(g, s) } }
        }
    };
}
macro_rules! rec_flat {
    ($name:ident { $($f:ident : $ix:tt),* }) => {
        impl Rec for $name {
            const NAME: &'static str = stringify!($name);
            const FLAT: bool = [$($ix as usize),*].len() > 1;
            fn nodes(&self) -> Vec<Node> { vec![$(self.$f.node()),*] }
            fn from_nodes(n: &[Node]) -> Option<Self> {
                if n.len() != [$($ix as usize),*].len() { return None }
                Some($name { $($f: Fld::from(&n[$ix])?),* })
            }
            fn make(g: &Gen, s: &mut Src) -> Self { $name { $($f: Fld::gen(g, s)),* } }
        }
    };
    ($name:ident { $f:ident } tag $t:expr) => {
        impl Rec for $name {
            const NAME: &'static str = stringify!($name);
            fn nodes(&self) -> Vec<Node> { vec![tag($t, self.$f.node())] }
            fn from_nodes(n: &[Node]) -> Option<Self> {
                if n.len() != 1 { return None }
                Some($name { $f: Fld::from(untag($t, &n[0])?)? })
            }
            fn make(g: &Gen, s: &mut Src) -> Self { $name { $f: Fld::gen(g, s) } }
        }
    };
    ($name:ident ( $($ix:tt),* )) => {
        impl Rec for $name {
            const NAME: &'static str = stringify!($name);
            const FLAT: bool = [$($ix as usize),*].len() > 1;
            fn nodes(&self) -> Vec<Node> { vec![$(self.$ix.node()),*] }
            fn from_nodes(n: &[Node]) -> Option<Self> {
                if n.len() != [$($ix as usize),*].len() { return None }
                Some($name ( $(Fld::from(&n[$ix])?),* ))
            }
            #[allow(unused_variables)]
            fn make(g: &Gen, s: &mut Src) -> Self { $name ( $({ const _I: usize = $ix; Fld::gen(g, s) }),* ) }
        }
    };
}

fn keyed(n: &Node, known: &[u64]) -> Option<Vec<(u64, Node)>> {
    match n {
        Node::M(_, e) => {
            let mut out: Vec<(u64, Node)> = Vec::new();
            for (k, v) in e {
                let k = <u64 as Fld>::from(k)?;
                if !known.contains(&k) || out.iter().any(|x| x.0 == k) {
                    return None;
                }
                out.push((k, v.clone()));
            }
            Some(out)
        }
        _ => None,
    }
}
fn key(m: &[(u64, Node)], k: u64) -> Option<&Node> {
    m.iter().find(|x| x.0 == k).map(|x| &x.1)
}
macro_rules! map_put {
    ($v:ident, man, $k:expr, $x:expr) => { $v.push((u($k), $x.node())) };
    ($v:ident, opt, $k:expr, $x:expr) => { if let Some(y) = &$x { $v.push((u($k), y.node())) } };
}
macro_rules! map_get {
    ($m:ident, man, $k:expr) => { Fld::from(key(&$m, $k)?)? };
    ($m:ident, opt, $k:expr) => { opt_from(key(&$m, $k))? };
}
macro_rules! map_gen {
    ($g:ident, $s:ident, man) => { Fld::gen($g, $s) };
    ($g:ident, $s:ident, opt) => { opt($g, $s) };
}
macro_rules! rec_map {
    ($name:ident { $($f:ident : $how:ident $k:expr),* } $(tag $t:expr)?) => {
        impl Rec for $name {
            const NAME: &'static str = stringify!($name);
            fn nodes(&self) -> Vec<Node> {
                let mut v: Vec<(Node, Node)> = Vec::new();
                $( map_put!(v, $how, $k, self.$f); )*
                vec![with_tag!(map(v) $(, $t)?)]
            }
            fn from_nodes(n: &[Node]) -> Option<Self> {
                if n.len() != 1 { return None }
                let m = keyed(strip_tag!(&n[0] $(, $t)?), &[$($k),*])?;
                Some($name { $($f: map_get!(m, $how, $k)),* })
            }
            fn make(g: &Gen, s: &mut Src) -> Self { $name { $($f: map_gen!(g, s, $how)),* } }
        }
    };
}

// --------------------------------------------------------------- types ---


#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(structure = "array")]
pub struct Point {
    x: u32,
    y: u32,
}
rec_array!(Point { x: 0, y: 1 });

#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(structure = "array_lastopt")]
pub struct Point2 {
    x: u32,
    y: Option<u32>,
}
rec_lastopt!(Point2 { x: 0; y: 1 });

/// newer version of `Point`
#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(structure = "array_lastopt")]
pub struct PointV2 {
    x: u32,
    y: u32,
    name: Option<String>,
}
rec_lastopt!(PointV2 { x: 0, y: 1; name: 2 });

#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(structure = "array")]
pub struct Mixed(u8, String, Vec<u8>, bool, [u8; 4], Scalar);
rec_tuple!(Mixed(0, 1, 2, 3, 4, 5));

#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(structure = "array")]
pub struct Wide {
    a0: u8, a1: u16, a2: u32, a3: u64, a4: bool, a5: u8, a6: u16, a7: u32, a8: u64, a9: bool, b0: u8, b1: u16,
    b2: u32, b3: u64, b4: bool, b5: u8, b6: u16, b7: u32, b8: u64, b9: bool, c0: u8, c1: u16, c2: u32, c3: String,
    c4: u64,
}
rec_array!(Wide {
    a0: 0, a1: 1, a2: 2, a3: 3, a4: 4, a5: 5, a6: 6, a7: 7, a8: 8, a9: 9, b0: 10, b1: 11, b2: 12, b3: 13, b4: 14, b5: 15,
    b6: 16, b7: 17, b8: 18, b9: 19, c0: 20, c1: 21, c2: 22, c3: 23, c4: 24
});

#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(structure = "array", tag = 121)]
pub struct TagArr {
    a: u64,
    b: Vec<u8>,
}
rec_array!(TagArr { a: 0, b: 1 } tag 121);

#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(structure = "array", tag = 4294967296)]
pub struct TagTup(String);
rec_tuple!(TagTup(0) tag 4294967296);

#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(structure = "array_lastopt", tag = 23)]
pub struct TagLast {
    a: String,
    b: Option<u16>,
}
rec_lastopt!(TagLast { a: 0; b: 1 } tag 23);

#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(structure = "array_lastopt")]
pub struct OnlyOpt {
    a: Option<u64>,
}
impl Rec for OnlyOpt {
    const NAME: &'static str = "OnlyOpt";
    fn nodes(&self) -> Vec<Node> {
        vec![arr(self.a.iter().map(|x| x.node()).collect())]
    }
    fn from_nodes(n: &[Node]) -> Option<Self> {
        match n {
            [Node::A(_, e)] if e.len() <= 1 => Some(OnlyOpt { a: opt_from(e.get(0))? }),
            _ => None,
        }
    }
    fn make(g: &Gen, s: &mut Src) -> Self {
        OnlyOpt { a: opt(g, s) }
    }
}

#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(structure = "flat")]
pub struct FlatPoint {
    x: u32,
    y: String,
    z: bool,
}
rec_flat!(FlatPoint { x: 0, y: 1, z: 2 });

#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(structure = "flat")]
pub struct FlatTup(u64, Point, Vec<u8>);
rec_flat!(FlatTup(0, 1, 2));

#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(structure = "flat")]
pub struct NewType(u64);
rec_flat!(NewType(0));

#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(structure = "flat", tag = 1000)]
pub struct TagNew(String);
impl Rec for TagNew {
    const NAME: &'static str = "TagNew";
    fn nodes(&self) -> Vec<Node> {
        vec![tag(1000, self.0.node())]
    }
    fn from_nodes(n: &[Node]) -> Option<Self> {
        match n {
            [n] => Some(TagNew(Fld::from(untag(1000, n)?)?)),
            _ => None,
        }
    }
    fn make(g: &Gen, s: &mut Src) -> Self {
        TagNew(Fld::gen(g, s))
    }
}

#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(structure = "flat", tag = 7)]
pub struct TagName {
    p: Point,
}
rec_flat!(TagName { p } tag 7);

#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(structure = "mapint")]
pub struct MapV1 {
    #[cborrepr(mandatory)]
    a: u32,
    b: Option<String>,
}
rec_map!(MapV1 { a: man 0, b: opt 1 });

/// newer version of `MapV1`
#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(structure = "mapint")]
pub struct MapV2 {
    #[cborrepr(mandatory)]
    a: u32,
    b: Option<String>,
    c: Option<Vec<u8>>,
    d: Option<Point2>,
}
rec_map!(MapV2 { a: man 0, b: opt 1, c: opt 2, d: opt 3 });

#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(structure = "mapint", map_starts_at = 1)]
pub struct MapFrom1 {
    #[cborrepr(mandatory)]
    a: u32,
    #[cborrepr(mandatory)]
    b: String,
    c: Option<u64>,
}
rec_map!(MapFrom1 { a: man 1, b: man 2, c: opt 3 });

#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(structure = "mapint", skipkey = 1, skipkey = 2, skipkey = 4)]
pub struct MapSkip {
    #[cborrepr(mandatory)]
    a: u8,
    b: Option<bool>,
    #[cborrepr(mandatory)]
    c: Vec<u8>,
    d: Option<u16>,
}
rec_map!(MapSkip { a: man 0, b: opt 3, c: man 5, d: opt 6 });

#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(structure = "mapint", map_starts_at = 2, skipkey = 2, skipkey = 3, skipkey = 24)]
pub struct MapSkipFrom {
    #[cborrepr(mandatory)]
    a: String,
    b: Option<u64>,
}
rec_map!(MapSkipFrom { a: man 4, b: opt 5 });

#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(structure = "mapint", map_starts_at = 62, skipkey = 64)]
pub struct MapEdge {
    #[cborrepr(mandatory)]
    a: u32,
    b: Option<u32>,
    c: Option<u32>,
    #[cborrepr(mandatory)]
    d: u32,
}
rec_map!(MapEdge { a: man 62, b: opt 63, c: opt 65, d: man 66 });

#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(structure = "mapint", map_starts_at = 65535)]
pub struct MapFar {
    a: Option<u32>,
    b: Option<u32>,
}
rec_map!(MapFar { a: opt 65535, b: opt 65536 });

#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(structure = "mapint", tag = 258)]
pub struct TagMap {
    #[cborrepr(mandatory)]
    a: Point,
    b: Option<bool>,
}
rec_map!(TagMap { a: man 0, b: opt 1 } tag 258);

#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(structure = "mapint")]
pub struct MapWide {
    a0: Option<u8>, a1: Option<u8>, a2: Option<u8>, a3: Option<u8>, a4: Option<u8>, a5: Option<u8>, a6: Option<u8>,
    a7: Option<u8>, a8: Option<u8>, a9: Option<u8>, b0: Option<u8>, b1: Option<u8>, b2: Option<u8>, b3: Option<u8>,
    b4: Option<u8>, b5: Option<u8>, b6: Option<u8>, b7: Option<u8>, b8: Option<u8>, b9: Option<u8>, c0: Option<u8>,
    c1: Option<u8>, c2: Option<u8>, c3: Option<u8>, c4: Option<u8>, c5: Option<String>,
}
rec_map!(MapWide {
    a0: opt 0, a1: opt 1, a2: opt 2, a3: opt 3, a4: opt 4, a5: opt 5, a6: opt 6, a7: opt 7, a8: opt 8, a9: opt 9, b0: opt 10,
    b1: opt 11, b2: opt 12, b3: opt 13, b4: opt 14, b5: opt 15, b6: opt 16, b7: opt 17, b8: opt 18, b9: opt 19, c0: opt 20,
    c1: opt 21, c2: opt 22, c3: opt 23, c4: opt 24, c5: opt 25
});

/// as many fields as the format of derived maps takes
#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(structure = "mapint")]
pub struct MapFull {
    #[cborrepr(mandatory)]
    a0: u8,
    a1: Option<u8>,
    a2: Option<u8>,
    a3: Option<u8>,
    a4: Option<u8>,
    a5: Option<u8>,
    a6: Option<u8>,
    a7: Option<u8>,
    a8: Option<u8>,
    a9: Option<u8>,
    b0: Option<u8>,
    b1: Option<u8>,
    b2: Option<u8>,
    b3: Option<u8>,
    b4: Option<u8>,
    b5: Option<u8>,
    b6: Option<u8>,
    b7: Option<u8>,
    b8: Option<u8>,
    b9: Option<u8>,
    c0: Option<u8>,
    c1: Option<u8>,
    c2: Option<u8>,
    c3: Option<u8>,
    c4: Option<u8>,
    c5: Option<u8>,
    c6: Option<u8>,
    c7: Option<u8>,
    c8: Option<u8>,
    c9: Option<u8>,
    d0: Option<u8>,
    #[cborrepr(mandatory)]
    d1: u8,
    #[cborrepr(mandatory)]
    d2: u8,
    d3: Option<u8>,
    d4: Option<u8>,
    d5: Option<u8>,
    d6: Option<u8>,
    d7: Option<u8>,
    d8: Option<u8>,
    d9: Option<u8>,
    e0: Option<u8>,
    e1: Option<u8>,
    e2: Option<u8>,
    e3: Option<u8>,
    e4: Option<u8>,
    e5: Option<u8>,
    e6: Option<u8>,
    e7: Option<u8>,
    e8: Option<u8>,
    e9: Option<u8>,
    f0: Option<u8>,
    f1: Option<u8>,
    f2: Option<u8>,
    f3: Option<u8>,
    f4: Option<u8>,
    f5: Option<u8>,
    f6: Option<u8>,
    f7: Option<u8>,
    f8: Option<u8>,
    f9: Option<u8>,
    g0: Option<u8>,
    g1: Option<u8>,
    g2: Option<u8>,
    #[cborrepr(mandatory)]
    g3: u8,
}
rec_map!(MapFull {
    a0: man 0, a1: opt 1, a2: opt 2, a3: opt 3, a4: opt 4, a5: opt 5, a6: opt 6, a7: opt 7,
    a8: opt 8, a9: opt 9, b0: opt 10, b1: opt 11, b2: opt 12, b3: opt 13, b4: opt 14, b5: opt 15,
    b6: opt 16, b7: opt 17, b8: opt 18, b9: opt 19, c0: opt 20, c1: opt 21, c2: opt 22, c3: opt 23,
    c4: opt 24, c5: opt 25, c6: opt 26, c7: opt 27, c8: opt 28, c9: opt 29, d0: opt 30, d1: man 31,
    d2: man 32, d3: opt 33, d4: opt 34, d5: opt 35, d6: opt 36, d7: opt 37, d8: opt 38, d9: opt 39,
    e0: opt 40, e1: opt 41, e2: opt 42, e3: opt 43, e4: opt 44, e5: opt 45, e6: opt 46, e7: opt 47,
    e8: opt 48, e9: opt 49, f0: opt 50, f1: opt 51, f2: opt 52, f3: opt 53, f4: opt 54, f5: opt 55,
    f6: opt 56, f7: opt 57, f8: opt 58, f9: opt 59, g0: opt 60, g1: opt 61, g2: opt 62, g3: man 63
});

/// length header of one or of two bytes, depending on the last part
#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(structure = "array_lastopt")]
pub struct Last24 {
    f0: u8, f1: u8, f2: u8, f3: u8, f4: u8, f5: u8, f6: u8, f7: u8, f8: u8, f9: u8, f10: u8, f11: u8, f12: u8, f13: u8, f14: u8, f15: u8, f16: u8, f17: u8, f18: u8, f19: u8, f20: u8, f21: u8, f22: u8,
    last: Option<CborDataOf<Point>>,
}
rec_lastopt!(Last24 { f0: 0, f1: 1, f2: 2, f3: 3, f4: 4, f5: 5, f6: 6, f7: 7, f8: 8, f9: 9, f10: 10, f11: 11, f12: 12, f13: 13, f14: 14, f15: 15, f16: 16, f17: 17, f18: 18, f19: 19, f20: 20, f21: 21, f22: 22; last: 23 });

/// attributes on several lines
#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(structure = "mapint")]
#[cborrepr(skipkey = 7, skipkey = 4)]
#[cborrepr(tag = 24, map_starts_at = 3)]
#[cborrepr(skipkey = 5)]
pub struct MapLines {
    #[cborrepr(mandatory)]
    a: bool,
    #[cborrepr(mandatory)]
    b: String,
    c: Option<Point>,
    #[cborrepr(mandatory)]
    d: u64,
}
rec_map!(MapLines { a: man 3, b: man 6, c: opt 8, d: man 9 } tag 24);

#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(structure = "mapint", map_starts_at = 4294967294, skipkey = 4294967295)]
pub struct MapHuge {
    #[cborrepr(mandatory)]
    a: u8,
    b: Option<u16>,
    c: Option<String>,
}
rec_map!(MapHuge { a: man 4294967294, b: opt 4294967296, c: opt 4294967297 });

#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(structure = "array")]
pub struct Nothing {}
impl Rec for Nothing {
    const NAME: &'static str = "Nothing";
    fn nodes(&self) -> Vec<Node> {
        vec![arr(vec![])]
    }
    fn from_nodes(n: &[Node]) -> Option<Self> {
        match n {
            [Node::A(_, e)] if e.is_empty() => Some(Nothing {}),
            _ => None,
        }
    }
    fn make(_: &Gen, _: &mut Src) -> Self {
        Nothing {}
    }
}

#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(structure = "array_lastopt", tag = 65536)]
pub struct LastRec {
    a: Variant,
    b: MapV1,
    c: Option<Variant>,
}
rec_lastopt!(LastRec { a: 0, b: 1; c: 2 } tag 65536);

// ---- enums

fn parts(n: &[Node]) -> Option<(u64, &[Node])> {
    match n {
        [Node::A(_, e)] if !e.is_empty() => Some((<u64 as Fld>::from(&e[0])?, &e[1..])),
        _ => None,
    }
}
fn variant(n: u64, mut f: Vec<Node>) -> Vec<Node> {
    f.insert(0, u(n));
    vec![arr(f)]
}
fn vec_node<T: Fld>(v: &[T]) -> Node {
    arr(v.iter().map(|x| x.node()).collect())
}
fn vec_from<T: Fld>(n: &Node) -> Option<Vec<T>> {
    match n {
        Node::A(_, e) => e.iter().map(|x| T::from(x)).collect(),
        _ => None,
    }
}
fn vec_gen<T: Fld>(g: &Gen, s: &mut Src) -> Vec<T> {
    let mut n = s.draw(5);
    if n == 4 {
        n = match s.draw(2000) {
            0..=1899 => 4,
            1900..=1996 => 22 + s.draw(4),
            1997 | 1998 => 254 + s.draw(4),
            _ => 65534 + s.draw(4),
        };
    }
    (0..n).map(|_| T::gen(g, s)).collect()
}
/// number of the first variant: how `variant_starts_at` counts is the
/// library's business, that writer and reader agree is the property
fn first_number<T: Encode>(t: &T) -> u64 {
    match parse(&enc(t)) {
        Some((Node::U(_, v), _)) => v,
        Some((Node::A(_, e), _)) => match e.first() {
            Some(Node::U(_, v)) => *v,
            _ => 0,
        },
        _ => 0,
    }
}

#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(enumtype = "tagvariant", skipkey = 1)]
pub enum Variant {
    One(u32),
    Two(u64, String),
    Three(Point),
    Four,
    Five { a: u8, b: Vec<u8> },
    Six(Vec<Point>),
    Seven(Vec<String>, u16, Vec<u8>),
}
impl Rec for Variant {
    const NAME: &'static str = "Variant";
    fn nodes(&self) -> Vec<Node> {
        match self {
            Variant::One(a) => variant(0, vec![a.node()]),
            Variant::Two(a, b) => variant(2, vec![a.node(), b.node()]),
            Variant::Three(a) => variant(3, vec![a.node()]),
            Variant::Four => variant(4, vec![]),
            Variant::Five { a, b } => variant(5, vec![a.node(), b.node()]),
            Variant::Six(v) => variant(6, vec![vec_node(v)]),
            Variant::Seven(a, b, c) => variant(7, vec![vec_node(a), b.node(), c.node()]),
        }
    }
    fn from_nodes(n: &[Node]) -> Option<Self> {
        Some(match parts(n)? {
            (0, [a]) => Variant::One(Fld::from(a)?),
            (2, [a, b]) => Variant::Two(Fld::from(a)?, Fld::from(b)?),
            (3, [a]) => Variant::Three(Fld::from(a)?),
            (4, []) => Variant::Four,
            (5, [a, b]) => Variant::Five { a: Fld::from(a)?, b: Fld::from(b)? },
            (6, [a]) => Variant::Six(vec_from(a)?),
            (7, [a, b, c]) => Variant::Seven(vec_from(a)?, Fld::from(b)?, Fld::from(c)?),
            _ => return None,
        })
    }
    fn make(g: &Gen, s: &mut Src) -> Self {
        match s.draw(7) {
            0 => Variant::Four,
            1 => Variant::One(Fld::gen(g, s)),
            2 => Variant::Two(Fld::gen(g, s), Fld::gen(g, s)),
            3 => Variant::Three(Fld::gen(g, s)),
            4 => Variant::Five { a: Fld::gen(g, s), b: Fld::gen(g, s) },
            5 => Variant::Six(vec_gen(g, s)),
            _ => Variant::Seven(vec_gen(g, s), Fld::gen(g, s), Fld::gen(g, s)),
        }
    }
}

/// older version of `Variant`
#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(enumtype = "tagvariant", skipkey = 1)]
pub enum VariantV0 {
    One(u32),
    Two(u64, String),
    Three(Point),
}
impl Rec for VariantV0 {
    const NAME: &'static str = "VariantV0";
    fn nodes(&self) -> Vec<Node> {
        match self {
            VariantV0::One(a) => variant(0, vec![a.node()]),
            VariantV0::Two(a, b) => variant(2, vec![a.node(), b.node()]),
            VariantV0::Three(a) => variant(3, vec![a.node()]),
        }
    }
    fn from_nodes(n: &[Node]) -> Option<Self> {
        Some(match parts(n)? {
            (0, [a]) => VariantV0::One(Fld::from(a)?),
            (2, [a, b]) => VariantV0::Two(Fld::from(a)?, Fld::from(b)?),
            (3, [a]) => VariantV0::Three(Fld::from(a)?),
            _ => return None,
        })
    }
    fn make(g: &Gen, s: &mut Src) -> Self {
        match s.draw(3) {
            0 => VariantV0::One(Fld::gen(g, s)),
            1 => VariantV0::Two(Fld::gen(g, s), Fld::gen(g, s)),
            _ => VariantV0::Three(Fld::gen(g, s)),
        }
    }
}

#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(enumtype = "tagvariant", variant_starts_at = 11)]
pub enum VariantFrom {
    A,
    B(bool),
    C { n: u64 },
}
impl VariantFrom {
    fn base() -> u64 {
        first_number(&VariantFrom::A)
    }
}
impl Rec for VariantFrom {
    const NAME: &'static str = "VariantFrom";
    fn nodes(&self) -> Vec<Node> {
        let b = Self::base();
        match self {
            VariantFrom::A => variant(b, vec![]),
            VariantFrom::B(x) => variant(b + 1, vec![x.node()]),
            VariantFrom::C { n } => variant(b + 2, vec![n.node()]),
        }
    }
    fn from_nodes(n: &[Node]) -> Option<Self> {
        let b = Self::base();
        Some(match parts(n)? {
            (v, []) if v == b => VariantFrom::A,
            (v, [x]) if v == b + 1 => VariantFrom::B(Fld::from(x)?),
            (v, [x]) if v == b + 2 => VariantFrom::C { n: Fld::from(x)? },
            _ => return None,
        })
    }
    fn make(g: &Gen, s: &mut Src) -> Self {
        match s.draw(3) {
            0 => VariantFrom::A,
            1 => VariantFrom::B(Fld::gen(g, s)),
            _ => VariantFrom::C { n: Fld::gen(g, s) },
        }
    }
}

/// offset and skipped numbers together; numbers as the writer gives them out
#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(enumtype = "tagvariant", variant_starts_at = 22, skipkey = 23, skipkey = 24)]
pub enum VariantBoth {
    A(u8),
    B { t: String, n: u32 },
    C,
    D(Vec<u64>, bool),
}
impl VariantBoth {
    fn numbers() -> [u64; 4] {
        [
            first_number(&VariantBoth::A(0)),
            first_number(&VariantBoth::B { t: String::new(), n: 0 }),
            first_number(&VariantBoth::C),
            first_number(&VariantBoth::D(vec![], false)),
        ]
    }
}
impl Rec for VariantBoth {
    const NAME: &'static str = "VariantBoth";
    fn nodes(&self) -> Vec<Node> {
        let n = Self::numbers();
        match self {
            VariantBoth::A(a) => variant(n[0], vec![a.node()]),
            VariantBoth::B { t, n: x } => variant(n[1], vec![t.node(), x.node()]),
            VariantBoth::C => variant(n[2], vec![]),
            VariantBoth::D(v, b) => variant(n[3], vec![vec_node(v), b.node()]),
        }
    }
    fn from_nodes(x: &[Node]) -> Option<Self> {
        let n = Self::numbers();
        let (k, rest) = parts(x)?;
        Some(match (n.iter().position(|y| *y == k)?, rest) {
            (0, [a]) => VariantBoth::A(Fld::from(a)?),
            (1, [a, b]) => VariantBoth::B { t: Fld::from(a)?, n: Fld::from(b)? },
            (2, []) => VariantBoth::C,
            (3, [a, b]) => VariantBoth::D(vec_from(a)?, Fld::from(b)?),
            _ => return None,
        })
    }
    fn make(g: &Gen, s: &mut Src) -> Self {
        match s.draw(4) {
            0 => VariantBoth::C,
            1 => VariantBoth::A(Fld::gen(g, s)),
            2 => VariantBoth::B { t: Fld::gen(g, s), n: Fld::gen(g, s) },
            _ => VariantBoth::D(vec_gen(g, s), Fld::gen(g, s)),
        }
    }
}

macro_rules! rec_enumint {
    ($name:ident, $base:expr, [$($v:ident = $k:expr),*]) => {
        impl Rec for $name {
            const NAME: &'static str = stringify!($name);
            fn nodes(&self) -> Vec<Node> { let b: u64 = $base; match self { $($name::$v => vec![u(b + $k)]),* } }
            fn from_nodes(n: &[Node]) -> Option<Self> {
                let b: u64 = $base;
                match n { [Node::U(_, v)] => { $( if *v == b + $k { return Some($name::$v) } )* None } _ => None }
            }
            fn make(_: &Gen, s: &mut Src) -> Self {
                let all = [$($name::$v),*];
                all[s.draw(all.len() as u64) as usize].clone()
            }
        }
    };
}
#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(enumtype = "enumint")]
pub enum Code { C0, C1, C2, C3, C4, C5, C6, C7, C8, C9, D0, D1, D2, D3, D4, D5, D6, D7, D8, D9, E0, E1, E2, E3, E4, E5 }
rec_enumint!(Code, 0, [C0 = 0, C1 = 1, C2 = 2, C3 = 3, C4 = 4, C5 = 5, C6 = 6, C7 = 7, C8 = 8, C9 = 9, D0 = 10, D1 = 11, D2 = 12,
    D3 = 13, D4 = 14, D5 = 15, D6 = 16, D7 = 17, D8 = 18, D9 = 19, E0 = 20, E1 = 21, E2 = 22, E3 = 23, E4 = 24, E5 = 25]);

#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(enumtype = "enumint", variant_starts_at = 100)]
pub enum CodeFrom { A, B, C }
rec_enumint!(CodeFrom, first_number(&CodeFrom::A), [A = 0, B = 1, C = 2]);

#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(enumtype = "enumint", skipkey = 0, skipkey = 2, skipkey = 3)]
pub enum CodeSkip { A, B, C }
rec_enumint!(CodeSkip, 0, [A = 1, B = 4, C = 5]);

#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(enumtype = "enumtype")]
pub enum ByType {
    #[cborrepr(cbortype = "null")]
    Nothing,
    #[cborrepr(cbortype = "positive")]
    Num(u64),
    #[cborrepr(cbortype = "text")]
    Txt { t: String },
    #[cborrepr(cbortype = "bytes")]
    Raw([u8; 4]),
    #[cborrepr(cbortype = "array")]
    Pt(Point),
    #[cborrepr(cbortype = "map")]
    Rec(MapV1),
    #[cborrepr(cbortype = "tag")]
    Big(PositiveBignum),
    #[cborrepr(cbortype = "negative")]
    Neg(Scalar),
}
impl Rec for ByType {
    const NAME: &'static str = "ByType";
    fn nodes(&self) -> Vec<Node> {
        vec![match self {
            ByType::Nothing => Node::C(2),
            ByType::Num(x) => x.node(),
            ByType::Txt { t } => t.node(),
            ByType::Raw(x) => x.node(),
            ByType::Pt(x) => Fld::node(x),
            ByType::Rec(x) => Fld::node(x),
            ByType::Big(x) => x.node(),
            ByType::Neg(x) => x.node(),
        }]
    }
    fn from_nodes(n: &[Node]) -> Option<Self> {
        if n.len() != 1 {
            return None;
        }
        let n = &n[0];
        Some(match n.kind() {
            Kind::Null => ByType::Nothing,
            Kind::Positive => ByType::Num(Fld::from(n)?),
            Kind::Text => ByType::Txt { t: Fld::from(n)? },
            Kind::Bytes => ByType::Raw(Fld::from(n)?),
            Kind::Array => ByType::Pt(Fld::from(n)?),
            Kind::Map => ByType::Rec(Fld::from(n)?),
            Kind::Tag => ByType::Big(Fld::from(n)?),
            Kind::Negative => ByType::Neg(Fld::from(n)?),
            _ => return None,
        })
    }
    fn make(g: &Gen, s: &mut Src) -> Self {
        match s.draw(8) {
            0 => ByType::Nothing,
            1 => ByType::Num(Fld::gen(g, s)),
            2 => ByType::Txt { t: Fld::gen(g, s) },
            3 => ByType::Raw(Fld::gen(g, s)),
            4 => ByType::Pt(Fld::gen(g, s)),
            5 => ByType::Rec(Fld::gen(g, s)),
            6 => ByType::Big(Fld::gen(g, s)),
            _ => ByType::Neg(Scalar::canonical_negative(g.int(s))),
        }
    }
}

#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(enumtype = "enumtype")]
pub enum OneOrEmpty {
    #[cborrepr(cbortype = "positive")]
    One(u16),
    #[cborrepr(cbortype = "null")]
    Empty,
}
impl Rec for OneOrEmpty {
    const NAME: &'static str = "OneOrEmpty";
    fn nodes(&self) -> Vec<Node> {
        vec![match self {
            OneOrEmpty::Empty => Node::C(2),
            OneOrEmpty::One(x) => x.node(),
        }]
    }
    fn from_nodes(n: &[Node]) -> Option<Self> {
        Some(match n {
            [Node::C(2)] => OneOrEmpty::Empty,
            [x] => OneOrEmpty::One(Fld::from(x)?),
            _ => return None,
        })
    }
    fn make(g: &Gen, s: &mut Src) -> Self {
        match s.draw(2) {
            0 => OneOrEmpty::Empty,
            _ => OneOrEmpty::One(Fld::gen(g, s)),
        }
    }
}

/// numbers beyond one header byte, unsorted and adjacent gaps
#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(enumtype = "tagvariant", skipkey = 23, skipkey = 6, skipkey = 5, skipkey = 25)]
pub enum Many {
    V0,
    V1(u8),
    V2(String, u64),
    V3 { a: u16, b: Vec<u8> },
    V4(Point),
    V5(Vec<u64>),
    V6,
    V7(u8),
    V8(String, u64),
    V9 { a: u16, b: Vec<u8> },
    V10(Point),
    V11(Vec<u64>),
    V12,
    V13(u8),
    V14(String, u64),
    V15 { a: u16, b: Vec<u8> },
    V16(Point),
    V17(Vec<u64>),
    V18,
    V19(u8),
    V20(String, u64),
    V21 { a: u16, b: Vec<u8> },
    V22(Point),
    V23(Vec<u64>),
    V24,
    V25(u8),
    V26(String, u64),
    V27 { a: u16, b: Vec<u8> },
    V28(Point),
    V29(Vec<u64>),
}
impl Rec for Many {
    const NAME: &'static str = "Many";
    fn nodes(&self) -> Vec<Node> {
        match self {
            Many::V0 => variant(0, vec![]),
            Many::V1(a) => variant(1, vec![a.node()]),
            Many::V2(a, b) => variant(2, vec![a.node(), b.node()]),
            Many::V3 { a, b } => variant(3, vec![a.node(), b.node()]),
            Many::V4(a) => variant(4, vec![a.node()]),
            Many::V5(a) => variant(7, vec![vec_node(a)]),
            Many::V6 => variant(8, vec![]),
            Many::V7(a) => variant(9, vec![a.node()]),
            Many::V8(a, b) => variant(10, vec![a.node(), b.node()]),
            Many::V9 { a, b } => variant(11, vec![a.node(), b.node()]),
            Many::V10(a) => variant(12, vec![a.node()]),
            Many::V11(a) => variant(13, vec![vec_node(a)]),
            Many::V12 => variant(14, vec![]),
            Many::V13(a) => variant(15, vec![a.node()]),
            Many::V14(a, b) => variant(16, vec![a.node(), b.node()]),
            Many::V15 { a, b } => variant(17, vec![a.node(), b.node()]),
            Many::V16(a) => variant(18, vec![a.node()]),
            Many::V17(a) => variant(19, vec![vec_node(a)]),
            Many::V18 => variant(20, vec![]),
            Many::V19(a) => variant(21, vec![a.node()]),
            Many::V20(a, b) => variant(22, vec![a.node(), b.node()]),
            Many::V21 { a, b } => variant(24, vec![a.node(), b.node()]),
            Many::V22(a) => variant(26, vec![a.node()]),
            Many::V23(a) => variant(27, vec![vec_node(a)]),
            Many::V24 => variant(28, vec![]),
            Many::V25(a) => variant(29, vec![a.node()]),
            Many::V26(a, b) => variant(30, vec![a.node(), b.node()]),
            Many::V27 { a, b } => variant(31, vec![a.node(), b.node()]),
            Many::V28(a) => variant(32, vec![a.node()]),
            Many::V29(a) => variant(33, vec![vec_node(a)]),
        }
    }
    fn from_nodes(n: &[Node]) -> Option<Self> {
        Some(match parts(n)? {
            (0, []) => Many::V0,
            (1, [a]) => Many::V1(Fld::from(a)?),
            (2, [a, b]) => Many::V2(Fld::from(a)?, Fld::from(b)?),
            (3, [a, b]) => Many::V3 { a: Fld::from(a)?, b: Fld::from(b)? },
            (4, [a]) => Many::V4(Fld::from(a)?),
            (7, [a]) => Many::V5(vec_from(a)?),
            (8, []) => Many::V6,
            (9, [a]) => Many::V7(Fld::from(a)?),
            (10, [a, b]) => Many::V8(Fld::from(a)?, Fld::from(b)?),
            (11, [a, b]) => Many::V9 { a: Fld::from(a)?, b: Fld::from(b)? },
            (12, [a]) => Many::V10(Fld::from(a)?),
            (13, [a]) => Many::V11(vec_from(a)?),
            (14, []) => Many::V12,
            (15, [a]) => Many::V13(Fld::from(a)?),
            (16, [a, b]) => Many::V14(Fld::from(a)?, Fld::from(b)?),
            (17, [a, b]) => Many::V15 { a: Fld::from(a)?, b: Fld::from(b)? },
            (18, [a]) => Many::V16(Fld::from(a)?),
            (19, [a]) => Many::V17(vec_from(a)?),
            (20, []) => Many::V18,
            (21, [a]) => Many::V19(Fld::from(a)?),
            (22, [a, b]) => Many::V20(Fld::from(a)?, Fld::from(b)?),
            (24, [a, b]) => Many::V21 { a: Fld::from(a)?, b: Fld::from(b)? },
            (26, [a]) => Many::V22(Fld::from(a)?),
            (27, [a]) => Many::V23(vec_from(a)?),
            (28, []) => Many::V24,
            (29, [a]) => Many::V25(Fld::from(a)?),
            (30, [a, b]) => Many::V26(Fld::from(a)?, Fld::from(b)?),
            (31, [a, b]) => Many::V27 { a: Fld::from(a)?, b: Fld::from(b)? },
            (32, [a]) => Many::V28(Fld::from(a)?),
            (33, [a]) => Many::V29(vec_from(a)?),
            _ => return None,
        })
    }
    fn make(g: &Gen, s: &mut Src) -> Self {
        match s.draw(30) {
            0 => Many::V0,
            1 => Many::V1(Fld::gen(g, s)),
            2 => Many::V2(Fld::gen(g, s), Fld::gen(g, s)),
            3 => Many::V3 { a: Fld::gen(g, s), b: Fld::gen(g, s) },
            4 => Many::V4(Fld::gen(g, s)),
            5 => Many::V5(vec_gen(g, s)),
            6 => Many::V6,
            7 => Many::V7(Fld::gen(g, s)),
            8 => Many::V8(Fld::gen(g, s), Fld::gen(g, s)),
            9 => Many::V9 { a: Fld::gen(g, s), b: Fld::gen(g, s) },
            10 => Many::V10(Fld::gen(g, s)),
            11 => Many::V11(vec_gen(g, s)),
            12 => Many::V12,
            13 => Many::V13(Fld::gen(g, s)),
            14 => Many::V14(Fld::gen(g, s), Fld::gen(g, s)),
            15 => Many::V15 { a: Fld::gen(g, s), b: Fld::gen(g, s) },
            16 => Many::V16(Fld::gen(g, s)),
            17 => Many::V17(vec_gen(g, s)),
            18 => Many::V18,
            19 => Many::V19(Fld::gen(g, s)),
            20 => Many::V20(Fld::gen(g, s), Fld::gen(g, s)),
            21 => Many::V21 { a: Fld::gen(g, s), b: Fld::gen(g, s) },
            22 => Many::V22(Fld::gen(g, s)),
            23 => Many::V23(vec_gen(g, s)),
            24 => Many::V24,
            25 => Many::V25(Fld::gen(g, s)),
            26 => Many::V26(Fld::gen(g, s), Fld::gen(g, s)),
            27 => Many::V27 { a: Fld::gen(g, s), b: Fld::gen(g, s) },
            28 => Many::V28(Fld::gen(g, s)),
            _ => Many::V29(vec_gen(g, s)),
        }
    }
}

#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(enumtype = "enumint", variant_starts_at = 127, skipkey = 128)]
pub enum CodeEdge { A, B, C, D }
impl CodeEdge {
    fn all() -> [CodeEdge; 4] {
        [CodeEdge::A, CodeEdge::B, CodeEdge::C, CodeEdge::D]
    }
}
impl Rec for CodeEdge {
    const NAME: &'static str = "CodeEdge";
    fn nodes(&self) -> Vec<Node> {
        vec![u(first_number(self))]
    }
    fn from_nodes(n: &[Node]) -> Option<Self> {
        match n {
            [Node::U(_, v)] => Self::all().into_iter().find(|x| first_number(x) == *v),
            _ => None,
        }
    }
    fn make(_: &Gen, s: &mut Src) -> Self {
        Self::all()[s.draw(4) as usize].clone()
    }
}

/// some types only: all others are refused
#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(enumtype = "enumtype")]
pub enum Shape {
    #[cborrepr(cbortype = "array")]
    Arr(PointV2),
    #[cborrepr(cbortype = "map")]
    Map { m: MapSkip },
    #[cborrepr(cbortype = "tag")]
    Tagged(TagArr),
    #[cborrepr(cbortype = "bytes")]
    Raw(Vec<u8>),
}
impl Rec for Shape {
    const NAME: &'static str = "Shape";
    fn nodes(&self) -> Vec<Node> {
        vec![match self {
            Shape::Arr(x) => Fld::node(x),
            Shape::Map { m } => Fld::node(m),
            Shape::Tagged(x) => Fld::node(x),
            Shape::Raw(x) => x.node(),
        }]
    }
    fn from_nodes(n: &[Node]) -> Option<Self> {
        match n {
            [n] => Some(match n.kind() {
                Kind::Array => Shape::Arr(Fld::from(n)?),
                Kind::Map => Shape::Map { m: Fld::from(n)? },
                Kind::Tag => Shape::Tagged(Fld::from(n)?),
                Kind::Bytes => Shape::Raw(Fld::from(n)?),
                _ => return None,
            }),
            _ => None,
        }
    }
    fn make(g: &Gen, s: &mut Src) -> Self {
        match s.draw(4) {
            0 => Shape::Raw(Fld::gen(g, s)),
            1 => Shape::Arr(Fld::gen(g, s)),
            2 => Shape::Map { m: Fld::gen(g, s) },
            _ => Shape::Tagged(Fld::gen(g, s)),
        }
    }
}

// ---- compositions

#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(structure = "array")]
pub struct Nest {
    p: Point2,
    v: Variant,
    m: MapFrom1,
    raw: CborDataOf<Point>,
    c: Code,
    t: TagNew,
    o: OneOrEmpty,
}
rec_array!(Nest { p: 0, v: 1, m: 2, raw: 3, c: 4, t: 5, o: 6 });

#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(structure = "mapint", map_starts_at = 23)]
pub struct MapNest {
    #[cborrepr(mandatory)]
    a: MapSkip,
    b: Option<CborDataOf<DataOwned>>,
    c: Option<ByType>,
    d: Option<TagMap>,
    e: Option<VariantFrom>,
    f: Option<DataOwned>,
}
rec_map!(MapNest { a: man 23, b: opt 24, c: opt 25, d: opt 26, e: opt 27, f: opt 28 });

#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(structure = "array")]
pub struct Tagged(StandardDateTime, NegativeBignum, EncodedCBOR, RationalNumber, PositiveBignum);
rec_tuple!(Tagged(0, 1, 2, 3, 4));

// ---- declarations that lean on the defaults

/// no attribute at all: the fields follow each other
#[derive(Clone, Debug, PartialEq, CborRepr)]
pub struct Bare {
    a: u8,
    b: String,
}
impl Rec for Bare {
    const NAME: &'static str = "Bare";
    const FLAT: bool = true;
    fn nodes(&self) -> Vec<Node> {
        vec![self.a.node(), self.b.node()]
    }
    fn from_nodes(n: &[Node]) -> Option<Self> {
        match n {
            [a, b] => Some(Bare { a: Fld::from(a)?, b: Fld::from(b)? }),
            _ => None,
        }
    }
    fn make(g: &Gen, s: &mut Src) -> Self {
        Bare { a: Fld::gen(g, s), b: Fld::gen(g, s) }
    }
}

#[derive(Clone, Debug, PartialEq, CborRepr)]
pub struct BareNew(Vec<u8>);
rec_flat!(BareNew(0));

/// flat records inside a flat record: all the elements in a row
#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(structure = "flat")]
pub struct FlatNest(Bare, u64, FlatPoint);
impl Rec for FlatNest {
    const NAME: &'static str = "FlatNest";
    const FLAT: bool = true;
    fn nodes(&self) -> Vec<Node> {
        let mut v = self.0.nodes();
        v.push(self.1.node());
        v.extend(self.2.nodes());
        v
    }
    fn from_nodes(n: &[Node]) -> Option<Self> {
        if n.len() != 6 {
            return None;
        }
        Some(FlatNest(Bare::from_nodes(&n[..2])?, Fld::from(&n[2])?, FlatPoint::from_nodes(&n[3..])?))
    }
    fn make(g: &Gen, s: &mut Src) -> Self {
        FlatNest(Bare::make(g, s), Fld::gen(g, s), FlatPoint::make(g, s))
    }
}

#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(structure = "array", tag = 0)]
pub struct TagZero {
    a: bool,
}
rec_array!(TagZero { a: 0 } tag 0);

#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(structure = "array", tag = 18446744073709551615)]
pub struct TagMax(u8, u8);
rec_tuple!(TagMax(0, 1) tag 18446744073709551615);

#[derive(Clone, Debug, PartialEq, CborRepr)]
pub enum BareEnum {
    A,
    B(u8),
    C { x: String, y: Scalar },
}
impl Rec for BareEnum {
    const NAME: &'static str = "BareEnum";
    fn nodes(&self) -> Vec<Node> {
        match self {
            BareEnum::A => variant(0, vec![]),
            BareEnum::B(x) => variant(1, vec![x.node()]),
            BareEnum::C { x, y } => variant(2, vec![x.node(), y.node()]),
        }
    }
    fn from_nodes(n: &[Node]) -> Option<Self> {
        Some(match parts(n)? {
            (0, []) => BareEnum::A,
            (1, [x]) => BareEnum::B(Fld::from(x)?),
            (2, [x, y]) => BareEnum::C { x: Fld::from(x)?, y: Fld::from(y)? },
            _ => return None,
        })
    }
    fn make(g: &Gen, s: &mut Src) -> Self {
        match s.draw(3) {
            0 => BareEnum::A,
            1 => BareEnum::B(Fld::gen(g, s)),
            _ => BareEnum::C { x: Fld::gen(g, s), y: Fld::gen(g, s) },
        }
    }
}

pub type Names = Vec<String>;
pub type Places = Vec<Point>;
/// lists behind an alias: the attribute says what the macro cannot see
#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(enumtype = "tagvariant")]
pub enum Aliased {
    X(#[cborrepr(variant = "vec")] Names, #[cborrepr(variant = "simple")] u8),
    Y(u16, #[cborrepr(variant = "vec")] Places),
    Z(Vec<u8>, Vec<Vec<u8>>, Vec<Code>),
}
impl Rec for Aliased {
    const NAME: &'static str = "Aliased";
    fn nodes(&self) -> Vec<Node> {
        match self {
            Aliased::X(a, b) => variant(0, vec![vec_node(a), b.node()]),
            Aliased::Y(a, b) => variant(1, vec![a.node(), vec_node(b)]),
            Aliased::Z(a, b, c) => variant(2, vec![a.node(), vec_node(b), vec_node(c)]),
        }
    }
    fn from_nodes(n: &[Node]) -> Option<Self> {
        Some(match parts(n)? {
            (0, [a, b]) => Aliased::X(vec_from(a)?, Fld::from(b)?),
            (1, [a, b]) => Aliased::Y(Fld::from(a)?, vec_from(b)?),
            (2, [a, b, c]) => Aliased::Z(Fld::from(a)?, vec_from(b)?, vec_from(c)?),
            _ => return None,
        })
    }
    fn make(g: &Gen, s: &mut Src) -> Self {
        match s.draw(3) {
            0 => Aliased::X(vec_gen(g, s), Fld::gen(g, s)),
            1 => Aliased::Y(Fld::gen(g, s), vec_gen(g, s)),
            _ => Aliased::Z(Fld::gen(g, s), vec_gen(g, s), vec_gen(g, s)),
        }
    }
}

/// explicit discriminants, as a C-like enum often has them; numbers as the
/// writer gives them out
#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(enumtype = "enumint", variant_starts_at = 1)]
pub enum CodeDisc {
    A = 7,
    B = 1,
    C = 300,
}
impl CodeDisc {
    const ALL: [CodeDisc; 3] = [CodeDisc::A, CodeDisc::B, CodeDisc::C];
}
impl Rec for CodeDisc {
    const NAME: &'static str = "CodeDisc";
    fn nodes(&self) -> Vec<Node> {
        vec![u(first_number(self))]
    }
    fn from_nodes(n: &[Node]) -> Option<Self> {
        match n {
            [Node::U(_, v)] => Self::ALL.into_iter().find(|x| first_number(x) == *v),
            _ => None,
        }
    }
    fn make(_: &Gen, s: &mut Src) -> Self {
        Self::ALL[s.draw(3) as usize].clone()
    }
}

/// few of the kinds: everything else is refused
#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(enumtype = "enumtype")]
pub enum TextOrTag {
    #[cborrepr(cbortype = "text")]
    T(String),
    #[cborrepr(cbortype = "tag")]
    G { g: TagArr },
}
impl Rec for TextOrTag {
    const NAME: &'static str = "TextOrTag";
    fn nodes(&self) -> Vec<Node> {
        vec![match self {
            TextOrTag::T(x) => x.node(),
            TextOrTag::G { g } => Fld::node(g),
        }]
    }
    fn from_nodes(n: &[Node]) -> Option<Self> {
        Some(match n {
            [n @ Node::T(_)] => TextOrTag::T(Fld::from(n)?),
            [n @ Node::G(..)] => TextOrTag::G { g: Fld::from(n)? },
            _ => return None,
        })
    }
    fn make(g: &Gen, s: &mut Src) -> Self {
        match s.draw(2) {
            0 => TextOrTag::T(Fld::gen(g, s)),
            _ => TextOrTag::G { g: Fld::gen(g, s) },
        }
    }
}

/// a map of no fields
#[derive(Clone, Debug, PartialEq, CborRepr)]
#[cborrepr(structure = "mapint")]
pub struct MapNone {}
impl Rec for MapNone {
    const NAME: &'static str = "MapNone";
    fn nodes(&self) -> Vec<Node> {
        vec![map(vec![])]
    }
    fn from_nodes(n: &[Node]) -> Option<Self> {
        match n {
            [Node::M(_, e)] if e.is_empty() => Some(MapNone {}),
            _ => None,
        }
    }
    fn make(_: &Gen, _: &mut Src) -> Self {
        MapNone {}
    }
}

/// names as long as generated code has them
mod statements_of_accounts_and_their_corrections {
    use super::*;

    #[derive(Clone, Debug, PartialEq, CborRepr)]
    #[cborrepr(structure = "array")]
    pub struct StatementOfAccountAtTheBeginning {
        the_number_of_the_account_it_is_about: u16,
        what_was_on_the_account_at_that_time: Scalar,
    }
    rec_array!(StatementOfAccountAtTheBeginning { the_number_of_the_account_it_is_about: 0, what_was_on_the_account_at_that_time: 1 });

    #[derive(Clone, Debug, PartialEq, CborRepr)]
    #[cborrepr(structure = "array", tag = 500)]
    pub struct StatementOfAccountAtTheEnd {
        the_number_of_the_account_it_is_about: u16,
        the_statement_it_was_preceded_by: StatementOfAccountAtTheBeginning,
    }
    rec_array!(StatementOfAccountAtTheEnd { the_number_of_the_account_it_is_about: 0, the_statement_it_was_preceded_by: 1 } tag 500);
}
use statements_of_accounts_and_their_corrections::*;

include!("zoo_big.rs");

// ------------------------------------------------------------- registry ---

#[derive(Clone, Copy)]
pub struct RecTy {
    pub name: &'static str,
    pub flat: bool,
    /// canonical nodes of a random value
    pub gen: fn(&Gen, &mut Src) -> Vec<Node>,
    /// which wire data are a value: its canonical nodes
    pub refdec: fn(&[Node]) -> Option<Vec<Node>>,
    /// encode through the library
    pub enc: fn(&[Node], &mut Style) -> Option<Vec<u8>>,
    /// equality as the type itself sees it: value built from the nodes against the decoded bytes
    pub eq: fn(&[Node], &[u8]) -> Result<bool, De>,
    /// a batch: `encode_vec` of values, `decode_vec` of the batch at the start of the buffer
    pub vec_put: fn(&[Vec<Node>], &mut Writer) -> bool,
    pub vec_get: fn(&[u8]) -> Result<(Vec<Vec<Node>>, usize), De>,
    /// append to a writer
    pub put: fn(&[Node], &mut Writer) -> bool,
    /// decode at the start of the buffer: (canonical nodes, re-encoding, consumed)
    pub dec: fn(&[u8], &mut Style) -> Result<(Vec<Node>, Vec<u8>, usize), De>,
    /// decode the whole buffer
    pub whole: fn(&[u8], &mut Style) -> Result<Vec<Node>, De>,
    /// typed-data wrapper: kept bytes and the value taken out of it
    pub typed: fn(&[u8], &mut Style) -> Result<(Vec<u8>, Vec<Node>), De>,
}

fn mk<T: Rec + 'static>() -> RecTy {
    RecTy {
        name: T::NAME,
        flat: T::FLAT,
        gen: |g, s| T::make(g, s).nodes(),
        refdec: |n| T::from_nodes(n).map(|t| t.nodes()),
        enc: |n, st| {
            let t = T::from_nodes(n)?;
            Some(match st.pick(3) {
                0 => encode_to_bytes(&t),
                1 => enc(&t),
                _ => <CborDataOf<T> as std::convert::From<&T>>::from(&t).as_ref().to_vec(),
            })
        },
        eq: |n, b| {
            let t: T = decode_from_bytes(b)?;
            Ok(T::from_nodes(n).map_or(false, |x| x == t && x.clone() == t))
        },
        vec_put: |v, w| {
            let ts: Option<Vec<T>> = v.iter().map(|n| T::from_nodes(n)).collect();
            match ts {
                Some(ts) => {
                    encode_vec(&ts, w);
                    true
                }
                None => false,
            }
        },
        vec_get: |b| {
            let mut r = Reader::new(b);
            let v = decode_vec::<T>(&mut r)?;
            Ok((v.iter().map(|t| t.nodes()).collect(), r.consumed_bytes()))
        },
        put: |n, w| match T::from_nodes(n) {
            Some(t) => {
                w.encode(&t);
                true
            }
            None => false,
        },
        dec: |b, st| {
            if st.pick(4) == 0 {
                let buf = behind(b);
                let mut r = started(&buf)?;
                let from = r.consumed_bytes();
                let t: T = r.decode()?;
                return Ok((t.nodes(), enc(&t), r.consumed_bytes() - from));
            }
            let mut r = Reader::new(b);
            let t: T = match st.pick(2) {
                0 => r.decode()?,
                _ => T::decode(&mut r)?,
            };
            Ok((t.nodes(), enc(&t), r.consumed_bytes()))
        },
        whole: |b, st| {
            let t: T = decode_whole(b, st)?;
            Ok(t.nodes())
        },
        typed: |b, st| {
            let buf;
            let mut r = if st.pick(4) == 0 {
                buf = behind(b);
                started(&buf)?
            } else {
                Reader::new(b)
            };
            let d: CborDataOf<T> = match st.pick(3) {
                0 => r.exact_decodable_data()?,
                1 => r.decode()?,
                _ => r.exact_decodable_slice::<T>()?.to_owned(),
            };
            let t = d.unserialize();
            Ok((d.as_ref().to_vec(), t.nodes()))
        },
    }
}

pub fn all() -> Vec<RecTy> {
    vec![
        mk::<Point>(),
        mk::<Point2>(),
        mk::<PointV2>(),
        mk::<Mixed>(),
        mk::<Wide>(),
        mk::<TagArr>(),
        mk::<TagTup>(),
        mk::<TagLast>(),
        mk::<OnlyOpt>(),
        mk::<FlatPoint>(),
        mk::<FlatTup>(),
        mk::<NewType>(),
        mk::<TagNew>(),
        mk::<TagName>(),
        mk::<MapV1>(),
        mk::<MapV2>(),
        mk::<MapFrom1>(),
        mk::<MapSkip>(),
        mk::<MapSkipFrom>(),
        mk::<MapEdge>(),
        mk::<MapFar>(),
        mk::<TagMap>(),
        mk::<MapWide>(),
        mk::<Variant>(),
        mk::<VariantV0>(),
        mk::<VariantFrom>(),
        mk::<VariantBoth>(),
        mk::<Code>(),
        mk::<CodeFrom>(),
        mk::<CodeSkip>(),
        mk::<ByType>(),
        mk::<OneOrEmpty>(),
        mk::<MapFull>(),
        mk::<Last24>(),
        mk::<MapLines>(),
        mk::<MapHuge>(),
        mk::<Nothing>(),
        mk::<LastRec>(),
        mk::<Many>(),
        mk::<CodeEdge>(),
        mk::<Shape>(),
        mk::<Nest>(),
        mk::<MapNest>(),
        mk::<Tagged>(),
        mk::<MapNone>(),
        mk::<Bare>(),
        mk::<BareNew>(),
        mk::<FlatNest>(),
        mk::<TagZero>(),
        mk::<TagMax>(),
        mk::<BareEnum>(),
        mk::<Aliased>(),
        mk::<CodeDisc>(),
        mk::<TextOrTag>(),
        mk::<StatementOfAccountAtTheBeginning>(),
        mk::<StatementOfAccountAtTheEnd>(),
        mk::<Code300>(),
        mk::<CodeMid>(),
        mk::<CodeHuge>(),
        mk::<Tup26>(),
        mk::<Row260>(),
        mk::<WideVariants>(),
    ]
}
pub fn by_name(n: &str) -> RecTy {
    all().into_iter().find(|r| r.name == n).expect("record type")
}
/// (older, newer) versions of the same record
pub const SKEW: &[(&str, &str)] = &[("Point", "PointV2"), ("MapV1", "MapV2"), ("VariantV0", "Variant")];

pub fn enc_nodes(n: &[Node]) -> Vec<u8> {
    n.iter().flat_map(|x| x.enc()).collect()
}
/// parse a whole buffer as a sequence of `k` well-formed elements
pub fn parse_seq(b: &[u8], k: Option<usize>) -> Option<Vec<Node>> {
    let mut at = 0;
    let mut v = Vec::new();
    while at < b.len() {
        let (n, l) = parse(&b[at..])?;
        v.push(n);
        at += l;
    }
    match k {
        Some(k) if v.len() != k => None,
        _ => Some(v),
    }
}
