//! Independent reference model of CBOR: syntax tree that keeps every encoding
//! choice, encoder, well-formedness scanner, parser, generator and damage.
//! Nothing in here uses the library under test.

use crate::rng::Src;

/// header width: 0 = immediate, else number of extra bytes (1, 2, 4, 8)
pub type W = u8;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Str {
    D(W, Vec<u8>),
    I(Vec<(W, Vec<u8>)>),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Node {
    U(W, u64),
    N(W, u64),
    B(Str),
    T(Str),
    A(Option<W>, Vec<Node>),
    M(Option<W>, Vec<(Node, Node)>),
    G(W, u64, Box<Node>),
    /// simple value: false = immediate (0..=19), true = one byte form
    S(bool, u8),
    /// 0 false 1 true 2 null 3 undefined
    C(u8),
    F16(u16),
    F32(u32),
    F64(u64),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Positive,
    Negative,
    Bytes,
    Text,
    Array,
    Map,
    Tag,
    False,
    True,
    Null,
    Undefined,
    Float,
    Byte,
    Break,
}

pub fn min_w(v: u64) -> W {
    if v < 24 {
        0
    } else if v < 1 << 8 {
        1
    } else if v < 1 << 16 {
        2
    } else if v < 1 << 32 {
        4
    } else {
        8
    }
}

pub fn head(out: &mut Vec<u8>, major: u8, w: W, v: u64) {
    let m = major << 5;
    match w {
        0 => out.push(m | v as u8),
        1 => {
            out.push(m | 24);
            out.push(v as u8)
        }
        2 => {
            out.push(m | 25);
            out.extend_from_slice(&(v as u16).to_be_bytes())
        }
        4 => {
            out.push(m | 26);
            out.extend_from_slice(&(v as u32).to_be_bytes())
        }
        _ => {
            out.push(m | 27);
            out.extend_from_slice(&v.to_be_bytes())
        }
    }
}

impl Str {
    pub fn concat(&self) -> Vec<u8> {
        match self {
            Str::D(_, b) => b.clone(),
            Str::I(c) => c.iter().flat_map(|x| x.1.iter().copied()).collect(),
        }
    }
}

impl Node {
    pub fn kind(&self) -> Kind {
        match self {
            Node::U(..) => Kind::Positive,
            Node::N(..) => Kind::Negative,
            Node::B(_) => Kind::Bytes,
            Node::T(_) => Kind::Text,
            Node::A(..) => Kind::Array,
            Node::M(..) => Kind::Map,
            Node::G(..) => Kind::Tag,
            Node::S(..) => Kind::Byte,
            Node::C(0) => Kind::False,
            Node::C(1) => Kind::True,
            Node::C(2) => Kind::Null,
            Node::C(_) => Kind::Undefined,
            Node::F16(_) | Node::F32(_) | Node::F64(_) => Kind::Float,
        }
    }

    pub fn enc(&self) -> Vec<u8> {
        let mut o = Vec::new();
        self.enc_to(&mut o, &mut None);
        o
    }

    /// encode and report the offsets at which headers start
    pub fn enc_marks(&self) -> (Vec<u8>, Vec<usize>) {
        let mut o = Vec::new();
        let mut m = Some(Vec::new());
        self.enc_to(&mut o, &mut m);
        (o, m.unwrap())
    }

    pub fn enc_to(&self, o: &mut Vec<u8>, marks: &mut Option<Vec<usize>>) {
        fn mark(o: &[u8], marks: &mut Option<Vec<usize>>) {
            if let Some(m) = marks {
                m.push(o.len())
            }
        }
        fn st(o: &mut Vec<u8>, marks: &mut Option<Vec<usize>>, major: u8, s: &Str) {
            match s {
                Str::D(w, b) => {
                    mark(o, marks);
                    head(o, major, *w, b.len() as u64);
                    o.extend_from_slice(b)
                }
                Str::I(c) => {
                    mark(o, marks);
                    o.push(major << 5 | 31);
                    for (w, b) in c {
                        mark(o, marks);
                        head(o, major, *w, b.len() as u64);
                        o.extend_from_slice(b)
                    }
                    mark(o, marks);
                    o.push(0xff)
                }
            }
        }
        match self {
            Node::B(s) => return st(o, marks, 2, s),
            Node::T(s) => return st(o, marks, 3, s),
            _ => mark(o, marks),
        }
        match self {
            Node::U(w, v) => head(o, 0, *w, *v),
            Node::N(w, v) => head(o, 1, *w, *v),
            Node::B(_) | Node::T(_) => (),
            Node::A(l, e) => {
                match l {
                    Some(w) => head(o, 4, *w, e.len() as u64),
                    None => o.push(0x9f),
                }
                for x in e {
                    x.enc_to(o, marks)
                }
                if l.is_none() {
                    mark(o, marks);
                    o.push(0xff)
                }
            }
            Node::M(l, e) => {
                match l {
                    Some(w) => head(o, 5, *w, e.len() as u64),
                    None => o.push(0xbf),
                }
                for (k, v) in e {
                    k.enc_to(o, marks);
                    v.enc_to(o, marks)
                }
                if l.is_none() {
                    mark(o, marks);
                    o.push(0xff)
                }
            }
            Node::G(w, v, n) => {
                head(o, 6, *w, *v);
                n.enc_to(o, marks)
            }
            Node::S(false, v) => o.push(0xe0 | v),
            Node::S(true, v) => {
                o.push(0xf8);
                o.push(*v)
            }
            Node::C(c) => o.push(0xf4 + c),
            Node::F16(v) => {
                o.push(0xf9);
                o.extend_from_slice(&v.to_be_bytes())
            }
            Node::F32(v) => {
                o.push(0xfa);
                o.extend_from_slice(&v.to_be_bytes())
            }
            Node::F64(v) => {
                o.push(0xfb);
                o.extend_from_slice(&v.to_be_bytes())
            }
        }
    }

    pub fn short(&self) -> String {
        let b = self.enc();
        hex(&b, 48)
    }
}

pub fn hex(b: &[u8], max: usize) -> String {
    let mut s = String::new();
    for x in b.iter().take(max) {
        s.push_str(&format!("{:02x}", x));
    }
    if b.len() > max {
        s.push_str(&format!("..({}B)", b.len()));
    }
    s
}

// ---------------------------------------------------------------- scanner ---

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Wf {
    /// one well-formed element, ending at this offset
    Ok(usize),
    /// a proper prefix of some well-formed element
    Incomplete,
    /// cannot be completed to a well-formed element; offset of the offending header
    Bad(usize),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Lead {
    Val { major: u8, w: W, v: u64, size: usize },
    Indef { major: u8 },
    Break,
}

pub enum LeadErr {
    Short,
    Reserved,
}

pub fn lead(b: &[u8]) -> Result<Lead, LeadErr> {
    if b.is_empty() {
        return Err(LeadErr::Short);
    }
    let major = b[0] >> 5;
    let low = b[0] & 31;
    let w: W = match low {
        0..=23 => return Ok(Lead::Val { major, w: 0, v: low as u64, size: 1 }),
        24 => 1,
        25 => 2,
        26 => 4,
        27 => 8,
        28..=30 => return Err(LeadErr::Reserved),
        _ => {
            return match major {
                2..=5 => Ok(Lead::Indef { major }),
                7 => Ok(Lead::Break),
                _ => Err(LeadErr::Reserved),
            }
        }
    };
    let n = w as usize;
    if b.len() < 1 + n {
        return Err(LeadErr::Short);
    }
    let mut v = 0u64;
    for x in &b[1..1 + n] {
        v = v << 8 | *x as u64;
    }
    Ok(Lead::Val { major, w, v, size: 1 + n })
}

#[derive(Clone, Copy, Debug)]
enum Fr {
    Def(u128),
    Arr,
    Map(bool),
    Chunk(u8),
}

/// Incremental structural model: feed it headers, it knows the nesting.
#[derive(Default)]
pub struct Nest {
    st: Vec<Fr>,
    started: bool,
}

impl Nest {
    pub fn done(&self) -> bool {
        self.started && self.st.is_empty()
    }
    fn item(&mut self) {
        // one complete item was added to the innermost open structure
        loop {
            match self.st.last_mut() {
                None => return,
                Some(Fr::Def(n)) => {
                    *n -= 1;
                    if *n > 0 {
                        return;
                    }
                    self.st.pop();
                }
                Some(Fr::Map(odd)) => {
                    *odd = !*odd;
                    return;
                }
                Some(Fr::Arr) | Some(Fr::Chunk(_)) => return,
            }
        }
    }
    /// false = this header is illegal here
    pub fn feed(&mut self, l: Lead) -> bool {
        if let Some(Fr::Chunk(m)) = self.st.last() {
            let ok = match l {
                Lead::Val { major, .. } => major == *m,
                Lead::Indef { .. } => false,
                Lead::Break => true,
            };
            if !ok {
                return false;
            }
        }
        self.started = true;
        match l {
            Lead::Val { major, v, .. } => match major {
                4 if v > 0 => self.st.push(Fr::Def(v as u128)),
                5 if v > 0 => self.st.push(Fr::Def(v as u128 * 2)),
                6 => self.st.push(Fr::Def(1)),
                _ => self.item(),
            },
            Lead::Indef { major } => match major {
                2 | 3 => self.st.push(Fr::Chunk(major)),
                4 => self.st.push(Fr::Arr),
                _ => self.st.push(Fr::Map(false)),
            },
            Lead::Break => match self.st.last() {
                Some(Fr::Arr) | Some(Fr::Chunk(_)) | Some(Fr::Map(false)) => {
                    self.st.pop();
                    self.item()
                }
                _ => return false,
            },
        }
        true
    }
}

/// scan one element at the start of `b`
pub fn wf(b: &[u8]) -> Wf {
    let mut nest = Nest::default();
    let mut at = 0usize;
    loop {
        let l = match lead(&b[at..]) {
            Ok(l) => l,
            Err(LeadErr::Short) => return Wf::Incomplete,
            Err(LeadErr::Reserved) => return Wf::Bad(at),
        };
        if !nest.feed(l) {
            return Wf::Bad(at);
        }
        at += match l {
            Lead::Val { size, .. } => size,
            _ => 1,
        };
        if let Lead::Val { major: 2 | 3, v, .. } = l {
            if v > (b.len() - at) as u64 {
                return Wf::Incomplete;
            }
            at += v as usize;
        }
        if nest.done() {
            return Wf::Ok(at);
        }
    }
}

/// what is wrong with the header at which an element goes bad
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Off {
    Reserved(u8),
    /// a break with nothing open
    BreakOutside,
    /// a break right inside a definite container or a tag
    BreakDefinite,
    /// a break after a key
    BreakOdd,
    /// this header inside an indefinite string of that major type
    Chunk(u8, Lead),
}

/// for `wf(b) == Wf::Bad(bad)`: why
pub fn offence(b: &[u8], bad: usize) -> Off {
    let mut nest = Nest::default();
    let mut at = 0usize;
    while at < bad {
        let l = match lead(&b[at..]) {
            Ok(l) => l,
            Err(_) => unreachable!("scanned"),
        };
        nest.feed(l);
        at += match l {
            Lead::Val { size, .. } => size,
            _ => 1,
        };
        if let Lead::Val { major: 2 | 3, v, .. } = l {
            at += v as usize;
        }
    }
    match (lead(&b[bad..]), nest.st.last()) {
        (Err(_), _) => Off::Reserved(b[bad]),
        (Ok(l), Some(Fr::Chunk(m))) => Off::Chunk(*m, l),
        (Ok(_), None) => Off::BreakOutside,
        (Ok(_), Some(Fr::Map(_))) => Off::BreakOdd,
        (Ok(_), Some(_)) => Off::BreakDefinite,
    }
}

/// the type a header announces
pub fn kind_at(b: &[u8]) -> Option<Kind> {
    Some(match (lead(b).ok()?, b[0]) {
        (Lead::Break, _) => Kind::Break,
        (Lead::Val { major: 7, .. }, x) => match x & 31 {
            20 => Kind::False,
            21 => Kind::True,
            22 => Kind::Null,
            23 => Kind::Undefined,
            25 | 26 | 27 => Kind::Float,
            _ => Kind::Byte,
        },
        (Lead::Val { major, .. }, _) | (Lead::Indef { major }, _) => {
            [Kind::Positive, Kind::Negative, Kind::Bytes, Kind::Text, Kind::Array, Kind::Map, Kind::Tag][major as usize]
        }
    })
}

/// deepest nesting the (recursive) reference tree is built for
const DEEPEST: usize = 4000;

/// parse one well-formed element; None if it is not well formed, or nested so
/// deep that the judge's own recursion could not follow it
pub fn parse(b: &[u8]) -> Option<(Node, usize)> {
    match wf(b) {
        Wf::Ok(end) => {
            let mut at = 0;
            let n = parse_at(&b[..end], &mut at, 0)?;
            Some((n, end))
        }
        _ => None,
    }
}

fn parse_at(b: &[u8], at: &mut usize, depth: usize) -> Option<Node> {
    if depth > DEEPEST {
        return None;
    }
    let depth = depth + 1;
    fn is_break(b: &[u8], at: usize) -> bool {
        b[at] == 0xff
    }
    let l = match lead(&b[*at..]) {
        Ok(l) => l,
        Err(_) => unreachable!("scanned"),
    };
    Some(match l {
        Lead::Break => unreachable!("scanned"),
        Lead::Indef { major } => {
            *at += 1;
            match major {
                2 | 3 => {
                    let mut c = Vec::new();
                    while !is_break(b, *at) {
                        if let Ok(Lead::Val { w, v, size, .. }) = lead(&b[*at..]) {
                            *at += size;
                            c.push((w, b[*at..*at + v as usize].to_vec()));
                            *at += v as usize;
                        }
                    }
                    *at += 1;
                    if major == 2 {
                        Node::B(Str::I(c))
                    } else {
                        Node::T(Str::I(c))
                    }
                }
                4 => {
                    let mut c = Vec::new();
                    while !is_break(b, *at) {
                        c.push(parse_at(b, at, depth)?);
                    }
                    *at += 1;
                    Node::A(None, c)
                }
                _ => {
                    let mut c = Vec::new();
                    while !is_break(b, *at) {
                        let k = parse_at(b, at, depth)?;
                        let v = parse_at(b, at, depth)?;
                        c.push((k, v));
                    }
                    *at += 1;
                    Node::M(None, c)
                }
            }
        }
        Lead::Val { major, w, v, size } => {
            let lb = b[*at];
            *at += size;
            match major {
                0 => Node::U(w, v),
                1 => Node::N(w, v),
                2 | 3 => {
                    let s = Str::D(w, b[*at..*at + v as usize].to_vec());
                    *at += v as usize;
                    if major == 2 {
                        Node::B(s)
                    } else {
                        Node::T(s)
                    }
                }
                4 => {
                    let mut c = Vec::new();
                    for _ in 0..v {
                        c.push(parse_at(b, at, depth)?);
                    }
                    Node::A(Some(w), c)
                }
                5 => {
                    let mut c = Vec::new();
                    for _ in 0..v {
                        let k = parse_at(b, at, depth)?;
                        let x = parse_at(b, at, depth)?;
                        c.push((k, x));
                    }
                    Node::M(Some(w), c)
                }
                6 => Node::G(w, v, Box::new(parse_at(b, at, depth)?)),
                _ => match lb & 31 {
                    x @ 0..=19 => Node::S(false, x),
                    x @ 20..=23 => Node::C(x - 20),
                    24 => Node::S(true, v as u8),
                    25 => Node::F16(v as u16),
                    26 => Node::F32(v as u32),
                    _ => Node::F64(v),
                },
            }
        }
    })
}

/// all text in the tree is valid UTF-8 chunk by chunk
pub fn text_ok(s: &Str) -> bool {
    match s {
        Str::D(_, b) => std::str::from_utf8(b).is_ok(),
        Str::I(c) => c.iter().all(|x| std::str::from_utf8(&x.1).is_ok()),
    }
}

// -------------------------------------------------------------- generator ---

/// swarm configuration of one run: which shapes it favours
#[derive(Clone, Debug)]
pub struct Gen {
    kinds: [u64; 10],
    nonmin: u64,
    indef: u64,
    pub big: u64,
    deep: u64,
}

impl Gen {
    pub fn plain() -> Gen {
        Gen { kinds: [4, 2, 3, 3, 3, 3, 2, 1, 2, 1], nonmin: 25, indef: 25, big: 2, deep: 3 }
    }
    pub fn swarm(s: &mut Src) -> Gen {
        let mut g = Gen::plain();
        if s.chance(2, 3) {
            for k in g.kinds.iter_mut() {
                match s.draw(4) {
                    3 => *k = 0,
                    2 => *k *= 4,
                    _ => (),
                }
            }
            if g.kinds.iter().sum::<u64>() == 0 {
                g.kinds[0] = 1;
            }
            g.nonmin = [25, 0, 60, 90][s.draw(4) as usize];
            g.indef = [25, 0, 60, 90][s.draw(4) as usize];
            g.big = [2, 0, 0, 12][s.draw(4) as usize];
            g.deep = [3, 0, 10, 25][s.draw(4) as usize];
        }
        g
    }

    pub fn int(&self, s: &mut Src) -> u64 {
        const EDGE: [u64; 26] = [
            0, 1, 22, 23, 24, 25, 31, 32, 127, 128, 254, 255, 256, 257, 0x7fff, 0xfffe, 0xffff, 0x10000,
            0x7fff_ffff, 0xffff_fffe, 0xffff_ffff, 0x1_0000_0000, 0x7fff_ffff_ffff_ffff, 0xffff_ffff_ffff_ffff,
            0x8000_0000_0000_0000, 0x8000_0000_0000_0001,
        ];
        match s.draw(6) {
            0 => s.draw(24),
            1 => EDGE[s.draw(26) as usize],
            2 => {
                let sh = s.draw(64) as u32;
                let v = 1u64 << sh;
                match s.draw(3) {
                    0 => v,
                    1 => v - 1,
                    _ => v.wrapping_add(1),
                }
            }
            3 => s.draw(1 << 9),
            4 => s.draw(1 << 17),
            _ => s.u64() >> s.draw(64),
        }
    }

    pub fn width(&self, s: &mut Src, v: u64) -> W {
        let m = min_w(v);
        if self.nonmin > 0 && s.chance(self.nonmin, 100) {
            let opts: &[W] = match m {
                0 => &[1, 2, 4, 8],
                1 => &[2, 4, 8],
                2 => &[4, 8],
                _ => &[8],
            };
            opts[s.draw(opts.len() as u64) as usize]
        } else {
            m
        }
    }

    fn len(&self, s: &mut Src) -> usize {
        const EDGE: [usize; 12] = [0, 1, 22, 23, 24, 25, 31, 32, 33, 255, 256, 257];
        const BIG: [usize; 8] = [300, 1000, 4095, 4096, 65535, 65536, 65537, 70000];
        if self.big > 0 && s.chance(self.big, 100) {
            return BIG[s.draw(8) as usize];
        }
        match s.draw(6) {
            0..=2 => s.draw(6) as usize,
            3 => s.draw(40) as usize,
            _ => EDGE[s.draw(12) as usize],
        }
    }

    fn count(&self, s: &mut Src) -> usize {
        const EDGE: [usize; 8] = [0, 1, 2, 23, 24, 25, 255, 256];
        match s.draw(16) {
            15 => EDGE[s.draw(8) as usize],
            14 => s.draw(20) as usize,
            v => (v % 5) as usize,
        }
    }

    pub fn blob(&self, s: &mut Src) -> Vec<u8> {
        let n = self.len(s);
        let mut x = s.draw(1 << 20);
        let mut b: Vec<u8> = (0..n)
            .map(|_| {
                let b = x as u8;
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407).rotate_right(17);
                b
            })
            .collect();
        // contents that something might take for more than contents
        match s.draw(16) {
            15 => b.fill(0),
            14 => b.fill(0xff),
            13 => {
                let k = s.draw(4) as usize;
                b.iter_mut().take(k).for_each(|x| *x = 0)
            }
            12 => {
                let k = s.draw(4) as usize;
                let v = [0, 0xff, b' ', b'\n'][s.draw(4) as usize];
                b.iter_mut().rev().take(k).for_each(|x| *x = v)
            }
            11 => b.iter_mut().for_each(|x| *x &= 0x7f),
            10 => {
                // an element in a string
                let g = Gen { big: 0, deep: 0, ..self.clone() };
                b = g.leaf(s).enc()
            }
            _ => (),
        }
        b
    }

    pub fn utf8(&self, s: &mut Src) -> String {
        let n = self.len(s);
        const CH: [char; 24] = [
            'a', 'é', '\u{0}', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', 'z', '語', ' ', '\n', '\r',
            '\t', '\u{feff}', '\u{fffd}', 'A', '"', '\\', '\u{301}', '\u{d7ff}', '\u{e000}',
        ];
        let mut x = s.draw(1 << 20);
        let mut o = String::new();
        let kind = s.draw(9);
        while o.len() < n {
            let i = (x >> 7) as usize;
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407).rotate_right(17);
            let c = match kind {
                0..=2 => (b'a' + (i % 26) as u8) as char,
                3 => (b' ' + (i % 95) as u8) as char,
                4 => [' ', '\n', '\r', '\t', 'x'][i % 5],
                _ => CH[i % 24],
            };
            if o.len() + c.len_utf8() <= n {
                o.push(c)
            } else {
                o.push('q')
            }
        }
        o
    }

    fn str(&self, s: &mut Src, text: bool) -> Str {
        let one = |g: &Gen, s: &mut Src| -> (W, Vec<u8>) {
            let b = if text { g.utf8(s).into_bytes() } else { g.blob(s) };
            let w = g.width(s, b.len() as u64);
            (w, b)
        };
        if self.indef > 0 && s.chance(self.indef, 100) {
            if self.big > 0 && s.chance(self.big, 400) {
                // very many small chunks, now and then a big one
                let n = match s.draw(8) {
                    7 => match s.draw(24) {
                        23 => 65_530 + s.draw(12),
                        k => [1023u64, 1024, 1025, 4095, 4096, 4100][k as usize % 6],
                    },
                    k => [24u64, 100, 255, 256, 257, 300, 1000][k as usize],
                };
                let at = s.draw(2 * n);
                let k = s.draw(3) as usize;
                return Str::I(
                    (0..n)
                        .map(|i| {
                            if i == at {
                                return one(self, s);
                            }
                            let b: Vec<u8> = (0..k as u64).map(|j| b'a' + ((i + j) % 26) as u8).collect();
                            (0, b)
                        })
                        .collect(),
                );
            }
            let n = if s.chance(1, 12) { s.draw(40) } else { s.draw(4) };
            let mut c: Vec<(W, Vec<u8>)> = (0..n).map(|_| one(self, s)).collect();
            if n > 1 && s.chance(1, 6) {
                let k = s.draw(n - 1) as usize;
                if s.draw(2) == 0 {
                    c[k + 1] = c[k].clone()
                } else {
                    c[k] = (0, vec![])
                }
            }
            Str::I(c)
        } else {
            let (w, b) = one(self, s);
            Str::D(w, b)
        }
    }

    pub fn leaf(&self, s: &mut Src) -> Node {
        match s.draw(6) {
            0 => Node::U(0, s.draw(24)),
            1 => {
                let v = self.int(s);
                Node::U(self.width(s, v), v)
            }
            2 => Node::C(s.draw(4) as u8),
            3 => Node::S(false, s.draw(20) as u8),
            4 => Node::N(0, s.draw(24)),
            _ => Node::B(Str::D(0, vec![])),
        }
    }

    pub fn node(&self, s: &mut Src) -> Node {
        if self.deep > 0 && s.chance(self.deep, 1000) {
            return self.tower(s);
        }
        let mut budget = 60i64;
        self.sub(s, 0, &mut budget)
    }

    /// a deep chain of single-member structures
    fn tower(&self, s: &mut Src) -> Node {
        const D: [u64; 8] = [16, 31, 33, 64, 130, 255, 257, 700];
        let d = if s.chance(1, 2) { D[s.draw(8) as usize] } else { 4 + s.draw(140) };
        let mix = s.draw(12);
        let mut n = if s.chance(1, 2) {
            self.leaf(s)
        } else {
            let mut budget = 12i64;
            self.sub(s, 4, &mut budget)
        };
        for _ in 0..d {
            let which = if mix >= 9 { s.draw(9) } else { mix };
            let one = || Node::U(0, 1);
            n = match which {
                0 => Node::A(if self.indef > 50 { None } else { Some(0) }, vec![n]),
                1 => Node::G(0, 5, Box::new(n)),
                2 => Node::M(Some(0), vec![(one(), n)]),
                3 => Node::A(None, vec![n, Node::C(2)]),
                4 => Node::A(Some(0), vec![one(), n]),
                5 => Node::A(Some(0), vec![n, one()]),
                6 => Node::M(Some(0), vec![(n, one())]),
                7 => Node::M(None, vec![(one(), n), (one(), one())]),
                _ => Node::M(None, vec![(n, one())]),
            };
        }
        n
    }

    fn sub(&self, s: &mut Src, depth: u32, budget: &mut i64) -> Node {
        *budget -= 1;
        if *budget <= 0 {
            return self.leaf(s);
        }
        let mut k = self.kinds;
        if depth > 5 {
            k[4] = 0;
            k[5] = 0;
            k[6] = 0;
            if k.iter().sum::<u64>() == 0 {
                k[0] = 1;
            }
        }
        match s.weighted(&k) {
            0 => {
                let v = self.int(s);
                Node::U(self.width(s, v), v)
            }
            1 => {
                let v = self.int(s);
                Node::N(self.width(s, v), v)
            }
            2 => Node::B(self.str(s, false)),
            3 => Node::T(self.str(s, true)),
            4 => {
                let e = if self.big > 0 && s.chance(self.big, 150) {
                    let n = self.many(s);
                    if s.chance(1, 3) {
                        let l = self.leaf(s);
                        vec![l; n]
                    } else {
                        (0..n).map(|i| Self::nth(i as u64)).collect()
                    }
                } else {
                    let n = self.count(s);
                    let mut e = (0..n).map(|_| self.sub(s, depth + 1, budget)).collect::<Vec<_>>();
                    if n > 1 && s.chance(1, 8) {
                        // the same one again
                        let k = s.draw(n as u64 - 1) as usize;
                        e[k + 1] = e[k].clone()
                    }
                    e
                };
                Node::A(self.slen(s, e.len()), e)
            }
            5 => {
                let e = if self.big > 0 && s.chance(self.big, 250) {
                    let n = self.many(s);
                    let l = self.leaf(s);
                    match s.draw(3) {
                        0 => vec![(l.clone(), l); n],
                        1 => (0..n).map(|i| (Self::nth(i as u64), l.clone())).collect(),
                        _ => (0..n).map(|i| (Self::nth(i as u64), Self::nth(i as u64 + 7))).collect(),
                    }
                } else {
                    let n = self.count(s);
                    let mut e = (0..n)
                        .map(|_| {
                            let a = self.sub(s, depth + 1, budget);
                            (a, self.sub(s, depth + 1, budget))
                        })
                        .collect::<Vec<_>>();
                    if n > 1 && s.chance(1, 6) {
                        let k = s.draw(n as u64 - 1) as usize;
                        match s.draw(3) {
                            0 => e[k + 1] = e[k].clone(),
                            1 => e[k + 1].0 = e[k].0.clone(),
                            _ => e[k + 1].1 = e[k].1.clone(),
                        }
                    }
                    e
                };
                Node::M(self.slen(s, e.len()), e)
            }
            6 => self.tag(s, depth, budget),
            7 => {
                if s.chance(1, 2) {
                    Node::S(true, s.draw(256) as u8)
                } else {
                    Node::S(false, s.draw(20) as u8)
                }
            }
            8 => Node::C(s.draw(4) as u8),
            _ => match s.draw(3) {
                0 => Node::F16(s.draw(1 << 16) as u16),
                1 => Node::F32(s.draw(1 << 32) as u32),
                _ => Node::F64(s.u64()),
            },
        }
    }

    /// a number of members at which something could change
    fn many(&self, s: &mut Src) -> usize {
        const MID: [usize; 12] = [31, 32, 33, 63, 64, 65, 127, 128, 129, 256, 257, 300];
        const BIG: [usize; 6] = [1000, 1024, 1025, 65535, 65536, 66000];
        if s.chance(1, 5) {
            BIG[s.draw(6) as usize]
        } else {
            MID[s.draw(12) as usize]
        }
    }
    /// a member that tells its position
    fn nth(i: u64) -> Node {
        Node::U(min_w(i), i)
    }

    fn slen(&self, s: &mut Src, n: usize) -> Option<W> {
        if self.indef > 0 && s.chance(self.indef, 100) {
            None
        } else {
            Some(self.width(s, n as u64))
        }
    }

    fn tag(&self, s: &mut Src, depth: u32, budget: &mut i64) -> Node {
        match s.draw(8) {
            0 => {
                let v = self.int(s);
                Node::G(self.width(s, v), v, Box::new(self.sub(s, depth + 1, budget)))
            }
            1 => Node::G(self.width(s, 0), 0, Box::new(Node::T(self.str(s, true)))),
            2 => Node::G(self.width(s, 2), 2, Box::new(Node::B(self.str(s, false)))),
            3 => Node::G(self.width(s, 3), 3, Box::new(Node::B(self.str(s, false)))),
            4 => {
                let w = self.width(s, 24);
                Node::G(w, 24, Box::new(Node::B(self.str(s, false))))
            }
            5 => {
                // rational
                let num = match s.draw(4) {
                    0 => {
                        let v = self.int(s);
                        Node::U(self.width(s, v), v)
                    }
                    1 => {
                        let v = self.int(s);
                        Node::N(self.width(s, v), v)
                    }
                    2 => Node::G(self.width(s, 2), 2, Box::new(Node::B(self.str(s, false)))),
                    _ => Node::G(self.width(s, 3), 3, Box::new(Node::B(self.str(s, false)))),
                };
                let den = match s.draw(2) {
                    0 => {
                        let v = self.int(s);
                        Node::U(self.width(s, v), v)
                    }
                    _ => Node::G(self.width(s, 2), 2, Box::new(Node::B(self.str(s, false)))),
                };
                let w = self.width(s, 30);
                Node::G(w, 30, Box::new(Node::A(self.slen(s, 2), vec![num, den])))
            }
            _ => {
                let v = [0u64, 2, 3, 24, 30, 258, 1, 4, 5, 16, 21, 22, 23, 25, 26, 29, 32, 37, 100, 1004, 43000, 55799, 15309736, 0xffff][s.draw(24) as usize];
                Node::G(self.width(s, v), v, Box::new(self.sub(s, depth + 1, budget)))
            }
        }
    }
}

// ----------------------------------------------------------------- damage ---

pub const DAMAGE: [&str; 11] = [
    "bit-flip", "byte-overwrite", "header-rewrite", "length-inflate", "zero-range", "truncate", "insert-byte", "delete-byte",
    "duplicate-range", "splice-record", "break-toggle",
];

/// one act of storage/transport damage; returns the kind that fired
pub fn damage(s: &mut Src, b: &mut Vec<u8>, marks: &[usize]) -> usize {
    let n = b.len();
    if n == 0 {
        b.push(s.draw(256) as u8);
        return 6;
    }
    let at = |s: &mut Src| -> usize {
        if !marks.is_empty() && s.chance(3, 4) {
            let m = marks[s.draw(marks.len() as u64) as usize];
            m.min(n - 1)
        } else {
            s.draw(n as u64) as usize
        }
    };
    const LEADS: [u8; 40] = [
        0x00, 0x17, 0x18, 0x1b, 0x1c, 0x1f, 0x20, 0x38, 0x3f, 0x40, 0x41, 0x58, 0x5b, 0x5e, 0x5f, 0x60, 0x61, 0x78, 0x7b, 0x7f, 0x80,
        0x81, 0x9b, 0x9f, 0xa0, 0xa1, 0xbb, 0xbf, 0xc0, 0xc2, 0xd8, 0xdf, 0xe0, 0xf4, 0xf7, 0xf8, 0xf9, 0xfb, 0xfc, 0xff,
    ];
    let kind = s.draw(11) as usize;
    let p = at(s);
    match kind {
        0 => b[p] ^= 1 << s.draw(8),
        1 => b[p] = s.draw(256) as u8,
        2 => b[p] = LEADS[s.draw(40) as usize],
        3 => {
            // absurd declared length/count at a header
            let major = if s.chance(1, 2) { b[p] & 0xe0 } else { [0x40u8, 0x60, 0x80, 0xa0][s.draw(4) as usize] };
            let w = [1usize, 2, 4, 8][s.draw(4) as usize];
            let code = match w {
                1 => 24,
                2 => 25,
                4 => 26,
                _ => 27,
            };
            let v: u64 = match s.draw(6) {
                0 => u64::MAX,
                1 => u64::MAX - s.draw(64),
                2 => i64::MAX as u64,
                3 => 1 << s.draw(64),
                4 => (n as u64) + s.draw(4),
                _ => s.u64(),
            };
            let mut ins = vec![major | code];
            ins.extend_from_slice(&v.to_be_bytes()[8 - w..]);
            b.splice(p..p + 1, ins);
        }
        4 => {
            let l = (1 + s.draw(16) as usize).min(n - p);
            for x in &mut b[p..p + l] {
                *x = 0
            }
        }
        5 => b.truncate(s.draw(n as u64) as usize),
        6 => {
            let v = if s.chance(1, 2) { LEADS[s.draw(40) as usize] } else { s.draw(256) as u8 };
            b.insert(p, v)
        }
        7 => {
            b.remove(p);
        }
        8 => {
            let l = (1 + s.draw(12) as usize).min(n - p);
            let c = b[p..p + l].to_vec();
            b.splice(p..p, c);
        }
        9 => {
            let q = at(s);
            let (a, z) = (p.min(q), p.max(q));
            let c = b[a..z].to_vec();
            let r = at(s).min(b.len());
            let e = (r + c.len()).min(b.len());
            b.splice(r..e, c);
        }
        _ => {
            if b[p] == 0xff {
                b.remove(p);
            } else {
                b.insert(p, 0xff)
            }
        }
    }
    kind
}
