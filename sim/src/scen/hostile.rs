//! The shared hostile world of C05, C06 and C11: a record log that rots, tears
//! and gets overwritten, peers that send damaged or hostile messages over
//! fragmenting connections, and scrubbers and servers that read all of it. What
//! reading means, and how it is judged, is up to the property's judge.
use crate::ctx::*;
use crate::refcbor::*;
use crate::rng::Src;
use crate::scen::c02::{item, Item};
use crate::zoo::{self, RecTy};

pub struct Msg {
    pub bytes: Vec<u8>,
    pub marks: Vec<usize>,
    pub rec: Option<RecTy>,
}

pub trait Judge {
    /// one message or stored record, as it is now
    fn msg(&mut self, c: &mut Ctx, m: &Msg) -> R;
    /// a run of stored records without boundaries
    fn log(&mut self, c: &mut Ctx, b: &[u8]) -> R;
    /// the end of the run
    fn end(&mut self, _c: &mut Ctx) -> R {
        Ok(())
    }
}

/// an int that sits at the edge of something
fn edge(s: &mut Src) -> u64 {
    const E: [u64; 20] = [
        0, 1, 2, 7, 23, 24, 31, 32, 33, 62, 63, 64, 65, 126, 127, 128, 255, 256, 0xffff_ffff, u64::MAX,
    ];
    match s.draw(8) {
        7 => s.u64(),
        6 => u64::MAX - s.draw(70),
        _ => E[s.draw(20) as usize],
    }
}

pub const RESTRUCT: [&str; 9] =
    ["member-dropped", "member-duplicated", "member-added", "member-retyped", "number-changed", "tag-changed", "members-swapped", "tag-removed", "tag-added"];

/// visit the `k`-th container/leaf in preorder
pub fn nth<'a>(n: &'a mut Node, k: &mut usize) -> Option<&'a mut Node> {
    if *k == 0 {
        return Some(n);
    }
    *k -= 1;
    match n {
        Node::A(_, v) => {
            for x in v {
                if let Some(r) = nth(x, k) {
                    return Some(r);
                }
            }
            None
        }
        Node::M(_, v) => {
            for (a, b) in v {
                if let Some(r) = nth(a, k) {
                    return Some(r);
                }
                if let Some(r) = nth(b, k) {
                    return Some(r);
                }
            }
            None
        }
        Node::G(_, _, x) => nth(x, k),
        _ => None,
    }
}
pub fn size(n: &Node) -> usize {
    1 + match n {
        Node::A(_, v) => v.iter().map(size).sum(),
        Node::M(_, v) => v.iter().map(|(a, b)| size(a) + size(b)).sum(),
        Node::G(_, _, x) => size(x),
        _ => 0,
    }
}
fn fix(l: &mut Option<W>, n: usize) {
    if let Some(w) = l {
        if *w < min_w(n as u64) {
            *l = Some(min_w(n as u64))
        }
    }
}
fn small(s: &mut Src) -> Node {
    match s.draw(8) {
        0 => Node::U(0, s.draw(24)),
        1 => {
            let v = edge(s);
            Node::U(min_w(v), v)
        }
        2 => Node::C(s.draw(4) as u8),
        3 => Node::T(Str::D(0, b"x".to_vec())),
        4 => Node::B(Str::D(0, vec![1, 2, 3, 4])),
        5 => Node::A(Some(0), vec![]),
        6 => Node::M(Some(0), vec![]),
        _ => Node::N(0, s.draw(24)),
    }
}

/// one structural change of a record that stays well-formed; None: no place for it
pub fn restruct(s: &mut Src, nodes: &mut Vec<Node>) -> Option<&'static str> {
    let total: usize = nodes.iter().map(size).sum();
    let kind = s.draw(9) as usize;
    let at_top = s.chance(1, 2);
    let mut k = if at_top { 0 } else { s.draw(total as u64) as usize };
    if nodes.is_empty() {
        nodes.push(small(s));
        return Some(RESTRUCT[2]);
    }
    // flat records: the top sequence itself is a place
    if kind < 3 && s.chance(1, 6) {
        let i = s.draw(nodes.len() as u64) as usize;
        match kind {
            0 => {
                nodes.remove(i);
            }
            1 => {
                let x = nodes[i].clone();
                nodes.insert(i, x)
            }
            _ => nodes.push(small(s)),
        }
        return Some(RESTRUCT[kind]);
    }
    let mut target = None;
    for n in nodes.iter_mut() {
        if let Some(t) = nth(n, &mut k) {
            target = Some(t);
            break;
        }
    }
    let t = target?;
    match kind {
        0 => match t {
            Node::A(l, v) if !v.is_empty() => {
                let i = if s.chance(1, 2) { v.len() - 1 } else { s.draw(v.len() as u64) as usize };
                v.remove(i);
                fix(l, v.len());
            }
            Node::M(l, v) if !v.is_empty() => {
                let i = s.draw(v.len() as u64) as usize;
                v.remove(i);
                fix(l, v.len());
            }
            Node::B(Str::D(w, v)) | Node::T(Str::D(w, v)) if !v.is_empty() => {
                v.pop();
                *w = min_w(v.len() as u64);
            }
            _ => return None,
        },
        1 => match t {
            Node::A(l, v) if !v.is_empty() => {
                let i = s.draw(v.len() as u64) as usize;
                let x = v[i].clone();
                v.insert(i, x);
                fix(l, v.len());
            }
            Node::M(l, v) if !v.is_empty() => {
                let i = s.draw(v.len() as u64) as usize;
                let x = v[i].clone();
                let j = s.draw(v.len() as u64 + 1) as usize;
                v.insert(j, x);
                fix(l, v.len());
            }
            _ => return None,
        },
        2 => match t {
            Node::A(l, v) => {
                let i = if s.chance(2, 3) { v.len() } else { s.draw(v.len() as u64 + 1) as usize };
                v.insert(i, small(s));
                fix(l, v.len());
            }
            Node::M(l, v) => {
                let key = if s.chance(3, 4) {
                    let x = edge(s);
                    Node::U(min_w(x), x)
                } else {
                    small(s)
                };
                let val = small(s);
                let j = s.draw(v.len() as u64 + 1) as usize;
                v.insert(j, (key, val));
                fix(l, v.len());
            }
            Node::B(Str::D(w, v)) => {
                v.push(7);
                *w = min_w(v.len() as u64);
            }
            Node::T(Str::D(w, v)) => {
                v.push(b'+');
                *w = min_w(v.len() as u64);
            }
            _ => return None,
        },
        3 => *t = small(s),
        4 => match t {
            Node::U(w, v) => {
                let x = match s.draw(3) {
                    0 => v.wrapping_add(1),
                    1 => v.wrapping_sub(1),
                    _ => edge(s),
                };
                *v = x;
                *w = min_w(x);
            }
            Node::A(_, v) => match v.first_mut() {
                Some(Node::U(w, v)) => {
                    *v = edge(s);
                    *w = min_w(*v);
                }
                _ => return None,
            },
            Node::M(_, v) if !v.is_empty() => {
                let i = s.draw(v.len() as u64) as usize;
                match &mut v[i].0 {
                    Node::U(w, v) => {
                        *v = if s.chance(1, 2) { v.wrapping_add(64) } else { edge(s) };
                        *w = min_w(*v);
                    }
                    _ => return None,
                }
            }
            Node::N(w, v) => {
                *v = edge(s);
                *w = min_w(*v);
            }
            _ => return None,
        },
        5 => match t {
            Node::G(w, v, _) => {
                *v = if s.chance(1, 2) { v.wrapping_add(1) } else { edge(s) };
                *w = min_w(*v);
            }
            _ => return None,
        },
        6 => match t {
            Node::A(_, v) if v.len() > 1 => {
                let i = s.draw(v.len() as u64 - 1) as usize;
                v.swap(i, i + 1);
            }
            Node::M(_, v) if v.len() > 1 => {
                let i = s.draw(v.len() as u64 - 1) as usize;
                v.swap(i, i + 1);
            }
            _ => return None,
        },
        7 => match t {
            Node::G(_, _, x) => {
                let x = (**x).clone();
                *t = x;
            }
            _ => return None,
        },
        _ => {
            let x = t.clone();
            let v = [0u64, 2, 3, 5, 24, 30, 258][s.draw(7) as usize];
            *t = Node::G(min_w(v), v, Box::new(x));
        }
    }
    Some(RESTRUCT[kind])
}

/// a foreign encoder's liberties: same data, other widths, lengths and orders
pub fn foreign(s: &mut Src, n: &Node, widths: u64, indef: u64, shuffle: bool) -> Node {
    let w = |s: &mut Src, v: u64| -> W {
        let m = min_w(v);
        if s.chance(widths, 100) {
            let all: Vec<W> = [0u8, 1, 2, 4, 8].into_iter().filter(|x| *x >= m).collect();
            all[s.draw(all.len() as u64) as usize]
        } else {
            m
        }
    };
    let len = |s: &mut Src, n: usize| -> Option<W> {
        if s.chance(indef, 100) {
            None
        } else {
            Some(w(s, n as u64))
        }
    };
    let string = |s: &mut Src, b: &[u8], text: bool| -> Str {
        if s.chance(indef, 100) {
            let mut out = vec![];
            let mut at = 0;
            let empty = s.chance(1, 4);
            while at < b.len() || (empty && s.chance(1, 4)) {
                // an empty chunk is as good as any
                if empty && s.chance(1, 4) || at == b.len() {
                    out.push((w(s, 0), vec![]));
                    continue;
                }
                let mut l = (1 + s.draw(8) as usize).min(b.len() - at);
                if text {
                    while at + l < b.len() && b[at + l] & 0xc0 == 0x80 {
                        l += 1
                    }
                }
                out.push((w(s, l as u64), b[at..at + l].to_vec()));
                at += l;
            }
            Str::I(out)
        } else {
            Str::D(w(s, b.len() as u64), b.to_vec())
        }
    };
    match n {
        Node::U(_, v) => Node::U(w(s, *v), *v),
        Node::N(_, v) => Node::N(w(s, *v), *v),
        Node::B(x) => Node::B(string(s, &x.concat(), false)),
        Node::T(x) => Node::T(string(s, &x.concat(), true)),
        Node::A(_, v) => {
            let v: Vec<Node> = v.iter().map(|x| foreign(s, x, widths, indef, shuffle)).collect();
            Node::A(len(s, v.len()), v)
        }
        Node::M(_, v) => {
            let mut v: Vec<(Node, Node)> = v
                .iter()
                .map(|(a, b)| (foreign(s, a, widths, indef, shuffle), foreign(s, b, widths, indef, shuffle)))
                .collect();
            if shuffle && v.len() > 1 {
                for i in (1..v.len()).rev() {
                    let j = s.draw(i as u64 + 1) as usize;
                    v.swap(i, j);
                }
            }
            Node::M(len(s, v.len()), v)
        }
        Node::G(_, t, x) => {
            let w = w(s, *t);
            Node::G(w, *t, Box::new(foreign(s, x, widths, indef, shuffle)))
        }
        x => x.clone(),
    }
}

/// no container nesting beyond what recursion in the judge itself can follow
pub fn shallow(b: &[u8]) -> bool {
    b.iter().filter(|x| matches!(**x >> 5, 4 | 5 | 6)).take(1201).count() <= 1200
}

/// a number of levels, mostly next to a size somebody could have had in mind
pub fn depth(s: &mut Src) -> usize {
    match s.draw(4) {
        0 => 1 + s.draw(12) as usize,
        1 => 1 + s.draw(140) as usize,
        _ => {
            let p = [8usize, 16, 32, 64, 100, 128, 256][s.draw(7) as usize];
            p + s.draw(4) as usize - 2
        }
    }
}

/// one level of nesting: what opens and what closes it
pub const LEVELS: [(&[u8], &[u8]); 12] = [
    (&[0x81], &[]),
    (&[0x82, 0x01], &[]),
    (&[0x82], &[0x01]),
    (&[0x9f], &[0xff]),
    (&[0x9f, 0x01], &[0x02, 0xff]),
    (&[0xa1, 0x00], &[]),
    (&[0xa1], &[0x00]),
    (&[0xbf, 0x00], &[0xff]),
    (&[0xbf], &[0x00, 0xff]),
    (&[0xc5], &[]),
    (&[0xd8, 0x18], &[]),
    (&[0xa2, 0x00, 0x01], &[0x02]),
];

/// what sits at the bottom: half of it is well-formed
pub const LEAVES: [&[u8]; 40] = [
    &[0x00],
    &[0x5f, 0xff],
    &[0x7f, 0xff],
    &[0x5f, 0x41, 0x01, 0xff],
    &[0x7f, 0x61, b'a', 0xff],
    &[0x80],
    &[0xa0],
    &[0x9f, 0xff],
    &[0xbf, 0xff],
    &[0xf6],
    &[0xf8, 0x20],
    &[0xfb, 0, 0, 0, 0, 0, 0, 0, 0],
    &[0x42, 1, 2],
    &[0x62, b'a', b'b'],
    &[0xc1, 0x00],
    &[0xbf, 0x00, 0x00, 0xff],
    // not in order
    &[0x5f, 0x80, 0xff],
    &[0x5f, 0x61, b'a', 0xff],
    &[0x7f, 0x41, 0x00, 0xff],
    &[0x5f, 0xc1, 0x41, 0x00, 0xff],
    &[0x5f, 0x00, 0xff],
    &[0x7f, 0xf6, 0xff],
    &[0x5f, 0x5f, 0x41, 0x00, 0xff, 0xff],
    &[0x7f, 0x7f, 0xff, 0xff],
    &[0x7f, 0xa0, 0xff],
    &[0x5f, 0x9f, 0xff, 0xff],
    &[0xbf, 0x00, 0xff],
    &[0xa1, 0x00, 0xff],
    &[0x81, 0xff],
    &[0xc1, 0xff],
    &[0xff],
    &[0x1c],
    &[0x3d],
    &[0xfe],
    &[0xf8, 0x10],
    &[0x1f],
    &[0xdf, 0x00],
    &[0x9c],
    &[0x58],
    &[],
];

pub fn nested(s: &mut Src, depth: usize, leaf: &[u8], one: Option<usize>) -> Vec<u8> {
    let mut o: Vec<u8> = vec![];
    let mut close: Vec<&[u8]> = vec![];
    for _ in 0..depth {
        let (a, z) = LEVELS[one.unwrap_or_else(|| s.draw(LEVELS.len() as u64) as usize)];
        o.extend_from_slice(a);
        close.push(z);
    }
    o.extend_from_slice(leaf);
    for z in close.iter().rev() {
        o.extend_from_slice(z);
    }
    o
}

/// what a hostile peer makes up
pub fn crafted(c: &mut Ctx, g: &Gen, huge: u64) -> Msg {
    let s = &mut c.s;
    let mut b: Vec<u8> = vec![];
    const CONT: [&[u8]; 10] =
        [&[0x81], &[0x9f], &[0xc1], &[0xa1, 0x00], &[0xbf, 0x00], &[0xd8, 0x18], &[0xa1], &[0x82], &[0xbf], &[0x5f]];
    let name: &'static str = match s.draw(11) {
        10 => {
            // properly closed levels around a leaf that is, or is not, in order
            let depth = depth(s);
            let leaf: &[u8] = LEAVES[s.draw(LEAVES.len() as u64) as usize];
            let one = if s.chance(1, 3) { Some(s.draw(LEVELS.len() as u64) as usize) } else { None };
            b = nested(s, depth, leaf, one);
            if s.chance(1, 3) {
                let drop = s.draw(b.len() as u64) as usize;
                b.truncate(b.len() - drop.min(3));
            }
            "deep-leaf"
        }
        0 => "empty-message",
        1 => {
            let n = 1 + s.draw(40);
            for _ in 0..n {
                b.push(s.draw(256) as u8)
            }
            "garbage"
        }
        2 | 3 => {
            // only headers, mostly plausible
            let n = 1 + s.draw(14);
            const H: [u8; 32] = [
                0x00, 0x17, 0x18, 0x20, 0x38, 0x40, 0x41, 0x58, 0x5f, 0x60, 0x61, 0x78, 0x7f, 0x80, 0x81, 0x82, 0x98, 0x9f, 0xa0, 0xa1, 0xb8,
                0xbf, 0xc0, 0xc2, 0xd8, 0xe0, 0xf4, 0xf6, 0xf8, 0xf9, 0xff, 0xff,
            ];
            for _ in 0..n {
                b.push(H[s.draw(32) as usize])
            }
            if s.chance(1, 2) {
                let opened = b.iter().filter(|x| matches!(**x, 0x5f | 0x7f | 0x9f | 0xbf)).count();
                for _ in 0..opened {
                    b.push(0xff)
                }
            }
            "header-soup"
        }
        4 => {
            // deep nesting
            let n = if s.chance(huge, 1000) {
                [100_000usize, 300_000, 1_000_000][s.draw(3) as usize]
            } else {
                [40usize, 300, 1000, 3000][s.draw(4) as usize]
            };
            let k = s.draw(10) as usize;
            let mixed = s.chance(1, 4);
            for i in 0..n {
                let k = if mixed { (i * 7 + k) % 9 } else { k };
                b.extend_from_slice(CONT[k]);
            }
            match s.draw(3) {
                0 => (),
                1 => b.push(0),
                _ => {
                    b.push(0);
                    for _ in 0..n {
                        b.push(0xff)
                    }
                }
            }
            "deep-nesting"
        }
        5 | 6 => {
            // absurd declared length, possibly inside something plausible
            for _ in 0..s.draw(4) {
                b.extend_from_slice(CONT[s.draw(7) as usize]);
            }
            let major = [0x40u8, 0x60, 0x80, 0xa0][s.draw(4) as usize];
            match s.draw(4) {
                0 => {
                    b.push(major | 26);
                    let v = [u32::MAX, 0x7fff_ffff, 0x8000_0000, 1 << 24][s.draw(4) as usize];
                    b.extend_from_slice(&v.to_be_bytes());
                }
                _ => {
                    b.push(major | 27);
                    let v = match s.draw(6) {
                        0 => u64::MAX,
                        1 => u64::MAX - s.draw(40),
                        2 => i64::MAX as u64 + s.draw(2),
                        3 => 1 << (32 + s.draw(32)),
                        4 => u64::MAX / (1 + s.draw(64)),
                        _ => 1 << 40,
                    };
                    b.extend_from_slice(&v.to_be_bytes());
                }
            }
            for _ in 0..s.draw(12) {
                b.push([0u8, 0x41, 0x61, 0x80, 0xff, 0xf6][s.draw(6) as usize])
            }
            "absurd-length"
        }
        7 => {
            // very many tiny members
            let n = if s.chance(huge, 300) { [10_000usize, 65_536, 200_000][s.draw(3) as usize] } else { [24usize, 256, 700][s.draw(3) as usize] };
            let (o, x, e): (u8, u8, &[u8]) = [
                (0x9fu8, 0x00u8, &[0xffu8][..]),
                (0x9f, 0x80, &[0xff]),
                (0xbf, 0x00, &[0xff]),
                (0x5f, 0x40, &[0xff]),
                (0x7f, 0x60, &[0xff]),
                (0x9f, 0xf6, &[]),
                (0x5f, 0x40, &[]),
                (0xbf, 0xf6, &[0xf6, 0xff]),
            ][s.draw(8) as usize];
            b.push(o);
            // one big member among them
            let at = if s.chance(1, 3) { [0, n / 2, n - 1][s.draw(3) as usize] } else { n };
            for i in 0..n {
                if i == at {
                    let l = [300u16, 4096, 20_000][s.draw(3) as usize];
                    b.push(if o == 0x7f { 0x79 } else { 0x59 });
                    b.extend_from_slice(&l.to_be_bytes());
                    b.extend(std::iter::repeat(b'm').take(l as usize));
                    if o == 0xbf {
                        b.push(0)
                    }
                }
                b.push(x)
            }
            b.extend_from_slice(e);
            "many-members"
        }
        8 => {
            // text that is not UTF-8, definite or chunked, maybe nested
            for _ in 0..s.draw(3) {
                b.extend_from_slice(CONT[s.draw(3) as usize]);
            }
            let bad: [&[u8]; 8] =
                [&[0xff], &[0xc3], &[0xe2, 0x82], &[0xed, 0xa0, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[0xc0, 0x80], &[0x80], &[b'a', 0xc3, 0x28]];
            let x = bad[s.draw(8) as usize];
            match s.draw(3) {
                0 => {
                    b.push(0x60 | x.len() as u8);
                    b.extend_from_slice(x);
                }
                1 => {
                    // split in the middle of a character: valid only as a whole
                    b.extend_from_slice(&[0x7f, 0x61, 0xc3, 0x61, 0xa9, 0xff]);
                }
                _ => {
                    b.push(0x7f);
                    b.extend_from_slice(&[0x61, b'o']);
                    b.push(0x60 | x.len() as u8);
                    b.extend_from_slice(x);
                    b.push(0xff);
                }
            }
            for _ in 0..s.draw(3) {
                b.push(0xff)
            }
            "not-utf8"
        }
        _ => {
            // standard tags around the wrong things
            let n = g.node(s);
            let t = [0u64, 1, 2, 3, 4, 24, 30][s.draw(7) as usize];
            let inner = match s.draw(3) {
                0 => n,
                1 => Node::A(Some(0), vec![n, small(s)]),
                _ => Node::A(Some(0), vec![Node::G(0, 2 + s.draw(2), Box::new(Node::B(Str::D(0, vec![])))), n]),
            };
            b = Node::G(min_w(t), t, Box::new(inner)).enc();
            "wrong-tag-content"
        }
    };
    c.fault(name, 9);
    Msg { bytes: b, marks: vec![], rec: None }
}

fn hurt(c: &mut Ctx, m: &mut Msg) {
    let k = 1 + c.s.weighted(&[6, 2, 1]);
    for _ in 0..k {
        let d = damage(&mut c.s, &mut m.bytes, &m.marks);
        c.fault(DAMAGE[d], 3);
    }
}

fn msg(it: Item) -> Msg {
    Msg { bytes: it.bytes, marks: it.marks, rec: it.rec }
}

/// a valid message, then possibly changed on the way
fn transmit(c: &mut Ctx, g: &Gen, recs: &[RecTy], p: u64) -> Msg {
    let mut it = item(c, g, recs, p);
    if !c.calm {
        match c.s.weighted(&[2, 5, 3]) {
            1 => {
                let mut m = msg(it);
                hurt(c, &mut m);
                return m;
            }
            2 => {
                for _ in 0..1 + c.s.draw(2) {
                    if let Some(n) = restruct(&mut c.s, &mut it.nodes) {
                        c.fault(n, 3);
                    }
                }
                let (mut b, mut marks) = (vec![], vec![]);
                for n in &it.nodes {
                    let (x, m) = n.enc_marks();
                    marks.extend(m.iter().map(|y| y + b.len()));
                    b.extend(x);
                }
                return Msg { bytes: b, marks, rec: it.rec };
            }
            _ => (),
        }
    }
    msg(it)
}

pub fn world(c: &mut Ctx, j: &mut dyn Judge, huge: u64) -> R {
    c.calm = c.s.chance(1, 20);
    let g = Gen::swarm(&mut c.s);
    let recs = zoo::all();
    let p = [30, 0, 80][c.s.draw(3) as usize];
    let mut log: Vec<Msg> = vec![];
    let mut synced = 0;
    let mut conns: Vec<(Vec<u8>, Pipe)> = (0..3).map(|_| (vec![], Pipe::default())).collect();
    let steps = 2 + c.s.draw(14);
    for _ in 0..steps {
        c.now += 1 + c.s.draw(10_000);
        match c.s.weighted(&[5, 5, 4, 4, 3, 3, 1]) {
            0 => {
                let it = item(c, &g, &recs, p);
                c.ev("append", 0, it.bytes.len() as u64);
                log.push(msg(it));
                if c.s.chance(1, 2) {
                    synced = log.len();
                }
            }
            1 => {
                let m = transmit(c, &g, &recs, p);
                c.ev("message", 1, m.bytes.len() as u64);
                c.data(&m.bytes);
                c.note(|| format!("message {}", hex(&m.bytes, 120)));
                j.msg(c, &m)?;
            }
            2 => {
                if c.calm {
                    continue;
                }
                let m = crafted(c, &g, huge);
                c.ev("hostile", 2, m.bytes.len() as u64);
                c.data(&m.bytes);
                c.note(|| format!("hostile {}", hex(&m.bytes, 120)));
                j.msg(c, &m)?;
            }
            3 => {
                // rot at rest
                if log.is_empty() || c.calm {
                    continue;
                }
                let i = c.s.draw(log.len() as u64) as usize;
                let mut m = log.remove(i);
                if log.len() > 0 && c.s.chance(1, 8) {
                    // a write that went to the wrong place
                    let o = c.s.draw(log.len() as u64) as usize;
                    let src = log[o].bytes.clone();
                    if !m.bytes.is_empty() {
                        let p = c.s.draw(m.bytes.len() as u64) as usize;
                        let e = (p + src.len()).min(m.bytes.len());
                        m.bytes.splice(p..e, src[..e - p].to_vec());
                    }
                    c.fault("misdirected-write", 0);
                } else {
                    hurt(c, &mut m);
                }
                c.data(&m.bytes);
                c.note(|| format!("record {} rots to {}", i, hex(&m.bytes, 120)));
                log.insert(i, m);
            }
            4 => {
                // scrub: each record by itself, and the log without boundaries
                if log.is_empty() {
                    continue;
                }
                let i = c.s.draw(log.len() as u64) as usize;
                c.ev("scrub", 4, i as u64);
                j.msg(c, &log[i])?;
                let all: Vec<u8> = log[i..].iter().flat_map(|m| m.bytes.iter().copied()).collect();
                j.log(c, &all)?;
            }
            5 => {
                // a stream that fragments, stalls and breaks
                let k = c.s.draw(3) as usize;
                let m = if c.chaos(1, 4) { crafted(c, &g, 0) } else { transmit(c, &g, &recs, p) };
                let (mut buf, mut pipe) = std::mem::take(&mut conns[k]);
                let mut n = 0;
                for (t, f) in pipe.send(c, k as u64, &m.bytes) {
                    c.now = c.now.max(t);
                    buf.extend_from_slice(&f);
                    c.ev("data", k as u64, f.len() as u64);
                    n += 1;
                    if n < 4 {
                        let part = Msg { bytes: buf.clone(), marks: vec![], rec: m.rec };
                        j.msg(c, &part)?;
                        if c.chaos(1, 8) {
                            c.fault("connection-reset", k as u64);
                            buf.clear();
                            pipe.reset();
                            break;
                        }
                    }
                }
                if buf.len() > 4096 || c.s.chance(1, 2) {
                    buf.clear();
                }
                conns[k] = (buf, pipe);
            }
            _ => {
                // crash: the unsynced tail is lost, torn, or comes back as zeros
                if c.calm || log.is_empty() {
                    continue;
                }
                c.fault("crash", 0);
                log.truncate(synced.max(1).min(log.len()));
                let mut tail = item(c, &g, &recs, p);
                let keep = c.s.draw(tail.bytes.len() as u64) as usize;
                match c.s.draw(3) {
                    0 => {
                        tail.bytes.truncate(keep);
                        c.fault("torn-write", 0);
                    }
                    1 => {
                        for x in &mut tail.bytes[keep..] {
                            *x = 0
                        }
                        c.fault("zeroed-tail", 0);
                    }
                    _ => {
                        tail.bytes.clear();
                        c.fault("lost-write", 0);
                    }
                }
                let m = msg(tail);
                c.data(&m.bytes);
                j.msg(c, &m)?;
                log.push(m);
                let all: Vec<u8> = log.iter().flat_map(|m| m.bytes.iter().copied()).collect();
                j.log(c, &all)?;
                synced = log.len();
            }
        }
    }
    j.end(c)
}
