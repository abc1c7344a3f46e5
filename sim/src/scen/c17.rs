//! Peers that let refusals guide them: a dispatcher that picks its next step from
//! nothing but the last refusal, and acceptors on damaged data. What a refusal
//! reports is checked against the bytes.
use crate::api::*;
use crate::ctx::*;
use crate::entry::*;
use crate::refcbor::*;
use crate::scen::c02::{item, Item};
use crate::scen::hostile::{self, Judge, Msg};
use crate::zoo::{self, RecTy};
use cbored::state::State;
use cbored::validate::Validator;
use cbored::*;

pub const RULE: &str = "a run is either 1-3 connections whose parser chooses every next attempt from the facts of the last refusal (type, tag, range, size, position, shortfall) under fragmentation, stalls, resets and retransmission, or a hostile world (rot, misdirected and torn writes, damaged and made-up messages); every refusal is checked against the bytes it was about; non-trivial: at least one fault fired and at least one refusal was judged; distinct by the hash of every event and payload";

/// what the bytes in front of a reader are
pub struct Truth {
    w: Wf,
    node: Option<Node>,
    kind: Option<Kind>,
    tag: Option<u64>,
    missing: bool,
    /// what the structural machine says, where the element is malformed
    exact: Option<Fact>,
    bad: Vec<Fact>,
}

pub fn truth(b: &[u8]) -> Truth {
    let w = wf(b);
    let mut bad = vec![];
    let mut exact = None;
    let mut missing = w == Wf::Incomplete;
    if let Wf::Bad(at) = w {
        let here = &b[at..];
        if let Ok(Lead::Val { major: 2 | 3, v, size, .. }) = lead(here) {
            // the content of the misplaced string may be asked for first
            missing = v > (here.len() - size) as u64;
        }
        let st = |s: &'static str| Fact::State(s);
        let x = match offence(b, at) {
            Off::Reserved(x) if x & 31 == 31 => Fact::Indefinite(x),
            Off::Reserved(x) => Fact::Reserved(x),
            o @ (Off::BreakOutside | Off::BreakDefinite | Off::BreakOdd) => {
                bad.extend([st("break-outside"), st("break-in-definite"), st("structure-not-finished"), Fact::Break]);
                st(match o {
                    Off::BreakOutside => "break-outside",
                    Off::BreakDefinite => "break-in-definite",
                    _ => "structure-not-finished",
                })
            }
            Off::Chunk(m, l) => {
                if at > 0 && kind_at(b) == Some(if m == 2 { Kind::Bytes } else { Kind::Text }) {
                    let k = kind_at(here).unwrap_or(Kind::Break);
                    bad.push(match (m, l) {
                        (2, Lead::Indef { major: 2 }) => Fact::BytesInBytes,
                        (3, Lead::Indef { major: 3 }) => Fact::TextInText,
                        (2, _) => Fact::InBytes(k),
                        _ => Fact::InText(k),
                    });
                }
                st(match l {
                    Lead::Indef { major: 2 | 3 } => "chunks-in-chunks",
                    Lead::Indef { .. } | Lead::Val { major: 4 | 5, .. } => "structure-in-chunks",
                    Lead::Val { major: 6, .. } => "tag-in-chunks",
                    _ => "type-in-chunks",
                })
            }
        };
        bad.push(x.clone());
        exact = Some(x);
    }
    let node = parse(b).map(|x| x.0);
    let tag = match lead(b) {
        Ok(Lead::Val { major: 6, v, .. }) => Some(v),
        _ => None,
    };
    Truth { w, node, kind: kind_at(b), tag, missing, exact, bad }
}

impl Truth {
    fn end(&self) -> Option<usize> {
        match self.w {
            Wf::Ok(e) => Some(e),
            _ => None,
        }
    }
}

fn utf8_fact(b: &[u8]) -> Option<Fact> {
    std::str::from_utf8(b).err().map(|e| Fact::Utf8(e.valid_up_to(), e.error_len()))
}

/// what a text read of the bytes can run into, chunk by complete chunk
fn text_facts(b: &[u8]) -> Vec<Fact> {
    let mut out = vec![];
    let mut at = 0;
    let open = matches!(lead(b), Ok(Lead::Indef { major: 3 }));
    if open {
        at = 1
    }
    while let Ok(Lead::Val { major: 3, v, size, .. }) = lead(&b[at..]) {
        let from = at + size;
        if v > (b.len() - from) as u64 {
            break;
        }
        at = from + v as usize;
        out.extend(utf8_fact(&b[from..at]));
        if !open {
            break;
        }
    }
    out
}

/// every text in a tree
fn tree_texts(n: &Node, out: &mut Vec<Fact>) {
    match n {
        Node::T(Str::D(_, b)) => out.extend(utf8_fact(b)),
        Node::T(Str::I(c)) => out.extend(c.iter().filter_map(|x| utf8_fact(&x.1))),
        _ => kids(n).into_iter().for_each(|k| tree_texts(k, out)),
    }
}
fn kids(n: &Node) -> Vec<&Node> {
    match n {
        Node::A(_, v) => v.iter().collect(),
        Node::M(_, v) => v.iter().flat_map(|(k, x)| [k, x]).collect(),
        Node::G(_, _, x) => vec![x],
        _ => vec![],
    }
}
fn walk<'a>(n: &'a Node, f: &mut dyn FnMut(&'a Node)) {
    f(n);
    for k in kids(n) {
        walk(k, f)
    }
}

const CONSTS: &[Kind] = &[Kind::False, Kind::True, Kind::Null, Kind::Undefined];

/// the types a read asks for; none: any
fn wants(name: &str) -> &'static [Kind] {
    match name {
        "positive" | "u8" | "u16" | "u32" | "u64" | "from-bytes-u64" => &[Kind::Positive],
        "negative" => &[Kind::Negative],
        "scalar" => &[Kind::Positive, Kind::Negative],
        "byte" => &[Kind::Byte],
        "float" => &[Kind::Float],
        "constant" => CONSTS,
        "null" => &[Kind::Null],
        "undefined" => &[Kind::Undefined],
        "bool" | "from-bytes-bool" => &[Kind::False, Kind::True],
        "bytes" | "vec-u8" | "u8x4" | "u8x32" | "u8x0" | "from-bytes-bytes" => &[Kind::Bytes],
        "text" | "string" | "from-bytes-string" => &[Kind::Text],
        "array" | "decode-vec" => &[Kind::Array],
        "map" => &[Kind::Map],
        "tag" | "std-date" | "std-pos" | "std-neg" | "std-enc" | "std-rat" | "typed-rat" | "from-bytes-bignum" => &[Kind::Tag],
        _ => &[],
    }
}
fn wants_tag(name: &str) -> Option<u64> {
    Some(match name {
        "std-date" => 0,
        "std-pos" | "from-bytes-bignum" => 2,
        "std-neg" => 3,
        "std-enc" => 24,
        "std-rat" | "typed-rat" => 30,
        _ => return None,
    })
}
fn max_of(name: &str) -> Option<u64> {
    Some(match name {
        "u8" => 255,
        "u16" => 65535,
        "u32" => u32::MAX as u64,
        _ => return None,
    })
}
fn size_of(name: &str) -> Option<usize> {
    Some(match name {
        "u8x4" => 4,
        "u8x32" => 32,
        "u8x0" => 0,
        _ => return None,
    })
}

fn ty(want: &[Kind], got: Kind) -> Option<Fact> {
    if want.contains(&got) {
        return None;
    }
    let mut w = want.to_vec();
    w.sort_by_key(|k| *k as u8);
    Some(Fact::Type(w, got))
}

/// what can be said against the content of a standard tag
fn std_facts(t: u64, n: &Node, out: &mut Vec<Fact>) {
    match t {
        0 => match n {
            Node::T(_) => tree_texts(n, out),
            _ => out.extend(ty(&[Kind::Text], n.kind())),
        },
        30 => match n {
            Node::A(_, v) if v.len() == 2 => {
                let num = [Kind::Positive, Kind::Negative, Kind::Tag];
                let den = [Kind::Positive, Kind::Tag];
                for (m, want, tags) in [(&v[0], &num[..], &[2u64, 3][..]), (&v[1], &den[..], &[2u64][..])] {
                    match m {
                        Node::G(_, x, c) if tags.contains(x) => out.extend(ty(&[Kind::Bytes], c.kind())),
                        Node::G(_, x, _) => {
                            out.extend(tags.iter().map(|t| Fact::Tag(vec![*t], *x)));
                            out.push(Fact::Tag(tags.to_vec(), *x));
                        }
                        _ => out.extend(ty(want, m.kind())),
                    }
                }
            }
            Node::A(_, v) => out.push(Fact::Length(2, v.len())),
            _ => out.extend(ty(&[Kind::Array], n.kind())),
        },
        _ => out.extend(ty(&[Kind::Bytes], n.kind())),
    }
}

/// may this read of these bytes be refused with this fact?
fn allowed(name: &str, exact: bool, t: &Truth, b: &[u8], f: &Fact) -> bool {
    if let Fact::Missing(e, g) = f {
        return t.missing && e > g;
    }
    if t.bad.contains(f) {
        return true;
    }
    let k = match t.kind {
        Some(k) => k,
        None => return false,
    };
    let want = wants(name);
    if !want.is_empty() && !want.contains(&k) {
        return ty(want, k).as_ref() == Some(f);
    }
    if let (Some(w), Some(v)) = (wants_tag(name), t.tag) {
        if w != v {
            return *f == Fact::Tag(vec![w], v);
        }
    }
    if let (Fact::NotTerminated(at, rem, next), Some(end)) = (f, t.end()) {
        return exact && *at == end && end < b.len() && *rem == b.len() - end && *next == b[end];
    }
    if let (Fact::Rest(rem), Some(end)) = (f, t.end()) {
        return exact && end < b.len() && *rem == b.len() - end;
    }
    let mut ok = vec![];
    if let (Some(max), Ok(Lead::Val { v, .. })) = (max_of(name), lead(b)) {
        if v > max {
            ok.push(Fact::Range(0, max, v))
        }
    }
    if k == Kind::Text {
        ok.extend(text_facts(b));
    }
    match &t.node {
        Some(n) => {
            if let (Some(s), Node::B(x)) = (size_of(name), n) {
                let l = x.concat().len();
                if l != s {
                    ok.push(Fact::Size(s, l))
                }
            }
            match (name, n) {
                ("data" | "typed-deep" | "decode-vec", n) => tree_texts(n, &mut ok),
                (_, Node::G(_, v, c)) if wants_tag(name) == Some(*v) => std_facts(*v, c, &mut ok),
                _ => (),
            }
        }
        None => {
            if wants_tag(name) == Some(0) {
                if let Ok(Lead::Val { size, .. }) = lead(b) {
                    ok.extend(text_facts(&b[size..]))
                }
            }
        }
    }
    ok.contains(f)
}

/// what no refusal may say, whatever it is about
fn sane(f: &Fact) -> bool {
    match f {
        Fact::Missing(e, g) => e > g,
        Fact::Type(e, g) => !e.is_empty() && !e.contains(g),
        Fact::Tag(e, g) => !e.is_empty() && !e.contains(g),
        Fact::Length(e, g) | Fact::Size(e, g) => e != g,
        Fact::Range(min, max, got) => min <= max && (got < min || got > max),
        Fact::Reserved(b) => (28..=30).contains(&(b & 31)),
        Fact::Indefinite(b) => b & 31 == 31 && matches!(b >> 5, 0 | 1 | 6),
        Fact::NotTerminated(_, rem, _) | Fact::Rest(rem) => *rem > 0,
        Fact::Utf8(_, e) => !matches!(e, Some(0)),
        _ => true,
    }
}

fn clear() {
    LAST.with(|l| *l.borrow_mut() = None);
}
fn last() -> Option<Fact> {
    LAST.with(|l| l.borrow_mut().take())
}

fn lie<T>(who: &str, b: &[u8], t: &Truth, f: &Option<Fact>) -> R<T> {
    let class = match f {
        Some(Fact::Missing(..)) => "missing-lie",
        Some(Fact::Type(..)) => "type-lie",
        Some(Fact::Tag(..)) => "tag-lie",
        Some(Fact::NotTerminated(..)) | Some(Fact::Rest(_)) => "position-lie",
        Some(Fact::Range(..)) | Some(Fact::Length(..)) | Some(Fact::Size(..)) => "size-lie",
        Some(Fact::Reserved(_)) | Some(Fact::Indefinite(_)) => "lead-lie",
        Some(Fact::Utf8(..)) => "text-lie",
        Some(_) => "structure-lie",
        None => "no-fact",
    };
    let what = match (t.w, &t.exact) {
        (_, Some(x)) => format!("malformed: {:?}", x),
        (Wf::Ok(e), _) => format!("a complete {:?} of {} bytes", t.kind, e),
        _ => format!("an incomplete {:?}", t.kind),
    };
    viol(class, format!("{} refuses {} ({}) with {:?}", who, hex(b, 80), what, f))
}

/// one read attempt; what it gave, or the refusal (which is true)
fn ask(c: &mut Ctx, e: &Entry, r: &mut Reader, b: &[u8], t: &Truth) -> R<Result<Vec<u8>, Fact>> {
    let mut st = c.style();
    clear();
    c.ops += 1;
    c.probe(e.name);
    match (e.run)(r, &mut st) {
        Err(De::Bad(v)) => Err(v),
        Ok(x) => Ok(Ok(x)),
        Err(De::Lib(_)) => {
            let f = last();
            match f {
                Some(f) if sane(&f) && allowed(e.name, false, t, b, &f) => {
                    refused(c, &f);
                    Ok(Err(f))
                }
                f => lie(e.name, b, t, &f),
            }
        }
    }
}

fn ask_whole(c: &mut Ctx, e: &Whole, b: &[u8], t: &Truth) -> R<Result<(Vec<u8>, usize), Fact>> {
    let mut st = c.style();
    clear();
    c.ops += 1;
    c.probe(e.name);
    match (e.run)(b, &mut st) {
        Err(De::Bad(v)) => Err(v),
        Ok(x) => Ok(Ok(x)),
        Err(De::Lib(_)) => {
            let f = last();
            let ok = match &f {
                // the validator knows the whole nesting, and judges no text
                Some(f) if e.name == "validator" => sane(f) && (Some(f) == t.exact.as_ref() || (matches!(f, Fact::Missing(..)) && t.missing)),
                Some(f) => sane(f) && allowed(e.name, e.exact, t, b, f),
                None => false,
            };
            match f {
                Some(f) if ok => {
                    refused(c, &f);
                    Ok(Err(f))
                }
                f => lie(e.name, b, t, &f),
            }
        }
    }
}

fn refused(c: &mut Ctx, f: &Fact) {
    c.probe(match f {
        Fact::Missing(..) => "refused-missing",
        Fact::Type(..) => "refused-type",
        Fact::Tag(..) => "refused-tag",
        Fact::Range(..) => "refused-range",
        Fact::Size(..) => "refused-size",
        Fact::Length(..) => "refused-length",
        Fact::NotTerminated(..) | Fact::Rest(_) => "refused-trailing",
        Fact::Utf8(..) => "refused-utf8",
        Fact::Reserved(_) | Fact::Indefinite(_) => "refused-lead",
        Fact::Custom => "refused-custom",
        _ => "refused-structure",
    });
}

/// a derived type asked for on any bytes
fn ask_rec(c: &mut Ctx, r: &RecTy, b: &[u8], t: &Truth) -> R {
    let mut st = c.style();
    clear();
    c.ops += 1;
    let how = c.s.draw(if r.flat { 2 } else { 3 });
    let got = match how {
        0 => (r.dec)(b, &mut st).map(|_| ()),
        1 => (r.whole)(b, &mut st).map(|_| ()),
        _ => (r.typed)(b, &mut st).map(|_| ()),
    };
    match got {
        Err(De::Bad(v)) => return Err(v),
        Ok(()) => return Ok(()),
        Err(De::Lib(_)) => (),
    }
    let f = match last() {
        Some(f) => f,
        None => return lie(r.name, b, t, &None),
    };
    c.probe("refused-record");
    if !sane(&f) {
        return lie(r.name, b, t, &Some(f));
    }
    if r.flat {
        return Ok(());
    }
    // the form of the type tells what stands first
    let (ks, tags) = form(r);
    if let (1, Some(k)) = (ks.len(), t.kind) {
        let exp = if k != ks[0] {
            ty(&ks, k)
        } else {
            match t.tag {
                Some(v) if tags.len() == 1 && v != tags[0] => Some(Fact::Tag(tags.clone(), v)),
                _ => None,
            }
        };
        if let Some(x) = exp {
            if f != x && !t.bad.contains(&f) && !(t.missing && matches!(f, Fact::Missing(..))) {
                return viol("record-lie", format!("{} on {} is refused with {:?} instead of {:?}", r.name, hex(b, 60), f, x));
            }
        }
    }
    let ok = match (&f, t.end()) {
        (Fact::Missing(..), _) => t.missing,
        (Fact::Rest(rem), Some(end)) => how == 1 && *rem == b.len() - end,
        (Fact::NotTerminated(at, rem, next), Some(end)) => how == 1 && *at == end && *rem == b.len() - end && b.get(end) == Some(next),
        (Fact::Rest(_), None) | (Fact::NotTerminated(..), None) => false,
        (Fact::Custom, _) => true,
        // only one element is there, and the facts are about something in it
        (f, _) if t.bad.contains(f) => true,
        (Fact::Type(..), _) | (Fact::Tag(..), _) | (Fact::Range(..), _) | (Fact::Size(..), _) | (Fact::Length(..), _) | (Fact::Utf8(..), _) => match &t.node {
            Some(n) => {
                let mut hit = false;
                let mut texts = vec![];
                if let Fact::Utf8(..) = f {
                    tree_texts(n, &mut texts);
                    hit = texts.contains(&f);
                }
                walk(n, &mut |m| {
                    hit |= match (&f, m) {
                        (Fact::Type(_, g), m) => m.kind() == *g,
                        (Fact::Tag(_, g), Node::G(_, v, _)) => v == g,
                        (Fact::Range(_, _, g), Node::U(_, v)) => v == g,
                        (Fact::Size(_, g), Node::B(s)) => s.concat().len() == *g,
                        (Fact::Length(_, g), Node::A(_, v)) => v.len() == *g,
                        (Fact::Length(_, g), Node::M(_, v)) => v.len() == *g,
                        _ => false,
                    }
                });
                hit
            }
            // what stands first is known even if the rest is not there or is wrong
            None => match (&f, t.kind) {
                (Fact::Type(_, g), Some(k)) if kids_none(k) => *g == k,
                _ => true,
            },
        },
        _ => false,
    };
    if !ok {
        return lie(r.name, b, t, &Some(f));
    }
    refused(c, &f);
    Ok(())
}
/// types and tags that values of a record type start with
fn form(r: &RecTy) -> (Vec<Kind>, Vec<u64>) {
    use std::collections::BTreeMap;
    thread_local! {
        static FORMS: std::cell::RefCell<BTreeMap<&'static str, (Vec<Kind>, Vec<u64>)>> = const { std::cell::RefCell::new(BTreeMap::new()) };
    }
    FORMS.with(|m| {
        m.borrow_mut()
            .entry(r.name)
            .or_insert_with(|| {
                let mut s = crate::rng::Src::seeded(0xf0);
                let g = Gen::plain();
                let (mut ks, mut tags) = (vec![], vec![]);
                for _ in 0..300 {
                    let n = (r.gen)(&g, &mut s);
                    if let Some(x) = n.first() {
                        if !ks.contains(&x.kind()) {
                            ks.push(x.kind())
                        }
                        if let Node::G(_, t, _) = x {
                            if !tags.contains(t) {
                                tags.push(*t)
                            }
                        }
                    }
                }
                (ks, tags)
            })
            .clone()
    })
}

fn kids_none(k: Kind) -> bool {
    !matches!(k, Kind::Array | Kind::Map | Kind::Tag)
}

// ------------------------------------------------------- damaged and hostile ---

struct J {
    recs: Vec<RecTy>,
}

fn peek(c: &mut Ctx, b: &[u8], t: &Truth) -> R {
    let r = Reader::new(b);
    clear();
    c.ops += 1;
    match r.peek_type() {
        Ok(k) => {
            // a lead byte suffices to tell the type
            let mut full = b.to_vec();
            full.truncate(1);
            full.extend_from_slice(&[0; 8]);
            if b.is_empty() || kind_at(&full) != Some(kind_of(k)) {
                return viol("type-lie", format!("peek_type says {:?} of {}", k, hex(b, 20)));
            }
        }
        Err(e) => {
            let f = rfact(&e);
            let ok = match &f {
                Fact::Missing(e, g) => b.is_empty() && e > g,
                f => t.w == Wf::Bad(0) && t.exact.as_ref() == Some(f),
            };
            if !ok {
                return lie("peek_type", b, t, &Some(f));
            }
            refused(c, &f);
        }
    }
    Ok(())
}

/// the structural machine fed with the headers of `b`
fn machine(c: &mut Ctx, b: &[u8], t: &Truth) -> R {
    let mut s = State::new();
    let mut at = 0;
    c.ops += 1;
    while let Ok(l) = lead(&b[at..]) {
        match state_feed(&mut s, l) {
            Ok(()) => {
                if t.w == Wf::Bad(at) {
                    return viol("malformed-accepted", format!("the state machine takes the header at {} of {}", at, hex(b, 60)));
                }
            }
            Err(e) => {
                let f = sfact(&e);
                if t.w != Wf::Bad(at) || t.exact.as_ref() != Some(&f) {
                    return lie("state machine", b, t, &Some(f));
                }
                refused(c, &f);
                return Ok(());
            }
        }
        at += match l {
            Lead::Val { size, .. } => size,
            _ => 1,
        };
        if let Lead::Val { major: 2 | 3, v, .. } = l {
            if v > (b.len() - at) as u64 {
                break;
            }
            at += v as usize;
        }
        if s.acceptable() {
            break;
        }
    }
    Ok(())
}

impl Judge for J {
    fn msg(&mut self, c: &mut Ctx, m: &Msg) -> R {
        let b = &m.bytes[..];
        let t = truth(b);
        peek(c, b, &t)?;
        machine(c, b, &t)?;
        ask_whole(c, &WHOLES[0], b, &t)?.ok();
        if hostile::shallow(b) {
            for _ in 0..4 {
                // mostly what could fit
                let e = match t.kind {
                    Some(k) if c.s.chance(2, 3) => for_kind(c, k, t.tag),
                    _ => &ENTRIES[c.s.draw(ENTRIES.len() as u64) as usize],
                };
                let mut r = Reader::new(b);
                ask(c, e, &mut r, b, &t)?.ok();
            }
            for _ in 0..2 {
                let e = &WHOLES[c.s.draw(WHOLES.len() as u64) as usize];
                ask_whole(c, e, b, &t)?.ok();
            }
            let other = self.recs[c.s.draw(self.recs.len() as u64) as usize];
            ask_rec(c, &other, b, &t)?;
            if let Some(r) = &m.rec {
                ask_rec(c, r, b, &t)?;
            }
            if let Some(n) = &t.node {
                members(c, n, 0)?;
            }
        }
        Ok(())
    }
    fn log(&mut self, c: &mut Ctx, b: &[u8]) -> R {
        // a scrubber takes what it can and believes the first refusal
        let mut r = Reader::new(b);
        for _ in 0..200 {
            let at = r.consumed_bytes();
            let here = &b[at..];
            finished(c, &r, b)?;
            if here.is_empty() {
                break;
            }
            let t = truth(here);
            if !hostile::shallow(here) {
                break;
            }
            let e = match c.s.draw(3) {
                0 => &ENTRIES[0],
                1 => ENTRIES.iter().find(|e| e.name == "slice-of").unwrap(),
                _ => ENTRIES.iter().find(|e| e.name == "owned").unwrap(),
            };
            if ask(c, e, &mut r, here, &t)?.is_err() {
                break;
            }
        }
        let mut v = Validator::new(b);
        for _ in 0..200 {
            let at = b.len() - v.remaining_bytes();
            let here = &b[at..];
            let t = truth(here);
            c.ops += 1;
            match v.next() {
                Ok(_) => (),
                Err(e) => {
                    let f = vfact(&e);
                    if !(sane(&f) && (Some(&f) == t.exact.as_ref() || (matches!(f, Fact::Missing(..)) && t.missing))) {
                        return lie("validator", here, &t, &Some(f));
                    }
                    refused(c, &f);
                    break;
                }
            }
        }
        Ok(())
    }
}

/// what `expect_finished` says wherever the reader is
fn finished(c: &mut Ctx, r: &Reader, b: &[u8]) -> R {
    let at = r.consumed_bytes();
    match r.expect_finished() {
        Ok(()) if at == b.len() => Ok(()),
        Ok(()) => viol("position-lie", format!("finished at {} of {} bytes", at, b.len())),
        Err(e) => {
            let f = rfact(&e);
            if at < b.len() && f == Fact::NotTerminated(at, b.len() - at, b[at]) {
                c.probe("refused-trailing");
                return Ok(());
            }
            viol("position-lie", format!("after {} of {} the reader says {:?}", at, hex(b, 60), f))
        }
    }
}

/// ask the members of a container through readers of their own
fn members(c: &mut Ctx, n: &Node, depth: u32) -> R {
    let all = kids(n);
    if all.is_empty() || depth > 2 || !c.s.chance(1, 2) {
        return Ok(());
    }
    let whole = n.enc();
    let mut r = Reader::new(&whole);
    let i = c.s.draw(all.len() as u64) as usize;
    let m = all[i];
    let b = m.enc();
    let t = truth(&b);
    for k in 0..2 {
        let e = if k == 0 { &ENTRIES[c.s.draw(ENTRIES.len() as u64) as usize] } else { for_kind(c, m.kind(), t.tag) };
        let res = match n {
            Node::A(..) => match Reader::new(&whole).array() {
                Ok(a) => {
                    let mut mr = if c.s.chance(1, 2) { a[i].reader() } else { a.iter().nth(i).unwrap() };
                    ask(c, e, &mut mr, &b, &t)?
                }
                Err(e) => return viol("whole-refused", format!("array {}: {:?}", hex(&whole, 60), rfact(&e))),
            },
            Node::M(..) => match Reader::new(&whole).map() {
                Ok(a) => {
                    let (x, y) = a[i / 2];
                    let mut mr = if i % 2 == 0 { x.reader() } else { y.reader() };
                    ask(c, e, &mut mr, &b, &t)?
                }
                Err(e) => return viol("whole-refused", format!("map {}: {:?}", hex(&whole, 60), rfact(&e))),
            },
            _ => match r.tag() {
                Ok(a) => {
                    let mut mr = a.reader();
                    let x = ask(c, e, &mut mr, &b, &t)?;
                    r = Reader::new(&whole);
                    x
                }
                Err(e) => return viol("whole-refused", format!("tag {}: {:?}", hex(&whole, 60), rfact(&e))),
            },
        };
        if res.is_err() {
            c.probe("member-refusal");
        }
    }
    members(c, m, depth + 1)
}

// -------------------------------------------------------------- dispatcher ---

/// a read that suits an element of this type
fn for_kind(c: &mut Ctx, k: Kind, tag: Option<u64>) -> &'static Entry {
    let ok: Vec<&Entry> = ENTRIES
        .iter()
        .filter(|e| wants(e.name).contains(&k))
        .filter(|e| match (wants_tag(e.name), tag) {
            (Some(a), Some(b)) => a == b,
            _ => true,
        })
        .collect();
    if ok.is_empty() {
        return &ENTRIES[0];
    }
    ok[c.s.draw(ok.len() as u64) as usize]
}
fn named(name: &str) -> &'static Entry {
    ENTRIES.iter().find(|e| e.name == name).expect("entry")
}
/// a read that takes anything
fn any(c: &mut Ctx) -> &'static Entry {
    named(["data-write", "owned", "slice-of", "data-of"][c.s.draw(4) as usize])
}

enum Next {
    Ask(&'static Entry),
    /// this many bytes more
    Wait(usize),
    /// cannot be read as a value: step over
    Skip,
}

/// the parser's rule: nothing but the refusal and what it had asked for
fn advice(c: &mut Ctx, e: &Entry, f: &Fact) -> Next {
    Next::Ask(match f {
        Fact::Missing(e, g) => return Next::Wait(e - g),
        Fact::Type(exp, got) if ty(wants(e.name), *got).map_or(false, |x| x == Fact::Type(exp.clone(), *got)) => for_kind(c, *got, None),
        Fact::Tag(exp, got) if wants_tag(e.name).map_or(false, |t| exp == &[t]) => for_kind(c, Kind::Tag, Some(*got)),
        Fact::Range(_, _, got) => {
            let fit: Vec<&str> = [("u8", 255u64), ("u16", 65535), ("u32", u32::MAX as u64), ("u64", u64::MAX)].iter().filter(|x| *got <= x.1).map(|x| x.0).collect();
            named(fit[c.s.draw(fit.len() as u64) as usize])
        }
        Fact::Size(_, got) => match got {
            0 => named("u8x0"),
            4 => named("u8x4"),
            32 => named("u8x32"),
            _ => named("vec-u8"),
        },
        Fact::Utf8(..) => return Next::Skip,
        _ => any(c),
    })
}

struct Conn {
    items: Vec<Item>,
    /// the elements of all items, in order
    els: Vec<Node>,
    sent: Vec<u8>,
    buf: Vec<u8>,
    off: usize,
    next: usize,
    want: usize,
    ask: Option<&'static Entry>,
    refusals: u32,
    pipe: Pipe,
    resets: u32,
}

/// the parser does what it can with what is in the buffer
fn parse_on(c: &mut Ctx, k: &mut Conn, recs: &[RecTy]) -> R {
    while k.next < k.els.len() {
        if k.buf.len() < k.want {
            return Ok(());
        }
        let n = k.els[k.next].clone();
        let len = n.enc().len();
        let here = k.buf[k.off..].to_vec();
        let t = truth(&here);
        // bystanders: facts they are told change nothing for the parser
        if c.s.chance(1, 4) {
            match c.s.draw(3) {
                0 => peek(c, &here, &t)?,
                1 => {
                    let r = recs[c.s.draw(recs.len() as u64) as usize];
                    ask_rec(c, &r, &here, &t)?;
                }
                _ if t.node.is_some() => members(c, &n, 0)?,
                _ => machine(c, &here, &t)?,
            }
        }
        // a framed peer: the buffer is one message, the refusal says where it ends
        if c.s.chance(1, 6) {
            let ws: Vec<&Whole> = WHOLES.iter().filter(|w| w.exact && (w.exp)(&n).is_some()).collect();
            if !ws.is_empty() {
                let w = ws[c.s.draw(ws.len() as u64) as usize];
                match ask_whole(c, w, &here, &t)? {
                    Ok((b, _)) => {
                        if here.len() != len || Some(b) != (w.exp)(&n) {
                            return viol("result", format!("{} takes {} for {}", w.name, hex(&here, 60), n.short()));
                        }
                        taken(c, k, len);
                        continue;
                    }
                    Err(f) => {
                        let at = match f {
                            Fact::NotTerminated(at, ..) => at,
                            Fact::Rest(rem) => here.len() - rem,
                            Fact::Missing(e, g) => {
                                k.want = k.buf.len() + (e - g);
                                c.ev("wait", k.next as u64, (e - g) as u64);
                                continue;
                            }
                            f => return lie(w.name, &here, &t, &Some(f)),
                        };
                        // believed: what stands before is the message
                        let cut = &here[..at];
                        let t2 = truth(cut);
                        match ask_whole(c, w, cut, &t2)? {
                            Ok((b, _)) if at == len && Some(&b) == (w.exp)(&n).as_ref() => {
                                c.probe("resumed-at");
                                taken(c, k, len);
                                continue;
                            }
                            o => return viol("advice-useless", format!("{}: {} cut where the refusal says ({}): {:?}", w.name, hex(&here, 60), at, o.map(|x| hex(&x.0, 40)))),
                        }
                    }
                }
            }
        }
        let e = match k.ask {
            Some(e) => e,
            None => &ENTRIES[c.s.draw(ENTRIES.len() as u64) as usize],
        };
        let mut r = Reader::new(&here);
        c.ev("try", k.next as u64, k.refusals as u64);
        match ask(c, e, &mut r, &here, &t)? {
            Ok(b) => {
                if here.len() < len || expect(e, &n).as_ref() != Some(&b) || r.consumed_bytes() != len {
                    return viol("result", format!("{} reads {} from {}, consuming {}", e.name, hex(&b, 60), hex(&here, 60), r.consumed_bytes()));
                }
                finished(c, &r, &here)?;
                taken(c, k, len);
            }
            Err(f) => {
                let next = advice(c, e, &f);
                c.ev("refused", k.next as u64, 0);
                match next {
                    Next::Wait(d) => {
                        k.want = k.buf.len() + d;
                        k.ask = Some(e);
                        c.ev("wait", k.next as u64, d as u64);
                    }
                    Next::Ask(x) => {
                        k.refusals += 1;
                        k.ask = Some(x);
                    }
                    Next::Skip => {
                        // text that is none: the element's extent is all there is to learn
                        k.refusals += 1;
                        let mut v = Validator::new(&here);
                        match v.next() {
                            Ok((_, d)) if d == len => {
                                c.probe("dropped-malformed");
                                taken(c, k, len)
                            }
                            Ok((_, d)) => return viol("boundary", format!("validator steps {} over {}", d, n.short())),
                            Err(e) => match vfact(&e) {
                                Fact::Missing(e, g) if t.missing && e > g => {
                                    k.want = k.buf.len() + (e - g);
                                    k.refusals -= 1;
                                }
                                f => return lie("validator", &here, &t, &Some(f)),
                            },
                        }
                    }
                }
                if k.refusals > 3 {
                    return viol(
                        "advice-useless",
                        format!("{} refusals, each followed, and {} is still not read (last: {} said {:?})", k.refusals, n.short(), e.name, f),
                    );
                }
            }
        }
    }
    Ok(())
}

fn taken(c: &mut Ctx, k: &mut Conn, len: usize) {
    c.ev("element", k.next as u64, len as u64);
    k.off += len;
    k.next += 1;
    k.ask = None;
    k.want = 0;
    k.refusals = 0;
    if c.s.chance(1, 3) {
        k.buf.drain(..k.off);
        k.off = 0;
    }
}

/// a standard tag with content it does not stand for
fn misfit(c: &mut Ctx, g: &Gen) -> Node {
    let s = &mut c.s;
    let str_of = |s: &mut crate::rng::Src| Str::D(0, vec![b'a'; s.draw(6) as usize]);
    let leaf = |s: &mut crate::rng::Src| match s.draw(9) {
        0 => Node::U(0, s.draw(24)),
        1 => Node::N(0, s.draw(24)),
        2 => Node::B(str_of(s)),
        3 => Node::T(str_of(s)),
        4 => Node::C(s.draw(4) as u8),
        5 => Node::G(0, 1 + s.draw(5), Box::new(Node::B(str_of(s)))),
        6 => Node::G(0, 2 + s.draw(2), Box::new(Node::T(str_of(s)))),
        7 => Node::A(Some(0), vec![]),
        _ => Node::S(true, 32 + s.draw(200) as u8),
    };
    let t = [30u64, 0, 2, 3, 24, 30][s.draw(6) as usize];
    let inner = if t == 30 && s.chance(4, 5) {
        let n = [2, 2, 2, 0, 1, 3][s.draw(6) as usize];
        Node::A(if s.chance(1, 3) { None } else { Some(0) }, (0..n).map(|_| leaf(s)).collect())
    } else if s.chance(1, 4) {
        g.node(s)
    } else {
        leaf(s)
    };
    let m = min_w(t);
    let w = if s.chance(1, 3) { [1u8, 2, 4, 8][s.draw(4) as usize].max(m) } else { m };
    Node::G(w, t, Box::new(inner))
}

fn dispatcher(c: &mut Ctx) -> R {
    c.calm = c.s.chance(1, 10);
    let g = Gen::swarm(&mut c.s);
    let recs = zoo::all();
    let nc = 1 + c.s.draw(3) as usize;
    let mut q: Queue<(usize, u64, Vec<u8>)> = Queue::new();
    let mut conns: Vec<Conn> = vec![];
    for i in 0..nc {
        let mut items: Vec<Item> = (0..1 + c.s.draw(8)).map(|_| item(c, &g, &recs, 15)).collect();
        // text that is no text, which is still a well-formed element
        if c.chaos(1, 4) {
            let bad: [&[u8]; 4] = [&[0x62, 0xc3, 0x28], &[0x7f, 0x61, 0x41, 0x62, 0xff, 0x41, 0xff], &[0xc0, 0x61, 0x80], &[0x82, 0x61, 0xff, 0x01]];
            let b = bad[c.s.draw(4) as usize];
            if let Some((n, l)) = parse(b) {
                c.fault("not-utf8", i as u64);
                let at = c.s.draw(items.len() as u64 + 1) as usize;
                items.insert(at, Item { rec: None, nodes: vec![n], bytes: b.to_vec(), ends: vec![l], marks: vec![0] });
            }
        }
        // standard tags around something else, well-formed all the same
        if c.chaos(1, 3) {
            for _ in 0..1 + c.s.draw(2) {
                let n = misfit(c, &g);
                c.fault("misfit-content", i as u64);
                let (bytes, marks) = n.enc_marks();
                let at = c.s.draw(items.len() as u64 + 1) as usize;
                items.insert(at, Item { rec: None, ends: vec![bytes.len()], nodes: vec![n], bytes, marks });
            }
        }
        let els: Vec<Node> = items.iter().flat_map(|x| x.nodes.clone()).collect();
        let sent: Vec<u8> = items.iter().flat_map(|x| x.bytes.clone()).collect();
        c.note(|| format!("connection {} carries {}", i, hex(&sent, 200)));
        let mut pipe = Pipe::default();
        c.now = 0;
        for (t, f) in pipe.send(c, i as u64, &sent) {
            q.at(t, (i, 0, f));
        }
        conns.push(Conn { items, els, sent, buf: vec![], off: 0, next: 0, want: 0, ask: None, refusals: 0, pipe, resets: 0 });
    }
    let mut events = 0u64;
    while let Some((t, (i, ep, f))) = q.pop() {
        c.now = t;
        events += 1;
        if events > 200_000 {
            return viol("no-progress", "the exchange does not finish");
        }
        let k = &mut conns[i];
        if ep != k.pipe.epoch {
            continue;
        }
        k.buf.extend_from_slice(&f);
        c.ev("data", i as u64, f.len() as u64);
        c.data(&f);
        parse_on(c, k, &recs)?;
        if k.resets < 2 && k.next < k.els.len() && c.chaos(1, 40) {
            // the peer comes back and sends again what was not taken
            k.resets += 1;
            c.fault("connection-reset", i as u64);
            k.pipe.reset();
            k.buf.clear();
            k.off = 0;
            k.want = 0;
            let done: usize = k.els[..k.next].iter().map(|n| n.enc().len()).sum();
            let rest = k.sent[done..].to_vec();
            let ep = k.pipe.epoch;
            c.now += 500;
            c.fault("retransmission", i as u64);
            for (t, f) in k.pipe.send(c, i as u64, &rest) {
                q.at(t, (i, ep, f));
            }
        }
    }
    for (i, k) in conns.iter().enumerate() {
        if k.next != k.els.len() {
            return viol(
                "no-progress",
                format!("connection {}: everything was delivered ({} items), but the parser waits for byte {} with {} in the buffer, element {} of {}", i, k.items.len(), k.want, k.buf.len(), k.next, k.els.len()),
            );
        }
    }
    Ok(())
}

pub fn run(c: &mut Ctx) -> R {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            FACTS.with(|x| x.set(false));
            clear();
        }
    }
    let _off = Off;
    FACTS.with(|x| x.set(true));
    if c.s.chance(1, 2) {
        hostile::world(c, &mut J { recs: zoo::all() }, 2)
    } else {
        dispatcher(c)
    }
}
