//! Consumers of shared messages: each navigates the same decoded array, map or
//! tag in its own way and at its own pace; owned copies outlive the receive
//! buffer, which is overwritten by the next message.
use crate::api::*;
use crate::ctx::*;
use crate::refcbor::*;
use cbored::*;
use std::borrow::Borrow;
use std::cell::{Cell, RefCell};

pub const RULE: &str = "a run is 1-4 messages received into one recycled buffer and 1-6 consumers per message navigating it (indexing, iterators, key/value views, nested members, owned and borrowed-from-owned forms) under a seeded interleaving, with consumers dying midway and owned copies consumed after the buffer was overwritten; non-trivial: at least two consumers took steps; distinct by the hash of every step and payload";

/// keeps decoded values at a fixed place until it is dropped
#[derive(Default)]
struct Arena(RefCell<Vec<(*mut u8, unsafe fn(*mut u8))>>);
impl Arena {
    fn keep<'a, T: 'a>(&'a self, t: T) -> &'a T {
        unsafe fn gone<T>(p: *mut u8) {
            drop(Box::from_raw(p as *mut T))
        }
        let p = Box::into_raw(Box::new(t));
        self.0.borrow_mut().push((p as *mut u8, gone::<T>));
        unsafe { &*p }
    }
}
impl Drop for Arena {
    fn drop(&mut self) {
        for (p, f) in self.0.borrow_mut().drain(..).rev() {
            unsafe { f(p) }
        }
    }
}

#[derive(Clone, Copy)]
enum Src<'a> {
    A(&'a Array<'a>),
    Ao(&'a ArrayOwned),
    M(&'a Map<'a>),
}

enum F<'a> {
    /// a member's reader, nothing read yet
    Rd(Reader<'a>, &'a Node),
    It(Box<dyn Iterator<Item = Reader<'a>> + 'a>, Vec<&'a Node>, usize),
    It2(Box<dyn Iterator<Item = (Reader<'a>, Reader<'a>)> + 'a>, &'a [(Node, Node)], usize),
    Ix(Src<'a>, &'a Node, Vec<u32>, usize),
    /// open the container
    Open(&'a Data<'a>, &'a Node),
    OpenO(&'a DataOwned, &'a Node),
}

struct Consumer<'a> {
    id: u64,
    stack: Vec<F<'a>>,
    steps: u64,
}

fn slen(l: StructureLength) -> Option<W> {
    match l {
        StructureLength::Indefinite => None,
        StructureLength::Definite(h) => Some(hv(h).0),
    }
}
fn shape(l: StructureLength, len: usize, want: Option<W>, n: usize, who: &str) -> R {
    if len != n {
        return viol("member-count", format!("{}: {} members presented, {} were sent", who, len, n));
    }
    let declared = match l {
        StructureLength::Definite(h) => hv(h).1 as usize,
        _ => n,
    };
    if slen(l) != want || declared != n {
        return viol("form", format!("{}: length form {:?} of {} instead of {:?}", who, l, n, want));
    }
    Ok(())
}

/// all members at once through `to_vec`, given up at one of them perhaps
struct Bulk {
    stop: usize,
    calls: Cell<usize>,
    stray: Cell<bool>,
}
fn stop_at(c: &mut Ctx, n: usize) -> usize {
    if n > 0 && c.s.chance(1, 4) {
        c.s.draw(n as u64) as usize
    } else {
        usize::MAX
    }
}
impl Bulk {
    fn new(stop: usize) -> Self {
        Bulk { stop, calls: Cell::new(0), stray: Cell::new(false) }
    }
    fn take(&self, r: &mut Reader) -> Result<DataOwned, DecodeErrorKind> {
        let i = self.calls.get();
        self.calls.set(i + 1);
        if r.consumed_bytes() != 0 {
            self.stray.set(true)
        }
        if i == self.stop {
            return Err(DecodeErrorKind::Custom(String::from("enough")));
        }
        let d = r.data().map_err(DecodeErrorKind::from)?.owned();
        if !r.is_finished() {
            self.stray.set(true)
        }
        Ok(d)
    }
    fn judge(&self, r: Result<Vec<DataOwned>, DecodeErrorKind>, ns: &[&Node], who: &str) -> R {
        if self.stray.get() {
            return viol("member-not-confined", format!("{}: to_vec hands out a reader that is not the member's", who));
        }
        let calls = ns.len().min(self.stop.saturating_add(1));
        if self.calls.get() != calls {
            return viol("member-count", format!("{}: to_vec visits {} of {} members", who, self.calls.get(), calls));
        }
        match r {
            Ok(v) if self.stop == usize::MAX => {
                if v.len() != ns.len() {
                    return viol("member-count", format!("{}: to_vec yields {} of {} members", who, v.len(), ns.len()));
                }
                for (d, n) in v.iter().zip(ns) {
                    if enc(d) != n.enc() {
                        return viol("member-changed", format!("{}: to_vec yields {:?} where {} was sent", who, hex(&enc(d), 60), n.short()));
                    }
                }
                Ok(())
            }
            Err(DecodeErrorKind::Custom(m)) if self.stop != usize::MAX && m == "enough" => Ok(()),
            Ok(_) => viol("member-count", format!("{}: to_vec succeeds though a member was refused", who)),
            Err(e) => viol("valid-refused", format!("{}: to_vec is refused: {}", who, e)),
        }
    }
}

fn hint(h: (usize, Option<usize>), left: usize) -> R {
    if h.0 > left || h.1.map_or(false, |x| x < left) {
        return viol("member-count", format!("iterator announces {:?} members, {} are left", h, left));
    }
    Ok(())
}

fn order(c: &mut Ctx, n: usize) -> Vec<u32> {
    let mut o: Vec<u32> = (0..n as u32).collect();
    match c.s.draw(4) {
        0 => (),
        1 => o.reverse(),
        _ => {
            if n < 2000 {
                for i in (1..n).rev() {
                    let j = c.s.draw(i as u64 + 1) as usize;
                    o.swap(i, j);
                }
            }
            if n > 0 && c.s.chance(1, 2) {
                // again
                let again = o[c.s.draw(n as u64) as usize];
                o.push(again);
                o.push(again);
            }
        }
    }
    o
}

fn open<'a>(c: &mut Ctx, ar: &'a Arena, d: &'a Data<'a>, n: &'a Node, out: &mut Vec<F<'a>>) -> R {
    match (d, n) {
        (Data::Array(a), Node::A(l, v)) => {
            shape(a.struct_len(), a.len(), *l, v.len(), "array")?;
            if c.s.chance(1, 6) {
                let stop = stop_at(c, v.len());
                let b = Bulk::new(stop);
                let r = a.to_vec(|r| b.take(r));
                b.judge(r, &v.iter().collect::<Vec<_>>(), "array")?;
            }
            match c.s.draw(5) {
                0 | 1 => out.push(F::It(Box::new(a.iter()), v.iter().collect(), 0)),
                2 => {
                    let o = ar.keep(DataOwned::Array(a.owned()));
                    out.push(F::OpenO(o, n))
                }
                _ => {
                    let o = order(c, v.len());
                    out.push(F::Ix(Src::A(a), n, o, 0))
                }
            }
        }
        (Data::Map(m), Node::M(l, v)) => {
            shape(m.struct_len(), m.len(), *l, v.len(), "map")?;
            if c.s.chance(1, 5) {
                let stop = stop_at(c, 2 * v.len());
                let b = Bulk::new(stop);
                let r = m.to_vec(|r| b.take(r), |r| b.take(r)).map(|x| x.into_iter().flat_map(|(k, v)| [k, v]).collect());
                b.judge(r, &v.iter().flat_map(|(k, v)| [k, v]).collect::<Vec<_>>(), "map")?;
            }
            match c.s.draw(6) {
                0 => out.push(F::It2(Box::new(m.iter()), v, 0)),
                1 => {
                    out.push(F::It(Box::new(m.keys()), v.iter().map(|x| &x.0).collect(), 0));
                    out.push(F::It(Box::new(m.values()), v.iter().map(|x| &x.1).collect(), 0));
                }
                2 => {
                    out.push(F::It(Box::new(m.values()), v.iter().map(|x| &x.1).collect(), 0));
                    out.push(F::It(Box::new(m.keys()), v.iter().map(|x| &x.0).collect(), 0));
                }
                3 => {
                    let o = ar.keep(DataOwned::Map(m.owned()));
                    out.push(F::OpenO(o, n))
                }
                _ => {
                    let o = order(c, v.len());
                    out.push(F::Ix(Src::M(m), n, o, 0))
                }
            }
        }
        (Data::Tag(t), Node::G(w, v, x)) => {
            if t.value() != *v || hv(t.tag_repr().raw_value()) != (*w, *v) {
                return viol("form", format!("tag {} in width {} is presented as {:?}", v, w, t.tag_repr()));
            }
            match c.s.draw(5) {
                0 => out.push(F::Rd(t.reader(), x)),
                1 => out.push(F::Rd(t.data().reader(), x)),
                2 => {
                    let o = ar.keep(DataOwned::Tag(t.owned()));
                    out.push(F::OpenO(o, n))
                }
                3 => {
                    let mut got = None;
                    let e = t.read_data(|r| {
                        got = Some(r.data()?);
                        Ok(())
                    });
                    if let Err(e) = e {
                        return viol("valid-refused", format!("Tag::read_data on {}: {:?}", n.short(), e));
                    }
                    let d = ar.keep(got.unwrap());
                    out.push(F::Open(d, x))
                }
                _ => {
                    let d = must(c, t.decode_data::<DataOwned>().map_err(De::from), "valid-refused", || format!("Tag::decode_data on {}", n.short()))?;
                    let d = ar.keep(d);
                    out.push(F::OpenO(d, x))
                }
            }
        }
        (d, n) => {
            let mut st = c.style();
            let got = must(c, data_node(d, &mut st), "valid-refused", || format!("inspecting {}", n.short()))?;
            same(&got, n, "value")?;
        }
    }
    Ok(())
}

fn open_owned<'a>(c: &mut Ctx, ar: &'a Arena, d: &'a DataOwned, n: &'a Node, out: &mut Vec<F<'a>>) -> R {
    match (d, n) {
        (DataOwned::Array(a), Node::A(l, v)) => {
            shape(a.struct_len(), a.len(), *l, v.len(), "owned array")?;
            if c.s.chance(1, 4) {
                let stop = stop_at(c, v.len());
                let b = Bulk::new(stop);
                let r = a.to_vec(|r| b.take(r));
                b.judge(r, &v.iter().collect::<Vec<_>>(), "owned array")?;
            }
            match c.s.draw(4) {
                0 => out.push(F::It(Box::new(a.iter()), v.iter().collect(), 0)),
                1 => {
                    let o = order(c, v.len());
                    out.push(F::Ix(Src::Ao(a), n, o, 0))
                }
                2 => {
                    let o = ar.keep(DataOwned::Array(a.clone()));
                    out.push(F::OpenO(o, n))
                }
                _ => {
                    let b = ar.keep(Data::Array(a.borrow()));
                    out.push(F::Open(b, n))
                }
            }
        }
        (DataOwned::Map(m), Node::M(l, v)) => {
            shape(m.struct_len(), m.len(), *l, v.len(), "owned map")?;
            if c.s.chance(1, 5) {
                let stop = stop_at(c, 2 * v.len());
                let b = Bulk::new(stop);
                let r = m.to_vec(|r| b.take(r), |r| b.take(r)).map(|x| x.into_iter().flat_map(|(k, v)| [k, v]).collect());
                b.judge(r, &v.iter().flat_map(|(k, v)| [k, v]).collect::<Vec<_>>(), "owned map")?;
            }
            match c.s.draw(4) {
                0 => out.push(F::It2(Box::new(m.iter()), v, 0)),
                1 => {
                    out.push(F::It(Box::new(m.keys()), v.iter().map(|x| &x.0).collect(), 0));
                    out.push(F::It(Box::new(m.values()), v.iter().map(|x| &x.1).collect(), 0));
                }
                2 => {
                    let o = ar.keep(DataOwned::Map(m.clone()));
                    out.push(F::OpenO(o, n))
                }
                _ => {
                    let b = ar.keep(Data::Map(m.borrow()));
                    out.push(F::Open(b, n))
                }
            }
        }
        (DataOwned::Tag(t), Node::G(w, v, x)) => {
            if t.value() != *v || hv(t.tag_repr().raw_value()) != (*w, *v) {
                return viol("form", format!("tag {} in width {} is presented as {:?} by its owned form", v, w, t.tag_repr()));
            }
            match c.s.draw(3) {
                0 => out.push(F::Rd(t.read_data(), x)),
                1 => out.push(F::Rd(t.data().read(), x)),
                _ => {
                    let b = ar.keep(Data::Tag(t.borrow()));
                    out.push(F::Open(b, n))
                }
            }
        }
        (d, n) => {
            let mut st = c.style();
            let got = must(c, data_node(&d.borrow(), &mut st), "valid-refused", || format!("inspecting owned {}", n.short()))?;
            same(&got, n, "owned value")?;
            owned_chunks(d, n)?;
        }
    }
    Ok(())
}

fn same(got: &Node, want: &Node, who: &str) -> R {
    if got != want {
        return viol("member-changed", format!("{}: consumer sees {} where {} was sent", who, got.short(), want.short()));
    }
    Ok(())
}

fn node_at<'a>(n: &'a Node, i: usize) -> Option<(&'a Node, Option<&'a Node>)> {
    match n {
        Node::A(_, v) => v.get(i).map(|x| (x, None)),
        Node::M(_, v) => v.get(i).map(|(a, b)| (a, Some(b))),
        _ => None,
    }
}

fn confined(r: &Reader, n: &Node) -> R {
    let l = n.enc().len();
    if r.remaining_bytes() != l || r.consumed_bytes() != 0 {
        return viol("member-not-confined", format!("member {} of {} bytes: its reader is at {} with {} remaining", n.short(), l, r.consumed_bytes(), r.remaining_bytes()));
    }
    Ok(())
}

/// one scheduling step of a consumer
fn step<'a>(c: &mut Ctx, ar: &'a Arena, k: &mut Consumer<'a>) -> R {
    k.steps += 1;
    c.ops += 1;
    let f = match k.stack.pop() {
        Some(f) => f,
        None => return Ok(()),
    };
    match f {
        F::Rd(mut r, n) => {
            confined(&r, n)?;
            match r.peek_type() {
                Ok(t) if kind_of(t) == n.kind() => (),
                o => return viol("member-changed", format!("member {} peeks as {:?}", n.short(), o.map_err(|e| rerr(&e)))),
            }
            let cont = matches!(n, Node::A(..) | Node::M(..) | Node::G(..));
            match c.s.draw(if cont { 5 } else { 3 }) {
                0 => {
                    // only looked at, read later
                    k.stack.push(F::Rd(r, n));
                    // but not forever
                    if k.steps % 3 == 0 {
                        let f = k.stack.pop();
                        if let Some(F::Rd(mut r, n)) = f {
                            let mut st = c.style();
                            let got = must(c, deep(&mut r, &mut st), "valid-refused", || format!("member {}", n.short()))?;
                            same(&got, n, "member")?;
                            fin(&r)?;
                        }
                    }
                }
                1 | 2 => {
                    let mut st = c.style();
                    let got = must(c, deep(&mut r, &mut st), "valid-refused", || format!("member {}", n.short()))?;
                    same(&got, n, "member")?;
                    fin(&r)?;
                }
                _ => {
                    let d = must(c, r.data().map_err(De::from), "valid-refused", || format!("member {}", n.short()))?;
                    fin(&r)?;
                    let d = ar.keep(d);
                    open(c, ar, d, n, &mut k.stack)?;
                }
            }
        }
        F::It(mut it, ns, mut i) => match {
            hint(it.size_hint(), ns.len() - i)?;
            if c.s.chance(1, 12) {
                // jump
                let j = c.s.draw(4) as usize;
                let x = it.nth(j);
                i = if x.is_some() { i + j } else if i + j >= ns.len() { ns.len() } else { i };
                x
            } else {
                it.next()
            }
        } {
            Some(r) => {
                if i >= ns.len() {
                    return viol("member-count", format!("iterator yields more than the {} members", ns.len()));
                }
                let n = ns[i];
                k.stack.push(F::It(it, ns, i + 1));
                k.stack.push(F::Rd(r, n));
            }
            None => {
                if i != ns.len() {
                    return viol("member-count", format!("iterator ends after {} of {} members", i, ns.len()));
                }
            }
        },
        F::It2(mut it, ns, mut i) => match {
            hint(it.size_hint(), ns.len() - i)?;
            if c.s.chance(1, 12) {
                let j = c.s.draw(4) as usize;
                let x = it.nth(j);
                i = if x.is_some() { i + j } else if i + j >= ns.len() { ns.len() } else { i };
                x
            } else {
                it.next()
            }
        } {
            Some((a, b)) => {
                if i >= ns.len() {
                    return viol("member-count", format!("iterator yields more than the {} entries", ns.len()));
                }
                k.stack.push(F::It2(it, ns, i + 1));
                if c.s.chance(1, 2) {
                    k.stack.push(F::Rd(a, &ns[i].0));
                    k.stack.push(F::Rd(b, &ns[i].1));
                } else {
                    k.stack.push(F::Rd(b, &ns[i].1));
                    k.stack.push(F::Rd(a, &ns[i].0));
                }
            }
            None => {
                if i != ns.len() {
                    return viol("member-count", format!("iterator ends after {} of {} entries", i, ns.len()));
                }
            }
        },
        F::Ix(s, n, ord, at) => {
            if at < ord.len() {
                let i = ord[at] as usize;
                let (x, y) = match node_at(n, i) {
                    Some(p) => p,
                    None => return viol("harness", "order out of range"),
                };
                k.stack.push(F::Ix(s, n, ord, at + 1));
                match s {
                    Src::A(a) => {
                        raw(a[i].as_ref(), x)?;
                        k.stack.push(F::Rd(a[i].reader(), x))
                    }
                    Src::Ao(a) => {
                        let cs: &CborSlice = Borrow::borrow(&a[i]);
                        raw(cs.as_ref(), x)?;
                        if c.s.chance(1, 2) {
                            k.stack.push(F::Rd(a[i].read(), x))
                        } else {
                            k.stack.push(F::Rd(cs.reader(), x))
                        }
                    }
                    Src::M(m) => {
                        let (p, q) = m[i];
                        let y = y.unwrap();
                        raw(p.as_ref(), x)?;
                        raw(q.as_ref(), y)?;
                        k.stack.push(F::Rd(p.reader(), x));
                        k.stack.push(F::Rd(q.reader(), y));
                    }
                }
            }
        }
        F::Open(d, n) => open(c, ar, d, n, &mut k.stack)?,
        F::OpenO(d, n) => open_owned(c, ar, d, n, &mut k.stack)?,
    }
    Ok(())
}

fn raw(b: &[u8], n: &Node) -> R {
    if b != &n.enc()[..] {
        return viol("member-changed", format!("member slice {} where {} was sent", hex(b, 60), n.short()));
    }
    Ok(())
}
fn fin(r: &Reader) -> R {
    if !r.is_finished() || r.expect_finished().is_err() || r.remaining_bytes() != 0 {
        return viol("member-not-confined", "a member's reader does not end where the member ends");
    }
    Ok(())
}

pub fn run(c: &mut Ctx) -> R {
    c.calm = c.s.chance(1, 10);
    let g = Gen::swarm(&mut c.s);
    let nm = 1 + c.s.draw(4) as usize;
    let mut nodes: Vec<Node> = Vec::new();
    for _ in 0..nm {
        // mostly containers
        let mut n = g.node(&mut c.s);
        for _ in 0..3 {
            if matches!(n, Node::A(..) | Node::M(..) | Node::G(..)) {
                break;
            }
            n = g.node(&mut c.s);
        }
        if !matches!(n, Node::A(..) | Node::M(..) | Node::G(..)) {
            let m = g.node(&mut c.s);
            let l = if c.s.chance(1, 2) { None } else { Some(0) };
            n = if c.s.chance(1, 2) { Node::A(l, vec![n, m.clone(), m]) } else { Node::M(l, vec![(n, m.clone()), (m.clone(), m)]) };
        }
        nodes.push(n);
    }
    let keep_s = Arena::default();
    let nodes = &nodes;
    let mut lasting: Vec<Consumer> = vec![];
    let mut buf: Vec<u8> = vec![];
    let mut id = 0;
    for n in nodes {
        // the buffer of the previous message is overwritten
        let bytes = n.enc();
        c.note(|| format!("message {}", hex(&bytes, 120)));
        c.data(&bytes);
        if c.s.chance(1, 3) {
            buf = vec![0xff; bytes.len()];
            c.fault("buffer-freed", 0);
        } else if !buf.is_empty() {
            c.fault("buffer-overwritten", 0);
        }
        buf.clear();
        let mut pipe = Pipe::default();
        for (t, f) in pipe.send(c, 0, &bytes) {
            c.now = t;
            buf.extend_from_slice(&f);
        }
        let keep_m = Arena::default();
        let keep_m = &keep_m;
        let mut r = Reader::new(&buf);
        let shared = keep_m.keep(must(c, r.data().map_err(De::from), "valid-refused", || format!("message {}", n.short()))?);
        if !r.is_finished() {
            return viol("boundary", "message reader is not finished after the message");
        }
        // every consumer of this message works on `shared`
        let nc = 1 + c.s.draw(6);
        let mut cs: Vec<Consumer> = vec![];
        for _ in 0..nc {
            id += 1;
            if c.s.chance(1, 4) {
                let o: &DataOwned = keep_s.keep(shared.owned());
                lasting.push(Consumer { id, stack: vec![F::OpenO(o, n)], steps: 0 });
            } else {
                cs.push(Consumer { id, stack: vec![F::Open(shared, n)], steps: 0 });
            }
        }
        let budget = if c.s.chance(1, 3) { 4000 } else { c.s.draw(300) };
        for _ in 0..budget {
            let live: Vec<usize> = (0..cs.len()).filter(|i| !cs[*i].stack.is_empty()).collect();
            let old: Vec<usize> = (0..lasting.len()).filter(|i| !lasting[*i].stack.is_empty()).collect();
            let tot = live.len() + old.len();
            if tot == 0 {
                break;
            }
            let k = c.s.draw(tot as u64) as usize;
            // a burst of steps by one consumer
            let burst = if c.s.chance(1, 4) { 1 + c.s.draw(20) } else { 1 };
            for _ in 0..burst {
                if k < live.len() {
                    let w = &mut cs[live[k]];
                    c.ev("consume", w.id % 8, w.steps);
                    step(c, keep_m, w)?;
                    if w.stack.is_empty() {
                        c.probe("consumer-done");
                        break;
                    }
                } else {
                    let w = &mut lasting[old[k - live.len()]];
                    c.ev("consume-owned", w.id % 8, w.steps);
                    step(c, &keep_s, w)?;
                    if w.stack.is_empty() {
                        c.probe("owned-consumer-done");
                        break;
                    }
                }
            }
            if c.chaos(1, 200) {
                // a consumer dies with its readers half used
                if let Some(i) = live.first() {
                    c.fault("consumer-died", *i as u64);
                    cs[*i].stack.clear();
                }
            }
        }
        if cs.iter().any(|k| !k.stack.is_empty()) {
            c.fault("consumers-cut-off", 0);
        }
        // nobody changed the message: it still reads as it was sent
        let mut st = c.style();
        let again = must(c, data_node(shared, &mut st), "valid-refused", || format!("message {} once more", n.short()))?;
        same(&again, n, "shared message after its consumers")?;
    }
    drop(buf);
    let mut guard = 0;
    loop {
        let old: Vec<usize> = (0..lasting.len()).filter(|i| !lasting[*i].stack.is_empty()).collect();
        if old.is_empty() || guard > 3000 {
            break;
        }
        guard += 1;
        let k = old[c.s.draw(old.len() as u64) as usize];
        c.ev("consume-owned", lasting[k].id % 8, lasting[k].steps);
        step(c, &keep_s, &mut lasting[k])?;
    }
    Ok(())
}

/// what the owned forms of a string tell without borrowing them again
fn owned_chunks(d: &DataOwned, n: &Node) -> R {
    let (got, want) = match (d, n) {
        (DataOwned::Bytes(b), Node::B(s)) => {
            let one = |x: &BytesDataOwned| (hv(x.value()), x.as_slice().to_vec(), x.borrow().as_slice().to_vec());
            (
                match b {
                    BytesOwned::Imm(x) => (true, vec![one(x)]),
                    BytesOwned::Chunks(v) => (false, v.iter().map(one).collect::<Vec<_>>()),
                },
                s,
            )
        }
        (DataOwned::Text(t), Node::T(s)) => {
            let one = |x: &TextDataOwned| (hv(x.value()), x.as_str().as_bytes().to_vec(), x.borrow().as_str().as_bytes().to_vec());
            (
                match t {
                    TextOwned::Imm(x) => (true, vec![one(x)]),
                    TextOwned::Chunks(v) => (false, v.iter().map(one).collect::<Vec<_>>()),
                },
                s,
            )
        }
        _ => return Ok(()),
    };
    let same = |w: &W, b: &Vec<u8>| ((*w, b.len() as u64), b.clone(), b.clone());
    let want = match want {
        Str::D(w, b) => (true, vec![same(w, b)]),
        Str::I(v) => (false, v.iter().map(|(w, b)| same(w, b)).collect::<Vec<_>>()),
    };
    if got != want {
        return viol("owned-chunks", format!("the owned form of {} tells other chunks", n.short()));
    }
    Ok(())
}
