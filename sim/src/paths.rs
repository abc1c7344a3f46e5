//! Nested record types whose refusals are followed to the failing member, and an
//! independent description of their layout and of the names refusals go by.
#![allow(clippy::all, dead_code)]

use crate::entry::raw_data;
use crate::refcbor::*;
use crate::rng::Src;
use crate::zoo::Fld;
use cbored::tagged::*;
use cbored::*;

#[derive(CborRepr)]
#[cborrepr(structure = "array")]
pub struct Leafs {
    small: u8,
    word: u32,
    flag: bool,
    raw: Vec<u8>,
    four: [u8; 4],
    long: u64,
}
#[derive(CborRepr)]
#[cborrepr(structure = "array")]
pub struct Pair(String, u16);
#[derive(CborRepr)]
#[cborrepr(structure = "array", tag = 300)]
pub struct Stds(StandardDateTime, PositiveBignum, RationalNumber);
#[derive(CborRepr)]
#[cborrepr(structure = "flat")]
pub struct Slim {
    inner: Pair,
}
#[derive(CborRepr)]
#[cborrepr(structure = "flat", tag = 77)]
pub struct Wrap(Stds);
#[derive(CborRepr)]
#[cborrepr(structure = "flat")]
pub struct Run(u64, Pair, Choice);
#[derive(CborRepr)]
#[cborrepr(structure = "flat")]
pub struct RunRec {
    head: Kind3,
    body: Slim,
    tail: Vec<u8>,
}
#[derive(CborRepr)]
#[cborrepr(structure = "mapint", map_starts_at = 1, skipkey = 2)]
pub struct Keyed {
    #[cborrepr(mandatory)]
    ident: u64,
    label: Option<String>,
    #[cborrepr(mandatory)]
    pair: Pair,
    extra: Option<Wrap>,
    kind: Option<Kind3>,
}
#[derive(CborRepr)]
#[cborrepr(structure = "mapint", tag = 9)]
pub struct Index {
    first: Option<Keyed>,
    #[cborrepr(mandatory)]
    second: Slim,
}
#[derive(CborRepr)]
#[cborrepr(structure = "array_lastopt", tag = 40)]
pub struct Last {
    head: Pair,
    tail: Option<Keyed>,
}
#[derive(CborRepr)]
#[cborrepr(enumtype = "enumint", skipkey = 1)]
pub enum Kind3 {
    Red,
    Green,
    Blue,
}
#[derive(CborRepr)]
#[cborrepr(enumtype = "enumtype")]
pub enum Any {
    #[cborrepr(cbortype = "null")]
    Nil,
    #[cborrepr(cbortype = "positive")]
    Num(u16),
    #[cborrepr(cbortype = "text")]
    Txt { t: String },
    #[cborrepr(cbortype = "bytes")]
    Raw([u8; 4]),
    #[cborrepr(cbortype = "array")]
    Pt(Pair),
    #[cborrepr(cbortype = "map")]
    Rec(Keyed),
    #[cborrepr(cbortype = "tag")]
    Tagged(Stds),
}
#[derive(CborRepr)]
#[cborrepr(enumtype = "tagvariant", skipkey = 2)]
pub enum Choice {
    Empty,
    One(Pair),
    Named { left: Leafs, right: Any },
    Many(Vec<Choice>),
    Both(Kind3, Keyed),
    Raw(Vec<u8>),
    Bag(u16, Vec<Keyed>, Vec<u64>),
    Slot { last: Last },
}
#[derive(CborRepr)]
#[cborrepr(structure = "array")]
pub struct Top {
    leafs: Leafs,
    stds: Stds,
    slim: Slim,
    wrap: Wrap,
    index: Index,
    last: Last,
    kind: Kind3,
    any: Any,
    choice: Choice,
    kept: CborDataOf<Leafs>,
    held: CborDataOf<Choice>,
    rows: Row<Row<Pair>>,
}
/// names as long as generated code has them, alike at their start
pub mod statements_of_accounts_and_their_corrections {
    use super::*;

    #[derive(CborRepr)]
    #[cborrepr(structure = "array")]
    pub struct StatementOfAccountInTheMonthBefore {
        the_number_of_the_account_as_it_was_given: u64,
        the_number_of_the_account_as_it_was_found: u64,
        the_holder_of_the_account: Pair,
    }
    #[derive(CborRepr)]
    #[cborrepr(enumtype = "tagvariant")]
    pub enum StatementOfAccountWithItsCorrections {
        TheStatementAsItWasMadeAtFirst(StatementOfAccountInTheMonthBefore),
        TheStatementAsItWasMadeAfterwards { the_first_of_both: StatementOfAccountInTheMonthBefore, the_other_of_both: Keyed },
        AllOfThem(Vec<StatementOfAccountWithItsCorrections>),
    }
}
pub use statements_of_accounts_and_their_corrections::*;
/// a sequence, read and written with the library's own helpers
pub struct Row<T>(Vec<T>);
impl<T: Decode> Decode for Row<T> {
    fn decode<'a>(r: &mut Reader<'a>) -> Result<Self, DecodeError> {
        Ok(Row(decode_vec(r)?))
    }
}
impl<T: Encode> Encode for Row<T> {
    fn encode(&self, w: &mut Writer) {
        encode_vec(&self.0, w)
    }
}

// ---------------------------------------------------------------- shapes ---

#[derive(Clone, Copy)]
pub enum Sh {
    Leaf(fn(&Node) -> bool, fn() -> &'static str, fn(&Gen, &mut Src) -> Node),
    Def(&'static Def),
    Vec(&'static Sh),
    /// typed raw data of that shape
    Data(&'static Sh, fn() -> &'static str),
}
pub struct Def {
    pub name: &'static str,
    pub tag: Option<u64>,
    pub lay: Lay,
}
type F = (&'static str, Sh);
pub enum Lay {
    /// last member optional?
    Arr(&'static [F], bool),
    Flat(&'static [F]),
    /// key, name, shape, mandatory
    Map(&'static [(u64, &'static str, Sh, bool)]),
    Num(&'static [u64]),
    Var(&'static [(u64, &'static str, &'static [F])]),
    Type(&'static [(Kind, &'static str, Option<Sh>)]),
}

const fn leaf<T: Fld + 'static>() -> Sh {
    Sh::Leaf(|n| T::from(n).is_some(), || std::any::type_name::<T>(), |g, s| T::gen(g, s).node())
}
macro_rules! leaf {
    ($t:ty) => {
        leaf::<$t>()
    };
}
const U8: Sh = leaf!(u8);
const U16: Sh = leaf!(u16);
const U32: Sh = leaf!(u32);
const U64: Sh = leaf!(u64);
const TXT: Sh = leaf!(String);
const RAW: Sh = leaf!(Vec<u8>);
const FOUR: Sh = leaf!([u8; 4]);

pub static LEAFS: Def = Def {
    name: "Leafs",
    tag: None,
    lay: Lay::Arr(&[("small", U8), ("word", U32), ("flag", leaf!(bool)), ("raw", RAW), ("four", FOUR), ("long", U64)], false),
};
pub static PAIR: Def = Def { name: "Pair", tag: None, lay: Lay::Arr(&[("field0", TXT), ("field1", U16)], false) };
pub static STDS: Def = Def {
    name: "Stds",
    tag: Some(300),
    lay: Lay::Arr(&[("field0", leaf!(StandardDateTime)), ("field1", leaf!(PositiveBignum)), ("field2", leaf!(RationalNumber))], false),
};
pub static SLIM: Def = Def { name: "Slim", tag: None, lay: Lay::Flat(&[("inner", Sh::Def(&PAIR))]) };
pub static WRAP: Def = Def { name: "Wrap", tag: Some(77), lay: Lay::Flat(&[("field0", Sh::Def(&STDS))]) };
pub static RUN: Def =
    Def { name: "Run", tag: None, lay: Lay::Flat(&[("field0", U64), ("field1", Sh::Def(&PAIR)), ("field2", Sh::Def(&CHOICE))]) };
pub static RUNREC: Def =
    Def { name: "RunRec", tag: None, lay: Lay::Flat(&[("head", Sh::Def(&KIND3)), ("body", Sh::Def(&SLIM)), ("tail", RAW)]) };
pub static KEYED: Def = Def {
    name: "Keyed",
    tag: None,
    lay: Lay::Map(&[
        (1, "ident", U64, true),
        (3, "label", TXT, false),
        (4, "pair", Sh::Def(&PAIR), true),
        (5, "extra", Sh::Def(&WRAP), false),
        (6, "kind", Sh::Def(&KIND3), false),
    ]),
};
pub static INDEX: Def =
    Def { name: "Index", tag: Some(9), lay: Lay::Map(&[(0, "first", Sh::Def(&KEYED), false), (1, "second", Sh::Def(&SLIM), true)]) };
pub static LAST: Def =
    Def { name: "Last", tag: Some(40), lay: Lay::Arr(&[("head", Sh::Def(&PAIR)), ("tail", Sh::Def(&KEYED))], true) };
pub static KIND3: Def = Def { name: "Kind3", tag: None, lay: Lay::Num(&[0, 2, 3]) };
pub static ANY: Def = Def {
    name: "Any",
    tag: None,
    lay: Lay::Type(&[
        (Kind::Null, "Nil", None),
        (Kind::Positive, "Num", Some(U16)),
        (Kind::Text, "Txt", Some(TXT)),
        (Kind::Bytes, "Raw", Some(FOUR)),
        (Kind::Array, "Pt", Some(Sh::Def(&PAIR))),
        (Kind::Map, "Rec", Some(Sh::Def(&KEYED))),
        (Kind::Tag, "Tagged", Some(Sh::Def(&STDS))),
    ]),
};
static CHOICE_SH: Sh = Sh::Def(&CHOICE);
static PAIR_SH: Sh = Sh::Def(&PAIR);
static PAIRS_SH: Sh = Sh::Vec(&PAIR_SH);
static KEYED_SH: Sh = Sh::Def(&KEYED);
static LEAFS_SH: Sh = Sh::Def(&LEAFS);
static U64_SH: Sh = U64;
pub static CHOICE: Def = Def {
    name: "Choice",
    tag: None,
    lay: Lay::Var(&[
        (0, "Empty", &[]),
        (1, "One", &[("field0", Sh::Def(&PAIR))]),
        (3, "Named", &[("left", Sh::Def(&LEAFS)), ("right", Sh::Def(&ANY))]),
        (4, "Many", &[("field0", Sh::Vec(&CHOICE_SH))]),
        (5, "Both", &[("field0", Sh::Def(&KIND3)), ("field1", Sh::Def(&KEYED))]),
        (6, "Raw", &[("field0", RAW)]),
        (7, "Bag", &[("field0", U16), ("field1", Sh::Vec(&KEYED_SH)), ("field2", Sh::Vec(&U64_SH))]),
        (8, "Slot", &[("last", Sh::Def(&LAST))]),
    ]),
};
pub static BEFORE: Def = Def {
    name: "StatementOfAccountInTheMonthBefore",
    tag: None,
    lay: Lay::Arr(
        &[
            ("the_number_of_the_account_as_it_was_given", U64),
            ("the_number_of_the_account_as_it_was_found", U64),
            ("the_holder_of_the_account", Sh::Def(&PAIR)),
        ],
        false,
    ),
};
static CORRECTED_SH: Sh = Sh::Def(&CORRECTED);
pub static CORRECTED: Def = Def {
    name: "StatementOfAccountWithItsCorrections",
    tag: None,
    lay: Lay::Var(&[
        (0, "TheStatementAsItWasMadeAtFirst", &[("field0", Sh::Def(&BEFORE))]),
        (1, "TheStatementAsItWasMadeAfterwards", &[("the_first_of_both", Sh::Def(&BEFORE)), ("the_other_of_both", Sh::Def(&KEYED))]),
        (2, "AllOfThem", &[("field0", Sh::Vec(&CORRECTED_SH))]),
    ]),
};
pub static TOP: Def = Def {
    name: "Top",
    tag: None,
    lay: Lay::Arr(
        &[
            ("leafs", Sh::Def(&LEAFS)),
            ("stds", Sh::Def(&STDS)),
            ("slim", Sh::Def(&SLIM)),
            ("wrap", Sh::Def(&WRAP)),
            ("index", Sh::Def(&INDEX)),
            ("last", Sh::Def(&LAST)),
            ("kind", Sh::Def(&KIND3)),
            ("any", Sh::Def(&ANY)),
            ("choice", Sh::Def(&CHOICE)),
            ("kept", Sh::Data(&LEAFS_SH, || std::any::type_name::<CborDataOf<Leafs>>())),
            ("held", Sh::Data(&CHOICE_SH, || std::any::type_name::<CborDataOf<Choice>>())),
            ("rows", Sh::Vec(&PAIRS_SH)),
        ],
        false,
    ),
};

// ------------------------------------------------------------- reference ---

/// one step of an expected path, outermost first
#[derive(Clone, Debug)]
pub enum Comp {
    /// a derived type
    T(&'static str),
    /// a member, a variant, a position or "Vec"
    M(String),
    /// the native type the failing member was to be read as
    Leaf(&'static str),
    /// the same, where naming it is optional
    Opt(&'static str),
}
type Fail = Option<Vec<Comp>>;

fn m(s: &str) -> Comp {
    Comp::M(s.to_string())
}
fn under(mut pre: Vec<Comp>, f: Fail) -> Fail {
    f.map(|v| {
        pre.extend(v);
        pre
    })
}

/// how decoding the node as that shape fails, if it does
pub fn fail(sh: &Sh, n: &Node) -> Fail {
    match sh {
        Sh::Leaf(ok, name, _) => {
            if ok(n) {
                None
            } else {
                Some(vec![Comp::Leaf(name())])
            }
        }
        Sh::Data(x, _) => fail(x, n),
        Sh::Vec(x) => match n {
            Node::A(_, v) => v.iter().enumerate().find_map(|(i, e)| under(vec![m("Vec"), Comp::M(i.to_string())], fail(x, e))),
            _ => Some(vec![m("Vec")]),
        },
        Sh::Def(d) => fail_def(d, n),
    }
}
fn fail_def(d: &'static Def, n: &Node) -> Fail {
    let t = Comp::T(d.name);
    let here = Some(vec![t.clone()]);
    let n = match (d.tag, n) {
        (None, n) => n,
        (Some(t), Node::G(_, v, x)) if *v == t => x,
        _ => return here,
    };
    let member = |name: &str, sh: &Sh, n: &Node| under(vec![t.clone(), m(name)], fail(sh, n));
    match &d.lay {
        Lay::Arr(fs, lastopt) => match n {
            Node::A(_, v) if v.len() == fs.len() || (*lastopt && v.len() + 1 == fs.len()) => {
                fs.iter().zip(v).find_map(|((name, sh), x)| member(name, sh, x))
            }
            _ => here,
        },
        Lay::Flat(fs) => match fs {
            [(name, sh)] => member(name, sh, n),
            _ => here,
        },
        Lay::Map(ks) => match n {
            Node::M(_, v) => {
                let mut seen = vec![];
                for (k, x) in v {
                    let k = match k {
                        Node::U(_, k) => *k,
                        _ => return Some(vec![t, Comp::Opt("u64")]),
                    };
                    let Some((_, name, sh, _)) = ks.iter().find(|y| y.0 == k) else { return here };
                    if seen.contains(&k) {
                        return here;
                    }
                    seen.push(k);
                    if let Some(f) = member(name, sh, x) {
                        return Some(f);
                    }
                }
                if ks.iter().any(|y| y.3 && !seen.contains(&y.0)) {
                    return here;
                }
                None
            }
            _ => here,
        },
        Lay::Num(ns) => match n {
            Node::U(_, v) if ns.contains(v) => None,
            Node::U(..) => here,
            _ => Some(vec![t, Comp::Opt("u64")]),
        },
        Lay::Var(vs) => match n {
            Node::A(_, v) if !v.is_empty() => match &v[0] {
                Node::U(_, k) => match vs.iter().find(|y| y.0 == *k) {
                    Some((_, var, fs)) if v.len() == fs.len() + 1 => {
                        fs.iter().zip(&v[1..]).find_map(|((name, sh), x)| under(vec![t.clone(), m(var), m(name)], fail(sh, x)))
                    }
                    _ => here,
                },
                _ => Some(vec![t, Comp::Opt("u64")]),
            },
            _ => here,
        },
        Lay::Type(vs) => match vs.iter().find(|y| y.0 == n.kind()) {
            None => here,
            Some((_, _, None)) => None,
            Some((_, name, Some(sh))) => member(name, sh, n),
        },
    }
}

/// how decoding from bytes whose next element is torn or malformed fails
fn malformed(sh: &Sh, b: &[u8]) -> Vec<Comp> {
    match sh {
        Sh::Leaf(_, name, _) => vec![Comp::Leaf(name())],
        Sh::Data(_, name) => vec![Comp::Leaf(name())],
        Sh::Vec(_) => vec![m("Vec")],
        Sh::Def(d) => {
            let mut out = vec![Comp::T(d.name)];
            if d.tag.is_some() {
                return out;
            }
            match &d.lay {
                Lay::Arr(..) | Lay::Map(_) | Lay::Var(_) => (),
                Lay::Flat(fs) => {
                    let mut rest = b;
                    for (name, sh) in *fs {
                        match parse(rest) {
                            Some((n, end)) => {
                                if let Some(f) = fail(sh, &n) {
                                    out.push(m(name));
                                    out.extend(f);
                                    return out;
                                }
                                rest = &rest[end..];
                            }
                            None => {
                                out.push(m(name));
                                out.extend(malformed(sh, rest));
                                return out;
                            }
                        }
                    }
                }
                Lay::Num(_) => out.push(Comp::Opt("u64")),
                Lay::Type(vs) => {
                    // the type shows in the first byte
                    let mut first = b[..b.len().min(1)].to_vec();
                    if !first.is_empty() {
                        first.extend_from_slice(&[0; 8]);
                    }
                    if let Some((_, name, Some(sh))) = vs.iter().find(|y| Some(y.0) == kind_at(&first)) {
                        out.push(m(name));
                        out.extend(malformed(sh, b));
                    }
                }
            }
            out
        }
    }
}

/// how decoding the bytes from their start fails; the length read otherwise
pub fn judge(d: &'static Def, b: &[u8]) -> Result<usize, Vec<Comp>> {
    if let (Lay::Flat(fs), None) = (&d.lay, d.tag) {
        let mut at = 0;
        for (name, sh) in *fs {
            let pre = vec![Comp::T(d.name), m(name)];
            match parse(&b[at..]) {
                Some((n, end)) => {
                    if let Some(f) = under(pre, fail(sh, &n)) {
                        return Err(f);
                    }
                    at += end;
                }
                None => return Err(under(pre, Some(malformed(sh, &b[at..]))).unwrap()),
            }
        }
        return Ok(at);
    }
    match parse(b) {
        Some((n, end)) => match fail_def(d, &n) {
            None => Ok(end),
            Some(f) => Err(f),
        },
        None => Err(malformed(&Sh::Def(d), b)),
    }
}

/// compare what the refusal reports (outermost first) with what is expected
pub fn same(got: &[String], want: &[Comp]) -> bool {
    let mut i = 0;
    for (k, w) in want.iter().enumerate() {
        let g = got.get(i).map(|x| x.as_str());
        match w {
            Comp::T(t) => {
                if g.map(last_segment) != Some(t) {
                    return false;
                }
            }
            Comp::M(x) => {
                if g != Some(x) {
                    return false;
                }
            }
            Comp::Leaf(x) => {
                if g != Some(x) {
                    return false;
                }
            }
            Comp::Opt(x) => {
                if g.is_none() && k + 1 == want.len() {
                    return true;
                }
                if g != Some(x) {
                    return false;
                }
            }
        }
        i += 1;
    }
    i == got.len()
}
pub fn last_segment(s: &str) -> &str {
    s.rsplit("::").next().unwrap_or(s)
}

// -------------------------------------------------------------- addresses ---

/// Follow reported names down into a record; returns the steps to the deepest
/// place in this record that the names lead to, and how many names led there.
pub fn locate(d: &'static Def, path: &[String], rec: &[Node]) -> (Vec<usize>, usize) {
    let mut steps = vec![];
    let mut used = 0;
    if rec.is_empty() {
        return (steps, used);
    }
    match (&d.lay, path) {
        (Lay::Flat(fs), [t, f, rest @ ..]) if fs.len() > 1 && last_segment(t) == d.name => {
            if let Some(i) = fs.iter().position(|x| x.0 == f) {
                if let Some(n) = rec.get(i) {
                    steps.push(i);
                    used = 2;
                    go(&fs[i].1, rest, n, &mut steps, &mut used);
                }
            }
        }
        (Lay::Flat(fs), _) if fs.len() > 1 => (),
        _ => {
            steps.push(0);
            go(&Sh::Def(d), path, &rec[0], &mut steps, &mut used);
        }
    }
    (steps, used)
}
fn go(sh: &Sh, path: &[String], n: &Node, steps: &mut Vec<usize>, used: &mut usize) {
    match sh {
        Sh::Leaf(..) => (),
        Sh::Data(x, _) => go(x, path, n, steps, used),
        Sh::Vec(x) => {
            let (Node::A(_, v), [_, i, rest @ ..]) = (n, path) else { return };
            let Ok(i) = i.parse::<usize>() else { return };
            if let (Some(e), "Vec") = (v.get(i), path[0].as_str()) {
                steps.push(i);
                *used += 2;
                go(x, rest, e, steps, used)
            }
        }
        Sh::Def(d) => {
            let [t, f, rest @ ..] = path else { return };
            if last_segment(t) != d.name {
                return;
            }
            let mut at = vec![];
            let n = match (d.tag, n) {
                (None, n) => n,
                (Some(t), Node::G(_, v, x)) if *v == t => {
                    at.push(0);
                    x
                }
                _ => return,
            };
            let found = match (&d.lay, n) {
                (Lay::Arr(fs, _), Node::A(_, v)) => fs.iter().position(|x| x.0 == f).and_then(|i| v.get(i).map(|e| (Some(i), fs[i].1, e, rest, 2))),
                (Lay::Flat(fs), n) if fs.len() == 1 && fs[0].0 == f => Some((None, fs[0].1, n, rest, 2)),
                (Lay::Map(ks), Node::M(_, v)) => ks.iter().find(|x| x.1 == f).and_then(|k| {
                    let i = v.iter().position(|e| matches!(e.0, Node::U(_, x) if x == k.0))?;
                    Some((Some(2 * i + 1), k.2, &v[i].1, rest, 2))
                }),
                (Lay::Var(vs), Node::A(_, v)) => match (rest, v.first()) {
                    ([g, rest @ ..], Some(Node::U(_, k))) => vs.iter().find(|x| x.0 == *k && x.1 == f).and_then(|var| {
                        let i = var.2.iter().position(|x| x.0 == g)?;
                        Some((Some(i + 1), var.2[i].1, v.get(i + 1)?, rest, 3))
                    }),
                    _ => None,
                },
                (Lay::Type(vs), n) => vs.iter().find(|x| x.0 == n.kind() && x.1 == f).and_then(|x| Some((None, x.2?, n, rest, 2))),
                _ => None,
            };
            if let Some((step, sh, e, rest, k)) = found {
                steps.extend(at);
                steps.extend(step);
                *used += k;
                go(&sh, rest, e, steps, used)
            }
        }
    }
}

pub fn at<'a>(rec: &'a [Node], steps: &[usize]) -> Option<&'a Node> {
    let (i, rest) = steps.split_first()?;
    let mut n = rec.get(*i)?;
    for s in rest {
        n = match n {
            Node::A(_, v) => v.get(*s)?,
            Node::M(_, v) => {
                let (k, x) = v.get(s / 2)?;
                if s % 2 == 0 {
                    k
                } else {
                    x
                }
            }
            Node::G(_, _, x) if *s == 0 => x,
            _ => return None,
        }
    }
    Some(n)
}
pub fn at_mut<'a>(rec: &'a mut [Node], steps: &[usize]) -> Option<&'a mut Node> {
    let (i, rest) = steps.split_first()?;
    let mut n = rec.get_mut(*i)?;
    for s in rest {
        n = match n {
            Node::A(_, v) => v.get_mut(*s)?,
            Node::M(_, v) => {
                let (k, x) = v.get_mut(s / 2)?;
                if s % 2 == 0 {
                    k
                } else {
                    x
                }
            }
            Node::G(_, _, x) if *s == 0 => x,
            _ => return None,
        }
    }
    Some(n)
}

// ------------------------------------------------------------- generation ---

fn arr(v: Vec<Node>) -> Node {
    Node::A(Some(min_w(v.len() as u64)), v)
}
fn num(v: u64) -> Node {
    Node::U(min_w(v), v)
}
pub fn gen(sh: &Sh, g: &Gen, s: &mut Src, depth: u32) -> Node {
    match sh {
        Sh::Leaf(_, _, f) => f(g, s),
        Sh::Data(x, _) => gen(x, g, s, depth + 1),
        Sh::Vec(x) => {
            let n = if depth > 6 { 0 } else { [0, 1, 2, 3, 11][s.weighted(&[2, 3, 3, 2, 1])] };
            arr((0..n).map(|_| gen(x, g, s, depth + 2)).collect())
        }
        Sh::Def(d) => {
            let n = match &d.lay {
                Lay::Arr(fs, lastopt) => {
                    let n = fs.len() - (*lastopt && s.draw(2) == 0) as usize;
                    arr(fs[..n].iter().map(|f| gen(&f.1, g, s, depth + 1)).collect())
                }
                Lay::Flat(fs) => gen(&fs[0].1, g, s, depth + 1),
                Lay::Map(ks) => {
                    let v: Vec<_> =
                        ks.iter().filter(|k| k.3 || s.draw(2) == 1).map(|k| (k.0, k.2)).collect::<Vec<_>>().into_iter().map(|(k, sh)| (num(k), gen(&sh, g, s, depth + 1))).collect();
                    Node::M(Some(min_w(v.len() as u64)), v)
                }
                Lay::Num(ns) => num(ns[s.draw(ns.len() as u64) as usize]),
                Lay::Var(vs) => {
                    let n = if depth > 6 { 2 } else { vs.len() };
                    let (k, _, fs) = &vs[s.draw(n as u64) as usize];
                    let mut v = vec![num(*k)];
                    v.extend(fs.iter().map(|f| gen(&f.1, g, s, depth + 1)));
                    arr(v)
                }
                Lay::Type(vs) => {
                    let (_, _, sh) = &vs[s.draw(vs.len() as u64) as usize];
                    match sh {
                        None => Node::C(2),
                        Some(sh) => gen(sh, g, s, depth + 1),
                    }
                }
            };
            match d.tag {
                None => n,
                Some(t) => Node::G(min_w(t), t, Box::new(n)),
            }
        }
    }
}
pub fn gen_rec(d: &'static Def, g: &Gen, s: &mut Src) -> Vec<Node> {
    match &d.lay {
        Lay::Flat(fs) if fs.len() > 1 => fs.iter().map(|f| gen(&f.1, g, s, 1)).collect(),
        _ => vec![gen(&Sh::Def(d), g, s, 0)],
    }
}

// ------------------------------------------------------------ the library ---

pub const PATH_ROUTES: [&str; 15] = [
    "decode_from_bytes", "Reader::decode", "Reader::decode_one", "CborSlice::decode", "CborData::decode", "CborSlice::validate_as",
    "CborData::validate_as", "exact_decodable_slice", "exact_decodable_data", "Tag::decode_data", "Tag::reader", "Array::index", "Map::iter",
    "decode_vec",
    "decode_vec-of-rows",
];
/// routes that take bytes as they are, whole records or not
pub const PLAIN: u64 = 7;
type Dec = fn(&[u8], u64, u64) -> Result<(), DecodeError>;

fn dec<T: Decode>(b: &[u8], route: u64, lead: u64) -> Result<(), DecodeError> {
    let env = |m: u8, n: u64| {
        let mut o = vec![];
        head(&mut o, m, min_w(n), n);
        o
    };
    // as the `lead`-th of a row of zeros
    let nth = |pre: &[u8]| {
        let mut o = pre.to_vec();
        for _ in 0..lead {
            o.push(0)
        }
        o.extend_from_slice(b);
        o.extend_from_slice(&[0, 0]);
        o
    };
    let kept = raw_data(b);
    let slice: &CborSlice = std::borrow::Borrow::borrow(&kept);
    match route {
        0 => decode_from_bytes::<T>(b).map(|_| ()),
        1 => Reader::new(b).decode::<T>().map(|_| ()),
        2 => Reader::new(b).decode_one::<T>().map(|_| ()),
        3 => slice.decode::<T>().map(|_| ()),
        4 => kept.decode::<T>().map(|_| ()),
        5 => slice.validate_as::<T>().map(|_| ()),
        6 => kept.validate_as::<T>().map(|_| ()),
        7 => Reader::new(b).exact_decodable_slice::<T>().map(|_| ()),
        8 => Reader::new(b).exact_decodable_data::<T>().map(|_| ()),
        9 | 10 => {
            let mut o = env(6, 4000 + lead);
            o.extend_from_slice(b);
            let mut r = Reader::new(&o);
            let t = r.tag().map_err(|e| DecodeErrorKind::ReaderError(e).context_str("harness"))?;
            if route == 9 {
                t.decode_data::<T>().map(|_| ())
            } else {
                t.reader().decode_one::<T>().map(|_| ())
            }
        }
        11 => {
            let o = nth(&env(4, lead + 3));
            let mut r = Reader::new(&o);
            let a = r.array().map_err(|e| DecodeErrorKind::ReaderError(e).context_str("harness"))?;
            a[lead as usize].decode::<T>().map(|_| ())
        }
        12 => {
            let mut o = env(5, 1);
            o.push(0x07);
            o.extend_from_slice(b);
            let mut r = Reader::new(&o);
            let a = r.map().map_err(|e| DecodeErrorKind::ReaderError(e).context_str("harness"))?;
            for (_, mut v) in a.iter() {
                v.decode::<T>()?;
            }
            Ok(())
        }
        // the bytes are already a row of records
        13 => decode_vec::<T>(&mut Reader::new(b)).map(|_| ()),
        // or a row of rows
        _ => decode_vec::<Row<T>>(&mut Reader::new(b)).map(|_| ()),
    }
}
pub struct PathTy {
    pub def: &'static Def,
    pub dec: Dec,
    /// several elements in a row
    pub seq: bool,
}
macro_rules! tys {
    ($($d:ident $t:ty, $seq:expr;)*) => { pub const TYPES: &[PathTy] = &[$(PathTy { def: &$d, dec: dec::<$t>, seq: $seq }),*]; };
}
tys! {
    TOP Top, false;
    CHOICE Choice, false;
    KEYED Keyed, false;
    INDEX Index, false;
    ANY Any, false;
    LAST Last, false;
    WRAP Wrap, false;
    STDS Stds, false;
    SLIM Slim, false;
    LEAFS Leafs, false;
    PAIR Pair, false;
    KIND3 Kind3, false;
    BEFORE StatementOfAccountInTheMonthBefore, false;
    CORRECTED StatementOfAccountWithItsCorrections, false;
    RUN Run, true;
    RUNREC RunRec, true;
}
