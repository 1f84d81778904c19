//! What scripts, aggregations and tallies should give: a small interpreter of its own, and the runs that compare.

use simkit::*;
use std::collections::BTreeMap;
use witnet_data_structures::{
    chain::{RADAggregate, RADFilter, RADRequest, RADTally, RADType, tapi::all_wips_active},
    proto::versioning::ProtocolVersion,
    radon_report::Stage,
};
use witnet_rad::{
    CborValue as Cbor, cbor_to_vec,
    types::{RadonType, RadonTypes},
};

use crate::oracle::{Fault, Page, Witnesses, encode, hex, retrieve};

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Int(i128),
    Float(f64),
    Bool(bool),
    Str(String),
    Bytes(Vec<u8>),
    Arr(Vec<V>),
    Map(BTreeMap<String, V>),
}
use V::*;

/// Why there is no value. `Unclear`: the rounding decides.
#[derive(Clone, Debug, PartialEq)]
pub enum No {
    Error,
    Unclear,
}
type R<T = V> = Result<T, No>;

impl V {
    fn kind(&self) -> u8 {
        match self {
            Arr(_) => 0,
            Bool(_) => 1,
            Bytes(_) => 2,
            Float(_) => 4,
            Int(_) => 5,
            Map(_) => 6,
            Str(_) => 7,
        }
    }
    fn ok(self) -> R {
        Ok(self)
    }
}

pub fn read(r: &RadonTypes) -> Option<V> {
    Some(match r {
        RadonTypes::Integer(i) => Int(i.value()),
        RadonTypes::Float(f) => Float(f.value()),
        RadonTypes::Boolean(b) => Bool(b.value()),
        RadonTypes::String(s) => Str(s.value()),
        RadonTypes::Bytes(b) => Bytes(b.value()),
        RadonTypes::Array(a) => Arr(a.value().iter().map(read).collect::<Option<_>>()?),
        RadonTypes::Map(m) => Map(m.value().iter().map(|(k, v)| read(v).map(|v| (k.clone(), v))).collect::<Option<_>>()?),
        RadonTypes::RadonError(_) => return None,
    })
}

/// The same, except for the last bits of floats.
fn alike(a: &V, b: &V) -> bool {
    match (a, b) {
        (Float(a), Float(b)) => a.to_bits() == b.to_bits() || a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-9 * a.abs().max(b.abs()),
        (Arr(a), Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| alike(a, b)),
        (Map(a), Map(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.0 == b.0 && alike(a.1, b.1)),
        _ => a == b,
    }
}

fn cbor(v: &V) -> Cbor {
    match v {
        Int(i) => Cbor::Integer(*i),
        Float(f) => Cbor::Float(*f),
        Bool(b) => Cbor::Bool(*b),
        Str(s) => Cbor::Text(s.clone()),
        Bytes(b) => Cbor::Bytes(b.clone()),
        Arr(a) => Cbor::Array(a.iter().map(cbor).collect()),
        Map(m) => Cbor::Map(m.iter().map(|(k, v)| (Cbor::Text(k.clone()), cbor(v))).collect()),
    }
}

fn json(v: &V) -> String {
    match v {
        Int(i) => i.to_string(),
        Float(f) => format!("{f:?}"),
        Bool(b) => b.to_string(),
        Str(s) => serde_json::Value::String(s.clone()).to_string(),
        Bytes(_) => unreachable!(),
        Arr(a) => format!("[{}]", a.iter().map(json).collect::<Vec<_>>().join(", ")),
        Map(m) => format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", serde_json::Value::String(k.clone()), json(v))).collect::<Vec<_>>().join(",")),
    }
}

/// Calls, each with the kind of value it is meant for.
type Script = Vec<(Op, u8)>;

/// One call of a script.
#[derive(Clone, Debug)]
pub enum Op {
    Same,
    // Arrays
    Count,
    Filter(Script),
    FilterBy(By),
    At(u8, i128, Vec<String>),
    Each(Script),
    Reduce(u8),
    Sort(Option<Script>),
    // Maps
    Get(u8, String, Vec<String>),
    Keys,
    Values,
    // Strings
    AsBool,
    AsBytes(Option<u8>),
    AsFloat(Vec<String>),
    AsInt(Vec<String>),
    Len,
    Match(BTreeMap<String, V>, V),
    JsonArray(Option<Paths>),
    JsonMap(Option<Path>),
    XmlMap,
    Lower,
    Upper,
    Replace(String, String),
    Slice(i32, Option<i32>),
    Split(String),
    // Bytes
    Text(Option<u8>),
    Hash,
    ToInt(Option<bool>),
    BytesLen,
    BytesSlice(i32, Option<i32>),
    // Numbers
    Abs,
    Greater(V),
    Less(V),
    Modulo(V),
    Times(V),
    Negate,
    Power(u32),
    ToBytes(Option<bool>),
    ToFloat,
    ToText,
    Ceil,
    Floor,
    Round,
    Trunc,
    // An argument too many, or none where there should be.
    Extra(Box<Op>, V),
    Bare(Box<Op>),
}

/// Where in a document.
#[derive(Clone, Debug)]
pub enum Paths {
    One(Path),
    Many(Vec<Path>),
}
type Path = Vec<Step>;
#[derive(Clone, Debug)]
pub enum Step {
    Key(String),
    Quoted(String),
    Index(usize),
    All,
    /// Not a path at all.
    Bad,
}

fn spell(path: &Path) -> String {
    path.iter().fold("$".to_string(), |s, step| match step {
        Step::Key(k) => format!("{s}.{k}"),
        Step::Quoted(k) => format!("{s}['{k}']"),
        Step::Index(i) => format!("{s}[{i}]"),
        Step::All => format!("{s}[*]"),
        Step::Bad => format!("x{s}"),
    })
}

/// Everything there.
fn find(path: &Path, v: &V) -> R<Vec<V>> {
    path.iter().try_fold(vec![v.clone()], |found, step| {
        Ok(match step {
            Step::Bad => return Err(No::Error),
            Step::Key(k) | Step::Quoted(k) => found.iter().filter_map(|v| if let Map(m) = v { m.get(k).cloned() } else { None }).collect(),
            Step::Index(i) => found.iter().filter_map(|v| if let Arr(a) = v { a.get(*i).cloned() } else { None }).collect(),
            Step::All => found
                .iter()
                .flat_map(|v| match v {
                    Arr(a) => a.clone(),
                    Map(m) => m.values().cloned().collect(),
                    _ => vec![],
                })
                .collect(),
        })
    })
}

/// An element: its name, its attributes, and what is in it.
#[derive(Clone, Debug)]
pub struct Xml(String, BTreeMap<String, String>, Vec<Node>);
#[derive(Clone, Debug)]
pub enum Node {
    Element(Xml),
    Words(String),
}

fn escape(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;")
}

impl Xml {
    fn write(&self) -> String {
        let attrs: String = self.1.iter().map(|(k, v)| format!(" {k}=\"{}\"", escape(v))).collect();
        if self.2.is_empty() {
            return format!("<{}{attrs}/>", self.0);
        }
        let inner: String = self
            .2
            .iter()
            .map(|n| match n {
                Node::Element(x) => x.write(),
                Node::Words(s) => escape(s),
            })
            .collect();
        format!("<{}{attrs}>{inner}</{}>", self.0, self.0)
    }

    /// As in WIP 21.
    fn value(&self, depth: u32) -> R {
        if depth > 20 {
            return Err(No::Error);
        }
        let mut words = vec![];
        let mut inner: BTreeMap<String, Vec<V>> = BTreeMap::new();
        for n in &self.2 {
            match n {
                Node::Words(s) if s.trim().is_empty() => {}
                Node::Words(s) => words.push(Str(s.trim().to_string())),
                Node::Element(x) => inner.entry(x.0.clone()).or_default().push(x.value(depth + 1)?),
            }
        }
        let one_or_more = |mut v: Vec<V>| if v.len() == 1 { v.pop().unwrap() } else { Arr(v) };
        if self.1.is_empty() && inner.is_empty() {
            return Ok(if words.is_empty() { Str(String::new()) } else { one_or_more(words) });
        }
        let mut m: BTreeMap<String, V> = self.1.iter().map(|(k, v)| (format!("@{k}"), Str(v.clone()))).collect();
        if !words.is_empty() {
            m.insert("_text".into(), one_or_more(words));
        }
        m.extend(inner.into_iter().map(|(k, v)| (k, one_or_more(v))));
        Ok(Map(m))
    }
}

fn some_xml(ctx: &Ctx, depth: u32) -> Xml {
    let name = |ctx: &Ctx| (*ctx.pick(&["a", "b", "price", "Data", "x-y"])).to_string();
    let words = |ctx: &Ctx| match ctx.below(4) {
        0 => (*ctx.pick(&[" ", "\n\t", " a & b ", "<1>", "é"])).to_string(),
        _ => some_text(ctx).replace('\n', " "),
    };
    if depth == 3 && ctx.chance(1, 12) {
        // Deep, around the limit.
        let n = ctx.range(18, 22);
        return (0..n).fold(Xml("a".into(), BTreeMap::new(), vec![]), |x, _| Xml("a".into(), BTreeMap::new(), vec![Node::Element(x)]));
    }
    let attrs = (0..ctx.skewed(3)).map(|_| (name(ctx), some_text(ctx).replace('\n', " "))).collect();
    let mut nodes = vec![];
    // Words never follow on words.
    for _ in 0..ctx.skewed(5) {
        if !matches!(nodes.last(), Some(Node::Words(_))) && (depth == 0 || ctx.chance(1, 2)) {
            let w = words(ctx);
            if !w.is_empty() {
                nodes.push(Node::Words(w));
            }
        } else if depth > 0 {
            nodes.push(Node::Element(some_xml(ctx, depth - 1)));
        }
    }
    Xml(name(ctx), attrs, nodes)
}

/// A filter of an array.
#[derive(Clone, Debug, PartialEq)]
pub enum By {
    Mode,
    Sigmas(f64),
    SigmasInt(i128),
}

/// The code of a call depends on what it is called on.
fn pack(op: &Op, on: u8) -> Cbor {
    use Op::*;
    let script = |s: &Script| Cbor::Array(s.iter().map(|(o, on)| pack(o, *on)).collect());
    let texts = |s: &[String]| s.iter().map(|s| Cbor::Text(s.clone())).collect::<Vec<_>>();
    let opt = |e: &Option<u8>| e.iter().map(|e| Cbor::Integer((*e).into())).collect::<Vec<_>>();
    let little = |e: &Option<bool>| e.iter().map(|e| Cbor::Integer((*e).into())).collect::<Vec<_>>();
    let range = |a: &i32, b: &Option<i32>| [Some(*a), *b].iter().flatten().map(|i| Cbor::Integer((*i).into())).collect::<Vec<_>>();
    let get = |base: u8, kind: u8| match kind {
        0 => base,
        1 => base + 1,
        2 => base + 2,
        4 => base + 3,
        5 => base + 4,
        6 => base + 5,
        _ => base + 6,
    };
    let (code, args): (u8, Vec<Cbor>) = match op {
        Same => (0, vec![]),
        Count => (0x10, vec![]),
        Filter(s) => (0x11, vec![script(s)]),
        FilterBy(By::Mode) => (0x11, vec![Cbor::Integer(8)]),
        FilterBy(By::Sigmas(f)) => (0x11, vec![Cbor::Integer(5), Cbor::Float(*f)]),
        FilterBy(By::SigmasInt(i)) => (0x11, vec![Cbor::Integer(5), Cbor::Integer(*i)]),
        At(kind, i, sep) => (get(0x13, *kind), [vec![Cbor::Integer(*i)], texts(sep)].concat()),
        Each(s) => (0x1A, vec![script(s)]),
        Reduce(r) => (0x1B, vec![Cbor::Integer((*r).into())]),
        Sort(s) => (0x1D, s.iter().map(|s| script(s)).collect()),
        Get(kind, k, sep) => (get(0x61, *kind), [vec![Cbor::Text(k.clone())], texts(sep)].concat()),
        Keys => (0x68, vec![]),
        Values => (0x69, vec![]),
        AsBool => (0x70, vec![]),
        AsBytes(e) => (0x71, opt(e)),
        AsFloat(s) => (0x72, texts(s)),
        AsInt(s) => (0x73, texts(s)),
        Len => (0x74, vec![]),
        Match(m, d) => (0x75, vec![cbor(&Map(m.clone())), cbor(d)]),
        JsonArray(None) => (0x76, vec![]),
        JsonArray(Some(Paths::One(p))) => (0x76, vec![Cbor::Text(spell(p))]),
        JsonArray(Some(Paths::Many(p))) => (0x76, vec![Cbor::Array(p.iter().map(|p| Cbor::Text(spell(p))).collect())]),
        JsonMap(p) => (0x77, p.iter().map(|p| Cbor::Text(spell(p))).collect()),
        XmlMap => (0x78, vec![]),
        Lower => (0x79, vec![]),
        Upper => (0x7A, vec![]),
        Replace(a, b) => (0x7B, texts(&[a.clone(), b.clone()])),
        Slice(a, b) => (0x7C, range(a, b)),
        Split(a) => (0x7D, texts(&[a.clone()])),
        Text(e) => (0x30, opt(e)),
        Hash => (0x31, vec![Cbor::Integer(10)]),
        ToInt(l) => (0x32, little(l)),
        BytesLen => (0x34, vec![]),
        BytesSlice(a, b) => (0x3C, range(a, b)),
        Abs => (if on == 5 { 0x40 } else { 0x50 }, vec![]),
        Greater(v) => (if on == 5 { 0x43 } else { 0x53 }, vec![cbor(v)]),
        Less(v) => (if on == 5 { 0x44 } else { 0x55 }, vec![cbor(v)]),
        Modulo(v) => (if on == 5 { 0x46 } else { 0x56 }, vec![cbor(v)]),
        Times(v) => (if on == 5 { 0x47 } else { 0x57 }, vec![cbor(v)]),
        Negate => (if on == 1 { 0x22 } else if on == 5 { 0x48 } else { 0x58 }, vec![]),
        Power(e) => (0x49, vec![Cbor::Integer((*e).into())]),
        ToBytes(l) => (0x4A, little(l)),
        ToFloat => (0x41, vec![]),
        ToText => (if on == 1 { 0x20 } else if on == 5 { 0x42 } else { 0x51 }, vec![]),
        Ceil => (0x52, vec![]),
        Floor => (0x54, vec![]),
        Round => (0x5B, vec![]),
        Trunc => (0x5D, vec![]),
        Extra(o, v) => match pack(o, on) {
            Cbor::Array(mut a) => {
                a.push(cbor(v));
                return Cbor::Array(a);
            }
            o => return Cbor::Array(vec![o, cbor(v)]),
        },
        Bare(o) => match pack(o, on) {
            Cbor::Array(mut a) => return a.swap_remove(0),
            o => return o,
        },
    };
    // Sorting without a script is a call with no arguments, not a bare operator.
    if args.is_empty() && !matches!(op, Sort(_)) { Cbor::Integer(code.into()) } else { Cbor::Array([vec![Cbor::Integer(code.into())], args].concat()) }
}


fn slice<'a>(len: usize, a: i32, b: Option<i32>) -> std::ops::Range<usize> {
    let at = |i: i32| (if i < 0 { i as i64 + len as i64 } else { i as i64 }).clamp(0, len as i64) as usize;
    let (a, b) = (at(a), b.map_or(len, at));
    a..b.max(a)
}

fn number(s: &str, sep: &[String]) -> String {
    let thousands = sep.first().map_or(",", |s| s.as_str());
    let decimal = sep.get(1).map_or(".", |s| s.as_str());
    s.replace(thousands, "").replace(decimal, ".")
}

fn words(v: &V) -> R<String> {
    match v {
        Str(s) => Ok(s.clone()),
        Int(i) => Ok(i.to_string()),
        Float(f) if clean(*f) => Ok(f.to_string()),
        Float(_) => Err(No::Unclear),
        Bool(b) => Ok(b.to_string()),
        Bytes(_) => Err(No::Unclear),
        _ => Err(No::Error),
    }
}

fn get(item: &V, kind: u8, sep: &[String]) -> R {
    match kind {
        5 => number(&words(item)?, sep).parse().map(Int).map_err(|_| No::Error),
        4 => number(&words(item)?, sep).parse().map(Float).map_err(|_| No::Error),
        7 => words(item).map(Str),
        2 if !matches!(item, Bytes(_)) => Err(No::Unclear),
        k if k == item.kind() => Ok(item.clone()),
        _ => Err(No::Error),
    }
}

/// Equal down to the bits, as modes compare.
fn same(a: &V, b: &V) -> bool {
    match (a, b) {
        (Float(a), Float(b)) => a.to_bits() == b.to_bits(),
        (Arr(a), Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b)),
        (Map(a), Map(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.0 == b.0 && same(a.1, b.1)),
        _ => a == b,
    }
}

/// Whether there is anything in there that cannot be revealed, or is not equal to itself.
fn odd(v: &V) -> bool {
    match v {
        Int(i) => *i >= 1 << 64 || *i < -(1 << 64),
        Float(f) => !f.is_finite(),
        Arr(a) => a.iter().any(odd),
        Map(m) => m.values().any(odd),
        _ => false,
    }
}

fn spoiled(v: &V) -> bool {
    match v {
        Float(f) => !clean(*f),
        Arr(a) => a.iter().any(spoiled),
        Map(m) => m.values().any(spoiled),
        _ => false,
    }
}

fn mode(a: &[V]) -> R {
    if a.iter().any(odd) {
        return Err(No::Unclear);
    }
    // Equal but for the rounding?
    if a.iter().any(spoiled) && a.iter().enumerate().any(|(i, v)| a[..i].iter().any(|w| alike(v, w) && !same(v, w))) {
        return Err(No::Unclear);
    }
    let count = |v: &V| a.iter().filter(|w| same(v, w)).count();
    let best = a.iter().map(|v| count(v)).max().ok_or(No::Error)?;
    let mut winners = a.iter().filter(|v| count(v) == best);
    let first = winners.next().unwrap();
    if winners.all(|w| same(w, first)) { Ok(first.clone()) } else { Err(No::Error) }
}

/// Numbers of one kind, small enough for sums to be exact.
fn numbers(a: &[V]) -> R<Vec<f64>> {
    a.iter()
        .map(|v| match v {
            Int(i) if i.unsigned_abs() <= 1 << 48 => Ok(*i as f64),
            Float(f) if f.abs() <= (1u64 << 40) as f64 => Ok(*f),
            Int(_) | Float(_) => Err(No::Unclear),
            _ => Err(No::Error),
        })
        .collect()
}

fn alike_kinds(a: &[V]) -> bool {
    a.windows(2).all(|w| w[0].kind() == w[1].kind())
}

/// Not spoiled by any rounding.
fn clean(f: f64) -> bool {
    !f.is_finite() || (f.abs() < 1e15 && (f * 1024.0).fract() == 0.0)
}

/// How far the mean and the distances from it can be off.
fn slack(n: &[f64]) -> f64 {
    1e-15 * (n.len() + 4) as f64 * n.iter().fold(0.0, |m, x| x.abs().max(m))
}

/// Whether the sum is exact.
fn exact(n: &[f64]) -> bool {
    n.iter().all(|x| clean(*x)) && n.iter().map(|x| x.abs()).sum::<f64>() < 8e12
}

fn mean(a: &[V]) -> R<f64> {
    let n = numbers(a)?;
    let m = mean_and_sigma(&n).0;
    if exact(&n) || m.abs() * 1e-10 > slack(&n) { Ok(m) } else { Err(No::Unclear) }
}

fn sigma(a: &[V]) -> R<f64> {
    let n = numbers(a)?;
    let sd = mean_and_sigma(&n).1;
    let none = n.iter().all(|x| *x == n[0]) && exact(&n);
    if none || sd * 1e-10 > slack(&n) { Ok(sd) } else { Err(No::Unclear) }
}

fn mean_and_sigma(n: &[f64]) -> (f64, f64) {
    let mean = n.iter().sum::<f64>() / n.len() as f64;
    (mean, (n.iter().map(|x| (x - mean) * (x - mean)).sum::<f64>() / n.len() as f64).sqrt())
}

fn round(f: f64) -> R {
    // Halves go away from zero.
    let near = if clean(f) { 0.0 } else { 1e-7 + 1e-9 * f.abs() };
    if (f.abs().fract() - 0.5).abs() < near { Err(No::Unclear) } else { Ok(Int((f.abs() + 0.5).floor().copysign(f) as i128)) }
}

pub fn reduce(code: u8, a: &[V]) -> R {
    if !alike_kinds(a) {
        return Err(No::Error);
    }
    match (code, a.first()) {
        (2, _) => mode(a),
        (3 | 7, None) => Ok(Float(f64::NAN)),
        (3, Some(Int(_))) => round(mean(a)?),
        (3, Some(Float(_))) => mean(a).map(Float),
        (7, Some(Int(_) | Float(_))) => sigma(a).map(Float),
        (3 | 7, Some(Arr(first))) => {
            // Columns.
            let rows: Vec<&Vec<V>> = a.iter().map(|r| if let Arr(r) = r { r } else { unreachable!() }).collect();
            if rows.iter().any(|r| r.len() != first.len()) {
                return Err(No::Error);
            }
            let columns: Vec<Vec<V>> = (0..first.len()).map(|i| rows.iter().map(|r| r[i].clone()).collect()).collect();
            columns.iter().map(|c| reduce(code, c)).collect::<R<Vec<V>>>().map(Arr)
        }
        (5, Some(Int(_) | Float(_))) => {
            if a.iter().any(odd) {
                return Err(No::Unclear);
            }
            let mut s = a.to_vec();
            s.sort_by(|a, b| match (a, b) {
                (Int(a), Int(b)) => a.cmp(b),
                (Float(a), Float(b)) => a.partial_cmp(b).unwrap(),
                _ => unreachable!(),
            });
            let n = s.len() / 2;
            if s.len() % 2 == 1 { Ok(s[n].clone()) } else { reduce(3, &s[n - 1..=n]) }
        }
        (0xb, Some(Bytes(_))) => {
            let mut all = vec![];
            for b in a {
                let Bytes(b) = b else { unreachable!() };
                let b = &b[..b.len().min(32)];
                all.extend(vec![0; 32 - b.len()]);
                all.extend(b);
            }
            Ok(Bytes(witnet_crypto::hash::calculate_sha256(&all).0.to_vec()))
        }
        (0xb, Some(Str(_))) => Err(No::Unclear),
        _ => Err(No::Error),
    }
}

/// Which items stay.
pub fn keep(by: &By, a: &[V]) -> R<Vec<bool>> {
    if !alike_kinds(a) {
        return Err(No::Error);
    }
    let sigmas = match by {
        By::Mode => {
            let m = mode(a)?;
            return Ok(a.iter().map(|v| same(v, &m)).collect());
        }
        By::Sigmas(f) => *f,
        By::SigmasInt(i) => *i as f64,
    };
    match a.first() {
        None => return Ok(vec![]),
        Some(Int(_) | Float(_)) => {}
        Some(Arr(first)) => {
            // Whoever is far off in any of the columns is out.
            let rows: Vec<&Vec<V>> = a.iter().map(|r| if let Arr(r) = r { r } else { unreachable!() }).collect();
            if first.is_empty() || !alike_kinds(first) || matches!(first[0], Arr(_)) || rows.iter().any(|r| r.len() != first.len()) {
                return Err(No::Error);
            }
            let columns: Vec<R<Vec<bool>>> = (0..first.len()).map(|i| keep(by, &rows.iter().map(|r| r[i].clone()).collect::<Vec<_>>())).collect();
            if columns.contains(&Err(No::Error)) {
                return Err(No::Error);
            }
            let columns = columns.into_iter().collect::<R<Vec<_>>>()?;
            return Ok((0..rows.len()).map(|j| columns.iter().all(|c| c[j])).collect());
        }
        _ => return Err(No::Error),
    }
    let n = numbers(a)?;
    let (mean, sd) = mean_and_sigma(&n);
    if n.iter().all(|x| *x == n[0]) && exact(&n) {
        // Even zero times any distance, unless that is no number.
        return if sigmas.is_finite() { Ok(vec![true; n.len()]) } else { Err(No::Unclear) };
    }
    n.iter()
        .map(|x| {
            let (d, limit) = ((x - mean).abs(), sigmas * sd);
            if (d - limit).abs() <= 1e-7 * (1.0 + d + limit.abs()) + slack(&n) * (1.0 + sigmas.abs()) { Err(No::Unclear) } else { Ok(d < limit) }
        })
        .collect()
}

/// What is known of the texts.
pub struct World {
    pub docs: BTreeMap<String, V>,
    pub xml: BTreeMap<String, Xml>,
    pub v2_1: bool,
}

impl World {
    fn doc(&self, s: &str) -> R {
        match self.docs.get(s) {
            Some(v) => Ok(v.clone()),
            None => match serde_json::from_str::<serde_json::Value>(s) {
                Ok(serde_json::Value::Array(_) | serde_json::Value::Object(_)) => Err(No::Unclear),
                _ => Err(No::Error),
            },
        }
    }

    /// With a path, documents can be anything.
    fn whole(&self, s: &str, path: bool) -> R {
        match self.doc(s) {
            Err(No::Error) if path && serde_json::from_str::<serde_json::Value>(s).is_ok() => Err(No::Unclear),
            d => d,
        }
    }

    pub fn run(&self, s: &[(Op, u8)], v: &V) -> R {
        s.iter().try_fold(v.clone(), |v, (op, on)| {
            // Calls have one code for every kind of value.
            if *on != v.kind() && !matches!(op, Op::Same) { Err(No::Error) } else { self.eval(op, &v) }
        })
    }

    pub fn eval(&self, op: &Op, v: &V) -> R {
        use Op::*;
        if !self.v2_1 && matches!(op, Replace(..) | Slice(..) | Split(_) | ToInt(_) | BytesLen | BytesSlice(..) | ToBytes(_)) {
            return Err(No::Error);
        }
        match (op, v) {
            (Same, v) => v.clone().ok(),
            (Count, Arr(a)) => Ok(Int(a.len() as i128)),
            (Filter(s), Arr(a)) => {
                let mut out = vec![];
                for x in a {
                    match self.run(s, x)? {
                        Bool(true) => out.push(x.clone()),
                        Bool(false) => {}
                        _ => return Err(No::Error),
                    }
                }
                Arr(out).ok()
            }
            (FilterBy(by), Arr(a)) => Arr(a.iter().zip(keep(by, a)?).filter(|(_, k)| *k).map(|(v, _)| v.clone()).collect()).ok(),
            (At(kind, i, sep), Arr(a)) => get(usize::try_from(*i).ok().and_then(|i| a.get(i)).ok_or(No::Error)?, *kind, sep),
            (Each(s), Arr(a)) => a.iter().map(|x| self.run(s, x)).collect::<R<Vec<V>>>().map(Arr),
            (Reduce(code), Arr(a)) => reduce(*code, a),
            (Sort(s), Arr(a)) => {
                let keys = a.iter().map(|x| self.run(s.as_deref().unwrap_or(&[]), x)).collect::<R<Vec<V>>>()?;
                if !alike_kinds(a) || !alike_kinds(&keys) || !keys.iter().all(|k| matches!(k, Int(_) | Str(_))) {
                    return Err(No::Error);
                }
                let mut order: Vec<usize> = (0..a.len()).collect();
                // Equal keys stay in order.
                order.sort_by(|i, j| {
                    match (&keys[*i], &keys[*j]) {
                        (Int(a), Int(b)) => a.cmp(b),
                        (Str(a), Str(b)) => a.cmp(b),
                        _ => unreachable!(),
                    }
                    .then(i.cmp(j))
                });
                Arr(order.into_iter().map(|i| a[i].clone()).collect()).ok()
            }
            (Get(kind, k, sep), Map(m)) => get(m.get(k).ok_or(No::Error)?, *kind, sep),
            (Keys, Map(m)) => Arr(m.keys().cloned().map(Str).collect()).ok(),
            (Values, Map(m)) => Arr(m.values().cloned().collect()).ok(),
            (AsBool, Str(s)) => match s.strip_suffix('\n').unwrap_or(s) {
                "true" => Ok(Bool(true)),
                "false" => Ok(Bool(false)),
                _ => Err(No::Error),
            },
            (AsBytes(None | Some(0)), Str(s)) => {
                let s = s.strip_prefix("0x").unwrap_or(s);
                if !s.chars().all(|c| c.is_ascii_hexdigit()) {
                    return Err(No::Error);
                }
                let s = if s.len() % 2 == 1 { format!("0{s}") } else { s.to_string() };
                Ok(Bytes((0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()))
            }
            (AsBytes(Some(0x80)), Str(s)) => Ok(Bytes(s.clone().into_bytes())),
            (AsBytes(_), Str(_)) => Err(No::Error),
            (AsFloat(sep), Str(s)) => number(s.strip_suffix('\n').unwrap_or(s), sep).parse().map(Float).map_err(|_| No::Error),
            (AsInt(sep), Str(s)) => number(s.strip_suffix('\n').unwrap_or(s), sep).parse().map(Int).map_err(|_| No::Error),
            (Len, Str(s)) => Ok(Int(s.len() as i128)),
            (Match(m, d), Str(s)) => match m.get(s) {
                None => d.clone().ok(),
                Some(v) if v.kind() == d.kind() => v.clone().ok(),
                Some(v) if matches!(d, Str(_)) && !matches!(v, Bytes(_)) => Err(No::Error),
                Some(_) => Err(No::Unclear),
            },
            (JsonArray(paths), Str(s)) => {
                let doc = self.whole(s, paths.is_some())?;
                match (paths, doc) {
                    (None, v @ Arr(_)) => Ok(v),
                    (None, _) => Err(No::Error),
                    (Some(Paths::One(p)), v) => find(p, &v).map(Arr),
                    // What there is more of in one place stays together.
                    (Some(Paths::Many(p)), v) => {
                        let found = p.iter().map(|p| find(p, &v)).collect::<R<Vec<_>>>()?;
                        Arr(found.into_iter().flat_map(|f| if f.len() > 1 { vec![Arr(f)] } else { f }).collect()).ok()
                    }
                }
            }
            (JsonMap(path), Str(s)) => {
                let doc = self.whole(s, path.is_some())?;
                let v = match path {
                    None => doc,
                    Some(p) => find(p, &doc)?.into_iter().next().ok_or(No::Error)?,
                };
                if matches!(v, Map(_)) { Ok(v) } else { Err(No::Error) }
            }
            (XmlMap, Str(s)) => match self.xml.get(s) {
                Some(x) => Ok(Map(BTreeMap::from([(x.0.clone(), x.value(0)?)]))),
                None if s.contains('<') => Err(No::Unclear),
                None => Err(No::Error),
            },
            (Extra(o, _), v) if matches!(**o, Sort(_)) && matches!(v, Arr(_)) => Err(No::Error),
            (Extra(o, _), v) => self.eval(o, v),
            (Bare(_), _) => Err(No::Error),
            (Lower, Str(s)) => Ok(Str(s.to_lowercase())),
            (Upper, Str(s)) => Ok(Str(s.to_uppercase())),
            (Replace(a, b), Str(s)) => Ok(Str(s.replace(a.as_str(), b))),
            (Slice(a, b), Str(s)) => s.get(slice(s.len(), *a, *b)).map(|s| Str(s.to_string())).ok_or(No::Error).or_else(|e| if slice(s.len(), *a, *b).is_empty() { Ok(Str(String::new())) } else { Err(e) }),
            (Split(a), Str(s)) => Arr(s.split(a.as_str()).map(|s| Str(s.to_string())).collect()).ok(),
            (Text(e), Bytes(b)) => match e {
                None | Some(0) => Ok(Str(hex(b))),
                _ if !self.v2_1 => Ok(Str(hex(b))),
                Some(0x80) => Ok(Str(String::from_utf8(b.clone()).unwrap_or_default())),
                Some(0x11) => Ok(Str(base64(b))),
                Some(0x10) => Err(No::Unclear),
                _ => Err(No::Error),
            },
            (Hash, Bytes(b)) => Ok(Bytes(witnet_crypto::hash::calculate_sha256(b).0.to_vec())),
            (BytesLen, Bytes(b)) => Ok(Int(b.len() as i128)),
            (BytesSlice(a, z), Bytes(b)) => Ok(Bytes(b[slice(b.len(), *a, *z)].to_vec())),
            (ToInt(little), Bytes(b)) => {
                if b.is_empty() || b.len() > 16 {
                    return Err(No::Error);
                }
                // Padded to 16 bytes at the front, in either order.
                let mut b = [vec![0; 16 - b.len()], b.clone()].concat();
                if *little == Some(true) {
                    b.reverse();
                }
                Ok(Int(b.iter().fold(0u128, |n, d| n << 8 | u128::from(*d)) as i128))
            }
            (Negate, Bool(b)) => Ok(Bool(!b)),
            (ToText, v @ (Int(_) | Float(_) | Bool(_))) => words(v).map(Str),
            (Abs, Int(i)) => i.checked_abs().map(Int).ok_or(No::Error),
            (Negate, Int(i)) => i.checked_neg().map(Int).ok_or(No::Error),
            (Greater(Int(n)), Int(i)) => Ok(Bool(i > n)),
            (Less(Int(n)), Int(i)) => Ok(Bool(i < n)),
            (Modulo(Int(n)), Int(i)) => i.checked_rem(*n).map(Int).ok_or(No::Error),
            (Times(Int(n)), Int(i)) => i.checked_mul(*n).map(Int).ok_or(No::Error),
            (Power(n), Int(i)) => i.checked_pow(*n).map(Int).ok_or(No::Error),
            (ToBytes(little), Int(i)) => Ok(Bytes(if *little == Some(true) { i.to_le_bytes() } else { i.to_be_bytes() }.to_vec())),
            (ToFloat, Int(i)) => Ok(Float(*i as f64)),
            (Abs, Float(f)) => Ok(Float(f.abs())),
            (Negate, Float(f)) => Ok(Float(-f)),
            (Greater(Float(n)) | Less(Float(n)), Float(f)) if !clean(*f) && (f - n).abs() <= 1e-7 * f.abs() => Err(No::Unclear),
            (Modulo(Float(n)), Float(f)) if !clean(*f) && (f % n).abs().min(n.abs() - (f % n).abs()) <= 1e-6 * f.abs() => Err(No::Unclear),
            (Ceil | Floor | Trunc, Float(f)) if !clean(*f) && f.fract().abs().min(1.0 - f.fract().abs()) <= 1e-6 * f.abs() => Err(No::Unclear),
            (Greater(Float(n)), Float(f)) => Ok(Bool(f > n)),
            (Less(Float(n)), Float(f)) => Ok(Bool(f < n)),
            (Modulo(Float(n)), Float(f)) => Ok(Float(f % n)),
            (Times(Float(n)), Float(f)) => Ok(Float(f * n)),
            (Ceil, Float(f)) => Ok(Int(f.ceil() as i128)),
            (Floor, Float(f)) => Ok(Int(f.floor() as i128)),
            (Trunc, Float(f)) => Ok(Int(*f as i128)),
            (Round, Float(f)) => round(*f),
            _ => Err(No::Error),
        }
    }
}

fn base64(b: &[u8]) -> String {
    let abc: Vec<char> = ('A'..='Z').chain('a'..='z').chain('0'..='9').chain(['+', '/']).collect();
    b.chunks(3)
        .map(|c| {
            let n = c.iter().fold(0u32, |n, b| n << 8 | u32::from(*b)) << (8 * (3 - c.len()));
            (0..4).map(|i| if i <= c.len() { abc[(n >> (18 - 6 * i)) as usize & 63] } else { '=' }).collect::<String>()
        })
        .collect()
}

fn some_int(ctx: &Ctx) -> i128 {
    match ctx.below(8) {
        0 => *ctx.pick(&[0, 1, -1, 2, i128::from(i64::MAX), i128::from(i64::MIN), i128::from(u64::MAX)]),
        1 => -(ctx.skewed(5000) as i128),
        2 => ctx.below(1 << 40) as i128,
        _ => ctx.skewed(40) as i128,
    }
}

/// Never a whole number: those are read as integers.
fn some_float(ctx: &Ctx) -> f64 {
    let f = ctx.skewed(2000) as f64 + *ctx.pick(&[0.5, 0.25, 0.75]);
    if ctx.chance(1, 4) { -f } else { f }
}

fn some_text(ctx: &Ctx) -> String {
    match ctx.below(10) {
        0 => String::new(),
        1 => (*ctx.pick(&["true", "false", "true\n", "True", "false\n\n", "1", "-12", "1,234", "1.234,5", "12 345,25", "1,000.5", "7\n", "+3", "0x1F", "abc", "0xabcd", "-0.5", "1e3", " 4"])).to_string(),
        2 => (*ctx.pick(&["é", "ñandú", "日本", "ÄÖ", "a😀b"])).to_string(),
        3 => some_int(ctx).to_string(),
        4 => some_float(ctx).to_string(),
        5 => hex(&ctx.bytes(ctx.idx(40))),
        _ => (0..ctx.skewed(12)).map(|_| *ctx.pick(&['a', 'b', 'c', 'A', '1', ',', '.', ' '])).collect(),
    }
}

fn key(ctx: &Ctx) -> String {
    (*ctx.pick(&["a", "b", "price", "Data", "x y", "", "é", "10"])).to_string()
}

fn some(ctx: &Ctx, kind: u8, depth: u32) -> V {
    match kind {
        5 => Int(some_int(ctx)),
        4 => Float(some_float(ctx)),
        1 => Bool(ctx.chance(1, 2)),
        7 => Str(some_text(ctx)),
        0 => {
            let n = ctx.skewed(7) as usize;
            let kinds: &[u8] = if depth == 0 { &[5, 5, 4, 7, 1] } else { &[5, 5, 4, 7, 1, 0, 6] };
            let kind = *ctx.pick(kinds);
            // Rows of one length, mostly.
            if kind == 0 && ctx.chance(1, 2) {
                let (m, kind) = (ctx.idx(4), *ctx.pick(&[5, 4, 7]));
                return Arr((0..n).map(|_| Arr((0..m).map(|_| some(ctx, kind, 0)).collect())).collect());
            }
            let pool: Vec<V> = (0..n.div_ceil(2)).map(|_| some(ctx, kind, depth.saturating_sub(1))).collect();
            Arr((0..n)
                .map(|_| match ctx.below(12) {
                    0 => some(ctx, *ctx.pick(kinds), depth.saturating_sub(1)),
                    1..=5 => ctx.pick(&pool).clone(),
                    _ => some(ctx, kind, depth.saturating_sub(1)),
                })
                .collect())
        }
        _ => Map((0..ctx.skewed(5)).map(|_| (key(ctx), some(ctx, *ctx.pick(if depth == 0 { &[5, 4, 7, 1] } else { &[5, 4, 7, 1, 0, 0, 6, 6] }), depth.saturating_sub(1)))).collect()),
    }
}

fn by(ctx: &Ctx) -> By {
    match ctx.below(4) {
        0 | 1 => By::Mode,
        2 => By::Sigmas(ctx.below(300) as f64 / 100.0),
        _ => By::SigmasInt(ctx.below(4) as i128),
    }
}

fn seps(ctx: &Ctx, v: &V) -> Vec<String> {
    match v {
        Str(s) if s.contains(' ') => vec![" ".into(), ",".into()],
        Str(s) if s.contains(',') && ctx.chance(1, 2) => vec![".".into(), ",".into()],
        _ => (0..ctx.idx(3)).map(|_| (*ctx.pick(&[",", ".", " ", "'"])).to_string()).collect(),
    }
}

fn other(ctx: &Ctx, v: &V) -> V {
    match v {
        Int(i) if ctx.chance(1, 3) => Int(*i).clamped(),
        Int(_) => Int(some_int(ctx)),
        Float(f) if ctx.chance(1, 3) => Float(*f),
        _ => Float(some_float(ctx)),
    }
}

fn span(ctx: &Ctx, len: usize) -> (i32, Option<i32>) {
    let n = |ctx: &Ctx| ctx.below(2 * len as u64 + 6) as i32 - len as i32 - 3;
    (n(ctx), if ctx.chance(1, 3) { None } else { Some(n(ctx)) })
}

/// A way into a document, now and then one that leads nowhere.
fn path(ctx: &Ctx, doc: &V) -> Path {
    if ctx.chance(1, 40) {
        return vec![Step::Bad];
    }
    let mut at = vec![doc.clone()];
    let mut path = vec![];
    for _ in 0..ctx.skewed(5) {
        let step = match at.first() {
            Some(Map(m)) => {
                let keys: Vec<&String> = m.keys().collect();
                let k = if keys.is_empty() || ctx.chance(1, 20) { key(ctx) } else { (*ctx.pick(&keys)).clone() };
                if ctx.chance(1, 10) {
                    Step::All
                } else if k.is_empty() || k.contains(' ') || ctx.chance(1, 3) {
                    Step::Quoted(k)
                } else {
                    Step::Key(k)
                }
            }
            Some(Arr(a)) => {
                if ctx.chance(1, 2) {
                    Step::All
                } else {
                    Step::Index(ctx.idx(a.len() + usize::from(ctx.chance(1, 10)) + usize::from(a.is_empty())))
                }
            }
            _ => break,
        };
        path.push(step);
        at = find(&path, doc).unwrap_or_default();
    }
    path
}

fn json_op(ctx: &Ctx, doc: &V) -> Op {
    match ctx.below(6) {
        0 => Op::JsonArray(Some(Paths::One(path(ctx, doc)))),
        1 => Op::JsonArray(Some(Paths::Many((0..ctx.skewed(5)).map(|_| path(ctx, doc)).collect()))),
        2 => Op::JsonMap(Some(path(ctx, doc))),
        _ if matches!(doc, Arr(_)) => Op::JsonArray(None),
        _ => Op::JsonMap(None),
    }
}

fn op(ctx: &Ctx, w: &World, v: &V, depth: u32) -> Op {
    use Op::*;
    let o = plain(ctx, w, v, depth);
    match o {
        Greater(_) | Less(_) | Modulo(_) | Times(_) | Power(_) if ctx.chance(1, 12) => {
            let more = if ctx.chance(1, 2) { other(ctx, v) } else { Str("x".into()) };
            Extra(Box::new(o), more)
        }
        Sort(Some(_)) if ctx.chance(1, 12) => Extra(Box::new(o), Arr(vec![])),
        Greater(_) | Less(_) | Modulo(_) | Times(_) | Power(_) | Match(..) | Filter(_) | FilterBy(_) | Each(_) | Reduce(_) | At(..) | Get(..) if ctx.chance(1, 60) => Bare(Box::new(o)),
        o => o,
    }
}

fn plain(ctx: &Ctx, w: &World, v: &V, depth: u32) -> Op {
    use Op::*;
    if ctx.chance(1, 40) {
        return Same;
    }
    match v {
        Arr(a) => match ctx.below(if depth == 0 { 6 } else { 12 }) {
            0 => Count,
            1 => FilterBy(by(ctx)),
            2 => Reduce(*ctx.pick(&[2, 3, 3, 5, 5, 7, 0xb, 0])),
            3 if ctx.chance(1, 2) => Sort(None),
            3..=5 => {
                let i = if ctx.chance(1, 12) { some_int(ctx) } else { ctx.idx(a.len() + 1) as i128 };
                let item = a.get(i.max(0) as usize);
                let kind = item.filter(|_| ctx.chance(3, 4)).map_or_else(|| *ctx.pick(&[0, 1, 4, 5, 6, 7]), V::kind);
                At(kind, i, if matches!(kind, 4 | 5) { item.map_or(vec![], |v| seps(ctx, v)) } else { vec![] })
            }
            6 | 7 => {
                let mut s = script(ctx, w, a.first(), ctx.idx(3), depth - 1);
                // Something to decide on.
                let last = a.first().and_then(|v| w.run(&s, v).ok());
                match last {
                    Some(v @ (Int(_) | Float(_))) => {
                        let o = other(ctx, &v);
                        s.push((if ctx.chance(1, 2) { Greater(o) } else { Less(o) }, v.kind()))
                    }
                    Some(Str(_)) => s.push((Match(BTreeMap::from([(some_text(ctx), Bool(true)), (some_text(ctx), Bool(true))]), Bool(false)), 7)),
                    _ => {}
                }
                Filter(s)
            }
            8 | 9 => Each(script(ctx, w, a.first(), 1 + ctx.idx(3), depth - 1)),
            _ => Sort(Some(script(ctx, w, a.first(), ctx.idx(3), depth - 1))),
        },
        Map(m) => match ctx.below(6) {
            0 => Keys,
            1 => Values,
            _ => {
                let keys: Vec<&String> = m.keys().collect();
                let k = if keys.is_empty() || ctx.chance(1, 12) { key(ctx) } else { (*ctx.pick(&keys)).clone() };
                let item = m.get(&k);
                let kind = item.filter(|_| ctx.chance(4, 5)).map_or_else(|| *ctx.pick(&[0, 1, 4, 5, 6, 7]), V::kind);
                Get(kind, k, if matches!(kind, 4 | 5) { item.map_or(vec![], |v| seps(ctx, v)) } else { vec![] })
            }
        },
        Str(s) => match ctx.below(12) {
            0 => AsBool,
            1 => AsBytes(*ctx.pick(&[None, Some(0), Some(0x80), Some(7)])),
            2 => AsFloat(seps(ctx, v)),
            3 => AsInt(seps(ctx, v)),
            4 => Len,
            5 => {
                let d = *ctx.pick(&[5, 4, 7, 1]);
                let kinds = if ctx.chance(1, 5) { *ctx.pick(&[5, 7]) } else { d };
                let mut m: BTreeMap<String, V> = (0..ctx.idx(3)).map(|_| (some_text(ctx), some(ctx, kinds, 0))).collect();
                if ctx.chance(2, 3) {
                    m.insert(s.clone(), some(ctx, kinds, 0));
                }
                Match(m, some(ctx, d, 0))
            }
            6 => match ctx.below(4) {
                0 => JsonArray(None),
                1 => JsonMap(None),
                2 => XmlMap,
                _ => JsonArray(Some(Paths::One(vec![]))),
            },
            7 => (*ctx.pick(&[&Lower, &Upper])).clone(),
            8 => Replace((*ctx.pick(&["a", "b", "1", "aa", ","])).to_string(), (*ctx.pick(&["", "x", "ab", "1"])).to_string()),
            9 | 10 => {
                let (a, b) = span(ctx, s.len());
                Slice(a, b)
            }
            _ => Split((*ctx.pick(&["a", ",", " ", "b", "1"])).to_string()),
        },
        Bytes(b) => match ctx.below(6) {
            0 | 1 => Text(*ctx.pick(&[None, Some(0), Some(0x80), Some(0x11), Some(3)])),
            2 => Hash,
            3 => BytesLen,
            4 => {
                let (a, z) = span(ctx, b.len());
                BytesSlice(a, z)
            }
            _ => ToInt(*ctx.pick(&[None, Some(false), Some(true)])),
        },
        Bool(_) => (*ctx.pick(&[&Negate, &ToText])).clone(),
        Int(_) => match ctx.below(10) {
            0 => Abs,
            1 => Negate,
            2 => Greater(other(ctx, v)),
            3 => Less(other(ctx, v)),
            4 => Modulo(if ctx.chance(1, 10) { Int(0) } else { other(ctx, v) }),
            5 => Times(other(ctx, v)),
            6 => Power(ctx.skewed(7) as u32),
            7 => ToBytes(*ctx.pick(&[None, Some(false), Some(true)])),
            8 => ToFloat,
            _ => ToText,
        },
        Float(_) => match ctx.below(11) {
            0 => Abs,
            1 => Negate,
            2 => Greater(other(ctx, v)),
            3 => Less(other(ctx, v)),
            4 => Modulo(other(ctx, v)),
            5 => Times(other(ctx, v)),
            6 => Ceil,
            7 => Floor,
            8 => Round,
            9 => Trunc,
            _ => ToText,
        },
    }
}

fn script(ctx: &Ctx, w: &World, on: Option<&V>, n: usize, depth: u32) -> Script {
    let mut out = vec![];
    let Some(mut v) = on.cloned() else { return out };
    for _ in 0..n {
        let mut tries = 0;
        let (o, r) = loop {
            let o = op(ctx, w, &v, depth);
            let r = w.eval(&o, &v);
            tries += 1;
            if r.is_ok() || tries == 4 || ctx.chance(1, 16) {
                break (o, r);
            }
        };
        out.push((o, v.kind()));
        match r {
            Ok(x) => v = x,
            Err(_) => break,
        }
    }
    out
}

fn filter(by: &By) -> RADFilter {
    let (op, args) = match by {
        By::Mode => (8, vec![]),
        By::Sigmas(f) => (5, cbor_to_vec(&Cbor::Float(*f)).unwrap()),
        By::SigmasInt(i) => (5, cbor_to_vec(&Cbor::Integer(*i)).unwrap()),
    };
    RADFilter { op, args }
}

fn filters(ctx: &Ctx) -> Vec<By> {
    (0..ctx.skewed(3)).map(|_| by(ctx)).collect()
}

/// Filters, then the reducer; and who was filtered out.
fn aggregate(by: &[By], reducer: u8, a: &[V]) -> R<(V, Vec<bool>)> {
    let mut out = vec![false; a.len()];
    for f in by {
        let left: Vec<usize> = (0..a.len()).filter(|i| !out[*i]).collect();
        let keep = keep(f, &left.iter().map(|i| a[*i].clone()).collect::<Vec<_>>())?;
        for (i, k) in left.iter().zip(keep) {
            out[*i] = !k;
        }
    }
    let left: Vec<V> = (0..a.len()).filter(|i| !out[*i]).map(|i| a[i].clone()).collect();
    Ok((reduce(reducer, &left)?, out))
}

/// The kind that more have than any other; None for a tie.
fn majority(kinds: &[u8]) -> (usize, Option<u8>) {
    let count = |k: u8| kinds.iter().filter(|x| **x == k).count();
    let best = (0..8).map(count).max().unwrap();
    let mut w = (0..8).filter(|k| count(*k) == best);
    let first = w.next();
    (best, if w.next().is_some() { None } else { first })
}

const ERROR: u8 = 3;

/// What a witness makes of what the sources gave.
fn combine(by: &[By], reducer: u8, sources: &[R]) -> R {
    if sources.iter().any(|s| matches!(s, Err(No::Unclear))) {
        return Err(No::Unclear);
    }
    let kinds: Vec<u8> = sources.iter().map(|s| s.as_ref().map_or(ERROR, V::kind)).collect();
    match majority(&kinds).1 {
        None | Some(ERROR) => Err(No::Error),
        Some(k) => aggregate(by, reducer, &sources.iter().flatten().filter(|v| v.kind() == k).cloned().collect::<Vec<_>>()).map(|x| x.0),
    }
}

/// The result of a request is what its scripts say.
pub fn o02(ctx: &Ctx) -> Res {
    let n = 1 + ctx.idx(3);
    let routes: [&[Option<&str>]; 4] = [&[None], &[None, Some("http://proxy.test:1/")], &[Some("http://proxy.test:1/"), Some("http://proxy.test:2/")], &[None, Some("http://proxy.test:1/"), Some("http://proxy.test:2/")]];
    let transports: Vec<Vec<Option<&str>>> = (0..n).map(|_| if ctx.chance(1, 3) { ctx.pick(&routes).to_vec() } else { vec![None] }).collect();
    let wit = Witnesses::new(ctx, n, &transports);
    let wips = all_wips_active();
    while ctx.more(8) {
        let v2_1 = ctx.chance(1, 2);
        let mut w = World { docs: BTreeMap::new(), xml: BTreeMap::new(), v2_1 };
        let sources = if ctx.chance(1, 2) { 1 } else { 1 + ctx.skewed(6) as usize };
        {
            let mut web = wit.web.borrow_mut();
            web.pages.clear();
            web.faults.clear();
        }
        let mut retrieves = vec![];
        let mut scripts: Vec<Script> = vec![];
        let mut starts: Vec<V> = vec![];
        let mut docs: Vec<V> = vec![];
        let alike_docs = ctx.chance(3, 4);
        for k in 0..sources {
            // The other sources say something like the first one.
            let start = if k > 0 && alike_docs {
                let d = vary(ctx, &docs[0]);
                docs.push(d.clone());
                place(ctx, &mut w, &starts[0], &d)
            } else {
                let d = match ctx.below(9) {
                    8 => {
                        let x = some_xml(ctx, 3);
                        let s = x.write();
                        w.xml.insert(s.clone(), x);
                        Str(s)
                    }
                    0 => some(ctx, 7, 0),
                    1 => Bytes(ctx.bytes(*ctx.pick(&[0, 1, 3, 8, 15, 16, 17, 32, 33]))),
                    2..=4 => some(ctx, 0, 2),
                    _ => some(ctx, 6, 3),
                };
                docs.push(d.clone());
                match d {
                    Str(_) | Bytes(_) => d,
                    d => {
                        let s = json(&d);
                        w.docs.insert(s.clone(), d);
                        Str(s)
                    }
                }
            };
            let s = if k > 0 && alike_docs && ctx.chance(9, 10) {
                scripts[0].clone()
            } else {
                let mut s = vec![];
                let mut v = start.clone();
                let text = if let Str(s) = &v { s.as_str() } else { "" };
                let first = if ctx.chance(1, 16) {
                    None
                } else if w.xml.contains_key(text) {
                    Some(Op::XmlMap)
                } else {
                    w.docs.get(text).map(|d| json_op(ctx, d))
                };
                if let Some(o) = first {
                    let r = w.eval(&o, &v);
                    ctx.probe_if(matches!(o, Op::XmlMap) && r.is_ok(), "xml");
                    ctx.probe_if(matches!(o, Op::JsonArray(Some(_)) | Op::JsonMap(Some(_))) && r.is_ok(), "json_path");
                    s.push((o, 7));
                    if let Ok(r) = r {
                        v = r;
                    }
                }
                let len = ctx.skewed(8) as usize + usize::from(matches!(start, Bytes(_)));
                s.extend(script(ctx, &w, Some(&v), len, 2));
                s
            };
            // Bytes are only read as such if the first call is one for bytes.
            let raw = s.first().is_some_and(|(o, on)| *on == 2 && !matches!(o, Op::Same));
            let body = match &start {
                Bytes(b) => b.clone(),
                Str(s) => s.clone().into_bytes(),
                _ => unreachable!(),
            };
            starts.push(match &start {
                Bytes(b) if !raw => Str(String::from_utf8_lossy(b).into_owned()),
                Str(s) if raw => Bytes(s.clone().into_bytes()),
                v => v.clone(),
            });
            wit.web.borrow_mut().pages.push(Page { body, headers: vec![] });
            let kind = if ctx.chance(1, 5) { RADType::HttpPost } else { RADType::HttpGet };
            retrieves.push(retrieve(kind, k, &s.iter().map(|(o, on)| pack(o, *on)).collect::<Vec<_>>()));
            scripts.push(s);
        }
        let by = filters(ctx);
        let reducer = *ctx.pick(&[2, 2, 3, 5, 5, 0xb, 3]);
        let request = RADRequest {
            time_lock: 0,
            retrieve: retrieves,
            aggregate: RADAggregate { filters: by.iter().map(filter).collect(), reducer: reducer.into() },
            tally: RADTally { filters: vec![], reducer: 2 },
        };
        // What goes wrong for whom.
        let mut wants = vec![];
        for i in 0..n {
            let mut got: Vec<R> = vec![];
            for k in 0..sources {
                let mut seen: Vec<R> = vec![];
                for t in &transports[i] {
                    let mut r = w.run(&scripts[k], &starts[k]);
                    if ctx.chance(1, 12) {
                        let (f, name) = match ctx.below(5) {
                            0 => (Fault::Status(*ctx.pick(&[404, 500, 302, 199, 300])), "http status"),
                            1 => (Fault::Refused, "connection refused"),
                            2 => (Fault::BrokenOff(ctx.idx(50)), "body broken off"),
                            3 => (Fault::Slow(ctx.below(20_000_000_000), ctx.below(20_000_000_000)), "slow source"),
                            _ => (Fault::Body(b"\xe9{".to_vec()), "another body"),
                        };
                        r = match &f {
                            Fault::Slow(a, b) if a + b < 9_900_000_000 => r,
                            Fault::Slow(a, b) if a + b < 10_100_000_000 => Err(No::Unclear),
                            Fault::Body(b) => {
                                let raw = scripts[k].first().is_some_and(|(o, on)| *on == 2 && !matches!(o, Op::Same));
                                w.run(&scripts[k], &if raw { Bytes(b.clone()) } else { Str(String::from_utf8_lossy(b).into_owned()) })
                            }
                            _ => Err(No::Error),
                        };
                        ctx.fault(name);
                        ctx.nontrivial();
                        ev!(ctx, "witness {i}, source {k}, {t:?}: {f:?}");
                        wit.web.borrow_mut().faults.insert((wit.ids[i], k, t.map(|s| s.to_string())), f);
                    }
                    seen.push(r);
                }
                got.push(if seen.len() == 1 {
                    seen.pop().unwrap()
                } else {
                    ctx.probe("paranoid");
                    paranoid(&by, reducer, seen)
                });
            }
            wants.push(combine(&by, reducer, &got));
        }
        ctx.op("resolve");
        ev!(ctx, "{scripts:?} of {starts:?}, {by:?}, {reducer}: {wants:?}");
        let results = wit.resolve_as(&request, None, &wips, if v2_1 { ProtocolVersion::V2_1 } else { ProtocolVersion::V2_0 })?;
        for (i, (r, want)) in results.iter().zip(&wants).enumerate() {
            let got = read(r);
            match want {
                Err(No::Unclear) => ctx.probe("unclear"),
                Err(No::Error) => {
                    ensure!(got.is_none(), "wrong-result", "witness {i} makes {r:?} of {scripts:?} on {starts:?}, {by:?}, {reducer}, expected an error");
                    ctx.probe("error");
                }
                Ok(v) => {
                    ensure!(got.as_ref().is_some_and(|g| alike(g, v)), "wrong-result", "witness {i} makes {r:?} of {scripts:?} on {starts:?}, {by:?}, {reducer}, expected {v:?}");
                    ctx.probe("value");
                    ctx.nontrivial();
                    ctx.state(rng::fnv(format!("{v:?}").as_bytes()));
                }
            }
        }
        tally(ctx, &wit)?;
    }
    Ok(())
}

/// Through several transports the values must agree, as far as filters tell.
fn paranoid(by: &[By], reducer: u8, seen: Vec<R>) -> R {
    if seen.iter().any(|s| matches!(s, Err(No::Unclear))) {
        return Err(No::Unclear);
    }
    let Ok(seen) = seen.into_iter().collect::<R<Vec<V>>>() else { return Err(No::Error) };
    let (v, out) = aggregate(by, reducer, &seen)?;
    let agree = out.iter().filter(|o| !**o).count();
    if agree * 100 < 51 * seen.len() { Err(No::Error) } else { Ok(v) }
}

/// The same document, with other numbers in it.
fn vary(ctx: &Ctx, v: &V) -> V {
    match v {
        Int(i) if ctx.chance(1, 2) => Int(i + ctx.below(5) as i128 - 2).clamped(),
        Float(f) if ctx.chance(1, 2) => Float(f + ctx.below(4) as f64),
        Arr(a) => Arr(a.iter().map(|v| vary(ctx, v)).collect()),
        Map(m) => Map(m.iter().map(|(k, v)| (k.clone(), vary(ctx, v))).collect()),
        v => v.clone(),
    }
}
impl V {
    fn clamped(self) -> V {
        match self {
            Int(i) => Int(i.clamp(i64::MIN.into(), u64::MAX.into())),
            v => v,
        }
    }
}

fn place(_: &Ctx, w: &mut World, like: &V, d: &V) -> V {
    match (like, d) {
        (Bytes(_), d @ Bytes(_)) => d.clone(),
        (_, Str(s)) => Str(s.clone()),
        (_, Bytes(b)) => Bytes(b.clone()),
        (_, d) => {
            let s = json(d);
            w.docs.insert(s.clone(), d.clone());
            Str(s)
        }
    }
}

/// Reveals, and what the tally should say about them.
fn tally(ctx: &Ctx, wit: &Witnesses) -> Res {
    use witnet_rad::error::RadError;
    let size = match ctx.below(6) {
        0 => ctx.idx(3),
        1 => 100 + ctx.idx(300),
        _ => 1 + ctx.skewed(30) as usize,
    };
    let kind = *ctx.pick(&[5, 5, 4, 7, 1, 2, 0]);
    let some_of = |ctx: &Ctx, kind: u8| -> V {
        match kind {
            2 => Bytes(ctx.bytes(ctx.idx(40))),
            0 => Arr((0..3).map(|_| Int(ctx.below(3) as i128)).collect()),
            5 if ctx.chance(1, 2) => Int(1000 + ctx.below(20) as i128),
            4 if ctx.chance(1, 2) => Float(50.0 + ctx.below(40) as f64 / 4.0),
            k => some(ctx, k, 0),
        }
    };
    let pool: Vec<V> = (0..1 + ctx.skewed(5)).map(|_| some_of(ctx, kind)).collect();
    let errors = [RadError::RetrieveTimeout, RadError::HttpStatus { status_code: 404 }];
    // How many out of 16 are the first, another one, something else, an error.
    let mix: Vec<u64> = [ctx.below(17), ctx.below(9), ctx.below(3), if ctx.chance(1, 2) { 0 } else { ctx.below(24) }].to_vec();
    let total: u64 = mix.iter().sum::<u64>().max(1);
    let mut reveals: Vec<Result<V, usize>> = (0..size)
        .map(|_| {
            let x = ctx.below(total);
            if x < mix[0] {
                Ok(pool[0].clone())
            } else if x < mix[0] + mix[1] {
                Ok(ctx.pick(&pool).clone())
            } else if x < mix[0] + mix[1] + mix[2] {
                let kind = *ctx.pick(&[5, 4, 7, 1, 2]);
                Ok(some_of(ctx, kind))
            } else {
                Err(usize::from(ctx.chance(1, 4)))
            }
        })
        .collect();
    if ctx.chance(1, 6) {
        // A tie.
        let k = reveals.clone();
        reveals.extend(k.into_iter().map(|r| match r {
            Ok(Int(_)) => Ok(Bool(true)),
            Ok(_) => Ok(Int(1)),
            Err(e) => Err(1 - e),
        }));
    }
    let commits = reveals.len() + if ctx.chance(1, 2) { 0 } else { ctx.skewed(40) as usize };
    let by = filters(ctx);
    let reducer = *ctx.pick(&[2, 2, 3, 5, 0xb]);
    // At the edge, often.
    let percent = if ctx.chance(1, 3) && commits > 0 {
        let same = reveals.iter().filter(|r| matches!(r, Ok(v) if v.kind() == kind)).count();
        (same * 100 / commits) as u64
    } else {
        ctx.range(51, 99)
    };
    let percent = if ctx.chance(1, 6) { ctx.range(10, 50) } else { percent.clamp(51, 99) };
    let too_many = ctx.chance(1, 30);
    let (want, lies, errs) = expected(&reveals, commits, &by, reducer, percent, too_many);
    let bytes: Vec<Vec<u8>> = reveals
        .iter()
        .map(|r| match r {
            Ok(v) => cbor_to_vec(&cbor(v)).unwrap(),
            Err(e) => {
                use witnet_data_structures::radon_error::RadonError;
                encode(&RadonTypes::RadonError(RadonError::try_from(errors[*e].clone()).unwrap()))
            }
        })
        .collect();
    let script = RADTally { filters: by.iter().map(filter).collect(), reducer: reducer.into() };
    ctx.op("tally");
    ev!(ctx, "{} reveals for {commits} commits, {by:?} {reducer} {percent}%: {want:?}", reveals.len());
    let tallies = wit.tally(&bytes, &script, percent as f64 / 100.0, commits, &all_wips_active(), too_many)?;
    if want == Err(Why::Unclear) {
        ctx.probe("tally_unclear");
        return Ok(());
    }
    for t in &tallies {
        let what = || format!("of {reveals:?} for {commits} commits, {by:?}, {reducer}, {percent}%");
        let Stage::Tally(meta) = &t.context.stage else { return Err(Fail::new("wrong-tally", "not a tally")) };
        match (&want, &t.result) {
            (Ok(v), r) => {
                ensure!(read(r).is_some_and(|g| alike(&g, v)), "wrong-tally", "result {r:?}, expected {v:?}, {}", what());
                ctx.probe("tally_value");
            }
            (Err(why), RadonTypes::RadonError(e)) => {
                let got = format!("{:?}", e.inner());
                let name = match why {
                    Why::Reveal(e) => format!("{:?}", errors[*e]),
                    Why::ScriptFails => String::new(),
                    why => format!("{why:?}"),
                };
                // A tie is reported as an error that nobody handled.
                ensure!(got.starts_with(&name) || (*why == Why::ModeTie && got.contains("ModeTie")), "wrong-tally", "error {got}, expected {name}, {}", what());
                ctx.probe(match why {
                    Why::Reveal(_) => "tally_agrees_on_an_error",
                    Why::ModeTie => "tally_tie",
                    Why::InsufficientConsensus => "tally_no_consensus",
                    Why::ScriptFails => "tally_script_fails",
                    _ => "tally_nothing",
                });
            }
            (Err(why), r) => return Err(Fail::new("wrong-tally", format!("result {r:?}, expected {why:?}, {}", what()))),
        }
        if want == Err(Why::ScriptFails) {
            ensure!(meta.liars.len() == lies.len() && lies.iter().zip(&meta.liars).all(|(l, m)| *m || !*l), "wrong-liars", "who is out of consensus {}", what());
        } else {
            ensure_eq!(meta.liars, lies, "wrong-liars", "who is out of consensus {}", what());
        }
        ensure_eq!(meta.errors, errs, "wrong-errors", "who revealed an error {}", what());
    }
    Ok(())
}

#[derive(Clone, Debug, PartialEq)]
enum Why {
    Unclear,
    TooManyWitnesses,
    InsufficientCommits,
    NoReveals,
    InsufficientConsensus,
    ModeTie,
    ScriptFails,
    Reveal(usize),
}

/// The result, who is out of consensus, and who is taken to have revealed an error.
fn expected(reveals: &[Result<V, usize>], commits: usize, by: &[By], reducer: u8, percent: u64, too_many: bool) -> (Result<V, Why>, Vec<bool>, Vec<bool>) {
    let n = reveals.len();
    // Without a consensus nobody is to blame.
    let none = |why: Why| (Err(why), vec![true; n], vec![true; n]);
    if too_many {
        return none(Why::TooManyWitnesses);
    }
    if commits == 0 {
        return none(Why::InsufficientCommits);
    }
    if n == 0 {
        return none(Why::NoReveals);
    }
    let enough = |k: usize| k as u64 * 100 >= percent * commits as u64;
    let kinds: Vec<u8> = reveals.iter().map(|r| r.as_ref().map_or(ERROR, V::kind)).collect();
    let (count, kind) = majority(&kinds);
    if !enough(count) {
        return none(Why::InsufficientConsensus);
    }
    match kind {
        None => none(Why::ModeTie),
        Some(ERROR) => {
            let of = |e: usize| reveals.iter().filter(|r| **r == Err(e)).count();
            let e = usize::from(of(1) > of(0));
            if !enough(of(e)) {
                none(Why::InsufficientConsensus)
            } else if of(0) == of(1) {
                none(Why::ModeTie)
            } else {
                (Err(Why::Reveal(e)), vec![false; n], vec![true; n])
            }
        }
        Some(k) => {
            let who: Vec<usize> = (0..n).filter(|i| kinds[*i] == k).collect();
            let values: Vec<V> = who.iter().map(|i| reveals[*i].clone().unwrap()).collect();
            match aggregate(by, reducer, &values) {
                Err(No::Unclear) => none(Why::Unclear),
                // Filters may have blamed some of the majority before the script failed.
                Err(No::Error) => (Err(Why::ScriptFails), kinds.iter().map(|x| *x != k).collect(), kinds.iter().map(|k| *k == ERROR).collect()),
                Ok((v, out)) => {
                    let mut lies = vec![true; n];
                    for (i, o) in who.iter().zip(&out) {
                        lies[*i] = *o;
                    }
                    let honest = out.iter().filter(|o| !**o).count();
                    if honest as u64 * 100 > percent * commits as u64 {
                        (Ok(v), lies, kinds.iter().map(|k| *k == ERROR).collect())
                    } else {
                        none(Why::InsufficientConsensus)
                    }
                }
            }
        }
    }
}
