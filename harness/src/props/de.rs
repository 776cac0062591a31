//! C18: what is deserialized.

use super::common::*;
use super::edits::State;
use super::scalars::int_of;
use super::serde::edited;
use crate::dynde::{failing, names, Out, Ty, STOPPED};
use crate::engine::*;
use crate::ensure;
use crate::gen::{self, Cfg};
use crate::record::{record, Rec};
use crate::reference::*;
use serde::de::{DeserializeOwned, DeserializeSeed, IntoDeserializer};
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::fmt::Debug;

pub struct C18;

#[derive(Clone, Debug)]
enum Exp {
    Must(Out),
    /// An error.
    Err,
    /// Either an error or something.
    Open,
}

use Exp::{Must, Open};

impl Exp {
    fn map(self, f: impl FnOnce(Out) -> Out) -> Exp {
        match self {
            Must(o) => Must(f(o)),
            e => e,
        }
    }
}

/// All of them, if there are no errors.
fn all(v: impl Iterator<Item = Exp>) -> Result<Vec<Out>, Exp> {
    let mut out = Vec::new();
    let mut open = false;
    for e in v {
        match e {
            Must(o) => out.push(o),
            Exp::Err => return Err(Exp::Err),
            Open => open = true,
        }
    }
    if open {
        Err(Open)
    } else {
        Ok(out)
    }
}

fn finite64(t: &str) -> Option<f64> {
    t.parse::<f64>().ok().filter(|f| f.is_finite())
}

fn any(n: &Node, model: &Node) -> Exp {
    let list = |r: Result<Vec<Out>, Exp>, f: fn(Vec<Out>) -> Out| match r {
        Ok(v) => Must(f(v)),
        Err(e) => e,
    };
    match n {
        Node::Null => Must(Out::Unit),
        Node::Bool(b) => Must(Out::Bool(*b)),
        Node::Num(t) => match int_of(t) {
            Some(Ok((false, v))) => Must(Out::Unsigned(v)),
            Some(Ok((true, 0))) => Must(Out::Unsigned(0)),
            Some(Ok((true, v))) if v <= 1 << 127 => Must(Out::Negative((v as i128).wrapping_neg())),
            // set as 32 bits, it may be either
            _ if matches!(model, Node::Num(m) if m.ends_with("f32")) => Open,
            _ => match finite64(t) {
                Some(f) => Must(Out::F64(f.to_bits())),
                None => Open,
            },
        },
        Node::Str(s) => Must(text_or_bytes(s)),
        Node::Seq(v) => {
            let Node::Seq(m) = model else { return Open };
            list(all(v.iter().zip(m).map(|(n, m)| any(n, m))), Out::Seq)
        }
        Node::Map(v) => {
            let Node::Map(m) = model else { return Open };
            match all(v.iter().zip(m).map(|((_, n), (_, m))| any(n, m))) {
                Ok(vals) => Must(Out::Map(v.iter().map(|(k, _)| text_or_bytes(k)).zip(vals).collect())),
                Err(e) => e,
            }
        }
    }
}

fn text_or_bytes(s: &[u8]) -> Out {
    match std::str::from_utf8(s) {
        Ok(s) => Out::Str(s.into()),
        Err(_) => Out::Bytes(s.into()),
    }
}

fn key(k: &[u8], ty: &Ty) -> Exp {
    let text = std::str::from_utf8(k);
    match ty {
        Ty::Any => Must(text_or_bytes(k)),
        Ty::Ignored => Must(Out::Ignored),
        Ty::Str | Ty::String => text.map_or(Exp::Err, |s| Must(Out::Str(s.into()))),
        Ty::Bytes | Ty::ByteBuf => Must(Out::Bytes(k.into())),
        Ty::Char => one_char(k),
        Ty::Option(t) => key(k, t).map(|o| Out::Some(Box::new(o))),
        Ty::Newtype(t) => key(k, t).map(|o| Out::Newtype(Box::new(o))),
        Ty::Enum(n) => variant(k, n),
        Ty::Seq(_) | Ty::Tuple(_) | Ty::TupleStruct(_) | Ty::Map(..) | Ty::First(..) | Ty::Struct(..) => Exp::Err,
        // the accessors have no numbers for keys
        _ => Open,
    }
}

fn one_char(s: &[u8]) -> Exp {
    let Ok(s) = std::str::from_utf8(s) else { return Exp::Err };
    let mut c = s.chars();
    match (c.next(), c.next()) {
        (Some(c), None) => Must(Out::Char(c)),
        _ => Exp::Err,
    }
}

fn variant(s: &[u8], names: &[&str]) -> Exp {
    match names.iter().position(|n| n.as_bytes() == s) {
        Some(i) => Must(Out::Variant(i)),
        None => Exp::Err,
    }
}

/// What becomes of `n` as a `ty`.
fn expect(n: &Node, model: &Node, ty: &Ty) -> Exp {
    match ty {
        Ty::Any => return any(n, model),
        Ty::Ignored => return Must(Out::Ignored),
        Ty::Option(t) => {
            return match n {
                Node::Null => Must(Out::None),
                _ => expect(n, model, t).map(|o| Out::Some(Box::new(o))),
            }
        }
        Ty::Newtype(t) => return expect(n, model, t).map(|o| Out::Newtype(Box::new(o))),
        _ => {}
    }
    match (n, ty) {
        (Node::Null, Ty::Unit | Ty::UnitStruct) => Must(Out::Unit),
        // some build empty collections or text from nothing
        (Node::Null, Ty::Seq(_) | Ty::Map(..) | Ty::First(..) | Ty::Struct(..) | Ty::Tuple(_) | Ty::TupleStruct(_) | Ty::Enum(_)) => Open,
        (Node::Null | Node::Bool(_) | Node::Num(_), Ty::Str | Ty::String | Ty::Char | Ty::Bytes | Ty::ByteBuf) => Open,
        (Node::Bool(b), Ty::Bool) => Must(Out::Bool(*b)),
        (Node::Bool(_) | Node::Num(_), Ty::Enum(_)) => Open,
        (Node::Num(t), Ty::F32) => match t.parse::<f32>() {
            Ok(f) if f.is_finite() => Must(Out::F32(f.to_bits())),
            _ => Open,
        },
        (Node::Num(t), Ty::F64) => match finite64(t) {
            Some(f) => Must(Out::F64(f.to_bits())),
            None => Open,
        },
        (Node::Num(t), _) => {
            let (unsigned, bits) = match ty {
                Ty::U8 => (true, 8),
                Ty::U16 => (true, 16),
                Ty::U32 => (true, 32),
                Ty::U64 => (true, 64),
                Ty::U128 => (true, 128),
                Ty::I8 => (false, 8),
                Ty::I16 => (false, 16),
                Ty::I32 => (false, 32),
                Ty::I64 => (false, 64),
                Ty::I128 => (false, 128),
                _ => return Exp::Err,
            };
            match int_of(t) {
                Some(Ok((true, 0))) if unsigned => Open,
                Some(Ok((false, v))) if unsigned && (bits == 128 || v >> bits == 0) => Must(Out::Unsigned(v)),
                Some(Ok((false, v))) if !unsigned && v >> (bits - 1) == 0 => Must(Out::Unsigned(v)),
                Some(Ok((true, 0))) => Must(Out::Unsigned(0)),
                Some(Ok((true, v))) if !unsigned && v <= 1 << (bits - 1) => Must(Out::Negative((v as i128).wrapping_neg())),
                _ => Exp::Err,
            }
        }
        (Node::Str(s), Ty::Str | Ty::String) => std::str::from_utf8(s).map_or(Exp::Err, |s| Must(Out::Str(s.into()))),
        (Node::Str(s), Ty::Char) => one_char(s),
        (Node::Str(s), Ty::Bytes | Ty::ByteBuf) => Must(Out::Bytes(s.clone())),
        (Node::Str(s), Ty::Enum(n)) => variant(s, n),
        (Node::Seq(v), Ty::Seq(t)) => {
            let Node::Seq(m) = model else { return Open };
            match all(v.iter().zip(m).map(|(n, m)| expect(n, m, t))) {
                Ok(v) => Must(Out::Seq(v)),
                Err(e) => e,
            }
        }
        (Node::Seq(v), Ty::Tuple(t) | Ty::TupleStruct(t)) => {
            let Node::Seq(m) = model else { return Open };
            if v.len() != t.len() {
                return Exp::Err;
            }
            match all(v.iter().zip(m).zip(t).map(|((n, m), t)| expect(n, m, t))) {
                Ok(v) => Must(Out::Seq(v)),
                Err(e) => e,
            }
        }
        // by position
        (Node::Seq(_), Ty::Struct(..)) => Open,
        (Node::Seq(_) | Node::Map(_), Ty::Enum(_)) => Open,
        // what is not asked for is refused
        (Node::Map(v), Ty::First(n, ..)) if v.len() > *n => Exp::Err,
        (Node::Map(v), Ty::Map(k, t) | Ty::First(_, k, t)) => {
            let Node::Map(m) = model else { return Open };
            let keys = all(v.iter().map(|(n, _)| key(n, k)));
            let vals = all(v.iter().zip(m).map(|((_, n), (_, m))| expect(n, m, t)));
            match (keys, vals) {
                (Ok(k), Ok(v)) => Must(Out::Map(k.into_iter().zip(v).collect())),
                (Err(Exp::Err), _) | (_, Err(Exp::Err)) => Exp::Err,
                _ => Open,
            }
        }
        (Node::Map(v), Ty::Struct(names, t)) => {
            let Node::Map(m) = model else { return Open };
            let fields = names.iter().zip(t).map(|(name, t)| {
                let mut found = v.iter().zip(m).filter(|((k, _), _)| k == name.as_bytes());
                match (found.next(), found.next()) {
                    (None, _) if matches!(t, Ty::Option(_)) => Must(Out::None),
                    (None, _) | (Some(_), Some(_)) => Exp::Err,
                    (Some(((_, n), (_, m))), None) => expect(n, m, t),
                }
            });
            match all(fields) {
                Ok(v) => Must(Out::Struct(v)),
                Err(e) => e,
            }
        }
        _ => Exp::Err,
    }
}

/// Some type which has nothing to do with what is there.
fn odd_ty(src: &mut Src) -> Ty {
    let b = |t| Box::new(t);
    match src.below(31) {
        0 => Ty::Bool,
        1 => Ty::U8,
        2 => Ty::U16,
        3 => Ty::U32,
        4 => Ty::U64,
        5 => Ty::U128,
        6 => Ty::I8,
        7 => Ty::I16,
        8 => Ty::I32,
        9 => Ty::I64,
        10 => Ty::I128,
        11 => Ty::F32,
        12 => Ty::F64,
        13 => Ty::Char,
        14 => Ty::Str,
        15 => Ty::String,
        16 => Ty::Bytes,
        17 => Ty::ByteBuf,
        18 => Ty::Unit,
        19 => Ty::UnitStruct,
        20 => Ty::Option(b(odd_ty(src))),
        21 => Ty::Newtype(b(odd_ty(src))),
        22 => Ty::Seq(b(odd_ty(src))),
        23 => Ty::Tuple((0..src.below(3)).map(|_| odd_ty(src)).collect()),
        24 => Ty::TupleStruct((0..src.below(3)).map(|_| odd_ty(src)).collect()),
        25 => Ty::Map(b(odd_ty(src)), b(odd_ty(src))),
        26 => {
            let n = src.below(3) as usize;
            let f: Vec<String> = (0..n).map(|i| ["a", "b", "x"][i].to_string()).collect();
            Ty::Struct(names(&f), (0..n).map(|_| odd_ty(src)).collect())
        }
        27 => Ty::Enum(names(&["a".into(), "foo".into()])),
        28 => Ty::Ignored,
        29 => Ty::First(src.range(0, 2), b(odd_ty(src)), b(odd_ty(src))),
        _ => Ty::Any,
    }
}

fn key_ty(src: &mut Src, keys: &[&[u8]]) -> Ty {
    match src.weighted(&[6, 2, 2, 1, 1, 1, 1, 1, 2, 1, 1]) {
        0 => Ty::String,
        1 => Ty::Str,
        2 => Ty::Any,
        3 => Ty::Bytes,
        4 => Ty::ByteBuf,
        5 => Ty::Char,
        6 => Ty::Option(Box::new(key_ty(src, keys))),
        7 => Ty::Newtype(Box::new(key_ty(src, keys))),
        8 => Ty::Enum(names_of(src, keys)),
        9 => Ty::Ignored,
        _ => odd_ty(src),
    }
}

/// Some of these, and perhaps others.
fn names_of(src: &mut Src, keys: &[&[u8]]) -> &'static [&'static str] {
    let mut v: Vec<String> = Vec::new();
    for k in keys {
        if let Ok(k) = std::str::from_utf8(k) {
            // kept forever
            if k.len() < 24 && src.chance(7, 8) && !v.iter().any(|o| o == k) && (gen::WORDS.contains(&k) || k.len() <= 3) {
                v.push(k.into());
            }
        }
    }
    while src.chance(1, 4) {
        let w = src.pick(gen::WORDS).to_string();
        if !v.contains(&w) {
            let at = src.range(0, v.len());
            v.insert(at, w);
        }
    }
    names(&v)
}

/// A type which mostly fits all of `ns`.
fn ty_for(src: &mut Src, ns: &[&Node], odd: u32) -> Ty {
    if odd > 0 && src.chance(1, odd) {
        return odd_ty(src);
    }
    match src.weighted(&[20, 2, 2, 1, 2]) {
        0 => {}
        1 => return Ty::Option(Box::new(ty_for(src, ns, odd))),
        2 => return Ty::Newtype(Box::new(ty_for(src, ns, odd))),
        3 => return Ty::Ignored,
        _ => return Ty::Any,
    }
    let some: Vec<&Node> = ns.iter().copied().filter(|n| **n != Node::Null).collect();
    if some.len() < ns.len() && !some.is_empty() {
        return Ty::Option(Box::new(ty_for(src, &some, odd)));
    }
    if ns.is_empty() {
        return odd_ty(src);
    }
    if ns.iter().all(|n| matches!(n, Node::Bool(_))) {
        return Ty::Bool;
    }
    if some.is_empty() {
        return if src.chance(1, 2) { Ty::Unit } else { Ty::UnitStruct };
    }
    if ns.iter().all(|n| matches!(n, Node::Num(_))) {
        let texts: Vec<&str> = ns.iter().map(|n| if let Node::Num(t) = n { t.as_str() } else { "" }).collect();
        let float = texts.iter().any(|t| int_of(t).is_none());
        if float || src.chance(1, 6) {
            return if src.chance(1, 2) { Ty::F32 } else { Ty::F64 };
        }
        let all = [Ty::U8, Ty::I8, Ty::U16, Ty::I16, Ty::U32, Ty::I32, Ty::U64, Ty::I64, Ty::U128, Ty::I128];
        let fit: Vec<Ty> = all.iter().filter(|t| ns.iter().all(|n| matches!(expect(n, n, t), Must(_)))).cloned().collect();
        return if fit.is_empty() { src.pick(&all).clone() } else { src.pick(&fit).clone() };
    }
    if ns.iter().all(|n| matches!(n, Node::Str(_))) {
        let texts: Vec<&[u8]> = ns.iter().map(|n| if let Node::Str(t) = n { t.as_slice() } else { b"" }).collect();
        let utf8 = texts.iter().all(|t| std::str::from_utf8(t).is_ok());
        return match src.weighted(&[4, 3, 2, 2, 2, 1]) {
            _ if !utf8 && src.chance(3, 4) => src.pick(&[Ty::Bytes, Ty::ByteBuf]).clone(),
            0 => Ty::String,
            1 => Ty::Str,
            2 => Ty::Bytes,
            3 => Ty::ByteBuf,
            4 => Ty::Enum(names_of(src, &texts)),
            _ => Ty::Char,
        };
    }
    if ns.iter().all(|n| matches!(n, Node::Seq(_))) {
        let lists: Vec<&Vec<Node>> = ns.iter().filter_map(|n| if let Node::Seq(v) = n { Some(v) } else { None }).collect();
        let n = lists[0].len();
        if lists.iter().all(|l| l.len() == n) && src.chance(2, 3) {
            let mut t: Vec<Ty> = (0..n).map(|i| ty_for(src, &lists.iter().map(|l| &l[i]).collect::<Vec<_>>(), odd)).collect();
            if src.chance(1, 6) {
                if src.chance(1, 2) {
                    t.pop();
                } else {
                    t.push(odd_ty(src));
                }
            }
            return if src.chance(1, 2) { Ty::Tuple(t) } else { Ty::TupleStruct(t) };
        }
        let all: Vec<&Node> = lists.iter().flat_map(|l| l.iter()).collect();
        return Ty::Seq(Box::new(ty_for(src, &all, odd)));
    }
    if ns.iter().all(|n| matches!(n, Node::Map(_))) {
        let maps: Vec<&Vec<(Vec<u8>, Node)>> = ns.iter().filter_map(|n| if let Node::Map(v) = n { Some(v) } else { None }).collect();
        let keys: Vec<&[u8]> = maps.iter().flat_map(|m| m.iter().map(|(k, _)| k.as_slice())).collect();
        if src.chance(2, 3) {
            let names = names_of(src, &keys);
            let t = names
                .iter()
                .map(|f| {
                    let vals: Vec<&Node> = maps.iter().flat_map(|m| m.iter().filter(|(k, _)| k == f.as_bytes()).map(|(_, v)| v)).collect();
                    let everywhere = maps.iter().all(|m| m.iter().any(|(k, _)| k == f.as_bytes()));
                    let t = ty_for(src, &vals, odd);
                    if everywhere || matches!(t, Ty::Option(_)) || src.chance(1, 8) {
                        t
                    } else {
                        Ty::Option(Box::new(t))
                    }
                })
                .collect();
            return Ty::Struct(names, t);
        }
        let all: Vec<&Node> = maps.iter().flat_map(|m| m.iter().map(|(_, v)| v)).collect();
        let (k, t) = (Box::new(key_ty(src, &keys)), Box::new(ty_for(src, &all, odd)));
        if src.chance(1, 4) {
            let n = maps.iter().map(|m| m.len()).max().unwrap_or(0);
            let n = if src.chance(1, 3) { n.saturating_sub(1) } else { n + src.range(0, 1) };
            return Ty::First(n, k, t);
        }
        return Ty::Map(k, t);
    }
    Ty::Any
}

fn same_out(a: &Out, b: &Out, loose32: bool) -> bool {
    match (a, b) {
        (Out::Some(a), Out::Some(b)) | (Out::Newtype(a), Out::Newtype(b)) => same_out(a, b, loose32),
        (Out::Seq(a), Out::Seq(b)) | (Out::Struct(a), Out::Struct(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same_out(a, b, loose32)),
        (Out::Map(a), Out::Map(b)) => a.len() == b.len() && a.iter().zip(b).all(|((k, a), (l, b))| same_out(k, l, loose32) && same_out(a, b, loose32)),
        (Out::F32(a), Out::F32(b)) if loose32 => a.abs_diff(*b) <= 1,
        _ => a == b,
    }
}

fn judge(what: &str, n: &Node, ty: &Ty, want: &Exp, got: &Result<Out, String>) -> Res {
    match (want, got) {
        (Must(w), Ok(g)) if w == g => Ok(()),
        (Must(w), _) => Err(format!("{what}: {n:?} as {ty:?} gives {got:?}, expected {w:?}")),
        (Exp::Err, Ok(g)) => Err(format!("{what}: {n:?} as {ty:?} gives {g:?}, expected an error")),
        (Exp::Err, Err(_)) | (Open, _) => Ok(()),
    }
}

fn dynamic(src: &mut Src, ctx: &mut Ctx) -> Res {
    let standard = src.chance(1, 2);
    let s = if src.chance(1, 6) {
        // whatever else can be read
        let (b, _) = crate::bytes::any_input(src, 100);
        ctx.describe(|| format!("document {}", show(&b)));
        ctx.id(&b);
        let Ok(doc) = parse(&b) else { return Ok(()) };
        ctx.label("any input");
        let model = read_doc(&doc);
        State::new(doc, model)
    } else {
        edited(src, ctx, standard)?
    };
    let seen = read_doc(&s.doc);
    let odd = *src.pick(&[0, 0, 30, 8]);
    // somewhere in the document
    let mut at = Vec::new();
    let (mut n, mut m) = (&seen, &s.model);
    while n.is_coll() && !n.is_empty() && src.chance(1, 4) {
        let i = src.range(0, n.len() - 1);
        at.push(i);
        n = n.child(i);
        m = m.child(i);
    }
    let v = if at.is_empty() { s.doc.as_ref() } else { s.doc.value(crate::edit::id_at(&s.doc, &at)?) };
    let ty = ty_for(src, &[n], odd);
    ctx.describe(|| format!("at {at:?} as {ty:?}"));
    ctx.id(format!("{at:?}{ty:?}").as_bytes());
    ctx.nontrivial = n.count() > 1;
    let want = expect(n, m, &ty);
    ctx.label(match want {
        Must(_) => "builds",
        Exp::Err => "error",
        Open => "open",
    });
    let way = src.below(if at.is_empty() { 4 } else { 2 });
    let build = || {
        let got = match way {
            0 => (&ty).deserialize(s.doc.value(v.id()).into_deserializer()),
            1 => (&ty).deserialize(s.doc.value(v.id())),
            _ => (&ty).deserialize((&s.doc).into_deserializer()),
        };
        got.map_err(|e| e.to_string())
    };
    let got = build();
    judge("deserialized", n, &ty, &want, &got)?;
    // An error of the type is what comes out.
    if src.chance(1, 3) {
        const ALL: u64 = 1 << 40;
        let (_, left) = failing(ALL, build);
        let at = src.below((ALL - left).max(1) as u32);
        if u64::from(at) < ALL - left {
            let (r, _) = failing(at.into(), build);
            ensure!(matches!(&r, Err(e) if e.contains(STOPPED)), "{n:?} as {ty:?}, which fails after {at} steps, gives {r:?}");
        }
    }
    // What an established deserializer makes of the same text.
    if standard && at.is_empty() && !matches!(want, Open) {
        let text = bytes_of(&s.doc);
        let theirs = (&Ty::Any).deserialize(serde_yaml::Deserializer::from_slice(&text));
        let ours = any(n, m);
        if let (Ok(t), Must(o)) = (&theirs, &ours) {
            // they see the same data
            if t == o {
                ctx.label("serde_yaml");
                if let Ok(t) = (&ty).deserialize(serde_yaml::Deserializer::from_slice(&text)) {
                    ensure!(matches!(&got, Ok(g) if same_out(g, &t, true)), "serde_yaml makes {t:?} of {n:?} as {ty:?}, here it is {got:?}");
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------ declared types

trait Gen: Sized {
    fn gen(src: &mut Src) -> Self;
}

macro_rules! int_gen {
    ($($t:ty)*) => { $(
        impl Gen for $t {
            fn gen(src: &mut Src) -> Self {
                match src.below(5) {
                    0 => 0,
                    1 => src.below(100) as $t,
                    2 => <$t>::MAX - src.below(2) as $t,
                    3 => <$t>::MIN + src.below(2) as $t,
                    _ => {
                        let v = (u128::from(src.bits()) << 64 | u128::from(src.bits())) as $t;
                        v >> src.below(<$t>::BITS)
                    }
                }
            }
        }
    )* };
}
int_gen!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);

impl Gen for f64 {
    fn gen(src: &mut Src) -> Self {
        crate::edit::float64(src)
    }
}
impl Gen for f32 {
    fn gen(src: &mut Src) -> Self {
        match src.below(3) {
            0 => *src.pick(&[0.0, -0.0, 0.1, 1.0, -1.5, f32::MAX, f32::MIN_POSITIVE, 1e-45, 16777216.0, 3.4e38]),
            1 => src.below(1000) as f32 / 8.0,
            _ => Some(f32::from_bits(src.bits() as u32)).filter(|f| f.is_finite()).unwrap_or(0.5),
        }
    }
}
impl Gen for bool {
    fn gen(src: &mut Src) -> Self {
        src.chance(1, 2)
    }
}
impl Gen for char {
    fn gen(src: &mut Src) -> Self {
        gen::any_char(src)
    }
}
impl Gen for String {
    fn gen(src: &mut Src) -> Self {
        gen::text(src)
    }
}
impl Gen for () {
    fn gen(_: &mut Src) -> Self {}
}
impl<T: Gen> Gen for Option<T> {
    fn gen(src: &mut Src) -> Self {
        src.chance(1, 2).then(|| T::gen(src))
    }
}
impl<T: Gen> Gen for Vec<T> {
    fn gen(src: &mut Src) -> Self {
        (0..src.len(0, 4, 3, 5)).map(|_| T::gen(src)).collect()
    }
}
impl<T: Gen> Gen for Box<T> {
    fn gen(src: &mut Src) -> Self {
        Box::new(T::gen(src))
    }
}
impl<K: Gen + Ord, T: Gen> Gen for BTreeMap<K, T> {
    fn gen(src: &mut Src) -> Self {
        (0..src.len(0, 4, 3, 5)).map(|_| (K::gen(src), T::gen(src))).collect()
    }
}
impl<T: Gen, const N: usize> Gen for [T; N] {
    fn gen(src: &mut Src) -> Self {
        std::array::from_fn(|_| T::gen(src))
    }
}
macro_rules! tuple_gen {
    ($($t:ident)*) => { impl<$($t: Gen),*> Gen for ($($t,)*) { fn gen(src: &mut Src) -> Self { ($($t::gen(src),)*) } } };
}
tuple_gen!(A);
tuple_gen!(A B);
tuple_gen!(A B C);
tuple_gen!(A B C D);

macro_rules! types {
    ($($(#[$m:meta])* struct $n:ident { $($(#[$fm:meta])* $f:ident: $t:ty),* $(,)? })*) => { $(
        #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
        $(#[$m])*
        struct $n { $($(#[$fm])* $f: $t),* }
        impl Gen for $n { fn gen(src: &mut Src) -> Self { $n { $($f: Gen::gen(src)),* } } }
    )* };
}

types! {
    struct Widths { a: u8, b: u16, c: u32, d: u64, e: u128, f: usize, g: i8, h: i16, i: i32, j: i64, k: i128, l: isize, m: f32, n: f64, o: bool, p: char, q: String, r: () }
    struct Opts { a: Option<u8>, b: Option<String>, c: Option<Vec<bool>>, d: Option<Box<Opts2>>, e: Option<bool>, f: Option<f32> }
    struct Opts2 { x: Option<i128>, y: String }
    struct Lists { a: Vec<String>, b: Vec<(u8, String)>, c: [i32; 3], d: (bool,), e: (u8, Option<char>, f64), f: Vec<Vec<u16>>, g: Pair, h: [(); 2], i: Vec<Newtype> }
    struct Maps { a: BTreeMap<String, u32>, b: BTreeMap<Kind, String>, c: BTreeMap<Name, Vec<i8>>, d: BTreeMap<char, Option<bool>>, e: BTreeMap<String, BTreeMap<String, Kind>> }
    #[serde(deny_unknown_fields)]
    struct Strict { #[serde(rename = "Some Name")] a: u8, #[serde(default)] b: Vec<u8>, c: Kind, d: Marker, e: Newtype, f: Name }
    struct Flat { a: u32, #[serde(flatten)] b: Flat2, #[serde(flatten)] rest: BTreeMap<String, i64> }
    struct Flat2 { inner: String, k: Option<bool> }
    struct Tagged { a: Internal, b: Vec<Internal>, c: Adjacent, d: Untagged, e: Vec<Untagged> }
    struct External { a: Ext, b: Vec<Ext>, c: BTreeMap<String, Ext> }
    struct Texts { a: Cow<'static, str>, b: Box<str>, c: std::path::PathBuf, d: std::net::IpAddr, e: std::num::NonZeroU32, f: std::num::Wrapping<i16>, g: std::collections::BTreeSet<u16>, h: std::collections::VecDeque<char> }
}


impl Gen for Cow<'static, str> {
    fn gen(src: &mut Src) -> Self {
        Cow::Owned(gen::text(src))
    }
}
impl Gen for Box<str> {
    fn gen(src: &mut Src) -> Self {
        gen::text(src).into()
    }
}
impl Gen for std::path::PathBuf {
    fn gen(src: &mut Src) -> Self {
        gen::text(src).into()
    }
}
impl Gen for std::net::IpAddr {
    fn gen(src: &mut Src) -> Self {
        if src.chance(1, 2) {
            <[u8; 4]>::gen(src).into()
        } else {
            <[u16; 8]>::gen(src).into()
        }
    }
}
impl Gen for std::num::NonZeroU32 {
    fn gen(src: &mut Src) -> Self {
        Self::new(u32::gen(src)).unwrap_or(Self::MIN)
    }
}
impl Gen for std::num::Wrapping<i16> {
    fn gen(src: &mut Src) -> Self {
        Self(i16::gen(src))
    }
}
impl Gen for std::collections::BTreeSet<u16> {
    fn gen(src: &mut Src) -> Self {
        Vec::gen(src).into_iter().collect()
    }
}
impl Gen for std::collections::VecDeque<char> {
    fn gen(src: &mut Src) -> Self {
        Vec::gen(src).into()
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Newtype(Vec<Option<u8>>);
impl Gen for Newtype {
    fn gen(src: &mut Src) -> Self {
        Newtype(Gen::gen(src))
    }
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
struct Name(String);
impl Gen for Name {
    fn gen(src: &mut Src) -> Self {
        Name(Gen::gen(src))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Pair(i64, Option<String>);
impl Gen for Pair {
    fn gen(src: &mut Src) -> Self {
        Pair(Gen::gen(src), Gen::gen(src))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Marker;
impl Gen for Marker {
    fn gen(_: &mut Src) -> Self {
        Marker
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
#[serde(rename_all = "kebab-case")]
enum Kind {
    One,
    TwoWords,
    #[serde(rename = "3")]
    Three,
    #[serde(rename = "a: b")]
    Colon,
}
impl Gen for Kind {
    fn gen(src: &mut Src) -> Self {
        *src.pick(&[Kind::One, Kind::TwoWords, Kind::Three, Kind::Colon])
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(tag = "type")]
enum Internal {
    Unit,
    Fields { a: u64, b: Option<String> },
    Inner(Flat2),
}
impl Gen for Internal {
    fn gen(src: &mut Src) -> Self {
        match src.below(3) {
            0 => Internal::Unit,
            1 => Internal::Fields { a: Gen::gen(src), b: Gen::gen(src) },
            _ => Internal::Inner(Gen::gen(src)),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(tag = "t", content = "c")]
enum Adjacent {
    Unit,
    New(i32),
    Tuple(u8, String),
    Fields { a: bool },
}
impl Gen for Adjacent {
    fn gen(src: &mut Src) -> Self {
        match src.below(4) {
            0 => Adjacent::Unit,
            1 => Adjacent::New(Gen::gen(src)),
            2 => Adjacent::Tuple(Gen::gen(src), Gen::gen(src)),
            _ => Adjacent::Fields { a: Gen::gen(src) },
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
enum Untagged {
    Nothing,
    Bool(bool),
    Unsigned(u64),
    Signed(i64),
    Float(f64),
    Text(String),
    List(Vec<Untagged>),
    Fields { only: u8 },
    Map(BTreeMap<String, i64>),
}
impl Gen for Untagged {
    fn gen(src: &mut Src) -> Self {
        match src.below(9) {
            0 => Untagged::Nothing,
            1 => Untagged::Bool(Gen::gen(src)),
            2 => Untagged::Unsigned(Gen::gen(src)),
            3 => Untagged::Signed(i64::gen(src).min(-1)),
            4 => Untagged::Float(f64::gen(src)),
            5 => Untagged::Text(Gen::gen(src)),
            6 => Untagged::List(if src.chance(1, 2) { Gen::gen(src) } else { vec![] }),
            7 => Untagged::Fields { only: Gen::gen(src) },
            _ => Untagged::Map((0..src.below(3)).map(|i| (format!("k{i}"), Gen::gen(src))).collect()),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Ext {
    Unit,
    New(Option<u8>),
    Tuple(u8, String),
    Fields { a: bool, b: Kind },
}
impl Gen for Ext {
    fn gen(src: &mut Src) -> Self {
        match src.below(4) {
            0 => Ext::Unit,
            1 => Ext::New(Gen::gen(src)),
            2 => Ext::Tuple(Gen::gen(src), Gen::gen(src)),
            _ => Ext::Fields { a: Gen::gen(src), b: Gen::gen(src) },
        }
    }
}

/// The data a value serializes to, as a tree.
fn to_node(r: &Rec) -> Option<Node> {
    Some(match r {
        Rec::None | Rec::Unit => Node::Null,
        Rec::Bool(b) => Node::Bool(*b),
        Rec::Unsigned(v) => Node::Num(v.to_string()),
        Rec::Signed(v) => Node::Num(v.to_string()),
        Rec::F32(v) => Node::Num(format!("{v:?}")),
        Rec::F64(v) => Node::Num(format!("{v:?}")),
        Rec::Str(s) => Node::Str(s.clone().into_bytes()),
        Rec::Bytes(b) => Node::Str(b.clone()),
        Rec::Seq(_, v) => Node::Seq(v.iter().map(to_node).collect::<Option<_>>()?),
        Rec::Map(_, v) => Node::Map(
            v.iter()
                .map(|(k, v)| {
                    let k = match k {
                        Rec::Str(s) => s.clone().into_bytes(),
                        Rec::Bytes(b) => b.clone(),
                        _ => return None,
                    };
                    Some((k, to_node(v)?))
                })
                .collect::<Option<_>>()?,
        ),
        Rec::Other(_) => return None,
    })
}

/// Change the data at some place.
fn damage(src: &mut Src, n: &mut Node) {
    let cfg = Cfg { max_nodes: 4, max_depth: 2, ..Cfg::spec() };
    let all = crate::edit::paths(n, |_| true);
    let p = src.pick(&all).clone();
    let at = n.at_mut(&p);
    match (src.below(6), &mut *at) {
        (0, Node::Map(v)) if !v.is_empty() => {
            let i = src.below(v.len() as u32) as usize;
            v.remove(i);
        }
        (0, Node::Seq(v)) if !v.is_empty() => {
            let i = src.below(v.len() as u32) as usize;
            v.remove(i);
        }
        (1, Node::Map(v)) => {
            let k = (*src.pick(&["Unit", "New", "Tuple", "Fields", "a", "b", "t", "c", "type", "one", "zz", "k", "inner", "1"])).as_bytes().to_vec();
            if !v.iter().any(|(o, _)| *o == k) {
                let i = src.below(v.len() as u32 + 1) as usize;
                v.insert(i, (k, gen::scalar(src, &cfg)));
            }
        }
        (1, Node::Seq(v)) => {
            let i = src.below(v.len() as u32 + 1) as usize;
            let new = if !v.is_empty() && src.chance(1, 2) { v[src.below(v.len() as u32) as usize].clone() } else { gen::scalar(src, &cfg) };
            v.insert(i, new);
        }
        (2, Node::Map(v)) if !v.is_empty() => {
            let i = src.below(v.len() as u32) as usize;
            let k = (*src.pick(&["Unit", "New", "Tuple", "Fields", "a", "b", "zz", "one", "3"])).as_bytes().to_vec();
            if !v.iter().any(|(o, _)| *o == k) {
                v[i].0 = k;
            }
        }
        (3, n) => *n = gen::tree(src, &cfg),
        (4, n) => *n = Node::Str((*src.pick(&["one", "Unit", "New", "x", "", "3", "Tuple", "two-words", "a: b"])).as_bytes().to_vec()),
        (_, n) => *n = gen::scalar(src, &cfg),
    }
}

/// Is there any place at which the kinds of what is given and what has been
/// made of it differ?
fn bent(given: &Node, made: &Node) -> bool {
    match (given, made) {
        (Node::Map(a), Node::Map(b)) => b.iter().any(|(k, v)| a.iter().find(|(o, _)| o == k).is_some_and(|(_, o)| bent(o, v))),
        (Node::Seq(a), Node::Seq(b)) => a.iter().zip(b).any(|(a, b)| bent(a, b)),
        (a, b) => std::mem::discriminant(a) != std::mem::discriminant(b),
    }
}

/// Data which might not be that of the type: other deserializers decide.
fn damaged<T: Gen + Debug + PartialEq + Serialize + DeserializeOwned>(src: &mut Src, ctx: &mut Ctx, mut node: Node) -> Res {
    for _ in 0..src.range(1, 2) {
        damage(src, &mut node);
    }
    let d = gen::render(src, &Cfg { crlf: false, ..Cfg::spec() }, &node);
    ctx.id(&d.text);
    ctx.describe(|| format!("{} from {}", std::any::type_name::<T>(), show(&d.text)));
    if diff(&node, &d.tree).is_some() {
        ctx.label("not rendered");
        return Ok(());
    }
    ctx.nontrivial = node.count() > 1;
    let doc = must_parse(&d.text)?;
    eq_tree("read", &d.tree, &read_doc(&doc))?;
    let got = T::deserialize(doc.as_ref());
    let text = std::str::from_utf8(&d.text).map_err(|e| format!("{HARNESS_BUG}{e}"))?;
    let yaml: Result<T, _> = serde_yaml::with::singleton_map_recursive::deserialize(serde_yaml::Deserializer::from_str(text));
    let json: Result<T, _> = if super::serde::plain_data(&d.tree) {
        T::deserialize(super::serde::in_values(&d.tree, false)).map_err(|e| e.to_string())
    } else {
        Err("not JSON".into())
    };
    ctx.label(match (&yaml, &json) {
        (Ok(_), _) => "damaged, fits",
        (Err(_), Ok(_)) => "damaged, fits as JSON",
        _ => "damaged, refused",
    });
    match (got, yaml, json) {
        (Err(_), Err(_), _) => {}
        // another one decides otherwise
        (_, Ok(y), Ok(j)) if y != j => {}
        (Err(e), Ok(y), Ok(_)) => return Err(format!("{} is refused for {} ({e}), others read {y:?}", show(&d.text), std::any::type_name::<T>())),
        (Err(_), Ok(_), Err(_)) => {}
        (Ok(v), Ok(y), _) => ensure!(v == y, "{} is read as {v:?}, others read {y:?}", show(&d.text)),
        (Ok(_), Err(_), Ok(_)) => {}
        // refused for the number only, perhaps
        (Ok(_), Err(_), Err(_)) if !super::serde::plain_data(&d.tree) => {}
        (Ok(v), Err(e), Err(_)) => {
            let made = record(&v).ok().and_then(|r| to_node(&r)).ok_or_else(|| format!("{HARNESS_BUG}not data"))?;
            ensure!(bent(&d.tree, &made), "{} is read as {v:?}, others refuse it: {e}", show(&d.text));
        }
    }
    Ok(())
}

fn back<T: Gen + Debug + PartialEq + Serialize + DeserializeOwned>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let v = T::gen(src);
    let rec = record(&v).map_err(|e| format!("HARNESS_BUG: not recorded: {e}"))?;
    let node = to_node(&rec).ok_or_else(|| format!("HARNESS_BUG: not data: {rec:?}"))?;
    fn twice(n: &Node) -> bool {
        match n {
            Node::Map(v) => (0..v.len()).any(|i| v[..i].iter().any(|(k, _)| *k == v[i].0)) || v.iter().any(|(_, v)| twice(v)),
            Node::Seq(v) => v.iter().any(twice),
            _ => false,
        }
    }
    if twice(&node) {
        // a flattened key which is there already
        return Ok(());
    }
    if src.chance(1, 3) {
        return damaged::<T>(src, ctx, node);
    }
    let cfg = if src.chance(1, 2) { Cfg::spec() } else { Cfg { non_utf8: false, ..Cfg::loose() } };
    let d = gen::render(src, &cfg, &node);
    ctx.id(&d.text);
    ctx.describe(|| format!("{v:?} in {}", show(&d.text)));
    if diff(&node, &d.tree).is_some() {
        // that text does not fit the layout
        ctx.label("not rendered");
        return Ok(());
    }
    ctx.nontrivial = node.count() > 1;
    ctx.label("declared type");
    let doc = must_parse(&d.text)?;
    eq_tree("read", &d.tree, &read_doc(&doc))?;
    let got = T::deserialize(doc.as_ref()).map_err(|e| format!("{v:?} is refused: {e}"))?;
    ensure!(got == v, "{v:?} comes back as {got:?}");
    Ok(())
}

fn declared(src: &mut Src, ctx: &mut Ctx) -> Res {
    match src.below(16) {
        0 => back::<Widths>(src, ctx),
        1 => back::<Opts>(src, ctx),
        2 => back::<Lists>(src, ctx),
        3 => back::<Maps>(src, ctx),
        4 => back::<Strict>(src, ctx),
        5 => back::<Flat>(src, ctx),
        6 => back::<Tagged>(src, ctx),
        7 => back::<External>(src, ctx),
        8 => back::<Texts>(src, ctx),
        9 => back::<Vec<Opts>>(src, ctx),
        10 => back::<BTreeMap<String, Lists>>(src, ctx),
        11 => back::<(Kind, Vec<Untagged>, Option<Newtype>, [Pair; 2])>(src, ctx),
        12 => back::<Vec<Kind>>(src, ctx),
        13 => back::<Option<BTreeMap<Kind, Ext>>>(src, ctx),
        14 => match src.below(8) {
            0 => back::<u128>(src, ctx),
            1 => back::<i128>(src, ctx),
            2 => back::<Name>(src, ctx),
            3 => back::<Marker>(src, ctx),
            4 => back::<()>(src, ctx),
            5 => back::<Option<char>>(src, ctx),
            6 => back::<Kind>(src, ctx),
            _ => back::<f32>(src, ctx),
        },
        _ => back::<Untagged>(src, ctx),
    }
}

/// Deserializes a document into the trees other formats use.
fn trees(src: &mut Src, ctx: &mut Ctx) -> Res {
    let standard = src.chance(1, 2);
    let s = edited(src, ctx, standard)?;
    let seen = read_doc(&s.doc);
    ctx.nontrivial = seen.count() > 1;
    ctx.label("trees");
    fn fits(n: &Node) -> bool {
        match n {
            Node::Num(t) => match int_of(t) {
                Some(Ok((false, v))) => u64::try_from(v).is_ok(),
                Some(Ok((true, v))) => v <= 1 << 63,
                Some(Err(())) => false,
                None => finite64(t).is_some(),
            },
            Node::Str(s) => std::str::from_utf8(s).is_ok(),
            Node::Seq(v) => v.iter().all(fits),
            Node::Map(v) => v.iter().all(|(k, v)| std::str::from_utf8(k).is_ok() && fits(v)) && (0..v.len()).all(|i| v[..i].iter().all(|(k, _)| *k != v[i].0)),
            _ => true,
        }
    }
    let j = serde_json::Value::deserialize(s.doc.as_ref());
    let y = serde_yaml::Value::deserialize(s.doc.as_ref());
    let c = ciborium::Value::deserialize(s.doc.as_ref());
    let _ = (serde::de::IgnoredAny::deserialize(s.doc.as_ref()).map_err(|e| format!("not even ignored: {e}"))?, bool::deserialize(s.doc.as_ref()).is_ok());
    if !fits(&seen) || super::serde::has_f32(&s.model) {
        return Ok(());
    }
    let want = super::serde::in_values(&seen, false);
    let j = j.map_err(|e| format!("not a serde_json::Value: {e}"))?;
    ensure!(j == want, "as a serde_json::Value: {j}, expected {want}");
    let y = y.map_err(|e| format!("not a serde_yaml::Value: {e}"))?;
    let y: serde_json::Value = serde_json::to_value(&y).map_err(|e| format!("HARNESS_BUG: {e}"))?;
    ensure!(y == want, "as a serde_yaml::Value: {y}, expected {want}");
    let c = c.map_err(|e| format!("not a ciborium::Value: {e}"))?;
    let c: serde_json::Value = serde_json::to_value(&c).map_err(|e| format!("HARNESS_BUG: {e}"))?;
    ensure!(c == want, "as a ciborium::Value: {c}, expected {want}");
    Ok(())
}

impl Prop for C18 {
    fn id(&self) -> &'static str {
        "C18"
    }
    fn rule(&self) -> &'static str {
        "documents rendered from random trees, with numbers of every kind, and up to 4 random edits; some value of them is deserialized into a type chosen at run time for its data or against it (all primitives, options, newtypes, lists, tuples, maps with every kind of key, structs, enums of unit variants, self-describing trees, ignored values), through every entry point; and random values of declared types (derived, with flattened, tagged and untagged parts) are laid out as a random document and deserialized again, sometimes after a change to the data, when serde_yaml and serde_json decide whether it fits; and the trees of serde_json, serde_yaml and ciborium. Oracle: the tree the accessors show, serde_yaml on the same text, and the original value. Non-trivial: at least 2 values; distinct by document, edits and type."
    }
    fn cases(&self) -> (u64, u64) {
        (1_500_000, 8_000_000)
    }
    fn run(&self, src: &mut Src, ctx: &mut Ctx) -> Res {
        match src.weighted(&[6, 3, 1]) {
            0 => dynamic(src, ctx),
            1 => declared(src, ctx),
            _ => trees(src, ctx),
        }
    }
    fn pinned(&self) -> Vec<(&'static str, fn() -> Res)> {
        fn t(text: &[u8], ty: Ty, want: Option<Out>) -> Res {
            let doc = must_parse(text)?;
            let got = (&ty).deserialize(doc.as_ref()).map_err(|e| e.to_string());
            ensure!(got.as_ref().ok() == want.as_ref(), "{} as {ty:?} gives {got:?}, expected {want:?}", show(text));
            Ok(())
        }
        vec![
            ("many-entries", super::large::deserialize),
            ("any-beyond-i128", || t(b"-170141183460469231731687303715884105729", Ty::Any, Some(Out::F64((-170141183460469231731687303715884105729.0f64).to_bits())))),
            ("any-i128", || t(b"-9223372036854775809", Ty::Any, Some(Out::Negative(-9223372036854775809)))),
            ("i128", || t(b"-9223372036854775809", Ty::I128, Some(Out::Negative(-9223372036854775809)))),
            ("u128", || t(b"18446744073709551616", Ty::U128, Some(Out::Unsigned(1 << 64)))),
            ("newtype", || t(b"5", Ty::Newtype(Box::new(Ty::U8)), Some(Out::Newtype(Box::new(Out::Unsigned(5)))))),
            ("unit", || t(b"~", Ty::Unit, Some(Out::Unit))),
            ("enum", || t(b"b", Ty::Enum(&["a", "b"]), Some(Out::Variant(1)))),
            ("enum-key", || t(b"b: 1", Ty::Map(Box::new(Ty::Enum(&["a", "b"])), Box::new(Ty::U8)), Some(Out::Map(vec![(Out::Variant(1), Out::Unsigned(1))])))),
            ("str-key", || t(b"b: 1", Ty::Map(Box::new(Ty::Str), Box::new(Ty::U8)), Some(Out::Map(vec![(Out::Str("b".into()), Out::Unsigned(1))])))),
            ("any-key", || t(b"b: 1", Ty::Any, Some(Out::Map(vec![(Out::Str("b".into()), Out::Unsigned(1))])))),
            ("map-too-long", || t(b"{a: 1, b: 2}", Ty::First(1, Box::new(Ty::String), Box::new(Ty::U8)), None)),
            ("tuple-too-long", || t(b"[1, 2, 3]", Ty::Tuple(vec![Ty::U8, Ty::U8]), None)),
        ]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["text made from numbers, booleans and nulls, collections made from nulls, numbers made from keys, and structs made from sequences are left open", "integers beyond 128 bits are the nearest 64-bit float"]
    }
}
