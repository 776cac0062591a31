//! Edits: generation, application to a document, and their meaning on a plain
//! data tree.

use crate::engine::Src;
use crate::gen::{self, Cfg};
use crate::reference::Node;
use nondestructive::yaml::{self, Block, Chomp, Document, Id, MappingMut, Null, Separator, SequenceMut, StringKind, ValueMut};

pub type Path = Vec<usize>;

#[derive(Clone, Debug, PartialEq)]
pub enum Num {
    U8(u8),
    I8(i8),
    U16(u16),
    I16(i16),
    U32(u32),
    I32(i32),
    U64(u64),
    I64(i64),
    U128(u128),
    I128(i128),
    F32(f32),
    F64(f64),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    /// 0: keyword, 1: tilde, 2: empty.
    Null(u8),
    Bool(bool),
    Num(Num),
    Str(String),
    /// `true`: double quotes.
    Quoted(String, bool),
    /// Parts, folded, chomp (0: clip, 1: keep, 2: strip).
    Block(Vec<String>, bool, u8),
}

macro_rules! num_method {
    ($n:expr, $target:expr, [], $($v:ident $m:ident),*) => {
        match $n { $( Num::$v(x) => { $target.$m(*x); } )* }
    };
    ($n:expr, $target:expr, [$arg:expr], $($v:ident $m:ident),*) => {
        match $n { $( Num::$v(x) => { $target.$m($arg, *x); } )* }
    };
}

impl Num {
    pub fn text(&self) -> String {
        match self {
            Num::U8(x) => x.to_string(),
            Num::I8(x) => x.to_string(),
            Num::U16(x) => x.to_string(),
            Num::I16(x) => x.to_string(),
            Num::U32(x) => x.to_string(),
            Num::I32(x) => x.to_string(),
            Num::U64(x) => x.to_string(),
            Num::I64(x) => x.to_string(),
            Num::U128(x) => x.to_string(),
            Num::I128(x) => x.to_string(),
            Num::F32(x) => format!("{x:e}f32"),
            Num::F64(x) => format!("{x:e}"),
        }
    }
    pub fn is_float(&self) -> bool {
        matches!(self, Num::F32(_) | Num::F64(_))
    }
    fn set(&self, v: &mut ValueMut<'_>) {
        num_method!(self, v, [], U8 set_u8, I8 set_i8, U16 set_u16, I16 set_i16, U32 set_u32, I32 set_i32, U64 set_u64, I64 set_i64, U128 set_u128, I128 set_i128, F32 set_f32, F64 set_f64);
    }
    fn insert(&self, m: &mut MappingMut<'_>, k: &[u8]) {
        num_method!(self, m, [k], U8 insert_u8, I8 insert_i8, U16 insert_u16, I16 insert_i16, U32 insert_u32, I32 insert_i32, U64 insert_u64, I64 insert_i64, U128 insert_u128, I128 insert_i128, F32 insert_f32, F64 insert_f64);
    }
    fn push(&self, s: &mut SequenceMut<'_>) {
        num_method!(self, s, [], U8 push_u8, I8 push_i8, U16 push_u16, I16 push_i16, U32 push_u32, I32 push_i32, U64 push_u64, I64 push_i64, U128 push_u128, I128 push_i128, F32 push_f32, F64 push_f64);
    }
}

pub fn block(folded: bool, chomp: u8) -> Block {
    let c = match chomp {
        0 => Chomp::Clip,
        1 => Chomp::Keep,
        _ => Chomp::Strip,
    };
    if folded {
        Block::Folded(c)
    } else {
        Block::Literal(c)
    }
}

/// The text a block is given.
pub fn block_text(parts: &[String], folded: bool, chomp: u8) -> String {
    let mut s = parts.join(if folded { " " } else { "\n" });
    if chomp != 2 && !s.is_empty() {
        s.push('\n');
    }
    s
}

impl Val {
    pub fn node(&self) -> Node {
        match self {
            Val::Null(_) => Node::Null,
            Val::Bool(b) => Node::Bool(*b),
            Val::Num(n) => Node::Num(n.text()),
            Val::Str(s) | Val::Quoted(s, _) => Node::str(s),
            Val::Block(p, f, c) => Node::str(&block_text(p, *f, *c)),
        }
    }
    pub fn set(&self, v: &mut ValueMut<'_>) {
        match self {
            Val::Null(0) => v.set_null(Null::Keyword),
            Val::Null(1) => v.set_null(Null::Tilde),
            Val::Null(_) => v.set_null(Null::Empty),
            Val::Bool(b) => v.set_bool(*b),
            Val::Num(n) => n.set(v),
            Val::Str(s) => v.set_string(s),
            Val::Quoted(s, d) => v.set_string_with(s, if *d { StringKind::Double } else { StringKind::Single }),
            Val::Block(p, f, c) => v.set_block(p, block(*f, *c)),
        }
    }
    /// Insert through the typed method, if there is one.
    pub fn insert(&self, m: &mut MappingMut<'_>, k: &[u8]) {
        match self {
            Val::Null(2) => {
                m.insert(k, Separator::Auto);
            }
            Val::Bool(b) => m.insert_bool(k, *b),
            Val::Num(n) => n.insert(m, k),
            Val::Str(s) => m.insert_str(k, s),
            Val::Block(p, f, c) => m.insert_block(k, p, block(*f, *c)),
            _ => self.set(&mut m.insert(k, Separator::Auto)),
        }
    }
    pub fn push(&self, s: &mut SequenceMut<'_>) {
        match self {
            Val::Null(2) => {
                s.push(Separator::Auto);
            }
            Val::Bool(b) => s.push_bool(*b),
            Val::Num(n) => n.push(s),
            Val::Str(t) => s.push_string(t),
            Val::Block(p, f, c) => s.push_block(p, block(*f, *c)),
            _ => self.set(&mut s.push(Separator::Auto)),
        }
    }
}

/// What is put where an entry is added through `insert`/`push`.
#[derive(Clone, Debug, PartialEq)]
pub enum Via {
    /// Through the typed method.
    Typed(Val),
    /// Through the generic method and a separator of that many spaces (0:
    /// automatic), then set.
    Set(u8, Val),
    /// Through the generic method, left as it is.
    Leave(u8),
    /// Through the generic method, then made a collection and filled.
    Coll(u8, bool, Vec<Val>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Set(Path, Val),
    /// Make a mapping (`true`) or a sequence.
    Make(Path, bool),
    Insert(Path, Vec<u8>, Via),
    Push(Path, Via),
    RemoveKey(Path, String),
    RemoveAt(Path, usize),
    Clear(Path),
}

impl Op {
    pub fn path(&self) -> &Path {
        match self {
            Op::Set(p, _) | Op::Make(p, _) | Op::Insert(p, _, _) | Op::Push(p, _) | Op::RemoveKey(p, _) | Op::RemoveAt(p, _) | Op::Clear(p) => p,
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            Op::Set(_, Val::Block(..)) => "set-block",
            Op::Set(..) => "set",
            Op::Make(..) => "make",
            Op::Insert(_, _, Via::Typed(Val::Block(..))) => "insert-block",
            Op::Insert(..) => "insert",
            Op::Push(_, Via::Typed(Val::Block(..))) => "push-block",
            Op::Push(..) => "push",
            Op::RemoveKey(..) | Op::RemoveAt(..) => "remove",
            Op::Clear(..) => "clear",
        }
    }
}

fn fill_key(i: usize) -> String {
    format!("k{i}")
}

impl Via {
    pub fn node(&self) -> Node {
        match self {
            Via::Typed(v) | Via::Set(_, v) => v.node(),
            Via::Leave(_) => Node::Null,
            Via::Coll(_, true, vs) => Node::Map(vs.iter().enumerate().map(|(i, v)| (fill_key(i).into_bytes(), v.node())).collect()),
            Via::Coll(_, false, vs) => Node::Seq(vs.iter().map(Val::node).collect()),
        }
    }
}

// ------------------------------------------------------------ generation

pub fn float64(src: &mut Src) -> f64 {
    let v = match src.below(4) {
        0 => *src.pick(&[0.0, -0.0, 1.0, -1.5, 0.1, 1e16, 1e17, 1e-5, 1e-7, f64::MAX, f64::MIN_POSITIVE, 5e-324, 1e300, 123456789.125, 1e22, 16777217.0]),
        1 => f64::from(src.below(2000) as i32 - 1000) / 8.0,
        _ => f64::from_bits(src.bits()),
    };
    if v.is_finite() {
        v
    } else {
        2.5
    }
}

pub fn num(src: &mut Src) -> Num {
    let which = src.below(12);
    let edge = src.below(4);
    let bits = if edge == 0 { 0 } else { src.bits() };
    macro_rules! int {
        ($v:ident, $t:ty) => {
            Num::$v(match edge {
                0 => src.below(100) as $t,
                1 => <$t>::MAX,
                2 => <$t>::MIN,
                _ => (if std::mem::size_of::<$t>() == 16 { (u128::from(bits) << 64) | u128::from(src.bits()) } else { u128::from(bits) }) as $t,
            })
        };
    }
    match which {
        0 => int!(U8, u8),
        1 => int!(I8, i8),
        2 => int!(U16, u16),
        3 => int!(I16, i16),
        4 => int!(U32, u32),
        5 => int!(I32, i32),
        6 => int!(U64, u64),
        7 => int!(I64, i64),
        8 => int!(U128, u128),
        9 => int!(I128, i128),
        10 => {
            let v = float64(src) as f32;
            Num::F32(if v.is_finite() { v } else { 1.5 })
        }
        _ => Num::F64(float64(src)),
    }
}

pub fn block_parts(src: &mut Src) -> Vec<String> {
    let n = src.weighted(&[2, 8, 8, 5, 3]);
    (0..n)
        .map(|_| match src.weighted(&[14, 3, 2, 2, 2]) {
            0 => {
                let mut s = (*src.pick(gen::WORDS)).to_string();
                for _ in 0..src.below(3) {
                    s.push(' ');
                    s.push_str(src.pick(gen::WORDS));
                }
                s
            }
            1 => String::new(),
            2 => format!("  {}", src.pick(gen::WORDS)),
            3 => gen::text(src),
            _ => (*src.pick(&["# c", "- x", "k: v", "'", "\"", "---", "...", "a  b", "x ", " ", "two\nlines", "|", "%x"])).to_string(),
        })
        .collect()
}

/// A value of a size nobody writes by hand.
fn long_val(src: &mut Src) -> Val {
    let n = src.range(250, 300) * if src.chance(1, 4) { 5 } else { 1 };
    match src.below(4) {
        0 => Val::Block((0..n).map(|_| (*src.pick(&["x", "y z", "", "  w", "- v"])).to_string()).collect(), src.chance(1, 2), src.below(3) as u8),
        // nothing odd about it except in one place
        1 => {
            let w = *src.pick(gen::WORDS);
            let mut parts = vec![w.to_string(); if src.chance(1, 2) { n } else { n / 8 }];
            let at = src.below(parts.len() as u32 + 1) as usize;
            let odd = match src.below(2) {
                0 => block_parts(src),
                _ => vec![(*src.pick(&[" ", "   ", "a  b", "  x", "x ", "x  ", "", "\t", "\u{7f}", "two\nlines", "x\n\ny", "x\n y", "\n"])).to_string()],
            };
            parts.splice(at..at, odd.into_iter().take(2));
            Val::Block(parts, src.chance(1, 2), src.below(3) as u8)
        }
        k => {
            let odd = src.chance(1, 2);
            let unit = if odd { (*src.pick(&["a", "word ", "é", "x_"])).to_string() } else { gen::text(src) };
            let mut s = if odd { String::new() } else { gen::text(src) };
            while s.len() < n && !unit.is_empty() {
                s.push_str(&unit);
            }
            if odd {
                if src.chance(1, 2) {
                    s.push_str(src.pick(&[",", "[", "]", "{", "}", " #c", ": x", ":", "'", "\u{7f}", "\u{2028}", "\n", " ", "\\"]));
                } else {
                    s.push_str(&gen::text(src));
                }
                s.push_str(src.pick(&["", "", "x", " end"]));
            }
            if k == 2 {
                Val::Str(s)
            } else {
                Val::Quoted(s, src.chance(1, 2))
            }
        }
    }
}

pub fn val(src: &mut Src) -> Val {
    if src.chance(1, 500) {
        return long_val(src);
    }
    match src.weighted(&[10, 5, 6, 4, 4, 5]) {
        0 => Val::Str(gen::text(src)),
        1 => Val::Bool(src.chance(1, 2)),
        2 => Val::Num(num(src)),
        3 => Val::Null(src.below(3) as u8),
        4 => Val::Quoted(gen::text(src), src.chance(1, 2)),
        _ => Val::Block(block_parts(src), src.chance(1, 2), src.below(3) as u8),
    }
}

/// A text which looks like one which is there.
fn near(src: &mut Src, model: &Node) -> Option<Val> {
    let mut texts: Vec<String> = Vec::new();
    model.walk(&mut |_, n| {
        if let Node::Str(s) = n {
            texts.extend(String::from_utf8(s.clone()));
        }
    });
    if texts.is_empty() {
        return None;
    }
    let s = src.pick(&texts).clone();
    let s = gen::near(src, &s);
    Some(if src.chance(1, 2) { Val::Str(s) } else { Val::Quoted(s, src.chance(1, 2)) })
}

fn val_near(src: &mut Src, model: &Node) -> Val {
    let v = if src.chance(1, 12) { near(src, model) } else { None };
    v.unwrap_or_else(|| val(src))
}

fn via(src: &mut Src, model: &Node) -> Via {
    let sep = match src.weighted(&[6, 1, 1, 1]) {
        3 if src.chance(1, 20) => 3 + src.below(60) as u8,
        3 => 4,
        n => n as u8,
    };
    match src.weighted(&[12, 4, 2, 5]) {
        0 => Via::Typed(val_near(src, model)),
        1 => Via::Set(sep, val_near(src, model)),
        2 => Via::Leave(sep),
        _ => {
            let n = if src.chance(1, 300) { src.range(250, 300) } else { src.below(4) as usize };
            let map = src.chance(1, 2);
            Via::Coll(sep, map, (0..n).map(|_| val(src)).collect())
        }
    }
}

/// Paths of all nodes, optionally of one kind.
pub fn paths(n: &Node, f: impl Fn(&Node) -> bool) -> Vec<Path> {
    let mut out = Vec::new();
    n.walk(&mut |p, n| {
        if f(n) {
            out.push(p.to_vec());
        }
    });
    out
}

/// Any index, of the ends more often if there are many.
fn index(src: &mut Src, len: usize) -> usize {
    if len > 8 && src.chance(1, 3) {
        let back = src.below(3) as usize;
        return *src.pick(&[0, 1, len - 1 - back, len / 2]);
    }
    src.below(len as u32) as usize
}

/// One edit that makes sense on `model`.
pub fn op(src: &mut Src, model: &Node) -> Op {
    for _ in 0..4 {
        let k = src.weighted(&[10, 8, 8, 8, 4, 2]);
        match k {
            0 => {
                let all = paths(model, |_| true);
                let scalars = paths(model, |n| !n.is_coll());
                let p = if !scalars.is_empty() && !src.chance(1, 5) { src.pick(&scalars).clone() } else { src.pick(&all).clone() };
                let v = match model.at(&p) {
                    n @ Node::Str(_) if src.chance(1, 10) => near(src, n).unwrap_or_else(|| val(src)),
                    _ => val_near(src, model),
                };
                return Op::Set(p, v);
            }
            1 => {
                let maps = paths(model, |n| matches!(n, Node::Map(_)));
                if maps.is_empty() {
                    continue;
                }
                let p = src.pick(&maps).clone();
                let key = map_key(src, model.at(&p));
                return Op::Insert(p, key.into_bytes(), via(src, model));
            }
            2 => {
                let seqs = paths(model, |n| matches!(n, Node::Seq(_)));
                if seqs.is_empty() {
                    continue;
                }
                let p = src.pick(&seqs).clone();
                return Op::Push(p, via(src, model));
            }
            3 => {
                let colls = paths(model, Node::is_coll);
                if colls.is_empty() {
                    continue;
                }
                let p = src.pick(&colls).clone();
                match model.at(&p) {
                    Node::Map(m) => {
                        let key = if m.is_empty() || src.chance(1, 8) {
                            gen::key(src, &Cfg::spec())
                        } else {
                            let i = index(src, m.len());
                            match std::str::from_utf8(&m[i].0) {
                                Ok(s) => s.to_string(),
                                Err(_) => continue,
                            }
                        };
                        return Op::RemoveKey(p, key);
                    }
                    Node::Seq(s) => {
                        let i = index(src, s.len() + 1);
                        return Op::RemoveAt(p, i);
                    }
                    _ => {}
                }
            }
            4 => {
                let all = paths(model, |_| true);
                let p = src.pick(&all).clone();
                return Op::Make(p, src.chance(1, 2));
            }
            _ => {
                let colls = paths(model, Node::is_coll);
                if colls.is_empty() {
                    continue;
                }
                return Op::Clear(src.pick(&colls).clone());
            }
        }
    }
    Op::Set(Vec::new(), val(src))
}

/// An edit that may have a key which is not UTF-8.
pub fn op_loose(src: &mut Src, model: &Node) -> Op {
    let mut op = op(src, model);
    if let Op::Insert(p, k, _) = &mut op {
        if src.chance(1, 8) {
            // one which is there, or a new one
            let there: Vec<&Vec<u8>> = match model.at(p) {
                Node::Map(e) => e.iter().map(|(k, _)| k).filter(|k| std::str::from_utf8(k).is_err()).collect(),
                _ => vec![],
            };
            if !there.is_empty() && src.chance(1, 2) {
                *k = (*src.pick(&there)).clone();
            } else {
                let i = src.below(k.len() as u32 + 1) as usize;
                k.insert(i, *src.pick(&[0xff, 0x80, 0xc3, 0xe2, 0xf0, 0xc0]));
            }
        }
    }
    op
}

fn map_key(src: &mut Src, m: &Node) -> String {
    if let Node::Map(m) = m {
        if !m.is_empty() && src.chance(1, 4) {
            let i = src.below(m.len() as u32) as usize;
            if let Ok(s) = std::str::from_utf8(&m[i].0) {
                return if s.len() < 80 && src.chance(1, 3) { gen::near(src, s) } else { s.to_string() };
            }
        }
    }
    if src.chance(1, 4) {
        gen::text(src)
    } else {
        gen::key(src, &Cfg::spec())
    }
}

// ----------------------------------------------------------- application

/// The edit on a plain tree; for removals, whether something was removed.
pub fn apply_model(m: &mut Node, op: &Op) -> Option<bool> {
    match op {
        Op::Set(p, v) => {
            *m.at_mut(p) = v.node();
            None
        }
        Op::Make(p, map) => {
            let n = m.at_mut(p);
            match (map, &n) {
                (true, Node::Map(_)) | (false, Node::Seq(_)) => {}
                (true, _) => *n = Node::Map(vec![]),
                (false, _) => *n = Node::Seq(vec![]),
            }
            None
        }
        Op::Insert(p, k, via) => {
            if let Node::Map(e) = m.at_mut(p) {
                match e.iter_mut().find(|(o, _)| o == k) {
                    Some((_, n)) => *n = via.node(),
                    None => e.push((k.clone(), via.node())),
                }
            }
            None
        }
        Op::Push(p, via) => {
            if let Node::Seq(e) = m.at_mut(p) {
                e.push(via.node());
            }
            None
        }
        Op::RemoveKey(p, k) => {
            let Node::Map(e) = m.at_mut(p) else { return None };
            match e.iter().position(|(o, _)| o == k.as_bytes()) {
                Some(i) => {
                    e.remove(i);
                    Some(true)
                }
                None => Some(false),
            }
        }
        Op::RemoveAt(p, i) => {
            let Node::Seq(e) = m.at_mut(p) else { return None };
            if *i < e.len() {
                e.remove(*i);
                Some(true)
            } else {
                Some(false)
            }
        }
        Op::Clear(p) => {
            match m.at_mut(p) {
                Node::Seq(e) => e.clear(),
                Node::Map(e) => e.clear(),
                _ => {}
            }
            None
        }
    }
}

/// The id of the value at `path`, found through the shared views.
pub fn id_at(doc: &Document, path: &[usize]) -> Result<Id, String> {
    fn go(v: yaml::Value<'_>, path: &[usize]) -> Result<Id, String> {
        let Some((i, rest)) = path.split_first() else { return Ok(v.id()) };
        if let Some(m) = v.as_mapping() {
            let (_, c) = m.iter().nth(*i).ok_or_else(|| format!("no entry {i} in a mapping of {}", m.len()))?;
            return go(c, rest);
        }
        if let Some(s) = v.as_sequence() {
            let c = s.iter().nth(*i).ok_or_else(|| format!("no item {i} in a sequence of {}", s.len()))?;
            return go(c, rest);
        }
        Err("not a collection where the model has one".into())
    }
    go(doc.as_ref(), path)
}

/// Navigate to `path` through the mutable views where the keys allow it.
pub fn value_mut<'a>(doc: &'a mut Document, path: &[usize], model: &Node, by_id: bool) -> Result<ValueMut<'a>, String> {
    let mut plain = true;
    {
        let mut n = model;
        for i in path {
            if let Node::Map(e) = n {
                plain &= std::str::from_utf8(&e[*i].0).is_ok();
                // keys find the first entry
                plain &= !e[..*i].iter().any(|(o, _)| *o == e[*i].0);
            }
            n = n.child(*i);
        }
    }
    if by_id || !plain {
        let id = id_at(doc, path)?;
        return Ok(doc.value_mut(id));
    }
    let mut v = doc.as_mut();
    let mut n = model;
    for i in path {
        v = match n {
            Node::Map(e) => {
                let k = std::str::from_utf8(&e[*i].0).expect("checked");
                v.into_mapping_mut().ok_or("no mapping")?.get_into_mut(k).ok_or_else(|| format!("get_into_mut({k:?}) finds nothing"))?
            }
            _ => v.into_sequence_mut().ok_or("no sequence")?.get_into_mut(*i).ok_or_else(|| format!("get_into_mut({i}) finds nothing"))?,
        };
        n = n.child(*i);
    }
    Ok(v)
}

fn sep_of(n: u8) -> Separator<'static> {
    const SPACES: &str = match std::str::from_utf8(&[b' '; 255]) {
        Ok(s) => s,
        Err(_) => "",
    };
    match n {
        0 => Separator::Auto,
        n => Separator::Custom(&SPACES[..n.into()]),
    }
}

fn settle(mut v: ValueMut<'_>, via: &Via) {
    match via {
        Via::Set(_, x) => x.set(&mut v),
        Via::Coll(_, true, vs) => {
            let mut m = v.make_mapping();
            for (i, x) in vs.iter().enumerate() {
                x.insert(&mut m, fill_key(i).as_bytes());
            }
        }
        Via::Coll(_, false, vs) => {
            let mut s = v.make_sequence();
            for x in vs {
                x.push(&mut s);
            }
        }
        _ => {}
    }
}

/// Apply the edit to a document. `model` is the tree before the edit.
pub fn apply_doc(doc: &mut Document, model: &Node, op: &Op, by_id: bool) -> Result<Option<bool>, String> {
    let mut v = value_mut(doc, op.path(), model, by_id)?;
    match op {
        Op::Set(_, x) => {
            x.set(&mut v);
            Ok(None)
        }
        Op::Make(_, true) => {
            let _ = v.make_mapping();
            Ok(None)
        }
        Op::Make(_, false) => {
            let _ = v.make_sequence();
            Ok(None)
        }
        Op::Insert(_, k, via) => {
            let mut m = v.into_mapping_mut().ok_or("no mapping to insert into")?;
            match via {
                Via::Typed(x) => x.insert(&mut m, k),
                Via::Set(s, _) | Via::Leave(s) | Via::Coll(s, _, _) => settle(m.insert(k, sep_of(*s)), via),
            }
            Ok(None)
        }
        Op::Push(_, via) => {
            let mut s = v.into_sequence_mut().ok_or("no sequence to push to")?;
            match via {
                Via::Typed(x) => x.push(&mut s),
                Via::Set(n, _) | Via::Leave(n) | Via::Coll(n, _, _) => settle(s.push(sep_of(*n)), via),
            }
            Ok(None)
        }
        Op::RemoveKey(_, k) => Ok(Some(v.into_mapping_mut().ok_or("no mapping to remove from")?.remove(k))),
        Op::RemoveAt(_, i) => Ok(Some(v.into_sequence_mut().ok_or("no sequence to remove from")?.remove(*i))),
        Op::Clear(_) => {
            if v.as_mapping_mut().is_some() {
                v.into_mapping_mut().expect("mapping").clear();
            } else {
                v.into_sequence_mut().ok_or("nothing to clear")?.clear();
            }
            Ok(None)
        }
    }
}

/// Apply to both and compare what removal reports.
pub fn apply(doc: &mut Document, model: &mut Node, op: &Op, by_id: bool) -> Result<(), String> {
    let a = apply_doc(doc, model, op, by_id)?;
    let b = apply_model(model, op);
    if a != b {
        return Err(format!("removal reports {a:?}, expected {b:?}"));
    }
    Ok(())
}
