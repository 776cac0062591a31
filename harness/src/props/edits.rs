//! C03, C08, C09, C15: histories of edits.

use super::common::*;
use super::histories;
use crate::bytes;
use crate::edit::{self, Op};
use crate::engine::*;
use crate::ensure;
use crate::gen::{self, Cfg};
use crate::reference::*;
use nondestructive::yaml::{Document, Id};

/// A document, and the tree it should hold.
#[derive(Clone)]
pub struct State {
    pub doc: Document,
    pub model: Node,
    /// Keys given to edits may be any bytes.
    pub loose: bool,
}

impl State {
    pub fn new(doc: Document, model: Node) -> State {
        State { doc, model, loose: false }
    }
    /// One edit that makes sense.
    pub fn op(&self, src: &mut Src) -> Op {
        if self.loose {
            edit::op_loose(src, &self.model)
        } else {
            edit::op(src, &self.model)
        }
    }
}

pub fn start(d: &gen::Doc) -> Result<State, String> {
    let doc = must_parse(&d.text)?;
    let model = read_doc(&doc);
    Ok(State::new(doc, model))
}

pub fn edit_cfg(spec: bool) -> Cfg {
    let c = if spec { Cfg::spec() } else { Cfg::loose() };
    Cfg { max_nodes: 14, max_depth: 4, tabs: !spec, dup: !spec, ..c }
}

/// An edit which has nothing to do.
pub fn idle(model: &Node, op: &Op) -> bool {
    match (op, model.at(op.path())) {
        (Op::Make(_, true), Node::Map(_)) | (Op::Make(_, false), Node::Seq(_)) => true,
        (Op::RemoveKey(_, k), Node::Map(e)) => !e.iter().any(|(o, _)| o == k.as_bytes()),
        (Op::RemoveAt(_, i), n) => *i >= n.len(),
        (Op::Clear(_), n) => n.len() == 0,
        _ => false,
    }
}

/// Draw, describe and apply one edit.
pub fn step(src: &mut Src, ctx: &mut Ctx, s: &mut State) -> Result<Op, String> {
    let op = s.op(src);
    let by_id = src.chance(1, 2);
    ctx.describe(|| format!("edit {op:?}{}", if by_id { " (by id)" } else { "" }));
    ctx.label(op.name());
    let idle = idle(&s.model, &op).then(|| bytes_of(&s.doc));
    edit::apply(&mut s.doc, &mut s.model, &op, by_id)?;
    let after = idle.is_some().then(|| bytes_of(&s.doc));
    ctx.describe(|| format!("  -> {}", show(&bytes_of(&s.doc))));
    if let (Some(a), Some(b)) = (idle, after) {
        ctx.label("idle");
        ensure!(a == b, "an edit which has nothing to do changed the document: {} -> {}", show(&a), show(&b));
    }
    Ok(op)
}

// ------------------------------------------------------------------ C03

pub struct C03;

fn c03_state(d: &Document) -> Res {
    let b = writers_agree(d)?;
    let c = d.clone();
    let cb = writers_agree(&c)?;
    ensure!(cb == b, "a clone writes other bytes: {} and {}", show(&b), show(&cb));
    Ok(())
}

impl Prop for C03 {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn rule(&self) -> &'static str {
        "documents rendered from random trees (standard, loose, byte-mutated) and histories of up to 8 random edits; at the start and after every edit the text form and the written bytes of the document and of a clone are compared. Non-trivial: at least one edit on a document with at least 2 values; distinct by document and edits."
    }
    fn cases(&self) -> (u64, u64) {
        (750_000, 10_000_000)
    }
    fn run(&self, src: &mut Src, ctx: &mut Ctx) -> Res {
        let text = match src.weighted(&[3, 3, 2]) {
            0 => gen::doc(src, &edit_cfg(true)).text,
            1 => gen::doc(src, &edit_cfg(false)).text,
            _ => bytes::any_input(src, 60).0,
        };
        ctx.describe(|| format!("document {}", show(&text)));
        ctx.id(&text);
        let Ok(doc) = parse(&text) else { return Ok(()) };
        c03_state(&doc)?;
        let model = read_doc(&doc);
        let mut s = State::new(doc, model);
        s.loose = true;
        let n = src.below(8);
        for _ in 0..n {
            let op = step(src, ctx, &mut s)?;
            ctx.id(format!("{op:?}").as_bytes());
            c03_state(&s.doc)?;
        }
        ctx.nontrivial = n > 0 && s.model.count() >= 2;
        Ok(())
    }
    fn pinned(&self) -> Vec<(&'static str, fn() -> Res)> {
        vec![("histories", || histories::run(histories::What::Writers))]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["histories of up to 8 edits"]
    }
}

/// How many edits there are: a few, or now and then a lot.
fn history(src: &mut Src, lo: usize, hi: usize) -> usize {
    if src.chance(1, 3000) {
        src.range(200, 350)
    } else {
        src.range(lo, hi)
    }
}

// ------------------------------------------------------------------ C08

pub struct C08;

impl Prop for C08 {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn rule(&self) -> &'static str {
        "documents rendered from random trees (standard or loose) and histories of 1 to 12 (now and then up to 350) random edits (set, insert, push, remove, clear, make; typed, generic and block methods; reached by id or by path), applied to the document and to an ordinary tree; after every edit the tree seen through all accessors must equal the ordinary tree, and removals must report the same. Non-trivial: at least 3 edits with at least two different kinds; distinct by document and edits."
    }
    fn cases(&self) -> (u64, u64) {
        (600_000, 8_000_000)
    }
    fn run(&self, src: &mut Src, ctx: &mut Ctx) -> Res {
        let spec = src.chance(1, 2);
        let d = gen::doc(src, &edit_cfg(spec));
        ctx.describe(|| format!("document {}", show(&d.text)));
        ctx.id(&d.text);
        let mut s = start(&d)?;
        s.loose = !spec;
        let n = history(src, 1, 12);
        let mut kinds = std::collections::BTreeSet::new();
        for _ in 0..n {
            let op = step(src, ctx, &mut s)?;
            ctx.id(format!("{op:?}").as_bytes());
            kinds.insert(op.name());
            eq_tree("after an edit", &s.model, &read_doc(&s.doc))?;
            super::parse::getters(&s.doc.as_ref(), &s.model)?;
        }
        ctx.nontrivial = n >= 3 && kinds.len() >= 2;
        Ok(())
    }
    fn pinned(&self) -> Vec<(&'static str, fn() -> Res)> {
        vec![("histories", || histories::run(histories::What::Tree)), ("many-entries", super::large::edits)]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["histories of up to 350 edits; floats are finite"]
    }
}

// ------------------------------------------------------------------ C09

pub struct C09;

/// The written document still holds `model`, for this crate and for libyaml.
pub fn reads_back(d: &Document, model: &Node, standard: bool) -> Res {
    let b = bytes_of(d);
    let want = norm_empty(model);
    let again = parse(&b).map_err(|e| format!("the edited document is refused: {e}: {}", show(&b)))?;
    if let Some(m) = diff(&want, &norm_empty(&read_doc(&again))) {
        return Err(format!("the edited document is read back differently: {m}: {}", show(&b)));
    }
    let out = bytes_of(&again);
    ensure!(out == b, "the edited document does not round-trip: {} -> {}", show(&b), show(&out));
    if standard {
        let t = libyaml_with(&b, plain_core).map_err(|e| format!("the edited document is not YAML for libyaml: {e}: {}", show(&b)))?;
        if let Some(m) = diff(&want, &norm_empty(&t)) {
            return Err(format!("libyaml reads the edited document differently: {m}: {}", show(&b)));
        }
    }
    Ok(())
}

impl Prop for C09 {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn rule(&self) -> &'static str {
        "standard YAML documents rendered from random trees (libyaml agrees with the tree) and histories of 1 to 8 random edits; after every edit the written bytes are read by the crate and by libyaml, and both must give the tree that results from the same edits on ordinary data (empty collections count as null). Non-trivial: at least 2 edits and at least 3 values at the end; distinct by document and edits."
    }
    fn cases(&self) -> (u64, u64) {
        (480_000, 8_000_000)
    }
    fn run(&self, src: &mut Src, ctx: &mut Ctx) -> Res {
        let d = gen::doc(src, &edit_cfg(true));
        ctx.describe(|| format!("document {}", show(&d.text)));
        ctx.id(&d.text);
        super::parse::oracle_ok(&d)?;
        let mut s = start(&d)?;
        let n = src.range(1, 8);
        for _ in 0..n {
            let op = step(src, ctx, &mut s)?;
            ctx.id(format!("{op:?}").as_bytes());
            reads_back(&s.doc, &s.model, true)?;
        }
        for l in &d.labels {
            ctx.label(l);
        }
        ctx.nontrivial = n >= 2 && s.model.count() >= 3;
        Ok(())
    }
    fn pinned(&self) -> Vec<(&'static str, fn() -> Res)> {
        vec![("histories", || histories::run(histories::What::ReadsBack))]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["histories of up to 8 edits; separators given by the caller are spaces; floats are finite; bare strings are not requested explicitly"]
    }
}

// ------------------------------------------------------------------ C15

pub struct C15;

struct Copy15 {
    s: State,
    /// Ids taken, with where their value is now.
    ids: Vec<(Id, edit::Path)>,
    bytes: Vec<u8>,
}

fn check_ids(c: &Copy15) -> Res {
    for (id, p) in &c.ids {
        let want = c.s.model.at(p);
        let v = c.s.doc.value(*id);
        ensure!(v.id() == *id, "the value of id {id} has id {}", v.id());
        if let Some(m) = diff(want, &read(&v)) {
            return Err(format!("id {id} taken from {p:?} denotes another value: {m}"));
        }
        let now = edit::id_at(&c.s.doc, p)?;
        ensure!(now == *id, "the value at {p:?} changed its id from {id} to {now}");
    }
    Ok(())
}

fn starts(p: &[usize], q: &[usize]) -> bool {
    p.len() >= q.len() && p[..q.len()] == *q
}

/// Update where the ids are after an edit (`before`: tree before it).
pub fn move_ids(ids: &mut Vec<(Id, edit::Path)>, before: &Node, op: &Op) {
    match op {
        Op::Set(p, _) => ids.retain(|(_, q)| !starts(q, p)),
        Op::Make(p, map) => {
            let same = matches!((before.at(p), map), (Node::Map(_), true) | (Node::Seq(_), false));
            if !same {
                ids.retain(|(_, q)| !starts(q, p));
            }
        }
        Op::Insert(p, k, _) => {
            if let Node::Map(e) = before.at(p) {
                if let Some(i) = e.iter().position(|(o, _)| o == k) {
                    let mut t = p.clone();
                    t.push(i);
                    ids.retain(|(_, q)| !starts(q, &t));
                }
            }
        }
        Op::Push(..) => {}
        Op::RemoveKey(..) | Op::RemoveAt(..) => {
            let (p, i) = match op {
                Op::RemoveKey(p, k) => match before.at(p) {
                    Node::Map(e) => (p, e.iter().position(|(o, _)| o == k.as_bytes())),
                    _ => (p, None),
                },
                Op::RemoveAt(p, i) => (p, (*i < before.at(p).len()).then_some(*i)),
                _ => unreachable!(),
            };
            let Some(i) = i else { return };
            ids.retain(|(_, q)| !(starts(q, p) && q.len() > p.len() && q[p.len()] == i));
            for (_, q) in ids.iter_mut() {
                if starts(q, p) && q.len() > p.len() && q[p.len()] > i {
                    q[p.len()] -= 1;
                }
            }
        }
        Op::Clear(p) => ids.retain(|(_, q)| !(starts(q, p) && q.len() > p.len())),
    }
}

impl Prop for C15 {
    fn id(&self) -> &'static str {
        "C15"
    }
    fn rule(&self) -> &'static str {
        "documents rendered from random trees, up to 4 clones taken at random points of histories of up to 14 (now and then up to 350) edits, each edit on a randomly chosen copy; ids of random values are taken at any time, from any copy. After every edit every id of the edited copy must denote the value the model has for it, other copies must write the same bytes and hold the same tree as before; at the end all ids of all copies are checked. Non-trivial: at least 3 edits, an id that outlived one and a clone; distinct by document and edits."
    }
    fn cases(&self) -> (u64, u64) {
        (600_000, 6_000_000)
    }
    fn run(&self, src: &mut Src, ctx: &mut Ctx) -> Res {
        let spec = src.chance(1, 2);
        let d = gen::doc(src, &edit_cfg(spec));
        ctx.describe(|| format!("document {}", show(&d.text)));
        ctx.id(&d.text);
        let mut s = start(&d)?;
        s.loose = !spec;
        let bytes = bytes_of(&s.doc);
        let mut copies = vec![Copy15 { s, ids: Vec::new(), bytes }];
        let n = history(src, 2, 14);
        let mut edits = 0;
        let mut outlived = false;
        for _ in 0..n {
            let at = src.below(copies.len() as u32) as usize;
            match src.weighted(&[8, 6, if copies.len() < 5 { 3 } else { 0 }]) {
                0 => {
                    let before = copies[at].s.model.clone();
                    ctx.describe(|| format!("copy {at}:"));
                    let op = step(src, ctx, &mut copies[at].s)?;
                    ctx.id(format!("{at} {op:?}").as_bytes());
                    edits += 1;
                    move_ids(&mut copies[at].ids, &before, &op);
                    outlived |= !copies[at].ids.is_empty();
                    check_ids(&copies[at])?;
                    eq_tree("after an edit", &copies[at].s.model, &read_doc(&copies[at].s.doc))?;
                    copies[at].bytes = bytes_of(&copies[at].s.doc);
                    for (i, c) in copies.iter().enumerate() {
                        let b = bytes_of(&c.s.doc);
                        ensure!(b == c.bytes, "an edit of copy {at} changed copy {i}: {} -> {}", show(&c.bytes), show(&b));
                    }
                }
                1 => {
                    let c = &mut copies[at];
                    let all = edit::paths(&c.s.model, |_| true);
                    let p = src.pick(&all).clone();
                    let id = edit::id_at(&c.s.doc, &p)?;
                    ctx.describe(|| format!("copy {at}: take id {id} of {p:?}"));
                    ctx.id(format!("{at} {p:?}").as_bytes());
                    c.ids.push((id, p));
                }
                _ => {
                    ctx.describe(|| format!("clone copy {at} as {}", copies.len()));
                    ctx.label("clone");
                    let c = Copy15 { s: copies[at].s.clone(), ids: copies[at].ids.clone(), bytes: copies[at].bytes.clone() };
                    copies.push(c);
                }
            }
        }
        for (i, c) in copies.iter().enumerate() {
            check_ids(c).map_err(|e| format!("copy {i}: {e}"))?;
            eq_tree("a copy at the end", &c.s.model, &read_doc(&c.s.doc))?;
        }
        if outlived {
            ctx.label("outlived");
        }
        ctx.nontrivial = edits >= 3 && outlived && copies.len() > 1;
        Ok(())
    }
    fn pinned(&self) -> Vec<(&'static str, fn() -> Res)> {
        vec![("histories", || histories::run(histories::What::Ids)), ("many-entries", super::large::ids)]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["ids of removed or replaced values are not used again"]
    }
}

