//! Histories of edits which went wrong once, run by the properties of edits.

use super::common::*;
use super::edits::{reads_back, State};
use crate::edit::{self, Num, Op, Val, Via};
use crate::engine::*;
use crate::ensure;
use crate::reference::*;

fn s(t: &str) -> Val {
    Val::Str(t.into())
}

fn n(x: u32) -> Val {
    Val::Num(Num::U32(x))
}

fn block(parts: &[&str], folded: bool, chomp: u8) -> Val {
    Val::Block(parts.iter().map(|p| p.to_string()).collect(), folded, chomp)
}

fn set(p: &[usize], v: Val) -> Op {
    Op::Set(p.to_vec(), v)
}

fn make(p: &[usize], map: bool) -> Op {
    Op::Make(p.to_vec(), map)
}

fn insert(p: &[usize], k: &str, v: Val) -> Op {
    Op::Insert(p.to_vec(), k.as_bytes().to_vec(), Via::Typed(v))
}

fn insert_coll(p: &[usize], k: &str, map: bool) -> Op {
    Op::Insert(p.to_vec(), k.as_bytes().to_vec(), Via::Coll(0, map, vec![n(1), n(2)]))
}

fn push(p: &[usize], v: Val) -> Op {
    Op::Push(p.to_vec(), Via::Typed(v))
}

fn push_coll(p: &[usize], map: bool) -> Op {
    Op::Push(p.to_vec(), Via::Coll(0, map, vec![n(1), n(2)]))
}

fn remove(p: &[usize], k: &str) -> Op {
    Op::RemoveKey(p.to_vec(), k.into())
}

fn remove_at(p: &[usize], i: usize) -> Op {
    Op::RemoveAt(p.to_vec(), i)
}

fn clear(p: &[usize]) -> Op {
    Op::Clear(p.to_vec())
}

/// Documents with the edits made to them.
pub fn all() -> Vec<(&'static str, Vec<Op>)> {
    let lit = || block(&["x", "", "y"], false, 0);
    let keep = || block(&["x", "y"], false, 1);
    let strip = || block(&["x", "y"], false, 2);
    let fold = || block(&["x", "y"], true, 0);
    vec![
        // what is written as nothing
        ("a:  \nb: 1\n", vec![set(&[1], Val::Null(2)), set(&[0], n(1)), set(&[1], s("x"))]),
        ("a:\n  - 1\nb: 2\n", vec![clear(&[0]), push(&[0], n(3)), push(&[0], n(4))]),
        ("a:\n  b: 1\nc: 2\n", vec![remove(&[0], "b"), insert(&[0], "d", n(3)), insert(&[0], "e", n(4))]),
        ("a: # c\n  1\nb: 2\n", vec![set(&[0], Val::Null(2)), set(&[0], n(2)), make(&[0], true), insert(&[0], "x", n(1))]),
        ("- # c\n  a\n- b\n", vec![set(&[0], Val::Null(2)), make(&[0], false), push(&[0], n(1)), push(&[0], n(2))]),
        ("- # c\n  a: 1\n- b\n", vec![clear(&[0]), set(&[0], n(1))]),
        // inline collections
        ("{a:}", vec![insert(&[], "b", n(1)), insert(&[], "c", Val::Null(2))]),
        ("{a: , b:}", vec![insert(&[], "c", n(1)), set(&[0], n(1)), remove(&[], "b")]),
        ("{a: 1, b: }", vec![set(&[0], Val::Null(2)), insert(&[], "c", s("x, y"))]),
        ("[1, 2, 3,]", vec![remove_at(&[], 0), remove_at(&[], 0), remove_at(&[], 0), push(&[], n(1))]),
        ("{a: 1, b: 2,}\n", vec![remove(&[], "b"), remove(&[], "a"), insert(&[], "c", n(1))]),
        ("[1, [2], {a: 3}]\n", vec![make(&[0], true), insert(&[0], "x", n(1)), insert(&[0], "y", n(2)), push_coll(&[1], true), insert_coll(&[2], "z", false)]),
        ("a: {b: 1}\n", vec![insert_coll(&[0], "c", true), insert(&[0], "d", lit()), make(&[0, 0], false), push(&[0, 0], keep())]),
        ("a: []\n", vec![push(&[0], Val::Null(2)), push(&[0], Val::Null(2)), push_coll(&[0], false)]),
        ("[ # c\n 1, # d\n 2 # e\n]\n", vec![push(&[], n(3)), remove_at(&[], 0), remove_at(&[], 0)]),
        ("[a , b , ]", vec![push(&[], s("c")), clear(&[]), push(&[], s("d"))]),
        // block collections in sequence items
        ("- - 1\n", vec![make(&[0, 0], true), insert(&[0, 0], "x", n(1)), insert(&[0, 0], "y", n(2)), push_coll(&[0], true)]),
        ("- - - a\n", vec![make(&[0, 0, 0], true), insert(&[0, 0, 0], "x", n(1)), insert(&[0, 0, 0], "y", n(2))]),
        ("a:\n- 1\n- 2\n", vec![make(&[0, 1], true), insert(&[0, 1], "x", n(1)), insert_coll(&[0, 1], "y", true)]),
        ("- a: 1\n  b: 2\n", vec![make(&[0, 0], true), insert(&[0, 0], "x", n(1)), insert(&[0], "c", n(3)), push_coll(&[], true)]),
        ("-\n  a\n-\n  b\n", vec![push(&[], s("c")), push_coll(&[], true), remove_at(&[], 0)]),
        ("-   a\n-   b\n", vec![push(&[], s("c")), push_coll(&[], true), push(&[], lit())]),
        // replacing collections
        ("a:\n  b: 1\n", vec![set(&[0], n(1)), make(&[0], true), insert(&[0], "x", n(1))]),
        ("a:\n- 1\nb: 2\n", vec![set(&[0], n(1)), insert(&[], "c", n(3))]),
        ("a:\n- 1\nb: 2\n", vec![insert(&[], "a", s("x")), make(&[0], false), push(&[0], n(1)), push(&[0], n(2))]),
        ("a:\n- 1\n", vec![make(&[0], true), insert(&[0], "x", n(1)), insert(&[0], "y", n(1))]),
        // documents of nothing, and the start of a document
        ("", vec![set(&[], n(1)), make(&[], true), insert(&[], "a", n(1)), insert(&[], "b", n(1))]),
        ("# c", vec![set(&[], n(1))]),
        ("# c", vec![make(&[], false), push(&[], n(1)), push(&[], n(2))]),
        ("---", vec![set(&[], n(1))]),
        ("---", vec![make(&[], true), insert(&[], "a", n(1))]),
        ("--- # c\n", vec![set(&[], s("x"))]),
        ("--- a\n", vec![make(&[], true), insert(&[], "a", n(1)), insert(&[], "b", n(1))]),
        ("a: 1\n", vec![remove(&[], "a"), insert(&[], "b", n(1)), insert(&[], "c", n(2))]),
        ("# c\na: 1\n# d\nb: 2\n", vec![remove(&[], "a"), insert(&[], "c", n(1)), remove(&[], "b"), remove(&[], "c"), set(&[], n(1))]),
        // removing
        ("- a: 1\n  b: 2\n  c: 3\n", vec![remove(&[0], "a"), remove(&[0], "c"), remove(&[0], "b"), insert(&[0], "d", n(4))]),
        ("a: 1\r\nb:\r\n  - x\r\n  - y\r\nc: 3\r\n", vec![remove_at(&[1], 0), remove(&[], "a"), remove(&[], "c"), remove_at(&[0], 0)]),
        ("a: 1 # x\n\n# y\nb: 2 # z\n", vec![remove(&[], "a"), remove(&[], "b")]),
        ("a: 1\nb: 2\na: 3\n", vec![remove(&[], "a"), insert(&[], "a", n(4)), remove(&[], "a"), remove(&[], "a")]),
        // blocks
        ("a:\n  b: 1\n", vec![insert(&[0], "c", lit()), insert(&[0], "d", keep()), insert(&[0], "e", strip()), insert(&[], "f", fold())]),
        ("- - 1\n", vec![push(&[0], lit()), push(&[0], strip()), push(&[], keep()), push(&[], n(1))]),
        ("a: |\n  x\nb: 1\n# c\nd: 2\n", vec![remove(&[], "b"), insert(&[], "e", n(3)), remove(&[], "d")]),
        ("a: |+\n  x\n\nb: 1\n\n# c\nd: 2\n", vec![remove(&[], "b"), remove(&[], "d")]),
        ("a: |+\n  x\nb: 1\n\n\n", vec![remove(&[], "b"), insert(&[], "c", n(1))]),
        ("a: |-\n  x", vec![insert(&[], "b", n(1)), set(&[0], keep()), set(&[1], lit())]),
        ("a: 1\n\n\nb: 2\n", vec![set(&[0], keep()), set(&[0], lit()), set(&[1], keep())]),
        ("a: 1 # c\nb: 2\n", vec![set(&[0], lit()), set(&[1], strip())]),
        ("a: 1\n    # c\nb: 2\n", vec![set(&[0], lit()), insert(&[], "b", lit())]),
        ("a: 1\n", vec![set(&[0], block(&[" x", "y"], false, 0)), set(&[0], block(&["", "x", ""], false, 1)), set(&[0], block(&["x\ty", "\tz"], false, 0)), set(&[0], block(&[""], false, 0)), set(&[0], block(&["x", "  y "], true, 2))]),
        ("x\n", vec![set(&[], lit()), set(&[], strip()), set(&[], keep()), set(&[], n(1))]),
        ("- |\n  x\n- >-\n  y\n", vec![set(&[0], n(1)), remove_at(&[], 0), push(&[], n(2))]),
        // keys
        ("'a' : 1\n\"b\": 2\n", vec![insert(&[], "a", n(3)), insert(&[], "b", n(4)), insert(&[], "c: d", n(5)), remove(&[], "a")]),
        ("a: 1\n", vec![insert(&[], "", n(1)), insert(&[], "?", n(2)), insert(&[], "- x", n(3)), insert(&[], "it's", n(4)), insert(&[], "true", n(5)), insert(&[], "1", n(6)), insert(&[], "x #y", n(7)), insert(&[], "a\nb", n(8))]),
    ]
}

/// What is checked after every edit.
#[derive(Clone, Copy, PartialEq)]
pub enum What {
    Writers,
    Tree,
    ReadsBack,
    Ids,
}

pub fn run(what: What) -> Res {
    for (text, ops) in all() {
        one(text, &ops, what).map_err(|e| format!("{text:?} {ops:?}: {e}"))?;
    }
    Ok(())
}

fn one(text: &str, ops: &[Op], what: What) -> Res {
    let doc = must_parse(text.as_bytes())?;
    let model = read_doc(&doc);
    let standard = libyaml(text.as_bytes()).is_ok_and(|t| diff(&norm_empty(&model), &norm_empty(&t)).is_none());
    let mut s = State::new(doc, model);
    for (i, op) in ops.iter().enumerate() {
        let copy = s.doc.clone();
        let before = bytes_of(&s.doc);
        let tree = s.model.clone();
        let mut ids = Vec::new();
        for p in edit::paths(&s.model, |_| true) {
            ids.push((edit::id_at(&s.doc, &p)?, p));
        }
        edit::apply(&mut s.doc, &mut s.model, op, i % 2 == 1)?;
        match what {
            What::Writers => {
                let b = writers_agree(&s.doc)?;
                let c = writers_agree(&s.doc.clone())?;
                ensure!(b == c, "a clone writes other bytes: {} and {}", show(&b), show(&c));
            }
            What::Tree => eq_tree("after an edit", &s.model, &read_doc(&s.doc))?,
            What::ReadsBack => reads_back(&s.doc, &s.model, standard)?,
            What::Ids => {
                super::edits::move_ids(&mut ids, &tree, op);
                for (id, p) in &ids {
                    let now = edit::id_at(&s.doc, p)?;
                    ensure!(now == *id, "the value at {p:?} changed its id from {id} to {now}");
                    eq_tree("a value by its id", s.model.at(p), &read(&s.doc.value(*id)))?;
                }
                ensure!(bytes_of(&copy) == before, "an edit changed a clone: {} -> {}", show(&before), show(&bytes_of(&copy)));
            }
        }
    }
    Ok(())
}
