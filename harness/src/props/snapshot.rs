//! C19: saved editing snapshots.

use super::common::*;
use super::edits::{edit_cfg, step, State};
use super::serde::odd_numbers;
use crate::edit::{self, id_at};
use crate::engine::*;
use crate::ensure;
use crate::gen;
use crate::record::record;
use crate::reference::*;
use nondestructive::yaml::Document;

pub struct C19;

const FORMATS: &[&str] = &["json", "json-reader", "json-value", "cbor", "yaml"];

fn restore(d: &Document, format: &str) -> Result<Document, String> {
    let e = |e: &dyn std::fmt::Display, what: &str| format!("{what} as {format}: {e}");
    match format {
        "json" => {
            let s = serde_json::to_string(d).map_err(|x| e(&x, "not saved"))?;
            serde_json::from_str(&s).map_err(|x| e(&x, "not loaded"))
        }
        "json-reader" => {
            let s = serde_json::to_vec_pretty(d).map_err(|x| e(&x, "not saved"))?;
            serde_json::from_reader(&s[..]).map_err(|x| e(&x, "not loaded"))
        }
        "json-value" => {
            let s = serde_json::to_value(d).map_err(|x| e(&x, "not saved"))?;
            serde_json::from_value(s).map_err(|x| e(&x, "not loaded"))
        }
        "cbor" => {
            let mut s = Vec::new();
            ciborium::into_writer(d, &mut s).map_err(|x| e(&x, "not saved"))?;
            ciborium::from_reader(&s[..]).map_err(|x| e(&x, "not loaded"))
        }
        _ => {
            let s = serde_yaml::to_string(d).map_err(|x| e(&x, "not saved"))?;
            serde_yaml::from_str(&s).map_err(|x| e(&x, "not loaded"))
        }
    }
}

/// Everything that can be seen of both is the same.
fn same(what: &str, a: &Document, b: &Document) -> Res {
    let (x, y) = (bytes_of(a), writers_agree(b)?);
    ensure!(x == y, "{what}: the restored document writes {}, the original {}", show(&y), show(&x));
    eq_tree(what, &read_doc(a), &read_doc(b))
}

/// All values are known by the same ids.
fn same_ids(a: &Document, b: &Document) -> Res {
    let tree = read_doc(a);
    let mut paths = Vec::new();
    tree.walk(&mut |p, n| paths.push((p.to_vec(), n.clone())));
    for (p, n) in paths {
        let (x, y) = (id_at(a, &p)?, id_at(b, &p)?);
        ensure!(x == y, "the value at {p:?} has the id {y} after restoring, {x} before");
        let seen = read(&b.value(x));
        eq_tree("by id", &n, &seen)?;
        let (r, s) = (record(&a.value(x)).map_err(|e| e.to_string())?, record(&b.value(x)).map_err(|e| e.to_string())?);
        ensure!(r == s, "{n:?} is serialized as {s:?} after restoring, {r:?} before");
    }
    Ok(())
}

impl Prop for C19 {
    fn id(&self) -> &'static str {
        "C19"
    }
    fn rule(&self) -> &'static str {
        "documents rendered from random trees (standard, loose with bytes that are not UTF-8, byte-mutated) and histories of up to 6 random edits; the document is saved and loaded as JSON (text, reader, value), CBOR or YAML, sometimes several times over; bytes, tree, the id of every value and what it serializes to must be those of the original; then up to 6 further random edits are applied to both, by id or by path, after each of which both must write the same bytes and hold the expected tree. Non-trivial: at least 2 values and one edit; distinct by document, edits and formats."
    }
    fn cases(&self) -> (u64, u64) {
        (180_000, 2_000_000)
    }
    fn run(&self, src: &mut Src, ctx: &mut Ctx) -> Res {
        let text = if src.chance(1, 6) {
            crate::bytes::any_input(src, 30).0
        } else {
            let cfg = edit_cfg(src.chance(1, 2));
            let mut t = gen::tree(src, &cfg);
            if src.chance(1, 3) {
                odd_numbers(&mut t, src);
            }
            gen::render(src, &cfg, &t).text
        };
        ctx.describe(|| format!("document {}", show(&text)));
        ctx.id(&text);
        let Ok(doc) = parse(&text) else { return Ok(()) };
        let model = read_doc(&doc);
        let mut s = State::new(doc, model);
        let mut n = 0;
        for _ in 0..src.below(7) {
            let op = step(src, ctx, &mut s)?;
            ctx.id(format!("{op:?}").as_bytes());
            n += 1;
        }
        let mut copy = s.doc.clone();
        loop {
            let f = *src.pick(FORMATS);
            ctx.describe(|| format!("save and load as {f}"));
            ctx.label(f);
            ctx.id(f.as_bytes());
            copy = restore(&copy, f)?;
            if !src.chance(1, 5) {
                break;
            }
        }
        same("restored", &s.doc, &copy)?;
        same_ids(&s.doc, &copy)?;
        for _ in 0..src.below(7) {
            let op = edit::op(src, &s.model);
            let by_id = src.chance(1, 2);
            ctx.describe(|| format!("edit of both {op:?}{}", if by_id { " (by id)" } else { "" }));
            ctx.id(format!("{op:?}").as_bytes());
            let mut model = s.model.clone();
            let first = edit::apply(&mut s.doc, &mut s.model, &op, by_id);
            let second = edit::apply(&mut copy, &mut model, &op, by_id);
            ensure!(first == second, "the edit gives {first:?} on the original and {second:?} on the restored document");
            first?;
            same("after an edit of both", &s.doc, &copy)?;
            n += 1;
        }
        eq_tree("after the edits", &s.model, &read_doc(&copy))?;
        ctx.nontrivial = n > 0 && s.model.count() > 1;
        Ok(())
    }
    fn pinned(&self) -> Vec<(&'static str, fn() -> Res)> {
        fn t(text: &[u8]) -> Res {
            let a = must_parse(text)?;
            for f in FORMATS {
                let b = restore(&a, f)?;
                same(f, &a, &b)?;
                same_ids(&a, &b)?;
            }
            Ok(())
        }
        vec![
            ("many-entries", super::large::snapshot),
            ("json", || t(b"a: 1\n")),
            ("every-kind", || t(b"--- # c\na: [1, 2.5, -3]\nb: {x: ~, y: , z: null}\nc: |\n  t\nd: >-\n  u\ne:\n  - 'q'\n  - \"\\n\"\n  - true\n# end\n")),
            ("not-utf8", || t(b"\xff: [\xfe, '\xfd', \"\xfc\"]\n")),
            ("empty", || t(b"")),
        ]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["ids of values made after restoring may differ", "self-describing formats"]
    }
}
