//! Everything a document does in one random history, as text. Also compiled
//! into featdump, against the library with other features.

use crate::bytes;
use crate::edit;
use crate::engine::Src;
use crate::gen::{self, Cfg};
use crate::reference::*;
use nondestructive::yaml::{self, Any, Document, Value};
use std::fmt::Write as _;

fn see(out: &mut String, v: &Value<'_>) {
    let _ = write!(out, "{} {:?} ", v.id(), v.to_string());
    let _ = write!(out, "{:?}{:?}{:?}{:?}", v.as_u8(), v.as_u16(), v.as_u32(), v.as_u64());
    let _ = write!(out, "{:?}{:?}{:?}{:?}", v.as_i8(), v.as_i16(), v.as_i32(), v.as_i64());
    let _ = write!(out, "{:?}{:?}{:?}{:?}{:?}", v.as_u128(), v.as_i128(), v.as_f32(), v.as_f64(), v.as_bool());
    let _ = write!(out, "{:?}{:?}{:?}", v.as_str(), v.as_bstr(), v.as_number().map(|n| n.as_raw().to_vec()));
    match v.as_any() {
        Any::Mapping(m) => {
            let _ = writeln!(out, "map {}", m.len());
            for (k, v) in &m {
                let _ = write!(out, "{k:?}={:?} ", std::str::from_utf8(k).ok().and_then(|k| m.get(k)).map(|v| v.id()));
                see(out, &v);
            }
        }
        Any::Sequence(s) => {
            let _ = writeln!(out, "seq {}", s.len());
            for v in &s {
                see(out, &v);
            }
        }
        Any::Null => out.push_str("null\n"),
        Any::Bool(b) => {
            let _ = writeln!(out, "bool {b}");
        }
        Any::Number(n) => {
            let _ = writeln!(out, "number {:?}", n.as_raw());
        }
        Any::String(s) => {
            let _ = writeln!(out, "string {s:?}");
        }
        _ => out.push_str("other\n"),
    }
}

fn see_doc(out: &mut String, d: &Document) {
    let _ = writeln!(out, "bytes {}\ntext {:?}", show(&bytes_of(d)), d.to_string());
    see(out, &d.as_ref());
}

/// The input and what happens to it.
pub fn behave(src: &mut Src, out: &mut String) {
    let text = match src.weighted(&[3, 3, 3]) {
        0 => gen::doc(src, &Cfg { max_nodes: 14, ..Cfg::spec() }).text,
        1 => gen::doc(src, &Cfg { max_nodes: 14, ..Cfg::loose() }).text,
        _ => bytes::any_input(src, 60).0,
    };
    let _ = writeln!(out, "input {}", show(&text));
    let mut doc = match yaml::from_slice(&text) {
        Ok(doc) => doc,
        Err(e) => {
            let _ = writeln!(out, "refused {e} {:?} {:?}", e.kind(), e.span());
            return;
        }
    };
    see_doc(out, &doc);
    let mut model = read_doc(&doc);
    let mut dup = false;
    model.walk(&mut |_, n| {
        if let Node::Map(e) = n {
            dup |= (0..e.len()).any(|i| e[..i].iter().any(|(k, _)| *k == e[i].0));
        }
    });
    if dup {
        return;
    }
    for _ in 0..src.below(6) {
        let op = edit::op(src, &model);
        let by_id = src.chance(1, 2);
        let _ = writeln!(out, "edit {op:?} {by_id}");
        let r = edit::apply(&mut doc, &mut model, &op, by_id);
        let _ = writeln!(out, "{r:?}");
        see_doc(out, &doc);
    }
}
