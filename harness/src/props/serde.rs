//! C17: what is serialized.

use super::common::*;
use super::edits::{edit_cfg, step, State};
use super::scalars::{int_of, number_text};
use crate::engine::*;
use crate::ensure;
use crate::gen::{self, Cfg};
use crate::record::{record, record_failing, Rec, STOPPED};
use crate::reference::*;
use nondestructive::yaml::Value;

pub struct C17;

/// Numbers of every kind and size in place of some of those that are there.
pub fn odd_numbers(n: &mut Node, src: &mut Src) {
    match n {
        Node::Seq(v) => v.iter_mut().for_each(|c| odd_numbers(c, src)),
        Node::Map(v) => v.iter_mut().for_each(|(_, c)| odd_numbers(c, src)),
        Node::Num(t) => {
            if src.chance(1, 2) {
                let n = number_text(src);
                if is_number_text(n.as_bytes()) {
                    *t = n;
                }
            }
        }
        _ => {}
    }
}

/// A document to serialize, after some edits.
pub fn edited(src: &mut Src, ctx: &mut Ctx, standard: bool) -> Result<State, String> {
    let cfg = Cfg { max_nodes: 12, ..edit_cfg(standard) };
    let mut t = gen::tree(src, &cfg);
    odd_numbers(&mut t, src);
    let d = gen::render(src, &cfg, &t);
    ctx.describe(|| format!("document {}", show(&d.text)));
    ctx.id(&d.text);
    let doc = must_parse(&d.text)?;
    eq_tree("read", &d.tree, &read_doc(&doc))?;
    let mut s = State::new(doc, d.tree);
    for _ in 0..src.below(5) {
        let op = step(src, ctx, &mut s)?;
        ctx.id(format!("{op:?}").as_bytes());
    }
    let seen = read_doc(&s.doc);
    eq_tree("after the edits", &s.model, &seen)?;
    Ok(s)
}

/// What was recorded is what the accessors show.
fn same(seen: &Node, model: &Node, rec: &Rec) -> Res {
    let bad = || Err(format!("{seen:?} is serialized as {rec:?}"));
    match (seen, rec) {
        (Node::Null, Rec::None | Rec::Unit) => Ok(()),
        (Node::Bool(a), Rec::Bool(b)) if a == b => Ok(()),
        (Node::Num(t), _) => {
            let int = int_of(t);
            let single = matches!(model, Node::Num(m) if m.ends_with("f32"));
            let ok = match (int, rec) {
                (Some(Ok((false, a))), Rec::Unsigned(b)) => a == *b,
                (Some(Ok((false, a))), Rec::Signed(b)) => i128::try_from(a) == Ok(*b),
                (Some(Ok((true, a))), Rec::Signed(b)) => *b <= 0 && b.unsigned_abs() == a,
                (Some(Ok((true, 0))), Rec::Unsigned(0)) => true,
                // nothing exact is left
                (Some(Ok((true, a))), Rec::F64(b)) if a > 1 << 127 => t.parse() == Ok(*b),
                (Some(Err(())) | None, Rec::F64(b)) => t.parse::<f64>().map(f64::to_bits) == Ok(b.to_bits()),
                (Some(Err(())) | None, Rec::F32(b)) if single => t.parse::<f32>().map(f32::to_bits) == Ok(b.to_bits()),
                _ => false,
            };
            if ok {
                Ok(())
            } else {
                bad()
            }
        }
        (Node::Str(a), Rec::Str(b)) if a == b.as_bytes() => Ok(()),
        (Node::Str(a), Rec::Bytes(b)) if a == b && std::str::from_utf8(a).is_err() => Ok(()),
        (Node::Seq(a), Rec::Seq(n, b)) => {
            let Node::Seq(m) = model else { return bad() };
            ensure!(n.is_none() || *n == Some(a.len()), "a sequence of {} is announced as {n:?}", a.len());
            ensure!(a.len() == b.len(), "{seen:?} is serialized as {rec:?}");
            a.iter().zip(m).zip(b).try_for_each(|((a, m), b)| same(a, m, b))
        }
        (Node::Map(a), Rec::Map(n, b)) => {
            let Node::Map(m) = model else { return bad() };
            ensure!(n.is_none() || *n == Some(a.len()), "a mapping of {} is announced as {n:?}", a.len());
            ensure!(a.len() == b.len(), "{seen:?} is serialized as {rec:?}");
            for (((k, a), (_, m)), (l, b)) in a.iter().zip(m).zip(b) {
                let key = match l {
                    Rec::Str(l) => l.as_bytes() == k,
                    Rec::Bytes(l) => l == k && std::str::from_utf8(k).is_err(),
                    _ => false,
                };
                ensure!(key, "the key {} is serialized as {l:?}", show(k));
                same(a, m, b)?;
            }
            Ok(())
        }
        _ => bad(),
    }
}

/// Every value on its own, and collections as themselves.
fn every(v: &Value<'_>, seen: &Node, model: &Node) -> Res {
    let rec = record(v).map_err(|e| format!("{seen:?} is not serialized: {e}"))?;
    same(seen, model, &rec)?;
    match (seen, model) {
        (Node::Seq(a), Node::Seq(m)) => {
            let s = v.as_sequence().ok_or("not a sequence")?;
            let rec = record(&s).map_err(|e| format!("{seen:?} is not serialized: {e}"))?;
            same(seen, model, &rec)?;
            s.iter().zip(a).zip(m).try_for_each(|((v, a), m)| every(&v, a, m))
        }
        (Node::Map(a), Node::Map(m)) => {
            let s = v.as_mapping().ok_or("not a mapping")?;
            let rec = record(&s).map_err(|e| format!("{seen:?} is not serialized: {e}"))?;
            same(seen, model, &rec)?;
            s.iter().zip(a).zip(m).try_for_each(|(((_, v), (_, a)), (_, m))| every(&v, a, m))
        }
        _ => Ok(()),
    }
}

/// Things the formats cannot hold.
pub fn plain_data(n: &Node) -> bool {
    match n {
        Node::Str(s) => std::str::from_utf8(s).is_ok(),
        Node::Num(t) => match int_of(t) {
            Some(Ok((false, a))) => u64::try_from(a).is_ok(),
            Some(Ok((true, a))) => a <= 1 << 63,
            Some(Err(())) => false,
            None => t.parse::<f64>().is_ok_and(f64::is_finite),
        },
        Node::Seq(v) => v.iter().all(plain_data),
        Node::Map(v) => {
            v.iter().all(|(k, v)| std::str::from_utf8(k).is_ok() && plain_data(v)) && (0..v.len()).all(|i| v[..i].iter().all(|(k, _)| *k != v[i].0))
        }
        _ => true,
    }
}

/// Numbers by value.
pub fn in_values(n: &Node, f32s: bool) -> serde_json::Value {
    use serde_json::Value as J;
    match n {
        Node::Null => J::Null,
        Node::Bool(b) => J::Bool(*b),
        Node::Num(t) => match int_of(t) {
            Some(Ok((false, a))) => J::from(a as u64),
            Some(Ok((true, a))) => J::from((a as i128).wrapping_neg() as i64),
            _ if f32s => J::from(t.parse::<f32>().unwrap_or_default()),
            _ => J::from(t.parse::<f64>().unwrap_or_default()),
        },
        Node::Str(s) => J::String(String::from_utf8_lossy(s).into_owned()),
        Node::Seq(v) => J::Array(v.iter().map(|n| in_values(n, f32s)).collect()),
        Node::Map(v) => J::Object(v.iter().map(|(k, v)| (String::from_utf8_lossy(k).into_owned(), in_values(v, f32s))).collect()),
    }
}

pub fn has_f32(n: &Node) -> bool {
    match n {
        Node::Num(t) => t.ends_with("f32"),
        Node::Seq(v) => v.iter().any(has_f32),
        Node::Map(v) => v.iter().any(|(_, v)| has_f32(v)),
        _ => false,
    }
}

fn formats(s: &State, seen: &Node) -> Res {
    if !plain_data(seen) || has_f32(&s.model) {
        return Ok(());
    }
    let want = in_values(seen, false);
    let j = serde_json::to_string(&s.doc.as_ref()).map_err(|e| format!("not serialized as JSON: {e}"))?;
    let got: serde_json::Value = serde_json::from_str(&j).map_err(|e| format!("not JSON: {e}: {j}"))?;
    ensure!(got == want, "serialized as JSON {j}, expected {want}");
    let mut c = Vec::new();
    ciborium::into_writer(&s.doc.as_ref(), &mut c).map_err(|e| format!("not serialized as CBOR: {e}"))?;
    let got: serde_json::Value = ciborium::from_reader(&c[..]).map_err(|e| format!("not CBOR: {e}"))?;
    ensure!(got == want, "serialized as CBOR {got}, expected {want}");
    let y = serde_yaml::to_string(&s.doc.as_ref()).map_err(|e| format!("not serialized as YAML: {e}"))?;
    let got: serde_json::Value = serde_yaml::from_str(&y).map_err(|e| format!("not YAML: {e}: {y}"))?;
    ensure!(got == want, "serialized as YAML {y:?}, expected {want}");
    Ok(())
}

impl Prop for C17 {
    fn id(&self) -> &'static str {
        "C17"
    }
    fn rule(&self) -> &'static str {
        "documents rendered from random trees, with numbers around the limits of every width, beyond 128 bits and of random digits and exponents, and up to 4 random edits (which set numbers of every width); the root, every value, and every collection as Sequence and Mapping are serialized into a recorder, which must show the tree the accessors show, with exact integers and floats and bytes where text is not UTF-8. Data that JSON, CBOR and YAML can hold is also serialized to them and read back. Non-trivial: at least 2 values; distinct by document and edits."
    }
    fn cases(&self) -> (u64, u64) {
        (900_000, 8_000_000)
    }
    fn run(&self, src: &mut Src, ctx: &mut Ctx) -> Res {
        let standard = src.chance(1, 2);
        let s = edited(src, ctx, standard)?;
        let seen = read_doc(&s.doc);
        ctx.nontrivial = seen.count() > 1;
        every(&s.doc.as_ref(), &seen, &s.model)?;
        if src.chance(1, 3) {
            formats(&s, &seen)?;
        }
        // An error of the serializer is what comes out.
        if src.chance(1, 2) {
            const ALL: u64 = 1 << 40;
            let root = s.doc.as_ref();
            let view = src.chance(1, 2);
            let run = |n| match (root.as_sequence(), root.as_mapping()) {
                (Some(s), _) if view => record_failing(&s, n),
                (_, Some(m)) if view => record_failing(&m, n),
                _ => record_failing(&root, n),
            };
            let (_, left) = run(ALL);
            let at = src.below((ALL - left) as u32);
            let (r, _) = run(at.into());
            ensure!(matches!(&r, Err(e) if e.to_string() == STOPPED), "a serializer which fails after {at} steps gives {r:?} for {seen:?}");
        }
        Ok(())
    }
    fn pinned(&self) -> Vec<(&'static str, fn() -> Res)> {
        fn t(text: &[u8], want: Rec) -> Res {
            let doc = must_parse(text)?;
            let got = record(&doc.as_ref()).map_err(|e| format!("{} is not serialized: {e}", show(text)))?;
            ensure!(got == want, "{} is serialized as {got:?}, expected {want:?}", show(text));
            Ok(())
        }
        vec![
            ("many-entries", super::large::serialize),
            ("beyond-u64", || t(b"18446744073709551616", Rec::Unsigned(1 << 64))),
            ("beyond-i64", || t(b"-9223372036854775809", Rec::Signed(-9223372036854775809))),
            ("beyond-u128", || t(b"340282366920938463463374607431768211456", Rec::F64(340282366920938463463374607431768211456.0))),
            ("float", || t(b"0.1", Rec::F64(0.1))),
            ("bytes", || t(b"\xff\xfe", Rec::Bytes(b"\xff\xfe".to_vec()))),
            ("key-bytes", || t(b"\xff: 1", Rec::Map(Some(1), vec![(Rec::Bytes(vec![0xff]), Rec::Unsigned(1))]))),
            ("set-f32", || {
                let mut doc = must_parse(b"x")?;
                doc.as_mut().set_f32(0.1);
                let got = record(&doc.as_ref()).map_err(|e| e.to_string())?;
                ensure!(matches!(got, Rec::F32(x) if x == 0.1) || matches!(got, Rec::F64(x) if x == 0.1), "serialized as {got:?}");
                Ok(())
            }),
        ]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["integers beyond 128 bits are serialized as the nearest 64-bit float", "a float set as 32 bits may be serialized as either width until it is read again"]
    }
}
