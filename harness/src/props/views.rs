//! C16: all ways of looking at a collection show the same entries.

use super::common::*;
use super::edits::{edit_cfg, start};
use crate::edit;
use crate::engine::*;
use crate::ensure;
use crate::gen::{self, Cfg};
use crate::reference::*;
use nondestructive::yaml::{AnyMut, Document, Id, Value};

pub struct C16;

/// Drive an iterator from both ends against the list it has to go through.
fn drive<I, T, K>(src: &mut Src, what: &str, mut it: I, want: &[K], key: impl Fn(T) -> K) -> Res
where
    I: DoubleEndedIterator<Item = T> + ExactSizeIterator,
    K: PartialEq + std::fmt::Debug + Clone,
{
    let mut lo = 0;
    let mut hi = want.len();
    let mut log = String::new();
    macro_rules! same {
        ($step:expr, $got:expr, $want:expr) => {{
            log.push_str(&$step);
            log.push(' ');
            let got = $got.map(&key);
            let w: Option<K> = $want;
            ensure!(got == w, "{what}: after {log}the iterator gives {got:?}, expected {w:?}");
        }};
    }
    for _ in 0..src.range(1, 2 * want.len() + 3) {
        let n = src.below(4) as usize;
        match src.below(9) {
            0 => {
                let w = (lo < hi).then(|| want[lo].clone());
                lo = (lo + 1).min(hi);
                same!("next".to_string(), it.next(), w);
            }
            1 => {
                let w = (lo < hi).then(|| want[hi - 1].clone());
                hi = hi.saturating_sub(1).max(lo);
                same!("next_back".to_string(), it.next_back(), w);
            }
            2 => {
                let w = (lo + n < hi).then(|| want[lo + n].clone());
                lo = (lo + n + 1).min(hi);
                same!(format!("nth({n})"), it.nth(n), w);
            }
            3 => {
                let w = (hi - lo > n).then(|| want[hi - 1 - n].clone());
                hi = if hi - lo > n { hi - 1 - n } else { lo };
                same!(format!("nth_back({n})"), it.nth_back(n), w);
            }
            4 | 5 => {
                let h = it.size_hint();
                ensure!(h == (hi - lo, Some(hi - lo)) && it.len() == hi - lo, "{what}: after {log}the size is {h:?}, expected {}", hi - lo);
            }
            6 => {
                let got: Vec<K> = it.by_ref().take(n).map(&key).collect();
                let end = (lo + n).min(hi);
                ensure!(got == want[lo..end], "{what}: after {log}take({n}) gives {got:?}, expected {:?}", &want[lo..end]);
                lo = end;
                log.push_str(&format!("take({n}) "));
            }
            7 => {
                let w = (lo + n < hi).then(|| want[lo + n].clone());
                lo = (lo + n + 1).min(hi);
                same!(format!("skip({n}).next"), it.by_ref().skip(n).next(), w);
            }
            _ => {
                let got: Vec<K> = it.by_ref().rev().take(n).map(&key).collect();
                let begin = hi.saturating_sub(n).max(lo);
                let w: Vec<K> = want[begin..hi].iter().rev().cloned().collect();
                ensure!(got == w, "{what}: after {log}rev().take({n}) gives {got:?}, expected {w:?}");
                hi = begin;
                log.push_str(&format!("rev().take({n}) "));
            }
        }
    }
    let rest = &want[lo..hi];
    match src.below(6) {
        0 => {
            let n = it.count();
            ensure!(n == rest.len(), "{what}: after {log}count() is {n}, expected {}", rest.len());
        }
        1 => {
            let got = it.last().map(&key);
            ensure!(got.as_ref() == rest.last(), "{what}: after {log}last() is {got:?}, expected {:?}", rest.last());
        }
        2 => {
            let got: Vec<K> = it.rev().map(&key).collect();
            ensure!(got.iter().eq(rest.iter().rev()), "{what}: after {log}rev() gives {got:?}, expected the reverse of {rest:?}");
        }
        3 => {
            let got = it.fold(Vec::new(), |mut v, x| {
                v.push(key(x));
                v
            });
            ensure!(got == rest, "{what}: after {log}fold gives {got:?}, expected {rest:?}");
        }
        4 => {
            let got: Vec<K> = it.step_by(2).map(&key).collect();
            ensure!(got.iter().eq(rest.iter().step_by(2)), "{what}: after {log}step_by(2) gives {got:?} of {rest:?}");
        }
        _ => {
            let got: Vec<K> = it.map(&key).collect();
            ensure!(got == rest, "{what}: after {log}the rest is {got:?}, expected {rest:?}");
        }
    }
    Ok(())
}

/// The ids of the entries, by plain iteration; they are anchored to the data.
fn entries(v: &Value<'_>, n: &Node) -> Result<Vec<(Vec<u8>, Id)>, String> {
    let mut out = Vec::new();
    match n {
        Node::Map(e) => {
            let m = v.as_mapping().ok_or_else(|| format!("not a mapping: {n:?}"))?;
            for (k, x) in m.iter() {
                out.push((k.to_vec(), x.id()));
                let i = out.len() - 1;
                let Some((wk, wv)) = e.get(i) else { return Err(format!("more entries than {n:?}")) };
                ensure!(wk == k, "entry {i} has key {k:?}, expected {}", show(wk));
                eq_tree("entry", wv, &read(&x))?;
            }
            ensure!(out.len() == e.len(), "{} entries, expected {}", out.len(), e.len());
        }
        Node::Seq(e) => {
            let s = v.as_sequence().ok_or_else(|| format!("not a sequence: {n:?}"))?;
            for x in s.iter() {
                out.push((Vec::new(), x.id()));
                let i = out.len() - 1;
                let Some(wv) = e.get(i) else { return Err(format!("more items than {n:?}")) };
                eq_tree("item", wv, &read(&x))?;
            }
            ensure!(out.len() == e.len(), "{} items, expected {}", out.len(), e.len());
        }
        _ => {}
    }
    Ok(out)
}

fn kids(n: &Node) -> Vec<&Node> {
    match n {
        Node::Map(e) => e.iter().map(|(_, v)| v).collect(),
        Node::Seq(e) => e.iter().collect(),
        _ => Vec::new(),
    }
}

/// Keys which are close to those that are there.
fn strangers(e: &[(Vec<u8>, Node)]) -> Vec<String> {
    let mut out: Vec<String> = vec!["".into(), " ".into(), "no such key".into()];
    for (k, _) in e {
        if let Ok(k) = std::str::from_utf8(k) {
            out.extend([format!("{k} "), format!(" {k}"), format!("{k}:"), format!("{k}x"), format!("\"{k}\""), format!("'{k}'"), k.to_uppercase()]);
            if let Some((i, _)) = k.char_indices().last() {
                out.push(k[..i].to_string());
            }
        }
    }
    out.retain(|s| !e.iter().any(|(k, _)| k == s.as_bytes()));
    out
}

/// Everything shared access says about one value.
fn shared(src: &mut Src, doc: &Document, id: Id, n: &Node, list: &[(Vec<u8>, Id)]) -> Res {
    let v = doc.value(id);
    ensure!(v.id() == id, "a value looked up by its id has another id");
    let ids: Vec<Id> = list.iter().map(|(_, i)| *i).collect();
    if let Node::Seq(_) = n {
        let s = v.as_sequence().ok_or("not a sequence")?;
        ensure!(s.id() == id, "the id of a sequence is not that of the value");
        ensure!(s.len() == ids.len() && s.is_empty() == ids.is_empty(), "length {} and is_empty {}, expected {}", s.len(), s.is_empty(), ids.len());
        for i in (0..ids.len() + 3).chain([usize::MAX, usize::MAX - 1, 1 << 32]) {
            let got = s.get(i).map(|v| v.id());
            ensure!(got.as_ref() == ids.get(i), "get({i}) gives another item than iteration: {n:?}");
        }
        ensure!(s.first().map(|v| v.id()).as_ref() == ids.first(), "first() gives another item than iteration: {n:?}");
        ensure!(s.last().map(|v| v.id()).as_ref() == ids.last(), "last() gives another item than iteration: {n:?}");
        drive(src, "iter of a sequence", s.iter(), &ids, |v| v.id())?;
        drive(src, "into_iter of a sequence reference", (&s).into_iter(), &ids, |v| v.id())?;
        drive(src, "into_iter of a sequence", s.into_iter(), &ids, |v| v.id())?;
        if let nondestructive::yaml::Any::Sequence(s) = v.as_any() {
            ensure!(s.id() == id && s.len() == ids.len(), "as_any gives another sequence");
        } else {
            return Err(format!("as_any of {n:?} is not a sequence"));
        }
    } else {
        ensure!(v.as_sequence().is_none(), "as_sequence answers for {n:?}");
    }
    if let Node::Map(e) = n {
        let m = v.as_mapping().ok_or("not a mapping")?;
        ensure!(m.id() == id, "the id of a mapping is not that of the value");
        ensure!(m.len() == ids.len() && m.is_empty() == ids.is_empty(), "length {} and is_empty {}, expected {}", m.len(), m.is_empty(), ids.len());
        for (k, _) in list {
            if let Ok(key) = std::str::from_utf8(k) {
                let first = list.iter().find(|(o, _)| o == k).map(|(_, i)| *i);
                let got = m.get(key).map(|v| v.id());
                ensure!(got == first, "get({key:?}) does not give the first entry of that key: {n:?}");
            }
        }
        for k in strangers(e) {
            ensure!(m.get(&k).is_none(), "get({k:?}) finds an entry in {n:?}");
        }
        drive(src, "iter of a mapping", m.iter(), list, |(k, v)| (k.to_vec(), v.id()))?;
        drive(src, "into_iter of a mapping reference", (&m).into_iter(), list, |(k, v)| (k.to_vec(), v.id()))?;
        drive(src, "into_iter of a mapping", m.into_iter(), list, |(k, v)| (k.to_vec(), v.id()))?;
        if let nondestructive::yaml::Any::Mapping(m) = v.as_any() {
            ensure!(m.id() == id && m.len() == ids.len(), "as_any gives another mapping");
        } else {
            return Err(format!("as_any of {n:?} is not a mapping"));
        }
    } else {
        ensure!(v.as_mapping().is_none(), "as_mapping answers for {n:?}");
    }
    // scalars
    let any = |doc: &Document| -> (bool, Option<bool>, Option<Vec<u8>>, Option<Vec<u8>>) {
        (
            doc.value(id).into_any().is_null(),
            doc.value(id).into_any().into_bool(),
            doc.value(id).into_any().into_string().map(|s| s.to_vec()),
            doc.value(id).into_any().into_number().map(|s| s.as_raw().to_vec()),
        )
    };
    let want = (
        matches!(n, Node::Null),
        if let Node::Bool(b) = n { Some(*b) } else { None },
        if let Node::Str(s) = n { Some(s.clone()) } else { None },
        if let Node::Num(s) = n { Some(s.as_bytes().to_vec()) } else { None },
    );
    let got = any(doc);
    ensure!(got == want, "the views of {n:?} give {got:?}, expected {want:?}");
    let got = (v.as_any().is_null(), v.as_bool(), v.as_bstr().map(|s| s.to_vec()), v.as_number().map(|n| n.as_raw().to_vec()));
    ensure!(got == want, "the getters of {n:?} give {got:?}, expected {want:?}");
    ensure!(doc.value(id).into_number().map(|n| n.as_raw().to_vec()) == want.3, "into_number of {n:?} differs from as_number");
    ensure!(v.as_str().map(str::as_bytes) == want.2.as_deref().filter(|s| std::str::from_utf8(s).is_ok()), "as_str of {n:?} gives {:?}", v.as_str());
    if !matches!(n, Node::Num(_)) {
        let ints = v.as_u8().is_some() || v.as_i8().is_some() || v.as_u16().is_some() || v.as_i16().is_some() || v.as_u32().is_some() || v.as_i32().is_some();
        let more = v.as_u64().is_some() || v.as_i64().is_some() || v.as_u128().is_some() || v.as_i128().is_some() || v.as_f32().is_some() || v.as_f64().is_some();
        ensure!(!ints && !more, "a number getter answers for {n:?}");
    }
    Ok(())
}

/// Everything mutable access reaches.
fn mutable(doc: &mut Document, id: Id, n: &Node, list: &[(Vec<u8>, Id)]) -> Res {
    let is_map = matches!(n, Node::Map(_));
    let is_seq = matches!(n, Node::Seq(_));
    ensure!(doc.value_mut(id).as_ref().id() == id && doc.value_mut(id).into_ref().id() == id, "mutable access to an id gives another value");
    let mut v = doc.value_mut(id);
    ensure!(v.as_mapping_mut().is_some() == is_map && v.as_sequence_mut().is_some() == is_seq, "mutable views of {n:?} answer wrongly");
    ensure!(v.into_mapping_mut().is_some() == is_map, "into_mapping_mut of {n:?} answers wrongly");
    ensure!(doc.value_mut(id).into_sequence_mut().is_some() == is_seq, "into_sequence_mut of {n:?} answers wrongly");
    let any = doc.value_mut(id).into_any_mut();
    ensure!(any.id() == id, "into_any_mut of {n:?} has another id");
    match any {
        AnyMut::Scalar(v) => ensure!(!is_map && !is_seq && v.as_ref().id() == id, "into_any_mut of {n:?} is a scalar"),
        AnyMut::Mapping(m) => ensure!(is_map && m.as_ref().id() == id && m.as_ref().len() == list.len() && m.into_ref().id() == id, "into_any_mut of {n:?} is a mapping"),
        AnyMut::Sequence(s) => ensure!(is_seq && s.as_ref().id() == id && s.as_ref().len() == list.len() && s.into_ref().id() == id, "into_any_mut of {n:?} is a sequence"),
        _ => return Err(format!("into_any_mut of {n:?} is something else")),
    }
    if let Node::Map(e) = n {
        for (k, _) in list {
            let Ok(key) = std::str::from_utf8(k) else { continue };
            let first = list.iter().find(|(o, _)| o == k).map(|(_, i)| *i);
            let mut v = doc.value_mut(id);
            let mut m = v.as_mapping_mut().ok_or("not a mapping")?;
            let got = m.get_mut(key).map(|v| v.as_ref().id());
            ensure!(got == first, "get_mut({key:?}) reaches another entry than get: {n:?}");
            let got = doc.value_mut(id).into_mapping_mut().ok_or("not a mapping")?.get_into_mut(key).map(|v| v.into_ref().id());
            ensure!(got == first, "get_into_mut({key:?}) reaches another entry than get: {n:?}");
        }
        for k in strangers(e) {
            let mut v = doc.value_mut(id);
            let mut m = v.as_mapping_mut().ok_or("not a mapping")?;
            ensure!(m.get_mut(&k).is_none() && m.get_into_mut(&k).is_none(), "get_mut({k:?}) finds an entry in {n:?}");
        }
    }
    if is_seq {
        for i in (0..list.len() + 3).chain([usize::MAX, 1 << 32]) {
            let want = list.get(i).map(|(_, i)| *i);
            let mut v = doc.value_mut(id);
            let mut s = v.as_sequence_mut().ok_or("not a sequence")?;
            let got = s.get_mut(i).map(|v| v.as_ref().id());
            ensure!(got == want, "get_mut({i}) reaches another item than get: {n:?}");
            let got = s.get_into_mut(i).map(|v| v.into_ref().id());
            ensure!(got == want, "get_into_mut({i}) reaches another item than get: {n:?}");
        }
    }
    Ok(())
}

fn all(src: &mut Src, doc: &mut Document, id: Id, n: &Node) -> Res {
    let list = entries(&doc.value(id), n)?;
    shared(src, doc, id, n, &list)?;
    mutable(doc, id, n, &list)?;
    for ((_, id), c) in list.into_iter().zip(kids(n)) {
        all(src, doc, id, c)?;
    }
    Ok(())
}

fn views(src: &mut Src, doc: &mut Document, n: &Node) -> Res {
    let before = bytes_of(doc);
    let id = doc.as_ref().id();
    all(src, doc, id, n)?;
    let after = bytes_of(doc);
    ensure!(before == after, "looking at the document changed it: {} -> {}", show(&before), show(&after));
    Ok(())
}

/// Give some mappings entries of the same key.
fn repeat_keys(n: &mut Node, src: &mut Src) -> bool {
    let mut any = false;
    match n {
        Node::Seq(v) => v.iter_mut().for_each(|c| any |= repeat_keys(c, src)),
        Node::Map(v) => {
            if v.len() > 1 && src.chance(1, 2) {
                let from = src.below(v.len() as u32) as usize;
                let to = src.below(v.len() as u32) as usize;
                any |= from != to;
                v[to].0 = v[from].0.clone();
            }
            v.iter_mut().for_each(|(_, c)| any |= repeat_keys(c, src));
        }
        _ => {}
    }
    any
}

impl Prop for C16 {
    fn id(&self) -> &'static str {
        "C16"
    }
    fn rule(&self) -> &'static str {
        "documents rendered from random trees, a third of them with keys that occur several times in a mapping, and up to 5 random edits; of every value in the document, all views are compared with its place in the tree and with the ids plain iteration gives: length, emptiness, position and key lookup (also with keys and positions that are not there), first, last, random programs of next, next_back, nth, nth_back, take, skip, rev, size and a random way of consuming the rest over all iterators, the same lookups through mutable access, and every type-specific view. Looking must not change the document. Non-trivial: a collection of at least 2 entries; distinct by document and edits."
    }
    fn cases(&self) -> (u64, u64) {
        (300_000, 6_000_000)
    }
    fn run(&self, src: &mut Src, ctx: &mut Ctx) -> Res {
        let repeated = src.chance(1, 3);
        let d = if repeated {
            let cfg = Cfg { max_nodes: 12, ..Cfg::loose() };
            let mut t = gen::tree(src, &cfg);
            if repeat_keys(&mut t, src) {
                ctx.label("repeated keys");
            }
            gen::render(src, &cfg, &t)
        } else {
            let cfg = Cfg { max_nodes: 16, ..edit_cfg(src.chance(1, 2)) };
            gen::doc(src, &cfg)
        };
        ctx.describe(|| format!("document {}\ntree {:?}", show(&d.text), d.tree));
        ctx.id(&d.text);
        let mut s = start(&d)?;
        views(src, &mut s.doc, &s.model)?;
        for _ in 0..src.below(6) {
            let op = edit::op(src, &s.model);
            ctx.describe(|| format!("edit {op:?}"));
            ctx.id(format!("{op:?}").as_bytes());
            ctx.label(op.name());
            // paths by key cannot tell entries of the same key apart
            edit::apply(&mut s.doc, &mut s.model, &op, repeated || src.chance(1, 2))?;
            // floats are kept by value in the model, and by their text here
            let seen = read_doc(&s.doc);
            eq_tree("after an edit", &s.model, &seen)?;
            views(src, &mut s.doc, &seen)?;
        }
        fn wide(n: &Node) -> bool {
            kids(n).len() > 1 || kids(n).iter().any(|c| wide(c))
        }
        ctx.nontrivial = wide(&s.model) || wide(&d.tree);
        Ok(())
    }
    fn pinned(&self) -> Vec<(&'static str, fn() -> Res)> {
        fn t(text: &str) -> Res {
            let mut doc = must_parse(text.as_bytes())?;
            let tree = read_doc(&doc);
            for seed in 0..200 {
                views(&mut Src::random(seed), &mut doc, &tree)?;
            }
            Ok(())
        }
        vec![
            ("nth-back", || {
                let doc = must_parse(b"[1, 2, 3, 4]")?;
                let s = doc.as_ref().as_sequence().ok_or("sequence")?;
                let got = s.iter().nth_back(1).and_then(|v| v.as_u32());
                ensure!(got == Some(3), "nth_back(1) of [1, 2, 3, 4] is {got:?}");
                let doc = must_parse(b"{a: 1, b: 2, c: 3}")?;
                let s = doc.as_ref().as_mapping().ok_or("mapping")?;
                let got = s.iter().nth_back(2).and_then(|(_, v)| v.as_u32());
                ensure!(got == Some(1), "nth_back(2) of a, b, c is {got:?}");
                Ok(())
            }),
            ("many-entries", super::large::views),
            ("empty", || t("{a: [], b: {}}")),
            ("block", || t("a: 1\nb:\n- 1\n- x\n- true\n-\nc: {d: 1.5, e: ~}\n")),
            ("repeated-key", || t("a: 1\nb: 2\na: 3\n")),
        ]
    }
}
