//! Shared by several properties: walking every accessor, building documents.

use crate::engine::*;
use crate::reference::*;
use nondestructive::yaml::{self, Any, Value};

pub fn parse(b: &[u8]) -> Result<yaml::Document, String> {
    yaml::from_slice(b).map_err(|e| format!("{:?} at {:?}", e.kind(), e.span()))
}

pub fn must_parse(b: &[u8]) -> Result<yaml::Document, String> {
    parse(b).map_err(|e| format!("refused: {e}: {}", show(b)))
}

/// Query a value and everything below it through every accessor. Returns the
/// number of values seen.
pub fn touch(doc: &yaml::Document, v: &Value<'_>) -> usize {
    // the debug form of a value holds the whole document
    let small = bytes_of(doc).len() < 1500;
    touch_at(doc, v, 0, small)
}

fn touch_at(doc: &yaml::Document, v: &Value<'_>, depth: usize, small: bool) -> usize {
    let mut n = 1;
    let _ = (v.as_bool(), v.as_bstr(), v.as_str(), v.as_number(), v.as_mapping(), v.as_sequence());
    let _ = (v.as_u8(), v.as_i8(), v.as_u16(), v.as_i16(), v.as_u32(), v.as_i32(), v.as_u64(), v.as_i64());
    let _ = (v.as_u128(), v.as_i128(), v.as_f32(), v.as_f64());
    let _ = v.as_any().is_null();
    let _ = v.as_any().into_bool();
    let _ = v.as_any().into_string().map(|s| s.as_raw().len());
    let _ = v.as_any().into_number().map(|n| n.as_raw().len());
    // printing is linear in the subtree, so only near the root of deep trees
    if depth < 12 {
        let _ = v.to_string();
        if small {
            let _ = format!("{v:?}");
        }
    }
    let id = v.id();
    let _ = id.to_string();
    let again = doc.value(id);
    let _ = again.as_any().is_null();
    match v.as_any() {
        Any::Mapping(m) => {
            let _ = (m.id(), m.len(), m.is_empty());
            let _ = m.get("a");
            if depth < 12 {
                let _ = m.to_string();
                if small {
                    let _ = format!("{m:?}");
                }
            }
            let mut it = m.iter();
            let _ = it.size_hint();
            let _ = it.next_back();
            let _ = it.nth(1);
            for (k, v) in m.iter() {
                let _ = k.len();
                n += touch_at(doc, &v, depth + 1, small);
            }
            let _ = (&m).into_iter().rev().count();
        }
        Any::Sequence(s) => {
            let _ = (s.id(), s.len(), s.is_empty(), s.first().is_some(), s.last().is_some());
            let _ = s.get(0).is_some();
            let _ = s.get(usize::MAX).is_some();
            if depth < 12 {
                let _ = s.to_string();
                if small {
                    let _ = format!("{s:?}");
                }
            }
            let mut it = s.iter();
            let _ = it.size_hint();
            let _ = it.next_back();
            let _ = it.nth(1);
            for v in s.iter() {
                n += touch_at(doc, &v, depth + 1, small);
            }
            let _ = (&s).into_iter().rev().count();
        }
        _ => {}
    }
    n
}

/// Both ways of writing agree, and give `want` if given.
pub fn writers_agree(d: &yaml::Document) -> Result<Vec<u8>, String> {
    let b = bytes_of(d);
    if std::str::from_utf8(&b).is_ok() {
        let s = d.to_string();
        if s.as_bytes() != &b[..] {
            return Err(format!("text form and written bytes differ:\n text  {}\n bytes {}", show(s.as_bytes()), show(&b)));
        }
    }
    Ok(b)
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        if !$c {
            return Err(format!($($a)*));
        }
    };
}

pub fn eq_tree(what: &str, want: &Node, got: &Node) -> Res {
    match diff(want, got) {
        None => Ok(()),
        Some(d) => Err(format!("{what}: {d}")),
    }
}
