//! Collections with more entries than sixteen bits can count. Generated
//! documents do not get there, since a case has to be quick.

use super::common::*;
use crate::engine::*;
use crate::reference::bytes_of;
use crate::ensure;
use nondestructive::yaml::Document;
use serde::Deserialize;

const N: usize = 70_000;

/// Where something that counts too little would notice.
const AT: &[usize] = &[0, 1, 127, 128, 255, 256, 257, 32_767, 32_768, 65_535, 65_536, 65_537, N - 2, N - 1];

fn items() -> String {
    (0..N).map(|i| format!("- {i}\n")).collect()
}

fn entries() -> String {
    (0..N).map(|i| format!("k{i}: {i}\n")).collect()
}

fn seq() -> Result<Document, String> {
    must_parse(items().as_bytes())
}

fn map() -> Result<Document, String> {
    must_parse(entries().as_bytes())
}

/// C16.
pub fn views() -> Res {
    let doc = seq()?;
    let s = doc.as_ref().as_sequence().ok_or("a sequence")?;
    ensure!(s.len() == N && s.iter().len() == N && s.iter().count() == N && s.iter().size_hint() == (N, Some(N)), "{N} items: len {}, iter().len() {}, size_hint {:?}", s.len(), s.iter().len(), s.iter().size_hint());
    for &i in AT {
        let want = Some(i as u32);
        let all = [
            s.get(i).and_then(|v| v.as_u32()),
            s.iter().nth(i).and_then(|v| v.as_u32()),
            s.iter().nth_back(N - 1 - i).and_then(|v| v.as_u32()),
            s.iter().skip(i).next().and_then(|v| v.as_u32()),
            s.iter().rev().nth(N - 1 - i).and_then(|v| v.as_u32()),
        ];
        ensure!(all.iter().all(|v| *v == want), "item {i} of {N}: {all:?}");
    }
    ensure!(s.get(N).is_none() && s.get(usize::MAX).is_none(), "there is an item behind the last one of {N}");
    ensure!(s.first().and_then(|v| v.as_u32()) == Some(0) && s.last().and_then(|v| v.as_u32()) == Some(N as u32 - 1), "first and last of {N}");
    ensure!(s.iter().enumerate().all(|(i, v)| v.as_u32() == Some(i as u32)), "iteration over {N} items");
    let doc = map()?;
    let m = doc.as_ref().as_mapping().ok_or("a mapping")?;
    ensure!(m.len() == N && m.iter().len() == N && m.iter().count() == N, "{N} entries: len {}, iter().len() {}", m.len(), m.iter().len());
    for &i in AT {
        let want = Some(i as u32);
        let all = [
            m.get(&format!("k{i}")).and_then(|v| v.as_u32()),
            m.iter().nth(i).and_then(|(_, v)| v.as_u32()),
            m.iter().nth_back(N - 1 - i).and_then(|(_, v)| v.as_u32()),
            m.iter().rev().nth(N - 1 - i).and_then(|(_, v)| v.as_u32()),
        ];
        ensure!(all.iter().all(|v| *v == want), "entry {i} of {N}: {all:?}");
    }
    ensure!(m.get(&format!("k{N}")).is_none(), "there is an entry behind the last one of {N}");
    ensure!(m.iter().enumerate().all(|(i, (k, v))| k == format!("k{i}").as_str() && v.as_u32() == Some(i as u32)), "iteration over {N} entries");
    Ok(())
}

/// C15.
pub fn ids() -> Res {
    let mut doc = seq()?;
    let mut ids: Vec<_> = doc.as_ref().as_sequence().ok_or("a sequence")?.iter().map(|v| v.id()).collect();
    let mut want: Vec<u32> = (0..N as u32).collect();
    let other = doc.clone();
    let all = |doc: &Document, ids: &[_], want: &[u32]| -> Res {
        for (id, n) in ids.iter().zip(want) {
            ensure!(doc.value(*id).as_u32() == Some(*n), "id {id} of {n} is {:?}", doc.value(*id).as_u32());
        }
        Ok(())
    };
    all(&doc, &ids, &want)?;
    for &i in AT.iter().rev() {
        ensure!(doc.as_mut().as_sequence_mut().ok_or("a sequence")?.remove(i), "removing {i}");
        ids.remove(i);
        want.remove(i);
    }
    all(&doc, &ids, &want)?;
    for i in 0..100 {
        doc.as_mut().as_sequence_mut().ok_or("a sequence")?.push_u32(N as u32 + i);
        let s = doc.as_ref().as_sequence().ok_or("a sequence")?;
        ids.push(s.last().ok_or("an item")?.id());
        want.push(N as u32 + i);
    }
    all(&doc, &ids, &want)?;
    for (n, i) in AT.iter().map(|i| i - i / 1000).enumerate() {
        doc.value_mut(ids[i]).set_u32(n as u32);
        want[i] = n as u32;
    }
    all(&doc, &ids, &want)?;
    ensure!(bytes_of(&other) == items().as_bytes(), "edits are seen in a clone made before");
    Ok(())
}

/// C06, C07 and C08.
pub fn edits() -> Res {
    let mut doc = seq()?;
    let mut text: Vec<String> = (0..N).map(|i| format!("- {i}\n")).collect();
    for &i in AT.iter().rev() {
        let mut s = doc.as_mut().into_sequence_mut().ok_or("a sequence")?;
        match i % 3 {
            0 if i > 0 => {
                ensure!(s.remove(i), "removing {i}");
                text.remove(i);
            }
            1 => {
                s.get_mut(i).ok_or("an item")?.set_string("x");
                text[i] = "- x\n".into();
            }
            _ => {
                s.get_mut(i).ok_or("an item")?.set_bool(true);
                text[i] = "- true\n".into();
            }
        }
    }
    doc.as_mut().into_sequence_mut().ok_or("a sequence")?.push_u32(7);
    text.push("- 7\n".into());
    let text = text.concat();
    ensure!(doc.to_string() == text && bytes_of(&doc) == text.as_bytes(), "edits of {N} items do not make the text expected");
    let mut doc = map()?;
    let mut text: Vec<String> = (0..N).map(|i| format!("k{i}: {i}\n")).collect();
    for &i in AT.iter().rev() {
        let mut m = doc.as_mut().into_mapping_mut().ok_or("a mapping")?;
        match i % 3 {
            0 if i > 0 => {
                ensure!(m.remove(&format!("k{i}")), "removing {i}");
                text.remove(i);
            }
            1 => {
                m.insert_str(format!("k{i}"), "x");
                text[i] = format!("k{i}: x\n");
            }
            _ => {
                m.get_mut(&format!("k{i}")).ok_or("an entry")?.set_bool(true);
                text[i] = format!("k{i}: true\n");
            }
        }
    }
    doc.as_mut().into_mapping_mut().ok_or("a mapping")?.insert_u32("last", 7);
    text.push("last: 7\n".into());
    let text = text.concat();
    ensure!(doc.to_string() == text && bytes_of(&doc) == text.as_bytes(), "edits of {N} entries do not make the text expected");
    Ok(())
}

/// C17.
pub fn serialize() -> Res {
    let doc = seq()?;
    let json = serde_json::to_string(&doc.as_ref()).map_err(|e| e.to_string())?;
    let want = serde_json::to_string(&(0..N).collect::<Vec<_>>()).map_err(|e| e.to_string())?;
    ensure!(json == want, "{N} items are not serialized as they are");
    let doc = map()?;
    let json = serde_json::to_string(&doc.as_ref()).map_err(|e| e.to_string())?;
    let want = format!("{{{}}}", (0..N).map(|i| format!("\"k{i}\":{i}")).collect::<Vec<_>>().join(","));
    ensure!(json == want, "{N} entries are not serialized as they are");
    Ok(())
}

/// C18.
pub fn deserialize() -> Res {
    let doc = seq()?;
    let got = Vec::<u32>::deserialize(doc.as_ref()).map_err(|e| e.to_string())?;
    ensure!(got == (0..N as u32).collect::<Vec<_>>(), "{N} items are not deserialized as they are");
    let doc = map()?;
    let got = std::collections::BTreeMap::<&str, usize>::deserialize(doc.as_ref()).map_err(|e| e.to_string())?;
    ensure!(got.len() == N && got.iter().all(|(k, v)| *k == format!("k{v}")), "{N} entries are not deserialized as they are");
    Ok(())
}

/// C19.
pub fn snapshot() -> Res {
    for (doc, text) in [(seq()?, items()), (map()?, entries())] {
        let s = serde_json::to_string(&doc).map_err(|e| e.to_string())?;
        let json: Document = serde_json::from_str(&s).map_err(|e| e.to_string())?;
        let mut s = Vec::new();
        ciborium::into_writer(&doc, &mut s).map_err(|e| e.to_string())?;
        let cbor: Document = ciborium::from_reader(&s[..]).map_err(|e| e.to_string())?;
        ensure!(json.to_string() == text && cbor.to_string() == text, "a snapshot of {N} entries does not restore the document");
    }
    Ok(())
}
