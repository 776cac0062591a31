pub mod common;
pub mod de;
pub mod edits;
pub mod faults;
pub mod features;
pub mod histories;
mod large;
pub mod outputs;
pub mod parse;
pub mod scalars;
pub mod serde;
pub mod snapshot;
pub mod splice;
pub mod views;

use crate::engine::*;
use crate::gen;
use crate::reference::*;

pub fn all() -> Vec<&'static dyn Prop> {
    vec![
        &parse::C01,
        &parse::C02,
        &edits::C03,
        &parse::C04,
        &parse::C05,
        &splice::C06,
        &splice::C07,
        &edits::C08,
        &edits::C09,
        &splice::C10,
        &scalars::C11,
        &scalars::C12,
        &scalars::C13,
        &faults::C14,
        &edits::C15,
        &views::C16,
        &serde::C17,
        &de::C18,
        &snapshot::C19,
        &outputs::C20,
        &features::C21,
    ]
}

pub fn level(id: &str) -> &'static str {
    match id {
        "C20" => "fault_enumeration",
        _ => "exploration",
    }
}

/// Generator self-check: libyaml must read every standard document as its tree.
pub fn gencheck(a: &[String]) {
    let n: u64 = a.first().and_then(|s| s.parse().ok()).unwrap_or(10000);
    let seed: u64 = a.get(1).and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut bad = 0;
    let mut labels = std::collections::BTreeMap::new();
    let mut nodes = 0;
    let mut bytes = 0;
    for i in 0..n {
        let cfg = gen::Cfg::spec();
        let mut src = Src::random(case_seed(seed, "gencheck", i));
        let d = gen::doc(&mut src, &cfg);
        nodes += d.tree.count();
        bytes += d.text.len();
        for l in &d.labels {
            *labels.entry(*l).or_insert(0u64) += 1;
        }
        let r = libyaml(&d.text);
        let problem = match &r {
            Ok(t) => diff(&d.tree, t),
            Err(e) => Some(e.clone()),
        };
        if let Some(m) = problem {
            bad += 1;
            let mut fails = |c: &[u32]| {
                let mut src = Src::replay(c.to_vec());
                let d = gen::doc(&mut src, &cfg);
                match libyaml(&d.text) {
                    Ok(t) if diff(&d.tree, &t).is_none() => None,
                    _ => Some(src.rec),
                }
            };
            let c = shrink_seq(src.rec, 3000, &mut fails);
            let mut src = Src::replay(c);
            let d = gen::doc(&mut src, &cfg);
            println!("case {i}: {m}\n  shrunk: {}\n  tree {:?}\n  libyaml {:?}", show(&d.text), d.tree, libyaml(&d.text));
            if bad > 12 {
                break;
            }
        }
    }
    println!("{n} docs, {bad} bad, avg nodes {:.1} bytes {:.1}", nodes as f64 / n as f64, bytes as f64 / n as f64);
    println!("{labels:?}");
}

pub fn dump(a: &[String]) {
    let n: u64 = a.first().and_then(|s| s.parse().ok()).unwrap_or(5);
    for i in 0..n {
        let cfg = if a.len() > 1 { gen::Cfg::loose() } else { gen::Cfg::spec() };
        let mut src = Src::random(case_seed(7, "dump", i));
        let d = gen::doc(&mut src, &cfg);
        println!("=== {i} {:?}\n{}\n--- {:?}", d.labels, bstr::BStr::new(&d.text), d.tree);
    }
}
