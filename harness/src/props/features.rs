//! C21: the library built with other sets of features.

use crate::behave::behave;
use crate::engine::*;
use crate::ensure;
use std::cell::RefCell;
use std::io::{Read, Write};
use std::process::{Child, Command, Stdio};

pub struct C21;

/// Besides all of them, which the harness itself is built with.
const SETS: &[&str] = &["none", "serde", "serde-edits"];

thread_local! {
    static OTHERS: RefCell<Vec<Option<Child>>> = const { RefCell::new(Vec::new()) };
}

fn start(set: &str) -> Result<Child, String> {
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let path = format!("{dir}/target/feat-{set}/release/featdump");
    Command::new(&path).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| format!("{HARNESS_BUG}{path}: {e}"))
}

fn send(c: &mut Child, choices: &[u32]) -> std::io::Result<()> {
    let i = c.stdin.as_mut().ok_or(std::io::ErrorKind::BrokenPipe)?;
    let mut b = Vec::with_capacity(choices.len() * 4 + 4);
    b.extend((choices.len() as u32).to_le_bytes());
    b.extend(choices.iter().flat_map(|c| c.to_le_bytes()));
    i.write_all(&b)?;
    i.flush()
}

fn receive(c: &mut Child) -> std::io::Result<String> {
    let o = c.stdout.as_mut().ok_or(std::io::ErrorKind::BrokenPipe)?;
    let mut n = [0; 4];
    o.read_exact(&mut n)?;
    let mut b = vec![0; u32::from_le_bytes(n) as usize];
    o.read_exact(&mut b)?;
    Ok(String::from_utf8_lossy(&b).into_owned())
}

/// What all the others see. They work at the same time.
fn ask(choices: &[u32]) -> Result<Vec<String>, String> {
    OTHERS.with(|o| {
        let mut o = o.borrow_mut();
        o.resize_with(SETS.len(), || None);
        let mut sent = Vec::new();
        for (c, set) in o.iter_mut().zip(SETS) {
            if c.is_none() {
                *c = Some(start(set)?);
            }
            sent.push(c.as_mut().is_some_and(|c| send(c, choices).is_ok()));
        }
        let mut answers = Vec::new();
        for (c, sent) in o.iter_mut().zip(sent) {
            let answer = c.as_mut().filter(|_| sent).and_then(|c| receive(c).ok());
            answers.push(match answer {
                Some(a) => a,
                None => {
                    let end = c.take().map(|mut c| c.kill().and_then(|()| c.wait()));
                    format!("the process ends: {end:?}")
                }
            });
        }
        Ok(answers)
    })
}

impl Prop for C21 {
    fn id(&self) -> &'static str {
        "C21"
    }
    fn rule(&self) -> &'static str {
        "documents rendered from random trees (standard, loose) and other inputs (token soup, mutations, repetitions), parsed, read through every accessor and written, and up to 5 random edits, each followed by the same, by one program built with no optional feature, with serde, with serde-edits and with both; everything the four have seen (errors with ranges, ids, data, numbers of every width, bytes) must be the same text. Non-trivial: the document is accepted and has at least 2 values; distinct by what was seen."
    }
    fn cases(&self) -> (u64, u64) {
        (60_000, 3_000_000)
    }
    fn run(&self, src: &mut Src, ctx: &mut Ctx) -> Res {
        let mut here = String::new();
        let r = guarded(|| {
            behave(src, &mut here);
            Ok(())
        });
        if let Err(e) = r {
            if e.starts_with(HARNESS_BUG) {
                return Err(e);
            }
            here.push_str("panic");
        }
        ctx.id(here.as_bytes());
        ctx.describe(|| here.clone());
        ctx.nontrivial = here.contains("\nmap ") || here.matches('\n').count() > 5;
        ctx.label(if here.contains("\nrefused ") { "refused" } else { "accepted" });
        if here.contains("\nedit ") {
            ctx.label("edited");
        }
        for (there, set) in ask(&src.rec)?.into_iter().zip(SETS) {
            if there != here {
                let (a, b): (Vec<_>, Vec<_>) = (here.lines().collect(), there.lines().collect());
                let at = (0..a.len().max(b.len())).find(|i| a.get(*i) != b.get(*i)).unwrap_or(0);
                ensure!(false, "with all features {:?}, with the features {set:?} {:?}", a.get(at), b.get(at));
            }
        }
        Ok(())
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the default feature, which is the YAML support itself, is always on", "features are compared in one build profile"]
    }
}
