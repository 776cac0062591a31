//! C20: outputs which fail or take a few bytes at a time.

use super::common::*;
use super::edits::{edit_cfg, step, State};
use crate::edit;
use crate::engine::*;
use crate::ensure;
use crate::gen;
use crate::reference::*;
use nondestructive::yaml::Document;
use std::fmt::Write as _;
use std::io::{self, ErrorKind};

pub struct C20;

/// The error an output fails with.
#[derive(Debug, PartialEq)]
struct Full(usize);
impl std::fmt::Display for Full {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "output failed at {}", self.0)
    }
}
impl std::error::Error for Full {}

#[derive(Clone, Copy, Debug)]
enum Fault {
    /// Fails once this many bytes were taken.
    Byte(usize),
    /// Fails at this call.
    Call(usize),
    /// Takes no more bytes than this, without an error.
    Zero(usize),
    /// Panics once this many bytes were taken.
    Panic(usize),
    None,
}

/// An output with one fault, which takes `chunks` of bytes at a time, in
/// turn; 0 stands for an interruption.
struct Output<'a> {
    got: Vec<u8>,
    calls: usize,
    turn: usize,
    chunks: &'a [usize],
    fault: Fault,
    kind: ErrorKind,
    failed: bool,
    /// It would take more after the failure.
    recovers: bool,
}

impl Output<'_> {
    fn take(&mut self, b: &[u8]) -> io::Result<usize> {
        let call = self.calls;
        self.calls += 1;
        if b.is_empty() {
            return Ok(0);
        }
        if self.failed && !self.recovers {
            return Err(io::Error::new(self.kind, Full(self.got.len())));
        }
        let mut n = b.len();
        if !self.chunks.is_empty() {
            let c = self.chunks[self.turn % self.chunks.len()];
            self.turn += 1;
            if c == 0 {
                return Err(ErrorKind::Interrupted.into());
            }
            n = n.min(c);
        }
        if !self.failed {
            match self.fault {
                Fault::Byte(at) if self.got.len() >= at => {
                    self.failed = true;
                    return Err(io::Error::new(self.kind, Full(at)));
                }
                Fault::Zero(at) if self.got.len() >= at => {
                    self.failed = true;
                    return Ok(0);
                }
                Fault::Call(at) if call >= at => {
                    self.failed = true;
                    return Err(io::Error::new(self.kind, Full(at)));
                }
                Fault::Panic(at) if self.got.len() >= at => {
                    self.failed = true;
                    panic!("the output panics");
                }
                Fault::Byte(at) | Fault::Zero(at) | Fault::Panic(at) => n = n.min(at - self.got.len()),
                _ => {}
            }
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
}

impl io::Write for Output<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.take(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn attempt(doc: &Document, full: &[u8], fault: Fault, chunks: &[usize], kind: ErrorKind, recovers: bool) -> Res {
    let mut out = Output { got: Vec::new(), calls: 0, turn: 0, chunks, fault, kind, failed: false, recovers };
    let r = doc.write_to(&mut out);
    let what = || format!("writing with {fault:?}, at most {chunks:?} bytes at a time");
    ensure!(full.starts_with(&out.got), "{}: the output has {}, which is not the start of {}", what(), show(&out.got), show(full));
    match r {
        Ok(()) => {
            ensure!(!out.failed, "{}: the failure is not reported", what());
            ensure!(out.got == full, "{}: the output has {} of {}", what(), show(&out.got), show(full));
        }
        Err(e) => {
            ensure!(out.failed, "{}: {e} is reported", what());
            match fault {
                Fault::Zero(_) => ensure!(e.kind() == ErrorKind::WriteZero, "{}: {e:?} is reported", what()),
                Fault::Byte(at) | Fault::Call(at) => {
                    let inner = e.get_ref().and_then(|e| e.downcast_ref::<Full>());
                    ensure!(e.kind() == kind && inner == Some(&Full(at)), "{}: {e:?} is reported", what());
                }
                Fault::None | Fault::Panic(_) => {}
            }
        }
    }
    Ok(())
}

fn panicking(doc: &Document, full: &[u8], at: usize, chunks: &[usize]) -> Res {
    let mut out = Output { got: Vec::new(), calls: 0, turn: 0, chunks, fault: Fault::Panic(at), kind: ErrorKind::Other, failed: false, recovers: false };
    let mut r = None;
    let ran = survives(|| r = Some(doc.write_to(&mut out)));
    ensure!(full.starts_with(&out.got), "writing with a panic at {at}: the output has {}, which is not the start of {}", show(&out.got), show(full));
    ensure!(ran != out.failed, "writing with a panic at {at}: no panic comes out");
    ensure!(out.failed || matches!(r, Some(Ok(()))) && out.got == full, "writing gives {r:?}, the output has {} of {}", show(&out.got), show(full));
    Ok(())
}

/// A line which panics when it is asked for.
struct Line(String, bool);

impl AsRef<str> for Line {
    fn as_ref(&self) -> &str {
        assert!(!self.1, "the line panics");
        &self.0
    }
}

/// Lines which panic at `at`, as a whole or when they are looked at.
fn lines(parts: &[String], at: usize, late: bool) -> impl Iterator<Item = Line> + '_ {
    (0..=parts.len()).map_while(move |i| {
        assert!(i != at || late, "the lines panic");
        // one which is there to panic
        let text = parts.get(i).cloned().unwrap_or_default();
        (i < parts.len() || i == at).then(|| Line(text, i == at))
    })
}

/// A block is set, inserted or pushed somewhere, and its lines panic.
fn broken_block(src: &mut Src, ctx: &mut Ctx, s: &mut State, full: &[u8]) -> Res {
    let parts = edit::block_parts(src);
    let at = src.range(0, parts.len());
    let (late, folded, chomp) = (src.chance(1, 2), src.chance(1, 2), src.below(3) as u8);
    let all = edit::paths(&s.model, |_| true);
    let path = src.pick(&all).clone();
    let n = s.model.at(&path);
    let key = match n {
        Node::Map(e) if !e.is_empty() && src.chance(1, 2) => e[src.range(0, e.len() - 1)].0.clone(),
        _ => gen::text(src).into_bytes(),
    };
    let how = if n.is_coll() && src.chance(3, 4) { u8::from(matches!(n, Node::Map(_))) } else { 2 };
    ctx.describe(|| format!("a block of {parts:?} (folded: {folded}, {chomp}) at {path:?} which panics at {at}, late: {late}, how: {how}, key {}", show(&key)));
    let id = edit::id_at(&s.doc, &path)?;
    let mut v = s.doc.value_mut(id);
    let ran = survives(|| {
        let it = lines(&parts, at, late);
        let b = edit::block(folded, chomp);
        match how {
            0 => v.into_sequence_mut().expect("a sequence").push_block(it, b),
            1 => v.into_mapping_mut().expect("a mapping").insert_block(&key, it, b),
            _ => v.set_block(it, b),
        }
    });
    ensure!(!ran, "the lines of a block panic, and nothing comes out");
    let again = bytes_of(&s.doc);
    ensure!(again == full, "after a block which panics the document writes {}, it wrote {}", show(&again), show(full));
    eq_tree("after a block which panics", &s.model, &read_doc(&s.doc))
}

/// Text output which fails after some bytes.
struct Text {
    got: String,
    left: usize,
    failed: bool,
}

impl std::fmt::Write for Text {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for c in s.chars() {
            if self.left < c.len_utf8() {
                self.failed = true;
                self.left = 0;
                return Err(std::fmt::Error);
            }
            self.left -= c.len_utf8();
            self.got.push(c);
        }
        Ok(())
    }
}

fn text(what: &dyn std::fmt::Display, at: usize) -> Res {
    let full = what.to_string();
    let mut out = Text { got: String::new(), left: at, failed: false };
    let r = write!(out, "{what}");
    ensure!(r.is_err() == out.failed, "text output failing at {at}: {r:?}");
    ensure!(full.starts_with(&out.got), "text output failing at {at}: it has {:?} of {full:?}", out.got);
    ensure!(out.failed || out.got == full, "text output has {:?} of {full:?}", out.got);
    Ok(())
}

const KINDS: &[ErrorKind] = &[ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::WouldBlock, ErrorKind::PermissionDenied, ErrorKind::UnexpectedEof, ErrorKind::WriteZero, ErrorKind::TimedOut, ErrorKind::InvalidData];

impl Prop for C20 {
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> &'static str {
        "documents rendered from random trees (standard, loose, byte-mutated), after up to 4 random edits, written to outputs which fail at every byte and at every call in turn, with an error of their own or by taking nothing, which stay broken or recover, and which take 1 to 7 bytes at a time with interruptions in between; the error must be the one the output gave, what it has must be the start of the full text, and all of it if it did not fail. Text output of the document and of its values likewise. Some outputs panic, as do lines handed to `set_block`, `insert_block` and `push_block`, and nothing of the document may change. After all failures the document must write the same bytes and react to an edit like a copy which was never written. Non-trivial: at least 8 failure points; distinct by document and edits."
    }
    fn cases(&self) -> (u64, u64) {
        (60_000, 2_000_000)
    }
    fn run(&self, src: &mut Src, ctx: &mut Ctx) -> Res {
        let cfg = edit_cfg(src.chance(1, 2));
        let text_in = if src.chance(1, 6) { crate::bytes::any_input(src, 30).0 } else { gen::doc(src, &cfg).text };
        ctx.describe(|| format!("document {}", show(&text_in)));
        ctx.id(&text_in);
        let Ok(doc) = parse(&text_in) else { return Ok(()) };
        let model = read_doc(&doc);
        let mut s = State::new(doc, model);
        for _ in 0..src.below(5) {
            let op = step(src, ctx, &mut s)?;
            ctx.id(format!("{op:?}").as_bytes());
        }
        let mut copy = s.doc.clone();
        let full = bytes_of(&s.doc);
        // everywhere, unless it is very long
        let step_by = 1 + full.len() / 400;
        let kind = *src.pick(KINDS);
        let recovers = src.chance(1, 2);
        let mut pattern: Vec<usize> = (0..src.range(1, 4)).map(|_| src.below(8) as usize).collect();
        pattern.push(1 + src.below(3) as usize);
        ctx.describe(|| format!("outputs failing with {kind:?}, recovering: {recovers}, pattern {pattern:?}"));
        attempt(&s.doc, &full, Fault::None, &[], kind, recovers)?;
        attempt(&s.doc, &full, Fault::None, &pattern, kind, recovers)?;
        attempt(&s.doc, &full, Fault::None, &[1], kind, recovers)?;
        let mut points = 0;
        for at in (0..=full.len()).step_by(step_by) {
            attempt(&s.doc, &full, Fault::Byte(at), &[], kind, recovers)?;
            attempt(&s.doc, &full, Fault::Byte(at), &pattern, kind, recovers)?;
            attempt(&s.doc, &full, Fault::Zero(at), &[], kind, recovers)?;
            attempt(&s.doc, &full, Fault::Call(at), &[], kind, recovers)?;
            points += 4;
        }
        // panics of the caller
        for _ in 0..src.below(3) {
            let at = src.range(0, full.len());
            panicking(&s.doc, &full, at, if src.chance(1, 2) { &pattern } else { &[] })?;
        }
        if src.chance(1, 3) {
            broken_block(src, ctx, &mut s, &full)?;
        }
        let all = s.doc.to_string();
        for at in (0..=all.len()).step_by(1 + all.len() / 100) {
            text(&s.doc, at)?;
            points += 1;
        }
        // and of some value
        let mut at = Vec::new();
        let mut n = &s.model;
        while n.is_coll() && !n.is_empty() && src.chance(3, 4) {
            let i = src.range(0, n.len() - 1);
            at.push(i);
            n = n.child(i);
        }
        let v = s.doc.value(edit::id_at(&s.doc, &at)?);
        let len = v.to_string().len();
        for at in (0..=len).step_by(1 + len / 50) {
            text(&v, at)?;
            points += 1;
        }
        ctx.nontrivial = points >= 8;
        // nothing happened to it
        let again = bytes_of(&s.doc);
        ensure!(again == full, "after failures the document writes {}, it wrote {}", show(&again), show(&full));
        eq_tree("after failures", &s.model, &read_doc(&s.doc))?;
        let op = edit::op(src, &s.model);
        ctx.describe(|| format!("then {op:?}"));
        let mut model = s.model.clone();
        edit::apply(&mut s.doc, &mut s.model, &op, true)?;
        edit::apply(&mut copy, &mut model, &op, true)?;
        let (a, b) = (bytes_of(&s.doc), bytes_of(&copy));
        ensure!(a == b, "after failures the edit gives {}, without them {}", show(&a), show(&b));
        Ok(())
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["documents of more than 400 bytes are not failed at every byte"]
    }
}
