//! C06, C07, C10: which bytes an edit touches.

use super::common::*;
use super::edits::{edit_cfg, reads_back, start, step, State};
use crate::edit::{self, Op, Path, Val, Via};
use crate::engine::*;
use crate::ensure;
use crate::gen::{self, Style};
use crate::reference::*;
use nondestructive::yaml::Document;

fn is_ws(b: u8) -> bool {
    matches!(b, b' ' | b'\t' | b'\n' | b'\r')
}

fn trim_end(b: &[u8]) -> &[u8] {
    let n = b.iter().rposition(|b| !is_ws(*b)).map_or(0, |i| i + 1);
    &b[..n]
}

/// Whitespace and comments (and up to `commas` commas).
fn only_trivia(mut b: &[u8], mut commas: usize) -> Option<usize> {
    let mut bol = true;
    while let Some(c) = b.first() {
        match c {
            b'#' if bol => {
                let n = b.iter().position(|b| *b == b'\n').unwrap_or(b.len());
                b = &b[n..];
                continue;
            }
            b',' if commas > 0 => {
                commas -= 1;
                bol = true;
            }
            c if is_ws(*c) => bol = true,
            _ => return None,
        }
        b = &b[1..];
    }
    Some(commas)
}

/// The text of the value at `path` on its own, if it is UTF-8.
fn text_at(doc: &Document, path: &[usize]) -> Result<Option<String>, String> {
    let id = edit::id_at(doc, path)?;
    let s = doc.value(id).to_string();
    Ok((!s.contains('\u{fffd}')).then_some(s))
}

/// The text of a value that was set, which is UTF-8.
fn set_text(doc: &Document, path: &[usize]) -> Result<String, String> {
    Ok(doc.value(edit::id_at(doc, path)?).to_string())
}

fn ws(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\r')
}

/// What a value has to be spelled as, if there is only one way.
fn canonical(v: &Val, in_flow: bool) -> Option<String> {
    match v {
        Val::Null(0) => Some("null".into()),
        Val::Null(1) => Some("~".into()),
        Val::Null(_) => (!in_flow).then(String::new),
        Val::Bool(b) => Some(b.to_string()),
        Val::Num(n) if !n.is_float() => Some(n.text()),
        _ => None,
    }
}

/// One value in place: the bytes in front of it, its text, and whether the
/// spacing in front of it may come and go.
struct Part<'a> {
    gap: &'a [u8],
    text: String,
    slack: bool,
}

/// `out` is the parts in order, then `tail`.
fn matches_parts(out: &[u8], parts: &[Part<'_>], tail: &[u8]) -> bool {
    let Some((p, rest)) = parts.split_first() else { return out == tail };
    if !p.slack {
        return out
            .strip_prefix(p.gap)
            .and_then(|o| o.strip_prefix(p.text.as_bytes()))
            .is_some_and(|o| matches_parts(o, rest, tail));
    }
    let Some(o) = out.strip_prefix(trim_end(p.gap)) else { return false };
    let text = p.text.trim_start_matches(ws).as_bytes();
    let n = o.iter().position(|b| !is_ws(*b)).unwrap_or(o.len());
    (0..=n).any(|i| o[i..].strip_prefix(text).is_some_and(|o| matches_parts(o, rest, tail)))
}

// ------------------------------------------------------------------ C06

pub struct C06;

struct Leaf {
    path: Path,
    span: (usize, usize),
    in_flow: bool,
    empty: bool,
}

/// Scalars of a document with the bytes that are theirs.
fn leaves(doc: &Document, d: &gen::Doc) -> Result<Vec<Leaf>, String> {
    let mut out = Vec::new();
    for path in edit::paths(&d.tree, |n| !n.is_coll()) {
        let a = d.ann.at(&path);
        let mut span = a.span;
        if matches!(a.style, Style::Literal | Style::Folded) {
            let Some(t) = text_at(doc, &path)? else { continue };
            span.1 = span.0 + t.len();
            ensure!(d.text.get(span.0..span.1) == Some(t.as_bytes()), "text of a block scalar is not what the document has: {}", show(t.as_bytes()));
        }
        out.push(Leaf { path, span, in_flow: a.in_flow, empty: a.style == Style::Empty });
    }
    Ok(out)
}

/// Several scalars of a fresh document are set, each one or more times.
fn fresh_sets(src: &mut Src, ctx: &mut Ctx, val: &dyn Fn(&mut Src) -> Val) -> Res {
    let spec = src.chance(1, 2);
    let d = gen::doc(src, &edit_cfg(spec));
    ctx.describe(|| format!("document {}", show(&d.text)));
    ctx.id(&d.text);
    let mut s = start(&d)?;
    let all = leaves(&s.doc, &d)?;
    if all.is_empty() {
        return Ok(());
    }
    let mut chosen: Vec<(usize, bool)> = Vec::new();
    let n = src.range(1, 4);
    for _ in 0..n {
        let i = src.below(all.len() as u32) as usize;
        let v = val(src);
        let by_id = src.chance(1, 2);
        let op = Op::Set(all[i].path.clone(), v.clone());
        ctx.describe(|| format!("edit {op:?}"));
        ctx.id(format!("{op:?}").as_bytes());
        ctx.label(op.name());
        edit::apply(&mut s.doc, &mut s.model, &op, by_id)?;
        ctx.describe(|| format!("  -> {}", show(&bytes_of(&s.doc))));
        let empty = matches!(v, Val::Null(2));
        match chosen.iter_mut().find(|(j, _)| *j == i) {
            Some((_, e)) => *e |= empty,
            None => chosen.push((i, empty || all[i].empty)),
        }
        if let Some(want) = canonical(&v, all[i].in_flow) {
            let got = set_text(&s.doc, &all[i].path)?;
            ensure!(got == want, "{v:?} is written as {got:?}");
        }
        if all[i].in_flow && empty {
            let got = set_text(&s.doc, &all[i].path)?;
            ensure!(got.is_empty() || got == "null" || got == "~", "{v:?} is written as {got:?}");
        }
    }
    chosen.sort_by_key(|(i, _)| all[*i].span);
    let out = bytes_of(&s.doc);
    let root_empty = all.len() == 1 && all[0].path.is_empty() && all[0].empty;
    if root_empty {
        // nothing but comments and spacing: the value goes somewhere behind
        let x = set_text(&s.doc, &all[0].path)?;
        let at = trim_end(&d.text).len();
        let ok = out.strip_prefix(&d.text[..at]).is_some_and(|o| {
            let n = o.iter().position(|b| !is_ws(*b)).unwrap_or(o.len());
            let y = o[n..].strip_prefix(x.trim_matches(ws).as_bytes());
            y.is_some_and(|y| y.iter().all(|b| is_ws(*b)) && n + y.len() <= d.text.len() - at + 1 + x.len() - x.trim_matches(ws).len())
        });
        ensure!(ok, "a value set in an empty document: {} -> {}", show(&d.text), show(&out));
    } else {
        let mut at = 0;
        let mut parts = Vec::new();
        for (i, slack) in &chosen {
            let l = &all[*i];
            parts.push(Part { gap: &d.text[at..l.span.0], text: set_text(&s.doc, &l.path)?, slack: *slack });
            at = l.span.1;
        }
        let texts: Vec<&str> = parts.iter().map(|p| p.text.as_str()).collect();
        ensure!(matches_parts(&out, &parts, &d.text[at..]), "more than the values set ({texts:?}) changed: {} -> {}", show(&d.text), show(&out));
    }
    reads_back(&s.doc, &s.model, spec)?;
    ctx.label(if spec { "standard" } else { "loose" });
    ctx.nontrivial = d.tree.count() >= 2;
    Ok(())
}

const MARK: &str = "ZqMARKqZ";

fn find(hay: &[u8], needle: &[u8]) -> Option<usize> {
    hay.windows(needle.len()).position(|w| w == needle)
}

/// One scalar of a document with a history is set; what is its text is found
/// by setting a marker in a clone.
fn after_history(src: &mut Src, ctx: &mut Ctx, val: &dyn Fn(&mut Src) -> Val) -> Res {
    let spec = src.chance(1, 2);
    let d = gen::doc(src, &edit_cfg(spec));
    ctx.describe(|| format!("document {}", show(&d.text)));
    ctx.id(&d.text);
    let mut s = start(&d)?;
    let n = src.range(0, 4);
    for _ in 0..n {
        let op = step(src, ctx, &mut s)?;
        ctx.id(format!("{op:?}").as_bytes());
    }
    for _ in 0..src.range(1, 2) {
        let coll = src.chance(1, 4);
        let some = edit::paths(&s.model, |n| n.is_coll() == coll);
        if some.is_empty() {
            continue;
        }
        let path = src.pick(&some).clone();
        let make = src.chance(1, 6).then(|| match s.model.at(&path) {
            Node::Map(_) => false,
            Node::Seq(_) => true,
            _ => src.chance(1, 2),
        });
        let before = bytes_of(&s.doc);
        let Some(old) = text_at(&s.doc, &path)? else { return Ok(()) };
        let mut m = s.doc.clone();
        edit::value_mut(&mut m, &path, &s.model, true)?.set_string(MARK);
        let mb = bytes_of(&m);
        let Some(i) = find(&mb, MARK.as_bytes()) else { return Err(format!("a set string is not written: {}", show(&mb))) };
        let (pre, post) = (&mb[..i], &mb[i + MARK.len()..]);
        let v = val(src);
        // through the value itself, or over the entry of its key
        let key = match path.split_last() {
            Some((last, up)) => match s.model.at(up) {
                // keys find the first entry
                Node::Map(e) if e[..*last].iter().any(|(o, _)| *o == e[*last].0) => None,
                Node::Map(e) => std::str::from_utf8(&e[*last].0).ok().map(|k| (up.to_vec(), k.to_string())),
                _ => None,
            },
            None => None,
        };
        let op = match key {
            Some((up, k)) if src.chance(1, 3) => {
                ctx.label("overwrite");
                Op::Insert(up, k.into_bytes(), Via::Typed(v.clone()))
            }
            _ => Op::Set(path.clone(), v.clone()),
        };
        let op = make.map_or(op, |map| Op::Make(path.clone(), map));
        if coll || make.is_some() {
            ctx.label("replace");
        }
        ctx.describe(|| format!("edit {op:?}"));
        ctx.id(format!("{op:?}").as_bytes());
        edit::apply(&mut s.doc, &mut s.model, &op, src.chance(1, 2))?;
        let after = bytes_of(&s.doc);
        ctx.describe(|| format!("  -> {}", show(&after)));
        let x = set_text(&s.doc, &path)?;
        for (what, b, t) in [("before", &before, &old), ("after", &after, &x)] {
            let slack = t.is_empty() || old.is_empty() || path.is_empty() || coll || make.is_some();
            let ok = matches_parts(b, &[Part { gap: pre, text: t.clone(), slack }], post);
            ensure!(ok, "the document {what} the edit is not the same around the value at {path:?} ({t:?}): {} and {}", show(&mb), show(b));
        }
    }
    reads_back(&s.doc, &s.model, spec)?;
    ctx.label("history");
    ctx.nontrivial = s.model.count() >= 2;
    Ok(())
}

/// A value of a fresh document becomes a collection, or a collection becomes
/// a scalar or the other kind of collection.
fn fresh_replace(src: &mut Src, ctx: &mut Ctx) -> Res {
    let spec = src.chance(1, 2);
    let d = gen::doc(src, &edit_cfg(spec));
    ctx.describe(|| format!("document {}", show(&d.text)));
    ctx.id(&d.text);
    let mut s = start(&d)?;
    let colls = edit::paths(&d.tree, Node::is_coll);
    let op = if !colls.is_empty() && src.chance(1, 2) {
        Op::Set(src.pick(&colls).clone(), edit::val(src))
    } else {
        let all = edit::paths(&d.tree, |_| true);
        let p = src.pick(&all).clone();
        let map = match d.tree.at(&p) {
            Node::Map(_) => false,
            Node::Seq(_) => true,
            _ => src.chance(1, 2),
        };
        Op::Make(p, map)
    };
    let path = op.path().clone();
    ctx.describe(|| format!("edit {op:?}"));
    ctx.id(format!("{op:?}").as_bytes());
    ctx.label(op.name());
    ctx.label("replace");
    let a = d.ann.at(&path);
    let Some(end) = end_of(&s.doc, &d, &path)? else { return Ok(()) };
    edit::apply(&mut s.doc, &mut s.model, &op, src.chance(1, 2))?;
    let out = bytes_of(&s.doc);
    ctx.describe(|| format!("  -> {}", show(&out)));
    let x = set_text(&s.doc, &path)?;
    let (pre, post) = (&d.text[..a.span.0], &d.text[end..]);
    let ok = matches_parts(&out, &[Part { gap: pre, text: x.clone(), slack: true }], post);
    ensure!(ok, "more than the value replaced ({x:?}) changed: {} -> {}", show(&d.text), show(&out));
    reads_back(&s.doc, &s.model, spec)?;
    ctx.nontrivial = d.tree.count() >= 2;
    Ok(())
}

impl Prop for C06 {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn rule(&self) -> &'static str {
        "either up to 4 sets of scalars of a document rendered from a random tree (standard or loose layout), the renderer knowing which bytes belong to which value; or up to 2 sets after a history of up to 4 random edits, the place of the value being found by setting a marker in a clone; or a collection is set to a scalar, or any value made a (different) collection. All bytes outside the texts of the values set must be the ones from before, the texts canonical, and the result must read back as the values set. When the old or new value is a collection or written as nothing, spacing in front of it may come or go. Non-trivial: the document has at least 2 values; distinct by document and edits."
    }
    fn cases(&self) -> (u64, u64) {
        (900_000, 10_000_000)
    }
    fn run(&self, src: &mut Src, ctx: &mut Ctx) -> Res {
        if src.chance(1, 4) {
            fresh_replace(src, ctx)
        } else if src.chance(1, 3) {
            after_history(src, ctx, &edit::val)
        } else {
            fresh_sets(src, ctx, &edit::val)
        }
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["a value written as nothing gets or loses the spacing in front of it", "the text of a block scalar includes the empty lines it keeps"]
    }
}

// ------------------------------------------------------------------ C07

pub struct C07;

/// Where `short` is `long` with one piece of `long` taken out: first and last
/// possible start of the piece.
fn piece(short: &[u8], long: &[u8]) -> Option<(usize, usize)> {
    if long.len() < short.len() {
        return None;
    }
    let l = short.iter().zip(long).take_while(|(a, b)| a == b).count();
    let r = short.iter().rev().zip(long.iter().rev()).take_while(|(a, b)| a == b).count();
    let lo = short.len() - r.min(short.len());
    (lo <= l).then_some((lo, l))
}

/// End of the text of an entry.
fn end_of(doc: &Document, d: &gen::Doc, path: &[usize]) -> Result<Option<usize>, String> {
    let a = d.ann.at(path);
    match a.style {
        Style::Literal | Style::Folded => Ok(text_at(doc, path)?.map(|t| a.span.0 + t.len())),
        Style::Block => match a.kids.len() {
            0 => Ok(Some(a.span.1)),
            n => {
                let mut p = path.to_vec();
                p.push(n - 1);
                end_of(doc, d, &p)
            }
        },
        _ => Ok(Some(a.span.1)),
    }
}

struct Around {
    /// Text of the entries addressed (removal), or where the last entry ends
    /// (insertion).
    from: usize,
    to: usize,
    /// What may be taken out behind them.
    behind: Behind,
}

#[derive(Clone, Copy)]
enum Behind {
    /// Anything that is not data.
    Trivia,
    /// What would become a part of the block scalar in front, which is not a
    /// comment on a line of its own with less than this indentation.
    Block(usize),
    /// Nothing.
    Nothing,
}

impl Behind {
    /// `full` is all there is up to the next entry's line.
    fn allows(self, text: &[u8], full: &[u8]) -> bool {
        match self {
            Behind::Trivia => true,
            Behind::Nothing => text.is_empty(),
            // NB: it depends on the lines after it, with deeper ones everything goes.
            Behind::Block(n) => {
                let mut lines = full.split(|b| *b == b'\n').skip(1);
                let indented = |l: &[u8]| l.iter().position(|b| *b != b' ').filter(|i| *i < n && l[*i] == b'#').is_some();
                let blank = |l: &[u8]| matches!(l, b"" | b"\r");
                !lines.all(|l| indented(l) || blank(l)) || !text.split(|b| *b == b'\n').skip(1).any(indented)
            }
        }
    }
}

/// The style of what the text of an entry ends with.
fn last_of(d: &gen::Doc, path: &[usize]) -> Style {
    let mut a = d.ann.at(path);
    while a.style == Style::Block && !a.kids.is_empty() {
        a = &a.kids.last().unwrap().val;
    }
    a.style
}

/// The lines of comments and nothing that the text starts with.
fn lines_of_trivia(text: &[u8]) -> &[u8] {
    let mut end = 0;
    while let Some(n) = text[end..].iter().position(|b| *b == b'\n') {
        if only_trivia(&text[..end + n], 0).is_none() {
            break;
        }
        end += n + 1;
    }
    if only_trivia(&text[end..], 0).is_some() {
        return text;
    }
    text[..end].strip_suffix(b"\n").unwrap_or_default()
}

/// A piece of text is one entry and its punctuation, and nothing else.
fn one_entry(piece: &[u8], value: &str, key: Option<&[u8]>, sep: Option<usize>) -> bool {
    let s = trim(piece);
    // at most one comma, on either side
    let forms = [s, s.strip_prefix(b",").unwrap_or(s), s.strip_suffix(b",").unwrap_or(s)];
    forms.iter().any(|s| {
        let Some(head) = trim(s).strip_suffix(value.as_bytes()) else { return false };
        // the separator is there as it was given
        let spaces = head.iter().rev().take_while(|b| **b == b' ').count();
        let punctuated = head[..head.len() - spaces].ends_with(if key.is_some() { b":" } else { b"-" });
        if sep.is_some_and(|n| if punctuated { spaces != n } else { head.len() - spaces > 0 }) {
            return false;
        }
        let head = trim(head);
        let Some(k) = key else { return head.is_empty() || head == b"-" };
        let Some(head) = head.strip_suffix(b":") else { return false };
        match parse(head) {
            Ok(d) => scalar_text(&d).is_some_and(|t| t == k),
            Err(_) => false,
        }
    })
}

fn trim(s: &[u8]) -> &[u8] {
    let w = |b: &u8| ws(char::from(*b));
    let from = s.iter().position(|b| !w(b)).unwrap_or(s.len());
    let to = s.iter().rposition(|b| !w(b)).map_or(from, |i| i + 1);
    &s[from..to]
}

/// The text of a document of one scalar and nothing else.
fn scalar_text(d: &Document) -> Option<Vec<u8>> {
    if String::from_utf8_lossy(&bytes_of(d)) != d.as_ref().to_string() {
        return None;
    }
    Some(match read_doc(d) {
        Node::Str(s) => s,
        Node::Null | Node::Bool(_) | Node::Num(_) => bytes_of(d),
        _ => return None,
    })
}

fn add_checked(b0: &[u8], b1: &[u8], value: &str, key: Option<&[u8]>, sep: Option<usize>, place: Option<Around>) -> Res {
    let Some((lo, hi)) = piece(b0, b1) else {
        return Err(format!("adding an entry changed other text: {} -> {}", show(b0), show(b1)));
    };
    let n = b1.len() - b0.len();
    let ok = (lo..=hi).any(|p| {
        let piece = &b1[p..p + n];
        let holds = one_entry(piece, value.trim_matches(ws), key, sep);
        let here = place.as_ref().is_none_or(|a| p >= a.from && p <= a.to && only_trivia(&b0[a.from..p], 1).is_some());
        holds && here
    });
    ensure!(ok, "the text added is not the entry ({value:?}) behind the last one: {} -> {}", show(b0), show(b1));
    Ok(())
}

/// How many lines end with a newline that no carriage return is in front of.
fn lone_newlines(s: &[u8]) -> usize {
    (0..s.len()).filter(|i| s[*i] == b'\n' && (*i == 0 || s[*i - 1] != b'\r')).count()
}

fn take_checked(b0: &[u8], b1: &[u8], value: Option<&str>, place: Option<Around>) -> Res {
    let Some((lo, hi)) = piece(b1, b0) else {
        return Err(format!("removing changed other text: {} -> {}", show(b0), show(b1)));
    };
    ensure!(lone_newlines(b1) <= lone_newlines(b0), "removing broke the end of a line: {} -> {}", show(b0), show(b1));
    let n = b0.len() - b1.len();
    let t = value.unwrap_or("").trim_matches(ws).as_bytes();
    let ok = (lo..=hi).any(|p| {
        let e = p + n;
        let holds = t.is_empty() || find(&b0[p..e], t).is_some();
        let here = place.as_ref().is_none_or(|a| {
            p <= a.from && e >= a.to && only_trivia(&b0[p..a.from], 1).is_some_and(|c| only_trivia(&b0[a.to..e], c).is_some()) && a.behind.allows(&b0[a.to..e], lines_of_trivia(&b0[a.to..]))
        });
        holds && here
    });
    ensure!(ok, "the text removed is not the entry with what is next to it: {} -> {}", show(b0), show(b1));
    Ok(())
}

fn key_of(op: &Op) -> Option<&[u8]> {
    match op {
        Op::Insert(_, k, _) => Some(k),
        _ => None,
    }
}

/// One insert, push, remove or clear, with its effect on the bytes.
fn splice_step(src: &mut Src, ctx: &mut Ctx, s: &mut State, d: Option<&gen::Doc>) -> Result<Option<Op>, String> {
    let mut op = s.op(src);
    for _ in 0..6 {
        if !matches!(op, Op::Set(..) | Op::Make(..)) {
            break;
        }
        op = s.op(src);
    }
    if matches!(op, Op::Set(..) | Op::Make(..)) {
        return Ok(None);
    }
    let by_id = src.chance(1, 2);
    ctx.describe(|| format!("edit {op:?}"));
    ctx.id(format!("{op:?}").as_bytes());
    let r = spliced(s, &op, by_id, d, &mut |l| ctx.label(l));
    ctx.describe(|| format!("  -> {}", show(&bytes_of(&s.doc))));
    r.map(|()| Some(op))
}

/// Apply an edit, and if it adds or removes, look at its effect on the bytes.
fn spliced(s: &mut State, op: &Op, by_id: bool, d: Option<&gen::Doc>, label: &mut dyn FnMut(&'static str)) -> Res {
    let before = bytes_of(&s.doc);
    let path = op.path().clone();
    let n = s.model.at(&path).len();
    // the text of what is going to be removed
    let gone = match op {
        Op::RemoveKey(_, k) => match s.model.at(&path) {
            Node::Map(e) => e.iter().position(|(o, _)| o == k.as_bytes()).map(|i| (i, i)),
            _ => None,
        },
        Op::RemoveAt(_, i) => (*i < n).then_some((*i, *i)),
        Op::Clear(_) => (n > 0).then(|| (0, n - 1)),
        _ => None,
    };
    let mut place = None;
    let mut old_text = None;
    if let Some((i, j)) = gone {
        let kid = |i: usize| {
            let mut p = path.clone();
            p.push(i);
            p
        };
        if i == j {
            old_text = text_at(&s.doc, &kid(i))?;
        }
        if let Some(d) = d {
            if let Some(to) = end_of(&s.doc, d, &kid(j))? {
                let from = d.ann.at(&path).kids[i].start;
                let behind = match i.checked_sub(1) {
                    Some(i) if d.ann.at(&path).style == Style::Block => match last_of(d, &kid(i)) {
                        Style::Literal | Style::Folded => Behind::Block(d.ann.at(&path).col + 1),
                        _ => Behind::Nothing,
                    },
                    _ => Behind::Trivia,
                };
                place = Some(Around { from, to, behind });
            }
        }
    }
    let overwrites = match (op, s.model.at(&path)) {
        (Op::Insert(_, k, _), Node::Map(e)) => e.iter().any(|(o, _)| o == k),
        _ => false,
    };
    if matches!(op, Op::Insert(..) | Op::Push(..)) {
        if let Some(d) = d {
            let a = d.ann.at(&path);
            let from = if n == 0 {
                // an empty collection here is an inline one
                Some(a.span.0 + 1)
            } else {
                let mut p = path.clone();
                p.push(n - 1);
                end_of(&s.doc, d, &p)?
            };
            if let Some(from) = from {
                place = Some(Around { from, to: before.len(), behind: Behind::Trivia });
            }
        }
    }
    edit::apply(&mut s.doc, &mut s.model, op, by_id)?;
    let after = bytes_of(&s.doc);
    match op {
        Op::Set(..) | Op::Make(..) => {}
        Op::Insert(..) | Op::Push(..) if !overwrites => {
            label(op.name());
            let mut p = path.clone();
            p.push(n);
            let t = set_text(&s.doc, &p)?;
            let sep = match op {
                Op::Insert(.., Via::Set(n, _)) | Op::Push(_, Via::Set(n, _)) if *n > 0 && !t.trim_matches(ws).is_empty() => {
                    label("separator");
                    Some(usize::from(*n))
                }
                _ => None,
            };
            add_checked(&before, &after, &t, key_of(op), sep, place)?;
        }
        Op::Insert(..) => label("overwrite"),
        _ => match gone {
            None => {
                label("nothing-to-remove");
                ensure!(before == after, "removing nothing changed the document: {} -> {}", show(&before), show(&after));
            }
            Some((i, j)) => {
                label(op.name());
                label(if i == 0 && j + 1 == n {
                    "remove-all"
                } else if i == 0 {
                    "remove-first"
                } else if j + 1 == n {
                    "remove-last"
                } else {
                    "remove-middle"
                });
                take_checked(&before, &after, old_text.as_deref(), place)?;
            }
        },
    }
    Ok(())
}

fn c07_histories() -> Res {
    for (text, ops) in super::histories::all() {
        let doc = must_parse(text.as_bytes())?;
        let model = read_doc(&doc);
        let mut s = State::new(doc, model);
        for (i, op) in ops.iter().enumerate() {
            spliced(&mut s, op, i % 2 == 1, None, &mut |_| {}).map_err(|e| format!("{text:?} {ops:?}: {e}"))?;
        }
    }
    Ok(())
}

impl Prop for C07 {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn rule(&self) -> &'static str {
        "documents rendered from random trees (standard or loose); the first insert, push, remove or clear is checked with the bytes of every entry known from the renderer: one contiguous piece is added behind the last entry, or taken out around the entry with nothing but spacing, comments and one comma; further ones (up to 4, other edits in between) are checked for one contiguous piece holding the text of the value; at the end the document must read back as the model. Non-trivial: at least one such edit on a document with at least 2 values; distinct by document and edits."
    }
    fn cases(&self) -> (u64, u64) {
        (900_000, 10_000_000)
    }
    fn run(&self, src: &mut Src, ctx: &mut Ctx) -> Res {
        let spec = src.chance(1, 2);
        let d = gen::doc(src, &edit_cfg(spec));
        ctx.describe(|| format!("document {}", show(&d.text)));
        ctx.id(&d.text);
        let mut s = start(&d)?;
        s.loose = !spec;
        let some = splice_step(src, ctx, &mut s, Some(&d))?.is_some();
        let n = src.below(4);
        for _ in 0..n {
            if src.chance(1, 3) {
                let op = step(src, ctx, &mut s)?;
                ctx.id(format!("{op:?}").as_bytes());
            } else {
                splice_step(src, ctx, &mut s, None)?;
            }
        }
        reads_back(&s.doc, &s.model, spec)?;
        ctx.nontrivial = some && d.tree.count() >= 2;
        Ok(())
    }
    fn pinned(&self) -> Vec<(&'static str, fn() -> Res)> {
        vec![("histories", c07_histories), ("many-entries", super::large::edits)]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["an entry is added in front of a comment that ends the line of the last entry"]
    }
}

// ------------------------------------------------------------------ C10

pub struct C10;

/// Text of any shape.
fn wild(src: &mut Src) -> String {
    let cased = |src: &mut Src, w: &str| -> String { w.chars().map(|c| if src.chance(1, 3) { c.to_ascii_uppercase() } else { c }).collect() };
    match src.weighted(&[6, 4, 4, 3, 4, 4, 3, 1, 3]) {
        0 => gen::text(src),
        // two odd pieces with something between
        1 => {
            let a = gen::text(src);
            let b = gen::text(src);
            let j = *src.pick(&["", " ", "\n", ": ", " #", ", ", "\t", "'", "\"", "\\", "\r\n", " - "]);
            format!("{a}{j}{b}")
        }
        // looks like something else
        2 => {
            let w = *src.pick(&["null", "true", "false", "~", ".inf", "-.inf", ".nan", "yes", "no", "on", "off", "y", "n"]);
            let w = cased(src, w);
            match src.below(4) {
                0 => w,
                1 => format!("{w} "),
                2 => format!(" {w}"),
                _ => format!("{w}{}", src.pick(&["x", ".", "0", ":", "#", "\n"])),
            }
        }
        3 => {
            let n = gen::number(src);
            let w = *src.pick(&["", "0", ".", "e", "E5", "-", "+", "x", "_1", ":30", " ", "\n"]);
            match src.below(4) {
                0 => n,
                1 => format!("{n}{w}"),
                2 => format!("{w}{n}"),
                _ => format!("+{n}"),
            }
        }
        4 => {
            let n = src.range(1, 12);
            (0..n).map(|_| gen::any_char(src)).collect()
        }
        5 => gen::lines(src),
        6 => {
            let n = src.range(1, 6);
            (0..n)
                .map(|_| *src.pick(&["\n", " ", "\t", "a", "#", "- ", ": ", "\r", "?", "|", ">", "'", "\"", "\\", "\0", "%", "{", "]", ",", "&a", "*a", "!t", "---", "...", "\u{85}", "\u{2028}", "\u{feff}", "é"]))
                .collect()
        }
        7 => {
            let n = src.range(20, 400);
            let w = gen::text(src);
            if src.chance(1, 2) {
                return (0..n).map(|i| if i % 7 == 0 { w.clone() } else { gen::any_char(src).to_string() }).collect();
            }
            // nothing odd about it but the end
            let unit = *src.pick(&["a", "lorem ", "é", "x-"]);
            let mut s: String = unit.chars().cycle().take(*src.pick(&[16, 31, 63, 64, 127, 128, 255, 256, 512, 1030]) + n as usize % 3).collect();
            if src.chance(1, 3) {
                s.push_str(&w);
            } else {
                s.push_str(src.pick(&["\n", " ", "\t", " #", "- ", ": ", ":", "\r", "'", "\"", "\\", "\0", "{", "}", "[", "]", ",", "\u{85}", "\u{2028}", "\u{feff}", "\u{7f}"]));
            }
            s.push_str(src.pick(&["", "b", " b"]));
            s
        }
        // one character, anywhere
        _ => {
            let c = match src.below(3) {
                0 => char::from(src.below(128) as u8),
                1 => char::from_u32(src.below(0x3000)).unwrap_or('x'),
                _ => gen::any_char(src),
            };
            format!("{}{c}{}", src.pick(&["", "a", " ", "1"]), src.pick(&["", "b", " ", "1"]))
        }
    }
}

fn wild_val(src: &mut Src) -> Val {
    let s = wild(src);
    match src.below(3) {
        0 => Val::Str(s),
        1 => Val::Quoted(s, false),
        _ => Val::Quoted(s, true),
    }
}

fn c10_strings() -> Res {
    let texts = "?\u{1}? a\u{1}?a\u{1}-\u{1}- a\u{1}-a\u{1}~\u{1}null\u{1}NULL\u{1}True\u{1}1\u{1}-1\u{1}+1\u{1}1e5\u{1}.5\u{1}-.5\u{1}.inf\u{1}-.INF\u{1}.nan\u{1}0x1\u{1}a: b\u{1}a:\u{1}:a\u{1}a:b\u{1}a #b\u{1}a#b\u{1}#a\u{1}'\u{1}it's\u{1}\"\u{1}a\"b\u{1}\\\u{1}a\\\u{1}\\n\u{1}\u{1} \u{1} a\u{1}a \u{1}\ta\u{1}a\tb\u{1}a\nb\u{1}\na\u{1}a\n\u{1}a\n\nb\u{1}\r\u{1}a\r\nb\u{1}@a\u{1}%a\u{1}`a\u{1}&a\u{1}*a\u{1}!a\u{1}|\u{1}>\u{1}|-\u{1}---\u{1}--- a\u{1}...\u{1}[\u{1}]\u{1}{\u{1}}\u{1},\u{1}a,b\u{1}[a]\u{1}{a: b}\u{1}\u{7}\u{1}\0\u{1}\u{7f}\u{1}\u{85}\u{1}\u{a0}\u{1}\u{2028}\u{1}\u{2029}\u{1}\u{feff}\u{1}\u{fffe}\u{1}\u{ffff}\u{1}\u{10ffff}\u{1}é日😀";
    let vals = |t: &str| [Val::Str(t.into()), Val::Quoted(t.into(), false), Val::Quoted(t.into(), true)];
    for t in texts.split('\u{1}') {
        for v in vals(t) {
            let ops = [
                ("x", Op::Set(vec![], v.clone())),
                ("a: x\nb: y\n", Op::Set(vec![0], v.clone())),
                ("- x\n- y\n", Op::Set(vec![1], v.clone())),
                ("- x\n- y\n", Op::Push(vec![], Via::Typed(v.clone()))),
                ("[x, y]", Op::Push(vec![], Via::Typed(v.clone()))),
                ("{a: x, b: y}", Op::Set(vec![0], v.clone())),
                ("{a: x, b: y}", Op::Insert(vec![], t.into(), Via::Typed(v.clone()))),
                ("a: 'x'\n", Op::Insert(vec![], t.into(), Via::Typed(v.clone()))),
                ("a: \"x\"\nb: ['z']\n", Op::Set(vec![0], v.clone())),
                ("a: \"x\"\nb: ['z']\n", Op::Set(vec![1, 0], v.clone())),
            ];
            for (text, op) in ops {
                let doc = must_parse(text.as_bytes())?;
                let model = read_doc(&doc);
                let mut s = State::new(doc, model);
                edit::apply(&mut s.doc, &mut s.model, &op, false)?;
                eq_tree("after an edit", &s.model, &read_doc(&s.doc)).map_err(|e| format!("{text:?} {op:?}: {e}"))?;
                reads_back(&s.doc, &s.model, true).map_err(|e| format!("{text:?} {op:?}: {e}"))?;
            }
        }
    }
    Ok(())
}

impl Prop for C10 {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn rule(&self) -> &'static str {
        "strings of any shape (odd pieces joined, words and numbers of other types in any case, random characters of all of Unicode, line breaks, indicators, long ones, single characters) are set over scalars, inserted under keys of any shape, and pushed, with automatic, single and double quoting, into documents rendered from random trees or with an edit history; the string must be read back at once, and after writing by the crate and by libyaml, the other data must be unchanged, and the text around too. Non-trivial: always; distinct by document and edits."
    }
    fn cases(&self) -> (u64, u64) {
        (800_000, 12_000_000)
    }
    fn run(&self, src: &mut Src, ctx: &mut Ctx) -> Res {
        ctx.nontrivial = true;
        match src.weighted(&[3, 1, 4]) {
            0 => return fresh_sets(src, ctx, &wild_val).map(|()| ctx.nontrivial = true),
            1 => return after_history(src, ctx, &wild_val).map(|()| ctx.nontrivial = true),
            _ => {}
        }
        // added to a collection
        let cfg = gen::Cfg { max_nodes: 8, max_depth: 3, coll_root: true, tabs: false, ..gen::Cfg::spec() };
        let d = gen::doc(src, &cfg);
        ctx.describe(|| format!("document {}", show(&d.text)));
        ctx.id(&d.text);
        let mut s = start(&d)?;
        for _ in 0..src.range(1, 3) {
            let colls = edit::paths(&s.model, Node::is_coll);
            let p = src.pick(&colls).clone();
            let v = wild_val(src);
            let via = if src.chance(1, 2) { Via::Typed(v) } else { Via::Set(0, v) };
            let n = s.model.at(&p).len();
            let (op, over) = match s.model.at(&p) {
                Node::Map(e) => {
                    let k = if src.chance(1, 2) { gen::key(src, &cfg) } else { wild(src).chars().take(120).collect() };
                    let over = e.iter().any(|(o, _)| o == k.as_bytes());
                    (Op::Insert(p.clone(), k.into_bytes(), via), over)
                }
                _ => (Op::Push(p.clone(), via), false),
            };
            ctx.describe(|| format!("edit {op:?}"));
            ctx.id(format!("{op:?}").as_bytes());
            ctx.label(op.name());
            let b0 = bytes_of(&s.doc);
            edit::apply(&mut s.doc, &mut s.model, &op, src.chance(1, 2))?;
            let b1 = bytes_of(&s.doc);
            ctx.describe(|| format!("  -> {}", show(&b1)));
            eq_tree("after an edit", &s.model, &read_doc(&s.doc))?;
            if !over {
                let mut q = p.clone();
                q.push(n);
                add_checked(&b0, &b1, &set_text(&s.doc, &q)?, key_of(&op), None, None)?;
            }
            reads_back(&s.doc, &s.model, true)?;
        }
        Ok(())
    }
    fn pinned(&self) -> Vec<(&'static str, fn() -> Res)> {
        vec![("strings", c10_strings)]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["keys are at most 120 characters long (YAML limits simple keys to 1024)", "explicitly bare strings are the caller's responsibility", "libyaml as second reader"]
    }
}
