//! C14: faults put into well-formed documents.

use super::common::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::{self, ANode, Cfg, Style};
use crate::reference::*;
use nondestructive::yaml::{self, ErrorKind as K};

pub struct C14;

/// What the error has to look like.
#[derive(Debug)]
struct Want {
    kinds: Vec<K>,
    start: (usize, usize),
    end: (usize, usize),
}

impl Want {
    fn exact(kind: K, a: usize, b: usize) -> Self {
        Want { kinds: vec![kind], start: (a, a), end: (b, b) }
    }
}

struct Fault {
    name: &'static str,
    text: Vec<u8>,
    want: Want,
    /// An independent parser refuses this too.
    refused: bool,
}

fn refuses(f: &Fault) -> Res {
    let e = match yaml::from_slice(&f.text) {
        Ok(_) => return Err(format!("{}: accepted, expected {:?} at {:?}..{:?}: {}", f.name, f.want.kinds, f.want.start, f.want.end, show(&f.text))),
        Err(e) => e,
    };
    ensure!(f.want.kinds.contains(e.kind()), "{}: refused with {:?} at {:?}, expected {:?}: {}", f.name, e.kind(), e.span(), f.want.kinds, show(&f.text));
    let s = e.span();
    let (a, b) = (f.want.start, f.want.end);
    ensure!(
        a.0 <= s.start && s.start <= a.1 && b.0 <= s.end && s.end <= b.1,
        "{}: {:?} points at {s:?}, expected a start in {}..={} and an end in {}..={}: {}",
        f.name,
        e.kind(),
        a.0,
        a.1,
        b.0,
        b.1,
        show(&f.text)
    );
    let text = e.to_string();
    ensure!(text.contains(&s.start.to_string()) && text.contains(&s.end.to_string()), "the error {text:?} does not say where ({s:?})");
    Ok(())
}

fn splice(text: &[u8], a: usize, b: usize, with: &[u8]) -> Vec<u8> {
    [&text[..a], with, &text[b..]].concat()
}

fn line_start(text: &[u8], at: usize) -> usize {
    text[..at].iter().rposition(|b| *b == b'\n').map_or(0, |i| i + 1)
}

fn line_end(text: &[u8], at: usize) -> usize {
    text[at..].iter().position(|b| *b == b'\n').map_or(text.len(), |i| at + i)
}

/// A bad escape, its kind, and how much of it the error covers.
fn bad_escape(src: &mut Src) -> (Vec<u8>, K) {
    let hex = |src: &mut Src| *src.pick(b"0123456789abcdefABCDEF");
    let nohex = |src: &mut Src| *src.pick(b"ghuxGX zZ-+\"\\',:#_");
    match src.below(4) {
        0 => (vec![b'\\', *src.pick(b"cdghijkmopqswyzABCDEFGHIJKMOQRSTVWXYZ123456789'#:,-[]{}!$&")], K::BadEscape),
        1 => {
            let mut v = b"\\x".to_vec();
            for _ in 0..src.below(2) {
                v.push(hex(src));
            }
            v.push(nohex(src));
            (v, K::BadHexEscape)
        }
        2 => {
            let mut v = b"\\u".to_vec();
            for _ in 0..src.below(4) {
                v.push(hex(src));
            }
            v.push(nohex(src));
            (v, K::BadUnicodeEscape)
        }
        _ => {
            let c = 0xd800 + src.below(0x800);
            let v = if src.chance(1, 2) { format!("\\u{c:04x}") } else { format!("\\u{c:04X}") };
            (v.into_bytes(), K::BadUnicodeEscape)
        }
    }
}

/// Offsets in a double-quoted scalar at which something can be put.
fn inside_quotes(raw: &[u8]) -> Vec<usize> {
    let mut out = Vec::new();
    let mut i = 1;
    while i < raw.len() - 1 {
        if raw[i] & 0xc0 != 0x80 {
            out.push(i);
        }
        i += match raw[i] {
            b'\\' => match raw[i + 1] {
                b'x' => 4,
                b'u' => 6,
                _ => 2,
            },
            _ => 1,
        };
    }
    out.push(raw.len() - 1);
    out
}

struct At<'a> {
    ann: &'a ANode,
    node: &'a Node,
    /// Columns of the block collections around this.
    cols: Vec<usize>,
}

fn nodes<'a>(ann: &'a ANode, node: &'a Node, cols: Vec<usize>, out: &mut Vec<At<'a>>) {
    let mut inner = cols.clone();
    if ann.style == Style::Block {
        inner.push(ann.col);
    }
    out.push(At { ann, node, cols });
    let kids: Vec<&Node> = match node {
        Node::Map(v) => v.iter().map(|(_, n)| n).collect(),
        Node::Seq(v) => v.iter().collect(),
        _ => Vec::new(),
    };
    for (k, n) in ann.kids.iter().zip(kids) {
        nodes(&k.val, n, inner.clone(), out);
    }
}

fn prev_bound(n: &ANode, kids: usize) -> usize {
    if kids == 0 {
        n.span.0 + 1
    } else {
        n.kids[kids - 1].val.span.1
    }
}

/// What is missing when a flow collection ends at `at` for want of input.
fn truncated(text: &[u8], n: &ANode, node: &Node, at: usize) -> Want {
    let begun = n.kids.iter().take_while(|k| k.start < at).count();
    // an unfinished entry starts after the one in front of it
    let low = prev_bound(n, begun.saturating_sub(1));
    if let Some(k) = n.kids.get(begun.wrapping_sub(1)) {
        let kid = match node {
            Node::Map(v) => &v[begun - 1].1,
            Node::Seq(v) => &v[begun - 1],
            _ => unreachable!(),
        };
        let s = k.val.span;
        if k.val.style == Style::Flow && s.0 < at && at < s.1 {
            return truncated(text, &k.val, kid, at);
        }
    }
    let mut end = (at, at);
    let mut kinds = vec![if matches!(node, Node::Seq(_)) { K::BadSequenceTerminator } else { K::BadMappingTerminator }];
    let mut low = low;
    if let Some(k) = n.kids.get(begun.wrapping_sub(1)) {
        let in_quotes = |s: (usize, usize)| s.0 < at && at < s.1 && text[s.0] == b'"' && text[s.0..at].contains(&b'\\');
        if let Some(ks) = k.key_span {
            let colon = ks.1 + text[ks.1..].iter().position(|b| *b == b':').unwrap_or(0);
            if at <= colon {
                kinds = vec![K::BadMappingSeparator];
                if text[ks.0..at.min(ks.1)].contains(&b':') {
                    kinds.push(K::BadMappingTerminator);
                }
            }
        }
        if in_quotes(k.val.span) || k.key_span.is_some_and(in_quotes) {
            kinds.extend([K::BadEscape, K::BadHexEscape, K::BadUnicodeEscape]);
        }
    }
    low = low.min(at);
    // what was read of a key without a colon, or of a value up to a colon which
    // ends it
    if matches!(kinds[0], K::BadMappingSeparator) || text[..at].ends_with(b":") {
        let blank = text[..at].iter().rev().take_while(|b| b.is_ascii_whitespace() || **b == b':').count();
        end.0 = at - blank;
    }
    Want { kinds, start: (low, at), end }
}

/// Text without a colon.
fn word(src: &mut Src) -> &'static str {
    src.pick(&["zz", "zz yy", "zz:yy", "1.5", "true", "zz-", "é"])
}

fn make(src: &mut Src, d: &gen::Doc) -> Option<Fault> {
    let text = &d.text;
    let mut all = Vec::new();
    nodes(&d.ann, &d.tree, Vec::new(), &mut all);
    let mut kinds: Vec<u8> = Vec::new();
    let quoted: Vec<(usize, usize)> = all
        .iter()
        .filter(|a| a.ann.style == Style::Double)
        .map(|a| a.ann.span)
        .chain(all.iter().flat_map(|a| a.ann.kids.iter().filter_map(|k| k.key_span)).filter(|s| text[s.0] == b'"'))
        .collect();
    let flows: Vec<&At<'_>> = all.iter().filter(|a| a.ann.style == Style::Flow).collect();
    let flow_maps: Vec<&&At<'_>> = flows.iter().filter(|a| matches!(a.node, Node::Map(_)) && !a.ann.kids.is_empty()).collect();
    let blocks: Vec<&At<'_>> = all.iter().filter(|a| a.ann.style == Style::Block && a.ann.kids.len() > 1).collect();
    let block_maps: Vec<&&At<'_>> = blocks.iter().filter(|a| matches!(a.node, Node::Map(_))).collect();
    let closed: Vec<&At<'_>> = all.iter().filter(|a| !a.ann.in_flow && matches!(a.ann.style, Style::Flow | Style::Single | Style::Double)).collect();
    if !quoted.is_empty() {
        kinds.push(0);
    }
    if !flows.is_empty() {
        kinds.extend([1, 1, 2, 9, 9]);
    }
    if !flow_maps.is_empty() {
        kinds.extend([3, 4]);
    }
    if !block_maps.is_empty() {
        kinds.extend([5, 5, 5]);
    }
    if !closed.is_empty() {
        kinds.push(6);
    }
    if !blocks.is_empty() {
        kinds.extend([7, 8]);
    }
    if kinds.is_empty() {
        return None;
    }
    Some(match *src.pick(&kinds) {
        // a bad escape
        0 => {
            let s = *src.pick(&quoted);
            let at = s.0 + *src.pick(&inside_quotes(&text[s.0..s.1]));
            let (esc, kind) = bad_escape(src);
            Fault {
                name: match kind {
                    K::BadEscape => "unknown escape",
                    K::BadHexEscape => "bad hexadecimal escape",
                    _ => "bad unicode escape",
                },
                text: splice(text, at, at, &esc),
                want: Want::exact(kind, at, at + esc.len()),
                refused: true,
            }
        }
        // input ends inside of a flow collection
        1 => {
            let a = *src.pick(&flows);
            let at = src.range(a.ann.span.0 + 1, a.ann.span.1 - 1);
            Fault { name: "unclosed flow collection", text: text[..at].to_vec(), want: truncated(text, a.ann, a.node, at), refused: true }
        }
        // closed by the wrong bracket
        2 => {
            let a = *src.pick(&flows);
            let at = a.ann.span.1 - 1;
            let seq = text[at] == b']';
            let with: &[u8] = if seq { b"}" } else { b"]" };
            let kinds = if seq {
                vec![K::BadSequenceTerminator]
            } else {
                let last = a.ann.kids.last().map_or(a.ann.span.0 + 1, |k| k.val.span.1);
                // nothing but a comma in front, or nothing at all
                if a.ann.kids.is_empty() || text[last..at].contains(&b',') {
                    vec![K::BadMappingSeparator, K::BadMappingTerminator]
                } else {
                    vec![K::BadMappingTerminator]
                }
            };
            let low = prev_bound(a.ann, a.ann.kids.len().saturating_sub(1));
            Fault { name: "wrong closing bracket", text: splice(text, at, at + 1, with), want: Want { kinds, start: (low, at), end: (at, at + 1) }, refused: true }
        }
        // an added entry without a colon
        3 => {
            let a = **src.pick(&flow_maps);
            let i = src.below(a.ann.kids.len() as u32) as usize;
            let k = &a.ann.kids[i];
            let w = *src.pick(&["zz", "zz yy", "1.5", "true", "'zz'", "\"z: z\"", "é"]);
            let note = *src.pick(&["", " ", " # note\n            ", " # note: x\n            "]);
            // a comment ends a key, whatever follows
            let comma = if note.contains('#') && src.chance(1, 3) { "" } else { ", " };
            let with = format!("{w}{note}{comma}");
            let low = prev_bound(a.ann, i);
            let end = k.start + w.len();
            let high = if note.contains('#') { text.len() + with.len() } else { k.start + with.len() };
            Fault {
                name: "flow mapping entry without a colon",
                text: splice(text, k.start, k.start, with.as_bytes()),
                want: Want { kinds: vec![K::BadMappingSeparator], start: (low, k.start), end: (end, high) },
                refused: false,
            }
        }
        // an entry losing its colon and value
        4 => {
            let a = **src.pick(&flow_maps);
            let i = src.below(a.ann.kids.len() as u32) as usize;
            let k = &a.ann.kids[i];
            let ks = k.key_span?;
            if !matches!(text[ks.0], b'"' | b'\'') && text[ks.0..ks.1].contains(&b':') {
                return None;
            }
            let colon = ks.1 + text[ks.1..].iter().position(|b| *b == b':')?;
            let end = k.val.span.1.max(colon + 1);
            let out = splice(text, ks.1, end, b"");
            let low = prev_bound(a.ann, i);
            // up to the next comma or bracket
            Fault {
                name: "flow mapping entry losing its value",
                want: Want { kinds: vec![K::BadMappingSeparator], start: (low, ks.0), end: (ks.1, out.len()) },
                text: out,
                refused: false,
            }
        }
        // a block mapping line without a colon
        5 => {
            let a = **src.pick(&block_maps);
            let i = src.range(1, a.ann.kids.len() - 1);
            let at = a.ann.kids[i].start;
            let ls = line_start(text, at);
            let w = if src.chance(1, 3) { *src.pick(&["'zz'", "\"zz\"", "'z: z'", "\"# z\"", "'it''s'", "\"\\n: \""]) } else { word(src) };
            let rest = *src.pick(&["", " ", " # c", "  # c: d", "\t# 'c"]);
            let line = [&text[ls..at], w.as_bytes(), rest.as_bytes(), b"\n"].concat();
            Fault {
                name: "block mapping line without a colon",
                text: splice(text, ls, ls, &line),
                want: Want { kinds: vec![K::BadMappingSeparator], start: (at, at), end: (at + w.len(), ls + line.len()) },
                refused: true,
            }
        }
        // something after a value which is complete
        6 => {
            let a = *src.pick(&closed);
            let s = a.ann.span;
            let sp = *src.pick(&[" ", "  ", "\t"]);
            let w = *src.pick(&["zz", "zz: 1", "\"zz\"", "[1]", "{a: 1}", "- 1", "1"]);
            let lines = text[s.0..s.1].contains(&b'\n');
            if lines && w.contains(':') {
                return None;
            }
            let with = format!("{sp}{w}");
            let at = s.1 + sp.len();
            let out = splice(text, s.1, s.1, with.as_bytes());
            let mut kinds = vec![K::ExpectedEof];
            let mut end = (out.len(), out.len());
            if lines {
                // this may look like an entry
                kinds.push(K::BadMappingSeparator);
                end.0 = at + w.len();
            }
            Fault { name: "content after a value", want: Want { kinds, start: (at, at), end }, text: out, refused: true }
        }
        // a line at an indentation of no collection
        7 => {
            let a = *src.pick(&blocks);
            let c = a.ann.col;
            let i = src.range(1, a.ann.kids.len() - 1);
            let free: Vec<usize> = (0..c).filter(|x| !a.cols.contains(x)).collect();
            if free.is_empty() {
                return None;
            }
            let col = *src.pick(&free);
            let ls = line_start(text, a.ann.kids[i].start);
            let ws = &text[ls..a.ann.kids[i].start];
            if ws.len() != c {
                return None;
            }
            let w = *src.pick(&["zz: 1", "- zz", "zz", "'zz': 1", "[zz]"]);
            let line = [&ws[..col], w.as_bytes(), b"\n"].concat();
            let out = splice(text, ls, ls, &line);
            Fault { name: "line at a shallower indentation", want: Want::exact(K::ExpectedEof, ls + col, out.len()), text: out, refused: true }
        }
        // something other than a comma or bracket after an entry
        9 => {
            let a = *src.pick(&flows);
            if a.ann.kids.is_empty() {
                return None;
            }
            let i = src.below(a.ann.kids.len() as u32) as usize;
            let k = &a.ann.kids[i];
            let s = k.val.span;
            let with: String = match k.val.style {
                // more words would belong to it
                Style::Plain => {
                    if text[s.1 - 1] == b':' {
                        return None;
                    }
                    (*src.pick(&[": zz", ":", ": [zz]", ": 'zz'", ":  zz: yy", ":\n        zz"])).into()
                }
                Style::Single | Style::Double | Style::Flow => {
                    format!("{}{}", src.pick(&[" ", "  ", "\n        ", " # c\n        "]), src.pick(&["zz", "\"zz\"", "[zz]", "{a: 1}", "1", ": zz", "- zz", "zz: 1", ":"]))
                }
                _ => return None,
            };
            let seq = matches!(a.node, Node::Seq(_));
            let kind = if seq { K::BadSequenceTerminator } else { K::BadMappingTerminator };
            let low = if seq { s.1 } else { prev_bound(a.ann, i) };
            let out = splice(text, s.1, s.1, with.as_bytes());
            Fault {
                name: "content after an entry of a flow collection",
                want: Want { kinds: vec![kind], start: (low, if seq { s.1 + with.len() } else { k.start }), end: (s.1, s.1 + with.len()) },
                refused: !with.contains(':') && !with.contains('#'),
                text: out,
            }
        }
        // a line further in than the value above allows
        _ => {
            let a = *src.pick(&blocks);
            let i = src.range(1, a.ann.kids.len() - 1);
            let above = &a.ann.kids[i - 1].val;
            if !matches!(above.style, Style::Plain | Style::Single | Style::Double | Style::Flow) {
                return None;
            }
            let at = a.ann.kids[i].start;
            let ls = line_start(text, at);
            let more = src.range(1, 4);
            let w = *src.pick(&["zz: 1", "'zz': 1", "zz:"]);
            let line = [&text[ls..at], &b"    "[..more], w.as_bytes(), b"\n"].concat();
            let out = splice(text, ls, ls, &line);
            Fault { name: "line at a deeper indentation", want: Want::exact(K::ExpectedEof, at + more, out.len()), text: out, refused: true }
        }
    })
}

/// Something put after a document which is complete.
fn after(src: &mut Src, d: &gen::Doc) -> Option<Fault> {
    if !matches!(d.ann.style, Style::Flow | Style::Single | Style::Double) {
        return None;
    }
    let mut out = d.text.clone();
    if line_end(&out, d.ann.span.1) == out.len() {
        out.push(b'\n');
    }
    let at = out.len();
    let w = *src.pick(&["zz", "zz: 1\n", "42\n", "[1]", "- 1\n", "}", "]", ", 1"]);
    out.extend_from_slice(w.as_bytes());
    Some(Fault { name: "content after the document", want: Want::exact(K::ExpectedEof, at, out.len()), text: out, refused: true })
}

impl Prop for C14 {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> &'static str {
        "a document rendered from a random tree, which is accepted, gets one fault at a random place: a bad escape of each kind put into a double-quoted value or key, the input ending anywhere inside of a flow collection, the wrong closing bracket, something other than a comma or bracket after an entry of a flow collection, an entry of a flow mapping or a line of a block mapping without a colon, content after a complete value or document, a line at an indentation no collection has. The error must be of the kind that belongs to the fault and its range must be where the fault was put; libyaml must refuse the same input (entries of flow mappings without a colon excepted, which YAML allows). Non-trivial: a fault was made; distinct by the faulty text."
    }
    fn cases(&self) -> (u64, u64) {
        (2_000_000, 20_000_000)
    }
    fn run(&self, src: &mut Src, ctx: &mut Ctx) -> Res {
        let spec = src.chance(3, 4);
        let cfg = Cfg { max_nodes: 12, ..if spec { Cfg::spec() } else { Cfg::loose() } };
        let d = gen::doc(src, &cfg);
        let f = if src.chance(1, 6) { after(src, &d) } else { None };
        let Some(f) = f.or_else(|| make(src, &d)) else { return Ok(()) };
        ctx.describe(|| format!("document {}\n{}: {}", show(&d.text), f.name, show(&f.text)));
        ctx.id(&f.text);
        ctx.nontrivial = true;
        ctx.label(f.name);
        must_parse(&d.text)?;
        if spec && f.refused {
            if let Ok(t) = libyaml(&f.text) {
                return Err(format!("{HARNESS_BUG}{} is fine: {} {t:?}", f.name, show(&f.text)));
            }
        }
        refuses(&f)
    }
    fn pinned(&self) -> Vec<(&'static str, fn() -> Res)> {
        fn t(text: &str, kind: K, at: &str) -> Res {
            let e = match yaml::from_slice(text) {
                Ok(_) => return Err(format!("{text:?} is accepted")),
                Err(e) => e,
            };
            ensure!(*e.kind() == kind, "{text:?} is refused with {:?}, expected {kind:?}", e.kind());
            let got = text.get(e.span());
            ensure!(got == Some(at), "{kind:?} of {text:?} points at {got:?} ({:?}), expected {at:?}", e.span());
            Ok(())
        }
        vec![
            ("eof", || t("{hello: world}\n42\n", K::ExpectedEof, "42\n")),
            ("sequence", || t("[Aristotle, # this is a comment", K::BadSequenceTerminator, " # this is a comment")),
            ("separator", || t("{name: Aristotle, age # this is a comment", K::BadMappingSeparator, " age # this is a comment")),
            ("block-separator", || t("\nname: Aristotle\nage # end", K::BadMappingSeparator, "age # end")),
            ("mapping", || t("{name: Aristotle, # this is a comment", K::BadMappingTerminator, " # this is a comment")),
            ("escape", || t("\"hello \\o1u world\"", K::BadEscape, "\\o")),
            ("hex", || t("\"hello \\x1u world\"", K::BadHexEscape, "\\x1u")),
            ("unicode", || t("\"hello \\ud800 world\"", K::BadUnicodeEscape, "\\ud800")),
            ("short-unicode", || t("a: \"\\u12\"", K::BadUnicodeEscape, "\\u12\"")),
            ("escape-in-key", || t("a: 1\n\"b\\q\": 1", K::BadEscape, "\\q")),
            ("escape-in-flow-key", || t("{a: 1, \"b\\q\": 1}", K::BadEscape, "\\q")),
            ("number-line", || t("a: 1\n42\n", K::BadMappingSeparator, "42\n")),
        ]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the faults the error kinds describe; unterminated quotes, multi-line plain scalars and further documents have no error kind and are left open", "of an unclosed flow collection, the range has to be inside of the innermost one and reach the end of the input"]
    }
}
