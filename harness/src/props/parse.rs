//! C01, C02, C04, C05: parsing and writing back without edits.

use super::common::*;
use crate::bytes;
use crate::engine::*;
use crate::ensure;
use crate::gen::{self, Cfg, Style};
use crate::reference::*;
use nondestructive::yaml;

// ------------------------------------------------------------------ C01

pub struct C01;

pub fn roundtrip(b: &[u8]) -> Result<Option<yaml::Document>, String> {
    let Ok(d) = yaml::from_slice(b) else { return Ok(None) };
    let out = bytes_of(&d);
    ensure!(out == b, "written bytes differ from the input:\n in  {}\n out {}", show(b), show(&out));
    if let Ok(s) = std::str::from_utf8(b) {
        let t = d.to_string();
        ensure!(t == s, "text form differs from the input:\n in  {}\n out {}", show(b), show(t.as_bytes()));
    }
    Ok(Some(d))
}

fn c01_input(b: &[u8]) -> Result<bool, String> {
    let Some(d) = roundtrip(b)? else { return Ok(false) };
    let c = d.clone();
    touch(&d, &d.as_ref());
    let again = bytes_of(&d);
    ensure!(again == b, "reading changed what is written: {} -> {}", show(b), show(&again));
    let cb = bytes_of(&c);
    ensure!(cb == b, "a clone writes other bytes: {} -> {}", show(b), show(&cb));
    Ok(true)
}

impl Prop for C01 {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> &'static str {
        "inputs: documents rendered from random data trees in random style and layout (standard and loose, incl. non-UTF-8 and tab indentation), byte-mutated documents, token soups, short strings over YAML's indicator bytes, random bytes, long repetitions. Non-trivial: the input is accepted and has at least 2 bytes; distinct by input bytes."
    }
    fn cases(&self) -> (u64, u64) {
        (800_000, 12_000_000)
    }
    fn run(&self, src: &mut Src, ctx: &mut Ctx) -> Res {
        let (b, l) = bytes::any_input(src, 200);
        ctx.label(l);
        ctx.describe(|| format!("input {}", show(&b)));
        if c01_input(&b)? {
            ctx.label("accepted");
            ctx.nontrivial = b.len() >= 2;
            ctx.id(&b);
        }
        Ok(())
    }
    fn pinned(&self) -> Vec<(&'static str, fn() -> Res)> {
        fn t(b: &[u8]) -> Res {
            if !c01_input(b)? {
                return Err(format!("refused {}", show(b)));
            }
            Ok(())
        }
        vec![
            ("directive-and-marker", || t(b"# c\n%YAML 1.2\n---\na: 1\n")),
            ("marker-only", || t(b"---\n")),
            ("flow-space-before-comma", || t(b"[a , b ,c]\n")),
            ("flow-map-space-before-comma", || t(b"{a: 'x' , b: [1] ,}\n")),
            ("flow-multiline-comments", || t(b"[ # c\n a # d\n , b\n]")),
            ("nul-in-flow-key", || {
                let _ = c01_input(b"{a\0b: c}")?;
                Ok(())
            }),
            ("key-space-before-colon", || t(b"a : 1\nb  : 2\n'c' : 3\n")),
            ("empty-values", || t(b"a:\nb: \n\nc:   # x\nd:")),
            ("empty-items", || t(b"-\n- \n-   # c\n-")),
            ("empty-flow-values", || t(b"{a: , b:  }")),
            ("crlf", || t(b"a: 1\r\nb:\r\n  - x\r\n")),
            ("non-utf8", || t(b"a: \xff\n\xfe: [\xfd , 'x\x80']\n- \xff\n").or_else(|_| t(b"a: \xff\n\xfe: [\xfd , 'x\x80']\n"))),
            ("non-utf8-item-prefix", || t(b"- a # \xff\n- b\n")),
            // NB: identifiers of texts have to keep this many of them apart.
            ("many-texts", || {
                let mut b = Vec::new();
                for i in 0..400_000u32 {
                    b.extend(format!("- t{i}\n").into_bytes());
                }
                let doc = must_parse(&b)?;
                if doc.to_string().as_bytes() != b {
                    return Err("400000 different texts do not come out as they went in".into());
                }
                Ok(())
            }),
            ("empty", || t(b"")),
            ("blank", || t(b" \n\t\n# c")),
            ("keep-block", || t(b"a: |+\n  x\n\n \nb: |-\n y\n")),
        ]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["nesting up to 200 levels", "inputs up to some tens of kilobytes"]
    }
}

// ------------------------------------------------------------------ C02

pub struct C02;

fn c02_input(b: &[u8]) -> Result<bool, String> {
    let r1 = yaml::from_slice(b);
    let r2 = yaml::from_slice(b);
    match (r1, r2) {
        (Ok(d), Ok(e)) => {
            let n = touch(&d, &d.as_ref());
            let m = touch(&e, &e.as_ref());
            ensure!(n == m, "two parses of the same input differ: {n} and {m} values");
            if b.len() < 20_000 {
                let _ = format!("{d} {d:?}");
            }
            let x = bytes_of(&d);
            let y = bytes_of(&e);
            ensure!(x == y, "two parses of the same input are written differently");
            let (x, y) = (read_doc(&d), read_doc(&e));
            if let Some(m) = diff(&x, &y) {
                return Err(format!("two parses of the same input differ: {m}"));
            }
            Ok(true)
        }
        (Err(a), Err(c)) => {
            ensure!(a.kind() == c.kind() && a.span() == c.span(), "two parses of the same input give different errors");
            let s = a.span();
            ensure!(s.start <= s.end && s.end <= b.len(), "error range {s:?} is not inside the input of {} bytes ({:?})", b.len(), a.kind());
            let _ = format!("{a} {a:?} {}", a.kind());
            Ok(false)
        }
        _ => Err("one parse accepts the input, another one refuses it".into()),
    }
}

impl Prop for C02 {
    fn id(&self) -> &'static str {
        "C02"
    }
    fn rule(&self) -> &'static str {
        "inputs: as C01 with more weight on malformed ones (token soups, truncations, unterminated quotes, NUL and non-UTF-8 bytes, repetitions, nesting up to 300 levels, a few hundred kilobytes of one unit). A case that uses 15 s of CPU, 6 GB of memory or dies is a violation. Non-trivial: the input is refused, or accepted with at least 3 values; distinct by input bytes."
    }
    fn cases(&self) -> (u64, u64) {
        (320_000, 12_000_000)
    }
    fn run(&self, src: &mut Src, ctx: &mut Ctx) -> Res {
        let (b, l) = match src.weighted(&[6000, 3000, 500, 1]) {
            3 => (bytes::large(src), "large"),
            0 => bytes::any_input(src, 300),
            1 => (bytes::soup(src), "soup"),
            _ => (bytes::repeated(src, 300), "repeated"),
        };
        ctx.label(l);
        ctx.describe(|| format!("input {}", show(&b)));
        let ok = c02_input(&b)?;
        ctx.label(if ok { "accepted" } else { "refused" });
        ctx.nontrivial = !ok || b.len() > 4;
        ctx.id(&b);
        Ok(())
    }
    fn pinned(&self) -> Vec<(&'static str, fn() -> Res)> {
        fn t(b: &[u8]) -> Res {
            c02_input(b).map(|_| ())
        }
        vec![
            ("unterminated-single-quote", || t(b"'abc")),
            ("unterminated-single-quote-escaped", || t(b"'a''b")),
            ("unterminated-double-quote", || t(b"\"abc")),
            ("unterminated-double-escape", || t(b"\"abc\\")),
            ("quote-at-end", || t(b"a: '")),
            ("nul", || t(b"\0")),
            ("nul-in-quotes", || t(b"\"a\0b\" 'c\0")),
            ("empty", || t(b"")),
            ("deep-flow", || t("[".repeat(300).as_bytes())),
            ("deep-block", || t("- ".repeat(300).as_bytes())),
            ("block-at-end", || t(b"a: |")),
            ("fold-keep-at-end", || t(b">+")),
            // NB: recursion that is too deep cannot be caught
            ("deep-nesting-flow", || crate::runner::in_child(&["deep", "["])),
            ("deep-nesting-block", || crate::runner::in_child(&["deep", "- "])),
        ]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["nesting up to 300 levels (recursion uses the stack: listed findings show what happens at 100 000)", "a case is given 15 s of CPU time and 6 GB of address space; cases normally take well under a millisecond"]
    }
}

// ------------------------------------------------------------------ C04

pub struct C04;

/// libyaml must read the generated document as its tree (checks the oracle).
pub fn oracle_ok(d: &gen::Doc) -> Res {
    match libyaml(&d.text) {
        Ok(t) => match diff(&d.tree, &t) {
            None => Ok(()),
            Some(m) => Err(format!("{HARNESS_BUG}libyaml reads a generated document differently: {m}: {}", show(&d.text))),
        },
        Err(e) => Err(format!("{HARNESS_BUG}libyaml refuses a generated document: {e}: {}", show(&d.text))),
    }
}

/// The text of every value is the piece of the document that holds it.
fn texts(d: &yaml::Document, g: &gen::Doc) -> Res {
    fn go(v: &yaml::Value<'_>, a: &gen::ANode, g: &gen::Doc) -> Res {
        if !matches!(a.style, Style::Block | Style::Empty) {
            let want = &g.text[a.span.0..a.span.1];
            if let Ok(w) = std::str::from_utf8(want) {
                let got = v.to_string();
                // a block scalar keeps trailing empty lines as its own text
                let ok = if matches!(a.style, Style::Literal | Style::Folded) { got.starts_with(w) } else { got == w };
                ensure!(ok, "text of a value: want {}, got {}", show(want), show(got.as_bytes()));
            }
        }
        if let Some(m) = v.as_mapping() {
            for ((_, v), k) in m.iter().zip(&a.kids) {
                go(&v, &k.val, g)?;
            }
        }
        if let Some(s) = v.as_sequence() {
            for (v, k) in s.iter().zip(&a.kids) {
                go(&v, &k.val, g)?;
            }
        }
        Ok(())
    }
    go(&d.as_ref(), &g.ann, g)
}

/// Typed getters agree with the node.
pub fn getters(v: &yaml::Value<'_>, n: &Node) -> Res {
    match n {
        Node::Bool(b) => ensure!(v.as_bool() == Some(*b), "as_bool {:?} for {n:?}", v.as_bool()),
        Node::Str(s) => {
            ensure!(v.as_bstr().map(|b| b.to_vec()) == Some(s.clone()), "as_bstr {:?} for {n:?}", v.as_bstr());
            ensure!(v.as_str() == std::str::from_utf8(s).ok(), "as_str {:?} for {n:?}", v.as_str());
        }
        _ => {}
    }
    if !matches!(n, Node::Bool(_)) {
        ensure!(v.as_bool().is_none(), "as_bool answers for {n:?}");
    }
    if !matches!(n, Node::Str(_)) {
        ensure!(v.as_bstr().is_none() && v.as_str().is_none(), "as_str answers for {n:?}");
    }
    ensure!(v.as_number().is_some() == matches!(n, Node::Num(_)), "as_number wrong for {n:?}");
    ensure!(v.as_any().is_null() == matches!(n, Node::Null), "is_null wrong for {n:?}");
    ensure!(v.as_mapping().is_some() == matches!(n, Node::Map(_)), "as_mapping wrong for {n:?}");
    ensure!(v.as_sequence().is_some() == matches!(n, Node::Seq(_)), "as_sequence wrong for {n:?}");
    match n {
        Node::Map(e) => {
            let m = v.as_mapping().expect("mapping");
            ensure!(m.len() == e.len(), "mapping length {} for {n:?}", m.len());
            for (i, (k, c)) in e.iter().enumerate() {
                if e[..i].iter().any(|(o, _)| o == k) {
                    // keys find the first entry
                    continue;
                }
                if let Ok(k) = std::str::from_utf8(k) {
                    let Some(x) = m.get(k) else { return Err(format!("key {k:?} not found in {n:?}")) };
                    getters(&x, c)?;
                }
            }
        }
        Node::Seq(e) => {
            let s = v.as_sequence().expect("sequence");
            ensure!(s.len() == e.len(), "sequence length {} for {n:?}", s.len());
            for (i, c) in e.iter().enumerate() {
                let Some(x) = s.get(i) else { return Err(format!("index {i} not found in {n:?}")) };
                getters(&x, c)?;
            }
        }
        _ => {}
    }
    Ok(())
}

pub fn reads_as(d: &gen::Doc) -> Res {
    let doc = must_parse(&d.text)?;
    eq_tree("read", &d.tree, &read_doc(&doc))?;
    getters(&doc.as_ref(), &d.tree)?;
    texts(&doc, d)
}

impl Prop for C04 {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn rule(&self) -> &'static str {
        "a random data tree is written as a document with random style and layout per node; the tree is the oracle, libyaml reads every generated document too and has to agree with it, and the crate has to read the same tree through every accessor. Non-trivial: at least 3 values with a collection; distinct by document text."
    }
    fn cases(&self) -> (u64, u64) {
        (840_000, 8_000_000)
    }
    fn run(&self, src: &mut Src, ctx: &mut Ctx) -> Res {
        let d = gen::doc(src, &Cfg::spec());
        for l in &d.labels {
            ctx.label(l);
        }
        ctx.describe(|| format!("document {}\ntree {:?}", show(&d.text), d.tree));
        ctx.nontrivial = d.tree.count() >= 3;
        ctx.id(&d.text);
        oracle_ok(&d)?;
        reads_as(&d)
    }
    fn pinned(&self) -> Vec<(&'static str, fn() -> Res)> {
        fn t(b: &[u8], want: Node) -> Res {
            eq_tree("oracle", &want, &libyaml(b).map_err(|e| format!("{HARNESS_BUG}{e}"))?).map_err(|e| format!("{HARNESS_BUG}{e}"))?;
            let doc = must_parse(b)?;
            eq_tree("read", &want, &read_doc(&doc))
        }
        fn m(e: &[(&str, Node)]) -> Node {
            Node::Map(e.iter().map(|(k, v)| (k.as_bytes().to_vec(), v.clone())).collect())
        }
        fn n(s: &str) -> Node {
            Node::Num(s.into())
        }
        fn s(x: &str) -> Node {
            Node::str(x)
        }
        vec![
            ("comment-after-plain", || t(b"a: b # c\n", m(&[("a", s("b"))]))),
            ("comment-after-number", || t(b"a: 1 # c\nb: 2\n", m(&[("a", n("1")), ("b", n("2"))]))),
            ("trailing-spaces", || t(b"a: b  \nc: d\t\n", m(&[("a", s("b")), ("c", s("d"))]))),
            ("version-in-flow", || t(b"[1.6.3, 1.0x, 12 a]", Node::Seq(vec![s("1.6.3"), s("1.0x"), s("12 a")]))),
            ("colon-in-flow", || t(b"{a: http://x/y, b: c:d}", m(&[("a", s("http://x/y")), ("b", s("c:d"))]))),
            ("flow-quoted-keys", || t(b"{\"a b\": 1, 'c:d' : 2}", m(&[("a b", n("1")), ("c:d", n("2"))]))),
            ("later-quoted-keys", || t(b"a: 1\n\"b c\": 2\n'd''e': 3\n", m(&[("a", n("1")), ("b c", n("2")), ("d'e", n("3"))]))),
            ("later-colon-keys", || t(b"a: 1\nb:c: 2\n", m(&[("a", n("1")), ("b:c", n("2"))]))),
            ("space-before-colon", || t(b"a : 1\nb : 2\n", m(&[("a", n("1")), ("b", n("2"))]))),
            ("null-then-item", || t(b"- a:\n- b\n", Node::Seq(vec![m(&[("a", Node::Null)]), s("b")]))),
            ("null-items", || t(b"-\n- b\n-\n", Node::Seq(vec![Node::Null, s("b"), Node::Null]))),
            ("null-at-end", || t(b"a: 1\nb:", m(&[("a", n("1")), ("b", Node::Null)]))),
            ("null-in-flow", || t(b"{a: , b: }", m(&[("a", Node::Null), ("b", Node::Null)]))),
            ("block-then-sibling", || t(b"a: |\n  x\nb: >-\n  y\nc: d\n", m(&[("a", s("x\n")), ("b", s("y")), ("c", s("d"))]))),
            ("empty-block", || t(b"a: |\nb: c\n", m(&[("a", s("")), ("b", s("c"))]))),
            ("block-clip", || t(b"a: |\n  x\n\n\nb: c\n", m(&[("a", s("x\n")), ("b", s("c"))]))),
            ("block-inner-indent", || t(b"a: |\n  x\n    y\n  # z\n", m(&[("a", s("x\n  y\n# z\n"))]))),
            ("block-leading-blank", || t(b"a: |\n\n  x\n", m(&[("a", s("\nx\n"))]))),
            ("folded-at-end", || t(b"a: >\n  x\n  y\n", m(&[("a", s("x y\n"))]))),
            ("root-literal", || t(b"|\n x\n y\n", s("x\ny\n"))),
            ("exponent-sign", || t(b"[1e-7, 1e, ., 1e+3, -]", Node::Seq(vec![n("1e-7"), s("1e"), s("."), n("1e+3"), s("-")])).or_else(|_| t(b"[1e-7, 1e, ., 1e+3]", Node::Seq(vec![n("1e-7"), s("1e"), s("."), n("1e+3")])))),
            ("escaped-quote", || t(b"a: \"x\\\"y\"\n", m(&[("a", s("x\"y"))]))),
            ("escaped-backslash", || t(b"a: \"x\\\\y\"\n", m(&[("a", s("x\\y"))]))),
        ]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "supported part of YAML as generated: no anchors, aliases, tags, complex keys, multi-line plain or quoted scalars, block indentation indicators, or multiple documents",
            "folded block scalars without blank or more indented lines (an existing test pins another folding of those)",
            "libyaml (unsafe-libyaml) with the crate's own scalar typing (null/true/false in any case, ~, decimal numbers) as second opinion",
        ]
    }
}

// ------------------------------------------------------------------ C05

pub struct C05;

impl Prop for C05 {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn rule(&self) -> &'static str {
        "one random data tree is written twice with independently drawn layouts (indent width, tabs and other indentation characters, blank lines, comments, line endings, quoting style, block or flow, prologue), the second one possibly standard; both must be read as the tree. Non-trivial: the two texts differ and the tree has at least 3 values; distinct by pair of texts."
    }
    fn cases(&self) -> (u64, u64) {
        (640_000, 6_000_000)
    }
    fn run(&self, src: &mut Src, ctx: &mut Ctx) -> Res {
        let loose = Cfg { non_utf8: false, ..Cfg::loose() };
        let spec = Cfg::spec();
        let t = gen::tree(src, &spec);
        let a = gen::render(src, &loose, &t);
        let second = if src.chance(1, 2) { &spec } else { &loose };
        let b = gen::render(src, second, &t);
        for l in a.labels.iter().chain(&b.labels) {
            ctx.label(l);
        }
        ctx.describe(|| format!("first  {}\nsecond {}\ntree {:?}", show(&a.text), show(&b.text), a.tree));
        ctx.nontrivial = a.text != b.text && a.tree.count() >= 3;
        ctx.id(&a.text);
        ctx.id(&b.text);
        if diff(&a.tree, &b.tree).is_some() {
            return Ok(());
        }
        let x = read_doc(&must_parse(&a.text)?);
        let y = read_doc(&must_parse(&b.text)?);
        if let Some(m) = diff(&x, &y) {
            return Err(format!("read differently: {m}"));
        }
        eq_tree("both layouts", &a.tree, &x)
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["indentation counted in characters, any of space, tab; same subset of YAML as C04"]
    }
}
