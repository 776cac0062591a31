//! Arbitrary and nearly-YAML byte strings.

use crate::engine::Src;
use crate::gen::{self, Cfg};

const TOKENS: &[&[u8]] = &[
    b"\n", b" ", b"  ", b"a", b"b: ", b"- ", b": ", b":", b"-", b",", b", ", b"[", b"]", b"{", b"}", b"'", b"\"", b"#", b" # c\n", b"\t", b"\r\n", b"\r", b"|\n", b">\n", b"|", b">",
    b"|-\n", b"|+\n", b">-\n", b">+\n", b"~", b"null", b"true", b"False", b"1", b"-1", b"1.5", b"1e", b"1e5", b".", b"e", b"0", b"---", b"--- ", b"---\n", b"...", b"%", b"%YAML 1.2\n", b"\\",
    b"\\n", b"\\x", b"\\x41", b"\\u", b"\\u00e9", b"\\ud800", b"\\\"", b"''", b"?", b"&a", b"*a", b"!t", b"\0", b"\xff", b"\xc3", b"\xe9", b"\x0c", b"\x0b", "é".as_bytes(), "\u{feff}".as_bytes(), "\u{2028}".as_bytes(), "\u{a0}".as_bytes(),
    b"\n  ", b"\n    ", b"\n- ", b"\n  - ", b"\na: ", b"\n  b: ", b"\n\n", b"key: value\n", b"- item\n", b"{a: 1, b: 2}", b"[1, 2]", b"a: |\n  x\n", b"\"q\"", b"'s'", b"@", b"`", b"<<: ",
];

const SMALL: &[u8] = b"a:- \n#,[]{}'\"|>\\1.e~\t\r\0%+\xff";

pub fn soup(src: &mut Src) -> Vec<u8> {
    let n = src.len(1, 60, 14, 15);
    let mut out = Vec::new();
    for _ in 0..n {
        out.extend_from_slice(*src.pick(TOKENS));
    }
    out
}

pub fn tiny(src: &mut Src) -> Vec<u8> {
    let n = src.range(0, 7);
    (0..n).map(|_| *src.pick(SMALL)).collect()
}

pub fn random(src: &mut Src) -> Vec<u8> {
    let n = src.range(0, 40);
    (0..n).map(|_| src.below(256) as u8).collect()
}

/// A few byte-level changes to a document.
pub fn mutate(src: &mut Src, mut d: Vec<u8>) -> Vec<u8> {
    let n = src.range(1, 4);
    for _ in 0..n {
        match src.below(8) {
            0 => {
                let at = src.range(0, d.len());
                let t = *src.pick(TOKENS);
                d.splice(at..at, t.iter().copied());
            }
            1 if !d.is_empty() => {
                let at = src.range(0, d.len() - 1);
                d.remove(at);
            }
            2 if !d.is_empty() => {
                let at = src.range(0, d.len() - 1);
                let l = src.range(1, 12).min(d.len() - at);
                d.drain(at..at + l);
            }
            3 if !d.is_empty() => {
                let at = src.range(0, d.len() - 1);
                d[at] = *src.pick(SMALL);
            }
            4 if !d.is_empty() => {
                let at = src.range(0, d.len());
                d.truncate(at);
            }
            5 if !d.is_empty() => {
                let a = src.range(0, d.len() - 1);
                let l = src.range(1, 30).min(d.len() - a);
                let piece = d[a..a + l].to_vec();
                let at = src.range(0, d.len());
                d.splice(at..at, piece);
            }
            6 => {
                let at = src.range(0, d.len());
                d.insert(at, src.below(256) as u8);
            }
            _ => {
                // change the indentation of one line
                let starts: Vec<usize> = std::iter::once(0).chain(d.iter().enumerate().filter(|(_, b)| **b == b'\n').map(|(i, _)| i + 1)).collect();
                let at = *src.pick(&starts);
                if src.chance(1, 2) {
                    d.splice(at..at, b"  ".iter().take(src.range(1, 2)).copied());
                } else {
                    for _ in 0..src.range(1, 2) {
                        if d.get(at) == Some(&b' ') {
                            d.remove(at);
                        }
                    }
                }
            }
        }
    }
    d
}

/// Deep or long repetition of a pattern.
pub fn repeated(src: &mut Src, max_depth: usize) -> Vec<u8> {
    let mut out = Vec::new();
    match src.below(7) {
        0 => {
            let n = src.range(1, max_depth);
            let p: &[u8] = src.pick(&[&b"["[..], b"{a: ", b"[[", b"- ", b"[{a: ", b"- - ", b"{\"a\": ", b"[\n"]);
            for _ in 0..n {
                out.extend_from_slice(p);
            }
            let q: &[u8] = src.pick(&[&b""[..], b"1", b"a", b"]", b"}", b"'", b"\""]);
            for _ in 0..src.range(0, n) {
                out.extend_from_slice(q);
            }
        }
        1 => {
            let n = src.range(1, max_depth / 2);
            for i in 0..n {
                out.resize(out.len() + i, b' ');
                out.extend_from_slice(src.pick(&[&b"a:\n"[..], b"-\n", b"'k':\n"]));
            }
            if src.chance(1, 2) {
                out.resize(out.len() + n, b' ');
                out.push(b'x');
            }
        }
        2 => {
            let n = src.range(1, 4000);
            let p = *src.pick(TOKENS);
            for _ in 0..n {
                out.extend_from_slice(p);
            }
            // nesting is bounded by the property
            let nest = out.iter().filter(|b| matches!(b, b'[' | b'{')).count();
            if nest > max_depth || p.contains(&b'-') || p == b"b: " {
                out.truncate(max_depth);
            }
        }
        3 => {
            let n = src.range(1, 2000);
            let t = soup_lines(src);
            for _ in 0..n {
                out.extend_from_slice(&t);
            }
        }
        4 => {
            out.push(b'[');
            let n = src.range(1, 3000);
            let p: &[u8] = src.pick(&[&b"a,"[..], b"1, ", b"'x' ,", b"a\n,", b" # c\n b,", b"{},", b"[],"]);
            for _ in 0..n {
                out.extend_from_slice(p);
            }
            if src.chance(3, 4) {
                out.push(b']');
            }
        }
        5 => {
            let n = src.range(1, 2000);
            out.extend_from_slice(src.pick(&[&b"a: |\n"[..], b"|\n", b">\n", b"- >-\n", b"a: |+\n"]));
            let p: &[u8] = src.pick(&[&b"  x\n"[..], b"\n", b"    \n", b" y\n\n", b"\r\n", b"  # z\n"]);
            for _ in 0..n {
                out.extend_from_slice(p);
            }
        }
        _ => {
            let n = src.range(1, 2000);
            out.push(*src.pick(b"\"'"));
            let p: &[u8] = src.pick(&[&b"\\n"[..], b"''", b"\\\\", b"x", b"\\u00e9", b"\n"]);
            for _ in 0..n {
                out.extend_from_slice(p);
            }
            if src.chance(1, 2) {
                out.push(*src.pick(b"\"'"));
            }
        }
    }
    out
}

/// A few hundred kilobytes of one thing, at no depth.
pub fn large(src: &mut Src) -> Vec<u8> {
    const UNITS: &[&str] = &[
        "- a\n", "a: b\n", "[a, b], ", "a: \"x y\"\n", " ", "\n", "# c\n", "'", "\"", "a", "- |\n  x\n", "a b ", "{a: b}, ", "\\", "\"\\x41\"", ",", "1", "1e", "\r", "é", "%", "%\n", "\t", "a:\n", "-\n",
        "  \n", "|", "|\n", ">", "> \n x\n\n", "a: |+\n\n\n", "- a: b\n  c: d\n", "a , ", "# c\n a, ", "\n - ", "\0", "\u{feff}", "- - a\n", ".", "-1", "a: 'x' # c\n", "a:\n  - b\n", "a:\n- b\n", "a : b\r\n",
    ];
    const LEAD: &[&str] = &["", "", "", "[", "{", "\"", "'", "|\n ", ">\n ", "- ", "a: ", "a:\n  ", "[[[[", "{a: ", "# ", "%", "---\n"];
    const TAIL: &[&str] = &["", "]", "}", "'", "\"", "\n", ": x", "x"];
    let unit = src.pick(UNITS).as_bytes();
    let mut out = src.pick(LEAD).as_bytes().to_vec();
    for _ in 0..src.range(100_000, 400_000) / unit.len() {
        out.extend_from_slice(unit);
    }
    out.extend_from_slice(src.pick(TAIL).as_bytes());
    out
}

fn soup_lines(src: &mut Src) -> Vec<u8> {
    let p: &[u8] = src.pick(&[
        &b"k: v\n"[..], b"- x\n", b"- a: 1\n  b: 2\n", b"k: [a, b]\n", b"k: {a: b}\n", b"# c\n", b"\n", b"k:\n  a: b\n", b"k: |\n  x\n", b"- - 1\n  - 2\n", b"k: 'a''b'\n", b"k:\n",
    ]);
    p.to_vec()
}

/// Any input for the parser, with a label for where it came from.
pub fn any_input(src: &mut Src, max_depth: usize) -> (Vec<u8>, &'static str) {
    match src.weighted(&[6, 10, 8, 8, 5, 2, 1]) {
        0 => (tiny(src), "tiny"),
        1 => (gen::doc(src, &Cfg::loose()).text, "loose-doc"),
        2 => {
            let cfg = if src.chance(1, 2) { Cfg::loose() } else { Cfg::spec() };
            let d = gen::doc(src, &cfg).text;
            (mutate(src, d), "mutated")
        }
        3 => (soup(src), "soup"),
        4 => (gen::doc(src, &Cfg::spec()).text, "spec-doc"),
        5 => (random(src), "random"),
        _ => (repeated(src, max_depth), "repeated"),
    }
}
