//! Generator of data trees and of YAML documents for them, with free choice of
//! style and layout. Every part of the produced text is located (spans), so
//! oracles can say which bytes belong to which value.

use crate::engine::Src;
use crate::reference::{is_number_text, plain, Node};

#[derive(Clone, Debug)]
pub struct Cfg {
    /// Only standard YAML: libyaml must read it the same way.
    pub spec: bool,
    pub max_depth: usize,
    pub max_nodes: usize,
    pub non_utf8: bool,
    pub comments: bool,
    pub blocks: bool,
    pub flow: bool,
    pub prologue: bool,
    pub crlf: bool,
    pub nulls: bool,
    /// Root must be a collection.
    pub coll_root: bool,
    /// Allow keys that are not safe to hand to the insert functions.
    pub odd_keys: bool,
    /// Tabs behind things, which libyaml only knows behind a value, so that
    /// nothing may be edited.
    pub tabs: bool,
    /// Now and then, the same key more than once in a mapping.
    pub dup: bool,
}

impl Cfg {
    pub fn spec() -> Self {
        Cfg {
            spec: true,
            max_depth: 5,
            max_nodes: 24,
            non_utf8: false,
            comments: true,
            blocks: true,
            flow: true,
            prologue: true,
            crlf: true,
            nulls: true,
            coll_root: false,
            odd_keys: true,
            tabs: true,
            dup: false,
        }
    }
    pub fn loose() -> Self {
        Cfg { spec: false, non_utf8: true, ..Cfg::spec() }
    }
}

// ---------------------------------------------------------------- data trees

pub const WORDS: &[&str] = &[
    "a", "b", "x", "foo", "bar", "baz", "name", "one", "two", "hello", "world", "path", "List", "value", "Z9", "k1", "deep", "node",
];

const ODD: &[&str] = &[
    "a#b", "a:b", "http://x.y/z?q=1", "it's", "say \"hi\"", "-x", "--flag", ".hidden", "1.2.3", "1e", "1-2", "12 monkeys", "x, y", "[x", "x]", "{x", "x}",
    "{{tpl}}", "a, b: c", "- item", "? q", "key: v", "a #b", "# no", "&anchor", "*alias", "!tag", "|", ">", "%dir", "@at", "`tick`", "~", "null", "Null",
    "true", "False", "yes", "no", "on", "1", "-1", "1.5", "0x1F", "+1", ".5", "-", ".", "...", "---", "--- x", "'", "''", "\"", "\\", "a\\b", "\\n", "", " ", "  lead",
    "trail ", "a  b", "é", "日本語", "emoji 😀", "ß:", "x:", ":x", ":", "::", "a: b: c", "<<", "=", "a=b", "50%", "$HOME", "a|b", "a>b", "~x", "nullx", "truefalse",
    "1_000", "1:30", "2001-12-14", "e5", "E", "1e5x", "0", "-0", "00", "∞", "\u{a0}nbsp", "\u{feff}bom", "\u{85}nel", "\u{2028}ls", "\u{2029}ps", "\u{7f}del", "\u{1}ctl", "tab\there", "\ttab", "cr\rx", "nul\0x",
    "\u{9f}c1", "\u{fffe}nc", "\u{10ffff}", "\u{e000}pua", "a\u{200b}b",
];

/// Arbitrary text for a string value (no multi-line bias).
pub fn text(src: &mut Src) -> String {
    match src.weighted(&[30, 12, 22, 10, 6, 4, 5, 3]) {
        7 => {
            // a keyword, or a slip of one
            let w = *src.pick(&["null", "true", "false", "~", "Null", "NULL", "True", "FALSE", "yes", "no", ".inf", ".nan"]);
            let mut s = near(src, w);
            if src.chance(1, 2) && !s.is_empty() {
                let at = src.below(s.chars().count() as u32) as usize;
                let c = (b'a' + src.below(26) as u8) as char;
                s = s.chars().enumerate().map(|(i, x)| if i == at { c } else { x }).collect();
            }
            s
        }
        0 => (*src.pick(WORDS)).to_string(),
        1 => {
            let n = src.range(2, 5);
            let mut out = String::new();
            for i in 0..n {
                if i > 0 {
                    out.push(' ');
                }
                out.push_str(src.pick(WORDS));
            }
            out
        }
        2 => (*src.pick(ODD)).to_string(),
        3 => {
            // a word with odd characters around or inside it
            let w = *src.pick(WORDS);
            let o = *src.pick(ODD);
            match src.below(4) {
                0 => format!("{w}{o}"),
                1 => format!("{o}{w}"),
                2 => format!("{w} {o}"),
                _ => format!("{w}{o}{w}"),
            }
        }
        4 => {
            let n = src.range(0, 8);
            (0..n).map(|_| any_char(src)).collect()
        }
        6 => almost_number(src),
        _ => {
            let n = src.range(0, 10);
            (0..n).map(|_| *src.pick(&[' ', 'a', '1', '-', ':', '#', ',', '\'', '"', '[', ']', '{', '}', '.', 'e', '!', '&', '*', '%', '|', '>', '?', '@', '~'])).collect()
        }
    }
}

/// Text close to that of a number; it might be one.
pub fn almost_number(src: &mut Src) -> String {
    const PARTS: &[&str] = &["1", "0", "25", ".", "e", "E", "+", "-", "e5", ".5", "1e5", "1.5", "-1", "_", "x", ":", " ", "e+", "E-3", "inf", "f"];
    match src.below(3) {
        0 => {
            let n = src.range(1, 5);
            (0..n).map(|_| *src.pick(PARTS)).collect()
        }
        1 => {
            let mut s = number(src);
            let at = src.below(s.len() as u32 + 1) as usize;
            s.insert_str(at, src.pick(PARTS));
            s
        }
        _ => {
            let mut s = number(src);
            let at = src.below(s.len() as u32) as usize;
            s.remove(at);
            s
        }
    }
}

pub fn any_char(src: &mut Src) -> char {
    match src.weighted(&[10, 6, 3, 3, 2, 1]) {
        0 => char::from(b'a' + src.below(26) as u8),
        1 => char::from(b' ' + src.below(95) as u8),
        2 => char::from(src.below(32) as u8),
        3 => char::from_u32(0x80 + src.below(0x780)).unwrap_or('x'),
        4 => char::from_u32(0x800 + src.below(0xf7ff)).unwrap_or('\u{fffd}'),
        _ => char::from_u32(0x10000 + src.below(0x10ffff - 0x10000 + 1)).unwrap_or('x'),
    }
}

/// Lines suitable for a literal block scalar.
pub fn lines(src: &mut Src) -> String {
    let n = src.range(1, 5);
    let mut out = String::new();
    if src.chance(1, 10) {
        out.push_str(&"\n".repeat(src.range(1, 2)));
    }
    for i in 0..n {
        if i > 0 {
            out.push('\n');
        }
        let first = i == 0;
        match src.weighted(&[12, 3, 3, 2, 2, 2, 1]) {
            0 => {
                for j in 0..src.range(1, 3) {
                    if j > 0 {
                        out.push(' ');
                    }
                    out.push_str(src.pick(WORDS));
                }
            }
            1 if !first => {}
            2 if !first => {
                for _ in 0..src.range(1, 4) {
                    out.push(' ');
                }
                out.push_str(src.pick(WORDS));
            }
            3 => {
                out.push_str(src.pick(&["# not a comment", "- x", "k: v", "'q", "\"q", "[", "}", "...x", "|", "> y", "a # b", "日本"]));
            }
            4 => {
                out.push_str(src.pick(WORDS));
                for _ in 0..src.range(1, 2) {
                    out.push(' ');
                }
            }
            5 => {
                out.push_str(src.pick(WORDS));
                out.push_str(": ");
                out.push_str(src.pick(WORDS));
            }
            _ => out.push_str(src.pick(WORDS)),
        }
    }
    for _ in 0..src.weighted(&[2, 4, 2, 1]) {
        out.push('\n');
    }
    out
}

pub const NUMS: &[&str] = &[
    "1", "0", "2", "42", "-1", "-7", "10", "255", "256", "-128", "-129", "127", "128", "65535", "65536", "32767", "-32768", "-32769", "4294967295",
    "4294967296", "2147483647", "-2147483648", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
    "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211455", "170141183460469231731687303715884105727",
    "-170141183460469231731687303715884105728", "1.5", "-1.5", "0.0", "-0.0", "3.14", "1e3", "1E3", "1.5e10", "-2.5e3", "0.1", "1.7976931348623157e308", "5e-324", "1e-7",
    "1.25e-3", "2.5E+4", ".5", "-.5", "1.", "123456789.125", "16777217", "9007199254740993", "0.30000000000000004", "1e22", "1e23",
];

pub fn number(src: &mut Src) -> String {
    match src.weighted(&[14, 4, 4]) {
        0 => (*src.pick(NUMS)).to_string(),
        1 => {
            let v = src.bits() as i64;
            let s = src.below(64);
            (v >> s).to_string()
        }
        _ => {
            let v = f64::from_bits(src.bits());
            if v.is_finite() {
                let s = format!("{v:e}");
                if is_number_text(s.as_bytes()) {
                    return s;
                }
            }
            "0.5".into()
        }
    }
}

pub fn string_data(src: &mut Src, cfg: &Cfg) -> Vec<u8> {
    if cfg.blocks && src.chance(1, 7) {
        return lines(src).into_bytes();
    }
    let mut s = text(src).into_bytes();
    if cfg.non_utf8 && src.chance(1, 12) {
        let bad: &[u8] = match src.below(4) {
            0 => b"\xff",
            1 => b"\x80z",
            2 => b"\xc3\x28",
            _ => b"\xf0\x9f",
        };
        let at = src.range(0, s.len());
        // keep char boundaries irrelevant: it is bytes anyway
        let tail = s.split_off(at);
        s.extend_from_slice(bad);
        s.extend(tail);
    }
    s
}

pub fn scalar(src: &mut Src, cfg: &Cfg) -> Node {
    match src.weighted(&[10, 6, 3, if cfg.nulls { 4 } else { 0 }]) {
        0 => Node::Str(string_data(src, cfg)),
        1 => Node::Num(number(src)),
        2 => Node::Bool(src.chance(1, 2)),
        _ => Node::Null,
    }
}

const KEYS_ODD: &[&str] = &[
    "a b", "a:b", "a#b", "it's", "1", "1.5", "-3", "true", "null", "~", "key with spaces", "é", "日本", "x-y_z.w", "a,b", "a[0]", "{k}", "[k", "- d", "# c", "'q'",
    "\"q\"", "a: b", "", " ", "?", "-", "-x", "!t", "&a", "*b", "%p", "@c", "|", ">", "<<", "=", "http://a/b", "a\"b", "a'b", "a\tb", "x:", ":x", "a # b", "12 34", "😀",
    "line\nbreak",
];

pub fn key(src: &mut Src, cfg: &Cfg) -> String {
    match src.weighted(&[20, 6, if cfg.odd_keys { 7 } else { 0 }]) {
        0 => (*src.pick(WORDS)).to_string(),
        1 => format!("{}{}", src.pick(WORDS), src.below(30)),
        _ => (*src.pick(KEYS_ODD)).to_string(),
    }
}

pub fn tree(src: &mut Src, cfg: &Cfg) -> Node {
    let mut budget = cfg.max_nodes;
    fn go(src: &mut Src, cfg: &Cfg, depth: usize, budget: &mut usize) -> Node {
        let coll = depth < cfg.max_depth && *budget > 1;
        let w_coll = match depth {
            0 => 40,
            1 => 9,
            2 => 7,
            _ => 5,
        };
        let w_scalar = if depth == 0 {
            if cfg.coll_root {
                0
            } else {
                4
            }
        } else {
            12
        };
        let k = if coll { src.weighted(&[w_scalar, w_coll, w_coll * 2 / 3]) } else { 0 };
        match k {
            0 => scalar(src, cfg),
            1 => {
                let lo = usize::from(depth == 0);
                let n = src.len(lo, 6, 2, 3);
                let mut out: Vec<(Vec<u8>, Node)> = Vec::new();
                let dup = cfg.dup && src.chance(1, 8);
                for _ in 0..n {
                    if *budget == 0 {
                        break;
                    }
                    *budget -= 1;
                    let mut k = key(src, cfg);
                    if dup && !out.is_empty() && src.chance(1, 2) {
                        let at = src.below(out.len() as u32) as usize;
                        let v = go(src, cfg, depth + 1, budget);
                        let k = out[at].0.clone();
                        out.push((k, v));
                        continue;
                    }
                    while out.iter().any(|(o, _)| o == k.as_bytes()) {
                        k = format!("{k}{}", out.len());
                    }
                    let v = go(src, cfg, depth + 1, budget);
                    out.push((k.into_bytes(), v));
                }
                Node::Map(out)
            }
            _ => {
                let lo = usize::from(depth == 0);
                let n = src.len(lo, 6, 2, 3);
                let mut out = Vec::new();
                for _ in 0..n {
                    if *budget == 0 {
                        break;
                    }
                    *budget -= 1;
                    out.push(go(src, cfg, depth + 1, budget));
                }
                Node::Seq(out)
            }
        }
    }
    let mut out = go(src, cfg, 0, &mut budget);
    if src.chance(1, 30) {
        twins(src, &mut out);
    }
    if src.chance(1, SCALED) {
        enlarge(src, cfg, &mut out);
    }
    out
}

/// One of how many trees has one part, and one of how many documents has
/// layout, of a size nobody writes by hand.
const SCALED: u32 = 600;

/// Text which could be mistaken for the given one.
pub fn near(src: &mut Src, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let at = src.below(c.len() as u32 + 1) as usize;
    match src.below(9) {
        0 => return s.to_string(),
        1 => c.insert(at, *src.pick(&['a', ' ', '1', '\'', '"', '.', '-', ':', '_', '\u{301}', '\u{200d}', '\0', '\n', '\t'])),
        2 => c.truncate(at),
        3 => {
            c.drain(..at);
        }
        4 => {
            if at < c.len() {
                c[at] = *src.pick(&['a', 'b', ' ', '0', 'é', '\'']);
            }
        }
        5 => {
            if at < c.len() {
                let x = c[at];
                c[at] = if x.is_ascii_uppercase() { x.to_ascii_lowercase() } else { x.to_ascii_uppercase() };
            }
        }
        6 => c.push(' '),
        7 => c.insert(0, ' '),
        _ => c.extend(c.clone()),
    }
    c.into_iter().collect()
}

/// Something to put into texts that makes them alike for long.
fn padding(src: &mut Src) -> String {
    let n = *src.pick(&[7usize, 15, 16, 31, 32, 63, 64, 127, 128, 239, 240, 255, 256, 257, 511, 512, 1024, 4096]);
    let unit = *src.pick(&["x", "ab", "lorem ipsum ", "é"]);
    let mut s: String = unit.chars().cycle().take(n).collect();
    if s.ends_with(' ') {
        s.pop();
        s.push('.');
    }
    s
}

/// Make some texts look like others.
fn twins(src: &mut Src, root: &mut Node) {
    /// Their texts and keys, in turn.
    fn walk(n: &mut Node, f: &mut dyn FnMut(&mut Vec<u8>, bool)) {
        match n {
            Node::Str(s) => f(s, false),
            Node::Seq(v) => v.iter_mut().for_each(|n| walk(n, f)),
            Node::Map(v) => {
                for i in 0..v.len() {
                    let mut k = v[i].0.clone();
                    f(&mut k, true);
                    if !v.iter().any(|(o, _)| *o == k) {
                        v[i].0 = k;
                    }
                    walk(&mut v[i].1, f);
                }
            }
            _ => {}
        }
    }
    let mut all: Vec<String> = Vec::new();
    walk(root, &mut |s, _| all.extend(String::from_utf8(s.clone())));
    if all.is_empty() {
        return;
    }
    let base = src.pick(&all).clone();
    let pad = if src.chance(1, 4) { padding(src) } else { String::new() };
    let at = src.below(3);
    walk(root, &mut |s, key| {
        if !src.chance(1, if key { 4 } else { 2 }) || s.contains(&b'\n') {
            return;
        }
        let t = near(src, &base);
        // A key has to fit in what YAML allows, 1024 characters, however it is
        // written.
        if key && (t.contains(['\n', '\0']) || pad.chars().count() + 2 * t.chars().count() > 150) {
            return;
        }
        *s = match at {
            0 => format!("{pad}{t}"),
            1 => format!("{t}{pad}"),
            _ => format!("{t}{pad}{t}"),
        }
        .into_bytes();
    });
}

/// A count past where eight bits end, or now and then sixteen.
fn many(src: &mut Src, huge: bool) -> usize {
    match src.weighted(&[12, 3, if huge { 1 } else { 0 }]) {
        0 => src.range(250, 300),
        1 => src.range(1000, 1100),
        _ => src.range(65_500, 65_600),
    }
}

/// Make one part of the tree much larger.
fn enlarge(src: &mut Src, cfg: &Cfg, root: &mut Node) {
    fn pick<'a>(src: &mut Src, n: &'a mut Node, stop: u32) -> &'a mut Node {
        let l = match n {
            Node::Seq(v) => v.len(),
            Node::Map(v) => v.len(),
            _ => 0,
        };
        if l == 0 || src.chance(1, stop) {
            return n;
        }
        let i = src.below(l as u32) as usize;
        match n {
            Node::Seq(v) => pick(src, &mut v[i], stop),
            Node::Map(v) => pick(src, &mut v[i].1, stop),
            _ => unreachable!(),
        }
    }
    match src.below(3) {
        // many entries
        0 => {
            let n = src.range(250, 300);
            let at = pick(src, root, 2);
            if let Node::Map(v) = at {
                for i in 0..n {
                    let k = format!("n{i}").into_bytes();
                    if !v.iter().any(|(o, _)| *o == k) {
                        v.push((k, scalar(src, cfg)));
                    }
                }
            } else {
                let mut v = if let Node::Seq(v) = at { std::mem::take(v) } else { Vec::new() };
                for _ in 0..n {
                    v.push(scalar(src, cfg));
                }
                *at = Node::Seq(v);
            }
        }
        // a long string
        1 => {
            let n = many(src, true);
            let s = match src.below(6) {
                0 => {
                    let w = *src.pick(WORDS);
                    let mut s = w.as_bytes().to_vec();
                    s.resize(s.len() + n.min(1000), b'\n');
                    s
                }
                1 => {
                    let w = *src.pick(WORDS);
                    let mut s = format!("{w}\n").repeat(n.min(1000)).into_bytes();
                    s.push(b'x');
                    s
                }
                _ => {
                    let unit = text(src).into_bytes();
                    let mut s = Vec::new();
                    while s.len() < n && !unit.is_empty() {
                        s.extend_from_slice(&unit);
                    }
                    s.extend_from_slice(text(src).as_bytes());
                    s
                }
            };
            match pick(src, root, 6) {
                Node::Seq(v) => v.push(Node::Str(s)),
                Node::Map(v) => {
                    if !v.iter().any(|(o, _)| o == b"long") {
                        v.push((b"long".to_vec(), Node::Str(s)));
                    }
                }
                at => *at = Node::Str(s),
            }
        }
        // deep down
        _ => {
            let n = src.range(20, 70);
            let at = pick(src, root, 3);
            for _ in 0..n {
                let v = std::mem::replace(at, Node::Null);
                *at = if src.chance(1, 2) { Node::Seq(vec![v]) } else { Node::Map(vec![(key(src, cfg).into_bytes(), v)]) };
            }
        }
    }
}

// ------------------------------------------------------------------ rendering

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Style {
    Empty,
    Plain,
    Single,
    Double,
    Literal,
    Folded,
    Block,
    Flow,
}

#[derive(Clone, Debug)]
pub struct ANode {
    pub span: (usize, usize),
    pub style: Style,
    /// Inside a flow collection (not: being one).
    pub in_flow: bool,
    pub kids: Vec<AKid>,
    /// Column (in characters) of the entries of a block collection.
    pub col: usize,
}

#[derive(Clone, Debug)]
pub struct AKid {
    pub key_span: Option<(usize, usize)>,
    /// Where the entry starts: the dash or the key.
    pub start: usize,
    pub val: ANode,
}

impl ANode {
    pub fn at(&self, path: &[usize]) -> &ANode {
        let mut n = self;
        for i in path {
            n = &n.kids[*i].val;
        }
        n
    }
}

#[derive(Clone, Debug)]
pub struct Doc {
    pub text: Vec<u8>,
    pub tree: Node,
    pub ann: ANode,
    pub labels: Vec<&'static str>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Tail {
    Normal,
    /// Ends in a block scalar: the next byte must be a line end.
    Block { keep: bool, needs_nl: bool },
}

struct R<'a, 'b> {
    src: &'a mut Src,
    cfg: &'b Cfg,
    out: Vec<u8>,
    eol: &'static [u8],
    labels: Vec<&'static str>,
    tricky: bool,
    /// What is much larger than usual now and then: 1 indentation, 2 lines
    /// between entries, 3 comments, 4 spacing within lines.
    scale: u32,
}

fn yaml_printable(c: char) -> bool {
    matches!(c, '\t' | ' '..='~' | '\u{a0}'..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..='\u{10ffff}')
        && !matches!(c, '\u{2028}' | '\u{2029}' | '\u{feff}')
}

fn printable(s: &[u8], spec: bool) -> bool {
    match std::str::from_utf8(s) {
        Ok(s) => s.chars().all(yaml_printable),
        Err(_) => {
            !spec
                && s.iter().all(|b| (*b >= 0x20 && *b != 0x7f) || *b == b'\t')
        }
    }
}

/// May `s` be written as a plain scalar that denotes the string `s`?
pub fn plain_ok(s: &[u8], flow: bool, spec: bool) -> bool {
    if s.is_empty() || !printable(s, spec) {
        return false;
    }
    if !matches!(plain(s), Node::Str(_)) {
        return false;
    }
    plain_shape_ok(s, flow)
        // spellings other YAML schemas give another type
        && !looks_typed(s)
}

fn looks_typed(s: &[u8]) -> bool {
    let t = if matches!(s[0], b'+' | b'-') { &s[1..] } else { s };
    is_number_text(t)
        || t.eq_ignore_ascii_case(b".inf")
        || t.eq_ignore_ascii_case(b".nan")
        || t.starts_with(b"0x")
        || t.starts_with(b"0o")
        || t.starts_with(b"0b")
}

/// Shape conditions of a plain scalar (also used for plain keys).
pub fn plain_shape_ok(s: &[u8], flow: bool) -> bool {
    if s.is_empty() {
        return false;
    }
    let ws = |b: u8| b == b' ' || b == b'\t';
    if ws(s[0]) || ws(s[s.len() - 1]) {
        return false;
    }
    if s.starts_with(b"---") || s.starts_with(b"...") {
        return false;
    }
    match s[0] {
        b'-' | b'?' | b':' => {
            if s.len() == 1 || ws(s[1]) || flow {
                return false;
            }
        }
        b',' | b'[' | b']' | b'{' | b'}' | b'#' | b'&' | b'*' | b'!' | b'|' | b'>' | b'\'' | b'"' | b'%' | b'@' | b'`' => return false,
        _ => {}
    }
    for (i, b) in s.iter().enumerate() {
        match b {
            b':' => match s.get(i + 1) {
                None => return false,
                Some(n) if ws(*n) => return false,
                Some(n) if flow && !n.is_ascii_alphanumeric() && *n != b'/' => return false,
                _ => {}
            },
            b'#' if i > 0 && ws(s[i - 1]) => return false,
            b',' | b'[' | b']' | b'{' | b'}' if flow => return false,
            b'\n' | b'\r' => return false,
            _ => {}
        }
    }
    true
}

pub fn single_ok(s: &[u8], spec: bool) -> bool {
    printable(s, spec)
}

pub fn double_ok(s: &[u8], spec: bool) -> bool {
    match std::str::from_utf8(s) {
        // without a four byte escape, what has to be escaped must be in the BMP
        Ok(s) => s.chars().all(|c| yaml_printable(c) || (c as u32) < 0x10000),
        Err(_) => printable(s, spec),
    }
}

fn literal_body_ok(s: &[u8], spec: bool) -> bool {
    let body = trim_nl(s);
    if body.is_empty() {
        return false;
    }
    let ls: Vec<&[u8]> = body.split(|b| *b == b'\n').collect();
    // NB: the first line with something in it decides what the indentation is
    let first = ls.iter().find(|l| !l.is_empty());
    if first.is_none_or(|l| matches!(l[0], b' ' | b'\t')) {
        return false;
    }
    for l in &ls {
        if !printable(l, spec) || l.contains(&b'\t') {
            return false;
        }
        // whitespace-only lines are ambiguous between content and layout
        if !l.is_empty() && l.iter().all(|b| *b == b' ') {
            return false;
        }
    }
    !ls[ls.len() - 1].is_empty()
}

fn trim_nl(s: &[u8]) -> &[u8] {
    let mut n = s.len();
    while n > 0 && s[n - 1] == b'\n' {
        n -= 1;
    }
    &s[..n]
}

/// Body words between which a folded scalar may break.
fn folded_body_ok(s: &[u8], spec: bool) -> bool {
    let body = trim_nl(s);
    !body.is_empty()
        && !body.contains(&b'\n')
        && printable(body, spec)
        && !body.contains(&b'\t')
        && body[0] != b' '
        && body[body.len() - 1] != b' '
}

impl R<'_, '_> {
    fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    fn put(&mut self, b: &[u8]) {
        self.out.extend_from_slice(b);
    }
    fn nl(&mut self) {
        let e = self.eol;
        self.put(e);
    }

    fn comment_text(&mut self) {
        self.put(b"#");
        let n = self.src.weighted(&[6, 3, 3, 2, 2, 1]);
        let s: &[u8] = match n {
            0 => b" note",
            1 => b"",
            2 => b" key: value",
            3 => b" - [x, {y: 'z\"",
            4 => "!é 日本 # more ]}".as_bytes(),
            _ => b"---",
        };
        self.put(s);
        if self.cfg.non_utf8 && self.src.chance(1, 10) {
            self.put(b" \xff\xfe");
            self.label("non-utf8");
        }
        if let Some(n) = self.many(3) {
            for _ in 0..n {
                self.put(b" c");
            }
        }
        self.label("comment");
    }

    /// How much there is of what is much larger here, now and then.
    fn many(&mut self, what: u32) -> Option<usize> {
        (self.scale == what && self.src.chance(1, 4)).then(|| many(self.src, what > 1))
    }

    /// Spaces (or other blanks) between a `:`/`-` and a value.
    fn sep(&mut self) {
        // libyaml knows no tabs behind a `-`
        let tab = !self.cfg.spec || self.out.last() == Some(&b':');
        if let Some(n) = self.many(4) {
            self.out.resize(self.out.len() + n, b' ');
        }
        match self.src.weighted(&[20, 3, 2, 1]) {
            0 => self.put(b" "),
            1 => self.put(b"  "),
            2 => self.put(b"   "),
            _ => {
                if tab {
                    self.put(b"\t");
                    self.label("tab-separator");
                } else {
                    self.put(b"    ");
                }
            }
        }
    }

    /// Blanks behind something, within its line.
    fn gap(&mut self) {
        // where libyaml knows them too
        let last = self.out.iter().rev().find(|b| **b != b' ');
        let tab = !self.cfg.spec || self.cfg.tabs && !matches!(last, None | Some(b'\n' | b'-'));
        if tab && self.src.chance(1, 6) {
            let b: &[u8] = self.src.pick::<&[u8]>(&[b"\t", b" \t", b"\t "]);
            self.put(b);
            self.label("trailing-tab");
        } else {
            let b: &[u8] = if self.src.chance(1, 4) { b"  " } else { b" " };
            self.put(b);
        }
    }

    /// Extra indentation below `ind`: at least `lo` characters.
    fn deeper(&mut self, ind: &[u8], lo: usize) -> Vec<u8> {
        let n = match self.src.weighted(&[10, 3, 2, 2, 2]) {
            0 => 2,
            1 => 4,
            2 => 1,
            3 => 3,
            _ => lo,
        }
        .max(lo);
        let n = self.many(1).map_or(n, |m| m.min(300));
        let mut v = ind.to_vec();
        for _ in 0..n {
            v.push(self.blank());
        }
        v
    }

    fn blank(&mut self) -> u8 {
        if self.cfg.spec {
            b' '
        } else {
            *self.src.pick(&[b' ', b' ', b'\t'])
        }
    }

    /// Blank and comment lines.
    fn filler(&mut self, blank_ok: bool, after_block: bool, ind: &[u8]) {
        let mut seen_comment = false;
        let mut n = self.src.weighted(&[16, 3, 2, 1]);
        if let Some(m) = self.many(2) {
            n = m.min(1100);
        }
        for _ in 0..n {
            if self.cfg.comments && self.src.chance(1, 2) {
                match self.src.below(3) {
                    0 => self.put(ind),
                    1 => {}
                    _ => {
                        if !after_block {
                            self.put(b"   ")
                        }
                    }
                }
                self.comment_text();
                self.nl();
                seen_comment = true;
                self.label("comment-line");
            } else if blank_ok || seen_comment {
                if !after_block && self.src.chance(1, 4) {
                    let b = [self.blank(), self.blank()];
                    self.put(&b);
                } else if after_block && self.src.chance(1, 6) {
                    self.put(ind);
                }
                self.nl();
                self.label("blank-line");
            }
        }
    }

    /// End the current line and move to a fresh one.
    fn end_line(&mut self, tail: Tail, ind: &[u8]) {
        match tail {
            Tail::Normal => {
                if self.src.chance(1, 12) {
                    self.gap();
                    self.label("trailing-space");
                }
                if self.cfg.comments && self.src.chance(1, 10) {
                    self.gap();
                    self.comment_text();
                    self.label("trailing-comment");
                }
                self.nl();
                self.filler(true, false, ind);
            }
            Tail::Block { keep, .. } => {
                self.nl();
                self.filler(!keep, true, ind);
            }
        }
    }

    fn single(&mut self, s: &[u8]) {
        self.put(b"'");
        for b in s {
            if *b == b'\'' {
                self.put(b"''");
            } else {
                self.put(&[*b]);
            }
        }
        self.put(b"'");
    }

    fn double(&mut self, s: &[u8]) {
        self.put(b"\"");
        match std::str::from_utf8(s) {
            Err(_) => {
                for b in s {
                    match b {
                        b'"' => self.put(b"\\x22"),
                        b'\\' => self.put(b"\\x5c"),
                        _ => self.put(&[*b]),
                    }
                }
            }
            Ok(s) => {
                for c in s.chars() {
                    let must = !yaml_printable(c) || c == '"' || c == '\\' || c == '\t';
                    if !must && !self.src.chance(1, 12) {
                        let mut buf = [0; 4];
                        let e = c.encode_utf8(&mut buf).as_bytes().to_vec();
                        self.put(&e);
                        continue;
                    }
                    let short: Option<&[u8]> = match c {
                        '\0' => Some(b"\\0"),
                        '\x07' => Some(b"\\a"),
                        '\x08' => Some(b"\\b"),
                        '\t' => Some(b"\\t"),
                        '\n' => Some(b"\\n"),
                        '\x0b' => Some(b"\\v"),
                        '\x0c' => Some(b"\\f"),
                        '\r' => Some(b"\\r"),
                        '\x1b' => Some(b"\\e"),
                        '"' => Some(b"\\\""),
                        _ => None,
                    };
                    self.label("escape");
                    let u = c as u32;
                    if u >= 0x10000 {
                        let mut buf = [0; 4];
                        let e = c.encode_utf8(&mut buf).as_bytes().to_vec();
                        self.put(&e);
                        continue;
                    }
                    let upper = self.src.chance(1, 2);
                    let form = self.src.below(3);
                    let hx = |n: usize| if upper { format!("{u:0n$X}") } else { format!("{u:0n$x}") };
                    match (short, form) {
                        (Some(s), 0) => self.put(s),
                        (_, 0 | 1) if u < 0x100 => {
                            let t = format!("\\x{}", hx(2));
                            self.put(t.as_bytes());
                        }
                        _ => {
                            let t = format!("\\u{}", hx(4));
                            self.put(t.as_bytes());
                        }
                    }
                }
            }
        }
        self.put(b"\"");
    }

    fn keyword(&mut self, k: &str) {
        let s = match self.src.weighted(&[8, 1, 1, if self.cfg.spec { 0 } else { 1 }]) {
            0 => k.to_string(),
            1 => k.to_uppercase(),
            2 => {
                let mut c = k.to_string();
                c[..1].make_ascii_uppercase();
                c
            }
            _ => {
                let mut c = k.to_string();
                c[1..2].make_ascii_uppercase();
                c
            }
        };
        self.put(s.as_bytes());
    }

    /// Styles a scalar may be written in, besides `Empty`.
    fn scalar_inline(&mut self, n: &Node, flow: bool) -> ANode {
        let start = self.out.len();
        let style = match n {
            Node::Null => {
                if self.src.chance(1, 2) {
                    self.put(b"~");
                } else {
                    self.keyword("null");
                }
                Style::Plain
            }
            Node::Bool(b) => {
                self.keyword(if *b { "true" } else { "false" });
                Style::Plain
            }
            Node::Num(s) => {
                self.put(s.as_bytes());
                Style::Plain
            }
            Node::Str(s) => {
                let p = plain_ok(s, flow, self.cfg.spec);
                let q1 = single_ok(s, self.cfg.spec);
                let q2 = double_ok(s, self.cfg.spec);
                if !p {
                    self.tricky = true;
                }
                match self.src.weighted(&[if p { 8 } else { 0 }, if q1 { 3 } else { 0 }, if q2 { 3 } else { 0 }]) {
                    0 if p => {
                        self.put(s);
                        Style::Plain
                    }
                    1 if q1 => {
                        self.single(s);
                        Style::Single
                    }
                    _ if q2 => {
                        self.double(s);
                        Style::Double
                    }
                    _ => {
                        // Not writable in this configuration (raw control bytes
                        // next to invalid UTF-8): callers avoid it.
                        panic!("unwritable string {:?}", s);
                    }
                }
            }
            _ => unreachable!(),
        };
        match style {
            Style::Single => self.label("single"),
            Style::Double => self.label("double"),
            _ => {}
        }
        ANode { span: (start, self.out.len()), style, in_flow: flow, kids: vec![], col: 0 }
    }

    fn key(&mut self, k: &[u8], flow: bool) -> (usize, usize) {
        let start = self.out.len();
        let p = printable(k, self.cfg.spec) && plain_shape_ok(k, flow) && !k.contains(&b'\t');
        let q1 = single_ok(k, self.cfg.spec);
        match self.src.weighted(&[if p { 10 } else { 0 }, if q1 { 1 } else { 0 }, 1]) {
            0 if p => self.put(k),
            1 if q1 => {
                self.label("quoted-key");
                self.single(k)
            }
            _ => {
                self.label("quoted-key");
                self.double(k)
            }
        }
        let end = self.out.len();
        if self.src.chance(1, 25) {
            let ws = *self.src.pick(&[&b" "[..], b" ", b"  ", b"\t", b" \t"]);
            self.put(ws);
            self.label("space-before-colon");
        }
        (start, end)
    }

    fn flow_ws(&mut self, multi: Option<&[u8]>, need: bool) {
        if let Some(n) = self.many(4) {
            self.out.resize(self.out.len() + n, b' ');
        }
        let k = self.src.weighted(&[if need { 0 } else { 10 }, 8, 2, if multi.is_some() { 2 } else { 0 }, if multi.is_some() && self.cfg.comments { 1 } else { 0 }]);
        match k {
            0 if !need => {}
            0 | 1 => self.put(b" "),
            2 if self.src.chance(1, 2) => self.gap(),
            2 => self.put(b"  "),
            3 => {
                self.nl();
                while self.src.chance(1, 10) {
                    self.nl();
                    self.label("flow-blank-line");
                }
                let m = multi.unwrap().to_vec();
                self.put(&m);
                self.label("flow-multiline");
            }
            _ => {
                let m = multi.unwrap().to_vec();
                self.gap();
                loop {
                    self.comment_text();
                    self.nl();
                    self.label("flow-comment");
                    self.put(&m);
                    if !self.src.chance(1, 8) {
                        break;
                    }
                }
            }
        }
    }

    fn flow_node(&mut self, n: &Node, inner: bool, multi: Option<&[u8]>) -> ANode {
        let start = self.out.len();
        match n {
            Node::Seq(v) => {
                self.label("flow-seq");
                self.put(b"[");
                self.flow_ws(multi, false);
                let mut kids = Vec::new();
                for (i, c) in v.iter().enumerate() {
                    let s = self.out.len();
                    let val = self.flow_node(c, true, multi);
                    kids.push(AKid { key_span: None, start: s, val });
                    let last = i + 1 == v.len();
                    self.flow_ws(multi, false);
                    if !last || self.src.chance(1, 8) {
                        if last {
                            self.label("trailing-comma");
                        }
                        self.put(b",");
                        self.flow_ws(multi, false);
                    }
                }
                self.put(b"]");
                ANode { span: (start, self.out.len()), style: Style::Flow, in_flow: inner, kids, col: 0 }
            }
            Node::Map(v) => {
                self.label("flow-map");
                self.put(b"{");
                self.flow_ws(multi, false);
                let mut kids = Vec::new();
                for (i, (k, c)) in v.iter().enumerate() {
                    let s = self.out.len();
                    let ks = self.key(k, true);
                    self.put(b":");
                    let val = if matches!(c, Node::Null) && self.src.chance(1, 2) {
                        let at = self.out.len();
                        self.label("flow-empty");
                        let quoted = matches!(self.out.get(ks.0), Some(b'\'' | b'"'));
                        // libyaml has no such empty values behind plain keys
                        let close = (quoted || !self.cfg.spec) && self.src.chance(2, 5);
                        if close {
                            self.label("flow-empty-close");
                        } else {
                            self.flow_ws(None, true);
                        }
                        ANode { span: (at, at), style: Style::Empty, in_flow: true, kids: vec![], col: 0 }
                    } else {
                        self.flow_ws(multi, true);
                        self.flow_node(c, true, multi)
                    };
                    kids.push(AKid { key_span: Some(ks), start: s, val });
                    let last = i + 1 == v.len();
                    self.flow_ws(multi, false);
                    if !last || self.src.chance(1, 8) {
                        if last {
                            self.label("trailing-comma");
                        }
                        self.put(b",");
                        self.flow_ws(multi, false);
                    }
                }
                self.put(b"}");
                ANode { span: (start, self.out.len()), style: Style::Flow, in_flow: inner, kids, col: 0 }
            }
            n => self.scalar_inline(n, inner),
        }
    }

    /// Write a block scalar for `s`, content indented at `ind` (already deeper
    /// than the parent). Returns None if `s` cannot be one.
    fn block_scalar(&mut self, s: &[u8], ind: &[u8]) -> Option<(ANode, Tail)> {
        let nothing = trim_nl(s).is_empty();
        let lit = nothing || literal_body_ok(s, self.cfg.spec);
        let fold = nothing || folded_body_ok(s, self.cfg.spec);
        if !lit && !fold {
            return None;
        }
        let folded = fold && (!lit || self.src.chance(1, 2));
        let start = self.out.len();
        let body = trim_nl(s).to_vec();
        let nls = s.len() - body.len();
        self.put(if folded { b">" } else { b"|" });
        let (chomp, keep): (&[u8], bool) = match nls {
            0 if nothing => (*self.src.pick::<&[u8]>(&[b"", b"-", b"+"]), false),
            0 => (b"-", false),
            1 if nothing => (b"+", true),
            1 => {
                if self.src.chance(1, 4) {
                    (b"+", true)
                } else {
                    (b"", false)
                }
            }
            _ => (b"+", true),
        };
        self.put(chomp);
        let keep = keep || chomp == b"+";
        if self.src.chance(1, 12) {
            self.gap();
            if self.cfg.comments {
                self.comment_text();
                self.label("block-header-comment");
            }
        }
        if nothing {
            // NB: its lines are all there is, and the last one ends with what ends the header
            let end = self.out.len();
            self.label("block-of-nothing");
            for _ in 0..nls {
                self.nl();
                self.label("keep-blank");
            }
            let a = ANode { span: (start, end), style: if folded { Style::Folded } else { Style::Literal }, in_flow: false, kids: vec![], col: 0 };
            return Some((a, Tail::Block { keep, needs_nl: nls > 0 }));
        }
        self.nl();
        if folded {
            self.label("folded");
            let mut line: Vec<u8> = Vec::new();
            let mut first = true;
            let mut i = 0;
            self.put(ind);
            while i < body.len() {
                let b = body[i];
                // a line may end with spaces, but not start with one
                let can_break = b == b' ' && i > 0 && i + 1 < body.len() && body[i + 1] != b' ';
                if can_break && self.src.chance(1, 2) {
                    self.put(&line);
                    line.clear();
                    self.nl();
                    self.put(ind);
                    first = false;
                } else {
                    line.push(b);
                }
                i += 1;
            }
            let _ = first;
            self.put(&line);
        } else {
            self.label("literal");
            for (i, l) in body.split(|b| *b == b'\n').enumerate() {
                if i > 0 {
                    self.nl();
                }
                if !l.is_empty() {
                    self.put(ind);
                    self.put(l);
                } else {
                    self.label("literal-blank");
                }
                if l.first() == Some(&b' ') {
                    self.label("literal-indented");
                }
            }
        }
        let end = self.out.len();
        for _ in 1..nls.max(1) {
            self.nl();
            self.label("keep-blank");
        }
        if keep {
            self.label("keep");
        }
        let a = ANode { span: (start, end), style: if folded { Style::Folded } else { Style::Literal }, in_flow: false, kids: vec![], col: 0 };
        Some((a, Tail::Block { keep, needs_nl: nls > 0 }))
    }

    /// Entries of a block collection. The cursor is where the first entry goes;
    /// further entries start on lines of their own at `ind`.
    fn block_entries(&mut self, n: &Node, ind: &[u8]) -> (ANode, Tail) {
        let start = self.out.len();
        let col = ind.len();
        let mut kids = Vec::new();
        let mut tail = Tail::Normal;
        match n {
            Node::Map(v) => {
                self.label("block-map");
                for (i, (k, c)) in v.iter().enumerate() {
                    if i > 0 {
                        self.end_line(tail, ind);
                        self.put(ind);
                    }
                    let s = self.out.len();
                    let ks = self.key(k, false);
                    self.put(b":");
                    let (val, t) = self.block_value(c, ind, true);
                    tail = t;
                    kids.push(AKid { key_span: Some(ks), start: s, val });
                }
            }
            Node::Seq(v) => {
                self.label("block-seq");
                for (i, c) in v.iter().enumerate() {
                    if i > 0 {
                        self.end_line(tail, ind);
                        self.put(ind);
                    }
                    let s = self.out.len();
                    self.put(b"-");
                    let (val, t) = self.block_value(c, ind, false);
                    tail = t;
                    kids.push(AKid { key_span: None, start: s, val });
                }
            }
            _ => unreachable!(),
        }
        let end = kids.last().map_or(self.out.len(), |k| k.val.span.1);
        (ANode { span: (start, end), style: Style::Block, in_flow: false, kids, col }, tail)
    }

    /// A value after `key:` (`in_map`) or `-`, in a block collection at `ind`.
    fn block_value(&mut self, n: &Node, ind: &[u8], in_map: bool) -> (ANode, Tail) {
        match n {
            Node::Null if self.src.chance(3, 5) => {
                let at = self.out.len();
                self.label("empty");
                (ANode { span: (at, at), style: Style::Empty, in_flow: false, kids: vec![], col: 0 }, Tail::Normal)
            }
            n if n.is_coll() && !n.is_empty() && !(self.cfg.flow && self.src.chance(1, 5)) => {
                let seq = matches!(n, Node::Seq(_));
                if !in_map && self.src.chance(3, 4) {
                    // compact: `- a: 1` or `- - x`
                    let before = self.out.len();
                    self.sep();
                    let w = self.out.len() - before;
                    let mut child = ind.to_vec();
                    child.push(if self.cfg.spec { b' ' } else { *self.src.pick(&[b' ', b'\t']) });
                    if self.cfg.spec {
                        child.resize(child.len() + w, b' ');
                    } else {
                        for _ in 0..w {
                            let b = self.blank();
                            child.push(b);
                        }
                    }
                    self.label("compact");
                    return self.block_entries(n, &child);
                }
                let lo = usize::from(!(in_map && seq));
                let child = if lo == 0 && self.src.chance(1, 2) {
                    self.label("same-indent-seq");
                    ind.to_vec()
                } else {
                    self.deeper(ind, 1)
                };
                self.end_line(Tail::Normal, &child);
                self.put(&child);
                self.block_entries(n, &child)
            }
            n if n.is_coll() => {
                let multi = self.deeper(ind, 1);
                if self.src.chance(1, 10) {
                    self.end_line(Tail::Normal, ind);
                    self.put(&multi);
                    self.label("next-line-value");
                } else {
                    self.sep();
                }
                (self.flow_node(n, false, Some(&multi)), Tail::Normal)
            }
            Node::Str(s) if self.cfg.blocks && (trim_nl(s).is_empty() || literal_body_ok(s, self.cfg.spec) || folded_body_ok(s, self.cfg.spec)) && {
                let multi = s.contains(&b'\n');
                self.src.chance(if multi { 5 } else { 1 }, 8)
            } =>
            {
                self.sep();
                let c = self.deeper(ind, 1);
                let s = s.clone();
                self.block_scalar(&s, &c).expect("checked")
            }
            n => {
                if self.src.chance(1, 14) {
                    let c = self.deeper(ind, 1);
                    self.end_line(Tail::Normal, ind);
                    self.put(&c);
                    self.label("next-line-value");
                } else {
                    self.sep();
                }
                (self.scalar_inline(n, false), Tail::Normal)
            }
        }
    }

    fn document(&mut self, n: &Node) -> ANode {
        let mut dashes = false;
        let mut newline_after = true;
        if self.cfg.prologue {
            self.filler(true, false, b"");
            if self.src.chance(1, 8) {
                if self.src.chance(1, 2) {
                    self.put(b"%YAML 1.1");
                    self.nl();
                    self.filler(true, false, b"");
                    self.label("directive");
                }
                self.put(b"---");
                dashes = true;
                self.label("document-start");
                newline_after = !self.src.chance(1, 3);
            }
        }
        let root_block = n.is_coll() && !n.is_empty() && !(self.cfg.flow && self.src.chance(1, 6));
        let mut ind: Vec<u8> = Vec::new();
        let k = self.src.weighted(&[12, 2, 2, 2]);
        let mut width = [0, 2, 4, 8][k];
        if let Some(n) = self.many(1) {
            width = n.min(300);
        }
        for _ in 0..width {
            let b = self.blank();
            ind.push(b);
        }
        if dashes {
            if newline_after || root_block {
                self.end_line(Tail::Normal, b"");
            } else {
                self.put(b" ");
                ind.clear();
            }
        }
        let (a, tail) = match n {
            n if root_block => {
                self.put(&ind);
                self.block_entries(n, &ind)
            }
            n if n.is_coll() => {
                self.put(&ind);
                let multi = self.deeper(&ind, 1);
                (self.flow_node(n, false, Some(&multi)), Tail::Normal)
            }
            Node::Str(s) if self.cfg.blocks && (trim_nl(s).is_empty() || literal_body_ok(s, self.cfg.spec) || folded_body_ok(s, self.cfg.spec)) && self.src.chance(1, 3) => {
                self.put(&ind);
                let c = self.deeper(&ind, 1);
                let s = s.clone();
                self.label("root-block-scalar");
                self.block_scalar(&s, &c).expect("checked")
            }
            Node::Null if self.src.chance(1, 3) => {
                let at = self.out.len();
                self.label("empty-root");
                (ANode { span: (at, at), style: Style::Empty, in_flow: false, kids: vec![], col: 0 }, Tail::Normal)
            }
            n => {
                self.put(&ind);
                (self.scalar_inline(n, false), Tail::Normal)
            }
        };
        // epilogue
        match tail {
            // NB: at the root, text without indentation might be a part of it
            Tail::Block { keep, needs_nl } if matches!(n, Node::Str(s) if trim_nl(s).is_empty()) => {
                if needs_nl || self.src.chance(2, 3) {
                    self.nl();
                    while !keep && self.src.chance(1, 4) {
                        self.nl();
                    }
                }
            }
            Tail::Block { needs_nl: true, .. } => {
                self.end_line(tail, b"");
            }
            _ => {
                if self.src.chance(2, 3) {
                    self.end_line(tail, b"");
                }
            }
        }
        if matches!(a.style, Style::Empty) || !self.src.chance(1, 10) || matches!(tail, Tail::Block { .. }) {
            return a;
        }
        // whitespace without a line end at the very end
        self.put(b"  ");
        a
    }
}

/// Make sure every string can be written in some style under `cfg`.
fn writable(n: &mut Node, spec: bool) {
    match n {
        Node::Str(s) => {
            if !double_ok(s, spec) && !single_ok(s, spec) {
                s.retain(|b| *b >= 0x20 && *b < 0x7f);
            }
        }
        Node::Seq(v) => v.iter_mut().for_each(|c| writable(c, spec)),
        Node::Map(v) => v.iter_mut().for_each(|(_, c)| writable(c, spec)),
        _ => {}
    }
}

/// Render `n` as a document.
pub fn render(src: &mut Src, cfg: &Cfg, n: &Node) -> Doc {
    let mut n = n.clone();
    writable(&mut n, cfg.spec);
    let eol: &'static [u8] = if cfg.crlf && src.chance(1, 10) { b"\r\n" } else { b"\n" };
    let scale = if src.chance(1, SCALED) { src.range(1, 4) as u32 } else { 0 };
    let mut r = R { src, cfg, out: Vec::new(), eol, labels: Vec::new(), tricky: false, scale };
    if scale > 0 {
        r.label("large-layout");
    }
    if eol.len() == 2 {
        r.label("crlf");
    }
    let ann = r.document(&n);
    let text = std::mem::take(&mut r.out);
    let labels = std::mem::take(&mut r.labels);
    Doc { text, tree: n, ann, labels }
}

pub fn doc(src: &mut Src, cfg: &Cfg) -> Doc {
    let t = tree(src, cfg);
    render(src, cfg, &t)
}
