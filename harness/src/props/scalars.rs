//! C11, C12, C13: numbers, quoted scalars, block scalars.

use super::common::*;
use super::edits::{edit_cfg, reads_back, start};
use crate::edit::{self, Num, Op, Val, Via};
use crate::engine::*;
use crate::ensure;
use crate::gen::{self, Cfg};
use crate::reference::*;
use nondestructive::yaml::{Document, Number, Value};

/// Put the text of a scalar somewhere in a document. Gives the document, the
/// place of the value, and the tree around it.
pub struct Place {
    pub text: Vec<u8>,
    pub path: Vec<usize>,
    pub tree: Node,
    pub flow: bool,
}

pub fn place(src: &mut Src, scalar: &[u8], node: Node) -> Place {
    let k = |s: &str| s.as_bytes().to_vec();
    let n1 = || Node::Num("1".into());
    let sep = *src.pick(&[" ", "  ", " \n   "]);
    let after = *src.pick(&["", " ", " # c", "\n", "\n\n# c\n", "\r\n"]);
    let next = *src.pick(&["\n", " # c\n", "  \n\n", "\r\n"]);
    let inner = *src.pick(&["", " ", " # c\n "]);
    let (pre, post, path, tree, flow): (String, String, Vec<usize>, Node, bool) = match src.below(9) {
        0 => (String::new(), after.into(), vec![], node, false),
        1 => (format!("a:{sep}"), after.into(), vec![0], Node::Map(vec![(k("a"), node)]), false),
        2 => (format!("a:{sep}"), format!("{next}b: 1{after}"), vec![0], Node::Map(vec![(k("a"), node), (k("b"), n1())]), false),
        3 => (format!("-{sep}"), after.into(), vec![0], Node::Seq(vec![node]), false),
        4 => (format!("- 1{next}-{sep}"), format!("{next}- 1{after}"), vec![1], Node::Seq(vec![n1(), node, n1()]), false),
        5 => (format!("[{inner}"), format!("{inner}]{after}"), vec![0], Node::Seq(vec![node]), true),
        6 => (format!("[1,{inner}"), format!("{inner},1]{after}"), vec![1], Node::Seq(vec![n1(), node, n1()]), true),
        7 => (format!("{{a: {inner}"), format!("{inner}, b: 1}}{after}"), vec![0], Node::Map(vec![(k("a"), node), (k("b"), n1())]), true),
        _ => (
            format!("a:\n  - b:{sep}"),
            format!("{next}    c: 1\nd: 1{after}"),
            vec![0, 0, 0],
            Node::Map(vec![(k("a"), Node::Seq(vec![Node::Map(vec![(k("b"), node), (k("c"), n1())])])), (k("d"), n1())]),
            false,
        ),
    };
    // a value on the next line has to be indented further
    let pre = if sep.contains('\n') && !flow { pre.replace(" \n   ", " \n        ") } else { pre };
    let mut text = pre.into_bytes();
    text.extend_from_slice(scalar);
    text.extend_from_slice(post.as_bytes());
    Place { text, path, tree, flow }
}

fn at<'a>(doc: &'a Document, path: &[usize]) -> Result<Value<'a>, String> {
    Ok(doc.value(edit::id_at(doc, path)?))
}

// ------------------------------------------------------------------ C11

pub struct C11;

/// Integer value of a text, if it is one and fits 129 bits.
pub fn int_of(s: &str) -> Option<Result<(bool, u128), ()>> {
    let (neg, d) = match s.strip_prefix('-') {
        Some(d) => (true, d),
        None => (false, s),
    };
    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let mut v: u128 = 0;
    for b in d.bytes() {
        let Some(n) = v.checked_mul(10).and_then(|v| v.checked_add(u128::from(b - b'0'))) else { return Some(Err(())) };
        v = n;
    }
    Some(Ok((neg, v)))
}

/// Every typed getter gives exactly what the text denotes.
fn typed(text: &str, v: &Value<'_>) -> Res {
    let Some(n) = v.as_number() else { return Err(format!("{text:?} is not a number")) };
    let Some(any) = v.as_any().into_number() else { return Err(format!("{text:?} is not a number")) };
    ensure!(n.as_raw() == text.as_bytes(), "the text of {text:?} is kept as {:?}", n.as_raw());
    let int = int_of(text);
    macro_rules! int {
        ($($m:ident $t:ty),*) => { $(
            let want: Option<$t> = match int {
                Some(Ok((false, x))) => <$t>::try_from(x).ok(),
                Some(Ok((true, 0))) => Some(0),
                Some(Ok((true, x))) => {
                    if x == 1u128 << 127 { <$t>::try_from(i128::MIN).ok() }
                    else { i128::try_from(x).ok().and_then(|x| <$t>::try_from(-x).ok()) }
                }
                _ => None,
            };
            // whether minus zero is an unsigned number is left open
            let open = matches!(int, Some(Ok((true, 0)))) && <$t>::MIN == 0;
            let f = |n: &Number<'_>| n.$m();
            for (how, got) in [("value", v.$m()), ("number", f(&n)), ("any", f(&any))] {
                ensure!(got == want || (open && got.is_none()), "{}() of {text:?} is {got:?} (through {how}), expected {want:?}", stringify!($m));
            }
        )* };
    }
    int!(as_u8 u8, as_i8 i8, as_u16 u16, as_i16 i16, as_u32 u32, as_i32 i32, as_u64 u64, as_i64 i64, as_u128 u128, as_i128 i128);
    macro_rules! float {
        ($($m:ident $t:ty),*) => { $(
            let want: $t = text.parse().map_err(|e| format!("{HARNESS_BUG}{text:?}: {e}"))?;
            for (how, got) in [("value", v.$m()), ("number", n.$m()), ("any", any.$m())] {
                ensure!(got.map(<$t>::to_bits) == Some(want.to_bits()), "{}() of {text:?} is {got:?} (through {how}), expected {want:?}", stringify!($m));
            }
        )* };
    }
    float!(as_f32 f32, as_f64 f64);
    Ok(())
}

/// Nothing typed answers for something which is not a number.
fn untyped(v: &Value<'_>) -> Res {
    let none = v.as_number().is_none()
        && v.as_any().into_number().is_none()
        && v.as_u8().is_none()
        && v.as_i8().is_none()
        && v.as_u16().is_none()
        && v.as_i16().is_none()
        && v.as_u32().is_none()
        && v.as_i32().is_none()
        && v.as_u64().is_none()
        && v.as_i64().is_none()
        && v.as_u128().is_none()
        && v.as_i128().is_none()
        && v.as_f32().is_none()
        && v.as_f64().is_none();
    ensure!(none, "a number getter answers for something which is not a number: {v:?}");
    Ok(())
}

/// The getter of the width that was set gives the very value.
fn own(n: &Num, v: &Value<'_>) -> Res {
    macro_rules! m {
        ($($v:ident $m:ident),*) => {
            match n {
                $( Num::$v(x) => ensure!(v.$m() == Some(*x), "{}() is {:?} after setting {x:?}", stringify!($m), v.$m()), )*
                Num::F32(x) => ensure!(v.as_f32().map(f32::to_bits) == Some(x.to_bits()), "as_f32() is {:?} after setting {x:?}", v.as_f32()),
                Num::F64(x) => ensure!(v.as_f64().map(f64::to_bits) == Some(x.to_bits()), "as_f64() is {:?} after setting {x:?}", v.as_f64()),
            }
        };
    }
    m!(U8 as_u8, I8 as_i8, U16 as_u16, I16 as_i16, U32 as_u32, I32 as_i32, U64 as_u64, I64 as_i64, U128 as_u128, I128 as_i128);
    Ok(())
}

/// One less in the last place of a decimal with a nonzero digit.
fn decrement(s: &str) -> String {
    let mut b = s.as_bytes().to_vec();
    for c in b.iter_mut().rev() {
        match c {
            b'0' => *c = b'9',
            b'1'..=b'9' => {
                *c -= 1;
                break;
            }
            _ => {}
        }
    }
    String::from_utf8(b).expect("digits")
}

/// The decimal which is exactly halfway between two floats next to each
/// other, or a hair above or below it: rounding twice or cutting digits off
/// gives another float.
pub fn halfway(src: &mut Src) -> String {
    // of `f32`, which a `f64` holds
    let mut s = if src.chance(1, 2) {
        // magnitudes which need no page of digits
        let e = src.range(127 - 40, 127 + 90) as u32;
        let bits = (e << 23) | (src.bits() as u32 & 0x7f_ffff);
        let (a, b) = (f64::from(f32::from_bits(bits)), f64::from(f32::from_bits(bits + 1)));
        format!("{:.80}", (a + b) / 2.0)
    } else {
        // of `f64`: whole numbers of 54 to 127 bits
        let up = src.range(0, 73) as u32;
        let n = (u128::from(src.bits() >> 11) | (1 << 52)) << 1 | 1;
        format!("{}.{:0<40}", n << up, "")
    };
    let cut = s.trim_end_matches('0').trim_end_matches('.').len();
    match src.below(3) {
        // exactly
        0 => s.truncate(cut),
        // above
        1 => {
            let n = src.range(0, 30);
            s.truncate(cut);
            if !s.contains('.') {
                s.push('.');
            }
            s.push_str(&"0".repeat(n));
            s.push('1');
        }
        // below
        _ => {
            let n = src.range(1, 30);
            s.truncate(cut);
            if !s.contains('.') {
                s.push('.');
            }
            s.push_str(&"0".repeat(n));
            s = decrement(&s);
        }
    }
    s
}

pub fn number_text(src: &mut Src) -> String {
    let mut s = match src.weighted(&[4, 3, 3, 3, 2, 3]) {
        5 => halfway(src),
        0 => gen::number(src),
        // around the limits of the widths
        1 => {
            let bits = *src.pick(&[7u32, 8, 15, 16, 31, 32, 63, 64, 127, 128]);
            let top = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
            let d = src.below(4);
            let s = match d {
                0 => top.to_string(),
                1 => top.checked_add(1).map_or_else(|| "340282366920938463463374607431768211456".into(), |v| v.to_string()),
                2 => top.checked_add(2).map_or_else(|| "340282366920938463463374607431768211457".into(), |v| v.to_string()),
                _ => (top - 1).to_string(),
            };
            if src.chance(1, 2) {
                format!("-{s}")
            } else {
                s
            }
        }
        // any digits
        2 => {
            let n = src.range(1, 45);
            (0..n).map(|_| char::from(b'0' + src.below(10) as u8)).collect()
        }
        // any float
        3 => {
            let digits = |src: &mut Src, lo: usize, hi: usize| -> String {
                let n = src.range(lo, hi);
                (0..n).map(|_| char::from(b'0' + src.below(10) as u8)).collect()
            };
            let a = digits(src, 0, 20);
            let lo = usize::from(a.is_empty());
            let b = digits(src, lo, 20);
            let e = match src.below(4) {
                0 => String::new(),
                1 => format!("e{}", src.below(330)),
                2 => format!("E-{}", src.below(345)),
                _ => format!("e+{}", src.below(40)),
            };
            format!("{a}.{b}{e}")
        }
        _ => format!("{}e{}", src.below(100_000), src.below(20)),
    };
    if src.chance(1, 8) {
        s = format!("{}{s}", ["0", "00", "-", "-0"][src.below(4) as usize]);
    }
    s
}

fn reading(src: &mut Src, ctx: &mut Ctx) -> Res {
    let text = if src.chance(1, 2) {
        number_text(src)
    } else {
        let n = src.range(1, 8);
        (0..n).map(|_| *src.pick(&['1', '0', '9', '-', '.', 'e', 'E', '+', 'x', '_', 'f', ':'])).collect()
    };
    if !gen::plain_shape_ok(text.as_bytes(), true) {
        return Ok(());
    }
    let is = is_number_text(text.as_bytes());
    let node = plain(text.as_bytes());
    let p = place(src, text.as_bytes(), node);
    ctx.describe(|| format!("number text {text:?} in {}", show(&p.text)));
    ctx.id(&p.text);
    ctx.nontrivial = true;
    ctx.label(if is { "number" } else { "look-alike" });
    let doc = must_parse(&p.text)?;
    eq_tree("read", &p.tree, &read_doc(&doc))?;
    let v = at(&doc, &p.path)?;
    if is {
        ensure!(v.to_string() == text, "the text of {text:?} is {:?}", v.to_string());
        typed(&text, &v)
    } else {
        untyped(&v)
    }
}

fn writing(src: &mut Src, ctx: &mut Ctx) -> Res {
    let cfg = Cfg { max_nodes: 8, max_depth: 3, tabs: false, ..Cfg::spec() };
    let d = gen::doc(src, &cfg);
    ctx.describe(|| format!("document {}", show(&d.text)));
    ctx.id(&d.text);
    let mut s = start(&d)?;
    for _ in 0..src.range(1, 3) {
        let n = edit::num(src);
        let v = Val::Num(n.clone());
        let all = edit::paths(&s.model, |_| true);
        let p = src.pick(&all).clone();
        let via = if src.chance(1, 2) { Via::Typed(v.clone()) } else { Via::Set(0, v.clone()) };
        let (op, target) = match (s.model.at(&p), src.chance(1, 2)) {
            (Node::Map(e), true) => {
                let k = gen::key(src, &cfg);
                let i = e.iter().position(|(o, _)| o == k.as_bytes()).unwrap_or(e.len());
                (Op::Insert(p.clone(), k.into_bytes(), via), [&p[..], &[i]].concat())
            }
            (Node::Seq(e), true) => (Op::Push(p.clone(), via), [&p[..], &[e.len()]].concat()),
            _ => (Op::Set(p.clone(), v.clone()), p),
        };
        ctx.describe(|| format!("edit {op:?}"));
        ctx.id(format!("{op:?}").as_bytes());
        ctx.label(op.name());
        edit::apply(&mut s.doc, &mut s.model, &op, src.chance(1, 2))?;
        let out = bytes_of(&s.doc);
        ctx.describe(|| format!("  -> {}", show(&out)));
        for (when, doc) in [("at once", &s.doc), ("after writing and reading", &must_parse(&out)?)] {
            let v = at(doc, &target).map_err(|e| format!("{when}: {e}"))?;
            own(&n, &v).map_err(|e| format!("{when}: {e}"))?;
            let text = v.to_string();
            typed(&text, &v).map_err(|e| format!("{when}: {e}"))?;
            if !n.is_float() {
                ensure!(text == n.text(), "{when}: {n:?} is written as {text:?}");
            }
        }
        reads_back(&s.doc, &s.model, true)?;
    }
    ctx.nontrivial = true;
    Ok(())
}

/// What is not finite is not turned into a number which is, by any setter.
fn not_finite() -> Res {
    let f64s = [f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -f64::NAN, f64::from_bits(0x7ff0_0000_0000_0001), f64::from_bits(u64::MAX)];
    let f32s = [f32::INFINITY, f32::NEG_INFINITY, f32::NAN, -f32::NAN, f32::from_bits(0x7f80_0001), f32::from_bits(u32::MAX)];
    let nums = f64s.into_iter().map(Num::F64).chain(f32s.into_iter().map(Num::F32));
    for n in nums {
        for (text, target, op) in [
            ("a: x\nb: [1, 2]\n", vec![0], Op::Set(vec![0], Val::Num(n.clone()))),
            ("a: x\nb: [1, 2]\n", vec![2], Op::Insert(vec![], b"c".to_vec(), Via::Typed(Val::Num(n.clone())))),
            ("a: x\nb: [1, 2]\n", vec![0], Op::Insert(vec![], b"a".to_vec(), Via::Typed(Val::Num(n.clone())))),
            ("a: x\nb: [1, 2]\n", vec![1, 2], Op::Push(vec![1], Via::Typed(Val::Num(n.clone())))),
            ("- x\n- {a: 1}\n", vec![2], Op::Push(vec![], Via::Typed(Val::Num(n.clone())))),
            ("- x\n- {a: 1}\n", vec![1, 1], Op::Insert(vec![1], b"c".to_vec(), Via::Set(0, Val::Num(n.clone())))),
        ] {
            let mut doc = must_parse(text.as_bytes())?;
            let mut model = read_doc(&doc);
            edit::apply(&mut doc, &mut model, &op, false)?;
            let out = bytes_of(&doc);
            for (when, doc) in [("at once", &doc), ("after writing and reading", &must_parse(&out)?)] {
                let v = at(doc, &target).map_err(|e| format!("{when}: {e}"))?;
                let got = [v.as_f64(), v.as_f32().map(f64::from), v.as_i128().map(|x| x as f64), v.as_u128().map(|x| x as f64)];
                for g in got.into_iter().flatten() {
                    ensure!(!g.is_finite(), "{when}: {n:?} ({op:?}) is offered as {g:?} in {}", show(&out));
                }
            }
        }
    }
    Ok(())
}

impl Prop for C11 {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn rule(&self) -> &'static str {
        "reading: number texts (edges of every width, any digits, any decimal and exponent) and look-alikes over the characters of numbers, at nine kinds of places of a document; every typed getter is compared with what std's parsers make of the text, and kind and source text are checked. Writing: numbers of all twelve widths (edges, random bits) set, inserted or pushed into rendered documents, compared bit for bit at once and after writing and reading, and with libyaml. Non-trivial: the text is a plain scalar; distinct by document and edits."
    }
    fn cases(&self) -> (u64, u64) {
        (1_500_000, 20_000_000)
    }
    fn run(&self, src: &mut Src, ctx: &mut Ctx) -> Res {
        if src.chance(1, 2) {
            writing(src, ctx)
        } else {
            reading(src, ctx)
        }
    }
    fn pinned(&self) -> Vec<(&'static str, fn() -> Res)> {
        fn t(text: &str) -> Res {
            let doc = must_parse(text.as_bytes())?;
            typed(text, &doc.as_ref())
        }
        fn set(n: Num) -> Res {
            let mut doc = must_parse(b"a: x\n")?;
            let op = Op::Set(vec![0], Val::Num(n.clone()));
            let mut model = read_doc(&doc);
            edit::apply(&mut doc, &mut model, &op, false)?;
            own(&n, &at(&doc, &[0])?)?;
            let again = must_parse(&bytes_of(&doc))?;
            own(&n, &at(&again, &[0])?)
        }
        vec![
            ("leading-point", || t(".5")),
            ("negative-leading-point", || t("-.5")),
            ("trailing-point", || t("5.")),
            ("point-and-exponent", || t("5.e3")),
            ("u128-max", || t("340282366920938463463374607431768211455")),
            ("i128-min", || t("-170141183460469231731687303715884105728")),
            ("i8-min", || t("-128")),
            ("too-large", || t("340282366920938463463374607431768211456")),
            ("wrapping-u8", || t("400")),
            ("wrapping-u32", || t("6000000000")),
            ("wrapping-u64", || t("30000000000000000000")),
            ("wrapping-i16", || t("-100000")),
            ("halfway-f32", || t("16777217")),
            ("subnormal", || t("5e-324")),
            ("look-alikes", || {
                let doc = must_parse(b"- 1.2.3\n- 1e\n- 0x1F\n- 1_000\n- +1\n- 1-2\n- .\n- e5\n- 1e+\n")?;
                for v in doc.as_ref().as_sequence().ok_or("sequence")? {
                    untyped(&v)?;
                }
                Ok(())
            }),
            ("set-f32", || set(Num::F32(0.1))),
            ("set-f64-small", || set(Num::F64(5e-324))),
            ("set-f64-large", || set(Num::F64(f64::MAX))),
            ("set-u128", || set(Num::U128(u128::MAX))),
            ("not-finite", not_finite),
            ("infinite-float", || set(Num::F64(f64::INFINITY))),
            ("negative-infinite-float", || set(Num::F32(f32::NEG_INFINITY))),
        ]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["std's integer and float parsing as reference", "whether minus zero is offered by unsigned getters is left open", "floats that are set are finite, except that no setter turns one which is not into a finite number"]
    }
}

// ------------------------------------------------------------------ C12

pub struct C12;

/// A quoted scalar and what it denotes.
fn quoted(src: &mut Src) -> (Vec<u8>, Vec<u8>) {
    let mut text = Vec::new();
    let mut value: Vec<u8> = Vec::new();
    let n = if src.chance(1, 4000) { src.range(250, 600) } else { src.len(0, 10, 4, 5) };
    let single = src.chance(1, 3);
    let q = if single { b'\'' } else { b'"' };
    text.push(q);
    for _ in 0..n {
        // it may become a key, which YAML limits to 1024 characters
        if text.len() > 950 {
            break;
        }
        match src.weighted(&[4, 4, 3, if single { 0 } else { 8 }]) {
            0 => {
                let s = (*src.pick(&[
                    "a", "b c", "1", "1.5", "true", "null", "~", ": ", " #", "# ", ", ", "[", "]", "{", "}", "- ", "? ", "|", ">", "&", "*", "!", "%", "@", "`", "---", "...", " ", "\t", "é", "日", "😀", "\u{a0}", "x:", ":",
                ]))
                .as_bytes();
                text.extend_from_slice(s);
                value.extend_from_slice(s);
            }
            1 => {
                let c = src.pick(gen::WORDS);
                text.extend_from_slice(c.as_bytes());
                value.extend_from_slice(c.as_bytes());
            }
            2 => {
                // the other quote, and this one
                if single {
                    match src.below(3) {
                        0 => {
                            text.extend_from_slice(b"''");
                            value.push(b'\'');
                        }
                        1 => {
                            text.push(b'"');
                            value.push(b'"');
                        }
                        _ => {
                            text.push(b'\\');
                            value.push(b'\\');
                        }
                    }
                } else {
                    text.push(b'\'');
                    value.push(b'\'');
                }
            }
            _ => {
                let c = match src.weighted(&[10, 4, 6]) {
                    0 => {
                        let (s, c) = *src.pick(&[
                            ("n", '\n'),
                            ("t", '\t'),
                            ("\"", '"'),
                            ("0", '\0'),
                            ("a", '\x07'),
                            ("b", '\x08'),
                            ("v", '\x0b'),
                            ("f", '\x0c'),
                            ("r", '\r'),
                            ("e", '\x1b'),
                        ]);
                        text.push(b'\\');
                        text.extend_from_slice(s.as_bytes());
                        c
                    }
                    1 => {
                        let u = src.below(256);
                        let s = if src.chance(1, 2) { format!("\\x{u:02x}") } else { format!("\\x{u:02X}") };
                        text.extend_from_slice(s.as_bytes());
                        char::from_u32(u).expect("below surrogates")
                    }
                    _ => {
                        let u = match src.below(3) {
                            0 => src.below(256),
                            1 => src.below(0xd800),
                            _ => 0xe000 + src.below(0x2000),
                        };
                        let s = if src.chance(1, 2) { format!("\\u{u:04x}") } else { format!("\\u{u:04X}") };
                        text.extend_from_slice(s.as_bytes());
                        char::from_u32(u).expect("not a surrogate")
                    }
                };
                value.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes());
            }
        }
    }
    text.push(q);
    (text, value)
}

fn quoted_case(p: &Place, want: &[u8], raw: &[u8]) -> Res {
    match libyaml(&p.text) {
        Ok(t) => eq_tree("oracle", &p.tree, &t).map_err(|e| format!("{HARNESS_BUG}{e}: {}", show(&p.text)))?,
        Err(e) => return Err(format!("{HARNESS_BUG}{e}: {}", show(&p.text))),
    }
    let doc = must_parse(&p.text)?;
    eq_tree("read", &p.tree, &read_doc(&doc))?;
    super::parse::getters(&doc.as_ref(), &p.tree)?;
    let v = at(&doc, &p.path)?;
    ensure!(v.as_bstr().map(|b| b.to_vec()).as_deref() == Some(want), "{} denotes {:?}, expected {}", show(raw), v.as_bstr(), show(want));
    untyped(&v)?;
    ensure!(v.to_string().as_bytes() == raw, "the text of the scalar is {:?}, expected {}", v.to_string(), show(raw));
    ensure!(bytes_of(&doc) == p.text, "the document does not round-trip");
    Ok(())
}

impl Prop for C12 {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn rule(&self) -> &'static str {
        "quoted scalars made of random pieces (words, words and numbers of other types, indicators, both quotes, every supported escape, \\x and \\u escapes over their whole range in both cases) with the text they denote known from the construction, at nine kinds of places of a document and as keys; libyaml must agree with the construction and the crate must read that text as a string. Non-trivial: the scalar has an escape or at least two pieces; distinct by document."
    }
    fn cases(&self) -> (u64, u64) {
        (2_400_000, 20_000_000)
    }
    fn run(&self, src: &mut Src, ctx: &mut Ctx) -> Res {
        let (raw, want) = quoted(src);
        ctx.nontrivial = raw.len() > 4;
        if raw[1..raw.len() - 1] != want[..] {
            ctx.label("escapes");
        }
        ctx.label(if raw[0] == b'"' { "double" } else { "single" });
        if src.chance(1, 4) {
            // as a key
            let sp = *src.pick(&["", " "]);
            let rest = || Node::Num("1".into());
            let other = (b"z9".to_vec(), rest());
            if want == b"z9" {
                return Ok(());
            }
            let (text, tree) = match src.below(4) {
                0 => (["".as_bytes(), &raw, sp.as_bytes(), b": 1\nz9: 1\n"].concat(), Node::Map(vec![(want.clone(), rest()), other])),
                1 => (["z9: 1\n".as_bytes(), &raw, sp.as_bytes(), b": 1\n"].concat(), Node::Map(vec![other, (want.clone(), rest())])),
                2 => (["{z9: 1, ".as_bytes(), &raw, sp.as_bytes(), b": 1}"].concat(), Node::Map(vec![other, (want.clone(), rest())])),
                _ => (["- ".as_bytes(), &raw, sp.as_bytes(), b": 1\n  z9: 1\n"].concat(), Node::Seq(vec![Node::Map(vec![(want.clone(), rest()), other])])),
            };
            ctx.label("key");
            ctx.describe(|| format!("key {} in {}", show(&raw), show(&text)));
            ctx.id(&text);
            match libyaml(&text) {
                Ok(t) => eq_tree("oracle", &tree, &t).map_err(|e| format!("{HARNESS_BUG}{e}: {}", show(&text)))?,
                Err(e) => return Err(format!("{HARNESS_BUG}{e}: {}", show(&text))),
            }
            let doc = must_parse(&text)?;
            eq_tree("read", &tree, &read_doc(&doc))?;
            ensure!(bytes_of(&doc) == text, "the document does not round-trip");
            return Ok(());
        }
        let p = place(src, &raw, Node::Str(want.clone()));
        ctx.describe(|| format!("scalar {} in {}", show(&raw), show(&p.text)));
        ctx.id(&p.text);
        quoted_case(&p, &want, &raw)
    }
    fn pinned(&self) -> Vec<(&'static str, fn() -> Res)> {
        fn t(raw: &str, want: &str) -> Res {
            let p = Place { text: [b"a: ".as_slice(), raw.as_bytes(), b"\n"].concat(), path: vec![0], tree: Node::Map(vec![(b"a".to_vec(), Node::str(want))]), flow: false };
            quoted_case(&p, want.as_bytes(), raw.as_bytes())
        }
        vec![
            ("escaped-quote", || t(r#""x\"y""#, "x\"y")),
            ("escaped-backslash", || t(r#""x\\y""#, "x\\y")),
            ("doubled-quote", || t("'it''s'", "it's")),
            ("only-doubled-quotes", || t("''''''", "''")),
            ("empty-double", || t(r#""""#, "")),
            ("hex", || t(r#""\x41\xe9\xFF""#, "Aéÿ")),
            ("unicode", || t(r#""\u0041\u65e5\uFFFD""#, "A日\u{fffd}")),
            ("controls", || t(r#""\0\a\b\t\n\v\f\r\e""#, "\0\x07\x08\t\n\x0b\x0c\r\x1b")),
            ("number-in-quotes", || t("'12'", "12")),
            ("null-in-quotes", || t("\"null\"", "null")),
            ("comment-in-quotes", || t("'a # b'", "a # b")),
        ]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["escapes the parser documents: \\0 \\a \\b \\t \\n \\v \\f \\r \\e \\\" \\xXX \\uXXXX; other YAML escapes and quoted scalars over several lines are not supported", "the escape for a backslash is a recorded finding"]
    }
}

// ------------------------------------------------------------------ C13

pub struct C13;

/// A document with block scalars all over.
fn block_doc(src: &mut Src, spec: bool) -> gen::Doc {
    let cfg = Cfg { max_nodes: 8, max_depth: 4, flow: false, odd_keys: false, tabs: !spec, ..if spec { Cfg::spec() } else { Cfg { non_utf8: false, ..Cfg::loose() } } };
    let mut t = gen::tree(src, &cfg);
    fn blocks(n: &mut Node, src: &mut Src) {
        match n {
            Node::Seq(v) => v.iter_mut().for_each(|c| blocks(c, src)),
            Node::Map(v) => v.iter_mut().for_each(|(_, c)| blocks(c, src)),
            n => {
                if src.chance(3, 4) {
                    *n = Node::Str(gen::lines(src).into_bytes());
                }
            }
        }
    }
    blocks(&mut t, src);
    gen::render(src, &cfg, &t)
}

fn block_val(src: &mut Src) -> Val {
    Val::Block(edit::block_parts(src), src.chance(1, 2), src.below(3) as u8)
}

fn block_edit(src: &mut Src, ctx: &mut Ctx) -> Res {
    let spec = src.chance(3, 4);
    let d = if src.chance(1, 2) { gen::doc(src, &edit_cfg(spec)) } else { block_doc(src, spec) };
    ctx.describe(|| format!("document {}", show(&d.text)));
    ctx.id(&d.text);
    let mut s = start(&d)?;
    for _ in 0..src.range(1, 4) {
        let v = block_val(src);
        let all = edit::paths(&s.model, |_| true);
        let colls = edit::paths(&s.model, Node::is_coll);
        let op = match src.below(4) {
            0 if !colls.is_empty() => {
                let p = src.pick(&colls).clone();
                let via = if src.chance(1, 2) { Via::Typed(v) } else { Via::Set(0, v) };
                match s.model.at(&p) {
                    Node::Map(_) => Op::Insert(p, gen::key(src, &Cfg::spec()).into_bytes(), via),
                    _ => Op::Push(p, via),
                }
            }
            1 => edit::op(src, &s.model),
            _ => Op::Set(src.pick(&all).clone(), v),
        };
        ctx.describe(|| format!("edit {op:?}"));
        ctx.id(format!("{op:?}").as_bytes());
        ctx.label(op.name());
        edit::apply(&mut s.doc, &mut s.model, &op, src.chance(1, 2))?;
        ctx.describe(|| format!("  -> {}", show(&bytes_of(&s.doc))));
        eq_tree("after an edit", &s.model, &read_doc(&s.doc))?;
        reads_back(&s.doc, &s.model, spec)?;
    }
    ctx.nontrivial = true;
    Ok(())
}

/// A block scalar line by line: blank lines, deeper lines, lines of nothing but
/// spaces, in any place. libyaml decides what it is.
fn block_lines(src: &mut Src, ctx: &mut Ctx) -> Res {
    let folded = src.chance(1, 3);
    let (lead, parent): (&str, usize) = *src.pick(&[("a: ", 0), ("- ", 0), ("", 0), ("k:\n  a: ", 2), ("- - ", 2), ("- a: ", 2), ("k:\n- ", 0), ("k:\n    - x: 1\n      a: ", 6)]);
    let eol = if src.chance(1, 8) { "\r\n" } else { "\n" };
    let mut t = lead.replace('\n', eol);
    t.push(if folded { '>' } else { '|' });
    t.push_str(src.pick(&["", "-", "+", "+", "", " # c", "- # x: |", "+   ", " "]));
    t.push_str(eol);
    let base = parent + if src.chance(1, 3000) { src.range(250, 300) } else { src.range(1, 4) };
    let pad = |n: usize| " ".repeat(n);
    let n = if src.chance(1, 3000) { src.range(250, 300) } else { src.range(0, 7) };
    // a folded scalar of plain lines, and blank ones at the end only
    let blank_from = if folded { src.range(0, n) } else { 0 };
    let mut begun = false;
    for i in 0..n {
        let word = *src.pick(&["x", "x y", "- x", "k: v", "# x", "'", "x:", "|", "x\ty", "é", "]", "---", "..."]);
        let mut pick = src.weighted(&[10, 3, 3, 2, 2, 1]);
        if folded {
            pick = if i < blank_from { 0 } else { 1 + src.below(2) as usize };
        }
        match pick {
            // the base
            0 => {
                begun = true;
                t.push_str(&pad(base));
                t.push_str(word);
            }
            // blank
            1 => {}
            2 => t.push_str(&pad(src.range(0, base))),
            // deeper
            3 if begun => {
                t.push_str(&pad(base + src.range(1, 3)));
                t.push_str(word);
            }
            // nothing but spaces, which are content
            4 if begun => t.push_str(&pad(base + src.range(1, 3))),
            // trailing spaces
            _ => {
                begun = true;
                t.push_str(&pad(base));
                t.push_str(word);
                t.push_str(&pad(src.range(1, 2)));
            }
        }
        t.push_str(eol);
    }
    // what follows
    let up = lead.rsplit('\n').next().unwrap_or("");
    let mut next = String::new();
    // NB: at the root this may be content
    if !lead.is_empty() && src.chance(1, 4) {
        next.push_str(&pad(src.range(0, parent)));
        next.push_str("# c");
        next.push_str(eol);
    }
    if src.chance(2, 3) {
        next.push_str(&match up {
            "a: " => "b: c".to_string(),
            "- " => "- c".to_string(),
            "  a: " => "  b: c".to_string(),
            "- - " => (*src.pick(&["  - c", "- c"])).to_string(),
            "- a: " => (*src.pick(&["  b: c", "- c"])).to_string(),
            "      a: " => (*src.pick(&["      b: c", "    - c", "b: c"])).to_string(),
            _ => String::new(),
        });
        if src.chance(3, 4) {
            next.push_str(eol);
        }
    }
    t.push_str(&next);
    ctx.describe(|| format!("document {t:?}"));
    ctx.id(t.as_bytes());
    ctx.label("lines");
    let Ok(want) = libyaml(t.as_bytes()) else {
        ctx.label("not-yaml");
        return Ok(());
    };
    ctx.nontrivial = true;
    let doc = must_parse(t.as_bytes())?;
    eq_tree("block scalar", &want, &read_doc(&doc))?;
    ensure!(bytes_of(&doc) == t.as_bytes(), "the document does not round-trip: {}", show(&bytes_of(&doc)));
    Ok(())
}

impl Prop for C13 {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn rule(&self) -> &'static str {
        "reading: trees whose scalars are mostly multi-line texts, rendered with literal and folded block scalars of every chomping, indentation and trailing blank lines, followed by siblings, comments or the end; compared with the generating tree and (standard layouts) libyaml. Writing: up to 4 edits, mostly set_block, insert_block and push_block with random parts, on such documents, compared with the text given at once and after reading back here and in libyaml. Non-trivial: the document has a block scalar or an edit sets one; distinct by document and edits."
    }
    fn cases(&self) -> (u64, u64) {
        (1_000_000, 12_000_000)
    }
    fn run(&self, src: &mut Src, ctx: &mut Ctx) -> Res {
        if src.chance(1, 2) {
            return block_edit(src, ctx);
        }
        if src.chance(1, 2) {
            return block_lines(src, ctx);
        }
        let spec = src.chance(3, 4);
        let d = block_doc(src, spec);
        ctx.describe(|| format!("document {}\ntree {:?}", show(&d.text), d.tree));
        ctx.id(&d.text);
        for l in &d.labels {
            ctx.label(l);
        }
        ctx.nontrivial = d.labels.iter().any(|l| matches!(*l, "literal" | "folded"));
        super::parse::reads_as(&d)?;
        let doc = must_parse(&d.text)?;
        ensure!(bytes_of(&doc) == d.text, "the document does not round-trip: {}", show(&bytes_of(&doc)));
        Ok(())
    }
    fn pinned(&self) -> Vec<(&'static str, fn() -> Res)> {
        fn t(b: &str, want: &[(&str, &str)]) -> Res {
            let want = Node::Map(want.iter().map(|(k, v)| (k.as_bytes().to_vec(), Node::str(v))).collect());
            let doc = must_parse(b.as_bytes())?;
            eq_tree("read", &want, &read_doc(&doc))?;
            match libyaml(b.as_bytes()) {
                Ok(t) => eq_tree("oracle", &want, &t).map_err(|e| format!("{HARNESS_BUG}{e}")),
                Err(e) => Err(format!("{HARNESS_BUG}{e}")),
            }
        }
        vec![
            ("clip", || t("a: |\n  x\n  y\n\n\nb: c\n", &[("a", "x\ny\n"), ("b", "c")])),
            ("strip", || t("a: |-\n  x\n  y\n\n\nb: c\n", &[("a", "x\ny"), ("b", "c")])),
            ("keep", || t("a: |+\n  x\n  y\n\n\nb: c\n", &[("a", "x\ny\n\n\n"), ("b", "c")])),
            ("fold-clip", || t("a: >\n  x\n  y\nb: c\n", &[("a", "x y\n"), ("b", "c")])),
            ("fold-strip", || t("a: >-\n  x\n  y\nb: c\n", &[("a", "x y"), ("b", "c")])),
            ("fold-keep", || t("a: >+\n  x\n  y\n\nb: c\n", &[("a", "x y\n\n"), ("b", "c")])),
            ("empty-then-sibling", || t("a: |\nb: c\n", &[("a", ""), ("b", "c")])),
            ("crlf", || t("a: |\r\n  x\r\n  y\r\nb: c\r\n", &[("a", "x\ny\n"), ("b", "c")])),
            ("header-comment", || t("a: | # c\n  x\nb: c\n", &[("a", "x\n"), ("b", "c")])),
            ("comment-after", || t("a: |\n  x\n# c\nb: c\n", &[("a", "x\n"), ("b", "c")])),
            ("deeper-lines", || t("a: |\n  x\n    y\n z: 1\n".replace(" z: 1", "b: c").as_str(), &[("a", "x\n  y\n"), ("b", "c")])),
            // NB: libyaml wants at least one space, YAML does not
            ("no-indentation", || {
                for (b, want) in [("|\nx\n y\nz\n", "x\n y\nz\n"), ("--- |\nx\n", "x\n"), (">-\nx\ny\n", "x y"), ("--- >\nx\ny\n\n", "x y\n"), ("|+\nx\n\n", "x\n\n")] {
                    let doc = must_parse(b.as_bytes())?;
                    eq_tree("read", &Node::str(want), &read_doc(&doc)).map_err(|e| format!("{b:?}: {e}"))?;
                    ensure!(bytes_of(&doc) == b.as_bytes(), "{b:?} does not round-trip");
                }
                Ok(())
            }),
            ("leading-blank", || t("a: |\n\n\n  x\nb: c\n", &[("a", "\n\nx\n"), ("b", "c")])),
        ]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["no indentation indicators; folded scalars without blank or more indented lines (an existing test pins another folding of those)"]
    }
}
