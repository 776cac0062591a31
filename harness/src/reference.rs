//! Reference data tree, the reference typing of plain scalars, the reading of a
//! `nondestructive` document into that tree, and an independent reading of the
//! same bytes through libyaml.

use bstr::ByteSlice;
use nondestructive::yaml::{self, Any};
use std::fmt;

#[derive(Clone, PartialEq)]
pub enum Node {
    Null,
    Bool(bool),
    /// A number, by its text.
    Num(String),
    Str(Vec<u8>),
    Seq(Vec<Node>),
    Map(Vec<(Vec<u8>, Node)>),
}

impl fmt::Debug for Node {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Node::Null => write!(f, "null"),
            Node::Bool(b) => write!(f, "{b}"),
            Node::Num(s) => write!(f, "#{s}"),
            Node::Str(s) => write!(f, "{:?}", s.as_bstr()),
            Node::Seq(v) => f.debug_list().entries(v).finish(),
            Node::Map(v) => {
                let mut m = f.debug_map();
                for (k, v) in v {
                    m.entry(&k.as_bstr(), v);
                }
                m.finish()
            }
        }
    }
}

impl Node {
    pub fn str(s: &str) -> Node {
        Node::Str(s.as_bytes().to_vec())
    }
    pub fn is_coll(&self) -> bool {
        matches!(self, Node::Seq(_) | Node::Map(_))
    }
    pub fn child(&self, i: usize) -> &Node {
        match self {
            Node::Seq(v) => &v[i],
            Node::Map(v) => &v[i].1,
            _ => panic!("child of scalar"),
        }
    }
    pub fn child_mut(&mut self, i: usize) -> &mut Node {
        match self {
            Node::Seq(v) => &mut v[i],
            Node::Map(v) => &mut v[i].1,
            _ => panic!("child of scalar"),
        }
    }
    pub fn len(&self) -> usize {
        match self {
            Node::Seq(v) => v.len(),
            Node::Map(v) => v.len(),
            _ => 0,
        }
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn at(&self, path: &[usize]) -> &Node {
        let mut n = self;
        for i in path {
            n = n.child(*i);
        }
        n
    }
    pub fn at_mut(&mut self, path: &[usize]) -> &mut Node {
        let mut n = self;
        for i in path {
            n = n.child_mut(*i);
        }
        n
    }
    pub fn walk(&self, f: &mut dyn FnMut(&[usize], &Node)) {
        fn go(n: &Node, path: &mut Vec<usize>, f: &mut dyn FnMut(&[usize], &Node)) {
            f(path, n);
            for i in 0..n.len() {
                path.push(i);
                go(n.child(i), path, f);
                path.pop();
            }
        }
        go(self, &mut Vec::new(), f);
    }
    pub fn count(&self) -> usize {
        let mut n = 0;
        self.walk(&mut |_, _| n += 1);
        n
    }
    pub fn depth(&self) -> usize {
        let mut n = 0;
        self.walk(&mut |p, _| n = n.max(p.len()));
        n
    }
}

/// Numbers are equal when written the same, or when they denote the same
/// integer, or the same float bit for bit.
pub fn num_eq(a: &str, b: &str) -> bool {
    if a == b {
        return true;
    }
    // a 32-bit float that was set: what counts is the value in that width
    let single = |x: &str, y: &str| x.strip_suffix("f32").is_some_and(|x| x.parse::<f32>().ok().map(f32::to_bits) == y.trim_end_matches("f32").parse::<f32>().ok().map(f32::to_bits));
    if single(a, b) || single(b, a) {
        return true;
    }
    if let (Ok(x), Ok(y)) = (a.parse::<i128>(), b.parse::<i128>()) {
        return x == y;
    }
    if let (Ok(x), Ok(y)) = (a.parse::<u128>(), b.parse::<u128>()) {
        return x == y;
    }
    let is_float = |s: &str| s.bytes().any(|b| matches!(b, b'.' | b'e' | b'E'));
    if is_float(a) && is_float(b) {
        if let (Ok(x), Ok(y)) = (a.parse::<f64>(), b.parse::<f64>()) {
            return x.to_bits() == y.to_bits();
        }
    }
    false
}

/// First difference between two trees, as text.
pub fn diff(want: &Node, got: &Node) -> Option<String> {
    fn go(a: &Node, b: &Node, path: &mut String) -> Option<String> {
        match (a, b) {
            (Node::Null, Node::Null) => None,
            (Node::Bool(x), Node::Bool(y)) if x == y => None,
            (Node::Num(x), Node::Num(y)) if num_eq(x, y) => None,
            (Node::Str(x), Node::Str(y)) if x == y => None,
            (Node::Seq(x), Node::Seq(y)) => {
                if x.len() != y.len() {
                    return Some(format!("at {path}: {} items expected, {} read: {a:?} vs {b:?}", x.len(), y.len()));
                }
                for (i, (p, q)) in x.iter().zip(y).enumerate() {
                    let l = path.len();
                    path.push_str(&format!("[{i}]"));
                    if let Some(d) = go(p, q, path) {
                        return Some(d);
                    }
                    path.truncate(l);
                }
                None
            }
            (Node::Map(x), Node::Map(y)) => {
                if x.len() != y.len() {
                    return Some(format!("at {path}: {} entries expected, {} read: {a:?} vs {b:?}", x.len(), y.len()));
                }
                for (i, ((k, p), (l, q))) in x.iter().zip(y).enumerate() {
                    if k != l {
                        return Some(format!("at {path}: key {i} is {:?}, expected {:?}", l.as_bstr(), k.as_bstr()));
                    }
                    let n = path.len();
                    path.push_str(&format!(".{}", k.as_bstr()));
                    if let Some(d) = go(p, q, path) {
                        return Some(d);
                    }
                    path.truncate(n);
                }
                None
            }
            _ => Some(format!("at {path}: expected {a:?}, read {b:?}")),
        }
    }
    go(want, got, &mut String::from("$"))
}

/// Empty block collections are written as nothing, which reads as null. Flow
/// ones are kept. `is_flow` is unknown to the plain tree, so both sides are
/// normalised: an empty collection and null are the same.
pub fn norm_empty(n: &Node) -> Node {
    match n {
        Node::Seq(v) if v.is_empty() => Node::Null,
        Node::Map(v) if v.is_empty() => Node::Null,
        Node::Seq(v) => Node::Seq(v.iter().map(norm_empty).collect()),
        Node::Map(v) => Node::Map(v.iter().map(|(k, v)| (k.clone(), norm_empty(v))).collect()),
        n => n.clone(),
    }
}

pub fn is_number_text(s: &[u8]) -> bool {
    // -?(digits[.digits*] | .digits)([eE][+-]?digits)?
    let mut i = 0;
    if s.first() == Some(&b'-') {
        i += 1;
    }
    let d0 = i;
    while i < s.len() && s[i].is_ascii_digit() {
        i += 1;
    }
    let int_digits = i - d0;
    let mut frac_digits = 0;
    if i < s.len() && s[i] == b'.' {
        i += 1;
        let f0 = i;
        while i < s.len() && s[i].is_ascii_digit() {
            i += 1;
        }
        frac_digits = i - f0;
    }
    if int_digits + frac_digits == 0 {
        return false;
    }
    if i < s.len() && (s[i] == b'e' || s[i] == b'E') {
        i += 1;
        if i < s.len() && (s[i] == b'+' || s[i] == b'-') {
            i += 1;
        }
        let e0 = i;
        while i < s.len() && s[i].is_ascii_digit() {
            i += 1;
        }
        if i == e0 {
            return false;
        }
    }
    i == s.len()
}

/// Data denoted by a plain (unquoted) scalar.
pub fn plain(s: &[u8]) -> Node {
    if s.is_empty() || s == b"~" || s.eq_ignore_ascii_case(b"null") {
        Node::Null
    } else if s.eq_ignore_ascii_case(b"true") {
        Node::Bool(true)
    } else if s.eq_ignore_ascii_case(b"false") {
        Node::Bool(false)
    } else if is_number_text(s) {
        Node::Num(String::from_utf8_lossy(s).into_owned())
    } else {
        Node::Str(s.to_vec())
    }
}

/// Read a document value through the public accessors.
pub fn read(v: &yaml::Value<'_>) -> Node {
    match v.as_any() {
        Any::Null => Node::Null,
        Any::Bool(b) => Node::Bool(b),
        Any::Number(n) => Node::Num(String::from_utf8_lossy(n.as_raw()).into_owned()),
        Any::String(s) => Node::Str(s.to_vec()),
        Any::Mapping(m) => Node::Map(m.iter().map(|(k, v)| (k.to_vec(), read(&v))).collect()),
        Any::Sequence(s) => Node::Seq(s.iter().map(|v| read(&v)).collect()),
        _ => Node::str("<raw>"),
    }
}

pub fn read_doc(d: &yaml::Document) -> Node {
    read(&d.as_ref())
}

pub fn bytes_of(d: &yaml::Document) -> Vec<u8> {
    let mut out = Vec::new();
    d.write_to(&mut out).expect("writing to memory");
    out
}

/// Parse with libyaml (a different implementation), single document.
pub fn libyaml(input: &[u8]) -> Result<Node, String> {
    libyaml_with(input, plain)
}

/// What a plain scalar denotes for readers which know the types of YAML's core
/// schema: some which are strings here are not for them.
pub fn plain_core(s: &[u8]) -> Node {
    let n = plain(s);
    let unsigned = s.strip_prefix(b"+").or(s.strip_prefix(b"-")).unwrap_or(s);
    let base = |p: &[u8], d: fn(&u8) -> bool| s.strip_prefix(p).is_some_and(|s| !s.is_empty() && s.iter().all(d));
    let typed = is_number_text(unsigned) && unsigned[0] != b'-'
        || base(b"0o", |b| (b'0'..=b'7').contains(b))
        || base(b"0x", u8::is_ascii_hexdigit)
        || matches!(unsigned, b".inf" | b".Inf" | b".INF")
        || matches!(s, b".nan" | b".NaN" | b".NAN");
    if typed && matches!(n, Node::Str(_)) {
        return Node::str("<a number for others>");
    }
    n
}

/// The same, with a choice of what plain scalars denote.
pub fn libyaml_with(input: &[u8], plain: fn(&[u8]) -> Node) -> Result<Node, String> {
    use std::mem::MaybeUninit;
    use unsafe_libyaml as y;

    struct P(Box<MaybeUninit<y::yaml_parser_t>>);
    impl Drop for P {
        fn drop(&mut self) {
            unsafe { y::yaml_parser_delete(self.0.as_mut_ptr()) }
        }
    }

    #[derive(Debug)]
    enum Ev {
        DocStart,
        DocEnd,
        StreamEnd,
        Scalar(Vec<u8>, bool),
        SeqStart,
        SeqEnd,
        MapStart,
        MapEnd,
        Other,
    }

    unsafe fn next(p: &mut P) -> Result<Ev, String> {
        let mut e = MaybeUninit::<y::yaml_event_t>::uninit();
        if y::yaml_parser_parse(p.0.as_mut_ptr(), e.as_mut_ptr()).fail {
            let parser = p.0.assume_init_ref();
            let prob = parser.problem;
            let msg = if prob.is_null() {
                "error".to_string()
            } else {
                std::ffi::CStr::from_ptr(prob.cast()).to_string_lossy().into_owned()
            };
            return Err(format!("libyaml: {msg} at line {} column {}", parser.problem_mark.line + 1, parser.problem_mark.column + 1));
        }
        let ev = e.assume_init_mut();
        let out = match ev.type_ {
            y::YAML_DOCUMENT_START_EVENT => Ev::DocStart,
            y::YAML_DOCUMENT_END_EVENT => Ev::DocEnd,
            y::YAML_STREAM_END_EVENT => Ev::StreamEnd,
            y::YAML_SCALAR_EVENT => {
                let s = &ev.data.scalar;
                let v = std::slice::from_raw_parts(s.value, s.length as usize).to_vec();
                let plain = s.style == y::YAML_PLAIN_SCALAR_STYLE;
                if !s.anchor.is_null() || !s.tag.is_null() {
                    Ev::Other
                } else {
                    Ev::Scalar(v, plain)
                }
            }
            y::YAML_SEQUENCE_START_EVENT => Ev::SeqStart,
            y::YAML_SEQUENCE_END_EVENT => Ev::SeqEnd,
            y::YAML_MAPPING_START_EVENT => Ev::MapStart,
            y::YAML_MAPPING_END_EVENT => Ev::MapEnd,
            y::YAML_STREAM_START_EVENT => {
                y::yaml_event_delete(ev);
                return next(p);
            }
            _ => Ev::Other,
        };
        y::yaml_event_delete(ev);
        Ok(out)
    }

    unsafe fn node(p: &mut P, ev: Ev, depth: usize, plain: fn(&[u8]) -> Node) -> Result<Node, String> {
        if depth > 2000 {
            return Err("libyaml: too deep".into());
        }
        match ev {
            Ev::Scalar(v, true) => Ok(plain(&v)),
            Ev::Scalar(v, false) => Ok(Node::Str(v)),
            Ev::SeqStart => {
                let mut out = Vec::new();
                loop {
                    match next(p)? {
                        Ev::SeqEnd => return Ok(Node::Seq(out)),
                        e => out.push(node(p, e, depth + 1, plain)?),
                    }
                }
            }
            Ev::MapStart => {
                let mut out = Vec::new();
                loop {
                    match next(p)? {
                        Ev::MapEnd => return Ok(Node::Map(out)),
                        Ev::Scalar(k, _) => {
                            let e = next(p)?;
                            out.push((k, node(p, e, depth + 1, plain)?));
                        }
                        _ => return Err("libyaml: complex key".into()),
                    }
                }
            }
            e => Err(format!("libyaml: unexpected event {e:?}")),
        }
    }

    unsafe {
        let mut p = P(Box::new(MaybeUninit::uninit()));
        if y::yaml_parser_initialize(p.0.as_mut_ptr()).fail {
            return Err("libyaml: init".into());
        }
        y::yaml_parser_set_encoding(p.0.as_mut_ptr(), y::YAML_UTF8_ENCODING);
        y::yaml_parser_set_input_string(p.0.as_mut_ptr(), input.as_ptr(), input.len() as u64);
        match next(&mut p)? {
            Ev::StreamEnd => return Ok(Node::Null),
            Ev::DocStart => {}
            e => return Err(format!("libyaml: unexpected {e:?}")),
        }
        let e = next(&mut p)?;
        let n = node(&mut p, e, 0, plain)?;
        match next(&mut p)? {
            Ev::DocEnd => {}
            e => return Err(format!("libyaml: unexpected {e:?}")),
        }
        match next(&mut p)? {
            Ev::StreamEnd => Ok(n),
            _ => Err("libyaml: more than one document".into()),
        }
    }
}

pub fn show(b: &[u8]) -> String {
    format!("{:?}", b.as_bstr())
}
