//! Choice-sequence generation engine: every random decision of a case is drawn
//! from a `Src`, which records it. Shrinking edits the recorded sequence and
//! replays it; a replay file is that sequence.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{self, AssertUnwindSafe};

/// SplitMix64 / xorshift generator, private to the engine.
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a ^ b.wrapping_mul(0x9E3779B97F4A7C15));
    r.next();
    r.next()
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for x in b {
        h ^= u64::from(*x);
        h = h.wrapping_mul(0x100000001b3);
    }
    mix(h, b.len() as u64)
}

/// Source of choices.
pub struct Src {
    pre: Vec<u32>,
    pos: usize,
    rng: Option<Rng>,
    pub rec: Vec<u32>,
    /// Every choice is also written here at once (for cases that kill the
    /// process).
    pub journal: Option<std::fs::File>,
}

const MAX_CHOICES: usize = 60_000;

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { pre: Vec::new(), pos: 0, rng: Some(Rng::new(seed)), rec: Vec::new(), journal: None }
    }
    pub fn replay(pre: Vec<u32>) -> Self {
        Src { pre, pos: 0, rng: None, rec: Vec::new(), journal: None }
    }
    /// A number in `0..n`. Zero is the simplest choice by convention.
    pub fn below(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let v = if self.pos < self.pre.len() {
            let v = self.pre[self.pos].min(n - 1);
            self.pos += 1;
            v
        } else if self.rec.len() >= MAX_CHOICES {
            0
        } else if let Some(r) = &mut self.rng {
            (r.next() % u64::from(n)) as u32
        } else {
            0
        };
        self.rec.push(v);
        if let Some(j) = &mut self.journal {
            let _ = std::io::Write::write_all(j, &v.to_le_bytes());
        }
        v
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u32) as usize
    }
    /// True with probability `num/den`; `false` is the simple choice.
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len() as u32) as usize;
        &xs[i]
    }
    /// Index drawn with the given weights; put the simplest first.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u32 = ws.iter().sum();
        let mut v = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        ws.len() - 1
    }
    /// A small length, geometric-ish, at most `max`.
    pub fn len(&mut self, lo: usize, max: usize, more: u32, den: u32) -> usize {
        let mut n = lo;
        while n < max && self.chance(more, den) {
            n += 1;
        }
        n
    }
    pub fn bits(&mut self) -> u64 {
        let a = u64::from(self.below(1 << 16));
        let b = u64::from(self.below(1 << 16));
        let c = u64::from(self.below(1 << 16));
        let d = u64::from(self.below(1 << 16));
        a | b << 16 | c << 32 | d << 48
    }
}

/// What a case reports besides passing or failing.
#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    /// Identity of the case (what was generated), for counting distinct ones.
    pub key: u64,
    pub labels: Vec<&'static str>,
    pub want_desc: bool,
    pub desc: String,
    pub desc_file: Option<std::path::PathBuf>,
}

impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn id(&mut self, b: &[u8]) {
        self.key = mix(self.key, hash_bytes(b));
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            if !self.desc.is_empty() {
                self.desc.push('\n');
            }
            let s = f();
            self.desc.push_str(&s);
            if let Some(f) = &self.desc_file {
                let _ = std::fs::write(f, &self.desc);
            }
        }
    }
}

/// Outcome of one case. `Err` is a violation of the property.
pub type Res = Result<(), String>;

pub trait Prop: Sync {
    fn id(&self) -> &'static str;
    /// How cases are made and what makes one non-trivial.
    fn rule(&self) -> &'static str;
    /// Cases per run for (quick, thorough).
    fn cases(&self) -> (u64, u64);
    fn run(&self, src: &mut Src, ctx: &mut Ctx) -> Res;
    /// Explicit inputs run through the same oracle before the generated ones.
    fn pinned(&self) -> Vec<(&'static str, fn() -> Res)> {
        Vec::new()
    }
    fn assumptions(&self) -> Vec<&'static str> {
        Vec::new()
    }
}

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC_MSG.with(|m| *m.borrow_mut() = Some(format!("panicked at {loc}: {msg}")));
    }));
}

/// Marker prefix: the harness itself is inconsistent (generator against
/// libyaml); never reported as a violation.
pub const HARNESS_BUG: &str = "HARNESS-BUG: ";

pub fn guarded(f: impl FnOnce() -> Res) -> Res {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => {
            let m = PANIC_MSG
                .with(|m| m.borrow_mut().take())
                .unwrap_or_else(|| "panic".into());
            if m.contains("src/gen.rs") || m.contains("src/reference.rs") || m.contains("src/engine.rs") {
                Err(format!("{HARNESS_BUG}{m}"))
            } else {
                Err(m)
            }
        }
    }
}

/// Whether it ran to its end.
pub fn survives(f: impl FnOnce()) -> bool {
    let ok = panic::catch_unwind(AssertUnwindSafe(f)).is_ok();
    PANIC_MSG.with(|m| *m.borrow_mut() = None);
    ok
}

pub fn run_case(p: &dyn Prop, src: &mut Src, ctx: &mut Ctx) -> Res {
    guarded(|| p.run(src, ctx))
}

pub fn case_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    mix(mix(seed, hash_bytes(prop.as_bytes())), idx)
}

pub struct Failure {
    pub choices: Vec<u32>,
    pub message: String,
    pub desc: String,
}

/// Delta-debug a failing choice sequence; `fails` says whether a candidate
/// still fails and returns the canonical recording of what it drew.
pub fn shrink_seq(
    start: Vec<u32>,
    max_attempts: usize,
    fails: &mut dyn FnMut(&[u32]) -> Option<Vec<u32>>,
) -> Vec<u32> {
    let mut best = start;
    let mut attempts = 0usize;
    fn better(a: &[u32], b: &[u32]) -> bool {
        a.len() < b.len() || (a.len() == b.len() && a < b)
    }
    macro_rules! attempt {
        ($cand:expr) => {{
            let cand = $cand;
            if attempts >= max_attempts {
                return best;
            }
            attempts += 1;
            match fails(&cand) {
                Some(rec) => {
                    let mut rec = rec;
                    while rec.last() == Some(&0) {
                        rec.pop();
                    }
                    let cand2 = if better(&rec, &cand) { rec } else { cand };
                    if better(&cand2, &best) {
                        best = cand2;
                        true
                    } else {
                        false
                    }
                }
                None => false,
            }
        }};
    }
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = best.len().max(1) / 2;
        while size >= 1 {
            let mut i = 0;
            while i + size <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + size);
                if !attempt!(c) {
                    i += size.max(1);
                }
            }
            size /= 2;
        }
        // zero chunks
        let mut size = 8usize;
        while size >= 1 {
            let mut i = 0;
            while i + size <= best.len() {
                if best[i..i + size].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..i + size].iter_mut().for_each(|x| *x = 0);
                    attempt!(c);
                }
                i += size;
            }
            size /= 2;
        }
        // minimise values
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            if v > 0 {
                for nv in [v / 2, v - 1] {
                    if i < best.len() && nv < best[i] {
                        let mut c = best.clone();
                        c[i] = nv;
                        attempt!(c);
                    }
                }
                // decrement together with deleting the next few choices
                for k in 1..=3usize {
                    if i < best.len() && best[i] > 0 && i + 1 + k <= best.len() {
                        let mut c = best.clone();
                        c[i] -= 1;
                        c.drain(i + 1..i + 1 + k);
                        attempt!(c);
                    }
                }
            }
            i += 1;
        }
        if best == before {
            return best;
        }
    }
}

pub fn shrink_failure(p: &dyn Prop, choices: Vec<u32>, max_attempts: usize) -> Failure {
    let mut fails = |c: &[u32]| -> Option<Vec<u32>> {
        let mut src = Src::replay(c.to_vec());
        let mut ctx = Ctx::default();
        match run_case(p, &mut src, &mut ctx) {
            Err(m) if !m.starts_with(HARNESS_BUG) => Some(src.rec),
            _ => None,
        }
    };
    let best = shrink_seq(choices, max_attempts, &mut fails);
    describe_failure(p, best)
}

pub fn describe_failure(p: &dyn Prop, choices: Vec<u32>) -> Failure {
    let mut src = Src::replay(choices.clone());
    let mut ctx = Ctx { want_desc: true, ..Ctx::default() };
    let message = run_case(p, &mut src, &mut ctx).err().unwrap_or_default();
    Failure { choices, message, desc: ctx.desc }
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}
