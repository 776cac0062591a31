//! Command line: runs the cases of a property over worker processes, confirms
//! and shrinks failures, writes the evidence file.

use crate::engine::*;
use crate::props;
use std::collections::BTreeMap;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

const SHARDS: u64 = 8;
/// CPU seconds one case may take before it counts as not terminating. Cases
/// take micro- to milliseconds.
const HANG_CPU: f64 = 15.0;
const EXIT_HANG: i32 = 77;
const EXIT_FAIL: i32 = 1;

static CASE: AtomicU64 = AtomicU64::new(u64::MAX);
static TICK: AtomicU64 = AtomicU64::new(0);

fn cpu_time() -> f64 {
    unsafe {
        let mut u: libc::rusage = std::mem::zeroed();
        libc::getrusage(libc::RUSAGE_SELF, &mut u);
        let t = |x: libc::timeval| x.tv_sec as f64 + x.tv_usec as f64 / 1e6;
        t(u.ru_utime) + t(u.ru_stime)
    }
}

/// End the process when one case uses too much CPU time.
fn watchdog(limit: f64) {
    std::thread::spawn(move || {
        let mut last = u64::MAX;
        let mut base = cpu_time();
        loop {
            std::thread::sleep(Duration::from_millis(100));
            let t = TICK.load(Ordering::Relaxed);
            let now = cpu_time();
            if t != last {
                last = t;
                base = now;
            } else if now - base > limit {
                unsafe { libc::_exit(EXIT_HANG) }
            }
        }
    });
}

pub fn tick() {
    TICK.fetch_add(1, Ordering::Relaxed);
}

fn limit_memory(bytes: u64) {
    unsafe {
        let r = libc::rlimit { rlim_cur: bytes, rlim_max: bytes };
        libc::setrlimit(libc::RLIMIT_AS, &r);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
}

fn with_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(32 << 20).spawn(f).expect("thread").join().expect("worker thread")
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn arg<'a>(args: &'a [String], name: &str) -> Option<&'a str> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).map(String::as_str)
}

fn die(msg: &str) -> ! {
    eprintln!("harness: {msg}");
    println!("ERROR {msg}");
    std::process::exit(2)
}

pub fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    install_panic_hook();
    match args.first().map(String::as_str) {
        Some("check") => check(&args[1..]),
        Some("worker") => worker(&args[1..]),
        Some("case") => one_case(&args[1..]),
        Some("choices") => one_choices(&args[1..]),
        Some("pinned") => one_pinned(&args[1..]),
        Some("replay") => replay(&args[1..]),
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id());
            }
        }
        Some("deep") => deep(&args[1]),
        Some("gencheck") => props::gencheck(&args[1..]),
        Some("dump") => props::dump(&args[1..]),
        _ => die("usage: harness check ID | replay FILE | list"),
    }
}

/// Parse deep nesting; meant to be run in a process of its own.
fn deep(unit: &str) {
    let text = unit.repeat(100_000);
    let ok = std::thread::spawn(move || nondestructive::yaml::from_slice(&text).map(|d| d.to_string().len()).is_ok()).join();
    println!("{ok:?}");
}

/// Run this program again, which has to end well.
pub fn in_child(args: &[&str]) -> Result<(), String> {
    let out = std::process::Command::new(exe()).args(args).stdin(std::process::Stdio::null()).output().map_err(|e| format!("{HARNESS_BUG}{e}"))?;
    if out.status.success() {
        return Ok(());
    }
    let first = String::from_utf8_lossy(&out.stderr).lines().find(|l| l.contains("overflow") || l.contains("panic")).unwrap_or_default().to_string();
    Err(format!("{args:?} in a process of its own: {}: {first}", out.status))
}

fn prop(id: &str) -> &'static dyn Prop {
    props::all().into_iter().find(|p| p.id() == id).unwrap_or_else(|| die(&format!("unknown property {id}")))
}

// ------------------------------------------------------------------ worker

#[derive(serde::Serialize, serde::Deserialize)]
struct ReplayFile {
    property: String,
    choices: Option<Vec<u32>>,
    pinned: Option<String>,
    message: String,
    case: String,
}

fn write_replay(path: &Path, r: &ReplayFile) {
    std::fs::write(path, serde_json::to_string_pretty(r).expect("json")).expect("write replay");
}

fn worker(a: &[String]) {
    let id = a[0].clone();
    let seed: u64 = a[1].parse().expect("seed");
    let shard: u64 = a[2].parse().expect("shard");
    let total: u64 = a[3].parse().expect("total");
    let dir = PathBuf::from(&a[4]);
    limit_memory(6 << 30);
    watchdog(HANG_CPU);
    let code = with_stack(move || {
        let p = prop(&id);
        use std::os::unix::fs::FileExt;
        let progress = std::fs::File::create(dir.join(format!("progress{shard}"))).expect("progress");
        let mut st = Stats::default();
        let mut idx = shard;
        while idx < total {
            CASE.store(idx, Ordering::Relaxed);
            tick();
            progress.write_at(&idx.to_le_bytes(), 0).expect("progress");
            let mut src = Src::random(case_seed(seed, p.id(), idx));
            let mut ctx = Ctx::default();
            let r = run_case(p, &mut src, &mut ctx);
            if let Err(m) = r {
                if m.starts_with(HARNESS_BUG) {
                    println!("case {idx}: {m}");
                    return 2;
                }
                let rec = src.rec;
                let path = dir.join(format!("fail{shard}.json"));
                let f = describe_failure(p, rec.clone());
                write_replay(&path, &ReplayFile { property: p.id().into(), choices: Some(rec.clone()), pinned: None, message: m.clone(), case: f.desc });
                let f = shrink_failure(p, rec.clone(), 4000);
                if !f.message.is_empty() {
                    write_replay(&path, &ReplayFile { property: p.id().into(), choices: Some(f.choices), pinned: None, message: f.message, case: f.desc });
                }
                return EXIT_FAIL;
            }
            st.evaluations += 1;
            for l in &ctx.labels {
                *st.labels.entry((*l).to_string()).or_default() += 1;
            }
            if ctx.nontrivial {
                st.nontrivial += 1;
                let new = st.distinct.insert(ctx.key);
                if new && (st.samples.len() < 2 || (st.samples.len() < 3 && idx > total / 2)) {
                    let mut src = Src::replay(src.rec);
                    let mut ctx = Ctx { want_desc: true, ..Ctx::default() };
                    let _ = run_case(p, &mut src, &mut ctx);
                    if ctx.desc.len() < 3000 {
                        st.samples.push(ctx.desc);
                    }
                }
            }
            idx += SHARDS;
        }
        let mut f = std::io::BufWriter::new(std::fs::File::create(dir.join(format!("keys{shard}"))).expect("keys"));
        for k in &st.distinct {
            f.write_all(&k.to_le_bytes()).expect("keys");
        }
        f.flush().expect("keys");
        let out = serde_json::json!({"evaluations": st.evaluations, "nontrivial": st.nontrivial, "labels": st.labels, "samples": st.samples});
        std::fs::write(dir.join(format!("stats{shard}.json")), out.to_string()).expect("stats");
        0
    });
    std::process::exit(code);
}

/// Run the case with this index once; used to confirm crashes and hangs.
fn one_case(a: &[String]) {
    let id = a[0].clone();
    let seed: u64 = a[1].parse().expect("seed");
    let idx: u64 = a[2].parse().expect("idx");
    limit_memory(6 << 30);
    watchdog(HANG_CPU);
    let code = with_stack(move || {
        let p = prop(&id);
        let mut src = Src::random(case_seed(seed, p.id(), idx));
        if let Ok(j) = std::env::var("ND_JOURNAL") {
            src.journal = std::fs::File::create(j).ok();
        }
        let mut ctx = Ctx::default();
        match run_case(p, &mut src, &mut ctx) {
            Ok(()) => 0,
            Err(_) => EXIT_FAIL,
        }
    });
    std::process::exit(code);
}

/// Run a recorded choice sequence (file of u32s); prints what it is first.
fn one_choices(a: &[String]) {
    let id = a[0].clone();
    let choices: Vec<u32> = serde_json::from_slice(&std::fs::read(&a[1]).expect("choices")).expect("json");
    let limit: f64 = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(HANG_CPU);
    limit_memory(6 << 30);
    watchdog(limit);
    let code = with_stack(move || {
        let p = prop(&id);
        let mut src = Src::replay(choices);
        let mut ctx = Ctx::default();
        if let Ok(d) = std::env::var("ND_DESCR") {
            ctx.want_desc = true;
            ctx.desc_file = Some(d.into());
        }
        match run_case(p, &mut src, &mut ctx) {
            Ok(()) => 0,
            Err(_) => EXIT_FAIL,
        }
    });
    std::process::exit(code);
}

fn one_pinned(a: &[String]) {
    let id = a[0].clone();
    let name = a[1].clone();
    limit_memory(6 << 30);
    watchdog(HANG_CPU);
    let code = with_stack(move || {
        let p = prop(&id);
        let Some((_, f)) = p.pinned().into_iter().find(|(n, _)| *n == name) else { return 2 };
        match guarded(f) {
            Ok(()) => 0,
            Err(m) => {
                println!("{m}");
                EXIT_FAIL
            }
        }
    });
    std::process::exit(code);
}

fn exe() -> PathBuf {
    std::env::current_exe().expect("exe")
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum End {
    Ok,
    Fail,
    Hang,
    Crash(i32),
    Error(i32),
}

fn classify(st: std::process::ExitStatus) -> End {
    use std::os::unix::process::ExitStatusExt;
    if let Some(s) = st.signal() {
        return End::Crash(s);
    }
    match st.code() {
        Some(0) => End::Ok,
        Some(EXIT_FAIL) => End::Fail,
        Some(EXIT_HANG) => End::Hang,
        Some(c) => End::Error(c),
        None => End::Error(-1),
    }
}

fn replay(a: &[String]) {
    let r: ReplayFile = serde_json::from_slice(&std::fs::read(&a[0]).expect("replay file")).expect("json");
    let p = prop(&r.property);
    println!("property {}", r.property);
    println!("recorded: {}", r.message);
    if let Some(name) = &r.pinned {
        let out = Command::new(exe()).arg("pinned").arg(&r.property).arg(name).output().expect("spawn");
        println!("pinned case {name}: {:?}\n{}", classify(out.status), String::from_utf8_lossy(&out.stdout));
        std::process::exit(i32::from(!out.status.success()));
    }
    let choices = r.choices.unwrap_or_default();
    println!("case:\n{}", r.case);
    watchdog(HANG_CPU);
    let code = with_stack(move || {
        let f = describe_failure(p, choices);
        if f.message.is_empty() {
            println!("now: holds");
            0
        } else {
            println!("now: {}\n{}", f.message, f.desc);
            1
        }
    });
    std::process::exit(code);
}

// ------------------------------------------------------------------- check

struct Finding {
    case: String,
    text: String,
}

fn known_findings(id: &str) -> Vec<Finding> {
    let path = verif_dir().join("KNOWN_FINDINGS.txt");
    let s = std::fs::read_to_string(path).unwrap_or_default();
    let mut out = Vec::new();
    for l in s.lines() {
        let Some(rest) = l.strip_prefix("finding: property=") else { continue };
        let Some((pid, rest)) = rest.split_once(' ') else { continue };
        if pid != id {
            continue;
        }
        let Some(rest) = rest.strip_prefix("case=") else { continue };
        let (case, text) = rest.split_once(' ').unwrap_or((rest, ""));
        out.push(Finding { case: case.into(), text: text.into() });
    }
    out
}

fn check(a: &[String]) {
    let t0 = Instant::now();
    let id = a[0].clone();
    let p = prop(&id);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match arg(a, "--tier").map(str::to_string).or_else(|| std::env::var("VERIF_TIER").ok()).as_deref() {
        Some("thorough") => "thorough",
        _ => "quick",
    };
    let (q, t) = p.cases();
    let mut total = if tier == "thorough" { t } else { q };
    if let Some(n) = arg(a, "--cases") {
        total = n.parse().expect("cases");
    }
    let vd = verif_dir();
    let replays = vd.join("replays");
    let dir = vd.join("work").join(format!("{id}-{}", std::process::id()));
    std::fs::create_dir_all(&replays).expect("replays dir");
    std::fs::create_dir_all(&dir).expect("work dir");
    let _ = std::fs::create_dir_all(vd.join("evidence"));

    let mut violations: Vec<PathBuf> = Vec::new();
    let known = known_findings(&id);
    let mut errors: Vec<String> = Vec::new();

    // 1. explicit cases
    let pinned = p.pinned();
    let mut pinned_run = 0u64;
    let mut known_seen = 0u64;
    for f in &known {
        if !pinned.iter().any(|(n, _)| *n == f.case) {
            errors.push(format!("known finding names unknown case {}", f.case));
        }
    }
    for (name, _) in &pinned {
        let run = || {
            let out = Command::new(exe()).arg("pinned").arg(&id).arg(name).stderr(Stdio::null()).output().expect("spawn");
            (classify(out.status), String::from_utf8_lossy(&out.stdout).trim().to_string())
        };
        let (mut end, mut text) = run();
        if !matches!(end, End::Ok | End::Fail) {
            // confirm crashes and hangs in a second process
            (end, text) = run();
        }
        pinned_run += 1;
        let listed = known.iter().find(|f| f.case == *name);
        match (end, listed) {
            (End::Ok, None) => {}
            (End::Ok, Some(f)) => println!("note: known finding {} no longer fails", f.case),
            (End::Error(c), _) => errors.push(format!("explicit case {name} ended with status {c}: {text}")),
            (End::Fail, _) if text.starts_with(HARNESS_BUG) => errors.push(text),
            (_, Some(f)) => {
                known_seen += 1;
                println!("KNOWN-FINDING: property={id} {}: {}", f.case, f.text);
            }
            (e, None) => {
                let path = replays.join(format!("{id}-pinned-{name}.json"));
                let message = if text.is_empty() { format!("{e:?}") } else { text };
                println!("explicit case {name}: {message}");
                write_replay(&path, &ReplayFile { property: id.clone(), choices: None, pinned: Some((*name).into()), message, case: (*name).into() });
                violations.push(path);
            }
        }
    }

    // 2. generated cases
    let mut st = Stats::default();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    if violations.is_empty() && errors.is_empty() {
        let mut kids = Vec::new();
        for s in 0..SHARDS {
            let k = Command::new(exe())
                .args(["worker", &id, &seed.to_string(), &s.to_string(), &total.to_string()])
                .arg(&dir)
                .stdin(Stdio::null())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .expect("spawn worker");
            kids.push((s, k));
        }
        let mut ends = Vec::new();
        for (s, k) in kids {
            let out = k.wait_with_output().expect("wait");
            ends.push((s, classify(out.status), String::from_utf8_lossy(&out.stdout).to_string()));
        }
        for (s, e, text) in ends {
            match e {
                End::Ok => {
                    let j: serde_json::Value = serde_json::from_slice(&std::fs::read(dir.join(format!("stats{s}.json"))).expect("stats")).expect("json");
                    st.evaluations += j["evaluations"].as_u64().unwrap_or(0);
                    st.nontrivial += j["nontrivial"].as_u64().unwrap_or(0);
                    for (k, v) in j["labels"].as_object().expect("labels") {
                        *labels.entry(k.clone()).or_default() += v.as_u64().unwrap_or(0);
                    }
                    for x in j["samples"].as_array().expect("samples") {
                        st.samples.push(x.as_str().unwrap_or("").to_string());
                    }
                    let keys = std::fs::read(dir.join(format!("keys{s}"))).expect("keys");
                    for c in keys.chunks_exact(8) {
                        st.distinct.insert(u64::from_le_bytes(c.try_into().expect("8")));
                    }
                }
                End::Fail => {
                    let from = dir.join(format!("fail{s}.json"));
                    let to = replays.join(format!("{id}-{seed}-{s}.json"));
                    std::fs::copy(&from, &to).expect("copy replay");
                    violations.push(to);
                }
                End::Error(c) => errors.push(format!("worker {s} ended with status {c}: {}", text.trim())),
                End::Hang | End::Crash(_) => {
                    let from = dir.join(format!("fail{s}.json"));
                    let to = replays.join(format!("{id}-{seed}-{s}.json"));
                    if from.exists() {
                        // died while shrinking an ordinary failure
                        std::fs::copy(&from, &to).expect("copy replay");
                        violations.push(to);
                        continue;
                    }
                    let b = std::fs::read(dir.join(format!("progress{s}"))).unwrap_or_default();
                    let Ok(b) = <[u8; 8]>::try_from(b.as_slice()) else {
                        errors.push(format!("worker {s} died ({e:?}) before its first case"));
                        continue;
                    };
                    let idx = u64::from_le_bytes(b);
                    if violations.is_empty() {
                        match confirm_death(p, seed, idx, &dir, &to) {
                            Ok(()) => violations.push(to),
                            Err(m) => errors.push(format!("worker {s} died ({e:?}) at case {idx}, not confirmed: {m}")),
                        }
                    }
                }
            }
        }
    }

    let wall = t0.elapsed().as_secs_f64();
    st.samples.truncate(12);
    let samples: Vec<&String> = st.samples.iter().collect();
    let ev = serde_json::json!({
        "property": id,
        "tier": tier,
        "seed": seed,
        "level": props::level(&id),
        "coverage": {
            "evaluations": st.evaluations + pinned_run,
            "generated": st.evaluations,
            "explicit_cases": pinned_run,
            "nontrivial": st.nontrivial,
            "distinct_nontrivial": st.distinct.len(),
            "rule": p.rule(),
            "labels": labels,
            "samples": samples,
            "known_findings_seen": known_seen,
        },
        "assumptions": p.assumptions(),
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": violations.len(),
    });
    std::fs::write(vd.join("evidence").join(format!("{id}.json")), serde_json::to_string_pretty(&ev).expect("json") + "\n").expect("evidence");
    let _ = std::fs::remove_dir_all(&dir);

    println!("{id} {tier} seed={seed}: {} cases, {} distinct non-trivial, {} explicit, {:.1}s", st.evaluations, st.distinct.len(), pinned_run, wall);
    if !violations.is_empty() {
        for v in &violations {
            if let Ok(b) = std::fs::read(v) {
                if let Ok(r) = serde_json::from_slice::<ReplayFile>(&b) {
                    println!("{}\n{}", r.message, r.case);
                }
            }
            println!("VIOLATION property={id} replay={}", v.display());
        }
        std::process::exit(1);
    }
    if !errors.is_empty() {
        for e in &errors {
            println!("ERROR {e}");
        }
        std::process::exit(2);
    }
}

/// A worker died on a case: run that case alone in fresh processes; if it dies
/// again it is a real violation; then shrink it with one process per attempt.
fn confirm_death(p: &dyn Prop, seed: u64, idx: u64, dir: &Path, to: &Path) -> Result<(), String> {
    let run = || {
        let st = Command::new(exe())
            .args(["case", p.id(), &seed.to_string(), &idx.to_string()])
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .status()
            .expect("spawn");
        classify(st)
    };
    let a = run();
    let b = run();
    let kind = match (a, b) {
        (End::Hang, End::Hang) => "does not terminate",
        (End::Crash(_), End::Crash(_)) => "crashes the process",
        (End::Fail, End::Fail) => "fails",
        _ => return Err(format!("{a:?}/{b:?}")),
    };
    // The choices are recovered from the journal a dying child leaves.
    let seqfile = dir.join("seq.json");
    let seed_choices = record_choices(p.id(), seed, idx, dir);
    let mut best = seed_choices.clone();
    if let Some(c) = &seed_choices {
        let (limit, max) = if kind == "does not terminate" { ("3", 40) } else { ("10", 300) };
        let started = Instant::now();
        let mut fails = |c: &[u32]| -> Option<Vec<u32>> {
            if started.elapsed() > Duration::from_secs(100) {
                return None;
            }
            std::fs::write(&seqfile, serde_json::to_string(c).expect("json")).expect("seq");
            let st = Command::new(exe())
                .args(["choices", p.id()])
                .arg(&seqfile)
                .arg(limit)
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .status()
                .expect("spawn");
            match classify(st) {
                End::Hang | End::Crash(_) => Some(c.to_vec()),
                _ => None,
            }
        };
        best = Some(shrink_seq(c.clone(), max, &mut fails));
    }
    let case = best.as_ref().map_or(String::new(), |c| describe_dying(p.id(), c, dir));
    write_replay(
        to,
        &ReplayFile { property: p.id().into(), choices: best, pinned: None, message: format!("a case {kind} (case {idx}, seed {seed})"), case },
    );
    Ok(())
}

/// Choices drawn by a dying case: the child streams them to a file through the
/// journal before running on.
fn record_choices(id: &str, seed: u64, idx: u64, dir: &Path) -> Option<Vec<u32>> {
    let j = dir.join("journal");
    let _ = Command::new(exe())
        .args(["case", id, &seed.to_string(), &idx.to_string()])
        .env("ND_JOURNAL", &j)
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status();
    let b = std::fs::read(&j).ok()?;
    Some(b.chunks_exact(4).map(|c| u32::from_le_bytes(c.try_into().expect("4"))).collect())
}

fn describe_dying(id: &str, c: &[u32], dir: &Path) -> String {
    let seq = dir.join("seq.json");
    let d = dir.join("descr");
    std::fs::write(&seq, serde_json::to_string(c).expect("json")).expect("seq");
    let _ = std::fs::remove_file(&d);
    let _ = Command::new(exe())
        .args(["choices", id])
        .arg(&seq)
        .arg("5")
        .env("ND_DESCR", &d)
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status();
    std::fs::read_to_string(&d).unwrap_or_default()
}
