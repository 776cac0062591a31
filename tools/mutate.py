#!/usr/bin/env python3
"""Mutation campaign over /repo's sources (not a registered check): small
changes of single lines; those which pass the repository's own tests are given
to the checks. usage: mutate.py WORKDIR WORKERS [FILE...]
Results are appended to WORKDIR/results.jsonl; done mutants are skipped."""
import json, os, re, shutil, subprocess, sys, random, threading, queue

WORK, N = sys.argv[1], int(sys.argv[2])
ONLY = sys.argv[3:]
SRC = "/repo/src/yaml"
IDS = ["C%02d" % i for i in range(1, 21)]
CASES = {"C02": 6000, "C20": 4000, "C19": 10000}

def files():
    for d, _, fs in os.walk(SRC):
        if "tests" in d:
            continue
        for f in sorted(fs):
            p = os.path.relpath(os.path.join(d, f), "/repo")
            if f.endswith(".rs") and (not ONLY or any(o in p for o in ONLY)):
                yield p

SWAPS = [
    (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
    (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \+= ", " -= "), (r" -= ", " += "),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bif !", "if "), (r"(?<![=!<>])!(?=[a-z(])(?!matches\()", ""),
    (r"\bis_some\(\)", "is_none()"), (r"\bis_none\(\)", "is_some()"), (r"\bis_ok\(\)", "is_err()"), (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"),
    (r"\.next\(\)", ".next_back()"), (r"\.next_back\(\)", ".next()"), (r"starts_with", "ends_with"), (r"ends_with", "starts_with"),
    (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\.is_empty\(\)", ".is_empty() == false"), (r"\bbreak;", "continue;"), (r"\bcontinue;", "break;"),
    (r"\bSome\((\w+)\)$", "None"), (r"saturating_sub\(1\)", "saturating_sub(0)"), (r"\.\.=", ".."), (r"\bu8\b", "u16"), (r"\bi64\b", "i32"), (r"\bu64\b", "u32"),
    (r"unwrap_or\(0\)", "unwrap_or(1)"), (r"unwrap_or_default\(\)", "unwrap()"), (r"\bChomp::(\w+)", None), (r"\bBlock::(\w+)", None), (r"\|\| .*$", None),
]
ALT = re.compile(r"(b'[^']{1,4}'|[A-Z0-9_]{3,}|ctl!\[.\])(?: \| )")

def mutants(path):
    lines = open("/repo/" + path).read().split("\n")
    out = []
    depth_macro = False
    for i, l in enumerate(lines):
        s = l.strip()
        # only documentation differs
        if re.match(r"(as_number|set_number|set_float|insert_number|insert_float|push_number|push_float)!\(", s):
            continue
        if not s or s.startswith("//") or s.startswith("#[") or s.startswith("use ") or s.startswith("pub use") or s.startswith("mod ") or s.startswith("*"):
            continue
        code = l.split(" //")[0]
        new = set()
        for pat, rep in SWAPS:
            if rep is None:
                continue
            for m in re.finditer(pat, code):
                new.add(code[:m.start()] + m.expand(rep) + code[m.end():])
        for m in re.finditer(r"(?<![\w.'])(\d+)(?![\w.'])", code):
            v = int(m.group(1))
            for w in {v + 1, max(v - 1, 0)} - {v}:
                new.add(code[:m.start()] + str(w) + code[m.end():])
        for m in re.finditer(r"b'([^'\\])'", code):
            new.add(code[:m.start()] + "b'\\x01'" + code[m.end():])
        for m in ALT.finditer(code):
            new.add(code[:m.start()] + code[m.end():])
        for m in re.finditer(r" \| (b'[^']{1,4}'|[A-Z0-9_]{3,})", code):
            new.add(code[:m.start()] + code[m.end():])
        m = re.match(r"^(\s*)(\} else )?if (?!let )(.*) \{$", code)
        if m:
            e = m.group(2) or ""
            new.add(f"{m.group(1)}{e}if true {{")
            new.add(f"{m.group(1)}{e}if false {{")
        m = re.match(r"^(\s*)while (?!let )(.*) \{$", code)
        if m:
            new.add(f"{m.group(1)}while false {{")
        if s.endswith(";") and not s.startswith(("let ", "type ", "const ", "static ", "pub ", "}", "return Err", ")", "use ")) :
            new.add("")
        if re.match(r"^\s*(\S.*) => (.*),$", code) and not s.startswith("_ "):
            new.add("")
        for n in sorted(new):
            if n != l:
                out.append((path, i + 1, l, n))
    return out

def run(cmd, cwd, timeout, env=None):
    import signal
    # a mutant may eat all memory
    cmd = ["prlimit", f"--as={8 << 30}"] + cmd
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, start_new_session=True, text=True, errors="replace")
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return "timeout", ""

lock = threading.Lock()
results = os.path.join(WORK, "results.jsonl")
os.makedirs(WORK, exist_ok=True)
done = set()
if os.path.exists(results):
    for l in open(results):
        r = json.loads(l)
        done.add((r["path"], r["line"], r["new"]))

def worker(k, q):
    w = os.path.join(WORK, f"w{k}")
    repo, har, vd = w + "/repo", w + "/harness", w + "/vd"
    os.makedirs(w, exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "/target", "--exclude", ".git", "/repo/", repo + "/"]) if shutil.which("rsync") else (shutil.rmtree(repo, ignore_errors=True), shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns("target", ".git"))) 
    shutil.rmtree(har, ignore_errors=True)
    shutil.copytree("/verif/harness", har)
    t = open(har + "/Cargo.toml").read().replace('path = "/repo"', f'path = "{repo}"')
    open(har + "/Cargo.toml", "w").write(t)
    os.makedirs(vd, exist_ok=True)
    shutil.copy("/verif/KNOWN_FINDINGS.txt", vd)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="0", CARGO_TARGET_DIR=w + "/rt")
    envd = dict(env, RUSTFLAGS="--cfg nondestructive_write_to_eq", CARGO_TARGET_DIR=w + "/rtd")
    envh = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_RELEASE_DEBUG="0", CARGO_TARGET_DIR=w + "/ht", VERIF_DIR=vd, VERIF_SEED="1")
    while True:
        try:
            path, line, old, new = q.get_nowait()
        except queue.Empty:
            return
        f = repo + "/" + path
        orig = open("/repo/" + path).read()
        ls = orig.split("\n")
        if ls[line - 1] != old:
            continue
        ls[line - 1] = new
        open(f, "w").write("\n".join(ls))
        r = {"path": path, "line": line, "old": old, "new": new}
        rc, o = run(["cargo", "test", "--workspace", "--all-targets", "--all-features", "--offline"], repo, 60, env)
        if rc == 0:
            rc, o = run(["cargo", "test", "--workspace", "--doc", "--all-features", "--offline"], repo, 120, envd)
        if rc != 0:
            r["state"] = "killed by tests" if "error: could not compile" not in o else "does not compile"
        else:
            rc, o = run(["cargo", "build", "--release", "--offline"], har, 300, envh)
            if rc != 0:
                r["state"] = "harness does not build"
            else:
                r["state"] = "survives"
                r["odd"] = []
                for i in IDS:
                    rc, o = run([w + "/ht/release/harness", "check", i, "--cases", str(CASES.get(i, 20000))], w, 900, envh)
                    if rc == 1:
                        r["state"] = "caught"
                        r["by"] = i
                        break
                    if rc != 0:
                        r["odd"].append((i, rc, o[-300:]))
        open(f, "w").write(orig)
        with lock:
            open(results, "a").write(json.dumps(r) + "\n")

allm = [m for f in files() for m in mutants(f)]
todo = [m for m in allm if (m[0], m[1], m[3]) not in done]
random.Random(1).shuffle(todo)
print(len(allm), "mutants,", len(todo), "to do", flush=True)
q = queue.Queue()
for m in todo:
    q.put(m)
ts = [threading.Thread(target=worker, args=(k, q)) for k in range(N)]
[t.start() for t in ts]
[t.join() for t in ts]
print("done")
