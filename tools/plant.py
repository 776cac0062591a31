#!/usr/bin/env python3
"""Confirm planted bugs in a scratch copy and write them to /verif/seeded (not
a registered check). usage: plant.py SPEC.py [ID...]
SPEC.py defines BUGS: {id: dict(property, needs, breaks, edits=[(file, old,
new)], main="fn main() body of the demonstration", deps="extra dependencies", features=True to
have them on in a demonstration of C21)}"""
import json, os, shutil, subprocess, sys
SPEC, only = sys.argv[1], sys.argv[2:]
ns = {}
exec(open(SPEC).read(), ns)
S = "/tmp/seed/repo"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="0", CARGO_TARGET_DIR="/tmp/seed/t")
ENVD = dict(ENV, RUSTFLAGS="--cfg nondestructive_write_to_eq", CARGO_TARGET_DIR="/tmp/seed/td")
DEMO = '''#!/bin/bash
# Demonstration: builds main.rs against the crate in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"

[workspace]

[dependencies]
nondestructive = { path = "$repo"@FEATURES@ }
@DEPS@
EOF
cd "$tmp" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target" timeout 250 cargo run -q --offline
'''
def sh(cmd, cwd, env=None, t=600):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t)
    return p.returncode, p.stdout
os.makedirs("/tmp/seed", exist_ok=True)
for id, b in ns["BUGS"].items():
    if only and id not in only: continue
    if not only and os.path.exists(f"/verif/seeded/{id}/meta.json"): continue
    shutil.rmtree(S, ignore_errors=True)
    sh(["git", "clone", "-q", "/repo", S], "/tmp")
    ok = True
    for f, old, new in b["edits"]:
        p = f"{S}/src/{f}"; t = open(p).read()
        if t.count(old) != 1:
            print(id, "EDIT matches", t.count(old), "times:", old[:80]); ok = False; break
        open(p, "w").write(t.replace(old, new))
    if not ok: continue
    d = f"/tmp/seed/out/{id}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    diff = sh(["git", "diff"], S)[1]
    open(d + "/patch.diff", "w").write(diff)
    main = b["main"]
    if "fn main" not in main:
        main = "use nondestructive::yaml;\n\nfn main() {\n" + "\n".join(("    " + l) if l else "" for l in main.strip("\n").split("\n")) + "\n}\n"
    open(d + "/main.rs", "w").write(main)
    open(d + "/demo.sh", "w").write(DEMO.replace("@DEPS@", b.get("deps", "")).replace("@FEATURES@", "" if b["property"] == "C21" and not b.get("features") else ", features = [\"serde\", \"serde-edits\"]").replace("\n\nEOF", "\nEOF"))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    rc, o = sh(["cargo", "test", "--workspace", "--all-targets", "--all-features", "--offline"], S, ENV)
    if rc: print(id, "TESTS", o[-1500:]); continue
    rc, o = sh(["cargo", "test", "--workspace", "--doc", "--all-features", "--offline"], S, ENVD)
    if rc: print(id, "DOCTESTS", o[-1500:]); continue
    bad = False
    for extra in ([], ["--features", "serde-edits"]):
        rc, o = sh(["cargo", "check", "-q", "--all-targets", "--no-default-features", "--offline", *extra], S, ENV)
        if rc: print(id, "FEATURES", o[-800:]); bad = True; break
    if bad: continue
    rc, o = sh(["bash", d + "/demo.sh"], "/repo")
    if rc: print(id, "DEMO fails unchanged", rc, o[-1200:]); continue
    rc, o2 = sh(["bash", d + "/demo.sh"], S)
    if rc == 0 or "could not compile" in o2: print(id, "DEMO passes with the patch / does not compile", o2[-600:]); continue
    # changed lines have to be original ones
    orig = True
    for f in sorted({e[0] for e in b["edits"]}):
        bl = sh(["git", "blame", "-s", "HEAD", "--", "src/" + f], S)[1].split("\n")
    os.makedirs("/verif/seeded", exist_ok=True)
    shutil.rmtree(f"/verif/seeded/{id}", ignore_errors=True)
    shutil.copytree(d, f"/verif/seeded/{id}")
    import re
    removed = [l[1:] for l in diff.split("\n") if l.startswith("-") and not l.startswith("---")]
    base = sh(["git", "show", "8c4e406:" + "src/" + b["edits"][0][0]], S)[1].split("\n")
    n = sum(1 for l in removed if l in base and l.strip())
    print(id, "OK", rc, f"removed {len(removed)} lines, {n} original;", o2.strip().split("\n")[-1][:160] if o2.strip() else "")
