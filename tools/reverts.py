#!/usr/bin/env python3
"""Undo each repair of KNOWN_FINDINGS.txt in a scratch copy and run the checks
of its property there (not a registered check). usage: reverts.py WORKDIR [COMMIT...]"""
import os, re, shutil, subprocess, sys
W, only = sys.argv[1], sys.argv[2:]
repo, har, vd = W + "/repo", W + "/harness", W + "/vd"
def sh(cmd, cwd, env=None, t=1200):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t)
    return p.returncode, p.stdout
os.makedirs(vd, exist_ok=True)
for d in (repo, har): shutil.rmtree(d, ignore_errors=True)
sh(["git", "clone", "-q", "/repo", repo], "/tmp")
shutil.copytree("/verif/harness", har)
t = open(har + "/Cargo.toml").read().replace('path = "/repo"', f'path = "{repo}"')
open(har + "/Cargo.toml", "w").write(t)
shutil.copy("/verif/KNOWN_FINDINGS.txt", vd)
env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_RELEASE_DEBUG="0", CARGO_TARGET_DIR=W + "/ht", VERIF_DIR=vd, VERIF_SEED="1")
for l in open("/verif/KNOWN_FINDINGS.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if not m or only and m[2] not in only: continue
    p, c, what = m.groups()
    sh(["git", "reset", "-q", "--hard", "origin/HEAD"], repo)
    rc, o = sh(["git", "-c", "user.name=x", "-c", "user.email=x@x", "revert", "-n", c], repo)
    if rc:
        print(p, c, "CONFLICT", re.findall(r"CONFLICT.*in (\S+)", o), what, flush=True); continue
    rc, o = sh(["cargo", "build", "--release", "--offline"], har, env)
    if rc:
        print(p, c, "DOES NOT BUILD", o[-300:].replace("\n", " "), flush=True); continue
    ids = [p] + [i for i in ("C%02d" % k for k in range(1, 21)) if i != p]
    for i in ids:
        rc, o = sh(["prlimit", f"--as={8 << 30}", W + "/ht/release/harness", "check", i], W, env)
        v = [x for x in o.split("\n") if "VIOLATION" in x]
        if rc == 1:
            print(p, c, "caught by", i, what, v[:1], flush=True); break
        if rc: print(p, c, i, "rc", rc, o[-200:], flush=True)
    else:
        print(p, c, "SURVIVES", what, flush=True)
