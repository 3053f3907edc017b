#!/usr/bin/env python3
"""Development tool: runs checks on edited scratch copies.  try.py <module> [-p C01,C02] [-j 2] [id ...]
module: refactors (expected quiet) or bugs (expected caught by the property's check)."""
import importlib, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
T = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, T)
V = os.path.dirname(T)
import props
args = sys.argv[1:]
mod = importlib.import_module(args.pop(0))
only, jobs, sel, skip = None, 2, [], []
while args:
    a = args.pop(0)
    if a == "-p":
        only = args.pop(0).split(",")
    elif a == "-s":
        skip = args.pop(0).split(",")
    elif a == "-j":
        jobs = int(args.pop(0))
    else:
        sel.append(a)
work = tempfile.mkdtemp(prefix="try")
BASE = os.path.join(work, "base")


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def one(b):
    d = os.path.join(work, b["id"])
    r, v = os.path.join(d, "repo"), os.path.join(d, "verif")
    os.makedirs(d)
    sh(["git", "clone", "-q", "/repo", r])
    for f, old, new in b["edits"]:
        p = os.path.join(r, f)
        s = open(p).read()
        if (s.count(old) != 1 and not b.get("many")) or not s.count(old):
            return b["id"], ["edit matches %d times: %s" % (s.count(old), old)]
        open(p, "w").write(s.replace(old, new))
    shutil.copytree(BASE, v)
    c = os.path.join(v, "harness", "Cargo.toml")
    s = open(c).read().replace('"/repo"', '"%s"' % r)
    open(c, "w").write(s)
    out = []
    if not b.get("notest"):
        t = sh(["cargo", "test", "--workspace", "--all-features", "--offline", "-q"], cwd=r, env=dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_TARGET_DIR=os.path.join(d, "t")))
        if t.returncode:
            return b["id"], ["TESTS FAIL " + (t.stdout + t.stderr)[-1500:]]
        shutil.rmtree(os.path.join(d, "t"))
    ps = only or b.get("props") or ([b["property"]] if "property" in b else sorted(props.PROPS))
    for p in ps:
        if p in skip:
            continue
        t0 = time.time()
        q = sh(["./check", p, "quick"], cwd=v, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", LT_REPO=r))
        k = {0: "quiet", 1: "VIOLATION"}.get(q.returncode, "none")
        want = "VIOLATION" if "property" in b else "quiet"
        if k != want:
            tail = "\n      ".join(q.stdout.strip().splitlines()[:3] + q.stderr.strip().splitlines()[-2:])
            out.append("%s %s (%.0f s)\n      %s" % (p, k, time.time() - t0, "\n      ".join(x.strip()[:260] for x in tail.split("\n"))))
        elif time.time() - t0 > 200:
            out.append("%s %s but %.0f s" % (p, k, time.time() - t0))
    shutil.rmtree(d)
    return b["id"], out


subprocess.run(["bash", os.path.join(V, "engine", "build.sh")], check=True)
os.makedirs(os.path.join(BASE, "build"))
for n in os.listdir(V):
    p = os.path.join(V, n)
    if n not in (".git", "seeded", "build", "evidence"):
        (shutil.copytree if os.path.isdir(p) else shutil.copy)(p, os.path.join(BASE, n))
for n in ("lt-engine", "engine.hash"):
    shutil.copy(os.path.join(V, "build", n), os.path.join(BASE, "build", n))
L = [b for b in mod.ALL if not sel or b["id"] in sel]
with ThreadPoolExecutor(jobs) as ex:
    for i, o in ex.map(one, L):
        print(i, "ok" if not o else "", flush=True)
        for l in o:
            print("   ", l, flush=True)
shutil.rmtree(work)
