#!/usr/bin/env python3
"""Development tool: writes /verif/seeded/<id>/ from bugs.py and confirms each planted bug in scratch copies.
   seedgen.py [id ...]"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import bugs
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Builds the program next to this script against the langtag in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf -- "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$here/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2024"

[dependencies]
langtag = { path = "$repo", features = ["std", "serde"] }
serde = "1"

[workspace]
END
cd "$d" || exit 2
unset RUSTC_WRAPPER RUSTFLAGS
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
timeout 250 cargo run -q --offline
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def one(b, work):
    d = os.path.join(V, "seeded", b["id"])
    r = os.path.join(work, b["id"], "repo")
    os.makedirs(os.path.dirname(r))
    sh(["cp", "-a", "/repo", r])
    for f, old, new in b["edits"]:
        p = os.path.join(r, f)
        s = open(p).read()
        if s.count(old) != 1:
            return b["id"], "edit matches %d times: %s" % (s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = sh(["git", "-C", r, "diff"]).stdout
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    if "demo_sh" in b:
        open(os.path.join(d, "demo.sh"), "w").write(b["demo_sh"] or DEMO)
        for n, t in b.get("files", {}).items():
            open(os.path.join(d, n), "w").write(t)
    else:
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        open(os.path.join(d, "demo.rs"), "w").write(b["demo"])
    shutil.copy(os.path.join(V, "harness", "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    s = open(os.path.join(d, "Cargo.lock")).read().replace('name = "lt_harness"', 'name = "demo"')
    open(os.path.join(d, "Cargo.lock"), "w").write(s)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(r, "target"), CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
    t = sh("cargo test --workspace --all-features --no-fail-fast --offline", cwd=r, env=env)
    n = sum(int(x) for x in re.findall(r"(\d+) passed", t.stdout))
    msg = []
    if t.returncode or n != 21:
        msg.append("TESTS rc=%d passed=%d %s" % (t.returncode, n, t.stderr[-600:]))
    a = sh(["bash", os.path.join(d, "demo.sh")], cwd="/repo")
    if a.returncode != 0:
        msg.append("demo fails on the unchanged tree: " + a.stderr[-800:])
    a = sh(["bash", os.path.join(d, "demo.sh")], cwd=r)
    if a.returncode == 0:
        msg.append("demo passes with the patch")
    elif "error" in a.stderr and "demo_sh" not in b:
        msg.append("demo does not build with the patch: " + a.stderr[-800:])
    shutil.rmtree(os.path.join(work, b["id"]))
    return b["id"], "; ".join(msg) or "ok"


def main():
    sel = sys.argv[1:]
    work = tempfile.mkdtemp(prefix="seed")
    bs = [b for b in bugs.BUGS if not sel or b["id"] in sel]
    with ThreadPoolExecutor(4) as ex:
        for i, m in ex.map(lambda b: one(b, work), bs):
            print(i, m)
    shutil.rmtree(work)


main()
