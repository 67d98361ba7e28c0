#!/usr/bin/env python3
"""Turns the planted bugs described in tools/plants.py into seeded/<id>/, after confirming each one in a scratch copy:
it compiles, the repository's tests pass with it, its demonstration passes without it and fails with it.

usage: plant.py [ID...]      (all that are not yet in seeded/, or the named ones)
Not used by any check."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from plants import PLANTS, PRELUDE, PRELUDE32

ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", HOME="/root", PATH="/root/.cargo/bin:" + os.environ["PATH"])
DEMO = open(os.path.join(V, "tools", "demo.sh.in")).read()
I686 = open(os.path.join(V, "tools", "demo_i686.sh.in")).read()
MIRI = open(os.path.join(V, "tools", "demo_miri.sh.in")).read()

def sh(cmd, cwd, env=ENV, timeout=600):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)

def tests(d):
    e = dict(ENV, CARGO_TARGET_DIR=os.path.join(d, "target"))
    for f in ("--all-features", "--no-default-features"):
        r = sh(["cargo", "test", "--workspace", f, "--offline", "--no-fail-fast"], d, e)
        if r.returncode != 0:
            return r.stdout[-2500:]
    return None

def go(p):
    pid = p["id"]
    d = "/tmp/plant-%s" % pid
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    if os.path.exists("/repo/Cargo.lock"):
        shutil.copy("/repo/Cargo.lock", d)
    clean = d + "-clean"
    shutil.rmtree(clean, ignore_errors=True)
    shutil.copytree(d, clean, symlinks=True)
    try:
        for f, old, new in p["edits"]:
            path = os.path.join(d, f)
            s = open(path).read()
            if s.count(old) != 1:
                return "edit of %s matches %d times: %r" % (f, s.count(old), old[:80])
            open(path, "w").write(s.replace(old, new))
        diff = sh(["git", "diff"], d).stdout
        bad = tests(d)
        if bad:
            return "tests fail\n" + bad
        out = os.path.join(V, "seeded", pid)
        tmp = "/tmp/plantdemo-%s" % pid
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        open(os.path.join(tmp, "demo.sh"), "w").write(I686.replace("@PROFILE@", p.get("profile", "")) if p.get("i686") else MIRI.replace("@TARGET@", p["miri"][0]).replace("@FLAGS@", p["miri"][1]).replace("@FEATURES@", p["miri"][2]) if p.get("miri")
            else (DEMO.replace("debug-assertions = false\n", "") if "debug-assertions" in p.get("profile", "") else DEMO).replace("@PROFILE@", p.get("profile", "")).replace("@DEPS@", p.get("deps", "")).replace("@FEATURES@", p.get("features", '"std"')))
        os.chmod(os.path.join(tmp, "demo.sh"), 0o755)
        open(os.path.join(tmp, "demo.rs"), "w").write((PRELUDE32 if p.get("i686") else PRELUDE) + p["demo"].lstrip("\n"))
        r = sh(["bash", os.path.join(tmp, "demo.sh")], clean, timeout=400)
        if r.returncode != 0:
            return "demo fails on the unchanged tree\n" + r.stdout[-2500:]
        r = sh(["bash", os.path.join(tmp, "demo.sh")], d, timeout=400)
        if r.returncode == 0:
            return "demo passes with the change\n" + r.stdout[-1500:]
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(tmp, out)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        print("   demo says:", r.stdout.strip().split("\n")[-3:])
        shutil.rmtree(tmp, ignore_errors=True)
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(d + "-clean", ignore_errors=True)

def main():
    from concurrent.futures import ThreadPoolExecutor
    want = sys.argv[1:]
    todo = [p for p in PLANTS if (p["id"] in want if want else not os.path.exists(os.path.join(V, "seeded", p["id"], "patch.diff")))]
    assert len({p["id"] for p in PLANTS}) == len(PLANTS)
    with ThreadPoolExecutor(4) as ex:
        for p, r in zip(todo, ex.map(go, todo)):
            print(p["id"], "KEPT" if r is None else "REJECTED: " + r, flush=True)
main()
