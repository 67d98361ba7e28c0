#!/usr/bin/env python3
"""Runs the check of each seeded change's property against it, in copies of /repo and /verif that stand in for them
(a mount namespace of their own), and notes what came of it. Not used by any check.

usage: sweep.py OUT.json [-j JOBS] [-s SEED] [ID...]     (all of seeded/ by default; "none:Cxx" runs without a change,
                                             "patch:FILE:Cxx" with one that must stay quiet)
       sweep.py --table OUT.json                         rewrites the table in DESIGN.md"""
import json, os, shutil, subprocess, sys, time, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def table(out):
    res = json.load(open(out))
    rows = ["| change | property | what it needs | caught by | s |", "|---|---|---|---|---|"]
    n = 0
    for i in sorted(os.listdir(V + "/seeded")):
        m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
        r = res.get(i)
        n += bool(r and r["caught"])
        rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"),
            "not run" if r is None else "%s, %s" % (r["config"], r["component"]) if r["caught"] else "**missed**", r["s"] if r else ""))
    s = open(V + "/DESIGN.md").read()
    a, b = "<!-- seeded -->\n", "<!-- /seeded -->"
    i, j = s.index(a) + len(a), s.index(b)
    open(V + "/DESIGN.md", "w").write(s[:i] + "%d changes, %d caught by the quick check of their property.\n\n" % (len(rows) - 2, n) + "\n".join(rows) + "\n" + s[j:])
    print(len(rows) - 2, n)

def main():
    if sys.argv[1] == "--table":
        return table(sys.argv[2])
    out, jobs, seed, ids = sys.argv[1], 2, "1", []
    a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x == "-j":
            jobs = int(a.pop(0))
        elif x == "-s":
            seed = a.pop(0)
        else:
            ids.append(x)
    ids = ids or sorted(os.listdir(V + "/seeded"))
    res = json.load(open(out)) if os.path.exists(out) else {}
    q = queue.Queue()
    for i in ids:
        q.put(i)
    lock = threading.Lock()
    base = "/tmp/sw-%d" % os.getpid()
    head = subprocess.run(["git", "-C", "/repo", "rev-parse", "HEAD"], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
    def worker(k):
        d = "%s/%d" % (base, k)
        os.makedirs(d)
        subprocess.run(["git", "clone", "-q", "/repo", d + "/repo"], check=True)
        subprocess.run(["git", "-C", d + "/repo", "checkout", "-q", head], check=True)
        if os.path.exists("/repo/Cargo.lock"):
            shutil.copy("/repo/Cargo.lock", d + "/repo")
        subprocess.run(["rsync", "-a", "--exclude", "/seeded", "--exclude", "/build/work", V + "/", d + "/verif/"], check=True) if shutil.which("rsync") else \
            subprocess.run("mkdir %s/verif && cd %s && tar cf - --exclude=./seeded --exclude=./build/work . | tar xf - -C %s/verif" % (d, V, d), shell=True, check=True)
        while True:
            try:
                i = q.get_nowait()
            except queue.Empty:
                break
            if i.startswith("none:"):
                p = i[5:].split("+")[0]
                m = None
            elif i.startswith("patch:"):
                _, f, p = i.split(":")
                m = None
                subprocess.run(["git", "-C", d + "/repo", "apply", f], check=True)
            else:
                m = V + "/seeded/" + i
                p = json.load(open(m + "/meta.json"))["property"]
                subprocess.run(["git", "-C", d + "/repo", "apply", m + "/patch.diff"], check=True)
            t = time.time()
            sh = "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && exec python3 check.py %s" % (d, d, p)
            r = subprocess.run(["unshare", "-Urm", "sh", "-c", sh], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                               env=dict(os.environ, VERIF_SEED=seed, VERIF_TIER="quick"))
            subprocess.run(["git", "-C", d + "/repo", "checkout", "-q", "--", "."], check=True)
            lines = r.stdout.strip().split("\n")
            caught = r.returncode == 1 and any(l.startswith("VIOLATION property=%s " % p) for l in lines)
            comp = conf = None
            for l in lines:
                if l.startswith("VIOLATION"):
                    doc = json.load(open(l.split("replay=")[1].replace("/verif/", d + "/verif/", 1)))
                    comp, conf = doc.get("component"), doc.get("config")
                    if conf == "miri":
                        conf = "Miri: " + doc["platform"]
            with lock:
                res[i] = {"property": p, "caught": caught, "rc": r.returncode, "s": round(time.time() - t), "component": comp, "config": conf, "tail": lines[-3:]}
                word = ("caught" if caught else "MISSED") if m else ("quiet" if r.returncode == 0 else "ALARM")
                print(i, word, r.returncode, res[i]["s"], "s", conf, comp, "|", (lines[-2] if len(lines) > 1 else lines[-1])[:200], flush=True)
                json.dump(res, open(out + ".tmp", "w"), indent=1)
                os.rename(out + ".tmp", out)
    try:
        ts = [threading.Thread(target=worker, args=(k,)) for k in range(jobs)]
        [t.start() for t in ts]
        [t.join() for t in ts]
    finally:
        shutil.rmtree(base, ignore_errors=True)
main()
