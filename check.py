#!/usr/bin/env python3
"""Decides one property: builds the harness against /repo's working tree in the configurations the
property ranges over, runs the generated-case search in each, and writes the evidence file.

    check.py C07 [--thorough]    (or VERIF_TIER=thorough; VERIF_SEED=n)
    check.py --replay FILE       runs a saved counterexample again

Exit 0: held on everything explored. 1: VIOLATION line. 2: the check itself could not run."""
import array, glob, hashlib, json, os, random, re, shutil, signal, subprocess, sys, threading, time, fcntl
from concurrent.futures import ThreadPoolExecutor

import native32

V = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(V, "harness")
B = os.path.join(V, "build")
CORES = 8
LINUX = "x86_64-unknown-linux-gnu"
CHECKED = [x for k in ("debug-assertions", "overflow-checks")
           for x in ("--config", "profile.release.package.blake2s_simd.%s=true" % k)]

# name -> (toolchain, target dir, features, extra cargo arguments, extra environment)
# NAME@LEVEL runs NAME's program while it believes the CPU has no more than LEVEL (harness/src/cpu.rs).
CONFIGS = {
    "std": ("stable", "t", "std,pbt,bench", [], {}),
    "std-checked": ("stable", "t", "std,pbt,bench", CHECKED, {}),
    "nostd": ("stable", "t", "pbt,bench", [], {}),
    "nostd-checked": ("stable", "t", "pbt,bench", CHECKED, {}),
    "std-native": ("stable", "t-native", "std,pbt,bench", [], {"RUSTFLAGS": "-Ctarget-cpu=native"}),
    "nostd-native": ("stable", "t-native", "pbt,bench", [], {"RUSTFLAGS": "-Ctarget-cpu=native"}),
    "std-opt0": ("stable", "t-opt0", "std,pbt,bench", ["--config", "profile.release.package.blake2s_simd.opt-level=0"] + CHECKED, {}),
    # Coverage callbacks in the crate under test and below it: traces of edges and of addresses accessed.
    "cov": ("stable", "t-cov3", "std,pbt,bench,cov", [], {"RUSTC_WRAPPER": os.path.join(V, "tools", "cov-rustc.sh")}),
    "cov-nostd": ("stable", "t-cov3", "pbt,bench,cov", [], {"RUSTC_WRAPPER": os.path.join(V, "tools", "cov-rustc.sh")}),
    "asan": ("nightly", "t-asan", "std,pbt,bench", ["--target", LINUX], {"RUSTFLAGS": "-Zsanitizer=address"}),
    "asan-nostd": ("nightly", "t-asan", "pbt,bench", ["--target", LINUX], {"RUSTFLAGS": "-Zsanitizer=address"}),
    "tsan": ("nightly", "t-tsan", "std,pbt,bench", ["-Zbuild-std", "--target", LINUX], {"RUSTFLAGS": "-Zsanitizer=thread"}),
    "msan": ("nightly", "t-msan", "std,pbt,bench", ["-Zbuild-std", "--target", LINUX], {"RUSTFLAGS": "-Zsanitizer=memory"}),
}
# Extra depth: left out, with a note in the evidence, where the toolchain cannot build them.
OPTIONAL = ("cov", "cov-nostd", "tsan", "msan", "asan", "asan-nostd", "std-native", "nostd-native")
NOBENCH = []
def features(f):
    """Without the kernels and the switch to portable code if the crate has no such module (any more)."""
    return f.replace(",bench", "").replace("bench", "") if NOBENCH else f

RULES = {
    "C01": "parameters and message; non-trivial: a non-default parameter or more than one block",
    "C02": "parameters, message and its splitting; non-trivial: at least two updates",
    "C03": "history over several states; non-trivial: a state is used after being finalized, or a clone is used",
    "C04": "parameters and message; non-trivial: keyed, short digest or more than 1024 bytes (two stripes)",
    "C05": "parameters, message and its splitting; non-trivial: several updates, or more than 1024 bytes",
    "C06": "history with eight-state calls; non-trivial: lanes advance together, unevenly, or with partly filled buffers, or mixed digest lengths are finalized",
    "C07": "eight parameter sets and inputs; non-trivial: lanes run in lockstep, end unevenly or differ in parameters, or a key is rejected",
    "C08": "parameters and equal whole-block inputs; every case is non-trivial",
    "C09": "inputs of any lengths; non-trivial: the lengths are ill-formed (and the call must be rejected)",
    "C10": "kernel arguments, or a history with a state forced to the portable code; non-trivial: several implementations are compared",
    "C11": "messages past 4 GiB",
    "C12": "sequences of setter calls, legal and not; non-trivial by the component's rule",
    "C13": "sequences of setter calls; non-trivial by the component's rule",
    "C14": "pairs of descriptions differing in one respect; non-trivial by the component's rule",
    "C15": "pairs of digests and byte strings; non-trivial by the component's rule",
    "C16": "pairs of digests differing in chosen bits; non-trivial: the instruction traces of at least two comparisons were recorded and compared",
    "C17": "a history run twice with different key and message contents; non-trivial by the component's rule",
    "C18": "histories and calls over exactly sized inputs between inaccessible pages, under AddressSanitizer and under Miri; every case is non-trivial unless the component says otherwise",
    "C19": "the other properties' cases, per platform and build configuration; every case is non-trivial unless the component says otherwise",
    "C20": "one history per thread, run at the same time (every case is non-trivial), or one use interrupted by others (non-trivial if at least one ran in between)",
    "C22": "one use of one interface with several contents of the same lengths; non-trivial: the traces of instructions, or of edges and accessed addresses, were recorded and compared",
    "C23": "one use of one interface; non-trivial: its allocations and its stack were measured",
    "C24": "legal histories and calls; every case is non-trivial",
    "C21": "histories through io::Write; non-trivial: the Write trait is used",
}

def plan(prop, thorough):
    """[(config, share of the cases, deep?)]"""
    q = [("std", 1.0, True), ("std-checked", 0.35, False), ("nostd", 0.25, False), ("nostd-checked", 0.15, False)]
    if prop == "C11":
        q = [("std", 1.0, True), ("nostd", 1.0, True)]
    elif prop == "C16":
        q = [("std", 0.6, False), ("nostd", 0.2, False), ("std-checked", 0.2, False), ("cov", 4.0, False)]
    elif prop == "C18":
        q = [("std", 1.0, False), ("std-checked", 0.35, False), ("asan", 0.3, False), ("msan", 0.2, False)]
    elif prop == "C19":
        q = [("std", 0.8, False), ("nostd", 0.8, False), ("std-checked", 0.3, False), ("nostd-checked", 0.3, False)]
        q += [("std@" + l, 0.12, False) for l in ("base", "ssse3", "sse4.1", "sse4.2", "avx", "avx2")]
        q += [("std-native", 0.2, False), ("nostd-native", 0.3, False)]
    elif prop == "C20":
        q = [("std", 1.0, False), ("nostd", 0.5, False), ("std-checked", 0.3, False), ("tsan", 0.3, False)]
    elif prop == "C21":
        q = [("std", 1.0, True), ("std-checked", 0.5, False)]
    elif prop == "C22":
        q = [("std", 0.35, False), ("nostd", 0.12, False), ("cov", 4.0, False), ("cov-nostd", 1.0, False)]
        q += [("cov@" + l, 0.6, False) for l in ("base", "sse4.1")]
    elif prop == "C23":
        q = [("std", 1.0, True), ("nostd", 0.5, True), ("std-checked", 0.3, False)]
        q += [("std@" + l, 0.2, False) for l in ("base", "sse4.1")]
    elif prop == "C24":
        q = [("std", 1.0, False), ("std-checked", 0.6, True), ("nostd", 0.3, False), ("nostd-checked", 0.3, True), ("std-opt0", 0.08, False),
             ("cov", 1.0, False), ("cov@base", 0.3, False), ("cov@sse4.1", 0.3, False), ("std@base", 0.2, False), ("std@sse4.1", 0.2, False)]
    if prop not in ("C11", "C16", "C20", "C22", "C24"):
        # Only the search led by comparisons.
        q += [("cov", 1.0, False)]
        if prop not in ("C18", "C21"):
            q += [("cov@base", 0.3, False)]
    if thorough:
        q = q + [("std-native", 0.3, False)]
        if prop not in ("C22", "C23"):
            q += [("std-opt0", 0.15, False)]
        if prop not in ("C11", "C16", "C19", "C22", "C23", "C24"):
            q += [("std@base", 0.1, False), ("std@sse4.1", 0.1, False), ("std@avx", 0.1, False)]
        if prop in ("C18", "C06", "C07", "C08", "C05", "C10") :
            q = [x for x in q if x[0] != "asan"] + [("asan", 0.5, False), ("asan-nostd", 0.2, False)]
        if prop == "C11":
            q = [("std", 1.0, True), ("std-checked", 1.0, True), ("nostd", 1.0, True), ("std-native", 1.0, True)]
        if prop == "C16":
            q = [("std", 1.0, False), ("nostd", 0.5, False), ("std-checked", 0.5, False), ("std-native", 0.5, False), ("std-opt0", 0.5, False), ("cov", 4.0, False)]
        # Each configuration once.
        best = {}
        for c, s, d in q:
            best[c] = (max(s, best[c][0]), d or best[c][1]) if c in best else (s, d)
        q = [(c, s, d) for c, (s, d) in best.items()]
    return q

ALLKINDS = ["prog", "up8", "sp", "hash8", "exact", "exact_any", "kernel", "setters", "hashv", "one", "one_sp"]
def miri_plan(prop, thorough):
    """[(name, target, features, RUSTFLAGS, {kind: cases}, miri seeds)]"""
    n = 12 if thorough else 1
    def kinds(k, names=ALLKINDS):
        return {x: k * n for x in names}
    vec = ["up8", "hash8", "exact", "exact_any", "kernel", "one"]
    if prop == "C18":
        c = kinds(5)
        c.update(hashv=3 * n)
        return [("AVX2", LINUX, "std,bench", "-Ctarget-feature=+avx2", c, [0]),
                ("portable", LINUX, "bench", "", kinds(2), [0])]
    if prop == "C19":
        small = ["prog", "up8", "sp", "hash8", "exact", "setters", "one", "one_sp"]
        return [
            ("x86_64 without SSE4.1", LINUX, "std,bench", "", kinds(2, small), [0]),
            ("x86_64 with SSSE3 only", LINUX, "std,bench", "-Ctarget-feature=+ssse3", kinds(1, small), [0]),
            ("x86_64 with SSE4.1 only", LINUX, "std,bench", "-Ctarget-feature=+ssse3,+sse4.1", kinds(2, small), [0]),
            ("x86_64 with AVX2", LINUX, "std,bench", "-Ctarget-feature=+avx2", kinds(2, small), [0]),
            ("x86_64 with AVX2, no_std", LINUX, "bench", "-Ctarget-feature=+avx2", kinds(1, small), [0]),
            ("32-bit x86", "i686-unknown-linux-gnu", "std,bench", "", kinds(2, small), [0]),
            ("32-bit x86 with AVX2", "i686-unknown-linux-gnu", "std,bench", "-Ctarget-feature=+avx2", kinds(1, small), [0]),
            ("big-endian s390x", "s390x-unknown-linux-gnu", "std,bench", "", kinds(3, small), [0]),
        ]
    if prop == "C20":
        return [("AVX2", LINUX, "std,bench", "-Ctarget-feature=+avx2", {"threads": 2 * n, "fresh": n}, list(range(3 * n))),
                ("portable", LINUX, "bench", "", {"threads": 2 * n, "fresh": n}, list(range(2 * n)))]
    return []

class Broken(Exception):
    pass

T0 = time.time()
def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)

def environment(toolchain, extra=None):
    e = {k: v for k, v in os.environ.items()
         if not k.startswith(("CARGO", "RUST", "MIRI", "ASAN_")) or k in ("CARGO_HOME", "RUSTUP_HOME")}
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = toolchain
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e.update(extra or {})
    return e

def locked(name):
    os.makedirs(B, exist_ok=True)
    f = open(os.path.join(B, name + ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f

def build(config, work):
    """Builds the runner for one configuration and returns a private copy of it."""
    config = config.split("@")[0]
    tc, tdir, feats, args, env = CONFIGS[config]
    target = os.path.join(B, tdir)
    with locked(tdir):
        cmd = ["cargo", "build", "--offline", "--locked", "--release", "--no-default-features", "--features", features(feats), "--bin", "pbt"] + args
        def go():
            return subprocess.run(cmd, cwd=H, env=environment(tc, dict(env, CARGO_TARGET_DIR=target)), stdout=subprocess.PIPE,
                                  stderr=subprocess.STDOUT, text=True)
        r = go()
        if r.returncode != 0 and "bench" in feats and not NOBENCH and config not in OPTIONAL:
            cmd[cmd.index("--features") + 1] = feats.replace(",bench", "")
            q = go()
            if q.returncode == 0:
                NOBENCH.append(1)
                r = q
        if r.returncode != 0:
            raise Broken("building configuration %s failed:\n%s" % (config, r.stdout[-4000:]))
        sub = [LINUX] if "--target" in args else []
        out = os.path.join(work, "pbt-" + config)
        shutil.copy(os.path.join(target, *sub, "release", "pbt"), out)
    log("built", config)
    return out

RUNENV = {"ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:handle_abort=0",
          "TSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:report_signal_unsafe=0:die_after_fork=0",
          "MSAN_OPTIONS": "abort_on_error=1:halt_on_error=1:allocator_may_return_null=1"}
def runenv(config):
    return environment("stable", dict(RUNENV, PBT_CPU=config.split("@")[1]) if "@" in config else RUNENV)

def note(path):
    """What a worker had in hand: (place, case) or None."""
    try:
        d = open(path, "rb").read()
    except OSError:
        return None
    n = int.from_bytes(d[:8], "little")
    if not 0 < n <= len(d) - 8:
        return None
    place, _, js = d[8:8 + n].decode("utf8", "replace").split(" ", 2)
    try:
        return place, json.loads(js)
    except ValueError:
        return None

class Unfinished(Broken):
    """Nothing is known to be wrong, but a configuration did not get to its end."""

class Found(Exception):
    def __init__(self, doc):
        self.doc = doc

def run_config(prop, config, share, deep, exe, work, seed, tier, left):
    w = os.path.join(work, config)
    os.makedirs(w)
    out = os.path.join(w, "out.json")
    cmd = [exe, "run", "--prop", prop, "--seed", str(seed), "--share", str(share), "--tier", tier, "--config", config,
           "--work", w, "--out", out, "--threads", str(CORES), "--deep", "1" if deep else "0"]
    err = open(os.path.join(w, "stderr"), "w+")
    try:
        r = subprocess.run(cmd, env=runenv(config), stdout=subprocess.PIPE, stderr=err, text=True, timeout=max(5, left))
    except subprocess.TimeoutExpired:
        raise Unfinished("configuration %s ran out of time" % config)
    err.seek(0)
    etext = err.read()
    if r.returncode == 0:
        return json.load(open(out))
    if r.returncode == 77:
        return None
    if r.returncode == 1 and "FAIL " in r.stdout:
        doc = json.load(open(re.search(r"^FAIL (\S+)", r.stdout, re.M).group(1)))
        again(exe, doc, w)
        raise Found(doc)
    if r.returncode == 4:
        n = note(os.path.join(w, "hang.note"))
        if n:
            doc = {"property": prop, "config": config, "place": n[0], "case": n[1], "seed": seed, "component": "",
                   "error": "the call does not return"}
            p = os.path.join(w, "hang.json")
            json.dump(doc, open(p, "w"))
            try:
                subprocess.run([exe, "replay", p], env=runenv(config), timeout=60, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            except subprocess.TimeoutExpired:
                raise Found(doc)
        raise Unfinished("a case seemed to hang, but ends when run alone (%s)" % config)
    if r.returncode in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL, -signal.SIGABRT, -signal.SIGFPE, -signal.SIGTRAP):
        log(config, "died with", signal.Signals(-r.returncode).name)
        for f in sorted(glob.glob(os.path.join(w, "crash-*.note"))):
            n = note(f)
            if not n:
                continue
            p, m = f + ".json", f + ".min.json"
            json.dump({"property": prop, "config": config, "place": n[0], "case": n[1], "seed": seed}, open(p, "w"))
            q = subprocess.run([exe, "minimize", p, m], env=runenv(config), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if q.returncode == 1 and os.path.exists(m):
                doc = json.load(open(m))
                a = re.search(r"(ERROR: AddressSanitizer|WARNING: ThreadSanitizer|WARNING: MemorySanitizer|SUMMARY: \w+Sanitizer).*", q.stderr)
                if a:
                    doc["error"] += " (" + a.group(0) + ")"
                doc["component"] = "crash"
                raise Found(doc)
        # Not reproducible case by case (a deep job, or state left over): the same run must die again.
        q = subprocess.run(cmd, env=runenv(config), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=left)
        if q.returncode < 0 and q.returncode != -signal.SIGKILL:
            raise Found({"property": prop, "config": config, "place": "heap", "seed": seed, "component": "crash", "case": None, "rerun": cmd[1:],
                         "error": "the whole run dies with %s, twice\n%s" % (signal.Signals(-q.returncode).name, etext[-1500:])})
        raise Broken("configuration %s died once with %s\n%s" % (config, r.returncode, etext[-3000:]))
    raise Broken("configuration %s ended with %s\n%s\n%s" % (config, r.returncode, r.stdout[-2000:], etext[-3000:]))

def again(exe, doc, w):
    """A failure has to fail again by itself before it is believed, except where threads are involved."""
    case = doc.get("case") or {}
    if isinstance(case, dict) and ("Deep" in case or "Threads" in case or "Fresh" in case):
        return
    p = os.path.join(w, "again.json")
    json.dump(doc, open(p, "w"))
    r = subprocess.run([exe, "replay", p], env=runenv(doc["config"]), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    doc["fails_alone"] = r.returncode != 0

# --- Miri ------------------------------------------------------------------------------------

def miri_env(target, rustflags, seed=0, tdir="t-miri"):
    flags = "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-seed=%d" % seed
    e = environment("nightly", {"RUSTFLAGS": rustflags, "MIRIFLAGS": flags, "CARGO_TARGET_DIR": os.path.join(B, tdir)})
    if target != LINUX:
        e["XDG_CACHE_HOME"] = os.path.join(B, "miri-" + target.split("-")[0])
    if target in SYSROOT:
        e["MIRI_SYSROOT"] = SYSROOT[target]
    return e

SYSROOT = {}
def miri_setup(target):
    """The interpreter's standard library for one target: there already for this machine's, built here for others."""
    with locked("miri-" + target.split("-")[0]):
        r = subprocess.run(["cargo", "+nightly", "miri", "setup", "--quiet", "--print-sysroot", "--target", target], cwd=H,
                           env=miri_env(target, ""), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0 or not r.stdout.strip():
        return r.stderr[-3000:]
    SYSROOT[target] = r.stdout.strip().split("\n")[-1]
    return None

def miri_cmd(target, feats):
    return ["cargo", "+nightly", "miri", "run", "--offline", "--locked", "--quiet", "--target", target, "--no-default-features",
            "--features", features(feats), "--bin", "mirun", "--", "0"]

def tdir_of(job):
    return "t-miri-" + hashlib.sha1(repr(job[1:4]).encode()).hexdigest()[:8]

def miri_build(job):
    name, target, feats, rf, _, _ = job
    with locked(tdir_of(job)):
        r = subprocess.run(miri_cmd(target, feats), cwd=H, env=miri_env(target, rf, 0, tdir_of(job)), input="", stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True)
    if r.returncode != 0 or "DONE" not in r.stdout:
        return "%s\n%s" % (r.stdout[-500:], r.stderr[-3000:])
    log("Miri ready:", name)
    return None

def miri_shard(job, seed, lines, timeout=None):
    """None, or (failing line or None, message)."""
    name, target, feats, rf, _, _ = job
    try:
        r = subprocess.run(miri_cmd(target, feats), cwd=H, env=miri_env(target, rf, seed, tdir_of(job)), input="\n".join(lines) + "\n",
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, "timeout", 0
    done = len(re.findall(r"^OK ", r.stdout, re.M))
    if r.returncode == 0 and "DONE" in r.stdout:
        return None, None, done
    begun = re.findall(r"^BEGIN (\d+)", r.stdout, re.M)
    m = re.search(r"^FAIL \d+ (.*)", r.stdout, re.M)
    u = re.search(r"^error: (.*(?:\n(?!\n).*){0,8})", r.stderr, re.M)
    msg = m.group(1) if m else u.group(1) if u else None
    if not msg or not begun or re.search(r"^OK %s " % begun[-1], r.stdout, re.M):
        return None, "ended with %s: %s %s" % (r.returncode, r.stdout[-300:], r.stderr[-1500:]), done
    return lines[int(begun[-1])], msg, done

def miri_run(prop, seed, tier, exe, work, left):
    jobs = miri_plan(prop, tier == "thorough")
    if not jobs:
        return [], None
    reports = []
    tasks = []
    with ThreadPoolExecutor(CORES) as ex:
        targets = sorted({j[1] for j in jobs})
        for t, bad in zip(targets, ex.map(miri_setup, targets)):
            if bad:
                raise Broken("Miri could not be set up for %s: %s" % (t, bad))
        ready = list(ex.map(miri_build, jobs))
        for ji, (job, bad) in enumerate(zip(jobs, ready)):
            if bad:
                # The harness builds natively by now: what is left is a difference of this platform.
                if re.search(r"Undefined Behavior|SELFTEST", bad):
                    raise Broken("Miri, %s: %s" % (job[0], bad))
                raise Broken("Miri could not be set up for %s: %s" % (job[0], bad))
            lines = []
            for kind, n in job[4].items():
                g = subprocess.run([exe, "gen", "--what", kind, "--n", str(n), "--seed", str(seed * 1000 + ji), "--maxlen", "1500"],
                                   stdout=subprocess.PIPE, text=True, check=True)
                lines += g.stdout.split("\n")[:-1]
            reports.append({"interpreter": "Miri", "platform": job[0], "target": job[1], "cases": lines, "evaluations": 0, "skipped": []})
            # Costly kinds spread over the shards.
            per = 3
            k = max(1, (len(lines) + per - 1) // per)
            for s in job[5]:
                for i in range(k):
                    tasks.append((ji, job, s, lines[i::k]))
        found = []
        def go(t):
            if found or left() < 30:
                return (t, None, "not run", 0)
            r = miri_shard(t[1], t[2], t[3], timeout=max(30, left()))
            if r[0] is not None and r[1] and not re.search(r"unsupported operation|resource exhaustion", r[1]):
                found.append((t, r))
            return (t,) + r
        for t, line, msg, done in ex.map(go, tasks):
            reports[t[0]]["evaluations"] += done
            if msg and line is None and msg not in ("not run", "timeout"):
                raise Broken("Miri, %s: %s" % (t[1][0], msg))
            if msg and msg in ("not run", "timeout"):
                reports[t[0]]["skipped"].append(msg)
            elif msg and not found:
                reports[t[0]]["skipped"].append("%s: %s" % (msg.split("\n")[0], line[:200]))
        if found:
            t, r = found[0]
            doc = {"property": prop, "config": "miri", "platform": t[1][0], "miri": list(t[1][:4]), "miri_seed": t[2], "component": "Miri",
                   "error": r[1], "case": json.loads(r[0])}
            # Shrink by dropping operations while the interpreter still complains.
            shrink_miri(t[1], t[2], doc, left)
            return reports, doc
    return reports, None

def shrink_miri(job, seed, doc, left):
    case = doc["case"]
    end = time.time() + min(120, left() - 60)
    if "Prog" in case:
        ops = case["Prog"]["ops"]
        i = len(ops) - 1
        while i >= 0 and time.time() < end:
            rest = ops[:i] + ops[i + 1:]
            line, msg, _ = miri_shard(job, seed, [json.dumps({"Prog": {"ops": rest}})])
            if line is not None and msg and "unsupported" not in msg:
                ops = rest
                doc["error"] = msg
            i -= 1
        case["Prog"]["ops"] = ops

# --- a 32-bit program ------------------------------------------------------------------------

def build32(work, checked):
    with locked("t-i686"):
        r = subprocess.run(native32.CARGO + (native32.CHECKED if checked else []), cwd=os.path.join(V, "mini32"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=environment("nightly", {"RUSTFLAGS": native32.RUSTFLAGS, "CARGO_TARGET_DIR": os.path.join(B, "t-i686")}))
        if r.returncode != 0:
            raise Broken("building the 32-bit program failed:\n%s" % r.stdout[-1500:])
        exe = os.path.join(work, "mini32")
        shutil.copy(os.path.join(B, "t-i686", native32.TARGET, "release", "mini32"), exe)
    try:
        ok = subprocess.run([exe], input=native32.PAT, stdout=subprocess.PIPE).returncode == 0
    except OSError:
        ok = False
    if not ok:
        raise Broken("this machine runs no 32-bit programs")
    log("built i686-checked" if checked else "built i686")
    return exe

def run32(prop, seed, tier, exe, work, left):
    """(numbers for the evidence, violation or None)"""
    t = time.time()
    if not native32.model_ok():
        raise Broken("the model beside the 32-bit program is wrong")
    thorough = tier == "thorough"
    jobs = []
    config = "i686-checked" if prop == "C24" else "i686"
    if prop in ("C11", "C24"):
        jobs = [(n, l, None) for n, l in native32.big_lists(seed, thorough)]
    if prop != "C11":
        for b in range(600 if thorough else 20 if prop == "C24" else 60):
            r = random.Random("%d %s %d" % (seed, prop, b))
            cases = [native32.gen_case(r) for _ in range(100)]
            jobs.append(("batch", [op for i, c in enumerate(cases) for op in c + [["end", i]]], cases))
    found, seen, evals, notes = [], set(), 0, []
    def go(job):
        if found or left() < 60:
            return None
        try:
            w = native32.run(exe, job[1], max(30, left() - 30))
            # C24 is about calls that do not return; what they return is for the others.
            return None if w and prop == "C24" and "panics" not in w[1] and "ended with" not in w[1] else w
        except TimeoutError:
            return "time"
    with ThreadPoolExecutor(CORES) as ex:
        for (name, ops, cases), w in zip(jobs, ex.map(go, jobs)):
            if w == "time":
                notes.append("%s: ran out of time" % name)
            elif w and not found:
                # The case alone, if it still fails without the ones before it.
                alone = cases[sum(op[0] == "end" for op in ops[:w[0]])] if cases else ops
                small, v = native32.shrink(exe, alone, time.time() + min(60, left() - 20)) if cases else (ops[:w[0] + 1], w)
                if not v:
                    small, v = ops[:w[0] + 1], w
                found.append({"property": prop, "config": config, "component": "32-bit program", "calls": small, "seed": seed, "error": v[1]})
            else:
                evals += len(cases or [0])
                seen.update(int.from_bytes(hashlib.blake2b(json.dumps(c).encode(), digest_size=8).digest(), "little")
                            for c in cases or [ops] if not cases or native32.nontrivial(c))
    w = os.path.join(work, "i686")
    os.makedirs(w)
    open(os.path.join(w, "out.json.hashes"), "wb").write(array.array("Q", sorted(seen)).tobytes())
    s = {"config": config, "evaluations": evals, "distinct_nontrivial": len(seen), "classes": {}, "wall_s": round(time.time() - t, 2),
         "samples": [{"component": "32-bit program", "case": json.dumps(c)[:600]} for c in (jobs[-1][2] or [jobs[-1][1]])[:2]],
         "components": [{"component": "calls made by a 32-bit program", "kind": "random generation", "evaluations": evals, "distinct_nontrivial": len(seen),
                         "nontrivial_if_any_of": ["past 4 GiB", "several updates", "more than one block"], "notes": notes}]}
    return s, found[0] if found else None

# --- the check -------------------------------------------------------------------------------

def finish(prop, tier, seed, stats, miri, violation, notes):
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    seen = set()
    for s in stats:
        a = array.array("Q")
        a.frombytes(open(s["_hashes"], "rb").read())
        seen.update(a)
    distinct = len(seen) + sum(s["_deep"] for s in stats)
    evals = sum(s["evaluations"] for s in stats) + sum(m["evaluations"] for m in miri)
    mlines = set()
    for m in miri:
        mlines.update(m["cases"])
    distinct += len(mlines) if any(m["evaluations"] for m in miri) else 0
    classes = {}
    for s in stats:
        for k, v in s["classes"].items():
            classes[k] = classes.get(k, 0) + v
    samples = [x for s in stats for x in s["samples"]][:12]
    samples += [{"platform": m["platform"], "case": m["cases"][0][:600]} for m in miri if m["cases"]][:4]
    cov = {
        "evaluations": evals,
        "distinct_nontrivial": distinct,
        "rule": "A case: %s. The component lists below say which classes count as non-trivial; distinct cases are counted over all configurations together." % RULES[prop],
        "samples": samples or ["none: the run stopped at once"],
        "classes": classes,
        "configurations": [{k: v for k, v in s.items() if k in ("config", "evaluations", "components", "wall_s", "cpu", "most_stack_bytes", "cost_per_1000_bytes", "instructions_watched")} for s in stats],
    }
    if violation:
        cov["violation"] = violation
    if miri:
        cov["interpreted"] = [{k: v for k, v in m.items() if k != "cases"} for m in miri]
    if notes:
        cov["notes"] = notes
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "wall_s": round(time.time() - T0, 2),
        "violations": 1 if violation else 0,
        "assumptions": ["the reference model (harness/core/src/refimpl.rs) states the BLAKE2 specification; it agreed with all embedded known-answer vectors at the start of every run"],
    }
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

def check(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(re.sub(r"\D", "", os.environ.get("VERIF_SEED", "1")) or 1)
    budget = 780 if tier == "quick" else 3 * 3600
    left = lambda: budget - (time.time() - T0)
    work = os.path.join(B, "work", "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    stats, miri, doc, notes = [], [], None, []
    try:
        exes = {}
        built = {}
        p = plan(prop, tier == "thorough")
        errors = []
        def builder():
            for c, _, _ in p:
                base = c.split("@")[0]
                try:
                    exes[c] = exes[base] if base in exes else build(c, work)
                except Exception as e:  # a thread that dies without a word would leave the check waiting
                    errors.append(e)
                    if base in OPTIONAL:
                        notes.append("not explored: " + str(e)[:600])
                built[c].set()
        for c, _, _ in p:
            built[c] = threading.Event()
        th = threading.Thread(target=builder, daemon=True)
        th.start()
        box32, th32 = {}, None
        def builder32():
            try:
                box32["exe"] = build32(work, prop == "C24")
            except Exception as e:
                box32["why"] = str(e)[:600]
        if prop in ("C11", "C19", "C24"):
            th32 = threading.Thread(target=builder32, daemon=True)
            th32.start()
        mfut = None
        for c, share, deep in p:
            if not built[c].wait(max(0, left() - 20) if stats else None):
                notes.append("not explored: %s and what follows, for want of time" % c)
                break
            if c not in exes:
                if c in OPTIONAL:
                    log("could not build", c)
                    continue
                raise errors[0]
            try:
                s = run_config(prop, c, share, deep, exes[c], work, seed, tier, left())
            except Found as f:
                doc = f.doc
                break
            except Unfinished as e:
                # A slow machine: what the configurations before this one explored still counts.
                if not stats:
                    raise
                log(e)
                notes.append("not explored to its end: %s" % e)
                if left() < 20:
                    break
                continue
            if s is None:
                notes.append("not explored: %s (%s)" % (c, "the callbacks are missing" if "cov" in c else "this machine cannot pretend to be a lesser CPU"))
                continue
            s["_hashes"] = os.path.join(work, c, "out.json.hashes")
            s["_deep"] = sum(x["evaluations"] for x in s["components"] if "kind" not in x)
            stats.append(s)
            log("%s: %d cases, %d distinct non-trivial" % (c, s["evaluations"], s["distinct_nontrivial"]))
        if th32:
            th32.join()
            if doc is None and "exe" in box32 and left() > 120:
                s, doc = run32(prop, seed, tier, box32["exe"], work, left)
                s["_hashes"], s["_deep"] = os.path.join(work, "i686", "out.json.hashes"), 0
                stats.append(s)
                log("%s: %d cases" % (s["config"], s["evaluations"]))
            elif doc is None:
                notes.append("not explored: a 32-bit program (%s)" % box32.get("why", "for want of time"))
        if doc is None:
            if left() > 60:
                th.join(left() - 60)
            if left() > 60:
                miri, doc = miri_run(prop, seed, tier, exes[p[0][0]], work, left)
            else:
                notes.append("not explored: Miri, for want of time")
            for m in miri:
                log("Miri, %s: %d cases" % (m["platform"], m["evaluations"]))
        violation = None
        if doc is not None:
            doc["property"] = prop
            os.makedirs(os.path.join(V, "replays"), exist_ok=True)
            blob = json.dumps(doc, indent=1, sort_keys=True)
            path = os.path.join(V, "replays", "%s-%s.json" % (prop, hashlib.sha1(blob.encode()).hexdigest()[:12]))
            with open(path, "w") as f:
                f.write(blob)
            violation = {"replay": path, "config": doc.get("config"), "component": doc.get("component"), "error": doc.get("error")}
        finish(prop, tier, seed, stats, miri, violation, notes)
        if violation:
            print("%s: %s" % (doc.get("config"), doc.get("error")))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        print("%s held on everything explored (%.0f s)" % (prop, time.time() - T0))
        return 0
    except Broken as e:
        print("ERROR: the check could not be completed: %s" % e)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)

def replay(path):
    doc = json.load(open(path))
    if doc.get("config") == "miri":
        job = tuple(doc["miri"]) + (None, None)
        bad = miri_setup(job[1]) or miri_build(job)
        if bad:
            print(bad)
            return 2
        line, msg, _ = miri_shard(job, doc["miri_seed"], [json.dumps(doc["case"])])
        print("PASS" if not msg else "FAIL %s" % msg)
        return 1 if msg else 0
    work = os.path.join(B, "work", "replay-%d" % os.getpid())
    os.makedirs(work)
    try:
        if doc.get("config") in ("i686", "i686-checked"):
            w = native32.run(build32(work, "checked" in doc["config"]), doc["calls"], 3600)
            print("FAIL %s" % w[1] if w else "PASS")
            return 1 if w else 0
        exe = build(doc["config"], work)
        if doc.get("rerun"):
            cmd = doc["rerun"]
            for k in ("--work", "--out"):
                cmd[cmd.index(k) + 1] = work if k == "--work" else work + "/o.json"
            r = subprocess.run([exe] + cmd, env=runenv(doc["config"]))
        else:
            r = subprocess.run([exe, "replay", path], env=runenv(doc["config"]))
        return 0 if r.returncode == 0 else 1
    except Broken as e:
        print("ERROR: %s" % e)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)

if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    if len(sys.argv) == 3 and sys.argv[2] == "--thorough":
        os.environ["VERIF_TIER"] = sys.argv.pop()[2:]
    if len(sys.argv) != 2 or sys.argv[1] not in RULES:
        print(__doc__)
        sys.exit(2)
    sys.exit(check(sys.argv[1]))
