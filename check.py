#!/usr/bin/env python3
"""Run the check of one property: build the monitors against /repo's working
tree, drive the workload, judge, write evidence/<id>.json.

  check.py C05                 the tier in $VERIF_TIER (default quick)
  check.py --replay FILE       judge one saved case again
  check.py --setup             build all monitor flavours

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken.
Exit 2: inconclusive (the tree does not build, a tool failed, too little seen).
"""
import concurrent.futures as cf
import json
import os
import re
import resource
import shutil
import struct
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, ".build")
EVID = os.path.join(VERIF, "evidence")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
CORES = 8
TARGET = "x86_64-unknown-linux-gnu"

RULES = {
    "C01": "valid, faulty, mutated, damaged, word-soup and garbage texts of both formats, boundary sizes and repository assets; each is parsed by both parsers and everything returned is displayed and debug-formatted under a memory budget; non-trivial: non-empty text",
    "C02": "as C01, from an exactly sized heap copy; non-trivial: at least one non-ASCII string was returned and checked",
    "C03": "text families and random blocks grown 8-fold (repeated statements, wide lines, tall words); cost per byte of text plus result must not grow; non-trivial: a family measured at both sizes",
    "C04": "well-formed documents rich in coordinates of every notation, boundary sizes, assets; every coordinate compared bit for bit; non-trivial: at least one object",
    "C05": "well-formed documents rich in elements, positive and negative indices across objects; non-trivial: at least one element resolved",
    "C06": "documents with one index made unresolvable at a random element, position and part, and well-formed ones; non-trivial: at least one element, or a rejection",
    "C07": "point, line and face statements of every length and form, too short or mixed ones, boundary sizes; non-trivial: at least one element, or a rejection",
    "C08": "well-formed documents rich in group statements; non-trivial: at least one element",
    "C09": "well-formed documents rich in smoothing statements; non-trivial: at least one element",
    "C10": "well-formed documents rich in material statements; non-trivial: at least one element",
    "C11": "well-formed documents of up to 7 objects, cut at a random object and relocated behind a random prefix; non-trivial: at least one object",
    "C12": "texts of every kind re-rendered from their words with other comments, blanks and line ends; non-trivial: at least one line",
    "C13": "documents with targeted malformed statements, mutations and damage; non-trivial: not accepted by the oracle",
    "C14": "as C13, with noise and every line-end style; non-trivial: not accepted by the oracle",
    "C15": "well-formed MTL documents, statements in any order, subset and repetition; non-trivial: at least one material",
    "C16": "MTL documents with targeted malformed statements, mutations and damage; non-trivial: not accepted by the oracle",
    "C17": "well-formed documents of both formats with names over all of Unicode, keyword-like, long and numeric names; non-trivial: at least one object or material",
    "C18": "texts of every kind through all entry points, processes, orders, histories, threads and build profiles; non-trivial: non-empty text",
    "C19": "parsed and hand-made objects probed with indices inside, at and far beyond the lists; every case probes, non-trivial: distinct documents",
    "C20": "parsed objects displayed, re-assembled and parsed again; summaries compared; non-trivial: at least one vertex displayed",
    "C21": "well-formed documents of both formats with random statement mixes and layout; non-trivial: at least one object or material",
    "C22": "texts of every kind, each parsed repeatedly and as variants that differ in names and coordinates, results dropped; live bytes of the thread's allocator compared; non-trivial: non-empty text",
    "C23": "well-formed, faulty, mutated, damaged and joined-line texts and word soup; whatever is accepted is checked for internal consistency; non-trivial: at least one element returned",
}

# Random cases per profile: (quick, thorough)
CASES = {
    "C01": (250_000, 5_000_000), "C02": (250_000, 5_000_000), "C04": (300_000, 6_000_000),
    "C05": (250_000, 5_000_000), "C06": (400_000, 8_000_000), "C07": (300_000, 6_000_000),
    "C08": (300_000, 6_000_000), "C09": (300_000, 6_000_000), "C10": (300_000, 6_000_000),
    "C11": (200_000, 4_000_000), "C12": (250_000, 5_000_000), "C13": (500_000, 10_000_000),
    "C14": (500_000, 10_000_000), "C15": (400_000, 8_000_000), "C16": (600_000, 12_000_000),
    "C17": (300_000, 6_000_000), "C18": (80_000, 1_500_000), "C19": (150_000, 3_000_000),
    "C20": (150_000, 3_000_000), "C21": (300_000, 6_000_000), "C22": (40_000, 800_000), "C23": (400_000, 8_000_000),
}

MIN_EVENTS = {  # a run that saw less than this decides nothing
    "C01": [("obj_ok", 1000), ("obj_err", 1000), ("mtl_ok", 500), ("mtl_err", 500)],
    "C02": [("strings_checked", 10000), ("non_ascii_strings_checked", 1000)],
    "C06": [("reject_expected", 1000), ("values_compared", 1000)],
    "C07": [("reject_expected", 1000), ("values_compared", 1000)],
    "C11": [("prefixes_compared", 1000), ("relocations_compared", 500)],
    "C12": [("renderings_compared", 5000), ("accepted", 500), ("rejected", 500)],
    "C13": [("reject_expected", 1000)], "C14": [("reject_expected", 1000)],
    "C16": [("rejected", 1000)], "C18": [("comparisons", 10000)],
    "C19": [("lookups_found", 10000), ("lookups_absent", 10000), ("type_comparisons", 1000)],
    "C20": [("round_trips", 1000), ("summaries", 1000)],
    "C23": [("elements_checked", 100000), ("indices_looked_up", 100000), ("geometries_checked", 10000)],
    "C22": [("parses_measured", 100000), ("bytes_allocated", 10_000_000), ("accepted", 1000), ("rejected", 1000)],
}
for _p in ("C04", "C05", "C08", "C09", "C10", "C15", "C17", "C21"):
    MIN_EVENTS[_p] = [("values_compared", 10000)]


class Inconclusive(Exception):
    pass


class Violation(Exception):
    def __init__(self, message, replay):
        super().__init__(message)
        self.message, self.replay = message, replay


def sh(cmd, env=None, timeout=None, cpu=None, mem=None, cwd=None, procs=None, bare=False):
    def pre():
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    e = {} if bare else dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, preexec_fn=pre, cwd=cwd)
    if procs is not None:
        procs.append(p)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        return -999, out.decode("utf-8", "replace"), err.decode("utf-8", "replace")
    return p.returncode, out.decode("utf-8", "replace"), err.decode("utf-8", "replace")


def build(flavour):
    """Returns the path of the monitor binary built from /repo's working tree."""
    env = {"CARGO_TERM_COLOR": "never"}
    d = os.path.join(BUILD, flavour)
    cmd = ["cargo"]
    if flavour == "checked":
        cmd += ["build"]
        binary = os.path.join(d, "debug", "mon")
    elif flavour == "release":
        cmd += ["build", "--release"]
        binary = os.path.join(d, "release", "mon")
    elif flavour == "plain":
        cmd += ["build", "--profile", "plain"]
        binary = os.path.join(d, "plain", "mon")
    elif flavour == "guided":
        cmd += ["build", "--profile", "guided"]
        env["RUSTC_WRAPPER"] = os.path.join(HARNESS, "rustc_cov.sh")
        binary = os.path.join(d, "guided", "mon")
    elif flavour == "asan":
        cmd += ["+nightly", "build", "--target", TARGET]
        env["RUSTFLAGS"] = "-Zsanitizer=address"
        binary = os.path.join(d, TARGET, "debug", "mon")
    elif flavour == "tsan":
        cmd += ["+nightly", "build", "-Zbuild-std", "--target", TARGET]
        env["RUSTFLAGS"] = "-Zsanitizer=thread"
        binary = os.path.join(d, TARGET, "debug", "mon")
    cmd += ["--offline", "--manifest-path", os.path.join(HARNESS, "Cargo.toml")]
    env["CARGO_TARGET_DIR"] = d
    t = time.time()
    rc, out, err = sh(cmd, env=env, timeout=700)
    if rc != 0 or not os.path.exists(binary):
        raise Inconclusive(f"building the {flavour} monitors failed:\n{err[-3000:]}")
    print(f"built {flavour} monitors in {time.time() - t:.1f} s", flush=True)
    return binary


def replay_path(prop, tag):
    d = os.path.join(EVID, "replay")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, f"{prop}-{tag}.case")


def death(prop, cmd, path, case, env=None):
    """Judge a case that ended a run, alone. Returns if it does no harm alone."""
    r, out, e = sh(cmd, env=env, cpu=100, timeout=400, mem=None if env else 14 << 30)
    if r == 1 and "VIOLATED" in out:
        raise Violation(out.split("VIOLATED ", 1)[1][:500], path)
    timed_out = r in (-24, -9, -999)
    if r == 0 or (r > 0 and "AddressSanitizer" not in e):
        return
    what = (e.strip().splitlines() or ["no message"])[-1][:300]
    for l in e.splitlines():
        if "ERROR: AddressSanitizer" in l or "unsafe precondition" in l or "overflowed its stack" in l or "memory allocation" in l:
            what = l.strip()[:300]
            break
    if timed_out:
        if prop == "C01":
            raise Violation(f"parsing {case} did not finish in 100 s of CPU time (texts of its size take milliseconds)", path)
        raise Inconclusive(f"{case} did not finish in 100 s of CPU time; see C01")
    if prop in ("C01", "C02"):
        raise Violation(f"{case} ended the process (status {r}): {what}", path)
    if "\nUNSPECIFIED" not in "\n" + out and prop not in ("C12", "C18", "C22"):
        raise Violation(f"{case}: no result, the process ended (status {r}): {what}", path)
    raise Inconclusive(f"{case} ended the process (status {r}): {what}")


def recover(prop, binary, args, state, tag, rc, err, env=None):
    """A run died. Find the case by running the candidates alone."""
    try:
        raw = open(state, "rb").read()
    except OSError:
        raw = b""
    idx = sorted({i - 1 for (i,) in struct.iter_unpack("<Q", raw[: len(raw) // 8 * 8]) if i})
    for i in idx:
        path = replay_path(prop, f"{tag}-crash")
        cmd = [binary, "one", prop, *args, f"index={i}", f"save={path}"]
        death(prop, cmd, path, f"case {i}", env)
    raise Inconclusive(f"the {tag} run ended with status {rc} and no single case reproduces it:\n{err[-2000:]}")


def monitor(prop, binary, tag, cases, extra=(), env=None, max_secs=None, seed=None):
    """Run the property's monitor; returns its report."""
    args = [f"seed={SEED if seed is None else seed}", f"thorough={int(THOROUGH)}", f"repo={REPO}", *extra]
    out = os.path.join(BUILD, f"{prop}-{tag}.json")
    state = os.path.join(BUILD, f"{prop}-{tag}.state")
    for f in (out, state):
        if os.path.exists(f):
            os.remove(f)
    replay = replay_path(prop, tag)
    cap = max_secs or (1500 if THOROUGH else 150)
    cmd = [binary, "run", prop, *args, f"cases={cases}", f"threads={CORES}", f"out={out}", f"state={state}", f"replay={replay}", f"max_secs={cap}"]
    t = time.time()
    rc, so, err = sh(cmd, env=env, timeout=cap + 400, mem=None if env else 24 << 30)
    took = time.time() - t
    if rc == -999:
        raise Inconclusive(f"the {tag} run timed out")
    if rc not in (0, 1, 2):
        recover(prop, binary, args, state, tag, rc, err, env)
    if env and "ERROR: AddressSanitizer" in err:
        recover(prop, binary, args, state, tag, rc, err, env)
    rep = json.load(open(out))
    rep["seconds"] = round(took, 1)
    print(f"{tag}: {rep['evaluations']} cases, {rep['distinct_nontrivial']} distinct non-trivial, {took:.1f} s", flush=True)
    if rc == 1:
        v = rep["violation"]
        raise Violation(f"[{tag}] case {v['index']}: {v['message']}", v["replay"])
    if rc == 2:
        raise Inconclusive(f"[{tag}] {rep.get('harness_error', err[-2000:])}")
    return rep


def guided(prop, cov):
    """Coverage-guided workers: documents that make the library do something
    new are kept and mutated; every one is judged by the property's monitor."""
    try:
        b = build("guided")
    except Inconclusive as e:  # the other workloads built and decide; say so in the evidence
        print(f"guided workload not available: {e}", flush=True)
        cov["runs"]["guided"] = {"evaluations": 0, "not_run": str(e)[-500:]}
        return
    secs = 600 if THOROUGH else 14
    t = time.time()

    def one(k):
        cur, rep = os.path.join(BUILD, f"{prop}-guided-{k}.case"), replay_path(prop, f"guided-{k}")
        cmd = [b, "guided", prop, f"seed={SEED + 5000}", f"worker={k}", f"repo={REPO}", "execs=100000000", f"max_secs={secs}", f"current={cur}", f"replay={rep}"]
        return (k, cur, *sh(cmd, timeout=secs + 90, mem=14 << 30))

    with cf.ThreadPoolExecutor(CORES) as ex:
        res = list(ex.map(one, range(CORES)))
    reps, lost = [], []
    for k, cur, rc, out, err in sorted(res, key=lambda r: r[2] != 1):
        if rc not in (0, 1, 2):
            path = replay_path(prop, f"guided-{k}-crash")
            if os.path.exists(cur):
                shutil.copy(cur, path)
                death(prop, [b, "replay", path], path, "a coverage-guided case")
            lost.append(f"worker {k} ended with status {rc}: {err[-300:]}")
            continue
        r = json.loads(out)
        if rc == 1:
            v = r["violation"]
            raise Violation(f"[guided] {v['message']}", v["replay"])
        if rc == 2:
            raise Inconclusive(f"[guided] {r.get('harness_error', err[-1500:])}")
        reps.append(r)
    if len(lost) > CORES // 2:
        raise Inconclusive(f"coverage-guided workers died: {lost}")
    if min(r["edges_covered"] for r in reps) < 50:
        raise Inconclusive("coverage-guided workers saw no coverage of the library")
    tot = {key: sum(r[key] for r in reps) for key in ("evaluations", "distinct_nontrivial", "bytes_parsed", "corpus")}
    tot.update({"edges": reps[0]["edges"], "edges_covered": max(r["edges_covered"] for r in reps),
                "edge_features": max(r["edge_features"] for r in reps), "comparison_features": max(r["comparison_features"] for r in reps),
                "workers": len(reps), "workers_lost": lost, "seconds": round(time.time() - t, 1)})
    ev = {}
    for r in reps:
        for key, v in r["events"].items():
            ev[key] = ev.get(key, 0) + v
    tot["events"] = ev
    cov["evaluations"] += tot["evaluations"]
    cov["distinct_nontrivial"] += tot["distinct_nontrivial"]
    cov["runs"]["guided"] = tot
    print(f"guided: {tot['evaluations']} cases, {tot['edges_covered']} edges, {tot['corpus']} kept, {tot['seconds']} s", flush=True)


def enough(prop, rep):
    for key, least in MIN_EVENTS.get(prop, []):
        if rep["events"].get(key, 0) < least:
            raise Inconclusive(f"too little observed: {key} = {rep['events'].get(key, 0)} < {least}")


def combine(cov, rep, tag):
    cov["evaluations"] = cov.get("evaluations", 0) + rep["evaluations"]
    cov["distinct_nontrivial"] = cov.get("distinct_nontrivial", 0) + rep["distinct_nontrivial"]
    cov.setdefault("samples", [])
    cov["samples"] += rep["samples"][: 4 - min(4, len(cov["samples"]))]
    cov.setdefault("runs", {})[tag] = {k: v for k, v in rep.items() if k not in ("samples",)}


# ------------------------------------------------------------ plain monitors

def check_plain(prop, cov):
    n = CASES[prop][THOROUGH]
    for flavour, off in (("checked", 0), ("release", 1000)):
        rep = monitor(prop, build(flavour), flavour, n, seed=SEED + off)
        enough(prop, rep)
        combine(cov, rep, flavour)
    if prop == "C01":
        # Unoptimised, on the stack a Rust thread has by default: sizes and some of the rest.
        rep = monitor(prop, build("plain"), "plain", n // 10, extra=["stack=2097152"], seed=SEED + 2000)
        combine(cov, rep, "plain")
    if prop == "C22":
        for flavour in ("checked", "release"):
            p = replay_path(prop, f"{flavour}-threads")
            rc, out, err = sh([build(flavour), "fresh", f"seed={SEED}", f"repo={REPO}", f"texts={400 if THOROUGH else 40}", f"replay={p}"], timeout=900)
            if rc == 1:
                raise Violation(err.strip()[:400], p)
            if rc != 0:
                raise Inconclusive(f"fresh-thread run failed ({rc}): {err[-800:]}")
            cov["runs"][f"{flavour}, a thread per parse"] = json.loads(out)
            cov["evaluations"] += json.loads(out)["parses"]
    guided(prop, cov)


# ---------------------------------------------------------------------- C02

def check_c02(prop, cov):
    n = CASES[prop][THOROUGH]
    rep = monitor(prop, build("checked"), "checked", n)
    enough(prop, rep)
    combine(cov, rep, "checked")
    rep = monitor(prop, build("release"), "release", n, seed=SEED + 1000)
    combine(cov, rep, "release")
    asan = build("asan")
    env = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=99:abort_on_error=0:detect_stack_use_after_return=1:allocator_may_return_null=1:quarantine_size_mb=16"}
    rep = monitor(prop, asan, "asan", 2_000_000 if THOROUGH else 60_000, extra=["max_size=5000" if not THOROUGH else "max_size=100000"], env=env, seed=SEED + 2000)
    combine(cov, rep, "asan")
    guided(prop, cov)
    check_miri_files(prop, cov, 1000 if THOROUGH else 45)
    if THOROUGH:
        vg = shutil.which("valgrind")
        if vg:
            b = build("release")
            cmd = [vg, "--tool=memcheck", "--error-exitcode=77", "--undef-value-errors=yes", "-q", b, "run", prop, f"seed={SEED + 3000}", f"repo={REPO}", "threads=1", "cases=3000", "fixed=0"]
            rc, out, err = sh(cmd, timeout=1500)
            if rc == 77:
                p = replay_path(prop, "memcheck")
                open(p, "w").write("memcheck\n" + " ".join(cmd) + "\n" + err)
                raise Violation("valgrind memcheck reported an invalid access: " + err[:400], p)
            if rc != 0:
                raise Inconclusive(f"memcheck run failed ({rc}): {err[-800:]}")
            cov["runs"]["memcheck"] = {"cases": 3000, "reports": 0}


def miri_env(many_seeds=0):
    return {"CARGO_TARGET_DIR": os.path.join(BUILD, "miri"), "CARGO_TERM_COLOR": "never",
            "MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-ignore-leaks" + (f" -Zmiri-many-seeds=0..{many_seeds}" if many_seeds else "")}


MIRI = ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--manifest-path", os.path.join(HARNESS, "Cargo.toml"), "--"]


def miri_judge(prop, cmd, rc, out, err, tag):
    def keep(message):
        p = replay_path(prop, tag)
        open(p, "w").write("miri\n" + " ".join(cmd) + "\n\n" + out[-5000:] + "\n" + err[-20000:])
        raise Violation(message, p)

    m = re.search(r"error: Undefined Behavior.*|error: .*Data race detected.*", err)
    if m:
        keep("miri: " + m.group(0)[:300])
    if rc == 1 and "VIOLATED" in out:
        keep("under miri: " + out.split("VIOLATED ", 1)[1][:400])
    if rc != 0:
        raise Inconclusive(f"miri run failed with status {rc}: {err[-1500:]}")


def check_miri_files(prop, cov, per_chunk):
    """The texts are generated natively; the interpreter only parses and judges."""
    b = build("release")
    rc, out, err = sh(MIRI + ["list"], env=miri_env(), timeout=600)  # build once
    files = []
    for k in range(CORES):
        f = os.path.join(BUILD, f"{prop}-miri-{k}.txt")
        rc, out, err = sh([b, "dump", prop, f"cases={per_chunk}", f"max_text={300 if k % 2 else 120}", f"seed={SEED + 4000 + k}", f"repo={REPO}", f"out={f}"])
        if rc != 0:
            raise Inconclusive(f"dump failed: {err[-500:]}")
        files.append(f)
    t = time.time()

    def one(f):
        cmd = MIRI + ["file", prop, f"file={f}"]
        return (cmd, *sh(cmd, env=miri_env(), timeout=3000 if THOROUGH else 400))

    n = strings = 0
    with cf.ThreadPoolExecutor(CORES) as ex:
        for k, (cmd, rc, out, err) in enumerate(ex.map(one, files)):
            miri_judge(prop, cmd, rc, out, err, f"miri-{k}")
            m = re.search(r"JUDGED (\d+) (\d+)", out)
            if not m:
                raise Inconclusive("miri run gave no report")
            n += int(m.group(1))
            strings += int(m.group(2))
    took = round(time.time() - t, 1)
    print(f"miri: {n} texts, {took} s", flush=True)
    cov["runs"]["miri"] = {"texts": n, "strings_checked": strings, "undefined_behaviour_reports": 0, "seconds": took}
    cov["evaluations"] += n


def check_miri_threads(prop, cov, count, many_seeds):
    cmd = MIRI + ["threads", "threads=3", "rounds=1", "late=1", "max_text=200", f"to={count}", f"seed={SEED + 4000}", "repo=/nonexistent"]
    t = time.time()
    rc, out, err = sh(cmd, env=miri_env(many_seeds), timeout=2400)
    miri_judge(prop, cmd, rc, out, err, "miri")
    print(f"miri: {many_seeds} schedules, {time.time() - t:.1f} s", flush=True)
    cov["runs"]["miri"] = {"texts": count, "schedules": many_seeds, "race_reports": 0, "seconds": round(time.time() - t, 1)}


# ---------------------------------------------------------------------- C03

GROW = 8
SCREEN_GROW = 12
LIMIT = 1.5       # instructions per byte of text and result
LIMIT_ALLOC = 2.2  # bytes allocated per byte of text and result


def callgrind(binary, fam, n, procs=None, timeout=700):
    cmd = ["valgrind", "--tool=callgrind", "--callgrind-out-file=/dev/null", "--collect-atstart=no",
           "--toggle-collect=mon_region_*", binary, "cost", fam, f"n={n}"]
    rc, out, err = sh(cmd, timeout=timeout, procs=procs)
    m = re.search(r"Collected : (\d+)", err)
    if rc != 0 or not m or '"family"' not in out:
        if "panicked" in err or "stack overflow" in err.lower():
            return None
        raise Inconclusive(f"callgrind failed on {fam} n={n} ({rc}): {err[-600:]}")
    d = json.loads(out)
    d["instructions"] = int(m.group(1))
    if d["instructions"] == 0:
        raise Inconclusive(f"callgrind saw no instructions for {fam}")
    return d


def native(binary, fam, n):
    rc, out, err = sh([binary, "cost", fam, f"n={n}", "reps=3"], timeout=600, cpu=300, mem=20 << 30)
    if rc in (-24, -9, -999):
        return "slow"
    if rc != 0:
        return None
    return json.loads(out)


def units(d):
    return d["len"] + d["result"]


def growth(a, b, key):
    """How much more `key` grew than the text and the result. A cost of x per byte of
    text and y per byte of result grows at most as the faster growing of the two."""
    by = max(b["len"] / max(a["len"], 1), units(b) / max(units(a), 1))
    if a["result"] * 5 > a["len"]:
        by = max(by, b["result"] / a["result"])
    return b[key] / max(a[key], 1e-9) / by


def goes_on(binary, fam, n, key):
    """Whether a growth seen up to n goes on beyond it: a step or a start-up cost does not."""
    k = 4 if n <= 60_000 else 2
    a = callgrind(binary, fam, n)
    try:
        b = callgrind(binary, fam, n * k, timeout=100)
    except Inconclusive:
        return True  # within seconds on a linear parser
    return a is None or b is None or growth(a, b, key) > (1.25 if k == 4 else 1.12)


def screen(cov):
    try:
        b = build("guided")
    except Inconclusive as e:  # the families below were measured all the same; say so in the evidence
        print(f"screening not available: {e}", flush=True)
        return {"not_run": str(e)[-500:]}
    n, rnd, limit = (30_000, 600, 1500) if THOROUGH else (20_000, 100, 240)

    def one(k):
        return sh([b, "screen", f"shard={k}", f"of={CORES}", f"n={n}", f"grow={SCREEN_GROW}", f"random={rnd}", f"seed={SEED}", f"repo={REPO}"],
                  timeout=limit, mem=14 << 30)

    with cf.ThreadPoolExecutor(CORES) as ex:
        res = list(ex.map(one, range(CORES)))
    tot, suspects = {"families": 0, "comparisons": 0, "worst": 0, "worst_family": "", "shards_cut_short": 0}, []
    for rc, out, err in res:
        for m in re.finditer(r"^SUSPECT (\S+) (\S+)$", out, re.M):
            suspects.append((float(m.group(1)), m.group(2)))
        m = re.search(r"^\{.*\}$", out, re.M)
        if m:
            r = json.loads(m.group(0))
            tot["families"] += r["families"]
            tot["comparisons"] += r["comparisons"]
            if r["worst"] > tot["worst"]:
                tot["worst"], tot["worst_family"] = r["worst"], r["worst_family"]
        else:
            tot["shards_cut_short"] += 1
            last = [l for l in err.split("\n") if re.fullmatch(r"(m_)?(pair|rep|repd|wide|tall):\S+", l)]
            suspects += [(99.0, f) for f in last[-1:]]
    suspects.sort(key=lambda x: -x[0])
    return {**tot, "suspected": len(suspects), "suspects": suspects}


def check_c03(prop, cov):
    b = build("release")
    rc, out, _ = sh([b, "cost", "list"])
    fams = out.split()
    k = 120 if THOROUGH else 16
    for kind in ("rep", "repd", "wide", "tall", "m_rep", "m_repd", "m_tall"):
        fams += [f"{kind}:{SEED * 1000 + i}" for i in range(k)]
    # Small sizes first: what is plainly superlinear shows before it gets slow.
    sizes = [(6_000, 6_000 * GROW), (24_000, 24_000 * GROW)] + ([(100_000, 100_000 * GROW)] if THOROUGH else [])
    worst, table, skipped, steps = {}, [], 0, []

    def violate(fam, n1, n2, what):
        p = replay_path(prop, re.sub(r"\W", "_", fam))
        open(p, "w").write(f"cost family={fam} sizes={n1},{n2}\n{what}\n")
        raise Violation(f"family {fam}: {what}", p)

    procs = []

    def measure(job):
        fam, n1, n2 = job
        return fam, n1, n2, callgrind(b, fam, n1, procs), callgrind(b, fam, n2, procs)

    def judge(fam, n1, n2, a, c):
        g = {key: growth(a, c, key) for key in ("instructions", "alloc_total", "alloc_peak")}
        table.append({"family": fam, "len": [a["len"], c["len"]], "instructions": [a["instructions"], c["instructions"]],
                      "growth_per_unit": round(g["instructions"], 3)})
        for key, v in g.items():
            # a few kilobytes of fixed allocations are not growth
            if key != "instructions" and c[key] < 200_000:
                continue
            worst[key] = max(worst.get(key, (0, "")), (round(v, 3), fam))
            if v > (LIMIT if key == "instructions" else LIMIT_ALLOC):
                if not goes_on(b, fam, n2, key):
                    steps.append(fam)
                    continue
                violate(fam, n1, n2, f"{key} per byte of text and result grew {v:.2f}-fold when the text grew {c['len'] / a['len']:.1f}-fold ({a[key]} -> {c[key]})")

    for n1, n2 in sizes:
        ex = cf.ThreadPoolExecutor(CORES)
        jobs = [ex.submit(measure, (fam, n1, n2)) for fam in fams]
        try:
            for j in cf.as_completed(jobs):
                fam, n1, n2, a, c = j.result()
                if a is None or c is None:
                    skipped += 1
                else:
                    judge(fam, n1, n2, a, c)
        finally:
            ex.shutdown(wait=False, cancel_futures=True)
            for p in procs:
                if p.poll() is None:
                    p.kill()
            ex.shutdown(wait=True)
            procs.clear()
    # Larger texts, natively: timing only selects what callgrind then decides.
    n1, n2 = (1_000_000, 8_000_000) if THOROUGH else (300_000, 2_400_000)
    suspects = []

    def big(fam):
        return fam, native(b, fam, n1), native(b, fam, n2)

    seen = 0
    with cf.ThreadPoolExecutor(4) as ex:
        for fam, a, c in ex.map(big, fams):
            if a is None or c is None:
                skipped += 1
                continue
            if a == "slow" or c == "slow":
                suspects.append(fam)
                continue
            seen += 1
            for key in ("alloc_total", "alloc_peak"):
                v = growth(a, c, key)
                if v > LIMIT_ALLOC and c[key] > 2_000_000 and goes_on(b, fam, n2, key):
                    violate(fam, n1, n2, f"{key} per byte of text and result grew {v:.2f}-fold when the text grew {c['len'] / a['len']:.1f}-fold ({a[key]} -> {c[key]})")
            if growth(a, c, "ns") > 3.0:
                suspects.append(fam)
    for fam in suspects[:12]:
        a, c = callgrind(b, fam, n1 // 2), callgrind(b, fam, n2 // 2)
        if a and c and growth(a, c, "instructions") > LIMIT and goes_on(b, fam, n2 // 2, "instructions"):
            violate(fam, n1 // 2, n2 // 2, f"instructions per byte of text and result grew {growth(a, c, 'instructions'):.2f}-fold")
    # Thousands of families (every two kinds of statement in bulk), natively in
    # the instrumented build: counts there only select what callgrind decides.
    scr, picked = screen(cov), []
    for v, fam in scr.pop("suspects", [])[:48 if THOROUGH else 16]:
        n1 = 3_000 if v == 99.0 else 20_000
        n2 = n1 * SCREEN_GROW
        a, c = callgrind(b, fam, n1), callgrind(b, fam, n2)
        if a and c:
            judge(fam, n1, n2, a, c)
            picked.append(fam)
    if len(table) < 100:
        raise Inconclusive(f"only {len(table)} measurements")
    cov.update({
        "screened": scr, "screen_suspects_confirmed_linear": picked,
        "evaluations": 2 * len(table) + 2 * seen + 2 * scr.get("families", 0), "distinct_nontrivial": len(table),
        "samples": sorted(table, key=lambda t: t["family"])[:6] + sorted(table, key=lambda t: -t["growth_per_unit"])[:4],
        "families": len(fams), "worst_growth_per_unit": {k: list(v) for k, v in worst.items()},
        "native_large_pairs": seen, "suspects_confirmed_linear": len(suspects), "skipped": skipped, "steps_not_growth": steps,
        "instructions_counted": sum(sum(t["instructions"]) for t in table),
    })


# ---------------------------------------------------------------------- C18

def digest_lines(binary, *args, **kw):
    rc, out, err = sh([binary, "digest", f"seed={SEED}", f"repo={REPO}", *args], timeout=900, mem=16 << 30, **kw)
    if rc != 0:
        raise Inconclusive(f"digest run failed ({rc}): {err[-800:]}")
    return out.split("\n")[:-1]


def check_c18(prop, cov):
    dbg, rel = build("checked"), build("release")
    rep = monitor(prop, dbg, "checked", CASES[prop][THOROUGH])
    enough(prop, rep)
    combine(cov, rep, "checked")
    guided(prop, cov)
    n = 400_000 if THOROUGH else 30_000
    ways = [("checked, in order", dbg, ["order=fwd"]), ("checked, reversed", dbg, ["order=rev"]),
            ("release, in order", rel, ["order=fwd"]), ("release, shuffled, polluted history", rel, ["order=shuffle", "history=1"]),
            ("checked, shuffled, polluted history", dbg, ["order=shuffle", "history=1"])]
    # Another environment: no variables but a foreign locale and every name the source mentions, another directory.
    rc, out, err = sh([dbg, "dict", os.path.join(REPO, "src")])
    names = [json.loads(l[2:]) for l in out.splitlines() if re.fullmatch(r'w "[A-Za-z_][A-Za-z0-9_]{1,40}"', l)]
    other = {k: "1" for k in names if not re.match("LD_|MALLOC|GLIBC|RUST|[A-Z]*SAN_", k)}
    other.update({"LANG": "de_DE.UTF-8", "LC_ALL": "tr_TR.UTF-8", "LC_NUMERIC": "de_DE.UTF-8", "TZ": "Asia/Kolkata", "HOME": "/nonexistent", "USER": "nobody"})
    elsewhere = {"env": other, "bare": True, "cwd": "/"}
    ways += [("checked, another environment", dbg, ["order=fwd"], elsewhere), ("release, another environment", rel, ["order=rev"], elsewhere)]
    with cf.ThreadPoolExecutor(len(ways)) as ex:
        res = list(ex.map(lambda w: digest_lines(w[1], f"to={n}", *w[2], **(w[3] if len(w) > 3 else {})), ways))

    def differs(i, how):
        p = replay_path(prop, "digest")
        sh([dbg, "history", f"seed={SEED}", f"repo={REPO}", f"from={i}", f"to={int(i) + 1}", f"save={p}", f"note={how}"])
        raise Violation(f"text {i} parses differently: {how}", p)

    for w, lines in zip(ways[1:], res[1:]):
        for a, b in zip(res[0], lines):
            if a != b:
                differs(a.split()[0], f"'{ways[0][0]}' and '{w[0]}' disagree")
        if len(lines) != len(res[0]) or len(lines) != n:
            raise Inconclusive("digest runs of different length")
    fresh = 2000 if THOROUGH else 240
    with cf.ThreadPoolExecutor(CORES) as ex:
        for i, l in enumerate(ex.map(lambda i: digest_lines(dbg if i % 2 else rel, f"from={i}", f"to={i + 1}"), range(fresh))):
            if l[0] != res[0][i]:
                differs(i, "parsed first in a fresh process")
    cov["runs"]["processes"] = {"texts": n, "ways": [w[0] for w in ways], "fresh_processes": fresh, "disagreements": 0,
                                "distinct_outcomes": len({l.split()[1] for l in res[0]})}
    cov["evaluations"] += n * len(ways) + fresh
    # threads
    tot = {}
    for k, (b, args) in enumerate([(dbg, ["late=1"]), (rel, ["late=1"]), (rel, ["late=0", "threads=16"])]):
        p = replay_path(prop, "threads")
        rc, out, err = sh([b, "threads", f"seed={SEED + 10 + k}", f"repo={REPO}", f"to={40000 if THOROUGH else 4000}", "rounds=4", f"replay={p}", *args], timeout=900, mem=16 << 30)
        if rc == 1:
            raise Violation(err.strip()[:400], p)
        if rc != 0:
            raise Inconclusive(f"thread run failed ({rc}): {err[-800:]}")
        for kk, v in json.loads(out).items():
            tot[kk] = max(tot.get(kk, 0), v) if kk in ("most_at_once", "threads") else tot.get(kk, 0) + v
    if tot["most_at_once"] < 2:
        raise Inconclusive("no two parses overlapped")
    cov["runs"]["threads"] = tot
    cov["evaluations"] += tot["concurrent_parses"]
    # thread sanitizer
    ts = build("tsan")
    tr = {}
    for k in range(6 if THOROUGH else 2):
        env = {"TSAN_OPTIONS": "halt_on_error=0:exitcode=66"}
        p = replay_path(prop, "tsan-diff")
        cmd = [ts, "threads", f"seed={SEED + 20 + k}", f"repo={REPO}", f"to={4000 if THOROUGH else 600}", "rounds=2", f"late={(k + 1) % 2}", f"replay={p}"]
        rc, out, err = sh(cmd, env=env, timeout=900)
        if "WARNING: ThreadSanitizer" in err:
            p = replay_path(prop, "tsan")
            open(p, "w").write("tsan\n" + " ".join(cmd) + "\n\n" + err[:20000])
            raise Violation("data race: " + next(l for l in err.splitlines() if "SUMMARY" in l or "WARNING" in l)[:300], p)
        if rc == 1:
            raise Violation(err.strip()[:400], p)
        if rc != 0:
            raise Inconclusive(f"thread sanitizer run failed ({rc}): {err[-800:]}")
        for kk, v in json.loads(out).items():
            tr[kk] = max(tr.get(kk, 0), v) if kk in ("most_at_once", "threads") else tr.get(kk, 0) + v
    tr["race_reports"] = 0
    cov["runs"]["thread_sanitizer"] = tr
    if THOROUGH:
        check_miri_threads(prop, cov, 6, 32)


# ------------------------------------------------------------------ main

ASSUME = {
    "*": [
        "held on the executions of this run only; nothing is claimed about texts not generated",
        "the oracle (harness/src/model.rs) is an independent line-oriented reading of the properties; texts it leaves unspecified are only checked for structural invariants",
        "the compiler, the standard library and the operating system behave as documented",
    ],
    "C03": ["cost is measured as instructions retired under callgrind and bytes requested from the allocator; growth is judged between two sizes 8 apart, so lower-order superlinear terms below the limit pass"],
    "C02": ["AddressSanitizer, Miri and the allocator's red zones see only accesses of the executed paths"],
    "C18": ["thread sanitizer sees only interleavings of this run; the library contains no synchronisation of its own"],
}


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        text = open(sys.argv[2], errors="replace").read()
        if text.startswith("MONCASE"):
            rc, out, err = sh([build("checked"), "replay", sys.argv[2]], timeout=900)
            print(out + err)
            sys.exit(rc if rc in (0, 1, 2) else 1)
        print(text)
        sys.exit(0)
    if sys.argv[1:] == ["--setup"]:
        os.makedirs(BUILD, exist_ok=True)
        try:
            for f in ("checked", "release", "plain", "guided", "asan", "tsan"):
                build(f)
            sh(MIRI + ["list"], env=miri_env(), timeout=600)
        except Inconclusive as e:
            print(e)
            sys.exit(2)
        sys.exit(0)
    prop = sys.argv[1]
    if prop not in RULES:
        print(f"unknown property {prop}")
        sys.exit(2)
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    t0 = time.time()
    cov = {"rule": RULES[prop]}
    code, violations = 0, 0
    try:
        {"C02": check_c02, "C03": check_c03, "C18": check_c18}.get(prop, check_plain)(prop, cov)
        print(f"HELD property={prop}: {cov['evaluations']} executions, {cov['distinct_nontrivial']} distinct non-trivial cases")
    except Violation as v:
        code, violations = 1, 1
        cov["violation"] = {"message": v.message[:2000], "replay": v.replay}
        print(v.message)
        print(f"VIOLATION property={prop} replay={v.replay}")
    except Inconclusive as e:
        code = 2
        cov["inconclusive"] = str(e)[:3000]
        print(f"INCONCLUSIVE property={prop}: {e}")
    cov.setdefault("evaluations", 0)
    cov.setdefault("distinct_nontrivial", 0)
    cov.setdefault("samples", [])
    ev = {
        "property": prop, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": "exploration",
        "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": violations,
        "assumptions": ASSUME["*"] + ASSUME.get(prop, []),
    }
    with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
        f.write("\n")
    sys.exit(code)


if __name__ == "__main__":
    main()
