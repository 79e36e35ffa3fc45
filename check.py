#!/usr/bin/env python3
"""Decides one property: check.py P01 [--tier quick|thorough]; replays: --replay FILE.

Builds the simulator from /repo's working tree, spreads the seeded runs over worker
processes, and for a violation: re-executes it in fresh processes (it must reproduce
with the same signature and event-log hash), minimises the choice tape, writes the
replay file, and confirms that the replay file reproduces it.
"""
import argparse
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B  # noqa: E402

WORKERS = int(os.environ.get("VERIF_JOBS", "8"))
# Workers of these properties that run the library's bundled configuration
# (libc number parsing and printing) instead of the cmake default (fast_float, ryu).
STD_WORKERS = {"P11": 3, "P01": 2, "P02": 1, "P03": 1, "P06": 3, "P08": 1, "P10": 2, "P15": 1, "P16": 1}
WALL = {"quick": float(os.environ.get("VERIF_WALL", "150")),
        "thorough": float(os.environ.get("VERIF_WALL", "3600"))}
KNOWN = os.path.join(HERE, "known_findings.txt")
MINIMISE_SECS = {"quick": 60, "thorough": 300}

HEAD = struct.Struct("<IIQQQQQQQQ256s8192sII")
STAT = struct.Struct("<56sQ")
NSTAT = 384


def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ("detect_leaks=0:allocator_may_return_null=1:symbolize=0:"
                         "quarantine_size_mb=16:exitcode=23:handle_abort=0:"
                         "detect_stack_use_after_return=0:strict_memcmp=0:"
                         "allow_user_segv_handler=0:print_legend=0")
    return e


def read_shared(path, tape=True):
    with open(path, "rb") as f:
        h = HEAD.unpack(f.read(HEAD.size))
        raw = f.read(STAT.size * NSTAT)
        d = dict(zip(("state", "pass", "index", "runs", "nontrivial", "passes", "steps",
                      "draws", "wall_ns", "hash"), h[:10]))
        d["sig"] = h[10].split(b"\0")[0].decode("latin1")
        d["msg"] = h[11].split(b"\0")[0].decode("latin1")
        d["stats"] = {}
        for i in range(min(h[13], NSTAT)):
            n, v = STAT.unpack_from(raw, i * STAT.size)
            d["stats"][n.split(b"\0")[0].decode()] = v
        if tape:
            n = min(h[12], 1 << 21)
            d["tape"] = list(struct.unpack("<%dI" % n, f.read(4 * n)))
    return d


class Worker:
    def __init__(self, exe, prop, seed, tier, frm, stride, count, secs, tmp, k, variant):
        self.exe, self.variant, self.k = exe, variant, k
        self.args = (prop, seed, tier, stride, count)
        self.tmp = tmp
        self.gen = 0
        self.done = []
        self.end = time.time() + secs
        self.start(frm)

    def start(self, frm):
        prop, seed, tier, stride, count = self.args
        self.gen += 1
        self.frm = frm
        self.shared = os.path.join(self.tmp, "w%d.%d.shm" % (self.k, self.gen))
        self.hashes = os.path.join(self.tmp, "w%d.%d.json" % (self.k, self.gen))
        self.err = open(os.path.join(self.tmp, "w%d.err" % self.k), "ab")
        self.p = subprocess.Popen(
            [self.exe, "--mode", "run", "--prop", prop, "--seed", str(seed), "--from", str(frm),
             "--stride", str(stride), "--count", str(count), "--tier", tier,
             "--secs", "%.1f" % max(0, self.end - time.time()),
             "--shared", self.shared, "--hashes", self.hashes],
            env=env(), stdout=self.err, stderr=self.err)

    def info(self, tape=False):
        try:
            return read_shared(self.shared, tape)
        except (OSError, struct.error):
            return None


def load_known(prop):
    """Lines `known: property=P01 sig=<regex> msg=<regex> <what fails>`."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) sig=(\S+) msg=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), re.compile(m.group(3)), m.group(4)))
    return out


def known_match(known, info):
    for s, m, text in known:
        if s.search(info["sig"]) and m.search(info["msg"]):
            return text
    return None


def run_tape(exe, prop, tier, tape, tmp, mask=7, trace=False):
    t = os.path.join(tmp, "tape.txt")
    with open(t, "w") as f:
        f.write(" ".join(map(str, tape)) + "\n")
    shm = os.path.join(tmp, "replay.shm")
    if os.path.exists(shm):
        os.unlink(shm)
    cmd = [exe, "--mode", "replay", "--prop", prop, "--tape", t, "--shared", shm,
           "--tier", tier, "--mask", str(mask)]
    if trace:
        cmd.append("--trace")
    e = env()
    if trace:
        e["ASAN_OPTIONS"] = e["ASAN_OPTIONS"].replace("symbolize=0", "symbolize=1")
    p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       errors="replace", text=True)
    d = read_shared(shm)
    d["out"] = p.stdout
    d["failed"] = d["state"] == 2 or p.returncode != 0
    if d["failed"] and d["state"] != 2:
        d["sig"], d["msg"] = "killed", "the process ended with status %d" % p.returncode
    return d


def run_series(exe, prop, tier, seed, frm, stride, index, tmp):
    """Runs frm, frm + stride, ..., index one after another in one fresh process."""
    shm = os.path.join(tmp, "series.shm")
    if os.path.exists(shm):
        os.unlink(shm)
    p = subprocess.run([exe, "--mode", "run", "--prop", prop, "--seed", str(seed), "--from", str(frm), "--stride",
                        str(stride), "--count", str(index + 1), "--tier", tier, "--secs", "600", "--shared", shm,
                        "--hashes", os.path.join(tmp, "series.json")],
                       env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, errors="replace", text=True)
    try:
        d = read_shared(shm, False)
    except (OSError, struct.error):
        d = {"state": 0, "index": -1, "sig": "", "msg": "", "hash": 0}
    d["out"] = p.stdout
    d["failed"] = d["state"] == 2 or p.returncode != 0
    if d["failed"] and d["state"] != 2:
        d["sig"], d["msg"] = "killed", "the process ended with status %d" % p.returncode
    return d


def find_series(series, first, stride, index):
    """A violation that its own choices do not repeat can depend on what earlier runs of the process left
    behind in the library. series(frm) plays the runs from frm on. Returns the shortest repeatable one (by
    halves) as (frm, result), or None."""
    m = 1
    while True:
        frm = max(first, index - m * stride)
        a = series(frm)
        if a["failed"]:
            b = series(frm)
            if b["failed"] and (a["sig"], a["index"], a["hash"]) == (b["sig"], b["index"], b["hash"]):
                return frm, a
        if frm == first:
            return None
        m *= 4


def write_series(prop, tier, seed, variant, frm, stride, d):
    n = (d["index"] - frm) // stride + 1
    path = os.path.join(HERE, "replays", "%s-%s-%d-%d.json" % (prop, tier, seed, d["index"]))
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "index": d["index"], "variant": variant,
                   "series": {"from": frm, "stride": stride}, "signature": d["sig"], "message": d["msg"],
                   "event_log_hash": "%016x" % d["hash"], "trace": d["out"].splitlines()[-400:]}, f, indent=1)
    print("violation of %s: %s\n%s" % (prop, d["sig"], d["msg"][:1500]))
    print("seed=%d index=%d variant=%s: the last of %d runs in one process (alone it passes: state is left behind)"
          % (seed, d["index"], variant, n))
    return path


def report(prop, tier, seed, exe, variant, info, tmp, first=0, stride=1):
    """Gate, minimise, write the replay file. Returns its path or None."""
    tape = info["tape"]
    a = run_tape(exe, prop, tier, tape, tmp)
    b = run_tape(exe, prop, tier, tape, tmp)
    if not (a["failed"] and b["failed"] and a["sig"] == b["sig"] and a["hash"] == b["hash"]):
        f = find_series(lambda frm: run_series(exe, prop, tier, seed, frm, stride, info["index"], tmp), first, stride,
                        info["index"])
        if f:
            return write_series(prop, tier, seed, variant, f[0], stride, f[1])
        print("error: a reported violation did not reproduce (index %d, sig %s %s; replays %s %s)"
              % (info["index"], info["sig"], info["msg"][:300], a["sig"], b["sig"]))
        return None
    src = os.path.join(tmp, "min-in.txt")
    dst = os.path.join(tmp, "min-out.txt")
    with open(src, "w") as f:
        f.write(" ".join(map(str, tape)) + "\n")
    p = subprocess.run([exe, "--mode", "minimise", "--prop", prop, "--tape", src, "--out", dst,
                        "--tier", tier, "--secs", str(MINIMISE_SECS[tier])],
                       env=env(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    best = tape
    if p.returncode == 0 and os.path.exists(dst):
        cand = [int(x) for x in open(dst).read().split()]
        c = run_tape(exe, prop, tier, cand, tmp)
        if c["failed"] and c["sig"] == a["sig"]:
            best = cand
    fin = run_tape(exe, prop, tier, best, tmp, trace=True)
    if not fin["failed"] or fin["sig"] != a["sig"]:
        best = tape
        fin = run_tape(exe, prop, tier, best, tmp, trace=True)
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%d-%d.json" % (prop, tier, seed, info["index"]))
    with open(path, "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "index": info["index"],
                   "variant": variant, "signature": fin["sig"], "message": fin["msg"],
                   "event_log_hash": "%016x" % fin["hash"], "original_draws": len(tape),
                   "draws": len(best), "tape": best,
                   "trace": fin["out"].splitlines()[:400]}, f, indent=1)
    print("violation of %s: %s\n%s" % (prop, fin["sig"], fin["msg"][:1500]))
    print("seed=%d index=%d variant=%s draws=%d (from %d)" %
          (seed, info["index"], variant, len(best), len(tape)))
    return path


PYTHON = {"P18"}  # decided by pysim/, the simulator of the Python interface


def pysim():
    sys.path.insert(0, os.path.join(HERE, "pysim"))
    import drive
    return drive


def replay(path):
    r = json.load(open(path))
    if r["property"] in PYTHON:
        return pysim().replay(path)
    exe, _ = B.build([r["property"].lower()], r["variant"])
    tmp = tempfile.mkdtemp(prefix="verif-")
    try:
        if "series" in r:
            d = run_series(exe, r["property"], r["tier"], r["seed"], r["series"]["from"], r["series"]["stride"], r["index"], tmp)
        else:
            d = run_tape(exe, r["property"], r["tier"], r["tape"], tmp, trace=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print(d["out"])
    if d["failed"]:
        same = d["sig"] == r["signature"] and "%016x" % d["hash"] == r["event_log_hash"]
        print("REPRODUCED sig=%s %s" % (d["sig"], "identical" if same else "(differs)"))
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1
    print("NOT REPRODUCED: the property held on this tape")
    return 0


def edge_summary(exe, edges, nguards):
    return {"edges_reached": len(edges), "edges_total": nguards}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int, default=0)
    ap.add_argument("--secs", type=float, default=0)
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    prop, tier, seed = a.prop, a.tier, a.seed
    if tier not in WALL:
        tier = "quick"
    if prop in PYTHON:
        return pysim().main(prop, tier, seed, a.runs, a.secs)
    t0 = time.time()
    nstd = STD_WORKERS.get(prop, 0) if WORKERS >= 4 else 0
    exes = {"fast": B.build([prop.lower()], "fast")}
    if nstd:
        exes["std"] = B.build([prop.lower()], "std")
    build_s = time.time() - t0
    lst = subprocess.run([exes["fast"][0], "--mode", "list"], env=env(), text=True,
                         stdout=subprocess.PIPE).stdout
    spec = [x.split("\t") for x in lst.splitlines() if x.split("\t")[0] == prop][0]
    count = a.runs or int(spec[1] if tier == "quick" else spec[2])
    rule = spec[3]
    secs = a.secs or WALL[tier]
    known = load_known(prop)
    known_hit = {}
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    rc = 0
    workers = []
    try:
        ts = time.time()
        for k in range(WORKERS):
            v = "std" if k >= WORKERS - nstd else "fast"
            workers.append(Worker(exes[v][0], prop, seed, tier, k, WORKERS, count, secs, tmp, k, v))
        best = None
        live = list(workers)
        while live:
            time.sleep(0.02)
            for w in list(live):
                st = w.p.poll()
                if st is None:
                    if best:
                        i = w.info()
                        if i and (i["index"] > best[0] or time.time() > best[3] + 20):
                            w.p.kill()
                            w.p.wait()
                            live.remove(w)
                    continue
                i = w.info(True)
                if st == 0 and i and i["state"] != 2:
                    live.remove(w)
                    continue
                if i is None:
                    print("error: worker %d ended with status %d" % (w.k, st))
                    print(open(os.path.join(tmp, "w%d.err" % w.k), errors="replace").read()[-3000:])
                    rc = 2
                    live.remove(w)
                    continue
                if i["state"] != 2:
                    i["sig"], i["msg"] = "killed", "the process ended with status %d" % st
                what = known_match(known, i)
                if what:
                    known_hit[what] = known_hit.get(what, 0) + 1
                    w.done.append((w.shared, w.hashes))
                    w.start(i["index"] + w.args[3])
                    continue
                live.remove(w)
                if best is None or i["index"] < best[0]:
                    best = (i["index"], i, w, best[3] if best else time.time())
        run_s = time.time() - ts
        tot = {"runs": 0, "passes": 0, "steps": 0, "draws": 0, "nontrivial": 0}
        stats, runs, nontriv, states = {}, set(), set(), set()
        edges = {}
        guards = {}
        for w in workers:
            for shm, hs in w.done + [(w.shared, w.hashes)]:
                try:
                    i = read_shared(shm, False)
                except (OSError, struct.error):
                    continue
                for n in tot:
                    tot[n] += i[n]
                for n, x in i["stats"].items():
                    stats[n] = max(stats.get(n, 0), x) if n.startswith("max.") else stats.get(n, 0) + x
                if os.path.exists(hs):
                    h = json.load(open(hs))
                    runs.update(h["runs"])
                    nontriv.update(h["nontrivial"])
                    states.update(h["states"])
                    edges.setdefault(w.variant, set()).update(h["edges"])
                    guards[w.variant] = h["guards"]
        nviol = 0
        if best:
            path = report(prop, tier, seed, best[2].exe, best[2].variant, best[1], tmp, best[2].frm, WORKERS)
            if path is None:
                rc = 3
            else:
                nviol = 1
                rc = 1
        # determinism of the simulator itself: same index, two processes, same hash
        det = None
        sample = []
        if rc == 0:
            outs = []
            for _ in range(2):
                o = subprocess.run([exes["fast"][0], "--mode", "index", "--prop", prop, "--seed",
                                    str(seed), "--index", "5", "--tier", tier], env=env(),
                                   stdout=subprocess.PIPE, text=True).stdout
                outs.append(o)
            det = outs[0] == outs[1]
            if not det:
                print("error: the simulator is not deterministic: %r" % (outs,))
                rc = 3
            for ix in ("5", "9"):
                o = subprocess.run([exes["fast"][0], "--mode", "index", "--prop", prop, "--seed",
                                    str(seed), "--index", ix, "--tier", tier, "--trace", "--mask", "1"],
                                   env=env(), stdout=subprocess.PIPE, text=True, errors="replace").stdout
                sample.append({"index": int(ix), "trace": [x[:300] for x in o.splitlines()[:40]]})
        faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault.")}
        cover = {
            "evaluations": tot["runs"],
            "distinct_nontrivial": len(nontriv),
            "rule": rule,
            "samples": sample,
            "runs_per_hour": int(tot["runs"] / run_s * 3600) if run_s else 0,
            "seeds_per_hour": int(tot["runs"] / run_s * 3600) if run_s else 0,
            "executions_including_memory_fill_passes": tot["passes"],
            "simulated_time_steps": tot["steps"],
            "choices_drawn": tot["draws"],
            "distinct_event_logs": len(runs),
            "distinct_states": len(states),
            "distinct_states_measure": "hashes of (operation, outcome, object state) observations "
                                       "made by the property while it runs",
            "faults_injected": faults,
            "observations": {k: v for k, v in sorted(stats.items()) if not k.startswith("fault.")},
            "edges": {v: edge_summary(None, edges[v], guards[v]) for v in edges},
            "deterministic": det,
            "real_code": "every .c/.cc/.h/.hpp of /repo/src/geoarrow, ryu, fast_float and the "
                         "vendored nanoarrow, compiled from the working tree",
            "stub_components": "malloc family (simulated allocator), clock (edge counter), thread "
                               "scheduler (baton scheduler where threads are used)",
            "undefined_externals": B.undefined_externals(exes["fast"][1]),
            "known_findings_hit": known_hit,
            "build_s": round(build_s, 1),
            "planned_runs": count,
        }
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
              "coverage": cover, "wall_s": round(time.time() - t0, 2),
              "assumptions": ["clang -O1 AddressSanitizer build on x86-64 Linux stands for the "
                              "shipped build",
                              "the reference model in sim/model.cc is right where it and the "
                              "library agree"],
              "violations": nviol}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        for what in sorted(known_hit):
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
        print("%s %s: runs=%d distinct_nontrivial=%d states=%d faults=%s steps=%d run=%.1fs total=%.1fs"
              % (prop, tier, tot["runs"], len(nontriv), len(states), sum(faults.values()),
                 tot["steps"], run_s, time.time() - t0))
        if rc == 1:
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return rc
    finally:
        for w in workers:
            if w.p.poll() is None:
                w.p.kill()
        if os.environ.get("VERIF_KEEP_TMP"):
            print("kept", tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
