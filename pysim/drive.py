"""Spreads the seeded runs of the Python-interface simulator over processes, gates, minimises and
reports violations, and writes the evidence. The counterpart of check.py for engine.py."""
import json
import os
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
TOP = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, TOP)
import check as CK  # noqa: E402
import pybuild  # noqa: E402
from engine import HEAD  # noqa: E402

COUNT = {"quick": 40000, "thorough": 4000000}
RULE = ("one run drives a drawn history over data types, schemas, kernels, array views, exported buffers and builders of the "
        "Python interface; trivial when no third operation succeeded and no batch or array was completed")


def env():
    e = dict(os.environ)
    e.update(LD_PRELOAD=pybuild.runtime(), PYTHONMALLOC="malloc", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
             ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:symbolize=0:exitcode=23:handle_abort=1:"
                          "detect_stack_use_after_return=0:quarantine_size_mb=16:print_legend=0")
    for k in ("PYTHONPATH", "PYTHONHOME", "PYTHONSTARTUP"):
        e.pop(k, None)
    return e


def cmd(root, prop, mode, *more):
    return [pybuild.PY, os.path.join(HERE, "engine.py"), "--root", root, "--prop", prop, "--mode", mode] + [str(x) for x in more]


def read(path):
    with open(path, "rb") as f:
        raw = f.read()
    h = HEAD.unpack_from(raw)
    d = dict(zip(("state", "pass", "index", "runs", "nontrivial", "steps", "hash", "draws"), h[:8]))
    d["sig"] = h[8].split(b"\0")[0].decode("latin1")
    d["msg"] = h[9].split(b"\0")[0].decode("latin1")
    d["tape"] = list(struct.unpack_from("<%dI" % h[10], raw, HEAD.size)) if h[10] * 4 + HEAD.size <= len(raw) else []
    return d


class Worker:
    def __init__(self, root, prop, seed, frm, stride, count, end, tmp, k):
        self.root, self.args, self.end, self.tmp, self.k = root, (prop, seed, stride, count), end, tmp, k
        self.gen, self.done = 0, []
        self.start(frm)

    def start(self, frm):
        prop, seed, stride, count = self.args
        self.gen += 1
        self.frm = frm
        self.shared = os.path.join(self.tmp, "p%d.%d.shm" % (self.k, self.gen))
        self.hashes = os.path.join(self.tmp, "p%d.%d.json" % (self.k, self.gen))
        self.err = os.path.join(self.tmp, "p%d.err" % self.k)
        with open(self.err, "ab") as e:
            self.p = subprocess.Popen(cmd(self.root, prop, "run", "--seed", seed, "--from", frm, "--stride", stride,
                                          "--count", count, "--secs", "%.1f" % max(0, self.end - time.time()),
                                          "--shared", self.shared, "--hashes", self.hashes),
                                      env=env(), stdout=e, stderr=e)


def ended(st):
    if st == -signal.SIGALRM:
        return "killed", "the run never ended (threads wait for each other)"
    if st == 98:
        return "killed", "the run exceeded its step budget"
    return "killed", "the process ended with status %d" % st


def run_tape(root, prop, tape, tmp, trace=False):
    t, shm = os.path.join(tmp, "tape.txt"), os.path.join(tmp, "replay.shm")
    with open(t, "w") as f:
        f.write(" ".join(map(str, tape)) + "\n")
    if os.path.exists(shm):
        os.unlink(shm)
    p = subprocess.run(cmd(root, prop, "replay", "--tape", t, "--shared", shm, *(["--trace"] if trace else [])),
                       env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    try:
        d = read(shm)
    except (OSError, struct.error):
        d = {"state": 0, "sig": "", "msg": "", "hash": 0, "tape": []}
    d["out"] = p.stdout
    d["failed"] = d["state"] == 2 or p.returncode != 0
    if d["failed"] and d["state"] != 2:
        d["sig"], d["msg"], d["hash"] = ended(p.returncode) + (0,)
    return d


def run_series(prop, seed, root, frm, stride, index, tmp):
    shm = os.path.join(tmp, "series.shm")
    if os.path.exists(shm):
        os.unlink(shm)
    p = subprocess.run(cmd(root, prop, "run", "--seed", seed, "--from", frm, "--stride", stride, "--count", index + 1,
                           "--secs", 600, "--shared", shm, "--hashes", os.path.join(tmp, "series.json")),
                       env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    try:
        d = read(shm)
    except (OSError, struct.error):
        d = {"state": 0, "sig": "", "msg": "", "hash": 0, "tape": [], "index": -1}
    d["out"] = p.stdout
    d["failed"] = d["state"] == 2 or p.returncode != 0
    if d["failed"] and d["state"] != 2:
        d["sig"], d["msg"], d["hash"] = ended(p.returncode) + (0,)
    return d


def report(prop, tier, seed, root, info, tmp, first=0, stride=1):
    tape = info["tape"]
    a, b = run_tape(root, prop, tape, tmp), run_tape(root, prop, tape, tmp)
    if not (a["failed"] and b["failed"] and a["sig"] == b["sig"] and a["hash"] == b["hash"]):
        f = CK.find_series(lambda frm: run_series(prop, seed, root, frm, stride, info["index"], tmp), first, stride,
                           info["index"])
        if f:
            return CK.write_series(prop, tier, seed, "python", f[0], stride, f[1])
        print("error: a reported violation did not reproduce (index %d, sig %s %s; replays %s %s)"
              % (info["index"], info["sig"], info["msg"][:300], a["sig"], b["sig"]))
        return None
    src, dst = os.path.join(tmp, "min-in.txt"), os.path.join(tmp, "min-out.txt")
    with open(src, "w") as f:
        f.write(" ".join(map(str, tape)) + "\n")
    p = subprocess.run(cmd(root, prop, "minimise", "--tape", src, "--out", dst, "--secs", CK.MINIMISE_SECS[tier]),
                       env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    best = tape
    if p.returncode == 0 and os.path.exists(dst):
        cand = [int(x) for x in open(dst).read().split()]
        c = run_tape(root, prop, cand, tmp)
        if c["failed"] and c["sig"] == a["sig"]:
            best = cand
    fin = run_tape(root, prop, best, tmp, trace=True)
    if not fin["failed"] or fin["sig"] != a["sig"]:
        best = tape
        fin = run_tape(root, prop, best, tmp, trace=True)
    d = os.path.join(TOP, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%d-%d.json" % (prop, tier, seed, info["index"]))
    with open(path, "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "index": info["index"], "variant": "python",
                   "signature": fin["sig"], "message": fin["msg"], "event_log_hash": "%016x" % fin["hash"],
                   "original_draws": len(tape), "draws": len(best), "tape": best,
                   "trace": fin["out"].splitlines()[:400]}, f, indent=1)
    print("violation of %s: %s\n%s" % (prop, fin["sig"], fin["msg"][:1500]))
    print("seed=%d index=%d draws=%d (from %d)" % (seed, info["index"], len(best), len(tape)))
    return path


def replay(path):
    r = json.load(open(path))
    root = pybuild.build()
    tmp = tempfile.mkdtemp(prefix="verif-")
    try:
        if "series" in r:
            d = run_series(r["property"], r["seed"], root, r["series"]["from"], r["series"]["stride"], r["index"], tmp)
        else:
            d = run_tape(root, r["property"], r["tape"], tmp, trace=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print(d["out"])
    if d["failed"]:
        same = d["sig"] == r["signature"] and "%016x" % d["hash"] == r["event_log_hash"]
        print("REPRODUCED sig=%s %s" % (d["sig"], "identical" if same else "(differs)"))
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1
    print("NOT REPRODUCED: the property held on this tape")
    return 0


def main(prop, tier, seed, runs=0, secs=0):
    t0 = time.time()
    root = pybuild.build()
    build_s = time.time() - t0
    count = runs or COUNT[tier]
    secs = secs or CK.WALL[tier]
    known, known_hit = CK.load_known(prop), {}
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    rc, path, workers = 0, None, []
    try:
        ts = time.time()
        n = CK.WORKERS
        workers = [Worker(root, prop, seed, k, n, count, ts + secs, tmp, k) for k in range(n)]
        best, live = None, list(workers)
        while live:
            time.sleep(0.05)
            for w in list(live):
                st = w.p.poll()
                try:
                    i = read(w.shared)
                except (OSError, struct.error):
                    i = None
                if st is None:
                    # others go on until they have passed the smallest failing index
                    if best and (time.time() > best[2] + 20 or (i and i["index"] > best[0])):
                        w.p.kill()
                        w.p.wait()
                        live.remove(w)
                    continue
                if st == 0 and i and i["state"] == 3:
                    live.remove(w)
                    continue
                if i is None or i["state"] == 0:
                    print("error: worker %d ended with status %d" % (w.k, st))
                    print(open(w.err, errors="replace").read()[-3000:])
                    rc = 2
                    live.remove(w)
                    continue
                if i["state"] != 2:
                    i["sig"], i["msg"] = ended(st)
                what = CK.known_match(known, i)
                if what:
                    known_hit[what] = known_hit.get(what, 0) + 1
                    w.done.append((w.shared, w.hashes))
                    w.start(i["index"] + w.args[2])
                    continue
                live.remove(w)
                if best is None or i["index"] < best[0]:
                    best = (i["index"], i, best[2] if best else time.time(), w.frm)
        run_s = time.time() - ts
        tot = {"runs": 0, "steps": 0, "draws": 0, "nontrivial": 0}
        stats, hashes, nontriv, states, edges, guards = {}, set(), set(), set(), set(), 0
        for w in workers:
            for shm, hs in w.done + [(w.shared, w.hashes)]:
                try:
                    i = read(shm)
                except (OSError, struct.error):
                    continue
                for k in tot:
                    tot[k] += i[k]
                if os.path.exists(hs):
                    h = json.load(open(hs))
                    hashes.update(h["runs"])
                    nontriv.update(h["nontrivial"])
                    states.update(h["states"])
                    edges.update(h["edges"])
                    guards = h["guards"]
                    for k, v in h["stats"].items():
                        stats[k] = stats.get(k, 0) + v
        nviol = 0
        if best:
            path = report(prop, tier, seed, root, best[1], tmp, best[3], n)
            rc = 3 if path is None else 1
            nviol = int(path is not None)
        det, sample = None, []
        if rc == 0:
            o = [subprocess.run(cmd(root, prop, "index", "--seed", seed, "--index", 5), env=env(), stdout=subprocess.PIPE,
                                text=True).stdout for _ in range(2)]
            det = o[0] == o[1]
            if not det:
                print("error: the simulator is not deterministic: %r" % (o,))
                rc = 3
            for ix in (5, 9):
                o = subprocess.run(cmd(root, prop, "index", "--seed", seed, "--index", ix, "--trace"), env=env(),
                                   stdout=subprocess.PIPE, text=True, errors="replace").stdout
                sample.append({"index": ix, "trace": [x[:300] for x in o.splitlines()[:40]]})
        faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault.")}
        rate = int(tot["runs"] / run_s * 3600) if run_s else 0
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
              "coverage": {
                  "evaluations": tot["runs"], "distinct_nontrivial": len(nontriv), "rule": RULE, "samples": sample,
                  "runs_per_hour": rate, "seeds_per_hour": rate, "simulated_time_steps": tot["steps"],
                  "choices_drawn": tot["draws"], "distinct_event_logs": len(hashes), "distinct_states": len(states),
                  "distinct_states_measure": "hashes of (operation, kind of outcome, which objects are alive) after each operation",
                  "faults_injected": faults,
                  "observations": {k: v for k, v in sorted(stats.items()) if not k.startswith("fault.")},
                  "edges": {"python": {"edges_reached": len(edges), "edges_total": guards}},
                  "deterministic": det,
                  "real_code": "python/geoarrow-c (_lib.pyx through Cython, lib.py, geoarrow_python.h) and every C/C++ source the "
                               "extension is built from, compiled from the working tree; CPython itself",
                  "stub_components": "malloc family and operator new of the extension's objects (simulated allocator); Arrow "
                                     "producers and consumers are the simulator's",
                  "known_findings_hit": known_hit, "build_s": round(build_s, 1), "planned_runs": count},
              "wall_s": round(time.time() - t0, 2),
              "assumptions": ["clang -O1 AddressSanitizer build on x86-64 Linux stands for the shipped build",
                              "CPython 3.12 and the installed Cython stand for the supported versions",
                              "the reference model in pysim/arrow.py is right where it and the library agree"],
              "violations": nviol}
        os.makedirs(os.path.join(TOP, "evidence"), exist_ok=True)
        with open(os.path.join(TOP, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        for what in sorted(known_hit):
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
        print("%s %s: runs=%d distinct_nontrivial=%d states=%d faults=%s steps=%d run=%.1fs total=%.1fs"
              % (prop, tier, tot["runs"], len(nontriv), len(states), sum(faults.values()), tot["steps"], run_s, time.time() - t0))
        if rc == 1:
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return rc
    finally:
        for w in workers:
            if w.p.poll() is None:
                w.p.kill()
        shutil.rmtree(tmp, ignore_errors=True)
