"""One process of the simulator for the Python interface.

modes: run (seeded runs), replay (a tape), index (one seeded run), minimise.
Every choice comes from the tape; a run is a pure function of it.
"""
import argparse
import ctypes
import gc
import hashlib
import json
import mmap
import os
import struct
import sys
import time

MAXTAPE = 1 << 16
HEAD = struct.Struct("<IIQQQQQQ64s1024sI")  # state pass index runs nontrivial steps hash draws sig msg ntape
SIZE = HEAD.size + 4 * MAXTAPE


class Violation(Exception):
    def __init__(self, sig, msg):
        super().__init__(sig + ": " + msg)
        self.sig, self.msg = sig, msg


class Sim:
    """Choices, faults, counters and the event log of the run in progress."""

    def __init__(self, lib):
        self.lib = lib
        self.stats = {}
        self.shm = None
        self.D = lib.pysim_draw  # a choice below n

    def begin(self, seed, index, tape=None):
        x = hashlib.blake2b(b"%d/%d" % (seed, index), digest_size=8).digest()
        x = int.from_bytes(x, "little") | 1
        self.tape = None if tape is None else (ctypes.c_uint32 * (len(tape) + 1))(*tape)
        rec = None
        if self.shm is not None:
            rec = ctypes.addressof(ctypes.c_char.from_buffer(self.shm)) + HEAD.size
        self.lib.pysim_choices(x, self.tape, len(tape) if tape is not None else 0, rec, MAXTAPE)
        self.log_hash = hashlib.blake2b(digest_size=8)
        self.lines = []
        self.trace = False
        self.nontrivial = False
        self.states = set()

    @property
    def pos(self):
        return self.lib.pysim_drawn()

    def B(self, n):
        """True once in n (choice 0 is False, so that short tapes are plain)."""
        return self.D(n) == n - 1

    def W(self, w):
        v = self.D(sum(w))
        for i, k in enumerate(w):
            if v < k:
                return i
            v -= k
        return 0

    def small(self, n):
        return self.D(1 + self.D(n + 1))

    def log(self, *a):
        s = " ".join(str(x) for x in a)
        self.log_hash.update(s.encode("utf-8", "backslashreplace") + b"\n")
        if self.trace:
            self.lines.append(s[:400])

    def note(self, *a):
        if self.trace:
            self.lines.append("  " + " ".join(str(x) for x in a)[:400])

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def state(self, *a):
        self.states.add(hashlib.blake2b(repr(a).encode(), digest_size=8).hexdigest())

    def check(self, cond, sig, *msg):
        self.count("check." + sig)
        if not cond:
            raise Violation(sig, " ".join(str(m) for m in msg))

    # the allocator
    def arm(self, first, burst):
        self.lib.pysim_arm(first, burst)

    def disarm(self):
        f = self.lib.pysim_disarm()
        if f:
            self.count("fault.alloc", f)
        return f


def put(shm, state, pas, index, runs, nontriv, steps, h, draws, sig, msg):
    n = struct.unpack_from("<I", shm, HEAD.size - 4)[0]
    HEAD.pack_into(shm, 0, state, pas, index, runs, nontriv, steps, h, draws,
                   sig.encode("latin1", "replace")[:63], msg.encode("latin1", "replace")[:1023], n)


def play(sim, prop, seed, index, tape, fill, trace=False):
    """One pass; returns (hash, violation or None)."""
    sim.begin(seed, index, tape)
    sim.trace = trace
    sim.lib.pysim_reset(fill)
    live = sim.lib.pysim_live()
    v = None
    try:
        prop.run(sim)
        sim.disarm()
    except Violation as e:
        sim.disarm()
        v = Violation(e.sig, e.msg)
    except Exception as e:  # an exception the property did not expect
        sim.disarm()
        tb = e.__traceback__
        where = ""
        while tb:
            where = "%s:%d" % (os.path.basename(tb.tb_frame.f_code.co_filename), tb.tb_lineno)
            tb = tb.tb_next
        v = Violation("exception-" + type(e).__name__, "%s at %s" % (e, where))
        e = None
    gc.collect()
    if v is None:
        try:
            prop.end(sim)
            n = sim.lib.pysim_live()
            if n != live:
                raise Violation("leak", "%d allocations of the library are still live" % (n - live))
        except Violation as e:
            v = Violation(e.sig, e.msg)
    else:
        prop.forget()
    if v is not None:
        sim.log("!!", v.sig)
        if sim.trace:
            sim.lines.append("!! %s: %s" % (v.sig, v.msg[:1500]))
    sim.lib.pysim_calm()
    h = int.from_bytes(sim.log_hash.digest(), "little")
    return h, v


def whole(sim, prop, seed, index, tape, trace=False, both=True):
    """All passes over one tape: the log must not depend on what fresh memory holds."""
    h, v = play(sim, prop, seed, index, tape, 0xA5, trace)
    if v is None and both:
        lines = sim.lines
        h2, v2 = play(sim, prop, seed, index, tape, 0x01, trace)
        if v2 is not None:
            v = v2
        elif h2 != h:
            v = Violation("uninitialised", "the event log depends on what fresh memory holds")
            sim.lines = lines + ["--- with other memory"] + sim.lines
    return h, v


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("--mode", default="run")
    ap.add_argument("--prop", default="P18")
    ap.add_argument("--root")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--from", dest="frm", type=int, default=0)
    ap.add_argument("--stride", type=int, default=1)
    ap.add_argument("--count", type=int, default=100)
    ap.add_argument("--secs", type=float, default=60)
    ap.add_argument("--index", type=int, default=0)
    ap.add_argument("--shared")
    ap.add_argument("--hashes")
    ap.add_argument("--tape")
    ap.add_argument("--out")
    ap.add_argument("--trace", action="store_true")
    a = ap.parse_args(argv)
    sys.path.insert(0, a.root)
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    lib = ctypes.CDLL(os.path.join(a.root, "geoarrow/c/_lib.so"))
    lib.pysim_live.restype = ctypes.c_int64
    lib.pysim_disarm.restype = ctypes.c_int64
    lib.pysim_allocs.restype = ctypes.c_int64
    lib.pysim_steps.restype = ctypes.c_uint64
    lib.pysim_draw.argtypes = [ctypes.c_uint32]
    lib.pysim_draw.restype = ctypes.c_uint32
    lib.pysim_drawn.restype = ctypes.c_int64
    lib.pysim_choices.argtypes = [ctypes.c_uint64, ctypes.c_void_p, ctypes.c_int64, ctypes.c_void_p, ctypes.c_int64]
    lib.pysim_arm.argtypes = [ctypes.c_int64, ctypes.c_int64]
    import importlib
    prop = importlib.import_module(a.prop.lower())
    sim = Sim(lib)
    prop.setup(sim)
    gc.collect()
    gc.disable()
    gc.freeze()
    tape = None
    if a.tape:
        tape = [int(x) for x in open(a.tape).read().split()]
    if a.shared:
        with open(a.shared, "wb") as f:
            f.truncate(SIZE)
        f = open(a.shared, "r+b")
        sim.shm = mmap.mmap(f.fileno(), SIZE)
    # one plain run first, so that what is created once is not taken for a leak
    shm, sim.shm = sim.shm, None
    play(sim, prop, 0, 0, [], 0xA5)
    sim.stats = {}
    sim.shm = shm
    if a.mode == "run":
        t0 = time.time()
        runs = nontriv = steps = draws = 0
        hashes, nth, states = set(), set(), set()
        i = a.frm
        while i < a.count and time.time() - t0 < a.secs:
            put(sim.shm, 1, 0, i, runs, nontriv, steps, 0, draws, "", "")
            h, v = whole(sim, prop, a.seed, i, None, both=i // a.stride % 4 == 0)
            runs += 1
            steps += lib.pysim_steps()
            draws += sim.pos
            if v is not None:
                put(sim.shm, 2, 0, i, runs, nontriv, steps, h, draws, v.sig, v.msg)
                break
            hashes.add("%016x" % h)
            if sim.nontrivial:
                nontriv += 1
                nth.add("%016x" % h)
            states |= sim.states
            i += a.stride
        else:
            put(sim.shm, 3, 0, i, runs, nontriv, steps, 0, draws, "", "")
        n = lib.pysim_edges(None, 0)
        b = ctypes.create_string_buffer(n)
        lib.pysim_edges(b, n)
        with open(a.hashes + ".tmp", "w") as f:
            json.dump({"runs": sorted(hashes), "nontrivial": sorted(nth), "states": sorted(states),
                       "stats": sim.stats, "edges": [k for k in range(n) if b.raw[k]], "guards": n}, f)
        os.rename(a.hashes + ".tmp", a.hashes)
        os._exit(0)
    if a.mode in ("replay", "index"):
        h, v = whole(sim, prop, a.seed, a.index, tape, a.trace)
        if sim.shm is not None:
            put(sim.shm, 2 if v else 3, 0, a.index, 1, 0, 0, h, sim.pos, v.sig if v else "", v.msg if v else "")
        if a.trace:
            print("\n".join(sim.lines))
        print("hash %016x" % h)
        sys.stdout.flush()
        os._exit(0)
    if a.mode == "minimise":
        def outcome(t):
            # in a child: the failure may be a crash
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                d = os.open(os.devnull, os.O_WRONLY)
                os.dup2(d, 1)
                os.dup2(d, 2)
                sim.shm = None
                _, v = whole(sim, prop, 0, 0, t)
                os.write(w, ((v.sig if v else "") + "\n%d" % sim.pos).encode())
                os._exit(0)
            os.close(w)
            out = b""
            while True:
                c = os.read(r, 4096)
                if not c:
                    break
                out += c
            os.close(r)
            _, st = os.waitpid(pid, 0)
            return "killed" if st else out.decode().split("\n")[0]
        want = outcome(tape)
        best = tape
        end = time.time() + a.secs
        size = max(1, len(best) // 2)
        while size and time.time() < end:
            i = 0
            changed = False
            while i < len(best) and time.time() < end:
                for cand in (best[:i] + best[i + size:],
                             best[:i] + [0] * len(best[i:i + size]) + best[i + size:]):
                    if cand != best and outcome(cand) == want:
                        best = cand
                        changed = True
                        break
                else:
                    i += size
            if size == 1 and not changed:
                break
            size = size // 2 or (1 if changed else 0)
        while best and best[-1] == 0:
            best.pop()
        with open(a.out, "w") as f:
            f.write(" ".join(map(str, best)) + "\n")
        os._exit(0)


if __name__ == "__main__":
    main(sys.argv[1:])
