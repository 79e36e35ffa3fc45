#!/usr/bin/env python3
"""Builds the simulator for one property from /repo's current working tree.

The library's sources are compiled with AddressSanitizer and edge callbacks, then
malloc/calloc/realloc/free in *those objects only* are renamed to the simulated
allocator.  Nothing in /repo is written.  Objects are cached by content hash in
/verif/.build (git-ignored); a missing cache only costs time.
"""
import concurrent.futures as cf
import hashlib
import os
import re
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
OUT = os.environ.get("VERIF_BUILD", os.path.join(HERE, ".build"))

REDEF = ["malloc", "calloc", "realloc", "free", "strdup", "reallocarray"]
# Also counted; ASan spells some of them differently.
COUNTED = {"__asan_memcpy": "memcpy", "__asan_memmove": "memmove", "__asan_memset": "memset",
           "memcmp": "memcmp", "bcmp": "bcmp", "memchr": "memchr", "strlen": "strlen",
           "strcmp": "strcmp", "strncmp": "strncmp", "snprintf": "snprintf",
           "vsnprintf": "vsnprintf", "strtod": "strtod", "strtol": "strtol",
           "strtoll": "strtoll"}
LIBFLAGS = ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address",
            "-fsanitize-coverage=trace-pc-guard", "-w"]
SIMFLAGS = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address", "-std=c++17",
            "-Wall", "-Wno-unused-function", "-Wno-missing-braces",
            "-Wno-unused-but-set-variable"]
# Harness sources whose objects contain instantiated library templates: these get
# edge callbacks too, because the code under test is compiled into them.
HPP_UNITS = {"p05", "p11", "p12", "p15", "p17", "p16_hpp"}


def version():
    text = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r'set\(GEOARROW_VERSION\s+"([0-9.]+)[^"]*"\)', text)
    return m.group(1) if m else "0.2.0"


def write_if_changed(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".%d" % os.getpid()
    with open(tmp, "w") as f:
        f.write(text)
    os.replace(tmp, path)


def config(variant):
    """The header cmake generates; variant 'std' is the bundled configuration."""
    text = open(os.path.join(SRC, "geoarrow/geoarrow_config.h.in")).read()
    v = version().split(".")
    on = 1 if variant == "fast" else 0
    sub = {"GEOARROW_VERSION_MAJOR": v[0], "GEOARROW_VERSION_MINOR": v[1],
           "GEOARROW_VERSION_PATCH": v[2], "GEOARROW_VERSION": ".".join(v),
           "GEOARROW_USE_FAST_FLOAT_DEFINE": "#define GEOARROW_USE_FAST_FLOAT %d" % on,
           "GEOARROW_USE_RYU_DEFINE": "#define GEOARROW_USE_RYU %d" % on,
           "GEOARROW_NAMESPACE_DEFINE": "// #define GEOARROW_NAMESPACE YourNamespaceHere"}
    for k, x in sub.items():
        text = text.replace("@%s@" % k, x)
    d = os.path.join(OUT, "cfg-%s-%s" % (variant, hashlib.sha1(text.encode()).hexdigest()[:10]))
    write_if_changed(os.path.join(d, "geoarrow/geoarrow_config.h"), text)
    return d


def tree_hash(root, exts):
    h = hashlib.sha1()
    for d, ds, fs in sorted(os.walk(root)):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                h.update(os.path.relpath(os.path.join(d, f), root).encode())
                h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()


def lib_sources(variant):
    g = os.path.join(SRC, "geoarrow")
    out = []
    for f in sorted(os.listdir(g)):
        if f.endswith(".c") or (f.endswith(".cc") and not f.endswith("_test.cc")):
            if f == "double_parse_fast_float.cc" and variant != "fast":
                continue
            if f == "double_parse_std.c" and variant == "fast":
                continue
            out.append(os.path.join(g, f))
    if variant == "fast":
        r = os.path.join(g, "ryu")
        out += [os.path.join(r, f) for f in sorted(os.listdir(r)) if f.endswith(".c")]
    out.append(os.path.join(SRC, "vendor/nanoarrow/nanoarrow.c"))
    return out


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise SystemExit("build failed: %s\n%s" % (" ".join(cmd), p.stdout))
    return p.stdout


def compile_one(src, flags, inc, key, redefine):
    cxx = src.endswith(".cc")
    h = hashlib.sha1()
    h.update(repr((src, flags, inc, key, redefine, REDEF, COUNTED)).encode())
    h.update(open(src, "rb").read())
    name = os.path.basename(src).replace(".", "_")
    obj = os.path.join(OUT, "obj", "%s-%s.o" % (name, h.hexdigest()[:16]))
    if os.path.exists(obj):
        return obj
    tmp = obj + ".%d.%s.tmp.o" % (os.getpid(), name)
    cmd = ["clang++" if cxx else "clang"] + flags
    if cxx and not any(f.startswith("-std") for f in flags):
        cmd += ["-std=c++17"]
    cmd += ["-I" + i for i in inc] + ["-c", src, "-o", tmp]
    run(cmd)
    if redefine:
        args = ["objcopy"]
        for s in REDEF:
            args += ["--redefine-sym", "%s=sim_%s" % (s, s)]
        for s, x in COUNTED.items():
            args += ["--redefine-sym", "%s=sim_%s" % (s, x)]
        run(args + [tmp])
    os.replace(tmp, obj)
    return obj


def build(units, variant="fast", jobs=8):
    """Returns the path of a simulator binary containing the given units."""
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    os.makedirs(os.path.join(OUT, "bin"), exist_ok=True)
    cfg = config(variant)
    inc = [SRC, os.path.join(SRC, "vendor"), cfg]
    headers = tree_hash(SRC, (".h", ".hpp"))
    simdir = os.path.join(HERE, "sim")
    simheaders = tree_hash(simdir, (".h",))
    jobs_list = [(s, LIBFLAGS, inc, headers, True) for s in lib_sources(variant)]
    # p15.cc may be accompanied by p15_*.cc, which only exist to compile in parallel
    parts = [f[:-3] for f in sorted(os.listdir(simdir)) if f.endswith(".cc")
             and "_" in f and f.split("_")[0] in units]
    for u in ["core", "model"] + units + parts:
        fl = list(SIMFLAGS)
        if u in HPP_UNITS or u.split("_")[0] in HPP_UNITS:
            fl = [f for f in fl if f != "-Wall"] + ["-w", "-fsanitize-coverage=trace-pc-guard"]
        key = simheaders + (headers if u != "core" else "")
        jobs_list.append((os.path.join(simdir, u + ".cc"), fl, inc + [simdir], key, False))
    # big units first
    jobs_list.sort(key=lambda j: 0 if "/sim/" in j[0] else 1)
    with cf.ThreadPoolExecutor(jobs) as ex:
        objs = list(ex.map(lambda j: compile_one(*j), jobs_list))
    h = hashlib.sha1("".join(sorted(objs)).encode()).hexdigest()[:16]
    exe = os.path.join(OUT, "bin", "sim-%s-%s-%s" % ("_".join(units), variant, h))
    if not os.path.exists(exe):
        tmp = exe + ".%d" % os.getpid()
        run(["clang++", "-fsanitize=address", "-o", tmp] + sorted(objs) + ["-lpthread", "-lm"])
        os.replace(tmp, exe)
    libobjs = [o for o, j in zip(objs, jobs_list) if j[4]]
    return exe, libobjs


def undefined_externals(objs):
    """External functions the library objects call: evidence for the seam list."""
    und, dfn = set(), set()
    for o in objs:
        for line in run(["nm", "-P", o]).splitlines():
            p = line.split()
            if len(p) >= 2:
                (und if p[1] in ("U", "w", "v") else dfn).add(p[0])
    return sorted(s for s in und - dfn
                  if not s.startswith(("__asan", "__sanitizer", "_ZTI", "__start_", "__stop_")))


if __name__ == "__main__":
    units = sys.argv[1].split(",") if len(sys.argv) > 1 else []
    variant = sys.argv[2] if len(sys.argv) > 2 else "fast"
    exe, objs = build(units, variant)
    print(exe)
