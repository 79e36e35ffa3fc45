"""Builds the Python extension from /repo's working tree with the simulator's seams."""
import concurrent.futures as cf
import hashlib
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
import build as B  # noqa: E402

PYPKG = os.path.join(B.REPO, "python/geoarrow-c/src/geoarrow/c")
SOURCES = os.path.join(B.REPO, "python/geoarrow-c")


def find_python():
    for p in ("/opt/vp/venv/bin/python",):
        if os.path.exists(p):
            return p
    return sys.executable


PY = find_python()
REDEF = ["malloc", "calloc", "realloc", "free", "strdup", "reallocarray"]
FLAGS = ["-O1", "-g1", "-fPIC", "-fno-omit-frame-pointer", "-fsanitize=address", "-shared-libasan",
         "-fsanitize-coverage=trace-pc-guard", "-w",
         "-DGEOARROW_NAMESPACE=GeoArrowPythonPkg", "-DNANOARROW_NAMESPACE=GeoArrowPythonPkg"]


def runtime():
    return subprocess.run(["clang", "-print-file-name=libclang_rt.asan-x86_64.so"], text=True,
                          stdout=subprocess.PIPE, check=True).stdout.strip()


def sources():
    # what setup.py puts into the extension
    g = os.path.join(B.SRC, "geoarrow")
    out = [os.path.join(g, f) for f in sorted(os.listdir(g)) if f.endswith(".c")]
    out.append(os.path.join(g, "double_parse_fast_float.cc"))
    r = os.path.join(g, "ryu")
    out += [os.path.join(r, f) for f in sorted(os.listdir(r)) if f.endswith(".c")]
    out.append(os.path.join(B.SRC, "vendor/nanoarrow/nanoarrow.c"))
    return out


def obj_of(src, inc, key, redefine):
    h = hashlib.sha1()
    h.update(repr((src, inc, key, redefine, FLAGS, REDEF)).encode())
    h.update(open(src, "rb").read())
    name = os.path.basename(src).replace(".", "_")
    obj = os.path.join(B.OUT, "obj", "py-%s-%s.o" % (name, h.hexdigest()[:16]))
    if os.path.exists(obj):
        return obj
    tmp = obj + ".%d.%s.tmp.o" % (os.getpid(), name)
    cxx = src.endswith((".cc", ".cpp"))
    fl = list(FLAGS) + (["-std=c++17"] if cxx else [])
    if not redefine:
        fl = [f for f in fl if "coverage" not in f and "sanitize=" not in f]
    B.run(["clang++" if cxx else "clang"] + fl + ["-I" + i for i in inc] + ["-c", src, "-o", tmp])
    if redefine:
        args = ["objcopy"]
        for s in REDEF:
            args += ["--redefine-sym", "%s=pysim_%s" % (s, s)]
        B.run(args + ["--redefine-sym", "_Znwm=pysim_new", tmp])
    os.replace(tmp, obj)
    return obj


def build(jobs=8):
    """Returns the directory that contains the package `geoarrow`."""
    os.makedirs(os.path.join(B.OUT, "obj"), exist_ok=True)
    cfg = os.path.join(PYPKG, "geoarrow_python/geoarrow_config.h")
    text = open(cfg).read()
    d = os.path.join(B.OUT, "pycfg-" + hashlib.sha1(text.encode()).hexdigest()[:10])
    B.write_if_changed(os.path.join(d, "geoarrow/geoarrow_config.h"), text)
    pyx = os.path.join(PYPKG, "_lib.pyx")
    hx = hashlib.sha1(open(pyx, "rb").read()).hexdigest()[:16]
    cpp = os.path.join(B.OUT, "cython-%s" % hx, "_lib.cpp")
    if not os.path.exists(cpp):
        os.makedirs(os.path.dirname(cpp), exist_ok=True)
        tmp = cpp + ".%d.cpp" % os.getpid()
        B.run([PY, "-m", "cython", "-3", "--cplus", pyx, "-o", tmp,
               "--module-name", "geoarrow.c._lib"])
        os.replace(tmp, cpp)
    pyinc = B.run([PY, "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"]).strip()
    inc = [d, B.SRC, os.path.join(B.SRC, "geoarrow"), os.path.join(B.SRC, "vendor"), PYPKG,
           os.path.join(PYPKG, "geoarrow_python"), pyinc]
    key = B.tree_hash(B.SRC, (".h", ".hpp")) + B.tree_hash(PYPKG, (".h",)) + text
    jl = [(cpp, inc, key, True)] + [(s, inc, key, True) for s in sources()]
    jl += [(os.path.join(HERE, "shim.c"), [], "", False), (os.path.join(HERE, "shim_new.cc"), [], "", False)]
    with cf.ThreadPoolExecutor(jobs) as ex:
        objs = list(ex.map(lambda j: obj_of(*j), jl))
    h = hashlib.sha1("".join(sorted(objs)).encode())
    for f in ("__init__.py", "lib.py"):
        h.update(open(os.path.join(PYPKG, f), "rb").read())
    root = os.path.join(B.OUT, "py-" + h.hexdigest()[:16])
    so = os.path.join(root, "geoarrow/c/_lib.so")
    if not os.path.exists(so):
        os.makedirs(os.path.dirname(so), exist_ok=True)
        for f in ("__init__.py", "lib.py"):
            B.write_if_changed(os.path.join(root, "geoarrow/c", f), open(os.path.join(PYPKG, f)).read())
        B.write_if_changed(os.path.join(root, "geoarrow/c/_version.py"), '__version__ = "0"\n__version_tuple__ = (0,)\n')
        tmp = so + ".%d" % os.getpid()
        B.run(["clang++", "-shared", "-fsanitize=address", "-shared-libasan", "-Wl,-Bsymbolic", "-o", tmp] + objs + ["-lm"])
        os.replace(tmp, so)
    return root


if __name__ == "__main__":
    print(build())
