"""P18: the Python interface. Drawn histories over data types, schemas, arrays, kernels, array views,
buffer exports and builders, with allocation failures, malformed rows, unusable arguments, buffers whose
owner misbehaves, and releases without the interpreter's lock and from other threads."""
import array
import ctypes as C
import gc
import struct

import arrow as A

lib = None
DEAD = []  # tags of buffer owners that were destroyed
ALLOWED = None


def setup(sim):
    global lib, ALLOWED
    import geoarrow.c.lib as lib_
    lib = lib_
    ALLOWED = (MemoryError, ValueError, lib.GeoArrowCException)
    sim.lib.pysim_release_array.argtypes = [C.c_void_p, C.c_int64]
    sim.lib.pysim_release_array.restype = None
    sim.lib.pysim_release_on_thread.argtypes = [C.c_void_p, C.c_int64]
    sim.lib.pysim_release_on_thread.restype = None


class Bytes(bytes):
    tag = 0

    def __del__(self):
        DEAD.append(self.tag)


class ByteArray(bytearray):
    tag = 0

    def __del__(self):
        DEAD.append(self.tag)


class Numbers(array.array):
    tag = 0

    def __del__(self):
        DEAD.append(self.tag)


class T:
    """What a data type should be."""

    def __init__(self, id, edge=0, kind=0, crs=b""):
        self.id, self.edge, self.kind, self.crs = id, edge, kind, crs

    def key(self):
        return (self.id, self.edge, self.kind, self.crs)

    def same(self, o):
        return self.key() == o.key()

    def but(self, **k):
        n = T(*self.key())
        for a, v in k.items():
            setattr(n, a, v)
        return n

    def metadata(self):
        m = {}
        if self.edge:
            m["edges"] = EDGES[self.edge]
        return m


EDGES = ["", "spherical", "vincenty", "thomas", "andoyer", "karney"]
KINDS = ["", "", "projjson", "wkt2:2019", "authority_code", "srid"]
SERIAL = [A.WKB, A.LARGE_WKB, A.WKT, A.LARGE_WKT, A.WKB_VIEW, A.WKT_VIEW]
NATIVE = [A.make_type(g, d, c) for g in range(1, 7) for d in range(1, 5) for c in (1, 2)]
BOX = [A.make_type(990, d, 1) for d in range(1, 5)]
TEXTS = [b"EPSG:1234", b"", b"a", b"OGC:CRS84", b"x" * 60, "Ż€ 𝄞".encode(), b"back\\slash", b"quo\"te", b"tab\there", b"new\nline"]


def storage_ok(t):
    return A.layout(t)


class World:
    def __init__(self, sim):
        self.sim = sim
        self.types, self.schemas, self.arrays, self.views, self.exports = [], [], [], [], []
        self.kernels, self.builders, self.built = [], [], []
        self.next = 1
        self.gone = []

    def tag(self):
        self.next += 1
        return self.next


# ---- faults ----------------------------------------------------------------------------------
def attempt(sim, fn, allocs=24):
    """Runs fn, sometimes under failing allocations. Returns (status, value): ok / fault / raised."""
    armed = sim.B(5)
    if armed:
        first = 1 + sim.D(allocs)
        burst = 1 if sim.D(3) else 1 << 30
        sim.arm(first, burst)
    try:
        v = fn()
        f = sim.disarm()
        if f:
            sim.count("obs.fault_absorbed")
        return "ok", v
    except Exception as e:
        f = sim.disarm()
        name, msg, kind = type(e).__name__, str(e), e.__class__
    if f:
        sim.check(issubclass(kind, ALLOWED), "fault-exception", "%s: %s" % (name, msg))
        sim.count("obs.fault_raised")
        return "fault", None
    sim.note("raised", name, msg)
    return "raised", (kind, msg)


def expect_error(sim, st, v, sig, kinds, what):
    sim.check(st != "ok", sig, "%s was accepted" % what)
    if st == "raised":
        sim.check(issubclass(v[0], kinds), "exception-kind", "%s raised %s: %s" % (what, v[0].__name__, v[1]))
        sim.count("fault.rejected_argument")


def expect_ok(sim, st, v, what):
    """True when there is a value; a fault is the only excuse for none."""
    if st == "raised":
        sim.check(False, "unexpected-exception", "%s raised %s: %s" % (what, v[0].__name__, v[1]))
    return st == "ok"


def pick(sim, xs):
    return xs[sim.D(len(xs))] if xs else None


# ---- data types ------------------------------------------------------------------------------
def check_type(sim, py, t, what):
    g, d, c = A.parts(t.id)
    sim.check(py.id == t.id, "type-id", "%s: %s instead of %s" % (what, py.id, t.id))
    sim.check(py.geometry_type == g and py.dimensions == d and (py.coord_type == c or t.id > 100000), "type-parts",
              "%s: %s/%s/%s of %s" % (what, py.geometry_type, py.dimensions, py.coord_type, t.id))
    sim.check(py.edge_type == t.edge, "type-edge", "%s: %s instead of %s" % (what, py.edge_type, t.edge))
    sim.check(py.crs_type == t.kind, "type-crs-type", "%s: %s instead of %s" % (what, py.crs_type, t.kind))
    sim.check(py.crs == t.crs, "type-crs", "%s: %r instead of %r" % (what, py.crs, t.crs))
    sim.check(py.extension_name == A.ext_name(t.id), "type-name", "%s: %s" % (what, py.extension_name))
    check_metadata(sim, py.extension_metadata, t, what)
    sim.check(A.ext_name(t.id) in repr(py), "type-repr", repr(py))


def check_metadata(sim, raw, t, what):
    import json
    try:
        m = json.loads(raw.decode())
    except ValueError as e:
        sim.check(False, "metadata-json", "%s: %r" % (what, raw[:200]))
    want = {}
    if t.edge:
        want["edges"] = EDGES[t.edge]
    if t.kind:
        text = t.crs.decode()
        want["crs"] = json.loads(text) if t.kind == 2 else text
        if KINDS[t.kind]:
            want["crs_type"] = KINDS[t.kind]
    sim.check(m == want, "metadata", "%s: %r instead of %r" % (what, raw[:300], want))


def draw_crs(sim):
    k = sim.D(6)
    if k == 0:
        return 0, b"", b""
    if k == 2:
        s = pick(sim, [b"{}", b'{"id":{"authority":"EPSG","code":1}}', b'{"a":[1,{"b":"c\\"d"}],"e":null}'])
        return k, s, s
    s = pick(sim, TEXTS)
    if sim.B(4):
        import json
        return k, s, json.dumps(s.decode(), ensure_ascii=bool(sim.D(2))).encode()
    return k, s, s


def raw_metadata(sim, t):
    import json
    m = []
    if t.edge:
        m.append('"edges":"%s"' % EDGES[t.edge])
    if t.kind:
        m.append('"crs":' + (t.crs.decode() if t.kind == 2 else json.dumps(t.crs.decode(), ensure_ascii=bool(sim.D(2)))))
        if KINDS[t.kind]:
            m.append('"crs_type":"%s"' % KINDS[t.kind])
    if not m:
        return pick(sim, [b"", b"{}"])
    if sim.D(2):
        m.reverse()
    return ("{" + (", " if sim.D(2) else ",").join(m) + "}").encode()


def draw_model(sim, ids):
    kind, text, _ = draw_crs(sim)
    return T(pick(sim, ids), sim.D(6) if sim.D(2) else 0, kind, text)


def export_type(sim, t, ext=True):
    """A schema of the simulator's own for t."""
    tree = A.layout(t.id)
    if ext:
        tree.md = [(b"ARROW:extension:name", A.ext_name(t.id).encode()), (b"ARROW:extension:metadata", raw_metadata(sim, t))]
        if sim.B(3):
            tree.md.insert(sim.D(3), (b"other", b"v"))
    s = lib.SchemaHolder()
    A.export_schema(tree, s._addr())
    return s


def op_type_new(w):
    sim = w.sim
    how = sim.D(4)
    if how == 0:
        g, d, c = sim.D(7), sim.D(5), sim.D(3)
        if sim.B(5):
            g = 990
        if sim.B(8):
            g = 7 + sim.D(3)
        t = draw_model(sim, [1])
        ok = (1 <= g <= 6 or (g == 990 and c == 1)) and d >= 1 and c >= 1
        t.id = A.make_type(g, d, c)
        md = raw_metadata(sim, t)
        bad = sim.B(6)
        if bad:
            md = pick(sim, [b"{", b"[1]", b'{"edges": "x"}', b'{"edges": 1}', b'{"crs": "a}', b"\xff", b'{"crs":"EPSG:1"}}'])
        st, v = attempt(sim, lambda: lib.CGeometryDataType.Make(g, d, c, md))
        what = "Make(%s, %s, %s, %r)" % (g, d, c, md[:80])
        if not ok or bad:
            expect_error(sim, st, v, "type-accepted", (ValueError,), what)
            return what, st
    elif how == 1:
        t = draw_model(sim, SERIAL + NATIVE + BOX)
        s = export_type(sim, t)
        if sim.B(5):  # released before use
            s.release()
            st, v = attempt(sim, lambda: lib.CGeometryDataType.FromExtension(s))
            expect_error(sim, st, v, "type-accepted", (ValueError,), "a released schema")
            return "FromExtension(released)", st
        st, v = attempt(sim, lambda: lib.CGeometryDataType.FromExtension(s))
        what = "FromExtension(%s)" % t.id
        if sim.D(2):
            del s
    elif how == 2:
        t = draw_model(sim, SERIAL + NATIVE + BOX)
        s = export_type(sim, t, ext=sim.B(3))
        md = raw_metadata(sim, t)
        name = A.ext_name(t.id).encode()
        bad = sim.W([6, 1, 1, 1])
        if bad == 1:
            name = pick(sim, [b"geoarrow.poin", b"", b"geoarrow.", b"\xff\xfe", "geoarrow.ż".encode(), b"geoarrow.wkb\0x"])
        if bad == 2:
            md = b"{"
        if bad == 3:
            name = b"geoarrow.polygon" if name != b"geoarrow.polygon" else b"geoarrow.point"
            if t.id > 100000 or A.parts(t.id)[0] != A.MLS or name != b"geoarrow.polygon":
                pass
        st, v = attempt(sim, lambda: lib.CGeometryDataType.FromStorage(s, name, md))
        what = "FromStorage(%s, %r, %r)" % (t.id, name, md[:60])
        if bad == 3:
            # child names are not a matter of this property: any answer, but an orderly one
            if st == "raised":
                sim.check(issubclass(v[0], ValueError), "exception-kind", "%s raised %s" % (what, v[0].__name__))
            return what, st
        if bad:
            expect_error(sim, st, v, "type-accepted", (ValueError,), what)
            return what, st
    else:  # unusable arguments
        a = pick(sim, [None, 1, b"x", "x", [], object])
        k = sim.D(5)
        kinds = (TypeError, ValueError, OverflowError)
        if k == 0:
            st, v = attempt(sim, lambda: lib.CGeometryDataType.FromExtension(a))
        elif k == 1:
            st, v = attempt(sim, lambda: lib.CGeometryDataType.FromStorage(a, b"geoarrow.wkb", b""))
        elif k == 2:
            st, v = attempt(sim, lambda: lib.CGeometryDataType.Make(a if a != 1 else -1, 1, 1))
        elif k == 3:
            st, v = attempt(sim, lambda: lib.CGeometryDataType.Make(1, pick(sim, [-1, 5, 99, 1 << 40]), 1))
        else:
            st, v = attempt(sim, lambda: lib.CGeometryDataType.Make(1, 1, pick(sim, [-1, 3, 99, -(1 << 70)])))
        expect_error(sim, st, v, "type-accepted", kinds, "argument %d %r" % (k, a))
        return "unusable %d" % k, st
    if expect_ok(sim, st, v, what):
        check_type(sim, v, t, what)
        w.types.append((v, t))
    return what, st


def op_type_change(w):
    sim = w.sim
    if not w.types:
        return op_type_new(w)
    py, t = pick(sim, w.types)
    g, d, c = A.parts(t.id)
    ser = t.id > 100000
    k = sim.D(6)
    n, ok = t, True
    if k == 0:
        e = sim.D(6)
        fn = lambda: py.with_edge_type(e)  # noqa: E731
        n = t.but(edge=e)
    elif k == 1:
        kind, text, raw = draw_crs(sim)
        fn = lambda: py.with_crs(raw, kind)  # noqa: E731
        n = t.but(kind=kind, crs=text)
    elif k == 2:
        x = sim.D(5)
        ok = not ser and x > 0
        fn = lambda: py.with_dimensions(x)  # noqa: E731
        n = t.but(id=A.make_type(g, x, c))
    elif k == 3:
        x = sim.D(3)
        ok = not ser and x > 0 and not (g == 990 and x == 2)
        fn = lambda: py.with_coord_type(x)  # noqa: E731
        n = t.but(id=A.make_type(g, d, x))
    elif k == 4:
        x = sim.D(8)
        ok = not ser and 1 <= x <= 6
        fn = lambda: py.with_geometry_type(x)  # noqa: E731
        n = t.but(id=A.make_type(x, d, c))
    else:
        if sim.D(2):
            st, v = attempt(sim, lambda: py.to_schema())
            if expect_ok(sim, st, v, "to_schema"):
                sim.check(v.is_valid(), "schema-valid", "to_schema")
                tree = A.read_schema(v._addr())
                sim.check(tree.shape() == A.layout(t.id).shape(), "schema-layout", "%s is %s" % (t.id, tree.shape()))
                md = dict(tree.md)
                sim.check(md.get(b"ARROW:extension:name") == A.ext_name(t.id).encode() and len(tree.md) == 2, "schema-metadata", repr(tree.md))
                check_metadata(sim, md.get(b"ARROW:extension:metadata", b"?"), t, "to_schema")
                w.schemas.append((v, t))
            return "to_schema %s" % t.id, st
        st, v = attempt(sim, lambda: py.to_storage_schema())
        if expect_ok(sim, st, v, "to_storage_schema"):
            tree = A.read_schema(v._addr())
            sim.check(tree.shape() == A.layout(t.id).shape() and not tree.md, "schema-layout", "%s is %s" % (t.id, tree.shape()))
        return "to_storage_schema %s" % t.id, st
    st, v = attempt(sim, fn)
    what = "change %d of %s" % (k, t.key())
    if not ok:
        expect_error(sim, st, v, "type-accepted", (ValueError,), what)
    elif expect_ok(sim, st, v, what):
        check_type(sim, v, n, what)
        check_type(sim, py, t, what + " (the original)")
        w.types.append((v, n))
    return what, st


def op_type_compare(w):
    sim = w.sim
    if len(w.types) < 2:
        return op_type_change(w)
    (a, ta), (b, tb) = pick(sim, w.types), pick(sim, w.types)
    st, v = attempt(sim, lambda: a == b)
    if expect_ok(sim, st, v, "=="):
        sim.check(v == ta.same(tb), "type-equal", "%s == %s is %s" % (ta.key(), tb.key(), v))
    sim.check(not (a == 1) and a != None, "type-equal", "another kind of object")  # noqa: E711
    st, v = attempt(sim, lambda: pick(sim, [repr(a), a.crs, a.extension_metadata, a.extension_name]))
    expect_ok(sim, st, v, "a property")
    e = lib.CGeometryDataType()
    for f in ("id", "geometry_type", "dimensions", "coord_type", "extension_name", "extension_metadata", "edge_type",
              "crs_type", "crs", "to_schema", "to_storage_schema"):
        try:
            x = getattr(e, f)
            if f.startswith("to_"):
                x()
            sim.check(False, "type-accepted", "an uninitialised type has a " + f)
        except ValueError:
            pass
    sim.check("ninitialized" in repr(e), "type-repr", repr(e))
    return "compare", st


# ---- features and arrays ---------------------------------------------------------------------
def draw_coord(sim, d):
    return tuple(float(sim.D(2001) - 1000) / (1, 2, 8)[sim.D(3)] for _ in range(len(A.DIMS[d])))


def draw_feature(sim, g, d, empty=True):
    def seq(lo, hi):
        if sim.B(100):  # a long one
            n, x = 50 + sim.D(500), sim.D(1 << 20)
            return [tuple(float(x + 7 * i + k) for k in range(len(A.DIMS[d]))) for i in range(n)]
        return [draw_coord(sim, d) for _ in range(lo + sim.D(hi - lo + 1))]
    if g == A.PT:
        return (g, d, draw_coord(sim, d))
    if empty and sim.B(6):
        return (g, d, [])
    if g in (A.LS, A.MPT):
        return (g, d, seq(1, 5))
    if g in (A.PG, A.MLS):
        return (g, d, [seq(1, 5) for _ in range(1 + sim.D(3))])
    if g == A.MPG:
        return (g, d, [[seq(1, 4) for _ in range(1 + sim.D(3))] for _ in range(1 + sim.D(3))])
    return (g, d, [draw_feature(sim, 1 + sim.D(6), d, False) for _ in range(1 + sim.D(3))])


def draw_rows(sim, g, d, n):
    return [None if sim.B(5) else draw_feature(sim, g, d) for _ in range(n)]


def export_rows(sim, t, fs, hit=None):
    """An array of type t with a drawn slice; returns (holder, visible rows, node, before)."""
    before, after = (sim.small(4), sim.small(3)) if sim.B(3) else (0, 0)
    before = min(before, len(fs))
    after = min(after, len(fs) - before)
    unknown = bool(sim.D(2))
    if t in A.FORMAT:
        if t in (A.WKB, A.LARGE_WKB, A.WKB_VIEW):
            vals = [None if f is None else A.wkb(f, bool(sim.D(2))) for f in fs]
        else:
            vals = [None if f is None else A.wkt(f).encode() for f in fs]
        bad = []
        if hit is not None:
            i = before + sim.D(max(1, len(fs) - before - after))
            if i < len(fs) - after and vals[i] is not None:
                vals[i] = spoil(sim, vals[i], t)
                bad.append(i)
        node = A.binary_node(vals, A.FORMAT[t], before, after, unknown)
        if hit is not None:
            hit += bad
    else:
        node = A.native_node(fs, t, before, after, unknown, bool(sim.D(2)))
    h = lib.ArrayHolder()
    A.export_array(node, h._addr())
    return h, fs[before:len(fs) - after], node, before


def spoil(sim, v, t):
    if t in (A.WKB, A.LARGE_WKB, A.WKB_VIEW):
        k = sim.D(3)
        if k == 0:
            return v[:-1 - sim.D(len(v))]
        if k == 1:
            return v[:1] + b"\xff\xff\xff\xff" + v[5:]
        return b"\x07" + v[1:]
    k = sim.D(5)
    if k == 0:
        return v[:-1] + b"\xff" if v.endswith(b")") else b"EMPT"
    if k == 1:
        return b"\xc5\xbc" * (1 + sim.D(700)) + v
    if k == 2:
        return b"POINT (\xe2\x82\xac 1)"
    if k == 3:
        return b"\xff" * sim.D(5) + b"PO"
    return v + b" x\x80"


def op_schema_drop(w):
    sim = w.sim
    if not w.schemas:
        return op_type_change(w)
    i = sim.D(len(w.schemas))
    s, t = w.schemas[i]
    k = sim.D(3)
    if k == 0:
        st, v = attempt(sim, lambda: lib.CGeometryDataType.FromExtension(s))
        if expect_ok(sim, st, v, "FromExtension"):
            check_type(sim, v, t, "FromExtension(to_schema)")
            w.types.append((v, t))
        return "FromExtension of to_schema", st
    del w.schemas[i]
    if k == 1:
        s.release()
        sim.check(not s.is_valid(), "released", "is_valid() after release()")
        st, v = attempt(sim, lambda: s.release())
        expect_error(sim, st, v, "released", (ValueError,), "a second release()")
    return "schema dropped %d" % k, "ok"


# ---- kernels ---------------------------------------------------------------------------------
class K:
    pass


SCALAR = ["void", "as_geoarrow", "as_geoarrow", "format_wkt", "box"]
AGG = ["void_agg", "visit_void_agg", "unique_geometry_types_agg", "box_agg"]


def options(md):
    return A.keyvalues(md)


def op_kernel_new(w):
    sim = w.sim
    if sim.B(6):
        a = pick(sim, [b"", b"nothing", b"voi", b"void ", b"as_wkt_", b"VOID", None, 1, b"\xff", b"x" * 3000])
        st, v = attempt(sim, lambda: lib.CKernel(a))
        expect_error(sim, st, v, "kernel-accepted", (lib.GeoArrowCException,) if isinstance(a, bytes) and a != b"\xff" else (TypeError, ValueError, RuntimeError),
                     "the kernel %r" % (a,))
        if st == "raised" and a == b"nothing":
            sim.check("nothing" in v[1], "exception-message", v[1])
        return "kernel %r" % (a if a is None else str(a)[:20]), st
    k = K()
    k.name = pick(sim, SCALAR + AGG)
    st, v = attempt(sim, lambda: lib.CKernel(k.name.encode()))
    if not expect_ok(sim, st, v, "CKernel"):
        return "kernel", st
    k.k = v
    k.agg = k.name in AGG
    k.started = False
    k.rows = []
    w.kernels.append(k)
    return "kernel " + k.name, st


def op_kernel_use(w):
    sim = w.sim
    if not w.kernels:
        return op_kernel_new(w)
    k = pick(sim, w.kernels)
    GE = lib.GeoArrowCException
    if not k.started:
        bad = sim.W([8, 1, 1, 1, 1, 1])
        if bad == 1:  # not a schema at all
            a = pick(sim, [None, 1, "x"])
            st, v = attempt(sim, lambda: k.k.start(a, options([])))
            expect_error(sim, st, v, "start-accepted", (TypeError,), "start(%r)" % (a,))
            return "start unusable", st
        if bad == 2 and k.name not in ("void", "void_agg"):  # storage without an extension name, or no layout
            s = lib.SchemaHolder()
            A.export_schema(pick(sim, [A.Tree("g"), A.Tree("+s", "", [A.Tree("g", "x")]), A.Tree("+l", "", [A.Tree("i", "q")])]), s._addr())
            st, v = attempt(sim, lambda: k.k.start(s, options([(b"type", b"1")] if k.name == "as_geoarrow" else [])))
            expect_error(sim, st, v, "start-accepted", (GE,), "start(not geometry)")
            return "start not geometry", st
        if bad == 3 and k.name not in ("void", "void_agg"):  # a name that is not text
            s = lib.SchemaHolder()
            n = pick(sim, [b"geoarrow.\xff\xfe", b"geoarrow.nothing", b"\x80" * 1500, ("geoarrow." + "ż" * 700).encode(), ("geoarrow.x" + "ż" * 700).encode()])
            A.export_schema(A.Tree("z", "", (), True, [(b"ARROW:extension:name", n)]), s._addr())
            st, v = attempt(sim, lambda: k.k.start(s, options([(b"type", b"1")] if k.name == "as_geoarrow" else [])))
            expect_error(sim, st, v, "start-accepted", (GE,), "start(unknown extension)")
            return "start unknown extension", st
        if bad == 4:  # out of phase
            h, rows, node, _ = export_rows(sim, A.WKT, [None])
            fn = (lambda: k.k.push_batch_agg(h)) if k.agg else (lambda: k.k.push_batch(h))
            st, v = attempt(sim, fn)
            if k.name == "void":
                expect_ok(sim, st, v, "void")
            elif k.agg:
                sim.check(st != "ok" or v is None, "phase", "%r" % (v,))
            else:
                expect_error(sim, st, v, "phase", (GE,), "push_batch() before start() of " + k.name)
            return "push before start", st
        if bad == 5 and k.name == "as_geoarrow":
            s = export_type(sim, draw_model(sim, [A.WKT]))
            o = pick(sim, [[], [(b"type", b"x")], [(b"type", b"99999")], [(b"type", b"\xff")], [(b"typ", b"1")]])
            st, v = attempt(sim, lambda: k.k.start(s, options(o)))
            expect_error(sim, st, v, "start-accepted", (GE,), "start(%r)" % (o,))
            return "start bad option", st
        k.g = 1 + sim.D(6)
        k.d = 1 + sim.D(4)
        src = sim.D(2)
        k.mixed = False
        if src == 0:
            k.src = A.make_type(k.g, k.d, 1 + sim.D(2))
        else:
            k.src = pick(sim, SERIAL)
            k.mixed = k.name != "as_geoarrow" and sim.D(2) == 0
        # the extension metadata is that of the input
        k.t = draw_model(sim, [k.src])
        if k.name.startswith("box"):
            k.t.edge = 0
        o = []
        k.out = 0
        if k.name == "as_geoarrow":
            g = k.g + 3 if k.g <= 3 and sim.D(2) else k.g
            k.out = A.make_type(g, 1 + sim.D(4), 1 + sim.D(2))
            if sim.B(4):
                k.out = pick(sim, [A.WKB, A.WKT])
            o = [(b"type", b"%d" % k.out)]
        elif k.name in ("box", "box_agg"):
            k.out = 990
        s = export_type(sim, k.t)
        st, v = attempt(sim, lambda: k.k.start(s, options(o)))
        if expect_ok(sim, st, v, "start of %s for %s" % (k.name, k.src)):
            k.started = True
            sim.check(v.is_valid(), "out-schema", "no schema")
            k.schema = v
            tree = A.read_schema(v._addr())
            if k.out:
                m = k.t.but(id=k.out)
                check_type(sim, lib.CGeometryDataType.FromExtension(v), m, "the schema of " + k.name)
                sim.check(tree.shape() == A.layout(k.out).shape(), "out-schema", tree.shape())
            else:
                want = {"format_wkt": "u", "unique_geometry_types_agg": "i"}.get(k.name, "n")
                sim.check(tree.format == want, "out-schema", tree.format)
        elif sim.D(2):
            w.kernels.remove(k)  # dropped after a failing start
        if sim.D(2):
            let_go(sim, s)
            del s
        return "start %s %s" % (k.name, k.src), st
    if sim.B(4) and k.started:  # finish
        if k.agg:
            st, v = attempt(sim, lambda: k.k.finish_agg())
            w.kernels.remove(k)
            if expect_ok(sim, st, v, "finish_agg of " + k.name):
                check_agg(sim, k, v)
            return "finish " + k.name, st
        w.kernels.remove(k)
        st, v = attempt(sim, lambda: k.k.finish())
        expect_ok(sim, st, v, "finish of " + k.name)
        return "finish " + k.name, st
    if sim.B(12):  # the calls of the other kind of kernel
        h, rows, node, _ = export_rows(sim, k.src, [])
        if k.agg:
            st, v = attempt(sim, lambda: k.k.finish() if sim.D(2) else k.k.push_batch(h))
            if st == "ok":
                sim.check(v is not None and not v.is_valid(), "kind-accepted", "a scalar call of %s" % k.name)
        else:
            st, v = attempt(sim, lambda: k.k.finish_agg() if sim.D(2) else k.k.push_batch_agg(h))
            expect_error(sim, st, v, "kind-accepted", (GE,), "an aggregate call of %s" % k.name)
        return "call of the other kind", st
    if sim.B(12):
        a = pick(sim, [None, 1, "x", k.schema])
        st, v = attempt(sim, lambda: (k.k.push_batch_agg if k.agg else k.k.push_batch)(a))
        expect_error(sim, st, v, "push-accepted", (TypeError,), "push_batch(%r)" % type(a))
        return "push unusable", st
    n = 30 + sim.D(200) if sim.B(60) else sim.small(6)
    fs = [None if sim.B(5) else draw_feature(sim, 1 + sim.D(7) if k.mixed else k.g, 1 + sim.D(4) if k.mixed else k.d) for _ in range(n)]
    hit = [] if k.src in A.FORMAT and sim.B(5) and n else None
    h, rows, node, before = export_rows(sim, k.src, fs, hit)
    bad = bool(hit)
    if not bad and sim.B(12) and not k.name.startswith("void"):
        # an array that is not of the type announced
        h = lib.ArrayHolder()
        A.export_array(A.Node(n, [None]), h._addr())
        bad = True
    fn = (lambda: k.k.push_batch_agg(h)) if k.agg else (lambda: k.k.push_batch(h))
    st, v = attempt(sim, fn, 60)
    what = "push %s %d rows%s" % (k.name, len(rows), " (malformed)" if bad else "")
    if bad and not k.name.startswith("void"):
        sim.count("fault.malformed_batch")
        if hit and k.name == "unique_geometry_types_agg":
            # stops reading a row at its first coordinate: what follows may or may not be noticed
            w.kernels.remove(k)
            if st == "raised":
                sim.check(issubclass(v[0], GE), "exception-kind", "%s raised %s: %s" % (what, v[0].__name__, v[1]))
            return what, st
        expect_error(sim, st, v, "push-accepted", (GE,), what)
        if k.agg:
            w.kernels.remove(k)  # whether the rows before the malformed one count is open
        return what, st
    if st == "fault":
        if k.agg:
            w.kernels.remove(k)
        return what, st
    expect_ok(sim, st, v, what)
    if sim.D(2):
        del h
    if k.agg:
        sim.check(v is None, "push-result", repr(v))
        k.rows += rows
    else:
        check_rows(sim, k, rows, v)
        if sim.B(3):
            w.built.append((v, None, []))
    sim.nontrivial = True
    return what, st


def got_rows(sim, h, t, n, what):
    a = A.Array.from_address(h._addr())
    sim.check(h.is_valid() and a.length == n, "row-count", "%s: %d rows instead of %d" % (what, a.length, n))
    try:
        return A.read_rows(h._addr(), t)
    except (ValueError, struct.error, IndexError) as e:
        sim.check(False, "array-structure", "%s: %s" % (what, e))


def check_rows(sim, k, rows, h):
    what = k.name
    a = A.Array.from_address(h._addr())
    if k.name == "void":
        sim.check(a.length == len(rows) and a.null_count == len(rows), "void", what)
        return
    if k.name == "box":
        sim.check(a.length == len(rows) and a.n_children == 4, "row-count", what)
        bits = A._bits(a)
        for i, f in enumerate(rows):
            sim.check(bits[i] == (f is not None), "null", "box row %d" % i)
            if f is not None:
                check_bounds(sim, a, i, [f], what)
        return
    t = A.WKT if k.name == "format_wkt" else k.out
    got = got_rows(sim, h, t, len(rows), what)
    for i, (g, f) in enumerate(zip(got, rows)):
        if f is None:
            want = None
        elif t in (A.WKT, A.LARGE_WKT):
            want = A.wkt(f)
        elif t in A.FORMAT:
            want = f
        else:
            og, od, _ = A.parts(t)
            want = A.to_type(f, og, od)
        same = g == want if isinstance(want, str) else A.key(g) == A.key(want)
        sim.check(same, "row", "%s row %d of %s is %s but should be %s" % (what, i, k.src, str(g)[:300], str(want)[:300]))


def check_bounds(sim, a, i, fs, what):
    b = [float("inf"), float("inf"), -float("inf"), -float("inf")]
    for f in fs:
        for c in A.coords_of(f):
            for j in (0, 1):
                b[j] = min(b[j], c[j])
                b[j + 2] = max(b[j + 2], c[j])
    for j in range(4):
        c = a.children[j].contents
        x = C.c_double.from_address(c.buffers[1] + 8 * (c.offset + a.offset + i)).value
        sim.check(x == b[j], "box", "%s column %d of row %d is %r but should be %r" % (what, j, i, x, b[j]))


def check_agg(sim, k, h):
    a = A.Array.from_address(h._addr())
    rows = [f for f in k.rows if f is not None]
    sim.check(h.is_valid(), "no-result", k.name)
    if k.name == "box_agg":
        sim.check(a.length == 1 and a.n_children == 4, "row-count", k.name)
        check_bounds(sim, a, 0, rows, k.name)
    elif k.name == "unique_geometry_types_agg":
        v = [C.c_int32.from_address(a.buffers[1] + 4 * (a.offset + i)).value for i in range(a.length)]
        must = sorted({f[0] + 1000 * (f[1] - 1) for f in rows if f[2]})
        may = {f[0] + 1000 * (f[1] - 1) for f in rows}
        sim.check(v == sorted(set(v)) and set(must) <= set(v) <= may, "unique", "%s but should be %s" % (v, must))
    else:
        sim.check(a.length == 1 and a.null_count == 1, "void", k.name)


# ---- array views -----------------------------------------------------------------------------
class V:
    pass


def op_view_new(w):
    sim = w.sim
    g, d, c = 1 + sim.D(6), 1 + sim.D(4), 1 + sim.D(2)
    if sim.B(8):
        a = pick(sim, [None, 1, "x"])
        s = export_type(sim, T(1))
        h = lib.ArrayHolder()
        A.export_array(A.native_node([], 1), h._addr())
        st, v = attempt(sim, lambda: lib.CArrayView(a, s) if sim.D(2) else lib.CArrayView(h, a))
        expect_error(sim, st, v, "view-accepted", (TypeError,), "CArrayView(%r)" % (a,))
        return "view unusable", st
    t = A.make_type(g, d, c)
    v = V()
    if sim.B(5):
        t = pick(sim, [A.WKB, A.WKT, 990, 1990, 2990, 3990])
    v.t = t
    if A.parts(t)[0] == 990:
        n = sim.small(5)
        v.before = min(n, sim.small(3))
        v.rows = [()] * (n - v.before)
        v.node = A.Node(n - v.before, [None], [A.Node(n, [None, struct.pack("<%dd" % n, *[float(sim.D(9)) for _ in range(n)])])
                                               for _ in range(2 * len(A.DIMS[A.parts(t)[1]]))], v.before)
        h = lib.ArrayHolder()
        A.export_array(v.node, h._addr())
    else:
        rows = draw_rows(sim, g, d, sim.small(6))
        h, v.rows, v.node, v.before = export_rows(sim, t, rows)
        if not rows and t > 100000 and sim.D(2):
            v.node = A.Node(0, [None, None, None])  # an empty array needs no buffers
            h = lib.ArrayHolder()
            A.export_array(v.node, h._addr())
    s = export_type(sim, draw_model(sim, [t]))
    bad = sim.W([8, 1, 1])
    if bad == 1:
        n = pick(sim, [A.Node(1, []), A.Node(1, [None], [A.Node(1, [None])]), A.Node(1, [None, b"\0" * 8]), A.Node(0, [None, b"\0" * 8], [A.Node(0, [None])])])
        h = lib.ArrayHolder()
        A.export_array(n, h._addr())
    if bad == 2:
        s = lib.SchemaHolder()
        A.export_schema(A.Tree("g", "", (), True, [(b"ARROW:extension:name", pick(sim, [b"geoarrow.point", b"x", b"\xff"]))]), s._addr())
    st, x = attempt(sim, lambda: lib.CArrayView(h, s))
    if bad:
        expect_error(sim, st, x, "view-accepted", (lib.GeoArrowCException,), "an array of another layout (%d)" % bad)
        return "view bad %d" % bad, st
    if expect_ok(sim, st, x, "CArrayView"):
        v.v = x
        let_go(sim, s)
        w.views.append(v)
        read_buffers(w, v)
    return "view %s of %d rows" % (t, len(v.rows)), st


def read_buffers(w, v):
    sim = w.sim
    st, bufs = attempt(sim, lambda: v.v.buffers())
    if not expect_ok(sim, st, bufs, "buffers()"):
        return
    g, d, c = A.parts(v.t)
    # what the array was exported with
    want = []
    node = v.node
    need = v.before + len(v.rows)  # elements of this level that the rows use
    lows = v.before
    if not v.rows:
        need = lows = 0
    if v.t > 100000:
        raw = node.buffers[1] or b""
        o = struct.unpack("<%di" % (len(raw) // 4), raw) or (0,)
        want.append(("i", raw, need + 1 if need > lows else 1, lows, o))
        want.append(("B", node.buffers[2] or b"", o[need] if need > lows else 0, o[lows] if need > lows else 0, None))
    for _ in range(A.LEVELS[g] if g < 990 else 0):
        o = struct.unpack("<%di" % (len(node.buffers[1]) // 4), node.buffers[1])
        want.append(("i", node.buffers[1], need + 1 if need > lows else 1, lows, o))
        need, lows = (o[need], o[lows]) if need > lows else (0, 0)
        node = node.kids[0]
    if v.t > 100000:
        pass
    elif c == 1:
        want += [("d", k.buffers[1], need, lows, None) for k in node.kids]
    else:
        n = len(A.DIMS[d])
        want.append(("d", node.kids[0].buffers[1], need * n, lows * n, None))
    sim.check(len(bufs) == 1 + len(want), "buffer-count", "%s: %d buffers instead of %d" % (v.t, len(bufs), 1 + len(want)))
    sim.check(bufs[0] is None, "buffer-validity", repr(bufs[0]))
    got = []
    for i, (b, (fmt, raw, n, low, _)) in enumerate(zip(bufs[1:], want)):
        m = memoryview(b)
        sim.check(m.format == fmt and m.ndim == 1 and m.readonly and m.contiguous and m.itemsize == {"i": 4, "d": 8, "B": 1}[fmt], "buffer-format",
                  "buffer %d: %s" % (i + 1, m.format))
        sim.check(m.shape[0] >= n or n <= (1 if fmt == "i" else 0), "buffer-length", "buffer %d of %s has %d elements but the rows use %d" % (i + 1, v.t, m.shape[0], n))
        data = m.tobytes()
        if n > (1 if fmt == "i" else 0):
            x = m.itemsize * low, m.itemsize * n
            sim.check(data[x[0]:x[1]] == raw[x[0]:x[1]], "buffer-content", "buffer %d of %s (rows %d to %d)" % (i + 1, v.t, v.before, v.before + len(v.rows)))
        sim.check(len(data) <= max(len(raw), m.itemsize if fmt == "i" else 0), "buffer-length", "buffer %d of %s has %d bytes of %d" % (i + 1, v.t, len(data), len(raw)))
        got.append(data)
    # and the rows they hold
    if v.before == 0 and 0 < g < 990:
        out = rows_of(v.t, got, len(v.rows))
        for i, (x, f) in enumerate(zip(out, v.rows)):
            if f is not None:
                sim.check(A.key(x) == A.key(f), "buffer-rows", "row %d is %s but should be %s" % (i, str(x)[:200], str(f)[:200]))
    for b, data in zip(bufs[1:], got):
        if sim.B(3):
            w.exports.append((memoryview(b) if sim.D(2) else b, data))
    if sim.B(2) and len(bufs) > 1:
        # nobody may write through them
        b = bufs[1 + sim.D(len(bufs) - 1)]
        try:
            struct.pack_into("<i", b, 0, 1)
            sim.check(False, "buffer-writable", "a read-only buffer was written")
        except (TypeError, BufferError, struct.error) as e:
            pass
        sim.count("fault.write_attempt")


def rows_of(t, bufs, n):
    g, d, c = A.parts(t)
    k = A.LEVELS[g]
    nd = len(A.DIMS[d])
    if c == 1:
        cs = list(zip(*[struct.unpack("<%dd" % (len(b) // 8), b) for b in bufs[k:]]))
    else:
        x = struct.unpack("<%dd" % (len(bufs[k]) // 8), bufs[k])
        cs = [tuple(x[i:i + nd]) for i in range(0, len(x) - nd + 1, nd)]
    cur = cs
    for b in reversed(bufs[:k]):
        o = struct.unpack("<%di" % (len(b) // 4), b)
        cur = [cur[x:y] for x, y in zip(o, o[1:])]
    return [(g, d, cur[i]) for i in range(n)]


def op_view_use(w):
    sim = w.sim
    if not w.views:
        return op_view_new(w)
    i = sim.D(len(w.views))
    if sim.B(3):
        del w.views[i]  # its exports must stay usable
        return "view dropped", "ok"
    read_buffers(w, w.views[i])
    return "buffers", "ok"


def check_exports(w):
    for b, data in w.exports:
        m = memoryview(b)
        w.sim.check(m.tobytes() == data, "buffer-content", "a buffer changed after it was handed out")


# ---- builders --------------------------------------------------------------------------------
class Bl:
    pass


def let_go(sim, s):
    """What was made from a schema does not need it any more."""
    if sim.B(4):
        s.release()
        sim.count("fault.schema_released")


def op_builder_new(w):
    sim = w.sim
    b = Bl()
    g, d, c = 1 + sim.D(6), 1 + sim.D(4), 1 + sim.D(2)
    b.t = A.make_type(g, d, c)
    bad = sim.B(8)
    if bad:
        a = pick(sim, [None, 1, lib.ArrayHolder()])
        k = sim.D(2)
        if k:
            a = lib.SchemaHolder()
            A.export_schema(A.Tree("g"), a._addr())
        st, v = attempt(sim, lambda: lib.CBuilder(a))
        expect_error(sim, st, v, "builder-accepted", (lib.GeoArrowCException,) if k else (TypeError,), "CBuilder(%r)" % type(a))
        return "builder unusable", st
    s = export_type(sim, draw_model(sim, [b.t]))
    st, v = attempt(sim, lambda: lib.CBuilder(s))
    if not expect_ok(sim, st, v, "CBuilder"):
        return "builder", st
    b.b = v
    sim.check(v.schema is s, "builder-schema", repr(v.schema))
    let_go(sim, s)
    b.held = {}  # buffer index -> tag
    b.want = None
    w.builders.append(b)
    return "builder %s" % b.t, st


def wrap(w, raw, kind):
    """An owner of raw: (object to hand over, tag, the owner itself or None)."""
    sim = w.sim
    tag = w.tag()
    if kind == "B":
        o = (Bytes if sim.D(2) else ByteArray)(raw)
    else:
        o = Numbers(kind)
        o.frombytes(raw)
    o.tag = tag
    if sim.B(4) and len(raw):
        return memoryview(o), tag, o
    return o, tag, o


def setter(b, kind):
    return {"B": b.b.set_buffer_uint8, "i": b.b.set_buffer_int32, "d": b.b.set_buffer_double}[kind]


def layout_of(t):
    g, d, c = A.parts(t)
    return ["B"] + ["i"] * A.LEVELS[g] + ["d"] * (len(A.DIMS[d]) if c == 1 else 1)


def raw_buffers(t, fs):
    node = A.native_node(fs, t, force_bitmap=True)
    g, d, c = A.parts(t)
    out = [node.buffers[0]]
    for _ in range(A.LEVELS[g]):
        out.append(node.buffers[1])
        node = node.kids[0]
    if c == 1:
        out += [k.buffers[1] for k in node.kids]
    else:
        out.append(node.kids[0].buffers[1])
    return out


def is_dead(tag):
    return tag in DEAD


def set_buffer(w, b, i, kind, raw):
    sim = w.sim
    o, tag, owner = wrap(w, raw, kind)
    st, v = attempt(sim, lambda: setter(b, kind)(i, o))
    if st == "ok":
        old = b.held.pop(i, None)
        if len(raw):
            b.held[i] = tag
            # the owner cannot change size while the library reads its memory
            if isinstance(owner, (bytearray, array.array)) and sim.D(2):
                try:
                    owner.append(1)
                    sim.check(False, "owner-resized", "the memory of buffer %d could be moved away" % i)
                except BufferError:
                    pass
                sim.count("fault.resize_attempt")
            if o is not owner and sim.D(2):
                o.release()
                sim.count("fault.view_released")
        del o, owner, v
        if old is not None:
            sim.check(is_dead(old), "owner-kept", "the owner of a replaced buffer is still alive")
        if len(raw):
            sim.check(not is_dead(tag), "owner-lost", "the owner of buffer %d was destroyed" % i)
        else:
            sim.check(is_dead(tag), "owner-kept", "the owner of an empty buffer")
        return True
    del o, owner
    expect_ok(sim, st, v, "set_buffer(%d) with %d bytes" % (i, len(raw)))
    sim.check(is_dead(tag), "owner-kept", "the owner of a refused buffer is still alive")
    return False


def op_builder_use(w):
    sim = w.sim
    if not w.builders:
        return op_builder_new(w)
    b = pick(sim, w.builders)
    g, d, c = A.parts(b.t)
    k = sim.W([6, 4, 1, 1])
    if k == 3:
        held = list(b.held.values())
        w.builders.remove(b)
        del b
        for t in held:
            sim.check(is_dead(t), "owner-kept", "the owner of a buffer of a dropped builder")
        return "builder dropped", "ok"
    if k == 2:
        if not b.held and sim.D(2):
            return finish(w, b, [])
        return unusable_buffer(w, b)
    if k == 1:
        return unusable_buffer(w, b)
    # all buffers of some rows, in a drawn order, then finish
    fs = draw_rows(sim, g, d, sim.small(6))
    bufs = raw_buffers(b.t, fs)
    kinds = layout_of(b.t)
    use_validity = any(f is None for f in fs) or sim.D(2)
    order = list(range(len(bufs)))
    for i in range(len(order) - 1, 0, -1):
        j = sim.D(i + 1)
        order[i], order[j] = order[j], order[i]
    if not use_validity:
        order.remove(0)
        if 0 in b.held:
            w.builders.remove(b)
            return "builder with a stale bitmap", "ok"
    if not fs and sim.D(2):
        order = []
        if b.held:
            w.builders.remove(b)
            return "builder with stale buffers", "ok"
    for i in order:
        for _ in range(30):
            if set_buffer(w, b, i, kinds[i], bufs[i]):
                break
        else:
            return "set", "fault"
        if sim.B(6):
            unusable_buffer(w, b)
    return finish(w, b, fs)


def finish(w, b, fs):
    sim = w.sim
    st, v = attempt(sim, lambda: b.b.finish())
    what = "finish %s %d rows" % (b.t, len(fs))
    if not expect_ok(sim, st, v, what):
        w.builders.remove(b)
        held = list(b.held.values())
        if sim.D(2):  # nothing is lost: again
            st, v = attempt(sim, lambda: b.b.finish())
            if not expect_ok(sim, st, v, what):
                v = None
        del b
        if v is None:
            w.gone += held  # once the caller has dropped the builder
            return what, st
        w.built.append((v, fs, held))
    else:
        held = list(b.held.values())
        b.held = {}
        w.built.append((v, fs, held))
        if sim.D(2):
            w.builders.remove(b)
        t = b.t
        del b
        got = got_rows(sim, v, t, len(fs), what)
        for i, (x, f) in enumerate(zip(got, fs)):
            sim.check(A.key(x) == A.key(f), "built-row", "row %d of %s is %s but should be %s" % (i, t, str(x)[:300], str(f)[:300]))
    for t in held:
        sim.check(not is_dead(t), "owner-lost", "the owner of a buffer in use was destroyed")
    sim.nontrivial = True
    return what, st


def unusable_buffer(w, b):
    sim = w.sim
    kinds = layout_of(b.t)
    k = sim.D(8)
    errs = (ValueError, TypeError, lib.GeoArrowCException, BufferError)
    tag = w.tag()
    i = sim.D(len(kinds))
    kind = kinds[i]
    o = Numbers("d" if kind == "d" else "i", [1, 2, 3, 4, 5, 6])
    if kind == "B":
        o = ByteArray(b"abcdefgh")
    o.tag = tag
    arg = o
    if k == 0:  # an index that does not exist
        i = pick(sim, [-1, len(kinds), 1000, -(1 << 40), 1 << 62])
    elif k == 1:  # every other element
        arg = memoryview(o)[::2]
    elif k == 2:  # backwards
        arg = memoryview(o)[::-1]
    elif k == 3:  # other elements
        x = Numbers("d" if kind != "d" else "f", [1.0, 2.0])
        x.tag = tag
        arg = x
        DEADBEFORE = o
        o.tag = w.tag()
        del DEADBEFORE
        o = x
    elif k == 4:
        arg = pick(sim, [None, 1, "text", [1, 2], object()])
    elif k == 5:  # two dimensions
        raw = memoryview(o)
        arg = raw.cast("B").cast(raw.format, (2, len(o) // 2)) if kind != "B" else raw.cast("B", (2, 4))
    elif k == 6:  # a view that was released
        arg = memoryview(o)
        arg.release()
    else:  # big-endian numbers
        arg = (C.c_double.__ctype_be__ * 2)() if kind == "d" else (C.c_int32.__ctype_be__ * 2)()
    st, v = attempt(sim, lambda: setter(b, kind)(i, arg))
    del arg, o
    if k == 3:
        x = None
    if k == 5:
        raw = None
    expect_error(sim, st, v, "buffer-accepted", errs, "unusable buffer %d for %d (%s)" % (k, i, kind))
    sim.check(is_dead(tag), "owner-kept", "the owner of a refused buffer is still alive (%d)" % k)
    return "unusable buffer %d" % k, st


def op_built_drop(w):
    """Releases a built array in one of the ways consumers do."""
    sim = w.sim
    if not w.built:
        return op_builder_use(w)
    i = sim.D(len(w.built))
    h, fs, held = w.built.pop(i)
    if fs is not None:
        for t in held:
            sim.check(not is_dead(t), "owner-lost", "before the array was released")
    k = sim.D(5)
    if k == 0:
        h.release()
        sim.check(not h.is_valid(), "released", "is_valid() after release()")
    elif k == 1:  # without the interpreter's lock
        sim.lib.pysim_release_array(h._addr(), A.RELEASE_AT)
        sim.check(not h.is_valid(), "released", "is_valid()")
        sim.count("fault.release_without_lock")
    elif k == 2:  # on a thread that Python does not know
        sim.lib.pysim_release_on_thread(h._addr(), A.RELEASE_AT)
        sim.check(not h.is_valid(), "released", "is_valid()")
        sim.count("fault.release_on_thread")
    elif k == 3:  # moved to a consumer that releases later
        raw = C.create_string_buffer(C.sizeof(A.Array))
        C.memmove(raw, h._addr(), C.sizeof(A.Array))
        A.Array.from_address(h._addr()).release = None
        del h
        for t in held:
            sim.check(not is_dead(t), "owner-lost", "after the array was moved away")
        gc.collect(0)
        (sim.lib.pysim_release_array if sim.D(2) else sim.lib.pysim_release_on_thread)(C.addressof(raw), A.RELEASE_AT)
        h = None
    else:
        del h
        h = None
    if h is not None:
        st, v = attempt(sim, lambda: h.release())
        expect_error(sim, st, v, "released", (ValueError,), "a second release()")
        del h
    for t in held:
        sim.check(is_dead(t), "owner-kept", "after the array was released (%d)" % k)
        sim.check(DEAD.count(t) == 1, "owner-kept", "destroyed more than once")
    return "array released %d" % k, "ok"


def op_view_of_built(w):
    """The buffers of a built array are those that were handed over."""
    sim = w.sim
    return op_view_new(w)


OPS = [(4, op_type_new), (4, op_type_change), (2, op_type_compare), (2, op_schema_drop), (3, op_kernel_new), (10, op_kernel_use),
       (4, op_view_new), (3, op_view_use), (4, op_builder_new), (8, op_builder_use), (4, op_built_drop)]
WEIGHTS = [a for a, _ in OPS]


def run(sim):
    del DEAD[:]
    A.LIVE.clear()
    del A.ERRORS[:]
    w = World(sim)
    try:
        play(sim, w)
    finally:
        # without the cleanup of a failing run the next exceptions would hide the first
        w.__dict__.clear()


def play(sim, w):
    n = 2 + sim.small(24)
    focus = sim.D(5)
    for step in range(n):
        if focus == 0:
            k = sim.W(WEIGHTS)
        else:
            k = sim.W([[], [4, 4, 2, 2], [0, 0, 0, 0, 3, 10], [0, 0, 0, 0, 0, 0, 3, 3], [0, 0, 0, 0, 0, 0, 0, 0, 4, 8, 4]][focus])
        what, st = OPS[k][1](w)
        for t in w.gone:
            sim.check(is_dead(t), "owner-kept", "after a failing finish")
        del w.gone[:]
        sim.count("op." + OPS[k][1].__name__[3:])
        sim.log(step, what, st)
        sim.state(OPS[k][1].__name__, what.split(" ")[:2], st, len(w.types) > 0, len(w.kernels), len(w.views), len(w.builders), len(w.built))
        check_exports(w)
        if sim.B(6):
            gc.collect(0)
        if step > 1 and st == "ok":
            sim.nontrivial = True
    # everything goes in a drawn order
    pools = [w.types, w.schemas, w.arrays, w.views, w.exports, w.kernels, w.builders, w.built]
    while any(pools):
        p = pools[sim.D(len(pools))] if sim.D(2) else next(x for x in pools if x)
        if p:
            p.pop(sim.D(len(p)))
        check_exports(w)


def end(sim):
    """After the run: nothing of it is left."""
    sim.check(not A.ERRORS, "released-twice", "; ".join(A.ERRORS[:3]))
    sim.check(not A.LIVE, "not-released", "%d exported structures were never released" % len(A.LIVE))


def forget():
    A.LIVE.clear()
    del A.ERRORS[:]
