"""Arrow C data written and read by the simulator itself (through ctypes), with counted releases,
and an independent model of features, WKB and WKT."""
import ctypes as C
import math
import struct


class Schema(C.Structure):
    pass


Schema._fields_ = [("format", C.c_char_p), ("name", C.c_char_p), ("metadata", C.c_void_p),
                   ("flags", C.c_int64), ("n_children", C.c_int64),
                   ("children", C.POINTER(C.POINTER(Schema))), ("dictionary", C.c_void_p),
                   ("release", C.c_void_p), ("private_data", C.c_void_p)]


class Array(C.Structure):
    pass


Array._fields_ = [("length", C.c_int64), ("null_count", C.c_int64), ("offset", C.c_int64),
                  ("n_buffers", C.c_int64), ("n_children", C.c_int64),
                  ("buffers", C.POINTER(C.c_void_p)), ("children", C.POINTER(C.POINTER(Array))),
                  ("dictionary", C.c_void_p), ("release", C.c_void_p), ("private_data", C.c_void_p)]
RELEASE_AT = Array.release.offset

# ---- exported arrays: live until released, released once -------------------------------------
LIVE = {}
_next = [1]
ERRORS = []


@C.CFUNCTYPE(None, C.POINTER(Array))
def _release_array(p):
    a = p.contents
    k = a.private_data or 0
    if k not in LIVE:
        ERRORS.append("array %s was released twice" % k)
        return
    for i in range(a.n_children):
        c = a.children[i].contents
        if c.release:
            C.cast(c.release, C.CFUNCTYPE(None, C.POINTER(Array)))(C.pointer(c))
    del LIVE[k]
    a.release = None


@C.CFUNCTYPE(None, C.POINTER(Schema))
def _release_schema(p):
    s = p.contents
    k = s.private_data or 0
    if k not in LIVE:
        ERRORS.append("schema %s was released twice" % k)
        return
    for i in range(s.n_children):
        c = s.children[i].contents
        if c.release:
            C.cast(c.release, C.CFUNCTYPE(None, C.POINTER(Schema)))(C.pointer(c))
    del LIVE[k]
    s.release = None


class Node:
    """An array to export."""

    def __init__(self, length, buffers, kids=(), offset=0, nulls=0):
        self.length, self.buffers, self.kids, self.offset, self.nulls = length, buffers, list(kids), offset, nulls


def export_array(node, addr):
    a = Array.from_address(addr)
    k = _next[0]
    _next[0] += 1
    raw = []
    n = len(node.buffers)
    arr = (C.c_void_p * max(1, n))()
    for i, b in enumerate(node.buffers):
        if b is None:
            arr[i] = None
        else:
            # exactly as large as needed, so that ASan sees what is read beyond it
            buf = (C.c_char * max(1, len(b))).from_buffer_copy(b if b else b"\0")
            raw.append(buf)
            arr[i] = C.addressof(buf)
    kids = [Array() for _ in node.kids]
    ptrs = (C.POINTER(Array) * max(1, len(kids)))(*[C.pointer(c) for c in kids])
    for c, kn in zip(kids, node.kids):
        export_array(kn, C.addressof(c))
    LIVE[k] = (arr, raw, kids, ptrs)
    a.length, a.null_count, a.offset = node.length, node.nulls, node.offset
    a.n_buffers, a.n_children = n, len(kids)
    a.buffers = C.cast(arr, C.POINTER(C.c_void_p))
    a.children = C.cast(ptrs, C.POINTER(C.POINTER(Array))) if kids else None
    a.dictionary = None
    a.private_data = k
    a.release = C.cast(_release_array, C.c_void_p).value


class Tree:
    """A schema."""

    def __init__(self, format, name="", kids=(), nullable=True, md=()):
        self.format, self.name, self.kids, self.nullable, self.md = format, name, list(kids), nullable, list(md)

    def shape(self, top=True):
        return "%s%s%s(%s)" % (self.format, "" if top else ":" + self.name, "?" if self.nullable else "",
                               "".join(k.shape(False) for k in self.kids))


def keyvalues(md):
    out = struct.pack("<i", len(md))
    for k, v in md:
        out += struct.pack("<i", len(k)) + k + struct.pack("<i", len(v)) + v
    return out


def export_schema(t, addr):
    s = Schema.from_address(addr)
    k = _next[0]
    _next[0] += 1
    fmt, name = t.format.encode(), t.name.encode()
    md = C.create_string_buffer(keyvalues(t.md)) if t.md else None
    kids = [Schema() for _ in t.kids]
    ptrs = (C.POINTER(Schema) * max(1, len(kids)))(*[C.pointer(c) for c in kids])
    for c, kt in zip(kids, t.kids):
        export_schema(kt, C.addressof(c))
    LIVE[k] = (fmt, name, md, kids, ptrs)
    s.format, s.name = fmt, name
    s.metadata = C.addressof(md) if md is not None else None
    s.flags = 2 if t.nullable else 0
    s.n_children = len(kids)
    s.children = C.cast(ptrs, C.POINTER(C.POINTER(Schema))) if kids else None
    s.dictionary = None
    s.private_data = k
    s.release = C.cast(_release_schema, C.c_void_p).value


def read_schema(addr):
    s = Schema.from_address(addr)
    md = []
    if s.metadata:
        p = s.metadata

        def i32():
            nonlocal p
            v = C.c_int32.from_address(p).value
            p += 4
            return v
        for _ in range(i32()):
            kv = []
            for _ in range(2):
                n = i32()
                kv.append(C.string_at(p, n))
                p += n
            md.append(tuple(kv))
    return Tree(s.format.decode(), (s.name or b"").decode(), [read_schema(C.addressof(s.children[i].contents)) for i in range(s.n_children)],
                bool(s.flags & 2), md)


# ---- types -----------------------------------------------------------------------------------
PT, LS, PG, MPT, MLS, MPG, GC = 1, 2, 3, 4, 5, 6, 7
NAMES = ["", "POINT", "LINESTRING", "POLYGON", "MULTIPOINT", "MULTILINESTRING", "MULTIPOLYGON", "GEOMETRYCOLLECTION"]
EXT = ["", "geoarrow.point", "geoarrow.linestring", "geoarrow.polygon", "geoarrow.multipoint", "geoarrow.multilinestring", "geoarrow.multipolygon"]
LEVELS = [0, 0, 1, 2, 1, 2, 3]
DIMS = ["", "xy", "xyz", "xym", "xyzm"]
KIDS = [[], [], ["vertices"], ["rings", "vertices"], ["points"], ["linestrings", "vertices"], ["polygons", "rings", "vertices"]]
WKB, LARGE_WKB, WKT, LARGE_WKT, WKB_VIEW, WKT_VIEW = 100001, 100002, 100003, 100004, 100005, 100006
FORMAT = {WKB: "z", LARGE_WKB: "Z", WKT: "u", LARGE_WKT: "U", WKB_VIEW: "vz", WKT_VIEW: "vu"}


def make_type(gt, dims, coord):
    return gt + (dims - 1) * 1000 + (coord - 1) * 10000


def parts(t):
    """geometry type, dimensions, coordinate type"""
    if t > 100000:
        return 0, 0, 0
    return t % 1000, t % 10000 // 1000 + 1, t // 10000 + 1


def ext_name(t):
    if t > 100000:
        return "geoarrow.wkb" if t in (WKB, LARGE_WKB, WKB_VIEW) else "geoarrow.wkt"
    g = parts(t)[0]
    return "geoarrow.box" if g == 990 else EXT[g]


def layout(t):
    """The documented storage layout."""
    if t > 100000:
        return Tree(FORMAT[t])
    g, d, c = parts(t)
    ds = DIMS[d]
    if g == 990:
        return Tree("+s", "", [Tree("g", x + m, (), False) for m in ("min", "max") for x in ds])
    if c == 1:
        k = Tree("+s", "", [Tree("g", x, (), False) for x in ds])
    else:
        k = Tree("+w:%d" % len(ds), "", [Tree("g", ds, (), False)])
    for n in reversed(KIDS[g]):
        k.nullable, k.name = False, n
        k = Tree("+l", "", [k])
    return k


# ---- features: None or (type, dims, value) ---------------------------------------------------
def coords_of(f):
    g, d, v = f
    if g == PT:
        return [v] if v else []
    if g in (LS, MPT):
        return v
    if g in (PG, MLS):
        return [c for r in v for c in r]
    if g == MPG:
        return [c for p in v for r in p for c in r]
    return [c for k in v for c in coords_of(k)]


def map_coord(c, a, b):
    """A coordinate of dimensions a in dimensions b."""
    m = dict(zip(DIMS[a], c))
    return tuple(m.get(x, math.nan) for x in DIMS[b])


def map_feature(f, b):
    g, a, v = f

    def go(x, n):
        return map_coord(x, a, b) if n == 0 else [go(y, n - 1) for y in x]
    if g == PT:
        return (g, b, map_coord(v, a, b) if v else ())
    return (g, b, go(v, LEVELS[g]))


def to_type(f, g, d):
    """The feature a native array of geometry type g holds for f."""
    f = map_feature(f, d)
    if f[0] == g:
        return f
    if f[0] == PT:
        return (g, d, [f[2]] if f[2] else [])
    return (g, d, [f[2]] if f[2] else [])


def num(x):
    s = repr(float(x))
    return s[:-2] if s.endswith(".0") else s


def wkt(f):
    g, d, v = f
    head = NAMES[g] + {1: "", 2: " Z", 3: " M", 4: " ZM"}[d] + " "

    def seq(cs):
        return "(" + ", ".join(" ".join(num(x) for x in c) for c in cs) + ")" if cs else "EMPTY"
    if not v:
        return head + "EMPTY"
    if g == PT:
        return head + seq([v])
    if g in (LS, MPT):
        return head + seq(v)
    if g in (PG, MLS):
        return head + "(" + ", ".join(seq(r) for r in v) + ")"
    if g == MPG:
        return head + "(" + ", ".join("(" + ", ".join(seq(r) for r in p) + ")" if p else "EMPTY" for p in v) + ")"
    return head + "(" + ", ".join(wkt(k) for k in v) + ")"


def wkb(f, big=False):
    g, d, v = f
    e = ">" if big else "<"
    out = struct.pack(e + "BI", 0 if big else 1, g + (d - 1) * 1000)

    def seq(cs):
        return struct.pack(e + "I", len(cs)) + b"".join(struct.pack(e + "%dd" % len(c), *c) for c in cs)
    if g == PT:
        c = v or (math.nan,) * len(DIMS[d])
        return out + struct.pack(e + "%dd" % len(c), *c)
    if g == LS:
        return out + seq(v)
    out += struct.pack(e + "I", len(v))
    if g == PG:
        return out + b"".join(seq(r) for r in v)
    if g == MPT:
        return out + b"".join(wkb((PT, d, c), big) for c in v)
    if g == MLS:
        return out + b"".join(wkb((LS, d, c), big) for c in v)
    if g == MPG:
        return out + b"".join(wkb((PG, d, c), big) for c in v)
    return out + b"".join(wkb(k, big) for k in v)


def from_wkb(b):
    def go(at):
        e = "<" if b[at] else ">"
        code = struct.unpack_from(e + "I", b, at + 1)[0]
        at += 5
        g, d = code % 1000, code // 1000 + 1
        n = len(DIMS[d])

        def seq(at):
            k = struct.unpack_from(e + "I", b, at)[0]
            at += 4
            cs = []
            for _ in range(k):
                cs.append(struct.unpack_from(e + "%dd" % n, b, at))
                at += 8 * n
            return cs, at
        if g == PT:
            c = struct.unpack_from(e + "%dd" % n, b, at)
            return (g, d, () if all(math.isnan(x) for x in c) else c), at + 8 * n
        if g == LS:
            cs, at = seq(at)
            return (g, d, cs), at
        k = struct.unpack_from(e + "I", b, at)[0]
        at += 4
        v = []
        for _ in range(k):
            if g == PG:
                x, at = seq(at)
            else:
                x, at = go(at)
                if g != GC:
                    x = x[2]
            v.append(x)
        return (g, d, v), at
    f, at = go(0)
    if at != len(b):
        raise ValueError("trailing bytes")
    return f


def key(f):
    """Comparable text (not-a-number equals itself)."""
    return "null" if f is None else repr(f).replace("[", "(").replace("]", ")").replace(",)", ")")


# ---- arrays of features ----------------------------------------------------------------------
def bitmap(bits):
    out = bytearray((len(bits) + 7) // 8)
    for i, b in enumerate(bits):
        if b:
            out[i // 8] |= 1 << (i % 8)
    return bytes(out)


def coord_node(cs, d, coord, offset=0):
    n = len(DIMS[d])
    if coord == 1:
        kids = [Node(len(cs), [None, struct.pack("<%dd" % len(cs), *[c[i] for c in cs])]) for i in range(n)]
        return Node(len(cs), [None], kids)
    return Node(len(cs), [None], [Node(len(cs) * n, [None, struct.pack("<%dd" % (n * len(cs)), *[x for c in cs for x in c])])])


def native_node(fs, t, before=0, after=0, unknown_nulls=False, force_bitmap=False):
    """An array of type t whose rows [before, -after) are the features asked for; fs has all."""
    g, d, c = parts(t)
    n = len(DIMS[d])
    empty = (math.nan,) * n
    rows = [f[2] if f is not None else () for f in fs]
    bits = [f is not None for f in fs]
    valid = bitmap(bits) if force_bitmap or not all(bits) else None
    length = len(fs) - before - after
    nulls = -1 if unknown_nulls and valid is not None else sum(1 for b in bits[before:before + length] if not b)
    if g == PT:
        node = coord_node([r or empty for r in rows], d, c)
    else:
        cur = rows
        offs = []
        for _ in range(LEVELS[g]):
            o = [0]
            nxt = []
            for r in cur:
                nxt += list(r)
                o.append(len(nxt))
            offs.append(struct.pack("<%di" % len(o), *o))
            cur = nxt
        node = coord_node(cur, d, c)
        for k, o in enumerate(reversed(offs)):
            m = len(o) // 4 - 1
            node = Node(m, [None, o], [node])
    node.buffers[0] = valid
    node.length, node.offset, node.nulls = length, before, nulls
    return node


def binary_node(values, kind, before=0, after=0, unknown_nulls=False):
    bits = [v is not None for v in values]
    valid = bitmap(bits) if not all(bits) else None
    length = len(values) - before - after
    nulls = -1 if unknown_nulls and valid is not None else sum(1 for b in bits[before:before + length] if not b)
    vs = [v or b"" for v in values]
    if kind in ("vz", "vu"):
        data = b""
        views = b""
        for v in vs:
            if len(v) <= 12:
                views += struct.pack("<i12s", len(v), v)
            else:
                views += struct.pack("<i4sii", len(v), v[:4], 0, len(data))
                data += v
        return Node(length, [valid, views, data, struct.pack("<q", len(data))], (), before, nulls)
    o = [0]
    for v in vs:
        o.append(o[-1] + len(v))
    fmt = "<%dq" if kind in ("Z", "U") else "<%di"
    return Node(length, [valid, struct.pack(fmt % len(o), *o), b"".join(vs)], (), before, nulls)


def _bits(a):
    p = a.buffers[0]
    if not p:
        return [True] * a.length
    raw = C.string_at(p, (a.offset + a.length + 7) // 8)
    return [bool(raw[(a.offset + i) // 8] >> ((a.offset + i) % 8) & 1) for i in range(a.length)]


def read_binary(addr, kind):
    a = Array.from_address(addr)
    bits = _bits(a)
    out = []
    for i in range(a.length):
        if not bits[i]:
            out.append(None)
            continue
        k = a.offset + i
        if kind in ("vz", "vu"):
            raw = C.string_at(a.buffers[1] + 16 * k, 16)
            n = struct.unpack_from("<i", raw)[0]
            if n <= 12:
                out.append(raw[4:4 + n])
            else:
                _, _, b, o = struct.unpack("<i4sii", raw)
                out.append(C.string_at(a.buffers[2 + b] + o, n))
            continue
        w = 8 if kind in ("Z", "U") else 4
        lo, hi = struct.unpack("<2q" if w == 8 else "<2i", C.string_at(a.buffers[1] + w * k, 2 * w))
        out.append(C.string_at(a.buffers[2] + lo, hi - lo) if hi > lo else b"")
    return out


def read_coords(a, d, c):
    n = len(DIMS[d])
    m = a.offset + a.length
    if c == 1:
        cols = []
        for i in range(n):
            k = a.children[i].contents
            cols.append(struct.unpack("<%dd" % m, C.string_at(k.buffers[1] + 8 * k.offset, 8 * m)) if m else ())
        return list(zip(*cols))
    k = a.children[0].contents
    v = struct.unpack("<%dd" % (m * n), C.string_at(k.buffers[1] + 8 * k.offset, 8 * m * n)) if m else ()
    return [tuple(v[i * n:(i + 1) * n]) for i in range(m)]


def read_native(addr, t):
    g, d, c = parts(t)
    a = Array.from_address(addr)
    bits = _bits(a)

    def rows(a, lev):
        """All elements [0, offset + length) of this level."""
        if lev == 0:
            return read_coords(a, d, c)
        kid = rows(a.children[0].contents, lev - 1)
        m = a.offset + a.length
        if m == 0:
            return []
        o = struct.unpack("<%di" % (m + 1), C.string_at(a.buffers[1], 4 * (m + 1)))
        if o[0] < 0 or o[-1] > len(kid) or any(x > y for x, y in zip(o, o[1:])):
            raise ValueError("offsets %s into %d elements" % (o[:20], len(kid)))
        return [kid[x:y] for x, y in zip(o, o[1:])]
    vals = rows(a, LEVELS[g])
    out = []
    for i in range(a.length):
        v = vals[a.offset + i]
        if g == PT and all(math.isnan(x) for x in v):
            v = ()
        out.append((g, d, v) if bits[i] else None)
    return out


def read_rows(addr, t):
    if t in FORMAT:
        b = read_binary(addr, FORMAT[t])
        if t in (WKB, LARGE_WKB, WKB_VIEW):
            return [None if x is None else from_wkb(x) for x in b]
        return [None if x is None else x.decode() for x in b]
    return read_native(addr, t)
