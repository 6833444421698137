"""C20: the Python module on the real library, against a model made of plain Python values."""
import sys, os, gc, struct, math, itertools, json, io, contextlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pymc
from pymc import *
import partio
T = {"VECTOR": partio.VECTOR, "FLOAT": partio.FLOAT, "INT": partio.INT, "STR": partio.INDEXEDSTR}
NAME = {v: k for k, v in T.items()}

def f32(x):
    try: return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError: return math.inf if x > 0 else -math.inf
def same(a, b):   # None: a value nobody has written yet
    if a is None or b is None: return True
    if isinstance(a, float) or isinstance(b, float):
        return (math.isnan(a) and math.isnan(b)) or (a == b and math.copysign(1, a) == math.copysign(1, b))
    return a == b
def same_tuple(a, b): return isinstance(a, tuple) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))

class Model:
    def __init__(self): self.n = 0; self.attrs = []; self.fixed = []
    def add(self, name, t, c): self.attrs.append([name, t, c, [[None] * c for _ in range(self.n)], []])
    def addf(self, name, t, c): self.fixed.append([name, t, c, [None] * c, []])
    def grow(self, k):
        self.n += k
        for a in self.attrs: a[3] += [[None] * a[2] for _ in range(k)]
    def get(self, name): return next((a for a in self.attrs if a[0] == name), None)
    def getf(self, name): return next((a for a in self.fixed if a[0] == name), None)
    def key(self): return repr((self.n, self.attrs, self.fixed))

def compare(p, m, ctx, when=""):
    """every route of the module against the model"""
    def ck(c, s): ctx.check(c, lambda: f"{when}: {s}")
    ck(p.numParticles() == m.n, f"numParticles {p.numParticles()}, expected {m.n}")
    ck(p.numAttributes() == len(m.attrs), f"numAttributes {p.numAttributes()}, expected {len(m.attrs)}")
    ck(p.numFixedAttributes() == len(m.fixed), f"numFixedAttributes {p.numFixedAttributes()}, expected {len(m.fixed)}")
    for i, (name, t, c, rows, strs) in enumerate(m.attrs):
        for a in (p.attributeInfo(i), p.attributeInfo(name)):
            ck(a is not None and (a.name, a.type, a.count) == (name, T[t], c), f"attribute {i} is {a and (a.name, a.type, a.count)}, expected {(name, T[t], c)}")
            for k in range(m.n):
                v = p.get(a, k); ck(same_tuple(v, rows[k]), f"{name} of particle {k} is {v}, expected {rows[k]}")
                ck(all(type(x) is (float if t in "VECTOR FLOAT" else int) for x in v), f"{name} has values of type {[type(x).__name__ for x in v]}")
        if t == "STR":
            a = p.attributeInfo(name); ck(p.indexedStrs(a) == strs, f"strings of {name} are {p.indexedStrs(a)}, expected {strs}")
            for s in set(strs): ck(strs[p.lookupIndexedStr(a, s)] == s, f"lookup of {s!r} gives {p.lookupIndexedStr(a, s)}")
            ck(p.lookupIndexedStr(a, "never used") == -1, "lookup of an unknown string is not -1")
    for i, (name, t, c, row, strs) in enumerate(m.fixed):
        for a in (p.fixedAttributeInfo(i), p.fixedAttributeInfo(name)):
            ck(a is not None and (a.name, a.type, a.count) == (name, T[t], c), f"fixed attribute {i} is {a and (a.name, a.type, a.count)}, expected {(name, T[t], c)}")
            v = p.getFixed(a); ck(same_tuple(v, row), f"fixed {name} is {v}, expected {row}")
        if t == "STR":
            a = p.fixedAttributeInfo(name); ck(p.fixedIndexedStrs(a) == strs, f"strings of fixed {name} are {p.fixedIndexedStrs(a)}, expected {strs}")
            for s in set(strs): ck(strs[p.lookupFixedIndexedStr(a, s)] == s, f"fixed lookup of {s!r} gives {p.lookupFixedIndexedStr(a, s)}")
    ck(p.attributeInfo("no such") is None and p.fixedAttributeInfo("no such") is None, "an attribute that does not exist is found")

def fill(p, m, a):
    """values that differ for every particle and component"""
    h = p.attributeInfo(a[0])
    if a[1] == "STR":
        for s in ("s0", "s1", "s2"):
            p.registerIndexedStr(h, s); a[4].append(s)
    for i in range(m.n):
        v = [(i * 7 + k * 3 + len(a[0])) % 3 if a[1] == "STR" else i * 10 + k if a[1] == "INT" else i + k * .25 + len(a[0]) for k in range(a[2])]
        p.set(h, i, tuple(v)); a[3][i] = v
def fillf(p, m, a):
    h = p.fixedAttributeInfo(a[0])
    if a[1] == "STR":
        for s in ("f0", "f1", "f2"): p.registerFixedIndexedStr(h, s); a[4].append(s)
    v = [k % 3 if a[1] == "STR" else k * 5 + 2 if a[1] == "INT" else k * .5 - 1 for k in range(a[2])]
    p.setFixed(h, v); a[3] = v
def make(attrs, fixed=(), n=3):
    p = partio.create(); m = Model()
    p.addParticles(n); m.grow(n)
    for name, t, c in attrs: p.addAttribute(name, T[t], c); m.add(name, t, c); fill(p, m, m.attrs[-1])
    for name, t, c in fixed: p.addFixedAttribute(name, T[t], c); m.addf(name, t, c); fillf(p, m, m.fixed[-1])
    return p, m

def refused(ctx, what, f, *a):
    """the call must raise an ordinary exception"""
    try: r = f(*a)
    except SystemError as e: ctx.fail(f"{what}: broken call protocol: {e}")
    except Exception: return
    ctx.fail(f"{what} is accepted and gives {r!r}")

# ---------------------------------------------------------------- histories
OPS = [("add vector", lambda s: s.add("position", "VECTOR", 3)), ("add float2", lambda s: s.add("f", "FLOAT", 2)), ("add int", lambda s: s.add("i", "INT", 1)), ("add string", lambda s: s.add("s", "STR", 1)),
       ("add fixed int2", lambda s: s.addf("fi", "INT", 2)), ("add fixed string", lambda s: s.addf("fs", "STR", 1)), ("add fixed float", lambda s: s.addf("ff", "FLOAT", 1)),
       ("add a particle", lambda s: s.particle()), ("add 2 particles", lambda s: s.particles(2)),
       ("set first", lambda s: s.set(0)), ("set last", lambda s: s.set(-1)), ("set fixed", lambda s: s.setf()),
       ("register", lambda s: s.register()), ("rename string", lambda s: s.rename()), ("invalid calls", lambda s: s.invalid())]
class Sys:
    def __init__(self, ctx): self.p = partio.create(); self.m = Model(); self.ctx = ctx; self.t = 0; self.handles = {}
    def add(self, n, t, c):
        if self.m.get(n): return False
        h = self.p.addAttribute(n, T[t], c); self.m.add(n, t, c); self.handles[n] = h
        self.ctx.check((h.name, h.type, h.count) == (n, T[t], c), f"addAttribute returns {(h.name, h.type, h.count)}")
    def addf(self, n, t, c):
        if self.m.getf(n): return False
        h = self.p.addFixedAttribute(n, T[t], c); self.m.addf(n, t, c); self.handles[n] = h
        self.ctx.check((h.name, h.type, h.count) == (n, T[t], c), f"addFixedAttribute returns {(h.name, h.type, h.count)}")
    def particle(self):
        i = self.p.addParticle(); self.ctx.check(i == self.m.n, f"addParticle returns {i}, expected {self.m.n}"); self.m.grow(1)
    def particles(self, k): self.p.addParticles(k); self.m.grow(k)
    def val(self, a, k): self.t += 1; return [self.t % max(1, len(a[4])) if a[1] == "STR" else self.t * 3 + k if a[1] == "INT" else self.t + k * .5 for k in range(a[2])]
    def set(self, i):
        if not self.m.n or not self.m.attrs: return False
        for a in self.m.attrs:
            v = self.val(a, i); k = i % self.m.n; self.p.set(self.handles[a[0]], k, v if self.t % 2 else tuple(v)); a[3][k] = v
    def setf(self):
        if not self.m.fixed: return False
        for a in self.m.fixed: v = self.val(a, 0); self.p.setFixed(self.handles[a[0]], v if self.t % 2 else tuple(v)); a[3] = v
    def register(self):
        l = [("", a) for a in self.m.attrs if a[1] == "STR"] + [("f", a) for a in self.m.fixed if a[1] == "STR"]
        if not l: return False
        for w, a in l:
            for s in ("one", f"s{len(a[4])}"):
                r = (self.p.registerFixedIndexedStr if w else self.p.registerIndexedStr)(self.handles[a[0]], s)
                if s not in a[4]: a[4].append(s)
                self.ctx.check(0 <= r < len(a[4]) and a[4][r] == s, f"registering {s!r} gives token {r} in {a[4]}")
    def rename(self):
        l = [("", a) for a in self.m.attrs if a[1] == "STR" and a[4]] + [("f", a) for a in self.m.fixed if a[1] == "STR" and a[4]]
        if not l: return False
        for w, a in l:
            k = len(a[4]) - 1; s = f"renamed {len(self.p.indexedStrs(self.handles[a[0]]) if not w else a[4])}"
            if s in a[4]: continue
            (self.p.setFixedIndexedStr if w else self.p.setIndexedStr)(self.handles[a[0]], k, s); a[4][k] = s
    def invalid(self):
        p, m, c = self.p, self.m, self.ctx
        other = partio.create(); oh = other.addAttribute("only in another set", T["INT"], 1); of = other.addFixedAttribute("only in another set", T["INT"], 1)
        for bad in (-1, len(m.attrs), 1000, None, 1.5): refused(c, f"attributeInfo({bad})", p.attributeInfo, bad)
        for bad in (-1, len(m.fixed), 1000): refused(c, f"fixedAttributeInfo({bad})", p.fixedAttributeInfo, bad)
        refused(c, "get of another set's attribute", p.get, oh, 0); refused(c, "getFixed of another set's attribute", p.getFixed, of)
        refused(c, "set of another set's attribute", p.set, oh, 0, (1,)); refused(c, "setFixed of another set's attribute", p.setFixed, of, (1,))
        refused(c, "get of None", p.get, None, 0); refused(c, "get of a new handle", p.get, partio.ParticleAttribute(), 0); refused(c, "getFixed of a new handle", p.getFixed, partio.FixedAttribute())
        refused(c, "indexedStrs of another set's attribute", p.indexedStrs, oh); refused(c, "fixedIndexedStrs of another set's attribute", p.fixedIndexedStrs, of)
        for a in m.attrs:
            h = self.handles[a[0]]; good = tuple([0] * a[2])
            for bad in (m.n, m.n + 5, -1, 2 ** 31, 2 ** 40, 2 ** 63, 2 ** 64, "0", None, 0.5):
                refused(c, f"get {a[0]} of particle {bad!r}", p.get, h, bad); refused(c, f"set {a[0]} of particle {bad!r}", p.set, h, bad, good)
            if m.n:
                for bad in ((), good + (0,), good[1:] if a[2] > 1 else good * 2, None, 3, "x" * a[2], tuple([None] * a[2]), good[:-1] + ("x",), {k: k for k in range(a[2])}): refused(c, f"set {a[0]} to {bad!r}", p.set, h, m.n - 1, bad)
                if a[1] in "INT STR":
                    for bad in (2 ** 31, -2 ** 31 - 1, 2 ** 63, 2 ** 70, .5): refused(c, f"set {a[0]} to {bad}", p.set, h, 0, good[:-1] + (bad,))
                else: refused(c, f"set {a[0]} to 10**400", p.set, h, 0, good[:-1] + (10 ** 400,))
        for a in m.fixed:
            h = self.handles[a[0]]; good = tuple([0] * a[2])
            for bad in ((), good + (0,), None, 3, "x" * a[2], tuple([None] * a[2]), good[:-1] + ("x",)): refused(c, f"setFixed {a[0]} to {bad!r}", p.setFixed, h, bad)
            if a[1] in "INT STR":
                for bad in (2 ** 31, 2 ** 70): refused(c, f"setFixed {a[0]} to {bad}", p.setFixed, h, good[:-1] + (bad,))

def histories(i, ctx):
    s = Sys(ctx); v = seq_decode(i, len(OPS))
    for k, o in enumerate(v):
        if OPS[o][1](s) is False: return
        ctx.transitions += 1; ctx.state(s.m.key())
    compare(s.p, s.m, ctx, "after " + OPS[v[-1]][0] if v else "empty"); ctx.traces += 1
def histories_d(i): return "; ".join(OPS[o][0] for o in seq_decode(i, len(OPS)))

# ---------------------------------------------------------------- values
INTS = [0, 1, -1, 7, 2 ** 31 - 1, -2 ** 31, True, 2 ** 24 + 1]
FLOATS = [0.0, -0.0, 1.5, -2.25, 1e-45, 1.17549435e-38, 3.4028234e38, 1 / 3, math.inf, -math.inf, math.nan, 5, True, 2 ** 24 + 1, 1e-60, 1e39]
WID = [1, 2, 3, 4, 5, 16, 17, 40]
def values(i, ctx):
    fixed, ti, wi, vi, ki = mixed(i, 2, 4, len(WID), len(FLOATS), 3)
    t = list(T)[ti]; w = 3 if t == "VECTOR" else WID[wi]
    vals = INTS if t in "INT STR" else FLOATS
    row = [vals[(vi + k * 5) % len(vals)] for k in range(w)]; seq = [tuple, list, lambda r: type("S", (), {"__len__": lambda s: len(r), "__getitem__": lambda s, k: r[k]})()][ki](row)
    exp = [int(x) if t in "INT STR" else f32(float(x)) for x in row]
    p = partio.create(); q = [p.addFixedAttribute("a", T[t], w) if fixed else p.addAttribute("a", T[t], w)]; p.addAttribute("b", T["INT"], 1); p.addParticles(3)
    h = q[0]
    if fixed: p.setFixed(h, seq); ctx.check(same_tuple(p.getFixed(h), exp), lambda: f"fixed: set {row} gives {p.getFixed(h)}, expected {exp}")
    else:
        other = [4.0 if t in "VECTOR FLOAT" else 4] * w; p.set(h, 0, other); p.set(h, 2, other)
        p.set(h, 1, seq); ctx.check(same_tuple(p.get(h, 1), exp), lambda: f"set {row} gives {p.get(h, 1)}, expected {exp}")
        for k in (0, 2): ctx.check(same_tuple(p.get(h, k), other), lambda: f"setting particle 1 changed particle {k} to {p.get(h, k)}")
    ctx.transitions += 1; ctx.traces += 1; ctx.state(t, w, repr(row))
def values_d(i):
    fixed, ti, wi, vi, ki = mixed(i, 2, 4, len(WID), len(FLOATS), 3); return f"{'fixed ' if fixed else ''}{list(T)[ti]} width {WID[wi]}, values from {vi}, as {'tuple list sequence'.split()[ki]}"

# ---------------------------------------------------------------- searches
CENT = [(0., 0., 0.), (1.25, 2., .5), [1., 1., 1.], (9., 9., 9.), (math.inf, 0., 0.)]
BADC = [(), (1.,), (1., 2.), (1., 2., 3., 4.), tuple([1.] * 16), tuple([1.] * 17), tuple([1.] * 1000), ("a", "b", "c"), None, 5, "abc", (None,) * 3, (1., 2., "z")]
def searches(i, ctx):
    n, c, k, r, srt = mixed(i, 7, len(CENT), 4, 4, 1)
    p, m = make([("position", "VECTOR", 3)], (), 0)
    pts = [((q * 5) % 7 * .5, (q * 3) % 5 * .75, q % 2 * 1.) for q in range(n)]
    h = p.attributeInfo("position")
    for q in pts: j = p.addParticle(); p.set(h, j, q)
    p.sort(); cen = CENT[c]; want = (1, 2, 5, 50)[k]; rad = (.1, 1., 3., 1000.)[r]
    d = sorted((sum((a - b) ** 2 for a, b in zip(q, cen)), j) for j, q in enumerate(pts))
    near = [x for x in d if x[0] < rad * rad][:want]
    got = p.findNPoints(cen, want, rad)
    ctx.check(isinstance(got, list) and len(got) == len(near) and len({g[0] for g in got}) == len(got), lambda: f"findNPoints gives {got}, expected {near}")
    for j, dd in got: ctx.check(0 <= j < n and abs(dd - sum((a - b) ** 2 for a, b in zip(pts[j], cen))) < 1e-4 * (1 + dd), lambda: f"findNPoints gives index {j} with distance {dd}: {got}")
    if near: ctx.check(max(g[1] for g in got) < near[-1][0] + 1e-4, lambda: f"findNPoints misses a nearer point: {got}, expected {near}")
    lo = tuple(x - rad for x in cen); hi = tuple(x + rad for x in cen)
    box = sorted(j for j, q in enumerate(pts) if all(f32(a) <= b <= f32(e) for a, b, e in zip(lo, q, hi)))
    if all(math.isfinite(x) for x in cen): ctx.check(sorted(p.findPoints(lo, hi)) == box, lambda: f"findPoints gives {p.findPoints(lo, hi)}, expected {box}")
    for b in BADC:
        refused(ctx, f"findNPoints({b!r})", p.findNPoints, b, want, rad)
        refused(ctx, f"findPoints({b!r}, ..)", p.findPoints, b, hi); refused(ctx, f"findPoints(.., {b!r})", p.findPoints, lo, b)
    ctx.transitions += 3; ctx.traces += 1; ctx.state(n, c, k, r)
def searches_d(i): n, c, k, r, s = mixed(i, 7, len(CENT), 4, 4, 1); return f"{n} points, centre {CENT[c]}, count {(1,2,5,50)[k]}, radius {(.1,1.,3.,1000.)[r]}"

# ---------------------------------------------------------------- text
TEXTS = ["", "a", "two words", "grün", "日本", "\U0001f600", "a" * 300, 'quote"\\', "tab\tnl\n", "\x7f"]
def texts(i, ctx):
    w, x = mixed(i, 5, len(TEXTS)); s = TEXTS[x]
    p = partio.create()
    if w == 0:
        if not s: return
        h = p.addAttribute(s, T["INT"], 1); ctx.check(h.name == s and p.attributeInfo(0).name == s and p.attributeInfo(s) is not None, f"attribute {s!r} is called {p.attributeInfo(0).name!r}")
    elif w == 1:
        if not s: return
        p.addFixedAttribute(s, T["INT"], 1); ctx.check(p.fixedAttributeInfo(0).name == s and p.fixedAttributeInfo(s) is not None, f"fixed attribute {s!r} is called {p.fixedAttributeInfo(0).name!r}")
    elif w == 2:
        h = p.addAttribute("s", T["STR"], 1); k = p.registerIndexedStr(h, s); ctx.check(p.indexedStrs(h) == [s] and p.lookupIndexedStr(h, s) == 0 == k, f"{s!r} is stored as {p.indexedStrs(h)}")
        p.setIndexedStr(h, 0, "x" + s); ctx.check(p.indexedStrs(h) == ["x" + s], f"{'x' + s!r} is stored as {p.indexedStrs(h)}")
    elif w == 3:
        h = p.addFixedAttribute("s", T["STR"], 1); k = p.registerFixedIndexedStr(h, s); ctx.check(p.fixedIndexedStrs(h) == [s] and p.lookupFixedIndexedStr(h, s) == 0 == k, f"fixed {s!r} is stored as {p.fixedIndexedStrs(h)}")
    else:  # bytes that are not UTF-8 come from a file
        raw = [b"\xff\xfe", b"caf\xe9", b"ok", b"\xc3", b"\xed\xa0\x80", b"a\x80b", b"\xf0\x9f", b"\xc0\xaf", b"x", b"\x80"][x]
        name = [raw, b"s"][x % 2]
        d = b"Bgeo" + b"V" + struct.pack(">i", 5) + struct.pack(">8i", 1, 0, 0, 0, 1, 0, 0, 0)
        d += struct.pack(">H", len(name)) + name + struct.pack(">H", 1) + struct.pack(">i", 4) + struct.pack(">i", 1) + struct.pack(">H", len(raw)) + raw
        d += struct.pack(">4f", 1, 2, 3, 1) + struct.pack(">i", 0) + b"\x00\xff"
        f = ctx.path("t.bgeo"); open(f, "wb").write(d)
        p = partio.read(f, False)
        if p is None: ctx.fail("the file is not read")
        l = p.indexedStrs(p.attributeInfo(1)); ctx.check(isinstance(l[0], str) and l[0].encode("utf-8", "surrogateescape") == raw, f"the string {raw!r} is given as {l!r}")
        ctx.check(p.attributeInfo(1).name.encode("utf-8", "surrogateescape") == name, f"the name {name!r} is given as {p.attributeInfo(1).name!r}")
    ctx.transitions += 1; ctx.traces += 1; ctx.state(w, s)
def texts_d(i): w, x = mixed(i, 5, len(TEXTS)); return f"{'attribute name|fixed attribute name|string|fixed string|bytes from a file'.split('|')[w]} {TEXTS[x]!r}"

# ---------------------------------------------------------------- files and lifetimes
EXT = ["bgeo", "geo", "pdb", "ptc", "prt", "bgeo.gz", "bin", "pda"]
def files(i, ctx):
    e, how, order, n = mixed(i, len(EXT), 7, 6, 3); ext = EXT[e]
    attrs = [("position", "VECTOR", 3), ("id", "INT", 1), ("w", "FLOAT", 1)]
    if ext == "ptc": attrs = [("position", "VECTOR", 3), ("normal", "VECTOR", 3), ("radius", "FLOAT", 1)]
    if ext == "bin": attrs = attrs[:1]
    n = (1, 2, 5)[n]
    p, m = make(attrs, (), n); f = ctx.path("f." + ext)
    for a in m.attrs:   # unit normals in a point cloud are stored in 16 bits
        if a[0] == "normal":
            for k in range(n): a[3][k] = [0.0, 0.0, 1.0]; p.set(p.attributeInfo("normal"), k, (0., 0., 1.))
    if how < 6: ctx.check(partio.write(f, p) is None and os.path.exists(f), "write gives no file")
    elif os.path.exists(f): os.unlink(f)
    msg = ""
    if how == 0: q = partio.read(f)
    elif how == 1: q, msg = partio.readVerbose(f)
    elif how == 2: q, msg = partio.readCachedVerbose(f, order % 2 == 0)
    elif how == 3: q = partio.readHeaders(f)
    elif how == 4: q, msg = partio.readHeadersVerbose(f)
    elif how == 5: q = partio.clone(p, True)
    else:
        q = partio.read(f, False); ctx.check(q is None, "a missing file gives an object")
        h = partio.readHeaders(f, False); ctx.check(h is None, "a missing file gives headers")
        for g in (partio.readVerbose, partio.readHeadersVerbose): r = g(f); ctx.check(isinstance(r, tuple) and len(r) == 2 and r[0] is None and isinstance(r[1], str) and r[1], f"a missing file gives {r!r}")
        r = partio.readCachedVerbose(f, False); ctx.check(r[0] is None and isinstance(r[1], str) and r[1], f"a missing file gives {r!r}")
        bad = os.fsencode(ctx.dir) + b"/\xff\xe9.bgeo"
        for g in (partio.readVerbose, partio.readHeadersVerbose, lambda x: partio.readCachedVerbose(x, True), lambda x: (partio.read(x, False), "")):
            for name in (os.fsdecode(bad), ctx.path("é.bgeo"), "", "x" * 5000 + ".bgeo", ctx.path("n.unknown"), ctx.path("none")):
                try: r = g(name)
                except (TypeError, ValueError, UnicodeError): continue   # a name that cannot be passed on
                ctx.check(r[0] is None and isinstance(r[1], str), f"{name[-30:]!r} gives {r!r}")
        for bad in (None, 5, b"x.bgeo" if False else 3.5): refused(ctx, f"read({bad!r})", partio.read, bad)
        ctx.traces += 1; return
    ctx.check(q is not None, f"reading the file gives nothing: {msg}")
    ctx.check(isinstance(msg, str), f"the message is {msg!r}")
    names = [q.attributeInfo(k).name for k in range(q.numAttributes())]
    ctx.check(q.numParticles() == n, f"{q.numParticles()} particles")
    if how in (3, 4):
        for name, t, c, rows, strs in m.attrs: a = q.attributeInfo(name); ctx.check(a is not None and (a.type, a.count) == (T[t], c), f"headers lack {name}")
        # values cannot be had from headers
        for g in ("get", "set", "getFixed", "indexedStrs", "findNPoints", "addParticle", "sort"):
            fn = getattr(q, g, None)
            if fn is None: continue
            a = q.attributeInfo("position")
            arg = {"get": (a, 0), "set": (a, 0, (1., 2., 3.)), "getFixed": (partio.FixedAttribute(),), "indexedStrs": (a,), "findNPoints": ((0., 0., 0.), 1, 1.), "addParticle": (), "sort": ()}[g]
            refused(ctx, f"{g} of a headers object", fn, *arg)
        a = q.attributeInfo("position"); del q; gc.collect(); ctx.check(a.name == "position" and a.count == 3, "the attribute handle changes when its set goes"); ctx.traces += 1; return
    for name, t, c, rows, strs in m.attrs:
        a = q.attributeInfo(name); ctx.check(a is not None, f"{name} is missing")
        for k in range(n): ctx.check(all(abs(x - y) <= 1e-5 * (1 + abs(y)) for x, y in zip(q.get(a, k), rows[k])), lambda: f"{name} of {k} is {q.get(a, k)}, expected {rows[k]}")
    # references go away in every order
    a = q.attributeInfo("position"); v = q.get(a, 0); objs = {"p": p, "q": q, "a": a}; exp = tuple(v)
    if how == 2: objs["q2"] = partio.readCachedVerbose(f, False)[0]
    del p, q, a; keys = list(itertools.permutations("pqa"))[order]
    for k in keys:
        del objs[k]; gc.collect()
        if "q" in objs: ctx.check(objs["q"].get(objs["q"].attributeInfo("position"), 0) == exp, "values change when another object goes")
        if "a" in objs: ctx.check(objs["a"].name == "position", "the handle changes when another object goes")
    if "q2" in objs: ctx.check(objs["q2"].get(objs["q2"].attributeInfo("position"), 0) == exp, "a cached set changes when another holder goes")
    objs.clear(); gc.collect(); ctx.transitions += 2; ctx.traces += 1; ctx.state(ext, how, order, n)
def files_d(i): e, how, order, n = mixed(i, len(EXT), 7, 6, 3); return f"{EXT[e]}, {'read readVerbose readCachedVerbose readHeaders readHeadersVerbose clone missing'.split()[how]}, release order {order}, {(1,2,5)[n]} particles"

# ---------------------------------------------------------------- clones and merges
MAPS = [None, {}, {"position": "pos"}, {b"position": b"pos"}, {"position": b"pos"}, {b"position": "pos"}, {"s": "t", "id": "ident"}, {"fs": "gs", "fi": "gi"}, {"absent": "x"}, {b"id": b"j", "s": "k"}, {"id": "grün"}, {"position": "pos", 5: "x"}, {"position": "pos", "id": 7}, {"": "x", "id": "y"}]
def rename(name, m):
    if not m: return name
    for k, v in m.items():
        k = k.decode() if isinstance(k, bytes) else k; v = v.decode() if isinstance(v, bytes) else v
        if k == name and isinstance(v, str): return v
    return name
def clones(i, ctx):
    mi, how, n = mixed(i, len(MAPS), 3, 3); mp = MAPS[mi]
    p, m = make([("position", "VECTOR", 3), ("id", "INT", 1), ("s", "STR", 2)], [("fs", "STR", 1), ("fi", "INT", 2)], n)
    odd = mp is not None and any(not isinstance(x, (str, bytes)) for kv in mp.items() for x in kv)
    args = (p,) if how == 0 else (p, how == 2)
    keep = repr(mp); before = {id(x): sys.getrefcount(x) for x in mp} if mp else {}
    try: q = (partio.cloneSchema if how == 0 else partio.clone)(*args, mp)
    except (TypeError, ValueError):
        ctx.check(odd, "the renaming is refused"); return
    ctx.check(repr(mp) == keep, "the renaming dictionary changed")
    if odd: return
    if mp:
        for _ in range(50): (partio.cloneSchema if how == 0 else partio.clone)(*args, mp)
        for x in mp: ctx.check(abs(sys.getrefcount(x) - before[id(x)]) < 10, f"references to {x!r} are lost or leaked: {before[id(x)]} to {sys.getrefcount(x)}")
    compare(p, m, ctx, "the original")
    names = [q.attributeInfo(k).name for k in range(q.numAttributes())]; fn = [q.fixedAttributeInfo(k).name for k in range(q.numFixedAttributes())]
    if how == 1: return   # a clone without data has no defined attributes
    ctx.check(names == [rename(a[0], mp) for a in m.attrs], f"the attributes are {names}"); ctx.check(fn == [rename(a[0], mp) for a in m.fixed], f"the fixed attributes are {fn}")
    ctx.check(q.numParticles() == (n if how == 2 else 0), f"{q.numParticles()} particles")
    if how == 2:
        for a in m.attrs: a[0] = rename(a[0], mp)
        for a in m.fixed: a[0] = rename(a[0], mp)
        del p; gc.collect(); compare(q, m, ctx, "the clone")
    ctx.transitions += 1; ctx.traces += 1; ctx.state(mi, how, n)
def clones_d(i): mi, how, n = mixed(i, len(MAPS), 3, 3); return f"{['cloneSchema', 'clone without data', 'clone'][how]} of {n} particles with {MAPS[mi]}"

def merges(i, ctx):
    n1, n2, sh, ident = mixed(i, 3, 3, 3, 3)
    a, ma = make([("position", "VECTOR", 3), ("id", "INT", 1), ("s", "STR", 1)], (), n1); b, mb = make([("position", "VECTOR", 3), ("id", "INT", 1), ("s", "STR", 1)], (), n2)
    for k in range(n2): b.set(b.attributeInfo("id"), k, (k * 10 + sh * 10,)); mb.get("id")[3][k] = [k * 10 + sh * 10]; b.set(b.attributeInfo("position"), k, (100. + k, 0., 0.)); mb.get("position")[3][k] = [100. + k, 0., 0.]
    args = [(), ("id",), (None,) and ("nope",)][ident]
    partio.merge(a, b, *args)
    exp = {}; rows = [(tuple(ma.get("position")[3][k]), ma.get("id")[3][k][0]) for k in range(n1)]
    for k in range(n2):
        r = (tuple(mb.get("position")[3][k]), mb.get("id")[3][k][0])
        j = next((j for j, x in enumerate(rows[:n1]) if x[1] == r[1]), None) if ident == 1 else None
        if j is None: rows.append(r)
        else: rows[j] = r
    got = [(a.get(a.attributeInfo("position"), k), a.get(a.attributeInfo("id"), k)[0]) for k in range(a.numParticles())]
    ctx.check(sorted(got) == sorted(rows), f"the merged set is {got}, expected {rows}"); compare(b, mb, ctx, "the merged-in set")
    ctx.transitions += 1; ctx.traces += 1; ctx.state(n1, n2, sh, ident)
def merges_d(i): n1, n2, sh, ident = mixed(i, 3, 3, 3, 3); return f"{n1} and {n2} particles, shift {sh}, {['no identifier', 'identifier id', 'identifier not there'][ident]}"

# ---------------------------------------------------------------- every call with every combination of odd arguments
METHODS = [("addAttribute", 3), ("addFixedAttribute", 3), ("addParticle", 0), ("addParticles", 1), ("attributeInfo", 1), ("fixedAttributeInfo", 1), ("findNPoints", 3), ("findPoints", 2), ("fixedIndexedStrs", 1), ("indexedStrs", 1), ("get", 2), ("getFixed", 1),
           ("set", 3), ("setFixed", 2), ("registerIndexedStr", 2), ("registerFixedIndexedStr", 2), ("setIndexedStr", 3), ("setFixedIndexedStr", 3), ("lookupIndexedStr", 2), ("lookupFixedIndexedStr", 2), ("numParticles", 0), ("numAttributes", 0), ("numFixedAttributes", 0), ("sort", 0), ("ptr", 0)]
FUNCTIONS = [("TypeName", 1), ("clone", 3), ("cloneSchema", 2), ("merge", 4), ("computeClustering", 6), ("print", 1), ("read", 1), ("readHeaders", 1), ("readVerbose", 1), ("readHeadersVerbose", 1), ("readCachedVerbose", 2), ("write", 3), ("create", 0)]
NPOOL = 27
def pool(p, q):
    a = {n: p.attributeInfo(n) for n in ("position", "id", "s")}; f = {n: p.fixedAttributeInfo(n) for n in ("fi", "fs")}
    return [None, -1, 0, 1, 2, 3, 4, 99, 2 ** 31, 2 ** 64, 1.5, math.nan, -0.5, "", "position", "s", "a.none", b"x", (), (1., 2., 3.), (1,), {}, p, q, a["position"], a["s"], f["fs"]]
SIX = [None, -1, 0, 3, 1.5, math.nan, "s", (1., 2., 3.)]   # for calls of six arguments
def arguments(i, ctx):
    k, first = mixed(i, len(METHODS) + len(FUNCTIONS), NPOOL)
    name, n = (METHODS + FUNCTIONS)[k]; method = k < len(METHODS)
    if n == 0 and first: return
    def sets():
        p, m = make([("position", "VECTOR", 3), ("id", "INT", 1), ("s", "STR", 1)], [("fi", "INT", 1), ("fs", "STR", 2)], 3); q, mq = make([("position", "FLOAT", 3), ("s", "STR", 2)], [("fs", "STR", 1)], 2); return p, m, q, mq
    p, m, q, mq = sets()
    rest = [range(NPOOL)] * (min(n, 3) - 1) if n <= 3 else [range(len(SIX))] * (n - 1) if n > 4 else [range(0, NPOOL, 2)] * (n - 1)
    here = os.getcwd(); os.chdir(ctx.dir)
    try:
        for more in itertools.product(*rest) if n else [()]:
            pl = pool(p, q); args = [pl[first]] + ([SIX[j] for j in more] if n > 4 else [pl[j] for j in more]) if n else []
            try: f = getattr(p, name) if method else getattr(partio, name); r = f(*args)
            except SystemError as e: ctx.fail(f"{name}{tuple(args)!r}: broken call protocol: {e}")
            except Exception: r = "raised"
            ctx.transitions += 1
            what = lambda: f"after {name}{tuple(a if not hasattr(a, 'this') else type(a).__name__ for a in args)!r} "
            if r == "raised" or (not method and name not in ("merge", "computeClustering")): readable(p, ctx, what, m); readable(q, ctx, what, mq)
            else:
                readable(p, ctx, what); readable(q, ctx, what)
                if name in ("sort", "findNPoints", "findPoints") or not method: readable(r, ctx, what)
                p, m, q, mq = sets()
    finally: os.chdir(here)
    ctx.traces += 1; ctx.state(i)
def arguments_d(i): k, first = mixed(i, len(METHODS) + len(FUNCTIONS), NPOOL); return f"{(METHODS + FUNCTIONS)[k][0]} with first argument number {first} and all others"
def readable(p, ctx, what, m=None):
    """a set can be read completely; with a model: and nothing of it has changed"""
    if not isinstance(p, partio.ParticlesData): return
    n = p.numParticles(); ctx.check(n >= 0, lambda: what() + f"there are {n} particles")
    if m is not None: ctx.check(n == m.n and p.numAttributes() == len(m.attrs) and p.numFixedAttributes() == len(m.fixed), lambda: what() + "the set has changed")
    for k in range(p.numAttributes()):
        a = p.attributeInfo(k)
        if a.type not in (1, 2, 3, 4) or a.count > 1000: continue
        for j in range(min(n, 200)):
            v = p.get(a, j); ctx.check(len(v) == a.count, lambda: what() + f"{a.name} has {len(v)} values")
            if m is not None: ctx.check(same_tuple(v, m.attrs[k][3][j]), lambda: what() + f"{a.name} of particle {j} is {v}")
        if a.type == 4: s = p.indexedStrs(a); ctx.check(m is None or s == m.attrs[k][4], lambda: what() + f"the strings of {a.name} are {s}")
    for k in range(p.numFixedAttributes()):
        a = p.fixedAttributeInfo(k)
        if a.type not in (1, 2, 3, 4) or a.count > 1000: continue
        v = p.getFixed(a); ctx.check(len(v) == a.count and (m is None or same_tuple(v, m.fixed[k][3])), lambda: what() + f"fixed {a.name} is {v}")
        if a.type == 4: s = p.fixedIndexedStrs(a); ctx.check(m is None or s == m.fixed[k][4], lambda: what() + f"the strings of fixed {a.name} are {s}")

# ---------------------------------------------------------------- references to arguments
def refs(i, ctx):
    p, m = make([("position", "VECTOR", 3), ("id", "INT", 1), ("s", "STR", 2)], [("fs", "STR", 1), ("ff", "FLOAT", 2)], 4); p.sort()
    class N(float): pass
    class I(int): pass
    f3 = tuple(N(1e5 + k) for k in range(3)); i1 = (I(123456),); s2 = (I(0), I(1)); ff = (N(9.75), N(8.5)); bad = (N(1), N(2), "no"); badi = ("no",); name = "".join(["id"]); pos, idh, sh, fh = p.attributeInfo("position"), p.attributeInfo("id"), p.attributeInfo("s"), p.fixedAttributeInfo("ff")
    def t(f, *a):
        try: f(*a)
        except Exception: pass
    calls = [("set", lambda: p.set(pos, 0, f3)), ("set int", lambda: p.set(idh, 0, i1)), ("set string", lambda: p.set(sh, 0, s2)), ("setFixed", lambda: p.setFixed(fh, ff)), ("refused set", lambda: t(p.set, pos, 0, bad)), ("refused int set", lambda: t(p.set, idh, 0, badi)), ("refused setFixed", lambda: t(p.setFixed, fh, bad)),
             ("get", lambda: p.get(pos, 1)), ("getFixed", lambda: p.getFixed(fh)), ("indexedStrs", lambda: p.indexedStrs(sh)), ("findNPoints", lambda: p.findNPoints(f3, 2, 100.)), ("refused findNPoints", lambda: t(p.findNPoints, bad, 2, 100.)), ("findPoints", lambda: p.findPoints(f3, f3)), ("attributeInfo", lambda: p.attributeInfo(name)), ("refused get", lambda: t(p.get, pos, 99)), ("None", lambda: p.attributeInfo("nothing"))]
    nm, f = calls[i]; objs = [*f3, f3, *i1, i1, *s2, s2, *ff, ff, *bad[:2], bad, badi, pos, idh, sh, fh, None]
    f(); before = [sys.getrefcount(o) for o in objs]
    for _ in range(200): f()
    after = [sys.getrefcount(o) for o in objs]
    for o, x, y in zip(objs, before, after): ctx.check(abs(x - y) < 100, lambda: f"{nm} changes the references to {o!r} from {x} to {y} in 200 calls")
    r = f()
    if isinstance(r, (tuple, list)): ctx.check(sys.getrefcount(r) == 2, f"the result of {nm} has {sys.getrefcount(r) - 1} references")
    ctx.transitions += 200; ctx.traces += 1; ctx.state(nm)

# ---------------------------------------------------------------- JSON
def json_sets():
    out = []
    for attrs in ([], [("position", "VECTOR", 3)], [("b", "INT", 2), ("a", "FLOAT", 1)], [("s", "STR", 1), ("position", "VECTOR", 3)], [("s", "STR", 2), ("t", "STR", 1), ("i", "INT", 1)]):
        for fixed in ([], [("ff", "FLOAT", 2)], [("fs", "STR", 2), ("fi", "INT", 1)], [("fv", "VECTOR", 3), ("fs", "STR", 1)]):
            for n in (0, 1, 2, 11):
                for v in range(6): out.append((attrs, fixed, n, v))
    return out
JS = json_sets()
def decoded(p):
    """values of a set by attribute name, strings decoded"""
    o = {}
    for i in range(p.numAttributes()):
        a = p.attributeInfo(i); st = p.indexedStrs(a) if a.type == T["STR"] else None
        o["attr " + a.name] = (a.type, a.count, [[(st[x] if st is not None and 0 <= x < len(st) else x) for x in p.get(a, k)] for k in range(p.numParticles())])
    for i in range(p.numFixedAttributes()):
        a = p.fixedAttributeInfo(i); st = p.fixedIndexedStrs(a) if a.type == T["STR"] else None
        o["fixed " + a.name] = (a.type, a.count, [(st[x] if st is not None and 0 <= x < len(st) else x) for x in p.getFixed(a)])
    return p.numParticles(), o
def jsons(i, ctx):
    import partjson
    i, route = divmod(i, 5); attrs, fixed, n, v = JS[i]
    p, m = make(attrs, fixed, n)
    for a in m.attrs:
        h = p.attributeInfo(a[0])
        for k in range(n):
            if a[1] in "VECTOR FLOAT": p.set(h, k, [[1.5, -0.0, 1e-45, 3.4028234e38, 1 / 3, 1e10][(v + k + j) % 6] for j in range(a[2])])
            elif a[1] == "INT": p.set(h, k, [[2 ** 31 - 1, -2 ** 31, 0, 5, -1, 7][(v + k + j) % 6] for j in range(a[2])])
        if a[1] == "STR" and v == 1: p.setIndexedStr(h, 1, "grün")
        if a[1] == "STR" and v == 2: p.setIndexedStr(h, 1, p.indexedStrs(h)[0])       # two tokens, one string
        if a[1] == "STR" and v == 3: p.setIndexedStr(h, 0, "")
    for a in m.fixed:
        h = p.fixedAttributeInfo(a[0])
        if a[1] == "STR" and v == 2: p.setFixedIndexedStr(h, 1, p.fixedIndexedStrs(h)[0])
        if a[1] == "STR" and v == 3: p.setFixedIndexedStr(h, 0, "日本")
    if v == 5 and attrs and n and attrs[0][1] in "VECTOR FLOAT": p.set(p.attributeInfo(0), 0, [math.inf, math.nan, -math.inf][:attrs[0][2]])
    before = decoded(p)
    data = partjson.toJson(p)
    if route == 0: q = partjson.fromJson(data)
    elif route == 1: q = partjson.fromJson(json.loads(json.dumps(data)))
    elif route == 2: q = partjson.fromJson(json.loads(json.dumps(data, sort_keys=True, indent=2)))
    else:   # the command: set -> bgeo -> json -> bgeo (-> compressed)
        if not any(a[0] == "position" for a in attrs): return
        b, j, c = ctx.path("a.bgeo"), ctx.path("a.json"), ctx.path("c.bgeo")
        for x in (b, j, c):
            if os.path.exists(x): os.unlink(x)
        partio.write(b, p, False, False)
        for argv in ((b, j), (j, c) if route == 3 else ("-c", j, c)):
            r = command(argv); ctx.check(r == 0, f"partjson {argv} exits with {r}")
        q = partio.read(c, False); before = decoded(partio.read(b, False)); ctx.check(q is not None, "the converted file is not readable")
        raw = open(c, "rb").read(2); ctx.check((raw == b"\x1f\x8b") == (route == 4), f"compression is not as asked: {raw!r}")
    after = decoded(q)
    ctx.check(repr(after[0]) == repr(before[0]) and repr(sorted(after[1].items())) == repr(sorted(before[1].items())), lambda: f"the set comes back as {after}, was {before}")
    if route < 3: ctx.check(repr(decoded(p)) == repr(before), "the conversion changed the set")
    if route < 2 and v == 0: ctx.check(partjson.toJson(q) == data, "converting again gives other data")
    ctx.transitions += 2; ctx.traces += 1; ctx.state(i)
def command(argv):
    import partjson
    old = sys.argv; sys.argv = ["partjson", *argv]
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()): partjson.main()
        return 0
    except SystemExit as e: return e.code or 0
    finally: sys.argv = old
def jsons_d(i): i, r = divmod(i, 5); return f"{JS[i]}, {['direct', 'through text', 'through sorted text', 'partjson', 'partjson -c'][r]}"

BADJ = [("unknown attribute in a particle", {"attributes": {"a": {"type": 3, "count": 1}}, "particles": {"0": {"zz": [1], "a": [4]}}}, {"a": [(4,)]}),
        ("wrong count in a particle", {"attributes": {"a": {"type": 3, "count": 1}}, "particles": {"0": {"a": [1, 2]}, "1": {"a": [7]}}}, {"a": [None, (7,)]}),
        ("strings of an unknown attribute", {"attributes": {"a": {"type": 3, "count": 1}}, "indexedStrings": {"q": ["x"]}, "particles": {"0": {"a": [3]}}}, {"a": [(3,)]}),
        ("strings of an unknown fixed attribute", {"attributes": {"a": {"type": 3, "count": 1}}, "fixedIndexedStrings": {"q": ["x"]}, "particles": {"0": {"a": [3]}}}, {"a": [(3,)]}),
        ("wrong count of a fixed attribute", {"fixedAttributes": {"f": {"type": 3, "count": 2, "value": [1]}}, "attributes": {"a": {"type": 3, "count": 1}}, "particles": {"0": {"a": [3]}}}, {"a": [(3,)]}),
        ("particles without attributes", {"particles": {"0": {}, "1": {}}}, {}), ("nothing", {}, {}), ("an attribute without particles", {"attributes": {"a": {"type": 3, "count": 1}}}, {"a": []})]
def badjson(i, ctx):
    import partjson
    n, d, exp = BADJ[i]
    with contextlib.redirect_stderr(io.StringIO()) as e: p = partjson.fromJson(d)
    for a, rows in exp.items(): h = p.attributeInfo(a); ctx.check(h is not None and p.numParticles() == len(rows) and all(r is None or p.get(h, k) == r for k, r in enumerate(rows)), f"{a} is {h and [p.get(h, k) for k in range(p.numParticles())]}, expected {rows}")
    ctx.check(p.numParticles() == len(d.get("particles", {})), f"{p.numParticles()} particles"); ctx.check(i > 4 or e.getvalue(), "the mismatch is not reported")
    ctx.traces += 1; ctx.transitions += 1; ctx.state(n)
BADARGV = [(), ("a.json",), ("missing.bgeo", "b.json"), ("missing.json", "b.bgeo"), ("in.bgeo", "b.json", "c.json"), ("in.json", "b.unknown"), ("in.unknown", "b.json"), ("broken.bgeo", "b.json"), ("broken.json", "b.bgeo"), ("in.bgeo", "no/such/dir.json"), ("in.json", "no/such/dir.bgeo")]
def badargs(i, ctx):
    d = ctx.path("args"); os.makedirs(d, exist_ok=True)
    p, m = make([("position", "VECTOR", 3)], (), 2); partio.write(d + "/in.bgeo", p, False, False); open(d + "/in.json", "w").write("{}"); open(d + "/in.unknown", "w"); open(d + "/broken.bgeo", "w").write("nope"); open(d + "/broken.json", "w").write("{nope")
    for x in ("b.json", "b.bgeo"):
        if os.path.exists(d + "/" + x): os.unlink(d + "/" + x)
    try: r = command([x if x.startswith("-") else d + "/" + x for x in BADARGV[i]])
    except Exception: r = 1   # a traceback also ends the program with a failure
    kf = "[KF:partjson-unwritable] " if BADARGV[i] == ("in.json", "no/such/dir.bgeo") else ""
    ctx.check(r != 0, f"{kf}partjson {BADARGV[i]} exits with 0"); ctx.traces += 1; ctx.transitions += 1; ctx.state(i)

# ---------------------------------------------------------------- sizes beyond what a byte or a 16 bit word holds
NA = [7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257, 1000]; W = [4, 5, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 4096, 65535]
NT = [4, 9, 10, 11, 63, 64, 100, 127, 128, 255, 256, 257, 1000, 4096, 32768, 65537]; NP = [9, 10, 11, 99, 100, 101, 127, 128, 255, 256, 257, 999, 1000, 1001, 1025, 4096, 10001]
SIZES = [("attributes", x, y) for x in NA for y in range(6)] + [("width", x, y) for x in W for y in range(5)] + [("strings", x, y) for x in NT for y in range(2)] + [("particles", x, y) for x in NP for y in range(3)]
ROUTES = 5
def sizes(i, ctx):
    import partjson
    k, route = divmod(i, ROUTES); what, x, y = SIZES[k]; kind = lambda j: [("FLOAT", 1), ("INT", 1), ("VECTOR", 3), ("STR", 1)][j % 4 if y >= 4 else y]; pos = ("position", "VECTOR", 3); fixed = []; n = 2
    if what == "attributes": l = [(f"a{j}", *kind(j)) for j in range(x)]; attrs, fixed = ([pos], l) if y == 5 else ([pos] + l, [])
    elif what == "width": l = [("w", ["FLOAT", "INT", "STR", "FLOAT", "STR"][y], x)]; attrs, fixed = ([pos], l) if y > 2 else ([pos] + l + [("after", "INT", 1)], [])
    elif what == "strings": attrs, fixed = ([pos], [("s", "STR", 4)]) if y else ([pos, ("s", "STR", 1)], []); n = 4
    else: attrs = [pos, ("id", "INT", 1), ("s", "STR", 1)][:1 + y]; n = x
    p, m = make(attrs, fixed, n)
    if what == "strings":
        h = p.fixedAttributeInfo("s") if y else p.attributeInfo("s"); a = m.fixed[0] if y else m.attrs[1]; at = [0, x - 1, x // 2, x - 2]
        for j in range(3, x): t = (p.registerFixedIndexedStr if y else p.registerIndexedStr)(h, f"s{j}!"); a[4].append(f"s{j}!"); ctx.check(t == j, f"string {j} gets token {t}")
        if y: p.setFixed(h, at); a[3] = at
        else:
            for j in range(4): p.set(h, j, (at[j],)); a[3][j] = [at[j]]
    if route == 0: compare(p, m, ctx, "a large set")
    elif route == 1: compare(partio.clone(p, True), m, ctx, "the clone of a large set")
    elif route == 2:
        f = ctx.path("l.bgeo"); partio.write(f, p, bool(k % 2), False); q = partio.read(f, False); h = partio.readHeaders(f)
        ctx.check(q is not None and sorted(map(repr, decoded(q)[1].items())) == sorted(map(repr, decoded(p)[1].items())) and q.numParticles() == n, "a large set does not come back from a file"); ctx.check(h.numParticles() == n and h.numAttributes() == len(attrs) and h.numFixedAttributes() == len(fixed), "headers of a large set")
    else:
        data = partjson.toJson(p); q = partjson.fromJson(data if route == 3 else json.loads(json.dumps(data, sort_keys=True)))
        ctx.check(q.numParticles() == n and sorted(map(repr, decoded(q)[1].items())) == sorted(map(repr, decoded(p)[1].items())), "a large set does not come back from JSON")
    ctx.transitions += 2; ctx.traces += 1; ctx.state("size", k, route)
def sizes_d(i): k, r = divmod(i, ROUTES); return f"{SIZES[k]}, {['model', 'clone', 'file', 'json', 'sorted json text'][r]}"

def main():
    D = 5 if thorough() else 4
    sp = [Space("histories", seq_count(len(OPS), D), histories, histories_d), Space("values", 2 * 4 * len(WID) * len(FLOATS) * 3, values, values_d), Space("searches", 7 * len(CENT) * 4 * 4, searches, searches_d), Space("texts", 5 * len(TEXTS), texts, texts_d),
          Space("files", len(EXT) * 7 * 6 * 3, files, files_d), Space("clones", len(MAPS) * 9, clones, clones_d), Space("merges", 81, merges, merges_d), Space("arguments", (len(METHODS) + len(FUNCTIONS)) * NPOOL, arguments, arguments_d), Space("references", 16, refs, lambda i: f"call {i}"),
          Space("sizes", len(SIZES) * ROUTES, sizes, sizes_d), Space("json", len(JS) * 5, jsons, jsons_d), Space("imperfect json", len(BADJ), badjson, lambda i: BADJ[i][0]), Space("partjson arguments", len(BADARGV), badargs, lambda i: repr(BADARGV[i]))]
    c = Check("C20", "one case is one sequence of calls of the Python module, each compared with a model through every reading route, or one argument, file, renaming or conversion of the stated grids; distinct states are model states and grid points",
              sp, ["the module is built from src/py with the same interface file and AddressSanitizer", "CPython 3.12 only"])
    sys.exit(c.main(sys.argv[1:]))
main()
