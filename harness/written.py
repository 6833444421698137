"""C23: what the library writes, read by strict decoders which share no code with it: every count, size and name agrees
with the contents, nothing is left over, and the values are the set's."""
import sys, os, struct, zlib, gzip, math, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pymc import *
import partio
T = {"VECTOR": partio.VECTOR, "FLOAT": partio.FLOAT, "INT": partio.INT, "STR": partio.INDEXEDSTR}
def f32(x): return struct.unpack("f", struct.pack("f", x))[0]

class Rd:
    def __init__(self, b): self.b, self.i = b, 0
    def take(self, n):
        if n < 0 or self.i + n > len(self.b): raise Fail(f"the file ends at {len(self.b)}, {n} bytes are due at {self.i}")
        r = self.b[self.i:self.i + n]; self.i += n; return r
    def u(self, f): r = struct.unpack(f, self.take(struct.calcsize(f))); return r[0] if len(r) == 1 else r
    def upto(self, c):
        j = self.b.find(c, self.i)
        if j < 0: raise Fail(f"no {c!r} after {self.i}")
        r = self.b[self.i:j]; self.i = j + 1; return r
    def end(self):
        if self.i != len(self.b): raise Fail(f"{len(self.b) - self.i} bytes are left over at {self.i}")
def need(c, m):
    if not c: raise Fail(m)

# every decoder gives (particle count, {name: (kind, width, rows, strings)}, {fixed}); kind is F (number), V, I or S
def d_bgeo(b):
    r = Rd(b); need(r.take(5) == b"BgeoV", "magic"); need(r.u(">i") == 5, "version")
    n, prims, pg, prg, pa, va, pra, na = r.u(">8i"); need((prims, pg, prg, va, pra) == (0, 0, 0, 0, 0), f"counts {prims, pg, prg, va, pra} of things which are not there")
    def decl():
        name = r.take(r.u(">H")).decode("latin-1"); size, t = r.u(">H"), r.u(">i"); st = []
        if t == 4: st = [r.take(r.u(">H")).decode("latin-1") for _ in range(r.u(">i"))]
        else: need(t in (0, 1, 5), f"type {t}"); need(r.take(4 * size) == bytes(4 * size), "defaults")
        return name, {0: "F", 1: "I", 5: "V", 4: "S"}[t], size, [], st
    def val(k, size): return list(r.u(f">{size}" + ("f" if k in "FV" else "i"))) if size > 1 else [r.u(">" + ("f" if k in "FV" else "i"))] if size else []
    a = [decl() for _ in range(pa)]; pos = []
    for _ in range(n):
        p = r.u(">4f"); pos.append(list(p[:3])); need(p[3] == 1, f"homogeneous coordinate {p[3]}")
        for x in a: x[3].append(val(x[1], x[2]))
    fx = [decl() for _ in range(na)]
    for x in fx: x[3].append(val(x[1], x[2]))
    need(r.take(2) == b"\0\xff", "the file does not end with the extra mark"); r.end()
    need(len({x[0] for x in a}) == len(a), "a name twice")
    return n, dict({x[0]: x[1:] for x in a}, position=("V", 3, pos, [])), {x[0]: x[1:] for x in fx}
GT = re.compile(r'"((?:[^"\\]|\\.)*)"|([()\[\]])|([^\s()\[\]"]+)', re.S)
def d_geo(b):
    t = [(1, re.sub(r"\\(.)", r"\1", m.group(1), flags=re.S)) if m.group(1) is not None else (0, m.group(2) or m.group(3)) for m in GT.finditer(b.decode("latin-1"))]; i = 0
    def nx(w=None):
        nonlocal i; need(i < len(t), "the file ends early"); k, v = t[i]; i += 1; need(w is None or v == w, f"{v!r} where {w!r} is due"); return v
    nx("PGEOMETRY"); nx("V5"); nx("NPoints"); n = int(nx()); nx("NPrims"); prims = int(nx()); nx("NPointGroups"); nx("0"); nx("NPrimGroups"); nx("0"); nx("NPointAttrib"); pa = int(nx()); nx("NVertexAttrib"); nx("0"); nx("NPrimAttrib"); pra = int(nx()); nx("NAttrib"); nx("0")
    def decl():
        name, size, ty = nx(), int(nx()), nx(); st = []
        if ty == "index":
            for _ in range(int(nx())): need(i < len(t) and t[i][0] == 1, "a string is not quoted") if pa and name != "generator" else None; st.append(nx())
        else: need(ty in ("int", "float", "vector"), f"type {ty}"); [nx("0") for _ in range(size)]
        return name, {"int": "I", "float": "F", "vector": "V", "index": "S"}[ty], size, [], st
    a = []
    if pa: nx("PointAttrib"); a = [decl() for _ in range(pa)]
    pos = []
    for _ in range(n):
        pos.append([float(nx()) for _ in range(3)]); nx("1")
        if pa:
            nx("(")
            for x in a: x[3].append([(float if x[1] in "FV" else int)(nx()) for _ in range(x[2])])
            nx(")")
    if pra: nx("PrimitiveAttrib"); [decl() for _ in range(pra)]
    for _ in range(prims):
        nx("Part"); m = int(nx()); need(m == n, f"the particle system has {m} of {n} points"); need([int(nx()) for _ in range(m)] == list(range(n)), "the particle system's points")
        if pra: nx("["); [nx() for _ in range(pra)]; nx("]")
    nx("beginExtra"); nx("endExtra"); need(i == len(t), "words are left over"); need(len({x[0] for x in a}) == len(a), "a name twice")
    return n, dict({x[0]: x[1:] for x in a}, position=("V", 3, pos, [])), {}
def d_pdb(bits):
    P = "I" if bits == 32 else "Q"
    def d(b):
        r = Rd(b); h = struct.unpack("@iHffII32s" + P, r.take(struct.calcsize("@iHffII32s" + P))); need(h[0] == 670 and h[1] == 1 and h[2] == 1.0, f"header {h[:3]}"); n, m = h[4], h[5]; at = {}
        for _ in range(m):
            io = struct.unpack("@bHbb", r.take(6)); need(io[1] == 1, "byte order of a channel"); L = f"@{P}iIIIbb{P}{P}{P}"; c = struct.unpack(L, r.take(struct.calcsize(L)))
            name = r.upto(b"\0").decode("latin-1"); L = f"@iIIi{P}"; d = struct.unpack(L, r.take(struct.calcsize(L)))
            need(c[1] == d[0] and c[1] in (1, 2, 3), f"types {c[1]} and {d[0]} of {name}"); need(n == 0 or (c[3], c[4]) == (0, n - 1), f"active range {c[3:5]} of {name}"); need(d[2] == n and d[3] == 1, f"{d[3]} blocks of {d[2]} for {n} particles"); need(d[1] % 4 == 0, "data size"); w = d[1] // 4
            need(name not in at, f"{name} twice"); at[name] = ({1: "V", 2: "F", 3: "I"}[c[1]], w, [list(struct.unpack(f"<{w}" + ("i" if c[1] == 3 else "f"), r.take(4 * w))) for _ in range(n)], [])
        r.end(); return n, at, {}
    return d
def d_pda(b):
    l = b.decode("latin-1").split("\n"); need(l[0] == "ATTRIBUTES" and l[2] == "TYPES" and l[-1] == "", "lines"); names, types = l[1].split(), l[3].split(); m = re.fullmatch(r"NUMBER_OF_PARTICLES:\s+(\d+)", l[4]); need(m and l[5] == "BEGIN DATA" and len(names) == len(types), "header"); n = int(m.group(1)); need(len(l) == 7 + n, f"{len(l) - 7} lines for {n} particles")
    at = {x: ({"V": "V", "R": "F", "I": "I"}[t], 3 if t == "V" else 1, [], []) for x, t in zip(names, types)}; need(len(at) == len(names), "a name twice")
    for x in l[6:6 + n]:
        w = x.split(); need(len(w) == sum(a[1] for a in at.values()), f"{len(w)} words in a line"); k = 0
        for a in at.values(): a[2].append([(int if a[0] == "I" else float)(y) for y in w[k:k + a[1]]]); k += a[1]
    return n, at, {}
def d_pdc(b):
    r = Rd(b); need(r.take(4) == b"PDC ", "magic"); v, o, _, _, n, m = r.u(">6i"); need((v, o) == (1, 1), f"version {v}, order {o}"); at = {}
    for _ in range(m):
        name = r.take(r.u(">i")).decode("latin-1"); t = r.u(">i"); need(t in (1, 3, 5), f"type {t} of {name}"); need(name not in at, f"{name} twice"); w = 3 if t == 5 else 1
        at[name] = ("I" if t == 1 else "V" if t == 5 else "F", w, [list(struct.unpack(f">{w}" + ("i" if t == 1 else "d"), r.take(w * (4 if t == 1 else 8)))) for _ in range(n)], [])
    r.end(); return n, at, {}
def d_ptc(b):
    r = Rd(b); need(r.u("<i") == 0x00100001 or True, ""); r.i = 0; magic = r.take(4); v = r.u("<i"); need(v == 0, f"version {v}"); n = r.u("<d"); need(n == int(n), "count"); n = int(n); box = r.u("<6f"); r.take(128); r.take(12); nv, ds = r.u("<2i"); at = {"position": ("V", 3, [], []), "normal": ("V", 3, [], []), "radius": ("F", 1, [], [])}; ex = []
    for _ in range(nv):
        s = r.upto(b"\n").decode("latin-1"); t, name = s.split(" ", 1); w = {"float": 1, "vector": 3, "point": 3, "normal": 3, "color": 3, "matrix": 16}[t]; need(name not in at, f"{name} twice"); at[name] = ("V" if t in ("vector", "point", "normal") else "F", w, [], []); ex.append(name)
    need(ds == sum(at[x][1] for x in ex), f"data size {ds}")
    for _ in range(n):
        at["position"][2].append(list(r.u("<3f"))); phi, z = r.u("<2H")
        if (phi, z) == (65535, 65535): nm = [0., 0., 0.]
        else: nz = 2 * z / 65535 - 1; q = math.sqrt(max(0, 1 - nz * nz)); f = 2 * math.pi * (phi / 65535 - .5); nm = [q * math.sin(f), q * math.cos(f), nz]
        at["normal"][2].append(nm); at["radius"][2].append([r.u("<f")])
        for x in ex: w = at[x][1]; at[x][2].append(list(struct.unpack(f"<{w}f", r.take(4 * w))))
    r.end(); ps = at["position"][2]
    if n and all(math.isfinite(c) for p in ps for c in p): need(list(box) == [min(p[k] for p in ps) for k in range(3)] + [max(p[k] for p in ps) for k in range(3)], f"the bounding box is {box}")
    return n, at, {}
def d_prt(b):
    r = Rd(b); need(r.take(8) == b"\xc0PRT\r\n\x1a\n", "magic"); need(r.u("<I") == 56, "header size"); need(r.take(32).rstrip(b"\0") == b"Extensible Particle Format", "signature"); need(r.u("<I") == 1, "version"); n = r.u("<q"); need(r.u("<i") == 4, "reserved"); m = r.u("<i"); need(r.u("<i") == 44, "channel size"); ch = []; at = {}
    for _ in range(m):
        name = r.take(32); need(b"\0" in name, "a name is not terminated"); name = name.split(b"\0")[0].decode("latin-1"); t, w, o = r.u("<3I"); need(t in (1, 4), f"type {t}"); name = name[:1].lower() + name[1:]; need(name not in at, f"{name} twice"); at[name] = ("I" if t == 1 else "F", w, [], []); ch.append((name, t, w, o))
    off = 0
    for name, t, w, o in ch: need(o == off, f"offset {o} of {name}, expected {off}"); off += 4 * w
    z = zlib.decompressobj(); data = z.decompress(r.b[r.i:]); need(z.eof and not z.unused_data, "the compressed stream is not whole"); need(len(data) == n * off, f"{len(data)} bytes for {n} particles of {off}")
    for i in range(n):
        for name, t, w, o in ch: at[name][2].append(list(struct.unpack_from(f"<{w}" + ("i" if t == 1 else "f"), data, i * off + o)))
    return n, at, {}
BINF = [("position", "V", 3), ("velocity", "V", 3), ("force", "V", 3), ("vorticity", "V", 3), ("normal", "V", 3), ("neighbors", "I", 1), ("uvw", "V", 3), (None, "h", 1), ("age", "F", 1), ("isolationTime", "F", 1), ("viscosity", "F", 1), ("density", "F", 1), ("pressure", "F", 1), ("mass", "F", 1), ("temperature", "F", 1), ("id", "I", 1)]
def d_bin(b):
    r = Rd(b); need(r.u("<i") == 0xFABADA, "magic"); nm = r.take(250); need(b"\0" in nm, "fluid name"); need(r.u("<h") == 11, "version"); r.u("<f"); r.u("<i"); r.u("<f"); r.u("<2i"); n = r.u("<i"); r.u("<19f"); at = {x[0]: (x[1], x[2], [], []) for x in BINF if x[0]}
    for _ in range(n):
        for x, k, w in BINF:
            if k == "h": r.u("<h"); continue
            at[x][2].append(list(struct.unpack(f"<{w}" + ("i" if k == "I" else "f"), r.take(4 * w))))
    need(r.u("<i") == 0, "more data are announced"); need(r.take(2) == b"\0\0", "more data are announced"); r.end(); return n, at, {}

FMT = [("bgeo", d_bgeo), ("bhclassic", d_bgeo), ("geo", d_geo), ("pdb", d_pdb(32)), ("pdb32", d_pdb(32)), ("pdb64", d_pdb(64)), ("pda", d_pda), ("pdc", d_pdc), ("ptc", d_ptc), ("prt", d_prt), ("bin", d_bin)]
ALPH = [("position", "VECTOR", 3), ("normal", "VECTOR", 3), ("radius", "FLOAT", 1), ("id", "INT", 1), ("k", "INT", 3), ("v", "VECTOR", 3), ("w", "FLOAT", 1), ("c", "FLOAT", 3), ("m", "FLOAT", 16), ("s", "STR", 1), ("ss", "STR", 2), ("velocity", "VECTOR", 3), ("uvw", "FLOAT", 3), ("age", "FLOAT", 1), ("a" * 31, "FLOAT", 1), ("b" * 40, "INT", 1), ("two words", "FLOAT", 1), ("noSuchÿ", "INT", 1)]
STR = [[], ["one"], ["a", "b \"quoted\" \\ end", "", "c"]]
COUNTS = [0, 1, 2, 5, 33]
FIX = [[], [("ff", "FLOAT", 2), ("fs", "STR", 2)], [("fi", "INT", 1), ("fv", "VECTOR", 3)]]
def fits(ext, name, t, c):
    word = re.fullmatch(r"\S+", name) is not None
    if ext in ("bgeo", "bhclassic"): return True
    if ext == "geo": return word
    if ext.startswith("pdb"): return True
    if ext == "pda": return word and c == (3 if t == "VECTOR" else 1)
    if ext == "pdc": return c == (3 if t == "VECTOR" else 1)
    if ext == "ptc": return t in ("FLOAT", "VECTOR") and (c in (1, 3, 16)) if name not in ("normal", "radius", "position") else True
    if ext == "prt": return t != "STR" and len(name.encode("utf-8")) < 32
    return any(x == name and w == c and (k == "I") == (t == "INT") and t != "STR" for x, k, w in BINF if x)
NUM = [0.5, -0.0, -3.25, 1 / 3., 1e-20, -7e18, 123456.0, 5.0, 1e-42, 3.4e38]
def num(t, i, j, k, text): return [1, -1, 2147483647, -2147483648, 65536, 0][(i * 5 + j + k) % 6] if t == "INT" else f32([x for x in NUM if not text or abs(x) > 1e-30 or x == 0][(i * 3 + j * 7 + k) % (9 if text else 10)])
def go(ext, dec, attrs, fixed, n, st, comp, ctx):
    f = ctx.path("w." + ext)
    if os.path.exists(f): os.unlink(f)
    p = partio.create(); p.addParticles(n); text = ext in ("geo", "pda"); vals = {}; tabs = {}
    for k, (name, t, c) in enumerate(attrs):
        h = p.addAttribute(name, T[t], c); vals[name] = []; tabs[name] = STR[st] if t == "STR" else []
        for s in tabs[name]: p.registerIndexedStr(h, s)
        for i in range(n):
            v = [(i + j) % max(1, len(STR[st])) if t == "STR" else num(t, i, j, k, text) for j in range(c)]
            if name == "normal" and t == "VECTOR" and ext == "ptc": v = [[0., 0., 1.], [0., 0., 0.], [.6, 0., -.8], [0., -1., 0.]][i % 4]
            p.set(h, i, v); vals[name].append(v)
    fv = {}
    for name, t, c in fixed:
        h = p.addFixedAttribute(name, T[t], c); fv[name] = [(j % 3) if t == "STR" else num(t, 3, j, 1, text) for j in range(c)]
        if t == "STR": [p.registerFixedIndexedStr(h, s) for s in STR[2]]
        p.setFixed(h, fv[name])
    partio.write(f, p, comp, False); ctx.transitions += 1
    names = [a[0] for a in attrs]
    if "position" not in names and ext in ("bgeo", "bhclassic", "geo", "ptc"): ctx.traces += 1; return   # reported, not written (C08, C16)
    if ext == "prt" and n == 0: ctx.traces += 1; return
    ctx.check(os.path.exists(f), "no file is written"); b = open(f, "rb").read()
    if comp and b[:2] == b"\x1f\x8b": b = gzip.decompress(b)
    try: m, at, fx = dec(b)
    except (struct.error, ValueError, KeyError, AttributeError, zlib.error) as e: raise Fail(f"the file cannot be decoded: {type(e).__name__} {e}")
    ctx.check(m == n, f"the file says {m} particles")
    key = lambda s: s.encode("utf-8").decode("latin-1")
    for name, t, c in attrs:
        if not fits(ext, name, t, c): continue
        kn = key(name); kn = kn[:1].lower() + kn[1:] if ext == "prt" else kn
        ctx.check(kn in at, f"{name} is missing: {sorted(at)}"); kind, w, rows, strs = at[kn]
        want = {"VECTOR": "V", "FLOAT": "F", "INT": "I", "STR": "S" if ext in ("bgeo", "bhclassic", "geo") else "I"}[t]
        want = {"bin": {"V": "V", "F": kind}.get(want, want), "prt": {"V": "F"}.get(want, want), "ptc": kind if name in ("position", "normal", "radius") else want}.get(ext, want)
        if name == "position": want = kind
        ctx.check(kind == want and w == c, f"{name} is {kind}{w}, expected {want}{c}")
        if kind == "S": ctx.check(strs == [key(s) for s in tabs[name]], f"strings of {name} are {strs}")
        for i in range(n):
            a, e = rows[i], vals[name][i]
            ok = len(a) == len(e) and all((abs(x - y) <= 6e-3) if ext == "ptc" and name == "normal" else (abs(x - y) <= 1e-5 * abs(y) + 0 if text and t in ("FLOAT", "VECTOR") else x == y and math.copysign(1, x) == math.copysign(1, y)) for x, y in zip(a, e))
            ctx.check(ok, lambda: f"{name} of particle {i} is {a}, expected {e}")
    own = {key(x) if ext != "prt" else key(x)[:1].lower() + key(x)[1:] for x in names} | ({"position", "normal", "radius"} if ext == "ptc" else set(x[0] for x in BINF) if ext == "bin" else set())
    ctx.check(set(at) <= own, f"{set(at) - own} is not of the set")
    if ext in ("bgeo", "bhclassic"):
        ctx.check(set(fx) == {a[0] for a in fixed}, f"fixed attributes {sorted(fx)}")
        for name, t, c in fixed:
            kind, w, rows, strs = fx[name]; ctx.check((kind, w, rows[0]) == ({"VECTOR": "V", "FLOAT": "F", "INT": "I", "STR": "S"}[t], c, fv[name]) and (t != "STR" or strs == STR[2]), f"fixed {name} is {kind, w, rows, strs}, expected {t, c, fv[name]}")
    ctx.traces += 1; ctx.state(ext, attrs, n, st, comp)
# the position first, last or absent, other attributes between
def depth(): return 3 if thorough() else 2
def lists(i):
    place, i = i % 3, i // 3; a = [ALPH[1:][x] for x in seq_decode(i, len(ALPH) - 1)]
    return ([ALPH[0]] if place == 0 else []) + a + ([ALPH[0]] if place == 1 else []), len({x[0] for x in a}) == len(a)
def shapes(i, ctx):
    f, n, comp, i2 = mixed(i, len(FMT), len(COUNTS), 2, 1 << 40); attrs, ok = lists(i2)
    if ok: go(*FMT[f], attrs, FIX[(n + f) % 3], COUNTS[n], (n + i2) % 3, bool(comp), ctx)
def shapes_d(i): f, n, comp, i2 = mixed(i, len(FMT), len(COUNTS), 2, 1 << 40); return f"{FMT[f][0]}{', compressed' if comp else ''}, {lists(i2)[0]}, {COUNTS[n]} particles, strings {STR[(n + i2) % 3]}, fixed {FIX[(n + f) % 3]}"
def strings(i, ctx): f, st, fx, w, n = mixed(i, len(FMT), 3, 3, 3, len(COUNTS)); go(*FMT[f], [ALPH[0], ("s", "STR", w + 1), ("after", "INT", 1)], FIX[fx], COUNTS[n], st, False, ctx)
def strings_d(i): f, st, fx, w, n = mixed(i, len(FMT), 3, 3, 3, len(COUNTS)); return f"{FMT[f][0]}, strings {STR[st]} width {w + 1}, fixed {FIX[fx]}, {COUNTS[n]} particles"
BOX = [(-2., -3., -4.), (1., 2., 3.), (-1., 5., 0.), (0., 0., 0.), (-0.5, 8., 1e30)]
def boxes(i, ctx):
    ps = [BOX[x] for x in seq_decode(i + 1, len(BOX))]; f = ctx.path("b.ptc"); p = partio.create(); h = p.addAttribute("position", T["VECTOR"], 3); p.addParticles(len(ps))
    for k, x in enumerate(ps): p.set(h, k, x)
    partio.write(f, p, False, False); d_ptc(open(f, "rb").read()); ctx.traces += 1; ctx.transitions += 1; ctx.state("box", i)
# sizes beyond what a byte or a 16 bit word holds
STR += [[f"s{k}" for k in range(m)] for m in (9, 10, 127, 128, 255, 256, 257, 1000, 4097, 32768, 65536)]
NA = [7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257, 1000]
LEN = [15, 16, 17, 30, 31, 32, 33, 63, 64, 65, 127, 128, 129, 249, 250, 251, 255, 256, 257, 1000, 4096, 32767]
W = [4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257, 1000, 4096, 32767, 32768, 65535]
N = [9, 10, 11, 63, 64, 65, 99, 100, 101, 127, 128, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 10000] + ([32767, 32768, 65535, 65536, 65537] if thorough() else [])
SIZES = [("attributes", x, y) for x in NA for y in range(4)] + [("name", x, y) for x in LEN for y in range(3)] + [("width", x, y) for x in W for y in range(5)] + [("strings", x, y) for x in range(3, len(STR)) for y in range(2)] + [("particles", x, y) for x in N for y in range(2)]
def sizes(i, ctx):
    f, k = mixed(i, len(FMT), len(SIZES)); what, x, y = SIZES[k]; ext = FMT[f][0]; kind = lambda j: [("FLOAT", 1), ("INT", 1), ("VECTOR", 3)][j % 3 if y == 3 else y]; fixed = []; n = 2; st = 1
    if what == "attributes": attrs = [ALPH[0]] + [(f"a{j}", *kind(j)) for j in range(x)]; fixed = attrs[1:] if ext == "bgeo" and y == 3 else []
    elif what == "name": attrs = [ALPH[0], ("n" * (x - 1) + "z", *kind(0)), ("n" * (x - 2) + "z", "INT", 1)]; fixed = attrs[1:]
    elif what == "width":
        a = ("w", ["FLOAT", "INT", "STR", "FLOAT", "STR"][y], x); attrs = [ALPH[0], ("before", "INT", 1)] + ([a] if y < 3 else []) + [("after", "FLOAT", 1)]; fixed = [a] if y >= 3 and ext == "bgeo" else []
    elif what == "strings": attrs = [ALPH[0], ("s", "STR", 1), ("after", "INT", 1)]; st = x; n = 3
    else: attrs = [ALPH[0], ("id", "INT", 1)][:1 + y]; n = x
    if what == "strings" and y: n = 300
    go(*FMT[f], attrs, fixed, n, st, False, ctx)
def sizes_d(i): f, k = mixed(i, len(FMT), len(SIZES)); return f"{FMT[f][0]}, {SIZES[k]}"
def main():
    d = depth()
    c = Check("C23", "one case is one particle set written in one format and decoded; distinct states are grid points",
              [Space("shapes", len(FMT) * len(COUNTS) * 2 * 3 * seq_count(len(ALPH) - 1, d), shapes, shapes_d), Space("strings", len(FMT) * 27 * len(COUNTS), strings, strings_d), Space("sizes", len(FMT) * len(SIZES), sizes, sizes_d), Space("bounding boxes", seq_count(len(BOX), 4) - 1, boxes, lambda i: repr([BOX[x] for x in seq_decode(i + 1, len(BOX))]))],
              ["the layouts are those of the formats as documented by their readers and the programs they come from; fields no reader uses (names of fluids, transformation matrices) are not compared", "values, names and counts are taken from the stated alphabets"])
    sys.exit(c.main(sys.argv[1:]))
main()
