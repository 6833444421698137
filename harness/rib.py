"""C22: RIB export against an independent reader of the parts of RIB that particles need."""
import sys, os, re, gzip, struct
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pymc import *
import partio
T = {"VECTOR": partio.VECTOR, "FLOAT": partio.FLOAT, "INT": partio.INT, "STR": partio.INDEXEDSTR}
TOK = re.compile(r'\s*("(?:[^"\\]|\\.)*"|\[|\]|[^\s\[\]"]+)')
def f32(x): return struct.unpack("f", struct.pack("f", x))[0]

def parse(text):
    """list of requests: [name, argument, ...]; an argument is a string, a number or a list"""
    toks = []; i = 0; text = text.rstrip()
    while i < len(text):
        m = TOK.match(text, i)
        if not m: raise Fail(f"not a RIB token at {text[i:i + 20]!r}")
        toks.append(m.group(1)); i = m.end()
    res = []; j = 0
    def val(t): return t if t.startswith('"') else float(t)
    while j < len(toks):
        t = toks[j]; j += 1
        if re.fullmatch(r"[A-Za-z]+", t) and t.lower() not in ("nan", "inf"): res.append([t]); continue
        if not res: raise Fail(f"{t} before any request")
        if t == "[":
            l = []
            while True:
                if j >= len(toks): raise Fail("an array is not closed")
                if toks[j] == "]": j += 1; break
                if toks[j] == "[": raise Fail("an array within an array")
                try: l.append(val(toks[j]))
                except ValueError: raise Fail(f"{toks[j]} in an array")
                j += 1
            res[-1].append(l)
        elif t == "]": raise Fail("an array is closed which is not open")
        else:
            try: res[-1].append(val(t))
            except ValueError: raise Fail(f"not a number: {t}")
    return res

ALPH = [("position", "VECTOR", 3), ("P", "VECTOR", 3), ("position2", "VECTOR", 3), ("P2", "VECTOR", 3), ("radius", "FLOAT", 1), ("width", "FLOAT", 1), ("radiusPP", "FLOAT", 1), ("id", "INT", 1), ("k", "INT", 3), ("Cs", "VECTOR", 3), ("w", "FLOAT", 2), ("s", "STR", 1), ("wide", "FLOAT", 14)]
PLACES = {"position": "P", "P": "P", "position2": "P", "P2": "P", "radius": "width"}
COUNTS = [0, 1, 2, 5, 14, 40]
def value(t, i, j, k): return [0, -1, 7, 2147483647, -2147483648, 12][(i + j + k) % 6] + (i if i < 6 else 0) * 0 if t == "INT" else f32([0.5, -1.25, 1e-3, 123456, 1e10, -2.5e-20, 1 / 3.][(i * 3 + j + k) % 7])
def legal(sq):
    n = [ALPH[x][0] for x in sq]
    return len(set(n)) == len(n) and not ({"position", "P"} <= set(n)) and not ({"position2", "P2"} <= set(n)) and not ({"radius", "width"} <= set(n))
SEQS = {}
def seqs(d):
    if d not in SEQS:
        SEQS[d] = [s for s in (seq_decode(i, len(ALPH)) for i in range(seq_count(len(ALPH), d))) if legal(s)]
    return SEQS[d]
def depth(): return 4 if thorough() else 3
def dec(i):
    z, n, s = mixed(i, 3, len(COUNTS), len(seqs(depth()))); return z, COUNTS[n], [ALPH[x] for x in seqs(depth())[s]]
def run(i, ctx): go(*dec(i), ctx)
def go(z, n, attrs, ctx):
    f = ctx.path("o.rib" + (".gz" if z == 1 else "")); names = [a[0] for a in attrs]
    if os.path.exists(f): os.unlink(f)
    p = partio.create(); p.addParticles(n); vals = {}
    ff = p.addFixedAttribute("fixed", partio.FLOAT, 2); p.setFixed(ff, (9., 8.))
    for k, (name, t, c) in enumerate(attrs):
        h = p.addAttribute(name, T[t], c); vals[name] = []
        if t == "STR": p.registerIndexedStr(h, "a string"); p.registerIndexedStr(h, 'with "quotes" [brackets]')
        for j in range(n):
            v = [value(t, j, c_, k) if t != "STR" else j % 2 for c_ in range(c)]; p.set(h, j, v); vals[name] += v
    partio.write(f, p, z == 2, False)
    first = next((x for x in ("position", "P") if x in names), None); second = next((x for x in ("position2", "P2") if x in names), None)
    ctx.transitions += 1
    if first is None:
        data = open(f, "rb").read() if os.path.exists(f) else b""
        if z and data: data = gzip.decompress(data)
        ctx.check(b"Points" not in data, "particles without a position are exported"); ctx.traces += 1; ctx.state(z, n, names); return
    ctx.check(os.path.exists(f), "no file is written"); data = open(f, "rb").read()
    if z: ctx.check(data[:2] == b"\x1f\x8b", "the file is not compressed"); data = gzip.decompress(data)
    else: ctx.check(data[:2] != b"\x1f\x8b", "the file is compressed")
    rq = parse(data.decode("latin-1")); kinds = [r[0] for r in rq]
    # blocks open and close in order
    stack = []
    for r in rq:
        for a, b in (("AttributeBegin", "AttributeEnd"), ("ResourceBegin", "ResourceEnd"), ("MotionBegin", "MotionEnd")):
            if r[0] == a: stack.append(b)
            elif r[0] == b: ctx.check(stack and stack.pop() == b, f"{b} does not close what is open")
    ctx.check(not stack, f"{stack} missing"); ctx.check(kinds[0] == "version", f"the file begins with {rq[0]}")
    pts = [r for r in rq if r[0] == "Points"]
    ctx.check(len(pts) == (2 if second else 1), f"{len(pts)} Points, expected {2 if second else 1}")
    ctx.check(("MotionBegin" in kinds) == bool(second), "motion blocks and second positions disagree")
    if second:
        m = next(r for r in rq if r[0] == "MotionBegin"); ctx.check(len(m) == 2 and len(m[1]) == 2 and m[1][0] < m[1][1], f"motion block times {m[1:]}"); a, b = kinds.index("MotionBegin"), kinds.index("MotionEnd"); ctx.check(kinds[a + 1:b].count("Points") == 2, "the Points are not within the motion block")
    for ps, q in enumerate(pts):
        ctx.check(len(q) % 2 == 1, f"Points has a name without values: {q[:12]}")
        got = {}
        for k in range(1, len(q), 2):
            ctx.check(isinstance(q[k], str) and isinstance(q[k + 1], list), f"Points has {q[k]!r} {q[k + 1]!r}"); nm = q[k].strip('"').split()[-1]
            ctx.check(nm not in got, f"{nm} twice"); got[nm] = q[k + 1]
        src = second if ps else first; drop = {first, second} - {src}
        for name, t, c in attrs:
            if name in drop or t == "STR": continue
            nm = PLACES.get(name, name); exp = vals[name]; ctx.check(nm in got, f"{name} is missing in pass {ps}"); g = got[nm]
            ctx.check(len(g) == len(exp) and all((x == y if t == "INT" else abs(x - y) <= 1e-5 * abs(y)) for x, y in zip(g, exp)), lambda: f"{name} in pass {ps} is {g[:16]} ({len(g)}), expected {exp[:16]} ({len(exp)})")
        known = {PLACES.get(nm, nm) for nm in names if nm not in drop} | {"constantwidth"}
        ctx.check(set(got) <= known, f"{set(got) - known} in pass {ps}")
        if any(x in names for x in ("radius", "width", "radiusPP")): ctx.check("constantwidth" not in got, "a constant width beside the particles' own")
        else: ctx.check(got.get("constantwidth") == [1.0], f"constant width {got.get('constantwidth')}")
    ctx.traces += 1; ctx.state(z, n, names)
def desc(i): z, n, a = dec(i); return f"{['plain', '.gz', 'compressed by request'][z]}, {n} particles, {a}"
# sizes beyond what a byte or a 16 bit word holds
P, P2, S = ("position", "VECTOR", 3), ("position2", "VECTOR", 3), ("s", "STR", 1)
NA = [5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257]; W = [4, 5, 8, 9, 16, 17, 32, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 4096, 65535]; LEN = [31, 32, 33, 63, 64, 127, 128, 255, 256, 257, 1000, 5000]; N = [15, 16, 17, 63, 64, 65, 100, 127, 128, 255, 256, 257, 999, 1000, 1001, 1024, 4096, 10000, 32768, 65537]
SIZES = [("attributes", x, y) for x in NA for y in range(5)] + [("width", x, y) for x in W for y in range(3)] + [("name", x, y) for x in LEN for y in range(2)] + [("particles", x, y) for x in N for y in range(4) if x <= 10000 or (y == 2 and x > 65535) or thorough()]
def sized(k):
    what, x, y = k; base = [P] if y % 2 else [P, P2]; n = 3
    if what == "attributes": return n, base[:1] + [(f"a{j}", *[("FLOAT", 1), ("INT", 1), ("VECTOR", 3), ("STR", 1), [("INT", 2), ("VECTOR", 3), ("STR", 1), ("FLOAT", 1)][j % 4]][y]) for j in range(x)] + base[1:]
    if what == "width": return n, base + [S, ("w", ["FLOAT", "INT", "STR"][y], x), ("after", "INT", 1)]
    if what == "name": return n, base + [("n" * x, "FLOAT", 1), ("n" * (x - 1), "INT", 1)]
    return x, base + ([("radius", "FLOAT", 1), ("id", "INT", 1)] if y > 1 else [])
def sizes(i, ctx): z, k = mixed(i, 3, len(SIZES)); go(z, *sized(SIZES[k]), ctx)
def sizes_d(i): z, k = mixed(i, 3, len(SIZES)); return f"{['plain', '.gz', 'compressed by request'][z]}, {SIZES[k]}"
def main():
    c = Check("C22", "one case is one particle set exported once: every sequence of attributes of an alphabet up to the depth, particle counts and compression; distinct states are grid points",
              [Space("exports", 3 * len(COUNTS) * len(seqs(depth())), run, desc), Space("sizes", 3 * len(SIZES), sizes, sizes_d)], ["finite values, compared to the stream's printed precision", "string attributes must not disturb the others; what is written for them is not compared"])
    sys.exit(c.main(sys.argv[1:]))
main()
