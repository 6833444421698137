"""C21: the command line tools as processes, on files of every format, against what the file holds and what the
library itself writes."""
import sys, os, subprocess, itertools, gzip, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pymc import *
import partio
TOOLS = os.environ["MC_TOOLS"]
ENV = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD", "PYTHONMALLOC", "PYTHONPATH")}
T = {"VECTOR": partio.VECTOR, "FLOAT": partio.FLOAT, "INT": partio.INT, "STR": partio.INDEXEDSTR}
SHOWN = {"VECTOR": "VECTOR", "FLOAT": "FLOAT", "INT": "INT", "STR": "INDEXEDSTR"}

def tool(ctx, name, *args, expect=None):
    p = subprocess.run([os.path.join(TOOLS, name), *args], stdin=subprocess.DEVNULL, capture_output=True, env=ENV, cwd=ctx.dir, timeout=60)
    out, err = p.stdout.decode("latin-1"), p.stderr.decode("latin-1")
    ctx.transitions += 1
    ctx.check(p.returncode >= 0 and "ERROR: AddressSanitizer" not in err and "runtime error" not in err, lambda: f"{name} {args} dies ({p.returncode}): {err[:600]}")
    if expect is not None: ctx.check((p.returncode == 0) == expect, lambda: f"{name} {args} exits with {p.returncode}: {err[:300]}")
    return p.returncode, out, err

SCHEMAS = [([("position", "VECTOR", 3)], []),
           ([("position", "VECTOR", 3), ("id", "INT", 1)], []),
           ([("position", "VECTOR", 3), ("w", "FLOAT", 1), ("k", "INT", 2)], [("ff", "FLOAT", 2)]),
           ([("position", "VECTOR", 3), ("s", "STR", 1)], [("fs", "STR", 1), ("fi", "INT", 2)]),
           ([("position", "VECTOR", 3), ("v", "VECTOR", 3), ("s", "STR", 2), ("f", "FLOAT", 3)], [("fv", "VECTOR", 3)]),
           ([("s", "STR", 1), ("position", "VECTOR", 3), ("a_rather_long_attribute_name", "INT", 3)], []),
           ([("position", "VECTOR", 3), ("many", "STR", 1)], [("fs", "STR", 2)])]
COUNTS = [0, 1, 3, 12]
def make(k, n, strs=None):
    attrs, fixed = SCHEMAS[k] if isinstance(k, int) else k; p = partio.create(); p.addParticles(n)
    for name, t, c in attrs:
        h = p.addAttribute(name, T[t], c); m = strs or (7 if name == "many" else 3)
        if t == "STR":
            for j in range(m): p.registerIndexedStr(h, f"s{j}")
        for i in range(n):
            # the last particle of a longer set has tokens which are no strings' tokens
            p.set(h, i, tuple(((i + j) % m if not (n == 12 and i >= 10) else (-1, m)[(i + j) % 2]) if t == "STR" else i * 10 + j - 5 if t == "INT" else (i + j * .25 + len(name)) * (-1) ** i for j in range(c)))
    for name, t, c in fixed:
        h = p.addFixedAttribute(name, T[t], c)
        if t == "STR":
            for j in range(strs or 3): p.registerFixedIndexedStr(h, f"f{j}")
        p.setFixed(h, tuple((j + 1) % 3 if t == "STR" else j * 5 + 2 if t == "INT" else j * .5 - 1 for j in range(c)))
    return p
TN = {v: SHOWN[k] for k, v in T.items()}
def held(p):
    """what a set holds, as the tools show it"""
    def val(a, x, strs): return [f"'{strs[v]}'" if 0 <= v < len(strs) else "<out-of-bounds>" for v in x] if a.type == partio.INDEXEDSTR else [str(v) if a.type == partio.INT else "%g" % v for v in x]
    attrs = []; fixed = []
    for i in range(p.numAttributes()):
        a = p.attributeInfo(i); st = list(p.indexedStrs(a)) if a.type == partio.INDEXEDSTR else []
        raw = [p.get(a, k) for k in range(p.numParticles())]
        attrs.append((a.name, TN[a.type], a.count, raw, [val(a, r, st) for r in raw], st))
    for i in range(p.numFixedAttributes()):
        a = p.fixedAttributeInfo(i); st = list(p.fixedIndexedStrs(a)) if a.type == partio.INDEXEDSTR else []
        fixed.append((a.name, TN[a.type], a.count, p.getFixed(a), val(a, p.getFixed(a), st), st))
    return p.numParticles(), attrs, fixed

# ---------------------------------------------------------------- partconvert
INX = ["bgeo", "geo", "pdb", "pda", "pdc", "ptc", "prt", "bin", "bgeo.gz", "pdb.gz", "ptc.gz", "bhclassic"]
OUTX = INX + ["rib", "geo.gz"]
def number(x): return "%g" % x
def convert(i, ctx):
    a, b, k, n = mixed(i, len(INX), len(OUTX), len(SCHEMAS), len(COUNTS)); n = COUNTS[n]
    f, g, e = ctx.path("in." + INX[a]), ctx.path("out." + OUTX[b]), ctx.path("expected." + OUTX[b])
    for x in (f, g, e):
        if os.path.exists(x): os.unlink(x)
    p = make(k, n); partio.write(f, p, False, False)
    q = partio.read(f, False) if os.path.exists(f) else None
    r, out, err = tool(ctx, "partconvert", f, g, expect=q is not None)
    if q is None:
        ctx.check(err.strip(), "a file which cannot be read is not reported"); ctx.check(not os.path.exists(g), "an output appears for a file which cannot be read"); ctx.traces += 1; return
    partio.write(e, q, False, False)
    ctx.check(os.path.exists(g) == os.path.exists(e), f"the output {'exists' if os.path.exists(g) else 'is missing'}, writing it directly {'gives it' if os.path.exists(e) else 'does not give it'}")
    if os.path.exists(e):
        x, y = open(g, "rb").read(), open(e, "rb").read()
        if x[:2] == b"\x1f\x8b" == y[:2]: x, y = gzip.decompress(x), gzip.decompress(y)
        ctx.check(x == y, lambda: f"the output differs from writing the set directly ({len(x)} and {len(y)} bytes)")
        if b < len(INX):
            z = partio.read(g, False); ctx.check(z is not None and z.numParticles() == q.numParticles(), "the output cannot be read or has another number of particles")
    # the summary
    cnt, attrs, fixed = held(q)
    ctx.check(re.search(rf"Particle count\s+{cnt}\s", out) and re.search(rf"Attribute count\s+{len(attrs)}\s", out), lambda: f"the counts are shown as {out[:80]!r}")
    for name, t, c, raw, vals, st in attrs:
        ctx.check(re.search(rf"attribute {re.escape(name)} type={t} count={c}\s", out), lambda: f"{name} {t} {c} is not shown: {out[:300]!r}")
        for j in range(min(cnt, 10)):
            v = ",".join(number(x) for x in raw[j]) if t in ("FLOAT", "VECTOR") else ",".join(map(str, raw[j])); v = f"({v})" if c > 1 else v
            l = next((l for l in out.splitlines() if l.startswith(f"{j}: ")), ""); ctx.check(f"{name}={v}" in l.split(), lambda: f"particle {j}: {name} is {v}, shown {l!r}")
    ctx.traces += 1; ctx.state(a, b, k, n)
def convert_d(i): a, b, k, n = mixed(i, len(INX), len(OUTX), len(SCHEMAS), len(COUNTS)); return f"{INX[a]} to {OUTX[b]}, attributes {SCHEMAS[k]}, {COUNTS[n]} particles"

def place(ctx, k=2, n=3):
    """files for the argument spaces"""
    d = ctx.path("args"); os.makedirs(d, exist_ok=True)
    for x in os.listdir(d): os.unlink(os.path.join(d, x))
    p = make(k, n); partio.write(d + "/in.bgeo", p, False, False)
    open(d + "/broken.bgeo", "wb").write(b"nope"); open(d + "/empty.bgeo", "wb"); open(d + "/in.unknown", "wb").write(b"x"); open(d + "/none", "wb").write(b"x")
    b = open(d + "/in.bgeo", "rb").read(); open(d + "/cut.bgeo", "wb").write(b[:len(b) // 2])
    return d, p
FILES = ["in.bgeo", "broken.bgeo", "empty.bgeo", "in.unknown", "none", "missing.bgeo", "cut.bgeo", "", "no/such/in.bgeo"]
OUTS = ["out.bgeo", "out.unknown", "out", "", "no/such/out.bgeo", "in.bgeo"]
CARGS = [(f, o) for f in FILES for o in OUTS] + [()] + [(f,) for f in FILES[:2]] + [("in.bgeo", "out.bgeo", x) for x in ("in.bgeo", "")]
def cargs(i, ctx):
    d, p = place(ctx); a = CARGS[i]; argv = [d + "/" + x if x else x for x in a]
    before = {x: open(os.path.join(d, x), "rb").read() for x in os.listdir(d)}
    q = partio.read(argv[0], False) if len(a) == 2 else None
    ok = q is not None; could = ok and a[1] in ("out.bgeo", "in.bgeo")
    r, out, err = tool(ctx, "partconvert", *argv, expect=None if ok and not could else ok)
    if not could: ctx.check(err.strip(), f"partconvert {a} reports nothing")
    if ok and not could: ctx.check(r != 0, f"[KF:partconvert-unwritable] partconvert {a} exits with 0 although it writes nothing")
    for x, t in before.items():
        if could and x == a[1]: continue
        ctx.check(os.path.exists(os.path.join(d, x)) and open(os.path.join(d, x), "rb").read() == t, f"{x} changes")
    ctx.check(could or set(os.listdir(d)) == set(before), f"files appear: {set(os.listdir(d)) - set(before)}"); ctx.traces += 1; ctx.state(a)

# ---------------------------------------------------------------- partinfo
IW = ["in.bgeo", "-a", "--all", "-s", "--strings", "-h", "--help", "-x", "0", "2", "11", "3000000", "missing.bgeo"]
NI = 4
def shown_particles(out):
    """{index: [(type, name, count shown values)] or None}"""
    res = []; cur = None
    for l in out.splitlines():
        m = re.fullmatch(r"Particle (-?\d+):", l.strip())
        if m: cur = [int(m.group(1)), []]; res.append(cur)
        elif cur is not None and l.strip() == "OUT OF RANGE": cur[1] = None
        elif cur is not None and cur[1] is not None and not set(l) <= {"-"}:
            p = l.split(None, 2); v = p[2].strip() if len(p) > 2 else ""
            v = v[1:-1].strip() if v.startswith("[") and v.endswith("]") else v
            cur[1].append((p[0], p[1], [x.strip() for x in v.split(",")] if v else []))
    return res
def check_info(ctx, args, q, out):
    cnt, attrs, fixed = held(q); lines = [l.split() for l in out.splitlines()]
    ctx.check(re.search(rf"Number of particles:\s+{cnt}\s", out), lambda: f"the number of particles is shown as {out[:60]!r}")
    at = lines.index(["Type", "Count", "Name"]) + 2
    for j, (name, t, c, raw, vals, st) in enumerate(attrs): ctx.check(at + j < len(lines) and lines[at + j] == [t, str(c), name], lambda: f"attribute {j} is {(t, c, name)}, shown {lines[at + j:at + j + 1]}")
    ctx.check(len(lines) <= at + len(attrs) or len(lines[at + len(attrs)]) != 3, "more attributes are shown than there are")
    idx = sorted(set(int(x) for x in args[1:] if not x.startswith("-"))); every = any(x in ("-a", "--all") for x in args)
    want = list(range(cnt)) if every else idx
    got = shown_particles(out); ctx.check([g[0] for g in got] == want, lambda: f"particles {[g[0] for g in got]} are shown, asked for {want}")
    for k, rows in got:
        if k >= cnt: ctx.check(rows is None, f"particle {k} of {cnt} is shown"); continue
        exp = [(t, name, [f"{x}={v}" for x, v in zip(raw[k], vals[k])] if t == "INDEXEDSTR" else vals[k]) for name, t, c, raw, vals, st in attrs]
        ctx.check(rows == exp, lambda: f"particle {k} is shown as {rows}, expected {exp}")
    if want or every: return
    if fixed:
        at = lines.index(["Fixed", "Attributes"]) + 3
        for j, (name, t, c, raw, vals, st) in enumerate(fixed):
            ctx.check(lines[at + j] == [t, str(c), name], lambda: f"fixed attribute {j} is {(t, c, name)}, shown {lines[at + j]}")
        at += len(fixed)
        for name, t, c, raw, vals, st in fixed:
            row = lines[at]; at += 1; ctx.check(row[:2] == [t, name], lambda: f"the values of fixed {name} are shown as {row}")
            if t == "INDEXEDSTR":   # every component, each followed by the strings
                for j in range(c):
                    ctx.check((row[2:] if j == 0 else lines[at - 1][-1:]) == [str(raw[j])], lambda: f"component {j} of fixed {name} is {raw[j]}, shown {row if j == 0 else lines[at - 1]}")
                    for x, s in enumerate(st): ctx.check(lines[at][:2] == [str(x), f"'{s}'"], lambda: f"string {x} of fixed {name} is {s!r}, shown {lines[at]}"); at += 1
            else: ctx.check(row[2:] == vals, lambda: f"fixed {name} is {vals}, shown {row[2:]}")
    else: ctx.check(["Fixed", "Attributes"] not in lines, "fixed attributes are shown, there are none")
    strs = [(name, st) for name, t, c, raw, vals, st in attrs if t == "INDEXEDSTR"]
    if not strs: ctx.check(["INDEXED", "STRINGS:"] not in lines, "strings are shown, there are none"); return
    at = lines.index(["INDEXED", "STRINGS:"]) + 1; every = any(x in ("-s", "--strings") for x in args)
    for name, st in strs:
        ctx.check(lines[at][:2] == [name, f"({len(st)})"], lambda: f"the number of strings of {name} is {len(st)}, shown {lines[at]}"); at += 1
        n = len(st) if every else min(5, len(st))
        for s in st[:n]: ctx.check(lines[at] == [s], lambda: f"a string of {name} is {s!r}, shown {lines[at]}"); at += 1
        if n < len(st): ctx.check(lines[at] == ["..."], lambda: f"strings of {name} are left out without a mark: {lines[at]}"); at += 1
        ctx.check(lines[at] == ["]"], lambda: f"more strings of {name} are shown than there are: {lines[at]}"); at += 1
def info(i, ctx):
    k, j = divmod(i, seq_count(len(IW), ctx_ni())); words = [IW[x] for x in seq_decode(j, len(IW))]
    n = (12, 3, 1)[k % 3]; d, p = place(ctx, k, n)
    r_help = [x for x in words if x in ("-h", "--help")]; pos = [x for x in words if not x.startswith("-")]
    argv = [d + "/" + x if "." in x else x for x in words]
    q = partio.read(d + "/in.bgeo", False) if pos and pos[0] == "in.bgeo" else None
    if words and r_help: r, out, err = tool(ctx, "partinfo", *argv, expect=True); ctx.check("Usage" in out + err, "no help is shown"); ctx.traces += 1; ctx.state(i); return
    numeric = all("." not in x for x in pos[1:])
    r, out, err = tool(ctx, "partinfo", *argv, expect=None if "-x" in words and q is not None else q is not None)
    if "-x" in words: ctx.check("-x" in err, "an unknown flag is not reported")
    if q is None: ctx.check(err.strip(), f"partinfo {words} reports nothing")
    elif r == 0 and numeric: check_info(ctx, ["in.bgeo", *[x for x in words if x.startswith("-")], *pos[1:]], q, out)
    ctx.traces += 1; ctx.state(i)
def ctx_ni(): return NI if thorough() else 3
def info_d(i): k, j = divmod(i, seq_count(len(IW), ctx_ni())); return f"partinfo {[IW[x] for x in seq_decode(j, len(IW))]}, attributes {SCHEMAS[k]}, {(12, 3, 1)[k % 3]} particles"
IFLAGS = [(), ("-a",), ("-s",), ("0",), ("0", "2", "11", "11", "500")]
def info_files(i, ctx):
    a, k, n, w = mixed(i, len(INX), len(SCHEMAS), len(COUNTS), len(IFLAGS)); f = ctx.path("i." + INX[a])
    if os.path.exists(f): os.unlink(f)
    partio.write(f, make(k, COUNTS[n]), False, False); q = partio.read(f, False) if os.path.exists(f) else None
    r, out, err = tool(ctx, "partinfo", f, *IFLAGS[w], expect=q is not None)
    if q is None: ctx.check(err.strip(), "nothing is reported")
    else: check_info(ctx, [f, *IFLAGS[w]], q, out)
    ctx.traces += 1; ctx.state(a, k, n, w)
def info_files_d(i): a, k, n, w = mixed(i, len(INX), len(SCHEMAS), len(COUNTS), len(IFLAGS)); return f"partinfo i.{INX[a]} {IFLAGS[w]}, attributes {SCHEMAS[k]}, {COUNTS[n]} particles"

# ---------------------------------------------------------------- partattr
AN = [None, "0", "1", "3", "12", "500", "-1"]
def names(k): return [a[0] for a in SCHEMAS[k][0]] + ["no such", "", "fs", "positio", "positionx"]
ATTR = [(x, k, n, w, c) for x in range(len(INX)) for k in range(len(SCHEMAS)) for n in range(len(COUNTS)) for w in range(len(names(k))) for c in range(len(AN))]
def attr(i, ctx):
    a, k, n, w, c = ATTR[i]; f = ctx.path("a." + INX[a]); name = names(k)[w]
    if os.path.exists(f): os.unlink(f)
    partio.write(f, make(k, COUNTS[n]), False, False); q = partio.read(f, False) if os.path.exists(f) else None
    cnt, attrs, fixed = held(q) if q is not None else (0, [], [])
    it = next((x for x in attrs if x[0] == name), None)
    r, out, err = tool(ctx, "partattr", f, name, *([AN[c]] if AN[c] else []), expect=it is not None)
    if it is None: ctx.check(err.strip() and not out.strip(), f"partattr says {out!r} and reports {err!r} for an attribute the file does not have")
    else:
        t, width, vals = it[1], it[2], it[4]; m = max(0, min(cnt, int(AN[c] or 10))); exp = []
        for j in range(m):
            v = ",".join(vals[j]); exp.append(f"{name}[{j}]=" + (v if t not in ("FLOAT", "VECTOR") and width == 1 else f"({v})"))
        ctx.check(out.splitlines() == exp, lambda: f"partattr shows {out.splitlines()[:4]} of {len(out.splitlines())}, expected {exp[:4]} of {len(exp)}")
    ctx.traces += 1; ctx.state(a, k, n, w, c)
def attr_d(i): a, k, n, w, c = ATTR[i]; return f"partattr a.{INX[a]} {names(k)[w]!r} {AN[c] or ''}, attributes {SCHEMAS[k]}, {COUNTS[n]} particles"
AARGS = [()] + [(f,) for f in FILES] + [(f, "position") for f in FILES] + [(f, "position", "2") for f in FILES] + [("in.bgeo", "position", "1", "1")]
def aargs(i, ctx):
    d, p = place(ctx); a = AARGS[i]; q = partio.read(d + "/" + a[0], False) if len(a) in (2, 3) and a[0] else None
    r, out, err = tool(ctx, "partattr", *[d + "/" + x if x and j == 0 else x for j, x in enumerate(a)], expect=q is not None)
    if q is None: ctx.check(err.strip(), f"partattr {a} reports nothing")
    ctx.traces += 1; ctx.state(a)

# ---------------------------------------------------------------- sizes beyond what a byte or a 16 bit word holds
NA = [8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257]; W = [4, 5, 9, 16, 17, 33, 64, 65, 100, 128, 255, 256, 257, 1000, 4096]; NS = [4, 5, 6, 9, 10, 11, 99, 100, 101, 255, 256, 257, 1000, 70000]; NP = [9, 10, 11, 99, 100, 101, 255, 256, 257, 1000, 1001, 10001]; LN = [15, 16, 17, 20, 21, 31, 32, 33, 63, 64, 65, 79, 80, 100, 255, 256, 257, 1000]
SIZES = [("attributes", x, y) for x in NA for y in range(6)] + [("width", x, y) for x in W for y in range(5)] + [("strings", x, y) for x in NS for y in range(2)] + [("particles", x, y) for x in NP for y in range(2)] + [("name", x, y) for x in LN for y in range(3)]
def sizes(i, ctx):
    k, how = divmod(i, 5); what, x, y = SIZES[k]; kind = lambda j: [("FLOAT", 1), ("INT", 1), ("VECTOR", 3), ("STR", 1)][j % 4 if y >= 4 else y]; pos = ("position", "VECTOR", 3); fixed = []; n = 2; st = None
    if what == "attributes": l = [(f"a{j}", *kind(j)) for j in range(x)]; attrs, fixed = ([pos], l) if y == 5 else ([pos] + l, [])
    elif what == "width": l = [("w", ["FLOAT", "INT", "STR", "FLOAT", "STR"][y], x)]; attrs, fixed = ([pos], l) if y > 2 else ([pos] + l + [("after", "INT", 1)], [])
    elif what == "strings": attrs, fixed = ([pos], [("s", "STR", 3)]) if y else ([pos, ("s", "STR", 1), ("t", "STR", 2)], []); st = x
    elif what == "name": l = [("n" * x, *kind(y)), ("n" * (x - 1), "INT", 1)]; attrs, fixed = ([pos], l) if y == 2 else ([pos] + l, [])
    else: attrs, n = [pos, ("s", "STR", 1)][:1 + y], x
    f = ctx.path("s.bgeo"); p = make((attrs, fixed), n, st); partio.write(f, p, False, False); q = partio.read(f, False); last = attrs[-1][0]; cnt, at, fx = held(q)
    if how < 3:
        a = [(), ("-a", "-s"), ("0", str(n - 1), str(n), str(n // 2))][how]
        if what == "particles" and how == 1 and y: a = ("-s",)
        r, out, err = tool(ctx, "partinfo", f, *a, expect=True); check_info(ctx, [f, *a], q, out)
    elif how == 3:
        it = next(z for z in at if z[0] == last); r, out, err = tool(ctx, "partattr", f, last, str(n + 5), expect=True); exp = []
        for j in range(n): v = ",".join(it[4][j]); exp.append(f"{last}[{j}]=" + (v if it[1] not in ("FLOAT", "VECTOR") and it[2] == 1 else f"({v})"))
        ctx.check(out.splitlines() == exp, lambda: f"partattr shows {out.splitlines()[:2]} of {len(out.splitlines())}, expected {exp[:2]} of {len(exp)}")
    else:
        for e in ("bgeo", "geo", "pdb"):
            g, w = ctx.path("g." + e), ctx.path("w." + e)
            for z in (g, w):
                if os.path.exists(z): os.unlink(z)
            tool(ctx, "partconvert", f, g, expect=True); partio.write(w, q, False, False); ctx.check(open(g, "rb").read() == open(w, "rb").read(), f"the {e} differs from writing the set directly")
    ctx.traces += 1; ctx.state("size", k, how)
def sizes_d(i): k, h = divmod(i, 5); return f"{['partinfo', 'partinfo -a -s', 'partinfo of particles', 'partattr', 'partconvert'][h]} of {SIZES[k]}"

def main():
    sp = [Space("partconvert", len(INX) * len(OUTX) * len(SCHEMAS) * len(COUNTS), convert, convert_d), Space("partconvert arguments", len(CARGS), cargs, lambda i: repr(CARGS[i])),
          Space("partinfo files", len(INX) * len(SCHEMAS) * len(COUNTS) * len(IFLAGS), info_files, info_files_d),
          Space("partinfo arguments", (len(SCHEMAS) if thorough() else 4) * seq_count(len(IW), ctx_ni()), info, info_d),
          Space("partattr", len(ATTR), attr, attr_d), Space("sizes", len(SIZES) * 5, sizes, sizes_d), Space("partattr arguments", len(AARGS), aargs, lambda i: repr(AARGS[i]))]
    c = Check("C21", "one case is one run of a tool on one file with one sequence of arguments; distinct states are grid points",
              sp, ["what a file holds is what the library reads from it (C08 and C11 decide that)", "values are shown to the stream's default precision", "the viewer and the editors need a display and are not run"], case_timeout=60)
    sys.exit(c.main(sys.argv[1:]))
main()
