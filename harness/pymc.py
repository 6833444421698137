"""Exhaustive case-space driver for checks written in Python (the counterpart of mc.h).

A check is a list of finite spaces; every case runs in a forked worker process on the real module or
program, so that a crash or a hang is itself an outcome of one case. A violation is run again alone
before it is reported."""
import os, sys, mmap, struct, time, json, signal, tempfile, shutil, traceback, hashlib

class Fail(Exception): pass

class Space:
    def __init__(self, name, n, run, describe): self.name, self.n, self.run, self.describe = name, n, run, describe

class Ctx:
    def __init__(self, d): self.dir = d; self.transitions = 0; self.traces = 0; self.states = set()
    def path(self, n): return os.path.join(self.dir, n)
    def fail(self, m): raise Fail(m)
    def check(self, c, m):
        if not c: raise Fail(m() if callable(m) else m)
    def state(self, *a): self.states.add(hash(repr(a)))

def mixed(i, *radices):
    r = []
    for k in radices: r.append(i % k); i //= k
    return r
def seq_count(a, d): return sum(a ** k for k in range(d + 1))
def seq_decode(i, a):
    p, n = 1, 0
    while i >= p: i -= p; p *= a; n += 1
    v = []
    for _ in range(n): v.append(i % a); i //= a
    return v[::-1]

def thorough(): return os.environ.get("VERIF_TIER") == "thorough"

class Check:
    def __init__(self, prop, rule, spaces, assumptions, level="model_checking", worker_init=None, case_timeout=30, workers=8, max_violations=8):
        self.__dict__.update(locals())
        self.total = sum(s.n for s in spaces)
    def find(self, i):
        for s in self.spaces:
            if i < s.n: return s, i
            i -= s.n
    def describe(self, i):
        s, k = self.find(i); return f"{s.name}#{k}: {s.describe(k)}"
    def run_case(self, i, ctx):
        s, k = self.find(i)
        try: s.run(k, ctx); return None
        except Fail as e: return str(e) or "failed"
        except BaseException as e:
            return "unexpected exception: " + "".join(traceback.format_exception_only(type(e), e)).strip() + " at " + " < ".join(f"{f.name}:{f.lineno}" for f in reversed(traceback.extract_tb(e.__traceback__)[-3:]))

    # one worker: the shared page holds current case, end of chunk, start time, done, transitions, traces
    def worker(self, w, sh, base, nxt):
        os.setpgid(0, 0)
        d = os.path.join(base, f"w{w}"); os.makedirs(d, exist_ok=True)
        self.redirect(os.path.join(base, f"w{w}.err"))
        if self.worker_init: self.worker_init(d)
        ctx = Ctx(d); out = open(os.path.join(base, f"w{w}.viol"), "a"); st = open(os.path.join(base, f"w{w}.{os.getpid()}.states"), "w")
        while True:
            cur, end = struct.unpack_from("qq", sh, w * 64)
            if cur >= end:
                cur, end = self.claim(nxt)
                if cur >= self.total: break
                struct.pack_into("qq", sh, w * 64, cur, end)
            for i in range(cur, end):
                struct.pack_into("qqd", sh, w * 64, i, end, time.monotonic())
                ctx.transitions = ctx.traces = 0
                m = self.run_case(i, ctx)
                a, b, c = struct.unpack_from("qqq", sh, w * 64 + 24)
                struct.pack_into("qqq", sh, w * 64 + 24, a + 1, b + ctx.transitions, c + ctx.traces)
                if m is not None: out.write(json.dumps([i, m]) + "\n"); out.flush()
            struct.pack_into("qqd", sh, w * 64, end, end, 0.0)
            if ctx.states: st.write("\n".join(map(str, ctx.states)) + "\n"); st.flush(); ctx.states.clear()
        sys.stderr.flush(); os._exit(0)
    def claim(self, nxt):
        import fcntl
        with open(nxt, "r+") as f:
            fcntl.flock(f, fcntl.LOCK_EX); v = int(f.read() or 0); f.seek(0); f.write(str(v + self.chunk)); f.flush()
        return v, min(self.total, v + self.chunk)
    def redirect(self, p):
        sys.stdout.flush(); sys.stderr.flush()
        fd = os.open(p, os.O_WRONLY | os.O_CREAT | os.O_TRUNC); os.dup2(fd, 2); os.close(fd)
        fd = os.open("/dev/null", os.O_RDWR); os.dup2(fd, 1); os.dup2(fd, 0); os.close(fd)
        import resource; resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    def condense(self, p):
        try: t = open(p, errors="replace").read()
        except OSError: return ""
        ls = [l.strip()[:200] for l in t.splitlines() if any(k in l for k in ("ERROR: Addr", "runtime error", "Assertion", "what()", "terminate", "Fatal")) or (l.startswith("    #") and " in " in l)]
        return " | ".join(ls[:9]) or t[-300:]
    def alone(self, i, base):
        d = os.path.join(base, "alone"); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        outp = os.path.join(base, "alone.out")
        if os.path.exists(outp): os.unlink(outp)
        sys.stdout.flush(); p = os.fork()
        if p == 0:
            os.setpgid(0, 0); self.redirect(os.path.join(base, "alone.err"))
            if self.worker_init: self.worker_init(d)
            m = self.run_case(i, Ctx(d))
            if m is not None: open(outp, "w").write(m)
            os._exit(1 if m is not None else 0)
        t0 = time.monotonic()
        while True:
            r, st = os.waitpid(p, os.WNOHANG)
            if r: break
            if time.monotonic() - t0 > self.case_timeout * 4:
                os.kill(p, 9); os.waitpid(p, 0); self.killpg(p); return f"no termination within {self.case_timeout * 4} s"
            time.sleep(.005)
        self.killpg(p)
        if st == 0: return ""
        if os.path.exists(outp): return open(outp).read()
        return f"process died (status {st:#x}): " + self.condense(os.path.join(base, "alone.err"))
    def killpg(self, p):
        try: os.killpg(p, 9)
        except OSError: pass

    def main(self, argv):
        ev = verif = None; one = None; verif = "/verif"
        it = iter(argv)
        for a in it:
            if a == "--evidence": ev = next(it)
            elif a == "--verif": verif = next(it)
            elif a == "--repo": next(it)
            elif a == "--case": one = int(next(it))
            elif a == "--list":
                for s in self.spaces: print(f"{s.name:24} {s.n}")
                print("total", self.total); return 0
        tier = os.environ.get("VERIF_TIER", "quick"); t0 = time.monotonic()
        kf = []
        try:
            for l in open(verif + "/KNOWN_FINDINGS"):
                if l.startswith("KNOWN-FINDING:") and f"property={self.prop} " in l and "sig=" in l:
                    s = l.split("sig=")[1].split(None, 1); kf.append((s[0], s[1].strip() if len(s) > 1 else ""))
        except OSError: pass
        base = tempfile.mkdtemp(prefix="mcpy", dir="/tmp")
        try:
            if one is not None:
                print(self.describe(one)); r = self.alone(one, base); print("FAIL: " + r if r else "PASS")
                if r and os.environ.get("MC_STDERR"): print(open(base + "/alone.err", errors="replace").read())
                return 1 if r else 0
            self.chunk = max(1, min(128, self.total // (self.workers * 16) + 1))
            nxt = os.path.join(base, "next"); open(nxt, "w").write("0")
            sh = mmap.mmap(-1, 64 * self.workers); viol = []; pids = {}
            def spawn(w):
                sys.stdout.flush(); p = os.fork()
                if p == 0:
                    try: self.worker(w, sh, base, nxt)
                    except BaseException: traceback.print_exc(); sys.stderr.flush(); os._exit(97)
                pids[w] = p
            for w in range(self.workers): spawn(w)
            crashes = 0
            while pids:
                time.sleep(.005)
                for w in list(pids):
                    r, st = os.waitpid(pids[w], os.WNOHANG); hung = False
                    cur, end, began = struct.unpack_from("qqd", sh, w * 64)
                    if not r and began and time.monotonic() - began > self.case_timeout:
                        os.kill(pids[w], 9); os.waitpid(pids[w], 0); r = pids[w]; hung = True
                    if not r: continue
                    self.killpg(pids[w])
                    if not hung and st == 0: del pids[w]; continue
                    viol.append((cur, f"no termination within {self.case_timeout} s" if hung else f"crash (status {st:#x}): " + self.condense(os.path.join(base, f"w{w}.err"))))
                    a, = struct.unpack_from("q", sh, w * 64 + 24); struct.pack_into("q", sh, w * 64 + 24, a + 1)
                    struct.pack_into("qqd", sh, w * 64, cur + 1, end, 0.0); crashes += 1
                    if crashes > 40: del pids[w]; continue
                    spawn(w)
            states = set(); done = trans = traces = 0
            for w in range(self.workers):
                a, b, c = struct.unpack_from("qqq", sh, w * 64 + 24); done += a; trans += b; traces += c
                p = os.path.join(base, f"w{w}.viol")
                if os.path.exists(p): viol += [tuple(json.loads(l)) for l in open(p)]
            for f in os.listdir(base):
                if f.endswith(".states"): states.update(open(os.path.join(base, f)).read().split())
            viol.sort(); reported = 0; lines = []; hit = set(); unconfirmed = 0
            match = lambda m: next((k for k, (s, _) in enumerate(kf) if f"[KF:{s}]" in m), None)
            for i, m in viol:
                k = match(m)
                if k is not None: hit.add(k); continue
                if reported >= self.max_violations: break
                r = self.alone(i, base)
                if not r: unconfirmed += 1; print(f"note: case {i} failed once ({m}) but did not fail again"); continue
                k = match(r)
                if k is not None: hit.add(k); continue
                rd = verif + "/build/replays"; os.makedirs(rd, exist_ok=True); rp = f"{rd}/{self.prop}-{i}.txt"
                open(rp, "w").write(f"property {self.prop}\ncase {i}\n{self.describe(i)}\nobserved: {r}\nreplay: VERIF_TIER={tier} {verif}/check {self.prop} {tier} --case {i}\n")
                print("  " + self.describe(i)[:600] + "\n  -> " + r[:700]); lines.append(f"VIOLATION property={self.prop} replay={rp}"); reported += 1
            for k, (s, t) in enumerate(kf):
                print(f"KNOWN-FINDING: property={self.prop} {t}" if k in hit else f"note: listed finding not observed in this run: {t}")
            wall = time.monotonic() - t0; off = 0; samples = []
            for s in self.spaces:
                for q in (s.n // 3, s.n - 1): samples.append(self.describe(off + q)[:500])
                off += s.n
            if ev:
                json.dump({"property": self.prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": self.level,
                    "coverage": {"evaluations": done, "distinct_nontrivial": len(states), "states": len(states), "transitions": trans, "traces_validated_against_impl": traces,
                        "rule": self.rule, "exhaustive": done >= self.total, "spaces": [{"space": s.name, "cases": s.n} for s in self.spaces], "unconfirmed": unconfirmed, "samples": samples},
                    "assumptions": self.assumptions, "wall_s": wall, "violations": reported}, open(ev, "w"))
            print(f"{self.prop} {tier}: {done} of {self.total} cases executed, {len(states)} distinct states, {trans} transitions, {traces} traces on the implementation, {wall:.1f} s")
            for l in lines: print(l)
            return 1 if reported else 0
        finally: shutil.rmtree(base, ignore_errors=True)
