#!/usr/bin/env python3
"""Development tool: tries mechanical one-line changes of the sources in a scratch copy and lists those no check reports.
   tools_mutate.py SEED COUNT [file substring]      needs /tmp/mut; results in /tmp/mut/results-SEED.txt"""
import sys, os, re, random, subprocess, shutil, time
seed, count = int(sys.argv[1]), int(sys.argv[2]); only = sys.argv[3] if len(sys.argv) > 3 else ""
W = f"/tmp/mut/w{seed}"; shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
subprocess.run(["git", "clone", "-q", "/repo", W + "/repo"], check=True)
subprocess.run(["git", "clone", "-q", "/verif", W + "/verif"], check=True)
IO = ["C08", "C19", "C23", "C10", "C16", "C09", "C11", "C17", "C25", "C26", "C24", "C27"]
M = [("ParticleSimpleInterleave", ["C02", "C25"]), ("ParticleSimple", ["C01", "C03", "C04", "C13", "C05", "C08", "C25"]), ("ParticleHeaders", ["C10", "C16", "C20"]), ("Particle.cpp", ["C13", "C14", "C12", "C21"]), ("KdTree", ["C05"]),
     ("ParticleCaching", ["C06", "C25"]), ("Mutex", ["C06", "C07"]), ("PartioIterator", ["C03", "C02", "C01"]), ("PartioAttribute", ["C03", "C01", "C02"]), ("PartioVec3", ["C14"]), ("PRT", ["C18", "C08", "C10", "C16", "C11", "C25", "C26", "C24"]), ("ZIP", ["C15", "C09", "C11", "C16", "C25", "C26", "C24"]),
     ("RIB", ["C22", "C16"]), ("ParticleIO", ["C16", "C08", "C07"]), ("src/lib/io/", IO), ("src/lib/Partio.h", ["C01", "C03"]), ("src/tools/partjson", ["C20"]), ("src/tools/part", ["C21"]), ("partio.i", ["C20"])]
SKIP = ("partview", "partedit", "partinspect", "Camera", "half2float", "CMake", "io.h", "readers.h")
files = [f for f in subprocess.run(["git", "-C", "/repo", "ls-files", "src/lib", "src/tools", "src/py/partio.i"], capture_output=True, text=True).stdout.split() if re.search(r"\.(cpp|h|i|py)$", f) and not any(s in f for s in SKIP) and only in f]
OPS = [(r"(?<![<\-=])<(?![<=])", "<="), (r"<=", "<"), (r"(?<![>\-])>(?![>=])", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r"(?<![+\w\"])\+(?![+=])|(?<=\w)\+(?![+=])", "-"), (r"(?<=\w)-(?![->=])", "+"), (r"\+=", "-="),
       (r"\b\d+\b", lambda m: str(int(m.group(0)) + 1)), (r"\b[1-9]\d*\b", lambda m: str(int(m.group(0)) - 1)), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bbreak;", ";"), (r"\bcontinue;", ";"), (r"(?<=[(\s])!(?!=)", ""), (r"\bif\s*\(", "if(!"), (r"^\s*[\w.\->\[\]:*()]+\s*(?:=|\(|\+=|<<|>>).*;\s*$", ";"), (r"\*(?=\s*sizeof)", "+"), (r"\bmin\b", "max"), (r"\bmax\b", "min")]
PYOPS = [o for o in OPS if o[1] not in ("if(!", ";", "&&", "||")]
def mutants():
    out = []
    for f in files:
        inc = False
        for n, l in enumerate(open("/repo/" + f, encoding="latin-1").read().split("\n")):
            s = l.strip()
            if s.startswith("/*"): inc = True
            if inc or not s or s.startswith(("//", "#", "*", "template", "using", "namespace", "%", "static const", '"')) or re.match(r"[\d, ]+(};)?$", s):
                if "*/" in s: inc = False
                continue
            code = l.split("//")[0]
            for pat, rep in (PYOPS if f.endswith(".py") else OPS):
                for m in re.finditer(pat, code):
                    if code[:m.start()].count('"') % 2: continue
                    if "template" in code or ("<" in m.group(0) and re.search(r"\w<\w+(::\w+)?[*&\s>,]", code)): continue
                    if rep == "if(!":
                        # negate a whole condition which ends on the line
                        d = 1; e = m.end()
                        while e < len(code) and d: d += (code[e] == "(") - (code[e] == ")"); e += 1
                        if d: continue
                        new = code[:m.start()] + "if(!(" + code[m.end():e] + ")" + code[e:]
                    else: new = code[:m.start()] + (rep(m) if callable(rep) else rep) + code[m.end():]
                    if new.strip() != code.strip(): out.append((f, n, new))
    return out
ms = mutants(); random.Random(seed).shuffle(ms); print(len(ms), "mutants in", len(files), "files")
env = dict(os.environ, PARTIO_REPO=W + "/repo", VERIF_TIER="quick"); log = open(f"/tmp/mut/results-{seed}.txt", "a"); alive = tried = 0
for f, n, new in ms:
    if tried >= count: break
    p = os.path.join(W, "repo", f); src = open(p, encoding="latin-1").read(); ls = src.split("\n"); old = ls[n]; ls[n] = new; open(p, "w", encoding="latin-1").write("\n".join(ls))
    if f.endswith(".cpp") and subprocess.run(["g++", "-std=c++14", "-fsyntax-only", "-w", "-DPARTIO_USE_ZLIB", "-I" + W + "/repo/src/lib", p], capture_output=True).returncode: open(p, "w", encoding="latin-1").write(src); continue
    tried += 1; got = None; t0 = time.time(); seq = next(c for k, c in M if k in f)
    for c in seq:
        try: r = subprocess.run(["./check", c, "quick"], cwd=W + "/verif", env=env, capture_output=True, text=True, errors="replace", timeout=900)
        except subprocess.TimeoutExpired: got = c + " TIMEOUT"; break
        if r.returncode == 3: got = "nobuild"; break
        if r.returncode != 0: got = c + ("" if "VIOLATION" in r.stdout else f" rc={r.returncode}"); break
    open(p, "w", encoding="latin-1").write(src)
    alive += got is None
    log.write(f"{'ALIVE' if got is None else got}\t{f}:{n + 1}\t{old.strip()}\t=>\t{new.strip()}\t{time.time() - t0:.0f}s {'' if got else seq}\n"); log.flush()
log.write(f"done: {alive} of {tried} alive\n"); log.close(); shutil.rmtree(W, ignore_errors=True)
