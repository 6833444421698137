#!/usr/bin/env python3
"""Development tool: writes seeded/<id>/ from tools_seeds_src.py and tries seeds in scratch copies.
   tools_seed.py write            write patch.diff, demo.*, meta.json of every seed
   tools_seed.py try ID... [--nocheck]   in a private mount namespace over a copy of /repo: build, tests, demo, check
"""
import sys, os, subprocess, json, shutil, tempfile, concurrent.futures as cf
V = "/verif"
DEMO = '''#!/bin/bash
# run with cwd /repo, after the build
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d /tmp/demoXXXXXX); trap 'rm -rf "$T"' EXIT
R=$PWD
g++ -std=c++14 -g -w -DPARTIO_USE_ZLIB -I"$R/src/lib" -I"$R/src/lib/core" -I"$R/src/lib/io" "$D/demo.cpp" -o "$T/demo" -L"$R/_build/src/lib" -lpartio -lz -lpthread || exit 99
cd "$T" && LD_LIBRARY_PATH="$R/_build/src/lib" timeout 100 "$T/demo" "$T" >"$T/out" 2>&1
rc=$?; tail -5 "$T/out"; exit $rc
'''
DEMOPY = '''#!/bin/bash
# run with cwd /repo, after the build
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d /tmp/demoXXXXXX); trap 'rm -rf "$T"' EXIT
R=$PWD
cd "$T" && REPO=$R LD_LIBRARY_PATH="$R/_build/src/lib" PYTHONPATH="$R/_build/src/py:$R/src/tools" PYTHONDONTWRITEBYTECODE=1 timeout 100 /opt/partio-venv/bin/python "$D/demo.py" "$T" >"$T/out" 2>&1
rc=$?; tail -5 "$T/out"; exit $rc
'''
HEAD = '''#include <Partio.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
using namespace Partio;
#define CHECK(c) do{ if(!(c)){ printf("FAILED line %d: %s\\n",__LINE__,#c); fflush(stdout); _Exit(1);} }while(0)
'''
def seeds():
    g = {}
    exec(open(V + "/tools_seeds_src.py").read(), g)
    return g["SEEDS"]
def diff(edits):
    out = ""
    byfile = {}
    for f, old, new in edits: byfile.setdefault(f, []).append((old, new))
    for f, l in byfile.items():
        s = subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + f], capture_output=True, text=True, check=True).stdout
        t = s
        for old, new in l:
            if t.count(old) != 1: raise SystemExit(f"{f}: {t.count(old)} matches of {old!r}")
            t = t.replace(old, new)
        d = tempfile.mkdtemp()
        for n, c in (("a", s), ("b", t)):
            os.makedirs(os.path.join(d, n, os.path.dirname(f))); open(os.path.join(d, n, f), "w").write(c)
        r = subprocess.run(["diff", "-u", "a/" + f, "b/" + f], cwd=d, capture_output=True, text=True).stdout
        lines = r.split("\n"); lines[0] = "--- a/" + f; lines[1] = "+++ b/" + f
        out += "\n".join(lines)
        shutil.rmtree(d)
    return out
def write():
    for s in seeds():
        d = f"{V}/seeded/{s['id']}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff(s["edits"]))
        if "py" in s:
            open(d + "/demo.sh", "w").write(DEMOPY); open(d + "/demo.py", "w").write(s["py"])
        elif "sh" in s: open(d + "/demo.sh", "w").write(s["sh"])
        else:
            open(d + "/demo.sh", "w").write(DEMO); open(d + "/demo.cpp", "w").write(HEAD + s["demo"])
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["p"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
INNER = r'''
set -u
mount --bind "$W/repo" /repo
mount --bind "$W/verif" /verif
cd /repo
if [ "$ORIG" = 1 ]; then bash "$S/demo.sh" > $W/demo0 2>&1; echo "demo-orig=$?" >> $W/res; fi
git apply "$S/patch.diff" || { echo noapply >> $W/res; exit; }
bash /opt/vp/test.sh $W/t.json > $W/test.log 2>&1
python3 - <<P >> $W/res
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$W/t.json'))
names=b['stable']
print('tests-missing=%d'%len(set(names)-set(t['passed'])))
P
bash "$S/demo.sh" > $W/demo1 2>&1; echo "demo-patched=$? $(tail -1 $W/demo1)" >> $W/res
if [ -n "$PROP" ]; then cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check $PROP quick > $W/check.log 2>&1; echo "check=$? $(grep -c ^VIOLATION $W/check.log) $(grep -m1 -A0 -e '->' $W/check.log | cut -c1-150)" >> $W/res; fi
'''
def tryone(sid, check=True, prop=None):
    W = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    m = json.load(open(f"{V}/seeded/{sid}/meta.json"))
    os.makedirs(W + "/verif")
    subprocess.run(["cp", "-a", "/repo", W + "/repo"], check=True)
    subprocess.run(f"cd {V} && cp -a check harness tools_*.py MANIFEST.json {W}/verif/ && cp -a KNOWN_FINDINGS {W}/verif/ 2>/dev/null; cp -a seeded/{sid} {W}/S", shell=True)
    env = dict(os.environ, W=W, S=W + "/S", ORIG="1", PROP=(prop or m["property"]) if check else "")
    subprocess.run(["unshare", "-Urm", "bash", "-c", INNER], env=env, stdout=open(W + "/log", "w"), stderr=subprocess.STDOUT)
    r = open(W + "/res").read().replace("\n", " | ")
    if os.environ.get("SEED_KEEP"): r += W
    else: shutil.rmtree(W)
    return sid, m["property"], r
if __name__ == "__main__":
    if sys.argv[1] == "write": write()
    else:
        ids = [a for a in sys.argv[2:] if not a.startswith("--")]
        chk = "--nocheck" not in sys.argv
        prop = [a[7:] for a in sys.argv if a.startswith("--prop=")]
        with cf.ThreadPoolExecutor(3) as ex:
            for f in cf.as_completed([ex.submit(tryone, i, chk, prop[0] if prop else None) for i in ids]): print(*f.result(), flush=True)
