#!/usr/bin/env python3
"""Prints the `fixed:` lines of KNOWN_FINDINGS from the fix commits of /repo."""
import subprocess
M = {"refused memory": "C27", "without memory": "C27", "zlib's memory": "C25", "headers of damaged and repeated": "C25", "PDC names cut": "C24", "PDA says why": "C26", "PTS does not take": "C26", "errors in compressed files": "C26", "could not be written completely": "C26", "postfix increment": "C03", "string lookups right when": "C04", "interleaved container": "C02", "final search radius": "C05", "negative count finds": "C05", "TypeName": "C20", "gzip header": "C09", "compressed file ends": "C11",
     "compressed output": "C16", "central directory": "C15", "local header": "C15", "zero-width": "C01", "particle cache": "C06", "reader and writer tables": "C07", "damaged BGEO": "C11",
     "GEO files without point": "C11", "tell 32 and 64": "C19", "what a PDA": "C08", "unwritable names": "C08", "integers in PDC": "C08", "vectors in PTC": "C08", "PRT particles": "C11", "what a BIN": "C08",
     "RIB file": "C16", "MC files": "C11", "PTS columns": "C19", "zlib still holds": "C15", "PTC and PDB files whose": "C11", "clone's tables": "C13", "compute clusters": "C14",
     "merge string": "C12", "Python": "C20", "partjson": "C20", "partconvert": "C21", "partinfo": "C21", "partattr": "C21", "print separates": "C21"}
for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "300f6cd..HEAD"], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        p = next((v for k, v in M.items() if k in s), None); assert p, s
        print(f"fixed: property={p} {h} {s[5:]}")
