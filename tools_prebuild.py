#!/usr/bin/env python3
"""setup_cmd: nothing is kept between runs, so this only checks that the tools are there."""
import shutil, sys
missing = [t for t in ("clang++", "g++", "python3") if not shutil.which(t)]
if missing: sys.exit("missing: " + " ".join(missing))
