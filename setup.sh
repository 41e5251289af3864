#!/bin/sh
# Compiles the library and all harnesses into /verif/build, so that the checks start from a warm cache.
# (Every check recompiles what changed since; it also works without this.)
cd "$(dirname "$0")" && exec python3 -B -c '
import sys; sys.path.insert(0, ".")
from vplib import build
from vplib.config import CHECKS
want = {}
for c in CHECKS.values():
    for j in c["jobs"]:
        if j["bin"].endswith(".py"): build.shared_lib(j["variant"])
        else: want.setdefault(j["variant"], set()).add((j["bin"], j["np"] > 0))
for v, h in sorted(want.items()): build.compile_all(v, sorted(h))
print("harnesses built:", ", ".join("%s/%s" % (v, n) for v, h in sorted(want.items()) for n, _ in sorted(h)))
'
