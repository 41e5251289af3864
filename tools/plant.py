"""Authoring aid for seeded/: plant(id, property, needs, breaks, [(file, old, new)...], demo body, np)."""
import json, os, subprocess, tempfile, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# run in /repo after the build: exit 0 if the behaviour is right
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader
export OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_pml=ob1 OMPI_MCA_plm_rsh_agent=/bin/false
export OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_mpi_yield_when_idle=1 OMP_NUM_THREADS=%(omp)s TMPDIR="$W"
R=$(pwd)
OMPI_CXX=g++ mpicxx -O1 -fopenmp -DUSE_MPI -I"$R/src" -I"$R/levels/c_utils" -I"$R/levels/libfftpack" -I"$R/levels/cxxsupport" \\
  -I"$R/levels/Healpix_cxx" -I"$D" "$D/demo.cpp" "$R/_build/src/.libs/libconviqt.a" -lcfitsio -o "$W/demo" || exit 3
cp "$R/data/slm.fits" "$W/sky.fits"; cp "$R/data/mb_lfi_30_27_x_rescaled.alm" "$W/beam.fits"
cd "$W" || exit 3
timeout 120 %(run)s ./demo
'''
HPP = '''#ifndef H_HPP
#define H_HPP
#include <vector>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <string>
#include <stdexcept>
#include "mpi.h"
#include "conviqt.hpp"
struct P { double phi, theta, psi; };
inline void fill(conviqt::pointing &p, const std::vector<P> &v) {
  p.alloc(5 * v.size());
  for (size_t i = 0; i < v.size(); ++i) { p[5*i] = v[i].phi; p[5*i+1] = v[i].theta; p[5*i+2] = v[i].psi; p[5*i+3] = 0; p[5*i+4] = 0; }
}
inline std::vector<double> sig(const conviqt::pointing &p) { std::vector<double> r; for (size_t i = 0; i < p.size() / 5; ++i) r.push_back(p[5*i+3]); return r; }
inline bool close(double a, double b, double t) { return std::fabs(a - b) <= t; }
#endif
'''
def plant(id, prop, needs, breaks, edits, demo, np=1, omp=1, run=None, sh=None, extra=None):
    d = os.path.join(V, "seeded", id); os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", t + "/r"])
        for f, old, new in edits:
            p = os.path.join(t, "r", f); s = open(p).read()
            assert s.count(old) == 1, "%s: %d matches of %r in %s" % (id, s.count(old), old, f)
            open(p, "w").write(s.replace(old, new))
        patch = subprocess.check_output(["git", "-C", t + "/r", "diff"]).decode()
    finally: shutil.rmtree(t)
    open(d + "/patch.diff", "w").write(patch)
    if sh is None:
        if run is None: run = "mpirun -np %d" % np
        open(d + "/demo.sh", "w").write(SH % dict(run=run, omp=omp))
        open(d + "/h.hpp", "w").write(HPP)
        open(d + "/demo.cpp", "w").write(demo)
    else: open(d + "/demo.sh", "w").write(sh)
    for k, v in (extra or {}).items(): open(d + "/" + k, "w").write(v)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print("planted", id)
