"""Helper to write seeded/<id>/ from (file, old, new) edits and a demo program body."""
import os, subprocess, json, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# exit 0: behaves; nonzero: broken.  Run with cwd /repo after the build.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
S=$R/src/libs; B=$R/_build
T=$(mktemp -d) || exit 1
trap 'rm -rf "$T"' EXIT
%(mpi)s
%(cxx)s -std=c++14 -O1 -w -I$S/conduit -I$S/conduit/c -I$B/libs/conduit -I$S/relay -I$S/relay/c -I$B/libs/relay -I$S/blueprint -I$S/blueprint/c -I$B/libs/blueprint -I/usr/include/hdf5/serial \
  "$D/demo.cpp" -o "$T/demo" -L$B/lib -Wl,-rpath,$B/lib %(libs)s || exit 1
cd "$T" && timeout 120 %(run)s ./demo
'''
MPI = 'export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_mpi_yield_when_idle=1 OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_pml=ob1 OMPI_MCA_plm=isolated HWLOC_COMPONENTS=-gl,-opencl,-cuda'
def seed(id, prop, edits, needs, breaks, demo, mpi=0, repo="/repo"):
    wt = "/tmp/vf_seed_wt"
    subprocess.run(["git", "-C", repo, "worktree", "remove", "--force", wt], stderr=subprocess.DEVNULL)
    subprocess.check_call(["git", "-C", repo, "worktree", "add", "-f", "--detach", wt, "HEAD"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        for f, old, new in edits:
            p = os.path.join(wt, f)
            t = open(p).read()
            assert t.count(old) >= 1, "not found in %s: %s" % (f, old)
            assert t.count(old) == 1, "ambiguous (%d) in %s: %s" % (t.count(old), f, old)
            open(p, "w").write(t.replace(old, new))
        d = subprocess.check_output(["git", "-C", wt, "diff"], text=True)
    finally:
        subprocess.run(["git", "-C", repo, "worktree", "remove", "--force", wt])
    o = os.path.join(V, "seeded", id)
    os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(d)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(o + "/meta.json", "w"), indent=1)
    libs = "-lconduit_blueprint -lconduit_relay -lconduit"
    if mpi: libs = "-lconduit_blueprint_mpi -lconduit_relay_mpi_io -lconduit_relay_mpi " + libs
    open(o + "/demo.sh", "w").write(DEMO % dict(mpi=MPI if mpi else "", cxx="mpicxx" if mpi else "g++", libs=libs, run="mpiexec -n %d --oversubscribe" % mpi if mpi else ""))
    os.chmod(o + "/demo.sh", 0o755)
    open(o + "/demo.cpp", "w").write(demo)
