"""Makes /verif/seeded/<id>/ from a planted change: writes the patch, and confirms in a scratch copy of /repo that it
builds, passes the tests, changes original lines, and that the demonstration tells it from the unchanged tree.

usage: seed.py SEEDS.py [id ...]     SEEDS.py defines SEEDS = {id: dict(property, needs, breaks, np, edits, demo)}
"""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

BASE = "fb3ea2e"
SEEDED = "/verif/seeded"
ADHOC = "/tmp/g/adhoc"        # changes of lines that are not original: they do not count, but are worth catching
DEMO_SH = """#!/bin/bash
# exit 0: the property holds (see meta.json)
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d); trap 'rm -rf "$work"' EXIT
export TMPDIR=$work HOME=${HOME:-/root} PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
timeout -k 5 %d mpiexec --allow-run-as-root --oversubscribe --bind-to none --mca btl self,vader \\
    --mca btl_vader_single_copy_mechanism none -n %d /opt/venv/bin/python "$here/demo.py" </dev/null
"""
PRELUDE = """import sys, traceback
import numpy as np
from mpi4py import MPI


def _hook(*a):
    traceback.print_exception(*a)
    sys.stderr.flush()
    MPI.COMM_WORLD.Abort(1)


sys.excepthook = _hook
import warnings
warnings.simplefilter("ignore")
import pylops, pylops_mpi
from pylops_mpi import *
comm = MPI.COMM_WORLD
rank, size = comm.Get_rank(), comm.Get_size()

"""


def sh(cmd, timeout=900, **kw):
    p = subprocess.run(cmd, shell=isinstance(cmd, str), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=timeout, **kw)
    return p.returncode, p.stdout


def tests(tree):
    """Failing stable tests of the tree."""
    w = tempfile.mkdtemp(dir="/tmp/w")
    shutil.copytree("/opt/vp/mpi", w + "/mpi")
    s = open(w + "/mpi/run.py").read().replace("/repo", tree)
    open(w + "/mpi/run.py", "w").write(s)
    e = dict(os.environ, HOME="/root", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", TMPDIR=w)
    rc, out = sh(["/opt/venv/bin/python", w + "/mpi/run.py", w + "/results.txt"], env=e, cwd=tree)
    res = {}
    for line in open(w + "/results.txt"):
        k, _, n = line.rstrip("\n").partition(" ")
        res[n] = k
    shutil.rmtree(w)
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return [t for t in stable if res.get(t) != "PASS"]


def main(fn, only):
    S = runpy.run_path(fn)["SEEDS"]
    for sid, d in S.items():
        if only and sid not in only:
            continue
        if not only and os.path.exists(f"{SEEDED}/{sid}/meta.json"):
            continue
        tree = tempfile.mkdtemp(dir="/tmp/w")
        try:
            sh(f"cp -a /repo/. {tree}/")
            # the tree under test has to be the one imported
            ok = True
            for f, a, b in d["edits"]:
                p = f"{tree}/pylops_mpi/{f}"
                s = open(p).read()
                if s.count(a) != 1:
                    print(sid, "EDIT", f, s.count(a), repr(a)[:80])
                    ok = False
                    continue
                open(p, "w").write(s.replace(a, b))
            if not ok:
                continue
            rc, diff = sh(["git", "-C", tree, "diff"])
            out = tempfile.mkdtemp(dir="/tmp/w")
            open(out + "/demo.py", "w").write(PRELUDE + d["demo"].lstrip("\n"))
            open(out + "/demo.sh", "w").write(DEMO_SH % (d.get("limit", 90), d["np"]))
            os.chmod(out + "/demo.sh", 0o755)
            # original lines
            orig = 0
            for f in {e[0] for e in d["edits"]}:
                _, hunks = sh(["git", "-C", tree, "diff", "-U0", "pylops_mpi/" + f])
                for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))?", hunks, re.M):
                    n, k = int(m[1]), int(m[2] or 1)
                    if k:
                        _, bl = sh(["git", "-C", "/repo", "blame", "-s", "-l", f"-L{n},{n + k - 1}", "HEAD", "--", "pylops_mpi/" + f])
                        orig += sum(1 for x in bl.splitlines() if x.lstrip("^").startswith(BASE))
            rc0, o0 = sh([out + "/demo.sh"], cwd="/repo")
            rc1, o1 = sh([out + "/demo.sh"], cwd=tree)
            bad = tests(tree) if rc0 == 0 and rc1 != 0 and (orig or d.get("adhoc")) else ["not run"]
            good = rc0 == 0 and rc1 != 0 and (orig or d.get("adhoc")) and not bad
            print(sid, "OK" if good else "NO", f"clean={rc0} patched={rc1} original_lines={orig} failing={bad[:3]} {len(bad)}", flush=True)
            if rc0 != 0:
                print(o0[-1500:])
            if rc1 == 0:
                print(o1[-500:])
            if good:
                dst = f"{ADHOC if d.get('adhoc') else SEEDED}/{sid}"
                shutil.rmtree(dst, ignore_errors=True)
                os.makedirs(dst)
                open(dst + "/patch.diff", "w").write(diff)
                for x in ("demo.sh", "demo.py"):
                    shutil.copy2(f"{out}/{x}", dst)
                json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(dst + "/meta.json", "w"), indent=1)
            shutil.rmtree(out)
        finally:
            shutil.rmtree(tree)


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2:])
