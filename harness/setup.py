"""Setup: builds the Java parts of the specification and checks that the tools are there."""
import os
import shutil
import sys
import tempfile

import tools

os.makedirs(os.path.join(tools.VERIF, "build"), exist_ok=True)
tools.build()
d = tempfile.mkdtemp(prefix="verif_setup_")
try:
    rc, out = tools.run(["java", "-cp", tools.JARS, "tla2sany.SANY", os.path.join(tools.SPEC, "Trace.tla")], 120, cwd=tools.SPEC)
    if rc != 0:
        sys.exit("SANY: " + out)
    rc, out = tools.run([tools.PY, "-c", "import pylops_mpi, sys; print(pylops_mpi.__file__)"], 120, env=tools.env(), cwd=d)
    if rc != 0:
        sys.exit("import: " + out)
    print(out.strip().splitlines()[-1])
finally:
    shutil.rmtree(d, ignore_errors=True)
