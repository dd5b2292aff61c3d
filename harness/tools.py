"""Running TLC, the simulator and mpiexec."""
import json
import os
import shutil
import signal
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Broken(Exception):
    """The machinery itself failed (not a verdict about the code)."""


def env(fake=True, **more):
    e = dict(os.environ)
    e.update(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", NUMBA_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1",
             PYTHONHASHSEED="0", OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", MPLBACKEND="Agg",
             PYTHONPATH=":".join(([os.path.join(HERE, "fakempi")] if fake else []) + [HERE, REPO]))
    e.setdefault("HOME", "/root")
    e.update(more)
    return e


def run(cmd, timeout, **kw):
    """subprocess.run in its own process group, all of which is ended on a timeout."""
    p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out or ""


def tlc(module, cfg, scratch, workers=2, timeout=600, heap="2g", envs=None, extra=()):
    """Output of a TLC run; cfg is the text of its configuration."""
    os.makedirs(scratch, exist_ok=True)
    c = os.path.join(scratch, f"{module}_{os.getpid()}_{time.monotonic_ns()}.cfg")
    with open(c, "w") as f:
        f.write(cfg)
    meta = tempfile.mkdtemp(dir=scratch)
    jvm = ["-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1"] if workers == 1 else ["-XX:+UseParallelGC"]
    cmd = ["java", *jvm, f"-Xmx{heap}", "-Xss16m", "-cp", os.path.join(VERIF, "build") + ":" + JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", c, *extra,
           os.path.join(SPEC, module + ".tla")]
    e = env()
    e.update(envs or {})
    rc, out = run(cmd, timeout, env=e, cwd=SPEC)
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out


def tagged(out, tag):
    """JSON values printed with PrintT(tag \\o ToJson(..))."""
    res = []
    for line in out.splitlines():
        if line.startswith('"' + tag + " "):
            res.append(json.loads(json.loads(line)[len(tag) + 1:]))
    return res


def counts(out):
    """(distinct states, generated states) that TLC reports."""
    for line in reversed(out.splitlines()):
        if "distinct states found" in line:
            w = line.replace(",", "").split()
            return int(w[3]), int(w[0])
    return 0, 0


def ok(rc, out):
    return rc == 0 and "No error has been found" in out


def build():
    """Java overrides of the specification (spec/*.java) go to build/."""
    src = [os.path.join(SPEC, f) for f in sorted(os.listdir(SPEC)) if f.endswith(".java")]
    if not src:
        return
    out = os.path.join(VERIF, "build")
    os.makedirs(out, exist_ok=True)
    done = [os.path.join(out, os.path.basename(f)[:-5] + ".class") for f in src]
    if all(os.path.exists(d) and os.path.getmtime(d) >= os.path.getmtime(s) for s, d in zip(src, done)):
        return
    rc, text = run(["javac", "-cp", JARS, "-d", out, *src], 120)
    if rc != 0:
        raise Broken("javac: " + text)
