"""Runs a batch under mpiexec and turns what the processes wrote into traces."""
import json
import os
import shutil
import signal
import subprocess
import tempfile
import time

import groups
import tools
from merge import merge

MPIEXEC = ["mpiexec", "--allow-run-as-root", "--oversubscribe", "--bind-to", "none", "--mca", "btl", "self,vader",
           "--mca", "btl_vader_single_copy_mechanism", "none"]
STALL = 60.0


def launch(n, items, scratch, script="realrun.py", stall=STALL):
    """Runs the items; returns ({item: [records per process]}, finished items, how it ended, stuck item or None)."""
    d = tempfile.mkdtemp(dir=scratch)
    job = os.path.join(d, "job.json")
    with open(job, "w") as f:
        json.dump({"items": items}, f)
    e = tools.env(fake=False, TMPDIR=d)
    log = open(os.path.join(d, "log"), "w")
    p = subprocess.Popen(MPIEXEC + ["-n", str(n), tools.PY, os.path.join(tools.HERE, script), job, d], env=e, stdin=subprocess.DEVNULL, stdout=log,
                         stderr=subprocess.STDOUT, start_new_session=True, cwd=d)
    files = [os.path.join(d, f"rank{r}.ndjson") for r in range(n)]
    last, seen, how = time.time(), -1, None
    while True:
        try:
            rc = p.wait(timeout=0.2)
            how = "done" if rc == 0 else f"exit {rc}"
            break
        except subprocess.TimeoutExpired:
            pass
        size = sum(os.path.getsize(f) for f in files if os.path.exists(f))
        if size != seen:
            seen, last = size, time.time()
        if time.time() - last > stall:
            how = "stalled"
            break
    if p.poll() is None:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
    log.close()
    text = open(log.name, errors="replace").read()
    recs, ends, begun = {}, {}, set()
    for r, fn in enumerate(files):
        if not os.path.exists(fn):
            continue
        for line in open(fn):
            try:
                i, x = json.loads(line)
            except ValueError:
                continue
            if x == "begin":
                begun.add(i)
                recs.setdefault(i, [[] for _ in range(n)])
            elif x == "end":
                ends[i] = ends.get(i, 0) + 1
            else:
                recs[i][r].append(x)
    shutil.rmtree(d, ignore_errors=True)
    done = {i for i, c in ends.items() if c == n}
    open_ = sorted(begun - done)
    return recs, done, how, (open_[0] if open_ else None), text


def traces(n, items, scratch, budget=1e9):
    """Runs all items on n processes; yields (trace, errors) per program."""
    todo = [(i, it) for i, it in enumerate(items)]
    t0 = time.time()
    fails = 0
    while todo and time.time() - t0 < budget:
        recs, done, how, stuck, text = launch(n, todo, scratch)
        if how != "done" and not done and stuck is None:
            fails += 1
            if fails > 2:
                raise tools.Broken(f"mpiexec -n {n} does not start: {how}: {text[-600:]}")
            continue
        got = [i for i, _ in todo if i in done]
        if how != "done":
            # once more alone before calling it stuck
            if stuck is None:
                stuck = next((i for i, _ in todo if i not in done), None)
            if stuck is not None:
                r2, d2, how2, _, text2 = launch(n, [(stuck, items[stuck])], scratch)
                recs[stuck] = r2.get(stuck, [[] for _ in range(n)])
                got.append(stuck)
                text = text2
        for i in got:
            item = items[i]
            sets = [list(range(n))] if len(item) == 1 else groups.members([p["p"] for p in item])
            for prog, mem in zip(item, sets):
                tr, errs = merge(prog, [recs[i][r] for r in mem], False, f"mpiexec -n {n} groups={sets if len(item) > 1 else 1}")
                tr["alien"] = False
                if i not in done:
                    errs.append([f"real processes: {how} {text[-300:]}"])
                yield tr, errs
        left = {i for i, _ in todo} - set(got)
        todo = [(i, it) for i, it in todo if i in left]
        if how != "done":
            fails += 1
            if fails > 1:
                break
