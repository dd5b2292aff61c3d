"""Runs programs on the simulated message layer under several schedules; writes traces for spec/Trace.tla.

usage: fakerun.py JOB.json OUT     (PYTHONPATH: harness/fakempi, harness, /repo)
JOB: {"programs": [..], "schedules": n, "seed": s}    each program on a world of its own
  or {"pairs": [[a, b], ..], ...}                     two programs side by side, each on half of a world
Traces go to OUT.<P>.ndjson by the number of processes of the program, details of errors to OUT.<P>.err, and the
communication of each process to OUT.<P>.comm.
"""
import json
import os
import sys
import time

import groups
import interp
from merge import merge
from mpi4py import MPI

SENDS = ("eager", "sync", "mix")


class Unsupported(Exception):
    pass


def run_world(progs, seed, sends):
    """Runs one program on the world, or two on disjoint groups; returns [(prog, members, records)], world."""
    if len(progs) == 1:
        sets = [list(range(progs[0]["p"]))]
    else:
        sets = groups.members([p["p"] for p in progs])
    n = sum(p["p"] for p in progs)
    w = MPI.World(n, seed=seed, sends=sends, log=True)
    recs = [[] for _ in range(n)]

    def body(r):
        comm, g = groups.split(MPI.COMM_WORLD, sets)
        recs[r] = []
        return interp.run_program(comm, progs[g], recs[r])

    res = w.run(body)
    if w.unsupported:
        raise Unsupported(w.unsupported)
    for r in range(n):
        if res[r][0] == "exc":
            raise res[r][1]
    return [(p, s, [recs[r] for r in s]) for p, s in zip(progs, sets)], w


def main(job, out):
    sys.stdout = open(os.devnull, "w")  # solvers print
    t0 = time.time()
    n = events = 0
    files = {}

    def emit(p, tr, errs, comm):
        if p not in files:
            files[p] = [open(f"{out}.{p}.{x}", "w") for x in ("ndjson", "err", "comm")]
        for f, x in zip(files[p], (tr, errs, comm)):
            f.write(json.dumps(x) + "\n")

    for item in job.get("pairs") or [[p] for p in job["programs"]]:
        texts = {}
        for s in range(job["schedules"]):
            seed = job["seed"] * 1000003 + item[0]["id"] * 101 + s
            parts, w = run_world(item, seed, SENDS[s % 3])
            msgs, part = w.leftover()
            run = f"simulated seed={seed} sends={SENDS[s % 3]} groups={[m for _, m, _ in parts] if len(parts) > 1 else 1}"
            n += 1
            events += sum(len(x) for x in w.log)
            for prog, mem, recs in parts:
                tr, errs = merge(prog, recs, bool(msgs or part), run)
                first = 0 if len(parts) == 1 else 1  # the Split into groups
                alien = [[r, ev] for r in mem for ev in w.log[r][first:]
                         if ev["comm"] >= 0 and not set(w.comms[ev["comm"]]) <= set(mem)]
                tr["alien"] = bool(alien)
                if alien:
                    errs.append(["communication outside the group: " + json.dumps(alien[:3])])
                if msgs or part:
                    errs.append([f"left over: messages {msgs[:3]} collectives {part[:3]}"])
                if w.deadlock:
                    errs.append([f"stuck: {w.deadlock}"])
                key = json.dumps([prog["p"], prog["id"], tr["steps"], tr["left"], tr["alien"]])
                if key not in texts:
                    texts[key] = True
                    emit(prog["p"], tr, errs, {"id": prog["id"], "comms": {str(c): m for c, m in w.comms.items()}, "log": w.log}
                         if job.get("comm") else {})
            if w.stuck:
                break
        if w.stuck or time.time() - t0 > job.get("budget", 1e9):
            break
    for fs in files.values():
        for f in fs:
            f.close()
    print(json.dumps({"runs": n, "events": events, "wall": time.time() - t0, "stuck": w.stuck, "ps": sorted(files)}), flush=True, file=sys.__stdout__)
    if w.stuck:
        os._exit(0)


if __name__ == "__main__":
    try:
        main(json.load(open(sys.argv[1])), sys.argv[2])
    except Unsupported as e:
        print(json.dumps({"unsupported": str(e)}), flush=True, file=sys.__stdout__)
