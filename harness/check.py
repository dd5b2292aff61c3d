"""The check of one property:  check.py PID   (tier and seed from VERIF_TIER, VERIF_SEED)

Exit 0: the property held on everything explored (known findings are reported as such).
Exit 1: VIOLATION property=PID replay=FILE.
"""
import json
import os
import shutil
import sys
import tempfile
import time

import conformance
import focus
import models
import plans
import tools


def findings():
    """Fingerprints of the known findings, per property."""
    out = {}
    path = os.path.join(tools.VERIF, "known-findings.txt")
    for line in open(path):
        line = line.strip()
        if line.startswith("{"):
            d = json.loads(line)
            if d.get("status") == "open":
                out.setdefault(d["property"], []).append(d)
    return out


def match(known, f):
    """The known finding that a fault is an instance of: every part of its signature must agree."""
    q = f["trace"]["steps"][f["step"] - 1]["q"] if f["step"] <= len(f["trace"]["steps"]) else {"op": "end"}
    have = {"clause": f["clause"], "detail": f["d"], "op": q["op"], "request": {k: v for k, v in q.items() if k not in ("no",)}}
    return next((d for d in known if all(have.get(k) in (v if isinstance(v, list) and k != "request" else [v])
                                         for k, v in d["signature"].items())), None)


def history_matters(f, scratch, seed):
    """Does the fault disappear when the request is made without the rest of its history?"""
    steps = [s["q"] for s in f["trace"]["steps"]]
    keep = focus.lineage(steps, f["step"] - 1)
    if len(keep) == f["step"]:
        return False
    prog = {"id": f["trace"]["id"], "p": f["p"], "steps": focus.program(steps, keep)}
    info, judged = conformance.sim_and_judge({"programs": [prog], "schedules": 3, "seed": seed}, scratch, f"slice{f['line']}_{f['step']}_{f['p']}")
    last = len(keep)
    return bool(judged) and not any(x["step"] == last and x["clause"] == f["clause"] for _, faults, *_ in judged for x in faults)


def on_world(f, res, scratch, seed):
    """Does the fault also happen when the program has the world for itself?"""
    steps = [x["q"] for x in f["trace"]["steps"]]
    key = json.dumps([f["p"], steps], sort_keys=True)
    if key not in res.world:
        if len(res.world) >= 40:
            return True  # enough of them have been looked at
        prog = {"id": f["trace"]["id"], "p": f["p"], "steps": steps}
        info, judged = conformance.sim_and_judge({"programs": [prog], "schedules": 3, "seed": seed}, scratch, f"world{len(res.world)}")
        res.world[key] = {(x["step"], x["clause"]) for _, faults, *_ in judged for x in faults}
    return (f["step"], f["clause"]) in res.world[key]


def select(pid, res, scratch, seed):
    """The faults that violate the property."""
    fs = [f for f in res.faults if focus.about(pid, f)]
    if pid == "C18":
        # what also happens on the world is not about communicators
        fs = [f for f in fs if not f["run"].endswith("groups=1") and not on_world(f, res, scratch, seed)]
    if pid == "C19":
        out, looked = [], 0
        for f in fs:
            if f["clause"] in focus.RESULT:
                looked += 1
                if looked > 25 or not history_matters(f, scratch, seed):
                    continue
            out.append(f)
        fs = out
    return fs


def report(pid, f, n, seed):
    d = os.path.join(tools.EVIDENCE, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{n}.json")
    steps = [s["q"] for s in f["trace"]["steps"]]
    with open(path, "w") as o:
        json.dump({"property": pid, "clause": f["clause"], "detail": f["d"], "request": f["op"], "step": f["step"], "processes": f["p"],
                   "run": f["run"], "errors": f["errs"], "end": f["end"], "seed": seed,
                   "program": {"id": f["trace"]["id"], "p": f["p"], "steps": f.get("whole", steps)}, "partner": f.get("partner"), "trace": f["trace"]}, o)
    return path


def main(pid):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"verif_{pid}_")
    try:
        tools.build()
        m = models.run(pid, tier, seed, scratch)
        known = findings().get(pid, [])
        res = conformance.conform(plans.plans(pid, tier), seed, scratch,
                                  enough=lambda res: any(match(known, f) is None for f in select(pid, res, scratch, seed)))
        bad = select(pid, res, scratch, seed)
        m2 = models.bound(pid, tier, seed, scratch, res)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(scratch, ignore_errors=True)
    new, seen = [], {}
    for f in bad:
        k = match(known, f)
        if k is not None:
            seen[k["what"]] = True
        else:
            new.append(f)
    for what in seen:
        print(f"KNOWN-FINDING: property={pid} {what}")
    ms = m + m2
    s = res.stats
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": s["states"] + sum(x["states"] for x in ms), "transitions": s["transitions"] + sum(x["transitions"] for x in ms),
                       "traces_validated_against_impl": s["traces"], "samples": res.samples[:3],
                       "programs": s["programs"], "executions_on_simulated_mpi": s["executions"], "executions_on_real_mpi": s["real_executions"],
                       "mpi_calls_observed": s["mpi_calls"], "steps_required": s["steps_must"], "steps_optional": s["steps_may"],
                       "steps_rejected": s["steps_rejected"], "steps_of_meaning": s["steps_meant"], "requests": s["requests"], "models": ms, "simulator_unsupported": res.unsupported,
                       "faults_of_other_properties": len(res.faults) - len(bad)},
          "assumptions": ["data are Gaussian integers on which floating-point arithmetic is exact", "the simulator stands for MPI where real processes are not used",
                          "process counts and program sizes as listed"],
          "wall_s": round(time.time() - t0, 2), "violations": len(new) + sum(len(x["violations"]) for x in ms)}
    os.makedirs(tools.EVIDENCE, exist_ok=True)
    with open(os.path.join(tools.EVIDENCE, f"{pid}.json"), "w") as o:
        json.dump(ev, o, indent=1)
    print(f"{pid} {tier} seed={seed}: {s['programs']} programs, {s['executions']}+{s['real_executions']} executions, {s['traces']} traces, "
          f"{ev['coverage']['states']} states, {len(ms)} models, {ev['wall_s']} s")
    rc = 0
    kinds = set()
    for f in new:
        key = (f["clause"], f["op"])
        if key in kinds and len(kinds) >= 1:
            continue
        kinds.add(key)
        if len(kinds) > 5:
            break
        path = report(pid, f, len(kinds), seed)
        print(f"  {f['clause']} {f['d']} at {f['op']} (step {f['step']} of program {f['trace']['id']}, {f['p']} processes, {f['run']}) {f['errs']} {f['end']}"[:700])
        print(f"VIOLATION property={pid} replay={path}")
        rc = 1
    for x in ms:
        for v in x["violations"]:
            print(f"  model {x['model']}: {v['what']}"[:700])
            print(f"VIOLATION property={pid} replay={v['replay']}")
            rc = 1
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
