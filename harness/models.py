"""Exhaustive checks of the specification itself, and of the communication of recorded executions, per property."""
import concurrent.futures as cf
import json
import os

import tools

COMM = """SPECIFICATION Spec
INVARIANT Agree
CHECK_DEADLOCK FALSE
"""
TO_ROOT = {"gather", "reduce", "Gather", "Gatherv", "Reduce"}
FROM_ROOT = {"bcast", "Bcast", "scatter", "Scatter", "Scatterv"}


LAWS = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Law
CONSTANTS
  P = {p}
  B = {b}
  LAW = "{law}"
"""
EXCHANGE = """SPECIFICATION Spec
INVARIANTS Alike NothingLeft Right AsSpecified Moved
PROPERTY Returns
CONSTANTS
  P = {p}
  B = {b}
  R = {r}
  JOB = "{job}"
"""
SPMD = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS {inv}
CONSTANTS
  P = {p}
  K = {k}
  SCEN = "{scen}"
"""
# property -> (law, [(P, B)] quick, [(P, B)] thorough): laws of the specification, on all cases within the bounds
LAW = {
    "C01": ("C01", [(2, 3), (3, 4)], [(1, 6), (2, 7), (3, 7), (4, 6), (5, 5)]),
    "C02": ("C02", [(2, 3), (3, 3)], [(1, 3), (2, 3), (3, 3), (4, 3), (5, 3)]),
    "C03": ("C03", [(2, 2), (3, 2)], [(1, 2), (2, 2), (3, 2), (4, 2), (5, 2)]),
    "C04": ("C04", [(2, 3), (3, 3)], [(1, 3), (2, 3), (3, 3), (4, 3), (5, 3)]),
    "C05": ("C05", [(2, 3), (3, 3)], [(2, 3), (3, 3), (4, 3)]),
    "C07": ("C07", [(2, 3), (3, 3)], [(2, 3), (3, 3)]),
    "C08": ("C08", [(2, 3), (3, 3)], [(1, 3), (2, 3), (3, 3), (4, 3)]),
    "C09": ("C09", [(2, 3)], [(2, 14)]),
    "C10": ("C10", [(2, 3), (3, 3)], [(1, 3), (2, 3), (3, 3), (4, 3)]),
    "C11": ("C11", [(2, 3)], [(2, 4), (3, 4)]),
    "C12": ("C12", [(2, 3), (3, 3)], [(1, 3), (2, 3), (3, 3), (4, 3)]),
    "C13": ("C13", [(2, 3)], [(2, 4), (3, 4)]),
    "C14": ("C14", [(2, 3)], [(2, 3), (3, 3)]),
    "C15": ("C15", [(2, 3)], [(2, 3), (3, 3)]),
    "C20": ("C20", [(2, 2)], [(2, 3)]),
}
# property -> exchanges (P, sizes, radius, job) under all schedules
EXCHANGES = {
    "C06": ([(2, 3, 2, "ghost"), (3, 3, 1, "ghost")], [(2, 5, 3, "ghost"), (3, 3, 2, "ghost"), (3, 4, 2, "ghost"), (4, 2, 1, "ghost")]),
    "C07": ([(2, 4, 0, "move"), (3, 3, 0, "move")], [(2, 7, 0, "move"), (3, 5, 0, "move"), (4, 3, 0, "move")]),
    "C16": ([(3, 3, 1, "ghost"), (3, 3, 0, "move")], [(3, 4, 2, "ghost"), (3, 5, 0, "move")]),
}
# property -> (P, K, scenario, what holds, what must not)
SPMDS = {
    "C16": [(3, 2, "agreed", "NeverStuck Alike Rejected", ""), (3, 2, "world", "NeverStuck Alike", ""), (3, 2, "groups", "StuckOnlyApart ApartGetsStuck", "NeverStuck")],
    "C17": [(3, 2, "agreed", "NeverStuck Alike Rejected", ""), (3, 2, "alone", "", "NeverStuck")],
    "C18": [(3, 2, "own", "NeverStuck", ""), (3, 2, "leak", "", "NeverStuck")],
    "C14": [(3, 2, "world", "NeverStuck Alike", ""), (3, 2, "groups", "StuckOnlyApart ApartGetsStuck", "NeverStuck"), (3, 2, "inner", "NeverStuck", "")],
    "C15": [(3, 2, "world", "NeverStuck Alike", ""), (3, 2, "groups", "StuckOnlyApart ApartGetsStuck", "NeverStuck"), (3, 2, "inner", "NeverStuck", "")],
    "C05": [(3, 2, "inner", "NeverStuck", ""), (3, 2, "groups", "StuckOnlyApart ApartGetsStuck", "NeverStuck")],
}


def jobs(pid, tier):
    """(name, module, configuration, does it hold)"""
    big = tier != "quick"
    out = []
    if pid in LAW:
        law, q, t = LAW[pid]
        out += [(f"Laws {law} (all cases, P={p} B={b})", "Laws", LAWS.format(law=law, p=p, b=b), True) for p, b in (t if big else q)]
    for p, b, r, job in EXCHANGES.get(pid, ([], []))[big]:
        out.append((f"Exchange {job} (all schedules, P={p} B={b} R={r})", "Exchange", EXCHANGE.format(p=p, b=b, r=r, job=job), True))
    for p, k, scen, yes, no in SPMDS.get(pid, []):
        p, k = (p + 1, k) if big else (p, k)
        if yes:
            out.append((f"Spmd {scen} (all schedules, P={p} K={k}): {yes}", "Spmd", SPMD.format(p=p, k=k, scen=scen, inv=yes), True))
        if no:
            out.append((f"Spmd {scen} (P={p} K={k}): not {no}", "Spmd", SPMD.format(p=p, k=k, scen=scen, inv=no), False))
    return out


def one(job, scratch, big):
    name, module, cfg, holds = job
    for _ in range(2):  # once more if it did not get anywhere
        rc, text = tools.tlc(module, cfg, scratch, workers=1 if not big else 4, timeout=150 if not big else 3000, heap="2g" if not big else "6g")
        if rc is not None or big:
            break
    if holds and not tools.ok(rc, text) or not holds and "is violated" not in text:
        raise tools.Broken(f"{name}: rc={rc}\n" + "\n".join(x for x in text.splitlines() if "rror" in x or "iolated" in x or x.startswith("c ="))[:3000])
    st, gen = tools.counts(text)
    return {"model": name, "states": st, "transitions": gen, "violations": []}


def run(pid, tier, seed, scratch):
    """The specification itself: its laws, on all cases within bounds (a failure is one of the specification, not of the code)."""
    big = tier != "quick"
    with cf.ThreadPoolExecutor(3 if big else 4) as ex:
        return list(ex.map(lambda j: one(j, scratch, big), jobs(pid, tier)))


def calls(rec):
    """The calls of an execution as Comm.tla wants them, or None if it has calls which Comm.tla does not know."""
    cids = sorted(int(c) for c in rec["comms"])
    pos = {c: i + 1 for i, c in enumerate(cids)}
    members = {c: rec["comms"][str(c)] for c in cids}
    logs = []
    for r, log in enumerate(rec["log"]):
        out, no = [], {}
        for ev in log:
            op, c = ev["op"], ev["comm"]
            if c not in pos or r not in members[c] or op in ("irecv", "probe"):
                return None
            m = members[c]
            x = {"c": pos[c], "peer": 0, "tag": -1, "root": 0, "sig": "", "no": 0}
            if op in ("send", "isend", "recv"):
                if ev["peer"] == -2:
                    continue
                x.update(k=op, peer=0 if ev["peer"] == -1 else m[ev["peer"]] + 1, tag=ev["tag"])
            else:
                no[c] = no.get(c, 0) + 1
                root = ev.get("root", -1)
                x.update(k="in" if op in TO_ROOT else "out" if op in FROM_ROOT else "all", root=0 if root < 0 else m[root] + 1,
                         sig=f"{op} {root}", no=no[c])
            out.append(x)
        logs.append(out)
    return {"comms": [[x + 1 for x in members[c]] for c in cids], "logs": logs}


def bound(pid, tier, seed, scratch, res):
    """Recorded communication under all schedules (C16)."""
    if pid != "C16":
        return []
    big = tier != "quick"
    limit = {1: 0, 2: 400 if big else 40, 3: 150 if big else 24, 4: 40 if big else 6}
    out = []
    for p, n in limit.items():
        recs, seen = [], set()
        for path, bad in res.recorded:
            if len(recs) >= n:
                break
            for line, text in enumerate(open(path), 1):
                rec = json.loads(text)
                if line in bad or "log" not in rec or len(rec["log"]) != p:
                    continue
                c = calls(rec)
                if c is None:
                    continue
                key = json.dumps(c)
                if key in seen or not any(x["k"] == "send" for lg in c["logs"] for x in lg) or max(map(len, c["logs"])) > 250:
                    continue
                seen.add(key)
                c["id"] = rec["id"]
                recs.append(c)
                if len(recs) >= n:
                    break
        if not recs:
            continue
        path = os.path.join(scratch, f"comm{p}.ndjson")
        with open(path, "w") as f:
            for c in recs:
                f.write(json.dumps(c) + "\n")
        for workers in (8, 3):  # once more if it did not get anywhere
            rc, text = tools.tlc("Comm", COMM, scratch, workers=workers, timeout=900 if big else 160, heap="6g", envs={"COMM": path})
            if rc is not None:
                break
        if not tools.ok(rc, text):
            raise tools.Broken(f"Comm P={p}: rc={rc}\n{text[-3000:]}")
        st, gen = tools.counts(text)
        viol = []
        for f in tools.tagged(text, "FAIL"):
            c = recs[f["line"] - 1]
            viol.append({"what": f"{f['what']} under some schedule: program {c['id']} on {p} processes, at {f['at']}", "detail": {"fail": f, "execution": c}})
        done = {d["line"] for d in tools.tagged(text, "DONE")} | {f["line"] for f in tools.tagged(text, "FAIL")}
        if len(done) != len(recs):
            raise tools.Broken(f"Comm P={p}: {len(done)} of {len(recs)} executions ended")
        out.append({"model": f"Comm (recorded calls of {len(recs)} executions on {p} processes, all schedules)", "states": st, "transitions": gen,
                    "violations": viol})
    for m in out:
        for i, v in enumerate(m["violations"]):
            d = os.path.join(tools.EVIDENCE, "replay")
            os.makedirs(d, exist_ok=True)
            v["replay"] = os.path.join(d, f"{pid}-comm-{i}.json")
            json.dump(v.pop("detail"), open(v["replay"], "w"))
        m["violations"] = m["violations"][:5]
    return out
