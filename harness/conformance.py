"""Binding of the machine (spec/Machine.tla) to the code: programs drawn from the specification are executed by
pylops_mpi, and what they did is checked against the specification by TLC."""
import concurrent.futures as cf
import json
import os
import time

import realjob
import tools

GEN = """SPECIFICATION {spec}
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  P = {p}
  SEED = {seed}
  N = {n}
  PROFILE = "{profile}"
"""
TRACE = """SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANT P = {p}
"""
MEANING = """SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  P = {p}
  MaxEntries = {m}
"""


def generate(profile, p, n, seed, scratch, workers=1, first=0):
    mod, spec = ("Enum", "ESpec") if profile[0] in "EL" else ("Gen", "Spec")
    rc, out = tools.tlc(mod, GEN.format(spec=spec, p=p, seed=seed, n=n, profile=profile), scratch, workers=workers)
    if not tools.ok(rc, out):
        raise tools.Broken(f"Gen {profile} P={p}: rc={rc}\n{out[-6000:]}")
    progs = sorted(tools.tagged(out, "PROG"), key=lambda x: x["id"])
    for q in progs:
        q["id"] += first
        q["profile"] = profile
        for no, st in enumerate(q["steps"]):
            st["no"] = no
    st, gen = tools.counts(out)
    return progs, st, gen


def judge(path, p, scratch, workers=1):
    """Faults and summaries of the traces in a file."""
    rc, out = tools.tlc("Trace", TRACE.format(p=p), scratch, workers=workers, envs={"TRACE": path}, timeout=1500)
    n = sum(1 for _ in open(path))
    if not tools.ok(rc, out):
        if rc is None or n == 0:
            raise tools.Broken(f"Trace P={p} {path}: rc={rc}\n{out[-6000:]}")
        return one_by_one(path, p, scratch, n, out)
    done = tools.tagged(out, "DONE")
    if len({d["line"] for d in done}) != n:
        raise tools.Broken(f"Trace P={p}: {len(done)} of {n} traces judged\n{out[-2000:]}")
    st, gen = tools.counts(out)
    return tools.tagged(out, "FAIL"), done, st, gen


def one_by_one(path, p, scratch, n, text):
    """The judgement of a file in which TLC could not evaluate some trace: halves of it, and a trace that cannot be
    evaluated is as good as its faults up to there."""
    lines = open(path).read().splitlines()
    if n == 1:
        faults = tools.tagged(text, "FAIL")
        if not faults:
            raise tools.Broken(f"Trace P={p} {path}:\n{text[-6000:]}")
        st, gen = tools.counts(text)
        return faults, [{"line": 1, "full": False, "must": 0, "may": 0, "rej": 0, "faults": len(faults)}], st, gen
    F, D, S, N = [], [], 0, 0
    for a, b in ((0, n // 2), (n // 2, n)):
        sub = f"{path}.{a}-{b}"
        with open(sub, "w") as f:
            f.write("\n".join(lines[a:b]) + "\n")
        faults, done, st, gen = judge(sub, p, scratch)
        F += [dict(x, line=x["line"] + a) for x in faults]
        D += [dict(x, line=x["line"] + a) for x in done]
        S, N = S + st, N + gen
    return F, D, S, N


def meaning(progs, p, m, scratch):
    """The specification's own account of the programs against what requests mean (spec/Meaning.tla)."""
    path = os.path.join(scratch, f"meaning{p}_{time.monotonic_ns()}.ndjson")
    with open(path, "w") as f:
        for x in progs:
            f.write(json.dumps(x) + "\n")
    rc, out = tools.tlc("Meaning", MEANING.format(p=p, m=m), scratch, workers=1, envs={"PROGS": path}, timeout=3000)
    done, bad = tools.tagged(out, "MEANT"), tools.tagged(out, "BREACH")
    if not tools.ok(rc, out) or bad or len(done) != len(progs):
        raise tools.Broken(f"Meaning P={p}: rc={rc} {len(done)} of {len(progs)}\n{str(bad)[:2000]}\n{out[-2000:]}")
    st, gen = tools.counts(out)
    return sum(d["steps"] for d in done), st, gen


def simulate(job, scratch, tag, timeout=1500):
    jf = os.path.join(scratch, f"job_{tag}.json")
    of = os.path.join(scratch, f"out_{tag}")
    with open(jf, "w") as f:
        json.dump(job, f)
    rc, out = tools.run([tools.PY, os.path.join(tools.HERE, "fakerun.py"), jf, of], timeout, env=tools.env(), cwd=scratch)
    if rc != 0:
        raise tools.Broken(f"simulation {tag}: rc={rc}\n{out[-6000:]}")
    return json.loads(out.strip().splitlines()[-1]), of


class Result:
    def __init__(self):
        self.faults = []  # dicts
        self.stats = {"programs": 0, "executions": 0, "real_executions": 0, "traces": 0, "mpi_calls": 0, "steps_must": 0, "steps_may": 0,
                      "steps_rejected": 0, "steps_meant": 0, "requests": {}, "states": 0, "transitions": 0}
        self.samples = []
        self.unsupported = None
        self.world = {}  # program -> its faults when run on the world (see check.py)
        self.recorded = []  # files of recorded communication, with the lines of executions that had faults

    def add(self, key, n):
        self.stats[key] += n

    def collect(self, path, faults, done, st, gen, errs_path):
        traces = [json.loads(x) for x in open(path)]
        errs = [json.loads(x) for x in open(errs_path)]
        self.add("states", st)
        self.add("transitions", gen)
        self.add("traces", len(traces))
        comm = path[:-len("ndjson")] + "comm"
        if os.path.exists(comm):
            self.recorded.append((comm, {d["line"] for d in done if d["faults"] or not d["full"]}))
        for d in done:
            self.add("steps_must", d["must"])
            self.add("steps_may", d["may"])
            self.add("steps_rejected", d["rej"])
        for t in traces:
            for s in t["steps"]:
                self.stats["requests"][s["q"]["op"]] = self.stats["requests"].get(s["q"]["op"], 0) + 1
        for f in faults:
            t = traces[f["line"] - 1]
            k = f["step"]
            q = t["steps"][k - 1]["q"] if k <= len(t["steps"]) else {"op": "end"}
            e = errs[f["line"] - 1]
            self.faults.append({"clause": f["clause"], "d": f["d"], "op": q["op"], "step": k, "run": t["run"], "p": t["p"], "trace": t,
                                "errs": e[k - 1] if k <= len(t["steps"]) else [], "end": e[len(t["steps"]):], "earlier": [s["q"] for s in t["steps"][:k - 1]],
                                "line": f["line"], "path": path})
        if traces and not self.samples:
            t = max(traces[:20], key=lambda t: len(t["steps"]))
            self.samples.append({"run": t["run"], "p": t["p"], "requests": [s["q"]["op"] + ":" + s["st"] for s in t["steps"]],
                                 "program": [{k: v for k, v in s["q"].items() if k not in ("d", "v", "blocks", "G", "K", "M", "Mh", "val")} for s in t["steps"]][:8]})


def chunks(seq, n):
    n = max(1, min(n, len(seq)))
    k, m = divmod(len(seq), n)
    out, i = [], 0
    for j in range(n):
        e = i + k + (1 if j < m else 0)
        out.append(seq[i:e])
        i = e
    return out


def much(plan, p):
    """Programs for p processes: fewer for many."""
    return max(1, int(plan["n"] * plan.get("few", {}).get(p, 1)))


def ordinary(progs):
    """Programs without the known deadlock (see known-findings.txt), which would only cost time."""
    return [p for p in progs if not any(q.get("apart") for q in p["steps"])]


def conform(plans, seed, scratch, jobs=8, enough=lambda res: False):
    """plans: dicts(profile, ps, n, schedules, real={P: n}, pairs=[(pa, pb)..]).  Generation, execution and judging of
    all plans, in parallel.  Real processes are spared when the simulated ones have shown enough."""
    res = Result()
    os.makedirs(scratch, exist_ok=True)
    with cf.ThreadPoolExecutor(jobs) as ex:
        gens = {}
        for pi, plan in enumerate(plans):
            ps = sorted(set(plan["ps"]) | set(plan.get("real", {})) | {x for pr in [*plan.get("pairs", []), *plan.get("realpairs", {})] for x in pr})
            for p in ps:
                n = max(much(plan, p), plan.get("real", {}).get(p, 0))
                gens[(pi, p)] = ex.submit(generate, plan["profile"], p, n, seed % 100000 + plan.get("seed", 0), scratch, 1, 100000 * p)
        progs = {k: f.result() for k, f in gens.items()}
        for (pi, p), (pr, st, gen) in progs.items():
            res.add("programs", len(pr))
            res.add("states", st)
            res.add("transitions", gen)
        # some of the programs, for what the specification makes of them
        means = []
        for p in sorted({p for _, p in progs}):
            some = [q for (pi, p2), (pr, _, _) in progs.items() if p2 == p and p in (plans[pi]["ps"] or [1, 2, 3])
                    for q in pr[:plans[pi].get("meant", 0)]]
            if some:
                for part in chunks(some, -(-len(some) // 120)):
                    means.append(ex.submit(meaning, part, p, plans[0]["entries"], scratch))
        t = []
        for pi, plan in enumerate(plans):
            for p in plan["ps"]:
                pr = progs[(pi, p)][0][:much(plan, p)]
                for c, part in enumerate(chunks(pr, max(1, (len(pr) * plan["schedules"] * p) // 240))):
                    t.append(ex.submit(sim_and_judge, {"programs": part, "schedules": plan["schedules"], "seed": seed, "comm": plan.get("comm", False)},
                                       scratch, f"{pi}_{p}_{c}"))
            for (pa, pb) in plan.get("pairs", []):
                A, B = progs[(pi, pa)][0], progs[(pi, pb)][0]
                pairs = [[a, B[(i * 7 + 3) % len(B)]] for i, a in enumerate(A[:plan.get("npairs", plan["n"])])]
                for c, part in enumerate(chunks(pairs, max(1, (len(pairs) * plan["schedules"] * (pa + pb)) // 240))):
                    t.append(ex.submit(sim_and_judge, {"pairs": part, "schedules": plan["schedules"], "seed": seed, "comm": plan.get("comm", False)},
                                       scratch, f"{pi}_{pa}g{pb}_{c}"))
        stuck = 0
        for f in cf.as_completed(t):
            if f.cancelled():
                continue
            info, judged = f.result()
            stuck += bool(info.get("stuck"))
            if stuck > 2:  # code that computes for ever: what has been seen will do
                for g in t:
                    g.cancel()
            if "unsupported" in info:
                res.unsupported = info["unsupported"]
                continue
            res.add("executions", info["runs"])
            res.add("mpi_calls", info["events"])
            for j in judged:
                res.collect(*j)
        for f in means:
            n, st, gen = f.result()
            res.add("steps_meant", n)
            res.add("states", st)
            res.add("transitions", gen)
        if res.unsupported:
            # the simulator cannot run this code: real processes only
            for plan in plans:
                plan["real"] = {p: much(plan, p) for p in set(plan["ps"]) | set(plan.get("real", {}))}
                plan["realpairs"] = {pr: plan["n"] // 2 for pr in [*plan.get("pairs", []), *plan.get("realpairs", {})]}
        if enough(res):
            return res
        # real processes: one batch at a time would leave cores idle; two worlds at once
        t = []
        with cf.ThreadPoolExecutor(3) as ex2:
            for pi, plan in enumerate(plans):
                for p, n in plan.get("real", {}).items():
                    items = [[x] for x in ordinary(progs[(pi, p)][0])[-n:]]
                    t.append(ex2.submit(real_and_judge, p, items, scratch, f"r{pi}_{p}"))
                for (pa, pb), n in plan.get("realpairs", {}).items():
                    A, B = ordinary(progs[(pi, pa)][0]), ordinary(progs[(pi, pb)][0])
                    items = [[a, B[(i * 5 + 1) % len(B)]] for i, a in enumerate(A[-n:])]
                    t.append(ex2.submit(real_and_judge, pa + pb, items, scratch, f"r{pi}_{pa}g{pb}"))
            for f in cf.as_completed(t):
                n, judged = f.result()
                res.add("real_executions", n)
                for j in judged:
                    res.collect(*j)
    return res


def sim_and_judge(job, scratch, tag):
    info, of = simulate(job, scratch, tag)
    out = []
    if "unsupported" in info:
        return info, out
    for p in info["ps"]:
        path = f"{of}.{p}.ndjson"
        faults, done, st, gen = judge(path, p, scratch)
        out.append((path, faults, done, st, gen, f"{of}.{p}.err"))
    return info, out


def real_and_judge(n, items, scratch, tag):
    files = {}
    count = 0
    for tr, errs in realjob.traces(n, items, scratch):
        p = tr["p"]
        if p not in files:
            files[p] = [open(os.path.join(scratch, f"real_{tag}.{p}.{x}"), "w") for x in ("ndjson", "err")]
        files[p][0].write(json.dumps(tr) + "\n")
        files[p][1].write(json.dumps(errs) + "\n")
        count += 1
    out = []
    for p, (a, b) in files.items():
        a.close()
        b.close()
        faults, done, st, gen = judge(a.name, p, scratch)
        out.append((a.name, faults, done, st, gen, b.name))
    return count, out
