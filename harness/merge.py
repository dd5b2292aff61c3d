"""Joins the records of the processes into one trace for spec/Trace.tla."""


def merge_arr(snaps):
    """One array from the snapshots of all processes, or why there is none."""
    def bad(why):
        return {"k": "bad", "why": why}
    if any(s["k"] != "arr" for s in snaps):
        return bad("not an array on some process")
    s0 = snaps[0]
    for f in ("g", "part", "ax", "mask", "dt"):
        if any(s[f] != s0[f] for s in snaps):
            return bad(f"processes disagree about {f}")
    if not all(s["own"] for s in snaps):
        return bad("wrong communicator")
    ax, g = s0["ax"], s0["g"]
    if not 0 <= ax < len(g):
        return bad("axis out of range")
    for s in snaps:
        if s["decl"] != s["lsh"]:
            return bad("declared local shape differs from the local array")
        if s["dt"] != s["dtattr"]:
            return bad("declared element type differs from the local array")
        if len(s["lsh"]) != len(g) or any(a != b for i, (a, b) in enumerate(zip(s["lsh"], g)) if i != ax):
            return bad("local shape does not fit the global shape")
    if (sum(s["lsh"][ax] for s in snaps) != g[ax]) if s0["part"] == "S" else any(s["lsh"][ax] != g[ax] for s in snaps):
        return bad("pieces do not make up the global shape")
    return {"k": "arr", "g": g, "part": s0["part"], "ax": ax, "sz": [s["lsh"][ax] for s in snaps], "mask": s0["mask"],
            "dt": s0["dt"], "v": [s["v"] for s in snaps]}


def merge_obj(snaps):
    ks = {s["k"] for s in snaps}
    if len(ks) > 1:
        return {"k": "bad", "why": "different things on different processes"}
    k = ks.pop()
    if k == "none":
        return {"k": "none"}
    if k == "op":
        if len({(s["rows"], s["cols"]) for s in snaps}) > 1:
            return {"k": "bad", "why": "processes disagree about the shape of an operator"}
        return {"k": "op", "rows": snaps[0]["rows"], "cols": snaps[0]["cols"], "stk": snaps[0]["stk"],
                "data": [s["data"] for s in snaps]}
    if k == "stk":
        if len({len(s["a"]) for s in snaps}) > 1:
            return {"k": "bad", "why": "processes disagree about the number of components"}
        parts = [merge_arr([s["a"][i] for s in snaps]) for i in range(len(snaps[0]["a"]))]
        for p in parts:
            if p["k"] == "bad":
                return p
        return {"k": "stk", "a": parts}
    return merge_arr(snaps)


def merge(prog, recs, left, run):
    """recs[r] is the list of step records of process r (shorter, or ending in None, when it got stuck)."""
    P = prog["p"]
    latest = [dict() for _ in range(P)]
    steps, errs = [], []
    for k, q in enumerate(prog["steps"]):
        now = [r[k] if k < len(r) else None for r in recs]
        if any(s is None for s in now):
            done = sorted({s["st"] for s in now if s is not None})
            steps.append({"q": q, "st": "dead", "ret": [], "chg": [], "alias": [], "spoiled": False})
            errs.append([f"stuck; elsewhere {done}"] + [s.get("err", "") for s in now if s])
            break
        sts = [s["st"] for s in now]
        if "comm" in sts:
            st = "comm"
        elif all(s == "ok" for s in sts):
            st = "ok"
        elif all(s == "exc" for s in sts):
            st = "exc"
        else:
            st = "mixed"
        errs.append([s.get("err", "") for s in now])
        idx = sorted({i for s in now for i, _ in s["chg"]})
        for r, s in enumerate(now):
            for i, o in s["chg"]:
                latest[r][i] = o
        chg = []
        for i in idx:
            if all(i in latest[r] for r in range(P)):
                chg.append({"i": i, "o": merge_obj([latest[r][i] for r in range(P)])})
            elif st in ("ok", "exc"):
                chg.append({"i": i, "o": {"k": "bad", "why": "exists on some processes only"}})
        alias = sorted({tuple(a) for s in now for a in s["alias"]})
        ret = [] if any(s["ret"] is None for s in now) else [s["ret"] for s in now]
        steps.append({"q": q, "st": st, "ret": ret, "chg": chg, "alias": [list(a) for a in alias],
                      "spoiled": any(s["spoiled"] for s in now)})
        if st in ("mixed", "comm"):
            break
    return {"id": prog["id"], "p": P, "run": run, "left": left, "steps": steps}, errs
