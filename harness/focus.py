"""Which faults of which requests belong to which property."""
RESULT = {"accepted", "refused", "malformed", "kind", "layout", "value", "dtype", "shape", "extra", "ret"}
STUCK = {"dead", "comm", "mixed"}
BLOCKS = {"bdiag", "vstack", "hstack"}
DERIVS = {"deriv1", "deriv2", "lapl", "grad"}
ALGEBRA = {"H", "T", "Cj", "scale", "negop", "sum", "subop", "prod", "pow"}
APPLY = {"mv", "rmv"}
ARITH = {"neg", "conj", "copy", "zeros", "add", "sub", "mul", "smul", "iadd", "isub"}

# property -> requests whose results it is about
OPS = {
    "C01": {"dist", "new", "asarray", "shapes", "ravel"},
    "C02": {"dist", "new", "set", "asarray", "add", "sub", "mul", "neg", "conj", "copy", "zeros", "iadd", "isub"},
    "C03": ARITH,
    "C04": {"dot", "norm"},
    "C05": ARITH | {"dot", "norm", "ravel", "dist", "new", "mv", "rmv", "cg", "cgls"},
    "C06": {"ghost"},
    "C07": APPLY,
    "C08": APPLY | BLOCKS,
    "C09": APPLY | DERIVS,
    "C10": APPLY | {"fred"},
    "C11": APPLY | ALGEBRA | {"wrap"},
    "C12": APPLY | {"dottest"},
    "C13": ARITH | APPLY | ALGEBRA | {"dot", "norm", "asarray", "stk", "setk", "svstack", "sbdiag", "grad"},
    "C14": {"cg"},
    "C15": {"cgls"},
    "C20": APPLY | {"mdc"},
}


def refs(q):
    """Heap indices a request refers to."""
    out = [q[f] for f in ("x", "y", "a", "b", "u", "w", "x0") if isinstance(q.get(f), int)]
    for f in ("xs", "as"):
        out += q.get(f, [])
    return out


CREATING = {"dist", "new", "neg", "conj", "copy", "zeros", "add", "sub", "mul", "smul", "ravel", "stk",
            "bdiag", "vstack", "hstack", "deriv1", "deriv2", "lapl", "grad", "fred", "mdc", "wrap",
            "H", "T", "Cj", "scale", "negop", "sum", "subop", "prod", "pow", "svstack", "sbdiag", "mv", "rmv"}
MUTATING = {"set", "setk", "iadd", "isub"}


def objects(steps):
    """Heap index -> number of the step that creates it."""
    made, n = {}, 0
    for k, q in enumerate(steps):
        if q["op"] in CREATING:
            n += 1
            made[n] = k
    return made


def lineage(steps, k):
    """Steps that the k-th request (0-based) depends on, itself included, in order."""
    made = objects(steps)
    need, todo = {k}, [k]
    while todo:
        j = todo.pop()
        q = steps[j]
        own = [i for i, s in made.items() if s == j]
        for i in refs(q) + own:
            if made[i] not in need and made[i] < k:
                need.add(made[i])
                todo.append(made[i])
            for m in range(made[i] + 1, k):  # assignments to what it depends on
                if steps[m]["op"] in MUTATING and steps[m]["x"] == i and m not in need:
                    need.add(m)
                    todo.append(m)
    return sorted(need)


def program(steps, keep):
    """The program of the kept steps alone, with references renumbered."""
    made = objects(steps)
    new, n = {}, 0
    for i in sorted(made):
        if made[i] in keep:
            n += 1
            new[i] = n
    out = []
    for k in keep:
        q = dict(steps[k])
        for f in ("x", "y", "a", "b", "u", "w", "x0"):
            if isinstance(q.get(f), int):
                q[f] = new[q[f]]
        for f in ("xs", "as"):
            if f in q:
                q[f] = [new[i] for i in q[f]]
        out.append(q)
    return out


def ancestors(fault):
    steps = [s["q"] for s in fault["trace"]["steps"]]
    return [steps[k] for k in lineage(steps, fault["step"] - 1)] if fault["step"] <= len(steps) else []


def about(pid, fault):
    """Is this fault (possibly) a violation of the property?  C18 and C19 take a second look (see check.py)."""
    c, op, d = fault["clause"], fault["op"], fault["d"]
    if pid == "C16":
        return c == "lost" or (c in ("dead", "comm") and d == "must" and not raised(fault))
    if pid == "C17":
        return c in ("accepted", "mixed", "frame-rejected") or (c in ("dead", "comm") and (d in ("rej", "may") or raised(fault)))
    if pid == "C18":
        return True
    if pid == "C19":
        return c in ("frame", "frame-rejected", "alias") or (c in RESULT - {"accepted", "shape"} and op != "end")
    if op not in OPS[pid]:
        return False
    if c in STUCK:
        return d != "rej"
    if c in ("frame", "alias"):
        return pid in ("C06", "C14", "C15") and c == "frame"
    if c not in RESULT | {"iterates", "history", "count", "reason", "norms", "disagree"}:
        return False
    anc = ancestors(fault)
    if pid == "C05":
        return any(q.get("mask") for q in anc)
    if pid == "C02":
        return any(q.get("part") in ("B", "U") for q in anc)
    if pid == "C13" and op in ARITH | {"dot", "norm", "asarray"}:
        return any(q["op"] in ("stk", "svstack", "sbdiag", "grad") for q in anc)
    if pid == "C13" and op in APPLY | ALGEBRA:
        return any(q["op"] in ("svstack", "sbdiag", "grad") for q in anc)
    if pid in ("C08", "C09", "C10", "C20") and op in APPLY:
        return any(q["op"] in OPS[pid] - APPLY for q in anc)
    return True


def raised(fault):
    """Did some process raise where another got stuck?"""
    return any("elsewhere" in e and "'exc'" in e for e in fault["errs"])
