"""Mutation campaign: small changes of the code of pylops_mpi, each executed with programs of the specification.

usage: mutants.py list | mutants.py run OUT.ndjson [every] [offset]
A mutant that shows no fault is either equivalent, outside the contract, or a gap of the checks; these are looked at
by hand (see DESIGN.md).  Works on scratch copies only.
"""
import ast
import concurrent.futures as cf
import copy
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
ARR = ["E01", "E03", "E06", "E04", "E13A", "E02", "E05", "E17", "C06", "C04", "C05", "C02", "E19", "C17", "C18", "EMIX"]
OPS = ["E11", "E13", "E17B", "C13B", "C11", "E12A", "C17", "C18", "E19B", "E12"]
FILES = {
    "DistributedArray.py": ARR,
    "LinearOperator.py": OPS,
    "StackedLinearOperator.py": ["E13", "C13B", "E17B", "C13", "C17", "E17C"],
    "basicoperators/BlockDiag.py": ["E08", "C08", "E13", "C17", "E17B", "C05", "EMIX"],
    "basicoperators/VStack.py": ["E08", "C08", "E13", "C17", "E17B", "EMIX"],
    "basicoperators/HStack.py": ["E08", "C08", "E13", "C17", "E17B", "EMIX"],
    "basicoperators/FirstDerivative.py": ["E09", "C09", "E07", "C17", "C18"],
    "basicoperators/SecondDerivative.py": ["E09", "C09", "E07", "C17", "C18"],
    "basicoperators/Laplacian.py": ["E09", "C09", "C17", "C18"],
    "basicoperators/Gradient.py": ["E09", "C09", "E17B", "C17", "C18"],
    "signalprocessing/Fredholm1.py": ["E10", "C10", "C17", "C18"],
    "waveeqprocessing/MDC.py": ["E20", "C20", "C17", "C18"],
    "optimization/cls_basic.py": ["E14", "E15", "C14", "C15", "E17C", "SOLM"],
    "optimization/basic.py": ["E14", "E15", "C14", "C15", "E17C"],
    "utils/dottest.py": ["E12", "E12A", "C12", "C17"],
    "utils/decorators.py": ["E07", "E09", "C07", "C09", "C17", "E11", "EMIX", "C18"],
}
SKIPFUNCS = {"__repr__", "__str__", "_print_setup", "_print_finalize", "_print_solver", "_print_step", "_repr"}
DROPS = {"mask", "base_comm", "axis", "local_shapes", "partition", "dtype", "engine", "damp", "color", "key", "op"}


def doc(node):
    return isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant) and isinstance(node.value.value, str)


def sites(tree):
    """(description, function that makes the change on a copy given the node's index in ast.walk order)."""
    nodes = list(ast.walk(tree))
    skip = set()
    for n in nodes:
        if isinstance(n, ast.FunctionDef) and n.name in SKIPFUNCS:
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.AnnAssign)):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.FunctionDef):
            for x in n.args.annotations if hasattr(n.args, "annotations") else []:
                skip.add(id(x))
            for a in n.args.args + n.args.kwonlyargs:
                if a.annotation is not None:
                    skip |= {id(x) for x in ast.walk(a.annotation)}
            if n.returns is not None:
                skip |= {id(x) for x in ast.walk(n.returns)}
        if isinstance(n, ast.Raise):
            skip |= {id(x) for x in ast.walk(n)} - {id(n)}
        if isinstance(n, ast.JoinedStr):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "print":
            skip |= {id(x) for x in ast.walk(n)}
    out = []
    for i, n in enumerate(nodes):
        if id(n) in skip:
            continue
        line = getattr(n, "lineno", 0)

        def add(what, f):
            out.append((line, what, i, f))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            alt = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
                   ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
            add(f"{type(n.ops[0]).__name__}->{alt[type(n.ops[0])].__name__}", lambda m, a=alt[type(n.ops[0])]: setattr(m, "ops", [a()]))
        if isinstance(n, (ast.BinOp, ast.AugAssign)):
            alt = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv, ast.Pow: ast.Mult}
            if type(n.op) in alt:
                add(f"{type(n.op).__name__}->{alt[type(n.op)].__name__}", lambda m, a=alt[type(n.op)]: setattr(m, "op", a()))
        if isinstance(n, ast.BoolOp):
            add("and<->or", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And()))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add("drop unary", lambda m: setattr(m, "op", ast.UAdd() if isinstance(m.op, ast.USub) else None))
        if isinstance(n, ast.Constant) and type(n.value) is int:
            add(f"{n.value}->{n.value + 1}", lambda m: setattr(m, "value", m.value + 1))
            if n.value > 0:
                add(f"{n.value}->{n.value - 1}", lambda m: setattr(m, "value", m.value - 1))
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            add(f"{n.value}->{not n.value}", lambda m: setattr(m, "value", not m.value))
        if isinstance(n, ast.Call):
            for k, kw in enumerate(n.keywords):
                if kw.arg in DROPS:
                    add(f"drop {kw.arg}=", lambda m, k=k: m.keywords.pop(k))
        if isinstance(n, ast.Attribute):
            alt = {"sub_comm": "base_comm", "matvec": "rmatvec", "rmatvec": "matvec", "local_shape": "global_shape", "T": "real", "H": "T", "size": "rank", "rank": "size"}
            if n.attr in alt and isinstance(n.ctx, ast.Load):
                add(f".{n.attr}->.{alt[n.attr]}", lambda m, a=alt[n.attr]: setattr(m, "attr", a))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("conj", "conjugate", "copy", "astype") and not isinstance(n.func.value, ast.Name):
            add(f"drop .{n.func.attr}()", lambda m: setattr(m, "__replace__", m.func.value))
        if isinstance(n, (ast.If, ast.IfExp, ast.While)) and not isinstance(n, ast.While):
            add("negate if", lambda m: setattr(m, "test", ast.UnaryOp(op=ast.Not(), operand=m.test)))
        for field in ("body", "orelse"):
            b = getattr(n, field, None)
            if isinstance(b, list):
                for k, st in enumerate(b):
                    if isinstance(st, (ast.Expr, ast.AugAssign, ast.If, ast.Raise)) and not doc(st) and id(st) not in skip:
                        out.append((st.lineno, "drop " + type(st).__name__, i, lambda m, f=field, k=k: getattr(m, f).__setitem__(k, ast.Pass())))
                    if isinstance(st, ast.Assign) and isinstance(st.targets[0], (ast.Subscript,)):
                        out.append((st.lineno, "drop item assignment", i, lambda m, f=field, k=k: getattr(m, f).__setitem__(k, ast.Pass())))
    return out


class Swap(ast.NodeTransformer):
    def visit(self, node):
        node = self.generic_visit(node)
        if hasattr(node, "__replace__"):
            return node.__replace__
        if isinstance(node, ast.UnaryOp) and node.op is None:
            return node.operand
        return node


def mutants():
    for f in FILES:
        src = open(os.path.join(REPO, "pylops_mpi", f)).read()
        tree = ast.parse(src)
        for line, what, i, change in sites(tree):
            t = copy.deepcopy(tree)
            change(list(ast.walk(t))[i])
            t = ast.fix_missing_locations(Swap().visit(t))
            yield {"file": f, "line": line, "what": what, "was": src.splitlines()[line - 1].strip() if line else ""}, ast.unparse(t)


def one(k, m, text, cache):
    d = f"/tmp/mutants/{k}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree(os.path.join(REPO, "pylops_mpi"), d + "/pylops_mpi", ignore=shutil.ignore_patterns("__pycache__"))
    with open(f"{d}/pylops_mpi/{m['file']}", "w") as f:
        f.write(text)
    try:
        r = subprocess.run([sys.executable, os.path.join(HERE, "mutants.py"), "judge", cache, ",".join(FILES[m["file"]])], env=dict(os.environ, VERIF_REPO=d),
                           capture_output=True, text=True, timeout=900)
        try:
            return dict(m, k=k, **json.loads(r.stdout.strip().splitlines()[-1]))
        except (IndexError, ValueError):
            return dict(m, k=k, killed="broken", err=(r.stdout + r.stderr)[-300:])
    except subprocess.TimeoutExpired:
        return dict(m, k=k, killed="timeout")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def judge(cache, profiles):
    """In the scratch copy: run the programs of the profiles until one shows a fault."""
    sys.path.insert(0, os.path.join(HERE, "..", "harness"))
    import tempfile

    import check
    import conformance
    import focus
    scratch = tempfile.mkdtemp(prefix="mut_", dir="/tmp/mutants")
    known = [x for v in check.findings().values() for x in v]
    try:
        for p, n in ((3, 3), (2, 99), (3, 99), (4, 99), (1, 99)):
            progs = [q for profile in profiles.split(",") for q in json.load(open(f"{cache}/{profile}_{p}.json"))[:n]]
            for i, q in enumerate(progs):
                q["id"] = i + 1
            info, judged = conformance.sim_and_judge({"programs": progs, "schedules": 1, "seed": 7}, scratch, f"{n}_{p}")
            res = conformance.Result()
            for j in judged:
                res.collect(*j)
            fs = [f for f in res.faults if not check.match(known, f)]
            if fs:
                pids = sorted({f"C{i:02}" for i in range(1, 21) for f in fs if i != 18 and focus.about(f"C{i:02}", f)})
                f = fs[0]
                print(json.dumps({"killed": f"P={p}", "pids": pids, "n": len(fs), "first": [f["op"], f["clause"], f["d"], f["errs"][:1]]}))
                return
            if "unsupported" in info:
                print(json.dumps({"killed": "unsupported", "first": str(info["unsupported"])}))
                return
        # two groups at once
        for a, b in ((2, 2), (1, 2), (3, 1)):
            A, B = (json.load(open(f"{cache}/E18_{x}.json")) + json.load(open(f"{cache}/C18_{x}.json")) for x in (a, b))
            info, judged = conformance.sim_and_judge({"pairs": [[u, B[(7 * i + 3) % len(B)]] for i, u in enumerate(A)], "schedules": 1, "seed": 7}, scratch, f"{a}g{b}")
            for j in judged:
                for f in j[1]:
                    print(json.dumps({"killed": f"groups {a} {b}", "pids": ["C18"], "first": f}))
                    return
        print(json.dumps({"killed": ""}))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def programs(cache, n=14):
    sys.path.insert(0, os.path.join(HERE, "..", "harness"))
    import conformance
    import tools
    tools.build()
    os.makedirs(cache, exist_ok=True)
    todo = [(f, p) for f in sorted({x for v in FILES.values() for x in v} | {"C18", "E18"}) for p in (1, 2, 3, 4) if not os.path.exists(f"{cache}/{f}_{p}.json")]

    def gen(fp):
        progs, _, _ = conformance.generate(fp[0], fp[1], 48 if fp[0] == "E18" else n, 11, cache)
        json.dump(conformance.ordinary(progs), open(f"{cache}/{fp[0]}_{fp[1]}.json", "w"))
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(gen, todo))


def main():
    if sys.argv[1] == "judge":
        return judge(sys.argv[2], sys.argv[3])
    ms = list(enumerate(mutants()))
    if sys.argv[1] == "list":
        for k, (m, _) in ms:
            print(k, m["file"], m["line"], m["what"], "|", m["was"][:90])
        return
    out, every, off = sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 1, int(sys.argv[4]) if len(sys.argv) > 4 else 0
    cache = "/tmp/mutants/programs"
    programs(cache)
    done = {json.loads(x)["k"] for x in open(out)} if os.path.exists(out) else set()
    with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "7"))) as ex, open(out, "a") as o:
        for f in cf.as_completed([ex.submit(one, k, m, t, cache) for k, (m, t) in ms if k % every == off and k not in done]):
            o.write(json.dumps(f.result()) + "\n")
            o.flush()


if __name__ == "__main__":
    main()
