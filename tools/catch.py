"""Which checks catch which planted changes: runs the check of each change's property (or the given ones) on a scratch
copy of /repo with the change.

usage: catch.py OUT.ndjson [id ...]      (CHECKS=C01,C02 for other checks than that of the property)
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def one(sid, pid, tree):
    ev = tempfile.mkdtemp(prefix="catch_")
    try:
        r = subprocess.run([sys.executable, f"{VERIF}/harness/check.py", pid], env=dict(os.environ, VERIF_REPO=tree, VERIF_EVIDENCE=ev),
                           capture_output=True, text=True, timeout=1500)
        hit = r.returncode == 1 and f"VIOLATION property={pid} " in r.stdout
        lines = [x for x in r.stdout.splitlines() if x.startswith("  ")]
        return {"seed": sid, "check": pid, "caught": hit, "rc": r.returncode, "first": lines[0].strip()[:160] if lines else r.stdout[-300:] + r.stderr[-300:]}
    except subprocess.TimeoutExpired:
        return {"seed": sid, "check": pid, "caught": False, "rc": "timeout", "first": ""}
    finally:
        shutil.rmtree(ev, ignore_errors=True)


def seed(sid):
    d = next(d for d in (f"{VERIF}/seeded/{sid}", f"/tmp/g/adhoc/{sid}") if os.path.exists(d))
    pids = os.environ.get("CHECKS", "").split(",") if os.environ.get("CHECKS") else [json.load(open(d + "/meta.json"))["property"]]
    tree = tempfile.mkdtemp(prefix="catch_repo_")
    try:
        subprocess.run(["cp", "-a", "/repo/.", tree], check=True)
        subprocess.run(["git", "apply", d + "/patch.diff"], cwd=tree, check=True)
        return [one(sid, pid, tree) for pid in pids]
    finally:
        shutil.rmtree(tree, ignore_errors=True)


def main(out, ids):
    ids = ids or sorted(os.listdir(f"{VERIF}/seeded"))
    with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as ex, open(out, "a") as o:
        for rs in ex.map(seed, ids):
            for r in rs:
                o.write(json.dumps(r) + "\n")
                o.flush()
                print(r["seed"], r["check"], "caught" if r["caught"] else "MISSED", r["rc"], r["first"][:120], flush=True)


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2:])
