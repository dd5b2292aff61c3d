"""Writes MANIFEST.json from properties.jsonl."""
import json
PENDING = {}
TRUST = ("Trusts: the specification as the statement of the property, TLC, the MPI simulator where real processes are not used "
         "(every check also runs on real Open MPI processes), and exactness of IEEE arithmetic on the small Gaussian integers used as data.")
LEVEL = {
 "C14": "Bounded: solver runs drawn from the specification are compared step by step with the exact rational recurrence, within 1e-5 relative. ",
 "C15": "Bounded: solver runs drawn from the specification are compared step by step with the exact rational recurrence, within 1e-5 relative. ",
 "C16": "All interleavings of the recorded communication of every explored run are model-checked (rendezvous and buffered sends); the runs themselves are bounded samples. ",
}
M = json.load(open("/verif/MANIFEST.json")) if False else {}
checks, na = [], []
for line in open("/verif/properties.jsonl"):
    d = json.loads(line)
    if d["id"] in PENDING:
        na.append({"property": d["id"], "reason": PENDING[d["id"]]})
        continue
    checks.append({
        "property": d["id"],
        "quick_cmd": f"python3 harness/check.py {d['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 harness/check.py {d['id']}",
        "technique": "TLA+ specification: programs generated by TLC are run by the code on simulated and real MPI, recorded traces are checked against the specification by TLC; design models checked exhaustively",
        "level": "model_checking",
        "level_note": LEVEL.get(d["id"], "Bounded: behaviours drawn from the specification (seeded) are replayed into the code on 1 to 6 processes under several schedules, and each recorded step must be one the specification allows. ") + TRUST,
    })
json.dump({"version": 1, "setup_cmd": "python3 harness/setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the code is observed through its public interface and a stand-in for mpi4py on the import path. "
                    "TLC and Python only; see DESIGN.md."}, open("/verif/MANIFEST.json", "w"), indent=1)
