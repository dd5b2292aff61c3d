"""Writes the 'fixed:' entries of known-findings.txt from the fix commits of /repo."""
import json
import subprocess
PROPS = {
 "stacked operators applied to stacks of arrays": ("C17", "a stacked operator times a stack of 2-d arrays returned None instead of being rejected"),
 "zeros_like keeps": ("C05", "zeros_like of a masked array lost the mask"),
 "dot and norm of replicated": ("C18", "dot/norm of replicated arrays reduced over the world instead of the array's communicator, and ignored the mask"),
 "infinity norms": ("C04", "norm(inf)/norm(-inf) raised when a process held no element"),
 "sums and products of a real and a complex": ("C03", "real array + or * complex array or scalar lost the imaginary part"),
 "complex scalings": ("C11", "complex multiples, sums and powers of real operators lost the imaginary part"),
 "powers of stacked": ("C13", "powers of stacked operators raised"),
 "differences and scaled sums": ("C13", "A - B and scaled sums of stacked operators raised"),
 "CGLS damps": ("C15", "CGLS damped by damp at the start and damp**2 later; r1norm was not the residual norm"),
 "slices of size 1": ("C17", "MPIFredholm1 raised only on the processes holding one slice, the others hung"),
 "kernels of a single": ("C10", "MPIFredholm1 with kernels of one row or column squeezed away an axis"),
 "stay on their communicator": ("C18", "results of operations moved to MPI.COMM_WORLD"),
 "wrong local shapes": ("C17", "inconsistent local shapes raised only on some processes"),
 "operands of different shapes": ("C17", "operands with different local shapes raised only on some processes"),
 "ghost cells which a rank": ("C17", "asking for more ghost cells than a process has raised on that process only, the others hung"),
 "adjoint of the forward": ("C09", "the adjoint of forward derivatives was wrong when the last process had fewer rows than the stencil"),
 "derivatives with edge=True": ("C17", "edge=True with too few rows raised only on some processes"),
 "norms of fractional": ("C04", "norms of fractional order of negative elements were NaN"),
 "element type of the operators": ("C08", "the element type of a stack of operators was that of the process's own operators"),
 "without an operator at some": ("C17", "an empty operator list on one process raised there only"),
 "fifth-order edge": ("C09", "the fifth-order edge stencil on three rows was accepted with a wrong adjoint"),
 "components of different sizes": ("C17", "CG/CGLS with show=True raised on rank 0 only for stacked models with components of different sizes"),
 "rejected in-place sums": ("C17", "a rejected in-place sum of stacked arrays had already changed the first components"),
 "given to a stacked block-diagonal": ("C17", "an array given to a stacked block-diagonal operator was rejected only by the processes holding a part of it"),
 "too short or negative": ("C17", "a mask that was too short or had a negative entry was rejected on some processes only, the others hung"),
 "empty first piece": ("C17", "CG/CGLS with show=True raised on rank 0 only when rank 0 held no element of the model"),
}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
out = ["# Genuine defects found by the checks.  Lines 'fixed:' suppress nothing; open findings would be JSON objects",
       "# {\"property\", \"status\": \"open\", \"what\", \"signature\"} matched against the fault's clause and request."]
for line in log:
    h, s = line.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    k = [v for k, v in PROPS.items() if k in s]
    assert len(k) == 1, (s, k)
    out.append(f"fixed: property={k[0][0]} {h} {k[0][1]}")
WHAT = ("{c} on masked arrays gets stuck when the groups of the mask stop after different numbers of iterations: the loop of the solver "
        "ends per group, but applying the operator and making arrays are collective on the whole communicator")
for pid, ops in (("C14", ["cg"]), ("C15", ["cgls"]), ("C05", ["cg", "cgls"]), ("C16", ["cg", "cgls"]), ("C18", ["cg", "cgls"])):
    for o in ops:
        out.append(json.dumps({"property": pid, "status": "open", "what": WHAT.format(c=o.upper()),
                               "signature": {"op": o, "clause": ["dead", "comm"], "detail": "groups"}}))
open("/verif/known-findings.txt", "w").write("\n".join(out) + "\n")
