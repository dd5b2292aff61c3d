"""Runs programs under a real mpiexec: every process writes its records, one line per program.

usage: mpiexec -n N python realrun.py JOB.json OUTDIR     (PYTHONPATH: harness, /repo)
Items of the job are run one after another (see fakerun.py).  A process that gets stuck is noticed from outside, by
the lack of progress.
"""
import json
import os
import sys

import groups
import interp
from mpi4py import MPI


class Out(list):
    """Record list that is written out as it grows, so that a stuck process leaves what it did."""

    def __init__(self, f, item):
        super().__init__()
        self.f, self.item = f, item

    def __setitem__(self, i, x):
        super().__setitem__(i, x)
        self.f.write(json.dumps([self.item, x]) + "\n")
        self.f.flush()


def main(job, outdir):
    sys.stdout = open(os.devnull, "w")  # solvers print
    world = MPI.COMM_WORLD
    comms = {}
    with open(f"{outdir}/rank{world.rank}.ndjson", "a") as f:
        for i, item in job["items"]:
            f.write(json.dumps([i, "begin"]) + "\n")
            f.flush()
            sets = [list(range(item[0]["p"]))] if len(item) == 1 else groups.members([p["p"] for p in item])
            if str(sets) not in comms:
                comms[str(sets)] = groups.split(world, sets)
            comm, g = comms[str(sets)]
            interp.run_program(comm, item[g], Out(f, i))
            world.Barrier()
            f.write(json.dumps([i, "end"]) + "\n")
            f.flush()


if __name__ == "__main__":
    main(json.load(open(sys.argv[1])), sys.argv[2])
