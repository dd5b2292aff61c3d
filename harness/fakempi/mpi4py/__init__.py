"""Deterministic in-process stand-in for mpi4py (see MPI.py)."""
__version__ = "4.0.0"
from . import MPI  # noqa
