"""Observation of a running FESTIM simulation through its public extension
points: a DerivedQuantity subclass sees every accepted step, a NewtonSolver
subclass (assigned after initialise(), as the user guide documents) sees every
solver call and can script its outcome."""
import contextlib, io, os, sys
import numpy as np
import fenics as f
import festim as F

INT_MAX = 2 ** 31 - 1


def q(x, unit=1e-6):
    """Fixed point: an int TLC can read, or a sentinel for nan/overflow."""
    try:
        x = float(x)
    except Exception:
        return 2000000003
    if not np.isfinite(x):
        return 2000000001
    v = int(round(x / unit))
    if abs(v) >= 2000000000:
        return 2000000002 if v > 0 else -2000000002
    return v


@contextlib.contextmanager
def quiet():
    """FESTIM and FFC print a lot; the worker's stdout is /dev/null already."""
    yield


class Probe(F.DerivedQuantity):
    """A derived quantity that calls back at every accepted step."""

    def __init__(self, callback, field="solute"):
        super().__init__(field)
        self.callback = callback
        self.title = "probe"

    def compute(self):
        r = self.callback()
        return 0.0 if r is None else r


class ScriptedSolver(f.NewtonSolver):
    """Real Newton solver whose reported outcome follows a script."""

    def __init__(self, sim, script, on_try, limit=200):
        super().__init__(f.MPI.comm_world)
        self.sim, self.script, self.on_try = sim, list(script), on_try
        self.limit, self.n = limit, 0
        p = self.parameters
        p["error_on_nonconvergence"] = False
        p["absolute_tolerance"] = 1e-25
        p["relative_tolerance"] = 1e-9
        p["maximum_iterations"] = 6

    def solve(self, problem, x):
        if self.n >= self.limit:
            raise TooLong()
        nb, ok = self.script[self.n] if self.n < len(self.script) else (3, 1)
        self.n += 1
        self.on_try(nb, ok)
        if ok:
            super().solve(problem, x)
        else:
            x[:] = np.full(x.local_size(), np.nan)   # what a diverged Newton leaves behind
        return nb, bool(ok)


class TooLong(Exception):
    pass


def values(u):
    return u.vector().get_local()
