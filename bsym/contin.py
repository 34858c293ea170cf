"""Continuation harness: the real driver and step objects around a stand-in BVP solver whose outcomes are inputs."""
import copy

import numpy as np

from .ocp import vec


class Functions:
    """compiled functions of a problem; only the boundary residual is ever evaluated by the driver."""

    def __init__(self):
        self.bc_func = lambda *a: np.zeros(1)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return None


def problem(consts):
    import beluga
    p = beluga.Problem('prob')
    for c in consts:
        p.constant(c, 1, '1')
    p.functional_problem = Functions()
    return p


def algorithm(outcome):
    """solve(): records the guess; returns it with a new tag and the outcome of that call."""
    from beluga.numeric.bvp_solvers.BaseAlgorithm import BaseAlgorithm, BVPResult

    class Alg(BaseAlgorithm):
        def __init__(self):
            BaseAlgorithm.__init__(self)
            self.given, self.consts, self.tags, self.ok = [], [], [], []

        def solve(self, solinit, **kw):
            n = len(self.given)
            self.given.append(copy.deepcopy(solinit))
            self.consts.append(list(solinit.const))
            self.tags.append(int(solinit.y[0, 0]))
            sol = copy.deepcopy(solinit)
            sol.y = np.full((2, 1), float(n + 1))
            sol.converged = bool(outcome(n))
            self.ok.append(sol.converged)
            return BVPResult(sol=sol, niter=1, success=sol.converged, message='')
    return Alg()


def guess(ctx, const, tag=0):
    from beluga.numeric.data_classes.Trajectory import Trajectory
    g = Trajectory(np.array([0., 1.]), np.full((2, 1), float(tag)))
    g.const = vec(ctx, const)
    g.converged = False
    return g


def run(ctx, alg, steps, g, bvp):
    """-> (solution set or None, error or None)"""
    from beluga.continuation.continuation import run_continuation_set
    try:
        return run_continuation_set(alg, steps, g, bvp, None, False), None
    except RuntimeError as e:
        return None, e


def lin(a, b, n):
    return [a + (b - a) * i / (n - 1) for i in range(n)]
