"""C17: the collocation adapter hands scipy the user's problem and returns its answer."""
import copy

import numpy as np
from scipy.optimize import OptimizeResult

from bsym.core import SymBool, lift, z3
from bsym.ocp import vec

TERMINATION_MESSAGES = {0: 'The algorithm converged to the desired accuracy.', 1: 'The maximum number of mesh nodes is exceeded.',
                        2: 'A singular Jacobian encountered when solving the collocation system.',
                        3: 'The solver was unable to satisfy boundary conditions tolerance on iteration 10.'}

BOUNDS = ('1-3 states, 0-2 quadratures, 0-2 parameters, 0-2 multipliers, meshes of 2-4 nodes, with and without analytical Jacobians; rates, quadrature rates, residuals and Jacobians are arbitrary functions '
          '(a fresh unknown per evaluation point); the collocation solver returns an arbitrary mesh, solution, parameters and status')
ASSUMPTIONS = ['the collocation solver keeps its documented interface: fun(x, y[, p]), bc(ya, yb[, p]), fun_jac, bc_jac, result fields x, y, p, success, message, rms_residuals, niter']

FIELDS = ('t', 'y', 'q', 'u', 'dual', 'dynamical_parameters', 'nondynamical_parameters', 'const')


class Problem:
    """arbitrary functions: one fresh unknown per (function, arguments) pair."""

    def __init__(self, ctx, ny, nq, npar, nnu):
        self.ctx, self.memo, self.ny, self.nq, self.np, self.nn = ctx, [], ny, nq, npar, nnu

    def val(self, kind, args, shape):
        flat = []
        for a in args:
            flat += [x for x in np.asarray(a).reshape(-1)]
        self.ctx.check(kind + ' called with the right sizes', [np.size(a) for a in args] == self.sizes(kind), '%r' % [np.size(a) for a in args])
        for k, a, v in self.memo:
            if k == kind and len(a) == len(flat) and all(self.same(x, y) for x, y in zip(a, flat)):
                return v.copy()
        v = np.empty(shape, dtype=float if self.ctx.concrete else object)
        for i in np.ndindex(*shape):
            v[i] = self.ctx.real('%s%d_%s' % (kind, len(self.memo), '_'.join(map(str, i))))
        if not self.ctx.concrete:
            for k, a, w in self.memo:      # points for re-runs: arguments treated as different are different
                if k == kind and len(a) == len(flat):
                    self.ctx.prefer(SymBool(z3.Or(*[lift(x) != lift(y) for x, y in zip(a, flat)])))
        self.memo.append((kind, flat, v))
        return v.copy()

    def same(self, x, y):
        if self.ctx.concrete:
            return abs(x - y) <= 1e-12 * (1 + abs(x))
        return x is y or (hasattr(x, 'z') and hasattr(y, 'z') and x.z.eq(y.z)) or (not hasattr(x, 'z') and not hasattr(y, 'z') and x == y)

    def sizes(self, kind):
        r = [self.ny, self.np, 1]
        b = [self.ny] + [self.nq] * bool(self.nq) + [self.ny] + [self.nq] * bool(self.nq) + [self.np, self.nn, 1]
        return b if kind.startswith('bc') else r

    @property
    def nbc(self):
        return self.ny + self.nq + self.np + self.nn

    def rate(self, y, p, k):
        return self.val('rate', (y, p, k), (self.ny,))

    def qrate(self, y, p, k):
        return self.val('qrate', (y, p, k), (self.nq,))

    def bc(self, *a):
        return self.val('bc', a, (self.nbc,))

    def fjac(self, y, p, k):
        v = self.val('fjac', (y, p, k), (self.ny, self.ny + self.np))
        return v[:, :self.ny], v[:, self.ny:]

    def bcjac(self, *a):
        n = self.ny
        v = self.val('bcjac', a, (self.nbc, 2 * n + self.np + self.nn + 2 * self.nq))
        out = (v[:, :n], v[:, n:2 * n], v[:, 2 * n:2 * n + self.np + self.nn])
        return out + ((v[:, v.shape[1] - 2 * self.nq:v.shape[1] - self.nq], v[:, v.shape[1] - self.nq:]) if self.nq else ())


def A(x):
    return np.array(x, dtype=object)


def setters(a, P, jac):
    a.set_derivative_function(P.rate)
    a.set_quadrature_function(P.qrate if P.nq else None)
    a.set_boundarycondition_function(P.bc)
    a.set_derivative_jacobian(P.fjac if jac else None)
    a.set_boundarycondition_jacobian(P.bcjac if jac else None)


class replaced:
    """another collocation routine in place of scipy's"""

    def __init__(self, mod, f):
        import scipy.integrate
        self.f, self.saved = f, [(m, m.solve_bvp) for m in (mod, scipy.integrate) if hasattr(m, 'solve_bvp')]

    def __enter__(self):
        for m, _ in self.saved:
            m.solve_bvp = self.f

    def __exit__(self, *a):
        for m, f in self.saved:
            m.solve_bvp = f


def adapter(ctx, ny, nq, npar, nnu, nodes=2, out=3, jac=False, max_nodes=None, reuse=False):
    import sys
    from beluga.numeric.bvp_solvers import SPBVP
    from beluga.numeric.data_classes.Trajectory import Trajectory
    mod = sys.modules[SPBVP.__module__]
    P = Problem(ctx, ny, nq, npar, nnu)
    dt = float if ctx.concrete else object
    g = Trajectory(np.linspace(0, 1, nodes), np.array([[ctx.real('g%d_%d' % (i, j)) for j in range(ny)] for i in range(nodes)], dtype=dt))
    if nq:
        g.q = np.array([[ctx.real('gq%d_%d' % (i, j)) for j in range(nq)] for i in range(nodes)], dtype=dt)
    g.dynamical_parameters = vec(ctx, [ctx.real('gp%d' % i) for i in range(npar)])
    g.nondynamical_parameters = vec(ctx, [ctx.real('gn%d' % i) for i in range(nnu)])
    g.const = vec(ctx, [ctx.real('k')])
    before = {f: copy.deepcopy(getattr(g, f)) for f in FIELDS}
    k = before['const']
    ans = {}
    n, npp = ny + nq, npar + nnu

    def solve_bvp(fun, bc, x, y, p=None, S=None, fun_jac=None, bc_jac=None, tol=1e-3, max_nodes=1000, verbose=0, bc_tol=None):
        ans['called'] = ans.get('called', 0) + 1
        ans['max_nodes'] = max_nodes
        ctx.check('no singular term', S is None)
        # the starting point is the guess
        ctx.eq('mesh of the guess', A(x), A(before['t']))
        want = np.hstack((before['y'], before['q'])) if nq else before['y']
        ctx.check('shape of the starting states', np.shape(y) == (n, nodes), '%r' % (np.shape(y),))
        ctx.eq('starting states', A(y).T, A(want))
        p = np.zeros(0) if p is None else np.asarray(p)
        ctx.check('number of unknown parameters', np.shape(p) == (npp,), '%r' % (np.shape(p),))
        if npp:
            ctx.eq('starting parameters', A(p), A(list(before['dynamical_parameters']) + list(before['nondynamical_parameters'])))
        # the functions, at an arbitrary mesh, states and parameters
        m = 3
        X = np.linspace(0, 1, m)
        Y = np.array([[ctx.real('Y%d_%d' % (i, j)) for j in range(m)] for i in range(n)], dtype=dt)
        pp = vec(ctx, [ctx.real('P%d' % i) for i in range(npp)])
        extra = (pp,) if npp else ()
        dp, dn = pp[:npar], pp[npar:]
        F = fun(X, Y.copy(), *extra)
        ctx.check('shape of the rates', np.shape(F) == (n, m), '%r' % (np.shape(F),))
        for j in range(m):
            w = list(P.rate(Y[:ny, j], dp, k)) + (list(P.qrate(Y[:ny, j], dp, k)) if nq else [])
            ctx.eq('rates at a node', A(F[:, j]), A(w))

        def ends(a, b):
            return (a[:ny],) + ((a[ny:],) if nq else ()) + (b[:ny],) + ((b[ny:],) if nq else ()) + (dp, dn, k)
        ya, yb = Y[:, 0], Y[:, -1]
        ctx.eq('boundary residuals', A(bc(ya.copy(), yb.copy(), *extra)), A(P.bc(*ends(ya, yb))))
        ctx.check('Jacobian of the residuals handed over exactly when there is one', (bc_jac is not None) == bool(jac))
        if not jac:
            ctx.check('no Jacobian of the rates when there is none', fun_jac is None)
        if fun_jac is not None:
            r = fun_jac(X, Y.copy(), *extra)
            dy, dpar = r if npp else (r, None)
            ctx.check('shape of the rate Jacobian', np.shape(dy) == (n, n, m), '%r' % (np.shape(dy),))
            for j in range(m):
                w = P.fjac(Y[:ny, j], dp, k)
                ctx.eq('rate Jacobian in the states', A(dy[:, :, j]), A(w[0]))
                if npp:
                    ctx.eq('rate Jacobian in the parameters', A(dpar[:, :, j]), A(np.hstack((w[1], np.zeros((ny, nnu))))))
        if bc_jac is not None:
            r = bc_jac(ya.copy(), yb.copy(), *extra)
            ctx.check('number of residual Jacobians', len(r) == (3 if npp else 2))
            w = P.bcjac(*ends(ya, yb))
            ctx.eq('residual Jacobian in the initial point', A(r[0]), A(np.hstack((w[0], w[3])) if nq else w[0]))
            ctx.eq('residual Jacobian in the terminal point', A(r[1]), A(np.hstack((w[1], w[4])) if nq else w[1]))
            if npp:
                ctx.eq('residual Jacobian in the parameters', A(r[2]), A(w[2]))
        ok = ctx.flag('success')
        rx = vec(ctx, [ctx.real('rx%d' % i) for i in range(out)])
        ry = np.array([[ctx.real('ry%d_%d' % (i, j)) for j in range(out)] for i in range(n)], dtype=dt)
        rp = vec(ctx, [ctx.real('rp%d' % i) for i in range(npp)]) if npp else None
        ans.update(x=rx, y=ry, p=rp, success=ok)
        # every way scipy's solver can end: 0 converged, 1 too many nodes, 2 singular Jacobian, 3 boundary conditions not met
        status = 0 if ok else 1 if ctx.flag('too many nodes') else 2 if ctx.flag('singular') else 3
        rms = [ctx.real('rms%d' % i) for i in range(out - 1)]
        for r in rms:
            ctx.assume(r >= 0)
        return OptimizeResult(x=rx.copy(), y=ry.copy(), p=rp.copy() if npp else None, success=ok, message=TERMINATION_MESSAGES[status],
                              rms_residuals=vec(ctx, rms), niter=4, status=status, sol=None, yp=np.zeros((n, out)))

    a = SPBVP(**({'max_nodes': max_nodes} if max_nodes else {}))
    if reuse:      # the same object solved something else before, with the other kind of Jacobians
        O = Problem(ctx, ny + 1, 0 if nq else 1, 1, 0)
        o = Trajectory(np.linspace(0, 1, 2), np.zeros((2, ny + 1)))
        if not nq:
            o.q = np.zeros((2, 1))
        o.dynamical_parameters = np.zeros(1)
        o.const = np.zeros(1)
        setters(a, O, not jac)

        def other(fun, bc, x, y, p=None, **kw):
            fun(x, y, p)
            bc(y[:, 0], y[:, -1], p)
            return OptimizeResult(x=x, y=y, p=p, success=True, message='', rms_residuals=np.zeros(1), niter=1, status=0, sol=None, yp=None)
        with replaced(mod, other):
            a.solve(o)
    setters(a, P, jac)
    with replaced(mod, solve_bvp):
        res = a.solve(g)
    for f in FIELDS:
        if np.size(before[f]):
            ctx.eq('guess kept: ' + f, A(getattr(g, f)), A(before[f]))
        else:
            ctx.check('guess kept: ' + f, np.size(getattr(g, f)) == 0)
    ctx.check('solver called once', ans.get('called') == 1)
    if max_nodes:
        ctx.check('mesh limit passed on', ans['max_nodes'] == max_nodes)
    s = res['sol']
    ctx.eq('returned mesh', A(s.t), A(ans['x']))
    ctx.check('shape of returned states', np.shape(s.y) == (out, ny), '%r' % (np.shape(s.y),))
    ctx.eq('returned states', A(s.y), A(ans['y'][:ny].T))
    ctx.check('number of returned quadratures', np.size(s.q) == out * nq)
    if nq:
        ctx.eq('returned quadratures', A(s.q), A(ans['y'][ny:].T))
    ctx.check('number of returned parameters', np.size(s.dynamical_parameters) == npar and np.size(s.nondynamical_parameters) == nnu)
    if npar:
        ctx.eq('returned parameters', A(s.dynamical_parameters), A(ans['p'][:npar]))
    if nnu:
        ctx.eq('returned multipliers', A(s.nondynamical_parameters), A(ans['p'][npar:]))
    ctx.eq('returned constants', A(s.const), A(k))
    ctx.check('reported success', bool(res['success']) == bool(ans['success']))
    ctx.check('convergence flag', bool(s.converged) == bool(ans['success']))


def T(id, *a, **k):
    return dict(id=id, fn='adapter', cfg=dict(ny=a[0], nq=a[1], npar=a[2], nnu=a[3], **k), nwit=2, tries=3)


def tasks(tier):
    out = []
    for jac in (False, True):
        j = '-jac' if jac else ''
        out += [T('plain' + j, 2, 0, 0, 0, jac=jac), T('par' + j, 2, 0, 1, 0, jac=jac), T('nu' + j, 2, 0, 0, 2, jac=jac), T('both' + j, 2, 0, 2, 1, jac=jac, nodes=3), T('one' + j, 1, 0, 1, 1, jac=jac), T('one-bare' + j, 1, 0, 0, 0, jac=jac),
                T('q' + j, 2, 1, 1, 1, jac=jac), T('q2' + j, 1, 2, 1, 2, jac=jac, nodes=3), T('q-bare' + j, 1, 1, 0, 0, jac=jac), T('max' + j, 2, 0, 1, 1, jac=jac, max_nodes=77), T('reuse' + j, 2, 0, 1, 1, jac=jac, reuse=True), T('reuse-q' + j, 1, 1, 0, 1, jac=jac, reuse=True)]
        if tier == 'thorough':
            out += [T('big' + j, 4, 0, 3, 3, jac=jac, nodes=5, out=6), T('bigq' + j, 3, 3, 2, 3, jac=jac, nodes=4, out=5), T('out1' + j, 3, 1, 1, 1, jac=jac, out=2)]
    return out
