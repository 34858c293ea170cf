"""C16: shooting."""
import copy

import numpy as np

from bsym.core import SymBool, lift, z3
from bsym.ocp import vec
from bsym.stubs import has_sym

BOUNDS = ('1-2 states, 0-1 quadratures, 0-1 parameters, 0-1 multipliers, 1-3 arcs; dynamics (flow over an arc) and boundary residuals are arbitrary functions, guesses of 2 nodes with arbitrary values; '
          'Armijo iterations 1-2 with every line-search outcome and arbitrary search directions; scipy minimise / root / fsolve returning arbitrary points and statuses')
ASSUMPTIONS = ['the flow of the ODE over an arc is a function of its start, parameters and constants (nothing else is assumed about the integrator)',
               'SLSQP reports success only when the summed constraint violation is within its tolerance (scipy contract)',
               'minimisers and fsolve compare the squared residual norm with the tolerance, the other algorithms the norm']


class World:
    """arbitrary but fixed flow, quadrature rates and boundary residuals."""

    def __init__(self, ctx):
        self.ctx, self.memo, self.calls, self.n, self.norms = ctx, [], [], 0, []

    def same(self, a, b):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if self.ctx.concrete:
                if abs(x - y) > 1e-12 * (1 + abs(x)):
                    return False
            else:
                xz, yz = lift(x), lift(y)
                if not xz.eq(yz):
                    d = z3.simplify(xz - yz, som=True)      # linear in every use below: normal form decides
                    if not (z3.is_rational_value(d) and d.as_fraction() == 0):
                        return False
        return True

    def fn(self, kind, args, size):
        args = list(args)
        for k, a, v in self.memo:
            if k == kind and self.same(a, args):
                return list(v)
        v = [self.ctx.real('%s%d_%d' % (kind, self.n, j)) for j in range(size)]
        self.n += 1
        if not self.ctx.concrete:
            for k, a, _ in self.memo:      # points for re-runs: arguments treated as different are different
                if k == kind and len(a) == len(args):
                    self.ctx.prefer(SymBool(z3.Or(*[lift(x) != lift(y) for x, y in zip(a, args)])))
        self.memo.append((kind, args, v))
        return list(v)


W = None
DIM = {}


def rate(y, p, k):
    """enough to tell arguments apart; the flow itself is arbitrary."""
    out = []
    for j in range(len(y)):
        r = k[0] * 7 + y[j] * (j + 2)
        for i in range(len(p)):
            r = r + p[i] * (3 + i)
        out.append(r)
    return np.array(out, dtype=float if W.ctx.concrete else object)


def qrate(y, p, k):
    return np.array([y[0] * 2 + k[0] * 5 + sum(p) for _ in range(DIM['nq'])], dtype=float if W.ctx.concrete else object)


def bc(*args):
    flat = []
    for a in args:
        flat += list(np.asarray(a).reshape(-1))
    ny = DIM['ny'] * 2 + DIM['nq'] * 2
    W.ctx.check('boundary residual called with the right sizes', len(flat) == ny + DIM['np'] + DIM['nn'] + 1, '%d values' % len(flat))
    return np.array(W.fn('bc', flat, DIM['nb']), dtype=float if W.ctx.concrete else object)


def ivp(fun, t_span, y0, **kw):
    """nodes at both ends and the middle; values from the arbitrary flow."""
    y0 = list(np.asarray(y0))
    f0 = list(np.asarray(fun(0.0, np.array(y0, dtype=float if W.ctx.concrete else object))))
    a, b = t_span[0], t_span[-1]
    v = W.fn('flow', [a, b] + y0 + f0, 2 * len(y0))
    n = len(y0)
    W.calls.append((a, b, y0, f0, v))
    r = type('R', (), {})()
    r.t = vec(W.ctx, [a, (a + b) / 2, b])
    r.y = np.array([[y0[j], v[j], v[n + j]] for j in range(n)], dtype=float if W.ctx.concrete else object)
    r.success, r.status, r.message, r.sol = True, 0, '', None
    return r


def norm_of(ctx, r):
    """Euclidean norm; over symbolic values an arbitrary number between the largest entry and the sum
    of the entries' sizes (weaker than the truth, so what is decided holds for the norm as well)."""
    r = list(r)
    if ctx.concrete:
        return float(np.sqrt(sum(float(x) ** 2 for x in r)))
    if len(r) == 1:
        return abs(r[0])
    for a, v in W.norms:
        if W.same(a, r):
            return v
    v = ctx.real('norm%d' % len(W.norms))
    W.norms.append((r, v))
    ctx.assume(v >= 0)
    tot = 0
    for x in r:
        ctx.assume(SymBool(z3.And(v.z >= lift(x), v.z >= -lift(x))))
        tot = tot + z3.If(lift(x) >= 0, lift(x), -lift(x))
    ctx.assume(SymBool(v.z <= tot))
    for x in r[:-1]:
        ctx.prefer(SymBool(lift(x) == 0))
    return v


class environment:
    """the third-party numerical routines the algorithm rests on, replaced by arbitrary outcomes."""

    def __init__(self, ctx, **over):
        self.over = over
        self.ctx = ctx

    def __enter__(self):
        import scipy.integrate
        import scipy.optimize
        from beluga.numeric.bvp_solvers import Shooting as _S
        import sys
        self.mods = [scipy.integrate, scipy.optimize, sys.modules['beluga.numeric.ivp_solvers.ivpsol'], sys.modules[_S.__module__]]
        self.saved = []
        self.over.setdefault('solve_ivp', ivp)
        self.over.setdefault('approx_jacobian', lambda x, f, e, *a: np.eye(len(x)))
        for n, f in self.over.items():
            for m in self.mods:
                if hasattr(m, n):
                    self.saved.append((m, n, getattr(m, n)))
                    setattr(m, n, f)
        ctx = self.ctx
        self.saved.append((np.linalg, 'solve', np.linalg.solve))
        self.saved.append((np.linalg, 'lstsq', np.linalg.lstsq))
        cnt = [0]

        def direction(a, b, *r, **k):
            cnt[0] += 1
            return vec(ctx, [ctx.real('dir%d_%d' % (cnt[0], j)) for j in range(len(b))])
        np.linalg.solve = direction
        np.linalg.lstsq = lambda a, b, *r, **k: (direction(a, b), None, None, None)
        self.saved.append((np.linalg, 'cond', np.linalg.cond))
        np.linalg.cond = lambda *a, **k: 1.0
        if not ctx.concrete:
            real = np.linalg.norm
            self.saved.append((np.linalg, 'norm', real))
            np.linalg.norm = lambda x, ord=None, axis=None, keepdims=False: (
                norm_of(ctx, np.asarray(x).reshape(-1)) if ord in (None, 2) and axis is None and has_sym(np.asarray(x)) else real(x, ord, axis, keepdims))

    def __exit__(self, *a):
        for m, n, f in reversed(self.saved):
            setattr(m, n, f)


def setup(ctx, ny, nq, npar, nnu, arcs):
    global W
    from beluga.numeric.data_classes.Trajectory import Trajectory
    W = World(ctx)
    nb = ny + nq + npar + nnu
    DIM.clear()
    DIM.update(ny=ny, nq=nq, np=npar, nn=nnu, nb=nb)
    dt = float if ctx.concrete else object
    g = Trajectory(np.array([0.0, 1.0]), np.array([[ctx.real('g%d_%d' % (i, j)) for j in range(ny)] for i in range(2)], dtype=dt))
    if nq:
        g.q = np.array([[ctx.real('gq%d_%d' % (i, j)) for j in range(nq)] for i in range(2)], dtype=dt)
    g.dynamical_parameters = vec(ctx, [ctx.real('gp%d' % i) for i in range(npar)])
    g.nondynamical_parameters = vec(ctx, [ctx.real('gn%d' % i) for i in range(nnu)])
    g.const = vec(ctx, [ctx.real('k', 0.5, 2)])
    return g


FIELDS = ('t', 'y', 'q', 'u', 'dynamical_parameters', 'nondynamical_parameters', 'const')


def arcs_of(ctx, sol, arcs, ny):
    """start of each arc and the propagated nodes, taken from the last propagation."""
    return W.calls[-arcs:]


def judge(ctx, g, before, res, arcs, tol, squared=False, exact=True):
    sol = res['sol']
    ny, nq, npar, nnu = DIM['ny'], DIM['nq'], DIM['np'], DIM['nn']
    for f in FIELDS:
        if np.size(before[f]):
            ctx.eq('guess kept: ' + f, np.array(getattr(g, f), dtype=object), np.array(before[f], dtype=object))
    last = W.calls[-arcs:]
    p = list(sol.dynamical_parameters)
    ctx.check('sizes of the parameters', len(p) == npar and len(sol.nondynamical_parameters) == nnu)
    # the returned trajectory is the propagation, over all arcs in order
    T, Y, dq = [], [], []
    for i, (a, b, y0, f0, v) in enumerate(last):
        ctx.eq('arc start time', a, i / arcs)
        ctx.eq('arc end time', b, (i + 1) / arcs)
        ctx.eq('arc propagated with the returned parameters', np.array(f0, dtype=object), np.array(list(rate(y0, p, g.const)), dtype=object))
        nodes = [(a, y0), ((a + b) / 2, v[:ny]), (b, v[ny:])]
        for t, y in nodes[(1 if i else 0):]:
            T.append(t)
            Y.append(y)
    ctx.check('number of nodes', len(sol.t) == len(T) and np.shape(sol.y) == (len(T), ny), '%r %r' % (np.shape(sol.t), np.shape(sol.y)))
    if len(sol.t) == len(T):
        ctx.eq('times', np.array(sol.t), np.array(T, dtype=object))
        ctx.eq('states', np.array(sol.y), np.array(Y, dtype=object))
    Q = None
    if nq:
        from bsym.stubs import simpson_exact
        q = list(np.asarray(sol.q)[0])
        Q = [q]
        for i, (a, b, y0, f0, v) in enumerate(last):
            ts = np.array([a, (a + b) / 2, b], dtype=object)
            r = [qrate(y, p, g.const) for y in (y0, v[:ny], v[ny:])]
            start = Q[-1]
            for m in (2, 3):
                Q.append([start[j] + simpson_exact(np.array([x[j] for x in r[:m]], dtype=object), x=ts[:m]) for j in range(nq)])
        ctx.eq('quadratures', np.array(sol.q), np.array(Q, dtype=object))
    ctx.eq('constants', np.array(sol.const), np.array(before['const']))
    # residual of the returned trajectory
    joins = []
    for i in range(arcs - 1):
        joins += [last[i][4][ny + j] - last[i + 1][2][j] for j in range(ny)]
    y0, yf = last[0][2], last[-1][4][ny:]
    args = list(y0) + (list(Q[0]) if nq else []) + list(yf) + (list(Q[-1]) if nq else []) + p + list(sol.nondynamical_parameters) + list(g.const)
    known = len(W.memo)
    r = joins + W.fn('bc', args, DIM['nb'])
    size = norm_of(ctx, r)
    ok = res['success']
    ctx.check('both flags agree', bool(sol.converged) == bool(ok))
    if squared:
        size = size * size
    if bool(ok):
        ctx.check('reported success means the boundary residual is within the tolerance', len(W.memo) == known, 'the residual of the returned trajectory was never evaluated')
        ctx.le('residual within tolerance', size, tol)
    elif exact:
        ctx.check('residual above the tolerance when success is not reported', size > tol if not ctx.concrete else size > tol * (1 - 1e-6))
    return sol


def snap(g):
    return {f: copy.deepcopy(getattr(g, f)) for f in FIELDS}


def run(ctx, alg, g, pool=None):
    return alg.solve(g, pool=pool)


def armijo(ctx, ny, nq, npar, nnu, arcs, iters=0, pool=False, default=True):
    from beluga.numeric.bvp_solvers import Shooting
    g = setup(ctx, ny, nq, npar, nnu, arcs)
    before = snap(g)
    tol = 0.25
    a = Shooting(num_arcs=arcs, tolerance=tol, max_iterations=iters, max_error=ctx.choice('max_error', [2.0, 1e6]), **({} if default else dict(algorithm='ARMIJO')))
    a.set_derivative_function(rate)
    a.set_quadrature_function(qrate if nq else None)
    a.set_boundarycondition_function(bc)
    with environment(ctx):
        res = run(ctx, a, g, Pool() if pool else None)
    judge(ctx, g, before, res, arcs, tol)


class Pool:
    """a process pool's map, in process."""

    def map(self, f, it):
        return [f(x) for x in it]


def scipy_alg(ctx, name, ny, nq, npar, nnu, arcs, keep=False, reuse=False):
    """minimise / root / fsolve with an arbitrary answer."""
    from beluga.numeric.bvp_solvers import Shooting
    g = setup(ctx, ny, nq, npar, nnu, arcs)
    before = snap(g)
    tol = 0.25
    given = {}

    def answer(x0):
        given['x0'] = list(x0)
        n = len(x0)
        x = vec(ctx, list(x0) if keep else [ctx.real('x%d' % i) for i in range(n)])
        given['x'] = list(x)
        return x

    def result(x, fun, ok):
        r = type('O', (dict,), {'__getattr__': dict.__getitem__})()
        r.update(x=x, fun=fun, success=ok, nit=3, nfev=3, message='')
        return r

    def minimize(fun, x0, args=(), method=None, jac=None, constraints=(), tol=None, options=None, **kw):
        x = answer(x0)
        ok = ctx.flag('success')
        f = fun(x)
        if method in ('SLSQP',) and ok:
            c = constraints if isinstance(constraints, (list, tuple)) else [constraints]
            ctx.check('residuals imposed as constraints', len(c) == 1 and c[0]['type'] == 'eq')
            ctx.assume(sum(abs(v) for v in np.asarray(c[0]['fun'](x)).reshape(-1)) <= tol)
        return result(x, f, ok)

    def root(fun, x0, args=(), method='hybr', jac=None, tol=None, callback=None, options=None):
        x = answer(x0)
        return result(x, np.asarray(fun(x)), ctx.flag('success'))

    def fsolve(fun, x0, *a, **k):
        return answer(x0)

    a = Shooting(num_arcs=arcs, tolerance=tol, algorithm=name)
    if reuse:      # the same object solved something else before
        a.set_derivative_function(lambda y, p, k: np.array([k[0]] * len(y), dtype=float if ctx.concrete else object))
        a.set_quadrature_function((lambda y, p, k: np.array([k[0]] * nq, dtype=float if ctx.concrete else object)) if nq else None)
        a.set_boundarycondition_function(lambda *r: np.array([r[0][0]] * DIM['nb'], dtype=float if ctx.concrete else object))
        o = setup(ctx, ny, nq, npar, nnu, arcs)
        with environment(ctx, minimize=minimize, root=root, fsolve=fsolve):
            run(ctx, a, o)
        W.calls.clear()
    a.set_derivative_function(rate)
    a.set_quadrature_function(qrate if nq else None)
    a.set_boundarycondition_function(bc)
    with environment(ctx, minimize=minimize, root=root, fsolve=fsolve):
        res = run(ctx, a, g)
    kind = 'min' if name[0].isupper() and name not in ('SLSQP',) else name
    sol = judge(ctx, g, before, res, arcs, tol, squared=kind in ('min', 'fsolve'), exact=name == 'fsolve')
    # unknowns are packed and unpacked consistently
    n = len(given['x'])
    ctx.check('number of unknowns', n == arcs * ny + nq + npar + nnu, '%d' % n)
    starts = [c[2] for c in W.calls[-arcs:]]
    got = [v for s in starts for v in s] + (list(np.asarray(sol.q)[0]) if nq else []) + list(sol.dynamical_parameters) + list(sol.nondynamical_parameters)
    ctx.match('every unknown is used exactly once', got, given['x'], signs=False)
    if keep:
        want = []
        for i in range(arcs):
            want += [before['y'][0][j] + (before['y'][1][j] - before['y'][0][j]) * i / arcs for j in range(ny)]
        want += list(before['q'][0]) if nq else []
        want += list(before['dynamical_parameters']) + list(before['nondynamical_parameters'])
        ctx.eq('starting from the guess', np.array(got, dtype=object), np.array(want, dtype=object))


def parallel(ctx, ny, nq, npar, nnu, arcs):
    """same result through a pool as serially, for the same search directions."""
    from beluga.numeric.bvp_solvers import Shooting
    g = setup(ctx, ny, nq, npar, nnu, arcs)
    out = []
    for pool in (None, Pool()):
        a = Shooting(num_arcs=arcs, tolerance=0.25, algorithm='fsolve')
        a.set_derivative_function(rate)
        a.set_quadrature_function(qrate if nq else None)
        a.set_boundarycondition_function(bc)
        n = arcs * ny + nq + npar + nnu
        x = [ctx.real('x%d' % i) for i in range(n)]
        with environment(ctx, fsolve=lambda f, x0, *r, **k: (f(vec(ctx, x)), vec(ctx, x))[1]):
            out.append(run(ctx, a, g, pool))
    s, p = out[0]['sol'], out[1]['sol']
    for f in FIELDS:
        A, B = np.asarray(getattr(s, f)), np.asarray(getattr(p, f))
        if A.size or B.size:
            ctx.eq('pool: ' + f, np.array(B, dtype=object), np.array(A, dtype=object))
    ctx.check('pool: success', bool(out[0]['success']) == bool(out[1]['success']))


def T(id, fn, **cfg):
    return dict(id=id, fn=fn, cfg=cfg, nwit=4, tries=4, max_paths=400)


def tasks(tier):
    A = lambda i, *a, **k: T(i, 'armijo', ny=a[0], nq=a[1], npar=a[2], nnu=a[3], arcs=a[4], **k)
    P = lambda i, n, *a, **k: T(i, 'scipy_alg', name=n, ny=a[0], nq=a[1], npar=a[2], nnu=a[3], arcs=a[4], **k)
    out = [A('armijo-1', 1, 0, 0, 0, 1, iters=1), A('armijo-2', 2, 0, 1, 1, 1), A('armijo-arcs', 1, 0, 1, 1, 2), A('armijo-arcs3', 1, 0, 0, 0, 3), A('armijo-q', 1, 1, 1, 0, 1), A('armijo-qarcs', 1, 1, 0, 1, 2),
           A('armijo-pool', 1, 1, 1, 1, 2, pool=True), A('armijo-case', 1, 0, 0, 0, 1, default=False)]
    for n in ('SLSQP', 'hybr', 'fsolve', 'Nelder-Mead', 'lm'):
        out += [P('%s-1' % n, n, 1, 0, 1, 1, 1), P('%s-2' % n, n, 2, 0, 1, 1, 2)]
    out += [P('SLSQP-q', 'SLSQP', 1, 1, 1, 1, 2), P('hybr-one', 'hybr', 1, 0, 0, 0, 1), P('fsolve-q', 'fsolve', 2, 1, 1, 2, 2), P('fsolve-keep', 'fsolve', 2, 0, 1, 1, 3, keep=True), P('SLSQP-keep', 'SLSQP', 1, 1, 2, 1, 2, keep=True),
            P('fsolve-reuse', 'fsolve', 1, 0, 1, 1, 2, keep=True, reuse=True), P('hybr-reuse', 'hybr', 1, 1, 0, 1, 1, keep=True, reuse=True)]
    out += [T('parallel-%d%d' % (q, a), 'parallel', ny=2, nq=q, npar=1, nnu=1, arcs=a) for q in (0, 1) for a in (1, 3)]
    if tier == 'thorough':
        out += [A('armijo-1-3', 1, 0, 0, 0, 1, iters=2), A('armijo-2-2', 2, 0, 1, 1, 2, iters=1), A('armijo-q-2', 1, 1, 1, 1, 3, iters=1)]
        out += [P('%s-big' % n, n, 3, 1, 2, 2, 4) for n in ('SLSQP', 'hybr', 'fsolve', 'Powell', 'broyden1')]
    return out
