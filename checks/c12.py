"""C12: quadratures along a propagated trajectory."""
import copy

import numpy as np

from bsym.ocp import vec
from bsym.stubs import simpson_exact

BOUNDS = ('trajectories of 2-5 nodes (7 in the thorough tier) at arbitrary strictly increasing times, 1-2 states, 1-3 quadratures with polynomial rates of arbitrary coefficients, '
          'arbitrary initial values; terminal routine over arbitrary sub-intervals of trajectories of up to 4 nodes')
ASSUMPTIONS = ['the ODE integrator returns some trajectory (its nodes and values are arbitrary)', 'trajectory interpolation is linear']


def times(ctx, n, tag='t'):
    t = [ctx.real('%s%d' % (tag, i)) for i in range(n)]
    for a, b in zip(t, t[1:]):
        ctx.assume(b - a > (1e-3 if ctx.concrete else 0))
        ctx.prefer(b - a > 0.05)
    return t


def path(ctx, n, d):
    y = [[ctx.real('y%d_%d' % (i, j)) for j in range(d)] for i in range(n)]
    a = np.empty((n, d), dtype=float if ctx.concrete else object)
    for i in range(n):
        for j in range(d):
            a[i, j] = y[i][j]
    return y, a


def rates(ctx, d, nq):
    """rate(y, p, k): one quadratic polynomial per quadrature."""
    def f(y, p, k):
        out = []
        for q in range(nq):
            r = k[q]
            for j in range(d):
                r = r + p[0] * y[j] * (q + 1) + (y[j] * y[(j + 1) % d] * k[q] if q else y[j])
            out.append(r)
        return np.array(out, dtype=float if ctx.concrete else object)
    p = vec(ctx, [ctx.real('p')])
    k = vec(ctx, [ctx.real('k%d' % i) for i in range(nq)])
    return f, p, k


def accumulated(f, t, ys, p, k, q0, i):
    """q at node i by composite Simpson over nodes 0..i."""
    dq = [f(y, p, k) for y in ys[:i + 1]]
    return [q0[j] + (simpson_exact(np.array([r[j] for r in dq], dtype=object), x=np.array(t[:i + 1], dtype=object)) if i else 0) for j in range(len(q0))]


def full(ctx, n, d, nq, flat=False):
    from beluga.numeric.data_classes.Trajectory import Trajectory
    from beluga.numeric.ivp_solvers.ivpsol import reconstruct, integrate_quads
    t = times(ctx, n)
    ys, ya = path(ctx, n, d)
    f, p, k = rates(ctx, d, nq)
    q0 = [ctx.real('q%d' % j) for j in range(nq)]
    q0a = vec(ctx, q0)
    tr = Trajectory(vec(ctx, t), ya[:, 0] if flat else ya)
    out = reconstruct(f, tr, q0a, p, k)
    ctx.check('one row per node', np.shape(out.q) == (n, nq), repr(np.shape(out.q)))
    for i in range(n):
        want = accumulated(f, t, ys, p, k, q0, i)
        for j in range(nq):
            ctx.eq('quadrature at node', out.q[i, j], want[j])
    ctx.eq('times kept', np.array(out.t), vec(ctx, t))
    ctx.eq('states kept', np.array(out.y).reshape(n, d), ya)
    ctx.check('given trajectory not altered', np.size(tr.q) == 0)
    ctx.eq('initial value not altered', q0a, vec(ctx, q0))
    # the terminal-only routine (takes time as first argument of the rate)
    g = integrate_quads(lambda s, y, *a: f(y, *a), vec(ctx, [t[0], t[-1]]), tr, p, k)
    for j in range(nq):
        ctx.eq('terminal routine agrees', np.asarray(g).reshape(-1)[j] + q0[j], out.q[-1, j])


def part(ctx, n, d, nq, withq=False):
    from beluga.numeric.data_classes.Trajectory import Trajectory
    from beluga.numeric.ivp_solvers.ivpsol import integrate_quads
    t = times(ctx, n)
    ys, ya = path(ctx, n, d)
    f, p, k = rates(ctx, d, nq)
    a, b = ctx.real('a'), ctx.real('b')
    ctx.assume(b - a > (1e-3 if ctx.concrete else 0))
    ctx.prefer(b - a > 0.05)
    tr = Trajectory(vec(ctx, t), ya)
    if withq:
        qv = np.array([[ctx.real('Q%d_%d' % (i, j)) for j in range(nq)] for i in range(n)], dtype=float if ctx.concrete else object)
        tr.q = qv
    if not (bool(a >= t[0]) and bool(b <= t[-1])):
        if ctx.concrete:
            ctx.assume(abs(a - t[0]) > 1e-9 and abs(b - t[-1]) > 1e-9)
        ctx.raises('interval outside the trajectory rejected', Exception, lambda: integrate_quads(lambda s, y, *r: f(y, *r), vec(ctx, [a, b]), tr, p, k))
        return
    g = integrate_quads(lambda s, y, *r: f(y, *r) * (1 + s), vec(ctx, [a, b]), tr, p, k)

    def at(M, s):
        for i in range(n - 1):
            if i == n - 2 or bool(s <= t[i + 1]):
                w = (s - t[i]) / (t[i + 1] - t[i])
                return [x + w * (z - x) for x, z in zip(M[i], M[i + 1])]
    if ctx.concrete:
        # spacing of the integration points decides the size of rounding errors
        pts = [a] + [x for x in t if a < x < b] + [b]
        ctx.assume(all(y - x > 1e-3 for x, y in zip(pts, pts[1:])))
    nodes = [a] + [x for x in t if bool(x > a) and bool(x < b)] + [b]
    dq = [[r * (1 + s) for r in f(at(ys, s), p, k)] for s in nodes]
    for j in range(nq):
        v = simpson_exact(np.array([r[j] for r in dq], dtype=object), x=np.array(nodes, dtype=object))
        if withq:
            v = v + at(qv, a)[j]
        ctx.eq('integral over the interval', np.asarray(g).reshape(-1)[j], v)


class patched:
    """stand-in for scipy's integrator: returns arbitrary nodes, records what it was asked."""

    def __init__(self, fake):
        self.fake = fake

    def __enter__(self):
        import scipy.integrate
        from beluga.numeric.ivp_solvers import ivpsol
        self.saved = [(m, m.solve_ivp) for m in (scipy.integrate, ivpsol) if hasattr(m, 'solve_ivp')]
        for m, _ in self.saved:
            m.solve_ivp = self.fake

    def __exit__(self, *a):
        for m, f in self.saved:
            m.solve_ivp = f


def propagate(ctx, n, d, nq, quick=False, opts=None):
    from beluga.numeric.ivp_solvers.ivpsol import Propagator
    opts = opts or {}
    t = times(ctx, n)
    ys, ya = path(ctx, n, d)
    f, p, k = rates(ctx, d, nq) if nq else (None, vec(ctx, [ctx.real('p')]), vec(ctx, [ctx.real('k0')]))
    eo, _, _ = rates(ctx, d, d) if nq >= d else ((lambda y, p, k: np.array([p[0] * v + k[0] for v in y], dtype=object if not ctx.concrete else float)), 0, 0)
    q0 = [ctx.real('q%d' % j) for j in range(nq)]
    calls = []

    def fake(fun, t_span, y0, **kw):
        calls.append((fun, list(t_span), np.array(y0, dtype=object), kw))
        r = type('R', (), {})()
        r.t, r.y, r.success, r.status, r.message = vec(ctx, t), ya.T.copy(), True, 0, ''
        r.sol = None
        return r
    y0 = ya[0].copy()
    q0a = vec(ctx, q0)
    with patched(fake):
        tr = Propagator(quick_reconstruct=quick, **opts)(eo, f, vec(ctx, [t[0], t[-1]]), y0, q0a, p, k)
    ctx.check('one integration', len(calls) == 1)
    fun, span, yy, kw = calls[0]
    ctx.eq('span start', span[0], t[0])
    ctx.eq('span end', span[-1], t[-1])
    ctx.eq('initial state', yy, ya[0])
    z = vec(ctx, [ctx.real('z%d' % j) for j in range(d)])
    ctx.eq('rate integrated', np.array(fun(ctx.real('s'), z), dtype=object), np.array(eo(z, p, k), dtype=object))
    ctx.check('relative tolerance', kw.get('rtol') == opts.get('reltol', 1e-6))
    ctx.check('absolute tolerance', kw.get('atol') == opts.get('abstol', 1e-6))
    ctx.check('largest step', kw.get('max_step') == opts.get('maxstep', 0.1))
    ctx.check('method', str(kw.get('method')).upper() == opts.get('stepper', 'RK45').upper())
    ctx.eq('times', np.array(tr.t), vec(ctx, t))
    ctx.eq('states', np.array(tr.y), ya)
    ctx.eq('initial quadrature not altered', q0a, vec(ctx, q0))
    ctx.eq('initial state not altered', y0, ya[0])
    if nq:
        for i in ((0, n - 1) if quick else range(n)):
            want = accumulated(f, t, ys, p, k, q0, i)
            for j in range(nq):
                ctx.eq('quadrature', tr.q[i, j], want[j])
        ctx.check('one row per node', np.shape(tr.q) == (n, nq))
    else:
        ctx.check('no quadratures', np.size(tr.q) == 0)


def T(id, fn, **cfg):
    return dict(id=id, fn=fn, cfg=cfg, nwit=4, tries=8, max_paths=600)


def tasks(tier):
    out = [T('full-%d%d%d' % (n, d, q), 'full', n=n, d=d, nq=q) for n, d, q in ((2, 1, 1), (3, 2, 1), (4, 2, 2), (5, 1, 2), (3, 2, 3))]
    out += [T('full-flat', 'full', n=3, d=1, nq=2, flat=True)]
    out += [T('part-2', 'part', n=2, d=2, nq=1), T('part-3', 'part', n=3, d=1, nq=1), T('part-3q', 'part', n=3, d=1, nq=1, withq=True)]
    for quick in (False, True):
        s = '-quick' if quick else ''
        out += [T('prop-2' + s, 'propagate', n=2, d=1, nq=1, quick=quick), T('prop-4' + s, 'propagate', n=4, d=2, nq=1, quick=quick),
                T('prop-3' + s, 'propagate', n=3, d=2, nq=2, quick=quick, opts=dict(reltol=1e-8, abstol=1e-9, maxstep=0.25, stepper='dop853'))]
    out += [T('prop-noq', 'propagate', n=3, d=2, nq=0)]
    if tier == 'thorough':
        out += [T('part-4', 'part', n=4, d=1, nq=1), T('part-32', 'part', n=3, d=1, nq=2), T('full-6', 'full', n=6, d=2, nq=1), T('full-7', 'full', n=7, d=1, nq=2), T('part-4q', 'part', n=4, d=2, nq=2, withq=True), T('part-5', 'part', n=5, d=1, nq=1),
                T('prop-6', 'propagate', n=6, d=2, nq=2), T('prop-6-quick', 'propagate', n=6, d=2, nq=2, quick=True)]
    return out
