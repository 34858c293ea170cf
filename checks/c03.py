"""C03: algebraic control is stationary, minimises H over the stationary candidates, and is what the mapped-back solution shows."""
import numpy as np

from bsym.ocp import S, Oracle, Point, indirect, shared, vec
from checks.c01 import TEMPL

BOUNDS = ('end to end: 1-3 states, 1-2 controls, 0-1 parameters with one, two or three closed-form candidates per control (linear, '
          'square-root and cubic stationarity), any point and any competing stationary value; selection kernels: 2-4 arbitrary '
          'candidate laws for 1-2 controls with an arbitrary quartic Hamiltonian; mapped-back trajectories of 2-3 nodes')
ASSUMPTIONS = ['square roots in candidate laws are of non-negative numbers (all candidates real)', 'divisors are non-zero']


def spec(kind):
    K = lambda s: [(c, 1.0, '1') for c in s.split()]
    if kind == 'two':        # dH/du quadratic in u: two candidates
        return S(states=[('x', 'a*u + b*x', '1'), ('v', 'c*x + d*u', '1')], controls=[('u', '1')], consts=K('a b c d e k'),
                 init=[('x', '1'), ('v - 1', '1')], term=[('x - k', '1')], cost=dict(path='u**3/3 - e**2*u + x', path_units='1'))
    if kind == 'twop':       # with a parameter in the law
        return S(states=[('x', 'a*u + p*x', '1')], controls=[('u', '1')], params=[('p', '1')], consts=K('a e k'),
                 init=[('x', '1')], term=[('x - k', '1')], cost=dict(path='p*u**3/3 - e**2*u', path_units='1', terminal='p**2', units='1'))
    if kind == 'four':       # two controls, two candidates each
        return S(states=[('x', 'a*u + b*w', '1')], controls=[('u', '1'), ('w', '1')], consts=K('a b e f'),
                 init=[('x', '1')], term=[('x - 1', '1')], cost=dict(path='u**3/3 - e**2*u + w**3/3 - f**2*w + x*u**2/2', path_units='1'))
    if kind == 'three':      # dH/du cubic with an even Hamiltonian: u = 0, +-sqrt(.)
        return S(states=[('x', 'b*x + a*u**2', '1')], controls=[('u', '1')], consts=K('a b c'),
                 init=[('x', '1')], term=[('x - 1', '1')], cost=dict(path='c**2*u**4/2 + (x - 4)*u**2', path_units='1'))
    if kind == 'twot':       # explicit time in the law
        return S(states=[('x', 'a*u*t + x', '1')], controls=[('u', '1')], consts=K('a e'),
                 init=[('x', '1'), ('t', '1')], term=[('x - 1', '1')], cost=dict(path='u**3/3 - e**2*u + t*u', path_units='1'))
    return TEMPL[kind]()


def law(ctx, kind, opts):
    sp = spec(kind)
    o = Oracle(sp)
    bvp = indirect(sp, control_method='algebraic', **opts)
    p, nu, k, senv = shared(ctx, bvp)
    P = Point(ctx, bvp, 'm.')
    env = dict(senv, **P.env)
    u = bvp.functional_problem.compute_u(P.y, p, k)
    at = dict(env, **dict(zip(o.us, u)))
    for c in o.us:
        ctx.eq('stationary:' + c, o.d(o.H, at, c), 0)
    # no other stationary point is better
    w = dict(env, **{c: ctx.real('w.' + c) for c in o.us})
    if ctx.concrete:
        # the competitor must be stationary: the candidates themselves are the concrete competitors
        for cand in candidates(bvp, P.y, p, k):
            at2 = dict(env, **dict(zip(o.us, cand)))
            if all(np.isfinite(float(v)) for v in cand):
                ctx.le('smallest', o.H(at), o.H(at2))
        return
    for c in o.us:
        z = o.d(o.H, w, c)
        ctx.assume(z == 0)
    ctx.le('smallest', o.H(at), o.H(w))


def candidates(bvp, y, p, k):
    """numeric stationary points found without beluga's selection: every recorded option, evaluated by sympy."""
    import sympy
    subs = {}
    for st, v in ((bvp.states, y), (bvp.parameters, p), (bvp.constants, k)):
        subs.update({s.sym: float(x) for s, x in zip(st, v)})
    out = []
    for opt in bvp.control_law:
        vals = [complex(sympy.N(sympy.sympify(e).subs(subs))) for e in opt]
        out.append([v.real if abs(v.imag) < 1e-9 else float('nan') for v in vals])
    return out


def mapped(ctx, kind, opts, nodes):
    """controls of a mapped-back trajectory are the controls the compiled problem uses at each node."""
    from beluga.numeric.data_classes.Trajectory import Trajectory
    sp = spec(kind)
    bvp = indirect(sp, control_method='algebraic', **opts)
    p, nu, k, senv = shared(ctx, bvp)
    pts = [Point(ctx, bvp, 'n%d.' % i) for i in range(nodes)]
    sol = Trajectory(vec(ctx, [i / (nodes - 1) for i in range(nodes)]), np.array([q.y for q in pts]))
    if len(bvp.quads):
        sol.q = np.array([q.q for q in pts])
    sol.dynamical_parameters, sol.nondynamical_parameters, sol.const = p, nu, k
    exp = [bvp.functional_problem.compute_u(q.y, p, k) for q in pts]
    back = bvp.inv_map_sol(sol)
    ctx.eq('mapped control', np.array(back.u), np.array([list(e) for e in exp], dtype=object if not ctx.concrete else float))


def select(ctx, n, m, mapper):
    """the selection kernels over arbitrary candidates."""
    import sympy
    from beluga.numeric.compilation import LocalCompiler
    from beluga.symbolic.data_classes.components_structures import NamedDimensionalStruct
    from beluga.symbolic.data_classes.symbolic_problem import Problem
    pr = Problem('sel')
    pr.independent('t', '1')
    pr.state('x', '0', '1')
    for j in range(m):
        pr.control('u%d' % j, '1')
    for i in range(n):
        for j in range(m):
            pr.constant('c%d_%d' % (i, j), 1.0, '1')
    for j in range(m):
        for d in range(1, 5):
            pr.constant('h%d_%d' % (j, d), 1.0, '1')
    pr.costates = []
    pr.costate('_lam_x', '0', '1')
    pr.parameter('p', '1')
    pr.sympify_self()
    S_ = pr.sympify
    ham = S_('+'.join('h%d_%d*u%d**%d*(1 + p*x)' % (j, d, j, d) for j in range(m) for d in range(1, 5)) + '+ _lam_x*x')
    pr.control_law = [tuple(S_('c%d_%d + x' % (i, j)) for j in range(m)) for i in range(n)]
    x, lam, par = ctx.real('x'), ctx.real('lam'), ctx.real('p')
    cand = [[ctx.real('c%d_%d' % (i, j)) for j in range(m)] for i in range(n)]
    hc = [[ctx.real('h%d_%d' % (j, d)) for d in range(1, 5)] for j in range(m)]
    k = vec(ctx, [v for r in cand for v in r] + [v for r in hc for v in r])

    def H(u):
        r = lam * x
        for j in range(m):
            for d in range(1, 5):
                r = r + hc[j][d - 1] * u[j] ** d * (1 + par * x)
        return r
    if mapper:
        from beluga.numeric.data_classes.trajectory_mappers import AlgebraicControlMapper
        pr.hamiltonian = type('H', (), {'expr': ham})()
        f = AlgebraicControlMapper(pr).compute_u
        u = f(0.0, vec(ctx, [x]), vec(ctx, [lam]), vec(ctx, [par]), k)
    else:
        from beluga.numeric.compilation.component_compilation import compile_control
        syms = [[S_('x'), S_('_lam_x')], [S_('p')], [c.sym for c in pr.constants]]
        hf = pr.lambdify([syms[0], [c.sym for c in pr.controls]] + syms[1:], ham)
        f = compile_control(pr.control_law, syms, hf, pr.lambdify)
        u = f(vec(ctx, [x, lam]), vec(ctx, [par]), k)
    hu = H(u)
    member = None
    for i in range(n):
        ci = [cand[i][j] + x for j in range(m)]
        ctx.le('no better candidate', hu, H(ci))
        if ctx.concrete:
            same = all(abs(u[j] - ci[j]) < 1e-9 * (1 + abs(ci[j])) for j in range(m))
            member = same if member is None else (member or same)
        else:
            b = u[0] == ci[0]
            for j in range(1, m):
                b = b & (u[j] == ci[j])
            member = b if member is None else member | b
    ctx.check('one of the candidates', member)


def tasks(tier):
    L = lambda n, kind, **o: dict(id='law-' + n, fn='law', cfg=dict(kind=kind, opts=o), nwit=2, tries=6)
    M = lambda n, kind, nodes=2, **o: dict(id='map-' + n, fn='mapped', cfg=dict(kind=kind, opts=o, nodes=nodes), nwit=1, tries=6)
    Q = lambda n, m, mp: dict(id='select-%d-%d-%s' % (n, m, 'mapper' if mp else 'compiled'), fn='select', cfg=dict(n=n, m=m, mapper=mp), nwit=2, tries=6)
    dg = dict(method='diffyg')
    out = [L('two', 'two'), L('twop', 'twop'), L('three', 'three'), L('twot', 'twot'), L('g21', 'g21'), L('g12', 'g12'), L('rational', 'rational'),
           L('two-dg', 'two', **dg),
           M('two', 'two'), M('twop', 'twop'), M('three', 'three'), M('twot', 'twot'), M('g12', 'g12'), M('two-dg', 'two', **dg),
           Q(2, 1, False), Q(3, 1, False), Q(2, 2, False), Q(2, 1, True), Q(3, 1, True), Q(2, 2, True)]
    if tier == 'thorough':
        out += [L('g21p', 'g21p'), L('four', 'four'), L('g22', 'g22'), M('two3', 'two', nodes=3), Q(4, 1, False), Q(4, 1, True), Q(3, 2, False), Q(3, 2, True), M('four', 'four')]
    return out
