"""C20: one-dimensional tables interpolate their data and differentiate consistently."""
import numpy as np

from bsym.ocp import vec

BOUNDS = ('cubic-spline tables of 2-5 data points (6 in the thorough tier) with arbitrary values and three fixed unevenly spaced grids per size, or arbitrary grids of 2-3 points; '
          'derivative orders 0-4 anywhere in the range of the data; tables of scaled, shifted, nested and substituted arguments in expressions and problems')
ASSUMPTIONS = ['data points are strictly increasing and finite', 'rounding is outside the model']

GRIDS = {2: [[0, 1], [-3, 0.5]], 3: [[0, 1, 2], [-10, 0, 2.5], [0.5, 4, 4.5]], 4: [[0, 1, 2.5, 4], [-2, -1, 3, 3.5], [1, 2, 3, 4]],
         5: [[0, 1, 3, 4, 6.5], [-1, -0.5, 0, 2, 3], [0, 2, 3, 4, 8]], 6: [[0, 1, 3, 4, 6.5, 7], [-1, -0.5, 0, 2, 3, 10]]}


def table(ctx, n, grid):
    """a table declared through the problem interface"""
    import beluga
    y = ctx.reals('y', n, -5, 5)
    if grid is None:
        x = [ctx.real('x0', -5, 5)]
        for i in range(1, n):
            h = ctx.real('h%d' % i, 0.25, 5)
            x.append(x[-1] + h)
    else:
        x = [float(v) for v in GRIDS[n][grid]]
    p = beluga.Problem('prob')
    p.independent('t', '1')
    p.table('tab', '1d_spline', vec(ctx, y), vec(ctx, x), '1', ['1'])
    return p, p.tables[0].table, x, y


def points(ctx, n, grid, knot):
    """passes through the data, first and last included, and the derivatives exist there"""
    p, t, x, y = table(ctx, n, grid)
    ctx.eq('table passes through data point %s' % knot, t(x[knot]), y[knot])
    ctx.eq('compiled table passes through data point %s' % knot, p.lambdify([S('a')], expr(p, 'tab(a)'))(vec(ctx, [x[knot]])), y[knot])


def S(*names):
    import sympy
    return [sympy.Symbol(n) for n in names]


def expr(p, text):
    for n in ('a', 'b'):
        if n not in p.local_compiler.sym_locals:
            p.local_compiler.add_symbolic_local(n)
    return p.sympify(text)


def inside(ctx, x, i, k):
    """a point and a spacing such that k points to either side stay in interval i"""
    lo, hi = x[i], x[i + 1]
    m = ctx.real('m')
    d = ctx.real('d', None, 1)
    ctx.assume(d > 0)
    ctx.assume(m - k * d > lo)
    ctx.assume(m + k * d < hi)
    ctx.prefer(d >= (hi - lo) / 16 if not hasattr(hi, 'z') and not hasattr(lo, 'z') else d >= 0.015625)
    return m, d


def derivative(ctx, n, grid, interval, order):
    """inside an interval the order-k function is the derivative of the order-(k-1) function"""
    _, t, x, y = table(ctx, n, grid)
    m, d = inside(ctx, x, interval, 2)
    f, g = t.form_eval_function(order - 1), t.form_eval_function(order)
    want = (f(m - 2 * d) - 8 * f(m - d) + 8 * f(m + d) - f(m + 2 * d)) / (12 * d)   # exact for polynomials up to degree 4
    ctx.eq('derivative of order %d is the derivative of the interpolant' % order, g(m), want)


def smooth(ctx, n, grid, knot, order):
    """value, slope and curvature do not jump at interior data points"""
    _, t, x, y = table(ctx, n, grid)
    f = t.form_eval_function(order)
    d = ctx.real('d', None, 1)
    ctx.assume(d > 0)
    ctx.assume(4 * d < x[knot] - x[knot - 1])
    ctx.prefer(16 * d >= x[knot] - x[knot - 1])
    k = x[knot]
    left = 4 * f(k - d) - 6 * f(k - 2 * d) + 4 * f(k - 3 * d) - f(k - 4 * d)        # exact extrapolation of a cubic
    ctx.eq('derivative %d is continuous at data point %d' % (order, knot), left, f(k))


def ends(ctx, n, grid, order, last):
    """at the first and last data point the derivatives are the one-sided limits from inside"""
    _, t, x, y = table(ctx, n, grid)
    f = t.form_eval_function(order)
    d = ctx.real('d', None, 1)
    ctx.assume(d > 0)
    k, s = (x[-1], -1) if last else (x[0], 1)
    w = x[-1] - x[-2] if last else x[1] - x[0]
    ctx.assume(4 * d < w)
    ctx.prefer(16 * d >= w)
    lim = 4 * f(k + s * d) - 6 * f(k + s * 2 * d) + 4 * f(k + s * 3 * d) - f(k + s * 4 * d)
    ctx.eq('derivative %d at the %s data point' % (order, 'last' if last else 'first'), f(k), lim)


# expression, derivatives by a, by a twice (A = argument, T0.. = table functions)
EXPRS = {
    'plain': ('tab(a)', 'T1(a)', 'T2(a)'),
    'scaled': ('tab(2*a - 1)', '2*T1(2*a - 1)', '4*T2(2*a - 1)'),
    'product': ('b*tab(a)*a', 'b*(T1(a)*a + T0(a))', 'b*(T2(a)*a + 2*T1(a))'),
    'two': ('tab(a) + tab(b)*a', 'T1(a) + T0(b)', 'T2(a)'),
    'square': ('tab(a)**2', '2*T0(a)*T1(a)', '2*T1(a)**2 + 2*T0(a)*T2(a)'),
    'mixed': ('tab(a*b)', 'b*T1(a*b)', 'b**2*T2(a*b)'),
    'third': ('T3', 'T3(a)', None),
}


def expression(ctx, which, k, subst):
    import sympy
    p, t, x, y = table(ctx, 3, 0)
    text, *ds = EXPRS[which]
    a, b = S('a', 'b')
    A, B = ctx.real('A', 0, 2), ctx.real('B', 0.25, 1)
    if which == 'third':
        e = expr(p, 'tab(a)').diff(a).diff(a).diff(a)
        want = ds[0]
    else:
        e = expr(p, text)
        for _ in range(k):
            e = e.diff(a)
        want = ([text.replace('tab', 'T0')] + ds)[k]
    if subst:                       # the argument is replaced after differentiation, as quantities and bounded controls are
        e = e.subs(a, sympy.Symbol('w') / 2)
        got = p.lambdify([[sympy.Symbol('w'), b]], e)(vec(ctx, [2 * A, B]))
    else:
        got = p.lambdify([[a, b]], e)(vec(ctx, [A, B]))
    env = dict(('T%d' % i, t.form_eval_function(i)) for i in range(4))
    ctx.eq('compiled expression with tables', got, eval(want, dict(env, a=A, b=B)))


def problem(ctx, opts):
    """costate rates of a problem with a table in its dynamics and cost"""
    from beluga.symbolic.data_classes.mapping_functions import make_indirect_method, make_postprocessor, make_preprocessor
    import copy
    p, t, x, y = table(ctx, 4, 0)
    p.state('r', 'v', '1')
    p.state('v', 'u + drag', '1')
    p.control('u', '1')
    p.constant('c', 1., '1')
    p.quantity('drag', 'c*tab(r + c)*v')
    p.path_cost('u**2/2 + tab(v)', '1')
    p.initial_constraint('r', '1')
    p.initial_constraint('v - 1', '1')
    p.terminal_constraint('r - c', '1')
    p = make_preprocessor()(p)
    bvp = make_postprocessor()(make_indirect_method(copy.deepcopy(p), **opts)(copy.deepcopy(p)))
    r, v, c = ctx.real('r', 0, 1), ctx.real('v', 0, 4), ctx.real('c', 0.5, 1.5)
    l1, l2, tm, lt, dt, u = [ctx.real(s) for s in ('l1', 'l2', 'tm', 'lt', 'dt', 'u')]
    T = [t.form_eval_function(i) for i in range(3)]
    if 'method' in opts:            # the geometric formulation agrees where the Hamiltonian is stationary
        u = -l2
    env = dict(r=r, v=v, t=tm, _lam_r=l1, _lam_v=l2, _lam_t=lt, u=u, _lam_u=0)
    if opts.get('control_method') == 'algebraic':
        u = -l2
    rate = dict(r=v, v=u + c * T[0](r + c) * v, _lam_r=-l2 * c * v * T[1](r + c), _lam_v=-T[1](v) - l1 - l2 * c * T[0](r + c), t=1, _lam_t=0, _lam_u=0)
    rate['u'] = -rate['_lam_v']
    names = [str(s) for s in bvp.states]
    got = bvp.functional_problem.deriv_func(vec(ctx, [env[n] for n in names]), vec(ctx, [dt]), vec(ctx, [c]))
    ctx.eq('rates of a problem with tables', got, vec(ctx, [dt * rate[n] for n in names]))


def tasks(tier):
    out = []
    deep = tier == 'thorough'

    def add(fn, tid, **cfg):
        t = dict(id=tid, fn=fn, cfg=cfg, max_paths=400, nwit=1)
        if cfg.get('grid', 0) not in (0, None) and not deep:
            t['nwit'] = 0
        out.append(t)
    for n in (2, 3, 4, 5) + ((6,) if deep else ()):
        for g in list(range(len(GRIDS[n]) if deep or n < 5 else 2)) + ([None] if n <= 3 else []):
            for k in range(n):
                add('points', 'points%d-g%s-%d' % (n, g, k), n=n, grid=g, knot=k)
                if 0 < k < n - 1:
                    for o in (0, 1, 2):
                        add('smooth', 'smooth%d-g%s-%d-%d' % (n, g, k, o), n=n, grid=g, knot=k, order=o)
            for i in range(n - 1):
                for o in (1, 2, 3, 4) if deep or g == 0 else (1, 2):
                    add('derivative', 'deriv%d-g%s-%d-%d' % (n, g, i, o), n=n, grid=g, interval=i, order=o)
            for o in (0, 1, 2, 3) if deep or g == 0 else (1, 2):
                for last in (False, True):
                    add('ends', 'ends%d-g%s-%d-%s' % (n, g, o, last), n=n, grid=g, order=o, last=last)
    for w in EXPRS:
        for k in (0, 1, 2) if w != 'third' else (1,):
            for s in (False, True):
                add('expression', 'expr-%s-%d%s' % (w, k, '-subs' if s else ''), which=w, k=k, subst=s)
    for o in (dict(control_method='differential'), dict(control_method='algebraic'), dict(method='diffyg')):
        add('problem', 'problem-' + '-'.join(o.values()), opts=o)
    return out
