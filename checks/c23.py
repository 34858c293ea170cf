"""C23: initial guesses, as the solver receives them from beluga.solve."""
import copy

import numpy as np

from bsym.contin import algorithm
from bsym.ocp import S, build, direct, indirect, names, vec
from checks.c12 import patched

BOUNDS = ('guesses handed to the solver by beluga.solve for problems with 1-3 states, 1-2 controls and 0-2 parameters, formulated by the traditional, geometric (with and without reduction) and '
          'direct methods with differential and algebraic control; arbitrary start values, costates, controls, parameters and integration times, both directions; the propagated '
          'trajectory is arbitrary with 2-4 nodes; static guesses of 2-3 nodes')
ASSUMPTIONS = ['the ODE integrator returns some trajectory that starts where it was told to (its other nodes are arbitrary)', 'the stand-in solver returns the guess unchanged']

K = lambda *cs: [(c, v, '1') for c, v in cs]


def problem(kind):
    if kind == 'base':
        return S(states=[('x', 'a*v + u', '1'), ('v', 'u*t - x', '1')], controls=[('u', '1')],
                 consts=K(('x_f', 4), ('a', 1.5), ('v_0', -2.5), ('x_0', 0.75), ('t_f', 7), ('u_0', 0.3), ('x_00', 0.4), ('f', 9)),
                 init=[('x - x_0', '1'), ('v - v_0', '1'), ('t', '1')], term=[('x - x_f', '1')], cost=dict(path='u**2 + x', path_units='1', terminal='t', units='1'))
    if kind == 'ctl2':
        return S(states=[('x', 'a*v + u*w', '1'), ('v', 'w - x', '1'), ('vx', 'x*v', '1')], controls=[('w', '1'), ('u', '1')],
                 consts=K(('v_f', 4), ('a', 1.5), ('t_0', -2.5), ('vx_0', 0.75), ('x_f', 7), ('xv_0', 2)), init=[('x - 1', '1'), ('vx - vx_0', '1')],
                 term=[('x - x_f', '1'), ('v - v_f', '1')], cost=dict(path='u**2 + w**2*2 + x', path_units='1'))
    if kind == 'pre':       # constants whose names end like those of a state
        return S(states=[('v', 'w - x', '1'), ('x', 'a*v + w', '1')], controls=[('w', '1')],
                 consts=K(('bigx_f', 4), ('x_f', 1.5), ('max_x_0', -2.5), ('x_0', 0.75), ('dt_f', 7), ('t_f', 2), ('vt_0', 1), ('_x_f', 5), ('t_0', 2), ('v_0f', 3), ('v_f', 8), ('v_f0', 8), ('a', 1)),
                 init=[('x - 1', '1')], term=[('x - x_f', '1'), ('v - v_f', '1')], cost=dict(path='w**2*2 + x', path_units='1'))
    if kind == 'par':
        return S(states=[('x', 'p*v + u', '1'), ('v', 'u - x + r', '1')], controls=[('u', '1')], params=[('p', '1'), ('r', '1')],
                 consts=K(('a', 3), ('x_f', 5), ('p_0', 2)), init=[('x - p', '1')], term=[('x - x_f', '1'), ('v - r', '1')],
                 cost=dict(path='u**2 + p*x', path_units='1', terminal='p*r', units='1'))
    if kind == 'sym':
        return S(states=[('v', 'a*u - v', '1'), ('x', 'v + u', '1')], controls=[('u', '1')], consts=K(('a', 1.5), ('v_f', 2), ('x_f', 3)), init=[('v', '1'), ('x', '1')],
                 term=[('x - x_f', '1')], cost=dict(path='u**2 + v', path_units='1'), symmetries=[(['0', '1'], '1')])
    if kind == 'free':      # no controls: boundary value problems through the direct method
        return S(states=[('x', 'a*v', '1'), ('v', '-x*b', '1')], params=[('w', '1')], consts=K(('a', 1.5), ('b', 2), ('v_f', 3), ('x_0', -1)),
                 init=[('x - x_0', '1')], term=[('v - v_f', '1'), ('x - w', '1')], cost=dict(path='x**2', path_units='1'))
    if kind == 'one':
        return S(states=[('x', 'u - x', '1')], controls=[('u', '1')], consts=K(('x_0', 2), ('x_f', 1)), init=[('x - x_0', '1')], term=[('x - x_f', '1')],
                 cost=dict(path='u**2', path_units='1'))
    raise KeyError(kind)


def solve(ctx, spec, g, method, opts, nodes, helper):
    """beluga.solve with an arbitrary integrator and a solver that only records -> guess, calls of the integrator"""
    import beluga
    calls = []

    def fake(fun, t_span, y0, **kw):
        y0 = np.array(y0, dtype=float if ctx.concrete else object)
        calls.append((fun, list(t_span), y0, kw))
        m = nodes - 1
        ys = np.empty((len(y0), nodes), dtype=float if ctx.concrete else object)
        ys[:, 0] = y0
        for i in range(1, nodes):
            for j in range(len(y0)):
                ys[j, i] = ctx.real('path%d_%d' % (i, j), -10, 10)
        r = type('R', (), {})()
        r.t = vec(ctx, [t_span[0] + (t_span[-1] - t_span[0]) * i / m for i in range(nodes)])
        r.y, r.success, r.status, r.message, r.sol = ys, True, 0, '', None
        return r
    alg = algorithm(lambda n: True)
    got = []

    def record(solinit, **kw):
        from beluga.numeric.bvp_solvers.BaseAlgorithm import BVPResult
        got.append(copy.deepcopy(solinit))
        sol = copy.deepcopy(solinit)
        sol.converged = True
        return BVPResult(sol=sol, niter=1, success=True, message='')
    alg.solve = record
    with patched(fake):
        out = beluga.solve(ocp=build(spec), method=method, guess_generator=g, bvp_algorithm=alg, steps=None, autoscale=False, save_sols=False,
                           optim_options=dict(opts), initial_helper=helper)
    ctx.same('solver called once', len(got), 1)
    return got[0], calls, out


def formulated(spec, method, opts):
    if method == 'direct':
        return direct(spec, **opts)
    return indirect(spec, **dict(opts, method='diffyg' if method == 'diffyg' else 'traditional'))


def auto(ctx, kind, mode, method, opts, nodes=3, direction='forward', sign=1, costate='list', control='list', param=None, helper=False, quad=False):
    import beluga
    spec = problem(kind)
    xs, us, ps = [s[0] for s in spec['states']], [c[0] for c in spec['controls']], [p[0] for p in spec['params']]
    ind = method != 'direct'
    T = ctx.real('T', 0.1, 50)
    x0 = [ctx.real('x0_' + x, -10, 10) for x in xs]
    kw = dict(start=list(x0), direction=direction, time_integrate=sign * T)
    if costate == 'list':
        lam = [ctx.real('lam_' + x, -10, 10) for x in xs]
        kw['costate_guess'] = list(lam)
    elif costate == 'default':
        lam = [0.1] * len(xs)
    else:
        lam = [costate] * len(xs)
        kw['costate_guess'] = costate
    if control == 'list':
        u0 = [ctx.real('u0_' + u, -10, 10) for u in us]
        kw['control_guess'] = list(u0)
    elif control == 'default':
        u0 = [0.1] * len(us)
    else:
        u0 = [control] * len(us)
        kw['control_guess'] = control
    p0 = [1.0] * len(ps)
    if param is not None:
        p0 = [ctx.real('p0_%d' % i, -10, 10) if i < param else 1.0 for i in range(len(ps))]
        kw['param_guess'] = p0[:param]
    before = {k: copy.copy(v) for k, v in kw.items()}
    g = beluga.guess_generator(mode, **kw)
    sol, calls, out = solve(ctx, spec, g, method, opts, nodes, helper)
    bvp = formulated(spec, method, opts)
    for k in before:
        if isinstance(before[k], list):
            ctx.eq('user\'s %s not altered' % k, vec(ctx, list(kw[k])), vec(ctx, before[k]))

    # values of every variable of the formulated problem at the start
    dt = T if direction == 'forward' else -T
    want = dict(zip(xs, x0))
    want['t'] = 0.0
    if ind:
        want.update(('_lam_' + x, l) for x, l in zip(xs, lam))
        want['_lam_t'] = 0.0
        want.update(('_lam_' + u, 0.0) for u in us)
    want.update(zip(us, u0))
    pw = dict(zip(ps, p0))
    for n in names(bvp.parameters):
        if n.startswith('_delta'):
            pw[n] = dt
        elif n not in pw and kind == 'sym':
            pw[n] = want['_lam_x']          # momentum of the ignorable coordinate
    norm = any(n.startswith('_delta') for n in names(bvp.parameters))
    first = vec(ctx, [want[n] for n in names(bvp.states)])
    if mode == 'auto':
        ctx.same('one propagation', len(calls), 1)
        fun, span, y0, _ = calls[0]
        ctx.eq('propagation starts at the given values', y0, first)
        ctx.eq('start of propagation', span[0], 0.0)
        ctx.eq('end of propagation', span[-1], 1.0 if norm else dt)
        z = vec(ctx, [ctx.real('z%d' % i, -3, 3) for i in range(len(first))])
        p = vec(ctx, [pw[n] for n in names(bvp.parameters)])
        k = vec(ctx, [c.default_val for c in bvp.constants])
        ctx.eq('the formulated problem is propagated', np.array(fun(ctx.real('s'), z)), np.array(bvp.functional_problem.deriv_func(z, p, k)))
        ctx.eq('guess starts at the given values', np.array(sol.y)[0], first)
        path = [list(first)] + [[ctx.real('path%d_%d' % (i, j), -10, 10) for j in range(len(first))] for i in range(1, nodes)]
        ts = [i / (nodes - 1) for i in range(nodes)]
    else:
        ctx.same('no propagation', len(calls), 0)
        n = len(sol.t)
        path = []
        ts = [(sol.t[i] - sol.t[0]) / (sol.t[-1] - sol.t[0]) for i in range(n)]
        for i in range(n):
            row = dict(want, t=dt * ts[i])
            path.append([row[c] for c in names(bvp.states)])
    ctx.check('one row per node', np.shape(sol.y) == (len(path), len(first)), repr(np.shape(sol.y)))
    for i, row in enumerate(path):
        ctx.eq('states of the guess', np.array(sol.y)[i], vec(ctx, row))
        ctx.eq('times of the guess', sol.t[i], ts[i] * (1.0 if norm else dt))
    ctx.eq('parameters of the guess', np.array(sol.dynamical_parameters), vec(ctx, [pw[n] for n in names(bvp.parameters)]))
    ctx.same('one multiplier per constraint', len(sol.nondynamical_parameters), len(bvp.constraint_parameters))
    if len(bvp.quads):
        ctx.check('quadratures in the guess', np.shape(sol.q) == (len(path), len(bvp.quads)), repr(np.shape(sol.q)))

    # constants: defaults, unless the helper matches them to the ends of the guess
    cn = names(bvp.constants)
    ctx.same('constants of the user come first', cn[:len(spec['consts'])], [c[0] for c in spec['consts']])
    cw = [float(c[1]) for c in spec['consts']]
    if helper:
        cols = names(bvp.states)
        for x in xs + ['t']:
            for suffix, row, tau in (('_0', 0, ts[0]), ('_f', -1, ts[-1])):
                if x + suffix in [c[0] for c in spec['consts']]:
                    i = [c[0] for c in spec['consts']].index(x + suffix)
                    if x in cols:
                        cw[i] = path[row][cols.index(x)]
                    elif x == 't':
                        cw[i] = dt * tau
                    else:
                        cw[i] = None        # quadrature of a reduced problem: not predicted here
    for n, v, w in zip(cn, sol.const, cw):
        if w is not None:
            ctx.eq('constant ' + n, v, w)
    ctx.same('number of constants', len(sol.const), len(cn))
    if bvp.functional_problem.compute_u is not None:
        for i in range(len(path)):
            ctx.eq('controls of the guess', np.array(sol.u)[i], np.array(bvp.functional_problem.compute_u(np.array(sol.y)[i], sol.dynamical_parameters, sol.const)))


def static(ctx, kind, method, opts, n, helper=False):
    import beluga
    from checks.c10 import snap, unchanged, user_sol
    spec = problem(kind)
    given = user_sol(ctx, spec, n, dual=method != 'direct', timesym=False)
    g = beluga.guess_generator('static', solinit=given)
    before = snap(given)
    sol, calls, out = solve(ctx, spec, g, method, opts, 2, helper)
    bvp = formulated(spec, method, opts)
    unchanged(ctx, 'guess generation', given, before)
    ctx.same('no propagation', len(calls), 0)
    m = bvp.map_sol(copy.deepcopy(given))
    ctx.eq('states of the given trajectory', np.array(sol.y), np.array(m.y))
    ctx.eq('times of the given trajectory', np.array(sol.t), np.array(m.t))
    ctx.eq('parameters of the given trajectory', np.array(sol.dynamical_parameters), np.array(m.dynamical_parameters))
    names_c = [c[0] for c in spec['consts']]
    cw = dict(zip(names_c, before['const']))
    if helper:
        for j, x in enumerate([s[0] for s in spec['states']] + ['t']):
            col = before['t'] if x == 't' else before['y'][:, j]
            for suf, i in (('_0', 0), ('_f', -1)):
                if x + suf in cw:
                    cw[x + suf] = col[i]
    ctx.eq('constants of the given trajectory', np.array(sol.const), vec(ctx, [cw[c] for c in names_c]))


def match(ctx, n, kind='ctl2'):
    """the helper on its own, states and constants in any order"""
    from beluga.continuation import match_constants_to_states
    from beluga.numeric.data_classes.Trajectory import Trajectory
    spec = problem(kind)
    prob = build(spec)
    xs = [s[0] for s in spec['states']]
    t = [ctx.real('t%d' % i) for i in range(n)]
    y = np.array([[ctx.real('y%d_%s' % (i, x)) for x in xs] for i in range(n)], dtype=float if ctx.concrete else object)
    sol = Trajectory(vec(ctx, t), y)
    cs = [c[0] for c in spec['consts']]
    k = [ctx.real('k_' + c) for c in cs]
    sol.const = vec(ctx, k)
    out = match_constants_to_states(prob, sol)
    for i, c in enumerate(cs):
        w = k[i]
        if c[:-2] in xs + ['t'] and c[-2:] in ('_0', '_f'):
            r = 0 if c.endswith('_0') else n - 1
            w = t[r] if c[:-2] == 't' else y[r, xs.index(c[:-2])]
        ctx.eq('matched constant ' + c, out.const[i], w)
    ctx.eq('trajectory kept', np.array(out.y), y)
    ctx.eq('times kept', np.array(out.t), vec(ctx, t))


def rejected(ctx):
    import beluga
    ctx.raises('unknown mode', ValueError, lambda: beluga.guess_generator('nosuch'))
    ctx.raises('unknown direction', ValueError, lambda: beluga.guess_generator('auto', start=[1.], direction='sideways'))
    ctx.raises('unknown direction', ValueError, lambda: beluga.guess_generator('ones', start=[1.], direction='sideways'))
    ctx.raises('zero time', ValueError, lambda: beluga.guess_generator('auto', start=[1.], time_integrate=0))
    spec = problem('par')
    g = beluga.guess_generator('auto', start=[1., 2.], control_guess=[0.], param_guess=[1., 2., 3.])
    ctx.raises('too many parameters', ValueError, lambda: solve(ctx, spec, g, 'indirect', {}, 2, False))


def tasks(tier):
    out = []

    def add(fn, tid, **cfg):
        out.append(dict(id=tid, fn=fn, cfg=cfg, nwit=1, tries=6, max_paths=300, limit=200))
    alg = dict(control_method='algebraic')
    dnc = dict(analytical_jacobian=False)
    for mode in ('auto', 'ones'):
        for d in ('forward', 'reverse'):
            add('auto', '%s-base-%s' % (mode, d), kind='base', mode=mode, method='indirect', opts={}, direction=d, helper=d == 'forward')
            add('auto', '%s-base-%s-h' % (mode, d), kind='base', mode=mode, method='traditional', opts={}, direction=d, sign=-1, helper=d == 'reverse')
            add('auto', '%s-alg-%s' % (mode, d), kind='base', mode=mode, method='indirect', opts=alg, direction=d, helper=True)
            add('auto', '%s-free-%s' % (mode, d), kind='free', mode=mode, method='direct', opts=dict(dnc, do_momentum_shift=True, do_normalize_time=True), direction=d, helper=True)
            add('auto', '%s-free-%s-00' % (mode, d), kind='free', mode=mode, method='direct', opts=dnc, direction=d, param=1)
        add('auto', mode + '-ctl2', kind='ctl2', mode=mode, method='diffyg', opts={}, helper=True)
        add('auto', mode + '-ctl2-default', kind='ctl2', mode=mode, method='indirect', opts={}, costate='default', control='default')
        add('auto', mode + '-ctl2-scalar', kind='ctl2', mode=mode, method='indirect', opts={}, costate=-2, control=3, nodes=2)
        add('auto', mode + '-base-scalar', kind='base', mode=mode, method='indirect', opts={}, costate=0.5, control=-0.25, nodes=4)
        for n in (None, 0, 1, 2):
            add('auto', '%s-par-%s' % (mode, n), kind='par', mode=mode, method='indirect', opts={}, param=n, helper=n == 2)
        add('auto', mode + '-par-alg', kind='par', mode=mode, method='indirect', opts=alg, param=2)
        add('auto', mode + '-par-dg', kind='par', mode=mode, method='diffyg', opts={}, param=2)
        add('auto', mode + '-one-alg-default', kind='one', mode=mode, method='indirect', opts=alg, costate='default', control='default', helper=True)
        add('auto', mode + '-sym', kind='sym', mode=mode, method='diffyg', opts=dict(reduction=True))
    add('static', 'static-base', kind='base', method='indirect', opts={}, n=3)
    add('static', 'static-base-h', kind='base', method='indirect', opts={}, n=3, helper=True)
    add('static', 'static-ctl2-h', kind='ctl2', method='diffyg', opts={}, n=2, helper=True)
    add('static', 'static-par', kind='par', method='indirect', opts={}, n=2, helper=True)
    for n in (1, 2, 4):
        add('match', 'match-%d' % n, n=n)
    add('match', 'match-names', n=2, kind='pre')
    add('rejected', 'rejected')
    return out
