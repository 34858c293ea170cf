"""C22: reported cost is the user's cost of the returned trajectory."""
import numpy as np

from bsym.ocp import Oracle, S, indirect, names
from checks.c06 import by_hand
from checks.c10 import K, problem, trig_domain, user_sol

BOUNDS = ('trajectories of 2-5 nodes (7 in the thorough tier) at arbitrary times with arbitrary states, controls, costates, parameters and constants; '
          'initial, path and terminal costs in every combination, depending on states, quadratures, time, controls, parameters, constants, quantities and switches; penalties of inequality '
          'constraints; derivations (traditional, geometric), control laws (differential, algebraic), reduction, with and without time as a state or normalised')
ASSUMPTIONS = ['nodes are strictly increasing in time', 'scipy.integrate.simpson computes the composite Simpson rule (its formula re-stated exactly and validated against scipy)',
               'with reduction the momentum of the symmetric coordinate is constant along the trajectory given']

COSTS = {
    'all': dict(initial='x*v + a', path='u**2 + x*v*t', terminal='t*x + v**2', units='1', path_units='1'),
    'initial': dict(initial='x*v**2 - 3*a', units='1'),
    'terminal': dict(terminal='v*a - x', units='1'),
    'path': dict(path='u**2 + a*v*x', path_units='1'),
    'both': dict(initial='2*v', terminal='x*x - v', units='1'),
    'const': dict(path='1', path_units='1', terminal='a', units='1'),
}


def spec_of(kind, cost):
    s = problem(kind if kind not in ('quant', 'switch') else 'base')
    if kind == 'quant':
        s['quantities'] = [('q1', 'q2*x + a'), ('q2', 'v*v')]
        s['cost'] = dict(initial='q1 + t', path='u**2*a + q2*q1', terminal='q1*q2', units='1', path_units='1')
    elif kind == 'switch':
        s['consts'] += K('eps')
        s['switches'] = [('sw', ['a*v', 'x'], [['v - a'], ['-v']], 'eps')]
        s['cost'] = dict(path='u**2 + sw*x', path_units='1')
    elif cost == 'quad':
        s['cost'] = dict(initial='x*z - 2*z', path='u**2 + v*x', terminal='z*v' + (' + s*x' if kind == 'quad' else ' + p'), units='1', path_units='1')
    elif cost == 'par':
        s['cost'] = dict(initial='p*x + r', path='u**2 + p*v - r*x', terminal='p*r*v + x', units='1', path_units='1')
    elif cost:
        s['cost'] = dict(COSTS[cost])
        if 'u' not in s['cost'].get('path', ''):       # a singular control law is no concern here
            s['states'][0] = ('x', 'a*v + u**2', '1')
    return s


def simpson(ts, fs):
    """integral of the interpolating parabolas over pairs of intervals; an odd last interval under the last parabola"""
    n = len(ts)
    if n == 2:
        return (ts[1] - ts[0]) * (fs[0] + fs[1]) / 2

    def part(i, a, b):
        """parabola through nodes i, i+1, i+2 integrated from node a to node b"""
        h0, h1 = ts[i + 1] - ts[i], ts[i + 2] - ts[i + 1]
        d0, d1 = (fs[i + 1] - fs[i]) / h0, (fs[i + 2] - fs[i + 1]) / h1
        c = (d1 - d0) / (h0 + h1)
        F = lambda s: fs[i] * s + d0 * s ** 2 / 2 + c * (s ** 3 / 3 - h0 * s ** 2 / 2)
        return F(ts[b] - ts[i]) - F(ts[a] - ts[i])
    r = 0
    for i in range(0, n - 2, 2):
        r = r + part(i, i, i + 2)
    if n % 2 == 0:
        r = r + part(n - 3, n - 2, n - 1)
    return r


def cost(ctx, kind, which, opts, n, grid=False):
    spec = spec_of(kind, which)
    bvp = indirect(spec, **opts)
    red = opts.get('reduction')
    shift, norm = opts.get('do_momentum_shift', True), opts.get('do_normalize_time', True)
    sol = user_sol(ctx, spec, n, t0=0.0 if not shift else None, timesym=bool(red))
    if grid:        # fixed uneven spacing keeps long trajectories within reach of the solver
        for i in range(1, n):
            sol.t[i] = sol.t[0] + (0.0, 1.0, 1.5, 3.5, 4.0, 4.75, 6.0)[i]
    for i in range(n - 1):
        ctx.assume(sol.t[i + 1] > sol.t[i] if not ctx.concrete else sol.t[i + 1] - sol.t[i] > 1e-3)
    if red:
        for f, _ in spec['symmetries']:
            for j, c in enumerate(f):
                if c != '0':
                    for i in range(n):
                        sol.dual[i, j] = sol.dual[0, j]
    trig_domain(ctx, spec, sol, True)
    m = bvp.map_sol(sol)
    b = bvp.inv_map_sol(m)

    trig = {c[0]: '_%s_trig' % c[0] for c in spec['path'] if c[2]['method'] == 'epstrig'}
    o = Oracle(by_hand(spec, trig))
    st = names(bvp.states)

    def env(i):
        e = {'t': b.t[i]}
        e.update(zip(o.xs, b.y[i]))
        e.update(zip([c[0] for c in spec['controls']], b.u[i]))
        e.update(zip(o.ps, b.dynamical_parameters))
        for j, q in enumerate(spec['quads']):
            e[q[0]] = b.q[i, j]
        e.update(zip([k[0] for k in spec['consts']], b.const))
        for u, a in trig.items():
            e[a] = m.y[i, st.index(a)]
            e.pop(u, None)
        return e
    c = o.s['cost']
    want = o.ev(c.get('initial', '0'), env(0)) + o.ev(c.get('terminal', '0'), env(n - 1))
    want = want + simpson(list(b.t), [o.ev(c.get('path', '0'), env(i)) for i in range(n)])
    ctx.check('cost is one number', np.size(b.cost) == 1)
    ctx.eq('cost of the returned trajectory', b.cost if np.ndim(b.cost) == 0 else np.ravel(b.cost)[0], want)


def tasks(tier):
    out = []
    deep = tier == 'thorough'

    def add(tid, kind, which, n, grid=False, **opts):
        out.append(dict(id=tid, fn='cost', cfg=dict(kind=kind, which=which, opts=opts, n=n, grid=grid), nwit=2, tries=6, max_paths=300))
    for c in COSTS:
        add('base-' + c, 'base', c, 3)
        add('base-%s-2' % c, 'base', c, 2)
        add('base-%s-4' % c, 'base', c, 4, True)
    add('base-all-5', 'base', 'all', 5, True)
    add('base-path-4free', 'base', 'path', 4, do_normalize_time=False)
    add('switch', 'switch', None, 2)
    alg, dg = dict(control_method='algebraic'), dict(method='diffyg')
    for t, o in (('alg', alg), ('dg', dg)):
        for c in ('all', 'path', 'terminal'):
            add('base-%s-%s' % (c, t), 'base', c, 3, True, **o)
        add('par-' + t, 'par', 'par', 3, True, **o)
    add('ctl2', 'ctl2', None, 3)
    add('ctl2-dg', 'ctl2', None, 3, True, **dg)
    add('par', 'par', 'par', 3)
    add('par-2', 'par', 'par', 2)
    for kd in ('quad', 'quadpar'):
        add(kd, kd, 'quad', 3, True)
        add(kd + '-alg', kd, 'quad', 2, True, **alg)
        add(kd + '-dg', kd, 'quad', 3, True, **dg)
    add('quant', 'quant', None, 3)
    add('quant-alg', 'quant', None, 3, True, **alg)
    add('pen', 'pen', 'all', 3, True)
    add('pen-alg', 'pen', 'all', 2, **alg)
    add('trig', 'trig', None, 3, True)
    add('trigvar', 'trigvar', None, 2)
    add('trigpar', 'trigpar', 'par', 2)
    add('sym-dg', 'sym', None, 3, True, **dg)
    add('sym-red', 'sym', None, 3, True, **dict(dg, reduction=True))
    add('symt-red', 'symt', None, 3, True, **dict(dg, reduction=True))
    add('sympar-red', 'sympar', None, 3, True, **dict(dg, reduction=True))
    for ms, nt in ((False, True), (True, False), (False, False)):
        add('ctl2-%d%d' % (ms, nt), 'ctl2', None, 3, True, do_momentum_shift=ms, do_normalize_time=nt)
        add('par-%d%d' % (ms, nt), 'par', 'par', 3, True, do_momentum_shift=ms, do_normalize_time=nt)
    if deep:
        for n in (5, 6, 7):
            for c in COSTS:
                add('deep-%s-%d' % (c, n), 'base', c, n, True)
            add('deep-par-%d' % n, 'par', 'par', n, True)
            add('deep-quant-%d' % n, 'quant', None, n, True)
    return out
