"""C10: solution maps round-trip."""
import numpy as np

from bsym.core import SymBool, gsin, lift
from bsym.ocp import S, direct, indirect, names, vec

BOUNDS = ('user trajectories of 2-3 nodes with arbitrary times, states, costates, controls, parameters and constants; problems with 1-3 states, 1-2 '
          'controls, 0-2 parameters, 0-2 quadratures, trigonometric control bounds, penalties, switches, symmetries; every combination of derivation (traditional, '
          'geometric), control law (differential, algebraic), reduction, and for the direct method of momentum shift and time normalisation')
ASSUMPTIONS = ['final time differs from initial time', 'controls strictly inside their trigonometric bounds, lower below upper',
               'with reduction the momentum of the symmetric coordinate is constant along the trajectory given']

K = lambda s: [(c, 1.0, '1') for c in s.split()]


def problem(kind):
    if kind == 'base':
        return S(states=[('x', 'a*v + u', '1'), ('v', 'u*t - x', '1')], controls=[('u', '1')], consts=K('a xf'), init=[('x - 1', '1'), ('t', '1')],
                 term=[('x - xf', '1')], cost=dict(path='u**2 + x', path_units='1', terminal='t', units='1'))
    if kind == 'ctl2':
        return S(states=[('x', 'a*v + u*w', '1'), ('v', 'w - x', '1')], controls=[('w', '1'), ('u', '1')], consts=K('a xf'), init=[('x - 1', '1')],
                 term=[('x - xf', '1')], cost=dict(path='u**2 + w**2*2 + x', path_units='1'))
    if kind == 'par':
        return S(states=[('x', 'p*v + u', '1'), ('v', 'u - x + r', '1')], controls=[('u', '1')], params=[('p', '1'), ('r', '1')], consts=K('a xf'),
                 init=[('x - p', '1')], term=[('x - xf', '1'), ('v - r', '1')], cost=dict(path='u**2 + p*x', path_units='1', terminal='p*r', units='1'))
    if kind == 'trig':
        s = problem('ctl2')
        s['consts'] += K('lo hi eps')
        s['path'] = [('u', '1', dict(lower='lo', upper='hi', activator='eps', method='epstrig'))]
        return s
    if kind == 'trigvar':
        s = problem('ctl2')
        s['consts'] += K('lo hi eps')
        s['path'] = [('w', '1', dict(lower='lo - x', upper='hi + t', activator='eps', method='epstrig')),
                     ('u', '1', dict(lower='lo - v', upper='hi + a', activator='eps', method='epstrig'))]
        return s
    if kind == 'trigpar':
        s = problem('par')
        s['consts'] += K('lo eps')
        s['path'] = [('u', '1', dict(lower='lo', upper='lo + p', activator='eps', method='epstrig'))]
        return s
    if kind == 'trigsw':     # a bound given by a switch
        s = problem('base')
        s['consts'] += K('lo eps')
        s['switches'] = [('sw', ['a', 'x'], [['v'], ['-v']], 'eps')]
        s['path'] = [('u', '1', dict(lower='lo', upper='lo + sw', activator='eps', method='epstrig'))]
        return s
    if kind == 'trigq':      # a bound given by a named quantity
        s = problem('base')
        s['consts'] += K('lo eps')
        s['quantities'] = [('qq', 'a + x')]
        s['path'] = [('u', '1', dict(lower='lo', upper='lo + qq', activator='eps', method='epstrig'))]
        return s
    if kind == 'pen':
        s = problem('base')
        s['consts'] += K('lo hi eps')
        s['path'] = [('x', '1', dict(lower='lo', upper='hi', activator='eps', method='utm'))]
        return s
    if kind == 'sym':
        return S(states=[('v', 'a*u - v', '1'), ('x', 'v + u', '1'), ('z', 'v*u', '1')], controls=[('u', '1')], consts=K('a xf'), init=[('v', '1'), ('x', '1')],
                 term=[('x - xf', '1')], cost=dict(path='u**2 + v', path_units='1'), symmetries=[(['0', '1', '0'], '1'), (['0', '0', '1'], '1')])
    if kind == 'symt':       # one symmetry, explicit time
        s = problem('sym')
        s['states'][0] = ('v', 'a*u - v*t', '1')
        s['symmetries'] = s['symmetries'][:1]
        return s
    if kind == 'sympar':
        s = problem('sym')
        s['params'] = [('p', '1')]
        s['states'][0] = ('v', 'a*u - v*p', '1')
        s['symmetries'] = s['symmetries'][1:]
        return s
    if kind == 'quad':       # the user's own quadratures
        s = problem('base')
        s['quads'] = [('z', 'u*x', '1'), ('s', 'v - a', '1')]
        s['term'] += [('z - a', '1')]
        return s
    if kind == 'quadpar':    # before the adjoints of the parameters
        s = problem('par')
        s['quads'] = [('z', 'u*x - p', '1')]
        return s
    if kind == 'quadsym':    # before the quadrature of a reduction
        s = problem('symt')
        s['quads'] = [('s', 'u*v', '1')]
        return s
    if kind == 'one':
        return S(states=[('x', 'u - x', '1')], controls=[('u', '1')], consts=K('xf'), init=[('x - 1', '1')], term=[('x - xf', '1')],
                 cost=dict(path='u**2', path_units='1'))
    raise KeyError(kind)


def user_sol(ctx, spec, n, dual=True, conserved=(), t0=None, timesym=False, give_dual_t=True, inside=None, kbound=None):
    """a trajectory of the user's own problem."""
    from beluga.numeric.data_classes.Trajectory import Trajectory
    xs, us, ps = [s[0] for s in spec['states']], [c[0] for c in spec['controls']], [p[0] for p in spec['params']]

    def table(cols, tag):
        if not cols:
            return np.array([])
        return np.array([list(vec(ctx, [ctx.real('%s.%s' % (tag, c) if c in conserved else '%s%d.%s' % (tag, i, c)) for c in cols]))
                         for i in range(n)], dtype=float if ctx.concrete else object).reshape(n, len(cols))
    t = vec(ctx, [ctx.real('t%d' % i) if (i or t0 is None) else t0 for i in range(n)])
    ctx.assume(t[-1] != t[0]) if not ctx.concrete else ctx.assume(abs(t[-1] - t[0]) > 1e-6)
    sol = Trajectory(t, table(xs, 'y'), np.array([]), table(us, 'u'))
    if dual:
        sol.dual = table(xs, 'lam')
        if give_dual_t:
            sol.dual_t = vec(ctx, [ctx.real('lamt' if timesym else 'lamt%d' % i) for i in range(n)])
    if spec['quads']:
        sol.q = table([q[0] for q in spec['quads']], 'q')
    sol.dynamical_parameters = vec(ctx, [ctx.real(p) for p in ps])
    sol.const = vec(ctx, [ctx.real(c[0], *((-kbound, kbound) if kbound else ())) for c in spec['consts']])
    return sol


def col(M, j):
    return np.asarray(M)[:, j]


def trig_domain(ctx, spec, sol, inside):
    """assume every bounded control lies strictly within its bounds (bounds evaluated from the user's text)."""
    from bsym.ocp import Oracle
    o = Oracle(spec)
    for c in spec['path']:
        if c[2]['method'] != 'epstrig':
            continue
        j = o.us.index(c[0])
        for i in range(len(sol.t)):
            env = {'t': sol.t[i]}
            env.update(zip(o.xs, sol.y[i]))
            env.update(zip(o.ps, sol.dynamical_parameters))
            env.update(zip([k[0] for k in spec['consts']], sol.const))
            if ctx.concrete:
                ctx.assume(abs(env.get('eps', 1)) > 0.05)
            lo, hi = o.ev(c[2]['lower'], env), o.ev(c[2]['upper'], env)
            # place the control by an angle so that the inverse sine is exact
            s = ctx.real('s%d.%s' % (i, c[0]), lo=-1.5, hi=1.5)
            ctx.assume(hi - lo > 0.01)
            sol.u[i, j] = lo + (hi - lo) * (1 + gsin(s)) / 2


FIELDS = ('t', 'y', 'q', 'u', 'dual', 'dual_t', 'dual_u', 'dynamical_parameters', 'nondynamical_parameters', 'const', 'cost', 'converged')


def snap(sol):
    import copy
    return {f: copy.deepcopy(getattr(sol, f)) for f in FIELDS}


def unchanged(ctx, tag, sol, before):
    for f in FIELDS:
        a, b = getattr(sol, f), before[f]
        if isinstance(b, np.ndarray):
            if np.shape(a) != np.shape(b):
                ctx.fail('%s keeps %s' % (tag, f), 'shape %r became %r' % (np.shape(b), np.shape(a)))
            elif b.size:
                ctx.eq('%s keeps %s' % (tag, f), np.array(a, dtype=object), np.array(b, dtype=object))
        elif f == 'converged':
            ctx.check('%s keeps %s' % (tag, f), a == b)


def either(ctx, label, d1, d2):
    """one of two differences vanishes."""
    if ctx.concrete:
        ctx.check(label, min(abs(float(d1)), abs(float(d2))) <= 1e-6, '%r %r' % (float(d1), float(d2)))
    else:
        ctx.check(label, SymBool(lift(d1) * lift(d2) == 0))


def trig_mid(spec, before, n):
    from bsym.ocp import Oracle
    o = Oracle(spec)
    out = {}
    for c in spec['path']:
        if c[2]['method'] == 'epstrig':
            out[c[0]] = []
            for i in range(n):
                env = {'t': before['t'][i]}
                env.update(zip(o.xs, before['y'][i]))
                env.update(zip(o.ps, before['dynamical_parameters']))
                env.update(zip([k[0] for k in spec['consts']], before['const']))
                out[c[0]].append((o.ev(c[2]['lower'], env) + o.ev(c[2]['upper'], env)) / 2)
    return out


def trip(ctx, kind, opts, n, meth='i', ok=(), dual_t=True, nu=False, conv=False):
    spec = problem(kind)
    bvp = indirect(spec, **opts) if meth == 'i' else direct(spec, **opts)
    red = opts.get('reduction')
    cons = []
    if red:
        for f, _ in spec['symmetries']:
            cons += [spec['states'][i][0] for i, c in enumerate(f) if c != '0']
    shift = opts.get('do_momentum_shift', meth == 'i')
    norm = opts.get('do_normalize_time', meth == 'i')
    sol = user_sol(ctx, spec, n, dual=meth == 'i', conserved=['lam.' + c for c in cons] and cons if False else (),
                   timesym=bool(red), give_dual_t=dual_t)
    if red:
        for c in cons:
            j = [s[0] for s in spec['states']].index(c)
            for i in range(n):
                sol.dual[i, j] = sol.dual[0, j]
    trig_domain(ctx, spec, sol, True)
    if nu:      # multipliers known from an earlier solution
        sol.nondynamical_parameters = vec(ctx, [ctx.real('nu%d' % i) for i in range(len(bvp.constraint_parameters))])
    sol.converged = conv
    before = snap(sol)
    m = bvp.map_sol(sol)
    unchanged(ctx, 'mapping', sol, before)

    # shape and order of the mapped trajectory
    st = names(bvp.states)
    ctx.check('one column per state', np.shape(m.y) == (n, len(st)), '%r for %r' % (np.shape(m.y), st))
    ctx.check('one column per quadrature', (np.shape(m.q)[1] if np.ndim(m.q) == 2 else np.size(m.q)) == len(bvp.quads))
    ctx.check('one value per parameter', np.shape(m.dynamical_parameters) == (len(bvp.parameters),))
    ctx.check('one value per constraint parameter', np.shape(m.nondynamical_parameters) == (len(bvp.constraint_parameters),))
    xs, us, ps = [s[0] for s in spec['states']], [c[0] for c in spec['controls']], [p[0] for p in spec['params']]
    want = {x: col(before['y'], i) for i, x in enumerate(xs)}
    if meth == 'i':
        want.update({'_lam_' + x: col(before['dual'], i) for i, x in enumerate(xs)})
    if shift:
        want['t'] = before['t']
        if meth == 'i':
            want['_lam_t'] = before['dual_t'] if dual_t else np.zeros(n)
    if opts.get('control_method') != 'algebraic':
        for i, u in enumerate(us):
            want[u] = col(before['u'], i)
            want['_lam_' + u] = np.zeros(n)
            want['_lam__%s_trig' % u] = np.zeros(n)
            if ok is not None and '_%s_trig' % u in st:
                want['_%s_trig' % u] = vec(ctx, [ctx.real('s%d.%s' % (r, u), lo=-1.5, hi=1.5) for r in range(n)])
    for j, s in enumerate(st):
        if s in want and s.startswith('_') and s.endswith('_trig') and not s.startswith('_lam'):
            # exact inverse of the substitution (known finding K1), and otherwise only the known halving of the sine
            ctx.eq('angle of bounded control is the inverse substitution', col(m.y, j), want[s])
            for r in range(n):
                a, b = gsin(m.y[r, j]), gsin(want[s][r])
                either(ctx, 'column ' + s, a - b, 2 * a - b)
        elif s in want:
            ctx.eq('column ' + s, col(m.y, j), want[s])
    t = before['t']
    if norm:
        ctx.eq('normalised time', np.array(m.t, dtype=object) * (t[-1] - t[0]), np.array([x - t[0] for x in t], dtype=object))
    else:
        ctx.eq('time', np.array(m.t), t)
    pv = dict(zip(names(bvp.parameters), m.dynamical_parameters))
    for i, p in enumerate(ps):
        ctx.eq('parameter ' + p, pv[p], before['dynamical_parameters'][i])
    for nme, v in pv.items():
        if nme.startswith('_delta'):
            ctx.eq('elapsed time', v, t[-1] - t[0])
    ctx.eq('constants', np.array(m.const), before['const'])
    if nu:
        ctx.eq('multipliers', np.array(m.nondynamical_parameters), before['nondynamical_parameters'])
    qs = [q[0] for q in spec['quads']]
    for i, q in enumerate(qs):
        ctx.eq('quadrature ' + q, col(m.q, names(bvp.quads).index(q)), col(before['q'], i))
    ctx.check('convergence kept', bool(m.converged) == conv)

    mid = snap(m)
    b = bvp.inv_map_sol(m)
    unchanged(ctx, 'mapping back', m, mid)
    if ctx.concrete:
        with np.errstate(all='ignore'):
            pass
    if norm and not shift:      # known finding K3: the initial time is lost
        ctx.eq('initial time is returned when time is no state', b.t[0], t[0])
        ctx.eq('returned t', np.array([x - b.t[0] for x in b.t], dtype=object), np.array([x - t[0] for x in t], dtype=object))
        either(ctx, 'returned initial time', b.t[0] - t[0], b.t[0])
    else:
        ctx.eq('returned t', np.array(b.t), before['t'])
    ctx.eq('returned states', np.array(b.y), before['y'])
    if opts.get('control_method') != 'algebraic':
        mids = trig_mid(spec, before, n)
        ctx.check('shape of returned controls', np.shape(b.u) == np.shape(before['u']))
        for j, u in enumerate(us):
            if u in mids and ok is not None:
                ctx.eq('bounded control returned unchanged', col(b.u, j), col(before['u'], j))
                for r in range(n):
                    x, y = b.u[r, j] - mids[u][r], before['u'][r, j] - mids[u][r]
                    either(ctx, 'returned controls', x - y, 2 * x - y)
            else:
                ctx.eq('returned controls', col(b.u, j), col(before['u'], j))
    if meth == 'i':
        ctx.eq('returned costates', np.array(b.dual), before['dual'])
        if dual_t and shift:
            ctx.eq('returned time momentum', np.array(b.dual_t), before['dual_t'])
    ctx.eq('returned parameters', np.array(b.dynamical_parameters), before['dynamical_parameters'])
    ctx.eq('returned constants', np.array(b.const), before['const'])
    ctx.check('number of returned quadratures', (np.shape(b.q)[1] if np.ndim(b.q) == 2 else np.size(b.q)) == len(qs))
    if qs:
        ctx.eq('returned quadratures', np.array(b.q), before['q'])
    ctx.check('convergence returned', bool(b.converged) == conv)


def T(id, fn, **cfg):
    return dict(id=id, fn=fn, cfg=cfg, nwit=2, tries=6, max_paths=300)


def tasks(tier):
    out = []
    alg, dg = dict(control_method='algebraic'), dict(method='diffyg')
    dga = dict(control_method='algebraic', method='diffyg')
    out = [T('base', 'trip', kind='base', opts={}, n=3), T('base-nodual', 'trip', kind='base', opts={}, n=3, dual_t=False),
           T('base-alg', 'trip', kind='base', opts=alg, n=3), T('base-dg', 'trip', kind='base', opts=dg, n=3), T('one-dga', 'trip', kind='one', opts=dga, n=3),
           T('ctl2', 'trip', kind='ctl2', opts={}, n=3), T('ctl2-dg', 'trip', kind='ctl2', opts=dg, n=2), T('ctl2-alg', 'trip', kind='ctl2', opts=alg, n=2),
           T('par', 'trip', kind='par', opts={}, n=3), T('par-dg', 'trip', kind='par', opts=dg, n=2), T('par-alg', 'trip', kind='par', opts=alg, n=2),
           T('trig', 'trip', kind='trig', opts={}, n=2), T('trig-dg', 'trip', kind='trig', opts=dg, n=2),
           T('trigvar', 'trip', kind='trigvar', opts={}, n=2), T('trigpar', 'trip', kind='trigpar', opts={}, n=2),
           T('trigsw', 'trip', kind='trigsw', opts={}, n=2), T('trigq', 'trip', kind='trigq', opts={}, n=2),
           T('pen', 'trip', kind='pen', opts={}, n=3), T('pen-alg', 'trip', kind='pen', opts=alg, n=2),
           T('sym-dg', 'trip', kind='sym', opts=dg, n=2), T('sym-red', 'trip', kind='sym', opts=dict(dg, reduction=True), n=3),
           T('symt-red', 'trip', kind='symt', opts=dict(dg, reduction=True), n=3), T('sympar-red', 'trip', kind='sympar', opts=dict(dg, reduction=True), n=2),
           T('symt-red-alg', 'trip', kind='symt', opts=dict(dga, reduction=True), n=2)]
    for kd in ('quad', 'quadpar'):
        out += [T(kd, 'trip', kind=kd, opts={}, n=2, conv=True), T(kd + '-alg', 'trip', kind=kd, opts=alg, n=2), T(kd + '-dg', 'trip', kind=kd, opts=dg, n=2, nu=True),
                T(kd + '-direct', 'trip', kind=kd, opts=dict(do_normalize_time=True, analytical_jacobian=False), n=2, meth='d')]
    out += [T('quadsym-red', 'trip', kind='quadsym', opts=dict(dg, reduction=True), n=2), T('base-nu', 'trip', kind='base', opts={}, n=2, nu=True, conv=True)]
    for ms in (False, True):
        for nt in (False, True):
            out.append(T('direct-%d%d' % (ms, nt), 'trip', kind='par', meth='d', n=3,
                         opts=dict(do_momentum_shift=ms, do_normalize_time=nt, analytical_jacobian=False)))
            out.append(T('direct-trig-%d%d' % (ms, nt), 'trip', kind='trig', meth='d', n=2,
                         opts=dict(do_momentum_shift=ms, do_normalize_time=nt, analytical_jacobian=False)))
    for tag, o in (('nonorm', dict(do_normalize_time=False)), ('nomom', dict(do_momentum_shift=False)), ('bare', dict(do_momentum_shift=False, do_normalize_time=False))):
        for kd in ('par', 'trig'):
            for mt, m in (('', {}), ('-dg', dg), ('-alg', alg)):
                if (kd, mt) != ('trig', '-alg'):
                    out.append(T('%s%s-%s' % (kd, mt, tag), 'trip', kind=kd, opts=dict(o, **m), n=2))
        out.append(T('sympar-red-' + tag, 'trip', kind='sympar', opts=dict(dg, reduction=True, **o), n=2))
    if tier == 'thorough':
        out += [T('base-5', 'trip', kind='base', opts={}, n=5), T('trig-alg', 'trip', kind='trig', opts=alg, n=2),
                T('sympar-dg', 'trip', kind='sympar', opts=dg, n=4), T('par-5', 'trip', kind='par', opts={}, n=5), T('sym-red-5', 'trip', kind='sym', opts=dict(dg, reduction=True), n=5)]
    return out
