"""C05: constants of motion from symmetries, and symplectic reduction."""
import numpy as np

from bsym.core import evalx
from bsym.ocp import S, Oracle, Point, indirect, names, shared, vec

BOUNDS = ('problems with 2-3 states, 1-2 controls and one or two translation symmetries along a coordinate, of any fixed size (plus the automatically detected time '
          'symmetry); constants of motion also for rotations, scalings, diagonal and sized translations; polynomial and trigonometric dynamics with symbolic coefficients that do not depend on the symmetric '
          'coordinates; differential and algebraic control; one interior point on the stationary set, arbitrary boundary points '
          'with the conserved momentum equal at both ends, trajectories of 2-3 nodes')
ASSUMPTIONS = ['declared symmetries really leave dynamics and running cost unchanged (user obligation)', 'divisors are non-zero']

K = lambda s: [(c, 1.0, '1') for c in s.split()]


def spec(kind, sign=1):
    sg = str(sign)
    if kind == 'brach':
        return S(states=[('x', 'v*cos(theta)', '1'), ('y', 'v*sin(theta)', '1'), ('v', 'g*sin(theta)', '1')], controls=[('theta', '1')],
                 consts=K('g a b xf yf'), init=[('x', '1'), ('y', '1'), ('v', '1'), ('t', '1')], term=[('x - xf', '1'), ('y - yf', '1')],
                 cost=dict(path='1 + a*theta**2 + b*theta', path_units='1', terminal='a*x**2', units='1'),
                 symmetries=[([sg, '0', '0'], '1')])
    if kind == 'brach2':
        s = spec('brach', sign)
        s['symmetries'] = [([sg, '0', '0'], '1'), (['0', sg, '0'], '1')]
        return s
    if kind == 'mid':        # symmetric coordinate is not the first state; explicit time in the dynamics
        return S(states=[('v', 'a*u + c*v*t', '1'), ('x', 'v + d*u**2', '1'), ('w', 'e*v*u - w', '1')], controls=[('u', '1')],
                 consts=K('a c d e b xf'), init=[('v', '1'), ('x - 1', '1'), ('w', '1'), ('t', '1')], term=[('x - xf', '1'), ('w*v', '1')],
                 cost=dict(path='u**2 + v*u + b*u', path_units='1', initial='x*v', units='1'),
                 symmetries=[(['0', sg, '0'], '1')])
    if kind == 'poly':
        return S(states=[('x', 'a*v + c*u', '1'), ('v', 'd*v**2 + e*u*v + f*u', '1')], controls=[('u', '1')],
                 consts=K('a b c d e f xf'), init=[('x', '1'), ('v - 1', '1')], term=[('x - xf', '1')],
                 cost=dict(path='u**2 + v**2 + b*u', path_units='1'), symmetries=[([sg, '0'], '1')])
    if kind == 'two':        # two controls
        return S(states=[('x', 'u + a*w*v', '1'), ('v', 'c*u*v + w', '1')], controls=[('u', '1'), ('w', '1')],
                 consts=K('a b c h xf'), init=[('x', '1'), ('v - 1', '1')], term=[('x - xf', '1')],
                 cost=dict(path='u**2 + 2*w**2 + b*u + h*w', path_units='1'), symmetries=[([sg, '0'], '1')])
    if kind in ('rot', 'rot-time'):        # rotation of a plane
        tt = '*(1 + a*t)' if kind == 'rot-time' else ''
        return S(states=[('x', 'x*u - y*w' + tt, '1'), ('v', 'v*u + (x**2 + y**2)*w*a', '1'), ('y', 'y*u + x*w' + tt, '1')], controls=[('u', '1'), ('w', '1')],
                 consts=K('a b h xf'), init=[('x - 1', '1'), ('y', '1'), ('v', '1')] + ([('t', '1')] if tt else []), term=[('x - xf', '1')],
                 cost=dict(path='u**2 + 2*w**2 + b*u + h*w + v*(x**2 + y**2)', path_units='1'), symmetries=[(['-y', '0', 'x'], '1')])
    if kind == 'scaling':
        return S(states=[('v', 'a*v*u + u', '1'), ('x', 'x*u + c*x*v', '1')], controls=[('u', '1')], consts=K('a b c xf'), init=[('x - 1', '1'), ('v', '1')], term=[('x - xf', '1')],
                 cost=dict(path='u**2 + b*u + v**2', path_units='1'), symmetries=[(['0', 'x'], '1')])
    if kind == 'diag':        # moving both coordinates together
        return S(states=[('x', 'a*(x - v) + u', '1'), ('v', 'c*u**2 + (x - v)**2', '1')], controls=[('u', '1')], consts=K('a b c xf'), init=[('x', '1'), ('v - 1', '1')], term=[('x - xf', '1')],
                 cost=dict(path='u**2 + b*u + (x - v)*u', path_units='1'), symmetries=[(['1', '1'], '1')])
    if kind == 'diag3':       # the same, unevenly, with a third state
        return S(states=[('x', 'a*(2*x - v) + u*w', '1'), ('w', 'u + 2*x - v', '1'), ('v', '2*c*u**2 + w', '1')], controls=[('u', '1')], consts=K('a b c xf'),
                 init=[('x', '1'), ('v - 1', '1'), ('w', '1')], term=[('x - xf', '1')], cost=dict(path='u**2 + b*u + (2*x - v)**2*w', path_units='1'), symmetries=[(['1', '0', '2'], '1')])
    if kind == 'sized':        # translations of a size given by constants and numbers, sheared by the other state
        return S(states=[('x', 'a*v + c*u', '1'), ('y', 'v*u + y', '1'), ('v', 'd*v**2 + e*u', '1')], controls=[('u', '1')], consts=K('a b c d e xf'), init=[('x', '1'), ('y', '1'), ('v - 1', '1')],
                 term=[('x - xf', '1')], cost=dict(path='u**2 + v**2 + b*u', path_units='1'), symmetries=[(['3', '0', '0'], '1'), (['-c', '0', '0'], '1')])
    raise KeyError(kind)


STAT = {'rot': ['b', 'h'], 'rot-time': ['b', 'h'], 'scaling': ['b'], 'diag': ['b'], 'diag3': ['b'], 'sized': ['b'], 'brach': ['b'], 'brach2': ['b'], 'mid': ['b'], 'poly': ['b'], 'two': ['b', 'h']}

# problems for automatic time symmetry detection: where (if anywhere) time enters
AUTO = {
    'none': (dict(), True),
    'eom': (dict(eom='a*u + x*t'), False),
    'cost': (dict(path='u**2 + b*u + x*t'), False),
    'ucost': (dict(path='u**2 + b*u + u*t'), False),
    'constraint': (dict(pc=('x', dict(lower='-8 - t', upper='9 + c*t', activator='eps', method='utm'))), False),
    'constraint-expr': (dict(pc=('x + t', dict(lower='-8', upper='9', activator='eps', method='utm'))), False),
    'constraint-free': (dict(pc=('x', dict(lower='-8', upper='9', activator='eps', method='utm'))), True),
    'switch': (dict(eom='a*u + sw', sw=('sw', ['x'], [['t - c']], 'eps')), False),
    'quantity': (dict(path='u**2 + b*u + qq', q=('qq', 'x*t')), False),
    'bcost': (dict(terminal='x*t'), True),
    'bcon': (dict(term='x - t'), True),
}


def auto_spec(kind):
    d, _ = AUTO[kind]
    s = S(states=[('x', d.get('eom', 'a*u + x'), '1')], controls=[('u', '1')], consts=K('a b c eps xf'),
          init=[('x', '1'), ('t', '1')], term=[(d.get('term', 'x - xf'), '1')],
          cost=dict(path=d.get('path', 'u**2 + b*u + x**2'), path_units='1'))
    if 'terminal' in d:
        s['cost'].update(terminal=d['terminal'], units='1')
    if 'pc' in d:
        s['path'] = [(d['pc'][0], '1', d['pc'][1])]
    if 'sw' in d:
        s['switches'] = [d['sw']]
    if 'q' in d:
        s['quantities'] = [d['q']]
    return s


def hfun(bvp):
    """the generated Hamiltonian as a function of named values (the definition itself is C01's subject)."""
    e = str(bvp.hamiltonian.expr)
    return lambda env: evalx(e, env)


def stationary_env(ctx, o, bvp, ks, P):
    """choose the stationarity constants so that the point is on the stationary set."""
    H = hfun(bvp)
    _, _, _, s0 = shared(ctx, bvp, {kn: 0 for kn in ks})
    e0 = dict(s0, **P.env)
    vals = [-o.d(H, e0, u) for u in o.us]
    return dict(zip(ks, vals))


def conserved(ctx, kind, sign, auto, opts):
    sp = auto_spec(kind) if auto else spec(kind, sign)
    o = Oracle(sp)
    bvp = indirect(sp, method='diffyg', **opts)
    fp = bvp.functional_problem
    P = Point(ctx, bvp, 'm.')
    alg = opts.get('control_method') == 'algebraic'
    ov = {} if alg else stationary_env(ctx, o, bvp, ['b'] if auto else STAT[kind], P)
    p, nu, k, senv = shared(ctx, bvp, ov)
    env = dict(senv, **P.env)
    if alg:
        env.update(dict(zip(o.us, fp.compute_u(P.y, p, k))))
    rate = dict(zip(names(bvp.states), fp.deriv_func(P.y, p, k)))
    coms = bvp.constants_of_motion
    exp = 1 + len(sp['symmetries'])
    if auto:
        exp += 1 if AUTO[kind][1] else 0
        ctx.check('recorded constants of motion', len(coms) == exp,
                  'got %s' % [str(c.expr) for c in coms])
    else:
        ctx.check('a constant of motion per symmetry', len(coms) >= exp, 'got %s' % [str(c.expr) for c in coms])
    for i, c in enumerate(coms):
        if i == 0 and alg:
            continue      # the Hamiltonian itself needs du/dt; its constancy is covered with differential control
        f = lambda e, ex=str(c.expr): evalx(ex, e)
        dirs = {n: v for n, v in rate.items() if n in env}
        ctx.eq('conserved:%d' % i, o.dd(f, env, dirs), 0)
    if not auto:
        # momentum along the declared field
        for i, f in enumerate(sp['symmetries']):
            m = 0
            for n, v in zip(o.xs, f[0]):
                if v != '0':
                    m = m + evalx(v, env) * env['_lam_' + n]
            ctx.eq('momentum of symmetry %d' % i, evalx(str(coms[1 + i].expr), env), m)


def removed(sp, R):
    """per symmetry: its field by state, and the state that reduction removed"""
    xs = [x[0] for x in sp['states']]
    left = names(R.states)
    out = []
    for f, _ in sp['symmetries']:
        field = {n: float(v) for n, v in zip(xs, f) if float(v)}
        out.append((field, [n for n in field if n not in left][0]))
    return out


def along(field, env, prefix=''):
    r = 0
    for n, v in field.items():
        r = r + v * env[prefix + n]
    return r


def reduced(ctx, kind, sign, opts):
    sp = spec(kind, sign)
    o = Oracle(sp)
    U = indirect(sp, method='diffyg', **opts)
    R = indirect(sp, method='diffyg', reduction=True, **opts)
    alg = opts.get('control_method') == 'algebraic'
    sym = removed(sp, R)
    gone = [g for _, g in sym]
    newp = [n for n in names(R.parameters) if n not in names(U.parameters)]
    newq = [n for n in names(R.quads) if n not in names(U.quads)]
    ctx.same('one parameter per symmetry', len(newp), len(gone))
    ctx.same('one quadrature per symmetry', len(newq), len(gone))
    ctx.same('remaining states', names(R.states), [n for n in names(U.states) if n not in gone and n[5:] not in gone])
    P = Point(ctx, U, 'm.')
    ov = {} if alg else stationary_env(ctx, o, indirect(sp, method='diffyg', **opts), STAT[kind], P)

    def rpoint(Q, env):
        """the reduced point that corresponds to a point of the unreduced problem."""
        y = vec(ctx, [env[n] for n in names(R.states)])
        rv = dict(env)
        for pn, qn, (f, _) in zip(newp, newq, sym):
            rv[pn] = along(f, env, '_lam_')
            rv[qn] = along(f, env)
        q = vec(ctx, [rv[n] for n in names(R.quads)])
        pr = vec(ctx, [rv[n] for n in names(R.parameters)])
        return y, q, pr
    p, nu, k, senv = shared(ctx, U, ov)
    env = dict(senv, **P.env)
    y, q, pr = rpoint(P, env)
    fu, fr = U.functional_problem, R.functional_problem
    ru = dict(zip(names(U.states), fu.deriv_func(P.y, p, k)))
    rr = dict(zip(names(R.states), fr.deriv_func(y, pr, k)))
    for n in rr:
        ctx.eq('rate:' + n, rr[n], ru[n])
    qr = dict(zip(names(R.quads), fr.quad_func(y, pr, k)))
    for qn, (f, g) in zip(newq, sym):
        ctx.eq('quadrature rate of ' + g, qr[qn], along(f, ru))
        ctx.eq('momentum rate of ' + g, along(f, ru, '_lam_'), 0)
    # constants of motion still recorded are those of the unreduced problem, in the reduced variables
    full = {c.name: c for c in U.constants_of_motion}
    renv = {n: v for n, v in senv.items() if n not in names(U.parameters)}
    renv.update(zip(names(R.states), y))
    renv.update(zip(names(R.quads), q))
    renv.update(zip(names(R.parameters), pr))
    uenv = dict(env)
    if alg:
        us = dict(zip(o.us, fu.compute_u(P.y, p, k)))
        renv.update(us)
        uenv.update(us)
    for c in R.constants_of_motion:
        ctx.eq('recorded constant of motion ' + c.name, evalx(str(c.expr), renv), evalx(str(full[c.name].expr), uenv))
    # boundary conditions, conserved momentum the same at both ends
    p, nu, k, senv = shared(ctx, U)
    A = Point(ctx, U, 'i.')
    same = {}
    for f, g in sym:
        rest = sum((v * ctx.real('f._lam_' + n) for n, v in f.items() if n != g), 0)
        same['_lam_' + g] = (along(f, A.env, '_lam_') - rest) / f[g]
    B = Point(ctx, U, 'f.', overrides=same)
    e0, ef = dict(senv, **A.env), dict(senv, **B.env)
    y0, q0, pr = rpoint(A, e0)
    yf, qf, _ = rpoint(B, ef)
    if len(U.quads):
        ub = list(fu.bc_func(A.y, A.q, B.y, B.q, p, nu, k))
    else:
        ub = list(fu.bc_func(A.y, B.y, p, nu, k))
    rb = list(fr.bc_func(y0, q0, yf, qf, pr, nu, k))
    ctx.match('boundary', rb, ub)
    if opts.get('do_normalize_time', True):
        ctx.same('square', len(rb), len(R.states) + len(R.quads) + len(pr) + len(nu))


def mapping(ctx, kind, sign, nodes, opts):
    """into the reduced coordinates and back is the identity on trajectories with constant momentum."""
    from beluga.numeric.data_classes.Trajectory import Trajectory
    sp = spec(kind, sign)
    o = Oracle(sp)
    R = indirect(sp, method='diffyg', reduction=True, **opts)
    U = indirect(sp, method='diffyg', **opts)
    sym = removed(sp, R)
    newp = [n for n in names(R.parameters) if n not in names(U.parameters)]
    y = ctx.matrix('y', nodes, len(o.xs))
    lam = ctx.matrix('lam', nodes, len(o.xs))
    row = lambda i: dict(zip(o.xs, lam[i]))
    for f, g in sym:
        for i in range(1, nodes):
            rest = {n: v for n, v in f.items() if n != g}
            lam[i, o.xs.index(g)] = (along(f, row(0)) - along(rest, row(i))) / f[g]
    u = ctx.matrix('u', nodes, len(o.us))
    t = vec(ctx, [ctx.real('t0') if opts.get('do_momentum_shift', True) or not opts.get('do_normalize_time', True) else 0.0] + [ctx.real('t%d' % i) for i in range(1, nodes)])
    for i in range(nodes - 1):
        ctx.assume(t[i + 1] > t[i])
    dt = ctx.reals('dt', nodes)
    k = ctx.reals('k', len(R.constants))
    mk = lambda: None
    sol = Trajectory(np.array(t), np.array(y), np.zeros((nodes, 0)), np.array(u))
    sol.dual, sol.dual_t, sol.const = np.array(lam), np.array(dt), np.array(k)
    m = R.map_sol(sol)
    mp = dict(zip(names(R.parameters), m.dynamical_parameters))
    for pn, (f, g) in zip(newp, sym):
        ctx.eq('conserved momentum parameter', mp[pn], along(f, row(0)))
    ctx.same('mapped widths', (m.y.shape, m.q.shape, len(m.dynamical_parameters)),
             ((nodes, len(R.states)), (nodes, len(R.quads)), len(R.parameters)))
    back = R.inv_map_sol(m)
    ctx.eq('time', back.t, t)
    ctx.eq('states', back.y, y)
    ctx.eq('costates', back.dual, lam)
    ctx.eq('time costate', back.dual_t, dt)
    if opts.get('control_method') != 'algebraic':
        ctx.eq('controls', back.u, u)
    ctx.same('parameters', len(back.dynamical_parameters), 0)
    ctx.eq('constants', back.const, k)


def T(id, fn, **cfg):
    return dict(id=id, fn=fn, cfg=cfg, nwit=1, tries=5)


def tasks(tier):
    al = dict(control_method='algebraic')
    out = []
    for kd in ('brach', 'mid', 'poly', 'two', 'brach2'):
        out.append(T('com-' + kd, 'conserved', kind=kd, sign=1, auto=False, opts={}))
    for kd in ('rot', 'rot-time', 'scaling', 'diag', 'diag3', 'sized'):
        out.append(T('com-' + kd, 'conserved', kind=kd, sign=1, auto=False, opts={}))
    out.append(T('com-neg-mid', 'conserved', kind='mid', sign=-1, auto=False, opts={}))
    out.append(T('com-alg-poly', 'conserved', kind='poly', sign=1, auto=False, opts=al))
    out += [T('auto-' + a, 'conserved', kind=a, sign=1, auto=True, opts={}) for a in AUTO]
    for kd, sg in (('brach', 1), ('mid', 1), ('mid', -1), ('poly', 1), ('two', 1), ('brach2', 1)):
        n = kd + ('-neg' if sg < 0 else '')
        out.append(T('red-' + n, 'reduced', kind=kd, sign=sg, opts={}))
        out.append(T('map-' + n, 'mapping', kind=kd, sign=sg, nodes=2, opts={}))
    for kd, sg in (('brach', 3), ('poly', -2)):
        out.append(T('red-%s-by%d' % (kd, sg), 'reduced', kind=kd, sign=sg, opts={}))
        out.append(T('map-%s-by%d' % (kd, sg), 'mapping', kind=kd, sign=sg, nodes=2, opts={}))
    out += [T('red-alg-poly', 'reduced', kind='poly', sign=1, opts=al), T('map-alg-poly', 'mapping', kind='poly', sign=1, nodes=2, opts=al)]
    for tag, o in (('nonorm', dict(do_normalize_time=False)), ('nomom', dict(do_momentum_shift=False)), ('bare', dict(do_momentum_shift=False, do_normalize_time=False))):
        for kd in ('mid', 'poly') if tag == 'nonorm' else ('poly', 'two'):
            out += [T('com-%s-%s' % (kd, tag), 'conserved', kind=kd, sign=1, auto=False, opts=o), T('red-%s-%s' % (kd, tag), 'reduced', kind=kd, sign=1, opts=o),
                    T('map-%s-%s' % (kd, tag), 'mapping', kind=kd, sign=1, nodes=2, opts=o)]
        out += [T('red-alg-poly-' + tag, 'reduced', kind='poly', sign=1, opts=dict(al, **o))]
    if tier == 'thorough':
        out += [T('map3-' + kd, 'mapping', kind=kd, sign=-1, nodes=3, opts={}) for kd in ('brach', 'mid', 'poly', 'two', 'brach2')]
        out += [T('red-neg-' + kd, 'reduced', kind=kd, sign=-1, opts={}) for kd in ('brach', 'poly', 'two', 'brach2')]
        out += [T('red-alg-two', 'reduced', kind='two', sign=1, opts=al)]
    return out
