"""C09: autoscaling is an exact, invertible change of units."""
import copy

import numpy as np

from bsym.core import evalx, gmax, lift
from bsym.ocp import S, Oracle, Point, direct, indirect, names, shared, vec

BOUNDS = ('problems with 2-3 states, 1-2 controls, 0-1 parameters, dimensional constants, penalties, trigonometric bounds and reduction; three '
          'independent base units of arbitrary positive size or defined by expressions in states, parameters, constants and time; trajectories of 2-3 nodes '
          'with arbitrary entries')
ASSUMPTIONS = ['the problem is dimensionally consistent (user obligation)', 'unit factors are non-zero']

K = lambda s: [tuple([c.split(':')[0], 1.0, c.split(':')[1]]) for c in s.split()]
UNITS = 'Lm:m Ls:s Lk:kg'
CONST = dict(m='Lm', s='Ls', kg='Lk')


def problem(kind):
    if kind == 'lq':         # every quantity dimensional
        return S(ind=('t', 's'), states=[('x', 'v', 'm'), ('v', 'u/mass - c*v**2 - g*cos(x/h)', 'm/s')], controls=[('u', 'kg*m/s**2')],
                 consts=K(UNITS + ' mass:kg c:1/m g:m/s**2 h:m xf:m w:s**2/kg/m**2 w2:1/m**2 w3:1/s**2'),
                 init=[('x', 'm'), ('v - h*w3*t', 'm/s'), ('t', 's')], term=[('x - xf', 'm')],
                 cost=dict(path='w*u**2/mass + v**2*w2', path_units='1/s**2', initial='w2*v*x', terminal='w2*v*x + w3*t', units='1/s'))
    if kind == 'pen':        # penalties
        return S(ind=('t', 's'), states=[('x', 'v', 'm'), ('v', 'u + g', 'm/s')], controls=[('u', 'm/s**2')],
                 consts=K(UNITS + ' g:m/s**2 lo:m hi:m eps:m**2/s**4 xf:m'), init=[('x', 'm'), ('v', 'm/s')], term=[('x - xf', 'm')],
                 path=[('x', 'm', dict(lower='lo', upper='hi', activator='eps', method='utm'))], cost=dict(path='u**2', path_units='m**2/s**4'))
    if kind == 'trig':
        return S(ind=('t', 's'), states=[('x', 'v', 'm'), ('v', 'u + w**2/g', 'm/s')], controls=[('u', 'm/s**2'), ('w', 'm/s**2')],
                 consts=K(UNITS + ' g:m/s**2 lo:m/s**2 hi:m/s**2 eps:m**2/s**4 xf:m'), init=[('x', 'm'), ('v', 'm/s')], term=[('x - xf', 'm')],
                 path=[('u', 'm/s**2', dict(lower='lo', upper='hi', activator='eps', method='epstrig'))], cost=dict(path='u**2 + w**2', path_units='m**2/s**4'))
    if kind == 'red':        # reduced with a translation symmetry of unit size
        return S(ind=('t', 's'), states=[('x', 'v*cos(th)', 'm'), ('v', 'g*sin(th)', 'm/s')], controls=[('th', '1')],
                 consts=K(UNITS + ' g:m/s**2 xf:m'), init=[('x', 'm'), ('v', 'm/s'), ('t', 's')], term=[('x - xf', 'm')],
                 cost=dict(path='1', path_units='1'), symmetries=[(['1', '0'], 'm')])
    if kind == 'two':        # two controls, no path cost
        return S(ind=('t', 's'), states=[('x', 'u*t', 'm'), ('z', 'w - k*z', 'kg')], controls=[('u', 'm/s**2'), ('w', 'kg/s')],
                 consts=K(UNITS + ' k:1/s xf:m a:s**4/m**2 b:s**2/kg**2'), init=[('x', 'm'), ('z', 'kg')], term=[('x*z - xf*z', 'm*kg')],
                 cost=dict(path='a*u**2 + b*w**2', path_units='1'))
    if kind == 'quads':      # quadratures of the user
        return S(ind=('t', 's'), states=[('x', 'v', 'm'), ('v', 'u', 'm/s')], controls=[('u', 'm/s**2')], consts=K(UNITS + ' xf:m k:kg/s'),
                 quads=[('qa', 'v*x', 'm**2'), ('qb', 'k*u', 'kg*m/s**2')], init=[('x', 'm'), ('v', 'm/s')], term=[('x - xf', 'm')],
                 cost=dict(path='u**2', path_units='m**2/s**4'))
    raise KeyError(kind)


PAR = S(ind=('t', 's'), states=[('x', 'v + p', 'm'), ('v', 'u - c*v*p', 'm/s')], controls=[('u', 'm/s**2')], params=[('p', 'm/s')],
        consts=K(UNITS + ' c:1/m xf:m a:kg'), init=[('x', 'm'), ('v - p', 'm/s')], term=[('x - xf', 'm')],
        cost=dict(path='a*(u**2 + c*u*v*p)', path_units='kg*m**2/s**4', terminal='a*p*v*c*x*c*v', units='kg*m**2/s**3'))


def get(kind, scale):
    if kind == 'par':
        sp = copy.deepcopy(PAR)
        sp['scale'] = scale
        return sp
    sp = copy.deepcopy(problem(kind))
    sp['scale'] = scale
    return sp


def unit_table(spec, bvp):
    """unit string of every named component, from the user's declarations and the definition of adjoints."""
    T = spec['ind'][1]
    c = spec['cost']
    C = '(%s)' % c['units'] if 'units' in c else '(%s)*(%s)' % (c['path_units'], T)
    u = {spec['ind'][0]: T, '_tau': '1', '_t': T}
    for n, _, un in spec['states']:
        u[n] = un
    for n, un in spec['controls'] + spec['params']:
        u[n] = un
    for n, _, un in spec['consts']:
        u[n] = un
    for n, _, un in spec['quads']:
        u[n] = un
    for n in list(u):
        u['_lam_' + n] = '%s/(%s)' % (C, u[n])
    for n, _ in spec['controls']:
        u['_%s_trig' % n] = '1'
        u['_lam__%s_trig' % n] = C
    for side, key in (('0', 'init'), ('f', 'term')):
        cons = [x for x in spec[key] if len(x) < 3]
        for i, x in enumerate(cons):
            u['_nu_%s_%d' % (side, i)] = '%s/(%s)' % (C, x[1])
    for s in bvp.parameters:
        if s.name.startswith('_delta'):
            u[s.name] = T
    for i, f in enumerate(spec['symmetries']):
        u['com_%d' % i] = '%s/(%s)' % (C, f[1])
        u['_q_%d' % i] = f[1]
    # the automatically found time symmetry comes last
    n = len(spec['symmetries'])
    u['com_%d' % n] = '%s/(%s)' % (C, T)
    u['_q_%d' % n] = T
    return u, C, T


def trajectory(ctx, bvp, n, ov=None):
    from beluga.numeric.data_classes.Trajectory import Trajectory
    ov = ov or {}
    p, nu, k, senv = shared(ctx, bvp, ov)
    ctl = names(bvp.controls)

    def table(structs, tag):
        return np.array([list(vec(ctx, [ctx.real('%s%d.%s' % (tag, i, s.name)) for s in structs])) for i in range(n)],
                        dtype=float if ctx.concrete else object).reshape(n, len(structs))
    sol = Trajectory(vec(ctx, [ctx.real('t%d' % i) for i in range(n)]), table(bvp.states, 'n'))
    sol.q = table(bvp.quads, 'q') if len(bvp.quads) else np.array([])
    if ctl:
        sol.u = table(bvp.controls, 'u')
    sol.dynamical_parameters, sol.nondynamical_parameters, sol.const = p, nu, k
    return sol, senv


FIELDS = ('t', 'y', 'q', 'u', 'dynamical_parameters', 'nondynamical_parameters', 'const')


def comps(bvp):
    return dict(t=[bvp.independent_variable], y=bvp.states, q=bvp.quads, u=bvp.controls, dynamical_parameters=bvp.parameters,
                nondynamical_parameters=bvp.constraint_parameters, const=bvp.constants)


def snap(sol):
    return {f: np.array(getattr(sol, f), dtype=object).copy() for f in FIELDS}


def factors_of(ctx, spec, bvp, unit):
    """oracle factor per component name."""
    tab, C, T = unit_table(spec, bvp)
    ev = lambda s: evalx(s, unit)
    return {n: (ev(u)) for n, u in tab.items()}, C, T


def round_trip(ctx, fp, bvp, sol, fac, label=''):
    sf = fp.compute_scale_factors(sol)
    before = snap(sol)
    sc = fp.scale_sol(sol, sf)
    for f, st in comps(bvp).items():
        a, b = np.asarray(getattr(sc, f)), before[f]
        ctx.check('shape ' + f, a.shape == b.shape or (a.size == 0 and b.size == 0))
        if a.size == 0:
            continue
        for j, s in enumerate(st):
            col = (lambda M: M if f == 't' else (M[:, j] if M.ndim == 2 else M[j:j + 1]))
            ctx.eq('scaled %s:%s' % (f, s.name), col(a) * fac[s.name], col(b))
    mid = snap(sc)
    back = fp.scale_sol(sc, sf, inv=True)
    for f in FIELDS:
        ctx.eq('input kept ' + f, np.array(getattr(sol, f), dtype=object), before[f])
        ctx.eq('scaled input kept ' + f, np.array(getattr(sc, f), dtype=object), mid[f])
        ctx.eq('returned ' + f, np.array(getattr(back, f), dtype=object), before[f])
    return sc, sf


def factors(ctx, kind, scale, opts, n, meth='i'):
    """unit factors come from the magnitudes named by the scale expressions."""
    spec = get(kind, scale)
    bvp = indirect(spec, **opts) if meth == 'i' else direct(spec, **opts)
    fp = bvp.functional_problem
    sol, senv = trajectory(ctx, bvp, n)
    env = {}
    for st, M in ((bvp.states, sol.y), (bvp.quads, sol.q), ([bvp.independent_variable], sol.t.reshape(-1, 1))):
        for j, s in enumerate(st):
            env[s.name] = gmax([abs(v) for v in M[:, j]])
    for nme, v in senv.items():
        env[nme] = abs(v)
    unit = {}
    for un, ex in scale.items():
        unit[un] = evalx(str(ex), env)
        if not ctx.concrete and not isinstance(unit[un], (int, float)):
            ctx.assume(unit[un] != 0)
        elif ctx.concrete:
            ctx.assume(unit[un] != 0 and np.isfinite(unit[un]))
    fac, C, T = factors_of(ctx, spec, bvp, unit)
    round_trip(ctx, fp, bvp, sol, fac)


def invariance(ctx, kind, opts, meth='i'):
    """the formulated problem means the same in the new units."""
    spec = get(kind, CONST)
    bvp = indirect(spec, **opts) if meth == 'i' else direct(spec, **opts)
    fp = bvp.functional_problem
    unit = {un: ctx.real(c, lo=0.1) for un, c in CONST.items()}
    sol, senv = trajectory(ctx, bvp, 2, {c: unit[un] for un, c in CONST.items()})
    fac, C, T = factors_of(ctx, spec, bvp, unit)
    sc, sf = round_trip(ctx, fp, bvp, sol, fac)
    p, nu, k = sol.dynamical_parameters, sol.nondynamical_parameters, sol.const
    P, N, Kc = sc.dynamical_parameters, sc.nondynamical_parameters, sc.const
    ft = fac[bvp.independent_variable.name]
    if fp.compute_u is not None and meth == 'i':
        a, b = fp.compute_u(sol.y[0], p, k), fp.compute_u(sc.y[0], P, Kc)
        for j, s in enumerate(bvp.controls):
            ctx.eq('control ' + s.name, b[j] * fac[s.name], a[j])
    a, b = fp.deriv_func(sol.y[0], p, k), fp.deriv_func(sc.y[0], P, Kc)
    for j, s in enumerate(bvp.states):
        ctx.eq('rate ' + s.name, b[j] * fac[s.name] / ft, a[j])
    if len(bvp.quads):
        a, b = fp.quad_func(sol.y[0], p, k), fp.quad_func(sc.y[0], P, Kc)
        for j, s in enumerate(bvp.quads):
            ctx.eq('quadrature rate ' + s.name, b[j] * fac[s.name] / ft, a[j])
        a = fp.bc_func(sol.y[0], sol.q[0], sol.y[-1], sol.q[-1], p, nu, k)
        b = fp.bc_func(sc.y[0], sc.q[0], sc.y[-1], sc.q[-1], P, N, Kc)
    else:
        a = fp.bc_func(sol.y[0], sol.y[-1], p, nu, k)
        b = fp.bc_func(sc.y[0], sc.y[-1], P, N, Kc)
    # a residual may only pick up the factor of its own dimension
    Cv, Tv = evalx(C, unit), evalx(T, unit)
    cand = [evalx(x[1], unit) for x in spec['init'] + spec['term']]
    cand += [v for n_, v in fac.items() if n_.startswith('_lam_')]
    cand += [Cv / Tv] + [Cv / Tv / evalx(u, unit) for _, u in spec['controls']] + [Cv / Tv]
    cand += [Cv]
    if ctx.concrete:
        num = float
    else:
        ev = ctx._sample()
        num = lambda z: ev(lift(z))
    for r, (x, y) in enumerate(zip(a, b)):
        pick = cand[0]
        for c in cand:
            q, w = num(x), num(y * c)
            if q is None or w is None:
                continue
            if abs(q - w) <= 1e-7 * (abs(q) + abs(w)) + (1e-12 if ctx.concrete else 0):
                pick = c
                break
        ctx.eq('residual %d' % r, y * pick, x)


def T(id, fn, **cfg):
    return dict(id=id, fn=fn, cfg=cfg, nwit=3, tries=8, max_paths=300)


def tasks(tier):
    out = []
    dif, alg = {}, dict(control_method='algebraic')
    dg = dict(method='diffyg')
    out += [T('inv-lq', 'invariance', kind='lq', opts=dif), T('inv-lq-alg', 'invariance', kind='lq', opts=alg),
            T('inv-lq-dg', 'invariance', kind='lq', opts=dg), T('inv-par', 'invariance', kind='par', opts=dif),
            T('inv-par-alg', 'invariance', kind='par', opts=alg), T('inv-pen', 'invariance', kind='pen', opts=dif),
            T('inv-trig', 'invariance', kind='trig', opts=dif), T('inv-two', 'invariance', kind='two', opts=dif),
            T('inv-two-alg', 'invariance', kind='two', opts=alg),
            T('inv-red', 'invariance', kind='red', opts=dict(method='diffyg', reduction=True))]
    out += [T('fac-quads', 'factors', kind='quads', scale=dict(m='x', s='Ls', kg='k*Ls'), opts=dif, n=2), T('inv-quads', 'invariance', kind='quads', opts=dif)]
    out += [T('fac-state', 'factors', kind='lq', scale=dict(m='x', s='x/v', kg='mass'), opts=dif, n=2),
            T('fac-mix', 'factors', kind='lq', scale=dict(m='h + x', s='Ls', kg='mass*3'), opts=dif, n=3),
            T('fac-num', 'factors', kind='two', scale=dict(m=1, s='2', kg='z'), opts=dif, n=3),
            T('fac-par', 'factors', kind='par', scale=dict(m='x', s='x/p', kg='a'), opts=alg, n=2),
            T('fac-delta', 'factors', kind='pen', scale=dict(m='hi', s='_delta_t', kg=1), opts=dif, n=2),
            T('fac-one', 'factors', kind='pen', scale=dict(m='hi', s='v', kg=1), opts=alg, n=1)]
    if tier == 'thorough':
        out += [T('inv-pen-alg', 'invariance', kind='pen', opts=alg), T('inv-par-dg', 'invariance', kind='par', opts=dg),
                T('inv-trig-dg', 'invariance', kind='trig', opts=dg), T('inv-two-dg', 'invariance', kind='two', opts=dg)]
    return out
