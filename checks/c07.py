"""C07: quantities are macros, in any order of definition and wherever they are used."""
import itertools

import numpy as np

from bsym.core import evalx
from bsym.ocp import S, Oracle, Point, names, shared, vec
from checks.c06 import B, by_hand, formulate

BOUNDS = ('2-4 quantities forming chains, trees and diamonds (reference depth up to 4), every order of declaration (up to 24), used in dynamics, quadratures, '
          'all three costs, equality constraints, inequality expressions and bounds, switch pieces and conditions, function arguments and scale expressions; '
          'arbitrary evaluation points')
ASSUMPTIONS = ['quantity definitions are acyclic']

K = lambda s: [(c, 1.0, '1') for c in s.split()]

DEFS = {
    'chain3': [('qa', 'qb*x + a'), ('qb', 'qc**2 - v'), ('qc', 'c*x + u')],
    'chain4': [('qa', 'qb + v*qb'), ('qb', 'qc*d'), ('qc', 'qd + x'), ('qd', 'c*v - u')],
    'diamond': [('qa', 'qb*qc + x'), ('qb', 'qd + a'), ('qc', 'qd*v'), ('qd', 'x*v + c')],
    'tree': [('qa', 'x + c'), ('qb', 'v*qa'), ('qc', 'qa**2'), ('qd', 'qa + 2*qb')],
    'pair': [('qa', 'qb*v'), ('qb', 'sin(x)*c + u')],
}
TOP = {'chain3': 'qa qb qc', 'chain4': 'qa qd qb', 'diamond': 'qa qd qc', 'tree': 'qd qc qb', 'pair': 'qa qb qa'}


def problem(defs, top, where):
    p, q, r = top.split()
    s = S(states=[('x', 'a*v + u', '1'), ('v', 'u*x - v*d', '1')], controls=[('u', '1')], consts=K('a c d eps xf'),
          init=[('x - a', '1')], term=[('x - xf', '1')], cost=dict(path='u**2 + x', path_units='1', initial='x', terminal='v', units='1'),
          quantities=list(defs))
    if where == 'eom':
        s['states'] = [('x', '%s*v + %s' % (p, q), '1'), ('v', '%s - %s*d' % (r, p), '1')]
        s['quads'] = [('z', '%s*x + %s' % (p, r), '1')]
    elif where == 'cost':
        s['cost'] = dict(path='%s + u*%s' % (p, q), path_units='1')
        s['cost'].update(initial='x*w1 + w2', terminal='w1 - w2**2', units='1')
        s['quantities'] = s['quantities'] + [('w1', 'w2 + v'), ('w2', 'x*c')]
    elif where == 'bcost':
        s['cost'] = dict(path='sin(%s)*u' % p, path_units='1', initial='sin(w1)*x + 1/w2', terminal='cos(w2) + w1**3 + v/w1', units='1')
        s['quantities'] = s['quantities'] + [('w1', 'w2 + v'), ('w2', 'x*c')]
    elif where == 'bc':
        s['init'] = [('x - w1', '1'), ('w2*v', '1')]
        s['term'] = [('w2 - xf', '1')]
        s['quantities'] = s['quantities'] + [('w1', 'w2 + v'), ('w2', 'x*c')]
    elif where == 'path':
        s['path'] = [('x + %s' % p, '1', B('%s - 4' % q, '%s + %s' % (r, p), 'eps', 'utm'))]
    elif where == 'switch':
        s['switches'] = [('sw', [p, 'x*%s' % q], [['%s - xf' % r], ['x - %s' % q, 'v']], 'eps')]
        s['states'][0] = ('x', 'v + sw', '1')
        s['cost']['path'] = 'u*sw'
    return s


def macro(ctx, defs, where, orders):
    d = DEFS[defs]
    perms = list(itertools.permutations(range(len(d))))
    if orders:
        perms = [perms[i] for i in orders if i < len(perms)]
    perm = ctx.choice('order', perms)
    spec = problem([d[i] for i in perm], TOP[defs], where)
    n0, bvp = formulate(spec, do_momentum_shift=True)
    fp = bvp.functional_problem
    o = Oracle(by_hand(spec, {}))
    p, nu, k, senv = shared(ctx, bvp)
    P = Point(ctx, bvp, 'm.')
    u = vec(ctx, [ctx.real('m.u')])
    env = dict(senv, **P.env)
    env['u'] = u[0]
    rate = dict(zip(names(bvp.states), fp.deriv_func(P.y, u, p, k)))
    for x in o.xs:
        ctx.eq('rate:' + x, rate[x], o.f(x, env))
    if spec['quads']:
        ctx.eq('quadrature rate', list(fp.compute_q_dot(P.y, u, p, k)), [o.ev(q[1], env) for q in spec['quads']])
    ctx.eq('path cost', fp.path_cost_func(P.y, u, p, k), o.L(env))
    if not spec['quads']:
        A, Z = Point(ctx, bvp, 'i.'), Point(ctx, bvp, 'f.')
        e0, ef = dict(senv, **A.env), dict(senv, **Z.env)
        ctx.eq('initial cost', fp.initial_cost_func(A.y, p, nu, k), o.Phi(0, e0, []))
        ctx.eq('terminal cost', fp.terminal_cost_func(Z.y, p, nu, k), o.Phi(1, ef, []))
        bc = fp.bc_func(A.y, Z.y, p, nu, k)
        ctx.match('boundary conditions', list(bc), [o.ev(c[0], e0) for c in spec['init']] + [o.ev(c[0], ef) for c in spec['term']])


def scale(ctx):
    """quantities in scale expressions and as arguments of user functions."""
    from beluga.numeric.data_classes.Trajectory import Trajectory
    qs = [('qa', 'qb + v'), ('qb', 'c*x')]
    spec = S(states=[('x', 'v*qa', 'm'), ('v', 'u', 'm/s')], controls=[('u', 'm/s**2')], consts=[('c', 1.0, '1'), ('d', 1.0, 's')], ind=('t', 's'),
             init=[('x', 'm')], term=[('v', 'm/s')], cost=dict(path='1', path_units='1'), quantities=ctx.choice('order', [qs, qs[::-1]]),
             scale=dict(m='qa', s='qb/d + d'))
    _, bvp = formulate(spec, do_momentum_shift=True)
    fp = bvp.functional_problem
    y = ctx.matrix('y', 2, 3)
    k = ctx.reals('k', 2)
    t = vec(ctx, [0.0, ctx.real('tf', lo=0)])
    tr = Trajectory(t, y, np.zeros((2, 0)), ctx.matrix('u', 2, 1))
    tr.const = k
    fac = fp.compute_scale_factors(tr)
    mx = lambda a, b: abs(a) if bool(abs(a) >= abs(b)) else abs(b)
    X, V = mx(y[0, 0], y[1, 0]), mx(y[0, 1], y[1, 1])
    c, dd = abs(k[0]), abs(k[1])
    m, s = c * X + V, c * X / dd + dd
    ctx.eq('scale of x', fac[1][0], m)
    ctx.eq('scale of v', fac[1][1], m / s)
    ctx.eq('scale of u', fac[3][0], m / s ** 2)


def T(id, fn, **cfg):
    return dict(id=id, fn=fn, cfg=cfg, nwit=4, tries=5)


def tasks(tier):
    out = []
    some = [0, 3, 5, 8, 14, 17, 20, 23]
    for d in DEFS:
        for w in ('eom', 'path', 'switch', 'cost'):
            if tier == 'quick' and d in ('chain4', 'tree', 'diamond'):
                if w in ('path', 'cost'):
                    continue
                out.append(T('%s-%s' % (d, w), 'macro', defs=d, where=w, orders=None if w == 'eom' else some))
            else:
                out.append(T('%s-%s' % (d, w), 'macro', defs=d, where=w, orders=None))
    out.append(T('pair-bcost', 'macro', defs='pair', where='bcost', orders=None))
    out.append(T('pair-bc', 'macro', defs='pair', where='bc', orders=None))
    out.append(T('scale', 'scale'))
    return out
