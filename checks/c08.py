"""C08: smoothed switches."""
from bsym.ocp import S, Oracle, Point, indirect, names, shared, vec
from checks.c01 import first_order
from checks.c06 import B, by_hand, formulate

BOUNDS = ('1-2 switches with 1-3 pieces and 1-2 conditions per piece, nested switches in both orders, used in dynamics, quadratures, all costs, equality and '
          'inequality constraints; arbitrary evaluation points and activator values; direct and indirect formulation')
ASSUMPTIONS = ['activator is non-zero (positive for the ordering statements)']

K = lambda s: [(c, 1.0, '1') for c in s.split()]

SW = {
    'two': [('sw', ['a*x', 'c*v'], [['d - x'], ['x - d']], 'eps')],
    'three': [('sw', ['a', 'x*v', 'u + c'], [['d - x'], ['v - d'], ['x*v']], 'eps')],
    'multi': [('sw', ['a*x', 'c*v'], [['d - x', 'v'], ['x - d', 'a - t']], 'eps')],
    'uneven': [('sw', ['a*x', 'c*v', 'u'], [['d - x', 'v'], ['x - d'], ['a - t', 'x', 'v - d']], 'eps')],
    'one': [('sw', ['u + x'], [['x - v']], 'eps')],
    'pair': [('sw', ['a*x', 'c'], [['d - x'], ['x - d']], 'eps'), ('sw2', ['v', 'x + a'], [['v'], ['-v']], 'eps2')],
    'nested': [('sw', ['a*x', 'sw2'], [['d - x'], ['x - d']], 'eps'), ('sw2', ['v', 'x + a'], [['v'], ['-v']], 'eps2')],
    'nested-rev': [('sw2', ['v', 'x + a'], [['v'], ['-v']], 'eps2'), ('sw', ['a*x', 'sw2'], [['d - x'], ['x - d']], 'eps')],
    'cond': [('sw', ['a*x', 'v'], [['d - sw2'], ['sw2 - d']], 'eps'), ('sw2', ['v', 'x + a'], [['v'], ['-v']], 'eps2')],
}


def problem(kind, where):
    sw = SW[kind]
    two = '+ sw2*u' if len(sw) > 1 else ''
    s = S(states=[('x', 'a*v + u', '1'), ('v', 'u*x - v*d', '1')], controls=[('u', '1')], consts=K('a c d eps eps2 xf lo hi'),
          init=[('x - a', '1')], term=[('x - xf', '1')], cost=dict(path='u**2 + x', path_units='1', initial='x', terminal='v', units='1'), switches=sw)
    if where == 'eom':
        s['states'][0] = ('x', 'v*sw + u ' + two, '1')
        s['states'][1] = ('v', 'sw**2 - u', '1')
    elif where == 'cost':
        s['cost'] = dict(path='u**2 + u*sw + x' + two, path_units='1')
    elif where == 'bnd':
        s['cost'] = dict(path='u**2', path_units='1', initial='x*sw', terminal='sw + t', units='1')
        s['init'] = [('sw - a', '1')]
        s['term'] = [('x*sw - c', '1')]
    elif where == 'path':
        s['path'] = [('x + sw', '1', B('lo', 'hi + sw', 'eps2', 'utm'))]
    return s


def blend(ctx, kind, where):
    spec = problem(kind, where)
    n0, bvp = formulate(spec, do_momentum_shift=True)
    fp = bvp.functional_problem
    o = Oracle(by_hand(spec, {}))
    p, nu, k, senv = shared(ctx, bvp)
    P = Point(ctx, bvp, 'm.')
    u = vec(ctx, [ctx.real('m.u')])
    env = dict(senv, **P.env)
    env['u'] = u[0]
    rate = dict(zip(names(bvp.states), fp.deriv_func(P.y, u, p, k)))
    for x in o.xs:
        ctx.eq('rate:' + x, rate[x], o.f(x, env))
    ctx.eq('path cost', fp.path_cost_func(P.y, u, p, k), o.L(env))
    A, Z = Point(ctx, bvp, 'i.'), Point(ctx, bvp, 'f.')
    e0, ef = dict(senv, **A.env), dict(senv, **Z.env)
    ctx.eq('initial cost', fp.initial_cost_func(A.y, p, nu, k), o.Phi(0, e0, []))
    ctx.eq('terminal cost', fp.terminal_cost_func(Z.y, p, nu, k), o.Phi(1, ef, []))
    bc = fp.bc_func(A.y, Z.y, p, nu, k)
    ctx.match('boundary conditions', list(bc), [o.ev(c[0], e0) for c in spec['init']] + [o.ev(c[0], ef) for c in spec['term']])


def extremal(ctx, kind, where):
    spec = problem(kind, where)
    first_order(ctx, spec, indirect(spec), {})


def weight(ctx, rev):
    """one half on the switching surface, more than half on the negative side, opposite conditions complementary."""
    spec = S(states=[('x', 'sa', '1'), ('v', 'sb', '1'), ('z', 'sc', '1')], controls=[('u', '1')], consts=K('eps c'), init=[('x', '1')], term=[('x', '1')],
             cost=dict(path='u**2', path_units='1'),
             switches=[('sa', ['1'], [['x - c']], 'eps'), ('sb', ['1'], [['c - x']], 'eps'), ('sc', ['u', 'v'], [['x - c'], ['c - x']], 'eps')])
    if rev:
        spec['switches'] = spec['switches'][::-1]
    _, bvp = formulate(spec, do_momentum_shift=True)
    fp = bvp.functional_problem
    p, nu, k, senv = shared(ctx, bvp)
    P = Point(ctx, bvp, 'm.')
    u = vec(ctx, [ctx.real('m.u')])
    ctx.assume(senv['eps'] > 0)
    r = dict(zip(names(bvp.states), fp.deriv_func(P.y, u, p, k)))
    a, b, c = r['x'], r['v'], r['z']
    x, cc = P.env['x'], senv['c']
    tol = 1e-9 if ctx.concrete else 0
    ctx.check('weight within 0 and 1', (a >= 0) & (a <= 1) if not ctx.concrete else 0 <= a <= 1)
    ctx.eq('complementary', a + b, 1)
    if bool(x < cc):
        ctx.check('more than half where the condition is negative', a >= 0.5 - tol)
        lo, hi = (u[0], P.env['v']) if bool(u[0] <= P.env['v']) else (P.env['v'], u[0])
        ctx.le('blend between pieces (low)', lo, c)
        ctx.le('blend between pieces (high)', c, hi)
    elif bool(x == cc):
        ctx.eq('half on the surface', a, 0.5)
    else:
        ctx.check('less than half where the condition is positive', a <= 0.5 + tol)


def T(id, fn, **cfg):
    return dict(id=id, fn=fn, cfg=cfg, nwit=3, tries=6)


def tasks(tier):
    out = []
    full = tier == 'thorough'
    for kd in SW:
        for w in ('eom', 'cost'):
            out.append(T('%s-%s' % (kd, w), 'blend', kind=kd, where=w))
    for kd in ('two', 'multi', 'nested', 'nested-rev') if not full else [k for k in SW if k not in ('one', 'three')]:
        out.append(T('%s-bnd' % kd, 'blend', kind=kd, where='bnd'))
        out.append(T('%s-path' % kd, 'blend', kind=kd, where='path'))
    out += [T('i-two', 'extremal', kind='two', where='cost'), T('weight', 'weight', rev=False), T('weight-rev', 'weight', rev=True)]
    if full:
        out += [T('i-%s-%s' % (k, w), 'extremal', kind=k, where=w) for k in ('multi', 'pair', 'one') for w in ('eom', 'cost')]
    return out
