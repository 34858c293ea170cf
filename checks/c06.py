"""C06: penalty and substitution handling of inequality constraints."""
from bsym.core import evalx
from bsym.ocp import S, Oracle, Point, build, direct, indirect, names, preprocessed, shared, vec
from checks.c01 import first_order

BOUNDS = ('problems with 2 states (plus time), 1-2 controls and 1-3 two-sided constraints in every placement (initial, path, terminal) and method '
          '(secant, trigonometric, mixed), constant and variable bounds, equality constraints and quantities in between; '
          'polynomial data with symbolic coefficients; arbitrary interior and boundary points; direct and indirect formulation')
ASSUMPTIONS = ['upper bound differs from lower bound']

K = lambda s: [(c, 1.0, '1') for c in s.split()]


def base(init=(), path=(), term=(), quantities=(), params=()):
    return S(states=[('x', 'a*v + c*u + w**2*u', '1'), ('v', 'u*x - w*t + v*d', '1')], controls=[('u', '1'), ('w', '1')],
             consts=K('a c d e g eps eps2 lo hi xf'), params=[(p, '1') for p in params],
             init=[('x - a', '1')] + list(init) + [('t', '1')], path=list(path),
             term=[('x - xf', '1')] + list(term) + [('v*x - g', '1')],
             cost=dict(path='u**2 + 3*w**2 + x*u + e*v', path_units='1', initial='x*v', terminal='g*x + t*v', units='1'),
             quantities=list(quantities))


def B(lo, hi, act, method):
    return dict(lower=lo, upper=hi, activator=act, method=method)


CASES = {
    'utm-term-late': dict(term=[('v + e', '1'), ('v + t', '1', B('lo', 'hi', 'eps', 'utm')), ('x*v*d', '1')], init=[('v*d', '1'), ('v*c', '1'), ('v + t', '1', B('lo', 'hi', 'eps2', 'utm'))]),
    'utm-path': dict(path=[('x + d*v', '1', B('lo', 'hi', 'eps', 'utm'))]),
    'utm-path-var': dict(path=[('x*v', '1', B('lo - t', 'hi*v', 'eps', 'utm'))]),
    'utm-path-num': dict(path=[('v', '1', B('-2', '7', 'eps', 'UTM'))]),
    'utm-path-ctrl': dict(path=[('u + x', '1', B('lo', 'hi', 'eps', 'utm'))]),
    'utm-init': dict(init=[('v', '1', B('lo', 'hi', 'eps', 'utm'))]),
    'utm-term': dict(term=[('v + t', '1', B('lo', 'hi', 'eps', 'utm'))]),
    'utm-two': dict(path=[('x', '1', B('lo', 'hi', 'eps', 'utm')), ('v', '1', B('-1', 'hi', 'eps2', 'utm'))]),
    'utm-all': dict(init=[('v', '1', B('lo', '4', 'eps2', 'utm'))], path=[('x', '1', B('lo', 'hi', 'eps', 'utm'))],
                    term=[('t', '1', B('1', 'hi', 'eps', 'utm'))]),
    'utm-quant': dict(path=[('qq', '1', B('lo', 'hi + q2', 'eps', 'utm'))], quantities=[('qq', 'x*v + q2'), ('q2', 'd*x')]),
    'trig': dict(path=[('u', '1', B('lo', 'hi', 'eps', 'epstrig'))]),
    'trig-num': dict(path=[('w', '1', B('-1', '3', 'eps', 'epsTrig'))]),
    'trig-var': dict(path=[('w', '1', B('lo*x', 'hi + t', 'eps', 'epstrig'))]),
    'trig-both': dict(path=[('w', '1', B('lo', 'hi', 'eps', 'epstrig')), ('u', '1', B('-lo', '2', 'eps2', 'epstrig'))]),
    'trig-utm': dict(path=[('u', '1', B('lo', 'hi', 'eps', 'epstrig')), ('x + u', '1', B('-3', 'hi', 'eps2', 'utm'))]),
    'utm-trig': dict(path=[('x + u', '1', B('-3', 'hi', 'eps2', 'utm')), ('u', '1', B('lo', 'hi', 'eps', 'epstrig'))]),
    'trig-utm-all': dict(init=[('v', '1', B('lo', 'hi', 'eps', 'utm'))], path=[('w', '1', B('lo', 'hi', 'eps', 'epstrig'))],
                         term=[('v', '1', B('1', 'hi', 'eps2', 'utm'))]),
}


def by_hand(spec, newname):
    """The same problem with the penalties and substitutions written out as text."""
    s = dict(spec)
    cost = dict(spec['cost'])
    where = dict(init='initial', path='path', term='terminal')
    for w, c in where.items():
        keep = []
        for con in spec[w]:
            if len(con) < 3:
                keep.append(con)
                continue
            b = con[2]
            if b['method'].lower() == 'utm':
                pen = '(%s)*(1/cos(pi/2*(2*(%s) - (%s) - (%s))/((%s) - (%s))) - 1)' % (
                    b['activator'], con[0], b['upper'], b['lower'], b['upper'], b['lower'])
            else:
                nu = newname[con[0]]
                s['controls'] = [(nu, '1') if x[0] == con[0] else x for x in s['controls']]
                s['quantities'] = list(s['quantities']) + [
                    (con[0], '((%s) - (%s))/2*sin(%s) + ((%s) + (%s))/2' % (b['upper'], b['lower'], nu, b['upper'], b['lower']))]
                pen = '-(%s)*cos(%s)' % (b['activator'], nu)
            cost[c] = '%s + %s' % (cost.get(c, '0'), pen)
        s[w] = keep
    s['cost'] = cost
    return s


def formulate(spec, **opts):
    from beluga.symbolic.data_classes.mapping_functions import CompileProblem, make_direct_method
    pre = preprocessed(spec)
    n0 = names(pre.controls)
    bvp = make_direct_method(pre, analytical_jacobian=False, **opts)(pre)
    return n0, CompileProblem(use_control_arg=True)(bvp)


def newnames(spec, n0, bvp):
    trig = [c[0] for c in spec['path'] if c[2]['method'].lower() == 'epstrig']
    return {o: n for o, n in zip(n0, names(bvp.controls)) if o in trig}


def direct_form(ctx, case, opts):
    spec = base(**CASES[case])
    n0, bvp = formulate(spec, **opts)
    fp = bvp.functional_problem
    ctx.same('controls keep their place', len(bvp.controls), len(n0))
    nn = newnames(spec, n0, bvp)
    for o_, n in zip(n0, names(bvp.controls)):
        if o_ not in nn:
            ctx.same('other controls unchanged', n, o_)
    hs = by_hand(spec, nn)
    o = Oracle(hs)
    p, nu, k, senv = shared(ctx, bvp)
    sc = 1
    if opts.get('do_normalize_time'):
        sc = p[-1]
    P = Point(ctx, bvp, 'm.')
    u = vec(ctx, [ctx.real('m.' + n) for n in names(bvp.controls)])
    env = dict(senv, **P.env)
    env.update(zip(names(bvp.controls), u))
    rate = dict(zip(names(bvp.states), fp.deriv_func(P.y, u, p, k)))
    for x in o.xs:
        ctx.eq('rate:' + x, rate[x], sc * o.f(x, env))
    ctx.eq('path cost', fp.path_cost_func(P.y, u, p, k), sc * o.L(env))
    ctx.same('no inequality left', [len(bvp.constraints['path'])], [0])
    A = Point(ctx, bvp, 'i.')
    Z = Point(ctx, bvp, 'f.')
    e0, ef = dict(senv, **A.env), dict(senv, **Z.env)
    ctx.eq('initial cost', fp.initial_cost_func(A.y, p, nu, k), o.Phi(0, e0, []))
    ctx.eq('terminal cost', fp.terminal_cost_func(Z.y, p, nu, k), o.Phi(1, ef, []))
    bc = fp.bc_func(A.y, Z.y, p, nu, k)
    ctx.match('equality constraints', list(bc), [o.ev(c[0], e0) for c in hs['init']] + [o.ev(c[0], ef) for c in hs['term']])


def indirect_form(ctx, case, opts):
    spec = base(**CASES[case])
    n0, d = formulate(spec, do_momentum_shift=True)
    hs = by_hand(spec, newnames(spec, n0, d))
    first_order(ctx, hs, indirect(spec, **opts), opts)


def shape(ctx, case):
    """what the penalties mean: zero midway, non-negative inside, substituted control within its bounds."""
    spec = base(**CASES[case])
    n0, bvp = formulate(spec, do_momentum_shift=True)
    nn = newnames(spec, n0, bvp)
    fp = bvp.functional_problem
    ref = Oracle(base())
    p, nu, k, senv = shared(ctx, bvp)
    P = Point(ctx, bvp, 'm.')
    u = vec(ctx, [ctx.real('m.' + n) for n in names(bvp.controls)])
    env = dict(senv, **P.env)
    env.update(zip(names(bvp.controls), u))
    con = spec['path'][0]
    lo, hi = evalx(con[2]['lower'], env), evalx(con[2]['upper'], env)
    eps = evalx(con[2]['activator'], env)
    ctx.assume(hi > lo)
    ctx.assume(eps > 0)
    got = fp.path_cost_func(P.y, u, p, k)
    if con[2]['method'].lower() == 'utm':
        e = evalx(con[0], env)
        ctx.assume(e > lo)
        ctx.assume(e < hi)
        pen = got - ref.L(env)
        # strictly inside the bounds the secant is at least one
        s = evalx('pi/2*(2*e - h - l)/(h - l)', dict(e=e, h=hi, l=lo))
        c = evalx('cos(s)', dict(s=s))
        ctx.assume(c > 0)            # |s| < pi/2 there
        ctx.check('penalty non-negative inside', pen >= (0 if not ctx.concrete else -1e-9), 'penalty %s' % pen)
    else:
        un, = nn
        dyn = dict(zip(names(bvp.states), fp.deriv_func(P.y, u, p, k)))
        # the rate of x is c*u + ... : recover the substituted control from it
        i = n0.index(un)
        s = evalx('sin(z)', dict(z=u[i]))
        uu = (hi - lo) / 2 * s + (hi + lo) / 2
        ctx.check('control above lower bound', uu >= lo - (1e-9 if ctx.concrete else 0))
        ctx.check('control below upper bound', uu <= hi + (1e-9 if ctx.concrete else 0))
        ee = dict(env)
        ee[un] = uu
        ctx.eq('rate uses bounded control', dyn['x'], ref.f('x', ee))


def rejected(ctx, which, place='path'):
    from beluga.symbolic.data_classes.mapping_functions import make_direct_method, make_indirect_method
    con = {'unknown': ('x', '1', B('lo', 'hi', 'eps', 'nope')), 'not-control': ('u + x', '1', B('lo', 'hi', 'eps', 'epstrig')),
           'state': ('x', '1', B('lo', 'hi', 'eps', 'epstrig')), 'activator': ('x', '1', B('lo', 'hi', 'zzz', 'utm')),
           'no-lower': ('v', '1', B(None, 'hi', 'eps', 'utm')), 'no-upper': ('v', '1', B('lo', None, 'eps', 'utm')),
           'trig-no-upper': ('u', '1', B('lo', None, 'eps', 'epstrig')), 'no-bound': ('v', '1', B(None, None, 'eps', 'utm'))}[which]
    spec = base(**{place: [con]})
    mk = ctx.choice('method', [make_direct_method, make_indirect_method])

    def go():
        pre = preprocessed(spec)
        mk(pre)(pre)
    ctx.raises('rejected', Exception, go)


def T(id, fn, **cfg):
    return dict(id=id, fn=fn, cfg=cfg, nwit=1, tries=6)


def tasks(tier):
    out = [T('d-' + c, 'direct_form', case=c, opts=dict(do_momentum_shift=True)) for c in CASES]
    out += [T('dn-' + c, 'direct_form', case=c, opts=dict(do_momentum_shift=True, do_normalize_time=True)) for c in ('utm-all', 'trig-utm')]
    out += [T('i-' + c, 'indirect_form', case=c, opts={}) for c in ('utm-path-ctrl', 'utm-all', 'trig-var', 'trig-utm', 'utm-two')]
    out += [T('shape-' + c, 'shape', case=c) for c in ('utm-path', 'utm-path-var', 'trig', 'trig-num', 'trig-var')]
    out += [T('rej-' + w, 'rejected', which=w) for w in ('unknown', 'not-control', 'state', 'activator')]
    out += [T('rej-%s-%s' % (w, pl), 'rejected', which=w, place=pl) for w in ('no-lower', 'no-upper') for pl in ('init', 'path', 'term')]
    out += [T('rej-' + w, 'rejected', which=w) for w in ('trig-no-upper', 'no-bound')]
    if tier == 'thorough':
        out += [T('dn-all-' + c, 'direct_form', case=c, opts=dict(do_momentum_shift=True, do_normalize_time=True)) for c in CASES]
        out += [T('i-all-' + c, 'indirect_form', case=c, opts={}) for c in CASES]
        out += [T('ig-' + c, 'indirect_form', case=c, opts=dict(method='diffyg')) for c in CASES]
    return out
