"""C02: dH/du is invariant under the flow generated with the differential control law."""
from bsym.ocp import Oracle, Point, indirect, names, shared
from checks.c01 import TEMPL, stationary_constants

BOUNDS = ('1-3 states, 1-2 controls, 0-2 parameters; full quadratic polynomial templates with symbolic coefficients and '
          'trigonometric/rational templates; one point, all values symbolic; both derivations (geometric: on the stationary set, '
          'reached by solving the stationarity equations for one running-cost coefficient per control)')
ASSUMPTIONS = ['the Hamiltonian Hessian in the controls is invertible (divisors non-zero)']


def invariant(ctx, tmpl, opts):
    spec = TEMPL[tmpl]()
    o = Oracle(spec)
    bvp = indirect(spec, **opts)
    fp = bvp.functional_problem
    geo = opts.get('method') == 'diffyg'
    ov = {}
    P = Point(ctx, bvp, 'm.')
    if geo:
        ks = stationary_constants(tmpl, spec)
        for kn in ks:
            ov[kn] = 0
        p, nu, k, senv = shared(ctx, bvp, ov)
        env = dict(senv, **P.env)
        vals = [-o.d(o.H, env, u) for u in o.us]
        ov = dict(zip(ks, vals))
    p, nu, k, senv = shared(ctx, bvp, ov)
    env = dict(senv, **P.env)
    rate = dict(zip(names(bvp.states), fp.deriv_func(P.y, p, k)))
    for u in o.us:
        ctx.check('control is a state', u in rate)
        if geo:
            ctx.eq('on stationary set:' + u, o.d(o.H, env, u), 0)
            ctx.eq('control momentum stays zero:' + u, rate['_lam_' + u], 0)
    dirs = {n: v for n, v in rate.items() if n in env}
    for u in o.us:
        ctx.eq('d/dt dH/d%s' % u, o.dd(lambda e: o.d(o.H, e, u), env, dirs), 0)


def T(name, tmpl, **opts):
    return dict(id=name, fn='invariant', cfg=dict(tmpl=tmpl, opts=opts), nwit=1, tries=5)


def tasks(tier):
    dg = dict(method='diffyg')
    out = [T('trad-g11', 'g11'), T('trad-g21', 'g21'), T('trad-g12', 'g12'), T('trad-brach', 'brach'), T('trad-rational', 'rational'),
           T('trad-g21p', 'g21p'), T('trad-nomom', 'g11nt', do_momentum_shift=False), T('trad-nonorm', 'g11', do_normalize_time=False),
           T('dg-g11', 'g11', **dg), T('dg-nomom', 'g11nt', do_momentum_shift=False, **dg), T('dg-g21', 'g21', **dg), T('dg-g12', 'g12', **dg), T('dg-brach', 'brach', **dg),
           T('dg-rational', 'rational', **dg), T('dg-g21p', 'g21p', **dg)]
    bare = dict(do_momentum_shift=False, do_normalize_time=False)
    out += [T('trad-bare', 'g21pnt', **bare), T('dg-bare', 'g21pnt', **bare, **dg), T('dg-nonorm', 'g21p', do_normalize_time=False, **dg)]
    if tier == 'thorough':
        out += [T('trad-g22', 'g22'), T('trad-g31', 'g31'), T('trad-g12p', 'g12p'), T('trad-g11p2', 'g11p2'),
                T('dg-g22', 'g22', **dg), T('dg-g31', 'g31', **dg), T('dg-g12p', 'g12p', **dg)]
    return out
