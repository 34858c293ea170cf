"""C01: the indirect method's boundary value problem is the first-order necessary conditions."""
from bsym.ocp import S, Oracle, Point, generic, indirect, names, shared, vec

BOUNDS = ('optimal control problems with 1-3 states, 1-2 controls, 0-2 parameters, 0-5 initial and 0-5 terminal equality '
          'constraints, boundary and path costs; every right-hand side, cost and constraint a full quadratic polynomial in '
          'states, controls, parameters and time with symbolic coefficients (realises any 2-jet at the evaluation point), plus '
          'trigonometric/rational templates; both derivations, differential and algebraic control, with and without time shift '
          'and time normalisation; one interior point, one initial and one terminal point, all values symbolic')
ASSUMPTIONS = ['dH/du is invertible in u where a control rate is formed (divisor non-zero)']


def brach():
    return S(ind=('t', 's'),
             states=[('x', 'v*cos(theta)', '1'), ('y', 'v*sin(theta)', '1'), ('v', 'g*sin(theta)', '1')],
             controls=[('theta', '1')],
             consts=[('g', -9.81, '1'), ('x_f', 1.0, '1'), ('y_f', -1.0, '1'), ('a', 1.0, '1'), ('b', 1.0, '1')],
             init=[('x', '1'), ('y', '1'), ('v', '1'), ('t', '1')],
             term=[('x - x_f', '1'), ('y - y_f', '1')],
             cost=dict(path='1 + a*theta**2 + b*theta', path_units='1/s'))


def two():
    return S(states=[('x', 'a*w*v + u', '1'), ('v', 'u*x - w*t', '1')], controls=[('u', '1'), ('w', '1')], consts=[(c, 1.0, '1') for c in 'abcd'],
             init=[('x - a', '1')], term=[('x*v - b', '1')], cost=dict(path='b*u**2 + c*w**2 + d*u*w + x*w', path_units='1'))


def rational():
    return S(states=[('h', 'v*sin(gam)', '1'), ('v', '-k*v**2/(h + r) - g*sin(gam)', '1'),
                     ('gam', 'c*alfa*v + (v/(h + r) - g/v)*cos(gam)', '1')],
             controls=[('alfa', '1')],
             consts=[(c, 1.0, '1') for c in ('k', 'r', 'g', 'c', 'hf', 'w', 'b')],
             init=[('h', '1'), ('v - 1', '1'), ('t', '1')], term=[('h - hf*t', '1')],
             cost=dict(terminal='-v**2 + w*gam*t', path='w*alfa**2 + v*alfa + b*alfa', units='1', path_units='1'))


def manybc():
    return S(states=[('x', 'a*v + u', '1'), ('v', 'u*b - x*v', '1')], controls=[('u', '1')], consts=[(c, 1.0, '1') for c in 'abcde'],
             init=[('x - a', '1'), ('v - b*t', '1'), ('x*v - c', '1'), ('v**2 - d', '1'), ('t*x - e', '1')],
             term=[('x*c - a', '1'), ('v - b', '1'), ('x*v - c*t', '1'), ('v**2 - d*x', '1'), ('t - e', '1')], cost=dict(path='u**2 + e*u + x', path_units='1'))


TEMPL = {
    'brach': brach, 'two': two, 'rational': rational,
    'g21': lambda: generic(2, 1), 'g11': lambda: generic(1, 1), 'g12': lambda: generic(1, 2), 'g22': lambda: generic(2, 2, cinit=2, cterm=2),
    'g21p': lambda: generic(2, 1, 1), 'g11p2': lambda: generic(1, 1, 2), 'g11nt': lambda: generic(1, 1, time=False),
    'g21pnt': lambda: generic(2, 1, 1, time=False), 'g31': lambda: generic(3, 1, cinit=2, cterm=1),
    'nobc': lambda: generic(2, 1, cinit=0, cterm=0), 'mayer': lambda: generic(2, 1, path=False),
    'lagrange': lambda: generic(2, 1, bcost=False), 'multibc': lambda: generic(1, 1, cinit=2, cterm=2),
    'bc5': lambda: manybc(),
    'g12p': lambda: generic(1, 2, 1), 'g22nt': lambda: generic(2, 2, time=False),
}


# per template: the constant that enters the running cost times each control
STAT = {'brach': ['b'], 'bc5': ['e'], 'rational': ['b']}


def stationary_constants(tmpl, spec):
    """names of constants k_i such that the running cost contains k_i*u_i linearly."""
    if tmpl in STAT:
        return STAT[tmpl]
    var = [s[0] for s in spec['states']] + [c[0] for c in spec['controls']]
    return ['Ll%d' % var.index(c[0]) for c in spec['controls']]


def deriv(ctx, bvp, y, p, k):
    return bvp.functional_problem.deriv_func(y, p, k)


def controls_at(ctx, bvp, y, p, k, env):
    """named control values: algebraic laws are evaluated, differential ones are states."""
    e = dict(env)
    if bvp.controls and bvp.functional_problem.compute_u is not None:
        u = bvp.functional_problem.compute_u(y, p, k)
        for c, v in zip(bvp.controls, u):
            e[c.name] = v
    return e


def necessary(ctx, tmpl, opts):
    spec = TEMPL[tmpl]()
    first_order(ctx, spec, indirect(spec, **opts), opts)


def first_order(ctx, spec, bvp, opts):
    """bvp is exactly the first-order necessary conditions of the problem written in spec."""
    o = Oracle(spec)
    fp = bvp.functional_problem
    ms, nt = opts.get('do_momentum_shift', True), opts.get('do_normalize_time', True)
    p, nu, k, senv = shared(ctx, bvp)
    n_i = len(spec['init'])
    nus = list(nu)
    scale = senv['_delta' + ('_t' if ms else 't')] if nt else 1

    # square problem
    ctx.same('counts:multipliers', len(nus), len(spec['init']) + len(spec['term']))

    # interior point
    P = Point(ctx, bvp, 'm.')
    if opts.get('method') == 'diffyg' and spec['controls']:
        pass
    env = controls_at(ctx, bvp, P.y, p, k, dict(senv, **P.env))
    rate = dict(zip(names(bvp.states), deriv(ctx, bvp, P.y, p, k)))
    for x in o.xs:
        ctx.eq('rate:%s' % x, rate[x], scale * o.f(x, env))
        ctx.eq('rate:_lam_%s' % x, rate['_lam_' + x], -scale * o.d(o.H, env, x))
    if ms:
        ctx.eq('rate:time', rate[o.t], scale * 1)
        if opts.get('method') != 'diffyg' or not spec['controls']:
            ctx.eq('rate:_lam_time', rate['_lam_' + o.t], -scale * o.d(o.H, env, o.t))
    if o.ps:
        qr = dict(zip(names(bvp.quads), fp.quad_func(P.y, p, k)))
        for q in o.ps:
            ctx.eq('rate:_lam_%s' % q, qr['_lam_' + q], -scale * o.d(o.H, env, q))

    # boundary conditions
    A, B = Point(ctx, bvp, 'i.'), Point(ctx, bvp, 'f.')
    env0 = controls_at(ctx, bvp, A.y, p, k, dict(senv, **A.env))
    envf = controls_at(ctx, bvp, B.y, p, k, dict(senv, **B.env))
    if len(bvp.quads) > 0:
        bc = fp.bc_func(A.y, A.q, B.y, B.q, p, nu, k)
    else:
        bc = fp.bc_func(A.y, B.y, p, nu, k)
    n_unknown = len(bvp.states) + len(bvp.quads) + len(p) + len(nu)
    if nt:
        ctx.same('counts:square', len(bc), n_unknown)
    exp = [o.ev(c[0], env0) for c in spec['init']]
    exp += [o.ev(c[0], envf) for c in spec['term']]
    adj = o.xs + ([o.t] if ms else []) + o.ps
    for x in adj:
        exp.append(env0['_lam_' + x] + o.d(lambda e: o.Phi(0, e, nus[:n_i]), env0, x))
        exp.append(envf['_lam_' + x] - o.d(lambda e: o.Phi(1, e, nus[n_i:]), envf, x))
    hf = o.H(envf)
    if ms:
        hf = hf + envf['_lam_' + o.t]
    exp.append(hf)
    if opts.get('control_method', 'differential') == 'differential':
        for u in o.us:
            exp.append(o.d(o.H, envf, u))
        if opts.get('method') == 'diffyg':
            for u in o.us:
                exp.append(env0['_lam_' + u])
    ctx.match('bc', list(bc), exp)


def T(name, tmpl, **opts):
    return dict(id=name, fn='necessary', cfg=dict(tmpl=tmpl, opts=opts), nwit=1, tries=5)


def tasks(tier):
    dg = dict(method='diffyg')
    out = [
        T('trad-g21', 'g21'), T('trad-g12', 'g12'), T('trad-g21p', 'g21p'), T('trad-g11p2', 'g11p2'),
        T('trad-brach', 'brach'), T('trad-rational', 'rational'), T('trad-nobc', 'nobc'),
        T('trad-mayer', 'mayer'), T('trad-lagrange', 'lagrange'), T('trad-multibc', 'multibc'),
        T('trad-g21-jac', 'g21', analytical_jacobian=True),
        T('trad-nt-nomom', 'g21pnt', do_momentum_shift=False),
        T('trad-nt-nomom-nonorm', 'g21pnt', do_momentum_shift=False, do_normalize_time=False),
        T('trad-g11-nonorm', 'g11', do_normalize_time=False),
        T('alg-g21', 'g21', control_method='algebraic'), T('alg-g12', 'g12', control_method='algebraic'),
        T('alg-g21p', 'g21p', control_method='algebraic'),
        T('alg-rational', 'rational', control_method='algebraic'),
        T('dg-g11', 'g11', **dg), T('dg-g21', 'g21', **dg), T('dg-brach', 'brach', **dg), T('dg-g12', 'g12', **dg), T('dg-two', 'two', **dg), T('trad-two', 'two'),
        T('dg-g21p', 'g21p', **dg), T('dg-alg-g21', 'g21', control_method='algebraic', **dg),
        T('dg-alg-g21p', 'g21p', control_method='algebraic', **dg),
        T('dg-rational', 'rational', **dg), T('trad-bc5', 'bc5'), T('alg-bc5', 'bc5', control_method='algebraic'), T('dg-bc5', 'bc5', **dg),
    ]
    bare, al = dict(do_momentum_shift=False, do_normalize_time=False), dict(control_method='algebraic')
    out += [T('dg-nomom', 'g21pnt', do_momentum_shift=False, **dg), T('dg-bare', 'g21pnt', **bare, **dg), T('dg-nonorm', 'g21p', do_normalize_time=False, **dg),
            T('alg-nomom', 'g21pnt', do_momentum_shift=False, **al), T('alg-bare', 'g21pnt', **bare, **al), T('alg-nonorm', 'g21p', do_normalize_time=False, **al),
            T('dg-alg-nomom', 'g21pnt', do_momentum_shift=False, **al, **dg), T('dg-alg-bare', 'g21pnt', **bare, **al, **dg)]
    if tier == 'thorough':
        out += [T('trad-g22', 'g22'), T('trad-g31', 'g31'), T('trad-g12p', 'g12p'), T('alg-g22', 'g22', control_method='algebraic'),
                T('alg-g11p2', 'g11p2', control_method='algebraic'), T('trad-nt22', 'g22nt', do_momentum_shift=False),
                T('dg-g22', 'g22', **dg), T('dg-g11p2', 'g11p2', **dg), T('dg-g12p', 'g12p', **dg),
                T('dg-lagrange', 'lagrange', **dg), T('dg-mayer', 'mayer', **dg), T('dg-g31', 'g31', **dg),
                T('alg-g31', 'g31', control_method='algebraic')]
    return out
