"""C26: the direct formulation hands over what the user wrote."""
from bsym.core import evalx
from bsym.ocp import S, Oracle, Point, direct, generic, names, preprocessed, quad_form, shared, vec
from checks.c06 import B, by_hand, newnames

BOUNDS = ('problems with 1-4 states, 0-2 controls, 0-2 parameters, 0-2 quadratures, 0-2 boundary conditions at each end (full quadratics with arbitrary coefficients), trigonometric and '
          'quotient expressions, quantities, switches, custom bounds; with and without time as a state, with and without normalised time, with and without analytic Jacobians; '
          'arbitrary interior and boundary points')
ASSUMPTIONS = ['problems with controls are compiled with the controls as arguments (CompileProblem(use_control_arg=True)); the default postprocessor compiles direct problems without controls',
               'explicit time needs time as a state (do_momentum_shift)']

K = lambda s: [(c, 1.0, '1') for c in s.split()]


def spec(kind):
    if kind.startswith('g'):          # gXUPQ: generic with X states, U controls, P parameters, Q quadratures
        nx, nu, npar, nq, time = [int(c) for c in kind[1:]]
        s = generic(nx=nx, nu=nu, npar=npar, time=bool(time), cinit=1 + nx // 2, cterm=nx // 2)
        var = [x[0] for x in s['states']] + [x[0] for x in s['controls']] + [x[0] for x in s['params']] + (['t'] if time else [])
        s['quads'] = [('z%d' % i, quad_form('Q%d' % i, var, s['consts']), '1') for i in range(nq)]
        if nq:
            s['term'].append(('z0 - %s' % s['states'][0][0], '1'))
            s['init'].append(('z%d*%s' % (nq - 1, s['states'][-1][0]), '1'))
            s['cost']['terminal'] = s['cost']['terminal'] + ' + z0**2'
        return s
    if kind == 'free':                # a boundary value problem without controls or cost
        return S(states=[('x', 'a*sin(v) + b*x', '1'), ('v', 'x/(1 + v**2) - c', '1')], consts=K('a b c xf'), init=[('x - a', '1')], term=[('v - xf*x', '1')])
    if kind == 'eigen':               # an unknown parameter
        return S(states=[('x', 'v', '1'), ('v', '-(m - 2*q*cos(2*t))*x', '1')], params=[('m', '1')], consts=K('q'), init=[('x - 1', '1'), ('v', '1'), ('t', '1')], term=[('v', '1'), ('t - q', '1')])
    if kind == 'quant':
        return S(states=[('x', 'k1*v + u', '1'), ('v', 'k2*x - u*k1', '1')], controls=[('u', '1')], consts=K('a b xf'), init=[('x - k3', '1')], term=[('v*k3', '1')],
                 quantities=[('k1', 'k2*x + a'), ('k2', 'b*v'), ('k3', 'a*x + v')], quads=[('z', 'k1*u', '1')], cost=dict(path='k2 + u**2', path_units='1', terminal='k3', units='1'))
    if kind == 'switch':
        return S(states=[('x', 'sw + u', '1'), ('v', 'x*sw', '1')], controls=[('u', '1')], consts=K('a b eps xf'), init=[('x - a', '1')], term=[('v', '1')],
                 switches=[('sw', ['x', 'b*v'], [['x - a', 'v'], ['a - x']], 'eps')], cost=dict(path='u**2 + sw', path_units='1'))
    if kind == 'bounds':
        return S(states=[('x', 'u*v', '1'), ('v', 'w - x', '1')], controls=[('u', '1'), ('w', '1')], consts=K('a lo hi eps eps2 xf'), init=[('x', '1'), ('v', '1', B('-2', 'hi', 'eps2', 'utm'))],
                 path=[('u', '1', B('lo', 'hi', 'eps', 'epstrig')), ('x + v', '1', B('lo - 9', 'hi + v**2', 'eps2', 'utm'))], term=[('x - xf', '1')], quads=[('z', 'u*w', '1')],
                 cost=dict(path='u**2 + w**2', path_units='1', initial='x', units='1'))
    raise KeyError(kind)


def compiled(sp, opts):
    from beluga.symbolic.data_classes.mapping_functions import CompileProblem, make_direct_method
    if not sp['controls']:
        return [], direct(sp, **opts)
    pre = preprocessed(sp)
    n0 = names(pre.controls)
    bvp = make_direct_method(pre, **opts)(pre)
    return n0, CompileProblem(use_control_arg=True)(bvp)


def hands_over(ctx, kind, opts):
    sp = spec(kind)
    n0, bvp = compiled(sp, opts)
    fp = bvp.functional_problem
    hs = by_hand(sp, newnames(sp, n0, bvp) if sp['path'] else {})
    o = Oracle(hs)
    shift, norm = opts.get('do_momentum_shift', False), opts.get('do_normalize_time', False)
    ctx.same('states', names(bvp.states), [s[0] for s in sp['states']] + ([sp['ind'][0]] if shift else []))
    ctx.same('quadratures', names(bvp.quads), [s[0] for s in sp['quads']])
    ctx.same('no costates', [len(bvp.costates), len(bvp.constraint_adjoints)], [0, 0])
    ctx.same('number of parameters', [len(bvp.parameters), len(bvp.constraint_parameters)], [len(sp['params']) + (1 if norm else 0), 0])
    new = [i for i, n in enumerate(names(bvp.parameters)) if n not in [x[0] for x in sp['params']]]
    ctx.same('user parameters kept', [names(bvp.parameters)[i] for i in range(len(bvp.parameters)) if i not in new], [x[0] for x in sp['params']])
    ctx.same('constants', names(bvp.constants), [x[0] for x in sp['consts']])
    p, nu, k, senv = shared(ctx, bvp)
    sc = p[new[0]] if norm else 1
    P = Point(ctx, bvp, 'm.')
    un = names(bvp.controls)
    u = vec(ctx, [ctx.real('m.' + n) for n in un])
    env = dict(senv, **P.env)
    env.update(zip(un, u))
    args = (P.y, u, p, k) if n0 else (P.y, p, k)
    full = o.env(env)
    rate = list(fp.deriv_func(*args))
    for i, s in enumerate(sp['states']):
        ctx.eq('rate:' + s[0], rate[i], sc * evalx(s[1], full))
    if shift:
        ctx.eq('rate of time', rate[-1], sc)
    if sp['quads']:
        q = list(fp.quad_func(*args))
        for i, s in enumerate(sp['quads']):
            ctx.eq('quadrature rate:' + s[0], q[i], sc * evalx(s[1], full))
    ctx.eq('path cost', fp.path_cost_func(*args), sc * o.L(env))
    A, Z = Point(ctx, bvp, 'i.'), Point(ctx, bvp, 'f.')
    e0, ef = dict(senv, **A.env), dict(senv, **Z.env)
    a0, af = ((A.y, A.q), (Z.y, Z.q)) if sp['quads'] else ((A.y,), (Z.y,))
    ctx.eq('initial cost', fp.initial_cost_func(*a0, p, nu, k), o.Phi(0, e0, []))
    ctx.eq('terminal cost', fp.terminal_cost_func(*af, p, nu, k), o.Phi(1, ef, []))
    bc = list(fp.bc_func(*a0, *af, p, nu, k))
    ctx.same('number of boundary conditions', len(bc), len(hs['init']) + len(hs['term']))
    want = [o.ev(c[0], e0) for c in hs['init']] + [o.ev(c[0], ef) for c in hs['term']]
    for i, (g, w) in enumerate(zip(bc, want)):
        ctx.eq('boundary residual:%d' % i, g, w)
    if opts.get('analytical_jacobian') and n0:
        fy, fpar = fp.deriv_func_jac(P.y, u, p, k)
        for i, s in enumerate(sp['states']):
            f = lambda e, ex=s[1]: evalx(ex, o.env(e))
            for j, x in enumerate(names(bvp.states)):
                ctx.eq('df/dy:%d,%d' % (i, j), fy[i][j], sc * o.d(f, env, x))
            for j, x in enumerate(sp['params']):
                ctx.eq('df/dp:%d,%d' % (i, j), fpar[i][names(bvp.parameters).index(x[0])], sc * o.d(f, env, x[0]))
            if norm:
                ctx.eq('df/ddt:%d' % i, fpar[i][new[0]], f(env))


def tasks(tier):
    out = []
    J, M, N = dict(analytical_jacobian=True), dict(do_momentum_shift=True), dict(do_normalize_time=True)

    def add(kind, tag, *opts):
        d = dict(analytical_jacobian=False)
        for x in opts:
            d.update(x)
        out.append(dict(id='%s-%s' % (kind, tag), fn='hands_over', cfg=dict(kind=kind, opts=d), nwit=1, tries=6))
    gens = ['g10000', 'g20100', 'g20010', 'g11000', 'g21000', 'g22110', 'g21020']
    gent = ['g10001', 'g20101', 'g20021', 'g21001', 'g12111']
    if tier == 'thorough':
        gens += ['g30220', 'g32220', 'g40000', 'g31120']
        gent += ['g30221', 'g32221', 'g31121']
    for g in gens + ['free', 'quant', 'switch', 'bounds']:
        add(g, 'plain')
        add(g, 'norm', N)
        if tier == 'thorough' or g in ('g21000', 'g22110', 'quant', 'switch', 'free'):
            add(g, 'jac', J)
            add(g, 'norm-jac', J, N)
    for g in gent + ['eigen', 'quant', 'switch', 'bounds']:
        add(g, 'shift', M)
        add(g, 'shift-norm', M, N)
        if tier == 'thorough' or g in ('g12111', 'eigen'):
            add(g, 'shift-norm-jac', M, N, J)
    return out
