"""C04: the geometric derivation agrees with the traditional one on the stationary set and is Hamiltonian for its own form."""
import numpy as np

from bsym.core import evalx
from bsym.ocp import Oracle, Point, indirect, names, shared, vec
from checks.c01 import TEMPL, stationary_constants

BOUNDS = ('1-3 states, 1-2 controls, 0-2 parameters, quadratic polynomial templates with symbolic coefficients plus '
          'trigonometric and rational templates; one interior point on the stationary set with arbitrary control momenta, '
          'arbitrary boundary points; both control options')
ASSUMPTIONS = ['the Hamiltonian Hessian in the controls is invertible (divisors non-zero)']


def agree(ctx, tmpl, opts):
    spec = TEMPL[tmpl]()
    o = Oracle(spec)
    tr = indirect(spec, **dict(opts, method='traditional'))
    dg = indirect(spec, **dict(opts, method='diffyg'))
    diff = opts.get('control_method', 'differential') == 'differential'
    lam_u = ['_lam_' + u for u in o.us] if diff else []
    ctx.same('same states', sorted(names(dg.states)), sorted(names(tr.states) + lam_u))
    ctx.same('same quads', sorted(names(dg.quads)), sorted(names(tr.quads)))
    for what in ('parameters', 'constraint_parameters', 'constants'):
        ctx.same('same ' + what, names(getattr(dg, what)), names(getattr(tr, what)))
    P = Point(ctx, dg, 'm.')
    ov = {}
    if diff:
        ks = stationary_constants(tmpl, spec)
        _, _, _, s0 = shared(ctx, dg, {kn: 0 for kn in ks})
        vals = [-o.d(o.H, dict(s0, **P.env), u) for u in o.us]
        ov = dict(zip(ks, vals))
    p, nu, k, senv = shared(ctx, dg, ov)
    y_tr = vec(ctx, [P.env[n] for n in names(tr.states)])
    a = dict(zip(names(tr.states), tr.functional_problem.deriv_func(y_tr, p, k)))
    b = dict(zip(names(dg.states), dg.functional_problem.deriv_func(P.y, p, k)))
    for n in names(tr.states):
        ctx.eq('rate:' + n, b[n], a[n])
    for n in lam_u:
        ctx.eq('momentum rate:' + n, b[n], 0)
    if len(tr.quads):
        qa = dict(zip(names(tr.quads), tr.functional_problem.quad_func(y_tr, p, k)))
        qb = dict(zip(names(dg.quads), dg.functional_problem.quad_func(P.y, p, k)))
        for n in qa:
            ctx.eq('quadrature rate:' + n, qb[n], qa[n])
    # boundary conditions
    p, nu, k, senv = shared(ctx, dg)
    A, B = Point(ctx, dg, 'i.'), Point(ctx, dg, 'f.')

    def bc(prob):
        pick = lambda Q: vec(ctx, [Q.env[n] for n in names(prob.states)])
        qk = lambda Q: vec(ctx, [Q.env[n] for n in names(prob.quads)])
        f = prob.functional_problem.bc_func
        if len(prob.quads):
            return list(f(pick(A), qk(A), pick(B), qk(B), p, nu, k))
        return list(f(pick(A), pick(B), p, nu, k))
    ctx.match('boundary', bc(dg), bc(tr) + [A.env[n] for n in lam_u])


def hamiltonian_field(ctx, tmpl, opts):
    """i_X omega = dH with omega antisymmetric and non-degenerate."""
    spec = TEMPL[tmpl]()
    o = Oracle(spec)
    dg = indirect(spec, **dict(opts, method='diffyg', do_normalize_time=False))
    diff = opts.get('control_method', 'differential') == 'differential'
    p, nu, k, senv = shared(ctx, dg)
    P = Point(ctx, dg, 'm.')
    env = dict(senv, **P.env)
    if not diff:
        u = dg.functional_problem.compute_u(P.y, p, k)
        env.update(dict(zip(o.us, u)))
    basis = names(dg.states)
    n = len(basis)
    ctx.same('form dimension', tuple(dg.omega.shape), (n, n))
    W = [[evalx(str(dg.omega[i, j]), env) for j in range(n)] for i in range(n)]
    X = dg.functional_problem.deriv_func(P.y, p, k)
    ham = lambda e: o.H(e) + e['_lam_' + o.t]
    for i in range(n):
        for j in range(i + 1):
            ctx.eq('antisymmetric', W[i][j], -W[j][i] if i != j else 0)
        tot = 0
        for j in range(n):
            tot = tot + W[j][i] * X[j]
        ctx.eq('i_X omega = dH', tot, o.d(ham, env, basis[i]))
    # non-degenerate: omega v = 0 only for v = 0
    if not ctx.concrete:
        v = [ctx.real('v%d' % i) for i in range(n)]
        for i in range(n):
            r = 0
            for j in range(n):
                r = r + W[i][j] * v[j]
            ctx.assume(r == 0)
        for i in range(n):
            ctx.eq('non-degenerate', v[i], 0)
    else:
        ctx.check('non-degenerate', abs(np.linalg.det(np.array(W, dtype=float))) > 1e-12)


def T(name, tmpl, fn='agree', **opts):
    return dict(id=name, fn=fn, cfg=dict(tmpl=tmpl, opts=opts), nwit=1, tries=5)


def tasks(tier):
    al = dict(control_method='algebraic')
    out = [T(t, t) for t in ('g11', 'g21', 'g12', 'brach', 'rational', 'g21p', 'g11p2', 'lagrange', 'multibc', 'nobc')]
    out += [T('alg-' + t, t, **al) for t in ('g21', 'g12', 'g21p')]
    out += [T('nonorm-g11', 'g11', do_normalize_time=False)]
    out += [T('field-' + t, t, fn='hamiltonian_field') for t in ('g11', 'g21', 'two', 'brach', 'rational')]
    out += [T('field-alg-g21', 'g21', fn='hamiltonian_field', **al)]
    bare = dict(do_momentum_shift=False, do_normalize_time=False)
    out += [T('nomom', 'g21pnt', do_momentum_shift=False), T('bare', 'g21pnt', **bare), T('alg-nomom', 'g21pnt', do_momentum_shift=False, **al), T('alg-bare', 'g21pnt', **bare, **al)]
    if tier == 'thorough':
        out += [T(t, t) for t in ('g22', 'g31', 'g12p')] + [T('alg-' + t, t, **al) for t in ('g22', 'g31')]
        out += [T('field-' + t, t, fn='hamiltonian_field') for t in ('g12', 'g31', 'g21p')]
    return out
