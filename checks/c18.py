"""C18: analytical Jacobians are the derivatives of the functions they accompany."""
import numpy as np

from bsym.core import Dual
from bsym.ocp import S, direct, generic, indirect, vec
from checks.c01 import TEMPL
from checks.c05 import spec as sym

BOUNDS = ('indirect problems with differential control (both derivations, with and without reduction, time shift and time normalisation) and direct problems, 1-3 states, 0-2 controls, 0-2 parameters, 0-4 boundary constraints; full quadratic '
          'templates with symbolic coefficients and trigonometric / rational templates; one interior point and both end points, all values symbolic; every entry of every Jacobian')
ASSUMPTIONS = ['divisors appearing in the rates are non-zero at the point',
               'with the algebraic control option beluga supplies no analytical Jacobians (checked)']

SYM = {'s-poly': 'poly', 's-mid': 'mid', 's-brach2': 'brach2', 's-brach': 'brach', 's-two': 'two'}

K = lambda s: [(c, 1.0, '1') for c in s.split()]


def bvps(kind, opts, meth):
    spec = (sym(SYM[kind]) if kind in SYM else TEMPL[kind]() if kind in TEMPL else OWN[kind]())
    return spec, (indirect if meth == 'i' else direct)(spec, analytical_jacobian=True, **opts)


OWN = {
    'd21': lambda: generic(2, 0, 1, time=False), 'd20': lambda: generic(2, 0, 0, time=False), 'd1i': lambda: generic(1, 0, 1, time=False, cinit=2, cterm=0),
    'd2f': lambda: generic(2, 0, 0, time=False, cinit=0, cterm=2), 'd31': lambda: generic(3, 0, 2, time=False, cinit=2, cterm=3), 'd21t': lambda: generic(2, 0, 1),
    'dtrig': lambda: S(states=[('x', 'a*sin(x*b) + p*v', '1'), ('v', 'exp(-v*a)/(x + b)', '1')], params=[('p', '1')], consts=K('a b'), init=[('x*p - a', '1')], term=[('sin(v) - b*x', '1'), ('x*v - p**2', '1')]),
    'dquad': lambda: S(states=[('x', 'a*x*v + p', '1'), ('v', 'x - v**2*p', '1')], params=[('p', '1')], consts=K('a b'), quads=[('w', 'x*v', '1'), ('z', 'p*x', '1')], init=[('x*w - a', '1'), ('w*z', '1')], term=[('w**2 - b*x', '1'), ('x*v*z - p**2', '1')]),
}


def column(ctx, fn, args, i, j):
    """derivative of fn(*args) with respect to entry j of argument i."""
    if not ctx.concrete:
        a = [np.array(x, dtype=object) for x in args]
        a[i][j] = Dual(a[i][j], 1)
        return [v.d if isinstance(v, Dual) else 0 for v in np.asarray(fn(*a)).reshape(-1)]

    def at(h):
        a = [np.array(x, dtype=float) for x in args]
        a[i][j] += h
        return np.asarray(fn(*a), dtype=float)
    def est(h):
        return (8 * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12 * h)
    h = 1e-3 * max(1, abs(args[i][j]))
    try:
        d, e = est(h), est(h / 2)
    except ZeroDivisionError:
        ctx.assume(False)
    # too close to a singularity for a difference quotient to serve as the reference
    ctx.assume(bool(np.all(np.abs(d - e) <= 1e-7 * (1 + np.abs(d)))))
    return e


def agree(ctx, label, M, shape, fn, args, cols):
    """M[:, c] = derivative with respect to the c-th (argument, entry) pair."""
    if np.shape(M) != shape:
        ctx.fail(label, 'shape %r, expected %r' % (np.shape(M), shape))
        return
    ctx.check(label + ' shape', True)
    for c, (i, j) in enumerate(cols):
        w = column(ctx, fn, args, i, j)
        if ctx.concrete:
            sc = 1 + np.max(np.abs(np.asarray(w)), initial=0) + np.max(np.abs(np.asarray(M, dtype=float)), initial=0)
            d = np.max(np.abs(np.asarray(M, dtype=float)[:, c] - w), initial=0)
            ctx.check(label, d <= 1e-5 * sc, 'column %d off by %g of %g' % (c, d, sc))
        else:
            ctx.eq(label, np.array(np.asarray(M)[:, c], dtype=object), np.array(w, dtype=object))


def jacobians(ctx, kind, opts, meth='i', part='f'):
    spec, bvp = bvps(kind, opts, meth)
    fp = bvp.functional_problem
    R = lambda tag, ss: vec(ctx, [ctx.real(tag + s.name, -2, 2) for s in ss])
    p, nu, k = R('', bvp.parameters), R('', bvp.constraint_parameters), R('', bvp.constants)
    ny, nq, npar, nn = len(bvp.states), len(bvp.quads), len(p), len(nu)
    if part == 'f':
        y = R('m.', bvp.states)
        if ctx.concrete:
            try:
                ctx.assume(bool(np.all(np.isfinite(fp.deriv_func(y, p, k)))))
            except ZeroDivisionError:      # outside the domain of the rates themselves
                ctx.assume(False)
        r = fp.deriv_func_jac(y, p, k)
        ctx.check('rate Jacobian given as a pair', len(r) == 2)
        f = lambda *a: np.array(fp.deriv_func(*a))
        agree(ctx, 'rates by states', r[0], (ny, ny), f, (y, p, k), [(0, j) for j in range(ny)])
        agree(ctx, 'rates by parameters', r[1], (ny, npar), f, (y, p, k), [(1, j) for j in range(npar)])
        return
    a, b = R('i.', bvp.states), R('f.', bvp.states)
    if nq:
        args = (a, R('i.', bvp.quads), b, R('f.', bvp.quads), p, nu, k)
        ya, yb, ip = 0, 2, 4
    else:
        args = (a, b, p, nu, k)
        ya, yb, ip = 0, 1, 2
    r = fp.bc_func_jac(*args)
    f = lambda *z: np.array(fp.bc_func(*z))
    m = len(f(*args))
    ctx.check('number of residual Jacobians', len(r) == (5 if nq else 3))
    agree(ctx, 'residuals by initial states', r[0], (m, ny), f, args, [(ya, j) for j in range(ny)])
    agree(ctx, 'residuals by terminal states', r[1], (m, ny), f, args, [(yb, j) for j in range(ny)])
    agree(ctx, 'residuals by parameters and multipliers', r[2], (m, npar + nn), f, args, [(ip, j) for j in range(npar)] + [(ip + 1, j) for j in range(nn)])
    if nq:
        agree(ctx, 'residuals by initial quadratures', r[3], (m, nq), f, args, [(1, j) for j in range(nq)])
        agree(ctx, 'residuals by terminal quadratures', r[4], (m, nq), f, args, [(3, j) for j in range(nq)])


def absent(ctx, kind, opts):
    """no Jacobian is supplied that would not belong to the functions."""
    spec = TEMPL[kind]()
    for name in ('algebraic', 'Algebraic'):
        bvp = indirect(spec, analytical_jacobian=True, control_method=name, **opts)
        ctx.check('no Jacobians with algebraic control', bvp.functional_problem.deriv_func_jac is None and bvp.functional_problem.bc_func_jac is None)
    bvp = indirect(spec, **opts)
    ctx.check('no Jacobians unless asked for', bvp.functional_problem.deriv_func_jac is None and bvp.functional_problem.bc_func_jac is None)


def T(id, kind, part, meth='i', **opts):
    return dict(id='%s-%s' % (id, part), fn='jacobians', cfg=dict(kind=kind, opts=opts, meth=meth, part=part), nwit=2, tries=4)


def tasks(tier):
    dg = dict(method='diffyg')
    L = [('g11', 'g11', 'i', {}), ('g21', 'g21', 'i', {}), ('two', 's-two', 'i', {}), ('g21p', 'g21p', 'i', {}), ('brach', 'brach', 'i', {}), ('rational', 'rational', 'i', {}), ('multibc', 'multibc', 'i', {}),
         ('nomom', 'g11nt', 'i', dict(do_momentum_shift=False)), ('nonorm', 'g11', 'i', dict(do_normalize_time=False)), ('bare', 'nobc', 'i', dict(do_normalize_time=False)),
         ('dg-g11', 'g11', 'i', dg), ('dg-brach', 'brach', 'i', dg), ('dg-g21p', 'g11p2', 'i', dg)]
    L += [('dg-nomom', 'g11nt', 'i', dict(dg, do_momentum_shift=False)), ('dg-bare', 'g11nt', 'i', dict(dg, do_momentum_shift=False, do_normalize_time=False)), ('trad-bare', 'g11nt', 'i', dict(do_momentum_shift=False, do_normalize_time=False))]
    for kk in list(SYM)[:3]:
        L.append(('red-' + kk, kk, 'i', dict(dg, reduction=True)))
    for kk in OWN:
        ms = kk == 'd21t'
        L.append(('dir-' + kk, kk, 'd', dict(do_momentum_shift=ms)))
        if kk in ('d21', 'd20', 'dtrig', 'dquad', 'd21t'):
            L.append(('dirn-' + kk, kk, 'd', dict(do_normalize_time=True, do_momentum_shift=ms)))
    if tier == 'thorough':
        L += [('g31', 'g31', 'i', {}), ('g11p2', 'g11p2', 'i', {}), ('dg-g21', 'g21', 'i', dg), ('dg-two', 's-two', 'i', dg), ('dg-rational', 'rational', 'i', dg)]
        L += [('red-' + kk, kk, 'i', dict(dg, reduction=True)) for kk in list(SYM)[3:]]
    out = [T(i, kd, part, m, **o) for i, kd, m, o in L for part in 'fb']
    out += [dict(id='absent', fn='absent', cfg=dict(kind='g11', opts={}), nwit=1)]
    return out
