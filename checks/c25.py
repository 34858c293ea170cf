"""C25: exterior calculus."""
import numpy as np

from bsym.core import evalx
from bsym.ocp import S, Oracle, quad_form

BOUNDS = ('functions and one-forms in 1-6 coordinates: full quadratic polynomials with arbitrary coefficients (a smooth function agrees with one to second order at a point, '
          'which is all these operators read), and compositions with sin, exp and quotients; symplectic forms: standard with 1-3 pairs, arbitrary invertible constant forms with '
          '1-2 pairs, position-dependent forms with one pair; is_symplectic on 2x2 and 4x4 matrices with arbitrary entries and on every other shape up to 4x4')
ASSUMPTIONS = ['divisors (pivots of the elimination) are non-zero', 'dependent variables of a total derivative do not depend on each other']

O = Oracle(S())


def syms(n, prefix='z'):
    import sympy
    return [sympy.Symbol('%s%d' % (prefix, i)) for i in range(n)]


def environment(ctx, exprs):
    """a value for every variable and coefficient of the given texts"""
    import sympy
    ns = sorted({s.name for e in exprs for s in sympy.sympify(e).free_symbols})
    return {n: ctx.real(n) for n in ns}


def text(kind, prefix, names):
    consts = []
    if kind == 'quad':
        return quad_form(prefix, names, consts)
    a, b = names[0], names[-1]
    lin = ' + '.join('%sk%d*%s' % (prefix, i, n) for i, n in enumerate(names))
    return {'sin': '%sa*sin(%s) + %sb*%s*%s' % (prefix, lin, prefix, a, b),
            'exp': '%sa*%s*exp(%s*%sb) + %s' % (prefix, a, b, prefix, lin),
            'ratio': '(%s)/(1 + %s**2 + %s**2)' % (lin, a, b),
            'same': 'ga*%s**2*%s + gb*%s' % (a, b, b), 'lin': lin, 'const': prefix + 'c', 'zero': '0'}[kind]


def val(e, env):
    return evalx(str(e), env)


def function(t):
    return lambda e: evalx(t, e)


def grad(ctx, n, kind):
    import sympy
    from beluga.symbolic.differential_geometry import exterior_derivative
    b = syms(n)
    t = text(kind, 'f', [s.name for s in b])
    env = environment(ctx, [t] + b)
    df = exterior_derivative(sympy.sympify(t), b)
    ctx.same('gradient shape', tuple(df.shape), (n,))
    for i, s in enumerate(b):
        ctx.eq('gradient:%d' % i, val(df[i], env), O.d(function(t), env, s.name))
    ddf = exterior_derivative(df, b)
    ctx.same('second derivative shape', tuple(ddf.shape), (n, n))
    for i in range(n):
        for j in range(n):
            ctx.eq('d of d vanishes:%d,%d' % (i, j), val(ddf[i, j], env), 0)


def oneform(ctx, n, kinds, container):
    import sympy
    from beluga.symbolic.differential_geometry import exterior_derivative
    b = syms(n)
    ns = [s.name for s in b]
    ts = [text(kinds[i % len(kinds)], 'f%d' % i, ns) for i in range(n)]
    env = environment(ctx, ts + b)
    comps = [sympy.sympify(t) for t in ts]
    f = {'array': sympy.Array, 'mutable': sympy.MutableDenseNDimArray, 'immutable': sympy.ImmutableDenseNDimArray}[container](comps)
    df = exterior_derivative(f, b)
    ctx.same('two-form shape', tuple(df.shape), (n, n))
    for i in range(n):
        for j in range(n):
            ctx.eq('two-form:%d,%d' % (i, j), val(df[i, j], env), O.d(function(ts[j]), env, ns[i]) - O.d(function(ts[i]), env, ns[j]))
    ctx.same('argument untouched', [str(c) for c in f], [str(c) for c in comps])


def unsupported(ctx, shape):
    import sympy
    from beluga.symbolic.differential_geometry import exterior_derivative
    b = syms(shape[0])
    f = sympy.MutableDenseNDimArray.zeros(*shape)
    ctx.raises('no wrong answer for higher grades', Exception, lambda: exterior_derivative(f, b))


def standard(ctx, n):
    from beluga.symbolic.differential_geometry import make_standard_symplectic_form, is_symplectic
    x, l = syms(n, 'x'), syms(n, 'l')
    om = make_standard_symplectic_form(x, l)
    ctx.same('form shape', tuple(om.shape), (2 * n, 2 * n))
    v = [ctx.real('v%d' % i) for i in range(2 * n)]
    w = [ctx.real('w%d' % i) for i in range(2 * n)]
    got = sum((v[i] * int(om[i, j]) * w[j] for i in range(2 * n) for j in range(2 * n)), 0 * v[0])
    ctx.eq('pairs states with costates', got, sum((v[i] * w[n + i] - w[i] * v[n + i] for i in range(n)), 0 * v[0]))
    ctx.same('accepted as symplectic', bool(is_symplectic(om)), True)
    for k in (n - 1, n + 1):
        ctx.raises('numbers of states and costates must agree', ValueError, lambda: make_standard_symplectic_form(x, syms(k, 'l')))


def skew(n, entry):
    import sympy
    m = sympy.MutableDenseNDimArray.zeros(2 * n, 2 * n)
    for i in range(2 * n):
        for j in range(i):
            m[j, i], m[i, j] = entry(j, i), -entry(j, i)
    return m


def hamilton(ctx, n, form, kind):
    import sympy
    from beluga.symbolic.differential_geometry import make_standard_symplectic_form, make_hamiltonian_vector_field, exterior_derivative, is_symplectic
    x, l = syms(n, 'x'), syms(n, 'l')
    b = x + l
    ns = [s.name for s in b]
    t = text(kind, 'H', ns)
    extra = []
    if form == 'standard':
        om = make_standard_symplectic_form(x, l)
    elif form == 'constant':
        om = skew(n, lambda i, j: sympy.Symbol('w%d%d' % (i, j)))
    elif form == 'permuted':        # another constant form, with zeros where the elimination looks first
        order = [(i, 2 * n - 1 - i) for i in range(n)]
        om = skew(n, lambda i, j: sympy.Symbol('w%d%d' % (i, j)) if (i, j) in order else sympy.Integer(0))
    else:
        ts = [text('quad', 'f%d' % i, ns) for i in range(2 * n)]
        extra = ts
        om = exterior_derivative(sympy.Array([sympy.sympify(q) for q in ts]), b)
    entries = [om[i, j] for i in range(2 * n) for j in range(2 * n)]
    env = environment(ctx, [t] + b + extra + entries)
    H = sympy.sympify(t)
    W = [[val(om[i, j], env) for j in range(2 * n)] for i in range(2 * n)]
    if n == 1:
        ctx.assume(W[0][1] != 0)
    elif form == 'constant':
        ctx.assume(W[0][1] * W[2][3] - W[0][2] * W[1][3] + W[0][3] * W[1][2] != 0)
        ctx.assume(W[0][1] != 0)
    elif form == 'permuted':
        for i in range(n):
            ctx.assume(W[i][2 * n - 1 - i] != 0)
    ctx.same('form is accepted', bool(is_symplectic(om)), True)
    X = make_hamiltonian_vector_field(H, om, b)
    xs = [val(X[i], env) for i in range(2 * n)]
    dH = [O.d(function(t), env, m) for m in ns]
    for j in range(2 * n):
        ctx.eq('contraction with the form is dH:%d' % j, sum((xs[i] * W[i][j] for i in range(2 * n)), 0), dH[j])
    if form == 'standard':
        for i in range(n):
            ctx.eq('state rate:%d' % i, xs[i], dH[n + i])
            ctx.eq('costate rate:%d' % i, xs[n + i], -dH[i])
    ctx.eq('conserves the Hamiltonian', O.dd(function(t), env, dict(zip(ns, xs))), 0)


def badform(ctx, shape):
    import sympy
    from beluga.symbolic.differential_geometry import make_hamiltonian_vector_field, is_symplectic
    om = sympy.MutableDenseNDimArray.zeros(*shape)
    ctx.same('rejected as symplectic', bool(is_symplectic(om)), False)
    ctx.same('rejected as symplectic (array)', bool(is_symplectic(np.zeros(shape))), False)
    if len(shape) == 2:
        b = syms(shape[0])
        ctx.raises('no vector field', ValueError, lambda: make_hamiltonian_vector_field(b[0] ** 2, om, b))


def none(ctx):
    from beluga.symbolic.differential_geometry import is_symplectic
    ctx.same('no form', bool(is_symplectic(None)), False)


def symplectic(ctx, n, free):
    """every matrix of this size: accepted exactly if antisymmetric (and not degenerate)"""
    from beluga.symbolic.differential_geometry import is_symplectic
    m = np.empty((n, n), dtype=object)
    if free:
        for i in range(n):
            for j in range(n):
                m[i, j] = ctx.real('m%d%d' % (i, j))
    else:           # one antisymmetric matrix with one arbitrary entry anywhere
        for i in range(n):
            m[i, i] = ctx.real('z', 0, 0)
            for j in range(i):
                m[j, i] = ctx.real('m%d%d' % (j, i))
                m[i, j] = -m[j, i]
        i, j = ctx.choice('at', [(i, j) for i in range(n) for j in range(n)])
        m[i, j] = ctx.real('e')
    if ctx.concrete:
        m = m.astype(float)
    anti = all(bool(m[i, j] == -m[j, i]) for i in range(n) for j in range(i + 1))
    pf = m[0, 1] if n == 2 else m[0, 1] * m[2, 3] - m[0, 2] * m[1, 3] + m[0, 3] * m[1, 2]
    got = bool(is_symplectic(m))
    if not anti:
        ctx.same('not antisymmetric is rejected', got, False)
    elif bool(pf != 0):
        ctx.same('symplectic is accepted', got, True)


def bracket(ctx, n, kind):
    import beluga
    import sympy
    from beluga.symbolic.differential_geometry import make_standard_symplectic_form, pb, noether
    from beluga.symbolic.data_classes.components_structures import NamedDimensionalExpressionStruct
    p = beluga.Problem('prob')
    for i in range(n):
        p.state('x%d' % i, '1', '1')
    for i in range(n):
        p.costate('l%d' % i, '1', '1')
    for s in p.states + p.costates:
        s.sympify_self()
    p.omega = make_standard_symplectic_form(p.states, p.costates)
    ns = [s.name for s in p.states + p.costates]
    t = text(kind, 'g', ns)
    env = environment(ctx, [t] + ns)
    g = NamedDimensionalExpressionStruct('g', t, '1')
    g.sympify_self()
    h = pb(None, g, p)
    for i in range(n):
        ctx.eq('bracket:%d' % i, val(h[i], env), O.d(function(t), env, ns[n + i]))
        ctx.eq('bracket:%d' % (n + i), val(h[n + i], env), -O.d(function(t), env, ns[i]))


def momentum(ctx, n, kind):
    """the conserved quantity of a symmetry generates it"""
    import beluga
    import sympy
    from beluga.symbolic.differential_geometry import make_standard_symplectic_form, noether
    from beluga.symbolic.data_classes.components_structures import SymmetryStruct
    p = beluga.Problem('prob')
    for i in range(n):
        p.state('x%d' % i, '1', '1')
    for i in range(n):
        p.costate('l%d' % i, '1', '1')
    p.path_cost('1', '1')
    for s in p.states + p.costates + [p.cost]:
        s.sympify_self()
    p.cost.units = sympy.Integer(1)
    p.omega = make_standard_symplectic_form(p.states, p.costates)
    xs = ['x%d' % i for i in range(n)]
    fs = [text(kind, 'f%d' % i, xs) for i in range(n)]
    env = environment(ctx, fs + xs + ['l%d' % i for i in range(n)])
    f = SymmetryStruct(fs + ['0'] * n, '1')
    f.sympify_self()
    g, _ = noether(p, f)
    ctx.eq('momentum along the field', val(g, env), sum((env['l%d' % i] * evalx(fs[i], env) for i in range(n)), 0))
    p.omega[0, 1] = p.omega[0, 1] + 1
    ctx.raises('needs a symplectic form', ValueError, lambda: noether(p, f))


def total(ctx, n, m, kind):
    import sympy
    from beluga.symbolic.differential_geometry import total_derivative
    b = syms(n)
    ns = [s.name for s in b]
    q = syms(m, 'q')
    qt = [text(kind, 'r%d' % i, ns) for i in range(m)]
    t = text(kind, 'f', ns + [s.name for s in q])
    env = environment(ctx, [t] + qt + b)
    full = dict(env, **{s.name: evalx(u, env) for s, u in zip(q, qt)})

    def f(e):
        return evalx(t, dict(e, **{s.name: evalx(u, e) for s, u in zip(q, qt)}))
    for s in b:
        d = total_derivative(sympy.sympify(t), s, dict(zip(q, [sympy.sympify(u) for u in qt])) if m else None)
        ctx.eq('total derivative:' + s.name, val(d, full), O.d(f, env, s.name))


def tasks(tier):
    out = []

    def add(fn, tid, **cfg):
        out.append(dict(id=tid, fn=fn, cfg=cfg, max_paths=3000))
    deep = tier == 'thorough'
    for n in range(1, 9 if deep else 7):
        add('grad', 'grad-%d' % n, n=n, kind='quad')
    for k in ('sin', 'exp', 'ratio', 'const', 'zero'):
        for n in (1, 2, 4):
            add('grad', 'grad-%s-%d' % (k, n), n=n, kind=k)
    for n in range(1, 7 if deep else 5):
        for c in ('array', 'mutable'):
            add('oneform', 'oneform-%s-%d' % (c, n), n=n, kinds=['quad'], container=c)
    for ks in (['sin', 'quad'], ['exp', 'ratio'], ['zero', 'quad', 'const'], ['same']):
        for n in (2, 3, 4):
            add('oneform', 'oneform-%s-%d' % ('-'.join(ks), n), n=n, kinds=ks, container='immutable')
    for s in ((2, 2), (3, 3), (2, 2, 2)):
        add('unsupported', 'grade-%s' % 'x'.join(map(str, s)), shape=s)
    for n in (1, 2, 3, 4):
        add('standard', 'standard-%d' % n, n=n)
    for n in (1, 2, 3):
        for k in ('quad', 'sin', 'exp'):
            add('hamilton', 'hamilton-%d-%s' % (n, k), n=n, form='standard', kind=k)
        add('hamilton', 'hamilton-permuted-%d' % n, n=n, form='permuted', kind='quad')
    add('hamilton', 'hamilton-constant-1', n=1, form='constant', kind='quad')
    add('hamilton', 'hamilton-constant-2', n=2, form='constant', kind='quad' if deep else 'lin')
    add('hamilton', 'hamilton-closed-1', n=1, form='closed', kind='quad')
    for s in ((1, 1), (3, 3), (1, 2), (2, 1), (2, 4), (4, 2), (2, 3), (3, 2), (4, 3), (2,), (4,), (2, 2, 2)):
        add('badform', 'badform-%s' % 'x'.join(map(str, s)), shape=s)
    add('none', 'no-form')
    add('symplectic', 'symplectic-2', n=2, free=True)
    add('symplectic', 'symplectic-4-entry', n=4, free=False)
    if deep:
        add('symplectic', 'symplectic-4', n=4, free=True)
    for n in (1, 2, 3):
        for k in ('quad', 'sin'):
            add('bracket', 'bracket-%d-%s' % (n, k), n=n, kind=k)
            add('momentum', 'momentum-%d-%s' % (n, k), n=n, kind=k)
        add('momentum', 'momentum-%d-const' % n, n=n, kind='const')
    for m in (0, 1, 2):
        for k in ('quad', 'sin', 'exp'):
            add('total', 'total-%d-%s' % (m, k), n=2, m=m, kind=k)
    return out
