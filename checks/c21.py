"""C21: composition of problem transformations."""
import copy

from bsym.ocp import S, build, names, vec

BOUNDS = ('every composition tree of 2-5 transformations (6 in the thorough tier) with every choice of composition and binding operators, in-place operators included; '
          'powers 0-4 of single and composed transformations, identities anywhere; arbitrary affine transformations of an arbitrary value; '
          'the transformations of the indirect method on two problems in five groupings')
ASSUMPTIONS = ['transformations are functions of the problem they are given']

OPS = {'*': lambda f, g: f * g, '<<': lambda f, g: f << g, '>>': lambda f, g: f >> g}


def ip_mul(f, g):
    f *= g
    return f


def ip_shl(f, g):
    f <<= g
    return f


def ip_shr(f, g):
    f >>= g
    return f


INPLACE = {'*': ip_mul, '<<': ip_shl, '>>': ip_shr}


def leaf(ctx, i, kind):
    """x -> a*x + b as a user would define a transformation; with its meaning"""
    from beluga.symbolic.data_classes.mapping_functions import GenericFunctor
    a, b = ctx.real('a%d' % i, -3, 3), ctx.real('b%d' % i, -3, 3)

    class Affine(GenericFunctor):
        strrep = 'T%d' % i

        def __init__(self, a):
            self.a = a

        def transformation(self, prob):
            prob.value = self.a * prob.value + b
            return prob

    if kind == 'id':
        return GenericFunctor(), lambda x: x
    if kind == 'set':
        f = GenericFunctor(b)

        def transformation(self, prob):
            prob.value = a * prob.value + self.data
            return prob
        f.set_transformation(transformation)
    elif kind == 'new':             # returns another problem
        f = GenericFunctor(b)

        def transformation(self, prob):
            q = copy.copy(prob)
            q.value = a * prob.value + self.data
            return q
        f.set_transformation(transformation)
    else:
        f = Affine(a)
    return f, lambda x: a * x + b


def run(f, x):
    from beluga import Problem
    p = Problem('p')
    p.value = x
    r = f(p)
    return r.value if r is not None else None


def meaning(op, f, g):
    return (lambda x: g(f(x))) if op == '>>' else (lambda x: f(g(x)))


def shapes(n):
    if n == 1:
        return [None]
    return [(l, r) for k in range(1, n) for l in shapes(k) for r in shapes(n - k)]


def tree(ctx, shape, kinds, inplace):
    n = [0]
    made = []
    ops = INPLACE if inplace else OPS

    def go(s):
        if s is None:
            i = n[0]
            n[0] += 1
            r = leaf(ctx, i, kinds[i])
        else:
            f, mf = go(s[0])
            g, mg = go(s[1])
            op = ctx.choice('op%d' % len(made), sorted(ops))
            r = ops[op](f, g), meaning(op, mf, mg)
        made.append(r)
        return r
    f, mf = go(shape)
    x = ctx.real('x', -3, 3)
    ctx.eq('composition', run(f, x), mf(x))
    for k, (g, mg) in enumerate(made):      # every operand and intermediate result still means what it meant
        ctx.eq('operand', run(g, x), mg(x))
    ctx.eq('composition, applied again', run(f, x), mf(x))


def reuse(ctx, order):
    """one composition used in several others"""
    f, mf = leaf(ctx, 0, 'cls')
    g, mg = leaf(ctx, 1, 'set')
    h, mh = leaf(ctx, 2, 'new')
    x = ctx.real('x', -3, 3)
    o1, o2, o3 = (ctx.choice('o%d' % i, sorted(OPS)) for i in range(3))
    fg, mfg = OPS[o1](f, g), meaning(o1, mf, mg)
    a, ma = OPS[o2](fg, h), meaning(o2, mfg, mh)
    b, mb = OPS[o3](fg, fg), meaning(o3, mfg, mfg)
    c, mc = OPS[o3](h, fg), meaning(o3, mh, mfg)
    d, md = OPS[o2](a, b), meaning(o2, ma, mb)
    every = [('fg', fg, mfg), ('a', a, ma), ('b', b, mb), ('c', c, mc), ('d', d, md), ('f', f, mf), ('g', g, mg), ('h', h, mh)]
    for _, p, mp in (every if order else every[::-1]):
        ctx.eq('reused transformation', run(p, x), mp(x))


def power(ctx, k, composed):
    f, mf = leaf(ctx, 0, 'cls')
    x = ctx.real('x', -3, 3)
    if composed:
        g, mg = leaf(ctx, 1, 'set')
        op = ctx.choice('op', sorted(OPS))
        f, mf = OPS[op](f, g), meaning(op, mf, mg)
    w = x
    for _ in range(k):
        w = mf(w)
    p = f ** k
    ctx.eq('power', run(p, x), w)
    ctx.eq('power leaves its base', run(f, x), mf(x))
    if composed:
        h, mh = leaf(ctx, 2, 'cls')
        ctx.eq('power composed', run(h * p, x), mh(w))
        ctx.eq('power bound', run(h >> f ** k, x), _rep(mf, k, mh(x)))
    ctx.eq('power of power', run((f ** k) ** 2, x), _rep(mf, 2 * k, x))


def _rep(f, k, x):
    for _ in range(k):
        x = f(x)
    return x


def errors(ctx):
    f, _ = leaf(ctx, 0, 'cls')
    ctx.raises('negative power', ValueError, lambda: f ** -1)
    ctx.raises('fractional power', TypeError, lambda: f ** 0.5)


K = lambda s: [(c, 1.0, '1') for c in s.split()]
SPECS = {
    'A': S(states=[('x', 'a*v*x + v', '1'), ('v', 'u*x - b*t', '1')], controls=[('u', '1')], consts=K('a b'), quantities=[('q', 'x*a')],
           init=[('x - a', '1')], term=[('v*x - b', '1')], cost=dict(path='u**2 + q*v', terminal='x*v', units='1')),
    'B': S(states=[('y', 'w*c', '1'), ('z', 'y*z + w', '1')], controls=[('w', '1')], consts=K('c d'), params=[('p', '1')],
           init=[('y', '1'), ('z - c', '1')], term=[('y*p - d', '1')], cost=dict(path='w**2*c', terminal='y + z', units='1')),
}


def functors():
    from beluga.symbolic.data_classes import mapping_functions as m
    return [m.Sympify(), m.ApplyQuantities(), m.MomentumShift(), m.Dualize(method='traditional'), m.DifferentialControlLaw(method='traditional'), m.NormalizeTime(),
            m.SquashToBVP(), m.make_postprocessor()]


def values(ctx, bvp, tag):
    f = bvp.functional_problem
    n, k = len(bvp.states), len(bvp.constants)
    y0, y1 = vec(ctx, ctx.reals('y0', n)), vec(ctx, ctx.reals('y1', n))
    c = vec(ctx, ctx.reals('c', k, 0.5, 2))
    nu = vec(ctx, ctx.reals('nu', len(bvp.constraint_parameters)))
    p = vec(ctx, ctx.reals('p', len(bvp.parameters), 0.5, 2))
    q = len(bvp.quads)
    ends = (y0, vec(ctx, ctx.reals('q0', q)), y1, vec(ctx, ctx.reals('q1', q))) if q else (y0, y1)
    return names(bvp.states), f.deriv_func(y0, p, c), f.bc_func(*ends, p, nu, c)


def pipeline(ctx, grouping, first):
    """the same stages grouped differently, the composition applied to two problems one after the other"""
    fs = functors()
    if grouping == 'bind':
        F = fs[0] >> fs[1] >> fs[2] >> fs[3] >> fs[4] >> fs[5] >> fs[6] >> fs[7]
    elif grouping == 'right':
        F = fs[0] >> (fs[1] >> (fs[2] >> (fs[3] >> (fs[4] >> (fs[5] >> (fs[6] >> fs[7]))))))
    elif grouping == 'compose':
        F = fs[7] * fs[6] * fs[5] * fs[4] * fs[3] * fs[2] * fs[1] * fs[0]
    elif grouping == 'pairs':
        F = (fs[7] << fs[6] * (fs[4] >> fs[5])) * ((fs[2] >> fs[3]) << (fs[0] >> fs[1]))
    else:
        from beluga.symbolic.data_classes.mapping_functions import GenericFunctor
        F = GenericFunctor()
        for f in fs:
            F >>= f ** 1
    other = 'B' if first == 'A' else 'A'
    got1 = F(build(SPECS[other]))
    got = F(build(SPECS[first]))
    want = build(SPECS[first])
    for f in functors():
        want = f(want)
    gn, gd, gb = values(ctx, got, 'g')
    wn, wd, wb = values(ctx, want, 'w')
    ctx.same('states', gn, wn)
    ctx.eq('rates', gd, wd)
    ctx.eq('boundary residuals', gb, wb)
    ctx.same('history of the transformed problem', len(got.sol_map_chain), len(want.sol_map_chain))
    ctx.same('first problem kept apart', names(got1.constants)[:2], [c[0] for c in SPECS[other]['consts']][:2])


def tasks(tier):
    out = []

    def add(fn, tid, **cfg):
        out.append(dict(id=tid, fn=fn, cfg=cfg, nwit=2 if fn == 'tree' else 1, max_paths=400, limit=200))
    deep = tier == 'thorough'
    rot = ['cls', 'set', 'new', 'cls', 'set', 'new']
    for n in (2, 3, 4, 5) + ((6,) if deep else ()):
        for j, s in enumerate(shapes(n)):
            add('tree', 'tree%d-%d' % (n, j), shape=s, kinds=rot[:n], inplace=False)
            if n <= 3 or deep and n < 6:
                add('tree', 'tree%d-%d-inplace' % (n, j), shape=s, kinds=rot[1:] + rot[:1], inplace=True)
                for i in range(n):
                    add('tree', 'tree%d-%d-id%d' % (n, j, i), shape=s, kinds=rot[:i] + ['id'] + rot[i + 1:n], inplace=False)
    for o in (False, True):
        add('reuse', 'reuse-%s' % o, order=o)
    for k in range(5 if not deep else 7):
        for c in (False, True):
            add('power', 'power%d-%s' % (k, c), k=k, composed=c)
    add('errors', 'errors')
    for g in ('bind', 'right', 'compose', 'pairs', 'loop'):
        add('pipeline', 'pipeline-' + g, grouping=g, first='A' if g != 'pairs' else 'B')
    return out
