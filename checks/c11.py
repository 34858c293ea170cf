"""C11: trajectory evaluation."""
import numpy as np

from bsym.ocp import vec

BOUNDS = ('trajectories of 1-4 nodes (5 in the thorough tier) with arbitrary strictly increasing times and arbitrary values; states, quadratures and controls absent, '
          'one-dimensional, single-column or of 2-3 columns; arbitrary query times, single or in arrays of up to 3')
ASSUMPTIONS = ['linear interpolation (the default)', 'third-party interp1d is modelled as exact piecewise-linear interpolation with a ValueError outside the knots']

SHAPES = {'none': 0, 'flat': 1, 'col': 1, 'two': 2, 'three': 3}


def block(ctx, tag, kind, n):
    """(array as the user would store it, list of columns)."""
    d = SHAPES[kind]
    cols = [[ctx.real('%s%d_%d' % (tag, i, j)) for i in range(n)] for j in range(d)]
    if kind == 'none':
        return np.array([]), cols
    if kind == 'flat':
        return vec(ctx, cols[0]), cols
    a = np.empty((n, d), dtype=float if ctx.concrete else object)
    for j in range(d):
        for i in range(n):
            a[i, j] = cols[j][i]
    return a, cols


def setup(ctx, n, yk, qk, uk, kw=None):
    from beluga.numeric.data_classes.Trajectory import Trajectory
    t = [ctx.real('t%d' % i) for i in range(n)]
    for a, b in zip(t, t[1:]):
        ctx.assume(b - a > (1e-6 if ctx.concrete else 0))
        ctx.prefer(b - a > 0.05)
    y, yc = block(ctx, 'y', yk, n)
    q, qc = block(ctx, 'q', qk, n)
    u, uc = block(ctx, 'u', uk, n)
    return Trajectory(vec(ctx, t), y, q, u, **(kw or {})), t, (yc, qc, uc)


def lerp(ctx, t, col, s):
    for i in range(len(t) - 1):
        if i == len(t) - 2 or bool(s <= t[i + 1]):
            return col[i] + (s - t[i]) / (t[i + 1] - t[i]) * (col[i + 1] - col[i])
    return col[0]


def flat(a, m, d):
    a = np.asarray(a)
    return a.reshape(m, d) if a.size == m * d else a


def compare(ctx, label, got, cols, rows):
    """got: y, q, u as returned; rows: list of expected row builders."""
    for name, g, c in zip('yqu', got, cols):
        d, m = len(c), len(rows)
        g = np.asarray(g)
        if d == 0:
            ctx.check('%s no %s' % (label, name), g.size == 0)
            continue
        ctx.check('%s size of %s' % (label, name), g.size == m * d, '%r values for %d times and %d components' % (g.shape, m, d))
        if g.size == m * d:
            for r in range(m):
                for j in range(d):
                    ctx.eq('%s %s' % (label, name), flat(g, m, d)[r, j], rows[r](c[j]))


def nodes(ctx, n, yk, qk, uk):
    tr, t, cols = setup(ctx, n, yk, qk, uk)
    for i in range(n):
        if n > 1:
            g = tr(t[i])
            compare(ctx, 'at node', g, cols, [lambda c, i=i: c[i]])
            for nm, v, c in zip('yqu', g, cols):
                if c:
                    ctx.check('scalar time gives one value per component', np.shape(v) == (len(c),), '%s %r' % (nm, np.shape(v)))
        it = tr[i]
        ctx.eq('item t', it[0], t[i])
        compare(ctx, 'item', it[1:], cols, [lambda c, i=i: c[i]])
    ctx.check('length', len(tr) == n)
    if n > 1:
        g = tr(vec(ctx, t))
        compare(ctx, 'at all nodes', g, cols, [lambda c, i=i: c[i] for i in range(n)])
        for nm, v, c in zip('yqu', g, cols):
            if len(c) > 1:
                ctx.check('vector times give rows', np.shape(v) == (n, len(c)), '%s %r' % (nm, np.shape(v)))
        ctx.eq('stored times kept', np.array(tr.t), vec(ctx, t))


def between(ctx, n, yk, qk, uk, m):
    tr, t, cols = setup(ctx, n, yk, qk, uk)
    s = [ctx.real('s%d' % i) for i in range(m)]
    inside = all(bool(x >= t[0]) and bool(x <= t[-1]) for x in s)
    if not ctx.concrete:
        for x in s:
            for k in (t[0], t[-1]):
                ctx.prefer((x - k > 0.01) | (k - x > 0.01) | (x == k if inside else x - k > 0.01))
    arg = s[0] if m == 1 else vec(ctx, s)
    if not inside:
        if ctx.concrete:
            ctx.assume(all(abs(x - t[0]) > 1e-9 and abs(x - t[-1]) > 1e-9 for x in s))
        ctx.raises('outside rejected', ValueError, lambda: tr(arg))
        return
    try:
        g = tr(arg)
    except ValueError as e:
        ctx.fail('inside accepted', str(e))
        return
    compare(ctx, 'between nodes', g, cols, [lambda c, x=x: lerp(ctx, t, c, x) for x in s])


def custom(ctx, n):
    """a user-supplied interpolation function is what is used."""
    from beluga.numeric.data_classes.Trajectory import Trajectory
    tr, t, cols = setup(ctx, n, 'two', 'flat', 'col')
    tr.set_interpolate_function(lambda tt, yy: (lambda x: yy[0] * x + tt[0]))
    x = ctx.real('x')
    compare(ctx, 'custom', tr(x), cols, [lambda c: c[0] * x + t[0]])
    # data replaced after construction is the data evaluated
    tr2, t2, _ = setup(ctx, n, 'two', 'none', 'none')
    new, nc = block(ctx, 'z', 'two', n)
    tr2.y = new
    compare(ctx, 'replaced data', tr2(t2[1]), (nc, [], []), [lambda c: c[1]])
    e = Trajectory()
    ctx.check('empty trajectory', len(e) == 0 and all(np.size(v) == 0 for v in e(0.0)))


def T(id, fn, **cfg):
    return dict(id=id, fn=fn, cfg=cfg, nwit=6, tries=8, max_paths=400)


def tasks(tier):
    out = []
    combos = [('flat', 'none', 'none'), ('col', 'flat', 'two'), ('two', 'col', 'none'), ('three', 'two', 'flat'), ('two', 'none', 'col'), ('two', 'three', 'three')]
    for i, c in enumerate(combos):
        out.append(T('nodes-%d' % i, 'nodes', n=3, yk=c[0], qk=c[1], uk=c[2]))
        out.append(T('mid-%d' % i, 'between', n=3, yk=c[0], qk=c[1], uk=c[2], m=1))
        out.append(T('vec-%d' % i, 'between', n=3 if i % 2 else 2, yk=c[0], qk=c[1], uk=c[2], m=2))
    out += [T('mid-long', 'between', n=4, yk='two', qk='flat', uk='col', m=1), T('single', 'nodes', n=1, yk='two', qk='none', uk='col'), T('custom', 'custom', n=3)]
    if tier == 'thorough':
        out += [T('mid-5', 'between', n=5, yk='two', qk='two', uk='two', m=1), T('vec-4', 'between', n=4, yk='three', qk='flat', uk='two', m=2),
                T('vec-3', 'between', n=3, yk='two', qk='flat', uk='two', m=3)]
    return out
