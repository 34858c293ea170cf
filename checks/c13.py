"""C13: continuation schedules."""
import itertools
from fractions import Fraction

import numpy as np

from bsym import contin
from bsym.ocp import vec

BOUNDS = ('1-3 continued constants among 2-4 with arbitrary current values and targets (|value| <= 1e4; positive for logarithmic spacing), 2-6 cases per step, linear and logarithmic spacing; '
          'product steps with 2-3 subdivisions of 1-3 constants; sparse product steps with 2-3 major and 0-2 minor points for 1-3 constants; chains of 2 steps; step objects used twice from different starting constants')
ASSUMPTIONS = ['every case converges (failures are C14)', 'steps with a single case, which can only visit the current values, are excluded']


def F(i, n):
    return Fraction(i, n)


def lerp(ctx, a, b, i, n):
    return a + (b - a) * (i / n if ctx.concrete else F(i, n))


def setup(ctx, nc, nv, pos=False):
    names = ['k%d' % i for i in range(nc)]
    lo, hi = (1e-2, 1e4) if pos else (-1e4, 1e4)
    c0 = [ctx.real('c%d' % i, lo, hi) for i in range(nc)]
    tg = [ctx.real('T%d' % i, lo, hi) for i in range(nv)]
    # continued constants are spread over the list, in an order different from declaration
    idx = list(range(nc))[::-1][:nv] if nc > nv else list(range(nv))
    return names, c0, tg, idx


def expect(ctx, label, got, c0, idx, cases, logs=False):
    ctx.check(label + ': number of cases', len(got) == len(cases), '%d cases visited, expected %d' % (len(got), len(cases)))
    if len(got) != len(cases):
        return
    for k, (g, w) in enumerate(zip(got, cases)):
        for j in range(len(c0)):
            if j in idx:
                a, b = g[j], w[idx.index(j)]
                if logs and 0 < k < len(cases) - 1:
                    a, b = np.log10(a), b[1]
                elif logs:
                    b = b[0]
                ctx.eq('%s: continued constant' % label, a, b)
            else:
                ctx.eq('%s: other constant' % label, g[j], c0[j])


def linear_cases(ctx, cur, tg, n):
    return [[lerp(ctx, a, b, i, n - 1) for a, b in zip(cur, tg)] for i in range(n)]


def make(ctx, kind, n, names, idx, tg, steps):
    s = steps.add_step(kind)
    for i, t in zip(idx, tg):
        s.const(names[i], t)
    return s


def spread(ctx, kind, nc, nv, n, log=False, twice=False):
    from beluga.continuation import ContinuationList
    names, c0, tg, idx = setup(ctx, nc, nv, log)
    bvp = contin.problem(names)
    steps = ContinuationList()
    s = make(ctx, kind, n, names, idx, tg, steps)
    s.num_cases(n, spacing='log') if log else s.num_cases(n)

    def cases(cur):
        if not log:
            return linear_cases(ctx, cur, tg, n)
        out = []
        for i in range(n):
            out.append([((a if i == 0 else b), lerp(ctx, np.log10(a), np.log10(b), i, n - 1)) for a, b in zip(cur, tg)])
        return out
    alg = contin.algorithm(lambda i: True)
    sols, err = contin.run(ctx, alg, steps, contin.guess(ctx, c0), bvp)
    ctx.check('no error', err is None, repr(err))
    expect(ctx, 'schedule', alg.consts, c0, idx, cases([c0[i] for i in idx]), log)
    ctx.check('solutions stored', sols is not None and [len(x) for x in sols] == [n])
    if twice:
        lo, hi = (1e-2, 1e4) if log else (-1e4, 1e4)
        c1 = [ctx.real('d%d' % i, lo, hi) for i in range(nc)]
        alg = contin.algorithm(lambda i: True)
        contin.run(ctx, alg, steps, contin.guess(ctx, c1), bvp)
        expect(ctx, 'second use', alg.consts, c1, idx, cases([c1[i] for i in idx]), log)


def bisect_again(ctx, nv, n, fails):
    """a bisection step that had to subdivide is used again: it visits the requested cases."""
    from beluga.continuation import ContinuationList
    names, c0, tg, idx = setup(ctx, nv + 1, nv)
    bvp = contin.problem(names)
    steps = ContinuationList()
    s = make(ctx, 'bisection', n, names, idx, tg, steps)
    s.num_cases(n)
    bad = [ctx.flag('fail%d' % i) for i in range(1, 1 + fails)]
    alg = contin.algorithm(lambda i: not (1 <= i <= fails and bad[i - 1]))
    sols, err = contin.run(ctx, alg, steps, contin.guess(ctx, c0), bvp)
    ctx.check('first use completes', err is None, repr(err))
    for j, i in enumerate(idx):
        ctx.eq('first use ends at the target', alg.consts[-1][i], tg[j])
    c1 = [ctx.real('d%d' % i, -1e4, 1e4) for i in range(nv + 1)]
    alg = contin.algorithm(lambda i: True)
    contin.run(ctx, alg, steps, contin.guess(ctx, c1), bvp)
    expect(ctx, 'second use', alg.consts, c1, idx, linear_cases(ctx, [c1[i] for i in idx], tg, n))


def visited_once(ctx, label, got, c0, idx, points):
    """got visits exactly the given points, each once, the first given first and the last given last."""
    ctx.check(label + ': number of cases', len(got) == len(points), '%d cases visited, expected %d' % (len(got), len(points)))
    if len(got) != len(points):
        return
    for g in got:
        for j in range(len(c0)):
            if j not in idx:
                ctx.eq(label + ': other constant', g[j], c0[j])
    rows = [[g[i] for i in idx] for g in got]
    ctx.eq(label + ': first case', vec(ctx, rows[0]), vec(ctx, points[0]))
    ctx.eq(label + ': last case', vec(ctx, rows[-1]), vec(ctx, points[-1]))
    # pair by a generic projection: each expected point must be visited
    w = [ctx.real('w%d' % i, 0.5, 2) for i in range(len(idx))]
    ctx.match(label + ': every combination visited', [sum(a * b for a, b in zip(w, r)) for r in rows],
              [sum(a * b for a, b in zip(w, r)) for r in points], signs=False)


def product(ctx, nc, nv, m, twice=False):
    from beluga.continuation import ContinuationList
    names, c0, tg, idx = setup(ctx, nc, nv)
    bvp = contin.problem(names)
    steps = ContinuationList()
    s = make(ctx, 'productspace', m, names, idx, tg, steps)
    s.num_subdivisions(m)

    def points(cur):
        return [list(p) for p in itertools.product(*[[lerp(ctx, a, b, i, m - 1) for i in range(m)] for a, b in zip(cur, tg)])]
    alg = contin.algorithm(lambda i: True)
    sols, err = contin.run(ctx, alg, steps, contin.guess(ctx, c0), bvp)
    ctx.check('no error', err is None, repr(err))
    visited_once(ctx, 'product', alg.consts, c0, idx, points([c0[i] for i in idx]))
    if twice:
        c1 = [ctx.real('d%d' % i, -1e4, 1e4) for i in range(nc)]
        alg = contin.algorithm(lambda i: True)
        contin.run(ctx, alg, steps, contin.guess(ctx, c1), bvp)
        visited_once(ctx, 'second use', alg.consts, c1, idx, points([c1[i] for i in idx]))


def sparse(ctx, nc, major, minor, twice=False):
    from beluga.continuation import ContinuationList
    nv = len(major)
    names, c0, tg, idx = setup(ctx, nc, nv)
    bvp = contin.problem(names)
    steps = ContinuationList()
    s = make(ctx, 'sparse_product', 0, names, idx, tg, steps)
    s.num_subdivisions((tuple(major), tuple(minor)))

    def points(cur):
        # along variable n: fine line, at every major point of the earlier variables, later ones at their start
        pts, seen = [], set()
        coords = []

        def add(key):
            if key not in seen:
                seen.add(key)
                coords.append(key)
        add(tuple(Fraction(0) for _ in range(nv)))
        for n in range(nv):
            fine = [Fraction(i, (major[n] - 1) * (minor[n] + 1)) for i in range((major[n] - 1) * (minor[n] + 1) + 1)]
            for head in itertools.product(*[[Fraction(i, major[v] - 1) for i in range(major[v])] for v in range(n)]):
                for x in fine:
                    add(tuple(head) + (x,) + tuple(Fraction(0) for _ in range(n + 1, nv)))
        last = tuple(Fraction(1) for _ in range(nv))
        coords.remove(last)
        coords.append(last)
        for key in coords:
            pts.append([a + (b - a) * (float(x) if ctx.concrete else x) for a, b, x in zip(cur, tg, key)])
        return pts
    alg = contin.algorithm(lambda i: True)
    sols, err = contin.run(ctx, alg, steps, contin.guess(ctx, c0), bvp)
    ctx.check('no error', err is None, repr(err))
    visited_once(ctx, 'lattice', alg.consts, c0, idx, points([c0[i] for i in idx]))
    if twice:
        c1 = [ctx.real('d%d' % i, -1e4, 1e4) for i in range(nc)]
        alg = contin.algorithm(lambda i: True)
        contin.run(ctx, alg, steps, contin.guess(ctx, c1), bvp)
        visited_once(ctx, 'second use', alg.consts, c1, idx, points([c1[i] for i in idx]))


def chain(ctx, kinds, n):
    """a second step continues from the constants where the first one ended."""
    from beluga.continuation import ContinuationList
    names, c0, tg, idx = setup(ctx, 3, 2)
    T2 = ctx.real('U', -1e4, 1e4)
    bvp = contin.problem(names)
    steps = ContinuationList()
    s1 = make(ctx, kinds[0], n, names, idx, tg, steps)
    s1.num_cases(n)
    s2 = make(ctx, kinds[1], n, names, [idx[0]], [T2], steps)
    s2.num_cases(n + 1)
    alg = contin.algorithm(lambda i: True)
    sols, err = contin.run(ctx, alg, steps, contin.guess(ctx, c0), bvp)
    ctx.check('no error', err is None, repr(err))
    expect(ctx, 'first step', alg.consts[:n], c0, idx, linear_cases(ctx, [c0[i] for i in idx], tg, n))
    c1 = list(c0)
    for i, t in zip(idx, tg):
        c1[i] = t
    expect(ctx, 'second step', alg.consts[n:], c1, [idx[0]], linear_cases(ctx, [tg[0]], [T2], n + 1))


def rebuilt(ctx, kind, how):
    """other ways to set up a step: constructor arguments, a ready-made step object, a cleared step."""
    import beluga.continuation as bc
    from beluga.continuation.continuation import BisectionStrategy, ManualStrategy
    cls = dict(manual=ManualStrategy, bisection=BisectionStrategy)[kind]
    names, c0, tg, idx = setup(ctx, 3, 2)
    bvp = contin.problem(names)
    steps = bc.ContinuationList()
    n = 4
    if how == 'object':
        s = cls()
        r = steps.add_step(s)
        ctx.check('the given step is the one added', r is s and steps[-1] is s and len(steps) == 1)
        s.num_cases(n)
    elif how == 'kwargs':
        s = steps.add_step(kind, **{dict(manual='num_cases', bisection='initial_num_cases')[kind]: n})
    else:
        s = steps.add_step(kind)
        s.const(names[[i for i in range(3) if i not in idx][0]], ctx.real('old', -1e4, 1e4))
        s.num_cases(n)
        if how == 'clear-used':
            contin.run(ctx, contin.algorithm(lambda i: True), steps, contin.guess(ctx, c0), bvp)
        s.clear()
        s.num_cases(n)
    for i, t in zip(idx, tg):
        s.const(names[i], t)
    alg = contin.algorithm(lambda i: True)
    sols, err = contin.run(ctx, alg, steps, contin.guess(ctx, c0), bvp)
    ctx.check('no error', err is None, repr(err))
    expect(ctx, 'schedule', alg.consts, c0, idx, linear_cases(ctx, [c0[i] for i in idx], tg, n))


def names_checked(ctx, kind):
    """continuing a constant that the problem does not have is refused."""
    from beluga.continuation import ContinuationList
    bvp = contin.problem(['a', 'b'])
    steps = ContinuationList()
    steps.add_step(kind).const('nope', ctx.real('T', -1e4, 1e4))
    if kind == 'sparse_product':
        steps[0].num_subdivisions(((3,), (0,)))
    alg = contin.algorithm(lambda i: True)
    ctx.raises('unknown constant refused', Exception, lambda: contin.run(ctx, alg, steps, contin.guess(ctx, [ctx.real('x'), ctx.real('y')]), bvp))
    ctx.check('nothing solved', len(alg.given) == 0)
    ctx.raises('unknown strategy refused', Exception, lambda: steps.add_step('nosuch'))


def T(id, fn, **cfg):
    return dict(id=id, fn=fn, cfg=cfg, nwit=4, tries=6, max_paths=400)


def tasks(tier):
    out = []
    for kind in ('manual', 'bisection'):
        out += [T('%s-1' % kind, 'spread', kind=kind, nc=2, nv=1, n=3), T('%s-2' % kind, 'spread', kind=kind, nc=3, nv=2, n=5, twice=True),
                T('%s-two' % kind, 'spread', kind=kind, nc=2, nv=2, n=2), T('%s-log' % kind, 'spread', kind=kind, nc=3, nv=2, n=4, log=True),
                T('%s-log2' % kind, 'spread', kind=kind, nc=2, nv=1, n=3, log=True, twice=True), T('%s-unknown' % kind, 'names_checked', kind=kind)]
    out += [T('productspace-unknown', 'names_checked', kind='productspace'), T('sparse-unknown', 'names_checked', kind='sparse_product')]
    out += [T('%s-%s' % (k, h), 'rebuilt', kind=k, how=h) for k in ('manual', 'bisection') for h in ('object', 'kwargs', 'clear', 'clear-used')]
    out += [T('bisect-again', 'bisect_again', nv=1, n=3, fails=2), T('bisect-again2', 'bisect_again', nv=2, n=4, fails=3)]
    out += [T('product-%d%d' % (v, m), 'product', nc=v + 1, nv=v, m=m, twice=(m == 2)) for v, m in ((1, 3), (2, 2), (2, 3), (3, 2))]
    out += [T('sparse-1', 'sparse', nc=2, major=[3], minor=[1]), T('sparse-2', 'sparse', nc=3, major=[2, 3], minor=[1, 0], twice=True),
            T('sparse-22', 'sparse', nc=2, major=[3, 2], minor=[0, 2]), T('sparse-3', 'sparse', nc=3, major=[2, 2, 2], minor=[0, 1, 0])]
    out += [T('chain-mm', 'chain', kinds=('manual', 'manual'), n=3), T('chain-mb', 'chain', kinds=('manual', 'bisection'), n=2), T('chain-bm', 'chain', kinds=('bisection', 'manual'), n=3)]
    if tier == 'thorough':
        out += [T('%s-%d%d' % (k, v, n), 'spread', kind=k, nc=4, nv=v, n=n, twice=True) for k in ('manual', 'bisection') for v in (1, 2, 3) for n in (2, 4, 6, 8)]
        out += [T('product-33', 'product', nc=3, nv=3, m=3, twice=True), T('product-24', 'product', nc=3, nv=2, m=4, twice=True),
                T('sparse-33', 'sparse', nc=4, major=[3, 3, 2], minor=[1, 2, 1], twice=True), T('sparse-4', 'sparse', nc=2, major=[4, 4], minor=[2, 1], twice=True), T('bisect-again4', 'bisect_again', nv=2, n=5, fails=5)]
    return out
