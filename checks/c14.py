"""C14: continuation under arbitrary solver successes and failures."""
import numpy as np

from bsym import contin
from checks.c13 import lerp, make, setup

BOUNDS = ('every sequence of successes and failures of the first 4-8 solver calls (all later calls succeed), 1-2 continued constants with arbitrary values and targets, '
          '2-4 requested cases, 2-3 divisions per subdivision, division limits 0-3, linear spacing (logarithmic in one family); product steps of up to 4 cases; chains of two steps')
ASSUMPTIONS = ['the solver returns a solution with the constants of the guess it was given and reports whether it converged', 'constants within +-1e4']


def closest(ctx, label, alg, start, c0):
    """each guess is a converged solution (of this step) at least as close as any other, or the initial guess when none converged yet."""
    for n in range(start, len(alg.given)):
        tag = alg.tags[n]
        done = [i for i in range(start, n) if alg.ok[i]]
        if not done:
            ctx.check(label + ': the initial guess is used until something converged', tag == (start if start else 0), 'guess #%d' % tag)
            continue
        if not ctx.check(label + ': guess is a converged solution', tag - 1 in done, 'guess is solution %d, converged: %r' % (tag - 1, done)):
            continue

        def dist(i):
            return sum(abs(a - b) for a, b in zip(alg.consts[i], alg.consts[n]))
        d = dist(tag - 1)
        for i in done:
            if i != tag - 1:
                ctx.le(label + ': no converged solution is closer', d, dist(i))


def bisection(ctx, nv, n, depth, nd=2, maxd=10, log=False):
    from beluga.continuation import ContinuationList
    names, c0, tg, idx = setup(ctx, nv + 1, nv, log)
    for i, t in zip(idx, tg):
        ctx.prefer(abs(c0[i] - t) > 0.1)
    bvp = contin.problem(names)
    steps = ContinuationList()
    s = steps.add_step('bisection', n, maxd, nd)
    for i, t in zip(idx, tg):
        s.const(names[i], t)
    outcome = {}

    def out(i):
        if i not in outcome:
            outcome[i] = True if i >= depth else not ctx.flag('fail%d' % i)
        return outcome[i]
    alg = contin.algorithm(out)
    sols, err = contin.run(ctx, alg, steps, contin.guess(ctx, c0), bvp)
    # reference run
    pend = [[lerp(ctx, c0[i], t, k, n - 1) for i, t in zip(idx, tg)] for k in range(n)]
    last, want, consec, stop, i = None, [], 0, None, 0
    while pend:
        want.append(pend[0])
        if out(i):
            last, consec = pend.pop(0), 0
        elif i == 0:
            stop = 'first'
            break
        elif consec > maxd:
            stop = 'divisions'
            break
        else:
            consec += 1
            pend = [[lerp(ctx, a, b, k, nd) for a, b in zip(last, pend[0])] for k in range(1, nd)] + pend
        i += 1
    ctx.check('number of solver calls', len(alg.consts) == len(want), '%d calls, expected %d' % (len(alg.consts), len(want)))
    ctx.check('error exactly when it gives up', (err is not None) == (stop is not None), 'stop=%s error=%r' % (stop, err))
    for got, w in zip(alg.consts, want):
        for j in range(nv + 1):
            ctx.eq('constants of the case', got[j], w[idx.index(j)] if j in idx else c0[j])
    if stop is None and alg.ok:
        ctx.check('ends with a converged case', alg.ok[-1])
        for i, t in zip(idx, tg):
            ctx.eq('ends at the target', alg.consts[-1][i], t)
        ctx.check('all solutions kept', sols is not None and [len(x) for x in sols] == [len(want)])
    closest(ctx, 'bisection', alg, 0, c0)


def bisection_log(ctx, nv, n, depth):
    """subdivided values lie strictly between the neighbours and the targets are reached."""
    from beluga.continuation import ContinuationList
    names, c0, tg, idx = setup(ctx, nv + 1, nv, True)
    for i, t in zip(idx, tg):
        ctx.assume(t - c0[i] > 0.1)
    bvp = contin.problem(names)
    steps = ContinuationList()
    s = steps.add_step('bisection', n)
    for i, t in zip(idx, tg):
        s.const(names[i], t)
    s.num_cases(n, spacing='log')
    alg = contin.algorithm(lambda i: i == 0 or i >= depth or not ctx.flag('fail%d' % i))
    sols, err = contin.run(ctx, alg, steps, contin.guess(ctx, c0), bvp)
    ctx.check('no error', err is None, repr(err))
    last = None
    for k, c in enumerate(alg.consts):
        if last is not None:
            for i in idx:
                ctx.check('moves from the last converged case toward the target', last[i] < c[i])
        if alg.ok[k]:
            last = c
    for k in range(1, len(alg.consts)):
        if not alg.ok[k - 1]:
            for i in idx:
                ctx.check('a failure is followed by a smaller change', alg.consts[k][i] < alg.consts[k - 1][i])
                prev = [alg.consts[j][i] for j in range(k) if alg.ok[j]][-1]
                ctx.eq('the failed interval is divided geometrically', np.log10(alg.consts[k][i]), (np.log10(prev) + np.log10(alg.consts[k - 1][i])) / 2)
    for i, t in zip(idx, tg):
        ctx.eq('ends at the target', alg.consts[-1][i], t)


def manual(ctx, nv, n, depth):
    from beluga.continuation import ContinuationList
    names, c0, tg, idx = setup(ctx, nv + 1, nv)
    bvp = contin.problem(names)
    steps = ContinuationList()
    s = make(ctx, 'manual', n, names, idx, tg, steps)
    s.num_cases(n)
    outcome = [not ctx.flag('fail%d' % i) for i in range(n)]
    alg = contin.algorithm(lambda i: outcome[i])
    sols, err = contin.run(ctx, alg, steps, contin.guess(ctx, c0), bvp)
    bad = outcome.index(False) if False in outcome else None
    ctx.check('stops at the first failure', len(alg.consts) == (n if bad is None else bad + 1), '%d calls for outcomes %r' % (len(alg.consts), outcome))
    ctx.check('error exactly when a case fails', (err is not None) == (bad is not None), repr(err))
    closest(ctx, 'manual', alg, 0, c0)


def product(ctx, nv, m, kind='productspace', sub=None):
    from beluga.continuation import ContinuationList
    names, c0, tg, idx = setup(ctx, nv + 1, nv)
    bvp = contin.problem(names)
    steps = ContinuationList()
    s = make(ctx, kind, m, names, idx, tg, steps)
    s.num_subdivisions(sub or m)
    ncase = m ** nv if sub is None else None
    outcome = {}

    def out(i):
        if i not in outcome:
            outcome[i] = not ctx.flag('fail%d' % i)
        return outcome[i]
    alg = contin.algorithm(out)
    sols, err = contin.run(ctx, alg, steps, contin.guess(ctx, c0), bvp)
    if not alg.ok[0]:
        ctx.check('gives up when the first case fails', err is not None and len(alg.ok) == 1)
    else:
        ctx.check('other failures are passed over', err is None, repr(err))
        if ncase:
            ctx.check('every case attempted', len(alg.ok) == ncase)
        for i, t in zip(idx, tg):
            ctx.eq('ends at the target', alg.consts[-1][i], t)
    closest(ctx, 'product', alg, 0, c0)


def chain(ctx, kinds, n):
    """the second step starts from the last solution of the first and builds only on its own converged solutions."""
    from beluga.continuation import ContinuationList
    names, c0, tg, idx = setup(ctx, 2, 1)
    U = ctx.real('U', -1e4, 1e4)
    bvp = contin.problem(names)
    steps = ContinuationList()
    s1 = make(ctx, kinds[0], n, names, idx, tg, steps)
    s1.num_cases(n)
    s2 = make(ctx, kinds[1], n, names, idx, [U], steps)
    s2.num_cases(n)
    outcome = {}

    def out(i):
        if i not in outcome:
            outcome[i] = True if i >= 5 else not ctx.flag('fail%d' % i)
        return outcome[i]
    alg = contin.algorithm(out)
    sols, err = contin.run(ctx, alg, steps, contin.guess(ctx, c0), bvp)
    if sols is None:
        ctx.check('an error only after a failure', err is not None and not alg.ok[-1])
        return
    n1 = len(sols[0])
    ctx.check('one solution per call', len(sols) == 2 and n1 + len(sols[1]) == len(alg.given))
    ctx.check('first step ended converged', alg.ok[n1 - 1])
    ctx.eq('first step ended at its target', alg.consts[n1 - 1][idx[0]], tg[0])
    ctx.eq('second step ended at its target', alg.consts[-1][idx[0]], U)
    closest(ctx, 'second step', alg, n1, c0)


def T(id, fn, **cfg):
    return dict(id=id, fn=fn, cfg=cfg, nwit=6, tries=6, max_paths=1500)


def tasks(tier):
    out = [T('bisection-a', 'bisection', nv=1, n=3, depth=6), T('bisection-b', 'bisection', nv=2, n=2, depth=5), T('bisection-c', 'bisection', nv=1, n=3, depth=4, nd=3),
           T('bisection-max0', 'bisection', nv=1, n=2, depth=5, maxd=0), T('bisection-max1', 'bisection', nv=1, n=3, depth=5, maxd=1), T('bisection-max2', 'bisection', nv=1, n=2, depth=7, maxd=2),
           T('bisection-log', 'bisection_log', nv=1, n=2, depth=3),
           T('manual-1', 'manual', nv=1, n=4, depth=4), T('manual-2', 'manual', nv=2, n=3, depth=3),
           T('product-22', 'product', nv=2, m=2), T('product-14', 'product', nv=1, m=4), T('sparse', 'product', nv=2, m=2, kind='sparse_product', sub=((2, 2), (0, 1))),
           T('chain-bb', 'chain', kinds=('bisection', 'bisection'), n=3), T('chain-mb', 'chain', kinds=('manual', 'bisection'), n=2), T('chain-bm', 'chain', kinds=('bisection', 'manual'), n=2)]
    if tier == 'thorough':
        out += [T('bisection-d', 'bisection', nv=2, n=4, depth=6), T('bisection-e', 'bisection', nv=1, n=2, depth=8), T('bisection-f', 'bisection', nv=2, n=2, depth=5, nd=3, maxd=1), T('bisection-max3', 'bisection', nv=1, n=2, depth=8, maxd=3),
                T('bisection-g', 'bisection', nv=1, n=3, depth=6, nd=4), T('product-23', 'product', nv=2, m=3), T('product-32', 'product', nv=3, m=2), T('bisection-log2', 'bisection_log', nv=1, n=3, depth=5),
                T('sparse-2', 'product', nv=2, m=3, kind='sparse_product', sub=((3, 2), (1, 0)))]
    return out
