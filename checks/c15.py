"""C15: the driver around the solver."""
import copy

import numpy as np

from bsym import contin
from bsym.core import gmax
from bsym.ocp import S, build, direct, indirect, vec
from checks.c10 import user_sol
from checks.c13 import lerp

BOUNDS = ('problems with 1-2 states, 1 control, 0-1 parameters and dimensional constants; guesses and solver results of 2 nodes with arbitrary entries; no steps, one or two manual or product steps of 2-3 cases with '
          'arbitrary targets; scaling on and off; traditional, geometric and direct formulations, algebraic and differential control; initial helper on and off')
ASSUMPTIONS = ['failures of product steps after their first case only (all histories of failures are C14)', 'the solver keeps the constants it was given', 'solution maps and scaling of the formulated problem are as decided in C09 and C10', 'one process', 'targets differ from the current values by more than 1e-3 (so that the nearest solution is unique); constants within +-1e4']

CONSTS = [('Lm', 1.0, 'm'), ('Ls', 1.0, 's'), ('xf', 1.0, 'm'), ('w', 1.0, 's**2/m**2'), ('t_0', 0.0, 's'), ('x_f', 1.0, 'm')]


def problem(kind):
    if kind == 'one':
        return S(ind=('t', 's'), states=[('x', 'u - x/Ls', 'm')], controls=[('u', 'm/s')], consts=CONSTS, init=[('x', 'm'), ('t', 's')], term=[('x - xf', 'm')],
                 cost=dict(path='w*u**2', path_units='1'), scale=dict(m='Lm', s='Ls'))
    if kind == 'par':
        return S(ind=('t', 's'), states=[('x', 'v + p', 'm'), ('v', 'u', 'm/s')], controls=[('u', 'm/s**2')], params=[('p', 'm/s')], consts=CONSTS, init=[('x', 'm')],
                 term=[('x - xf', 'm'), ('v - p', 'm/s')], cost=dict(path='w*u**2', path_units='1/s**2'), scale=dict(m='Lm', s='Ls'))
    if kind == 'bvp':        # a boundary value problem of its own: no controls, no cost
        return S(ind=('t', 's'), states=[('x', 'v + p', 'm'), ('v', '-x/Ls**2', 'm/s')], params=[('p', 'm/s')], consts=CONSTS, init=[('x', 'm'), ('t - t_0', 's')],
                 term=[('x - xf', 'm'), ('v - p', 'm/s')], scale=dict(m='Lm', s='Ls'))
    if kind == 'sym':
        return S(ind=('t', 's'), states=[('v', 'u', 'm/s'), ('x', 'v', 'm')], controls=[('u', 'm/s**2')], consts=CONSTS, init=[('x', 'm')], symmetries=[(['0', '1'], 'm')],
                 term=[('x - xf', 'm')], cost=dict(path='w*u**2', path_units='1/s**2'), scale=dict(m='Lm', s='Ls'))


FIELDS = ('t', 'y', 'q', 'u', 'dual', 'dual_t', 'dual_u', 'dynamical_parameters', 'nondynamical_parameters', 'const')


def same(ctx, label, a, b, fields=FIELDS):
    for f in fields:
        x, y = np.asarray(getattr(a, f)), np.asarray(getattr(b, f))
        if x.size == 0 and y.size == 0:
            continue
        ctx.eq('%s: %s' % (label, f), np.array(x, dtype=object), np.array(y, dtype=object))


def solver(ctx, failing=()):
    """stand-in BVP solver returning arbitrary values of the right shape."""
    from beluga.numeric.bvp_solvers.BaseAlgorithm import BaseAlgorithm, BVPResult

    class Alg(BaseAlgorithm):
        def __init__(self):
            BaseAlgorithm.__init__(self)
            self.given, self.returned, self.closed = [], [], 0

        def solve(self, solinit, **kw):
            n = len(self.given)
            self.given.append(copy.deepcopy(solinit))
            sol = copy.deepcopy(solinit)

            def fresh(a, tag):
                a = np.asarray(a)
                out = np.empty(a.shape, dtype=float if ctx.concrete else object)
                for i in np.ndindex(*a.shape):
                    out[i] = ctx.real('%s%d%s' % (tag, n, ''.join('_%d' % j for j in i)))
                return out
            for f, tag in (('t', 'st'), ('y', 'sy'), ('q', 'sq'), ('u', 'su'), ('dynamical_parameters', 'sp'), ('nondynamical_parameters', 'sn')):
                if np.size(getattr(sol, f)):
                    setattr(sol, f, fresh(getattr(sol, f), tag))
            sol.converged = ctx.flag('converged%d' % n) if n in failing else True
            self.returned.append(copy.deepcopy(sol))
            return BVPResult(sol=sol, niter=1, success=sol.converged, message='')

        def close(self):
            self.closed += 1
    return Alg()


def functions(ctx, alg, bvp):
    """the solver was given the compiled functions of the formulated problem."""
    fp = bvp.functional_problem

    def v(st, tag):
        return vec(ctx, [ctx.real('%s.%s' % (tag, s.name)) for s in st])
    y, y1, q, q1 = v(bvp.states, 'a'), v(bvp.states, 'b'), v(bvp.quads, 'c'), v(bvp.quads, 'd')
    p, nu, k = v(bvp.parameters, 'e'), v(bvp.constraint_parameters, 'f'), v(bvp.constants, 'g')
    pairs = [('derivative', alg.derivative_function, fp.deriv_func, (y, p, k)), ('quadrature', alg.quadrature_function, fp.quad_func, (y, p, k)),
             ('boundary', alg.boundarycondition_function, fp.bc_func, (y, q, y1, q1, p, nu, k) if len(bvp.quads) else (y, y1, p, nu, k)),
             ('derivative jacobian', alg.derivative_function_jac, fp.deriv_func_jac, (y, p, k)),
             ('boundary jacobian', alg.boundarycondition_function_jac, fp.bc_func_jac, None)]
    for n, a, b, args in pairs:
        if not ctx.check('%s function given' % n, (a is None) == (b is None)) or a is None:
            continue
        if args is None or n == 'derivative jacobian':
            continue
        ctx.eq('%s function' % n, np.array(a(*args), dtype=object), np.array(b(*args), dtype=object))


def follow(ctx, alg, bvp, plan, g0, autoscale, label):
    """check every guess given to the solver; -> expected unscaled solutions per step."""
    fp = bvp.functional_problem
    cn = [c.name for c in bvp.constants]
    i, sets = 0, []
    start = g0
    for st in plan:
        if st is None:
            cases = [None]
        else:
            n, targets = st
            for c, t in targets.items():
                ctx.assume(abs(t - start.const[cn.index(c)]) > 1e-3)
            cases = [{c: lerp(ctx, start.const[cn.index(c)], t, j, n - 1) for c, t in targets.items()} for j in range(n)]
        this = []
        base = start
        for cs in cases:
            g = copy.deepcopy(base)
            for c, v in (cs or {}).items():
                g.const[cn.index(c)] = v
            if i >= len(alg.given):
                ctx.fail(label + ': solver called for every case', '%d calls' % len(alg.given))
                return None
            sf = fp.compute_scale_factors(g) if autoscale else None
            want = fp.scale_sol(g, sf) if autoscale else g
            same(ctx, label + ': guess given to the solver', alg.given[i], want)
            sol = fp.scale_sol(copy.deepcopy(alg.returned[i]), sf, inv=True) if autoscale else copy.deepcopy(alg.returned[i])
            this.append(sol)
            if sol.converged:
                base = sol          # the closest converged solution of this step (cases on a line)
            i += 1
        sets.append(this)
        start = this[-1]
    ctx.check(label + ': solver called once per case', i == len(alg.given), '%d calls, %d cases' % (len(alg.given), i))
    return sets


def driver(ctx, kind, opts, method, autoscale, plan, helper=False, failing=(), given=False):
    import beluga
    from beluga.continuation import ContinuationList, guess_generator
    import beluga.continuation.continuation as cont
    if not ctx.concrete:
        cont.max = gmax         # fork-free maximum for the logged residual
    spec = problem(kind)
    bvp = direct(spec, **opts) if method == 'direct' else indirect(spec, **dict(opts, method='diffyg' if method == 'diffyg' else 'traditional'))
    user = user_sol(ctx, spec, 2, dual=method != 'direct', timesym=opts.get('reduction', False), kbound=1e4)
    if ctx.concrete:
        ctx.assume(abs(user.const[0]) > 1e-3 and abs(user.const[1]) > 1e-3)
    if opts.get('reduction'):
        for r in range(2):
            user.dual[r, 1] = user.dual[0, 1]
    for i in (0, 1):
        ctx.assume(user.const[i] != 0)
    kept = copy.deepcopy(user)
    ocp = build(spec)
    before = describe(ocp)
    steps, P = None, [None]
    if plan is not None:
        steps, P = ContinuationList(), []
        for j, (sk, n, cs) in enumerate(plan):
            tg = {c: ctx.real('T%d.%s' % (j, c), -1e4, 1e4) for c in cs}
            s = steps.add_step(sk)
            if sk == 'productspace':
                s.num_subdivisions(n)
            else:
                s.num_cases(n)
            for c, t in tg.items():
                s.const(c, t)
            P.append((n, tg))
    alg = solver(ctx, failing)
    how = dict(bvp=bvp, ocp_map=bvp.map_sol, ocp_map_inverse=bvp.inv_map_sol) if given else dict(optim_options=dict(opts))      # formulated beforehand by the user, or by the driver
    out = beluga.solve(ocp=ocp, method=method, **how, bvp_algorithm=alg, steps=steps, guess_generator=guess_generator('static', solinit=user),
                       autoscale=autoscale, initial_helper=helper, save_sols=False)
    ctx.check('problem kept', describe(ocp) == before)
    same(ctx, 'user guess kept', user, kept)
    ctx.check('solver closed', alg.closed == 1)
    functions(ctx, alg, bvp)
    g0 = bvp.map_sol(kept)
    if helper:
        cn = [c[0] for c in spec['consts']]
        g0.const[cn.index('t_0')] = kept.t[0]
        g0.const[cn.index('x_f')] = kept.y[-1, 0 if kind != 'sym' else 1]
    fp = bvp.functional_problem
    if fp.compute_u is not None:
        g0.u = np.array([list(fp.compute_u(g0.y[i], g0.dynamical_parameters, g0.const)) for i in range(2)], dtype=float if ctx.concrete else object)
    sets = follow(ctx, alg, bvp, P, g0, autoscale, 'run')
    if sets is None:
        return
    ctx.check('solutions per step', [len(x) for x in out] == [len(x) for x in sets], '%r, expected %r' % ([len(x) for x in out], [len(x) for x in sets]))
    for j, (a, b) in enumerate(zip(out, sets)):
        for x, s in zip(a, b):
            y = bvp.inv_map_sol(s)
            same(ctx, 'returned', x, y)
            ctx.eq('returned: cost', x.cost, y.cost)
            ctx.check('returned: converged', bool(x.converged) is bool(s.converged))


def describe(p):
    d = {}
    for k in ('states', 'controls', 'parameters', 'constants', 'quantities', 'quads', 'switches', 'symmetries', 'constants_of_motion'):
        d[k] = [(str(getattr(s, 'name', '')), str(getattr(s, 'eom', '')), str(getattr(s, 'expr', '')), str(getattr(s, 'default_val', ''))) for s in getattr(p, k, [])]
    d['con'] = {k: [str(c.expr) for c in v] for k, v in p.constraints.items()}
    d['cost'] = [str(p.cost.initial), str(p.cost.path), str(p.cost.terminal)] if hasattr(p.cost, 'initial') else str(p.cost)
    d['maps'] = len(getattr(p, 'sol_map_chain', []))
    return d


def refuse(ctx):
    import beluga
    from beluga.continuation import guess_generator
    spec = problem('one')
    g = user_sol(ctx, spec, 2)
    formed = indirect(spec)
    for kw in (dict(n_cpus=0), dict(ocp=None), dict(method='nosuch'), dict(bvp=formed, ocp_map=formed.map_sol), dict(bvp=formed, ocp_map_inverse=formed.inv_map_sol)):
        alg = solver(ctx)
        args = dict(ocp=build(spec), method='traditional', bvp_algorithm=alg, guess_generator=guess_generator('static', solinit=g), save_sols=False)
        args.update(kw)
        ctx.raises('refused %s' % list(kw)[0], Exception, lambda: beluga.solve(**args))
        ctx.check('nothing solved', not alg.given)


def T(id, **cfg):
    return dict(id=id, fn='driver', cfg=cfg, nwit=2, tries=6, max_paths=200)


def tasks(tier):
    D = dict
    M = lambda n, *c: ('manual', n, list(c))
    out = [T('none', kind='one', opts={}, method='traditional', autoscale=True, plan=None), T('none-unscaled', kind='one', opts={}, method='indirect', autoscale=False, plan=None),
           T('manual', kind='one', opts={}, method='brysonho', autoscale=True, plan=[M(2, 'xf')]), T('manual-scale', kind='one', opts={}, method='Traditional', autoscale=True, plan=[M(2, 'Lm')]),
           T('two', kind='one', opts=D(control_method='algebraic'), method='indirect', autoscale=True, plan=[M(2, 'xf'), M(2, 'w')]),
           T('two-unscaled', kind='one', opts=D(control_method='algebraic'), method='traditional', autoscale=False, plan=[M(2, 'xf', 'w'), M(3, 'xf')]),
           T('par', kind='par', opts=D(control_method='algebraic'), method='traditional', autoscale=True, plan=[M(2, 'xf')]), T('par-dif', kind='par', opts={}, method='traditional', autoscale=True, plan=None),
           T('dg', kind='one', opts={}, method='diffyg', autoscale=True, plan=[M(2, 'xf')]), T('red', kind='sym', opts=D(reduction=True), method='diffyg', autoscale=True, plan=[M(2, 'xf')]),
           T('direct', kind='bvp', opts=D(analytical_jacobian=False, do_momentum_shift=True, do_normalize_time=True), method='direct', autoscale=True, plan=[M(2, 'xf')]),
           T('helper', kind='one', opts={}, method='traditional', autoscale=True, plan=[M(2, 'xf')], helper=True), T('helper-sym', kind='sym', opts=D(control_method='algebraic'), method='traditional', autoscale=False, plan=None, helper=True),
           T('product', kind='one', opts={}, method='traditional', autoscale=True, plan=[('productspace', 2, ['xf'])]),
           T('bisection', kind='one', opts={}, method='traditional', autoscale=False, plan=[('bisection', 3, ['xf'])]),
           T('none-failed', kind='one', opts={}, method='traditional', autoscale=True, plan=None, failing=[0]),
           T('product-failed', kind='one', opts={}, method='traditional', autoscale=False, plan=[('productspace', 3, ['xf'])], failing=[1, 2]),
           T('product-failed-alg', kind='one', opts=D(control_method='algebraic'), method='diffyg', autoscale=False, plan=[('productspace', 2, ['xf']), M(2, 'w')], failing=[1]),
           T('given', kind='one', opts=D(control_method='algebraic'), method='traditional', autoscale=True, plan=[M(2, 'xf')], given=True, helper=True),
           T('given-par', kind='par', opts=D(do_momentum_shift=False), method='diffyg', autoscale=False, plan=None, given=True),
           dict(id='refuse', fn='refuse', cfg={}, nwit=1)]
    if tier == 'thorough':
        out += [T('three', kind='par', opts=D(control_method='algebraic'), method='traditional', autoscale=True, plan=[M(3, 'xf'), M(2, 'w'), M(3, 'Lm', 'xf')]),
                T('par-two', kind='par', opts={}, method='diffyg', autoscale=True, plan=[M(2, 'xf'), M(2, 'Ls')]), T('direct-par', kind='bvp', opts=D(analytical_jacobian=False, do_momentum_shift=True, do_normalize_time=True), method='direct', autoscale=True, plan=[M(2, 'xf'), M(2, 'w')])]
    return out
