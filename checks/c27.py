"""C27: saved problems and solutions come back as they were."""
import copy
import json
import os
import subprocess
import sys
import tempfile

import numpy as np

from bsym.core import gsin
from bsym.ocp import S, Point, build, direct, indirect, names, shared, vec
from checks.c05 import spec as symmetric
from checks.c09 import trajectory
from checks.c10 import problem as base, user_sol

BOUNDS = ('sets of 1-3 continuation steps with 1-2 solutions of 2-3 nodes each, all numbers arbitrary; problems with 1-3 states, 1-2 controls, 0-2 parameters, quadratures, custom functions, '
          'tables, switches, bounds and symmetries, formulated by every method; every subset of the three parts; evaluation of the loaded problem at arbitrary points')
ASSUMPTIONS = ['the file is not changed between saving and loading', 'the stand-in solver of the whole-run tasks returns the guess unchanged']

K = lambda s: [(c, 1.0, '1') for c in s.split()]
FIELDS = ('t', 'y', 'q', 'u', 'dual', 'dual_t', 'dual_u', 'dynamical_parameters', 'nondynamical_parameters', 'const')


def fun(a, b):
    return a * a * b + b


def problem(kind):
    if kind == 'fun':
        return S(states=[('x', 'fn(x, v) + u', '1'), ('v', 'u*fn(v, a) - x', '1')], controls=[('u', '1')], consts=K('a xf'), init=[('x - 1', '1')], term=[('x - xf', '1')],
                 cost=dict(path='u**2 + fn(x, x)', path_units='1'), functions=[('fn', fun, '1', ['1', '1'])])
    if kind == 'table':
        return S(states=[('x', 'tb(x)*v + u', '1'), ('v', 'u - x', '1')], controls=[('u', '1')], consts=K('a xf'), init=[('x - 1', '1')], term=[('x - xf', '1')],
                 cost=dict(path='u**2 + tb(v)', path_units='1'), tables=[('tb', '1d_spline', np.array([1., 3., 2., 5.]), np.array([-9., -1., 2., 9.]), '1', ['1'])])
    if kind == 'switch':
        return S(states=[('x', 'sw + u', '1')], controls=[('u', '1')], consts=K('a eps xf'), init=[('x - a', '1')], term=[('x - xf', '1')],
                 switches=[('sw', ['x', 'a'], [['x - a'], ['a - x']], 'eps')], cost=dict(path='u**2 + sw', path_units='1'))
    if kind == 'free':
        return S(states=[('x', 'a*v', '1'), ('v', 'w*x', '1')], params=[('w', '1')], consts=K('a xf'), quads=[('z', 'x*v', '1')], init=[('x - a', '1'), ('z', '1')], term=[('v - xf', '1'), ('z - w', '1')],
                 cost=dict(path='x**2', path_units='1', terminal='z', units='1'))
    if kind in ('poly', 'brach', 'two'):
        return symmetric(kind)
    return base(kind)


def formulated(kind, method, opts):
    return direct(problem(kind), **opts) if method == 'direct' else indirect(problem(kind), method=method, **opts)


def scratch():
    return tempfile.mkdtemp(prefix='bsym_c27_')


def remove(d):
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))
    os.rmdir(d)


def same_traj(ctx, tag, a, b):
    for f in FIELDS:
        x, y = np.asarray(getattr(a, f)), np.asarray(getattr(b, f))
        if x.shape != y.shape:
            ctx.fail('%s keeps %s' % (tag, f), 'shape %r became %r' % (y.shape, x.shape))
        elif x.size:
            ctx.eq('%s keeps %s' % (tag, f), np.array(x, dtype=object), np.array(y, dtype=object))
    ctx.check(tag + ' keeps converged', a.converged == b.converged)


def solutions(ctx, spec, shape, n, flags=False):
    out = []
    for i, m in enumerate(shape):
        row = []
        for j in range(m):
            s = user_sol(Tagged(ctx, 's%d%d.' % (i, j)), spec, n)
            s.converged = ctx.flag('converged%d%d' % (i, j)) if flags else (i + j) % 2 == 0
            row.append(s)
        out.append(row)
    return out


class Tagged:
    """the same inputs once more, under other names"""

    def __init__(self, ctx, tag):
        self.ctx, self.tag, self.concrete = ctx, tag, ctx.concrete

    def real(self, n, *a):
        return self.ctx.real(self.tag + n, *a)

    def assume(self, c):
        return self.ctx.assume(c)


CHILD = '''
import json, sys
import numpy as np
from beluga.utils import load
d = load(sys.argv[1])
q = json.load(open(sys.argv[2]))
a = lambda k: np.array(q[k], dtype=float)
fp = d['bvp'].functional_problem
ends = [a('y0'), a('yf')] if not len(d['bvp'].quads) else [a('y0'), a('q0'), a('yf'), a('qf')]
print('RESULT' + json.dumps(dict(rate=[float(v) for v in fp.deriv_func(a('y'), a('p'), a('k'))], bc=[float(v) for v in fp.bc_func(*ends, a('p'), a('nu'), a('k'))])))
'''


def elsewhere(ctx, path, q):
    """what another process computes from the file"""
    j = path + '.json'
    json.dump({k: [float(v) for v in x] for k, x in q.items()}, open(j, 'w'))
    r = subprocess.run([sys.executable, '-c', CHILD, path, j], capture_output=True, text=True, cwd=os.path.dirname(path))
    os.unlink(j)
    line = [x for x in r.stdout.splitlines() if x.startswith('RESULT')]
    if not line:
        ctx.fail('another process can use the file', r.stderr[-400:])
        return None
    return json.loads(line[0][6:])


def roundtrip(ctx, kind, method, opts, shape, n):
    from beluga.utils import load, save
    spec = problem(kind)
    bvp = formulated(kind, method, opts)
    ocp = build(spec)
    sols = solutions(ctx, spec, shape, n)
    p, nu, k, _ = shared(ctx, bvp)
    P, A, Z = Point(ctx, bvp, 'm.'), Point(ctx, bvp, 'i.'), Point(ctx, bvp, 'f.')
    if kind == 'table':         # one interval of the table: which one is chosen is C20's subject
        for v in (P.env['x'], P.env['v']):
            ctx.assume(v > -1)
            ctx.assume(v < 2)
    d = scratch()
    f = os.path.join(d, 'file.beluga')
    try:
        save(sols, ocp, bvp, filename=f)
        ctx.same('only the named file is written', os.listdir(d), ['file.beluga'])
        got = load(f)
        far = elsewhere(ctx, f, dict(y=P.y, p=p, k=k, nu=nu, y0=A.y, yf=Z.y, q0=A.q, qf=Z.q)) if ctx.concrete else None
    finally:
        remove(d)
    ctx.same('parts', sorted(got), ['bvp', 'ocp', 'solutions'])
    ctx.same('continuation steps', [len(r) for r in got['solutions']], list(shape))
    for i, r in enumerate(sols):
        for j, s in enumerate(r):
            same_traj(ctx, 'solution', got['solutions'][i][j], s)
    L = got['bvp']
    for a in ('states', 'quads', 'controls', 'parameters', 'constraint_parameters', 'constants'):
        ctx.same(a, names(getattr(L, a)), names(getattr(bvp, a)))
        ctx.same('user ' + a, names(getattr(got['ocp'], a)), names(getattr(ocp, a)))
    fa, fb = L.functional_problem, bvp.functional_problem
    want = [v for v in fb.deriv_func(P.y, p, k)]
    for i, v in enumerate(fa.deriv_func(P.y, p, k)):
        ctx.eq('rates of the loaded problem', v, want[i])
    ends = (A.y, A.q, Z.y, Z.q) if len(bvp.quads) else (A.y, Z.y)
    wb = list(fb.bc_func(*ends, p, nu, k))
    for i, v in enumerate(fa.bc_func(*ends, p, nu, k)):
        ctx.eq('residuals of the loaded problem', v, wb[i])
    if len(bvp.quads):
        wq = list(fb.quad_func(P.y, p, k))
        for i, v in enumerate(fa.quad_func(P.y, p, k)):
            ctx.eq('quadrature rates of the loaded problem', v, wq[i])
    if far is not None:
        for i, v in enumerate(far['rate']):
            ctx.eq('rates in another process', v, want[i])
        for i, v in enumerate(far['bc']):
            ctx.eq('residuals in another process', v, wb[i])
    if kind == 'table':
        return
    t, _ = trajectory(ctx, bvp, 2)
    ctx.assume(t.t[-1] != t.t[0])
    if kind in ('poly', 'brach', 'two', 'base', 'fun', 'free', 'par'):
        same_traj(ctx, 'solution mapped back by the loaded problem', L.inv_map_sol(copy.deepcopy(t)), bvp.inv_map_sol(copy.deepcopy(t)))


def parts(ctx, again, empty=False):
    """any subset of the parts; a second save replaces the first"""
    from beluga.utils import load, save
    give = {n: ctx.flag(n) for n in ('solutions', 'ocp', 'bvp')}
    spec = problem('base')
    a = [] if empty else solutions(ctx, spec, [1], 2, True)
    v = {'solutions': a, 'ocp': build(spec), 'bvp': indirect(spec)}
    d = scratch()
    f = os.path.join(d, 'x')
    try:
        if again:
            save([[1], [2]], build(spec), None, f)
        save(v['solutions'] if give['solutions'] else None, v['ocp'] if give['ocp'] else None, v['bvp'] if give['bvp'] else None, f)
        got = load(f)
    finally:
        remove(d)
    ctx.same('parts', sorted(got), sorted(n for n in give if give[n]))
    if give['solutions'] and empty:
        ctx.same('no solutions', list(got['solutions']), [])
    elif give['solutions']:
        same_traj(ctx, 'solution', got['solutions'][0][0], a[0][0])
    for n in ('ocp', 'bvp'):
        if give[n]:
            ctx.same(n + ' states', names(got[n].states), names(v[n].states))
            ctx.same(n + ' equations', [str(s.eom) for s in got[n].states], [str(s.eom) for s in v[n].states])


def run(ctx, how, kind):
    """a whole run: what solve returns is what the file holds, if one was asked for"""
    import beluga
    from beluga.continuation import guess_generator
    from bsym.contin import algorithm
    spec = problem(kind)
    alg = algorithm(lambda n: True)

    def record(solinit, **kw):
        from beluga.numeric.bvp_solvers.BaseAlgorithm import BVPResult
        sol = copy.deepcopy(solinit)
        sol.converged = True
        return BVPResult(sol=sol, niter=1, success=True, message='')
    alg.solve = record
    s = user_sol(ctx, spec, 2)
    s.nondynamical_parameters = vec(ctx, [ctx.real('nu%d' % i) for i in range(len(indirect(spec).constraint_parameters))])
    g = guess_generator('static', solinit=s)
    opt = {'no': dict(save_sols=False), 'name': dict(save_sols='mine.bin'), 'yes': dict(save_sols=True), 'default': {}}[how]
    d = scratch()
    here = os.getcwd()
    os.chdir(d)
    try:
        out = beluga.solve(ocp=build(spec), method='indirect', guess_generator=g, bvp_algorithm=alg, steps=None, autoscale=False, optim_options={}, initial_helper=False, **opt)
        files = os.listdir(d)
        ctx.same('files written', sorted(files), {'no': [], 'name': ['mine.bin']}.get(how, ['data.beluga']))
        got = beluga.utils.load(files[0]) if files else None
    finally:
        os.chdir(here)
        remove(d)
    ctx.same('one solution', [len(r) for r in out], [1])
    if got:
        ctx.same('parts', sorted(got), ['bvp', 'ocp', 'solutions'])
        ctx.same('solutions saved', [len(r) for r in got['solutions']], [1])
        same_traj(ctx, 'saved solution', got['solutions'][0][0], out[0][0])
        ctx.same('user problem saved', names(got['ocp'].states), [x[0] for x in spec['states']])
        L, fresh = got['bvp'], indirect(spec)
        fp = getattr(L, 'functional_problem', None)
        if not hasattr(fp, 'deriv_func'):
            ctx.fail('the saved problem can be evaluated', repr(fp))
            return
        p, nu, k, _ = shared(ctx, fresh)
        P = Point(ctx, fresh, 'm.')
        ctx.same('states of the saved problem', names(L.states), names(fresh.states))
        for i, (v, w) in enumerate(zip(fp.deriv_func(P.y, p, k), fresh.functional_problem.deriv_func(P.y, p, k))):
            ctx.eq('rates of the saved problem', v, w)


def tasks(tier):
    out = []

    def add(tid, kind, method='traditional', shape=(1,), n=2, **opts):
        out.append(dict(id=tid, fn='roundtrip', cfg=dict(kind=kind, method=method, opts=opts, shape=list(shape), n=n), nwit=1, tries=4, max_paths=400))
    add('base', 'base')
    add('steps', 'base', shape=(2, 1, 2) if tier == 'thorough' else (2, 1), n=3)
    for kd in ('par', 'fun', 'table', 'switch', 'trig', 'ctl2'):
        add(kd, kd)
    add('geometric', 'poly', 'diffyg')
    add('reduced', 'poly', 'diffyg', reduction=True)
    add('reduced-algebraic', 'poly', 'diffyg', reduction=True, control_method='algebraic')
    add('algebraic', 'base', control_method='algebraic')
    add('table-algebraic', 'table', control_method='algebraic')
    add('direct', 'free', 'direct', analytical_jacobian=False)
    add('direct-norm', 'free', 'direct', analytical_jacobian=True, do_momentum_shift=True, do_normalize_time=True)
    if tier == 'thorough':
        add('reduced-brach', 'brach', 'diffyg', reduction=True)
        add('reduced-two', 'two', 'diffyg', reduction=True)
        add('fun-algebraic', 'fun', control_method='algebraic')
        add('fun-geometric', 'fun', 'diffyg')
        add('table-geometric', 'table', 'diffyg')
        add('par-geometric', 'par', 'diffyg')
    for again in (False, True):
        out.append(dict(id='parts-again' if again else 'parts', fn='parts', cfg=dict(again=again), nwit=4, tries=2))
    out.append(dict(id='parts-empty', fn='parts', cfg=dict(again=False, empty=True), nwit=4, tries=2))
    for how in ('no', 'name', 'yes', 'default'):
        out.append(dict(id='run-' + how, fn='run', cfg=dict(how=how, kind='base'), nwit=1, tries=4))
    return out
