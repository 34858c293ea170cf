"""C19: custom functions are evaluated as written and their generated derivatives are derivatives."""
import itertools

import numpy as np

from bsym.core import SymBool, evalx, lift, z3
from bsym.ocp import S, indirect, names, vec

BOUNDS = ('functions of 1-3 arguments that are polynomials with arbitrary coefficients, total derivative orders 1-4 (1-3 with several arguments, mixed orders included), '
          'forward, backward and central differences for every step size in (0, 1] and the default one, complex step for orders 1 and 2; in problems: second-degree functions '
          'of 1-2 arguments used with swapped, repeated, nested, scaled and substituted arguments in dynamics, costs, quantities, switches and bounded controls')
ASSUMPTIONS = ['decimal step sizes stand for the exact decimals (rounding is outside the model)', 'functions are polynomials: for other smooth functions the statement follows with their Taylor remainder']


def poly(ctx, tag, degs, lo=None, hi=None):
    """polynomial with arbitrary coefficients, the degree in each argument at most degs[i] -> (callable, terms)"""
    terms = []
    for e in itertools.product(*[range(d + 1) for d in degs]):
        terms.append((ctx.real('%s_%s' % (tag, ''.join(map(str, e))), lo, hi), e))
    args = ['a%d' % i for i in range(len(degs))]
    src = 'def %s(%s):\n    return %s\n' % (tag, ', '.join(args), ' + '.join(
        '*'.join(['k%d' % n] + ['*'.join([a] * p) for a, p in zip(args, e) if p]) for n, (_, e) in enumerate(terms)))
    env = {'k%d' % n: c for n, (c, _) in enumerate(terms)}
    exec(src, env)
    return env[tag], terms


def deriv(terms, order, at):
    """exact partial derivative, by the power rule"""
    out = 0
    for c, e in terms:
        t = c
        for p, o, x in zip(e, order, at):
            if o > p:
                t = None
                break
            for j in range(o):
                t = t * (p - j)
            for _ in range(p - o):
                t = t * x
        if t is not None:
            out = out + t
    return out


def step(ctx):
    h = ctx.real('h', None, 1)
    ctx.assume(h > 0)
    ctx.prefer(h >= 0.125)
    return h


def near(ctx, label, got, want, tol=1e-5):
    """equal up to the rounding of the default step sizes (bounded coefficients and arguments)"""
    got, want = np.asarray(got).reshape(-1), np.asarray(want).reshape(-1)
    ctx.same(label + ' (size)', got.size, want.size)
    for a, b in zip(got, want):
        e = a - b
        if not ctx.concrete and hasattr(e, 'z'):
            n, d = ctx.rf(e.z)
            n = z3.simplify(n, som=True, som_blowup=100000, hoist_mul=False)
            d = z3.RealVal(1) if d is None else d
            r = relaxed(n, tol) if is_one(d) else None
            if r is not None:
                ctx.check(label, SymBool(z3.Not(r)))
                continue
            ctx.check(label, SymBool(z3.And(n <= Q(tol) * zabs(d), -n <= Q(tol) * zabs(d))))
        else:
            ctx.le(label, abs(e), tol * (1 + (abs(b) if ctx.concrete else 0)))


def is_one(d):
    return z3.is_rational_value(z3.simplify(d)) and z3.simplify(d).as_fraction() == 1


def relaxed(n, tol, box=2):
    """negated bound with every monomial replaced by a free variable in its range over the box: unsatisfiable only if the bound holds"""
    neg, total = [], 0
    for i, t in enumerate(n.children() if z3.is_add(n) else [n]):
        c, deg, todo = z3.RealVal(1), 0, [t]
        while todo:
            u = todo.pop()
            if z3.is_mul(u):
                todo += u.children()
            elif z3.is_rational_value(u):
                c = c * u
            elif z3.is_app_of(u, z3.Z3_OP_POWER):
                deg += int(u.arg(1).as_fraction())
                if u.arg(0).num_args():
                    return None
            elif u.num_args() == 0:
                deg += 1
            else:
                return None
        m = z3.Real('mono%d' % i)
        neg += [m <= box ** deg, m >= -box ** deg]
        total = total + c * (m if deg else 1)
    neg = z3.And(*neg, z3.Or(total > Q(tol), -total > Q(tol)))
    s = z3.Solver()
    s.set('timeout', 5000)
    s.add(neg)
    return neg if s.check() == z3.unsat else None


def Q(x):
    return lift(x)


def zabs(d):
    return z3.If(d >= 0, d, -d)


def numdiff(ctx, method, order, degs, default=False):
    from beluga.numeric.numerical_derivatives import gen_num_diff
    f, terms = poly(ctx, 'f', degs, *((-2, 2) if default else ()))
    at = ctx.reals('x', len(degs), *((-2, 2) if default else ()))
    kw = {} if default else dict(step_size=step(ctx))
    d = gen_num_diff(f, order=tuple(order), method=method, **kw)
    (near if default else ctx.eq.__func__)(ctx, 'generated derivative is the partial derivative', d(*at), deriv(terms, order, at))


def close(ctx, method, order, degs, bound):
    """one degree above exactness: the error vanishes with the step"""
    from beluga.numeric.numerical_derivatives import gen_num_diff
    f, terms = poly(ctx, 'f', degs, -1, 1)
    at = ctx.reals('x', len(degs), -1, 1)
    h = step(ctx)
    mult = 10 ** sum(order)
    d = gen_num_diff(f, order=tuple(order), method=method, step_size=h / mult)(*at)
    e = d - deriv(terms, order, at)
    if not ctx.concrete:
        e = type(e)(z3.simplify(lift(e), som=True)) if hasattr(e, 'z') else e
    b = 1e-9 if bound is None else bound * h
    ctx.le('error of the generated derivative is of the order of the step', e, b)
    ctx.le('error of the generated derivative is of the order of the step', -e, b)


def unknown(ctx):
    from beluga.numeric.numerical_derivatives import gen_num_diff
    f, _ = poly(ctx, 'f', (1,))
    ctx.raises('unknown methods are rejected', NotImplementedError, lambda: gen_num_diff(f, order=(1,), method='magic'))
    x = ctx.real('x')
    ctx.eq('order zero is the function', gen_num_diff(f, order=(0,))(x), f(x))


# ---------------------------------------------------------------- in problems

EXPRS = ['f(x, v)', 'f(v, x)', 'f(x, v)*f(v, x)', 'f(x, x)', 'f(2*x - v, v)', 'f(x, g(v))', 'f(x, f(v, x))', 'g(x) + g(v)*x', 'g(x*v)', 'x*f(x + v, 3)', 'f(f(x, v), g(x))', 'g(g(x))']


def declare(ctx):
    import beluga
    f, _ = poly(ctx, 'f', (2, 1), -2, 2)
    g, _ = poly(ctx, 'g', (2,), -2, 2)
    p = beluga.Problem('prob')
    p.independent('t', '1')
    p.custom_function('f', f, '1', ['1', '1'])
    p.custom_function('g', g, '1', ['1'])
    return p, f, g


def expression(ctx, expr, wrt):
    """compiled value and derivatives of an expression with custom functions"""
    import sympy
    p, f, g = declare(ctx)
    p.state('x', 'v', '1')
    p.state('v', 'x', '1')
    e = p.sympify(expr)
    syms = sympy.symbols('x v')
    ft, gt = poly_terms(ctx, 'f', (2, 1)), poly_terms(ctx, 'g', (2,))
    at = ctx.reals('p', 2, -2, 2)
    for w in wrt:
        e = e.diff(sympy.Symbol(w))
    got = p.lambdify([list(syms)], e)(vec(ctx, at))
    near(ctx, 'compiled expression with custom functions (derivatives by %r)' % wrt, got, ideal(expr, ft, gt, at, wrt))


def poly_terms(ctx, tag, degs):
    return [(ctx.real('%s_%s' % (tag, ''.join(map(str, e))), -2, 2), e) for e in itertools.product(*[range(d + 1) for d in degs])]


class Jet:
    """truncated Taylor expansion in (x, v) up to total order 2, independent of sympy and beluga"""

    def __init__(self, c):
        self.c = c

    ORD = [(i, j) for i in range(3) for j in range(3) if i + j <= 2]

    @staticmethod
    def l(o):
        return o if isinstance(o, Jet) else Jet({(0, 0): o})

    def __add__(self, o):
        o = Jet.l(o)
        r = dict(self.c)
        for k, v in o.c.items():
            r[k] = r[k] + v if k in r else v
        return Jet(r)
    __radd__ = __add__

    def __neg__(self):
        return Jet({k: -v for k, v in self.c.items()})

    def __sub__(self, o):
        return self + (-Jet.l(o))

    def __rsub__(self, o):
        return Jet.l(o) - self

    def __mul__(self, o):
        o = Jet.l(o)
        r = {}
        for (a, b), x in self.c.items():
            for (c, d), y in o.c.items():
                if a + b + c + d <= 2:
                    r[a + c, b + d] = r.get((a + c, b + d), 0) + x * y
        return Jet(r)
    __rmul__ = __mul__


def ideal(expr, ft, gt, at, wrt):
    x, v = Jet({(0, 0): at[0], (1, 0): 1}), Jet({(0, 0): at[1], (0, 1): 1})

    def call(terms):
        def fn(*a):
            out = 0
            for c, e in terms:
                t = c
                for y, p in zip(a, e):
                    for _ in range(p):
                        t = y * t
                out = t + out
            return out
        return fn
    j = Jet.l(eval(expr, {'f': call(ft), 'g': call(gt), 'x': x, 'v': v}))
    k = (wrt.count('x'), wrt.count('v'))
    m = {0: 1, 1: 1, 2: 2}
    return j.c.get(k, 0) * m[k[0]] * m[k[1]]


def substituted(ctx, how, wrt):
    """arguments replaced after the expression is formed: quantities, bounded controls, switches"""
    import sympy
    from beluga.symbolic.data_classes.mapping_functions import RASHS, EpsTrig, MomentumShift, make_preprocessor
    p, f, g = declare(ctx)
    p.state('x', 'v + f(q, v)', '1')
    p.state('v', 'g(q)*x + u', '1')
    p.control('u', '1')
    p.constant('a', 1., '1')
    p.quantity('q', 'x*a + v')
    p.path_cost('f(u, x) + g(v)', '1')
    if how == 'bound':
        p.constant('eps', 1., '1')
        p.path_constraint('u', '1', lower='-3', upper='1', activator='eps', method='epstrig')
    pp = make_preprocessor()(p)
    ft, gt = poly_terms(ctx, 'f', (2, 1)), poly_terms(ctx, 'g', (2,))
    at = ctx.reals('p', 2, -2, 2)
    a = ctx.real('a', -2, 2)
    x, v = sympy.symbols('x v')
    if how == 'quantity':
        for s, e in zip(pp.states, ('v + f(x*a + v, v)', 'g(x*a + v)*x')):
            ex = s.eom.subs(sympy.Symbol('u'), 0)
            for w in wrt:
                ex = ex.diff(sympy.Symbol(w))
            got = pp.lambdify([[x, v], [sympy.Symbol('a')]], ex)(vec(ctx, at), vec(ctx, [a]))
            near(ctx, 'custom function of a quantity (derivatives by %r)' % wrt, got, ideal2(e, ft, gt, at, wrt, a))
    else:
        pp = EpsTrig()(pp)
        w = pp.controls[0].sym
        ex = pp.cost.path.subs(sympy.Symbol('eps'), 0)
        for i in wrt:
            ex = ex.diff(sympy.Symbol(i))
        sn = ctx.real('s', -1, 1)
        ang = sympy.Symbol('ang')
        ex = ex.subs(sympy.sin(w), ang)
        got = pp.lambdify([[x, v], ang], ex)(vec(ctx, at), sn)
        near(ctx, 'custom function of a bounded control (derivatives by %r)' % wrt, got, ideal2('f(2*s - 1, x) + g(v)', ft, gt, at, wrt, sn))


def ideal2(e, ft, gt, at, wrt, a):
    import builtins
    x, v = Jet({(0, 0): at[0], (1, 0): 1}), Jet({(0, 0): at[1], (0, 1): 1})

    def call(terms):
        def fn(*ar):
            out = 0
            for c, ee in terms:
                t = c
                for y, p in zip(ar, ee):
                    for _ in range(p):
                        t = y * t
                out = t + out
            return out
        return fn
    j = Jet.l(eval(e, {'f': call(ft), 'g': call(gt), 'x': x, 'v': v, 'a': a, 's': a}))
    k = (wrt.count('x'), wrt.count('v'))
    return j.c.get(k, 0) * {0: 1, 1: 1, 2: 2}[k[0]] * {0: 1, 1: 1, 2: 2}[k[1]]


def method(ctx, how):
    """the differentiation method asked of the generator is used for every derivative"""
    import sympy
    from beluga.numeric.compilation import LocalCompiler
    from beluga.symbolic.special_functions import CustomFunctionGenerator
    f, terms = poly(ctx, 'f', (2, 2) if how != 'c_diff' else (2, 2), -2, 2)
    lc = LocalCompiler()
    gen = CustomFunctionGenerator(f, name='f', arg_types=['scalar', 'scalar'], local_compiler=lc, num_deriv_type=how)
    x, v = sympy.symbols('x v')
    at = ctx.reals('p', 2, -2, 2)
    e = gen(x, v)
    hs = {1: 1e-5, 2: 1e-4}
    for w in ('x', 'v', 'xx', 'vv'):
        ex = e
        for i in w:
            ex = ex.diff(sympy.Symbol(i))
        got = lc.lambdify([x, v], ex)(*at)
        o = (w.count('x'), w.count('v'))
        want = deriv(terms, o, at)
        if how in ('f_diff', 'b_diff') and sum(o) == 1:      # first-order one-sided differences see half the curvature
            sg = 1 if how == 'f_diff' else -1
            want = want + sg * hs[1] / 2 * deriv(terms, tuple(2 * i for i in o), at)
            if ctx.concrete:
                ctx.le('derivative by %s with %s' % (w, how), abs(got - want), 1e-7)
                continue
        near(ctx, 'derivative by %s with %s' % (w, how), got, want)


PB = S(states=[('x', 'v + f(x, v)', '1'), ('v', 'u*x - g(v)', '1')], controls=[('u', '1')], consts=[('a', 1., '1')],
       init=[('x - a', '1')], term=[('x', '1'), ('v', '1')], cost=dict(path='u**2 + f(v, x)', path_units='1', terminal='g(x)', units='1'))
TX = dict(f='(%(f)s)', g='(%(g)s)')


def pipeline(ctx, opts):
    """a problem with custom functions compiles to the same problem as with their formulas written out"""
    import beluga
    from bsym import ocp
    f, ft = poly(ctx, 'f', (2, 1), -2, 2)
    g, gt = poly(ctx, 'g', (2,), -2, 2)
    with_fn = dict(PB, functions=[('f', f, '1', ['1', '1']), ('g', g, '1', ['1'])])

    def inline(text):
        import re
        fx = lambda a, b: '(%s)' % ' + '.join('f_%d%d*(%s)**%d*(%s)**%d' % (*e, a, e[0], b, e[1]) for _, e in ft)
        gx = lambda a: '(%s)' % ' + '.join('g_%d*(%s)**%d' % (e[0], a, e[0]) for _, e in gt)
        text = re.sub(r'\bf\((\w+), (\w+)\)', lambda m: fx(m.group(1), m.group(2)), text)
        return re.sub(r'\bg\((\w+)\)', lambda m: gx(m.group(1)), text)
    coef = [('f_%d%d' % e, c) for c, e in ft] + [('g_%d' % e, c) for c, e in gt]
    plain = dict(PB, states=[(n, inline(e), u) for n, e, u in PB['states']], consts=PB['consts'] + [(n, 1., '1') for n, _ in coef],
                 cost={k: inline(v) for k, v in PB['cost'].items()})
    ocp._cache.clear()
    A = indirect(with_fn, **opts)
    B = indirect(plain, **opts)
    fa, fb = A.functional_problem, B.functional_problem
    ctx.same('same unknowns', [str(s) for s in A.states], [str(s) for s in B.states])
    y = ctx.reals('y', len(A.states), -2, 2)
    par = ctx.reals('par', len(A.parameters), -2, 2)
    nu = ctx.reals('nu', len(A.constraint_parameters), -2, 2)
    a = ctx.real('a', -2, 2)
    k1, k2 = vec(ctx, [a]), vec(ctx, [a] + [c for _, c in coef])
    near(ctx, 'rates with custom functions', fa.deriv_func(vec(ctx, y), vec(ctx, par), k1), fb.deriv_func(vec(ctx, y), vec(ctx, par), k2))
    y2 = ctx.reals('z', len(A.states), -2, 2)
    ra = fa.bc_func(vec(ctx, y), vec(ctx, y2), vec(ctx, par), vec(ctx, nu), k1)
    rb = fb.bc_func(vec(ctx, y), vec(ctx, y2), vec(ctx, par), vec(ctx, nu), k2)
    near(ctx, 'residuals with custom functions', ra, rb)


def tasks(tier):
    out = []

    def add(fn, tid, **cfg):
        out.append(dict(id=tid, fn=fn, cfg=cfg))
    deep = tier == 'thorough'
    one = (1, 2, 3, 4) if deep else (1, 2, 3)
    for m, extra in (('c_diff', 1), ('f_diff', 0), ('b_diff', 0)):
        for o in one:
            # central differences of odd order are exact one degree further, of even order too
            d = o + extra
            add('numdiff', '%s-%d' % (m, o), method=m, order=(o,), degs=(d,))
            add('numdiff', '%s-%d-default' % (m, o), method=m, order=(o,), degs=(d,), default=True)
            add('close', '%s-%d-close' % (m, o), method=m, order=(o,), degs=(o + 2,), bound=2000)
        for o in [(1, 0), (0, 1), (2, 0), (0, 2), (1, 1)] + ([(2, 1), (1, 2), (3, 0), (2, 2)] if deep else [(2, 1)]):
            e = 1 if m == 'c_diff' else 0
            add('numdiff', '%s-%d%d' % (m, *o), method=m, order=o, degs=tuple(max(i + e, 1) for i in o))
        for o in [(0, 1, 0), (0, 0, 1), (1, 0, 1)]:
            add('numdiff', '%s-%d%d%d' % (m, *o), method=m, order=o, degs=(1, 1, 1))
            add('numdiff', '%s-%d%d%d-default' % (m, *o), method=m, order=o, degs=(1, 1, 1), default=True)
    for o in [(1,), (2,), (1, 0), (0, 1), (2, 0), (0, 2), (0, 1, 0), (0, 0, 2)]:
        add('numdiff', 'csd-' + ''.join(map(str, o)), method='csd', order=o, degs=tuple(2 if len(o) < 3 or i else 1 for i in o))
    for o in [(1, 1), (3,)]:          # falls back on central differences
        add('numdiff', 'csd-' + ''.join(map(str, o)), method='csd', order=o, degs=tuple(i + 1 for i in o))
    add('close', 'csd-1-close', method='csd', order=(1,), degs=(3,), bound=None)
    add('close', 'csd-2-close', method='csd', order=(2,), degs=(3,), bound=200)
    add('unknown', 'methods')
    for i, e in enumerate(EXPRS):
        for w in ('', 'x', 'v', 'xv') + (('xx', 'vv') if deep else ()):
            add('expression', 'expr%d-%s' % (i, w or 'value'), expr=e, wrt=w)
    for how in ('quantity', 'bound'):
        for w in ('', 'x', 'v', 'xv'):
            add('substituted', 'subs-%s-%s' % (how, w or 'value'), how=how, wrt=w)
    for how in ('c_diff', 'f_diff', 'b_diff', 'csd'):
        add('method', 'method-' + how, how=how)
    for o in (dict(control_method='differential'), dict(control_method='algebraic')) + ((dict(method='diffyg'),) if deep else ()):
        add('pipeline', 'pipeline-' + '-'.join(o.values()), opts=o)
    return out
