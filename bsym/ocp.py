"""Optimal-control problem specs: user strings -> beluga Problem, and the independent oracle.

The oracle never uses sympy or beluga: it evaluates the user's own strings with Python
arithmetic over floats / solver terms / dual numbers, so every derivative it needs comes
from forward-mode differentiation of the user's text.
"""
import copy

from .core import Dual, evalx


def S(**k):
    d = dict(ind=('t', '1'), states=[], controls=[], params=[], consts=[], init=[], term=[], path=[],
             cost={}, quantities=[], switches=[], symmetries=[], quads=[], scale={}, functions=[], tables=[])
    d.update(k)
    return d


def build(spec, values=None):
    """User-level construction through beluga's public API."""
    import beluga
    p = beluga.Problem('prob')
    p.independent(*spec['ind'])
    for s in spec['states']:
        p.state(*s)
    for c in spec['controls']:
        p.control(*c)
    for c in spec['params']:
        p.parameter(*c)
    for c in spec['consts']:
        p.constant(*c)
    for f in spec['functions']:
        p.custom_function(*f)
    for f in spec['tables']:
        p.table(*f)
    for q in spec['quantities']:
        p.quantity(*q)
    for q in spec['quads']:
        p.quad(*q)
    for s in spec['switches']:
        p.switch(*s)
    for c in spec['init']:
        p.initial_constraint(c[0], c[1], **(c[2] if len(c) > 2 else {}))
    for c in spec['path']:
        p.path_constraint(c[0], c[1], **c[2])
    for c in spec['term']:
        p.terminal_constraint(c[0], c[1], **(c[2] if len(c) > 2 else {}))
    cost = spec['cost']
    if 'initial' in cost:
        p.initial_cost(cost['initial'], cost.get('units', '1'))
    if 'path' in cost:
        p.path_cost(cost['path'], cost.get('path_units', '1'))
    if 'terminal' in cost:
        p.terminal_cost(cost['terminal'], cost.get('units', '1'))
    for f in spec['symmetries']:
        p.symmetry(*f)
    if spec['scale']:
        p.scale(**spec['scale'])
    return p


_cache = {}


def _key(spec, kw):
    return repr(spec) + repr(sorted(kw.items()))


def preprocessed(spec):
    from beluga.symbolic.data_classes.mapping_functions import make_preprocessor
    return make_preprocessor()(copy.deepcopy(build(spec)))


def indirect(spec, **opts):
    """ocp -> compiled boundary value problem, exactly as beluga.solve does it."""
    k = 'I' + _key(spec, opts)
    if k not in _cache:
        from beluga.symbolic.data_classes.mapping_functions import make_indirect_method, make_postprocessor
        ocp = preprocessed(spec)
        ocp2 = copy.deepcopy(ocp)
        bvp = make_indirect_method(copy.deepcopy(ocp2), **opts)(copy.deepcopy(ocp2))
        bvp = make_postprocessor()(copy.deepcopy(bvp))
        _cache[k] = bvp
    return _cache[k]


def direct(spec, **opts):
    k = 'D' + _key(spec, opts)
    if k not in _cache:
        from beluga.symbolic.data_classes.mapping_functions import make_direct_method, make_postprocessor
        ocp = preprocessed(spec)
        bvp = make_direct_method(copy.deepcopy(ocp), **opts)(copy.deepcopy(ocp))
        bvp = make_postprocessor()(copy.deepcopy(bvp))
        _cache[k] = bvp
    return _cache[k]


def names(structs):
    return [s.name for s in structs]


class Oracle:
    """Definitions from optimal control theory over the user's strings."""

    def __init__(self, spec, extra_path=None):
        self.s = spec
        self.xs = [s[0] for s in spec['states']]
        self.us = [c[0] for c in spec['controls']]
        self.ps = [p[0] for p in spec['params']]
        self.t = spec['ind'][0]
        self.extra_path = extra_path      # env -> value: penalty added to the running cost

    def env(self, env):
        e = dict(env)
        todo = list(self.s['quantities']) + [(w[0], w) for w in self.s['switches']]
        while todo:
            rest = []
            for n, ex in todo:
                try:
                    if isinstance(ex, (list, tuple)):
                        e[n] = self.switch(ex, e)
                    else:
                        e[n] = evalx(ex, e)
                except NameError:
                    rest.append((n, ex))
            if len(rest) == len(todo):
                break       # not available here (e.g. a control at a boundary)
            todo = rest
        return e

    @staticmethod
    def switch(w, e):
        """sum of pieces weighted with the logistic of their conditions."""
        from .core import gexp
        tot = 0
        eps = evalx(w[3], e)
        for f, conds in zip(w[1], w[2]):
            wt = 0
            for c in conds:
                wt = wt + 1 / (1 + gexp(evalx(c, e) / eps))
            tot = tot + wt * evalx(f, e)
        return tot

    def ev(self, expr, env):
        return evalx(expr, self.env(env))

    def f(self, name, env):
        return self.ev(dict((s[0], s[1]) for s in self.s['states'])[name], env)

    def L(self, env):
        v = self.ev(self.s['cost'].get('path', '0'), env)
        if self.extra_path is not None:
            v = v + self.extra_path(self.env(env))
        return v

    def H(self, env):
        """path cost + sum lam_i f_i (momentum of time not included)."""
        e = self.env(env)
        r = evalx(self.s['cost'].get('path', '0'), e)
        if self.extra_path is not None:
            r = r + self.extra_path(e)
        for s in self.s['states']:
            r = r + e['_lam_' + s[0]] * evalx(s[1], e)
        return r

    def d(self, fn, env, name):
        """partial derivative of env -> scalar with respect to a named variable."""
        e = {n: Dual(v, 0) if isinstance(v, Dual) else v for n, v in env.items()}   # keep nesting levels apart
        e[name] = Dual(env[name], 1)
        r = fn(e)
        return r.d if isinstance(r, Dual) else 0

    def dd(self, fn, env, dirs):
        e = dict(env)
        for n, v in dirs.items():
            e[n] = Dual(e[n], v)
        r = fn(e)
        return r.d if isinstance(r, Dual) else 0

    def Phi(self, where, env, nus):
        """augmented boundary cost."""
        e = self.env(env)
        r = evalx(self.s['cost'].get('initial' if where == 0 else 'terminal', '0'), e)
        for c, nu in zip(self.s['init'] if where == 0 else self.s['term'], nus):
            r = r + nu * evalx(c[0], e)
        return r


def quad_form(prefix, names, consts, units='1'):
    """Full quadratic polynomial in `names` with fresh constant coefficients (appended to consts)."""
    terms = []

    def k(tag):
        n = prefix + tag
        consts.append((n, 1.0, '1'))
        return n
    terms.append(k('c'))
    for i, a in enumerate(names):
        terms.append('%s*%s' % (k('l%d' % i), a))
    for i, a in enumerate(names):
        for j in range(i, len(names)):
            terms.append('%s*%s*%s' % (k('q%d%d' % (i, j)), a, names[j]))
    return ' + '.join(terms)


def lin_form(prefix, names, consts):
    terms = []
    for i, a in enumerate(names):
        n = '%sl%d' % (prefix, i)
        consts.append((n, 1.0, '1'))
        terms.append('%s*%s' % (n, a))
    n = prefix + 'c'
    consts.append((n, 1.0, '1'))
    return ' + '.join(terms + [n])


def generic(nx=2, nu=1, npar=0, time=True, cinit=1, cterm=1, deg=2, control_quad=True, bcost=True, path=True):
    """Generic smooth OCP: every function is a full polynomial with symbolic coefficients."""
    consts = []
    xs = ['x%d' % (i + 1) for i in range(nx)]
    us = ['u%d' % (i + 1) for i in range(nu)]
    ps = ['p%d' % (i + 1) for i in range(npar)]
    var = xs + us + ps + (['t'] if time else [])
    bvar = xs + ps + (['t'] if time else [])
    form = quad_form if deg == 2 else lin_form
    states = [(x, form('f%d' % i, var, consts), '1') for i, x in enumerate(xs)]
    cost = {}
    if path:
        cost['path'] = quad_form('L', var, consts)
        cost['path_units'] = '1'
    if bcost:
        cost['initial'] = quad_form('A', bvar, consts)
        cost['terminal'] = quad_form('B', bvar, consts)
        cost['units'] = '1'
    init = [(quad_form('g%d' % i, bvar, consts), '1') for i in range(cinit)]
    term = [(quad_form('h%d' % i, bvar, consts), '1') for i in range(cterm)]
    return S(states=states, controls=[(u, '1') for u in us], params=[(p, '1') for p in ps], consts=consts,
             init=init, term=term, cost=cost)


class Point:
    """A symbolic point of a compiled BVP: named values and the arrays its functions take."""

    def __init__(self, ctx, bvp, tag='', consts=None, overrides=None):
        import numpy as np
        ov = overrides or {}

        def mk(structs):
            vals = []
            for s in structs:
                v = ov.get(s.name)
                if v is None:
                    v = ctx.real(tag + s.name)
                vals.append(v)
            if ctx.concrete:
                return np.array(vals, dtype=float)
            a = np.empty(len(vals), dtype=object)
            for i, v in enumerate(vals):
                a[i] = v
            return a
        self.y = mk(bvp.states)
        self.q = mk(bvp.quads)
        self.env = {s.name: v for s, v in zip(bvp.states, self.y)}
        self.env.update({s.name: v for s, v in zip(bvp.quads, self.q)})


def vec(ctx, vals):
    import numpy as np
    if ctx.concrete:
        return np.array([float(v) for v in vals], dtype=float)
    a = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        a[i] = v
    return a


def shared(ctx, bvp, overrides=None):
    """Parameters, constraint parameters and constants: one symbolic value each."""
    ov = overrides or {}

    def mk(structs):
        return vec(ctx, [ov[s.name] if s.name in ov else ctx.real(s.name) for s in structs])
    p, nu, k = mk(bvp.parameters), mk(bvp.constraint_parameters), mk(bvp.constants)
    env = {}
    for structs, vals in ((bvp.parameters, p), (bvp.constraint_parameters, nu), (bvp.constants, k)):
        env.update({s.name: v for s, v in zip(structs, vals)})
    return p, nu, k, env
