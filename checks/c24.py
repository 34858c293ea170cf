"""C24: a name can be defined only once."""
import copy

import numpy as np

from bsym import core

BOUNDS = ('every sequence of two declarations of any of the 15 kinds, and 60 sequences of three and four (every triple in the thorough tier), with arbitrary names: which of '
          'them coincide is decided by the solver; declarations of several units at once; declarations rejected for another reason')
ASSUMPTIONS = ['names differ from the built-in default name of the independent variable']


class Name(str):
    """A name of which only equality with other names is known, and that is up to the solver."""

    def __new__(cls, text, sym):
        self = str.__new__(cls, text)
        self.sym = sym
        return self

    def __eq__(self, other):
        if isinstance(other, Name):
            return self is other or bool(self.sym == other.sym)
        return False

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return 97531

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def name(ctx, i, first='n'):
    v = ctx.real('name%d' % i, 0, 9)
    if ctx.concrete:
        return first + ('%.6f' % v).replace('.', '_')
    for j in range(i):       # printed names differ visibly where they differ at all
        w = ctx.real('name%d' % j, 0, 9)
        ctx.prefer((v - w > 0.01) | (w - v > 0.01) | (v == w))
    return Name('%s%d' % (first, i), v)


def f1(a):
    return a * a


KINDS = {
    'state': lambda p, n: p.state(n, '1', '1'),
    'costate': lambda p, n: p.costate(n, '1', '1'),
    'parameter': lambda p, n: p.parameter(n, '1'),
    'coparameter': lambda p, n: p.coparameter(n, '1', '1'),
    'control': lambda p, n: p.control(n, '1'),
    'constraint_parameter': lambda p, n: p.constraint_parameter(n, '1'),
    'constant': lambda p, n: p.constant(n, 2, '1'),
    'quantity': lambda p, n: p.quantity(n, '1'),
    'custom_function': lambda p, n: p.custom_function(n, f1, '1', ['1']),
    'table': lambda p, n: p.table(n, '1d_spline', np.array([1., 2., 4.]), np.array([0., 1., 2.]), '1', ['1']),
    'switch': lambda p, n: p.switch(n, ['1', '2'], [['1'], ['-1']], 'eps'),
    'quad': lambda p, n: p.quad(n, '1', '1'),
    'constant_of_motion': lambda p, n: p.constant_of_motion(n, '1', '1'),
    'scale': lambda p, n: p.scale(**{n: '1'}),
    'independent': lambda p, n: p.independent(n, '1'),
}
LISTS = {'state': 'states', 'costate': 'costates', 'parameter': 'parameters', 'coparameter': 'coparameters', 'control': 'controls',
         'constraint_parameter': 'constraint_parameters', 'constant': 'constants', 'quantity': 'quantities', 'custom_function': 'custom_functions', 'table': 'tables',
         'switch': 'switches', 'quad': 'quads', 'constant_of_motion': 'constants_of_motion', 'scale': 'units'}


def plain(v, depth=0):
    if isinstance(v, dict):
        return [(str(k), plain(x, depth)) for k, x in v.items()]
    if isinstance(v, (list, tuple)):
        return [plain(x, depth) for x in v]
    if depth < 2 and type(v).__module__.startswith('beluga') and hasattr(v, '__dict__'):
        return (type(v).__name__, [(k, plain(x, depth + 1)) for k, x in sorted(vars(v).items())])
    return ('id', id(v)) if not isinstance(v, (str, int, float, bool, type(None))) or isinstance(v, Name) else v


def snap(p):
    keep = dict(vars(p))
    return plain({k: v for k, v in keep.items() if k not in ('sympify', 'lambdify', 'add_symbolic_local', 'add_function_local')})


def fresh():
    import beluga
    from sympy.core.cache import clear_cache
    clear_cache()       # symbols are cached by name: every path must meet the same comparisons
    return beluga.Problem('prob')


def attempt(ctx, p, kind, n, used):
    """one declaration: accepted exactly if its name is new"""
    clash = False
    for m in used:
        if n == m:
            clash = True
            break
    before = snap(p)
    if clash:
        ctx.raises('%s with a name in use is rejected' % kind, Exception, lambda: KINDS[kind](p, n))
        ctx.check('rejected %s leaves the problem as it was' % kind, snap(p) == before)
        return False
    KINDS[kind](p, n)
    if kind in LISTS:
        ctx.check('accepted %s is added' % kind, str(getattr(p, LISTS[kind])[-1].name) == str(n))
    else:
        ctx.check('independent variable is set', str(p.independent_variable.name) == str(n))
    used.append(n)
    return True


def sequence(ctx, kinds, first='n'):
    p = fresh()
    used = []
    count = {}
    for i, k in enumerate(kinds):
        if k == 'any':
            k = ctx.choice('kind%d' % i, sorted(KINDS))
        if attempt(ctx, p, k, name(ctx, i, first), used):
            count[k] = count.get(k, 0) + 1
    for k, a in LISTS.items():
        ctx.same('number of ' + a, len(getattr(p, a)), count.get(k, 0))


def units(ctx, n, kind):
    """several units in one declaration, one of which may clash with an earlier name"""
    p = fresh()
    first = name(ctx, 0)
    KINDS[kind](p, first)
    ns = [name(ctx, 1 + i) for i in range(n)]
    for i in range(n):
        for j in range(i):
            if ns[i] == ns[j]:
                ctx.assume(False if ctx.concrete else core.SymBool(core.z3.BoolVal(False)))
    clash = any(m == first for m in ns)
    before = snap(p)
    args = dict((m, '1') for m in ns)
    if clash:
        ctx.raises('units with a name in use are rejected', Exception, lambda: p.scale(**args))
        ctx.check('rejected units leave the problem as it was', snap(p) == before)
        for m in ns:
            if not m == first:
                attempt(ctx, p, 'scale', m, [first])
    else:
        p.scale(**args)
        ctx.same('units added', [str(u.name) for u in p.units][-n:], [str(m) for m in ns])


OTHER = {
    'constant': lambda p, n: p.constant(n, 'not a number', '1'),
    'table': lambda p, n: p.table(n, 'no such kind', [1., 2., 4.], [0., 1., 2.], '1', ['1']),
    'table-data': lambda p, n: p.table(n, '1d_spline', [1., 2., 'x'], [0., 1., 2.], '1', ['1']),
    'table-size': lambda p, n: p.table(n, '1d_spline', [1., 2., 4., 5.], [0., 1., 2.], '1', ['1']),
}


def other(ctx, which, kind):
    """a declaration rejected for another reason does not use up its name"""
    p = fresh()
    p.state('x', '1', '1')
    n = name(ctx, 0)
    before = snap(p)
    ctx.raises('malformed %s is rejected' % which, Exception, lambda: OTHER[which](p, n))
    ctx.check('malformed %s leaves the problem as it was' % which, snap(p) == before)
    attempt(ctx, p, kind, n, [])


def tasks(tier):
    out = []

    def add(fn, tid, **cfg):
        out.append(dict(id=tid, fn=fn, cfg=cfg, nwit=3, tries=1, max_paths=2000))
    ks = sorted(KINDS)
    for k in ks:
        add('sequence', 'pair-' + k, kinds=[k, 'any'])
    for i, k in enumerate(ks):
        for j in (1, 4, 7, 11):
            a, b = ks[(i + j) % 15], ks[(i + 3 * j + 1) % 15]
            if tier == 'thorough':
                add('sequence', 'triple-%s-%s' % (k, a), kinds=[k, a, 'any'])
            else:
                add('sequence', 'triple-%s-%s-%s' % (k, a, b), kinds=[k, a, b] + ([k] if j == 4 else []))
    if tier == 'thorough':
        for k in ks:
            for a in ks:
                add('sequence', 'any-%s-%s' % (k, a), kinds=[k, a, 'any'])
    for f in ('_', '_lam_', 'D', 'x'):
        add('sequence', 'first-' + f, kinds=['any', 'constant', 'state'], first=f)
    for k in ks:
        add('units', 'units2-' + k, n=2, kind=k)
    add('units', 'units3', n=3, kind='constant')
    for w in OTHER:
        for k in ('constant', 'state', 'table'):
            add('other', 'other-%s-%s' % (w, k), which=w, kind=k)
    return out
