"""Dynamic symbolic execution over real-valued Python/numpy code, decided by z3.

The code under test runs unmodified in the ordinary interpreter; the values that
flow through it are `Sym` objects wrapping z3 Real terms.  `if cond` on a symbolic
condition forks: the harness is re-executed once per feasible branch sequence
(depth-first, feasibility decided by z3).  Assertions become z3 validity queries
under the path condition; a satisfiable negation yields a concrete assignment that
a separate process replays on the unpatched code (see replay in runner.py).
"""
import math
import os
import sys
import time
import numbers
from fractions import Fraction

import numpy as np

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402

# ---------------------------------------------------------------- numbers

_nice_cache = {}


def nice(f):
    """Interpret a machine float as the simple rational it stands for.

    0.1 -> 1/10, 1/3 -> 1/3; anything that is not within 2 ulp of a rational with
    denominator <= 1e5 keeps its exact binary value."""
    f = float(f)
    r = _nice_cache.get(f)
    if r is None:
        exact = Fraction(f)
        if exact.denominator == 1:
            r = exact
        else:
            c = exact.limit_denominator(100000)
            r = c if abs(c - exact) <= Fraction(4.5e-16) * abs(exact) else exact
            if r is exact and exact != 0:
                # decimal literals such as 1e-6
                d = Fraction(repr(f))
                if d.denominator <= 10 ** 12:
                    r = d
        _nice_cache[f] = r
    return r


def rat(v):
    return z3.Q(v.numerator, v.denominator) if v.denominator != 1 else z3.RealVal(v.numerator)


def _roomy(z, room=Fraction(1, 16)):
    """the same strict inequality with some room (used only to choose points for re-runs)"""
    neg = False
    while z3.is_not(z):
        neg, z = not neg, z.arg(0)
    if z3.is_and(z) and not neg or z3.is_or(z) and neg:
        return [r for a in z.children() for r in _roomy(z3.Not(a) if neg else a, room)]
    if not z.num_args() == 2 or not z3.is_arith(z.arg(0)):
        return []
    a, b, m = z.arg(0), z.arg(1), rat(room)
    if z3.is_gt(z) and not neg or z3.is_le(z) and neg:
        return [a >= b + m]
    if z3.is_lt(z) and not neg or z3.is_ge(z) and neg:
        return [a + m <= b]
    if z3.is_distinct(z) and not neg or z3.is_eq(z) and neg:
        return [z3.Or(a >= b + m, a + m <= b)]
    return []


class Abort(BaseException):
    """Path abandoned (infeasible assumption or budget)."""


class Unsupported(Exception):
    pass


CTX = None      # current symbolic context


def _ctx():
    if CTX is None:
        raise Unsupported('symbolic value used outside a symbolic run')
    return CTX


def lift(x):
    """-> z3 term or None when x is not a real scalar."""
    if isinstance(x, Sym):
        return x.z
    if isinstance(x, (bool, np.bool_)):
        return z3.RealVal(int(x))
    if isinstance(x, SymBool):
        return z3.If(x.z, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, (int, np.integer)):
        return z3.RealVal(int(x))
    if isinstance(x, Fraction):
        return rat(x)
    if isinstance(x, (float, np.floating)):
        f = float(x)
        if math.isinf(f) or math.isnan(f):
            return None
        return rat(nice(f))
    if isinstance(x, np.ndarray) and x.shape == ():
        return lift(x.item())
    try:
        import sympy
        if isinstance(x, sympy.Basic):
            if x.is_Rational:
                return rat(Fraction(int(x.p), int(x.q)))
            if x.is_Float:
                return rat(nice(float(x)))
    except ImportError:
        pass
    return None


def _nonfinite(x):
    try:
        f = float(x) if not isinstance(x, (Sym, SymBool)) else 0.0
    except Exception:
        return None
    return f if (math.isinf(f) or math.isnan(f)) else None


def is_num(z):
    return z3.is_rational_value(z)


def num_of(z):
    return Fraction(z.numerator_as_long(), z.denominator_as_long())


class SymBool:
    __slots__ = ('z',)
    __array_priority__ = 1000

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        z = self.z
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        return _ctx().branch(z)

    def __deepcopy__(self, memo=None):
        return self

    def _o(self, o):
        if isinstance(o, SymBool):
            return o.z
        return z3.BoolVal(bool(o))

    def __and__(self, o):
        return SymBool(z3.And(self.z, self._o(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.z, self._o(o)))
    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.z))

    def logical_not(self):
        return SymBool(z3.Not(self.z))

    def __xor__(self, o):
        return SymBool(z3.Xor(self.z, self._o(o)))

    def __eq__(self, o):
        return SymBool(self.z == self._o(o))

    def __ne__(self, o):
        return SymBool(self.z != self._o(o))

    def __hash__(self):
        return hash(bool(self))

    def __add__(self, o):
        return Sym(lift(self)) + o
    __radd__ = __add__

    def __mul__(self, o):
        return Sym(lift(self)) * o
    __rmul__ = __mul__

    def __float__(self):
        return float(bool(self))

    def __int__(self):
        return int(bool(self))

    def __repr__(self):
        return 'SymBool'


def _cmp(op):
    def f(self, o):
        if isinstance(o, np.ndarray) and o.shape != ():
            r = np.empty(o.shape, dtype=object)
            for i in np.ndindex(*o.shape):
                r[i] = f(self, o[i])
            return r
        oz = lift(o)
        if oz is None:
            inf = _nonfinite(o)
            if inf is not None:
                return bool(op(0.0, inf))
            return NotImplemented
        z = op(self.z, oz)
        if isinstance(z, bool):
            return SymBool(z3.BoolVal(z))
        if is_num(self.z) and is_num(oz):
            return SymBool(z3.BoolVal(bool(op(num_of(self.z), num_of(oz)))))
        if self.z.eq(oz):
            return SymBool(z3.BoolVal(bool(op(0, 0))))
        return SymBool(z)
    return f


class Sym(object):
    """A real-valued symbolic scalar."""
    __slots__ = ('z',)
    __array_priority__ = 1000

    def __init__(self, z):
        self.z = z

    # -- arithmetic
    def _bin(self, o, fn, name):
        if isinstance(o, Dual):
            return NotImplemented
        if isinstance(o, (complex, np.complexfloating)):
            return Cx.op(name, self, o)
        if isinstance(o, np.ndarray) and o.shape != ():
            r = np.empty(o.shape, dtype=object)
            for i in np.ndindex(*o.shape):
                r[i] = self._bin(o[i], fn, name)
            return r
        oz = lift(o)
        if oz is None:
            inf = _nonfinite(o)
            if inf is not None:
                if name in ('add', 'radd', 'rsub'):
                    return inf
                if name == 'sub':
                    return -inf
                if name == 'truediv' and math.isinf(inf):
                    return 0.0
                raise Unsupported('nonfinite operand in ' + name)
            return NotImplemented
        return fn(self.z, oz)

    def __add__(self, o):
        return self._bin(o, _add, 'add')

    def __radd__(self, o):
        return self._bin(o, lambda a, b: _add(b, a), 'radd')

    def __sub__(self, o):
        return self._bin(o, _sub, 'sub')

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: _sub(b, a), 'rsub')

    def __mul__(self, o):
        return self._bin(o, _mul, 'mul')

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: _mul(b, a), 'rmul')

    def __truediv__(self, o):
        return self._bin(o, _div, 'truediv')

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: _div(b, a), 'rtruediv')

    def __floordiv__(self, o):
        q = self / o
        return q.floor()

    def __mod__(self, o):
        return self - (self // o) * o

    def __neg__(self):
        return _mul(z3.RealVal(-1), self.z)

    def __pos__(self):
        return self

    def __abs__(self):
        if is_num(self.z):
            return Sym(rat(abs(num_of(self.z))))
        if self.z.get_id() in _ctx().nonneg:
            return self
        return Sym(z3.If(self.z >= 0, self.z, -self.z))

    def fabs(self):
        return abs(self)

    def absolute(self):
        return abs(self)

    def sign(self):
        return Sym(z3.If(self.z > 0, z3.RealVal(1), z3.If(self.z < 0, z3.RealVal(-1), z3.RealVal(0))))

    def __pow__(self, o):
        if isinstance(o, Dual):
            return NotImplemented
        if isinstance(o, np.ndarray) and o.shape != ():
            return np.array([self ** e for e in o.flat], dtype=object).reshape(o.shape)
        oz = lift(o)
        if oz is None:
            return NotImplemented
        return _pow(self.z, oz)

    def __rpow__(self, o):
        if isinstance(o, np.ndarray) and o.shape != ():
            return np.array([e ** self for e in o.flat], dtype=object).reshape(o.shape)
        oz = lift(o)
        if oz is None:
            return NotImplemented
        return _pow(oz, self.z)

    # -- comparisons
    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)
    __eq__ = _cmp(lambda a, b: a == b)
    __ne__ = _cmp(lambda a, b: a != b)

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return hash(self.z)

    def isclose(self, o, rtol=1e-5, atol=1e-8):
        return abs(self - o) <= atol + rtol * abs(o)

    # -- functions (numpy calls these on object arrays)
    def sin(self):
        return _ctx().fn('sin', self.z)

    def cos(self):
        return _ctx().fn('cos', self.z)

    def tan(self):
        return self.sin() / self.cos()

    def exp(self):
        return _ctx().fn('exp', self.z)

    def log(self):
        return _ctx().fn('log', self.z)

    def log10(self):
        return _ctx().fn('log10', self.z)

    def sqrt(self):
        return _ctx().fn('sqrt', self.z)

    def arcsin(self):
        return _ctx().fn('asin', self.z)

    def arccos(self):
        return _ctx().fn('acos', self.z)

    def arctan(self):
        return _ctx().fn('atan', self.z)

    def tanh(self):
        return _ctx().fn('tanh', self.z)

    def conjugate(self):
        return self

    def square(self):
        return self * self

    def reciprocal(self):
        return 1 / self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def copy(self):
        return self

    def item(self):
        return self

    def isnan(self):
        return False

    def isfinite(self):
        return True

    def isinf(self):
        return False

    def floor(self):
        return Sym(z3.ToReal(z3.ToInt(self.z)))

    def ceil(self):
        return Sym(-z3.ToReal(z3.ToInt(-self.z)))

    __floor__ = floor

    def __ceil__(self):
        return self.ceil()

    def rint(self):
        return (self + Fraction(1, 2)).floor()

    def __round__(self, n=None):
        if n is None:
            return int(self.rint())
        return self

    # -- concretisation
    def __float__(self):
        if is_num(self.z):
            return float(num_of(self.z))
        return float(_ctx().concretize(self.z, 'float()'))

    def __int__(self):
        if is_num(self.z):
            return int(num_of(self.z))
        return _ctx().enum_int(self.z)

    __trunc__ = __int__

    def __index__(self):
        raise TypeError('symbolic real used as an index')

    def __complex__(self):
        return complex(float(self))

    def __format__(self, spec):
        return '<sym>'

    def __str__(self):
        return '<sym>'

    def __repr__(self):
        return '<sym>'

    def __deepcopy__(self, memo=None):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        # cloudpickle of closures: keep identity through a registry
        return (_unpickle_sym, (_pickle_sym(self),))


_sym_registry = {}


def _pickle_sym(s):
    _sym_registry[id(s)] = s
    return id(s)


def _unpickle_sym(i):
    return _sym_registry[i]


numbers.Number.register(Sym)


def _add(a, b):
    if is_num(a):
        if is_num(b):
            return Sym(rat(num_of(a) + num_of(b)))
        if num_of(a) == 0:
            return Sym(b)
    if is_num(b) and num_of(b) == 0:
        return Sym(a)
    return Sym(a + b)


def _sub(a, b):
    if is_num(b):
        if is_num(a):
            return Sym(rat(num_of(a) - num_of(b)))
        if num_of(b) == 0:
            return Sym(a)
    if a.eq(b):
        return Sym(z3.RealVal(0))
    return Sym(a - b)


def _mul(a, b):
    if is_num(a):
        if is_num(b):
            return Sym(rat(num_of(a) * num_of(b)))
        n = num_of(a)
        if n == 0:
            return Sym(z3.RealVal(0))
        if n == 1:
            return Sym(b)
    if is_num(b):
        n = num_of(b)
        if n == 0:
            return Sym(z3.RealVal(0))
        if n == 1:
            return Sym(a)
    return Sym(a * b)


def _div(a, b):
    if is_num(b):
        nb = num_of(b)
        if nb == 0:
            raise ZeroDivisionError('division by zero')
        if is_num(a):
            return Sym(rat(num_of(a) / nb))
        return _mul(rat(1 / nb), a)
    c = _ctx()
    c.nonzero(b)
    if is_num(a) and num_of(a) == 0:
        return Sym(z3.RealVal(0))
    return Sym(a / b)


def _pow(a, b):
    if is_num(b):
        n = num_of(b)
        if n.denominator == 1:
            k = int(n)
            if is_num(a) and (k >= 0 or num_of(a) != 0):
                return Sym(rat(num_of(a) ** k))
            if 0 <= k <= 12:
                r = Sym(z3.RealVal(1))
                base = Sym(a)
                for _ in range(k):
                    r = r * base
                return r
            if -12 <= k < 0:
                return 1 / _pow(a, z3.RealVal(-k))
        if n == Fraction(1, 2):
            return _ctx().fn('sqrt', a)
        if n == Fraction(-1, 2):
            return 1 / _ctx().fn('sqrt', a)
        if n.denominator == 2 and abs(n) < 12:
            s = _ctx().fn('sqrt', a)
            return _pow(s.z, rat(n * 2))
    if is_num(a):
        n = num_of(a)
        if n == 10:
            return _ctx().fn('pow10', b)
        if abs(float(n) - math.e) < 1e-12:
            return _ctx().fn('exp', b)
    # general power exp(b*log(a)) with a > 0
    return _ctx().fn2('pow', a, b)


# ---------------------------------------------------------------- dual numbers

def _f(name, x):
    """Generic elementary function over float / Sym / Dual."""
    if isinstance(x, Dual):
        return getattr(x, name)()
    if isinstance(x, Sym):
        return getattr(x, {'asin': 'arcsin', 'atan': 'arctan'}.get(name, name))()
    return getattr(math, name)(x)


def gsin(x): return _f('sin', x)
def gcos(x): return _f('cos', x)
def gexp(x): return _f('exp', x)
def gsqrt(x): return _f('sqrt', x)
def gmax(xs):
    xs = list(xs)
    if any(isinstance(x, Sym) for x in xs):
        return _ctx().maxn([lift(x) for x in xs])
    return max(xs)


def gtan(x): return gsin(x) / gcos(x)
def gasin(x): return _f('asin', x)


GENERIC = {'sin': gsin, 'cos': gcos, 'exp': gexp, 'sqrt': gsqrt, 'tan': gtan, 'asin': gasin,
           'pi': math.pi, 'atan': lambda x: _f('atan', x)}


class Cx:
    """Complex number over floats or Syms (complex-step differentiation)."""
    __slots__ = ('real', 'imag')
    __array_priority__ = 1500

    def __init__(self, re, im=0):
        self.real, self.imag = re, im

    @staticmethod
    def _l(o):
        if isinstance(o, Cx):
            return o
        if isinstance(o, (complex, np.complexfloating)):
            return Cx(float(o.real), float(o.imag))
        return Cx(o, 0)

    @staticmethod
    def op(name, a, b):
        a, b = Cx._l(a), Cx._l(b)
        if name.startswith('r'):
            a, b, name = b, a, name[1:]
        return {'add': a.__add__, 'sub': a.__sub__, 'mul': a.__mul__, 'truediv': a.__truediv__}[name](b)

    def __add__(self, o):
        o = Cx._l(o)
        return Cx(self.real + o.real, self.imag + o.imag)
    __radd__ = __add__

    def __sub__(self, o):
        o = Cx._l(o)
        return Cx(self.real - o.real, self.imag - o.imag)

    def __rsub__(self, o):
        return Cx._l(o) - self

    def __mul__(self, o):
        o = Cx._l(o)
        return Cx(self.real * o.real - self.imag * o.imag, self.real * o.imag + self.imag * o.real)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = Cx._l(o)
        if not isinstance(o.imag, Sym) and o.imag == 0:
            return Cx(self.real / o.real, self.imag / o.real)
        n = o.real * o.real + o.imag * o.imag
        return Cx((self.real * o.real + self.imag * o.imag) / n, (self.imag * o.real - self.real * o.imag) / n)

    def __rtruediv__(self, o):
        return Cx._l(o) / self

    def __neg__(self):
        return Cx(-self.real, -self.imag)

    def __pos__(self):
        return self

    def __pow__(self, k):
        if isinstance(k, (int, np.integer)) or (isinstance(k, (float, Fraction)) and k == int(k)):
            k = int(k)
            if k < 0:
                return 1 / (self ** (-k))
            r = Cx(1, 0)
            for _ in range(k):
                r = r * self
            return r
        raise Unsupported('complex power')


class Dual:
    """Forward-mode dual number  v + d*eps  over floats, Syms or Duals."""
    __slots__ = ('v', 'd')
    __array_priority__ = 2000

    def __init__(self, v, d=0):
        self.v, self.d = v, d

    @staticmethod
    def _l(o):
        return o if isinstance(o, Dual) else Dual(o, 0)

    def __add__(self, o):
        o = Dual._l(o)
        return Dual(self.v + o.v, self.d + o.d)
    __radd__ = __add__

    def __sub__(self, o):
        o = Dual._l(o)
        return Dual(self.v - o.v, self.d - o.d)

    def __rsub__(self, o):
        return Dual._l(o) - self

    def __mul__(self, o):
        o = Dual._l(o)
        return Dual(self.v * o.v, self.v * o.d + self.d * o.v)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = Dual._l(o)
        return Dual(self.v / o.v, (self.d * o.v - self.v * o.d) / (o.v * o.v))

    def __rtruediv__(self, o):
        return Dual._l(o) / self

    def __neg__(self):
        return Dual(-self.v, -self.d)

    def __pos__(self):
        return self

    def __pow__(self, k):
        if isinstance(k, (int, np.integer)) or (isinstance(k, (float, Fraction)) and k == int(k)):
            k = int(k)
            if k == 0:
                return Dual(1, 0)
            if k < 0:
                return 1 / (self ** (-k))
            r = self
            for _ in range(k - 1):
                r = r * self
            return r
        if k in (0.5, Fraction(1, 2)):
            return self.sqrt()
        raise Unsupported('dual power')

    def sin(self):
        return Dual(gsin(self.v), gcos(self.v) * self.d)

    def cos(self):
        return Dual(gcos(self.v), -gsin(self.v) * self.d)

    def exp(self):
        e = gexp(self.v)
        return Dual(e, e * self.d)

    def sqrt(self):
        s = gsqrt(self.v)
        return Dual(s, self.d / (2 * s))


def grad(fn, xs):
    """Gradient of a scalar fn(list) at the list xs (floats/Syms/Duals)."""
    out = []
    for i in range(len(xs)):
        r = fn([Dual(x, 1 if i == j else 0) for j, x in enumerate(xs)])
        out.append(r.d if isinstance(r, Dual) else 0)
    return out


def dirderiv(fn, xs, vs):
    """d/de fn(xs + e*vs)."""
    r = fn([Dual(x, v) for x, v in zip(xs, vs)])
    return r.d if isinstance(r, Dual) else 0


def evalx(expr, env):
    """Evaluate a user expression string over generic values (the oracle side)."""
    ns = dict(GENERIC)
    if CTX is not None and not CTX.concrete:
        ns['pi'] = PI
    ns.update(env)
    return eval(compile(str(expr), '<expr>', 'eval'), {'__builtins__': {}}, ns)


# ---------------------------------------------------------------- rational normal form

class RatForm:
    """num/den split of a z3 Real term so that equalities become polynomial."""

    def __init__(self):
        self.memo = {}

    def __call__(self, z):
        k = z.get_id()
        r = self.memo.get(k)
        if r is None:
            r = self._go(z)
            self.memo[k] = r + (z,)
            return r
        return r[:2]

    def _go(self, z):
        one = None
        if z.num_args() == 0:
            return z, one
        d = z.decl().kind()
        if d == z3.Z3_OP_ADD:
            return self._sum([self(c) for c in z.children()])
        if d == z3.Z3_OP_SUB:
            ch = [self(c) for c in z.children()]
            return self._sum([ch[0]] + [(-n, dd) for n, dd in ch[1:]])
        if d == z3.Z3_OP_UMINUS:
            n, dd = self(z.arg(0))
            return -n, dd
        if d == z3.Z3_OP_MUL:
            n, dd = None, None
            for c in z.children():
                cn, cd = self(c)
                n = cn if n is None else n * cn
                if cd is not None:
                    dd = cd if dd is None else dd * cd
            return n, dd
        if d == z3.Z3_OP_DIV:
            an, ad = self(z.arg(0))
            bn, bd = self(z.arg(1))
            n = an if bd is None else an * bd
            dd = bn if ad is None else ad * bn
            return n, dd
        return z, one       # opaque (ite, to_real ...)

    @staticmethod
    def _sum(parts):
        # group by denominator first
        groups = {}
        order = []
        for n, d in parts:
            key = None if d is None else d.get_id()
            if key in groups:
                groups[key] = (groups[key][0] + n, d)
            else:
                groups[key] = (n, d)
                order.append(key)
        n, d = groups[order[0]]
        for key in order[1:]:
            n2, d2 = groups[key]
            if d is None and d2 is None:
                n = n + n2
            elif d is None:
                n, d = n * d2 + n2, d2
            elif d2 is None:
                n = n + n2 * d
            else:
                n, d = n * d2 + n2 * d, d * d2
        return n, d


# ---------------------------------------------------------------- symbolic context

class Failure(Exception):
    pass


PI = Sym(z3.Real('pi!'))        # symbolic runs never see a rounded pi
PI_BOUND = z3.And(PI.z > rat(Fraction(314159265, 10**8)), PI.z < rat(Fraction(314159266, 10**8)))


class Ctx:
    """One symbolic run of one harness (re-executed per path)."""
    mode = 'sym'
    concrete = False

    def __init__(self, task='', query_timeout=20000, max_paths=4000, deadline=None, seed=1):
        self.task = task
        self.qt = query_timeout
        self.max_paths = max_paths
        self.deadline = deadline
        self.seed = seed
        self.stats = dict(paths=0, aborted=0, branches=0, queries=0, unsat=0, sat=0, unknown=0,
                          solver_s=0.0, asserts=0, concretised=0, feasibility_queries=0)
        self.failures = []
        self.witnesses = []
        self.incomplete = []
        self.labels = {}
        self.inputs = {}
        self.rf = RatForm()
        self._reset([])

    # ---- path management
    def _reset(self, prefix):
        self.prefix = prefix
        self.trace = []          # list of (choice_index, n_options_remaining)
        self.pc = []
        self.consts = {}         # name -> z3 const
        self.choices = {}        # name -> chosen value (choices/flags)
        self.fnapps = {}         # (fname, key) -> z3 const
        self.fnlist = []         # (fname, argz, const)
        self.nz = set()
        self.nonneg = set()
        self.auto = []           # replay preferences: assumed strict inequalities hold with room to spare
        self.margin = []         # replay preferences: stay away from domain boundaries
        self.solver = z3.Solver()
        self.solver.set('timeout', 4000)
        self.path_failed = False
        self.npending = None
        self._push(PI_BOUND)

    def _push(self, z):
        self.pc.append(z)
        self.solver.add(z)

    def explore(self, fn):
        """Run fn(ctx) over all feasible paths."""
        global CTX
        stack = [[]]
        while stack:
            if self.stats['paths'] >= self.max_paths:
                self.incomplete.append('path limit %d reached' % self.max_paths)
                break
            if self.deadline and time.time() > self.deadline:
                self.incomplete.append('time limit reached with %d unexplored prefixes' % len(stack))
                break
            prefix = stack.pop()
            self._reset(prefix)
            CTX = self
            ok = False
            try:
                fn(self)
                ok = True
            except Abort:
                self.stats['aborted'] += 1
            except Exception as e:
                self._exception(e)
                ok = True
            finally:
                CTX = None
            # schedule siblings
            for i in range(len(self.trace) - 1, len(prefix) - 1, -1):
                c, alts = self.trace[i]
                for a in alts:
                    stack.append([t[0] for t in self.trace[:i]] + [a])
            if ok:
                self.stats['paths'] += 1
                if not self.path_failed:
                    self._witness()
        return self

    def _exception(self, e):
        import traceback
        self.path_failed = True
        tb = traceback.format_exc(limit=-6)
        self.failures.append(dict(kind='exception', label='exception:' + type(e).__name__,
                                  detail=str(e)[:300] + '\n' + tb[-1500:], assign=self._assign(None)))

    def _decide(self, options, note):
        """Multiway decision; options is a list of feasible option ids (>=1)."""
        i = len(self.trace)
        if i < len(self.prefix):
            c = self.prefix[i]
            self.trace.append((c, []))
        else:
            c = options[0]
            self.trace.append((c, options[1:][::-1]))
        return c

    def branch(self, z):
        zs = z3.simplify(z)
        if z3.is_true(zs):
            return True
        if z3.is_false(zs):
            return False
        i = len(self.trace)
        if i < len(self.prefix):
            c = self._decide(None, 'br')
        else:
            opts = []
            for val, cond in ((1, z), (0, z3.Not(z))):
                if self._feasible(cond):
                    opts.append(val)
            if not opts:
                raise Abort()
            c = self._decide(opts, 'br')
            if len(opts) > 1:
                self.stats['branches'] += 1
        self._push(z if c else z3.Not(z))
        return bool(c)

    def _feasible(self, cond):
        t0 = time.time()
        self.stats['feasibility_queries'] += 1
        r = self.solver.check(cond)
        self.stats['solver_s'] += time.time() - t0
        return r != z3.unsat

    # ---- inputs
    def real(self, name, lo=None, hi=None, nz=False):
        if name in self.consts:
            return Sym(self.consts[name])
        c = z3.Real(name)
        self.consts[name] = c
        self.inputs[name] = (lo, hi)
        if lo is not None:
            self._push(c >= rat(nice(lo)))
            if lo >= 0:
                self.nonneg.add(c.get_id())
        if hi is not None:
            self._push(c <= rat(nice(hi)))
        if nz:
            self._push(c != 0)
            self.nz.add(c.get_id())
        return Sym(c)

    def reals(self, prefix, n, lo=None, hi=None, nz=False):
        return np.array([self.real('%s%d' % (prefix, i), lo, hi, nz) for i in range(n)] + [None],
                        dtype=object)[:-1]

    def matrix(self, prefix, n, m, lo=None, hi=None):
        a = np.empty((n, m), dtype=object)
        for i in range(n):
            for j in range(m):
                a[i, j] = self.real('%s%d_%d' % (prefix, i, j), lo, hi)
        return a

    def flag(self, name):
        return bool(self.choice(name, [False, True]))

    def choice(self, name, options):
        options = list(options)
        i = self._decide(list(range(len(options))), name)
        if len(options) > 1:
            self.stats['branches'] += 1
        self.choices[name] = i
        return options[i]

    def assume(self, cond):
        if isinstance(cond, SymBool):
            zs = z3.simplify(cond.z)
            if z3.is_true(zs):
                return
            if z3.is_false(zs) or not self._feasible(cond.z):
                raise Abort()
            self._push(cond.z)
            self.auto += _roomy(cond.z)
        elif not cond:
            raise Abort()

    def prefer(self, cond):
        """Preference for the concrete points chosen for re-runs; does not restrict what is decided."""
        if isinstance(cond, SymBool):
            self.margin.append(cond.z)

    def nonzero(self, z):
        """Divisor: restrict the path to the domain where it is non-zero."""
        if z.get_id() in self.nz:
            return
        self.nz.add(z.get_id())
        zs = z3.simplify(z == 0)
        if z3.is_true(zs):
            raise ZeroDivisionError('symbolic division by zero')
        if z3.is_false(zs):
            return
        self._push(z != 0)

    def concretize(self, z, why):
        self.stats['concretised'] += 1
        r = self.solver.check()
        if r != z3.sat:
            raise Abort()
        v = self.solver.model().eval(z, model_completion=True)
        if z3.is_algebraic_value(v):
            v = v.approx(20)
        f = num_of(v)
        # same value on re-execution of this prefix: keep it deterministic by pushing equality
        self._push(z == rat(f))
        if len(self.incomplete) < 20:
            import traceback
            fr = [x for x in traceback.extract_stack() if '/repo/' in x.filename or 'numpy' in x.filename or 'scipy' in x.filename]
            self.incomplete.append('concretised a symbolic value (%s) at %s' % (
                why, '; '.join('%s:%d' % (os.path.basename(x.filename), x.lineno) for x in fr[-3:])))
        return f

    def enum_int(self, z):
        """int() of a symbolic real: fork over the (finitely many, small) integer values."""
        tr = z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z))
        for k in list(range(0, 40)) + list(range(-1, -10, -1)):
            if bool(SymBool(tr == k)):
                return k
        raise Unsupported('unbounded symbolic int')

    # ---- elementary functions as fresh constants with axioms
    def _same(self, a, b):
        if a.eq(b):
            return True
        d = z3.simplify(a - b, som=True, som_blowup=1000000)
        if is_num(d):
            return num_of(d) == 0
        an, ad = self.rf(a)
        bn, bd = self.rf(b)
        if ad is not None or bd is not None:
            l = an if bd is None else an * bd
            r = bn if ad is None else bn * ad
            d = z3.simplify(l - r, som=True, som_blowup=1000000)
            return is_num(d) and num_of(d) == 0
        return False

    def fn(self, name, z):
        if is_num(z):
            v = num_of(z)
            if v == 0 and name in ('sin', 'asin', 'atan', 'tanh', 'sqrt'):
                return Sym(z3.RealVal(0))
            if v == 0 and name in ('cos', 'exp', 'pow10'):
                return Sym(z3.RealVal(1))
            if v == 1 and name in ('log', 'log10'):
                return Sym(z3.RealVal(0))
            if name == 'sqrt' and v >= 0:
                p, q = math.isqrt(v.numerator), math.isqrt(v.denominator)
                if p * p == v.numerator and q * q == v.denominator:
                    return Sym(rat(Fraction(p, q)))
            if name == 'log10' and v > 0:
                for e in range(-30, 31):
                    if Fraction(10) ** e == v:
                        return Sym(z3.RealVal(e))
            if name == 'pow10' and v.denominator == 1 and abs(v) <= 30:
                return Sym(rat(Fraction(10) ** int(v)))
        for (n, a, c) in self.fnlist:
            if n == name and self._same(a, z):
                return Sym(c)
        if name in ('sin', 'cos'):
            # parity: reuse f(-a)
            for (n, a, c) in self.fnlist:
                if n == name and self._same(a, -z):
                    return Sym(c) if name == 'cos' else _mul(z3.RealVal(-1), c)
        c = z3.Real('@%s%d' % (name, len(self.fnlist)))
        self.fnlist.append((name, z, c))
        if name == 'sin':
            self._inv_axioms('asin', z, c)
            cc = self.fn('cos', z)
            self._push(c * c + cc.z * cc.z == 1)
        elif name == 'cos':
            self._push(z3.And(c <= 1, c >= -1))
            if not any(n == 'sin' and self._same(a, z) for (n, a, _) in self.fnlist):
                self.fn('sin', z)
        elif name == 'asin':
            self._inv_axioms('sin', z, c)
        elif name == 'exp':
            self._push(c > 0)
            self._push(z3.And(z3.Implies(z > 0, c > 1), z3.Implies(z < 0, c < 1), z3.Implies(z == 0, c == 1)))
            for (n, a, c2) in self.fnlist[:-1]:
                if n == 'exp':
                    if self._same(a, -z):
                        self._push(c * c2 == 1)
                    self._push(z3.And(z3.Implies(a > z, c2 > c), z3.Implies(a < z, c2 < c)))
            self._inv_axioms('log', z, c)
        elif name == 'log':
            self._dom(z > 0)
            self._inv_axioms('exp', z, c)
        elif name == 'sqrt':
            self._dom(z >= 0)
            self.margin.append(z > rat(Fraction(1, 100)))
            self._push(z3.And(c >= 0, c * c == z))
        elif name == 'log10':
            self._dom(z > 0)
            self._inv_axioms('pow10', z, c)
            for (n, a, c2) in self.fnlist[:-1]:
                if n == 'log10':
                    self._push(z3.And(z3.Implies(a > z, c2 > c), z3.Implies(a < z, c2 < c)))
        elif name == 'pow10':
            self._push(c > 0)
            self._inv_axioms('log10', z, c)
            for (n, a, c2) in self.fnlist[:-1]:
                if n == 'pow10':
                    self._push(z3.And(z3.Implies(a > z, c2 > c), z3.Implies(a < z, c2 < c)))
        return Sym(c)

    def maxn(self, zs):
        """largest of a list, without a case split: a fresh value bounded below by, and equal to one of, the elements."""
        uniq = []
        for z in zs:
            if not any(self._same(z, u) for u in uniq):
                uniq.append(z)
        if len(uniq) == 1:
            return Sym(uniq[0])
        for (n, arg, c) in self.fnlist:
            if n == 'max' and len(arg) == len(uniq) and all(any(self._same(a, u) for a in arg) for u in uniq):
                return Sym(c)
        c = z3.Real('@max%d' % len(self.fnlist))
        self.fnlist.append(('max', tuple(uniq), c))
        self._push(z3.And(*[c >= u for u in uniq]))
        self._push(z3.Or(*[c == u for u in uniq]))
        return Sym(c)

    def fn2(self, name, a, b):
        for (n, arg, c) in self.fnlist:
            if n == name and self._same(arg[0], a) and self._same(arg[1], b):
                return Sym(c)
        self._dom(a > 0)
        c = z3.Real('@%s%d' % (name, len(self.fnlist)))
        self.fnlist.append((name, (a, b), c))
        self._push(c > 0)
        return Sym(c)

    def _dom(self, cond):
        zs = z3.simplify(cond)
        if z3.is_true(zs):
            return
        if z3.is_false(zs) or not self._feasible(cond):
            if not self._feasible(z3.BoolVal(True)):
                raise Abort()       # the path itself turned out to be contradictory
            raise ValueError('math domain error')
        self._push(cond)

    def _inv_axioms(self, inv, z, c):
        """f(z)=c where z is itself inv(w): then c == w (principal branches)."""
        for (n, a, c2) in self.fnlist:
            if n == inv and self._same(c2, z):
                self._push(c == a)

    # ---- queries
    def _query(self, neg):
        """-> (result, model) for path condition and neg."""
        t0 = time.time()
        self.stats['queries'] += 1
        res, model = z3.unknown, None
        for strat in ('default', 'nlsat', 'default-long'):
            if strat == 'default':
                s = z3.Solver()
                s.set('timeout', min(5000, self.qt))
            elif strat == 'nlsat':
                s = z3.Then('simplify', 'purify-arith', 'propagate-values', 'solve-eqs', 'simplify',
                            'qfnra-nlsat').solver()
                s.set('timeout', self.qt)
            else:
                s = z3.Solver()
                s.set('timeout', self.qt)
            try:
                s.add(*self.pc)
                s.add(neg)
                res = s.check()
                if res == z3.sat:
                    model = s.model()
                if res != z3.unknown:
                    break
            except z3.Z3Exception:
                res = z3.unknown
        self.stats['solver_s'] += time.time() - t0
        self.stats[str(res)] += 1
        return res, model

    def _assign(self, model, witness=False):
        """Concrete input assignment: reals from the model, choices from the path."""
        if model is None:
            t0 = time.time()
            s = z3.Solver()
            s.set('timeout', 8000)
            s.add(*self.pc)
            r = s.check(*(self._soft() + self.margin + self.auto))
            if r != z3.sat and self.auto:
                s.set('timeout', 4000)
                r = s.check(*(self._soft() + self.margin))
                if r != z3.sat:
                    s.set('timeout', 3000)
                    r = s.check(*(self.margin + self.auto))
            if r != z3.sat and self.margin:
                s.set('timeout', 3000)
                r = s.check(*self.margin)
                if r != z3.sat and witness:
                    return None          # the path only exists on a domain boundary
            if r != z3.sat:
                r = s.check()
            self.stats['solver_s'] += time.time() - t0
            if r == z3.sat:
                model = s.model()
        vals = {}
        if model is not None:
            for n, c in self.consts.items():
                v = model.eval(c, model_completion=False)
                if z3.is_algebraic_value(v):
                    v = v.approx(20)
                if is_num(v):
                    vals[n] = float(num_of(v))
        return dict(reals=vals, choices=dict(self.choices))

    def _soft(self):
        """Preferences that make replay values generic: distinct, moderate magnitude."""
        out = []
        for i, (n, c) in enumerate(sorted(self.consts.items())):
            lo, hi = self.inputs.get(n, (None, None))
            if lo is None and hi is None:
                out.append(z3.And(c > rat(Fraction(3 + i % 7, 10)), c < 3))
        return out

    def _record(self, label, model, detail, kind='assert'):
        self.path_failed = True
        if sum(1 for f in self.failures if f['label'] == label) < 3:
            self.failures.append(dict(kind=kind, label=label, detail=detail[:600], assign=self._assign(model)))

    def _unknown(self, label):
        self.incomplete.append('solver returned unknown on assertion %s' % label)

    def _zcheck(self, label, neg, detail):
        self.stats['asserts'] += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        soft_model = None
        zs = z3.simplify(neg)
        if z3.is_true(zs):
            # violated on the whole path
            self.stats['queries'] += 1
            self.stats['sat'] += 1
            self._record(label, None, detail)
            return False
        res, model = self._query(zs if z3.is_false(zs) else neg)
        if res == z3.unsat:
            return True
        if res == z3.sat:
            # prefer a generic counterexample
            s = z3.Solver()
            s.set('timeout', 4000)
            s.add(*self.pc)
            s.add(neg)
            soft = self._soft()
            if (soft or self.auto) and s.check(*(soft + self.margin + self.auto)) == z3.sat:
                soft_model = s.model()
            elif soft and self.auto and s.check(*(soft + self.margin)) == z3.sat:
                soft_model = s.model()
            elif self.auto and s.check(*(self.margin + self.auto)) == z3.sat:
                soft_model = s.model()
            elif self.margin and s.check(*self.margin) == z3.sat:
                soft_model = s.model()
            self._record(label, soft_model or model, detail)
            return False
        self._unknown(label)
        self._record(label, None, detail, kind='unknown')
        return None

    def neq_term(self, a, b):
        an, ad = self.rf(a)
        bn, bd = self.rf(b)
        l = an if bd is None else an * bd
        r = bn if ad is None else bn * ad
        return z3.simplify(l - r, som=True, som_blowup=10000, hoist_mul=False) != 0

    def eq(self, label, a, b, tol=None):
        """Elementwise equality of two scalars/arrays for every value on this path."""
        a, b = np.asarray(_obj(a)), np.asarray(_obj(b))
        if a.shape != b.shape:
            self.stats['asserts'] += 1
            self.labels[label] = self.labels.get(label, 0) + 1
            self._record(label, None, 'shape %s != %s' % (a.shape, b.shape))
            return False
        ok = True
        for idx in np.ndindex(*a.shape):
            x, y = a[idx], b[idx]
            xz, yz = lift(x), lift(y)
            tag = '%s expected equality at index %s' % (label, idx)
            if xz is None or yz is None:
                self.stats['asserts'] += 1
                same = (x is y) or (_nonfinite(x) is not None and _nonfinite(y) is not None and (
                    _nonfinite(x) == _nonfinite(y) or (math.isnan(_nonfinite(x)) and math.isnan(_nonfinite(y)))))
                if not same:
                    self._record(label, None, tag + ' non-real %r %r' % (x, y))
                    ok = False
                continue
            if self._zcheck(label, self.neq_term(xz, yz), tag) is not True:
                ok = False
                if sum(1 for f in self.failures if f['label'] == label) >= 3:
                    break
        return ok

    def check(self, label, cond, detail=''):
        if isinstance(cond, SymBool):
            return self._zcheck(label, z3.Not(cond.z), detail or label)
        self.stats['asserts'] += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        if not cond:
            self._record(label, None, detail or label)
            return False
        return True

    def le(self, label, a, b, tol=0.0):
        r = Sym(lift(a)) <= (b if not tol else b + tol)
        return self.check(label, r)

    def same(self, label, a, b):
        """Exact (non-real) comparison of concrete values."""
        return self.check(label, a == b, 'expected %r, got %r' % (b, a))

    def fail(self, label, detail=''):
        return self.check(label, False, detail)

    def close_enough(self, a, b):
        """Quick numeric filter used only for pairing in match()."""
        env = self._sample()
        av, bv = env(lift(a)), env(lift(b))
        if av is None or bv is None:
            return True
        return abs(av - bv) <= 1e-9 * (1 + abs(av) + abs(bv))

    def _sample(self):
        if getattr(self, '_smodel', None) is None or self._smodel[0] != len(self.consts) + len(self.fnlist):
            subs = []
            rng = np.random.RandomState(7)
            for n, c in sorted(self.consts.items()):
                subs.append((c, rat(Fraction(int(rng.randint(200, 900)), 997))))
            for (n, a, c) in self.fnlist:
                subs.append((c, rat(Fraction(int(rng.randint(200, 900)), 991))))
            self._smodel = (len(self.consts) + len(self.fnlist), subs)
        subs = self._smodel[1]

        def ev(z):
            v = z3.simplify(z3.substitute(z, *subs)) if subs else z3.simplify(z)
            if z3.is_algebraic_value(v):
                v = v.approx(15)
            return float(num_of(v)) if is_num(v) else None
        return ev

    def match(self, label, actual, expected, signs=True):
        """actual and expected agree as multisets of residuals (sign of a residual is free)."""
        actual, expected = list(actual), list(expected)
        if len(actual) != len(expected):
            self.stats['asserts'] += 1
            self.labels[label] = self.labels.get(label, 0) + 1
            self._record(label, None, 'number of residuals %d, expected %d' % (len(actual), len(expected)))
            return False
        ev = self._sample()
        avals = [ev(lift(a)) for a in actual]
        free = set(range(len(actual)))
        ok = True
        for j, e in enumerate(expected):
            evl = ev(lift(e))
            cand = None
            for i in sorted(free):
                if avals[i] is None or evl is None:
                    continue
                t = 1e-9 * (1 + abs(avals[i]) + abs(evl))
                if abs(avals[i] - evl) <= t:
                    cand = (i, 1)
                    break
                if signs and abs(avals[i] + evl) <= t:
                    cand = (i, -1)
                    break
            if cand is None:
                neg = z3.And(*[z3.And(lift(actual[i]) != lift(e), lift(actual[i]) != -lift(e)) for i in free])
                self._zcheck(label, neg, '%s: expected condition #%d is missing' % (label, j))
                ok = False
                continue
            i, sg = cand
            free.discard(i)
            if self._zcheck(label, self.neq_term(lift(actual[i]), lift(e) if sg == 1 else -lift(e)),
                            '%s: condition #%d' % (label, j)) is not True:
                ok = False
        return ok

    def raises(self, label, exc, fn):
        try:
            fn()
        except Exception as e:
            return self.check(label, isinstance(e, exc), 'raised %s: %s' % (type(e).__name__, e))
        return self.check(label, False, 'did not raise')

    def _witness(self):
        if len(self.witnesses) >= 400:
            return
        w = self._assign(None, witness=True)
        if w is not None:
            self.witnesses.append(w)


def _obj(a):
    if isinstance(a, (Sym, SymBool)):
        r = np.empty((), dtype=object)
        r[()] = a
        return r
    if isinstance(a, (list, tuple)):
        return np.array(a, dtype=object)
    return a


# ---------------------------------------------------------------- concrete context

class MissingInput(Exception):
    pass


class CCtx:
    """Replays a harness with concrete floats on the unpatched code."""
    mode = 'conc'
    concrete = True

    def __init__(self, assign, seed=0, perturb=0.0, tol=1e-6, jitter=0.0):
        self.a = assign
        self.jitter = jitter
        self.raw = {}
        self.rng = np.random.RandomState(seed)
        self.perturb = perturb
        self.tol = tol
        self.failures = []
        self.labels = {}
        self.used = {}

    def real(self, name, lo=None, hi=None, nz=False):
        if name in self.used:
            return self.used[name]
        v = self.a['reals'].get(name)
        if v is None or self.perturb:
            if lo is not None and hi is not None:
                r = lo + (hi - lo) * (0.1 + 0.8 * self.rng.rand())
            elif lo is not None:
                r = lo + 0.3 + 1.5 * self.rng.rand()
            elif hi is not None:
                r = hi - 0.3 - 1.5 * self.rng.rand()
            else:
                r = (0.3 + 1.7 * self.rng.rand())
                if self.perturb and self.rng.rand() < 0.3:
                    r = -r
            if v is None:
                v = r
            elif self.rng.rand() < self.perturb:
                v = r
        v = float(v)
        self.raw[name] = v
        if self.jitter and v == v and abs(v) != math.inf:
            v *= 1 + self.jitter * (2 * self.rng.rand() - 1)
        self.used[name] = v
        return v

    def reals(self, prefix, n, lo=None, hi=None, nz=False):
        return np.array([self.real('%s%d' % (prefix, i), lo, hi, nz) for i in range(n)], dtype=float)

    def matrix(self, prefix, n, m, lo=None, hi=None):
        return np.array([[self.real('%s%d_%d' % (prefix, i, j), lo, hi) for j in range(m)] for i in range(n)],
                        dtype=float).reshape(n, m)

    def flag(self, name):
        return bool(self.choice(name, [False, True]))

    def choice(self, name, options):
        options = list(options)
        i = self.a['choices'].get(name)
        if i is None:
            raise MissingInput(name)
        return options[i]

    def assume(self, cond):
        if not bool(cond):
            raise Abort()

    def prefer(self, cond):
        pass

    def _rec(self, label, detail, diff=None):
        self.failures.append(dict(label=label, detail=str(detail)[:600], diff=diff))
        return False

    def extreme(self):
        m = [abs(v) for v in self.used.values() if v]
        return bool(m) and (max(m) > 1e5 or min(m) < 1e-5)

    def _n(self, label):
        self.labels[label] = self.labels.get(label, 0) + 1

    def _close(self, x, y, tol=None):
        tol = tol or self.tol
        x, y = float(x), float(y)
        if math.isnan(x) and math.isnan(y):
            return True
        if x == y:
            return True
        return abs(x - y) <= tol * (1 + abs(x) + abs(y))

    def eq(self, label, a, b, tol=None):
        self._n(label)
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return self._rec(label, 'shape %s != %s' % (a.shape, b.shape))
        for idx in np.ndindex(*a.shape):
            try:
                c = self._close(a[idx], b[idx], tol)
            except TypeError:
                c = a[idx] is b[idx]
            if not c:
                try:
                    diff = float(a[idx]) - float(b[idx])
                except (TypeError, ValueError):
                    diff = None
                return self._rec(label, 'at %s: got %r, expected %r' % (idx, a[idx], b[idx]), diff)
        return True

    def check(self, label, cond, detail=''):
        self._n(label)
        if not bool(cond):
            return self._rec(label, detail or label)
        return True

    def le(self, label, a, b, tol=0.0):
        self._n(label)
        if not a <= b + max(tol, self.tol * (1 + abs(b))):
            return self._rec(label, '%r <= %r' % (a, b), float(a) - float(b))
        return True

    def same(self, label, a, b):
        return self.check(label, a == b, 'got %r, expected %r' % (a, b))

    def fail(self, label, detail=''):
        return self.check(label, False, detail)

    def match(self, label, actual, expected, signs=True):
        self._n(label)
        actual, expected = [float(x) for x in actual], [float(x) for x in expected]
        if len(actual) != len(expected):
            return self._rec(label, 'number of residuals %d, expected %d' % (len(actual), len(expected)))
        free = list(range(len(actual)))
        for e in expected:
            for i in free:
                if self._close(actual[i], e) or (signs and self._close(actual[i], -e)):
                    free.remove(i)
                    break
            else:
                return self._rec(label, 'expected residual %r missing among %r' % (e, [actual[i] for i in free]),
                                 min([min(abs(actual[i] - e), abs(actual[i] + e) if signs else math.inf) for i in free],
                                     default=None))
        return True

    def raises(self, label, exc, fn):
        self._n(label)
        try:
            fn()
        except Exception as e:
            if not isinstance(e, exc):
                return self._rec(label, 'raised %s: %s' % (type(e).__name__, e))
            return True
        return self._rec(label, 'did not raise')
