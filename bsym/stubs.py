"""Environment stubs for symbolic runs (never active in concrete replay).

Every stub replaces a third-party numerical routine, never beluga code:

* scipy.interpolate.interp1d   -> exact piecewise-linear interpolation over symbolic
  samples (kind='linear' only; other kinds raise Unsupported), ValueError outside
  the knots (scipy's default).
* scipy.integrate.simpson      -> scipy's own composite-Simpson formula re-stated over
  exact reals (validated against scipy at start-up).
* numpy.zeros/ones/empty/eye/zeros_like... keep working on floats; arrays created by
  beluga that later receive symbolic entries are made with dtype=object while
  OBJECT_ARRAYS is on.
* numpy.interp, numpy.searchsorted, numpy.linalg.solve/norm: exact real versions when
  an operand is symbolic.
"""
import sys
from fractions import Fraction

import numpy as np

from . import core
from .core import Sym, SymBool, Unsupported


def has_sym(*xs):
    for x in xs:
        if isinstance(x, (Sym, SymBool)):
            return True
        if isinstance(x, np.ndarray):
            if x.dtype == object:
                for e in x.flat:
                    if isinstance(e, (Sym, SymBool)):
                        return True
        elif isinstance(x, (list, tuple)):
            if has_sym(*x):
                return True
    return False


# -------------------------------------------------- interpolation

class Interp1d:
    def __init__(self, x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=np.nan,
                 assume_sorted=False):
        if kind not in ('linear', 1):
            raise Unsupported('interpolation kind %r' % (kind,))
        self.x = np.asarray(x)
        self.y = np.asarray(y)
        if self.x.ndim != 1:
            raise ValueError('the x array must have exactly one dimension.')
        if self.y.shape[-1] != self.x.shape[0]:
            raise ValueError('x and y arrays must be equal in length along interpolation axis.')
        if len(self.x) < 1:
            raise ValueError('x and y arrays must have at least 1 entries')

    def _one(self, t):
        r = self._at(t)
        return r.item() if isinstance(r, np.ndarray) and r.shape == () else r

    def _at(self, t):
        xs, ys = self.x, self.y
        n = len(xs)
        if n == 1:
            return ys[..., 0]
        # exact knots first: avoids needless case splits
        for i in range(n):
            if xs[i] is t or (isinstance(xs[i], Sym) and isinstance(t, Sym) and xs[i].z.eq(t.z)):
                return ys[..., i]
        up = bool(xs[-1] >= xs[0])      # scipy sorts by x
        lo, hi = (xs[0], xs[-1]) if up else (xs[-1], xs[0])
        if bool(t < lo) or bool(t > hi):
            raise ValueError('A value in x_new is outside the interpolation range.')
        for i in range(n - 1):
            a, b = (i, i + 1) if up else (n - 1 - i, n - 2 - i)
            if i == n - 2 or bool(t <= xs[b]):
                d = xs[b] - xs[a]
                if not has_sym(d) and d == 0:
                    return ys[..., b]
                if has_sym(d) and bool(d == 0):
                    return ys[..., b]
                w = (t - xs[a]) / d
                return ys[..., a] + w * (ys[..., b] - ys[..., a])

    def __call__(self, t):
        t = _unnest(t)
        t = np.asarray(t, dtype=object) if has_sym(t) else np.asarray(t)
        if t.shape == ():
            r = self._one(t.item())
            out = np.empty((), dtype=object)
            out[()] = r
            return out
        out = np.empty(t.shape, dtype=object)
        for i in np.ndindex(*t.shape):
            out[i] = self._one(t[i])
        return out


def _plain(a):
    a = np.asarray(a)
    return a.astype(float) if a.dtype == object else a


def _unnest(a):
    """0-d arrays inside an object array replaced by what they hold."""
    a = np.asarray(a)
    if a.dtype == object and any(isinstance(e, np.ndarray) and e.shape == () for e in a.flat):
        a = a.copy()
        for i in np.ndindex(*a.shape):
            while isinstance(a[i], np.ndarray) and a[i].shape == ():
                a[i] = a[i].item()
    return a


def make_interp1d(orig):
    class interp1d:                      # noqa: N801
        def __new__(cls, x, y, *a, **k):
            x, y = _unnest(x), _unnest(y)
            if has_sym(x, y):
                return Interp1d(x, y, *a, **k)
            xf, yf = _plain(x), _plain(y)
            o = orig(xf, yf, *a, **k)

            def call(t):
                t = _unnest(t)
                if has_sym(t):
                    return Interp1d(x, y, *a, **k)(t)
                return o(_plain(t))
            return call
    return interp1d


# -------------------------------------------------- Simpson (scipy >= 1.11 rule)

def simpson_exact(y, x=None, dx=1.0, axis=-1):
    y = np.asarray(y)
    y = np.moveaxis(y, axis, -1)
    n = y.shape[-1]
    if x is not None:
        x = np.asarray(x)
        if x.ndim != 1 or len(x) != n:
            raise ValueError('If given, shape of x must be 1-D or the same as y.')
        h = [x[i + 1] - x[i] for i in range(n - 1)]
    else:
        h = [dx] * (n - 1)
    zero = y[..., 0] * 0

    def basic(start, stop):
        r = zero
        for i in range(start, stop, 2):
            h0, h1 = h[i], h[i + 1]
            hs, hp = h0 + h1, h0 * h1
            q0 = h0 / h1
            r = r + hs / 6 * (y[..., i] * (2 - 1 / q0) + y[..., i + 1] * (hs * (hs / hp))
                              + y[..., i + 2] * (2 - q0))
        return r

    if n == 1:
        return zero
    if n % 2 == 1:
        return basic(0, n - 2)
    if n == 2:
        return h[-1] * (y[..., -1] + y[..., -2]) * Fraction(1, 2)
    r = basic(0, n - 3)
    h0, h1 = h[-2], h[-1]
    num = 2 * h1 ** 2 + 3 * h0 * h1
    den = 6 * (h1 + h0)
    alpha = num / den
    beta = (h1 ** 2 + 3 * h0 * h1) / (6 * h0)
    eta = h1 ** 3 / (6 * h0 * (h0 + h1))
    return r + alpha * y[..., -1] + beta * y[..., -2] - eta * y[..., -3]


def make_simpson(orig):
    def simpson(y, *args, **kw):
        x = args[0] if args else kw.get('x')
        if has_sym(np.asarray(y), x if x is None else np.asarray(x)):
            return simpson_exact(y, x=x, dx=kw.get('dx', 1.0), axis=kw.get('axis', -1))
        return orig(y, *args, **kw)
    return simpson


# -------------------------------------------------- numpy helpers

def np_interp(orig):
    def interp(x, xp, fp, *a, **k):
        if not has_sym(x, np.asarray(xp), np.asarray(fp)):
            return orig(x, xp, fp, *a, **k)
        xp, fp = np.asarray(xp), np.asarray(fp)

        def one(t):
            if bool(t <= xp[0]):
                return fp[0]
            for i in range(len(xp) - 1):
                if bool(t <= xp[i + 1]):
                    if bool(t == xp[i + 1]):
                        return fp[i + 1]
                    return fp[i] + (t - xp[i]) / (xp[i + 1] - xp[i]) * (fp[i + 1] - fp[i])
            return fp[-1]
        if np.ndim(x) == 0:
            return one(x if not isinstance(x, np.ndarray) else x.item())
        return np.array([one(t) for t in np.asarray(x)], dtype=object)
    return interp


def np_searchsorted(orig):
    def searchsorted(a, v, side='left', sorter=None):
        if not has_sym(np.asarray(a), v):
            return orig(a, v, side, sorter)
        a = np.asarray(a)

        def one(t):
            i = 0
            for e in a:
                if bool(e < t) if side == 'left' else bool(e <= t):
                    i += 1
                else:
                    break
            return i
        if np.ndim(v) == 0:
            return one(v if not isinstance(v, np.ndarray) else v.item())
        return np.array([one(t) for t in np.asarray(v)])
    return searchsorted


def gauss_solve(a, b):
    """Exact elimination over symbolic reals, no pivot search beyond non-zero."""
    a = [list(r) for r in np.asarray(a, dtype=object)]
    b = np.asarray(b, dtype=object)
    vec = b.ndim == 1
    b = [[x] for x in b] if vec else [list(r) for r in b]
    n = len(a)
    if n == 0:
        return np.empty(0, dtype=object) if vec else np.empty((0, 0), dtype=object)
    for c in range(n):
        p = None
        for r in range(c, n):
            e = a[r][c]
            if isinstance(e, Sym) and not core.is_num(e.z):
                if bool(e != 0):
                    p = r
                    break
            elif e != 0:
                p = r
                break
        if p is None:
            raise np.linalg.LinAlgError('Singular matrix')
        a[c], a[p] = a[p], a[c]
        b[c], b[p] = b[p], b[c]
        for r in range(c + 1, n):
            e = a[r][c]
            if not isinstance(e, Sym) and e == 0:
                continue
            m = e / a[c][c]
            a[r] = [x - m * y for x, y in zip(a[r], a[c])]
            b[r] = [x - m * y for x, y in zip(b[r], b[c])]
    xs = [None] * n
    for r in range(n - 1, -1, -1):
        v = b[r]
        for c in range(r + 1, n):
            v = [p - a[r][c] * q for p, q in zip(v, xs[c])]
        xs[r] = [p / a[r][r] for p in v]
    out = np.empty((n, len(xs[0]) if n else 0), dtype=object)
    for i in range(n):
        for j, e in enumerate(xs[i]):
            out[i, j] = e
    return out[:, 0] if vec else out


def np_solve(orig):
    def solve(a, b):
        if object in (np.asarray(a).dtype, np.asarray(b).dtype):
            return gauss_solve(a, b)
        return orig(a, b)
    return solve


def np_norm(orig):
    def norm(x, ord=None, axis=None, keepdims=False):
        xa = np.asarray(x)
        if has_sym(xa) and axis is None and ord in (None, 2):
            s = 0
            for e in xa.flat:
                s = s + e * e
            return Sym(core.lift(s)).sqrt()
        if has_sym(xa) and axis is None and ord == np.inf:
            return np.max(np.abs(xa))
        return orig(x, ord, axis, keepdims)
    return norm


def np_linspace(orig):
    def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
        if not has_sym(start, stop):
            return orig(start, stop, num=num, endpoint=endpoint, retstep=retstep, dtype=dtype, axis=axis)
        num = int(num)
        if num < 0:
            raise ValueError('Number of samples, %s, must be non-negative.' % num)
        start = start.item() if isinstance(start, np.ndarray) and start.shape == () else start
        stop = stop.item() if isinstance(stop, np.ndarray) and stop.shape == () else stop
        if np.ndim(start) or np.ndim(stop):
            raise Unsupported('array linspace')
        div = num - 1 if endpoint else num
        out = np.empty(num, dtype=object)
        for i in range(num):
            out[i] = start + (stop - start) * Fraction(i, div) if div > 0 else start + 0
        if endpoint and num > 1:
            out[-1] = stop
        if retstep:
            return out, ((stop - start) / div if div > 0 else np.nan)
        return out
    return linspace


def np_logspace(orig):
    def logspace(start, stop, num=50, endpoint=True, base=10.0, dtype=None, axis=0):
        if not has_sym(start, stop):
            return orig(start, stop, num=num, endpoint=endpoint, base=base, dtype=dtype, axis=axis)
        y = np.linspace(start, stop, num, endpoint=endpoint)
        out = np.empty(len(y), dtype=object)
        for i, e in enumerate(y):
            out[i] = base ** e
        return out
    return logspace


def np_geomspace(orig):
    def geomspace(start, stop, num=50, endpoint=True, dtype=None, axis=0):
        if not has_sym(start, stop):
            return orig(start, stop, num=num, endpoint=endpoint, dtype=dtype, axis=axis)
        out = np.logspace(np.log10(start), np.log10(stop), num, endpoint=endpoint)
        if num > 0:
            out[0] = start
        if num > 1 and endpoint:
            out[-1] = stop
        return out
    return geomspace


def np_insert(orig):
    def insert(arr, obj, values, axis=None):
        if has_sym(values):
            arr = np.asarray(arr).astype(object)
        return orig(arr, obj, values, axis=axis)
    return insert


def _ufunc(orig, name):
    """numpy's object loop calls a method of that name, which plain floats in the array do not have."""
    def f(x, *a, **k):
        if isinstance(x, np.ndarray) and x.dtype == object:
            out = np.empty(x.shape, dtype=object)
            for i in np.ndindex(*x.shape):
                e = x[i]
                if isinstance(e, Sym):
                    out[i] = abs(e) if name == 'fabs' else getattr(e, name)()
                else:
                    out[i] = orig(float(e))
            return out if x.shape else out[()]
        if isinstance(x, Sym) and name == 'fabs':
            return abs(x)
        return orig(x, *a, **k)
    f.__name__ = name
    return f


def np_array(orig):
    def array(a, dtype=None, *args, **k):
        if dtype in (float, np.float64, 'float', 'float64') and has_sym(a):
            dtype = object
        r = orig(a, dtype, *args, **k)
        if OBJECT_ARRAYS[0] and r.dtype == np.float64 and sys._getframe(1).f_code.co_filename.endswith('beluga/beluga.py'):
            r = r.astype(object)        # constants that may be overwritten with symbolic values
        return r
    array.__name__ = orig.__name__
    return array


def np_max(orig):
    def amax(a, axis=None, *args, **k):
        if has_sym(np.asarray(a)) and not args and not k:
            a = np.asarray(a)
            if axis is None:
                return core.gmax(a.flat)
            a = np.moveaxis(a, axis, 0)
            out = np.empty(a.shape[1:], dtype=object)
            for i in np.ndindex(*a.shape[1:]):
                out[i] = core.gmax(a[(slice(None),) + i])
            return out if out.shape else out[()]
        return orig(a, axis, *args, **k)
    return amax


def np_min(orig):
    def amin(a, axis=None, *args, **k):
        if has_sym(np.asarray(a)) and not args and not k:
            r = np.max(-np.asarray(a), axis)
            return -r
        return orig(a, axis, *args, **k)
    return amin


class PairUfunc:
    """np.maximum / np.minimum without a case split on symbolic entries; everything else is the ufunc's."""

    def __init__(self, orig, sign):
        self.orig, self.sign = orig, sign

    def __call__(self, a, b, *args, **k):
        if not args and not k and has_sym(np.asarray(a), np.asarray(b)):
            a, b = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
            out = np.empty(a.shape, dtype=object)
            for i in np.ndindex(*a.shape):
                out[i] = self.sign * core.gmax([self.sign * a[i], self.sign * b[i]])
            return out if out.shape else out[()]
        return self.orig(a, b, *args, **k)

    def __getattr__(self, name):
        return getattr(self.orig, name)


class SymArray(np.ndarray):
    """result of np.abs on symbolic entries: its max() and min() do not split cases either."""

    def max(self, axis=None, **k):
        return np.max(np.asarray(self), axis, **k)

    def min(self, axis=None, **k):
        return np.min(np.asarray(self), axis, **k)


class AbsUfunc:
    def __init__(self, orig):
        self.orig = orig

    def __call__(self, x, *args, **k):
        r = self.orig(x, *args, **k)
        if isinstance(r, np.ndarray) and r.dtype == object and has_sym(r):
            return r.view(SymArray)
        return r

    def __getattr__(self, name):
        return getattr(self.orig, name)


def _pred(orig, name):
    """isnan/isinf/isfinite on object arrays."""
    def f(x, *a, **k):
        if isinstance(x, Sym):
            return name == 'isfinite'
        if isinstance(x, (list, tuple)) and has_sym(*x):
            x = np.array(x, dtype=object)
        if isinstance(x, np.ndarray) and x.dtype == object:
            out = np.empty(x.shape, dtype=bool)
            for i in np.ndindex(*x.shape):
                out[i] = (name == 'isfinite') if isinstance(x[i], Sym) else bool(orig(float(x[i])))
            return out if out.shape else bool(out)
        return orig(x, *a, **k)
    f.__name__ = name
    return f


def math_isclose(orig):
    def isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
        if not has_sym(a, b, rel_tol, abs_tol):
            return orig(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        d = abs(a - b)
        return (d <= abs_tol) | (d <= rel_tol * abs(a)) | (d <= rel_tol * abs(b))
    return isclose


def np_allclose(orig, reduce):
    def f(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        a1, b1 = np.asarray(a), np.asarray(b)
        if not (a1.dtype == object or b1.dtype == object):
            return orig(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)
        a1, b1 = np.broadcast_arrays(a1, b1)
        out = np.empty(a1.shape, dtype=object)
        for i in np.ndindex(*a1.shape):
            out[i] = abs(a1[i] - b1[i]) <= atol + rtol * abs(b1[i])
        if reduce:
            r = True
            for v in out.flat:
                r = v & r if isinstance(v, SymBool) else (r if v else False)
            return r
        return out if out.shape else out[()]
    return f


OBJECT_ARRAYS = [False]


def _alloc(orig, pos=1):
    def f(*a, **k):
        if OBJECT_ARRAYS[0]:
            fr = sys._getframe(1)
            if '/repo/' in fr.f_code.co_filename or 'beluga' in fr.f_code.co_filename:
                dt = k.get('dtype', a[pos] if len(a) > pos else None)
                if dt is None or dt in (float, np.float64):
                    k['dtype'] = object
                    a = a[:pos]
                    r = orig(*a, **k)
                    if orig.__name__ in ('full', 'full_like'):
                        return r
                    if orig.__name__ in ('empty', 'empty_like'):
                        r.fill(0.0)
                    else:
                        r = r * 1.0 if r.dtype != object else r
                        for i in np.ndindex(*r.shape):
                            r[i] = float(r[i])
                    return r
        return orig(*a, **k)
    f.__name__ = orig.__name__
    return f


_installed = False


def install():
    """Install the stubs.  Call before beluga is imported."""
    global _installed
    if _installed:
        return
    _installed = True
    import scipy.interpolate
    import scipy.integrate
    import scipy.integrate._quadrature as q

    import sympy
    import sympy.utilities.lambdify
    sl = sys.modules['sympy.utilities.lambdify']
    sympy.lambdify([sympy.Symbol('x')], sympy.sin(sympy.Symbol('x')), ['numpy', 'math'])
    for ns in (sl.NUMPY, sl.MATH):
        ns['pi'] = core.PI

    # validate the Simpson restatement against scipy itself
    rs = np.random.RandomState(3)
    for n in (1, 2, 3, 4, 5, 6, 7):
        xs = np.cumsum(0.1 + rs.rand(n))
        ys = rs.rand(3, n)
        if n > 1:
            assert np.allclose(np.asarray(simpson_exact(ys, x=xs), dtype=float), scipy.integrate.simpson(ys, x=xs)), n

    scipy.interpolate.interp1d = make_interp1d(scipy.interpolate.interp1d)
    s = make_simpson(scipy.integrate.simpson)
    scipy.integrate.simpson = s
    q.simpson = s
    np.interp = np_interp(np.interp)
    np.searchsorted = np_searchsorted(np.searchsorted)
    np.linspace = np_linspace(np.linspace)
    np.logspace = np_logspace(np.logspace)
    np.geomspace = np_geomspace(np.geomspace)
    for name in ('fabs', 'sqrt', 'exp', 'log', 'log10', 'sin', 'cos'):
        setattr(np, name, _ufunc(getattr(np, name), name))
    for name in ('isnan', 'isinf', 'isfinite'):
        setattr(np, name, _pred(getattr(np, name), name))
    import math
    math.isclose = math_isclose(math.isclose)
    np.allclose, np.isclose = np_allclose(np.allclose, True), np_allclose(np.isclose, False)
    np.max = np.amax = np_max(np.max)
    np.min = np.amin = np_min(np.min)
    np.maximum, np.minimum = PairUfunc(np.maximum, 1), PairUfunc(np.minimum, -1)
    np.abs = np.absolute = AbsUfunc(np.absolute)
    np.insert = np_insert(np.insert)
    for name in ('array', 'asarray'):
        setattr(np, name, np_array(getattr(np, name)))
    np.linalg.solve = np_solve(np.linalg.solve)
    np.linalg.norm = np_norm(np.linalg.norm)
    for name in ('zeros', 'ones', 'empty', 'zeros_like', 'ones_like', 'empty_like'):
        setattr(np, name, _alloc(getattr(np, name)))
    for name in ('full', 'full_like'):
        setattr(np, name, _alloc(getattr(np, name), pos=2))
    np.eye = _alloc(np.eye, pos=3)
