"""numpy arrays of symbolic scalars and replacements of library functions.

``SymArray`` is an object array whose numpy functions are redirected to
symbolic implementations.  ``install()`` additionally wraps functions of
numpy, scipy and math: calls with symbolic arguments are served by the
symbolic implementation, all other calls by the original function.
"""
import cmath
import math
import sys

import numpy as np

from symrf import engine as E
from symrf.engine import (SymReal, SymComplex, SymBool, is_sym, s_max, s_min,
                          s_abs, s_and, s_or, s_not, Unsupported)

_nd = np.ndarray
_obj = np.dtype(object)
# originals, kept before patching
_np_array = np.array
_np_asarray = np.asarray
_np_zeros = np.zeros
_np_empty = np.empty
_np_concatenate = np.concatenate
_np_vstack = np.vstack
_np_stack = np.stack
_np_roll = np.roll
_np_nonzero = np.nonzero
_np_atleast_1d = np.atleast_1d
_np_moveaxis = np.moveaxis
_np_expand_dims = np.expand_dims
_np_broadcast_arrays = np.broadcast_arrays
_np_where = np.where
_np_abs = np.abs
_np_eye = np.eye
_np_ones = np.ones
_np_arange = np.arange
_np_sign = np.sign
_np_isfinite = np.isfinite


def _accum(a, axis=0):
    return np.add.accumulate(a, axis=axis)


def has_sym(x, depth=0):
    if isinstance(x, (SymReal, SymComplex, SymBool)):
        return True
    if isinstance(x, SymArray):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == _obj and any(has_sym(v) for v in x.flat)
    if isinstance(x, (list, tuple)) and depth < 3:
        return any(has_sym(v, depth + 1) for v in x)
    return False


def wrap(x):
    """return x as SymArray if it is an array, or scalar"""
    if isinstance(x, np.ndarray) and not isinstance(x, np.ma.MaskedArray):
        if x.ndim == 0:
            return x.item() if x.dtype == _obj else x
        if not isinstance(x, SymArray):
            return x.astype(object).view(SymArray)
    return x


def objarr(x):
    """object ndarray (base class) of possibly nested data"""
    if isinstance(x, np.ndarray):
        return _np_asarray(x).view(_nd).astype(object)
    if is_sym(x):
        r = _np_empty((), dtype=object)
        r[()] = x
        return r
    if isinstance(x, (list, tuple)) or hasattr(x, '__iter__'):
        items = [objarr(v) for v in x]
        if not items:
            return _np_zeros(0, dtype=object)
        r = _np_empty((len(items),) + items[0].shape, dtype=object)
        for i, v in enumerate(items):
            r[i] = v if v.ndim else v.item()
        return r
    return _np_array(x, dtype=object)


def _map(f, *args):
    arrs = [objarr(a) for a in args]
    b = np.broadcast(*arrs)
    if b.shape == ():
        return f(*[a.item() for a in arrs])
    out = _np_empty(b.shape, dtype=object)
    out_flat = out.reshape(-1)
    for i, vals in enumerate(b):
        out_flat[i] = f(*vals)
    return out_flat.reshape(b.shape).view(SymArray)


def _isnan1(x):
    if isinstance(x, (SymReal, SymBool)):
        return False
    if isinstance(x, SymComplex):
        return any(isinstance(v, float) and math.isnan(v)
                   for v in (x.real, x.imag))
    if isinstance(x, complex):
        return cmath.isnan(x)
    return math.isnan(x)


def boolarr(x):
    """force the truth values of an array"""
    a = objarr(x)
    if a.shape == ():
        return bool(a.item())
    r = _np_zeros(a.shape, dtype=bool)
    rf = r.reshape(-1)
    for i, v in enumerate(a.flat):
        rf[i] = bool(v)
    return r


def tofloat(x):
    """object array without symbols -> float array"""
    a = objarr(x)
    if any(isinstance(v, (complex, np.complexfloating)) for v in a.flat):
        return a.astype(complex)
    return a.astype(float)


def nosym(x):
    return not has_sym_deep(x)


def has_sym_deep(x):
    if is_sym(x):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == _obj and any(is_sym(v) for v in x.flat)
    if isinstance(x, (list, tuple)):
        return any(has_sym_deep(v) for v in x)
    return False


# ---------------------------------------------------------------------------
# symbolic implementations

def sym_isnan(x, *a, **k):
    a = objarr(x)
    if a.shape == ():
        return _isnan1(a.item())
    r = _np_zeros(a.shape, dtype=bool)
    r.reshape(-1)[:] = [_isnan1(v) for v in a.flat]
    return r


def sym_isfinite(x, *a, **k):
    def f(v):
        if isinstance(v, (SymReal, SymBool)):
            return True
        if isinstance(v, SymComplex):
            return f(v.real) and f(v.imag)
        return bool(_np_isfinite(complex(v)))
    a = objarr(x)
    if a.shape == ():
        return f(a.item())
    r = _np_zeros(a.shape, dtype=bool)
    r.reshape(-1)[:] = [f(v) for v in a.flat]
    return r


def _u_sqrt(v):
    if isinstance(v, SymReal):
        return E.s_sqrt(v)
    return math.sqrt(v) if v >= 0 else math.nan


def _max2(a, b):
    if isinstance(a, SymReal) or isinstance(b, SymReal):
        if _isnan1(a) or _isnan1(b):
            return math.nan
        return s_max([a, b])
    if isinstance(a, SymComplex) or isinstance(b, SymComplex):
        return a if SymComplex.of(a) >= b else b
    return a if a >= b or _isnan1(a) else b


def _min2(a, b):
    if isinstance(a, SymReal) or isinstance(b, SymReal):
        if _isnan1(a) or _isnan1(b):
            return math.nan
        return s_min([a, b])
    return a if a <= b or _isnan1(a) else b


def _bool_not(v):
    return s_not(v)


def _mod(a, b):
    return a % b


UFUNCS = {
    'sqrt': _u_sqrt,
    'absolute': s_abs, 'fabs': s_abs,
    'maximum': _max2, 'minimum': _min2, 'fmax': _max2, 'fmin': _min2,
    'isnan': _isnan1,
    'logical_not': _bool_not,
    'logical_and': lambda a, b: s_and(a, b),
    'logical_or': lambda a, b: s_or(a, b),
    'bitwise_and': lambda a, b: s_and(a, b),
    'bitwise_or': lambda a, b: s_or(a, b),
    'invert': _bool_not,
    'add': lambda a, b: a + b, 'subtract': lambda a, b: a - b,
    'multiply': lambda a, b: a * b,
    'true_divide': lambda a, b: _fdiv(a, b),
    'divide': lambda a, b: _fdiv(a, b),
    'floor_divide': lambda a, b: a // b,
    'remainder': _mod,
    'negative': lambda a: -a, 'positive': lambda a: +a,
    'power': lambda a, b: a ** b,
    'float_power': lambda a, b: a ** b,
    'square': lambda a: a * a,
    'reciprocal': lambda a: _fdiv(1., a),
    'less': lambda a, b: a < b, 'less_equal': lambda a, b: a <= b,
    'greater': lambda a, b: a > b, 'greater_equal': lambda a, b: a >= b,
    'equal': lambda a, b: a == b, 'not_equal': lambda a, b: s_not(a == b),
    'conjugate': lambda a: a.conjugate(),
    'cos': lambda a: a.cos() if is_sym(a) else math.cos(a),
    'sin': lambda a: a.sin() if is_sym(a) else math.sin(a),
    'exp': lambda a: (E.s_exp(a) if isinstance(a, SymReal) else
                      a.exp() if isinstance(a, SymComplex) else
                      cmath.exp(a) if isinstance(a, complex) else math.exp(a)),
    'radians': lambda a: a * (math.pi / 180),
    'deg2rad': lambda a: a * (math.pi / 180),
    'degrees': lambda a: a * (180 / math.pi),
    'rad2deg': lambda a: a * (180 / math.pi),
    'floor': lambda a: float(math.floor(a)),
    'ceil': lambda a: float(math.ceil(a)),
    'rint': lambda a: float(round(a)),
    'trunc': lambda a: float(math.trunc(a)),
    'sign': lambda a: (a.sign() if is_sym(a) else float(_np_sign(a))),
    'hypot': lambda a, b: _u_sqrt(a * a + b * b),
}


def _fdiv(a, b):
    if not is_sym(b) and not isinstance(b, np.ndarray) and b == 0:
        if is_sym(a):
            return a / b if isinstance(a, SymReal) else complex('nan')
        with np.errstate(all='ignore'):
            return np.float64(a) / np.float64(b) if not isinstance(
                a, complex) else np.complex128(a) / b
    return a / b


REDUCE_INIT = {'add': 0, 'multiply': 1}


def _reduce(name, arr, axis, initial=None, keepdims=False):
    a = objarr(arr)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    if isinstance(axis, tuple):
        if len(axis) == a.ndim:
            a = a.reshape(-1)
            axis = 0
        elif len(axis) == 1:
            axis = axis[0]
        else:
            raise Unsupported('reduce over several axes')
    a = _np_moveaxis(a, axis, 0)

    def red(vals):
        vals = list(vals)
        if name in ('maximum', 'fmax'):
            if any(isinstance(v, (SymComplex, complex)) for v in vals):
                m = vals[0]
                for v in vals[1:]:
                    m = _max2(m, v)
                return m
            return s_max(vals)
        if name in ('minimum', 'fmin'):
            return s_min(vals)
        if name == 'logical_and':
            return s_and(*vals)
        if name == 'logical_or':
            return s_or(*vals)
        f = UFUNCS[name]
        if initial is not None:
            vals = [initial] + vals
        if not vals:
            return REDUCE_INIT.get(name, 0.)
        m = vals[0]
        for v in vals[1:]:
            m = f(m, v)
        return m

    if name in ('maximum', 'minimum') and a.shape[0] == 0:
        raise ValueError('zero-size array to reduction operation')
    if a.ndim == 1:
        r = red(a)
        if keepdims:
            o = _np_empty(1, dtype=object)
            o[0] = r
            return o.view(SymArray)
        return r
    out = _np_empty(a.shape[1:], dtype=object)
    of = out.reshape(-1)
    af = a.reshape(a.shape[0], -1)
    for i in range(af.shape[1]):
        of[i] = red(af[:, i])
    if keepdims:
        out = _np_expand_dims(out, axis)
    return out.view(SymArray)


class SymArray(np.ndarray):
    """object array with symbolic scalars"""

    def __array_finalize__(self, obj):
        pass

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, where=True,
                        **kw):
        name = ufunc.__name__
        if E.ENGINE is None and False:
            pass
        if method == 'reduce':
            r = _reduce(name, inputs[0], kw.get('axis', 0),
                        kw.get('initial') if kw.get('initial') is not
                        np._NoValue else None, kw.get('keepdims', False))
            if out is not None and out[0] is not None:
                out[0][...] = r
                return out[0]
            return r
        if method == 'accumulate':
            a = objarr(inputs[0])
            axis = kw.get('axis', 0)
            a = _np_moveaxis(a, axis, 0)
            o = _np_empty(a.shape, dtype=object)
            f = UFUNCS[name]
            for i in range(a.shape[0]):
                o[i] = a[i] if i == 0 else _map(f, o[i - 1], a[i])
            return _np_moveaxis(o, 0, axis).view(SymArray)
        if method == 'outer':
            a, b = objarr(inputs[0]), objarr(inputs[1])
            return _map(UFUNCS[name], a.reshape(a.shape + (1,) * b.ndim), b)
        if method == 'at' or method == 'reduceat':
            raise Unsupported('ufunc.' + method)
        if name == 'matmul':
            return sym_dot(*inputs)
        if name in ('isnan', 'isfinite'):
            return (sym_isnan if name == 'isnan' else sym_isfinite)(inputs[0])
        if name == 'isinf':
            return ~(sym_isfinite(inputs[0]) | sym_isnan(inputs[0]))
        f = UFUNCS.get(name)
        if f is None:
            if nosym(inputs):
                return getattr(ufunc, method)(*[tofloat(i) for i in inputs])
            raise Unsupported('ufunc ' + name)
        r = _map(f, *inputs)
        if where is not True:
            w = boolarr(where)
            if out is None:
                raise Unsupported('ufunc where without out')
            o = out[0]
            rr = objarr(r)
            rr, ww = _np_broadcast_arrays(rr, w)
            for idx in np.ndindex(o.shape):
                if ww[idx]:
                    o[idx] = rr[idx]
            return o
        if out is not None:
            o = out[0]
            if o.dtype != _obj and has_sym_deep(r):
                raise Unsupported('symbolic values into numeric array')
            o[...] = objarr(r).view(_nd)
            return o
        return r

    def __array_function__(self, func, types, args, kwargs):
        h = FUNCTIONS.get(getattr(func, '__name__', None))
        if h is not None:
            return h(*args, **kwargs)
        if nosym(args) and nosym(list(kwargs.values())) and E.ENGINE is None:
            pass
        # generic: run on base-class object arrays (works for shape functions)
        r = func(*_strip(args), **{k: _strip(v) for k, v in kwargs.items()})
        return _rewrap(r)

    # attributes
    @property
    def real(self):
        return _map(lambda v: v.real, self)

    @property
    def imag(self):
        return _map(lambda v: v.imag, self)

    def conj(self):
        return _map(lambda v: v.conjugate(), self)
    conjugate = conj

    def astype(self, dtype, *a, **k):
        dt = np.dtype(dtype)
        if dt == bool:
            return boolarr(self)
        if dt.kind in 'iu':
            return _map(int, self)
        if dt.kind in 'fcO':
            return self.copy()
        return np.ndarray.astype(self.view(_nd), dtype)

    def max(self, axis=None, out=None, **k):
        return _reduce('maximum', self, axis)

    def min(self, axis=None, out=None, **k):
        return _reduce('minimum', self, axis)

    def sum(self, axis=None, dtype=None, out=None, **k):
        return _reduce('add', self, axis)

    def prod(self, axis=None, dtype=None, out=None, **k):
        return _reduce('multiply', self, axis)

    def mean(self, axis=None, dtype=None, out=None, **k):
        return sym_mean(self, axis)

    def std(self, axis=None, **k):
        return sym_std(self, axis)

    def argmax(self, axis=None, out=None, **k):
        return sym_argmax(self)

    def argmin(self, axis=None, out=None, **k):
        return sym_argmax(-self)

    def argsort(self, *a, **k):
        return sym_argsort(self)

    def any(self, axis=None, **k):
        return bool(s_or(*list(objarr(self).flat)))

    def all(self, axis=None, **k):
        return bool(s_and(*list(objarr(self).flat)))

    def nonzero(self):
        return boolarr(self).nonzero()

    def dot(self, o):
        return sym_dot(self, o)

    def round(self, decimals=0, out=None):
        if decimals:
            return self.copy()
        return _map(lambda v: float(round(v)), self)

    def clip(self, min=None, max=None, **k):
        r = self
        if min is not None:
            r = np.maximum(r, min)
        if max is not None:
            r = np.minimum(r, max)
        return r

    def cumsum(self, axis=None, **k):
        return _accum(self if self.ndim == 1 else self.reshape(-1))

    def tolist(self):
        return self.view(_nd).tolist()

    def __getitem__(self, i):
        i = _fix_index(i)
        r = np.ndarray.__getitem__(self, i)
        return r

    def __setitem__(self, i, v):
        i = _fix_index(i)
        if isinstance(v, np.ndarray):
            v = v.view(_nd)
        elif isinstance(v, (list, tuple)):
            v = objarr(v)
        np.ndarray.__setitem__(self.view(_nd), i, v)

    def __matmul__(self, o):
        return sym_dot(self, o)

    def __rmatmul__(self, o):
        return sym_dot(o, self)

    def __deepcopy__(self, memo):
        return self.copy()

    def copy(self, order='C'):
        r = _np_empty(self.shape, dtype=object)
        r[...] = self.view(_nd)
        return r.view(SymArray)

    def __repr__(self):
        return '<symarray %s>' % (self.shape,)
    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __reduce__(self):
        raise Unsupported('pickle of symbolic array')


def _fix_index(i):
    if isinstance(i, tuple):
        return tuple(_fix_index(j) for j in i)
    if isinstance(i, SymBool):
        return bool(i)
    if isinstance(i, np.ndarray) and i.dtype == _obj:
        v = [x for x in i.flat]
        if v and all(isinstance(x, (SymBool, bool, np.bool_)) for x in v):
            return boolarr(i)
        return i.view(_nd).astype(int)
    return i


def _strip(x):
    if isinstance(x, SymArray):
        return x.view(_nd)
    if isinstance(x, tuple):
        return tuple(_strip(v) for v in x)
    if isinstance(x, list):
        return [_strip(v) for v in x]
    return x


def _rewrap(r):
    if isinstance(r, np.ndarray) and r.dtype == _obj:
        return r.view(SymArray)
    if isinstance(r, tuple):
        return tuple(_rewrap(v) for v in r)
    if isinstance(r, list):
        return [_rewrap(v) for v in r]
    return r


# ---------------------------------------------------------------------------
# functions

def sym_mean(a, axis=None, dtype=None, out=None, **k):
    arr = objarr(a)
    n = arr.size if axis is None else arr.shape[axis]
    s = _reduce('add', arr, axis)
    return s / float(n)


def sym_average(a, axis=None, weights=None, **k):
    if weights is None:
        return sym_mean(a, axis)
    arr = objarr(a)
    w = objarr(weights)
    if axis in (None, 0) and w.ndim == 1:
        ws = w.reshape((-1,) + (1,) * (arr.ndim - 1))
        return _reduce('add', _map(lambda x, y: x * y, arr, ws), 0) / \
            _reduce('add', w, 0)
    raise Unsupported('average')


def sym_std(a, axis=None, **k):
    arr = objarr(a).reshape(-1)
    m = sym_mean(arr)
    return _u_sqrt(sym_mean(_map(lambda v: (v - m) * (v - m), arr)))


def sym_sum(a, axis=None, dtype=None, out=None, **k):
    if not isinstance(a, np.ndarray) and hasattr(a, '__next__'):
        a = list(a)
    return _reduce('add', a, axis)


def sym_max(a, axis=None, out=None, **k):
    return _reduce('maximum', a, axis)


def sym_min(a, axis=None, out=None, **k):
    return _reduce('minimum', a, axis)


def sym_ptp(a, axis=None, **k):
    return sym_max(a) - sym_min(a)


def sym_argmax(a, axis=None, out=None, **k):
    arr = list(objarr(a).reshape(-1))
    best = 0
    # first index i with a[i] > all before and >= all after
    for i in range(len(arr)):
        c = s_and(*([arr[j] < arr[i] for j in range(i)] +
                    [arr[j] <= arr[i] for j in range(i + 1, len(arr))]))
        if i == len(arr) - 1 or bool(c):
            return i
    return best


def sym_argsort(a, axis=-1, kind=None, order=None, **k):
    import functools
    arr = list(objarr(a))

    def cmp(i, j):
        return -1 if arr[i] < arr[j] else (1 if arr[j] < arr[i] else 0)
    return _np_array(sorted(range(len(arr)), key=functools.cmp_to_key(cmp)))


def sym_sort(a, axis=-1, **k):
    arr = objarr(a)
    return arr[sym_argsort(arr)].view(SymArray)


def sym_cumsum(a, axis=None, dtype=None, out=None):
    arr = objarr(a)
    if axis is None:
        arr = arr.reshape(-1)
        axis = 0
    return _accum(arr.view(SymArray), axis=axis)


def sym_diff(a, n=1, axis=-1, **k):
    arr = objarr(a).view(SymArray)
    for _ in range(n):
        arr = arr[1:] - arr[:-1]
    return arr


def sym_interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported('interp period')
    xs = objarr(x)
    xp = list(objarr(xp))
    fp = list(objarr(fp))
    n = len(xp)
    if n == 0:
        raise ValueError('array of sample points is empty')
    if len(fp) != n:
        raise ValueError('fp and xp are not of the same length.')
    lval = fp[0] if left is None else left
    rval = fp[-1] if right is None else right
    last = [0]

    def one(v):
        if _isnan1(v):
            return v
        if v > xp[-1]:
            return rval
        if n == 1:
            return lval if v < xp[0] else (rval if v > xp[0] else fp[0])
        if v < xp[0]:
            return lval
        # find j with xp[j] <= v < xp[j+1], starting at last position
        j = min(last[0], n - 1)
        while j < n - 1 and xp[j + 1] <= v:
            j += 1
        while j > 0 and xp[j] > v:
            j -= 1
        last[0] = j
        if j == n - 1:
            return fp[j]
        if not is_sym(v) and not is_sym(xp[j]) and xp[j] == v:
            return fp[j]
        return fp[j] + (fp[j + 1] - fp[j]) / (xp[j + 1] - xp[j]) * (v - xp[j])
    return _map(one, xs)


def sym_searchsorted(a, v, side='left', sorter=None):
    arr = list(objarr(a))

    def one(x):
        lo, hi = 0, len(arr)
        while lo < hi:
            mid = (lo + hi) // 2
            c = arr[mid] < x if side == 'left' else arr[mid] <= x
            if c:
                lo = mid + 1
            else:
                hi = mid
        return lo
    vv = objarr(v)
    if vv.ndim == 0:
        return one(vv.item())
    return _np_array([one(x) for x in vv.flat], dtype=int).reshape(vv.shape)


def sym_digitize(x, bins, right=False):
    return sym_searchsorted(bins, x, side='left' if right else 'right')


def sym_where(cond, x=None, y=None):
    c = boolarr(cond)
    if x is None:
        return _np_nonzero(c)
    return _map(lambda b, u, v: u if b else v, c, x, y)


def sym_nonzero(a):
    return boolarr(a).nonzero()


def sym_flatnonzero(a):
    return boolarr(a).ravel().nonzero()[0]


def sym_any(a, axis=None, **k):
    return bool(s_or(*list(objarr(a).flat)))


def sym_all(a, axis=None, **k):
    return bool(s_and(*list(objarr(a).flat)))


def sym_count_nonzero(a, axis=None, **k):
    return int(boolarr(a).sum())


def sym_dot(a, b, out=None):
    a, b = objarr(a), objarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return _map(lambda x, y: x * y, a, b)
    A = a if a.ndim == 2 else a.reshape(1, -1)
    B = b if b.ndim == 2 else b.reshape(-1, 1)
    o = _np_empty((A.shape[0], B.shape[1]), dtype=object)
    for i in range(A.shape[0]):
        for j in range(B.shape[1]):
            s = 0.
            for k in range(A.shape[1]):
                s = s + A[i, k] * B[k, j]
            o[i, j] = s
    if a.ndim == 1 and b.ndim == 1:
        return o[0, 0]
    if a.ndim == 1:
        o = o[0]
    elif b.ndim == 1:
        o = o[:, 0]
    return o.view(SymArray)


def sym_convolve(a, v, mode='full', **k):
    a, v = list(objarr(a)), list(objarr(v))
    n, m = len(a), len(v)
    full = []
    for i in range(n + m - 1):
        s = 0.
        for j in range(max(0, i - m + 1), min(n, i + 1)):
            s = s + a[j] * v[i - j]
        full.append(s)
    if mode == 'full':
        r = full
    elif mode == 'valid':
        lo = min(n, m) - 1
        r = full[lo:max(n, m)]
    else:
        ln = max(n, m) if True else n
        st = (len(full) - ln) // 2
        r = full[st:st + ln]
    return objarr(r).view(SymArray)


def _conj(v):
    return v.conjugate() if hasattr(v, 'conjugate') else v


def sym_np_correlate(a, v, mode='valid'):
    a, v = list(objarr(a)), list(objarr(v))
    return sym_convolve(a, [_conj(x) for x in v[::-1]], mode)


def sym_sp_correlate(in1, in2, mode='full', method='auto'):
    a, v = list(objarr(in1)), list(objarr(in2))
    if mode == 'valid' and len(v) > len(a):
        full = sym_convolve(a, [_conj(x) for x in v[::-1]], 'full')
        lo = min(len(a), len(v)) - 1
        return full[lo:max(len(a), len(v))]
    if mode == 'same':
        full = sym_convolve(a, [_conj(x) for x in v[::-1]], 'full')
        st = (len(full) - len(a)) // 2
        return full[st:st + len(a)]
    return sym_convolve(a, [_conj(x) for x in v[::-1]], mode)


_TW = {}


def _twiddle(k, n):
    """exp(2 pi i k / n), exact for multiples of 90 degree"""
    k = k % n
    r = _TW.get((k, n))
    if r is None:
        if (4 * k) % n == 0:
            r = [(1., 0.), (0., 1.), (-1., 0.), (0., -1.)][4 * k // n]
        else:
            a = 2 * math.pi * k / n
            c, s = math.cos(a), math.sin(a)
            if (12 * k) % n == 0:    # multiples of 30 degree
                c = round(2 * c) / 2 if abs(2 * c - round(2 * c)) < 1e-9 else c
                s = round(2 * s) / 2 if abs(2 * s - round(2 * s)) < 1e-9 else s
            r = (c, s)
        _TW[(k, n)] = r
    return r


def _dft(x, n, sign, scale):
    xs = [SymComplex.of(v) for v in x[:n]]
    xs += [SymComplex(0., 0.)] * (n - len(xs))
    out = _np_empty(n, dtype=object)
    for k in range(n):
        re, im = 0., 0.
        for j, v in enumerate(xs):
            c, s = _twiddle(j * k, n)
            s = s * sign
            # skip products with zero so that exact zeros stay exact
            if c:
                re = re + v.real * c
                im = im + v.imag * c
            if s:
                re = re - v.imag * s
                im = im + v.real * s
        if scale != 1:
            re, im = re * scale, im * scale
        out[k] = SymComplex(re, im)
    return out.view(SymArray)


def _along_last(f, x):
    a = objarr(x)
    if a.ndim == 1:
        return f(list(a))
    out = [_along_last(f, v) for v in a]
    return objarr(out).view(SymArray)


def sym_fft(x, n=None, axis=-1, *a, **k):
    from fractions import Fraction
    return _along_last(lambda v: _dft(v, n or len(v), -1, 1), x)


def sym_ifft(x, n=None, axis=-1, *a, **k):
    from fractions import Fraction
    return _along_last(lambda v: _dft(v, n or len(v), 1,
                                      Fraction(1, n or len(v))), x)


def sym_rfft(x, n=None, axis=-1, *a, **k):
    return _along_last(
        lambda v: _dft(v, n or len(v), -1, 1)[:(n or len(v)) // 2 + 1], x)


def sym_irfft(x, n=None, axis=-1, *a, **k):
    from fractions import Fraction

    def f(v):
        m = n or 2 * (len(v) - 1)
        v = [SymComplex.of(c) for c in v[:m // 2 + 1]]
        v += [SymComplex(0., 0.)] * (m // 2 + 1 - len(v))
        v[0] = SymComplex(v[0].real, 0.)
        if m % 2 == 0:
            v[-1] = SymComplex(v[-1].real, 0.)
        full = v + [c.conjugate() for c in v[1:(m + 1) // 2][::-1]]
        return _dft(full, m, 1, Fraction(1, m)).real
    return _along_last(f, x)


def sym_real(x):
    return _map(lambda v: v.real, x)


def sym_imag(x):
    return _map(lambda v: v.imag, x)


def sym_solve(A, b, *a, **k):
    """linear system; exact elimination if A is concrete, else by contract"""
    A = objarr(A)
    n = A.shape[0]
    bb = objarr(b)
    if has_sym_deep(A):
        cols = bb.reshape(n, -1)
        res = []
        for c in range(cols.shape[1]):
            xs = [E.ENGINE.fresh('sol') for _ in range(n)]
            for i in range(n):
                s = 0.
                for j in range(n):
                    s = s + A[i, j] * xs[j]
                eq = (s - cols[i, c])
                eq = eq == 0
                if isinstance(eq, SymBool):
                    E.ENGINE.add(eq.z)
                elif not eq:
                    raise E.PathAbort('singular')
            res.append(xs)
        E.ENGINE.note('linear system solved by contract')
        r = objarr(res).T
        return r.reshape(bb.shape).view(SymArray)
    from fractions import Fraction
    M = [[E.to_frac(A[i, j]) for j in range(n)] for i in range(n)]
    X = [[v for v in row] for row in bb.reshape(n, -1)]
    X = [list(r) for r in X]
    for i in range(n):
        p = max(range(i, n), key=lambda r: abs(M[r][i]))
        if M[p][i] == 0:
            raise np.linalg.LinAlgError('Singular matrix')
        M[i], M[p] = M[p], M[i]
        X[i], X[p] = X[p], X[i]
        for r in range(n):
            if r != i and M[r][i] != 0:
                f = M[r][i] / M[i][i]
                M[r] = [a - f * b for a, b in zip(M[r], M[i])]
                X[r] = [a - b * f for a, b in zip(X[r], X[i])]
    for i in range(n):
        X[i] = [v / M[i][i] if is_sym(v) else E.to_frac(v) / M[i][i]
                for v in X[i]]
        X[i] = [v if is_sym(v) else float(v) for v in X[i]]
    return objarr(X).reshape(bb.shape).view(SymArray)


def sym_solve_toeplitz(c_or_cr, b, check_finite=True):
    if isinstance(c_or_cr, tuple):
        c, r = c_or_cr
        c, r = list(objarr(c)), list(objarr(r))
    else:
        c = list(objarr(c_or_cr))
        r = [_conj(v) for v in c]
    n = len(c)
    A = [[c[i - j] if i >= j else r[j - i] for j in range(n)]
         for i in range(n)]
    return sym_solve(A, b)


# solver for symbolic matrices (provided by a harness)
LSTSQ = [None]


def sym_lstsq(a, b, rcond='warn', *args, **k):
    A = objarr(a)
    if has_sym_deep(A):
        if LSTSQ[0] is not None:
            return LSTSQ[0](A, objarr(b))
        raise Unsupported('lstsq with symbolic matrix')
    A = A.astype(float)
    P = np.linalg.pinv(A)
    bb = objarr(b)
    P = _np_where(_np_abs(P) < 1e-14, 0., P)
    x = sym_dot(P, bb)
    res = sym_dot(A, x)
    return x, res, int(np.linalg.matrix_rank(A)), \
        np.linalg.svd(A, compute_uv=False)


def sym_inv(a):
    A = objarr(a)
    n = A.shape[0]
    return sym_solve(A, _np_eye(n).astype(object))


def sym_detrend(data, axis=-1, type='linear', bp=0, overwrite_data=False):
    arr = objarr(data)
    if arr.ndim != 1:
        raise Unsupported('detrend nd')
    n = len(arr)
    if type in ('constant', 'c'):
        m = sym_mean(arr)
        return _map(lambda v: v - m, arr)
    A = _np_ones((n, 2))
    A[:, 0] = _np_arange(1, n + 1) / n
    c = sym_dot(np.linalg.pinv(A), arr)
    return arr.view(SymArray) - sym_dot(A, c)


def sym_sosfilt(sos, x, axis=-1, zi=None):
    """second order sections, direct form II transposed"""
    arr = objarr(x)
    if arr.ndim != 1 or zi is not None:
        raise Unsupported('sosfilt nd')
    out = list(arr)
    for b0, b1, b2, a0, a1, a2 in _np_asarray(sos, dtype=float):
        z1 = z2 = 0.
        for i, v in enumerate(out):
            y = v * b0 + z1
            z1 = v * b1 - y * a1 + z2
            z2 = v * b2 - y * a2
            out[i] = y
    return objarr(out).view(SymArray)


def sym_concatenate(arrs, axis=0, **k):
    arrs = [objarr(a) for a in arrs]
    return _np_concatenate(arrs, axis=axis).view(SymArray)


def sym_hstack(arrs, **k):
    arrs = [_np_atleast_1d(objarr(a)) for a in arrs]
    return _np_concatenate(arrs, axis=0 if arrs[0].ndim == 1 else 1
                          ).view(SymArray)


def sym_vstack(arrs, **k):
    return _np_vstack([objarr(a) for a in arrs]).view(SymArray)


def sym_stack(arrs, axis=0, **k):
    return _np_stack([objarr(a) for a in arrs], axis=axis).view(SymArray)


def sym_array(x, dtype=None, *a, **k):
    r = objarr(x)
    if r.shape == ():
        return r.item()
    if dtype is not None and np.dtype(dtype) == bool:
        return boolarr(r)
    if r is x:
        r = r.copy()
    return r.view(SymArray)


def sym_asarray(x, dtype=None, *a, **k):
    if isinstance(x, SymArray):
        if dtype is not None and np.dtype(dtype) == bool:
            return boolarr(x)
        return x
    return sym_array(x, dtype)


def sym_copy(x, *a, **k):
    return sym_array(x).copy()


def sym_linspace(start, stop, num=50, endpoint=True, retstep=False, **k):
    num = int(num)
    div = (num - 1) if endpoint else num
    d = (stop - start)
    vals = []
    for i in range(num):
        if div == 0:
            vals.append(start)
        elif endpoint and i == num - 1 and num > 1:
            vals.append(stop)
        else:
            from fractions import Fraction
            vals.append(start + d * Fraction(i, div) if is_sym(d) else
                        start + d * i / div)
    return objarr(vals).view(SymArray) if vals else \
        _np_zeros(0, dtype=object).view(SymArray)


def sym_arange(*args, **k):
    dtype = k.pop('dtype', None)
    args = list(args)
    if len(args) == 1:
        start, stop, step = 0, args[0], 1
    elif len(args) == 2:
        (start, stop), step = args, k.get('step', 1)
    else:
        start, stop, step = args[:3]
    n = math.ceil((stop - start) / step)
    return objarr([start + step * i for i in range(max(0, n))]).view(SymArray)


def sym_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        if _isnan1(x) or _isnan1(y):
            return equal_nan and _isnan1(x) and _isnan1(y)
        return s_abs(x - y) <= atol + rtol * s_abs(y)
    return _map(f, a, b)


def sym_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return sym_all(sym_isclose(a, b, rtol, atol, equal_nan))


def sym_array_equal(a, b, **k):
    a, b = objarr(a), objarr(b)
    return a.shape == b.shape and sym_all(_map(lambda x, y: x == y, a, b))


def sym_clip(a, a_min=None, a_max=None, out=None, **k):
    r = objarr(a).view(SymArray).clip(a_min, a_max)
    return r


def sym_nan_to_num(x, copy=True, nan=0.0, **k):
    return _map(lambda v: nan if _isnan1(v) else v, x)


def sym_trapz(y, x=None, dx=1.0, axis=-1):
    y = list(objarr(y))
    s = 0.
    for i in range(len(y) - 1):
        d = dx if x is None else x[i + 1] - x[i]
        s = s + (y[i] + y[i + 1]) * d * 0.5
    return s


def sym_median(a, axis=None, **k):
    arr = objarr(a)
    if axis == 0 and arr.ndim == 2:
        return objarr([sym_median(arr[:, i])
                       for i in range(arr.shape[1])]).view(SymArray)
    arr = arr.reshape(-1)
    if len(arr) == 1:
        return arr[0]
    v = sym_sort(arr)
    n = len(v)
    return v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2


def sym_norm(x, ord=None, axis=None, **k):
    a = objarr(x).reshape(-1)
    if ord in (None, 2):
        return _u_sqrt(_reduce('add', _map(lambda v: v * v, a), 0))
    if ord == np.inf:
        return s_max([s_abs(v) for v in a])
    raise Unsupported('norm')


def sym_vdot(a, b):
    return sym_dot(_map(_conj, objarr(a).reshape(-1)), objarr(b).reshape(-1))


def sym_outer(a, b, out=None):
    a, b = objarr(a).reshape(-1, 1), objarr(b).reshape(1, -1)
    return _map(lambda x, y: x * y, a, b)


def sym_einsum(*a, **k):
    raise Unsupported('einsum')


def sym_full_like(a, fill_value, dtype=None, *x, **k):
    r = _np_empty(np.shape(a), dtype=object)
    r[...] = fill_value
    return r.view(SymArray)


def sym_zeros_like(a, dtype=None, *x, **k):
    return sym_full_like(a, 0.)


def sym_ones_like(a, dtype=None, *x, **k):
    return sym_full_like(a, 1.)


def sym_require(a, dtype=None, requirements=None, **k):
    a = a if isinstance(a, SymArray) else wrap(objarr(a))
    if not a.flags['C_CONTIGUOUS']:
        a = a.copy()
    return a


def sym_roll(a, shift, axis=None):
    return _np_roll(objarr(a), shift, axis).view(SymArray)


def sym_toeplitz(c, r=None):
    c = list(objarr(c))
    r = [_conj(v) for v in c] if r is None else list(objarr(r))
    return objarr([[c[i - j] if i >= j else r[j - i] for j in range(len(r))]
                   for i in range(len(c))]).view(SymArray)


def _ufunc_f(name):
    f = UFUNCS[name]

    def g(*args, out=None, where=True, **k):
        n = 1 if name in ('sqrt', 'absolute', 'conjugate', 'cos', 'sin',
                          'exp', 'radians', 'deg2rad', 'floor', 'ceil',
                          'rint', 'square', 'negative', 'degrees', 'sign',
                          'logical_not', 'fabs', 'trunc', 'isnan') else 2
        r = _map(f, *args[:n])
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            o[...] = objarr(r)
            return o
        return r
    return g


FUNCTIONS = {
    'mean': sym_mean, 'average': sym_average, 'std': sym_std,
    'sum': sym_sum, 'amax': sym_max, 'max': sym_max, 'amin': sym_min,
    'min': sym_min, 'ptp': sym_ptp, 'argmax': sym_argmax,
    'argmin': lambda a, *x, **k: sym_argmax(-wrap(objarr(a))),
    'argsort': sym_argsort, 'sort': sym_sort, 'cumsum': sym_cumsum,
    'diff': sym_diff, 'interp': sym_interp,
    'searchsorted': sym_searchsorted, 'digitize': sym_digitize,
    'where': sym_where, 'nonzero': sym_nonzero,
    'flatnonzero': sym_flatnonzero, 'any': sym_any, 'all': sym_all,
    'count_nonzero': sym_count_nonzero, 'dot': sym_dot,
    'matmul': sym_dot, 'inner': sym_dot,
    'convolve': sym_convolve, 'correlate': sym_np_correlate,
    'fft': sym_fft, 'ifft': sym_ifft, 'rfft': sym_rfft, 'irfft': sym_irfft,
    'real': sym_real, 'imag': sym_imag, 'lstsq': sym_lstsq,
    'solve': sym_solve, 'inv': sym_inv,
    'concatenate': sym_concatenate, 'hstack': sym_hstack,
    'vstack': sym_vstack, 'stack': sym_stack,
    'array': sym_array, 'asarray': sym_asarray, 'asanyarray': sym_asarray,
    'copy': sym_copy, 'linspace': sym_linspace, 'isclose': sym_isclose,
    'allclose': sym_allclose, 'array_equal': sym_array_equal,
    'clip': sym_clip, 'nan_to_num': sym_nan_to_num, 'trapz': sym_trapz,
    'median': sym_median, 'norm': sym_norm, 'vdot': sym_vdot,
    'outer': sym_outer, 'einsum': sym_einsum, 'full_like': sym_full_like,
    'zeros_like': sym_zeros_like, 'ones_like': sym_ones_like,
    'empty_like': sym_zeros_like, 'require': sym_require,
}


# ---------------------------------------------------------------------------
# installation

def _dispatch(orig, impl):
    def f(*args, **kwargs):
        if E.ENGINE is not None and (
                any(has_sym(a) for a in args) or
                any(has_sym(a) for a in kwargs.values())):
            return impl(*args, **kwargs)
        return orig(*args, **kwargs)
    f.__name__ = getattr(orig, '__name__', 'f')
    f.__wrapped__ = orig
    f.__doc__ = None
    return f


def _concrete(orig):
    """function without symbolic version, object arrays as floats"""
    def conv(a):
        if isinstance(a, np.ndarray) and a.dtype == object:
            if has_sym_deep(a):
                raise Unsupported('%s of symbolic array' % orig.__name__)
            a = _np_asarray(a)
            try:
                return a.astype(float)
            except TypeError:
                return a.astype(complex)
        if isinstance(a, (list, tuple)):
            if has_sym(a):
                raise Unsupported('%s of symbolic list' % orig.__name__)
        elif is_sym(a):
            raise Unsupported('%s of symbolic value' % orig.__name__)
        return a

    def f(*args, **kwargs):
        if E.ENGINE is None:
            return orig(*args, **kwargs)
        return orig(*[conv(a) for a in args],
                    **dict((k, conv(a)) for k, a in kwargs.items()))
    f.__name__ = getattr(orig, '__name__', 'f')
    f.__wrapped__ = orig
    f.__doc__ = None
    return f


def _in_rf(depth=2):
    n = sys._getframe(depth).f_globals.get('__name__', '')
    return n == 'rf' or n.startswith('rf.')


def _constructor(orig, name):
    """zeros, ones, ... called from rf give object arrays"""
    def f(shape, *args, **kwargs):
        if E.ENGINE is not None and _in_rf():
            dt = kwargs.get('dtype')
            if name == 'full':
                fill = args[0] if args else kwargs['fill_value']
                dt = args[1] if len(args) > 1 else dt
            else:
                fill = {'zeros': 0., 'ones': 1., 'empty': 0.}[name]
                dt = args[0] if args else dt
            if dt is None or np.dtype(dt).kind in 'fcO':
                r = _np_empty(shape, dtype=object)
                if isinstance(fill, np.ndarray):
                    fill = objarr(fill)
                r[...] = fill
                return r.view(SymArray)
        return orig(shape, *args, **kwargs)
    f.__name__ = name
    f.__wrapped__ = orig
    return f


class _UfuncProxy(object):
    """callable replacing a numpy ufunc which cannot handle objects"""

    def __init__(self, orig, impl):
        self._orig, self._impl = orig, impl
        self.__name__ = orig.__name__

    def __call__(self, *args, **kwargs):
        if E.ENGINE is not None and any(has_sym(a) for a in args):
            return self._impl(*args, **kwargs)
        return self._orig(*args, **kwargs)

    def __getattr__(self, k):
        return getattr(self._orig, k)


def _math(name):
    return {'sqrt': lambda x: E.s_sqrt(x), 'cos': lambda x: x.cos(),
            'sin': lambda x: x.sin(), 'exp': lambda x: x.exp(),
            'radians': lambda x: x.radians(),
            'degrees': lambda x: x.degrees(),
            'fabs': s_abs, 'isnan': _isnan1,
            'isfinite': lambda x: True, 'isinf': lambda x: False,
            'hypot': lambda x, y: E.s_sqrt(x * x + y * y)
            if is_sym(x * x + y * y) else math.sqrt(x * x + y * y),
            'pow': lambda x, y: x ** y,
            }[name]


def _times(orig):
    """Trace.times for symbolic reference times (obspy adds in place)"""
    def times(self, type='relative', reftime=None):
        if type.lower() == 'relative' and reftime is not None:
            shift = self.stats.starttime - reftime
            if isinstance(shift, E.SymReal):
                t = _np_arange(self.stats.npts) / self.stats.sampling_rate
                return _map(lambda v: v + shift, t).view(SymArray)
        return orig(self, type=type, reftime=reftime)
    return times


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float)


class sym_float(float, metaclass=_FloatMeta):
    """replacement of the float builtin in rf modules (symbolic runs only)"""

    def __new__(cls, x=0.):
        if isinstance(x, (SymReal,)):
            return x
        if isinstance(x, E.NumStr):
            return x.x
        if isinstance(x, np.ndarray) and x.dtype == _obj and x.size == 1:
            return x.reshape(-1)[0]
        return float(x)


_installed = []
_floats = []


def install():
    """Patch numpy/scipy/math and the global names of the rf modules."""
    if _installed:
        return
    import scipy.fft
    import scipy.fftpack
    import scipy.linalg
    import scipy.signal
    import rf
    for m in ('batch', 'deconvolve', 'harmonics', 'imaging', 'profile',
              'rfstream', 'simple_model', 'util'):
        try:
            __import__('rf.' + m)
        except ImportError:
            pass
    repl = {}

    def patch(mod, name, new):
        orig = getattr(mod, name)
        repl[id(orig)] = (orig, new)
        _installed.append((mod, name, orig))
        setattr(mod, name, new)

    np_funcs = [k for k in FUNCTIONS if hasattr(np, k) and
                k not in ('fft', 'max', 'min', 'array', 'asarray',
                          'asanyarray')]
    for k in np_funcs:
        o = getattr(np, k)
        if not isinstance(o, np.ufunc):
            patch(np, k, _dispatch(o, FUNCTIONS[k]))
    for k in ('max', 'min', 'array', 'asarray', 'asanyarray'):
        patch(np, k, _dispatch(getattr(np, k), FUNCTIONS[k]))
    patch(np, 'isnan', _UfuncProxy(np.isnan, sym_isnan))
    patch(np, 'isfinite', _UfuncProxy(np.isfinite, sym_isfinite))
    for k in ('sqrt', 'maximum', 'minimum', 'conjugate', 'exp', 'cos', 'sin',
              'radians', 'deg2rad', 'floor', 'ceil', 'rint', 'sign',
              'degrees', 'rad2deg', 'absolute', 'fabs', 'square', 'divide',
              'true_divide', 'hypot', 'fmax', 'fmin'):
        patch(np, k, _UfuncProxy(getattr(np, k), _ufunc_f(k)))
    np.abs = np.absolute
    np.conj = np.conjugate
    _installed.append((np, 'abs', repl_orig(repl, np.absolute)))
    _installed.append((np, 'conj', repl_orig(repl, np.conjugate)))
    patch(np, 'arange', _dispatch(np.arange, sym_arange))
    for k in ('zeros', 'ones', 'empty', 'full'):
        patch(np, k, _constructor(getattr(np, k), k))
    for mod in (np.fft, scipy.fftpack, scipy.fft):
        for k, f in (('fft', sym_fft), ('ifft', sym_ifft),
                     ('rfft', sym_rfft), ('irfft', sym_irfft)):
            if mod is scipy.fftpack and k in ('rfft', 'irfft'):
                continue
            patch(mod, k, _dispatch(getattr(mod, k), f))
    for mod, names in ((np.linalg, (
            'pinv svd qr det slogdet cond matrix_rank eig eigh eigvals '
            'eigvalsh cholesky matrix_power tensorsolve')), (scipy.linalg, (
                'pinv svd qr det eig eigh eigvals eigvalsh cholesky lu '
                'lu_factor cho_factor svdvals orth null_space'))):
        for k in names.split():
            if hasattr(mod, k):
                patch(mod, k, _concrete(getattr(mod, k)))
    patch(np.linalg, 'lstsq', _dispatch(np.linalg.lstsq, sym_lstsq))
    patch(np.linalg, 'solve', _dispatch(np.linalg.solve, sym_solve))
    patch(np.linalg, 'inv', _dispatch(np.linalg.inv, sym_inv))
    patch(np.linalg, 'norm', _dispatch(np.linalg.norm, sym_norm))
    patch(scipy.linalg, 'lstsq', _dispatch(scipy.linalg.lstsq, sym_lstsq))
    patch(scipy.linalg, 'solve', _dispatch(scipy.linalg.solve, sym_solve))
    patch(scipy.linalg, 'solve_toeplitz',
          _dispatch(scipy.linalg.solve_toeplitz, sym_solve_toeplitz))
    patch(scipy.linalg, 'toeplitz',
          _dispatch(scipy.linalg.toeplitz, sym_toeplitz))
    patch(scipy.signal, 'correlate',
          _dispatch(scipy.signal.correlate, sym_sp_correlate))
    patch(scipy.signal, 'convolve',
          _dispatch(scipy.signal.convolve, sym_convolve))
    patch(scipy.signal, 'fftconvolve',
          _dispatch(scipy.signal.fftconvolve, sym_convolve))
    patch(scipy.signal, 'detrend',
          _dispatch(scipy.signal.detrend, sym_detrend))
    import obspy.signal.filter
    for mod in (scipy.signal, obspy.signal.filter):
        patch(mod, 'sosfilt', _dispatch(mod.sosfilt, sym_sosfilt))
    from obspy.core.trace import Trace
    patch(Trace, 'times', _times(Trace.times))
    for k in ('sqrt', 'cos', 'sin', 'exp', 'radians', 'degrees', 'fabs',
              'isnan', 'isfinite', 'isinf', 'hypot', 'pow'):
        patch(math, k, _dispatch(getattr(math, k), _math(k)))
    # names imported into rf modules
    for mname, mod in list(sys.modules.items()):
        if mod is None or not (mname == 'rf' or mname.startswith('rf.')) or \
                mname.startswith('rf.tests'):
            continue
        for k, v in list(vars(mod).items()):
            if id(v) in repl and repl[id(v)][0] is v:
                _installed.append((mod, k, v))
                setattr(mod, k, repl[id(v)][1])
        if 'float' not in vars(mod):
            mod.float = sym_float
            _floats.append(mod)


def uninstall():
    """Undo install()."""
    for mod, name, orig in reversed(_installed):
        setattr(mod, name, orig)
    del _installed[:]
    for mod in _floats:
        del mod.float
    del _floats[:]


def repl_orig(repl, new):
    for o, n in repl.values():
        if n is new:
            return o
