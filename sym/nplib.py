"""numpy facade that understands symbolic numbers.

`NP` behaves like the numpy module.  Floating-point arrays become object arrays (class SArr) so that symbolic entries can
be stored; elementary functions act exactly (sqrt(2) stays sqrt(2)).  Integer and boolean arrays stay real numpy arrays.
"""
import math as _math
import types
from fractions import Fraction

import numpy as _np

from . import core
from .core import Sym, SymBool, Unsupported, lift

BUILTIN_FLOAT, BUILTIN_INT, BUILTIN_COMPLEX = float, int, complex


class SArr(_np.ndarray):
    """Object array with numeric semantics for .real/.imag/astype/... ."""

    def __new__(cls, a):
        return _np.asarray(a, dtype=object).view(cls)

    @property
    def real(self):
        return _map(lambda x: x.real, self)

    @real.setter
    def real(self, v):
        v = _np.broadcast_to(_np.asarray(v, dtype=object), self.shape)
        for i in _np.ndindex(*self.shape):
            self[i] = lift(v[i]) + 1j * lift(self[i]).imag

    @property
    def imag(self):
        return _map(lambda x: x.imag, self)

    @imag.setter
    def imag(self, v):
        v = _np.broadcast_to(_np.asarray(v, dtype=object), self.shape)
        for i in _np.ndindex(*self.shape):
            self[i] = lift(self[i]).real + 1j * lift(v[i])

    def conj(self):
        return _map(lambda x: x.conjugate(), self)
    conjugate = conj

    def astype(self, dtype=None, *a, **k):
        return _cast(self, dtype)

    def round(self, decimals=0, out=None):
        return around(self, decimals)

    def dot(self, b):
        return wrap(_np.dot(self.view(_np.ndarray), b))

    def any(self, axis=None, **k):
        return any_(self, axis, **k)

    def all(self, axis=None, **k):
        return all_(self, axis, **k)

    def max(self, axis=None, **k):
        return amax(self, axis, **k)

    def min(self, axis=None, **k):
        return amin(self, axis, **k)

    def mean(self, axis=None, **k):
        return mean(self, axis)

    def nonzero(self):
        return _np.nonzero(_boolarr(self))

    def argmax(self, axis=None, **k):
        return argmax(self, axis)

    def argmin(self, axis=None, **k):
        return argmin(self, axis)

    def argsort(self, axis=-1, **k):
        return argsort(self, axis)

    def sort(self, axis=-1, **k):
        self[...] = sort(self, axis)

    def copy(self, order='C'):
        return _np.array(self, dtype=object, copy=True).view(SArr)

    def __setitem__(self, k, v):
        from .tlib import SymTensor
        if isinstance(v, SymTensor):
            v = v.a
        _np.ndarray.__setitem__(self, _idx(k), v)

    def __getitem__(self, k):
        return _np.ndarray.__getitem__(self, _idx(k))

    def __reduce__(self):
        return (_mk_sarr, (self.shape, self.ravel().tolist()))

    def __deepcopy__(self, memo):
        return self.copy()


def _mk_sarr(shape, items):
    a = _np.empty(len(items), dtype=object)
    for i, x in enumerate(items):
        a[i] = x
    return a.reshape(shape).view(SArr)


def _idx(k):
    """Turn object arrays / Syms used as index into ints or bools."""
    if isinstance(k, tuple):
        return tuple(_idx(x) for x in k)
    if isinstance(k, Sym):
        return k.__index__()
    if isinstance(k, _np.ndarray) and k.dtype == object:
        return _intarr(k)
    return k


def _intarr(k):
    flat = [x for x in k.ravel()]
    if all(isinstance(x, (bool, _np.bool_, SymBool)) for x in flat) and flat:
        return _np.array([bool(x) for x in flat], dtype=bool).reshape(k.shape)
    return _np.array([x.__index__() for x in flat], dtype=int).reshape(k.shape)


def wrap(x):
    """Give arrays of objects the SArr type; leave everything else alone."""
    if isinstance(x, _np.ndarray) and not isinstance(x, SArr) and x.dtype == object:
        return x.view(SArr)
    return x


def to_obj(x):
    """Any array-like to SArr (floats/complex become exact numbers)."""
    from .tlib import SymTensor
    if isinstance(x, SymTensor):
        x = x.a
    if isinstance(x, SArr):
        return x
    a = _obj_array(x)
    return _lift_arr(a)


def _obj_array(x):
    if isinstance(x, _np.ndarray):
        return x.astype(object)
    if isinstance(x, (list, tuple)):
        x = [(_obj_array(y) if isinstance(y, (list, tuple, _np.ndarray)) else _tens(y)) for y in x]
        a = _np.empty(len(x), dtype=object)
        sub = [y.shape if isinstance(y, _np.ndarray) else () for y in x]
        if sub and all(s == sub[0] for s in sub) and sub[0] != ():
            out = _np.empty((len(x),) + sub[0], dtype=object)
            for i, y in enumerate(x):
                out[i] = y
            return out
        if sub and any(s != sub[0] for s in sub):
            raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
        for i, y in enumerate(x):
            a[i] = y if not isinstance(y, _np.ndarray) else y.item()
        return a
    a = _np.empty((), dtype=object)
    a[()] = _tens(x)
    return a


def _tens(x):
    from .tlib import SymTensor
    if isinstance(x, SymTensor):
        return x.a.item() if x.a.ndim == 0 else x.a
    return x


def _lift_arr(a):
    out = _np.empty(a.shape, dtype=object)
    for i in _np.ndindex(*a.shape):
        x = a[i]
        if isinstance(x, (bool, _np.bool_, SymBool)):
            out[i] = x
            continue
        l = lift(x)
        if l is None and isinstance(x, _np.ndarray) and x.ndim == 0:
            l = lift(x.item())
        out[i] = x if l is None else l
    return out.view(SArr)


def is_symbolic(x):
    from .tlib import SymTensor
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, SymTensor):
        return True
    if isinstance(x, _np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(is_symbolic(y) for y in x)
    return False


def _scalarish(x):
    return not isinstance(x, (_np.ndarray, list, tuple))


def _map(f, x):
    """Apply f to every entry of an array-like; scalars give scalars."""
    from .tlib import SymTensor
    if isinstance(x, SymTensor):
        return SymTensor(_map(f, x.a), like=x)
    if isinstance(x, range):
        x = list(x)
    if _scalarish(x):
        l = lift(x)
        if l is None:
            raise TypeError('unsupported operand %r' % type(x))
        return f(l)
    a = to_obj(x)
    out = _np.empty(a.shape, dtype=object)
    for i in _np.ndindex(*a.shape):
        out[i] = f(lift(a[i]))
    if a.ndim == 0:
        return out[()]
    return out.view(SArr)


def _map2(f, x, y):
    if _scalarish(x) and _scalarish(y):
        return f(lift(x), lift(y))
    a, b = _np.broadcast_arrays(to_obj(x), to_obj(y))
    out = _np.empty(a.shape, dtype=object)
    for i in _np.ndindex(*a.shape):
        out[i] = f(lift(a[i]), lift(b[i]))
    return out.view(SArr) if out.ndim else out[()]


def _boolarr(x):
    a = _np.asarray(x, dtype=object) if not isinstance(x, _np.ndarray) else x
    if a.dtype == bool:
        return a
    out = _np.empty(a.shape, dtype=bool)
    for i in _np.ndindex(*a.shape):
        out[i] = bool(a[i])
    return out


# -- dtype handling ---------------------------------------------------------------------------------------------------
def dtype_kind(dt):
    """'o' for floating/complex/object requests, 'i' for integers, 'b' for bool, None if unspecified."""
    if dt is None:
        return None
    if getattr(dt, '_shadow_of', None) in (float, complex):
        return 'o'
    if getattr(dt, '_shadow_of', None) is int:
        return 'i'
    try:
        k = _np.dtype(dt).kind
    except TypeError:
        return 'o'
    return {'f': 'o', 'c': 'o', 'O': 'o', 'i': 'i', 'u': 'i', 'b': 'b'}.get(k, 'x')


def _cast(a, dt):
    k = dtype_kind(dt)
    if k in (None, 'o'):
        return to_obj(a).copy()
    if k == 'b':
        return _boolarr(a)
    if k == 'i':
        a = to_obj(a)
        out = _np.empty(a.shape, dtype=int)
        for i in _np.ndindex(*a.shape):
            out[i] = int(a[i])
        return out
    return _np.asarray(a, dtype=dt)


# -- creation ---------------------------------------------------------------------------------------------------------
def _zero_obj(shape, v=0):
    a = _np.empty(shape, dtype=object)
    a[...] = lift(v)
    return a.view(SArr)


def zeros(shape, dtype=None, order='C', **k):
    if dtype_kind(dtype) in (None, 'o'):
        return _zero_obj(shape)
    return _np.zeros(shape, dtype=_real_dtype(dtype))


def ones(shape, dtype=None, order='C', **k):
    if dtype_kind(dtype) in (None, 'o'):
        return _zero_obj(shape, 1)
    return _np.ones(shape, dtype=_real_dtype(dtype))


def empty(shape, dtype=None, order='C', **k):
    return zeros(shape, dtype)


def full(shape, fill_value, dtype=None, order='C', **k):
    if isinstance(fill_value, (bool, int)) and dtype is None:
        return _np.full(shape, fill_value)
    if dtype_kind(dtype) in (None, 'o'):
        return _zero_obj(shape, fill_value)
    return _np.full(shape, fill_value, dtype=_real_dtype(dtype))


def zeros_like(a, dtype=None, **k):
    a = _asany(a)
    if dtype is None and a.dtype.kind in 'ib':
        return _np.zeros_like(a)
    return zeros(a.shape, dtype)


def ones_like(a, dtype=None, **k):
    a = _asany(a)
    if dtype is None and a.dtype.kind in 'ib':
        return _np.ones_like(a)
    return ones(a.shape, dtype)


def empty_like(a, dtype=None, **k):
    return zeros_like(a, dtype)


def full_like(a, v, dtype=None, **k):
    a = _asany(a)
    return _zero_obj(a.shape, v)


def eye(N, M=None, k=0, dtype=None, **kw):
    r = _np.eye(N, M, k, dtype=int)
    if dtype_kind(dtype) in (None, 'o'):
        return to_obj(r)
    return r.astype(_real_dtype(dtype))


def identity(n, dtype=None, **k):
    return eye(n, dtype=dtype)


def _real_dtype(dt):
    return getattr(dt, '_shadow_of', dt)


def _asany(x):
    return x if isinstance(x, _np.ndarray) else array(x)


def array(obj, dtype=None, copy=True, order='K', subok=False, ndmin=0, **k):
    from .tlib import SymTensor
    from .qlib import FQobj
    if isinstance(obj, FQobj):
        return obj.full()
    if isinstance(obj, SymTensor):
        obj = obj.a
    kind = dtype_kind(dtype)
    if kind == 'o':
        r = to_obj(obj)
        r = r.copy() if isinstance(obj, SArr) else r
    elif kind is None:
        if isinstance(obj, (list, tuple, range)):
            r = None
            if not is_symbolic(list(obj)):
                try:
                    r = _np.array(obj)
                except (TypeError, Unsupported):
                    r = None
                if r is not None and r.dtype.kind in 'fc':
                    r = None if r.size else _zero_obj(r.shape)
                elif r is not None and r.dtype.kind == 'O':
                    r = None
            if r is None:
                r = _obj_array(list(obj))
                if not any(isinstance(x, (bool, SymBool, str)) for x in r.ravel()):
                    r = _lift_arr(r)
                r = r.view(SArr) if r.dtype == object else r
        elif isinstance(obj, _np.ndarray):
            if obj.dtype.kind in 'fcO':
                r = to_obj(obj)
                r = r.copy() if isinstance(obj, SArr) else r
            else:
                r = obj.copy()
        elif isinstance(obj, (Sym, float, complex, Fraction)):
            r = to_obj(obj)
        else:
            r = _np.array(obj)
    elif kind in ('i', 'b'):
        r = _cast(obj, dtype) if is_symbolic(obj) else _np.array(obj, dtype=_real_dtype(dtype))
    else:
        r = _np.array(obj, dtype=_real_dtype(dtype))
    while r.ndim < ndmin:
        r = r[None]
    return r


def asarray(obj, dtype=None, **k):
    if isinstance(obj, SArr) and dtype_kind(dtype) in (None, 'o'):
        return obj
    if isinstance(obj, _np.ndarray) and dtype is None and obj.dtype.kind in 'ib':
        return obj
    return array(obj, dtype=dtype)


def arange(*a, **k):
    k.pop('dtype', None)
    if all(isinstance(x, (int, _np.integer)) for x in a):
        return _np.arange(*a)
    a = [lift(x) for x in a]
    if len(a) == 1:
        a = [lift(0), a[0], lift(1)]
    elif len(a) == 2:
        a = a + [lift(1)]
    n = 0
    vals = []
    x = a[0]
    while bool(x < a[1]):
        vals.append(x)
        x = x + a[2]
        n += 1
        if n > 10000:
            raise Unsupported('arange')
    return array(vals) if vals else _zero_obj((0,))


def linspace(a, b, num=50, endpoint=True, **k):
    a, b = lift(a), lift(b)
    n = (num - 1) if endpoint else num
    return array([a + (b - a) * Fraction(i, n if n else 1) for i in range(num)])


def diag(v, k=0):
    v = _asany(v)
    if v.dtype.kind in 'ib':
        return _np.diag(v, k)
    v = to_obj(v)
    if v.ndim == 2:
        return _np.diag(v, k).copy().view(SArr)
    n = v.shape[0] + abs(k)
    r = _zero_obj((n, n))
    for i in range(v.shape[0]):
        r[(i, i + k) if k >= 0 else (i - k, i)] = v[i]
    return r


# -- elementwise ------------------------------------------------------------------------------------------------------
def _u(f):
    def g(x, *a, **k):
        k.pop('dtype', None)
        out = k.pop('out', None)
        where = k.pop('where', True)
        if a or where is not True:
            raise Unsupported('ufunc options')
        r = _map(f, x)
        if out is not None:
            out[...] = r
            return out
        return r
    return g


sqrt = _u(core.sqrt)
exp = _u(core.exp)
log = _u(core.log)
cos = _u(core.cos)
sin = _u(core.sin)
tan = _u(lambda x: core.sin(x) / core.cos(x))
tanh = _u(core.tanh)
sinh = _u(lambda x: x.sinh())
cosh = _u(lambda x: x.cosh())
absolute = _u(core.absolute)
square = _u(lambda x: x * x)
reciprocal = _u(lambda x: 1 / x)
negative = _u(lambda x: -x)
positive = _u(lambda x: x)
conjugate = _u(lambda x: x.conjugate())
log2 = _u(lambda x: core.log(x) / core.log(2))
log10 = _u(lambda x: core.log(x) / core.log(10))
log1p = _u(lambda x: core.log(1 + x))
expm1 = _u(lambda x: core.exp(x) - 1)
exp2 = _u(lambda x: core.exp(x * core.log(2)))
cbrt = _u(lambda x: core.rpow(x, Fraction(1, 3)))
sign = _u(core.sign)
deg2rad = _u(lambda x: x * core.pi() / 180)
heaviside = lambda x, h: _map2(lambda a, b: (lift(0) if bool(a < 0) else (b if bool(a == 0) else lift(1))), x, h)


def real(x):
    from .tlib import SymTensor
    from .qlib import FQobj
    if isinstance(x, SymTensor):
        return x.real
    if isinstance(x, FQobj):
        return _map(lambda v: v.real, x.full())
    return _map(lambda v: v.real, x)


def imag(x):
    from .tlib import SymTensor
    if isinstance(x, SymTensor):
        return x.imag
    return _map(lambda v: v.imag, x)


def power(x, y):
    return _map2(lambda a, b: a ** b, x, y)


def float_power(x, y):
    return power(x, y)


def multiply(x, y, **k):
    return _map2(lambda a, b: a * b, x, y)


def add(x, y, **k):
    return _map2(lambda a, b: a + b, x, y)


def subtract(x, y, **k):
    return _map2(lambda a, b: a - b, x, y)


def divide(x, y, **k):
    return _map2(lambda a, b: a / b, x, y)


def maximum(x, y, **k):
    return _map2(lambda a, b: a if bool(a >= b) else b, x, y)


def minimum(x, y, **k):
    return _map2(lambda a, b: a if bool(a <= b) else b, x, y)


def hypot(x, y):
    return _map2(lambda a, b: core.sqrt(a * a + b * b), x, y)


def clip(a, lo=None, hi=None, **k):
    if lo is not None:
        a = maximum(a, lo)
    if hi is not None:
        a = minimum(a, hi)
    return a


def _pred(f):
    v = bool(f(0.0))

    def g(x, *a, **k):
        if isinstance(x, (float, complex, _np.floating)) or isinstance(x, _np.ndarray) and x.dtype.kind in 'fc':
            return f(x)
        if _scalarish(x):
            from .tlib import SymTensor
            if isinstance(x, SymTensor) and x.a.ndim:
                return _np.full(x.a.shape, v)
            return v
        return _np.full(_asany(x).shape, v)
    return g


isnan, isinf, isfinite = _pred(_np.isnan), _pred(_np.isinf), _pred(_np.isfinite)


def iscomplex(x):
    r = _map(lambda v: bool(v.imag != 0), x)
    return r if _scalarish(x) else _boolarr(r)


def isreal(x):
    r = iscomplex(x)
    return (not r) if isinstance(r, bool) else ~r


def iscomplexobj(x):
    return any(lift(v).im for v in to_obj(x).ravel())


def isrealobj(x):
    return not iscomplexobj(x)


def real_if_close(x, tol=100):
    return x


def nan_to_num(x, *a, **k):
    return x


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        return bool(core.absolute(x - y) <= atol + lift(rtol) * core.absolute(y))
    r = _map2(f, a, b)
    return _boolarr(r) if isinstance(r, _np.ndarray) else r


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(_np.all(isclose(a, b, rtol, atol)))


def array_equal(a, b, **k):
    a, b = to_obj(a), to_obj(b)
    return a.shape == b.shape and all(bool(x == y) for x, y in zip(a.ravel(), b.ravel()))


ROUND_HOOK = [None]


def around(a, decimals=0, out=None):
    """Rounding: exact for known numbers, otherwise the hook decides (default: the exact value, see DESIGN.md)."""
    def f(x):
        if x.is_const() and not x.im:
            c, s = x.const(), Fraction(10) ** decimals
            return lift(Fraction(_round_half_even(c * s)) / s)
        if ROUND_HOOK[0] is not None:
            return ROUND_HOOK[0](x, decimals)
        if core.INTS[0]:
            return lift(Fraction(core.round_int(x * Fraction(10) ** decimals)) / Fraction(10) ** decimals)
        raise Unsupported('rounding of a symbolic number')
    if isinstance(a, _np.ndarray) and a.dtype.kind in 'ib':
        return _np.around(a, decimals)
    return _map(f, a)


def _round_half_even(q):
    return round(q)


def floor(x):
    def f(v):
        if v.is_closed():
            return lift(_math.floor(float(v)))
        if core.INTS[0]:
            return lift(core.floor_int(v))
        raise Unsupported('floor of a symbolic number')
    return _map(f, x)


def ceil(x):
    return _map(lambda v: -floor(-v), x)


def angle(z, deg=False):
    raise Unsupported('angle of a symbolic number')


# -- reductions -------------------------------------------------------------------------------------------------------
def _reduce(f):
    def g(a, axis=None, keepdims=False, **k):
        a = _asany(a)
        if axis is None:
            return f(list(a.ravel()))
        axes = axis if isinstance(axis, tuple) else (axis,)
        axes = tuple(x % a.ndim for x in axes)
        keep = [i for i in range(a.ndim) if i not in axes]
        b = a.transpose(keep + list(axes)).reshape([a.shape[i] for i in keep] + [-1])
        out = _np.empty([a.shape[i] for i in keep], dtype=object)
        for i in _np.ndindex(*out.shape):
            out[i] = f(list(b[i]))
        if keepdims:
            out = out.reshape([1 if i in axes else a.shape[i] for i in range(a.ndim)])
        return out.view(SArr) if out.ndim else out[()]
    return g


def _max(l):
    m = l[0]
    for x in l[1:]:
        if bool(x > m):
            m = x
    return m


def _min(l):
    m = l[0]
    for x in l[1:]:
        if bool(x < m):
            m = x
    return m


def _sum(l):
    t = 0
    for x in l:
        t = t + x
    return t


def _prod(l):
    t = 1
    for x in l:
        t = t * x
    return t


def _red(f, npf):
    sym = _reduce(f)

    def g(a, axis=None, *args, **k):
        from .tlib import SymTensor
        if isinstance(a, SymTensor):
            a = a.a
        if hasattr(a, '__next__'):
            a = list(a)
        if isinstance(a, (list, tuple)) or not isinstance(a, _np.ndarray):
            a = array(a) if not isinstance(a, (Sym,)) else to_obj(a)
        if a.dtype.kind in 'ib':
            return npf(a.view(_np.ndarray), axis=axis, **{q: v for q, v in k.items() if q in ('keepdims',)})
        return sym(a, axis=axis, **{q: v for q, v in k.items() if q in ('keepdims',)})
    return g


amax, amin = _red(_max, _np.max), _red(_min, _np.min)
sum_, prod_ = _red(_sum, _np.sum), _red(_prod, _np.prod)
any_ = _red(lambda l: any(bool(x) for x in l), _np.any)
all_ = _red(lambda l: all(bool(x) for x in l), _np.all)


def _boolres(f):
    def g(*a, **k):
        r = f(*a, **k)
        return _boolarr(r) if isinstance(r, _np.ndarray) and r.dtype == object else r
    return g


any_, all_ = _boolres(any_), _boolres(all_)


def mean(a, axis=None, **k):
    a = to_obj(a)
    n = a.size if axis is None else a.shape[axis]
    return sum_(a, axis) / n


def cumsum(a, axis=None, **k):
    return wrap(_np.cumsum(_asany(a), axis))


def argmax(a, axis=None, **k):
    a = _asany(a)
    if a.dtype.kind in 'ib':
        return _np.argmax(a, axis)
    if axis is None:
        l = list(a.ravel())
        j = 0
        for i in range(1, len(l)):
            if bool(l[i] > l[j]):
                j = i
        return j
    return _np.apply_along_axis(lambda v: argmax(v), axis, a)


def argmin(a, axis=None, **k):
    return argmax(-_asany(a), axis)


def _cmp_key():
    import functools

    def c(x, y):
        x, y = lift(x), lift(y)
        dx = x.real - y.real
        if bool(dx < 0):
            return -1
        if bool(dx > 0):
            return 1
        di = x.imag - y.imag
        if not di.re:
            return 0
        return -1 if bool(di < 0) else (1 if bool(di > 0) else 0)
    return functools.cmp_to_key(c)


def argsort(a, axis=-1, **k):
    a = _asany(a)
    if a.dtype.kind in 'ib':
        return _np.argsort(a, axis)
    if a.ndim == 1:
        key = _cmp_key()
        return _np.array(sorted(range(a.shape[0]), key=lambda i: key(a[i])), dtype=int)
    if axis is None:
        return argsort(a.ravel())
    out = _np.empty(a.shape, dtype=int)
    b, o = _np.moveaxis(a, axis, -1), _np.moveaxis(out, axis, -1)
    for i in _np.ndindex(*b.shape[:-1]):
        o[i] = argsort(b[i])
    return out


def sort(a, axis=-1, **k):
    a = _asany(a)
    if a.dtype.kind in 'ib':
        return _np.sort(a, axis)
    if axis is None:
        a, axis = a.ravel(), -1
    return wrap(_np.take_along_axis(a, argsort(a, axis), axis))


def lexsort(keys, axis=-1):
    ks = [list(k) for k in keys]
    key = _cmp_key()
    idx = list(range(len(ks[0])))
    for k in ks:
        idx.sort(key=lambda i: key(k[i]))
    return _np.array(idx, dtype=int)


def where(c, *a):
    if not a:
        return _np.where(_boolarr(c) if is_symbolic(c) else c)
    if isinstance(c, (SymBool,)):
        c = bool(c)
    x, y = a
    if is_symbolic(c):
        c = _boolarr(c)
    if any(is_symbolic(v) or isinstance(v, float) or (isinstance(v, _np.ndarray) and v.dtype.kind in 'fc') for v in a):
        x, y = to_obj(x), to_obj(y)
        return wrap(_np.where(c, x, y))
    return _np.where(c, x, y)


def nonzero(a):
    return _np.nonzero(_boolarr(a) if is_symbolic(a) else a)


def count_nonzero(a, axis=None, **k):
    return _np.count_nonzero(_boolarr(a) if is_symbolic(a) else a, axis=axis)


def flatnonzero(a):
    return nonzero(_asany(a).ravel())[0]


def logical_not(a):
    return ~_boolarr(a)


def logical_and(a, b):
    return _boolarr(a) & _boolarr(b)


def logical_or(a, b):
    return _boolarr(a) | _boolarr(b)


# -- products ---------------------------------------------------------------------------------------------------------
def _mm(f):
    def g(*args, **k):
        args = [(to_obj(x) if not (isinstance(x, _np.ndarray) and x.dtype.kind in 'ib') and not _np.isscalar(x) else x)
                for x in args]
        return wrap(f(*[_np.asarray(a) if isinstance(a, _np.ndarray) else a for a in args]))
    return g


def matmul(a, b, **k):
    return wrap(_asany(a) @ _asany(b))


def dot(a, b, out=None):
    a, b = _asany(a), _asany(b)
    return wrap(_np.dot(_np.asarray(a), _np.asarray(b)))


def vdot(a, b):
    return _sum([lift(x).conjugate() * y for x, y in zip(to_obj(a).ravel(), to_obj(b).ravel())])


def inner(a, b):
    return wrap(_np.inner(_np.asarray(_asany(a)), _np.asarray(_asany(b))))


def outer(a, b, out=None):
    return wrap(_np.outer(_np.asarray(_asany(a)), _np.asarray(_asany(b))))


def kron(a, b):
    a, b = to_obj(a), to_obj(b)
    if a.ndim == 1:
        return wrap(_np.outer(a, b).ravel())
    out = _np.einsum('ij,kl->ikjl', a, b)
    return wrap(out.reshape(a.shape[0] * b.shape[0], a.shape[1] * b.shape[1]))


def trace(a, *r, **k):
    a = _asany(a)
    return _sum([a[i, i] for i in range(min(a.shape))])


def einsum(sub, *ops, **k):
    k.pop('optimize', None)
    return wrap(_np.einsum(sub, *[_np.asarray(to_obj(o)) for o in ops]))


def multi_dot(arrs):
    r = arrs[0]
    for a in arrs[1:]:
        r = r @ a
    return r


# -- linear algebra ---------------------------------------------------------------------------------------------------
SVD_HOOK, EIG_HOOK, EIGH_HOOK = [None], [None], [None]


def det(a):
    a = to_obj(a)
    n = a.shape[0]
    if n == 0:
        return lift(1)
    if n == 1:
        return lift(a[0, 0])
    t = lift(0)
    for j in range(n):
        x = lift(a[0, j])
        if not x.re and not x.im:
            continue
        minor = _np.delete(_np.delete(a, 0, axis=0), j, axis=1).view(SArr)
        t = t + (x if j % 2 == 0 else -x) * det(minor)
    return t


def inv(a):
    from .tlib import SymTensor
    if isinstance(a, SymTensor):
        a = a.a
    a = to_obj(a)
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise _np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    n = a.shape[0]
    if all(lift(x).is_const() for x in a.ravel()):
        return _inv_const(a)
    # split into connected blocks so that sparse matrices stay simple
    blocks = _blocks(a)
    if len(blocks) > 1:
        out = _zero_obj((n, n))
        for rows, cols in blocks:
            if len(rows) != len(cols):
                raise _np.linalg.LinAlgError('Singular matrix')
            sub = _inv_full(a[_np.ix_(rows, cols)])
            for i, c in enumerate(cols):
                for j, r in enumerate(rows):
                    out[c, r] = sub[i, j]
        return out
    return _inv_full(a)


def _blocks(a):
    n = a.shape[0]
    rows_left = set(range(n))
    cols_left = set(range(n))
    nz = [[j for j in range(n) if lift(a[i, j]).re or lift(a[i, j]).im] for i in range(n)]
    out = []
    while rows_left:
        r = {min(rows_left)}
        c = set()
        while True:
            c2 = {j for i in r for j in nz[i]}
            r2 = r | {i for i in range(n) if any(j in c2 for j in nz[i])}
            if r2 == r and c2 == c:
                break
            r, c = r2, c2
        out.append((sorted(r), sorted(c)))
        rows_left -= r
    return out


INV_HOOK = [None]


def _inv_full(a):
    n = a.shape[0]
    if INV_HOOK[0] is not None:
        r = INV_HOOK[0](a)
        if r is not None:
            return r
    d = det(a)
    if not d.re and not d.im:
        raise _np.linalg.LinAlgError('Singular matrix')
    di = d.inverse()
    out = _zero_obj((n, n))
    for i in range(n):
        for j in range(n):
            m = _np.delete(_np.delete(a, i, axis=0), j, axis=1).view(SArr)
            c = det(m) * di
            out[j, i] = c if (i + j) % 2 == 0 else -c
    return out


def _inv_const(a):
    n = a.shape[0]
    m = [[lift(a[i, j]) for j in range(n)] + [lift(1 if i == j else 0) for j in range(n)] for i in range(n)]
    for c in range(n):
        p = None
        for r in range(c, n):
            if m[r][c].re or m[r][c].im:
                p = r
                break
        if p is None:
            raise _np.linalg.LinAlgError('Singular matrix')
        m[c], m[p] = m[p], m[c]
        iv = m[c][c].inverse()
        m[c] = [x * iv for x in m[c]]
        for r in range(n):
            if r != c and (m[r][c].re or m[r][c].im):
                f = m[r][c]
                m[r] = [x - f * y for x, y in zip(m[r], m[c])]
    return array([row[n:] for row in m], dtype=object)


def solve(a, b):
    return inv(a) @ to_obj(b)


def norm(x, ord=None, axis=None, keepdims=False):
    from .tlib import SymTensor
    if isinstance(x, SymTensor):
        x = x.a
    a = to_obj(x)
    if ord not in (None, 'fro', 2):
        raise Unsupported('norm of order %r' % (ord,))
    if ord == 2 and axis is None and a.ndim == 2:
        raise Unsupported('matrix 2-norm')
    return _reduce(lambda l: core.sqrt(_sum([_sq(v) for v in l])))(a, axis=axis, keepdims=keepdims)


def _sq(v):
    v = lift(v)
    return v.real * v.real + v.imag * v.imag


def matrix_rank(a, tol=None, **k):
    a = to_obj(a)
    if all(lift(x).is_closed() for x in a.ravel()):
        return int(_np.linalg.matrix_rank(a.astype_float() if hasattr(a, 'astype_float') else to_float(a), tol=tol))
    # exact rank by elimination with forks on pivots
    m = [list(map(lift, r)) for r in a]
    rank, rows, cols = 0, a.shape[0], a.shape[1]
    for c in range(cols):
        p = None
        for r in range(rank, rows):
            if bool(m[r][c] != 0):
                p = r
                break
        if p is None:
            continue
        m[rank], m[p] = m[p], m[rank]
        for r in range(rank + 1, rows):
            f = m[r][c] / m[rank][c]
            m[r] = [x - f * y for x, y in zip(m[r], m[rank])]
        rank += 1
    return rank


def to_float(a):
    a = to_obj(a)
    cx = any(lift(x).im for x in a.ravel())
    out = _np.empty(a.shape, dtype=complex if cx else float)
    for i in _np.ndindex(*a.shape):
        out[i] = complex(lift(a[i])) if cx else float(lift(a[i]))
    return out


def _concrete(a):
    return all(lift(x).is_closed() for x in to_obj(a).ravel())


def svd(a, *args, **k):
    if _concrete(a):
        r = _np.linalg.svd(to_float(a), *args, **k)
        return tuple(to_obj(x) for x in r) if isinstance(r, tuple) else to_obj(r)
    if SVD_HOOK[0] is not None:
        r = SVD_HOOK[0](to_obj(a), *args, **k)
        if r is not None:
            return r
    a = to_obj(a)
    if a.shape[0] == a.shape[1] and _is_diag(a):
        n = a.shape[0]
        d = [core.absolute(lift(a[i, i])) for i in range(n)]
        sg = [core.sign(lift(a[i, i])) for i in range(n)]
        order = _sorted_desc(d)
        u, v = zeros((n, n)), zeros((n, n))
        for j, i in enumerate(order):
            u[i, j] = sg[i] if not core.eq0(sg[i]) is True else lift(1)
            v[j, i] = lift(1)
        return u, array([d[i] for i in order]), v
    raise Unsupported('singular value decomposition of a symbolic matrix')


def _is_diag(a):
    return all(core.eq0(lift(a[i, j])) is True for i in range(a.shape[0]) for j in range(a.shape[1]) if i != j)


def _sorted_desc(d):
    order = []
    for i in range(len(d)):
        k = 0
        while k < len(order) and not bool(d[i] > d[order[k]]):
            k += 1
        order.insert(k, i)
    return order


def eig(a):
    if _concrete(a):
        w, v = _np.linalg.eig(to_float(a))
        return to_obj(w), to_obj(v)
    if EIG_HOOK[0] is not None:
        r = EIG_HOOK[0](to_obj(a))
        if r is not None:
            return r
    a = to_obj(a)
    if _is_diag(a):
        return array([a[i, i] for i in range(a.shape[0])]), eye(a.shape[0])
    raise Unsupported('eigenvalues of a symbolic matrix')


def eigvals(a):
    return eig(a)[0]


def eigh(a, *r, **k):
    if _concrete(a):
        w, v = _np.linalg.eigh(to_float(a))
        return to_obj(w), to_obj(v)
    if EIGH_HOOK[0] is not None:
        r = EIGH_HOOK[0](to_obj(a))
        if r is not None:
            return r
    a = to_obj(a)
    if _is_diag(a):
        d = [lift(a[i, i]) for i in range(a.shape[0])]
        order = _sorted_desc(d)[::-1]
        v = zeros(a.shape)
        for j, i in enumerate(order):
            v[i, j] = lift(1)
        return array([d[i] for i in order]), v
    raise Unsupported('eigenvalues of a symbolic matrix')


def eigvalsh(a, *r, **k):
    return eigh(a)[0]


def pinv(a, *r, **k):
    if _concrete(a):
        return to_obj(_np.linalg.pinv(to_float(a), *r, **k))
    a = to_obj(a)
    if a.shape[0] == a.shape[1]:
        return inv(a)
    raise Unsupported('pseudo inverse')


def matrix_power(a, n):
    if n < 0:
        return matrix_power(inv(a), -n)
    r = eye(a.shape[0])
    for _ in range(n):
        r = r @ a
    return r


# -- joining (numpy functions keep object dtype, but drop the subclass) -----------------------------------------------
def _joining(f):
    def g(seq, *a, **k):
        seq = [_asany(x) for x in seq]
        if any(s.dtype == object for s in seq):
            seq = [to_obj(s) for s in seq]
        return wrap(f(seq, *a, **k))
    return g


def _keep(f):
    def g(a, *r, **k):
        return wrap(f(_asany(a), *r, **k))
    return g


def vectorize(pyfunc, *a, **k):
    def g(*args):
        arrs = _np.broadcast_arrays(*[to_obj(x) for x in args])
        out = _np.empty(arrs[0].shape, dtype=object)
        for i in _np.ndindex(*out.shape):
            out[i] = pyfunc(*[x[i] for x in arrs])
        return out.view(SArr) if out.ndim else out[()]
    return g


def meshgrid(*xs, **k):
    return [wrap(x) for x in _np.meshgrid(*[_asany(x) for x in xs], **k)]


RANDN = [None]


class _Random:
    """numpy.random: every draw is an arbitrary real number (deviation from the mean in units of the spread)."""

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            return lift(loc) + lift(scale) * fresh_random()
        shape = (size,) if isinstance(size, int) else size
        out = _np.empty(shape, dtype=object)
        for i in _np.ndindex(*shape):
            out[i] = lift(loc) + lift(scale) * fresh_random()
        return out.view(SArr)

    def randn(self, *shape):
        if not shape:
            return fresh_random()
        return self.normal(0, 1, shape)

    def standard_normal(self, size=None):
        return self.normal(0, 1, size)

    def rand(self, *shape):
        return self.randn(*shape)

    def seed(self, *a):
        pass

    def default_rng(self, *a):
        return self

    RandomState = default_rng

    def __getattr__(self, name):
        raise Unsupported('numpy.random.' + name)


def fresh_random():
    if RANDN[0] is not None:
        return RANDN[0]()
    raise Unsupported('random number')


class _Linalg:
    LinAlgError = _np.linalg.LinAlgError
    inv = staticmethod(inv)
    det = staticmethod(det)
    norm = staticmethod(norm)
    solve = staticmethod(solve)
    svd = staticmethod(svd)
    eig = staticmethod(eig)
    eigh = staticmethod(eigh)
    eigvals = staticmethod(eigvals)
    eigvalsh = staticmethod(eigvalsh)
    pinv = staticmethod(pinv)
    matrix_rank = staticmethod(matrix_rank)
    multi_dot = staticmethod(multi_dot)
    matrix_power = staticmethod(matrix_power)

    def __getattr__(self, name):
        raise Unsupported('numpy.linalg.' + name)


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls._shadow_of) or (isinstance(o, Sym) and cls._sym_ok(o))

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, cls._shadow_of)

    def __eq__(cls, o):
        return o is cls or o is cls._shadow_of

    def __hash__(cls):
        return hash(cls._shadow_of)


def _scalar_of(x):
    from .tlib import SymTensor
    if isinstance(x, SymTensor):
        x = x.a
    if isinstance(x, _np.ndarray):
        if x.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        x = x.ravel()[0]
    return x


class ShadowFloat(float, metaclass=_FloatMeta):
    _shadow_of = float
    _sym_ok = staticmethod(lambda o: not o.im)

    def __new__(cls, x=0.0):
        x = _scalar_of(x)
        if isinstance(x, Sym):
            return x
        if hasattr(x, '_symfloat'):
            return x._symfloat()
        if isinstance(x, str) and core.untoken(x) is not None:
            return core.untoken(x)
        return float(x)


class ShadowComplex(complex, metaclass=_FloatMeta):
    _shadow_of = complex
    _sym_ok = staticmethod(lambda o: True)

    def __new__(cls, x=0.0, y=0.0):
        x, y = _scalar_of(x), _scalar_of(y)
        if isinstance(x, Sym) or isinstance(y, Sym):
            return lift(x) + 1j * lift(y)
        return complex(x, y) if not isinstance(x, str) else complex(x)


class ShadowInt(int, metaclass=_FloatMeta):
    _shadow_of = int
    _sym_ok = staticmethod(lambda o: core.INTS[0] and core.is_integer(o))

    def __new__(cls, x=0, *a):
        x = _scalar_of(x)
        if isinstance(x, Sym):
            if core.INTS[0] and core.is_integer(x) and not x.is_const():
                return x
            return INT_HOOK[0](x) if INT_HOOK[0] is not None else int(x)
        return int(x, *a)


INT_HOOK = [None]


class _NP(types.ModuleType):
    def __getattr__(self, name):
        v = getattr(_np, name)
        return v


NP = _NP('numpy')
def unravel_index(indices, shape, order='C'):
    if not is_symbolic(indices):
        return _np.unravel_index(indices, shape, order)
    if order != 'C':
        raise Unsupported('order of an index')
    out, rest = [], indices
    for d in tuple(shape)[:0:-1]:
        rest, k = divmod(rest, d) if not isinstance(rest, _np.ndarray) else (rest // d, rest % d)
        out.append(k)
    return tuple([rest] + out[::-1])


add.reduce = lambda a, axis=0, **k: sum_(a, axis=axis, **k)
multiply.reduce = lambda a, axis=0, **k: prod_(a, axis=axis, **k)
multiply.outer = lambda a, b, **k: _np.multiply.outer(to_obj(a), to_obj(b)).view(SArr)


OVERRIDES = dict(
    zeros=zeros, ones=ones, empty=empty, full=full, zeros_like=zeros_like, ones_like=ones_like, empty_like=empty_like,
    full_like=full_like, eye=eye, identity=identity, array=array, asarray=asarray, asanyarray=asarray,
    ascontiguousarray=asarray, arange=arange, linspace=linspace, diag=diag,
    sqrt=sqrt, exp=exp, log=log, cos=cos, sin=sin, tan=tan, tanh=tanh, sinh=sinh, cosh=cosh, abs=absolute,
    absolute=absolute, fabs=absolute, square=square, reciprocal=reciprocal, negative=negative, positive=positive,
    conj=conjugate, conjugate=conjugate, log2=log2, log10=log10, log1p=log1p, expm1=expm1, exp2=exp2, cbrt=cbrt,
    sign=sign, deg2rad=deg2rad, radians=deg2rad, real=real, imag=imag, power=power, float_power=float_power,
    multiply=multiply, add=add, subtract=subtract, divide=divide, true_divide=divide, maximum=maximum, minimum=minimum,
    fmax=maximum, fmin=minimum, hypot=hypot, clip=clip, isnan=isnan, isinf=isinf, isfinite=isfinite,
    iscomplex=iscomplex, isreal=isreal, iscomplexobj=iscomplexobj, isrealobj=isrealobj, real_if_close=real_if_close,
    nan_to_num=nan_to_num, isclose=isclose, allclose=allclose, array_equal=array_equal, around=around, round=around,
    round_=around, floor=floor, ceil=ceil, angle=angle, unravel_index=unravel_index, rint=lambda x: around(x, 0), max=amax, amax=amax, min=amin, amin=amin, nanmax=amax,
    nanmin=amin, sum=sum_, nansum=sum_, prod=prod_, any=any_, all=all_, mean=mean, average=mean, cumsum=cumsum,
    argmax=argmax, argmin=argmin, argsort=argsort, sort=sort, lexsort=lexsort, where=where, nonzero=nonzero,
    count_nonzero=count_nonzero, flatnonzero=flatnonzero, logical_not=logical_not, logical_and=logical_and,
    logical_or=logical_or, matmul=matmul, dot=dot, vdot=vdot, inner=inner, outer=outer, kron=kron, trace=trace,
    einsum=einsum, concatenate=_joining(_np.concatenate), vstack=_joining(_np.vstack), hstack=_joining(_np.hstack),
    stack=_joining(_np.stack), column_stack=_joining(_np.column_stack), append=None, block=None,
    delete=_keep(_np.delete), squeeze=_keep(_np.squeeze), transpose=_keep(_np.transpose),
    reshape=_keep(_np.reshape), ravel=_keep(_np.ravel), expand_dims=_keep(_np.expand_dims), tile=_keep(_np.tile),
    repeat=_keep(_np.repeat), triu=_keep(_np.triu), tril=_keep(_np.tril), diagonal=_keep(_np.diagonal),
    flip=_keep(_np.flip), roll=_keep(_np.roll), copy=_keep(_np.copy), atleast_1d=_keep(_np.atleast_1d),
    atleast_2d=_keep(_np.atleast_2d), moveaxis=_keep(_np.moveaxis), swapaxes=_keep(_np.swapaxes),
    take=_keep(_np.take), insert=_keep(_np.insert), broadcast_to=_keep(_np.broadcast_to),
    vectorize=vectorize, meshgrid=meshgrid, linalg=_Linalg(), random=_Random(),
    float64=ShadowFloat, float32=ShadowFloat, double=ShadowFloat, complex128=ShadowComplex, complex64=ShadowComplex,
    heaviside=heaviside,
)
OVERRIDES['append'] = lambda a, v, axis=None: (
    OVERRIDES['concatenate']([_asany(a).ravel(), _asany(v).ravel()]) if axis is None
    else OVERRIDES['concatenate']([a, v], axis=axis))
del OVERRIDES['block']


class _LazyPi:
    pass


for _k, _v in OVERRIDES.items():
    if _v is not None:
        setattr(NP, _k, _v)


def install_pi():
    NP.pi = core.pi()
    NP.e = core.exp(lift(1))


# -- math module ------------------------------------------------------------------------------------------------------
class _Math(types.ModuleType):
    def __getattr__(self, name):
        return getattr(_math, name)


MATH = _Math('math')
for _k in ('sqrt', 'exp', 'log', 'cos', 'sin', 'tan', 'tanh', 'sinh', 'cosh', 'fabs', 'log2', 'log10', 'log1p', 'expm1',
           'hypot'):
    _f = OVERRIDES[_k]
    setattr(MATH, _k, _f)
MATH.pow = lambda a, b: lift(a) ** b
MATH.isnan, MATH.isinf, MATH.isfinite = isnan, isinf, isfinite
MATH.isclose = lambda a, b, rel_tol=1e-9, abs_tol=0.0: isclose(a, b, rel_tol, abs_tol)
MATH.floor = lambda x: int(floor(x)) if isinstance(x, Sym) else _math.floor(x)
MATH.ceil = lambda x: int(ceil(x)) if isinstance(x, Sym) else _math.ceil(x)
MATH.prod = lambda it, start=1: _prod([start] + list(it))
MATH.fsum = lambda it: _sum(list(it))
