"""Stand-in for torch: tensors with symbolic entries.

Differentiation: a leaf that requires grad carries an infinitesimal per entry (core.eps); every operation propagates it to
first order, detach() drops it, and the custom autograd functions of the code under check are run with a symbolic output
gradient so that exactly the derivative their backward() reports is propagated.
"""
import collections
import types

import numpy as _np
import torch as _t

from . import core
from . import nplib as N
from .core import Sym, SymBool, Unsupported, lift
from .nplib import SArr, to_obj, wrap


def _is_float(dt):
    return dt in (_t.float64, _t.float32, _t.float16, None)


def _is_complex(dt):
    return dt in (_t.complex128, _t.complex64)


def _norm_dtype(dt):
    s = getattr(dt, '_shadow_of', dt)
    if s is float:
        return _t.float64
    if s is complex:
        return _t.complex128
    if s is int:
        return _t.int64
    if s is bool:
        return _t.bool
    return dt


def _drop(a):
    if a.dtype != object or not core.EPS:
        return a
    out = _np.empty(a.shape, dtype=object)
    for i in _np.ndindex(*a.shape):
        out[i] = core.drop_eps(a[i]) if isinstance(a[i], Sym) else a[i]
    return out.view(SArr)


class SymTensor:
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, a, dtype=None, like=None, sparse=False, requires_grad=False):
        if isinstance(a, SymTensor):
            a = a.a
        if not isinstance(a, _np.ndarray):
            a = to_obj(a)
        dtype = _norm_dtype(dtype)
        if a.dtype.kind in 'fc' and not (a.ndim == 0 and _np.isnan(a)):
            a = to_obj(a)
        if a.dtype == object and not isinstance(a, SArr):
            a = a.view(SArr)
        self.a = a
        self._dtype = dtype
        self.is_sparse = sparse
        self._leaf = None
        self.grad = None
        self._rg = False
        if requires_grad:
            self.requires_grad = True

    # -- meta --------------------------------------------------------------------------------------------------------
    @property
    def dtype(self):
        if self._dtype is not None:
            return self._dtype
        if self.a.dtype.kind == 'i':
            return _t.int64
        if self.a.dtype.kind == 'b':
            return _t.bool
        return _t.complex128 if any(lift(x).im for x in self.a.ravel()) else _t.float64

    @property
    def shape(self):
        return _t.Size(self.a.shape)

    def size(self, d=None):
        return self.shape if d is None else self.a.shape[d]

    @property
    def ndim(self):
        return self.a.ndim

    def dim(self):
        return self.a.ndim

    def numel(self):
        return self.a.size

    nelement = numel

    @property
    def device(self):
        return _t.device('cpu')

    @property
    def layout(self):
        return _t.sparse_coo if self.is_sparse else _t.strided

    @property
    def is_leaf(self):
        return self._leaf is not None or not self._has_eps()

    def _has_eps(self):
        return bool(core.EPS) and self.a.dtype == object and any(
            isinstance(x, Sym) and core.has_eps(x) for x in self.a.ravel())

    @property
    def requires_grad(self):
        return self._rg or self._has_eps()

    @requires_grad.setter
    def requires_grad(self, v):
        if v:
            if self._leaf is None and not self._has_eps():
                self._make_leaf()
            self._rg = True
        else:
            self.a = _drop(self.a)
            self._leaf = None
            self._rg = False

    def requires_grad_(self, v=True):
        self.requires_grad = v
        return self

    def _make_leaf(self):
        if not AD_ON[0]:
            self._leaf = True
            return
        ids = _np.empty(self.a.shape, dtype=object)
        a = self.a.copy()
        for i in _np.ndindex(*a.shape):
            e = core.eps_var()
            ids[i] = e
            a[i] = lift(a[i]) + e
        self.a = a
        self._leaf = ids
        LEAVES.append(self)

    @property
    def grad_fn(self):
        return None if self.is_leaf else 'symbolic'

    @property
    def data(self):
        return self.detach()

    @data.setter
    def data(self, v):
        self.a = _drop(v.a)

    def is_complex(self):
        return self.dtype in (_t.complex128, _t.complex64)

    def is_floating_point(self):
        return self.dtype in (_t.float64, _t.float32)

    # -- conversion --------------------------------------------------------------------------------------------------
    def detach(self):
        return SymTensor(_drop(self.a), dtype=self._dtype, sparse=self.is_sparse)

    def clone(self, *a, **k):
        return SymTensor(self.a.copy(), dtype=self._dtype, sparse=self.is_sparse)

    def cpu(self):
        return self

    def contiguous(self):
        return self

    def coalesce(self):
        return self

    def numpy(self, force=False):
        if self._has_eps() and not force:
            raise RuntimeError("Can't call numpy() on Tensor that requires grad. Use tensor.detach().numpy() instead.")
        a = _drop(self.a)
        return a[()] if False else a

    def item(self):
        if self.a.size != 1:
            raise RuntimeError('a Tensor with %d elements cannot be converted to Scalar' % self.a.size)
        return _drop(self.a).ravel()[0]

    def tolist(self):
        return _drop(self.a).tolist()

    def _symfloat(self):
        return self.item()

    def to(self, *a, **k):
        dt = k.get('dtype')
        for x in a:
            if isinstance(x, _t.dtype):
                dt = x
        return self if dt is None else as_tensor(self, dtype=dt)

    def type(self, dt=None):
        return self.to(dt) if dt is not None else 'torch.SymTensor'

    def double(self):
        return as_tensor(self, dtype=_t.float64)

    def float(self):
        return as_tensor(self, dtype=_t.float64)

    def cdouble(self):
        return as_tensor(self, dtype=_t.complex128)

    def to_dense(self, *a, **k):
        return SymTensor(self.a, dtype=self._dtype)

    def to_sparse(self, *a, **k):
        return SymTensor(self.a, dtype=self._dtype, sparse=True)

    to_sparse_csr = to_sparse

    def indices(self):
        return SymTensor(_np.array(_np.nonzero(_np.array([[core.nz_poly(x) for x in r] for r in self.a]))))

    def values(self):
        i = self.indices().a
        return SymTensor(self.a[i[0], i[1]])

    def __array__(self, *a, **k):
        return self.numpy()

    def __float__(self):
        return float(self.item())

    def __int__(self):
        return int(self.item())

    def __complex__(self):
        return complex(self.item())

    def __index__(self):
        return self.item().__index__()

    def __bool__(self):
        if self.a.size != 1:
            raise RuntimeError('Boolean value of Tensor with more than one value is ambiguous')
        return bool(self.item())

    def __len__(self):
        if self.a.ndim == 0:
            raise TypeError('len() of a 0-d tensor')
        return len(self.a)

    def __iter__(self):
        if self.a.ndim == 0:
            raise TypeError('iteration over a 0-d tensor')
        return iter([SymTensor(self.a[i], dtype=self._dtype) for i in range(len(self.a))])

    def __format__(self, spec):
        x = self.item()
        return format(x, spec)

    def __repr__(self):
        return 'SymTensor(%r)' % (self.a,)

    def __hash__(self):
        return id(self)

    def __deepcopy__(self, memo):
        if not self.is_leaf:
            raise RuntimeError('Only Tensors created explicitly by the user (graph leaves) support the deepcopy protocol')
        r = SymTensor(_drop(self.a).copy(), dtype=self._dtype, sparse=self.is_sparse)
        if self._rg:
            r.requires_grad = True
        memo[id(self)] = r
        return r

    # -- indexing ----------------------------------------------------------------------------------------------------
    @staticmethod
    def _k(k):
        if isinstance(k, tuple):
            return tuple(SymTensor._k(x) for x in k)
        if isinstance(k, SymTensor):
            a = k.a
            if a.ndim == 0:
                return a.item().__index__()
            return N._intarr(a) if a.dtype == object else a
        if isinstance(k, Sym):
            return k.__index__()
        return k

    def __getitem__(self, k):
        return SymTensor(_np.asarray(_ensure(self.a[self._k(k)])), dtype=self._dtype)

    def __setitem__(self, k, v):
        if isinstance(v, SymTensor):
            v = v.a
        if isinstance(v, _np.ndarray) and v.ndim == 0:
            v = v.item()
        v = _cast_to(v, self._dtype)
        self.a[self._k(k)] = v

    # -- arithmetic --------------------------------------------------------------------------------------------------
    def _bin(self, o, f, rev=False):
        b = _operand(o)
        if b is None:
            return NotImplemented
        x, y = (b, self.a) if rev else (self.a, b)
        if x.dtype.kind == 'b':
            x = x.astype(int)
        if y.dtype.kind == 'b':
            y = y.astype(int)
        if x.dtype == object or y.dtype == object or f is _div:
            x, y = to_obj(x), to_obj(y)
        r = f(x, y)
        sp = self.is_sparse and (isinstance(o, SymTensor) and o.is_sparse or _operand(o).ndim == 0)
        return SymTensor(_np.asarray(_ensure(r)), sparse=sp)

    def __add__(self, o):
        return self._bin(o, lambda x, y: x + y)

    def __radd__(self, o):
        return self._bin(o, lambda x, y: x + y, True)

    def __sub__(self, o):
        return self._bin(o, lambda x, y: x - y)

    def __rsub__(self, o):
        return self._bin(o, lambda x, y: x - y, True)

    def __mul__(self, o):
        return self._bin(o, lambda x, y: x * y)

    def __rmul__(self, o):
        return self._bin(o, lambda x, y: x * y, True)

    def __truediv__(self, o):
        return self._bin(o, _div)

    def __rtruediv__(self, o):
        return self._bin(o, _div, True)

    def __pow__(self, o):
        return self._bin(o, lambda x, y: N.power(x, y))

    def __rpow__(self, o):
        return self._bin(o, lambda x, y: N.power(x, y), True)

    def __neg__(self):
        return SymTensor(-self.a, sparse=self.is_sparse)

    def __pos__(self):
        return self

    def __abs__(self):
        return abs_(self)

    def __matmul__(self, o):
        b = _operand(o)
        if b is None:
            return NotImplemented
        return SymTensor(_np.asarray(_ensure(to_obj(self.a) @ to_obj(b))),
                         sparse=self.is_sparse and isinstance(o, SymTensor) and o.is_sparse)

    def __rmatmul__(self, o):
        b = _operand(o)
        if b is None:
            return NotImplemented
        return SymTensor(_np.asarray(_ensure(to_obj(b) @ to_obj(self.a))))

    def _inplace(self, r):
        self.a = r.a
        return self

    def add_(self, o, alpha=1):
        return self._inplace(self + (o if alpha == 1 else o * alpha))

    def mul_(self, o):
        return self._inplace(self * o)

    def copy_(self, o):
        return self._inplace(SymTensor(_np.broadcast_to(o.a, self.a.shape).copy()))

    # -- comparison --------------------------------------------------------------------------------------------------
    def _cmpop(self, o, f):
        if o is None or isinstance(o, str):
            return NotImplemented
        b = _operand(o)
        if b is None:
            return NotImplemented
        x, y = _np.broadcast_arrays(_drop(self.a), _drop(b))
        if x.dtype != object and y.dtype != object:
            return SymTensor(_np.asarray(f(x, y)))
        if x.ndim == 0:
            r = f(lift(x.item()), lift(y.item()))
            out = _np.empty((), dtype=object)
            out[()] = r
            return SymTensor(out)
        out = _np.empty(x.shape, dtype=bool)
        for i in _np.ndindex(*x.shape):
            out[i] = bool(f(lift(x[i]), lift(y[i])))
        return SymTensor(out)

    def __eq__(self, o):
        return self._cmpop(o, lambda x, y: x == y)

    def __ne__(self, o):
        return self._cmpop(o, lambda x, y: x != y)

    def __lt__(self, o):
        return self._cmpop(o, lambda x, y: x < y)

    def __le__(self, o):
        return self._cmpop(o, lambda x, y: x <= y)

    def __gt__(self, o):
        return self._cmpop(o, lambda x, y: x > y)

    def __ge__(self, o):
        return self._cmpop(o, lambda x, y: x >= y)

    def __invert__(self):
        return SymTensor(~self.a)

    def __and__(self, o):
        return SymTensor(self.a & _operand(o))

    def __or__(self, o):
        return SymTensor(self.a | _operand(o))

    # -- shape -------------------------------------------------------------------------------------------------------
    @property
    def T(self):
        return SymTensor(self.a.T, dtype=self._dtype, sparse=self.is_sparse)

    @property
    def mT(self):
        return SymTensor(_np.swapaxes(self.a, -1, -2), dtype=self._dtype)

    @property
    def H(self):
        return conj(self.T)

    @property
    def mH(self):
        return conj(self.mT)

    def t(self):
        return self.T

    def transpose(self, a, b):
        return SymTensor(_np.swapaxes(self.a, a, b), dtype=self._dtype, sparse=self.is_sparse)

    def adjoint(self):
        return self.mH

    def permute(self, *d):
        if len(d) == 1 and isinstance(d[0], (tuple, list)):
            d = d[0]
        return SymTensor(self.a.transpose(d), dtype=self._dtype)

    def reshape(self, *s):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        return SymTensor(self.a.reshape(s), dtype=self._dtype)

    def view(self, *s):
        if len(s) == 1 and isinstance(s[0], _t.dtype):
            return self
        return self.reshape(*s)

    def view_as(self, o):
        return self.reshape(tuple(o.shape))

    def flatten(self, *a):
        return self.reshape(-1)

    ravel = flatten

    def squeeze(self, dim=None):
        if dim is None:
            return SymTensor(_np.asarray(self.a.squeeze()), dtype=self._dtype)
        if self.a.shape[dim] != 1:
            return SymTensor(self.a, dtype=self._dtype)
        return SymTensor(_np.asarray(self.a.squeeze(dim)), dtype=self._dtype)

    def unsqueeze(self, dim):
        if dim < 0:
            dim += self.a.ndim + 1
        return SymTensor(_np.expand_dims(self.a, dim), dtype=self._dtype)

    def expand(self, *s):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        pad = len(s) - self.a.ndim
        s = tuple(self.a.shape[i - pad] if x == -1 else x for i, x in enumerate(s))
        return SymTensor(_np.broadcast_to(self.a, s).copy(), dtype=self._dtype)

    def repeat(self, *s):
        return SymTensor(_np.tile(self.a, s), dtype=self._dtype)

    # -- maps / reductions -------------------------------------------------------------------------------------------
    @property
    def real(self):
        return SymTensor(N._map(lambda x: x.real, self.a) if self.a.ndim else to_obj(lift(self.a.item()).real))

    @property
    def imag(self):
        return SymTensor(N._map(lambda x: x.imag, self.a) if self.a.ndim else to_obj(lift(self.a.item()).imag))

    def conj(self):
        return conj(self)

    def resolve_conj(self):
        return self

    def conj_physical(self):
        return conj(self)

    def sum(self, dim=None, axis=None, keepdim=False, dtype=None):
        return sum_(self, dim, axis=axis, keepdim=keepdim)

    def mean(self, dim=None):
        return SymTensor(_np.asarray(_ensure(N.mean(self.a, dim))))

    def prod(self, dim=None):
        return SymTensor(_np.asarray(_ensure(N.prod_(self.a, dim))))

    def max(self, dim=None):
        if dim is not None:
            raise Unsupported('Tensor.max(dim)')
        return SymTensor(_np.asarray(_ensure(N.amax(self.a))))

    def min(self, dim=None):
        if dim is not None:
            raise Unsupported('Tensor.min(dim)')
        return SymTensor(_np.asarray(_ensure(N.amin(self.a))))

    def any(self, *a):
        return SymTensor(_np.asarray(bool(N.any_(self.a))))

    def all(self, *a):
        return SymTensor(_np.asarray(bool(N.all_(self.a))))

    def argmax(self, *a):
        return SymTensor(_np.asarray(N.argmax(self.a)))

    def norm(self, *a):
        return SymTensor(to_obj(N.norm(self.a)))

    def dot(self, o):
        return self @ o

    def mm(self, o):
        return self @ o

    def matmul(self, o):
        return self @ o

    def diag(self):
        return SymTensor(N.diag(self.a))

    def diagonal(self, *a):
        return SymTensor(N.diag(self.a))

    def trace(self):
        return SymTensor(to_obj(N.trace(self.a)))

    def inverse(self):
        return SymTensor(N.inv(self.a))

    def sort(self, dim=-1, descending=False):
        return sort(self, dim, descending)

    def argsort(self, dim=-1, descending=False):
        return sort(self, dim, descending)[1]

    def fill_(self, v):
        self.a[...] = lift(v)
        return self

    def zero_(self):
        return self.fill_(0)

    # -- differentiation ---------------------------------------------------------------------------------------------
    def backward(self, gradient=None, **k):
        if self.a.size != 1 and gradient is None:
            raise RuntimeError('grad can be implicitly created only for scalar outputs')
        if not self._has_eps():
            raise RuntimeError('element 0 of tensors does not require grad and does not have a grad_fn')
        tot = lift(0)
        g = to_obj(gradient.a) if gradient is not None else None
        for i in _np.ndindex(*self.a.shape):
            x = lift(self.a[i])
            tot = tot + (x if g is None else (lift(g[i]).conjugate() * x).real)
        for leaf in LEAVES:
            if leaf._leaf is None or leaf._leaf is True:
                continue
            out = _np.empty(leaf._leaf.shape, dtype=object)
            used = False
            for i in _np.ndindex(*out.shape):
                out[i] = core.eps_coeff(tot, leaf._leaf[i])
                used = used or core.nz_poly(out[i])
            if used:
                gr = SymTensor(out.view(SArr))
                leaf.grad = gr if leaf.grad is None else leaf.grad + gr


def _flt_methods():
    for nme in ('sqrt', 'exp', 'log', 'cos', 'sin', 'tan', 'tanh', 'sinh', 'cosh', 'square', 'reciprocal', 'sign'):
        f = getattr(N, nme)

        def m(self, f=f):
            return SymTensor(_np.asarray(_ensure(f(self.a))))
        setattr(SymTensor, nme, m)
    SymTensor.abs = lambda self: abs_(self)
    SymTensor.pow = lambda self, o: self ** o
    SymTensor.round = lambda self, decimals=0: SymTensor(_np.asarray(_ensure(N.around(_drop(self.a), decimals))))
    SymTensor.add = lambda self, o: self + o
    SymTensor.sub = lambda self, o: self - o
    SymTensor.mul = lambda self, o: self * o
    SymTensor.div = lambda self, o: self / o
    SymTensor.neg = lambda self: -self
    SymTensor.type_as = lambda self, o: self
    SymTensor.index_select = lambda self, dim, idx: SymTensor(_np.take(self.a, SymTensor._k(idx), axis=dim))
    SymTensor.isnan = lambda self: SymTensor(_np.asarray(N.isnan(self.a)))


AD_ON = [False]
LEAVES = []


def _div(x, y):
    return x / y


def _ensure(x):
    """0-d results of object arithmetic come back as scalars."""
    if isinstance(x, _np.ndarray):
        return x
    a = _np.empty((), dtype=object)
    a[()] = x if isinstance(x, (bool, SymBool)) or lift(x) is None else lift(x)
    return a.view(SArr)


def _operand(o):
    if isinstance(o, SymTensor):
        return o.a
    if isinstance(o, _np.ndarray):
        return o if o.dtype.kind in 'ibO' else to_obj(o)
    l = lift(o)
    if l is None:
        return None
    return _ensure(l)


def _cast_to(v, dt):
    if dt is None or not _is_float(dt):
        return v
    if isinstance(v, Sym):
        return v.real
    if isinstance(v, _np.ndarray) and v.dtype == object:
        return N._map(lambda x: x.real, v)
    return v


_flt_methods()


# -- module functions -------------------------------------------------------------------------------------------------
def as_tensor(data, dtype=None, device=None):
    dtype = _norm_dtype(dtype)
    if isinstance(data, SymTensor):
        a = data.a
        if dtype is not None and _is_float(dtype) and a.dtype == object:
            a = N._map(lambda x: x.real, a) if a.ndim else to_obj(lift(a.item()).real)
        elif dtype in (_t.int64, _t.int32) and a.dtype == object:
            a = N._cast(a, int)
        if a is data.a and (dtype is None or dtype == data._dtype):
            return data
        if a is data.a:
            r = SymTensor(a, dtype=dtype, sparse=data.is_sparse)
            return r
        return SymTensor(a, dtype=dtype, sparse=data.is_sparse)
    return tensor(data, dtype=dtype)


def tensor(data, dtype=None, device=None, requires_grad=False, **k):
    from .qlib import FQobj
    dtype = _norm_dtype(dtype)
    if isinstance(data, (float, _np.floating)) and data != data:
        return SymTensor(_np.array(float('nan')), dtype=dtype)
    if isinstance(data, SymTensor):
        a = _drop(data.a).copy()
    elif isinstance(data, FQobj):
        raise TypeError('must be real number, not Qobj')
    elif isinstance(data, _np.ndarray):
        a = to_obj(data).copy() if data.dtype.kind in 'fcO' else data.copy()
    elif isinstance(data, (list, tuple)):
        data = [(_drop(x.a) if isinstance(x, SymTensor) else x) for x in data]
        a = N.array(data)
    elif data is None or isinstance(data, str):
        raise TypeError('must be real number, not %s' % type(data).__name__)
    else:
        a = _np.asarray(data) if isinstance(data, (int, bool)) and dtype is None else to_obj(data)
    if dtype is not None and not (dtype in (_t.int64, _t.int32, _t.bool)):
        a = to_obj(a)
        if _is_float(dtype):
            a = N._map(lambda x: x.real, a) if a.ndim else to_obj(lift(a.item()).real)
    elif dtype in (_t.int64, _t.int32) and a.dtype == object:
        a = N._cast(a, int)
    return SymTensor(a, dtype=dtype, requires_grad=requires_grad)


def from_numpy(a):
    return SymTensor(a)


def _shape(s):
    if len(s) == 1 and isinstance(s[0], (tuple, list)):
        return tuple(s[0])
    return tuple(s)


def zeros(*s, dtype=None, requires_grad=False, **k):
    return SymTensor(N._zero_obj(_shape(s)), dtype=dtype, requires_grad=requires_grad)


def ones(*s, dtype=None, requires_grad=False, **k):
    return SymTensor(N._zero_obj(_shape(s), 1), dtype=dtype, requires_grad=requires_grad)


def full(s, v, dtype=None, **k):
    return SymTensor(N._zero_obj(tuple(s), v), dtype=dtype)


def zeros_like(x, dtype=None, **k):
    return SymTensor(N._zero_obj(x.a.shape), dtype=dtype or x._dtype)


def ones_like(x, dtype=None, **k):
    return SymTensor(N._zero_obj(x.a.shape, 1), dtype=dtype or x._dtype)


def eye(n, m=None, dtype=None, **k):
    return SymTensor(N.eye(n, m), dtype=dtype)


def arange(*a, **k):
    return SymTensor(N.arange(*a))


def _el(f):
    def g(x, *a, **k):
        if not isinstance(x, SymTensor):
            raise TypeError('argument must be Tensor, not %s' % type(x).__name__)
        return SymTensor(_np.asarray(_ensure(f(x.a))), sparse=x.is_sparse)
    return g


sqrt, exp, log = _el(N.sqrt), _el(N.exp), _el(N.log)
cos, sin, tan, tanh, sinh, cosh = _el(N.cos), _el(N.sin), _el(N.tan), _el(N.tanh), _el(N.sinh), _el(N.cosh)
abs_, square, reciprocal, sign = _el(N.absolute), _el(N.square), _el(N.reciprocal), _el(N.sign)
neg, conj = _el(N.negative), _el(N.conjugate)
log1p, expm1 = _el(N.log1p), _el(N.expm1)


def real(x):
    return x.real


def imag(x):
    return x.imag


def round_(x, decimals=0):
    return x.round(decimals)


def pow_(x, a):
    return x ** a if isinstance(x, SymTensor) else x ** a


def sum_(x, dim=None, axis=None, keepdim=False, **k):
    d = dim if dim is not None else axis
    if isinstance(d, list):
        d = tuple(d)
    return SymTensor(_np.asarray(_ensure(N.sum_(x.a, d, keepdims=keepdim))))


def stack(ts, dim=0, **k):
    return SymTensor(_np.stack([to_obj(t.a) for t in ts], axis=dim), dtype=ts[0]._dtype)


def cat(ts, dim=0, **k):
    return SymTensor(_np.concatenate([to_obj(t.a) for t in ts], axis=dim))


def mm(a, b):
    return a @ b


def kron(a, b):
    return SymTensor(N.kron(a.a, b.a))


def diag(v):
    return SymTensor(N.diag(v.a))


def block_diag(*ts):
    arrs = [to_obj(t.a) for t in ts]
    arrs = [x.reshape(1, -1) if x.ndim < 2 else x for x in arrs]
    r = N._zero_obj((sum(x.shape[0] for x in arrs), sum(x.shape[1] for x in arrs)))
    i = j = 0
    for x in arrs:
        r[i:i + x.shape[0], j:j + x.shape[1]] = x
        i += x.shape[0]
        j += x.shape[1]
    return SymTensor(r)


SortResult = collections.namedtuple('sort', ['values', 'indices'])


def sort(x, dim=-1, descending=False, **k):
    if x.a.dtype.kind == 'i':
        i = _np.argsort(x.a, dim)
    else:
        i = N.argsort(_drop(x.a), dim)
    if descending:
        i = _np.flip(i, dim)
    return SortResult(SymTensor(_np.take_along_axis(x.a, i, dim)), SymTensor(i))


def where(c, *a):
    c = c.a if isinstance(c, SymTensor) else c
    if not a:
        return tuple(SymTensor(i) for i in _np.nonzero(c))
    x, y = [_operand(v) for v in a]
    return SymTensor(_np.where(N._boolarr(c), to_obj(x), to_obj(y)))


def einsum(sub, *ts):
    return SymTensor(N.einsum(sub, *[t.a for t in ts]))


def normal(mean, std, size=None, **k):
    m = mean if isinstance(mean, SymTensor) else as_tensor(mean)
    s = std if isinstance(std, SymTensor) else as_tensor(std)
    b = _np.broadcast_arrays(to_obj(m.a), to_obj(s.a))
    if size is not None and b[0].ndim == 0:
        shp = tuple(size) if isinstance(size, (tuple, list)) else (size,)
        b = [_np.broadcast_to(x, shp) for x in b]
    out = _np.empty(b[0].shape, dtype=object)
    for i in _np.ndindex(*out.shape):
        sv = lift(b[1][i])
        if core.eq0(core.drop_eps(sv)) is True:
            out[i] = core.drop_eps(lift(b[0][i]))     # torch.normal is not differentiable w.r.t. its arguments
        else:
            out[i] = core.drop_eps(lift(b[0][i]) + sv * N.fresh_random())
    return SymTensor(out.view(SArr), dtype=_t.float64)


def sparse_coo_tensor(indices, values, size=None, dtype=None, **k):
    ind = indices.a if isinstance(indices, SymTensor) else _np.asarray(indices)
    val = values.a if isinstance(values, SymTensor) else to_obj(values)
    if size is None:
        size = tuple(int(r.max()) + 1 for r in ind)
    r = N._zero_obj(tuple(size))
    for q in range(ind.shape[1] if ind.ndim == 2 else 0):
        k2 = tuple(int(x) for x in ind[:, q])
        r[k2] = lift(r[k2]) + lift(val[q])
    return SymTensor(r, dtype=dtype, sparse=True)


def LongTensor(x):
    if isinstance(x, SymTensor):
        x = x.a
    return SymTensor(_np.array(x, dtype=int))


def is_tensor(x):
    return isinstance(x, SymTensor)


def dot(a, b):
    return SymTensor(_ensure(N._sum([lift(x) * y for x, y in zip(a.a, b.a)])))


def vdot(a, b):
    return SymTensor(_ensure(N.vdot(a.a, b.a)))


def outer(a, b):
    return SymTensor(N.outer(a.a, b.a))


def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return N.allclose(_drop(a.a), _drop(b.a), rtol, atol)


def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return SymTensor(_np.asarray(N.isclose(_drop(a.a), _drop(b.a), rtol, atol)))


# -- autograd ---------------------------------------------------------------------------------------------------------
class _Ctx:
    def __init__(self, needs):
        self.needs_input_grad = needs
        self.saved_tensors = ()

    def save_for_backward(self, *ts):
        self.saved_tensors = ts

    def mark_non_differentiable(self, *a):
        pass

    def set_materialize_grads(self, v):
        pass

    def mark_dirty(self, *a):
        pass


BACKWARD_HOOK = [None]


def apply_function(cls, *args):
    old = core.EPS_OFF[0]
    core.EPS_OFF[0] = True
    try:
        return _apply_function(cls, *args)
    finally:
        core.EPS_OFF[0] = old


def _apply_function(cls, *args):
    needs = tuple(isinstance(x, SymTensor) and x.requires_grad for x in args)
    plain = [x.detach() if isinstance(x, SymTensor) else x for x in args]
    ctx = _Ctx(needs)
    if 'setup_context' in cls.__dict__ and cls.setup_context is not _t.autograd.Function.setup_context:
        out = cls.forward(*plain)
        cls.setup_context(ctx, tuple(plain), out)
    else:
        out = cls.forward(ctx, *plain)
    if BACKWARD_HOOK[0] is not None:
        BACKWARD_HOOK[0](cls, ctx, args, out)
    # torch runs forward() without recording gradients
    if core.EPS and isinstance(out, SymTensor) and out._has_eps():
        out = SymTensor(_drop(out.a), dtype=out._dtype)
    if not any(needs) or not core.EPS or not any(isinstance(x, SymTensor) and x._has_eps() for x in args):
        return out
    # run the code's own backward() with a symbolic output gradient and attach the derivative it reports
    g = _np.empty(out.a.shape, dtype=object)
    cx = out.is_complex()
    gens = {}
    for i in _np.ndindex(*g.shape):
        re = core.fresh('gout')
        im = core.fresh('gout') if cx else None
        gens[i] = (re, im)
        g[i] = re + 1j * im if cx else re
    saved = list(core.EPS)
    with _t.no_grad():
        gi = cls.backward(ctx, SymTensor(g.view(SArr), dtype=out.dtype))
    if not isinstance(gi, tuple):
        gi = (gi,)
    if len(gi) > len(args):
        if any(x is not None for x in gi[len(args):]):
            raise RuntimeError('function returned an incorrect number of gradients')
    res = out.a.copy()
    for x, gx in zip(args, gi):
        if gx is None or not isinstance(x, SymTensor) or not x._has_eps():
            continue
        if tuple(gx.a.shape) != tuple(x.a.shape):
            raise RuntimeError('Function returned an invalid gradient: got %s but expected shape compatible with %s'
                               % (tuple(gx.a.shape), tuple(x.a.shape)))
        for j in _np.ndindex(*x.a.shape):
            xe = core.eps_part(lift(x.a[j]))
            if not core.nz_poly(xe):
                continue
            gv = core.drop_eps(lift(gx.a[j]).real)
            for i, (re, im) in gens.items():
                d = core.lin_coeff(gv, re)
                if im is not None:
                    d = d + 1j * core.lin_coeff(gv, im)
                if core.nz_poly(d):
                    res[i] = lift(res[i]) + d * xe
    return SymTensor(res, dtype=out._dtype)


class _Module(types.ModuleType):
    def __init__(self, name, real, over):
        types.ModuleType.__init__(self, name)
        self.__dict__['_real'] = real
        self.__dict__.update(over)

    def __getattr__(self, name):
        v = getattr(self.__dict__['_real'], name)
        if isinstance(v, (type, _t.dtype, _t.layout)) or isinstance(v, types.ModuleType):
            return v
        if callable(v):
            def stub(*a, **k):
                raise Unsupported('%s.%s' % (self.__name__, name))
            return stub
        return v


def k0e(x):
    return SymTensor(_np.asarray(_ensure(N._map(lambda v: core.func('k0e', v), _drop(x.a)))))


def _inv(a):
    return SymTensor(N.inv(a.a), dtype=a._dtype)


def _norm(x, *a, **k):
    return SymTensor(to_obj(N.norm(x.a)))


OVERRIDES = dict(
    Tensor=SymTensor, as_tensor=as_tensor, tensor=tensor, from_numpy=from_numpy, zeros=zeros, ones=ones, full=full,
    zeros_like=zeros_like, ones_like=ones_like, eye=eye, arange=arange, sqrt=sqrt, exp=exp, log=log, cos=cos, sin=sin,
    tan=tan, tanh=tanh, sinh=sinh, cosh=cosh, abs=abs_, absolute=abs_, square=square, reciprocal=reciprocal, sign=sign,
    neg=neg, conj=conj, log1p=log1p, expm1=expm1, real=real, imag=imag, round=round_, pow=pow_, sum=sum_, stack=stack,
    cat=cat, concat=cat, mm=mm, matmul=mm, kron=kron, diag=diag, block_diag=block_diag, sort=sort,
    argsort=lambda x, dim=-1, descending=False: sort(x, dim, descending)[1], where=where, einsum=einsum, normal=normal,
    sparse_coo_tensor=sparse_coo_tensor, LongTensor=LongTensor, is_tensor=is_tensor, dot=dot, vdot=vdot, outer=outer,
    allclose=allclose, isclose=isclose, inverse=_inv, squeeze=lambda x, dim=None: x.squeeze(dim),
    unsqueeze=lambda x, dim: x.unsqueeze(dim), transpose=lambda x, a, b: x.transpose(a, b),
    reshape=lambda x, s: x.reshape(s), is_complex=lambda x: x.is_complex(), clone=lambda x: x.clone(),
    diagonal=lambda x, *a: x.diagonal(), trace=lambda x: x.trace(), mul=lambda a, b: a * b, add=lambda a, b: a + b,
    sub=lambda a, b: a - b, div=lambda a, b: a / b, max=lambda x: x.max(), min=lambda x: x.min(),
    norm=_norm, prod=lambda x, dim=None: x.prod(dim), mean=lambda x, dim=None: x.mean(dim),
    argmax=lambda x: x.argmax(), any=lambda x: x.any(), all=lambda x: x.all(),
    empty=zeros, empty_like=zeros_like, adjoint=lambda x: x.mH, resolve_conj=lambda x: x, ger=outer, hstack=cat,
    float_power=pow_, isnan=lambda x: x.isnan(),
)
T = _Module('torch', _t, OVERRIDES)
T.linalg = _Module('torch.linalg', _t.linalg, dict(inv=_inv, norm=_norm, solve=lambda a, b: _inv(a) @ b,
                                                   det=lambda a: SymTensor(to_obj(N.det(a.a)))))
T.sparse = _Module('torch.sparse', _t.sparse, dict(mm=mm))
T.special = _Module('torch.special', _t.special, dict(scaled_modified_bessel_k0=k0e))


class _NoGrad:
    """torch.no_grad(): results are detached by dropping infinitesimals of the leaves while active."""

    def __enter__(self):
        self.saved = AD_ON[0]
        AD_ON[0] = False
        return _t.no_grad().__enter__()

    def __exit__(self, *a):
        AD_ON[0] = self.saved
        _t.set_grad_enabled(True)

    def __call__(self, f):
        def g(*a, **k):
            with _NoGrad():
                return f(*a, **k)
        return g


T.no_grad = _NoGrad


def k0e_value(x):
    from scipy.special import kve
    return float(kve(0, x))


core.FUNCS['k0e'] = k0e_value
core.FUNCS['k1e'] = lambda x: float(__import__('scipy.special').special.kve(1, x))
