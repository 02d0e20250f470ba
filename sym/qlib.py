"""Stand-in for qutip: operators with symbolic matrix entries (sparse dictionary of non-zero entries)."""
import types
from fractions import Fraction

import numpy as _np
import qutip as _qt
from qutip.core.data import CSR, Dense, Dia

from . import core
from .core import Sym, Unsupported, lift
from .nplib import SArr, to_obj, _zero_obj


def nz(x):
    return bool(x.re) or bool(x.im)


def _num(x):
    """Scalar operand or None."""
    from .tlib import SymTensor
    if isinstance(x, SymTensor):
        return None
    if isinstance(x, SArr) and x.ndim == 0:
        x = x.item()
    if isinstance(x, (_np.ndarray, list, tuple, str, FQobj)):
        return lift(x) if isinstance(x, _np.ndarray) and x.ndim == 0 else None
    return lift(x)


class _Meta(type):
    def __instancecheck__(cls, o):
        return type.__instancecheck__(cls, o)


class FQobj:
    __array_ufunc__ = None

    def __init__(self, arg=None, dims=None, type=None, copy=True, superrep=None, isherm=None, isunitary=None, dtype=None):
        if isinstance(arg, FQobj):
            self.e, self.shape = dict(arg.e), arg.shape
            self.dims = dims or [list(arg.dims[0]), list(arg.dims[1])]
            self._dt = arg._dt
            return
        from .tlib import SymTensor
        if isinstance(arg, FCsr):
            arg = arg.toarray()
        if isinstance(arg, SymTensor):
            arg = arg.a
        a = to_obj(arg if arg is not None else [[0]])
        if a.ndim == 0:
            a = a.reshape(1, 1)
        elif a.ndim == 1:
            a = a.reshape(-1, 1)
        self.shape = a.shape
        self.e = {}
        for i in range(a.shape[0]):
            for j in range(a.shape[1]):
                v = lift(a[i, j])
                if nz(v):
                    self.e[i, j] = v
        self._dt = Dense
        if dims is None:
            dims = [[a.shape[0]], [a.shape[1]]]
        if int(_np.prod(dims[0])) != a.shape[0] or int(_np.prod(dims[1])) != a.shape[1]:
            raise ValueError('Provided dimensions do not match the data: %s vs %s' % (dims, a.shape))
        self.dims = [list(dims[0]), list(dims[1])]

    @classmethod
    def make(cls, e, shape, dims, dt=CSR):
        o = object.__new__(cls)
        o.e, o.shape, o.dims, o._dt = e, shape, dims, dt
        return o

    # -- properties --------------------------------------------------------------------------------------------------
    @property
    def dtype(self):
        return self._dt

    @property
    def data(self):
        return self

    @property
    def isherm(self):
        return self.shape[0] == self.shape[1] and all(
            core.eq0(self.e.get((j, i), lift(0)) - v.conjugate()) is True for (i, j), v in self.e.items())

    @property
    def isket(self):
        return self.shape[1] == 1 and all(d == 1 for d in self.dims[1]) and self.shape[0] != 1

    @property
    def isbra(self):
        return self.shape[0] == 1 and self.shape[1] != 1

    @property
    def isoper(self):
        return not self.isket and not self.isbra

    @property
    def type(self):
        return 'ket' if self.isket else ('bra' if self.isbra else 'oper')

    def to(self, dt, *a, **k):
        r = self.copy()
        r._dt = {'csr': CSR, 'dense': Dense, 'dia': Dia, 'CSR': CSR, 'Dense': Dense, 'Dia': Dia}.get(dt, dt)
        return r

    def copy(self):
        return FQobj.make(dict(self.e), self.shape, [list(self.dims[0]), list(self.dims[1])], self._dt)

    def __deepcopy__(self, memo):
        return self.copy()

    def full(self, *a, **k):
        r = _zero_obj(self.shape)
        for (i, j), v in self.e.items():
            _np.ndarray.__setitem__(r, (i, j), v)
        return r

    def __array__(self, *a, **k):
        return self.full()

    def data_as(self, format=None, copy=True):
        if format in (None, 'ndarray'):
            return self.full()
        return FCsr(self.e, self.shape)

    def diag(self):
        r = _zero_obj((min(self.shape),))
        for i in range(min(self.shape)):
            r[i] = self.e.get((i, i), lift(0))
        return r

    def contract(self, inplace=False):
        d = []
        for s in self.dims:
            t = [x for x in s if x != 1]
            d.append(t or [1])
        # qutip drops a mode only where both sides have size one
        if len(self.dims[0]) == len(self.dims[1]):
            keep = [i for i in range(len(self.dims[0])) if not (self.dims[0][i] == 1 and self.dims[1][i] == 1)]
            d = [[s[i] for i in keep] or [1] for s in self.dims]
        else:
            d = [[x for x in s if x != 1] or [1] for s in self.dims]
        if inplace:
            self.dims = d
            return self
        return FQobj.make(dict(self.e), self.shape, d, self._dt)

    def dag(self):
        return FQobj.make({(j, i): v.conjugate() for (i, j), v in self.e.items()}, (self.shape[1], self.shape[0]),
                          [list(self.dims[1]), list(self.dims[0])], self._dt)

    def conj(self):
        return FQobj.make({k: v.conjugate() for k, v in self.e.items()}, self.shape,
                          [list(self.dims[0]), list(self.dims[1])], self._dt)

    def trans(self):
        return self.dag().conj()

    def tr(self):
        t = lift(0)
        for i in range(self.shape[0]):
            t = t + self.e.get((i, i), lift(0))
        return t

    def norm(self, *a, **k):
        t = lift(0)
        for v in self.e.values():
            t = t + v.real * v.real + v.imag * v.imag
        return core.sqrt(t)

    def unit(self, *a, **k):
        return self / self.norm()

    def tidyup(self, *a, **k):
        return self

    def overlap(self, o):
        return (self.dag() * o)

    def matrix_element(self, bra, ket):
        if bra.isket:
            bra = bra.dag()
        return bra * self * ket

    def eigenstates(self, *a, **k):
        raise Unsupported('Qobj.eigenstates')

    def eigenenergies(self, *a, **k):
        raise Unsupported('Qobj.eigenenergies')

    def expm(self, *a, **k):
        return expm_q(self)

    def __getitem__(self, k):
        if not isinstance(k, tuple):
            return self.full()[k]
        i, j = k
        if isinstance(i, (int, _np.integer)) and isinstance(j, (int, _np.integer)):
            return self.e.get((i % self.shape[0], j % self.shape[1]), lift(0))
        return self.full()[k]

    # -- arithmetic --------------------------------------------------------------------------------------------------
    def _map(self, f):
        e = {}
        for k, v in self.e.items():
            w = f(v)
            if nz(w):
                e[k] = w
        return FQobj.make(e, self.shape, [list(self.dims[0]), list(self.dims[1])], self._dt)

    def __neg__(self):
        return self._map(lambda v: -v)

    def __pos__(self):
        return self

    def _eye(self, s):
        if self.shape[0] != self.shape[1]:
            raise TypeError('scalar added to a non-square quantum object')
        return FQobj.make({(i, i): s for i in range(self.shape[0])} if nz(s) else {}, self.shape,
                          [list(self.dims[0]), list(self.dims[1])], self._dt)

    def __add__(self, o):
        if not isinstance(o, FQobj):
            s = _num(o)
            if s is None:
                return NotImplemented
            if not nz(s):
                return self.copy()
            o = self._eye(s)
        if self.dims != o.dims:
            raise ValueError('incompatible dimensions %s and %s' % (self.dims, o.dims))
        e = dict(self.e)
        for k, v in o.e.items():
            w = e.get(k)
            w = v if w is None else w + v
            if nz(w):
                e[k] = w
            else:
                e.pop(k, None)
        return FQobj.make(e, self.shape, [list(self.dims[0]), list(self.dims[1])], self._dt)

    def __radd__(self, o):
        return self.__add__(o)

    def __sub__(self, o):
        if isinstance(o, FQobj):
            return self + (-o)
        s = _num(o)
        return NotImplemented if s is None else self + (-s)

    def __rsub__(self, o):
        s = _num(o)
        return NotImplemented if s is None else (-self) + s

    def __mul__(self, o):
        if isinstance(o, FQobj):
            return self.__matmul__(o)
        s = _num(o)
        if s is None:
            return NotImplemented
        return self._map(lambda v: v * s)

    def __rmul__(self, o):
        s = _num(o)
        if s is None:
            return NotImplemented
        return self._map(lambda v: s * v)

    def __truediv__(self, o):
        s = _num(o)
        if s is None:
            return NotImplemented
        si = s.inverse()
        return self._map(lambda v: v * si)

    def __matmul__(self, o):
        if not isinstance(o, FQobj):
            if isinstance(o, _np.ndarray):
                return self * FQobj(o)
            return NotImplemented
        if self.dims[1] != o.dims[0]:
            raise TypeError('incompatible dimensions %s and %s' % (self.dims, o.dims))
        e = {}
        rows = {}
        for (k, j), v in o.e.items():
            rows.setdefault(k, []).append((j, v))
        for (i, k), v in self.e.items():
            for j, w in rows.get(k, ()):
                p = v * w
                q = e.get((i, j))
                e[i, j] = p if q is None else q + p
        e = {k: v for k, v in e.items() if nz(v)}
        shape = (self.shape[0], o.shape[1])
        if shape == (1, 1):
            return e.get((0, 0), lift(0))
        return FQobj.make(e, shape, [list(self.dims[0]), list(o.dims[1])], self._dt)

    def __pow__(self, n):
        r = self
        for _ in range(int(n) - 1):
            r = r * self
        return r

    def __eq__(self, o):
        if not isinstance(o, FQobj):
            return False
        if self.dims != o.dims:
            return False
        z = lift(0)
        return all(bool(self.e.get(k, z) == o.e.get(k, z)) for k in set(self.e) | set(o.e))

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None

    def __repr__(self):
        return 'FQobj(%s, %d non-zero)' % (self.dims, len(self.e))


class FCsr:
    """Result of Qobj.data_as('csr_matrix'); only what is needed to hand it on."""

    def __init__(self, e, shape):
        self.e, self.shape = dict(e), shape

    def tocoo(self, *a, **k):
        return self

    tocsr = tocoo
    tocsc = tocoo
    copy = tocoo

    @property
    def row(self):
        return _np.array([k[0] for k in sorted(self.e)], dtype=int)

    @property
    def col(self):
        return _np.array([k[1] for k in sorted(self.e)], dtype=int)

    @property
    def data(self):
        r = _np.empty(len(self.e), dtype=object)
        for i, k in enumerate(sorted(self.e)):
            r[i] = self.e[k]
        return r.view(SArr)

    @property
    def nnz(self):
        return len(self.e)

    def toarray(self, *a, **k):
        r = _zero_obj(self.shape)
        for k2, v in self.e.items():
            r[k2] = v
        return r

    todense = toarray

    def nonzero(self):
        return self.row, self.col

    def __matmul__(self, o):
        return self.toarray() @ to_obj(o)

    def __add__(self, o):
        return FCsr({k: self.e.get(k, lift(0)) + o.e.get(k, lift(0)) for k in set(self.e) | set(o.e)}, self.shape)


# -- constructors -----------------------------------------------------------------------------------------------------
def _n(N):
    return int(N.__index__()) if not isinstance(N, (float,)) else int(N)


def _op(e, n, dt=Dia):
    e = {k: lift(v) for k, v in e.items()}
    return FQobj.make({k: v for k, v in e.items() if nz(v)}, (n, n), [[n], [n]], dt)


def qeye(dimensions, **k):
    if isinstance(dimensions, list):
        n = int(_np.prod(dimensions))
        return FQobj.make({(i, i): lift(1) for i in range(n)}, (n, n), [list(dimensions)] * 2, Dia)
    n = _n(dimensions)
    return _op({(i, i): 1 for i in range(n)}, n)


def qzero(dimensions, *a, **k):
    n = _n(dimensions)
    return _op({}, n)


def destroy(N, offset=0, **k):
    N = _n(N)
    return _op({(i - 1, i): core.sqrt(lift(i + offset)) for i in range(1, N)}, N)


def create(N, offset=0, **k):
    return destroy(N, offset).dag()


def num(N, offset=0, **k):
    N = _n(N)
    return _op({(i, i): i + offset for i in range(N)}, N)


def position(N, **k):
    return (destroy(N) + create(N)) / core.sqrt(lift(2))


def momentum(N, **k):
    return -1j * (destroy(N) - create(N)) / core.sqrt(lift(2))


def charge(Nmax, Nmin=None, frac=1, **k):
    if Nmin is None:
        Nmin = -Nmax
    lo, hi = core.to_frac(Nmin) if not isinstance(Nmin, Sym) else Nmin.const(), \
        core.to_frac(Nmax) if not isinstance(Nmax, Sym) else Nmax.const()
    vals = []
    x = lo
    while x < hi + 1:
        vals.append(x)
        x += 1
    return _op({(i, i): lift(v) * lift(frac) for i, v in enumerate(vals)}, len(vals))


def basis(N, n=0, **k):
    N = _n(N)
    return FQobj.make({(n, 0): lift(1)}, (N, 1), [[N], [1]], Dense)


fock = basis


def tensor(*args):
    if len(args) == 1 and isinstance(args[0], (list, tuple)):
        args = args[0]
    if not args:
        raise TypeError('Requires at least one input argument')
    out = None
    for o in args:
        if not isinstance(o, FQobj):
            raise TypeError('One of inputs is not a quantum object')
        if out is None:
            out = o.copy()
            continue
        e = {}
        r, c = o.shape
        for (i, j), v in out.e.items():
            for (k, l), w in o.e.items():
                e[i * r + k, j * c + l] = v * w
        out = FQobj.make(e, (out.shape[0] * r, out.shape[1] * c),
                         [out.dims[0] + o.dims[0], out.dims[1] + o.dims[1]], CSR)
    # qutip merges unit dimensions when everything is one-dimensional
    for k in (0, 1):
        if out.dims[k] and all(x == 1 for x in out.dims[k]):
            out.dims[k] = [1]
    return out


def displace(N, alpha, offset=0, method='operator', **k):
    """exp(alpha a+ - alpha* a) on the truncated space, closed form for N <= 3 (see DESIGN.md), else an abstract matrix."""
    N = _n(N)
    al = lift(alpha)
    if al is None:
        al = lift(alpha.item())
    if N == 1:
        return _op({(0, 0): 1}, 1, Dense)
    if not nz(al):
        return qeye(N).to('dense')
    if al.re and al.im:
        raise Unsupported('displacement with complex amplitude')
    if al.im:
        x = core.mk(al.im)     # alpha = i x: exp(i x (a + a+))
        X = destroy(N) + create(N)
        ph = 1j
    else:
        x = core.mk(al.re)     # exp(x (a+ - a)) ; (a+ - a) = -i (i(a+ - a)), hermitian Y = i(a+ - a)
        X = 1j * (create(N) - destroy(N))
        ph = -1j
    return _exp_ladder(X, x, ph, N)


ABSTRACT_DISPLACE = [False]


def _exp_ladder(X, x, ph, N):
    """exp(ph * x * X) for X = a + a+ (or its rotated version), spectrum of X symmetric."""
    if N == 2:
        # X^2 = 1
        return (qeye(N) * core.cos(x) + X * (ph * core.sin(x))).to('dense')
    if N == 3:
        # X^3 = 3 X
        s3 = core.sqrt(lift(3))
        t = x * s3
        return (qeye(N) + X * (ph * core.sin(t) / s3) + (X * X) * ((core.cos(t) - 1) / 3)).to('dense')
    if N == 4:
        # eigenvalues +-sqrt(3+sqrt6), +-sqrt(3-sqrt6):  exp by interpolation in X^2
        s6 = core.sqrt(lift(6))
        la, lb = core.sqrt(3 + s6), core.sqrt(3 - s6)
        ca, sa, cb, sb = core.cos(x * la), core.sin(x * la), core.cos(x * lb), core.sin(x * lb)
        d = (la * la - lb * lb)
        di = d.inverse()
        X2 = X * X
        I = qeye(N)
        Pa, Pb = (X2 - I * (lb * lb)) * di, (I * (la * la) - X2) * di
        return (Pa * ca + Pb * cb + (Pa * X * (sa / la) + Pb * X * (sb / lb)) * ph).to('dense')
    raise Unsupported('displacement operator of dimension %d' % N)


def expm_q(o):
    raise Unsupported('Qobj.expm')


def expect(op, st):
    if st.isket:
        return st.dag() * op * st
    return (op * st).tr()


def commutator(a, b, kind='normal'):
    return a * b - b * a if kind == 'normal' else a * b + b * a


def ket2dm(k):
    return k * k.dag()


class _QT(types.ModuleType):
    def __getattr__(self, name):
        v = getattr(_qt, name)
        if isinstance(v, types.ModuleType) or isinstance(v, type):
            return v
        if callable(v):
            def stub(*a, **k):
                raise Unsupported('qutip.' + name)
            return stub
        return v


QT = _QT('qutip')
OVERRIDES = dict(Qobj=FQobj, qeye=qeye, identity=qeye, qzero=qzero, destroy=destroy, create=create, num=num, charge=charge,
                 basis=basis, fock=fock, tensor=tensor, displace=displace, position=position, momentum=momentum,
                 expect=expect, commutator=commutator, ket2dm=ket2dm)
for _k, _v in OVERRIDES.items():
    setattr(QT, _k, _v)
