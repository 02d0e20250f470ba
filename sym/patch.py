"""Run the real SQcircuit modules on the symbolic stand-ins of their numeric libraries.

Only names bound in SQcircuit modules are rebound (by identity of the library object they refer to), so the code under
check is exactly the source in /repo; numpy, qutip, torch, scipy themselves stay untouched.
"""
import builtins
import cmath
import importlib
import math
import sys
import types

import numpy as np
import qutip as qt
import scipy
import scipy.linalg
import scipy.sparse
import scipy.sparse.linalg
import scipy.special
import torch

from . import core, nplib, qlib, tlib
from .core import Sym, Unsupported, lift

HOOKS = dict(sqrtm=None, eigs=None, eigsh=None)


# -- scipy ------------------------------------------------------------------------------------------------------------
def _sqrtm(a, disp=True, **k):
    a = nplib.to_obj(a)
    if nplib._concrete(a):
        return nplib.to_obj(scipy.linalg.sqrtm(nplib.to_float(a)))
    if a.shape == (1, 1):
        return nplib.array([[core.sqrt(lift(a[0, 0]))]])
    if HOOKS['sqrtm'] is not None:
        r = HOOKS['sqrtm'](a)
        if r is not None:
            return r
    if all(core.eq0(lift(a[i, j])) is True for i in range(a.shape[0]) for j in range(a.shape[1]) if i != j):
        return nplib.diag(nplib.array([core.sqrt(lift(a[i, i])) for i in range(a.shape[0])]))
    raise Unsupported('square root of a symbolic matrix')


def _block_diag(*arrs):
    return tlib.block_diag(*[tlib.SymTensor(nplib.to_obj(a)) for a in arrs]).a


def _eigs(A, k=6, **kw):
    if HOOKS['eigs'] is not None:
        return HOOKS['eigs'](A, k, **kw)
    raise Unsupported('sparse eigensolver')


def _eigsh(A, k=6, **kw):
    if HOOKS['eigsh'] is not None:
        return HOOKS['eigsh'](A, k, **kw)
    if HOOKS['eigs'] is not None:
        return HOOKS['eigs'](A, k, **kw)
    raise Unsupported('sparse eigensolver')


def _hermitenorm(n, x):
    def h(v, n):
        a, b = lift(1), v
        if n == 0:
            return a
        for k in range(1, n):
            a, b = b, v * b - k * a
        return b
    n = int(n)
    return nplib._map(lambda v: h(v, n), x)


def _hermite(n, x):
    def h(v, n):
        a, b = lift(1), 2 * v
        if n == 0:
            return a
        for k in range(1, n):
            a, b = b, 2 * v * b - 2 * k * a
        return b
    n = int(n)
    return nplib._map(lambda v: h(v, n), x)


def _kve(n, x):
    n = int(n) if not isinstance(n, Sym) else n.__index__()
    if n not in (0, 1):
        raise Unsupported('kve of order %r' % n)
    from .tlib import SymTensor
    if isinstance(x, SymTensor):
        x = x.numpy()
    r = nplib._map(lambda v: core.func('k%de' % n, v), x)
    return r


def _kv(n, x):
    return nplib._map2(lambda a, b: a * core.exp(-b), _kve(n, x), x)


def _factorial(n, exact=False):
    return nplib._map(lambda v: lift(math.factorial(v.__index__())), n)


def _gammaln(n):
    return nplib._map(lambda v: core.log(lift(math.factorial(v.__index__() - 1))), n)


def _expit(x):
    return nplib._map(lambda v: 1 / (1 + core.exp(-v)), x)


class _Mod(types.ModuleType):
    def __init__(self, real, over):
        types.ModuleType.__init__(self, real.__name__)
        self.__dict__['_real'] = real
        self.__dict__.update(over)

    def __getattr__(self, name):
        v = getattr(self.__dict__['_real'], name)
        if isinstance(v, types.ModuleType):
            return MODULES.get(id(v), v)
        if isinstance(v, type):
            return v
        if callable(v):
            def stub(*a, **k):
                raise Unsupported('%s.%s' % (self.__name__, name))
            return stub
        return v


SP_SPECIAL = _Mod(scipy.special, dict(eval_hermitenorm=_hermitenorm, eval_hermite=_hermite, kve=_kve, kv=_kv,
                                      k0e=lambda x: _kve(0, x), k1e=lambda x: _kve(1, x), k0=lambda x: _kv(0, x),
                                      k1=lambda x: _kv(1, x), factorial=_factorial, gammaln=_gammaln, expit=_expit))
SP_LINALG = _Mod(scipy.linalg, dict(sqrtm=_sqrtm, block_diag=_block_diag, inv=nplib.inv, det=nplib.det, norm=nplib.norm,
                                    svd=nplib.svd, eig=nplib.eig, eigh=nplib.eigh, solve=nplib.solve,
                                    pinv=nplib.pinv))
SP_SPARSE_LINALG = _Mod(scipy.sparse.linalg, dict(eigs=_eigs, eigsh=_eigsh))
SP_SPARSE = _Mod(scipy.sparse, dict(linalg=SP_SPARSE_LINALG, csr_matrix=lambda x, **k: _to_csr(x),
                                    csc_matrix=lambda x, **k: _to_csr(x)))
SP = _Mod(scipy, dict(special=SP_SPECIAL, linalg=SP_LINALG, sparse=SP_SPARSE))


def _to_csr(x):
    if isinstance(x, qlib.FCsr):
        return x
    return qlib.FQobj(x).data_as('csr_matrix')


# -- mpmath (only the fallback of eig_phase_coord uses it) -------------------------------------------------------------
import mpmath
MP = _Mod(mpmath, dict(hermite=lambda n, x: _hermite(int(n), x), sign=core.sign, fabs=core.absolute, log=core.log,
                       sqrt=core.sqrt, exp=core.exp))


MODULES = {}
REPL = {}


def _fill():
    for real, fake in ((np, nplib.NP), (qt, qlib.QT), (torch, tlib.T), (math, nplib.MATH), (scipy, SP),
                       (scipy.special, SP_SPECIAL), (scipy.linalg, SP_LINALG), (scipy.sparse, SP_SPARSE),
                       (scipy.sparse.linalg, SP_SPARSE_LINALG), (np.linalg, nplib.NP.linalg),
                       (np.random, nplib.NP.random), (torch.linalg, tlib.T.linalg), (torch.sparse, tlib.T.sparse),
                       (torch.special, tlib.T.special), (mpmath, MP)):
        MODULES[id(real)] = fake
        REPL[id(real)] = (real, fake)
    for real, over in ((np, nplib.OVERRIDES), (qt, qlib.OVERRIDES), (torch, tlib.OVERRIDES)):
        for n, f in over.items():
            r = getattr(real, n, None)
            if r is not None and f is not None and not isinstance(f, types.ModuleType):
                REPL[id(r)] = (r, f)
    for real, fake in ((scipy.special, SP_SPECIAL), (scipy.linalg, SP_LINALG), (scipy.sparse.linalg, SP_SPARSE_LINALG)):
        for n, f in fake.__dict__.items():
            r = getattr(real, n, None)
            if r is not None and callable(f) and not n.startswith('_'):
                REPL[id(r)] = (r, f)
    for n in ('sqrt', 'exp', 'log', 'cos', 'sin', 'tanh', 'sinh', 'cosh'):
        REPL[id(getattr(math, n))] = (getattr(math, n), getattr(nplib.MATH, n))
    for n in ('inv', 'norm', 'svd', 'eig', 'eigh', 'det', 'matrix_rank', 'solve', 'pinv'):
        REPL[id(getattr(np.linalg, n))] = (getattr(np.linalg, n), getattr(nplib.NP.linalg, n))
    # types must not be replaced by identity of builtins such as np.float64 used in isinstance only
    for b in (float, int, complex, bool, list, dict, str):
        REPL.pop(id(b), None)


_PY_ROUND = round


def _round(x, n=None):
    if isinstance(x, tlib.SymTensor):
        return x.round(n or 0)
    if isinstance(x, Sym):
        return nplib.around(x, n or 0)
    return _PY_ROUND(x, n) if n is not None else _PY_ROUND(x)


_PY_SUM, _PY_POW = sum, pow


def sq_modules():
    return [m for n, m in sorted(sys.modules.items()) if (n == 'SQcircuit' or n.startswith('SQcircuit.')) and m is not None]


PATCHED = [False]
CONSTS = ('hbar', 'Phi0', 'e', 'k_B')
CONST_VALUES = {}


def install():
    """Patch all loaded SQcircuit modules (irreversible in this process)."""
    import SQcircuit                                   # noqa: F401
    for n in ('circuit', 'elements', 'functions', 'torch_extensions', 'systems', 'sweep', 'symbolic', 'units', 'noise',
              'settings', 'storage', 'texts', 'exceptions'):
        importlib.import_module('SQcircuit.' + n)
    if PATCHED[0]:
        return
    PATCHED[0] = True
    _fill()
    unt = sys.modules['SQcircuit.units']
    for c in CONSTS:
        CONST_VALUES[c] = getattr(unt, c)
    for m in sq_modules():
        d = m.__dict__
        for k, v in list(d.items()):
            if k.startswith('__'):
                continue
            r = REPL.get(id(v))
            if r is not None and r[0] is v:
                d[k] = r[1]
            elif isinstance(v, float) and v == math.pi:
                d[k] = '__pi__'
        d.setdefault('float', nplib.ShadowFloat)
        d.setdefault('int', nplib.ShadowInt)
        d.setdefault('complex', nplib.ShadowComplex)
        d.setdefault('round', _round)
    # tables keyed by names can be looked up with an arbitrary string
    from .harness import SymDict
    for mn in ('units', 'noise', 'settings'):
        for k, v in list(sys.modules['SQcircuit.' + mn].__dict__.items()):
            if not k.startswith('__') and type(v) is dict and v and all(isinstance(x, str) for x in v):
                new = SymDict(v)
                for m in sq_modules():
                    for k2, v2 in list(m.__dict__.items()):
                        if v2 is v:
                            m.__dict__[k2] = new
    # custom autograd functions
    seen = set()
    for m in sq_modules():
        for k, v in list(m.__dict__.items()):
            if isinstance(v, type) and v is not torch.autograd.Function and issubclass(v, torch.autograd.Function) \
                    and v not in seen:
                seen.add(v)
                v.apply = classmethod(tlib.apply_function)
    _patch_defaults()
    _import_hook()


_STRINGS = []


def string_constants():
    """Short string constants in the source of the packages' modules."""
    if not _STRINGS:
        out = set()

        def visit(code):
            for c in code.co_consts:
                if isinstance(c, str) and 0 < len(c) <= 10 and ' ' not in c:
                    out.add(c)
                elif isinstance(c, types.CodeType):
                    visit(c)
                elif isinstance(c, (tuple, frozenset)):
                    out.update(x for x in c if isinstance(x, str) and 0 < len(x) <= 10)
        for n in ('units', 'noise', 'settings', 'elements'):
            f = sys.modules['SQcircuit.' + n].__file__
            visit(compile(open(f).read(), f, 'exec'))
        _STRINGS.extend(sorted(out))
    return _STRINGS


def _patch_defaults():
    """Default arguments evaluated at import may hold library objects as well (e.g. dtype=float)."""
    for m in sq_modules():
        for v in list(m.__dict__.values()):
            fs = [v] if isinstance(v, types.FunctionType) else \
                ([x for x in vars(v).values() if isinstance(x, types.FunctionType)] if isinstance(v, type) else [])
            for f in fs:
                if getattr(f, '__module__', '').startswith('SQcircuit') and f.__defaults__:
                    f.__defaults__ = tuple(REPL[id(x)][1] if id(x) in REPL and REPL[id(x)][0] is x else x
                                           for x in f.__defaults__)


def _import_hook():
    real = builtins.__import__

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        m = real(name, globals, locals, fromlist, level)
        if globals is not None and str(globals.get('__name__', '')).startswith('SQcircuit'):
            r = REPL.get(id(m))
            if r is not None and r[0] is m:
                return r[1]
        return m
    builtins.__import__ = imp


def reset_state():
    """Fresh symbolic constants and default global settings (called before each path)."""
    nplib.install_pi()
    core.INTS[0] = False
    core.ABS_TERMS = 6
    del core.TEXT[:]
    core.EPS_OFF[0] = False
    unt = sys.modules['SQcircuit.units']
    for c in CONSTS:
        setattr(unt, c, core.const_sym(c, CONST_VALUES[c]))
    for m in sq_modules():
        for k, v in list(m.__dict__.items()):
            if isinstance(v, str) and v == '__pi__':
                m.__dict__[k] = core.pi()
            elif k in CONSTS and m is not unt and m.__name__ != 'SQcircuit.units' and k in ('hbar', 'Phi0', 'k_B') \
                    and isinstance(v, (float, Sym)):
                m.__dict__[k] = getattr(unt, k)
    noise = sys.modules['SQcircuit.noise']
    if not DEFAULT_ENV:
        DEFAULT_ENV.update(noise.ENV)
    for k, v in DEFAULT_ENV.items():
        if isinstance(v, float) and k.startswith('omega'):
            v = 2 * core.pi() * core.lift(float('%.12g' % (v / (2 * math.pi))))
        noise.ENV[k] = v
    st = sys.modules['SQcircuit.settings']
    st.set_engine('NumPy')
    unt.set_unit_freq('GHz')
    unt.set_unit_cap('GHz')
    unt.set_unit_ind('GHz')
    unt.set_unit_JJ('GHz')
    tlib.AD_ON[0] = False
    del tlib.LEAVES[:]
    for k in HOOKS:
        HOOKS[k] = None
    nplib.SVD_HOOK[0] = nplib.EIG_HOOK[0] = nplib.EIGH_HOOK[0] = nplib.INV_HOOK[0] = None
    nplib.ROUND_HOOK[0] = nplib.INT_HOOK[0] = nplib.RANDN[0] = None
    tlib.BACKWARD_HOOK[0] = None


DEFAULT_ENV = {}
