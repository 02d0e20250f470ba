"""Harness runner: one harness function is executed symbolically (all paths, assertions decided by the solver) and, for
counterexamples and for validation of the encoding, concretely against the unpatched libraries."""
import contextlib
import importlib
import json
import math
import multiprocessing as mp
import os
import random
import subprocess
import sys
import time
import traceback
from fractions import Fraction

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Skip(Exception):
    """Concrete run: an assumption does not hold for these values."""


class Violated(Exception):
    """Concrete run: an assertion failed."""


class Harness:
    def __init__(self, fn, name, tier='quick', **opts):
        self.fn, self.name, self.tier, self.opts = fn, name, tier, opts


# ---------------------------------------------------------------------------------------------------------------------
# symbolic mode
# ---------------------------------------------------------------------------------------------------------------------
class SymStr:
    """Arbitrary string; comparisons are decided by the solver."""

    def __init__(self, env, name, z, mode='raw'):
        self.env, self.name, self.z, self.mode = env, name, z, mode

    def _cond(self, s):
        """z3 condition for equality with the literal s."""
        import z3
        if self.mode == 'raw':
            return self.z == z3.StringVal(s)
        other = s.lower() if self.mode == 'lower' else s.upper()
        if other != s:
            return z3.BoolVal(False)
        if not s:
            return self.z == z3.StringVal('')
        parts = [z3.Re(c) if c.lower() == c.upper() else z3.Union(z3.Re(c.lower()), z3.Re(c.upper())) for c in s]
        return z3.InRe(self.z, parts[0] if len(parts) == 1 else z3.Concat(*parts))

    def __eq__(self, o):
        from .core import SymBool
        if isinstance(o, SymStr):
            if o.mode != self.mode:
                raise self.env.Unsupported('comparison of converted strings')
            return SymBool('z3', self.z == o.z)
        if isinstance(o, str):
            return SymBool('z3', self._cond(o))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return True if r is False else not bool(r)

    def __hash__(self):
        # used as key of an ordinary dictionary or set: fork over all string constants of the code
        for s in self.env.patch.string_constants():
            if bool(self == s):
                return hash(s)
        return hash('\x00 other')

    def lower(self):
        return SymStr(self.env, self.name, self.z, 'lower')

    def upper(self):
        return SymStr(self.env, self.name, self.z, 'upper')

    casefold = lower

    def strip(self, *a):
        raise self.env.Unsupported('strip of an arbitrary string')

    def __str__(self):
        return '<%s>' % self.name

    __repr__ = __str__

    def __format__(self, spec):
        return str(self)

    def __len__(self):
        raise self.env.Unsupported('length of an arbitrary string')


class SymDict(dict):
    """Dictionary that can be looked up with an arbitrary string."""

    def _find(self, k):
        for q in dict.keys(self):
            if bool(k == q):
                return q
        return None

    def __contains__(self, k):
        if isinstance(k, SymStr):
            return self._find(k) is not None
        return dict.__contains__(self, k)

    def __getitem__(self, k):
        if isinstance(k, SymStr):
            q = self._find(k)
            if q is None:
                raise KeyError(str(k))
            return dict.__getitem__(self, q)
        return dict.__getitem__(self, k)

    def get(self, k, d=None):
        if isinstance(k, SymStr):
            q = self._find(k)
            return d if q is None else dict.__getitem__(self, q)
        return dict.get(self, k, d)


class SymEnv:
    symbolic = True

    def __init__(self, ex, tier):
        from . import core, nplib, patch, solver
        self.ex, self.core, self.nplib, self.patch, self.solver = ex, core, nplib, patch, solver
        self.np = nplib.NP
        self.Unsupported = core.Unsupported
        self.tier = tier
        self.thorough = tier == 'thorough'

    def start(self):
        self.pairs, self.labels, self.conds = [], [], []
        self.choices, self.log = {}, []
        self.strings = {}
        self.nrand = 0
        self.patch.reset_state()
        self.nplib.RANDN[0] = self._rand
        self.reached = []

    # -- inputs ------------------------------------------------------------------------------------------------------
    def real(self, name, lo=None, hi=None, pos=False):
        return self.core.var(name, pos=pos, lo=_fr(lo), hi=_fr(hi))

    def pos(self, name, lo=None, hi=None):
        return self.core.var(name, pos=True, lo=_fr(lo), hi=_fr(hi))

    def integer(self, name, lo, hi):
        return self.core.integer(name, lo, hi)

    def complex(self, name):
        return self.real(name + '_re') + 1j * self.real(name + '_im')

    def angle(self, name):
        return self.real(name, -4, 4)

    def _rand(self):
        self.nrand += 1
        return self.draw(self.nrand)

    def draw(self, k):
        """The k-th standard normal number drawn by the code."""
        return self.real('rand%d' % k, -6, 6)

    def const_value(self, name):
        return self.patch.CONST_VALUES[name]

    def choice(self, name, options):
        options = list(options)
        i = self.ex.choose(len(options))
        self.choices[name] = i
        return options[i]

    def string(self, name):
        import z3
        z = z3.String(name)
        self.strings[name] = z
        self.ex.strings[name] = z
        return SymStr(self, name, z)

    def const(self, name):
        return getattr(sys.modules['SQcircuit.units'], name)

    @property
    def pi(self):
        return self.core.pi()

    def arr(self, x):
        return self.nplib.to_obj(x)

    # -- statements --------------------------------------------------------------------------------------------------
    def assume(self, c):
        if isinstance(c, (list, tuple)):
            for x in c:
                self.assume(x)
            return
        self.ex.assume(c)

    def eq(self, label, a, b, rtol=1e-6, atol=0.0, scale=None):
        """a and b (scalars, arrays, operators, tensors) are equal."""
        xa, xb = self._flat(a), self._flat(b)
        if xa[0] != xb[0]:
            self.pairs.append((self.core.lift(0), self.core.lift(1)))
            self.labels.append('%s: shape %s instead of %s' % (label, xa[0], xb[0]))
            return
        for k, (x, y) in enumerate(zip(xa[1], xb[1])):
            self.pairs.append((x, y))
            self.labels.append('%s[%d]' % (label, k) if len(xa[1]) > 1 else label)

    def _flat(self, a):
        from .qlib import FQobj
        from .tlib import SymTensor
        core = self.core
        if isinstance(a, FQobj):
            a = a.full()
        if isinstance(a, SymTensor):
            a = a.a
        if isinstance(a, (list, tuple)) and a and isinstance(a[0], FQobj):
            a = [x.full() for x in a]
        if not isinstance(a, (list, tuple)) and getattr(a, 'shape', ()) == ():
            a = core.lift(a.item() if hasattr(a, 'item') else a)
            return (), [core.drop_eps(a)]
        a = self.nplib.to_obj(a)
        return tuple(a.shape), [core.drop_eps(core.lift(x)) for x in a.ravel()]

    def grad_eq(self, label, a, b, rtol=1e-5, atol=0.0, scale=None):
        self.eq(label, a, b)

    def true(self, label, c):
        """Condition (Python bool or symbolic)."""
        self.conds.append((label, c))

    def raises(self, label, exc, fn):
        """fn() must raise exc."""
        try:
            fn()
        except exc:
            self.true(label, True)
            return
        self.true(label + ' (nothing raised)', False)

    def reach(self, name):
        self.reached.append(name)

    # -- library boundary --------------------------------------------------------------------------------------------
    def hook(self, name, fn):
        """Stub for a library call: sqrtm, eigs, eigsh, svd, eig, eigh, inv."""
        n = self.nplib
        if name in self.patch.HOOKS:
            self.patch.HOOKS[name] = fn
        else:
            {'svd': n.SVD_HOOK, 'eig': n.EIG_HOOK, 'eigh': n.EIGH_HOOK, 'inv': n.INV_HOOK, 'round': n.ROUND_HOOK,
             'int': n.INT_HOOK}[name][0] = fn

    @contextlib.contextmanager
    def numbers(self):
        """Inside, only ordinary numbers are computed (roots need not be exact)."""
        self.core.ROUGH[0] = True
        try:
            yield
        finally:
            self.core.ROUGH[0] = False

    def env_set(self, **kw):
        sys.modules['SQcircuit.noise'].ENV.update(kw)

    def Qobj(self, a, dims=None):
        from .qlib import FQobj
        return FQobj(a, dims=dims)

    @property
    def qt(self):
        from .qlib import QT
        return QT

    @property
    def torch(self):
        from .tlib import T
        return T

    def autograd(self, on=True):
        from . import tlib
        tlib.AD_ON[0] = on

    def to_np(self, x):
        return self.nplib.to_obj(x.full() if hasattr(x, 'full') else x)

    def func(self, name, *args):
        return self.core.func(name, *args)


def _fr(x):
    return None if x is None else Fraction(x).limit_denominator(10**9) if isinstance(x, float) and abs(x) > 1e-6 \
        else Fraction(x)


# ---------------------------------------------------------------------------------------------------------------------
# concrete mode (unpatched libraries)
# ---------------------------------------------------------------------------------------------------------------------
class ConcEnv:
    symbolic = False

    def __init__(self, values, choices, tier='quick'):
        import numpy
        self.values, self.choices = values, choices
        self.np = numpy
        self.failures, self.checked = [], 0
        self.nrand = 0
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.hooks = []
        self.reached = []

        class U(Exception):
            pass
        self.Unsupported = U

    def start(self):
        import SQcircuit
        import numpy as np
        import torch
        unt, st, no = [sys.modules['SQcircuit.' + x] for x in ('units', 'settings', 'noise')]
        st.set_engine('NumPy')
        for f in (unt.set_unit_freq, unt.set_unit_cap, unt.set_unit_ind, unt.set_unit_JJ):
            f('GHz')
        no.reset_to_default()
        env = self

        def draw():
            env.nrand += 1
            return env.draw(env.nrand)

        def t_normal(mean, std, *a, **k):
            m, s = torch.as_tensor(mean, dtype=torch.float64).detach(), torch.as_tensor(std, dtype=torch.float64).detach()
            m, s = torch.broadcast_tensors(m, s)
            out = m.clone()
            for i in np.ndindex(*m.shape):
                if float(s[i]) != 0:
                    out[i] = m[i] + s[i] * draw()
            return out

        def n_normal(loc=0.0, scale=1.0, size=None):
            if size is None:
                return loc + scale * draw()
            shape = (size,) if isinstance(size, int) else size
            return np.array([loc + scale * draw() for _ in range(int(np.prod(shape)))]).reshape(shape)
        self._patch(torch, 'normal', t_normal)
        self._patch(np.random, 'normal', n_normal)
        self._patch(np.random, 'randn', lambda *s: n_normal(0, 1, s) if s else n_normal())

    def draw(self, k):
        return float(self.values.get('rand%d' % k, 0.3 * k))

    def const_value(self, name):
        return self.const(name)

    def _patch(self, mod, name, fn):
        old = getattr(mod, name)
        setattr(mod, name, fn)
        self.hooks.append((mod, name, old))

    def stop(self):
        for mod, name, old in reversed(self.hooks):
            setattr(mod, name, old)
        self.hooks = []

    def _val(self, name, lo, hi, pos):
        if name not in self.values:
            # variable unknown to the solver model: any value inside its range will do
            r = random.Random(name)
            if lo is not None and hi is not None:
                v = float(lo) + (float(hi) - float(lo)) * r.uniform(0.2, 0.8)
                if pos and lo > 0 and float(hi) / float(lo) > 100:
                    v = math.exp(r.uniform(math.log(float(lo)), math.log(float(hi))))
            elif lo is not None:
                v = float(lo) + math.exp(r.uniform(-1, 1))
            elif pos:
                v = math.exp(r.uniform(-1, 1))
            else:
                v = r.uniform(-2, 2)
            self.values[name] = v
        v = float(self.values[name])
        if (lo is not None and v < float(lo) * (1 - 1e-12) - 1e-300) or (hi is not None and v > float(hi) * (1 + 1e-12) + 1e-300) or (pos and v <= 0):
            if not (lo is not None and abs(v - float(lo)) < 1e-9 * abs(v)) and not (hi is not None and abs(v - float(hi)) < 1e-9 * abs(v)):
                raise Skip(name)
        return v

    def real(self, name, lo=None, hi=None, pos=False):
        return self._val(name, lo, hi, pos)

    def pos(self, name, lo=None, hi=None):
        return self._val(name, lo, hi, True)

    def integer(self, name, lo, hi):
        return int(round(self._val(name, lo, hi, False)))

    def complex(self, name):
        return complex(self.real(name + '_re'), self.real(name + '_im'))

    def angle(self, name):
        return self.real(name, -4, 4)

    def choice(self, name, options):
        options = list(options)
        return options[self.choices.get(name, 0)]

    def string(self, name):
        return str(self.values.get(name, 'zz'))

    def const(self, name):
        return getattr(sys.modules['SQcircuit.units'], name)

    @property
    def pi(self):
        return math.pi

    def arr(self, x):
        return self.np.asarray(x)

    def assume(self, c):
        if isinstance(c, (list, tuple)):
            for x in c:
                self.assume(x)
            return
        if not c:
            raise Skip('assumption')

    def _num(self, a):
        import numpy as np
        import torch
        import qutip as qt
        if isinstance(a, qt.Qobj):
            a = a.full()
        if isinstance(a, torch.Tensor):
            a = a.detach()
            a = a.to_dense().numpy() if a.layout != torch.strided else a.resolve_conj().numpy()
        if isinstance(a, (list, tuple)) and a and isinstance(a[0], (qt.Qobj, torch.Tensor, list, tuple)):
            a = [self._num(x) for x in a]
        if isinstance(a, np.ndarray) and a.dtype == object:
            a = np.array([complex(x) for x in a.ravel()]).reshape(a.shape)
        return np.asarray(a)

    def eq(self, label, a, b, rtol=1e-6, atol=0.0, scale=None):
        np = self.np
        x, y = self._num(a), self._num(b)
        self.checked += 1
        if x.shape != y.shape:
            self.failures.append('%s: shape %s instead of %s' % (label, x.shape, y.shape))
            return
        if x.size == 0:
            return
        if not np.all(np.isfinite(x) == np.isfinite(y)):
            self.failures.append('%s: %s instead of %s' % (label, x, y))
            return
        s = scale if scale is not None else max(np.abs(x).max(), np.abs(y).max())
        d = np.abs(x - y)
        if not np.all(d <= rtol * abs(s) + atol):
            k = int(np.argmax(d))
            self.failures.append('%s: got %r, expected %r' % (label, x.ravel()[k], y.ravel()[k]))

    def grad_eq(self, label, a, b, rtol=1e-5, atol=0.0, scale=None):
        self.eq(label, a, b, rtol=rtol, atol=atol, scale=scale)

    def true(self, label, c):
        self.checked += 1
        if not bool(c):
            self.failures.append(label)

    def raises(self, label, exc, fn):
        try:
            fn()
        except exc:
            self.true(label, True)
            return
        self.true(label + ' (nothing raised)', False)

    def reach(self, name):
        self.reached.append(name)

    def hook(self, name, fn):
        """Library stubs are used concretely only for nondeterministic outputs (sparse eigensolver)."""
        import scipy.sparse.linalg as ssl
        if name in ('eigs', 'eigsh'):
            real = getattr(ssl, name)
            self._patch(ssl, name, fn)
            for mn, mod in list(sys.modules.items()):
                if mn.split('.')[0] == 'SQcircuit':
                    for k, v in list(vars(mod).items()):
                        if v is real:
                            self._patch(mod, k, fn)

    @contextlib.contextmanager
    def numbers(self):
        yield

    def env_set(self, **kw):
        sys.modules['SQcircuit.noise'].ENV.update(kw)

    def Qobj(self, a, dims=None):
        import qutip as qt
        import numpy as np
        return qt.Qobj(np.asarray(a), dims=dims)

    @property
    def qt(self):
        import qutip
        return qutip

    @property
    def torch(self):
        import torch
        return torch

    def autograd(self, on=True):
        pass

    def to_np(self, x):
        return self._num(x)

    def func(self, name, *args):
        from . import core
        from . import tlib                              # noqa: F401  (registers numeric meanings)
        return core.FUNCS[name](*[float(a) for a in args])


def run_concrete(fn, values, choices, tier='quick'):
    """(status, detail): 'violated' | 'holds' | 'skip' | 'error'"""
    env = ConcEnv(dict(values), dict(choices), tier)
    try:
        env.start()
        fn(env)
    except Skip as e:
        return 'skip', 'assumption not satisfied: %s' % e, env
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        inrepo = [f for f in tb if '/SQcircuit/' in f.filename]
        if inrepo:
            f = inrepo[-1]
            return 'violated', 'exception %s: %s (%s:%d %s)' % (type(e).__name__, e, os.path.basename(f.filename),
                                                                 f.lineno, f.name), env
        if env.failures:
            return 'violated', '; '.join(env.failures[:4]), env
        return 'error', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()), env
    finally:
        env.stop()
    if env.failures:
        return 'violated', '; '.join(env.failures[:4]), env
    return 'holds', '%d assertions' % env.checked, env


# ---------------------------------------------------------------------------------------------------------------------
# running one harness symbolically (in its own process)
# ---------------------------------------------------------------------------------------------------------------------
class FnRecorder:
    """Names of the functions of /repo that were executed by the encoding."""

    def __init__(self):
        self.seen = set()

    def on(self):
        mon = sys.monitoring
        try:
            mon.use_tool_id(4, 'encoded-functions')
        except ValueError:
            return
        mon.register_callback(4, mon.events.PY_START, self._start)
        mon.set_events(4, mon.events.PY_START)

    def _start(self, code, off):
        fn = code.co_filename
        if '/SQcircuit/' in fn and not code.co_name.startswith('<'):
            self.seen.add(os.path.basename(fn)[:-3] + '.' + code.co_qualname)
        return sys.monitoring.DISABLE


def sym_worker(modname, idx, tier, seed, deadline_s, conn):
    t0 = time.time()
    out = dict(status='error', detail='', name='?', failures=[], stats={}, paths=0, samples=[], functions=[])
    try:
        import resource
        lim = int(os.environ.get('VERIF_MEM_GB', '6')) << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim * 4, lim * 4))
        sys.setrecursionlimit(20000)
        mod = importlib.import_module(modname)
        h = mod.HARNESSES[idx]
        out['name'] = h.name
        rec = FnRecorder()
        rec.on()
        from . import patch
        patch.install()
        out.update(run_symbolic(h, tier, seed, t0 + deadline_s))
        out['functions'] = sorted(rec.seen)
    except Exception as e:
        out['status'] = 'error'
        out['detail'] = '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc())
    out['wall'] = time.time() - t0
    try:
        conn.send(out)
    finally:
        conn.close()


class Enough(Exception):
    """Counterexamples found; the rest of the tree adds nothing."""


def run_symbolic(h, tier, seed, deadline):
    from . import core, solver
    core.reset_gens()
    ex = solver.Explorer(seed=seed, max_paths=h.opts.get('max_paths', 3000), deadline=deadline,
                         feas_timeout=h.opts.get('feas_timeout', 3000))
    ex.strings = {}
    env = SymEnv(ex, tier)
    res = dict(failures=[], samples=[], paths=0, asserts=0, vacuous=0, status='proved', detail='', validate=[],
               trivially=0, gaps=[])
    timeout = h.opts.get('timeout', 60000)

    def candidates(neg):
        """Concrete inputs worth replaying for this path."""
        c = []
        m = None
        try:
            m = ex.sat_model([neg] if neg is not None else [], timeout=8000)
        except Exception:
            m = None
        if isinstance(m, dict):
            c.append(m)
        for e, memo in ex.get_witness()[:12]:
            ok = neg is None or solver.holds_at(neg, e, memo, 1e-6) is not False
            c.append(dict(e)) if ok else None
        for e, memo in ex.get_witness()[:4]:
            if dict(e) not in c:
                c.append(dict(e))
        base = m if isinstance(m, dict) else {}
        for q in c:
            for k, v in base.items():
                if isinstance(v, str):
                    q.setdefault(k, v)
        return c[:14]

    def path():
        env.start()
        try:
            h.fn(env)
        except (solver.PathEnd, solver.Inconclusive):
            raise
        except core.Unsupported as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            loc = [f for f in tb if '/SQcircuit/' in f.filename]
            res['gaps'].append(dict(what='%s at %s' % (e, '%s:%d' % (os.path.basename(loc[-1].filename), loc[-1].lineno)
                                                       if loc else 'harness'),
                                    choices=dict(env.choices), candidates=candidates(None)))
            return
        except Exception as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            loc = [f for f in tb if '/SQcircuit/' in f.filename]
            if not loc:
                # the harness itself may stumble over a result that already violates a condition
                wrong = [label for label, c in env.conds if not isinstance(c, core.SymBool) and not bool(c)]
                if not wrong:
                    raise
                if not feasible_now(ex):
                    raise solver.PathEnd()
                res['failures'].append(dict(label=wrong[0], verdict='false', choices=dict(env.choices), candidates=candidates(None)))
                return
            if not feasible_now(ex):
                raise solver.PathEnd()
            res['failures'].append(dict(label='exception %s: %s at %s:%d' % (
                type(e).__name__, str(e)[:300], os.path.basename(loc[-1].filename), loc[-1].lineno),
                verdict='exception', choices=dict(env.choices), candidates=candidates(None)))
            return
        # vacuity: the path itself must be satisfiable
        wit = ex.get_witness()
        if not wit:
            m = ex.sat_model(timeout=20000)
            if m == 'unsat':
                raise solver.PathEnd()
            if m is None:
                res['vacuous'] += 1
        if not env.pairs and not env.conds:
            res['vacuous'] += 1
        res['asserts'] += len(env.pairs) + len(env.conds)
        bad = []
        for label, c in env.conds:
            if isinstance(c, core.SymBool):
                v = ex.prove_one(c, timeout)
                if v != 'unsat':
                    bad.append((label, v, core.negate(c)))
            elif not bool(c):
                bad.append((label, 'false', None))
        for i, v in ex.prove_eqs(env.pairs, timeout):
            a, b = env.pairs[i]
            d = core.lift(a) - core.lift(b)
            p = d.re if d.re else d.im
            bad.append((env.labels[i], v, core.SymBool('!=', p)))
        for label, v, neg in bad[:3]:
            res['failures'].append(dict(label=label, verdict=v, choices=dict(env.choices), candidates=candidates(neg)))
        if len(res['failures']) >= 8:
            raise Enough()
        if not bad:
            if len(res['validate']) < h.opts.get('validate', 2) or (ex.paths % 17 == 0 and len(res['validate']) < 12):
                w = ex.get_witness()
                m = dict(w[0][0]) if w else ex.sat_model(timeout=5000)
                if isinstance(m, dict):
                    for k, z in env.strings.items():
                        mm = ex.sat_model(timeout=5000)
                        if isinstance(mm, dict) and k in mm:
                            m[k] = mm[k]
                    res['validate'].append(dict(choices=dict(env.choices), values=m))
        if len(res['samples']) < 3:
            res['samples'].append(dict(choices={k: v for k, v in env.choices.items()}, decisions=len(ex.decisions),
                                       assertions=len(env.pairs) + len(env.conds),
                                       example=env.labels[0] if env.labels else (env.conds[0][0] if env.conds else '')))
    try:
        ex.explore(path)
    except Enough:
        pass
    except solver.Inconclusive as e:
        res['status'] = 'inconclusive'
        res['detail'] = str(e)
    res['paths'] = ex.paths
    res['dead'] = ex.dead
    res['decisions'] = ex.total_decisions
    res['stats'] = dict(solver.STATS)
    if ex.paths == 0 and res['status'] == 'proved' and not res['failures'] and not res['gaps']:
        res['status'] = 'inconclusive'
        res['detail'] = 'no feasible path (vacuous harness)'
    if res['vacuous'] and res['status'] == 'proved':
        res['status'] = 'inconclusive'
        res['detail'] = 'path without assertion or without a model'
    if res['asserts'] == 0 and not res['failures'] and not res['gaps']:
        res['status'] = 'inconclusive'
        res['detail'] = 'no assertion reached'
    return res


def feasible_now(ex):
    if ex.get_witness():
        return True
    return ex.sat_model(timeout=20000) != 'unsat'


# ---------------------------------------------------------------------------------------------------------------------
# the check
# ---------------------------------------------------------------------------------------------------------------------
def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                # known: property=<id> harness=<name> label=<prefix> :: text
                body, _, text = line.partition(' :: ')
                d = dict(x.split('=', 1) for x in body.split()[1:] if '=' in x)
                out.append((d.get('harness'), d.get('label', ''), text))
    return out


def replay_batch(jobs, timeout):
    """Run jobs (module, harness index, values, choices) concretely in fresh processes (one per worker)."""
    import tempfile
    if not jobs:
        return []
    nw = min(6, max(1, len(jobs) // 3 + 1))
    chunks = [list(range(i, len(jobs), nw)) for i in range(nw)]
    procs = []
    results = [('error', 'not run')] * len(jobs)
    for ch in chunks:
        f = tempfile.NamedTemporaryFile('w', suffix='.json', delete=False)
        json.dump([jobs[i] for i in ch], f)
        f.close()
        o = f.name + '.out'
        envv = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
        p = subprocess.Popen([sys.executable, '-m', 'sym.replay', '--batch', f.name, o], cwd=HERE, env=envv,
                             stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        procs.append((p, ch, f.name, o))
    end = time.time() + timeout
    for p, ch, fi, o in procs:
        try:
            _, err = p.communicate(timeout=max(5, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            err = b'timeout'
        try:
            if os.path.exists(o):
                for line in open(o):
                    k, st, de = json.loads(line)
                    results[ch[k]] = (st, de)
            done = sum(1 for i in ch if results[i][1] != 'not run')
            if done < len(ch):
                for i in ch:
                    if results[i][1] == 'not run':
                        results[i] = ('error', 'replay process failed: ' + err.decode(errors='replace')[-500:])
        finally:
            for q in (fi, o):
                if os.path.exists(q):
                    os.unlink(q)
    return results


def early_violation(modname, h, got, tier, known):
    jobs = [dict(module=modname, harness=h.name, values=c, choices=f['choices'], tier=tier)
            for f in got['failures'][:3] if not any(k[0] == h.name and f['label'].startswith(k[1]) for k in known)
            for c in f['candidates'][:4]]
    return any(st == 'violated' for st, _ in replay_batch(jobs, 120))


def run_check(prop, modname):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    budget = float(os.environ.get('VERIF_BUDGET_S', '760' if tier == 'quick' else '7200'))
    mod = importlib.import_module(modname)
    hs = [(i, h) for i, h in enumerate(mod.HARNESSES) if tier == 'thorough' or h.tier == 'quick']
    only = os.environ.get('VERIF_ONLY')
    if only:
        hs = [(i, h) for i, h in hs if only in h.name]
    ncpu = int(os.environ.get('VERIF_JOBS', str(min(8, os.cpu_count() or 4))))
    results = {}
    ctx = mp.get_context('spawn')
    todo = sorted(hs, key=lambda t: -t[1].opts.get('cost', 1))
    running = []
    known = known_findings(prop)
    early = False
    verbose = bool(os.environ.get('VERIF_VERBOSE'))
    while todo or running:
        while todo and len(running) < ncpu:
            i, h = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=sym_worker, args=(modname, i, tier, seed, h.opts.get('budget', budget), b))
            p.start()
            b.close()
            running.append((i, h, p, a, time.time()))
        for r in list(running):
            i, h, p, a, ts = r
            got = None
            if a.poll(0.02):
                try:
                    got = a.recv()
                except EOFError:
                    got = dict(status='error', name=h.name, detail='worker died', failures=[], stats={}, paths=0,
                               samples=[], functions=[])
            elif not p.is_alive() and not a.poll(0.1):
                got = dict(status='error', name=h.name, detail='worker died (exit %s)' % p.exitcode, failures=[],
                           stats={}, paths=0, samples=[], functions=[])
            elif time.time() - ts > h.opts.get('budget', budget) + 60 or time.time() - t0 > budget + 120:
                p.kill()
                got = dict(status='inconclusive', name=h.name, detail='time budget exhausted', failures=[], stats={},
                           paths=0, samples=[], functions=[])
            if got is not None:
                results[i] = got
                running.remove(r)
                p.join(10)
                if verbose:
                    print('%-34s %-12s paths=%-4s asserts=%-6s %.1fs solver=%.1fs queries=%s %s' % (
                        h.name, got['status'] + ('*' if got['failures'] else ''), got.get('paths'), got.get('asserts'),
                        got.get('wall', 0), got['stats'].get('solver_s', 0), got['stats'].get('queries'),
                        got.get('detail', '')[:3000]), flush=True)
                    for f in got['failures'][:6]:
                        print('    -', f['label'][:300], f['verdict'], f['choices'])
                    for f in got.get('gaps', [])[:6]:
                        print('    gap', f['what'][:300], f['choices'])
                if got['failures'] and not early and early_violation(modname, h, got, tier, known):
                    # a reproduced counterexample settles the verdict
                    early = True
        if early:
            for i, h, p, a, ts in running:
                p.kill()
                p.join(10)
            for i, h in [(r[0], r[1]) for r in running] + todo:
                results[i] = dict(status='stopped', name=h.name, detail='stopped after a violation elsewhere', failures=[], stats={},
                                  paths=0, samples=[], functions=[])
            running, todo = [], []
        time.sleep(0.01)
    # -- replay ------------------------------------------------------------------------------------------------------
    violation, errors, kf_lines = None, [], []
    jobs, meta = [], []
    for i, h in hs:
        r = results[i]
        for n, f in enumerate(r['failures']):
            if n >= 6:
                break
            for c in f['candidates'][:8]:
                jobs.append(dict(module=modname, harness=h.name, values=c, choices=f['choices'], tier=tier))
                meta.append(('fail', i, f))
        for f in r.get('gaps', [])[:4]:
            for c in f['candidates'][:6]:
                jobs.append(dict(module=modname, harness=h.name, values=c, choices=f['choices'], tier=tier))
                meta.append(('gap', i, f))
        for v in r.get('validate', []):
            jobs.append(dict(module=modname, harness=h.name, values=v['values'], choices=v['choices'], tier=tier))
            meta.append(('validate', i, v))
    rep = replay_batch(jobs, 240 if tier == 'quick' else 1200)
    confirmed = {}
    validated = 0
    skipped = 0
    for (kind, i, f), job, (st, de) in zip(meta, jobs, rep):
        h = mod.HARNESSES[i]
        if st == 'violated':
            kf = [k for k in known if k[0] == h.name and f.get('label', '').startswith(k[1])] if kind == 'fail' else \
                [k for k in known if k[0] == h.name and de.startswith(k[1])]
            if kf:
                confirmed[id(f)] = True
                kf_lines.append(kf[0][2])
                continue
            confirmed[id(f)] = True
            if violation is None:
                violation = dict(property=prop, **job)
                violation['found_by'] = kind
                violation['symbolic'] = f.get('label', f.get('what', 'concrete validation run'))
                violation['observed'] = de
        elif st == 'holds' and kind == 'validate':
            validated += 1
        elif st == 'skip' and kind == 'validate':
            skipped += 1
        elif st == 'error':
            errors.append('%s: replay error: %s' % (h.name, de))
    for (kind, i, f) in meta:
        if kind == 'gap' and id(f) not in confirmed:
            confirmed[id(f)] = False
    for i, h in hs:
        r = results[i]
        if r['status'] in ('error', 'inconclusive'):
            errors.append('%s: %s: %s' % (h.name, r['status'], r['detail']))
        for f in r['failures']:
            if not confirmed.get(id(f)):
                errors.append('%s: not proven and not reproduced: %s (%s)' % (h.name, f['label'], f['verdict']))
        for f in r.get('gaps', []):
            if not confirmed.get(id(f)):
                errors.append('%s: outside the encoding: %s' % (h.name, f['what']))
    # -- evidence ----------------------------------------------------------------------------------------------------
    st = {}
    for r in results.values():
        for k, v in r['stats'].items():
            st[k] = st.get(k, 0) + v
    samples = []
    for i, h in hs:
        for s in results[i].get('samples', [])[:1]:
            samples.append(dict(harness=h.name, **s))
    cov = dict(
        states=sum(r.get('paths', 0) + r.get('decisions', 0) for r in results.values()),
        transitions=sum(r.get('decisions', 0) for r in results.values()),
        traces_validated_against_impl=validated,
        samples=samples[:12],
        explanation='Every path of every harness is executed symbolically on the current source of /repo; each assertion is '
                    'decided by the SMT solver for all values within the bounds. states = path-tree nodes, transitions = '
                    'decisions on the solver-explored path tree, traces_validated = witness inputs for which the real '
                    'code was run and agreed.',
        harnesses=len(hs), paths=sum(r.get('paths', 0) for r in results.values()),
        infeasible_paths=sum(r.get('dead', 0) for r in results.values()),
        assertions=sum(r.get('asserts', 0) for r in results.values()),
        solver_queries=st.get('queries', 0), solver_unsat=st.get('unsat', 0), solver_sat=st.get('sat', 0),
        solver_unknown=st.get('unknown', 0), feasibility_queries=st.get('feasibility', 0),
        solver_seconds=round(st.get('solver_s', 0), 2),
        functions_encoded=sorted(set(f for r in results.values() for f in r.get('functions', []))),
        bounds=getattr(mod, 'BOUNDS', ''), validation_skipped=skipped,
        per_harness={results[i]['name']: dict(status=results[i]['status'], paths=results[i].get('paths', 0),
                                              assertions=results[i].get('asserts', 0),
                                              wall_s=round(results[i].get('wall', 0), 2)) for i, h in hs},
    )
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + COMMON_ASSUMPTIONS,
              wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for t in sorted(set(kf_lines)):
        print('KNOWN-FINDING: property=%s %s' % (prop, t))
    if violation is not None:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        path = os.path.join(HERE, 'replays', '%s.json' % prop)
        with open(path, 'w') as f:
            json.dump(violation, f, indent=1)
        print('harness %s: %s' % (violation['harness'], violation['symbolic']))
        print('observed on the real code: %s' % violation['observed'])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        for e in errors[:20]:
            print('ERROR', e)
        return 2
    print('%s holds: %d harnesses, %d paths, %d assertions, %d solver queries, %d concrete validations, %.1f s' % (
        prop, len(hs), cov['paths'], cov['assertions'], cov['solver_queries'], validated, time.time() - t0))
    return 0


COMMON_ASSUMPTIONS = [
    'floating-point arithmetic is modelled by exact real arithmetic (rounding errors are outside the claim)',
    'numpy, scipy, qutip and torch functions used by the code behave as documented (stand-ins in /verif/sym, compared with '
    'the real libraries on witness inputs in every run)',
]
