"""Translation of polynomials to z3 and the exploration of all paths of a harness."""
import math
import random
import time
from fractions import Fraction

import z3

from . import core
from .core import (GENS, ONE, F1, Sym, SymBool, Unsupported, clear_inv, mk, negate, p_mul, p_neg, p_sub, p_value,
                   p_absvalue, lift)


class Inconclusive(Exception):
    """The solver did not decide a query, or a counterexample could not be reproduced."""


class PathEnd(Exception):
    """The current path is infeasible (an assumption contradicts it)."""


STATS = dict(queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0, feasibility=0, feas_by_witness=0)


def poly_gens(polys):
    """All generators reachable from polys through atom definitions."""
    seen = set()
    todo = [g for p in polys for m in p for g, _ in m]
    while todo:
        g = todo.pop()
        if g in seen:
            continue
        seen.add(g)
        G = GENS[g]
        subs = []
        if G.kind in ('inv', 'sqrt', 'abs', 'sgn', 'rpow'):
            subs = [G.arg]
        elif G.kind in ('exp', 'log'):
            subs = [G.arg]
        elif G.kind == 'sin':
            todo.append(G.arg)
        elif G.kind == 'cos':
            todo.append(G.info)
        for p in subs:
            todo.extend(h for m in p for h, _ in m)
    return seen


def bool_polys(b):
    if b.op in ('==', '!=', '<', '<='):
        return [b.args[0]]
    out = []
    for a in b.args:
        if isinstance(a, SymBool):
            out += bool_polys(a)
    return out


class Trans:
    """One translation context (fixes the root order of every positive generator)."""

    def __init__(self, polys, light=False):
        self.den = {}
        gens = poly_gens(polys)
        allp = list(polys)
        for g in gens:
            G = GENS[g]
            if G.kind in ('inv', 'sqrt', 'abs', 'sgn', 'rpow', 'exp', 'log'):
                allp.append(G.arg)
        for p in allp:
            for m in p:
                for g, e in m:
                    if isinstance(e, Fraction):
                        self.den[g] = math.lcm(self.den.get(g, 1), e.denominator)
        # an exponential that only occurs in multiples of one power is represented by that power
        num = {}
        for p in allp:
            for m in p:
                for g, e in m:
                    if GENS[g].kind == 'exp':
                        num[g] = math.gcd(num.get(g, 0), int(e * self.den.get(g, 1)))
        for g, n in num.items():
            if n > 1:
                self.den[g] = Fraction(self.den.get(g, 1), n)
        self.v = {}
        self.gens = gens

    def gv(self, g):
        v = self.v.get(g)
        if v is None:
            G = GENS[g]
            d = self.den.get(g, 1)
            v = z3.Real(G.name if d == 1 else '%s^(%s)' % (G.name, Fraction(1) / d))
            self.v[g] = v
        return v

    def mono(self, m):
        fs = []
        for g, e in m:
            n = e * self.den.get(g, 1)
            n = int(n)
            assert n > 0
            fs += [self.gv(g)] * n
        return fs

    def poly(self, p):
        """z3 term of a polynomial without negative exponents."""
        ts = []
        for m, c in p.items():
            fs = self.mono(m)
            k = z3.Q(c.numerator, c.denominator)
            if not fs:
                ts.append(k)
            elif c == 1:
                ts.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
            else:
                ts.append(z3.Product(k, *fs))
        if not ts:
            return z3.RealVal(0)
        return ts[0] if len(ts) == 1 else z3.Sum(*ts)

    def clear_neg(self, polys):
        """Multiply polys by a common positive factor that removes negative exponents."""
        low = {}
        for p in polys:
            for m in p:
                for g, e in m:
                    if e < 0 and e < low.get(g, 0):
                        low[g] = e
        if not low:
            return polys
        f = []
        for g, e in sorted(low.items()):
            k = -e
            if not GENS[g].pos:
                k = 2 * math.ceil(Fraction(k) / 2)
            f.append((g, k))
        f = {tuple(f): F1}
        return [p_mul(p, f) for p in polys]

    def cmp(self, op, p):
        p, = self.clear_neg([p])
        t = self.poly(p)
        return {'==': t == 0, '!=': t != 0, '<': t < 0, '<=': t <= 0}[op]

    def eqpair(self, a, b):
        """Formula a == b for real polynomials, both sides kept apart; common denominators multiplied out."""
        a, b = clear_inv_common([a, b])
        a, b = self.clear_neg([a, b])
        return self.poly(a) == self.poly(b)

    def bool(self, b):
        if b.op in ('==', '!=', '<', '<='):
            p = b.args[0]
            if b.op in ('==', '!='):
                p = clear_inv(p)
            return self.cmp(b.op, p)
        if b.op == 'and':
            return z3.And(*[self.bool(a) for a in b.args])
        if b.op == 'or':
            return z3.Or(*[self.bool(a) for a in b.args])
        if b.op == 'not':
            return z3.Not(self.bool(b.args[0]))
        if b.op == 'true':
            return z3.BoolVal(True)
        if b.op == 'false':
            return z3.BoolVal(False)
        if b.op == 'z3':
            return b.args[0]
        raise Unsupported(b.op)

    def axioms(self):
        out = []
        for g in sorted(self.gens | set(self.v)):
            G = GENS[g]
            v = self.gv(g)
            d = self.den.get(g, 1)
            if G.pos:
                out.append(v > 0)
            if G.kind == 'var' and G.info:
                full = v
                for _ in range(d - 1):
                    full = full * v
                if G.info.get('int'):
                    out.append(z3.IsInt(full))
                if G.info.get('lo') is not None:
                    out.append(full >= z3.Q(G.info['lo'].numerator, G.info['lo'].denominator))
                if G.info.get('hi') is not None:
                    out.append(full <= z3.Q(G.info['hi'].numerator, G.info['hi'].denominator))
            if G.kind in ('const', 'prime'):
                full = v
                for _ in range(d - 1):
                    full = full * v
                q = Fraction(G.value)
                out.append(full == z3.Q(q.numerator, q.denominator))
            elif G.kind == 'pi':
                full = v
                for _ in range(d - 1):
                    full = full * v
                out.append(full > z3.Q(core.PI_LO.numerator, core.PI_LO.denominator))
                out.append(full < z3.Q(core.PI_HI.numerator, core.PI_HI.denominator))
            elif G.kind == 'inv':
                a, = self.clear_neg([G.arg])
                if a == G.arg:
                    out.append(v * self.poly(a) == 1)
            elif G.kind == 'sqrt':
                out.append(v >= 0)
                a, b = self.clear_neg([{((g, 2),): F1}, G.arg])
                out.append(self.poly(a) == self.poly(b))
            elif G.kind == 'abs':
                a, b = self.clear_neg([{((g, 1),): F1}, G.arg])
                a, b = self.poly(a), self.poly(b)
                out += [v >= 0, z3.Or(a == b, a == -b)]
            elif G.kind == 'sgn':
                t, s = self.cmp('<', p_neg(G.arg)), self.cmp('<', G.arg)
                out += [t == (v == 1), s == (v == -1), z3.Or(v == 1, v == -1, v == 0)]
            elif G.kind == 'rpow':
                a, b = self.clear_neg([{((g, G.info),): F1}, G.arg])
                out.append(self.poly(a) == self.poly(b))
            elif G.kind == 'exp':
                t = self.cmp('<', p_neg(G.arg))
                s = self.cmp('<', G.arg)
                out += [t == (v > 1), s == (v < 1)]
            elif G.kind == 'log':
                q = p_sub(G.arg, {ONE: F1})
                if not q:
                    out.append(v == 0)
                else:
                    out += [self.cmp('<', p_neg(q)) == (v > 0), self.cmp('<', q) == (v < 0)]
            elif G.kind == 'cos':
                pass
            elif G.kind == 'sin':
                c = self.gv(G.arg)
                out.append(c * c + v * v == 1)
        return out


def clear_inv_common(polys):
    polys = list(polys)
    guard = 0
    while True:
        ids = {}
        for p in polys:
            for m in p:
                for g, e in m:
                    if GENS[g].kind == 'inv':
                        ids[g] = max(ids.get(g, 0), e)
        if not ids:
            return polys
        guard += 1
        if guard > 300:
            raise Unsupported('denominator nesting')
        g = max(ids)
        d, k = GENS[g].arg, int(ids[g])
        pows = [{ONE: F1}]
        for _ in range(k):
            pows.append(p_mul(pows[-1], d))
        new = []
        for p in polys:
            out = {}
            for m, c in p.items():
                dd = dict(m)
                e = dd.pop(g, 0)
                core.p_acc(out, p_mul({tuple(sorted(dd.items())): c}, pows[int(k - e)]))
            new.append(out)
        polys = new


def z3_check(formulas, timeout_ms):
    s = z3.Solver()
    s.set('timeout', int(timeout_ms))
    s.add(*formulas)
    t = time.time()
    r = s.check()
    STATS['solver_s'] += time.time() - t
    return r, (s.model() if r == z3.sat else None)


def holds_at(b, env, memo, tol=1e-9):
    """Numeric truth value of a condition, None if too close to call."""
    if b.op in ('==', '!=', '<', '<='):
        p = b.args[0]
        try:
            v = p_value(p, env, memo)
            a = p_absvalue(p, env, memo)
        except (ValueError, ZeroDivisionError, OverflowError, KeyError):
            return None
        if not math.isfinite(v):
            return None
        small = abs(v) <= tol * a
        if b.op == '==':
            return True if small else False
        if b.op == '!=':
            return None if small else True
        if small:
            return None
        return v < 0
    if b.op in ('and', 'or'):
        rs = [holds_at(a, env, memo, tol) for a in b.args]
        if b.op == 'and':
            return False if False in rs else (None if None in rs else True)
        return True if True in rs else (None if None in rs else False)
    if b.op == 'not':
        r = holds_at(b.args[0], env, memo, tol)
        return None if r is None else not r
    if b.op == 'true':
        return True
    if b.op == 'false':
        return False
    return None


def is_z3(b):
    return b.op == 'z3' or (b.op == 'not' and b.args[0].op == 'z3')


class Explorer:
    """Depth-first exploration of every feasible path of a function by re-execution."""

    def __init__(self, seed=1, max_paths=400, feas_timeout=2000, deadline=None):
        self.max_paths = max_paths
        self.feas_timeout = feas_timeout
        self.rng = random.Random(seed)
        self.paths = 0
        self.dead = 0
        self.deadline = deadline
        self.strings = {}
        self.total_decisions = 0

    def choose(self, n):
        """Decision between n alternatives of the harness (all are explored)."""
        i = len(self.decisions)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = 0
            for k in range(n - 1, 0, -1):
                self.todo.append(self.decisions + [k])
            self.total_decisions += n - 1
        self.decisions.append(v)
        return v

    def explore(self, fn):
        self.todo = [[]]
        while self.todo:
            if self.paths >= self.max_paths:
                raise Inconclusive('more than %d paths' % self.max_paths)
            if self.deadline and time.time() > self.deadline:
                raise Inconclusive('time budget exhausted with %d paths left' % len(self.todo))
            self.prefix = self.todo.pop()
            self.decisions = []
            self.pc = []
            self.known = {}
            self.witness = None
            self.vars = {}
            self.fresh_used = {}
            del core.NONZERO[:]
            core.set_engine_obj(self)
            try:
                fn()
                self.paths += 1
                if len(self.decisions) < len(self.prefix):
                    raise Inconclusive('re-execution took another path than the first execution')
            except PathEnd:
                self.dead += 1
            finally:
                core.set_engine_obj(core.Engine())

    # -- conditions --------------------------------------------------------------------------------------------------
    def add_pc(self, b):
        self.pc.append(b)
        self.known[b.key()] = True
        self.known[negate(b).key()] = False
        if self.witness is not None:
            if not is_z3(b):
                self.witness = [w for w in self.witness if holds_at(b, w[0], w[1]) is True]

    def assume(self, b):
        if isinstance(b, (bool,)) or not isinstance(b, SymBool):
            if not b:
                raise PathEnd()
            return
        if self.known.get(b.key()) is True:
            return
        self.add_pc(b)

    def sample_env(self):
        env = {}
        for G in list(GENS):
            if G.kind == 'var':
                info = G.info or {}
                lo, hi = info.get('lo'), info.get('hi')
                if lo is not None and hi is not None:
                    x = self.rng.uniform(float(lo), float(hi))
                    if G.pos and lo > 0 and hi / lo > 100:
                        x = math.exp(self.rng.uniform(math.log(lo), math.log(hi)))
                elif lo is not None:
                    x = float(lo) + math.exp(self.rng.uniform(-1.5, 1.5))
                elif G.pos:
                    x = math.exp(self.rng.uniform(-1.2, 1.2))
                else:
                    x = self.rng.uniform(-2, 2)
                if info.get('int'):
                    x = float(round(x))
                env[G.name] = x
        return env

    def get_witness(self, n=24, tries=120):
        if self.witness is None or (len(self.witness) < 4):
            have = self.witness or []
            for _ in range(tries):
                e, memo = self.sample_env(), {}
                if all(is_z3(b) or holds_at(b, e, memo) is True for b in self.pc):
                    have.append((e, memo))
                    if len(have) >= n:
                        break
            self.witness = have
        return self.witness

    def feasible(self, extra, timeout=None):
        conds = self.pc + [extra]
        STATS['feasibility'] += 1
        tr = Trans([p for b in conds for p in bool_polys(b)])
        fs = [tr.bool(b) for b in conds]
        fs += tr.axioms()
        r, _ = z3_check(fs, timeout or self.feas_timeout)
        return r != z3.unsat

    def branch(self, cond):
        k = cond.key()
        if cond.op == 'true':
            return True
        if cond.op == 'false':
            return False
        d = self.known.get(k)
        if d is not None:
            return d
        i = len(self.decisions)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.decisions.append(v)
            if v in (2, 3) and not isinstance(v, bool):
                # implied by the path condition when it was first met
                v = v == 3
                self.known[k] = v
                self.known[negate(cond).key()] = not v
                return v
            self.add_pc(cond if v else negate(cond))
            return v
        t = f = None
        for e, memo in self.get_witness():
            h = holds_at(cond, e, memo)
            if h is True:
                t = True
            elif h is False:
                f = True
        STATS['feas_by_witness'] += (t is True) + (f is True)
        if t is None:
            t = self.feasible(cond)
        if f is None:
            f = self.feasible(negate(cond)) if t else True
        if not t and not f:
            raise PathEnd()
        if t and f:
            self.total_decisions += 1
            self.todo.append(self.decisions + [False])
            v = True
        else:
            v = bool(t)
            # implied: not a real decision, but recorded so that re-executions stay in step
            self.decisions.append(3 if v else 2)
            self.known[k] = v
            self.known[negate(cond).key()] = not v
            return v
        self.decisions.append(v)
        self.add_pc(cond if v else negate(cond))
        return v

    # -- queries -----------------------------------------------------------------------------------------------------
    def path_formulas(self, tr, extra_polys=()):
        fs = [tr.bool(b) for b in self.pc]
        return fs

    def prove_eqs(self, pairs, timeout=60000):
        """pairs: list of (lhs, rhs) Syms. Returns list of indices for which the solver does not say 'equal', with verdict."""
        todo = []
        seen = set()
        for i, (a, b) in enumerate(pairs):
            a, b = lift(a), lift(b)
            key = (core.p_key(a.re), core.p_key(a.im), core.p_key(b.re), core.p_key(b.im))
            if key in seen:
                continue
            seen.add(key)
            for x, y in ((a.re, b.re), (a.im, b.im)):
                if x or y:
                    todo.append((i, x, y))
        bad = []
        # canonical differences that vanish are handed to the solver in batches, the others one at a time
        easy, hard = [], []
        for t in todo:
            x, y = t[1], t[2]
            d = p_sub(x, y)
            if not d or not clear_inv(d):
                easy.append(t)
            else:
                hard.append(t)
        B = 40
        for j in range(0, len(easy), B):
            chunk = easy[j:j + B]
            polys = [p for t in chunk for p in (t[1], t[2])]
            tr = Trans(polys)
            neq = z3.Or(*[z3.Not(tr.eqpair(t[1], t[2])) for t in chunk])
            r, _ = z3_check([neq], timeout)
            STATS['queries'] += 1
            if r == z3.unsat:
                STATS['unsat'] += 1
            else:
                STATS['unknown' if r == z3.unknown else 'sat'] += 1
                hard += chunk
        for i, x, y in hard:
            r = self.prove_one(SymBool('==', p_sub(x, y)), timeout)
            if r != 'unsat':
                bad.append((i, r))
        return bad

    def prove_one(self, cond, timeout=60000):
        """Is cond implied by the path condition?  'unsat' means proven."""
        neg = negate(cond)
        # a numeric witness that clearly violates an equality saves the (expensive) solver call only for the verdict
        # 'sat'; it is cross-checked by the replay.
        for e, memo in self.get_witness():
            if holds_at(neg, e, memo, 1e-6) is True:
                # ask the solver at this very point
                if self.point_sat(neg, e):
                    STATS['queries'] += 1
                    STATS['sat'] += 1
                    return 'sat'
        conds = self.pc + [neg] + [SymBool('!=', p) for p in core.NONZERO]
        tr = Trans([p for b in conds for p in bool_polys(b)])
        fs = [tr.bool(b) for b in conds]
        fs += tr.axioms()
        r, m = z3_check(fs, timeout)
        STATS['queries'] += 1
        STATS[str(r)] = STATS.get(str(r), 0) + 1
        return str(r)

    def point_sat(self, neg, env):
        """Solver query with the input variables pinned near a concrete point."""
        conds = self.pc + [neg]
        tr = Trans([p for b in conds for p in bool_polys(b)])
        fs = [tr.bool(b) for b in conds]
        fs += tr.axioms()
        for g in list(tr.v):
            G = GENS[g]
            if G.kind == 'var' and G.name in env and g in tr.v:
                d = tr.den.get(g, 1)
                q = Fraction(env[G.name] ** (1.0 / d) if d > 1 else env[G.name]).limit_denominator(10**4)
                fs.append(tr.v[g] == z3.Q(q.numerator, q.denominator))
        r, _ = z3_check(fs, 5000)
        return r == z3.sat

    def sat_model(self, conds=(), timeout=10000):
        """A model of the path condition (and extra conditions) as {variable: float}, or None/'unsat'."""
        conds = self.pc + list(conds)
        tr = Trans([p for b in conds for p in bool_polys(b)])
        fs = [tr.bool(b) for b in conds]
        fs += tr.axioms()
        r, m = z3_check(fs, timeout)
        if r == z3.unsat:
            return 'unsat'
        if r != z3.sat:
            return None
        env = {}
        for g, v in tr.v.items():
            G = GENS[g]
            if G.kind == 'var':
                x = m.eval(v, model_completion=True)
                f = alg_float(x)
                env[G.name] = f ** tr.den.get(g, 1)
        for n, z in self.strings.items():
            try:
                env[n] = m.eval(z, model_completion=True).as_string()
            except Exception:
                pass
        return env


def alg_float(x):
    if z3.is_rational_value(x):
        return float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
    if z3.is_algebraic_value(x):
        y = x.approx(20)
        return float(Fraction(y.numerator_as_long(), y.denominator_as_long()))
    return float(str(x))
