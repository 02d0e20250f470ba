"""Symbolic numbers: Laurent polynomials with rational coefficients over named generators.

A Sym is a complex number re + i*im whose parts are polynomials {monomial: Fraction}.  A monomial is a sorted tuple of
(generator id, exponent); exponents may be negative and, for positive generators, fractional.  All generators are real.
Transcendental functions become generators ("atoms") that carry their defining axioms, see `Gen.axioms`.
"""
from fractions import Fraction
import math
import numbers
import numpy as _np

F0, F1 = Fraction(0), Fraction(1)


class Unsupported(Exception):
    """The code under check did something the encoding does not model."""


class Undefined(Exception):
    """Division by something that is identically zero."""


# ---------------------------------------------------------------------------------------------------------------------
# generators
# ---------------------------------------------------------------------------------------------------------------------
class Gen:
    __slots__ = ('id', 'name', 'kind', 'pos', 'arg', 'value', 'info')

    def __init__(self, id, name, kind, pos, arg=None, value=None, info=None):
        self.id, self.name, self.kind, self.pos, self.arg, self.value, self.info = id, name, kind, pos, arg, value, info

    def __repr__(self):
        return self.name


GENS = []
_BY_KEY = {}


def gen(key, kind, pos, arg=None, name=None, value=None, info=None):
    g = _BY_KEY.get(key)
    if g is None:
        g = Gen(len(GENS), name or '%s_%d' % (kind, len(GENS)), kind, pos, arg, value, info)
        GENS.append(g)
        _BY_KEY[key] = g
    return g


EPS = []          # generators that are infinitesimals (products of two of them vanish)
_EPS_IDS = set()


def eps_var():
    g = gen(('eps', len(EPS)), 'eps', False, name='eps%d' % len(EPS))
    EPS.append(g)
    _EPS_IDS.add(g.id)
    return mk({((g.id, 1),): F1})


def m_eps(m):
    return any(g in _EPS_IDS for g, _ in m)


def has_eps(x):
    return bool(EPS) and (any(m_eps(m) for m in x.re) or any(m_eps(m) for m in x.im))


def drop_eps(x):
    if not EPS or not has_eps(x):
        return x
    return mk({m: c for m, c in x.re.items() if not m_eps(m)}, {m: c for m, c in x.im.items() if not m_eps(m)})


EPS_OFF = [False]      # while torch would not record gradients


def noeps(x):
    return drop_eps(x) if EPS_OFF[0] else x


def eps_part(x):
    return mk({m: c for m, c in x.re.items() if m_eps(m)}, {m: c for m, c in x.im.items() if m_eps(m)})


def eps_coeff(x, e):
    """Derivative with respect to the infinitesimal e (real part of x)."""
    return lin_coeff(lift(x).real, e)


def lin_coeff(x, v):
    """Coefficient of the generator v (a Sym that is one variable) in x, terms of degree one."""
    ((g, _),), = v.re
    return mk(*[{tuple(q for q in m if q[0] != g): c for m, c in p.items() if (g, 1) in m} for p in (x.re, x.im)])


def nz_poly(x):
    x = lift(x)
    return bool(x.re) or bool(x.im)


def reset_gens():
    EPS.clear()
    _EPS_IDS.clear()
    GENS.clear()
    _BY_KEY.clear()
    _MM.clear()
    _RED.clear()
    _CLOSED.clear()
    PROBE.clear()
    _CANON.clear()
    ANGLE_BASE.clear()
    del NONZERO[:]


# ---------------------------------------------------------------------------------------------------------------------
# monomials / polynomials
# ---------------------------------------------------------------------------------------------------------------------
ONE = ()
_MM = {}


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    key = (a, b)
    r = _MM.get(key)
    if r is None:
        d = dict(a)
        for g, e in b:
            n = d.get(g, 0) + e
            if n == 0:
                d.pop(g, None)
            else:
                d[g] = int(n) if isinstance(n, Fraction) and n.denominator == 1 else n
        r = tuple(sorted(d.items()))
        if len(_MM) > 2000000:
            _MM.clear()
        _MM[key] = r
    return r


def mono_pow(a, k):
    if k == 0:
        return ONE
    out = []
    for g, e in a:
        n = e * k
        if isinstance(n, Fraction) and n.denominator == 1:
            n = int(n)
        out.append((g, n))
    return tuple(out)


def needs_reduce(m):
    for g, e in m:
        k = GENS[g].kind
        if k == 'sin':
            if e > 1 or e < 0:
                return True
        elif k == 'prime':
            if e >= 1 or e < 0:
                return True
        elif k == 'sqrt' or k == 'abs':
            if e > 1 or e < 0:
                return True
        elif k == 'inv':
            if e < 0:
                return True
            lead = GENS[g].info
            if lead is not None and all(_exp_in(m, h) >= x for h, x in lead):
                return True
        elif k == 'sign':
            if e > 1 or e < 0:
                return True
        elif k == 'sgn':
            if e > 2 or e < 0:
                return True
    return False


_RED = {}


def _exp_in(m, h):
    for g, e in m:
        if g == h:
            return e
    return 0


def inv_lead(q):
    """Leading monomial of a denominator (all exponents >= 0), used to rewrite lead/q = 1 - rest/q."""
    if any(e < 0 for m in q for _, e in m):
        return None
    m = max(q, key=_grlex)
    return m if m else None


def reduce_mono(m):
    """Rewrite one monomial into a polynomial in normal form."""
    r = _RED.get(m)
    if r is not None:
        return r
    for idx, (g, e) in enumerate(m):
        G = GENS[g]
        rest = m[:idx] + m[idx + 1:]
        sub = None
        if G.kind == 'sin' and e > 1:
            c = G.arg
            sub = p_sub({ONE: F1}, {((c, 2),): F1})
            sub = p_mul(sub, reduce_poly({((g, e - 2),): F1} if e != 2 else {ONE: F1}))
        elif G.kind == 'prime' and (e >= 1 or e < 0):
            k = math.floor(e)
            f = e - k
            sub = {(((g, f),) if f else ONE): Fraction(G.value) ** k}
        elif G.kind == 'sqrt' and e > 1:
            sub = G.arg
            sub = p_mul(sub, reduce_poly({((g, e - 2),): F1} if e != 2 else {ONE: F1}))
        elif G.kind == 'sqrt' and e < 0:
            sub = p_mul({((g, e + 2),): F1} if e != -2 else {ONE: F1}, p_inv(G.arg))
            sub = reduce_poly(sub)
        elif G.kind == 'abs' and e > 1:
            sub = p_mul(p_mul(G.arg, G.arg), reduce_poly({((g, e - 2),): F1} if e != 2 else {ONE: F1}))
        elif G.kind == 'abs' and e < 0:
            i = p_inv(G.arg)
            sub = reduce_poly(p_mul({((g, e + 2),): F1} if e != -2 else {ONE: F1}, p_mul(i, i)))
        elif G.kind == 'inv' and e < 0:
            sub = G.arg
            for _ in range(-int(e) - 1):
                sub = p_mul(sub, G.arg)
        elif G.kind == 'inv' and G.info is not None and all(_exp_in(m, h) >= x for h, x in G.info):
            # lead*inv -> (1 - rest*inv)/lc
            lead = G.info
            q = mono_mul(m, mono_pow(lead, -1))
            q = mono_mul(q, ((g, -1),))
            c = G.arg[lead]
            tail = {k: -v / c for k, v in G.arg.items() if k != lead}
            r = p_mul({q: F1}, p_add({ONE: 1 / c}, p_mul({((g, 1),): F1}, tail)))
            r = reduce_poly(r)
            _RED[m] = r
            return r
        elif G.kind == 'sign' and (e > 1 or e < 0):
            sub = {(((g, 1),) if e % 2 else ONE): F1}
        elif G.kind == 'sgn' and (e > 2 or e < 0):
            if e < 0:
                note_nonzero(G.arg)
            sub = {((g, 1 if e % 2 else 2),): F1}
        if sub is not None:
            r = p_mul({rest: F1}, sub)
            r = reduce_poly(r)
            _RED[m] = r
            return r
    r = {m: F1}
    return r


def reduce_poly(p):
    if not any(needs_reduce(m) for m in p):
        return p
    out = {}
    for m, c in p.items():
        if needs_reduce(m):
            for m2, c2 in reduce_mono(m).items():
                v = out.get(m2, 0) + c * c2
                if v:
                    out[m2] = v
                else:
                    out.pop(m2, None)
        else:
            v = out.get(m, 0) + c
            if v:
                out[m] = v
            else:
                out.pop(m, None)
    return reduce_poly(out) if any(needs_reduce(m) for m in out) else out


def p_add(a, b):
    if not a:
        return b
    if not b:
        return a
    if len(b) > len(a):
        a, b = b, a
    out = dict(a)
    for m, c in b.items():
        v = out.get(m)
        if v is None:
            out[m] = c
        else:
            v = v + c
            if v:
                out[m] = v
            else:
                del out[m]
    return out


def p_acc(out, b):
    """Add b to out in place."""
    for m, c in b.items():
        v = out.get(m)
        if v is None:
            out[m] = c
        else:
            v = v + c
            if v:
                out[m] = v
            else:
                del out[m]


def p_neg(a):
    return {m: -c for m, c in a.items()}


def p_sub(a, b):
    return p_add(a, p_neg(b))


def p_scale(a, k):
    if not k:
        return {}
    return {m: c * k for m, c in a.items()}


def p_mul(a, b):
    if not a or not b:
        return {}
    if len(a) == 1 and ONE in a:
        return p_scale(b, a[ONE]) if a[ONE] != 1 else b
    if len(b) == 1 and ONE in b:
        return p_scale(a, b[ONE]) if b[ONE] != 1 else a
    out = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mono_mul(m1, m2)
            v = out.get(m)
            if v is None:
                out[m] = c1 * c2
            else:
                v = v + c1 * c2
                if v:
                    out[m] = v
                else:
                    del out[m]
    if EPS:
        out = {m: c for m, c in out.items() if sum(e for g, e in m if g in _EPS_IDS) < 2}
    return reduce_poly(out)


def p_key(p):
    return tuple(sorted(p.items()))


def p_content(p):
    """Common monomial factor (smallest exponent of each generator)."""
    it = iter(p)
    cur = dict(next(it))
    for m in it:
        d = dict(m)
        for g in list(cur):
            if g in d:
                if d[g] < cur[g]:
                    cur[g] = d[g]
            elif cur[g] > 0:
                del cur[g]
        for g, e in d.items():
            if g not in cur and e < 0:
                cur[g] = e
    # generators missing from the first monomial but negative later
    res = {}
    for g in set(g for m in p for g, _ in m):
        lo = min(dict(m).get(g, 0) for m in p)
        if lo:
            res[g] = lo
    return tuple(sorted(res.items()))


def p_inv(p):
    """Reciprocal of a real polynomial (assumed non-zero; the assumption is recorded)."""
    if not p:
        raise Undefined('division by zero')
    if len(p) == 1:
        (m, c), = p.items()
        r = reduce_poly({mono_pow(m, -1): F1 / c})
        for g, e in m:
            if not GENS[g].pos and GENS[g].kind not in ('inv',):
                note_nonzero({((g, 1),): F1})
        return r
    cont = p_content(p)
    q = p_mul({mono_pow(cont, -1): F1}, p) if cont else p
    lead = min(q)
    lc = q[lead]
    q = p_scale(q, 1 / lc)
    if len(q) == 1:
        return p_inv(p_scale(p_mul({cont: F1}, q), lc)) if p_key(q) != p_key(p) else reduce_poly({mono_pow(next(iter(q)), -1): F1})
    # try exact roots of known inverses: 1/(1/x) handled by content
    G = gen(('inv', p_key(q)), 'inv', p_sign(q) == 1, arg=q)
    if G.info is None:
        G.info = inv_lead(q)
    note_nonzero(q)
    r = {mono_mul(mono_pow(cont, -1), ((G.id, 1),)): 1 / lc}
    return reduce_poly(r)


NONZERO = []      # polynomials assumed non-zero on the current path (definedness of divisions)


def note_nonzero(p):
    NONZERO.append(p)


def clear_inv(p):
    """Multiply a polynomial by the denominators it contains: p == 0 iff result == 0 (denominators non-zero)."""
    guard = 0
    while True:
        ids = {}
        for m in p:
            for g, e in m:
                if GENS[g].kind == 'inv':
                    ids[g] = max(ids.get(g, 0), e)
        if not ids:
            break
        guard += 1
        if guard > 200:
            raise Unsupported('denominator nesting')
        g = max(ids)
        d, k = GENS[g].arg, ids[g]
        pows = [{ONE: F1}]
        for _ in range(int(k)):
            pows.append(p_mul(pows[-1], d))
        out = {}
        for m, c in p.items():
            dd = dict(m)
            e = dd.pop(g, 0)
            p_acc(out, p_mul({tuple(sorted(dd.items())): c}, pows[int(k - e)]))
        p = out
    return p


# ---------------------------------------------------------------------------------------------------------------------
# numbers
# ---------------------------------------------------------------------------------------------------------------------
def to_frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, _np.integer)):
        return Fraction(int(x))
    if isinstance(x, (float, _np.floating)):
        x = float(x)
        if x == math.pi:
            raise Unsupported('float pi reached the encoding')
        if math.isnan(x) or math.isinf(x):
            raise Unsupported('non-finite number %r' % x)
        f = Fraction(repr(x))
        if f.denominator > 1000:
            g = f.limit_denominator(720)
            if g and abs(g - f) <= 5e-16 * abs(g):
                return g
            g = Fraction('%.12g' % x)        # decimal constants with rounding noise of machine arithmetic
            if abs(g - f) <= 1e-15 * abs(g):
                return g
        return f
    raise TypeError(type(x))


class SymBool:
    """Comparison of a real polynomial with zero: op in '==','!=','<','<=' ; or boolean combination ('and'|'or'|'not')."""
    __slots__ = ('op', 'args')

    def __init__(self, op, *args):
        self.op, self.args = op, args

    def __bool__(self):
        return ENGINE.branch(self)

    def key(self):
        if self.op in ('==', '!=', '<', '<='):
            return (self.op, p_key(self.args[0]))
        if self.op == 'z3':
            return ('z3', self.args[0].get_id())
        return (self.op,) + tuple(a.key() if isinstance(a, SymBool) else a for a in self.args)

    def __invert__(self):
        return negate(self)

    def __and__(self, o):
        return SymBool('and', self, _asb(o))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool('or', self, _asb(o))
    __ror__ = __or__

    def __eq__(self, o):
        o = _asb(o)
        return SymBool('or', SymBool('and', self, o), SymBool('and', negate(self), negate(o)))
    __hash__ = None

    def __repr__(self):
        if self.op in ('==', '!=', '<', '<='):
            return '(%s %s 0)' % (p_str(self.args[0]), self.op)
        return '(%s %s)' % (self.op, ' '.join(map(repr, self.args)))


TRUE, FALSE = SymBool('true'), SymBool('false')


def _asb(o):
    if isinstance(o, SymBool):
        return o
    return TRUE if o else FALSE


def negate(b):
    if b.op == '==':
        return SymBool('!=', *b.args)
    if b.op == '!=':
        return SymBool('==', *b.args)
    if b.op == '<':      # not p<0  ==  -p<=0
        return SymBool('<=', p_neg(b.args[0]))
    if b.op == '<=':
        return SymBool('<', p_neg(b.args[0]))
    if b.op == 'not':
        return b.args[0]
    if b.op == 'true':
        return FALSE
    if b.op == 'false':
        return TRUE
    return SymBool('not', b)


def p_sign(p):
    """Definite sign of a polynomial from generator positivity: 1, -1, 0, or None (also '>=0' style info dropped)."""
    if not p:
        return 0
    s = None
    for m, c in p.items():
        for g, e in m:
            if not GENS[g].pos and not (isinstance(e, int) and e % 2 == 0 and False):
                return None
        t = 1 if c > 0 else -1
        if s is None:
            s = t
        elif s != t:
            return None
    return s


_CLOSED = {}


def gen_closed(g):
    r = _CLOSED.get(g)
    if r is None:
        G = GENS[g]
        if G.kind == 'var':
            r = False
        elif G.kind in ('const', 'pi', 'prime'):
            r = True
        elif G.kind == 'sin':
            r = p_closed(G.info)
        elif G.kind == 'fun':
            r = False
        else:
            r = p_closed(G.arg)
        _CLOSED[g] = r
    return r


def p_closed(p):
    return all(gen_closed(g) for m in p for g, _ in m)


def p_str(p, n=6):
    if not p:
        return '0'
    out = []
    for i, (m, c) in enumerate(p.items()):
        if i >= n:
            out.append('...(%d terms)' % len(p))
            break
        out.append('*'.join([str(c)] + ['%s%s' % (GENS[g].name, '' if e == 1 else '^%s' % e) for g, e in m]))
    return ' + '.join(out)


class Engine:
    """Default engine: refuses to branch (replaced by the explorer while exploring)."""

    def branch(self, cond):
        raise Unsupported('branch on a symbolic condition outside of an exploration: %r' % cond)


ENGINE = Engine()


def set_engine_obj(e):
    global ENGINE
    ENGINE = e


def mk(re, im=None):
    s = object.__new__(Sym)
    s.re, s.im = re, ({} if im is None else im)
    return s


def lift(x):
    """Convert a Python/numpy number to Sym; None if it is something else."""
    if isinstance(x, Sym):
        return x
    if isinstance(x, (complex, _np.complexfloating)):
        re, im = to_frac(x.real), to_frac(x.imag)
        return mk({ONE: re} if re else {}, {ONE: im} if im else {})
    if isinstance(x, (int, float, Fraction, _np.integer, _np.floating, _np.bool_)):
        f = to_frac(x)
        return mk({ONE: f} if f else {})
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return lift(x.item())
    return None


class Sym:
    __slots__ = ('re', 'im')
    # behave like a scalar for numpy object arrays
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, x=0):
        l = lift(x)
        self.re, self.im = l.re, l.im

    # -- arithmetic --------------------------------------------------------------------------------------------------
    def __add__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return mk(p_add(self.re, o.re), p_add(self.im, o.im))
    __radd__ = __add__

    def __neg__(self):
        return mk(p_neg(self.re), p_neg(self.im))

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return mk(p_sub(self.re, o.re), p_sub(self.im, o.im))

    def __rsub__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return mk(p_sub(o.re, self.re), p_sub(o.im, self.im))

    def __mul__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if not self.im and not o.im:
            return mk(p_mul(self.re, o.re))
        return mk(p_sub(p_mul(self.re, o.re), p_mul(self.im, o.im)),
                  p_add(p_mul(self.re, o.im), p_mul(self.im, o.re)))
    __rmul__ = __mul__

    def inverse(self):
        self = noeps(self)
        if EPS and has_eps(self):
            i = drop_eps(self).inverse()
            return i - i * i * eps_part(self)
        if not self.im:
            return mk(p_inv(self.re))
        if not self.re:
            return mk({}, p_neg(p_inv(self.im)))
        d = p_inv(p_add(p_mul(self.re, self.re), p_mul(self.im, self.im)))
        return mk(p_mul(self.re, d), p_neg(p_mul(self.im, d)))

    def __truediv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return self * o.inverse()

    def __rtruediv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return o * self.inverse()

    def __pow__(self, k):
        if isinstance(k, Sym):
            if k.is_const() and not k.im:
                k = k.const()
            else:
                raise Unsupported('symbolic exponent')
        k = to_frac(k)
        if k.denominator != 1 and INTS[0] and is_integer(self):
            return float_root(self, k)
        if k.denominator == 1:
            n = int(k)
            if n < 0:
                return (self ** (-n)).inverse()
            r = mk({ONE: F1})
            b = self
            while n:
                if n & 1:
                    r = r * b
                n >>= 1
                if n:
                    b = b * b
            return r
        if k.denominator == 2:
            return sqrt(self) ** int(2 * k)
        return rpow(self, k)

    def __rpow__(self, b):
        # b ** sym = exp(sym*log b)
        return exp(self * log(lift(b)))

    def __abs__(self):
        return absolute(self)

    def __floordiv__(self, o):
        if INTS[0]:
            return lift(floor_int(self / o))
        raise Unsupported('floor division of a symbolic number')

    def __floor__(self):
        return floor_int(self)

    def __ceil__(self):
        return -floor_int(-self)

    def __trunc__(self):
        return self.__int__()

    def __mod__(self, o):
        if INTS[0]:
            return self - lift(o) * floor_int(self / o)
        raise Unsupported('modulo of a symbolic number')

    def __divmod__(self, o):
        if INTS[0]:
            q = lift(floor_int(self / o))
            return q, self - lift(o) * q
        raise Unsupported('division with remainder of a symbolic number')

    # -- comparisons -------------------------------------------------------------------------------------------------
    def _diff(self, o):
        o = lift(o)
        if o is None:
            return None
        return self - o

    def __eq__(self, o):
        d = self._diff(o)
        if d is None:
            return False
        return eq0(d)

    def __ne__(self, o):
        d = self._diff(o)
        if d is None:
            return True
        r = eq0(d)
        return negate(r) if isinstance(r, SymBool) else (not r)

    def _cmp(self, o, op, swap):
        d = self._diff(o)
        if d is None:
            return NotImplemented
        if EPS:
            d = drop_eps(d)
        if d.im:
            z = eq0(mk(d.im))
            if not (z is True or (isinstance(z, SymBool) and bool(z))):
                raise Unsupported('ordering of complex numbers')
        p = p_neg(d.re) if swap else d.re
        return cmp0(p, op)

    def __lt__(self, o):
        return self._cmp(o, '<', False)

    def __le__(self, o):
        return self._cmp(o, '<=', False)

    def __gt__(self, o):
        return self._cmp(o, '<', True)

    def __ge__(self, o):
        return self._cmp(o, '<=', True)

    __hash__ = None

    def __bool__(self):
        r = eq0(self)
        return (not r) if isinstance(r, bool) else bool(negate(r))

    # -- conversions -------------------------------------------------------------------------------------------------
    def is_const(self):
        return (not self.re or (len(self.re) == 1 and ONE in self.re)) and \
               (not self.im or (len(self.im) == 1 and ONE in self.im))

    def const(self):
        assert self.is_const()
        return self.re.get(ONE, F0)

    def is_closed(self):
        return p_closed(self.re) and p_closed(self.im)

    def __float__(self):
        if self.is_const() and not self.im:
            return float(self.const())
        if not self.im and p_closed(self.re):
            return p_value(self.re, {})
        raise Unsupported('symbolic number converted to a machine float: %s' % p_str(self.re))

    def __complex__(self):
        if self.is_const():
            return complex(float(self.re.get(ONE, 0)), float(self.im.get(ONE, 0)))
        if self.is_closed():
            return complex(p_value(self.re, {}), p_value(self.im, {}))
        raise Unsupported('symbolic number converted to a machine complex: %s' % p_str(self.re))

    def __int__(self):
        if self.is_const() and not self.im:
            return int(self.const())
        if not self.im and p_closed(self.re):
            v = p_value(self.re, {})
            if abs(v - round(v)) > 1e-9:
                return int(v)
        if INTS[0]:
            return -floor_int(-self) if bool(self < 0) else floor_int(self)
        raise Unsupported('symbolic number converted to a machine integer')

    def __index__(self):
        if self.is_const() and not self.im and self.const().denominator == 1:
            return int(self.const())
        if INTS[0] and is_integer(self):
            return floor_int(self)
        raise Unsupported('symbolic number used as an index')

    def __round__(self, n=None):
        return ENGINE_ROUND(self, n or 0)

    def __format__(self, spec):
        if self.is_const():
            return format(float(self), spec)
        try:
            return format(token(self), spec)
        except ValueError:
            return token(self)

    def _sympy_(self):
        import sympy
        return sympy.Symbol(token(self)) if not self.is_const() else sympy.Float(float(self))

    # -- numpy ufunc hooks (np.sqrt on object arrays calls the method of the same name) ------------------------------
    def sqrt(self):
        return sqrt(self)

    def exp(self):
        return exp(self)

    def log(self):
        return log(self)

    def cos(self):
        return cos(self)

    def sin(self):
        return sin(self)

    def tanh(self):
        return tanh(self)

    def sinh(self):
        e = exp(self)
        return (e - 1 / e) / 2

    def cosh(self):
        e = exp(self)
        return (e + 1 / e) / 2

    def conjugate(self):
        return mk(self.re, p_neg(self.im))
    conj = conjugate

    @property
    def real(self):
        return mk(self.re)

    @property
    def imag(self):
        return mk(self.im)

    @property
    def dtype(self):
        return _np.dtype(object)

    @property
    def T(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def squeeze(self):
        return self

    def isfinite(self):
        return True

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (_unpickle, (self.re, self.im))

    def __repr__(self):
        if not self.im:
            return 'Sym(%s)' % p_str(self.re)
        return 'Sym(%s, i*(%s))' % (p_str(self.re), p_str(self.im))


numbers.Complex.register(Sym)


def _unpickle(re, im):
    return mk(re, im)


def eq0(d):
    """d == 0 as bool or SymBool."""
    if EPS:
        d = drop_eps(d)
    if not d.re and not d.im:
        return True
    if d.is_const():
        return False
    parts = []
    for p in (d.re, d.im):
        if p:
            r = cmp0(p, '==')
            if r is False:
                return False
            if r is not True:
                parts.append(r)
    if not parts:
        return True
    return parts[0] if len(parts) == 1 else SymBool('and', *parts)


def cmp0(p, op):
    s = p_sign(p)
    if s is None and any(GENS[g].kind == 'inv' for m in p for g, _ in m):
        q = clear_inv(p)
        if not q:
            p, s = {}, 0
        elif op == '==':
            p = q
            s = p_sign(p)
    if s is not None:
        return {'==': s == 0, '!=': s != 0, '<': s < 0, '<=': s <= 0}[op]
    if p_closed(p):
        v, a = p_value(p, {}), p_absvalue(p, {})
        if abs(v) > 1e-10 * a:
            return {'==': False, '!=': True, '<': v < 0, '<=': v < 0}[op]
    if len(p) == 1:
        (m, c), = p.items()
        if op in ('==', '!=') and all(GENS[g].pos or GENS[g].kind == 'inv' for g, _ in m):
            return op == '!='
        if op == '==' or op == '!=':
            # x*y == 0: drop positive factors
            m = tuple((g, e) for g, e in m if not GENS[g].pos)
            return SymBool(op, {m: F1})
    # normalise scale so that equal conditions have equal keys
    lead = min(p)
    k = abs(p[lead])
    if k != 1:
        p = p_scale(p, 1 / k)
    if op in ('==', '!=') and p[lead] < 0:
        p = p_neg(p)
    return SymBool(op, p)


# ---------------------------------------------------------------------------------------------------------------------
# variables and functions
# ---------------------------------------------------------------------------------------------------------------------
def var(name, pos=False, value=None, lo=None, hi=None):
    g = gen(('var', name), 'var', pos, name=name, value=value, info=dict(lo=lo, hi=hi))
    return mk({((g.id, 1),): F1})


# -- integers (only in harnesses that ask for them) -------------------------------------------------------------------
INTS = [False]


def integer(name, lo, hi):
    INTS[0] = True
    g = gen(('var', name), 'var', lo > 0, name=name, info=dict(lo=Fraction(lo), hi=Fraction(hi), int=True))
    return mk({((g.id, 1),): F1})


def is_integer(s):
    """Integer valued by its form."""
    if s.im:
        return False
    return all(c.denominator == 1 and all(isinstance(e, int) and e > 0 and (GENS[g].info or {}).get('int') if GENS[g].kind == 'var'
                                          else False for g, e in m) for m, c in s.re.items())


def floor_int(s):
    """Largest integer not above s: one path for every value it can take."""
    s = lift(s)
    if s.is_const() and not s.im:
        c = s.const()
        return c.numerator // c.denominator
    if s.im:
        raise Unsupported('floor of a complex number')
    if bool(s < 0):
        lo, hi = -1, 0
        while bool(s < lo):
            lo, hi = 2 * lo, lo
            if lo < -10**7:
                raise Unsupported('floor of an unbounded number')
    else:
        lo, hi = 0, 1
        while not bool(s < hi):
            lo, hi = hi, 2 * hi
            if hi > 10**7:
                raise Unsupported('floor of an unbounded number')
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if bool(s < mid):
            hi = mid
        else:
            lo = mid
    return lo


def round_int(s):
    """Nearest integer, ties to even."""
    t = s + Fraction(1, 2)
    k = floor_int(t)
    if k % 2 and bool(t == k):
        return k - 1
    return k


ROOT_ERR = Fraction(1, 2**50)


def float_root(s, k):
    """Power of an integer as floating-point number: any number within a relative error of 2^-50 of the real one."""
    k = k.limit_denominator(64)
    y = var('root%d_%d' % (k.numerator, k.denominator) + repr(s), pos=True)
    p, q = k.numerator, k.denominator
    ENGINE.assume((y * (1 - ROOT_ERR)) ** q <= s ** p)
    ENGINE.assume((y * (1 + ROOT_ERR)) ** q >= s ** p)
    return y


def const_sym(name, value):
    """A positive physical constant kept symbolic; `value` is used for inequalities only."""
    g = gen(('const', name), 'const', True, name=name, value=to_frac(value))
    return mk({((g.id, 1),): F1})


PI_LO, PI_HI = Fraction(314159265, 10**8), Fraction(314159266, 10**8)


def pi():
    g = gen(('pi',), 'pi', True, name='pi')
    return mk({((g.id, 1),): F1})


def _factor(n):
    out, d = {}, 2
    while d * d <= n:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1 if d == 2 else 2
        if d > 200000:
            break
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


# while ordinary numbers are computed, roots of numbers are floating point numbers as in the real run
ROUGH = [False]


def prime_pow(q, k):
    """q**k for a positive rational q and rational k, as polynomial."""
    if ROUGH[0]:
        return {ONE: Fraction(float(q) ** float(k))}
    m, coef = {}, F1
    for n, s in ((q.numerator, 1), (q.denominator, -1)):
        for pr, e in _factor(n).items():
            m[pr] = m.get(pr, 0) + s * e
    mono = []
    for pr, e in m.items():
        ex = e * k
        if isinstance(ex, Fraction) and ex.denominator == 1:
            ex = int(ex)
        fl = math.floor(ex)
        coef *= Fraction(pr) ** fl
        fr = ex - fl
        if fr:
            g = gen(('prime', pr), 'prime', True, name='p%d' % pr, value=pr)
            mono.append((g.id, fr))
    return {tuple(sorted(mono)): coef}


def rpow(x, k):
    """x**k for positive x and rational k."""
    x = lift(x)
    x = noeps(x)
    if EPS and has_eps(x):
        x0 = drop_eps(x)
        return rpow(x0, k) + k * rpow(x0, k) / x0 * eps_part(x)
    if x.im:
        raise Unsupported('fractional power of a complex number')
    if not x.re:
        return mk({})
    if len(x.re) == 1:
        (m, c), = x.re.items()
        if c > 0 and all(frac_ok(g) for g, _ in m):
            r = p_mul(prime_pow(c, k), {ONE: F1})
            return mk(p_mul(r, reduce_poly({mono_pow(m, k): F1})))
    base, _ = canon('rpow', x.re)
    g = gen(('rpow', p_key(base), k.denominator), 'rpow', True, arg=base, info=k.denominator)
    r = {((g.id, int(k * k.denominator)),): F1}
    return mk(r)


def p_sqrt_poly(p):
    """Exact polynomial square root of p (polynomial with integer exponents) or None."""
    # Newton-like: leading term by ordering
    if len(p) > 60:
        return None
    def lead(q):
        return max(q, key=lambda m: _grlex(m))
    try:
        m0 = lead(p)
        c0 = p[m0]
        if c0 <= 0 or any((not isinstance(e, int)) or e % 2 for _, e in m0):
            return None
        n, d = c0.numerator, c0.denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn != n or rd * rd != d:
            return None
        l = (tuple((g, e // 2) for g, e in m0), Fraction(rn, rd))
        r = {l[0]: l[1]}
        rem = p_sub(p, p_mul(r, r))
        for _ in range(40):
            if not rem:
                return r
            m = lead(rem)
            t = mono_mul(m, mono_pow(l[0], -1))
            if any(e < 0 for _, e in t):
                return None
            tt = {t: rem[m] / (2 * l[1])}
            if t in r:
                return None
            r2 = p_add(r, tt)
            rem = p_sub(p, p_mul(r2, r2))
            r = r2
        return None
    except TypeError:
        return None


def _grlex(m):
    n = len(GENS)
    return (sum(e for _, e in m), tuple(sorted(((-g, e) for g, e in m), reverse=True)))


def sqrt(x):
    x = lift(x)
    x = noeps(x)
    if EPS and has_eps(x):
        r = sqrt(drop_eps(x))
        return r + eps_part(x) / (2 * r)
    if x.im:
        raise Unsupported('square root of a complex number')
    p = x.re
    if not p:
        return mk({})
    if len(p) == 1:
        (m, c), = p.items()
        if c < 0:
            return mk({}, sqrt(mk({m: -c})).re)
        out = mk(prime_pow(c, Fraction(1, 2)))
        for g, e in m:
            if GENS[g].kind == 'inv':
                h = int(e)
                out = out * mk({((g, (h + 1) // 2),): F1}) if h > 0 else out
                if h % 2:
                    out = out * sqrt(mk(GENS[g].arg))
            elif frac_ok(g):
                out = out * mk(reduce_poly({mono_pow(((g, e),), Fraction(1, 2)): F1}))
            elif isinstance(e, int) and e % 2 == 0:
                out = out * absolute(mk({((g, 1),): F1})) ** (e // 2)
            else:
                out = out * mk(_sqrt_atom({((g, 1),): F1})) ** int(e)
        return out
    cont = p_content(p)
    even = tuple((g, e) for g, e in cont if frac_ok(g) or (isinstance(e, int) and e % 2 == 0))
    q = p_mul({mono_pow(even, -1): F1}, p) if even else p
    lead = min(q)
    k = abs(q[lead])
    q = p_scale(q, 1 / k)
    pre = mk(prime_pow(k, Fraction(1, 2)))
    for g, e in even:
        if frac_ok(g):
            pre = pre * mk(reduce_poly({mono_pow(((g, e),), Fraction(1, 2)): F1}))
        else:
            pre = pre * absolute(mk({((g, 1),): F1})) ** (e // 2)
    if all(isinstance(e, int) and e >= 0 for m in q for _, e in m):
        r = p_sqrt_poly(q)
        if r is not None:
            return pre * absolute(mk(r))
    return pre * mk(_sqrt_atom(q))


def frac_ok(g):
    """Generators that may carry fractional exponents."""
    return GENS[g].pos and GENS[g].kind in ('var', 'const', 'pi', 'prime', 'exp', 'rpow')


def _sqrt_atom(q):
    q, k = canon('sqrt', q)
    g = gen(('sqrt', p_key(q)), 'sqrt', p_sign(q) == 1, arg=q)
    return {((g.id, 1),): F1}


ABS_TERMS = 6


def absolute(x):
    x = lift(x)
    x = noeps(x)
    if EPS and has_eps(x):
        x0, d = drop_eps(x), eps_part(x)
        r = absolute(x0)
        if not x0.im:
            return r + (x0 / r) * d.real
        return r + (x0.real * d.real + x0.imag * d.imag) / r
    if x.im and x.re:
        return sqrt(mk(p_add(p_mul(x.re, x.re), p_mul(x.im, x.im))))
    p = x.im if x.im else x.re
    s = p_sign(p)
    if s is not None:
        return mk(p if s >= 0 else p_neg(p))
    if len(p) == 1:
        # product: absolute value factor by factor (positive factors need no branch)
        (m, c), = p.items()
        out = mk({ONE: abs(c)})
        rest = []
        for g, e in m:
            if GENS[g].pos or (isinstance(e, int) and e % 2 == 0) or GENS[g].kind in ('sqrt', 'abs'):
                out = out * mk(reduce_poly({((g, e),): F1}))
            else:
                rest.append((g, e))
        if not rest:
            return out
        r = {tuple(rest): F1}
        c = cmp0(r, '<')
        neg = c if isinstance(c, bool) else ENGINE.branch(c)
        return out * mk(p_neg(r) if neg else r)
    if len(p) > ABS_TERMS:
        # no case split on the sign of a large expression
        cont = tuple((g, e) for g, e in p_content(p) if GENS[g].pos)
        q = p_mul({mono_pow(cont, -1): F1}, p) if cont else p
        k = q[min(q)]
        q, r = canon('abs', p_scale(q, 1 / k), True)
        g = gen(('abs', p_key(q)), 'abs', False, arg=q)
        return mk(p_mul({cont: abs(k * r)}, {((g.id, 1),): F1}))
    c = cmp0(p, '<')
    neg = c if isinstance(c, bool) else ENGINE.branch(c)
    return mk(p_neg(p) if neg else p)


def sign(x):
    x = drop_eps(lift(x))
    s = p_sign(x.re)
    if s is not None:
        return mk({ONE: Fraction(s)} if s else {})
    if len(x.re) > ABS_TERMS:
        p = x.re
        cont = tuple((g, e) for g, e in p_content(p) if GENS[g].pos)
        q = p_mul({mono_pow(cont, -1): F1}, p) if cont else p
        k = q[min(q)]
        q, r = canon('abs', p_scale(q, 1 / k), True)
        g = gen(('sgn', p_key(q)), 'sgn', False, arg=q)
        return mk({((g.id, 1),): F1 if k * r > 0 else -F1})
    if bool(x == 0):
        return mk({})
    return mk({ONE: F1}) if bool(x > 0) else mk({ONE: -F1})


def _exp_real(p):
    out = {ONE: F1}
    part = {m: c for m, c in p.items() if has_inv({m: c})}
    if len(part) > 1:
        q, k = canon('exp', part, True)
        p = {m: c for m, c in p.items() if m not in part}
        g = gen(('exp', 'poly', p_key(q)), 'exp', True, arg=q)
        out = {((g.id, int(k) if k.denominator == 1 else k),): F1}
    for m, c in p.items():
        if len(m) == 1 and GENS[m[0][0]].kind == 'log' and m[0][1] == 1:
            base = GENS[m[0][0]].arg
            out = p_mul(out, (rpow(mk(base), c) if c.denominator != 1 else mk(base) ** c).re)
            continue
        g = gen(('exp', m), 'exp', True, arg={m: F1})
        c = int(c) if c.denominator == 1 else c
        out = p_mul(out, {((g.id, c),): F1})
    return out


ANGLE_BASE = {}      # monomial -> base fraction (angles are integer multiples of base*monomial where possible)


def _phase(m, c, q=None):
    """cos and sin (polynomials) of the angle c*m."""
    neg = c < 0
    c = abs(c)
    if q is None and len(m) == 1 and GENS[m[0][0]].kind == 'pi' and m[0][1] == 1:
        k = c % 2
        table = {F0: (1, 0), Fraction(1, 2): (0, 1), F1: (-1, 0), Fraction(3, 2): (0, -1)}
        if k in table:
            a, b = table[k]
            if neg:
                b = -b
            return ({ONE: Fraction(a)} if a else {}), ({ONE: Fraction(b)} if b else {})
    if m not in ANGLE_BASE:
        ANGLE_BASE[m] = DEFAULT_ANGLE_BASE
        if (c / DEFAULT_ANGLE_BASE).denominator == 1:
            base, k = DEFAULT_ANGLE_BASE, c / DEFAULT_ANGLE_BASE
        else:
            base, k = c, F1
    elif (c / ANGLE_BASE[m]).denominator == 1:
        base, k = ANGLE_BASE[m], c / ANGLE_BASE[m]
    else:
        base, k = c, F1
    if k > 24:
        base, k = c, F1
    gc = gen(('cos', m, base), 'cos', False, arg=({m: base} if q is None else p_scale(q, base)))
    gs = gen(('sin', m, base), 'sin', False, arg=gc.id, info={m: base} if q is None else p_scale(q, base))
    gc.info = gs.id
    z = mk({((gc.id, 1),): F1}, {((gs.id, 1),): F1})
    if neg:
        z = z.conjugate()
    z = z ** int(k)
    return z.re, z.im


DEFAULT_ANGLE_BASE = Fraction(1, 2)


PROBE = {}
_CANON = {}


def probe_value(p):
    """Value at a fixed pseudo-random point (only a filter for exact comparisons)."""
    import random as _r
    env, memo = {}, PROBE
    todo = [g for m in p for g, _ in m]
    seen = set()
    while todo:
        g = todo.pop()
        if g in seen or g in memo:
            continue
        seen.add(g)
        G = GENS[g]
        if G.kind in ('var', 'eps'):
            v = _r.Random(G.name).uniform(0.6, 1.7)
            lo, hi = (G.info or {}).get('lo'), (G.info or {}).get('hi')
            if lo is not None and hi is not None:
                v = float(lo) + (float(hi) - float(lo)) * _r.Random(G.name).uniform(0.2, 0.7)
            memo[g] = v
        elif G.kind in ('inv', 'sqrt', 'abs', 'sgn', 'rpow', 'exp', 'log'):
            todo.extend(h for m in G.arg for h, _ in m)
        elif G.kind in ('cos', 'sin'):
            memo[g] = _r.Random(G.name).uniform(-1, 1)
        elif G.kind == 'fun':
            memo[g] = _r.Random(G.name).uniform(0.5, 1.5)
    try:
        return p_value(p, env, memo)
    except (ValueError, ZeroDivisionError, OverflowError, KeyError):
        return None


def has_inv(p):
    return any(GENS[g].kind == 'inv' for m in p for g, _ in m)


def canon(kind, p, ratio=False):
    """Previously seen polynomial q and rational k with p == k*q (as rational functions); registers p otherwise."""
    lst = _CANON.setdefault(kind, [])
    if not has_inv(p) and not any(i for _, _, i in lst):
        lst.append((p, None, False))
        return p, F1
    v = probe_value(p)
    if v is not None:
        for n, (q, w, i) in enumerate(lst):
            if q == p:
                return q, F1
            if w is None:
                w = probe_value(q)
                lst[n] = (q, w, i)
            if not w or not v:
                continue
            r = v / w
            k = Fraction(r).limit_denominator(48) if ratio else F1
            if k and abs(r - float(k)) < 1e-9 * abs(r) and not clear_inv(p_sub(p, p_scale(q, k))):
                return q, k
    lst.append((p, v, has_inv(p)))
    return p, F1


def cexp_i(p):
    """exp(i*p) for a real polynomial p."""
    z = mk({ONE: F1})
    part = {m: c for m, c in p.items() if has_inv({m: c})}
    if len(part) > 1:
        q, k = canon('angle', part, True)
        p = {m: c for m, c in p.items() if m not in part}
        z = mk(*_phase(('poly', p_key(q)), k, q))
    for m, c in sorted(p.items()):
        a, b = _phase(m, c)
        z = z * mk(a, b)
    return z


def exp(x):
    x = lift(x)
    x = noeps(x)
    if EPS and has_eps(x):
        r = exp(drop_eps(x))
        return r + r * eps_part(x)
    r = mk(_exp_real(x.re)) if x.re else mk({ONE: F1})
    if x.im:
        r = r * cexp_i(x.im)
    return r


def cos(x):
    x = lift(x)
    x = noeps(x)
    if EPS and has_eps(x):
        return cos(drop_eps(x)) - sin(drop_eps(x)) * eps_part(x)
    return cexp_i(lift(x).re).real


def sin(x):
    x = lift(x)
    x = noeps(x)
    if EPS and has_eps(x):
        return sin(drop_eps(x)) + cos(drop_eps(x)) * eps_part(x)
    return cexp_i(lift(x).re).imag


def tanh(x):
    e2 = exp(2 * lift(x))
    return (e2 - 1) / (e2 + 1)


def _never_negative(g):
    return GENS[g].pos or GENS[g].kind in ('sqrt', 'abs', 'prime', 'exp')


def log(x):
    x = lift(x)
    x = noeps(x)
    if EPS and has_eps(x):
        return log(drop_eps(x)) + eps_part(x) / drop_eps(x)
    if x.im:
        raise Unsupported('logarithm of a complex number')
    p = x.re
    if not p:
        raise Undefined('log(0)')
    if p_key(p) == ((ONE, F1),):
        return mk({})

    def log_gen(base):
        base, _ = canon('log', base)
        g = gen(('log', p_key(base)), 'log', False, arg=base)
        return {((g.id, 1),): F1}
    if len(p) == 1:
        (m, c), = p.items()
        out = {}
        signed = tuple((g, e) for g, e in m if not _never_negative(g))
        if signed:
            # the sign of these factors is not known, only that of their product
            out = log_gen({signed: Fraction(1 if c > 0 else -1)})
            m = tuple((g, e) for g, e in m if _never_negative(g))
            c = abs(c)
        if c < 0:
            raise Unsupported('log of a negative number')
        for n, s in ((c.numerator, 1), (c.denominator, -1)):
            for pr, e in _factor(n).items():
                out = p_add(out, p_scale(log_gen({ONE: Fraction(pr)}), Fraction(s * e)))
        for g, e in m:
            G = GENS[g]
            if G.kind == 'exp':
                t = G.arg
            elif G.kind == 'prime':
                t = log_gen({ONE: Fraction(G.value)})
            elif G.kind == 'inv':
                t = p_neg(log(mk(G.arg)).re)
            elif G.kind == 'sqrt':
                t = p_scale(log(mk(G.arg)).re, Fraction(1, 2))
            else:
                t = log_gen({((g, 1),): F1})
            out = p_add(out, p_scale(t, Fraction(e)))
        return mk(out)
    cont = tuple((g, e) for g, e in p_content(p) if _never_negative(g))
    q = p_mul({mono_pow(cont, -1): F1}, p) if cont else p
    out = log(mk({cont: F1})) if cont else mk({})
    lead = min(q)
    k = abs(q[lead])
    if k != 1:
        out = out + log(lift(k))
        q = p_scale(q, 1 / k)
    return out + mk(log_gen(q))


def func(name, *args):
    """Uninterpreted real function of symbolic arguments."""
    args = [drop_eps(lift(a)) for a in args]
    args = [mk(canon('fun', a.re)[0], a.im) if a.re else a for a in args]
    key = ('fun', name) + tuple((p_key(a.re), p_key(a.im)) for a in args)
    g = gen(key, 'fun', False, arg=[a.re for a in args], name='%s_%d' % (name, len(GENS)), info=name)
    return mk({((g.id, 1),): F1})


def fresh(name, pos=False, lo=None, hi=None, kind='var'):
    i = 0
    while ('var', '%s#%d' % (name, i)) in _BY_KEY:
        i += 1
    return var('%s#%d' % (name, i), pos=pos, lo=lo, hi=hi)


TEXT = []            # symbolic values that were printed; their text is VAL<index with letters for digits>
LETTERS = 'QRSTUVWXYZ'


def token(x):
    for i, v in enumerate(TEXT):
        if v is x:
            break
    else:
        i = len(TEXT)
        TEXT.append(x)
    return 'VAL' + ''.join(LETTERS[int(d)] for d in str(i))


def untoken(s):
    """Value of a token, None for other text."""
    if s[:3] != 'VAL' or not s[3:] or any(c not in LETTERS for c in s[3:]):
        return None
    return TEXT[int(''.join(str(LETTERS.index(c)) for c in s[3:]))]


def ENGINE_ROUND(x, n):
    if x.is_const() and not x.im:
        c = x.const()
        s = Fraction(10) ** n
        return lift(Fraction(round(c * s)) / s)
    raise Unsupported('rounding of a symbolic number')


# ---------------------------------------------------------------------------------------------------------------------
# numeric evaluation (used to validate the encoding against the real libraries and to find concrete inputs)
# ---------------------------------------------------------------------------------------------------------------------
FUNCS = {}


def gen_value(g, env, memo):
    v = memo.get(g)
    if v is not None:
        return v
    G = GENS[g]
    k = G.kind
    if k == 'var':
        v = env[G.name]
    elif k == 'const':
        v = float(G.value)
    elif k == 'pi':
        v = math.pi
    elif k == 'prime':
        v = float(G.value)
    elif k == 'inv':
        v = 1.0 / p_value(G.arg, env, memo)
    elif k == 'sqrt':
        v = math.sqrt(p_value(G.arg, env, memo))
    elif k == 'rpow':
        v = p_value(G.arg, env, memo) ** (1.0 / G.info)
    elif k == 'abs':
        v = abs(p_value(G.arg, env, memo))
    elif k == 'sgn':
        v = p_value(G.arg, env, memo)
        v = float((v > 0) - (v < 0))
    elif k == 'exp':
        v = math.exp(p_value(G.arg, env, memo))
    elif k == 'log':
        v = math.log(p_value(G.arg, env, memo))
    elif k == 'cos':
        v = math.cos(p_value(G.arg, env, memo))
    elif k == 'sin':
        v = math.sin(p_value(G.info, env, memo))
    elif k == 'fun':
        v = FUNCS[G.info](*[p_value(a, env, memo) for a in G.arg])
    else:
        raise Unsupported('value of ' + k)
    memo[g] = v
    return v


def p_value(p, env, memo=None):
    memo = {} if memo is None else memo
    t = 0.0
    for m, c in p.items():
        x = float(c)
        for g, e in m:
            x *= gen_value(g, env, memo) ** float(e) if not isinstance(e, int) else gen_value(g, env, memo) ** e
        t += x
    return t


def p_absvalue(p, env, memo=None):
    memo = {} if memo is None else memo
    t = 0.0
    for m, c in p.items():
        x = abs(float(c))
        for g, e in m:
            x *= abs(gen_value(g, env, memo)) ** (float(e) if not isinstance(e, int) else e)
        t += x
    return t


def value(x, env, memo=None):
    memo = {} if memo is None else memo
    x = lift(x)
    r = p_value(x.re, env, memo)
    return complex(r, p_value(x.im, env, memo)) if x.im else r
