"""C18: the printed Hamiltonian and its parameters are the Hamiltonian that is diagonalized."""
import contextlib
import io
import re
from fractions import Fraction

import sympy
from checks.common import *   # noqa: F401,F403
from checks import hmodel
from checks.hmodel import madd, mscale, mmul, dagger, eye

HARNESSES = []
BOUNDS = ('one to three modes (harmonic, charge, mixed), truncation numbers 1 to 3, zero to two loops, with and without external flux at the inductors; all mode frequencies, '
          'impedances, charging matrices of charge modes, element values, fluxes and offset charges (real symbols); mode shapes, junction couplings and flux fractions are fixed '
          'numbers that are not changed by the printed number of digits; both engines, frequency units GHz and MHz, text and LaTeX')
ASSUMPTIONS = ['mode coordinates are symbols with the invariants of the transformation (C04): no capacitive coupling except between charge modes',
               'rounding of symbolic printed values is the identity (the printed digits themselves are only checked in concrete runs)',
               'sympy builds and prints expressions; in symbolic runs a value prints as a token that stands for it']

DY = [0.5, -0.25, 0.75, 1.0, -0.5, 0.125, -0.75, 0.375, 0.625, -0.875, 0.25]
DB = [0.5, -0.25, 0.75, -1.0, 0.25, -0.5, 1.0, -0.75]


def prepare(env, name, trunc, ind=True, **kw):
    """Model with numbers for the mode shapes, exactly representable in the printed digits."""
    M = hmodel.build(env, name, None, simple=True, full_w=True, refresh=False, **kw)
    cr = M.cr
    cnt = [0]

    def nxt(lst):
        cnt[0] += 1
        return lst[cnt[0] % len(lst)]
    for i in range(M.n):
        for j in range(M.n):
            if i != j and not (M.charge[i] and M.charge[j]):
                M.cinv[i][j] = 0
    M.wt = [[row[i] if M.charge[i] else nxt(DY) for i in range(M.n)] for row in M.wt]
    M.S = [[(1.0 if M.S[a][i] else 0.0) if M.charge[i] else nxt(DY) for i in range(M.n)] for a in range(M.nodes)]
    nl = len(cr.loops)
    kind = {it['b']: it['kind'] for it in M.items if 'b' in it}
    M.B = [[nxt(DB) if kind[b] == 'J' or ind else 0.0 for _ in range(nl)] for b in range(M.nb)]
    cr.cInvTrans = env.arr(M.cinv)
    if M.nw:
        cr.wTrans = env.arr(M.wt)
    cr.S = env.arr(M.S)
    if nl:
        cr.B = env.arr(M.B)
    M.trunc = list(trunc)
    hmodel.offsets(env, M)
    cr.set_trunc_nums(list(trunc))
    M.m = [2 * t - 1 if c else t for t, c in zip(trunc, M.charge)]
    return M


class Evaluate:
    """Matrix of a printed expression, given the printed values."""

    def __init__(self, env, M, values):
        self.env, self.M, self.v = env, M, values
        self.O = hmodel.Ops(env, M)

    def scalar(self, x):
        return isinstance(x, tuple)

    def num(self, c):
        f = Fraction(str(sympy.Rational(c)))
        return f.numerator / f.denominator if not self.env.symbolic else self.env.core.lift(f)

    def mode(self, name):
        i = int(name.split('_')[1]) - 1
        if not 0 <= i < self.M.n:
            raise KeyError(name)
        return i

    def phi(self, i):
        if self.M.charge[i]:
            raise KeyError('phase of a charge mode outside a cosine')
        m = self.M.m[i]
        low = [[hmodel.root(self.env, b) if b - 1 == a else 0 for b in range(m)] for a in range(m)]
        return self.O.full({i: mscale(self.v['zp_%d' % (i + 1)], madd(low, dagger(low)))})

    def leaf(self, s):
        name = s.name if hasattr(s, 'name') and isinstance(s.name, str) else str(s)
        m = re.fullmatch(r'(ad|a|n)_(\d+)', name)
        if m:
            i = self.mode(name)
            d = self.M.m[i]
            if m.group(1) == 'n':
                if not self.M.charge[i]:
                    raise KeyError(name)
                N = (d - 1) // 2
                return self.O.full({i: [[(a - N) if a == b else 0 for b in range(d)] for a in range(d)]})
            if self.M.charge[i]:
                raise KeyError(name)
            low = [[hmodel.root(self.env, b) if b - 1 == a else 0 for b in range(d)] for a in range(d)]
            return self.O.full({i: low if m.group(1) == 'a' else dagger(low)})
        if re.fullmatch(r'phi_\d+', name):
            return self.phi(self.mode(name))
        return (self.v[name],)

    def cos(self, arg):
        env, M = self.env, self.M
        arg = sympy.expand(arg)
        parts, ext = {}, 0
        for t in sympy.Add.make_args(arg):
            c, s = t.as_coeff_Mul()
            if c == 0:
                continue
            if not isinstance(s, sympy.Symbol):
                raise KeyError('argument of the cosine: %s' % s)
            if re.fullmatch(r'phi_\d+', s.name):
                i = self.mode(s.name)
                w = self.num(c)
                if M.charge[i]:
                    parts[i] = self.O.single(i, 'exp', int(c))
                elif M.m[i] == 1:
                    parts[i] = [[1]]
                else:
                    d = env.qt.displace(M.m[i], 1j * self.v['zp_%d' % (i + 1)] * w).full()
                    parts[i] = [[d[a, b] for b in range(M.m[i])] for a in range(M.m[i])]
            else:
                ext = ext + self.num(c) * self.v[s.name]
        e = mscale(self.O.phase(ext), self.O.full(parts))
        return mscale(0.5, madd(e, dagger(e)))

    def add(self, a, b):
        sa, sb = self.scalar(a), self.scalar(b)
        if sa and sb:
            return (a[0] + b[0],)
        if sa:
            a = mscale(a[0], eye(self.O.dim()))
        if sb:
            b = mscale(b[0], eye(self.O.dim()))
        return madd(a, b)

    def mul(self, a, b):
        sa, sb = self.scalar(a), self.scalar(b)
        if sa and sb:
            return (a[0] * b[0],)
        if sa:
            return mscale(a[0], b)
        if sb:
            return mscale(b[0], a)
        return mmul(a, b)

    def __call__(self, x):
        if x.is_Number:
            return (self.num(x),)
        if isinstance(x, sympy.cos):
            return self.cos(x.args[0])
        if x.is_Add or x.is_Mul:
            out = None
            for t in x.args:
                t = self(t)
                out = t if out is None else (self.add if x.is_Add else self.mul)(out, t)
            return out
        if x.is_Pow:
            n = int(x.exp)
            base = self(x.base)
            out = base
            for _ in range(n - 1):
                out = self.mul(out, base)
            return out
        return self.leaf(x)


def describe(cr, tp):
    with contextlib.redirect_stdout(io.StringIO()):
        return cr.description(tp, _test=True)


def values_of(env, M):
    """Named values of descrip_vars."""
    d = M.cr.descrip_vars
    v = {}
    har = [i for i in range(M.n) if not M.charge[i]]
    for i in har:
        v['omega_%d' % (i + 1)] = d['omega'][i]
        v['zp_%d' % (i + 1)] = d['phi_zp'][i]
    ch = [i for i in range(M.n) if M.charge[i]]
    for a, i in enumerate(ch):
        v['ng_%d' % (i + 1)] = d['ng'][a]
        for j in ch:
            v['EC_%d%d' % (i + 1, j + 1)] = d['EC'][i, j]
    for k, x in enumerate(d['EL']):
        v['EL_%d' % (k + 1)] = x
    for k, x in enumerate(d['EJ']):
        v['EJ_%d' % (k + 1)] = x
    for k in range(len(M.cr.loops)):
        v['phi_e%d' % (k + 1)] = 2 * env.pi * d['loops'][k]
    return v


SUB = '\u2080\u2081\u2082\u2083\u2084\u2085\u2086\u2087\u2088\u2089'
NUMBER = r'(VAL[Q-Z]+|-?[\d.]+(?:e[+-]?\d+)?)'


def value(env, s):
    v = env.core.untoken(s) if env.symbolic else None
    return float(s) if v is None else v


def printed(env, text):
    """name -> value, as printed."""
    for a, b in (('\u03c6\u2091', 'phi_e'), ('\u03c6', 'phi'), ('\u03c9', 'omega'), ('\u22c5', '*'), ('\u03c0', 'pi')):
        text = text.replace(a, b)
    text = re.sub('([^_e%s])([%s])' % (SUB, SUB), r'\1_\2', text)
    for d, c in enumerate(SUB):
        text = text.replace(c, str(d))
    return {name: value(env, v) for name, v in re.findall(r'(\w+)(?:/2\*pi)? = ' + NUMBER + r'(?=\s|$)', text)}


def latex_values(env, text):
    return [value(env, v) for v in re.findall('= ' + NUMBER + r'(?=~|\n|$)', text)]


DIGITS = {'omega': 6e-6, 'ng': 6e-4, 'EC': 6e-4, 'EL': 6e-4, 'EJ': 6e-4, 'phi': 6e-3}


def check(env, name, trunc, ind, change=None):
    both_engines(env)
    unit = env.choice('unit', ['GHz', 'MHz']) if name in ('fluxonium', 'transmon') else 'GHz'
    if env.symbolic:
        env.hook('round', lambda x, n: x)
    sq.set_unit_freq(unit)
    try:
        M = prepare(env, name, trunc, ind)
        if change:
            describe(M.cr, 'txt')
            change(env, M)
        text = describe(M.cr, 'txt')
        H = M.cr.descrip_vars['H']
        vals = values_of(env, M)
        f = 2 * env.pi * (1e9 if unit == 'GHz' else 1e6)
        got = Evaluate(env, M, vals)(H)
        real = hmodel.as_matrix(env, M.cr.hamiltonian())
        size = 1. if env.symbolic else float(abs(real).max())
        env.eq('Hamiltonian', env.arr(mscale(f, got)), real, rtol=1e-7, scale=size)
        # what is printed
        P = printed(env, text)
        need = [k for k in vals if not k.startswith('EC') or k[3] <= k[4]]
        free = hmodel_free(H)
        for k in need:
            if not k.startswith('EL') or k in free:
                env.true('%s is printed' % k, k in P)
        env.true('every parameter of the Hamiltonian is printed', all(k in P or re.fullmatch(r'(ad|a|n|phi)_\d+', k) for k in free))
        for k, x in P.items():
            env.true('%s is a parameter' % k, k in vals)
            w = vals[k] / (2 * env.pi) if k.startswith('phi_e') else vals[k]
            if k.startswith('zp'):
                env.eq('printed ' + k, x, w, rtol=6e-3)
            else:
                env.eq('printed ' + k, x, w, rtol=1e-5 if k.startswith('omega') else 1e-12, atol=DIGITS[k.split('_')[0]])
        # kinds of modes
        for i in range(M.n):
            m = re.search(r'mode %d:\s+(\w+)' % (i + 1), text)
            env.true('kind of mode', m is not None and m.group(1) == ('charge' if M.charge[i] else 'harmonic'))
        tex = latex_values(env, describe(M.cr, 'ltx'))
        same = list(P.values())
        env.true('the LaTeX output has as many values', len(tex) == len(same))
        for a, b in zip(tex, same):
            env.eq('LaTeX output', a, b, rtol=1e-12, atol=1e-12)
    finally:
        sq.set_unit_freq('GHz')


def hmodel_free(H):
    out = set()
    for x in sympy.preorder_traversal(H):
        if not x.args or type(x).__name__ == 'qOperator':
            n = getattr(x, 'name', None)
            if isinstance(n, sympy.Symbol):
                n = n.name
            if isinstance(n, str):
                out.add(n)
    return {n for n in out if '_' in n}


CASES = [('fluxonium', [2]), ('fluxonium', [3]), ('transmon', [2]), ('squid', [2]), ('resonator', [3]), ('fluxonium squid', [2]),
         ('fluxonium-transmon', [2, 2]), ('two transmons', [2, 2]), ('two fluxoniums', [2, 2]), ('floating loop', [2, 2]),
         ('three junctions', [2, 2]), ('loop through two nodes', [2, 2]), ('two resonators', [2, 2]), ('two transmons', [1, 2]),
         ('fluxonium-transmon', [3, 1]), ('three', [2, 1, 2]), ('three transmons', [2, 2, 1]), ('three transmons', [1, 2, 2])]


@harness(HARNESSES, each=CASES, validate=4)
def hamiltonian(env, case):
    ind = env.choice('flux at inductors', [True, False]) if 'L' in str(hmodel.SHAPES[case[0]]) else True
    check(env, case[0], case[1], ind)


def move(env, M):
    """New fluxes and offset charges after a first description."""
    for k, lp in enumerate(M.loops):
        lp.set_flux(env.real('newflux%d' % k, -1, 1))
    for i in range(M.n):
        if M.charge[i]:
            M.cr.set_charge_offset(i + 1, env.real('newng%d' % i, -2, 2))


@harness(HARNESSES, each=[('fluxonium', [2]), ('fluxonium-transmon', [2, 2]), ('three junctions', [2, 2]), ('three', [2, 1, 2])], validate=4)
def again(env, case):
    """A second description is that of the changed circuit."""
    check(env, case[0], case[1], True, move)


@harness(HARNESSES, each=[(n,) for n in ('fluxonium', 'squid', 'fluxonium squid', 'two fluxoniums', 'three junctions', 'loop through two nodes')], validate=4)
def loops(env, case):
    """loop_description lists the flux fractions by element and loop."""
    both_engines(env)
    M = prepare(env, case[0], [2] * (1 if len(hmodel.SHAPES[case[0]]) == 1 else 2), env.choice('flux at inductors', [True, False]))
    if env.symbolic:
        env.core.ABS_TERMS = 0
        env.hook('round', lambda x, n: x)
    M.B = [[env.real('b%d_%d' % (i, j), -1, 1) if x else 0.0 for j, x in enumerate(row)] for i, row in enumerate(M.B)]
    M.cr.B = env.arr(M.B)
    with contextlib.redirect_stdout(io.StringIO()):
        lines = M.cr.loop_description(_test=True).split('\n')
    env.true('loops in the header', lines[0].split() == [lp.id_str for lp in M.cr.loops])
    rows = {}
    for ln in lines[2:]:
        m = re.match(r'(\S+)\s*, b(\d+):(.*)', ln)
        if m:
            rows[int(m.group(2))] = (m.group(1), [value(env, x) for x in m.group(3).split()])
    for it in M.items:
        if 'b' in it:
            r = rows.get(it['b'] + 1)
            env.true('row of the element', r is not None and r[0] == it['el'].id_str)
            env.true('number of columns', len(r[1]) == len(M.cr.loops))
            for a, b in zip(r[1], M.B[it['b']]):
                env.eq('flux fraction', a, abs(b), atol=6e-3)
    env.true('number of rows', len(rows) == M.nb)
