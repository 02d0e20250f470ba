"""C04: mode coordinates are canonical and decouple the linear circuit."""
from checks.common import *   # noqa: F401,F403
from checks.hmodel import mmul, madd, eye, is0, inverse

HARNESSES = []
BOUNDS = ('one node: all element values; two nodes with three capacitors and none, one or three inductors: eigenvalues of the capacitance matrix and mode frequencies arbitrary, directions of their eigenvectors from two (thorough: three) rotations; two uncoupled nodes with any values; junctions on one, two or all three branches; '
          'harmonic, charge, mixed and removed modes; both engines; after construction and after update() with other values')
ASSUMPTIONS = ['real arithmetic', 'two nodes: capacitance and susceptance matrices are parametrised by their roots, rotation angles and mode frequencies (every such pair of matrices is of this form); '
               'the matrix root and the singular value decomposition are replaced by the values that these parameters determine (a left orthogonal factor of the root of the susceptance is not determined and chosen as one)',
               'random vectors that complete the basis of the charge modes: two choices', 'junctions couple either exactly not or with more than the elimination limit to a harmonic mode']


def t(a):
    return [list(r) for r in zip(*a)]


def same(env, a, b):
    """Canonical equality of two matrices."""
    core = env.core
    return len(a) == len(b) and all(core.eq0(core.lift(x) - core.lift(y)) is True for r, q in zip(a, b) for x, y in zip(r, q))


def rows(a):
    return [[x for x in r] for r in a]


def invariants(env, cr, C, L, W, nulls, tag='', removed=0):
    n = len(C)
    S, R = mat(env, cr.S), mat(env, cr.R)
    ci, lt, wt, om = mat(env, cr.cInvTrans), mat(env, cr.lTrans), mat(env, cr.wTrans) if W else None, mat(env, cr.omega)
    k = len(om)
    env.true(tag + 'number of modes', k == n - removed and S.shape == (n, k) and R.shape == (n, k) and ci.shape == (k, k) and lt.shape == (k, k))
    Sl, Rl = rows(S), rows(R)
    env.eq(tag + 'canonical', env.arr(mmul(t(Sl), Rl)), env.arr(eye(k)), rtol=1e-6, scale=1.)
    Ci = inverse(C)

    def rel(a):
        return None if env.symbolic else float(max(abs(x) for r in a for x in r)) or 1.
    want = mmul(mmul(t(Rl), Ci), Rl)
    env.eq(tag + 'inverse capacitance', ci, env.arr(want), rtol=1e-6, scale=rel(want))
    want = mmul(mmul(t(Sl), L), Sl)
    env.eq(tag + 'susceptance', lt, env.arr(want), rtol=1e-6, scale=rel(want) if any(not is0(x) for r in L for x in r) else None, atol=0. if env.symbolic else 1e-3)
    if W:
        want = mmul(W, Sl)
        env.eq(tag + 'junction couplings', wt, env.arr(want), rtol=1e-5, scale=rel(want))
    charge = [bool(x == 0) for x in om]
    env.true(tag + 'number of charge modes', sum(charge) == nulls)
    scale = [None] * k
    if not env.symbolic:
        scale = [float(ci[i][i]) for i in range(k)]
    for i in range(k):
        for j in range(k):
            if i != j:
                if not (charge[i] and charge[j]):
                    env.eq(tag + 'modes decoupled (capacitance)', ci[i][j], 0, atol=0. if env.symbolic else 1e-6 * (scale[i] * scale[j]) ** .5)
                env.eq(tag + 'modes decoupled (susceptance)', lt[i][j], 0, atol=0. if env.symbolic else 1e-6 * rel(rows(lt)))
        if charge[i]:
            env.eq(tag + 'charge mode without susceptance', lt[i][i], 0)
        else:
            env.true(tag + 'positive frequency', bool(om[i] > 0))
            env.eq(tag + 'frequency', om[i] * om[i], ci[i][i] * lt[i][i], rtol=1e-6)
        if charge[i] and W:
            for r in range(len(W)):
                env.true(tag + 'integer coupling', any(bool(wt[r][i] == v) for v in (-1, 0, 1)))
    if not removed:
        for kind, T in (('charge', Rl), ('flux', Sl)):
            env.eq(tag + kind + ' coordinates', env.arr(mmul(rows(mat(env, cr.coord_transform(kind))), T)), env.arr(eye(n)), rtol=1e-6, scale=1.)


def engines(env, removed=False):
    """Modes are only removed with NumPy."""
    if removed:
        sq.set_engine('NumPy')
        return
    return both_engines(env)


# -- one node ----------------------------------------------------------------------------------------------------------
@harness(HARNESSES, each=['transmon', 'fluxonium', 'resonator', 'squid'], validate=6, cost=3)
def one_node(env, kind):
    both_engines(env)
    c, l, j = env.pos('c', 1, 1000), env.pos('l', 1, 1000), env.pos('j', 1, 100)
    loop = sq.Loop(0.1)
    cap = lambda: sq.Capacitor(c, 'fF')
    zero = lambda: sq.Capacitor(1., 'fF')
    els = {'transmon': lambda: [cap(), sq.Junction(j, 'GHz', cap=zero())],
           'squid': lambda: [cap(), sq.Junction(j, 'GHz', cap=zero(), loops=[loop]), sq.Junction(8., 'GHz', cap=zero(), loops=[loop])],
           'fluxonium': lambda: [cap(), sq.Junction(j, 'GHz', cap=zero(), loops=[loop]), sq.Inductor(l, 'nH', cap=zero(), loops=[loop])],
           'resonator': lambda: [cap(), sq.Inductor(l, 'nH', cap=zero())]}[kind]()
    edge = env.choice('edge', [(0, 1), (1, 0)])
    cr = sq.Circuit({edge: els}, flux_dist='junctions')
    C = [[(c + len(els) - 1) * 1e-15]]
    L = [[1e9 / l if kind in ('fluxonium', 'resonator') else 0]]
    W = [] if kind == 'resonator' else [[1 if edge[0] == 0 else 1]]
    W = [[x for x in r] for r in mat(env, cr.W)] if W else []
    env.true('junction incidence', not W or (len(W) == 1 and abs(float(num(env, W[0][0]))) == 1))
    invariants(env, cr, C, L, W, 0 if kind in ('fluxonium', 'resonator') else 1)


# -- two nodes -----------------------------------------------------------------------------------------------------------
ANGLES = [(3, 4, 5), (12, 5, 13), (8, 15, 17)]
SMALL = [(12, 5, 13), (15, 8, 17), (40, 9, 41)]


def rot(env, name, angles=ANGLES):
    """One of a few rotations with rational entries."""
    from fractions import Fraction
    c, s, h = env.choice(name, angles[:3 if env.thorough else 2])
    c, s = [env.core.lift(Fraction(x, h)) if env.symbolic else x / h for x in (c, s)]
    return [[c, s], [-s, c]]


def caps(env, C):
    """Capacitances of the branches (0,1), (0,2), (1,2)."""
    v = [C[0][0] + C[0][1], C[1][1] + C[0][1], -C[0][1]]
    for x in v:
        env.assume(x > 0)
    return v


class Linear:
    """Capacitance and susceptance matrices with known root and modes."""

    def __init__(self, env, kind, tag='', free=('x1', 'dx', 'd2', 'dd', 'n', 'y3')):
        self.env, self.kind = env, kind
        num_ = (lambda name, lo, hi, v: env.pos(tag + name, lo, hi) if name in free else env.core.lift(v) if env.symbolic else v)
        if kind == 'inductors':
            # C = X X, L = X V^T D^2 V X
            a, b = num_('x1', 1, 3, 1 + len(tag)), num_('dx', .2, 3, env.pos(tag + 'x1', 1, 3))
            P = rot(env, tag + 'alpha')
            x = [a * 1e-7, (a + b) * 1e-7]
            self.X = mmul(t(P), [[x[0] * P[0][0], x[0] * P[0][1]], [x[1] * P[1][0], x[1] * P[1][1]]])
            self.Y = mmul(t(P), [[P[0][0] / x[0], P[0][1] / x[0]], [P[1][0] / x[1], P[1][1] / x[1]]])
            self.V = rot(env, tag + 'beta')
            lo, d = num_('d2', 1, 30, 3 + len(tag)), num_('dd', .5, 30, 2)
            self.D = [(lo + d) * 1e9, lo * 1e9]
        else:
            # first column of the inverse root gives the harmonic mode
            n = env.pos(tag + 'n', 1, 3)
            y3 = num_('y3', 1, 3, n)
            V = self.V = rot(env, tag + 'beta', SMALL)
            y1, y2 = n * V[0][0] * 1e6, n * V[0][1] * 1e6
            self.Y = [[y1, y2], [y2, y3 * 1e6]]
            det = y1 * y3 * 1e6 - y2 * y2
            env.assume(det > 0.05e12)
            self.X = inverse(self.Y)
            self.D = [env.pos(tag + 'd1', 1, 30) * 1e9, 0] if kind == 'one inductor' else [0, 0]
            if kind == 'none':
                self.V = None
        self.C = mmul(self.X, self.X)
        c = self.caps = caps(env, self.C)
        if kind == 'inductors':
            self.Z = mmul([[self.D[0] * x for x in self.V[0]], [self.D[1] * x for x in self.V[1]]], self.X)
            L = self.L = mmul(t(self.Z), self.Z)
            self.sus = [L[0][0] + L[0][1], L[1][1] + L[0][1], -L[0][1]]
            for s in self.sus:
                env.assume(s > 0)
        elif kind == 'one inductor':
            # 1/l = d1^2 / n^2
            s = self.D[0] * self.D[0] / (n * n * 1e12)
            self.sus = [s, 0, 0]
            self.L = [[s, 0], [0, 0]]
            r = self.D[0] / (n * 1e6)
            self.Z = [[r, 0], [0, 0]]
        else:
            self.sus, self.L = [0, 0, 0], [[0, 0], [0, 0]]

    def hooks(self):
        env = self.env
        if not env.symbolic:
            return
        nplib = env.nplib

        def sqrtm(a):
            if same(env, rows(a), self.C):
                return env.arr(self.X)
            if self.kind != 'none' and same(env, rows(a), self.L):
                return env.arr(self.Z)

        def inv(a):
            if a.shape == (2, 2) and same(env, rows(a), self.X):
                return env.arr(self.Y)
            if a.shape == (2, 2) and same(env, rows(a), self.C):
                return env.arr(mmul(self.Y, self.Y))

        def svd(a, *args, **k):
            if self.V is None:
                return None
            a = rows(a)
            D2 = [[self.D[i] * self.D[i] * x for x in self.V[i]] for i in range(2)]
            if same(env, mmul(t(a), a), mmul(t(self.V), D2)):
                return env.arr(eye(2)), env.arr(self.D), env.arr(self.V)

        def eig(a):
            if same(env, rows(a), self.L):
                if self.kind == 'one inductor':
                    return env.arr([self.L[0][0], 0]), env.arr(eye(2))
                hi, lo = self.env.core.fresh('lamhi', pos=True), self.env.core.fresh('lamlo', pos=True)
                env.assume(hi > lo)
                env.assume(lo > 1e-9 * hi)
                return env.arr([hi, lo]), None
        env.hook('sqrtm', sqrtm)
        env.hook('inv', inv)
        env.hook('svd', svd)
        env.hook('eig', eig)


EDGES = [(0, 1), (0, 2), (1, 2)]
JUNCTIONS = {'first': [0], 'second': [1], 'bridge': [2], 'both': [0, 1], 'all': [0, 1, 2], 'none': []}


def elements(env, lin, junctions):
    """Branches with the capacitances and susceptances of the matrices."""
    els, caps_, inds = {}, [], []
    loops = [sq.Loop(0.1 + 0.1 * i) for i in range(3)]
    ring = [sq.Loop(0.4)] if all(not is0(x) for x in lin.sus) else []
    tri = sq.Loop(0.45)
    for k, e in enumerate(EDGES):
        lst = []
        c = sq.Capacitor(lin.caps[k], 'F')
        caps_.append(c)
        lp = [loops[k]] if k in junctions and not is0(lin.sus[k]) else []
        if k in junctions:
            if junctions == [0, 1, 2] and lin.kind != 'inductors':
                lp = lp + [tri]
            lst.append(sq.Junction(5. + k, 'GHz', cap=c, loops=lp))
        else:
            lst.append(c)
        if not is0(lin.sus[k]):
            i = sq.Inductor(1 / lin.sus[k], 'H', cap=sq.Capacitor(0., 'F'), loops=[x for x in lp if x is not tri] + ring)
            inds.append(i)
            lst.append(i)
        els[e] = lst
    return els, caps_, inds


BASE = [[1, 0], [0, 1], [1, -1]]


def coupled(env, lin, junctions):
    """Every junction couples to every harmonic mode (or exactly not)."""
    for r in junctions:
        for i in range(2):
            if not is0(lin.D[i]):
                w = mmul(mmul([BASE[r]], lin.Y), t(lin.V))[0][i]
                if not is0(w):
                    env.assume((w if env.choice('sign%d%d' % (r, i), [1, -1]) == 1 else -w) > 1e4)


def incidence(env, cr, junctions):
    W = [[x for x in r] for r in mat(env, cr.W)] if junctions else []
    env.true('junction incidence', len(W) == len(junctions) and all(
        [float(num(env, x)) for x in W[r]] in (BASE[k], [-x for x in BASE[k]]) for r, k in enumerate(junctions)))
    return W


NULLS = {'inductors': 0, 'one inductor': 1, 'none': 2}


def two(env, kind, junctions, removed=0, **kw):
    engines(env, removed)
    js = JUNCTIONS[junctions]
    lin = Linear(env, kind, **kw)
    lin.hooks()
    if lin.V:
        coupled(env, lin, js)
    els, cs, ls = elements(env, lin, js)
    cr = sq.Circuit(els, flux_dist='junctions')
    W = incidence(env, cr, js)
    env.eq('C', mat(env, cr.C), env.arr(lin.C), rtol=1e-9)
    invariants(env, cr, lin.C, lin.L, W, NULLS[kind] - removed, removed=removed)
    return cr, W, cs, ls


@harness(HARNESSES, each=[(k, j) for k, js in (('none', ['both', 'all']), ('one inductor', ['both', 'second']), ('inductors', ['none'])) for j in js],
         validate=20, cost=5)
def two_nodes(env, case):
    two(env, *case)


@harness(HARNESSES, each=[('one inductor', 'all'), ('one inductor', 'bridge')], validate=20, cost=5)
def two_nodes_scaled(env, case):
    """Capacitances known up to a common factor."""
    two(env, *case, free=('n',))


@harness(HARNESSES, each=[(str(f), f, j) for j in ('first', 'bridge', 'both', 'all') for f in (['x1', 'd2', 'dd'], ['x1', 'd2'], ['x1', 'dd'])], validate=20, cost=5)
def two_oscillators(env, case):
    two(env, 'inductors', case[2], free=case[1])


@harness(HARNESSES, each=[('none', 'first'), ('none', 'second')], validate=20, cost=5)
def uncoupled_charge(env, case):
    """One junction for two charge modes."""
    z = env.choice('draws', [(-0.25, 1.25), (0.5, 0.125)])
    env.draw = lambda k: env.core.lift(z[k % 2]) if env.symbolic else z[k % 2]
    two(env, *case, removed=1, free=('n', 'y3') if case[1] == 'first' else ('n',))


@harness(HARNESSES, each=[('none', 'both'), ('one inductor', 'second'), ('inductors', 'none')], validate=20, cost=5)
def updated(env, case):
    """The transformations follow new element values."""
    cr, W, cs, ls = two(env, *case)
    lin = Linear(env, case[0], 'new_')
    lin.hooks()
    if lin.V:
        coupled(env, lin, JUNCTIONS[case[1]])
    for e, v in zip(cs, lin.caps):
        e.set_value(v, 'F')
    for e, v in zip(ls, [x for x in lin.sus if not is0(x)]):
        e.set_value(1 / v, 'H')
    cr.update()
    invariants(env, cr, lin.C, lin.L, W, NULLS[case[0]], tag='updated: ')


# -- uncoupled nodes -----------------------------------------------------------------------------------------------------
@harness(HARNESSES, each=['removed first', 'removed second', 'two resonators', 'both coupled', 'oscillator and transmon'], validate=10, cost=4)
def uncoupled(env, kind):
    """Two nodes without a coupling between them."""
    engines(env, kind.startswith('removed'))
    c = [env.pos('c%d' % i, 1, 1000) for i in range(2)]
    l = [env.pos('l%d' % i, 1e-2, 1e5) for i in range(2)]
    j = env.pos('j', 1, 100)
    loops = [sq.Loop(0.1), sq.Loop(0.2)]
    js = {'removed first': [1], 'removed second': [0], 'two resonators': [], 'both coupled': [0, 1], 'oscillator and transmon': [0, 1]}[kind]
    ind = [0] if kind == 'oscillator and transmon' else [0, 1]
    els = {}
    for i in range(2):
        lst = [sq.Capacitor(c[i], 'fF')]
        lp = [loops[i]] if i in js and i in ind else []
        if i in js:
            lst.append(sq.Junction(j, 'GHz', cap=sq.Capacitor(1., 'fF'), loops=lp))
        if i in ind:
            lst.append(sq.Inductor(l[i], 'nH', cap=sq.Capacitor(1., 'fF'), loops=lp))
        els[(0, i + 1)] = lst
    if env.symbolic:
        env.assume(c[0] + len(els[(0, 1)]) > c[1] + len(els[(0, 2)])) if env.choice('larger', [0, 1]) else env.assume(c[0] + len(els[(0, 1)]) < c[1] + len(els[(0, 2)]))
    cr = sq.Circuit(els, flux_dist='junctions')
    C = [[(c[0] + len(els[(0, 1)]) - 1) * 1e-15, 0], [0, (c[1] + len(els[(0, 2)]) - 1) * 1e-15]]
    L = [[1e9 / l[0] if 0 in ind else 0, 0], [0, 1e9 / l[1] if 1 in ind else 0]]
    W = [[x for x in r] for r in mat(env, cr.W)] if js else []
    env.true('junction incidence', [[abs(float(num(env, x))) for x in r] for r in W] == [[float(i == k) for i in range(2)] for k in js])
    invariants(env, cr, C, L, W, 2 - len(ind), removed=int(kind.startswith('removed')))
