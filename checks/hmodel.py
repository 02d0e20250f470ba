"""Circuits with symbolic mode coordinates, shared by the checks of the Hamiltonian and of everything computed from it.

A circuit of the listed shape is constructed by the real code with ordinary numbers.  The results of the coordinate
transformation (a numerical library decides them; see C04 for the transformation itself) are then replaced by symbols which
satisfy the invariants of the transformation, and the element values, fluxes, offsets and noise amplitudes are replaced by
symbols through the public setters.  Everything after that is the real code on symbols.
"""
from checks.common import *   # noqa: F401,F403


def _c(v=50, **k):
    return sq.Capacitor(v, 'fF', **k)


def fluxonium(lo):
    return {(0, 1): [('C', ()), ('J', (0,)), ('L', (0,))]}


# name: {edge: [(letter, loops)]}
SHAPES = {
    'fluxonium': {(0, 1): [('C', ()), ('J', (0,)), ('L', (0,))]},
    'transmon': {(0, 1): [('C', ()), ('J', ())]},
    'squid': {(0, 1): [('C', ()), ('J', (0,)), ('J', (0,))]},
    'resonator': {(0, 1): [('C', ()), ('L', ())]},
    'fluxonium squid': {(0, 1): [('J', (0, 1)), ('C', ()), ('L', (0,)), ('J', (1,))]},
    # two modes
    'fluxonium-transmon': {(0, 1): [('C', ()), ('J', (0,)), ('L', (0,))], (1, 2): [('C', ())], (0, 2): [('C', ()), ('J', ())]},
    'two transmons': {(0, 1): [('C', ()), ('J', ())], (1, 2): [('C', ())], (0, 2): [('C', ()), ('J', ())]},
    'two fluxoniums': {(0, 1): [('C', ()), ('J', (0,)), ('L', (0,))], (1, 2): [('C', ())], (2, 0): [('C', ()), ('L', (1,)), ('J', (1,))]},
    'floating loop': {(0, 1): [('C', ()), ('L', ())], (1, 2): [('C', ()), ('L', (0,)), ('J', (0,))], (0, 2): [('C', ())]},
    'three junctions': {(0, 1): [('C', ()), ('J', (0,))], (1, 2): [('C', ()), ('J', (0,))], (0, 2): [('C', ()), ('J', (0,))]},
    'loop through two nodes': {(0, 1): [('C', ()), ('L', (0,))], (1, 2): [('C', ()), ('L', (0,))], (0, 2): [('C', ()), ('J', (0,))]},
    'two resonators': {(0, 1): [('C', ()), ('L', ())], (1, 2): [('C', ())], (0, 2): [('C', ()), ('L', ())]},
    # the second resonator does not couple to any junction (its mode is removed with the NumPy engine)
    'removed mode': {(0, 1): [('C', ()), ('J', (0,)), ('L', (0,))], (0, 2): [('C', ()), ('L', ())]},
    'removed first': {(0, 1): [('C', ()), ('L', ())], (0, 2): [('C', ()), ('J', ())]},
    # three modes
    'three': {(0, 1): [('C', ()), ('J', (0,)), ('L', (0,))], (1, 2): [('C', ())], (0, 2): [('C', ()), ('J', ())],
              (2, 3): [('C', ())], (0, 3): [('C', ()), ('L', (1,)), ('J', (1,))]},
    'three transmons': {(0, 1): [('C', ()), ('J', ())], (1, 2): [('C', ())], (0, 2): [('C', ()), ('J', ())],
                        (2, 3): [('C', ())], (0, 3): [('C', ()), ('J', ())]},
}
BASE = {'C': [50., 61., 47., 55., 66., 43.], 'J': [9., 7., 11., 8., 10.], 'L': [120., 95., 140., 110.]}


class Model:
    pass


def build(env, name, trunc=None, symbolic_c=True, share_cap=False, q=True, values='symbolic', flux_dist='junctions',
          full_w=True, ng=True, coupling='mixed', shared=(), loss=None, simple=False, amp=None, cap_values=False,
          refresh=False, grad=None):
    """Circuit of shape `name` with injected coordinates.  Returns a Model."""
    M = Model()
    shape = SHAPES[name]
    nl = 1 + max([max(lp) for els in shape.values() for _, lp in els if lp] or [-1])
    M.loops = [sq.Loop(0.1 + 0.05 * i, **(dict(A=amp('loop', i)) if amp else {})) for i in range(nl)]
    cnt = dict(C=0, J=0, L=0)
    M.items = []                                    # (kind, element, edge, index of the inductive element, junction edge)
    elements = {}
    nb = nw = 0
    objs = {}
    for edge, els in shape.items():
        lst = []
        jedge = False
        for letter, lp in els:
            k = cnt[letter]
            cnt[letter] += 1
            base = BASE[letter][k]
            loops = [M.loops[i] for i in lp]
            if letter in shared and letter in objs:
                el = objs[letter]
            elif letter == 'C':
                el = sq.Capacitor(base, 'fF', Q=loss('C', k) if loss else 1e6)
            elif letter == 'L':
                el = sq.Inductor(base, 'nH', cap=sq.Capacitor(1. + k, 'fF', Q=loss('Lcap', k) if loss else None), loops=loops,
                                 **(dict(Q=loss('L', k)) if loss else {}))
            else:
                kw = dict(Y=loss('J', k)) if loss else {}
                if amp:
                    kw['A'] = amp('J', k)
                el = sq.Junction(base, 'GHz', cap=sq.Capacitor(2. + k, 'fF', Q=loss('Jcap', k) if loss else None), loops=loops, **kw)
            objs.setdefault(letter, el)
            lst.append(el)
            if letter == 'C':
                M.items.append(dict(kind='C', el=el, edge=edge, idx=k))
            else:
                it = dict(kind=letter, el=el, edge=edge, b=nb, idx=k, loops=lp)
                nb += 1
                if letter == 'J':
                    it['w'] = nw
                    jedge = True
                M.items.append(it)
        if jedge:
            nw += 1
        elements[edge] = lst
    M.nb, M.nw = nb, nw
    with env.numbers():
        cr = M.cr = sq.Circuit(elements, flux_dist)
    M.elements = elements
    M.nodes = max(max(e) for e in elements)
    if values == 'symbolic':
        set_values(env, M, cap_values)
    if grad:
        grad(M)
    if refresh:
        rebuild_matrices(env, M)
    inject(env, M, symbolic_c=symbolic_c and not simple, full_w=full_w, coupling=coupling, simple=simple)
    if trunc is not None:
        M.trunc = list(trunc)
        if ng:
            offsets(env, M)
        cr.set_trunc_nums(list(trunc))
        M.m = [2 * t - 1 if c else t for t, c in zip(trunc, M.charge)]
    return M


def rebuild_matrices(env, M):
    """Let the circuit recompute what it derives from the element values (the symbolic run ends at the matrix root)."""
    cr = M.cr
    if not env.symbolic:
        cr.update()
        return
    before = dict(cr.__dict__)

    def stop(*a, **k):
        raise Stop()
    env.hook('sqrtm', stop)
    env.hook('svd', stop)
    try:
        cr.update()
    except Stop:
        pass
    # the derivative tables are kept; coordinates are injected below
    for k, v in before.items():
        if not isinstance(v, dict) or k == '_memory_ops':
            cr.__dict__[k] = v
    env.hook('sqrtm', None)
    env.hook('svd', None)


def offsets(env, M):
    M.ng = {}
    for i in range(M.n):
        if M.charge[i]:
            M.ng[i] = env.real('ng%d' % i, -2, 2)
            M.cr.set_charge_offset(i + 1, M.ng[i])


SIMPLE = [0.5, -0.25, 0.75, -0.6, 0.3, 0.9, -0.4, 0.7, -0.8]


def inject(env, M, symbolic_c=True, full_w=True, coupling='mixed', simple=False):
    """simple: transformations, capacitance matrix and flux fractions are fixed numbers."""
    cr = M.cr
    count = [0]

    def entry(name):
        if simple:
            count[0] += 1
            return SIMPLE[count[0] % len(SIMPLE)]
        return env.real(name, -1, 1)
    np = env.np
    n = M.n = cr.n
    omega0 = [float(num(env, x)) for x in cr.omega]
    w0 = [[float(num(env, x)) for x in row] for row in cr.wTrans] if M.nw else []
    s0 = [[float(num(env, x)) for x in row] for row in cr.S]
    M.charge = [x == 0 for x in omega0]
    M.w = [0.0 if M.charge[i] else env.pos('w%d' % i, 1e9, 1e11) for i in range(n)]
    M.z = [None if M.charge[i] else env.pos('z%d' % i, 1, 1000) for i in range(n)]
    ci = [[0] * n for _ in range(n)]
    lt = [[0] * n for _ in range(n)]
    for i in range(n):
        if M.charge[i]:
            ci[i][i] = env.pos('k%d' % i, 1e12, 1e14)
        else:
            ci[i][i] = M.w[i] * M.z[i]
            lt[i][i] = M.w[i] / M.z[i]
        for j in range(i):
            if coupling == 'mixed':
                ci[i][j] = ci[j][i] = (-1) ** (i + j) * env.pos('k%d%d' % (j, i), 1e11, 1e13)
            elif coupling == 'any':
                ci[i][j] = ci[j][i] = env.real('k%d%d' % (j, i), -1e13, 1e13)
    M.cinv, M.lt = ci, lt
    wt = []
    for r in range(M.nw):
        row = []
        for i in range(n):
            if M.charge[i]:
                row.append(float(round(w0[r][i])))
            elif full_w or abs(w0[r][i]) > 1e-9:
                row.append(entry('W%d%d' % (r, i)) * 2)
            else:
                row.append(0.0)
        wt.append(row)
    M.wt = wt
    big = max(abs(x) for row in s0 for x in row)
    M.S = []
    for a in range(M.nodes):
        row = []
        for i in range(n):
            if M.charge[i]:
                # equal node fluxes of a charge mode stay equal (no inductor sees a charge mode)
                if abs(s0[a][i]) < 1e-6 * max(abs(s0[b][i]) for b in range(M.nodes)):
                    row.append(0.0)
                    continue
                same = [b for b in range(a) if abs(s0[b][i] - s0[a][i]) < 1e-6 * abs(s0[a][i])]
                if same:
                    row.append(M.S[same[0]][i])
                    continue
            row.append(entry('S%d%d' % (a, i)))
        M.S.append(row)
    M.R = [[entry('R%d%d' % (a, i)) for i in range(n)] for a in range(M.nodes)]
    nl = len(cr.loops)
    M.B = [[entry('B%d%d' % (b, l)) for l in range(nl)] for b in range(M.nb)]
    if simple:
        c0 = env.pos('c0', 50, 500)
        M.C = [[c0 * 1e-15 * (2 + a) if a == b else c0 * -1e-15 for b in range(M.nodes)] for a in range(M.nodes)]
    if symbolic_c:
        # inverse capacitance matrix is symbolic, the matrix is the inverse of it (same information, simpler terms)
        c = [[None] * M.nodes for _ in range(M.nodes)]
        for a in range(M.nodes):
            for b in range(a + 1):
                v = env.pos('c%d%d' % (b, a), 50, 500) if a == b else env.real('c%d%d' % (b, a), -10, 10)
                c[a][b] = c[b][a] = v * 1e-15
        M.C = c
    f = lambda x: env.arr(x)
    cr.omega = f(M.w)
    cr.cInvTrans = f(ci)
    cr.lTrans = f(lt)
    if M.nw:
        cr.wTrans = f(wt)
    cr.S, cr.R = f(M.S), f(M.R)
    if nl:
        cr.B = f(M.B)
    if symbolic_c or simple:
        cr.C = tensor(env, M.C) if settings.get_optim_mode() else f(M.C)


def tensor(env, x):
    return env.torch.tensor(env.arr(x).tolist() if not env.symbolic else x, dtype=env.torch.float64)


def set_values(env, M, cap_values=False):
    done = {}
    for it in M.items:
        if id(it['el']) in done:
            it['v'] = done[id(it['el'])]['v']
            if 'cap' in done[id(it['el'])]:
                it['cap'] = done[id(it['el'])]['cap']
            continue
        done[id(it['el'])] = it
        tag = '%s%d' % (it['kind'].lower() + 'v', it['idx'])
        if it['kind'] == 'C':
            v = env.pos(tag, 1, 1000)
            it['el'].set_value(v, 'fF')
            it['v'] = v * 1e-15
        elif it['kind'] == 'L':
            v = env.pos(tag, 1, 1000)
            it['el'].set_value(v, 'nH')
            it['v'] = v * 1e-9
        else:
            v = env.pos(tag, 1, 20)
            it['el'].set_value(v, 'GHz')
            it['v'] = v * 1e9 * 2 * env.pi
        if it['kind'] != 'C' and cap_values:
            v = env.pos('cap' + tag, 1, 1000)
            it['el'].cap.set_value(v, 'fF')
            it['cap'] = v * 1e-15
    M.flux = []
    for i, lp in enumerate(M.loops):
        f = env.real('flux%d' % i, -1, 1)
        lp.set_flux(f)
        M.flux.append(f * 2 * env.pi)
    # order of the loops in the circuit
    M.order = [[k for k, l in enumerate(M.loops) if l is x][0] for x in M.cr.loops]


def plain(env, name, trunc, flux_dist='junctions'):
    """Circuit of a shape with ordinary numbers everywhere."""
    M = Model()
    shape = SHAPES[name]
    nl = 1 + max([max(lp) for els in shape.values() for _, lp in els if lp] or [-1])
    M.loops = [sq.Loop(0.1 + 0.05 * i) for i in range(nl)]
    cnt = dict(C=0, J=0, L=0)
    elements = {}
    for edge, els in shape.items():
        elements[edge] = lst = []
        for letter, lp in els:
            base = BASE[letter][cnt[letter]]
            cnt[letter] += 1
            loops = [M.loops[i] for i in lp]
            lst.append(sq.Capacitor(base, 'fF') if letter == 'C' else sq.Inductor(base, 'nH', loops=loops) if letter == 'L'
                       else sq.Junction(base, 'GHz', loops=loops))
    with env.numbers():
        cr = M.cr = sq.Circuit(elements, flux_dist)
        cr.set_trunc_nums(list(trunc))
    M.n = cr.n
    M.charge = [float(num(env, x)) == 0 for x in cr.omega]
    M.m = [2 * t - 1 if c else t for t, c in zip(trunc, M.charge)]
    return M


# -- independent oracle ------------------------------------------------------------------------------------------------
def kron(env, mats):
    out = [[1]]
    for b in mats:
        na, nb = len(out), len(b)
        out = [[out[i // nb][j // nb] * b[i % nb][j % nb] if not (is0(out[i // nb][j // nb]) or is0(b[i % nb][j % nb])) else 0
                for j in range(na * nb)] for i in range(na * nb)]
    return out


def is0(x):
    return isinstance(x, (int, float)) and x == 0


def eye(n):
    return [[1 if i == j else 0 for j in range(n)] for i in range(n)]


def madd(a, b):
    return [[x + y if not is0(y) else x for x, y in zip(r, s)] for r, s in zip(a, b)]


def mscale(c, a):
    return [[c * x if not is0(x) else 0 for x in r] for r in a]


def mmul(a, b):
    n, k, m = len(a), len(b), len(b[0])
    out = []
    for i in range(n):
        row = []
        for j in range(m):
            s = 0
            for t in range(k):
                if not is0(a[i][t]) and not is0(b[t][j]):
                    s = s + a[i][t] * b[t][j]
            row.append(s)
        out.append(row)
    return out


def sum_(xs):
    s = 0
    for x in xs:
        s = s + x
    return s


def conj(x):
    return x.conjugate() if hasattr(x, 'conjugate') else x


def dagger(a):
    return [[conj(a[i][j]) for i in range(len(a))] for j in range(len(a[0]))]


def root(env, x):
    return env.np.sqrt(x)


class Ops:
    """Operators of a Model in the truncated product space, from the definitions."""

    def __init__(self, env, M):
        self.env, self.M = env, M
        self.e, self.hbar, self.Phi0 = env.const('e'), env.const('hbar'), env.const('Phi0')

    def single(self, i, what, arg=None):
        env, M = self.env, self.M
        m = M.m[i]
        if M.charge[i]:
            N = (m - 1) // 2
            ns = [k - N for k in range(m)]
            if what == 'Q':
                f = 2 * self.e / root(env, self.hbar)
                return [[f * (ns[a] - M.ng[i]) if a == b else 0 for b in range(m)] for a in range(m)]
            if what == 'N':
                return [[ns[a] if a == b else 0 for b in range(m)] for a in range(m)]
            if what == 'exp':
                # exp(i k phi) moves the charge number by k
                k = int(arg)
                return [[1 if a - b == k else 0 for b in range(m)] for a in range(m)]
            if what == 'phi':
                return eye(m)
            raise ValueError(what)
        low = [[root(env, b) if b - 1 == a else 0 for b in range(m)] for a in range(m)]     # annihilation
        up = [[low[b][a] for b in range(m)] for a in range(m)]
        if what == 'Q':
            zp = root(env, 1 / (2 * M.z[i]))
            return madd(mscale(1j * zp, up), mscale(-1j * zp, low))
        if what == 'phi':
            return mscale(root(env, M.z[i] / 2), madd(low, up))
        if what == 'N':
            return [[a if a == b else 0 for b in range(m)] for a in range(m)]
        if what == 'exp':
            # exp(i arg x) of the truncated x = phi (2 pi / Phi0)
            if m == 1:
                return [[1]]
            x = (2 * env.pi / self.Phi0) * root(env, self.hbar * M.z[i] / 2) * arg
            d = env.qt.displace(m, 1j * x).full()
            return [[d[a, b] for b in range(m)] for a in range(m)]
        raise ValueError(what)

    def full(self, parts):
        """parts: {mode: matrix}."""
        return kron(self.env, [parts[i] if i in parts else eye(self.M.m[i]) for i in range(self.M.n)])

    def Q(self, i):
        return self.full({i: self.single(i, 'Q')})

    def phi(self, i):
        return self.full({i: self.single(i, 'phi')})

    def expo(self, w, half=False):
        """exp(i sum_k W_wk phi_k) (or the half of the phase)."""
        parts = {}
        for i in range(self.M.n):
            a = self.M.wt[w][i]
            parts[i] = self.single(i, 'exp', a / 2 if half else a)
        return self.full(parts)

    def ext(self, b):
        """External phase at inductive element b."""
        s = 0
        for l in range(len(self.M.cr.loops)):
            s = s + self.M.B[b][l] * self.M.flux[self.M.order[l]]
        return s

    def phase(self, x):
        return self.env.np.exp(1j * x)

    def cos(self, it):
        """cosine and sine operators of a junction."""
        e = mscale(self.phase(self.ext(it['b'])) if self.M.cr.loops else 1, self.expo(it['w']))
        d = dagger(e)
        return mscale(0.5, madd(e, d)), mscale(-0.5j, madd(e, mscale(-1, d)))

    def sin_half(self, it):
        ph = self.phase(self.ext(it['b']) / 2) if self.M.cr.loops else 1
        e = mscale(ph, self.expo(it['w'], half=True))
        return mscale(-0.5j, madd(e, mscale(-1, dagger(e))))

    def d_junction(self, it):
        return mscale(-1, self.cos(it)[0])

    def d_loop(self, l):
        """Derivative of the Hamiltonian with respect to the phase of loop number l (order of the circuit)."""
        M = self.M
        out = self.zero()
        for it in M.items:
            if it['kind'] == 'J':
                out = madd(out, mscale(M.B[it['b']][l] * it['v'], self.cos(it)[1]))
            elif it['kind'] == 'L':
                f = M.B[it['b']][l] * (self.Phi0 / (2 * self.env.pi)) / it['v'] / root(self.env, self.hbar)
                out = madd(out, mscale(f, self.edge_flux(it['edge'])))
        return out

    def d_capacitor(self, edges):
        """Derivative with respect to a capacitance present on the given edges."""
        M = self.M
        ci = self.inverse_c()
        x = [[sum_([ci[a][b] * M.R[b][k] for b in range(M.nodes)]) for k in range(M.n)] for a in range(M.nodes)]
        out = self.zero()
        for edge in edges:
            r = incidence(edge, M.nodes)
            v = self.zero()                      # voltage over the edge
            for k in range(M.n):
                v = madd(v, mscale(sum_([r[a] * x[a][k] for a in range(M.nodes) if r[a]]), self.Q(k)))
            out = madd(out, mscale(-0.5, mmul(v, v)))
        return out

    def d_inductor(self, its):
        M = self.M
        out = self.zero()
        for it in its:
            l = it['v']
            f = self.edge_flux(it['edge'])
            out = madd(out, mscale(-0.5 / l / l, mmul(f, f)))
            if M.cr.loops:
                c = self.ext(it['b']) * (self.Phi0 / (2 * self.env.pi)) / l / l / root(self.env, self.hbar)
                out = madd(out, mscale(-1 * c, f))
        return out

    def edge_flux(self, edge):
        """Flux difference over an edge (first node minus second; ground is zero)."""
        M = self.M
        i, j = edge
        out = None
        for k in range(M.n):
            if 0 in (i, j):
                c = M.S[i + j - 1][k]
            else:
                c = M.S[i - 1][k] - M.S[j - 1][k]
            t = mscale(c, self.phi(k))
            out = t if out is None else madd(out, t)
        return out

    def inverse_c(self):
        M = self.M
        if not hasattr(M, 'Cinv'):
            M.Cinv = inverse(M.C)
        return M.Cinv

    def node_voltage(self, a):
        """Voltage of node a (0: ground), per sqrt(hbar): row of C^-1 R applied to the mode charges."""
        M = self.M
        if a == 0:
            return self.zero()
        ci = self.inverse_c()
        out = self.zero()
        for k in range(M.n):
            c = 0
            for b in range(M.nodes):
                c = c + ci[a - 1][b] * M.R[b][k]
            out = madd(out, mscale(c, self.Q(k)))
        return out

    def voltage(self, edge):
        """Voltage difference, second node minus first; to ground the voltage of the other node."""
        i, j = edge
        if 0 in edge:
            return self.node_voltage(i + j)
        return madd(self.node_voltage(j), mscale(-1, self.node_voltage(i)))

    def dim(self):
        d = 1
        for x in self.M.m:
            d *= x
        return d

    def zero(self):
        return [[0] * self.dim() for _ in range(self.dim())]

    def hamiltonian(self):
        M = self.M
        H = self.zero()
        for i in range(M.n):
            if M.charge[i]:
                q = self.single(i, 'Q')
                H = madd(H, mscale(M.cinv[i][i] / 2, self.full({i: mmul(q, q)})))
            else:
                H = madd(H, mscale(M.w[i], self.full({i: self.single(i, 'N')})))
            for j in range(i):
                if not is0(M.cinv[i][j]):
                    H = madd(H, mscale(M.cinv[i][j], self.full({i: self.single(i, 'Q'), j: self.single(j, 'Q')})))
        for it in M.items:
            if it['kind'] == 'J':
                c, _ = self.cos(it)
                H = madd(H, mscale(-it['v'], c))
            elif it['kind'] == 'L' and M.cr.loops:
                f = self.ext(it['b']) * (self.Phi0 / (2 * self.env.pi)) / it['v'] / root(self.env, self.hbar)
                H = madd(H, mscale(f, self.edge_flux(it['edge'])))
        return H


# -- eigenpairs of the (stubbed) sparse eigensolver -------------------------------------------------------------------
def stub_eigs(env, fn):
    """Install fn(matrix, k, which) -> (values, list of vectors) as the sparse eigensolver."""
    def f(A, k=6, *a, which='LM', **kw):
        vals, vecs = fn(A, k, which)
        v = env.arr([[vecs[j][i] for j in range(len(vecs))] for i in range(len(vecs[0]))])
        if env.symbolic:
            return env.arr(list(vals)), v
        return env.np.array(list(vals), dtype=complex), env.np.array(v, dtype=complex)
    env.hook('eigs', f)
    env.hook('eigsh', f)


def eigenpairs(env, M, n, real=False, gap=(1e9, 1e11)):
    """n ordered eigenvalues with arbitrary complex eigenvectors.

    real=True: real components; real='mixed': one complex component for each state; real='part': one arbitrary complex component for each
    state, fixed complex numbers for the others."""
    d = 1
    for x in M.m:
        d *= x
    E = [env.real('E0', -1e11, 1e11)]
    for k in range(1, n):
        E.append(E[-1] + env.pos('dE%d' % k, *gap))
    V = []
    for k in range(n):
        row = []
        for i in range(d):
            one = i == (k + 1) % d
            if real == 'part' and not one:
                row.append((((3 * i + 5 * k) % 7) - 3 + 1j * (((2 * i + k) % 5) - 1)) / 8)
                continue
            x = env.real('v%d_%d_re' % (k, i), -1, 1)
            if not real or (one and real in ('mixed', 'part')):
                x = x + 1j * env.real('v%d_%d_im' % (k, i), -1, 1)
            row.append(x)
        V.append(row)
    M.E, M.V, M.d = E, V, d
    return E, V


def diagonalize(env, M, n, **kw):
    E, V = eigenpairs(env, M, n, **kw)
    stub_eigs(env, lambda A, k, which: (E, V))
    M.cr.diag(n)
    return E, V


def expect(a, op, b):
    """<a|op|b>"""
    s = 0
    for i in range(len(a)):
        for j in range(len(b)):
            if not is0(op[i][j]):
                s = s + conj(a[i]) * op[i][j] * b[j]
    return s


def det(a):
    if not a:
        return 1
    if len(a) == 1:
        return a[0][0]
    s = 0
    for j in range(len(a)):
        if not is0(a[0][j]):
            s = s + (-1) ** j * a[0][j] * det([r[:j] + r[j + 1:] for r in a[1:]])
    return s


def inverse(a):
    n = len(a)
    d = 1 / det(a)
    return [[(-1) ** (i + j) * det([r[:i] + r[i + 1:] for k, r in enumerate(a) if k != j]) * d for j in range(n)] for i in range(n)]


def up_to_sign(env, label, a, b, **kw):
    """a == b or a == -b (one sign for the whole array)."""
    a = env.arr(a.full()) if hasattr(a, 'full') else mat(env, a)
    b = env.arr(b)
    neg = [-x for x in b.ravel()]
    if a.shape == b.shape:
        if env.symbolic:
            plus = all(env.core.eq0(env.core.lift(x) - y) is True for x, y in zip(a.ravel(), b.ravel()))
        else:
            plus = abs(a - b).max() <= abs(a + b).max()
        if not plus:
            b = env.arr(neg).reshape(b.shape)
    env.eq(label, a, b, **kw)


def as_matrix(env, x):
    return env.arr(x.full()) if hasattr(x, 'full') else mat(env, x.to_dense() if hasattr(x, 'to_dense') else x)
