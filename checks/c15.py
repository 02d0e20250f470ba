"""C15: composite systems."""
from checks.common import *   # noqa: F401,F403
from checks import hmodel
from checks.hmodel import Ops, madd, mscale, mmul, kron, eye, is0, inverse, dagger, conj
from SQcircuit.systems import Couple, System

HARNESSES = []
BOUNDS = ('systems of two and three circuits with one or two nodes (harmonic, charge and mixed modes, circuits with a removed mode), one to '
          'four coupling capacitors between any nodes, one to three eigenstates per circuit; all capacitances, transformations, '
          'eigenvalues and eigenvectors; all frequency units; both engines')
ASSUMPTIONS = ['the coordinate transformation of each circuit is replaced by symbols (see C04)',
               'the sparse eigensolver returns arbitrary eigenvalues and eigenvectors',
               'couplings to the ground node are outside the claim']


class Part:
    pass


def make(env, tag, name, trunc, neig, numeric):
    """A circuit of the system; symbols are made different by the tag."""
    class Tagged:
        def __init__(self, env):
            self._env = env

        def __getattr__(self, a):
            return getattr(self._env, a)

        def real(self, n, *a, **k):
            return self._env.real(tag + n, *a, **k)

        def pos(self, n, *a, **k):
            return self._env.pos(tag + n, *a, **k)
    t = Tagged(env)
    M = hmodel.build(t, name, trunc, simple=numeric, symbolic_c=not numeric)
    M.tag, M.neig = tag, neig
    hmodel.eigenpairs(t, M, neig)
    hmodel.stub_eigs(env, lambda A, k, which: (M.E, M.V))
    M.cr.diag(neig)
    M.ops = Ops(t, M)
    return M


def node_count(M):
    return M.nodes


def oracle(env, parts, couples, unit):
    """Capacitance matrix and Hamiltonian of the system from the definitions."""
    n = sum(M.nodes for M in parts)
    off, k = {}, 0
    for M in parts:
        off[id(M)] = k
        k += M.nodes
    bare = [[0] * n for _ in range(n)]
    for M in parts:
        o = off[id(M)]
        for a in range(M.nodes):
            for b in range(M.nodes):
                bare[o + a][o + b] = M.C[a][b]
    C = [list(r) for r in bare]
    for A, a, B, b, c in couples:
        i, j = off[id(A)] + a - 1, off[id(B)] + b - 1
        C[i][i] = C[i][i] + c
        C[j][j] = C[j][j] + c
        C[i][j] = C[i][j] - c
        C[j][i] = C[j][i] - c
    return bare, C, off


def hamiltonian(env, parts, bare, C, off, unit):
    n = len(bare)
    d = [M.neig for M in parts]
    D = 1
    for x in d:
        D *= x
    H = [[0] * D for _ in range(D)]

    def embed(ops):
        return kron(env, [ops[i] if i in ops else eye(d[i]) for i in range(len(parts))])
    f = 2 * env.pi * scale(HERTZ, unit)
    for i, M in enumerate(parts):
        H = madd(H, embed({i: [[M.E[a] / f if a == b else 0 for b in range(M.neig)] for a in range(M.neig)]}))
    ci, ci0 = inverse(C), block_inverse(env, parts, off, n)
    # charge of every mode in the eigenbasis
    q = []
    for i, M in enumerate(parts):
        V = [[M.V[k][r] for k in range(M.neig)] for r in range(M.d)]
        for m in range(M.n):
            q.append((i, M, m, mmul(mmul(dagger(V), M.ops.Q(m)), V)))
    for x, (i, M, m, Q) in enumerate(q):
        for y, (j, N, k, P) in enumerate(q):
            c = 0
            for a in range(M.nodes):
                for b in range(N.nodes):
                    w = ci[off[id(M)] + a][off[id(N)] + b] - ci0[off[id(M)] + a][off[id(N)] + b]
                    c = c + M.R[a][m] * w * N.R[b][k]
            op = embed({i: mmul(Q, P)}) if i == j else embed({i: Q, j: P})
            H = madd(H, mscale(0.5 * c / f, op))
    return H


def block_inverse(env, parts, off, n):
    out = [[0] * n for _ in range(n)]
    for M in parts:
        inv = inverse([list(r) for r in M.C])
        for a in range(M.nodes):
            for b in range(M.nodes):
                out[off[id(M)] + a][off[id(M)] + b] = inv[a][b]
    return out


# circuits (shape, truncation, number of eigenstates), couplings (circuit, node, circuit, node)
SYSTEMS = {
    'two one-node circuits': ([('fluxonium', [2], 2), ('transmon', [2], 2)], [(0, 1, 1, 1)]),
    'parallel couplings': ([('fluxonium', [2], 2), ('fluxonium', [3], 1)], [(0, 1, 1, 1), (1, 1, 0, 1)]),
    'one and two nodes': ([('transmon', [2], 2), ('fluxonium-transmon', [2, 1], 1)], [(0, 1, 1, 2)]),
    'two and one nodes': ([('two transmons', [2, 1], 2), ('fluxonium', [2], 2)], [(0, 2, 1, 1), (1, 1, 0, 1)]),
    'two and two nodes': ([('two transmons', [1, 2], 1), ('fluxonium-transmon', [2, 1], 2)], [(0, 2, 1, 1), (1, 2, 0, 1)]),
    'removed mode': ([('removed mode', [2], 2), ('fluxonium', [2], 2)], [(0, 1, 1, 1)]),
    'chain': ([('fluxonium', [2], 1), ('transmon', [2], 2), ('fluxonium', [2], 2)], [(0, 1, 1, 1), (1, 1, 2, 1)]),
    'star': ([('fluxonium', [2], 2), ('transmon', [2], 1), ('fluxonium', [2], 2)], [(2, 1, 0, 1), (0, 1, 1, 1), (1, 1, 2, 1)]),
    'three with two nodes': ([('transmon', [2], 2), ('two transmons', [1, 2], 1), ('fluxonium', [2], 2)], [(0, 1, 1, 2), (1, 1, 2, 1)]),
    'order of appearance': ([('fluxonium', [2], 2), ('two transmons', [2, 1], 1)], [(1, 1, 0, 1), (0, 1, 1, 2)]),
}


def system(env, name, flip=(), numeric=False):
    circuits, couplings = SYSTEMS[name]
    parts = []
    for i, (shape, trunc, neig) in enumerate(circuits):
        if shape == 'removed mode' and settings.get_optim_mode():
            trunc = trunc + [1]
        two = len(hmodel.SHAPES[shape]) > 1
        parts.append(make(env, 'abc'[i] + '_', shape, trunc, neig, numeric or two))
    couples, objs = [], []
    for k, (a, i, b, j) in enumerate(couplings):
        v = env.pos('cc%d' % k, 1, 100)
        el = sq.Capacitor(v, 'fF')
        if env.choice('flip%d' % k, [False, True]) if k in flip else False:
            a, i, b, j = b, j, a, i
        couples.append((parts[a], i, parts[b], j, v * 1e-15))
        objs.append(Couple(parts[a].cr, i, parts[b].cr, j, el))
    # order in which the circuits are first named
    order = []
    for A, _, B, _, _ in couples:
        for M in (A, B):
            if M not in order:
                order.append(M)
    return order, couples, objs


@harness(HARNESSES, each=list(SYSTEMS), cost=2, timeout=120000)
def spectrum(env, name):
    both_engines(env)
    unit = 'GHz'
    if name == 'two one-node circuits':
        unit = env.choice('unit', list(HERTZ))
        sq.set_unit_freq(unit)
    parts, couples, objs = system(env, name, flip=(0,))
    bare, C, off = oracle(env, parts, couples, unit)
    before = [mat(env, M.cr.C) + 0 for M in parts]
    s = System(objs)
    env.true('circuits', [id(c) for c in s.circuits] == [id(M.cr) for M in parts])
    env.eq('capacitance matrix', mat(env, s.cap_matrix()), env.arr(C), rtol=1e-9)
    H = hmodel.as_matrix(env, s.hamiltonian())
    want = hamiltonian(env, parts, bare, C, off, unit)
    env.eq('Hamiltonian', H, env.arr(want), rtol=1e-7)
    env.eq('Hermitian', H, env.arr([[conj(H[j][i]) for j in range(len(H))] for i in range(len(H))]), rtol=1e-9)
    env.eq('capacitance matrix again', mat(env, s.cap_matrix()), env.arr(C), rtol=1e-9)
    env.eq('Hamiltonian again', hmodel.as_matrix(env, s.hamiltonian()), env.arr(want), rtol=1e-7)
    for k, M in enumerate(parts):
        env.eq('circuit %d unchanged' % k, mat(env, M.cr.C), before[k])
        env.eq('its frequencies', mat(env, M.cr.efreqs), env.arr([e / (2 * env.pi * scale(HERTZ, unit)) for e in M.E]), rtol=1e-9)
