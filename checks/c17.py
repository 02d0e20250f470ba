"""C17: phase representation of the eigenvectors."""
import math
from checks.common import *   # noqa: F401,F403
from checks import hmodel

HARNESSES = []
BOUNDS = ('1 to 3 modes of either kind, truncation numbers 1 to 5 for one mode, 1 to 2 otherwise, all complex eigenvector coefficients, mode impedances and grid values, '
          'grids with 1 to 3 values for each mode, first and second eigenvector, both engines')
ASSUMPTIONS = ['the sparse eigensolver is replaced by arbitrary eigenpairs', 'the exponential and logarithm are uninterpreted apart from exp(a+b)=exp(a)exp(b) and exp(log(a))=a',
               'oscillator levels are below the overflow of the Hermite polynomials (the multiprecision branch of levels above 150 is not claimed)']


def hermite(n, x):
    """Physicists' Hermite polynomial."""
    a, b = 1, 2 * x
    if n == 0:
        return a
    for k in range(1, n):
        a, b = b, 2 * x * b - 2 * k * a
    return b


def basis(env, M, mode, level, phi):
    np = env.np
    if M.charge[mode]:
        n = level - (M.m[mode] - 1) // 2
        x = phi * n
        return (np.cos(x) + 1j * np.sin(x)) / np.sqrt(2 * env.pi)
    O = hmodel.Ops(env, M)
    cinv, l = M.cinv[mode][mode], M.lt[mode][mode]
    x0 = np.sqrt(O.hbar * np.sqrt(cinv / l))
    x = phi * O.Phi0 / x0
    norm = np.sqrt(O.Phi0 / x0) / np.sqrt(float(math.factorial(level)) * 2. ** level) / np.sqrt(np.sqrt(env.pi))
    return norm * hermite(level, x) * np.exp(-x * x / 2)


def expected(env, M, v, grid):
    lens = [len(g) for g in grid]
    tab = [[[basis(env, M, k, i, x) for x in grid[k]] for i in range(M.m[k])] for k in range(M.n)]
    out = {}

    def rec(k, idx):
        if k == M.n:
            s = 0
            for i in range(M.d):
                t = v[i]
                r = i
                for q in reversed(range(M.n)):
                    t = t * tab[q][r % M.m[q]][idx[q]]
                    r //= M.m[q]
                s = s + t
            out[tuple(idx)] = s
            return
        for j in range(lens[k]):
            rec(k + 1, idx + [j])
    rec(0, [])
    return out, lens


def check(env, M, k, grid, arrays=True):
    got = M.cr.eig_phase_coord(k, [env.arr(g) if arrays else g for g in grid])
    want, lens = expected(env, M, M.V[k], grid)
    keep = [q for q in range(M.n) if lens[q] > 1]
    order = list(keep)
    if len(order) > 1:
        order[0], order[1] = order[1], order[0]
    env.true('shape', tuple(got.shape) == tuple(lens[q] for q in order))
    mag = 0 if env.symbolic else max(abs(x) for x in want.values())
    for idx, w in want.items():
        env.eq('value', got[tuple(idx[q] for q in order)] if order else got.item() if hasattr(got, 'item') else got, w, rtol=1e-8, scale=None if env.symbolic else mag)


def setup(env, case, n=2, real=False):
    both_engines(env)
    M = hmodel.build(env, case[0], case[1], simple=False, full_w=False, symbolic_c=True)
    hmodel.diagonalize(env, M, n, real=real)
    return M


def values(env, lens):
    return [[env.real('phi%d_%d' % (q, j), -1, 1) for j in range(n)] for q, n in enumerate(lens)]


ONE = [('fluxonium', [2], [2]), ('fluxonium', [3], [1]), ('fluxonium', [4], [1]), ('resonator', [5], [1]), ('transmon', [2], [3]), ('squid', [2], [1]), ('resonator', [3], [1])]
TWO = [('fluxonium-transmon', [2, 2], [2, 3]), ('two transmons', [2, 2], [3, 2]), ('two fluxoniums', [2, 2], [2, 1]), ('two fluxoniums', [1, 2], [2, 2]),
       ('fluxonium-transmon', [2, 1], [1, 2]), ('fluxonium-transmon', [1, 2], [2, 1]), ('two transmons', [2, 2], [1, 1]), ('two transmons', [1, 2], [1, 2])]
THREE = [('three', [2, 1, 2], [2, 2, 3]), ('three transmons', [2, 1, 2], [2, 3, 2]), ('three', [2, 2, 1], [2, 1, 3])]


@harness(HARNESSES, each=ONE, validate=4)
def one_mode(env, case):
    M = setup(env, case)
    check(env, M, env.choice('k', [0, 1]), values(env, case[2]))


@harness(HARNESSES, each=TWO, validate=4, cost=3)
def two_modes(env, case):
    M = setup(env, case)
    check(env, M, env.choice('k', [0, 1]), values(env, case[2]))


@harness(HARNESSES, each=THREE, validate=4, cost=4)
def three_modes(env, case):
    M = setup(env, case, real='part')
    check(env, M, env.choice('k', [0, 1]), values(env, case[2]))


@harness(HARNESSES, each=[('two fluxoniums', [2, 2], [2, 3]), ('resonator', [3], [2]), ('two fluxoniums', [3, 2], [1, 2])], validate=2, cost=20, tier='thorough')
def larger(env, case):
    M = setup(env, case)
    check(env, M, env.choice('k', [0, 1]), values(env, case[2]))


@harness(HARNESSES, each=[('fluxonium-transmon', [2, 2], [1, 2]), ('transmon', [2], [2])], validate=3)
def repeated(env, case):
    """The representation does not depend on earlier ones and leaves the eigenvectors as they are; lists are accepted for the grid."""
    M = setup(env, case, n=3, real='part')
    k = env.choice('k', [0, 1, 2])
    grid = values(env, case[2])
    other = [[env.real('psi%d_%d' % (q, j), -1, 1) for j in range(n)] for q, n in enumerate(case[2])]
    M.cr.eig_phase_coord(env.choice('before', [0, 2]), [env.arr(g) for g in other])
    check(env, M, k, grid, arrays=env.choice('container', [True, False]))
    vecs = M.cr.evecs
    for q in range(3):
        for i in range(M.d):
            v = vecs[q]
            env.eq('eigenvector kept', env.to_np(v)[i] if not hasattr(v, 'full') else v.full()[i][0], M.V[q][i], rtol=1e-12, scale=1.)


@harness(HARNESSES, each=[('fluxonium', [2]), ('transmon', [2])])
def errors(env, case):
    import SQcircuit.exceptions as ex
    both_engines(env)
    M = hmodel.build(env, case[0], case[1], simple=False, full_w=False, symbolic_c=True)
    phi = env.real('phi', -1, 1)
    env.raises('no eigenvectors yet', ex.CircuitStateError, lambda: M.cr.eig_phase_coord(0, [env.arr([phi])]))
    hmodel.diagonalize(env, M, 2)
    env.raises('level is not an integer', ValueError, lambda: M.cr.eig_phase_coord(env.choice('level', [0.5, '0', None]), [env.arr([phi])]))
