"""C07: diagonalization returns the lowest pairs in order and unit."""
from checks.common import *   # noqa: F401,F403
from checks import hmodel
from SQcircuit.exceptions import CircuitStateError

HARNESSES = []
BOUNDS = ('1 to 4 requested eigenpairs (quick 3), delivered in every order with arbitrary real eigenvalues (pairwise different) '
          'and arbitrary complex eigenvectors of dimension 3 to 9; all frequency units, set before or after the '
          'diagonalization; both engines; one failed convergence of the solver')
ASSUMPTIONS = ['the sparse eigensolver is nondeterministic: it may return any pairs in any order; that it is asked for the '
               'lowest part of the spectrum of the Hamiltonian is checked, its numerics are not']


def order(E):
    """Indices in ascending order (decides the comparisons of the path)."""
    idx = []
    for i in range(len(E)):
        k = 0
        while k < len(idx) and bool(E[idx[k]] < E[i]):
            k += 1
        idx.insert(k, i)
    return idx


def run(env, shape, trunc, n, unit_before=True, fail=False):
    unit = env.choice('unit', list(HERTZ))
    M = hmodel.build(env, shape, trunc)
    cr = M.cr
    d = 1
    for x in M.m:
        d *= x
    E = [env.real('E%d' % k, -1e11, 1e11) for k in range(n)]
    for i in range(n):
        for j in range(i):
            env.assume(E[i] != E[j])
    V = [[env.complex('v%d_%d' % (k, i)) for i in range(d)] for k in range(n)]
    calls = []

    def stub(A, k, which):
        calls.append((A, k, which))
        if fail and len(calls) == 1:
            import scipy.sparse.linalg as ssl
            raise ssl.ArpackNoConvergence('no convergence', env.arr([]), env.arr([]))
        return E, V
    hmodel.stub_eigs(env, stub)
    if unit_before:
        sq.set_unit_freq(unit)
    f, v = cr.diag(n)
    env.true('number of pairs', all(k == n for _, k, _ in calls))
    env.true('lowest eigenvalues are requested', all(w in ('SR', 'SA') for _, _, w in calls))
    env.true('solver is called', len(calls) == (2 if fail else 1))
    A = calls[-1][0]
    A = A.toarray() if hasattr(A, 'toarray') else A
    env.eq('matrix', env.arr(A), env.arr(cr.hamiltonian().full()))
    ids = order(E)
    s = scale(HERTZ, unit) if unit_before else scale(HERTZ, 'GHz')
    want = env.arr([E[i] / (2 * env.pi * s) for i in ids])
    env.eq('frequencies', mat(env, f), want, rtol=1e-9)
    if not unit_before:
        sq.set_unit_freq(unit)
        want = env.arr([E[i] / (2 * env.pi * scale(HERTZ, unit)) for i in ids])
    env.eq('efreqs', mat(env, cr.efreqs), want, rtol=1e-9)
    for what, vs in (('vector', v), ('evecs', cr.evecs)):
        env.true('%s count' % what, len(vs) == n)
        for k in range(n):
            x = vs[k]
            x = x.full() if hasattr(x, 'full') else mat(env, x)
            env.eq('%s %d' % (what, k), x.ravel(), env.arr(V[ids[k]]), rtol=1e-9)


CASES = [('fluxonium', [3]), ('fluxonium-transmon', [2, 2]), ('two fluxoniums', [3, 1])]


@harness(HARNESSES, cost=2, validate=5)
def one_to_three(env):
    both_engines(env)
    shape, t = env.choice('case', CASES)
    run(env, shape, t, env.choice('n', [1, 2, 3]), env.choice('before', [True, False]))


@harness(HARNESSES, cost=2, max_paths=20000)
def four(env):
    both_engines(env)
    run(env, 'transmon', [3], 4)


@harness(HARNESSES)
def retry(env):
    both_engines(env)
    run(env, 'fluxonium', [4], 2, fail=True)


@harness(HARNESSES)
def states(env):
    """Use before truncation / diagonalization."""
    both_engines(env)
    M = hmodel.build(env, env.choice('shape', ['fluxonium', 'transmon']))
    cr = M.cr
    env.raises('diag without truncation', CircuitStateError, lambda: cr.diag(2))
    env.raises('charge_op without truncation', CircuitStateError, lambda: cr.charge_op(1))
    env.raises('hamiltonian without truncation', CircuitStateError, lambda: cr.hamiltonian())
    cr.set_trunc_nums([3])
    M.m = [5 if M.charge[0] else 3]
    env.raises('number of pairs', ValueError, lambda: cr.diag(2.0))
    env.raises('efreqs', CircuitStateError, lambda: cr.efreqs)
    env.raises('evecs', CircuitStateError, lambda: cr.evecs)
    env.raises('matrix elements', CircuitStateError, lambda: cr.matrix_elements('capacitive', (0, 1), (0, 1)))
    env.raises('rates', CircuitStateError, lambda: cr.dec_rate('capacitive', (0, 1)))
    env.raises('derivative', CircuitStateError, lambda: cr.get_partial_omega(M.items[0]['el'], 1))
    env.raises('derivative of vector', CircuitStateError, lambda: cr.get_partial_vec(M.items[0]['el'], 1))
    env.raises('phase coordinates', CircuitStateError, lambda: cr.eig_phase_coord(0, [env.np.linspace(0, 1, 3)]))
    hmodel.diagonalize(env, M, 2)
    env.true('available afterwards', len(cr.efreqs) == 2 and len(cr.evecs) == 2)
