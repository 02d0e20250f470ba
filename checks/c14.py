"""C14: every sweep entry belongs to its own grid point."""
import math
from checks.common import *   # noqa: F401,F403
from checks import hmodel
from SQcircuit.sweep import Sweep

HARNESSES = []
BOUNDS = ('1 to 3 swept loops or charge modes with unequal grid lengths 1 to 4, arbitrary grid values, 1 to 3 eigenfrequencies, all six '
          'decoherence channels; circuit responses that are arbitrary multilinear functions of the set values, and the real '
          'diagonalization and rate formulas for two points on one and two loops and charge modes')
ASSUMPTIONS = ['first harness: diag and dec_rate of the circuit are replaced by arbitrary multilinear functions of the currently set '
               'fluxes or offsets', 'second harness: the sparse eigensolver is replaced by an arbitrary function of the Hamiltonian (eigenvalues) and arbitrary vectors']
LENGTHS = [[1], [2], [3], [1, 3], [3, 2], [2, 4], [2, 1, 3], [3, 2, 2]]
CHANNELS = ['capacitive', 'inductive', 'quasiparticle', 'charge', 'cc', 'flux']


def multilinear(env, name, xs):
    """Function of xs with symbolic coefficients which takes different values at different arguments."""
    s = 0
    for bits in range(2 ** len(xs)):
        t = env.real('%s_%d' % (name, bits), 1, 2)
        for i, x in enumerate(xs):
            if bits >> i & 1:
                t = t * x
        s = s + t
    return s


def grids(env, lengths):
    return [env.arr([env.real('g%d_%d' % (i, k), -1, 1) for k in range(n)]) if env.choice('array', [True, False]) else
            [env.real('g%d_%d' % (i, k), -1, 1) for k in range(n)] for i, n in enumerate(lengths)]


def points(lengths):
    out = [()]
    for n in lengths:
        out = [p + (k,) for p in out for k in range(n)]
    return out


def compare(env, sweep, res, lengths, neig, loss, freq, rate):
    f, dec = res
    for tab in (f, sweep.efreq):
        env.true('shape', tuple(tab.shape) == (neig,) + tuple(lengths))
    for tab in (dec, sweep.dec):
        if loss:
            env.true('channels', sorted(tab) == sorted(CHANNELS))
        else:
            env.true('no loss', tab is None)
    for p in points(lengths):
        for k in range(neig):
            want = freq(p, k)
            env.eq('frequency', f[(k,) + p], want, rtol=1e-9)
            env.eq('stored frequency', sweep.efreq[(k,) + p], want, rtol=1e-9)
        if loss:
            for c in CHANNELS:
                want = rate(p, c)
                env.eq('rate ' + c, dec[c][p], want, rtol=1e-9)
                env.eq('stored rate ' + c, sweep.dec[c][p], want, rtol=1e-9)


@harness(HARNESSES, each=[(k + ' ' + str(n), k, n) for n in LENGTHS for k in ('flux', 'charge')])
def responses(env, case):
    _, kind, lengths = case
    n = len(lengths)
    loss = env.choice('loss', [False, True])
    neig = env.choice('neig', [1, 2, 3])
    grid = grids(env, lengths)
    start = [env.real('s%d' % i, -1, 1) for i in range(3)]
    M = hmodel.plain(env, 'three' if kind == 'flux' else 'three transmons', [1, 1, 1])
    cr = M.cr
    if kind == 'flux':
        params = [sq.Loop(0) for _ in range(3)]
        for lp, s in zip(params, start):
            lp.set_flux(s)
        current = lambda: [num(env, lp.value()) / (2 * env.pi) for lp in params]
        order = env.choice('order', [[0, 1, 2], [2, 0, 1]])
    else:
        now = list(start)
        params = [1, 2, 3]
        current = lambda: list(now)

        def set_charge_offset(mode, ng):
            now[mode - 1] = ng
        cr.set_charge_offset = set_charge_offset
        order = env.choice('order', [[0, 1, 2], [1, 2, 0]])
    order = order[:n]
    use = [params[i] for i in order]

    def diag(n_eig):
        env.true('number of eigenvalues', n_eig == neig)
        return env.arr([multilinear(env, 'f%d' % k, current()) for k in range(n_eig)]), [None] * n_eig

    def dec_rate(dec_type, states, total=True):
        env.true('states', tuple(states) == (1, 0) and total)
        return multilinear(env, 'r' + dec_type, current())
    cr.diag, cr.dec_rate = diag, dec_rate
    sw = Sweep(cr, neig, ['efreq', 'loss'] if loss else None)
    go = sw.sweepFlux if kind == 'flux' else sw.sweepCharge
    # an earlier sweep of the same object leaves nothing behind
    if n > 1 or lengths == [1]:
        go(use, [[env.real('h%d' % k, -1, 1)] for k in range(n)])
    else:
        go([params[2]], [[env.real('h%d' % k, -1, 1) for k in range(3)]])
        start[2] = env.real('h2', -1, 1)
    res = go(use, grid)

    def at(p):
        x = list(start)
        for i, k in zip(order, range(n)):
            x[i] = grid[k][p[k]]
        return x
    compare(env, sw, res, lengths, neig, loss, lambda p, k: multilinear(env, 'f%d' % k, at(p)),
            lambda p, c: multilinear(env, 'r' + c, at(p)))


REAL = [('fluxonium', [2], [0], None, [2]), ('two fluxoniums', [2, 1], [1, 0], None, [2, 1]), ('transmon', [2], None, [1], [2]),
        ('fluxonium-transmon', [2, 2], [0], None, [2]), ('two transmons', [2, 1], None, [2, 1], [1, 2]),
        ('fluxonium-transmon', [1, 2], None, [2], [2])]


def same(env, a, b):
    if env.symbolic:
        return all(env.core.eq0(env.core.lift(x) - y) is True for x, y in zip(a.ravel(), b.ravel()))
    return abs(a - b).max() <= 1e-9 * abs(a).max()


@harness(HARNESSES, each=REAL, cost=3)
def complete(env, case):
    """With the real formulas: every entry is what the circuit gives when it is set to that point directly."""
    name, trunc, loops, modes, lengths = case
    both_engines(env)
    if env.symbolic:
        env.core.ABS_TERMS = 1
    grid = [[env.real('g%d_%d' % (i, k), -1, 1) for k in range(n)] for i, n in enumerate(lengths)]
    A = hmodel.build(env, name, trunc, simple=True, symbolic_c=False)
    B = hmodel.build(env, name, trunc, simple=True, symbolic_c=False)
    d = 1
    for x in A.m:
        d *= x
    V = [[env.real('v%d_%d' % (k, i), -1, 1) for i in range(d)] for k in range(2)]
    seen = []

    def stub(H, k, which):
        # arbitrary function of the matrix
        H = env.arr(H.toarray() if hasattr(H, 'toarray') else H)
        for i, old in enumerate(seen):
            if same(env, H, old):
                break
        else:
            i = len(seen)
            seen.append(H)
        return [env.real('E%d_%d' % (q, i), 1e10 * (1 + 5 * q), 1e10 * (2 + 5 * q)) for q in range(2)], V
    hmodel.stub_eigs(env, stub)
    sw = Sweep(A.cr, 2, ['efreq', 'loss'])
    quasi = not any(A.charge)
    if not quasi or settings.get_optim_mode():
        sw.dec = {k: None for k in CHANNELS if k != 'quasiparticle'}
    if loops is not None:
        f, dec = sw.sweepFlux([A.loops[i] for i in loops], grid)
    else:
        f, dec = sw.sweepCharge(modes, grid)
    for p in points(lengths):
        for i, k in enumerate(p):
            if loops is not None:
                B.loops[loops[i]].set_flux(grid[i][k])
            else:
                B.cr.set_charge_offset(modes[i], grid[i][k])
        w, _ = B.cr.diag(2)
        for q in range(2):
            env.eq('frequency', f[(q,) + p], num(env, w[q]), rtol=1e-9)
        for c in sw.dec:
            env.eq('rate ' + c, dec[c][p], num(env, B.cr.dec_rate(c, (1, 0))), rtol=1e-7)
