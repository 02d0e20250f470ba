"""C16: truncation bookkeeping."""
from checks.common import *   # noqa: F401,F403
from checks import hmodel
from SQcircuit.exceptions import CircuitStateError

HARNESSES = []
BOUNDS = ('one to four modes in every mix of harmonic and charge modes; truncation numbers 1 to 40 (bookkeeping) and 1 to 4 (with '
          'operators); total dimensions K from 1 to 2000/5000/8000/10000 for 1/2/3/4 modes; complex eigenvectors with one to three '
          'modes of dimension up to 5 and block sizes 1 to 6; tensor indices of spaces with up to four modes of dimension up to 7')
ASSUMPTIONS = ['the floating-point root of an integer may be off by a relative error of 2^-50 in either direction',
               'the operators of large spaces are not built when the assigned truncation numbers are examined']


def kinds(n):
    """All mixes of mode kinds in the order a circuit has them (harmonic first)."""
    return [[k >= h for k in range(n)] for h in range(n + 1)]


def bare(env, charge):
    """A circuit with the given mode kinds whose operators are not built."""
    with env.numbers():
        cr = sq.Circuit({(0, 1): [sq.Capacitor(50, 'fF'), sq.Junction(9, 'GHz')]})
    n = len(charge)
    cr.n = n
    cr.omega = env.arr([0.0 if c else 1e9 * (2 + i) for i, c in enumerate(charge)])
    for name in ('_build_op_memory', '_get_LC_hamil', '_build_exp_ops'):
        if hasattr(cr, name):
            setattr(cr, name, lambda *a, **k: None)
    return cr


@harness(HARNESSES, each=[1, 2, 3, 4])
def numbers(env, n):
    """Assigned dimensions for all truncation numbers."""
    both_engines(env)
    charge = env.choice('kinds', kinds(n))
    cr = bare(env, charge)
    nums = [env.integer('N%d' % i, 2, 40) for i in range(n)]
    one = env.choice('one', range(n + 1))
    if one < n:
        nums[one] = 1
    cr.set_trunc_nums(list(nums))
    env.true('number of modes', len(cr.m) == n and len(cr.trunc_nums) == n)
    for i in range(n):
        env.eq('dimension %d' % i, cr.m[i], 2 * nums[i] - 1 if charge[i] else nums[i])
        env.eq('number %d' % i, cr.trunc_nums[i], nums[i])
    want = [(2 * nums[i] - 1 if charge[i] else nums[i]) for i in range(n) if i != one]
    env.true('squeezed', len(cr.ms) == len(want))
    for a, b in zip(cr.ms, want):
        env.eq('squeezed dimension', a, b)
    # again with other numbers
    new = [env.integer('M%d' % i, 2, 40) for i in range(n)]
    cr.set_trunc_nums(list(new))
    for i in range(n):
        env.eq('second dimension %d' % i, cr.m[i], 2 * new[i] - 1 if charge[i] else new[i])
        env.eq('second number %d' % i, cr.trunc_nums[i], new[i])


SHAPES = [('fluxonium', 1), ('transmon', 1), ('fluxonium-transmon', 2), ('two transmons', 2), ('two fluxoniums', 2), ('three', 3)]


@harness(HARNESSES, each=[s for s in SHAPES if s[1] < 3])
def rejected(env, case):
    """Wrong input leaves a circuit that is in use unchanged."""
    both_engines(env)
    name, n = case
    ts = [env.choice('t%d' % i, [2, 3]) for i in range(n)]
    M = hmodel.build(env, name, ts)
    cr = M.cr
    H = env.arr(cr.hamiltonian().full())
    m, tn = list(cr.m), list(cr.trunc_nums)
    for bad in [tuple(ts), ts + [2], ts[:-1], 3, None, 'ab'[:n], {0: 2}]:
        env.raises('input', ValueError, lambda: cr.set_trunc_nums(bad))
    for bad in [2.0, '9', None, 0, -4, [3], env.integer('K', -50, 0)]:
        env.raises('total', ValueError, lambda: cr.truncate_circuit(bad))
    env.true('dimensions', list(cr.m) == m and list(cr.trunc_nums) == tn)
    env.eq('operators', env.arr(cr.hamiltonian().full()), H)


@harness(HARNESSES, each=SHAPES, cost=2)
def operators(env, case):
    """The operators have the dimension that was set, also after a change of it."""
    both_engines(env)
    name, n = case
    M = hmodel.build(env, name)
    cr = M.cr
    hi = 2 if n == 3 or name == 'two fluxoniums' else 4
    for step in ('a', 'b'):
        nums = [env.choice('%s%d' % (step, i), range(1, hi + 1)) for i in range(n)] if step == 'a' or n < 2 else \
            [1 + (x + 1) % hi for x in nums]
        cr.set_trunc_nums(list(nums))
        m = [2 * x - 1 if M.charge[i] else x for i, x in enumerate(nums)]
        env.true('sizes', list(cr.m) == m and list(cr.trunc_nums) == nums)
        d = 1
        for x in m:
            d *= x
        H = cr.hamiltonian()
        env.true('dimension of the space', tuple(H.shape) == (d, d))
        M.m, M.ng = m, {i: 0 for i in range(n)}
        env.eq('Hamiltonian', env.arr(H.full()), env.arr(hmodel.Ops(env, M).hamiltonian()), rtol=1e-6)


LIMIT = {1: 2000, 2: 5000, 3: 8000, 4: 10000}


@harness(HARNESSES, each=[(str(n), n, k) for n in (2, 3, 4) for k in range(n + 1)], max_paths=4000, cost=3, validate=3)
def total(env, case):
    """Total dimension K."""
    _, n, k = case
    both_engines(env)
    charge = kinds(n)[k]
    cr = bare(env, charge)
    got = []
    cr.set_trunc_nums = lambda nums: got.append(nums)
    K = env.integer('K', 1, LIMIT[n])
    budgets = [K]
    if not env.symbolic:
        # the error of the root depends on the library: every perfect power is tried
        budgets += [k ** n + d for k in range(1, 101) for d in (-1, 0, 1) if 1 <= k ** n + d <= LIMIT[n]]
    for K in budgets:
        del got[:]
        out = cr.truncate_circuit(K)
        env.true('set once', len(got) >= 1 and list(got[-1]) == list(out) and len(out) == n)
        for i in range(n):
            t = out[i]
            if charge[i]:
                s = 2 * t - 1                # largest odd number <= m
                env.true('charge mode fits', s ** n <= K)
                env.true('charge mode is largest', (s + 2) ** n > K)
            else:
                env.true('mode fits', t ** n <= K)
                env.true('mode is largest', (t + 1) ** n > K)


@harness(HARNESSES)
def total_one(env):
    both_engines(env)
    charge = env.choice('kinds', kinds(1))
    cr = bare(env, charge)
    got = []
    cr.set_trunc_nums = lambda nums: got.append(nums)
    K = env.integer('K', 1, LIMIT[1] if not charge[0] else 60)
    out = cr.truncate_circuit(K)
    t = out[0]
    if charge[0]:
        env.true('charge mode', (2 * t - 1 <= K) & (2 * t + 1 > K) if env.symbolic else 2 * t - 1 <= K < 2 * t + 1)
    else:
        env.eq('states', t, K)
    env.true('set', len(got) == 1)


@harness(HARNESSES, each=SHAPES)
def total_used(env, case):
    """The assigned numbers are really used."""
    both_engines(env)
    name, n = case
    M = hmodel.build(env, name)
    cr = M.cr
    K = env.integer('K', 1, {1: 4 if name == 'fluxonium' else 9, 2: 16 if name != 'two fluxoniums' else 8, 3: 27 if env.thorough else 8}[n])
    out = cr.truncate_circuit(K)
    env.true('numbers', list(cr.trunc_nums) == list(out))
    d = 1
    for x in cr.m:
        d = d * x
    env.true('space', d <= K)
    env.true('operators', cr.hamiltonian().shape[0] == d)


CONV = [('fluxonium', [4]), ('transmon', [3]), ('fluxonium-transmon', [4, 2]), ('two fluxoniums', [3, 4]),
        ('fluxonium-transmon', [3, 1]), ('three', [2, 2, 3])]


@harness(HARNESSES, each=CONV)
def convergence(env, case):
    both_engines(env)
    name, trunc = case
    M = hmodel.plain(env, name, trunc)
    cr = M.cr
    for bad in (lambda: cr.check_convergence(), lambda: cr.check_convergence(0, 1, 1e-3)):
        env.raises('before diagonalization', CircuitStateError, bad)
    k = env.choice('vector', [0, 1, None])
    t = env.choice('t', [1, 2, 3, 6, None])
    threshold = env.real('threshold', 0, 1) if env.choice('threshold', [True, False]) else None
    E, V = hmodel.diagonalize(env, M, 2)
    kw = {}
    if k is not None:
        kw['eig_vec_idx'] = k
    if t is not None:
        kw['t'] = t
    if threshold is not None:
        kw['threshold'] = threshold
    ok, eps = cr.check_convergence(**kw)
    v = M.V[1 if k is None else k]
    tt = 10 if t is None else t
    inside = 0
    for i in range(M.d):
        rest, keep = i, True
        for m in reversed(M.m):
            keep = keep and rest % m < m - tt
            rest //= m
        if keep:
            inside = inside + v[i] * hmodel.conj(v[i])
    env.eq('weight outside', eps, 1 - inside, rtol=1e-9, scale=1)
    lim = 1e-5 if threshold is None else threshold
    if bool(ok):
        env.true('converged', eps < lim)
    else:
        env.true('not converged', eps >= lim)


DIMS = [[5], [2, 3], [3, 7], [1, 4], [4, 1], [2, 3, 4], [5, 2, 3], [1, 3, 2], [2, 3, 2, 4], [3, 1, 2, 2]]


@harness(HARNESSES, each=DIMS)
def index(env, dims):
    """Position in the product space to positions in the modes."""
    cr = bare(env, [False] * len(dims))
    cr.set_trunc_nums(list(dims))
    d = 1
    for x in dims:
        d *= x
    k = env.integer('index', 0, d - 1)
    f = getattr(cr, '_tensor_to_modes', None)
    if f is None:
        env.true('no such function', True)
        return
    out = f(k)
    env.true('number of modes', len(out) == len(dims))
    s = 0
    for x, m in zip(out, dims):
        env.true('range', (0 <= x) & (x < m))
        s = s * m + x
    env.eq('position', s, k)
