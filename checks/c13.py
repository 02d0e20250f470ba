"""C13: the NumPy and the PyTorch engine compute the same quantities."""
from checks.common import *   # noqa: F401,F403
from checks import hmodel, c09, c10, c15
from checks.hmodel import as_matrix
import SQcircuit.functions as sqf
import SQcircuit.exceptions as ex

HARNESSES = []
BOUNDS = ('elementary functions over their whole real (or complex) domain, matrix functions for up to 3x3 complex matrices; circuits with one to three modes, truncation numbers 1 to 3, '
          'zero to two loops: Hamiltonian, flux and charge operators, coupling operators, matrix elements, transition frequencies, the six decoherence rates and systems of two or three '
          'circuits, for all element values, mode coordinates, fluxes, offsets, eigenvalues and eigenvectors; complete construction for one node')
ASSUMPTIONS = ['transcendental functions are uninterpreted apart from the laws of the exponential and the logarithm; floating-point widths are not modelled in symbolic runs',
               'mode coordinates of circuits with several nodes are symbols or numbers (C04)', 'the eigensolver returns arbitrary eigenpairs',
               'modes that only the NumPy engine removes (they decouple from every junction) and the rounding function are outside the claim']
ENGINES = ('NumPy', 'PyTorch')


def each_engine(env, fn):
    """Results of fn under both engines; fn returns a list of (label, value)."""
    out = []
    for e in ENGINES:
        settings.set_engine(e)
        out.append(fn(env))
    a, b = out
    env.true('same quantities', [x[0] for x in a] == [x[0] for x in b])
    for (label, x), (_, y) in zip(a, b):
        x, y = value(env, x), value(env, y)
        env.true('shape of ' + label, tuple(getattr(x, 'shape', ())) == tuple(getattr(y, 'shape', ())))
        scale = 1. if env.symbolic else float(abs(env.np.asarray(x)).max()) if getattr(x, 'size', 1) else 0.
        env.eq(label, x, y, rtol=1e-7, scale=None if env.symbolic or getattr(x, 'ndim', 0) == 0 else scale)


def value(env, x):
    if hasattr(x, 'full'):
        return env.arr(x.full())
    if hasattr(x, 'detach'):
        x = x.detach()
        if not env.symbolic:
            x = x.resolve_conj()
        if hasattr(x, 'to_dense') and getattr(x, 'is_sparse', False):
            x = x.to_dense()
        x = mat(env, x) if x.ndim else num(env, x)
    return x


# -- elementary functions ----------------------------------------------------------------------------------------------
REAL = ['abs', 'cosh', 'exp', 'sinh', 'tanh', 'real', 'sum']
POSITIVE = ['log', 'sqrt', 'log_sinh', 'k0e', 'log_k0']


@harness(HARNESSES, each=[(n, 'real') for n in REAL] + [(n, 'positive') for n in POSITIVE] + [(n, 'complex') for n in ('real', 'imag', 'sum')], validate=6)
def elementary(env, case):
    name, domain = case
    fn = getattr(sqf, name)
    x = [env.real('x', -20, 20) if domain == 'real' else env.pos('x', 1e-3, 50) if domain == 'positive' else env.complex('x') for _ in range(1)]
    y = env.real('y', -20, 20) if domain == 'real' else env.pos('y', 1e-3, 50) if domain == 'positive' else env.complex('y')
    torch = env.torch
    dt = torch.complex128 if domain == 'complex' else torch.float64
    settings.set_engine(env.choice('engine', ENGINES))          # the type of the argument decides, not the engine
    tol = 1e-7 if name == 'log_sinh' else 1e-9
    a = fn(env.arr(x + [y]))
    b = fn(torch.as_tensor(env.arr(x + [y]), dtype=dt))
    env.true('tensor for tensor', hasattr(b, 'detach') and not hasattr(a, 'detach'))
    env.eq(name, value(env, b), a, rtol=tol, atol=1e-12)
    a0, b0 = fn(x[0]), fn(torch.as_tensor(x[0], dtype=dt))
    env.eq(name + ' of a number', value(env, b0), a0, rtol=tol, atol=1e-12)


@harness(HARNESSES, each=['maximum', 'minimum', 'pow', 'abs'], validate=8)
def pairs(env, name):
    torch = env.torch
    t = lambda x: torch.as_tensor(x, dtype=torch.float64)
    settings.set_engine(env.choice('engine', ENGINES))
    fn = getattr(sqf, name)
    if name == 'pow':
        x, k = env.pos('x', 0.1, 10), env.choice('power', [2, 3, -1, 0.5, 1])
        env.eq('pow', num(env, fn(t(x), k)), fn(x, k), rtol=1e-9)
        env.eq('pow value', fn(x, k), env.np.sqrt(x) if k == 0.5 else x ** k, rtol=1e-9)
        return
    if name == 'abs':
        z = env.complex('z')
        env.eq('modulus', num(env, fn(torch.as_tensor(z, dtype=torch.complex128))), fn(env.arr([z]))[0], rtol=1e-9)
        return
    a, b = env.real('a', -5, 5), env.real('b', -5, 5)
    r = fn(t(a), t(b))
    env.eq(name, num(env, r), fn(a, b), rtol=1e-12, atol=1e-12)
    up = a if name == 'maximum' else b
    lo = b if name == 'maximum' else a
    env.true(name + ' is one of both', bool(num(env, r) == a) or bool(num(env, r) == b))
    env.true(name + ' bounds', bool(num(env, r) >= a) and bool(num(env, r) >= b) if name == 'maximum' else bool(num(env, r) <= a) and bool(num(env, r) <= b))
    env.eq('equal arguments', num(env, fn(t(a), t(a))), a)


def matrix(env, name, n, m, cplx=True):
    return [[env.complex('%s%d%d' % (name, i, j)) if cplx else env.real('%s%d%d' % (name, i, j), -3, 3) for j in range(m)] for i in range(n)]


@harness(HARNESSES, each=['kron', 'block', 'diag', 'eye', 'product', 'inner', 'dagger', 'inverse', 'sparse'], validate=6)
def matrices(env, name):
    torch = env.torch
    A, B = matrix(env, 'a', 2, 2), matrix(env, 'b', 3, 3)
    C = matrix(env, 'c', 2, 2)
    v, w = [r[0] for r in matrix(env, 'v', 2, 1)], [r[0] for r in matrix(env, 'w', 2, 1)]

    def op(x):
        if settings.get_optim_mode():
            return torch.as_tensor(env.arr(x), dtype=torch.complex128)
        return env.Qobj(env.arr(x))

    def ket(x):
        return torch.as_tensor(env.arr(x), dtype=torch.complex128) if settings.get_optim_mode() else env.Qobj(env.arr([[y] for y in x]))

    def ar(x):
        return torch.as_tensor(env.arr(x), dtype=torch.complex128) if settings.get_optim_mode() else env.arr(x)

    def fn(env):
        if name == 'kron':
            return [('two', sqf.tensor_product(op(A), op(B))), ('three', sqf.tensor_product(op(A), op(C), op(A))), ('one', sqf.tensor_product(op(B)))]
        if name == 'block':
            return [('blocks', sqf.block_diag(ar(A), ar(B))), ('one block', sqf.block_diag(ar(B))), ('three', sqf.block_diag(ar(A), ar(C), ar(A)))]
        if name == 'diag':
            return [('diagonal', sqf.diag(ar(v))), ('of a matrix', sqf.diag(ar(A)))]
        if name == 'eye':
            return [('identity', sqf.eye(3)), ('zeros', sqf.zeros((2, 3))), ('zero', sqf.zero()), ('times', sqf.eye(2) * v[0]), ('array', sqf.array([v[0].real, w[0].real])),
                    ('copy', sqf.copy(op(A)))]
        if name == 'product':
            return [('product', sqf.mat_mul(op(A), op(C))), ('reversed', sqf.mat_mul(op(C), op(A)))]
        if name == 'inner':
            return [('inner product', sqf.operator_inner_product(ket(v), op(A), ket(w))), ('exchanged', sqf.operator_inner_product(ket(w), op(A), ket(v)))]
        if name == 'dagger':
            return [('adjoint', sqf.dag(op(A))), ('vector', sqf.dag(ar(v)))]
        if name == 'inverse':
            M = matrix(env, 'm', 2, 2, False)
            det = M[0][0] * M[1][1] - M[0][1] * M[1][0]
            env.assume(det > 0.1)
            x = env.arr(M) if not settings.get_optim_mode() else torch.as_tensor(env.arr(M), dtype=torch.float64)
            return [('inverse', sqf.mat_inv(x))]
        q = env.Qobj(env.arr([[A[0][0], 0, 0], [0, 0, A[0][1]], [A[1][0], 0, A[1][1]]]))
        out = []
        for lay in ('csr', 'dense'):
            x = q.to(lay)
            out.append((lay, sqf.qobj_to_tensor(x) if settings.get_optim_mode() else x))
            out.append((lay + ' dense', sqf.dense(sqf.qobj_to_tensor(x)) if settings.get_optim_mode() else sqf.dense(x)))
            out.append((lay + ' to numpy', sqf.to_numpy(x)))
        return out
    each_engine(env, fn)


# -- circuits ----------------------------------------------------------------------------------------------------------
def operators(env, case, **kw):
    M = hmodel.build(env, case[0], case[1], symbolic_c=True, **kw)
    hmodel.diagonalize(env, M, 2)
    cr = M.cr
    out = [('C', cr.C), ('Hamiltonian', cr.hamiltonian()), ('frequencies', cr.efreqs)]
    try:
        out.append(('matrix', cr.L))
    except AttributeError:
        pass
    for a in range(M.nodes + 1):
        for b in range(M.nodes + 1):
            if a != b:
                for t in ('capacitive', 'inductive'):
                    out.append(('%s %d%d' % (t, a, b), cr.coupling_op(t, (a, b))))
                    if b == 0 or (a, b) == (1, 2):
                        out.append(('element %s %d%d' % (t, a, b), cr.matrix_elements(t, (a, b), (0, 1))))
    for i in range(M.n):
        if M.charge[i]:
            out.append(('charge %d' % i, cr.charge_op(i + 1)))
            out.append(('charge %d in the eigenbasis' % i, cr.charge_op(i + 1, 'eig')))
    return out


CIRCUITS = [('fluxonium', [3]), ('transmon', [2]), ('squid', [2]), ('fluxonium squid', [2]), ('resonator', [3]), ('fluxonium-transmon', [2, 2]), ('two transmons', [2, 1]),
            ('two fluxoniums', [2, 2]), ('floating loop', [2, 1]), ('three junctions', [1, 2]), ('loop through two nodes', [2, 1]), ('three', [2, 1, 1]), ('three transmons', [1, 2, 1])]


@harness(HARNESSES, each=CIRCUITS, validate=3, cost=2)
def circuits(env, case):
    each_engine(env, lambda env: operators(env, case))


def relaxation(env, case, kind, simple):
    loss = c09.Loss(env)
    M = c09.setup(env, case[0], case[1], loss, simple=simple)
    return [('%s %s %s' % (kind, st, tot), M.cr.dec_rate(kind, st, total=tot)) for st in ((0, 1), (1, 0)) for tot in (True, False)]


@harness(HARNESSES, each=[('fluxonium', [2]), ('transmon', [2]), ('fluxonium squid', [2]), ('resonator', [2])], validate=3, cost=2)
def relaxation_one(env, case):
    kind = env.choice('kind', c09.kinds_of(case[0]))
    each_engine(env, lambda env: relaxation(env, case, kind, False))


@harness(HARNESSES, each=[('fluxonium-transmon', [2, 1]), ('two fluxoniums', [2, 1]), ('loop through two nodes', [2, 1]), ('two transmons', [2, 1])], validate=3, cost=3)
def relaxation_two(env, case):
    kind = env.choice('kind', c09.kinds_of(case[0]))
    each_engine(env, lambda env: relaxation(env, case, kind, True))


def dephasing(env, case, kind):
    M, amp, fac = c10.setup(env, case, 'constructor')
    return [('%s %s' % (kind, st), M.cr.dec_rate(kind, st)) for st in ((0, 1), (1, 0))]


@harness(HARNESSES, each=[('fluxonium', [2]), ('transmon', [2]), ('squid', [2]), ('fluxonium-transmon', [2, 1]), ('two fluxoniums', [1, 2]), ('two transmons', [2, 1]), ('three junctions', [1, 2])],
         validate=3, cost=3)
def dephasing_rates(env, case):
    if env.symbolic:
        env.core.ABS_TERMS = 0
    kind = env.choice('kind', c10.kinds(case[0]))
    each_engine(env, lambda env: dephasing(env, case, kind))


def composite(env, name):
    parts, couples, objs = c15.system(env, name, numeric=True)
    s = c15.System(objs)
    return [('capacitances', s.cap_matrix()), ('Hamiltonian', s.hamiltonian())]


@harness(HARNESSES, each=['two one-node circuits', 'parallel couplings', 'two and two nodes', 'order of appearance', 'chain'], validate=3, cost=3)
def systems(env, name):
    each_engine(env, lambda env: composite(env, name))


# -- complete construction ---------------------------------------------------------------------------------------------
@harness(HARNESSES, each=['transmon', 'fluxonium', 'split'], validate=4, cost=4)
def construction(env, kind):
    c, j, x = env.pos('c', 1, 1000), env.pos('j', 1, 100), env.real('x', -1, 1)
    l = env.pos('l', 1, 1000)

    def fn(env):
        loop = sq.Loop(x)
        if kind == 'transmon':
            els = {(0, 1): [sq.Capacitor(c, 'fF'), sq.Junction(j, 'GHz')]}
        elif kind == 'split':
            els = {(0, 1): [sq.Capacitor(c, 'fF'), sq.Junction(j, 'GHz', loops=[loop]), sq.Junction(7., 'GHz', loops=[loop])]}
        else:
            els = {(0, 1): [sq.Capacitor(c, 'fF'), sq.Junction(j, 'GHz', loops=[loop]), sq.Inductor(l, 'nH', loops=[loop])]}
        cr = sq.Circuit(els, flux_dist='junctions')
        cr.set_trunc_nums([2])
        if kind != 'fluxonium':
            cr.set_charge_offset(1, env.real('ng', -1, 1))
        return [('C', cr.C), ('Hamiltonian', cr.hamiltonian()), ('capacitive', cr.coupling_op('capacitive', (0, 1))), ('inductive', cr.coupling_op('inductive', (0, 1)))]
    each_engine(env, fn)


@harness(HARNESSES, each=[('fluxonium-transmon', [2, 1]), ('two fluxoniums', [2, 2]), ('three junctions', [1, 2]), ('loop through two nodes', [2, 1])], validate=4, cost=4)
def two_nodes(env, case):
    dist = env.choice('distribution', ['junctions', 'inductors', 'all']) if case[0] != 'three junctions' else 'junctions'

    def fn(env):
        M = hmodel.plain(env, case[0], case[1], dist)
        for k, lp in enumerate(M.loops):
            lp.set_flux(env.real('x%d' % k, -1, 1))
        k = 0
        for els in M.cr.elements.values():
            for el in els:
                if isinstance(el, sq.Junction):
                    el.set_value(env.pos('j%d' % k, 1, 100), 'GHz')
                    k += 1
        return [('C', M.cr.C), ('Hamiltonian', M.cr.hamiltonian())]
    each_engine(env, fn)


# -- what needs a particular engine --------------------------------------------------------------------------------------
@harness(HARNESSES, each=['C', 'L', 'J', 'loop'], validate=2)
def gradient_access(env, kind):
    v = env.pos('v', 1, 100)

    def make():
        return {'C': lambda: sq.Capacitor(v, 'fF'), 'L': lambda: sq.Inductor(v, 'nH'), 'J': lambda: sq.Junction(v, 'GHz'), 'loop': lambda: sq.Loop(v)}[kind]()
    settings.set_engine('NumPy')
    el = make()

    def put(name, x):
        setattr(el, name, x)
    for name in ('requires_grad', 'grad', 'is_leaf'):
        env.raises('reading ' + name, ex.ModeError, lambda name=name: getattr(el, name))
    env.raises('setting requires_grad', ex.ModeError, lambda: put('requires_grad', True))
    env.raises('setting grad', ex.ModeError, lambda: put('grad', None))
    settings.set_engine('PyTorch')
    el = make()
    env.true('no gradient by default', not el.requires_grad)
    el.requires_grad = True
    env.true('gradient required', bool(el.requires_grad))
    env.true('leaf', bool(el.is_leaf))
    env.true('no gradient yet', el.grad is None)


@harness(HARNESSES, validate=2)
def parameter_access(env):
    c, j = env.pos('c', 1, 100), env.pos('j', 1, 100)
    settings.set_engine('NumPy')
    cr = sq.Circuit({(0, 1): [sq.Capacitor(c, 'fF'), sq.Junction(j, 'GHz')]})
    for name in ('parameters', 'parameters_grad', 'parameters_dict', 'parameters_elems'):
        env.raises(name, ex.ModeError, lambda name=name: getattr(cr, name))
    env.raises('setting parameters', ex.ModeError, lambda: setattr(cr, 'parameters', []))
    env.raises('types', ex.ModeError, cr.get_params_type)
    env.raises('zero_grad', ex.ModeError, cr.zero_grad)
