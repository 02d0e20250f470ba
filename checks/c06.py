"""C06: changing a circuit is equivalent to building it anew."""
import contextlib
from checks.common import *   # noqa: F401,F403
from checks import hmodel
from checks.hmodel import as_matrix

HARNESSES = []
BOUNDS = ('all histories of three operations (four in the thorough tier) out of: set the flux of a loop, set an offset, set the truncation numbers, '
          'set an element or attached capacitor (with update()), update() alone, diagonalize and ask for rates and derivatives, read '
          'operators; arbitrary values in every operation (capacitors and inductors of circuits with inductors or two modes from a list of numbers in histories longer than two), circuits with '
          'one and two modes, with a removed mode (histories of two), truncation numbers 1 to 2, both engines')
ASSUMPTIONS = ['the sparse eigensolver is replaced by arbitrary eigenpairs, the same for both circuits',
               'one mode: everything symbolic, including the coordinate transformation (with an inductor: for histories of two operations); otherwise the '
               'transformation is computed with ordinary numbers']
NUMBERS = {'C': [50., 61., 47.], 'L': [120., 95., 140.], 'K': [3., 5., 8.]}


class Circ:
    """Circuit of a shape built by the constructors from the given values."""

    def __init__(self, env, shape, vals, flux, flux_dist, grad, shared=(), share_cap=False):
        self.env, self.shape = env, shape
        caps = []

        def attached(key):
            if share_cap and caps:
                return caps[0]
            caps.append(sq.Capacitor(vals[key], 'fF', Q=1e5, **g))
            return caps[-1]
        self.loops = [sq.Loop(0) for _ in flux]
        for lp, f in zip(self.loops, flux):
            lp.set_flux(f)
        cnt = dict(C=0, J=0, L=0)
        elements = {}
        self.el = {}
        g = dict(requires_grad=True) if grad else {}
        for edge, els in hmodel.SHAPES[shape].items():
            elements[edge] = lst = []
            for letter, lp in els:
                k = cnt[letter]
                cnt[letter] += 1
                loops = [self.loops[i] for i in lp]
                if letter in shared and k:
                    el = self.el[letter, 0]
                elif letter == 'C':
                    el = sq.Capacitor(vals['C', k], 'fF', Q=1e6, **g)
                elif letter == 'L':
                    cap = attached(('LK', k))
                    el = sq.Inductor(vals['L', k], 'nH', cap=cap, loops=loops, Q=1e7, **g)
                    self.el['LK', k] = cap
                else:
                    cap = attached(('JK', k))
                    el = sq.Junction(vals['J', k], 'GHz', cap=cap, loops=loops, Y=lambda omega, T: 1e3, **g)
                    self.el['JK', k] = cap
                if letter not in shared or not k:
                    self.el[letter, k] = el
                lst.append(el)
        self.cr = sq.Circuit(elements, flux_dist)


UNIT = {'C': 'fF', 'LK': 'fF', 'JK': 'fF', 'L': 'nH', 'J': 'GHz'}


def numeric(shape, charge, flux_dist='junctions'):
    """Capacitors and inductors are ordinary numbers (the transformation is computed with them)."""
    return len(charge) > 1 or shape == 'fluxonium' or shape.startswith('removed')


class Run:
    compare_parameters = True

    def __init__(self, env, shape, charge, grad=False, flux_dist='junctions', shared=(), share_cap=False, nums=None):
        self.nums = numeric(shape, charge, flux_dist) if nums is None else nums
        self.how = dict(shared=shared, share_cap=share_cap)
        self.env, self.shape, self.charge, self.flux_dist = env, shape, charge, flux_dist
        self.two = len(charge) > 1
        self.grad = grad
        keys = []
        cnt = dict(C=0, J=0, L=0)
        nl = 0
        for els in hmodel.SHAPES[shape].values():
            for letter, lp in els:
                k = cnt[letter]
                cnt[letter] += 1
                keys.append((letter, k))
                if letter != 'C':
                    keys.append((letter + 'K', k))
                nl = max([nl] + [i + 1 for i in lp])
        self.vals = {k: self.value(k, 0) for k in keys}
        self.flux = [env.real('f%d' % i, -1, 1) for i in range(nl)]
        self.ng = {i: env.real('ng%d' % i, -1, 1) for i, c in enumerate(charge) if c}
        self.trunc = [2] * len(charge) if not self.two else [2, 1]
        self.fresh_flux = {}

    def value(self, key, step):
        """Value of an element in a step (0: initially)."""
        kind, k = key
        name = '%s%d_%d' % (kind, k, step)
        if kind == 'J':
            return self.env.pos(name, 1, 100)
        if self.nums:
            return NUMBERS['K' if kind in ('LK', 'JK') else kind][(k + step) % 3] + step
        return self.env.pos(name, 1, 1000)

    def create(self, offsets_first=True):
        c = Circ(self.env, self.shape, self.vals, self.flux, self.flux_dist, self.grad, **self.how)
        for i, x in self.ng.items():
            c.cr.set_charge_offset(i + 1, x)
        c.cr.set_trunc_nums(list(self.trunc))
        return c

    def stub(self, tag):
        env = self.env
        d = 1
        for t, c in zip(self.trunc, self.charge):
            d *= 2 * t - 1 if c else t
        E = [env.real('E0' + tag, -1e11, 1e11)]
        E.append(E[0] + env.pos('dE' + tag, 1e9, 1e11))
        V = [[env.real('v%d_%d%s' % (k, i, tag), -1, 1) if i == k % d or tag == '' else (1 + i + 2 * k) / 8 for i in range(d)] for k in range(2)]
        if d == 1:
            raise AssertionError('nothing to diagonalize')
        hmodel.stub_eigs(env, lambda A, k, which: (E, V))

    def channels(self):
        return ['capacitive', 'charge', 'cc', 'flux'] + (['inductive', 'quasiparticle'] if not any(self.charge) else [])

    def apply(self, c, op, step):
        env = self.env
        kind = op[0]
        if kind == 'flux':
            self.flux[op[1]] = x = env.real('f%d_%d' % (op[1], step), -1, 1)
            c.loops[op[1]].set_flux(x)
        elif kind == 'offset':
            self.ng[op[1]] = x = env.real('ng%d_%d' % (op[1], step), -1, 1)
            c.cr.set_charge_offset(op[1] + 1, x)
        elif kind == 'trunc':
            self.trunc = list(op[1])
            c.cr.set_trunc_nums(list(op[1]))
        elif kind == 'value':
            for key in op[1:]:
                x = self.value(key, step)
                for k in self.vals:
                    if k == key or (self.how['share_cap'] and key[0].endswith('K') and k[0].endswith('K')):
                        self.vals[k] = x
                c.el[key].set_value(x, UNIT[key[0]])
                if self.grad:
                    c.el[key].requires_grad = True
            c.cr.update()
        elif kind == 'update':
            c.cr.update()
        elif kind == 'diag':
            self.stub('_%d' % step)
            c.cr.diag(2)
            for ch in self.channels():
                c.cr.dec_rate(ch, (0, 1))
            for key, el in c.el.items():
                c.cr.get_partial_omega(el, 1)
        elif kind == 'read':
            c.cr.hamiltonian()
            c.cr.hamiltonian()
            for ct in ('capacitive', 'inductive'):
                c.cr.coupling_op(ct, (0, 1))

    def compare(self, a, b):
        env = self.env
        tol = dict(rtol=1e-9)

        def same(label, x, y):
            x, y = as_matrix(env, x), as_matrix(env, y)
            env.eq(label, x, y, scale=None if env.symbolic else abs(y).max(), **tol)
        env.true('modes', a.cr.n == b.cr.n and a.cr.m == b.cr.m and a.cr.trunc_nums == b.cr.trunc_nums)
        same('hamiltonian', a.cr.hamiltonian(), b.cr.hamiltonian())
        for ct in ('capacitive', 'inductive'):
            for nodes in [(0, 1)] + ([(1, 2)] if self.two else []):
                same('coupling ' + ct, a.cr.coupling_op(ct, nodes), b.cr.coupling_op(ct, nodes))
        for i in range(len(self.charge)):
            same('charge', a.cr.charge_op(i + 1), b.cr.charge_op(i + 1))
        if settings.get_optim_mode() and self.compare_parameters:
            pa, pb = a.cr.parameters_elems, b.cr.parameters_elems
            env.true('parameters', [[k for k, e in a.el.items() if e is x] for x in pa] == [[k for k, e in b.el.items() if e is x] for x in pb]
                     and len(pa) == len(pb))
            for x, y in zip(a.cr.parameters, b.cr.parameters):
                env.eq('parameter', num(env, x), num(env, y), **tol)
        self.stub('')
        wa = a.cr.diag(2)[0]
        wb = b.cr.diag(2)[0]
        env.eq('frequency', num(env, wa[1]), num(env, wb[1]), **tol)
        for key in a.el:
            for m in (0, 1):
                x, y = [num(env, c.cr.get_partial_omega(c.el[key], m, subtract_ground=False)) for c in (a, b)]
                env.eq('derivative %s%d' % key, x, y, rtol=1e-7)
        for i in range(len(self.flux)):
            x, y = [num(env, c.cr.get_partial_omega(c.loops[i], 1, subtract_ground=False)) for c in (a, b)]
            env.eq('derivative loop', x, y, rtol=1e-7)
        for ch in self.channels():
            x, y = [num(env, c.cr.dec_rate(ch, (0, 1))) for c in (a, b)]
            env.eq('rate ' + ch, x, y, rtol=1e-7)


def operations(shape, charge):
    """Operations of a circuit."""
    keys, cnt, nl = [], dict(C=0, J=0, L=0), 0
    for els in hmodel.SHAPES[shape].values():
        for letter, lp in els:
            keys.append((letter, cnt[letter]))
            cnt[letter] += 1
            nl = max([nl] + [i + 1 for i in lp])
    ops = [('flux', i) for i in range(nl)]
    ops += [('offset', i) for i, c in enumerate(charge) if c]
    ops += [('trunc', [1, 2] if len(charge) > 1 else [3] if shape in ('fluxonium', 'removed mode') else [2])]
    two = len(charge) > 1
    ops += [('value', k) for k in keys if k[0] == 'J' and k[1] == 0]
    ops += [('value', k) for k in keys if k[0] == 'L'][-1:]
    ops += [('value', k) for k in keys if k[0] == 'C'][:1]
    ops += [('value', [(k[0] + 'K', k[1]) for k in keys if k[0] == 'J'][-1])]
    ops += [('update',), ('diag',)]
    if not two:
        ops += [('read',)]
    return ops


CASES = [('fluxonium', [False], 'junctions'), ('transmon', [True], 'junctions'), ('fluxonium', [False], 'all'), ('squid', [True], 'junctions'),
         ('fluxonium-transmon', [False, True], 'junctions'), ('two fluxoniums', [False, False], 'inductors'), ('two transmons', [True, True], 'junctions')]
SPLIT = [(c[0], c[1], c[2], e, op) for c in CASES for op in operations(c[0], c[1]) for e in ('NumPy', 'PyTorch')]


def run(env, case, length, nums=None, ops=None):
    shape, charge, fd, eng, first = case
    engine(env, eng)
    if env.symbolic:
        env.core.ABS_TERMS = 0
    if nums is None:
        nums = numeric(shape, charge, fd)
    with env.numbers() if nums else contextlib.nullcontext():
        R = Run(env, shape, charge, grad=eng == 'PyTorch', flux_dist=fd, nums=nums)
        a = R.create()
        ops = ops or operations(shape, charge)
        R.apply(a, first, 1)
        for k in range(2, length + 1):
            op = env.choice('op%d' % k, ops + [None] if k == length else ops)
            if op is not None:
                R.apply(a, op, k)
        R.compare(a, R.create())


SHORT = ('squid', 'two transmons')


def short(c):
    return c[0] in SHORT or c[2] == 'all' or c[0] == 'fluxonium' and len(c) > 3 and c[3] == 'PyTorch'


@harness(HARNESSES, validate=2, max_paths=3000, each=[c for c in SPLIT if not short(c)])
def histories(env, case):
    run(env, case, 3)


@harness(HARNESSES, validate=2, max_paths=3000, each=[(c[0] + ' ' + e, c[1], c[2], e, op) for c in CASES if short(c) or c[0] == 'fluxonium'
                                                     for e in ('NumPy', 'PyTorch') for op in [None]])
def short_histories(env, case):
    """Two operations."""
    shape = case[0].rsplit(' ', 1)[0]
    op = env.choice('op1', operations(shape, case[1]))
    run(env, (shape,) + case[1:4] + (op,), 2)


REMOVED = [('removed mode', [False], 'junctions', 'NumPy'), ('removed first', [True], 'junctions', 'NumPy')]


@harness(HARNESSES, validate=2, max_paths=3000, each=[c + (op,) for c in REMOVED for op in operations(c[0], c[1]) if op[0] != 'read'])
def removed_mode(env, case):
    """A mode without coupling to a junction has been removed."""
    run(env, case, 2)


ONE_MODE = [op for op in operations('fluxonium', [False]) if op[0] != 'trunc']


@harness(HARNESSES, validate=2, max_paths=3000, each=[('NumPy', op) for op in ONE_MODE])
def symbolic_transformation(env, case):
    """Two operations, everything symbolic."""
    run(env, ('fluxonium', [False], 'junctions', case[0], case[1]), 2, nums=False, ops=ONE_MODE)


@harness(HARNESSES, validate=2, max_paths=3000, tier='thorough', each=[('PyTorch', op) for op in operations('fluxonium', [False])])
def symbolic_transformation_torch(env, case):
    run(env, ('fluxonium', [False], 'junctions', case[0], case[1]), 2, nums=False)


@harness(HARNESSES, validate=2, max_paths=3000, tier='thorough', each=[c for c in SPLIT if short(c)])
def histories_of_more_circuits(env, case):
    run(env, case, 3)


@harness(HARNESSES, validate=2, max_paths=30000, tier='thorough', each=[c for c in SPLIT if c[0] in ('transmon', 'fluxonium') and not short(c)])
def longer_histories(env, case):
    run(env, case, 4)
