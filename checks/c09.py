"""C09: depolarization rates: golden rule, detailed balance, loss models."""
from checks.common import *   # noqa: F401,F403
from checks import hmodel
from checks.hmodel import Ops, expect

HARNESSES = []
BOUNDS = ('one and two modes, truncation numbers 2 to 3, two eigenstates with arbitrary complex components, transition frequency in '
          '[1e9, 1e11] rad/s and temperature in [1 mK, 1 K] and separately the range where exp would overflow; all element values, quality factors and '
          'admittances symbolic; shared and parallel elements; both engines; the default loss models for all frequencies and temperatures')
ASSUMPTIONS = ['mode coordinates are symbols (one node) or fixed numbers (two nodes: transformation and capacitance matrix; the general '
               'operators are C08)', 'quasiparticle rates for circuits without charge modes',
               'Bessel functions are uninterpreted except for their scaling', 'exponentials are uninterpreted positive functions that '
               'respect sums in the exponent']


def mod2(x):
    return x.real * x.real + x.imag * x.imag if hasattr(x, 'imag') else x * x


def thermal(env, omega, T, direction):
    a = env.const('hbar') * omega / (env.const('k_B') * T)
    np = env.np
    x = np.exp(-a)
    down = 2 / (1 - x)                         # 1 + coth(a/2)
    return {'down': down, 'up': down * x, 'total': down + down * x}[direction]


class Loss:
    """Quality factors handed to the elements; remembers the arguments they are called with."""

    def __init__(self, env, kinds=None, none=(), nan=()):
        self.env, self.none, self.nan = env, none, nan
        self.kinds = kinds
        self.calls = []
        self.q = {}

    def __call__(self, kind, k):
        if (kind, k) in self.none:
            return None
        q = float('nan') if (kind, k) in self.nan else self.env.pos('q_%s%d' % (kind, k), 1, 1e6)
        self.q[kind, k] = None if (kind, k) in self.nan else q

        def f(*args):
            self.calls.append((kind, args))
            if settings.get_optim_mode():
                return self.env.torch.as_tensor(q, dtype=self.env.torch.float64)
            return q
        return f


def setup(env, shape, trunc, loss, simple, overflow=False, **kw):
    T = env.pos('T', 1e-4, 1e-3) if overflow else env.pos('T', 1e-3, 1)
    noise.set_temp(T)
    M = hmodel.build(env, shape, trunc, loss=loss, simple=simple, cap_values=True, **kw)
    hmodel.diagonalize(env, M, 2, gap=(1e11, 1e13) if overflow else (1e9, 1e10))
    M.T = T
    M.omega = env.pos('dE1', *((1e11, 1e13) if overflow else (1e9, 1e10)))
    return M


def rate(env, M, loss, kind, total_only=False):
    O = Ops(env, M)
    V = M.V
    s = 0
    items = []
    done = []
    for it in M.items:
        if kind == 'capacitive':
            if it['kind'] == 'C':
                items.append((('C', it['idx']), it['v'], it))
            else:
                items.append(((it['kind'] + 'cap', it['idx']), it['cap'], it))
        elif kind == 'inductive' and it['kind'] == 'L':
            items.append((('L', it['idx']), it['v'], it))
        elif kind == 'quasiparticle' and it['kind'] == 'J':
            items.append((('J', it['idx']), it['v'], it))
    first = {}
    for key, v, it in items:
        el = it['el'] if key[0] in 'CLJ' else it['el'].cap
        key = first.setdefault(id(el), key)
        q = loss.q.get(key)
        if q is None:
            continue
        if kind == 'capacitive':
            s = s + v / q * mod2(expect(V[0], O.voltage(it['edge']), V[1]))
        elif kind == 'inductive':
            s = s + 1 / (q * v) * mod2(expect(V[0], O.edge_flux(it['edge']), V[1]))
        else:
            s = s + q * M.omega * v * env.const('hbar') * mod2(expect(V[0], O.sin_half(it), V[1]))
    return s


def compare(env, M, loss, kind, overflow=False):
    base = rate(env, M, loss, kind)
    cr = M.cr
    if overflow:
        a = env.const('hbar') * M.omega / (env.const('k_B') * M.T)
        env.assume(a > 710)
        f = dict(down=2, up=0, total=2)
    else:
        f = {d: thermal(env, M.omega, M.T, d) for d in ('down', 'up', 'total')}
    got = {}
    for label, st, tot, d in (('down', (1, 0), False, 'down'), ('up', (0, 1), False, 'up'), ('total', (0, 1), True, 'total'),
                              ('total reversed', (1, 0), True, 'total')):
        got[label] = num(env, cr.dec_rate(kind, st, total=tot))
        env.eq('%s %s' % (kind, label), got[label], f[d] * base, rtol=1e-6)
    if not overflow:
        a = env.const('hbar') * M.omega / (env.const('k_B') * M.T)
        env.eq('%s detailed balance' % kind, got['up'], got['down'] * env.np.exp(-a), rtol=1e-6)
    for kd, args in loss.calls:
        env.eq('frequency argument of %s' % kd, num(env, args[0]), M.omega, rtol=1e-6)
        if len(args) > 1:
            env.eq('temperature argument of %s' % kd, num(env, args[1]), M.T)


SMALL = [('fluxonium', [3]), ('transmon', [2]), ('squid', [2]), ('fluxonium squid', [2]), ('resonator', [3])]
TWO = [('fluxonium-transmon', [2, 2]), ('two fluxoniums', [2, 2]), ('two transmons', [2, 1]), ('loop through two nodes', [2, 2]),
       ('floating loop', [2, 2])]


def kinds_of(shape):
    k = ['capacitive']
    if any(x == 'L' for els in hmodel.SHAPES[shape].values() for x, _ in els):
        k.append('inductive')
    if any(x == 'J' for els in hmodel.SHAPES[shape].values() for x, _ in els) and shape not in (
            'transmon', 'squid', 'fluxonium-transmon', 'two transmons', 'three junctions'):
        k.append('quasiparticle')
    return k


@harness(HARNESSES, cost=3, validate=3, each=SMALL)
def one_mode(env, case):
    both_engines(env)
    shape, t = case
    kind = env.choice('kind', kinds_of(shape))
    loss = Loss(env)
    M = setup(env, shape, t, loss, simple=False)
    compare(env, M, loss, kind)


@harness(HARNESSES, cost=5, validate=3, each=TWO)
def two_modes(env, case):
    both_engines(env)
    shape, t = case
    kind = env.choice('kind', kinds_of(shape))
    loss = Loss(env)
    M = setup(env, shape, t, loss, simple=True)
    compare(env, M, loss, kind)


@harness(HARNESSES, validate=4)
def overflow(env):
    both_engines(env)
    shape, t = env.choice('case', [('fluxonium', [2]), ('transmon', [2])])
    kind = env.choice('kind', kinds_of(shape))
    loss = Loss(env)
    M = setup(env, shape, t, loss, simple=True, overflow=True)
    compare(env, M, loss, kind, overflow=True)


@harness(HARNESSES, validate=3, cost=2, each=[
        ('capacitive', [('C', 0)], []), ('capacitive', [('Jcap', 0), ('Lcap', 1)], []), ('capacitive', [('C', 1), ('C', 2)], []),
        ('inductive', [], [('L', 0)]), ('inductive', [], [('L', 1)]), ('quasiparticle', [], [('J', 0)]), ('quasiparticle', [], [('J', 1)])])
def lossless(env, case):
    """Elements without quality factor, or with an undefined one, contribute nothing."""
    both_engines(env)
    kind, none, nan = case
    loss = Loss(env, none=none, nan=nan)
    M = setup(env, 'two fluxoniums', [2, 2], loss, simple=True)
    compare(env, M, loss, kind)


@harness(HARNESSES, validate=4)
def shared(env):
    """One element object at two places counts twice."""
    both_engines(env)
    shape, t, sh, kind = env.choice('case', [
        ('two transmons', [2, 1], 'C', 'capacitive'), ('two transmons', [2, 2], 'J', 'capacitive'),
        ('loop through two nodes', [2, 2], 'L', 'inductive')])
    loss = Loss(env)
    M = setup(env, shape, t, loss, simple=True, shared=sh)
    compare(env, M, loss, kind)


@harness(HARNESSES)
def unknown_kind(env):
    both_engines(env)
    loss = Loss(env)
    M = setup(env, 'fluxonium', [2], loss, simple=True)
    env.raises('unknown rate', ValueError, lambda: M.cr.dec_rate('dielectric', (0, 1)))


@harness(HARNESSES, validate=6)
def default_models(env):
    """Default quality factors and admittance."""
    e = both_engines(env)
    w, T = env.pos('w', 1e7, 1e12), env.pos('T', 1e-3, 1)
    np = env.np
    wx = env.torch.as_tensor(w, dtype=env.torch.float64) if e == 'PyTorch' else w
    h, kb, pi = env.const('hbar'), env.const('k_B'), env.pi
    q = num(env, sq.Capacitor(1, 'fF').Q(wx))
    env.eq('capacitor', q, 1e6 * (2 * pi * 6e9 / w) ** 0.7, rtol=1e-8)
    al, be = h * pi * 0.5e9 / (kb * T), h * w / (2 * kb * T)

    def k0(x):                                    # K0(x) sinh(x)
        return env.func('k0e', x) * (1 - np.exp(-2 * x)) / 2
    q = num(env, sq.Inductor(1, 'nH').Q(wx, T))
    env.eq('inductor', q, 500e6 * k0(al) / k0(be), rtol=1e-6)
    delta, x = env.pos('delta', 1e-5, 1e-3), env.pos('xqp', 1e-9, 1e-5)
    d = delta * 1.6e-19
    y = num(env, sq.Junction(1, 'GHz', delta=delta, x=x).Y(wx, T))
    want = np.sqrt(2 / pi) * (8 / d / (h * 2 * pi / env.const('e') ** 2)) * (2 * d / h / w) ** 1.5 * x * np.sqrt(be) * k0(be)
    env.eq('junction', y, want, rtol=1e-6)
