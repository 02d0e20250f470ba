"""C10: dephasing rates."""
from checks.common import *   # noqa: F401,F403
from checks import hmodel
from checks.hmodel import Ops, expect, madd, mscale

HARNESSES = []
BOUNDS = ('1 to 3 modes, truncation numbers 1 to 3, two eigenstates with arbitrary complex components, all element values, fluxes, offsets, noise '
          'amplitudes and environment settings symbolic; up to two loops and three charge modes; shared and parallel junctions; both engines')
ASSUMPTIONS = ['the sparse eigensolver is replaced by arbitrary eigenpairs', 'transformation matrices are numbers for several modes '
               '(the general derivatives are C11)', 'the logarithm is uninterpreted']


class Amp:
    def __init__(self, env, how):
        self.env, self.how = env, how
        self.a = {}

    def __call__(self, kind, k):
        v = self.env.pos('A_%s%d' % (kind, k), 1e-9, 1e-2)
        if kind == 'J' and k not in self.a:
            self.a[kind, k] = v
            return v
        self.a[kind, k] = v
        return v if self.how == 'constructor' else 1e-6


def noise_factor(env):
    f, t = env.pos('flow', 0.01, 100), env.pos('texp', 1, 1000)
    noise.set_low_freq(f, 'Hz')
    noise.set_t_exp(t, 'us')
    np = env.np
    return np.sqrt(2 * np.abs(np.log(2 * env.pi * f * t * 1e-6)))


def setup(env, case, how, simple=True, **kw):
    amp = Amp(env, how)
    M = hmodel.build(env, case[0], case[1], refresh=True, amp=amp, simple=simple, **kw)
    M.charge_amp = {}
    for i in range(M.n):
        if M.charge[i]:
            a = env.pos('A_charge%d' % i, 1e-9, 1e-2)
            M.charge_amp[i] = a
            M.cr.set_charge_noise(i + 1, a)
    if how == 'setter':
        for k, lp in enumerate(M.loops):
            lp.set_noise(amp.a['loop', k])
    fac = noise_factor(env)
    hmodel.diagonalize(env, M, 2)
    return M, amp, fac


def delta(M, D):
    return (expect(M.V[1], D, M.V[1]) - expect(M.V[0], D, M.V[0])).real


def oracle(env, M, amp, fac, kind):
    O = Ops(env, M)
    np = env.np
    s = 0
    if kind == 'flux':
        for l in range(len(M.cr.loops)):
            s = s + np.abs(delta(M, O.d_loop(l)) * (2 * env.pi * amp.a['loop', M.order[l]]))
    elif kind == 'charge':
        for i in range(M.n):
            if M.charge[i]:
                D = O.zero()
                for j in range(M.n):
                    D = madd(D, mscale(M.cinv[i][j], O.Q(j)))
                s = s + np.abs(delta(M, D) * (2 * O.e / hmodel.root(env, O.hbar)) * M.charge_amp[i])
    else:
        first = {}
        for it in M.items:
            if it['kind'] == 'J':
                k = first.setdefault(id(it['el']), it['idx'])
                s = s + np.abs(delta(M, O.d_junction(it)) * (it['v'] * amp.a['J', k]))
    return s * fac


def kinds(shape):
    k = ['charge']
    els = [x for e in hmodel.SHAPES[shape].values() for x in e]
    if any(l for _, l in els):
        k.append('flux')
    if any(x == 'J' for x, _ in els):
        k.append('cc')
    return k


def check(env, M, amp, fac, kind, order=(0, 1)):
    want = oracle(env, M, amp, fac, kind)
    for st in ((0, 1), (1, 0)):
        got = num(env, M.cr.dec_rate(kind, st))
        env.eq('%s %d%d' % (kind, *st), got, want, rtol=1e-6)


ONE = [('fluxonium', [3]), ('transmon', [2]), ('squid', [2]), ('fluxonium squid', [2]), ('resonator', [2])]
TWO = [('fluxonium-transmon', [2, 2]), ('two fluxoniums', [2, 2]), ('two transmons', [2, 1]), ('three junctions', [1, 2]),
       ('loop through two nodes', [2, 2]), ('floating loop', [2, 2]), ('three transmons', [1, 2, 1])]


@harness(HARNESSES, cost=3, validate=4, each=ONE)
def one_mode(env, case):
    both_engines(env)
    kind = env.choice('kind', kinds(case[0]))
    M, amp, fac = setup(env, case, env.choice('how', ['constructor', 'setter']), simple=False)
    check(env, M, amp, fac, kind)


@harness(HARNESSES, cost=4, validate=4, each=TWO)
def several_modes(env, case):
    both_engines(env)
    kind = env.choice('kind', kinds(case[0]))
    M, amp, fac = setup(env, case, env.choice('how', ['constructor', 'setter']))
    check(env, M, amp, fac, kind)


@harness(HARNESSES, validate=4, each=[('two transmons', [2, 1]), ('three transmons', [2, 1, 1]), ('three junctions', [1, 2])])
def shared_junction(env, case):
    """One junction object on several edges: one contribution for each place."""
    both_engines(env)
    M, amp, fac = setup(env, case, 'constructor', shared='J')
    check(env, M, amp, fac, 'cc')


@harness(HARNESSES, validate=4)
def changed_environment(env):
    """A rate uses the environment settings and amplitudes at the time of the call."""
    both_engines(env)
    kind = env.choice('kind', ['flux', 'charge', 'cc'])
    M, amp, fac = setup(env, ('fluxonium-transmon', [2, 1]), 'constructor')
    M.cr.dec_rate(kind, (0, 1))
    if env.choice('experiment', ['short', 'long']) == 'short':
        f, t = env.pos('flow2', 0.01, 100), env.pos('texp2', 1, 1000)
    else:
        f, t = env.pos('flow3', 1000, 1e6), env.pos('texp3', 1000, 1e6)
    noise.set_low_freq(f, 'Hz')
    noise.set_t_exp(t, 'us')
    fac = env.np.sqrt(2 * env.np.abs(env.np.log(2 * env.pi * f * t * 1e-6)))
    a = env.pos('A2', 1e-9, 1e-2)
    if kind == 'flux':
        M.loops[0].set_noise(a)
        amp.a['loop', 0] = a
    elif kind == 'charge':
        i = M.charge.index(True)
        M.cr.set_charge_noise(i + 1, a)
        M.charge_amp[i] = a
    check(env, M, amp, fac, kind)


@harness(HARNESSES)
def wrong_mode(env):
    """Noise of a mode that is not a charge mode cannot be set."""
    both_engines(env)
    M = hmodel.build(env, 'fluxonium-transmon', [2, 1], simple=True)
    bad = [i + 1 for i in range(M.n) if not M.charge[i]][0]
    env.raises('harmonic mode', ValueError, lambda: M.cr.set_charge_noise(bad, 1e-3))
    env.raises('no mode', ValueError, lambda: M.cr.set_charge_noise(env.choice('mode', [0, 3, 7]), 1e-3))
    env.raises('not an integer', ValueError, lambda: M.cr.set_charge_noise(1.0, 1e-3))
