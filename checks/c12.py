"""C12: back-propagated gradients."""
from checks.common import *   # noqa: F401,F403
from checks import hmodel
from checks.hmodel import Ops, expect, madd, mscale, sum_, conj
from checks.c10 import Amp
from checks.c11 import targets, derivative
import SQcircuit.functions as sqf
import SQcircuit.torch_extensions as text

HARNESSES = []
BOUNDS = ('1 and 2 modes, truncation numbers 1 to 3, two or three eigenpairs with arbitrary complex components, all element values, fluxes, '
          'offsets, noise amplitudes, environment settings and upstream gradients symbolic; mode coordinates and capacitance matrix numbers for two modes; '
          'gradients for all elements, attached capacitors and loops at once or for any part of them; limits 0 to 3 of the eigenvector gradient; PyTorch engine')
ASSUMPTIONS = ['the sparse eigensolver is replaced by arbitrary eigenpairs', 'the regularization of the energy denominators (1e-12 rad/s) is set to zero',
               'torch autograd is modelled by first-order infinitesimals; the backward() functions of the code are executed',
               'the mode coordinates are held fixed, as in the perturbation formula']


def no_epsilon():
    import inspect
    f = sq.Circuit.get_partial_vec
    ps = list(inspect.signature(f).parameters.values())
    if any(p.name == 'epsilon' for p in ps) and f.__defaults__:
        d = [p for p in ps if p.default is not p.empty and p.kind == p.POSITIONAL_OR_KEYWORD]
        f.__defaults__ = tuple(0 if p.name == 'epsilon' else v for p, v in zip(d, f.__defaults__))


def prepare(env, case, which='all', amp=None, simple=True, **kw):
    engine(env, 'PyTorch')
    no_epsilon()
    env.autograd(True)

    def grad(M):
        # elements whose value was set get a gradient, before the circuit collects its parameters
        objs = []
        for it in M.items:
            for el in [it['el']] + ([it['el'].cap] if it['kind'] != 'C' else []):
                if not any(el is o for o in objs):
                    objs.append(el)
        objs += [lp for lp in M.loops]
        if which == 'odd':
            objs = objs[1::2]
        elif which == 'even':
            objs = objs[::2]
        elif which == 'third':
            objs = objs[1::3]
        elif which == 'loops':
            objs = list(M.loops)
        elif which == 'none':
            objs = []
        M.wanted = objs
        for o in objs:
            o.requires_grad = True
    M = hmodel.build(env, case[0], case[1], refresh=True, cap_values=True, simple=simple, amp=amp, grad=grad, **kw)
    return M


def noise_factor(env, longer=False):
    # omega_low * t_exp below or above one
    f, t = (env.pos('flow', 0.01, 100), env.pos('texp', 1, 1000)) if not longer else (env.pos('flow', 1000, 1e6), env.pos('texp', 1000, 1e6))
    noise.set_low_freq(f, 'Hz')
    noise.set_t_exp(t, 'us')
    np = env.np
    return np.sqrt(2 * np.abs(np.log(2 * env.pi * f * t * 1e-6)))


def pvec(M, D, m):
    n = len(M.V)
    out = [0] * M.d
    for k in range(n):
        if k != m:
            c = expect(M.V[k], D, M.V[m]) / (M.E[m] - M.E[k])
            out = [w + c * v for w, v in zip(out, M.V[k])]
    return out


def grads(env, M):
    """Gradients in the order of the parameter list."""
    els = M.cr.parameters_elems
    env.true('parameters', len(els) == len(M.wanted) and all(any(e is w for w in M.wanted) for e in els))
    out = []
    for el in els:
        g = el.internal_value.grad
        out.append(0.0 if g is None else num(env, g))
    return els, out


def check(env, M, want, rtol, only=None):
    els, got = grads(env, M)
    lst = M.cr.parameters_grad
    tg = {id(el): (label, kd, places) for label, el, kd, places in targets(M)}
    for k, el in enumerate(els):
        label, kd, places = tg[id(el)]
        w, sc = want(label, el, kd, places)
        env.eq('gradient ' + label, got[k], w, rtol=rtol, scale=sc)
        if lst[k] is not None:
            env.eq('parameters_grad ' + label, num(env, lst[k]), w, rtol=rtol, scale=sc)


ONE = [('fluxonium', [2]), ('transmon', [2]), ('squid', [2]), ('fluxonium squid', [2])]
TWO = [('fluxonium-transmon', [2, 1]), ('two fluxoniums', [2, 1]), ('two transmons', [2, 1]), ('loop through two nodes', [2, 2]),
       ('three junctions', [1, 2])]


def eig(env, case, n, part, limit=None, which='all', unit=None, **kw):
    M = prepare(env, case, which, **kw)
    if unit:
        sq.set_unit_freq(unit)
    text.set_max_eigenvector_grad(limit)
    try:
        hmodel.diagonalize(env, M, n)
        cr = M.cr
        torch = env.torch
        f, v = cr.efreqs, cr.evecs
        fu = 2 * env.pi * scale(HERTZ, unit or 'GHz')
        loss = 0
        u = [0] * n
        W = [[0] * M.d for _ in range(n)]
        if 'f' in part:
            u = [env.real('u%d' % k, -1, 1) for k in range(n)]
            for k in range(n):
                loss = loss + f[k] * u[k]
        if 'v' in part:
            W = [[env.real('W%d_%d_re' % (k, i), -1, 1) + 1j * env.real('W%d_%d_im' % (k, i), -1, 1) for i in range(M.d)] for k in range(n)]
            for k in range(n):
                x = v[k].reshape(-1)
                for i in range(M.d):
                    loss = loss + torch.real(x[i] * W[k][i])
        loss.backward()
    finally:
        text.set_max_eigenvector_grad(None)
    O = Ops(env, M)

    def want(label, el, kd, places):
        D = derivative(O, kd, places)
        w = 0
        sc = 0
        for k in range(n):
            if 'f' in part:
                x = u[k] * expect(M.V[k], D, M.V[k]).real / fu
                w = w + x
                sc = sc + abs(x) if not env.symbolic else 0
            if 'v' in part and (limit is None or k < limit):
                p = pvec(M, D, k)
                x = sum_([W[k][i] * p[i] for i in range(M.d)])
                w = w + x.real if not isinstance(x, int) else w
                sc = sc + sum(abs(W[k][i] * p[i]) for i in range(M.d)) if not env.symbolic else 0
        return w, sc
    check(env, M, want, 1e-7)


@harness(HARNESSES, cost=4, validate=4, each=ONE + TWO)
def frequencies(env, case):
    which = env.choice('which', ['all', 'odd', 'even'])
    eig(env, case, 2, 'f', which=which)


@harness(HARNESSES, validate=4)
def units(env):
    eig(env, ('fluxonium', [2]), 2, 'f', unit=env.choice('unit', list(HERTZ)))


@harness(HARNESSES, cost=5, validate=4, each=[('fluxonium', [2]), ('transmon', [2]), ('fluxonium-transmon', [2, 1]), ('two transmons', [2, 1])])
def vectors(env, case):
    eig(env, case, env.choice('n', [2, 3]) if case[1] == [2] and case[0] == 'transmon' else 2, 'v')


@harness(HARNESSES, cost=4, validate=4, each=[('transmon', [2]), ('fluxonium', [3])])
def limits(env, case):
    """Number of eigenvectors that contribute."""
    limit = env.choice('limit', [0, 1, 2, 3, None])
    eig(env, case, 3, 'fv', limit=limit, which='odd')


# -- rates -------------------------------------------------------------------------------------------------------------
def second(env, O, M, label, el, kd, places, channel, index):
    """Derivative of the operator of a noise channel with respect to a parameter (None if zero)."""
    if channel == 'charge':
        if kd != 'C':
            return None
        ci = O.inverse_c()
        x = [[sum_([ci[a][b] * M.R[b][k] for b in range(M.nodes)]) for k in range(M.n)] for a in range(M.nodes)]
        out = O.zero()
        for it in places:
            r = incidence(it['edge'], M.nodes)
            e = [sum_([r[a] * x[a][k] for a in range(M.nodes) if r[a]]) for k in range(M.n)]
            for j in range(M.n):
                out = madd(out, mscale(-1 * e[index] * e[j], O.Q(j)))
        return out
    if channel == 'cc':
        if kd != 'loop':
            return None
        return mscale(M.B[index['b']][places], O.cos(index)[1])
    # flux through loop number index
    if kd == 'C':
        return None
    if kd == 'J':
        out = O.zero()
        for it in places:
            out = madd(out, mscale(M.B[it['b']][index], O.cos(it)[1]))
        return out
    if kd == 'L':
        out = O.zero()
        for it in places:
            f = -1 * M.B[it['b']][index] * (O.Phi0 / (2 * env.pi)) / it['v'] / it['v'] / hmodel.root(env, O.hbar)
            out = madd(out, mscale(f, O.edge_flux(it['edge'])))
        return out
    out = O.zero()
    for it in M.items:
        if it['kind'] == 'J':
            out = madd(out, mscale(M.B[it['b']][index] * M.B[it['b']][places] * it['v'], O.cos(it)[0]))
    return out


def rate(env, case, channel, which='all', n=2, states=(0, 1), real='part', longer=False, **kw):
    amp = Amp(env, 'constructor')
    if env.symbolic:
        env.core.ABS_TERMS = 0
    M = prepare(env, case, which, amp=amp, **kw)
    charge_amp = {}
    for i in range(M.n):
        if M.charge[i]:
            charge_amp[i] = env.pos('A_charge%d' % i, 1e-9, 1e-2)
            M.cr.set_charge_noise(i + 1, charge_amp[i])
    fac = noise_factor(env, longer)
    hmodel.diagonalize(env, M, n, real=real)
    u = env.real('up', -1, 1)
    O = Ops(env, M)
    a, b = states
    parts = []                      # (amplitude, parameter it belongs to, derivative of the amplitude, operator, index)
    if channel == 'charge':
        for i in charge_amp:
            D = O.zero()
            for j in range(M.n):
                D = madd(D, mscale(M.cinv[i][j], O.Q(j)))
            parts.append((charge_amp[i] * 2 * O.e / hmodel.root(env, O.hbar), None, 0, D, i))
    elif channel == 'cc':
        first = {}
        for it in M.items:
            if it['kind'] == 'J':
                k = first.setdefault(id(it['el']), it['idx'])
                parts.append((amp.a['J', k] * it['v'], it['el'], amp.a['J', k], O.d_junction(it), it))
    else:
        for l in range(len(M.cr.loops)):
            parts.append((2 * env.pi * amp.a['loop', M.order[l]], None, 0, O.d_loop(l), l))

    def delta(D):
        return (expect(M.V[a], D, M.V[a]) - expect(M.V[b], D, M.V[b])).real

    loss = M.cr.dec_rate(channel, states) * u
    loss.backward()

    def want(label, el, kd, places):
        D = derivative(O, kd, places)
        pa, pb = pvec(M, D, a), pvec(M, D, b)
        w = 0
        sc = 0
        for A, owner, dA, X, index in parts:
            x = delta(X)
            ta, tb = 2 * expect(pa, X, M.V[a]).real, 2 * expect(pb, X, M.V[b]).real
            d2 = ta - tb
            S = second(env, O, M, label, el, kd, places, channel, index)
            if S is not None:
                d2 = d2 + delta(S)
            t = A * d2
            if owner is el:
                t = t + dA * x
            sgn = env.np.sign(x)
            w = w + sgn * t
            if not env.symbolic:
                sc += A * (abs(ta) + abs(tb)) + (abs(dA * x) if owner is el else 0) + (A * abs(delta(S)) if S is not None else 0)
        return w * fac * u, sc * fac * abs(u) if not env.symbolic else None
    check(env, M, want, 1e-7)


@harness(HARNESSES, cost=5, validate=4, each=[('transmon', [2]), ('fluxonium-transmon', [2, 1]), ('two transmons', [2, 1]), ('squid', [2])])
def charge_noise(env, case):
    rate(env, case, 'charge')


@harness(HARNESSES, cost=5, validate=4, each=[('transmon', [2]), ('fluxonium', [2]), ('fluxonium-transmon', [2, 1]), ('three junctions', [1, 2])])
def critical_current_noise(env, case):
    rate(env, case, 'cc')


@harness(HARNESSES, cost=5, validate=4, each=[('squid', [2]), ('fluxonium', [2]), ('fluxonium-transmon', [2, 1]), ('three junctions', [1, 2])])
def flux_noise(env, case):
    rate(env, case, 'flux')


@harness(HARNESSES, cost=8, validate=4, each=[('two fluxoniums', [2, 1], 'loops', 'flux'), ('two fluxoniums', [2, 1], 'third', 'flux'),
                                             ('two fluxoniums', [2, 1], 'third', 'cc'), ('fluxonium squid', [2], 'loops', 'flux'),
                                             ('fluxonium squid', [2], 'third', 'flux'), ('fluxonium squid', [2], 'odd', 'cc'),
                                             ('loop through two nodes', [2, 1], 'third', 'flux')])
def two_loops(env, case):
    rate(env, case[:2], case[3], case[2])


@harness(HARNESSES, cost=8, validate=4, tier='thorough', each=[
    ('two fluxoniums', [2, 1], 'flux'), ('two fluxoniums', [2, 1], 'cc'), ('fluxonium squid', [2], 'flux'), ('loop through two nodes', [2, 2], 'flux')])
def all_at_once(env, case):
    rate(env, case[:2], case[2])


@harness(HARNESSES, cost=8, validate=4, tier='thorough', each=[
    ('transmon', [2], 'charge'), ('transmon', [2], 'cc'), ('fluxonium', [2], 'cc'), ('fluxonium', [2], 'flux'), ('squid', [2], 'flux'),
    ('fluxonium-transmon', [2, 1], 'flux')])
def arbitrary_vectors(env, case):
    """All components of the eigenvectors arbitrary."""
    rate(env, case[:2], case[2], real=False)


@harness(HARNESSES, cost=5, validate=4, each=[('squid', [2]), ('fluxonium', [2])])
def higher_states(env, case):
    """Other states and a third eigenpair."""
    st = env.choice('states', [(1, 0), (2, 1), (0, 2)])
    kind = env.choice('kind', ['cc', 'flux'])
    rate(env, case, kind, 'loops' if kind == 'flux' else 'odd', n=3, states=st)


@harness(HARNESSES, cost=4, validate=4, each=[('two transmons', [2, 1], 'J', 'cc'), ('two transmons', [2, 1], 'C', 'charge'),
                                             ('loop through two nodes', [2, 1], 'L', 'flux'), ('three junctions', [1, 2], 'J', 'flux')])
def shared(env, case):
    rate(env, case[:2], case[3], shared=case[2], longer=True)


@harness(HARNESSES, validate=4)
def bessel(env):
    """Derivatives of the scaled Bessel functions."""
    engine(env, 'PyTorch')
    env.autograd(True)
    x = env.pos('x', 0.01, 50)
    u = env.real('u', -2, 2)
    t = env.torch.tensor(x, dtype=env.torch.float64)
    t.requires_grad = True
    which = env.choice('function', ['k0e', 'log_k0'])
    y = getattr(sqf, which)(t) * u
    y.backward()
    k0, k1 = env.func('k0e', x), env.func('k1e', x)
    if which == 'k0e':
        env.eq('value', num(env, y), k0 * u, rtol=1e-9)
        env.eq('derivative', num(env, t.grad), (k0 - k1) * u, rtol=1e-7, scale=max(abs(k0), abs(k1)) if not env.symbolic else None)
    else:
        env.eq('value', num(env, y), (env.np.log(k0) - x) * u, rtol=1e-9)
        env.eq('derivative', num(env, t.grad), -1 * k1 / k0 * u, rtol=1e-7)
