"""C11: derivatives of eigenfrequencies and eigenvectors."""
from checks.common import *   # noqa: F401,F403
from checks import hmodel
from checks.hmodel import Ops, expect
from SQcircuit.exceptions import CircuitStateError

HARNESSES = []
BOUNDS = ('1 to 3 modes, truncation numbers 2 to 3, up to three eigenpairs with arbitrary complex components, all element values, fluxes, offsets '
          'symbolic; mode coordinates, flux fractions and capacitance matrix symbolic for one mode and for the two-mode operators, numbers '
          'where stated; shared elements, several loops, junctions with attached capacitors; both engines')
ASSUMPTIONS = ['the sparse eigensolver is replaced by arbitrary eigenpairs', 'no inductor sees a charge mode (invariant of C04)',
               'the coordinates are held fixed, as in the perturbation formula']


def targets(M):
    """(label, element, kind, places)"""
    out = []
    seen = {}
    for it in M.items:
        k = id(it['el'])
        if k in seen:
            seen[k].append(it)
            continue
        seen[k] = [it]
        out.append(('%s%d' % (it['kind'], it['idx']), it['el'], it['kind'], seen[k]))
        if it['kind'] != 'C':
            out.append(('%s%d attached' % (it['kind'], it['idx']), it['el'].cap, 'C', seen[k]))
    for l, lp in enumerate(M.cr.loops):
        out.append(('loop%d' % M.order[l], lp, 'loop', l))
    return out


def derivative(O, kind, places):
    if kind == 'C':
        return O.d_capacitor([it['edge'] for it in places])
    if kind == 'L':
        return O.d_inductor(places)
    if kind == 'loop':
        return O.d_loop(places)
    out = O.zero()
    for it in places:
        out = hmodel.madd(out, O.d_junction(it))
    return out


def omega(env, shape, trunc, kind=None, simple=False, **kw):
    M = hmodel.build(env, shape, trunc, refresh=True, cap_values=True, simple=simple, **kw)
    hmodel.diagonalize(env, M, 2)
    O = Ops(env, M)
    tg = targets(M)
    label, el, kd, places = env.choice('element', tg) if len(tg) > 1 else tg[0]
    D = derivative(O, kd, places)
    x = [expect(v, D, v).real for v in M.V]
    sc = None
    if not env.symbolic:
        sc = sum(abs(d) for r in D for d in r) + 1e-300
    env.eq('%s without ground' % label, num(env, M.cr.get_partial_omega(el, 1, subtract_ground=False)), x[1], rtol=1e-6, scale=sc)
    env.eq('%s' % label, num(env, M.cr.get_partial_omega(el, 1)), x[1] - x[0], rtol=1e-6, scale=sc)
    env.eq('%s of the ground state' % label, num(env, M.cr.get_partial_omega(el, 0, False)), x[0], rtol=1e-6, scale=sc)


ONE = [('fluxonium', [3]), ('transmon', [2]), ('squid', [2]), ('fluxonium squid', [2]), ('resonator', [3])]
TWO = [('fluxonium-transmon', [2, 2]), ('two fluxoniums', [2, 2]), ('two transmons', [2, 1]), ('loop through two nodes', [2, 2]),
       ('floating loop', [2, 2]), ('three junctions', [1, 2]), ('two resonators', [2, 3]), ('removed mode', [2, 2])]
THREE = [('three', [2, 1, 2]), ('three transmons', [2, 1, 1])]


def size(env, shape, t):
    if shape == 'removed mode' and not settings.get_optim_mode():
        return t[:1]
    return t


@harness(HARNESSES, cost=2, validate=5, each=ONE)
def one_mode(env, case):
    both_engines(env)
    omega(env, case[0], case[1])


@harness(HARNESSES, cost=5, validate=6, each=TWO)
def two_modes(env, case):
    both_engines(env)
    omega(env, case[0], size(env, *case), simple=True)


@harness(HARNESSES, cost=6, validate=6, each=[('fluxonium-transmon', [2, 2]), ('loop through two nodes', [2, 2]),
                                             ('two fluxoniums', [2, 2]), ('floating loop', [2, 2]), ('two transmons', [2, 2])])
def two_modes_symbolic(env, case):
    """Symbolic coordinates and capacitance matrix."""
    both_engines(env)
    omega(env, case[0], case[1])


@harness(HARNESSES, cost=6, validate=6, each=THREE)
def three_modes(env, case):
    both_engines(env)
    omega(env, case[0], case[1], simple=True)


@harness(HARNESSES, cost=9, validate=3, tier='thorough', each=[('three', [2, 2, 2]), ('two fluxoniums', [3, 3]), ('fluxonium-transmon', [3, 2])])
def larger(env, case):
    both_engines(env)
    omega(env, case[0], case[1], simple=len(case[1]) == 3)


@harness(HARNESSES, cost=4, validate=4, each=[
    ('two transmons', [2, 1], 'C'), ('two transmons', [2, 1], 'J'), ('loop through two nodes', [2, 2], 'L'), ('two resonators', [2, 2], 'CL')])
def shared(env, case):
    """One element object at several places."""
    both_engines(env)
    omega(env, case[0], case[1], simple=True, shared=case[2])


@harness(HARNESSES, cost=4, validate=4, each=[('fluxonium', [3]), ('transmon', [2]), ('squid', [2]), ('fluxonium-transmon', [2, 1]),
                                             ('loop through two nodes', [2, 2])])
def vectors(env, case):
    both_engines(env)
    n = env.choice('states', [2, 3])
    M = hmodel.build(env, case[0], case[1], refresh=True, cap_values=True, simple=True)
    hmodel.diagonalize(env, M, n)
    O = Ops(env, M)
    label, el, kd, places = env.choice('element', targets(M))
    D = derivative(O, kd, places)
    for m in range(n):
        want = [0] * M.d
        for k in range(n):
            if k != m:
                c = expect(M.V[k], D, M.V[m]) / (M.E[m] - M.E[k])
                want = [w + c * v for w, v in zip(want, M.V[k])]
        got = M.cr.get_partial_vec(el, m, epsilon=0)
        sc = None
        if not env.symbolic:
            sc = max(abs(w) for w in want)
        env.eq('%s, state %d' % (label, m), hmodel.as_matrix(env, got).ravel(), want, rtol=1e-6, scale=sc)


@harness(HARNESSES)
def before_diagonalization(env):
    both_engines(env)
    M = hmodel.build(env, 'fluxonium', [2], simple=True)
    el = M.items[env.choice('element', [0, 1, 2])]['el']
    env.raises('frequency', CircuitStateError, lambda: M.cr.get_partial_omega(el, 1))
    env.raises('vector', CircuitStateError, lambda: M.cr.get_partial_vec(el, 1))
