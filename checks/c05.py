"""C05: the Hamiltonian matrix is the documented formula in the truncated basis."""
from checks.common import *   # noqa: F401,F403
from checks import hmodel

HARNESSES = []
BOUNDS = ('one to three modes (harmonic, charge and mixed), truncation numbers 1 to 4 (quick) and 5 (charge modes, thorough), '
          'zero to two loops; mode frequencies, impedances, charging matrix, junction couplings, transformations, flux '
          'fractions, element values, fluxes and charge offsets are real symbols; complete construction from element values '
          'for one node')
ASSUMPTIONS = ['mode coordinates are symbols with the invariants of the transformation (C04): harmonic frequency = '
               'sqrt(inverse capacitance * susceptance), charge modes couple to junctions with -1, 0, 1 and not to inductors',
               'the operator exponential of the truncated phase operator (qutip displace) is the closed form for up to four levels']

ONE = [('fluxonium', t) for t in ([1], [2], [3], [4])] + [('transmon', t) for t in ([1], [2], [3])] + \
      [('squid', [2]), ('resonator', [3]), ('fluxonium squid', [3])]
TWO = [(n, t) for n in ('fluxonium-transmon', 'two transmons', 'two fluxoniums')
       for t in ([2, 2], [3, 2], [1, 2], [3, 1], [1, 1])] + \
      [('floating loop', [2, 3]), ('three junctions', [2, 2]), ('three junctions', [2, 3]),
       ('loop through two nodes', [3, 2]), ('two resonators', [3, 2])]
THREE = [(n, t) for n in ('three', 'three transmons') for t in ([2, 2, 2], [2, 1, 3], [1, 2, 2], [3, 2, 1], [1, 1, 2])]


def compare(env, M, label='H'):
    H = M.cr.hamiltonian()
    want = hmodel.Ops(env, M).hamiltonian()
    env.eq(label, H, env.arr(want), rtol=1e-7)
    return want


def ham(env, name, trunc, **kw):
    M = hmodel.build(env, name, trunc, **kw)
    want = compare(env, M)
    env.eq('Hermitian', env.arr(hmodel.dagger(want)), env.arr(want))
    return M


def family(lst, name, engine_name=None, cost=1, tier='quick', **kw):
    def fn(env):
        settings.set_engine(engine_name) if engine_name else both_engines(env)
        shape, t = env.choice('case', lst)
        ham(env, shape, t, **kw)
    HARNESSES.append(Harness(fn, name, tier, cost=cost, validate=4))


family(ONE, 'one mode')
family(TWO, 'two modes', cost=6)
family(THREE[:5], 'three modes', 'NumPy', cost=8)
family(THREE[5:], 'three charge modes', 'NumPy', cost=8)
family([('fluxonium-transmon', [4, 3]), ('two fluxoniums', [4, 3]), ('two transmons', [3, 4]), ('transmon', [5])],
       'larger', 'NumPy', cost=9)
family([('three', [3, 2, 3]), ('three transmons', [2, 3, 2]), ('three', [2, 3, 4])], 'deep', 'NumPy', cost=20)
family(THREE, 'three modes torch', 'PyTorch', cost=10)


@harness(HARNESSES, cost=3)
def coupling_of_either_sign(env):
    """Charge-charge couplings of any sign, or none."""
    both_engines(env)
    M = hmodel.build(env, env.choice('shape', ['fluxonium-transmon', 'two transmons', 'two fluxoniums']), [2, 2], coupling='any')
    compare(env, M)


@harness(HARNESSES)
def shared_elements(env):
    """One junction, inductor object at several places: one term for each place."""
    both_engines(env)
    shape, shared = env.choice('shape', [('two transmons', 'J'), ('squid', 'J'),
                                         ('three junctions', 'J'), ('loop through two nodes', 'L')])
    M = hmodel.build(env, shape, [2] * (1 if shape == 'squid' else 2), shared=shared)
    compare(env, M)


@harness(HARNESSES)
def periodic(env):
    """External flux on a single junction: the Hamiltonian is periodic."""
    both_engines(env)
    name, t = env.choice('case', [('fluxonium', [3]), ('fluxonium-transmon', [2, 2]), ('squid', [2])])
    M = hmodel.build(env, name, t)
    sign = env.choice('sign', [1, -1])
    b = [[0.0] for _ in M.B]
    b[[it['b'] for it in M.items if it['kind'] == 'J'][0]] = [sign * 1.0]
    M.cr.B = env.arr(b)
    H1 = M.cr.hamiltonian()
    M.loops[0].set_flux(env.real('flux0', -1, 1) + env.choice('quanta', [1, -1, 3]))
    H2 = M.cr.hamiltonian()
    env.eq('shifted by a flux quantum', H2, H1, rtol=1e-7)
    env.eq('sum of the Hermitian conjugate', H1.dag(), H1)


@harness(HARNESSES)
def offset_by_one(env):
    """A new charge offset or flux replaces the old one in all terms."""
    both_engines(env)
    M = hmodel.build(env, 'fluxonium-transmon', [2, 2])
    M.cr.hamiltonian()
    M.ng[1] = env.real('ng_new', -2, 2)
    M.cr.set_charge_offset(2, M.ng[1])
    f = env.real('flux_new', -2, 2)
    M.loops[0].set_flux(f)
    M.flux[0] = f * 2 * env.pi
    compare(env, M)


@harness(HARNESSES, cost=2)
def from_element_values(env):
    """One node, construction included: everything in terms of the element values."""
    both_engines(env)
    kind = env.choice('kind', ['fluxonium', 'transmon', 'squid', 'resonator'])
    dist = env.choice('dist', ['junctions', 'inductors']) if kind == 'fluxonium' else 'junctions'
    c, l, j = env.pos('c', 1, 1000), env.pos('l', 1, 1000), env.pos('j', 1, 100)
    f, ng, cj = env.real('f', -1, 1), env.real('ng', -2, 2), env.pos('cj', 0.1, 100)
    loop = sq.Loop(f)
    C = sq.Capacitor(c, 'fF')
    J = sq.Junction(j, 'GHz', cap=sq.Capacitor(cj, 'fF'), loops=[loop] if kind in ('fluxonium', 'squid') else [])
    L = sq.Inductor(l, 'nH', cap=sq.Capacitor(cj, 'fF'), loops=[loop] if kind == 'fluxonium' else [])
    els = {'fluxonium': [C, J, L], 'transmon': [C, J], 'squid': [C, J, sq.Junction(2 * j, 'GHz', cap=sq.Capacitor(cj, 'fF'), loops=[loop])],
           'resonator': [C, L]}[kind]
    cr = sq.Circuit({(0, 1): els}, dist)
    ctot = (c + cj * (2 if kind in ('fluxonium', 'squid') else 1)) * 1e-15
    M = hmodel.Model()
    M.cr, M.n = cr, 1
    M.charge = [kind in ('transmon', 'squid')]
    M.ng = {0: ng}
    np = env.np
    if M.charge[0]:
        M.cinv, M.w, M.z = [[1 / ctot]], [0], [None]
        cr.set_charge_offset(1, ng)
    else:
        ind = l * 1e-9
        M.w, M.z = [1 / (np.sqrt(ind) * np.sqrt(ctot))], [np.sqrt(ind) / np.sqrt(ctot)]
        M.cinv = [[None]]
    cr.set_trunc_nums([3])
    M.m = [5 if M.charge[0] else 3]
    M.wt = [[1.0]]
    M.S = [[1.0]]
    M.flux, M.order = [f * 2 * env.pi], [0]
    w = 2 * env.pi * 1e9
    # flux on the junction with the smaller capacitor ... both junctions of the squid have the same capacitor
    if kind == 'fluxonium':
        M.B = [[1.0], [0.0]] if dist == 'junctions' else [[0.0], [1.0]]
        M.items = [dict(kind='J', v=j * w, b=0, w=0), dict(kind='L', v=l * 1e-9, b=1, edge=(0, 1))]
        # (loop is traversed through the junction and back through the inductor)
        if dist == 'inductors':
            M.B = [[0.0], [-1.0]]
    elif kind == 'squid':
        M.B = [[0.5], [-0.5]]
        M.items = [dict(kind='J', v=j * w, b=0, w=0), dict(kind='J', v=2 * j * w, b=1, w=0)]
    elif kind == 'transmon':
        M.B, M.items = [], [dict(kind='J', v=j * w, b=0, w=0)]
    else:
        M.B, M.items = [], []
    compare(env, M)


family([('three', [4, 3, 4]), ('three transmons', [3, 3, 3]), ('three', [3, 4, 2]), ('two transmons', [6, 5])], 'deepest', 'NumPy', cost=30,
       tier='thorough')
