"""C08: coupling operators are node voltages and branch fluxes, matrix elements exact inner products."""
from checks.common import *   # noqa: F401,F403
from checks import hmodel
from checks.hmodel import Ops, as_matrix, up_to_sign, madd, mscale, expect

HARNESSES = []
BOUNDS = ('one to three modes of either kind, truncation numbers 1 to 3, all node pairs (ordered, with and without ground), '
          'transformations, capacitance matrix and complex eigenvectors symbolic, circuits with a removed mode, both engines')
ASSUMPTIONS = ['mode coordinates are symbols (see hmodel); inductive couplings only between nodes whose flux difference has no '
               'component along a charge mode (the phase of a charge mode is not representable in the charge basis)']

CASES = [('fluxonium', [3]), ('transmon', [2]), ('fluxonium-transmon', [2, 2]), ('two transmons', [2, 2]),
         ('two fluxoniums', [3, 2]), ('removed mode', [3]), ('removed first', [2]), ('floating loop', [2, 1]),
         ('loop through two nodes', [2, 3])]
BIG = [('three', [2, 2, 2]), ('three', [3, 1, 2]), ('three transmons', [2, 1, 2])]


def setup(env, cases, engines=True):
    e = both_engines(env) if engines else settings.set_engine('NumPy')
    shape, t = env.choice('case', cases)
    if shape.startswith('removed') and settings.get_optim_mode():
        t = {'removed mode': [3, 2], 'removed first': [2, 2]}[shape]
    return hmodel.build(env, shape, t)


def flux_ok(M, nodes):
    """No charge mode in the flux difference."""
    row = [0 if a == 0 else 1 for a in nodes]
    for k in range(M.n):
        if M.charge[k]:
            x = [0.0 if a == 0 else M.S[a - 1][k] for a in nodes]
            if not (x[0] is x[1] or (hmodel.is0(x[0]) and hmodel.is0(x[1]))):
                return False
    return True


def pairs(M):
    return [(a, b) for a in range(M.nodes + 1) for b in range(M.nodes + 1) if a != b]


def operators(env, M):
    O = Ops(env, M)
    seen = {}
    for nodes in pairs(M):
        cap = as_matrix(env, M.cr.coupling_op('capacitive', nodes))
        up_to_sign(env, 'capacitive %d%d' % nodes, cap, O.voltage(nodes))
        seen['c', nodes] = cap
        if flux_ok(M, nodes):
            ind = as_matrix(env, M.cr.coupling_op('inductive', nodes))
            up_to_sign(env, 'inductive %d%d' % nodes, ind, O.edge_flux(nodes))
            seen['l', nodes] = ind
    for (t, (a, b)), op in list(seen.items()):
        if a > b > 0:
            env.eq('exchanged nodes', op, -seen[t, (b, a)])
        if a > b == 0:
            up_to_sign(env, 'exchanged with ground', op, seen[t, (b, a)])
    env.raises('coupling type', ValueError, lambda: M.cr.coupling_op('galvanic', (0, 1)))
    env.raises('nodes', ValueError, lambda: M.cr.coupling_op('capacitive', 1))


@harness(HARNESSES, cost=4, validate=6)
def coupling(env):
    operators(env, setup(env, CASES))


@harness(HARNESSES, cost=8)
def coupling_three(env):
    operators(env, setup(env, BIG, engines=False))


@harness(HARNESSES, cost=5, validate=6)
def elements(env):
    """matrix_elements are inner products with the first state conjugated."""
    M = setup(env, CASES)
    E, V = hmodel.diagonalize(env, M, 2)
    O = Ops(env, M)
    for nodes in pairs(M):
        for ctype in ('capacitive', 'inductive'):
            if ctype == 'inductive' and not flux_ok(M, nodes):
                continue
            if nodes[0] > nodes[1] > 0:
                # the sign follows the order of the nodes as in the operator
                op = [list(r) for r in as_matrix(env, M.cr.coupling_op(ctype, nodes))]
                env.eq('%s element %d%d of the operator' % ((ctype,) + nodes), num(env, M.cr.matrix_elements(ctype, nodes, (0, 1))), expect(V[0], op, V[1]))
                continue
            op = O.voltage(nodes) if ctype == 'capacitive' else O.edge_flux(nodes)
            got, want = [], []
            for st in ((0, 1), (1, 0), (1, 1)):
                x = M.cr.matrix_elements(ctype, nodes, st)
                got.append(num(env, x))
                want.append(expect(V[st[0]], op, V[st[1]]))
            up_to_sign(env, '%s element %d%d' % ((ctype,) + nodes), env.arr(got), want)


@harness(HARNESSES, cost=4, validate=6)
def charge(env):
    """charge_op in the original basis and in the eigenbasis."""
    M = setup(env, CASES + BIG[:2])
    n = 3 if M.n == 1 else 2
    if settings.get_optim_mode() and M.n == 3:
        n = 1
    E, V = hmodel.diagonalize(env, M, n)
    O = Ops(env, M)
    for k in range(M.n):
        q = O.Q(k)
        env.eq('charge of mode %d' % k, as_matrix(env, M.cr.charge_op(k + 1)), env.arr(q))
        env.eq('charge of mode %d, eigenbasis' % k, as_matrix(env, M.cr.charge_op(k + 1, 'eig')),
               env.arr([[expect(V[a], q, V[b]) for b in range(n)] for a in range(n)]))
    env.raises('basis', ValueError, lambda: M.cr.charge_op(1, 'other'))
