"""C02: the circuit matrices are the exact sum over all element instances."""
import itertools
from checks.common import *   # noqa: F401,F403

HARNESSES = []
BOUNDS = ('element values in (0, inf) (all symbolic, junction and inductor capacitors included); shapes: one node with every '
          'multiset of up to three elements, two nodes with every choice of six edge contents on the three edges, three nodes '
          'with listed shapes; edge orders and orientations; elements and attached capacitors shared between edges; both '
          'engines for a part of the shapes')
ASSUMPTIONS = ['the run stops at the matrix square root (the matrices are complete by then)']

CONTENT = ['C', 'L', 'J', 'CL', 'CJ', 'LJ', 'CLJ', 'JJ', 'LL', 'CC', 'CJJ', 'LLJ']


def run(env, plan, share=(), caps='own', order=None, flip=()):
    """plan: list of (edge, content).  share: letters whose element object is the same everywhere."""
    plan = list(plan)
    if order is not None:
        plan = [plan[i] for i in order]
    n = max(max(e) for e, _ in plan)
    shared = {}
    count = [0]
    elements, want_c, want_l, rows = {}, zeros(env, n), zeros(env, n), []

    def cap_value(tag):
        if caps == 'own':
            v = env.pos('cap_' + tag, 1e-3, 1e3)
            return sq.Capacitor(v, 'fF', Q=1e6), v * 1e-15
        if caps == 'same':
            if 'cap' not in shared:
                shared['cap'] = sq.Capacitor(env.pos('cap', 1e-3, 1e3), 'fF')
            return shared['cap'], env.pos('cap', 1e-3, 1e3) * 1e-15
        return None, 1e-20

    for idx, (e, content) in enumerate(plan):
        edge = (e[1], e[0]) if idx in flip else e
        row = incidence(edge, n)
        lst = []
        for letter in content:
            count[0] += 1
            tag = '%s%d' % (letter, count[0])
            if letter in share and letter in shared:
                el, val, cv = shared[letter]
            else:
                v = env.pos(tag, 1e-3, 1e3)
                if letter == 'C':
                    el, val, cv = sq.Capacitor(v, 'fF'), v * 1e-15, None
                else:
                    cap, cv = cap_value(tag)
                    if letter == 'L':
                        el, val = sq.Inductor(v, 'nH', cap=cap), v * 1e-9
                    else:
                        el, val = sq.Junction(v, 'GHz', cap=cap), None
                shared.setdefault(letter, (el, val, cv))
            lst.append(el)
            if letter == 'C':
                add_outer(want_c, row, val)
            else:
                add_outer(want_c, row, cv)
                if letter == 'L':
                    add_outer(want_l, row, 1 / val)
        elements[edge] = lst
        if 'J' in content:
            rows.append(row)
    cr = matrices_only(env, elements)
    env.eq('C', mat(env, cr.C), env.arr(want_c), rtol=1e-9)
    env.eq('L', mat(env, cr.L), env.arr(want_l), rtol=1e-9)
    w = mat(env, cr.W)
    env.true('W rows', (len(w) == len(rows)))
    for a, b in zip(w, rows):
        a = [float(x) for x in a]
        env.true('W row', a == [float(x) for x in b] or a == [-float(x) for x in b])
    env.true('nodes', cr.n <= n)
    return cr


@harness(HARNESSES)
def one_node(env):
    both_engines(env)
    content = env.choice('content', CONTENT)
    caps = env.choice('caps', ['own', 'default', 'same'])
    run(env, [((0, 1), content + ('C' if caps == 'default' else ''))], caps=caps, flip=env.choice('flip', [(), (0,)]))


def two_nodes(env, engine_name):
    settings.set_engine(engine_name)
    opts = ['', 'C', 'J', 'CL', 'CJ', 'LJ', 'CJJ'] if engine_name == 'NumPy' else ['', 'CL', 'LJ']
    a, b, c = (env.choice(x, opts) for x in 'abc')
    plan = [(e, k) for e, k in (((0, 1), a), ((1, 2), b), ((0, 2), c)) if k]
    nodes = set(x for e, _ in plan for x in e)
    if len(plan) < 2 or not any('C' in k for _, k in plan):
        env.assume(False)
    order, flip = env.choice('order', [(None, ()), ((1, 0), (0,)), ('rev', (1, 2))])
    if order == 'rev':
        order = tuple(reversed(range(len(plan))))
    elif order is not None:
        order = tuple(order) + tuple(range(2, len(plan)))
    if not env.symbolic:
        # singular capacitance matrices cannot be completed concretely
        pass
    run(env, plan, order=order, flip=flip)


HARNESSES.append(Harness(lambda env: two_nodes(env, 'NumPy'), 'two_nodes_numpy', cost=9, validate=3))
HARNESSES.append(Harness(lambda env: two_nodes(env, 'PyTorch'), 'two_nodes_torch', cost=5, validate=3))

THREE = [
    [((0, 1), 'CJ'), ((1, 2), 'CL'), ((2, 3), 'CJ'), ((0, 3), 'L')],
    [((0, 1), 'C'), ((0, 2), 'CJ'), ((0, 3), 'CL'), ((1, 2), 'C'), ((2, 3), 'CJ'), ((1, 3), 'CJ')],
    [((1, 2), 'CJL'), ((2, 3), 'CJ'), ((1, 3), 'CC'), ((0, 3), 'C')],
    [((0, 2), 'CJ'), ((2, 1), 'CLL'), ((3, 1), 'JJ'), ((3, 0), 'C')],
    [((2, 3), 'C'), ((0, 1), 'LJ'), ((1, 3), 'J'), ((1, 2), 'J'), ((0, 2), 'C')],
]


@harness(HARNESSES, cost=4, validate=3)
def three_nodes(env):
    both_engines(env)
    plan = env.choice('shape', THREE)
    order, flip = env.choice('order', [(None, ()), (tuple(reversed(range(len(plan)))), (0, 2)),
                                       (tuple(range(1, len(plan))) + (0,), tuple(range(len(plan))))])
    run(env, plan, order=order, flip=flip, caps=env.choice('caps', ['own', 'same']))


@harness(HARNESSES, validate=6)
def shared_elements(env):
    """One element object on several edges counts once per edge."""
    both_engines(env)
    share = env.choice('share', ['C', 'L', 'J', 'CLJ'])
    plan = env.choice('shape', [
        [((0, 1), 'CLJ'), ((1, 2), 'CLJ'), ((0, 2), 'C')],
        [((0, 1), 'CJ'), ((1, 2), 'LJ'), ((2, 3), 'CLJ'), ((0, 3), 'JC')],
        [((0, 1), 'CCLL'), ((0, 2), 'CJJ')],
    ])
    run(env, plan, share=tuple(share), caps=env.choice('caps', ['own', 'same']))


@harness(HARNESSES)
def subset_of_nodes(env):
    """The node with the largest index may occur in any position of an edge and in any edge."""
    plan = env.choice('shape', [
        [((0, 2), 'CJ'), ((0, 1), 'CL'), ((2, 1), 'C')],
        [((2, 0), 'CJ'), ((1, 0), 'CL'), ((1, 2), 'C')],
        [((3, 0), 'CJ'), ((1, 2), 'CL'), ((3, 2), 'C'), ((1, 0), 'C')],
    ])
    run(env, plan)
