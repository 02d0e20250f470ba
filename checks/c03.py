"""C03: the external flux is distributed consistently over every loop."""
from fractions import Fraction
from checks.common import *   # noqa: F401,F403

HARNESSES = []
BOUNDS = ('capacitor of every inductive element symbolic in [0.1, 1000] fF ("all"); loop shapes: one to three loops, up to six '
          'inductive elements, elements shared by two loops, series and parallel branches, loops without the ground node, '
          'nodes attached through capacitors only, edge orders and orientations; all three distribution options; both engines')
ASSUMPTIONS = ['rounding of the fractions is the identity in the symbolic run (checked: at least five decimals are kept); '
               'replays allow 5e-6 per fraction']

# shape: list of (edge, [(letter, loop numbers)])
SHAPES = {
    'rf squid': [((0, 1), [('J', (0,)), ('L', (0,)), ('C', ())])],
    'squid': [((0, 1), [('C', ()), ('J', (0,)), ('J', (0,))])],
    'floating loop': [((1, 2), [('L', (0,)), ('C', ()), ('J', (0,))]), ((0, 1), [('C', ())]), ((0, 2), [('C', ())])],
    'flux qubit': [((0, 1), [('J', (0,)), ('C', ())]), ((1, 2), [('J', (0,)), ('C', ())]), ((0, 2), [('J', (0,)), ('C', ())])],
    'ladder': [((0, 1), [('C', ()), ('J', (0,))]), ((1, 2), [('L', (0,)), ('C', ())]), ((2, 3), [('L', (0,)), ('C', ())]),
               ((0, 3), [('L', (0,)), ('C', ())])],
    'two parallel': [((0, 1), [('C', ()), ('L', (0,)), ('J', (0, 1)), ('J', (1,))])],
    'two shared': [((0, 1), [('C', ()), ('J', (0,))]), ((1, 2), [('C', ()), ('L', (0, 1))]),
                   ((0, 2), [('J', (0,)), ('J', (1,)), ]), ((0, 3), [('C', ()), ('L', (1,))]), ((3, 1), [('C', ()), ('J', (1,))])],
    'two separate': [((0, 1), [('C', ()), ('J', (0,)), ('L', (0,))]), ((1, 2), [('C', ())]),
                     ((0, 2), [('C', ()), ('L', (1,)), ('J', (1,))])],
    'loop and tail': [((0, 1), [('C', ()), ('J', (0,)), ('L', (0,))]), ((1, 2), [('C', ()), ('J', ())])],
    'zero pi': [((0, 1), [('J', (0,)), ('C', ())]), ((0, 2), [('C', ())]), ((0, 3), [('L', (0,))]), ((1, 3), [('C', ())]),
                ((1, 2), [('L', (0,))]), ((2, 3), [('J', (0,)), ('C', ())])],
}
# 'two shared': loop 0 = J(01), L(12), J(02);  loop 1 = second J(02), L(12), ... closed through node 3
SHAPES['two shared'] = [((0, 1), [('C', ()), ('J', (0,))]), ((1, 2), [('C', ()), ('L', (0, 1))]),
                        ((0, 2), [('J', (0,))]), ((2, 3), [('C', ()), ('L', (1,))]), ((1, 3), [('C', ()), ('J', (1,))])]
SHAPES['three parallel'] = [((0, 1), [('C', ()), ('J', (0,)), ('J', (0, 1)), ('L', (1, 2)), ('J', (2,))])]
SHAPES['series pair'] = [((0, 1), [('C', ()), ('L', (0,)), ('J', (0, 1))]), ((1, 2), [('C', ()), ('J', (1,))]),
                         ((2, 0), [('C', ()), ('L', (1,))])]
SMALL = ['rf squid', 'squid', 'floating loop', 'flux qubit', 'two parallel', 'two separate', 'loop and tail', 'series pair']


def cycle(rows):
    """Coefficients g (first one 1) with sum g_e row_e = 0."""
    m = [[Fraction(r[i]) for r in rows] for i in range(len(rows[0]))]
    n = len(rows)
    piv, r = [], 0
    for c in range(1, n):
        k = next((i for i in range(r, len(m)) if m[i][c] != 0), None)
        if k is None:
            raise AssertionError('several cycles')
        m[r], m[k] = m[k], m[r]
        p = m[r][c]
        m[r] = [x / p for x in m[r]]
        for i in range(len(m)):
            if i != r and m[i][c] != 0:
                f = m[i][c]
                m[i] = [x - f * y for x, y in zip(m[i], m[r])]
        r += 1
    return [Fraction(1)] + [-m[i][0] for i in range(n - 1)]


def build(env, shape, dist, order=None, flip=(), drop=None, extra=None):
    plan = list(shape)
    if order == 'rev':
        plan = plan[::-1]
    elif order == 'rot':
        plan = plan[1:] + plan[:1]
    n = max(max(e) for e, _ in plan)
    nl = 1 + max(max(lp) for _, els in plan for _, lp in els if lp)
    loops = [sq.Loop(env.real('flux%d' % i)) for i in range(nl)]
    used = []
    elements, rows, caps, kinds, member = {}, [], [], [], []
    for idx, (e, els) in enumerate(plan):
        edge = (e[1], e[0]) if idx in flip else e
        lst = []
        for letter, lp in els:
            if letter == 'C':
                lst.append(sq.Capacitor(env.pos('c%d%d' % e, 1, 1000), 'fF'))
                continue
            k = len(rows)
            cv = env.pos('cap%d' % k, 0.1, 1000)
            kept = [i for i in lp if i != drop]
            kw = dict(cap=sq.Capacitor(cv, 'fF'), loops=[loops[i] for i in kept])
            for i in kept:
                if i not in used:
                    used.append(i)
            if letter == 'L':
                lst.append(sq.Inductor(env.pos('l%d' % k, 0.1, 1000), 'nH', **kw))
            else:
                lst.append(sq.Junction(env.pos('j%d' % k, 0.1, 1000), 'GHz', **kw))
            rows.append(incidence(edge, n))
            caps.append(cv)
            kinds.append(letter)
            member.append(kept)
        elements[edge] = lst
    decimals = []

    def rounding(x, d):
        decimals.append(d)
        return x
    env.hook('round', rounding)
    cr = matrices_only(env, elements, dist)
    return cr, rows, caps, kinds, member, used, decimals, n, loops


def column(cr, loop):
    return [i for i, x in enumerate(cr.loops) if x is loop][0]


def close(env, label, a, b, tol, scale=1):
    """Exact for symbolic numbers; numbers which were rounded on the way agree up to the rounding."""
    if env.symbolic and not (is_number(a) and is_number(b)):
        env.eq(label, a, b)
    else:
        d = a - b
        env.true(label, (d <= tol * scale) & (d >= -tol * scale))


def is_number(x):
    return not hasattr(x, 'is_const') or x.is_const()


def float_or_zero(x):
    return float(x) if is_number(x) else 0.0


def check(env, name, dist, **kw):
    cr, rows, caps, kinds, member, used, decimals, n, loops = build(env, SHAPES[name], dist, **kw)
    B = mat(env, cr.B)
    env.true('shape of the distribution', tuple(B.shape) == (len(rows), len(used)))
    if env.symbolic:
        env.true('at least five decimals are kept', all(d >= 5 for d in decimals))
    ne = len(rows)
    for l in used:
        ids = [k for k in range(ne) if l in member[k]]
        g = cycle([rows[k] for k in ids])
        for m in used:
            col = column(cr, loops[m])
            t = [int(c) * B[k, col] for c, k in zip(g, ids)]
            if m != l:
                close(env, 'flux of another loop', t[0], -sum(t[1:]), 6e-6 * ne)
            else:
                # the traversal may start in either direction
                one = -1 if float_or_zero(sum(t)) < 0 else 1
                close(env, 'flux of the own loop', t[0], one - sum(t[1:]), 6e-6 * ne)
    for m in used:
        col = column(cr, loops[m])
        if dist == 'all':
            for i in range(n):
                into = sum(caps[k] * B[k, col] for k in range(ne) if rows[k][i] > 0)
                out = sum(caps[k] * B[k, col] for k in range(ne) if rows[k][i] < 0)
                tot = sum(abs(rows[k][i]) * caps[k] for k in range(ne))
                close(env, 'capacitive current', into, out, 6e-6 * ne, tot)
        else:
            off = 'L' if dist == 'junctions' else 'J'
            for k in range(ne):
                # elements of the other kind carry no flux, provided every loop contains an element of the right kind
                if kinds[k] == off and all(any(kinds[q] != off for q in range(ne) if l in member[q]) for l in used):
                    b = B[k, col]
                    env.true('flux on %s elements' % off, (b < 1e-5) & (b > -1e-5))


VARIANTS = [(None, ()), ('rev', (0,)), ('rot', (1,)), (None, (0, 1, 2))]


def all_dist(env, name):
    both_engines(env)
    order, flip = env.choice('order', VARIANTS)
    check(env, name, 'all', order=order, flip=flip)


for _n in SHAPES:
    HARNESSES.append(Harness(lambda env, n=_n: all_dist(env, n), 'all ' + _n, cost=5 if _n in ('zero pi', 'ladder', 'two shared') else 1))


@harness(HARNESSES, cost=3)
def one_kind(env):
    both_engines(env)
    name = env.choice('shape', list(SHAPES))
    order, flip = env.choice('order', VARIANTS)
    check(env, name, env.choice('dist', ['junctions', 'inductors']), order=order, flip=flip)


@harness(HARNESSES)
def missing_loop(env):
    """Fewer declared loops than independent cycles."""
    both_engines(env)
    name = env.choice('shape', ['two parallel', 'two shared', 'two separate', 'series pair', 'three parallel'])
    drop = env.choice('drop', [0, 1])
    dist = env.choice('dist', ['junctions', 'inductors', 'all'])
    env.raises('rejected', ValueError, lambda: build(env, SHAPES[name], dist, drop=drop))


@harness(HARNESSES)
def unknown_option(env):
    s = env.string('dist')
    both_engines(env)
    if s == 'junctions' or s == 'inductors' or s == 'all':
        env.true('known option', True)
        return
    env.raises('rejected', ValueError, lambda: sq.Circuit({(0, 1): [sq.Capacitor(1, 'fF'), sq.Junction(1, 'GHz')]}, s))
