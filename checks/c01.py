"""C01: element values keep their physical meaning in every unit."""
from checks.common import *   # noqa: F401,F403

HARNESSES = []
BOUNDS = ('element values in (0, inf), error percentage in [0, 100], the standard normal draw in [-6, 6], every accepted '
          'unit for setting and reading, an arbitrary string of any length as invalid unit, both engines')
ASSUMPTIONS = ['torch.normal(m, s) returns m + s*x with an arbitrary x (its distribution is the library\'s)']

KINDS = {'C': (sq.Capacitor, FARAD), 'L': (sq.Inductor, HENRY), 'J': (sq.Junction, None)}


def stored(env, kind, v, u):
    """Physical quantity (F, H or angular frequency) of value v in unit u, from the definitions."""
    h = 2 * env.pi * env.const('hbar')
    if kind == 'J':
        return 2 * env.pi * v * scale(HERTZ, u)
    table = KINDS[kind][1]
    if u in table:
        return v * scale(table, u)
    if kind == 'C':
        return env.const('e') ** 2 / (2 * h * v * scale(HERTZ, u))
    return (env.const('Phi0') / (2 * env.pi)) ** 2 / (h * v * scale(HERTZ, u))


def read(env, kind, q, u):
    """Reading the stored quantity q in unit u."""
    h = 2 * env.pi * env.const('hbar')
    if kind == 'J':
        return q / scale(HERTZ, u)
    table = KINDS[kind][1]
    if u in table:
        return q / scale(table, u)
    if kind == 'C':
        return env.const('e') ** 2 / (2 * h * q * scale(HERTZ, u))
    return (env.const('Phi0') / (2 * env.pi)) ** 2 / (h * q * scale(HERTZ, u))


def units(kind):
    return (list(KINDS[kind][1]) if KINDS[kind][1] else []) + list(HERTZ)


def make(kind):
    cls = KINDS[kind][0]

    def constructed(env):
        eng = both_engines(env)
        us = units(kind)
        u = env.choice('unit', us + ['default'])
        r = env.choice('read', us + [None])
        v, e = env.pos('v', 1e-9, 1e9), env.real('e', 0, 100)
        if u == 'default':
            setter = {'C': unt.set_unit_cap, 'L': unt.set_unit_ind, 'J': unt.set_unit_JJ}[kind]
            u = env.choice('default', us)
            setter(u)
            el = cls(v, error=e)
        else:
            el = cls(v, u, error=e)
        q = stored(env, kind, v, u) * (1 + e / 100 * env.draw(1))
        got = el.get_value() if r is None else el.get_value(r)
        env.eq('value', num(env, got), read(env, kind, q, r or {'C': 'F', 'L': 'H', 'J': 'Hz'}[kind]), rtol=1e-9)
        env.eq('error', el.error, e)
        env.true('engine type', hasattr(got, 'detach') == (eng == 'PyTorch'))
    HARNESSES.append(Harness(constructed, 'construct_' + kind, cost=5, validate=4))

    def set_value(env):
        both_engines(env)
        us = units(kind)
        u1, u2, r = env.choice('unit1', us[:1] + us[-2:-1]), env.choice('unit2', us + [None]), env.choice('read', us)
        v1, v2, e = env.pos('v1', 1e-9, 1e9), env.pos('v2', 1e-9, 1e9), env.real('e', 0, 100)
        el = cls(v1, u1)
        env.eq('error-free', num(env, el.get_value(r)), read(env, kind, stored(env, kind, v1, u1), r), rtol=1e-9)
        if u2 is None:
            el.set_value(v2)
            u2 = {'C': 'F', 'L': 'H', 'J': 'Hz'}[kind]
            e = 0
        else:
            el.set_value(v2, u2, e)
        q = stored(env, kind, v2, u2) * (1 + e / 100 * env.draw(1))
        env.eq('value', num(env, el.get_value(r)), read(env, kind, q, r), rtol=1e-9)
        env.eq('error', el.error, e)
    HARNESSES.append(Harness(set_value, 'set_value_' + kind, cost=5, validate=4))

    def invalid(env):
        both_engines(env)
        u = env.string('u')
        for x in units(kind):
            env.assume(u != x)
        v1, v2, e1, e2 = env.pos('v1', 1e-9, 1e9), env.pos('v2', 1e-9, 1e9), env.real('e1', 0, 100), env.real('e2', 0, 100)
        what = env.choice('what', ['construct', 'set_value', 'get_value'])
        el = cls(v1, 'GHz', error=e1)
        before = num(env, el.get_value('GHz'))
        if what == 'construct':
            env.raises('constructor', ValueError, lambda: cls(v2, u))
        elif what == 'set_value':
            env.raises('set_value', ValueError, lambda: el.set_value(v2, u, e2))
        else:
            env.raises('get_value', ValueError, lambda: el.get_value(u))
        env.eq('value unchanged', num(env, el.get_value('GHz')), before)
        env.eq('error unchanged', el.error, e1)
    HARNESSES.append(Harness(invalid, 'invalid_unit_' + kind))


for _k in KINDS:
    make(_k)


@harness(HARNESSES)
def constants(env):
    """Physical constants (real values) and the default units."""
    x = env.pos('x', 0.5, 2)
    for name, ref, tol in (('hbar', 1.054571817e-34, 1e-5), ('e', 1.602176634e-19, 1e-5), ('Phi0', 2.067833848e-15, 1e-5),
                           ('k_B', 1.380649e-23, 1e-3)):
        env.true(name, abs(env.const_value(name) / ref - 1) < tol)
    for cls, get, kind in ((sq.Capacitor, unt.get_unit_cap, 'C'), (sq.Inductor, unt.get_unit_ind, 'L'),
                           (sq.Junction, unt.get_unit_JJ, 'J')):
        env.true('default unit', get() == 'GHz')
        env.eq('default ' + kind, num(env, cls(x).get_value()), stored(env, kind, x, 'GHz'), rtol=1e-9)
    env.eq('attached capacitor', num(env, sq.Junction(x, 'GHz').cap.get_value()), 1e-20, rtol=1e-9)
    env.eq('attached capacitor', num(env, sq.Inductor(x, 'GHz').cap.get_value()), 1e-20, rtol=1e-9)
