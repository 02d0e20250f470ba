"""C20: global settings take effect exactly and invalid ones are rejected."""
from checks.common import *   # noqa: F401,F403

HARNESSES = []
BOUNDS = ('all real values; all valid unit and engine names (both cases of the engine names), an arbitrary string as invalid '
          'name; histories: two settings after each other, then one invalid setting or a reset')
ASSUMPTIONS = []


def snapshot(env):
    return [('unit_freq', unt.get_unit_freq()), ('unit_cap', unt.get_unit_cap()), ('unit_ind', unt.get_unit_ind()),
            ('unit_JJ', unt.get_unit_JJ()), ('engine', settings.get_engine())] + sorted(noise.ENV.items())


def compare(env, label, s, want):
    env.true(label + ' keys', [k for k, _ in s] == [k for k, _ in want])
    for (k, a), (_, b) in zip(s, want):
        if isinstance(b, str) or isinstance(a, str):
            env.true('%s %s' % (label, k), a == b)
        else:
            env.eq('%s %s' % (label, k), a, b, rtol=1e-12)


def put(lst, key, v):
    return [(k, v if k == key else x) for k, x in lst]


def apply(env, n, state):
    """One arbitrary valid setting; returns the expected state."""
    op = env.choice('op%d' % n, ['freq', 'cap', 'ind', 'JJ', 'engine', 'optim', 'temp', 'low', 'high', 't_exp', 'reset'])
    x = env.real('x%d' % n, -1e9, 1e9)
    if op == 'freq':
        u = env.choice('u%d' % n, list(HERTZ))
        unt.set_unit_freq(u)
        return put(state, 'unit_freq', scale(HERTZ, u))
    if op in ('cap', 'ind', 'JJ'):
        table = dict({'cap': FARAD, 'ind': HENRY, 'JJ': {}}[op])
        us = list(table)[:2] + list(table)[-1:] + (['Hz', 'GHz', 'THz'] if n else list(HERTZ))
        u = env.choice('u%d' % n, us if n else list(table) + list(HERTZ))
        {'cap': unt.set_unit_cap, 'ind': unt.set_unit_ind, 'JJ': unt.set_unit_JJ}[op](u)
        return put(state, 'unit_' + op, u)
    if op == 'engine':
        e = env.choice('u%d' % n, ['NumPy', 'PyTorch', 'numpy', 'pytorch', 'PYTORCH'])
        settings.set_engine(e)
        env.true('optim mode', settings.get_optim_mode() == (e.lower() == 'pytorch'))
        return put(state, 'engine', e.lower())
    if op == 'optim':
        b = env.choice('u%d' % n, [True, False])
        settings.set_optim_mode(b)
        env.true('optim mode', settings.get_optim_mode() == b)
        return put(state, 'engine', 'pytorch' if b else 'numpy')
    if op == 'temp':
        noise.set_temp(x)
        return put(state, 'T', x)
    if op in ('low', 'high'):
        u = env.choice('u%d' % n, list(HERTZ))
        {'low': noise.set_low_freq, 'high': noise.set_high_freq}[op](x, u)
        return put(state, 'omega_' + op, 2 * env.pi * x * scale(HERTZ, u))
    if op == 't_exp':
        u = env.choice('u%d' % n, list(SECOND))
        noise.set_t_exp(x, u)
        return put(state, 't_exp', x * scale(SECOND, u))
    noise.reset_to_default()
    return defaults(env, state)


def defaults(env, state):
    for k, v in (('T', 0.015), ('omega_low', 2 * env.pi), ('omega_high', 6 * env.pi * 1000000000), ('t_exp', 1e-5)):
        state = put(state, k, v)
    return state


@harness(HARNESSES, cost=5, max_paths=9000, validate=6)
def histories(env):
    """Two settings, arbitrary values: exactly the named settings change."""
    s = snapshot(env)
    s = apply(env, 0, s)
    compare(env, 'first', snapshot(env), s)
    s = apply(env, 1, s)
    compare(env, 'second', snapshot(env), s)


@harness(HARNESSES, max_paths=4000, validate=6)
def invalid(env):
    """Any other name is rejected and changes nothing."""
    name = env.string('name')
    x, y = env.real('x', -1e9, 1e9), env.real('y', -1e9, 1e9)
    noise.set_temp(y)
    unt.set_unit_cap(env.choice('cap', ['pF', 'GHz']))
    settings.set_engine(env.choice('eng', ['NumPy', 'PyTorch']))
    s = snapshot(env)
    op = env.choice('op', ['freq', 'cap', 'ind', 'JJ', 'engine', 'low', 'high', 't_exp'])
    valid = {'cap': list(FARAD) + list(HERTZ), 'ind': list(HENRY) + list(HERTZ), 't_exp': list(SECOND)}.get(op, list(HERTZ))
    if op == 'engine':
        low = name.lower()
        env.assume(low != 'numpy')
        env.assume(low != 'pytorch')
        env.raises('engine', ValueError, lambda: settings.set_engine(name))
    else:
        for v in valid:
            env.assume(name != v)
        fn = {'freq': lambda: unt.set_unit_freq(name), 'cap': lambda: unt.set_unit_cap(name),
              'ind': lambda: unt.set_unit_ind(name), 'JJ': lambda: unt.set_unit_JJ(name),
              'low': lambda: noise.set_low_freq(x, name), 'high': lambda: noise.set_high_freq(x, name),
              't_exp': lambda: noise.set_t_exp(x, name)}[op]
        env.raises(op, (ValueError, KeyError), fn)
    compare(env, 'unchanged', snapshot(env), s)


@harness(HARNESSES)
def defaults_at_import(env):
    env.real('x', 0, 1)
    compare(env, 'defaults', snapshot(env), defaults(env, put(put(put(put(put(snapshot(env), 'unit_freq', 1e9), 'unit_cap',
            'GHz'), 'unit_ind', 'GHz'), 'unit_JJ', 'GHz'), 'engine', 'numpy')))
