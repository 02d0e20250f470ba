#!/opt/venv/bin/python
"""Setup: self-test of the symbolic engine (toy programs with known verdicts).  Exit 0 when every verdict is the expected one."""
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(1, '/repo')
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
os.environ.setdefault('MPLBACKEND', 'Agg')
import time    # noqa: E402
from sym import patch, core, harness   # noqa: E402
patch.install()


def run(fn):
    core.reset_gens()
    return harness.run_symbolic(harness.Harness(fn, 'toy'), 'quick', 1, time.time() + 60)


def sort3(env):
    a, b, c = (env.real(n, -5, 5) for n in 'abc')
    x = sorted([a, b, c])
    env.true('first', x[0] <= x[1])
    env.true('second', x[1] <= x[2])
    env.eq('sum', x[0] + x[1] + x[2], a + b + c)


def max_wrong(env):
    a, b = env.real('a', -5, 5), env.real('b', -5, 5)
    m = a if a > b + 4 else b
    env.true('maximum', m >= a)


def identity(env):
    np = env.np
    a, b = env.angle('a'), env.angle('b')
    env.eq('cos', np.cos(a + b), np.cos(a) * np.cos(b) - np.sin(a) * np.sin(b))
    x = env.pos('x', 0.1, 10)
    env.eq('root', np.sqrt(x * x * 4), x * 2)
    y = env.real('y', -3, 3)
    env.eq('fraction', 1 / (1 + y * y) + y * y / (1 + y * y), 1)


def wrong_identity(env):
    y = env.real('y', -3, 3)
    env.eq('abs', env.np.sqrt(y * y), y)


def matrix(env):
    np = env.np
    m = env.arr([[env.pos('p', 1, 2), env.real('q', -0.5, 0.5)], [env.real('q', -0.5, 0.5), env.pos('r', 1, 2)]])
    i = np.linalg.inv(m) @ m
    env.eq('inverse', i, np.eye(2))


def main():
    bad = 0
    for fn, paths, verdict in ((sort3, 6, True), (max_wrong, 2, False), (identity, None, True), (wrong_identity, None, False), (matrix, None, True)):
        r = run(fn)
        ok = not r['failures'] and not r['gaps'] and r['status'] == 'proved'
        good = ok == verdict and (paths is None or r['paths'] == paths)
        print('%-16s paths=%s verdict=%s %s' % (fn.__name__, r['paths'], 'holds' if ok else 'violated', 'ok' if good else 'UNEXPECTED'))
        bad += not good
    return bad


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(1 if rc else 0)
