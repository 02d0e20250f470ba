"""Helpers shared by the harnesses."""
import SQcircuit as sq
import SQcircuit.units as unt
import SQcircuit.noise as noise
import SQcircuit.settings as settings
from sym.harness import Harness

FARAD = {'F': '1', 'mF': '1e-3', 'uF': '1e-6', 'nF': '1e-9', 'pF': '1e-12', 'fF': '1e-15'}
HENRY = {'H': '1', 'mH': '1e-3', 'uH': '1e-6', 'nH': '1e-9', 'pH': '1e-12', 'fH': '1e-15'}
HERTZ = {'Hz': '1', 'kHz': '1e3', 'MHz': '1e6', 'GHz': '1e9', 'THz': '1e12'}
SECOND = {'s': '1', 'ms': '1e-3', 'us': '1e-6', 'ns': '1e-9', 'ps': '1e-12', 'fs': '1e-15'}


def scale(table, u):
    return float(table[u])


HARNESS_LISTS = {}


def harness(lst, name=None, tier='quick', each=None, **opts):
    """Decorator: register a harness function in lst (one harness per entry of each, run in parallel)."""
    def deco(fn):
        if each is not None:
            for k, case in enumerate(each):
                label = case if isinstance(case, str) else case[0] if isinstance(case, tuple) and isinstance(case[0], str) else str(k)
                lst.append(Harness((lambda env, c=case: fn(env, c)), '%s: %s' % (name or fn.__name__, label), tier, **opts))
            names = [h.name for h in lst]
            for h in lst:
                if names.count(h.name) > 1:
                    h.name += ' #%d' % lst.index(h)
            return fn
        lst.append(Harness(fn, name or fn.__name__, tier, **opts))
        return fn
    return deco


def engine(env, name):
    settings.set_engine(name)
    return name


def both_engines(env):
    e = env.choice('engine', ['NumPy', 'PyTorch'])
    settings.set_engine(e)
    return e


def num(env, x):
    """Plain (symbolic) number of an element value of either engine."""
    if hasattr(x, 'detach'):
        x = x.detach().cpu().numpy()
        x = x.item() if hasattr(x, 'item') else x
    return x


class Stop(Exception):
    """Execution of the constructor is not followed beyond this point."""


def matrices_only(env, elements, flux_dist='junctions'):
    """Circuit object after its matrices were assembled; the (library) matrix square root ends the symbolic run."""
    cr = sq.Circuit.__new__(sq.Circuit)
    if not env.symbolic:
        cr.__init__(elements, flux_dist)
        return cr

    def stop(*a, **k):
        raise Stop()
    env.hook('sqrtm', stop)
    env.hook('svd', stop)
    try:
        cr.__init__(elements, flux_dist)
    except (Stop, env.Unsupported):
        if not all(hasattr(cr, x) for x in ('C', 'L', 'W', 'B')):
            raise
    return cr


def incidence(edge, n):
    """Row vector of the branch variable of an edge in node variables (ground removed)."""
    i, j = edge
    r = [0] * n
    if i:
        r[i - 1] += 1
    if j:
        r[j - 1] -= 1
    if i == 0:
        r = [-x for x in r]
    return r


def zeros(env, n, m=None):
    return [[0 for _ in range(n if m is None else m)] for _ in range(n)]


def add_outer(mat, row, c):
    n = len(row)
    for i in range(n):
        for j in range(n):
            if row[i] * row[j]:
                mat[i][j] = mat[i][j] + c * (row[i] * row[j])


def mat(env, x):
    """Matrix of either engine as array of (symbolic) numbers."""
    if hasattr(x, 'detach'):
        x = x.detach().cpu().numpy()
    return env.arr(x)
