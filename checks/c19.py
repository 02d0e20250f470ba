"""C19: copies are equal to and independent of the original."""
import contextlib
import copy
from checks.common import *   # noqa: F401,F403
from checks import hmodel
from checks.hmodel import as_matrix
from checks.c06 import Run, Circ, numeric, operations
from SQcircuit.exceptions import CircuitStateError

HARNESSES = []
BOUNDS = ('circuits with one and two modes, truncation numbers 1 to 2, shared elements, shared attached capacitors and loops; copied with or without '
          'eigenpairs; every pair of modifications (one of the original, one of the copy) of the kinds of C06 with arbitrary values; both engines')
ASSUMPTIONS = ['the sparse eigensolver is replaced by arbitrary eigenpairs', 'circuits with an inductor or two modes: the coordinate transformation is computed with ordinary numbers',
               'pickling is represented by the copy protocol, which calls the same state functions']
CASES = [('fluxonium', [False], (), False), ('transmon', [True], (), False), ('squid', [True], ('J',), False), ('squid', [True], (), True),
         ('fluxonium-transmon', [False, True], ('C',), False), ('fluxonium-transmon', [False, True], (), True),
         ('two fluxoniums', [False, False], ('C',), True), ('two transmons', [True, True], ('J',), False)]


def wrap(R, a, cr):
    """Handle of a copied circuit: the elements at the same places."""
    c = Circ.__new__(Circ)
    c.env, c.shape, c.cr = a.env, a.shape, cr
    c.el, where = {}, {}
    loops = {}
    for edge in a.cr.elements:
        for old, new in zip(a.cr.elements[edge], cr.elements[edge]):
            where.setdefault(id(old), new)
            if hasattr(old, 'cap'):
                where.setdefault(id(old.cap), new.cap)
                for x, y in zip(old.loops, new.loops):
                    loops.setdefault(id(x), y)
    for key, el in a.el.items():
        c.el[key] = where[id(el)]
    c.loops = [loops.get(id(lp)) for lp in a.loops]
    return c


def structure(env, a, b):
    """The copy has its own objects, shared in the same way."""
    ca, cb = a.cr, b.cr
    env.true('edges', list(ca.elements) == list(cb.elements))

    def objs(cr):
        out = []
        for edge in cr.elements:
            for el in cr.elements[edge]:
                out.append(el)
                if hasattr(el, 'cap'):
                    out.append(el.cap)
                    out += list(el.loops)
        return out + list(cr.loops)
    oa, ob = objs(ca), objs(cb)
    env.true('number of objects', len(oa) == len(ob))
    env.true('kinds', [type(x) for x in oa] == [type(x) for x in ob])
    env.true('sharing', all((oa[i] is oa[j]) == (ob[i] is ob[j]) for i in range(len(oa)) for j in range(i)))
    env.true('own objects', not any(x is y for x in oa for y in ob))
    env.true('own containers', ca.elements is not cb.elements and ca.loops is not cb.loops and
             not any(ca.elements[e] is cb.elements[e] for e in ca.elements))
    for x, y in zip(oa, ob):
        env.eq('value', num(env, y.internal_value if hasattr(y, 'internal_value') else y.value()),
               num(env, x.internal_value if hasattr(x, 'internal_value') else x.value()), rtol=1e-12)
    if settings.get_optim_mode():
        pa, pb = ca.parameters_elems, cb.parameters_elems
        env.true('parameters', len(pa) == len(pb) and all(
            [i for i, o in enumerate(oa) if o is x] == [i for i, o in enumerate(ob) if o is y] for x, y in zip(pa, pb)))
        env.true('parameter tensors', all(x is not y for x in ca.parameters for y in cb.parameters))
        for x, y in zip(ca.parameters, cb.parameters):
            env.eq('parameter value', num(env, y), num(env, x), rtol=1e-12)


def snapshot(env, R, c, eigs):
    cr = c.cr
    out = [('trunc', env.arr([float(t) for t in cr.trunc_nums]))]
    out.append(('hamiltonian', as_matrix(env, cr.hamiltonian())))
    for ct in ('capacitive', 'inductive'):
        out.append((ct, as_matrix(env, cr.coupling_op(ct, (0, 1)))))
    for key, el in c.el.items():
        out.append(('value', env.arr([num(env, el.internal_value)])))
    for i, lp in enumerate(c.loops):
        if lp is not None:
            out.append(('flux', env.arr([num(env, lp.value())])))
    if eigs:
        out.append(('frequencies', mat(env, cr.efreqs)))
        for v in cr.evecs:
            out.append(('vector', as_matrix(env, v)))
        for key, el in c.el.items():
            out.append(('derivative', env.arr([num(env, cr.get_partial_omega(el, 1))])))
        for ch in ('capacitive', 'charge', 'cc'):
            out.append((ch, env.arr([num(env, cr.dec_rate(ch, (0, 1)))])))
    return out


def same(env, what, a, b):
    env.true(what + ' count', len(a) == len(b))
    for (la, x), (lb, y) in zip(a, b):
        env.true(what + ' shape', x.shape == y.shape)
        env.eq(what + ' ' + la, x, y, rtol=1e-9, scale=None if env.symbolic else abs(y).max())


def restore(env, cr):
    if env.symbolic:
        return copy.deepcopy(cr)
    import dill
    return dill.loads(dill.dumps(cr))


def clone(R):
    S = Run.__new__(Run)
    S.__dict__.update(R.__dict__)
    S.vals, S.flux, S.ng, S.trunc = dict(R.vals), list(R.flux), dict(R.ng), list(R.trunc)
    return S


def prepare(env, case, eng):
    shape, charge, shared, cap = case[:4]
    engine(env, eng)
    if env.symbolic:
        env.core.ABS_TERMS = 0
    R = Run(env, shape, charge, grad=eng == 'PyTorch', shared=shared, share_cap=cap)
    if cap:
        for k in list(R.vals):
            if k[0] in ('LK', 'JK'):
                R.vals[k] = R.vals[[x for x in R.vals if x[0] in ('LK', 'JK')][0]]
    for l in shared:
        for k in list(R.vals):
            if k[0] == l:
                R.vals[k] = R.vals[l, 0]
            if k[0] == l + 'K':
                R.vals[k] = R.vals[l + 'K', 0]
    return R


def usable(a, ops):
    return [op for op in ops if op[0] != 'value' or all(k in a.el for k in op[1:])]


def run(env, case, eng):
    with env.numbers() if numeric(case[0], case[1]) else contextlib.nullcontext():
        R = prepare(env, case, eng)
        a = R.create()
        eigs = env.choice('eigenpairs', ['none', 'discarded', 'kept'])
        if eigs != 'none':
            R.stub('_0')
            a.cr.diag(2)
        before = snapshot(env, R, a, eigs == 'kept')
        b = wrap(R, a, a.cr.safecopy(save_eigs=True) if eigs == 'kept' else a.cr.safecopy())
        structure(env, a, b)
        if eigs == 'kept':
            same(env, 'copy', snapshot(env, R, b, True), before)
        else:
            same(env, 'copy', snapshot(env, R, b, False), before)
            env.raises('no eigenpairs', CircuitStateError, lambda: b.cr.matrix_elements('capacitive', (0, 1), (0, 1)))
        same(env, 'original after copying', snapshot(env, R, a, eigs == 'kept'), before)
        ops = usable(a, operations(case[0], case[1]))
        Ra, Rb = clone(R), clone(R)
        Rb.compare_parameters = False       # the values of a copy are detached
        first = env.choice('first', ['original', 'copy'])
        one, two = (Ra, a), (Rb, b)
        if first == 'copy':
            one, two = two, one
        op = env.choice('modification', ops)
        one[0].apply(one[1], op, 1)
        same(env, 'other circuit', snapshot(env, R, two[1], eigs == 'kept'), before)
        # the other one is changed as well and both are rebuilt
        two[0].apply(two[1], ops[(ops.index(op) + 1) % len(ops)] if eigs == 'none' else op, 2)
        for r, c in (one, two):
            c.cr.update()
            r.compare(c, r.create())


@harness(HARNESSES, validate=2, cost=3, each=[c + ('NumPy',) for c in CASES] + [c + ('PyTorch',) for c in CASES])
def copies(env, case):
    run(env, case, case[4])


@harness(HARNESSES, validate=2, each=CASES)
def reduced_copy(env, case):
    """Circuits restored from a reduced copy."""
    with env.numbers() if numeric(case[0], case[1]) else contextlib.nullcontext():
        R = prepare(env, case, env.choice('engine', ['NumPy', 'PyTorch']))
        a = R.create()
        if env.choice('diag', [False, True]) and not settings.get_optim_mode():
            R.stub('_0')
            a.cr.diag(2)
        before = snapshot(env, R, a, False)
        small = a.cr.picklecopy()
        cr = restore(env, small)
        cr.update()
        b = wrap(R, a, cr)
        structure(env, a, b)
        same(env, 'restored', snapshot(env, R, b, False), before)
        same(env, 'original', snapshot(env, R, a, False), before)
        # a copy of the restored circuit is complete again
        c = wrap(R, a, restore(env, cr))
        same(env, 'copy of the restored circuit', snapshot(env, R, c, False), before)
        Rb = clone(R)
        ops = usable(a, operations(case[0], case[1]))
        Rb.apply(b, env.choice('modification', ops), 1)
        same(env, 'original afterwards', snapshot(env, R, a, False), before)
        b.cr.update()
        Rb.compare(b, Rb.create())
