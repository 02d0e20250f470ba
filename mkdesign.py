"""Writes DESIGN.md: the text below with bounds and assumptions of the check modules and the table of planted bugs."""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')

HEAD = '''# Solver-based checking of SQcircuit

(Generated by `mkdesign.py`; bounds and assumptions are those of the check modules.)

## 1. The deciding method, common to all checks

The modules of /repo are imported and executed as they are.  `sym/patch.py` binds the library names in their globals
(numpy, scipy, qutip, torch, float, int, round, ...) to shims that accept *symbolic* numbers; everything that SQcircuit itself
defines runs unchanged, so the formulas are regenerated from the current source on every run and no line of the
implementation is transcribed.

* **Numbers** (`sym/core.py`) are complex Laurent polynomials with rational coefficients over generators: the symbols of a
  harness and atoms for sqrt, abs, sign, 1/p, exp, log, cos, sin, Bessel functions and first-order infinitesimals.  Each atom carries its
  defining constraints (s*s = p and s >= 0, ...).  Real arithmetic stands for floating point (stated as an assumption of every
  claim); concrete replays use the real libraries and tolerances.
* **Branches** on symbolic conditions fork the execution; the path is re-executed with a recorded prefix of decisions and z3
  decides feasibility of each direction.  Choices of a harness (shape, order of operations, unit, engine, position of an
  element) are forks of the same kind.  `unknown` feasibility keeps the path.
* **Assertions**: at the end of every path z3 gets `bounds and atom definitions and path condition and not (property)`.
  *unsat*: the property holds for every value within the bounds on this path.  *sat* or *unknown* with a candidate: the values are
  replayed with the same harness on the unpatched code with the real libraries; only a replay that fails gives exit 1 and the
  VIOLATION line with a replay file.  A candidate that does not reproduce, an `unknown`, an unsupported operation, a time-out or a
  harness without any feasible path is an error exit (2), never a success.
* **Dual-mode harnesses**: `harness(env)` is one function that runs symbolically and concretely.  Each run also *validates* the
  encoding: concrete points inside the bounds are pushed through the real code and the same assertions (counted as
  `traces_validated_against_impl`).  `selftest.py` (setup_cmd) compares the shims with the real libraries.
* **Environment stubs** are nondeterministic: the sparse eigensolver returns arbitrary eigenpairs (in an arbitrary order where the
  order matters), random numbers are arbitrary reals, files and plotting are outside.
* **Counts in the evidence**: states = executed paths, transitions = decided branches, queries/unsat/sat/unknown and solver seconds as
  measured; functions_encoded = functions of /repo entered during the run.

Common bounds: capacitances 1..1000 fF, inductances 1..1000 nH, junction energies 1..100 GHz unless stated otherwise; small numbers
of modes and states as stated.  What lies outside: floating-point rounding, accuracy of LAPACK/ARPACK, larger circuits than stated,
plotting, file formats.

`VERIF_VERBOSE=1` prints one line per harness; `VERIF_ONLY=<substring>` restricts a run; a violation is replayed with `/opt/venv/bin/python sym/replay.py replays/<id>.json`.

## 2. Properties
'''

TEXT = {
 'C01': ('symbolic value, error, draw and unit strings through constructors, set_value and get_value of the three elements',
         'closed formulas of the unit conversions written from the physics (e^2/2hE, (Phi0/2pi)^2/hE, 2 pi E)',
         'tests use a few values and units; the claim is about every value in every unit pair and every invalid string (z3 string variable)'),
 'C02': ('constructor up to the matrices with all element values symbolic, shapes chosen by forks',
         'sum over element instances of value times incidence form, written independently from the list of (edge, value)',
         'tests fix few circuits; shape, orientation, order and sharing are quantified here'),
 'C03': ('constructor with symbolic element capacitors and the three distribution options',
         'sum rules over every loop (own loop one, other loops zero), zero capacitive current at nodes, placement on junctions/inductors',
         'the distribution depends on orderings and orientations that tests do not vary'),
 'C04': ('construction and update() including all three coordinate transformations and the removal of modes',
         'invariants only (S^T R = 1, R^T C^-1 R, S^T L S, W S, decoupling, frequency formula, couplings -1/0/1, number of charge modes, '
         'coord_transform), so the arbitrary signs and orders of the decomposition do not matter',
         'the invariants have to hold for every value, tests compare spectra of a few circuits'),
 'C05': ('hamiltonian() for symbolic mode coordinates, and full construction for one node',
         'own matrix model (`checks/hmodel.py`: operators built entry by entry from the quantization formula)',
         'tests compare a few eigenvalues with stored data; here every matrix entry is compared for all parameters'),
 'C06': ('every history (forks) of public operations with arbitrary values in each operation',
         'a circuit that is built anew with the current values, asked for the same observables',
         'caches and partial updates only go stale for particular histories'),
 'C07': ('diag() with an eigensolver stub that delivers arbitrary pairs in every order',
         'sorted order, pairing and unit conversion as assertions',
         'order and pairing depend on what the solver delivers, which tests cannot control'),
 'C08': ('coupling_op, charge_op, matrix_elements with symbolic transformations and eigenvectors',
         'node voltage and node flux operators of the own model; inner products written out',
         'all node pairs, orientations and mixes of modes, not just the tested edges'),
 'C09': ('dec_rate and its loss models with symbolic states, frequencies, temperature, quality factors',
         'golden-rule formula per element instance; detailed balance and the overflow branch as separate assertions',
         'thermal factors, state order and overflow depend on ranges that tests do not visit'),
 'C10': ('the three dephasing rates with symbolic states, noise amplitudes and environment settings',
         'sum over instances of amplitude times derivative of the own model Hamiltonian times the logarithmic factor',
         'amplitudes set in several ways, several loops and shared junctions'),
 'C11': ('get_partial_H/omega/vec with symbolic eigenpairs',
         'derivative of the own model Hamiltonian obtained by infinitesimals (not by formula), expectation values written out',
         'finite-difference tests have tolerance and only few elements'),
 'C12': ('the backward() functions of the code, driven by arbitrary upstream gradients',
         'first and second order perturbation formulas of the own model in the order of the parameter list',
         'tests compare with finite differences for a few circuits; degenerate mixes of parameters are not visited'),
 'C13': ('the same symbols through both engines',
         'equality of the two results (and closed formulas for elementary functions)',
         'tests mostly run one engine at a time with the same stored data'),
 'C14': ('sweepFlux/sweepCharge with symbolic grids; circuit response an arbitrary multilinear function or the real formulas',
         'result at the grid point recomputed for exactly that entry',
         'index mistakes only show for unequal grid lengths and several parameters'),
 'C15': ('System with two and three circuits, symbolic capacitances and eigenpairs',
         'block matrix plus incidence form; interaction from the change of the inverse written out; tensor order explicit',
         'position and order of circuits and nodes in couplings'),
 'C16': ('set_trunc_nums, truncate_circuit, check_convergence, index decomposition with symbolic integers',
         'integer inequalities a^n <= K < (a+1)^n, weights written out, mixed-radix identity',
         'all budgets K, including perfect powers where floating-point roots are off by one'),
 'C17': ('eig_phase_coord with symbolic eigenvector and grid values',
         'sum of plane waves and Hermite functions written out',
         'pointwise identity for all coefficients, not plots'),
 'C18': ('description() and loop_description(); symbolic values print as tokens that are read back from the printed text',
         'the printed expression is evaluated with the mode operators of the own model and compared with hamiltonian()',
         'tests compare text of a few circuits'),
 'C19': ('safecopy, copy and the reduced copy, followed by modifications of either side',
         'observables of original and copy compared before and after; sharing inside the copy',
         'aliasing only shows after a modification of one side'),
 'C20': ('all setters of settings and units with symbolic values and strings',
         'complete state of the settings compared before and after',
         'arbitrary invalid strings and two-step histories'),
}

TAIL = '''
## 3. Findings on the tree as given
Each was shown by a replay against the real code and repaired by a minimal `fix:` commit in /repo (`known_findings.txt` lists property, commit
and failing input).  No finding is left unfixed among the claims.  Behaviour that looked odd but is consistent with the documentation or only
a convention is not claimed and not changed: `Junction.get_value` is angular; ground edges (0,k) and (k,0) have the same sign; the sign of
inductive and capacitive coupling operators differs; fractions of flux are rounded to five decimals; couplings of a System to node 0 are not
supported by the code; `eig_phase_coord` above 150 oscillator levels; the PyTorch log_sinh uses a single-precision log 2 (2e-9 relative).

## 4. False alarms met while building, and what was corrected
* Abstract mode coordinates without the invariants of C04 (an inductor that sees a charge mode) gave differences in C05/C08/C11 that no real
  circuit has: the invariants are now assumptions of those checks and assertions of C04.
* C16: the float root was first modelled as exact, which hid the defect of truncate_circuit and then, with any root allowed, alarmed on
  correct code; now the stub is the real root with a relative error of 2^-50.
* C12: the regularization 1e-12 of the energy denominators made exact equality false; it is set to zero and said so.
* C18: printed digits were compared exactly; rounding is now the identity for symbols and a tolerance in replays.
* C13: concrete tensors with a pending conjugation were compared bytewise; resolved before the comparison.
* C17: the multiprecision branch for high levels is excluded from the claim.

## 5. Not applicable
* C21 (convergence): a statement about spectra of large operators with transcendental entries; no solver decides it for all inputs.
* C22 (saved sweeps): pickling by a binary extension and the file system cannot be executed symbolically.

## 6. Planted bugs
Written from property text and code, each compiles and passes the 59 stable tests, each has a demonstration; `result` is the outcome of the
property's quick check on the patched tree.

| id | property | needs | result |
|---|---|---|---|
'''


def main():
    out = [HEAD]
    for line in open(os.path.join(HERE, 'properties.jsonl')):
        p = json.loads(line)
        i = p['id']
        if i not in TEXT:
            continue
        m = importlib.import_module('checks.' + i.lower())
        what, oracle, why = TEXT[i]
        out.append('### %s %s\n* Executed: %s.\n* Oracle: %s.\n* Bounds: %s.\n* Assumptions and stubs: %s.\n* Why tests cannot: %s.\n* Harnesses: %d.\n' % (
            i, p['title'], what, oracle, m.BOUNDS, '; '.join(m.ASSUMPTIONS) or 'real arithmetic', why, len(m.HARNESSES)))
    out.append(TAIL.rstrip('\n'))
    res = {}
    f = os.path.join(HERE, 'seeded.txt')
    if os.path.exists(f):
        for line in open(f):
            if line.strip():
                k, v = line.strip().split(None, 1)
                res[k] = v
    for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*'))):
        m = json.load(open(os.path.join(d, 'meta.json')))
        k = os.path.basename(d)
        out.append('| %s | %s | %s | %s |' % (k, m['property'], m['needs'].replace('|', '/'), res.get(k, 'not run')))
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')


main()
