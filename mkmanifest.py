"""Writes MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = 'symbolic execution of the real code, every path\'s assertion decided by an SMT solver (z3), counterexamples replayed on the real code'
NOTE = {
    'C01': 'all values and units; constructors, setters and getters; both engines',
    'C02': 'circuit shapes with 1 to 3 nodes; all element values',
    'C03': 'one and two loops; all capacitances; fractions compared up to their rounding',
    'C04': 'one node with symbolic elements, two nodes through a parametrization of the matrices; real arithmetic',
    'C05': '1 to 3 modes, small truncation numbers, mode coordinates symbolic',
    'C06': 'all histories of public operations up to the stated length; library transformation abstracted',
    'C07': 'sparse eigensolver replaced by arbitrary eigenpairs in arbitrary order',
    'C08': '1 to 3 modes, all edges, mode coordinates and capacitance matrix symbolic',
    'C09': 'arbitrary eigenpairs, loss functions, temperature; exponentials and Bessel functions uninterpreted',
    'C10': 'arbitrary eigenpairs, noise amplitudes, environment settings',
    'C11': 'arbitrary eigenpairs; derivative at fixed coordinates',
    'C12': 'arbitrary eigenpairs and upstream gradients; reverse mode of torch replaced by exact infinitesimals outside custom functions',
    'C13': 'same symbols through both engines',
    'C14': 'grids up to the stated size, arbitrary entries',
    'C15': 'two circuits, arbitrary eigenpairs and couplings',
    'C16': 'all budgets up to the stated limits',
    'C17': 'arbitrary eigenvectors; Hermite functions uninterpreted or evaluated exactly',
    'C18': 'printed coefficients compared with arbitrary circuit coordinates',
    'C19': 'stated circuits with shared elements; arbitrary values',
    'C20': 'arbitrary option strings and numbers',
}
NA = {
    'C21': 'whether a truncation test predicts convergence is a statement about the spectrum of operators of large dimension (hundreds of states, '
           'transcendental matrix elements); no solver decides it within reach for all inputs, and within small dimensions it does not hold exactly',
    'C22': 'files written by dill and read back: the code under test is the pickling of closures by a binary extension and the file system, '
           'which cannot be executed symbolically',
}


def main():
    ids = [json.loads(x)['id'] for x in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for i in ids:
        if i in NOTE and os.path.exists(os.path.join(HERE, 'checks', i.lower() + '.py')):
            cmd = '/opt/venv/bin/python check.py ' + i
            checks.append(dict(property=i, quick_cmd=cmd, thorough_cmd=cmd + ' thorough', evidence_file='evidence/%s.json' % i,
                               technique=TECH, level='model_checking', level_note='bounded: ' + NOTE[i]))
        else:
            na.append(dict(property=i, reason=NA.get(i, 'not built yet')))
    out = dict(version=1, setup_cmd='/opt/venv/bin/python selftest.py', checks=checks, not_applicable=na,
               notes='One technique for all checks. A check imports the modules of /repo with their library names bound to symbolic shims, so the '
                     'formulas are regenerated from the current source on every run. Engine, bounds and assumptions: DESIGN.md. Findings: '
                     'known_findings.txt. No hooks in /repo.')
    json.dump(out, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


main()
