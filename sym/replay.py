"""Run harnesses concretely against the unpatched code: replay of counterexamples and validation of the encoding.

usage: python -m sym.replay FILE.json           (one recorded violation; exit 1 if it is reproduced)
       python -m sym.replay --batch IN OUT
"""
import importlib
import json
import os
import sys
import warnings

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
warnings.simplefilter('ignore')


def find(module, name):
    for h in importlib.import_module(module).HARNESSES:
        if h.name == name:
            return h
    raise SystemExit('unknown harness ' + name)


def main():
    from sym.harness import run_concrete
    if sys.argv[1] == '--batch':
        jobs = json.load(open(sys.argv[2]))
        with open(sys.argv[3], 'w') as out:
            for k, j in enumerate(jobs):
                h = find(j['module'], j['harness'])
                st, de, _ = run_concrete(h.fn, j['values'], j['choices'], j.get('tier', 'quick'))
                out.write(json.dumps([k, st, de]) + '\n')
                out.flush()
        return 0
    j = json.load(open(sys.argv[1]))
    h = find(j['module'], j['harness'])
    st, de, _ = run_concrete(h.fn, j['values'], j['choices'], j.get('tier', 'quick'))
    print(st, de)
    return 1 if st == 'violated' else 0


if __name__ == '__main__':
    sys.exit(main())
