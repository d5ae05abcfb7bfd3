"""writes MANIFEST.json from properties.jsonl and the modules in sim/props"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

NA = {
    'C30': 'pure arithmetic on one pair of numbers: no concurrency, time, '
           'I/O, randomness or history for a simulator to decide',
    'C31': 'numerical accuracy of fixed tables against analytic profiles: a '
           'pure function of its arguments with nothing to schedule or fail',
    'C32': 'agreement of densities, derivatives and sample distributions is '
           'pure mathematics and statistics; C10 and C14 cover the parts '
           'that depend on the generator',
    'C33': 'a statistical property of a population of images, not of any '
           'schedule or fault; needs large Monte Carlo, not simulation of '
           'nondeterminism',
    'C34': 'a statistical property over noise realisations, not of any '
           'schedule or fault',
    'C35': 'a pure function of one number',
}

TECH = {}

BASE_NOTE = (
    'Seeded search over simulated runs of the real package; no proof: a '
    'violation outside the runs made is not seen. Every violation replays '
    'from its seed and minimised spec. ')


def main():
    props = [json.loads(x) for x in
             open(os.path.join(HERE, 'properties.jsonl')) if x.strip()]
    import importlib
    import sys
    sys.path.insert(0, HERE)
    checks, na = [], []
    for p in props:
        i = p['id']
        fn = os.path.join(HERE, 'sim', 'props', i.lower() + '.py')
        if os.path.exists(fn):
            mod = importlib.import_module('sim.props.' + i.lower())
            checks.append({
                'property': i,
                'quick_cmd': './check %s quick' % i,
                'thorough_cmd': './check %s thorough' % i,
                'evidence_file': 'evidence/%s.json' % i,
                'technique': 'deterministic simulation with fault injection: '
                             + getattr(mod, 'TECH', 'seeded histories and '
                                       'faults, reference model'),
                'level': 'exploration',
                'level_note': BASE_NOTE + getattr(mod, 'NOTE', ''),
            })
        else:
            na.append({'property': i, 'reason': NA.get(
                i, 'the check for it is not built yet')})
    out = {
        'version': 1,
        'setup_cmd': '/opt/venv/bin/python -c "import numpy, numba, scipy, '
                     'galsim"',
        'checks': checks,
        'not_applicable': na,
        'notes': 'Python only: nothing to build; every check imports the '
                 'package from /repo as it is when it runs. No hooks in '
                 '/repo. See DESIGN.md.',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(out, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks', len(na), 'not applicable')


main()
