"""Write MANIFEST.json from properties.jsonl and the contracts (run by hand when claims change): /opt/venv/bin/python mkmanifest.py"""

import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
PY = '/opt/venv/bin/python'

# what the proof of a property leaves to its run-time contracts (bounded, on generated inputs)
BOUNDED = {
    'C01': 'the microsecond rounding of datetime.timedelta',
    'C03': 'termination of the append loop; the known finding constructor_list_shared',
    'C04': 'the whole iteration (the induction over the per-call contracts)',
    'C05': 'whole simulations',
    'C06': 'the pandas and numpy layout of real tables',
    'C08': 'whole simulations; the known finding plateau_recovers',
    'C10': 'that the search converges before its iteration limit; floating point',
    'C15': 'floating point rounding to significant figures',
    'C16': 'the distributions numpy really draws from',
    'C18': 'repeatability of whole simulations',
    'C19': 'the JSON text of a table (_frame_to_json, _frame_from_json)',
}


def main():
    from contracts import kit

    with open(os.path.join(HERE, 'properties.jsonl')) as f:
        props = [json.loads(line) for line in f]
    checks = []
    for p in props:
        i = p['id']
        mod = importlib.import_module(f'contracts.{i.lower()}')
        mine = [c for c in kit.REGISTRY if c[0].startswith(i + '.')]
        note = (f'Every obligation generated from the current source of {", ".join(sorted({c[1] for c in mine}))} (and the functions they call in '
                'place) is discharged for all inputs; callees stubbed by contract and library models are listed in the evidence. Assumes: '
                'real arithmetic; ' + '; '.join(mod.ASSUMPTIONS) + '. Trusted: pyvc (our obligation generator), its library models, z3, cvc5. '
                f'Run-time contracts on generated inputs accompany the proof{" and alone cover " + BOUNDED[i] if i in BOUNDED else ""}; '
                'they decide an obligation only when a change takes the code out of the generator\'s reach (evidence then says exploration).')
        checks.append({
            'property': i, 'quick_cmd': f'{PY} check.py {i}', 'thorough_cmd': f'{PY} check.py {i} --tier thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': 'contract-based deductive verification of the real source (pyvc obligations, z3/cvc5)',
            'level': 'proof', 'level_note': note, 'theorems': [c[0] for c in mine],
        })
    m = {'version': 1, 'setup_cmd': f'{PY} -m pyvc.selftest', 'checks': checks, 'not_applicable': [],
         'notes': 'Contracts live in contracts/, the verification condition generator in pyvc/, run-time contracts in bounded/. '
                  'No hooks were added to /repo. See DESIGN.md.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
