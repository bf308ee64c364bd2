"""Worker: run the run-time contracts of one property and write what happened as JSON."""

import importlib
import json
import os
import resource
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from bounded import lib  # noqa: E402


def main():
    spec = json.loads(sys.argv[1])
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))  # runaway code ends in a MemoryError, not in a killed worker
    lib.load()
    mod = importlib.import_module('bounded.' + spec['property'].lower())
    res = {}
    if spec.get('replay'):
        r = spec['replay']
        for cl in [*mod.CLAUSES, *getattr(mod, 'KNOWN', [])]:
            if cl.name == r['clause']:
                t, status, msg = lib.run_case(cl, r['seed'], r['case'])
                res = {'status': status, 'message': msg, 'inputs': t.inputs}
    else:
        res['summary'], res['fails'] = lib.run_clauses(
            mod.CLAUSES, spec['seed'], spec['tier'], spec.get('budget'), spec.get('only')
        )
        if not spec.get('only'):
            ks, kf = lib.run_clauses(getattr(mod, 'KNOWN', []), spec['seed'], 'quick')
            res['known_fails'] = kf
            res['known_run'] = len(ks['clauses'])
    with open(spec['out'], 'w') as f:
        json.dump(res, f, default=str)


if __name__ == '__main__':
    main()
