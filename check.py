#!/opt/venv/bin/python
"""Decide one property of gerabaldi on /repo's current working tree.

  check.py CXX [--tier quick|thorough]     exit 0: held;  exit 1 and a VIOLATION line: broken
  check.py CXX --replay FILE               run the recorded failing case again

Two stages, both on the source found in /repo now:
 1. pyvc generates the obligations of the property's contracts from the real functions and discharges them (z3, cvc5).
 2. the same contracts are evaluated at run time on generated inputs of the real code.  This confirms refuted
    obligations with an input, and is the bounded stand-in for functions stage 1 could not bring within reach.
"""

import argparse
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable


def worker(mod, spec, limit):
    os.makedirs(os.path.join(HERE, 'out'), exist_ok=True)
    out = os.path.join(HERE, 'out', f'.{spec["property"]}-{mod.replace(".", "-")}-{os.getpid()}.json')
    spec = dict(spec, out=out)
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    try:
        p = subprocess.run([PY, '-m', mod, json.dumps(spec)], cwd=HERE, env=env, timeout=limit, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True)
        err = p.stderr[-4000:]
        if os.path.exists(out):
            with open(out) as f:
                return json.load(f), err
        return None, f'exit {p.returncode}\n{err}'
    except subprocess.TimeoutExpired:
        return None, f'no result within {limit} s'
    finally:
        if os.path.exists(out):
            os.unlink(out)


def known_findings():
    """lines 'finding: property=CXX clause=NAME what fails' of KNOWN_FINDINGS.txt"""
    found = {}
    try:
        with open(os.path.join(HERE, 'KNOWN_FINDINGS.txt')) as f:
            for line in f:
                w = line.split(None, 3)
                if len(w) == 4 and w[0] == 'finding:':
                    found[(w[1].partition('=')[2], w[2].partition('=')[2])] = w[3].strip()
    except FileNotFoundError:
        pass
    return found


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--no-proof', action='store_true')
    a = ap.parse_args()
    pid, t0 = a.property.upper(), time.time()
    left = lambda: (840 if a.tier == 'quick' else 7000) - (time.time() - t0)  # noqa: E731

    if a.replay:
        with open(a.replay) as f:
            rec = json.load(f)
        if 'case' not in rec:
            print(json.dumps(rec, indent=1))
            return 1
        res, err = worker('bounded.run', {'property': pid, 'replay': rec}, 300)
        print(json.dumps(res, indent=1) if res else err)
        return 1 if res and res.get('status') == 'violation' else 0

    # Stage 1: the deductive verifier
    proof, perr = (None, 'skipped') if a.no_proof else worker(
        'pyvc.prove', {'property': pid, 'tier': a.tier, 'seed': a.seed}, 400 if a.tier == 'quick' else 3000)
    obls = proof['obligations'] if proof else []
    by = {s: [o for o in obls if o['status'] == s] for s in ('proved', 'refuted', 'unknown', 'unsupported')}
    # Stage 2: run-time contract checks of the real code
    conc, cerr = worker('bounded.run', {'property': pid, 'tier': a.tier, 'seed': a.seed,
                                        'budget': 180 if a.tier == 'quick' else 2400}, 300 if a.tier == 'quick' else 3000)
    if conc is None:
        print(f'{pid}: the run-time contract worker gave no result: {cerr}', file=sys.stderr)
        if not by['refuted'] and (not obls or len(by['proved']) != len(obls)):
            return 2
        conc = {'summary': {'clauses': [], 'evaluations': 0, 'distinct_nontrivial': 0, 'samples': []}, 'fails': [],
                'known_fails': []}
    fails = conc['fails']
    if by['refuted'] and not fails:
        # Look harder for an input that shows the refuted obligation on the real code
        for k in range(1, 4):
            if left() < 110:
                break
            extra, _ = worker('bounded.run', {'property': pid, 'tier': 'thorough' if k == 1 else 'quick',
                                              'seed': a.seed + 1000 * k, 'budget': 60}, 105)
            if extra and extra['fails']:
                fails = extra['fails']
                break

    listed = known_findings()
    lines, violations = [], []
    for f in conc.get('known_fails', []):
        if (pid, f['clause']) in listed:
            lines.append(f'KNOWN-FINDING: property={pid} {listed[(pid, f["clause"])]}')
        else:
            violations.append(f)
    violations += fails
    os.makedirs(os.path.join(HERE, 'out'), exist_ok=True)
    if violations:
        path = os.path.join('out', f'{pid}-replay.json')
        rec = dict(violations[0])
        rec['property'] = pid
        rec['failed_obligations'] = by['refuted']
        rec['other_failures'] = violations[1:]
        rec['replay_cmd'] = f'{PY} check.py {pid} --replay {path}'
        with open(os.path.join(HERE, path), 'w') as f:
            json.dump(rec, f, indent=1, default=str)
        for v in violations:
            print(f'{pid}: contract {v["clause"]} of {v["functions"]} fails: {v["message"]}')
        for o in by['refuted']:
            print(f'{pid}: obligation {o["id"]} of {o["function"]} refuted')
        lines.append(f'VIOLATION property={pid} replay={path}')
    elif by['refuted']:
        path = os.path.join('out', f'{pid}-obligation.json')
        with open(os.path.join(HERE, path), 'w') as f:
            json.dump({'property': pid, 'failed_obligations': by['refuted'], 'note': 'no failing input was found: '
                       'the verifier refutes these obligations of the current source, and no generated input of the '
                       'real code shows the failure', 'inputs_tried': conc['summary']['evaluations']}, f, indent=1, default=str)
        for o in by['refuted']:
            print(f'{pid}: obligation {o["id"]} of {o["function"]} refuted: {o.get("detail", "")}')
        lines.append(f'VIOLATION property={pid} replay={path} no-failing-input-found')

    undecided = by['unknown'] + by['unsupported']
    complete = bool(obls) and not undecided and not by['refuted']
    s = conc['summary']
    cov = {
        'obligations': len(obls), 'discharged': len(by['proved']),
        'checker_cmd': f'{PY} -m pyvc.prove \'{{"property": "{pid}", "tier": "{a.tier}", "seed": {a.seed}, "out": "/dev/stdout"}}\'',
        'trusted_base': (proof or {}).get('trusted', []),
        'evaluations': s['evaluations'], 'distinct_nontrivial': s['distinct_nontrivial'],
        'rule': 'run-time contracts on generated inputs of the real code; a case is non-trivial when at least one '
                'contract clause was evaluated on it, distinct by its recorded inputs',
        'samples': s['samples'],
        'functions_under_contract': (proof or {}).get('functions', []),
        'discharged_by': (proof or {}).get('backends', {}),
        'solver_s': (proof or {}).get('solver_s', 0), 'paths': (proof or {}).get('paths', 0),
        'vacuity_checks': (proof or {}).get('vacuity', 0),
        'undecided': [{'id': o['id'], 'function': o['function'], 'why': o.get('detail', '')[:400]} for o in undecided],
        'refuted': [{'id': o['id'], 'function': o['function'], 'why': o.get('detail', '')[:400]} for o in by['refuted']],
        'bounded_contracts': s['clauses'],
        'bounded_note': 'bounded_contracts are run-time evaluations on generated inputs, never counted as discharged',
    }
    if proof is None:
        cov['proof_stage'] = f'no result: {perr[-600:]}'
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    level = 'proof' if complete else 'exploration'
    with open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump({'property': pid, 'tier': a.tier, 'seed': a.seed, 'level': level, 'coverage': cov,
                   'assumptions': (proof or {}).get('assumptions', []), 'wall_s': round(time.time() - t0, 2),
                   'violations': len(violations) or len(by['refuted'])}, f, indent=1, default=str)
    print(f'{pid}: {len(by["proved"])}/{len(obls)} obligations discharged, {len(undecided)} undecided, '
          f'{len(by["refuted"])} refuted; {s["evaluations"]} run-time contract evaluations; {time.time() - t0:.1f} s')
    for o in undecided[:12]:
        print(f'{pid}: undecided {o["id"]} ({o["function"]}): {o.get("detail", "")[:200]}')
    for line in lines:
        print(line)
    return 1 if violations or by['refuted'] else 0


if __name__ == '__main__':
    sys.exit(main())
