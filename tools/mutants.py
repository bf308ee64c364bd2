"""Development aid (no check runs it): apply text mutations of /repo in a scratch copy and see what the proof stage says.

usage: mutants.py [PROPERTY ...]    reads tools/mutants.json: {property: [[file, old, new], ...]}
"""

import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    muts = json.load(open(f'{HERE}/mutants.json'))
    for pid in sys.argv[1:] or sorted(muts):
        for f, old, new in muts[pid]:
            d = tempfile.mkdtemp(prefix='mut')
            try:
                shutil.copytree('/repo/gerabaldi', f'{d}/gerabaldi')
                p = f'{d}/gerabaldi/{f}'
                s = open(p).read()
                if s.count(old) < 1:
                    print(pid, 'STALE', f, repr(old))
                    continue
                open(p, 'w').write(s.replace(old, new, 1))
                code = ('import sys,json; sys.path.insert(0,"/verif"); sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages");'
                        'sys.setrecursionlimit(20000); from pyvc.prove import prove;'
                        f'r=prove({pid!r},"quick",None,{d!r}); print(json.dumps([[o["status"],o["id"],o["detail"][:150]] for o in r["obligations"] if o["status"]!="proved"]))')
                r = subprocess.run(['/opt/venv/bin/python', '-c', code], capture_output=True, text=True, cwd='/verif')
                try:
                    bad = json.loads(r.stdout.strip().splitlines()[-1])
                except Exception:
                    bad = [['error', '', (r.stdout + r.stderr)[-300:]]]
                kinds = {b[0] for b in bad}
                verdict = 'REFUTED' if 'refuted' in kinds else ('undecided' if bad else 'SURVIVED')
                print(pid, verdict, f, repr(new[:70]), '|', '; '.join(b[1] + ('' if b[0] == 'refuted' else f' ({b[0]}: {b[2]})') for b in bad[:4]), flush=True)
            finally:
                shutil.rmtree(d, ignore_errors=True)


main()
