"""Worker: generate and discharge the obligations of one property from /repo's current source."""

from __future__ import annotations

import importlib
import json
import os
import sys
import time
import traceback

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.setrecursionlimit(20000)

REPO = os.environ.get('PYVC_REPO', '/repo')


class Loader:
    """allocates the objects of the module level: negative identities, present in every path"""


def make_interp(repo=None):
    from . import core, lib
    from .interp import Interp

    run = core.Run('load')
    run.fresh_id = lambda: -run_count(run)
    core.C.run = run
    run.region = None
    builtins, libs = lib.build()
    ip = Interp(repo or REPO, builtins, libs)
    for m in ('gerabaldi.exceptions', 'gerabaldi.helpers', 'gerabaldi.math', 'gerabaldi.models', 'gerabaldi.sim', 'gerabaldi.cookbook',
              'gerabaldi'):
        try:
            ip.module(m)
        except core.Unsupported:
            pass
    for oid, st in run.heap.items():
        ip.base_heap[oid] = st
    return ip


def run_count(run):
    run.counter += 1
    return run.counter


class Job:
    """one contract: exploring some of its paths in this process"""

    def __init__(self, ip, entry, tier):
        from . import core

        self.ip, self.cid, self.function, self.fn = ip, entry[0], entry[1], entry[3]
        self.run = self.fresh(tier)
        self.tier, self.called = tier, set()
        self.core = core

    def fresh(self, tier):
        from . import core

        return core.Run(self.cid, timeout_ms=8000 if tier == 'quick' else 30000, max_paths=20000)

    def explore(self, prefix, deadline, share=None, verbose=False):
        from contracts import kit

        run, ip = self.fresh(self.tier), self.ip
        run.deadline = deadline
        self.run = run

        def path():
            ip.stubs, ip.bypass, ip.loop_rules, ip.havoc = {}, set(), {}, {}
            ip.called, ip.on_assign, ip.entry_inv = {}, None, None
            run.heap.update(ip.base_heap)
            ip.logger_obj = None
            try:
                self.fn(kit.Kit(ip, run, self.cid, self.function))
            finally:
                self.called.update(ip.called)

        try:
            run.explore(path, self.function, prefix, share)
        except Exception as e:  # a defect of the generator itself: the contract stays undecided
            if verbose:
                traceback.print_exc()
            run.ob(f'{self.cid}.reach', self.function).merge('unsupported', 'generator', f'internal: {type(e).__name__}: {e}')
        return run


def serve(jobs, conn, hungry, deadline, verbose):
    """worker process: explore what is asked for, hand over open alternatives while others are idle"""
    from . import lib

    while True:
        task = conn.recv()
        if task is None:
            return
        i, prefix = task
        j = jobs[i]

        def share():
            if hungry.value > 0:
                d = j.run.donate()
                if d is not None:
                    with hungry.get_lock():
                        hungry.value -= 1
                    conn.send(('open', i, d))

        run = j.explore(prefix, deadline, share, verbose)
        conn.send(('done', i, run.dump(), sorted(j.called), sorted(lib.USED)))


def prove(pid, tier='quick', only=None, repo=None, verbose=False, procs=None):
    from multiprocessing import Pipe, Process, Value
    from multiprocessing.connection import wait

    from . import lib
    from contracts import kit

    t0 = time.time()
    kit.REGISTRY.clear()
    for m in [m for m in sys.modules if m.startswith('contracts.c')]:
        del sys.modules[m]
    name = f'contracts.{pid.lower()}'
    try:
        mod = importlib.import_module(name)
    except ModuleNotFoundError:
        return {'obligations': [], 'functions': [], 'backends': {}, 'solver_s': 0, 'paths': 0, 'vacuity': 0, 'trusted': [], 'assumptions': []}
    depends = list(getattr(mod, 'DEPENDS', ()))  # contracts of callees that are used here: discharged here as well
    for d in depends:
        importlib.import_module(f'contracts.{d.split(".")[0].lower()}')
    ip = make_interp(repo)
    lib.USED.clear()
    out = {'obligations': [], 'functions': [], 'backends': {}, 'solver_s': 0.0, 'paths': 0, 'vacuity': 0}
    budget = 330 if tier == 'quick' else 2400
    todo = [c for c in kit.REGISTRY if (c[0].startswith(pid + '.') or c[0] in depends) and (not only or c[0].startswith(only))]
    called, used = set(), set()
    jobs = [Job(ip, c, tier) for c in todo]
    total = [j.fresh(tier) for j in jobs]
    n = procs if procs is not None else int(os.environ.get('PYVC_PROCS', os.cpu_count() or 4))
    deadline = t0 + budget
    queue = [(i, []) for i in range(len(jobs))]
    if n <= 1:
        for i, prefix in queue:
            total[i].absorb(jobs[i].explore(prefix, deadline, None, verbose).dump())
            called |= jobs[i].called
        used |= set(lib.USED)
    elif jobs:
        hungry = Value('i', 0)
        idle, busy, procs_ = [], {}, []
        for _ in range(n):
            a, b = Pipe()
            p = Process(target=serve, args=(jobs, b, hungry, deadline, verbose), daemon=True)
            p.start()
            b.close()
            procs_.append((p, a))
            idle.append(a)
        while queue or busy:
            while queue and idle:
                i, prefix = queue.pop(0)
                c = idle.pop()
                c.send((i, prefix))
                busy[c] = (i, prefix)
            with hungry.get_lock():
                hungry.value = max(0, len(idle) + 1 - len(queue)) if not queue or len(queue) < 2 else 0
            ready = wait(list(busy), timeout=5)
            for c in ready:
                try:
                    msg = c.recv()
                except (EOFError, OSError):
                    i, _ = busy.pop(c)
                    total[i].ob(f'{todo[i][0]}.reach', todo[i][1]).merge('unsupported', 'generator', 'a worker process ended unexpectedly')
                    continue
                if msg[0] == 'open':
                    queue.append((msg[1], msg[2]))
                else:
                    i, _ = busy.pop(c)
                    total[i].absorb(msg[2])
                    called |= set(msg[3])
                    used |= set(msg[4])
                    idle.append(c)
            if time.time() > deadline + 40:
                for c, (i, _) in busy.items():
                    total[i].ob(f'{todo[i][0]}.explored', todo[i][1]).merge('unknown', 'generator', 'time budget of the proof stage exceeded')
                break
        for p, a in procs_:
            p.kill()
    for run, (cid, function, _, _) in zip(total, todo):
        run.finish(function)
        incomplete = next((o for o in run.obligs.values() if o.id.endswith(('.reach', '.explored', '.vacuity', '.history')) and o.status != 'proved'), None)
        for o in sorted(run.obligs.values(), key=lambda o: o.id):
            st, det = o.status, o.detail
            if incomplete is not None and st == 'proved':
                st, det = 'unknown', f'exploration incomplete: {incomplete.detail}'
            out['obligations'].append({'id': o.id, 'function': o.function, 'status': st, 'detail': det, 'model': o.model, 'backend': o.backend,
                                       'paths': o.count, 'time_s': round(o.time, 3)})
        if verbose:
            print(f'{cid}: paths {run.paths} queries {run.queries} solver {run.solver_s:.2f}s wall {time.time() - t0:.1f}', file=sys.stderr)
        for b, k in run.backends.items():
            out['backends'][b] = out['backends'].get(b, 0) + k
        syn = sum(1 for o in run.obligs.values() if o.status == 'proved' and o.backend == 'syntactic')
        out['backends']['generator (goal simplified to true)'] = out['backends'].get('generator (goal simplified to true)', 0) + syn
        out['solver_s'] += run.solver_s
        out['paths'] += run.paths
        out['vacuity'] += run.vacuity
    out['solver_s'] = round(out['solver_s'], 3)
    out['functions'] = sorted({f for _, f, _, _ in todo} | called)
    out['trusted'] = ['pyvc (the obligation generator in /verif/pyvc)', 'z3 4.x python binding', 'cvc5 (fallback)',
                      *[f'library model: {u}' for u in sorted(used)]]
    out['assumptions'] = [*COMMON, *getattr(mod, 'ASSUMPTIONS', [])]
    return out


COMMON = ['machine arithmetic is treated as mathematical (real) arithmetic; integers are unbounded',
          'calls of the package logger and docstrings are dropped from the verified text',
          'user supplied equations are functions of their keyword arguments (no hidden state)']


def main():
    spec = json.loads(sys.argv[1])
    res = prove(spec['property'], spec.get('tier', 'quick'), spec.get('only'), verbose=bool(os.environ.get('PYVC_VERBOSE')))
    with open(spec['out'], 'w') as f:
        json.dump(res, f)


if __name__ == '__main__':
    main()
