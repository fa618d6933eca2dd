"""Check runner: exhaustively runs every case of a check in forked workers.

A check module provides
    ID, LEVEL, RULE, ASSUMPTIONS (optional)
    cases()          -> list of JSON-able case descriptors (the bounded space)
    run(case, rep)   -> explores one case completely, reporting through rep
Every case is executed on every run; VERIF_SEED only permutes the order.
"""
import hashlib
import importlib
import json
import multiprocessing
import os
import pickle
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import env

CASE_TIMEOUT = 400
MAX_VIOLATIONS = 25


class CaseTimeout(BaseException):
    pass


class Abort(Exception):
    """Stop exploring this case; a violation was already recorded."""


def _h(obj):
    if not isinstance(obj, bytes):
        obj = json.dumps(obj, sort_keys=True, default=repr).encode('utf-8', 'surrogatepass')
    return hashlib.blake2b(obj, digest_size=8).digest()


class Report(object):
    def __init__(self):
        self.counts = {}
        self.outcomes = {}
        self.states = set()
        self.samples = []
        self.violations = []
        self.known = {}
        self.case = None
        self.known_keys = {}

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def ev(self, n=1):
        self.count('transitions', n)

    def trace(self, n=1):
        self.count('traces', n)

    def state(self, obj):
        self.states.add(_h(obj))

    def outcome(self, name):
        self.outcomes[name] = self.outcomes.get(name, 0) + 1

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj)

    def fail(self, msg, detail=None, key=None):
        """Record a violation, unless it is a listed known finding."""
        if key is not None and key in self.known_keys:
            self.known[key] = self.known.get(key, 0) + 1
            return
        if len(self.violations) < MAX_VIOLATIONS:
            self.violations.append({'case': self.case, 'message': msg,
                'detail': detail, 'key': key})
        self.count('violations')

    def expect(self, got, want, what, detail=None, key=None):
        if got != want:
            self.fail('%s: got %r, expected %r' % (what, got, want), detail, key)
            return False
        return True

    def merge(self, o):
        for k, v in o.counts.items():
            self.counts[k] = self.counts.get(k, 0) + v
        for k, v in o.outcomes.items():
            self.outcomes[k] = self.outcomes.get(k, 0) + v
        self.states |= o.states
        for s in o.samples:
            self.sample(s)
        self.violations += o.violations
        for k, v in o.known.items():
            self.known[k] = self.known.get(k, 0) + v


def load_known(pid):
    path = os.path.join(env.VERIF, 'known_findings.json')
    with open(path) as f:
        data = json.load(f)
    return {k['key']: k['what'] for k in data['findings'] if k['property'] == pid}


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(mod, case, rep):
    rep.case = case
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        mod.run(case, rep)
    except Abort:
        pass
    except CaseTimeout:
        rep.fail('no result within %d s (hang)' % CASE_TIMEOUT,
                traceback.format_exc()[-3000:])
    except Exception as e:
        rep.fail('unexpected %s: %s' % (type(e).__name__, e),
                traceback.format_exc()[-3000:])
    finally:
        signal.alarm(0)


def _worker(mod, cases, order, counter, current, slot, path, known_keys):
    rep = Report()
    rep.known_keys = known_keys
    random.seed(env.SEED)
    n = len(order)
    while True:
        with counter.get_lock():
            i = counter.value
            counter.value = i + 1
        if i >= n:
            break
        current[slot] = order[i]
        run_case(mod, cases[order[i]], rep)
        if len(rep.violations) >= MAX_VIOLATIONS:
            with counter.get_lock():
                counter.value = n
            break
    current[slot] = -1
    with open(path, 'wb') as f:
        pickle.dump(rep, f)


def scratch_dir():
    return tempfile.mkdtemp(prefix='rksvmc-')


def main(argv):
    pid = argv[0]
    t0 = time.time()
    mod = importlib.import_module('mc.checks.' + pid.lower())
    known = load_known(pid)

    if len(argv) >= 3 and argv[1] == '--replay':
        with open(argv[2]) as f:
            d = json.load(f)
        rep = Report()
        rep.known_keys = known
        base = scratch_dir()
        os.environ['RKSVMC_SCRATCH'] = base
        try:
            run_case(mod, d['case'], rep)
        finally:
            shutil.rmtree(base, ignore_errors=True)
        for v in rep.violations[:5]:
            print(v['message'])
            print(json.dumps(v['detail'], indent=1, default=repr)[:4000])
        print('replay: %d violation(s)' % len(rep.violations))
        return 1 if rep.violations else 0

    cases = list(mod.cases())
    order = list(range(len(cases)))
    random.Random(env.SEED).shuffle(order)
    total = Report()
    base = scratch_dir()
    os.environ['RKSVMC_SCRATCH'] = base
    try:
        nw = max(1, min(env.NPROC, len(cases)))
        counter = multiprocessing.Value('l', 0)
        current = multiprocessing.Array('l', [-1] * nw)
        procs = []
        for s in range(nw):
            path = os.path.join(base, 'rep%d' % s)
            p = multiprocessing.Process(target=_worker, args=(mod, cases, order,
                counter, current, s, path, set(known)))
            p.start()
            procs.append((p, path, s))
        for p, path, s in procs:
            p.join()
            if os.path.exists(path):
                with open(path, 'rb') as f:
                    total.merge(pickle.load(f))
            else:
                i = current[s]
                total.case = cases[i] if i >= 0 else None
                total.fail('worker process died (exit code %r)' % p.exitcode)
    finally:
        shutil.rmtree(base, ignore_errors=True)

    wall = time.time() - t0
    write_evidence(mod, pid, total, cases, wall)

    for key in sorted(total.known):
        print('KNOWN-FINDING: property=%s %s' % (pid, known[key]))
    summary = {'cases': len(cases), 'states': len(total.states), 'wall_s': round(wall, 1)}
    summary.update(total.counts)
    print('%s: %s' % (pid, json.dumps(summary, sort_keys=True)))
    print('%s outcomes: %s' % (pid, json.dumps(dict(sorted(
        total.outcomes.items(), key=lambda x: -x[1])[:40]))))
    if total.violations:
        rdir = os.path.join(env.VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        for n, v in enumerate(total.violations[:5]):
            rpath = os.path.join(rdir, '%s-%d.json' % (pid, n))
            with open(rpath, 'w') as f:
                json.dump(dict(v, property=pid), f, indent=1, default=repr)
            print('  %s' % v['message'][:1500])
            print('  case: %s' % json.dumps(v['case'], default=repr)[:1000])
            print('VIOLATION property=%s replay=%s' % (pid, rpath))
        return 1
    return 0


def write_evidence(mod, pid, rep, cases, wall):
    c = dict(rep.counts)
    viol = c.pop('violations', 0)
    transitions = c.pop('transitions', 0)
    traces = c.pop('traces', 0)
    cov = {'exhaustive': True, 'cases': len(cases), 'rule': mod.RULE,
            'samples': rep.samples or [cases[0] if cases else None],
            'outcomes': rep.outcomes}
    if mod.LEVEL == 'model_checking':
        cov.update(states=len(rep.states), transitions=transitions,
                traces_validated_against_impl=traces)
    else:
        cov.update(evaluations=transitions, distinct_nontrivial=len(rep.states))
        if traces:
            cov['traces'] = traces
    cov.update(c)
    ev = {'property': pid, 'tier': 'thorough' if env.THOROUGH else 'quick',
            'seed': env.SEED, 'level': mod.LEVEL, 'coverage': cov,
            'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
            'wall_s': round(wall, 2), 'violations': viol}
    os.makedirs(os.path.join(env.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(env.VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
