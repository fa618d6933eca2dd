"""One-line mutants: mutants.py SPEC [-j N] [names...]

SPEC is a Python file with M = [(name, property, file, old, new), ...]. Every
mutant is applied in a scratch copy of /repo; if the stable tests still pass,
the property's quick check is run on the copy. Prints one line per mutant:
TESTS (killed by the existing tests), CAUGHT, MISSED or ERROR."""
import json
import os
import runpy
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = '/verif'
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            universal_newlines=True, errors='replace', **kw)


def tests(repo, work):
    shutil.copytree('/opt/vp/driver', work + '/driver')
    os.symlink('/opt/vp/keys', work + '/keys')
    t = open('/opt/vp/test.sh').read().replace('/opt/vp/driver', work + '/driver'
            ).replace('PYTHONPATH=/repo', 'PYTHONPATH=' + repo).replace('cd /repo', 'cd ' + repo)
    open(work + '/test.sh', 'w').write(t)
    d = open(work + '/driver/test_specs.py').read()
    open(work + '/driver/test_specs.py', 'w').write(d.replace("'/repo'", repr(repo)))
    sh(['bash', work + '/test.sh', work + '/o.json'])
    try:
        res = json.load(open(work + '/o.json'))
    except (OSError, ValueError):
        return STABLE
    ok = set(res.get('passed', res))
    return [s for s in STABLE if s not in ok]


def one(m, procs):
    name, pid, f, old, new = m
    work = '/tmp/mu/' + name
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    repo = work + '/repo'
    try:
        shutil.copytree('/repo', repo, symlinks=True)
        p = os.path.join(repo, f)
        s = open(p).read()
        if s.count(old) != 1:
            return 'ERROR', '%d matches' % s.count(old)
        open(p, 'w').write(s.replace(old, new))
        try:
            compile(s.replace(old, new), f, 'exec')
        except SyntaxError as e:
            return 'ERROR', str(e)
        bad = tests(repo, work)
        if bad:
            return 'TESTS', '%d fail' % len(bad)
        out = []
        for one_pid in pid.split('+'):
            e = dict(os.environ, RKSV_VERIF_REPO=repo, VERIF_SEED='1', VERIF_TIER='quick',
                    RKSV_VERIF_PROCS=str(procs))
            r = sh([V + '/check.sh', one_pid], cwd=V, env=e)
            if r.returncode == 1 and 'VIOLATION property=%s' % one_pid in r.stdout:
                return 'CAUGHT', one_pid + ' ' + [l for l in r.stdout.splitlines()
                        if 'VIOLATION' not in l and 'KNOWN' not in l][-1][:160]
            out.append('%s rc %d' % (one_pid, r.returncode))
        return 'MISSED', '; '.join(out)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    args = sys.argv[1:]
    jobs = 2
    if '-j' in args:
        i = args.index('-j')
        jobs = int(args[i + 1])
        del args[i:i + 2]
    spec = runpy.run_path(args[0])['M']
    if args[1:]:
        spec = [m for m in spec if m[0] in args[1:]]
    names = [m[0] for m in spec]
    assert len(set(names)) == len(names), 'names'

    def run(m):
        try:
            st, msg = one(m, max(1, 8 // jobs))
        except Exception as e:
            st, msg = 'ERROR', repr(e)
        print('%-7s %-28s %-8s %s' % (st, m[0], m[1], msg), flush=True)
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(run, spec))


main()
