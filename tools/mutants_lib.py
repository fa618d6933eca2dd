"""Runs the stable tests and the checks on a changed copy of /repo."""
import json
import os
import shutil
import subprocess

V = '/verif'
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            universal_newlines=True, errors='replace', **kw)


def tests(repo, work, fast=False):
    shutil.copytree('/opt/vp/driver', work + '/driver')
    os.symlink('/opt/vp/keys', work + '/keys')
    t = open('/opt/vp/test.sh').read().replace('/opt/vp/driver', work + '/driver'
            ).replace('PYTHONPATH=/repo', 'PYTHONPATH=' + repo).replace('cd /repo', 'cd ' + repo)
    if fast:
        t = t.replace('pytest -q', 'pytest -q -x').replace('-n 8', '-n 2')
    open(work + '/test.sh', 'w').write(t)
    d = open(work + '/driver/test_specs.py').read()
    open(work + '/driver/test_specs.py', 'w').write(d.replace("'/repo'", repr(repo)))
    sh(['bash', work + '/test.sh', work + '/o.json'])
    try:
        res = json.load(open(work + '/o.json'))
    except (OSError, ValueError):
        return STABLE
    ok = set(res.get('passed', res))
    return [s for s in STABLE if s not in ok]


def judge(name, f, text, pids, procs):
    work = '/tmp/mu/' + name
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    repo = work + '/repo'
    try:
        shutil.copytree('/repo', repo, symlinks=True)
        open(os.path.join(repo, f), 'w').write(text)
        bad = tests(repo, work, True)
        if bad:
            return 'TESTS', '%d fail' % len(bad)
        out = []
        for pid in pids:
            e = dict(os.environ, RKSV_VERIF_REPO=repo, VERIF_SEED='1', VERIF_TIER='quick',
                    RKSV_VERIF_PROCS=str(procs))
            try:
                r = sh([V + '/check.sh', pid], cwd=V, env=e, timeout=900)
            except subprocess.TimeoutExpired:
                return 'TIMEOUT', pid
            if r.returncode == 1 and 'VIOLATION property=%s' % pid in r.stdout:
                return 'CAUGHT', pid
            out.append('%s%s' % (pid, '' if not r.returncode else ' rc %d' % r.returncode))
        return 'MISSED', ' '.join(out)
    finally:
        shutil.rmtree(work, ignore_errors=True)
