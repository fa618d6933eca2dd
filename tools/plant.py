"""Builds and confirms one planted bug: plant.py SPEC.py [--nocheck]

SPEC.py sets ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)] and DEMO
(Python text using demo_lib). Everything runs in a scratch copy of /repo."""
import json
import os
import runpy
import shutil
import subprocess
import sys

V = '/verif'
PY = '/opt/venv/bin/python'


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            universal_newlines=True, **kw)


def main():
    spec = runpy.run_path(sys.argv[1])
    pid, name = spec['PROPERTY'], spec['ID']
    work = '/tmp/pl/' + name
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    repo = work + '/repo'
    shutil.copytree('/repo', repo, symlinks=True)
    for f, old, new in spec['EDITS']:
        p = os.path.join(repo, f)
        s = open(p).read()
        if s.count(old) != 1:
            print('EDIT: %d matches in %s: %s' % (s.count(old), f, old))
            return 2
        open(p, 'w').write(s.replace(old, new))
    diff = sh(['git', 'diff'], cwd=repo).stdout
    # the removed lines have to be original ones
    ok = True
    for f in {e[0] for e in spec['EDITS']}:
        base = subprocess.run(['git', 'show', '35e226b:' + f], cwd='/repo',
                stdout=subprocess.PIPE, universal_newlines=True).stdout.splitlines()
        cur = sh(['git', 'diff', '-U0', '--', f], cwd=repo).stdout.splitlines()
        for l in cur:
            if l.startswith('-') and not l.startswith('---') and l[1:] not in base:
                print('NOT ORIGINAL: ' + l)
                ok = False
    out = os.path.join(V, 'seeded', name)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    open(out + '/patch.diff', 'w').write(diff)
    open(out + '/demo.py', 'w').write(spec['DEMO'].lstrip('\n'))
    shutil.copy(V + '/tools/demo_lib.py', out)
    for f, text in spec.get('FILES', {}).items():
        os.makedirs(os.path.dirname(out + '/' + f), exist_ok=True)
        open(out + '/' + f, 'w').write(text)
    open(out + '/demo.sh', 'w').write('#!/bin/bash\n'
            'here=$(cd "$(dirname "$0")" && pwd)\n'
            'exec /opt/venv/bin/python -B "$here/demo.py"\n')
    os.chmod(out + '/demo.sh', 0o755)
    json.dump({'property': pid, 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']},
            open(out + '/meta.json', 'w'), indent=1)
    a = sh(['bash', out + '/demo.sh'], cwd='/repo')
    b = sh(['bash', out + '/demo.sh'], cwd=repo)
    if a.returncode != 0:
        print('DEMO fails on clean:\n' + a.stdout[-1500:])
        ok = False
    if b.returncode == 0:
        print('DEMO passes with patch')
        ok = False
    else:
        print('demo: ' + b.stdout.strip()[-200:])
    # existing tests on the patched copy
    shutil.copytree('/opt/vp/driver', work + '/driver')
    os.symlink('/opt/vp/keys', work + '/keys')
    t = open('/opt/vp/test.sh').read().replace('/opt/vp/driver', work + '/driver'
            ).replace('PYTHONPATH=/repo', 'PYTHONPATH=' + repo).replace('cd /repo', 'cd ' + repo)
    open(work + '/test.sh', 'w').write(t)
    d = open(work + '/driver/test_specs.py').read()
    open(work + '/driver/test_specs.py', 'w').write(d.replace("'/repo'", repr(repo)))
    r = sh(['bash', work + '/test.sh', work + '/o.json'])
    res = json.load(open(work + '/o.json'))
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    passed = res.get('passed', res)
    bad = [s for s in stable if s not in set(passed)]
    if bad or 'librksv' not in d:
        print('TESTS: %d stable tests fail, e.g. %s' % (len(bad), bad[:2]))
        ok = False
    if '--nocheck' not in sys.argv:
        e = dict(os.environ, RKSV_VERIF_REPO=repo, VERIF_SEED='1', VERIF_TIER='quick')
        r = sh([V + '/check.sh', pid], cwd=V, env=e)
        hit = r.returncode == 1 and 'VIOLATION property=%s' % pid in r.stdout
        print('check %s: rc %d %s' % (pid, r.returncode, 'CAUGHT' if hit else 'MISSED'))
        rf = V + '/tools/results.json'
        results = json.load(open(rf))
        results[name] = ('caught by ' if hit else 'MISSED by ') + pid
        json.dump(results, open(rf, 'w'), indent=1, sort_keys=True)
        print('\n'.join(l for l in r.stdout.splitlines() if 'KNOWN' not in l)[-500:])
    print('%s %s' % (name, 'ok' if ok else 'NOT OK'))
    shutil.rmtree(work)
    return 0 if ok else 1


sys.exit(main())
