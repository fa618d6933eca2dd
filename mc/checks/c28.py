"""C28: verify.py and verify_receipt.py report success exactly for valid input."""
import itertools
import json
import os
import re
import subprocess

import requests

from .. import drive, env, ref, scripts
from ..world import SYS, cuts
from .c07 import BASES, FAULTS, Two, build, dep_of, expected, system
from .c20 import answer, boom
from .c21 import Dir
from .c26 import Net, pool, verdict

ID = 'C28'
LEVEL = 'exploration'
RULE = ('verify.py (also with every worker dawdling while it reports): 3 base histories plus every fault class at every position and every duplicate ID, '
    'for 4 systems, from an empty, a continued, a two-register and a cluster state, x {no state, '
    'new, continue, index} x {no par, 1, 2, 3} x chunk sizes x json word; all malformed inputs; '
    'all argument words of up to 4 of 9 tokens; verify_receipt.py: all words of up to 3 of 7 '
    'kinds of lines x 5 formats x argument/stdin. Judged by the reference model')
ASSUMPTIONS = ['The command may stop at a URL from which nothing can be fetched.',
    'A register index below 0 may be refused.']

SUCCESS = 'Verification successful.'
FORMATS = ('jws', 'qr', 'ocr', 'csv', 'url')
SYSTEMS = ('open-cert', 'closed-ks', 'open-nokey', 'open-two')
TOKENS = ['state', 'continue', '0', '7', 'par', '2', 'chunksize', 'json', 'x']


def cases():
    ret = []
    T = (0, 0.1, 0.3, 0.6) if env.THOROUGH else (0, 0.3)
    ret += [['slow', 0.3, 2, x, k] for x in (0.6, 1) for k in (0.6, 1)]
    ret += [['slow', p, h, x, k] for p in T for h in T for x in T for k in T if p or h or not (x or k)]
    for s in SYSTEMS:
        for b in (range(len(BASES)) if env.THOROUGH else {'open-cert': (4,), 'closed-ks': (3,),
                'open-nokey': (1,), 'open-two': (2,)}[s]):
            ret += [['dep', s, b, f] for f in [None] + FAULTS + ['dup']]
    ret += [['par', s, b] for s in SYSTEMS for b in ((1, 4) if env.THOROUGH else (4,))]
    ret += [['cluster', s, par] for s in ('closed-ks', 'open-cert') for par in (None, 2)]
    ret += [['bad', i] for i in range(len(BAD))]
    ret += [['badks', i] for i in range(len(BADKS))]
    ret += [['badstate', i] for i in range(len(BADSTATE))]
    ret += [['args', a, b] for a in TOKENS for b in TOKENS] + [['env']]
    ret += [['rec', f, k] for f in FORMATS for k in KINDS] + [['recbad', f] for f in FORMATS]
    ret += [['recall', f] for f in FORMATS]
    return ret


def put(d, name, text):
    p = os.path.join(d, name)
    with open(p, 'w', encoding='utf-8') as f:
        f.write(text if isinstance(text, str) else json.dumps(text))
    return p


def judge(rep, o, valid, want, what, detail, passthrough=False):
    """want: state JSON or None"""
    rep.ev()
    rep.trace()
    rep.outcome('valid' if valid else 'invalid')
    said = SUCCESS in o.err or SUCCESS in o.out
    if valid:
        if o.rc != 0 or not said:
            rep.fail('%s: valid input not reported as such: %r' % (what, o), detail)
            return False
    else:
        if o.rc == 0 or said:
            rep.fail('%s: success reported: %r' % (what, o), detail)
            return False
        if o.out.strip():
            rep.fail('%s: output in spite of the failure: %r' % (what, o), detail)
            return False
        return True
    if not passthrough:
        if o.out.strip():
            rep.fail('%s: printed %r' % (what, o.out), detail)
        return True
    try:
        got = drive.norm_state(json.loads(o.out))
    except ValueError:
        rep.fail('%s: no state printed: %r' % (what, o), detail)
        return False
    if want is not None and got != drive.norm_state(want):
        rep.fail('%s: state differs' % what, {'got': got, 'want': want, 'detail': detail})
        return False
    return True


def histories(S, b, fault):
    if fault is None:
        return [('valid', build(S, BASES[b]))]
    if fault == 'dup':
        return [('ID %d = %d' % (i, j), build(S, BASES[b], dup=(i, j))) for i in range(5) for j in range(i)]
    return [('%s at %d' % (fault, i), build(S, BASES[b], fault, i)) for i in range(5)]


def grouped(S, n, off):
    if isinstance(S, Two):
        return [[1] * n]
    if not S.cert:
        return [[n]]
    return [[n], [1] * n]


OTHER = ref.RState('other', 'receipts', 5, True, 'x')


def history(rep, d, S, recs, what, pars=(None,), chunks=(None, 0, 1, 2), wide=True):
    ksf = put(d, 'ks', S.ks)
    for cut in (0, 2):
        if cut:
            exp0 = expected(S, recs)
            if exp0[1] and exp0[0] < cut:
                continue
            _, _, st, used = ref.walk(recs[:cut], S.ctx_of)
        else:
            st, used = None, set()
        at, V, fst, fu = expected(S, recs[cut:], st, used, cut)
        for parts in grouped(S, len(recs) - cut, cut)[:None if wide else 1]:
            depf = put(d, 'dep', dep_of(S, [r[0] for r in recs[cut:]], parts, cut))
            states = [(None, [])]
            if cut:
                one, two = drive.cluster_json([st], used), drive.cluster_json([OTHER, st], used)
                three = drive.cluster_json([st, OTHER], used)
                states = [(one, ['continue']), (one, ['0']), (two, ['continue']), (two, ['1']), (three, ['0'])]
            else:
                em, reg = drive.cluster_json([], []), drive.cluster_json([ref.RState()], [])
                two = drive.cluster_json([ref.RState(), OTHER], [])
                states += [(em, []), (reg, ['continue']), (reg, ['0']), (two, ['0']), (em, ['0']),
                    (None, ['continue']), (None, ['0'])]
            for sj, sel in states if wide else states[1::2]:
                for par in pars:
                    for cs in chunks:
                        for js in ((), ('json',)) if par is None and cs is None else ((),):
                            args = (['state'] if sj is not None else []) + sel
                            args += ['par', str(par)] if par is not None else []
                            args += ['chunksize', str(cs)] if cs is not None else []
                            args += list(js) + [ksf, depf]
                            o = scripts.run('verify.py', args, stdin=json.dumps(sj) if sj else '', cwd=d)
                            bad = bool(V)
                            want = None
                            if sj is not None:
                                regs = list(sj['cashRegisters'])
                                i = (len(regs) - 1 if sel == ['continue'] else int(sel[0])) if sel else len(regs)
                                regs[i:i + 1] = [fst.json()]
                                want = drive.cluster_json(regs, fu)
                            judge(rep, o, not bad, want, '%s %s' % (what, ' '.join(args[:-2])),
                                [r[0] for r in recs[cut:]], sj is not None)
                            rep.state((S.name, what, cut, parts, sel, sj is not None, par, cs, len(js)))
                        if rep.violations and len(rep.violations) > 5:
                            return


def cluster(rep, sysname, par):
    """New registers of a GGS cluster: chained to the previous start receipt."""
    S = SYS[sysname]
    g = S.register()
    first = [g.make(), g.make('std', 5)]
    _, _, st, used = ref.walk(first, S.ctx_of)
    for prev in (None, 'right', 'wrong'):
        for n in (1, 3):
            h = S.register(reg='KASSE-2', prefix='C', prev={'right': first[0][0], 'wrong': first[1][0]}.get(prev))
            recs = [h.make()] + [h.make('std', 7) for _ in range(n - 1)]
            for regs in ([st], [OTHER, st], [st, ref.RState()]):
                ps = regs[-1].start
                for where in ('new', 'continue'):
                    k = len(regs) if where == 'new' else len(regs) - 1
                    if where == 'continue' and regs[-1] is st:
                        base, ps2 = st, None
                    else:
                        base, ps2 = None, regs[k - 1].start if k else None
                    at, V, fst, fu = ref.walk(recs, S.ctx_of, base, used, ps2)
                    want = [r.json() for r in regs]
                    want[k:k + 1] = [fst.json()]
                    with Dir() as d:
                        ksf, depf = put(d, 'ks', S.ks), put(d, 'dep', dep_of(S, [r[0] for r in recs], [n]))
                        for cs in (None, '0', '1'):
                            args = ['state'] + (['continue'] if where == 'continue' else [])
                            args += ['par', str(par)] if par else []
                            args += ['chunksize', cs] if cs else []
                            o = scripts.run('verify.py', args + [ksf, depf],
                                stdin=json.dumps(drive.cluster_json(regs, used)), cwd=d)
                            # refused if the last register has not started
                            nostart = where == 'new' and ps2 is None
                            judge(rep, o, not V and not nostart, drive.cluster_json(want, fu), 'cluster %s, chained to %s, %s' % (
                                where, prev, args), [r[0] for r in recs], True)
                            rep.state((sysname, prev, n, len(regs), where, cs, par))


def good():
    S = SYS['open-cert']
    g = S.register()
    return S, [g.make(), g.make('std', 5), g.make('dummy', 3)]


S0, R0 = good()
D0 = json.dumps(S0.dep([r[0] for r in R0]))
J0 = [r[0] for r in R0]
G0 = json.loads(D0)['Belege-Gruppe'][0]


def mod(**kw):
    g = dict(G0)
    for k, v in kw.items():
        k = {'z': 'Zertifizierungsstellen', 's': 'Signaturzertifikat', 'b': 'Belege-kompakt'}[k]
        if v is KeyError:
            del g[k]
        else:
            g[k] = v
    return json.dumps({'Belege-Gruppe': [g]})


BAD = ['', 'x', '{', '[]', '{}', 'null', '{"Belege-Gruppe": {}}', '{"Belege-Gruppe": null}', '{"Belege-Gruppe": [1]}',
    '{"Belege-Gruppe": [[]]}', '{"Belege-Gruppe": "abc"}', mod(z=KeyError), mod(s=KeyError), mod(b=KeyError), mod(z=''),
    mod(z=[1]), mod(s=[]), mod(s='abc'), mod(s=None), mod(b={}), mod(b='abc'), mod(b=[1]), mod(b=J0 + [None]),
    mod(b=J0 + ['']), mod(b=J0 + [J0[2][:-1]]), mod(b=[J0]), mod(b=J0[::-1]), mod(b=J0 + J0), D0[:-1], D0[:-2], D0[:-3],
    D0[:len(D0) // 2], D0 + '}', D0 + D0, D0 + 'x', mod(z=['abc']), mod(s=ref.cert_b64('leaf1self')), None]
BADKS = ['', 'x', '{', '[]', '{}', 'null', json.dumps(ref.keystore()),
    json.dumps(ref.keystore(['leaf1self'])), json.dumps(ref.keystore(['leaf0self'], (), 'AAAA')),
    json.dumps(ref.keystore(['leaf0self'], (), 'x')), json.dumps(ref.keystore(['leaf0self'], (), 5)),
    json.dumps(ref.keystore(['leaf0self'], (), ref.base64.b64encode(ref.AESKEY2).decode())),
    json.dumps(ref.keystore(['leaf0self'], (), ref.base64.b64encode(ref.AESKEY[:31]).decode())),
    json.dumps(dict(ref.keystore(['leaf0self']), certificateOrPublicKeyMap={'a': {}})),
    json.dumps(dict(ref.keystore(['leaf0self']), certificateOrPublicKeyMap=[])), None]
BADSTATE = ['', 'x', '{', '[]', '{}', 'null', '5', '"a"',
    json.dumps({'cashRegisters': []}), json.dumps({'usedReceiptIds': drive.cluster_json([], [])['usedReceiptIds']}),
    json.dumps(drive.cluster_json([{}], [])), json.dumps(drive.cluster_json([None], [])),
    json.dumps(dict(drive.cluster_json([], []), cashRegisters={})),
    json.dumps(drive.cluster_json([], [], 'unknown')), json.dumps(drive.cluster_json([], []))[:-1],
    json.dumps(drive.cluster_json([], ['B1'])), json.dumps(drive.cluster_json([], ['B0']))]
OPTS = [[], ['chunksize', '0'], ['chunksize', '1'], ['chunksize', '2'], ['par', '2'],
    ['par', '2', 'chunksize', '0'], ['par', '3', 'chunksize', '1']]


def args_case(rep, a, b):
    """Every argument word is run, refused or only explained."""
    rests = [[]] + [[t] for t in TOKENS] + [[t, u] for t in TOKENS for u in TOKENS]
    if env.THOROUGH:
        rests += [[t, u, v] for t in TOKENS for u in TOKENS for v in TOKENS]
    with Dir() as d:
        put(d, 'ks', S0.ks)
        put(d, 'dep', D0)
        put(d, 'dep.bad', mod(b=J0[:1] + J0[2:]))
        st = json.dumps(drive.cluster_json([], []))
        at, V, fst, fu = ref.walk(R0, S0.ctx_of)
        for rest in rests:
            words = [a, b] + rest
            verdict_, par, sp = grammar(words)
            for dep in ('dep', 'dep.bad'):
                if par and (dep == 'dep.bad' or len(words) > 4):
                    continue
                o = scripts.run('verify.py', words + ['ks', dep], stdin=st, cwd=d)
                what = ' '.join(words + [dep])
                rep.state(what)
                if verdict_ == 'usage':
                    rep.ev()
                    rep.outcome('usage')
                    if SUCCESS in o.err or (o.out.strip() and 'Usage' not in o.out):
                        rep.fail('%s: wrong arguments accepted: %r' % (what, o), words)
                    continue
                judge(rep, o, verdict_ == 'run' and dep == 'dep', drive.cluster_json([fst], fu), what, words, sp)


def grammar(words):
    """-> (usage|run|refuse, several processes, state)"""
    w = list(words)
    sp = par = False
    verdict_ = 'run'
    if w[:1] == ['state']:
        sp = True
        w.pop(0)
    if w[:1] in (['continue'],):
        # there is no register to continue in the (empty) state
        verdict_ = 'refuse' if sp else 'run'
        w.pop(0)
    elif w and w[0].isdigit():
        # the number of the next register creates it
        verdict_ = 'run' if int(w[0]) == 0 else 'refuse'
        w.pop(0)
    if w[:1] == ['par']:
        if len(w) < 2 or not w[1].isdigit() or int(w[1]) < 1:
            return 'usage', False, sp
        par = int(w[1]) > 1
        w = w[2:]
    if w[:1] == ['chunksize']:
        if len(w) < 2 or not w[1].isdigit():
            return 'usage', False, sp
        w = w[2:]
    if w[:1] == ['json']:
        w.pop(0)
    if w:
        return 'usage', False, sp
    return verdict_, par, sp


def env_case(rep):
    """As real processes, with the environment settings."""
    S = SYS['open-cert']

    def hist(ids):
        g = S.register()
        return [g.make('std', i and 5, rid=r) for i, r in enumerate(ids)]
    hs = [('sorted', hist(['A1', 'A2', 'A10']), True, True), ('unsorted', hist(['A1', 'A10', 'A2']), True, False),
        ('equal', hist(['A1', 'A2', 'A1']), False, False), ('zeros', hist(['A1', 'A2', 'A02']), True, False)]
    with Dir() as d:
        ksf = put(d, 'ks', S.ks)
        for name, recs, uniq, nat in hs:
            at, V, fst, fu = ref.walk([r for r in recs], S.ctx_of)
            depf = put(d, 'dep', S.dep([r[0] for r in recs]))
            for bk, ok in ((None, uniq), (drive.UNIQUE, uniq), (drive.NATURAL, nat)):
                for cs in (None, '0', '1', '2', '-1', 'x'):
                    for sp in (False, True):
                        if not sp and (cs or bk is None):
                            continue
                        e = dict(os.environ)
                        for k in ('RKSV_STATE_RECEIPT_IDS', 'RKSV_DEP_CHUNKSIZE'):
                            e.pop(k, None)
                        if bk:
                            e['RKSV_STATE_RECEIPT_IDS'] = bk
                        if cs:
                            e['RKSV_DEP_CHUNKSIZE'] = cs
                        if cs in ('-1', 'x') and name != 'sorted':
                            continue
                        st = subprocess.run([env_python(), '-B', os.path.join(env.REPO, 'verify.py'), 'state'],
                            env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
                        if st.returncode and cs in ('-1', 'x'):
                            continue
                        if st.returncode:
                            rep.fail('verify.py state: %r' % st.stderr)
                            return
                        p = subprocess.run([env_python(), '-B', os.path.join(env.REPO, 'verify.py')] +
                            (['state'] if sp else []) + [ksf, depf], env=e, input=st.stdout if sp else b'',
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d)
                        o = scripts.Out(p.returncode, p.stdout.decode(), p.stderr.decode(), None, None)
                        want = None
                        if ok and not V:
                            data = fu
                            if bk == drive.NATURAL:
                                data = ref.NatSet()
                                for r in recs:
                                    data.add(ref.Rec.of(r[0]).rid)
                                data = data.json()
                            want = drive.cluster_json([fst], data, bk or drive.UNIQUE)
                        what = 'process: %s, backend %s, chunk size %s' % (name, bk, cs)
                        rep.state((what, sp))
                        if cs in ('-1', 'x'):
                            # no number of receipts: refused, ignored or explained, no success for nothing
                            rep.ev()
                            if SUCCESS in o.err and sp and drive.norm_state(json.loads(o.out)) != \
                                    drive.norm_state(want):
                                rep.fail('%s: %r' % (what, o))
                            continue
                        judge(rep, o, ok, want, what, [r[0] for r in recs], sp)


def env_python():
    import sys
    return sys.executable


SLOW = '''
import multiprocessing.connection as c, multiprocessing.process as r, multiprocessing.queues as q
import os, runpy, sys, threading, time
main = os.getpid()
pre, hold, helper, kill = %s
send, put, term = c.Connection._send_bytes, q.SimpleQueue.put, r.BaseProcess.terminate
# workers dawdle before and while they report a result, the pool's helper
# threads and the main thread before they tell anybody about the end
def slowput(self, obj):
    if os.getpid() != main:
        time.sleep(pre)
    elif obj is None and threading.current_thread() is not threading.main_thread():
        time.sleep(helper)
    return put(self, obj)
def slowsend(self, buf):
    if os.getpid() != main:
        time.sleep(hold)
    return send(self, buf)
def slowterm(self):
    time.sleep(kill)
    return term(self)
q.SimpleQueue.put, c.Connection._send_bytes, r.BaseProcess.terminate = slowput, slowsend, slowterm
sys.argv = sys.argv[1:]
runpy.run_path(sys.argv[0], run_name='__main__')
'''


def slow_case(rep, *delays):
    """The command ends, whenever the workers report their results."""
    g = S0.register()
    recs = [g.make()] + [g.make('std', 5) for _ in range(7)]
    js = [r[0] for r in recs]
    at, V, fst, fu = ref.walk(recs, S0.ctx_of)
    want = drive.cluster_json([fst], fu)
    with Dir() as d:
        ksf = put(d, 'ks', S0.ks)
        e = dict(os.environ, PYTHONPATH=env.REPO)
        for i in range(9) if env.THOROUGH else (2, 4) if max(delays) > 1 else (2, 4, 8):
            bad = list(js)
            if i < 8:
                bad[i] = 5
            depf = put(d, 'dep', S0.dep(bad))
            for opts in ([['par', '2', 'chunksize', '1'], ['par', '3', 'chunksize', '2'], ['par', '2', 'chunksize', '0']]
                    if env.THOROUGH else [['par', '2', 'chunksize', '1']]):
                cmd = [env_python(), '-B', '-c', SLOW % (delays,),
                    os.path.join(env.REPO, 'verify.py'), 'state'] + opts + [ksf, depf]
                p = subprocess.Popen(cmd, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                    stderr=subprocess.PIPE, cwd=d, start_new_session=True)
                try:
                    out, err = p.communicate(json.dumps(drive.cluster_json([], [])).encode(), timeout=45)
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, 9)
                    p.communicate()
                    rep.fail('hang: %s, receipt %d malformed, delays %r' % (opts, i, delays), bad)
                    return
                o = scripts.Out(p.returncode, out.decode(), err.decode(), None, None)
                judge(rep, o, i == 8, want, 'slow workers: %s, receipt %d malformed' % (opts, i), bad, True)
                rep.state((delays, i, opts))


# --- verify_receipt.py ---

KINDS = ['valid', 'valid2', 'sig', 'outage', 'malformed', 'empty', 'foreign']


def line_of(kind, fmt):
    """(line, valid, code served for the URL)"""
    S = SYS['open-cert']
    g = S.register()
    a, b = g.make(), g.make('std', 500)
    c, x, u = g.make('std', 7, key='evil'), g.make('std', 9, False), g.make('std', 8, key='leaf2', serial='7c')
    j = {'valid': a, 'valid2': b, 'sig': c, 'outage': x, 'foreign': u}.get(kind, a)[0]
    r = ref.Rec.of(j)
    ok = kind in ('valid', 'valid2')
    t = {'jws': j, 'qr': r.qr(), 'ocr': r.ocr(), 'csv': r.csv(), 'url': 'http://h/' + r.urlhash()}[fmt]
    if kind == 'malformed':
        t = {'url': 'http://h/' + 'A' * 11}.get(fmt, t[:-9])
    if kind == 'empty':
        t = ''
    return t, ok, r.qr()


def report(rep, o, want, what, detail, dead=None):
    """dead: first line whose receipt cannot be fetched"""
    rep.ev()
    rep.trace()
    if o.rc and dead is not None:
        got = [int(m) for m in re.findall(r'(?m)^Line +(\d+): ', o.out)]
        if got != [i for i, w in enumerate(want[:dead]) if not w] or 'verified success' in o.out:
            rep.fail('%s: %r before line %d' % (what, o.out, dead), detail)
        return
    if o.rc:
        rep.fail('%s: died: %r' % (what, o), detail)
        return
    got = [int(m) for m in re.findall(r'(?m)^Line +(\d+): ', o.out)]
    tot = re.findall(r'(?m)^(\d+) of (\d+) receipts verified successfully', o.out)
    bad = [i for i, w in enumerate(want) if not w]
    if got != bad:
        rep.fail('%s: lines %r reported, failing are %r' % (what, got, bad), [detail, o.out])
    if tot != [(str(len(want) - len(bad)), str(len(want)))]:
        rep.fail('%s: totals %r' % (what, tot), [detail, o.out])
    rep.outcome('%d of %d' % (len(want) - len(bad), len(want)))


def net(fmt):
    m = {line_of(k, 'url')[0]: line_of(k, 'url')[2] for k in KINDS}

    def f(url):
        return (answer(doc={'code': m[url]}) if url in m else boom(requests.ConnectionError('gone')))(url)
    return Net(f)


def rec_case(rep, fmt, first):
    S = SYS['open-cert']
    lines = {k: line_of(k, fmt) for k in KINDS}
    with Dir() as d, net(fmt):
        ksf = put(d, 'ks', S.ks)
        for n in (0, 1, 2, 3) if env.THOROUGH else (0, 1, 2):
            for rest in itertools.product(KINDS, repeat=n):
                word = (first,) + rest
                text = [lines[k][0] for k in word]
                want = [lines[k][1] for k in word]
                dead = [i for i, k in enumerate(word) if k == 'empty'] if fmt == 'url' else []
                dead = dead[0] if dead else None
                for nl, pre in (('\n', ''), ('\r\n', ' ')) if n < 2 else (('\n', ''),):
                    for end in ('', nl):
                        if not end and not text[-1]:
                            continue
                        if n == 2 and not end:
                            continue
                        o = scripts.run('verify_receipt.py', [fmt, ksf],
                            stdin=nl.join(pre + t for t in text) + end, cwd=d)
                        report(rep, o, want, '%s %s' % (fmt, ' '.join(word)), text, dead)
                        rep.state((fmt, word, nl, end))
                if n == 0:
                    for t in (text[0], ' %s\n' % text[0]):
                        o = scripts.run('verify_receipt.py', [fmt, ksf, t], stdin='x\n', cwd=d)
                        report(rep, o, want, '%s argument %s' % (fmt, first), text, dead)
        o = scripts.run('verify_receipt.py', [fmt, ksf], stdin='', cwd=d)
        report(rep, o, [], 'no lines', fmt)


def recall_case(rep, fmt):
    """All receipts of the pool in one go, with every key store."""
    ps = pool()
    conv = {'jws': lambda r: r.jws, 'qr': lambda r: r.qr(), 'ocr': lambda r: r.ocr(), 'csv': lambda r: r.csv(),
        'url': lambda r: 'http://h/' + r.urlhash()}[fmt]
    recs = [ref.Rec.of(j) for _, j, _ in ps]
    codes = {'http://h/' + r.urlhash(): r.qr() for r in recs}
    with Dir() as d, Net(lambda u: (answer(doc={'code': codes[u]}))(u)):
        for S in {S.name: S for S, _, _ in ps}.values():
            ksf = put(d, 'ks', S.ks)
            want = [verdict(S, j, sb) == 'ok' for _, j, sb in ps]
            for rot in range(0, len(ps), 1 if env.THOROUGH else 7):
                o = scripts.run('verify_receipt.py', [fmt, ksf],
                    stdin='\n'.join((list(map(conv, recs)) * 2)[rot:rot + len(ps)]) + '\n', cwd=d)
                report(rep, o, (want * 2)[rot:rot + len(ps)], 'pool with the keys of ' + S.name, fmt)
                rep.state((fmt, S.name, rot))


def recbad_case(rep, fmt):
    S = SYS['open-cert']
    t = line_of('valid', fmt)[0]
    with Dir() as d, net(fmt):
        ksf = put(d, 'ks', S.ks)
        for args in ([], [fmt], ['xml', ksf], ['', ksf], [fmt.upper(), ksf], [fmt, ksf, t, t],
                ['xml', ksf, t]):
            o = scripts.run('verify_receipt.py', args, stdin=t + '\n', cwd=d)
            rep.ev()
            rep.state((fmt, args[:1], len(args)))
            if 'verified successfully' in o.out:
                rep.fail('arguments %r accepted: %r' % (args, o), args)
        for i, b in enumerate(BADKS):
            p = os.path.join(d, 'none') if b is None else put(d, 'ks.bad', b)
            o = scripts.run('verify_receipt.py', [fmt, p], stdin=t + '\n', cwd=d)
            rep.ev()
            rep.state((fmt, 'ks', i))
            # a missing or wrong AES key does not matter here
            usable = bool(b) and ref.keyid(ref.cert_serial('leaf0self')) in b and ref.cert_b64('leaf0self') in b
            if ('1 of 1 receipts' in o.out) != usable and not (usable and o.rc):
                rep.fail('key store %r: %r' % (b and b[:60], o), i)


def run(case, rep):
    kind = case[0]
    if kind == 'dep':
        S = system(case[1])
        for what, recs in histories(S, case[2], case[3]):
            with Dir() as d:
                history(rep, d, S, recs, what)
        rep.sample([case, what])
    elif kind == 'par':
        S = system(case[1])
        hs = [h for f in [None, 'dup', 'chain', 'tc', 'sig', 'broken', 'malformed'] for h in
            histories(S, case[2], f)[::1 if env.THOROUGH else 3]]
        for what, recs in hs:
            with Dir() as d:
                full = env.THOROUGH or what == 'valid'
                history(rep, d, S, recs, what, (2, 3) if full else (2,), (None, 0, 1, 2) if env.THOROUGH
                    else (0, 1) if full else (1,), full)
    elif kind == 'cluster':
        cluster(rep, case[1], case[2])
    elif kind in ('bad', 'badks', 'badstate'):
        with Dir() as d:
            ks, dep, st = S0.ks, D0, drive.cluster_json([], [])
            b = {'bad': BAD, 'badks': BADKS, 'badstate': BADSTATE}[kind][case[1]]
            if kind == 'bad':
                dep = b
            elif kind == 'badks':
                ks = b
            else:
                st = b
            ksf = put(d, 'ks', ks) if ks is not None else os.path.join(d, 'none')
            depf = put(d, 'dep', dep) if dep is not None else os.path.join(d, 'none')
            ok = False
            at, V, fst, fu = ref.walk(R0, S0.ctx_of)
            if kind == 'badks' and b and b == json.dumps(ref.keystore(['leaf0self'])):
                ok = True
            for sp in (True,) if kind == 'badstate' else (False, True):
                for opts in OPTS:
                    o = scripts.run('verify.py', (['state'] if sp else []) + opts + [ksf, depf],
                        stdin=st if isinstance(st, str) else json.dumps(st), cwd=d)
                    judge(rep, o, ok, None, '%s %d %s %s' % (kind, case[1], 'state' if sp else '', opts), b, sp)
                    rep.state((case, sp, opts))
    elif kind == 'args':
        args_case(rep, case[1], case[2])
    elif kind == 'slow':
        slow_case(rep, *case[1:])
    elif kind == 'env':
        env_case(rep)
    elif kind == 'rec':
        rec_case(rep, case[1], case[2])
    elif kind == 'recall':
        recall_case(rep, case[1])
    elif kind == 'recbad':
        recbad_case(rep, case[1])
