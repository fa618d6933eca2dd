"""C20: a failing signing step never disturbs the cash register."""
import copy
import datetime
import itertools
import json
import sys

import requests

from librksv import algorithms, cashreg, sigsys, utils

from .. import drive, env, ref
from ..world import check_state, check_verdict
from .c19 import Cash, SYSTEMS, text

ID = 'C20'
LEVEL = 'fault_enumeration'
RULE = ('signing service: every sequence of 3 receipts (4 kinds) x 25 service behaviours (5 for the third receipt in the quick tier; answers, '
    'connection errors, time-outs, HTTP errors, malformed answers, foreign exceptions) with the '
    'failed receipt retried or replaced, every pair of behaviours of the two set-up requests; '
    'local signing: every sequence of 3 of 30 operations, 15 of which fail (unknown algorithm, '
    'AES key, signature key, counter overflow, amounts, IDs, dates); an exception raised at every '
    'call and return of the signature system and the algorithm inside receipt(), in every kind of '
    'receipt; after each failure the register is compared with its state before, everything '
    'issued is verified and the total compared with the exact total of the issued receipts')
ASSUMPTIONS = ['The signing service, when it answers with a well-formed JWS, answers for the '
    'payload it was sent.']

DEPTH = 3
KIND = [('std', (10.1, 0.0, -0.005, 0.0, 0.0)), ('reversal', (0.0, -3.0, 0.0, 0.0, 0.0)),
    ('dummy', (5.0, 0.0, 0.0, 0.0, 0.0)), ('std', (0.0,) * 5)]


class Odd(Exception):
    pass


class Hard(BaseException):
    pass


def answer(code=200, doc=None, raw=None):
    def f(url):
        r = requests.Response()
        r.status_code = code
        r.url = url
        r._content = raw if raw is not None else json.dumps(doc).encode()
        return r
    return f


def boom(e):
    def f(url):
        raise e
    return f


def cut(j, n):
    p = j.split('.')
    return '.'.join(p[:n])


# name -> (function of the proper JWS, required result: ok / out / fail / any)
POST = {
    'ok': (lambda j: answer(doc={'result': j}), 'ok'),
    'ok extra': (lambda j: answer(doc={'result': j, 'more': [1]}), 'ok'),
    'connection': (lambda j: boom(requests.exceptions.ConnectionError('x')), 'out'),
    'timeout': (lambda j: boom(requests.exceptions.Timeout('x')), 'out'),
    'readtimeout': (lambda j: boom(requests.exceptions.ReadTimeout('x')), 'out'),
    'ssl': (lambda j: boom(requests.exceptions.SSLError('x')), 'out'),
    'redirects': (lambda j: boom(requests.exceptions.TooManyRedirects('x')), 'out'),
    'chunked': (lambda j: boom(requests.exceptions.ChunkedEncodingError('x')), 'out'),
    '500': (lambda j: answer(500, {'result': j}), 'out'),
    '503': (lambda j: answer(503, raw=b'down'), 'out'),
    '404': (lambda j: answer(404, {'error': 1}), 'any'),
    'nojson': (lambda j: answer(raw=b'<html>'), 'any'),
    'empty': (lambda j: answer(raw=b''), 'any'),
    'nokey': (lambda j: answer(doc={'error': 'x'}), 'any'),
    'list': (lambda j: answer(doc=[j]), 'any'),
    'null': (lambda j: answer(doc={'result': None}), 'any'),
    'number': (lambda j: answer(doc={'result': 5}), 'any'),
    'two parts': (lambda j: answer(doc={'result': cut(j, 2)}), 'any'),
    'four parts': (lambda j: answer(doc={'result': j + '.x'}), 'any'),
    'no parts': (lambda j: answer(doc={'result': ''}), 'any'),
    'bad header': (lambda j: answer(doc={'result': 'a.' + j.split('.', 1)[1]}), 'any'),
    'odd header': (lambda j: answer(doc={'result': '_w.' + j.split('.', 1)[1]}), 'any'),
    'oserror': (lambda j: boom(OSError('x')), 'any'),
    'odd': (lambda j: boom(Odd('x')), 'fail'),
    'hard': (lambda j: boom(Hard('x')), 'fail'),
}

FEW = ['ok', 'connection', 'bad header', 'two parts', 'odd']


class Service(object):
    """Stands in for the network below the requests library."""

    def __init__(self, key='leaf0', serial=None, zda='AT1'):
        self.key = ref.Key(key)
        self.serial = serial or ref.keyid(ref.cert_serial('leaf0self'))
        self.zda = zda
        self.mode = {'Certificate': 'ok', 'ZDA': 'ok', 'Sign/JWS': 'ok'}
        self.alg = 'ES256'
        self.log = []

    def send(self, sess, req, **kw):
        url = req.url
        name = [n for n in self.mode if url.endswith('/user1/' + n)]
        self.log.append((req.method, url, req.body))
        if len(name) != 1:
            return answer(404, {})(url)
        name = name[0]
        m = self.mode[name]
        if name == 'Certificate':
            good = {'ZertifikatsseriennummerHex': self.serial, 'alg': self.alg}
        elif name == 'ZDA':
            good = {'zdaid': self.zda}
        else:
            body = json.loads(req.body)
            if body.get('password') != 'geheim' or req.method != 'POST':
                return answer(401, {})(url)
            j = ref.jws(body['jws_payload'], self.key)
            return POST[m][0](j)(url)
        if m == 'ok':
            return answer(doc=good)(url)
        if m == 'nokey':
            return answer(doc={})(url)
        return POST[m][0]('x.y.z')(url)


def patched(service):
    class P(object):
        def __enter__(self):
            self.old = requests.sessions.Session.send
            requests.sessions.Session.send = lambda s, r, **kw: service.send(s, r, **kw)
            return service

        def __exit__(self, *a):
            requests.sessions.Session.send = self.old
    return P()


def snap(cr):
    return [cr.registerId, cr.turnoverCounter, cr.lastReceiptSig, cr.turnoverCounterSize, cr.key]


class Fault(Cash):
    """A register using arbitrary signature systems; failed receipts are no-ops."""

    def attempt(self, rep, sig, kind, amounts, want, d, **o):
        """-> (jws, signer) or None if creation failed"""
        n = self.model.n
        rid = o.get('rid', 'B%d' % n)
        date = self.model.date(n)
        before = snap(self.cr)
        rep.ev()
        try:
            rec = self.cr.receipt(o.get('prefix', 'R1'), rid, o.get('date',
                datetime.datetime.strptime(date, '%Y-%m-%dT%H:%M:%S')), *amounts, sigSystem=sig,
                dummy=kind == 'dummy', reversal=kind == 'reversal')
            j = rec.toJWSString('R1')
        except (Exception, Hard) as e:
            if snap(self.cr) != before:
                rep.fail('register changed although creating the receipt failed: %r became %r' % (
                    before[1:4], snap(self.cr)[1:4]), d)
            if want in ('ok', 'out'):
                rep.fail('creating the receipt failed with %r' % e, d)
            rep.outcome('failed')
            return None
        if want == 'fail':
            rep.fail('receipt issued although creating it had to fail', [d, j])
            return None
        broken = ref.Rec(j).broken
        rep.outcome('outage' if broken else 'signed')
        if want in ('ok', 'out'):
            rep.expect(broken, want == 'out', 'outage text', d)
        elif not broken:
            rep.fail('receipt signed without a proper answer', [d, j])
        w, _ = self.model.make(kind, rid=rid, date=date, sums=[text(a) for a in amounts],
                serial=sig.serial, zda=sig.zda, sign=False)
        self.model.last = j
        rep.expect(ref.Rec(j).payload, ref.Rec(w).payload, 'payload produced', d)
        rep.expect(self.cr.turnoverCounter, self.model.tc, 'turnover counter', d)
        rep.expect(self.cr.lastReceiptSig, j, 'last receipt', d)
        return j, None if broken else 'leaf0'


def verify(rep, cash, recs, d):
    """Everything issued verifies with the exact total (if the protocol is kept)."""
    if not recs:
        return
    at, V, st, used = ref.walk(recs, cash.ctx_of)
    if V and V != {'NoRestoreReceiptAfterSignatureSystemFailureException'}:
        rep.fail('issued receipts violate %s' % sorted(V), d)
    res = drive.verify_dep(ref.dep(([j for j, _ in recs], None, [])), cash.ks, ref.AESKEY)
    rep.trace()
    if check_verdict(rep, res, V, 'history issued', d) and not V:
        check_state(rep, res, [st], used, 'history issued', d)
        rep.expect(st.tc, sum(ref.Rec.of(j).turnover for j, _ in recs if not ref.Rec.of(j).dummy),
            'total', d)


def service(rep, case):
    first, mode = case[1:]
    svc = Service()
    with patched(svc):
        sig = sigsys.SignatureSystemATrustMobile('user1', 'geheim')
        rep.expect((sig.serial, sig.zda), (svc.serial, svc.zda), 'set-up of the signature system')
        names = sorted(POST)

        def rec(cash, recs, hist, depth):
            ms = names if env.THOROUGH or len(hist) < 2 else FEW
            steps = itertools.product(range(len(KIND)), ms) if hist else [(first, mode)]
            for k, m in steps:
                c = cash.clone()
                svc.mode['Sign/JWS'] = m
                svc.log = []
                h = hist + [(k, m)]
                r = c.attempt(rep, sig, KIND[k][0], KIND[k][1], POST[m][1], h)
                if len(svc.log) != 1:
                    rep.fail('%d requests to the service for one receipt' % len(svc.log), h)
                rs = recs + ([r] if r else [])
                rep.state(h)
                if depth > 1:
                    # (the failed receipt is retried if the next one is of the same kind)
                    rec(c, rs, h, depth - 1)
                elif r or len(hist) < 2:
                    verify(rep, c, rs, h)
        cash = Fault('open')
        start = cash.attempt(rep, sig, 'std', (0.0,) * 5, 'ok', 'start')
        rec(cash, [start], [], DEPTH)


def first(rep, case):
    """Failures before the start receipt."""
    svc = Service()
    with patched(svc):
        sig = sigsys.SignatureSystemATrustMobile('user1', 'geheim')
        for a, b in itertools.product([m for m in sorted(POST) if POST[m][1] in ('fail',)
                or m in ('nokey', 'null', 'two parts')], repeat=2):
            cash = Fault('open')
            recs = []
            for m in (a, b, 'ok', 'connection', 'ok'):
                svc.mode['Sign/JWS'] = m
                r = cash.attempt(rep, sig, 'std', (0.0,) * 5, POST[m][1], [a, b, m])
                if r:
                    recs.append(r)
            rep.state([a, b])
            rep.expect(len(recs), 3, 'receipts issued', [a, b])
            verify(rep, cash, recs, [a, b])


def setup(rep, case):
    modes = ['ok', 'nokey'] + [m for m in sorted(POST) if m not in ('ok', 'ok extra', 'nokey')]
    for a, b in itertools.product(modes, repeat=2):
        svc = Service(serial='1a2b3c', zda='AT3')
        svc.mode.update({'Certificate': a, 'ZDA': b})
        rep.ev()
        rep.state(['setup', a, b])
        with patched(svc):
            try:
                s = sigsys.SignatureSystemATrustMobile('user1', 'geheim')
            except (Exception, Hard) as e:
                rep.outcome('set-up failed')
                if a == b == 'ok':
                    rep.fail('set-up failed: %r' % e)
                continue
            rep.outcome('set up')
            if not a == b == 'ok':
                rep.fail('signature system set up in spite of %s/%s' % (a, b))
            else:
                rep.expect((s.serial, s.zda), ('1a2b3c', 'AT3'), 'set-up')
    # a service with another algorithm never signs
    for alg in ('RS256', '', None, 'es256'):
        svc = Service()
        svc.alg = alg
        with patched(svc):
            s = sigsys.SignatureSystemATrustMobile('user1', 'geheim')
            cash = Fault('open')
            for k, am in KIND:
                svc.log = []
                cash.attempt(rep, s, k, am, 'fail', ['algorithm', alg, k])
                rep.expect(svc.log, [], 'requests in spite of another algorithm')


class BadSig(object):
    """Signature system answering with something else."""

    def __init__(self, sig, out):
        self.sig, self.out = sig, out
        self.serial, self.zda = sig.serial, sig.zda

    def sign(self, data, alg):
        j = self.sig.sign(data, alg)
        return self.out(j)


def local_ops(cash):
    w, b = cash.devs[0][:2]
    wrong = sigsys.SignatureSystemWorking(w.zda, w.serial, 'no key')
    rsa = sigsys.SignatureSystemWorking(w.zda, w.serial, ref.Key('rsa').priv_pem)
    none = sigsys.SignatureSystemWorking(w.zda, w.serial, None)
    badzda = sigsys.SignatureSystemWorking('X', w.serial, ref.Key('leaf0').priv_pem)
    badser = sigsys.SignatureSystemWorking(w.zda, 'xyz', ref.Key('leaf0').priv_pem)
    ops = []
    for k, a in KIND:
        ops.append((w, k, a, 'ok', {}))
        ops.append((b, k, a, 'out', {}))
    big = (1e12, 0.0, 0.0, 0.0, 0.0)
    nan, inf = float('nan'), float('inf')
    ops += [(wrong, 'std', KIND[0][1], 'fail', {}), (wrong, 'dummy', KIND[0][1], 'fail', {}),
        (rsa, 'std', KIND[0][1], 'fail', {}), (none, 'reversal', KIND[1][1], 'fail', {}),
        (w, 'std', KIND[0][1], 'fail', {'prefix': 'R9'}), (w, 'std', big, 'fail', {}),
        (w, 'std', (nan, 0.0, 0.0, 0.0, 0.0), 'fail', {}), (w, 'dummy', (0.0, inf, 0.0, 0.0, 0.0), 'fail', {}),
        (w, 'reversal', (0.0, 0.0, 0.0, 0.0, -inf), 'fail', {}),
        (w, 'std', (0.0, 0.0, 'x', 0.0, 0.0), 'fail', {}), (w, 'std', (0.0, 0.0, None, 0.0, 0.0), 'fail', {}),
        (w, 'std', KIND[0][1], 'fail', {'rid': 'A_B'}), (w, 'dummy', KIND[0][1], 'fail', {'rid': ''}),
        (w, 'reversal', KIND[0][1], 'fail', {'rid': None}), (w, 'std', KIND[0][1], 'fail', {'date': None}),
        (badzda, 'std', KIND[0][1], 'fail', {}), (badser, 'reversal', KIND[0][1], 'fail', {}),
        (BadSig(w, lambda j: cut(j, 2)), 'std', KIND[0][1], 'fail', {}),
        (BadSig(w, lambda j: None), 'reversal', KIND[1][1], 'fail', {}),
        (BadSig(w, lambda j: 'a.' + j.split('.', 1)[1]), 'std', KIND[0][1], 'fail', {}),
        (BadSig(b, lambda j: 1 // 0), 'dummy', KIND[0][1], 'fail', {})]
    return ops


def local(rep, case):
    sysname, f = case[1:]
    root = Fault(sysname, 5)
    ops = local_ops(root)
    start = root.attempt(rep, root.devs[0][0], 'std', (0.0,) * 5, 'ok', 'start')

    def rec(cash, recs, hist, depth):
        for i, (s, k, a, want, o) in enumerate(ops):
            if not hist and i != f:
                continue
            c = cash.clone()
            h = hist + [i]
            r = c.attempt(rep, s, k, a, want, h, **o)
            rep.state([sysname, h])
            rs = recs + ([r] if r else [])
            if depth > 1:
                rec(c, rs, h, depth - 1)
            elif r:
                verify(rep, c, rs, h)
    rec(root, [start], [], DEPTH)


def keys(rep, case):
    """Unusable AES keys, counter sizes at their limits."""
    for key in (None, b'', bytes(16), bytes(31), bytes(33), 'x' * 32, list(range(32))):
        for kind in range(len(KIND)):
            cash = Fault('open')
            cash.cr.key = key
            w = cash.devs[0][0]
            k, a = KIND[kind]
            rep.state([repr(key), kind])
            cash.attempt(rep, w, k, a, 'fail' if k == 'std' else 'ok', ['key', repr(key), k])
    for size in range(5, 17):
        top = (1 << (8 * size - 1)) - 1
        for tc0, c in ((top - 1, 1), (top, 1), (-top - 1, -1), (-top, -1), (top, -1), (-top - 1, 1)):
            for kind in ('std', 'reversal', 'dummy'):
                cash = Fault('open', size, tc=tc0)
                w = cash.devs[0][0]
                over = not -top - 1 <= tc0 + c <= top
                rep.state([size, tc0, c, kind])
                a = (0.0, 0.0, c / 100.0, 0.0, 0.0)
                cash.attempt(rep, w, kind, a, 'fail' if over and kind == 'std' else 'ok',
                    [size, tc0, c, kind])
                if over and kind == 'std':
                    # going the other way still works
                    cash.attempt(rep, w, kind, (0.0, 0.0, -c / 100.0, 0.0, 0.0), 'ok',
                        [size, tc0, c, kind])
    for size in (4, 17, 0, -1):
        rep.ev()
        try:
            cashreg.CashRegister('K', None, 0, ref.AESKEY, size)
            rep.fail('register with counter size %d' % size)
        except Exception:
            rep.outcome('no register')


class Injected(Exception):
    pass


SKIP = ('cashreg.py', 'receipt.py')


def inject(rep, case):
    """An exception at the n-th call (or return) outside the register module."""
    sysname, kind, broken, exc = case[1:]
    exc = {'exc': Injected, 'base': Hard, 'mem': MemoryError}[exc]
    for when in ('call', 'return'):
        n = 0
        while True:
            cash = Fault(sysname)
            w, b = cash.devs[0][:2]
            recs = [cash.attempt(rep, w, 'std', (0.0,) * 5, 'ok', 'start'),
                cash.attempt(rep, w, 'std', (1.0,) * 5, 'ok', 'second')]
            before = snap(cash.cr)
            seen = [0, None]
            names = ('sigsys.py', 'algorithms.py', 'utils.py', 'base64.py')

            def tracer(frame, event, arg):
                f = frame.f_code.co_filename
                if not f.endswith(names):
                    return None
                # Only signing and the algorithms (and what they call) fail.
                up = frame
                while up is not None and not up.f_code.co_filename.endswith(names[:2]):
                    up = up.f_back
                if up is None:
                    return None
                if event == when:
                    if seen[0] == n:
                        seen[0] += 1
                        seen[1] = '%s in %s' % (event, frame.f_code.co_name)
                        raise exc('injected')
                    seen[0] += 1
                return tracer
            k, a = KIND[kind]
            raised = None
            sys.settrace(tracer)
            try:
                rec = cash.cr.receipt('R1', 'B2', datetime.datetime(2017, 5, 5), *a,
                        sigSystem=b if broken else w, dummy=k == 'dummy', reversal=k == 'reversal')
            except (Exception, Hard) as e:
                raised = e
            finally:
                sys.settrace(None)
            rep.ev()
            d = [sysname, kind, broken, when, n, seen[1]]
            if seen[1] is None:
                break
            rep.state(d)
            rep.outcome(str(seen[1]))
            if raised is not None:
                rep.expect(snap(cash.cr), before, 'register after a fault at %s' % seen[1], d)
                r = cash.attempt(rep, w, k, a, 'ok', d)
            else:
                # tolerated: then the receipt was issued
                j = rec.toJWSString('R1')
                rep.expect(cash.cr.lastReceiptSig, j, 'last receipt after a tolerated fault', d)
                r = None
            if r:
                recs.append(r)
                recs.append(cash.attempt(rep, w, 'std', (2.0,) * 5, 'ok', d))
                verify(rep, cash, recs, d)
            n += 1
        if n < 3 and when == 'call':
            rep.fail('fault points not found (%d)' % n)


def cases():
    ret = [['service', k, m] for k in range(len(KIND)) for m in sorted(POST)]
    ret += [['first'], ['setup'], ['keys']]
    ret += [['local', s, i] for s in ('open', 'closed') for i in range(len(local_ops(Fault(s))))]
    ret += [['inject', s, k, b, e] for s in ('open', 'closed') for k in range(len(KIND))
        for b in (False, True) for e in ('exc', 'base', 'mem')]
    return ret


def run(case, rep):
    globals()[case[0]](rep, case)
