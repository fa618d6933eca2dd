"""C26: receipts by URL, and the receipt host."""
import itertools
import json
import os
import re

import flask
import requests

from librksv import receipt, url_receipt_helpers as urls, verify_receipt

from .. import drive, env, ref, scripts
from ..world import SYS
from .c20 import answer, boom
from .c21 import CONF

ID = 'C26'
LEVEL = 'exploration'
RULE = ('all pairs (receipt served, receipt whose hash the URL names) of 40 receipts over 5 systems, '
    'kinds and signature states x 40 URL shapes; every single-character change, insertion and '
    'deletion of the hash (1500) for each receipt in 6 shapes; all URLs of up to 4 pieces of 14; '
    'all bad answers of the web service; the host fed every set of receipts as DEP or JWS lines, '
    'asked for every hash, altered hash and foreign path, and verified against end to end')
ASSUMPTIONS = ['A URL with several "#" may be refused.']

B64 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'
OTHER = 'abcdefghijk'
SHAPES = ['http://h/{}', 'http://h/a/{}', 'http://h/{}/x', 'http://h/x?id={}', 'http://h/?h={}&z=1',
    'http://h/x#{}', 'https://h/#{}', 'http://h/x?y=1#{}', 'http://h/abcdefghijk#{}', 'http://h/abcdefghijk/{}',
    'http://h/{}.json', 'http://h/({})', 'http://hostname-12/{}', 'http://h:5000/{}', 'http://h/{}/',
    'http://h/a.b~{}', 'http://u:p@h/{}', 'http://h/r/%20{}'[:-5] + '/{}', 'http://h/{}?', 'http://h/\u00e4{}',
    # the hash is there, but not as the hash of the URL
    'http://h/{}#', 'http://h/{}#abcdefghijk', 'http://h/{}/abcdefghijk', 'http://h/x{}', 'http://h/{}x',
    'http://h/-{}', 'http://h/_{}_', 'http://h/#{}=', 'http://h/#x{}', 'http://h/# {}', 'http://h/#{}/',
    'http://h/#/{}', 'http://h/?id={}&key=abcdefghijk', 'http://h/x#?{}', 'http://h/%23{}',
    # no hash at all
    'http://h/', 'http://h/#', 'http://h/abc', 'http://h/abcdefghijkl', 'http://h']


def hash_of(url):
    """The hash a URL names, by the documented rule (None: none)."""
    p, s, f = url.partition('#')
    if s:
        return f
    words, cur = [], ''
    for c in p + '/':
        if c in B64:
            cur += c
        else:
            words.append(cur)
            cur = ''
    words = [w for w in words if len(w) == 11]
    return words[-1] if words else None


_pool = []


def pool():
    """(system, jws, signed by)"""
    if not _pool:
        for n in ('open-cert', 'open-dec', 'closed-ks', 'closed-tax', 'open-tc16'):
            S = SYS[n]
            g = S.register()
            _pool.append((S,) + g.make())
            _pool.append((S,) + g.make('std', 100))
            _pool.append((S,) + g.make('std', 100, rid='1'))
            _pool.append((S,) + g.make('dummy', 7))
            _pool.append((S,) + g.make('reversal', -50))
            _pool.append((S,) + g.make('std', 9, False))
            _pool.append((S,) + g.make('std', 0, False))
            _pool.append((S,) + g.make('std', 5, key='evil'))
    return _pool


def verdict(S, j, sb):
    r = ref.Rec.of(j)
    if r.broken:
        return 'UnsignedNullReceiptException' if r.null and r.standard else 'SignatureSystemFailedException'
    V = ref.check_sig(r, ref.Ctx(None, None, S.ctx.keys), sb)
    return sorted(V)[0] if V else 'ok'


class Net(object):
    """Stands in for the network below the requests library."""

    def __init__(self, f):
        self.f, self.asked = f, []

    def __enter__(self):
        self.old = requests.sessions.Session.send
        net = self

        def send(sess, req, **kw):
            net.asked.append((req.method, req.url))
            return net.f(req.url)
        requests.sessions.Session.send = send
        return self

    def __exit__(self, *a):
        requests.sessions.Session.send = self.old


def fetch(S, url, f):
    rv = verify_receipt.ReceiptVerifier.fromKeyStore(drive.ks(S.ks))
    with Net(f) as net:
        v, e = drive.outcome(urls.getAndVerifyReceiptURL, rv, url)
    return v, e, net.asked


def check(rep, S, j, sb, url, what):
    """The web service answers with receipt j."""
    rep.ev()
    r = ref.Rec.of(j)
    base = verdict(S, j, sb)
    got = hash_of(url)
    same = got == r.urlhash()
    v, e, asked = fetch(S, url, answer(doc={'code': r.qr()}))
    name = 'ok' if e is None else type(e).__name__
    rep.outcome('%s %s' % (base, 'same' if same else 'different'))
    if same and base == 'ok':
        if e is not None and url.count('#') < 2:
            rep.fail('%s: refused with %r' % (what, e), [url, r.qr()])
    elif e is None:
        rep.fail('%s: accepted (receipt: %s, hash %s)' % (what, base, 'same' if same else 'different'),
            [url, r.qr()])
    elif name not in {base} | (set() if same else {'InvalidURLHashException'}):
        rep.fail('%s: %r' % (what, e), [url, r.qr()])
    if len(asked) != 1 or asked[0][0] != 'GET':
        rep.fail('%s: requests %r' % (what, asked), url)
    elif requests.Request('GET', url).prepare().url.partition('#')[0] != asked[0][1].partition('#')[0]:
        rep.fail('%s: asked for %r' % (what, asked), url)


def cases():
    n = len(pool())
    ret = [['pairs', i] for i in range(n)]
    ret += [['alter', i] for i in range(n)]
    ret += [['answers', i] for i in range(0, n, 4)]
    ret += [['words', i] for i in range(len(PIECES))]
    ret += [['host', m, i] for m in ('dep', 'jws') for i in range(8)]
    ret += [['hostbad', m] for m in ('dep', 'jws')]
    ret += [['direct', i] for i in range(n)]
    return ret


def alterations(h):
    """Every string one edit away."""
    al = B64 + '=/.+% '
    for i in range(len(h) + 1):
        for c in al:
            yield h[:i] + c + h[i:]
        if i < len(h):
            for c in al:
                if c != h[i]:
                    yield h[:i] + c + h[i + 1:]
            yield h[:i] + h[i + 1:]
            yield h[:i]
    yield h.lower()
    yield h.upper()
    yield h.swapcase()
    yield h[::-1]
    yield ''


PIECES = ['/', '#', '.', '?', 'a', OTHER, 'HASH', 'HASH', 'OTHER', '=', '-', ' ', '\u00e4', 'http://h/']


def direct(rep, i):
    S, j, sb = pool()[i]
    r = ref.Rec.of(j)
    ro, p = receipt.Receipt.fromJWSString(j)
    from librksv import algorithms
    alg = algorithms.ALGORITHMS[p]
    rep.expect(ro.toURLHash(p), r.urlhash(), 'hash')
    ms = list(alterations(r.urlhash())) + [None, r.urlhash() + '=', 'R1', r.rid] + [ref.Rec.of(x[1]).urlhash() for
        x in pool()]
    for h in ms + [r.urlhash()]:
        v, e = drive.outcome(verify_receipt.verifyURLHash, ro, alg, h)
        rep.ev()
        if h == r.urlhash():
            if e is not None:
                rep.fail('own hash refused: %r' % e, j)
        elif not isinstance(e, verify_receipt.InvalidURLHashException):
            rep.fail('hash %r: %r' % (h, e), j)
        rep.state([i, h])


class Host(object):
    """receipt_host.py with the web server left out."""

    def __init__(self, mode, text, environ=None):
        self.apps = []
        old = flask.Flask.run
        flask.Flask.run = lambda app, *a, **kw: self.apps.append(app)
        try:
            self.o = scripts.run('receipt_host.py', [mode], stdin=text, environ=environ)
        finally:
            flask.Flask.run = old
        self.client = self.apps[0].test_client() if self.apps else None

    def get(self, path, method='GET'):
        return self.client.open(path, method=method)


def host(rep, mode, i):
    P = pool()
    if i < 5:
        rs = [x[1] for x in P[8 * i:8 * i + 8]]
    elif i == 5:
        rs = [x[1] for x in P]
    elif i == 6:
        rs = [P[0][1]] * 2 + [P[1][1]]
    else:
        rs = []
    if mode == 'dep' and not rs:
        rs = [P[3][1]]
    for variant in range(4):
        environ = {}
        if mode == 'jws':
            text = ['\n'.join(rs), '\n'.join(rs) + '\n', '  ' + ' \r\n'.join(rs), '\n'.join(rs[::-1])][variant]
            if not rs:
                text = ''
        else:
            k = (len(rs) + 1) // 2
            gs = [[(rs, 'leaf0self', [])], [(rs[:k], None, []), (rs[k:], 'leaf0mid1', ['mid1'])],
                [([x], None, []) for x in rs], [(rs, None, [])]][variant]
            text = json.dumps(ref.dep(*gs), indent=variant or None)
            environ = {'RKSV_DEP_CHUNKSIZE': str((1, 2, 3, 100)[variant])}
        H = Host(mode, text, environ)
        rep.ev()
        what = 'host fed %d receipts as %s (%d)' % (len(rs), mode, variant)
        if H.o.rc or len(H.apps) != 1:
            rep.fail('%s does not start: %r' % (what, H.o), text)
            continue
        codes = {ref.Rec.of(j).urlhash(): ref.Rec.of(j).qr() for j in rs}
        for h, code in codes.items():
            a = H.get('/' + h)
            rep.ev()
            rep.expect((a.status_code, a.get_json()), (200, {'code': code}), what + ': answer')
            for m in ('POST', 'PUT', 'DELETE'):
                a = H.get('/' + h, m)
                rep.expect(a.status_code in (404, 405), True, '%s: %s' % (what, m))
        alts = list(alterations(list(codes)[0]))[variant::4] if codes else []
        for h in alts + ['', 'index', OTHER, 'code', 'x/y', '../x', 'a' * 300, 'static/x', '_'] + [
                h + x for h in list(codes)[:2] for x in ('/', '/x', '?', '=')] + [
                ref.Rec.of(x[1]).urlhash() for x in P]:
            if any(c in h for c in '%?#'):
                continue
            a = H.get('/' + h)
            rep.ev()
            if h in codes:
                rep.expect((a.status_code, a.get_json()), (200, {'code': codes[h]}), what)
            elif a.status_code in (301, 302, 308):
                pass
            elif a.status_code != 404:
                rep.fail('%s: %r answered with %d %r' % (what, h, a.status_code, a.data))
        # end to end
        for S, j, sb in P:
            for k in (j, rs[0] if rs else j):
                url = 'http://localhost:5000/' + ref.Rec.of(k).urlhash()

                def f(u):
                    x = H.get('/' + u.split('/', 3)[3])
                    return answer(x.status_code, raw=x.data)(u)
                rv = verify_receipt.ReceiptVerifier.fromKeyStore(drive.ks(S.ks))
                with Net(f):
                    v, e = drive.outcome(urls.getAndVerifyReceiptURL, rv, url)
                rep.ev()
                rep.trace()
                # only this register's own receipts are signed with the store's keys
                own = [x for x in P if x[1] == k][0]
                want = ref.Rec.of(k).urlhash() in codes and verdict(S, k, own[2]) == 'ok'
                if (e is None) != want:
                    rep.fail('%s: verification of %s: %r' % (what, url, e))
        rep.state([mode, i, variant])


def hostbad(rep, mode):
    """Unreadable input is not served."""
    P = pool()
    j = P[0][1]
    good = json.dumps(ref.dep(([j], None, [])))
    texts = (['x\n', j + '\na.b.c\n', j + '\n\n' + j + '\n', '{}'] if mode == 'jws' else
        ['', '{', '[]', good[:-1], json.dumps(ref.dep(([j, 'a.b.c'], None, []))), json.dumps(ref.dep()),
            good.replace(j, j.rsplit('.', 1)[0])])
    for t in texts:
        H = Host(mode, t)
        rep.ev()
        if H.apps or H.o.rc == 0:
            rep.fail('host starts with unreadable %s input' % mode, [t, repr(H.o)])
        rep.state([mode, t])
    for m in ('', 'DEP', 'csv', 'url'):
        H = Host(m, good)
        rep.ev()
        if H.apps:
            rep.fail('host starts in mode %r' % m)


def answers(rep, i):
    S, j, sb = pool()[i]
    r = ref.Rec.of(j)
    url = 'http://h/' + r.urlhash()
    other = ref.Rec.of(pool()[i + 1][1]).qr()
    bad = [answer(404, {'code': r.qr()}), answer(500, {'code': r.qr()}), answer(403, {'code': r.qr()}),
        answer(raw=b''), answer(raw=b'<html>'), answer(raw=r.qr().encode()), answer(doc={}), answer(doc=[]),
        answer(doc={'Code': r.qr()}), answer(doc={'code': None}), answer(doc={'code': ''}),
        answer(doc={'code': [r.qr()]}), answer(doc={'code': 5}), answer(doc={'code': other}),
        answer(doc={'code': r.qr() + ' '}), answer(doc={'code': r.ocr()}), answer(doc={'code': r.qr()[:-4]}),
        answer(doc={'code': r.csv()}), answer(doc={'code': j}), answer(doc=r.qr()), answer(doc={'code': r.qr()[1:]}),
        boom(requests.exceptions.ConnectionError('x')), boom(requests.exceptions.Timeout('x')), boom(OSError('x'))]
    for n, f in enumerate(bad):
        for u in (url, 'http://h/#' + r.urlhash(), 'http://h/'):
            rep.ev()
            v, e, asked = fetch(S, u, f)
            if e is None:
                rep.fail('answer %d of the service accepted' % n, [u, r.qr()])
            rep.state([i, n, u])


def run(case, rep):
    k, i = case[0], case[1]
    if k == 'pairs':
        S, j, sb = pool()[i]
        for n, (S2, j2, sb2) in enumerate(pool()):
            for u in SHAPES:
                check(rep, S, j, sb, u.format(ref.Rec.of(j2).urlhash()), 'receipt %d, hash of %d' % (i, n))
                rep.state([i, n, u])
    elif k == 'alter':
        S, j, sb = pool()[i]
        if verdict(S, j, sb) != 'ok' and not env.THOROUGH:
            return
        for u in ('http://h/{}', 'http://h/#{}') if not env.THOROUGH else SHAPES[:12]:
            for h in alterations(ref.Rec.of(j).urlhash()):
                url = u.format(h)
                check(rep, S, j, sb, url, 'altered hash')
            rep.state([i, u])
    elif k == 'answers':
        answers(rep, i)
    elif k == 'words':
        S, j, sb = pool()[1]
        h = ref.Rec.of(j).urlhash()
        o = ref.Rec.of(pool()[2][1]).urlhash()
        for n in range(4 if not env.THOROUGH else 5):
            for w in itertools.product(PIECES, repeat=n):
                t = ''.join((PIECES[i],) + w).replace('HASH', h).replace('OTHER', o)
                rep.ev()
                rep.trace()
                g = urls.getURLHashFromURL(t)
                if t.count('#') < 2 and g != hash_of(t):
                    rep.fail('hash of %r: %r, expected %r' % (t, g, hash_of(t)))
                elif t.count('#') > 1 and g == h and h not in t.split('#')[1:] and '#' + h not in t:
                    rep.fail('hash of %r: %r' % (t, g))
            rep.state([i, n])
    elif k == 'host':
        host(rep, i, case[2])
    elif k == 'hostbad':
        hostbad(rep, i)
    else:
        direct(rep, i)
