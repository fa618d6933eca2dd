"""C30: what the GUI shows of a receipt."""
import base64
import io
import itertools
import json
import os
import tempfile
import time

import requests
from PIL import Image

from .. import drive, env, ref
from ..grammar import judge
from ..world import SYS, CERTKEY, UID
from .c15 import IDS, SUMS, fields
from .c16 import BASES, CHARS, build
from .c20 import answer, boom
from .c26 import Net, alterations, hash_of

ID = 'C30'
LEVEL = 'model_checking'
RULE = ('the running GUI (unchanged rktool.py and rktool.kv on a model of kivy, the process pool, the '
    'network and the QR scanner): every receipt of a corpus (systems x kinds x signatures x special '
    'texts) x 4 input types x 3 key stores x 6 keys x {typed, loaded}, all rows compared; every '
    'character of a receipt deleted, replaced and doubled; all bad URLs, answers and images '
    '(every truncation and byte fault of 8 formats); breadth-first search of all sequences of '
    'user events, task completions and ticks up to the depth of each scenario')
CASE_TIMEOUT = 20000 if env.THOROUGH else 700
ASSUMPTIONS = ['the models of kivy 1.9, multiprocessing.Pool and zbar in mc/kivystub.py']
BUDGET = 1000 if env.THOROUGH else 150

KEYS = {'good': ref.B64KEY, 'wrong': base64.b64encode(bytes(range(32))[::-1]).decode(),
    'short': base64.b64encode(bytes(16)).decode(), 'junk': '%%%', 'pad': 'abcde', 'uni': '\u00e4' * 8}
RAW = {'good': ref.AESKEY, 'wrong': bytes(range(32))[::-1]}
KEYFILES = {k + e: v for k in KEYS for e, v in (('.json', json.dumps({'base64AESKey': KEYS[k]})),
    ('.txt', KEYS[k]))}
KEYFILES.update({'nl.txt': ref.B64KEY + '\n', 'nokey.json': '{}', 'list.json': '[]', 'broken.json': '{',
    'number.json': '{"base64AESKey": 5}', 'bytes.txt': b'\xff\xfe', 'bytes.json': b'\xff\xfe',
    'empty.json': ''})
STORES = ('right', 'empty', 'wrong')
NAMES = ['ZDA ID', 'Cash Register ID', 'Receipt ID', 'Timestamp', 'Sum Tax Normal', 'Sum Tax Reduced 1',
    'Sum Tax Reduced 2', 'Sum Tax Zero', 'Sum Tax Special', 'Turnover Counter',
    'Certificate Serial/Key ID', 'Chaining Value', 'Signature']
TYPES = ('JWS', 'QR', 'OCR', 'URL')
_corpus = []


def corpus():
    """(jws, signed by, system)"""
    if _corpus:
        return _corpus
    for n in ('open-ks', 'open-dec', 'closed-ks', 'open-tc5', 'open-tc16'):
        S = SYS[n]
        g = S.register()
        for a in (('std', 0, True), ('std', 250, True), ('dummy', 7, True), ('reversal', -50, True),
                ('std', [1, -200, 30000, 9, 123456789], True), ('std', 5, False), ('std', 0, False),
                ('dummy', 0, False), ('reversal', 0, False), ('std', -100000, True)):
            j, sb = g.make(*a)
            _corpus.append((j, sb, S))
        j, sb = g.make('std', 5, key='evil')
        _corpus.append((j, sb, S))
    S = SYS['open-ks']
    for i in IDS:
        if not set(i) & set('_\n\x00'):
            for kw in ({'reg': i}, {'rid': i}):
                g = S.register()
                _corpus.append(g.make('std', 12, **kw) + (S,))
    for s in SUMS:
        for k in range(5):
            g = S.register()
            _corpus.append(g.make('std', 0, sums=[s if k == n else '0,00' for n in range(5)], tcb=ref.enc_tc(
                g.reg, 'B0', 5)) + (S,))
    for size in range(5, 17):
        for v in (0, 1, -1, 29, 10 ** 7, -(10 ** 9), 2 ** (8 * min(size, 6) - 1) - 1):
            g = S.register(size=size)
            _corpus.append(g.make('std', 0, tcb=ref.enc_tc(g.reg, 'B0', v, size)) + (S,))
    return _corpus


def text(j, t):
    r = ref.Rec.of(j)
    return {'JWS': lambda: j, 'QR': r.qr, 'OCR': r.ocr, 'URL': lambda: 'http://h/' + r.urlhash()}[t]()


def rows(r, key=None):
    """What the view has to show."""
    tc = base64.b64encode(r.tcb).decode()
    if r.dummy:
        tc = 'TRA'
    elif r.reversal:
        tc = 'STO'
    elif key:
        tc = str(float(ref.dec_tc(r.reg, r.rid, r.tcb, RAW[key])) / 100)
    return list(zip(NAMES, [r.alg + '-' + r.zda, r.reg, r.rid, r.date] + [
        str(float(s.replace(',', '.'))) for s in r.sums] + [tc, r.serial, r.chain,
        'Signature system broken' if r.broken else r.jws.split('.')[2]]))


def store(S, name):
    """(key store document, keys by id)"""
    if name == 'right':
        return S.ks, S.ctx.keys
    if name == 'empty':
        return ref.keystore([], []), {}
    ids = list(S.ctx.keys)
    return ref.keystore([], [(i, 'leaf1') for i in ids]), {i: 'leaf1' for i in ids}


def verdict(j, sb, keys):
    return ref.check_sig(ref.Rec.of(j), ref.Ctx(None, None, keys), sb)


def K():
    from .. import kivystub
    return kivystub


DIR = None


def setup():
    global DIR
    if DIR is not None and DIR.endswith('-%d' % os.getpid()) and os.path.isdir(DIR):
        return
    DIR = tempfile.mkdtemp(dir=os.environ.get('RKSVMC_SCRATCH'), prefix='gui-', suffix='-%d' % os.getpid())
    for k, v in KEYFILES.items():
        put('key ' + k, v)


def put(name, data):
    with open(os.path.join(DIR, name), 'wb') as f:
        f.write(data if isinstance(data, bytes) else data.encode('utf-8', 'surrogatepass'))
    return os.path.join(DIR, name)


class Tab(object):
    """The receipt tab, and what should be seen."""

    def __init__(self, rep, what, docs=None):
        from ..gui import Gui
        self.g = Gui(1)
        self.rep, self.what, self.path = rep, what, []
        self.input = self.g.find(self.g.vr, 'TextInput')
        self.type = 'JWS'
        self.ok = True

    def fail(self, msg):
        self.ok = False
        self.rep.fail('%s: %s' % (self.what, msg), {'events': self.path, 'errors': self.g.errors,
            'crash': self.g.crash, 'text': self.input.text})

    def act(self, f, *a):
        """-> errors shown by this event"""
        n = len(self.g.errors)
        f(*a)
        self.rep.ev()
        if self.g.crash:
            self.fail('crashed: %s: %s' % self.g.crash[:2])
            self.g.crash = None
        errs = self.g.errors[n:]
        for e in errs:
            self.rep.outcome(e[0])
        return errs

    def store(self, doc):
        self.g.app.keyStore = drive.ks(doc)

    def radio(self, t):
        bs = {k: [c for c in w.children if isinstance(c, K().CheckBox)][0]
            for k, w in self.g.vr.buttons.items()}
        e = self.act(self.g.press, bs[t])
        self.type = t
        if e:
            self.fail('choosing %s: %r' % (t, e))
        self.radios()

    def radios(self):
        st = {k: w.state for k, w in self.g.vr.buttons.items()}
        want = {k: 'down' if k == self.type else 'normal' for k in st}
        if st != want:
            self.fail('input types show %r, expected %s' % (st, self.type))

    def read(self):
        return self.act(self.g.press, self.g.button(self.g.vr, 'Read Receipt'))

    def image(self, path):
        self.act(self.g.press, self.g.button(self.g.vr, '...'))
        e = self.act(self.g.choose, path)
        if self.g.modals():
            self.fail('dialog stays open')
            while self.g.modals():
                self.g.modals()[-1].dismiss(force=True)
        return e

    def vbuttons(self):
        """(verify, decrypt) of the view on top"""
        return self.g.buttons(self.g.view())[-2:]

    def aes(self):
        return self.g.find(self.g.view(), 'TextInput')

    def back(self):
        b = [x for x in self.g.buttons(self.g.view()) if type(x).__name__ == 'ActionPrevious'][0]
        e = self.act(self.g.press, b)
        if e or self.g.view() is not None:
            self.fail('view does not close: %r' % e)

    def rest(self):
        """Let all tasks and callbacks end. -> errors"""
        n = len(self.g.errors)
        for _ in range(30):
            if self.g.pending():
                self.act(self.g.done, 0)
            elif K().Clock.queue:
                self.act(self.g.tick)
            else:
                return self.g.errors[n:]
        self.fail('does not come to rest')
        return self.g.errors[n:]

    def shown(self, r, key=None):
        """The view on top shows exactly this receipt."""
        if self.g.view() is None:
            return self.fail('nothing shown')
        got = self.g.rows(self.g.view())
        want = rows(r, key)
        if got != want:
            d = [(a, b) for a, b in zip(got, want) if a != b]
            self.fail('shown %r, expected %r' % (d[:2] and d[0][0] or got, d[:2] and d[0][1] or want))


# -------------------------------------------------------------------- cases

SCEN = {
    'two': (['in:JWS', 'in:QR', 't:0:JWS', 't:1:QR', 'read', 'vverify', 'back', 'empty', 'right'], 7, 10),
    'keys': (['start:2', 'read', 'vverify', 'back', 'dkey:good', 'dkey:wrong', 'dkey:junk', 'dkey:', 'decrypt',
        'pickkey:good.json', 'pickkey:wrong.txt', 'pickkey:number.json', 'pickkey:missing', 'cancel'], 6, 8),
    'evil': (['start:2', 'read', 'vverify', 'back', 't:3:JWS', 't:4:JWS', 'right', 'wrong', 'empty'], 7, 10),
    'files': (['load', 'cancel', 'pick:0.txt', 'pick:1.txt', 'pick:2.img', 'pick:blank.img', 'pick:missing',
        'in:JWS', 'in:QR', 'in:OCR', 'read', 'back'], 6, 8),
    'url': (['start:2', 'in:URL', 'in:JWS', 't:0:URL', 't:1:URL', 't:1:JWS', 'net:0', 'net:1', 'read', 'vverify',
        'back'], 7, 9),
}


def cases():
    n = len(corpus())
    ret = [['explore', s] for s in SCEN]
    ret += [['corpus', a, min(n, a + 12)] for a in range(0, n, 12)]
    ret += [['depview', i] for i in range(5)]
    for b in BASES:
        for f in ('jws', 'qr', 'ocr'):
            L = len(build(f, BASES[b]))
            ret += [['chars', b, f, a, min(L, a + 40)] for a in range(0, L + 1, 40)]
    ret += [['url', i] for i in range(12)] + [['answers'], ['addresses'], ['qr'], ['types'], ['keyfiles']]
    ret += [['image', f] for f in FORMATS]
    return ret


def view_cycle(T, j, sb, keys, keynames, decrypts):
    """The view is open: look at it, verify, decrypt; leave it open."""
    r = ref.Rec.of(j)
    T.shown(r)
    v, d = T.vbuttons()
    want = 'No Signature' if r.broken else 'Verify'
    if v.text != want or v.disabled != r.broken:
        T.fail('verify button %r %r' % (v.text, v.disabled))
    if d.disabled != (not r.standard):
        T.fail('decrypt button %s' % ('disabled' if d.disabled else 'enabled'))
    errs = T.rest()
    hint = ['UnsignedNullReceiptException'] if r.broken and r.null and r.standard else []
    if [e[0] for e in errs] != hint:
        T.fail('opening: errors %r, expected %r' % (errs, hint))
    if not r.broken:
        errs = T.act(T.g.press, v)
        if errs or v.text != 'Verifying...' or not v.disabled:
            T.fail('verification does not start: %r %r' % (errs, v.text))
        errs = T.rest()
        V = verdict(j, sb, keys)
        if V:
            if len(errs) != 1 or errs[0][0] not in V or v.text != 'Verify' or v.disabled:
                T.fail('verified: %r %r, expected %s' % (v.text, errs, sorted(V)))
        elif errs or v.text != 'Valid Signature' or not v.disabled or list(v.background_color) != [0, 1, 0, 1]:
            T.fail('valid receipt verified: %r %r' % (v.text, errs))
    for how, k in decrypts:
        decrypt(T, r, how, k)
    T.rep.state((j, sorted(keys), T.type, decrypts))


def decrypt(T, r, how, k):
    v, d = T.vbuttons()
    if d.disabled:
        return
    if how == 'typed':
        T.act(T.g.type, T.aes(), KEYS[k])
        errs = T.act(T.g.press, d)
    else:
        T.act(T.g.type, T.aes(), '')
        T.act(T.g.press, d)
        if T.g.dialog() is None:
            return T.fail('no dialog for the key')
        errs = T.act(T.g.choose, DIR + '/key ' + k)
        if T.g.dialog() is not None:
            return T.fail('dialog stays open')
    name = k.split('.')[0]
    name = {'nl': 'good'}.get(name, name)
    if name in RAW:
        if errs or not d.disabled or T.aes().text.strip() != KEYS[name]:
            T.fail('key %s %s: errors %r, button %s' % (how, k, errs, d.disabled))
        T.shown(r, name)
    else:
        if len(errs) != 1 or d.disabled or T.aes().text != '':
            T.fail('bad key %s %s: errors %r, text %r' % (how, k, errs, T.aes().text))
        T.shown(r)


def corpus_case(rep, a, b):
    setup()
    combos = [[('typed', k)] for k in ('good', 'wrong')] + [
        [('typed', k) for k in ('short', 'junk', 'pad', 'uni', 'good')]] + [
        [('file', 'short.txt'), ('file', 'nokey.json'), ('file', 'good.json')], [('file', 'wrong.txt')], []]
    T = Tab(rep, 'receipt')
    for j, sb, S in corpus()[a:b]:
        T.what = 'receipt %s' % ref.Rec.of(j).payload
        n = 0
        for t in TYPES:
            with Net(answer(doc={'code': ref.Rec.of(j).qr()})) as net:
                T.radio(t)
                T.act(T.g.type, T.input, text(j, t))
                for st in STORES:
                    doc, keys = store(S, st)
                    T.store(doc)
                    for dec in combos if st == 'right' else combos[n % 5:n % 5 + 1]:
                        errs = T.read()
                        n += 1
                        if errs or T.g.view() is None:
                            T.fail('%s not shown: %r' % (t, errs))
                            return
                        view_cycle(T, j, sb, keys, None, dec)
                        T.back()
                    rep.expect(T.g.store_json(), drive.ks(doc).writeStoreToJson(None), T.what + ': key store')
                    rep.expect(T.input.text, text(j, t), T.what + ': input text')
                rep.expect([x[1] for x in net.asked], [text(j, t)] * len(net.asked), T.what + ': addresses')
                rep.expect(bool(net.asked), t == 'URL', T.what + ': asked the network')
        rep.trace()


def depview(rep, i):
    """Receipts opened from the DEP tab are decrypted with its key."""
    setup()
    names = ('open-ks', 'open-dec', 'closed-ks', 'open-tc5', 'open-tc16')
    C = [c for c in corpus()[:55] if c[2] is SYS[names[i]]]
    path = put('dep.json', json.dumps(ref.dep(([c[0] for c in C[:4]], None, []), ([c[0] for c in C[4:]], None, []))))
    for key in [None] + sorted(KEYS):
        T = Tab(rep, 'receipt opened from the DEP, key %s' % key)
        T.store(C[0][2].ks)
        T.act(T.g.press, T.g.button(T.g.vd, 'Load DEP'))
        T.act(T.g.choose, path)
        T.act(T.g.type, T.g.dep_key, KEYS[key] if key else '')
        for n, (j, sb, S) in enumerate(C):
            r = ref.Rec.of(j)
            errs = T.act(T.g.press, T.g.tree_nodes('Belege-kompakt')[n])
            if errs or T.g.view() is None:
                T.fail('receipt %d: %r' % (n, errs))
                return
            T.shown(r)
            errs = T.rest()
            v, d = T.vbuttons()
            want = 1 if r.broken and r.null and r.standard else 0
            if key and key not in RAW:
                want += 1
            if len(errs) != want:
                T.fail('receipt %d: errors %r' % (n, errs))
            good = key if key in RAW else None
            T.shown(r, good)
            if T.aes().text != (KEYS[key] if good else ''):
                T.fail('key shown: %r' % T.aes().text)
            if d.disabled != (not r.standard or good is not None):
                T.fail('receipt %d: decrypt button' % n)
            if not d.disabled:
                decrypt(T, r, 'typed', 'wrong')
            if not v.disabled:
                T.act(T.g.press, v)
                errs = T.rest()
                V = verdict(j, sb, S.ctx.keys)
                if (v.text == 'Valid Signature') != (not V) or len(errs) != len(V):
                    T.fail('receipt %d verified: %r %r, expected %s' % (n, v.text, errs, V))
            T.back()
            rep.state((i, key, n))
        rep.trace()


def read_any(T, t, s, want, r=None):
    """Read a text; want: True, 'any' or the set of errors."""
    T.act(T.g.type, T.input, s)
    errs = T.read()
    view = T.g.view()
    if T.input.text != s:
        T.fail('text changed to %r' % T.input.text)
    if view is not None and errs or view is None and len(errs) != 1:
        T.fail('%s %r: view %s, errors %r' % (t, s, view is not None, errs))
    elif view is None:
        if want is True:
            T.fail('%s %r refused: %r' % (t, s, errs))
        elif want != 'any' and '?' not in want and errs[0][0] not in want:
            T.fail('%s %r: %r, expected %s' % (t, s, errs, sorted(want)))
    elif isinstance(want, set) and want != {'?'}:
        T.fail('%s %r accepted, expected %s' % (t, s, sorted(want)))
    elif r is not None:
        T.shown(r)
    T.rep.state((t, repr(s)))
    if view is not None:
        T.g.view().dismiss()
        T.g.act(lambda: T.rest())
    return view is not None


def rec_of(fmt, s):
    """The reference's reading of a well-formed text."""
    if fmt == 'jws':
        return ref.Rec(s)
    f = s.split('_')
    raw = f[:]
    if fmt == 'ocr':
        for i in (10, 12, 13):
            raw[i] = base64.b64encode(base64.b32decode(f[i])).decode()
    return ref.Rec(ref.jws('_'.join(raw[:13]), base64.b64decode(raw[13])))


def chars(rep, b, fmt, lo, hi):
    """Every character deleted, replaced, preceded, doubled."""
    setup()
    base = build(fmt, BASES[b])
    T = Tab(rep, 'character')
    T.radio({'jws': 'JWS', 'qr': 'QR', 'ocr': 'OCR'}[fmt])
    for i in range(lo, hi + 1):
        alts = {base[:i] + base[i + 1:], base[:i]}
        if i < len(base):
            alts.add(base[:i] + base[i] + base[i:])
        for c in CHARS:
            alts.add(base[:i] + c + base[i + 1:])
            alts.add(base[:i] + c + base[i:])
        for s in sorted(alts):
            if '\ud800' in s:
                continue
            want = judge(fmt, s)
            r = rec_of(fmt, s) if want is True else None
            read_any(T, fmt, s, want, r)
            if not T.ok:
                return
    rep.trace()


def types(rep):
    """Every text under every input type."""
    setup()
    T = Tab(rep, 'type')
    js = [c[0] for c in corpus()[:24]]
    for j in js:
        for t in ('JWS', 'QR', 'OCR'):
            T.radio(t)
            for u in ('JWS', 'QR', 'OCR', 'csv'):
                s = ref.Rec.of(j).csv() if u == 'csv' else text(j, u)
                for s in (s, s + ' ', ' ' + s, s[1:], s + s, '', s.lower(), s.upper()):
                    want = judge(t.lower(), s)
                    if not read_any(T, t, s, want, rec_of(t.lower(), s) if want is True else None) and not T.ok:
                        return
    rep.trace()


def keyfiles(rep):
    """Every key and key file, one after the other, for a receipt of every kind."""
    setup()
    T = Tab(rep, 'key')
    steps = [('file', k) for k in sorted(KEYFILES)] + [('typed', k) for k in sorted(KEYS)] + [('file', 'missing')]
    for j, sb, S in corpus()[:11]:
        r = ref.Rec.of(j)
        for a, b in itertools.product(steps, repeat=2):
            T.act(T.g.type, T.input, j)
            T.read()
            T.rest()
            T.what = 'keys %s, %s' % (a, b)
            decrypt(T, r, *a)
            decrypt(T, r, *b)
            T.back()
            if not T.ok:
                return
            rep.state((r.rid, a, b))
    rep.trace()


def url_case(rep, i):
    """Answers with a receipt, addresses with all sorts of hashes."""
    setup()
    from .c26 import SHAPES, pool
    P = pool()
    S, j, sb = P[i * 3]
    r = ref.Rec.of(j)
    T = Tab(rep, 'URL')
    T.radio('URL')
    hs = [ref.Rec.of(x[1]).urlhash() for x in P[:8]] + [r.urlhash()] + list(alterations(r.urlhash()))[i::12]
    with Net(answer(doc={'code': r.qr()})):
        for n, h in enumerate(hs):
            for sh in SHAPES if n < 9 else SHAPES[:6]:
                u = sh.format(h)
                same = hash_of(u) == r.urlhash()
                read_any(T, 'URL', u, ('any' if u.count('#') > 1 else True) if same else {'InvalidURLHashException',
                    'InvalidURL', 'InvalidSchema', 'MissingSchema'}, r if same else None)
                if not T.ok:
                    return
    rep.trace()


def answers(rep):
    setup()
    T = Tab(rep, 'answer')
    T.radio('URL')
    r = ref.Rec.of(corpus()[1][0])
    q = r.qr()
    R = requests.exceptions
    bad = [answer(404, {'code': q}), answer(500, {'code': q}), answer(403, {'code': q}), answer(raw=b''),
        answer(raw=b'<html>'), answer(raw=q.encode()), answer(doc={}), answer(doc=[]), answer(doc={'Code': q}),
        answer(doc={'code': None}), answer(doc={'code': ''}), answer(doc={'code': [q]}), answer(doc={'code': 5}),
        answer(doc=q), answer(doc=5), answer(doc=None), answer(doc={'code': q + ' '}), answer(doc={'code': r.ocr()}),
        answer(doc={'code': q[:-4]}), answer(doc={'code': r.csv()}), answer(doc={'code': r.jws}),
        answer(doc={'code': q[1:]}), answer(doc={'code': {'code': q}}), answer(raw=b'\xff\xfe{'),
        answer(raw=b'[' * 100000), answer(raw=b'{"code": "\\ud800"}'), answer(doc={'code': q.replace('R1', 'R2')}),
        answer(doc={'code': ref.Rec.of(corpus()[2][0]).qr()})] + [boom(e('x')) for e in (R.ConnectionError, R.Timeout,
        R.TooManyRedirects, R.SSLError, R.ChunkedEncodingError, R.ContentDecodingError, R.InvalidURL)]
    for n, f in enumerate(bad):
        for u in ('http://h/' + r.urlhash(), 'http://h/#' + r.urlhash(), 'http://h/'):
            with Net(f):
                T.what = 'answer %d' % n
                read_any(T, 'URL', u, {'?', 'error'})
    rep.trace()


PIECES = ['http://', 'https://', 'h', '[', ']', '*', '.', '/', '#', '%', ':', '99999', '\u00e4', 'a' * 70, '@', '\0',
    ' ', '?', '\\', '[::1]', '\u2024', '-', 'ftp://', 'file:///', ':x', 'HASH']


def addresses(rep):
    setup()
    T = Tab(rep, 'address')
    T.radio('URL')
    r = ref.Rec.of(corpus()[1][0])
    with Net(answer(doc={'code': r.qr()})):
        for n in range(4 if env.THOROUGH else 3):
            for w in itertools.product(PIECES, repeat=n):
                for pre in ('', 'http://'):
                    s = pre + ''.join(w).replace('HASH', r.urlhash())
                    read_any(T, 'URL', s, 'any', r)
                    if not T.ok:
                        return
    rep.trace()


# ------------------------------------------------------------------- images

def picture(fmt, mode='RGB', size=(3, 2)):
    im = Image.new('RGB', size, (255, 0, 0))
    im.putpixel((1, 1), (0, 255, 9))
    b = io.BytesIO()
    im.convert(mode).save(b, fmt)
    return b.getvalue(), im.convert(mode)


def pixels(im):
    g = im.convert('L')
    return g.size + (g.tobytes(),)


FORMATS = ('PNG', 'GIF', 'BMP', 'PPM', 'TGA', 'PCX', 'ICO', 'TIFF')


def qr(rep):
    """The first QR code in the picture becomes the text."""
    setup()
    Z = K().zbar
    js = [c[0] for c in corpus()[:6]]
    for fmt, mode in (('PNG', 'RGB'), ('PNG', 'L'), ('PNG', '1'), ('PNG', 'P'), ('PNG', 'RGBA'), ('GIF', 'P'),
            ('BMP', 'RGB'), ('PPM', 'RGB'), ('TIFF', 'RGB'), ('TIFF', 'CMYK')):
        for size in ((3, 2), (2, 3), (17, 9)):
            T = Tab(rep, 'QR code in %s %s' % (fmt, mode))
            data, im = picture(fmt, mode, size)
            im = Image.open(io.BytesIO(data))
            path = put('img', data)
            for start in TYPES:
                for n, codes in enumerate(([('QRCODE', 0)], [('QRCODE', 1), ('QRCODE', 0)], [], [('EAN13', 2)],
                        [('EAN13', 0), ('QRCODE', 2), ('QRCODE', 1)], [('QRCODE', 3), ('EAN13', 2)])):
                    Z.pictures.clear()
                    Z.pictures[pixels(im)] = [K().Sym(k, ref.Rec.of(js[i]).qr()) for k, i in codes]
                    if T.type != start:
                        T.radio(start)
                    T.act(T.g.type, T.input, 'before')
                    errs = T.image(path)
                    good = [i for k, i in codes if k == 'QRCODE']
                    if good:
                        T.type = 'QR'
                        if errs or T.input.text != ref.Rec.of(js[good[0]]).qr():
                            T.fail('codes %r read as %r, errors %r' % (codes, T.input.text, errs))
                        T.radios()
                        if T.read() or T.g.view() is None:
                            T.fail('receipt in the picture not shown')
                        else:
                            T.shown(ref.Rec.of(js[good[0]]))
                            T.back()
                            T.rest()
                    else:
                        if [e[1] for e in errs] != ['No QR codes found.'] or T.input.text != 'before':
                            T.fail('picture without code: %r %r' % (errs, T.input.text))
                        T.radios()
                    T.rep.state((fmt, mode, size, start, n))
                    if not T.ok:
                        return
    Z.pictures.clear()
    # text files
    T = Tab(rep, 'text file')
    for j in js:
        for t in ('JWS', 'QR', 'OCR'):
            for pre, post in (('', ''), ('', '\n'), (' \n', ' \r\n\n'), ('\t', '')):
                T.radio(t)
                errs = T.image(put('text', pre + text(j, t) + post))
                if errs or T.input.text != text(j, t):
                    T.fail('text read as %r %r' % (T.input.text, errs))
                T.radios()
                read_any(T, t, T.input.text, True, ref.Rec.of(j))
    for name in ('missing', '.', '../' + os.path.basename(DIR)):
        errs = T.image(os.path.join(DIR, name))
        if len(errs) != 1:
            T.fail('file %s: %r' % (name, errs))
    rep.trace()


def image(rep, fmt):
    """Every damaged picture: loaded as text, or one error."""
    setup()
    data = picture(fmt)[0]
    T = Tab(rep, 'damaged %s' % fmt)

    def attempt(d, what):
        T.act(T.g.type, T.input, 'before')
        errs = T.image(put('img', d))
        T.radios()
        if len(errs) > 1 or errs and T.input.text != 'before':
            T.fail('%s: text %r, errors %r' % (what, T.input.text, errs))
        rep.state((fmt, what))
        return T.ok
    for i in range(len(data) + 1):
        if not attempt(data[:i], 'first %d bytes' % i):
            return
        for v in (0, 1, 0x7f, 0x80, 0xff) + ((data[i] ^ 1, data[i] ^ 0x20) if i < len(data) else ()):
            if i < len(data) and not attempt(data[:i] + bytes([v]) + data[i + 1:], 'byte %d is %d' % (i, v)):
                return
        if not attempt(data[:i] + b'\0' + data[i:], 'byte inserted at %d' % i):
            return
        if not attempt(data[:i] + data[i + 1:], 'byte %d missing' % i):
            return
    rep.trace()


# ------------------------------------------------------------------- search

def cast():
    C = corpus()
    S = C[1][2]
    return [C[1], C[4], C[5], C[10], C[6], C[2], C[11]], S


class Walk(Tab):
    """One execution with its ghost state."""

    def __init__(self, rep, name):
        Tab.__init__(self, rep, name)
        self.cast, self.S = cast()
        self.st, self.text, self.net = 'right', '', 0
        self.store(self.S.ks)
        self.view_of = None             # index shown in the view on top
        self.key = None
        self.open = []                  # running verifications [view, expected, button]
        self.hint = 0
        im = Image.new('L', (4, 4), 7)
        K().zbar.pictures.clear()
        K().zbar.pictures[pixels(im)] = [K().Sym('QRCODE', ref.Rec.of(self.cast[2][0]).qr())]
        if not os.path.exists(DIR + '/2.img'):
            im.save(DIR + '/2.img', 'PNG')
            Image.new('L', (5, 4), 9).save(DIR + '/blank.img', 'PNG')
            for i in (0, 1):
                put('%d.txt' % i, (self.cast[i][0] if i == 0 else ref.Rec.of(self.cast[i][0]).ocr()) + '\n')

    def enabled(self, events):
        g = self.g
        ret = ['done:%d' % i for i in range(len(g.pending()))]
        if K().Clock.queue:
            ret.append('tick')
        if g.dialog() is not None:
            want = ('pickkey:',) if 'AES' in g.dialog().title else ('pick:',)
            return ret + [e for e in events if e.startswith(want) or e == 'cancel']
        if g.view() is not None:
            v, d = self.vbuttons()
            for e in events:
                k = e.split(':')[0]
                if k in ('back', 'right', 'wrong', 'empty') or k == 'vverify' and not v.disabled or \
                        k == 'decrypt' and not d.disabled or k == 'dkey':
                    ret.append(e)
            return ret
        return ret + [e for e in events if e.split(':')[0] in ('in', 't', 'read', 'load', 'right', 'wrong', 'empty',
            'net')]

    def shown_key(self):
        return self.key

    def do(self, e):
        self.path.append(e)
        g = self.g
        k, _, arg = e.partition(':')
        errs = []
        want = set()                    # errors allowed, exactly one if any
        view = g.view()
        if k == 'in':
            self.radio(arg)
        elif k in ('t', 'start'):
            i, t = (arg + ':JWS').split(':')[:2]
            self.text = text(self.cast[int(i)][0], t)
            errs = self.act(g.type, self.input, self.text)
        elif k == 'net':
            self.net = int(arg)
        elif k in STORES:
            doc, keys = store(self.S, k)
            self.store(doc)
            self.st = k
        elif k == 'read':
            with Net(answer(doc={'code': ref.Rec.of(self.cast[self.net][0]).qr()})):
                errs = self.read()
            i = self.meant()
            if i is None:
                if len(errs) != 1 or g.view() is not None:
                    self.fail('reading %r as %s: %r' % (self.text, self.type, errs))
            else:
                self.view_of, self.key = i, None
                r = ref.Rec.of(self.cast[i][0])
                if errs or g.view() is None:
                    self.fail('receipt not shown: %r' % errs)
                    return
                self.hint += r.broken and r.null and r.standard
                v, d = self.vbuttons()
                if v.text != ('No Signature' if r.broken else 'Verify') or self.aes().text:
                    self.fail('new view says %r, key %r' % (v.text, self.aes().text))
            errs = []
        elif k == 'load':
            errs = self.act(g.press, g.button(g.vr, '...'))
        elif k == 'cancel':
            errs = self.act(g.cancel)
        elif k == 'pick':
            errs = self.act(g.choose, DIR + '/' + arg)
            if g.dialog() is not None:
                self.fail('dialog stays open')
            if arg.endswith('txt'):
                i = int(arg[0])
                self.text = text(self.cast[i][0], 'OCR' if i else 'JWS')
            elif arg == '2.img':
                self.text, self.type = text(self.cast[2][0], 'QR'), 'QR'
            else:
                if len(errs) != 1:
                    self.fail('loading %s: %r' % (arg, errs))
                errs = []
        elif k == 'vverify':
            v, d = self.vbuttons()
            errs = self.act(g.press, v)
            if v.text != 'Verifying...' or not v.disabled:
                self.fail('verification does not start')
            j, sb, S = self.cast[self.view_of]
            self.open.append([view, verdict(j, sb, store(self.S, self.st)[1]), v])
        elif k == 'dkey':
            errs = self.act(g.type, self.aes(), KEYS[arg] if arg else '')
            v, d = self.vbuttons()
        elif k == 'decrypt':
            self.before = self.aes().text
            v, d = self.vbuttons()
            errs = self.act(g.press, d)
            if self.before:
                self.took([n for n in KEYS if KEYS[n] == self.before][0], errs)
                errs = []
            elif g.dialog() is None:
                self.fail('no dialog')
        elif k == 'pickkey':
            errs = self.act(g.choose, DIR + '/key ' + arg)
            self.took(arg.split('.')[0], errs)
            if g.dialog() is not None:
                self.fail('dialog stays open')
            errs = []
        elif k == 'back':
            self.back()
            self.view_of, self.key = None, None
        elif k == 'done':
            errs = self.act(g.done, int(arg))
        elif k == 'tick':
            errs = list(self.act(g.tick))
            for o in list(self.open):
                v, V, b = o
                if b.text != 'Verifying...':
                    self.open.remove(o)
                    hit = [x for x in errs if x[0] in V]
                    if b.text == 'Valid Signature' and not V and b.disabled:
                        pass
                    elif b.text == 'Verify' and hit and not b.disabled:
                        errs.remove(hit[0])
                    else:
                        self.fail('verified: %r %r, expected %s' % (b.text, errs, sorted(V) or 'valid'))
            for x in list(errs):
                if x[0] == 'UnsignedNullReceiptException' and self.hint:
                    self.hint -= 1
                    errs.remove(x)
        if errs:
            self.fail('%s: unexpected errors %r' % (e, errs))
        self.invariant()

    def meant(self):
        """The receipt the text stands for under the chosen type."""
        for i, (j, sb, S) in enumerate(self.cast):
            if self.type == 'URL':
                if self.text == text(j, 'URL') and i == self.net:
                    return i
            elif self.text == text(j, self.type):
                return i
        return None

    def took(self, name, errs):
        if name in RAW:
            self.key = name
            if errs or self.aes().text != KEYS[name]:
                self.fail('key %s: %r, shown %r' % (name, errs, self.aes().text))
        else:
            if len(errs) != 1:
                self.fail('bad key: %r' % errs)

    def invariant(self):
        g = self.g
        if self.input.text != self.text:
            self.fail('input text %r, expected %r' % (self.input.text, self.text))
        self.radios()
        if (self.view_of is None) != (not [m for m in g.modals() if not isinstance(m, K().Popup)]):
            self.fail('view')
        if self.view_of is not None and g.view() is not None:
            self.shown(ref.Rec.of(self.cast[self.view_of][0]), self.key)
            v, d = self.vbuttons()
            r = ref.Rec.of(self.cast[self.view_of][0])
            if d.disabled != (self.key is not None or not r.standard):
                self.fail('decrypt button')
            run = [o for o in self.open if o[0] is g.view()]
            if (v.text == 'Verifying...') != bool(run):
                self.fail('verify button says %r' % v.text)
        if not g.pending() and not K().Clock.queue and (self.open or self.hint):
            self.fail('nothing left to happen, but %d verifications run, %d hints' % (len(self.open), self.hint))

    def mark(self):
        V = None
        if self.view_of is not None and self.g.view() is not None:
            V = self.vbuttons()[0].text
        return repr((self.st, self.text, self.net, self.view_of, self.key, self.hint, V,
            [sorted(o[1]) for o in self.open]))


def explore(rep, name):
    from ..engine import Abort
    setup()
    events, d1, d2 = SCEN[name]
    depth = d2 if env.THOROUGH else d1
    root = ['t:' + e[6:] for e in events if e.startswith('start:')]
    events = [e for e in events if not e.startswith('start:')]
    seen, frontier = set(), [(root, None)]
    end = time.time() + BUDGET

    def step(w, e):
        n = len(rep.violations)
        w.do(e)
        if len(rep.violations) > n:
            raise Abort()
    for level in range(depth + 1):
        if time.time() > end:
            rep.outcome('depth limited by time')
            break
        nxt = []
        for path, live in frontier:
            if live:
                w, state = live
                K().resume(state)
                step(w, path[-1])
            else:
                w = Walk(rep, name)
                for e in path:
                    step(w, e)
            f = w.g.fingerprint() + w.mark().encode()
            if f in seen:
                continue
            seen.add(f)
            rep.state((name, repr(f)))
            if level == depth:
                continue
            live = (w, K().suspend()) if len(nxt) < 20000 else None
            for e in w.enabled(events):
                nxt.append((path + [e], live))
                live = None
        frontier = nxt
        rep.trace(len(nxt))
        if not nxt:
            break
    rep.sample({'scenario': name, 'path': frontier[0][0] if frontier else path})


def run(case, rep):
    k = case[0]
    {'explore': explore, 'corpus': corpus_case, 'depview': depview, 'chars': chars, 'types': types, 'url': url_case,
        'answers': answers, 'addresses': addresses, 'qr': qr, 'image': image, 'keyfiles': keyfiles}[k](rep, *case[1:])
