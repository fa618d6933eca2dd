"""C29: what the GUI's DEP tab claims."""
import base64
import json
import os
import re
import tempfile
import time

from .. import drive, env, ref
from ..world import CERTKEY

ID = 'C29'
LEVEL = 'model_checking'
RULE = ('breadth-first search of the running GUI (unchanged rktool.py and rktool.kv on a model of '
    'kivy and the process pool): all sequences of user events (open, choose and cancel DEPs and '
    'keys, type keys, verify, abort, trust and remove certificates, view and verify receipts), '
    'task completions in every order and clock ticks up to the depth of each scenario, states '
    'merged by a fingerprint of widgets, tasks and clock; every state is checked against the '
    'reference verdict of the attempt it claims to report')
CASE_TIMEOUT = 20000 if env.THOROUGH else 700
ASSUMPTIONS = ['the model of kivy 1.9 and multiprocessing.Pool in mc/kivystub.py (kivy itself is '
    'not installed); results reach the GUI thread as clock callbacks, terminated pools deliver '
    'nothing more']

def readable(key):
    return re.match('^[A-Za-z0-9+/]*={0,3}$', key) and len(key.strip()) % 4 == 0


# (receipts as (kind, cents, signed), certificate, chain, faults)
L0, L1 = ('leaf0mid0', ['mid0', 'root0']), ('leaf1root0', ['root0'])
KEYS = {'none': '', 'good': ref.B64KEY, 'wrong': base64.b64encode(bytes(32)).decode(),
    'short': base64.b64encode(bytes(16)).decode(), 'junk': '%%%', 'pad': 'abcde',
    'nl': ref.B64KEY + '\n', 'uni': '\u00e4' * 8}


class Doc(object):
    """A DEP with its reference verdicts."""

    def __init__(self, groups, text=None):
        self.groups = groups
        self.json = ref.dep(*[([j for j, sb in recs], c, ch) for recs, c, ch in groups])
        self.text = text or json.dumps(self.json)
        self.memo = {}
        self.recs = [(j, sb, c) for recs, c, ch in groups for j, sb in recs]

    def verdict(self, keytext, certs):
        """-> set of possible errors of the verification; empty: valid."""
        k = (keytext, tuple(certs))
        if k not in self.memo:
            self.memo[k] = self.judge(keytext, certs)
        return self.memo[k]

    def judge(self, keytext, certs):
        keys = {ref.keyid(ref.cert_serial(c)): CERTKEY[c] for c in certs}
        groups = [g for g in self.groups if g[0]]
        V = set()
        for recs, c, ch in groups:
            if not c and len(groups) > 1:
                V.add('NoCertificateGivenException')
            if c and not set([c] + ch) & set(certs):
                V.add('UntrustedCertificateException')
        if V:
            return V
        key = None
        if keytext:
            key = base64.b64decode(keytext.encode())
        ctxs = []
        for recs, c, ch in self.groups:
            ctxs += [ref.Ctx(c, CERTKEY.get(c), keys, key if key and len(key) == 32 else None)
                ] * len(recs)
        V = ref.walk([(j, sb) for j, sb, c in self.recs], lambda i: ctxs[i])[1]
        if key is not None and len(key) != 32:
            return V | {'InvalidKeyException'}
        return V

    def tree(self):
        if 'tree' not in self.memo:
            self.memo['tree'] = self.show()
        return self.memo['tree']

    def show(self):
        ret = []
        for recs, c, ch in self.groups:
            if not recs:
                continue
            s = lambda x: 'Serial: ' + ref.keyid(ref.cert_serial(x))
            ret.append(['Group %d' % (len(ret) + 1), ('Signaturzertifikat', [s(c)] if c else []),
                ('Zertifizierungsstellen', [s(x) for x in ch]),
                ('Belege-kompakt', [ref.Rec.of(j).rid for j, sb in recs])])
        return ret

    def single(self, i, certs):
        """Expected outcome of verifying receipt i against the key store."""
        j, sb, c = self.recs[i]
        r = ref.Rec.of(j)
        keys = {ref.keyid(ref.cert_serial(x)): CERTKEY[x] for x in certs}
        return ref.check_sig(r, ref.Ctx(None, None, keys), sb)


def docs():
    ret = {}

    def make(name, parts, fault=None):
        reg = ref.Register()
        groups, n = [], 0
        for ops, (cert, chain) in parts:
            recs = []
            reg.key = CERTKEY[cert] or 'leaf0'
            reg.serial = ref.keyid(ref.cert_serial(cert or 'leaf0self'))
            for op in ops:
                kw = dict(op[3]) if len(op) > 3 else {}
                recs.append(reg.make(op[0], op[1], op[2], **kw))
            groups.append((recs, cert, chain))
        ret[name] = Doc(groups)

    S, X = ('std', 0, True), ('std', 250, True)
    NC = (None, [])
    make('A', [([S, X, ('dummy', 9, True)], L0), ([('reversal', -50, True), X], L1)])
    make('S', [([S, X], ('leaf0self', []))])
    make('B', [([S, ('std', 250, True, {'chain': ref.chain_value('x')}), X], L0), ([X], L1)])
    make('T', [([S, X], L0), ([('std', 5, True, {'tcdelta': 1})], L1)])
    make('D', [([S, X], L0), ([('std', 5, True, {'rid': 'B0'})], L1)])
    make('U', [([S, X], L0), ([('std', 5, True, {'key': 'evil'})], L1)])
    make('O', [([S, ('std', 5, False), ('std', 0, False), X, S], L0)])
    make('R', [([S, ('std', 5, False), S], L0), ([X], L1)])
    make('N', [([S, X], NC)])
    make('P', [([S, X], L0), ([X], NC), ([X], L1)])
    make('E', [([], L0), ([S, X], L1)])
    make('Z', [([S], L0), ([X], L0), ([X], L1), ([X], L0), ([X], L1)])
    make('V', [([S], L0), ([X], L0), ([('std', 5, True, {'chain': 'AAAAAAAAAAA='})], L1),
        ([X], L0), ([('std', 5, True, {'rid': 'B0'})], L1)])
    return ret


def bad_files():
    """-> {label: (content, may the parser accept it)}"""
    good = docs()['S']
    js = [j for j, sb, c in good.recs]
    g = good.json['Belege-Gruppe'][0]
    bad = {'nojson': '{', 'list': '[]', 'null': 'null', 'number': '5', 'object': '{}', 'empty': '',
        'nogroups': {'Belege-Gruppe': []}, 'nullgroups': {'Belege-Gruppe': None},
        'norecs': ref.dep(([], 'leaf0self', [])), 'group text': {'Belege-Gruppe': ['x']},
        'group empty': {'Belege-Gruppe': [{}]}, 'groups dict': {'Belege-Gruppe': {'a': 1}},
        'receipt number': ref.dep(([5], None, [])), 'surrogate': ref.dep((['\ud800'], None, [])),
        'receipt null': ref.dep(([None], None, [])), 'certificate': {'Belege-Gruppe': [
            dict(g, Signaturzertifikat='abc')]}, 'chain': {'Belege-Gruppe': [
            dict(g, Zertifizierungsstellen=['abc'])]}, 'certificate number': {'Belege-Gruppe': [
            dict(g, Signaturzertifikat=5)]}, 'chain text': {'Belege-Gruppe': [
            dict(g, Zertifizierungsstellen='abc')]}, 'deep': '[' * 100000, 'bytes': b'\xff\xfe{',
        'utf16': json.dumps(good.json).encode('utf-16'), 'nul': b'\0' * 50}
    for i, r in enumerate(['', 'abc', 'a.b.c', js[0] + '.', js[0][:-1] + '!', js[0][5:], '..',
            ref.jws(ref.Rec.of(js[0]).payload.replace(',', '.'), bytes(64)),
            ref.jws('x', bytes(64)), ref.Rec.of(js[0]).qr()]):
        bad['receipt %d' % i] = ref.dep((js[:1] + [r], None, []))
        bad['receipt %d first' % i] = ref.dep(([r], 'leaf0self', []), (js, 'leaf0self', []))
    return {k: (v if isinstance(v, (bytes, str)) else json.dumps(v)) for k, v in bad.items()}


def K():
    from .. import kivystub
    return kivystub


DOCS = None
DIR = None


def setup():
    global DOCS, DIR
    if DIR is not None and DIR.endswith('-%d' % os.getpid()) and os.path.isdir(DIR):
        return
    DOCS = docs()
    DIR = tempfile.mkdtemp(dir=os.environ.get('RKSVMC_SCRATCH'), prefix='gui-',
            suffix='-%d' % os.getpid())
    for k, d in DOCS.items():
        put(k, d.text)
    for k, v in bad_files().items():
        put('bad ' + k, v)
    os.makedirs(DIR + '/bad directory.json', exist_ok=True)
    for k, v in KEYS.items():
        put('key ' + k, v, '')
        put('key ' + k, json.dumps({'base64AESKey': v}))
    for k, v in KEYFILES.items():
        put('key ' + k, v)


KEYFILES = {'nokey': '{}', 'list': '[]', 'number': '{"base64AESKey": 5}', 'text': '"x"',
    'nulljson': 'null', 'nullkey': '{"base64AESKey": null}', 'broken': '{', 'bytes': b'\xff\xfe',
    'listkey': '{"base64AESKey": ["a"]}', 'deep': '[' * 100000}


def put(name, data, ext='.json'):
    with open(DIR + '/' + name + ext, 'wb') as f:
        f.write(data if isinstance(data, bytes) else data.encode('utf-8', 'surrogatepass'))


# a deeper level is not begun after this time (the unchanged tree needs less than half of it)
BUDGET = 1000 if env.THOROUGH else 150
# scenario: (processes, trusted from the start, events, depth, deeper)
ROOT = ['root0']
SCEN = {
    'abort': (2, ROOT, ['open', 'pick:A', 'pick:B', 'cancel', 'verify'], 9, 12),
    'keys': (1, ROOT, ['start:T', 'verify', 'key:none', 'key:good', 'key:wrong', 'key:short',
        'key:junk', 'key:pad', 'key:uni'], 6, 8),
    'keyswitch': (2, ROOT, ['start:T', 'verify', 'key:none', 'key:good'], 13, 18),
    'keyfiles': (1, ROOT, ['start:A', 'verify', 'openkey', 'cancel'] + [
        'pickkey:' + k for k in ('good.json', 'nl', 'none.json', 'short', 'nokey.json', 'list.json',
        'number.json', 'text.json', 'nulljson.json', 'nullkey.json', 'broken.json', 'bytes.json',
        'listkey.json', 'missing', 'deep.json')], 4, 6),
    'trust': (2, [], ['start:A', 'verify', 'cert:0', 'cert:1', 'chain:0', 'chain:1', 'del:0'], 5, 7),
    'views': (2, ROOT, ['start:A', 'verify', 'view:0', 'view:2', 'view:4', 'back', 'vverify'], 7, 10),
    'views2': (1, ROOT + ['leaf1root0', 'leaf0mid0'], ['start:O', 'verify', 'view:0', 'view:1',
        'view:2', 'back', 'vverify'], 7, 10),
    'views3': (1, [], ['start:U', 'verify', 'cert:0', 'cert:1', 'view:1', 'view:2', 'back',
        'vverify'], 6, 8),
    'bad': (2, ROOT, ['open', 'pick:A', 'pick:bad nojson', 'pick:bad receipt 1',
        'pick:bad directory', 'pick:missing', 'verify'], 8, 10),
    'trust2': (2, [], ['start:A', 'settle', 'verify', 'cert:0', 'cert:1', 'chain:0', 'chain:1',
        'del:0'], 6, 8),
    'trust3': (1, ['leaf0mid0'], ['start:Z', 'settle', 'verify', 'cert:0', 'cert:2', 'chain:1',
        'chain:4', 'del:0'], 6, 8),
    'views4': (2, ['mid0', 'leaf1root0'], ['start:A', 'settle', 'verify', 'view:0', 'view:4',
        'back', 'vverify', 'cert:0', 'del:0'], 7, 9),
    'views5': (3, ['root0'], ['settle', 'open', 'pick:O', 'pick:B', 'pick:bad receipt 1', 'verify',
        'view:1', 'view:2', 'view:3', 'back', 'vverify', 'cert:0', 'key:good'], 7, 9),
    'stale': (2, [], ['start:A', 'verify', 'chain:1', 'del:0'], 10, 14),
    'stale2': (2, ROOT, ['open', 'pick:P', 'pick:A', 'verify'], 9, 12),
    'nocerts': (2, ['leaf0mid0'], ['open', 'pick:N', 'pick:P', 'pick:E', 'verify', 'chain:0',
        'del:0'], 7, 10),
}
for d in 'ASBTDUORNPEZV':
    for n in (1, 2, 3, 8) if env.THOROUGH else (1, 3):
        SCEN['one %s %d' % (d, n)] = (n, {'S': ['leaf0self'], 'N': ['leaf0self'],
            'P': ['root0', 'leaf0mid0']}.get(d, ROOT), ['start:' + d, 'verify', 'key:good', 'key:none',
            'chain:0', 'cert:0'], 7 if n > 1 else 8, 9)


def cases():
    ret = [['explore', s] for s in SCEN]
    ret += [['badfile', b] for b in sorted(bad_files())]
    return sorted(ret, key=lambda c: (c[0] != 'explore', c[1].startswith('one')))


class Run(object):
    """One execution with its ghost state."""

    def __init__(self, rep, nprocs, trusted, what):
        from ..gui import Gui
        self.g = Gui(nprocs)
        self.rep, self.what, self.path = rep, what, []
        self.doc, self.key, self.certs = None, '', list(trusted)
        for c in trusted:
            self.g.app.keyStore.putPEMCert(ref.cert_pem(c))
        self.attempt = None             # (expected errors) of the running attempt
        self.valid = False              # the displayed DEP is proven valid
        self.usable = False
        self.outstanding = []           # receipt verifications: [view, expected, closed]
        self.shown = None               # the receipt on view
        self.hints = []                 # what viewing a receipt will say

    def fail(self, msg):
        self.rep.fail('%s: %s' % (self.what, msg), {'events': self.path,
            'errors': self.g.errors, 'crash': self.g.crash})

    def enabled(self, events):
        g = self.g
        ret = ['done:%d' % i for i in range(len(g.pending()))]
        if K().Clock.queue:
            ret.append('tick')
        if 'settle' in events:
            ret = ['settle'] if ret else []
        if g.dialog() is not None:
            t = g.dialog().title
            ok = ('pick:',) if t == 'Load DEP' else ('pickkey:',) if 'AES' in t else ()
            return ret + [e for e in events if e.startswith(ok) and ok or e == 'cancel']
        if g.view() is not None:
            if 'back' in events:
                ret.append('back')
            if 'vverify' in events and not self.vbutton().disabled:
                ret.append('vverify')
            return ret
        for e in events:
            k, _, arg = e.partition(':')
            if k in ('open', 'openkey', 'key'):
                ret.append(e)
            elif k == 'verify' and not g.dep_button.disabled:
                ret.append(e)
            elif k in ('cert', 'chain') and self.node(k, arg) is not None:
                ret.append(e)
            elif k == 'del' and len(g.store_nodes(1)) > int(arg):
                ret.append(e)
            elif k == 'view' and self.node(k, arg) is not None:
                ret.append(e)
        return ret

    def vbutton(self):
        return self.g.buttons(self.g.view())[-2]

    def node(self, k, arg):
        t = {'cert': 'Signaturzertifikat', 'chain': 'Zertifizierungsstellen',
            'view': 'Belege-kompakt'}[k]
        n = self.g.tree_nodes(t)
        return n[int(arg)] if len(n) > int(arg) else None

    def do(self, e):
        """Execute one event and check everything it may and must not do."""
        self.path.append(e)
        if e != 'settle':
            return self.step(e)
        for _ in range(50):
            if self.g.crash or not (self.g.pending() or K().Clock.queue):
                return
            self.step('done:0' if self.g.pending() else 'tick')
        self.fail('does not come to rest')

    def step(self, e):
        g = self.g
        before = g.dep_button.text
        btree = g.tree()
        nerr = len(g.errors)
        k, _, arg = e.partition(':')
        view = g.view()
        kind = 'quiet'
        if k == 'open':
            g.press(g.button(g.vd, 'Load DEP'))
        elif k == 'openkey':
            g.press(g.button(g.vd, 'Load AES Key'))
        elif k == 'cancel':
            g.cancel()
        elif k in ('pick', 'start'):
            if k == 'start':
                g.press(g.button(g.vd, 'Load DEP'))
            g.choose(DIR + '/' + arg + '.json')
            kind = 'load'
        elif k == 'key':
            g.type(g.dep_key, KEYS[arg])
        elif k == 'pickkey':
            g.choose(DIR + '/key ' + arg)
            kind = 'key'
        elif k == 'verify':
            g.press(g.dep_button)
            kind = 'verify'
        elif k in ('cert', 'chain', 'view'):
            g.press(self.node(k, arg))
            kind = k
        elif k == 'del':
            g.press(g.store_nodes(1)[int(arg)])
            kind = 'del'
        elif k == 'back':
            b = [x for x in g.buttons(view) if type(x).__name__ == 'ActionPrevious'][0]
            g.press(b)
        elif k == 'vverify':
            g.press(self.vbutton())
            kind = 'vverify'
        elif k == 'done':
            g.done(int(arg))
        elif k == 'tick':
            g.tick()
        self.rep.ev()
        if g.crash:
            return self.fail('%s crashes the application: %s: %s' % (e, g.crash[0], g.crash[1]))
        errs = g.errors[nerr:]
        now = g.dep_button.text
        for er in errs:
            self.rep.outcome(er[0])
        getattr(self, 'on_' + {'cert': 'trust', 'chain': 'trust'}.get(kind, kind))(
            arg, before, now, errs, btree)
        self.invariant(errs)

    # what each event may do

    def on_quiet(self, arg, before, now, errs, btree):
        """Anything but a new claim: time passes, windows open and close."""
        g = self.g
        errs = list(errs)
        # receipt verifications that end now
        for o in list(self.outstanding):
            view, want, button = o
            if button.text != 'Verifying...':
                self.outstanding.remove(o)
                hit = [x for x in errs if x[0] in want]
                if button.text == 'Valid Signature' and not want and button.disabled:
                    pass
                elif button.text == 'Verify' and hit and not button.disabled:
                    errs.remove(hit[0])
                else:
                    self.fail('receipt verification ends with %r %r, expected %s' % (
                        button.text, errs, sorted(want) or 'valid'))
        for x in list(errs):
            if x[0] in self.hints:
                self.hints.remove(x[0])
                errs.remove(x)
        if self.attempt is None:
            if now != before:
                self.fail('no verification is running, but %r becomes %r' % (before, now))
            if errs:
                self.fail('error without a cause: %r' % (errs,))
            return
        if now == 'Verifying...':
            if errs:
                self.fail('error %r, but still verifying' % (errs,))
        elif now == 'Valid DEP':
            if self.attempt:
                self.fail('DEP reported as valid, but it violates %s' % sorted(self.attempt))
            if errs:
                self.fail('valid DEP with error %r' % (errs,))
            self.attempt, self.valid = None, True
        else:
            if len(errs) != 1 or errs[0][0] not in self.attempt:
                self.fail('verification ends as %r with %r, expected %s' % (now, errs,
                    sorted(self.attempt) or 'valid'))
            self.attempt = None

    def on_load(self, arg, before, now, errs, btree):
        g = self.g
        if arg in DOCS:
            if errs or g.modals():
                return self.fail('DEP %s not loaded: %r' % (arg, errs))
            self.doc, self.attempt, self.valid, self.usable = DOCS[arg], None, False, True
            if g.tree() != self.doc.tree():
                self.fail('DEP displayed as %r instead of %r' % (g.tree(), self.doc.tree()))
            return
        if len(errs) != 1:
            self.fail('bad DEP file %s: errors %r' % (arg, errs))
        if g.modals():
            self.fail('dialog stays open')
        if g.tree() == btree and (g.dep_button.disabled or now == before) and btree:
            # refused outright: what was there stays as it was
            if now != before or g.dep_button.disabled != (not self.usable or self.valid):
                self.fail('refused DEP changes %r to %r' % (before, now))
            return
        if g.tree():
            self.fail('bad DEP file %s displayed' % arg)
        if not g.dep_button.disabled:
            self.fail('bad DEP file %s can be verified' % arg)
        if now != 'Verify':
            self.fail('bad DEP file %s: %r' % (arg, now))
        self.doc, self.attempt, self.valid, self.usable = None, None, False, False

    def on_key(self, arg, before, now, errs, btree):
        name, ext = os.path.splitext(arg)
        if now != before:
            self.fail('loading a key changes %r to %r' % (before, now))
        if self.g.modals():
            self.fail('dialog stays open')
        if name in KEYS:
            if errs or self.g.dep_key.text != KEYS[name]:
                self.fail('key file %s: %r, %r' % (arg, errs, self.g.dep_key.text))
        elif len(errs) != 1:
            self.fail('bad key file %s: errors %r' % (arg, errs))

    def on_verify(self, arg, before, now, errs, btree):
        if before == 'Verifying...':
            if now != 'Verify' or errs or self.g.dep_button.disabled:
                self.fail('abort: %r %r' % (now, errs))
            self.attempt = None
            return
        key = self.g.dep_key.text
        if now == 'Verifying...':
            if errs:
                self.fail('started with error %r' % (errs,))
            if not readable(self.path_key):
                return self.fail('unreadable key %r accepted' % key)
            self.attempt = self.doc.verdict(self.path_key, self.certs)
        elif readable(self.path_key) or len(errs) != 1:
            self.fail('verification not started: %r %r %r' % (now, errs, key))

    @property
    def path_key(self):
        """The key text in force, by what was done last."""
        text = ''
        for n, e in enumerate(self.path):
            k, _, arg = e.partition(':')
            if k == 'key':
                text = KEYS[arg]
            elif k == 'pickkey' and os.path.splitext(arg)[0] in KEYS:
                text = KEYS[os.path.splitext(arg)[0]]
            elif k == 'verify':
                # a refused key is cleared
                if not readable(text) and n < len(self.path) - 1:
                    text = ''
        return text

    def on_trust(self, arg, before, now, errs, btree):
        k = self.path[-1].split(':')[0]
        cs = [c for recs, c, ch in self.doc.groups if c and recs] if k == 'cert' else [
            x for recs, c, ch in self.doc.groups if recs for x in ch]
        c = cs[int(arg)]
        if c not in self.certs:
            # one certificate per serial
            self.certs = [x for x in self.certs if ref.cert_serial(x) != ref.cert_serial(c)] + [c]
        if errs or now != before:
            self.fail('trusting a certificate: %r %r' % (errs, now))

    def on_del(self, arg, before, now, errs, btree):
        have = sorted(self.certs, key=lambda c: 0)
        left = {x['id'] if 'id' in x else x for x in self.g.store_json().get(
            'certificateOrPublicKeyMap', {})}
        self.certs = [c for c in have if ref.keyid(ref.cert_serial(c)) in left]
        if len(self.certs) != len(have) - 1 or errs or now != before:
            self.fail('removing a certificate: %r, left %r' % (errs, sorted(left)))

    def on_view(self, arg, before, now, errs, btree):
        v = self.g.view()
        if errs or v is None or now != before:
            return self.fail('receipt %s cannot be viewed: %r' % (arg, errs))
        self.shown = int(arg)
        r = ref.Rec.of(self.doc.recs[self.shown][0])
        b = self.vbutton()
        rows = dict(self.g.rows(v))
        if rows['Receipt ID'] != r.rid or rows['Chaining Value'] != r.chain:
            self.fail('another receipt shown: %r' % rows)
        if r.broken and r.null and r.standard:
            self.hints.append('UnsignedNullReceiptException')
        want = 'No Signature' if r.broken else 'Valid Signature' if self.valid else 'Verify'
        if b.text != want or b.disabled != (want != 'Verify'):
            self.fail('receipt %s shown with %r, expected %r' % (arg, b.text, want))

    def on_vverify(self, arg, before, now, errs, btree):
        b = self.vbutton()
        if errs or b.text != 'Verifying...' or not b.disabled or now != before:
            self.fail('receipt verification not started: %r %r' % (errs, b.text))
        self.outstanding.append((self.g.view(), self.doc.single(self.shown, self.certs), b))

    def invariant(self, errs):
        """What holds after every event."""
        g = self.g
        text, dis = g.dep_button.text, g.dep_button.disabled
        if text == 'Valid DEP' and not self.valid:
            self.fail('claims %r without a verification' % text)
        if self.valid and (text != 'Valid DEP' or not dis):
            self.fail('valid DEP shown as %r' % text)
        if (text == 'Verifying...') != (self.attempt is not None):
            self.fail('button says %r' % text)
        green = list(g.dep_button.background_color[:3]) == [0, 1, 0]
        if green != self.valid:
            self.fail('wrong colour for %r' % text)
        if self.usable and not self.valid and dis:
            self.fail('the DEP cannot be verified any more')
        if not self.usable and not dis:
            self.fail('nothing to verify, but the button is active')
        if not g.pending() and not K().Clock.queue:
            if self.attempt is not None:
                self.fail('stuck at %r, nothing left to happen' % text)
            if self.hints:
                self.fail('not told: %r' % self.hints)
            # those of closed views may be aborted along with the DEP's
            self.outstanding = [o for o in self.outstanding if o[0] in g.modals()]
            for v, want, b in self.outstanding:
                self.fail('receipt verification stuck at %r' % b.text)
        if self.doc is not None and g.tree() != self.doc.tree():
            self.fail('tree changed')


def explore(rep, name):
    setup()
    nprocs, trusted, events, d1, d2 = SCEN[name]
    depth = d2 if env.THOROUGH else d1
    root = [e for e in events if e.startswith('start:')]
    events = [e for e in events if not e.startswith('start:')]
    seen = set()
    frontier = [(root, None)]
    n = 0
    end = time.time() + BUDGET
    for level in range(depth + 1):
        if time.time() > end:
            rep.outcome('depth limited by time')
            break
        nxt = []
        for path, live in frontier:
            if live:
                r, state = live
                K().resume(state)
                step(r, path[-1])
            else:
                r = replay(rep, name, nprocs, trusted, path)
            f = r.g.fingerprint() + repr((r.attempt and sorted(r.attempt), r.attempt is None,
                r.valid, r.certs, r.path_key)).encode()
            if f in seen:
                continue
            seen.add(f)
            rep.state((name, repr(f)))
            if level == depth:
                continue
            # one successor carries on from here, the others replay the path
            live = (r, K().suspend()) if len(nxt) < 20000 else None
            for e in r.enabled(events):
                nxt.append((path + [e], live))
                live = None
        frontier = nxt
        n += len(nxt)
        rep.trace(len(nxt))
        if not nxt:
            break
    rep.sample({'scenario': name, 'path': frontier[0][0] if frontier else path})


def replay(rep, name, nprocs, trusted, path):
    r = Run(rep, nprocs, trusted, name)
    for e in path:
        step(r, e)
    return r


def step(r, e):
    from ..engine import Abort
    n = len(r.rep.violations)
    r.do(e)
    if len(r.rep.violations) > n or r.g.crash:
        raise Abort()


def badfile(rep, b):
    """Every malformed file, after nothing, after a DEP, after a verified DEP and
    during a verification."""
    setup()
    for before in ([], ['start:A'], ['start:A', 'verify', 'done:0', 'tick', 'done:0', 'tick',
            'done:0', 'tick'], ['start:A', 'verify'], ['start:A', 'verify', 'done:0', 'tick']):
        r = Run(rep, 2, ROOT, 'bad file %s' % b)
        for e in before + ['start:bad ' + b]:
            if e.startswith('done') and not r.g.pending():
                continue
            r.do(e)
        # and to the end
        for _ in range(10):
            if r.g.crash:
                break
            if r.g.pending():
                r.do('done:0')
            r.do('tick')
        rep.state((b, before))


def run(case, rep):
    if case[0] == 'explore':
        explore(rep, case[1])
    else:
        badfile(rep, case[1])
