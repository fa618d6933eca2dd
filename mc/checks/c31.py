"""C31: the key store tab of the GUI."""
import json
import os
import tempfile
import time

from .. import drive, env, ref
from ..world import CERTKEY
from .c17 import document, edits, expected, get, paths, put as put_at, VALUES
from librksv import key_store, utils

ID = 'C31'
LEVEL = 'model_checking'
RULE = ('breadth-first search of the running GUI (unchanged rktool.py and rktool.kv on a model of kivy): '
    'all sequences up to the depth of each scenario of adding public keys and certificates '
    '(files of every kind, IDs, cancelling at every dialog), removing entries, importing, exporting, '
    'trusting certificates of a loaded DEP; after every event the tree, the store and every '
    'exported file are compared with a dictionary model; all single edits of a store document and '
    'all damaged certificate, key and store files imported')
CASE_TIMEOUT = 20000 if env.THOROUGH else 700
ASSUMPTIONS = ['the model of kivy 1.9 in mc/kivystub.py']
BUDGET = 1000 if env.THOROUGH else 150

U = 'U:ATU12345678-K0'
CERTS = ('leaf0self', 'leaf0fake', 'leaf1self', 'leafneg', 'leafrsa', 'leafp384', 'root0', 'rooted')
PUBS = ('leaf0', 'leaf1', 'rsa', 'p384', 'ed')
IDS = {'u': U, 'k': 'k', 'K': 'K', 'l0': ref.keyid(ref.cert_serial('leaf0self')), 'empty': '', 'sp': ' k ',
    'uml': '\u00e4\u20ac', 'long': 'x' * 300, 'esc': '"\\\x01'}
BADPEM = {'text': 'nonsense', 'empty': '', 'bytes': b'\xff\xfe', 'cut': ref.cert_pem('leaf0self')[:300],
    'nul': '\0' * 9, 'rsakey': '-----BEGIN PUBLIC KEY-----\nAAAA\n-----END PUBLIC KEY-----\n',
    'dsa': '-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n'}
STORES = {'s0': ref.keystore([], [], None), 's1': ref.keystore(['leaf0self', 'leafneg'], [(U, 'leaf0'), ('k', 'rsa')]),
    's2': ref.keystore(['leafrsa', 'leaf1self'], [('K', 'leaf1'), (IDS['l0'], 'leaf1'), ('', 'leaf2')], None)}
BADSTORES = {'nojson': '{', 'list': '[]', 'null': 'null', 'object': '{}', 'bytes': b'\xff\xfe', 'deep': '[' * 100000,
    'ini': '[certificates]\n[public_keys]\n', 'badcert': json.dumps({'certificateOrPublicKeyMap': dict(
        STORES['s1']['certificateOrPublicKeyMap'], k={'id': 'k', 'signatureDeviceType': 'PUBLIC_KEY',
            'signatureCertificateOrPublicKey': 'AAAA'})})}


def K():
    from .. import kivystub
    return kivystub


def entries(doc):
    """document -> [(id, kind, text)]"""
    m = expected(doc)
    return None if m is None else {i: v for i, v in m.items()}


DIR = None


def setup():
    global DIR
    if DIR is not None and DIR.endswith('-%d' % os.getpid()) and os.path.isdir(DIR):
        return
    DIR = tempfile.mkdtemp(dir=os.environ.get('RKSVMC_SCRATCH'), prefix='gui-', suffix='-%d' % os.getpid())
    for c in CERTS:
        put(c + '.crt', ref.cert_pem(c))
    for k in PUBS:
        put(k + '.pub', ref.Key(k).pub_pem)
    for k, v in BADPEM.items():
        put(k + '.bad', v)
    for k, v in STORES.items():
        put(k + '.json', json.dumps(v))
    for k, v in BADSTORES.items():
        put(k + '.json', v)
    os.makedirs(DIR + '/dir')
    g = ref.Register()
    a, b = g.make()[0], g.make('std', 5)[0]
    put('dep', json.dumps(ref.dep(([a], 'leaf0mid0', ['mid0', 'root0']), ([b], 'leaf1self', []))))


def put(name, data):
    with open(os.path.join(DIR, name), 'wb') as f:
        f.write(data if isinstance(data, bytes) else data.encode('utf-8', 'surrogatepass'))
    return os.path.join(DIR, name)


SCEN = {
    'add': ([], ['addkey', 'addcert', 'cancel', 'pick:leaf0.pub', 'pick:leaf0self.crt', 'pick:leaf0fake.crt', 'id:u',
        'id:k', 'id:l0', 'del:0:0', 'del:1:0'], 7, 9),
    'ids': ([], ['addkey', 'cancel', 'pick:leaf0.pub', 'pick:leaf1.pub', 'pick:text.bad', 'del:0:0', 'del:0:1'] + [
        'id:' + i for i in IDS], 6, 8),
    'files': ([], ['addkey', 'addcert', 'cancel', 'pick:missing', 'pick:dir', 'id:k', 'del:0:0', 'del:1:1'] + [
        'pick:' + f for f in ('rsa.pub', 'p384.pub', 'ed.pub', 'leafneg.crt', 'leafrsa.crt', 'leafp384.crt',
            'rooted.crt', 'root0.crt', 'text.bad', 'empty.bad', 'bytes.bad', 'cut.bad', 'rsakey.bad', 'dsa.bad')], 5, 6),
    'stores': ([], ['import', 'export', 'cancel', 'addcert', 'pick:leaf0self.crt', 'del:0:1', 'del:1:0', 'save:out1',
        'save:out2', 'load:out1', 'load:out2', 'load:missing', 'save:dir', 'save:no/where', 'save:'] + [
        'load:' + s + '.json' for s in ('s0', 's1', 's2', 'badcert', 'nojson')], 5, 6),
    'back': (['s1.json'], ['export', 'import', 'save:out1', 'load:out1', 'del:0:0', 'del:0:1', 'del:1:0', 'del:1:1',
        'addcert', 'pick:leaf1self.crt'], 8, 10),
    'dep': (['dep'], ['trust:0', 'trust:1', 'trust:2', 'trust:3', 'del:1:0', 'del:1:1', 'del:0:0', 'import',
        'load:s1.json', 'addkey', 'pick:leaf1.pub', 'id:l0', 'addcert', 'pick:leaf0fake.crt', 'cancel'], 6, 8),
}


def cases():
    n = len(list(paths(document())))
    return [['explore', s] for s in SCEN] + [['node', i] for i in range(n)] + [['badfiles', b] for b in sorted(
        BADSTORES)] + [['pem', 'crt', a] for a in range(10)] + [['pem', 'pub', a] for a in range(4)]


class Walk(object):
    """One execution with the model of the store."""

    def __init__(self, rep, name):
        from ..gui import Gui
        setup()
        self.g = Gui(1)
        self.rep, self.what, self.path = rep, name, []
        self.m = {}                     # id -> (kind, text)
        self.dialog = None              # key / id / cert / import / export
        self.tmp = None                 # name of the key file read
        self.files = {}
        self.dep = False
        for o in ('out1', 'out2'):
            if os.path.exists(DIR + '/' + o):
                os.remove(DIR + '/' + o)

    def fail(self, msg):
        self.rep.fail('%s: %s' % (self.what, msg), {'events': self.path, 'errors': self.g.errors,
            'crash': self.g.crash})

    def act(self, f, *a):
        n = len(self.g.errors)
        f(*a)
        self.rep.ev()
        if self.g.crash:
            self.fail('crashed: %s: %s' % self.g.crash[:2])
        for e in self.g.errors[n:]:
            self.rep.outcome(e[0])
        return self.g.errors[n:]

    def start(self, what):
        g = self.g
        if what == 'dep':
            self.act(g.press, g.button(g.vd, 'Load DEP'))
            self.act(g.choose, DIR + '/dep')
            self.dep = True
        else:
            self.do('import')
            self.do('load:' + what)

    def node(self, i, k):
        n = self.g.store_nodes(i)
        return n[k] if len(n) > k else None

    def trusts(self):
        return self.g.tree_nodes('Signaturzertifikat')[:1] + self.g.tree_nodes('Zertifizierungsstellen') + \
            self.g.tree_nodes('Signaturzertifikat')[1:]

    def enabled(self, events):
        ret = []
        K().Clock.queue[:] = []         # on_open of dialogs: nothing is bound to it
        for e in events:
            k, _, arg = e.partition(':')
            if self.dialog is None:
                ok = k in ('addkey', 'addcert', 'import', 'export', 'trust')
                if k == 'del':
                    ok = self.node(*map(int, arg.split(':'))) is not None
            else:
                ok = k == 'cancel' or k == {'key': 'pick', 'cert': 'pick', 'id': 'id', 'import': 'load',
                    'export': 'save'}[self.dialog]
            if ok:
                ret.append(e)
        return ret

    def do(self, e):
        self.path.append(e)
        g = self.g
        k, _, arg = e.partition(':')
        bad = False                     # exactly one error is due
        if k == 'addkey':
            errs = self.act(g.press, g.find(g.kw, 'TreeView').root.nodes[0])
            self.dialog = 'key'
        elif k == 'addcert':
            errs = self.act(g.press, g.find(g.kw, 'TreeView').root.nodes[1])
            self.dialog = 'cert'
        elif k == 'import':
            errs = self.act(g.press, g.button(g.kw, 'Import'))
            self.dialog = 'import'
        elif k == 'export':
            errs = self.act(g.press, g.button(g.kw, 'Export'))
            self.dialog = 'export'
        elif k == 'cancel':
            errs = self.act(g.cancel)
            self.dialog = None
        elif k == 'pick' and self.dialog == 'key':
            errs = self.act(g.choose, DIR + '/' + arg)
            bad = arg in ('missing', 'dir', 'bytes.bad')
            self.dialog, self.tmp = (None, self.tmp) if bad else ('id', arg)
        elif k == 'pick':
            errs = self.act(g.choose, DIR + '/' + arg)
            n, ext = os.path.splitext(arg)
            bad = ext != '.crt'
            if not bad:
                self.put(ref.keyid(ref.cert_serial(n)), 'CERTIFICATE', ref.cert_b64(n))
            self.dialog = None
        elif k == 'id':
            d = g.dialog()
            self.act(g.type, g.find(d, 'TextInput'), IDS[arg])
            errs = self.act(g.press, g.button(d, 'Ok'))
            n, ext = os.path.splitext(self.tmp)
            bad = ext != '.pub'
            if not bad:
                self.put(IDS[arg], 'PUBLIC_KEY', ref.pub_b64(n))
            self.dialog = None
        elif k == 'del':
            i, n = map(int, arg.split(':'))
            b = self.node(i, n)
            kind = 'CERTIFICATE' if i else 'PUBLIC_KEY'
            key = [x for x in self.m if self.m[x][0] == kind][n]
            errs = self.act(g.press, b)
            del self.m[key]
        elif k == 'trust':
            errs = self.act(g.press, self.trusts()[int(arg)])
            c = ('leaf0mid0', 'mid0', 'root0', 'leaf1self')[int(arg)]
            self.put(ref.keyid(ref.cert_serial(c)), 'CERTIFICATE', ref.cert_b64(c))
        elif k == 'load':
            errs = self.act(g.choose, DIR + '/' + arg)
            n = arg.split('.')[0]
            if arg in self.files:
                self.m = dict(self.files[arg])
            elif n in STORES:
                self.m = entries(STORES[n])
            else:
                bad = True
            self.dialog = None
        elif k == 'save':
            errs = self.act(g.choose, DIR + '/' + arg if arg else '', 'Save')
            if not arg:
                # nothing entered: the dialog stays
                if errs or g.dialog() is None:
                    self.fail('saved without a name: %r' % errs)
                return self.invariant()
            bad = arg in ('dir', 'no/where')
            if not bad:
                with open(DIR + '/' + arg) as f:
                    d = json.load(f)
                if entries(d) != self.m or set(d) != {'certificateOrPublicKeyMap'}:
                    self.fail('exported %r, expected %r' % (sorted(entries(d) or ()), sorted(self.m)))
                self.files[arg] = dict(self.m)
            self.dialog = None
        if len(errs) != bad:
            self.fail('%s: errors %r' % (e, errs))
        self.invariant()

    def put(self, i, kind, text):
        self.m[i] = (kind, text)

    def invariant(self):
        g = self.g
        if (g.dialog() is not None) != (self.dialog is not None) or len(g.modals()) > 1:
            self.fail('dialogs: %r, expected %r' % (g.modals(), self.dialog))
        got = entries(g.store_json())
        if got != self.m or list(g.store_json()['certificateOrPublicKeyMap']) and None:
            self.fail('store has %r, expected %r' % (got and sorted(got), sorted(self.m)))
        order = [(i, v[0]) for i, v in self.m.items()]
        tree = g.store_tree()
        want = [('Public Keys', sorted('Key ID: ' + i for i, t in order if t == 'PUBLIC_KEY')),
            ('Certificates', sorted('Serial: ' + i for i, t in order if t == 'CERTIFICATE'))]
        if [(t, sorted(n)) for t, n in tree] != want:
            self.fail('shown %r, expected %r' % (tree, want))
        # the model follows the order shown, which is not specified
        for t, kind in ((0, 'PUBLIC_KEY'), (1, 'CERTIFICATE')):
            self.m = dict([x for x in self.m.items() if x[1][0] != kind] + [
                (n.split(': ', 1)[1], self.m[n.split(': ', 1)[1]]) for n in tree[t][1]])

    def mark(self):
        return repr((list(self.m.items()), self.dialog, self.tmp, sorted((k, sorted(v)) for k, v in self.files.items())))


def explore(rep, name):
    from ..engine import Abort
    setup()
    root, events, d1, d2 = SCEN[name]
    depth = d2 if env.THOROUGH else d1
    seen, frontier = set(), [[]]
    end = time.time() + BUDGET

    def step(w, f, e):
        n = len(rep.violations)
        f(e)
        if len(rep.violations) > n:
            raise Abort()
    for level in range(depth + 1):
        if time.time() > end:
            rep.outcome('depth limited by time')
            break
        nxt = []
        for path in frontier:
            w = Walk(rep, name)
            for r in root:
                step(w, w.start, r)
            for e in path:
                step(w, w.do, e)
            f = w.mark()
            if f in seen:
                continue
            seen.add(f)
            rep.state((name, f))
            if level < depth:
                nxt += [path + [e] for e in w.enabled(events)]
        frontier = nxt
        rep.trace(len(nxt))
        if not nxt:
            break
    rep.sample({'scenario': name, 'path': frontier[0] if frontier else path})


def load(w, rep, data, what):
    """Import a document into a store with content."""
    before = dict(w.m)
    w.act(w.g.press, w.g.button(w.g.kw, 'Import'))
    errs = w.act(w.g.choose, put('in.json', data))
    w.what = what
    try:
        m = entries(json.loads(data if isinstance(data, str) else data.decode('utf-8')))
    except (ValueError, RecursionError):
        m = None
    if m is None:
        if len(errs) != 1:
            w.fail('malformed store: errors %r' % errs)
        w.m = before
    else:
        if errs:
            w.fail('store refused: %r' % errs)
        w.m = {i: (t, plain(w.g, i, t, s)) for i, (t, s) in m.items()}
    w.invariant()
    rep.state(what)


def plain(g, i, t, s):
    """The usual spelling of a certificate or key."""
    if t == 'CERTIFICATE':
        return utils.exportCertToPEM(key_store.parseKeyStoreCert(s, i))
    return utils.exportKeyToPEM(key_store.parseKeyStorePubkey(s, i))


def node(rep, i):
    """Every edit of a node of a store document."""
    setup()
    w = Walk(rep, 'store document')
    w.start('s2.json')
    d = document()
    p = list(paths(d))[i]
    vs = VALUES + ['CERTIFICATE', 'PUBLIC_KEY', 'certificate', ref.pub_b64('leaf0'), '5a', 'zz', ref.cert_b64('leaf1self'),
        '-5a', '5A', 'k', ref.cert_b64('rooted'), ref.cert_b64('leafp384')]
    docs = [('%r = %r' % (p, v), put_at(d, p, v)) for v in vs]
    if p:
        docs += [('%r %s' % (p, x), e) for x, e in edits(d, p)]
    for what, e in docs:
        try:
            text = json.dumps(e)
        except (TypeError, ValueError):
            continue
        load(w, rep, text, what)
        if w.m.keys() == {'x'}:
            w.start('s2.json')
    rep.trace()


def badfiles(rep, b):
    """Every unreadable file in every place that takes one."""
    for place in ('key', 'cert', 'store'):
        w = Walk(rep, 'file %s as %s' % (b, place))
        w.start('s1.json')
        data = BADSTORES[b]
        path = put('in', data)
        if place == 'store':
            load(w, rep, data, b)
            continue
        w.act(w.g.press, w.g.find(w.g.kw, 'TreeView').root.nodes[place == 'cert'])
        errs = w.act(w.g.choose, path)
        if place == 'key' and not errs:
            errs = w.act(w.g.press, w.g.button(w.g.dialog(), 'Ok'))
        if len(errs) != 1:
            w.fail('errors %r' % errs)
        w.dialog = None
        w.invariant()
    rep.trace()


def pem(rep, ext, a):
    """Every damaged byte of a certificate or key file: stored as it is, or one error."""
    setup()
    from .c17 import cert_key, pub_key
    what = 'leaf0self' if ext == 'crt' else 'leaf0'
    text = ref.cert_pem(what) if ext == 'crt' else ref.Key(what).pub_pem
    w = Walk(rep, 'damaged %s' % ext)
    for i in range(a, len(text), 10 if ext == 'crt' else 4):
        for t in [text[:i], text[i:], text[:i] + text[i + 1:]] + [text[:i] + c + text[i + 1:] for c in
                'Aa0+/=-\n \0\u00e4']:
            before = dict(w.m)
            w.act(w.g.press, w.g.find(w.g.kw, 'TreeView').root.nodes[ext == 'crt'])
            errs = w.act(w.g.choose, put('in', t))
            if ext == 'pub' and not errs and w.g.dialog() is not None:
                w.act(w.g.type, w.g.find(w.g.dialog(), 'TextInput'), 'k')
                errs = w.act(w.g.press, w.g.button(w.g.dialog(), 'Ok'))
            ok, key = False, None
            try:
                key = utils.loadCert(t) if ext == 'crt' else utils.loadPubKey(t)
                if ext == 'crt':
                    utils.getCertPubKey(key)
                ok = True
            except ValueError:
                pass
            if len(errs) != (not ok):
                w.fail('byte %d: errors %r, readable: %s' % (i, errs, ok))
            if ok:
                kid = ref.keyid(key.serial_number) if ext == 'crt' else 'k'
                before.pop(kid, None)
                before[kid] = ('CERTIFICATE', utils.exportCertToPEM(key)) if ext == 'crt' else (
                    'PUBLIC_KEY', utils.exportKeyToPEM(key))
            w.m = before
            w.invariant()
            rep.state((ext, i, t))
            if rep.violations:
                return
    rep.trace()


def run(case, rep):
    {'explore': explore, 'node': node, 'badfiles': badfiles, 'pem': pem}[case[0]](rep, *case[1:])
