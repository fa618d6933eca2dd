"""C17: key store operations and serialisation."""
import base64
import copy
import io
import itertools
import configparser
import json
import pickle
import warnings

from .. import drive, env, ref
from .c14 import VALUES, paths, put, get
from librksv import key_store, receipt, utils
from librksv.verify_receipt import ReceiptVerifier

ID = 'C17'
LEVEL = 'model_checking'
RULE = ('all sequences of up to 4 (thorough 5) of 22 operations (certificates and keys put, replaced '
    'and deleted under 9 IDs, failing puts, JSON / INI / pickle / deep copy in between) on the real '
    'key store against a dictionary model, every visited state queried under all IDs and '
    'written and read back with and without AES key; look-up of receipts in all serial '
    'notations; every node of a document replaced by 24 values, removed, renamed (and pairs), every '
    'byte of certificate and key replaced by 6 values; oracle: model and document grammar. '
    'Non-trivial: distinct stores and distinct malformed documents')

warnings.simplefilter('ignore', DeprecationWarning)
CERTS = ['leaf0self', 'leaf0mid1', 'leaf1self', 'leafneg', 'leafrsa']
SID = {c: ref.keyid(ref.cert_serial(c)) for c in CERTS + ['leaf0fake', 'root0', 'leafp384']}
KEYIDS = ['U:ATU12345678-K0', 'S:123456789', SID['leaf0self'], 'k']
UNIVERSE = sorted(set(KEYIDS) | set(SID.values()) | {'G:1234567890123', 'x', '', 'u;ATU12345678-K0',
    's;123456789', '20171234', str(0x20171234), SID['leaf0self'].upper(), '-' + SID['leaf0self'],
    'u:atu12345678-k0', '0' + SID['leaf0self']})

OPS = [('cert', 'leaf0self'), ('cert', 'leaf0fake'), ('cert', 'leaf1self'), ('cert', 'leafneg'),
    ('cert', 'leafrsa'),
    ('key', 'U:ATU12345678-K0', 'leaf0'), ('key', 'U:ATU12345678-K0', 'leaf1'),
    ('key', 'S:123456789', 'leaf2'), ('key', SID['leaf0self'], 'leaf1'), ('key', 'k', 'rsa'),
    ('put', 'k', 'leaf0', None), ('put', SID['leaf1self'], 'leaf1', 'leaf1self'),
    ('del', 'U:ATU12345678-K0'), ('del', SID['leaf0self']), ('del', 'x'), ('del', 'k'),
    ('badcert',), ('badkey',), ('json',), ('ini',), ('pickle',), ('copy',)]
CK = {'leaf0self': 'leaf0', 'leaf0fake': 'evil', 'leaf1self': 'leaf1', 'leafneg': 'leaf2',
    'leafrsa': 'rsa'}


_b64 = {}


def pub64(key):
    k = id(key)
    if k not in _b64:
        if len(_b64) > 5000:
            _b64.clear()
        _b64[k] = (key, utils.exportKeyToPEM(key))
    return _b64[k][1]


def read_ini(text):
    c = configparser.RawConfigParser()
    c.optionxform = str
    c.read_file(io.StringIO(text))
    return key_store.KeyStore.readStore(c)


def write_ini(ks):
    c = configparser.RawConfigParser()
    c.optionxform = str
    ks.writeStore(c)
    o = io.StringIO()
    c.write(o)
    return o.getvalue()


def apply(rep, ks, m, op):
    """Perform an operation on the real store and the model. -> store"""
    rep.ev()
    k = op[0]
    if k == 'cert':
        ks.putPEMCert(ref.cert_pem(op[1]))
        m[SID[op[1]]] = (ref.pub_b64(CK[op[1]]), op[1])
    elif k == 'key':
        ks.putPEMKey(op[1], ref.Key(op[2]).pub_pem)
        m[op[1]] = (ref.pub_b64(op[2]), None)
    elif k == 'put':
        ks.putKey(op[1], utils.loadPubKey(ref.Key(op[2]).pub_pem), op[3] and ref.cert(op[3]))
        m[op[1]] = (ref.pub_b64(op[2]), op[3])
    elif k == 'del':
        ks.delKey(op[1])
        m.pop(op[1], None)
    elif k in ('badcert', 'badkey'):
        bad = ref.cert_pem('leaf0self').replace('M', '!', 3) if k == 'badcert' else 'nonsense'
        v, e = drive.outcome(*((ks.putPEMCert, bad) if k == 'badcert' else (ks.putPEMKey, 'k', bad)))
        if e is None:
            rep.fail('unreadable %s was stored' % k)
    elif k == 'json':
        ks = key_store.KeyStore.readStoreFromJson(json.loads(json.dumps(ks.writeStoreToJson(
            ref.B64KEY))))
    elif k == 'ini':
        ks = read_ini(write_ini(ks))
    elif k == 'pickle':
        ks = pickle.loads(pickle.dumps(ks))
    elif k == 'copy':
        old, ks = ks, copy.deepcopy(ks)
        old.putPEMKey('stale', ref.Key('evil').pub_pem)
        for i in list(old.getKeyIds()):
            old.delKey(i)
    return ks


def check_store(rep, ks, m, what, full):
    rep.expect(sorted(ks.getKeyIds()), sorted(m), 'IDs after %s' % (what,))
    for i in UNIVERSE if full else list(m) + ['x']:
        k, c = ks.getKey(i), ks.getCert(i)
        wk, wc = m.get(i, (None, None))
        if (k is None) != (wk is None) or k is not None and pub64(k) != wk:
            rep.fail('key %r after %s: got %s, expected %s' % (i, what, k and pub64(k), wk))
        if c != (wc and ref.cert(wc)):
            rep.fail('certificate %r after %s: got %r, expected %r' % (i, what, c, wc))


def check_written(rep, ks, m, what):
    for aes in (None, ref.B64KEY, ''):
        d = ks.writeStoreToJson(aes)
        want = {'certificateOrPublicKeyMap': {i: {'id': i,
            'signatureDeviceType': 'CERTIFICATE' if c else 'PUBLIC_KEY',
            'signatureCertificateOrPublicKey': ref.cert_b64(c) if c else k} for i, (k, c) in
            m.items()}}
        if aes is not None:
            want['base64AESKey'] = aes
        rep.expect(d, want, 'JSON after %s' % (what,))
        rep.ev()
        k2 = key_store.KeyStore.readStoreFromJson(json.loads(json.dumps(d)))
        check_store(rep, k2, m, '%s and JSON' % (what,), True)
        if aes:
            rep.expect(utils.loadKeyFromJson(d), ref.AESKEY, 'AES key')
        elif aes is None:
            rep.expect(utils.loadKeyFromJson(d), None, 'AES key')
    check_store(rep, read_ini(write_ini(ks)), m, '%s and INI' % (what,), True)
    check_store(rep, pickle.loads(pickle.dumps(ks)), m, '%s and pickling' % (what,), True)
    check_store(rep, copy.deepcopy(ks), m, '%s and copying' % (what,), True)
    # receipts naming a certificate in any notation
    rv = ReceiptVerifier.fromKeyStore(ks)
    for ser, zda, key in RECS:
        t, e = drive.outcome(rv.verifyJWS, rec(ser, zda, key))
        ids = [ser] if zda == 'AT0' else ref.serial_ids(ser)
        found = [m[i][0] for i in ids if i in m][:1]
        want = 'NoPublicKeyException' if not found else 'ok' if found[0] == ref.pub_b64(key) else \
            'InvalidSignatureException'
        rep.ev()
        rep.outcome(type(e).__name__ if e else 'ok')
        rep.expect(type(e).__name__ if e else 'ok', want, 'receipt naming %r (%s) signed by %s after %s'
            % (ser, zda, key, what))


_recs = {}


def rec(ser, zda, key):
    if (ser, zda, key) not in _recs:
        _recs[ser, zda, key] = ref.Register(serial=ser, zda=zda, key=key).make()[0]
    return _recs[ser, zda, key]


def recs():
    for c, k in (('leaf0self', 'leaf0'), ('leaf1self', 'leaf1'), ('leafneg', 'leaf2')):
        n = ref.cert_serial(c)
        for s in ('%x' % abs(n), '%X' % abs(n), '-%x' % abs(n), '%d' % abs(n), '-%d' % abs(n)):
            yield s, 'AT1', k
    yield '%x' % ref.cert_serial('leaf0self'), 'AT1', 'evil'
    for i, k in (('U:ATU12345678-K0', 'leaf0'), ('U:ATU12345678-K0', 'leaf1'),
            ('S:123456789', 'leaf2'), ('G:1234567890123', 'leaf0')):
        yield i, 'AT0', k


RECS = list(recs())
DEPTH = 5 if env.THOROUGH else 4


def cases():
    ret = [['ops', a, b] for a in range(len(OPS)) for b in range(len(OPS))]
    n = len(list(paths(document())))
    ret += [['node', i] for i in range(n)] + [['pair', i] for i in range(n)]
    for what in ('leaf0self', 'rootrsa'):
        n = len(base64.b64decode(ref.cert_b64(what)))
        ret += [['bytes', what, a, min(n, a + 60)] for a in range(0, n, 60)]
    ret += [['bytes', 'pub', 0, 200], ['ids'], ['aes'], ['ini'], ['serials']]
    return ret


def document():
    return ref.keystore(['leaf0self', 'leafneg'], [('U:ATU12345678-K0', 'leaf0'), ('k', 'rsa')])


def cert_key(s):
    """-> public key of a certificate, None if it is no usable certificate"""
    from cryptography import x509
    from cryptography.hazmat.backends import default_backend
    from cryptography.exceptions import UnsupportedAlgorithm
    if not isinstance(s, str):
        return None
    try:
        return x509.load_pem_x509_certificate(('-----BEGIN CERTIFICATE-----\n%s\n'
            '-----END CERTIFICATE-----' % s).encode('utf-8', 'replace'), default_backend()).public_key()
    except (ValueError, x509.InvalidVersion, UnsupportedAlgorithm, NotImplementedError):
        return None


def pub_key(s):
    from cryptography.hazmat.backends import default_backend
    from cryptography.hazmat.primitives.serialization import load_pem_public_key
    from cryptography.exceptions import UnsupportedAlgorithm
    if not isinstance(s, str):
        return None
    try:
        return load_pem_public_key(('-----BEGIN PUBLIC KEY-----\n%s\n-----END PUBLIC KEY-----' %
            s).encode('utf-8', 'replace'), default_backend())
    except (ValueError, UnsupportedAlgorithm, NotImplementedError):
        return None


def expected(d):
    """-> dict id -> (kind, text), None if malformed"""
    if not isinstance(d, dict) or not isinstance(d.get('certificateOrPublicKeyMap'), dict):
        return None
    out = {}
    for i, v in d['certificateOrPublicKeyMap'].items():
        if not isinstance(v, dict) or v.get('id') != i or not isinstance(v.get('id'), str):
            return None
        t, s = v.get('signatureDeviceType'), v.get('signatureCertificateOrPublicKey')
        if t == 'CERTIFICATE':
            ids = ref.serial_ids(i)
            if not ids or cert_key(s) is None:
                return None
            out[ids[0]] = (t, s)
        elif t == 'PUBLIC_KEY':
            if pub_key(s) is None:
                return None
            out[i] = (t, s)
        else:
            return None
    return out


def check_doc(rep, d, what):
    want = expected(d)
    rep.ev()
    rep.state(repr(d))
    before = copy.deepcopy(d)
    ks, e = drive.outcome(key_store.KeyStore.readStoreFromJson, d)
    rep.outcome(type(e).__name__ if e else 'ok')
    rep.expect(repr(d), repr(before), 'document changed by reading, %s' % what)
    if e is not None:
        if not isinstance(e, key_store.KeyStoreParseException):
            rep.fail('%s: %r' % (what, e))
        elif want is not None:
            rep.fail('%s: rejected with %r' % (what, e))
        else:
            str(e), repr(e)
    elif want is None:
        rep.fail('%s: accepted' % what)
    else:
        rep.expect(sorted(ks.getKeyIds()), sorted(want), what)
        for i, (t, s) in want.items():
            k = cert_key(s) if t == 'CERTIFICATE' else pub_key(s)
            rep.expect(utils.exportKeyToPEM(ks.getKey(i)), utils.exportKeyToPEM(k), '%s: key %r' % (
                what, i))
            rep.expect(ks.getCert(i) is not None, t == 'CERTIFICATE', '%s: certificate %r' % (what, i))


def edits(d, p):
    par = get(d, p[:-1])
    if isinstance(par, dict):
        e = copy.deepcopy(d)
        del get(e, p[:-1])[p[-1]]
        yield 'removed', e
        for n in ('x', p[-1].upper(), p[-1] + ' ', ''):
            e = copy.deepcopy(d)
            q = get(e, p[:-1])
            q[n] = q.pop(p[-1])
            yield 'renamed %r' % n, e
        e = copy.deepcopy(d)
        get(e, p[:-1])[p[-1] + 'x'] = copy.deepcopy(par[p[-1]])
        yield 'copied', e


def run(case, rep):
    kind = case[0]
    if kind == 'ops':
        done = set()

        def check(seq):
            m, ks = {}, key_store.KeyStore()
            for o in seq:
                ks = apply(rep, ks, m, OPS[o])
            what = [OPS[o] for o in seq]
            key = repr(sorted(m.items()))
            new = key not in done
            check_store(rep, ks, m, what, new)
            rep.trace()
            if new:
                done.add(key)
                rep.state(key)
                check_written(rep, ks, m, what)
        if case[1] == case[2] == 0:
            check([])
        if case[2] == 0:
            check(case[1:2])
        for n in range(DEPTH - 1):
            for rest in itertools.product(range(len(OPS)), repeat=n):
                check(case[1:] + list(rest))
        rep.sample([OPS[o] for o in case[1:]])
    elif kind in ('node', 'pair'):
        d = document()
        p = list(paths(d))[case[1]]
        vs = VALUES if kind == 'node' else (None, [], {}, '', 'CERTIFICATE')
        if kind == 'node':
            vs = vs + ['CERTIFICATE', 'PUBLIC_KEY', 'certificate', 'CERTIFICATE ', ref.pub_b64('leaf0'),
                '5a', 'zz', ref.cert_pem('leaf0self'), ref.cert_b64('leaf1self'), '-5a', '5A', 'k']
            check_doc(rep, d, 'document')
            if p:
                for w, e in edits(d, p):
                    check_doc(rep, e, '%r %s' % (p, w))
        for v in vs:
            e = put(d, p, v)
            check_doc(rep, e, '%r = %r' % (p, v))
            if kind == 'pair' and p:
                for q in list(paths(e)):
                    if q and q[:len(p)] != p and p[:len(q)] != q:
                        for w in vs:
                            check_doc(rep, put(e, q, w), '%r = %r, %r = %r' % (p, v, q, w))
                        for w, f in edits(e, q):
                            check_doc(rep, f, '%r = %r, %r %s' % (p, v, q, w))
    elif kind == 'bytes':
        b = ref.pub_b64('leaf0') if case[1] == 'pub' else ref.cert_b64(case[1])
        der = base64.b64decode(b)
        i = 'k' if case[1] == 'pub' else '5a'
        for k in range(case[2], min(case[3], len(der))):
            for v in {der[k] ^ 1, der[k] ^ 0x80, 0, 0xff, (der[k] + 1) & 255, der[k] ^ 0x20}:
                s = base64.b64encode(der[:k] + bytes([v]) + der[k + 1:]).decode()
                d = {'certificateOrPublicKeyMap': {i: {'id': i, 'signatureDeviceType':
                    'PUBLIC_KEY' if i == 'k' else 'CERTIFICATE',
                    'signatureCertificateOrPublicKey': s}}}
                check_doc(rep, d, '%s byte %d = %d' % (case[1], k, v))
                c = configparser.RawConfigParser()
                c.optionxform = str
                c.read_dict({'public_keys' if i == 'k' else 'certificates': {i: s}})
                ks, e = drive.outcome(key_store.KeyStore.readStore, c)
                rep.expect(type(e).__name__ if e and not isinstance(e,
                    key_store.KeyStoreParseException) else e is None, expected(d) is not None,
                    '%s byte %d = %d in INI' % (case[1], k, v))
            for s in (base64.b64encode(der[:k]).decode(), b[:k], b[k:], b[:k] + '!' + b[k:],
                    b[:k] + '\n' + b[k:], b[:k] + '\u00e4' + b[k:], b[:k] + '=' + b[k:]):
                for t in ('PUBLIC_KEY', 'CERTIFICATE'):
                    d = {'certificateOrPublicKeyMap': {'5a': {'id': '5a', 'signatureDeviceType': t,
                        'signatureCertificateOrPublicKey': s}}}
                    v, e = drive.outcome(key_store.KeyStore.readStoreFromJson, d)
                    rep.ev()
                    if e is not None and not isinstance(e, key_store.KeyStoreParseException):
                        rep.fail('%s text cut at %d: %r' % (case[1], k, e))
    elif kind == 'ids':
        # certificate IDs in any notation, keys under any ID
        for n in (0, 1, 9, 10, 0x20171234, 2 ** 64, 2 ** 159 - 1):
            for i in {'%x' % n, '%X' % n, '-%x' % n, '00%x' % n, '%d' % n, '-%d' % n}:
                check_doc(rep, {'certificateOrPublicKeyMap': {i: {'id': i, 'signatureDeviceType':
                    'CERTIFICATE', 'signatureCertificateOrPublicKey': ref.cert_b64('leaf0self')}}}, i)
                rep.expect(sorted(set(key_store.strSerialToKeyIds(i))), sorted(set(ref.serial_ids(i))),
                    'key IDs of %r' % i)
            for v in (n, -n):
                rep.expect(key_store.numSerialToKeyId(v), ref.keyid(v), 'key ID of %d' % v)
        for i in ('', '-', 'g', 'U:ATU1', '5a-', 'S:1', '.', '\u00e4', 'x5', '5 a', '5a.'):
            for t in ('CERTIFICATE', 'PUBLIC_KEY'):
                check_doc(rep, {'certificateOrPublicKeyMap': {i: {'id': i, 'signatureDeviceType': t,
                    'signatureCertificateOrPublicKey': ref.cert_b64('leaf0self') if t[0] == 'C' else
                    ref.pub_b64('leaf0')}}}, i)
                if t[0] == 'C':
                    rep.expect(key_store.strSerialToKeyIds(i), [], 'key IDs of %r' % i)
    elif kind == 'aes':
        for n in range(0, 40):
            b = base64.b64encode(bytes(range(n))).decode()
            rep.ev()
            rep.state(b)
            d = key_store.KeyStore().writeStoreToJson(b)
            rep.expect(utils.loadKeyFromJson(d), bytes(range(n)), 'AES key of %d bytes' % n)
        rep.expect(utils.loadKeyFromJson({}), None, 'no AES key')
        rep.expect(key_store.KeyStore.readStoreFromJson(ref.keystore([], [])).getKeyIds() and 1 or 0, 0,
            'empty')
    elif kind == 'ini':
        for secs in itertools.product((None, 0, 1, 2), repeat=2):
            text = ''
            m = {}
            for name, n, pool in (('certificates', secs[0], CERTS[1:]), ('public_keys', secs[1], KEYIDS)):
                if n is None:
                    continue
                text += '[%s]\n' % name
                for x in [p for p in pool if p != SID['leaf0self']][:n]:
                    if name == 'certificates':
                        text += '%s = %s\n' % (SID[x], ref.cert_b64(x))
                        m[SID[x]] = (ref.pub_b64(CK.get(x, 'leaf0')), x)
                    else:
                        text += '%s = %s\n' % (x.replace('S:', 's;').replace('U:', 'u;'),
                            ref.pub_b64('leaf1'))
                        m[x] = (ref.pub_b64('leaf1'), None)
            ks = read_ini(text)
            check_store(rep, ks, m, text, True)
            rep.ev()
            rep.state(text)
        for i in ('G:1234567890123', 'U:ATU1-K0', 'S:123456789-x', 'abc', 'K 1', 'a-b', '\u00e4'):
            ks = key_store.KeyStore()
            ks.putPEMKey(i, ref.Key('leaf0').pub_pem)
            check_store(rep, read_ini(write_ini(ks)), {i: (ref.pub_b64('leaf0'), None)}, i, True)
            rep.expect(read_ini(write_ini(ks)).getKeyIds() - {i}, set(), 'INI of %r' % i)
        for bad in ('[certificates]\n5a = x\n', '[public_keys]\nk = x\n', '[certificates]\n5a = \n',
                '[certificates]\n5a = %s\n' % ref.pub_b64('leaf0'),
                '[public_keys]\nk = %s\n' % ref.cert_b64('leaf0self')):
            v, e = drive.outcome(read_ini, bad)
            if not isinstance(e, key_store.KeyStoreParseException):
                rep.fail('INI %r: %r' % (bad, e))
    else:
        # serial notations of every receipt and store form
        for c, k in (('leaf0self', 'leaf0'), ('leaf1self', 'leaf1'), ('leafneg', 'leaf2')):
            n = abs(ref.cert_serial(c))
            for form in ('%x' % n, '%X' % n, '-%x' % n, '0%x' % n):
                d = {'certificateOrPublicKeyMap': {form: {'id': form, 'signatureDeviceType':
                    'CERTIFICATE', 'signatureCertificateOrPublicKey': ref.cert_b64(c)}}}
                rv = ReceiptVerifier.fromKeyStore(key_store.KeyStore.readStoreFromJson(d))
                for s in ('%x' % n, '%X' % n, '-%x' % n, '%d' % n, '-%d' % n, '0%x' % n):
                    v, e = drive.outcome(rv.verifyJWS, rec(s, 'AT1', k))
                    rep.ev()
                    rep.state((form, s))
                    if e is not None:
                        rep.fail('receipt naming %r, stored as %r: %r' % (s, form, e))
                v, e = drive.outcome(rv.verifyJWS, rec('%x' % (n + 1), 'AT1', k))
                rep.expect(type(e).__name__, 'NoPublicKeyException', 'other serial')
