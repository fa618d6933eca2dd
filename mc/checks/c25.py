"""C25: verification of single receipts: the right key or a refusal."""
import itertools
import json

from librksv import key_store, receipt, utils, verify_receipt
from librksv.verify_receipt import ReceiptVerifier

from .. import drive, env, ref
from ..world import CERTKEY
from .c24 import trips

ID = 'C25'
LEVEL = 'exploration'
RULE = ('the full product of {open, closed} x 29 serials (hexadecimal in both cases, leading zeros, '
    'decimal, negative, ambiguous between the two, suffixed, absent; tax, UID and GLN numbers) x '
    '{standard, zero, training, reversal} x {signed, other key, another receipt\'s signature, '
    'damaged, outage} x 17 key stores x {no certificate, 9 certificates} x 4 formats, judged '
    'by an independent decision procedure; one verifier for all receipts in both orders; receipt '
    'objects reused over verifiers. Non-trivial: distinct combinations')
ASSUMPTIONS = ['Of two entries a serial could name, the one for the hexadecimal reading counts.']

H = lambda c: ref.keyid(ref.cert_serial(c))
L0, L1, L2 = H('leaf0self'), H('leaf1self'), H('leaf2self')
AMB = '20171234'            # hexadecimal: leaf1's serial; decimal: another number
assert L1 == AMB
DECAMB = '%x' % int(AMB)
OPEN = [L0, L0.upper(), '000' + L0, str(int(L0, 16)), '-' + L0, '-' + str(int(L0, 16)), '0' + str(int(L0, 16)),
    AMB, '-' + AMB, str(int(AMB, 16)), DECAMB, L2, str(int(L2, 16)), '7C', '-7C', L0 + '-x1', L0[:-1], L0 + '0',
    '0', 'ffff']
CLOSED = ['U:ATU12345678-K0', 'U:ATU12345678', 'S:123456789-1', 'S:123456789', 'G:1234567890123', 'U:X',
    'U:ATU12345678-k0', 'U:ATU12345678-K1', L0]
STORES = {
    'empty': ((), ()),
    'cert0': (('leaf0self',), ()),
    'cert1': (('leaf1self',), ()),
    'cert01': (('leaf0self', 'leaf1self'), ()),
    'fake': (('leaf0fake',), ()),
    'neg': (('leafneg',), ()),
    'rsa': (('leafrsa',), ()),
    'p384': (('leafp384',), ()),
    'pub0': ((), ((L0, 'leaf0'),)),
    'pubdec': ((), ((str(int(L0, 16)), 'leaf0'),)),
    'pubup': ((), ((L0.upper(), 'leaf0'),)),
    'amb': (('leaf1self',), ((DECAMB, 'leaf0'),)),
    'ambdec': ((), ((DECAMB, 'leaf0'), (str(int(DECAMB, 16)), 'leaf1'))),
    'uid': ((), (('U:ATU12345678-K0', 'leaf0'), ('S:123456789', 'leaf0'))),
    'uidwrong': ((), (('U:ATU12345678-K0', 'leaf1'), ('U:ATU12345678', 'leaf0'), ('G:1234567890123', 'leaf0'))),
    'uidlow': ((), (('U:ATU12345678-k0', 'leaf0'), ('U:atu12345678-K0', 'leaf1'), ('u:ATU12345678-K0', 'leaf2'))),
    'mixed': (('leaf0self', 'leaf1self', 'leafneg'), (('S:123456789-1', 'leaf0'), ('U:X', 'rsa'),
        ('U:ATU12345678-K0', 'leaf0'), ('ffff', 'leaf0'))),
}
CERTS = [None, 'leaf0self', 'leaf1self', 'leaf2self', 'leaf0fake', 'leafneg', 'leafrsa', 'leafp384', 'leaf0ed',
    'leaf0mid1']
CERTKEY = dict(CERTKEY, leaf0fake='evil')
KINDS = [('std', 1234), ('std', 0), ('dummy', 5), ('dummy', 0), ('reversal', -5), ('reversal', 0)]
SIGS = ['ok', 'other', 'moved', 'bad', 'broken']
READ = {'jws': ('fromJWSString', 'verifyJWS'), 'qr': ('fromBasicCode', 'verifyBasicCode'),
    'ocr': ('fromOCRCode', 'verifyOCRCode'), 'csv': ('fromCSV', 'verifyCSV')}


def text(j, fmt):
    r = ref.Rec.of(j)
    return {'jws': lambda: j, 'qr': r.qr, 'ocr': r.ocr, 'csv': r.csv}[fmt]()


def cases():
    return [[z, i, s] for z, ss in (('AT1', OPEN), ('AT0', CLOSED)) for i in range(len(ss)) for s in STORES] + [
        ['order', s] for s in STORES] + [['alg', s] for s in STORES] + [['provider', s] for s in STORES]


def receipts(zda, serial):
    """(name, jws, name of the key it is authentic under)"""
    for (k, c) in KINDS:
        for s in SIGS:
            for key in ('leaf0', 'leaf1', 'leaf2', 'evil') if s == 'ok' else ('leaf0',):
                g = ref.Register(key=key, zda=zda, serial=serial)
                g.make()
                if s == 'moved':
                    o = g.clone().make(k, c, rid='other')
                    j, sb = g.make(k, c, sig=ref.Rec.of(o[0]).sig)
                elif s == 'bad':
                    o = g.clone().make(k, c)
                    b = bytearray(ref.Rec.of(o[0]).sig)
                    b[40] ^= 1
                    j, sb = g.make(k, c, sig=bytes(b))
                elif s == 'other':
                    j, sb = g.make(k, c, key='evil')
                else:
                    j, sb = g.make(k, c, sign=s != 'broken')
                yield '%s %d %s %s' % (k, c, s, key), j, sb


def readings(serial):
    """The numbers a serial may stand for, hexadecimal first."""
    s = serial[1:] if serial.startswith('-') else serial
    ret = []
    if s and all(c in '0123456789abcdefABCDEF' for c in s):
        ret.append('%x' % int(s, 16))
    if s and all(c in '0123456789' for c in s):
        ret.append('%x' % int(s))
    return ret


def expected(r, sb, keys, cert):
    """'ok' or the name of the error."""
    key = None
    if r.zda == 'AT0':
        key = CERTKEY[cert] if cert else keys.get(r.serial)
    else:
        ids = readings(r.serial)
        if cert:
            if H(cert) not in ids:
                return 'CertSerialMismatchException'
            key = CERTKEY[cert]
        else:
            found = [keys[i] for i in ids if i in keys]
            key = found[0] if found else None
    if r.broken:
        return 'UnsignedNullReceiptException' if r.standard and r.null else 'SignatureSystemFailedException'
    if key is None:
        return 'NoPublicKeyException'
    return 'ok' if key == sb else 'InvalidSignatureException'


def keys_of(name):
    certs, pubs = STORES[name]
    ret = {H(c): CERTKEY[c] for c in certs}
    ret.update(dict(pubs))
    return ret


def judge(rep, v, e, j, fmt, want, what):
    rep.ev()
    if want == 'ok':
        if e is not None:
            rep.fail('%s: refused with %r' % (what, e), text(j, fmt))
            return
        ro, alg = v
        r = ref.Rec.of(j)
        rep.expect((ro.toBasicCode(alg.id()), ro.toJWSString(alg.id()), alg.id()), (r.qr(), j, 'R1'), what +
            ': returned receipt')
    elif e is None:
        rep.fail('%s: accepted, expected %s' % (what, want), text(j, fmt))
    elif type(e).__name__ != want:
        rep.fail('%s: %r, expected %s' % (what, e, want), text(j, fmt))
    elif e.receipt != ref.Rec.of(j).rid:
        rep.fail('%s: error names receipt %r' % (what, e.receipt), text(j, fmt))
    elif isinstance(e, verify_receipt.NonFatalReceiptException) != (want in ('UnsignedNullReceiptException',
            'SignatureSystemFailedException')):
        rep.fail('%s: %r' % (what, e), text(j, fmt))


def verifier(store, cert):
    ks = drive.ks(ref.keystore(*STORES[store]))
    if cert is None:
        return [ReceiptVerifier.fromKeyStore(ks), ReceiptVerifier(ks, None)]
    c = ref.cert(cert)
    return [ReceiptVerifier(ks, c), ReceiptVerifier.fromCert(c)]


def run(case, rep):
    if case[0] == 'order':
        order(rep, case[1])
        return
    if case[0] == 'alg':
        alg_case(rep, case[1])
        return
    if case[0] == 'provider':
        provider(rep, case[1])
        return
    zda, i, store = case
    serial = (OPEN if zda == 'AT1' else CLOSED)[i]
    if zda == 'AT0' and serial == L0:
        # not a closed system's ID
        for what, j, sb in receipts(zda, serial):
            for fmt in READ:
                v, e = drive.outcome(getattr(verifier(store, None)[0], READ[fmt][1]), text(j, fmt))
                rep.ev()
                if type(e).__name__ != 'InvalidCertificateProviderException':
                    rep.fail('serial of a certificate in a closed system receipt: %r' % (e or v,), text(j, fmt))
        rep.state(case)
        return
    keys = keys_of(store)
    rs = list(receipts(zda, serial))
    for cert in CERTS:
        for n, rv in enumerate(verifier(store, cert)):
            for what, j, sb in rs:
                want = expected(ref.Rec.of(j), sb, keys, cert)
                rep.outcome(want)
                for fmt in READ if n == 0 or env.THOROUGH else ('qr',):
                    w = '%s receipt, serial %s, store %s, certificate %s, %s' % (what, serial, store, cert, fmt)
                    v, e = drive.outcome(getattr(rv, READ[fmt][1]), text(j, fmt))
                    judge(rep, v, e, j, fmt, want, w)
                    if n == 0:
                        rep.state([w])
                ro, p = receipt.Receipt.fromJWSString(j)
                v, e = drive.outcome(rv.verify, ro, p)
                judge(rep, v, e, j, 'jws', want, w + ' as object')
    rep.trace()


def order(rep, store):
    """A verifier's verdicts do not depend on what it has seen before."""
    keys = keys_of(store)
    rs = [(x, z) for z, ss in (('AT1', [L0, AMB, str(int(L0, 16)), '-7C']), ('AT0', CLOSED[:3])) for s in ss
        for x in list(receipts(z, s))[::3]]
    for cert in CERTS:
        for rv in verifier(store, cert):
            objs = [receipt.Receipt.fromJWSString(x[1])[0] for x, z in rs]
            for seq in (range(len(rs)), reversed(range(len(rs)))):
                for i in seq:
                    (what, j, sb), z = rs[i]
                    v, e = drive.outcome(rv.verify, objs[i], 'R1')
                    judge(rep, v, e, j, 'jws', expected(ref.Rec.of(j), sb, keys, cert), '%s %s %s %s' % (
                        what, store, cert, z))
            rep.trace()
    rep.state(['order', store])


def alg_case(rep, store):
    """Unknown algorithms are never verified."""
    for cert in CERTS:
        for rv in verifier(store, cert):
            for what, j, sb in list(receipts('AT1', L0))[:12]:
                ro, p = receipt.Receipt.fromJWSString(j)
                for a in ('R2', 'R0', 'r1', '', 'R11', 'ES256', 'none', None):
                    v, e = drive.outcome(rv.verify, ro, a)
                    rep.ev()
                    if type(e).__name__ != 'UnknownAlgorithmException':
                        rep.fail('algorithm %r: %r' % (a, e or v), j)
    rep.state(['alg', store])


def provider(rep, store):
    """Other provider codes are open systems, too; closed IDs are not for them."""
    keys = keys_of(store)
    for zda in ('AT2', 'AT99', 'DE1', 'AA1', 'AT10'):
        for s in (L0, AMB, str(int(L0, 16)), '-7C'):
            for what, j, sb in list(receipts(zda, s))[::2]:
                for cert in CERTS:
                    want = expected(ref.Rec.of(j), sb, keys, cert)
                    for rv in verifier(store, cert):
                        for fmt in READ:
                            v, e = drive.outcome(getattr(rv, READ[fmt][1]), text(j, fmt))
                            judge(rep, v, e, j, fmt, want, '%s %s %s %s' % (what, zda, store, cert))
        for s in CLOSED[:-1]:
            for what, j, sb in list(receipts(zda, s))[::5]:
                for rv in verifier(store, None):
                    for fmt in READ:
                        v, e = drive.outcome(getattr(rv, READ[fmt][1]), text(j, fmt))
                        rep.ev()
                        if type(e).__name__ != 'InvalidCertificateProviderException':
                            rep.fail('%s with %s: %r' % (zda, s, e or v), j)
        rep.state([zda, store])
