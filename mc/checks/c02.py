"""C02: signature authenticity."""
import base64

from .. import drive, env, ref
from ..world import SYS, Sys, check_verdict
from ..world import far_cases, far_check
from librksv import receipt as R
from librksv.verify_receipt import ReceiptVerifier

ID = 'C02'
LEVEL = 'exploration'
RULE = ('histories of 64 receipts with one such edit at every position; '
    'for every receipt kind and system: every payload character replaced by each of a '
    'character set, inserted, deleted; every one of the 512 signature bits flipped and '
    'structured signature replacements; every JWS text character replaced; re-signed '
    'headers; every pairwise signature exchange; every assignment of verification keys; '
    'near-outage texts; each verified singly in JWS/QR/OCR/CSV form and in a DEP. '
    'Non-trivial: the decoded receipt differs from the genuine one')

KINDS = [('std', 1234), ('std', 0), ('dummy', 500), ('reversal', -700), ('std', -5)]
CHARS = '01A_,;-=.x +:T\u00e4' if env.THOROUGH else '0A_,-x'
ALLSYS = ['open-cert', 'open-ks', 'open-dec', 'closed-ks', 'closed-cert']


def cases():
    ret = []
    for s in ALLSYS:
        for k in range(len(KINDS)):
            for what in ('payload', 'sig', 'text', 'header', 'outage', 'formats'):
                ret.append([what, s, k])
    ret += [['exchange', s, 0] for s in ALLSYS]
    ret += [['keys', c, k] for c in (False, True) for k in range(len(KINDS))]
    ret += [['rogue', s, k] for s in ALLSYS for k in range(len(KINDS))]
    ret += [['far'] + c for c in far_cases()]
    return ret


def verifier(S):
    k = drive.ks(S.ks)
    if S.cert:
        return ReceiptVerifier.fromCert(ref.cert(S.cert))
    return ReceiptVerifier.fromKeyStore(k)


class Ver(object):
    def __init__(self, S, rep):
        self.S, self.rep, self.rv = S, rep, verifier(S)

    def single(self, text, want, what, fmt='JWS', names=None):
        """want: True accept, False reject (documented), 'outage'."""
        f = {'JWS': self.rv.verifyJWS, 'QR': self.rv.verifyBasicCode,
            'OCR': self.rv.verifyOCRCode, 'CSV': self.rv.verifyCSV}[fmt]
        v, e = drive.outcome(f, text)
        self.rep.ev()
        self.rep.state((self.S.name, fmt, text))
        name = type(e).__name__ if e else 'ok'
        self.rep.outcome(name)
        outage = name in ('SignatureSystemFailedException', 'UnsignedNullReceiptException')
        if want is True:
            bad = e is not None
        elif want == 'outage':
            bad = not outage
        else:
            bad = e is None or outage or not isinstance(e, drive.RKSVException)
            if names and not bad:
                bad = name not in names
        if bad:
            self.rep.fail('%s [%s %s]: got %s (%s), expected %s' % (what, self.S.name, fmt,
                name, e, {True: 'acceptance', False: 'rejection'}.get(want, want)),
                {'receipt': text})

    def indep(self, first, j, what, V=None):
        S = self.S
        for res, m in ((drive.verify_dep(S.dep([first, j]), S.ks, S.aes), 'dep'),
                (drive.verify_parsed(S.dep([first, j]), S.ks, S.aes, chunksize=1,
                    nprocs=2), 'chunks')):
            self.rep.ev()
            self.rep.outcome(res.name)
            if res.ok or not res.documented:
                self.rep.fail('%s in DEP [%s]: %s' % (what, m, res.show()), {'receipt': j})


def mk(S, k):
    reg = S.register()
    j0 = reg.make()[0]
    kind, amount = KINDS[k]
    j = reg.make(kind, amount)[0]
    return j0, j


def run(case, rep):
    if case[0] == 'far':
        return far_check(rep, 'signature', case[1:])
    what, sysname, k = case
    if what == 'keys':
        return keys_case(sysname, k, rep)
    S = SYS[sysname]
    V = Ver(S, rep)
    j0, j = mk(S, k)
    r = ref.Rec.of(j)
    hd, pl, sg = j.split('.')
    V.single(j, True, 'genuine')
    rep.sample(case)
    if what == 'payload':
        p = r.payload
        for i in range(len(p)):
            muts = [p[:i] + c + p[i + 1:] for c in CHARS] + [p[:i] + p[i + 1:],
                    p[:i] + p[i] + p[i:], p[:i] + '0' + p[i:],
                    p[:i] + chr(ord(p[i]) ^ 1) + p[i + 1:],
                    p[:i] + p[i].swapcase() + p[i + 1:]]
            for m in muts:
                if m == p:
                    continue
                t = '.'.join([hd, ref.b64u(m.encode()), sg])
                V.single(t, False, 'payload pos %d -> %r' % (i, m))
            t = '.'.join([hd, ref.b64u(muts[-2].encode()), sg])
            V.indep(j0, t, 'payload pos %d' % i)
        for m in (p + '_', p + ' ', ' ' + p, p + '\n', p + '0', p[1:], p + '_' +
                base64.b64encode(r.sig).decode(), p + '\x00'):
            t = '.'.join([hd, ref.b64u(m.encode()), sg])
            V.single(t, False, 'payload %r' % m)
            V.indep(j0, t, 'payload %r' % m)
    elif what == 'sig':
        alts = []
        for bit in range(512):
            b = bytearray(r.sig)
            b[bit // 8] ^= 1 << bit % 8
            alts.append(('bit %d' % bit, bytes(b)))
        s = r.sig
        alts += [('empty', b''), ('zero', bytes(64)), ('r=0', bytes(32) + s[32:]),
            ('s=0', s[:32] + bytes(32)), ('swapped', s[32:] + s[:32]),
            ('short', s[:63]), ('long', s + b'\0'), ('front', b'\0' + s), ('half', s[:32]),
            ('ones', b'\xff' * 64), ('double', s + s), ('nr', ref.N.to_bytes(32, 'big') * 2),
            ('one', (1).to_bytes(32, 'big') * 2), ('x', b'x'),
            ('other key', ref.Key('evil').sign((hd + '.' + pl).encode())),
            ('payload only', ref.Key(S.key).sign(r.payload.encode())),
            ('b64 payload only', ref.Key(S.key).sign(pl.encode())),
            ('raw', ref.Key(S.key).sign((r.header + '.' + r.payload).encode())),
            ('prehashed', ref.Key(S.key).sign(ref.sha((hd + '.' + pl).encode())))]
        for n, b in alts:
            t = '.'.join([hd, pl, ref.b64u(b)])
            V.single(t, False, 'signature ' + n)
        for n, b in alts[::37] + alts[512:]:
            V.indep(j0, '.'.join([hd, pl, ref.b64u(b)]), 'signature ' + n)
    elif what == 'text':
        for i in range(len(j)):
            for c in ('A', 'B', '_', '-', '.', '=', 'z', '/') if env.THOROUGH else ('A', 'z', '-', '.'):
                t = j[:i] + c + j[i + 1:]
                if t == j or same(t, r):
                    continue
                V.single(t, False, 'text pos %d -> %s' % (i, c))
            t = j[:i] + j[i + 1:]
            if not same(t, r):
                V.single(t, False, 'text pos %d deleted' % i)
    elif what == 'header':
        for h in ('{"alg":"none"}', '{"alg":"None"}', '{"alg":"HS256"}', '{"alg":"RS256"}',
                '{"alg":"ES384"}', '{"alg":"ES512"}', '{"alg":"es256"}', '{"alg": "ES256"}',
                '{"alg":"ES256","typ":"JWT"}', '{"typ":"JWT","alg":"ES256"}', '{}', '',
                '{"alg":"ES256"} ', '{"alg":"ES256","crit":[]}', 'ES256', '{"alg":null}',
                '{"alg":"PS256"}', '{"alg":"ES256","alg":"none"}'):
            # signed properly over the changed header, with the old signature, unsigned
            # and (for HS256) with the public key as secret
            si = (ref.b64u(h.encode()) + '.' + pl)
            import hmac
            import hashlib
            pub = ref.Key(S.key).pub_pem.encode()
            sigs = [ref.Key(S.key).sign(si.encode()), r.sig, b'',
                hmac.new(pub, si.encode(), hashlib.sha256).digest(), ref.FAIL]
            for n, b in enumerate(sigs):
                t = si + '.' + ref.b64u(b)
                V.single(t, False, 'header %s sig %d' % (h, n))
                V.indep(j0, t, 'header %s sig %d' % (h, n))
    elif what == 'outage':
        exact = '.'.join([hd, pl, ref.b64u(ref.FAIL)])
        V.single(exact, 'outage', 'exact outage text')
        F = ref.FAIL
        for i, b in enumerate([F.lower(), F.upper(), F + b' ', b' ' + F, F + b'\0', F[:-1],
                F + F, F + b'.', F.replace(b' ', b''), F.replace(b' ', b'_'), F[1:],
                F[:19], F + r.sig, r.sig + F, b'Sicherheitseinrichtung ausgefallem',
                b'Security device broken', F + b'\n', F[::-1], F + bytes(30),
                b'Sicherheitseinrichtung  ausgefallen', b'']
                + [F[:n] for n in range(1, len(F))]
                + [F[:n] + bytes([F[n] ^ 0x20]) + F[n + 1:] for n in range(len(F))]
                + [F[:n] + bytes([F[n] ^ 1]) + F[n + 1:] for n in range(len(F))]
                + casings(F)):
            t = '.'.join([hd, pl, ref.b64u(b)])
            V.single(t, False, 'near outage %r' % b)
            rr = ref.Rec.of(t)
            V.single(rr.qr(), False, 'near outage %r' % b, 'QR')
            if i < 20:
                V.indep(j0, t, 'near outage %r' % b)
    elif what == 'formats':
        for fmt, text in (('QR', r.qr()), ('OCR', r.ocr()), ('CSV', r.csv())):
            V.single(text, True, 'genuine', fmt)
            sep = ';' if fmt == 'CSV' else '_'
            segs = text.split(sep)
            sigpos = len(segs) - 1
            # every character of every segment, incl. the signature
            for n, seg in enumerate(segs):
                for i in range(len(seg)):
                    for c in ('A', '7', 'z'):
                        if seg[i] == c:
                            continue
                        x = list(segs)
                        x[n] = seg[:i] + c + seg[i + 1:]
                        t = sep.join(x)
                        if same_fmt(fmt, t, r):
                            continue
                        V.single(t, False, 'segment %d pos %d -> %s' % (n, i, c), fmt)
            x = list(segs)
            x[sigpos] = {'OCR': base64.b32encode}.get(fmt, base64.b64encode)(ref.FAIL).decode()
            V.single(sep.join(x), 'outage', 'outage text', fmt)
            x[sigpos] = ''
            V.single(sep.join(x), False, 'no signature', fmt)
    elif what == 'exchange':
        reg = S.register()
        recs = [reg.make()[0]] + [reg.make(*KINDS[i])[0] for i in range(len(KINDS))]
        recs += [S.register(reg='KASSE-2').make()[0]]
        for a in recs:
            for b in recs:
                t = a.rsplit('.', 1)[0] + '.' + b.rsplit('.', 1)[1]
                V.single(t, a == b, 'signature exchange')
    elif what == 'rogue':
        # receipts signed (validly) with keys that are not the named one
        reg = S.register()
        reg.make()
        for key in ('evil', 'leaf1', 'leaf2', 'root0', 'mid0'):
            g = reg.clone()
            t = g.make(*KINDS[k], key=key)[0]
            V.single(t, False, 'signed by ' + key, names={'InvalidSignatureException'})
            rt = ref.Rec.of(t)
            V.single(rt.qr(), False, 'signed by ' + key, 'QR')
            V.single(rt.ocr(), False, 'signed by ' + key, 'OCR')
            V.single(rt.csv(), False, 'signed by ' + key, 'CSV')
            V.indep(j0, t, 'signed by ' + key)


def casings(data):
    """The texts that encode to the same as data but for upper and lower case."""
    text = base64.b64encode(data).decode()
    alts = [text.lower(), text.upper(), text.swapcase()]
    alts += [text[:i] + text[i].swapcase() + text[i + 1:] for i in range(len(text))]
    return sorted({base64.b64decode(a) for a in alts} - {data})


def same(t, r):
    """Does the altered JWS text decode to the very same receipt?"""
    try:
        h, p, s = t.split('.')
        return (ref.unb64u(h).decode(), ref.unb64u(p).decode(), ref.unb64u(s)) == (
                r.header, r.payload, r.sig)
    except Exception:
        return False


def same_fmt(fmt, t, r):
    try:
        if fmt == 'CSV':
            t = '_' + t.replace(';', '_')
        segs = t.split('_')
        good = (r.ocr() if fmt == 'OCR' else r.qr()).split('_')
        dec = base64.b32decode if fmt == 'OCR' else base64.b64decode
        for i, (a, b) in enumerate(zip(segs, good)):
            if i == 13 or fmt == 'OCR' and i in (10, 12):
                if dec(a) != dec(b):
                    return False
            elif a != b:
                return False
        return len(segs) == len(good)
    except Exception:
        return False


def keys_case(closed, k, rep):
    """All assignments: which key is stored under the ID x which key signed."""
    stored = ['leaf0', 'leaf1', 'p384', 'rsa', 'ed', None]
    signers = ['leaf0', 'leaf1', 'evil']
    kid = 'U:ATU12345678-K0' if closed else '5a1f0c3de49b77'
    other = 'S:123456789-1' if closed else '7c'
    zda = 'AT0' if closed else 'AT1'
    for st in stored:
        for oth in stored:
            pubs = [(i, n) for i, n in ((kid, st), (other, oth)) if n]
            ksj = ref.keystore([], pubs)
            rv = ReceiptVerifier.fromKeyStore(drive.ks(ksj))
            for sg in signers:
                reg = ref.Register(key=sg, zda=zda, serial=kid, closed=closed)
                j0 = reg.make()[0]
                j = reg.make(*KINDS[k])[0]
                want = {'ok'} if st == sg else (
                    {'NoPublicKeyException'} if st is None else {'InvalidSignatureException'})
                v, e = drive.outcome(rv.verifyJWS, j)
                name = type(e).__name__ if e else 'ok'
                rep.ev()
                rep.outcome(name)
                rep.state((closed, k, st, oth, sg))
                if name not in want:
                    rep.fail('stored %s, signed by %s: %s (%s)' % (st, sg, name, e), j)
                res = drive.verify_dep(ref.dep(([j0, j], None, [])), ksj, ref.AESKEY)
                if res.name not in want:
                    rep.fail('DEP: stored %s, signed by %s: %s' % (st, sg, res.show()), j)
    # genuine ES256 input signed by a P-384 key is not ES256
    from cryptography.hazmat.primitives.asymmetric import ec, utils as au
    from cryptography.hazmat.primitives import hashes
    from librksv import utils as U
    priv = U.loadPrivKey(ref.Key('p384').priv_pem)
    pl = ref.Rec.of(j).payload
    si = ref.b64u(ref.HEADER.encode()) + '.' + ref.b64u(pl.encode())
    for h in (hashes.SHA256(), hashes.SHA384()):
        rr, ss = au.decode_dss_signature(priv.sign(si.encode(), ec.ECDSA(h)))
        t = si + '.' + ref.b64u(rr.to_bytes(48, 'big') + ss.to_bytes(48, 'big'))
        rv = ReceiptVerifier.fromKeyStore(drive.ks(ref.keystore([], [(kid, 'p384')])))
        v, e = drive.outcome(rv.verifyJWS, t)
        rep.ev()
        if e is None:
            rep.fail('P-384 signature accepted as ES256', t)
