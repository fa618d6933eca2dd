"""C33: a rejection names what is wrong and where, in every language."""
import base64
import copy
import itertools
import json
import os
import re

from .. import drive, env, grammar, lang, ref, scripts
from ..drive import RKSVException, depparser
from ..world import SYS, Sys
from librksv import receipt, url_receipt_helpers, verification_state, verify_receipt
from . import c12
from .c20 import answer
from .c26 import Net

ID = 'C33'
LEVEL = 'model_checking'
RULE = ('every single defect of 16 kinds at every position of 5-receipt histories over 5 receipt kinds '
    'x 2-3 systems, verified as one DEP, receipt by receipt, in groups and chunks, through 4 parsers '
    'and as packages; receipts with every field replaced by 8 values in 4 formats; DEPs, key stores '
    'and states with every member of every element removed or replaced by 6 values; 9 leaf '
    'certificates x chains of up to 2 of 11 x key stores; each rejection compared with the place '
    'known by construction, and once more in a process speaking each shipped language; every '
    'entry of each catalogue formatted with distinct marker values. Non-trivial: distinct rejections')
ASSUMPTIONS = ['Packages (several processes): the receipt named may be a later one than the first at '
    'fault, as which one is reported first is left to the schedule.',
    'Groups and registers are numbered from 0 in messages.']

KIND = [('std', 0, True), ('std', 5, True), ('dummy', 7, True), ('reversal', -5, True),
        ('dummy', 0, False)]
BOTH = Sys('both', certs=['leaf0self'], pubs=[('U:ATU12345678-K0', 'leaf0')])
SYSTEMS = {'open-cert': SYS['open-cert'], 'closed-ks': SYS['closed-ks'], 'both': BOTH}
MODES = ('whole', 'groups', 'steps', 'c1', 'c2', 'c3', 'file1', 'file2', 'full0', 'stream2', 'p2c1',
    'p3c2')
FAULTS = ('key', 'sig', 'chain', 'tc', 'date', 'reg', 'zda', 'dup', 'serial', 'restore', 'broken',
    'alg', 'cut', 'size', 'unknown', 'start')


def rid(n):
    return 'Beleg-%d' % n


class Sc(object):
    """One rejection: what has to be named.

    exc: allowed exception classes (None: any documented); at: allowed values of
    the receipt attribute, where there is one; says: each of these has to occur
    in the message; any: one of these; nums: numbers which have to occur; hides:
    must not occur"""

    def __init__(self, name, fn, exc=None, at=None, says=(), some=(), nums=(), hides=()):
        self.name, self.fn, self.exc, self.at = name, fn, exc, at
        self.says, self.some, self.nums, self.hides = says, some, nums, hides


def raising(fn, *a, **kw):
    def f():
        return drive.outcome(fn, *a, **kw)[1]
    return f


# --- histories

def history(S, ops, fault, pos):
    """-> (list of (jws, signed by), index of the receipt at fault) or None"""
    g = S.register()
    recs, at = [], None
    for i, o in enumerate([0] + list(ops)):
        k, c, s = KIND[o]
        kw = {'rid': rid(i)}
        if i == pos:
            if fault == 'key':
                if not s:
                    return None
                kw['key'] = 'evil'
            elif fault == 'sig':
                kw['sig'] = bytes(64)
            elif fault == 'chain':
                kw['chain'] = ref.chain_value('x')
            elif fault == 'tc':
                if k != 'std':
                    return None
                kw['tcdelta'] = 1
            elif fault == 'size':
                if k != 'std':
                    return None
                kw['tcb'] = ref.enc_tc(g.reg, rid(i), g.tc + c + 256, 8)
            elif fault == 'date':
                if not i:
                    return None
                kw['date'] = '2001-01-01T00:00:00'
            elif fault == 'reg':
                if not i:
                    return None
                kw['reg'] = 'KASSE-2'
            elif fault == 'zda':
                if not i or S is not BOTH:
                    return None
                kw.update(zda='AT0', serial='U:ATU12345678-K0')
            elif fault == 'dup':
                if not i:
                    return None
                kw['rid'] = rid(i - 1)
            elif fault == 'serial':
                if S.closed or not s:
                    return None
                kw['serial'] = '77'
            elif fault == 'unknown':
                if not S.closed or not s:
                    return None
                kw['serial'] = 'U:ATU00000000'
            elif fault == 'broken':
                if i:
                    return None
                s = False
            elif fault == 'start':
                if i:
                    return None
                k, c = ('std', 5) if ops[0] % 2 else ('dummy', 5)
        if fault == 'restore' and pos and i == pos - 1:
            # this one fails, the next is not a zero receipt, the one after it neither
            k, c, s = 'std', 3, False
        if fault == 'restore' and pos and i in (pos, pos + 1) and o in (0, 4):
            return None
        recs.append(g.make(k, c, s, **kw))
    if fault in ('alg', 'cut'):
        j = recs[pos][0]
        h, p, s = j.split('.')
        if fault == 'alg':
            pl = ref.Rec.of(j).payload
            b = base64.urlsafe_b64encode(pl.replace('R1', 'R9', 1).encode()).decode().rstrip('=')
            j = '.'.join((h, b, s))
        else:
            j = '.'.join((h, p))
        recs[pos] = (j, None)
        return recs, pos, j
    at, V, st, used = ref.walk(recs, S.ctx_of)
    if at is None:
        return None
    return recs, at, None, V


def run_mode(S, recs, mode):
    js = [r[0] for r in recs]
    if mode == 'whole':
        return drive.outcome(lambda: verify_dep(S, S.dep(js)))[1]
    if mode == 'groups':
        return drive.outcome(lambda: verify_dep(S, S.dep(*[[j] for j in js])))[1]
    if mode == 'steps':
        def steps():
            st = None
            for n, j in enumerate(js):
                st = verify_dep(S, S.dep([j]), st, 0 if st else None)
        return drive.outcome(steps)[1]
    parser, np = 'dict', 1
    m = re.match(r'(c|file|full|stream|p\dc)(\d)$', mode)
    name, cs = m.group(1), int(m.group(2))
    if name[0] == 'p':
        np = int(name[1])
    elif name != 'c':
        parser = name
    return drive.outcome(drive.verify.verifyParsedDEP, drive.parser_for(S.dep(js), parser, np),
        drive.ks(S.ks), S.aes, None, None, None, np, cs, drive.backend(drive.UNIQUE))[1]


def verify_dep(S, dep, state=None, idx=None):
    return drive.verify.verifyDEP(dep, drive.ks(S.ks), S.aes, state, idx,
        drive.backend(drive.UNIQUE))


def histories(case):
    s, fault, k = case[1:]
    S = SYSTEMS[s]
    for pos in range(5):
        for pre in (1, 2) if not env.THOROUGH else range(5):
            ops = [pre] * 4
            if pos:
                ops[pos - 1] = k
            h = history(S, ops, fault, pos)
            if h is None:
                continue
            recs, at, bad = h[:3]
            for m in MODES:
                if m == 'groups' and not S.cert:
                    continue
                ok = range(at, 5) if m[0] == 'p' else [at]
                if bad:
                    names = [bad]
                else:
                    names = [ref.Rec.of(recs[n][0]).rid for n in ok]
                exc = h[3] if len(h) > 3 and m[0] != 'p' else None
                hides = () if bad or m[0] == 'p' else [rid(n) for n in range(5) if rid(n) not in names]
                yield Sc('%s at %d of %r [%s]' % (fault, pos, ops, m),
                    lambda recs=recs, m=m: run_mode(S, recs, m), exc, names, some=names, hides=hides)


# --- single receipts

FORMS = {'jws': (receipt.Receipt.fromJWSString, 'verifyJWS', lambda j: j),
    'qr': (receipt.Receipt.fromBasicCode, 'verifyBasicCode', lambda j: ref.Rec.of(j).qr()),
    'ocr': (receipt.Receipt.fromOCRCode, 'verifyOCRCode', lambda j: ref.Rec.of(j).ocr()),
    'csv': (receipt.Receipt.fromCSV, 'verifyCSV', lambda j: ref.Rec.of(j).csv())}
VALUES = ('', 'x', '1', '1,5', '\u00e4', '=', 'AAAA', '2017-13-01T00:00:00')


def as_qr(t):
    """An OCR code, as far as it is one, with the fields of a QR code."""
    f = t.split('_')
    for i in (10, 12, 13):
        b = grammar.b32(f[i]) if i < len(f) else None
        if isinstance(b, bytes):
            f[i] = base64.b64encode(b).decode()
    return '_'.join(f)


def receipts(case):
    fmt, i = case[1:]
    frm, ver, to = FORMS[fmt]
    S = SYS[('open-cert', 'closed-ks')[i % 2]]
    g = S.register()
    js = [g.make(rid=rid(0)), g.make('std', 1234, rid=rid(1)), g.make('dummy', 5, rid=rid(2)),
        g.make('std', 1, key='evil', rid=rid(3)), g.make('std', 1, False, rid=rid(4)),
        g.make('std', 0, False, rid=rid(5))]
    rv = verify_receipt.ReceiptVerifier.fromKeyStore(drive.ks(SYS['open-cert'].ks))
    rv2 = verify_receipt.ReceiptVerifier.fromKeyStore(drive.ks(SYS['closed-ks'].ks))
    other = verify_receipt.ReceiptVerifier.fromCert(ref.cert('leaf1self'))
    for n, (j, sb) in enumerate(js):
        t = to(j)
        for v in (rv, rv2, other):
            want = 'refused'
            yield Sc('%s of receipt %d' % (ver, n), raising(getattr(v, ver), t), at=[rid(n)],
                some=[rid(n)], exc='maybe')
    j = js[1 + i // 2][0]
    pl = ref.Rec.of(j).payload.split('_')
    for f, v in itertools.product(range(len(pl) + 2), VALUES):
        seg = j.split('.')
        p = list(pl)
        if f < len(pl):
            p[f] = v
            if fmt == 'jws':
                seg[1] = base64.urlsafe_b64encode('_'.join(p).encode()).decode().rstrip('=')
        elif f == len(pl):
            p = p[:-1]
        t = '.'.join(seg)
        if fmt != 'jws':
            q = to(j).split(';' if fmt == 'csv' else '_')
            m = f if fmt == 'qr' or fmt == 'ocr' else f - 1
            if 0 <= m < len(q):
                q[m] = v
            t = (';' if fmt == 'csv' else '_').join(q)
        elif f >= len(pl):
            seg[(0, 2)[f - len(pl)]] = v
            t = '.'.join(seg)
        bad = grammar.judge(fmt, t)
        if bad is True or bad == 'any':
            continue
        r = p[3] if fmt == 'jws' else t.split(';' if fmt == 'csv' else '_')[2 if fmt == 'csv' else 3] \
            if t.count(';' if fmt == 'csv' else '_') > 3 else ''
        names = [t, '_' + t.replace(';', '_'), as_qr(t)] + ([r] if r else [])
        if f == 3 and not r:
            continue                    # a receipt without ID
        yield Sc('%s field %d := %r' % (fmt, f, v), raising(frm, t), at=names, some=names,
            exc=None if '?' not in bad else 'maybe')


def hashes(case):
    S = SYS['open-cert']
    g = S.register()
    for n in range(3):
        j, sb = g.make('std', n, rid=rid(n)) if n else g.make(rid=rid(n))
        r = ref.Rec.of(j)
        for h in ('', 'AAAAAAAAAAA', r.urlhash()[:-1], r.urlhash() + 'x', None):
            u = 'http://h/' if h is None else 'http://h/#' + h

            def f(u=u, r=r):
                with Net(answer(doc={'code': r.qr()})):
                    return drive.outcome(url_receipt_helpers.getAndVerifyReceiptURL,
                        verify_receipt.ReceiptVerifier.fromKeyStore(drive.ks(S.ks)), u)[1]
            names = [x for x in (rid(n), h) if x]
            yield Sc('hash %r of %d' % (h, n), f, {'InvalidURLHashException'}, names, some=names)
        for a in (answer(404), answer(doc={}), answer(raw=b'x')):
            def f(a=a, n=n):
                with Net(a):
                    return drive.outcome(url_receipt_helpers.getBasicCodeFromURL,
                        'http://host/path-%d' % n)[1]
            yield Sc('no receipt %d' % n, f, 'web', some=['http://host/path-%d' % n] if a is not None else ())


# --- certificates

def chains(case):
    leaf = case[1]
    for n in (0, 1, 2):
        for ch in itertools.product(c12.POOL, repeat=n):
            for s in ('none', 'only root0', 'only mid0', 'fake mid, real root',
                    'real mid, fake root') + (('only ' + leaf, 'fake leaf, real root', 'pubs') if n < 2 else ()):
                t = c12.trust(leaf, ch, s)
                if t is None:
                    continue
                certs = {'%x' % abs(int(i, 16)): c for i, c in c12.STORES[s][0].items()}
                prev, says = leaf, None
                if t == 'UntrustedCertificateException':
                    says = [c12.sid(leaf)]
                else:
                    for c in ch + (None,):
                        if c12.sid(prev) in certs:
                            says = [c12.sid(prev)]
                            break
                        if c12.SIGNER[prev] == 'ed' or c12.SIGNER[prev] != c12.CK[c]:
                            says = [c12.sid(prev), c12.sid(c)]
                            break
                        prev = c
                known = {c12.sid(x) for x in c12.LEAVES + c12.POOL} - set(says)
                j = ref.Register(serial=c12.sid(leaf)).make()[0]
                for m in ('dep', 'stream') if n < 2 else ('dep',):
                    def f(ch=ch, s=s, j=j, m=m):
                        dep = ref.dep(([j], leaf, list(ch)))
                        ks = drive.ks(c12.ksjson(s))
                        bk = drive.backend(drive.UNIQUE)
                        if m == 'dep':
                            return drive.outcome(drive.verify.verifyDEP, dep, ks, None, None, None,
                                bk)[1]
                        return drive.outcome(drive.verify.verifyParsedDEP, drive.parser_for(dep,
                            'stream'), ks, None, None, None, None, 1, 1, bk)[1]
                    yield Sc('%s %r %s [%s]' % (leaf, ch, s, m), f, {t}, says=says,
                        hides=[x for x in known if not any(x in y or y in x for y in says)])


# --- structured documents

ODD = (None, 5, 'x', [], {}, True)
GROUP = {'Signaturzertifikat': str, 'Zertifizierungsstellen': list, 'Belege-kompakt': list}


def dep_parse(dep, kind):
    def f():
        def go():
            p = drive.parser_for(json.dumps(dep) if kind[:4] != 'dict' else dep, kind[:-1])
            for chunk in p.parse(int(kind[-1])):
                for recs, cert, chain in chunk:
                    list(recs)
        return drive.outcome(go)[1]
    return f


def deps(case):
    n, first, empty = case[1:]
    g = SYS['open-cert'].register()
    js = [g.make(rid=rid(i))[0] if not i else g.make('std', i, rid=rid(i))[0] for i in range(2 * n)]
    base = ref.dep(*[(js[2 * i:2 * i + 2], 'leaf0self', ['root0'])  for i in range(n)])
    keys = [first] + [k for k in GROUP if k != first]
    base['Belege-Gruppe'] = [{k: x[k] for k in keys} for x in base['Belege-Gruppe']]
    parsers = ('dict0', 'dict1', 'full0', 'file0', 'file1', 'stream0', 'stream1', 'stream3')

    def all_of(name, dep, skip=(), at=None, **kw):
        # other groups without receipts are counted like any
        for j, x in enumerate(dep['Belege-Gruppe']):
            if empty and j != at and isinstance(x, dict) and 'Belege-kompakt' in x and (empty > 1 or not j):
                x['Belege-kompakt'] = []
        for p in parsers:
            # needs the certificates before the receipts, unless it reads all at once
            if p in ('stream1', 'stream3') and first == 'Belege-kompakt':
                continue
            if p[:-1] not in skip:
                yield Sc('%s [%s]' % (name, p), dep_parse(dep, p), **kw)
    for i, (k, typ) in itertools.product(range(n), GROUP.items()):
        d = copy.deepcopy(base)
        del d['Belege-Gruppe'][i][k]
        yield from all_of('group %d without %s' % (i, k), d, at=i, skip=('file',) if n > 1 else (), says=['"%s"' % k],
            nums=[i])
        for v in ODD:
            if isinstance(v, typ):
                continue
            d = copy.deepcopy(base)
            d['Belege-Gruppe'][i][k] = v
            # the two-pass parser sees the certificates of all groups in one list
            yield from all_of('group %d %s := %r' % (i, k, v), d, at=i, skip=('file',), says=['"%s"' % k], nums=[i])
    for i, (k, v) in itertools.product(range(n), itertools.product(('Zertifizierungsstellen',
            'Belege-kompakt'), ODD)):
        for m in (0, 1):
            if m and k == 'Zertifizierungsstellen':
                continue
            d = copy.deepcopy(base)
            d['Belege-Gruppe'][i][k][m] = v
            if k == 'Belege-kompakt' and isinstance(v, str):
                continue
            # the element, or the value itself
            yield from all_of('group %d %s[%d] := %r' % (i, k, m, v), d, at=i, skip=('file',),
                some=[(k, i), '"%s"' % (v,)])
    for i in range(n):
        for bad in ('x-bad-%d' % i, 'AAAA%d' % i):
            for k in ('Signaturzertifikat', 'Zertifizierungsstellen'):
                d = copy.deepcopy(base)
                if k == 'Signaturzertifikat':
                    d['Belege-Gruppe'][i][k] = bad
                else:
                    d['Belege-Gruppe'][i][k][0] = bad
                yield from all_of('group %d %s %r' % (i, k, bad), d, at=i, says=[bad])
        for v in ODD:
            if isinstance(v, dict):
                continue
            d = copy.deepcopy(base)
            d['Belege-Gruppe'][i] = v
            yield from all_of('group %d := %r' % (i, v), d, at=i, skip=('file', 'stream'),
                says=['"Belege-Gruppe"'], nums=[i])
            yield from all_of('group %d := %r' % (i, v), d, at=i, skip=('dict', 'full', 'file'),
                says=['"Belege-Gruppe"'])


def stores(case):
    S = SYS['open-chain']
    base = ref.keystore(['leaf0self', 'root0', 'mid0'], [('U:ATU12345678-K0', 'leaf1'),
        ('S:123456789', 'leaf2'), ('G:1234567890123', 'leaf0')])
    m = base['certificateOrPublicKeyMap']
    read = drive.key_store.KeyStore.readStoreFromJson

    def sc(name, d, **kw):
        return Sc('key store ' + name, raising(read, d), **kw)
    for kid in m:
        for k in m[kid]:
            d = copy.deepcopy(base)
            del d['certificateOrPublicKeyMap'][kid][k]
            yield sc('%s without %s' % (kid, k), d, says=[kid, '"%s"' % k])
            for v in ODD + ('CERT', kid + '0', kid.upper() + 'Z'):
                d = copy.deepcopy(base)
                d['certificateOrPublicKeyMap'][kid][k] = v
                says = [kid]
                if k != 'signatureCertificateOrPublicKey':
                    says.append('"%s"' % k)
                yield sc('%s %s := %r' % (kid, k, v), d, says=says)
            d = copy.deepcopy(base)
            c = d['certificateOrPublicKeyMap']
            c[kid] = dict(c[kid], signatureCertificateOrPublicKey='QUJD')
            yield sc('%s junk' % kid, d, says=[kid])
        for v in ODD:
            if isinstance(v, dict):
                continue
            d = copy.deepcopy(base)
            d['certificateOrPublicKeyMap'][kid] = v
            yield sc('%s := %r' % (kid, v), d, says=[kid])
    for v in ODD:
        if not isinstance(v, dict):
            yield sc(':= %r' % (v,), dict(base, certificateOrPublicKeyMap=v),
                says=['certificateOrPublicKeyMap'])
    yield sc('no map', {}, says=['certificateOrPublicKeyMap'])
    # certificates which need a hexadecimal ID
    d = copy.deepcopy(base)
    d['certificateOrPublicKeyMap']['not hex'] = dict(m['S:123456789'], id='not hex',
        signatureDeviceType='CERTIFICATE')
    yield sc('certificate ID', d, says=['not hex', '"id"'])


def some():
    g = SYS['open-cert'].register()
    return [g.make()[0]] + [g.make(k, v, s)[0] for k, v, s in KIND[1:]]


def states(case):
    g = SYS['closed-ks'].register()
    a = g.make()[0]
    reg = ref.RState(a, g.make('std', 1)[0], 1, False, None)
    base = drive.cluster_json([reg, reg, reg], ['x'])
    want = {'startReceiptJWS': (str, type(None)), 'lastReceiptJWS': (str, type(None)),
        'lastTurnoverCounter': int, 'needRestoreReceipt': bool, 'chainNextTo': (str, type(None))}
    read = verification_state.ClusterState.readStateFromJson

    def sc(name, d, **kw):
        return Sc('state ' + name, raising(read, d), **kw)
    for i, k in itertools.product(range(3), want):
        d = copy.deepcopy(base)
        del d['cashRegisters'][i][k]
        yield sc('register %d without %s' % (i, k), d, says=['"%s"' % k], nums=[i])
        for v in ODD + (1.5,):
            if isinstance(v, want[k]) and not (want[k] is int and v is True):
                continue
            d = copy.deepcopy(base)
            d['cashRegisters'][i][k] = v
            yield sc('register %d %s := %r' % (i, k, v), d, says=['"%s"' % k], nums=[i])
    for i in range(3):
        for v in ODD:
            if not isinstance(v, dict):
                d = copy.deepcopy(base)
                d['cashRegisters'][i] = v
                yield sc('register %d := %r' % (i, v), d, says=['"cashRegisters"'], nums=[i])
    for k in ('cashRegisters', 'usedReceiptIds'):
        d = copy.deepcopy(base)
        del d[k]
        yield sc('without ' + k, d, says=['"%s"' % k])
        for v in ODD:
            if k == 'cashRegisters' and isinstance(v, list):
                continue
            yield sc('%s := %r' % (k, v), dict(base, **{k: v}), says=['"%s"' % k])
    for v in [{'backendType': drive.UNIQUE}, {'backendData': []}, {'backendType': 5, 'backendData': []},
            {'backendType': 'x', 'backendData': []}, {'backendType': drive.UNIQUE, 'backendData': {}},
            {'backendType': drive.UNIQUE, 'backendData': [5]},
            {'backendType': drive.NATURAL, 'backendData': []},
            {'backendType': drive.NATURAL, 'backendData': {'minId': None}},
            {'backendType': drive.NATURAL, 'backendData': {'maxId': None}},
            {'backendType': drive.NATURAL, 'backendData': {'minId': 5, 'maxId': None}},
            {'backendType': drive.NATURAL, 'backendData': {'minId': None, 'maxId': 5}}]:
        yield sc('usedReceiptIds := %r' % v, dict(base, usedReceiptIds=v), says=['"usedReceiptIds"'])
    for i in (-1, 4, 99):
        def f(i=i):
            st = read(copy.deepcopy(base))
            return drive.outcome(drive.verify.verifyDEP, SYS['closed-ks'].dep([a]),
                drive.ks(SYS['closed-ks'].ks), ref.AESKEY, st, i, drive.backend(drive.UNIQUE))[1]
        yield Sc('register index %d' % i, f, {'InvalidCashRegisterIndexException'}, nums=[i])
    for j in some():
        o, pre = receipt.Receipt.fromJWSString(j)
        new = verification_state.ClusterState.fromArbitraryReceipt
        for p in ('R2', 'R0', 'R11', 'r1', '', 'x'):
            yield Sc('state from %s with algorithm %r' % (o.receiptId, p), raising(new, o, p, ref.AESKEY),
                {'UnknownAlgorithmException'}, at=[o.receiptId], says=[o.receiptId])
        if not (o.isDummy() or o.isReversal()):
            for n in (1, 15, 16, 24, 31, 33):
                yield Sc('state from %s with a key of %d bytes' % (o.receiptId, n), raising(new, o, pre, bytes(n)),
                    {'InvalidKeyException'})


FAM = {'hist': histories, 'receipt': receipts, 'hash': hashes, 'chain': chains, 'dep': deps,
    'store': stores, 'state': states}


def cases():
    ret = []
    for s in ('open-cert', 'closed-ks', 'both'):
        for f in FAULTS:
            for k in range(len(KIND)):
                if s != 'both' or f in ('zda', 'dup'):
                    ret.append(['hist', s, f, k])
    ret += [['receipt', f, i] for f in FORMS for i in range(4)]
    ret += [['hash'], ['store'], ['state']]
    ret += [['chain', l] for l in c12.LEAVES[:9]]
    ret += [['dep', n, k, e] for n, es in ((1, (0,)), (3, (0, 1, 2))) for k in GROUP for e in es]
    ret += [['catalogue', l] for l in lang.languages(env.REPO)]
    ret += [['tools']]
    return ret


def reject(sc):
    """[class, documented, receipt attribute, message] of the rejection, or None"""
    e = sc.fn()
    if e is None:
        return None
    a = getattr(e, 'receipt', None)
    return [type(e).__name__, isinstance(e, RKSVException) or type(e).__module__.startswith('requests'),
        a if isinstance(a, str) else None if a is None else repr(a), str(e)]


def everything(case):
    """Called in the process speaking another language, too."""
    return [reject(s) for s in FAM[case[0]](case)]


def number(n, text):
    return re.search(r'(?<![\w-])%d(?![\w])' % n, text) is not None


def place(n, text, where):
    """Does the message say that it is about group or register n?"""
    if where:
        return number(n, text)          # in another language
    return re.search(r'(?i)(group|register with index|register) %d(?!\w)' % n, text) is not None


def judge(rep, sc, got, where):
    rep.ev()
    if got is None:
        if sc.exc != 'maybe':
            rep.fail('%s%s: not rejected' % (where, sc.name), sc.name)
        return
    name, documented, at, msg = got
    rep.outcome(name)
    what = '%s%s: %s %r' % (where, sc.name, name, msg[:400])
    if not documented:
        rep.fail('%s is no documented error' % what, sc.name)
        return
    if isinstance(sc.exc, set) and name not in sc.exc:
        rep.fail('%s instead of %s' % (what, sorted(sc.exc)), sc.name)
        return
    if sc.at is not None and at is not None and at not in sc.at:
        rep.fail('%s is about %r, not %r' % (what, at[:200], sc.at[:2]), sc.name)
        return
    if sc.some and not any(all(x in msg if isinstance(x, str) else place(x, msg, where) for x in
            (s if isinstance(s, tuple) else (s,))) for s in sc.some):
        rep.fail('%s names none of %r' % (what, [str(x)[:100] for x in sc.some]), sc.name)
    for s in sc.says:
        if s not in msg:
            rep.fail('%s does not name %r' % (what, s), sc.name)
    for n in sc.nums:
        if not place(n, msg, where):
            rep.fail('%s does not say that it is number %d' % (what, n), sc.name)
    for s in sc.hides:
        if s in msg:
            rep.fail('%s names %r, which is not at fault' % (what, s), sc.name)
    rep.state((sc.name, got))


def catalogue(rep, l):
    """Every translation says as much as the original."""
    po = lang.read_po(os.path.join(env.REPO, 'lang', l, 'LC_MESSAGES', 'rktool.po'))
    rep.expect(len(po) > 50, True, 'entries of the catalogue')
    marks = ['<<%s>>' % c for c in 'ABCDEFGH']
    for a, b in sorted(po.items()):
        if not a or not b:
            continue
        rep.ev()
        rep.state((l, a, b))
        for kind, f in (('format', lambda s: s.format(*marks)),
                ('percent', lambda s: s % tuple([7] * s.count('%d') + marks[:s.count('%s')]
                    if '%d' in s else marks[:a.count('%s')]))):
            if kind == 'percent' and '%' not in a + b:
                continue
            x, e = drive.outcome(f, a)
            if e is not None:
                continue
            y, e = drive.outcome(f, b)
            if e is not None:
                rep.fail('%s: %r cannot be filled in: %r' % (l, b, e), [a, b])
                continue
            for m in marks + ['7']:
                if (m in x) != (m in y):
                    rep.fail('%s: %r and %r show different details' % (l, a, b), [a, b])
                    break
    rep.trace()


def tools(_):
    """Exit status, exception and what is printed by the verification commands."""
    import tempfile
    out = []
    with tempfile.TemporaryDirectory(dir=os.environ.get('RKSVMC_SCRATCH')) as d:
        S = SYS['open-cert']
        g = S.register()
        good = [g.make(rid=rid(0))[0], g.make('std', 5, rid=rid(1))[0], g.make('std', 9, rid=rid(2))[0]]
        broken = ref.Register().make('std', 5, key='evil', rid=rid(9))[0]
        docs = {'ks': S.ks, 'good': S.dep(good), 'bad': S.dep(good[:1] + good[2:]),
            'none': {}, 'odd': {'Belege-Gruppe': [{}]}, 'pub': {'certificateOrPublicKeyMap': {}}}
        for n, v in docs.items():
            with open(os.path.join(d, n), 'w') as f:
                json.dump(v, f)
        runs = [('verify.py', a + [k, dep], '') for k in ('ks', 'pub', 'none') for dep in
                ('good', 'bad', 'none', 'odd', 'absent')
                for a in ([], ['chunksize', '1'], ['chunksize', '0'], ['0'], ['x'])]
        runs += [('verify_receipt.py', [f, 'ks'], '\n'.join(FORMS[f][2](j) for j in js) + '\n')
            for f in FORMS for js in ([good[1]], good, [broken], [good[0], broken, good[1]])]
        runs += [('receipt.py', a, good[0] + '\n') for a in (['jws', 'qr'], ['jws', 'x'], ['x', 'qr'],
            ['qr', 'qr'], [])]
        runs += [('key_store.py', [k, 'list'], '') for k in ('ks', 'pub', 'none')]
        runs += [('verification_state.py', [], ''), ('merge.py', ['good', 'bad'], ''),
            ('merge.py', ['good', 'odd'], '')]
        for name, args, stdin in runs:
            o = scripts.run(name, args, stdin, cwd=d)
            out.append(['%s %s' % (name, ' '.join(args)), o.rc, type(o.exc).__name__ if o.exc is not None
                else None, getattr(o.exc, 'receipt', None), sorted(set(re.findall(r'Beleg-\d', o.out)) |
                set(re.findall(r'Beleg-\d', str(o.exc)))), o.out.count('\n')])
    return out


def run(case, rep):
    kind = case[0]
    langs = lang.languages(env.REPO)
    if kind == 'catalogue':
        return catalogue(rep, case[1])
    if kind == 'tools':
        mine = json.loads(json.dumps(tools(None)))
        rep.ev(len(mine))
        for l in langs:
            theirs = lang.call(env.REPO, l, 'mc.checks.c33', 'tools', None)
            for a, b in zip(mine, theirs):
                rep.ev()
                rep.state((l, a))
                rep.outcome('%s rc %s' % (a[0].split()[0], a[1]))
                rep.expect(b, a, 'in language %s' % l)
        return
    scs = list(FAM[kind](case))
    mine = [reject(s) for s in scs]
    for s, g in zip(scs, mine):
        judge(rep, s, g, '')
    for l in langs:
        theirs = lang.call(env.REPO, l, 'mc.checks.c33', 'everything', case)
        if not rep.expect(len(theirs), len(mine), 'rejections in language %s' % l):
            continue
        same = 0
        for s, a, b in zip(scs, mine, theirs):
            judge(rep, s, b, '(%s) ' % l)
            rep.expect(b and b[:3], a and a[:3], '%s in language %s' % (s.name, l))
            same += a == b
        if scs and same == len(scs) and any(mine):
            rep.fail('harness: nothing is translated into %s' % l)
    rep.trace()
    rep.sample(case)
