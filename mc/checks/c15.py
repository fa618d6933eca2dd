"""C15: receipts survive conversion between all formats."""
import itertools
import pickle

from .. import drive, env, ref
from librksv import algorithms, depparser, receipt
from librksv.verify_receipt import ReceiptVerifier

ID = 'C15'
LEVEL = 'model_checking'
RULE = ('explicit-state exploration to the fixpoint of the graph (format, text) of 4 formats under '
    'all 16 conversions, for every receipt of: kinds x systems/serial notations x 20 ID contents x '
    'sum texts (every slot) x counter widths 5-16 x signature kinds (genuine, outage, every length '
    '0-70, every first/last byte); oracle: texts computed from the fields by the reference; '
    'hash and verdict (6 verifiers) compared in every state; compact DEP form round trip for '
    'all receipts. Non-trivial: distinct (format, text) states')

FORMATS = {'jws': (receipt.Receipt.fromJWSString, lambda r, p: r.toJWSString(p)),
    'qr': (receipt.Receipt.fromBasicCode, lambda r, p: r.toBasicCode(p)),
    'ocr': (receipt.Receipt.fromOCRCode, lambda r, p: r.toOCRCode(p)),
    'csv': (receipt.Receipt.fromCSV, lambda r, p: r.toCSV(p))}
IDS = ['1', 'KASSE-1', 'a b', '\u00e4\u00f6\u00fc\u00df', 'Stra\u00dfe 1/2', '.', '-', '+', '=', ',',
    '"', "'", '\\', '{"a":1}', '\u20ac', '\U0001f4b6', 'a\tb', 'x' * 200, '0', 'None', '%s{0}', '\x00',
    'e\u0301', '\u202e', '<b>', '&amp;', 'a\nb', '#', '?', 'R1-AT1', '\x7f', '\ufeffb', 'I\u0130\u0131',
    'a\u2028b', 'a\x85b', 'a\x0bb', 'a\x0cb', 'a\x1cb\x1dc\x1ed', 'a\u2029b', 'a\x1ab', '\ud7ff\ue000']
SUMS = ['0,00', '-0,00', '0,01', '-0,01', '1,00', '9,99', '10,00', '-10,50', '123456789,01',
    '99999999999999999999,99', '-12345678901234567,89']
SERIALS = [('AT1', '5a1f0c3de49b77'), ('AT1', '5A1F0C3DE49B77'), ('AT2', '20171234'),
    ('AT99', '-5a1f'), ('DE1', '0'), ('AT1', 'f' * 40), ('AT0', 'U:ATU12345678-K0'),
    ('AT0', 'U:ATU12345678'), ('AT0', 'S:123456789-1'), ('AT0', 'S:123456789'),
    ('AT0', 'G:1234567890123-Xy9'), ('AT0', 'G:1234567890123')]


def fields(kind='std', zda='AT1', serial=None, reg='KASSE-1', rid='B1', sums=ref.ZERO, size=8,
        date='2017-02-28T23:59:59', tc=0):
    tcb = {'std': None, 'dummy': b'TRA', 'reversal': b'STO'}[kind]
    if tcb is None:
        tcb = ref.enc_tc(reg, rid, tc, size)
    return ref.payload(zda, reg, rid, date, sums, tcb, serial or '5a1f0c3de49b77',
        ref.chain_value(reg + rid))


def cases():
    ret = []
    for k in ('std', 'dummy', 'reversal'):
        for s in range(len(SERIALS)):
            ret.append(['serial', k, s])
    ret += [['ids', i] for i in range(len(IDS))]
    ret += [['sums', i] for i in range(len(SUMS))]
    ret += [['size', i] for i in range(5, 17)]
    ret += [['sig', i] for i in range(8)]
    ret += [['date'], ['unsigned'], ['corpus']]
    return ret


VER = []


def verifiers():
    if not VER:
        VER.append(('cert', ReceiptVerifier.fromCert(ref.cert('leaf0self'))))
        VER.append(('other cert', ReceiptVerifier.fromCert(ref.cert('leaf1self'))))
        for n, k in (('ks', ref.keystore(['leaf0self'], [('U:ATU12345678-K0', 'leaf0'),
                ('S:123456789', 'leaf0')])), ('other', ref.keystore(['leaf1self'], [
                ('U:ATU12345678-K0', 'leaf1')])), ('empty', ref.keystore([], []))):
            VER.append((n, ReceiptVerifier.fromKeyStore(drive.ks(k))))
    return VER


def explore(rep, j):
    """All (format, text) states reachable from the JWS form of a receipt."""
    r = ref.Rec.of(j)
    want = {'jws': j, 'qr': r.qr(), 'ocr': r.ocr(), 'csv': r.csv()}
    if ';' in r.payload or any(f != f.strip() for f in r.payload.split('_')):
        del want['csv']                 # cannot be expressed in CSV
    seen, todo = set(), [('jws', j)]
    verd = None
    while todo:
        st = todo.pop()
        if st in seen:
            continue
        seen.add(st)
        rep.state(st)
        f, text = st
        if not rep.expect(text, want.get(f), '%s form of %r' % (f, r.payload)):
            return
        v, e = drive.outcome(FORMATS[f][0], text)
        if e is not None:
            rep.fail('%s form refused: %r: %r' % (f, text, e))
            return
        o, p = v
        got = (p, o.zda, o.registerId, o.receiptId, o.dateTimeStr, o.sumAStr, o.sumBStr, o.sumCStr,
            o.sumDStr, o.sumEStr, o.encTurnoverCounter, o.certSerial, o.previousChain, o.header,
            o.signature)
        s = r.payload.split('_')
        rep.expect(got, ('R1', r.zda, *s[2:13], ref.HEADER, j.split('.')[2]),
            'fields of %s %r' % (f, text))
        rep.expect((o.isNull(), o.isDummy(), o.isReversal(), o.isSignedBroken(), o.signed,
            o.dateTime),
            (r.null, r.dummy, r.reversal, r.broken, True, r.date_key), 'kind of %r' % text)
        rep.expect(o.toURLHash(p), r.urlhash(), 'hash of %s %r' % (f, text))
        rep.expect(o.toPayloadString(p), r.payload, 'payload of %s %r' % (f, text))
        v = verdicts(f, text)
        if verd is None:
            verd = v
        rep.expect(v, verd, 'verdicts of %s %r' % (f, text))
        for n in verd:
            rep.outcome(n)
        # the object must not be changed by being written
        for g in want:
            rep.ev()
            t = FORMATS[g][1](o, p)
            rep.expect(t, want[g], '%s -> %s of %r' % (f, g, text))
            todo.append((g, t))
        o2 = pickle.loads(pickle.dumps(o))
        rep.expect([FORMATS[g][1](o2, p) for g in want], [want[g] for g in want], 'pickled %r' % text)
    rep.expect(len(seen), len(want), 'states reachable from %r' % j)
    rep.trace()
    # compact DEP form
    t, e = drive.outcome(lambda: depparser.expandDEPReceipt(depparser.shrinkDEPReceipt(j)))
    rep.expect(t if e is None else repr(e), j, 'compact form of %r' % (j,))
    return verd


def verdicts(f, text):
    out = []
    for n, rv in verifiers():
        fn = {'jws': rv.verifyJWS, 'qr': rv.verifyBasicCode, 'ocr': rv.verifyOCRCode,
            'csv': rv.verifyCSV}[f]
        v, e = drive.outcome(fn, text)
        out.append(type(e).__name__ if e else 'ok')
    return out


SIGNERS = ('leaf0', 'broken')


def run(case, rep):
    kind = case[0]
    pls = []
    sigs = [ref.Key('leaf0'), 'broken']
    if kind == 'serial':
        zda, ser = SERIALS[case[2]]
        for size in (5, 8, 16):
            for sums in (ref.ZERO, ('1,00', '-2,50', '0,00', '100,00', '0,01')):
                pls.append(fields(case[1], zda, ser, size=size, sums=sums))
    elif kind == 'ids':
        for other in IDS:
            pls.append(fields(reg=IDS[case[1]], rid=other))
        for k in ('dummy', 'reversal'):
            pls.append(fields(k, reg=IDS[case[1]], rid=IDS[case[1]]))
    elif kind == 'sums':
        for a, b in itertools.product(range(5), SUMS):
            s = [b] * 5
            s[a] = SUMS[case[1]]
            pls.append(fields(sums=s))
            s = ['0,00'] * 5
            s[a], s[(a + 1) % 5] = SUMS[case[1]], b
            pls.append(fields(sums=s))
    elif kind == 'size':
        for tc in (0, 1, -1, 255, -256, 2 ** 31, -2 ** 39, 2 ** 39 - 1):
            for rid in ('a', 'b', 'c', 'd'):
                pls.append(fields(size=case[1], tc=tc, rid=rid))
        for b in range(256):
            pls.append(ref.payload('AT1', 'K', 'B', '2017-01-01T00:00:00', ref.ZERO,
                bytes([b]) * case[1], '5a1f', ref.chain_value(str(b))))
    elif kind == 'sig':
        pls = [fields(k) for k in ('std', 'dummy', 'reversal')]
        n = case[1]
        sigs = [bytes(range(i)) for i in range(n * 9, n * 9 + 9)]
        g = ref.Key('leaf0').sign(b'x')
        sigs += [bytes([b]) + g[1:] for b in range(n * 32, n * 32 + 32)]
        sigs += [g[:-1] + bytes([b]) for b in range(n * 32, n * 32 + 32)]
        sigs += [g[:n * 8] + b'\xff\xfb\xbe' + g[n * 8 + 3:], ref.FAIL[:n * 4], ref.FAIL + g[:n],
            ref.FAIL.upper()]
    elif kind == 'date':
        for d in ('0001-01-01T00:00:00', '9999-12-31T23:59:59', '2016-02-29T12:00:00',
                '1969-12-31T23:59:59', '2000-02-29T00:00:00'):
            pls.append(fields(date=d))
    elif kind == 'corpus':
        R = ref.Register()
        for i in range(60):
            j, sb = R.make(('std', 'dummy', 'reversal')[i % 7 % 3] if i else 'std', i * 7 - 90 if i
                else 0, sign=i % 5 != 3 or not i)
            verd = explore(rep, j)
            rep.expect(verd[0], 'ok' if sb else
                'UnsignedNullReceiptException' if ref.Rec.of(j).null and ref.Rec.of(j).standard
                else 'SignatureSystemFailedException', 'verdict of %r' % j)
    elif kind == 'unsigned':
        p = fields().split('_')
        for n in range(2):
            r = receipt.Receipt('AT1', *p[2:13])
            for name, (_, to) in sorted(FORMATS.items()) + [('url', (0, lambda r, p: r.toURLHash(p)))]:
                rep.ev()
                v, e = drive.outcome(to, r, 'R1')
                if e is None:
                    rep.fail('unsigned receipt written as %s: %r' % (name, v))
            rep.expect(r.toPayloadString('R1'), '_'.join(p), 'payload')
            j = ref.jws('_'.join(p), ref.Key('leaf0'))
            r.sign(ref.HEADER, j.split('.')[2])
            rep.expect(r.toJWSString('R1'), j, 'signed')
            rep.expect(r.toCSV('R1'), ref.Rec.of(j).csv(), 'signed')
            rep.state(('unsigned', n))
    for pl in pls:
        for s in sigs:
            explore(rep, ref.jws(pl, s))
    rep.sample(case)
