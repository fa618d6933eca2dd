"""C16: malformed receipts are rejected with a documented receipt error."""
import itertools

from .. import drive, env, ref
from ..grammar import b64, b64url, judge
from librksv import receipt
from librksv.verify_receipt import ReceiptVerifier

ID = 'C16'
LEVEL = 'exploration'
RULE = ('per segment, exhaustively: all strings up to length 4-6 over the segment\'s alphabet and '
    'boundary lists (dates: all days 0-32 x months 0-13 x 6 years, all times at the bounds; counter, '
    'chain, signature: all lengths 0-20 and every text position), all segment counts, all '
    'segment swaps and pairs of bad segments; every character of each format deleted, doubled, '
    'replaced by and preceded by each of 22 characters; oracle: independent grammar incl. which '
    'exception; the same for receipts made from fields (every character edit, word and wrong type in '
    'every field) and signed with every combination of header and signature values. Non-trivial: distinct input texts')
FMT = {'jws': receipt.Receipt.fromJWSString, 'qr': receipt.Receipt.fromBasicCode,
    'ocr': receipt.Receipt.fromOCRCode, 'csv': receipt.Receipt.fromCSV}
CHARS = ['0', '9', 'A', 'a', 'z', '_', '-', ',', ';', '=', '+', '/', '.', ':', ' ', '\n', '\x00',
    '\u00e4', '\u0661', '\ud800', '\U0001f4b6', '"']
OPEN = ['R1-AT1', 'KASSE-1', 'B1', '2017-02-28T23:59:59', '0,00', '1,50', '-2,00', '0,00', '0,01',
    ref.b64u(b'12345678').replace('-', '+').replace('_', '/') + '=', '5a1f0c3de49b77', 'AAECAwQFBgc=']
CLOSED = list(OPEN)
CLOSED[0], CLOSED[10] = 'R1-AT0', 'U:ATU12345678-K0'
BASES = {'open': OPEN, 'closed': CLOSED}
SIG = ref.Key('leaf0').sign(b'x')
ALPHA = {0: ('R1-AT0', 6), 1: ('aA_-;.', 3), 2: ('aA_-;.', 3), 4: ('01-,.', 6), 10: ('0aU:-S1', 5)}
VERIFIERS = []


def build(fmt, f, sig=SIG):
    """Text in a format from the 12 payload fields (strings)."""
    import base64
    if fmt == 'jws':
        return ref.jws('_' + '_'.join(f), sig)
    f = list(f)
    if fmt == 'ocr':
        for i in (9, 11):
            try:
                f[i] = base64.b32encode(base64.b64decode(f[i])).decode()
            except Exception:
                pass
        return '_' + '_'.join(f) + '_' + base64.b32encode(sig).decode()
    g = base64.b64encode(sig).decode()
    if fmt == 'csv':
        return ';'.join(f) + ';' + g
    return '_' + '_'.join(f) + '_' + g


def ver(fmt):
    if not VERIFIERS:
        VERIFIERS.append(ReceiptVerifier.fromKeyStore(drive.ks(ref.keystore([], []))))
    rv = VERIFIERS[0]
    return {'jws': rv.verifyJWS, 'qr': rv.verifyBasicCode, 'ocr': rv.verifyOCRCode,
        'csv': rv.verifyCSV}[fmt]


def check(rep, fmt, text, what, want=None):
    rep.ev()
    rep.state((fmt, text) if '\ud800' not in repr(text) else repr((fmt, text)))
    if want is None:
        want = judge(fmt, text)
    v, e = drive.outcome(FMT[fmt], text)
    name = type(e).__name__ if e is not None else 'ok'
    rep.outcome(name)
    w = '%s %s: %r' % (fmt, what, text if len(repr(text)) < 300 else repr(text)[:300])
    if e is not None:
        if not isinstance(e, receipt.ReceiptException):
            rep.fail('%s: %r' % (w, e))
            return
        try:
            str(e), repr(e)
        except Exception as x:
            rep.fail('%s: message %r' % (w, x))
        if want is True:
            rep.fail('%s: rejected with %r' % (w, e))
        elif want != 'any' and '?' not in want and name not in want:
            rep.fail('%s: %s, expected %s' % (w, name, sorted(want)))
        # verification must say the same
        v, e2 = drive.outcome(ver(fmt), text)
        if type(e2) is not type(e):
            rep.fail('%s: parsing fails with %s, verification with %r' % (w, name, e2))
    elif isinstance(want, set):
        rep.fail('%s: accepted, expected %s' % (w, sorted(want)))
    elif want is True:
        rep.expect(v[1], 'R1', w)


def allfmt(rep, f, what, fmts=('jws', 'qr', 'ocr', 'csv')):
    for fmt in fmts:
        check(rep, fmt, build(fmt, f), what)


def words(alpha, n):
    for k in range(n + 1):
        for t in itertools.product(alpha, repeat=k):
            yield ''.join(t)


def cases():
    ret = []
    for b in BASES:
        for fmt in FMT:
            L = len(build(fmt, BASES[b]))
            ret += [['chars', b, fmt, a, min(L, a + 25)] for a in range(0, L + 1, 25)]
        for seg in ALPHA:
            alpha, n = ALPHA[seg]
            for c in alpha:
                ret.append(['words', b, seg, c])
        ret += [['sums', b, i] for i in range(5)]
        ret += [['date', b, y] for y in (0, 1, 1900, 2000, 2016, 2017, 9999)]
        ret += [['bin', b, i] for i in (9, 11)]
        ret += [['pairs', b, i] for i in range(12)]
        ret += [['count', b], ['alg', b], ['serial', b], ['time', b], ['sig', b], ['header', b]]
        ret += [['ctor', b, i] for i in range(12)]
    ret += [['types'], ['b64'], ['long'], ['signing']]
    return ret


def b32text(fmt, seg, f, raw):
    """OCR with a raw text in a binary segment."""
    t = build(fmt, f).split('_')
    t[seg + 1] = raw
    return '_'.join(t)


def ctor(rep, f, what, want=None):
    """A receipt made from the fields themselves (as a cash register does) is as well-formed as
    one read from a text: whatever is accepted must be what its own texts are read as."""
    rep.ev()
    rep.state(('ctor', repr(f)))
    if want is None:
        # an empty counter or chain value is filled in later, and the width of the chain value is
        # only known once it is read
        g = list(f)
        g[9] = g[9] or OPEN[9]
        g[11] = OPEN[11] if b64(g[11]) is not None else g[11]
        want = judge('jws', build('jws', g))
        if any('_' in x for x in f):
            want = {'MalformedReceiptException', 'CertSerialInvalidException',
                'InvalidCertificateProviderException'}
        if want is True and g[11] != f[11]:
            want = 'any'
    v, e = drive.outcome(receipt.Receipt, f[0][3:] if isinstance(f[0], str) else f[0], *f[1:])
    name = type(e).__name__ if e is not None else 'ok'
    rep.outcome(name)
    w = 'made from fields, %s: %r' % (what, f)
    if e is not None:
        if not isinstance(e, receipt.ReceiptException):
            rep.fail('%s: %r' % (w, e))
        elif want is True:
            rep.fail('%s: rejected with %r' % (w, e))
        elif want != 'any' and '?' not in want and name not in want:
            rep.fail('%s: %s, expected %s' % (w, name, sorted(want)))
        return
    if isinstance(want, set) and '?' not in want:
        rep.fail('%s: accepted, expected %s' % (w, sorted(want)))
        return
    if want is not True or not f[9]:
        return
    v.sign(ref.HEADER, ref.b64u(SIG))
    for fmt, to in (('jws', v.toJWSString), ('qr', v.toBasicCode), ('ocr', v.toOCRCode)):
        t = to('R1')
        rep.expect(t, build(fmt, f), '%s as %s' % (w, fmt))
        x, e = drive.outcome(FMT[fmt], t)
        rep.expect((x[0].registerId, x[0].receiptId) if e is None else repr(e), (f[1], f[2]),
            '%s: read back from %s' % (w, fmt))


BADS = {0: ['R1-AT', 'R2-AT1', 'R1AT1', 'R1-AT0', 'R1-AT1', 'r1-AT1'], 1: [''], 2: [''],
    3: ['', '2017-02-29T00:00:00', '2017-02-28 00:00:00'], 4: ['', '1', '1,0', '01,00', '1.00'],
    5: ['', '+1,00'], 6: ['--1,00'], 7: ['0,000'], 8: ['a'], 9: ['', 'VFJB', 'VFJC', 'AA==', '!'],
    10: ['', 'xyz', 'U:ATU1', '5a'], 11: ['', 'AAAA', 'AAECAwQFBgcI', '!']}


def run(case, rep):
    kind = case[0]
    f0 = BASES[case[1]] if len(case) > 1 else OPEN

    def w(i, v):
        f = list(f0)
        f[i] = v
        return f
    if kind == 'chars':
        fmt = case[2]
        t = build(fmt, f0)
        if case[3] == 0:
            check(rep, fmt, t, 'base', True)
        for i in range(case[3], case[4]):
            for m in [t[:i] + t[i + 1:], t[:i] + t[i:i + 1] + t[i:], t[:i], t[i:], t[:i] + t[i:].swapcase()]:
                check(rep, fmt, m, 'char %d' % i)
            for c in CHARS:
                check(rep, fmt, t[:i] + c + t[i + 1:], 'char %d' % i)
                check(rep, fmt, t[:i] + c + t[i:], 'char %d' % i)
        if fmt == 'jws':
            # the payload character by character
            p = '_' + '_'.join(f0)
            for i in range(case[3], min(case[4], len(p))):
                for c in CHARS[:-3] + ['']:
                    for q in (p[:i] + c + p[i + 1:], p[:i] + c + p[i:]):
                        if '\ud800' not in q:
                            check(rep, fmt, ref.jws(q, SIG), 'payload char %d' % i)
                for b in (b'\xff', b'\xc3', b'\x80', b'\xed\xa0\x80'):
                    q = p[:i].encode() + b + p[i + 1:].encode()
                    s = t.split('.')
                    check(rep, fmt, '.'.join([s[0], ref.b64u(q), s[2]]), 'payload byte %d' % i)
    elif kind == 'words':
        seg, first = case[2], case[3]
        alpha, n = ALPHA[seg]
        n += 1 if env.THOROUGH else 0
        for s in words(alpha, n - 1):
            f = w(seg, first + s)
            allfmt(rep, f, 'segment %d' % seg, ('qr', 'jws') if len(s) < 4 else ('qr',))
    elif kind == 'sums':
        i = 4 + case[2]
        vals = ['%s%s,%s' % (a, b, c) for a in ('', '-', '+', '--', ' ') for b in
            ('', '0', '1', '9', '00', '01', '10', '99', '100', '123456789012345678901234567890',
            '0' * 20, '1' + '0' * 290, '1' + '0' * 320, '1' + '0' * 340, '1.000', '1,000', '1e5', '0x1', 'inf', 'nan')
            for c in ('', '0', '00', '99', '000', '-1', '0 ', 'ab', '1e', '\u0661\u0662')]
        vals += ['', ',', '0', '0.00', 'nan', 'inf', '1e3', '0,00\n', '\n0,00', '0,00 ', ' 0,00', '1_0,00']
        for v in vals:
            allfmt(rep, w(i, v), 'sum %d' % i)
    elif kind == 'date':
        y = case[2]
        for m in range(0, 14):
            for d in range(0, 33):
                s = '%04d-%02d-%02dT%02d:%02d:%02d' % (y, m, d, d % 24, m, d)
                allfmt(rep, w(3, s), 'date', ('qr',) if d not in (0, 1, 28, 29, 30, 31) else FMT)
    elif kind == 'time':
        for h in range(0, 26):
            for m in (0, 1, 59, 60, 61, 99):
                for s in (0, 59, 60, 61, 62, 99):
                    allfmt(rep, w(3, '2017-06-15T%02d:%02d:%02d' % (h, m, s)), 'time', ('qr', 'jws'))
        for s in ('2017-06-15', '2017-06-15T12:00', '2017-06-15T12:00:00Z', '2017-06-15T12:00:00.0',
                '2017-06-15T12:00:00+01:00', '17-06-15T12:00:00', '20170615T120000',
                '2017/06/15T12:00:00', '15.06.2017T12:00:00', '-2017-06-15T12:00:00',
                '+2017-06-15T12:00:00', '12017-06-15T12:00:00', '2017-06-15T12:00:00 ',
                ' 2017-06-15T12:00:00', '2017-06-15TT12:00:00', '2017-06-15T12:00:0a', 'now', '0'):
            allfmt(rep, w(3, s), 'date')
    elif kind == 'bin':
        i = case[2]
        for n in range(0, 24):
            for fill in (b'\x00', b'\xff', b'A'):
                import base64
                allfmt(rep, w(i, base64.b64encode(fill * n).decode()), '%d bytes' % n)
        for v in (b'TRA', b'STO', b'tra', b'TRb', b'STOR', b'TRA\x00', b'TRAIN', b'STORNO', b'TR', b'ST'):
            allfmt(rep, w(i, base64.b64encode(v).decode()), 'special')
        t = f0[i]
        for s in words('A/=+-_.', 4 if not env.THOROUGH else 5):
            check(rep, 'qr', build('qr', w(i, s)), 'base 64')
            check(rep, 'jws', build('jws', w(i, s)), 'base 64')
        for k in range(len(t) + 1):
            for c in '=A-_!\u00e4 ':
                check(rep, 'qr', build('qr', w(i, t[:k] + c + t[k + 1:])), 'base 64')
                check(rep, 'qr', build('qr', w(i, t[:k] + c + t[k:])), 'base 64')
        for s in words('A7=01a', 4 if not env.THOROUGH else 5):
            check(rep, 'ocr', b32text('ocr', i, f0, s), 'base 32')
            check(rep, 'ocr', b32text('ocr', i, f0, 'AEBAGBAF' + s), 'base 32')
        check(rep, 'ocr', build('qr', f0), 'qr as ocr')
        check(rep, 'ocr', build('ocr', f0).lower(), 'lower case')
    elif kind == 'pairs':
        for j in range(12):
            f = list(f0)
            f[case[2]], f[j] = f[j], f[case[2]]
            allfmt(rep, f, 'swapped %d %d' % (case[2], j))
            for a in BADS[case[2]]:
                for b in BADS[j]:
                    f = w(case[2], a)
                    f[j] = b
                    allfmt(rep, f, 'segments %d %d' % (case[2], j))
    elif kind == 'count':
        for n in range(0, 15):
            allfmt(rep, f0[:n], '%d segments' % n)
            allfmt(rep, f0[n:], 'without first %d' % n)
            allfmt(rep, f0[:n] + [''] + f0[n:], 'empty segment')
            allfmt(rep, f0[:n] + ['x'] + f0[n:], 'extra segment')
            allfmt(rep, f0 + ['x'] * n, '%d more' % n)
        for fmt in FMT:
            t = build(fmt, f0)
            for pre in ('', '_', '__', 'x_', ' ', '\ufeff', ';', '.'):
                for s in (t, t[1:]):
                    for suf in ('', '_', '__', ';', '.', '..', ' '):
                        check(rep, fmt, pre + s + suf, 'affixes')
            for other in FMT:
                check(rep, other, t, 'other format')
            for a, b in (('_', ';'), (';', '_'), ('.', '_'), ('.', ''), ('_', '__'), (';', ';;')):
                check(rep, fmt, t.replace(a, b), 'separator')
    elif kind == 'alg':
        for a in ('', 'R', 'R0', 'R1', 'R2', 'R10', 'R01', 'r1', 'S1', 'R1 ', ' R1', 'RR1', 'R-1',
                'R1\n', 'R999999', 'R\u0661', 'R1a', '1'):
            for sep in ('-', '', '--', '_', ' - ', '\u2013'):
                for z in ('', 'AT0', 'AT1', 'AT9', 'AT10', 'AT01', 'AT00', 'AT', 'A1', 'ATA1', 'at1', 'DE0',
                        'DE1', 'ZZ99', 'AT-1', 'AT1 ', '\u00c4T1', 'AT1\n', 'AT0\n', '0', 'AT\u0661', 'AT1x'):
                    allfmt(rep, w(0, a + sep + z), 'algorithm', ('jws', 'qr'))
    elif kind == 'serial':
        vals = [p + v + s for p in ('', '-', '--', '+', ' ') for v in ('0', '5a1f', '5A1F', '20171234',
            '0x5a', 'g', '5a g', 'f' * 64, 'f' * 5000, '9' * 5000, 'S:123456789', 'S:12345678',
            'S:1234567890', 'S:12345678a', 's:123456789', 'S;123456789', 'S123456789', 'U:', 'U:1', 'U:ATU12345678',
            'U:atu12345678', 'U:ATU1234567 8', 'U:' + 'A' * 14, 'U:' + 'A' * 15, 'G:1234567890123',
            'G:123456789012', 'G:12345678901234', 'G:123456789012a', 'X:1234', ':', 'U', 'S:', 'G:',
            'U:\u00c4TU1', 'S:\u0661\u0661\u0661\u0661\u0661\u0661\u0661\u0661\u0661')
            for s in ('', '-', '-K0', '-1', '-a-b', '- ', '-\u00e4', '-_', '-K0-')]
        for v in vals:
            for z in ('R1-AT0', 'R1-AT1'):
                f = w(10, v)
                f[0] = z
                allfmt(rep, f, 'serial', ('qr', 'ocr'))
    elif kind == 'sig':
        for n in range(0, 70):
            for fmt in FMT:
                check(rep, fmt, build(fmt, f0, bytes([n]) * n), 'signature of %d bytes' % n)
        j = build('jws', f0).split('.')
        for s in words('A-_+/=.', 4):
            check(rep, 'jws', '.'.join(j[:2] + [s]), 'signature')
            check(rep, 'jws', '.'.join(j[:2] + [j[2][:40] + s]), 'signature')
        q = build('qr', f0).rsplit('_', 1)[0] + '_'
        o = build('ocr', f0).rsplit('_', 1)[0] + '_'
        for s in words('A+/=-_', 4):
            check(rep, 'qr', q + s, 'signature')
            check(rep, 'csv', (q + s)[1:].replace('_', ';'), 'signature')
        for s in words('A7=1a', 5):
            check(rep, 'ocr', o + s, 'signature')
            check(rep, 'ocr', o + 'AEBAGBAF' + s, 'signature')
    elif kind == 'header':
        j = build('jws', f0).split('.')
        H = ref.HEADER
        hs = ['', ' ', '{}', H + ' ', ' ' + H, H + '\n', H.replace(':', ': '), '{"alg":"none"}',
            '{"alg":"HS256"}', '{"alg":"ES384"}', '{"alg":"es256"}', '{"typ":"JWT","alg":"ES256"}',
            '{"alg":"ES256","typ":"JWT"}', '{"alg":"ES256","alg":"none"}', '[]', 'null', '"ES256"',
            'ES256', '{"ALG":"ES256"}', '\u00e4', H[:-1], H[1:], H + H, '{"alg":"R1"}', '\x00' + H]
        for i in range(len(H)):
            hs += [H[:i] + c + H[i + 1:] for c in 'a0"{ \u00e4'] + [H[:i] + H[i + 1:]]
        for h in hs:
            check(rep, 'jws', '.'.join([ref.b64u(h.encode())] + j[1:]), 'header')
        for b in (b'\xff', b'\xc3', H.encode() + b'\xff', H.encode('utf-16'), b'\xef\xbb\xbf' + H.encode()):
            check(rep, 'jws', '.'.join([ref.b64u(b)] + j[1:]), 'header')
        for a, b, c in itertools.product((j[0], '', 'A', '!', 'AA=', j[1]), (j[1], '', 'A', '!', 'AA=',
                j[0]), (j[2], '', 'A', '!', 'AA=', j[0])):
            check(rep, 'jws', '.'.join((a, b, c)), 'segments')
    elif kind == 'ctor':
        i = case[2]
        ctor(rep, f0, 'base', True)
        t = f0[i] if i else f0[0][3:]
        vals = ['', '_', t + '_', '_' + t, t[:1] + '_' + t[1:], t + '\n', t * 2, t.lower(), t.upper()]
        for k in range(len(t) + 1):
            vals += [t[:k] + t[k + 1:], t[:k], t[k:]]
            for c in CHARS:
                if c != '\ud800':
                    vals += [t[:k] + c + t[k + 1:], t[:k] + c + t[k:]]
        vals += BADS[i] if i else [x[3:] for x in BADS[0] if x.startswith('R1-')]
        if i in ALPHA or 4 <= i <= 8:
            vals += words(*((ALPHA[4] if 4 <= i <= 8 else ALPHA[i])[0], 3))
        for v in vals:
            ctor(rep, f0[:i] + [('R1-' if not i else '') + v] + f0[i + 1:], 'field %d' % i)
            for b in BADS if v in vals[:6] else ():
                for x in BADS[b]:
                    f = f0[:i] + [('R1-' if not i else '') + v] + f0[i + 1:]
                    if b != i and (b or x.startswith('R1-')):
                        f[b] = x
                        ctor(rep, f, 'fields %d and %d' % (i, b))
        for v in (None, 0, 1.5, True, b'x', t.encode(), [], (), {}, object()):
            ctor(rep, f0[:i] + [v] + f0[i + 1:], 'type', {'MalformedReceiptException'})
    elif kind == 'signing':
        good = ref.b64u(SIG)
        for h in (ref.HEADER, '', '{}', None, 1, b'x', [], ref.HEADER.encode()):
            for g in (good, '', good[:-1], good[:-2], good + '=', good + '==', '!', '\u00e4', 'A', 'AA', 'AAA',
                    'A\n', good.replace('-', '+').replace('_', '/'), 'a+b/', None, 1, b'AA', []):
                rep.ev()
                r = receipt.Receipt(f0[0][3:], *f0[1:])
                v, e = drive.outcome(r.sign, h, g)
                ok = isinstance(h, str) and isinstance(g, str) and b64url(g) not in (None, 'any')
                odd = isinstance(g, str) and b64url(g) == 'any'
                rep.state(('sign', repr(h), repr(g)))
                rep.outcome(type(e).__name__ if e else 'ok')
                if ok != (e is None) and not (odd and isinstance(h, str)) or \
                        e is not None and type(e) is not receipt.MalformedReceiptException:
                    rep.fail('signing with %r and %r: %r' % (h, g, e))
                rep.expect(r.signed, e is None, 'signed after %r %r' % (h, g))
    elif kind == 'types':
        for v in (None, True, 0, 1.5, b'x', build('jws', OPEN).encode(), [], {}, ['a'], object(), ()):
            for fmt in FMT:
                check(rep, fmt, v, 'type', {'MalformedReceiptException'})
        for v in ('', ' ', '\n', '\x00', '\ud800', '_', '__', '.', '..', '...', ';', '_' * 13, ';' * 12,
                ';' * 13, '_' * 14, '\U0001f4b6', '_' * 100000, ';' * 100000, '.' * 100000):
            for fmt in FMT:
                check(rep, fmt, v, 'text')
        for n in range(0, 20):
            for fmt in FMT:
                for c in '_;.':
                    check(rep, fmt, c * n, 'separators')
    elif kind == 'b64':
        # every byte value in every binary field
        import base64
        for b in range(256):
            for i in (9, 11):
                for n in (8,):
                    allfmt(rep, OPEN[:i] + [base64.b64encode(bytes([b]) * n).decode()] + OPEN[i + 1:],
                        'byte %d' % b)
            for fmt in FMT:
                check(rep, fmt, build(fmt, OPEN, bytes([b]) * 64), 'signature byte %d' % b)
                if b:
                    check(rep, fmt, build(fmt, OPEN[:1] + ['x' + chr(b)] + OPEN[2:]), 'register char %d' % b)
                    check(rep, fmt, build(fmt, OPEN[:2] + [chr(b) + 'x'] + OPEN[3:]), 'id char %d' % b)
    elif kind == 'long':
        for n in (1000, 100000):
            for i in range(12):
                for c in '0aA,':
                    allfmt(rep, OPEN[:i] + [OPEN[i] + c * n] + OPEN[i + 1:], 'long %d' % i, ('qr', 'jws'))
    rep.sample(case)
