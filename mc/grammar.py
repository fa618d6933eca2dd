"""Reference grammar of receipts in all formats, independent of librksv."""
import base64
import binascii
import re

from . import ref

MAL = 'MalformedReceiptException'
ALPHA64 = set('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/')
ALPHA32 = set('ABCDEFGHIJKLMNOPQRSTUVWXYZ234567')


def _dec(s, alphabet, dec, enc):
    """-> bytes, None (invalid) or 'any' (sloppy: stray bits, excess padding)"""
    body = s.rstrip('=')
    if not set(body) <= alphabet:
        # (a trailing newline is tolerated by the regular expressions)
        return 'any' if s.endswith('\n') and set(s[:-1].rstrip('=')) <= alphabet else None
    try:
        b = dec(s)
    except (binascii.Error, ValueError):
        return None
    return b if enc(b).decode() == s else 'any'


def b64(s):
    return _dec(s, ALPHA64, base64.b64decode, base64.b64encode)


def b32(s):
    return _dec(s, ALPHA32, base64.b32decode, base64.b32encode)


def b64url(s):
    """Without padding."""
    if '=' in s:
        return None
    if '+' in s or '/' in s:
        return None
    t = s.replace('-', '+').replace('_', '/')
    return b64(t + '=' * (-len(t) % 4))


def num(s):
    m = re.fullmatch(r'-?(0|[1-9][0-9]*),[0-9][0-9]', s)
    if m:
        return len(s) < 300 or ('any' if len(s) < 330 else False)
    if not s.isascii() or s.endswith('\n'):
        return 'any'
    return False


def date(s):
    m = re.fullmatch(r'([0-9]{4})-([0-9]{2})-([0-9]{2})T([0-9]{2}):([0-9]{2}):([0-9]{2})', s)
    if m:
        y, mo, d, h, mi, se = map(int, m.groups())
        if y < 1 or not 1 <= mo <= 12 or d < 1 or h > 23 or mi > 59 or se > 59:
            return False
        leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
        return d <= (31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)[mo - 1]
    if re.fullmatch(r'[0-9]{4}-[0-9 ]{1,2}-[0-9 ]{1,2}T[0-9 ]{1,2}:[0-9 ]{1,2}:[0-9 ]{1,2}', s,
            re.I) or not s.isascii():
        return 'any'        # not padded, tolerated
    if s.upper() != s and date(s.upper()):
        return 'any'        # t instead of T, tolerated
    return False


def serial(s, zda):
    """True, 'any' or the exception"""
    INV, PROV = 'CertSerialInvalidException', 'InvalidCertificateProviderException'
    if not s:
        return MAL
    if not s.isascii() or s != s.strip():
        return 'any'
    neg = s[0] == '-' and '-' not in s[1:]
    t = s[1:] if neg else s
    base, dash, suffix = t.partition('-')
    if dash and not re.fullmatch('[A-Za-z0-9]+', suffix):
        return INV
    if re.fullmatch('S:[0-9]{9}|U:[A-Z0-9]{1,14}|G:[0-9]{13}', base):
        typ = 'closed'
    elif re.fullmatch('[0-9A-Fa-f]+', base):
        typ = 'open'
    elif re.fullmatch(r'\s*[-+]?(0[xX])?[0-9A-Fa-f]+\s*', base):
        return 'any'
    else:
        return INV
    if neg and typ == 'closed':
        return 'any'
    if (typ == 'closed') != (zda == 'AT0'):
        return PROV
    return True


def fields(f):
    """Judge the 12 payload fields -> True, 'any' or set of exceptions."""
    bad, unsure = set(), False
    a = f[0].split('-')
    if len(a) != 2:
        return {MAL}
    if not re.fullmatch('R[1-9][0-9]*', a[0]):
        if not a[0].isascii() or a[0].endswith('\n'):
            bad.add('UnknownAlgorithmException')
        bad.add(MAL)
    elif a[0] != 'R1':
        bad.add('UnknownAlgorithmException')
    zda = a[1]
    if not re.fullmatch('[A-Z][A-Z][1-9][0-9]*|AT0', zda):
        if zda.isascii() and not zda.endswith('\n'):
            bad.add(MAL)
        else:
            unsure = True
    if not f[1] or not f[2]:
        bad.add(MAL)
    for v in [date(f[3])] + [num(s) for s in f[4:9]]:
        if v is False:
            bad.add(MAL)
        elif v == 'any':
            unsure = True
    tc = b64(f[9])
    if tc is None or tc == b'':
        bad.add(MAL)
    elif tc == 'any':
        unsure = True
    elif not 5 <= len(tc) <= 16 and tc not in (b'TRA', b'STO'):
        bad.add(MAL)
    v = serial(f[10], zda)
    if v == 'any':
        unsure = True
    elif v is not True:
        bad.add(v)
    ch = b64(f[11])
    if ch is None:
        bad.add(MAL)
    elif ch == 'any':
        unsure = True
    elif len(ch) != 8:
        bad.add(MAL)
    if unsure:
        # tolerated or rejected, whatever else may be wrong
        return bad | {'?'} if bad else 'any'
    return bad or True


def judge(fmt, s):
    """True (well-formed), 'any', or the set of exceptions that may be raised."""
    try:
        s.encode('utf-8')
    except UnicodeEncodeError:
        return {MAL}
    if fmt == 'jws':
        seg = s.split('.')
        if len(seg) != 3:
            return {MAL}
        h, p, g = (b64url(x) for x in seg)
        if any(x.endswith('=') for x in seg):
            return {MAL}
        bad, unsure = set(), 'any' in (h, p, g)
        if None in (h, p, g):
            bad.add(MAL)
        if h in (None, 'any'):
            if h == 'any':
                return {MAL, 'AlgorithmMismatchException', '?'} if bad else 'any'
        elif h != ref.HEADER.encode():
            try:
                h.decode('utf-8')
                bad.add('AlgorithmMismatchException')
            except UnicodeDecodeError:
                bad.add(MAL)
        if p == 'any':
            return bad | {'?'} if bad else 'any'
        if p is not None:
            try:
                f = p.decode('utf-8').split('_')
            except UnicodeDecodeError:
                return bad | {MAL}
            if len(f) != 13 or f[0]:
                return bad | {MAL}
            v = fields(f[1:])
            if v == 'any':
                unsure = True
            elif v is not True:
                bad |= v
        if bad:
            return bad | ({'?'} if unsure else set())
        return 'any' if unsure else True
    if fmt == 'csv':
        f = s.split(';')
        if any(x != x.strip() for x in f):
            return judge_csv_space(f)
        return judge('qr', '_' + '_'.join(f))
    f = s.split('_')
    if len(f) != 14 or f[0]:
        return {MAL}
    bad, unsure = set(), False
    if fmt == 'ocr':
        for i in (10, 12, 13):
            b = b32(f[i])
            if b is None:
                bad.add(MAL)
                f[i] = 'VFJB' if i == 10 else 'AAAAAAAAAAA='
            elif b == 'any':
                unsure = True
                f[i] = 'VFJB' if i == 10 else 'AAAAAAAAAAA='
            else:
                f[i] = base64.b64encode(b).decode()
    v = fields(f[1:13])
    if v == 'any':
        unsure = True
    elif v is not True:
        bad |= v
    g = b64(f[13])
    if g is None:
        bad.add(MAL)
    elif g == 'any':
        unsure = True
    if bad:
        return bad | ({'?'} if unsure else set())
    return 'any' if unsure else True


def judge_csv_space(f):
    v = judge('csv', ';'.join(x.strip() for x in f))
    return 'any' if v is True else v
