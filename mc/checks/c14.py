"""C14: malformed DEPs are rejected with a DEP error."""
import base64
import copy
import io
import json
import subprocess
import sys

from cryptography import x509
from cryptography.hazmat.backends import default_backend

from .. import drive, env, ref
from ..drive import RKSVException, depparser
from .c13 import Pipe, certid

ID = 'C14'
LEVEL = 'exploration'
RULE = ('two base documents (2 and 3 groups, both element orders): every node replaced by each of '
    '24 JSON values, every member removed, renamed, repeated or moved, every list element '
    'repeated or removed (single and pairs of edits); every truncation, every byte deleted, '
    'replaced by and preceded by each of 18 bytes, every certificate byte replaced by 4 values, whole-document '
    'corruptions, numbers of any size in every place; through 5 parsers x chunk sizes x seekable/pipe, and verification; oracle: '
    'strict JSON reader and structure rules. Non-trivial: distinct corrupted documents')

VALUES = [None, True, False, 0, -1, 1.5, 10 ** 30, '', ' ', 'x', '\u00e4', '\ud800', [], {}, [[]],
    [None], [{}], ['x'], [''], {'a': 1}, {'Belege-Gruppe': []}, [[['x']]], 'AAAA',
    ref.cert_b64('root0')]
BYTES = [b'{', b'}', b'[', b']', b'"', b',', b':', b'\\', b'\x00', b'\xff', b'\x80', b'\xc3', b'0',
    b'-', b'n', b' ', b'\n', b'\xef\xbb\xbf']
KEYS = ('Signaturzertifikat', 'Zertifizierungsstellen', 'Belege-kompakt')


def base(n):
    """Documents with certificates before or after the receipts."""
    R = ref.Register()
    js = [R.make()[0]] + [R.make('std', i)[0] for i in range(4)]
    if n == 0:
        gs = [('leaf0self', [], js[:2]), ('leaf0self', [], js[2:])]
        order = (0, 1, 2)
    else:
        gs = [('leaf0self', ['root0'], js[:2]), ('leaf0self', [], []), ('leaf0self', [], js[2:])]
        order = (2, 1, 0)
    out = []
    for c, ch, rs in gs:
        el = [(KEYS[0], ref.cert_b64(c)), (KEYS[1], [ref.cert_b64(x) for x in ch]), (KEYS[2], rs)]
        out.append(dict(el[o] for o in order))
    return {'Belege-Gruppe': out}


def short(n):
    """The same with short strings, for corruption byte by byte."""
    r = lambda *a: ['r' + x for x in a]
    if n == 0:
        return {'Belege-Gruppe': [{KEYS[0]: '', KEYS[1]: [], KEYS[2]: r('1', '2')},
            {KEYS[0]: '', KEYS[1]: [], KEYS[2]: r('3', '4', '5')}]}
    return {'a': {'b': [1, None, {'c': 'd'}]}, 'Belege-Gruppe': [
        {KEYS[2]: r('1', '2'), KEYS[1]: [], KEYS[0]: ''}, {KEYS[2]: [], KEYS[0]: '', KEYS[1]: []},
        {KEYS[2]: r('\u00e4'), KEYS[1]: [], 'x': {'y': 'z'}, KEYS[0]: ''}], 'z': 2}


def paths(d, p=()):
    yield p
    if isinstance(d, dict):
        for k in d:
            yield from paths(d[k], p + (k,))
    elif isinstance(d, list):
        for i in range(len(d)):
            yield from paths(d[i], p + (i,))


def get(d, p):
    for k in p:
        d = d[k]
    return d


def put(d, p, v):
    if not p:
        return v
    d = copy.deepcopy(d)
    get(d, p[:-1])[p[-1]] = v
    return d


def cert_ok(s):
    """-> certificate, or None if it is none (judged by the X.509 library)"""
    if not isinstance(s, str):
        return None
    if s == ref.cert_b64('leaf0self'):
        return ref.cert('leaf0self')
    try:
        return x509.load_pem_x509_certificate(('-----BEGIN CERTIFICATE-----\n%s\n'
            '-----END CERTIFICATE-----' % s).encode(), default_backend())
    except (ValueError, x509.InvalidVersion):
        return None


def expected(d):
    """Receipts with certificates of a document, or None if it is malformed."""
    if not isinstance(d, dict) or not isinstance(d.get('Belege-Gruppe'), list):
        return None
    out = []
    for g in d['Belege-Gruppe']:
        if not isinstance(g, dict) or any(k not in g for k in KEYS):
            return None
        s, z, b = (g[k] for k in KEYS)
        if not isinstance(s, str) or not isinstance(z, list) or not isinstance(b, list):
            return None
        c = None
        if s:
            c = cert_ok(s)
            if c is None:
                return None
        ch = [cert_ok(x) for x in z]
        if None in ch:
            return None
        for r in b:
            if not isinstance(r, str):
                return None
            try:
                out.append((r.encode(), c, tuple(ch)))
            except UnicodeEncodeError:
                return None
    return out or None


def parse(rep, make, cs, want, kind, what, exact=True):
    """want: list or None (must be rejected) or 'any' (must not crash)."""
    rep.ev()
    p, e = drive.outcome(make)
    chunks = None
    if e is None:
        chunks, e = drive.outcome(lambda: list(p.parse(cs)))
    rep.outcome(type(e).__name__ if e else 'ok')
    w = '%s, %s parser, chunk size %d' % (what, kind, cs)
    if e is not None:
        if not isinstance(e, depparser.DEPParseException):
            rep.fail('%s: %r' % (w, e))
        elif want not in (None, 'any') and exact:
            rep.fail('%s: rejected a valid document with %r' % (w, e))
        return
    if want is None:
        rep.fail('%s: accepted' % w)
    elif want != 'any':
        got = [(r, c, tuple(ch)) for chunk in chunks for rs, c, ch in chunk for r in rs]
        if kind == 'certless':
            got, want = [x[0] for x in got], [x[0] for x in want]
        rep.expect(got, want, w)


def node_doc(rep, d, what, wide, verify=True):
    """A (possibly malformed) JSON value in place of a DEP."""
    want = expected(d)
    rep.state(repr(d))
    try:
        data = json.dumps(d).encode('utf-8')
    except UnicodeEncodeError:
        data = None
    # how a lone surrogate (not a character) is read is up to the JSON library
    inc = 'any' if want is None and data and b'\\ud8' in data else want
    for cs in (0, 1, 2, 3) if wide else (0, 2):
        for np in (1, 3) if not cs else (1,):
            parse(rep, lambda: depparser.DictDEPParser(d, np), cs, want, 'dict', what)
        if data is None:
            continue
        if wide or cs:
            parse(rep, lambda: depparser.FullFileDEPParser(io.BytesIO(data)), cs, want, 'full', what)
        parse(rep, lambda: depparser.IncrementalDEPParser.fromFd(io.BytesIO(data)), cs, inc, 'file',
                what)
        parse(rep, lambda: depparser.IncrementalDEPParser.fromFd(Pipe(data)), cs, inc, 'stream',
                what, False)
        parse(rep, lambda: depparser.IncrementalDEPParser.fromFd(Pipe(data), False), cs, inc,
                'certless', what)
    if verify:
        for res in (drive.verify_dep(d, KS, ref.AESKEY), drive.verify_parsed(d, KS, ref.AESKEY,
                chunksize=2)):
            rep.ev()
            if not res.ok and not res.documented:
                rep.fail('%s: verification failed with %s' % (what, res.show()))
            if want is None and res.ok:
                rep.fail('%s: verified' % what)
            if want is None and not res.ok and res.name.startswith('Malformed') is False \
                    and not res.name.startswith('Missing'):
                pass        # receipts before the malformed place may be wrong, too


KS = ref.keystore(['leaf0self'])

# (JSON allows any number of digits and any exponent.)
NUMBERS = ['1e400', '-1E400', '1e-400', '1E+99999999999999999999', '-1e99999999999999999999',
    '1e-99999999999999999999', '0e99999999999999999999', '1.5e1000000', '0.' + '1' * 5000, '-0', '-0.0',
    '1' * 4300, '-' + '9' * 4300, '9223372036854775807', '9223372036854775808', '-9223372036854775809',
    '18446744073709551616', '1' * 400 + '.5', '1e999999999999999999', '1e1000000000000000000']
# The number is a receipt of the whole history, or is in an element without meaning.
ONE = '''
import io, resource, sys
resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
sys.path.insert(0, sys.argv[1])
from librksv import gettext_helper
gettext_helper.install()
from librksv import depparser
cls = getattr(depparser, sys.argv[2])
try:
    p = cls(io.BytesIO(sys.stdin.buffer.read()))
    list(p.parse(0))
    print('accepted')
except depparser.DEPParseException as e:
    print('rejected')
'''


def number_docs(num):
    """-> (place, document, expected) for a JSON number"""
    d = base(0)
    good = json.dumps(d).encode()
    want = expected(d) if num[:5] not in (b'1e999', b'-1e99', b'1E+99', b'1e-99', b'0e999', b'1e100') \
        and len(num) < 4300 else 'any'
    yield 'in an extra element', b'{"x": ' + num + b', ' + good[1:], want
    yield 'after the groups', good[:-1] + b', "x": ' + num + b'}', want
    yield 'in a group', good.replace(b'{"Signatur', b'{"x": [' + num + b'], "Signatur', 1), want
    js = json.dumps(d['Belege-Gruppe'][0][KEYS[2]][0]).encode()
    yield 'as a receipt', good.replace(js, num, 1), None
    cb = json.dumps(ref.cert_b64('leaf0self')).encode()
    yield 'as a certificate', good.replace(cb, num, 1), None
    yield 'as the chain', good.replace(b'[]', num, 1), None
    yield 'as an issuer', good.replace(b'[]', b'[' + num + b']', 1), None
    yield 'as the receipts', good.replace(b'"Belege-kompakt": [', b'"Belege-kompakt": ' + num + b', "x": [', 1), None
    yield 'as the groups', b'{"Belege-Gruppe": ' + num + b'}', None
    yield 'as the DEP', num, None


def cases():
    ret = []
    for n in (0, 1):
        ps = list(paths(base(n)))
        ret += [['node', n, i] for i in range(len(ps))]
        ret += [['pair', n, i] for i in range(len(ps))]
        ret += [['members', n]]
        L = len(json.dumps(short(n), ensure_ascii=False).encode())
        for a in range(0, L, 20):
            ret.append(['bytes', n, a, min(L, a + 20)])
        L = len(json.dumps(base(n)).encode())
        for a in range(0, L + 1, 200):
            ret.append(['trunc', n, a, min(L, a + 200)])
    n = len(base64.b64decode(ref.cert_b64('leaf0self')))
    ret += [['cert', a, min(n, a + 30)] for a in range(0, n, 30)]
    ret += [['misc'], ['deep']] + [['numbers', i] for i in range(len(NUMBERS))] + [['digits']]
    return ret


def nodes(d, i):
    return list(paths(d))[i]


def run(case, rep):
    kind = case[0]
    if kind == 'node':
        d = base(case[1])
        p = nodes(d, case[2])
        for v in VALUES:
            node_doc(rep, put(d, p, v), '%r = %r' % (p, v), True)
        if p:
            for what, e in edits(d, p):
                node_doc(rep, e, what, True)
        rep.sample([p, 'VALUES'])
    elif kind == 'pair':
        # two edits at once
        d = base(case[1])
        p = nodes(d, case[2])
        if not p:
            return
        vs = (None, [], {}, '', 'x') if env.THOROUGH else (None, [], '')
        for v in vs:
            e = put(d, p, v)
            for q in list(paths(e)):
                if not q or q == p or q[:len(p)] == p or p[:len(q)] == q:
                    continue
                for w in vs:
                    node_doc(rep, put(e, q, w), '%r = %r, %r = %r' % (p, v, q, w), False, False)
    elif kind == 'members':
        d = base(case[1])
        gs = d['Belege-Gruppe']
        # every subset of members in every group
        for g in range(len(gs)):
            for m in range(8):
                e = copy.deepcopy(d)
                e['Belege-Gruppe'][g] = {k: v for i, (k, v) in enumerate(gs[g].items())
                        if m >> i & 1}
                node_doc(rep, e, 'group %d members %d' % (g, m), True)
                for k in KEYS:
                    for alias in (k.lower(), k + ' ', k.upper(), k[:-1], k.replace('e', '\u00e9')):
                        f = copy.deepcopy(e)
                        f['Belege-Gruppe'][g] = {alias if x == k else x: v for x, v in
                                f['Belege-Gruppe'][g].items()}
                        node_doc(rep, f, 'group %d %s -> %s' % (g, k, alias), False)
        for alias in ('belege-gruppe', 'Belege-Gruppe ', 'Belege-Gruppen', '', 'Belege-kompakt'):
            node_doc(rep, {alias: gs}, 'root -> ' + alias, True)
            node_doc(rep, {'x': d}, 'nested', True)
            node_doc(rep, [d], 'list', True)
            node_doc(rep, gs, 'groups only', True)
        # all groups empty, no groups
        e = copy.deepcopy(d)
        for g in e['Belege-Gruppe']:
            g['Belege-kompakt'] = []
        node_doc(rep, e, 'no receipts', True)
        for v in VALUES:
            node_doc(rep, v, 'root %r' % (v,), True)
        # repeated members (text): never silently ignored by the incremental
        # parsers, never crash the others
        for g in gs[0]:
            t = json.dumps(d).replace('"%s":' % g, '"%s": %s, "%s":' % (g, json.dumps(gs[0][g]), g))
            raw(rep, t.encode(), 'any', 'repeated ' + g, (0, 1, 3))
            t = json.dumps(d).replace('"%s":' % g, '"%s": null, "%s":' % (g, g), 1)
            raw(rep, t.encode(), 'any', 'repeated null ' + g, (0, 1, 3))
            u = json.dumps(d).replace('"%s":' % g, '"%s": %s, "%s":' % (g, json.dumps(
                gs[0][g]), g), 1)
            for cs in (0, 1, 2, 3):
                for fd in (io.BytesIO, Pipe):
                    parse(rep, lambda: depparser.IncrementalDEPParser.fromFd(fd(u.encode())), cs,
                            None, fd.__name__, 'twice ' + g)
            for cs in (0, 2):
                parse(rep, lambda: depparser.FileDEPParser(io.BytesIO(t.encode())), cs, None, 'file',
                        'repeated ' + g)
        t = json.dumps(d)[:-1] + ', ' + json.dumps(d)[1:]
        raw(rep, t.encode(), 'any', 'repeated root', (0, 1))
        parse(rep, lambda: depparser.FileDEPParser(io.BytesIO(t.encode())), 0, None, 'file', 'repeated')
    elif kind == 'bytes':
        data = json.dumps(short(case[1]), ensure_ascii=False).encode()
        for i in range(case[2], case[3]):
            raw(rep, data[:i], None, 'truncated at %d' % i)
            check_bytes(rep, data[:i] + data[i + 1:], 'byte %d deleted' % i)
            for b in BYTES:
                check_bytes(rep, data[:i] + b + data[i + 1:], 'byte %d replaced by %r' % (i, b))
                check_bytes(rep, data[:i] + b + data[i:], '%r inserted at %d' % (b, i))
    elif kind == 'trunc':
        data = json.dumps(base(case[1])).encode()
        for i in range(case[2], case[3], 1 if env.THOROUGH else 3):
            raw(rep, data[:i], None, 'truncated at %d' % i, (0, 1, 4))
            if i % 15 == 0:
                raw(rep, data[i:], None if i else 'any', 'starting at %d' % i, (0, 2))
                raw(rep, data[:i] + b'\x00' * (len(data) - i), None, 'zeroed from %d' % i, (0, 2))
    elif kind == 'cert':
        der = base64.b64decode(ref.cert_b64('leaf0self'))
        d = base(1)
        for i in range(case[1], case[2]):
            for v in {der[i] ^ 1, 0, 0xff, der[i] ^ 0x80} - {der[i]}:
                bad = base64.b64encode(der[:i] + bytes([v]) + der[i + 1:]).decode()
                for p in (('Belege-Gruppe', 0, KEYS[0]), ('Belege-Gruppe', 0, KEYS[1], 0)):
                    node_doc(rep, put(d, p, bad), 'certificate byte %d = %d' % (i, v), False)
    elif kind == 'misc':
        good = json.dumps(base(0)).encode()
        for what, t in (('empty', b''), ('spaces', b'  \n'), ('bom', b'\xef\xbb\xbf'),
                ('zeros', b'\x00' * 50), ('xml', b'<?xml version="1.0"?>'),
                ('utf16', json.dumps(base(0)).encode('utf-16')),
                ('utf16le', json.dumps(base(0)).encode('utf-16-le')),
                ('utf32', json.dumps(base(0)).encode('utf-32')),
                ('twice', good + good), ('twice nl', good + b'\n' + good),
                ('trailing', good + b'x'), ('trailing brace', good + b'}'),
                ('trailing nul', good + b'\x00'), ('array', b'[' + good + b']'),
                ('array open', b'[' + good), ('half bom', b'\xef\xbb' + good),
                ('bom twice', b'\xef\xbb\xbf\xef\xbb\xbf' + good),
                ('bad utf8', good.replace(b'Belege-kompakt', b'Belege-komp\xe4kt')),
                ('comment', good[:1] + b'/*x*/' + good[1:]),
                ('single quotes', good.replace(b'"', b"'")),
                ('unquoted', good.replace(b'"Belege-kompakt"', b'Belege-kompakt')),
                ('trailing comma', good.replace(b'}]}', b'},]}')),
                ('csv', b'a;b;c\n'), ('word', b'null'), ('number', b'5'), ('string', b'"x"'),
                ('nan', b'nan'), ('bad escape', good.replace(b'Belege-k', b'Belege-\\k')),
                ('big', b'{"Belege-Gruppe": ' + b'[' * 50 + b']' * 50 + b'}')):
            raw(rep, t, 'any' if what.startswith('utf') or what == 'bom twice' else None, what,
                (0, 1, 3))
        bom = b'\xef\xbb\xbf' + good
        raw(rep, bom, expected(base(0)), 'bom', (0, 1, 3), pipe=False)
    elif kind == 'numbers':
        num = NUMBERS[case[1]]
        for what, t, want in number_docs(num.encode()):
            raw(rep, t, want, 'number %s %s' % (num[:30], what), (0, 1, 2))
    elif kind == 'digits':
        # The JSON library kills the process, so each in one of its own.
        for what, t, want in number_docs(b'1' * 4301):
            for cls in ('FileDEPParser', 'StreamDEPParser', 'CertlessStreamDEPParser', 'FullFileDEPParser'):
                rep.ev()
                rep.state((what, cls))
                o = subprocess.run([sys.executable, '-B', '-W', 'ignore', '-c', ONE, env.REPO, cls],
                    input=t, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
                w = 'number of 4301 digits %s, %s' % (what, cls)
                rep.outcome('died' if o.returncode < 0 else 'ended')
                if o.returncode < 0:
                    rep.fail('%s: the process died with signal %d' % (w, -o.returncode),
                        key='number of 4301 digits')
                elif o.returncode:
                    rep.fail('%s: %s' % (w, o.stderr.decode()[-300:]))
                elif want is None and b'accepted' in o.stdout:
                    rep.fail('%s: accepted' % w)
    else:
        for n in (500, 1000, 5000, 20000):
            for what, t in (('lists', b'[' * n), ('maps', b'{"a":' * n),
                    ('root lists', b'{"Belege-Gruppe": ' + b'[' * n + b']' * n + b'}'),
                    ('extra', b'{"x": ' + b'[' * n + b']' * n + b', "Belege-Gruppe": []}')):
                raw(rep, t, None, 'deep %s %d' % (what, n), (0, 1))


def edits(d, p):
    par = get(d, p[:-1])
    e = copy.deepcopy(d)
    q = get(e, p[:-1])
    if isinstance(par, dict):
        del q[p[-1]]
        yield 'removed %r' % (p,), e
        e = copy.deepcopy(d)
        q = get(e, p[:-1])
        q['x'] = q.pop(p[-1])
        yield 'renamed %r' % (p,), e
        e = copy.deepcopy(d)
        q = get(e, p[:-1])
        q[p[-1]] = [q[p[-1]]]
        yield 'wrapped %r' % (p,), e
    else:
        q.pop(p[-1])
        yield 'removed %r' % (p,), e
        e = copy.deepcopy(d)
        q = get(e, p[:-1])
        q.insert(p[-1], None)
        yield 'null before %r' % (p,), e
        e = copy.deepcopy(d)
        q = get(e, p[:-1])
        q[p[-1]] = {'x': q[p[-1]]}
        yield 'wrapped %r' % (p,), e


def check_bytes(rep, data, what):
    """Corrupted text: what a strict reader says decides."""
    try:
        t = data.decode('utf-8-sig')
        pairs = []

        def hook(ps):
            if len({k for k, v in ps}) != len(ps):
                pairs.append(1)
            return dict(ps)

        def const(c):
            raise ValueError(c)
        d = json.loads(t, object_pairs_hook=hook, parse_constant=const)
        want = expected(d)
        if pairs:
            want = 'any'
    except ValueError:
        want = None
    raw(rep, data, want, what, pipe=not data.startswith(b'\xef\xbb\xbf'))


def raw(rep, data, want, what, chunks=(0, 2), pipe=True):
    rep.state(data)
    for cs in chunks:
        parse(rep, lambda: depparser.FullFileDEPParser(io.BytesIO(data)), cs, want, 'full', what)
        parse(rep, lambda: depparser.IncrementalDEPParser.fromFd(io.BytesIO(data)), cs, want, 'file',
                what)
        parse(rep, lambda: depparser.IncrementalDEPParser.fromFd(Pipe(data)), cs, want, 'stream',
                what, False)
        parse(rep, lambda: depparser.IncrementalDEPParser.fromFd(Pipe(data), False), cs, want,
                'certless', what, pipe)
