"""C13: all DEP parsers deliver the same content."""
import io
import itertools
import json
import os

from .. import drive, env, ref
from ..drive import depparser

ID = 'C13'
LEVEL = 'exploration'
RULE = ('documents of 1-2 groups over {0,1,3 receipts} x {no, leaf, leaf with 4 issuers as} '
    'certificate x all 6 element orders, and 3 groups over a smaller option set, x layout '
    '(compact, indented, byte order mark, escaped keys, extra elements before/between/after, '
    'nested look-alikes) x 5 parsers x {seekable, pipe-like, one byte per read} x chunk sizes '
    '0,1,2,3,5,100 x 1-4 parts, each parsed twice; oracle: the document by construction. '
    'Non-trivial: distinct (document, parser, chunk size)')

ASSUMPTIONS = ['Documents whose extra elements hold numbers beyond 4300 digits or the exponents of '
    'decimal.Decimal are left to C14 (the JSON libraries differ in whether they read them).']

CERTS = [(None, ()), ('leaf0mid1', ('mid1', 'mid0', 'leaf1self', 'mid0')), ('leaf1self', ())]
ORDERS = list(itertools.permutations(('s', 'z', 'b')))
OPT = [(n, c, o) for n in (0, 1, 3) for c in range(3) for o in range(6)]
OPT3 = [(n, c, o) for n in (0, 1, 2) for c in (0, 1) for o in (0, 2, 5)]
CHUNKS = (0, 1, 2, 3, 5, 100)
EXTRA = {'x': {'Belege-Gruppe': [{'Belege-kompakt': ['fake'], 'Signaturzertifikat': 'fake',
    'Zertifizierungsstellen': ['fake']}]}, 'y': [1, -2.5, None, True, 'z', [], {}, ['a', ['b']]],
    'item': {'Signaturzertifikat': 'fake'}, '': {'': [{'': 'a'}]}, 'z': 'text',
    'Signaturzertifikat': 'fake', 'Zertifizierungsstellen': ['fake'], 'Belege-kompakt': ['fake']}
GEXTRA = {'x': {'Signaturzertifikat': 'fake', 'Belege-kompakt': ['fake'],
    'Zertifizierungsstellen': ['fake']}, 'y': [{'Belege-kompakt': ['fake']}], 'n': None,
    '': {'Signaturzertifikat': 'fake'}, 'Belege-Gruppe': [{'Belege-kompakt': ['fake']}]}
NAMES = {'s': 'Signaturzertifikat', 'z': 'Zertifizierungsstellen', 'b': 'Belege-kompakt'}

_fp = {}


def certid(c):
    """Identity of a certificate object."""
    if c is None:
        return None
    if not _fp:
        for n in ('leaf0mid1', 'mid1', 'mid0', 'leaf1self'):
            _fp[ref.cert(n)] = n
    return _fp.get(c, 'unknown certificate')


def cases():
    ret = [['one', l] for l in range(len(LAYOUTS))]
    ret += [['two', i, 0] for i in range(len(OPT))]
    ret += [['two', i, l] for i in range(0, len(OPT), 5) for l in range(1, len(LAYOUTS))]
    ret += [['three', i, j] for i in range(len(OPT3)) for j in range(len(OPT3))]
    ret += [['many', n] for n in range(1, 7)]
    ret += [['adapter'], ['dotted', 0], ['dotted', 1], ['source']]
    return ret


def doc(opts):
    """-> (list of groups as element lists, expected [(rec, group, cert, chain)])"""
    groups, want = [], []
    for g, (n, c, o) in enumerate(opts):
        recs = ['r%d.%d%s' % (g, i, '\u00e4' if i == 1 else '') for i in range(n)]
        cert, chain = CERTS[c]
        el = {'s': ref.cert_b64(cert) if cert else '', 'z': [ref.cert_b64(x) for x in chain],
            'b': recs}
        groups.append([(NAMES[k], el[k]) for k in ORDERS[o]])
        want += [(r, g, cert, tuple(chain)) for r in recs]
    return groups, want


def text(groups, extra=None, gextra=None, where=0, **kw):
    """JSON text with elements in the given order."""
    gs = []
    for g in groups:
        e = list((gextra or {}).items())
        k = where % (len(g) + 1)
        gs.append(dict(g[:k] + e + g[k:]))
    root = {'Belege-Gruppe': gs}
    if extra:
        e = list(extra.items())
        root = dict(e + [('Belege-Gruppe', gs)]) if where % 2 == 0 else dict(
                [('Belege-Gruppe', gs)] + e)
        if where == 2:
            root = dict(e[:3] + [('Belege-Gruppe', gs)] + e[3:])
    return json.dumps(root, **kw)


LAYOUTS = [lambda g: text(g).encode(),
    lambda g: text(g, indent=3).encode(),
    lambda g: text(g, separators=(',', ':')).encode(),
    lambda g: b'\xef\xbb\xbf' + text(g, ensure_ascii=False).encode(),
    lambda g: text(g, ensure_ascii=False).encode(),
    lambda g: text(g, EXTRA, None, 0).encode(),
    lambda g: text(g, EXTRA, None, 1).encode(),
    lambda g: text(g, EXTRA, GEXTRA, 2).encode(),
    lambda g: text(g, None, GEXTRA, 0).encode(),
    lambda g: text(g, None, GEXTRA, 1).encode(),
    lambda g: text(g, None, GEXTRA, 3).encode(),
    lambda g: text(g).replace('Signaturz', '\\u0053ignaturz').replace('Beleg', 'B\\u0065leg')
        .replace('/', '\\/').encode(),
    lambda g: b' \r\n\t' + text(g).encode() + b'\n \t\r\n',
    lambda g: b'\xef\xbb\xbf\r\n' + text(g, EXTRA, GEXTRA, 1, indent='\t').encode() + b'\n']


class Pipe(object):
    """Non-seekable source; delivers at most n bytes per read."""

    def __init__(self, data, n=None):
        self.b, self.n = io.BytesIO(data), n

    def read(self, n=-1):
        if self.n and (n < 0 or n > self.n) and n != 0:
            n = self.n
        return self.b.read(n)

    def tell(self, *a):
        raise IOError('not seekable')

    seek = tell

    def seekable(self):
        return False


def due_early(groups, cs):
    """Is a chunk complete before the certificates of its group were read?"""
    if cs == 0:
        return False
    n = 0
    for g in groups:
        known = set()
        for k, v in g:
            if k == NAMES['b']:
                for r in v:
                    n += 1
                    if n >= cs:
                        if len(known) < 2:
                            return True
                        n = 0
            else:
                known.add(k)
    return False


def check(rep, groups, want, make, kind, cs, what, again=True, bom=False):
    p, e = drive.outcome(make)
    first = None
    for rnd in range(2 if again else 1):
        rep.ev()
        chunks = None
        if e is None:
            chunks, e = drive.outcome(lambda: list(p.parse(cs)))
        w = '%s, %s parser, chunk size %d, pass %d' % (what, kind, cs, rnd + 1)
        rep.outcome(type(e).__name__ if e else 'ok')
        if e is not None:
            if not isinstance(e, depparser.DEPParseException):
                rep.fail('%s: %r' % (w, e))
            elif not want:
                pass
            elif kind == 'stream' and due_early(groups, cs):
                pass
            elif kind in ('stream', 'certless') and bom:
                pass        # may not be able to skip it
            else:
                rep.fail('%s: rejected with %r' % (w, e))
            return
        got = [(r, g, certid(c), tuple(certid(x) for x in ch)) for chunk in chunks
                for g, (rs, c, ch) in enumerate(chunk) for r in rs]
        exp = [(r.encode(), c, ch) for r, g, c, ch in want]
        if kind == 'certless':
            rep.expect([x[0] for x in got], [x[0] for x in exp], w)
            for x, y in zip(got, exp):
                # None/empty when not known yet
                if x[2] not in (None, y[1]) or x[3] not in ((), y[2][:len(x[3])]):
                    rep.fail('%s: wrong certificates %r' % (w, x))
        else:
            rep.expect([(x[0],) + x[2:] for x in got], exp, w)
        grp = {r.encode(): g for r, g, c, ch in want}
        for chunk in chunks:
            n = sum(len(rs) for rs, c, ch in chunk)
            if not n or not chunk or any(not rs for rs, c, ch in chunk):
                rep.fail('%s: empty chunk or group' % w)
            if cs and n > cs:
                rep.fail('%s: chunk with %d receipts' % (w, n))
            for rs, c, ch in chunk:
                if len({grp.get(r) for r in rs}) > 1:
                    rep.fail('%s: group mixes receipts of different groups' % w)
        if not want:
            rep.fail('%s: accepted a DEP without receipts' % w)


def sweep(rep, groups, want, data, what, chunks=CHUNKS, wide=False):
    bom = data.startswith(b'\xef\xbb\xbf')
    d = json.loads(data.decode('utf-8-sig'))
    for cs in chunks:
        for np in (1, 2, 4) if cs == 0 or wide else (1,):
            check(rep, groups, want, lambda: depparser.DictDEPParser(d, np), 'dict', cs, what)
            check(rep, groups, want, lambda: depparser.FullFileDEPParser(io.BytesIO(data), np),
                    'full', cs, what)
        check(rep, groups, want, lambda: depparser.IncrementalDEPParser.fromFd(io.BytesIO(data)),
                'file', cs, what)
        check(rep, groups, want, lambda: depparser.IncrementalDEPParser.fromFd(Pipe(data)),
                'stream', cs, what, False, bom)
        check(rep, groups, want, lambda: depparser.IncrementalDEPParser.fromFd(Pipe(data),
            need_certs=False), 'certless', cs, what, False, bom)
        if wide:
            check(rep, groups, want, lambda: depparser.StreamDEPParser(io.BytesIO(data)),
                    'stream', cs, what, False)
            check(rep, groups, want, lambda: depparser.StreamDEPParser(Pipe(data, 1)),
                    'stream', cs, what, False, bom)
            check(rep, groups, want, lambda: depparser.CertlessStreamDEPParser(Pipe(data, 7)),
                    'certless', cs, what, False, bom)
            if not bom:
                check(rep, groups, want, lambda: depparser.FullFileDEPParser(
                    io.StringIO(data.decode())), 'full', cs, what)
        rep.state((what, cs))


def run(case, rep):
    kind = case[0]
    if kind == 'one':
        for o in OPT:
            groups, want = doc([o])
            sweep(rep, groups, want, LAYOUTS[case[1]](groups), '%r layout %d' % ([o], case[1]),
                    wide=True)
    elif kind == 'two':
        for o in OPT:
            opts = [OPT[case[1]], o]
            groups, want = doc(opts)
            sweep(rep, groups, want, LAYOUTS[case[2]](groups), '%r layout %d' % (opts, case[2]),
                    (0, 1, 2, 3, 5) if env.THOROUGH else (0, 1, 2, 4), env.THOROUGH)
        rep.sample(opts)
    elif kind == 'three':
        for k, o in enumerate(OPT3):
            opts = [OPT3[case[1]], OPT3[case[2]], o]
            groups, want = doc(opts)
            l = (case[1] + case[2] + k) % len(LAYOUTS)
            sweep(rep, groups, want, LAYOUTS[l](groups), '%r layout %d' % (opts, l),
                    (0, 1, 2, 3, 5) if env.THOROUGH else (1, 2))
    elif kind == 'many':
        # many groups, more than the look-ahead caches
        n = case[1]
        for o in range(6):
            for m in (1, 2):
                opts = [(m, (i + o) % 3, o) for i in range(n)] + [(0, 1, o), (1, 0, o)]
                groups, want = doc(opts)
                for l in (0, 7):
                    sweep(rep, groups, want, LAYOUTS[l](groups), '%r layout %d' % (opts, l),
                            range(0, n * m + 3), True)
    elif kind == 'adapter':
        # receipts as objects, group by group
        R = ref.Register()
        js = [R.make()[0]] + [R.make('std', i)[0] for i in range(4)]
        dep = ref.dep((js[:2], 'leaf0mid1', ['mid1']), (js[2:], None, []))
        for cs in range(7):
            for k in ('dict', 'full', 'file', 'stream', 'certless'):
                p = drive.parser_for(dep, k)
                out = list(depparser.receiptGroupAdapter(p.parse(cs)))
                got = [(r.toJWSString(pr), certid(c)) for rs, c, ch in out for r, pr in rs]
                # dict order of this document: certificates come first
                rep.expect(got, [(j, 'leaf0mid1' if i < 2 else None) for i, j in enumerate(js)],
                        'adapter %s %d' % (k, cs))
                rep.ev()
                rep.state((k, cs))
    elif kind == 'dotted':
        # look-alike keys with dots must not divert the look-ahead
        groups, want = doc([(2, 1, 5), (2, 2, 5)])
        e = {'Belege-Gruppe.item': {'Signaturzertifikat': '', 'Zertifizierungsstellen': []}}
        if case[1]:
            e = {'Belege-Gruppe.item.Signaturzertifikat': '', 'Belege-Gruppe.item': {'x': 'y'},
                'Belege-Gruppe.item.Zertifizierungsstellen': []}
        gs = [dict(g) for g in groups]
        data = json.dumps(dict(list(e.items()) + [('Belege-Gruppe', gs)])).encode()
        for cs in (0, 1, 2, 3):
            for k, f in (('full', lambda: depparser.FullFileDEPParser(io.BytesIO(data))),
                    ('stream', lambda: depparser.StreamDEPParser(io.BytesIO(data)))):
                check(rep, groups, want, f, k, cs, 'dotted', False)
        for cs in (0, 1, 2, 3):
            p = depparser.FileDEPParser(io.BytesIO(data))
            chunks, ex = drive.outcome(lambda: list(p.parse(cs)))
            rep.ev()
            rep.state((case, cs))
            got = [(r, certid(c)) for chunk in chunks or () for rs, c, ch in chunk for r in rs]
            if got != [(w[0].encode(), w[2]) for w in want]:
                rep.fail('dotted root keys %d: FileDEPParser, chunk size %d attaches %r (%r)' % (
                    case[1], cs, got, ex), data.decode(), key='dotted %d chunksize %d' % (case[1], cs))
    else:
        # real files and pipes
        base = os.environ['RKSVMC_SCRATCH']
        groups, want = doc([(3, 1, 5), (1, 0, 2), (2, 2, 0)])
        for l in range(len(LAYOUTS)):
            data = LAYOUTS[l](groups)
            path = os.path.join(base, 'c13-%d.json' % os.getpid())
            with open(path, 'wb') as f:
                f.write(data)
            bom = data.startswith(b'\xef\xbb\xbf')
            for cs in CHUNKS:
                for mode in ('rb', 'r'):
                    kw = {} if mode == 'rb' else {'encoding': 'utf-8'}
                    with open(path, mode, **kw) as f:
                        check(rep, groups, want, lambda: depparser.FullFileDEPParser(f), 'full',
                                cs, 'file %s layout %d' % (mode, l))
                    with open(path, mode, **kw) as f:
                        check(rep, groups, want, lambda: depparser.IncrementalDEPParser.fromFd(f),
                                'file', cs, 'file %s layout %d' % (mode, l))
                for certs in (True, False):
                    r, w = os.pipe()
                    with os.fdopen(w, 'wb') as f:
                        f.write(data)
                    with os.fdopen(r, 'rb') as f:
                        check(rep, groups, want, lambda: depparser.IncrementalDEPParser.fromFd(f,
                            certs), 'stream' if certs else 'certless', cs, 'pipe layout %d' % l,
                            False, bom)
                rep.state((case, l, cs))
            os.unlink(path)
