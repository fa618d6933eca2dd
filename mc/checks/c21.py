"""C21: splitting, merging, converting and extracting lose nothing."""
import base64
import itertools
import json
import os
import shutil
import tempfile

from cryptography import x509
from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives import serialization

from librksv import depexport, depparser, receipt, utils

from .. import drive, env, ref, scripts

ID = 'C21'
LEVEL = 'exploration'
RULE = ('every DEP of up to 3 groups (thorough 4) over 6 certificate/chain configurations and '
    'group sizes 0..3, split with every chunk size, three of 12 to 24 receipts or groups with every chunk size too, merged (joining and not joining) as '
    'command and in the library with lists and generators, with parser chunk sizes, member orders '
    'and file/pipe input; every sequence of 3 receipts of 24 shapes converted to CSV and back; '
    'every DEP of up to 2 groups extracted; all wrong argument lists of up to 3 of 12 words; expected documents computed independently. '
    'Non-trivial: distinct (DEP, operation, parameters)')
ASSUMPTIONS = ['Fields with ";" or surrounding white space cannot be represented in CSV.',
    'Certificate files are named by serial, so of several certificates with one serial only one '
    'is kept.']

CONF = {'A': ('leaf0self', []), 'B': ('leaf1self', []), 'C': ('leaf0mid1', ['mid1', 'mid0']),
    'D': ('leaf0mid1', ['mid1']), 'N': (None, []), 'M': (None, ['mid1']),
    'E': ('leaf0deep', ['deep%d' % i for i in range(1, 11)]), 'F': ('leaf0deep', ['deep%d' % i for i in range(1, 10)])}
_recs = []


def recs(n):
    """n different receipts of varying kinds."""
    if not _recs:
        g = ref.Register()
        for i in range(24):
            _recs.append(g.make(('std', 'dummy', 'reversal')[i % 3] if i else 'std', i * 7, i % 4 != 3)[0])
    return _recs[:n]


def build(shape):
    """shape: string like 'A2C1' -> list of (receipts, cert, chain)"""
    rs = recs(sum(int(c) for c in shape[1::2]))
    ret, i = [], 0
    for c, n in zip(shape[::2], shape[1::2]):
        ret.append((rs[i:i + int(n)],) + CONF[c])
        i += int(n)
    return ret


def doc(groups, order=0):
    d = ref.dep(*groups)
    keys = list(itertools.permutations(['Signaturzertifikat', 'Zertifizierungsstellen', 'Belege-kompakt']))[order]
    d['Belege-Gruppe'] = [{k: g[k] for k in keys} for g in d['Belege-Gruppe']]
    return d


def flat(d):
    return [(j, g['Signaturzertifikat'], tuple(g['Zertifizierungsstellen']))
        for g in d['Belege-Gruppe'] for j in g['Belege-kompakt']]


def runs(fl):
    """Sizes of the maximal runs with the same certificate and chain."""
    return [len(list(v)) for k, v in itertools.groupby(fl, lambda x: x[1:])]


def sizes(d):
    return [len(g['Belege-kompakt']) for g in d['Belege-Gruppe']]


class Dir(object):
    def __enter__(self):
        self.d = tempfile.mkdtemp(dir=os.environ.get('RKSVMC_SCRATCH'))
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def ok(rep, o, what, detail):
    rep.ev()
    rep.outcome(what)
    if o.rc != 0:
        rep.fail('%s failed: %r %s' % (what, o.exc, o.tb), detail)
        return False
    return True


def check_well(rep, d, what, detail):
    """A DEP document with nothing but the documented members."""
    if set(d) != {'Belege-Gruppe'}:
        rep.fail('%s: members %r' % (what, sorted(d)), detail)
    for g in d['Belege-Gruppe']:
        if set(g) != {'Signaturzertifikat', 'Zertifizierungsstellen', 'Belege-kompakt'}:
            rep.fail('%s: group members %r' % (what, sorted(g)), detail)


def split_case(rep, case):
    for shape in case[1]:
        groups = build(shape)
        d = doc(groups)
        want = flat(d)
        n = len(want)
        if not n:
            continue
        for cs in range(1, n + 2):
            one(rep, shape, d, want, n, cs, 0, False, {})
        if case[2]:
            for cs in range(1, n + 1):
                for order in range(6):
                    one(rep, shape, doc(groups, order), want, n, cs, order, False, {})
                one(rep, shape, d, want, n, cs, 0, True, {})
                for csz in (1, 2, 3):
                    one(rep, shape, d, want, n, cs, 0, False, {'RKSV_DEP_CHUNKSIZE': str(csz)})


def one(rep, shape, d, want, n, cs, order, pipe, environ):
    det = [shape, cs, order, pipe, environ]
    rep.state(['split'] + det)
    with Dir() as tmp:
        out = os.path.join(tmp, 'out')
        if cs % 2:
            os.mkdir(out)
        o = scripts.run('split.py', [str(cs), 'out'], json.dumps(d), cwd=tmp, pipe=pipe, environ=environ)
        if not ok(rep, o, 'split', det):
            return
        names = sorted(os.listdir(out))
        np = -(-n // cs)
        if not rep.expect(names, sorted('dep-export%d.json' % i for i in range(np)), 'files', det):
            return
        parts = []
        for i in range(np):
            with open(os.path.join(out, 'dep-export%d.json' % i)) as f:
                parts.append(json.load(f))
            check_well(rep, parts[-1], 'part', det)
        rep.expect([sum(sizes(p)) for p in parts], [min(cs, n - i * cs) for i in range(np)],
            'receipts per part', det)
        if not rep.expect([x for p in parts for x in flat(p)], want, 'split receipts', det):
            return
        files = ['dep-export%d.json' % i for i in range(np)]
        # (the command takes two or more files)
        k = 1 if np > 1 else 2
        files = files * k
        o = scripts.run('merge.py', files, cwd=out, environ=environ)
        if ok(rep, o, 'merge', det):
            m = json.loads(o.out)
            check_well(rep, m, 'merged', det)
            w = want * k
            if rep.expect(flat(m), w, 'merged receipts', det):
                rep.expect(sizes(m), runs(w), 'merged groups', det)
        o = scripts.run('merge.py', ['nomerge'] + files, cwd=out, environ=environ)
        if ok(rep, o, 'nomerge', det):
            m = json.loads(o.out)
            check_well(rep, m, 'concatenated', det)
            rep.expect(flat(m), want * k, 'concatenated receipts', det)
            if not environ:
                rep.expect(sizes(m), [s for p in parts for s in sizes(p)] * k, 'concatenated groups', det)
        rep.trace()


def merge_case(rep, case):
    """Merging arbitrary files: every pair of shapes."""
    shapes = case[2]
    a = case[1]
    for b in shapes:
        da, db = doc(build(a)), doc(build(b))
        w = flat(da) + flat(db)
        for csz in (None, 1, 2):
            envi = {'RKSV_DEP_CHUNKSIZE': str(csz)} if csz else {}
            with Dir() as tmp:
                for nm, x in (('a.json', da), ('b.json', db)):
                    with open(os.path.join(tmp, nm), 'w') as f:
                        json.dump(x, f)
                for mode in ([], ['nomerge']):
                    det = [a, b, csz, mode]
                    rep.state(['merge'] + det)
                    o = scripts.run('merge.py', mode + ['a.json', 'b.json'], cwd=tmp, environ=envi)
                    if not ok(rep, o, 'merge files', det):
                        continue
                    m = json.loads(o.out)
                    check_well(rep, m, 'merged files', det)
                    if rep.expect(flat(m), w, 'merged files', det) and not mode:
                        rep.expect(sizes(m), runs(w), 'merged groups', det)
                    elif mode and not csz:
                        rep.expect(sizes(m), [s for s in sizes(da) + sizes(db) if s],
                            'concatenated groups', det)
                    rep.trace()


_parsed = {}


def parsed(j):
    if j not in _parsed:
        _parsed[j] = receipt.Receipt.fromJWSString(j)
    return _parsed[j]


def lib_case(rep, case):
    """The streams and exporters with lists and generators."""
    for shape in case[1]:
        groups = build(shape)

        def tuples(lazy):
            for rs, c, ch in groups:
                t = [parsed(j) for j in rs]
                yield ((x for x in t) if lazy else t, utils.loadCert(ref.cert_pem(c)) if c else None,
                    [utils.loadCert(ref.cert_pem(x)) for x in ch])
        d = doc(groups)
        want = flat(d)
        for lazy, cls, how in itertools.product((False, True),
                (depexport.DEPStream, depexport.MergingDEPStream), ('init', 'append', 'extend', 'list',
                'mixed')):
            ts = list(tuples(lazy)) if not lazy or how in ('append', 'mixed') else tuples(lazy)
            det = [shape, lazy, cls.__name__, how]
            rep.state(det)

            def stream():
                ts = list(tuples(lazy))
                if how == 'init':
                    return cls(iter(ts) if lazy else ts)
                if how == 'list':
                    return cls.fromIterList([[t] for t in ts[:1]] + [iter(ts[1:])])
                s = cls() if how != 'mixed' else cls(ts[:1])
                for t in ts[0 if how != 'mixed' else 1:]:
                    if how == 'extend':
                        s.extend([t])
                    else:
                        s.append(*t)
                return s
            outs = []
            e = depexport.DEPExporter(stream(), list)
            e.addExtra('Extra', {'a': [1]})
            r = e.export()
            rep.expect(r.pop('Extra', None), {'a': [1]}, 'extra element', det)
            outs.append(json.loads(json.dumps(r)))
            for pretty in (True, False):
                outs.append(json.loads(''.join(depexport.JSONExporter(stream(), pretty).export())))
            w = [s for s in sizes(d)] if cls is depexport.DEPStream else None
            for i, o in enumerate(outs):
                rep.ev()
                rep.expect(flat(o), want, 'exported %d' % i, det)
                if w is not None:
                    rep.expect(sizes(o), w, 'groups exported %d' % i, det)
                elif '0' not in shape:
                    rep.expect(sizes(o), runs(want), 'groups exported %d' % i, det)
            csv = ''.join(depexport.CSVExporter(stream()).export()).split('\n')
            rep.expect(csv[1:], [ref.Rec.of(x[0]).csv() for x in want], 'CSV lines', det)
            rep.trace()


HEADER = ('Alg+ZDA;Register ID;Receipt ID;Date+Time;Sum A;Sum B;Sum C;Sum D;Sum E;Turnover Counter;'
    'Cert. Serial;Chaining Value;Signature')


def shapes_of_receipts():
    ret = []
    for closed in (False, True):
        for k in ('std', 'dummy', 'reversal'):
            for sign in (True, False):
                g = ref.Register(closed=closed)
                g.n = len(ret)
                ret.append(g.make(k, 123, sign)[0])
    g = ref.Register(serial=str(ref.cert_serial('leaf0self')), size=16)
    g.n = 20
    ret.append(g.make('std', -5)[0])
    for n, rid in enumerate(['ä\u20ac', 'a b', '"q"', "'", ',', 'x|y', '\\', '\U0001f4b6', '.', '=1+1', '#']):
        g = ref.Register(reg='R' + rid, size=5 + n)
        g.n = 30 + n
        ret.append(g.make('std', n, rid=rid)[0])
    return ret


def conv_case(rep, case):
    pool = shapes_of_receipts()
    a = case[1]
    for b in range(len(pool)):
        for tail in (None,) + tuple(range(0, len(pool), 1 if env.THOROUGH else 5)):
            js = [pool[a], pool[b]] + ([pool[tail]] if tail is not None else [])
            det = [a, b, tail]
            rep.state(['convert'] + det)
            for i, groups in enumerate((
                    [(js, None, [])], [(js[:1], 'leaf0self', []), (js[1:], 'leaf0mid1', ['mid1'])])):
                if i and tail:
                    continue
                o = scripts.run('convert.py', ['json2csv'], json.dumps(doc(groups, i * 4)), pipe=bool(i),
                    environ={} if i else {'RKSV_DEP_CHUNKSIZE': '2'})
                if not ok(rep, o, 'json2csv', det):
                    return
                want = '\n'.join([HEADER] + [ref.Rec.of(j).csv() for j in js]) + '\n'
                if not rep.expect(o.out, want, 'CSV', det):
                    return
            for eol in ('\n', '\r\n') if tail is None else ('\n',):
                text = want.replace('\n', eol)
                if tail == 0:
                    text = text.rstrip('\n')
                o = scripts.run('convert.py', ['csv2json'], text, pipe=bool(a % 2))
                if not ok(rep, o, 'csv2json', det):
                    return
                m = json.loads(o.out)
                check_well(rep, m, 'converted', det)
                rep.expect(m['Belege-Gruppe'], ref.dep((js, None, []))['Belege-Gruppe'], 'DEP from CSV', det)
            rep.trace()


def der(path):
    with open(path, 'rb') as f:
        return x509.load_pem_x509_certificate(f.read(), default_backend()).public_bytes(
            serialization.Encoding.DER)


def cert_case(rep, case):
    for shape in case[1]:
        groups = build(shape)
        if not sum(len(g[0]) for g in groups):
            continue
        certs = {}
        for rs, c, ch in groups:
            if rs:
                for x in ([c] if c else []) + ch:
                    certs.setdefault(ref.keyid(ref.cert_serial(x)), set()).add(
                        base64.b64decode(ref.cert_b64(x)))
        # of the groups without receipts
        extra = {}
        for rs, c, ch in groups:
            for x in ([c] if c else []) + ch:
                extra.setdefault(ref.keyid(ref.cert_serial(x)), set()).add(
                    base64.b64decode(ref.cert_b64(x)))
        for order, csz, pipe in itertools.product(range(6), (None, 1, 2, 3), (False, True)):
            det = [shape, order, csz, pipe]
            rep.state(['extract'] + det)
            with Dir() as tmp:
                o = scripts.run('cert_extract.py', ['o'], json.dumps(doc(groups, order)), cwd=tmp,
                    pipe=pipe, environ={'RKSV_DEP_CHUNKSIZE': str(csz)} if csz else {})
                if not ok(rep, o, 'extract', det):
                    continue
                names = set(os.listdir(os.path.join(tmp, 'o')))
                need = {s + '.crt' for s in certs}
                may = {s + '.crt' for s in extra}
                if not need <= names <= may:
                    # the last receipt of a group filled a chunk before the certificates were read
                    late = late_certs(groups, csz, order)
                    key = None
                    if names <= may and need - names <= {s + '.crt' for s in late}:
                        key = 'cert_extract:chunk-ends-with-group'
                    rep.fail('extracted %r instead of %r' % (sorted(names), sorted(need)), det, key)
                for nm in names & may:
                    if der(os.path.join(tmp, 'o', nm)) not in extra[nm[:-4]]:
                        rep.fail('extracted certificate %s is a different one' % nm, det)
                rep.trace()


def late_certs(groups, csz, order):
    """Serials of certificates read only after the last receipt of their group
    completed a chunk."""
    if not csz or order < 2:
        # (orders 0 and 1: the receipts are never first)
        pass
    perm = list(itertools.permutations(['c', 'z', 'r']))[order]
    after = perm[perm.index('r') + 1:]
    late, early, n = set(), set(), 0
    for rs, c, ch in groups:
        if not rs:
            continue
        n += len(rs)
        for x, k in ([(c, 'c')] if c else []) + [(y, 'z') for y in ch]:
            s = ref.keyid(ref.cert_serial(x))
            if csz and k in after and n % csz == 0:
                late.add(s)
            else:
                early.add(s)
    return late - early


def bad_case(rep, case):
    """Broken input makes the commands fail."""
    good = doc(build('A2C1'))
    bads = {'empty': '', 'text': 'x', 'list': '[]', 'nogroups': '{}', 'cut': json.dumps(good)[:-30]}
    for name, f in (('norecs', lambda g: g.pop('Belege-kompakt')), ('nocert', lambda g: g.pop('Signaturzertifikat')),
            ('badcert', lambda g: g.update({'Signaturzertifikat': 'AAAA'})),
            ('badchain', lambda g: g.update({'Zertifizierungsstellen': ['AAAA']})),
            ('recnum', lambda g: g.update({'Belege-kompakt': [1]})),
            ('badrec', lambda g: g.update({'Belege-kompakt': ['a.b.c']})),
            ('badrec2', lambda g: g.update({'Belege-kompakt': [g['Belege-kompakt'][0][:-9].replace('.', '', 1)]}))):
        for gi in (0, 1):
            d = json.loads(json.dumps(good))
            f(d['Belege-Gruppe'][gi])
            bads['%s%d' % (name, gi)] = json.dumps(d)
    for name, text in sorted(bads.items()):
        for script, args in (('split.py', ['2', 'o']), ('convert.py', ['json2csv']), ('cert_extract.py', ['o']),
                ('merge.py', ['good.json', 'bad.json']), ('merge.py', ['nomerge', 'bad.json', 'good.json'])):
            if script == 'cert_extract.py' and name.startswith('badrec'):
                continue    # receipts are not looked at
            with Dir() as tmp:
                for nm, t in (('good.json', json.dumps(good)), ('bad.json', text)):
                    with open(os.path.join(tmp, nm), 'w') as f:
                        f.write(t)
                o = scripts.run(script, args, text, cwd=tmp)
                rep.ev()
                rep.state([name, script, args])
                rep.outcome('rejected' if o.rc else 'accepted')
                if o.rc == 0:
                    rep.fail('%s %r succeeds on broken input %s' % (script, args, name), o.out[:500])
    # broken CSV
    lines = [HEADER] + [ref.Rec(j).csv() for j in recs(3)]
    for i in range(1, 4):
        for k, bad in enumerate((lines[i].replace(';', '', 1), lines[i] + ';', 'x', '', lines[i].replace('R1', 'R2'),
                lines[i][:-5])):
            text = '\n'.join(lines[:i] + [bad] + lines[i + 1:]) + '\n'
            o = scripts.run('convert.py', ['csv2json'], text)
            rep.ev()
            rep.state(['csv', i, k])
            if o.rc == 0 and k != 5:
                rep.fail('csv2json succeeds on a broken line', [i, k, text])


def args_case(rep, case):
    """Wrong arguments do nothing."""
    text = json.dumps(doc(build('A2C1')))
    words = ('2', '0', '-1', '', 'x', '1.5', 'o', 'json2csv', 'csv2json', 'json2json', 'nomerge', 'in')
    for n in range(4):
        for args in itertools.product(words, repeat=n):
            if n == 3 and len(set(args)) < 3 and not env.THOROUGH:
                continue
            for script in ('split.py', 'convert.py', 'cert_extract.py'):
                good = {'split.py': n == 2 and args[0].isdigit() and args[0] != '0',
                    'convert.py': args in (('json2csv',), ('csv2json',)), 'cert_extract.py': n == 1}[script]
                if good:
                    continue
                with Dir() as d:
                    with open(os.path.join(d, 'in'), 'w') as f:
                        f.write(text)
                    o = scripts.run(script, args, text, cwd=d)
                    left = sorted(os.listdir(d))
                rep.ev()
                rep.state([script, args])
                rep.outcome('usage' if not o.rc else 'refused')
                if left != ['in'] or 'R1-AT1' in o.out or 'Belege' in o.out or 'eyJ' in o.out:
                    rep.fail('%s %r does something: files %r, output %r' % (script, args, left, o.out[:200]))


def all_shapes(maxgroups, confs, ns):
    ret = []
    for k in range(1, maxgroups + 1):
        for t in itertools.product(confs, repeat=k):
            for m in itertools.product(ns, repeat=k):
                ret.append(''.join('%s%s' % x for x in zip(t, m)))
    return ret


def batches(lst, n):
    return [lst[i:i + n] for i in range(0, len(lst), n)]


def cases():
    ret = []
    s = all_shapes(3, 'ABC', '12') + all_shapes(2, 'ABCDNM', '12') + all_shapes(2, 'AD', '03')
    if env.THOROUGH:
        s += all_shapes(3, 'ABCDNM', '12') + all_shapes(4, 'AC', '12') + all_shapes(3, 'AD', '0123')
    s = sorted(set(s))
    ret += [['split', b, False] for b in batches(s, 12)]
    ret += [['split', b, True] for b in batches(all_shapes(2, 'ACN', '123' if env.THOROUGH else '12') + ['A3D3', 'A0B2', 'A2B0'], 2)]
    # (ten and more parts, groups and files)
    ret += [['split', [x], False] for x in ('A9C9B5', 'A1C1' * 6, 'A1D9A3')]
    # (a chain of ten)
    deep = ['E2', 'E1A1', 'A1E2', 'E1F1', 'F2E1', 'C1E1F1']
    ret += [['split', deep, False], ['lib', deep], ['cert', deep], ['merge', 'E2', deep], ['merge', 'F2E1', deep]]
    small = all_shapes(1, 'ABCDNM', '12') + ['A1A1', 'A1B1', 'A2C1A1', 'C1D1', 'A0B1', 'N1A1', 'B1A0', 'A1A0A1',
        'A1B0A1', 'A0A1']
    ret += [['merge', a, small] for a in small]
    lib = s + all_shapes(3, 'AD', '012') + (all_shapes(4, 'AB', '012') if env.THOROUGH else [])
    ret += [['lib', b] for b in batches(sorted(set(lib)), 30)]
    ret += [['conv', a] for a in range(24)]
    ret += [['cert', b] for b in batches(all_shapes(2, 'ABCDNM', '012' if not env.THOROUGH else '0123'), 20)]
    ret += [['bad'], ['args']]
    return ret


def run(case, rep):
    {'split': split_case, 'merge': merge_case, 'lib': lib_case, 'conv': conv_case, 'cert': cert_case,
        'bad': bad_case, 'args': args_case}[case[0]](rep, case)
