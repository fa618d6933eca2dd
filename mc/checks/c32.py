"""C32: the receipt conversion command converts every line, in order."""
import itertools

from .. import env, grammar, kivystub, ref, scripts
from ..world import SYS
from .c15 import IDS, SERIALS, SUMS, fields
from .c20 import answer, boom
from .c26 import Net

ID = 'C32'
LEVEL = 'model_checking'
RULE = ('the command run in process for all 25 format pairs: one line per receipt of kinds x 12 '
    'serial notations x 4 widths, 33x33 ID pairs, sums in every slot, signature lengths 0-70; every '
    'sequence of up to 4 lines over 3 receipts and 5 malformed lines x 4 line ending styles; every '
    'single-character change, deletion and insertion of a line; every sequence of up to 3 web '
    'answers (8 kinds); every sequence of up to 3 of 6 pictures, decoded and piped on; every chain of 3 conversions; all argument lists up to 3 words. Oracle: '
    'texts computed from the fields by the reference, well-formedness by an independent grammar. '
    'Non-trivial: distinct (formats, input) states')
ASSUMPTIONS = ['Empty lines are left open (the command stops at one today).',
    'The network below requests and the bar code reader (zbar) are replaced by stand-ins.']

TEXT = ('jws', 'qr', 'ocr', 'csv')
IN = TEXT + ('url',)
OUT = TEXT + ('url',)


def text(j, fmt):
    """The given form of a receipt, computed from its fields."""
    r = ref.Rec.of(j)
    if fmt == 'jws':
        return j
    return {'qr': r.qr, 'ocr': r.ocr, 'csv': r.csv, 'url': r.urlhash}[fmt]()


def expressible(j, fmt):
    r = ref.Rec.of(j)
    if any(c in r.payload for c in '\n\r'):
        return fmt in ('jws', 'url')
    if fmt == 'csv':
        return not (';' in r.payload or any(f != f.strip() for f in r.payload.split('_')))
    return True


def url(n):
    return 'http://h/r/%d' % n


class Web(object):
    """Stand-in network that serves receipt n at url(n)."""

    def __init__(self, answers):
        self.answers = answers

    def __enter__(self):
        self.net = Net(lambda u: self.answers[int(u.rsplit('/', 1)[1])](u))
        self.net.__enter__()
        return self.net

    def __exit__(self, *a):
        self.net.__exit__(*a)


def call(fi, fo, stdin, answers=(), pipe=False):
    with Web(answers):
        return scripts.run('receipt.py', [fi, fo], stdin, pipe=pipe)


def good(j):
    return answer(doc={'code': text(j, 'qr')})


def batch(rep, fi, fo, js, eol='\n', last=True, what=''):
    """All the given receipts in one call."""
    js = [j for j in js if expressible(j, fi if fi != 'url' else 'qr') and
        (expressible(j, fo) or fo in ('qr', 'ocr', 'jws', 'url'))]
    if not js:
        return
    lines = [url(n) for n in range(len(js))] if fi == 'url' else [text(j, fi) for j in js]
    stdin = eol.join(lines) + (eol if last else '')
    rep.ev(len(js))
    o = call(fi, fo, stdin, [good(j) for j in js])
    want = ''.join(text(j, fo) + '\n' for j in js)
    if o.rc != 0 or o.out != want:
        got = o.out.split('\n')
        for n, (a, j) in enumerate(zip(got, js)):
            if a != text(j, fo):
                rep.fail('%s %s -> %s: line %d %r gives %r, not %r (%r)' % (what, fi, fo, n,
                    lines[n][:300], a[:300], text(j, fo)[:300], o.exc), [fi, fo, lines])
                return
        rep.fail('%s %s -> %s: %d lines give %d (rc %r, %r)' % (what, fi, fo, len(lines),
            len(got) - 1, o.rc, o.exc), [fi, fo, lines])
    for l in lines:
        rep.state((fi, fo, l))
    rep.outcome('%s -> %s' % (fi, fo))


def some():
    g = SYS['open-cert'].register()
    ret = [g.make()[0], g.make('std', 1234)[0], g.make('dummy', 7)[0], g.make('reversal', -50)[0],
        g.make('std', 9, False)[0], g.make('std', 0, False)[0]]
    g = SYS['closed-ks'].register()
    return ret + [g.make()[0], g.make('std', 100)[0]]


def bad_lines(fi):
    """Lines which are not a receipt in the given format."""
    j = some()[1]
    if fi == 'url':
        return []
    t = text(j, fi)
    other = {'jws': 'qr', 'qr': 'ocr', 'ocr': 'csv', 'csv': 'jws'}[fi]
    if fi == 'qr':
        other = 'csv'                   # OCR codes may be read as QR codes
    return [text(j, other), 'x', t + ('_x' if fi in ('qr', 'ocr') else '.x' if fi == 'jws' else ';x'),
        t.replace({'jws': '.', 'csv': ';'}.get(fi, '_'), ' ', 1), t.split(
            {'jws': '.', 'csv': ';'}.get(fi, '_'), 1)[1]]


def mutations(t):
    step = 1 if env.THOROUGH else 3
    for i in range(0, len(t), step):
        yield t[:i] + t[i + 1:]
        for c in '_;.=A0,:- \u00e4\t':
            if c != t[i]:
                yield t[:i] + c + t[i + 1:]
            yield t[:i] + c + t[i:]
    for i in range(len(t)):
        yield t[:i]
        yield t[i:]


def cases():
    ret = []
    for fi, fo in itertools.product(IN, OUT):
        ret += [['all', fi, fo], ['seq', fi, fo]]
    for fi in TEXT:
        ret += [['bad', fi, i] for i in range(4)]
    ret += [['ids', i] for i in range(len(IDS))]
    ret += [['chain', i] for i in range(4)]
    ret += [['web', fo] for fo in OUT]
    ret += [['args'], ['empty']]
    ret += [['images', fo] for fo in OUT]
    return ret


def images(rep, fo):
    """img_decode.py prints the QR codes of all pictures, which receipt.py reads."""
    import io
    import os
    import sys
    import tempfile
    from PIL import Image
    js = some()[:4]
    codes = [[], [('QRCODE', 0)], [('QRCODE', 1), ('QRCODE', 0)], [('EAN13', 2)],
        [('EAN13', 0), ('QRCODE', 2), ('QRCODE', 2)], [('QRCODE', 3), ('EAN13', 1)],
        [('QRCODE', '\t no receipt \u00e4 '), ('QRCODE', '')]]
    kinds = [('PNG', 'RGB'), ('PNG', 'RGBA'), ('PNG', 'P'), ('GIF', 'P'), ('BMP', '1'), ('TIFF', 'CMYK'), ('PNG', 'L')]
    code = lambda n: n if isinstance(n, str) else text(js[n], 'qr')
    Z, had = kivystub.zbar, sys.modules.get('zbar')
    sys.modules['zbar'] = Z
    scripts._code.pop('img_decode.py', None)
    try:
        with tempfile.TemporaryDirectory(dir=os.environ.get('RKSVMC_SCRATCH')) as d:
            Z.pictures.clear()
            for i, (c, (f, m)) in enumerate(zip(codes, kinds)):
                im = Image.new('RGB', (i + 2, 3 if i % 2 else 7), (255, 0, 0))
                im.putpixel((1, 1), (0, 255, 9))
                im.convert(m).save('%s/%d' % (d, i), f)
                with Image.open('%s/%d' % (d, i)) as im:
                    g = im.convert('L')
                Z.pictures[g.size + (g.tobytes(),)] = [
                    kivystub.Sym(k, code(n)) for k, n in c]
            for n in range(1, 4):
                for seq in itertools.product(range(len(codes)), repeat=n):
                    rep.ev()
                    rep.state(('images', seq, fo))
                    o = scripts.run('img_decode.py', ['%s/%d' % (d, i) for i in seq])
                    want = [x for i in seq for k, x in codes[i] if k == 'QRCODE']
                    lines = ''.join(code(x) + '\n' for x in want)
                    if o.exc or o.out != lines or o.err:
                        rep.fail('images %r: %r, not %r' % (seq, o, lines))
                        continue
                    if want and n < 3 and '' not in want:
                        x = call('qr', fo, o.out)
                        if x.exc or x.out != ''.join(text(js[j], fo) + '\n' for j in want):
                            rep.fail('images %r to %s: %r' % (seq, fo, x))
            rep.trace()
    finally:
        Z.pictures.clear()
        if had is None:
            del sys.modules['zbar']
        else:
            sys.modules['zbar'] = had


def corpus():
    pls = []
    for k, (zda, ser), size in itertools.product(('std', 'dummy', 'reversal'), SERIALS, (5, 8, 13, 16)):
        pls.append(fields(k, zda, ser, size=size))
    for i, s in itertools.product(range(5), SUMS):
        sums = ['0,00'] * 5
        sums[i] = s
        pls.append(fields(sums=sums))
    ret = [ref.jws(p, ref.Key('leaf0')) for p in pls] + [ref.jws(p, 'broken') for p in pls[::5]]
    ret += [ref.jws(pls[0], bytes(range(i))) for i in range(71)]
    return ret + some()


def run(case, rep):
    kind = case[0]
    if kind == 'images':
        images(rep, case[1])
    elif kind == 'all':
        fi, fo = case[1:]
        js = corpus()
        batch(rep, fi, fo, js, what='all')
        batch(rep, fi, fo, js[::-1], what='reversed')
        for j in js[::1 if env.THOROUGH else 9]:
            batch(rep, fi, fo, [j], last=False, what='alone')
    elif kind == 'ids':
        js = [ref.jws(fields(k, reg=IDS[case[1]], rid=b), ref.Key('leaf0'))
            for b in IDS for k in ('std', 'dummy')]
        for fi, fo in itertools.product(IN, OUT):
            if fo in ('qr', 'ocr', 'csv'):
                use = [j for j in js if not any(c in ref.Rec.of(j).payload for c in '\n\r')]
            else:
                use = js
            if fi == 'csv' or fo == 'csv':
                use = [j for j in use if expressible(j, 'csv')]
            if fi != 'jws':
                use = [j for j in use if fi == 'url' or expressible(j, fi)]
            batch(rep, fi, fo, use, what='ids')
    elif kind == 'seq':
        fi, fo = case[1:]
        A = some()
        pool = [(A[1], True), (A[2], True), (A[7], True)] + [(b, False) for b in bad_lines(fi)]
        styles = [('\n', True), ('\n', False), ('\r\n', True), ('  \n \t', True)]
        for n in range(1, 5):
            for seq in itertools.product(range(len(pool)), repeat=n):
                # what follows the first malformed line makes no difference
                if any(s >= 3 for s in seq[:-2]):
                    continue
                if not env.THOROUGH and n == 4 and len(set(seq)) < 3:
                    continue
                items = [pool[s] for s in seq]
                lines, want, fail = [], '', False
                for m, (j, ok) in enumerate(items):
                    lines.append((url(m) if fi == 'url' else text(j, fi)) if ok else j)
                    fail = fail or not ok
                    if not fail:
                        want += text(j, fo) + '\n'
                for eol, last in styles if n < 4 else styles[:1]:
                    rep.ev()
                    o = call(fi, fo, eol.join(lines) + (eol if last else '') if eol[-1] == '\n' or
                        not last else eol.join(lines) + '\n',
                        [good(j) if ok else None for j, ok in items], pipe=n == 2)
                    if o.out != want or (o.rc != 0) != fail:
                        rep.fail('%s -> %s: %r gives rc %r, %r (%r), not %r' % (fi, fo, lines, o.rc,
                            o.out, o.exc, want), [fi, fo, lines, eol, last])
                    elif fail and not (o.exc is not None and
                            type(o.exc).__module__.startswith('librksv')):
                        rep.fail('%s -> %s: %r ends with %r' % (fi, fo, lines, o.exc), [fi, fo, lines])
                    rep.state((fi, fo, tuple(lines), eol, last))
                    rep.outcome(fail)
                rep.trace()
    elif kind == 'bad':
        # every changed line: refused, or converted to what it says
        fi, i = case[1:]
        j = some()[(1, 2, 4, 7)[i]]
        for t in mutations(text(j, fi)):
            if not t.strip() or t.strip() != t or any(c in t for c in '\n\r'):
                continue
            v = grammar.judge(fi, t)
            rep.ev()
            o = call(fi, 'jws', text(j, fi) + '\n' + t + '\n' + text(j, fi) + '\n')
            name = type(o.exc).__name__ if o.rc else 'ok'
            rep.outcome(name)
            rep.state((fi, t))
            first = j + '\n'
            if o.rc:
                if v is True:
                    rep.fail('well-formed %s line refused: %r: %r' % (fi, t, o.exc), t)
                elif v != 'any' and name not in v and '?' not in v:
                    rep.fail('%s line %r: %r instead of %s' % (fi, t, o.exc, sorted(v)), t)
                if o.out != first:
                    rep.fail('%s line %r: printed %r' % (fi, t, o.out), t)
                continue
            if v not in (True, 'any') and '?' not in v:
                rep.fail('malformed %s line accepted: %r gives %r' % (fi, t, o.out), t)
                continue
            got = o.out.split('\n')
            if len(got) != 4 or got[0] != j or got[2] != j or got[3]:
                rep.fail('%s line %r among two others gives %r' % (fi, t, o.out), t)
                continue
            if v is True and (fi != 'csv' or '_' not in t):
                rep.expect(text(got[1], fi), t, 'line %r' % t)
    elif kind == 'chain':
        # format by format through the command
        js = corpus()[case[1]::4]
        for path in itertools.product(TEXT, repeat=3):
            cur, fmt = ''.join(j + '\n' for j in js), 'jws'
            for nxt in path + ('jws',):
                rep.ev(len(js))
                o = call(fmt, nxt, cur)
                if o.rc:
                    rep.fail('%r at %s -> %s: %r' % (path, fmt, nxt, o.exc), [path, cur])
                    return
                cur, fmt = o.out, nxt
                rep.state((case[1], path, nxt))
            rep.expect(cur, ''.join(j + '\n' for j in js), 'chain %r' % (path,))
            rep.trace()
    elif kind == 'web':
        fo = case[1]
        A = some()
        kinds = {'a': good(A[1]), 'b': good(A[7]), 'bad': answer(doc={'code': 'x'}),
            '404': answer(404), 'nocode': answer(doc={'x': 1}), 'text': answer(raw=b'_R1-AT1'),
            'num': answer(doc={'code': 1}), 'dead': boom(OSError('x'))}
        says = {'a': A[1], 'b': A[7]}
        for n in range(1, 4):
            for seq in itertools.product(sorted(kinds), repeat=n):
                if any(s not in says for s in seq[:-1]) and n > 2:
                    continue
                want, fail = '', False
                for s in seq:
                    if s not in says:
                        fail = True
                        break
                    want += text(says[s], fo) + '\n'
                rep.ev()
                with Web([kinds[s] for s in seq]) as net:
                    o = scripts.run('receipt.py', ['url', fo],
                        ''.join(url(m) + '\n' for m in range(n)))
                if o.out != want or (o.rc != 0) != fail:
                    rep.fail('answers %r: rc %r, %r (%r), not %r' % (seq, o.rc, o.out, o.exc, want),
                        [seq, fo])
                asked = [('GET', url(m)) for m in range(want.count('\n') + fail)]
                rep.expect(net.asked, asked, 'requests for %r' % (seq,))
                rep.state((fo, seq))
                rep.trace()
    elif kind == 'args':
        words = IN + ('json', '', 'JWS', '-h', 'QR')
        for n in range(4):
            for args in itertools.product(words, repeat=n):
                if n == 3 and not set(args) <= {'jws', 'qr', ''}:
                    continue
                rep.ev()
                A = some()[1]
                o = scripts.run('receipt.py', list(args),
                    text(A, args[0]) + '\n' if args and args[0] in TEXT else 'x\n')
                rep.state(args)
                if n == 2 and args[0] in TEXT and args[1] in OUT:
                    rep.expect((o.rc, o.out), (0, text(A, args[1]) + '\n'), 'arguments %r' % (args,))
                elif n == 2 and args[0] == 'url' and args[1] in OUT:
                    if not o.rc:
                        rep.fail('x is no URL: %r' % o, args)
                else:
                    # a message and nothing converted
                    if o.rc or o.exc or not o.out.strip() or text(A, 'jws') in o.out:
                        rep.fail('arguments %r: %r' % (args, o), args)
                    for f in OUT:
                        if text(A, f) in o.out:
                            rep.fail('arguments %r: converted' % (args,), args)
                    word = None
                    if n == 2:
                        for f in TEXT:
                            if f not in o.out:
                                word = f
                    if word:
                        rep.fail('arguments %r: %s not offered: %r' % (args, word, o.out), args)
    elif kind == 'empty':
        for fi, fo in itertools.product(IN, OUT):
            rep.ev()
            o = call(fi, fo, '')
            rep.expect((o.rc, o.out), (0, ''), 'no line, %s -> %s' % (fi, fo))
            rep.state((fi, fo))
    rep.sample(case)
