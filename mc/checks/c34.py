"""C34: an interrupted read or write is never taken for success."""
import builtins
import errno
import io
import json
import os
import resource
import subprocess
import sys

from librksv import depparser, key_store, utils, verification_state as vs

from .. import drive, env, ref, scripts
from ..world import SYS
from .c21 import CONF, Dir, build
from .c21 import doc as dep_doc
from .c21 import recs as some
from . import c22, c27, c31

ID = 'C34'
LEVEL = 'fault_enumeration'
RULE = ('every command of every tool (state and key store tool, split, merge, convert, cert_extract, '
    'receipt, img_decode, receipt_host, demo, verify, verify_receipt) and the load and save dialogs of the GUI: '
    'the medium fails (a) at every byte of every file written, (b) at every byte of standard '
    'output, (c) at every byte of every file and of standard input read, (d) each file ends early '
    'at every byte, (e) a single write of 32 bytes to a file, or to standard output, fails half done. Every run but (d) has to report an error unless the result is complete; what is left '
    'behind has to be the old or the new content or be refused by the readers; displaying '
    'commands and failing reads change nothing. All commands repeated as real processes at '
    '/dev/full and under a file size limit. Non-trivial: distinct (command, fault point) pairs')
ASSUMPTIONS = ['The file size limit of the kernel stands in for a full disk, a raw stream that raises '
    'for a failing medium.',
    'Data in line formats (CSV, lists of receipts, INI, base64 keys) that end early are not '
    'recognisable as such.']
CASE_TIMEOUT = 20000 if env.THOROUGH else 700
STEP = 1 if env.THOROUGH else 3

S = SYS['open-cert']
L0 = ref.keyid(ref.cert_serial('leaf0self'))
KS = json.dumps(ref.keystore(['leaf0self'], [(c27.U, 'leaf1')]), indent=2)
B1, B2 = build('A2'), build('A2C1')
DEP1, DEP2 = json.dumps(dep_doc(B1)), json.dumps(dep_doc(B2))
GOOD = json.dumps(ref.dep(([c22.START, c22.R1, c22.R2], 'leaf0self', []), ([c22.R3], 'leaf0self', [])))
STATE1 = json.dumps(c22.doc([c22.rj(c22.START, c22.R1, 1000), c22.rj(c22.OS_)], drive.UNIQUE, ['B0']))
STATE2 = json.dumps(c22.doc([c22.rj(c22.START, c22.R5, 5, True, 'x')], drive.UNIQUE))
PEMC, PEMK = ref.cert_pem('leaf1self'), ref.Key('leaf2').pub_pem


class Cmd(object):
    """out: what standard output holds ('dep', 'state', 'lines', None), shows: only displays"""

    def __init__(self, name, script, args, files=None, stdin='', out=None, shows=False, ends=(),
            environ=None):
        self.name, self.script, self.args, self.stdin = name, script, list(args), stdin
        self.files = {k: v.encode() if isinstance(v, str) else v for k, v in (files or {}).items()}
        self.out, self.shows, self.ends, self.environ = out, shows, ends, environ


def commands():
    ret = []
    st = {'state': STATE1}
    for c in (('create',), ('addCashRegister',), ('resetCashRegister', '0'), ('deleteCashRegister', '0'),
            ('setLastReceiptJWS', '0', c22.R2), ('setLastTurnoverCounter', '1', '-12'),
            ('setChainNextTo', '0', c22.CHAIN), ('toggleNeedRestoreReceipt', '0'),
            ('setStartReceiptJWS', '1', c22.START)):
        ret.append(Cmd('state ' + c[0], 'verification_state.py', ('state',) + c, st,
            ends=('state',) if c[0] != 'create' else ()))
    ret.append(Cmd('state show', 'verification_state.py', ('state', 'show'), st, out='lines', shows=True,
        ends=('state',)))
    ret.append(Cmd('state ids', 'verification_state.py', ('state', 'readUsedReceiptIds', 'ids'),
        dict(st, ids='B\u00e4\n'), ends=('state',)))
    ret.append(Cmd('state copy', 'verification_state.py', ('state', 'copyCashRegister', '1', 'other', '0'),
        dict(st, other=STATE2), ends=('state', 'other')))
    ret.append(Cmd('state update', 'verification_state.py', ('state', 'updateCashRegister', '1', 'dep', 'key'),
        dict(st, dep=GOOD, key=ref.B64KEY), ends=('state', 'dep')))
    ret.append(Cmd('state receipt', 'verification_state.py', ('state', 'fromArbitraryReceipt', 'jws', c22.R1, 'key'),
        dict(st, key=ref.B64KEY + '\n')))
    ret.append(Cmd('state start', 'verification_state.py', ('state', 'fromArbitraryStartReceipt', 'jws', c22.START), st))
    ret.append(Cmd('state new', 'verification_state.py', ('state', 'create')))
    ks = {'ks': KS}
    ret += [Cmd('ks create', 'key_store.py', ('ks', 'create'), ks),
        Cmd('ks new', 'key_store.py', ('ks', 'create')),
        Cmd('ks add cert', 'key_store.py', ('ks', 'add', 'pem'), dict(ks, pem=PEMC), ends=('ks', 'pem')),
        Cmd('ks add key', 'key_store.py', ('ks', 'add', 'pem', 'k'), dict(ks, pem=PEMK), ends=('ks', 'pem')),
        Cmd('ks del', 'key_store.py', ('ks', 'del', L0), ks, ends=('ks',)),
        Cmd('ks set', 'key_store.py', ('ks', 'setSymmetricKey'), ks, stdin=c27.KEY2 + '\n', ends=('ks',)),
        Cmd('ks unset', 'key_store.py', ('ks', 'delSymmetricKey'), ks, ends=('ks',)),
        Cmd('ks ini', 'key_store.py', ('ks', 'fromLegacyIni'), ks, stdin=c27.INIS['ini1']),
        Cmd('ks list', 'key_store.py', ('ks', 'list'), ks, out='lines', shows=True, ends=('ks',)),
        Cmd('ks show', 'key_store.py', ('ks', 'showSymmetricKey'), ks, out='lines', shows=True, ends=('ks',)),
        Cmd('ks toini', 'key_store.py', ('ks', 'toLegacyIni'), ks, out='lines', shows=True, ends=('ks',))]
    for n in ('1', '2', '9'):
        ret.append(Cmd('split ' + n, 'split.py', (n, 'o'), stdin=DEP2, ends=('',)))
    ret.append(Cmd('certs', 'cert_extract.py', ('o',), stdin=DEP2, ends=('',)))
    two = {'a': DEP1, 'b': DEP2}
    for e in (None, '1'):
        ret.append(Cmd('merge %s' % e, 'merge.py', ('a', 'b'), two, out='dep', shows=True,
            ends=('a', 'b'), environ=e and {'RKSV_DEP_CHUNKSIZE': e}))
        ret.append(Cmd('nomerge %s' % e, 'merge.py', ('nomerge', 'a', 'b'), two, out='dep', shows=True,
            ends=('a', 'b'), environ=e and {'RKSV_DEP_CHUNKSIZE': e}))
        ret.append(Cmd('tocsv %s' % e, 'convert.py', ('json2csv',), stdin=DEP2, out='lines', shows=True, ends=('',),
            environ=e and {'RKSV_DEP_CHUNKSIZE': e}))
    csv = '\n'.join([c21_header()] + [ref.Rec(j).csv() for j in some(3)]) + '\n'
    ret.append(Cmd('tojson', 'convert.py', ('csv2json',), stdin=csv, out='dep', shows=True))
    js = some(3)
    for fi, fo in (('jws', 'qr'), ('qr', 'ocr'), ('ocr', 'csv'), ('csv', 'jws'), ('jws', 'url')):
        t = {'jws': lambda j: j, 'qr': lambda j: ref.Rec(j).qr(), 'ocr': lambda j: ref.Rec(j).ocr(),
            'csv': lambda j: ref.Rec(j).csv()}[fi]
        ret.append(Cmd('%s to %s' % (fi, fo), 'receipt.py', (fi, fo), stdin='\n'.join(map(t, js)) + '\n',
            out='lines', shows=True))
    v = {'ks': KS, 'dep': GOOD}
    for a in ((), ('chunksize', '0'), ('chunksize', '1'), ('chunksize', '3', 'json')):
        ret.append(Cmd(' '.join(('verify',) + a), 'verify.py', a + ('ks', 'dep'), v, shows=True,
            ends=('ks', 'dep')))
    for a in (('state',), ('state', 'continue'), ('state', '0', 'chunksize', '2'), ('state', '0', 'chunksize', '0')):
        new = json.dumps(c22.doc([c22.rj()] if len(a) > 1 else [], drive.UNIQUE))
        ret.append(Cmd(' '.join(('verify',) + a), 'verify.py', a + ('ks', 'dep'), v, stdin=new, out='state',
            shows=True, ends=('ks', 'dep', '')))
    ret.append(Cmd('verify newstate', 'verify.py', ('state',), out='state', shows=True))
    for f in ('jws', 'qr'):
        ret.append(Cmd('receipts ' + f, 'verify_receipt.py', (f, 'ks'), {'ks': KS}, stdin=''.join(
            (j if f == 'jws' else ref.Rec(j).qr()) + '\n' for j in (c22.START, c22.R1, c22.R3)), out='lines?',
            shows=True, ends=('ks',)))
    ret.append(Cmd('receipt', 'verify_receipt.py', ('jws', 'ks', c22.R1), {'ks': KS}, out='lines?', shows=True,
        ends=('ks',)))
    return ret


def c21_header():
    from .c21 import HEADER
    return HEADER


# --------------------------------------------------------------------- faults

class Limit(object):
    """No file may grow beyond n bytes."""

    def __init__(self, n):
        self.n = n

    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.n, self.old[1]))

    def __exit__(self, *a):
        resource.setrlimit(resource.RLIMIT_FSIZE, self.old)


class Medium(object):
    """Opening the file for reading yields a broken stream."""

    def __init__(self, path, data, n):
        self.path, self.data, self.n, self.raws = os.path.realpath(path), data, n, []

    def open(self, file, mode='r', *a, **kw):
        if isinstance(file, (str, bytes, os.PathLike)) and os.path.realpath(os.fsdecode(file)) == self.path \
                and not set(mode) & set('wax+'):
            self.raws.append(scripts.Broken(self.data, self.n, True))
            return io.BufferedReader(self.raws[-1], 64) if 'b' in mode else self.raws[-1].text()
        return self.real(file, mode, *a, **kw)

    def __enter__(self):
        self.real = builtins.open
        builtins.open = io.open = self.open
        return self

    @property
    def hit(self):
        return any(r.hit for r in self.raws)

    def __exit__(self, *a):
        builtins.open = io.open = self.real


class Flaky(io.FileIO):
    """A file whose n-th write, counted by the medium, fails half done, once."""

    def __init__(self, path, mode, medium):
        super(Flaky, self).__init__(path, mode)
        self.medium = medium

    def write(self, b):
        m = self.medium
        m.count += 1
        if m.count == m.n:
            m.hit = True
            super(Flaky, self).write(bytes(b)[:len(b) // 2])
            raise OSError(errno.EIO, os.strerror(errno.EIO))
        return super(Flaky, self).write(b)


class Once(object):
    """Of all writes (of few bytes each) to files the n-th fails, the later ones do not."""

    def __init__(self, n):
        self.n, self.count, self.hit = n, 0, False

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, *a, **kw):
        if not isinstance(file, (str, bytes, os.PathLike)) or not set(mode) & set('wax+'):
            return self.real(file, mode, buffering, encoding, errors, newline, *a, **kw)
        raw = Flaky(file, mode.replace('b', '').replace('t', ''), self)
        if '+' in mode:
            f = io.BufferedRandom(raw, 32)
        else:
            f = io.BufferedWriter(raw, 32)
        if 'b' not in mode:
            f = io.TextIOWrapper(f, encoding or 'utf-8', errors, newline)
            f._CHUNK_SIZE = 32
        return f

    def __enter__(self):
        self.real = builtins.open
        builtins.open = io.open = self.open
        return self

    def __exit__(self, *a):
        builtins.open = io.open = self.real


def prepare(d, c):
    for n, data in c.files.items():
        with open(os.path.join(d, n), 'wb') as f:
            f.write(data)


def look(d):
    ret = {}
    for p, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(p, f), 'rb') as g:
                ret[os.path.relpath(os.path.join(p, f), d)] = g.read()
    return ret


def start(c, d, stdin=None, room=None):
    return scripts.run(c.script, c.args, c.stdin if stdin is None else stdin, cwd=d, pipe=True,
        environ=c.environ, room=room)


# -------------------------------------------------------------------- readers

DOCUMENTED = (utils.RKSVException, ValueError, RuntimeError)


def read_dep(text):
    """What each of the parsers reads (None: refused)."""
    ret = []

    def plain(chunks):
        out = []
        for ch in chunks:
            for recs, cert, chain in ch:
                out.append((list(recs), cert and utils.exportCertToPEM(cert),
                    [utils.exportCertToPEM(x) for x in chain]))
        return out
    for how in (lambda: depparser.IncrementalDEPParser.fromFd(io.StringIO(text), True),
            lambda: depparser.IncrementalDEPParser.fromFd(io.StringIO(text), False),
            lambda: depparser.CertlessStreamDEPParser(io.StringIO(text)),
            lambda: depparser.FullFileDEPParser(io.StringIO(text), 1),
            lambda: depparser.DictDEPParser(utils.readJsonStream(io.StringIO(text)), 1)):
        try:
            ret.append(plain(how().parse(0)))
        except DOCUMENTED:
            ret.append(None)
    return ret


def read_state(text):
    try:
        s = vs.ClusterState.readStateFromJson(utils.readJsonStream(io.StringIO(text)))
        return json.dumps(s.writeStateToJson(), sort_keys=True)
    except DOCUMENTED:
        return None


def read_store(text):
    try:
        j = utils.readJsonStream(io.StringIO(text))
        s = key_store.KeyStore.readStoreFromJson(j)
        k = utils.loadKeyFromJson(j)
        return json.dumps(s.writeStoreToJson(repr(k)), sort_keys=True)
    except DOCUMENTED:
        return None


def read_cert(text):
    s = key_store.KeyStore()
    try:
        s.putPEMCert(text)
    except DOCUMENTED:
        return None
    return json.dumps(s.writeStoreToJson(None), sort_keys=True)


def mistaken(name, got, want):
    """Is what is left read as something else than what was to be written?"""
    g = got.decode('utf-8', 'replace')
    w = want.decode('utf-8') if want is not None else ''
    if name == 'state':
        r = read_state(g)
        return r is not None and r != read_state(w)
    if name == 'ks':
        r = read_store(g)
        return r is not None and r != read_store(w)
    if name.endswith('.crt'):
        r = read_cert(g)
        return r is not None and r != read_cert(w)
    if name.endswith('.json') or name == 'dep':
        return any(a is not None and a != b for a, b in zip(read_dep(g), read_dep(w)))
    return False


# ------------------------------------------------------------------ the cases

def sound(rep, c):
    """The command without any fault: (files before, after, result)"""
    with Dir() as d:
        prepare(d, c)
        before = look(d)
        o = start(c, d)
        after = look(d)
    if o.rc or o.exc:
        rep.fail('%s fails without a fault: %r' % (c.name, o))
        return None
    if c.shows and after != before:
        rep.fail('%s changes files' % c.name)
        return None
    return before, after, o


def write(rep, c):
    """The disk is full after n bytes of a file."""
    s = sound(rep, c)
    if s is None:
        return
    before, after, o0 = s
    new = [f for f in after if after[f] != before.get(f)]
    top = max([len(after[f]) for f in new] or [0])
    if c.shows:
        points = [0, 1, 7]
    else:
        points = range(top + 2)
    for n in points:
        with Dir() as d:
            prepare(d, c)
            with Limit(n):
                o = start(c, d)
            left = look(d)
        rep.ev()
        rep.state(('write', c.name, n))
        rep.outcome('write error' if o.rc else 'complete')
        if c.shows and (left != before or o.rc or o.out != o0.out):
            rep.fail('%s at a full disk: %r, files %s' % (c.name, o, 'kept' if left == before else 'changed'),
                [c.name, n])
            continue
        if not o.rc and left != after:
            rep.fail('%s succeeds, but the disk was full at byte %d' % (c.name, n), [c.name, n])
        for f in before:
            if f not in new and left.get(f) != before[f]:
                rep.fail('%s: other file %s changed at byte %d' % (c.name, f, n), [c.name, n])
        for f in new:
            x = left.get(f)
            if x is None and f in before:
                rep.fail('%s: file %s is gone at byte %d' % (c.name, f, n), [c.name, n])
            elif x is not None and x not in (before.get(f), after[f]) and mistaken(f, x, after[f]):
                rep.fail('%s: file %s cut at byte %d is read as something else' % (c.name, f, n), [c.name, n,
                    x.decode('utf-8', 'replace')])
        if not rep.violations:
            continue
        break
    rep.trace()


def output(rep, c):
    """Standard output fails after n bytes."""
    s = sound(rep, c)
    if s is None:
        return
    before, after, o0 = s
    full = o0.out.encode()
    for n in range(len(full) + 1):
        with Dir() as d:
            prepare(d, c)
            o = start(c, d, room=n)
            left = look(d)
        rep.ev()
        rep.state(('output', c.name, n))
        rep.outcome('output error' if o.rc else 'complete')
        if (o.rc == 0) != (n == len(full)):
            rep.fail('%s: %r although only %d of %d bytes could be written' % (c.name, o, n, len(full)), [c.name, n])
        if not full.startswith(o.out.encode()[:n - 3 if n > 3 else 0]):
            rep.fail('%s: other output at byte %d' % (c.name, n), [c.name, n, o.out])
        if c.shows and left != before:
            rep.fail('%s: files changed' % c.name, [c.name, n])
        if c.out in ('dep', 'state') and n < len(full) and (n % STEP == 0 or len(full) - n < 60) \
                and mistaken(c.out, o.out.encode(), full):
            rep.fail('%s: output cut at byte %d is read as something else' % (c.name, n), [c.name, n, o.out])
        if rep.violations:
            break
    rep.trace()


def once(rep, c):
    """A single write fails half done."""
    s = sound(rep, c)
    if s is None:
        return
    before, after, o0 = s
    new = [f for f in after if after[f] != before.get(f)]
    n = 0
    while True:
        n += 1
        with Dir() as d:
            prepare(d, c)
            with Once(n) as m:
                o = start(c, d)
            left = look(d)
        if not m.hit:
            break
        rep.ev()
        rep.state(('once', c.name, n))
        rep.outcome('write error' if o.rc else 'complete')
        if not o.rc and left != after:
            rep.fail('%s succeeds, but write %d had failed' % (c.name, n), [c.name, n])
        for f in before:
            if f not in new and left.get(f) != before[f]:
                rep.fail('%s: other file %s changed at write %d' % (c.name, f, n), [c.name, n])
        for f in new:
            x = left.get(f)
            if x is None and f in before:
                rep.fail('%s: file %s is gone at write %d' % (c.name, f, n), [c.name, n])
            elif o.rc and x is not None and x not in (before.get(f), after[f]) and after[f].startswith(x) \
                    and mistaken(f, x, after[f]):
                rep.fail('%s: file %s cut at write %d is read as something else' % (c.name, f, n), [c.name, n,
                    x.decode('utf-8', 'replace')])
        if rep.violations:
            return
    if c.shows and m.count:
        rep.fail('%s writes to a file' % c.name)
    # standard output, write by write
    k = 0
    while o0.out and k < 2000:
        k += 1
        with Dir() as d:
            prepare(d, c)
            o = start(c, d, room=('once', k))
            left = look(d)
        if o.out == o0.out:
            break
        rep.ev()
        rep.state(('once out', c.name, k))
        rep.outcome('output error' if o.rc else 'complete')
        if not o.rc:
            return rep.fail('%s succeeds, but write %d to standard output had failed: %r' % (c.name, k, o), [c.name, k])
        if c.shows and left != before:
            return rep.fail('%s: files changed' % c.name, [c.name, k])
    rep.trace()


def claims(c, o):
    return o.rc == 0 or 'Verification successful' in o.err + o.out


def reading(rep, c, f, how):
    """File f ('': standard input) fails, or ends, after n bytes."""
    s = sound(rep, c)
    if s is None:
        return
    before, after, o0 = s
    data = c.files[f] if f else c.stdin.encode()
    for n in range(len(data) + 1):
        hit = True
        with Dir() as d:
            prepare(d, c)
            if how == 'error':
                if f:
                    with Medium(os.path.join(d, f), data, n) as raw:
                        o = start(c, d)
                else:
                    raw = scripts.Broken(data, n)
                    o = start(c, d, raw)
                hit = raw.hit
            else:
                cut = data[:n]
                hit = bool(data[n:].strip())
                if f:
                    with open(os.path.join(d, f), 'wb') as g:
                        g.write(cut)
                    before[f] = cut
                    o = start(c, d)
                    after[f] = after[f] if after[f] != data else cut
                else:
                    o = start(c, d, cut)
            left = look(d)
        rep.ev()
        rep.state((how, c.name, f, n))
        if f.startswith('pem') and how == 'end':
            hit = o.rc != 0     # refused, or read alike (see below)
        rep.outcome('read ' + how if hit else 'complete')
        where = '%s: %s %s at byte %d of %d' % (c.name, f or 'standard input', 'fails' if how == 'error' else 'ends',
            n, len(data))
        if hit:
            if claims(c, o):
                rep.fail(where + ', reported as success: %r' % o, [c.name, f, n])
            old = {k: v for k, v in left.items() if not k.startswith('o/')}
            if old != before:
                rep.fail(where + ', files changed', [c.name, f, n])
            for k, v in left.items():
                if k.startswith('o/') and v != after.get(k) and mistaken(k, v, after.get(k)):
                    rep.fail(where + ', file %s left' % k, [c.name, f, n])
            if c.out == 'state' and o.out:
                rep.fail(where + ', but a state is printed', [c.name, f, n, o.out])
            if c.out == 'dep' and (n % STEP == 0 or len(data) - n < 60) and mistaken('dep', o.out.encode(),
                    o0.out.encode()):
                rep.fail(where + ', but a readable DEP is printed', [c.name, f, n, o.out])
        elif o.rc or o.out != o0.out or (f.startswith('pem') and {k: v for k, v in left.items() if k != f} != {
                k: v for k, v in after.items() if k != f}):
            rep.fail(where + ': %r' % o, [c.name, f, n])
        if rep.violations:
            break
    rep.trace()


def host(rep, mode):
    """receipt_host.py does not start serving a part of its receipts."""
    import flask
    data = (DEP2 if mode == 'dep' else ''.join(j + '\n' for j in some(3))).encode()
    started = []
    real = flask.Flask.run
    flask.Flask.run = lambda *a, **kw: started.append(1)
    try:
        for n in range(len(data) + 1):
            for how in ('error', 'end'):
                if how == 'end' and mode == 'jws':
                    continue
                del started[:]
                raw = scripts.Broken(data, n)
                o = scripts.run('receipt_host.py', [mode], raw if how == 'error' else data[:n])
                hit = raw.hit if how == 'error' else n < len(data)
                rep.ev()
                rep.state(('host', mode, how, n))
                rep.outcome('read ' + how if hit else 'complete')
                if hit and (started or not o.rc) or not hit and (o.rc or not started):
                    rep.fail('receipt_host %s: %s at byte %d: %r %s' % (mode, how, n, o,
                        'served' if started else 'not served'), [mode, how, n])
                    return
    finally:
        flask.Flask.run = real
    rep.trace()


def same(c, text):
    """The IDs of a printed state have no order."""
    if c.out != 'state':
        return text
    j = json.loads(text)
    j['usedReceiptIds']['backendData'].sort()
    return j


def real(rep, c):
    """The command as a process of its own."""
    e = dict(os.environ, PYTHONPATH=env.REPO, LC_ALL='C.UTF-8', **(c.environ or {}))

    def go(d, stdout, limit=None):
        def pre():
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        return subprocess.run([sys.executable, '-B', '-W', 'ignore', os.path.join(env.REPO, c.script)] + c.args,
            input=c.stdin.encode(), stdout=stdout, stderr=subprocess.PIPE, cwd=d, env=e, timeout=120,
            preexec_fn=pre if limit is not None else None)
    s = sound(rep, c)
    if s is None:
        return
    before, after, o0 = s
    with Dir() as d:
        prepare(d, c)
        p = go(d, subprocess.PIPE)
        rep.expect((p.returncode, same(c, p.stdout.decode()), look(d)), (0, same(c, o0.out), after),
            c.name + ' as a process')
    if o0.out:
        with Dir() as d, open('/dev/full', 'wb') as full:
            prepare(d, c)
            p = go(d, full)
            if not p.returncode:
                rep.fail('%s succeeds at /dev/full: %r' % (c.name, p.stderr))
            if c.shows:
                rep.expect(look(d), before, c.name + ' at /dev/full')
    new = [f for f in after if after[f] != before.get(f)]
    for n in (0, 20):
        if new:
            with Dir() as d:
                prepare(d, c)
                p = go(d, subprocess.PIPE, n)
                left = look(d)
            if not p.returncode:
                rep.fail('%s succeeds with a file size limit of %d' % (c.name, n))
            with Dir() as d:
                prepare(d, c)
                with Limit(n):
                    start(c, d)
                rep.expect(left, look(d), '%s with a limit of %d as a process' % (c.name, n))
    rep.ev(3)
    rep.trace(3)
    rep.state(('real', c.name))


# ------------------------------------------------------------------------ GUI

def K():
    from .. import kivystub
    return kivystub


def gui():
    from .. import gui as G
    return G.Gui(1)


def settle(g):
    for _ in range(200):
        if g.pending():
            g.done(0)
        elif K().Clock.queue:
            g.tick()
        else:
            return


def dialogs(rep, what):
    with Dir() as d:
        if what == 'export':
            g = gui()
            _ = builtins._
            p = os.path.join(d, 'ks')
            g.app.keyStore = key_store.KeyStore.readStoreFromJson(json.loads(KS))
            want = read_store(json.dumps(json.loads(KS), sort_keys=True).replace(ref.B64KEY, ref.B64KEY))
            size = None
            n = 0
            while size is None or n <= size + 1:
                if os.path.exists(p):
                    os.unlink(p)
                for old in (None, b'{}'):
                    if old is not None:
                        with open(p, 'wb') as f:
                            f.write(old)
                    g.press(g.button(g.kw, _('Export')))
                    with Limit(n if size is not None else 1 << 30):
                        errs = g.choose(p, 'Save')
                    settle(g)
                    data = b''
                    if os.path.exists(p):
                        with open(p, 'rb') as f:
                            data = f.read()
                    if size is None:
                        size, whole = len(data), data
                        n = -1
                        break
                    rep.ev()
                    rep.state(('gui', what, n, old))
                    rep.outcome('write error' if errs else 'complete')
                    if g.crash or g.dialog() is not None or len(errs) != (n < size) or (
                            not errs and data != whole):
                        return rep.fail('export to a disk with %d of %d bytes left: errors %r, crash %r' % (n, size,
                            errs, g.crash))
                    if errs and data not in (b'', old) and mistaken('ks', data, whole):
                        return rep.fail('exported store cut at %d is read as something else' % n)
                n += 1
            rep.trace()
            return
        data = {'import': KS, 'pem': PEMC, 'pub': PEMK, 'dep': GOOD, 'receipt': c22.R1, 'aes': ref.B64KEY,
            'aesjson': KS, 'image': None}[what]
        name = {'aesjson': 'x.json'}.get(what, 'x')
        if what == 'image':
            from .c30 import picture
            data = picture('PNG')[0]
        else:
            data = data.encode()
        p = os.path.join(d, name)
        with open(p, 'wb') as f:
            f.write(data)
        for n in range(len(data) + 1):
            g = gui()
            _ = builtins._
            g.app.keyStore = key_store.KeyStore.readStoreFromJson(json.loads(KS))
            g.app.updateKSWidget()
            settle(g)
            before = (g.store_json(), g.store_tree(), g.tree(), g.vr.receiptInput.text, g.dep_key.text)
            if what == 'import':
                g.press(g.button(g.kw, _('Import')))
            elif what in ('pem', 'pub'):
                g.press(g.find(g.kw, 'TreeView').root.nodes[what == 'pem'])
            elif what == 'dep':
                g.press([b for b in g.buttons(g.vd) if b.text == _('Load DEP')][0])
            elif what in ('receipt', 'image'):
                g.press([b for b in g.buttons(g.vr) if b.text == '...'][0])
            else:
                g.press([b for b in g.buttons(g.vd) if b.text == _('Load AES Key')][0])
            if g.dialog() is None:
                return rep.fail('%s: no dialog' % what)
            with Medium(p, data, n) as raw:
                errs = g.choose(p)
            g2 = len(g.errors)
            settle(g)
            errs = list(errs or ()) + g.errors[g2:]
            after = (g.store_json(), g.store_tree(), g.tree(), g.vr.receiptInput.text, g.dep_key.text)
            rep.ev()
            rep.state(('gui', what, n))
            rep.outcome('read error' if raw.hit else 'complete')
            if g.crash:
                return rep.fail('%s failing at byte %d crashes: %s' % (what, n, g.crash[2]))
            if raw.hit and (len(errs) != 1 or after != before or g.dialog() is not None):
                return rep.fail('%s failing at byte %d: errors %r, %s' % (what, n, errs,
                    'changed' if after != before else 'unchanged'))
        rep.trace()


def cases():
    ret = []
    for i, c in enumerate(commands()):
        ret.append(['write', i, c.name])
        ret.append(['once', i, c.name])
        if c.out in ('dep', 'state', 'lines'):
            ret.append(['output', i, c.name])
        for f in sorted(c.files):
            ret.append(['error', i, c.name, f])
        if c.stdin:
            ret.append(['error', i, c.name, ''])
        for f in c.ends:
            ret.append(['end', i, c.name, f])
        ret.append(['real', i, c.name])
    ret += [['host', m] for m in ('dep', 'jws')]
    ret += [['gui', w] for w in ('export', 'import', 'pem', 'pub', 'dep', 'receipt', 'aes', 'aesjson', 'image')]
    return ret


def run(case, rep):
    kind = case[0]
    if kind == 'host':
        return host(rep, case[1])
    if kind == 'gui':
        return dialogs(rep, case[1])
    c = commands()[case[1]]
    if kind == 'write':
        write(rep, c)
    elif kind == 'once':
        once(rep, c)
    elif kind == 'output':
        output(rep, c)
    elif kind == 'real':
        real(rep, c)
    else:
        reading(rep, c, case[3], kind)
