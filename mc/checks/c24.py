"""C24: everything that crosses process borders survives pickling."""
import copy
import importlib
import inspect
import itertools
import json
import multiprocessing
import pickle
import pkgutil
import warnings

import librksv
from librksv import algorithms, depparser, key_store, receipt, utils
from librksv import verification_state as vs, verify, verify_receipt

from .. import drive, env, ref
from ..world import SYS, cuts
from . import c07, c14, c16, c17, c18

ID = 'C24'
LEVEL = 'exploration'
RULE = ('every exception class of the library x every combination of 7 values for its arguments and '
    'every number of optional ones x 6 pickle protocols, copying, twice, and through a real '
    'process pool; every error really raised by a corpus of ~5000 failing verifications, DEPs, '
    'receipts, key stores and states; every certificate, key, key store, verifier, receipt, '
    'parser group and state of the pools: same type, message, attributes and verdicts afterwards. '
    'Non-trivial: distinct objects')

warnings.simplefilter('ignore', DeprecationWarning)
STR = ['B1', '', '\u00e4{0}%s"{}', 'x\n\u2028y', '\\', 'a' * 300, '\U0001f4b6']
INT = [0, 1, -1, 10 ** 20]


def classes():
    ret = set()
    mods = [importlib.import_module('librksv.' + m.name) for m in pkgutil.iter_modules(librksv.__path__)
        if m.name != 'test']
    for m in mods:
        for n, c in vars(m).items():
            if inspect.isclass(c) and issubclass(c, Exception) and c.__module__.startswith('librksv'):
                ret.add((c.__module__, c.__qualname__))
    return sorted(ret)


def cls(mod, name):
    return getattr(importlib.import_module(mod), name)


def argsets(c):
    """All argument lists tried for a class."""
    sig = inspect.signature(c.__init__)
    ps = [p for p in list(sig.parameters.values())[1:] if p.kind == p.POSITIONAL_OR_KEYWORD]
    need = len([p for p in ps if p.default is p.empty])
    for n in range(need, len(ps) + 1):
        pools = []
        for p in ps[:n]:
            v = list(STR)
            if 'idx' in p.name.lower():
                v = list(INT)
            if p.default is None:
                v.append(None)
            pools.append(v if n < 3 or env.THOROUGH else v[:3] + v[-1:])
        for a in itertools.product(*pools):
            yield a


def look(e):
    """What a user sees of an exception."""
    return {'type': type(e), 'str': str(e), 'repr': repr(e), 'args': e.args,
        'attributes': {k: v for k, v in vars(e).items() if not k.startswith('_')}}


def check_exc(rep, e, what, protos=None):
    rep.ev()
    w = look(e)
    for p in protos or range(pickle.HIGHEST_PROTOCOL + 1):
        try:
            b = pickle.loads(pickle.dumps(e, p))
            again = pickle.loads(pickle.dumps((1, [b, b]), p))[1]
        except Exception as x:
            rep.fail('%s does not survive pickling (protocol %d): %r' % (what, p, x), repr(e))
            return
        rep.expect(look(b), w, '%s after pickling, protocol %d' % (what, p))
        rep.expect(look(again[0]), w, '%s after pickling twice, protocol %d' % (what, p))
    for n, f in (('copied', copy.copy), ('deep-copied', copy.deepcopy)):
        try:
            rep.expect(look(f(e)), w, '%s %s' % (what, n))
        except Exception as x:
            rep.fail('%s cannot be %s: %r' % (what, n, x), repr(e))
    rep.state([type(e).__name__, repr(e)])
    rep.outcome(type(e).__name__)


def throw(mod, name, args):
    raise cls(mod, name)(*args)


def giveback(x):
    return x


def class_case(rep, mod, name):
    c = cls(mod, name)
    made = 0
    for a in argsets(c):
        try:
            e = c(*a)
        except Exception:
            continue
        made += 1
        check_exc(rep, e, '%s%r' % (name, a))
    if not made:
        rep.count('never constructed ' + name)


def real_case(rep, part):
    """Errors and values out of real worker processes."""
    pool = multiprocessing.Pool(2)
    try:
        for mod, name in part:
            c = cls(mod, name)
            for a in itertools.islice(argsets(c), 0, None, 5):
                try:
                    w = look(c(*a))
                except Exception:
                    continue
                rep.ev()
                try:
                    pool.apply_async(throw, (mod, name, a)).get(60)
                except Exception as e:
                    rep.expect(look(e), w, '%s%r out of a worker' % (name, a))
                else:
                    rep.fail('%s%r lost' % (name, a))
                rep.trace()
    finally:
        pool.close()
        pool.join()


def raised(part):
    """(description, exception) of failing operations."""
    if part[0] == 'verify':
        _, s, b, f = part
        S = c07.system(s)
        for i in range(5):
            recs = c07.build(S, c07.BASES[b], f, i)
            js = [r[0] for r in recs]
            for key in (S.aes, None):
                for cs in (0, 1, 2):
                    try:
                        verify.verifyParsedDEP(drive.parser_for(S.dep(js), 'dict', 1), drive.ks(S.ks), key,
                            None, None, None, 1, cs)
                    except Exception as e:
                        yield '%s at %d' % (f, i), e
    elif part[0] == 'receipt':
        j = ref.Register().make('std', 123)[0]
        r = ref.Rec.of(j)
        for fmt, t in (('fromJWSString', j), ('fromBasicCode', r.qr()), ('fromOCRCode', r.ocr()),
                ('fromCSV', r.csv())):
            for i in range(part[1], len(t), 4):
                for x in ('', '_', '.', '\u00e4', t[i:i + 1] * 2, ';', '{', '%'):
                    try:
                        getattr(receipt.Receipt, fmt)(t[:i] + x + t[i + 1:])
                    except Exception as e:
                        yield '%s with %r at %d' % (fmt, x, i), e
            for i in range(part[1], len(t), 4):
                try:
                    getattr(receipt.Receipt, fmt)(t[:i])
                except Exception as e:
                    yield '%s cut at %d' % (fmt, i), e
    else:
        d0 = part[1]
        read = {'dep': lambda d: verify.verifyDEP(d, drive.ks(SYS['open-cert'].ks), None),
            'parse': lambda d: [list(c) for c in depparser.DictDEPParser(d).parse(1)],
            'stream': lambda d: [list(c) for c in drive.parser_for(d, 'stream').parse(1)],
            'store': key_store.KeyStore.readStoreFromJson,
            'state': vs.ClusterState.readStateFromJson}[part[0]]
        for p in c14.paths(d0):
            for v in c14.VALUES + [c14.paths]:
                d = copy.deepcopy(d0)
                if v is c14.paths:
                    # the element is missing
                    if not p:
                        continue
                    del c14.get(d, p[:-1])[p[-1]]
                else:
                    d = c14.put(d, p, v)
                try:
                    read(d)
                except Exception as e:
                    if not isinstance(e, utils.RKSVException):
                        continue
                    yield '%s %r replaced by %.50r' % (part[0], p, v), e


def docs():
    S = SYS['open-chain']
    R = S.register()
    dep = S.dep([R.make()[0], R.make('std', 5)[0]])
    return {'dep': dep, 'parse': dep, 'stream': dep, 'store': SYS['open-chain'].ks, 'state': c18.DOCS[0]}


def pub(k):
    return utils.exportKeyToPEM(k)


CERTS = ['root0', 'root1', 'rootrsa', 'rooted', 'mid0', 'mid1', 'leaf0self', 'leaf1self', 'leaf2self',
    'leaf0mid1', 'leaf0root0', 'leaf0rsa', 'leaf0ed', 'leafrsa', 'leafp384', 'leafneg', 'leaf0fake']


def trips(x):
    for p in range(pickle.HIGHEST_PROTOCOL + 1):
        yield 'protocol %d' % p, pickle.loads(pickle.dumps(x, p))
    yield 'twice', pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(x))))
    a, b = pickle.loads(pickle.dumps((x, x)))
    yield 'pair', b
    yield 'deep copy', copy.deepcopy(x)


def objects(rep, kind):
    if kind == 'cert':
        for n in CERTS:
            c = ref.cert(n)
            for how, d in trips(c):
                rep.ev()
                what = 'certificate %s, %s' % (n, how)
                rep.expect(d == c and hash(d) == hash(c) and d.serial_number == c.serial_number, True, what)
                rep.expect(utils.exportCertToPEM(d), ref.cert_b64(n), what)
                for s in CERTS:
                    rep.expect(utils.verifyCert(d, ref.cert(s)), utils.verifyCert(c, ref.cert(s)), what +
                        ' signed by ' + s)
                    rep.expect(utils.verifyCert(ref.cert(s), d), utils.verifyCert(ref.cert(s), c), what +
                        ' signing ' + s)
                rep.expect(utils.certFingerprint(d), utils.certFingerprint(c), what)
            rep.state(n)
    elif kind == 'key':
        data = b'x'
        j = ref.Register().make('std', 5)[0]
        for n in ('leaf0', 'leaf1', 'leaf2', 'evil'):
            k = utils.loadPubKey(ref.Key(n).pub_pem)
            for how, d in trips(k):
                rep.ev()
                what = 'key %s, %s' % (n, how)
                rep.expect(pub(d), pub(k), what)
                for a in algorithms.ALGORITHMS.values():
                    rep.expect(a.verify(j, d), n == 'leaf0', what + ' verifying')
            rep.state(n)
    elif kind in ('store', 'verifier'):
        stores = [S.ks for S in SYS.values()] + [ref.keystore(CERTS[:n]) for n in (0, 1, 6)] + [
            ref.keystore([], [('U:ATU12345678-K0', 'leaf1'), ('S:1', 'leaf0')])]
        recs = []
        for S in SYS.values():
            R = S.register()
            recs += [R.make()[0], R.make('std', 5, False)[0], R.make('std', 0, False)[0],
                R.make('std', 7, sig=bytes(64))[0]]
        for n, sj in enumerate(stores):
            ks = key_store.KeyStore.readStoreFromJson(sj)
            if kind == 'store':
                for how, d in trips(ks):
                    rep.ev()
                    what = 'key store %d, %s' % (n, how)
                    rep.expect(d.writeStoreToJson('x'), ks.writeStoreToJson('x'), what)
                    for i in list(ks.getKeyIds()) + ['zz']:
                        rep.expect((d.getKey(i) and pub(d.getKey(i)), d.getCert(i)), (ks.getKey(i) and
                            pub(ks.getKey(i)), ks.getCert(i)), '%s key %r' % (what, i))
                    # still usable: the copies are independent
                    d.putPEMCert(ref.cert_pem('leaf1self'))
                    d.putPEMKey('new', ref.Key('evil').pub_pem)
                    rep.expect('new' in list(ks.getKeyIds()), False, what + ' shared')
                rep.state(n)
            for c in (None, 'leaf0self', 'leaf1self', 'leafrsa') if kind == 'verifier' else ():
                rv = verify_receipt.ReceiptVerifier(ks, c and ref.cert(c))

                def verdict(v, j):
                    a, e = drive.outcome(v.verifyJWS, j)
                    return look(e) if e is not None else (a[0].toJWSString(a[1].id()), a[1].id())
                want = [verdict(rv, j) for j in recs]
                for how, d in trips(rv):
                    for x, j in enumerate(recs):
                        rep.ev()
                        rep.expect(verdict(d, j), want[x], 'verifier %d %s, %s, receipt %d' % (n, c, how, x))
                rep.state([n, c])
    elif kind == 'state':
        for bk in (drive.UNIQUE, drive.NATURAL):
            S = SYS['open-cert']
            for ops in itertools.product(range(5), repeat=3):
                recs = c07.build(S, ops)
                try:
                    cs = verify.verifyDEP(S.dep([r[0] for r in recs][:3]), drive.ks(S.ks), S.aes, None, None,
                        drive.backend(bk))
                except utils.RKSVException:
                    continue
                want = drive.norm_state(cs.writeStateToJson())
                for how, d in trips(cs):
                    rep.ev()
                    rep.expect(drive.norm_state(d.writeStateToJson()), want, 'state %r, %s' % (ops, how))
                    rep.expect(d.cashRegisters, cs.cashRegisters, 'registers %r, %s' % (ops, how))
                    rep.expect(d.usedReceiptIds, cs.usedReceiptIds, 'used IDs %r, %s' % (ops, how))
                    for i in range(4):
                        # still behaves the same
                        rep.expect(*[drive.norm_state(x.writeStateToJson()) if not e else look(e) for x, e in
                            (drive.outcome(verify.verifyDEP, S.dep([recs[3][0]]), drive.ks(S.ks), S.aes, y,
                                0, drive.backend(bk)) for y in (copy.deepcopy(d), copy.deepcopy(cs)))],
                            what='continued %r, %s' % (ops, how)) if i == 0 else None
                for r in cs.cashRegisters:
                    for how, d in trips(r):
                        rep.expect(d, r, 'register %r, %s' % (ops, how))
                for how, d in trips(cs.usedReceiptIds):
                    rep.expect(d, cs.usedReceiptIds, 'IDs %r, %s' % (ops, how))
                rep.state([bk, ops])
    elif kind == 'groups':
        S = SYS['open-chain']
        R = S.register()
        js = [R.make()[0]] + [R.make('std', n)[0] for n in range(4)]
        for par in ('dict', 'full', 'file', 'stream'):
            for cs in (0, 1, 2, 9):
                p = drive.parser_for(S.dep(js[:3], js[3:]), par, 2)
                chunks = [[(list(r), c, list(ch)) for r, c, ch in c_] for c_ in p.parse(cs)]
                for how, d in trips(chunks):
                    rep.ev()
                    rep.expect([[([depparser.expandDEPReceipt(x) for x in r], c, ch) for r, c, ch in c_] for c_
                        in d], [[([depparser.expandDEPReceipt(x) for x in r], c, ch) for r, c, ch in c_] for c_
                        in chunks], 'groups of %s, chunks of %d, %s' % (par, cs, how))
                rep.state([par, cs])
    elif kind == 'receipt':
        R = ref.Register()
        for k in ('std', 'std', 'dummy', 'reversal'):
            for sign in (True, False):
                j = R.make(k, 5 if R.last else 0, sign)[0]
                for fmt, t in (('fromJWSString', j), ('fromBasicCode', ref.Rec.of(j).qr()), ('fromCSV',
                        ref.Rec.of(j).csv()), ('fromOCRCode', ref.Rec.of(j).ocr())):
                    ro, p = getattr(receipt.Receipt, fmt)(t)
                    for how, d in trips(ro):
                        rep.ev()
                        rep.expect((d.toJWSString(p), d.toBasicCode(p), d.toCSV(p), d.toOCRCode(p), d.isNull(),
                            d.isDummy(), d.isReversal(), d.isSignedBroken()), (j, ref.Rec.of(j).qr(),
                            ref.Rec.of(j).csv(), ref.Rec.of(j).ocr(), ref.Rec.of(j).null, ref.Rec.of(j).dummy,
                            ref.Rec.of(j).reversal, ref.Rec.of(j).broken), '%s receipt, %s' % (fmt, how))
                rep.state(j)


def cases():
    cl = classes()
    ret = [['class', m, n] for m, n in cl]
    ret += [['real', cl[i:i + 16]] for i in range(0, len(cl), 16)]
    ret += [['raised', 'verify', s, b, f] for s in ('open-cert', 'closed-ks') for b in range(len(c07.BASES))
        for f in c07.FAULTS]
    ret += [['raised', 'receipt', i] for i in range(4)]
    ret += [['raised', k] for k in docs()]
    ret += [['object', k] for k in ('cert', 'key', 'store', 'verifier', 'state', 'groups', 'receipt')]
    return ret


def run(case, rep):
    if case[0] == 'class':
        class_case(rep, case[1], case[2])
    elif case[0] == 'real':
        real_case(rep, case[1])
    elif case[0] == 'raised':
        part = case[1:] if len(case) > 2 else [case[1], docs()[case[1]]]
        seen = set()
        for what, e in raised(part):
            k = (type(e), str(e))
            if k not in seen:
                seen.add(k)
                check_exc(rep, e, what, (2, pickle.HIGHEST_PROTOCOL))
        rep.sample([case, len(seen)])
    else:
        objects(rep, case[1])
