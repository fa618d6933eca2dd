"""C18: verification states survive JSON, malformed states are rejected."""
import copy
import io
import itertools
import json
import pickle

from .. import drive, env, ref
from ..world import SYS
from .c14 import VALUES, paths, put, get
from librksv import depparser, utils, verification_state as vs

ID = 'C18'
LEVEL = 'model_checking'
RULE = ('every state reached along all receipt histories up to length 5 (6) over 5 kinds, both ID '
    'backends, 1-3 registers, 0 to 40 registers with up to 1000 IDs, and the product of field values: written, read (dictionary, text, '
    'with BOM, pickled, copied) and compared with the reference state, then continued by every '
    'kind of receipt with the same verdict and state; states with every node replaced by 26 '
    'values, removed, renamed (and pairs), every truncation and byte corruption of the file; '
    'oracle: type rules. Non-trivial: distinct states and malformed documents')

KINDS = [('std', 100), ('std', 0), ('dummy', 5), ('reversal', -50), ('broken', 7)]
S = SYS['open-cert']
JWS = ref.Register().make()[0]
FIELDS = {'startReceiptJWS': (None, JWS, 'x', ''), 'lastReceiptJWS': (None, JWS, 'y'),
    'lastTurnoverCounter': (0, 1, -1, 2 ** 31, -2 ** 63, 10 ** 40),
    'needRestoreReceipt': (True, False), 'chainNextTo': (None, 'AAAAAAAAAAA=', '')}
USED = {drive.UNIQUE: ([], ['1'], ['B1', 'b1', '\u00e4', '', '\U0001f4b6', 'a"b\\']),
    drive.NATURAL: tuple({'minId': a, 'maxId': b} for a in (None, 'B1', '') for b in (None, 'B10', '\u00e4'))}


def cases():
    ret = [['hist', b, k, l] for b in USED for k in range(len(KINDS)) for l in range(len(KINDS))]
    ret += [['fields', b, u] for b in USED for u in range(len(USED[b]))]
    ret += [['many', b, n] for b in USED for n in range(41)]
    for d in range(len(DOCS)):
        n = len(list(paths(DOCS[d])))
        ret += [['node', d, i] for i in range(n)] + [['pair', d, i] for i in range(n)]
    n = len(text())
    ret += [['text', a, min(n, a + 40)] for a in range(0, n, 40)]
    return ret


def reg(start=None, last=None, tc=0, need=False, chain=None):
    return ref.RState(start, last, tc, need, chain).json()


DOCS = [drive.cluster_json([reg(JWS, JWS, 5, True, 'AAAAAAAAAAA='), reg()], ['B0', 'B1']),
    drive.cluster_json([reg()], {'minId': 'B0', 'maxId': 'B1'}, drive.NATURAL)]


def text():
    return json.dumps(drive.cluster_json([reg('aa', 'bb', -12, True, 'cc'), reg()], ['B0', '\u00e4']),
        ensure_ascii=False).encode()


def expected(d):
    """Is this a well-formed state document?"""
    if not isinstance(d, dict) or not isinstance(d.get('cashRegisters'), list):
        return False
    opt = lambda x: x is None or isinstance(x, str)
    for r in d['cashRegisters']:
        if not isinstance(r, dict) or any(k not in r for k in FIELDS):
            return False
        if not all(opt(r[k]) for k in ('startReceiptJWS', 'lastReceiptJWS', 'chainNextTo')):
            return False
        if type(r['lastTurnoverCounter']) is not int or type(r['needRestoreReceipt']) is not bool:
            return False
    u = d.get('usedReceiptIds')
    if not isinstance(u, dict) or 'backendData' not in u:
        return False
    b = u['backendData']
    if u.get('backendType') == drive.UNIQUE:
        return isinstance(b, list) and all(isinstance(x, str) for x in b)
    if u.get('backendType') == drive.NATURAL:
        return isinstance(b, dict) and all(k in b and opt(b[k]) for k in ('minId', 'maxId'))
    return False


def strip(d):
    """The document without elements unknown to the format."""
    u = d['usedReceiptIds']
    b = u['backendData']
    return {'cashRegisters': [{k: r[k] for k in FIELDS} for r in d['cashRegisters']],
        'usedReceiptIds': {'backendType': u['backendType'], 'backendData': sorted(set(b))
            if isinstance(b, list) else {k: b[k] for k in ('minId', 'maxId')}}}


def roundtrip(rep, cs, want, what):
    """A state object must come back the same from every form."""
    rep.ev()
    d = cs.writeStateToJson()
    rep.expect(drive.norm_state(d), want, 'written state, ' + what)
    t = json.dumps(d)
    forms = {'dictionary': d, 'text': json.loads(t), 'ASCII': utils.readJsonStream(io.StringIO(
        json.dumps(d, ensure_ascii=True))), 'BOM': utils.readJsonStream(io.BytesIO(
        b'\xef\xbb\xbf' + json.dumps(d, ensure_ascii=False, indent=1).encode())),
        'file': utils.readJsonStream(io.BytesIO(t.encode()))}
    for n, f in forms.items():
        c2 = vs.ClusterState.readStateFromJson(f)
        rep.expect(drive.norm_state(c2.writeStateToJson()), want, '%s read back, %s' % (n, what))
        rep.expect(c2.cashRegisters, cs.cashRegisters, '%s registers, %s' % (n, what))
        rep.expect(c2.usedReceiptIds == cs.usedReceiptIds, True, '%s used IDs, %s' % (n, what))
        rep.expect(type(c2.usedReceiptIds), type(cs.usedReceiptIds), '%s backend, %s' % (n, what))
    for n, c2 in (('pickled', pickle.loads(pickle.dumps(cs))), ('copied', copy.deepcopy(cs))):
        rep.expect(drive.norm_state(c2.writeStateToJson()), want, '%s, %s' % (n, what))
    # what was written is independent of the state
    keep = json.dumps(drive.norm_state(d))
    for r in d['cashRegisters']:
        r['lastTurnoverCounter'] = 99
        r['startReceiptJWS'] = 'changed'
    b = d['usedReceiptIds']['backendData']
    b.append('changed') if isinstance(b, list) else b.update(maxId='changed')
    rep.expect(drive.norm_state(cs.writeStateToJson()), want, 'state changed through its JSON, ' + what)
    return json.loads(keep)


def reg_make(R, k):
    kind, amount = KINDS[k]
    if kind == 'broken':
        return R.make('std', amount, sign=False)
    return R.make(kind, amount)


def hist(rep, b, first):
    """All histories beginning with these two kinds."""
    bk = drive.backend(b)
    n = 6 if env.THOROUGH else 5
    for rest in (w for l in range(n - 1) for w in itertools.product(range(len(KINDS)), repeat=l)):
        R = S.register()
        recs = [R.make()] + [reg_make(R, k) for k in first + list(rest)]
        ctx = S.ctx_of
        used = set() if b == drive.UNIQUE else ref.NatSet()
        i, V, st, used = ref.walk(recs, ctx, None, used)
        cut = len(recs) if i is None else i
        js = [r[0] for r in recs[:cut]]
        cs = drive.verify.verifyDEP(S.dep(js), drive.ks(S.ks), ref.AESKEY, None, None, bk)
        u = sorted(used) if b == drive.UNIQUE else used.json()
        want = drive.norm_state(drive.cluster_json([st], u, b))
        what = '%s %r' % (b, [first + list(rest), cut])
        rep.trace()
        rep.state(want)
        d = roundtrip(rep, cs, want, what)
        # go on from the object and from what was read back
        R2 = S.register()
        R2.__dict__.update(R.__dict__)
        R2.last, R2.tc, R2.n = st.last, st.tc, R.n
        for k in range(len(KINDS)):
            j, sb = reg_make(R2.clone(), k)
            V, n2 = ref.step(st, used, j, sb, S.ctx)
            rep.ev()
            r1 = drive.verify_dep(S.dep([j]), S.ks, ref.AESKEY, d, 0)
            try:
                r2 = drive.Result(drive.verify.verifyDEP(S.dep([j]), drive.ks(S.ks), ref.AESKEY,
                    copy.deepcopy(cs), 0).writeStateToJson())
            except Exception as e:
                r2 = drive.Result(exc=e)
            rep.expect((r1.name, r1.state), (r2.name, r2.state), 'continued, %s + %r' % (what, KINDS[k]))
            rep.outcome(r1.name)
            if V:
                if r1.ok or not r1.documented:
                    rep.fail('continued, %s + %r: %s, expected one of %s' % (what, KINDS[k], r1.show(), V))
            else:
                rep.expect(r1.ok and r1.state['cashRegisters'], [n2.json()], 'continued, %s + %r: %s' % (
                    what, KINDS[k], r1.show()))




def check_doc(rep, d, what, use=False):
    want = expected(d)
    rep.ev()
    rep.state(repr(d))
    before = repr(d)
    cs, e = drive.outcome(vs.ClusterState.readStateFromJson, d)
    rep.expect(repr(d), before, 'document changed by reading, ' + what)
    rep.outcome(type(e).__name__ if e else 'ok')
    if e is not None:
        if not isinstance(e, vs.StateParseException):
            rep.fail('%s: %r' % (what, e))
        elif want:
            rep.fail('%s: rejected with %r' % (what, e))
        else:
            str(e), repr(e)
        return
    if not want:
        rep.fail('%s: accepted' % what)
        return
    rep.expect(drive.norm_state(cs.writeStateToJson()), drive.norm_state(strip(d)), what)
    if use:
        # accepted states may be unusable, but only in documented ways
        R = S.register()
        j = R.make()[0]
        for idx in (None, 0, 1, -1, 7):
            for f in (lambda: drive.verify_dep(S.dep([j]), S.ks, ref.AESKEY, d, idx),
                    lambda: drive.verify_parsed(S.dep([j]), S.ks, ref.AESKEY, d, idx, chunksize=1,
                        nprocs=2)):
                try:
                    res = f()
                except UnicodeEncodeError:
                    continue
                rep.ev()
                if not res.ok and not res.documented:
                    rep.fail('%s, register %r: verification failed with %s' % (what, idx, res.show()))


def edits(d, p):
    par = get(d, p[:-1])
    e = copy.deepcopy(d)
    if isinstance(par, dict):
        del get(e, p[:-1])[p[-1]]
        yield 'removed', e
        for n in ('x', p[-1].lower(), p[-1].upper(), p[-1] + ' ', ''):
            e = copy.deepcopy(d)
            q = get(e, p[:-1])
            q[n] = q.pop(p[-1])
            yield 'renamed %r' % n, e
    else:
        get(e, p[:-1]).pop(p[-1])
        yield 'removed', e
        e = copy.deepcopy(d)
        get(e, p[:-1]).insert(p[-1], copy.deepcopy(par[p[-1]]))
        yield 'repeated', e


def run(case, rep):
    kind = case[0]
    if kind == 'hist':
        hist(rep, case[1], case[2:])
    elif kind == 'fields':
        b, u = case[1], USED[case[1]][case[2]]
        regs = [dict(zip(FIELDS, v)) for v in itertools.product(*FIELDS.values())]
        for r in regs:
            for rs in ([r], [regs[0], r], [r, regs[-1], r]):
                d = drive.cluster_json(rs, u, b)
                check_doc(rep, d, 'fields')
                cs = vs.ClusterState(drive.backend(b))
                for x in rs:
                    c = vs.CashRegisterState()
                    c.__dict__.update(x)
                    cs.cashRegisters.append(c)
                for i in u if isinstance(u, list) else ():
                    cs.usedReceiptIds.add(i)
                if not isinstance(u, list):
                    cs.usedReceiptIds = vs.ClusterState.readStateFromJson(d).usedReceiptIds
                if len(rs) < 3:
                    roundtrip(rep, cs, drive.norm_state(d), 'fields %r' % (d,))
        check_doc(rep, drive.cluster_json([], u, b), 'no register')
        roundtrip(rep, vs.ClusterState(drive.backend(b)), drive.norm_state(drive.cluster_json([],
            [] if b == drive.UNIQUE else {'minId': None, 'maxId': None}, b)), 'new')
    elif kind == 'many':
        # many registers and many IDs (of many lengths)
        b, n = case[1:]
        rs = [reg('s%d' % i, 'l%d' % i, 10 ** i if i % 2 else -i, i % 3 == 0, 'c%d' % i if i % 4 else None)
            for i in range(n)]
        for m in sorted({0, 1, n, 1000 * (n % 7 == 6)}):
            ids = ['%d' % i * (1 + i % 9) + 'x' * (i % 40 * 5) for i in range(m)]
            u = ids if b == drive.UNIQUE else {'minId': min(ids), 'maxId': max(ids)} if ids else {
                'minId': None, 'maxId': None}
            d = drive.cluster_json(rs, u, b)
            check_doc(rep, d, 'many')
            cs = vs.ClusterState.readStateFromJson(d)
            roundtrip(rep, cs, drive.norm_state(d), '%d registers, %d IDs' % (n, m))
            rep.expect(len(cs.cashRegisters), n, 'registers')
            for i in ids if b == drive.UNIQUE else ():
                if drive.outcome(cs.usedReceiptIds.check, i)[1] is None:
                    rep.fail('ID %r of %d is forgotten' % (i, m))
                if drive.outcome(cs.usedReceiptIds.check, i + '!')[1] is not None:
                    rep.fail('ID %r of %d is taken' % (i + '!', m))
    elif kind in ('node', 'pair'):
        d = DOCS[case[1]]
        p = list(paths(d))[case[2]]
        v1 = VALUES + [drive.UNIQUE, drive.NATURAL, JWS, 2 ** 70] if kind == 'node' else (
            None, [], {}, '', 1, True)
        if kind == 'node':
            check_doc(rep, d, 'document', True)
            if p:
                for w, e in edits(d, p):
                    check_doc(rep, e, '%r %s' % (p, w), True)
        for v in v1:
            e = put(d, p, v)
            check_doc(rep, e, '%r = %r' % (p, v), kind == 'node')
            if kind == 'pair' and p:
                for q in paths(e):
                    if q and q[:len(p)] != p and p[:len(q)] != q:
                        for w in v1:
                            check_doc(rep, put(e, q, w), '%r = %r, %r = %r' % (p, v, q, w))
                        for w, f in edits(e, q):
                            check_doc(rep, f, '%r = %r, %r %s' % (p, v, q, w))
    else:
        t = text()
        for i in range(case[1], case[2]):
            muts = [('cut at %d' % i, t[:i]), ('without %d' % i, t[:i] + t[i + 1:]),
                ('zeroed from %d' % i, t[:i] + b'\0' * (len(t) - i)), ('from %d' % i, t[i:]),
                ('repeated from %d' % i, t + t[i:])]
            muts += [('%d = %r' % (i, b), t[:i] + b + t[i + 1:]) for b in (b'{', b'"', b',', b'0', b'n',
                b'\xff', b'\\', b' ', b'\n', b']', b'}', b'-', b'.')]
            for what, m in muts:
                rep.ev()
                rep.state(m)
                d, e = drive.outcome(utils.readJsonStream, io.BytesIO(m))
                try:
                    want = json.loads(m.decode('utf-8'))
                except ValueError:
                    if e is None:
                        rep.fail('%s: read as %r' % (what, d))
                    elif not isinstance(e, (ValueError, drive.RKSVException)):
                        rep.fail('%s: %r' % (what, e))
                    continue
                if e is not None:
                    rep.fail('%s: not read: %r' % (what, e))
                    continue
                rep.expect(d, want, what)
                check_doc(rep, d, what)
    rep.sample(case)
