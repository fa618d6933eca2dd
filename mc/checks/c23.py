"""C23: bookkeeping of used receipt IDs, both backends."""
import copy
import itertools
import json
import pickle

from librksv import verification_state as vs

from .. import drive, env, ref
from ..world import SYS, check_state, check_verdict, cuts, split

ID = 'C23'
LEVEL = 'model_checking'
RULE = ('both backends: all ID sequences of length 3 over 41 confusable IDs (short and long digit runs, leading '
    'zeros, case, non-ASCII letters and digits, empty) and length 4 (5) over 9, checked and added '
    'one by one against an independent set / natural-order model (the IDs allowed next queried '
    'over the whole alphabet), and every partition into packages merged into an empty or '
    'continued set, JSON, pickling or copying before every step; order axioms over all triples; '
    'whole DEPs with every ID pair, sequential, chunked, in worker packages and continued')

NAT, UNI = drive.NATURAL, drive.UNIQUE
IDS = ['1', '2', '10', '01', '010', '0', '00', 'a', 'A', 'a1', 'A1', 'a2', 'A02', 'a10', 'A10', 'b', 'B9',
    '', '1a', '1A', '1.5', '1.10', 'a1b2', 'A1b10', '\u00e4', '\u00c4', '\u0661', '\u00b2', ' ',
    '9007199254740993', '9007199254740992', '9000000000000000000', '10000000000000000000',
    '99999999999999999999999999999999', '100000000000000000000000000000000', '\u00df', 'SS',
    '1' * 4300, '0' * 4300 + '2', '1' * 4301, 'a' + '2' * 5000]
FEW = ['1', '2', '10', '02', 'a2', 'A2', 'a10', '', '\u00e41']
S = SYS['open-cert']


def cases():
    ret = [['seq', b, i, n] for b in (UNI, NAT) for n in ('wide', 'deep') for i in
        range(len(IDS if n == 'wide' else FEW))]
    ret += [['dep', b, i] for b in (UNI, NAT) for i in range(len(IDS))]
    ret += [['order', i] for i in range(len(IDS))]
    return ret


def new(bk):
    return drive.backend(bk)(), set() if bk == UNI else ref.NatSet()


def contents(b):
    d = json.loads(json.dumps(b.writeToJson()))
    if isinstance(d['backendData'], list):
        d['backendData'] = sorted(d['backendData'])
    return d


def want(m):
    return {'backendType': UNI if isinstance(m, set) else NAT,
        'backendData': sorted(m) if isinstance(m, set) else m.json()}


def refused(rep, b, rid, what):
    """Does check() refuse this ID? (It must not change anything.)"""
    rep.ev()
    v, e = drive.outcome(b.check, rid)
    if e is None:
        return False
    if type(e) is not vs.DuplicateReceiptIdException:
        rep.fail('%s: check of %r: %r' % (what, rid, e))
    elif e.receipt != rid:
        rep.fail('%s: check of %r names %r' % (what, rid, e.receipt))
    return True


def back(b, how):
    """The backend after a trip through a serialised form."""
    if how == 1:
        return vs.UsedReceiptIdsBackend.readFromJson(json.loads(json.dumps(b.writeToJson())), 'x')
    if how == 2:
        return pickle.loads(pickle.dumps(b))
    if how == 3:
        return copy.deepcopy(b)
    return b


def fill(bk, ids):
    """A backend holding the IDs (added without question)."""
    b, m = new(bk)
    for i in ids:
        b.add(i)
        m.add(i)
    return b, m


def sequence(rep, bk, ids, base=()):
    """Adds the IDs one by one. -> (contents, None or index of the refused ID)"""
    what = '%s %r after %r' % (bk[17:], ids, base)
    b, m = fill(bk, base)
    for n, i in enumerate(ids):
        b = back(b, n % 4)
        bad = i in m
        if refused(rep, b, i, what) != bad:
            rep.fail('%s: ID %d %s' % (what, n, 'accepted' if bad else 'refused'), want(m))
        rep.expect(contents(b), want(m), what + ' after checking')
        if bad:
            return m, n
        b.add(i)
        m.add(i)
    rep.expect(contents(b), want(m), what)
    for how in range(4):
        c = back(b, how)
        rep.expect(contents(c), want(m), what + ' way %d' % how)
        rep.expect(c == b and not c != b and type(c) is type(b), True, what + ' equal after way %d' % how)
    return m, None


def package(bk, part):
    """A package's own bookkeeping; None if it refuses an ID."""
    b, m = new(bk)
    for i in part:
        if i in m:
            return None
        b.add(i)
        m.add(i)
    return b


def merging(rep, bk, ids, base, res):
    m, bad = res
    rep.trace()
    for parts in cuts(len(ids)):
        pk = [package(bk, p) for p in split(list(ids), parts)]
        if None in pk:
            if bad is None:
                rep.fail('model: package refused %r' % (ids,))
            continue
        for empty in (False, True):
            b, _ = fill(bk, base)
            lst = list(pk)
            if empty:
                # packages without receipts change nothing
                lst = [new(bk)[0]] + [x for p in pk for x in (p, new(bk)[0])]
            before = [contents(p) for p in lst]
            h = (len(parts) + len(ids)) % 4
            lst = [back(p, h) for p in lst]
            rep.ev()
            v, e = drive.outcome(b.merge, lst if not empty else tuple(lst))
            what = '%s %r in packages %r merged into %r' % (bk[17:], ids, parts, base)
            rep.expect([contents(p) for p in lst], before, what + ': packages')
            if bad is not None:
                if e is None:
                    rep.fail('%s accepted' % what)
                elif type(e) is not vs.DuplicateReceiptIdException:
                    rep.fail('%s: %r' % (what, e))
                elif e.receipt not in ids:
                    rep.fail('%s names %r' % (what, e.receipt))
            elif e is not None:
                rep.fail('%s refused: %r' % (what, e))
            else:
                rep.expect(contents(b), want(m), what)
                for i in IDS:
                    if refused(rep, b, i, what) != (i in m):
                        rep.fail('%s: %r afterwards' % (what, i))


def dep_case(rep, bk, a):
    """DEPs whose receipts carry these IDs."""
    for b in IDS:
        for c in ((None, a, b, 'zz9') if not env.THOROUGH else [None] + IDS):
            ids = [a, b] + ([c] if c is not None else [])
            if '' in ids:
                continue
            reg = S.register()
            recs = [reg.make('std', 5 * n, rid=i) for n, i in enumerate(ids)]
            used = set() if bk == UNI else ref.NatSet()
            at, V, st, fu = ref.walk(recs, S.ctx_of, None, used)
            js = [r[0] for r in recs]
            what = '%s DEP with IDs %r' % (bk[17:], ids)
            rep.state([bk, ids])
            u = lambda x: sorted(x) if bk == UNI else x.json()
            rs = [(drive.verify_dep(S.dep(js), S.ks, S.aes, None, None, bk), False),
                (drive.verify_parsed(S.dep(js), S.ks, S.aes, None, None, None, 1, 1, 'stream', 1, bk), False),
                (drive.verify_parsed(S.dep(js), S.ks, S.aes, None, None, None, 2, 1, 'stream', 1, bk), True),
                (drive.verify_parsed(S.dep(js), S.ks, S.aes, None, None, None, 2, 0, 'dict', 3, bk), True)]
            for n, (res, par) in enumerate(rs):
                rep.ev(len(ids))
                rep.trace()
                w = '%s way %d' % (what, n)
                if check_verdict(rep, res, V, w, js, par) and res.ok and not V:
                    check_state(rep, res, [st], u(fu), w, js, bk)
            if V or len(ids) < 3:
                continue
            # continued after the first receipt
            at1, V1, st1, u1 = ref.walk(recs[:1], S.ctx_of, None, used)
            sj = json.loads(json.dumps(drive.cluster_json([st1], u(u1), bk)))
            other = UNI if bk == NAT else NAT
            for par in (False, True):
                res = drive.verify_parsed(S.dep(js[1:]), S.ks, S.aes, sj, 0, None, 2 if par else 1, 1, 'stream',
                    1, other)     # the state's own backend counts
                if check_verdict(rep, res, V, what + ' continued', js, par) and res.ok:
                    check_state(rep, res, [st], u(fu), what + ' continued', js, bk)


def order_case(rep, a):
    """The natural order is a strict weak order (as decided by the backend)."""
    def lt(x, y):
        b, _ = fill(NAT, [x])
        return not refused(rep, b, y, 'order')
    L = {(x, y): lt(x, y) for x in IDS for y in IDS}
    for b in IDS:
        rep.expect(L[a, b] and L[b, a], False, 'asymmetry of %r %r' % (a, b))
        rep.expect(L[a, b], ref.nat_key(a) < ref.nat_key(b), 'order of %r %r' % (a, b))
        for c in IDS:
            if L[a, b] and L[b, c] and not L[a, c]:
                rep.fail('order of %r %r %r is not transitive' % (a, b, c))
            if not L[a, b] and not L[b, c] and L[a, c]:
                rep.fail('incomparability of %r %r %r is not transitive' % (a, b, c))
            rep.state(['order', a, b, c])


def run(case, rep):
    if case[0] == 'seq':
        _, bk, i, n = case
        al = IDS if n == 'wide' else FEW
        depth = 3 if n == 'wide' else 5 if env.THOROUGH else 4
        for l in range(depth):
            for rest in itertools.product(al, repeat=l):
                ids = (al[i],) + rest
                rep.state([bk, ids])
                res = sequence(rep, bk, ids)
                # only the shortest refused sequences are merged further
                if res[1] is None or res[1] == len(ids) - 1 or n == 'deep' and l < 4:
                    merging(rep, bk, ids, (), res)
                    if n == 'deep' and l < 3:
                        for base in (('1',), ('a2', 'A3'), ('', 'A2')):
                            merging(rep, bk, ids, base, sequence(rep, bk, ids, base))
        rep.sample([case, ids])
    elif case[0] == 'dep':
        dep_case(rep, case[1], IDS[case[2]])
    else:
        order_case(rep, IDS[case[1]])
