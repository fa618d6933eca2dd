"""C07: verdict and state are independent of chunking, processes, schedule."""
import itertools
import multiprocessing

from .. import drive, env, ref
from ..pools import Chooser, FakePool
from ..world import CERTKEY, SYS, check_state, check_verdict, cuts, split
from ..world import far_cases, far_check

ID = 'C07'
LEVEL = 'model_checking'
RULE = ('valid histories of 64 receipts in one, three and chunked parts; '
    'histories: all sequences of a start receipt and 4 of 5 receipt kinds (625) plus every '
    'fault class at every position of 4 base sequences, from an empty and from a continued '
    'state; each through every chunk size 0..6 x 1..4 packages x all groupings into groups '
    '(with changing certificates) x 5 parsers; all schedules (task permutation, early/late '
    'execution, shared/separate pickling, per batch) of a controlled process pool enumerated '
    'depth-first, and real process pools; groups without receipts in every place, alone and behind another register of a cluster; oracle: the sequential reference model')

KIND = [('std', 0, True), ('std', 5, True), ('dummy', 7, True), ('reversal', -5, True),
        ('dummy', 0, False)]
BASES = [(1, 2, 3, 1), (0, 1, 3, 0), (3, 3, 2, 2), (1, 4, 4, 0), (4, 3, 0, 1)]
FAULTS = ['chain', 'tc', 'date', 'reg', 'sig', 'evil', 'serial', 'start', 'broken', 'malformed', 'zda']
PARSERS = ('full', 'file', 'stream', 'certless')


def cases():
    ret = []
    for s in ('open-cert', 'closed-ks'):
        for a, b in itertools.product(range(5), repeat=2):
            ret.append(['seq', s, a, b])
    for s in ('open-cert', 'closed-ks', 'open-two'):
        for b in range(len(BASES)) if env.THOROUGH else {'open-cert': (1, 4), 'closed-ks': (0, 3),
                'open-two': (2,)}[s]:
            ret.append(['valid', s, b])
            for f in FAULTS:
                ret.append(['fault', s, b, f])
            for i in range(5):
                ret.append(['dup', s, b, i])
    for s in ('open-cert', 'closed-ks'):
        for b in range(len(BASES)) if env.THOROUGH else {'open-cert': (3,), 'closed-ks': (4,)}[s]:
            ret.append(['sched', s, b, None])
            for f in FAULTS:
                ret.append(['sched', s, b, f])
            for i in range(5):
                ret.append(['schedup', s, b, i])
    for np in (1, 2, 3, 5):
        ret.append(['real', 'open-cert', np])
        ret.append(['real', 'open-two', np])
    ret += [['certless', list(sh), pat] for sh in ((1, 3), (2, 2), (3, 1)) for pat in
        ('-c', 'c-', '--')]
    ret += [['long', s, n] for s in ('open-cert', 'closed-ks') for n in (1, 2, 9, 13)]
    ret += [['empty', s, idx, f] for s in ('open-cert', 'closed-cert') for idx in (0, 1)
            for f in [None] + FAULTS if s == 'closed-cert' or not idx]
    ret += [['balance', n] for n in range(1, 10)]
    ret += [['far'] + c for c in far_cases()]
    return ret


class Two(object):
    """Open system with two devices, each group with its own certificate."""
    name = 'open-two'
    closed = False
    certs = ('leaf0self', 'leaf1self')
    ks = ref.keystore(certs, (), ref.B64KEY)
    aes = ref.AESKEY
    cert = 'x'

    def __init__(self):
        self.devs = [0, 1, 0, 1, 0, 1, 0]

    def ctx_of(self, i):
        c = self.certs[self.devs[i]]
        return ref.Ctx(c, CERTKEY[c], {}, self.aes)

    def register(self, **kw):
        return ref.Register(**kw)

    def override(self, i):
        c = self.certs[self.devs[i]]
        return {'key': CERTKEY[c], 'serial': ref.keyid(ref.cert_serial(c))}


def system(name):
    return Two() if name == 'open-two' else SYS[name]


def build(S, ops, fault=None, at=None, dup=None):
    """History with a fault at a position; later receipts continue it."""
    reg = S.register()
    recs = []
    for i, o in enumerate((0,) + tuple(ops)):
        k, c, s = KIND[o]
        kw = S.override(i) if isinstance(S, Two) else {}
        if dup and i == dup[1]:
            kw['rid'] = 'B%d' % dup[0]
        if i == at:
            if fault == 'chain':
                kw['chain'] = ref.chain_value(recs[i - 2][0]) if i > 1 else 'AAAAAAAAAAA='
            elif fault == 'tc':
                kw['tcdelta'] = 100
            elif fault == 'date':
                kw['date'] = '2016-01-01T00:00:00'
                if not i:
                    kw['date'] = '2018-01-01T00:00:00'
            elif fault == 'reg':
                kw['reg'] = 'KASSE-2'
            elif fault == 'sig':
                kw['sig'] = bytes(64)
            elif fault == 'evil':
                kw['key'] = 'evil'
            elif fault == 'serial':
                kw['serial'] = '1a2b' if not S.closed else 'U:ATU12345678-K9'
            elif fault == 'start':
                c = 5
            elif fault == 'broken':
                s = False
            elif fault == 'zda':
                kw.update({'zda': 'AT0', 'serial': 'U:ATU12345678-K0'} if not S.closed else
                        {'zda': 'AT1', 'serial': '1a2b'})
        j = reg.make(k, c, s, **kw)
        if i == at and fault == 'malformed':
            h, p, g = j[0].split('.')
            p = ref.b64u(ref.unb64u(p).rsplit(b'_', 1)[0])
            j = (h + '.' + p + '.' + g, None)
        recs.append(j)
    return recs


class Fixed(object):
    """A system with a given register."""

    def __init__(self, S, reg):
        self.S, self.reg = S, reg

    def register(self):
        return self.reg

    def __getattr__(self, n):
        return getattr(self.S, n)


def expected(S, recs, st=None, used=(), off=0, prev=None):
    """Reference verdict; malformed receipts are errors as well."""
    good = []
    for j, sb in recs:
        try:
            ref.Rec(j)
        except Exception:
            at, V, fst, fu = ref.walk(good, lambda i: S.ctx_of(i + off), st, used, prev)
            return (at, V, fst, fu) if V else (len(good), {'MalformedReceiptException'}, fst, fu)
        good.append((j, sb))
    return ref.walk(recs, lambda i: S.ctx_of(i + off), st, used, prev)


def groupings(S, n, off=0, full=True):
    """Lists of group lengths, respecting changes of certificate."""
    for parts in cuts(n):
        if isinstance(S, Two):
            i, ok = off, True
            for p in parts:
                if len({S.devs[x] for x in range(i, i + p)}) > 1:
                    ok = False
                i += p
            if not ok:
                continue
        elif not S.cert and len(parts) > 1:
            continue
        elif not full and len(parts) not in (1, n):
            continue
        yield parts


def dep_of(S, js, parts, off=0):
    gs, i = [], off
    for g in split(js, parts):
        if isinstance(S, Two):
            gs.append((g, S.certs[S.devs[i]], []))
        else:
            gs.append((g, S.cert, S.chain))
        i += len(g)
    return ref.dep(*gs)


def check(rep, S, recs, st, used, off, exp, cs, np, parts, parser='dict', pool=None, what=''):
    at, V, fst, fu = exp
    js = [r[0] for r in recs]
    sj = None if st is None else drive.cluster_json([st], used)
    dep = dep_of(S, js, parts, off)
    rep.trace()
    rep.ev(len(js))
    if cs is None:
        res = drive.verify_dep(dep, S.ks, S.aes, sj, None if sj is None else 0)
        par = False
    else:
        res = drive.verify_parsed(dep, S.ks, S.aes, sj, None if sj is None else 0, pool=pool,
                nprocs=np, chunksize=cs, parser=parser, nparts=np)
        par = True
    rep.outcome(res.name)
    w = '%s chunksize %s, %d packages, groups %r, %s parser' % (what, cs, np, parts, parser)
    check_verdict(rep, res, V, w, js, par)
    if not V and res.ok:
        check_state(rep, res, [fst], fu, w, js)


def sweep(rep, S, recs, wide=False, what=''):
    n = len(recs)
    exp0 = expected(S, recs)
    for cut in (0, 2) if wide or not what.startswith('ops') or env.THOROUGH else (0,):
        if cut:
            if exp0[1] and exp0[0] < cut:
                continue
            _, _, st, used = ref.walk(recs[:cut], S.ctx_of)
            exp = expected(S, recs[cut:], st, used, cut)
        else:
            st, used, exp = None, (), exp0
        rs = recs[cut:]
        for parts in groupings(S, len(rs), cut, wide):
            check(rep, S, rs, st, used, cut, exp, None, 1, parts, what=what)
            for np in (1, 2, 3, 4) if wide else (1, 2, 3):
                for cs in range(len(rs) + 2) if wide else (0, 1, 2, 3):
                    check(rep, S, rs, st, used, cut, exp, cs, np, parts, what=what)
        for parser in PARSERS if wide and not cut else ():
            for parts in groupings(S, len(rs), cut, False):
                if parser == 'certless' and len(parts) > 1:
                    continue
                if parser == 'certless' and S.cert:
                    # it knows no certificates, keys come from the key store
                    continue
                for cs in (0, 1, 2, 3, 5):
                    for np in (1, 2):
                        check(rep, S, rs, st, used, cut, exp, cs, np, parts, parser, what=what)


def schedules(rep, S, recs, what=''):
    exp = expected(S, recs)
    for parts in groupings(S, len(recs), 0, False):
        for cs, np in ((1, 2), (2, 3), (1, 3), (2, 2), (1, 5), (0, 2), (0, 3)):
            if (cs, np) == (1, 3) and what != 'valid' and not env.THOROUGH:
                continue
            if len(parts) > 1 and (cs, np) != (2, 2):
                continue
            ch = Chooser()
            while True:
                pool = FakePool(ch, np)
                check(rep, S, recs, None, (), 0, exp, cs, np, parts, pool=pool, what=what +
                        ' schedule %r' % ([c[0] for c in ch.path],))
                rep.count('schedules')
                if not ch.next() or len(rep.violations) > 3:
                    break


def run(case, rep):
    if case[0] == 'far':
        return far_check(rep, 'none', case[1:])
    kind = case[0]
    if kind == 'seq':
        S = system(case[1])
        for c, d in itertools.product(range(5), repeat=2):
            recs = build(S, (case[2], case[3], c, d))
            sweep(rep, S, recs, env.THOROUGH, what='ops %r' % ((case[2], case[3], c, d),))
            rep.state((case, c, d))
    elif kind in ('valid', 'fault', 'dup', 'sched', 'schedup'):
        S = system(case[1])
        ops = BASES[case[2]]
        if kind == 'valid' or (kind == 'sched' and case[3] is None):
            hs = [('valid', build(S, ops))]
        elif kind in ('fault', 'sched'):
            hs = [('%s at %d' % (case[3], i), build(S, ops, case[3], i)) for i in range(5)]
        else:
            hs = [('ID %d = %d' % (case[3], j), build(S, ops, dup=(case[3], j)))
                    for j in range(5) if j != case[3]]
        for what, recs in hs:
            if kind.startswith('sched'):
                schedules(rep, S, recs, what)
            else:
                sweep(rep, S, recs, True, what)
            rep.state((case, what))
        rep.sample([case, what])
    elif kind == 'real':
        S = system(case[1])
        pool = multiprocessing.Pool(case[2])
        try:
            for b in BASES[:3]:
                hs = [('valid', build(S, b))]
                hs += [('%s at %d' % (f, i), build(S, b, f, i)) for f in FAULTS
                        for i in (0, 2, 4)]
                hs += [('dup', build(S, b, dup=(i, j))) for i, j in ((0, 4), (1, 2), (3, 4))]
                for what, recs in hs:
                    exp = expected(S, recs)
                    for parts in groupings(S, 5, 0, False):
                        for cs, np in ((1, 2), (2, 2), (1, 5), (0, 3)):
                            check(rep, S, recs, None, (), 0, exp, cs, np, parts, pool=pool,
                                    what='real pool ' + what)
                    rep.state((case, b, what))
        finally:
            pool.close()
            pool.join()
    elif kind == 'certless':
        # several groups, some without certificate: rejected in every mode
        shape, pat = case[1:]
        S = SYS['open-cert']
        recs = [r[0] for r in build(S, (1, 2, 3))]
        gs = [(g, S.cert if p == 'c' else None, []) for g, p in zip(split(recs, shape), pat)]
        dep = ref.dep(*gs)
        V = {'NoCertificateGivenException'}
        res = drive.verify_dep(dep, S.ks, S.aes)
        check_verdict(rep, res, V, 'verifyDEP', dep)
        for cs in range(5):
            for np in (1, 2):
                res = drive.verify_parsed(dep, S.ks, S.aes, nprocs=np, chunksize=cs)
                rep.trace()
                rep.ev(4)
                rep.state((case, cs, np))
                rep.outcome(res.name)
                check_verdict(rep, res, V, 'certificate-less group, shape %r %s chunksize %d, '
                    '%d packages' % (shape, pat, cs, np), dep, True,
                    key='certless %s %s chunksize %d nprocs %d' % ('+'.join(map(str, shape)),
                        pat, cs, np))
    elif kind == 'empty':
        # groups without receipts, also before the start receipt; registers
        # behind another one in a cluster
        S, idx, f = SYS[case[1]], case[2], case[3]
        prev = S.register(prefix='P').make() if idx else None
        st = ref.RState()
        others = [ref.RState(prev[0], prev[0], 0, False, None)] if idx else []
        used = {'P0'} if idx else {'X'}
        for at in range(3) if f else (None,):
            recs = build(S, (1, 2), f, at)
            if prev and not (at == 0 and f == 'chain'):
                # chained to the start receipt of the register before
                reg = S.register()
                first = [True]

                class R(type(reg)):
                    def make(self, *a, **kw):
                        if first[0]:
                            kw.setdefault('chain', ref.chain_value(prev[0]))
                        first[0] = False
                        return ref.Register.make(self, *a, **kw)
                reg.__class__ = R
                recs = build(Fixed(S, reg), (1, 2), f, at)
            exp = expected(S, recs, st, used, prev=prev and prev[0])
            V, fst, fu = exp[1:]
            js = [r[0] for r in recs]
            for parts in cuts(len(js)):
                gs = list(split(js, parts))
                for mask in range(1, 3 ** (len(gs) + 1)) if at is None or env.THOROUGH else (1, 2, 3, 4, 6):
                    full = []
                    for g in range(len(gs) + 1):
                        full += [[]] * (mask // 3 ** g % 3)
                        full += gs[g:g + 1]
                    dep = ref.dep(*[(g, S.cert, []) for g in full])
                    sj = drive.cluster_json(others + [st], used)
                    for cs, np in [(None, 1)] + list(itertools.product(range(4), (1, 2, 3))):
                        if cs is None:
                            res = drive.verify_dep(dep, S.ks, S.aes, sj, idx)
                        else:
                            res = drive.verify_parsed(dep, S.ks, S.aes, sj, idx, nprocs=np,
                                    chunksize=cs, nparts=np)
                        w = '%s at %r, groups of %r, chunksize %s, %d packages' % (f, at,
                            [len(g) for g in full], cs, np)
                        rep.trace()
                        rep.ev(len(js))
                        rep.outcome(res.name)
                        check_verdict(rep, res, V, w, js, cs is not None)
                        if not V and res.ok:
                            check_state(rep, res, others + [fst], fu, w, js)
                        if len(rep.violations) > 3:
                            return
                    rep.state((case, at, parts, mask))
    elif kind == 'long':
        # more chunks than packages, several rounds
        S = system(case[1])
        for n in (case[2], case[2] + 7):
            reg = S.register()
            recs = [reg.make()] + [reg.make(*KIND[i % 4]) for i in range(n)]
            for fault in (None, 'first', 'mid', 'last'):
                rs = list(recs)
                if fault:
                    p = {'first': 1, 'mid': (n + 1) // 2, 'last': n}[fault]
                    g = S.register()
                    rs = []
                    for i in range(n + 1):
                        kw = {'rid': 'B0'} if i == p else {}
                        rs.append(g.make(*(KIND[i % 4] if i else KIND[0]), **kw))
                exp = expected(S, rs)
                for cs in range(1, n + 3):
                    for np in (1, 2, 3, 4, 7):
                        check(rep, S, rs, None, (), 0, exp, cs, np, [n + 1], what='long')
                for parser in PARSERS if S.cert is None else PARSERS[:3]:
                    for cs in (0, 1, 2, 3, 4, 5, 100):
                        check(rep, S, rs, None, (), 0, exp, cs, 2, [n + 1], parser, what='long')
                rep.state((case, n, fault))
    else:
        # balancing keeps order, count and association
        from librksv import verify
        n = case[1]
        for parts in cuts(n):
            vs = ['v%d' % (i % 2) for i in range(len(parts))]
            groups = [(g, v) for g, v in zip(split(list(range(n)), parts), vs)]
            for np in range(1, n + 3):
                pk = verify.balanceGroupsWithVerifiers([(list(g), v) for g, v in groups], np)
                rep.ev()
                rep.state((parts, np))
                flat = [(r, v) for p in pk for g, v in p for r in g]
                want = [(r, v) for g, v in groups for r in g]
                rep.expect(flat, want, 'balance %r over %d' % (parts, np))
                if len(pk) > np or any(not p or any(not g for g, _ in p) for p in pk):
                    rep.fail('balance %r over %d: bad packages %r' % (parts, np, pk))
