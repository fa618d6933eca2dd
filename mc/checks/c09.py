"""C09: states derived without verification equal verified ones."""
import copy
import itertools
import json

from .. import drive, env, ref
from ..drive import receipt, verification_state as vs
from ..world import SYS, check_state, check_verdict, cuts, kinds, split
from . import c07

ID = 'C09'
LEVEL = 'model_checking'
RULE = ('all valid sequences of a start receipt and 4 of 12 receipt kinds ({signed, outage} x '
    '{zero, nonzero} x {standard, training, reversal}) x all groupings, with and without AES key, '
    'from empty, pinned, continued and second-register states: state advanced group by group '
    'without verification equals the reference (and, for 5 kinds, the really verified) state; '
    'states from every arbitrary (start) receipt of a history x every suffix and foreign fork')

OPS = [(s, z, k) for s in (True, False) for z in ('null', 'pos')
        for k in ('std', 'dummy', 'reversal')]
DEPTH = 5 if env.THOROUGH else 4
FIELDS = ('startReceiptJWS', 'lastReceiptJWS', 'lastTurnoverCounter', 'needRestoreReceipt',
        'chainNextTo')


def cases():
    ret = [['adv', s, a, b] for s in ('open-cert', 'closed-ks') for a in range(12)
            for b in range(12)]
    ret += [['init', s, a] for s in ('open-cert', 'closed-ks', 'open-tc5', 'open-tc16')
            for a in range(12)]
    ret += [['real', s, a, b] for s in ('open-cert', 'closed-ks') for a, b in
            itertools.product(range(5), repeat=2)]
    ret += [['arb', s, b, k, bk] for s in ('open-cert', 'closed-ks', 'open-nokey', 'open-tc16')
            for b in range(len(c07.BASES)) for k in (True, False)
            for bk in (drive.UNIQUE, drive.NATURAL)]
    ret += [['astart', s, bk] for s in ('open-cert', 'closed-ks', 'closed-cert')
            for bk in (drive.UNIQUE, drive.NATURAL)]
    ret += [['pairs', a, b] for a in range(5) for b in range(5)]
    return ret


def regjson(o):
    return {k: getattr(o, k) for k in FIELDS}


def implstate(st):
    d = st.json()
    return vs.CashRegisterState.fromDict(dict(d))


def advance(rep, st, recs, parts, key, want, what, inplace=False):
    """Advance an implementation state group by group."""
    cur = implstate(st)
    for g in split([drive_c(r[0]) for r in recs], parts):
        rep.ev(len(g))
        if inplace:
            cur.updateFromDEPGroup(g, key)
        else:
            before = regjson(cur)
            gg = list(g)
            new = vs.CashRegisterState.fromDEPGroup(cur, g, key)
            if regjson(cur) != before or g != gg:
                rep.fail('%s: fromDEPGroup changed its arguments' % what)
            cur = new
    rep.trace()
    rep.expect(regjson(cur), want.json(), '%s groups %r' % (what, parts),
            [r[0] for r in recs])


def drive_c(jws):
    """Groups carry receipts as they come out of a parser."""
    from librksv import depparser
    return depparser.shrinkDEPReceipt(jws) if hasattr(depparser, 'shrinkDEPReceipt') else jws


def make(reg, op):
    s, z, k = op
    return reg.make(k, sums=kinds(k, z), sign=s)


def run(case, rep):
    kind = case[0]
    if kind in ('adv', 'init'):
        S = SYS[case[1]]
        reg = S.register()
        start = reg.make()
        st0 = ref.RState()
        V, st1 = ref.step(st0, set(), start[0], start[1], S.ctx)
        if kind == 'adv':
            rep.counts.setdefault('histories', 0)
            explore(rep, S, reg, [start], st1, {'B0'}, [case[2], case[3]], DEPTH)
        else:
            # other initial states, shorter continuations
            pin = ref.chain_value('pin')
            a = make(reg, OPS[case[2]])
            V, st2 = ref.step(st1, {'B0'}, a[0], a[1], S.ctx)
            for pinned, nostart, need in itertools.product((False, True), repeat=3):
                s = st2.copy()
                s.chain = pin if pinned else None
                s.start = None if nostart else s.start
                s.need = need
                for b, c in itertools.product(range(12), repeat=2):
                    g = reg.clone()
                    kw = {'chain': pin} if pinned else {}
                    so, z, k = OPS[b]
                    recs = [g.make(k, sums=kinds(k, z), sign=so, **kw), make(g, OPS[c])]
                    for n in (1, 2):
                        at, V, fst, _ = ref.walk(recs[:n], S.ctx_of, s, {'B0', 'B1'})
                        if V:
                            continue
                        for parts in cuts(n):
                            advance(rep, s, recs[:n], parts, ref.AESKEY, fst, 'initial %r' % (
                                s.json(),))
                        rep.state((case, pinned, nostart, need, b, c))
    elif kind == 'real':
        S = SYS[case[1]]
        for c, d in itertools.product(range(5), repeat=2):
            ops = (case[2], case[3], c, d)
            recs = c07.build(S, ops)
            for key in (S.aes, None):
                res = drive.verify_dep(S.dep([r[0] for r in recs]), S.ks, key)
                if not res.ok:
                    continue
                got = res.state['cashRegisters'][0]
                fst = ref.RState.from_json(got)
                for parts in cuts(5):
                    advance(rep, ref.RState(), recs, parts, key, fst, 'verified', len(parts) % 2 == 1)
                rep.state((case, ops))
    elif kind == 'pairs':
        # empty groups change nothing; groups across registers of a cluster
        S = SYS['closed-ks']
        pre = S.register(prefix='A')
        p0 = pre.make()
        reg = S.register()
        recs = [reg.make(chain=ref.chain_value(p0[0])), reg.make(*c07.KIND[case[1]]),
            reg.make(*c07.KIND[case[2]])]
        at, V, fst, _ = ref.walk(recs, S.ctx_of, None, {'A0'}, p0[0])
        if V:
            return
        for parts in cuts(3):
            advance(rep, ref.RState(), recs, parts, S.aes, fst, 'second register')
        o = implstate(fst)
        for key in (None, S.aes):
            o.updateFromDEPGroup([], key)
            rep.expect(regjson(o), fst.json(), 'empty group')
        # a verification may continue from the derived state
        o = vs.ClusterState()
        o.cashRegisters = [implstate(ref.RState(p0[0], p0[0], 0, False, None)),
            vs.CashRegisterState.fromDEPGroup(vs.CashRegisterState(),
                [drive_c(r[0]) for r in recs], S.aes)]
        for r in recs + [p0]:
            o.usedReceiptIds.add(ref.Rec.of(r[0]).rid)
        sj = o.writeStateToJson()
        for nxt in range(5):
            g = reg.clone()
            x = g.make(*c07.KIND[nxt])
            at, V, f2, fu = ref.walk([x], S.ctx_of, fst, {'A0', 'B0', 'B1', 'B2'})
            res = drive.verify_dep(S.dep([x[0]]), S.ks, S.aes, sj, 1)
            rep.ev()
            check_verdict(rep, res, V, 'continue after %d' % nxt)
            if res.ok and not V:
                check_state(rep, res, [ref.RState(p0[0], p0[0], 0, False, None), f2], fu, 'continue')
            rep.state((case, nxt))
    elif kind == 'arb':
        arbitrary(case, rep)
    else:
        astart(case, rep)


def explore(rep, S, reg, recs, st, used, prefix, depth):
    if len(recs) - 1 == depth:
        rep.counts['histories'] += 1
        for key in (ref.AESKEY, None):
            # (the counter only needs no key to stay untouched)
            want = st
            if key is None:
                want = st.copy()
                want.tc = 0
            for parts in cuts(len(recs)) if key or env.THOROUGH else ([len(recs)], [1] * len(recs)):
                advance(rep, ref.RState(), recs, parts, key, want, 'key' if key else 'no key')
        rep.state([ref.Rec.of(r[0]).payload for r in recs] + [r[1] for r in recs])
        return
    for o in ([prefix[0]] if prefix else range(12)):
        g = reg.clone()
        x = make(g, OPS[o])
        V, n = ref.step(st, used, x[0], x[1], S.ctx)
        if V:
            continue
        explore(rep, S, g, recs + [x], n, used | {ref.Rec.of(x[0]).rid}, prefix[1:], depth)


def arbitrary(case, rep):
    _, sysname, b, withkey, bk = case
    S = SYS[sysname]
    key = S.aes if withkey else None
    recs = c07.build(S, c07.BASES[b])
    at, V, _, _ = ref.walk(recs, S.ctx_of)
    if V:
        recs = recs[:at]
    # a foreign but well signed history with the same IDs
    other = c07.build(S, (1,) + c07.BASES[b][1:])
    for i, (j, sb) in enumerate(recs):
        r = ref.Rec.of(j)
        ro, prefix = receipt.Receipt.fromJWSString(j)
        cs = vs.ClusterState.fromArbitraryReceipt(ro, prefix, key, drive.backend(bk))
        sj = json.loads(json.dumps(cs.writeStateToJson()))
        rj = sj['cashRegisters'][0]
        known = r.standard and key is not None
        tc = ref.dec_tc(r.reg, r.rid, r.tcb) - r.turnover if known else 0
        rep.expect((len(sj['cashRegisters']), rj['startReceiptJWS'], rj['lastTurnoverCounter'],
            rj['needRestoreReceipt'], rj['chainNextTo'], rj['lastReceiptJWS'] is not None),
            (1, None, tc, False, r.chain, True), 'state from receipt %d' % i, j)
        rep.expect(sj['usedReceiptIds'], {'backendType': bk, 'backendData': [] if bk ==
            drive.UNIQUE else {'minId': None, 'maxId': None}}, 'used IDs')
        if not known and key is not None:
            vkey = None     # the total before this receipt is unknowable
        else:
            vkey = key
        st = ref.RState(None, rj['lastReceiptJWS'], tc, False, r.chain)
        ctx = ref.Ctx(S.ctx.cert, S.ctx.certkey, S.ctx.keys, vkey)
        for h in (recs, other):
            for k in range(len(h)):
                for end in range(k + 1, len(h) + 1):
                    suffix = h[k:end]
                    used = set() if bk == drive.UNIQUE else ref.NatSet()
                    at, V, fst, fu = ref.walk(suffix, lambda n: ctx, st, used)
                    if (h is recs and k == i) != (not V) and h is recs:
                        # the reference itself must agree with the statement,
                        # but for an outage right before
                        assert k == i or V, (V, k, i)
                    for mode in (0, 1):
                        dep = S.dep([x[0] for x in suffix])
                        if mode:
                            res = drive.verify_parsed(dep, S.ks, vkey, sj, 0, nprocs=2,
                                    chunksize=1, bk=bk)
                        else:
                            res = drive.verify_dep(dep, S.ks, vkey, sj, 0, bk)
                        rep.ev(len(suffix))
                        rep.trace()
                        what = 'suffix %d..%d from state at %d' % (k, end, i)
                        check_verdict(rep, res, V, what, j, bool(mode))
                        if res.ok and not V:
                            check_state(rep, res, [fst], sorted(fu) if bk == drive.UNIQUE else
                                    fu.json(), what, j, bk)
                    rep.state((case, i, h is recs, k, end))
    rep.sample([case, i])


def astart(case, rep):
    _, sysname, bk = case
    S = SYS[sysname]
    pre = S.register(prefix='A')
    p0 = pre.make()
    chains = {'regid': None, 'cluster': ref.chain_value(p0[0]), 'any': ref.chain_value('any')}
    for ck, cv in chains.items():
        reg = S.register()
        start = reg.make(chain=cv)
        ro, prefix = receipt.Receipt.fromJWSString(start[0])
        cs = vs.ClusterState.fromArbitraryStartReceipt(ro, drive.backend(bk))
        sj = json.loads(json.dumps(cs.writeStateToJson()))
        r = ref.Rec.of(start[0])
        want = drive.cluster_json([ref.RState(chain=r.chain)], [] if bk == drive.UNIQUE else
                {'minId': None, 'maxId': None}, bk)
        rep.expect(sj, want, 'state from start receipt')
        for ck2, cv2 in chains.items():
            for bad in (None, 'sig', 'sum', 'broken'):
                for n in range(3):
                    g = S.register()
                    kw = {'sig': bytes(64)} if bad == 'sig' else {'cents': 1} if bad == 'sum' else \
                            {'sign': False} if bad == 'broken' else {}
                    recs = [g.make(chain=cv2, **kw)]
                    recs += [g.make('std', 5 + x) for x in range(n)]
                    used = set() if bk == drive.UNIQUE else ref.NatSet()
                    at, V, fst, fu = ref.walk(recs, S.ctx_of, ref.RState(chain=r.chain), used)
                    for cs_ in (None, 1):
                        dep = S.dep([x[0] for x in recs])
                        if cs_:
                            res = drive.verify_parsed(dep, S.ks, S.aes, sj, 0, chunksize=1, bk=bk)
                        else:
                            res = drive.verify_dep(dep, S.ks, S.aes, sj, 0, bk)
                        rep.ev(len(recs))
                        rep.trace()
                        check_verdict(rep, res, V, 'history %s %s from start %s' % (ck2, bad, ck),
                                None, bool(cs_))
                        if res.ok and not V:
                            check_state(rep, res, [fst], sorted(fu) if bk == drive.UNIQUE else
                                    fu.json(), 'from start', None, bk)
                    rep.state((case, ck, ck2, bad, n))
