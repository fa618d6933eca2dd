"""C08: verifying in segments equals verifying as a whole."""
import itertools
import json

from .. import drive, env, ref
from ..world import SYS, check_state, check_verdict, cuts, split
from . import c07

ID = 'C08'
LEVEL = 'model_checking'
RULE = ('all sequences of a start receipt and 4 of 5 receipt kinds (625) and every fault class '
    'or duplicate ID at every position of 5 base sequences x every set of cut points (16) x '
    'both ID backends, each segment a DEP of its own (sequential, chunked or packaged), state '
    'passed as JSON text; verdict, failing segment, error, failing receipt and final state '
    'compared with the reference model and with verification as a whole')

NAT, UNI = drive.NATURAL, drive.UNIQUE


def cases():
    ret = []
    for s in ('open-cert', 'closed-ks'):
        for a, b in itertools.product(range(5), repeat=2):
            ret.append(['seq', s, a, b])
        for b in range(len(c07.BASES)):
            ret += [['fault', s, b, f] for f in c07.FAULTS]
            ret += [['dup', s, b, i] for i in range(5)]
    ret += [['nokey', 'open-nokey', a] for a in range(5)]
    ret += [['two', 'open-two', b] for b in range(len(c07.BASES))]
    ret += [['register', 'closed-ks', b] for b in range(len(c07.BASES))]
    ret += [['order', bk, i] for bk in (UNI, NAT) for i in range(5)]
    return ret


def regs_json(others, st):
    return [r.json() for r in others] + [st.json()]


def segments(rep, S, recs, parts, bk, exp, whole, what, how=0, others=(), used0=None, idx=0):
    """how: 0 verifyDEP, 1 chunked, 2 packaged, 3 alternating"""
    at, V, fst, fu = exp
    js = [r[0] for r in recs]
    u0 = used0 if used0 is not None else (set() if bk == UNI else ref.NatSet())
    text = json.dumps(drive.cluster_json(list(others), sorted(u0) if bk == UNI else u0.json(), bk))
    n = 0
    rep.trace()
    for k, part in enumerate(split(list(range(len(js))), parts)):
        rep.ev(len(part))
        sj = json.loads(text)
        p = [js[i] for i in part]
        if isinstance(S, c07.Two):
            gs = [([js[i] for i in g], S.certs[d], []) for d, g in
                    itertools.groupby(part, lambda i: S.devs[i])]
            dep = ref.dep(*gs)
        else:
            dep = S.dep(p)
        h = (0, 1, 2)[k % 3] if how == 3 else how
        i = idx if k or len(sj['cashRegisters']) == idx else None
        if h == 0:
            res = drive.verify_dep(dep, S.ks, S.aes, sj, i, bk)
        else:
            res = drive.verify_parsed(dep, S.ks, S.aes, sj, i, nprocs=h, chunksize=1 if h == 1
                    else 2, bk=bk)
        if not res.ok:
            break
        text = json.dumps(res.state)
        n += len(part)
        if V and n > at:
            break
    rep.outcome(res.name)
    w = '%s cuts %r %s' % (what, parts, bk[17:])
    check_verdict(rep, res, V, w, js, how != 0)
    if V and not res.ok:
        if not n <= at < n + len(part):
            rep.fail('%s: rejected in the segment after %d receipts, not at receipt %d (%s)' % (
                w, n, at, res.show()), js)
        if how == 0 and whole is not None:
            rep.expect((res.name, res.exc), (whole.name, whole.exc), w +
                    ': error differs from that for the whole', js)
    if not V and res.ok:
        check_state(rep, res, list(others) + [fst], sorted(fu) if bk == UNI else fu.json(), w, js, bk)


def explore(rep, S, recs, what, hows=(0,), bks=(UNI, NAT)):
    for bk in bks:
        used = set() if bk == UNI else ref.NatSet()
        exp = c07.expected(S, recs, None, used)
        js = [r[0] for r in recs]
        if isinstance(S, c07.Two):
            dep = c07.dep_of(S, js, [1] * len(js))
        else:
            dep = S.dep(js)
        whole = drive.verify_dep(dep, S.ks, S.aes, None, None, bk)
        check_verdict(rep, whole, exp[1], what + ' whole ' + bk[17:], js)
        for parts in cuts(len(recs)):
            for how in hows:
                segments(rep, S, recs, parts, bk, exp, whole, what, how)


def run(case, rep):
    kind = case[0]
    if kind == 'order':
        # receipt IDs in any order, both backends
        S = SYS['open-cert']
        pool = ['A1', 'A2', 'A10', 'a2', 'B']
        for ids in itertools.product(pool, repeat=3):
            ids = (pool[case[2]],) + ids
            reg = S.register()
            recs = [reg.make('std' if i != 2 else 'dummy', rid=r) for i, r in enumerate(ids)]
            explore(rep, S, recs, 'IDs %r' % (ids,), (0, 2) if not env.THOROUGH else (0, 1, 2, 3),
                    (case[1],))
            rep.state((case, ids))
        return
    S = c07.system(case[1])
    hows = (0, 1, 2, 3) if env.THOROUGH else (0, 3)
    if kind == 'seq':
        for c, d in itertools.product(range(5), repeat=2):
            ops = (case[2], case[3], c, d)
            explore(rep, S, c07.build(S, ops), 'ops %r' % (ops,), hows if env.THOROUGH else (0,))
            rep.state(ops)
        rep.sample(ops)
    elif kind in ('fault', 'dup'):
        ops = c07.BASES[case[2]]
        for i in range(5):
            if kind == 'dup':
                if i == case[3]:
                    continue
                recs = c07.build(S, ops, dup=(case[3], i))
            else:
                recs = c07.build(S, ops, case[3], i)
            explore(rep, S, recs, '%s at %d' % (case[3], i), hows)
            rep.state((case, i))
    elif kind == 'nokey':
        for b, c in itertools.product(range(5), repeat=2):
            ops = (case[2], b, c, 1)
            explore(rep, S, c07.build(S, ops), 'no key %r' % (ops,), hows)
            rep.state((case, ops))
    elif kind == 'two':
        for f in [None] + c07.FAULTS:
            for i in range(5) if f else (0,):
                recs = c07.build(S, c07.BASES[case[2]], f, i if f else None)
                explore(rep, S, recs, 'two devices %s at %d' % (f, i), hows)
                rep.state((case, f, i))
    else:
        # second register of a cluster, first one carried along untouched
        pre = S.register(prefix='A')
        p0, p1 = pre.make(), pre.make('std', 99)
        others = [ref.RState(p0[0], p1[0], 99, False, None)]
        for f in [None, 'tc', 'date', 'sig', 'dupA', 'start']:
            for i in range(5) if f else (0,):
                for bk in (UNI, NAT):
                    reg = S.register()
                    recs = []
                    for n, o in enumerate((0,) + c07.BASES[case[2]]):
                        k, c, s = c07.KIND[o]
                        kw = {'chain': ref.chain_value(p0[0])} if n == 0 else {}
                        if n == i and f:
                            kw.update({'tc': {'tcdelta': 1}, 'date': {'date': '2011-11-11T11:11:11'},
                                'sig': {'sig': b'x' * 64}, 'dupA': {'rid': 'A1'},
                                'start': {'chain': ref.chain_value(reg.reg)}}[f])
                        recs.append(reg.make(k, c, s, **kw))
                    used = {'A0', 'A1'} if bk == UNI else ref.NatSet('A0', 'A1')
                    exp = ref.walk(recs, S.ctx_of, None, used, p0[0])
                    whole = drive.verify_dep(S.dep([r[0] for r in recs]), S.ks, S.aes,
                            drive.cluster_json(others, sorted(used) if bk == UNI else used.json(),
                                bk), 1, bk)
                    for parts in cuts(5):
                        for how in hows:
                            segments(rep, S, recs, parts, bk, exp, whole, 'register 2 %s at %d' % (
                                f, i), how, others, used, 1)
                    rep.state((case, f, i, bk))
