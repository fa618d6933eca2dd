"""C03: the turnover counter is the exact running total."""
import itertools

from .. import drive, env, ref
from ..world import SYS, check_history, check_verdict
from ..world import far_cases, far_check

ID = 'C03'
LEVEL = 'model_checking'
RULE = ('histories of 64 receipts with one such edit at every position; '
    'every sequence of length 3 over {standard,training,reversal,outage} x amounts '
    '(one cent, five different slots, float-unfriendly, huge, negative) with exact counters, '
    'and every deviation class of every counter (off by one, wrapped, sign, wrong total '
    'definition, wrong AES key or IV, width); counter widths 5..16 at their numeric limits; '
    'arbitrary starting counters, also before the first receipt; with and without key; whole, segmented, grouped, chunked')

# (kind, sums, signed)
HUGE = ['90071992547409,93', '0,01', '90071992547409,91', '0,00', '-0,02']
AMT = {
    'zero': ['0,00'] * 5,
    'cent': ['0,01', '0,00', '0,00', '0,00', '0,00'],
    'slots': ['1,00', '0,20', '0,03', '1000,00', '70000,09'],
    'float': ['0,29', '1,15', '4,35', '1,10', '2,20'],
    'neg': ['-3,33', '0,00', '0,00', '1,11', '-0,78'],
    'huge': HUGE,
    'tiny-neg': ['0,00', '-0,01', '0,00', '0,00', '0,00'],
    'big': ['0,00', '0,00', '21474836,48', '0,00', '0,00'],
    'last': ['0,00', '0,00', '0,00', '0,00', '-5000,00'],
}
OPS = [('std', a, True) for a in ('zero', 'cent', 'slots', 'float', 'neg', 'huge', 'big')] + [
    ('dummy', 'slots', True), ('dummy', 'neg', True), ('reversal', 'slots', True),
    ('reversal', 'neg', True), ('reversal', 'huge', True), ('dummy', 'huge', False),
    ('std', 'last', False), ('reversal', 'tiny-neg', False), ('std', 'zero', False)]
MODES = ('whole', 'steps', 'p3c2', 'c1') if env.THOROUGH else ('whole', 'steps', 'p3c2')


def cases():
    ret = []
    n = len(OPS)
    for s in ('open-cert', 'closed-ks') + (('open-tc16', 'closed-cert') if env.THOROUGH else ()):
        for a in range(n):
            for b in range(n):
                ret.append(['seq', s, a, b])
    for s in ('open-nokey',):
        for a in range(n):
            ret.append(['nokey', s, a])
    for size in range(5, 17):
        ret.append(['limits', size])
        ret.append(['width', size])
    for a in range(n):
        ret.append(['dev', 'open-cert', a])
        ret.append(['dev', 'closed-ks', a])
    ret += [['from', k] for k in range(len(FROM))]
    ret += [['slots', i] for i in range(5)]
    ret += [['fresh', k] for k in range(len(FROM))]
    ret += [['far'] + c for c in far_cases()]
    return ret


FROM = [0, 1, -1, 255, -256, 2 ** 31 - 1, -2 ** 31, 2 ** 39 - 1, -2 ** 39, 2 ** 53, 2 ** 53 + 1,
        2 ** 63 - 1, -2 ** 63, 2 ** 64, 10 ** 30, -10 ** 30]


def mk(reg, op, **o):
    k, a, s = op
    return reg.make(k, sums=list(AMT[a]), sign=s, **o)


def run(case, rep):
    if case[0] == 'far':
        return far_check(rep, 'counter', case[1:])
    kind = case[0]
    if kind in ('seq', 'nokey'):
        S = SYS[case[1]]
        seconds = [case[3]] if kind == 'seq' else range(len(OPS))
        for b in seconds:
            thirds = range(len(OPS)) if kind == 'seq' else (0, 3, 9)
            for c in thirds:
                reg = S.register(size=16)
                recs = [reg.make()] + [mk(reg, OPS[x]) for x in (case[2], b, c)]
                # a closing standard receipt reveals the running total
                recs += [reg.make('std', 0), reg.make('std', 1)]
                if kind == 'nokey':
                    g = S.register(size=16)
                    recs = [g.make()] + [mk(g, OPS[x], tcdelta=7) if OPS[x][0] == 'std'
                            else mk(g, OPS[x]) for x in (case[2], b, c)]
                check_history(rep, S, recs, MODES, what='exact')
                rep.state((case, b, c))
        rep.sample([OPS[case[2]], OPS[b], OPS[c]])
    elif kind == 'dev':
        S = SYS[case[1]]
        op = OPS[case[2]]
        for first in range(len(OPS)):
            reg = S.register()
            pre = [reg.make(), mk(reg, OPS[first])] if first else [reg.make()]
            if OPS[first][1] == 'huge' or op[1] == 'huge':
                reg.size = 12
            pre_tc = reg.tc
            tot = sum(ref.cents(x) for x in AMT[op[1]])
            exact = pre_tc + tot
            sz = reg.size
            alts = {exact + d for d in (1, -1, 2, 10, 100, -100, 256, 1 << 32, 1 << 31)}
            alts |= {pre_tc, -exact, exact - 2 * tot, tot, 0, exact // 100, exact * 100,
                pre_tc - tot, exact ^ 1 << (8 * sz - 2), exact ^ (1 << 8 * (sz - 1) - 1)}
            alts |= {pre_tc + ref.cents(x) for x in AMT[op[1]]}
            alts.discard(exact)
            for v in sorted(alts):
                if not -(1 << 8 * sz - 1) <= v < 1 << 8 * sz - 1:
                    continue
                if op[0] != 'std':
                    continue
                g = reg.clone()
                rid = 'B%d' % g.n
                bad = mk(g, op, tcb=ref.enc_tc(g.reg, rid, v, sz))
                check_history(rep, S, pre + [bad, g.make('std', 0)], MODES,
                        what='counter %d instead of %d' % (v, exact))
                rep.state((case, first, v))
            if op[0] == 'std' or True:
                # other constructions of the encrypted counter
                for what in ('key', 'reg', 'rid', 'little', 'plain', 'other'):
                    g = reg.clone()
                    rid = 'B%d' % g.n
                    pt = exact.to_bytes(sz, 'big', signed=True)
                    tcb = {'key': lambda: ref.aesctr(g.reg, rid, ref.AESKEY2, pt),
                        'reg': lambda: ref.aesctr('x', rid, ref.AESKEY, pt),
                        'rid': lambda: ref.aesctr(g.reg, 'x', ref.AESKEY, pt),
                        'little': lambda: ref.aesctr(g.reg, rid, ref.AESKEY, pt[::-1]),
                        'plain': lambda: pt,
                        'other': lambda: ref.aesctr(rid, g.reg, ref.AESKEY, pt)}[what]()
                    bad = mk(g, ('std',) + op[1:], tcb=tcb)
                    check_history(rep, S, pre + [bad], MODES, what='counter by ' + what)
            # wrong treatment of earlier receipts in the total of later ones
            for delta in (tot, -tot, 1, -1):
                g = reg.clone()
                x = mk(g, op)
                y = g.make('std', 5, tcdelta=delta)
                check_history(rep, S, pre + [x, y], MODES,
                        what='later counter off by %d after %r' % (delta, op))
                rep.state((case, first, 'later', delta))
    elif kind == 'limits':
        size = case[1]
        S = SYS['open-cert']
        for lim in ((1 << 8 * size - 1) - 1, -(1 << 8 * size - 1)):
            up = 1 if lim > 0 else -1
            for start in (lim - 2 * up, lim - up, lim, 0, -1, 255, 256, -256, -257, 65535):
                for step in (up, -up, 0, 2 * up):
                    reg = S.register(size=size)
                    j = reg.make('std', 0)
                    reg.tc = start
                    st = ref.RState(j[0], j[0], start, False, None)
                    v = start + step
                    wrapped = ((v + (1 << 8 * size - 1)) % (1 << 8 * size)) - (1 << 8 * size - 1)
                    rid = 'B1'
                    x = reg.make('std', step, tcb=ref.enc_tc(reg.reg, rid, wrapped, size))
                    recs = [x]
                    if wrapped == v:
                        recs.append(reg.make('reversal', -step))
                        recs.append(reg.make('std', 0))
                    at, V, _, _ = check_history(rep, S, recs, ('whole', 'steps', 'c2'),
                            st=st, used={'B0'}, what='size %d limit' % size)
                    rep.state((case, start, step))
    elif kind == 'width':
        # every width, positive and negative; width may also change
        for other in range(5, 17):
            for s in ('open-cert', 'closed-ks'):
                S = SYS[s]
                reg = S.register(size=case[1])
                recs = [reg.make('std', 0, size=other), reg.make('std', 12345),
                    reg.make('std', -99999, size=other), reg.make('dummy', 3),
                    reg.make('reversal', -7), reg.make('std', 1)]
                check_history(rep, S, recs, MODES, what='widths')
                rep.state((case, other, s))
                g = S.register(size=case[1])
                recs = [g.make('std', 0, size=other), g.make('std', -12345, tcdelta=1),
                    g.make('std', 0, tcdelta=-1)]
                check_history(rep, S, recs, MODES, what='widths off by one')
    elif kind == 'from':
        # continue from arbitrary totals
        S = SYS['open-cert']
        for op in OPS:
            for delta in (0, 1, -1, 1 << 53):
                reg = S.register(size=16)
                j = reg.make()
                reg.tc = FROM[case[1]]
                st = ref.RState(j[0], j[0], reg.tc, False, None)
                recs = [mk(reg, op), reg.make('std', 3, tcdelta=delta)]
                check_history(rep, S, recs, ('whole', 'steps'), st=st, used={'B0'},
                        what='from %d' % FROM[case[1]])
                rep.state((case, op, delta))
    elif kind == 'fresh':
        # a state without receipts whose total was set
        for s in ('open-cert', 'closed-ks'):
            S = SYS[s]
            start = FROM[case[1]]
            for v in sorted({start, 0, -start, start + 1, start - 1}):
                for op in (('std', 'cent', True), ('reversal', 'neg', True), ('std', 'zero', False)):
                    reg = S.register(size=16)
                    st = ref.RState(None, None, start, False, None)
                    j = reg.make(tcb=ref.enc_tc(reg.reg, 'B0', v, 16))
                    reg.tc = start
                    recs = [j, mk(reg, op), reg.make('std', 0)]
                    check_history(rep, S, recs, MODES, st=st, what='total %d, first counter %d' % (
                        start, v))
                    rep.state((case, s, v, op))
    elif kind == 'slots':
        # every slot counts once: all sign patterns over the five sums
        S = SYS['closed-ks']
        for signs in itertools.product((-1, 0, 1), repeat=5):
            sums = [ref.money(s * (7 ** i + 10 ** (i + 2))) for i, s in enumerate(signs)]
            for k in ('std', 'reversal') if case[1] < 4 else ('dummy',):
                reg = S.register()
                sums2 = sums[case[1]:] + sums[:case[1]]
                recs = [reg.make(), reg.make(k, sums=sums2), reg.make('std', 0)]
                check_history(rep, S, recs, ('whole', 'c1'), what='slots')
                rep.state((case, signs, k))
