"""C06: continuity of register ID, system type, dates and receipt IDs."""
import itertools

from .. import drive, env, ref
from ..world import CERTKEY, SYS, Sys, check_history, kinds
from ..world import far_cases, far_check

ID = 'C06'
LEVEL = 'model_checking'
RULE = ('histories of 64 receipts with one such edit at every position; '
    'histories of a start receipt and 4 more over 5 receipt kinds per position: every '
    'position x every confusable register ID (for one receipt, or from there on); every '
    'position x open/closed switch and open provider change; every position x 17 date pairs '
    '(equal, one second, month/year/leap/DST borders, both directions); every pair of positions '
    'x identical or confusable receipt IDs x receipt kinds, and IDs from the state, other '
    'registers and segments; verified as one DEP, receipt by receipt, grouped and chunked/packaged')

KIND = [('std', 0, True), ('std', 5, True), ('dummy', 7, True), ('reversal', -5, True),
        ('dummy', 0, False)]
MODES = ('whole', 'steps', 'groups', 'c1', 'c2', 'p2c1', 'p3c2', 'p2c3')
REGS = [('KASSE-1', x) for x in ('kasse-1', 'KASSE-01', 'KASSE-1 ', ' KASSE-1', 'KASSE-2',
    'KASSE-', 'KASSE-1\u200b', 'KASSE\u20101', 'K\u0410SSE-1', 'KASSE-11', 'B1', 'dummyrec')] + [
    ('\u00c4-Kasse', 'A\u0308-Kasse'), ('\u00c4-Kasse', '\u00e4-Kasse'), ('1', '01'),
    ('1', '\u0661'), ('X', 'x')]
DATES = [('2017-03-01T10:00:00', '2017-03-01T10:00:00'),
    ('2017-03-01T10:00:00', '2017-03-01T10:00:01'),
    ('2017-02-28T23:59:59', '2017-03-01T00:00:00'),
    ('2016-02-29T23:59:59', '2016-03-01T00:00:00'),
    ('2016-12-31T23:59:59', '2017-01-01T00:00:00'),
    ('2017-09-30T12:00:00', '2017-10-01T11:00:00'),
    ('2017-03-09T12:00:00', '2017-03-10T11:00:00'),
    ('2017-03-26T01:59:59', '2017-03-26T03:00:00'),
    ('2017-10-29T02:30:00', '2017-10-29T02:30:01'),
    ('2017-03-01T09:59:59', '2017-03-01T10:00:00'),
    ('2017-03-01T10:09:59', '2017-03-01T10:10:00'),
    ('2017-03-01T00:00:00', '2017-03-01T12:00:00'),
    ('2017-03-31T12:00:00', '2018-01-01T11:00:00'),
    ('1969-12-31T23:59:59', '1970-01-01T00:00:00'),
    ('2037-12-31T23:59:59', '2040-01-01T00:00:00'),
    ('0999-01-01T00:00:00', '1000-01-01T00:00:00'),
    ('2017-03-01T23:59:59', '2017-03-02T00:00:00')]
IDS = [('B1', x) for x in ('B1', 'b1', 'B01', 'B1 ', ' B1', 'B\uff11', 'B10', 'B')] + [
    ('\u00c4', 'A\u0308'), ('\u00c4', '\u00e4'), ('1', '01'), ('1', '1'), ('0', '-0'),
    ('x' * 300, 'x' * 299 + 'y'), ('dummyrec', 'dummyrec'), ('\u00df', 'ss'), ('1.0', '1')]


def both():
    """Keys known for open and closed receipts alike, so that only the change
    of system type is wrong."""
    s = Sys('both', certs=['leaf0self'], pubs=[('U:ATU12345678-K0', 'leaf0')])
    return s


BOTH = both()
CERT = SYS['open-cert']


def cases():
    ret = []
    for s in ('open-cert', 'closed-ks'):
        for k in range(len(KIND)):
            for i in range(1, 5):
                ret.append(['reg', s, k, i])
                ret.append(['date', s, k, i])
    for s in ('both', 'open-cert'):
        for k in range(len(KIND)):
            for closed in (False, True):
                ret.append(['zda', s, k, closed])
    for s in ('open-cert', 'closed-ks'):
        for i in range(5):
            for j in range(i + 1, 5):
                ret.append(['dup', s, i, j])
        for k in range(len(KIND)):
            ret.append(['used', s, k])
            ret.append(['manydups', s, k])
    ret.append(['cluster', 'closed-ks'])
    ret += [['clusterdup', 'closed-ks', idx, k] for idx in (1, 2) for k in range(len(KIND))]
    ret += [['far'] + c for c in far_cases()]
    return ret


def op_ok(ops):
    """Keeps the outage protocol satisfied."""
    for i, o in enumerate(ops):
        if o == 4 and i + 2 < len(ops) and ops[i + 1] in (1, 2, 3):
            if ops[i + 2] != 0:
                return False
    return True


def hist(S, ops, over, reg=None, start=None, sticky=None):
    """over: {position: overrides}; sticky: (position, overrides) from there on"""
    r = reg or S.register()
    recs = []
    for i, o in enumerate([0] + list(ops)):
        kw = dict(over.get(i, {}))
        if sticky and i >= sticky[0]:
            kw.update(sticky[1])
        if i == 0 and start:
            kw.update(start)
        k, c, s = KIND[o]
        recs.append(r.make(k, c, s, **kw))
    return recs


def run(case, rep):
    if case[0] == 'far':
        return far_check(rep, 'identity', case[1:])
    kind = case[0]
    S = BOTH if case[1] == 'both' else SYS[case[1]]
    if kind == 'reg':
        k, i = case[2:]
        for (good, bad), sticky in itertools.product(REGS, (False, True)):
            for pre in (1, 2) if not env.THOROUGH else range(5):
                ops = [pre] * 4
                ops[i - 1] = k
                if not op_ok(ops):
                    continue
                for a, b in ((good, bad), (bad, good)):
                    reg = S.register(reg=a)
                    recs = hist(S, ops, {} if sticky else {i: {'reg': b}}, reg,
                            sticky=(i, {'reg': b}) if sticky else None)
                    check_history(rep, S, recs, MODES, what='register %r -> %r at %d' % (a, b, i))
                    rep.state((case, a, b, sticky, pre))
        reg = S.register(reg=good)
        check_history(rep, S, hist(S, ops, {}, reg), MODES, what='register unchanged')
    elif kind == 'date':
        k, i = case[2:]
        for a, b in DATES:
            for up in (True, False):
                for first in (0, i - 1):
                    ops = [1] * 4
                    ops[i - 1] = k
                    if not op_ok(ops):
                        continue
                    x, y = (a, b) if up else (b, a)
                    over = {n: {'date': x if n < i else y} for n in range(5)}
                    if not up and first:
                        # only one receipt earlier than its neighbours
                        over = {n: {'date': y if n == i else x} for n in range(5)}
                    recs = hist(S, ops, over)
                    check_history(rep, S, recs, MODES, what='dates %s, %s at %d' % (x, y, i))
                    rep.state((case, x, y, first))
    elif kind == 'zda':
        k, closed = case[2:]
        cl = {'zda': 'AT0', 'serial': 'U:ATU12345678-K0'}
        op1 = {'zda': 'AT1', 'serial': SYS['open-cert'].serial}
        if S.name == 'both':
            other_op = dict(op1, zda='AT2')
        else:
            other_op = dict(op1, zda='AT2')
        base, switched = (cl, op1) if closed else (op1, cl)
        variants = [switched]
        if not closed:
            variants += [other_op, dict(op1, zda='AT11'), dict(op1, zda='DE1')]
        else:
            variants += [other_op, dict(op1, zda='AT10')]
        for i in range(1, 5):
            for v in variants:
                for sticky in (False, True):
                    for pre in (1, 3, 2):
                        ops = [pre] * 4
                        ops[i - 1] = k
                        if not op_ok(ops):
                            continue
                        over = {n: dict(base) for n in range(5)}
                        for n in range(5):
                            if n == i or sticky and n >= i:
                                over[n] = dict(v)
                        recs = hist(S, ops, over)
                        check_history(rep, S, recs, MODES, what='system type at %d: %r' % (i, v))
                        rep.state((case, i, tuple(v.items()), sticky, pre))
                        # switch exactly in the state
                        check_history(rep, S, recs, [['cut', [i, 5 - i]]],
                                what='system type across segments')
    elif kind == 'dup':
        i, j = case[2:]
        for a, b in IDS:
            for ki in range(len(KIND)):
                for kj in range(len(KIND)):
                    if i == 0 and ki:
                        continue
                    ops = [1] * 4
                    if i:
                        ops[i - 1] = ki
                    ops[j - 1] = kj
                    if not op_ok(ops):
                        continue
                    recs = hist(S, ops, {i: {'rid': a}, j: {'rid': b}},
                            S.register(prefix='R'))
                    if a != b and not env.THOROUGH and (ki, kj) not in ((0, 1), (4, 2), (3, 3)):
                        continue
                    check_history(rep, S, recs, MODES, what='IDs %r at %d and %r at %d' % (
                        a, i, b, j))
                    rep.state((case, a, b, ki, kj))
    elif kind == 'manydups':
        # ID repeated twice over, in adjacent and distant places
        for ids in itertools.product(range(3), repeat=4):
            ops = [1] * 4
            ops[2] = case[2]
            if not op_ok(ops):
                continue
            recs = hist(S, ops, {n + 1: {'rid': 'I%d' % x} for n, x in enumerate(ids)})
            check_history(rep, S, recs, MODES, what='IDs %r' % (ids,))
            rep.state((case, ids))
    elif kind == 'used':
        # IDs already in the state
        for a, b in IDS:
            for pos in range(5):
                for idx in (0, 1) if S.closed else (0,):
                    ops = [1] * 4
                    if pos:
                        ops[pos - 1] = case[2]
                    if not op_ok(ops):
                        continue
                    kw, prev, others, st = {}, None, (), ref.RState()
                    if idx:
                        o = S.register(prefix='O')
                        prev = o.make()[0]
                        others = [ref.RState(prev, prev, 0, False, None)]
                        kw = {'chain': ref.chain_value(prev)}
                    recs = hist(S, ops, {pos: {'rid': b}}, S.register(prefix='R'), start=kw)
                    check_history(rep, S, recs, MODES, st=st, used={a, 'O0'}, prev_start=prev,
                            idx=idx, others=others, what='used %r, then %r at %d' % (a, b, pos))
                    rep.state((case, a, b, pos, idx))
    elif kind == 'clusterdup':
        # IDs of the start receipt of a later register, and of the others
        idx, k = case[2:]
        for (a, b), pos in itertools.product(IDS + [('O0', 'O0'), ('P0', 'P0')], range(5)):
            others, used, prev = [], {'X1'}, None
            for p in 'OP'[:idx]:
                prev = S.register(prefix=p).make(chain=ref.chain_value(prev) if prev else None)[0]
                others.append(ref.RState(prev, prev, 0, False, None))
                used.add(p + '0')
            ops = [1] * 4
            if pos:
                ops[pos - 1] = k
            elif k:
                continue
            if not op_ok(ops):
                continue
            over = {0: {'rid': a}, pos: {'rid': b}}
            recs = hist(S, ops, over, S.register(prefix='R'), start={'chain': ref.chain_value(prev)})
            check_history(rep, S, recs, MODES, st=ref.RState(), used=used, prev_start=prev, idx=idx,
                    others=others, what='register %d, start ID %r, then %r at %d' % (idx, a, b, pos))
            rep.state((case, a, b, pos))
    else:
        # start receipt of the next register against the previous start
        # receipt: register ID and date apply across registers, too
        for (ra, rb) in [('KASSE-1', 'KASSE-1')] + REGS:
            for a, b in DATES:
                for x, y in ((a, b), (b, a)):
                    o = S.register(reg=ra, prefix='O')
                    prev = o.make(date=x)[0]
                    others = [ref.RState(prev, prev, 0, False, None)]
                    recs = hist(S, [1, 2], {n: {'date': max(a, b) if n else y} for n in range(3)},
                            S.register(reg=rb), start={'chain': ref.chain_value(prev)})
                    check_history(rep, S, recs, ('whole', 'steps', 'c1', 'p2c1'), st=ref.RState(),
                            used={'O0'}, prev_start=prev, idx=1, others=others,
                            what='cluster %r %r, %s %s' % (ra, rb, x, y))
                    rep.state((ra, rb, x, y))
        rep.sample([ra, rb, x, y])
