"""C04: signature-outage / restore-receipt protocol, as a state machine."""
from .. import drive, env, ref
from ..world import SYS, check_state, check_verdict, empty_state, kinds
from ..world import far_cases, far_check

ID = 'C04'
LEVEL = 'model_checking'
RULE = ('histories of 64 receipts with one such edit at every position; '
    'all operation sequences over {signed,outage} x {zero,nonzero} x {standard,'
    'training,reversal} (12 ops) after a start receipt, each op verified as its own DEP '
    'continuing the JSON state, compared with the reference state machine; every maximal '
    'trace replayed as one DEP, one group per receipt and through the chunked verifier; '
    'plus all pairs of a 54-op alphabet from every (last receipt kind, obligation) state')

OPS = [(s, z, k) for s in (True, False) for z in ('null', 'pos')
        for k in ('std', 'dummy', 'reversal')]
WIDE = [(s, z, k) for s in (True, False)
        for z in ('null', 'negnull', 'slot0', 'slot1', 'slot2', 'slot3', 'slot4',
            'cancel', 'neg') for k in ('std', 'dummy', 'reversal')]
DEPTH = 6 if env.THOROUGH else 4


def cases():
    ret = []
    systems = ['open-cert', 'closed-ks']
    for s in systems:
        for a in range(len(OPS)):
            for b in range(len(OPS)):
                ret.append(['seq', s, [a, b]])
    for s in (SYS if env.THOROUGH else ['open-ks', 'closed-cert', 'open-nokey', 'open-dec']):
        for last in range(len(OPS)):
            for need in (False, True):
                ret.append(['wide', s, last, need])
    for s in systems:
        for a in range(len(OPS)):
            ret.append(['part', s, a])
    ret += [['far'] + c for c in far_cases()]
    return ret


def make(reg, op):
    s, z, k = op
    return reg.make(k, sums=kinds(k, z), sign=s)


class Explorer(object):
    def __init__(self, sysname, rep):
        self.sys = SYS[sysname]
        self.rep = rep

    def step(self, sj, st, used, j, sb, what, trace):
        """one receipt on the implementation and the reference"""
        V, n = ref.step(st, used, j, sb, self.sys.ctx)
        res = drive.verify_dep(self.sys.dep([j]), self.sys.ks, self.sys.aes, sj, 0)
        self.rep.ev()
        self.rep.outcome(res.name)
        check_verdict(self.rep, res, V, what, trace)
        if not V:
            used = used | {ref.Rec.of(j).rid}
            if res.ok:
                check_state(self.rep, res, [n], used, what, trace)
        return V, n, used, res.state

    def dfs(self, reg, recs, ops, sj, st, used, depth, prefix=()):
        r = ref.Rec.of(recs[-1][0])
        self.rep.state((self.sys.name, st.need, r.broken, r.null, r.dummy, r.reversal,
            depth))
        if not depth:
            self.replay(recs, ops, st, used, None, set())
            return
        todo = [prefix[0]] if prefix else range(len(OPS))
        for o in todo:
            g = reg.clone()
            j, sb = make(g, OPS[o])
            V, n, u, nsj = self.step(sj, st, used, j, sb, 'op %r' % (OPS[o],),
                    [OPS[x] for x in ops] + [OPS[o]])
            if V:
                if depth == 1 or prefix:
                    self.replay(recs + [(j, sb)], ops + [o], st, used, len(recs), V)
                continue
            if nsj is None:
                continue
            self.dfs(g, recs + [(j, sb)], ops + [o], nsj, n, u, depth - 1, prefix[1:])

    def replay(self, recs, ops, st, used, at, V):
        """the whole trace at once"""
        S = self.sys
        js = [x[0] for x in recs]
        tr = [OPS[x] for x in ops]
        self.rep.trace()
        res = drive.verify_dep(S.dep(js), S.ks, S.aes)
        check_verdict(self.rep, res, V, 'whole DEP', tr)
        if not V:
            check_state(self.rep, res, [st], used, 'whole DEP', tr)
        if not V:
            self.rep.sample(tr)


def run(case, rep):
    if case[0] == 'far':
        return far_check(rep, 'restore', case[1:])
    kind, sysname = case[:2]
    X = Explorer(sysname, rep)
    S = X.sys
    reg = S.register()
    if kind == 'seq':
        j, sb = reg.make()
        V, st, used, sj = X.step(empty_state(), ref.RState(), set(), j, sb, 'start', [])
        if sj is None:
            return
        X.dfs(reg, [(j, sb)], [], sj, st, used, DEPTH, case[2])
    elif kind == 'wide':
        # from a synthetic state: last receipt kind x obligation
        j0, sb0 = reg.make()
        j1, sb1 = make(reg, OPS[case[2]])
        used = {ref.Rec.of(j0).rid, ref.Rec.of(j1).rid}
        st = ref.RState(j0, j1, reg.tc if S.aes else 0, case[3], None)
        sj = drive.cluster_json([st], used)
        for a in range(len(WIDE)):
            g = reg.clone()
            j, sb = make(g, WIDE[a])
            V, n, u, nsj = X.step(sj, st, used, j, sb, 'wide', [OPS[case[2]], case[3], WIDE[a]])
            rep.state((S.name, case[2], case[3], a))
            if V or nsj is None:
                continue
            for b in range(len(WIDE)):
                h = g.clone()
                j2, sb2 = make(h, WIDE[b])
                X.step(nsj, n, u, j2, sb2, 'wide2',
                        [OPS[case[2]], case[3], WIDE[a], WIDE[b]])
    else:
        # partitions: every sequence of 3 more ops, through groups and chunks
        j, sb = reg.make()
        for b in range(len(OPS)):
            for c in range(len(OPS)):
                for d in (0, 3, 7, 9):
                    g = reg.clone()
                    recs = [(j, sb)] + [make(g, OPS[o]) for o in (case[2], b, c, d)]
                    at, V, st, used = ref.walk(recs, S.ctx_of)
                    js = [x[0] for x in recs]
                    tr = [OPS[o] for o in (case[2], b, c, d)]
                    deps = [(S.dep(js), cs, np) for cs in (1, 2, 3) for np in (1, 2)]
                    if S.cert:
                        deps.append((S.dep(*[[x] for x in js]), 0, 2))
                        deps.append((S.dep(js[:2], js[2:4], js[4:]), 2, 1))
                    for dp, cs, np in deps:
                        res = drive.verify_parsed(dp, S.ks, S.aes, nprocs=np,
                                chunksize=cs)
                        rep.ev()
                        rep.trace()
                        check_verdict(rep, res, V, 'chunksize %d nprocs %d' % (cs, np),
                                tr, parallel=True)
                        if not V:
                            check_state(rep, res, [st], used,
                                    'chunksize %d nprocs %d' % (cs, np), tr)
