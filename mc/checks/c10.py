"""C10: clusters of registers in a closed system."""
import json

from .. import drive, env, ref
from ..world import SYS, check_state, check_verdict

ID = 'C10'
LEVEL = 'model_checking'
RULE = ('breadth of every state of a cluster of up to 3 registers reachable by 4 accepted DEPs '
    '(continuing any register or adding one, 1 or 2 receipts, both ID backends), and in each '
    'state every operation: register index None, -1..n+1 x 12 DEP variants (continuation, new '
    "start chained properly / to the ID / to another start / to a last receipt, other register's "
    'continuation, duplicate IDs across registers, open member, outage, wrong counter carry-over), '
    'clusters of up to 4 '
    'registers with every subset of them reset x every index x every chain base of a start receipt; '
    'sequential and packaged, against a reference cluster model')

DEPTH = 5 if env.THOROUGH else 4
MAXREG = 4 if env.THOROUGH else 3
VARIANTS = ['cont', 'two', 'start', 'startcont', 'startid', 'startfirst', 'startlast', 'other',
        'dup', 'dup2', 'open', 'outage', 'tc']


class Cl(object):
    """Reference cluster: register states, generators, used IDs."""

    def __init__(self, S, bk):
        self.S, self.bk = S, bk
        self.regs, self.gens = [], []
        self.used = set() if bk == drive.UNIQUE else ref.NatSet()
        self.n = 0

    def clone(self):
        c = Cl(self.S, self.bk)
        c.regs = [r.copy() for r in self.regs]
        c.gens = [g.clone() for g in self.gens]
        c.used = self.used.copy()
        c.n = self.n
        return c

    def data(self):
        return sorted(self.used) if self.bk == drive.UNIQUE else self.used.json()

    def json(self):
        return drive.cluster_json(self.regs, self.data(), self.bk)


def recs_for(cl, idx, var):
    """Receipts of a DEP variant for register idx; (recs, generator) or None"""
    S = cl.S
    k = len(cl.regs)
    i = k if idx is None else idx
    new = not 0 <= i < k
    # receipt IDs grow over the whole cluster, dates per register
    if new or var.startswith('start') or var == 'open':
        g = S.register(prefix='N')
        g.n = 0
    else:
        g = cl.gens[i].clone()
    seq = [cl.n]

    def make(*a, **kw):
        kw.setdefault('rid', 'R%d' % seq[0])
        seq[0] += 1
        return g.make(*a, **kw)
    prev = cl.regs[i - 1].start if 0 < i <= k else None
    base = ref.chain_value(prev) if prev else None
    if new and var in ('cont', 'two'):
        recs = [make(chain=base)]
        if var == 'two':
            recs.append(make('std', 11))
        return recs, g
    if var == 'cont':
        return [make('std', 7 + i)], g
    if var == 'two':
        return [make('reversal', -2), make('std', 7 + i)], g
    if var == 'start':
        return None if new else ([make(chain=base)], g)
    if var == 'startcont':
        # a start receipt continuing the predecessor's last receipt counter
        if not new or not k:
            return None
        g.tc = cl.regs[-1].tc
        return [make(chain=base)], g
    if var == 'startid':
        return [make(chain=ref.chain_value(g.reg))], g
    if var == 'startfirst':
        if k < 1:
            return None
        return [make(chain=ref.chain_value(cl.regs[0].start))], g
    if var == 'startlast':
        if k < 1:
            return None
        return [make(chain=ref.chain_value(cl.regs[-1].last))], g
    if var == 'other':
        if k < 2 and not (new and k):
            return None
        g = cl.gens[(i + 1) % k].clone()
        return [make('std', 3)], g
    if var == 'dup' or var == 'dup2':
        if not k:
            return None
        o = cl.gens[(i + 1) % k] if var == 'dup' else cl.gens[0]
        rid = ref.Rec.of(o.last).rid if var == 'dup' else 'R0'
        kw = {'chain': base} if new else {}
        return [make('std', 0, rid=rid, **kw)], g
    if var == 'open':
        kw = {'zda': 'AT1', 'serial': ref.keyid(ref.cert_serial('leaf0self'))}
        if not new:
            g = cl.gens[i].clone()
        else:
            kw['chain'] = base
        return [make('std', 0, **kw)], g
    if var == 'outage':
        kw = {'chain': base} if new else {}
        return [make('std', 0, sign=False, **kw), make('std', 0)], g
    if var == 'tc':
        kw = {'chain': base} if new else {}
        return [make('std', 0, tcdelta=5, **kw)], g


def oracle(cl, idx, recs):
    """-> violated rules, new regs, used, index"""
    k = len(cl.regs)
    i = k if idx is None else idx
    if i == k and k and cl.regs[-1].start is None:
        return {'NoStartReceiptForLastCashRegisterException'}, None, None, i
    if i < 0 or i > k:
        return {'InvalidCashRegisterIndexException'}, None, None, i
    prev = cl.regs[i - 1].start if i else None
    st = cl.regs[i] if i < k else ref.RState()
    at, V, fst, fu = ref.walk(recs, cl.S.ctx_of, st, cl.used, prev)
    if V:
        return V, None, None, i
    return V, cl.regs[:i] + [fst] + cl.regs[i + 1:], fu, i


def cases():
    ret = []
    for s in ('closed-ks', 'closed-cert'):
        for a in range(2):
            for b in range(4):
                for c in range(6):
                    ret.append(['tree', s, drive.UNIQUE, [a, b, c]])
    ret += [['tree', 'closed-ks', drive.NATURAL, [a, b]] for a in range(2) for b in range(4)]
    ret += [['open', s] for s in ('open-ks', 'open-cert', 'closed-ks')]
    ret += [['nostart', v] for v in VARIANTS]
    ret += [['reset', s, k, m] for s in ('closed-ks', 'closed-cert')
            for k in range(1, MAXREG + 2) for m in range(1 << k)]
    return ret


def run(case, rep):
    if case[0] == 'tree':
        tree(rep, Cl(SYS[case[1]], case[2]), case[3], DEPTH if case[2] == drive.UNIQUE else DEPTH - 1,
                [])
    elif case[0] == 'open':
        # an open predecessor, or an open second register
        S = SYS[case[1]]
        for pre in ('open', 'closed'):
            for start in ('prev', 'regid', 'zero'):
                P = SYS['open-ks'] if pre == 'open' else SYS['closed-ks']
                o = P.register(prefix='A')
                p0 = o.make()
                cl = Cl(S, drive.UNIQUE)
                cl.regs = [ref.RState(p0[0], p0[0], 0, False, None)]
                cl.used = {'A0'}
                for cents in (0, 5):
                    g = S.register()
                    recs = [g.make('std', cents, chain={'prev': ref.chain_value(p0[0]),
                        'regid': None, 'zero': 'AAAAAAAAAAA='}[start])]
                    apply(rep, cl, None, recs, [case, pre, start])
                    apply(rep, cl, 1, recs, [case, pre, start])
                    rep.state((case, pre, start, cents))
    elif case[0] == 'reset':
        # a cluster some of whose registers were reset (or pinned)
        _, sysname, k, m = case
        S = SYS[sysname]
        gens, regs, used = [], [], set()
        for i in range(k):
            g = S.register(prefix='R%d-' % i)
            p0 = g.make(chain=ref.chain_value(regs[-1].start) if i else None)
            p1 = g.make('std', 10 + i)
            regs.append(ref.RState(p0[0], p1[0], 10 + i, False, None))
            gens.append(g)
            used |= {'R%d-0' % i, 'R%d-1' % i}
        bases = [None] + [ref.chain_value(x) for r in regs for x in (r.start, r.last)]
        for pin in (False, True):
            cl = Cl(S, drive.UNIQUE)
            cl.regs = [ref.RState(chain=ref.chain_value('x') if pin else None) if m >> i & 1
                    else regs[i] for i in range(k)]
            cl.gens, cl.used = gens, used
            for idx in [None] + list(range(-1, k + 2)):
                for c in bases + [ref.chain_value('x')]:
                    g = S.register(prefix='N')
                    apply(rep, cl, idx, [g.make(chain=c), g.make('std', 5)], case)
                if idx is not None and 0 <= idx < k:
                    g = gens[idx].clone()
                    apply(rep, cl, idx, [g.make('std', 3)], case)
                rep.state((case, pin, idx))
    else:
        # last register has no start receipt (yet)
        S = SYS['closed-ks']
        o = S.register(prefix='A')
        p0 = o.make()
        p1 = o.make('std', 4)
        for regs in ([ref.RState()], [ref.RState(chain=ref.chain_value('x'))],
                [ref.RState(None, p0[0], 0, False, None)],
                [ref.RState(p0[0], p1[0], 4, False, None), ref.RState()]):
            cl = Cl(S, drive.UNIQUE)
            cl.regs = regs
            cl.gens = [o.clone() for r in regs]
            cl.used = {'A0', 'A1'}
            for idx in (None, len(regs), len(regs) + 1, -1):
                g = S.register()
                for recs in ([g.make()], [g.make(chain=ref.chain_value(p0[0]))]):
                    apply(rep, cl, idx, recs, case)
                    rep.state((case, idx, len(regs)))


def apply(rep, cl, idx, recs, detail):
    """One DEP on implementation and reference, from the same state."""
    S = cl.S
    V, regs, used, i = oracle(cl, idx, recs)
    js = [r[0] for r in recs]
    sj = cl.json()
    for mode in (0, 1, 2):
        if mode == 0:
            res = drive.verify_dep(S.dep(js), S.ks, S.aes, sj, idx, cl.bk)
        else:
            if mode == 2 and len(recs) < 2:
                continue
            res = drive.verify_parsed(S.dep(js), S.ks, S.aes, sj, idx, nprocs=mode,
                    chunksize=1, bk=cl.bk)
        rep.ev()
        rep.outcome(res.name)
        check_verdict(rep, res, V, 'index %r mode %d' % (idx, mode), [detail, js], mode > 0)
        if res.ok and not V:
            check_state(rep, res, regs, sorted(used) if cl.bk == drive.UNIQUE else used.json(),
                    'index %r mode %d' % (idx, mode), [detail, js], cl.bk)
    return V, regs, used, i


def tree(rep, cl, prefix, depth, path):
    k = len(cl.regs)
    rep.state((cl.bk, cl.S.name, path))
    acc = []
    for idx in [None] + list(range(-1, k + 2)):
        for var in VARIANTS:
            x = recs_for(cl, idx, var)
            if x is None:
                continue
            V, regs, used, i = apply(rep, cl, idx, x[0], path + [[idx, var]])
            if len(rep.violations) > 5:
                return
            # continue with ordinary growth of the cluster
            if not V and var in ('cont', 'two') and idx is not None and len(regs) <= MAXREG:
                acc.append((idx, var, x, regs, used, i))
    rep.trace()
    if not depth:
        rep.sample(path)
        return
    if prefix:
        # work is split over the first decisions
        if prefix[0] >= len(acc):
            return
        acc = [acc[prefix[0]]]
    for idx, var, (recs, g), regs, used, i in acc:
        c = cl.clone()
        c.regs, c.used = regs, used
        c.gens = c.gens[:i] + [g] + c.gens[i + 1:]
        c.n = cl.n + len(recs)
        tree(rep, c, prefix[1:], depth - 1, path + [[idx, var]])
