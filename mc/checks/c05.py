"""C05: start receipt rules."""
import itertools

from .. import drive, env, ref
from ..world import SYS, Sys, check_history, kinds

ID = 'C05'
LEVEL = 'model_checking'
RULE = ('first receipts: the full product of {signed, outage text, corrupted signature, other '
    "key's signature, another receipt's signature} x 11 zero-ness classes of the sums x "
    '{standard, training, reversal} x 7 chain bases x {right, wrong counter} x {no state, empty '
    'state, state with a start receipt only, pinned chain value, cluster behind a closed register, receipt ID clash} x systems, '
    'each followed by two more receipts (which must leave the start receipt as recorded), as one '
    'DEP, receipt by receipt, one group per receipt and chunked/packaged; and states beginning within a history, where nothing may be recorded '
    'as start receipt')

SIGS = ['ok', 'broken', 'badsig', 'evil', 'exchanged']
ZEROS = ['null', 'negnull', 'slot0', 'slot1', 'slot2', 'slot3', 'slot4', 'cancel', 'neg', 'pos']
KINDS = ['std', 'dummy', 'reversal']
CHAINS = ['regid', 'prevstart', 'other', 'zero', 'reglower', 'regzda', 'pin']
MODES = ('whole', 'steps', 'groups', 'c1', 'p2c1', 'p3c0') if env.THOROUGH else ('whole', 'steps', 'p2c1')
SYSTEMS = ['open-cert', 'open-ks', 'closed-ks', 'closed-cert', 'open-nokey']
if env.THOROUGH:
    SYSTEMS = list(SYS)
# closed register used as predecessor in a cluster
PRE = SYS['closed-ks'].register(reg='KASSE-1', prefix='P')
PRE0 = PRE.make()
PRE1 = PRE.make('std', 4711)
INITS = ['none', 'empty', 'pin', 'cluster', 'clusteropen', 'clash', 'clusterclash', 'oldstart']


def cases():
    return [['first', s, i, sig] for s in SYSTEMS for i in INITS for sig in SIGS] + [
        ['second', s, k] for s in SYSTEMS for k in KINDS] + [
        ['mid', s, k, sg] for s in SYSTEMS for k in KINDS for sg in (True, False)]


def chain_of(kind, reg, pre0, pin):
    if kind == 'regid':
        return ref.chain_value(reg.reg)
    if kind == 'prevstart':
        return ref.chain_value(pre0)
    if kind == 'other':
        return ref.chain_value(PRE1[0])
    if kind == 'zero':
        return 'AAAAAAAAAAA='
    if kind == 'reglower':
        return ref.chain_value(reg.reg.lower())
    if kind == 'regzda':
        return ref.chain_value(reg.zda)
    return pin


def first(reg, S, sig, zero, kind, chain, tcdelta, **o):
    sums = kinds(kind, zero)
    kw = dict(sums=sums, chain=chain, tcdelta=tcdelta)
    kw.update(o)
    if sig == 'ok':
        return reg.make(kind, **kw)
    if sig == 'broken':
        return reg.make(kind, sign=False, **kw)
    if sig == 'evil':
        return reg.make(kind, key='evil', **kw)
    g = reg.clone()
    good = g.make(kind, **dict(kw, rid='other') if sig == 'exchanged' else kw)
    s = ref.Rec.of(good[0]).sig
    if sig == 'badsig':
        s = s[:40] + bytes([s[40] ^ 1]) + s[41:]
    return reg.make(kind, sig=s, **kw)


def setup(S, init):
    """-> st, used, prev_start, idx, others, pin"""
    pin = ref.chain_value('pinned')
    if init == 'none':
        return None, (), None, 0, (), pin
    if init == 'empty':
        return ref.RState(), (), None, 0, (), pin
    if init == 'pin':
        return ref.RState(chain=pin), {'X1'}, None, 0, (), pin
    if init == 'oldstart':
        # the last receipt was reset, the start receipt was not
        return ref.RState(start=PRE0[0]), {'X1'}, None, 0, (), pin
    if init == 'clash':
        return ref.RState(), {'B0'}, None, 0, (), pin
    pre0 = PRE0[0]
    if init == 'clusteropen':
        o = SYS['open-ks'].register(reg='KASSE-1', prefix='P')
        pre0 = o.make()[0]
    others = [ref.RState(pre0, PRE1[0], 4711, False, None)]
    used = {'P0', 'P1'} | ({'B0'} if init == 'clusterclash' else set())
    return ref.RState(), used, pre0, 1, others, pin


def run(case, rep):
    if case[0] == 'second':
        # the start receipt stays; a later receipt never replaces it
        S = SYS[case[1]]
        for z, sign, (k2, z2) in itertools.product(('null', 'cancel', 'pos'), (True, False),
                (('std', 'null'), ('std', 'pos'), ('reversal', 'null'), ('dummy', 'null'))):
            for init in ('none', 'empty', 'pin', 'cluster'):
                if init == 'cluster' and not S.closed:
                    continue
                st, used, pre0, idx, others, pin = setup(S, init)
                reg = S.register()
                base = {'pin': pin, 'cluster': ref.chain_value(pre0) if pre0 else None}.get(init)
                recs = [reg.make('std', 0, chain=base)]
                recs.append(reg.make(case[2], sums=kinds(case[2], z), sign=sign))
                recs.append(reg.make(k2, sums=kinds(k2, z2)))
                # chained like a start receipt: never accepted as a second one
                g = reg.clone()
                again = g.make('std', 0, chain=base or ref.chain_value(g.reg))
                recs2 = recs + [again]
                recs.append(reg.make('std', 0))
                for h in (recs, recs2):
                    check_history(rep, S, h, ('whole', 'steps', 'groups', 'c1', 'p2c1', 'p2c2'),
                            st=st, used=used, prev_start=pre0, idx=idx, others=others,
                            what='after start %s' % init)
                rep.state((case, z, sign, k2, z2, init))
        return
    if case[0] == 'mid':
        # a state beginning within a history: nothing there is a start receipt
        S = SYS[case[1]]
        reg = S.register()
        reg.make()
        pre = reg.make('std', 300)
        for start, pin, z, z2 in itertools.product((None, PRE0[0]), (False, True),
                ('null', 'pos'), ('null', 'pos')):
            g = reg.clone()
            base = ref.chain_value('pinned') if pin else None
            st = ref.RState(start, pre[0], g.tc if S.aes else 0, False, base)
            recs = [g.make(case[2], sums=kinds(case[2], z), sign=case[3], chain=base)]
            recs.append(g.make('std', sums=kinds('std', z2)))
            recs.append(g.make('reversal', sums=kinds('reversal', 'null')))
            recs.append(g.make('std', 0))
            for h in (recs[:2], recs):
                check_history(rep, S, h, ('whole', 'steps', 'groups', 'c1', 'c2', 'p2c1',
                    'p2c2', 'p3c0'), st=st, used={'X1'}, what='within a history')
            rep.state((case, bool(start), pin, z, z2))
        return
    _, sysname, init, sig = case
    S = SYS[sysname]
    deltas = (0, 1, -1) if S.aes else (0,)
    for zero, kind, chain in itertools.product(ZEROS, KINDS, CHAINS):
        for td in deltas if kind == 'std' else (0,):
            # away from the fully valid receipt, wrong counters add nothing to
            # what C03 enumerates
            if td and (zero not in ('null', 'pos') or chain not in ('regid', 'prevstart', 'pin')):
                continue
            if sig in ('badsig', 'exchanged') and (zero not in ('null', 'cancel', 'pos') or
                    chain in ('other', 'zero', 'regzda')) and not env.THOROUGH:
                continue
            st, used, pre0, idx, others, pin = setup(S, init)
            reg = S.register()
            cv = chain_of(chain, reg, pre0 or PRE0[0], pin)
            recs = [first(reg, S, sig, zero, kind, cv, td)]
            recs.append(reg.make('std', 150))
            recs.append(reg.make('std', 0))
            at, V, fst, _ = check_history(rep, S, recs, MODES, st=st, used=used,
                    prev_start=pre0, idx=idx, others=others,
                    what='start %s' % ([sig, zero, kind, chain, td, init],))
            rep.state((sysname, init, sig, zero, kind, chain, td))
            if not V:
                rep.sample([sysname, init, sig, zero, kind, chain])
            if len(rep.violations) > 5:
                return
