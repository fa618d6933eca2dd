"""C11: a failed verification leaves the passed-in state reusable."""
import copy
import itertools
import json

from .. import drive, env, ref
from ..drive import depparser, utils, verification_state as vs, verify
from ..pools import Chooser, FakePool
from ..world import SYS, check_state, check_verdict
from . import c07

ID = 'C11'
LEVEL = 'fault_enumeration'
RULE = ('initial states {empty, one register, obligation pending, pinned chain value, two-register '
    'cluster continued at either, or extended} x both ID backends x DEPs of 4 receipts with every '
    'fault class at every position, certificate errors in every group, malformed documents, a '
    'parser or a pool failing at every chunk/batch, unusable AES keys x sequential, chunked, '
    'packaged, pooled and streamed verification: state document before and after the failed '
    'call, then a retry (and a second failure and retry) on the same state object')

MODES = ['dep', (0, 1), (1, 1), (2, 1), (1, 2), (2, 2), 'stream', 'file', 'pool']
INITS = ['empty', 'one', 'need', 'pinned', 'two0', 'two1', 'two2']
FAULTS = c07.FAULTS + ['dupstate', 'dupself']


class Boom(Exception):
    pass


def cases():
    ret = []
    for s in ('open-cert', 'closed-ks'):
        for i in INITS:
            if i.startswith('two') and s == 'open-cert':
                continue
            for bk in (drive.UNIQUE, drive.NATURAL):
                ret += [['fault', s, i, bk, f] for f in FAULTS]
                ret.append(['infra', s, i, bk])
    return ret


def setup(S, init, bk):
    """-> cluster state JSON, register index to use, generator, reference
    state, used IDs, previous start receipt"""
    used = set() if bk == drive.UNIQUE else ref.NatSet()
    pre = S.register(prefix='A')
    others, st, idx, gen, prev, kw = [], ref.RState(), 0, None, None, {}
    if init != 'empty':
        p = [pre.make(), pre.make('std', 40)]
        if init == 'need':
            p += [pre.make('std', 5, False), pre.make('std', 6)]
        at, V, a, used = ref.walk(p, S.ctx_of, None, used)
        assert not V
        st, gen = a, pre
        if init == 'pinned':
            st = a.copy()
            st.chain = ref.chain_value('pin')
            kw = {'chain': st.chain}
        if init in ('two0', 'two1'):
            g2 = S.register(prefix='B')
            q = [g2.make(chain=ref.chain_value(a.start)), g2.make('std', 9)]
            at, V, b, used = ref.walk(q, S.ctx_of, None, used, a.start)
            assert not V
            if init == 'two0':
                others, idx, st, gen = [b], 0, a, pre
            else:
                others, idx, st, gen, prev = [a], 1, b, g2, a.start
        if init == 'two2':
            others, idx, st, prev, gen = [a], 1, ref.RState(), a.start, None
            kw = {'chain': ref.chain_value(a.start)}
    if gen is None:
        gen = S.register(prefix='B')
    gen = gen.clone()
    gen.prefix = 'C'
    fresh = st.last is None and st.chain is None
    regs = [] if init == 'empty' else [st] + others if init == 'two0' else others + (
            [st] if not fresh else [])
    data = sorted(used) if bk == drive.UNIQUE else used.json()
    return drive.cluster_json(regs, data, bk), idx, gen, st, used, prev, kw, regs


def build(gen, kw, need, fault, at, first_start, S):
    """Four receipts continuing the register, with a fault; None if the fault
    does not exist there."""
    reg = gen.clone()
    recs = []
    for i in range(4):
        k, c, s = ('std', 0, True) if i == 0 else [('std', 5, True), ('dummy', 7, True),
            ('reversal', -5, True)][i - 1]
        o = dict(kw) if i == 0 else {}
        if i == at:
            if fault == 'chain':
                o['chain'] = 'AAAAAAAAAAA='
            elif fault == 'tc':
                if k != 'std':
                    return None
                o['tcdelta'] = 1
            elif fault == 'date':
                o['date'] = '2011-01-01T00:00:00'
                if i == 0 and first_start:
                    o['date'] = '2031-01-01T00:00:00'
            elif fault == 'reg':
                o['reg'] = 'KASSE-X'
            elif fault == 'sig':
                o['sig'] = bytes(64)
            elif fault == 'evil':
                o['key'] = 'evil'
            elif fault == 'serial':
                o['serial'] = '1a2b' if not S.closed else 'U:ATU12345678-K9'
            elif fault == 'start':
                if not (first_start and i == 0):
                    return None
                c = 5
            elif fault == 'broken':
                s = False
            elif fault == 'zda':
                o.update({'zda': 'AT0', 'serial': 'U:ATU12345678-K0'} if not S.closed else
                        {'zda': 'AT1', 'serial': '1a2b'})
            elif fault == 'dupstate':
                o['rid'] = 'A0'
            elif fault == 'dupself':
                o['rid'] = 'C%d' % gen.n if i else 'A1'
        j = reg.make(k, c, s, **o)
        if i == at and fault == 'malformed':
            h, p, g = j[0].split('.')
            j = (h + '.' + ref.b64u(ref.unb64u(p).rsplit(b'_', 1)[0]) + '.' + g, None)
        recs.append(j)
    return recs


def call(st, S, dep, idx, mode, pool=None, key='S', parser=None, ks=None):
    key = S.aes if key == 'S' else key
    ks = drive.ks(ks or S.ks)
    try:
        if mode == 'dep' and parser is None:
            out = verify.verifyDEP(dep, ks, key, st, idx)
        else:
            kind, cs, np = 'dict', 0, 1
            if mode in ('stream', 'file'):
                kind, cs = mode, 2
            elif mode == 'pool':
                cs, np = 1, 2
            elif mode != 'dep':
                cs, np = mode
            p = parser or drive.parser_for(dep, kind, np)
            out = verify.verifyParsedDEP(p, ks, key, st, idx, pool, np, cs)
        return drive.Result(out.writeStateToJson())
    except Exception as e:
        return drive.Result(exc=e)


def same(before, after):
    """Unchanged, but for an empty register at the end."""
    if after == before:
        return True
    regs = after['cashRegisters']
    return len(regs) == len(before['cashRegisters']) + 1 and dict(after,
            cashRegisters=regs[:-1]) == before and regs[-1] == ref.RState().json()


def attempt(rep, st, S, dep, idx, mode, what, pool=None, **kw):
    """A call that fails; the state must be as before."""
    before = drive.norm_state(st.writeStateToJson())
    res = call(st, S, dep, idx, mode, pool, **kw)
    after = drive.norm_state(st.writeStateToJson())
    rep.ev()
    rep.outcome(res.name)
    if res.ok:
        return res
    if not same(before, after):
        rep.fail('%s: failed with %s but changed the state' % (what, res.show()),
                {'before': before, 'after': after})
    return res


def retry(rep, st, S, good, idx, mode, want, what, bk):
    """want: registers, used IDs (or violated rules)"""
    res = call(st, S, S.dep([r[0] for r in good]), idx, mode,
            FakePool(Chooser(), 2) if mode == 'pool' else None)
    V, regs, fu = want
    rep.ev()
    rep.trace()
    check_verdict(rep, res, V, what + ' retry', None, mode != 'dep')
    if res.ok and not V:
        check_state(rep, res, regs, sorted(fu) if bk == drive.UNIQUE else fu.json(),
                what + ' retry', None, bk)


def expected(S, init, sj, idx, recs, st, used, prev):
    at, V, fst, fu = c07_expected(S, recs, st, used, prev)
    regs = [ref.RState.from_json(r) for r in sj['cashRegisters']]
    regs[idx:idx + 1] = [fst]
    return V, regs, fu


def c07_expected(S, recs, st, used, prev):
    good = []
    for j, sb in recs:
        try:
            ref.Rec(j)
        except Exception:
            at, V, a, b = ref.walk(good, S.ctx_of, st, used, prev)
            return (at, V, a, b) if V else (len(good), {'MalformedReceiptException'}, a, b)
        good.append((j, sb))
    return ref.walk(recs, S.ctx_of, st, used, prev)


def run(case, rep):
    kind, sysname, init, bk = case[:4]
    S = SYS[sysname]
    sj, idx, gen, st0, used, prev, kw, regs = setup(S, init, bk)
    start = st0.last is None
    good = build(gen, kw, False, None, None, start, S)
    want = expected(S, init, sj, idx, good, st0, used, prev)
    idxs = [idx] + ([None] if idx == len(sj['cashRegisters']) else [])
    if kind == 'fault':
        for at in range(4):
            bad = build(gen, kw, False, case[4], at, start, S)
            if bad is None:
                continue
            V = c07_expected(S, bad, st0, used, prev)[1]
            bads = [r[0] for r in bad]
            for mode in MODES:
                for ix in idxs:
                    ch = Chooser()
                    while True:
                        pool = FakePool(ch, 2) if mode == 'pool' else None
                        state = drive.state_from(sj)
                        what = '%s at %d, %s, %s, index %r' % (case[4], at, init, mode, ix)
                        res = attempt(rep, state, S, S.dep(bads), ix, mode, what, pool)
                        check_verdict(rep, res, V, what, bads, mode != 'dep')
                        rep.state((case, at, str(mode), ix))
                        if V:
                            # fail again in another mode, then succeed
                            if mode != 'pool':
                                attempt(rep, state, S, S.dep(bads), idx, 'dep', what)
                            retry(rep, state, S, good, idx, mode, want, what, bk)
                        if mode != 'pool' or not ch.next():
                            break
                        if not env.THOROUGH and len(ch.path) > 2 and at % 2:
                            break
    else:
        infra(case, rep, S, sj, idx, good, want, idxs, bk)
        rep.sample(case)


class BadParser(object):
    """Delivers n chunks of a good parser, then fails."""

    def __init__(self, dep, n, exc):
        self.p, self.n, self.exc = depparser.DictDEPParser(dep, 1), n, exc

    def parse(self, chunksize=0):
        for i, c in enumerate(self.p.parse(chunksize)):
            if i == self.n:
                raise self.exc
            yield c
        raise self.exc


class BadPool(FakePool):
    """Fails in the n-th batch, at submission or delivery."""

    def __init__(self, n, late):
        FakePool.__init__(self, Chooser(), 2)
        self.n, self.late = n, late

    def _many(self, fn, tasks, star=False):
        self.n -= 1
        r = FakePool._many(self, fn, tasks, star)
        if self.n < 0:
            if not self.late:
                raise Boom('submit')
            r.out = (False, Boom('deliver'))
        return r


def infra(case, rep, S, sj, idx, good, want, idxs, bk):
    js = [r[0] for r in good]
    dep = S.dep(js)

    def one(what, mode='dep', d=dep, **kw):
        for ix in idxs:
            state = drive.state_from(sj)
            kws = {k: v() if callable(v) else v for k, v in kw.items()}
            res = attempt(rep, state, S, d, ix, mode, what, **kws)
            rep.state((case, what, str(mode), ix))
            if res.ok:
                rep.fail('%s (%s): accepted' % (what, mode))
            else:
                for m in ('dep', (2, 2)):
                    st2 = copy.deepcopy(state)
                    retry(rep, st2, S, good, idx, m, want, what, bk)
    for mode in ((1, 1), (1, 2), (2, 2), (2, 1)):
        for n in range(5):
            for exc in (Boom('x'), depparser.MalformedDEPException('x'), MemoryError()):
                one('parser fails after %d chunks' % n, mode, parser=lambda: BadParser(dep, n, exc))
    for n in (0, 1):
        for late in (False, True):
            one('pool fails in batch %d' % n, 'pool', pool=lambda: BadPool(n, late))
    for key in (b'', b'x' * 16, b'x' * 31, b'x' * 33):
        for mode in MODES[:6]:
            if key:
                one('AES key of %d bytes' % len(key), mode, key=key)
    # documents
    for what, d in (('no groups', {}), ('empty list', {'Belege-Gruppe': []}), ('wrong type', []),
            ('bad receipts', {'Belege-Gruppe': [{'Signaturzertifikat': '',
                'Zertifizierungsstellen': [], 'Belege-kompakt': js[:2] + [5]}]}),
            ('bad cert', {'Belege-Gruppe': [{'Signaturzertifikat': 'AAAA',
                'Zertifizierungsstellen': [], 'Belege-kompakt': js}]})):
        for mode in MODES[:-1]:
            one(what, mode, d)
    # second group with an untrusted certificate
    if S.cert:
        for cut in (1, 2, 3):
            for cert in ('leaf0fake', 'leaf0forged', 'leaf1self'):
                d = ref.dep((js[:cut], S.cert, S.chain), (js[cut:], cert, []))
                for mode in MODES[:-1]:
                    one('group certificate %s' % cert, mode, d)
                d = ref.dep((js[:cut], S.cert, S.chain), (js[cut:], None, []))
                one('group without certificate', 'dep', d)
    # unknown register
    n = len(sj['cashRegisters'])
    for ix in (-1, n + 1, n + 7):
        for mode in MODES[:6]:
            state = drive.state_from(sj)
            res = attempt(rep, state, S, dep, ix, mode, 'index %d' % ix)
            rep.expect(res.name, 'InvalidCashRegisterIndexException', 'index %d' % ix)
            retry(rep, state, S, good, idx, mode, want, 'index', bk)
