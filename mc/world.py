"""Named system configurations and generic explorer helpers."""
import json

from . import drive, ref


class Sys(object):
    """One configuration of register, group certificate and key store."""

    def __init__(self, name, closed=False, cert=None, chain=(), certs=(), pubs=(),
            serial=None, key='leaf0', zda=None, aes=True, size=8):
        self.name = name
        self.closed, self.cert, self.chain = closed, cert, list(chain)
        self.certs, self.pubs, self.key = list(certs), list(pubs), key
        self.serial = serial or ('U:ATU12345678-K0' if closed
                else ref.keyid(ref.cert_serial(key + 'self')))
        self.zda = zda or ('AT0' if closed else 'AT1')
        self.aes = ref.AESKEY if aes else None
        self.size = size
        self.ks = ref.keystore(self.certs, self.pubs,
                ref.B64KEY if aes else None)
        keys = {}
        for c in self.certs:
            keys[ref.keyid(ref.cert_serial(c))] = CERTKEY[c]
        for i, k in self.pubs:
            keys[i] = k
        self.ctx = ref.Ctx(cert, CERTKEY.get(cert), keys, self.aes)

    def register(self, **kw):
        kw.setdefault('size', self.size)
        return ref.Register(key=self.key, zda=self.zda, serial=self.serial,
                closed=self.closed, **kw)

    def group(self, recs):
        return (recs, self.cert, self.chain)

    def dep(self, *recs_lists):
        return ref.dep(*[self.group(r) for r in recs_lists])

    def ctx_of(self, i):
        return self.ctx


CERTKEY = {None: None, 'leaf0self': 'leaf0', 'leaf1self': 'leaf1',
        'leaf2self': 'leaf2', 'leaf0mid1': 'leaf0', 'leaf0mid0': 'leaf0',
        'leaf0root0': 'leaf0', 'leaf1root0': 'leaf1', 'leaf0rsa': 'leaf0',
        'leaf0ed': 'leaf0', 'leafneg': 'leaf2', 'root0': 'root0',
        'root1': 'root1', 'mid0': 'mid0', 'mid1': 'mid1', 'rootrsa': 'rsa',
        'leafrsa': 'rsa', 'leafp384': 'p384', 'rooted': 'ed'}

UID = 'U:ATU12345678-K0'
DEC = str(ref.cert_serial('leaf0self'))

SYS = {s.name: s for s in [
    Sys('open-cert', cert='leaf0self', certs=['leaf0self']),
    Sys('open-ks', certs=['leaf0self']),
    Sys('open-dec', certs=['leaf0self'], serial=DEC),
    Sys('open-chain', cert='leaf0mid1', chain=['mid1', 'mid0'], certs=['root0', 'mid0']),
    Sys('open-dec-cert', cert='leaf0self', certs=['leaf0self'], serial=DEC),
    Sys('closed-ks', closed=True, pubs=[(UID, 'leaf0')]),
    Sys('closed-cert', closed=True, cert='leaf0self', certs=['leaf0self']),
    Sys('closed-tax', closed=True, pubs=[('S:123456789-1', 'leaf0')], serial='S:123456789-1'),
    Sys('closed-gln', closed=True, pubs=[('G:1234567890123', 'leaf0')], serial='G:1234567890123'),
    Sys('open-nokey', cert='leaf0self', certs=['leaf0self'], aes=False),
    Sys('open-tc5', cert='leaf0self', certs=['leaf0self'], size=5),
    Sys('open-tc16', certs=['leaf0self'], size=16),
]}


def empty_state(bk=drive.UNIQUE):
    return drive.cluster_json([], [] if bk == drive.UNIQUE
            else {'minId': None, 'maxId': None}, bk)


def check_verdict(rep, res, V, what, detail=None, parallel=False, key=None):
    """Compare an implementation Result with the reference's violated rules."""
    if not V:
        if not res.ok:
            rep.fail('%s: rejected a valid history with %s' % (what, res.show()),
                    detail, key)
            return False
        return True
    if res.ok:
        rep.fail('%s: accepted a history violating %s' % (what, sorted(V)),
                detail, key)
        return False
    if parallel:
        if not res.documented:
            rep.fail('%s: undocumented error %s' % (what, res.show()), detail, key)
            return False
    elif res.name not in V:
        rep.fail('%s: rejected with %s instead of one of %s' % (what,
            res.show(), sorted(V)), detail, key)
        return False
    return True


def check_state(rep, res, regs, used, what, detail=None, bk=drive.UNIQUE, key=None):
    """Compare the state after an accepted history."""
    want = drive.norm_state(drive.cluster_json(regs, used, bk))
    if res.state != want:
        rep.fail('%s: state differs' % what, {'got': res.state, 'want': want,
            'detail': detail}, key)
        return False
    return True


def kinds(kind, zero):
    """Sums (as text) for the zero-ness classes."""
    z = ['0,00'] * 5
    if zero == 'null':
        pass
    elif zero == 'negnull':
        z[1] = '-0,00'
    elif zero.startswith('slot'):
        z[int(zero[4])] = '0,01'
    elif zero == 'cancel':
        z[0], z[4] = '12,34', '-12,34'
    elif zero == 'neg':
        z[2] = '-7,00'
    elif zero == 'pos':
        z[0] = '10,00'
    else:
        raise KeyError(zero)
    return z


def cuts(n, maxparts=None):
    """All ways to cut a list of n into consecutive non-empty parts."""
    for m in range(1 << max(0, n - 1)):
        parts, cur = [], 1
        for i in range(n - 1):
            if m >> i & 1:
                parts.append(cur)
                cur = 1
            else:
                cur += 1
        parts.append(cur)
        if maxparts is None or len(parts) <= maxparts:
            yield parts


def split(lst, parts):
    i = 0
    for p in parts:
        yield lst[i:i + p]
        i += p


MODES_SEQ = ('whole', 'steps')
MODES_ALL = ('whole', 'steps', 'groups', 'c1', 'c2', 'c3', 'p2c1', 'p3c2', 'p2c0')


def check_history(rep, S, recs, modes=MODES_ALL, st=None, used=(), prev_start=None,
        idx=0, others=(), ctx_of=None, what='', detail=None, dep_of=None, key=None):
    """Run one history (list of (jws, signed_by)) through the given modes and
    compare verdict and resulting state with the reference.

    modes: 'whole' one DEP; 'steps' one DEP per receipt, passing JSON state;
    'groups' one DEP with one group per receipt; 'cN' chunk size N, one
    package; 'pMcN' M packages at a time with chunk size N;
    ('cut', [..]) consecutive DEPs of the given lengths.
    others: JSON states of registers before idx."""
    ctx_of = ctx_of or S.ctx_of
    detail = detail if detail is not None else recs
    at, V, fst, fused = ref.walk(recs, ctx_of, st, used, prev_start)
    js = [r[0] for r in recs]
    regs0 = list(others)
    if st is None and not others and not used:
        sj0 = None if idx == 0 else empty_state()
    else:
        sj0 = drive.cluster_json(regs0 + ([st] if st is not None else []), used)
    dep_of = dep_of or (lambda *gs: S.dep(*gs))
    aes = S.aes
    want_regs = regs0 + [fst]
    for m in modes:
        name = what + ' [%s]' % (m,)
        rep.trace()
        rep.ev(len(recs))
        if m == 'whole':
            res = drive.verify_dep(dep_of(js), S.ks, aes, sj0, idx if sj0 else None)
            par = False
        elif m == 'groups':
            if not S.cert:
                continue
            res = drive.verify_dep(dep_of(*[[j] for j in js]), S.ks, aes, sj0,
                    idx if sj0 else None)
            par = False
        elif m == 'steps' or m[0] == 'cut':
            parts = [1] * len(js) if m == 'steps' else m[1]
            par = False
            sj = sj0 or empty_state()
            ok_n = 0
            for part in split(js, parts):
                res = drive.verify_dep(dep_of(part), S.ks, aes, sj, idx)
                if not res.ok:
                    break
                sj = res.state
                ok_n += len(part)
            if not res.ok and V and not ok_n <= at < ok_n + len(part):
                rep.fail('%s: rejected in the segment after %d receipts instead of '
                        'at receipt %d (%s)' % (name, ok_n, at, res.show()), detail, key)
        else:
            np, cs = 1, m
            if m[0] == 'p':
                np, cs = int(m[1]), m[2:]
            res = drive.verify_parsed(dep_of(js), S.ks, aes, sj0,
                    idx if sj0 else None, nprocs=np, chunksize=int(cs[1:]),
                    nparts=np)
            par = True
        rep.outcome(res.name)
        check_verdict(rep, res, V, name, detail, par, key)
        if not V and res.ok:
            check_state(rep, res, want_regs, fused, name, detail, key=key)
    return at, V, fst, fused


# --------------------------------------------------------- long histories

FAR = 64
FAR_MODES = ('whole', ('cut', [FAR // 2, 17, FAR - FAR // 2 - 17]), 'c7', 'p8c3', 'p4c0')


def far_cases(n=8):
    """Positions of the edits of a long history, in batches"""
    return [[s, a, min(FAR, a + n)] for s in ('open-cert', 'closed-ks') for a in range(0, FAR, n)]


def far_op(i):
    """Kind, cents, signed of receipt i of a long history."""
    if i == 0:
        return 'std', 0, True
    return (('std', 11 * i, True), ('dummy', 5, True), ('reversal', -i, True), ('std', 7, False), ('dummy', 3, False),
        ('std', 0, True), ('std', -i, True), ('std', 0, True), ('reversal', 0, True), ('std', 9 * i, True),
        ('reversal', 4, False), ('std', 1, False), ('std', 0, True))[i % 13]


def far_check(rep, rule, case):
    """One edit that breaks the given rule, far from the start of a long history."""
    S = SYS[case[0]]
    reg = S.register()
    pre = []
    ops = [far_op(i) for i in range(FAR)]
    for i in range(case[1]):
        pre.append(reg.make(*ops[i]))
    for i in range(case[1], case[2]):
        for k, what in enumerate({'chain': ('zero', 'skip', 'delete'), 'signature': ('evil', 'other'),
                'counter': ('low', 'high'), 'restore': ('outage',), 'identity': ('date', 'register', 'first', 'second'),
                'none': ('none',)}[rule]):
            g = reg.clone()
            recs = list(pre)
            op, o = ops[i], {}
            if what == 'zero':
                o['chain'] = 'AAAAAAAAAAA='
            elif what == 'skip' and i > 1:
                o['chain'] = ref.chain_value(pre[i - 2][0])
            elif what == 'evil':
                o['key'] = 'evil'
            elif what == 'other' and i > 1:
                # the signature of another receipt
                o['sig'] = ref.Rec.of(pre[i - 1][0]).sig
            elif what in ('low', 'high') and op[0] == 'std':
                o['tcdelta'] = 1 if what == 'high' else -1
            elif what == 'outage' and i:
                op = ('std', 5, False)
            elif what == 'date' and i:
                o['date'] = g.date(i - 1)[:-1] + '0' if g.date(i - 1)[-1] != '0' else g.date(max(i - 2, 0))
            elif what == 'register':
                o['reg'] = 'KASSE-2'
            elif what in ('first', 'second') and i > 1:
                o['rid'] = 'B%d' % ('first', 'second').index(what)
            elif what not in ('none', 'delete'):
                continue
            recs.append(g.make(*op, **o))
            if what == 'delete':
                recs.pop()
            if what == 'outage':
                # goes on without a restore receipt
                recs += [g.make('std', 5), g.make('std', 6)]
            for j in range(len(recs) + (what == 'delete'), FAR):
                recs.append(g.make(*ops[j]))
            recs = recs[:FAR]
            n = len(recs)
            modes = [m if not isinstance(m, tuple) else ('cut', [FAR // 2, 17, n - FAR // 2 - 17]) for m in FAR_MODES]
            if k and rule != 'identity':
                modes = modes[:2]
            check_history(rep, S, recs, modes, what='%s at %d of %d' % (what, i, FAR))
            rep.state(('far', rule, case[0], i, what))
        pre.append(reg.make(*ops[i]))
