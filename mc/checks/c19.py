"""C19: whatever the cash register generates verifies."""
import copy
import datetime
import decimal
import itertools

from librksv import cashreg, run_test, sigsys

from .. import drive, env, ref
from ..world import SYS, check_state, check_verdict

ID = 'C19'
LEVEL = 'model_checking'
RULE = ('cash register: every sequence of a start receipt and 3 of 33 operations (type x amount '
    'class x working device / other device / outage) in 3 systems, every counter width 5..16 '
    'up to and beyond its limits, '
    'every pair of 22 amounts in every pair of rate slots; test runner: every sequence of 3 of 9 '
    'instructions on 2 devices x open/closed x groups, every combination of key and certificate '
    'options, every sequence of 5 DEP transitions (same DEP, continuation of any register, new '
    'cluster member); 30 rule-breaking overrides at every position; demo.py with all outcomes of its dice for up to 4 receipts; each receipt produced is '
    'compared field by field with the reference generator and verdict, state and counters of the '
    'verification with the reference walk')

DEPTH = 4 if env.THOROUGH else 3
AMOUNTS = [0, 0.0, -0.0, 0.01, -0.01, 0.005, 0.015, -0.005, 0.004, -0.004, 0.29, 1.005, 2.675,
    1.115, 8.575, 10, -10.5, 0.1 + 0.2, 4.35, 1234567.89, -99999999.99, 2147483647.995]


def text(v):
    """Amount as it has to be printed: nearest cent of the exact value, ties to even."""
    d = decimal.Decimal(v).quantize(decimal.Decimal('0.01'), decimal.ROUND_HALF_EVEN)
    return str(d).replace('.', ',')


SYSTEMS = {
    'open': ('AT1', [('leaf0', ref.keyid(ref.cert_serial('leaf0self'))),
        ('leaf1', ref.keyid(ref.cert_serial('leaf1self')))], ref.keystore(['leaf0self', 'leaf1self'])),
    'dec': ('AT77', [('leaf0', str(ref.cert_serial('leaf0self'))),
        ('leaf2', str(ref.cert_serial('leaf2self')))], ref.keystore(['leaf0self', 'leaf2self'])),
    'closed': ('AT0', [('leaf0', 'U:ATU12345678-K0'), ('leaf1', 'U:ATU12345678-K1')],
        ref.keystore([], [('U:ATU12345678-K0', 'leaf0'), ('U:ATU12345678-K1', 'leaf1')])),
}


class Cash(object):
    """One cash register of the code under test next to the reference generator."""

    def __init__(self, sysname, size=8, reg='KASSE-1', tc=0):
        self.zda, devs, self.ks = SYSTEMS[sysname]
        self.devs = []
        keys = {}
        for k, serial in devs:
            w = sigsys.SignatureSystemWorking(self.zda, serial, ref.Key(k).priv_pem)
            b = sigsys.SignatureSystemBroken(self.zda, serial)
            self.devs.append((w, b, k, serial))
            if self.zda == 'AT0':
                keys[serial] = k
        if self.zda != 'AT0':
            for k, _ in devs:
                keys[ref.keyid(ref.cert_serial(k + 'self'))] = k
        self.ctx = ref.Ctx(None, None, keys, ref.AESKEY)
        self.cr = cashreg.CashRegister(reg, None, tc, ref.AESKEY, size)
        self.model = ref.Register(reg=reg, zda=self.zda, closed=self.zda == 'AT0', size=size, tc=tc)

    def clone(self):
        o = copy.copy(self)
        o.cr = copy.copy(self.cr)
        o.model = self.model.clone()
        return o

    def ctx_of(self, i):
        return self.ctx

    def do(self, rep, kind, amounts, dev=0, broken=False, rid=None, date=None):
        """Produce one receipt with both; -> (jws, signed_by)"""
        w, b, key, serial = self.devs[dev]
        n = self.model.n
        rid = rid or 'B%d' % n
        date = date or self.model.date(n)
        # A clock has fractions of a second, the receipt does not.
        when = datetime.datetime.strptime(date, '%Y-%m-%dT%H:%M:%S').replace(
                microsecond=(0, 1, 500000, 999999)[n % 4])
        rec = self.cr.receipt('R1', rid, when, *amounts, sigSystem=b if broken else w, dummy=kind == 'dummy',
                reversal=kind == 'reversal')
        j = rec.toJWSString('R1')
        want, _ = self.model.make(kind, rid=rid, date=date, sums=[text(a) for a in amounts],
                serial=serial, sign=False)
        self.model.last = j
        rep.ev()
        r, m = ref.Rec(j), ref.Rec(want)
        d = [kind, amounts, dev, broken]
        rep.expect(r.payload, m.payload, 'payload produced', d)
        rep.expect(r.header, ref.HEADER, 'JWS header', d)
        rep.expect(r.broken, broken, 'outage text', d)
        rep.expect(self.cr.turnoverCounter, self.model.tc, 'turnover counter of the register', d)
        rep.expect(self.cr.lastReceiptSig, j, 'last receipt of the register', d)
        return j, None if broken else key


OPS = [(k, a, d, b) for k in ('std', 'dummy', 'reversal')
    for a in ((0.0,) * 5, (10.1, 0, 0, 0.2, -3.335), (-0.29, 0.005, 0, 0, 0), (-7.0, 7.0, 0, 0, 0))
    for d, b in ((0, False), (1, False), (0, True))]
OPS = [o for o in OPS if o[0] != 'dummy' or o[1][0] in (0.0, 10.1) or o[3] or o[2] == 0]


def seqs(rep, case):
    sysname, first = case[1:]
    root = Cash(sysname)
    st = root.do(rep, 'std', (0.0,) * 5)
    _, V, rst, used = ref.walk([st], root.ctx_of)
    assert not V
    res = drive.verify_dep(ref.dep(([st[0]], None, [])), root.ks, ref.AESKEY)
    check_verdict(rep, res, set(), 'start receipt')

    def rec(cash, hist, rst, used, sj, depth):
        ops = OPS if hist else [OPS[first]]
        for o in ops:
            c = cash.clone()
            j, sb = c.do(rep, o[0], o[1], o[2], o[3])
            V, nst = ref.step(rst, used, j, sb, c.ctx)
            res = drive.verify_dep(ref.dep(([j], None, [])), c.ks, ref.AESKEY, sj, 0)
            rep.trace()
            rep.outcome(res.name)
            h = hist + [(j, sb, o)]
            # the only rule operations alone can break is the restore receipt
            if V - {'NoRestoreReceiptAfterSignatureSystemFailureException'}:
                rep.fail('protocol broken by the register: %s' % sorted(V), [x[2] for x in h])
                continue
            if not check_verdict(rep, res, V, 'continuing', [x[2] for x in h]) or V:
                continue
            nu = used | {ref.Rec.of(j).rid}
            check_state(rep, res, [nst], nu, 'continuing', [x[2] for x in h])
            rep.state([sysname, [x[2] for x in h]])
            if depth > 1:
                rec(c, h, nst, nu, res.state, depth - 1)
            elif not (OPS.index(h[-1][2]) + OPS.index(h[-2][2])) % 7:
                js = [st[0]] + [x[0] for x in h]
                for par in (None, 2):
                    r = drive.verify_dep(ref.dep((js, None, [])), c.ks, ref.AESKEY) if not par \
                        else drive.verify_parsed(ref.dep((js, None, [])), c.ks, ref.AESKEY,
                            chunksize=par)
                    rep.trace()
                    check_verdict(rep, r, set(), 'whole history', [x[2] for x in h])
                    check_state(rep, r, [nst], nu, 'whole history', [x[2] for x in h])
    rec(root, [], rst, used, res.state, DEPTH)


def widths(rep, case):
    """Every counter width with values at the edge of what fits."""
    sysname, size = case[1:]
    top = (1 << (8 * size - 1)) - 1
    for tc0 in (0, -1, top - 101, -top + 99, 255, 256, -256, -257, 1 << 31, 1 << 39, 1 << 63, -(1 << 63)):
        if not -top <= tc0 <= top - 101:
            continue
        cash = Cash(sysname, size, tc=tc0)
        st = ref.RState(tc=tc0)
        used, sj = set(), drive.cluster_json([st], [])
        for n, (k, a) in enumerate([('std', 0.0), ('std', 1.0), ('reversal', -1.0), ('dummy', 5.0),
                ('std', -1.0), ('std', 0.01)]):
            j, sb = cash.do(rep, k, (0.0, a, 0.0, 0.0, 0.0))
            rep.state([sysname, size, tc0, n])
            r = ref.Rec.of(j)
            if r.standard:
                rep.expect(len(r.tcb), size, 'width of the encrypted counter')
            V, st = ref.step(st, used, j, sb, cash.ctx)
            res = drive.verify_dep(ref.dep(([j], None, [])), cash.ks, ref.AESKEY, sj, 0)
            rep.trace()
            rep.outcome(res.name)
            used.add(r.rid)
            if not check_verdict(rep, res, V, 'width %d, counter %d' % (size, tc0)):
                break
            check_state(rep, res, [st], used, 'width %d, counter %d' % (size, tc0))
            sj = res.state


def overflow(rep, case):
    """A total that does not fit: refused, and nothing has changed."""
    sysname, size = case[1:]
    top = (1 << (8 * size - 1)) - 1
    for up, over, before in itertools.product((1, -1), (1, 2, 100), range(3)):
        if size > 6 and over > 1:
            continue
        lim = top if up > 0 else -top - 1
        cash = Cash(sysname, size, tc=lim - up * 100)
        st = ref.RState(tc=lim - up * 100)
        used, sj = set(), drive.cluster_json([st], [])
        recs = [('std', 0.0)] + [('dummy', 9.0), ('reversal', up * 0.5)][:before]
        seq = recs + [None, ('std', up * 0.25), ('std', -up * 1.0)]
        for n, o in enumerate(seq):
            if o is None:
                left = (lim - cash.cr.turnoverCounter) * up
                a = up * (left + over) / 100
                w, b = cash.devs[0][:2]
                for dev in (w, b):
                    was = dict(cash.cr.__dict__)
                    rec, e = drive.outcome(cash.cr.receipt, 'R1', 'over', datetime.datetime(2017, 1, 1),
                            a, 0.0, 0.0, 0.0, 0.0, dev)
                    rep.ev()
                    rep.outcome(type(e).__name__)
                    d = [case, up, over, before, a]
                    if e is None:
                        rep.fail('counter %d in %d bytes: receipt %s' % (cash.cr.turnoverCounter, size,
                            rec.toJWSString('R1')), d)
                        return
                    rep.expect(dict(cash.cr.__dict__), was, 'register after a refused receipt', d)
                continue
            j, sb = cash.do(rep, o[0], (0.0, o[1], 0.0, 0.0, 0.0))
            V, st = ref.step(st, used, j, sb, cash.ctx)
            res = drive.verify_dep(ref.dep(([j], None, [])), cash.ks, ref.AESKEY, sj, 0)
            rep.trace()
            rep.outcome(res.name)
            used.add(ref.Rec.of(j).rid)
            if not check_verdict(rep, res, V, 'near the limit of %d bytes' % size):
                return
            check_state(rep, res, [st], used, 'near the limit of %d bytes' % size)
            sj = res.state
        rep.state([case, up, over, before])


def demo(rep, case):
    """demo.py with every outcome of its dice: what it prints verifies."""
    from .. import scripts
    import json
    import os
    import random
    import shutil
    import tempfile
    closed, num = case[1:]
    d = tempfile.mkdtemp(dir=os.environ.get('RKSVMC_SCRATCH'))
    try:
        for n, t in (('priv', ref.Key('leaf0').priv_pem), ('crt', ref.cert_pem('leaf0self')),
                ('pub', ref.Key('leaf0').pub_pem), ('aes', ref.B64KEY), ('aesnl', ref.B64KEY + '\n')):
            with open(os.path.join(d, n), 'wb') as f:
                f.write(t if isinstance(t, bytes) else t.encode())
        kid = 'U:ATU12345678-K0' if closed else ref.keyid(ref.cert_serial('leaf0self'))
        ctx = ref.Ctx(None, None, {kid: 'leaf0'}, ref.AESKEY)
        ks = ref.keystore([], [(kid, 'leaf0')]) if closed else ref.keystore(['leaf0self'])
        args = ['priv', 'pub', kid] if closed else ['priv', 'crt']
        values = [-1000.0, 1000.0, 0.0, 0.005, -0.004999, 123.455, 999.995, -0.01, 1e-9, 77.0]
        for dice in itertools.product((False, True), repeat=2 * max(0, num - 1)):
            for shift in range(len(values)) if num < 4 else (0, 3, 7):
                bits, k = list(dice), [shift]

                def uniform(a, b):
                    if (a, b) == (0, 1):
                        return 0.75 if bits and bits.pop(0) else 0.25
                    k[0] += 1
                    return values[k[0] % len(values)]
                old, random.uniform = random.uniform, uniform
                try:
                    o = scripts.run('demo.py', args + ['aesnl' if shift % 2 else 'aes', str(num)], cwd=d)
                finally:
                    random.uniform = old
                rep.ev()
                rep.trace()
                rep.state([case, dice, shift])
                what = 'demo.py %r dice %r %d' % (args, dice, shift)
                if num < 1:
                    if o.rc or o.exc or '{' in o.out or not o.out.strip():
                        rep.fail('%s: %r' % (what, o))
                    continue
                if o.rc or o.exc:
                    rep.fail('%s: %r %s' % (what, o, o.tb))
                    return
                doc = json.loads(o.out)
                js = [j for g in doc['Belege-Gruppe'] for j in g['Belege-kompakt']]
                rep.expect(len(js), num, what + ': number of receipts')
                recs = [(j, 'leaf0') for j in js]
                at, V, st, used = ref.walk(recs, lambda i: ctx)
                if V:
                    rep.fail('%s: receipt %d violates %s' % (what, at, sorted(V)), js)
                    return
                for res in (drive.verify_dep(doc, ks, ref.AESKEY),
                        drive.verify_parsed(doc, ks, ref.AESKEY, chunksize=1)):
                    rep.outcome(res.name)
                    if check_verdict(rep, res, set(), what, js):
                        check_state(rep, res, [st], used, what, js)
    finally:
        shutil.rmtree(d)


def amounts(rep, case):
    """Counter equals the exact total of the printed sums."""
    v = case[1]
    for w in AMOUNTS:
        for i, k in itertools.product(range(5), repeat=2):
            if i == k:
                continue
            for kind in ('std', 'reversal'):
                cash = Cash('open')
                s0 = cash.do(rep, 'std', (0.0,) * 5)
                a = [0.0] * 5
                a[i], a[k] = v, w
                s1 = cash.do(rep, kind, a)
                s2 = cash.do(rep, 'std', [0.1] * 5)
                rep.state([repr(v), repr(w), i, k, kind])
                total = sum(ref.cents(text(x)) for x in a + [0.1] * 5)
                rep.expect(cash.cr.turnoverCounter, total, 'total', a)
                if (i, k) in ((0, 1), (3, 2)):
                    res = drive.verify_dep(ref.dep(([s0[0], s1[0], s2[0]], None, [])), cash.ks,
                            ref.AESKEY)
                    rep.trace()
                    if check_verdict(rep, res, set(), 'amounts %r' % a):
                        rep.expect(res.state['cashRegisters'][0]['lastTurnoverCounter'], total,
                                'verified counter', a)


def ids(rep, case):
    """Register and receipt IDs with any characters but the separator."""
    texts = ['A', ' ', 'ä', '\u20ac\U0001f4b6', '-', '.', '0', 'R1-AT1', '"\\/', "a'b", 'x' * 300, '\t', 'a b',
        'É', 'E\u0301', '1', 'None', '%s', '{}']
    for reg, rid in itertools.product(texts, repeat=2):
        for sysname in ('open', 'closed'):
            cash = Cash(sysname, reg=reg)
            recs = [cash.do(rep, 'std', (0.0,) * 5, rid=rid), cash.do(rep, 'std', (1.0,) * 5,
                rid=rid + '2')]
            rep.state([reg, rid, sysname])
            at, V, st, used = ref.walk(recs, cash.ctx_of)
            res = drive.verify_dep(ref.dep(([j for j, _ in recs], None, [])), cash.ks, ref.AESKEY)
            rep.trace()
            rep.outcome(res.name)
            if check_verdict(rep, res, V, 'IDs %r %r' % (reg, rid)):
                check_state(rep, res, [st], used, 'IDs %r %r' % (reg, rid))


# ---------------------------------------------------------------- test runner

def instr(n, typ='STANDARD_BELEG', amounts=(0.0,) * 5, dev=0, damaged=False, **extra):
    names = ['taxSetNormal', 'taxSetErmaessigt1', 'taxSetErmaessigt2', 'taxSetNull', 'taxSetBesonders']
    d = {'signatureDeviceDamaged': damaged, 'receiptIdentifier': 'R-%d' % n,
        'dateToUse': '2017-01-%02dT%02d:%02d:%02d' % (1 + n // 24, n % 24, n % 7, n % 11),
        'usedSignatureDevice': dev, 'simplifiedReceipt': dict(zip(names, amounts))}
    if typ:
        d['typeOfReceipt'] = typ
    d.update(extra)
    return d


def spec_of(ins, devices=2, **kw):
    s = {'cashBoxId': 'KASSE-9', 'base64AesKey': ref.B64KEY, 'companyID': 'U:ATU12345678',
        'simulationRunLabel': 'x', 'numberOfSignatureDevices': devices,
        'cashBoxInstructionList': ins}
    s.update(kw)
    return s


DEVKEYS = ['leaf0', 'leaf1', 'leaf2']
FATAL = 'ANY'


def keymat(closed, n):
    return [(ref.Key(k).pub_pem if closed else ref.cert_pem(k + 'self'), ref.Key(k).priv_pem)
        for k in DEVKEYS[:n]]


def runner(rep, spec, closed, tcsize=None, accept=None, errors=()):
    """Run a spec; compare every DEP with the plan; verify with threaded state."""
    size = tcsize or spec.get('turnoverCounterSize', 8)
    n = spec['numberOfSignatureDevices']
    groups = spec.get('multipleGroups', False)
    rep.ev()
    plain = copy.deepcopy(spec)
    deps, ks = run_test.runTest(spec, keymat(closed, n), closed, tcsize)
    rep.expect(spec, plain, 'specification modified')
    short = {k: v for k, v in spec.items() if k != 'cashBoxInstructionList'}
    short['ops'] = [[i['typeOfReceipt'], i['signatureDeviceDamaged'], i['usedSignatureDevice'],
        i['simplifiedReceipt']['taxSetNormal'], i.get('beginNewDEP'), i.get('continueRegister'),
        i.get('override')] for i in spec['cashBoxInstructionList']]

    # ---- the plan: which receipt goes to which DEP, group and register
    plan, regs, cur, dep = [], [], -1, None
    for i in spec['cashBoxInstructionList']:
        new = i.get('beginNewDEP', 'NO_NEW_DEP')
        if cur < 0 or new == 'NEW_CLUSTER_DEP':
            cur = len(regs)
            m = ref.Register(reg=spec['cashBoxId'], closed=closed, size=size)
            if cur:
                m.last = regs[-1][1]
            regs.append([m, None])
            dep = {'reg': cur, 'new': True, 'cont': None, 'recs': [], 'total': None}
            plan.append(dep)
        elif new != 'NO_NEW_DEP':
            cur = i['continueRegister'] if i.get('continueRegister') is not None else cur
            dep = {'reg': cur, 'new': False, 'cont': i.get('continueRegister'), 'recs': [], 'total': None}
            plan.append(dep)
        dep['recs'].append(i)
        dep['total'] = i.get('annotateTurnoverCounter')
        # the start receipt of a register is needed for the next cluster member
        k = sum(len(p['recs']) for p in plan) - 1
        try:
            flat = [c for d in deps for g in d['Belege-Gruppe'] for c in g['Belege-kompakt']]
            j = flat[k]
        except Exception:
            rep.fail('receipt %d is missing' % k, short)
            return
        if regs[cur][1] is None:
            regs[cur][1] = j
    if not rep.expect(len(deps), len(plan), 'number of DEPs', short):
        return
    rep.expect(ks['base64AESKey'], spec['base64AesKey'], 'AES key in the key container')

    for r in regs:
        r.append(ref.RState())
    used, sj = set(), None
    dep2reg, nreg = [], 0
    last, booked, kcur = {}, [], -1
    for di, (d, p) in enumerate(zip(deps, plan)):
        flat = [c for g in d['Belege-Gruppe'] for c in g['Belege-kompakt']]
        if not rep.expect(len(flat), len(p['recs']), 'receipts in DEP %d' % di, short):
            return
        # groups: split exactly where the device changes
        sizes = [len(g['Belege-kompakt']) for g in d['Belege-Gruppe']]
        want = []
        for x, i in enumerate(p['recs']):
            if groups and x and i['usedSignatureDevice'] != p['recs'][x - 1]['usedSignatureDevice'] \
                    or not x:
                want.append(0)
            want[-1] += 1
        rep.expect(sizes, want, 'group sizes of DEP %d' % di, short)
        rep.expect(d.get('Umsatz-gesamt'), p['total'], 'annotated total', short)
        m = regs[p['reg']][0]
        recs = []
        for j, i in zip(flat, p['recs']):
            dev = i['usedSignatureDevice']
            r = ref.Rec(j)
            t = i['typeOfReceipt']
            kind = {'STORNO_BELEG': 'reversal', 'TRAINING_BELEG': 'dummy'}.get(t, 'std')
            sums = [text(i['simplifiedReceipt'][k]) for k in ('taxSetNormal', 'taxSetErmaessigt1',
                'taxSetErmaessigt2', 'taxSetNull', 'taxSetBesonders')]
            serial = '%s-K%d' % (spec['companyID'], dev) if closed else r.serial
            w, _ = m.make(kind, rid=i['receiptIdentifier'], date=i['dateToUse'], sums=sums,
                zda='AT0' if closed else r.zda, serial=serial, sign=False)
            m.last = j
            if 'override' not in i:
                rep.expect(r.payload, ref.Rec(w).payload, 'payload in DEP %d' % di, short)
                rep.expect(r.broken, i['signatureDeviceDamaged'], 'outage text', short)
            recs.append((j, None if r.broken else DEVKEYS[dev]))
            if not closed:
                rep.expect(r.zda != 'AT0' and r.zda.startswith('AT'), True, 'provider', short)
        # ---- consumer: which register does this DEP belong to?
        # (known finding: runTest's own idea of the current register)
        if di:
            booked[kcur] = di - 1
        if p['new']:
            kcur += 1
            booked.append(di)
        elif p['cont'] is not None:
            kcur = p['cont']
            if d.get('Vorheriges-DEP') != last[p['reg']] and d.get('Vorheriges-DEP') == booked[kcur]:
                rep.fail('DEP %d continues DEP %r instead of DEP %d' % (di, d.get('Vorheriges-DEP'),
                    last[p['reg']]), short, key='runTest:cluster-after-continued')
                return
        last[p['reg']] = di
        if d.get('Fortgesetztes-DEP', False):
            idx = dep2reg[d['Vorheriges-DEP']]
        else:
            idx = nreg
            nreg += 1
            if idx:
                rep.expect(dep2reg[d['Vorheriges-DEP']], idx - 1, 'previous register of DEP %d' % di,
                    short)
        dep2reg.append(idx)
        if not rep.expect(idx, p['reg'], 'register of DEP %d' % di, short):
            return
        keys = {}
        for x in range(n):
            if closed:
                keys['%s-K%d' % (spec['companyID'], x)] = DEVKEYS[x]
            else:
                keys[ref.keyid(ref.cert_serial(DEVKEYS[x] + 'self'))] = DEVKEYS[x]
        ctx = ref.Ctx(None, None, keys, ref.AESKEY)
        st = regs[idx][2]
        prev = regs[idx - 1][1] if idx else None
        if accept is None:
            at, V, nst, nu = ref.walk(recs, lambda i: ctx, st, used, prev)
        else:
            # devices with a generated chain: authentic iff the options are consistent
            V = set() if accept else set(errors)
            nst, nu = None, None
        res = drive.verify_dep(d, ks, ref.AESKEY, sj, None if sj is None else idx)
        res2 = drive.verify_parsed(d, ks, ref.AESKEY, sj, None if sj is None else idx, chunksize=2)
        rep.trace(2)
        rep.outcome(res.name)
        if not check_verdict(rep, res, V, 'DEP %d' % di, short):
            return
        if not check_verdict(rep, res2, V, 'DEP %d parsed' % di, short, True):
            return
        if V:
            return
        rep.expect(res2.state, res.state, 'state of DEP %d parsed' % di, short)
        if nst is not None:
            regs[idx][2], used = nst, nu
            got = [ref.RState.from_json(x).json() for x in res.state['cashRegisters']]
            rep.expect(got, [r[2].json() for r in regs[:nreg]], 'state after DEP %d' % di, short)
            rep.expect(res.state['cashRegisters'][idx]['lastTurnoverCounter'], m.tc,
                'counter after DEP %d' % di, short)
        sj = res.state
    return deps, ks


RUNOPS = [('STANDARD_BELEG', 10.1, 0, False), ('STANDARD_BELEG', -3.335, 1, False),
    ('STORNO_BELEG', -5.0, 0, False), ('TRAINING_BELEG', 7.77, 1, False),
    ('NULL_BELEG', 0.0, 0, False), ('NULL_BELEG', 0.0, 1, False), ('STANDARD_BELEG', 1.0, 0, True),
    ('STORNO_BELEG', 2.0, 1, True), ('TRAINING_BELEG', 0.0, 0, True)]


def runseq(rep, case):
    closed, groups, a = case[1:]
    for b, c in itertools.product(range(len(RUNOPS)), repeat=2):
        ins = [instr(0, 'START_BELEG')]
        for k, o in enumerate((a, b, c)):
            t, v, dev, dam = RUNOPS[o]
            ins.append(instr(k + 1, t, (v, 0.0, 0.005, 0.0, 0.0) if v else (0.0,) * 5, dev, dam))
        ins[-1]['annotateTurnoverCounter'] = 12.5
        rep.state([closed, groups, a, b, c])
        runner(rep, spec_of(ins, multipleGroups=groups), closed)


def runopts(rep, case):
    """Certificate and key options: consistent ones verify, others do not."""
    closed, groups, devices = case[1:]
    lengths = [0, 1, 2] if not closed else [0]
    B = [False, True]
    for L, osc, orc, fail, coll, dec, pub in itertools.product(lengths, B, B, (0, 1, 2), B, B, B):
        if fail > L or closed and (fail or coll or dec):
            continue
        bad = devices - 1    # options apply to the last device only
        vec = lambda v, d: [d] * bad + [v]
        spec = spec_of([instr(0, 'START_BELEG'), instr(1, amounts=(1.0,) * 5, dev=bad),
            instr(2, amounts=(2.5,) * 5, dev=0)], devices, multipleGroups=groups,
            certChainLength=vec(L, 0), omitSignCert=vec(osc, False), omitRootCert=vec(orc, False),
            certChainFailure=vec(fail, 0), certChainSerialCollision=vec(coll, False),
            decimalSerial=dec, includePublicKey=pub)
        # certificate of the device in the DEP, and known by the key store?
        errs = set()
        # devices generate their own intermediates: leaf is new for L > 0
        if groups and osc and devices > 1:
            # several groups, one of them without a certificate
            errs = {'NoCertificateGivenException'}
        elif closed:
            if groups and not osc and orc:
                errs = {'UntrustedCertificateException'}
            elif groups and osc:
                errs = set()
        elif groups and not osc:
            if fail:
                # the certificates of the chain do not fit together
                errs = {'CertificateChainBrokenException', 'UntrustedCertificateException'}
            if orc:
                errs = {'UntrustedCertificateException', 'CertificateChainBrokenException'}
            elif coll:
                errs = {'CertificateSerialCollisionException', 'CertificateChainBrokenException'}
        else:
            # only the last certificate of the chain is in the key store
            # (the colliding one has the serial of the device's own certificate)
            if orc:
                errs = {'NoPublicKeyException'}
            elif coll:
                errs = {'InvalidSignatureException'}
            elif L:
                errs = {'NoPublicKeyException'}
        rep.state(case[1:] + [L, osc, orc, fail, coll, dec, pub])
        runner(rep, spec, closed, accept=not errs, errors=errs)


def rundeps(rep, case):
    """Sequences of DEP transitions."""
    closed, groups, first = case[1:]
    n = 6 if env.THOROUGH else 5

    def rec(ins, nreg, left):
        if not left:
            for k, i in enumerate(ins):
                if k + 1 == len(ins) or ins[k + 1].get('beginNewDEP', 'NO_NEW_DEP') != 'NO_NEW_DEP':
                    i['annotateTurnoverCounter'] = 1.5 + k
            rep.state([closed, groups, [[i.get('beginNewDEP'), i.get('continueRegister')] for i in ins]])
            runner(rep, spec_of(ins, multipleGroups=groups), closed)
            return
        k = len(ins)
        a = (0.5 + k, 0.0, -0.25, 0.0, 0.0)
        dev = k % 3 == 2 and 1 or 0
        tr = [{}, {'beginNewDEP': 'NEW_CONTINUED_DEP'}, {'beginNewDEP': 'NO_NEW_DEP'}]
        if k % 2:
            tr.pop()
        tr += [{'beginNewDEP': 'NEW_CONTINUED_DEP', 'continueRegister': r} for r in range(nreg)]
        if closed:
            tr.append({'beginNewDEP': 'NEW_CLUSTER_DEP'})
        for x, t in enumerate(tr):
            if k == 1 and x != first:
                continue
            cl = t.get('beginNewDEP') == 'NEW_CLUSTER_DEP'
            i = instr(k, 'START_BELEG' if cl else 'STANDARD_BELEG', (0.0,) * 5 if cl else a, dev, **t)
            rec([copy.deepcopy(y) for y in ins] + [i], nreg + cl, left - 1)
    rec([instr(0, 'START_BELEG')], 1, n)


def runwidth(rep, case):
    closed, how, size = case[1:]
    ins = [instr(0, 'START_BELEG'), instr(1, amounts=(1234567.89,) * 5),
        instr(2, 'STORNO_BELEG', (-99999.99,) * 5), instr(3, amounts=(-0.01,) * 5)]
    kw = {'turnoverCounterSize': 8 if how == 'both' else size} if how != 'arg' else {}
    rep.state(case)
    r = runner(rep, spec_of(ins, 1, **kw), closed, None if how == 'spec' else size)
    if r:
        for j in r[0][0]['Belege-Gruppe'][0]['Belege-kompakt']:
            if ref.Rec(j).standard:
                rep.expect(len(ref.Rec(j).tcb), size, 'width')


OVERRIDES = {
    'tc': {'turnoverCounter': 123456}, 'tc0': {'turnoverCounter': -1},
    'chain': {'previousChain': 'MTIzNDU2Nzg='}, 'chainshort': {'previousChain': 'MTIzNDU2'},
    'chainempty': {'previousChain': ''},
    'enc': {'encTurnoverCounter': 'MTIzNDU2Nzg='}, 'encshort': {'encTurnoverCounter': 'MTIzNA=='},
    'enclong': {'encTurnoverCounter': 'MTIzNDU2Nzg5MDEyMzQ1Njc4'}, 'encbad': {'encTurnoverCounter': '%%'},
    'zda': {'zda': 'AT0'}, 'zda1': {'zda': 'AT55'}, 'zdabad': {'zda': 'X0'},
    'reg': {'registerId': 'OTHER'}, 'rid': {'receiptId': 'R-0'}, 'ridempty': {'receiptId': ''},
    'date': {'dateTime': '2016-01-01T00:00:00'}, 'datelater': {'dateTime': '2018-01-01T00:00:00'},
    'datebad': {'dateTime': '2017-02-30T00:00:00'},
    'sum': {'sumA': '77,00'}, 'sumdot': {'sumB': '1.00'}, 'sumneg': {'sumE': '-0,01'},
    'sig': {'signature': 'MTIz'}, 'sigbroken': {'signature': ref.b64u(ref.FAIL)},
    'header': {'header': '{"alg":"none"}'}, 'header2': {'header': '{"alg":"HS256"}'},
    'serial': {'certSerial': '1a2b'}, 'serialbad': {'certSerial': 'xyz'},
    'prefix': {'algorithmPrefix': 'R2'},
    'size': {'turnoverCounterSize': 5}, 'size16': {'turnoverCounterSize': 16},
    'jws': {'jwsOverride': 'a.b.c'}, 'jws2': {'jwsOverride': ''},
}


def runover(rep, case):
    """An instruction with an override; the result is judged by the reference."""
    closed, groups, name = case[1:]
    from .. import grammar
    for pos in range(4):
        for t in ('STANDARD_BELEG', 'STORNO_BELEG', 'TRAINING_BELEG'):
            if pos == 0 and t != 'STANDARD_BELEG':
                continue
            ins = [instr(k, amounts=(float(k),) * 5, dev=0) for k in range(4)]
            ins[pos]['typeOfReceipt'] = t
            ins[pos]['override'] = dict(OVERRIDES[name])
            rep.ev()
            rep.state(case[1:] + [pos, t])
            deps, ks = run_test.runTest(spec_of(ins, 1, multipleGroups=groups), keymat(closed, 1), closed)
            js = deps[0]['Belege-Gruppe'][0]['Belege-kompakt']
            if not rep.expect(len(js), 4, 'number of receipts'):
                continue
            detail = [name, pos, t, js]
            kid = 'U:ATU12345678-K0' if closed else ref.keyid(ref.cert_serial('leaf0self'))
            ctx = ref.Ctx(None, None, {kid: 'leaf0'}, ref.AESKEY)
            if groups:
                ctx = ref.Ctx('leaf0self', 'leaf0', {}, ref.AESKEY)
            good, V = [], None
            st, used = ref.RState(), set()
            for k, j in enumerate(js):
                g = grammar.judge('jws', j)
                if g is not True:
                    V = {FATAL}
                    break
                r = ref.Rec(j)
                sb = 'leaf0'
                if k == pos and name in ('sig', 'header', 'header2'):
                    sb = None
                V, nst = ref.step(st, used, j, sb, ctx)
                if V:
                    break
                st = nst
                used.add(r.rid)
            res = drive.verify_dep(deps[0], ks, ref.AESKEY)
            res2 = drive.verify_parsed(deps[0], ks, ref.AESKEY, chunksize=1)
            rep.trace(2)
            rep.outcome(res.name)
            for x in (res, res2):
                if V == {FATAL}:
                    if x.ok or not x.documented:
                        rep.fail('malformed receipt: %s' % x.show(), detail)
                    continue
                if check_verdict(rep, x, V, 'override %s at %d' % (name, pos), detail,
                        x is res2) and not V:
                    check_state(rep, x, [st], used, 'override %s at %d' % (name, pos), detail)


def cases():
    ret = [['seqs', s, i] for s in ('open', 'dec', 'closed') for i in range(len(OPS))]
    ret += [['widths', s, n] for s in ('open', 'closed') for n in range(5, 17)]
    ret += [['overflow', s, n] for s in ('open', 'closed') for n in range(5, 17)]
    ret += [['demo', c, n] for c in (False, True) for n in (0, -1, 1, 2, 3, 4)]
    ret += [['amounts', v] for v in AMOUNTS]
    ret += [['ids']]
    B = (False, True)
    ret += [['runseq', c, g, a] for c in B for g in B for a in range(len(RUNOPS))]
    ret += [['runopts', c, g, n] for c in B for g in B for n in (1, 2)]
    ret += [['rundeps', c, g, f] for c in B for g in B for f in range(4)]
    ret += [['runwidth', c, h, n] for c in B for h in ('spec', 'arg', 'both') for n in range(5, 17)]
    ret += [['runover', c, g, n] for c in B for g in B for n in sorted(OVERRIDES)]
    return ret


def run(case, rep):
    globals()[case[0]](rep, case)
