"""C22: every command of verification_state.py does what it says, nothing else."""
import copy
import itertools
import json
import os

from librksv import verification_state as vs

from .. import drive, env, ref, scripts
from ..world import SYS, check_state, check_verdict
from .c20 import answer
from .c21 import Dir

ID = 'C22'
LEVEL = 'model_checking'
RULE = ('explicit-state search of verification_state.py on a real state file: all command words of '
    'length 3 (4) over 20 commands from 5 initial documents with 0-2 registers (equal states '
    'merged), both ID backends; in every state up to length 1 (2) all of 140 further commands '
    'incl. failing ones (bad index, file, DEP, key, state, arguments) with byte-identical file; '
    'every transition compared with a document model; printed state compared; from reached states '
    'verification continued against the reference; DEP updates x chunk sizes x keys x register '
    'states; clusters of 3 to 26 registers x 12 commands x every index. Non-trivial: distinct documents')
ASSUMPTIONS = ['Negative register indices may be refused or count from the end.',
    'resetCashRegister also empties the used receipt IDs (they are not kept per register).',
    'The reading of used receipt IDs strips white space around each line.']

S = SYS['open-cert']
G = S.register()
START = G.make()[0]
G2 = G.clone()
R1 = G2.make('std', 1000)[0]
R2 = G2.make('std', 250, False)[0]
R3 = G2.make('dummy', 70)[0]
R4 = G2.make('reversal', -50)[0]
R5 = G2.make('std', 0)[0]
R6 = G2.make('reversal', -30)[0]
O = S.register(reg='ANDERE', prefix='X')
OS_ = O.make()[0]
O1 = O.make('std', 7)[0]
G3 = G2.clone()
LONG = [G3.make('std', 100 + i)[0] for i in range(45)] + [G3.make('reversal', -7 - i)[0] for i in range(5)]
# groups of the DEP files
DEPS = {'empty': [], 'none': [[]], 'start': [[START]], 'first': [[START, R1]],
    'out': [[R1, R2], [R3]], 'out2': [[R2, R3], [R4]], 'broken': [[START], [R1, R2]],
    'restored': [[R4, R5]], 'rev': [[R6]], 'all': [[START, R1, R2], [R3, R4], [R5, R6]],
    'dummy': [[R3]], 'foreign': [[OS_, O1]], 'holes': [[START], [], [R1], []], 'long': [LONG]}
IDFILES = {'ids': 'B0\nB1\n', 'nat': 'A9\nA10\nA010', 'ws': '  B0 \n\tB\u00e4 x\n\n', 'noids': '',
    'dup': 'B1\nb1\nB1\nB0\n'}
BADFILES = {'badjson': '{', 'notdep': '[]', 'badrec': json.dumps(ref.dep(([START, 'a.b.c'], None, []))),
    'late': json.dumps(ref.dep(([START, R1], None, [])))[:-1], 'badstate': '{"cashRegisters": []}',
    'nul': '', 'badtc': json.dumps(ref.dep(([START, R1.rsplit('.', 1)[0]], None, [])))}
CHAIN = ref.chain_value('pin')


def rj(start=None, last=None, tc=0, need=False, chain=None):
    return ref.RState(start, last, tc, need, chain).json()


def doc(regs, bk, ids=()):
    if bk == drive.NATURAL:
        n = ref.NatSet()
        for i in ids:
            n.add(i)
        ids = n.json()
    else:
        ids = list(ids)
    return drive.cluster_json(regs, ids, bk)


def inits(bk):
    return [doc([], bk), doc([rj()], bk), doc([rj(START, R1, 1000)], bk, ['B0', 'B1']),
        doc([rj(START, R2, 1250, False), rj(OS_, None, 0, True, CHAIN)], bk, ['B0', 'B1', 'B2']),
        doc([rj(START, R5, 5, True, 'x'), rj(None, None, -3)], bk)]


OTHER = doc([rj(OS_, O1, 7, False), rj('s', '', 9, True, 'c'), rj()], drive.UNIQUE, ['X0'])

DEEP = [('create',), ('addCashRegister',), ('resetCashRegister', '0'), ('resetCashRegister', '1'),
    ('deleteCashRegister', '0'), ('deleteCashRegister', '1'), ('copyCashRegister', '0', 'other', '0'),
    ('copyCashRegister', '1', 'other', '1'), ('updateCashRegister', '0', 'start'),
    ('updateCashRegister', '0', 'out', 'key'), ('updateCashRegister', '1', 'rev', 'key'),
    ('setLastReceiptJWS', '0', R2), ('setLastReceiptJWS', '1', 'None'),
    ('setLastTurnoverCounter', '1', '-12'), ('setChainNextTo', '0', CHAIN),
    ('toggleNeedRestoreReceipt', '0'), ('toggleNeedRestoreReceipt', '1'),
    ('setStartReceiptJWS', '1', START), ('setStartReceiptJWS', '0', 'None'),
    ('readUsedReceiptIds', 'ids')]


def wide():
    ret = list(DEEP) + [('show',)]
    for n in ('0', '1'):
        ret += [('updateCashRegister', n, d, *k) for d in DEPS for k in ((), ('key',), ('keynl',))]
        ret += [('setLastReceiptJWS', n, v) for v in (R1, '', 'none', 'x\u00e4')]
        ret += [('setLastTurnoverCounter', n, v) for v in ('0', '5', str(-10 ** 30))]
        ret += [('setChainNextTo', n, v) for v in ('None', '', 'AA==')]
        ret += [('setStartReceiptJWS', n, v) for v in (R1, '')]
        ret += [('copyCashRegister', n, 'other', '2'), ('copyCashRegister', n, 'self', '0'),
            ('copyCashRegister', n, 'self', '1')]
    ret += [('readUsedReceiptIds', f) for f in list(IDFILES) + ['None']]
    for f in ('jws', 'qr', 'ocr', 'csv', 'url'):
        for j in (START, R1, R2, R5):
            for k in ((), ('key',)):
                ret.append(('fromArbitraryReceipt', f, j, *k))
        ret.append(('fromArbitraryReceipt', f, R3))
        ret.append(('fromArbitraryReceipt', f, R4))
        ret.append(('fromArbitraryStartReceipt', f, START))
        ret.append(('fromArbitraryStartReceipt', f, R1))
    # commands that must fail or do nothing
    for n in ('2', '7', 'x', '', '1.0', '-3', 'None', '99999999999999999999'):
        ret += [('resetCashRegister', n), ('deleteCashRegister', n), ('copyCashRegister', n, 'other', '0'),
            ('updateCashRegister', n, 'start'), ('setLastReceiptJWS', n, R1),
            ('setLastTurnoverCounter', n, '5'), ('setChainNextTo', n, CHAIN),
            ('toggleNeedRestoreReceipt', n), ('setStartReceiptJWS', n, START)]
    for n in ('-1', '-2'):
        ret += [('deleteCashRegister', n), ('toggleNeedRestoreReceipt', n), ('resetCashRegister', n),
            ('setLastTurnoverCounter', n, '5')]
    ret += [('copyCashRegister', '0', 'other', n) for n in ('3', 'x', '-4')]
    ret += [('copyCashRegister', '0', f, '0') for f in ('badstate', 'badjson', 'nul', 'missing')]
    ret += [('updateCashRegister', '0', f, *k) for f in ('badjson', 'notdep', 'badrec', 'late', 'nul',
        'missing') for k in ((), ('key',))]
    ret += [('updateCashRegister', '0', 'all', 'missing'), ('updateCashRegister', '0', 'all', 'badkey'),
        ('updateCashRegister', '0', 'badtc', 'key')]
    ret += [('setLastTurnoverCounter', '0', v) for v in ('', 'x', '1.5', 'None')]
    ret += [('readUsedReceiptIds', 'missing')]
    ret += [('fromArbitraryReceipt', 'jws', v) for v in ('', 'a.b.c', R1.rsplit('.', 1)[0])]
    ret += [('fromArbitraryReceipt', 'jws', R1, 'missing'), ('fromArbitraryReceipt', 'jws', R1, 'badkey'),
        ('fromArbitraryReceipt', 'pdf', R1), ('fromArbitraryStartReceipt', 'JWS', R1),
        ('fromArbitraryReceipt', 'qr', 'x_y'), ('fromArbitraryStartReceipt', 'csv', 'x;y')]
    # wrong number of arguments, unknown commands
    for c, n in (('create', 0), ('show', 0), ('addCashRegister', 0), ('resetCashRegister', 1),
            ('deleteCashRegister', 1), ('copyCashRegister', 3), ('setLastReceiptJWS', 2),
            ('setLastTurnoverCounter', 2), ('setChainNextTo', 2), ('toggleNeedRestoreReceipt', 1),
            ('setStartReceiptJWS', 2), ('readUsedReceiptIds', 1), ('fromArbitraryStartReceipt', 2)):
        for k in {max(n - 1, 0), n + 1} - {n}:
            ret.append((c,) + ('0',) * k)
    ret += [('updateCashRegister', '0'), ('updateCashRegister', '0', 'start', 'key', 'x'),
        ('fromArbitraryReceipt', 'jws'), ('fromArbitraryReceipt', 'jws', R1, 'key', 'x'), (),
        ('Create',), ('drop',), ('',), ('create ',)]
    seen, out = set(), []
    for c in ret:
        if c not in seen:
            seen.add(c)
            out.append(c)
    return out


def upd(st, groups, key):
    """Register state after the receipts of a DEP, taken as verified."""
    st = dict(st)
    prev = st['lastReceiptJWS']
    for j in (x for g in groups for x in g):
        r = ref.Rec.of(j)
        if not prev:
            st['startReceiptJWS'] = j
        st['needRestoreReceipt'] = bool(not r.broken and prev and ref.Rec.of(prev).broken and
            not (r.standard and r.null))
        st['lastReceiptJWS'] = prev = j
        st['chainNextTo'] = None
        if key and r.standard:
            st['lastTurnoverCounter'] = ref.dec_tc(r.reg, r.rid, r.tcb)
        elif key and r.reversal:
            st['lastTurnoverCounter'] += r.turnover
    return st


class Fail(Exception):
    pass


def index(n, length):
    try:
        i = int(n)
    except ValueError:
        raise Fail()
    if i < 0 and -i <= length:
        return i
    if not 0 <= i < length:
        raise Fail()
    return i


def usedjson(bk, ids):
    u = set() if bk == drive.UNIQUE else ref.NatSet()
    for i in ids:
        u.add(i)
    return {'backendType': bk, 'backendData': sorted(u) if bk == drive.UNIQUE else u.json()}


ARGS = {'create': {0}, 'show': {0}, 'addCashRegister': {0}, 'resetCashRegister': {1},
    'deleteCashRegister': {1}, 'copyCashRegister': {3}, 'updateCashRegister': {2, 3},
    'setLastReceiptJWS': {2}, 'setLastTurnoverCounter': {2}, 'setChainNextTo': {2},
    'toggleNeedRestoreReceipt': {1}, 'setStartReceiptJWS': {2}, 'readUsedReceiptIds': {1},
    'fromArbitraryReceipt': {2, 3}, 'fromArbitraryStartReceipt': {2}}
FMTS = ('jws', 'qr', 'ocr', 'csv', 'url')
FIELD = {'setLastReceiptJWS': 'lastReceiptJWS', 'setChainNextTo': 'chainNextTo',
    'setStartReceiptJWS': 'startReceiptJWS'}


def model(d, bk, cmd):
    """-> (document after the command, may it also be refused); None if only the
    usage is shown; raises Fail if the command fails. 'arb' documents hold a
    callable for the made-up last receipt."""
    if not cmd or cmd[0] not in ARGS or len(cmd) - 1 not in ARGS[cmd[0]]:
        return None
    c, a = cmd[0], cmd[1:]
    d = copy.deepcopy(d)
    regs = d['cashRegisters']
    if c == 'create':
        return doc([], bk), False
    if c == 'show':
        return d, False
    if c == 'addCashRegister':
        if regs and not regs[-1]['startReceiptJWS']:
            raise Fail()
        regs.append(rj())
        return d, False
    if c == 'readUsedReceiptIds':
        if a[0] == 'None':
            ids = []
        elif a[0] in IDFILES:
            t = IDFILES[a[0]]
            ids = [l.strip() for l in (t[:-1] if t.endswith('\n') else t).split('\n')] if t else []
        else:
            raise Fail()
        d['usedReceiptIds'] = usedjson(bk, ids)
        return d, False
    if c.startswith('fromArbitrary'):
        if a[0] not in FMTS:
            return None
        if a[1] not in (START, R1, R2, R3, R4, R5):
            raise Fail()
        r = ref.Rec.of(a[1])
        if c == 'fromArbitraryStartReceipt':
            return doc([rj(chain=r.chain)], bk), False
        if len(a) == 3 and a[2] not in ('key', 'keynl'):
            raise Fail()
        tc = ref.dec_tc(r.reg, r.rid, r.tcb) - r.turnover if len(a) == 3 and r.standard else 0
        return doc([rj(None, True, tc, False, r.chain)], bk), False
    i = index(a[0], len(regs))
    maybe = i < 0
    if c == 'resetCashRegister':
        regs[i] = rj()
        d['usedReceiptIds'] = usedjson(bk, ())
    elif c == 'deleteCashRegister':
        del regs[i]
    elif c == 'copyCashRegister':
        src = {'other': OTHER, 'self': d}.get(a[1])
        if src is None:
            raise Fail()
        src = src['cashRegisters']
        regs[i] = dict(src[index(a[2], len(src))])
    elif c == 'updateCashRegister':
        if len(a) == 3 and a[2] not in ('key', 'keynl'):
            raise Fail()
        if a[1] not in DEPS or not any(DEPS[a[1]]):
            # verification refuses a DEP without receipts
            raise Fail()
        last = regs[i]['lastReceiptJWS']
        if last and sum(map(len, DEPS[a[1]])):
            try:
                ref.Rec.of(last)
            except Exception:
                # an unreadable last receipt is only needed for the restore flag
                raise Fail()
        regs[i] = upd(regs[i], DEPS[a[1]], len(a) == 3)
    elif c == 'setLastTurnoverCounter':
        try:
            regs[i]['lastTurnoverCounter'] = int(a[1])
        except ValueError:
            raise Fail()
    elif c == 'toggleNeedRestoreReceipt':
        regs[i]['needRestoreReceipt'] = not regs[i]['needRestoreReceipt']
    else:
        regs[i][FIELD[c]] = None if a[1] == 'None' else a[1]
    return d, maybe


class Tool(object):
    """The command in a scratch directory with its input files."""

    def __init__(self, d):
        self.d = d
        w = lambda n, t: open(os.path.join(d, n), 'w', encoding='utf-8').write(t)
        for n, gs in DEPS.items():
            w(n, json.dumps(ref.dep(*[(g, None, []) for g in gs])))
        for n, t in list(IDFILES.items()) + list(BADFILES.items()):
            w(n, t)
        w('other', json.dumps(OTHER))
        w('key', ref.B64KEY)
        w('keynl', ref.B64KEY + '\n')
        w('badkey', 'AAAA!!')
        self.file = os.path.join(d, 'state.json')

    def put(self, text):
        with open(self.file, 'w', encoding='utf-8') as f:
            f.write(text)

    def bytes(self):
        with open(self.file, 'rb') as f:
            return f.read()

    def run(self, cmd, bk):
        a = list(cmd)
        if a and a[0] == 'copyCashRegister' and len(a) == 4 and a[2] == 'self':
            a[2] = 'state.json'
        svc = None
        if a and a[0].startswith('fromArbitrary') and len(a) > 2 and a[1] in FMTS and '.' in a[2] \
                and len(a[2]) > 100:
            r = ref.Rec.of(a[2]) if a[2] in (START, R1, R2, R3, R4, R5) else None
            if r and a[1] == 'url':
                a[2] = 'http://rec.example/x#' + r.urlhash()
                svc = r.qr()
            elif r and a[1] != 'jws':
                a[2] = {'qr': r.qr, 'ocr': r.ocr, 'csv': r.csv}[a[1]]()
        old = vs.DEFAULT_USED_RECEIPT_IDS_BACKEND
        vs.DEFAULT_USED_RECEIPT_IDS_BACKEND = drive.backend(bk)
        try:
            if svc is not None:
                import requests
                oldget = requests.sessions.Session.send
                requests.sessions.Session.send = lambda s, req, **kw: answer(
                    doc={'code': svc})(req.url)
                try:
                    return scripts.run('verification_state.py', ['state.json'] + a, cwd=self.d)
                finally:
                    requests.sessions.Session.send = oldget
            return scripts.run('verification_state.py', ['state.json'] + a, cwd=self.d)
        finally:
            vs.DEFAULT_USED_RECEIPT_IDS_BACKEND = old


def shown(rep, o, d, what):
    """The printed fields of each register, in order."""
    vals = []
    for l in o.out.splitlines():
        n, s, v = l.strip().partition(': ')
        if s:
            vals.append(v)
        elif l.strip().endswith(':') and l.strip()[:-1].split()[-1].isdigit():
            pass
    want = []
    for r in d['cashRegisters']:
        want += [str(r['startReceiptJWS']), str(r['lastReceiptJWS']), str(r['lastTurnoverCounter']),
            str(r['needRestoreReceipt'])]
    want.append(d['usedReceiptIds']['backendType'])
    rep.expect([v for v in vals], want, what)


def transition(rep, tool, d, bk, cmd, check_out=True):
    """Runs one command; -> document after it."""
    rep.ev()
    text = json.dumps(d, indent=1)
    tool.put(text)
    before = tool.bytes()
    try:
        want = model(d, bk, cmd)
        kind = 'usage' if want is None else 'ok'
    except Fail:
        want, kind = None, 'fail'
    o = tool.run(cmd, bk)
    rep.outcome('%s %s' % (cmd[0] if cmd else '', kind))
    what = 'command %.300r' % (cmd,)
    detail = {'state': d, 'backend': bk, 'run': repr(o)}
    after = tool.bytes()
    if want is None or want[1] and after == before:
        if after != before:
            rep.fail('%s: %s, but the file changed' % (what, 'invalid usage' if kind == 'usage' else
                'must fail'), detail)
        elif kind == 'fail' and o.rc == 0:
            rep.fail('%s: must fail but reports success' % what, detail)
        return d
    if o.rc != 0:
        rep.fail('%s failed: %r %s' % (what, o.exc, o.tb), detail)
        return d
    want = want[0]
    try:
        got = json.loads(after.decode('utf-8'))
    except ValueError as e:
        rep.fail('%s: the state file is not JSON: %s' % (what, e), detail)
        return d
    if cmd[0] == 'fromArbitraryReceipt':
        # the made-up last receipt only matters by its register, time, system
        last = got['cashRegisters'][0].get('lastReceiptJWS') if got.get('cashRegisters') else None
        j = cmd[2]
        ok = False
        try:
            m, r = ref.Rec.of(last), ref.Rec.of(j)
            ok = (m.reg, m.date, m.zda == 'AT0') == (r.reg, r.date, r.zda == 'AT0') and not m.broken
        except Exception:
            pass
        if not ok:
            rep.fail('%s: last receipt %r' % (what, last), detail)
        want['cashRegisters'][0]['lastReceiptJWS'] = last
    rep.expect(drive.norm_state(got), drive.norm_state(want), what, detail)
    if cmd[0] == 'show' and check_out:
        shown(rep, o, d, 'shown state')
    return want


def continue_from(rep, d, bk):
    """Verification from this state gives the verdict the state implies."""
    used = d['usedReceiptIds']['backendData']
    bk = d['usedReceiptIds']['backendType']
    u = set(used) if bk == drive.UNIQUE else ref.NatSet(used['minId'], used['maxId'])
    for i, r in enumerate(d['cashRegisters']):
        prev = d['cashRegisters'][i - 1]['startReceiptJWS'] if i else None
        st = ref.RState.from_json(r)
        try:
            for j in (prev, st.last):
                if j:
                    ref.Rec.of(j)
        except Exception:
            continue
        for recs in NEXT:
            at, V, f, fu = ref.walk(recs, S.ctx_of, st, u, prev)
            res = drive.verify_dep(S.dep([x[0] for x in recs]), S.ks, S.aes, d, i, bk)
            rep.ev()
            rep.trace()
            what = 'verification from register %d' % i
            rep.outcome('continued ' + ('refused' if V else 'ok'))
            if check_verdict(rep, res, V, what, d) and res.ok and not V:
                regs = copy.deepcopy(d['cashRegisters'])
                regs[i] = f.json()
                check_state(rep, res, regs, sorted(fu) if bk == drive.UNIQUE else fu.json(), what, d, bk)


def nexts():
    ret = []
    n = S.register(prefix='C')
    for prev, tc, chain in ((None, 0, None), (None, 0, CHAIN), (START, 0, None), (R2, 1250, None), (R2, 1250, CHAIN),
            (R6, 1170, None), (R3, 1250, None), (R5, 5, None), (R1, 1000, None)):
        for k, c, s in (('std', 0, True), ('std', 100, True), ('dummy', 5, False)):
            g = S.register(prefix='C', prev=prev, tc=tc)
            g.n = 20
            ret.append([g.make(k, c, s, **({'chain': chain} if chain else {}))])
    return ret


NEXT = nexts()


def cases():
    ret = [['words', b, i, k] for b in (drive.UNIQUE, drive.NATURAL) for i in range(5)
        for k in range(len(DEEP))]
    ret += [['wide', b, i, k] for b in (drive.UNIQUE, drive.NATURAL) for i in range(5)
        for k in range(0, len(wide()), 40)]
    ret += [['update', k, m] for k in (0, 1) for m in range(len(REGS))]
    ret += [['files', b] for b in (drive.UNIQUE, drive.NATURAL)]
    ret += [['many', b, n] for b in (drive.UNIQUE, drive.NATURAL) for n in (3, 4, 5, 10, 13, 26)]
    return ret


REGS = [rj(), rj(START, START), rj(START, R1, 1000), rj(START, R2, 1250, False, CHAIN),
    rj(START, R3, 1250, True), rj(None, OS_, 3, True, 'x'), rj('x', '', 5)]


def run(case, rep):
    with Dir() as tmp:
        tool = Tool(tmp)
        if case[0] == 'words':
            words(rep, tool, *case[1:])
        elif case[0] == 'many':
            many(rep, tool, *case[1:])
        elif case[0] == 'wide':
            _, bk, i, k = case
            d = inits(bk)[i]
            for cmd in wide()[k:k + 40]:
                n = transition(rep, tool, d, bk, cmd)
                rep.state([bk, n])
                if env.THOROUGH:
                    for cmd2 in wide():
                        transition(rep, tool, n, bk, cmd2)
        elif case[0] == 'update':
            update(rep, tool, case[1], REGS[case[2]])
        else:
            files(rep, tool, case[1])


def many(rep, tool, bk, n):
    """Every register of a large cluster."""
    d = doc([rj(START if i % 2 else OS_, R1 if i % 3 else None, i, i % 4 == 0, 'c%d' % i if i % 5 == 0 else None)
        for i in range(n)], bk, ['B%d' % i for i in range(2 * n)])
    rep.state(d)
    for c in (('show',), ('addCashRegister',), ('readUsedReceiptIds', 'ids')):
        transition(rep, tool, d, bk, c)
    for i in range(n + 2):
        k = str(i)
        for c in (('resetCashRegister', k), ('deleteCashRegister', k), ('copyCashRegister', k, 'other', '1'),
                ('copyCashRegister', k, 'self', str(n - 1)), ('copyCashRegister', '0', 'self', k),
                ('updateCashRegister', k, 'first', 'key'), ('updateCashRegister', k, 'out'),
                ('setLastReceiptJWS', k, R5), ('setLastTurnoverCounter', k, '-99'), ('setChainNextTo', k, CHAIN),
                ('toggleNeedRestoreReceipt', k), ('setStartReceiptJWS', k, 'None')):
            e = transition(rep, tool, d, bk, c)
            rep.state(e)
    rep.trace()


def words(rep, tool, bk, i, first):
    seen = {}
    front = [inits(bk)[i]]
    depth = 4 if env.THOROUGH else 3
    for n in range(depth):
        nxt = []
        for d in front:
            for cmd in [DEEP[first]] if n == 0 else DEEP:
                m = transition(rep, tool, d, bk, cmd)
                k = json.dumps(m, sort_keys=True)
                if k not in seen:
                    seen[k] = n
                    nxt.append(m)
                    rep.state([bk, m])
        front = nxt
    rep.trace(len(seen))
    if bk == drive.UNIQUE or env.THOROUGH:
        for k, n in seen.items():
            if n < 2:
                continue_from(rep, json.loads(k), bk)
    rep.sample([i, DEEP[first][0], len(seen)])


def update(rep, tool, withkey, reg):
    """All cuts of a history into groups, chunk sizes, and register states."""
    hist = [START, R1, R2, R3, R4, R5, R6]
    old = dict(os.environ)
    for a in range(len(hist)):
        for b in range(a + 1, min(len(hist), a + (7 if env.THOROUGH else 4)) + 1):
            part = hist[a:b]
            for cut in range(1 << (len(part) - 1)):
                gs, g = [], [part[0]]
                for x in range(1, len(part)):
                    if cut >> (x - 1) & 1:
                        gs.append(g)
                        g = []
                    g.append(part[x])
                gs.append(g)
                with open(os.path.join(tool.d, 'dep'), 'w') as f:
                    json.dump(ref.dep(*[(g, None, []) for g in gs]), f)
                DEPS['dep'] = gs
                d = doc([reg, rj(OS_, O1, 5)], drive.UNIQUE, ['A'])
                cmd = ('updateCashRegister', '0', 'dep') + (('key',) if withkey else ())
                for cs in (1, 2, 3, None):
                    if cs:
                        os.environ['RKSV_DEP_CHUNKSIZE'] = str(cs)
                    try:
                        n = transition(rep, tool, d, drive.UNIQUE, cmd)
                    finally:
                        os.environ.pop('RKSV_DEP_CHUNKSIZE', None)
                        del cs
                rep.state(n)
                del DEPS['dep']
    os.environ.clear()
    os.environ.update(old)


def files(rep, tool, bk):
    """State files that are missing or unreadable, and creating over anything."""
    for text in (None, '', '{', '[]', 'null', BADFILES['badstate'], '{"usedReceiptIds": 1}'):
        for cmd in wide():
            if text is None:
                if os.path.exists(tool.file):
                    os.unlink(tool.file)
            else:
                tool.put(text)
            o = tool.run(cmd, bk)
            rep.ev()
            exists = os.path.exists(tool.file)
            try:
                m = model(doc([rj(START, START)] * 3, bk), bk, cmd)
                kind = 'usage' if m is None else 'ok'
            except Fail:
                kind = 'fail'
            fresh = kind == 'ok' and (cmd[0] == 'create' or cmd[0].startswith('fromArb'))
            what = 'command %.200r on the state file %r' % (cmd, text)
            if fresh:
                if o.rc:
                    rep.fail('%s failed: %r' % (what, o.exc))
                    continue
                if cmd[0] == 'create':
                    rep.expect(json.loads(tool.bytes().decode()), doc([], bk), what)
                continue
            if text is None and exists or text is not None and tool.bytes().decode() != text:
                rep.fail('%s changed the file' % what, repr(o))
            elif o.rc == 0 and kind != 'usage' and not cmd[0].startswith('fromArb'):
                rep.fail('%s reports success' % what, repr(o))
        rep.state([bk, text])
