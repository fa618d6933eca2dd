"""C01: chain tamper detection."""
import base64
import itertools
import string

from .. import env, ref
from ..world import SYS, check_history
from ..world import far_cases, far_check

ID = 'C01'
LEVEL = 'model_checking'
RULE = ('histories of 64 receipts with one such edit at every position; '
    'every history of a start receipt plus 4 receipts over {zero, nonzero, training, '
    'reversal, outage} (5^4) times every structural edit (delete, duplicate, swap, insert '
    'fork, replace by fork, wrong chain base, at every position), as one DEP, in segments, '
    'one group per receipt and chunked/packaged; all 64 single-bit changes, case '
    'changes, byte swaps and partial overwrites of every chain value; states with a pinned chain value')

OPS = [('std', 0, True), ('std', 250, True), ('dummy', 100, True),
        ('reversal', -100, True), ('dummy', 0, False)]
LEN = 5 if env.THOROUGH else 4
# outage receipts first, so that no restore obligation blocks a history
ALT = [('std', 0, True), ('std', 250, False), ('dummy', 0, False), ('reversal', 5, False)]
MODES = ('whole', 'steps', 'groups', 'c2', 'p2c1', 'p3c2') if env.THOROUGH else (
        'whole', 'steps', 'p3c2')


def cases():
    ret = [['edit', 'open-cert', list(o)] for o in
            itertools.product(range(len(OPS)), repeat=LEN)
            if not any(o[i] == 4 for i in range(LEN - 1))]
    ret += [['edit2', 'closed-ks', list(o)] for o in
            itertools.product(range(len(ALT)), repeat=LEN - 1)]
    for s in ('open-cert', 'closed-ks', 'open-ks', 'closed-cert'):
        for op in range(len(OPS)):
            ret.append(['bits', s, op])
            ret.append(['bits0', s, op])
            ret.append(['pinned', s, op])
    ret += [['far'] + c for c in far_cases()]
    return ret


def other_chain(kind, reg, hist, i):
    """A wrong chaining value for receipt i of hist."""
    prev = hist[i - 1][0] if i else None
    if kind == 'zero':
        return base64.b64encode(bytes(8)).decode()
    if kind == 'regid':
        return ref.chain_value(reg.reg)
    if kind == 'start':
        return ref.chain_value(hist[0][0])
    if kind == 'prevprev':
        return ref.chain_value(hist[i - 2][0]) if i >= 2 else None
    if kind == 'payload':
        return ref.chain_value(ref.Rec.of(prev).payload) if prev else None
    if kind == 'nosig':
        return ref.chain_value(prev.rsplit('.', 1)[0]) if prev else None
    if kind == 'sig':
        return ref.chain_value(prev.rsplit('.', 1)[1]) if prev else None
    if kind == 'qr':
        return ref.chain_value(ref.Rec.of(prev).qr()) if prev else None
    if kind == 'tail':
        return base64.b64encode(ref.sha((prev or reg.reg).encode())[-8:]).decode()
    if kind == 'reglower':
        return ref.chain_value(reg.reg.lower())
    if kind == 'samechain':
        return ref.Rec.of(prev).chain if prev else None


WRONG = ['zero', 'regid', 'start', 'prevprev', 'payload', 'nosig', 'sig', 'qr', 'tail',
        'reglower', 'samechain']


def scrambled(good):
    """Other chaining values that look like the good one."""
    text = base64.b64encode(good).decode()
    ret = [good[::-1], good[1:] + good[:1], good[:4] * 2, good[4:] * 2,
            good[4:] + good[:4], bytes(255 - b for b in good)]
    for i in range(8):
        # wrong from there on, wrong up to there, one byte, neighbours swapped
        ret += [good[:i] + bytes(8 - i), bytes(i) + good[i:],
                good[:i] + bytes([good[i] ^ 0xff]) + good[i + 1:],
                good[:i] + good[i:i + 2][::-1] + good[i + 2:]]
    ret = [base64.b64encode(r).decode() for r in ret]
    # the same text but for upper and lower case
    ret += [text.swapcase(), text.lower(), text.upper()]
    ret += [text[:i] + text[i].swapcase() + text[i + 1:] for i in range(len(text))]
    ret = [base64.b64encode(base64.b64decode(r)).decode() for r in ret]
    # other texts that decode to the same bytes: it is the text that is signed
    alphabet = (string.ascii_uppercase + string.ascii_lowercase + string.digits + '+/')
    last = alphabet.index(text[-2])
    ret += [text[:-2] + alphabet[last ^ n] + '=' for n in (1, 2, 3)]
    ret += [text + '=', text + '==']
    return sorted(set(ret) - {text})


def build(S, ops, alphabet):
    reg = S.register()
    regs, hist = [], []
    for op in [('std', 0, True)] + [alphabet[o] for o in ops]:
        regs.append(reg.clone())
        hist.append(reg.make(op[0], op[1], op[2]))
    return regs, hist


def rest(reg, ops, alphabet):
    return [reg.make(*alphabet[o]) for o in ops]


def edits(S, regs, hist, ops, alphabet):
    n = len(hist)
    for i in range(n - 1):
        yield 'delete %d' % i, hist[:i] + hist[i + 1:]
    for i in range(n - 2):
        yield 'delete2 %d' % i, hist[:i] + hist[i + 2:]
    for i in range(n):
        for j in range(i, n):
            yield 'dup %d after %d' % (i, j), hist[:j + 1] + [hist[i]] + hist[j + 1:]
    for i in range(n):
        for j in range(i + 1, n):
            h = list(hist)
            h[i], h[j] = h[j], h[i]
            yield 'swap %d %d' % (i, j), h
    # forks: validly signed by the same register at the same point
    for i in range(1, n):
        for alt in (('std', 0, True), ('dummy', 77, True), ('dummy', 0, False)):
            r = regs[i].clone()
            fork = r.make(*alt, rid='F%d' % i)
            yield 'insert fork %d' % i, hist[:i] + [fork] + hist[i:]
            if i < n - 1:
                yield 'replace by fork %d' % i, hist[:i] + [fork] + hist[i + 1:]
    # wrong chain base at one receipt, everything after it chained properly
    for i in range(n):
        for w in WRONG:
            r = regs[i].clone()
            c = other_chain(w, r, hist, i)
            if c is None:
                continue
            op = ('std', 0, True) if i == 0 else alphabet[ops[i - 1]]
            x = r.make(*op, chain=c)
            yield 'chain %s at %d' % (w, i), hist[:i] + [x] + rest(r, ops[i:], alphabet)


def run(case, rep):
    if case[0] == 'far':
        return far_check(rep, 'chain', case[1:])
    kind, S = case[0], SYS[case[1]]
    if kind in ('edit', 'edit2'):
        alphabet = OPS if kind == 'edit' else ALT
        ops = case[2]
        regs, hist = build(S, ops, alphabet)
        check_history(rep, S, hist, MODES, what='untouched')
        rep.state(case)
        for what, h in edits(S, regs, hist, ops, alphabet):
            modes = MODES
            at, V, _, _ = check_history(rep, S, h, modes, what=what)
            rep.state((case, what))
        rep.sample({'history': [alphabet[o] for o in ops], 'edit': what})
    elif kind in ('bits', 'bits0'):
        # every bit of the chaining value of a start/second receipt
        op = OPS[case[2]] if kind == 'bits' else ('std', 0, True)
        reg = S.register(reg='KASSE-%d' % case[2])
        hist = []
        if kind == 'bits':
            hist.append(reg.make())
        good = base64.b64decode(ref.chain_value(reg.last or reg.reg))
        for bit in range(64):
            b = bytearray(good)
            b[bit // 8] ^= 1 << bit % 8
            r = reg.clone()
            h = hist + [r.make(*op, chain=base64.b64encode(bytes(b)).decode())]
            h.append(r.make('std', 0))
            check_history(rep, S, h, ('whole', 'steps', 'c1', 'p2c1'), what='bit %d' % bit)
            rep.state((case, bit))
        for alt in scrambled(good):
            r = reg.clone()
            h = hist + [r.make(*op, chain=alt)]
            check_history(rep, S, h, ('whole', 'c1'), what='scrambled %s' % alt)
            rep.state((case, alt))
    else:
        # state with a pinned chain value (with and without a last receipt)
        op = OPS[case[2]]
        reg = S.register()
        j0 = reg.make()
        j1 = reg.make('std', 300)
        pin = ref.chain_value('something else')
        last = reg.last
        for withlast in (True, False):
            for first in ('pin', 'last', 'regid'):
                for second in ('pin', 'prev', 'last'):
                    if withlast:
                        st = ref.RState(j0[0], last, reg.tc if S.aes else 0, False, pin)
                        r = reg.clone()
                        o = op
                    else:
                        st = ref.RState(None, None, 0, False, pin)
                        r = S.register(prefix='Q')
                        o = ('std', 0, True)
                    cv = {'pin': pin, 'last': ref.chain_value(last),
                            'regid': ref.chain_value(reg.reg)}
                    a = r.make(*o, chain=cv[first])
                    kw = {} if second == 'prev' else {'chain': cv[second]}
                    b = r.make(*op, **kw)
                    check_history(rep, S, [a, b], ('whole', 'steps', 'groups', 'c1', 'p2c1', 'p3c0'),
                            st=st, used={'B0', 'B1'} if withlast else (),
                            what='pinned %s/%s' % (first, second))
                    rep.state((case, withlast, first, second))
