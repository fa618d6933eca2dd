"""C12: certificate trust."""
import base64
import itertools

from cryptography import x509
from cryptography.hazmat.backends import default_backend

from .. import drive, env, ref
from ..world import CERTKEY, SYS, check_verdict

ID = 'C12'
LEVEL = 'exploration'
RULE = ('11 leaf certificates (self-signed, issued at each level, RSA-issued, Ed25519-issued, '
    'forged, impostors with the same serial, negative serial, unsuitable keys) x every chain of '
    'up to 2 (3 from a smaller pool) of 11 certificates in any order and repetition x key stores '
    '(each single certificate, none, plain keys under the serials, certificates under other IDs, '
    'pairs), chains of up to 10 in order and with one certificate missing, repeated or swapped, every byte of 3 certificates replaced by 6 values, plus several groups with different certificates in all parsers and chunkings; oracle: '
    'trust relation known by construction. Non-trivial: distinct (leaf, chain, key store)')

LEAVES = ['leaf0self', 'leaf0mid1', 'leaf0mid0', 'leaf0root0', 'leaf0rsa', 'leaf0ed',
    'leaf0forged', 'leaf0fake', 'leafneg', 'leafrsa', 'leafp384']
POOL = ['mid0', 'mid1', 'root0', 'root1', 'rootrsa', 'rooted', 'mid0forged', 'mid0fake',
    'root0fake', 'leaf0self', 'leaf0fake']
POOL3 = ['mid0', 'mid1', 'root0', 'mid0fake', 'root0fake', 'mid0forged']
CK = dict(CERTKEY, leaf0forged='leaf0', leaf0fake='evil', mid0forged='mid0', mid0fake='evil',
    root0fake='evil')
SIGNER = {'root0': 'root0', 'root1': 'root1', 'rootrsa': 'rsa', 'rooted': 'ed', 'mid0': 'root0',
    'mid1': 'mid0', 'leaf0self': 'leaf0', 'leaf1self': 'leaf1', 'leaf2self': 'leaf2',
    'leaf0mid1': 'mid1', 'leaf0mid0': 'mid0', 'leaf0root0': 'root0', 'leaf1root0': 'root0',
    'leaf0rsa': 'rsa', 'leaf0ed': 'ed', 'leaf0forged': 'evil', 'mid0forged': 'evil',
    'leaf0fake': 'evil', 'mid0fake': 'root0', 'root0fake': 'evil', 'leafrsa': 'root0',
    'leafp384': 'root0', 'leafneg': 'root0'}
TRUSTERR = {'UntrustedCertificateException', 'CertificateSerialCollisionException',
    'CertificateChainBrokenException'}


def sid(c):
    return ref.keyid(ref.cert_serial(c))


def stores():
    """name -> (certificates by ID, plain keys by ID)"""
    ret = {'none': ({}, {})}
    for c in sorted(set(LEAVES + POOL)):
        ret['only ' + c] = ({sid(c): c}, {})
    # plain public keys under the serials (never trusted)
    ret['pubs'] = ({}, {sid('leaf0self'): 'leaf0', sid('mid0'): 'mid0', sid('root0'): 'root0',
        sid('leafneg'): 'leaf2', sid('mid1'): 'mid1'})
    # the right certificates under the wrong IDs
    ret['swapped'] = ({sid('mid0'): 'root0', sid('root0'): 'mid0', sid('leaf0self'): 'mid1',
        sid('mid1'): 'leaf0self'}, {})
    ret['unrelated ids'] = ({'1': 'root0', '2': 'leaf0self', '3': 'mid0'}, {})
    ret['other case'] = ({sid(c).upper(): c for c in ('root0', 'mid1', 'leaf0self')}, {})
    ret['negative'] = ({'-' + sid(c): c for c in ('root0', 'leafneg')}, {})
    ret['zeros'] = ({'00' + sid(c): c for c in ('root0', 'leafneg')}, {})
    ret['decimal ids'] = ({str(ref.cert_serial('root0')): 'root0',
        str(ref.cert_serial('leaf0self')): 'leaf0self'}, {})
    ret['fake mid, real root'] = ({sid('mid0'): 'mid0fake', sid('root0'): 'root0'}, {})
    ret['real mid, fake root'] = ({sid('mid0'): 'mid0', sid('root0'): 'root0fake'}, {})
    ret['pub leaf, real root'] = ({sid('root0'): 'root0'}, {sid('leaf0self'): 'leaf0',
        sid('mid0'): 'mid0'})
    ret['fake leaf, real root'] = ({sid('root0'): 'root0', sid('leaf0self'): 'leaf0fake'}, {})
    ret['two roots'] = ({sid('root0'): 'root0', sid('root1'): 'root1'}, {})
    ret['all real'] = ({sid(c): c for c in ('root0', 'root1', 'mid0', 'mid1', 'leaf0self',
        'rootrsa', 'rooted', 'leafneg')}, {})
    return ret


STORES = stores()
# a chain of ten certificates
DEEP = ['leaf0deep'] + ['deep%d' % i for i in range(1, 11)]
DKEYS = ['leaf0'] + [('mid0', 'mid1', 'root1')[i % 3] for i in range(9)] + ['root0']
CK.update(zip(DEEP, DKEYS))
SIGNER.update(zip(DEEP, DKEYS[1:] + ['root0']))
ALL = dict(STORES)
for _d in DEEP:
    ALL['only ' + _d] = ({sid(_d): _d}, {})


def ksjson(name):
    certs, pubs = ALL[name]
    d = ref.keystore([], list(pubs.items()))
    for i, c in certs.items():
        d['certificateOrPublicKeyMap'][i] = {'id': i, 'signatureDeviceType': 'CERTIFICATE',
                'signatureCertificateOrPublicKey': ref.cert_b64(c)}
    return d


def trust(leaf, chain, name):
    """-> None if trusted, else name of the violated rule"""
    certs = {'%x' % abs(int(i, 16)): c for i, c in ALL[name][0].items()}
    prev = leaf
    for c in list(chain) + [None]:
        if sid(prev) in certs:
            if certs[sid(prev)] != prev:
                return 'CertificateSerialCollisionException'
            return None
        if c is None:
            return 'UntrustedCertificateException'
        if SIGNER[prev] == 'ed' or SIGNER[prev] != CK[c]:
            return 'CertificateChainBrokenException'
        prev = c


def cases():
    ret = [['chain', l, list(c)] for l in LEAVES for n in (0, 1) for c in
            itertools.product(POOL, repeat=n)]
    ret += [['chain3', l, a, b] for l in LEAVES[:9] for a in POOL3 for b in POOL3]
    if env.THOROUGH:
        ret += [['chain4', l, a, b, c] for l in LEAVES[:9] for a in POOL3 for b in POOL3
                for c in POOL3]
    ret += [['groups', a, b] for a in LEAVES[:9] for b in LEAVES[:9]]
    ret += [['names', l] for l in LEAVES]
    ret += [['deep', n] for n in range(1, len(DEEP))]
    for what in CORRUPT:
        n = len(base64.b64decode(ref.cert_b64(what)))
        ret += [['corrupt', what, a, min(n, a + 40)] for a in range(0, n, 40)]
    return ret


# corrupted certificate -> (leaf, chain, store) in which it has to be checked
CORRUPT = {'leaf0mid0': ('leaf0mid0', ['mid0'], 'only mid0'),
    'mid0': ('leaf0mid0', ['mid0', 'root0'], 'only root0'),
    'root0': ('leaf0root0', ['root0'], 'only root0')}


def same(what, b64):
    """Only the encoding around what is signed and the signature differs."""
    a, b = ref.cert(what), x509.load_der_x509_certificate(base64.b64decode(b64), default_backend())
    return a.tbs_certificate_bytes == b.tbs_certificate_bytes and a.signature == b.signature


def corrupt(rep, case):
    what, lo, hi = case[1:]
    leaf, chain, store = CORRUPT[what]
    der = base64.b64decode(ref.cert_b64(what))
    reg, (j, sb) = start(leaf)
    for i in range(lo, hi):
        for v in {der[i] ^ 1, der[i] ^ 0x80, 0, 0xff, (der[i] + 1) & 255, der[i] ^ 0x20} - {der[i]}:
            bad = base64.b64encode(der[:i] + bytes([v]) + der[i + 1:]).decode()
            dep = ref.dep(([j], leaf, chain))
            g = dep['Belege-Gruppe'][0]
            if what == leaf:
                g['Signaturzertifikat'] = bad
            else:
                g['Zertifizierungsstellen'][chain.index(what)] = bad
            for res in (drive.verify_dep(dep, ksjson(store), ref.AESKEY),
                    drive.verify_parsed(dep, ksjson(store), ref.AESKEY, chunksize=1)):
                rep.ev()
                rep.outcome(res.name)
                if res.ok and not same(what, bad):
                    rep.fail('%s with byte %d = %d trusted' % (what, i, v), [i, v])
                elif not res.ok and not res.documented:
                    rep.fail('%s with byte %d = %d: %s' % (what, i, v, res.show()), [i, v])
            rep.state((what, i, v))


def start(leaf, **kw):
    k = CK[leaf]
    reg = ref.Register(serial=sid(leaf))
    kw.setdefault('key', k if k not in ('rsa', 'p384') else 'evil')
    return reg, reg.make(**kw)


def check(rep, leaf, chain, name):
    suitable = CK[leaf] not in ('rsa', 'p384')
    err = trust(leaf, chain, name)
    reg, (j, sb) = start(leaf)
    V = {err} if err else set() if suitable else {'InvalidSignatureException'}
    dep = ref.dep(([j], leaf, chain))
    what = 'leaf %s chain %r store %s' % (leaf, chain, name)
    res = drive.verify_dep(dep, ksjson(name), ref.AESKEY)
    rep.ev()
    rep.state((leaf, chain, name))
    rep.outcome(res.name)
    check_verdict(rep, res, V, what)
    return dep, V


def run(case, rep):
    kind = case[0]
    if kind == 'chain':
        for name in STORES:
            for c in [case[2]] + ([case[2] + [x] for x in POOL] if case[2] else []):
                dep, V = check(rep, case[1], c, name)
                if len(c) < 2:
                    for parser in ('full', 'file', 'stream'):
                        res = drive.verify_parsed(dep, ksjson(name), ref.AESKEY, parser=parser,
                                chunksize=1)
                        rep.ev()
                        check_verdict(rep, res, V, '%s parser, %r %s' % (parser, case, name), None,
                                True)
    elif kind in ('chain3', 'chain4'):
        for name in STORES:
            for x in POOL3:
                check(rep, case[1], case[2:] + [x], name)
    elif kind == 'corrupt':
        corrupt(rep, case)
    elif kind == 'deep':
        # long chains, whole and with one certificate missing, repeated, or two swapped
        whole = DEEP[1:case[1] + 1]
        chains = [whole]
        for i in range(len(whole)):
            chains += [whole[:i] + whole[i + 1:], whole[:i] + whole[i:i + 1] + whole[i:]]
            if i:
                chains.append(whole[:i - 1] + [whole[i], whole[i - 1]] + whole[i + 1:])
        for c in chains:
            for d in DEEP:
                check(rep, DEEP[0], c, 'only ' + d)
            check(rep, DEEP[0], c, 'none')
    elif kind == 'groups':
        # trust is decided for every group on its own, whatever the chunking
        a, b = case[1:]
        chains = {'leaf0mid1': ['mid1', 'mid0', 'root0'], 'leaf0mid0': ['mid0', 'root0'],
            'leaf0root0': ['root0'], 'leaf0rsa': ['rootrsa'], 'leaf0ed': ['rooted'],
            'leaf0forged': ['mid0', 'root0'], 'leafneg': ['root0']}
        for name in ('none', 'all real', 'only root0', 'only leaf0self', 'fake mid, real root',
                'only mid0', 'only rootrsa', 'swapped'):
            for swap in (False, True):
                ca, cb = chains.get(a, []), chains.get(b, [])
                if swap:
                    ca, cb = cb, ca
                reg, r0 = start(a)
                r1 = reg.make('std', 5, key=CK[a])
                reg.serial = sid(b)
                r2, r3 = reg.make('std', 6, key=CK[b]), reg.make('std', 7, key=CK[b])
                V = {trust(a, ca, name), trust(b, cb, name)} - {None}
                dep = ref.dep(([r0[0], r1[0]], a, ca), ([r2[0], r3[0]], b, cb))
                what = 'groups %s %r, %s %r store %s' % (a, ca, b, cb, name)
                res = drive.verify_dep(dep, ksjson(name), ref.AESKEY)
                rep.ev()
                check_verdict(rep, res, V, what)
                for cs, np in ((0, 1), (1, 1), (3, 1), (4, 1), (1, 2), (2, 2), (3, 3), (9, 2)):
                    for parser in ('dict', 'stream') if cs in (1, 3, 4) else ('dict',):
                        res = drive.verify_parsed(dep, ksjson(name), ref.AESKEY, nprocs=np,
                                chunksize=cs, parser=parser, nparts=np)
                        rep.ev()
                        rep.outcome(res.name)
                        check_verdict(rep, res, V, what + ' chunksize %d/%d' % (cs, np), None, True)
                rep.state((case, name, swap))
    else:
        # receipts must name the certificate of their group, in whatever
        # notation, and be signed by its key
        leaf = case[1]
        ser = ref.cert_serial(leaf)
        for other in sorted(set(LEAVES + ['mid0', 'mid1', 'root0', 'leaf1self'])):
            o = ref.cert_serial(other)
            for txt in {'%x' % abs(o), '%X' % abs(o), '-%x' % abs(o), '%d' % abs(o), '-%d' % abs(o),
                    '0%x' % abs(o)}:
                for key in ('leaf0', 'leaf1', 'leaf2', 'evil', 'mid0', 'root0'):
                    reg, (j, sb) = start(leaf, serial=txt, key=key)
                    V = ref.check_sig(ref.Rec.of(j), ref.Ctx(leaf, CK[leaf], {}), key)
                    dep = ref.dep(([j], leaf, []))
                    ks = 'only ' + leaf
                    res = drive.verify_dep(dep, ksjson(ks), ref.AESKEY)
                    rep.ev()
                    rep.state((leaf, txt, key))
                    rep.outcome(res.name)
                    check_verdict(rep, res, V, 'certificate %s, receipt names %s, key %s' % (
                        leaf, txt, key))
                # unsigned receipts have to name it as well
                for op in (('std', 7), ('dummy', 0), ('reversal', -7), ('std', 0)):
                    reg, (j0, sb) = start(leaf)
                    reg.serial = txt
                    j = reg.make(op[0], op[1], False)[0]
                    V = ref.check_sig(ref.Rec.of(j), ref.Ctx(leaf, CK[leaf], {}), None)
                    if CK[leaf] in ('rsa', 'p384'):
                        V = V | {'InvalidSignatureException'}
                    res = drive.verify_dep(ref.dep(([j0, j], leaf, [])), ksjson(ks), ref.AESKEY)
                    rep.ev()
                    rep.state((leaf, txt, op))
                    rep.outcome(res.name)
                    check_verdict(rep, res, V, 'certificate %s, unsigned %s %d receipt names %s'
                        % ((leaf,) + op + (txt,)))
        rep.sample(case)
