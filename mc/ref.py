"""Independent reference model of receipts, signatures and the DEP rules.

Written from the regulation ("Detailspezifikation") and the documentation, not
using any librksv code.  Only the AES primitive and key loading come from the
cryptography package; ES256 signing is done here so that everything is
deterministic and fast.
"""
import base64
import datetime
import functools
import hashlib
import os

from cryptography import x509
from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
from cryptography.hazmat.primitives import serialization
from cryptography.hazmat.primitives.asymmetric import ec

KEYDIR = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'keys')
N = 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551
FAIL = b'Sicherheitseinrichtung ausgefallen'
HEADER = '{"alg":"ES256"}'
AESKEY = bytes(range(7, 39))
AESKEY2 = bytes(range(50, 82))
B64KEY = base64.b64encode(AESKEY).decode()


def b64u(b):
    return base64.urlsafe_b64encode(b).rstrip(b'=').decode()


def unb64u(s):
    return base64.urlsafe_b64decode(s + '=' * (-len(s) % 4))


def sha(b):
    return hashlib.sha256(b).digest()


def _read(name):
    with open(os.path.join(KEYDIR, name)) as f:
        return f.read()


_k_cache = []


def _ks():
    if not _k_cache:
        for i in range(8):
            k = int.from_bytes(sha(b'nonce%d' % i), 'big') % N
            pub = ec.derive_private_key(k, ec.SECP256R1(), default_backend()
                    ).public_key().public_numbers()
            _k_cache.append((pow(k, -1, N), pub.x % N))
    return _k_cache


class Key(object):
    _cache = {}

    def __new__(cls, name):
        if name not in cls._cache:
            o = object.__new__(cls)
            o.name = name
            o.priv_pem = _read(name + '.key')
            o.pub_pem = _read(name + '.pub')
            p = serialization.load_pem_private_key(o.priv_pem.encode(), None,
                    default_backend())
            o.d = getattr(getattr(p, 'private_numbers', lambda: None)(),
                    'private_value', None)
            cls._cache[name] = o
        return cls._cache[name]

    def sign(self, data):
        h = sha(data)
        kinv, r = _ks()[h[0] % 8]
        s = kinv * (int.from_bytes(h, 'big') + r * self.d) % N
        return r.to_bytes(32, 'big') + s.to_bytes(32, 'big')


def pem_body(pem):
    return ''.join(l for l in pem.splitlines() if not l.startswith('-----'))


def cert_pem(name):
    return _read(name + '.crt')


def cert_b64(name):
    return pem_body(cert_pem(name))


def pub_b64(name):
    return pem_body(Key(name).pub_pem)


_certs = {}


def cert(name):
    if name not in _certs:
        _certs[name] = x509.load_pem_x509_certificate(cert_pem(name).encode(),
                default_backend())
    return _certs[name]


def cert_serial(name):
    return cert(name).serial_number


def keyid(serial):
    return '%x' % abs(serial)


def keystore(certs=(), pubs=(), aes=B64KEY):
    """JSON container with certificates (by serial) and (id, pubkey) entries."""
    m = {}
    for c in certs:
        i = keyid(cert_serial(c))
        m[i] = {'id': i, 'signatureDeviceType': 'CERTIFICATE',
                'signatureCertificateOrPublicKey': cert_b64(c)}
    for i, k in pubs:
        m[i] = {'id': i, 'signatureDeviceType': 'PUBLIC_KEY',
                'signatureCertificateOrPublicKey': pub_b64(k)}
    ret = {'certificateOrPublicKeyMap': m}
    if aes is not None:
        ret['base64AESKey'] = aes
    return ret


def aesctr(reg, rid, key, data):
    iv = sha((reg + rid).encode())[:16]
    c = Cipher(algorithms.AES(key), modes.CTR(iv), backend=default_backend()
            ).encryptor()
    return c.update(data) + c.finalize()


def enc_tc(reg, rid, value, size=8, key=AESKEY):
    return aesctr(reg, rid, key, value.to_bytes(size, 'big', signed=True))


def dec_tc(reg, rid, data, key=AESKEY):
    return int.from_bytes(aesctr(reg, rid, key, data), 'big', signed=True)


def chain_value(prev, n=8):
    return base64.b64encode(sha(prev.encode())[:n]).decode()


def money(cents):
    s = '-' if cents < 0 else ''
    c = abs(cents)
    return '%s%d,%02d' % (s, c // 100, c % 100)


def cents(s):
    return int(s.replace(',', ''))


ZERO = ('0,00',) * 5


def payload(zda, reg, rid, date, sums, tc, serial, chain, alg='R1'):
    """tc: bytes of the turnover counter field; chain: base64 text."""
    return '_' + '_'.join(['%s-%s' % (alg, zda), reg, rid, date] + list(sums) +
            [base64.b64encode(tc).decode() if isinstance(tc, bytes) else tc,
                serial, chain])


def jws(pl, key, header=HEADER):
    """key: Key, 'broken' for the outage text, or raw signature bytes."""
    si = b64u(header.encode()) + '.' + b64u(pl.encode())
    if key == 'broken':
        sig = FAIL
    elif isinstance(key, bytes):
        sig = key
    else:
        sig = key.sign(si.encode())
    return si + '.' + b64u(sig)


class Rec(object):
    """Parsed view of a (well-formed) receipt."""
    _cache = {}

    def __init__(self, j):
        self.jws = j
        h, p, s = j.split('.')
        self.header = unb64u(h).decode()
        self.payload = unb64u(p).decode()
        self.sig = unb64u(s)
        f = self.payload.split('_')
        self.alg, self.zda = f[1].split('-')
        self.reg, self.rid, self.date = f[2:5]
        self.sums = f[5:10]
        self.tcb = base64.b64decode(f[10])
        self.serial = f[11]
        self.chain = f[12]
        self.broken = self.sig == FAIL
        self.dummy = self.tcb == b'TRA'
        self.reversal = self.tcb == b'STO'
        self.turnover = sum(cents(s) for s in self.sums)
        self.null = all(cents(s) == 0 for s in self.sums)
        self.standard = not self.dummy and not self.reversal

    @classmethod
    def of(cls, j):
        r = cls._cache.get(j)
        if r is None:
            if len(cls._cache) > 20000:
                cls._cache.clear()
            r = cls._cache[j] = cls(j)
        return r

    @property
    def date_key(self):
        return datetime.datetime.strptime(self.date, '%Y-%m-%dT%H:%M:%S')

    def qr(self):
        return self.payload + '_' + base64.b64encode(self.sig).decode()

    def ocr(self):
        f = self.qr().split('_')
        for i in (10, 12, 13):
            f[i] = base64.b32encode(base64.b64decode(f[i])).decode()
        return '_'.join(f)

    def csv(self):
        return self.qr()[1:].replace('_', ';')

    def urlhash(self):
        return b64u(sha(self.qr().encode())[:8])


class Ctx(object):
    """Who signed what, as known by construction.

    signer(jws) -> name of key that produced the signature or None
    cert: name of the certificate of the group or None
    keys: dict key id -> key name (None entries impossible)
    """

    def __init__(self, cert=None, certkey=None, keys=None, aes=AESKEY):
        self.cert = cert
        self.certkey = certkey
        self.keys = keys or {}
        self.aes = aes


def serial_ids(serial):
    s = serial[1:] if serial.startswith('-') else serial
    ret = []
    for base in (16, 10):
        try:
            ret.append('%x' % int(s, base))
        except ValueError:
            pass
    return ret


def check_sig(rec, ctx, signed_by):
    """-> set of violated single receipt rules (empty: authentic or outage)."""
    V = set()
    key = None
    if rec.zda == 'AT0':
        key = ctx.certkey if ctx.cert else ctx.keys.get(rec.serial)
    else:
        ids = serial_ids(rec.serial)
        if ctx.cert:
            if keyid(cert_serial(ctx.cert)) not in ids:
                V.add('CertSerialMismatchException')
            key = ctx.certkey
        else:
            for i in ids:
                if i in ctx.keys:
                    key = ctx.keys[i]
                    break
    if not rec.broken:
        if key is None:
            V.add('NoPublicKeyException')
        elif signed_by != key:
            V.add('InvalidSignatureException')
    return V


class RState(object):
    """Reference state of one cash register."""
    __slots__ = ('start', 'last', 'tc', 'need', 'chain')

    def __init__(self, start=None, last=None, tc=0, need=False, chain=None):
        self.start, self.last, self.tc = start, last, tc
        self.need, self.chain = need, chain

    def copy(self):
        return RState(self.start, self.last, self.tc, self.need, self.chain)

    def json(self):
        return {'startReceiptJWS': self.start, 'lastReceiptJWS': self.last,
                'lastTurnoverCounter': self.tc, 'needRestoreReceipt': self.need,
                'chainNextTo': self.chain}

    @staticmethod
    def from_json(d):
        return RState(d['startReceiptJWS'], d['lastReceiptJWS'],
                d['lastTurnoverCounter'], d['needRestoreReceipt'],
                d['chainNextTo'])


def step(st, used, jwsstr, signed_by, ctx, prev_start=None):
    """Apply one receipt to a reference state.

    Returns (violated rules, new state). used is a set and not modified."""
    r = Rec.of(jwsstr)
    V = check_sig(r, ctx, signed_by)
    n = st.copy()
    prev = Rec.of(st.last) if st.last else None
    start = prev is None
    base = st.last
    if not r.broken:
        if prev is not None and (not r.null or not r.standard):
            if st.need:
                V.add('NoRestoreReceiptAfterSignatureSystemFailureException')
            if prev.broken:
                n.need = True
        else:
            n.need = False
    else:
        if start:
            V.add('SignatureSystemFailedOnInitialReceiptException')
        if st.need:
            V.add('NoRestoreReceiptAfterSignatureSystemFailureException')
    if start:
        if not r.null:
            V.add('NonzeroTurnoverOnInitialReceiptException')
        if not r.standard:
            V.add('NonstandardTypeOnInitialReceiptException')
        if prev_start:
            base = prev_start
            prev = Rec.of(prev_start)
            if r.zda != 'AT0' or prev.zda != 'AT0':
                V.add('ClusterInOpenSystemException')
        n.start = jwsstr
    if r.rid in used:
        V.add('DuplicateReceiptIdException')
    if prev is not None:
        if prev.reg != r.reg:
            V.add('ChangingRegisterIdException')
        if (prev.zda == 'AT0') != (r.zda == 'AT0'):
            V.add('ChangingSystemTypeException')
        if prev.date_key > r.date_key:
            V.add('DecreasingDateException')
    if st.chain:
        want = st.chain
        n.chain = None
    else:
        want = chain_value(base if base else r.reg)
    if r.chain != want:
        if start:
            V.add('InvalidChainingOnClusterInitialReceiptException' if prev_start
                    else 'InvalidChainingOnInitialReceiptException')
            if st.chain:
                V.add('ChainingException')
        else:
            V.add('ChainingException')
            if st.start == jwsstr:
                V.add('InvalidChainingOnInitialReceiptException')
                V.add('InvalidChainingOnClusterInitialReceiptException')
    if not r.dummy and ctx.aes is not None:
        n.tc = st.tc + r.turnover
        if not r.reversal:
            if dec_tc(r.reg, r.rid, r.tcb, ctx.aes) != n.tc:
                V.add('InvalidTurnoverCounterException')
    n.last = jwsstr
    return V, n


def walk(recs, ctx_of, st=None, used=(), prev_start=None):
    """recs: list of (jws, signed_by). Returns (index of first violation or
    None, violated rules, state, used)."""
    st = st or RState()
    used = used.copy() if isinstance(used, NatSet) else set(used)
    for i, (j, sb) in enumerate(recs):
        V, n = step(st, used, j, sb, ctx_of(i), prev_start)
        if V:
            return i, V, st, used
        st = n
        used.add(Rec.of(j).rid)
    return None, set(), st, used


class Register(object):
    """Boring generator of protocol-conforming histories."""

    def __init__(self, reg='KASSE-1', key='leaf0', zda=None, serial=None,
            closed=False, size=8, prev=None, tc=0, year=2017, prefix='B'):
        self.reg, self.key, self.closed, self.size = reg, key, closed, size
        self.zda = zda or ('AT0' if closed else 'AT1')
        self.serial = serial or ('U:ATU12345678-K0' if closed
                else keyid(cert_serial(key + 'self')))
        self.last = prev
        self.tc = tc
        self.n = 0
        self.year = year
        self.prefix = prefix

    def clone(self):
        o = object.__new__(Register)
        o.__dict__.update(self.__dict__)
        return o

    def date(self, n):
        return '%d-%02d-%02dT%02d:%02d:%02d' % (self.year, 1 + n // 1000 % 12,
                1 + n // 100 % 10, n // 10 % 10, n % 10, n % 7)

    def make(self, kind='std', cents=0, sign=True, **o):
        """One more receipt; o overrides any field. Returns (jws, signed_by)."""
        n = self.n
        rid = o.get('rid', '%s%d' % (self.prefix, n))
        sums = o.get('sums')
        if sums is None:
            sums = [0, 0, 0, 0, 0]
            if isinstance(cents, (list, tuple)):
                sums = list(cents)
            else:
                sums[o.get('slot', n % 5)] = cents
            sums = [money(c) for c in sums]
        turn = sum(globals()['cents'](s) for s in sums)
        tc = self.tc
        if kind != 'dummy':
            tc += turn
        reg = o.get('reg', self.reg)
        if 'tcb' in o:
            tcb = o['tcb']
        elif kind == 'dummy':
            tcb = b'TRA'
        elif kind == 'reversal':
            tcb = b'STO'
        else:
            tcb = enc_tc(reg, rid, tc + o.get('tcdelta', 0),
                    o.get('size', self.size), o.get('aes', AESKEY))
        chain = o.get('chain')
        if chain is None:
            chain = chain_value(self.last if self.last else reg)
        pl = payload(o.get('zda', self.zda), reg, rid,
                o.get('date', self.date(n)), sums, tcb,
                o.get('serial', self.serial), chain)
        if 'sig' in o:
            j, sb = jws(pl, o['sig']), None
        elif sign:
            k = o.get('key', self.key)
            j, sb = jws(pl, Key(k)), k
        else:
            j, sb = jws(pl, 'broken'), None
        self.n = n + 1
        self.tc = tc
        self.last = j
        return j, sb


def dep(*groups):
    """groups: (list of jws, cert name or None, [chain cert names])"""
    return {'Belege-Gruppe': [{
        'Signaturzertifikat': cert_b64(c) if c else '',
        'Zertifizierungsstellen': [cert_b64(x) for x in ch],
        'Belege-kompakt': list(recs)} for recs, c, ch in groups]}


def number(digits):
    """int() without Python's limit of the number of digits."""
    n = 0
    for i in range(0, len(digits), 1000):
        d = digits[i:i + 1000]
        n = n * 10 ** len(d) + int(d)
    return n


@functools.lru_cache(10000)
def nat_key(rid):
    """Natural order: runs of ASCII digits by value, other text ignoring case."""
    ret, cur, digits = [], '', False
    for c in rid:
        d = c in '0123456789'
        if d != digits:
            ret.append(number(cur) if digits else cur.lower())
            cur, digits = '', d
        cur += c
    ret.append(number(cur) if digits else cur.lower())
    if digits:
        ret.append('')
    return ret


class NatSet(object):
    """Reference for the natural-order used ID backend: a high-water mark."""

    def __init__(self, lo=None, hi=None):
        self.lo, self.hi = lo, hi

    def __contains__(self, rid):
        return self.hi is not None and not nat_key(self.hi) < nat_key(rid)

    def add(self, rid):
        self.hi = rid
        if self.lo is None:
            self.lo = rid

    def copy(self):
        return NatSet(self.lo, self.hi)

    def json(self):
        return {'minId': self.lo, 'maxId': self.hi}
