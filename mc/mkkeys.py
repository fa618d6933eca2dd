"""One-off generator for the committed key material in /verif/mc/keys.

Run once; its output is committed so that every run of every check uses the
same bytes. Not used by the checks."""
import datetime
import hashlib
import os
from cryptography import x509
from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec, rsa, ed25519
from cryptography.hazmat.primitives.serialization import (Encoding, PublicFormat,
        PrivateFormat, NoEncryption, load_pem_private_key)
from cryptography.x509.oid import NameOID

B = default_backend()
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'keys')
N = 0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551


def eckey(name, curve=None):
    v = int.from_bytes(hashlib.sha256(b'rksv-verif-' + name.encode()).digest(), 'big') % (N - 1) + 1
    return ec.derive_private_key(v, curve or ec.SECP256R1(), B)


def w(fn, data):
    with open(os.path.join(OUT, fn), 'wb') as f:
        f.write(data)


def priv_pem(k):
    return k.private_bytes(Encoding.PEM, PrivateFormat.PKCS8, NoEncryption())


def pub_pem(k):
    return k.public_key().public_bytes(Encoding.PEM, PublicFormat.SubjectPublicKeyInfo)


def mkcert(pub, cn, serial, skey, icn, halg=hashes.SHA256()):
    n = lambda s: x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, s)])
    b = (x509.CertificateBuilder().subject_name(n(cn)).issuer_name(n(icn))
        .not_valid_before(datetime.datetime(2017, 1, 1))
        .not_valid_after(datetime.datetime(2047, 1, 1))
        .serial_number(serial).public_key(pub)
        .add_extension(x509.BasicConstraints(ca=True, path_length=None), critical=True))
    return b.sign(skey, halg, B)


def der_len(n):
    if n < 128:
        return bytes([n])
    b = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return bytes([0x80 | len(b)]) + b


def der_hdr(d, o):
    """tag, header length, body length at offset o"""
    l = d[o + 1]
    if l < 128:
        return d[o], 2, l
    k = l & 0x7f
    return d[o], 2 + k, int.from_bytes(d[o + 2:o + 2 + k], 'big')


def negate(cert, skey):
    """Re-sign the certificate with the same magnitude of bytes but the top bit
    of the serial set, which makes the serial negative."""
    d = bytearray(cert.tbs_certificate_bytes)
    t, h, l = der_hdr(d, 0)
    o = h
    t, h2, l2 = der_hdr(d, o)        # [0] version
    o += h2 + l2
    t, h3, l3 = der_hdr(d, o)        # serial
    assert t == 2
    d[o + h3] |= 0x80
    sig = skey.sign(bytes(d), ec.ECDSA(hashes.SHA256()))
    full = cert.public_bytes(Encoding.DER)
    t, fh, fl = der_hdr(full, 0)
    alg_o = fh + len(cert.tbs_certificate_bytes)
    t, ah, al = der_hdr(full, alg_o)
    alg = full[alg_o:alg_o + ah + al]
    bs = b'\x03' + der_len(len(sig) + 1) + b'\x00' + sig
    body = bytes(d) + alg + bs
    return x509.load_der_x509_certificate(b'\x30' + der_len(len(body)) + body, B)


def main():
    names = ['leaf0', 'leaf1', 'leaf2', 'mid0', 'mid1', 'root0', 'root1', 'evil']
    K = {n: eckey(n) for n in names}
    K['p384'] = eckey('p384', ec.SECP384R1())
    K['rsa'] = rsa.generate_private_key(65537, 2048, B)
    K['ed'] = ed25519.Ed25519PrivateKey.generate()
    for n, k in K.items():
        w(n + '.key', priv_pem(k))
        w(n + '.pub', pub_pem(k))
    S = {
        # typical long serial with letters
        'leaf0': 0x5a1f0c3de49b77,
        # all hex digits are decimal digits: ambiguous textual serial
        'leaf1': 0x20171234,
        'leaf2': 0x7c,
        'mid0': 0x1001ab, 'mid1': 0x1002ab, 'root0': 0x2001cd, 'root1': 0x2002cd,
    }
    C = {}
    C['root0'] = mkcert(K['root0'].public_key(), 'root0', S['root0'], K['root0'], 'root0')
    C['root1'] = mkcert(K['root1'].public_key(), 'root1', S['root1'], K['root1'], 'root1')
    C['rootrsa'] = mkcert(K['rsa'].public_key(), 'rootrsa', 0x2003cd, K['rsa'], 'rootrsa')
    C['rooted'] = mkcert(K['ed'].public_key(), 'rooted', 0x2004cd, K['ed'], 'rooted', None)
    C['mid0'] = mkcert(K['mid0'].public_key(), 'mid0', S['mid0'], K['root0'], 'root0')
    C['mid1'] = mkcert(K['mid1'].public_key(), 'mid1', S['mid1'], K['mid0'], 'mid0')
    C['leaf0self'] = mkcert(K['leaf0'].public_key(), 'leaf0', S['leaf0'], K['leaf0'], 'leaf0')
    C['leaf1self'] = mkcert(K['leaf1'].public_key(), 'leaf1', S['leaf1'], K['leaf1'], 'leaf1')
    C['leaf2self'] = mkcert(K['leaf2'].public_key(), 'leaf2', S['leaf2'], K['leaf2'], 'leaf2')
    C['leaf0mid1'] = mkcert(K['leaf0'].public_key(), 'leaf0', S['leaf0'], K['mid1'], 'mid1')
    C['leaf0mid0'] = mkcert(K['leaf0'].public_key(), 'leaf0', S['leaf0'], K['mid0'], 'mid0')
    C['leaf0root0'] = mkcert(K['leaf0'].public_key(), 'leaf0', S['leaf0'], K['root0'], 'root0')
    C['leaf1root0'] = mkcert(K['leaf1'].public_key(), 'leaf1', S['leaf1'], K['root0'], 'root0')
    C['leaf0rsa'] = mkcert(K['leaf0'].public_key(), 'leaf0', S['leaf0'], K['rsa'], 'rootrsa')
    C['leaf0ed'] = mkcert(K['leaf0'].public_key(), 'leaf0', S['leaf0'], K['ed'], 'rooted', None)
    # claims to be issued by mid0/root0 but is signed by somebody else
    C['leaf0forged'] = mkcert(K['leaf0'].public_key(), 'leaf0', S['leaf0'], K['evil'], 'mid0')
    C['mid0forged'] = mkcert(K['mid0'].public_key(), 'mid0', S['mid0'], K['evil'], 'root0')
    # same serial, other key
    C['leaf0fake'] = mkcert(K['evil'].public_key(), 'leaf0', S['leaf0'], K['evil'], 'leaf0')
    C['mid0fake'] = mkcert(K['evil'].public_key(), 'mid0', S['mid0'], K['root0'], 'root0')
    C['root0fake'] = mkcert(K['evil'].public_key(), 'root0', S['root0'], K['evil'], 'root0')
    C['leafrsa'] = mkcert(K['rsa'].public_key(), 'leafrsa', 0x3001, K['root0'], 'root0')
    C['leafp384'] = mkcert(K['p384'].public_key(), 'leafp384', 0x3002, K['root0'], 'root0')
    pos = mkcert(K['leaf2'].public_key(), 'leafneg', 0x0102030405060708, K['root0'], 'root0')
    C['leafneg'] = negate(pos, K['root0'])
    for n, c in C.items():
        w(n + '.crt', c.public_bytes(Encoding.PEM))
        print(n, c.serial_number, hex(c.serial_number))


def deep():
    """A long chain of certificates (added later, from the committed keys)."""
    K = {}
    for n in ('leaf0', 'mid0', 'mid1', 'root1', 'root0'):
        with open(os.path.join(OUT, n + '.key'), 'rb') as f:
            K[n] = load_pem_private_key(f.read(), None, B)
    keys = ['leaf0'] + [('mid0', 'mid1', 'root1')[i % 3] for i in range(9)] + ['root0']
    names = ['leaf0deep'] + ['deep%d' % i for i in range(1, 11)]
    for i, (n, k) in enumerate(zip(names, keys)):
        j = min(i + 1, 10)
        c = mkcert(K[k].public_key(), n, 0x4a00 + i, K[keys[j]], names[j])
        w(n + '.crt', c.public_bytes(Encoding.PEM))


if __name__ == '__main__':
    main()
    deep()
