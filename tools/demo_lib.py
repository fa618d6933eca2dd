"""Helpers for demonstrations: histories made with the library of the current
working directory (the repository)."""
import base64
import datetime
import json
import os
import subprocess
import sys
import tempfile
import warnings

sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
for _v in ('RKSV_DEP_CHUNKSIZE', 'RKSV_STATE_RECEIPT_IDS'):
    os.environ.pop(_v, None)
REPO = os.getcwd()
sys.path.insert(0, REPO)

from cryptography.hazmat.primitives import serialization as ser
from librksv import gettext_helper
gettext_helper.install()
from librksv import (algorithms, cashreg, depparser, key_store, receipt, sigsys,
        utils, verification_state as vs, verify, verify_receipt)

AES = bytes(range(32))
B64 = base64.b64encode(AES).decode()
START = datetime.datetime(2020, 1, 1, 10, 0, 0)


def pem(priv):
    return priv.private_bytes(ser.Encoding.PEM, ser.PrivateFormat.PKCS8,
            ser.NoEncryption()).decode()


class Signer(object):
    """A signature device with its own key and certificate."""

    def __init__(self, closed=False, serial=0x1abc2def, zda='AT1', kid='U:ATU12345678-K0',
            issuer=None, cn='dev'):
        self.priv, self.pub = utils.makeES256Keypair()
        self.pem = pem(self.priv)
        self.closed = closed
        self.cert = utils.makeSignedCert(self.pub, cn, 3650, serial,
                issuer.priv if issuer else self.priv, issuer.cert if issuer else None)
        self.zda = 'AT0' if closed else zda
        self.id = kid if closed else '%x' % serial
        self.work = sigsys.SignatureSystemWorking(self.zda, self.id, self.pem)
        self.broken = sigsys.SignatureSystemBroken(self.zda, self.id)


class Reg(object):
    """A cash register; n numbers its receipts and its minutes."""

    def __init__(self, signer, regid='REG', size=8, last=None, first=1):
        self.s, self.n = signer, first - 1
        self.cr = cashreg.CashRegister(regid, last, 0, AES, size)
        self.recs = []

    def add(self, *sums, **kw):
        self.n += 1
        sums = (list(sums) + [0.0] * 5)[:5]
        sig = kw.get('sig') or (self.s.broken if kw.get('outage') else self.s.work)
        date = kw.get('date') or START + datetime.timedelta(minutes=self.n)
        r = self.cr.receipt('R1', kw.get('id') or 'id%d' % self.n, date, *sums,
                sigSystem=sig, dummy=kw.get('dummy', False),
                reversal=kw.get('reversal', False), override=kw.get('override', {}))
        self.recs.append(r.toJWSString('R1'))
        return self.recs[-1]


def store(*signers):
    ks = key_store.KeyStore()
    for s in signers:
        ks.putKey(s.id, s.pub, None if s.closed else s.cert)
    return ks


def dep(*groups):
    """groups: (receipts, cert or None, chain)"""
    return {'Belege-Gruppe': [{
        'Signaturzertifikat': utils.exportCertToPEM(c) if c else '',
        'Zertifizierungsstellen': [utils.exportCertToPEM(x) for x in ch],
        'Belege-kompakt': list(rs)} for rs, c, ch in groups]}


def check(d, ks, key=AES, state=None, idx=None):
    """None if accepted, else the error."""
    try:
        verify.verifyDEP(d, ks, key, state, idx)
    except utils.RKSVException as e:
        return e
    return None


def run(script, args, stdin='', cwd=None):
    """Runs a script of the repository in a scratch directory."""
    env = dict(os.environ, PYTHONPATH=REPO, LC_ALL='C.UTF-8')
    p = subprocess.run([sys.executable, '-B', os.path.join(REPO, script)] + [
        str(a) for a in args], input=stdin, stdout=subprocess.PIPE,
        stderr=subprocess.PIPE, universal_newlines=True, env=env, cwd=cwd, timeout=120)
    return p.returncode, p.stdout, p.stderr


def scratch():
    return tempfile.TemporaryDirectory()


def must(cond, what):
    if not cond:
        print('FAILED: ' + what)
        sys.exit(1)
