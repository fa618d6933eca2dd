"""Copy /repo to the folder given and rewrite it in ways that keep its behaviour; the checks must
stay quiet on it: RKSV_VERIF_REPO=FOLDER ./check.sh C01 ..."""
import shutil,os,sys,subprocess
R=sys.argv[1]
shutil.rmtree(R,ignore_errors=True); shutil.copytree('/repo',R,symlinks=True)
def ed(f,old,new,n=1):
    p=R+'/'+f; s=open(p).read()
    if s.count(old)!=n: print('EDIT',f,s.count(old),repr(old[:80])); sys.exit(1)
    open(p,'w').write(s.replace(old,new))
V='librksv/verify.py'
# verifyGroup: extracted helpers, locals renamed
ed(V,'''            ro, algorithm = rv.verifyJWS(r)
            if prevObj and (not ro.isNull() or ro.isDummy() or ro.isReversal()):
                if cashRegisterState.needRestoreReceipt:
                    raise NoRestoreReceiptAfterSignatureSystemFailureException(ro.receiptId)
                if prevObj.isSignedBroken():
                    cashRegisterState.needRestoreReceipt = True
            else:
                cashRegisterState.needRestoreReceipt = False
''','''            ro, algorithm = rv.verifyJWS(r)
            _noteSigned(ro, prevObj, cashRegisterState)
''')
ed(V,'''        usedReceiptIds.check(ro.receiptId)
        if prevObj:
            if prevObj.registerId != ro.registerId:
                raise ChangingRegisterIdException(ro.receiptId)
            if (prevObj.zda == 'AT0' and ro.zda != 'AT0') or (
                    prevObj.zda != 'AT0' and ro.zda == 'AT0'):
                raise ChangingSystemTypeException(ro.receiptId)
            # These checks are not necessary according to:
            # https://github.com/BMF-RKSV-Technik/at-registrierkassen-mustercode/issues/144#issuecomment-255786335
            # However, the current (v1.1.1) BMF tool enforces this anyway so we
            # will too.
            if prevObj.dateTime > ro.dateTime:
                raise DecreasingDateException(ro.receiptId)

        usedReceiptIds.add(ro.receiptId)
''','''        if prevObj:
            _checkContinuity(prevObj, ro)
        usedReceiptIds.check(ro.receiptId)
        usedReceiptIds.add(ro.receiptId)
''')
ed(V,'''def verifyGroup(group, rv, key, prevStartReceiptJWS, cashRegisterState,
        usedReceiptIds):
''','''def _isRestoring(rec):
    return rec.isNull() and not (rec.isDummy() or rec.isReversal())

def _noteSigned(rec, prevRec, st):
    if not prevRec or _isRestoring(rec):
        st.needRestoreReceipt = False
        return
    if st.needRestoreReceipt:
        raise NoRestoreReceiptAfterSignatureSystemFailureException(rec.receiptId)
    st.needRestoreReceipt = prevRec.isSignedBroken()

def _checkContinuity(prevRec, rec):
    # dates first
    if rec.dateTime < prevRec.dateTime:
        raise DecreasingDateException(rec.receiptId)
    if (prevRec.zda == 'AT0') != (rec.zda == 'AT0'):
        raise ChangingSystemTypeException(rec.receiptId)
    if prevRec.registerId != rec.registerId:
        raise ChangingRegisterIdException(rec.receiptId)

def verifyGroup(group, rv, key, prevStartReceiptJWS, cashRegisterState,
        usedReceiptIds):
''')
ed(V,'''            if not ro.isNull():
                raise NonzeroTurnoverOnInitialReceiptException(ro.receiptId)
            if ro.isDummy() or ro.isReversal():
                raise NonstandardTypeOnInitialReceiptException(ro.receiptId)
''','''            if ro.isReversal() or ro.isDummy():
                raise NonstandardTypeOnInitialReceiptException(ro.receiptId)
            if not ro.isNull():
                raise NonzeroTurnoverOnInitialReceiptException(ro.receiptId)
''')
ed(V,'''                newC = cashRegisterState.lastTurnoverCounter + ro.turnover()
                if not ro.isReversal():
                    turnoverCounter = ro.decryptTurnoverCounter(key, algorithm)
                    if turnoverCounter != newC:
                        raise InvalidTurnoverCounterException(ro.receiptId)
                cashRegisterState.lastTurnoverCounter = newC
''','''                total = ro.turnover() + cashRegisterState.lastTurnoverCounter
                if not ro.isReversal() and total != ro.decryptTurnoverCounter(
                        key, algorithm):
                    raise InvalidTurnoverCounterException(ro.receiptId)
                cashRegisterState.lastTurnoverCounter = total
''')
ed(V,'''    prev = cert

    for c in chain:
        ksCert = keyStore.getCert(key_store.numSerialToKeyId(prev.serial_number))
        if ksCert:
            if utils.certFingerprint(ksCert) != utils.certFingerprint(prev):
                raise CertificateSerialCollisionException(
                        key_store.numSerialToKeyId(prev.serial_number),
                        utils.certFingerprint(prev),
                        utils.certFingerprint(ksCert))
            return

        if not utils.verifyCert(prev, c):
            raise CertificateChainBrokenException(
                    key_store.numSerialToKeyId(prev.serial_number),
                    key_store.numSerialToKeyId(c.serial_number))

        prev = c

    ksCert = keyStore.getCert(key_store.numSerialToKeyId(prev.serial_number))
    if ksCert:
        if utils.certFingerprint(ksCert) != utils.certFingerprint(prev):
            raise CertificateSerialCollisionException(
                    key_store.numSerialToKeyId(prev.serial_number),
                    utils.certFingerprint(prev),
                    utils.certFingerprint(ksCert))
        return

    raise UntrustedCertificateException(key_store.numSerialToKeyId(
        cert.serial_number))
''','''    certs = [cert] + list(chain)
    for i, cur in enumerate(certs):
        serial = key_store.numSerialToKeyId(cur.serial_number)
        known = keyStore.getCert(serial)
        if known:
            fps = (utils.certFingerprint(cur), utils.certFingerprint(known))
            if fps[0] != fps[1]:
                raise CertificateSerialCollisionException(serial, *fps)
            return
        if i + 1 < len(certs) and not utils.verifyCert(cur, certs[i + 1]):
            raise CertificateChainBrokenException(serial,
                    key_store.numSerialToKeyId(certs[i + 1].serial_number))

    raise UntrustedCertificateException(key_store.numSerialToKeyId(
        cert.serial_number))
''')
ed(V,'''    recsWithVerifiers = [ (r, rv) for recs, rv in groups for r in recs ]
''','''    recsWithVerifiers = list()
    for recs, rv in groups:
        recsWithVerifiers.extend((r, rv) for r in recs)
''')
ed(V,'''    pkgRStates = [cashregState]
    pkgRState = cashregState
    for pkg in chunksWithVerifiers:
        for group, rv in pkg:
            pkgRState = verification_state.CashRegisterState.fromDEPGroup(
                    pkgRState, group, key)
        pkgRStates.append(pkgRState)
    del pkgRStates[-1]

    return zip(chunksWithVerifiers, [key] * npkgs, [prevStartJWS] * npkgs,
            pkgRStates, [usedRecIdsBackend() for i in range(npkgs)])
''','''    tuples = list()
    pkgRState = cashregState
    for pkg in chunksWithVerifiers:
        tuples.append((pkg, key, prevStartJWS, pkgRState, usedRecIdsBackend()))
        for group, rv in pkg:
            pkgRState = verification_state.CashRegisterState.fromDEPGroup(
                    pkgRState, group, key)
    return tuples
''')
ed(V,'''            outresults = map(verifyGroupsWithVerifiersTuple, wargs)
            res = type('DummyAsyncResult', (object,), {"data": outresults})
            res.get = MethodType(lambda self: self.data, res)
        else:
            res = pool.map_async(verifyGroupsWithVerifiersTuple, wargs)
''','''            res = _Done([verifyGroupsWithVerifiersTuple(a) for a in wargs])
        else:
            res = pool.starmap_async(verifyGroupsWithVerifiers, wargs)
''')
ed(V,'''def prepareVerificationTuples(''','''class _Done(object):
    def __init__(self, data):
        self.data = data

    def get(self):
        return self.data

def prepareVerificationTuples(''')
ed(V,'''            if one_group:
                raise NoCertificateGivenException()

            if one_group:
''','''            if one_group:
''')
# algorithms
A='librksv/algorithms.py'
ed(A,'''        chainingValue = None
        if previousJwsString:
            chainingValue = utils.sha256(previousJwsString.encode("utf-8"))
        else:
            chainingValue = utils.sha256(receipt.registerId.encode("utf-8"))
        return chainingValue[0:8]
''','''        base = previousJwsString or receipt.registerId
        return self.hash(base)[:self.chainBytes()]
''')
ed(A,'''        iv = utils.sha256(receipt.registerId.encode("utf-8")
                + receipt.receiptId.encode("utf-8"))[0:16]

        pt =''','''        iv = self._iv(receipt)
        pt =''')
ed(A,'''        iv = utils.sha256(receipt.registerId.encode("utf-8")
                + receipt.receiptId.encode("utf-8"))[0:16]
        decCtr''','''        iv = self._iv(receipt)
        decCtr''')
ed(A,'''    def verifyKey(self, key):
        if not isinstance(key, bytes):
            return False
        if len(key) != 32:
            return False
        return True
''','''    def _iv(self, rec):
        return utils.sha256((rec.registerId + rec.receiptId).encode('utf-8'))[:16]

    def verifyKey(self, key):
        return isinstance(key, bytes) and len(key) == 32
''')
ed(A,'''        payload = None
        try:
            payload = jwt.PyJWS().decode(jwsString, pubKey)
        except jwt.exceptions.DecodeError as e:
            pass

        if payload:
            return True
        return False
''','''        try:
            return bool(jwt.PyJWS().decode(jwsString, pubKey))
        except jwt.exceptions.DecodeError:
            return False
''')
# receipt
C='librksv/receipt.py'
s=open(R+'/'+C).read()
# cashreg
G='librksv/cashreg.py'
ed(G,'''        sumAStr = ("%.2f" % sumA).replace('.',',')
        sumBStr = ("%.2f" % sumB).replace('.',',')
        sumCStr = ("%.2f" % sumC).replace('.',',')
        sumDStr = ("%.2f" % sumD).replace('.',',')
        sumEStr = ("%.2f" % sumE).replace('.',',')
''','''        sumAStr, sumBStr, sumCStr, sumDStr, sumEStr = [
                '{:.2f}'.format(s).replace('.', ',')
                for s in (sumA, sumB, sumC, sumD, sumE)]
''')
ed(G,'''        self.turnoverCounter = turnoverCounter
        self.turnoverCounterSize = turnoverCounterSize
        self.lastReceiptSig = jwsString

        if''','''        self._commit(turnoverCounter, turnoverCounterSize, jwsString)

        if''')
ed(G,'''    def receipt(self, prefix, receiptId, dateTime, sumA, sumB, sumC, sumD, sumE, sigSystem, dummy=False''','''    def _commit(self, counter, size, jws):
        self.lastReceiptSig = jws
        self.turnoverCounter, self.turnoverCounterSize = counter, size

    def receipt(self, prefix, receiptId, dateTime, sumA, sumB, sumC, sumD, sumE, sigSystem, dummy=False''')
# depparser
D='librksv/depparser.py'
ed(D,'''        if 'Belege-kompakt' not in group:
            raise MissingDEPElementException('Belege-kompakt', idx)

        if 'Signaturzertifikat' not in group:
            raise MissingDEPElementException('Signaturzertifikat', idx)

        if 'Zertifizierungsstellen' not in group:
            raise MissingDEPElementException('Zertifizierungsstellen', idx)
''','''        for elem in ('Signaturzertifikat', 'Zertifizierungsstellen', 'Belege-kompakt'):
            if elem not in group:
                raise MissingDEPElementException(elem, idx)
''')
ed(D,'''        chunk = list()
        chunklen = 0
        groupidx = 0
        for group in groups:
            recgen, cert, cert_list = self._parseDEPGroup(group, groupidx)
            nextrecs = list()
            for rec in recgen:
                nextrecs.append(rec)
                chunklen += 1

                if chunklen >= chunksize:
                    chunk.append((nextrecs, cert, cert_list))
                    yield chunk
                    nextrecs = list()
                    chunk = list()
                    chunklen = 0

            if len(nextrecs) > 0:
                chunk.append((nextrecs, cert, cert_list))
            groupidx += 1

        if chunklen > 0:
            yield chunk
''','''        chunk = list()
        room = chunksize
        for groupidx, group in enumerate(groups):
            recgen, cert, cert_list = self._parseDEPGroup(group, groupidx)
            recs = list(recgen)
            while recs:
                chunk.append((recs[:room], cert, cert_list))
                took = len(chunk[-1][0])
                recs = recs[took:]
                room -= took
                if room == 0:
                    yield chunk
                    chunk = list()
                    room = chunksize

        if chunk:
            yield chunk
''')
ed(D,'''        if self.nparts > 1 and not chunksize:
            nrecs = totalRecsInDictDEP(self.dep)
            chunksize = int(ceil(float(nrecs) / self.nparts))
''','''        if self.nparts > 1 and not chunksize:
            chunksize = -(-totalRecsInDictDEP(self.dep) // self.nparts)
''')
# depexport
X='librksv/depexport.py'
ed(X,'''        for g in self._stream:
            for r in g[0]:
                yield ('\\n' + r[0].toCSV(r[1]))
            g = None
''','''        for recs, cert, chain in self._stream:
            for rec, alg in recs:
                yield '\\n'
                yield rec.toCSV(alg)
''')
# key store
K='librksv/key_store.py'
ed(K,'''    def getKey(self, keyId):
        if keyId not in self.keydict:
            return None
        return self.keydict[keyId].key

    def getCert(self, keyId):
        if keyId not in self.keydict:
            return None
        return self.keydict[keyId].cert
''','''    def _get(self, keyId, attr):
        entry = self.keydict.get(keyId)
        return None if entry is None else getattr(entry, attr)

    def getKey(self, keyId):
        return self._get(keyId, 'key')

    def getCert(self, keyId):
        return self._get(keyId, 'cert')
''')
ed(K,'''    validKeyIds = list()

    try:
        validKeyIds.append('%x' % int(serial, 16))
    except ValueError as e:
        pass

    try:
        validKeyIds.append('%x' % int(serial, 10))
    except ValueError as e:
        pass

    return validKeyIds
''','''    validKeyIds = list()
    for base in (16, 10):
        try:
            validKeyIds.append('%x' % int(serial, base))
        except ValueError as e:
            pass

    return validKeyIds
''')
ed(K,'''    def delKey(self, keyId):
        if keyId not in self.keydict:
            return
        del self.keydict[keyId]
''','''    def delKey(self, keyId):
        self.keydict.pop(keyId, None)
''')
ed(K,'''        self.keydict = dict()
''','''        self.entries = dict()
''')
s=open(R+'/'+K).read().replace('keydict','entries'); open(R+'/'+K,'w').write(s)
# state
S='librksv/verification_state.py'
ed(S,'''        self._usedRecIds = set()
''','''        self._ids = set()
''')
s=open(R+'/'+S).read().replace('_usedRecIds','_ids').replace('_maxId','_hi').replace('_minId','_lo'); open(R+'/'+S,'w').write(s)
ed(S,'''        return list(self._ids)''','''        return sorted(self._ids)''')
ed(S,'''        if self._hi is None:
            return
        if self._key(self._hi) < self._key(receiptId):
            return
        raise DuplicateReceiptIdException(receiptId)
''','''        if self._hi is not None and self._key(receiptId) <= self._key(self._hi):
            raise DuplicateReceiptIdException(receiptId)
''')
ed(S,'''        reversals = list()
        for i in range(len(group) - 1, -1, -1):
            ro, prefix = receipt.Receipt.fromJWSString(
                depparser.expandDEPReceipt(group[i]))
            if (not ro.isDummy()) and (not ro.isReversal()):
                alg = algorithms.ALGORITHMS[prefix]
                self.lastTurnoverCounter = ro.decryptTurnoverCounter(key, alg)
                break
            if ro.isReversal():
                reversals.insert(0, ro)

        for ro in reversals:
            self.lastTurnoverCounter += ro.turnover()
''','''        since = 0
        counter = self.lastTurnoverCounter
        for raw in reversed(group):
            ro, prefix = receipt.Receipt.fromJWSString(
                depparser.expandDEPReceipt(raw))
            if ro.isDummy():
                continue
            if not ro.isReversal():
                counter = ro.decryptTurnoverCounter(key,
                        algorithms.ALGORITHMS[prefix])
                break
            since += ro.turnover()
        self.lastTurnoverCounter = counter + since
''')
ed(S,'''        if 'startReceiptJWS' not in d:
            raise MissingStateElementException('startReceiptJWS', regidx)
        if 'lastReceiptJWS' not in d:
            raise MissingStateElementException('lastReceiptJWS', regidx)
        if 'lastTurnoverCounter' not in d:
            raise MissingStateElementException('lastTurnoverCounter', regidx)
        if 'needRestoreReceipt' not in d:
            raise MissingStateElementException('needRestoreReceipt', regidx)
        if 'chainNextTo' not in d:
            raise MissingStateElementException('chainNextTo', regidx)
''','''        for name in ('chainNextTo', 'needRestoreReceipt', 'lastTurnoverCounter',
                'lastReceiptJWS', 'startReceiptJWS'):
            if name not in d:
                raise MissingStateElementException(name, regidx)
''')
ed(S,'''        regs = list()
        for cr in self.cashRegisters:
            regs.append(copy.copy(cr.__dict__))

        return {
                'cashRegisters': regs,
                'usedReceiptIds': self.usedReceiptIds.writeToJson()
        }''','''        return {
                'usedReceiptIds': self.usedReceiptIds.writeToJson(),
                'cashRegisters': [dict(vars(cr)) for cr in self.cashRegisters],
        }''')
# verify_receipt
W='librksv/verify_receipt.py'
ed(W,'''        jwsString = rec.toJWSString(algorithmPrefix)
        if not algorithm.verify(jwsString, pubKey):
            raise InvalidSignatureException(rec.receiptId)

        return rec, algorithm
''','''        if algorithm.verify(rec.toJWSString(algorithmPrefix), pubKey):
            return rec, algorithm
        raise InvalidSignatureException(rec.receiptId)
''')
ed(W,'''            if not rec.isDummy() and not rec.isReversal() and rec.isNull():
                raise UnsignedNullReceiptException(rec.receiptId)
            raise SignatureSystemFailedException(rec.receiptId)
''','''            special = rec.isDummy() or rec.isReversal()
            cls = (UnsignedNullReceiptException if rec.isNull() and not special
                    else SignatureSystemFailedException)
            raise cls(rec.receiptId)
''')
ed(W,'''    calcHash = base64.urlsafe_b64encode((algorithm.hash(basicCode)[0:8]
        )).decode("utf-8").replace('=', '')
    if calcHash != urlHash:''','''    calcHash = rec.toURLHash(algorithm.id())
    if urlHash != calcHash:''')
# sigsys: shared join
Y='librksv/sigsys.py'
ed(Y,'''        sig = algorithm.sign(data, self.secret)

        data = data.encode("utf-8")
        data = base64.urlsafe_b64encode(data).replace(b'=', b'')

        return''','''        payload = data
        data = base64.urlsafe_b64encode(payload.encode("utf-8")).replace(b'=', b'')
        sig = algorithm.sign(payload, self.secret)

        return''')
# scripts
ed('verification_state.py','''        state = load_state(filename)
        state.addNewCashRegister()
''','''        state = load_state(filename)
        ClusterState.addNewCashRegister(state)
''')
ed('key_store.py','''    data = keyStore.writeStoreToJson(b64Key)
    with open(sys.argv[1], 'w') as f:
        json.dump(data, f, sort_keys=False, indent=2)''','''    text = json.dumps(keyStore.writeStoreToJson(b64Key), sort_keys=True, indent=4)
    with open(sys.argv[1], 'w') as f:
        f.write(text + '\\n')''')
ed('verify.py','''        pool = multiprocessing.Pool(nprocs)

        try:''','''        pool = multiprocessing.Pool(processes=nprocs)
        try:''')
U='librksv/utils.py'
ed(U,'''    needed = 4 - len(data) % 4
    if needed < 4:
        data += '=' * needed
    return data
''','''    return data + '=' * (-len(data) % 4)
''')
ed(U,'''    b64Key = None
    try:
        b64Key = json['base64AESKey']
    except KeyError:
        return None

    return loadB64Key''','''    if 'base64AESKey' not in json:
        return None
    b64Key = json['base64AESKey']

    return loadB64Key''')
ed('librksv/url_receipt_helpers.py','''    urlParts = url.split('#')
    if len(urlParts) >= 2:
        return urlParts[1]

    matches = urlHashRegex.findall(urlParts[0])
    if len(matches) == 0:
        return None

    return matches[-1]
''','''    base, sep, anchor = url.partition('#')
    if sep:
        return anchor.split('#')[0]

    found = None
    for m in urlHashRegex.finditer(base):
        found = m.group(0)
    return found
''')

# ---- tools: atomic replacement of the output, helpers, other idioms
ed('verification_state.py','''    stateJson = state.writeStateToJson()
    with open(filename, 'w') as f:
        json.dump(stateJson, f, sort_keys=False, indent=2)''','''    import os
    text = json.dumps(state.writeStateToJson(), indent=1)
    tmp = filename + '.tmp'
    try:
        with open(tmp, 'w') as f:
            f.write(text)
        os.replace(tmp, filename)
    except BaseException:
        if os.path.exists(tmp):
            os.unlink(tmp)
        raise''')
ed('verification_state.py','''    def load_state(filename):
        with open(filename, 'r') as f:
            stateJson = utils.readJsonStream(f)
            return ClusterState.readStateFromJson(stateJson)
''','''    def load_state(filename):
        f = open(filename, 'r')
        try:
            parsed = utils.readJsonStream(f)
        finally:
            f.close()
        return ClusterState.readStateFromJson(parsed)
''')
ed('img_decode.py','''        return [ sym.data for sym in zimg if str(sym.type) == 'QRCODE' ]
''','''        found = list()
        for sym in zimg:
            if str(sym.type) != 'QRCODE':
                continue
            found.append(sym.data)
        return found
''')
ed('img_decode.py','''    for fn in sys.argv[1:]:
        with Image.open(fn) as img:
            for qr in read_qr_codes(img):
                print(qr)''','''    def decode_file(fn):
        with Image.open(fn) as img:
            return read_qr_codes(img)

    for fn in sys.argv[1:]:
        for qr in decode_file(fn):
            sys.stdout.write(qr + '\\n')''')
ed('split.py','''        generator = depparser.receiptGroupAdapter([chunk])
        stream = depexport.DEPStream(generator)
        exporter = depexport.JSONExporter(stream)

        with open('dep-export{}.json'.format(i), 'w') as f:
            for part in exporter.export():
                f.write(part)

        i += 1
        chunk = None''','''        exporter = depexport.JSONExporter(depexport.DEPStream(
            depparser.receiptGroupAdapter([chunk])))

        with open('dep-export%d.json' % i, 'w') as f:
            f.writelines(exporter.export())

        i = i + 1''')
ed('split.py','''    if not os.path.exists(outDir):
        os.mkdir(outDir)
    os.chdir(outDir)
''','''    if not os.path.exists(outDir):
        os.makedirs(outDir)
    os.chdir(outDir)
''')
ed('cert_extract.py','''            groupCerts = list(cert_list)
            if cert:
                groupCerts.append(cert)

            for co in groupCerts:
                cs = key_store.numSerialToKeyId(co.serial_number)
                with open('{}.crt'.format(cs), 'w') as f:
                    f.write(utils.addPEMCertHeaders(
                        utils.exportCertToPEM(co)))
''','''            for co in cert_list + ([cert] if cert else []):
                name = key_store.numSerialToKeyId(co.serial_number) + '.crt'
                pem = utils.addPEMCertHeaders(utils.exportCertToPEM(co))
                with open(name, 'w') as f:
                    f.write(pem)
''')
ed('receipt_host.py','''    if url_hash not in receipt_store:
        abort(NOT_FOUND)

    return jsonify({'code': receipt_store[url_hash]})''','''    code = receipt_store.get(url_hash)
    if code is None:
        abort(NOT_FOUND)

    return jsonify(code=code)''')
ed('receipt_host.py','''                for cr in recs:
                    r = depparser.expandDEPReceipt(cr)
                    rec, pre = receipt.Receipt.fromJWSString(r)
                    receipts[rec.toURLHash(pre)] = rec.toBasicCode(pre)
''','''                for r in map(depparser.expandDEPReceipt, recs):
                    rec, pre = receipt.Receipt.fromJWSString(r)
                    code = rec.toBasicCode(pre)
                    receipts[rec.toURLHash(pre)] = code
''')
# ---- the receipt constructor: sums in a loop, certificate kinds in one condition
ed(C,'''        if certSerialType == CertSerialType.SERIAL:
            if zda == 'AT0':
                raise InvalidCertificateProviderException(receiptId)
        else:
            if zda != 'AT0':
                raise InvalidCertificateProviderException(receiptId)
''','''        if (certSerialType == CertSerialType.SERIAL) == (zda == 'AT0'):
            raise InvalidCertificateProviderException(receiptId)
''')
ed(C,'''        segs = [ s.strip() for s in csv.split(';') ]
        return Receipt.fromBasicCode('_' + ('_'.join(segs)))
''','''        segs = [''] + [ s.strip() for s in csv.split(';') ]
        return Receipt.fromBasicCode('_'.join(segs))
''')
ed(C,'''        if '_' in receiptId:
            raise MalformedReceiptException(receiptId,
                    _("Receipt ID \\"{}\\" invalid.").format(receiptId))

        if not isinstance(zda, string_types) or not zda \\
                or zdaRegex.match(zda) is None:
            raise MalformedReceiptException(receiptId,
                    _("ZDA \\"{}\\" invalid.").format(zda))
''','''        self._checkIds(zda, receiptId)
''')
ed(C,'''    @staticmethod
    def fromJWSString(jwsString):
''','''    @staticmethod
    def _checkIds(zda, receiptId):
        if '_' in receiptId:
            raise MalformedReceiptException(receiptId,
                    _('Receipt ID "{}" invalid.').format(receiptId))
        if not isinstance(zda, string_types) or not zda \\
                or zdaRegex.match(zda) is None:
            raise MalformedReceiptException(receiptId,
                    _('ZDA "{}" invalid.').format(zda))

    @staticmethod
    def fromJWSString(jwsString):
''')
# ---- DEP parser: extracted checks
ed(D,'''        if prefix == 'Belege-Gruppe.item' and event == 'end_map':
            if not self.cert_seen:
                raise MissingDEPElementException('Signaturzertifikat', self.idx)
            if not self.cert_list_seen:
                raise MissingDEPElementException('Zertifizierungsstellen', self.idx)
            if not self.recs_seen:
                raise MissingDEPElementException('Belege-kompakt', self.idx)
            self.mergeIntoChunk()
            return self.upper
''','''        if prefix == 'Belege-Gruppe.item' and event == 'end_map':
            for seen, name in ((self.cert_seen, 'Signaturzertifikat'),
                    (self.cert_list_seen, 'Zertifizierungsstellen'),
                    (self.recs_seen, 'Belege-kompakt')):
                if not seen:
                    raise MissingDEPElementException(name, self.idx)
            self.mergeIntoChunk()
            return self.upper
''')
# ---- the GUI
T='rktool.py'
ed(T,'''        while len(self.pubKeyGroup.nodes) > 0:
            iterator = iter(tv.iterate_all_nodes(node=self.pubKeyGroup))
            next(iterator)
            for n in iterator:
                tv.remove_node(n)

        while len(self.certGroup.nodes) > 0:
            iterator = iter(tv.iterate_all_nodes(node=self.certGroup))
            next(iterator)
            for n in iterator:
                tv.remove_node(n)
''','''        for group in (self.pubKeyGroup, self.certGroup):
            for n in list(group.nodes):
                tv.remove_node(n)
''')
ed(T,'''                receiptIdx = 0
                for cr in recs:
                    jws = depparser.expandDEPReceipt(cr)
''','''                for receiptIdx, cr in enumerate(recs):
                    jws = depparser.expandDEPReceipt(cr)
''')
ed(T,'''                        on_press=self.viewReceipt), receiptsNode)
                    receiptIdx += 1
''','''                        on_press=self.viewReceipt), receiptsNode)
''')
ed(T,'''        jsonStore = App.get_running_app().keyStore.writeStoreToJson(None)
        try:
            with open(os.path.join(path, filename), 'w') as f:
                json.dump(jsonStore, f, sort_keys=False, indent=2)

            App.get_running_app().curSearchPath = path''','''        app = App.get_running_app()
        text = json.dumps(app.keyStore.writeStoreToJson(None), indent=2)
        try:
            with open(os.path.join(path, filename), 'w') as f:
                f.write(text)

            app.curSearchPath = path''')
ed(T,'''        if result[0]:
            self._verifying = False
            self.verify_button.text = _('Verify')
            displayError(result[0])

        else:
            App.get_running_app().pool.map_async(verifyDEP_main_Task,
                    result[1], callback = partial(self.verifyDEP_main_Cb, attempt))
''','''        error, inargs = result
        if error:
            self._failed(error)
            return

        App.get_running_app().pool.map_async(verifyDEP_main_Task,
                inargs, callback = partial(self.verifyDEP_main_Cb, attempt))

    def _failed(self, error):
        self._verifying = False
        self.verify_button.text = _('Verify')
        displayError(error)
''')
ed(T,'''        outUsedRecIds = list()
        for r in result:
            if r[0]:
                self._verifying = False
                self.verify_button.text = _('Verify')
                displayError(r[0])
                return
            outUsedRecIds.append(r[1])
''','''        for error, ids in result:
            if error:
                self._failed(error)
                return
        outUsedRecIds = [ ids for error, ids in result ]
''')
ed(T,'''        if result:
            self.verify_button.text = _('Verify')
            self.verify_button.disabled = False

            displayError(result)

        else:
            self.verify_button.text = _('Valid Signature')
            self.verify_button.disabled = True
            self.verify_button.background_color = (0, 1, 0, 1)
''','''        if not result:
            self.verify_button.background_color = (0, 1, 0, 1)
            self.verify_button.disabled = True
            self.verify_button.text = _('Valid Signature')
            return

        self.verify_button.disabled = False
        self.verify_button.text = _('Verify')
        displayError(result)
''')
ed(T,'''            if (self._input_type == 'JWS'):
                rec, prefix = receipt.Receipt.fromJWSString(self.receiptInput.text)
            elif (self._input_type == 'QR'):
                rec, prefix = receipt.Receipt.fromBasicCode(self.receiptInput.text)
            elif (self._input_type == 'OCR'):
                rec, prefix = receipt.Receipt.fromOCRCode(self.receiptInput.text)
            elif''','''            readers = { 'JWS': receipt.Receipt.fromJWSString,
                    'QR': receipt.Receipt.fromBasicCode,
                    'OCR': receipt.Receipt.fromOCRCode }
            if self._input_type in readers:
                rec, prefix = readers[self._input_type](
                        self.receiptInput.text)
            elif''')
ed(T,'''    def setKey(self, key):
        self._key = None
        try:
            if key is not None:
                self.aes_input.text = key
                k = utils.loadB64Key(key.encode('utf-8'))
                if self._algorithmPrefix not in algorithms.ALGORITHMS:
                    raise receipt.UnknownAlgorithmException(
                            self._receipt.receiptId)
                algorithm = algorithms.ALGORITHMS[self._algorithmPrefix]
                utils.raiseForKey(k, algorithm)
                self._key = k
''','''    def _usableKey(self, key):
        k = utils.loadB64Key(key.encode('utf-8'))
        if self._algorithmPrefix not in algorithms.ALGORITHMS:
            raise receipt.UnknownAlgorithmException(
                    self._receipt.receiptId)
        utils.raiseForKey(k, algorithms.ALGORITHMS[self._algorithmPrefix])
        return k

    def setKey(self, key):
        self._key = None
        try:
            if key is not None:
                self.aes_input.text = key
                self._key = self._usableKey(key)
''')
print('ok')
