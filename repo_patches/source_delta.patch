From 4f2a302891575e141660c0b770e60fe95613e7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:16 +0000
Subject: [PATCH 01/44] fix: give every verification package its own set of
 used receipt IDs

All packages prepared for one round shared a single object. Whenever two
packages were verified in the same process (no pool, or several packages
batched into one pool task), merging reported a duplicate receipt ID that
does not exist.
---
 librksv/verify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librksv/verify.py b/librksv/verify.py
index ad32b45..5c0a662 100644
--- a/librksv/verify.py
+++ b/librksv/verify.py
@@ -582,7 +582,7 @@ def prepareVerificationTuples(chunksWithVerifiers, key, prevStartJWS,
     del pkgRStates[-1]
 
     return zip(chunksWithVerifiers, [key] * npkgs, [prevStartJWS] * npkgs,
-            pkgRStates, [usedRecIdsBackend()] * npkgs)
+            pkgRStates, [usedRecIdsBackend() for i in range(npkgs)])
 
 def verifyParsedDEP(parser, keyStore, key, state = None,
         cashRegisterIdx = None, pool = None, nprocs = 1,
-- 
2.43.0


From 31c78a8d438bef658312ffb1b51f75f43a87d326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:16 +0000
Subject: [PATCH 02/44] fix: decode the Base32 fields of OCR codes on Python 3

b32decode() expects bytes, fromOCRCode() handed it strings, so every OCR
code raised an AttributeError.
---
 librksv/receipt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/librksv/receipt.py b/librksv/receipt.py
index 0d81c14..15a47c9 100644
--- a/librksv/receipt.py
+++ b/librksv/receipt.py
@@ -552,7 +552,7 @@ class Receipt(object):
 
         encTurnoverCounter = None
         try:
-            encTurnoverCounter = utils.b32decode(segments[10])
+            encTurnoverCounter = utils.b32decode(segments[10].encode('utf-8'))
         except (TypeError, binascii.Error):
             raise MalformedReceiptException(ocrCode,
                     _('Encrypted turnover counter \"{}\" not Base 32 encoded.'
@@ -560,7 +560,7 @@ class Receipt(object):
 
         previousChain = None
         try:
-            previousChain = utils.b32decode(segments[12])
+            previousChain = utils.b32decode(segments[12].encode('utf-8'))
         except (TypeError, binascii.Error):
             raise MalformedReceiptException(ocrCode,
                     _('Chaining value \"{}\" not Base 32 encoded.'
@@ -568,7 +568,7 @@ class Receipt(object):
 
         signature = None
         try:
-            signature = utils.b32decode(segments[13])
+            signature = utils.b32decode(segments[13].encode('utf-8'))
         except (TypeError, binascii.Error):
             raise MalformedReceiptException(ocrCode,
                     _('Signature \"{}\" not Base 32 encoded.'
-- 
2.43.0


From 6f2b5fe81bc54062b7a61d616fcecc78a14f6a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:16 +0000
Subject: [PATCH 03/44] fix: report a malformed Belege-kompakt element as a DEP
 error

DictDEPParser let TypeError, AttributeError and UnicodeEncodeError escape
for a Belege-kompakt element that is not a list of strings and accepted
strings and dictionaries in place of the list.
---
 librksv/depparser.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/librksv/depparser.py b/librksv/depparser.py
index d76bea3..aa51077 100644
--- a/librksv/depparser.py
+++ b/librksv/depparser.py
@@ -341,7 +341,7 @@ def shrinkDEPReceipt(rec, idx = None):
     """
     try:
         return rec.encode('utf-8')
-    except TypeError:
+    except (TypeError, AttributeError, UnicodeEncodeError):
         if idx is None:
             raise MalformedDEPElementException(_('Receipt \"{}\"').format(rec))
         else:
@@ -602,20 +602,17 @@ class DictDEPParser(DEPParserI):
 
         cert_str = group['Signaturzertifikat']
         cert_str_list = group['Zertifizierungsstellen']
-        receipts = (shrinkDEPReceipt(r) for r in group['Belege-kompakt'])
-
         if not isinstance(cert_str, string_types):
             raise MalformedDEPElementException('Signaturzertifikat',
                     _('not a string'), idx)
         if not isinstance(cert_str_list, list):
             raise MalformedDEPElementException('Zertifizierungsstellen',
                     _('not a list'), idx)
-        try:
-            iter(receipts)
-        except TypeError:
+        if not isinstance(group['Belege-kompakt'], list):
             raise MalformedDEPElementException('Belege-kompakt',
                     _('not a list'), idx)
 
+        receipts = (shrinkDEPReceipt(r) for r in group['Belege-kompakt'])
         cert = parseDEPCert(cert_str) if cert_str != '' else None
         cert_list = [ parseDEPCert(cs) for cs in cert_str_list ]
 
-- 
2.43.0


From ccf3e10c5f5ea6e867915f54682e1b2163bad8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:16 +0000
Subject: [PATCH 04/44] fix: report missing or malformed certificate elements
 in FileDEPParser

If a chunk had to be returned before the group certificates were read and
the elements were missing or not a list, the look-ahead raised IndexError
or TypeError instead of a DEPParseException.
---
 librksv/depparser.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/librksv/depparser.py b/librksv/depparser.py
index aa51077..e6ae6c3 100644
--- a/librksv/depparser.py
+++ b/librksv/depparser.py
@@ -538,10 +538,21 @@ class FileDEPParser(IncrementalDEPParser):
         return items
 
     def _needCerts(self, state, chunksize, groupidx):
-        cert_str = self.__getItems(
-                'Belege-Gruppe.item.Signaturzertifikat', chunksize)[groupidx]
-        cert_str_list = self.__getItems(
-                'Belege-Gruppe.item.Zertifizierungsstellen', chunksize)[groupidx]
+        certs = self.__getItems(
+                'Belege-Gruppe.item.Signaturzertifikat', chunksize)
+        if groupidx >= len(certs):
+            raise MissingDEPElementException('Signaturzertifikat', groupidx)
+        cert_str = certs[groupidx]
+
+        cert_lists = self.__getItems(
+                'Belege-Gruppe.item.Zertifizierungsstellen', chunksize)
+        if groupidx >= len(cert_lists):
+            raise MissingDEPElementException('Zertifizierungsstellen', groupidx)
+        cert_str_list = cert_lists[groupidx]
+        if not isinstance(cert_str_list, list):
+            raise MalformedDEPElementException('Zertifizierungsstellen',
+                    _('not a list'), groupidx)
+
         cert = parseDEPCert(cert_str) if cert_str != '' else None
         cert_list = [ parseDEPCert(cs) for cs in cert_str_list ]
         state.setCrt(cert, cert_list)
-- 
2.43.0


From 00850bf381cd8b6db6237dd1101c74de4052e22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:16 +0000
Subject: [PATCH 05/44] fix: accept groups without a certificate in
 StreamDEPParser

An empty Signaturzertifikat element was mistaken for one that has not been
read yet, so the parser rejected valid DEPs read from a pipe as soon as a
chunk had to be returned from within such a group.
---
 librksv/depparser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/librksv/depparser.py b/librksv/depparser.py
index e6ae6c3..983c63a 100644
--- a/librksv/depparser.py
+++ b/librksv/depparser.py
@@ -165,6 +165,7 @@ class DEPStateWithIncompleteData(DEPStateWithData):
     class WIPData(object):
         def __init__(self):
             self.cert = None
+            self.cert_known = False
             self.cert_chain = None
             self.recs = list()
 
@@ -177,12 +178,13 @@ class DEPStateWithIncompleteData(DEPStateWithData):
         self.idx = idx
 
     def needCrt(self):
-        if self.wip.cert is None or self.wip.cert_chain is None:
+        if not self.wip.cert_known or self.wip.cert_chain is None:
             return self.idx
         return None
 
     def setCrt(self, cert, cert_chain):
         self.wip.cert = cert
+        self.wip.cert_known = True
         self.wip.cert_chain = cert_chain
 
     def mergeIntoChunk(self):
@@ -283,6 +285,7 @@ class DEPStateGroup(DEPStateWithIncompleteData):
                         _('not a string'), self.idx)
             self.cert_seen = True
             self.wip.cert = parseDEPCert(value) if value != '' else None
+            self.wip.cert_known = True
 
         elif prefix == 'Belege-Gruppe.item.Zertifizierungsstellen':
             if self.cert_list_seen:
-- 
2.43.0


From b00338ee1297b973255cab7393ec290c2117b77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:16 +0000
Subject: [PATCH 06/44] fix: do not mistake a continuing receipt for the start
 receipt

updateFromDEPGroup() recorded the first receipt of the group as the start
receipt even if the state already had a last receipt (e.g. one created by
fromArbitraryReceipt()), which verifyGroup() does not. Parallel and updated
states differed from serially verified ones.
---
 librksv/verification_state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librksv/verification_state.py b/librksv/verification_state.py
index 7fb81ea..7c6971b 100644
--- a/librksv/verification_state.py
+++ b/librksv/verification_state.py
@@ -386,7 +386,7 @@ class CashRegisterState(object):
         else:
             self.needRestoreReceipt = False
 
-        if not self.startReceiptJWS:
+        if not self.lastReceiptJWS:
             self.startReceiptJWS = depparser.expandDEPReceipt(group[0])
 
         self.lastReceiptJWS = depparser.expandDEPReceipt(group[-1])
-- 
2.43.0


From 0818c16a0b8a21ddc79363beb18205526d8a6638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:16 +0000
Subject: [PATCH 07/44] fix: check the ID of a start receipt against the used
 receipt IDs

verifyDEP() accepted a start receipt whose ID had already been used in the
cluster while verifyParsedDEP() rejected it when merging the used IDs.
---
 librksv/verify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librksv/verify.py b/librksv/verify.py
index 5c0a662..585b3a4 100644
--- a/librksv/verify.py
+++ b/librksv/verify.py
@@ -396,8 +396,8 @@ def verifyGroup(group, rv, key, prevStartReceiptJWS, cashRegisterState,
 
             cashRegisterState.startReceiptJWS = r
 
+        usedReceiptIds.check(ro.receiptId)
         if prevObj:
-            usedReceiptIds.check(ro.receiptId)
             if prevObj.registerId != ro.registerId:
                 raise ChangingRegisterIdException(ro.receiptId)
             if (prevObj.zda == 'AT0' and ro.zda != 'AT0') or (
-- 
2.43.0


From e1557d8c01570058261453e2beeca133cdf2784d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:16 +0000
Subject: [PATCH 08/44] fix: treat an empty certificate serial as invalid

Reading a key store with an empty certificate ID raised an IndexError
instead of a KeyStoreParseException.
---
 librksv/key_store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librksv/key_store.py b/librksv/key_store.py
index f2c2742..c43f1db 100644
--- a/librksv/key_store.py
+++ b/librksv/key_store.py
@@ -195,7 +195,7 @@ def strSerialToKeyIds(serial):
     empty if the serial is invalid.
     """
     # for some reason the ref impl has a negative serial on some certs
-    if serial[0] == '-':
+    if serial.startswith('-'):
         serial = serial[1:]
 
     validKeyIds = list()
-- 
2.43.0


From 15dd8629fd8d6fddb163c59e9bfb0945ebb5f5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:16 +0000
Subject: [PATCH 09/44] fix: compare certificate chains when merging DEP groups

The chain of the next group was compared with itself, so groups with the
same certificate but different chains were merged and a chain was lost.
---
 librksv/depexport.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librksv/depexport.py b/librksv/depexport.py
index 063f3c3..c2e4729 100644
--- a/librksv/depexport.py
+++ b/librksv/depexport.py
@@ -100,7 +100,7 @@ class MergingDEPStream(DEPStream):
                 except StopIteration:
                     # no more receipts, fetch next group, see if it continues
                     rec_tuples, cert, cert_list = next(self._outer._backing)
-                    if self.cert == cert and cert_list == cert_list:
+                    if self.cert == cert and self.cert_list == cert_list:
                         # more of this group, try again
                         self.extend(rec_tuples)
                         continue
-- 
2.43.0


From 31277fd5cb348035982c2dbb5f9dae8f3c2d0f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:22 +0000
Subject: [PATCH 10/44] fix: reject signatures checked with a key that is not
 an EC key

A certificate or public key of another type (e.g. RSA) made R1.verify()
raise a TypeError from within PyJWT instead of returning False.
---
 librksv/algorithms.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/librksv/algorithms.py b/librksv/algorithms.py
index c0b9d1d..32311b1 100644
--- a/librksv/algorithms.py
+++ b/librksv/algorithms.py
@@ -29,6 +29,7 @@ import base64
 import jwt
 import jwt.algorithms
 
+from cryptography.hazmat.primitives.asymmetric import ec
 from six import binary_type
 
 from . import utils
@@ -186,6 +187,10 @@ class R1(AlgorithmI):
         return sig
 
     def verify(self, jwsString, pubKey):
+        # ES256 signatures can only be verified with an EC key.
+        if not isinstance(pubKey, ec.EllipticCurvePublicKey):
+            return False
+
         payload = None
         try:
             payload = jwt.PyJWS().decode(jwsString, pubKey)
-- 
2.43.0


From c25e93caeadfd190723deaed2cf1cb7d7c010082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:22 +0000
Subject: [PATCH 11/44] fix: compute the turnover of a receipt exactly

The sums were added up as floats. Sums that need more than 53 bits (the
turnover counter may have up to 128) made a valid DEP fail with an invalid
turnover counter and sums too large for a float raised an OverflowError.
---
 librksv/receipt.py            | 10 ++++++++++
 librksv/utils.py              |  7 ++++++-
 librksv/verification_state.py |  6 ++----
 librksv/verify.py             |  3 +--
 4 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/librksv/receipt.py b/librksv/receipt.py
index 15a47c9..830ffc7 100644
--- a/librksv/receipt.py
+++ b/librksv/receipt.py
@@ -725,6 +725,16 @@ class Receipt(object):
         """
         return self.sumA == 0.0 and self.sumB == 0.0 and self.sumC == 0.0 and self.sumD == 0.0 and self.sumE == 0.0
 
+    def turnover(self):
+        """
+        Determines the turnover of this receipt, i.e. the sum of all its sums.
+        The result is computed from the string representations and therefore
+        exact, regardless of how large the sums are.
+        :return: The turnover in cents as int.
+        """
+        return sum(int(s.replace(',', '')) for s in (self.sumAStr,
+            self.sumBStr, self.sumCStr, self.sumDStr, self.sumEStr))
+
     def decryptTurnoverCounter(self, key, algorithm):
         """
         Decrypts the encrypted turnover counter using the given key and
diff --git a/librksv/utils.py b/librksv/utils.py
index 1fbde92..f205052 100644
--- a/librksv/utils.py
+++ b/librksv/utils.py
@@ -333,10 +333,15 @@ def getReceiptFloat(fstr):
         return None
 
     try:
-        return float(fstr.replace(',', '.'))
+        ret = float(fstr.replace(',', '.'))
     except:
         return None
 
+    # We can't represent this, refuse it.
+    if ret in (float('inf'), float('-inf')):
+        return None
+    return ret
+
 def skipBOM(fd):
     """
     Removes the BOM from UTF-8 files so that we can live in peace.
diff --git a/librksv/verification_state.py b/librksv/verification_state.py
index 7c6971b..4c9079a 100644
--- a/librksv/verification_state.py
+++ b/librksv/verification_state.py
@@ -408,8 +408,7 @@ class CashRegisterState(object):
                 reversals.insert(0, ro)
 
         for ro in reversals:
-            self.lastTurnoverCounter += int(round(
-                (ro.sumA + ro.sumB + ro.sumC + ro.sumD + ro.sumE) * 100))
+            self.lastTurnoverCounter += ro.turnover()
 
     def __eq__(self, other):
         if isinstance(other, self.__class__):
@@ -448,8 +447,7 @@ class ClusterState(object):
         dummyLastTC = 0
         if key and not rec.isDummy() and not rec.isReversal():
             curTC = rec.decryptTurnoverCounter(key, algorithm)
-            dummyLastTC = curTC - int(round((rec.sumA + rec.sumB + rec.sumC
-                + rec.sumD + rec.sumE) * 100))
+            dummyLastTC = curTC - rec.turnover()
 
         dummyChain = base64.b64encode("DUMMY000".encode('utf-8'))
         dummyRec = receipt.Receipt(rec.zda, rec.registerId, "dummyrec",
diff --git a/librksv/verify.py b/librksv/verify.py
index 585b3a4..f8f27a3 100644
--- a/librksv/verify.py
+++ b/librksv/verify.py
@@ -429,8 +429,7 @@ def verifyGroup(group, rv, key, prevStartReceiptJWS, cashRegisterState,
         if not ro.isDummy():
             if key is not None:
                 utils.raiseForKey(key, algorithm)
-                newC = cashRegisterState.lastTurnoverCounter + int(round(
-                    (ro.sumA + ro.sumB + ro.sumC + ro.sumD + ro.sumE) * 100))
+                newC = cashRegisterState.lastTurnoverCounter + ro.turnover()
                 if not ro.isReversal():
                     turnoverCounter = ro.decryptTurnoverCounter(key, algorithm)
                     if turnoverCounter != newC:
-- 
2.43.0


From 74542fe1284e5e74563a4b3dd2209ccb2db3794b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:22 +0000
Subject: [PATCH 12/44] fix: only advance the cash register once a receipt has
 been signed

If signing or encrypting failed the turnover counter had already been
changed, so the next receipt did not match the chain. The counter also
drifted from the receipts for sums with a fraction of a cent, as it was
computed from the unrounded sums.
---
 librksv/cashreg.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/librksv/cashreg.py b/librksv/cashreg.py
index df6b3b2..bc5d9e5 100644
--- a/librksv/cashreg.py
+++ b/librksv/cashreg.py
@@ -140,29 +140,32 @@ class CashRegister(CashRegisterI):
                 sumEStr, '', sigSystem.serial, '')
         rec = MangledReceipt(regularRec, override)
 
-        if 'turnoverCounterSize' in override:
-            self.turnoverCounterSize = override['turnoverCounterSize']
+        # Don't touch the register's state until the receipt is signed.
+        turnoverCounter = self.turnoverCounter
+        turnoverCounterSize = override.get('turnoverCounterSize',
+                self.turnoverCounterSize)
 
         encTurnoverCounter = None
         if dummy:
             encTurnoverCounter = b'TRA'
 
             if 'turnoverCounter' in override:
-                self.turnoverCounter = int(override['turnoverCounter'])
+                turnoverCounter = int(override['turnoverCounter'])
         else:
             # TODO: check if counter can still be represented with
             # given size
-            self.turnoverCounter += int(round((sumA + sumB + sumC + sumD + sumE) * 100))
+            # Use the sums as they show up on the receipt.
+            turnoverCounter += regularRec.turnover()
             if 'turnoverCounter' in override:
-                self.turnoverCounter = int(override['turnoverCounter'])
+                turnoverCounter = int(override['turnoverCounter'])
 
             if reversal:
                 encTurnoverCounter = b'STO'
             else:
                 utils.raiseForKey(self.key, algorithm)
                 encTurnoverCounter = algorithm.encryptTurnoverCounter(rec,
-                        self.turnoverCounter, self.key,
-                        self.turnoverCounterSize)
+                        turnoverCounter, self.key,
+                        turnoverCounterSize)
         encTurnoverCounter = base64.b64encode(encTurnoverCounter)
         encTurnoverCounter = encTurnoverCounter.decode("utf-8")
         if 'encTurnoverCounter' not in override:
@@ -175,14 +178,17 @@ class CashRegister(CashRegisterI):
         prefix = override.get('algorithmPrefix', prefix)
         jwsString = sigSystem.sign(rec.toPayloadString(prefix),
                 algorithm)
-        self.lastReceiptSig = jwsString
-        
+
         header, payload, signature = jwsString.split('.')
         header = base64.urlsafe_b64decode(
                 utils.restoreb64padding(header).encode('utf-8')
                 ).decode('utf-8')
         rec.sign(header, signature)
 
+        self.turnoverCounter = turnoverCounter
+        self.turnoverCounterSize = turnoverCounterSize
+        self.lastReceiptSig = jwsString
+
         if 'header' in override:
             rec.header = override['header']
         if 'signature' in override:
-- 
2.43.0


From ce988c28e14b3148f751c503a94436307d430e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:22 +0000
Subject: [PATCH 13/44] fix: import getBasicCodeFromURL in
 verification_state.py

The 'url' input format raised a NameError.
---
 verification_state.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verification_state.py b/verification_state.py
index edd509f..3e959e5 100755
--- a/verification_state.py
+++ b/verification_state.py
@@ -32,6 +32,7 @@ gettext.install('rktool', './lang', True)
 from librksv import depparser
 from librksv import utils
 from librksv.receipt import Receipt
+from librksv.url_receipt_helpers import getBasicCodeFromURL
 from librksv.verification_state import (CashRegisterState, ClusterState,
         DEFAULT_USED_RECEIPT_IDS_BACKEND)
 
-- 
2.43.0


From e73e0a4cce262b0c3e78a95caa5e3a8937703554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:22 +0000
Subject: [PATCH 14/44] fix: only treat ASCII digits as numbers in natural
 receipt IDs

Receipt IDs with other Unicode digits raised a ValueError or TypeError.
---
 librksv/verification_state.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/librksv/verification_state.py b/librksv/verification_state.py
index 4c9079a..76ef004 100644
--- a/librksv/verification_state.py
+++ b/librksv/verification_state.py
@@ -228,7 +228,10 @@ class UsedReceiptIdsSortedNatural(UsedReceiptIdsBackend):
     # https://blog.codinghorror.com/sorting-for-humans-natural-sort-order/
     @staticmethod
     def _key(recId):
-        convert = lambda text: int(text) if text.isdigit() else text.lower()
+        # Only convert what _numSplitRegex considers a number, isdigit() also
+        # accepts other digits (which int() may not).
+        convert = lambda text: (int(text) if _numSplitRegex.match(text)
+                else text.lower())
         return [ convert(c) for c in _numSplitRegex.split(recId) ]
 
     def __init__(self):
-- 
2.43.0


From 53d841091a9e97817619093706ea77e752081c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:22 +0000
Subject: [PATCH 15/44] fix: report DEP files that can not be decoded as DEP
 errors

The incremental parsers let a UnicodeDecodeError escape for text files that
are not valid UTF-8 and FullFileDEPParser a RecursionError for JSON that is
nested too deeply.
---
 librksv/depparser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/librksv/depparser.py b/librksv/depparser.py
index 983c63a..445b11f 100644
--- a/librksv/depparser.py
+++ b/librksv/depparser.py
@@ -472,7 +472,7 @@ class IncrementalDEPParser(DEPParserI):
                 yield last
             elif not got_something:
                 raise MalformedDEPException(_('No receipts found'))
-        except ijson.JSONError as e:
+        except (ijson.JSONError, UnicodeDecodeError) as e:
             raise DEPParseException(_('Malformed JSON: {}.').format(e))
 
 
@@ -706,7 +706,7 @@ class FullFileDEPParser(DEPParserI):
         if not self.dictParser:
             try:
                 dep = utils.readJsonStream(self.fd)
-            except (IOError, UnicodeDecodeError, ValueError) as e:
+            except (IOError, UnicodeDecodeError, ValueError, RuntimeError) as e:
                 raise DEPParseException(_('Malformed JSON: {}.').format(e))
             self.dictParser = DictDEPParser(dep, self.nparts)
 
-- 
2.43.0


From 55feccdda180fc8bc8809b0ad70dd0cd35d08292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:22 +0000
Subject: [PATCH 16/44] fix: allow a map under an empty key in the DEP root

The incremental parsers mistook its end for the end of the DEP.
---
 librksv/depparser.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/librksv/depparser.py b/librksv/depparser.py
index 445b11f..d8bb97a 100644
--- a/librksv/depparser.py
+++ b/librksv/depparser.py
@@ -225,8 +225,17 @@ class DEPStateRootMap(DEPStateWithData):
     def __init__(self, chunksize, upper):
         super(DEPStateRootMap, self).__init__(chunksize, upper)
         self.groups_seen = False
+        self.depth = 0
 
     def parse(self, prefix, event, value):
+        # A map stored under the empty key has the same prefix as the root.
+        if prefix == '' and event == 'start_map':
+            self.depth += 1
+            return self
+        if prefix == '' and event == 'end_map' and self.depth > 0:
+            self.depth -= 1
+            return self
+
         if prefix == '' and event == 'end_map':
             if not self.groups_seen:
                 raise MissingDEPElementException('Belege-Gruppe')
-- 
2.43.0


From 9a854d910749f30a683e22cfaa6b9a1d654c6461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:13 +0000
Subject: [PATCH 17/44] fix: report undecodable DEP files as DEP errors when
 looking for a BOM

Skipping the BOM already decodes the start of a text file.
---
 librksv/depparser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/librksv/depparser.py b/librksv/depparser.py
index d8bb97a..bc5116f 100644
--- a/librksv/depparser.py
+++ b/librksv/depparser.py
@@ -426,7 +426,10 @@ class IncrementalDEPParser(DEPParserI):
 
     def __init__(self, fd):
         # skipBOM checks if we can seek, so no harm in doing it to a non-file
-        self.startpos = utils.skipBOM(fd)
+        try:
+            self.startpos = utils.skipBOM(fd)
+        except UnicodeDecodeError as e:
+            raise DEPParseException(_('Malformed JSON: {}.').format(e))
         self.fd = fd
 
     @staticmethod
-- 
2.43.0


From 7608cc46364f91b87cc02651475cdd0b4a766e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:13 +0000
Subject: [PATCH 18/44] fix: reject receipts that can not be encoded as UTF-8

Lone surrogates raised a UnicodeEncodeError instead of a
MalformedReceiptException.
---
 librksv/receipt.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/librksv/receipt.py b/librksv/receipt.py
index 830ffc7..e356138 100644
--- a/librksv/receipt.py
+++ b/librksv/receipt.py
@@ -181,6 +181,13 @@ def _getTimestamp(dateTime, receiptId, reason):
         raise MalformedReceiptException(receiptId, reason)
     return dateTimeDT
 
+def _raiseForEncoding(s, reason):
+    # Strings may contain lone surrogates, e.g. from the command line or JSON.
+    try:
+        s.encode('utf-8')
+    except UnicodeEncodeError:
+        raise MalformedReceiptException(s, reason)
+
 def _getEmptyOrB64(b, receiptId, reason):
     if not isinstance(b, string_types):
         raise MalformedReceiptException(receiptId, reason)
@@ -314,6 +321,7 @@ class Receipt(object):
         """
         if not isinstance(jwsString, string_types):
             raise MalformedReceiptException(jwsString, _('Invalid JWS.'))
+        _raiseForEncoding(jwsString, _('Invalid JWS.'))
 
         jwsSegs = jwsString.split('.')
         if len(jwsSegs) != 3:
@@ -452,6 +460,7 @@ class Receipt(object):
         if not isinstance(basicCode, string_types):
             raise MalformedReceiptException(basicCode,
                     _('Invalid machine-readable code.'))
+        _raiseForEncoding(basicCode, _('Invalid machine-readable code.'))
 
         segments = basicCode.split('_')
         if len(segments) != 14 or len(segments[0]) != 0:
@@ -544,6 +553,7 @@ class Receipt(object):
         if not isinstance(ocrCode, string_types):
             raise MalformedReceiptException(ocrCode,
                     _('Invalid OCR code.'))
+        _raiseForEncoding(ocrCode, _('Invalid OCR code.'))
 
         segments = ocrCode.split('_')
         if len(segments) != 14 or len(segments[0]) != 0:
-- 
2.43.0


From 1bc9bf6245bedf6c576e7a7ce8d09d64a1e1095b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:02 +0000
Subject: [PATCH 19/44] fix: make InvalidKeyException picklable

An InvalidKeyException raised in a worker process could not be unpickled,
which makes multiprocessing.Pool hang.
---
 librksv/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/librksv/utils.py b/librksv/utils.py
index f205052..c3fabd5 100644
--- a/librksv/utils.py
+++ b/librksv/utils.py
@@ -68,6 +68,7 @@ class InvalidKeyException(RKSVException):
 
     def __init__(self):
         super(InvalidKeyException, self).__init__(_("Invalid key."))
+        self._initargs = ()
 
 def depParserChunkSize():
     """
-- 
2.43.0


From 269368910babd08eb3c3ef50157675a4b41569a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:02 +0000
Subject: [PATCH 20/44] fix: treat certificate signatures without a hash
 algorithm as invalid

verifyCert() raised a TypeError for certificates signed with e.g. Ed25519
although all signatures but ECDSA and RSA are supposed to fail.
---
 librksv/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/librksv/utils.py b/librksv/utils.py
index c3fabd5..686c876 100644
--- a/librksv/utils.py
+++ b/librksv/utils.py
@@ -209,6 +209,10 @@ def verifyCert(cert, signCert):
     sig = cert.signature
     data = cert.tbs_certificate_bytes
 
+    # The signature algorithm does not use a separate hash (e.g. Ed25519).
+    if halg is None:
+        return False
+
     pubKey = signCert.public_key()
     alg = None
     # We only support ECDSA and RSA+PKCS1
-- 
2.43.0


From 7753a0e2826fe11ff2926bac33fa0f00ef7ed7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:02 +0000
Subject: [PATCH 21/44] fix: make key stores with other than EC keys picklable

A DEP without certificates could not be verified by multiple processes if
the key store contained an RSA certificate or public key.
---
 librksv/key_store.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/librksv/key_store.py b/librksv/key_store.py
index c43f1db..ee69d7c 100644
--- a/librksv/key_store.py
+++ b/librksv/key_store.py
@@ -256,6 +256,17 @@ class KeyTuple(object):
         self.key = key
         self.cert = cert
 
+    # Not all types of key objects can be pickled, their PEM form always can.
+    def __getstate__(self):
+        return (self.keyId, utils.exportKeyToPEM(self.key),
+                utils.exportCertToPEM(self.cert) if self.cert else None)
+
+    def __setstate__(self, state):
+        self.keyId, key, cert = state
+        self.key = utils.loadPubKey(utils.addPEMPubKeyHeaders(key))
+        self.cert = (utils.loadCert(utils.addPEMCertHeaders(cert))
+                if cert else None)
+
 class KeyStore(KeyStoreI):
     """
     A basic implementation of a key store. It allows writing the store to and
-- 
2.43.0


From 6746963b2ed328dc3945482a6aed749edcd2bd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:12 +0000
Subject: [PATCH 22/44] fix: reject ES256 signatures checked with a key on
 another curve

---
 librksv/algorithms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/librksv/algorithms.py b/librksv/algorithms.py
index 32311b1..fdd6936 100644
--- a/librksv/algorithms.py
+++ b/librksv/algorithms.py
@@ -187,9 +187,11 @@ class R1(AlgorithmI):
         return sig
 
     def verify(self, jwsString, pubKey):
-        # ES256 signatures can only be verified with an EC key.
+        # ES256 signatures can only be verified with a P-256 EC key.
         if not isinstance(pubKey, ec.EllipticCurvePublicKey):
             return False
+        if not isinstance(pubKey.curve, ec.SECP256R1):
+            return False
 
         payload = None
         try:
-- 
2.43.0


From 4d4e742c0dc5d6a0fee7cf2714f9ffe5f66152b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:08 +0000
Subject: [PATCH 23/44] fix: report certificates and keys of an unsupported
 kind as ValueError

---
 librksv/utils.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/librksv/utils.py b/librksv/utils.py
index 686c876..173f64d 100644
--- a/librksv/utils.py
+++ b/librksv/utils.py
@@ -41,7 +41,7 @@ from cryptography.hazmat.primitives.asymmetric import ec, rsa, padding
 from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
 from cryptography.hazmat.primitives.serialization import load_pem_private_key, load_pem_public_key, Encoding, PublicFormat
 from cryptography.hazmat.primitives import hashes
-from cryptography.exceptions import InvalidSignature
+from cryptography.exceptions import InvalidSignature, UnsupportedAlgorithm
 from cryptography.x509.oid import NameOID
 
 class RKSVException(Exception):
@@ -132,16 +132,24 @@ def loadCert(pem):
     Creates a cryptography certificate object from the given PEM certificate.
     :param pem: A certificate as a PEM string.
     :return: A cryptography certificate object.
+    :throws: ValueError if the certificate can not be loaded.
     """
-    return x509.load_pem_x509_certificate(pem.encode("utf-8"), default_backend())
+    try:
+        return x509.load_pem_x509_certificate(pem.encode("utf-8"), default_backend())
+    except x509.InvalidVersion as e:
+        raise ValueError(str(e))
 
 def loadPubKey(pem):
     """
     Creates a cryptography public key object from the given PEM public key.
     :param pem: A public key as a PEM string.
     :return: A cryptography public key object.
+    :throws: ValueError if the key can not be loaded.
     """
-    return load_pem_public_key(pem.encode("utf-8"), default_backend())
+    try:
+        return load_pem_public_key(pem.encode("utf-8"), default_backend())
+    except (UnsupportedAlgorithm, NotImplementedError) as e:
+        raise ValueError(str(e))
 
 def loadPrivKey(pem):
     """
-- 
2.43.0


From 4ca707da80bc7093d95e798f3a754163f6fca4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:08 +0000
Subject: [PATCH 24/44] fix: reject key store certificates with an unusable
 public key

---
 librksv/key_store.py |  5 ++++-
 librksv/utils.py     | 12 ++++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/librksv/key_store.py b/librksv/key_store.py
index ee69d7c..5f94b9d 100644
--- a/librksv/key_store.py
+++ b/librksv/key_store.py
@@ -225,7 +225,10 @@ def parseKeyStoreCert(cert_str, kid):
         raise MalformedCertificateException(kid)
 
     try:
-        return utils.loadCert(utils.addPEMCertHeaders(cert_str))
+        cert = utils.loadCert(utils.addPEMCertHeaders(cert_str))
+        # A certificate whose key we can't use is of no use in a key store.
+        utils.getCertPubKey(cert)
+        return cert
     except ValueError:
         raise MalformedCertificateException(kid)
 
diff --git a/librksv/utils.py b/librksv/utils.py
index 173f64d..87fabc7 100644
--- a/librksv/utils.py
+++ b/librksv/utils.py
@@ -139,6 +139,18 @@ def loadCert(pem):
     except x509.InvalidVersion as e:
         raise ValueError(str(e))
 
+def getCertPubKey(cert):
+    """
+    Gets the public key of a certificate.
+    :param cert: The certificate as a cryptography certificate object.
+    :return: A cryptography public key object.
+    :throws: ValueError if the key is malformed or of an unsupported kind.
+    """
+    try:
+        return cert.public_key()
+    except (UnsupportedAlgorithm, NotImplementedError) as e:
+        raise ValueError(str(e))
+
 def loadPubKey(pem):
     """
     Creates a cryptography public key object from the given PEM public key.
-- 
2.43.0


From 1be8df1ca0741a4d925b10226765f01fc9d58e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:08 +0000
Subject: [PATCH 25/44] fix: do not trust or crash on certificates with
 unsupported keys or hashes

---
 librksv/utils.py          |  8 ++++++--
 librksv/verify_receipt.py | 11 +++++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/librksv/utils.py b/librksv/utils.py
index 87fabc7..c41ccd7 100644
--- a/librksv/utils.py
+++ b/librksv/utils.py
@@ -225,7 +225,12 @@ def verifyCert(cert, signCert):
     :return: True if the signature is a valid ECDSA signature, False otherwise.
     """
     # FIXME: This is very likely wrong and we should find a better way to verify certs.
-    halg = cert.signature_hash_algorithm
+    try:
+        halg = cert.signature_hash_algorithm
+        pubKey = getCertPubKey(signCert)
+    except (UnsupportedAlgorithm, ValueError):
+        # We can't verify this.
+        return False
     sig = cert.signature
     data = cert.tbs_certificate_bytes
 
@@ -233,7 +238,6 @@ def verifyCert(cert, signCert):
     if halg is None:
         return False
 
-    pubKey = signCert.public_key()
     alg = None
     # We only support ECDSA and RSA+PKCS1
     if isinstance(pubKey, ec.EllipticCurvePublicKey):
diff --git a/librksv/verify_receipt.py b/librksv/verify_receipt.py
index bb6c203..b46e6bd 100644
--- a/librksv/verify_receipt.py
+++ b/librksv/verify_receipt.py
@@ -218,6 +218,13 @@ class ReceiptVerifier(ReceiptVerifierI):
         """
         return ReceiptVerifier(keyStore, None)
 
+    def _getCertPubKey(self):
+        try:
+            return utils.getCertPubKey(self.cert)
+        except ValueError:
+            # We can't verify anything with this certificate.
+            return None
+
     def verify(self, rec, algorithmPrefix):
         if algorithmPrefix not in algorithms.ALGORITHMS:
             raise receipt.UnknownAlgorithmException(rec.receiptId)
@@ -226,7 +233,7 @@ class ReceiptVerifier(ReceiptVerifierI):
         pubKey = None
         if rec.zda == 'AT0':
             if self.cert:
-                pubKey = self.cert.public_key()
+                pubKey = self._getCertPubKey()
             else:
                 pubKey = self.keyStore.getKey(rec.certSerial)
         else:
@@ -235,7 +242,7 @@ class ReceiptVerifier(ReceiptVerifierI):
                 certSerial = key_store.numSerialToKeyId(self.cert.serial_number)
                 if not certSerial in serials:
                     raise CertSerialMismatchException(rec.receiptId)
-                pubKey = self.cert.public_key()
+                pubKey = self._getCertPubKey()
             else:
                 for serial in serials:
                     pubKey = self.keyStore.getKey(serial)
-- 
2.43.0


From 40147c042caed277ac93811603365548e8f1c311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:22 +0000
Subject: [PATCH 26/44] fix: reject booleans as turnover counter in
 verification states

---
 librksv/verification_state.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/librksv/verification_state.py b/librksv/verification_state.py
index 76ef004..5f754f7 100644
--- a/librksv/verification_state.py
+++ b/librksv/verification_state.py
@@ -345,7 +345,9 @@ class CashRegisterState(object):
                     _('not a string'), regidx)
 
         ret.lastTurnoverCounter = d['lastTurnoverCounter']
-        if not isinstance(ret.lastTurnoverCounter, int):
+        # bool is a subclass of int
+        if not isinstance(ret.lastTurnoverCounter, int) or isinstance(
+                ret.lastTurnoverCounter, bool):
             raise MalformedStateElementException('lastTurnoverCounter',
                     _('not an integer'), regidx)
 
-- 
2.43.0


From e962b79b607023096b835f71860fb1cc841b484e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:26 +0000
Subject: [PATCH 27/44] fix: make the scripts run on Python 3.11 and later

gettext.install() no longer takes a third argument there.
---
 cert_extract.py           |  4 ++--
 convert.py                |  4 ++--
 demo.py                   |  4 ++--
 img_decode.py             |  4 ++--
 key_store.py              |  4 ++--
 librksv/gettext_helper.py | 11 +++++++++++
 merge.py                  |  4 ++--
 receipt.py                |  4 ++--
 receipt_host.py           |  4 ++--
 rktool.py                 |  4 ++--
 split.py                  |  4 ++--
 verification_state.py     |  4 ++--
 verify.py                 |  4 ++--
 verify_receipt.py         |  4 ++--
 14 files changed, 37 insertions(+), 26 deletions(-)

diff --git a/cert_extract.py b/cert_extract.py
index cc71ad6..9519cc2 100755
--- a/cert_extract.py
+++ b/cert_extract.py
@@ -20,8 +20,8 @@
 from builtins import int
 from builtins import range
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 import os
 import sys
diff --git a/convert.py b/convert.py
index 81263d8..3a100dd 100755
--- a/convert.py
+++ b/convert.py
@@ -21,8 +21,8 @@ from __future__ import print_function
 from builtins import int
 from builtins import range
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 import sys
 
diff --git a/demo.py b/demo.py
index d56d710..ec88121 100755
--- a/demo.py
+++ b/demo.py
@@ -21,8 +21,8 @@ from __future__ import print_function
 from builtins import int
 from builtins import range
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 import datetime
 import random
diff --git a/img_decode.py b/img_decode.py
index 8662b35..ccaa851 100755
--- a/img_decode.py
+++ b/img_decode.py
@@ -70,8 +70,8 @@ except ImportError:
         return syms
 
 if __name__ == "__main__":
-    import gettext
-    gettext.install('rktool', './lang', True)
+    from librksv import gettext_helper
+    gettext_helper.install()
 
     import sys
     from PIL import Image
diff --git a/key_store.py b/key_store.py
index 5ad9762..9a9bf3a 100755
--- a/key_store.py
+++ b/key_store.py
@@ -24,8 +24,8 @@ import configparser
 import json
 import sys
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv import utils
 from librksv.key_store import KeyStore
diff --git a/librksv/gettext_helper.py b/librksv/gettext_helper.py
index 851f95d..e37d379 100644
--- a/librksv/gettext_helper.py
+++ b/librksv/gettext_helper.py
@@ -22,3 +22,14 @@ import six
 # We always want text to be unicode encoded.
 _gt = gettext.translation('rktool', './lang', fallback=True)
 _ = _gt.ugettext if six.PY2 else _gt.gettext
+
+def install():
+    """
+    Makes the _() function available to the calling script.
+    """
+    # Python 3 never returns anything but unicode and no longer accepts a
+    # third argument.
+    if six.PY2:
+        gettext.install('rktool', './lang', True)
+    else:
+        gettext.install('rktool', './lang')
diff --git a/merge.py b/merge.py
index 80e6ff4..3b28d3c 100755
--- a/merge.py
+++ b/merge.py
@@ -22,8 +22,8 @@ from builtins import int
 
 import sys
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv import depexport
 from librksv import depparser
diff --git a/receipt.py b/receipt.py
index ada49d9..0e68de2 100755
--- a/receipt.py
+++ b/receipt.py
@@ -21,8 +21,8 @@ from builtins import int
 
 import sys
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv.receipt import Receipt
 from librksv.url_receipt_helpers import getBasicCodeFromURL
diff --git a/receipt_host.py b/receipt_host.py
index 6e4077c..a2bb3dd 100755
--- a/receipt_host.py
+++ b/receipt_host.py
@@ -24,8 +24,8 @@ import sys
 
 from flask import Flask, abort, jsonify, make_response
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv import depparser
 from librksv import receipt
diff --git a/rktool.py b/rktool.py
index 6fa1884..5c36e86 100755
--- a/rktool.py
+++ b/rktool.py
@@ -1040,8 +1040,8 @@ class RKToolApp(App):
         return sm
 
 if __name__ == '__main__':
-    import gettext
-    gettext.install('rktool', './lang', True)
+    from librksv import gettext_helper
+    gettext_helper.install()
 
     if platform != 'android':
         from kivy.config import Config
diff --git a/split.py b/split.py
index 40174d7..2d0dfe4 100755
--- a/split.py
+++ b/split.py
@@ -22,8 +22,8 @@ from builtins import int
 import os
 import sys
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv import depexport
 from librksv import depparser
diff --git a/verification_state.py b/verification_state.py
index 3e959e5..3aa0c6b 100755
--- a/verification_state.py
+++ b/verification_state.py
@@ -26,8 +26,8 @@ import copy
 import json
 import sys
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv import depparser
 from librksv import utils
diff --git a/verify.py b/verify.py
index dbf7ae4..b97aefb 100755
--- a/verify.py
+++ b/verify.py
@@ -24,8 +24,8 @@ from builtins import range
 import json
 import sys
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv import depparser
 from librksv import key_store
diff --git a/verify_receipt.py b/verify_receipt.py
index 03bdd76..94a8bbf 100755
--- a/verify_receipt.py
+++ b/verify_receipt.py
@@ -24,8 +24,8 @@ import sys
 
 from six import string_types
 
-import gettext
-gettext.install('rktool', './lang', True)
+from librksv import gettext_helper
+gettext_helper.install()
 
 from librksv import key_store
 from librksv import receipt
-- 
2.43.0


From 139fdd23544dab8a33d19beb671057f9a18af365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:27 +0000
Subject: [PATCH 28/44] fix: let verification workers finish instead of
 terminating them

multiprocessing.Pool.terminate() hangs if it ends a worker that holds the
lock of the result queue, as happens when verification fails while other
packages are still being verified.
---
 verify.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verify.py b/verify.py
index b97aefb..35fae46 100755
--- a/verify.py
+++ b/verify.py
@@ -135,7 +135,9 @@ if __name__ == "__main__":
                 state = verifyParsedDEP(parser, keyStore, key, state, registerIdx,
                         pool, nprocs, chunksize)
         finally:
-            pool.terminate()
+            # A worker that is terminated while it reports a result never
+            # releases the lock of the result queue and we would hang.
+            pool.close()
             pool.join()
     else:
         with open(sys.argv[2]) as f:
-- 
2.43.0


From 1a7f585ee0a9e042392cbaf6f07030b5453296b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:05 +0000
Subject: [PATCH 29/44] fix: GUI could not show any receipt of a DEP

DEP parsers deliver receipts as byte arrays.
---
 rktool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rktool.py b/rktool.py
index 5c36e86..7531c6a 100755
--- a/rktool.py
+++ b/rktool.py
@@ -600,7 +600,7 @@ class VerifyDEPWidget(BoxLayout):
     def viewReceipt(self, btn):
         try:
             recs, cert, cert_list = self.dep[btn.group_id]
-            jws = recs[btn.receipt_id]
+            jws = depparser.expandDEPReceipt(recs[btn.receipt_id])
             rec, prefix = receipt.Receipt.fromJWSString(jws)
 
             self._receipt_view = getModalView()
-- 
2.43.0


From 4a692bb9b0d95f347537f6e6a2826fd6d0b7bc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:05 +0000
Subject: [PATCH 30/44] fix: GUI kept verifying forever after an invalid AES
 key

The tasks let an InvalidKeyException escape, which never calls back.
---
 rktool.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rktool.py b/rktool.py
index 7531c6a..d43f74e 100755
--- a/rktool.py
+++ b/rktool.py
@@ -566,21 +566,21 @@ def verifyDEP_prepare_Task(dep, store, key, nprocs):
         inargs = verify.prepareVerificationTuples(pkgs, key, None, rState,
                 verification_state.UsedReceiptIdsUnique)
         return None, inargs
-    except (receipt.ReceiptException, depparser.DEPException) as e:
+    except utils.RKSVException as e:
         return e, None
 
 def verifyDEP_main_Task(args):
     try:
         rState, usedRecIds = verify.verifyGroupsWithVerifiersTuple(args)
         return None, usedRecIds
-    except (receipt.ReceiptException, depparser.DEPException) as e:
+    except utils.RKSVException as e:
         return e, None
 
 def verifyDEP_finalize_Task(outUsedRecIds, usedRecIds):
     try:
         usedRecIds.merge(outUsedRecIds)
         return None, usedRecIds
-    except (receipt.ReceiptException, depparser.DEPException) as e:
+    except utils.RKSVException as e:
         return e, None
 
 # TODO: add a visual way to determine where an error happened?
-- 
2.43.0


From d30272eb828990973b2e759e090c82efe5014357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:05 +0000
Subject: [PATCH 31/44] fix: GUI took the result of an aborted verification for
 that of the next

Also handle all results in the main thread.
---
 rktool.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/rktool.py b/rktool.py
index d43f74e..41fc2cc 100755
--- a/rktool.py
+++ b/rktool.py
@@ -26,6 +26,8 @@ kivy.require('1.9.0')
 import os
 import json
 
+from functools import partial
+
 from requests.exceptions import RequestException
 from PIL import Image
 
@@ -692,17 +694,19 @@ class VerifyDEPWidget(BoxLayout):
             displayError(e)
             return
 
-        self._verifying = True
+        # Identifies this attempt. The results of an attempt that was aborted
+        # may still be queued when the next one is already running.
+        self._verifying = attempt = object()
         self.verify_button.text = _('Verifying...')
 
         App.get_running_app().pool.apply_async(verifyDEP_prepare_Task,
                 (self.dep, App.get_running_app().keyStore, key,
                     App.get_running_app().nprocs),
-                callback = self.verifyDEP_prepare_Cb)
+                callback = partial(self.verifyDEP_prepare_Cb, attempt))
 
     @mainthread
-    def verifyDEP_prepare_Cb(self, result):
-        if not self._verifying:
+    def verifyDEP_prepare_Cb(self, attempt, result):
+        if self._verifying is not attempt:
             return
 
         if result[0]:
@@ -712,10 +716,11 @@ class VerifyDEPWidget(BoxLayout):
 
         else:
             App.get_running_app().pool.map_async(verifyDEP_main_Task,
-                    result[1], callback = self.verifyDEP_main_Cb)
+                    result[1], callback = partial(self.verifyDEP_main_Cb, attempt))
 
-    def verifyDEP_main_Cb(self, result):
-        if not self._verifying:
+    @mainthread
+    def verifyDEP_main_Cb(self, attempt, result):
+        if self._verifying is not attempt:
             return
 
         outUsedRecIds = list()
@@ -729,11 +734,11 @@ class VerifyDEPWidget(BoxLayout):
 
         App.get_running_app().pool.apply_async(verifyDEP_finalize_Task,
                 (outUsedRecIds, verification_state.UsedReceiptIdsUnique()),
-                callback = self.verifyDEP_finalize_Cb)
+                callback = partial(self.verifyDEP_finalize_Cb, attempt))
 
     @mainthread
-    def verifyDEP_finalize_Cb(self, result):
-        if not self._verifying:
+    def verifyDEP_finalize_Cb(self, attempt, result):
+        if self._verifying is not attempt:
             return
 
         self._verifying = False
-- 
2.43.0


From 1fa5e9168d71b46ca71fb9d111fd8ee5fba2b6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:49 +0000
Subject: [PATCH 32/44] fix: malformed AES key containers crashed the GUI

---
 rktool.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rktool.py b/rktool.py
index 41fc2cc..6227862 100755
--- a/rktool.py
+++ b/rktool.py
@@ -392,9 +392,9 @@ class ViewReceiptWidget(BoxLayout):
                     key = f.read()
 
             App.get_running_app().curSearchPath = path
-        except (IOError, UnicodeDecodeError, ValueError) as e:
+        except (IOError, UnicodeDecodeError, ValueError, RuntimeError) as e:
             displayError(e)
-        except KeyError:
+        except (KeyError, TypeError, AttributeError):
             displayError(_("No AES key in crypto container"))
 
         self.dismissPopup()
@@ -806,9 +806,9 @@ class VerifyDEPWidget(BoxLayout):
                     self.aesInput.text = f.read()
 
             App.get_running_app().curSearchPath = path
-        except (IOError, UnicodeDecodeError, ValueError) as e:
+        except (IOError, UnicodeDecodeError, ValueError, RuntimeError) as e:
             displayError(e)
-        except KeyError:
+        except (KeyError, TypeError, AttributeError):
             displayError(_("No AES key in crypto container"))
 
         self.dismissPopup()
-- 
2.43.0


From 1593bd8b417ae7e1ba804218f8ad14e132232d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:49 +0000
Subject: [PATCH 33/44] fix: malformed key stores crashed the GUI

And the handler of any error failed itself, configparser is not imported.
---
 rktool.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rktool.py b/rktool.py
index 6227862..1833248 100755
--- a/rktool.py
+++ b/rktool.py
@@ -947,11 +947,9 @@ class KeyStoreWidget(BoxLayout):
                         key_store.KeyStore.readStoreFromJson(jsonKS)
 
             App.get_running_app().curSearchPath = path
-        except (IOError, UnicodeDecodeError, ValueError,
-                configparser.Error) as e:
+        except (IOError, UnicodeDecodeError, ValueError, RuntimeError,
+                key_store.KeyStoreException) as e:
             displayError(e)
-        except KeyError:
-            displayError(_("Malformed crypto container"))
 
         self.dismissPopup()
         self.buildKSTree()
-- 
2.43.0


From e1ba1e311f7ea2743333bfbcd78f1c6892fa2384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:01 +0000
Subject: [PATCH 34/44] fix: trusting a certificate with an unsupported key
 crashed the GUI

---
 librksv/key_store.py | 2 +-
 rktool.py            | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/librksv/key_store.py b/librksv/key_store.py
index 5f94b9d..fa207fe 100644
--- a/librksv/key_store.py
+++ b/librksv/key_store.py
@@ -311,7 +311,7 @@ class KeyStore(KeyStoreI):
 
     def putPEMCert(self, pemCert):
         cert = utils.loadCert(pemCert)
-        pubKey = cert.public_key()
+        pubKey = utils.getCertPubKey(cert)
         serial = numSerialToKeyId(cert.serial_number)
 
         self.keydict[serial] = KeyTuple(serial, pubKey, cert)
diff --git a/rktool.py b/rktool.py
index 1833248..c32c655 100755
--- a/rktool.py
+++ b/rktool.py
@@ -595,7 +595,12 @@ class VerifyDEPWidget(BoxLayout):
     _verified = False
 
     def addCert(self, btn):
-        pubKey = btn.key.public_key()
+        try:
+            pubKey = utils.getCertPubKey(btn.key)
+        except ValueError as e:
+            displayError(e)
+            return
+
         App.get_running_app().keyStore.putKey(btn.key_id, pubKey, btn.key)
         App.get_running_app().updateKSWidget()
 
-- 
2.43.0


From b4552d39224141e2a531f3628445f6c1abdf4119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:01 +0000
Subject: [PATCH 35/44] fix: answers without a receipt crashed the GUI

Report them as failed requests, as all other answers that do not contain
the receipt.
---
 librksv/url_receipt_helpers.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/librksv/url_receipt_helpers.py b/librksv/url_receipt_helpers.py
index 61547e3..4746557 100644
--- a/librksv/url_receipt_helpers.py
+++ b/librksv/url_receipt_helpers.py
@@ -18,6 +18,10 @@
 import re
 import requests
 
+from six import string_types
+
+from .gettext_helper import _
+
 from . import verify_receipt
 
 def getBasicCodeFromURL(url):
@@ -29,7 +33,14 @@ def getBasicCodeFromURL(url):
     """
     r = requests.get(url)
     r.raise_for_status()
-    return r.json()['code']
+    try:
+        code = r.json()['code']
+    except (ValueError, KeyError, TypeError):
+        code = None
+    if not isinstance(code, string_types):
+        raise requests.exceptions.RequestException(
+                _('No receipt found at \"{}\".').format(url))
+    return code
 
 urlHashRegex = re.compile(
         r'(?<![A-Za-z0-9_-])[A-Za-z0-9_-]{11}(?![A-Za-z0-9_-])')
-- 
2.43.0


From 0d0409c0c81e1045f822c7ef63d5a089923bd5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:57 +0000
Subject: [PATCH 36/44] fix: damaged images crashed the GUI

Pillow raises ValueError, SyntaxError, DecompressionBombError and others
for files it takes for an image but cannot decode.
---
 rktool.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rktool.py b/rktool.py
index c32c655..45ba2a6 100755
--- a/rktool.py
+++ b/rktool.py
@@ -516,6 +516,9 @@ class VerifyReceiptWidget(BoxLayout):
                     self.receiptInput.text = f.read().strip()
             except (IOError, UnicodeDecodeError) as e:
                 displayError(e)
+        except Exception as e:
+            # Damaged images make PIL raise almost anything.
+            displayError(e)
 
         self.dismissPopup()
 
-- 
2.43.0


From 461e6c4621a5ce882c9b1f7d85eb184152e00eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:57 +0000
Subject: [PATCH 37/44] fix: URLs with malformed addresses crashed the GUI

requests lets the ValueError of urlparse through for schemes it does not
know.
---
 rktool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rktool.py b/rktool.py
index 45ba2a6..8432c38 100755
--- a/rktool.py
+++ b/rktool.py
@@ -560,7 +560,7 @@ class VerifyReceiptWidget(BoxLayout):
             self._popup = getModalView()
             self._popup.add_widget(content)
             self._popup.open()
-        except (receipt.ReceiptException, RequestException) as e:
+        except (receipt.ReceiptException, RequestException, ValueError) as e:
             displayError(e)
 
 def verifyDEP_prepare_Task(dep, store, key, nprocs):
-- 
2.43.0


From 3a60d30bd962fe31d822f6a30dbd1ccf1a3d92fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:26 +0000
Subject: [PATCH 38/44] fix: deeply nested answers of a receipt service ended
 in a RecursionError

---
 librksv/url_receipt_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librksv/url_receipt_helpers.py b/librksv/url_receipt_helpers.py
index 4746557..a128e26 100644
--- a/librksv/url_receipt_helpers.py
+++ b/librksv/url_receipt_helpers.py
@@ -35,7 +35,7 @@ def getBasicCodeFromURL(url):
     r.raise_for_status()
     try:
         code = r.json()['code']
-    except (ValueError, KeyError, TypeError):
+    except (ValueError, KeyError, TypeError, RuntimeError):
         code = None
     if not isinstance(code, string_types):
         raise requests.exceptions.RequestException(
-- 
2.43.0


From 7fcc7b6b7f91a21cc0d35126a7cebccacb3b0fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:26 +0000
Subject: [PATCH 39/44] fix: GUI dropped the leading zeros of early years

---
 rktool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rktool.py b/rktool.py
index 8432c38..af789cf 100755
--- a/rktool.py
+++ b/rktool.py
@@ -331,7 +331,7 @@ class ViewReceiptWidget(BoxLayout):
         maps =  { 1: ( _('ZDA ID'), algorithmPrefix + '-' + receipt.zda )
                 , 2: ( _('Cash Register ID'), receipt.registerId )
                 , 3: ( _('Receipt ID'), receipt.receiptId )
-                , 4: ( _('Timestamp'), receipt.dateTime.strftime("%Y-%m-%dT%H:%M:%S") )
+                , 4: ( _('Timestamp'), receipt.dateTimeStr )
                 , 5: ( _('Sum Tax Normal'), str(receipt.sumA) )
                 , 6: ( _('Sum Tax Reduced 1'), str(receipt.sumB) )
                 , 7: ( _('Sum Tax Reduced 2'), str(receipt.sumC) )
-- 
2.43.0


From 05c62d581bd2642b545686b3440fd91fdf681ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:39 +0000
Subject: [PATCH 40/44] fix: name the group in errors about malformed DEP
 elements

The group index was passed as the detail of the error and shown as such.
---
 librksv/depparser.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/librksv/depparser.py b/librksv/depparser.py
index bc5116f..121c520 100644
--- a/librksv/depparser.py
+++ b/librksv/depparser.py
@@ -328,7 +328,8 @@ class DEPStateCertList(DEPStateWithIncompleteData):
             self.wip.cert_chain.append(parseDEPCert(value))
             return self
 
-        raise MalformedDEPElementException('Zertifizierungsstellen', self.idx)
+        raise MalformedDEPElementException('Zertifizierungsstellen',
+                groupidx=self.idx)
 
 class DEPStateReceiptList(DEPStateWithIncompleteData):
     def parse(self, prefix, event, value):
@@ -340,7 +341,8 @@ class DEPStateReceiptList(DEPStateWithIncompleteData):
             self.wip.recs.append(shrinkDEPReceipt(value))
             return self
 
-        raise MalformedDEPElementException('Belege-kompakt', self.idx)
+        raise MalformedDEPElementException('Belege-kompakt',
+                groupidx=self.idx)
 
 def shrinkDEPReceipt(rec, idx = None):
     """
@@ -357,7 +359,8 @@ def shrinkDEPReceipt(rec, idx = None):
         if idx is None:
             raise MalformedDEPElementException(_('Receipt \"{}\"').format(rec))
         else:
-            raise MalformedDEPElementException(_('Receipt \"{}\"').format(rec), idx)
+            raise MalformedDEPElementException(_('Receipt \"{}\"').format(rec),
+                    groupidx=idx)
 
 def expandDEPReceipt(rec, idx = None):
     """
@@ -373,7 +376,8 @@ def expandDEPReceipt(rec, idx = None):
         if idx is None:
             raise MalformedDEPElementException(_('Receipt \"{}\"').format(rec))
         else:
-            raise MalformedDEPElementException(_('Receipt \"{}\"').format(rec), idx)
+            raise MalformedDEPElementException(_('Receipt \"{}\"').format(rec),
+                    groupidx=idx)
 
 def parseDEPCert(cert_str):
     """
@@ -615,7 +619,7 @@ class DictDEPParser(DEPParserI):
 
     def _parseDEPGroup(self, group, idx):
         if not isinstance(group, dict):
-            raise MalformedDEPElementException('Belege-Gruppe', idx)
+            raise MalformedDEPElementException('Belege-Gruppe', groupidx=idx)
 
         if 'Belege-kompakt' not in group:
             raise MissingDEPElementException('Belege-kompakt', idx)
-- 
2.43.0


From 58966a43f1d95404af0bbb7f00b58e7761911c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:45 +0000
Subject: [PATCH 41/44] fix: do not rewrite the state file when only showing it

---
 verification_state.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verification_state.py b/verification_state.py
index 3aa0c6b..8e0d906 100755
--- a/verification_state.py
+++ b/verification_state.py
@@ -118,6 +118,7 @@ if __name__ == "__main__":
         state = load_state(filename)
 
         printClusterState(state)
+        sys.exit(0)
 
     elif sys.argv[2] == 'addCashRegister':
         if len(sys.argv) != 3:
-- 
2.43.0


From 7257126a0d8ba39d4a92efae33c255299971bad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:10 +0000
Subject: [PATCH 42/44] fix: refuse a certificate serial with an underscore
 when making a receipt

---
 librksv/receipt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librksv/receipt.py b/librksv/receipt.py
index e356138..e32b6a5 100644
--- a/librksv/receipt.py
+++ b/librksv/receipt.py
@@ -266,7 +266,7 @@ class Receipt(object):
                 _('Chaining value \"{}\" invalid.').format(previousChain))
 
         if not isinstance(certSerial, string_types) \
-                or not certSerial:
+                or not certSerial or '_' in certSerial:
             raise MalformedReceiptException(receiptId,
                     _('Certificate serial/Key ID \"{}\" invalid.').format(
                         certSerial))
-- 
2.43.0


From d40c2f91946a7d20c45a958255f1b07e092229f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:55 +0000
Subject: [PATCH 43/44] fix: natural order of IDs crashed on numbers with over
 4300 digits

---
 librksv/verification_state.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/librksv/verification_state.py b/librksv/verification_state.py
index 5f754f7..fab6fd6 100644
--- a/librksv/verification_state.py
+++ b/librksv/verification_state.py
@@ -229,8 +229,9 @@ class UsedReceiptIdsSortedNatural(UsedReceiptIdsBackend):
     @staticmethod
     def _key(recId):
         # Only convert what _numSplitRegex considers a number, isdigit() also
-        # accepts other digits (which int() may not).
-        convert = lambda text: (int(text) if _numSplitRegex.match(text)
+        # accepts other digits. int() may refuse numbers with many digits.
+        number = lambda text: (len(text.lstrip('0')), text.lstrip('0'))
+        convert = lambda text: (number(text) if _numSplitRegex.match(text)
                 else text.lower())
         return [ convert(c) for c in _numSplitRegex.split(recId) ]
 
-- 
2.43.0


From 541320bbe552afcd6c6889d62429c18d46e8fdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:07 +0000
Subject: [PATCH 44/44] fix: a number with a huge exponent crashed the
 incremental DEP parsers

---
 librksv/depparser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/librksv/depparser.py b/librksv/depparser.py
index 121c520..9ada17c 100644
--- a/librksv/depparser.py
+++ b/librksv/depparser.py
@@ -25,6 +25,7 @@ from builtins import range
 from .gettext_helper import _
 
 import copy
+import decimal
 import ijson
 
 from math import ceil
@@ -488,7 +489,8 @@ class IncrementalDEPParser(DEPParserI):
                 yield last
             elif not got_something:
                 raise MalformedDEPException(_('No receipts found'))
-        except (ijson.JSONError, UnicodeDecodeError) as e:
+        except (ijson.JSONError, UnicodeDecodeError,
+                decimal.InvalidOperation) as e:
             raise DEPParseException(_('Malformed JSON: {}.').format(e))
 
 
-- 
2.43.0

