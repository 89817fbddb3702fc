From e11337b3a25238b114a8eebb588c0823f428f476 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 01/77] fix: text is length-prefixed with its number of UTF-8
 bytes, not characters

---
 tfchain/encoders/rivine.py | 3 ++-
 tfchain/encoders/sia.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/tfchain/encoders/rivine.py b/tfchain/encoders/rivine.py
index e7835f6..f2f496e 100644
--- a/tfchain/encoders/rivine.py
+++ b/tfchain/encoders/rivine.py
@@ -170,8 +170,9 @@ class RivineBinaryEncoder:
         @param value: the iterateble object to be rivbin-encoded as a slice
         """
         if isinstance(value, str):
+            value = value.encode('utf-8')
             self._add_slice_length(len(value))
-            self._data += value.encode('utf-8')
+            self._data += value
         elif isinstance(value, (bytes, bytearray)):
             self._add_slice_length(len(value))
             self._data += value
diff --git a/tfchain/encoders/sia.py b/tfchain/encoders/sia.py
index 5236170..0eaae5d 100644
--- a/tfchain/encoders/sia.py
+++ b/tfchain/encoders/sia.py
@@ -85,8 +85,9 @@ class SiaBinaryEncoder:
         @param value: the iterateble object to be siabin-encoded as a slice
         """
         if isinstance(value, str):
+            value = value.encode('utf-8')
             self.add_int(len(value))
-            self._data += value.encode('utf-8')
+            self._data += value
         elif isinstance(value, (bytes, bytearray)):
             self.add_int(len(value))
             self._data += value
-- 
2.43.0


From 8efcc9230e36fd4cb2de21b4587efbf1d706b477 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 02/77] fix: negative and over-precise amounts raise the
 documented currency errors instead of NameError

---
 tfchain/types/PrimitiveTypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/types/PrimitiveTypes.py b/tfchain/types/PrimitiveTypes.py
index d1e8c5b..9187291 100644
--- a/tfchain/types/PrimitiveTypes.py
+++ b/tfchain/types/PrimitiveTypes.py
@@ -220,9 +220,9 @@ class Currency(BaseDataTypeClass):
             d = Decimal(value)
             sign, _, exp = d.as_tuple()
             if exp < -9:
-                raise errors.CurrencyPrecisionOverflow(d)
+                raise tfchain.errors.CurrencyPrecisionOverflow(d)
             if sign != 0:
-                raise errors.CurrencyNegativeValue(d)
+                raise tfchain.errors.CurrencyNegativeValue(d)
             self._value = d
             return
         raise TypeError(
-- 
2.43.0


From 52de895e8ee98b9600b625b84200673753bfe6ca Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 03/77] fix: the precision of a CurrencyPrecisionOverflow can
 be read (a Decimal cannot be unpacked)

---
 tfchain/errors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/errors.py b/tfchain/errors.py
index 68ab770..dc105e3 100644
--- a/tfchain/errors.py
+++ b/tfchain/errors.py
@@ -35,7 +35,7 @@ class CurrencyPrecisionOverflow(Exception):
         """
         The precision of the value that caused the overflow.
         """
-        _, _, exp = self.value
+        _, _, exp = self.value.as_tuple()
         return abs(exp)
 
     @property
-- 
2.43.0


From 2eb1fdc981be8fde34ec512ab825c8f11b42f9dc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 04/77] fix: subtracting a Currency from a plain number keeps
 the order of the operands

---
 tfchain/types/PrimitiveTypes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tfchain/types/PrimitiveTypes.py b/tfchain/types/PrimitiveTypes.py
index 9187291..3866720 100644
--- a/tfchain/types/PrimitiveTypes.py
+++ b/tfchain/types/PrimitiveTypes.py
@@ -257,7 +257,11 @@ class Currency(BaseDataTypeClass):
         other = Currency._op_other_as_currency(other)
         value = self.value - other.value
         return Currency(value=value)
-    __rsub__ = __sub__
+
+    def __rsub__(self, other):
+        other = Currency._op_other_as_currency(other)
+        value = other.value - self.value
+        return Currency(value=value)
 
     def __isub__(self, other):
         other = Currency._op_other_as_currency(other)
-- 
2.43.0


From 1a5dbc835df88187bbd7fe54843edcb117492dd5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 05/77] fix: an absent or empty JSON amount reads as the zero
 amount instead of raising TypeError

---
 tfchain/types/PrimitiveTypes.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tfchain/types/PrimitiveTypes.py b/tfchain/types/PrimitiveTypes.py
index 3866720..3610e17 100644
--- a/tfchain/types/PrimitiveTypes.py
+++ b/tfchain/types/PrimitiveTypes.py
@@ -192,10 +192,9 @@ class Currency(BaseDataTypeClass):
         if obj is not None and not isinstance(obj, str):
             raise TypeError(
                 "currency is expected to be a string when part of a JSON object, not type {}".format(type(obj)))
-        if obj == '':
-            obj = None
         c = cls()
-        c.value = Decimal(obj) * Decimal('0.000000001')
+        if obj:
+            c.value = Decimal(obj) * Decimal('0.000000001')
         return c
 
     @property
-- 
2.43.0


From 4659f31239b73cd1b5249ee3dd7cde40fd7120c3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 06/77] fix: an amount or product with only zeros beyond the
 ninth decimal (JSON amount times 0.5) is not over-precise

---
 tfchain/types/PrimitiveTypes.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tfchain/types/PrimitiveTypes.py b/tfchain/types/PrimitiveTypes.py
index 3610e17..638aa3b 100644
--- a/tfchain/types/PrimitiveTypes.py
+++ b/tfchain/types/PrimitiveTypes.py
@@ -217,7 +217,12 @@ class Currency(BaseDataTypeClass):
                 if len(value) >= 4 and value[-3:] == 'TFT':
                     value = value[:-3].rstrip()
             d = Decimal(value)
-            sign, _, exp = d.as_tuple()
+            sign, digits, exp = d.as_tuple()
+            if exp < -9:
+                # trailing zeros do not make a value more precise
+                while exp < -9 and (not digits or digits[-1] == 0):
+                    digits, exp = digits[:-1], exp + 1
+                d = Decimal((sign, digits, exp))
             if exp < -9:
                 raise tfchain.errors.CurrencyPrecisionOverflow(d)
             if sign != 0:
-- 
2.43.0


From 87b031ae885e44a147a02af8ae9a24ba5131ec95 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 07/77] fix: the root of an empty Merkle tree is computed
 instead of raising TypeError

---
 tfchain/crypto/merkletree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/crypto/merkletree.py b/tfchain/crypto/merkletree.py
index 1cbea49..34a83e6 100644
--- a/tfchain/crypto/merkletree.py
+++ b/tfchain/crypto/merkletree.py
@@ -54,7 +54,7 @@ class Tree:
         // Root returns the Merkle root of the data that has been pushed.
         """
         if self.head is None:
-            return sum(self.hash_func, bytearray())
+            return sum_(self.hash_func, bytearray())
 
         # // The root is formed by hashing together subTrees in order from least in
         # // height to greatest in height. The taller subtree is the first subtree in
-- 
2.43.0


From a4f3715a5d45d9e5e5c6fdd9bc836e908b7771f9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:48:32 +0000
Subject: [PATCH 08/77] fix: a nil hash (and so a nil address) encodes as, and
 equals, 32 zero bytes; a nil public key encodes alike before and after JSON

---
 tfchain/types/CryptoTypes.py    |  8 ++++++--
 tfchain/types/PrimitiveTypes.py | 22 ++++++++++++++++++----
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/tfchain/types/CryptoTypes.py b/tfchain/types/CryptoTypes.py
index fd56908..cb12607 100644
--- a/tfchain/types/CryptoTypes.py
+++ b/tfchain/types/CryptoTypes.py
@@ -136,11 +136,15 @@ class PublicKey(BaseDataTypeClass):
         Encode this binary data according to the Sia Binary Encoding format.
         """
         encoder.add_array(PublicKey._pad_specifier(str(self.specifier)))
-        encoder.add_slice(self.hash.value)
+        if self.specifier == PublicKeySpecifier.NIL:
+            encoder.add_slice(b'') # a nil key has no data
+        else:
+            encoder.add_slice(self.hash.value)
 
     def rivine_binary_encode(self, encoder):
         """
         Encode this binary data according to the Rivine Binary Encoding format.
         """
         encoder.add_int8(int(self.specifier))
-        encoder.add(self.hash)
+        if self.specifier != PublicKeySpecifier.NIL: # a nil key has no data
+            encoder.add(self.hash)
diff --git a/tfchain/types/PrimitiveTypes.py b/tfchain/types/PrimitiveTypes.py
index 638aa3b..11648a2 100644
--- a/tfchain/types/PrimitiveTypes.py
+++ b/tfchain/types/PrimitiveTypes.py
@@ -167,11 +167,25 @@ class Hash(BinaryData):
             obj = None
         return cls(value=obj)
 
+    @BinaryData.value.getter
+    def value(self):
+        # a hash without a value is the nil hash
+        return self._value or bytearray(Hash.SIZE)
+
     def __str__(self):
-        s = super().__str__()
-        if not s:
-            return '0'*(Hash.SIZE*2)
-        return s
+        return self._to_str(self.value)
+
+    def sia_binary_encode(self, encoder):
+        """
+        Encode this hash according to the Sia Binary Encoding format.
+        """
+        encoder.add_array(self.value)
+
+    def rivine_binary_encode(self, encoder):
+        """
+        Encode this hash according to the Rivine Binary Encoding format.
+        """
+        encoder.add_array(self.value)
 
 
 from math import floor
-- 
2.43.0


From 6ce9eb44211e032a9c09291db6d0fa589fad2a4f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 09/77] fix: address texts with a corrupted type prefix ('+1',
 ' 1'), or nil addresses with a non-nil checksum are refused

---
 tfchain/types/ConditionTypes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tfchain/types/ConditionTypes.py b/tfchain/types/ConditionTypes.py
index 2943215..f567dbe 100644
--- a/tfchain/types/ConditionTypes.py
+++ b/tfchain/types/ConditionTypes.py
@@ -328,6 +328,10 @@ class UnlockHash(BaseDataTypeClass):
             if expected_checksum != checksum:
                 raise ValueError("unexpected checksum {}, expected {}".format(checksum, expected_checksum))
 
+        # int and bytearray.fromhex are lenient, so ensure the given text really is the text of this unlock hash
+        if str(uh) != obj.lower():
+            raise ValueError("invalid UnlockHash {}, expected {}".format(obj, str(uh)))
+
         return uh
     
     @property
-- 
2.43.0


From edfca373c8499931d10623736cc30f6fdf81bbc1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 10/77] fix: copying a 3Bot name or an IP network address no
 longer raises AttributeError

---
 tfchain/types/ThreeBot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/types/ThreeBot.py b/tfchain/types/ThreeBot.py
index 82f69e8..263c82e 100644
--- a/tfchain/types/ThreeBot.py
+++ b/tfchain/types/ThreeBot.py
@@ -172,7 +172,7 @@ class NetworkAddress(BaseDataTypeClass):
                 raise ValueError(
                     "invalid network address '{}' (type: {})".format(value, type(value)))
         elif isinstance(value, NetworkAddress):
-            self._address = value._address.copy()
+            self._address = value._address
             self._type = value._type
         else:
             raise TypeError(
@@ -255,7 +255,7 @@ class BotName(BaseDataTypeClass):
                 raise ValueError("bot name '{}' is not valid".format(value))
             self._value = value
         elif isinstance(value, BotName):
-            self._value = value._value.copy()
+            self._value = value._value
         else:
             raise TypeError(
                 "bot name cannot be assigned a value of type {}".format(type(value)))
-- 
2.43.0


From 3013fa218137c3dfe616fc01ecd49ca1313a5e79 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 11/77] fix: 3Bot names and host names with a trailing newline
 are refused

---
 tfchain/types/ThreeBot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/types/ThreeBot.py b/tfchain/types/ThreeBot.py
index 263c82e..57c8292 100644
--- a/tfchain/types/ThreeBot.py
+++ b/tfchain/types/ThreeBot.py
@@ -98,7 +98,7 @@ class NetworkAddress(BaseDataTypeClass):
             return self.value
 
     HOSTNAME_REGEXP = re.compile(
-        r'^(([a-zA-Z]{1})|([a-zA-Z]{1}[a-zA-Z]{1})|([a-zA-Z]{1}[0-9]{1})|([0-9]{1}[a-zA-Z]{1})|([a-zA-Z0-9][a-zA-Z0-9-_]{1,61}[a-zA-Z0-9]))\.([a-zA-Z]{2,6}|[a-zA-Z0-9-]{2,30}\.[a-zA-Z]{2,3})$')
+        r'^(([a-zA-Z]{1})|([a-zA-Z]{1}[a-zA-Z]{1})|([a-zA-Z]{1}[0-9]{1})|([0-9]{1}[a-zA-Z]{1})|([a-zA-Z0-9][a-zA-Z0-9-_]{1,61}[a-zA-Z0-9]))\.([a-zA-Z]{2,6}|[a-zA-Z0-9-]{2,30}\.[a-zA-Z]{2,3})\Z')
     HOSTNAME_LENGTH_MAX = 63
 
     def __init__(self, address=None, network_type=None):
@@ -212,7 +212,7 @@ NetworkAddress.Type.IPV6 = NetworkAddress.Type(2)
 
 class BotName(BaseDataTypeClass):
     REGEXP = re.compile(
-        r'^[A-Za-z]{1}[A-Za-z\-0-9]{3,61}[A-Za-z0-9]{1}(\.[A-Za-z]{1}[A-Za-z\-0-9]{3,55}[A-Za-z0-9]{1})*$')
+        r'^[A-Za-z]{1}[A-Za-z\-0-9]{3,61}[A-Za-z0-9]{1}(\.[A-Za-z]{1}[A-Za-z\-0-9]{3,55}[A-Za-z0-9]{1})*\Z')
     LENGTH_MAX = 63
 
     def __init__(self, value=None):
-- 
2.43.0


From 2a319f3b4d63df7221ee78308b0c2c52bdf024b8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:00:56 +0000
Subject: [PATCH 12/77] fix: a transaction's JSON form is real JSON (its
 version is a number), so it can be posted

---
 tfchain/types/transactions/Base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/types/transactions/Base.py b/tfchain/types/transactions/Base.py
index 01230d6..df339b7 100644
--- a/tfchain/types/transactions/Base.py
+++ b/tfchain/types/transactions/Base.py
@@ -195,7 +195,7 @@ class TransactionBaseClass(ABC):
         pass
 
     def json(self):
-        obj = {'version': self.version}
+        obj = {'version': int(self.version)}
         data = self._json_data_object()
         if data:
             obj['data'] = data
-- 
2.43.0


From 8a73f4a0ae212e01b10f7f562f4e11d267762dc8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 13/77] fix: transactions without identifier can be compared
 (undefined json_dumps) and are not all equal to each other

---
 tfchain/types/transactions/Base.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tfchain/types/transactions/Base.py b/tfchain/types/transactions/Base.py
index df339b7..42c5530 100644
--- a/tfchain/types/transactions/Base.py
+++ b/tfchain/types/transactions/Base.py
@@ -1,5 +1,4 @@
-import json
-from tfchain.internal.jsutils import blake2_string
+from tfchain.internal.jsutils import blake2_string, json_dumps
 from tfchain.encoders import encoder_rivine_get, encoder_sia_get, BaseRivineObjectEncoder, BaseSiaObjectEncoder
 from functools import reduce
 from abc import ABC, abstractmethod, abstractclassmethod
@@ -85,14 +84,19 @@ class TransactionBaseClass(ABC):
     @property
     def id(self):
         """
-        ID of this transaction.
+        ID of this transaction, empty if not (yet) known.
         """
+        if self._id is None:
+            return ''
         return str(self._id)
 
     @id.setter
     def id(self, id):
+        if id is None:
+            self._id = None
+            return
         if isinstance(id, Hash):
-            self._id = Hash(value=id.value)
+            id = id.value
         self._id = Hash(value=id)
 
     def __hash__(self):
-- 
2.43.0


From 7474f4a5659ba09640c334623b1815976ff45dd5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:01:14 +0000
Subject: [PATCH 14/77] fix: block stake output identifiers are range-checked
 against the block stake outputs, not the coin outputs

---
 tfchain/types/transactions/Base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tfchain/types/transactions/Base.py b/tfchain/types/transactions/Base.py
index 42c5530..7c83809 100644
--- a/tfchain/types/transactions/Base.py
+++ b/tfchain/types/transactions/Base.py
@@ -230,10 +230,10 @@ class TransactionBaseClass(ABC):
 
     def blockstake_outputid_new(self, index):
         """
-        Compute the ID of a Coin Output within this transaction.
+        Compute the ID of a Blockstake Output within this transaction.
         """
-        if index < 0 or index >= len(self.coin_outputs):
-            raise ValueError("coin output index is out of range")
+        if index < 0 or index >= len(self.blockstake_outputs):
+            raise ValueError("blockstake output index is out of range")
         return self._outputid_new(specifier=self._blockstake_outputid_specifier, index=index)
 
     def _outputid_new(self, specifier, index):
-- 
2.43.0


From 16258c191887881de45ba01a013ed0f12d97c2a6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 15/77] fix: block stake inputs that are unsigned, or of which
 the parent is unknown, make a transaction incomplete

---
 tfchain/types/IO.py                | 4 ++--
 tfchain/types/transactions/Base.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tfchain/types/IO.py b/tfchain/types/IO.py
index f6eb276..564685d 100644
--- a/tfchain/types/IO.py
+++ b/tfchain/types/IO.py
@@ -250,12 +250,12 @@ class BlockstakeInput(BaseDataTypeClass):
 
     @property
     def parent_output(self):
-        return self._parent_output
+        return self._parent_output or BlockstakeOutput()
 
     @parent_output.setter
     def parent_output(self, value):
         if value is None:
-            self._parent_output = BlockstakeOutput()
+            self._parent_output = None
             return
         if not isinstance(value, BlockstakeOutput):
             raise TypeError(
diff --git a/tfchain/types/transactions/Base.py b/tfchain/types/transactions/Base.py
index 7c83809..a0cd3e3 100644
--- a/tfchain/types/transactions/Base.py
+++ b/tfchain/types/transactions/Base.py
@@ -300,8 +300,8 @@ class TransactionBaseClass(ABC):
         meaning it has all the required signatures in all the required places.
         """
         return reduce(
-            (lambda r, ci: r and ci.is_fulfilled()),
-            self.coin_inputs, self._extra_is_fulfilled())
+            (lambda r, i: r and i.is_fulfilled()),
+            list(self.coin_inputs) + list(self.blockstake_inputs), self._extra_is_fulfilled())
 
     def _extra_is_fulfilled(self):
         """
-- 
2.43.0


From c2c35952014571c8b52231b4a198cca26785bbd3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 16/77] fix: inputs with an unknown parent still have an
 unknown parent after they are assigned to a transaction (was a nil output
 anyone can spend)

---
 tfchain/types/transactions/ERC20.py    | 4 ++--
 tfchain/types/transactions/Standard.py | 4 ++--
 tfchain/types/transactions/ThreeBot.py | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/tfchain/types/transactions/ERC20.py b/tfchain/types/transactions/ERC20.py
index 0a2195d..2e4cfff 100644
--- a/tfchain/types/transactions/ERC20.py
+++ b/tfchain/types/transactions/ERC20.py
@@ -66,7 +66,7 @@ class TransactionV208(TransactionBaseClass):
             return
         for ci in value:
             self.coin_input_add(ci.parentid, ci.fulfillment,
-                                parent_output=ci.parent_output)
+                                parent_output=ci._parent_output)
 
     @property
     def refund_coin_output(self):
@@ -471,7 +471,7 @@ class TransactionV210(TransactionBaseClass, SignatureCallbackBase):
             return
         for ci in value:
             self.coin_input_add(ci.parentid, ci.fulfillment,
-                                parent_output=ci.parent_output)
+                                parent_output=ci._parent_output)
 
     @property
     def refund_coin_output(self):
diff --git a/tfchain/types/transactions/Standard.py b/tfchain/types/transactions/Standard.py
index 456ce3d..11b538b 100644
--- a/tfchain/types/transactions/Standard.py
+++ b/tfchain/types/transactions/Standard.py
@@ -121,7 +121,7 @@ class TransactionV1(TransactionBaseClass):
             return
         for ci in value:
             self.coin_input_add(ci.parentid, ci.fulfillment,
-                                parent_output=ci.parent_output)
+                                parent_output=ci._parent_output)
 
     @property
     def coin_outputs(self):
@@ -163,7 +163,7 @@ class TransactionV1(TransactionBaseClass):
             return
         for bsi in value:
             self.blockstake_input_add(
-                bsi.parentid, bsi.fulfillment, parent_output=bsi.parent_output)
+                bsi.parentid, bsi.fulfillment, parent_output=bsi._parent_output)
 
     @property
     def blockstake_outputs(self):
diff --git a/tfchain/types/transactions/ThreeBot.py b/tfchain/types/transactions/ThreeBot.py
index 2fe1265..989c04d 100644
--- a/tfchain/types/transactions/ThreeBot.py
+++ b/tfchain/types/transactions/ThreeBot.py
@@ -148,7 +148,7 @@ class TransactionV144(BotTransactionBaseClass):
         if not value:
             return
         for ci in value:
-            self.coin_input_add(ci.parentid, ci.fulfillment, parent_output=ci.parent_output)
+            self.coin_input_add(ci.parentid, ci.fulfillment, parent_output=ci._parent_output)
 
     @property
     def refund_coin_output(self):
@@ -509,7 +509,7 @@ class TransactionV145(BotTransactionBaseClass):
         if not value:
             return
         for ci in value:
-            self.coin_input_add(ci.parentid, ci.fulfillment, parent_output=ci.parent_output)
+            self.coin_input_add(ci.parentid, ci.fulfillment, parent_output=ci._parent_output)
 
     @property
     def refund_coin_output(self):
@@ -954,7 +954,7 @@ class TransactionV146(BotTransactionBaseClass):
         if not value:
             return
         for ci in value:
-            self.coin_input_add(ci.parentid, ci.fulfillment, parent_output=ci.parent_output)
+            self.coin_input_add(ci.parentid, ci.fulfillment, parent_output=ci._parent_output)
 
     @property
     def refund_coin_output(self):
-- 
2.43.0


From a0666f537d03dedb87b072c18384ded47a5beedf Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:01:32 +0000
Subject: [PATCH 17/77] fix: an empty signature in a fulfillment (as read back
 from the JSON of an unsigned transaction) does not count as a signature, and
 is still requested

---
 tfchain/types/FulfillmentTypes.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/tfchain/types/FulfillmentTypes.py b/tfchain/types/FulfillmentTypes.py
index 427be76..1c90d44 100644
--- a/tfchain/types/FulfillmentTypes.py
+++ b/tfchain/types/FulfillmentTypes.py
@@ -247,7 +247,7 @@ class FulfillmentSingleSignature(FulfillmentBaseClass):
 
     @property
     def fulfilled(self):
-        return self._signature is not None
+        return len(self.signature) > 0
 
     @property
     def public_key(self):
@@ -305,7 +305,7 @@ class FulfillmentSingleSignature(FulfillmentBaseClass):
         if not isinstance(parent_condition, (ConditionNil, ConditionUnlockHash)):
             raise TypeError("parent condition of FulfillmentSingleSignature cannot be of type {}".format(type(parent_condition)))
         unlockhash = parent_condition.unlockhash
-        if str(unlockhash) == str(self.public_key.unlockhash):
+        if self.fulfilled:
             return [] # nothing to do
         # define the input_hash_new generator function,
         # used to create the input hash for creating the signature
@@ -318,7 +318,7 @@ class FulfillmentSingleSignature(FulfillmentBaseClass):
         parent_condition = parent_condition.unwrap()
         if not isinstance(parent_condition, (ConditionNil, ConditionUnlockHash)):
             raise TypeError("parent condition of FulfillmentSingleSignature cannot be of type {}".format(type(parent_condition)))
-        return self._signature is not None
+        return self.fulfilled
 
 
 class FulfillmentMultiSignature(FulfillmentBaseClass):
@@ -352,6 +352,9 @@ class FulfillmentMultiSignature(FulfillmentBaseClass):
         spk = str(public_key)
         for pair in self._pairs:
             if str(pair.public_key) == spk:
+                if len(pair.signature) == 0:
+                    pair.signature = signature # complete the yet unsigned pair
+                    return
                 raise ValueError("cannot add public_key {} as it already exists within a pair of this MultiSignature Fulfillment".format(spk))
         self._pairs.append(PublicKeySignaturePair(public_key=public_key, signature=signature))
 
@@ -381,7 +384,7 @@ class FulfillmentMultiSignature(FulfillmentBaseClass):
         if not isinstance(parent_condition, ConditionMultiSignature):
             raise TypeError("parent condition of FulfillmentMultiSignature cannot be of type {}".format(type(parent_condition)))
         requests = []
-        signed = [str(pair.public_key.unlockhash) for pair in self._pairs]
+        signed = [str(pair.public_key.unlockhash) for pair in self._pairs if len(pair.signature) > 0]
         # define the input_hash_new generator function,
         # used to create the input hash for creating the signature
         def input_hash_gen(public_key):
@@ -396,7 +399,7 @@ class FulfillmentMultiSignature(FulfillmentBaseClass):
         parent_condition = parent_condition.unwrap()
         if not isinstance(parent_condition, ConditionMultiSignature):
             raise TypeError("parent condition of FulfillmentMultiSignature cannot be of type {}".format(type(parent_condition)))
-        return len(self._pairs) >= parent_condition.required_signatures
+        return sum(1 for pair in self._pairs if len(pair.signature) > 0) >= parent_condition.required_signatures
 
 
 class PublicKeySignaturePair(BaseDataTypeClass):
@@ -569,4 +572,4 @@ class FulfillmentAtomicSwap(FulfillmentBaseClass):
     def is_fulfilled(self, parent_condition):
         if not isinstance(parent_condition, ConditionAtomicSwap):
             raise TypeError("parent condition of FulfillmentAtomicSwap cannot be of type {}".format(type(parent_condition)))
-        return self._signature is not None
+        return len(self.signature) > 0
-- 
2.43.0


From bac37d5c4277b25abb7b2cbbad108b60f9da15cd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:02:06 +0000
Subject: [PATCH 18/77] fix: an atomic swap input asks for the one missing
 signature only (receiver with, sender without secret) and never replaces a
 placed one

---
 tfchain/types/FulfillmentTypes.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/tfchain/types/FulfillmentTypes.py b/tfchain/types/FulfillmentTypes.py
index 1c90d44..6c44667 100644
--- a/tfchain/types/FulfillmentTypes.py
+++ b/tfchain/types/FulfillmentTypes.py
@@ -521,6 +521,11 @@ class FulfillmentAtomicSwap(FulfillmentBaseClass):
         else:
             self._secret = AtomicSwapSecret(value=value)
 
+    @property
+    def _secret_defined(self):
+        # an all-zero secret is the same as no secret
+        return any(self.secret.value)
+
     def signature_add(self, public_key, signature):
         """
         Implements SignatureCallbackBase.
@@ -555,19 +560,18 @@ class FulfillmentAtomicSwap(FulfillmentBaseClass):
             raise TypeError("expected input hash generator func with signature `f(*extra_objects) -> Hash`, not {}".format(type(input_hash_func)))
         if not isinstance(parent_condition, ConditionAtomicSwap):
             raise TypeError("parent condition of FulfillmentAtomicSwap cannot be of type {}".format(type(parent_condition)))
-        requests = []
-        signee = str(self.public_key.unlockhash)
+        if len(self.signature) > 0:
+            return [] # nothing to do
         # define the input_hash_new generator function,
         # used to create the input hash for creating the signature
         def input_hash_gen(public_key):
-            if self._secret is not None:
+            if self._secret_defined:
                 return input_hash_func(public_key, self.secret)
             return input_hash_func(public_key)
-        # create a signature hash for all signees that haven't signed yet
-        for unlockhash in [parent_condition.sender, parent_condition.receiver]:
-            if str(unlockhash) != signee:
-                requests.append(SignatureRequest(unlockhash=unlockhash, input_hash_gen=input_hash_gen, callback=self))
-        return requests
+        # only one party has to sign: the receiver if the contract is redeemed using
+        # the secret, the sender if the contract is refunded (no secret is given)
+        unlockhash = parent_condition.receiver if self._secret_defined else parent_condition.sender
+        return [SignatureRequest(unlockhash=unlockhash, input_hash_gen=input_hash_gen, callback=self)]
 
     def is_fulfilled(self, parent_condition):
         if not isinstance(parent_condition, ConditionAtomicSwap):
-- 
2.43.0


From 744868cb94447d99f5c940397ea2ecc1a226e417 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:02:08 +0000
Subject: [PATCH 19/77] fix: signatures set on (not read into) 3Bot update,
 name transfer and ERC20 registration transactions are encoded with their
 length prefix, so that output identifiers are the chain's

---
 tfchain/types/transactions/ERC20.py    |  4 ++--
 tfchain/types/transactions/ThreeBot.py | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/tfchain/types/transactions/ERC20.py b/tfchain/types/transactions/ERC20.py
index 2e4cfff..fcc982f 100644
--- a/tfchain/types/transactions/ERC20.py
+++ b/tfchain/types/transactions/ERC20.py
@@ -446,7 +446,7 @@ class TransactionV210(TransactionBaseClass, SignatureCallbackBase):
     @property
     def signature(self):
         if self._signature is None:
-            return ED25519Signature(as_array=True)
+            return ED25519Signature()
         return self._signature
 
     @signature.setter
@@ -454,7 +454,7 @@ class TransactionV210(TransactionBaseClass, SignatureCallbackBase):
         if value is None:
             self._signature = None
             return
-        self._signature = ED25519Signature(value=value, as_array=True)
+        self._signature = ED25519Signature(value=value)
 
     @property
     def coin_inputs(self):
diff --git a/tfchain/types/transactions/ThreeBot.py b/tfchain/types/transactions/ThreeBot.py
index 989c04d..a6203da 100644
--- a/tfchain/types/transactions/ThreeBot.py
+++ b/tfchain/types/transactions/ThreeBot.py
@@ -676,14 +676,14 @@ class TransactionV145(BotTransactionBaseClass):
     @property
     def signature(self):
         if self._signature is None:
-            return ED25519Signature(as_array=True)
+            return ED25519Signature()
         return self._signature
     @signature.setter
     def signature(self, value):
         if value is None:
             self._signature = None
             return
-        self._signature = ED25519Signature(value=value, as_array=True)
+        self._signature = ED25519Signature(value=value)
 
     @property
     def parent_public_key(self):
@@ -1042,26 +1042,26 @@ class TransactionV146(BotTransactionBaseClass):
     @property
     def sender_signature(self):
         if self._sender_signature is None:
-            return ED25519Signature(as_array=True)
+            return ED25519Signature()
         return self._sender_signature
     @sender_signature.setter
     def sender_signature(self, value):
         if value is None:
             self._sender_signature = None
             return
-        self._sender_signature = ED25519Signature(value=value, as_array=True)
+        self._sender_signature = ED25519Signature(value=value)
 
     @property
     def receiver_signature(self):
         if self._receiver_signature is None:
-            return ED25519Signature(as_array=True)
+            return ED25519Signature()
         return self._receiver_signature
     @receiver_signature.setter
     def receiver_signature(self, value):
         if value is None:
             self._receiver_signature = None
             return
-        self._receiver_signature = ED25519Signature(value=value, as_array=True)
+        self._receiver_signature = ED25519Signature(value=value)
 
     @property
     def sender_parent_public_key(self):
-- 
2.43.0


From 32ab1b5afc6ecc7f701cc261918f685a2b4577a5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:02:09 +0000
Subject: [PATCH 20/77] fix: an empty registration, update or transfer
 signature (as read back from the JSON of an unsigned transaction) does not
 count as a signature, and is still requested

---
 tfchain/types/transactions/ERC20.py    |  4 ++--
 tfchain/types/transactions/ThreeBot.py | 16 ++++++++--------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/tfchain/types/transactions/ERC20.py b/tfchain/types/transactions/ERC20.py
index fcc982f..cd466d1 100644
--- a/tfchain/types/transactions/ERC20.py
+++ b/tfchain/types/transactions/ERC20.py
@@ -667,7 +667,7 @@ class TransactionV210(TransactionBaseClass, SignatureCallbackBase):
         if self._public_key is None:
             # if no parent public key is defined, cannot do anything
             return []
-        if self._signature is not None:
+        if len(self.signature) > 0:
             return []  # nothing to do
         # generate the input hash func
         input_hash_func = InputSignatureHashFactory(
@@ -682,4 +682,4 @@ class TransactionV210(TransactionBaseClass, SignatureCallbackBase):
         return [SignatureRequest(unlockhash=unlockhash, input_hash_gen=input_hash_gen, callback=self)]
 
     def _extra_is_fulfilled(self):
-        return self._signature is not None
+        return len(self.signature) > 0
diff --git a/tfchain/types/transactions/ThreeBot.py b/tfchain/types/transactions/ThreeBot.py
index a6203da..ecfa57a 100644
--- a/tfchain/types/transactions/ThreeBot.py
+++ b/tfchain/types/transactions/ThreeBot.py
@@ -424,7 +424,7 @@ class TransactionV144(BotTransactionBaseClass):
         if self._public_key is None:
             # if no parent public key is defined, cannot do anything
             return []
-        if self._signature is not None:
+        if len(self.signature) > 0:
             return [] # nothing to do
         # generate the input hash func
         input_hash_func = InputSignatureHashFactory(self, BotTransactionBaseClass.SPECIFIER_SENDER).signature_hash_new
@@ -437,7 +437,7 @@ class TransactionV144(BotTransactionBaseClass):
         return [SignatureRequest(unlockhash=unlockhash, input_hash_gen=input_hash_gen, callback=self)]
 
     def _extra_is_fulfilled(self):
-        return self._signature is not None
+        return len(self.signature) > 0
 
 class TransactionV145(BotTransactionBaseClass):
     _SPECIFIER = b'bot recupdate tx'
@@ -865,7 +865,7 @@ class TransactionV145(BotTransactionBaseClass):
         if self._parent_public_key is None:
             # if no parent public key is defined, cannot do anything
             return []
-        if self._signature is not None:
+        if len(self.signature) > 0:
             return [] # nothing to do
         # generate the input hash func
         input_hash_func = InputSignatureHashFactory(self, BotTransactionBaseClass.SPECIFIER_SENDER).signature_hash_new
@@ -878,7 +878,7 @@ class TransactionV145(BotTransactionBaseClass):
         return [SignatureRequest(unlockhash=unlockhash, input_hash_gen=input_hash_gen, callback=self)]
 
     def _extra_is_fulfilled(self):
-        return self._signature is not None
+        return len(self.signature) > 0
 
 
 class TransactionV146(BotTransactionBaseClass):
@@ -1235,11 +1235,11 @@ class TransactionV146(BotTransactionBaseClass):
     def _extra_signature_requests_new(self):
         requests = []
         # collect, if possible, the sender request
-        request = self._extra_signature_requests_for(self._sender_parent_public_key, self._sender_signature, BotTransactionBaseClass.SPECIFIER_SENDER)
+        request = self._extra_signature_requests_for(self._sender_parent_public_key, self.sender_signature, BotTransactionBaseClass.SPECIFIER_SENDER)
         if request is not None:
             requests.append(request)
         # collect, if possible, the receiver request
-        request = self._extra_signature_requests_for(self._receiver_parent_public_key, self._receiver_signature, BotTransactionBaseClass.SPECIFIER_RECEIVER)
+        request = self._extra_signature_requests_for(self._receiver_parent_public_key, self.receiver_signature, BotTransactionBaseClass.SPECIFIER_RECEIVER)
         if request is not None:
             requests.append(request)
         # return all requests, if any
@@ -1249,7 +1249,7 @@ class TransactionV146(BotTransactionBaseClass):
         if public_key is None:
             # if no parent public key is defined, cannot do anything
             return None
-        if signature is not None:
+        if len(signature) > 0:
             return None
         # generate the input hash func
         factory = InputSignatureHashFactory(self, specifier)
@@ -1263,4 +1263,4 @@ class TransactionV146(BotTransactionBaseClass):
             callback=self)
 
     def _extra_is_fulfilled(self):
-        return self._sender_signature is not None and self._receiver_signature is not None
+        return len(self.sender_signature) > 0 and len(self.receiver_signature) > 0
-- 
2.43.0


From ae16970c1cb10e429f175ed4e225884e2850980c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:02:30 +0000
Subject: [PATCH 21/77] fix: a fresh or unsigned 3Bot registration, name
 transfer or ERC20 registration can be written, encoded and hashed

---
 tfchain/types/transactions/ERC20.py    | 2 +-
 tfchain/types/transactions/ThreeBot.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tfchain/types/transactions/ERC20.py b/tfchain/types/transactions/ERC20.py
index cd466d1..f49391b 100644
--- a/tfchain/types/transactions/ERC20.py
+++ b/tfchain/types/transactions/ERC20.py
@@ -417,7 +417,7 @@ class TransactionV210(TransactionBaseClass, SignatureCallbackBase):
         self._registration_fee = Currency(
             value=TransactionV210.HARDCODED_REGISTRATION_FEE)
         self._transaction_fee = None
-        self._coin_inputs = None
+        self._coin_inputs = []
         self._refund_coin_output = None
 
         super().__init__()
diff --git a/tfchain/types/transactions/ThreeBot.py b/tfchain/types/transactions/ThreeBot.py
index ecfa57a..04ad9eb 100644
--- a/tfchain/types/transactions/ThreeBot.py
+++ b/tfchain/types/transactions/ThreeBot.py
@@ -406,8 +406,8 @@ class TransactionV144(BotTransactionBaseClass):
             'txfee': self.transaction_fee.json(),
             'coininputs': [ci.json() for ci in self.coin_inputs],
             'identification': {
-                'publickey': self._public_key.json(),
-                'signature': self._signature.json(),
+                'publickey': self.public_key.json(),
+                'signature': self.signature.json(),
             },
         }
         addresses = self.addresses
@@ -889,7 +889,7 @@ class TransactionV146(BotTransactionBaseClass):
         self._receiver_botid = None
         self._names = []
         self._transaction_fee = None
-        self._coin_inputs = None
+        self._coin_inputs = []
         self._refund_coin_output = None
         self._sender_signature = None
         self._receiver_signature = None
-- 
2.43.0


From e1d3b94f40dce7ad2f50bd3c3f35294793d1d7b6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 22/77] fix: assigning the names of a name transfer replaces
 the names (they were appended)

---
 tfchain/types/transactions/ThreeBot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/types/transactions/ThreeBot.py b/tfchain/types/transactions/ThreeBot.py
index 04ad9eb..1e8aac6 100644
--- a/tfchain/types/transactions/ThreeBot.py
+++ b/tfchain/types/transactions/ThreeBot.py
@@ -1006,7 +1006,7 @@ class TransactionV146(BotTransactionBaseClass):
         return self._names
     @names.setter
     def names(self, value):
-        self._names_to_add = []
+        self._names = []
         if not value:
             return
         for name in value:
-- 
2.43.0


From 0897e96a628efcedbf982aeba961e9cca01546a0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:02:33 +0000
Subject: [PATCH 23/77] fix: the verdict and signature requests of a minting
 transaction without mint fulfillment (AttributeError or TypeError)

---
 tfchain/types/transactions/Minting.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tfchain/types/transactions/Minting.py b/tfchain/types/transactions/Minting.py
index a2a9b88..f13870a 100644
--- a/tfchain/types/transactions/Minting.py
+++ b/tfchain/types/transactions/Minting.py
@@ -188,6 +188,8 @@ class TransactionV128(TransactionBaseClass):
     def _extra_signature_requests_new(self):
         if self._parent_mint_condition is None:
             return []  # nothing to be signed
+        if self._mint_fulfillment is None:
+            self._mint_fulfillment = FulfillmentTypes.from_condition(self._parent_mint_condition)
         return self._mint_fulfillment.signature_requests_new(
             # no extra objects are to be included within txn scope
             input_hash_func=self.signature_hash_get,
@@ -195,7 +197,7 @@ class TransactionV128(TransactionBaseClass):
         )
 
     def _extra_is_fulfilled(self):
-        if self._parent_mint_condition is None:
+        if self._parent_mint_condition is None or self._mint_fulfillment is None:
             return False
         return self.mint_fulfillment.is_fulfilled(parent_condition=self._parent_mint_condition)
 
@@ -382,6 +384,8 @@ class TransactionV129(TransactionBaseClass):
     def _extra_signature_requests_new(self):
         if self._parent_mint_condition is None:
             return []  # nothing to be signed
+        if self._mint_fulfillment is None:
+            self._mint_fulfillment = FulfillmentTypes.from_condition(self._parent_mint_condition)
         return self._mint_fulfillment.signature_requests_new(
             # no extra objects are to be included within txn scope
             input_hash_func=self.signature_hash_get,
@@ -389,6 +393,6 @@ class TransactionV129(TransactionBaseClass):
         )
 
     def _extra_is_fulfilled(self):
-        if self._parent_mint_condition is None:
+        if self._parent_mint_condition is None or self._mint_fulfillment is None:
             return False
         return self.mint_fulfillment.is_fulfilled(parent_condition=self._parent_mint_condition)
-- 
2.43.0


From 812f31d597b42e409874f9d788a71b555ec2e5a6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 24/77] fix: the output of an ERC20 coin creation keeps the
 identifier it is given

---
 tfchain/types/transactions/ERC20.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tfchain/types/transactions/ERC20.py b/tfchain/types/transactions/ERC20.py
index f49391b..e39aa1a 100644
--- a/tfchain/types/transactions/ERC20.py
+++ b/tfchain/types/transactions/ERC20.py
@@ -236,6 +236,7 @@ class TransactionV209(TransactionBaseClass):
         self._transaction_fee = None
         self._blockid = None
         self._transactionid = None
+        self._coin_output = CoinOutput()
 
         super().__init__()
 
@@ -322,8 +323,9 @@ class TransactionV209(TransactionBaseClass):
         """
         A singleton, containing the ERC20-converted TFT coins.
         """
-        condition = ConditionUnlockHash(unlockhash=self.address)
-        return [CoinOutput(value=self.value, condition=condition, id=None)]
+        self._coin_output.value = self.value
+        self._coin_output.condition = ConditionUnlockHash(unlockhash=self.address)
+        return [self._coin_output]
 
     def _signature_hash_input_get(self, *extra_objects):
         e = encoder_sia_get()
-- 
2.43.0


From 38421f65c200c8e7fbdfa1aafe98b076b7ae0ed0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 25/77] fix: binary data with characters that are not base64 is
 refused instead of read without them

---
 tfchain/types/PrimitiveTypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/types/PrimitiveTypes.py b/tfchain/types/PrimitiveTypes.py
index 11648a2..c6fb4ac 100644
--- a/tfchain/types/PrimitiveTypes.py
+++ b/tfchain/types/PrimitiveTypes.py
@@ -18,7 +18,7 @@ class BinaryData(BaseDataTypeClass):
             self._from_str = lambda s: bytearray.fromhex(s)
             self._to_str = lambda value: value.hex()
         elif strencoding.lower().strip() == 'base64':
-            self._from_str = lambda s: bytearray(base64.b64decode(s))
+            self._from_str = lambda s: bytearray(base64.b64decode(s, validate=True))
             self._to_str = lambda value: base64.b64encode(value).decode()
         elif strencoding.lower().strip() == 'hexprefix':
             self._from_str = lambda s: bytearray.fromhex(
-- 
2.43.0


From 3dd106f7a43e3c272b1514b96573a2b0869be9dd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:12:12 +0000
Subject: [PATCH 26/77] fix: fractional numbers in a JSON document (locks,
 months, identifiers, signature counts) are refused instead of truncated

---
 tfchain/internal/jsutils.py            |  9 +++++++++
 tfchain/types/ConditionTypes.py        |  8 ++++----
 tfchain/types/transactions/ThreeBot.py | 12 +++++++-----
 3 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/tfchain/internal/jsutils.py b/tfchain/internal/jsutils.py
index 07c7ce9..ecac82e 100644
--- a/tfchain/internal/jsutils.py
+++ b/tfchain/internal/jsutils.py
@@ -20,6 +20,15 @@ def blake2(s, digest_size=32):
 def blake2_string(s, digest_size=32):
     return blake2(s, digest_size=digest_size).hex()
 
+def json_int(value):
+    """
+    Read an integer of a JSON document,
+    a number with decimals is refused instead of truncated.
+    """
+    if isinstance(value, float) and not value.is_integer():
+        raise ValueError("expected an integer number, not {}".format(value))
+    return int(value)
+
 def generateRandomInt(fromInt, toInt):
     return random.randint(fromInt, toInt)
 
diff --git a/tfchain/types/ConditionTypes.py b/tfchain/types/ConditionTypes.py
index f567dbe..5d678c8 100644
--- a/tfchain/types/ConditionTypes.py
+++ b/tfchain/types/ConditionTypes.py
@@ -2,7 +2,7 @@ import hashlib
 from datetime import datetime, timedelta
 from tfchain.encoders import encoder_rivine_get, encoder_sia_get, sia_encode, rivine_encode
 from tfchain.crypto import MerkleTree
-from tfchain.internal.jsutils import blake2_string
+from tfchain.internal.jsutils import blake2_string, json_int
 from tfchain.types.PrimitiveTypes import BinaryData, Hash
 from tfchain.internal.jsutils import duration, jsdatetime, jstime, generateXByteID
 
@@ -606,7 +606,7 @@ class ConditionAtomicSwap(ConditionBaseClass):
         self.sender = UnlockHash.from_json(data['sender'])
         self.receiver = UnlockHash.from_json(data['receiver'])
         self.hashed_secret = AtomicSwapSecretHash(value=data['hashedsecret'])
-        self.lock_time = int(data['timelock'])
+        self.lock_time = json_int(data['timelock'])
 
     def json_data_object(self):
         return {
@@ -668,7 +668,7 @@ class ConditionLockTime(ConditionBaseClass):
         return self.condition
 
     def from_json_data_object(self, data):
-        self.lock = int(data['locktime'])
+        self.lock = json_int(data['locktime'])
         cond = from_json(obj=data['condition'])
         if cond.type not in(_CONDITION_TYPE_UNLOCK_HASH, _CONDITION_TYPE_MULTI_SIG, _CONDITION_TYPE_NIL):
             raise ValueError("internal condition of ConditionLockTime cannot be of type {}".format(cond.type))
@@ -743,7 +743,7 @@ class ConditionMultiSignature(ConditionBaseClass):
         self._min_nr_sig = int(value)
 
     def from_json_data_object(self, data):
-        self._min_nr_sig = int(data['minimumsignaturecount'])
+        self._min_nr_sig = json_int(data['minimumsignaturecount'])
         self._unlockhashes = []
         for uh in data['unlockhashes']:
             uh = UnlockHash.from_json(uh)
diff --git a/tfchain/types/transactions/ThreeBot.py b/tfchain/types/transactions/ThreeBot.py
index 1e8aac6..561ff98 100644
--- a/tfchain/types/transactions/ThreeBot.py
+++ b/tfchain/types/transactions/ThreeBot.py
@@ -8,6 +8,8 @@ from tfchain.types.CryptoTypes import PublicKey
 from tfchain.types.IO import CoinInput, CoinOutput
 from abc import abstractmethod
 
+from tfchain.internal.jsutils import json_int
+
 from tfchain.encoders import BaseRivineObjectEncoder, BaseSiaObjectEncoder
 from tfchain.encoders import encoder_sia_get, encoder_rivine_get
 
@@ -382,7 +384,7 @@ class TransactionV144(BotTransactionBaseClass):
     def _from_json_data_object(self, data):
         self._addresses = [NetworkAddress.from_json(address) for address in data.get('addresses', []) or []]
         self._names = [BotName.from_json(name) for name in data.get('names', []) or []]
-        self._number_of_months = int(data.get('nrofmonths', 0) or 0)
+        self._number_of_months = json_int(data.get('nrofmonths', 0) or 0)
         if 'txfee' in data:
             self._transaction_fee = Currency.from_json(data['txfee'])
         else:
@@ -801,14 +803,14 @@ class TransactionV145(BotTransactionBaseClass):
         return e.data
 
     def _from_json_data_object(self, data):
-        self._botid = int(data.get('id', 0) or 0)
+        self._botid = json_int(data.get('id', 0) or 0)
         addresses = data.get('addresses', {}) or {}
         self._addresses_to_add = [NetworkAddress.from_json(address) for address in addresses.get('add', []) or []]
         self._addresses_to_remove = [NetworkAddress.from_json(address) for address in addresses.get('remove', []) or []]
         names = data.get('names', {}) or {}
         self._names_to_add = [BotName.from_json(name) for name in names.get('add', []) or []]
         self._names_to_remove = [BotName.from_json(name) for name in names.get('remove', []) or []]
-        self._number_of_months = int(data.get('nrofmonths', 0) or 0)
+        self._number_of_months = json_int(data.get('nrofmonths', 0) or 0)
         if 'txfee' in data:
             self._transaction_fee = Currency.from_json(data['txfee'])
         else:
@@ -1186,7 +1188,7 @@ class TransactionV146(BotTransactionBaseClass):
         # decode sender info
         if 'sender' in data:
             bot_data = data['sender']
-            self._sender_botid = int(bot_data.get('id', 0) or 0)
+            self._sender_botid = json_int(bot_data.get('id', 0) or 0)
             self._sender_signature = ED25519Signature.from_json(bot_data.get('signature', None) or None)
         else:
             self._sender_botid = None
@@ -1194,7 +1196,7 @@ class TransactionV146(BotTransactionBaseClass):
         # decode receiver info
         if 'receiver' in data:
             bot_data = data['receiver']
-            self._receiver_botid = int(bot_data.get('id', 0) or 0)
+            self._receiver_botid = json_int(bot_data.get('id', 0) or 0)
             self._receiver_signature = ED25519Signature.from_json(bot_data.get('signature', None) or None)
         else:
             self._receiver_botid = None
-- 
2.43.0


From ffdacd296b2b424f664271972f332b26df712cc5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:12:14 +0000
Subject: [PATCH 27/77] fix: a transaction of which the data is not an object
 is refused instead of read as an empty one

---
 tfchain/types/transactions/Base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tfchain/types/transactions/Base.py b/tfchain/types/transactions/Base.py
index a0cd3e3..22c37cc 100644
--- a/tfchain/types/transactions/Base.py
+++ b/tfchain/types/transactions/Base.py
@@ -59,7 +59,10 @@ class TransactionBaseClass(ABC):
         if txn.version != tv:
             raise ValueError(
                 "transaction is expected to be of version {}, not version {}".format(txn.version, tv))
-        txn._from_json_data_object(obj.get('data', {}))
+        data = obj.get('data', {})
+        if not isinstance(data, dict):
+            raise TypeError("transaction data is expected to be an object, not {}".format(type(data)))
+        txn._from_json_data_object(data)
         return txn
 
     @property
-- 
2.43.0


From 920217e0fe69d28497033812807b27d5a037c4b9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:13:32 +0000
Subject: [PATCH 28/77] fix: a legacy transaction with an unlocker that is no
 single signature (an atomic swap) or no data object is refused instead of
 misread

---
 tfchain/types/transactions/Standard.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tfchain/types/transactions/Standard.py b/tfchain/types/transactions/Standard.py
index 11b538b..b4ab79e 100644
--- a/tfchain/types/transactions/Standard.py
+++ b/tfchain/types/transactions/Standard.py
@@ -35,9 +35,13 @@ class TransactionV1(TransactionBaseClass):
             raise ValueError("no data object found in Legacy Transaction (v{})".format(
                 TransactionVersion.LEGACY))
         txn_data = obj['data']
+        if not isinstance(txn_data, dict):
+            raise TypeError("transaction data is expected to be an object, not {}".format(type(txn_data)))
         if 'coininputs' in txn_data:
             for legacy_ci_info in (txn_data['coininputs'] or []):
                 unlocker = legacy_ci_info.get('unlocker', {})
+                if unlocker.get('type', 1) != 1:
+                    raise ValueError("legacy unlocker of type {} is not supported".format(unlocker['type']))
                 ci_info = {
                     'parentid': legacy_ci_info.get('parentid', ''),
                     'fulfillment': {
@@ -66,6 +70,8 @@ class TransactionV1(TransactionBaseClass):
         if 'blockstakeinputs' in txn_data:
             for legacy_bsi_info in (txn_data['blockstakeinputs'] or []):
                 unlocker = legacy_bsi_info.get('unlocker', {})
+                if unlocker.get('type', 1) != 1:
+                    raise ValueError("legacy unlocker of type {} is not supported".format(unlocker['type']))
                 bsi_info = {
                     'parentid': legacy_bsi_info.get('parentid', ''),
                     'fulfillment': {
-- 
2.43.0


From 386f56e36d7985baa20bacf5ed516a1f6d260155 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 29/77] fix: reading back a 3Bot or ERC20 registration without
 public key does not make it ask the nil key's address for a signature

---
 tfchain/types/transactions/ERC20.py    | 6 ++++--
 tfchain/types/transactions/ThreeBot.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/tfchain/types/transactions/ERC20.py b/tfchain/types/transactions/ERC20.py
index e39aa1a..6401b42 100644
--- a/tfchain/types/transactions/ERC20.py
+++ b/tfchain/types/transactions/ERC20.py
@@ -5,7 +5,7 @@ from tfchain.types.ConditionTypes import UnlockHash, ConditionUnlockHash
 from tfchain.types.PrimitiveTypes import BinaryData, Currency
 from tfchain.types.ERC20 import ERC20Address, ERC20Hash
 from tfchain.types.IO import CoinInput, CoinOutput
-from tfchain.types.CryptoTypes import PublicKey
+from tfchain.types.CryptoTypes import PublicKey, PublicKeySpecifier
 from tfchain.encoders import encoder_sia_get, encoder_rivine_get
 
 
@@ -621,7 +621,9 @@ class TransactionV210(TransactionBaseClass, SignatureCallbackBase):
     def _from_json_data_object(self, data):
         # decode public key
         if 'pubkey' in data:
-            self._public_key = PublicKey.from_json(data['pubkey'])
+            # a nil key stands for a key that isn't defined yet
+            public_key = PublicKey.from_json(data['pubkey'])
+            self._public_key = None if public_key.specifier == PublicKeySpecifier.NIL else public_key
         else:
             self._public_key = None
         # decode signature
diff --git a/tfchain/types/transactions/ThreeBot.py b/tfchain/types/transactions/ThreeBot.py
index 561ff98..619f4a4 100644
--- a/tfchain/types/transactions/ThreeBot.py
+++ b/tfchain/types/transactions/ThreeBot.py
@@ -4,7 +4,7 @@ from tfchain.types.FulfillmentTypes import ED25519Signature, SignatureCallbackBa
 from tfchain.types.ConditionTypes import ConditionBaseClass, ConditionNil
 from tfchain.types.ThreeBot import NetworkAddress, BotName
 from tfchain.types.PrimitiveTypes import BinaryData, Currency
-from tfchain.types.CryptoTypes import PublicKey
+from tfchain.types.CryptoTypes import PublicKey, PublicKeySpecifier
 from tfchain.types.IO import CoinInput, CoinOutput
 from abc import abstractmethod
 
@@ -399,7 +399,9 @@ class TransactionV144(BotTransactionBaseClass):
             self._signature = None
         else:
             identification = data['identification']
-            self._public_key = PublicKey.from_json(identification['publickey'])
+            # a nil key stands for a key that isn't defined yet
+            public_key = PublicKey.from_json(identification['publickey'])
+            self._public_key = None if public_key.specifier == PublicKeySpecifier.NIL else public_key
             self._signature = ED25519Signature.from_json(identification['signature'], as_array=True)
 
     def _json_data_object(self):
-- 
2.43.0


From 3da949cdae816852b70682812ab6a79ea7b7f8e1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:24:32 +0000
Subject: [PATCH 30/77] fix: an unexpected status such as 202 is reported as
 the server's error instead of a formatting TypeError

---
 tfchain/internal/HttpClient.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/internal/HttpClient.py b/tfchain/internal/HttpClient.py
index 9d46d46..132ec22 100644
--- a/tfchain/internal/HttpClient.py
+++ b/tfchain/internal/HttpClient.py
@@ -208,8 +208,8 @@ class Connection():
 
         #if resp.code in STATUS_AUTH_REQ: raise AuthorizationError('Not logged in or token expired')
         if resp.code not in (STATUS_OK):
-            raise Exception(
-                'unexpected HTTP response status %s: %s' % resp.code, resp)
+            raise HTTPError(urllib.error.HTTPError(
+                url, resp.code, 'unexpected HTTP response status', resp.headers, resp), url)
         return resp
 
 
-- 
2.43.0


From ce63f5ea58329a35d1c476373f1a91eac231995c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 31/77] fix: a server error of which the text cannot be read is
 reported as that error instead of a connection error

---
 tfchain/internal/HttpClient.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tfchain/internal/HttpClient.py b/tfchain/internal/HttpClient.py
index 132ec22..6235657 100644
--- a/tfchain/internal/HttpClient.py
+++ b/tfchain/internal/HttpClient.py
@@ -37,8 +37,11 @@ class HTTPError(Exception):
         data = ''
         self.status_code = None
         if isinstance(httperror, urllib.error.HTTPError):
-            msg = data = httperror.read()
             self.status_code = httperror.code
+            try:
+                msg = data = httperror.read()
+            except Exception:
+                pass # the error is known, even when its text isn't received
         self.msg = msg
         self.data = data
         self.httperror = httperror
-- 
2.43.0


From f81a023ba8ea88b97df18b0ce9a888a8a9df87ae Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:24:34 +0000
Subject: [PATCH 32/77] fix: a server error of which the text is not UTF-8 is
 reported as that error

---
 tfchain/TFChainExplorerClient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/TFChainExplorerClient.py b/tfchain/TFChainExplorerClient.py
index dcdf201..4e45c29 100644
--- a/tfchain/TFChainExplorerClient.py
+++ b/tfchain/TFChainExplorerClient.py
@@ -53,7 +53,7 @@ class TFChainExplorerClient:
                 if e.status_code == 400:
                     msg = e.msg
                     if isinstance(msg, (bytes, bytearray)):
-                        msg = msg.decode('utf-8')
+                        msg = msg.decode('utf-8', errors='replace')
                     if isinstance(msg, str) and (('unrecognized hash' in msg) or ('not found' in msg)):
                         raise tfchain.errors.ExplorerNoContent("GET: no content available for specified hash (code: 400)", endpoint)
                 if e.status_code:
-- 
2.43.0


From 8ee48b73ca81f7b2f92dcd67b1fb6d4c5c7125c3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:24:36 +0000
Subject: [PATCH 33/77] fix: the entire answer of an explorer is read, and one
 that breaks off halfway is not reported as success

---
 tfchain/TFChainExplorerClient.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tfchain/TFChainExplorerClient.py b/tfchain/TFChainExplorerClient.py
index 4e45c29..92a4bbb 100644
--- a/tfchain/TFChainExplorerClient.py
+++ b/tfchain/TFChainExplorerClient.py
@@ -8,6 +8,16 @@ import random
 
 http = HttpClient()
 
+def _read_all(resp, url):
+    """
+    read the entire answer of an explorer, an answer that cannot be
+    received completely counts as one from an explorer that isn't available.
+    """
+    try:
+        return resp.read()
+    except Exception as e:
+        raise HTTPError(e, url)
+
 class TFChainExplorerClient:
     """
     Client to get data from a tfchain explorer.
@@ -45,7 +55,7 @@ class TFChainExplorerClient:
                 # do the request and check the response
                 resp = http.get(url=address+endpoint, headers=headers)
                 if resp.getcode() == 200:
-                    return resp.readline()
+                    return _read_all(resp, address+endpoint)
                 if resp.getcode() == 204:
                     raise tfchain.errors.ExplorerNoContent("GET: no content available (code: 204)", endpoint)
                 raise tfchain.errors.ExplorerServerError("error (code: {})".format(resp.getcode()), endpoint)
@@ -92,7 +102,7 @@ class TFChainExplorerClient:
                 # do the request and check the response
                 resp = http.post(url=address+endpoint, data=data, headers=headers)
                 if resp.getcode() == 200:
-                    return resp.readline()
+                    return _read_all(resp, address+endpoint)
                 raise tfchain.errors.ExplorerServerPostError("POST: unexpected error (code: {})".format(resp.getcode()), endpoint, data=data)
             except HTTPError as e:
                 if e.status_code:
-- 
2.43.0


From 735e3bbe81502ffc63696383545419c14a6d460b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:40:08 +0000
Subject: [PATCH 34/77] fix: an output reported confirmed first and unconfirmed
 afterwards is counted as both available and unconfirmed

---
 tfchain/TFChainWallet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 8c6af85..ad3cd7b 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2000,7 +2000,7 @@ class WalletBalance(object):
                 # delete from other output lists if prior registered
                 self._outputs_unconfirmed.pop(output.id, None)
                 self._outputs.pop(output.id, None)
-            elif output.id not in self._outputs_unconfirmed_spent:
+            elif output.id not in self._outputs_unconfirmed_spent and output.id not in self._outputs:
                 self._outputs_unconfirmed[output.id] = output
         self._addresses.add(str(output.condition.unlockhash))
 
-- 
2.43.0


From 8e4c1d3312d8f956d63693d56af8e85ef038f802 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:40:21 +0000
Subject: [PATCH 35/77] fix: merging balances no longer counts an output in
 several buckets when the balances disagree on its state

---
 tfchain/TFChainWallet.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index ad3cd7b..eba3965 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2045,11 +2045,12 @@ class WalletBalance(object):
             self.chain_time = other.chain_time
             self.chain_height = other.chain_height
             self.chain_blockid = other.chain_blockid
-        # merge the outputs
-        for attr in ['_outputs', '_outputs_spent', '_outputs_unconfirmed', '_outputs_unconfirmed_spent']:
-            d = getattr(self, attr, {})
-            for id, output in getattr(other, attr, {}).items():
-                d[id] = output
+        # merge the outputs, as if each of them was reported to this balance
+        for outputs, confirmed, spent in [
+            (other._outputs, True, False), (other._outputs_spent, True, True),
+            (other._outputs_unconfirmed, False, False), (other._outputs_unconfirmed_spent, False, True)]:
+            for output in list(outputs.values()):
+                self.output_add(output, confirmed=confirmed, spent=spent)
         # merge the addresses
         self._addresses |= other._addresses
         # return the modified self
-- 
2.43.0


From b099f9597fd16875e7a2014415c3b709da87d698 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:40:30 +0000
Subject: [PATCH 36/77] fix: multi-signature balances can be merged, and
 merging does not tie the two balances to each other

---
 tfchain/TFChainWallet.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index eba3965..9ebffd7 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2181,10 +2181,10 @@ class MultiSigWalletBalance(WalletBalance):
             return self
         if not isinstance(other, MultiSigWalletBalance):
             if isinstance(other, (WalletBalance, WalletsBalance)):
-                return WalletsBalance().balance_add(self).balance_add(self)
+                return WalletsBalance().balance_add(self).balance_add(other)
             # can only merge 2 multi-signature wallet balances
             raise TypeError("other balance has to be of type multi-signature wallet balance")
-        if self.address != other.addres:
+        if self.address != other.address:
             raise ValueError("other balance is for a different MultiSignature Wallet, cannot be merged")
         # piggy-back on the super class for the actual merge logic
         return super().balance_add(other._base)
@@ -2274,9 +2274,9 @@ class WalletsBalance(WalletBalance):
         Assign or merge a multi-sig wallet balance
         """
         if address not in self._wallets:
-            self._wallets[address] = balance
-            return
-        self._wallets[address] = self._wallets[address].merge(balance)
+            self._wallets[address] = MultiSigWalletBalance(
+                owners=balance.owners, signature_count=balance.signature_count)
+        self._wallets[address] = self._wallets[address].balance_add(balance)
 
     def __repr__(self):
         result = super().__repr__()
-- 
2.43.0


From 8aab39f7e3d76ec929b86ee26ca01cc472940817 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:40:31 +0000
Subject: [PATCH 37/77] fix: a locked output of a multi-signature wallet can be
 added to a balance

---
 tfchain/TFChainWallet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 9ebffd7..1197dbe 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2228,8 +2228,8 @@ class WalletsBalance(WalletBalance):
             raise TypeError("multi signature's output condition cannot be of type {} (expected: ConditionMultiSignature)".format(type(oc)))
         if not address in self._wallets:
             self._wallets[address] = MultiSigWalletBalance(
-                owners=output.condition.unlockhashes,
-                signature_count=output.condition.required_signatures)
+                owners=oc.unlockhashes,
+                signature_count=oc.required_signatures)
         self._wallets[address].output_add(output, confirmed=confirmed, spent=spent)
 
     def output_add(self, output, confirmed=True, spent=False):
-- 
2.43.0


From db2f960fe6060da7dab1b8b4a2d3a216ad825a9a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:41:12 +0000
Subject: [PATCH 38/77] fix: the chain info of a balance counts for its
 multi-signature wallets, and that of the first block counts as known

---
 tfchain/TFChainWallet.py | 100 +++++++++++++++++++++++++++++----------
 1 file changed, 76 insertions(+), 24 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 1197dbe..8b7601e 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -1891,6 +1891,13 @@ class WalletBalance(object):
             raise TypeError("WalletBalance's chain height cannot be of type {} (expected: int)".format(type(value)))
         self._chain_height = int(value)
 
+    @property
+    def _chain_known(self):
+        """
+        Returns if the chain info is known, the first block (height 0) of a chain has a time as well.
+        """
+        return self.chain_time > 0
+
     @property
     def active(self):
         """
@@ -1916,7 +1923,7 @@ class WalletBalance(object):
         """
         Unconfirmed (coin) outputs, available for spending.
         """
-        if self.chain_time > 0 and self.chain_height > 0:
+        if self._chain_known:
             return [co for co in self._outputs_unconfirmed.values()
                 if not co.condition.lock.locked_check(time=self.chain_time, height=self.chain_height)]
         else:
@@ -1933,7 +1940,7 @@ class WalletBalance(object):
         """
         Total available (coin) outputs.
         """
-        if self.chain_time > 0 and self.chain_height > 0:
+        if self._chain_known:
             return [co for co in self._outputs.values()
                 if not co.condition.lock.locked_check(time=self.chain_time, height=self.chain_height)]
         else:
@@ -1951,7 +1958,7 @@ class WalletBalance(object):
         """
         Total available coins that are locked.
         """
-        if self.chain_time > 0 and self.chain_height > 0:
+        if self._chain_known:
             return sum([co.value for co in self._outputs.values()
                 if co.condition.lock.locked_check(time=self.chain_time, height=self.chain_height)]) or Currency()
         else:
@@ -1962,18 +1969,18 @@ class WalletBalance(object):
         """
         Total unconfirmed coins, available for spending.
         """
-        if self.chain_time > 0 and self.chain_height > 0:
+        if self._chain_known:
             return sum([co.value for co in self._outputs_unconfirmed.values()
                 if not co.condition.lock.locked_check(time=self.chain_time, height=self.chain_height)]) or Currency()
         else:
-            return sum([co.value for co in self._outputs_unconfirmed.values()])
+            return sum([co.value for co in self._outputs_unconfirmed.values()]) or Currency()
 
     @property
     def unconfirmed_locked(self):
         """
         Total unconfirmed coins that are locked, and thus not available for spending.
         """
-        if self.chain_time > 0 and self.chain_height > 0:
+        if self._chain_known:
             return sum([co.value for co in self._outputs_unconfirmed.values()
                 if co.condition.lock.locked_check(time=self.chain_time, height=self.chain_height)]) or Currency()
         else:
@@ -2036,15 +2043,7 @@ class WalletBalance(object):
             raise TypeError("other balance has to be of type wallet balance")
         # another balance is defined, create a new balance that will contain our merge
         # merge the chain info
-        if self.chain_height >= other.chain_height:
-            if self.chain_time < other.chain_time:
-                raise ValueError("chain time and chain height of balances do not match")
-        else:
-            if self.chain_time >= other.chain_time:
-                raise ValueError("chain time and chain height of balances do not match")
-            self.chain_time = other.chain_time
-            self.chain_height = other.chain_height
-            self.chain_blockid = other.chain_blockid
+        self._chain_info_merge(other)
         # merge the outputs, as if each of them was reported to this balance
         for outputs, confirmed, spent in [
             (other._outputs, True, False), (other._outputs_spent, True, True),
@@ -2056,6 +2055,24 @@ class WalletBalance(object):
         # return the modified self
         return self
 
+    def _chain_info_merge(self, other):
+        """
+        Take over the chain info of the other balance if it is further than the one of this balance,
+        chain info that isn't known can always be taken over and never conflicts.
+        """
+        if not other._chain_known:
+            return
+        if self._chain_known:
+            if self.chain_height >= other.chain_height:
+                if self.chain_time < other.chain_time:
+                    raise ValueError("chain time and chain height of balances do not match")
+                return
+            if self.chain_time > other.chain_time:
+                raise ValueError("chain time and chain height of balances do not match")
+        self.chain_time = other.chain_time
+        self.chain_height = other.chain_height
+        self.chain_blockid = other.chain_blockid
+
     def drain(self, recipient, miner_fee, unconfirmed=False, data=None, lock=None):
         """
         add all available outputs into as many transactions as required,
@@ -2124,7 +2141,7 @@ class WalletBalance(object):
     def __repr__(self):
         # report chain context
         result = ""
-        if self.chain_height > 0 and self.chain_time > 0:
+        if self._chain_known:
             result += "wallet balance on height {} at {}\n".format(self.chain_height, epoch2HRDateTime(self.chain_time))
         else:
             result += "wallet balance at an unknown time\n"
@@ -2211,6 +2228,33 @@ class WalletsBalance(WalletBalance):
         """
         return self._wallets
 
+    @WalletBalance.chain_blockid.setter
+    def chain_blockid(self, value):
+        """
+        Set the blockchain block ID, for all linked multisig wallets as well.
+        """
+        WalletBalance.chain_blockid.fset(self, value)
+        for wallet in self._wallets.values():
+            wallet.chain_blockid = value
+
+    @WalletBalance.chain_time.setter
+    def chain_time(self, value):
+        """
+        Set the blockchain time, for all linked multisig wallets as well.
+        """
+        WalletBalance.chain_time.fset(self, value)
+        for wallet in self._wallets.values():
+            wallet.chain_time = value
+
+    @WalletBalance.chain_height.setter
+    def chain_height(self, value):
+        """
+        Set the blockchain height, for all linked multisig wallets as well.
+        """
+        WalletBalance.chain_height.fset(self, value)
+        for wallet in self._wallets.values():
+            wallet.chain_height = value
+
     @property
     def addresses_multisig(self):
         """
@@ -2226,11 +2270,7 @@ class WalletsBalance(WalletBalance):
         oc = output.condition.unwrap()
         if not isinstance(oc, ConditionMultiSignature):
             raise TypeError("multi signature's output condition cannot be of type {} (expected: ConditionMultiSignature)".format(type(oc)))
-        if not address in self._wallets:
-            self._wallets[address] = MultiSigWalletBalance(
-                owners=oc.unlockhashes,
-                signature_count=oc.required_signatures)
-        self._wallets[address].output_add(output, confirmed=confirmed, spent=spent)
+        self._multisig_wallet_get(address, owners=oc.unlockhashes, signature_count=oc.required_signatures).output_add(output, confirmed=confirmed, spent=spent)
 
     def output_add(self, output, confirmed=True, spent=False):
         """
@@ -2255,6 +2295,7 @@ class WalletsBalance(WalletBalance):
         if not isinstance(other, WalletBalance):
             raise TypeError("other balance has to be of type wallet balance")
         if isinstance(other, MultiSigWalletBalance):
+            self._chain_info_merge(other)
             self._merge_multisig_wallet_balance(other.address, other)
             return self
         # piggy-back on the super class for the actual output merge logic
@@ -2273,10 +2314,21 @@ class WalletsBalance(WalletBalance):
         """
         Assign or merge a multi-sig wallet balance
         """
+        wallet = self._multisig_wallet_get(address, owners=balance.owners, signature_count=balance.signature_count)
+        self._wallets[address] = wallet.balance_add(balance)
+
+    def _multisig_wallet_get(self, address, owners, signature_count):
+        """
+        Get the multi-sig wallet balance for the given address, created in
+        the chain context of this balance if it isn't tracked yet.
+        """
         if address not in self._wallets:
-            self._wallets[address] = MultiSigWalletBalance(
-                owners=balance.owners, signature_count=balance.signature_count)
-        self._wallets[address] = self._wallets[address].balance_add(balance)
+            wallet = MultiSigWalletBalance(owners=owners, signature_count=signature_count)
+            wallet.chain_blockid = self._chain_blockid
+            wallet.chain_height = self.chain_height
+            wallet.chain_time = self.chain_time
+            self._wallets[address] = wallet
+        return self._wallets[address]
 
     def __repr__(self):
         result = super().__repr__()
-- 
2.43.0


From 7a626d49efe93a36441a4f00f56a7f131ce1c816 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:45:37 +0000
Subject: [PATCH 39/77] fix: the transactions of a wallet can be listed while
 one of its addresses has no activity yet

---
 tfchain/TFChainWallet.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 8b7601e..7048516 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -239,8 +239,13 @@ class TFChainWallet:
         # for each address get all transactions
         transactions = set()
         for address in self.addresses:
-            result = self._unlockhash_get(address)
-            transactions.update(result.transactions)
+            try:
+                result = self._unlockhash_get(address)
+                transactions.update(result.transactions)
+            except tfchain.errors.ExplorerNoContent:
+                 # ignore this exception as it simply means
+                 # the address has no activity yet on the chain
+                pass
 
         # sort all transactions
         transactions = sorted(transactions, key=(lambda txn: sys.maxsize if txn.height < 0 else txn.height), reverse=True)
-- 
2.43.0


From ffc66f88261b05ea8ba708dd5671ed0839e28f9a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:45:52 +0000
Subject: [PATCH 40/77] fix: an explorer answer without transactions (null) can
 be read, such as for the address of a co-owner without activity of its own

---
 tfchain/TFChainClient.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index daf9399..dd59e6c 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -180,7 +180,7 @@ class TFChainClient:
                     raise tfchain.errors.ExplorerInvalidResponse("expected block ID '{}' not '{}'".format(blockid, resp['blockid']), endpoint, resp)
             # parse the transactions
             transactions = []
-            for etxn in resp['transactions']:
+            for etxn in resp['transactions'] or []:
                 # parse the explorer transaction
                 transaction = self._transaction_from_explorer_transaction(etxn, endpoint=endpoint, resp=resp)
                 # append the transaction to the list of transactions
@@ -273,7 +273,7 @@ class TFChainClient:
                 raise tfchain.errors.ExplorerInvalidResponse("expected hash type 'unlockhash' not '{}'".format(resp['hashtype']), endpoint, resp)
             # parse the transactions
             transactions = []
-            for etxn in resp['transactions']:
+            for etxn in resp['transactions'] or []:
                 # parse the explorer transaction
                 transaction = self._transaction_from_explorer_transaction(etxn, endpoint=endpoint, resp=resp)
                 # append the transaction to the list of transactions
-- 
2.43.0


From 72a138df9b77a6372c40d6360cb31998082a7660 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:51:25 +0000
Subject: [PATCH 41/77] fix: a (locked) mint condition among the transactions
 of a multi-signature address no longer replaces its balance or crashes

---
 tfchain/TFChainClient.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index dd59e6c..3652bf6 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -561,8 +561,8 @@ class ExplorerUnlockhashResult():
                     if balance is None:
                         balance = MultiSigWalletBalance(owners=oc.unlockhashes, signature_count=oc.required_signatures)
                     balance.output_add(co, confirmed=(not txn.unconfirmed), spent=False)
-            if isinstance(txn, TransactionV128):
-                oc = txn.mint_condition
+            if balance is None and isinstance(txn, TransactionV128) and str(txn.mint_condition.unlockhash) == address:
+                oc = txn.mint_condition.unwrap()
                 balance = MultiSigWalletBalance(owners=oc.unlockhashes, signature_count=oc.required_signatures)
         if balance is None:
             return WalletBalance() # return empty balance
-- 
2.43.0


From 68dde0f66af71bba7ef3a5458592427978851f4a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:59:19 +0000
Subject: [PATCH 42/77] fix: a transaction can be funded from a list of one
 source address given as text

---
 tfchain/TFChainWallet.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 7048516..b39de80 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2363,11 +2363,10 @@ class WalletsBalance(WalletBalance):
                 elif not isinstance(source, UnlockHash):
                     raise TypeError("cannot add source address from type {}".format(type(source)))
                 source = [source]
+            source = [UnlockHash.from_json(value) if isinstance(value, str) else value for value in source]
             # add one or multiple personal/multisig addresses
             for value in source:
-                if isinstance(value, str):
-                    value = UnlockHash.from_json(value)
-                elif not isinstance(value, UnlockHash):
+                if not isinstance(value, UnlockHash):
                     raise TypeError("cannot add source address from type {}".format(type(value)))
                 if value.type == UnlockHashType.MULTI_SIG:
                     ms_addresses.add(value)
-- 
2.43.0


From 9940da65638d131cd996800a3d49611d0305715d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:59:21 +0000
Subject: [PATCH 43/77] fix: when more than 99 outputs are needed the smallest
 ones are left out, also over several wallets, so that a fundable amount is
 funded

---
 tfchain/TFChainWallet.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index b39de80..59a3db6 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2410,6 +2410,13 @@ class WalletsBalance(WalletBalance):
             raise tfchain.errors.InsufficientFunds("not enough funds available in the wallets to fund the requested amount")
         return ([CoinInput.from_coin_output(co) for co in outputs], collected-amount, refund)
 
+    @staticmethod
+    def _pop_smallest(outputs):
+        """
+        Remove the smallest output from the given list and return it.
+        """
+        return outputs.pop(min(range(len(outputs)), key=lambda i: outputs[i].value))
+
     def _fund_individual(self, amount, addresses):
         outputs_available = [co for co in self.outputs_available if co.condition.unlockhash in addresses]
         outputs_available.sort(key=lambda co: co.value)
@@ -2423,7 +2430,7 @@ class WalletsBalance(WalletBalance):
             outputs.append(co)
             if len(outputs) > _MAX_RIVINE_TRANSACTION_INPUTS:
                 # to not reach the input limit
-                collected -= outputs.pop(0).value
+                collected -= self._pop_smallest(outputs).value
             if collected >= amount:
                 return outputs, collected
 
@@ -2441,7 +2448,7 @@ class WalletsBalance(WalletBalance):
             outputs.append(co)
             if len(outputs) > _MAX_RIVINE_TRANSACTION_INPUTS:
                 # to not reach the input limit
-                collected -= outputs.pop(0).value
+                collected -= self._pop_smallest(outputs).value
             if collected >= amount:
                 return outputs, collected
 
@@ -2468,7 +2475,7 @@ class WalletsBalance(WalletBalance):
                 outputs.append(co)
                 if len(outputs) > _MAX_RIVINE_TRANSACTION_INPUTS:
                     # to not reach the input limit
-                    collected -= outputs.pop(0).value
+                    collected -= self._pop_smallest(outputs).value
                 if collected >= amount:
                     return outputs, collected
 
@@ -2486,7 +2493,7 @@ class WalletsBalance(WalletBalance):
                 outputs.append(co)
                 if len(outputs) > _MAX_RIVINE_TRANSACTION_INPUTS:
                     # to not reach the input limit
-                    collected -= outputs.pop(0).value
+                    collected -= self._pop_smallest(outputs).value
                 if collected >= amount:
                     return outputs, collected
         # we return whatever we have collected, no matter if it is sufficient
-- 
2.43.0


From 179d122b06596635a3b5f033e4c959bc57f5b8c7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:01:06 +0000
Subject: [PATCH 44/77] fix: outputs that do not exceed the miner fee are left
 alone when draining, instead of a crash or an output without value

---
 tfchain/TFChainWallet.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 59a3db6..34270c6 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2111,15 +2111,18 @@ class WalletBalance(object):
             outputs += self.outputs_unconfirmed_available
         # drain all outputs
         while len(outputs) > 0:
-            txn = tftransactions.new()
-            txn.data = data
-            txn.miner_fee_add(miner_fee)
             # select maximum _MAX_RIVINE_TRANSACTION_INPUTS outputs
             n = min(len(outputs), _MAX_RIVINE_TRANSACTION_INPUTS)
             used_outputs = outputs[:n]
             outputs = outputs[n:] # and update our output list, so we do not double spend
+            total = sum([co.value for co in used_outputs])
+            if total <= miner_fee:
+                continue # these outputs cannot pay for more than the miner fee
+            txn = tftransactions.new()
+            txn.data = data
+            txn.miner_fee_add(miner_fee)
             # compute amount, minus minimum fee and add our only output
-            amount = sum([co.value for co in used_outputs]) - miner_fee
+            amount = total - miner_fee
             txn.coin_output_add(condition=recipient, value=amount)
             # add the coin inputs
             txn.coin_inputs = [CoinInput.from_coin_output(co) for co in used_outputs]
-- 
2.43.0


From 05ef275d9ea9cdf10819edc9c1628d570ade2135 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:12:46 +0000
Subject: [PATCH 45/77] fix: no unused key in front of a used one is skipped
 when scanning

---
 tfchain/TFChainWallet.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 34270c6..ad3f0e5 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -286,15 +286,13 @@ class TFChainWallet:
             if not reduce(lambda a, b: a or b, used_pairs):
                 break
 
-            last_index = 0
-            for idx, pair in enumerate(pairs):
+            # add all used pairs, and keep the unused pairs that came before the last used one
+            last_index = max(idx for idx, used in enumerate(used_pairs) if used)
+            for idx, pair in enumerate(pairs[:last_index+1]):
                 if used_pairs[idx]:
-                    last_index = idx
                     self._key_pair_add(pair, add_count=False)
                 else:
                     self._unused_key_pairs.append(pair)
-            # remove the unused pairs that came after the last known index
-            self._unused_key_pairs = self._unused_key_pairs[:-count+last_index]
             # update the new key count
             self._key_count += last_index + 1
 
-- 
2.43.0


From ba2f0f0b5dfb172a5fe9bb008b07b0e28ccba03e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:12:58 +0000
Subject: [PATCH 46/77] fix: scanning goes on after the last used key, until no
 key in the window is used

---
 tfchain/TFChainWallet.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index ad3f0e5..cca4553 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -295,11 +295,7 @@ class TFChainWallet:
                     self._unused_key_pairs.append(pair)
             # update the new key count
             self._key_count += last_index + 1
-
-            # if the last pair is not used, we can stop scanning
-            if not used_pairs[-1]:
-                break
-            # otherwise continue
+            # continue with the pairs that come after the last used one
 
         # return if we scanned new keys
         return self.key_count > key_count_start
-- 
2.43.0


From ac0dfb73d36236afc723f8f23d719f29d6256458 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:13:25 +0000
Subject: [PATCH 47/77] fix: a seed given as bytearray is copied, changing it
 later no longer changes the keys of the wallet

---
 tfchain/TFChainWallet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index cca4553..d3589c6 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -60,6 +60,8 @@ class TFChainWallet:
             self._seed = self._mnemonic_api.to_entropy(self._seed)
         elif not isinstance (self._seed, (bytearray, bytes)):
             raise TypeError("seed has to be a mnemonic or raw (bytes) seed, not be of type {}".format(type(self._seed)))
+        # keep our own (immutable) copy, as all keys have to be derived from the same seed
+        self._seed = bytes(self._seed)
 
         # add key count and key_start_index
         self._key_count = max(1, key_count)
-- 
2.43.0


From 89352395c01aae20104df21b8fb58007bfb64a3d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:41:39 +0000
Subject: [PATCH 48/77] fix: a wallet can sign for its 3Bot in an update or
 name transfer received as JSON, the public keys of the 3Bots are looked up

---
 tfchain/TFChainWallet.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index d3589c6..0dfd7e6 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -19,6 +19,7 @@ from tfchain.types.AtomicSwap import AtomicSwapContract
 from tfchain.types.ERC20 import ERC20Address
 from tfchain.types.transactions.Base import TransactionBaseClass
 from tfchain.types.transactions.Minting import TransactionV128, TransactionV129
+from tfchain.types.transactions.ThreeBot import TransactionV145, TransactionV146
 
 _DEFAULT_KEY_SCAN_COUNT = 3
 
@@ -473,6 +474,13 @@ class TFChainWallet:
             # define the current fulfillment if it is not defined
             if not txn.mint_fulfillment_defined():
                 txn.mint_fulfillment = FulfillmentTypes.from_condition(txn.parent_mint_condition)
+        elif isinstance(txn, TransactionV145):
+            # set the public key of the 3Bot that is updated
+            txn.parent_public_key = self._threebot_public_key_get(txn.botid)
+        elif isinstance(txn, TransactionV146):
+            # set the public keys of both 3Bots
+            txn.sender_parent_public_key = self._threebot_public_key_get(txn.sender_botid)
+            txn.receiver_parent_public_key = self._threebot_public_key_get(txn.receiver_botid)
 
         # generate the signature requests
         sig_requests = txn.signature_requests_new()
@@ -513,6 +521,15 @@ class TFChainWallet:
         # return up-to-date Txn, as well as if we signed and submitted
         return TransactionSignResult(txn, (signature_count>0), submit)
 
+    def _threebot_public_key_get(self, identifier):
+        """
+        Returns the public key of the given 3Bot, None if there is no such 3Bot.
+        """
+        try:
+            return self.client.threebot.record_get(identifier).public_key
+        except tfchain.errors.ThreeBotNotFound:
+            return None
+
     def address_new(self):
         """
         Generate a new wallet address,
-- 
2.43.0


From bb4d89ded9406b0d4134261f3942d1a90f511d71 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:47:58 +0000
Subject: [PATCH 49/77] fix: an empty text (or offset) is refused as lock
 instead of meaning no lock or now

---
 tfchain/types/ConditionTypes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tfchain/types/ConditionTypes.py b/tfchain/types/ConditionTypes.py
index 5d678c8..e98a11d 100644
--- a/tfchain/types/ConditionTypes.py
+++ b/tfchain/types/ConditionTypes.py
@@ -128,7 +128,9 @@ class OutputLock:
                 raise ValueError("output lock value cannot be negative")
             self._value = int(value)
         elif isinstance(value, str):
-            value = value.lstrip()
+            value = value.strip()
+            if not value.strip("+'\" "):
+                raise ValueError("an empty string cannot be used as output lock")
             if value[0] == "+":
                 # interpret string as a duration
                 offset = duration.fromString(value[1:])
-- 
2.43.0


From d7a1b1f97d5506ae241039a9593f1e1c5afdb007 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:48:10 +0000
Subject: [PATCH 50/77] fix: a lock offset in the past such as -4h counts from
 the given current timestamp, as one in the future does

---
 tfchain/types/ConditionTypes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tfchain/types/ConditionTypes.py b/tfchain/types/ConditionTypes.py
index e98a11d..2d00701 100644
--- a/tfchain/types/ConditionTypes.py
+++ b/tfchain/types/ConditionTypes.py
@@ -135,6 +135,9 @@ class OutputLock:
                 # interpret string as a duration
                 offset = duration.fromString(value[1:])
                 self._value = current_timestamp + offset
+            elif value[0] == "-":
+                # interpret string as an offset in the past
+                self._value = current_timestamp + jstime.getDeltaTime(value)
             else:
                 # interpret string as a datetime
                 self._value = jsdatetime.fromString(value)
-- 
2.43.0


From 9056dcfafd98837e884dab97f2447672395bb245 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:48:12 +0000
Subject: [PATCH 51/77] fix: a date, datetime, timedelta or offset that gives a
 negative lock is refused as a negative number is

---
 tfchain/types/ConditionTypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/types/ConditionTypes.py b/tfchain/types/ConditionTypes.py
index 2d00701..406417c 100644
--- a/tfchain/types/ConditionTypes.py
+++ b/tfchain/types/ConditionTypes.py
@@ -124,8 +124,6 @@ class OutputLock:
         elif isinstance(value, OutputLock):
             self._value = value.value
         elif isinstance(value, int):
-            if value < 0:
-                raise ValueError("output lock value cannot be negative")
             self._value = int(value)
         elif isinstance(value, str):
             value = value.strip()
@@ -147,6 +145,8 @@ class OutputLock:
             self._value = int(value.timestamp())
         else:
             raise TypeError("cannot set OutputLock using invalid type {}".format(type(value)))
+        if self._value < 0:
+            raise ValueError("output lock value cannot be negative")
 
     def __int__(self):
         return self._value
-- 
2.43.0


From f0db3cbe02953ffda00791828e798893e7849501 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:48:26 +0000
Subject: [PATCH 52/77] fix: a lock given as a time of today such as 12:00:10,
 as documented, is accepted

---
 tfchain/internal/jsutils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tfchain/internal/jsutils.py b/tfchain/internal/jsutils.py
index ecac82e..13b5543 100644
--- a/tfchain/internal/jsutils.py
+++ b/tfchain/internal/jsutils.py
@@ -522,6 +522,7 @@ class DateTime:
         - year(2char)/month/day
         - day/month/4char
         - year(4char)/month/day 22:50
+        - 22:50  (will be today if specified this way)
         - +4h
         - -4h
         in stead of h also supported: s (second) ,m (min) ,h (hour) ,d (day),w (week), M (month), Y (year)
@@ -585,7 +586,11 @@ class DateTime:
 
             if ":" in v:
                 # have time inside the representation
-                dd, tt = v.split(" ", 1)
+                if "/" in v:
+                    dd, tt = v.split(" ", 1)
+                else:
+                    # no date, the time is one of today
+                    dd, tt = jstime.epoch2HRDate(jstime.epoch), v
                 tt, tfstr = time_process(tt)
             else:
                 tt, tfstr = time_process("")
-- 
2.43.0


From b59d3c0649d3c6eb0abaa294cc122334093c021b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:48:44 +0000
Subject: [PATCH 53/77] fix: a lock around an already locked condition or an
 atomic swap, which the chain does not know, is refused instead of submitted

---
 tfchain/types/ConditionTypes.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tfchain/types/ConditionTypes.py b/tfchain/types/ConditionTypes.py
index 406417c..44185ba 100644
--- a/tfchain/types/ConditionTypes.py
+++ b/tfchain/types/ConditionTypes.py
@@ -667,6 +667,8 @@ class ConditionLockTime(ConditionBaseClass):
             return
         if not isinstance(value, ConditionBaseClass):
             raise TypeError("ConditionLockTime's condition is expected to be a subtype of ConditionBaseClass, not of type {}".format(type(value)))
+        if value.type not in (_CONDITION_TYPE_UNLOCK_HASH, _CONDITION_TYPE_MULTI_SIG, _CONDITION_TYPE_NIL):
+            raise ValueError("internal condition of ConditionLockTime cannot be of type {}".format(value.type))
         self._condition = value
 
     def unwrap(self):
@@ -674,10 +676,7 @@ class ConditionLockTime(ConditionBaseClass):
 
     def from_json_data_object(self, data):
         self.lock = json_int(data['locktime'])
-        cond = from_json(obj=data['condition'])
-        if cond.type not in(_CONDITION_TYPE_UNLOCK_HASH, _CONDITION_TYPE_MULTI_SIG, _CONDITION_TYPE_NIL):
-            raise ValueError("internal condition of ConditionLockTime cannot be of type {}".format(cond.type))
-        self.condition = cond
+        self.condition = from_json(obj=data['condition'])
 
     def json_data_object(self):
         return {
-- 
2.43.0


From 6736f0be3dfd3480ef77e5c0f9ff8100f503da4e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:03:32 +0000
Subject: [PATCH 54/77] fix: an answer that is no JSON object, or has data of
 the wrong type, raises ExplorerInvalidResponse

---
 tfchain/TFChainClient.py | 138 +++++++++++++++++++++++++--------------
 1 file changed, 90 insertions(+), 48 deletions(-)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index 3652bf6..cd2eff6 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -19,6 +19,25 @@ from tfchain.types.transactions.Minting import TransactionV128
 from tfchain.TFChainWallet import WalletBalance, MultiSigWalletBalance
 from tfchain.TFChainExplorerClient import TFChainExplorerClient
 
+def _invalid_response(exc, endpoint, resp):
+    """
+    Create the error for an answer that could not be read, for the reason given by exc.
+    """
+    return tfchain.errors.ExplorerInvalidResponse(
+        "{}: {}".format(type(exc).__name__, exc), endpoint, resp if isinstance(resp, dict) else {'response': resp})
+
+def _response_load(data, endpoint):
+    """
+    Decode the answer of an explorer, which is always expected to be a JSON object.
+    """
+    try:
+        resp = json_loads(data)
+    except Exception as exc:
+        raise _invalid_response(exc, endpoint, {}) from exc
+    if not isinstance(resp, dict):
+        raise tfchain.errors.ExplorerInvalidResponse("expected a JSON object, not a value of type {}".format(type(resp)), endpoint, {'response': resp})
+    return resp
+
 class NetworkType:
     def __init__(self, value):
         if isinstance(value, NetworkType):
@@ -98,9 +117,13 @@ class TFChainClient:
             raise TypeError("explorer client has to be of type TFChainExplorerClient not {}".format(type(explorer_client)))
         elif self._network_type is None:
             # fetch network type from the explorer client
-            resp = self._explorer_client.get("/explorer/constants")
-            resp = json_loads(resp)
-            self._network_type = NetworkType.from_str(resp.get("chaininfo", {}).get("NetworkName", "standard"))
+            endpoint = "/explorer/constants"
+            resp = self._explorer_client.get(endpoint)
+            resp = _response_load(resp, endpoint)
+            try:
+                self._network_type = NetworkType.from_str(resp.get("chaininfo", {}).get("NetworkName", "standard"))
+            except Exception as exc:
+                raise _invalid_response(exc, endpoint, resp) from exc
 
         # create subclients
         self._threebot = TFChainThreeBotClient(self)
@@ -147,9 +170,13 @@ class TFChainClient:
         """
         Get the current blockchain info, using the last known block, as reported by an explorer.
         """
-        resp = self.explorer_get(endpoint="/explorer")
-        resp = json_loads(resp)
-        blockid = Hash.from_json(obj=resp['blockid'])
+        endpoint = "/explorer"
+        resp = self.explorer_get(endpoint=endpoint)
+        resp = _response_load(resp, endpoint)
+        try:
+            blockid = Hash.from_json(obj=resp['blockid'])
+        except Exception as exc:
+            raise _invalid_response(exc, endpoint, resp) from exc
         last_block = self.block_get(blockid)
         return ExplorerBlockchainInfo(last_block=last_block)
 
@@ -159,20 +186,19 @@ class TFChainClient:
         
         @param value: the identifier or height that points to the desired block
         """
-        endpoint = "/explorer/?"
-        resp = {}
+        # get the explorer block
+        blockid = None
+        if isinstance(value, int):
+            endpoint = "/explorer/blocks/{}".format(int(value))
+        else:
+            blockid = self._normalize_id(value)
+            endpoint = "/explorer/hashes/"+blockid
+        resp = self.explorer_get(endpoint=endpoint)
+        resp = _response_load(resp, endpoint)
         try:
-            # get the explorer block
-            if isinstance(value, int):
-                endpoint = "/explorer/blocks/{}".format(int(value))
-                resp = self.explorer_get(endpoint=endpoint)
-                resp = json_loads(resp)
+            if blockid is None:
                 resp = resp['block']
             else:
-                blockid = self._normalize_id(value)
-                endpoint = "/explorer/hashes/"+blockid
-                resp = self.explorer_get(endpoint=endpoint)
-                resp = json_loads(resp)
                 if resp['hashtype'] != 'blockid':
                     raise tfchain.errors.ExplorerInvalidResponse("expected hash type 'blockid' not '{}'".format(resp['hashtype']), endpoint, resp)
                 resp = resp['block']
@@ -209,9 +235,11 @@ class TFChainClient:
                 id=blockid, parentid=parentid,
                 height=height, timestamp=timestamp,
                 transactions=transactions, miner_payouts=miner_payouts)
-        except KeyError as exc:
-            # return a KeyError as an invalid Explorer Response
-            raise tfchain.errors.ExplorerInvalidResponse(str(exc), endpoint, resp) from exc
+        except tfchain.errors.ExplorerError:
+            raise
+        except Exception as exc:
+            # return missing or malformed data as an invalid Explorer Response
+            raise _invalid_response(exc, endpoint, resp) from exc
 
     def transaction_get(self, txid):
         """
@@ -222,7 +250,7 @@ class TFChainClient:
         txid = self._normalize_id(txid)
         endpoint = "/explorer/hashes/"+txid
         resp = self.explorer_get(endpoint=endpoint)
-        resp = json_loads(resp)
+        resp = _response_load(resp, endpoint)
         try:
             if resp['hashtype'] != 'transactionid':
                 raise tfchain.errors.ExplorerInvalidResponse("expected hash type 'transactionid' not '{}'".format(resp['hashtype']), endpoint, resp)
@@ -230,9 +258,11 @@ class TFChainClient:
             if resp['id'] != txid:
                 raise tfchain.errors.ExplorerInvalidResponse("expected transaction ID '{}' not '{}'".format(txid, resp['id']), endpoint, resp)
             return self._transaction_from_explorer_transaction(resp, endpoint=endpoint, resp=resp)
-        except KeyError as exc:
-            # return a KeyError as an invalid Explorer Response
-            raise tfchain.errors.ExplorerInvalidResponse(str(exc), endpoint, resp) from exc
+        except tfchain.errors.ExplorerError:
+            raise
+        except Exception as exc:
+            # return missing or malformed data as an invalid Explorer Response
+            raise _invalid_response(exc, endpoint, resp) from exc
 
     def transaction_put(self, transaction):
         """
@@ -244,12 +274,14 @@ class TFChainClient:
             transaction = transaction.json()
         endpoint = "/transactionpool/transactions"
         resp = self.explorer_post(endpoint=endpoint, data=transaction)
-        resp = json_loads(resp)
+        resp = _response_load(resp, endpoint)
         try:
             return str(Hash(value=resp['transactionid']))
-        except KeyError as exc:
-            # return a KeyError as an invalid Explorer Response
-            raise tfchain.errors.ExplorerInvalidResponse(str(exc), endpoint, resp) from exc
+        except tfchain.errors.ExplorerError:
+            raise
+        except Exception as exc:
+            # return missing or malformed data as an invalid Explorer Response
+            raise _invalid_response(exc, endpoint, resp) from exc
 
     def unlockhash_get(self, target):
         """
@@ -267,7 +299,7 @@ class TFChainClient:
         unlockhash = str(ConditionTypes.from_recipient(target).unlockhash)
         endpoint = "/explorer/hashes/"+unlockhash
         resp = self.explorer_get(endpoint=endpoint)
-        resp = json_loads(resp)
+        resp = _response_load(resp, endpoint)
         try:
             if resp['hashtype'] != 'unlockhash':
                 raise tfchain.errors.ExplorerInvalidResponse("expected hash type 'unlockhash' not '{}'".format(resp['hashtype']), endpoint, resp)
@@ -302,9 +334,11 @@ class TFChainClient:
                 multisig_addresses=multisig_addresses,
                 erc20_info=erc20_info,
                 client=self)
-        except KeyError as exc:
-            # return a KeyError as an invalid Explorer Response
-            raise tfchain.errors.ExplorerInvalidResponse(str(exc), endpoint, resp) from exc
+        except tfchain.errors.ExplorerError:
+            raise
+        except Exception as exc:
+            # return missing or malformed data as an invalid Explorer Response
+            raise _invalid_response(exc, endpoint, resp) from exc
 
     def coin_output_get(self, id):
         """
@@ -340,7 +374,7 @@ class TFChainClient:
         id = self._normalize_id(id)
         endpoint = "/explorer/hashes/"+id
         resp = self.explorer_get(endpoint=endpoint)
-        resp = json_loads(resp)
+        resp = _response_load(resp, endpoint)
         try:
             hash_type = resp['hashtype']
             if hash_type != expected_hash_type:
@@ -371,9 +405,11 @@ class TFChainClient:
                 raise tfchain.errors.ExplorerInvalidResponse("expected output {} to be part of creation Tx, but it wasn't".format(id), endpoint, resp)
             # return the output and related transaction(s)
             return (output, creation_txn, spend_txn)
-        except KeyError as exc:
-            # return a KeyError as an invalid Explorer Response
-            raise tfchain.errors.ExplorerInvalidResponse(str(exc), endpoint, resp) from exc
+        except tfchain.errors.ExplorerError:
+            raise
+        except Exception as exc:
+            # return missing or malformed data as an invalid Explorer Response
+            raise _invalid_response(exc, endpoint, resp) from exc
 
     def _transaction_from_explorer_transaction(self, etxn, endpoint="/?", resp=None): # keyword parameters for error handling purposes only
         if resp is None:
@@ -712,14 +748,16 @@ class TFChainMinterClient():
 
         # get the mint condition
         resp = self._client.explorer_get(endpoint=endpoint)
-        resp = json_loads(resp)
+        resp = _response_load(resp, endpoint)
 
         try:
             # return the decoded mint condition
             return ConditionTypes.from_json(obj=resp['mintcondition'])
-        except KeyError as exc:
-            # return a KeyError as an invalid Explorer Response
-            raise tfchain.errors.ExplorerInvalidResponse(str(exc), endpoint, resp) from exc
+        except tfchain.errors.ExplorerError:
+            raise
+        except Exception as exc:
+            # return missing or malformed data as an invalid Explorer Response
+            raise _invalid_response(exc, endpoint, resp) from exc
 
 
 class TFChainThreeBotClient():
@@ -764,7 +802,7 @@ class TFChainThreeBotClient():
             resp = self._client.explorer_get(endpoint=endpoint)
         except tfchain.errors.ExplorerNoContent as exc:
             raise tfchain.errors.ThreeBotNotFound(identifier) from exc
-        resp = json_loads(resp)
+        resp = _response_load(resp, endpoint)
         try:
             # return the fetched record as a named tuple, for easy semi-typed access
             record = resp['record']
@@ -775,9 +813,11 @@ class TFChainThreeBotClient():
                 public_key=PublicKey.from_json(record['publickey']),
                 expiration=int(record['expiration']),
             )
-        except KeyError as exc:
-            # return a KeyError as an invalid Explorer Response
-            raise tfchain.errors.ExplorerInvalidResponse(str(exc), endpoint, resp) from exc
+        except tfchain.errors.ExplorerError:
+            raise
+        except Exception as exc:
+            # return missing or malformed data as an invalid Explorer Response
+            raise _invalid_response(exc, endpoint, resp) from exc
 
 
 class TFChainERC20Client():
@@ -809,7 +849,7 @@ class TFChainERC20Client():
     
         endpoint = "/explorer/hashes/"+str(unlockhash)
         resp = self._client.explorer_get(endpoint=endpoint)
-        resp = json_loads(resp)
+        resp = _response_load(resp, endpoint)
         try:
             if resp['hashtype'] != 'unlockhash':
                 raise tfchain.errors.ExplorerInvalidResponse("expected hash type 'unlockhash' not '{}'".format(resp['hashtype']), endpoint, resp)
@@ -822,9 +862,11 @@ class TFChainERC20Client():
                 address_erc20=ERC20Address.from_json(info['erc20address']),
                 confirmations=int(info['confirmations']),
             )
-        except KeyError as exc:
-            # return a KeyError as an invalid Explorer Response
-            raise tfchain.errors.ExplorerInvalidResponse(str(exc), endpoint, resp) from exc
+        except tfchain.errors.ExplorerError:
+            raise
+        except Exception as exc:
+            # return missing or malformed data as an invalid Explorer Response
+            raise _invalid_response(exc, endpoint, resp) from exc
 
 class ThreeBotRecord():
     """
-- 
2.43.0


From 3283b068d65e3743fcc229996dc1ad8cd4c41b64 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:03:33 +0000
Subject: [PATCH 55/77] fix: an answer without a required identifier is
 invalid, it is not read as the nil hash

---
 tfchain/TFChainClient.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index cd2eff6..cd83b93 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -26,6 +26,14 @@ def _invalid_response(exc, endpoint, resp):
     return tfchain.errors.ExplorerInvalidResponse(
         "{}: {}".format(type(exc).__name__, exc), endpoint, resp if isinstance(resp, dict) else {'response': resp})
 
+def _response_id(obj):
+    """
+    Read an identifier out of the answer of an explorer, where it is never optional.
+    """
+    if not obj:
+        raise ValueError("identifier is missing")
+    return Hash.from_json(obj=obj)
+
 def _response_load(data, endpoint):
     """
     Decode the answer of an explorer, which is always expected to be a JSON object.
@@ -174,7 +182,7 @@ class TFChainClient:
         resp = self.explorer_get(endpoint=endpoint)
         resp = _response_load(resp, endpoint)
         try:
-            blockid = Hash.from_json(obj=resp['blockid'])
+            blockid = _response_id(resp['blockid'])
         except Exception as exc:
             raise _invalid_response(exc, endpoint, resp) from exc
         last_block = self.block_get(blockid)
@@ -213,7 +221,7 @@ class TFChainClient:
                 transactions.append(transaction)
             rawblock = resp['rawblock']
             # parse the parent id
-            parentid = Hash.from_json(obj=rawblock['parentid'])
+            parentid = _response_id(rawblock['parentid'])
             # parse the miner payouts
             miner_payouts = []
             minerpayoutids = resp.get('minerpayoutids', None) or []
@@ -221,7 +229,7 @@ class TFChainClient:
             if len(eminerpayouts) != len(minerpayoutids):
                 raise tfchain.errors.ExplorerInvalidResponse("amount of miner payouts and payout ids are not matching: {} != {}".format(len(eminerpayouts), len(minerpayoutids)), endpoint, resp)
             for idx, mp in enumerate(eminerpayouts):
-                id = Hash.from_json(minerpayoutids[idx])
+                id = _response_id(minerpayoutids[idx])
                 value = Currency.from_json(mp['value'])
                 unlockhash = UnlockHash.from_json(mp['unlockhash'])
                 miner_payouts.append(ExplorerMinerPayout(id=id, value=value, unlockhash=unlockhash))
@@ -229,7 +237,7 @@ class TFChainClient:
             height = int(resp['height'])
             timestamp = int(rawblock['timestamp'])
             # get the block's identifier
-            blockid = Hash.from_json(resp['blockid'])
+            blockid = _response_id(resp['blockid'])
             # return the block, as reported by the explorer
             return ExplorerBlock(
                 id=blockid, parentid=parentid,
@@ -276,7 +284,7 @@ class TFChainClient:
         resp = self.explorer_post(endpoint=endpoint, data=transaction)
         resp = _response_load(resp, endpoint)
         try:
-            return str(Hash(value=resp['transactionid']))
+            return str(_response_id(resp['transactionid']))
         except tfchain.errors.ExplorerError:
             raise
         except Exception as exc:
@@ -415,7 +423,7 @@ class TFChainClient:
         if resp is None:
             resp = {}
         # parse the transactions
-        transaction = transactions.from_json(obj=etxn['rawtransaction'], id=etxn['id'])
+        transaction = transactions.from_json(obj=etxn['rawtransaction'], id=_response_id(etxn['id']))
         # add the parent (coin) outputs
         coininputoutputs = etxn.get('coininputoutputs', None) or []
         if len(transaction.coin_inputs) != len(coininputoutputs):
@@ -429,7 +437,7 @@ class TFChainClient:
         if len(transaction.coin_outputs) != len(coinoutputids):
             raise tfchain.errors.ExplorerInvalidResponse("amount of coin outputs and output identifiers are not matching: {} != {}".format(len(transaction.coin_outputs), len(coinoutputids)), endpoint, resp)
         for (idx, id) in enumerate(coinoutputids):
-            transaction.coin_outputs[idx].id = Hash.from_json(obj=id)
+            transaction.coin_outputs[idx].id = _response_id(id)
         # add the parent (blockstake) outputs
         blockstakeinputoutputs = etxn.get('blockstakeinputoutputs', None) or []
         if len(transaction.blockstake_inputs) != len(blockstakeinputoutputs):
@@ -443,7 +451,7 @@ class TFChainClient:
         if len(transaction.blockstake_outputs) != len(blockstakeoutputids):
             raise tfchain.errors.ExplorerInvalidResponse("amount of blokstake outputs and output identifiers are not matching: {} != {}".format(len(transaction.blockstake_inputs), len(blockstakeoutputids)), endpoint, resp)
         for (idx, id) in enumerate(blockstakeoutputids):
-            transaction.blockstake_outputs[idx].id = Hash.from_json(obj=id)
+            transaction.blockstake_outputs[idx].id = _response_id(id)
         # set the unconfirmed state
         transaction.unconfirmed = etxn.get('unconfirmed', False)
         # set the height of the transaction only if confirmed
-- 
2.43.0


From 2e0be12abec86a099567f8e393d608a3f382031c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:03:35 +0000
Subject: [PATCH 56/77] fix: creation and spend transaction of an output are
 recognised by their content, unconfirmed or in the same block too

---
 tfchain/TFChainClient.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index cd83b93..32817cd 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -392,23 +392,21 @@ class TFChainClient:
             if lresp not in (1, 2):
                 raise tfchain.errors.ExplorerInvalidResponse("expected one or two transactions to be returned, not {}".format(lresp), endpoint, resp)
             # parse the transaction(s)
-            creation_txn = tresp[0]
-            spend_txn = None
-            if lresp == 2:
-                if tresp[1]['height'] > creation_txn['height']:
-                    spend_txn = tresp[1]
+            creation_txn, spend_txn, output = None, None, None
+            for etxn in tresp:
+                txn = self._transaction_from_explorer_transaction(etxn, endpoint=endpoint, resp=resp)
+                outputs, inputs = txn.coin_outputs, txn.coin_inputs
+                if hash_type == 'blockstakeoutputid':
+                    outputs, inputs = txn.blockstake_outputs, txn.blockstake_inputs
+                # the transaction that contains the output created it, the one that refers to it spends it,
+                # their heights do not tell: both can be in the same block, or unconfirmed
+                created = next((out for out in outputs if str(out.id) == id), None)
+                if created is not None and output is None:
+                    creation_txn, output = txn, created
+                elif spend_txn is None and any(str(ci.parentid) == id for ci in inputs):
+                    spend_txn = txn
                 else:
-                    spend_txn = creation_txn
-                    creation_txn = tresp[1]
-            creation_txn = self._transaction_from_explorer_transaction(creation_txn, endpoint=endpoint, resp=resp)
-            if spend_txn is not None:
-                spend_txn = self._transaction_from_explorer_transaction(spend_txn, endpoint=endpoint, resp=resp)
-            # collect the output
-            output = None
-            for out in (creation_txn.coin_outputs if hash_type == 'coinoutputid' else creation_txn.blockstake_outputs):
-                if str(out.id) == id:
-                    output = out
-                    break
+                    raise tfchain.errors.ExplorerInvalidResponse("transaction {} neither creates nor spends output {}".format(txn.id, id), endpoint, resp)
             if output is None:
                 raise tfchain.errors.ExplorerInvalidResponse("expected output {} to be part of creation Tx, but it wasn't".format(id), endpoint, resp)
             # return the output and related transaction(s)
-- 
2.43.0


From bbd80a107fe9da58cebbf2a2378c625ff4554d90 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:03:36 +0000
Subject: [PATCH 57/77] fix: an answer about another block, ERC20 address or
 3Bot than the requested one is invalid

---
 tfchain/TFChainClient.py | 42 ++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index 32817cd..8987f3f 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -196,8 +196,10 @@ class TFChainClient:
         """
         # get the explorer block
         blockid = None
+        requested_height = None
         if isinstance(value, int):
-            endpoint = "/explorer/blocks/{}".format(int(value))
+            requested_height = int(value)
+            endpoint = "/explorer/blocks/{}".format(requested_height)
         else:
             blockid = self._normalize_id(value)
             endpoint = "/explorer/hashes/"+blockid
@@ -236,6 +238,8 @@ class TFChainClient:
             # get the timestamp and height
             height = int(resp['height'])
             timestamp = int(rawblock['timestamp'])
+            if requested_height is not None and height != requested_height:
+                raise tfchain.errors.ExplorerInvalidResponse("expected block at height {} not {}".format(requested_height, height), endpoint, resp)
             # get the block's identifier
             blockid = _response_id(resp['blockid'])
             # return the block, as reported by the explorer
@@ -325,12 +329,7 @@ class TFChainClient:
                     raise tfchain.errors.ExplorerInvalidResponse("invalid unlock hash type {} for MultiSignature Address (expected: 3)".format(addr.type), endpoint, resp)
             erc20_info = None
             if 'erc20info' in resp:
-                info = resp['erc20info']
-                erc20_info = ERC20AddressInfo(
-                    address_tft=UnlockHash.from_json(info['tftaddress']),
-                    address_erc20=ERC20Address.from_json(info['erc20address']),
-                    confirmations=int(info['confirmations']),
-                )
+                erc20_info = _erc20_info_from_response(resp['erc20info'], unlockhash)
 
             # sort the transactions by height
             transactions.sort(key=(lambda txn: sys.maxsize if txn.height < 0 else txn.height), reverse=True)
@@ -634,6 +633,19 @@ class ERC20AddressInfo():
     def confirmations(self):
         return self._confirmations
 
+def _erc20_info_from_response(info, unlockhash):
+    """
+    Read the ERC20 address information, as reported by an explorer for the given unlockhash.
+    """
+    address_tft = UnlockHash.from_json(info['tftaddress'])
+    if str(address_tft) != unlockhash:
+        raise ValueError("expected ERC20 address information for {} not {}".format(unlockhash, address_tft))
+    return ERC20AddressInfo(
+        address_tft=address_tft,
+        address_erc20=ERC20Address.from_json(info['erc20address']),
+        confirmations=int(info['confirmations']),
+    )
+
 class ExplorerBlock():
     def __init__(self, id, parentid, height, timestamp, transactions, miner_payouts):
         """
@@ -812,13 +824,20 @@ class TFChainThreeBotClient():
         try:
             # return the fetched record as a named tuple, for easy semi-typed access
             record = resp['record']
-            return ThreeBotRecord(
+            record = ThreeBotRecord(
                 identifier=int(record['id']),
                 names=[BotName.from_json(name) for name in record.get('names', []) or []],
                 addresses=[NetworkAddress.from_json(address) for address in record.get('addresses', []) or []],
                 public_key=PublicKey.from_json(record['publickey']),
                 expiration=int(record['expiration']),
             )
+            # ensure it is the record that was asked for
+            known_as = [str(record.identifier), str(record.public_key)]
+            if endpoint.startswith("/explorer/whois/3bot/"):
+                known_as = [str(name) for name in record.names]
+            if identifier not in known_as:
+                raise tfchain.errors.ExplorerInvalidResponse("expected the record of 3Bot {} not {}".format(identifier, record.identifier), endpoint, resp)
+            return record
         except tfchain.errors.ExplorerError:
             raise
         except Exception as exc:
@@ -862,12 +881,7 @@ class TFChainERC20Client():
             # parse the ERC20 Info
             if not 'erc20info' in resp:
                 raise tfchain.errors.ExplorerNoContent("{} could be found but is not registered as an ERC20 withdraw address".format(str(unlockhash)), endpoint=endpoint)
-            info = resp['erc20info']
-            return ERC20AddressInfo(
-                address_tft=UnlockHash.from_json(info['tftaddress']),
-                address_erc20=ERC20Address.from_json(info['erc20address']),
-                confirmations=int(info['confirmations']),
-            )
+            return _erc20_info_from_response(resp['erc20info'], str(unlockhash))
         except tfchain.errors.ExplorerError:
             raise
         except Exception as exc:
-- 
2.43.0


From d5a8d8aec7153afec5c3fc61af6d60fc613994ad Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:03:38 +0000
Subject: [PATCH 58/77] fix: a number with decimals is not truncated to a
 height, time, identifier or number of confirmations

---
 tfchain/TFChainClient.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index 8987f3f..571fedf 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -5,7 +5,7 @@ Tfchain Client
 import sys
 
 import tfchain
-from tfchain.internal.jsutils import json_loads, epoch2HRDateTime
+from tfchain.internal.jsutils import json_int, json_loads, epoch2HRDateTime
 
 from tfchain.types import ConditionTypes, transactions
 from tfchain.types.ConditionTypes import UnlockHash, UnlockHashType, ConditionMultiSignature
@@ -236,8 +236,8 @@ class TFChainClient:
                 unlockhash = UnlockHash.from_json(mp['unlockhash'])
                 miner_payouts.append(ExplorerMinerPayout(id=id, value=value, unlockhash=unlockhash))
             # get the timestamp and height
-            height = int(resp['height'])
-            timestamp = int(rawblock['timestamp'])
+            height = json_int(resp['height'])
+            timestamp = json_int(rawblock['timestamp'])
             if requested_height is not None and height != requested_height:
                 raise tfchain.errors.ExplorerInvalidResponse("expected block at height {} not {}".format(requested_height, height), endpoint, resp)
             # get the block's identifier
@@ -453,7 +453,7 @@ class TFChainClient:
         transaction.unconfirmed = etxn.get('unconfirmed', False)
         # set the height of the transaction only if confirmed
         if not transaction.unconfirmed:
-            transaction.height = int(etxn.get('height'))
+            transaction.height = json_int(etxn.get('height'))
         # return the transaction
         return transaction
 
@@ -643,7 +643,7 @@ def _erc20_info_from_response(info, unlockhash):
     return ERC20AddressInfo(
         address_tft=address_tft,
         address_erc20=ERC20Address.from_json(info['erc20address']),
-        confirmations=int(info['confirmations']),
+        confirmations=json_int(info['confirmations']),
     )
 
 class ExplorerBlock():
@@ -825,11 +825,11 @@ class TFChainThreeBotClient():
             # return the fetched record as a named tuple, for easy semi-typed access
             record = resp['record']
             record = ThreeBotRecord(
-                identifier=int(record['id']),
+                identifier=json_int(record['id']),
                 names=[BotName.from_json(name) for name in record.get('names', []) or []],
                 addresses=[NetworkAddress.from_json(address) for address in record.get('addresses', []) or []],
                 public_key=PublicKey.from_json(record['publickey']),
-                expiration=int(record['expiration']),
+                expiration=json_int(record['expiration']),
             )
             # ensure it is the record that was asked for
             known_as = [str(record.identifier), str(record.public_key)]
-- 
2.43.0


From 7cfa4f9e2fc72fa6e8d88a2f985f3a5f49b19510 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:03:40 +0000
Subject: [PATCH 59/77] fix: an unknown network type is refused

---
 tfchain/TFChainClient.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index 571fedf..a4bf490 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -75,6 +75,7 @@ class NetworkType:
             return NetworkType.TESTNET
         if s == "devnet":
             return NetworkType.DEVNET
+        raise ValueError("{} is not a known network type".format(s))
 
     def minimum_miner_fee(self):
         if self == NetworkType.DEVNET:
-- 
2.43.0


From 287d750e2b2be0cf732f0a31b976a3696fffa6b9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:36:06 +0000
Subject: [PATCH 60/77] fix: redeeming or refunding a contract that holds no
 more than the miner fee is refused, instead of submitting a zero-valued coin
 output

---
 tfchain/TFChainWallet.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 0dfd7e6..9711e9a 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -1178,9 +1178,12 @@ class TFChainAtomicSwap():
         """
         claim an unspent atomic swap contract
         """
+        # a contract that cannot pay more than the miner fee has nothing to claim
+        miner_fee = self._minium_miner_fee
+        if contract.amount <= miner_fee:
+            raise tfchain.errors.AtomicSwapInsufficientAmountError(amount=contract.amount, minimum_miner_fee=miner_fee)
         # create the contract and fill in the easy content
         txn = tftransactions.new()
-        miner_fee = self._minium_miner_fee
         txn.miner_fee_add(miner_fee)
         txn.data = data
         # define the coin input
-- 
2.43.0


From b5fa3e013df1a7da1751c4f0fc0e7fbf0e48eff6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:36:07 +0000
Subject: [PATCH 61/77] fix: verifying a given contract that is known to be
 spent is refused, and only a spent contract is reported as spent by a failed
 redemption or refund

---
 tfchain/TFChainWallet.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 9711e9a..7c7c162 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -937,6 +937,9 @@ class TFChainAtomicSwap():
                 raise tfchain.errors.AtomicSwapContractInvalid(
                     message="output identifier is expected to be {}, not {}".format(str(outputid), str(contract.outputid)),
                     contract=contract)
+            # verify the contract is not known to be spent
+            if not contract.unspent:
+                raise tfchain.errors.AtomicSwapContractSpent(contract=contract, transaction=None)
 
         # if amount is given verify it
         if amount is not None:
@@ -1018,7 +1021,7 @@ class TFChainAtomicSwap():
         except tfchain.errors.ExplorerNoContent as exc:
             raise tfchain.errors.AtomicSwapContractNotFound(outputid=outputid) from exc
         # generate the contract
-        contract = AtomicSwapContract(coinoutput=co, unspent=False, current_timestamp=self._chain_time) # either it is spent already or we'll spend it
+        contract = AtomicSwapContract(coinoutput=co, unspent=spend_txn is None, current_timestamp=self._chain_time)
         # check if the contract hasn't been spent already
         if spend_txn is not None:
             # if a spend transaction exists,
@@ -1056,7 +1059,7 @@ class TFChainAtomicSwap():
         except tfchain.errors.ExplorerNoContent as exc:
             raise tfchain.errors.AtomicSwapContractNotFound(outputid=outputid) from exc
         # generate the contract
-        contract = AtomicSwapContract(coinoutput=co, unspent=False, current_timestamp=self._chain_time) # either it is spent already or we'll spend it
+        contract = AtomicSwapContract(coinoutput=co, unspent=spend_txn is None, current_timestamp=self._chain_time)
         # check if the contract hasn't been spent already
         if spend_txn is not None:
             # if a spend transaction exists,
-- 
2.43.0


From b95dbde6bd5860d3e9c40bdfed46730073e1ba6b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:36:49 +0000
Subject: [PATCH 62/77] fix: an all-zero secret, which the chain reads as a
 refund, is not accepted as the secret of an atomic swap contract

---
 tfchain/types/AtomicSwap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tfchain/types/AtomicSwap.py b/tfchain/types/AtomicSwap.py
index f3a849b..5fc80f3 100644
--- a/tfchain/types/AtomicSwap.py
+++ b/tfchain/types/AtomicSwap.py
@@ -126,6 +126,9 @@ class AtomicSwapContract:
         Returns True if the secret has been verified succesfully, False otherwise.
         """
         secret = AtomicSwapSecret(value=secret)
+        if not any(secret.value):
+            # no secret is given, which is how a contract gets refunded instead of redeemed
+            return False
         secret_hash = AtomicSwapSecretHash.from_secret(secret)
         return self.secret_hash == secret_hash
 
-- 
2.43.0


From a5e07745ad138e0c3cc295e6e03765376f8071bb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:48:49 +0000
Subject: [PATCH 63/77] fix: a 3Bot registration or update given only empty
 lists of names and addresses is refused, instead of being paid and submitted
 without content

---
 tfchain/TFChainWallet.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 7c7c162..db9a874 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -1295,10 +1295,10 @@ class TFChainThreeBot():
         # create the txn and fill the easiest properties already
         txn = tftransactions.threebot_registration_new()
         txn.number_of_months = months
-        if names is None and addresses is None:
-            raise ValueError("at least one name or one address is to be given, none is defined")
         txn.names = names
         txn.addresses = addresses
+        if len(txn.names) == 0 and len(txn.addresses) == 0:
+            raise ValueError("at least one name or one address is to be given, none is defined")
 
         # get the fees, and fund the transaction
         balance = self._fund_txn(txn, source, refund)
@@ -1336,9 +1336,6 @@ class TFChainThreeBot():
         @param source: one or multiple addresses/unlockhashes from which to fund this coin send transaction, by default all personal wallet addresses are used, only known addresses can be used
         @param refund: optional refund address, by default is uses the source if it specifies a single address otherwise it uses the default wallet address (recipient type, with None being the exception in its interpretation)
         """
-        if months < 1 and not reduce((lambda r, v: r or (v is not None)), [names_to_add, names_to_remove, addresses_to_add, addresses_to_remove], False):
-            raise ValueError("extra months is to be given or one name/address is to be added/removed, none is defined")
-
         # create the txn and fill the easiest properties already
         txn = tftransactions.threebot_record_update_new()
         txn.botid = identifier
@@ -1347,6 +1344,8 @@ class TFChainThreeBot():
         txn.names_to_remove = names_to_remove
         txn.addresses_to_add = addresses_to_add
         txn.addresses_to_remove = addresses_to_remove
+        if months < 1 and not any([txn.names_to_add, txn.names_to_remove, txn.addresses_to_add, txn.addresses_to_remove]):
+            raise ValueError("extra months is to be given or one name/address is to be added/removed, none is defined")
 
         # get the 3Bot Public Key
         record = self._wallet.client.threebot.record_get(identifier)
-- 
2.43.0


From 941a462361f6464807d8d26d53ed391d54e5f1d3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:56:38 +0000
Subject: [PATCH 64/77] fix: an ERC20 address is valid only as 40 hexadecimal
 digits (no spaces, signs or underscores), and TFT is not sent to the nil
 ERC20 address when no or a malformed address is given

---
 tfchain/TFChainWallet.py |  2 ++
 tfchain/types/ERC20.py   | 13 ++++---------
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index db9a874..6ab5dca 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -1533,6 +1533,8 @@ class TFChainERC20():
         amount = Currency(value=amount)
         if amount <= 0:
             raise ValueError("no amount is defined to be sent")
+        if not ERC20Address.is_valid_value(address):
+            raise ValueError("{} (type: {}) is not a valid ERC20 address".format(address, type(address)))
 
         # create transaction
         txn = tftransactions.erc20_convert_new()
diff --git a/tfchain/types/ERC20.py b/tfchain/types/ERC20.py
index 5c8ff52..cd92e1b 100644
--- a/tfchain/types/ERC20.py
+++ b/tfchain/types/ERC20.py
@@ -2,6 +2,8 @@
 ERC20 Types.
 """
 
+import re
+
 from tfchain.types.PrimitiveTypes import BinaryData, Hash
 from tfchain.encoders import encoder_rivine_get, encoder_sia_get
 from tfchain.internal.jsutils import blake2_string
@@ -9,6 +11,7 @@ from tfchain.internal.jsutils import blake2_string
 
 class ERC20Address(BinaryData):
     SIZE = 20
+    REGEXP = re.compile(r'^(0[xX])?[0-9a-fA-F]{40}\Z')
 
     """
     ERC20 Contract/Wallet Address, used in TFChain-ERC20 code.
@@ -23,15 +26,7 @@ class ERC20Address(BinaryData):
         Returns True if the given value is a valid ERC20Address value, False otherwise.
         """
         if isinstance(value, str):
-            if value.startswith("0x") or value.startswith("0X"):
-                value = value[2:]
-            if len(value) != ERC20Address.SIZE*2:
-                return False
-            try:
-                int(value, 16)
-                return True
-            except ValueError:
-                return False
+            return ERC20Address.REGEXP.match(value) is not None
         elif isinstance(value, (bytes, bytearray)):
             return len(value) == ERC20Address.SIZE
         elif isinstance(value, ERC20Address):
-- 
2.43.0


From d4d1bb3776b4327b03dfd24588967b41289101be Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:10:08 +0000
Subject: [PATCH 65/77] fix: signatures of former minters are dropped when the
 mint condition was replaced: a transaction which they invalidate is not
 submitted

---
 tfchain/TFChainWallet.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 6ab5dca..39a2f31 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -474,6 +474,16 @@ class TFChainWallet:
             # define the current fulfillment if it is not defined
             if not txn.mint_fulfillment_defined():
                 txn.mint_fulfillment = FulfillmentTypes.from_condition(txn.parent_mint_condition)
+            elif isinstance(txn.mint_fulfillment, FulfillmentMultiSignature):
+                # the mint condition could have been replaced since it was signed,
+                # the signatures of those who are no longer an owner would invalidate the transaction
+                condition = txn.parent_mint_condition.unwrap()
+                if isinstance(condition, ConditionMultiSignature):
+                    owners = [str(unlockhash) for unlockhash in condition.unlockhashes]
+                    pairs = txn.mint_fulfillment.pairs
+                    kept = [pair for pair in pairs if len(pair.signature) == 0 or str(pair.public_key.unlockhash) in owners]
+                    if len(kept) != len(pairs):
+                        txn.mint_fulfillment.pairs = kept
         elif isinstance(txn, TransactionV145):
             # set the public key of the 3Bot that is updated
             txn.parent_public_key = self._threebot_public_key_get(txn.botid)
-- 
2.43.0


From 3dfea94e5d882a7b691e4de74ab691f96cb7e702 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:03:44 +0000
Subject: [PATCH 66/77] fix: a transaction was submitted and the operation
 failed afterwards when the network did not answer the requests that followed
 the submission (the secret of an initiated swap was lost); everything that
 can fail comes before the submission

---
 tfchain/TFChainWallet.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 39a2f31..566c76d 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -404,13 +404,13 @@ class TFChainWallet:
         # txn should be fulfilled now
         submit = txn.is_fulfilled()
         if submit:
+            addresses = self.addresses + balance.addresses_multisig
             # submit the transaction
             txn.id = self._transaction_put(transaction=txn)
 
             # update balance
             for ci in txn.coin_inputs:
                 balance.output_add(ci.parent_output, confirmed=False, spent=True)
-            addresses = self.addresses + balance.addresses_multisig
             for idx, co in enumerate(txn.coin_outputs):
                 if str(co.condition.unlockhash) in addresses:
                     # add the id to the coin_output, so we can track it has been spent
@@ -516,8 +516,8 @@ class TFChainWallet:
         is_fulfilled = txn.is_fulfilled()
         submit = (submit and is_fulfilled)
         if submit:
-            txn.id = self._transaction_put(transaction=txn)
             addresses = self.addresses + balance.addresses_multisig
+            txn.id = self._transaction_put(transaction=txn)
             # update balance
             for ci in txn.coin_inputs:
                 if str(ci.parent_output.condition.unlockhash) in addresses:
@@ -776,9 +776,9 @@ class TFChainMinter():
 
         submit = txn.is_fulfilled()
         if submit:
+            addresses = self._wallet.addresses + balance.addresses_multisig
             txn.id = self._transaction_put(transaction=txn)
             # update balance of wallet
-            addresses = self._wallet.addresses + balance.addresses_multisig
             for idx, co in enumerate(txn.coin_outputs):
                 if str(co.condition.unlockhash) in addresses:
                     # add the id to the coin_output, so we can track it has been spent
@@ -857,6 +857,9 @@ class TFChainAtomicSwap():
         secret = AtomicSwapSecret.random()
         secret_hash = AtomicSwapSecretHash.from_secret(secret)
 
+        # get the time first, the secret of a submitted contract may not get lost
+        current_timestamp = self._chain_time
+
         # create the contract
         result = self._create_contract(
             recipient=participator, amount=amount, refund_time=refund_time,
@@ -866,7 +869,7 @@ class TFChainAtomicSwap():
         # return the contract, transaction, submission status as well as secret
         return AtomicSwapInitiationResult(
             AtomicSwapContract(coinoutput=result.transaction.coin_outputs[0], unspent=True,
-                current_timestamp=self._chain_time),
+                current_timestamp=current_timestamp),
             secret, result.transaction, result.submitted)
 
     def participate(self, initiator, amount, secret_hash, refund_time='+24h', source=None, refund=None, data=None, submit=True):
@@ -898,11 +901,12 @@ class TFChainAtomicSwap():
         secret_hash = AtomicSwapSecretHash(value=secret_hash)
 
         # create the contract and return the contract, transaction and submission status
+        current_timestamp = self._chain_time
         result = self._create_contract(
             recipient=initiator, amount=amount, refund_time=refund_time, source=source,
             refund=refund, data=data, secret_hash=secret_hash, submit=submit)
         return AtomicSwapParticipationResult(
-            AtomicSwapContract(coinoutput=result.transaction.coin_outputs[0], unspent=True, current_timestamp=self._chain_time),
+            AtomicSwapContract(coinoutput=result.transaction.coin_outputs[0], unspent=True, current_timestamp=current_timestamp),
             result.transaction, result.submitted)
 
     def verify(self, outputid, amount=None, secret_hash=None, min_refund_time=None, sender=False, receiver=False, contract=None):
@@ -1175,11 +1179,11 @@ class TFChainAtomicSwap():
         # submit if possible
         submit = submit and txn.is_fulfilled()
         if submit:
+            addresses = self._wallet.addresses + balance.addresses_multisig
             txn.id = self._transaction_put(transaction=txn)
             # update balance
             for ci in txn.coin_inputs:
                 balance.output_add(ci.parent_output, confirmed=False, spent=True)
-            addresses = self._wallet.addresses + balance.addresses_multisig
             for idx, co in enumerate(txn.coin_outputs):
                 if str(co.condition.unlockhash) in addresses:
                     balance.output_add(co, confirmed=False, spent=False)
@@ -1226,11 +1230,12 @@ class TFChainAtomicSwap():
         if not submit:
             raise Exception("BUG: transaction should be fulfilled at ths point, please fix or report as an isuse")
 
+        # everything that can fail comes before the submission
+        balance = self._wallet.balance
+        addresses = self._wallet.addresses
         # assign transactionid
         txn.id = self._transaction_put(transaction=txn)
         # update balance
-        balance = self._wallet.balance
-        addresses = self._wallet.addresses
         for idx, co in enumerate(txn.coin_outputs):
             if str(co.condition.unlockhash) in addresses:
                 co.id = txn.coin_outputid_new(idx)
@@ -1472,13 +1477,13 @@ class TFChainThreeBot():
         # txn should be fulfilled now
         submit = txn.is_fulfilled()
         if submit:
+            addresses = self._wallet.addresses + balance.addresses_multisig
             # submit the transaction
             txn.id = self._transaction_put(transaction=txn)
 
             # update balance
             for ci in txn.coin_inputs:
                 balance.output_add(ci.parent_output, confirmed=False, spent=True)
-            addresses = self._wallet.addresses + balance.addresses_multisig
             for idx, co in enumerate(txn.coin_outputs):
                 if str(co.condition.unlockhash) in addresses:
                     # add the id to the coin_output, so we can track it has been spent
@@ -1703,13 +1708,13 @@ class TFChainERC20():
         # txn should be fulfilled now
         submit = txn.is_fulfilled()
         if submit:
+            addresses = self._wallet.addresses + balance.addresses_multisig
             # submit the transaction
             txn.id = self._transaction_put(transaction=txn)
 
             # update balance
             for ci in txn.coin_inputs:
                 balance.output_add(ci.parent_output, confirmed=False, spent=True)
-            addresses = self._wallet.addresses + balance.addresses_multisig
             for idx, co in enumerate(txn.coin_outputs):
                 if str(co.condition.unlockhash) in addresses:
                     # add the id to the coin_output, so we can track it has been spent
@@ -2622,13 +2627,13 @@ class CoinTransactionBuilder():
         # txn should be fulfilled now
         submit = txn.is_fulfilled()
         if submit:
+            addresses = self._wallet.addresses + balance.addresses_multisig
             # submit the transaction
             txn.id = self._wallet._transaction_put(transaction=txn)
 
             # update balance
             for ci in txn.coin_inputs:
                 balance.output_add(ci.parent_output, confirmed=False, spent=True)
-            addresses = self._wallet.addresses + balance.addresses_multisig
             for idx, co in enumerate(txn.coin_outputs):
                 if str(co.condition.unlockhash) in addresses:
                     # add the id to the coin_output, so we can track it has been spent
-- 
2.43.0


From cc95f234e2a0252577e2c0ba36d6f5b5070fd371 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:08:56 +0000
Subject: [PATCH 67/77] fix: a key scan that failed half-way, because the
 network did not answer, kept the later used keys from ever being found; the
 scan takes effect as a whole

---
 tfchain/TFChainWallet.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 566c76d..276d0af 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -267,12 +267,15 @@ class TFChainWallet:
         # key track of start key count, so we can easily check at the end,
         # if we indeed scanned for any new keys
         key_count_start = self.key_count
+        # the pairs found so far (and if they are used), only integrated once the scan is complete,
+        # as a scan that fails half-way would otherwise prevent the remaining keys from ever being found
+        found = []
         # generate the key pairs, without integrating them already
         # loop, and do this until now more are found:
         while True:
             pairs = []
             used_pairs = []
-            for offset in range(count):
+            for offset in range(len(found), len(found) + count):
                 pairs.append(self._key_pair_new(integrate=False, offset=offset))
             for pair in pairs:
                 address = str(pair.unlockhash)
@@ -289,17 +292,20 @@ class TFChainWallet:
             if not reduce(lambda a, b: a or b, used_pairs):
                 break
 
-            # add all used pairs, and keep the unused pairs that came before the last used one
+            # keep all pairs up to the last used one
             last_index = max(idx for idx, used in enumerate(used_pairs) if used)
-            for idx, pair in enumerate(pairs[:last_index+1]):
-                if used_pairs[idx]:
-                    self._key_pair_add(pair, add_count=False)
-                else:
-                    self._unused_key_pairs.append(pair)
-            # update the new key count
-            self._key_count += last_index + 1
+            found.extend(zip(pairs[:last_index+1], used_pairs))
             # continue with the pairs that come after the last used one
 
+        # add all used pairs, and keep the unused pairs that came before the last used one
+        for pair, used in found:
+            if used:
+                self._key_pair_add(pair, add_count=False)
+            else:
+                self._unused_key_pairs.append(pair)
+        # update the new key count
+        self._key_count += len(found)
+
         # return if we scanned new keys
         return self.key_count > key_count_start
 
-- 
2.43.0


From cb355bd4f86c8e4ce44c4c651531c76f1bb04d1d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:38:18 +0000
Subject: [PATCH 68/77] fix: the secret of a swap and the nonce of a mint came
 from the seedable random number generator of the program, hence were
 predictable and could repeat; they come from the random source of the
 operating system

---
 tfchain/internal/jsutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tfchain/internal/jsutils.py b/tfchain/internal/jsutils.py
index 13b5543..5f6297e 100644
--- a/tfchain/internal/jsutils.py
+++ b/tfchain/internal/jsutils.py
@@ -30,7 +30,8 @@ def json_int(value):
     return int(value)
 
 def generateRandomInt(fromInt, toInt):
-    return random.randint(fromInt, toInt)
+    # used for secrets and nonces: has to be unpredictable
+    return random.SystemRandom().randint(fromInt, toInt)
 
 
 def generateXCharID(x):
-- 
2.43.0


From 585050050703ea6edf6e556c28a3e9bdc0f937a4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:14:57 +0000
Subject: [PATCH 69/77] fix: an assignment of a list that a transaction refuses
 leaves the list as it was

---
 tfchain/types/transactions/Base.py     | 14 ++++++
 tfchain/types/transactions/ERC20.py    | 16 ++-----
 tfchain/types/transactions/Minting.py  |  6 +--
 tfchain/types/transactions/Standard.py | 29 +++---------
 tfchain/types/transactions/ThreeBot.py | 63 ++++++--------------------
 5 files changed, 39 insertions(+), 89 deletions(-)

diff --git a/tfchain/types/transactions/Base.py b/tfchain/types/transactions/Base.py
index 22c37cc..693faff 100644
--- a/tfchain/types/transactions/Base.py
+++ b/tfchain/types/transactions/Base.py
@@ -49,6 +49,20 @@ class TransactionBaseClass(ABC):
         self._height = -1
         self._unconfirmed = False
 
+    def _list_set(self, name, values, add):
+        """
+        Replace the content of a list by the given values, added one by one using the given function,
+        the list remains as it was in case one of the values is refused.
+        """
+        former = getattr(self, name)
+        setattr(self, name, [])
+        try:
+            for value in values or []:
+                add(value)
+        except Exception:
+            setattr(self, name, former)
+            raise
+
     @classmethod
     def from_json(cls, obj):
         """
diff --git a/tfchain/types/transactions/ERC20.py b/tfchain/types/transactions/ERC20.py
index 6401b42..a2ceec4 100644
--- a/tfchain/types/transactions/ERC20.py
+++ b/tfchain/types/transactions/ERC20.py
@@ -61,12 +61,8 @@ class TransactionV208(TransactionBaseClass):
 
     @coin_inputs.setter
     def coin_inputs(self, value):
-        self._coin_inputs = []
-        if not value:
-            return
-        for ci in value:
-            self.coin_input_add(ci.parentid, ci.fulfillment,
-                                parent_output=ci._parent_output)
+        self._list_set('_coin_inputs', value, lambda ci:
+            self.coin_input_add(ci.parentid, ci.fulfillment, parent_output=ci._parent_output))
 
     @property
     def refund_coin_output(self):
@@ -468,12 +464,8 @@ class TransactionV210(TransactionBaseClass, SignatureCallbackBase):
 
     @coin_inputs.setter
     def coin_inputs(self, value):
-        self._coin_inputs = []
-        if not value:
-            return
-        for ci in value:
-            self.coin_input_add(ci.parentid, ci.fulfillment,
-                                parent_output=ci._parent_output)
+        self._list_set('_coin_inputs', value, lambda ci:
+            self.coin_input_add(ci.parentid, ci.fulfillment, parent_output=ci._parent_output))
 
     @property
     def refund_coin_output(self):
diff --git a/tfchain/types/transactions/Minting.py b/tfchain/types/transactions/Minting.py
index f13870a..b30d794 100644
--- a/tfchain/types/transactions/Minting.py
+++ b/tfchain/types/transactions/Minting.py
@@ -263,11 +263,7 @@ class TransactionV129(TransactionBaseClass):
 
     @coin_outputs.setter
     def coin_outputs(self, value):
-        self._coin_outputs = []
-        if not value:
-            return
-        for co in value:
-            self.coin_output_add(co.value, co.condition, id=co.id)
+        self._list_set('_coin_outputs', value, lambda co: self.coin_output_add(co.value, co.condition, id=co.id))
 
     def coin_output_add(self, value, condition, id=None):
         co = CoinOutput(value=value, condition=condition)
diff --git a/tfchain/types/transactions/Standard.py b/tfchain/types/transactions/Standard.py
index b4ab79e..1701263 100644
--- a/tfchain/types/transactions/Standard.py
+++ b/tfchain/types/transactions/Standard.py
@@ -122,12 +122,8 @@ class TransactionV1(TransactionBaseClass):
 
     @coin_inputs.setter
     def coin_inputs(self, value):
-        self._coin_inputs = []
-        if not value:
-            return
-        for ci in value:
-            self.coin_input_add(ci.parentid, ci.fulfillment,
-                                parent_output=ci._parent_output)
+        self._list_set('_coin_inputs', value, lambda ci:
+            self.coin_input_add(ci.parentid, ci.fulfillment, parent_output=ci._parent_output))
 
     @property
     def coin_outputs(self):
@@ -139,11 +135,7 @@ class TransactionV1(TransactionBaseClass):
 
     @coin_outputs.setter
     def coin_outputs(self, value):
-        self._coin_outputs = []
-        if not value:
-            return
-        for co in value:
-            self.coin_output_add(co.value, co.condition, id=co.id)
+        self._list_set('_coin_outputs', value, lambda co: self.coin_output_add(co.value, co.condition, id=co.id))
 
     def coin_input_add(self, parentid, fulfillment, parent_output=None):
         ci = CoinInput(parentid=parentid, fulfillment=fulfillment)
@@ -164,12 +156,8 @@ class TransactionV1(TransactionBaseClass):
 
     @blockstake_inputs.setter
     def blockstake_inputs(self, value):
-        self._blockstake_inputs = []
-        if not value:
-            return
-        for bsi in value:
-            self.blockstake_input_add(
-                bsi.parentid, bsi.fulfillment, parent_output=bsi._parent_output)
+        self._list_set('_blockstake_inputs', value, lambda bsi:
+            self.blockstake_input_add(bsi.parentid, bsi.fulfillment, parent_output=bsi._parent_output))
 
     @property
     def blockstake_outputs(self):
@@ -180,11 +168,8 @@ class TransactionV1(TransactionBaseClass):
 
     @blockstake_outputs.setter
     def blockstake_outputs(self, value):
-        self._blockstake_outputs = []
-        if not value:
-            return
-        for bso in value:
-            self.blockstake_output_add(bso.value, bso.condition, id=bso.id)
+        self._list_set('_blockstake_outputs', value, lambda bso:
+            self.blockstake_output_add(bso.value, bso.condition, id=bso.id))
 
     def blockstake_input_add(self, parentid, fulfillment, parent_output=None):
         bsi = BlockstakeInput(parentid=parentid, fulfillment=fulfillment)
diff --git a/tfchain/types/transactions/ThreeBot.py b/tfchain/types/transactions/ThreeBot.py
index 619f4a4..97998f8 100644
--- a/tfchain/types/transactions/ThreeBot.py
+++ b/tfchain/types/transactions/ThreeBot.py
@@ -146,11 +146,8 @@ class TransactionV144(BotTransactionBaseClass):
         return self._coin_inputs
     @coin_inputs.setter
     def coin_inputs(self, value):
-        self._coin_inputs = []
-        if not value:
-            return
-        for ci in value:
-            self.coin_input_add(ci.parentid, ci.fulfillment, parent_output=ci._parent_output)
+        self._list_set('_coin_inputs', value, lambda ci:
+            self.coin_input_add(ci.parentid, ci.fulfillment, parent_output=ci._parent_output))
 
     @property
     def refund_coin_output(self):
@@ -202,11 +199,7 @@ class TransactionV144(BotTransactionBaseClass):
         return self._addresses
     @addresses.setter
     def addresses(self, value):
-        self._addresses = []
-        if not value:
-            return
-        for address in value:
-            self.address_add(address)
+        self._list_set('_addresses', value, lambda address: self.address_add(address))
 
     def address_add(self, address):
         """
@@ -225,11 +218,7 @@ class TransactionV144(BotTransactionBaseClass):
         return self._names
     @names.setter
     def names(self, value):
-        self._names = []
-        if not value:
-            return
-        for name in value:
-            self.name_add(name)
+        self._list_set('_names', value, lambda name: self.name_add(name))
 
     def name_add(self, name):
         """
@@ -509,11 +498,8 @@ class TransactionV145(BotTransactionBaseClass):
         return self._coin_inputs
     @coin_inputs.setter
     def coin_inputs(self, value):
-        self._coin_inputs = []
-        if not value:
-            return
-        for ci in value:
-            self.coin_input_add(ci.parentid, ci.fulfillment, parent_output=ci._parent_output)
+        self._list_set('_coin_inputs', value, lambda ci:
+            self.coin_input_add(ci.parentid, ci.fulfillment, parent_output=ci._parent_output))
 
     @property
     def refund_coin_output(self):
@@ -565,11 +551,7 @@ class TransactionV145(BotTransactionBaseClass):
         return self._addresses_to_add
     @addresses_to_add.setter
     def addresses_to_add(self, value):
-        self._addresses_to_add = []
-        if not value:
-            return
-        for address in value:
-            self.address_add(address)
+        self._list_set('_addresses_to_add', value, lambda address: self.address_add(address))
 
     def address_add(self, address):
         """
@@ -588,11 +570,7 @@ class TransactionV145(BotTransactionBaseClass):
         return self._addresses_to_remove
     @addresses_to_remove.setter
     def addresses_to_remove(self, value):
-        self._addresses_to_remove = []
-        if not value:
-            return
-        for address in value:
-            self.address_remove(address)
+        self._list_set('_addresses_to_remove', value, lambda address: self.address_remove(address))
 
     def address_remove(self, address):
         """
@@ -611,11 +589,7 @@ class TransactionV145(BotTransactionBaseClass):
         return self._names_to_add
     @names_to_add.setter
     def names_to_add(self, value):
-        self._names_to_add = []
-        if not value:
-            return
-        for name in value:
-            self.name_add(name)
+        self._list_set('_names_to_add', value, lambda name: self.name_add(name))
 
     def name_add(self, name):
         """
@@ -634,11 +608,7 @@ class TransactionV145(BotTransactionBaseClass):
         return self._names_to_remove
     @names_to_remove.setter
     def names_to_remove(self, value):
-        self._names_to_remove = []
-        if not value:
-            return
-        for name in value:
-            self.name_remove(name)
+        self._list_set('_names_to_remove', value, lambda name: self.name_remove(name))
 
     def name_remove(self, name):
         """
@@ -954,11 +924,8 @@ class TransactionV146(BotTransactionBaseClass):
         return self._coin_inputs
     @coin_inputs.setter
     def coin_inputs(self, value):
-        self._coin_inputs = []
-        if not value:
-            return
-        for ci in value:
-            self.coin_input_add(ci.parentid, ci.fulfillment, parent_output=ci._parent_output)
+        self._list_set('_coin_inputs', value, lambda ci:
+            self.coin_input_add(ci.parentid, ci.fulfillment, parent_output=ci._parent_output))
 
     @property
     def refund_coin_output(self):
@@ -1010,11 +977,7 @@ class TransactionV146(BotTransactionBaseClass):
         return self._names
     @names.setter
     def names(self, value):
-        self._names = []
-        if not value:
-            return
-        for name in value:
-            self.name_add(name)
+        self._list_set('_names', value, lambda name: self.name_add(name))
 
     def name_add(self, name):
         """
-- 
2.43.0


From d3d230ad0c3b3efbf151bc37fc7016e690e621b7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:14:59 +0000
Subject: [PATCH 70/77] fix: signatures and pairs a fulfillment refuses leave
 it as it was

---
 tfchain/types/FulfillmentTypes.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/tfchain/types/FulfillmentTypes.py b/tfchain/types/FulfillmentTypes.py
index 6c44667..dc446bd 100644
--- a/tfchain/types/FulfillmentTypes.py
+++ b/tfchain/types/FulfillmentTypes.py
@@ -279,8 +279,12 @@ class FulfillmentSingleSignature(FulfillmentBaseClass):
         """
         Implements SignatureCallbackBase.
         """
-        self.public_key = public_key
-        self.signature = signature
+        former, self.public_key = self._pub_key, public_key
+        try:
+            self.signature = signature
+        except Exception:
+            self._pub_key = former # a refused signature changes nothing
+            raise
     
     def from_json_data_object(self, data):
         self._pub_key = PublicKey.from_json(data['publickey'])
@@ -342,11 +346,13 @@ class FulfillmentMultiSignature(FulfillmentBaseClass):
         return self._pairs
     @pairs.setter
     def pairs(self, value):
-        self._pairs = []
-        if not value:
-            return
-        for pair in value:
-            self.add_pair(pair.public_key, pair.signature)
+        former, self._pairs = self._pairs, []
+        try:
+            for pair in value or []:
+                self.add_pair(pair.public_key, pair.signature)
+        except Exception:
+            self._pairs = former # a refused assignment changes nothing
+            raise
 
     def add_pair(self, public_key, signature):
         spk = str(public_key)
@@ -530,8 +536,12 @@ class FulfillmentAtomicSwap(FulfillmentBaseClass):
         """
         Implements SignatureCallbackBase.
         """
-        self.public_key = public_key
-        self.signature = signature
+        former, self.public_key = self._pub_key, public_key
+        try:
+            self.signature = signature
+        except Exception:
+            self._pub_key = former # a refused signature changes nothing
+            raise
 
     def from_json_data_object(self, data):
         self._pub_key = PublicKey.from_json(data['publickey'])
-- 
2.43.0


From 45bd07f9257dfb85980e8ed3df211b33b014e254 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:15:00 +0000
Subject: [PATCH 71/77] fix: a block stake value set from a currency is a whole
 number that can be encoded, a fractional one is refused

---
 tfchain/types/PrimitiveTypes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tfchain/types/PrimitiveTypes.py b/tfchain/types/PrimitiveTypes.py
index c6fb4ac..ddb8f01 100644
--- a/tfchain/types/PrimitiveTypes.py
+++ b/tfchain/types/PrimitiveTypes.py
@@ -403,8 +403,9 @@ class Blockstake(BaseDataTypeClass):
             self._value = 0
             return
         if isinstance(value, Currency):
-            self._value = value.value
-            return
+            if value.value != int(value.value):
+                raise TypeError('block stake can only be set to an integral value, not {}'.format(value))
+            value = int(value.value)
         if isinstance(value, str):
             value = int(value)
         elif not isinstance(value, int):
-- 
2.43.0


From 365ec545d1e70fd3d733964588c998daf53d8595 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:25:20 +0000
Subject: [PATCH 72/77] fix: amounts are summed, multiplied and read from
 documents exactly, whatever their length and the thread's decimal context

---
 tfchain/types/PrimitiveTypes.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/tfchain/types/PrimitiveTypes.py b/tfchain/types/PrimitiveTypes.py
index ddb8f01..4347582 100644
--- a/tfchain/types/PrimitiveTypes.py
+++ b/tfchain/types/PrimitiveTypes.py
@@ -189,7 +189,7 @@ class Hash(BinaryData):
 
 
 from math import floor
-from decimal import Decimal
+from decimal import Context, Decimal, DivisionByZero, Inexact, InvalidOperation, Overflow
 
 
 class Currency(BaseDataTypeClass):
@@ -197,6 +197,9 @@ class Currency(BaseDataTypeClass):
     TFChain Currency Object.
     """
 
+    # amounts are never rounded, whatever the decimal context of the thread says
+    _EXACT = Context(prec=1000, traps=[DivisionByZero, Inexact, InvalidOperation, Overflow])
+
     def __init__(self, value=None):
         self._value = None
         self.value = value
@@ -208,7 +211,7 @@ class Currency(BaseDataTypeClass):
                 "currency is expected to be a string when part of a JSON object, not type {}".format(type(obj)))
         c = cls()
         if obj:
-            c.value = Decimal(obj) * Decimal('0.000000001')
+            c.value = Currency._EXACT.multiply(Decimal(obj), Decimal('0.000000001'))
         return c
 
     @property
@@ -249,41 +252,41 @@ class Currency(BaseDataTypeClass):
     # operator overloading to allow currencies to be summed
     def __add__(self, other):
         other = Currency._op_other_as_currency(other)
-        value = self.value + other.value
+        value = Currency._EXACT.add(self.value, other.value)
         return Currency(value=value)
     __radd__ = __add__
 
     def __iadd__(self, other):
         other = Currency._op_other_as_currency(other)
-        self.value += other.value
+        self.value = Currency._EXACT.add(self.value, other.value)
         return self
 
     # operator overloading to allow currencies to be multiplied
     def __mul__(self, other):
         other = Currency._op_other_as_currency(other)
-        value = self.value * other.value
+        value = Currency._EXACT.multiply(self.value, other.value)
         return Currency(value=value)
     __rmul__ = __mul__
 
     def __imul__(self, other):
         other = Currency._op_other_as_currency(other)
-        self.value *= other.value
+        self.value = Currency._EXACT.multiply(self.value, other.value)
         return self
 
     # operator overloading to allow currencies to be subtracted
     def __sub__(self, other):
         other = Currency._op_other_as_currency(other)
-        value = self.value - other.value
+        value = Currency._EXACT.subtract(self.value, other.value)
         return Currency(value=value)
 
     def __rsub__(self, other):
         other = Currency._op_other_as_currency(other)
-        value = other.value - self.value
+        value = Currency._EXACT.subtract(other.value, self.value)
         return Currency(value=value)
 
     def __isub__(self, other):
         other = Currency._op_other_as_currency(other)
-        self.value -= other.value
+        self.value = Currency._EXACT.subtract(self.value, other.value)
         return self
 
     # operator overloading to allow currencies to be compared
-- 
2.43.0


From c3912b921aa2a3f42209ac65e37d4e85e22fb372 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:27:45 +0000
Subject: [PATCH 73/77] fix: binary values keep bytes of their own, changing
 the bytes or value they were made from does not change them

---
 tfchain/types/PrimitiveTypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/types/PrimitiveTypes.py b/tfchain/types/PrimitiveTypes.py
index 4347582..a6c6a16 100644
--- a/tfchain/types/PrimitiveTypes.py
+++ b/tfchain/types/PrimitiveTypes.py
@@ -84,8 +84,8 @@ class BinaryData(BaseDataTypeClass):
             raise ValueError(
                 "binary data was expected to be of fixed size {}, length {} is not allowed".format(
                     self._fixed_size, len(value)))
-        # all good, assign the bytearray value
-        self._value = value
+        # all good, assign a bytearray of our own, as the given one remains the caller's
+        self._value = bytearray(value)
 
     def __len__(self):
         return len(self.value)
-- 
2.43.0


From 2364e492b02829bdc2d18085a6d848bf09322dbe Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:51:42 +0000
Subject: [PATCH 74/77] fix: the text of a transaction states its version and
 is the same in every program

---
 tfchain/types/transactions/Base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/types/transactions/Base.py b/tfchain/types/transactions/Base.py
index 693faff..3effaf3 100644
--- a/tfchain/types/transactions/Base.py
+++ b/tfchain/types/transactions/Base.py
@@ -223,7 +223,7 @@ class TransactionBaseClass(ABC):
         return obj
 
     def __str__(self):
-        s = "transaction v{}".format(self.version)
+        s = "transaction v{}".format(int(self.version))
         if self.id:
             s += " {}".format(self.id)
         return s
-- 
2.43.0


From 727d85f6447f8a3a8b125862797cc682125f6e2b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:51:44 +0000
Subject: [PATCH 75/77] fix: transactions of one block are listed in the same
 order in every program, whatever the hash seed

---
 tfchain/TFChainWallet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 276d0af..215c549 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -240,11 +240,11 @@ class TFChainWallet:
         self._key_scan()
 
         # for each address get all transactions
-        transactions = set()
+        transactions = {} # unique, in the order in which they were found
         for address in self.addresses:
             try:
                 result = self._unlockhash_get(address)
-                transactions.update(result.transactions)
+                transactions.update(dict.fromkeys(result.transactions))
             except tfchain.errors.ExplorerNoContent:
                  # ignore this exception as it simply means
                  # the address has no activity yet on the chain
-- 
2.43.0


From 39a428ddb40165f17eb27afcc0bc0feec54eb91a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 05:49:24 +0000
Subject: [PATCH 76/77] fix: a number of months that is no int is refused when
 it is set, not only once a key was generated for the registration

---
 tfchain/types/transactions/ThreeBot.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tfchain/types/transactions/ThreeBot.py b/tfchain/types/transactions/ThreeBot.py
index 97998f8..715f1c8 100644
--- a/tfchain/types/transactions/ThreeBot.py
+++ b/tfchain/types/transactions/ThreeBot.py
@@ -253,6 +253,8 @@ class TransactionV144(BotTransactionBaseClass):
 
     @number_of_months.setter
     def number_of_months(self, n):
+        if not isinstance(n, int):
+            raise TypeError("number of months has to be an int, not be of type {}".format(type(n)))
         if n < 1 or n > 24:
             raise ValueError("number of months for a 3Bot Registration Transaction has to be in the inclusive range [1,24]")
         self._number_of_months = n
@@ -643,6 +645,8 @@ class TransactionV145(BotTransactionBaseClass):
 
     @number_of_months.setter
     def number_of_months(self, n):
+        if not isinstance(n, int):
+            raise TypeError("number of months has to be an int, not be of type {}".format(type(n)))
         if n < 0 or n > 24:
             raise ValueError("number of months for a 3Bot Record Update has to be in the inclusive range [0,24]")
         self._number_of_months = n
-- 
2.43.0


From 59644a5607d3009f3c7bb9a318097a801f36f751 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:20:16 +0000
Subject: [PATCH 77/77] fix: a registration of a new ERC20 withdraw address
 which cannot be funded generates no key

---
 tfchain/TFChainWallet.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 215c549..f15a9f5 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -1582,7 +1582,7 @@ class TFChainERC20():
         @param refund: optional refund address, by default is uses the source if it specifies a single address otherwise it uses the default wallet address (recipient type, with None being the exception in its interpretation)
         """
         if value is None:
-            public_key = self._wallet.public_key_new()
+            public_key = None # generated once the transaction is funded
         elif isinstance(value, (str, UnlockHash)):
             try:
                 public_key = self._wallet.key_pair_get(unlockhash=value).public_key
@@ -1601,12 +1601,15 @@ class TFChainERC20():
 
         # create transaction
         txn = tftransactions.erc20_address_registration_new()
-        # define the public key
-        txn.public_key = public_key
 
         # fund the transaction
         balance = self._fund_txn(txn, source, refund, txn.registration_fee)
 
+        # define the public key
+        if public_key is None:
+            public_key = self._wallet.public_key_new()
+        txn.public_key = public_key
+
         # sign, submit and return the transaction
         return self._sign_and_submit_txn(txn, balance)
 
-- 
2.43.0

