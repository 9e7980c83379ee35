From a979f4fe06953208c0d54ea367e56b73a1f72ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 01/10] fix: keep leading zero bytes of fixed-width blocks in
 BIP38 operations

XOR results and the multiplied private key were converted to bytes without
a width, so a leading zero byte shortened the block: encrypt/create raised
from AES, decrypt/confirm_code rejected the right passphrase.
---
 bip38/bip38.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/bip38/bip38.py b/bip38/bip38.py
index b24b245..eba0708 100644
--- a/bip38/bip38.py
+++ b/bip38/bip38.py
@@ -209,10 +209,10 @@ class BIP38:
 
         aes: AESModeOfOperationECB = AESModeOfOperationECB(derived_half_2)
         encrypted_half_1: bytes = aes.encrypt(integer_to_bytes(
-            bytes_to_integer(private_key.raw()[0:16]) ^ bytes_to_integer(derived_half_1[0:16])
+            bytes_to_integer(private_key.raw()[0:16]) ^ bytes_to_integer(derived_half_1[0:16]), 16
         ))
         encrypted_half_2: bytes = aes.encrypt(integer_to_bytes(
-            bytes_to_integer(private_key.raw()[16:32]) ^ bytes_to_integer(derived_half_1[16:32])
+            bytes_to_integer(private_key.raw()[16:32]) ^ bytes_to_integer(derived_half_1[16:32]), 16
         ))
 
         encrypted_private_key: bytes = (
@@ -316,10 +316,10 @@ class BIP38:
 
         aes: AESModeOfOperationECB = AESModeOfOperationECB(key)
         encrypted_half_1: bytes = aes.encrypt(integer_to_bytes(
-            bytes_to_integer(seed_b[:16]) ^ bytes_to_integer(derived_half_1)
+            bytes_to_integer(seed_b[:16]) ^ bytes_to_integer(derived_half_1), 16
         ))
         encrypted_half_2: bytes = aes.encrypt(integer_to_bytes(
-            bytes_to_integer(encrypted_half_1[8:] + seed_b[16:]) ^ bytes_to_integer(derived_half_2)
+            bytes_to_integer(encrypted_half_1[8:] + seed_b[16:]) ^ bytes_to_integer(derived_half_2), 16
         ))
         encrypted_wif: str = ensure_string(check_encode((
             integer_to_bytes(EC_MULTIPLIED_PRIVATE_KEY_PREFIX) +
@@ -331,10 +331,10 @@ class BIP38:
             (bytes_to_integer(scrypt_hash[63:]) & 1) ^ bytes_to_integer(point_b[:1])
         )
         point_b_half_1: bytes = aes.encrypt(integer_to_bytes(
-            bytes_to_integer(point_b[1:17]) ^ bytes_to_integer(derived_half_1)
+            bytes_to_integer(point_b[1:17]) ^ bytes_to_integer(derived_half_1), 16
         ))
         point_b_half_2: bytes = aes.encrypt(integer_to_bytes(
-            bytes_to_integer(point_b[17:]) ^ bytes_to_integer(derived_half_2)
+            bytes_to_integer(point_b[17:]) ^ bytes_to_integer(derived_half_2), 16
         ))
         encrypted_point_b: bytes = (
             point_b_prefix + point_b_half_1 + point_b_half_2
@@ -425,10 +425,10 @@ class BIP38:
 
         aes: AESModeOfOperationECB = AESModeOfOperationECB(key)
         point_b_half_1: bytes = integer_to_bytes(
-            bytes_to_integer(aes.decrypt(derived_half_1)) ^ bytes_to_integer(scrypt_hash[:16])
+            bytes_to_integer(aes.decrypt(derived_half_1)) ^ bytes_to_integer(scrypt_hash[:16]), 16
         )
         point_b_half_2: bytes = integer_to_bytes(
-            bytes_to_integer(aes.decrypt(derived_half_2)) ^ bytes_to_integer(scrypt_hash[16:32])
+            bytes_to_integer(aes.decrypt(derived_half_2)) ^ bytes_to_integer(scrypt_hash[16:32]), 16
         )
         point_b_prefix: bytes = integer_to_bytes(
             bytes_to_integer(encrypted_point_b[:1]) ^ (bytes_to_integer(scrypt_hash[63:]) & 1)
@@ -541,7 +541,7 @@ class BIP38:
             decrypted_half_1: bytes = aes.decrypt(encrypted_half_1)
 
             private_key: bytes = integer_to_bytes(
-                bytes_to_integer(decrypted_half_1 + decrypted_half_2) ^ bytes_to_integer(derived_half_1)
+                bytes_to_integer(decrypted_half_1 + decrypted_half_2) ^ bytes_to_integer(derived_half_1), 32
             )
             if bytes_to_integer(private_key) == 0 or bytes_to_integer(private_key) >= N:
                 raise Error("Invalid Non-EC encrypted WIF (Wallet Import Format)")
@@ -597,7 +597,7 @@ class BIP38:
 
             aes: AESModeOfOperationECB = AESModeOfOperationECB(key)
             encrypted_half_1_half_2_seed_b_last_3 = integer_to_bytes(
-                bytes_to_integer(aes.decrypt(encrypted_half_2)) ^ bytes_to_integer(encrypted_seed_b[16:32])
+                bytes_to_integer(aes.decrypt(encrypted_half_2)) ^ bytes_to_integer(encrypted_seed_b[16:32]), 16
             )
             encrypted_half_1_half_2: bytes = encrypted_half_1_half_2_seed_b_last_3[:8]
             encrypted_half_1: bytes = (
@@ -605,7 +605,7 @@ class BIP38:
             )
 
             seed_b: bytes = integer_to_bytes(
-                bytes_to_integer(aes.decrypt(encrypted_half_1)) ^ bytes_to_integer(encrypted_seed_b[:16])
+                bytes_to_integer(aes.decrypt(encrypted_half_1)) ^ bytes_to_integer(encrypted_seed_b[:16]), 16
             ) + encrypted_half_1_half_2_seed_b_last_3[8:]
 
             factor_b: bytes = double_sha256(seed_b)
@@ -614,7 +614,7 @@ class BIP38:
 
             # multiply private key
             private_key: bytes = integer_to_bytes(
-                (bytes_to_integer(pass_factor) * bytes_to_integer(factor_b)) % N
+                (bytes_to_integer(pass_factor) * bytes_to_integer(factor_b)) % N, 32
             )
             public_key: PublicKey = PrivateKey.from_bytes(private_key).public_key()
             wif_type: Literal["wif", "wif-compressed"] = "wif"
-- 
2.43.0


From 307f7ca482cbe226296644929a9758227df0e1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 02/10] fix: treat lot/sequence number 0 as a given number in
 intermediate_code

Sequence 0 is valid, but was taken as 'no lot and sequence', silently
dropping the lot (and, with a 4 byte owner salt, giving an unusable code).
---
 bip38/bip38.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bip38/bip38.py b/bip38/bip38.py
index eba0708..a10552b 100644
--- a/bip38/bip38.py
+++ b/bip38/bip38.py
@@ -124,10 +124,10 @@ class BIP38:
             raise Error("Invalid owner salt length", expected=[8, 16], got=len(bytes_to_string(owner_salt)))
         if len(owner_salt) == 4 and (lot is None or sequence is None):
             raise Error("Invalid owner salt length for non lot/sequence", expected=16, got=len(bytes_to_string(owner_salt)))
-        if (lot and sequence is None) or (lot is None and sequence):
+        if (lot is None) != (sequence is None):
             raise Error("Both lot & sequence are required", detail=f"got: (lot {lot}) & (sequence {sequence})")
 
-        if lot and sequence:
+        if lot is not None and sequence is not None:
             lot, sequence = int(lot), int(sequence)
             if not 100000 <= lot <= 999999:
                 raise Error("Invalid lot", expected="100000 <= lot <= 999999", got=lot)
-- 
2.43.0


From f4f856201b6173bfc3c20f679234c1b50e4f9524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 03/10] fix: reject characters outside the alphabet when
 decoding base58

str.find() gave -1 for them, so such strings were decoded as if they were
other, valid ones. decrypt and decode_wif report it as WIFError.
---
 bip38/bip38.py       | 5 ++++-
 bip38/libs/base58.py | 5 ++++-
 bip38/wif.py         | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/bip38/bip38.py b/bip38/bip38.py
index a10552b..479e926 100644
--- a/bip38/bip38.py
+++ b/bip38/bip38.py
@@ -505,7 +505,10 @@ class BIP38:
         )
         if network not in self.networks:
             raise NetworkError("Wrong network type", expected=self.networks, got=type(network))
-        encrypted_wif_decode: bytes = decode(encrypted_wif)
+        try:
+            encrypted_wif_decode: bytes = decode(encrypted_wif)
+        except ValueError:
+            raise WIFError("Invalid encrypted WIF")
         if len(encrypted_wif_decode) != 43:
             raise WIFError("Invalid encrypted WIF length", expected=43, got=len(encrypted_wif_decode))
 
diff --git a/bip38/libs/base58.py b/bip38/libs/base58.py
index dd0f95f..a350f1a 100644
--- a/bip38/libs/base58.py
+++ b/bip38/libs/base58.py
@@ -51,7 +51,10 @@ def decode(data, alphabet=__base58_alphabet):
     val = 0
     prefix = 0
     for c in data:
-        val = (val * len(alphabet)) + alphabet.encode("utf-8").find(c)
+        digit = alphabet.encode("utf-8").find(c)
+        if digit < 0:
+            raise ValueError("Invalid base58 character")
+        val = (val * len(alphabet)) + digit
         if val == 0:
             prefix += 1
 
diff --git a/bip38/wif.py b/bip38/wif.py
index 83b8a06..b287b21 100644
--- a/bip38/wif.py
+++ b/bip38/wif.py
@@ -71,7 +71,10 @@ def decode_wif(
     :rtype: Tuple[bytes, str, bytes]
     """
 
-    raw: bytes = decode(wif)
+    try:
+        raw: bytes = decode(wif)
+    except ValueError:
+        raise WIFError(f"Invalid Wallet Import Format (WIF)")
     if not raw.startswith(integer_to_bytes(wif_prefix)):
         raise WIFError(f"Invalid Wallet Import Format (WIF)")
 
-- 
2.43.0


From 890b2ded6622752dc7660d3803d5fa6a611ddee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 04/10] fix: verify the checksum of an encrypted WIF before
 decrypting it

---
 bip38/bip38.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bip38/bip38.py b/bip38/bip38.py
index 479e926..21f7f2f 100644
--- a/bip38/bip38.py
+++ b/bip38/bip38.py
@@ -511,6 +511,8 @@ class BIP38:
             raise WIFError("Invalid encrypted WIF")
         if len(encrypted_wif_decode) != 43:
             raise WIFError("Invalid encrypted WIF length", expected=43, got=len(encrypted_wif_decode))
+        if get_checksum(encrypted_wif_decode[:-4]) != encrypted_wif_decode[-4:]:
+            raise WIFError("Invalid encrypted WIF checksum")
 
         prefix: bytes = encrypted_wif_decode[:2]
         flag: bytes = encrypted_wif_decode[2:3]
-- 
2.43.0


From 92e014e5487894a8ea335264519b86a00cfbc03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 05/10] fix: verify the checksum and compression suffix when
 decoding a WIF

A mistyped WIF was accepted, and encrypt() then protected a different key.
---
 bip38/wif.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bip38/wif.py b/bip38/wif.py
index b287b21..5a70294 100644
--- a/bip38/wif.py
+++ b/bip38/wif.py
@@ -88,9 +88,13 @@ def decode_wif(
     private_key: bytes = raw_without_prefix[:-1 * 4]
     wif_type: str = "wif"
 
+    if get_checksum(raw[:-1 * 4]) != checksum:
+        raise WIFError("Invalid WIF checksum")
     if len(private_key) not in [33, 32]:
         raise WIFError(f"Invalid Wallet Import Format (WIF)")
     elif len(private_key) == 33:
+        if not private_key.endswith(integer_to_bytes(COMPRESSED_PRIVATE_KEY_PREFIX)):
+            raise WIFError(f"Invalid Wallet Import Format (WIF)")
         private_key = private_key[:-len(integer_to_bytes(COMPRESSED_PRIVATE_KEY_PREFIX))]
         wif_type = "wif-compressed"
 
-- 
2.43.0


From 6f024cffea2b0689ebfeecc3e93e5351156b93ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 06/10] fix: reject a seed that is not 24 bytes in
 create_new_encrypted_wif

The result of such a seed could not be decrypted again.
---
 bip38/bip38.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bip38/bip38.py b/bip38/bip38.py
index 21f7f2f..895efb7 100644
--- a/bip38/bip38.py
+++ b/bip38/bip38.py
@@ -261,6 +261,8 @@ class BIP38:
         if network not in self.networks:
             raise NetworkError("Wrong network type", expected=self.networks, got=type(network))
         seed_b: bytes = get_bytes(seed) if seed else os.urandom(24)
+        if len(seed_b) != 24:
+            raise Error("Invalid seed length", expected=48, got=len(bytes_to_string(seed_b)))
         try:
             intermediate_decode: bytes = check_decode(intermediate_passphrase)
         except ValueError:
-- 
2.43.0


From 43630999797ae226e1472928f9a50a845c55a40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 07/10] fix: reject flags that are not EC-multiplied flags in
 EC-multiplied codes

Any flag byte was accepted there and read as uncompressed, no lot & sequence.
---
 bip38/bip38.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bip38/bip38.py b/bip38/bip38.py
index 895efb7..bea8d9c 100644
--- a/bip38/bip38.py
+++ b/bip38/bip38.py
@@ -406,6 +406,8 @@ class BIP38:
         address_hash: bytes = confirmation_code_decode[6:10]
         owner_entropy: bytes = confirmation_code_decode[10:18]
         encrypted_point_b: bytes = confirmation_code_decode[18:]
+        if bytes_to_integer(flag) not in FLAGS["ec"]:
+            raise Error("Invalid flag", expected=[f"{ec_flag:02x}" for ec_flag in FLAGS["ec"]], got=bytes_to_string(flag))
 
         lot_and_sequence: Optional[bytes] = None
         if bytes_to_integer(flag) in FLAGS["lot_and_sequence"]:
@@ -583,6 +585,8 @@ class BIP38:
             owner_entropy: bytes = encrypted_wif_decode[7:15]
             encrypted_half_1_half_1: bytes = encrypted_wif_decode[15:23]
             encrypted_half_2: bytes = encrypted_wif_decode[23:-4]
+            if bytes_to_integer(flag) not in FLAGS["ec"]:
+                raise Error("Invalid flag", expected=[f"{ec_flag:02x}" for ec_flag in FLAGS["ec"]], got=bytes_to_string(flag))
 
             lot_and_sequence: Optional[bytes] = None
             if bytes_to_integer(flag) in FLAGS["lot_and_sequence"]:
-- 
2.43.0


From 60854616e47a7b549106e80991dc5a14588d7540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 08/10] fix: fall back to the own RIPEMD-160 when hashlib lists
 it but lacks it

OpenSSL 3 without the legacy provider (or with fips=yes) keeps ripemd160 in
hashlib.algorithms_available while hashlib.new() raises ValueError.
---
 bip38/crypto.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/bip38/crypto.py b/bip38/crypto.py
index c95b801..fa0123b 100644
--- a/bip38/crypto.py
+++ b/bip38/crypto.py
@@ -24,11 +24,14 @@ def ripemd160(data: Union[str, bytes]) -> bytes:
     :rtype: bytes
     """
 
-    return (
-        hashlib.new("ripemd160", get_bytes(data)).digest()
-        if "ripemd160" in hashlib.algorithms_available else
-        r160(get_bytes(data))
-    )
+    try:
+        return (
+            hashlib.new("ripemd160", get_bytes(data)).digest()
+            if "ripemd160" in hashlib.algorithms_available else
+            r160(get_bytes(data))
+        )
+    except ValueError:  # listed by hashlib, but not provided by OpenSSL
+        return r160(get_bytes(data))
 
 
 def sha256(data: Union[str, bytes]) -> bytes:
-- 
2.43.0


From 4881c57fae3facd3ee0804533198baf2ea5d2ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 09/10] fix: reject coordinates that are not on the curve when
 creating a Point

Point.from_bytes accepted any 64 byte (or uncompressed) pair, and
from_coordinates relied on an assert, which python -O removes.
---
 bip38/secp256k1/point.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/bip38/secp256k1/point.py b/bip38/secp256k1/point.py
index 1f69c71..0f6a75b 100644
--- a/bip38/secp256k1/point.py
+++ b/bip38/secp256k1/point.py
@@ -44,11 +44,13 @@ class Point:
         """
 
         try:
-            return cls(
+            decoded: "Point" = cls(
                 PointJacobi.from_bytes(
                     curve_secp256k1, point
                 )
             )
+            cls._check_coordinates(decoded.x(), decoded.y())
+            return decoded
         except keys.MalformedPointError as ex:
             raise Secp256k1Error("Invalid point key bytes") from ex
         except AttributeError:
@@ -71,12 +73,28 @@ class Point:
         :rtype: IPoint
         """
 
+        cls._check_coordinates(x, y)
         return cls(
             PointJacobi.from_affine(
                 _Point(curve_secp256k1, x, y)
             )
         )
 
+    @staticmethod
+    def _check_coordinates(x: int, y: int) -> None:
+        """
+        Raises if x and y are not the coordinates of a point on the curve.
+
+        :param x: The x of the point.
+        :type x: int
+        :param y: The y of the point.
+        :type y: int
+        """
+
+        p: int = curve_secp256k1.p()
+        if not (0 <= x < p and 0 <= y < p and curve_secp256k1.contains_point(x, y)):
+            raise Secp256k1Error("Invalid point coordinates")
+
     def underlying_object(self) -> Any:
         """
         Returns the underlying point object.
-- 
2.43.0


From 5c6b74e7f5575aec19a01379f452d9921cd4be96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:51 +0000
Subject: [PATCH 10/10] fix: format bytes explicitly in prefix errors, so that
 -bb does not replace them

---
 bip38/bip38.py         | 2 +-
 bip38/p2pkh_address.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bip38/bip38.py b/bip38/bip38.py
index bea8d9c..e31a6cd 100644
--- a/bip38/bip38.py
+++ b/bip38/bip38.py
@@ -400,7 +400,7 @@ class BIP38:
         prefix_length: int = len(integer_to_bytes(CONFIRMATION_CODE_PREFIX))
         prefix_got: bytes = confirmation_code_decode[:prefix_length]
         if integer_to_bytes(CONFIRMATION_CODE_PREFIX) != prefix_got:
-            raise Error("Invalid confirmation code prefix", expected=prefix_length, got=prefix_got)
+            raise Error("Invalid confirmation code prefix", expected=prefix_length, got=bytes_to_string(prefix_got))
 
         flag: bytes = confirmation_code_decode[5:6]
         address_hash: bytes = confirmation_code_decode[6:10]
diff --git a/bip38/p2pkh_address.py b/bip38/p2pkh_address.py
index f2e9dc4..d5f5cb6 100644
--- a/bip38/p2pkh_address.py
+++ b/bip38/p2pkh_address.py
@@ -92,6 +92,6 @@ class P2PKHAddress:
 
         prefix_got: bytes = address_decode[:len(address_prefix)]
         if address_prefix != prefix_got:
-            raise AddressError(f"Invalid prefix (expected: {address_prefix}, got: {prefix_got})")
+            raise AddressError(f"Invalid prefix (expected: {address_prefix!r}, got: {prefix_got!r})")
 
         return bytes_to_string(address_decode[len(address_prefix):])
-- 
2.43.0

