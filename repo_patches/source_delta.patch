From cad038b4333abf2c5508288ea2a7df271f1be883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:44 +0000
Subject: [PATCH 01/76] fix: raise ValueError, not KeyError, for an enumerated
 value missing from the map

---
 asn1crypto/core.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index a07cd97..6e3e2ce 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3300,7 +3300,16 @@ class Enumerated(Integer):
             return None
 
         if self._native is None:
-            self._native = self._map[self.__int__()]
+            value = self.__int__()
+            if value not in self._map:
+                raise ValueError(unwrap(
+                    '''
+                    %s value %s is not a valid value
+                    ''',
+                    type_name(self),
+                    value
+                ))
+            self._native = self._map[value]
         return self._native
 
 
-- 
2.43.0


From 68ff43dda0b27126abba4f694825dfce3590a93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:03 +0000
Subject: [PATCH 02/76] fix: refuse malformed object identifier text and forget
 the old dotted form on set

---
 asn1crypto/core.py | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 6e3e2ce..9d8819c 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3103,16 +3103,34 @@ class ObjectIdentifier(Primitive, ValueMap):
                 type_name(value)
             ))
 
-        self._native = value
+        native = value
 
         if self._map is not None:
             if value in self._reverse_map:
                 value = self._reverse_map[value]
 
-        self.contents = b''
+        contents = b''
         first = None
-        for index, part in enumerate(value.split('.')):
-            part = int(part)
+        parts = value.split('.')
+        if len(parts) < 2:
+            raise ValueError(unwrap(
+                '''
+                %s value must have at least two arcs, not %s
+                ''',
+                type_name(self),
+                repr(value)
+            ))
+
+        for index, text in enumerate(parts):
+            part = int(text)
+            if part < 0 or str_cls(part) != text:
+                raise ValueError(unwrap(
+                    '''
+                    %s arcs must be non-negative decimal integers, not %s
+                    ''',
+                    type_name(self),
+                    repr(text)
+                ))
 
             # The first two parts are merged into a single byte
             if index == 0:
@@ -3141,8 +3159,11 @@ class ObjectIdentifier(Primitive, ValueMap):
             while part > 0:
                 encoded_part = chr_cls(0x80 | (0x7F & part)) + encoded_part
                 part = part >> 7
-            self.contents += encoded_part
+            contents += encoded_part
 
+        self._native = native
+        self._dotted = None
+        self.contents = contents
         self._header = None
         if self._trailer != b'':
             self._trailer = b''
-- 
2.43.0


From cefa71af600502ef17169a3d2e4a694f8b6bae8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:12 +0000
Subject: [PATCH 03/76] fix: refuse object identifier contents that end within
 an arc or pad one

---
 asn1crypto/core.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 9d8819c..af94ece 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3187,10 +3187,18 @@ class ObjectIdentifier(Primitive, ValueMap):
         if self._dotted is None:
             output = []
 
+            if not self.contents:
+                raise ValueError('Object identifier has no contents')
+
             part = 0
+            in_arc = False
             for byte in self.contents:
                 if _PY2:
                     byte = ord(byte)
+                if not in_arc and byte == 0x80:
+                    # Disallowed by X.690 §8.19.2
+                    raise ValueError('Non-minimal object identifier arc')
+                in_arc = byte & 0x80 != 0
                 part = part * 128
                 part += byte & 127
                 # Last byte in subidentifier has the eighth bit set to 0
@@ -3209,6 +3217,9 @@ class ObjectIdentifier(Primitive, ValueMap):
                         output.append(str_cls(part))
                     part = 0
 
+            if in_arc:
+                raise ValueError('Object identifier ends within an arc')
+
             self._dotted = '.'.join(output)
         return self._dotted
 
-- 
2.43.0


From 17c424ef3c34ef72a469353011a8aced62a629b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:23 +0000
Subject: [PATCH 04/76] fix: AnyAlgorithmId accepts mapped names

---
 asn1crypto/algos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index 3a4b18f..609d3a5 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -1319,9 +1319,11 @@ class AnyAlgorithmId(ObjectIdentifier):
 
     def _setup(self):
         _map = self.__class__._map
+        _reverse_map = self.__class__._reverse_map = {}
         for other_cls in (EncryptionAlgorithmId, SignedDigestAlgorithmId, DigestAlgorithmId):
             for oid, name in other_cls._map.items():
                 _map[oid] = name
+                _reverse_map[name] = other_cls.unmap(name)
 
 
 class AnyAlgorithmIdentifier(_ForceNullParameters, Sequence):
-- 
2.43.0


From c1fc8ed28fef04d55842e6ab4961b6cdc45680eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:12 +0000
Subject: [PATCH 05/76] fix: named bit strings keep bits that have no name and
 refuse unknown names

---
 asn1crypto/core.py | 45 +++++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index af94ece..5aef264 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -2141,21 +2141,43 @@ class BitString(_IntegerBitString, Constructable, Castable, Primitive, ValueMap)
                     type_name(self)
                 ))
 
+            # Bits that have no name are represented by their index
+            native = set()
             bits = [0] * self._size
-            self._native = value
-            for index in range(0, self._size):
-                key = self._map.get(index)
-                if key is None:
-                    continue
-                if key in value:
-                    bits[index] = 1
+            for key in value:
+                if isinstance(key, int_types) and key >= 0:
+                    index = key
+                elif key in self._reverse_map:
+                    index = self._reverse_map[key]
+                else:
+                    raise ValueError(unwrap(
+                        '''
+                        %s._map does not contain an entry for "%s"
+                        ''',
+                        type_name(self),
+                        key
+                    ))
+                if index >= len(bits):
+                    bits.extend([0] * (index + 1 - len(bits)))
+                bits[index] = 1
+                native.add(self._map.get(index, index))
 
+            self._native = native
             value = ''.join(map(str_cls, bits))
 
         elif value.__class__ == tuple:
             if self._map is None:
                 self._native = value
             else:
+                if len(value) > self._size:
+                    raise ValueError(unwrap(
+                        '''
+                        %s value must be at most %s bits long, specified was %s long
+                        ''',
+                        type_name(self),
+                        self._size,
+                        len(value)
+                    ))
                 self._native = set()
                 for index, bit in enumerate(value):
                     if bit:
@@ -2174,15 +2196,6 @@ class BitString(_IntegerBitString, Constructable, Castable, Primitive, ValueMap)
             ))
 
         if self._map is not None:
-            if len(value) > self._size:
-                raise ValueError(unwrap(
-                    '''
-                    %s value must be at most %s bits long, specified was %s long
-                    ''',
-                    type_name(self),
-                    self._size,
-                    len(value)
-                ))
             # A NamedBitList must have trailing zero bit truncated. See
             # https://www.itu.int/ITU-T/studygroups/com17/languages/X.690-0207.pdf
             # section 11.2,
-- 
2.43.0


From 01382a4302c8502915456ea6479d37b387c3ebb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:47 +0000
Subject: [PATCH 06/76] fix: bit strings without contents octets are refused
 with ValueError

---
 asn1crypto/core.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 5aef264..29ce333 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -2019,6 +2019,10 @@ class _IntegerBitString(object):
             # return an empty chunk, for cases like \x23\x80\x00\x00
             return []
 
+        if len(self.contents) == 0:
+            # Disallowed by X.690 §8.6.2.1
+            raise ValueError('Bit string is missing the unused bits octet')
+
         unused_bits_len = ord(self.contents[0]) if _PY2 else self.contents[0]
         value = int_from_bytes(self.contents[1:])
         bits = (len(self.contents) - 1) * 8
@@ -2463,6 +2467,14 @@ class OctetBitString(Constructable, Castable, Primitive):
             List with one tuple, consisting of a byte string and an integer (unused bits)
         """
 
+        if self._indefinite:
+            # return an empty chunk, for cases like \x23\x80\x00\x00
+            return []
+
+        if len(self.contents) == 0:
+            # Disallowed by X.690 §8.6.2.1
+            raise ValueError('Bit string is missing the unused bits octet')
+
         unused_bits_len = ord(self.contents[0]) if _PY2 else self.contents[0]
         if not unused_bits_len:
             return [(self.contents[1:], ())]
@@ -2962,6 +2974,14 @@ class ParsableOctetBitString(ParsableOctetString):
             A byte string
         """
 
+        if self._indefinite:
+            # return an empty chunk, for cases like \x23\x80\x00\x00
+            return b''
+
+        if len(self.contents) == 0:
+            # Disallowed by X.690 §8.6.2.1
+            raise ValueError('Bit string is missing the unused bits octet')
+
         unused_bits_len = ord(self.contents[0]) if _PY2 else self.contents[0]
         if unused_bits_len:
             raise ValueError('ParsableOctetBitString should have no unused bits')
-- 
2.43.0


From 334c495f7780f37c2cb00487065059b3aec77b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:26 +0000
Subject: [PATCH 07/76] fix: assigning a parsable octet string forgets the
 value parsed before

---
 asn1crypto/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 29ce333..860ce55 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -2802,6 +2802,7 @@ class ParsableOctetString(Constructable, Castable, Primitive):
             ))
 
         self._bytes = value
+        self._parsed = None
         self.contents = value
         self._header = None
         if self._indefinite:
@@ -2919,12 +2920,14 @@ class ParsableOctetString(Constructable, Castable, Primitive):
             force = True
 
         if force:
-            if self._parsed is not None:
+            parsed = self._parsed
+            if parsed is not None:
                 native = self.parsed.dump(force=force)
             else:
                 native = self.native
             self.contents = None
             self.set(native)
+            self._parsed = parsed
 
         return Asn1Value.dump(self)
 
@@ -2954,6 +2957,7 @@ class ParsableOctetBitString(ParsableOctetString):
             ))
 
         self._bytes = value
+        self._parsed = None
         # Set the unused bits to 0
         self.contents = b'\x00' + value
         self._header = None
-- 
2.43.0


From 131bc7113bc03515e9b90538e70fcb09db5862ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:32 +0000
Subject: [PATCH 08/76] fix: a refused string value no longer changes the
 native value

---
 asn1crypto/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 860ce55..6f3985f 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1808,8 +1808,8 @@ class AbstractString(Constructable, Primitive):
                 type_name(value)
             ))
 
-        self._unicode = value
         self.contents = value.encode(self._encoding)
+        self._unicode = value
         self._header = None
         if self._indefinite:
             self._indefinite = False
@@ -2712,8 +2712,8 @@ class IntegerOctetString(Constructable, Castable, Primitive):
                 value
             ))
 
-        self._native = value
         self.contents = int_to_bytes(value, signed=False, width=self._encoded_width)
+        self._native = value
         self._header = None
         if self._indefinite:
             self._indefinite = False
-- 
2.43.0


From b91a84c5bcfe209d1d5fb2e0220fa9402f653be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:14 +0000
Subject: [PATCH 09/76] fix: copies of integer octet strings keep the encoded
 width

---
 asn1crypto/core.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 6f3985f..6f433a4 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -2721,6 +2721,21 @@ class IntegerOctetString(Constructable, Castable, Primitive):
         if self._trailer != b'':
             self._trailer = b''
 
+    def _copy(self, other, copy_func):
+        """
+        Copies the contents of another IntegerOctetString object to itself
+
+        :param object:
+            Another instance of the same class
+
+        :param copy_func:
+            An reference of copy.copy() or copy.deepcopy() to use when copying
+            lists, dicts and objects
+        """
+
+        self._encoded_width = other._encoded_width
+        super(IntegerOctetString, self)._copy(other, copy_func)
+
     @property
     def native(self):
         """
-- 
2.43.0


From 8ba9b4b422c530fb9811d878e539a6c03aae4a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:20 +0000
Subject: [PATCH 10/76] fix: copies of chunked bit strings report the unused
 bits of their own encoding

---
 asn1crypto/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 6f433a4..429e773 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -2088,7 +2088,9 @@ class _IntegerBitString(object):
         """
 
         super(_IntegerBitString, self)._copy(other, copy_func)
-        self._unused_bits = other._unused_bits
+        # An indefinite encoding was re-encoded, without the padding it had
+        if not other._indefinite:
+            self._unused_bits = other._unused_bits
 
     @property
     def unused_bits(self):
@@ -2454,7 +2456,9 @@ class OctetBitString(Constructable, Castable, Primitive):
 
         super(OctetBitString, self)._copy(other, copy_func)
         self._bytes = other._bytes
-        self._unused_bits = other._unused_bits
+        # An indefinite encoding was re-encoded, without the padding it had
+        if not other._indefinite:
+            self._unused_bits = other._unused_bits
 
     def _as_chunk(self):
         """
-- 
2.43.0


From 60bbe89f7cd0a9d2666c62413145f075b917e4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:17 +0000
Subject: [PATCH 11/76] fix: a definite length ending in 0x80 is not taken for
 an indefinite length when dumping

---
 asn1crypto/core.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 429e773..ea4793c 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -643,8 +643,9 @@ class Asn1Value(object):
 
         contents = self.contents
 
-        # If the length is indefinite, force the re-encoding
-        if self._header is not None and self._header[-1:] == b'\x80':
+        # If the length is indefinite, force the re-encoding. A definite length
+        # may also end in \x80, but has no end-of-contents octets.
+        if self._header is not None and self._header[-1:] == b'\x80' and self._trailer != b'':
             force = True
 
         if self._header is None or force:
@@ -1349,8 +1350,9 @@ class Choice(Asn1Value):
             A byte string of the DER-encoded value
         """
 
-        # If the length is indefinite, force the re-encoding
-        if self._header is not None and self._header[-1:] == b'\x80':
+        # If the length is indefinite, force the re-encoding. A definite length
+        # may also end in \x80, but has no end-of-contents octets.
+        if self._header is not None and self._header[-1:] == b'\x80' and self._trailer != b'':
             force = True
 
         self._contents = self.chosen.dump(force=force)
@@ -1726,8 +1728,9 @@ class Primitive(Asn1Value):
             A byte string of the DER-encoded value
         """
 
-        # If the length is indefinite, force the re-encoding
-        if self._header is not None and self._header[-1:] == b'\x80':
+        # If the length is indefinite, force the re-encoding. A definite length
+        # may also end in \x80, but has no end-of-contents octets.
+        if self._header is not None and self._header[-1:] == b'\x80' and self._trailer != b'':
             force = True
 
         if force:
@@ -4233,8 +4236,9 @@ class Sequence(Asn1Value):
             A byte string of the DER-encoded value
         """
 
-        # If the length is indefinite, force the re-encoding
-        if self._header is not None and self._header[-1:] == b'\x80':
+        # If the length is indefinite, force the re-encoding. A definite length
+        # may also end in \x80, but has no end-of-contents octets.
+        if self._header is not None and self._header[-1:] == b'\x80' and self._trailer != b'':
             force = True
 
         # We can't force encoding if we don't have a spec
@@ -4706,8 +4710,9 @@ class SequenceOf(Asn1Value):
             A byte string of the DER-encoded value
         """
 
-        # If the length is indefinite, force the re-encoding
-        if self._header is not None and self._header[-1:] == b'\x80':
+        # If the length is indefinite, force the re-encoding. A definite length
+        # may also end in \x80, but has no end-of-contents octets.
+        if self._header is not None and self._header[-1:] == b'\x80' and self._trailer != b'':
             force = True
 
         if force:
-- 
2.43.0


From f1b2e6749ff876f5450827ae92faa3abbf7af2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:14 +0000
Subject: [PATCH 12/76] fix: names assigned after being received in chunks are
 no longer taken for chunked

---
 asn1crypto/x509.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 38aa770..96e6fbc 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -117,6 +117,9 @@ class DNSName(IA5String):
         self._unicode = value
         self.contents = encoded_value
         self._header = None
+        if self._indefinite:
+            self._indefinite = False
+            self.method = 0
         if self._trailer != b'':
             self._trailer = b''
 
@@ -143,6 +146,9 @@ class URI(IA5String):
         self._unicode = value
         self.contents = iri_to_uri(value)
         self._header = None
+        if self._indefinite:
+            self._indefinite = False
+            self.method = 0
         if self._trailer != b'':
             self._trailer = b''
 
@@ -234,6 +240,9 @@ class EmailAddress(IA5String):
         self._unicode = value
         self.contents = encoded_value
         self._header = None
+        if self._indefinite:
+            self._indefinite = False
+            self.method = 0
         if self._trailer != b'':
             self._trailer = b''
 
@@ -371,6 +380,9 @@ class IPAddress(OctetString):
         self.contents = inet_pton(family, value) + cidr_bytes
         self._bytes = self.contents
         self._header = None
+        if self._indefinite:
+            self._indefinite = False
+            self.method = 0
         if self._trailer != b'':
             self._trailer = b''
 
-- 
2.43.0


From 17827286b66a955b076363ec38cf27b2afba1baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:01 +0000
Subject: [PATCH 13/76] fix: IP addresses of a wrong length, with a mask that
 is no prefix, or not numeric are refused with ValueError

---
 asn1crypto/x509.py | 42 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 5 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 96e6fbc..b9d7878 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -337,6 +337,13 @@ class IPAddress(OctetString):
         if has_cidr:
             parts = value.split('/', 1)
             value = parts[0]
+            if not re.match(r'-?[0-9]+\Z', parts[1]):
+                raise ValueError(unwrap(
+                    '''
+                    %s value contains a CIDR range that is not a number
+                    ''',
+                    type_name(self)
+                ))
             cidr = int(parts[1])
             if cidr < 0:
                 raise ValueError(unwrap(
@@ -376,8 +383,19 @@ class IPAddress(OctetString):
             cidr_bytes = int_to_bytes(int(cidr_mask, 2))
             cidr_bytes = (b'\x00' * ((cidr_size // 8) - len(cidr_bytes))) + cidr_bytes
 
+        try:
+            address_bytes = inet_pton(family, value)
+        except (socket.error):
+            raise ValueError(unwrap(
+                '''
+                %s value is not an IP address, got %s
+                ''',
+                type_name(self),
+                repr(original_value)
+            ))
+
         self._native = original_value
-        self.contents = inet_pton(family, value) + cidr_bytes
+        self.contents = address_bytes + cidr_bytes
         self._bytes = self.contents
         self._header = None
         if self._indefinite:
@@ -401,19 +419,33 @@ class IPAddress(OctetString):
         if self._native is None:
             byte_string = self.__bytes__()
             byte_len = len(byte_string)
-            value = None
+            if byte_len not in set([4, 8, 16, 32]):
+                raise ValueError(unwrap(
+                    '''
+                    %s must be 4, 8, 16 or 32 bytes long, got %d bytes
+                    ''',
+                    type_name(self),
+                    byte_len
+                ))
             cidr_int = None
             if byte_len in set([32, 16]):
                 value = inet_ntop(socket.AF_INET6, byte_string[0:16])
                 if byte_len > 16:
                     cidr_int = int_from_bytes(byte_string[16:])
-            elif byte_len in set([8, 4]):
+            else:
                 value = inet_ntop(socket.AF_INET, byte_string[0:4])
                 if byte_len > 4:
                     cidr_int = int_from_bytes(byte_string[4:])
             if cidr_int is not None:
-                cidr_bits = '{0:b}'.format(cidr_int)
-                cidr = len(cidr_bits.rstrip('0'))
+                cidr_bits = '{0:0{1}b}'.format(cidr_int, byte_len * 4)
+                cidr = cidr_bits.count('1')
+                if '01' in cidr_bits:
+                    raise ValueError(unwrap(
+                        '''
+                        %s contains a mask that is not a CIDR range
+                        ''',
+                        type_name(self)
+                    ))
                 value = value + '/' + str_cls(cidr)
             self._native = value
         return self._native
-- 
2.43.0


From 7bd8cff6edfae86607511e52bdf5172b5ee5bac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:21 +0000
Subject: [PATCH 14/76] fix: the IPv6 text parser for Windows takes a leading
 or trailing :: and refuses oversized groups with ValueError

---
 asn1crypto/_inet.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/asn1crypto/_inet.py b/asn1crypto/_inet.py
index 045ba56..15f4eb4 100644
--- a/asn1crypto/_inet.py
+++ b/asn1crypto/_inet.py
@@ -1,6 +1,7 @@
 # coding: utf-8
 from __future__ import unicode_literals, division, absolute_import, print_function
 
+import re
 import socket
 import struct
 
@@ -120,11 +121,10 @@ def inet_pton(address_family, ip_string):
         if not error:
             ints = []
             for o in octets:
-                o = int(o)
-                if o > 255 or o < 0:
+                if not re.match('[0-9]{1,3}\\Z', o) or int(o) > 255:
                     error = True
                     break
-                ints.append(o)
+                ints.append(int(o))
 
         if error:
             raise ValueError(unwrap(
@@ -146,20 +146,21 @@ def inet_pton(address_family, ip_string):
         error = len(octets) != 8
     else:
         begin, end = ip_string.split('::')
-        begin_octets = begin.split(':')
-        end_octets = end.split(':')
+        begin_octets = begin.split(':') if begin else []
+        end_octets = end.split(':') if end else []
         missing = 8 - len(begin_octets) - len(end_octets)
+        error = missing < 1
         octets = begin_octets + (['0'] * missing) + end_octets
 
     if not error:
         ints = []
         for o in octets:
-            o = int(o, 16)
-            if o > 65535 or o < 0:
+            if not re.match('[0-9a-fA-F]{1,4}\\Z', o):
                 error = True
                 break
-            ints.append(o)
+            ints.append(int(o, 16))
 
+    if not error:
         return struct.pack(b'!HHHHHHHH', *ints)
 
     raise ValueError(unwrap(
-- 
2.43.0


From d970a030c3045d4a6936d25e31c6f86309fba386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:50 +0000
Subject: [PATCH 15/76] fix: a Latin-1 teletex string in a name keeps its
 octets in a forced dump and a copy

---
 asn1crypto/x509.py | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index b9d7878..3e76951 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -31,6 +31,7 @@ from ._types import type_name, str_cls, byte_cls, bytes_to_list
 from .algos import AlgorithmIdentifier, AnyAlgorithmIdentifier, DigestAlgorithm, SignedDigestAlgorithm
 from .core import (
     Any,
+    Asn1Value,
     BitString,
     BMPString,
     Boolean,
@@ -523,6 +524,47 @@ class NotReallyTeletexString(TeletexString):
             self._unicode = self._merge_chunks().decode(self._decoding_encoding)
         return self._unicode
 
+    def _copy(self, other, copy_func):
+        """
+        Copies the contents of another NotReallyTeletexString object to itself
+
+        :param object:
+            Another instance of the same class
+
+        :param copy_func:
+            An reference of copy.copy() or copy.deepcopy() to use when copying
+            lists, dicts and objects
+        """
+
+        Asn1Value._copy(self, other, copy_func)
+        self._unicode = other._unicode
+        if other._indefinite:
+            self.contents = other._merge_chunks()
+
+    def dump(self, force=False):
+        """
+        Encodes the value using DER
+
+        :param force:
+            If the encoded contents already exist, clear them and regenerate
+            to ensure they are in DER format instead of BER format
+
+        :return:
+            A byte string of the DER-encoded value
+        """
+
+        # Since values are decoded using a different encoding than they are
+        # encoded with, the decoded value can not be used for re-encoding
+        if self.contents is not None and (force or self._indefinite):
+            self.contents = self._merge_chunks()
+            self._header = None
+            self._trailer = b''
+            if self._indefinite:
+                self._indefinite = False
+                self.method = 0
+
+        return Asn1Value.dump(self)
+
 
 @contextmanager
 def strict_teletex():
-- 
2.43.0


From 95a5b3f2b433e3c1b953a6d940e31cc917dbd003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:47 +0000
Subject: [PATCH 16/76] fix: time text with a trailing newline or an offset of
 more than 59 minutes is refused, and no OverflowError escapes for a fraction
 at the end of year 9999

---
 asn1crypto/core.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index ea4793c..bc2166e 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -5085,7 +5085,15 @@ class AbstractTime(AbstractString):
             value = self._get_datetime(parsed)
 
             if fraction:
-                value += timedelta(microseconds=fraction)
+                try:
+                    value += timedelta(microseconds=fraction)
+                except (OverflowError):
+                    raise ValueError(unwrap(
+                        '''
+                        The fraction of %s rounds to a time after the year 9999
+                        ''',
+                        str_cls(self)
+                    ))
 
             self._native = value
 
@@ -5122,10 +5130,10 @@ class UTCTime(AbstractTime):
             (?:
                 (?P<dsign>[-+])
                 (?P<dhour>\d{2})
-                (?P<dminute>\d{2})
+                (?P<dminute>[0-5]\d)
             )
         )
-        $
+        \Z
     ''', re.X)
 
     def set(self, value):
@@ -5218,10 +5226,10 @@ class GeneralizedTime(AbstractTime):
             (?:
                 (?P<dsign>[-+])
                 (?P<dhour>\d{2})
-                (?P<dminute>\d{2})?
+                (?P<dminute>[0-5]\d)?
             )
         )?
-        $
+        \Z
     ''', re.X)
 
     def set(self, value):
-- 
2.43.0


From 1388b6d1e3434d7c1e6d8d4ba0da2588e489e41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:47 +0000
Subject: [PATCH 17/76] fix: GeneralizedTime pads years below 1000, encodes
 instants that fall into year 0 in UTC and refuses those after year 9999 with
 ValueError

---
 asn1crypto/core.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index bc2166e..add6c42 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -5148,11 +5148,14 @@ class UTCTime(AbstractTime):
         """
 
         if isinstance(value, datetime):
-            if not value.tzinfo:
+            if value.utcoffset() is None:
                 raise ValueError('Must be timezone aware')
 
             # Convert value to UTC.
-            value = value.astimezone(utc_with_dst)
+            try:
+                value = value.astimezone(utc_with_dst)
+            except (OverflowError):
+                raise ValueError('Year of the UTCTime is not in range [1950, 2049], use GeneralizedTime instead')
 
             if not 1950 <= value.year <= 2049:
                 raise ValueError('Year of the UTCTime is not in range [1950, 2049], use GeneralizedTime instead')
@@ -5245,18 +5248,25 @@ class GeneralizedTime(AbstractTime):
         """
 
         if isinstance(value, (datetime, extended_datetime)):
-            if not value.tzinfo:
+            if value.utcoffset() is None:
                 raise ValueError('Must be timezone aware')
 
             # Convert value to UTC.
-            value = value.astimezone(utc_with_dst)
+            try:
+                value = value.astimezone(utc_with_dst)
+            except (OverflowError):
+                if value.year != 1:
+                    raise ValueError('Year of the GeneralizedTime is not in range [0, 9999]')
+                # datetime does not support year 0. Convert in year 2000 instead.
+                value = extended_datetime.from_y2k(value.replace(year=2001).astimezone(utc_with_dst))
 
             if value.microsecond:
                 fraction = '.' + str(value.microsecond).zfill(6).rstrip('0')
             else:
                 fraction = ''
 
-            value = value.strftime('%Y%m%d%H%M%S') + fraction + 'Z'
+            # %Y is not padded to four digits on all platforms
+            value = '%04d' % value.year + value.strftime('%m%d%H%M%S') + fraction + 'Z'
             if _PY2:
                 value = value.decode('ascii')
 
-- 
2.43.0


From d9363ebca43ca425b0d41fc0b0dcfbab0f7b47e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:09 +0000
Subject: [PATCH 18/76] fix: a forced dump that is refused no longer clears the
 value

---
 asn1crypto/core.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index add6c42..f826c72 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1735,7 +1735,6 @@ class Primitive(Asn1Value):
 
         if force:
             native = self.native
-            self.contents = None
             self.set(native)
 
         return Asn1Value.dump(self)
-- 
2.43.0


From 00db754eb0332bcdebd40b0d98e571513859c28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:27 +0000
Subject: [PATCH 19/76] fix: year-0 dates have a hash that agrees with their
 equality, and durations reach the years 8000 to 9999

---
 asn1crypto/util.py | 52 ++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 48 insertions(+), 4 deletions(-)

diff --git a/asn1crypto/util.py b/asn1crypto/util.py
index 918b330..935e529 100644
--- a/asn1crypto/util.py
+++ b/asn1crypto/util.py
@@ -310,6 +310,19 @@ def create_timezone(offset):
     return tz
 
 
+def _furthest_timezone():
+    """
+    :return:
+        The timezone that is furthest ahead of UTC
+    """
+
+    try:
+        return create_timezone(timedelta(days=1) - timedelta.resolution)
+    except (ValueError):
+        # Before Python 3.7, offsets have to be in full minutes
+        return create_timezone(timedelta(hours=23, minutes=59))
+
+
 class extended_date(object):
     """
     A datetime.datetime-like object that represents the year 0. This is just
@@ -444,6 +457,14 @@ class extended_date(object):
             return False
         return self.__cmp__(other) == 0
 
+    def __hash__(self):
+        """
+        :return:
+            An integer that is the same for equal extended_date objects
+        """
+
+        return hash(self._y2k)
+
     def __ne__(self, other):
         """
         Compare two extended_date objects
@@ -736,11 +757,28 @@ class extended_datetime(object):
             return False
 
         # Offset-naive and offset-aware datetimes are never the same
-        if (self.tzinfo is None) != (other.tzinfo is None):
+        if (self.utcoffset() is None) != (other.utcoffset() is None):
             return False
 
         return self.__cmp__(other) == 0
 
+    def __hash__(self):
+        """
+        :return:
+            An integer that is the same for equal extended_datetime and
+            datetime.datetime objects
+        """
+
+        if self.utcoffset() is None:
+            return hash(self._y2k)
+
+        # A datetime object that is equal to this one is in year 1 of a timezone
+        # that is ahead of UTC. Find it in the timezone that is furthest ahead.
+        value = self._y2k.astimezone(_furthest_timezone())
+        if value.year > 2000:
+            value = value.replace(year=value.year - 2000)
+        return hash(value)
+
     def __ne__(self, other):
         """
         Compare two extended_datetime objects
@@ -786,7 +824,7 @@ class extended_datetime(object):
         if not isinstance(other, (self.__class__, datetime)):
             self._comparison_error(other)
 
-        if (self.tzinfo is None) != (other.tzinfo is None):
+        if (self.utcoffset() is None) != (other.utcoffset() is None):
             raise TypeError("can't compare offset-naive and offset-aware datetimes")
 
         diff = self - other
@@ -820,7 +858,13 @@ class extended_datetime(object):
             A new extended_datetime or datetime.datetime object.
         """
 
-        return extended_datetime.from_y2k(self._y2k + other)
+        try:
+            value = self._y2k + other
+        except (OverflowError):
+            # The result may be in the years 8000 to 9999. Count from the start of year 1 instead.
+            until_year_1 = self._y2k.replace(2001, 1, 1, 0, 0, 0, 0) - self._y2k
+            return datetime(1, 1, 1, tzinfo=self.tzinfo) + (other - until_year_1)
+        return extended_datetime.from_y2k(value)
 
     def __sub__(self, other):
         """
@@ -835,7 +879,7 @@ class extended_datetime(object):
         """
 
         if isinstance(other, timedelta):
-            return extended_datetime.from_y2k(self._y2k - other)
+            return self + (-other)
 
         if isinstance(other, extended_datetime):
             return self._y2k - other._y2k
-- 
2.43.0


From 8f4d36b40d7453142a9d1c19b3d2bce67fe981ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:22 +0000
Subject: [PATCH 20/76] fix: sets are encoded when optional components are
 absent or not read yet, in the order of class and tag, and refuse duplicate
 components

---
 asn1crypto/core.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index f826c72..5c8e14f 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -4827,6 +4827,14 @@ class Set(Sequence):
                     if isinstance(child, (Sequence, SequenceOf)):
                         child._parse_children(recurse=True)
 
+                if field in child_map:
+                    raise ValueError(unwrap(
+                        '''
+                        Field "%s" is present more than once
+                        ''',
+                        self._fields[field][0]
+                    ))
+
                 child_map[field] = child
                 seen_field += 1
 
@@ -4888,8 +4896,12 @@ class Set(Sequence):
             self._parse_children()
 
         child_tag_encodings = []
-        for index, child in enumerate(self.children):
-            child_encoding = child.dump(force=force)
+        for index in range(len(self.children or [])):
+            child_encoding = self._lazy_child(index).dump(force=force)
+
+            # Skip optional children that are not present
+            if child_encoding == b'':
+                continue
 
             # Skip encoding defaulted children
             name, spec, field_params = self._fields[index]
@@ -4897,7 +4909,9 @@ class Set(Sequence):
                 if spec(**field_params).dump() == child_encoding:
                     continue
 
-            child_tag_encodings.append((child.tag, child_encoding))
+            # Children are ordered by the outermost class and tag
+            class_, _, tag, _, _, _ = _parse(child_encoding, len(child_encoding))[0]
+            child_tag_encodings.append(((class_, tag), child_encoding))
         child_tag_encodings.sort(key=lambda ct: ct[0])
 
         self._contents = b''.join([ct[1] for ct in child_tag_encodings])
-- 
2.43.0


From 01ed166db4e36aae21c5278b623dfffe48010fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:27 +0000
Subject: [PATCH 21/76] fix: fields with several explicit tags, or with
 explicit tags from their class, are recognised by the outermost tag

---
 asn1crypto/core.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 5c8e14f..26cc966 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -5491,12 +5491,17 @@ def _build_id_tuple(params, spec):
 
     _tag_type_to_explicit_implicit(params)
 
-    if 'explicit' in params:
-        if isinstance(params['explicit'], tuple):
-            required_class, required_tag = params['explicit']
+    explicit = params.get('explicit', spec.explicit)
+
+    if explicit is not None:
+        if isinstance(explicit, tuple):
+            # With several explicit tags, the last one is the outermost
+            if isinstance(explicit[-1], tuple):
+                explicit = explicit[-1]
+            required_class, required_tag = explicit
         else:
             required_class = 2
-            required_tag = params['explicit']
+            required_tag = explicit
     elif 'implicit' in params:
         if isinstance(params['implicit'], tuple):
             required_class, required_tag = params['implicit']
-- 
2.43.0


From 80bbd28b278c83df67aecaab00451ef218d91fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:14 +0000
Subject: [PATCH 22/76] fix: changes made to a child are part of the encoding
 and native value of its parents, however they were made

---
 asn1crypto/core.py | 145 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 123 insertions(+), 22 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 26cc966..fa27421 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -904,7 +904,7 @@ class Any(Asn1Value):
                         type_name(value)
                     ))
 
-                self._parsed = (value, value.__class__, None)
+                self._parsed = (value, value.__class__, None, _encoded_contents(value))
                 self.contents = value.dump()
 
         except (ValueError, TypeError) as e:
@@ -973,7 +973,7 @@ class Any(Asn1Value):
                     spec=spec,
                     spec_params=passed_params
                 )
-                self._parsed = (parsed_value, spec, spec_params)
+                self._parsed = (parsed_value, spec, spec_params, _encoded_contents(parsed_value))
 
                 # Once we've parsed the Any value, clear any attributes from this object
                 # since they are now duplicate
@@ -2781,6 +2781,10 @@ class ParsableOctetString(Constructable, Castable, Primitive):
     # Instance attribute of (possibly-merged) byte string
     _bytes = None
 
+    # ParsableOctetString overrides .contents to be a property so that changes
+    # made to the parsed value are part of the encoded value
+    _contents = None
+
     def __init__(self, value=None, parsed=None, **kwargs):
         """
         Allows providing a parsed object that will be serialized to get the
@@ -2803,7 +2807,31 @@ class ParsableOctetString(Constructable, Castable, Primitive):
         Primitive.__init__(self, value=value, **kwargs)
 
         if set_parsed:
-            self._parsed = (parsed, parsed.__class__, None)
+            self._parsed = (parsed, parsed.__class__, None, _encoded_contents(parsed))
+
+    @property
+    def contents(self):
+        """
+        :return:
+            A byte string of the encoded contents of the value
+        """
+
+        parsed = self._parsed
+        if parsed is not None and self._contents is not None:
+            if _children_changed(parsed[0:1], parsed[3:4]):
+                self.set(parsed[0].dump())
+                self._parsed = parsed[0:3] + (_encoded_contents(parsed[0]),)
+
+        return self._contents
+
+    @contents.setter
+    def contents(self, value):
+        """
+        :param value:
+            A byte string of the encoded contents of the value
+        """
+
+        self._contents = value
 
     def set(self, value):
         """
@@ -2852,7 +2880,7 @@ class ParsableOctetString(Constructable, Castable, Primitive):
 
         if self._parsed is None or self._parsed[1:3] != (spec, spec_params):
             parsed_value, _ = _parse_build(self.__bytes__(), spec=spec, spec_params=spec_params)
-            self._parsed = (parsed_value, spec, spec_params)
+            self._parsed = (parsed_value, spec, spec_params, _encoded_contents(parsed_value))
         return self._parsed[0]
 
     def __bytes__(self):
@@ -2948,7 +2976,8 @@ class ParsableOctetString(Constructable, Castable, Primitive):
                 native = self.native
             self.contents = None
             self.set(native)
-            self._parsed = parsed
+            if parsed is not None:
+                self._parsed = parsed[0:3] + (_encoded_contents(parsed[0]),)
 
         return Asn1Value.dump(self)
 
@@ -3442,6 +3471,10 @@ class Sequence(Asn1Value):
     # Variable to track if the object has been mutated
     _mutated = False
 
+    # A list in the same order as children with what ._contents was encoded
+    # from - used to detect changes that were made to a child object
+    _encoded_children = ()
+
     # A list of tuples in one of the following forms.
     #
     # Option 1, a unicode string field name and a value class
@@ -3585,13 +3618,7 @@ class Sequence(Asn1Value):
             mutated
         """
 
-        mutated = self._mutated
-        if self.children is not None:
-            for child in self.children:
-                if isinstance(child, Sequence) or isinstance(child, SequenceOf):
-                    mutated = mutated or child._is_mutated()
-
-        return mutated
+        return self._mutated or _children_changed(self.children, self._encoded_children)
 
     def _lazy_child(self, index):
         """
@@ -3601,6 +3628,8 @@ class Sequence(Asn1Value):
         child = self.children[index]
         if child.__class__ == tuple:
             child = self.children[index] = _build(*child)
+            if index < len(self._encoded_children):
+                self._encoded_children[index] = _encoded_contents(child)
         return child
 
     def __len__(self):
@@ -3802,6 +3831,9 @@ class Sequence(Asn1Value):
             contents.write(child_dump)
         self._contents = contents.getvalue()
         self._mutated = False
+        self._encoded_children = [_encoded_contents(child) for child in self.children or ()]
+        # The native value may predate changes made to child objects
+        self._native = None
 
         self._header = None
         if self._trailer != b'':
@@ -3970,7 +4002,7 @@ class Sequence(Asn1Value):
             # appropriate encoded value.
             if specs_different and not is_any:
                 wrapper = field_spec(value=new_value.dump(), **field_params)
-                wrapper._parsed = (new_value, new_value.__class__, None)
+                wrapper._parsed = (new_value, new_value.__class__, None, _encoded_contents(new_value))
                 new_value = wrapper
 
         new_value = _fix_tagging(new_value, field_params)
@@ -4001,6 +4033,7 @@ class Sequence(Asn1Value):
                         else:
                             field_name, field_spec, value_spec, field_params, _ = self._determine_spec(index)
                         self.children[index] = self._make_value(field_name, field_spec, value_spec, field_params, None)
+                self._encoded_children = [_encoded_contents(child) for child in self.children]
             return
 
         try:
@@ -4107,6 +4140,8 @@ class Sequence(Asn1Value):
                     ))
                 index += 1
 
+            self._encoded_children = [_encoded_contents(child) for child in self.children]
+
         except (ValueError, TypeError) as e:
             self.children = None
             args = e.args[1:]
@@ -4172,8 +4207,7 @@ class Sequence(Asn1Value):
                 self._native = OrderedDict()
                 for index, child in enumerate(self.children):
                     if child.__class__ == tuple:
-                        child = _build(*child)
-                        self.children[index] = child
+                        child = self._lazy_child(index)
                     try:
                         name = self._fields[index][0]
                     except (IndexError):
@@ -4206,6 +4240,7 @@ class Sequence(Asn1Value):
                     self.children.append(child)
                 else:
                     self.children.append(child.copy())
+            self._encoded_children = [_encoded_contents(child) for child in self.children]
 
     def debug(self, nest_level=1):
         """
@@ -4284,6 +4319,10 @@ class SequenceOf(Asn1Value):
     # Variable to track if the object has been mutated
     _mutated = False
 
+    # A list in the same order as children with what ._contents was encoded
+    # from - used to detect changes that were made to a child object
+    _encoded_children = ()
+
     # An Asn1Value class to use when parsing children
     _child_spec = None
 
@@ -4361,13 +4400,7 @@ class SequenceOf(Asn1Value):
             mutated
         """
 
-        mutated = self._mutated
-        if self.children is not None:
-            for child in self.children:
-                if isinstance(child, Sequence) or isinstance(child, SequenceOf):
-                    mutated = mutated or child._is_mutated()
-
-        return mutated
+        return self._mutated or _children_changed(self.children, self._encoded_children)
 
     def _lazy_child(self, index):
         """
@@ -4378,6 +4411,8 @@ class SequenceOf(Asn1Value):
         if child.__class__ == tuple:
             child = _build(*child)
             self.children[index] = child
+            if -len(self._encoded_children) <= index < len(self._encoded_children):
+                self._encoded_children[index] = _encoded_contents(child)
         return child
 
     def _make_value(self, value):
@@ -4588,6 +4623,9 @@ class SequenceOf(Asn1Value):
             contents.write(child.dump(force=force))
         self._contents = contents.getvalue()
         self._mutated = False
+        self._encoded_children = [_encoded_contents(child) for child in self.children or ()]
+        # The native value may predate changes made to child objects
+        self._native = None
         self._header = None
         if self._trailer != b'':
             self._trailer = b''
@@ -4622,6 +4660,9 @@ class SequenceOf(Asn1Value):
                     if isinstance(child, (Sequence, SequenceOf)):
                         child._parse_children(recurse=True)
                 self.children.append(child)
+
+            self._encoded_children = [_encoded_contents(child) for child in self.children]
+
         except (ValueError, TypeError) as e:
             self.children = None
             args = e.args[1:]
@@ -4683,6 +4724,7 @@ class SequenceOf(Asn1Value):
                     self.children.append(child)
                 else:
                     self.children.append(child.copy())
+            self._encoded_children = [_encoded_contents(child) for child in self.children]
 
     def debug(self, nest_level=1):
         """
@@ -4785,6 +4827,7 @@ class Set(Sequence):
                         else:
                             field_name, field_spec, value_spec, field_params, _ = self._determine_spec(index)
                         self.children[index] = self._make_value(field_name, field_spec, value_spec, field_params, None)
+                self._encoded_children = [_encoded_contents(child) for child in self.children]
             return
 
         try:
@@ -4874,6 +4917,7 @@ class Set(Sequence):
             self.children = []
             for index in range(0, total_fields):
                 self.children.append(child_map[index])
+            self._encoded_children = [_encoded_contents(child) for child in self.children]
 
         except (ValueError, TypeError) as e:
             args = e.args[1:]
@@ -4916,6 +4960,9 @@ class Set(Sequence):
 
         self._contents = b''.join([ct[1] for ct in child_tag_encodings])
         self._mutated = False
+        self._encoded_children = [_encoded_contents(child) for child in self.children or ()]
+        # The native value may predate changes made to child objects
+        self._native = None
         self._header = None
         if self._trailer != b'':
             self._trailer = b''
@@ -4950,6 +4997,9 @@ class SetOf(SequenceOf):
 
         self._contents = b''.join(sorted(child_encodings))
         self._mutated = False
+        self._encoded_children = [_encoded_contents(child) for child in self.children or ()]
+        # The native value may predate changes made to child objects
+        self._native = None
         self._header = None
         if self._trailer != b'':
             self._trailer = b''
@@ -5517,6 +5567,57 @@ def _build_id_tuple(params, spec):
     return (required_class, required_tag)
 
 
+def _encoded_contents(value):
+    """
+    Returns what identifies the state of a child object that the contents of
+    its parent were encoded from
+
+    :param value:
+        An Asn1Value object, or a tuple if the object has not been built yet
+
+    :return:
+        None or a byte string
+    """
+
+    if value.__class__ == tuple:
+        return None
+
+    # Parsing an Any moves its header into the contents, which is no change
+    if isinstance(value, Any):
+        if value._parsed is None or not _children_changed(value._parsed[0:1], value._parsed[3:4]):
+            return None
+        return _encoded_contents(value._parsed[0])
+
+    return value.contents
+
+
+def _children_changed(children, encoded_children):
+    """
+    Checks if child objects were changed since they were encoded
+
+    :param children:
+        None or a list of Asn1Value objects and tuples
+
+    :param encoded_children:
+        A list with the result of _encoded_contents() for each child
+
+    :return:
+        A boolean
+    """
+
+    if children is None:
+        return False
+
+    for child, encoded in zip(children, encoded_children):
+        if child.__class__ == tuple:
+            continue
+        contents = _encoded_contents(child)
+        if contents is not encoded and contents != encoded:
+            return True
+
+    return False
+
+
 def _int_to_bit_tuple(value, bits):
     """
     Format value as a tuple of 1s and 0s.
-- 
2.43.0


From 87a9bf288b5290ebfbabd5d4cebd797778d02a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:13 +0000
Subject: [PATCH 23/76] fix: empty sequences and sets are encoded, generic sets
 survive a forced dump, and an unknown explicit class is refused with
 ValueError

---
 asn1crypto/core.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index fa27421..bcb5e9f 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -352,9 +352,9 @@ class Asn1Value(object):
                     if isinstance(class_, int_types):
                         if class_ not in CLASS_NUM_TO_NAME_MAP:
                             invalid_class = class_
+                    elif class_ not in CLASS_NAME_TO_NUM_MAP:
+                        invalid_class = class_
                     else:
-                        if class_ not in CLASS_NAME_TO_NUM_MAP:
-                            invalid_class = class_
                         class_ = CLASS_NAME_TO_NUM_MAP[class_]
                     if invalid_class is not None:
                         raise ValueError(unwrap(
@@ -3582,6 +3582,14 @@ class Sequence(Asn1Value):
                         ', '.join(sorted(list(unused_keys)))
                     ))
 
+                # Make sure a value without any fields set is serialized
+                if self._contents is None and not self._mutated:
+                    if self.children is None:
+                        self._parse_children()
+                    if self.children is None:
+                        self.children = []
+                    self._mutated = True
+
             except (ValueError, TypeError) as e:
                 args = e.args[1:]
                 e.args = (e.args[0] + '\n    while constructing %s' % type_name(self),) + args
@@ -4276,7 +4284,7 @@ class Sequence(Asn1Value):
             force = True
 
         # We can't force encoding if we don't have a spec
-        if force and self._fields == [] and self.__class__ is Sequence:
+        if force and self._fields == [] and self.__class__ in (Sequence, Set):
             force = False
 
         if force:
-- 
2.43.0


From 25b10050942ab3253b7befa59d79a2483e6ff516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:34 +0000
Subject: [PATCH 24/76] fix: choices nested in choices and sets are recognised,
 keep all explicit tags, follow their alternative, and explicit tags hold
 exactly one value

---
 asn1crypto/core.py | 206 +++++++++++++++++++++++++++++----------------
 1 file changed, 132 insertions(+), 74 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index bcb5e9f..f5a07d7 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1092,8 +1092,8 @@ class Choice(Asn1Value):
             if len(info) < 3:
                 info = info + ({},)
                 cls._alternatives[index] = info
-            id_ = _build_id_tuple(info[2], info[1])
-            cls._id_map[id_] = index
+            for id_ in _build_id_tuples(info[2], info[1]):
+                cls._id_map[id_] = index
             cls._name_map[info[0]] = index
 
     def __init__(self, name=None, value=None, **kwargs):
@@ -1270,17 +1270,18 @@ class Choice(Asn1Value):
         id_ = (class_, tag)
 
         if self.explicit is not None:
-            if self.explicit[-1] != id_:
-                raise ValueError(unwrap(
-                    '''
-                    %s was explicitly tagged, but the value provided does not
-                    match the class and tag
-                    ''',
-                    type_name(self)
-                ))
+            for explicit_id in reversed(self.explicit):
+                if explicit_id != id_:
+                    raise ValueError(unwrap(
+                        '''
+                        %s was explicitly tagged, but the value provided does not
+                        match the class and tag
+                        ''',
+                        type_name(self)
+                    ))
 
-            ((class_, _, tag, _, _, _), _) = _parse(contents, len(contents))
-            id_ = (class_, tag)
+                ((class_, _, tag, _, contents, _), _) = _parse(contents, len(contents))
+                id_ = (class_, tag)
 
         if id_ in self._id_map:
             self._choice = self._id_map[id_]
@@ -1319,7 +1320,7 @@ class Choice(Asn1Value):
             A unicode string of a human-friendly representation of the class and tag
         """
 
-        return '[%s %s]' % (CLASS_NUM_TO_NAME_MAP[class_].upper(), tag)
+        return '[%s %s]' % (CLASS_NUM_TO_NAME_MAP.get(class_, 'unknown').upper(), tag)
 
     def _copy(self, other, copy_func):
         """
@@ -1355,13 +1356,16 @@ class Choice(Asn1Value):
         if self._header is not None and self._header[-1:] == b'\x80' and self._trailer != b'':
             force = True
 
-        self._contents = self.chosen.dump(force=force)
-        if self._header is None or force:
+        contents = self.chosen.dump(force=force)
+        changed = self.explicit is not None and contents != self._contents
+        self._contents = contents
+        if self._header is None or force or changed:
             self._header = b''
             if self.explicit is not None:
                 for class_, tag in self.explicit:
                     self._header = _dump_header(class_, 1, tag, self._header + self._contents) + self._header
-        return self._header + self._contents
+            self._trailer = b''
+        return self._header + self._contents + self._trailer
 
 
 class Concat(object):
@@ -4063,7 +4067,8 @@ class Sequence(Asn1Value):
 
                     # If the next value is optional or default, allow it to be absent
                     if field_params and ('optional' in field_params or 'default' in field_params):
-                        if self._field_ids[field] != (parts[0], parts[2]) and field_spec != Any:
+                        if self._field_ids[field] != (parts[0], parts[2]) and (
+                                field_spec != Any or self._field_ids[field] != (None, None)):
 
                             # See if the value is a valid choice before assuming
                             # that we have a missing optional or default value
@@ -4798,7 +4803,8 @@ class Set(Sequence):
                 field = field + ({},)
                 cls._fields[index] = field
             cls._field_map[field[0]] = index
-            cls._field_ids[_build_id_tuple(field[2], field[1])] = index
+            for id_ in _build_id_tuples(field[2], field[1]):
+                cls._field_ids[id_] = index
 
         if cls._oid_pair is not None:
             cls._oid_nums = (cls._field_map[cls._oid_pair[0]], cls._field_map[cls._oid_pair[1]])
@@ -5575,6 +5581,28 @@ def _build_id_tuple(params, spec):
     return (required_class, required_tag)
 
 
+def _build_id_tuples(params, spec):
+    """
+    Builds the list of 2-element tuples that identify a field. There is more
+    than one when the field is a choice that has no tag of its own.
+
+    :param params:
+        A dict of params to pass to spec
+
+    :param spec:
+        An Asn1Value class
+
+    :return:
+        A list of 2-element integer tuples in the form (class_, tag)
+    """
+
+    id_ = _build_id_tuple(params, spec)
+    if id_ == (None, None) and spec is not None and issubclass(spec, Choice):
+        # Constructing an object ensures the _id_map has been generated
+        return list(spec()._id_map)
+    return [id_]
+
+
 def _encoded_contents(value):
     """
     Returns what identifies the state of a child object that the contents of
@@ -5682,6 +5710,80 @@ _UNIVERSAL_SPECS = {
 }
 
 
+def _unwrap_explicit(value, info):
+    """
+    Removes the explicit tags of a value, ensuring they match
+
+    :param value:
+        An Asn1Value object with an explicit attribute that is not None
+
+    :param info:
+        A 6-element tuple from _parse() for the outermost explicit tag
+
+    :return:
+        A 3-element tuple:
+         - 0: A 6-element tuple from _parse() for the tagged value
+         - 1: A byte string of the headers of the explicit tags. Unless value
+              is a Choice, this includes the header of the tagged value.
+         - 2: A byte string of the corresponding trailers
+    """
+
+    explicit_header = b''
+    explicit_trailer = b''
+
+    for expected_class, expected_tag in reversed(value.explicit):
+        parsed_class, parsed_method, parsed_tag, parsed_header, to_parse, parsed_trailer = info
+        if parsed_class != expected_class:
+            raise ValueError(unwrap(
+                '''
+                Error parsing %s - explicitly-tagged class should have been
+                %s, but %s was found
+                ''',
+                type_name(value),
+                CLASS_NUM_TO_NAME_MAP.get(expected_class),
+                CLASS_NUM_TO_NAME_MAP.get(parsed_class, parsed_class)
+            ))
+        if parsed_method != 1:
+            raise ValueError(unwrap(
+                '''
+                Error parsing %s - explicitly-tagged method should have
+                been %s, but %s was found
+                ''',
+                type_name(value),
+                METHOD_NUM_TO_NAME_MAP.get(1),
+                METHOD_NUM_TO_NAME_MAP.get(parsed_method, parsed_method)
+            ))
+        if parsed_tag != expected_tag:
+            raise ValueError(unwrap(
+                '''
+                Error parsing %s - explicitly-tagged tag should have been
+                %s, but %s was found
+                ''',
+                type_name(value),
+                expected_tag,
+                parsed_tag
+            ))
+
+        explicit_header += parsed_header
+        explicit_trailer = (parsed_trailer or b'') + explicit_trailer
+
+        info, consumed = _parse(to_parse, len(to_parse))
+        if info[3] is None or consumed != len(to_parse):
+            raise ValueError(unwrap(
+                '''
+                Error parsing %s - explicit tag %s must contain exactly one value
+                ''',
+                type_name(value),
+                expected_tag
+            ))
+
+    if not isinstance(value, Choice):
+        explicit_header += info[3]
+        explicit_trailer = (info[5] or b'') + explicit_trailer
+
+    return info, explicit_header, explicit_trailer
+
+
 def _build(class_, method, tag, header, contents, trailer, spec=None, spec_params=None, nested_spec=None):
     """
     Builds an Asn1Value object generically, or using a spec with optional params
@@ -5742,51 +5844,10 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
             else:
                 value = spec()
             original_explicit = value.explicit
-            explicit_info = reversed(original_explicit)
-            parsed_class = class_
-            parsed_method = method
-            parsed_tag = tag
-            to_parse = contents
-            explicit_header = header
-            explicit_trailer = trailer or b''
-            for expected_class, expected_tag in explicit_info:
-                if parsed_class != expected_class:
-                    raise ValueError(unwrap(
-                        '''
-                        Error parsing %s - explicitly-tagged class should have been
-                        %s, but %s was found
-                        ''',
-                        type_name(value),
-                        CLASS_NUM_TO_NAME_MAP.get(expected_class),
-                        CLASS_NUM_TO_NAME_MAP.get(parsed_class, parsed_class)
-                    ))
-                if parsed_method != 1:
-                    raise ValueError(unwrap(
-                        '''
-                        Error parsing %s - explicitly-tagged method should have
-                        been %s, but %s was found
-                        ''',
-                        type_name(value),
-                        METHOD_NUM_TO_NAME_MAP.get(1),
-                        METHOD_NUM_TO_NAME_MAP.get(parsed_method, parsed_method)
-                    ))
-                if parsed_tag != expected_tag:
-                    raise ValueError(unwrap(
-                        '''
-                        Error parsing %s - explicitly-tagged tag should have been
-                        %s, but %s was found
-                        ''',
-                        type_name(value),
-                        expected_tag,
-                        parsed_tag
-                    ))
-                info, _ = _parse(to_parse, len(to_parse))
-                parsed_class, parsed_method, parsed_tag, parsed_header, to_parse, parsed_trailer = info
-
-                if not isinstance(value, Choice):
-                    explicit_header += parsed_header
-                    explicit_trailer = parsed_trailer + explicit_trailer
-
+            info, explicit_header, explicit_trailer = _unwrap_explicit(
+                value,
+                (class_, method, tag, header, contents, trailer)
+            )
             value = _build(*info, spec=spec, spec_params={'no_explicit': True})
             value._header = explicit_header
             value._trailer = explicit_trailer
@@ -5805,8 +5866,9 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
                 value.validate(class_, tag, contents)
                 try:
                     # Force parsing the Choice now
-                    value.contents = header + value.contents
+                    value.contents = header + value.contents + (trailer or b'')
                     header = b''
+                    trailer = b''
                     value.parse()
                 except (ValueError, TypeError) as e:
                     args = e.args[1:]
@@ -5862,17 +5924,13 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
         original_value = Asn1Value(contents=contents, **spec_params)
         original_explicit = original_value.explicit
 
-        to_parse = contents
-        explicit_header = header
-        explicit_trailer = trailer or b''
-        for expected_class, expected_tag in reversed(original_explicit):
-            info, _ = _parse(to_parse, len(to_parse))
-            _, _, _, parsed_header, to_parse, parsed_trailer = info
-            explicit_header += parsed_header
-            explicit_trailer = parsed_trailer + explicit_trailer
+        info, explicit_header, explicit_trailer = _unwrap_explicit(
+            original_value,
+            (class_, method, tag, header, contents, trailer)
+        )
         value = _build(*info, spec=spec, spec_params={'no_explicit': True})
-        value._header = header + value._header
-        value._trailer += trailer or b''
+        value._header = explicit_header
+        value._trailer = explicit_trailer
         value.explicit = original_explicit
         header_set = True
 
-- 
2.43.0


From 7ace622a7188d675b5beb9e2870ce8ddce99088f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:18 +0000
Subject: [PATCH 25/76] fix: X.400 country and administration domain names are
 explicitly tagged choices

---
 asn1crypto/x509.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 3e76951..4c43786 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -1276,8 +1276,7 @@ class AnotherName(Sequence):
 
 
 class CountryName(Choice):
-    class_ = 1
-    tag = 1
+    explicit = (1, 1)
 
     _alternatives = [
         ('x121_dcc_code', NumericString),
@@ -1286,8 +1285,7 @@ class CountryName(Choice):
 
 
 class AdministrationDomainName(Choice):
-    class_ = 1
-    tag = 2
+    explicit = (1, 2)
 
     _alternatives = [
         ('numeric', NumericString),
-- 
2.43.0


From cae8d0a8c7d45171ad12888725df4311ef32eb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:18 +0000
Subject: [PATCH 26/76] fix: explicitly tagged ANY values keep their tags when
 constructed, copied, retagged, parsed again or optional

---
 asn1crypto/core.py | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index f5a07d7..9623d8f 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -904,6 +904,12 @@ class Any(Asn1Value):
                         type_name(value)
                     ))
 
+                # The tags of this object are outside of those of the value
+                if self.explicit is not None:
+                    value = value.copy()
+                    value.explicit = (value.explicit or ()) + self.explicit
+                    value._header = None
+
                 self._parsed = (value, value.__class__, None, _encoded_contents(value))
                 self.contents = value.dump()
 
@@ -960,13 +966,16 @@ class Any(Asn1Value):
 
         if self._parsed is None or self._parsed[1:3] != (spec, spec_params):
             try:
-                passed_params = spec_params or {}
+                passed_params = dict(spec_params or {})
                 _tag_type_to_explicit_implicit(passed_params)
                 if self.explicit is not None:
-                    if 'explicit' in passed_params:
-                        passed_params['explicit'] = self.explicit + passed_params['explicit']
-                    else:
-                        passed_params['explicit'] = self.explicit
+                    # The tags of this object are outside of those of the value
+                    explicit = passed_params.get('explicit', ())
+                    if isinstance(explicit, int_types):
+                        explicit = (('context', explicit), )
+                    elif len(explicit) == 2 and isinstance(explicit[1], int_types):
+                        explicit = (explicit, )
+                    passed_params['explicit'] = explicit + self.explicit
                 contents = self._header + self.contents + self._trailer
                 parsed_value, _ = _parse_build(
                     contents,
@@ -978,7 +987,6 @@ class Any(Asn1Value):
                 # Once we've parsed the Any value, clear any attributes from this object
                 # since they are now duplicate
                 self.tag = None
-                self.explicit = None
                 self.implicit = False
                 self._header = b''
                 self.contents = contents
@@ -1003,8 +1011,23 @@ class Any(Asn1Value):
         """
 
         super(Any, self)._copy(other, copy_func)
+        self._header = other._header
+        self._trailer = other._trailer
         self._parsed = copy_func(other._parsed)
 
+        # When the tagging differs, the value needs to be encoded again
+        if self.explicit != other.explicit:
+            value = copy_func(other.parsed)
+            explicit = value.explicit or ()
+            if other.explicit is not None:
+                explicit = explicit[:len(explicit) - len(other.explicit)]
+            value.explicit = (explicit + (self.explicit or ())) or None
+            value._header = None
+            self.contents = value.dump()
+            self._header = b''
+            self._trailer = b''
+            self._parsed = (value, value.__class__, None, _encoded_contents(value))
+
     def dump(self, force=False):
         """
         Encodes the value using DER
-- 
2.43.0


From fa17b9a819fceeda468a9a9e6f37506d33fc0c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:03 +0000
Subject: [PATCH 27/76] fix: the default of a structure is not merged into a
 value that was decoded, and subclasses of ANY take any value

---
 asn1crypto/core.py | 23 ++++-------------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 9623d8f..9d1f7e1 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3552,14 +3552,8 @@ class Sequence(Asn1Value):
 
         Asn1Value.__init__(self, **kwargs)
 
-        check_existing = False
-        if value is None and default is not None:
-            check_existing = True
-            if self.children is None:
-                if self.contents is None:
-                    check_existing = False
-                else:
-                    self._parse_children()
+        # A default applies to the value as a whole, not to each of its fields
+        if value is None and default is not None and self.contents is None:
             value = default
 
         if value is not None:
@@ -3575,15 +3569,6 @@ class Sequence(Asn1Value):
                     unused_keys = set(keys)
 
                 for key in keys:
-                    # If we are setting defaults, but a real value has already
-                    # been set for the field, then skip it
-                    if check_existing:
-                        index = self._field_map[key]
-                        if index < len(self.children) and self.children[index] is not VOID:
-                            if key in unused_keys:
-                                unused_keys.remove(key)
-                            continue
-
                     if key in value:
                         self.__setitem__(key, value[key])
                         unused_keys.remove(key)
@@ -4091,7 +4076,7 @@ class Sequence(Asn1Value):
                     # If the next value is optional or default, allow it to be absent
                     if field_params and ('optional' in field_params or 'default' in field_params):
                         if self._field_ids[field] != (parts[0], parts[2]) and (
-                                field_spec != Any or self._field_ids[field] != (None, None)):
+                                not issubclass(field_spec, Any) or self._field_ids[field] != (None, None)):
 
                             # See if the value is a valid choice before assuming
                             # that we have a missing optional or default value
@@ -5882,7 +5867,7 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
             else:
                 value = spec(contents=contents)
 
-            if spec is Any:
+            if isinstance(value, Any):
                 pass
 
             elif isinstance(value, Choice):
-- 
2.43.0


From f2ac94afb5a192a7891cbcb7211ef19defa4489f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:40 +0000
Subject: [PATCH 28/76] fix: chunks of strings with tags of their own, values
 of unknown type in an ANY, and NULLs with long lengths are re-encoded

---
 asn1crypto/core.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 9d1f7e1..5c979f1 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -758,9 +758,19 @@ class Constructable(object):
         contents_len = len(self.contents)
         output = None
 
+        # The chunks have universal tags, even when the current class does not
+        spec_params = None
+        cls = self.__class__
+        if cls.explicit is not None or cls.class_ != 0:
+            spec_params = {'no_explicit': True}
+            for base in cls.__mro__:
+                if base.class_ == 0 and base.tag is not None:
+                    spec_params['implicit'] = (0, base.tag)
+                    break
+
         while pointer < contents_len:
             # We pass the current class as the spec so content semantics are preserved
-            sub_value, pointer = _parse_build(self.contents, pointer, spec=self.__class__)
+            sub_value, pointer = _parse_build(self.contents, pointer, spec=cls, spec_params=spec_params)
             if output is None:
                 output = sub_value._merge_chunks()
             else:
@@ -1041,6 +1051,9 @@ class Any(Asn1Value):
         """
 
         if self._parsed is None:
+            # A value that is not parsed does not need to be of a known type
+            if not force and self.contents is not None:
+                return self._header + self.contents + self._trailer
             self.parse()
 
         return self._parsed[0].dump(force=force)
@@ -3088,6 +3101,9 @@ class Null(Primitive):
         """
 
         self.contents = b''
+        self._header = None
+        if self._trailer != b'':
+            self._trailer = b''
 
     @property
     def native(self):
-- 
2.43.0


From 05ac2ddd6642fbc660f9bb1e2df3940c84c09e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:16 +0000
Subject: [PATCH 29/76] fix: generic structures are forced to DER as a whole
 and keep their children when changed

---
 asn1crypto/core.py | 44 +++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 5c979f1..5cf40b2 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3848,8 +3848,9 @@ class Sequence(Asn1Value):
             self._parse_children()
 
         contents = BytesIO()
-        for index, info in enumerate(self._fields):
-            child = self.children[index]
+        for index, child in enumerate(self.children or ()):
+            # Without a spec, there are children but no fields
+            info = self._fields[index] if self._fields else (None, None, None)
             if child is None:
                 child_dump = b''
             elif child.__class__ == tuple:
@@ -4312,9 +4313,13 @@ class Sequence(Asn1Value):
         if self._header is not None and self._header[-1:] == b'\x80' and self._trailer != b'':
             force = True
 
-        # We can't force encoding if we don't have a spec
+        # Without a spec, the encoding of the children is all there is to use
         if force and self._fields == [] and self.__class__ in (Sequence, Set):
             force = False
+            if self.contents is not None:
+                self._contents = _dump_generic(self._contents)
+                self._header = None
+                self._trailer = b''
 
         if force:
             self._set_contents(force=force)
@@ -5627,6 +5632,39 @@ def _build_id_tuples(params, spec):
     return [id_]
 
 
+def _dump_generic(contents):
+    """
+    Encodes a series of values using DER as far as possible without a spec
+
+    :param contents:
+        A byte string of BER-encoded values
+
+    :return:
+        A byte string
+    """
+
+    output = b''
+    pointer = 0
+    contents_length = len(contents)
+    while pointer < contents_length:
+        parts, pointer = _parse(contents, contents_length, pointer=pointer)
+        class_, method, tag, _, value, _ = parts
+        is_string = issubclass(_UNIVERSAL_SPECS.get(tag, Sequence), Constructable)
+        if method == 1 and (class_ != 0 or not is_string):
+            value = _dump_generic(value)
+        elif class_ == 0:
+            try:
+                output += _build(*parts).dump(force=True)
+                continue
+            except (ValueError, TypeError):
+                # A value that can not be understood is left as it is
+                if method == 1:
+                    output += parts[3] + parts[4] + parts[5]
+                    continue
+        output += _dump_header(class_, method, tag, value) + value
+    return output
+
+
 def _encoded_contents(value):
     """
     Returns what identifies the state of a child object that the contents of
-- 
2.43.0


From 1b34a53ba4956b5b82bfd6c9652f072ebe46a90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:41 +0000
Subject: [PATCH 30/76] fix: surplus elements of a sequence are refused instead
 of being dropped when it is encoded again

---
 asn1crypto/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 5cf40b2..07dc34e 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -4124,8 +4124,9 @@ class Sequence(Asn1Value):
                     else:
                         child = parts + (field_spec, field_params)
 
-                # Handle situations where an optional or defaulted field definition is incorrect
-                elif field_len > 0 and field + 1 <= field_len:
+                # Handle situations where an optional or defaulted field definition is incorrect,
+                # or where there are more values than fields
+                elif field_len > 0:
                     missed_fields = []
                     prev_field = field - 1
                     while prev_field >= 0:
-- 
2.43.0


From 36bcd88c76c3c4cc94f18cdd898cda14b16692c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:00 +0000
Subject: [PATCH 31/76] fix: object descriptors, instances and reals have a
 native value, their contents

---
 asn1crypto/core.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 07dc34e..ac5233d 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1756,6 +1756,18 @@ class Primitive(Asn1Value):
         if self._trailer != b'':
             self._trailer = b''
 
+    @property
+    def native(self):
+        """
+        The native Python datatype representation of this value - the contents
+        for types without a Python implementation
+
+        :return:
+            A byte string or None
+        """
+
+        return self.contents
+
     def dump(self, force=False):
         """
         Encodes the value using DER
-- 
2.43.0


From f1800c8d3b587aa3a146dafcfedb1944b991999b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:32 +0000
Subject: [PATCH 32/76] fix: reading an ANY of known type does not change how
 it is encoded

---
 asn1crypto/core.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index ac5233d..da4f7ae 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1051,10 +1051,13 @@ class Any(Asn1Value):
         """
 
         if self._parsed is None:
-            # A value that is not parsed does not need to be of a known type
-            if not force and self.contents is not None:
+            try:
+                self.parse()
+            except (ValueError):
+                # A value that is not parsed does not need to be of a known type
+                if force:
+                    raise
                 return self._header + self.contents + self._trailer
-            self.parse()
 
         return self._parsed[0].dump(force=force)
 
@@ -5699,6 +5702,9 @@ def _encoded_contents(value):
             return None
         return _encoded_contents(value._parsed[0])
 
+    if isinstance(value, Choice) and value._parsed is not None:
+        return _encoded_contents(value._parsed)
+
     return value.contents
 
 
-- 
2.43.0


From ddcf0ff179ff0cb6d5ab68b23ef9855d665ba654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:12 +0000
Subject: [PATCH 33/76] fix: sets of unknown type have a native value, like
 sequences of unknown type

---
 asn1crypto/core.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index da4f7ae..74ad263 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -4875,6 +4875,11 @@ class Set(Sequence):
             ValueError - when an error occurs parsing child objects
         """
 
+        # Without fields to assign the values to, they are kept as they are found
+        if not self._fields:
+            super(Set, self)._parse_children(recurse=recurse)
+            return
+
         cls = self.__class__
         if self._contents is None:
             if self._fields:
@@ -4995,6 +5000,10 @@ class Set(Sequence):
             cached BER-encoded data
         """
 
+        if not self._fields:
+            super(Set, self)._set_contents(force=force)
+            return
+
         if self.children is None:
             self._parse_children()
 
-- 
2.43.0


From 4f5b27c584b148a6aaebba205894ac2b46e591cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:16 +0000
Subject: [PATCH 34/76] fix: names that tsp and pdf add to the OID tables can
 be encoded when the tables were in use before

---
 asn1crypto/core.py | 16 ++++++++++++++++
 asn1crypto/pdf.py  | 10 +++++-----
 asn1crypto/tsp.py  |  8 ++++----
 3 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 74ad263..53a7ba9 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -690,6 +690,22 @@ class ValueMap():
         for key, value in cls._map.items():
             cls._reverse_map[value] = key
 
+    @classmethod
+    def _add_mapping(cls, key, value):
+        """
+        Adds a value to _map, and to _reverse_map if it has been generated
+
+        :param key:
+            An int or unicode string OID
+
+        :param value:
+            A unicode string
+        """
+
+        cls._map[key] = value
+        if cls._reverse_map is not None:
+            cls._reverse_map[value] = key
+
 
 class Castable(object):
     """
diff --git a/asn1crypto/pdf.py b/asn1crypto/pdf.py
index b72c886..7c91e7d 100644
--- a/asn1crypto/pdf.py
+++ b/asn1crypto/pdf.py
@@ -73,12 +73,12 @@ class SetOfRevocationInfoArchival(SetOf):
     _child_spec = RevocationInfoArchival
 
 
-ExtensionId._map['1.2.840.113583.1.1.9.2'] = 'adobe_archive_rev_info'
-ExtensionId._map['1.2.840.113583.1.1.9.1'] = 'adobe_timestamp'
-ExtensionId._map['1.2.840.113583.1.1.10'] = 'adobe_ppklite_credential'
+ExtensionId._add_mapping('1.2.840.113583.1.1.9.2', 'adobe_archive_rev_info')
+ExtensionId._add_mapping('1.2.840.113583.1.1.9.1', 'adobe_timestamp')
+ExtensionId._add_mapping('1.2.840.113583.1.1.10', 'adobe_ppklite_credential')
 Extension._oid_specs['adobe_archive_rev_info'] = AdobeArchiveRevInfo
 Extension._oid_specs['adobe_timestamp'] = AdobeTimestamp
 Extension._oid_specs['adobe_ppklite_credential'] = Null
-KeyPurposeId._map['1.2.840.113583.1.1.5'] = 'pdf_signing'
-CMSAttributeType._map['1.2.840.113583.1.1.8'] = 'adobe_revocation_info_archival'
+KeyPurposeId._add_mapping('1.2.840.113583.1.1.5', 'pdf_signing')
+CMSAttributeType._add_mapping('1.2.840.113583.1.1.8', 'adobe_revocation_info_archival')
 CMSAttribute._oid_specs['adobe_revocation_info_archival'] = SetOfRevocationInfoArchival
diff --git a/asn1crypto/tsp.py b/asn1crypto/tsp.py
index f006da9..6711fa9 100644
--- a/asn1crypto/tsp.py
+++ b/asn1crypto/tsp.py
@@ -302,9 +302,9 @@ class SetOfSigningCertificatesV2(SetOf):
 EncapsulatedContentInfo._oid_specs['tst_info'] = TSTInfo
 EncapsulatedContentInfo._oid_specs['timestamped_data'] = TimeStampedData
 ContentInfo._oid_specs['timestamped_data'] = TimeStampedData
-ContentType._map['1.2.840.113549.1.9.16.1.4'] = 'tst_info'
-ContentType._map['1.2.840.113549.1.9.16.1.31'] = 'timestamped_data'
-CMSAttributeType._map['1.2.840.113549.1.9.16.2.12'] = 'signing_certificate'
+ContentType._add_mapping('1.2.840.113549.1.9.16.1.4', 'tst_info')
+ContentType._add_mapping('1.2.840.113549.1.9.16.1.31', 'timestamped_data')
+CMSAttributeType._add_mapping('1.2.840.113549.1.9.16.2.12', 'signing_certificate')
 CMSAttribute._oid_specs['signing_certificate'] = SetOfSigningCertificates
-CMSAttributeType._map['1.2.840.113549.1.9.16.2.47'] = 'signing_certificate_v2'
+CMSAttributeType._add_mapping('1.2.840.113549.1.9.16.2.47', 'signing_certificate_v2')
 CMSAttribute._oid_specs['signing_certificate_v2'] = SetOfSigningCertificatesV2
-- 
2.43.0


From 7e58111b500fe49f6eceeae9a84ec1458a2a9378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:36 +0000
Subject: [PATCH 35/76] fix: a mapped type derived from another mapped type
 uses its own names

---
 asn1crypto/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 53a7ba9..4339e5a 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -684,7 +684,10 @@ class ValueMap():
         """
 
         cls = self.__class__
-        if cls._map is None or cls._reverse_map is not None:
+        if cls._map is None:
+            return
+        # A subclass with a _map of its own must not use the inherited _reverse_map
+        if cls._reverse_map is not None and ('_reverse_map' in cls.__dict__ or '_map' not in cls.__dict__):
             return
         cls._reverse_map = {}
         for key, value in cls._map.items():
-- 
2.43.0


From 5d767344a6a3feccad8bf874370a7495babe766a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:03 +0000
Subject: [PATCH 36/76] fix: encryption accessors refuse algorithms they have
 no answer for with ValueError, and report the scrypt salt

---
 asn1crypto/algos.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index 609d3a5..61218ad 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -900,7 +900,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             return self['parameters']['key_derivation_func']['parameters']['prf']['algorithm'].native
 
         if encryption_algo.find('.') == -1:
-            if encryption_algo.find('_') != -1:
+            if encryption_algo.startswith(('pbes1_', 'pkcs12_')):
                 _, hmac_algo, _ = encryption_algo.split('_', 2)
                 return hmac_algo
 
@@ -934,6 +934,9 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
         if encryption_algo == 'pbes2':
             salt = self['parameters']['key_derivation_func']['parameters']['salt']
 
+            if self.kdf == 'scrypt':
+                return salt.native
+
             if salt.name == 'other_source':
                 raise ValueError(unwrap(
                     '''
@@ -946,7 +949,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             return salt.native
 
         if encryption_algo.find('.') == -1:
-            if encryption_algo.find('_') != -1:
+            if encryption_algo.startswith(('pbes1_', 'pkcs12_')):
                 return self['parameters']['salt'].native
 
             raise ValueError(unwrap(
@@ -982,7 +985,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             return self['parameters']['key_derivation_func']['parameters']['iteration_count'].native
 
         if encryption_algo.find('.') == -1:
-            if encryption_algo.find('_') != -1:
+            if encryption_algo.startswith(('pbes1_', 'pkcs12_')):
                 return self['parameters']['iterations'].native
 
             raise ValueError(unwrap(
@@ -1073,7 +1076,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
 
             return self['parameters']['encryption_scheme'].key_length
 
-        if encryption_algo.find('.') == -1:
+        if encryption_algo.startswith(('pbes1_', 'pkcs12_')):
             return {
                 'pbes1_md2_des': 8,
                 'pbes1_md5_des': 8,
@@ -1156,7 +1159,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
         if encryption_algo == 'pbes2':
             return self['parameters']['encryption_scheme'].encryption_cipher
 
-        if encryption_algo.find('.') == -1:
+        if encryption_algo.startswith(('pbes1_', 'pkcs12_')):
             return {
                 'pbes1_md2_des': 'des',
                 'pbes1_md5_des': 'des',
@@ -1207,7 +1210,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
         if encryption_algo == 'pbes2':
             return self['parameters']['encryption_scheme'].encryption_block_size
 
-        if encryption_algo.find('.') == -1:
+        if encryption_algo.startswith(('pbes1_', 'pkcs12_')):
             return {
                 'pbes1_md2_des': 8,
                 'pbes1_md5_des': 8,
@@ -1268,7 +1271,11 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
         # that is used for the IV. For the PKCS#12 KDF, it is called with an id
         # of 2 to generate the IV. In either case, we can't return the IV
         # without knowing the user's password.
-        if encryption_algo.find('.') == -1:
+        if encryption_algo.startswith(('pbes1_', 'pkcs12_')):
+            return None
+
+        # Electronic codebook, the key wraps and stream ciphers have no IV
+        if encryption_algo == 'rc4' or encryption_algo.endswith(('_ecb', '_wrap', '_wrap_pad')):
             return None
 
         raise ValueError(unwrap(
-- 
2.43.0


From f512544ec67508924d8e05bdaadaadc480619daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:03 +0000
Subject: [PATCH 37/76] fix: RC2 key lengths are in bytes for large parameter
 versions and 4 when the version is absent

---
 asn1crypto/algos.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index 61218ad..1ad7763 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -1051,12 +1051,13 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             if rc2_parameter_version in encoded_key_bits_map:
                 return encoded_key_bits_map[rc2_parameter_version]
 
-            if rc2_parameter_version >= 256:
-                return rc2_parameter_version
-
             if rc2_parameter_version is None:
                 return 4  # 32-bit default
 
+            # Versions of 256 and up are the number of effective key bits
+            if rc2_parameter_version >= 256:
+                return (rc2_parameter_version + 7) // 8
+
             raise ValueError(unwrap(
                 '''
                 Invalid RC2 parameter version found in EncryptionAlgorithm
-- 
2.43.0


From a3c722fdd3d6a6f75c6daa517d8b17ce11beea43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:03 +0000
Subject: [PATCH 38/76] fix: the PKCS#12 RC4 algorithms are not reported as CBC

---
 asn1crypto/algos.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index 1ad7763..ea148f7 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -1118,6 +1118,10 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
         if encryption_algo[0:6] == 'pbes1_':
             return 'cbc'
 
+        # RC4 is a stream cipher, it has no mode
+        if encryption_algo[0:16] == 'pkcs12_sha1_rc4_':
+            return None
+
         if encryption_algo[0:7] == 'pkcs12_':
             return 'cbc'
 
-- 
2.43.0


From 085def0009b08935eb50b34b0a48204a4f00a202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:16 +0000
Subject: [PATCH 39/76] fix: MD2, MD5 and SHA-1 with RSA get NULL parameters
 too, and RSASSA-PSS without parameters is refused with ValueError

---
 asn1crypto/algos.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index ea148f7..6e85de5 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -60,6 +60,9 @@ class _ForceNullParameters(object):
     # https://tools.ietf.org/html/rfc4055#section-2.1
     _null_algos = set([
         '1.2.840.113549.1.1.1',    # rsassa_pkcs1v15 / rsaes_pkcs1v15 / rsa
+        '1.2.840.113549.1.1.2',    # md2_rsa
+        '1.2.840.113549.1.1.4',    # md5_rsa
+        '1.2.840.113549.1.1.5',    # sha1_rsa
         '1.2.840.113549.1.1.11',   # sha256_rsa
         '1.2.840.113549.1.1.12',   # sha384_rsa
         '1.2.840.113549.1.1.13',   # sha512_rsa
@@ -467,7 +470,7 @@ class SignedDigestAlgorithm(_ForceNullParameters, Sequence):
         if algorithm in self._algo_map:
             return self._algo_map[algorithm]
 
-        if algorithm == 'rsassa_pss':
+        if algorithm == 'rsassa_pss' and isinstance(self['parameters'], RSASSAPSSParams):
             return self['parameters']['hash_algorithm']['algorithm'].native
 
         if algorithm == 'ed25519' or algorithm == 'ed448':
@@ -502,7 +505,7 @@ class SignedDigestAlgorithm(_ForceNullParameters, Sequence):
         if algorithm in self._algo_map:
             return self._algo_map[algorithm]
 
-        if algorithm == 'rsassa_pss':
+        if algorithm == 'rsassa_pss' and isinstance(self['parameters'], RSASSAPSSParams):
             return self['parameters']['hash_algorithm']['algorithm'].native
 
         cms_algo_map = {
-- 
2.43.0


From 47e294a2f942ecd2f03f02321f432e86125f4591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:35 +0000
Subject: [PATCH 40/76] fix: EC points are encoded for every pair of
 coordinates, uneven points are refused, and the size of a specified curve is
 exact

---
 asn1crypto/keys.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index 92716e1..b1c6425 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -148,10 +148,7 @@ class _ECPoint():
             An ECPoint object
         """
 
-        x_bytes = int(math.ceil(math.log(x, 2) / 8.0))
-        y_bytes = int(math.ceil(math.log(y, 2) / 8.0))
-
-        num_bytes = max(x_bytes, y_bytes)
+        num_bytes = max(len(int_to_bytes(x)), len(int_to_bytes(y)))
 
         byte_string = b'\x04'
         byte_string += int_to_bytes(x, width=num_bytes)
@@ -175,6 +172,12 @@ class _ECPoint():
         if first_byte == b'\x04':
             remaining = data[1:]
             field_len = len(remaining) // 2
+            if field_len == 0 or len(remaining) % 2:
+                raise ValueError(unwrap(
+                    '''
+                    Invalid EC public key - the coordinates differ in length
+                    '''
+                ))
             x = int_from_bytes(remaining[0:field_len])
             y = int_from_bytes(remaining[field_len:])
             return (x, y)
@@ -534,7 +537,7 @@ class ECDomainParameters(Choice):
 
         if self.name == 'specified':
             order = self.chosen['order'].native
-            return math.ceil(math.log(order, 2.0) / 8.0)
+            return len(int_to_bytes(order))
 
         oid = self.chosen.dotted
         if oid not in NamedCurve._key_sizes:
-- 
2.43.0


From 7bd48a43599b0d2edb4f73fcd1281f2681138ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:00 +0000
Subject: [PATCH 41/76] fix: key sizes and the DSA hash family are computed
 from the exact integers, private EC keys are as large as their curve, and
 keys of unknown size are refused with ValueError

---
 asn1crypto/keys.py | 45 +++++++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index b1c6425..68fa3c8 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -900,7 +900,7 @@ class PrivateKeyInfo(Sequence):
                 self.algorithm.upper()
             ))
 
-        byte_len = math.log(self['private_key_algorithm']['parameters']['q'].native, 2) / 8
+        byte_len = len(int_to_bytes(self['private_key_algorithm']['parameters']['q'].native))
 
         return 'sha1' if byte_len <= 20 else 'sha2'
 
@@ -928,11 +928,22 @@ class PrivateKeyInfo(Sequence):
             elif self.algorithm == 'dsa':
                 prime = self['private_key_algorithm']['parameters']['p'].native
             elif self.algorithm == 'ec':
-                prime = self['private_key'].parsed['private_key'].native
-            self._bit_size = int(math.ceil(math.log(prime, 2)))
-            modulus = self._bit_size % 8
-            if modulus != 0:
-                self._bit_size += 8 - modulus
+                params = self['private_key_algorithm']['parameters']
+                if isinstance(params, ECDomainParameters) and (
+                        params.name == 'specified'
+                        or params.name == 'named' and params.chosen.dotted in NamedCurve._key_sizes):
+                    self._bit_size = params.key_size * 8
+                else:
+                    self._bit_size = len(byte_cls(self['private_key'].parsed['private_key'])) * 8
+                return self._bit_size
+            else:
+                raise ValueError(unwrap(
+                    '''
+                    The bit size of %s keys is not known
+                    ''',
+                    self.algorithm
+                ))
+            self._bit_size = len(int_to_bytes(prime)) * 8
         return self._bit_size
 
     @property
@@ -1229,7 +1240,7 @@ class PublicKeyInfo(Sequence):
         if parameters.native is None:
             return None
 
-        byte_len = math.log(parameters['q'].native, 2) / 8
+        byte_len = len(int_to_bytes(parameters['q'].native))
 
         return 'sha1' if byte_len <= 20 else 'sha2'
 
@@ -1253,16 +1264,22 @@ class PublicKeyInfo(Sequence):
 
         if self._bit_size is None:
             if self.algorithm == 'ec':
-                self._bit_size = int(((len(self['public_key'].native) - 1) / 2) * 8)
+                point = self['public_key'].native
+                coordinates = 1 if point[0:1] in set([b'\x02', b'\x03']) else 2
+                self._bit_size = int(((len(point) - 1) / coordinates) * 8)
             else:
-                if self.algorithm == 'rsa' or self.algorithm == 'rsassa_pss':
+                if self.algorithm == 'rsa' or self.algorithm == 'rsassa_pss' or self.algorithm == 'rsaes_oaep':
                     prime = self['public_key'].parsed['modulus'].native
-                elif self.algorithm == 'dsa':
+                elif self.algorithm == 'dsa' and isinstance(self['algorithm']['parameters'], DSAParams):
                     prime = self['algorithm']['parameters']['p'].native
-                self._bit_size = int(math.ceil(math.log(prime, 2)))
-                modulus = self._bit_size % 8
-                if modulus != 0:
-                    self._bit_size += 8 - modulus
+                else:
+                    raise ValueError(unwrap(
+                        '''
+                        The bit size of %s keys is not known
+                        ''',
+                        self.algorithm
+                    ))
+                self._bit_size = len(int_to_bytes(prime)) * 8
 
         return self._bit_size
 
-- 
2.43.0


From 9933f887c69fece1985f8fe62bb2f5106b0b9ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:00 +0000
Subject: [PATCH 42/76] fix: P1363 signatures of odd length are refused with
 ValueError

---
 asn1crypto/algos.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index 6e85de5..4b037e0 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -718,6 +718,9 @@ class DSASignature(Sequence):
             A DSASignature object
         """
 
+        if len(data) % 2:
+            raise ValueError('the two halves of the signature differ in length')
+
         r = int_from_bytes(data[0:len(data) // 2])
         s = int_from_bytes(data[len(data) // 2:])
         return cls({'r': r, 's': s})
-- 
2.43.0


From 68d157aac56bec1fe65b8f56da6760d774a038ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:22 +0000
Subject: [PATCH 43/76] fix: RSASSA-PSS keys can be wrapped

---
 asn1crypto/keys.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index 68fa3c8..7524074 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -38,6 +38,7 @@ from .core import (
     Sequence,
     SequenceOf,
     SetOf,
+    Void,
 )
 from .util import int_from_bytes, int_to_bytes
 
@@ -770,7 +771,8 @@ class PrivateKeyInfo(Sequence):
         if algorithm == 'rsa' or algorithm == 'rsassa_pss':
             if not isinstance(private_key, RSAPrivateKey):
                 private_key = RSAPrivateKey.load(private_key)
-            params = Null()
+            # RSASSA-PSS parameters are optional, but never NULL
+            params = Null() if algorithm == 'rsa' else Void()
         elif algorithm == 'dsa':
             if not isinstance(private_key, DSAPrivateKey):
                 private_key = DSAPrivateKey.load(private_key)
@@ -797,7 +799,8 @@ class PrivateKeyInfo(Sequence):
 
         private_key_algo = PrivateKeyAlgorithm()
         private_key_algo['algorithm'] = PrivateKeyAlgorithmId(algorithm)
-        private_key_algo['parameters'] = params
+        if not isinstance(params, Void):
+            private_key_algo['parameters'] = params
 
         container = cls()
         container._algorithm = algorithm
@@ -1156,7 +1159,9 @@ class PublicKeyInfo(Sequence):
 
         algo = PublicKeyAlgorithm()
         algo['algorithm'] = PublicKeyAlgorithmId(algorithm)
-        algo['parameters'] = Null()
+        # RSASSA-PSS parameters are optional, but never NULL
+        if algorithm == 'rsa':
+            algo['parameters'] = Null()
 
         container = cls()
         container['algorithm'] = algo
-- 
2.43.0


From 7938533d4be53553ab33afd457da084491553076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:50 +0000
Subject: [PATCH 44/76] fix: a PEM object without an END line is refused when
 another one follows

---
 asn1crypto/pem.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/asn1crypto/pem.py b/asn1crypto/pem.py
index 2d18f3c..c746c3a 100644
--- a/asn1crypto/pem.py
+++ b/asn1crypto/pem.py
@@ -171,6 +171,13 @@ def _unarmor(pem_bytes):
 
         if state == 'body':
             if line[0:5] in (b'-----', b'---- '):
+                if line[5:10] == b'BEGIN':
+                    raise ValueError(unwrap(
+                        '''
+                        pem_bytes contains a BEGIN line before the END line of
+                        the object that came before it
+                        '''
+                    ))
                 # Python 2.6's binascii does not accept bytearray objects,
                 # so convert to a string before decoding on that version.
                 if sys.version_info < (2, 7):
-- 
2.43.0


From 7272afaec39b136763590855569b29fab0ddbe2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:34 +0000
Subject: [PATCH 45/76] fix: MD2 and MD5 digests and SHA-3 with RSA get NULL
 parameters too

---
 asn1crypto/algos.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index 4b037e0..88159bd 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -67,6 +67,12 @@ class _ForceNullParameters(object):
         '1.2.840.113549.1.1.12',   # sha384_rsa
         '1.2.840.113549.1.1.13',   # sha512_rsa
         '1.2.840.113549.1.1.14',   # sha224_rsa
+        '2.16.840.1.101.3.4.3.13',  # sha3_224_rsa
+        '2.16.840.1.101.3.4.3.14',  # sha3_256_rsa
+        '2.16.840.1.101.3.4.3.15',  # sha3_384_rsa
+        '2.16.840.1.101.3.4.3.16',  # sha3_512_rsa
+        '1.2.840.113549.2.2',      # md2
+        '1.2.840.113549.2.5',      # md5
         '1.3.14.3.2.26',           # sha1
         '2.16.840.1.101.3.4.2.4',  # sha224
         '2.16.840.1.101.3.4.2.1',  # sha256
-- 
2.43.0


From 35feccda0d46971c2e3b967ec8a81babd6f739e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:13 +0000
Subject: [PATCH 46/76] fix: a forced dump keeps object identifiers whose
 mapped name stands for several

---
 asn1crypto/core.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 4339e5a..003fdd5 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3407,6 +3407,25 @@ class ObjectIdentifier(Primitive, ValueMap):
             self._native = self._map[self._native]
         return self._native
 
+    def dump(self, force=False):
+        """
+        Encodes the value using DER
+
+        :param force:
+            If the encoded contents already exist, clear them and regenerate
+            to ensure they are in DER format instead of BER format
+
+        :return:
+            A byte string of the DER-encoded value
+        """
+
+        # A mapped name may stand for more than one object identifier
+        if force and self.contents is not None:
+            self.set(self.dotted)
+            force = False
+
+        return Primitive.dump(self, force=force)
+
 
 class ObjectDescriptor(Primitive):
     """
-- 
2.43.0


From bdf26a0f01a50dc594f9f748ae282cfc63d7967a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:17 +0000
Subject: [PATCH 47/76] fix: NULL parameters are also set when the algorithm is
 assigned by index

---
 asn1crypto/algos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index 88159bd..ed89c57 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -103,7 +103,7 @@ class _ForceNullParameters(object):
     # and then fix the value as appropriate.
     def __setitem__(self, key, value):
         res = super(_ForceNullParameters, self).__setitem__(key, value)
-        if key != 'algorithm':
+        if key != 'algorithm' and key != 0:
             return res
         if self['algorithm'].dotted not in self._null_algos:
             return res
-- 
2.43.0


From 30c88f67e0ddbbc5ce1c39b09560c8c542f47d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:36 +0000
Subject: [PATCH 48/76] fix: a Choice assigned to an octet or bit string field
 with an embedded Choice is wrapped in the string

---
 asn1crypto/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 003fdd5..99a6dbc 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -4032,7 +4032,7 @@ class Sequence(Asn1Value):
         specs_different = field_spec != value_spec
         is_any = issubclass(field_spec, Any)
 
-        if issubclass(value_spec, Choice):
+        if issubclass(value_spec, Choice) and not (specs_different and isinstance(value, field_spec)):
             is_asn1value = isinstance(value, Asn1Value)
             is_tuple = isinstance(value, tuple) and len(value) == 2
             is_dict = isinstance(value, dict) and len(value) == 1
@@ -4054,6 +4054,10 @@ class Sequence(Asn1Value):
                 new_value = wrapper
             else:
                 new_value = value
+            if specs_different and not is_any:
+                wrapper = field_spec(value=new_value.dump(), **field_params)
+                wrapper._parsed = (new_value, new_value.__class__, None, _encoded_contents(new_value))
+                new_value = wrapper
 
         elif isinstance(value, field_spec):
             new_value = value
-- 
2.43.0


From 3cc48592f6098d958a73ec4598126cfa4170cb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:35 +0000
Subject: [PATCH 49/76] fix: keys of other algorithms are read as opaque
 octets, and EC keys without parameters have no curve (ValueError)

---
 asn1crypto/keys.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index 7524074..28ab671 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -734,7 +734,7 @@ class PrivateKeyInfo(Sequence):
             'x448': OctetString,
             'ed25519': OctetString,
             'ed448': OctetString,
-        }[algorithm]
+        }.get(algorithm)
 
     _spec_callbacks = {
         'private_key': _private_key_spec
@@ -872,6 +872,8 @@ class PrivateKeyInfo(Sequence):
             ))
 
         params = self['private_key_algorithm']['parameters']
+        if not isinstance(params, ECDomainParameters):
+            raise ValueError('The key does not include the parameters of its curve')
         chosen = params.chosen
 
         if params.name == 'implicit_ca':
@@ -1114,7 +1116,7 @@ class PublicKeyInfo(Sequence):
             'x448': (OctetBitString, None),
             'ed25519': (OctetBitString, None),
             'ed448': (OctetBitString, None),
-        }[algorithm]
+        }.get(algorithm)
 
     _spec_callbacks = {
         'public_key': _public_key_spec
@@ -1209,6 +1211,8 @@ class PublicKeyInfo(Sequence):
             ))
 
         params = self['algorithm']['parameters']
+        if not isinstance(params, ECDomainParameters):
+            raise ValueError('The key does not include the parameters of its curve')
         chosen = params.chosen
 
         if params.name == 'implicit_ca':
-- 
2.43.0


From a60fdf80b192e3780e9d9a52bf925819c048298a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:49 +0000
Subject: [PATCH 50/76] fix: wrapping a key refuses byte strings and values
 that are not a key of the given type

---
 asn1crypto/keys.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index 28ab671..48dd7a8 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -768,14 +768,18 @@ class PrivateKeyInfo(Sequence):
                 type_name(private_key)
             ))
 
+        # Byte strings are only parsed when read, thus keys of another type are
+        # found by reading the native value
         if algorithm == 'rsa' or algorithm == 'rsassa_pss':
             if not isinstance(private_key, RSAPrivateKey):
                 private_key = RSAPrivateKey.load(private_key)
+                private_key.native
             # RSASSA-PSS parameters are optional, but never NULL
             params = Null() if algorithm == 'rsa' else Void()
         elif algorithm == 'dsa':
             if not isinstance(private_key, DSAPrivateKey):
                 private_key = DSAPrivateKey.load(private_key)
+                private_key.native
             params = DSAParams()
             params['p'] = private_key['p']
             params['q'] = private_key['q']
@@ -785,6 +789,7 @@ class PrivateKeyInfo(Sequence):
         elif algorithm == 'ec':
             if not isinstance(private_key, ECPrivateKey):
                 private_key = ECPrivateKey.load(private_key)
+                private_key.native
             else:
                 private_key = private_key.copy()
             params = private_key['parameters']
@@ -1169,6 +1174,8 @@ class PublicKeyInfo(Sequence):
         container['algorithm'] = algo
         if isinstance(public_key, Asn1Value):
             public_key = public_key.untag().dump()
+        # Only parsed when read, thus anything but an RSA key is found here
+        RSAPublicKey.load(public_key).native
         container['public_key'] = ParsableOctetBitString(public_key)
 
         return container
-- 
2.43.0


From bb1c5732a895a2f1c3a26fe2a6f7d7290cc0a15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:45 +0000
Subject: [PATCH 51/76] fix: re-encoding and copying keep the leading null
 octets of an IntegerOctetString

---
 asn1crypto/core.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 99a6dbc..16d1e50 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -2801,6 +2801,28 @@ class IntegerOctetString(Constructable, Castable, Primitive):
         if self._trailer != b'':
             self._trailer = b''
 
+    def dump(self, force=False):
+        """
+        Encodes the value using DER
+
+        :param force:
+            If the encoded contents already exist, clear them and regenerate
+            to ensure they are in DER format instead of BER format
+
+        :return:
+            A byte string of the DER-encoded value
+        """
+
+        # Leading null bytes are part of the octet string that was parsed, but
+        # are not part of the integer
+        if self._encoded_width is None and self.contents is not None and (force or self._trailer != b''):
+            contents = self._merge_chunks()
+            self.set(self.native)
+            self.contents = contents
+            force = False
+
+        return super(IntegerOctetString, self).dump(force=force)
+
     def _copy(self, other, copy_func):
         """
         Copies the contents of another IntegerOctetString object to itself
@@ -2815,6 +2837,8 @@ class IntegerOctetString(Constructable, Castable, Primitive):
 
         self._encoded_width = other._encoded_width
         super(IntegerOctetString, self)._copy(other, copy_func)
+        if other._indefinite and self._encoded_width is None:
+            self.contents = other._merge_chunks()
 
     @property
     def native(self):
-- 
2.43.0


From 60b102674067ddfd56d8e2ab9f277b3705df96c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:45 +0000
Subject: [PATCH 52/76] fix: the size of an EC private key without a known
 curve is that of its octets

---
 asn1crypto/keys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index 48dd7a8..8e60e3d 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -944,7 +944,7 @@ class PrivateKeyInfo(Sequence):
                         or params.name == 'named' and params.chosen.dotted in NamedCurve._key_sizes):
                     self._bit_size = params.key_size * 8
                 else:
-                    self._bit_size = len(byte_cls(self['private_key'].parsed['private_key'])) * 8
+                    self._bit_size = len(self['private_key'].parsed['private_key'].cast(OctetString).native) * 8
                 return self._bit_size
             else:
                 raise ValueError(unwrap(
-- 
2.43.0


From 6b2632c571c6abb0b4fe961997a1a19a4a6cc683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:36 +0000
Subject: [PATCH 53/76] fix: a key with special tagging is wrapped without it

---
 asn1crypto/keys.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index 8e60e3d..f0cbb16 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -802,6 +802,11 @@ class PrivateKeyInfo(Sequence):
                 repr(algorithm)
             ))
 
+        # The structure defines the tagging of the key, not the context the key
+        # was obtained from
+        if private_key.implicit or private_key.explicit:
+            private_key = private_key.untag()
+
         private_key_algo = PrivateKeyAlgorithm()
         private_key_algo['algorithm'] = PrivateKeyAlgorithmId(algorithm)
         if not isinstance(params, Void):
-- 
2.43.0


From 9a561580ca63105b697798020c8a41fd59b8c12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:30 +0000
Subject: [PATCH 54/76] fix: only the variation selectors are ignored when
 names are compared, not the Arabic, small and half width presentation forms

---
 asn1crypto/x509.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 4c43786..f61f990 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -838,7 +838,7 @@ class NameTypeAndValue(Sequence):
         """
 
         # Map step
-        string = re.sub('[\u00ad\u1806\u034f\u180b-\u180d\ufe0f-\uff00\ufffc]+', '', string)
+        string = re.sub('[\u00ad\u1806\u034f\u180b-\u180d\ufe00-\ufe0f\ufffc]+', '', string)
         string = re.sub('[\u0009\u000a\u000b\u000c\u000d\u0085]', ' ', string)
         if sys.maxunicode == 0xffff:
             # Some installs of Python 2.7 don't support 8-digit unicode escape
-- 
2.43.0


From 9241f922092cec39a9ffad13cd655caaef80bd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:49 +0000
Subject: [PATCH 55/76] fix: every value of a name component with several
 attributes of one type takes part in comparison and hashing

---
 asn1crypto/x509.py | 45 ++++++++-------------------------------------
 1 file changed, 8 insertions(+), 37 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index f61f990..7e04023 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -945,9 +945,8 @@ class RelativeDistinguishedName(SetOf):
         """
 
         output = []
-        values = self._get_values(self)
-        for key in sorted(values.keys()):
-            output.append('%s: %s' % (key, values[key]))
+        for key, value in self._get_values(self):
+            output.append('%s: %s' % (key, value))
         # Unit separator is used here since the normalization process for
         # values moves any such character, and the keys are all dotted integers
         # or under_score_words
@@ -973,50 +972,22 @@ class RelativeDistinguishedName(SetOf):
         if len(self) != len(other):
             return False
 
-        self_types = self._get_types(self)
-        other_types = self._get_types(other)
-
-        if self_types != other_types:
-            return False
-
-        self_values = self._get_values(self)
-        other_values = self._get_values(other)
-
-        for type_name_ in self_types:
-            if self_values[type_name_] != other_values[type_name_]:
-                return False
-
-        return True
-
-    def _get_types(self, rdn):
-        """
-        Returns a set of types contained in an RDN
-
-        :param rdn:
-            A RelativeDistinguishedName object
-
-        :return:
-            A set object with unicode strings of NameTypeAndValue type field
-            values
-        """
-
-        return set([ntv['type'].native for ntv in rdn])
+        return self._get_values(self) == self._get_values(other)
 
     def _get_values(self, rdn):
         """
-        Returns a dict of prepped values contained in an RDN
+        Returns the types and prepped values contained in an RDN
 
         :param rdn:
             A RelativeDistinguishedName object
 
         :return:
-            A dict object with unicode strings of NameTypeAndValue value field
-            values that have been prepped for comparison
+            A sorted list of 2-element tuples of unicode strings - the
+            NameTypeAndValue type field value, and the value field value that
+            has been prepped for comparison
         """
 
-        output = {}
-        [output.update([(ntv['type'].native, ntv.prepped_value)]) for ntv in rdn]
-        return output
+        return sorted((ntv['type'].native, ntv.prepped_value) for ntv in rdn)
 
 
 class RDNSequence(SequenceOf):
-- 
2.43.0


From 8bc9dcd5eb848b6ca88c7b892f941d943fc01eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:35 +0000
Subject: [PATCH 56/76] fix: name attribute values other than strings are
 compared by their encoding, and prepared again once the value has changed

---
 asn1crypto/x509.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 7e04023..9aba066 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -17,6 +17,7 @@ from __future__ import unicode_literals, division, absolute_import, print_functi
 
 from contextlib import contextmanager
 from encodings import idna  # noqa
+import binascii
 import hashlib
 import re
 import socket
@@ -783,6 +784,9 @@ class NameTypeAndValue(Sequence):
 
     _prepped = None
 
+    # The tag and contents of the value ._prepped was computed from
+    _prepped_from = None
+
     @property
     def prepped_value(self):
         """
@@ -793,14 +797,25 @@ class NameTypeAndValue(Sequence):
             A unicode string
         """
 
-        if self._prepped is None:
-            native = self['value'].native
+        value = self['value']
+        chosen = value.chosen if isinstance(value, Choice) else value.parsed if isinstance(value, Any) else value
+        source = (chosen.tag, chosen.contents)
+        if self._prepped is None or self._prepped_from != source:
+            native = value.native
             if isinstance(native, str_cls):
                 self._prepped = self._ldap_string_prep(native)
+            elif isinstance(value, OctetBitString):
+                if value.unused_bits or b'\x1e' in native or b'\x1f' in native:
+                    # Unit and record separators are used by .hashable
+                    self._prepped = '#%s:%d' % (binascii.hexlify(native).decode('ascii'), len(value.unused_bits))
+                else:
+                    self._prepped = ' ' + native.decode('latin-1') + ' '
             else:
-                if isinstance(native, byte_cls):
-                    native = ' ' + native.decode('cp1252') + ' '
-                self._prepped = native
+                # Values other than strings are only equal to values with the
+                # same encoding. Prepped strings always start with a space.
+                der = value.copy().dump(force=True)
+                self._prepped = '#' + binascii.hexlify(der).decode('ascii')
+            self._prepped_from = source
         return self._prepped
 
     def __ne__(self, other):
-- 
2.43.0


From 1fba317b315d1729dfcc10b05e0fa1b33b27fbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:35 +0000
Subject: [PATCH 57/76] fix: the native, human friendly and hash values of a
 name follow changes made to it

---
 asn1crypto/x509.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 9aba066..cafabc6 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -1056,6 +1056,9 @@ class Name(Choice):
     _sha1 = None
     _sha256 = None
 
+    # The contents the attributes above, and ._native, were computed from
+    _computed_from = None
+
     @classmethod
     def build(cls, name_dict, use_printable=False):
         """
@@ -1159,8 +1162,22 @@ class Name(Choice):
             return False
         return self.chosen == other.chosen
 
+    def _discard_outdated(self):
+        """
+        Discards values that were computed before the name was changed
+        """
+
+        contents = self.chosen.contents
+        if self._computed_from != contents:
+            self._native = None
+            self._human_friendly = None
+            self._sha1 = None
+            self._sha256 = None
+            self._computed_from = contents
+
     @property
     def native(self):
+        self._discard_outdated()
         if self._native is None:
             self._native = OrderedDict()
             for rdn in self.chosen.native:
@@ -1182,6 +1199,7 @@ class Name(Choice):
             A human-friendly unicode string containing the parts of the name
         """
 
+        self._discard_outdated()
         if self._human_friendly is None:
             data = OrderedDict()
             last_field = None
@@ -1238,6 +1256,7 @@ class Name(Choice):
             The SHA1 hash of the DER-encoded bytes of this name
         """
 
+        self._discard_outdated()
         if self._sha1 is None:
             self._sha1 = hashlib.sha1(self.dump()).digest()
         return self._sha1
@@ -1249,6 +1268,7 @@ class Name(Choice):
             The SHA-256 hash of the DER-encoded bytes of this name
         """
 
+        self._discard_outdated()
         if self._sha256 is None:
             self._sha256 = hashlib.sha256(self.dump()).digest()
         return self._sha256
-- 
2.43.0


From 9d4e63886af0fbc0ae0e0efaa2829df0ae0648d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:11 +0000
Subject: [PATCH 58/76] fix: wildcard labels are matched literally, not as a
 regular expression

---
 asn1crypto/x509.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index cafabc6..611ff31 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -3111,11 +3111,10 @@ class Certificate(Sequence):
         if wildcard_label == '*':
             return True
 
-        wildcard_regex = re.compile('^' + wildcard_label.replace('*', '.*') + '$')
-        if wildcard_regex.match(first_domain_label):
-            return True
-
-        return False
+        prefix, suffix = wildcard_label.split('*', 1)
+        return len(first_domain_label) >= len(prefix) + len(suffix) \
+            and first_domain_label.startswith(prefix) \
+            and first_domain_label.endswith(suffix)
 
 
 # The structures are taken from the OpenSSL source file x_x509a.c, and specify
-- 
2.43.0


From 12894f8fbbbe841825df8084d0d596a11a789e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:11 +0000
Subject: [PATCH 59/76] fix: a subject alternative name that is not a domain
 name does not prevent the others from being matched

---
 asn1crypto/x509.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 611ff31..883a082 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -3015,7 +3015,11 @@ class Certificate(Sequence):
             domain_labels = encoded_domain_ip.split('.')
 
             for valid_domain in self.valid_domains:
-                encoded_valid_domain = valid_domain.encode('idna').decode('ascii').lower()
+                try:
+                    encoded_valid_domain = valid_domain.encode('idna').decode('ascii').lower()
+                except (UnicodeError):
+                    # A name that is not a domain name does not match anything
+                    continue
                 valid_domain_labels = encoded_valid_domain.split('.')
 
                 # The domain must be equal in label length to match
-- 
2.43.0


From c31d263988a96b4ecb87dfb69a2c3d03680fbab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:11 +0000
Subject: [PATCH 60/76] fix: IPv6 addresses that include an IPv4 address,
 address ranges and strings that are no address are handled when matching an
 IP address

---
 asn1crypto/x509.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 883a082..1fd6a2d 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -3040,10 +3040,18 @@ class Certificate(Sequence):
             return False
 
         family = socket.AF_INET if is_ipv4 else socket.AF_INET6
-        normalized_ip = inet_pton(family, encoded_domain_ip)
+        try:
+            normalized_ip = inet_pton(family, encoded_domain_ip)
+        except (socket.error):
+            return False
 
         for valid_ip in self.valid_ips:
-            valid_family = socket.AF_INET if valid_ip.find('.') != -1 else socket.AF_INET6
+            # A range of addresses is not an address
+            if valid_ip.find('/') != -1:
+                continue
+
+            # IPv6 addresses may include an IPv4 address
+            valid_family = socket.AF_INET6 if valid_ip.find(':') != -1 else socket.AF_INET
             normalized_valid_ip = inet_pton(valid_family, valid_ip)
 
             if normalized_valid_ip == normalized_ip:
-- 
2.43.0


From d48fd9511ce4f49bf14732a76e496a4e6d3fe475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:54 +0000
Subject: [PATCH 61/76] fix: a common name followed by a line break is not a
 domain name

---
 asn1crypto/x509.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 1fd6a2d..4288851 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -2853,7 +2853,7 @@ class Certificate(Sequence):
             # https://tools.ietf.org/html/rfc6125#section-6.4.4, the common
             # name should not be used if the subject alt name is present.
             else:
-                pattern = re.compile('^(\\*\\.)?(?:[a-zA-Z0-9](?:[a-zA-Z0-9\\-]*[a-zA-Z0-9])?\\.)+[a-zA-Z]{2,}$')
+                pattern = re.compile('^(\\*\\.)?(?:[a-zA-Z0-9](?:[a-zA-Z0-9\\-]*[a-zA-Z0-9])?\\.)+[a-zA-Z]{2,}\\Z')
                 for rdn in self.subject.chosen:
                     for name_type_value in rdn:
                         if name_type_value['type'].native == 'common_name':
-- 
2.43.0


From f1dac27537a70baf72f787f213501827c38e11a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:54 +0000
Subject: [PATCH 62/76] fix: the authority issuer and serial number are found
 whatever the kinds and order of the issuer names, and are absent without a
 serial number

---
 asn1crypto/x509.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 4288851..324f00e 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -2739,14 +2739,16 @@ class Certificate(Sequence):
 
         if self._authority_issuer_serial is False:
             akiv = self.authority_key_identifier_value
-            if akiv and akiv['authority_cert_issuer'].native:
-                issuer = self.authority_key_identifier_value['authority_cert_issuer'][0].chosen
-                # We untag the element since it is tagged via being a choice from GeneralName
-                issuer = issuer.untag()
-                authority_serial = self.authority_key_identifier_value['authority_cert_serial_number'].native
-                self._authority_issuer_serial = issuer.sha256 + b':' + str_cls(authority_serial).encode('ascii')
-            else:
-                self._authority_issuer_serial = None
+            issuer_serial = None
+            if akiv and akiv['authority_cert_serial_number'] is not VOID:
+                authority_serial = akiv['authority_cert_serial_number'].native
+                for general_name in akiv['authority_cert_issuer']:
+                    if general_name.name == 'directory_name':
+                        # We untag the element since it is tagged via being a choice from GeneralName
+                        issuer = general_name.chosen.untag()
+                        issuer_serial = issuer.sha256 + b':' + str_cls(authority_serial).encode('ascii')
+                        break
+            self._authority_issuer_serial = issuer_serial
         return self._authority_issuer_serial
 
     @property
-- 
2.43.0


From ebee7398a6cc23c4e094d017296d150e4ee2f7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:13 +0000
Subject: [PATCH 63/76] fix: distribution points without a name are handled,
 and the failure to find the URL of one is not remembered as its absence

---
 asn1crypto/crl.py  | 3 +++
 asn1crypto/x509.py | 9 +++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/crl.py b/asn1crypto/crl.py
index bf30196..bc014d2 100644
--- a/asn1crypto/crl.py
+++ b/asn1crypto/crl.py
@@ -24,6 +24,7 @@ from .core import (
     ParsableOctetString,
     Sequence,
     SequenceOf,
+    VOID,
 )
 from .x509 import (
     AuthorityInfoAccessSyntax,
@@ -493,6 +494,8 @@ class CertificateList(Sequence):
             if self.freshest_crl_value is not None:
                 for distribution_point in self.freshest_crl_value:
                     distribution_point_name = distribution_point['distribution_point']
+                    if distribution_point_name is VOID:
+                        continue
                     # RFC 5280 indicates conforming CA should not use the relative form
                     if distribution_point_name.name == 'name_relative_to_crl_issuer':
                         continue
diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 324f00e..52914fb 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -1659,8 +1659,11 @@ class DistributionPoint(Sequence):
         """
 
         if self._url is False:
-            self._url = None
+            found = None
             name = self['distribution_point']
+            if name is VOID:
+                self._url = None
+                return None
             if name.name != 'full_name':
                 raise ValueError(unwrap(
                     '''
@@ -1673,9 +1676,11 @@ class DistributionPoint(Sequence):
                 if general_name.name == 'uniform_resource_identifier':
                     url = general_name.native
                     if url.lower().startswith(('http://', 'https://', 'ldap://', 'ldaps://')):
-                        self._url = url
+                        found = url
                         break
 
+            self._url = found
+
         return self._url
 
 
-- 
2.43.0


From 6a3e0315730f9a246325d66714bfad914839b175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:29 +0000
Subject: [PATCH 64/76] fix: a failed read of a derived value is not remembered
 as its absence

---
 asn1crypto/crl.py  | 18 ++++++++++++------
 asn1crypto/x509.py | 25 +++++++++++++++----------
 2 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/asn1crypto/crl.py b/asn1crypto/crl.py
index bc014d2..ee967e0 100644
--- a/asn1crypto/crl.py
+++ b/asn1crypto/crl.py
@@ -259,12 +259,13 @@ class RevokedCertificate(Sequence):
         """
 
         if self._issuer_name is False:
-            self._issuer_name = None
+            issuer_name = None
             if self.certificate_issuer_value:
                 for general_name in self.certificate_issuer_value:
                     if general_name.name == 'directory_name':
-                        self._issuer_name = general_name.chosen
+                        issuer_name = general_name.chosen
                         break
+            self._issuer_name = issuer_name
         return self._issuer_name
 
 
@@ -467,7 +468,7 @@ class CertificateList(Sequence):
         """
 
         if self._issuer_cert_urls is None:
-            self._issuer_cert_urls = []
+            urls = []
             if self.authority_information_access_value:
                 for entry in self.authority_information_access_value:
                     if entry['access_method'].native == 'ca_issuers':
@@ -476,7 +477,10 @@ class CertificateList(Sequence):
                             continue
                         url = location.native
                         if url.lower()[0:7] == 'http://':
-                            self._issuer_cert_urls.append(url)
+                            urls.append(url)
+
+            self._issuer_cert_urls = urls
+
         return self._issuer_cert_urls
 
     @property
@@ -489,7 +493,7 @@ class CertificateList(Sequence):
         """
 
         if self._delta_crl_distribution_points is None:
-            self._delta_crl_distribution_points = []
+            points = []
 
             if self.freshest_crl_value is not None:
                 for distribution_point in self.freshest_crl_value:
@@ -502,7 +506,9 @@ class CertificateList(Sequence):
                     # This library is currently only concerned with HTTP-based CRLs
                     for general_name in distribution_point_name.chosen:
                         if general_name.name == 'uniform_resource_identifier':
-                            self._delta_crl_distribution_points.append(distribution_point)
+                            points.append(distribution_point)
+
+            self._delta_crl_distribution_points = points
 
         return self._delta_crl_distribution_points
 
diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 52914fb..140d516 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -2844,15 +2844,15 @@ class Certificate(Sequence):
         """
 
         if self._valid_domains is None:
-            self._valid_domains = []
+            domains = []
 
             # For the subject alt name extension, we can look at the name of
             # the choice selected since it distinguishes between domain names,
             # email addresses, IPs, etc
             if self.subject_alt_name_value:
                 for general_name in self.subject_alt_name_value:
-                    if general_name.name == 'dns_name' and general_name.native not in self._valid_domains:
-                        self._valid_domains.append(general_name.native)
+                    if general_name.name == 'dns_name' and general_name.native not in domains:
+                        domains.append(general_name.native)
 
             # If there was no subject alt name extension, and the common name
             # in the subject looks like a domain, that is considered the valid
@@ -2866,7 +2866,9 @@ class Certificate(Sequence):
                         if name_type_value['type'].native == 'common_name':
                             value = name_type_value['value'].native
                             if pattern.match(value):
-                                self._valid_domains.append(value)
+                                domains.append(value)
+
+            self._valid_domains = domains
 
         return self._valid_domains
 
@@ -2878,12 +2880,14 @@ class Certificate(Sequence):
         """
 
         if self._valid_ips is None:
-            self._valid_ips = []
+            ips = []
 
             if self.subject_alt_name_value:
                 for general_name in self.subject_alt_name_value:
                     if general_name.name == 'ip_address':
-                        self._valid_ips.append(general_name.native)
+                        ips.append(general_name.native)
+
+            self._valid_ips = ips
 
         return self._valid_ips
 
@@ -2934,15 +2938,16 @@ class Certificate(Sequence):
         """
 
         if self._self_signed is None:
-            self._self_signed = 'no'
+            self_signed = 'no'
             if self.self_issued:
                 if self.key_identifier:
                     if not self.authority_key_identifier:
-                        self._self_signed = 'maybe'
+                        self_signed = 'maybe'
                     elif self.authority_key_identifier == self.key_identifier:
-                        self._self_signed = 'maybe'
+                        self_signed = 'maybe'
                 else:
-                    self._self_signed = 'maybe'
+                    self_signed = 'maybe'
+            self._self_signed = self_signed
         return self._self_signed
 
     @property
-- 
2.43.0


From 1e8af0004e70a833dfa3467758cfbe5f2d990a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:30 +0000
Subject: [PATCH 65/76] fix: an OCSP response without response bytes has no
 extensions and no response data

---
 asn1crypto/ocsp.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/ocsp.py b/asn1crypto/ocsp.py
index 91c7fbf..6951f39 100644
--- a/asn1crypto/ocsp.py
+++ b/asn1crypto/ocsp.py
@@ -28,6 +28,7 @@ from .core import (
     ParsableOctetString,
     Sequence,
     SequenceOf,
+    VOID,
 )
 from .crl import AuthorityInfoAccessSyntax, CRLReason
 from .keys import PublicKeyAlgorithm
@@ -628,7 +629,10 @@ class OCSPResponse(Sequence):
 
         self._critical_extensions = set()
 
-        for extension in self['response_bytes']['response'].parsed['tbs_response_data']['response_extensions']:
+        response_data = self.response_data
+        extensions = [] if response_data is None else response_data['response_extensions']
+
+        for extension in extensions:
             name = extension['extn_id'].native
             attribute_name = '_%s_value' % name
             if hasattr(self, attribute_name):
@@ -689,6 +693,8 @@ class OCSPResponse(Sequence):
             None or an asn1crypto.ocsp.BasicOCSPResponse object
         """
 
+        if self['response_bytes'] is VOID:
+            return None
         return self['response_bytes']['response'].parsed
 
     @property
@@ -700,4 +706,7 @@ class OCSPResponse(Sequence):
             None or an asn1crypto.ocsp.ResponseData object
         """
 
-        return self['response_bytes']['response'].parsed['tbs_response_data']
+        basic_ocsp_response = self.basic_ocsp_response
+        if basic_ocsp_response is None:
+            return None
+        return basic_ocsp_response['tbs_response_data']
-- 
2.43.0


From bfc5d034460fa80c01b07755805419a4f83ae544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:22 +0000
Subject: [PATCH 66/76] fix: quoted reserved characters, percent signs and
 control characters of a URI keep their meaning when it is converted

---
 asn1crypto/_iri.py | 110 ++++++++++++++++++++-------------------------
 1 file changed, 48 insertions(+), 62 deletions(-)

diff --git a/asn1crypto/_iri.py b/asn1crypto/_iri.py
index 7394b4d..9028c1f 100644
--- a/asn1crypto/_iri.py
+++ b/asn1crypto/_iri.py
@@ -142,8 +142,8 @@ def uri_to_iri(value):
     if scheme is not None:
         scheme = scheme.decode('ascii')
 
-    username = _urlunquote(parsed.username, remap=[':', '@'])
-    password = _urlunquote(parsed.password, remap=[':', '@'])
+    username = _urlunquote(parsed.username)
+    password = _urlunquote(parsed.password)
     hostname = parsed.hostname
     if hostname:
         hostname = hostname.decode('idna')
@@ -162,8 +162,8 @@ def uri_to_iri(value):
     if port is not None:
         netloc += ':' + str_cls(port)
 
-    path = _urlunquote(parsed.path, remap=['/'], preserve=True)
-    query = _urlunquote(parsed.query, remap=['&', '='], preserve=True)
+    path = _urlunquote(parsed.path)
+    query = _urlunquote(parsed.query)
     fragment = _urlunquote(parsed.fragment)
 
     return urlunsplit((scheme, netloc, path, query, fragment))
@@ -207,57 +207,44 @@ def _urlquote(string, safe=''):
     if string is None or string == '':
         return None
 
-    # Anything already hex quoted is pulled out of the URL and unquoted if
-    # possible
-    escapes = []
-    if re.search('%[0-9a-fA-F]{2}', string):
-        # Try to unquote any percent values, restoring them if they are not
-        # valid UTF-8. Also, requote any safe chars since encoded versions of
-        # those are functionally different than the unquoted ones.
-        def _try_unescape(match):
-            byte_string = unquote_to_bytes(match.group(0))
-            unicode_string = byte_string.decode('utf-8', 'iriutf8')
-            for safe_char in list(safe):
-                unicode_string = unicode_string.replace(safe_char, '%%%02x' % ord(safe_char))
-            return unicode_string
-        string = re.sub('(?:%[0-9a-fA-F]{2})+', _try_unescape, string)
-
-        # Once we have the minimal set of hex quoted values, removed them from
-        # the string so that they are not double quoted
-        def _extract_escape(match):
-            escapes.append(match.group(0).encode('ascii'))
-            return '\x00'
-        string = re.sub('%[0-9a-fA-F]{2}', _extract_escape, string)
-
-    output = urlquote(string.encode('utf-8'), safe=safe.encode('utf-8'))
-    if not isinstance(output, byte_cls):
-        output = output.encode('ascii')
-
-    # Restore the existing quoted values that we extracted
-    if len(escapes) > 0:
-        def _return_escape(_):
-            return escapes.pop(0)
-        output = re.sub(b'%00', _return_escape, output)
+    # A percent sign that does not start a hex quoted value stands for itself
+    string = re.sub('%(?![0-9a-fA-F]{2})', '%25', string)
+
+    # Try to unquote any percent values, restoring them if they are not
+    # valid UTF-8. Also, requote any safe chars since encoded versions of
+    # those are functionally different than the unquoted ones. A quoted percent
+    # sign is never unquoted, since that would change what follows it.
+    def _try_unescape(match):
+        byte_string = unquote_to_bytes(match.group(0))
+        unicode_string = byte_string.decode('utf-8', 'iriutf8')
+        for safe_char in list(safe):
+            unicode_string = unicode_string.replace(safe_char, '%%%02x' % ord(safe_char))
+        return unicode_string
+    string = re.sub('(?:%(?!25)[0-9a-fA-F]{2})+', _try_unescape, string)
+
+    # Anything that is still hex quoted is not quoted again
+    output = b''
+    for part in re.split('(%[0-9a-fA-F]{2})', string):
+        if re.match('%[0-9a-fA-F]{2}$', part):
+            quoted = part
+        else:
+            quoted = urlquote(part.encode('utf-8'), safe=safe.encode('utf-8'))
+        if not isinstance(quoted, byte_cls):
+            quoted = quoted.encode('ascii')
+        output += quoted
 
     return output
 
 
-def _urlunquote(byte_string, remap=None, preserve=None):
+def _urlunquote(byte_string):
     """
-    Unquotes a URI portion from a byte string into unicode using UTF-8
+    Unquotes a URI portion from a byte string into unicode using UTF-8. Reserved
+    characters, percent signs and control characters that are quoted stay so,
+    since the unquoted ones have a different meaning.
 
     :param byte_string:
         A byte string of the data to unquote
 
-    :param remap:
-        A list of characters (as unicode) that should be re-mapped to a
-        %XX encoding. This is used when characters are not valid in part of a
-        URL.
-
-    :param preserve:
-        A bool - indicates that the chars to be remapped if they occur in
-        non-hex form, should be preserved. E.g. / for URL path.
-
     :return:
         A unicode string
     """
@@ -268,24 +255,23 @@ def _urlunquote(byte_string, remap=None, preserve=None):
     if byte_string == b'':
         return ''
 
-    if preserve:
-        replacements = ['\x1A', '\x1C', '\x1D', '\x1E', '\x1F']
-        preserve_unmap = {}
-        for char in remap:
-            replacement = replacements.pop(0)
-            preserve_unmap[replacement] = char
-            byte_string = byte_string.replace(char.encode('ascii'), replacement.encode('ascii'))
+    output = ''
+    for part in re.split(b'((?:%[0-9a-fA-F]{2})+)', byte_string):
+        if re.match(b'%[0-9a-fA-F]{2}', part):
+            part = unquote_to_bytes(part)
+            part = re.sub(b'[\x00-\x1F\x7F%:/?#\\[\\]@!$&\'()*+,;=]', _requote, part)
+        output += part.decode('utf-8', 'iriutf8')
 
-    byte_string = unquote_to_bytes(byte_string)
+    return output
 
-    if remap:
-        for char in remap:
-            byte_string = byte_string.replace(char.encode('ascii'), ('%%%02x' % ord(char)).encode('ascii'))
 
-    output = byte_string.decode('utf-8', 'iriutf8')
+def _requote(match):
+    """
+    :param match:
+        A regular expression match of a single byte
 
-    if preserve:
-        for replacement, original in preserve_unmap.items():
-            output = output.replace(replacement, original)
+    :return:
+        A byte string of the hex quoted byte
+    """
 
-    return output
+    return ('%%%02x' % ord(match.group(0))).encode('ascii')
-- 
2.43.0


From 55bd8f46f0012f68b2aafa798855f7d32f6cec0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:22 +0000
Subject: [PATCH 67/76] fix: a URI with an IPv6 address keeps its brackets

---
 asn1crypto/_iri.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/asn1crypto/_iri.py b/asn1crypto/_iri.py
index 9028c1f..e264e3e 100644
--- a/asn1crypto/_iri.py
+++ b/asn1crypto/_iri.py
@@ -76,6 +76,9 @@ def iri_to_uri(value, normalize=False):
     hostname = parsed.hostname
     if hostname is not None:
         hostname = hostname.encode('idna')
+        # An IPv6 address
+        if b':' in hostname:
+            hostname = b'[' + hostname + b']'
     # RFC 3986 allows userinfo to contain sub-delims
     username = _urlquote(parsed.username, safe='!$&\'()*+,;=')
     password = _urlquote(parsed.password, safe='!$&\'()*+,;=')
@@ -147,6 +150,9 @@ def uri_to_iri(value):
     hostname = parsed.hostname
     if hostname:
         hostname = hostname.decode('idna')
+        # An IPv6 address
+        if ':' in hostname:
+            hostname = '[' + hostname + ']'
     port = parsed.port
     if port and not isinstance(port, int_types):
         port = port.decode('ascii')
-- 
2.43.0


From c9cdbb822983b6e79af54d1aeddb03ae84bd47df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:22 +0000
Subject: [PATCH 68/76] fix: the password of a URI without a user name is kept

---
 asn1crypto/_iri.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/_iri.py b/asn1crypto/_iri.py
index e264e3e..b5c3a14 100644
--- a/asn1crypto/_iri.py
+++ b/asn1crypto/_iri.py
@@ -87,9 +87,10 @@ def iri_to_uri(value, normalize=False):
         port = str_cls(port).encode('ascii')
 
     netloc = b''
-    if username is not None:
-        netloc += username
-        if password:
+    if username is not None or password is not None:
+        if username is not None:
+            netloc += username
+        if password is not None:
             netloc += b':' + password
         netloc += b'@'
     if hostname is not None:
-- 
2.43.0


From dc1eae9ede93ec52eed7a01da8e46960494b15f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:22 +0000
Subject: [PATCH 69/76] fix: DNS names with the same encoding are equal

---
 asn1crypto/x509.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 140d516..a617d7a 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -92,7 +92,11 @@ class DNSName(IA5String):
         if not isinstance(other, DNSName):
             return False
 
-        return self.__unicode__().lower() == other.__unicode__().lower()
+        # The encoded forms are compared since different unicode strings may
+        # have the same encoding
+        if self.contents is None or other.contents is None:
+            return self.contents is other.contents
+        return self._merge_chunks().lower() == other._merge_chunks().lower()
 
     def set(self, value):
         """
-- 
2.43.0


From 7feb96cc5b18bf24a8fd1951f3ef6ea57ed51eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:37 +0000
Subject: [PATCH 70/76] fix: comparing e-mail addresses does not change them

---
 asn1crypto/x509.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index a617d7a..cef3014 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -194,9 +194,6 @@ class EmailAddress(IA5String):
 
     _contents = None
 
-    # If the value has gone through the .set() method, thus normalizing it
-    _normalized = False
-
     # In the wild we've seen this encoded as a UTF8String and PrintableString
     _bad_tag = (12, 19)
 
@@ -216,7 +213,6 @@ class EmailAddress(IA5String):
             A byte string of the DER-encoded contents of the sequence
         """
 
-        self._normalized = False
         self._contents = value
 
     def set(self, value):
@@ -242,7 +238,6 @@ class EmailAddress(IA5String):
         else:
             encoded_value = value.encode('ascii')
 
-        self._normalized = True
         self._unicode = value
         self.contents = encoded_value
         self._header = None
@@ -286,16 +281,17 @@ class EmailAddress(IA5String):
         if not isinstance(other, EmailAddress):
             return False
 
-        if not self._normalized:
-            self.set(self.native)
-        if not other._normalized:
-            other.set(other.native)
+        if self.contents is None or other.contents is None:
+            return self.contents is other.contents
+
+        contents = self._merge_chunks()
+        other_contents = other._merge_chunks()
 
-        if self._contents.find(b'@') == -1 or other._contents.find(b'@') == -1:
-            return self._contents == other._contents
+        if contents.find(b'@') == -1 or other_contents.find(b'@') == -1:
+            return contents == other_contents
 
-        other_mailbox, other_hostname = other._contents.rsplit(b'@', 1)
-        mailbox, hostname = self._contents.rsplit(b'@', 1)
+        other_mailbox, other_hostname = other_contents.rsplit(b'@', 1)
+        mailbox, hostname = contents.rsplit(b'@', 1)
 
         if mailbox != other_mailbox:
             return False
-- 
2.43.0


From 8c86197fba9ca0dea8d35cf747b3358ab161c9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:15 +0000
Subject: [PATCH 71/76] fix: the password of a URI without a user name is
 decoded

---
 asn1crypto/_iri.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/_iri.py b/asn1crypto/_iri.py
index b5c3a14..6d0a8fb 100644
--- a/asn1crypto/_iri.py
+++ b/asn1crypto/_iri.py
@@ -159,8 +159,9 @@ def uri_to_iri(value):
         port = port.decode('ascii')
 
     netloc = ''
-    if username is not None:
-        netloc += username
+    if username is not None or password is not None:
+        if username is not None:
+            netloc += username
         if password:
             netloc += ':' + password
         netloc += '@'
-- 
2.43.0


From f98143588d3cec6f66cbe8cc1e91f96eb8a887a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:49 +0000
Subject: [PATCH 72/76] fix: a plus sign in the scheme of a URI is kept

---
 asn1crypto/_iri.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/_iri.py b/asn1crypto/_iri.py
index 6d0a8fb..2bd7405 100644
--- a/asn1crypto/_iri.py
+++ b/asn1crypto/_iri.py
@@ -67,12 +67,12 @@ def iri_to_uri(value, normalize=False):
         parsed = urlsplit(value)
         if real_prefix:
             value = real_prefix + value[7:]
-            scheme = _urlquote(real_prefix[:-3])
+            scheme = _urlquote(real_prefix[:-3], safe='+')
     else:
         parsed = urlsplit(value)
 
     if scheme is None:
-        scheme = _urlquote(parsed.scheme)
+        scheme = _urlquote(parsed.scheme, safe='+')
     hostname = parsed.hostname
     if hostname is not None:
         hostname = hostname.encode('idna')
-- 
2.43.0


From c20a43d62fa2e40bbc85879a242db1d0e76812c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:20 +0000
Subject: [PATCH 73/76] fix: version 1 attribute certificates without a version
 are read as such

---
 asn1crypto/cms.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/cms.py b/asn1crypto/cms.py
index b104c99..41a6016 100644
--- a/asn1crypto/cms.py
+++ b/asn1crypto/cms.py
@@ -510,8 +510,11 @@ class CertificateChoices(Choice):
 
         super(CertificateChoices, self).validate(class_, tag, contents)
         if self._choice == 2:
-            if AttCertVersion.load(Sequence.load(contents)[0].dump()).native == 'v2':
-                self._choice = 3
+            info = Sequence.load(contents)
+            # The version is not encoded when it is v1, which is the default
+            if len(info) > 0 and isinstance(info[0], Integer):
+                if AttCertVersion.load(info[0].dump()).native == 'v2':
+                    self._choice = 3
 
 
 class CertificateSet(SetOf):
-- 
2.43.0


From fede0a6a18504739c8ed8d42aa7a4e7b5232de2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:51 +0000
Subject: [PATCH 74/76] fix: an enumerated value of unknown definition is read
 as an integer

---
 asn1crypto/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 16d1e50..9c9a8b6 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3504,7 +3504,7 @@ class Enumerated(Integer):
             ))
 
         if isinstance(value, str_cls):
-            if value not in self._reverse_map:
+            if self._map is None or value not in self._reverse_map:
                 raise ValueError(unwrap(
                     '''
                     %s value "%s" is not a valid value
@@ -3515,7 +3515,7 @@ class Enumerated(Integer):
 
             value = self._reverse_map[value]
 
-        elif value not in self._map:
+        elif self._map is not None and value not in self._map:
             raise ValueError(unwrap(
                 '''
                 %s value %s is not a valid value
@@ -3540,6 +3540,10 @@ class Enumerated(Integer):
 
         if self._native is None:
             value = self.__int__()
+            # Values of unknown definition have no names
+            if self._map is None:
+                self._native = value
+                return self._native
             if value not in self._map:
                 raise ValueError(unwrap(
                     '''
-- 
2.43.0


From ba58521b464e5e68c8b319c08000860ee47f7ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:51 +0000
Subject: [PATCH 75/76] fix: the parts of an EDI party name are explicitly
 tagged, being choices

---
 asn1crypto/x509.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index cef3014..5d08804 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -1514,8 +1514,8 @@ class ORAddress(Sequence):
 
 class EDIPartyName(Sequence):
     _fields = [
-        ('name_assigner', DirectoryString, {'implicit': 0, 'optional': True}),
-        ('party_name', DirectoryString, {'implicit': 1}),
+        ('name_assigner', DirectoryString, {'explicit': 0, 'optional': True}),
+        ('party_name', DirectoryString, {'explicit': 1}),
     ]
 
 
-- 
2.43.0


From 3a355221c33d573895f02c898b1e595ecb55f819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:44 +0000
Subject: [PATCH 76/76] fix: values nested too deeply are refused with
 ValueError

---
 asn1crypto/core.py | 66 +++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 59 insertions(+), 7 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 9c9a8b6..8f1fe7a 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -74,6 +74,12 @@ else:
 
     _PY2 = False
 
+try:
+    RecursionError
+except (NameError):
+    # Before Python 3.5 there is no more specific exception
+    RecursionError = RuntimeError
+
 
 _teletex_codec.register()
 
@@ -3714,8 +3720,11 @@ class Sequence(Asn1Value):
         if self.children is None:
             return self._contents
 
-        if self._is_mutated():
-            self._set_contents()
+        try:
+            if self._is_mutated():
+                self._set_contents()
+        except (RecursionError):
+            raise _nesting_error(self)
 
         return self._contents
 
@@ -4266,6 +4275,9 @@ class Sequence(Asn1Value):
 
             self._encoded_children = [_encoded_contents(child) for child in self.children]
 
+        except (RecursionError):
+            self.children = None
+            raise _nesting_error(self)
         except (ValueError, TypeError) as e:
             self.children = None
             args = e.args[1:]
@@ -4337,6 +4349,9 @@ class Sequence(Asn1Value):
                     except (IndexError):
                         name = str_cls(index)
                     self._native[name] = child.native
+            except (RecursionError):
+                self._native = None
+                raise _nesting_error(self)
             except (ValueError, TypeError) as e:
                 self._native = None
                 args = e.args[1:]
@@ -4403,12 +4418,18 @@ class Sequence(Asn1Value):
         if force and self._fields == [] and self.__class__ in (Sequence, Set):
             force = False
             if self.contents is not None:
-                self._contents = _dump_generic(self._contents)
+                try:
+                    self._contents = _dump_generic(self._contents)
+                except (RecursionError):
+                    raise _nesting_error(self)
                 self._header = None
                 self._trailer = b''
 
         if force:
-            self._set_contents(force=force)
+            try:
+                self._set_contents(force=force)
+            except (RecursionError):
+                raise _nesting_error(self)
 
         if self._fields and self.children is not None:
             for index, (field_name, _, params) in enumerate(self._fields):
@@ -4507,8 +4528,11 @@ class SequenceOf(Asn1Value):
         if self.children is None:
             return self._contents
 
-        if self._is_mutated():
-            self._set_contents()
+        try:
+            if self._is_mutated():
+                self._set_contents()
+        except (RecursionError):
+            raise _nesting_error(self)
 
         return self._contents
 
@@ -4791,6 +4815,9 @@ class SequenceOf(Asn1Value):
 
             self._encoded_children = [_encoded_contents(child) for child in self.children]
 
+        except (RecursionError):
+            self.children = None
+            raise _nesting_error(self)
         except (ValueError, TypeError) as e:
             self.children = None
             args = e.args[1:]
@@ -4826,6 +4853,8 @@ class SequenceOf(Asn1Value):
                 self._parse_children(recurse=True)
             try:
                 self._native = [child.native for child in self]
+            except (RecursionError):
+                raise _nesting_error(self)
             except (ValueError, TypeError) as e:
                 args = e.args[1:]
                 e.args = (e.args[0] + '\n    while parsing %s' % type_name(self),) + args
@@ -4885,7 +4914,10 @@ class SequenceOf(Asn1Value):
             force = True
 
         if force:
-            self._set_contents(force=force)
+            try:
+                self._set_contents(force=force)
+            except (RecursionError):
+                raise _nesting_error(self)
 
         return Asn1Value.dump(self)
 
@@ -5053,6 +5085,8 @@ class Set(Sequence):
                 self.children.append(child_map[index])
             self._encoded_children = [_encoded_contents(child) for child in self.children]
 
+        except (RecursionError):
+            raise _nesting_error(self)
         except (ValueError, TypeError) as e:
             args = e.args[1:]
             e.args = (e.args[0] + '\n    while parsing %s' % type_name(self),) + args
@@ -5727,6 +5761,24 @@ def _build_id_tuples(params, spec):
     return [id_]
 
 
+def _nesting_error(value):
+    """
+    :param value:
+        An Asn1Value object that contains more levels of values than can be
+        processed
+
+    :return:
+        A ValueError
+    """
+
+    return ValueError(unwrap(
+        '''
+        %s contains too many levels of nested values
+        ''',
+        type_name(value)
+    ))
+
+
 def _dump_generic(contents):
     """
     Encodes a series of values using DER as far as possible without a spec
-- 
2.43.0

