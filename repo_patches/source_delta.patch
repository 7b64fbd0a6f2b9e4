From 07603886cfe975b50a78dde330f3287e2ab64647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:13 +0000
Subject: [PATCH 001/114] fix: encode_int cached negative integers under
 another integer's key

---
 pyamf/amf3.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index d2413f9..2aca6b3 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1571,6 +1571,8 @@ def encode_int(n):
     if n < MIN_29B_INT or n > MAX_29B_INT:
         raise OverflowError("Out of range")
 
+    key = n
+
     if n < 0:
         n += 0x20000000
 
@@ -1596,7 +1598,7 @@ def encode_int(n):
     else:
         bytes += chr(n & 0x7f)
 
-    ENCODED_INT_CACHE[n] = bytes
+    ENCODED_INT_CACHE[key] = bytes
 
     return bytes
 
-- 
2.43.0


From 28048b27557d4d3e6dbf798a5e3b12b96d502d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:57 +0000
Subject: [PATCH 002/114] fix: a short read of a 24 bit integer moved the
 stream position

---
 pyamf/util/pure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyamf/util/pure.py b/pyamf/util/pure.py
index 07161a5..55da8f2 100644
--- a/pyamf/util/pure.py
+++ b/pyamf/util/pure.py
@@ -371,8 +371,8 @@ class DataTypeMixIn(object):
 
         n = 0
 
-        for x in order:
-            n += (self.read_uchar() << x)
+        for x, c in zip(order, self._read(3)):
+            n += (ord(c) << x)
 
         return n
 
-- 
2.43.0


From a93bd6541dc447c549d0859c63ca44a6a3e87266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:57 +0000
Subject: [PATCH 003/114] fix: adding an empty stream to another raised IOError

---
 pyamf/util/pure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/util/pure.py b/pyamf/util/pure.py
index 55da8f2..548fb83 100644
--- a/pyamf/util/pure.py
+++ b/pyamf/util/pure.py
@@ -622,7 +622,7 @@ class BufferedByteStream(StringIOProxy, DataTypeMixIn):
 
         other.seek(0)
         new.seek(0, 2)
-        new.write(other.read())
+        new.write(other.getvalue())
 
         self.seek(old_pos)
         other.seek(old_other_pos)
-- 
2.43.0


From a24ba7f92fbd6e0827dc3b506597aab84f39e97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:59 +0000
Subject: [PATCH 004/114] fix: at_eof was false with the position beyond the
 end of the stream

---
 pyamf/util/pure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/util/pure.py b/pyamf/util/pure.py
index 548fb83..461ff8f 100644
--- a/pyamf/util/pure.py
+++ b/pyamf/util/pure.py
@@ -591,7 +591,7 @@ class BufferedByteStream(StringIOProxy, DataTypeMixIn):
 
         @rtype: C{bool}
         """
-        return self.tell() == len(self)
+        return self.tell() >= len(self)
 
     def append(self, data):
         """
-- 
2.43.0


From ff89f23e1512cd50e9c061155ff7ff8023ca5e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:52 +0000
Subject: [PATCH 005/114] fix: AMF0 decoder counted dates and XML as
 referenceable, the encoder and the format do not

---
 pyamf/amf0.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index d1019b9..1d4a20b 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -361,8 +361,6 @@ class Decoder(codec.Decoder):
         if self.timezone_offset:
             d = d + self.timezone_offset
 
-        self.context.addObject(d)
-
         return d
 
     def readLongString(self):
@@ -386,8 +384,6 @@ class Decoder(codec.Decoder):
             forbid_entities=self.context.forbid_entities,
         )
 
-        self.context.addObject(root)
-
         return root
 
 
-- 
2.43.0


From ebc592322809c38d9e7212a9f27d8140d5ac6f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:52 +0000
Subject: [PATCH 006/114] fix: AMF0 encoder counted objects written as AMF3 as
 AMF0 references

---
 pyamf/amf0.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 1d4a20b..9e4af48 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -591,7 +591,6 @@ class Encoder(codec.Encoder):
         if self.writeReference(o) != -1:
             return
 
-        self.context.addObject(o)
         alias = self.context.getClassAlias(o.__class__)
 
         alias.compile()
@@ -601,6 +600,8 @@ class Encoder(codec.Encoder):
 
             return
 
+        self.context.addObject(o)
+
         if alias.anonymous:
             self.writeType(TYPE_OBJECT)
         else:
-- 
2.43.0


From 4b9c88bb8f41466c8e325511e696e7e86470565e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:13 +0000
Subject: [PATCH 007/114] fix: AMF3 values inside AMF0 ignored the strict, DTD
 and entity settings

---
 pyamf/amf0.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 9e4af48..8719a17 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -116,6 +116,7 @@ class Context(codec.Context):
         encoder = pyamf.get_encoder(
             pyamf.AMF3,
             stream=amf0_encoder.stream,
+            strict=amf0_encoder.strict,
             timezone_offset=amf0_encoder.timezone_offset
         )
 
@@ -132,7 +133,10 @@ class Context(codec.Context):
         decoder = pyamf.get_decoder(
             pyamf.AMF3,
             stream=amf0_decoder.stream,
-            timezone_offset=amf0_decoder.timezone_offset
+            strict=amf0_decoder.strict,
+            timezone_offset=amf0_decoder.timezone_offset,
+            forbid_dtd=self.forbid_dtd,
+            forbid_entities=self.forbid_entities
         )
 
         self.extra['amf3_decoder'] = decoder
-- 
2.43.0


From c84e092e4d7baddddbfcd2292d08768020c06f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:13 +0000
Subject: [PATCH 008/114] fix: AMF0 keys and class names longer than 65535
 bytes corrupted the stream, refuse them

---
 pyamf/amf0.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 8719a17..4a1147f 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -488,13 +488,7 @@ class Encoder(codec.Encoder):
         if type(s) is unicode:
             s = self.context.getBytesForString(s)
 
-        l = len(s)
-
-        if l > 0xffff:
-            self.stream.write_ulong(l)
-        else:
-            self.stream.write_ushort(l)
-
+        self.stream.write_ushort(len(s))
         self.stream.write(s)
 
     def writeBytes(self, s):
-- 
2.43.0


From ee2c9265e1379093266e94058a1e9e93cb688ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:46 +0000
Subject: [PATCH 009/114] fix: AMF0 encoder wrote XML without counting it as
 referenceable, as the decoder does

---
 pyamf/amf0.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 4a1147f..1046ce0 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -388,6 +388,8 @@ class Decoder(codec.Decoder):
             forbid_entities=self.context.forbid_entities,
         )
 
+        self.context.addObject(root)
+
         return root
 
 
@@ -650,6 +652,10 @@ class Encoder(codec.Encoder):
         """
         Writes an XML instance.
         """
+        if self.writeReference(e) != -1:
+            return
+
+        self.context.addObject(e)
         self.writeType(TYPE_XML)
 
         data = xml.tostring(e)
-- 
2.43.0


From 5920e449bc017bff83295580dc6d29135ef8f317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:16 +0000
Subject: [PATCH 010/114] fix: get_module compared the module name by identity,
 undotted unknown aliases raised ValueError

---
 pyamf/util/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/util/__init__.py b/pyamf/util/__init__.py
index 035e4aa..5bb4105 100644
--- a/pyamf/util/__init__.py
+++ b/pyamf/util/__init__.py
@@ -198,7 +198,7 @@ def get_module(mod_name):
     """
     Load and return a module based on C{mod_name}.
     """
-    if mod_name is '':
+    if mod_name == '':
         raise ImportError('Unable to import empty module')
 
     mod = __import__(mod_name)
-- 
2.43.0


From ff1b94463661572f44a44c8f588fc3ad2db88799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:59 +0000
Subject: [PATCH 011/114] fix: an alias naming an attribute that is missing or
 is no class escaped as AttributeError or TypeError

---
 pyamf/__init__.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index b71ae91..e78d7cb 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -406,12 +406,10 @@ def load_class(alias):
         klass = mod_class[-1]
 
         try:
-            module = util.get_module(module)
-        except (ImportError, AttributeError):
+            klass = getattr(util.get_module(module), klass)
+        except (ImportError, AttributeError, UnicodeError):
             pass
         else:
-            klass = getattr(module, klass)
-
             if isinstance(klass, python.class_types):
                 return register_class(klass, alias)
             elif isinstance(klass, ClassAlias):
@@ -419,10 +417,6 @@ def load_class(alias):
                 CLASS_CACHE[klass.klass] = klass
 
                 return klass.klass
-            else:
-                raise TypeError(
-                    "Expecting class type or ClassAlias from loader"
-                )
 
     # All available methods for finding the class have been exhausted
     raise UnknownClassAlias("Unknown alias for %r" % (alias,))
-- 
2.43.0


From eedbcc2cb9aea1d19bed4fb4cfaaa2e61abf792f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:59 +0000
Subject: [PATCH 012/114] fix: load_class returned the class, not the alias,
 for an alias found in a module

---
 pyamf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index e78d7cb..05038da 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -416,7 +416,7 @@ def load_class(alias):
                 CLASS_CACHE[klass.alias] = klass
                 CLASS_CACHE[klass.klass] = klass
 
-                return klass.klass
+                return klass
 
     # All available methods for finding the class have been exhausted
     raise UnknownClassAlias("Unknown alias for %r" % (alias,))
-- 
2.43.0


From 53b975d435551dad8938ca729a5793834a399ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:38 +0000
Subject: [PATCH 013/114] fix: count AMF0 XML as referenceable without changing
 how repeated XML is written

---
 pyamf/amf0.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 1046ce0..22c9423 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -652,9 +652,6 @@ class Encoder(codec.Encoder):
         """
         Writes an XML instance.
         """
-        if self.writeReference(e) != -1:
-            return
-
         self.context.addObject(e)
         self.writeType(TYPE_XML)
 
-- 
2.43.0


From adcf6f2adc7549251b1ce0454399a011a8a64cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:48 +0000
Subject: [PATCH 014/114] fix: class aliases with non-ASCII names could not be
 registered as text nor found by their encoded name

---
 pyamf/__init__.py | 7 +++++++
 pyamf/alias.py    | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index 05038da..53c73a3 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -302,6 +302,13 @@ def get_class_alias(klass_or_alias):
     @raise UnknownClassAlias: Unknown alias
     """
     if isinstance(klass_or_alias, python.str_types):
+        if isinstance(klass_or_alias, bytes):
+            try:
+                klass_or_alias = klass_or_alias.decode('utf-8')
+            except UnicodeDecodeError:
+                raise UnknownClassAlias('Unknown alias for %r' % (
+                    klass_or_alias,))
+
         try:
             return CLASS_CACHE[klass_or_alias]
         except KeyError:
diff --git a/pyamf/alias.py b/pyamf/alias.py
index 1ef3af3..a1eec02 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -37,7 +37,7 @@ class ClassAlias(object):
         self.klass = klass
         self.alias = alias
 
-        if hasattr(self.alias, 'decode'):
+        if isinstance(self.alias, bytes):
             self.alias = self.alias.decode('utf-8')
 
         self.static_attrs = kwargs.pop('static_attrs', None)
-- 
2.43.0


From 3fefe17ee092b71c4115580708735125265459ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:19 +0000
Subject: [PATCH 015/114] fix: keys that are not strings were encoded as text
 of another length

---
 pyamf/amf0.py | 4 +++-
 pyamf/amf3.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 22c9423..1eaf44f 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -487,8 +487,10 @@ class Encoder(codec.Encoder):
         """
         Similar to L{writeString} but does not encode a type byte.
         """
-        if type(s) is unicode:
+        if isinstance(s, unicode):
             s = self.context.getBytesForString(s)
+        elif not isinstance(s, str):
+            raise pyamf.EncodeError('AMF0 keys and names must be strings (got:%r)' % (s,))
 
         self.stream.write_ushort(len(s))
         self.stream.write(s)
diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 2aca6b3..177438d 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1244,8 +1244,10 @@ class Encoder(codec.Encoder):
         @type   s: C{str}
         @param  s: The string data to be encoded to the AMF3 data stream.
         """
-        if type(s) is unicode:
+        if isinstance(s, unicode):
             s = self.context.getBytesForString(s)
+        elif not isinstance(s, str):
+            raise pyamf.EncodeError('AMF3 keys and names must be strings (got:%r)' % (s,))
 
         self.serialiseBytes(s)
 
-- 
2.43.0


From 3457526759b136a96b732c3276db363caccb3f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:23 +0000
Subject: [PATCH 016/114] fix: AMF3 XML was written through the string
 reference table, which the decoder does not use for it

---
 pyamf/amf3.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 177438d..d762f3b 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1550,7 +1550,11 @@ class Encoder(codec.Encoder):
 
         self.context.addObject(n)
 
-        self.serialiseString(xml.tostring(n).encode('utf-8'))
+        # XML has no part in the string reference table
+        data = xml.tostring(n).encode('utf-8')
+
+        self._writeInteger((len(data) << 1) | REFERENCE_BIT)
+        self.stream.write(data)
 
 
 def encode_int(n):
-- 
2.43.0


From 01187c8ed6d28bf76472c3eac5b623b34aee0e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:23 +0000
Subject: [PATCH 017/114] fix: AMF3 mixed arrays with integer keys that do not
 run from 0 were refused or altered

---
 pyamf/amf3.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index d762f3b..84f669f 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1377,27 +1377,26 @@ class Encoder(codec.Encoder):
             else:
                 raise ValueError("Non int/str key value found in dict")
 
-        # Make sure the integer keys are within range
-        l = len(int_keys)
+        int_keys.sort()
 
-        for x in int_keys:
-            if l < x <= 0:
-                # treat as a string key
-                str_keys.append(x)
-                del int_keys[int_keys.index(x)]
+        # Only integer keys that run on from 0 are carried by their position,
+        # any other will be treated as a string
+        dense = 0
 
-        int_keys.sort()
+        while dense < len(int_keys) and int_keys[dense] == dense:
+            dense += 1
 
-        # If integer keys don't start at 0, they will be treated as strings
-        if len(int_keys) > 0 and int_keys[0] != 0:
-            for x in int_keys:
-                str_keys.append(str(x))
-                del int_keys[int_keys.index(x)]
+        str_keys.extend(int_keys[dense:])
+        del int_keys[dense:]
 
         self._writeInteger(len(int_keys) << 1 | REFERENCE_BIT)
 
         for x in str_keys:
-            self.serialiseString(x)
+            if isinstance(x, python.int_types):
+                self.serialiseString(str(x))
+            else:
+                self.serialiseString(x)
+
             self.writeElement(n[x])
 
         self.stream.write_uchar(0x01)
-- 
2.43.0


From dbb9ee1dbe9a9ff926c417eb6c0df25d1ac0bc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:23 +0000
Subject: [PATCH 018/114] fix: an empty string key ended an AMF3 object early
 and corrupted the stream

---
 pyamf/amf3.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 84f669f..0e80196 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1504,6 +1504,11 @@ class Encoder(codec.Encoder):
                     if type(attr) in python.int_types:
                         attr = str(attr)
 
+                    # the empty string marks the end of the attributes
+                    if attr == '':
+                        raise pyamf.EncodeError(
+                            "objects cannot contain empty string keys")
+
                     self.serialiseString(attr)
                     self.writeElement(value)
 
-- 
2.43.0


From 992ea863b13936594bd538710e6ee47df9044ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:50 +0000
Subject: [PATCH 019/114] fix: unknown AMF3 string, class and object references
 became None or an internal error

---
 pyamf/amf3.py | 43 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 0e80196..0340fb5 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -859,6 +859,32 @@ class Decoder(codec.Decoder):
 
         return (x >> 1, x & REFERENCE_BIT == 0)
 
+    def _getString(self, ref):
+        """
+        Returns the string previously read at C{ref}.
+
+        @raise pyamf.ReferenceError: Unknown reference
+        """
+        result = self.context.getString(ref)
+
+        if result is None:
+            raise pyamf.ReferenceError('Unknown string reference %d' % (ref,))
+
+        return result
+
+    def _getObject(self, ref):
+        """
+        Returns the object previously read at C{ref}.
+
+        @raise pyamf.ReferenceError: Unknown reference
+        """
+        result = self.context.getObject(ref)
+
+        if result is None:
+            raise pyamf.ReferenceError('Unknown reference %d' % (ref,))
+
+        return result
+
     def readBytes(self):
         """
         Reads and returns a utf-8 encoded byte array.
@@ -866,7 +892,7 @@ class Decoder(codec.Decoder):
         length, is_reference = self._readLength()
 
         if is_reference:
-            return self.context.getString(length)
+            return self._getString(length)
 
         if length == 0:
             return ''
@@ -883,7 +909,7 @@ class Decoder(codec.Decoder):
         length, is_reference = self._readLength()
 
         if is_reference:
-            result = self.context.getString(length)
+            result = self._getString(length)
 
             return self.context.getStringForBytes(result)
 
@@ -904,7 +930,7 @@ class Decoder(codec.Decoder):
         ref = self.readInteger(False)
 
         if ref & REFERENCE_BIT == 0:
-            return self.context.getObject(ref >> 1)
+            return self._getObject(ref >> 1)
 
         ms = self.stream.read_double()
         result = util.get_datetime(ms / 1000.0)
@@ -927,7 +953,7 @@ class Decoder(codec.Decoder):
         size = self.readInteger(False)
 
         if size & REFERENCE_BIT == 0:
-            return self.context.getObject(size >> 1)
+            return self._getObject(size >> 1)
 
         size >>= 1
 
@@ -966,6 +992,11 @@ class Decoder(codec.Decoder):
         if is_ref:
             class_def = self.context.getClassByReference(ref)
 
+            if class_def is None:
+                raise pyamf.ReferenceError(
+                    'Unknown class reference %d' % (ref,)
+                )
+
             return class_def
 
         name = self.readBytes()
@@ -1075,7 +1106,7 @@ class Decoder(codec.Decoder):
         ref = self.readInteger(False)
 
         if ref & REFERENCE_BIT == 0:
-            return self.context.getObject(ref >> 1)
+            return self._getObject(ref >> 1)
 
         xmlstring = self.stream.read(ref >> 1)
 
@@ -1109,7 +1140,7 @@ class Decoder(codec.Decoder):
         ref = self.readInteger(False)
 
         if ref & REFERENCE_BIT == 0:
-            return self.context.getObject(ref >> 1)
+            return self._getObject(ref >> 1)
 
         buffer = self.stream.read(ref >> 1)
         compressed = False
-- 
2.43.0


From 53c5477d1e68599e5310ad63717dcd564743dcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:45 +0000
Subject: [PATCH 020/114] fix: a negative key in an AMF3 mixed array made all
 its integer keys text

---
 pyamf/amf3.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 0340fb5..a009cca 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1408,17 +1408,15 @@ class Encoder(codec.Encoder):
             else:
                 raise ValueError("Non int/str key value found in dict")
 
-        int_keys.sort()
-
         # Only integer keys that run on from 0 are carried by their position,
         # any other will be treated as a string
         dense = 0
 
-        while dense < len(int_keys) and int_keys[dense] == dense:
+        while dense in n:
             dense += 1
 
-        str_keys.extend(int_keys[dense:])
-        del int_keys[dense:]
+        str_keys.extend([x for x in int_keys if not 0 <= x < dense])
+        int_keys = range(dense)
 
         self._writeInteger(len(int_keys) << 1 | REFERENCE_BIT)
 
-- 
2.43.0


From 7e1bee445b1dbd071098219b13888ce62d3d2eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:39 +0000
Subject: [PATCH 021/114] fix: running out of data at the start of a nested
 value did not restore the position

EOStream is not an IOError, so a value cut off just before one of its
elements left the stream in the middle of that value.
---
 pyamf/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/codec.py b/pyamf/codec.py
index d7b87f2..03ea579 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -393,7 +393,7 @@ class Decoder(_Codec):
 
         try:
             return func()
-        except IOError:
+        except (IOError, pyamf.EOStream):
             self.stream.seek(pos)
 
             raise
-- 
2.43.0


From c390a653785b38bb40d6f8233223f1afcc81748e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:39 +0000
Subject: [PATCH 022/114] fix: an AMF0 typed object with an empty class name
 escaped as ValueError, read it as anonymous

---
 pyamf/amf0.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 1eaf44f..a3ab65e 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -279,6 +279,10 @@ class Decoder(codec.Decoder):
         """
         class_alias = self.readString()
 
+        if not class_alias:
+            # an object without a class name is anonymous, as it is in AMF3
+            return self.readObject()
+
         try:
             alias = self.context.getClassAlias(class_alias)
         except pyamf.UnknownClassAlias:
-- 
2.43.0


From dced68972b8248bd9fe53bfbe00fdbc4f4eaa50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:01 +0000
Subject: [PATCH 023/114] fix: an externalised AMF3 object of a class that is
 not externalisable escaped as AttributeError

---
 pyamf/amf3.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index a009cca..7de054e 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1075,7 +1075,14 @@ class Decoder(codec.Decoder):
         if class_def.encoding in (
                 ObjectEncoding.EXTERNAL,
                 ObjectEncoding.PROXY):
-            obj.__readamf__(DataInput(self))
+            try:
+                readamf = obj.__readamf__
+            except AttributeError:
+                raise pyamf.DecodeError(
+                    'Unable to decode an externalised %r' % (
+                        class_def.alias,))
+
+            readamf(DataInput(self))
 
             if self.use_proxies is True:
                 obj = self.readProxy(obj)
-- 
2.43.0


From 004f0b93a47697ef761547af497d30845e19e659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:01 +0000
Subject: [PATCH 024/114] fix: an AMF0 array length beyond 2**31 escaped as
 OverflowError where integers have 32 bits

---
 pyamf/amf0.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index a3ab65e..bb854c0 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -265,8 +265,10 @@ class Decoder(codec.Decoder):
         self.context.addObject(obj)
         l = self.stream.read_ulong()
 
-        for i in xrange(l):
+        # the length may be more than xrange can take
+        while l > 0:
             obj.append(self.readElement())
+            l -= 1
 
         return obj
 
-- 
2.43.0


From ced992eb18157ea764c0a7a2b8d9a4f6a3703399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:34 +0000
Subject: [PATCH 025/114] fix: dates out of range, malformed XML and classes
 that cannot be instantiated escaped as internal errors of the decoder

They are refused with a decode error.  XML in AMF0 is handed to the parser
as the bytes received: as text, non-ASCII XML could not be parsed at all.
---
 pyamf/__init__.py |  6 ++++-
 pyamf/amf0.py     | 19 +++++-----------
 pyamf/amf3.py     | 15 ++++---------
 pyamf/codec.py    | 56 +++++++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 70 insertions(+), 26 deletions(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index 53c73a3..cd74503 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -418,7 +418,11 @@ def load_class(alias):
             pass
         else:
             if isinstance(klass, python.class_types):
-                return register_class(klass, alias)
+                try:
+                    return register_class(klass, alias)
+                except (AttributeError, TypeError):
+                    # a class that instances cannot be decoded for
+                    raise UnknownClassAlias("Unknown alias for %r" % (alias,))
             elif isinstance(klass, ClassAlias):
                 CLASS_CACHE[klass.alias] = klass
                 CLASS_CACHE[klass.klass] = klass
diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index bb854c0..a8dc1db 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -293,11 +293,11 @@ class Decoder(codec.Decoder):
 
             alias = pyamf.TypedObjectClassAlias(class_alias)
 
-        obj = alias.createInstance(codec=self)
+        obj = self.createInstance(alias)
         self.context.addObject(obj)
 
         attrs = self.readObjectAttributes(obj)
-        alias.applyAttributes(obj, attrs, codec=self)
+        self.applyAttributes(alias, obj, attrs)
 
         return obj
 
@@ -366,12 +366,7 @@ class Decoder(codec.Decoder):
         self.stream.read_short()  # tz
 
         # Timezones are ignored
-        d = util.get_datetime(ms)
-
-        if self.timezone_offset:
-            d = d + self.timezone_offset
-
-        return d
+        return self.readDateFromTimestamp(ms)
 
     def readLongString(self):
         """
@@ -387,12 +382,8 @@ class Decoder(codec.Decoder):
         """
         Read XML.
         """
-        data = self.readLongString()
-        root = xml.fromstring(
-            data,
-            forbid_dtd=self.context.forbid_dtd,
-            forbid_entities=self.context.forbid_entities,
-        )
+        l = self.stream.read_ulong()
+        root = self.parseXML(self.stream.read(l))
 
         self.context.addObject(root)
 
diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 7de054e..f1b25e1 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -933,10 +933,7 @@ class Decoder(codec.Decoder):
             return self._getObject(ref >> 1)
 
         ms = self.stream.read_double()
-        result = util.get_datetime(ms / 1000.0)
-
-        if self.timezone_offset is not None:
-            result += self.timezone_offset
+        result = self.readDateFromTimestamp(ms / 1000.0)
 
         self.context.addObject(result)
 
@@ -1067,7 +1064,7 @@ class Decoder(codec.Decoder):
         class_def = self._getClassDefinition(ref)
         alias = class_def.alias
 
-        obj = alias.createInstance(codec=self)
+        obj = self.createInstance(alias)
         obj_attrs = dict()
 
         self.context.addObject(obj)
@@ -1096,7 +1093,7 @@ class Decoder(codec.Decoder):
         else:
             raise pyamf.DecodeError("Unknown object encoding")
 
-        alias.applyAttributes(obj, obj_attrs, codec=self)
+        self.applyAttributes(alias, obj, obj_attrs)
 
         if self.use_proxies is True:
             obj = self.readProxy(obj)
@@ -1117,11 +1114,7 @@ class Decoder(codec.Decoder):
 
         xmlstring = self.stream.read(ref >> 1)
 
-        x = xml.fromstring(
-            xmlstring,
-            forbid_dtd=self.context.forbid_dtd,
-            forbid_entities=self.context.forbid_entities,
-        )
+        x = self.parseXML(xmlstring)
         self.context.addObject(x)
 
         return x
diff --git a/pyamf/codec.py b/pyamf/codec.py
index 03ea579..87910e4 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -366,6 +366,62 @@ class Decoder(_Codec):
 
         return payload
 
+    def createInstance(self, alias):
+        """
+        Creates an instance of the class of C{alias}.
+
+        @raise DecodeError: The class cannot be instantiated this way.
+        """
+        try:
+            return alias.createInstance(codec=self)
+        except (AttributeError, TypeError) as e:
+            raise pyamf.DecodeError('Unable to create an instance of %r: %s' % (
+                alias.klass, e))
+
+    def applyAttributes(self, alias, obj, attrs):
+        """
+        Applies the decoded C{attrs} to C{obj}.
+
+        @raise DecodeError: The object does not take these attributes.
+        """
+        try:
+            alias.applyAttributes(obj, attrs, codec=self)
+        except (AttributeError, TypeError) as e:
+            raise pyamf.DecodeError('Unable to apply attributes to %r: %s' % (
+                alias.klass, e))
+
+    def readDateFromTimestamp(self, secs):
+        """
+        The date for C{secs} with the timezone offset applied.
+
+        @raise DecodeError: The timestamp cannot be represented as a date.
+        """
+        try:
+            result = util.get_datetime(secs)
+
+            if self.timezone_offset is not None:
+                result += self.timezone_offset
+        except (ValueError, OverflowError):
+            raise pyamf.DecodeError('Date out of range: %r' % (secs,))
+
+        return result
+
+    def parseXML(self, data):
+        """
+        Parses C{data} with the restrictions of the context.
+
+        @raise DecodeError: The XML is malformed.
+        """
+        try:
+            return xml.fromstring(
+                data,
+                forbid_dtd=self.context.forbid_dtd,
+                forbid_entities=self.context.forbid_entities,
+            )
+        except SyntaxError as e:
+            # all etree libraries use a kind of SyntaxError for this
+            raise pyamf.DecodeError('Malformed XML: %s' % (e,))
+
     def _readElement(self):
         """
         Reads an AMF3 element from the data stream.
-- 
2.43.0


From e638f46179adf1c46ecd0ac74eee22ef9ad36d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:48 +0000
Subject: [PATCH 026/114] fix: unsigned 29 bit integers with the top bit set
 were doubled when decoded

---
 pyamf/amf3.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index f1b25e1..7d10855 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1662,12 +1662,8 @@ def decode_int(stream, signed=False):
         result <<= 8
         result |= b
 
-        if result & 0x10000000 != 0:
-            if signed:
-                result -= 0x20000000
-            else:
-                result <<= 1
-                result += 1
+        if signed and result & 0x10000000 != 0:
+            result -= 0x20000000
 
     return result
 
-- 
2.43.0


From 89611d00ddba3b2b149cec114c6f0663d92bfd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:37 +0000
Subject: [PATCH 027/114] fix: hostile content of Flex collections and messages
 escaped as TypeError or ValueError

---
 pyamf/flex/__init__.py  | 10 +++++-----
 pyamf/flex/messaging.py | 11 +++++++++--
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/pyamf/flex/__init__.py b/pyamf/flex/__init__.py
index e934be0..c6a78d5 100644
--- a/pyamf/flex/__init__.py
+++ b/pyamf/flex/__init__.py
@@ -56,11 +56,11 @@ class ArrayCollection(list):
 
         if hasattr(data, 'source'):
             data = data.source
-        else:
-            if not hasattr(data, '__iter__'):
-                raise pyamf.DecodeError(
-                    'Unable to read a list when decoding ArrayCollection'
-                )
+
+        if not hasattr(data, '__iter__'):
+            raise pyamf.DecodeError(
+                'Unable to read a list when decoding ArrayCollection'
+            )
 
         self.extend(data)
 
diff --git a/pyamf/flex/messaging.py b/pyamf/flex/messaging.py
index 67b3093..9c3038e 100644
--- a/pyamf/flex/messaging.py
+++ b/pyamf/flex/messaging.py
@@ -133,7 +133,11 @@ class AbstractMessage(object):
         obj = input.readObject()
 
         if attr in ['timestamp', 'timeToLive']:
-            return pyamf.util.get_datetime(obj / 1000.0)
+            try:
+                return pyamf.util.get_datetime(obj / 1000.0)
+            except (OverflowError, TypeError, ValueError):
+                raise pyamf.DecodeError('Invalid %s, got %r' % (
+                    attr, type(obj)))
 
         return obj
 
@@ -570,7 +574,10 @@ def decode_uuid(obj):
 
     @since: 0.5
     """
-    return uuid.UUID(bytes=str(obj))
+    try:
+        return uuid.UUID(bytes=str(obj))
+    except (TypeError, ValueError):
+        raise pyamf.DecodeError('Invalid UUID, got %r' % (type(obj),))
 
 
 pyamf.register_package(globals(), package=NAMESPACE)
-- 
2.43.0


From 146607db68485059e8adb9fcd0dffa11450438c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:23 +0000
Subject: [PATCH 028/114] fix: a value cut off by the end of the data left its
 objects, strings and classes in the reference tables

When the rest arrived and the value was read again, every later reference
pointed to something else.
---
 pyamf/amf0.py  | 18 ++++++++++++++++++
 pyamf/amf3.py  | 14 ++++++++++++++
 pyamf/codec.py | 35 +++++++++++++++++++++++++++++++++++
 3 files changed, 67 insertions(+)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index a8dc1db..75ee092 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -107,6 +107,24 @@ class Context(codec.Context):
         if decoder:
             decoder.context.clear()
 
+    def mark(self):
+        decoder = self.extra.get('amf3_decoder', None)
+
+        return (codec.Context.mark(self), decoder and decoder.context.mark())
+
+    def rollback(self, mark):
+        objects, amf3 = mark
+
+        codec.Context.rollback(self, objects)
+
+        decoder = self.extra.get('amf3_decoder', None)
+
+        if decoder:
+            if amf3 is None:
+                decoder.context.clear()
+            else:
+                decoder.context.rollback(amf3)
+
     def getAMF3Encoder(self, amf0_encoder):
         encoder = self.extra.get('amf3_encoder', None)
 
diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 7d10855..0e7a177 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -629,6 +629,20 @@ class Context(codec.Context):
 
         self.class_idx = 0
 
+    def mark(self):
+        return (codec.Context.mark(self), len(self.strings), self.class_idx)
+
+    def rollback(self, mark):
+        objects, strings, class_idx = mark
+
+        codec.Context.rollback(self, objects)
+        self.strings.truncate(strings)
+
+        while self.class_idx > class_idx:
+            self.class_idx -= 1
+
+            del self.class_ref[self.class_idx]
+
     def getString(self, ref):
         """
         Gets a string based on a reference C{ref}.
diff --git a/pyamf/codec.py b/pyamf/codec.py
index 87910e4..e175331 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -92,6 +92,20 @@ class IndexedCollection(object):
 
         return idx
 
+    def truncate(self, size):
+        """
+        Forgets everything but the first C{size} objects.
+        """
+        if size == len(self.list):
+            return
+
+        objects = self.list[:size]
+
+        self.clear()
+
+        for obj in objects:
+            self.append(obj)
+
     def __eq__(self, other):
         if isinstance(other, list):
             return self.list == other
@@ -183,6 +197,18 @@ class Context(object):
         self._unicodes = {}
         self.extra = {}
 
+    def mark(self):
+        """
+        What C{rollback} needs to forget everything added from here on.
+        """
+        return len(self._objects)
+
+    def rollback(self, mark):
+        """
+        Forgets the objects that were added since C{mark} was taken.
+        """
+        self._objects.truncate(mark)
+
     def getObject(self, ref):
         """
         Gets an object based on a reference.
@@ -461,10 +487,19 @@ class Decoder(_Codec):
         @raise DecodeError: The ActionScript type is unsupported.
         @raise EOStream: No more data left to decode.
         """
+        if self.__depth == 0:
+            mark = self.context.mark()
+
         self.__depth += 1
 
         try:
             element = self._readElement()
+        except (IOError, pyamf.EOStream):
+            if self.__depth == 1:
+                # the whole element will be read again
+                self.context.rollback(mark)
+
+            raise
         finally:
             self.__depth -= 1
 
-- 
2.43.0


From f490e5cb35fc40423c1618d349d8a71e830b0350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:45 +0000
Subject: [PATCH 029/114] fix: timestamps before 1970 with microseconds were up
 to two seconds wrong

---
 pyamf/util/__init__.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyamf/util/__init__.py b/pyamf/util/__init__.py
index 5bb4105..345cfdb 100644
--- a/pyamf/util/__init__.py
+++ b/pyamf/util/__init__.py
@@ -51,9 +51,7 @@ def get_timestamp(d):
     if isinstance(d, datetime.date) and not isinstance(d, datetime.datetime):
         d = datetime.datetime.combine(d, datetime.time(0, 0, 0, 0))
 
-    msec = str(d.microsecond).rjust(6).replace(' ', '0')
-
-    return float('%s.%s' % (calendar.timegm(d.utctimetuple()), msec))
+    return calendar.timegm(d.utctimetuple()) + d.microsecond / 1000000.0
 
 
 def get_datetime(secs):
-- 
2.43.0


From 3f3f6a955c303e1124379fe5b97f8fc3f8389302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:03 +0000
Subject: [PATCH 030/114] fix: the timezone offset was applied to plain dates
 without its hours

---
 pyamf/amf0.py | 4 ++++
 pyamf/amf3.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 75ee092..922307f 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -656,6 +656,10 @@ class Encoder(codec.Encoder):
         # According to the Red5 implementation of AMF0, dates references are
         # created, but not used.
         if self.timezone_offset is not None:
+            if not isinstance(d, datetime.datetime):
+                # subtracting from a date would lose the hours of the offset
+                d = datetime.datetime.combine(d, datetime.time())
+
             d -= self.timezone_offset
 
         secs = util.get_timestamp(d)
diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 0e7a177..2c64b42 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1345,6 +1345,10 @@ class Encoder(codec.Encoder):
         self.stream.write_uchar(REFERENCE_BIT)
 
         if self.timezone_offset is not None:
+            if not isinstance(n, datetime.datetime):
+                # subtracting from a date would lose the hours of the offset
+                n = datetime.datetime.combine(n, datetime.time())
+
             n -= self.timezone_offset
 
         ms = util.get_timestamp(n)
-- 
2.43.0


From d0a262b1e9193699602c1ee237f3f13cb360f6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:30 +0000
Subject: [PATCH 031/114] fix: lengths of non-ASCII header names and response
 ids counted characters, not bytes

---
 pyamf/remoting/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index f683b58..c4a6306 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -411,6 +411,9 @@ def _write_header(name, header, required, stream, encoder, strict=False):
         the correct header length after writing the header.
     @type strict: C{boolean}
     """
+    if isinstance(name, unicode):
+        name = name.encode('utf8')
+
     stream.write_ushort(len(name))
     stream.write_utf8_string(name)
 
@@ -542,6 +545,9 @@ def _write_body(name, message, stream, encoder, strict=False):
     if isinstance(message, Request):
         response = name
 
+        if isinstance(response, unicode):
+            response = response.encode('utf8')
+
     stream.write_ushort(len(response))
     stream.write_utf8_string(response)
 
-- 
2.43.0


From 4a1583b9e49742c5b65036576b7d4202b0ddd1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:30 +0000
Subject: [PATCH 032/114] fix: the number of bodies of an envelope is unsigned

---
 pyamf/remoting/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index c4a6306..2ef7683 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -663,7 +663,7 @@ def decode(stream, strict=False, logger=None, timezone_offset=None,
         if required:
             msg.headers.set_required(name)
 
-    body_count = stream.read_short()
+    body_count = stream.read_ushort()
 
     for i in xrange(body_count):
         context.clear()
@@ -722,7 +722,7 @@ def encode(msg, strict=False, logger=None, timezone_offset=None, **kwargs):
             strict,
         )
 
-    stream.write_short(len(msg))
+    stream.write_ushort(len(msg))
 
     for name, message in msg.iteritems():
         encoder.context.clear()
-- 
2.43.0


From beb0c5fff872123cf3dae38653722c2d4dd5964c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:30 +0000
Subject: [PATCH 033/114] fix: a response id ending in a status suffix lost
 that suffix and changed the status

---
 pyamf/remoting/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index 2ef7683..7fe79b1 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -479,6 +479,8 @@ def _read_body(stream, decoder, strict=False, logger=None):
         status = code
         target = target[:0 - len(s)]
 
+        break
+
     data_len = stream.read_ulong()
     pos = stream.tell()
 
-- 
2.43.0


From 4d1967e94b3fb329260bcae2ef034f2634de7c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:30 +0000
Subject: [PATCH 034/114] fix: HeaderCollection.set_required could not make a
 header optional again

---
 pyamf/remoting/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index 7fe79b1..259651e 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -102,8 +102,11 @@ class HeaderCollection(dict):
         if idx not in self:
             raise KeyError("Unknown header %s" % str(idx))
 
-        if idx not in self.required and value:
-            self.required.append(idx)
+        if value:
+            if idx not in self.required:
+                self.required.append(idx)
+        elif idx in self.required:
+            self.required.remove(idx)
 
     def __len__(self):
         return len(self.keys())
-- 
2.43.0


From 2b4959e0f12ca2fc6595371d7d06e71a135b954f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:31 +0000
Subject: [PATCH 035/114] fix: bytes after a strictly decoded envelope escaped
 as RuntimeError

---
 pyamf/remoting/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index 259651e..f57ead7 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -677,7 +677,7 @@ def decode(stream, strict=False, logger=None, timezone_offset=None,
         msg[target] = payload
 
     if strict and stream.remaining() > 0:
-        raise RuntimeError("Unable to fully consume the buffer")
+        raise pyamf.DecodeError("Unable to fully consume the buffer")
 
     return msg
 
-- 
2.43.0


From 15e3fea3c1898e88f6f13a9a673481026616510e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:45 +0000
Subject: [PATCH 036/114] fix: fault attributes named self or with non-ASCII
 names escaped as TypeError or ValueError

---
 pyamf/remoting/__init__.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index f57ead7..a3c5e27 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -604,11 +604,10 @@ def get_fault(data):
 
     e = {}
 
-    for x, y in data.iteritems():
-        if isinstance(x, unicode):
-            e[str(x)] = y
-        else:
-            e[x] = y
+    # anything else the fault has is of no use to its constructor
+    for x in ('code', 'type', 'details', 'description'):
+        if x in data:
+            e[x] = data[x]
 
     return get_fault_class(level, **e)(**e)
 
-- 
2.43.0


From 0eaa2b756dd9f430f3e6eab5c49c8bedd0b1a262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:45 +0000
Subject: [PATCH 037/114] fix: a request body of more than 2**31 arguments, or
 of none at all, escaped as internal error

---
 pyamf/remoting/__init__.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index a3c5e27..1aeb3fe 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -458,7 +458,13 @@ def _read_body(stream, decoder, strict=False, logger=None):
                 raise pyamf.DecodeError(
                     "Unexpected AMF3 type with incorrect message type")
 
-            return decoder.readElement()
+            args = decoder.readElement()
+
+            if not isinstance(args, list):
+                raise pyamf.DecodeError(
+                    "Array type required for request body")
+
+            return args
 
         if type_byte != '\x0a':
             raise pyamf.DecodeError("Array type required for request body")
@@ -466,7 +472,14 @@ def _read_body(stream, decoder, strict=False, logger=None):
         stream.read(1)
         x = stream.read_ulong()
 
-        return [decoder.readElement() for i in xrange(x)]
+        args = []
+
+        # the length may be more than xrange can take
+        while x > 0:
+            args.append(decoder.readElement())
+            x -= 1
+
+        return args
 
     target = stream.read_utf8_string(stream.read_ushort())
     response = stream.read_utf8_string(stream.read_ushort())
-- 
2.43.0


From b0c41cd3cf144a1f5c1868516c2817b5dcf805e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 038/114] fix: the headers of an envelope shared reference
 tables, which start afresh for each of them

---
 pyamf/remoting/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index 1aeb3fe..41fe0ff 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -674,6 +674,8 @@ def decode(stream, strict=False, logger=None, timezone_offset=None,
     header_count = stream.read_ushort()
 
     for i in xrange(header_count):
+        context.clear()
+
         name, required, data = _read_header(stream, decoder, strict)
         msg.headers[name] = data
 
@@ -730,6 +732,8 @@ def encode(msg, strict=False, logger=None, timezone_offset=None, **kwargs):
     stream.write_ushort(len(msg.headers))
 
     for name, header in msg.headers.iteritems():
+        encoder.context.clear()
+
         _write_header(
             name,
             header,
-- 
2.43.0


From ec7fa0ca237ca662834b1d255fd3f613ce2203f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:19 +0000
Subject: [PATCH 039/114] fix: non-ASCII method names and targets that are no
 text were answered with internal errors

---
 pyamf/remoting/gateway/__init__.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyamf/remoting/gateway/__init__.py b/pyamf/remoting/gateway/__init__.py
index b5e32aa..189e01e 100644
--- a/pyamf/remoting/gateway/__init__.py
+++ b/pyamf/remoting/gateway/__init__.py
@@ -91,7 +91,11 @@ class ServiceWrapper(object):
             service = self.service
 
         if method is not None:
-            method = str(method)
+            try:
+                method = str(method)
+            except UnicodeError:
+                raise UnknownServiceMethodError(
+                    "Unknown method %r" % (method,))
 
             if method.startswith('_'):
                 raise InvalidServiceMethodError(
@@ -380,6 +384,9 @@ class BaseGateway(object):
         @type request: L{Request<pyamf.remoting.Request>}
         @rtype: L{ServiceRequest}
         """
+        if not isinstance(target, basestring):
+            raise UnknownServiceError("Unknown service %r" % (target,))
+
         try:
             return self._request_class(
                 request.envelope, self.services[target], None)
-- 
2.43.0


From edb20c8d578382b99ff3c87f4445024b15920460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:19 +0000
Subject: [PATCH 040/114] fix: settings attached to the __call__ method of a
 service were ignored

---
 pyamf/remoting/gateway/__init__.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pyamf/remoting/gateway/__init__.py b/pyamf/remoting/gateway/__init__.py
index 189e01e..5a04cf0 100644
--- a/pyamf/remoting/gateway/__init__.py
+++ b/pyamf/remoting/gateway/__init__.py
@@ -160,8 +160,9 @@ class ServiceWrapper(object):
         methods = self.getMethods()
 
         if service_request.method is None:
-            if hasattr(self.service, '_pyamf_authenticator'):
-                return self.service._pyamf_authenticator
+            for func in (self.service, getattr(self.service, '__call__', None)):
+                if hasattr(func, '_pyamf_authenticator'):
+                    return func._pyamf_authenticator
 
         if service_request.method not in methods:
             return self.authenticator
@@ -180,8 +181,9 @@ class ServiceWrapper(object):
         methods = self.getMethods()
 
         if service_request.method is None:
-            if hasattr(self.service, '_pyamf_expose_request'):
-                return self.service._pyamf_expose_request
+            for func in (self.service, getattr(self.service, '__call__', None)):
+                if hasattr(func, '_pyamf_expose_request'):
+                    return func._pyamf_expose_request
 
             return self.expose_request
 
@@ -202,8 +204,9 @@ class ServiceWrapper(object):
         methods = self.getMethods()
 
         if service_request.method is None:
-            if hasattr(self.service, '_pyamf_preprocessor'):
-                return self.service._pyamf_preprocessor
+            for func in (self.service, getattr(self.service, '__call__', None)):
+                if hasattr(func, '_pyamf_preprocessor'):
+                    return func._pyamf_preprocessor
 
         if service_request.method not in methods:
             return self.preprocessor
-- 
2.43.0


From 0f15202be7b4f0bb4ac02ac435106628806e5b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:19 +0000
Subject: [PATCH 041/114] fix: an exception whose text is not ASCII failed all
 requests of the batch

---
 pyamf/python.py        | 15 +++++++++++++++
 pyamf/remoting/amf0.py |  4 ++--
 pyamf/remoting/amf3.py |  6 +++---
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/pyamf/python.py b/pyamf/python.py
index 198e526..d24c9d0 100644
--- a/pyamf/python.py
+++ b/pyamf/python.py
@@ -47,6 +47,21 @@ NegInf = -1e300000
 NaN = PosInf / PosInf
 
 
+def to_text(value):
+    """
+    C{value} as C{unicode}, whatever its string conversion does.
+    """
+    try:
+        return unicode(value)
+    except Exception:
+        pass
+
+    try:
+        return str(value).decode('utf-8', 'replace')
+    except Exception:
+        return u'<unprintable %s object>' % (type(value).__name__,)
+
+
 def isNaN(val):
     """
     @since: 0.5
diff --git a/pyamf/remoting/amf0.py b/pyamf/remoting/amf0.py
index 8ccf49d..ee30e7c 100644
--- a/pyamf/remoting/amf0.py
+++ b/pyamf/remoting/amf0.py
@@ -10,7 +10,7 @@ AMF0 Remoting support.
 import traceback
 import sys
 
-from pyamf import remoting
+from pyamf import remoting, python
 from pyamf.remoting import gateway
 
 
@@ -186,6 +186,6 @@ def build_fault(cls, e, tb, include_traceback=False):
 
     return remoting.ErrorFault(
         code=code,
-        description=unicode(e),
+        description=python.to_text(e),
         details=details
     )
diff --git a/pyamf/remoting/amf3.py b/pyamf/remoting/amf3.py
index ff26949..4e45634 100644
--- a/pyamf/remoting/amf3.py
+++ b/pyamf/remoting/amf3.py
@@ -77,13 +77,13 @@ def generate_error(request, cls, e, tb, include_traceback=False):
     faultString = None
 
     if hasattr(e, 'message'):
-        faultString = unicode(e.message)
+        faultString = pyamf.python.to_text(e.message)
     elif hasattr(e, 'args') and e.args:
         if isinstance(e.args[0], pyamf.python.str_types):
-            faultString = unicode(e.args[0])
+            faultString = pyamf.python.to_text(e.args[0])
 
     if details:
-        faultDetail = unicode(details)
+        faultDetail = pyamf.python.to_text(details)
 
     return messaging.ErrorMessage(
         messageId=generate_random_id(),
-- 
2.43.0


From 8dd4611b020a7b3ed21880493b6f1b3780c58bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:19 +0000
Subject: [PATCH 042/114] fix: a RemoteObject request without a message, or
 with headers that are no object, failed the whole batch

---
 pyamf/remoting/amf3.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pyamf/remoting/amf3.py b/pyamf/remoting/amf3.py
index 4e45634..ed8d0c7 100644
--- a/pyamf/remoting/amf3.py
+++ b/pyamf/remoting/amf3.py
@@ -89,7 +89,7 @@ def generate_error(request, cls, e, tb, include_traceback=False):
         messageId=generate_random_id(),
         clientId=generate_random_id(),
         timestamp=calendar.timegm(time.gmtime()),
-        correlationId=request.messageId,
+        correlationId=getattr(request, 'messageId', None),
         faultCode=code,
         faultString=faultString,
         faultDetail=faultDetail,
@@ -147,7 +147,7 @@ class RequestProcessor(object):
                 **kwargs
             )
         else:
-            raise ServerCallFailed("Unknown request: %s" % ro_request)
+            raise ServerCallFailed("Unknown request: %s" % (ro_request,))
 
     def _processCommandMessage(self, amf_request, ro_request, **kwargs):
         """
@@ -213,7 +213,10 @@ class RequestProcessor(object):
         @return: The response to the request.
         @rtype: L{Response<pyamf.remoting.Response>}
         """
-        ro_request = amf_request.body[0]
+        ro_request = None
+
+        if amf_request.body:
+            ro_request = amf_request.body[0]
 
         try:
             body = self._getBody(amf_request, ro_request, **kwargs)
@@ -234,7 +237,11 @@ class RequestProcessor(object):
 
         ro_response = body.body
 
-        dsid = ro_request.headers.get('DSId', None)
+        headers = getattr(ro_request, 'headers', None)
+        dsid = None
+
+        if isinstance(headers, dict):
+            dsid = headers.get('DSId', None)
 
         if not dsid or dsid == 'nil':
             dsid = generate_random_id()
@@ -248,9 +255,9 @@ def get_service_name(ro_request):
     """
     Returns the full service name of a RemoteObject request.
     """
-    service_name = ro_request.operation
+    service_name = getattr(ro_request, 'operation', None)
 
-    if hasattr(ro_request, 'destination') and ro_request.destination:
+    if getattr(ro_request, 'destination', None):
         service_name = '%s.%s' % (ro_request.destination, service_name)
 
     return service_name
-- 
2.43.0


From eac0d5eb961e400318084960aec2ad836ef3cf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:19 +0000
Subject: [PATCH 043/114] fix: authenticators were never asked about
 RemoteObject requests

---
 pyamf/remoting/amf3.py | 46 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/pyamf/remoting/amf3.py b/pyamf/remoting/amf3.py
index ed8d0c7..fe656c4 100644
--- a/pyamf/remoting/amf3.py
+++ b/pyamf/remoting/amf3.py
@@ -11,6 +11,7 @@ AMF3 RemoteObject support.
 @since: 0.1
 """
 
+import base64
 import calendar
 import time
 import uuid
@@ -34,6 +35,14 @@ class ServerCallFailed(BaseServerError):
     _amf_code = 'Server.Call.Failed'
 
 
+class AuthenticationError(BaseServerError):
+    """
+    The authenticator of the service did not accept the credentials.
+    """
+
+    _amf_code = 'AuthenticationError'
+
+
 def generate_random_id():
     return str(uuid.uuid4())
 
@@ -108,6 +117,39 @@ class RequestProcessor(object):
 
         return self.gateway.logger
 
+    def authenticateRequest(self, amf_request, ro_request, service_request,
+                            **kwargs):
+        """
+        Authenticates the request with the credentials of the AMF packet, or
+        those the client set with C{RemoteObject.setRemoteCredentials}.
+
+        @return: Whether the request may be served.
+        @rtype: C{bool}
+        """
+        username = password = None
+        packet_headers = getattr(amf_request.envelope, 'headers', {})
+        headers = ro_request.headers or {}
+
+        if 'Credentials' in packet_headers:
+            cred = packet_headers['Credentials']
+
+            username = cred['userid']
+            password = cred['password']
+        elif headers.get(ro_request.REMOTE_CREDENTIALS_HEADER):
+            cred = base64.b64decode(
+                headers[ro_request.REMOTE_CREDENTIALS_HEADER])
+            charset = headers.get('DSRemoteCredentialsCharset')
+
+            cred = cred.decode(charset == 'UTF-8' and 'utf-8' or 'iso-8859-1')
+            username, _, password = cred.partition(':')
+
+        return self.gateway.authenticateRequest(
+            service_request,
+            username,
+            password,
+            **kwargs
+        )
+
     def buildErrorResponse(self, request, error=None):
         """
         Builds an error response.
@@ -188,6 +230,10 @@ class RequestProcessor(object):
             service_name
         )
 
+        if not self.authenticateRequest(
+                amf_request, ro_request, service_request, **kwargs):
+            raise AuthenticationError('Authentication failed')
+
         # fire the preprocessor (if there is one)
         self.gateway.preprocessRequest(
             service_request,
-- 
2.43.0


From dfdaad41b842468dbb22ca2f2ba36a502dfe135a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 044/114] fix: truncated bodies, unknown references and classes
 and invalid text were answered with 500, not 400

---
 pyamf/remoting/__init__.py       | 4 ++++
 pyamf/remoting/gateway/django.py | 2 +-
 pyamf/remoting/gateway/google.py | 4 ++--
 pyamf/remoting/gateway/wsgi.py   | 3 +--
 4 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index 41fe0ff..ad8e0c4 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -50,6 +50,10 @@ STATUS_CODES = {
 CONTENT_TYPE = 'application/x-amf'
 
 ERROR_CALL_FAILED, = range(1)
+#: What L{decode} raises for data that is no valid envelope: besides the errors
+#: of PyAMF, those of invalid text and of forbidden XML are C{ValueError}s.
+DECODE_ERRORS = (pyamf.BaseError, pyamf.UnknownClassAlias, IOError, ValueError)
+
 ERROR_CODES = {
     ERROR_CALL_FAILED: 'Server.Call.Failed'
 }
diff --git a/pyamf/remoting/gateway/django.py b/pyamf/remoting/gateway/django.py
index 42e4788..bed6b82 100644
--- a/pyamf/remoting/gateway/django.py
+++ b/pyamf/remoting/gateway/django.py
@@ -108,7 +108,7 @@ class DjangoGateway(gateway.BaseGateway):
                 logger=self.logger,
                 timezone_offset=timezone_offset
             )
-        except (pyamf.DecodeError, IOError):
+        except remoting.DECODE_ERRORS:
             if self.logger:
                 self.logger.exception('Error decoding AMF request')
 
diff --git a/pyamf/remoting/gateway/google.py b/pyamf/remoting/gateway/google.py
index b63c494..458791c 100644
--- a/pyamf/remoting/gateway/google.py
+++ b/pyamf/remoting/gateway/google.py
@@ -15,7 +15,7 @@ applications to AMF clients and servers.
 import sys
 import os.path
 
-from pyamf import remoting, DecodeError
+from pyamf import remoting
 from pyamf.remoting import gateway
 
 try:
@@ -81,7 +81,7 @@ class WebAppGateway(webapp.RequestHandler, gateway.BaseGateway):
                 logger=self.logger,
                 timezone_offset=timezone_offset
             )
-        except (DecodeError, IOError):
+        except remoting.DECODE_ERRORS:
             if self.logger:
                 self.logger.exception('Error decoding AMF request')
 
diff --git a/pyamf/remoting/gateway/wsgi.py b/pyamf/remoting/gateway/wsgi.py
index d5d7d6f..3fffbb6 100644
--- a/pyamf/remoting/gateway/wsgi.py
+++ b/pyamf/remoting/gateway/wsgi.py
@@ -22,7 +22,6 @@ of view.
 @since: 0.1.0
 """
 
-import pyamf
 from pyamf import remoting
 from pyamf.remoting import gateway
 
@@ -87,7 +86,7 @@ class WSGIGateway(gateway.BaseGateway):
                 logger=self.logger,
                 timezone_offset=timezone_offset
             )
-        except (pyamf.DecodeError, IOError):
+        except remoting.DECODE_ERRORS:
             if self.logger:
                 self.logger.exception('Error decoding AMF request')
 
-- 
2.43.0


From 1f208818aa308cb25bd7a9419b9dd7d8194efbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 045/114] fix: a POST request without a content length escaped
 the WSGI gateway as KeyError

---
 pyamf/remoting/gateway/wsgi.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyamf/remoting/gateway/wsgi.py b/pyamf/remoting/gateway/wsgi.py
index 3fffbb6..9ea0d5f 100644
--- a/pyamf/remoting/gateway/wsgi.py
+++ b/pyamf/remoting/gateway/wsgi.py
@@ -74,7 +74,12 @@ class WSGIGateway(gateway.BaseGateway):
         if environ['REQUEST_METHOD'] != 'POST':
             return self.badRequestMethod(environ, start_response)
 
-        body = environ['wsgi.input'].read(int(environ['CONTENT_LENGTH']))
+        try:
+            length = int(environ.get('CONTENT_LENGTH') or 0)
+        except ValueError:
+            length = 0
+
+        body = environ['wsgi.input'].read(length)
         stream = None
         timezone_offset = self._get_timezone_offset()
 
-- 
2.43.0


From 47c2b227d48c84e9d5d1dc2e91925ec3a7493dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:28 +0000
Subject: [PATCH 046/114] fix: an exception whose text is not ASCII could not
 be encoded

---
 pyamf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index cd74503..e245c45 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -239,7 +239,7 @@ class ErrorAlias(ClassAlias):
     def getEncodableAttributes(self, obj, **kwargs):
         attrs = ClassAlias.getEncodableAttributes(self, obj, **kwargs)
 
-        attrs['message'] = unicode(obj)
+        attrs['message'] = python.to_text(obj)
         attrs['name'] = obj.__class__.__name__
 
         return attrs
-- 
2.43.0


From b215e9cb76608c8f5c63fab6c725f205cd008d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:00 +0000
Subject: [PATCH 047/114] fix: with debugging on, a traceback with text that is
 not UTF-8 made the whole answer undecodable

---
 pyamf/remoting/amf0.py | 5 ++++-
 pyamf/remoting/amf3.py | 8 ++------
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/pyamf/remoting/amf0.py b/pyamf/remoting/amf0.py
index ee30e7c..4de74bb 100644
--- a/pyamf/remoting/amf0.py
+++ b/pyamf/remoting/amf0.py
@@ -182,7 +182,10 @@ def build_fault(cls, e, tb, include_traceback=False):
     details = None
 
     if include_traceback:
-        details = traceback.format_exception(cls, e, tb)
+        details = [
+            python.to_text(line)
+            for line in traceback.format_exception(cls, e, tb)
+        ]
 
     return remoting.ErrorFault(
         code=code,
diff --git a/pyamf/remoting/amf3.py b/pyamf/remoting/amf3.py
index fe656c4..4c184a5 100644
--- a/pyamf/remoting/amf3.py
+++ b/pyamf/remoting/amf3.py
@@ -80,9 +80,8 @@ def generate_error(request, cls, e, tb, include_traceback=False):
 
         traceback.print_exception(cls, e, tb, file=buffer)
 
-        details = buffer.getvalue()
+        details = pyamf.python.to_text(buffer.getvalue())
 
-    faultDetail = None
     faultString = None
 
     if hasattr(e, 'message'):
@@ -91,9 +90,6 @@ def generate_error(request, cls, e, tb, include_traceback=False):
         if isinstance(e.args[0], pyamf.python.str_types):
             faultString = pyamf.python.to_text(e.args[0])
 
-    if details:
-        faultDetail = pyamf.python.to_text(details)
-
     return messaging.ErrorMessage(
         messageId=generate_random_id(),
         clientId=generate_random_id(),
@@ -101,7 +97,7 @@ def generate_error(request, cls, e, tb, include_traceback=False):
         correlationId=getattr(request, 'messageId', None),
         faultCode=code,
         faultString=faultString,
-        faultDetail=faultDetail,
+        faultDetail=details,
         extendedData=details,
         rootCause=rootCause)
 
-- 
2.43.0


From 1f62b0509e0b24eb781b0d3a2aad901a416f6aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:11 +0000
Subject: [PATCH 048/114] fix: an exception with attributes that cannot be sent
 failed all requests of the batch

---
 pyamf/remoting/amf3.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pyamf/remoting/amf3.py b/pyamf/remoting/amf3.py
index 4c184a5..1b5d682 100644
--- a/pyamf/remoting/amf3.py
+++ b/pyamf/remoting/amf3.py
@@ -89,6 +89,8 @@ def generate_error(request, cls, e, tb, include_traceback=False):
     elif hasattr(e, 'args') and e.args:
         if isinstance(e.args[0], pyamf.python.str_types):
             faultString = pyamf.python.to_text(e.args[0])
+    else:
+        faultString = pyamf.python.to_text(e)
 
     return messaging.ErrorMessage(
         messageId=generate_random_id(),
@@ -160,7 +162,18 @@ class RequestProcessor(object):
         else:
             cls, e, tb = sys.exc_info()
 
-        return generate_error(request, cls, e, tb, self.gateway.debug)
+        fault = generate_error(request, cls, e, tb, self.gateway.debug)
+
+        try:
+            # an exception that cannot be sent must not take the answers to
+            # the other requests with it
+            list(pyamf.decode(pyamf.encode(
+                e, encoding=pyamf.AMF3, strict=self.gateway.strict
+            ), encoding=pyamf.AMF3))
+        except Exception:
+            fault.rootCause = None
+
+        return fault
 
     def _getBody(self, amf_request, ro_request, **kwargs):
         """
-- 
2.43.0


From 0d804033c69b8ab367075aec82673298e9ffa555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:43 +0000
Subject: [PATCH 049/114] fix: removing a request that is not pending raised
 ValueError, not the documented LookupError

---
 pyamf/remoting/client/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyamf/remoting/client/__init__.py b/pyamf/remoting/client/__init__.py
index 283b955..eee006c 100644
--- a/pyamf/remoting/client/__init__.py
+++ b/pyamf/remoting/client/__init__.py
@@ -328,6 +328,9 @@ class RemotingService(object):
         @raise LookupError: Request not found.
         """
         if isinstance(service, RequestWrapper):
+            if service not in self.requests:
+                raise LookupError("Request not found")
+
             if self.logger:
                 self.logger.debug(
                     'Removing request: %s',
-- 
2.43.0


From 23ebd1b523b14923765899c34edc392faab46c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:43 +0000
Subject: [PATCH 050/114] fix: a response without a content type failed with
 AttributeError, not RemotingError

---
 pyamf/remoting/client/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyamf/remoting/client/__init__.py b/pyamf/remoting/client/__init__.py
index eee006c..0ebb57b 100644
--- a/pyamf/remoting/client/__init__.py
+++ b/pyamf/remoting/client/__init__.py
@@ -468,7 +468,9 @@ class RemotingService(object):
             self.logger.debug('Content-Length: %r', content_length)
             self.logger.debug('Server: %r', server)
 
-        if content_type.split(';')[0].strip() != remoting.CONTENT_TYPE:
+        mime_type = (content_type or '').split(';')[0].strip()
+
+        if mime_type != remoting.CONTENT_TYPE:
             if self.logger:
                 self.logger.debug('Body = %s', fbh.read())
 
-- 
2.43.0


From 1f46ecb0c0c971622a87d80a2c00eb10d16eb342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:55 +0000
Subject: [PATCH 051/114] fix: an answer without a response to the request
 failed with KeyError, not RemotingError

---
 pyamf/remoting/client/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyamf/remoting/client/__init__.py b/pyamf/remoting/client/__init__.py
index 0ebb57b..0844f25 100644
--- a/pyamf/remoting/client/__init__.py
+++ b/pyamf/remoting/client/__init__.py
@@ -411,6 +411,10 @@ class RemotingService(object):
 
         envelope = self._getResponse(http_request)
 
+        if request.id not in envelope:
+            raise remoting.RemotingError(
+                'Request %s was not answered' % (request.id,))
+
         return envelope[request.id]
 
     def execute(self):
-- 
2.43.0


From a11a16d41cd99c4f2803ccbb5b0379988931b394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:55 +0000
Subject: [PATCH 052/114] fix: credentials given as text that is not ASCII were
 refused

---
 pyamf/remoting/client/__init__.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyamf/remoting/client/__init__.py b/pyamf/remoting/client/__init__.py
index 0844f25..e35f63c 100644
--- a/pyamf/remoting/client/__init__.py
+++ b/pyamf/remoting/client/__init__.py
@@ -527,11 +527,14 @@ class RemotingService(object):
         """
         Sets authentication credentials for accessing the remote gateway.
         """
+        if not isinstance(username, unicode):
+            username = username.decode('utf-8')
+
+        if not isinstance(password, unicode):
+            password = password.decode('utf-8')
+
         self.addHeader(
             'Credentials',
-            dict(
-                userid=username.decode('utf-8'),
-                password=password.decode('utf-8')
-            ),
+            dict(userid=username, password=password),
             True
         )
-- 
2.43.0


From 97d05a18d17b716d31b9c3e0597b89d5d18b8f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:51 +0000
Subject: [PATCH 053/114] fix: a static attribute that is excluded was sent and
 expected all the same

---
 pyamf/alias.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index a1eec02..ccfd32e 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -227,9 +227,9 @@ class ClassAlias(object):
             if self.exclude_attrs:
                 self.static_attrs_set.difference_update(self.exclude_attrs)
 
-            for a in self.static_attrs_set:
-                if a not in self.static_attrs:
-                    self.static_attrs.remove(a)
+            self.static_attrs = [
+                a for a in self.static_attrs if a in self.static_attrs_set
+            ]
 
         if not self.exclude_attrs:
             self.exclude_attrs = None
-- 
2.43.0


From a1aa07f3e26e78d57f8b3039a57a16544f625714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:51 +0000
Subject: [PATCH 054/114] fix: static attributes were lost when decoding with
 filters, or not filtered if they came alone

---
 pyamf/alias.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index ccfd32e..14ce392 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -486,8 +486,6 @@ class ClassAlias(object):
                     )
                 )
 
-            props.difference_update(self.static_attrs)
-
         if not props:
             return attrs
 
-- 
2.43.0


From 4a6a15fcd8654bc44ab5f568424f9d827f4a1b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:51 +0000
Subject: [PATCH 055/114] fix: excluded and read-only attributes could be set
 from the wire through their synonym

---
 pyamf/alias.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index 14ce392..20f9b9f 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -474,6 +474,18 @@ class ClassAlias(object):
 
         changed = False
 
+        if self.synonym_attrs:
+            # all filters are given in terms of the real names
+            names = dict((v, k) for k, v in self.synonym_attrs.iteritems())
+            renamed = [k for k in attrs if k in names]
+
+            if renamed:
+                a = attrs.copy()
+
+                [a.pop(k) for k in renamed]
+                [a.__setitem__(names[k], attrs[k]) for k in renamed]
+                attrs = a
+
         props = set(attrs.keys())
 
         if self.static_attrs:
@@ -517,23 +529,11 @@ class ClassAlias(object):
                 attrs[k] = context.getObjectForProxy(v)
 
         if changed:
-            # apply all filters before synonyms
             a = {}
 
             [a.__setitem__(p, attrs[p]) for p in props]
             attrs = a
 
-        if self.synonym_attrs:
-            missing = object()
-
-            for k, v in self.synonym_attrs.iteritems():
-                value = attrs.pop(v, missing)
-
-                if value is missing:
-                    continue
-
-                attrs[k] = value
-
         return attrs
 
     def applyAttributes(self, obj, attrs, codec=None):
-- 
2.43.0


From 495698f9fdd19d90877108f41bbbefb455d20648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:51 +0000
Subject: [PATCH 056/114] fix: synonyms of static attributes failed with
 KeyError, synonyms naming each other lost values

---
 pyamf/alias.py | 21 ++++++++++++++-------
 pyamf/amf0.py  |  2 +-
 pyamf/amf3.py  |  4 ++--
 3 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index 20f9b9f..ae9c094 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -246,6 +246,11 @@ class ClassAlias(object):
         else:
             self.decodable_properties.difference_update(self.readonly_attrs)
 
+        # the static attributes, as they are named on the wire
+        self.static_names = [
+            (self.synonym_attrs or {}).get(a, a) for a in self.static_attrs
+        ]
+
         if self.readonly_attrs is not None:
             self.readonly_attrs = list(self.readonly_attrs)
             self.readonly_attrs.sort()
@@ -444,15 +449,17 @@ class ClassAlias(object):
                     attrs[k] = context.getProxyForObject(v)
 
         if self.synonym_attrs:
-            missing = object()
-
-            for k, v in self.synonym_attrs.iteritems():
-                value = attrs.pop(k, missing)
+            renamed = [k for k in attrs if k in self.synonym_attrs]
 
-                if value is missing:
-                    continue
+            if renamed:
+                a = attrs.copy()
 
-                attrs[v] = value
+                [a.pop(k) for k in renamed]
+                [
+                    a.__setitem__(self.synonym_attrs[k], attrs[k])
+                    for k in renamed
+                ]
+                attrs = a
 
         return attrs
 
diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 922307f..734ab38 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -628,7 +628,7 @@ class Encoder(codec.Encoder):
         attrs = alias.getEncodableAttributes(o, codec=self)
 
         if alias.static_attrs and attrs:
-            for key in alias.static_attrs:
+            for key in alias.static_names:
                 value = attrs.pop(key)
 
                 self.serialiseString(key)
diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 2c64b42..029f336 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1535,9 +1535,9 @@ class Encoder(codec.Encoder):
 
         if alias.static_attrs:
             if not class_ref:
-                [self.serialiseString(attr) for attr in alias.static_attrs]
+                [self.serialiseString(attr) for attr in alias.static_names]
 
-            for attr in alias.static_attrs:
+            for attr in alias.static_names:
                 value = attrs.pop(attr)
 
                 self.writeElement(value)
-- 
2.43.0


From 5d4d7e97ab93a5da5beb62f46ab56a776533f8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:51 +0000
Subject: [PATCH 057/114] fix: proxies and synonyms of classes that are not
 dynamic were ignored when encoding

---
 pyamf/alias.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index ae9c094..e7d1464 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -419,24 +419,23 @@ class ClassAlias(object):
 
         if not self.dynamic:
             if self.non_static_encodable_properties:
-                for attr in self.non_static_encodable_properties:
-                    attrs[attr] = self.getAttribute(obj, attr, codec=codec)
-
-            return attrs
-
-        dynamic_props = util.get_properties(obj)
+                dynamic_props = self.non_static_encodable_properties
+            else:
+                dynamic_props = ()
+        else:
+            dynamic_props = util.get_properties(obj)
 
-        if not self.shortcut_encode:
-            dynamic_props = set(dynamic_props)
+            if not self.shortcut_encode:
+                dynamic_props = set(dynamic_props)
 
-            if self.encodable_properties:
-                dynamic_props.update(self.encodable_properties)
+                if self.encodable_properties:
+                    dynamic_props.update(self.encodable_properties)
 
-            if self.static_attrs:
-                dynamic_props.difference_update(self.static_attrs)
+                if self.static_attrs:
+                    dynamic_props.difference_update(self.static_attrs)
 
-            if self.exclude_attrs:
-                dynamic_props.difference_update(self.exclude_attrs)
+                if self.exclude_attrs:
+                    dynamic_props.difference_update(self.exclude_attrs)
 
         for attr in dynamic_props:
             attrs[attr] = self.getAttribute(obj, attr, codec=codec)
-- 
2.43.0


From b38c42c450ddde8be66408aa878b8ba442fe2959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:51 +0000
Subject: [PATCH 058/114] fix: a class inherited the dynamic option from its
 remotest base, exposing what a nearer one restricts

---
 pyamf/alias.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index e7d1464..2145ae1 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -182,10 +182,11 @@ class ClassAlias(object):
         if self.amf3 is None and alias.amf3:
             self.amf3 = alias.amf3
 
-        if self.dynamic is None and alias.dynamic is not None:
+        # the nearest base class decides
+        if self.dynamic is None and self.inherited_dynamic is None:
             self.inherited_dynamic = alias.dynamic
 
-        if alias.sealed is not None:
+        if self.inherited_sealed is None:
             self.inherited_sealed = alias.sealed
 
         if alias.synonym_attrs:
-- 
2.43.0


From eb7a144167ee1ff8f9fe31fa746ec4db629cf9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:51 +0000
Subject: [PATCH 059/114] fix: objects with proxied attributes could not be
 encoded or decoded in AMF0

---
 pyamf/alias.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index 2145ae1..c9b9010 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -442,11 +442,12 @@ class ClassAlias(object):
             attrs[attr] = self.getAttribute(obj, attr, codec=codec)
 
         if self.proxy_attrs is not None and attrs and codec:
-            context = codec.context
+            # there are proxies in AMF3 only
+            proxy = getattr(codec.context, 'getProxyForObject', None)
 
             for k, v in attrs.copy().iteritems():
-                if k in self.proxy_attrs:
-                    attrs[k] = context.getProxyForObject(v)
+                if k in self.proxy_attrs and proxy:
+                    attrs[k] = proxy(v)
 
         if self.synonym_attrs:
             renamed = [k for k in attrs if k in self.synonym_attrs]
@@ -525,7 +526,8 @@ class ClassAlias(object):
             changed = True
 
         if self.proxy_attrs is not None and codec:
-            context = codec.context
+            # there are proxies in AMF3 only
+            unproxy = getattr(codec.context, 'getObjectForProxy', None)
 
             for k in self.proxy_attrs:
                 try:
@@ -533,7 +535,8 @@ class ClassAlias(object):
                 except KeyError:
                     continue
 
-                attrs[k] = context.getObjectForProxy(v)
+                if unproxy:
+                    attrs[k] = unproxy(v)
 
         if changed:
             a = {}
-- 
2.43.0


From 2df9f9fed2e2f5bae6ddc49a59c5711b9bbeeb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:13 +0000
Subject: [PATCH 060/114] fix: an attribute named __dict__ set read-only and
 excluded attributes from the wire

---
 pyamf/alias.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index c9b9010..15cc2db 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -509,6 +509,14 @@ class ClassAlias(object):
         if not props:
             return attrs
 
+        if not self.is_dict:
+            # these would replace all attributes, whatever the filters
+            special = props.intersection(('__class__', '__dict__'))
+
+            if special:
+                props.difference_update(special)
+                changed = True
+
         if not self.dynamic:
             if not self.decodable_properties:
                 props = set()
-- 
2.43.0


From 3ece23442b363e77fe44b70a6234c2505a5e999a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:13 +0000
Subject: [PATCH 061/114] fix: excluded items of dict classes were sent

---
 pyamf/alias.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index 15cc2db..bb4c1da 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -404,7 +404,12 @@ class ClassAlias(object):
             self.compile()
 
         if self.is_dict:
-            return dict(obj)
+            attrs = dict(obj)
+
+            if self.exclude_attrs:
+                [attrs.pop(attr, None) for attr in self.exclude_attrs]
+
+            return attrs
 
         if self.shortcut_encode and self.dynamic:
             return obj.__dict__.copy()
-- 
2.43.0


From cf964e1324c23a88043e6320448f0fbcbfe76fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:13 +0000
Subject: [PATCH 062/114] fix: a single slot given as a string was taken for
 one slot per character

---
 pyamf/alias.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index bb4c1da..aaa5c41 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -120,8 +120,16 @@ class ClassAlias(object):
             return
 
         if hasattr(self.klass, '__slots__'):
-            self.decodable_properties.update(self.klass.__slots__)
-            self.encodable_properties.update(self.klass.__slots__)
+            slots = self.klass.__slots__
+
+            if isinstance(slots, basestring):
+                slots = (slots,)
+
+            # these two are no attributes of the instance
+            slots = set(slots).difference(('__dict__', '__weakref__'))
+
+            self.decodable_properties.update(slots)
+            self.encodable_properties.update(slots)
 
         for k, v in self.klass.__dict__.iteritems():
             if not isinstance(v, property):
-- 
2.43.0


From 7ed8565f21cb299595a767e0e2e4544331ec6dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:13 +0000
Subject: [PATCH 063/114] fix: objects with an attribute named keys could not
 be encoded

---
 pyamf/util/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/util/__init__.py b/pyamf/util/__init__.py
index 345cfdb..4694842 100644
--- a/pyamf/util/__init__.py
+++ b/pyamf/util/__init__.py
@@ -75,7 +75,7 @@ def get_properties(obj):
 
     @since: 0.5
     """
-    if hasattr(obj, 'keys'):
+    if hasattr(obj.__class__, 'keys'):
         return obj.keys()
     elif hasattr(obj, '__dict__'):
         return obj.__dict__.keys()
-- 
2.43.0


From 527bb5cddaf51ace3bbeb1eb93cb998a6d9eb506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:13 +0000
Subject: [PATCH 064/114] fix: synonyms of a base class failed for subclasses
 with other options of their own

---
 pyamf/alias.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index aaa5c41..205006d 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -47,7 +47,7 @@ class ClassAlias(object):
         self.amf3 = kwargs.pop('amf3', None)
         self.external = kwargs.pop('external', None)
         self.dynamic = kwargs.pop('dynamic', None)
-        self.synonym_attrs = kwargs.pop('synonym_attrs', {})
+        self.synonym_attrs = kwargs.pop('synonym_attrs', None) or {}
 
         self._compiled = False
         self.anonymous = False
-- 
2.43.0


From 2721ff656f7f3057a3e1df8365692571c2baa040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:20 +0000
Subject: [PATCH 065/114] fix: unregistering a class removed later
 registrations of the same name or class

---
 pyamf/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index e245c45..8f0093d 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -284,10 +284,10 @@ def unregister_class(alias):
     except KeyError:
         raise UnknownClassAlias('Unknown alias %r' % (alias,))
 
-    if not x.anonymous:
-        del CLASS_CACHE[x.alias]
-
-    del CLASS_CACHE[x.klass]
+    # the name and the class may have been registered anew since
+    for key in (x.alias, x.klass):
+        if CLASS_CACHE.get(key) is x:
+            del CLASS_CACHE[key]
 
     return x
 
-- 
2.43.0


From 2857c9fb5d42446adcac36882ee78e97aa95a6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:20 +0000
Subject: [PATCH 066/114] fix: registering an alias type for a class registered
 without a name failed with ValueError

---
 pyamf/__init__.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index 8f0093d..d869e10 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -790,17 +790,22 @@ def register_alias_type(klass, *args):
 
     ALIAS_TYPES[klass] = args
 
+    replaced = {}
+
     for k, v in CLASS_CACHE.copy().iteritems():
         new_alias = util.get_class_alias(v.klass)
 
         if new_alias is klass:
-            meta = util.get_class_meta(v.klass)
-            meta['alias'] = v.alias
+            if v not in replaced:
+                meta = util.get_class_meta(v.klass)
+                meta['alias'] = v.alias
+
+                if v.anonymous:
+                    meta['alias'] = None
 
-            alias_klass = klass(v.klass, **meta)
+                replaced[v] = klass(v.klass, **meta)
 
-            CLASS_CACHE[k] = alias_klass
-            CLASS_CACHE[v.klass] = alias_klass
+            CLASS_CACHE[k] = replaced[v]
 
 
 def unregister_alias_type(klass):
-- 
2.43.0


From 5c940d178ded55a8d2b3ac7cda54e2de010b240f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:20 +0000
Subject: [PATCH 067/114] fix: looking up the Python name of a registered class
 changed the name its instances are sent under

---
 pyamf/__init__.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index d869e10..b52047e 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -367,6 +367,17 @@ def unregister_class_loader(loader):
         raise LookupError("loader not found")
 
 
+def _register_loaded(klass, alias):
+    """
+    Registers a class that has been found for C{alias}. A class that is
+    registered already stays as it is, whatever other names it is found by.
+    """
+    try:
+        return CLASS_CACHE[klass]
+    except KeyError:
+        return register_class(klass, alias)
+
+
 def load_class(alias):
     """
     Finds the class registered to the alias.
@@ -397,7 +408,7 @@ def load_class(alias):
             continue
 
         if isinstance(klass, python.class_types):
-            return register_class(klass, alias)
+            return _register_loaded(klass, alias)
         elif isinstance(klass, ClassAlias):
             CLASS_CACHE[klass.alias] = klass
             CLASS_CACHE[klass.klass] = klass
@@ -419,7 +430,7 @@ def load_class(alias):
         else:
             if isinstance(klass, python.class_types):
                 try:
-                    return register_class(klass, alias)
+                    return _register_loaded(klass, alias)
                 except (AttributeError, TypeError):
                     # a class that instances cannot be decoded for
                     raise UnknownClassAlias("Unknown alias for %r" % (alias,))
-- 
2.43.0


From 471c5f5ee71473d347a1de33113f6aca9e8f4ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:20 +0000
Subject: [PATCH 068/114] fix: a list of types that had been added could not be
 removed

---
 pyamf/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index b52047e..9bc3f40 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -662,6 +662,9 @@ def remove_type(type_):
     """
     declaration = get_type(type_)
 
+    if isinstance(type_, list):
+        type_ = tuple(type_)
+
     del TYPE_MAP[type_]
 
     return declaration
-- 
2.43.0


From b1264cbfba2f914f2efabe8da10fd4e86e38f4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:20 +0000
Subject: [PATCH 069/114] fix: removing an error class left the other codes it
 was registered for

---
 pyamf/__init__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index 9bc3f40..65751c4 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -740,11 +740,15 @@ def remove_error_class(klass):
         if klass not in ERROR_CLASS_MAP:
             raise ValueError('Code %s is not registered' % (klass,))
     elif isinstance(klass, python.class_types):
-        classes = ERROR_CLASS_MAP.values()
-        if klass not in classes:
+        codes = [k for k, v in ERROR_CLASS_MAP.items() if v is klass]
+
+        if not codes:
             raise ValueError('Class %s is not registered' % (klass,))
 
-        klass = ERROR_CLASS_MAP.keys()[classes.index(klass)]
+        for code in codes:
+            del ERROR_CLASS_MAP[code]
+
+        return
     else:
         raise TypeError("Invalid type, expected class or string")
 
-- 
2.43.0


From 7ec382e188b3afde3fc70d891a703623a6e74b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:20 +0000
Subject: [PATCH 070/114] fix: classes to be ignored were registered with the
 package unless given by name

---
 pyamf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index 65751c4..8dfffc3 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -919,7 +919,7 @@ def register_package(module=None, package=None, separator='.', ignore=None,
         if not isinstance(attr, python.class_types):
             return False
 
-        if attr.__name__ in ignore:
+        if attr in ignore or attr.__name__ in ignore:
             return False
 
         try:
-- 
2.43.0


From 9fffb34878a77f62201e1103110fb88ac21025e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:20 +0000
Subject: [PATCH 071/114] fix: DSA messages were unknown until
 pyamf.flex.messaging was imported

---
 pyamf/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index 8dfffc3..17ec78a 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -571,12 +571,12 @@ def blaze_loader(alias):
         ISmallMessage.html>}
     @since: 0.5
     """
-    if alias not in ['DSC', 'DSK']:
+    if alias not in ['DSA', 'DSC', 'DSK']:
         return
 
     import pyamf.flex.messaging  # noqa
 
-    return CLASS_CACHE[alias]
+    return CLASS_CACHE.get(alias)
 
 
 def flex_loader(alias):
-- 
2.43.0


From 26b48b013dc45589a9061d74bb7baacbf75caed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:04 +0000
Subject: [PATCH 072/114] fix: a class registered under a name that is not
 ASCII could not be unregistered by its bytes

---
 pyamf/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index 17ec78a..ffc0dc6 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -280,8 +280,11 @@ def unregister_class(alias):
     @raise UnknownClassAlias: Unknown alias.
     """
     try:
-        x = CLASS_CACHE[alias]
-    except KeyError:
+        if isinstance(alias, bytes):
+            x = CLASS_CACHE[alias.decode('utf-8')]
+        else:
+            x = CLASS_CACHE[alias]
+    except (KeyError, UnicodeDecodeError):
         raise UnknownClassAlias('Unknown alias %r' % (alias,))
 
     # the name and the class may have been registered anew since
-- 
2.43.0


From 67e03184094913c33e47cb0054dbce091b4ce868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:11 +0000
Subject: [PATCH 073/114] fix: saving a shared object that cannot be encoded
 destroyed the file, failures left files open

---
 pyamf/sol.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/pyamf/sol.py b/pyamf/sol.py
index 6d0c788..d86a402 100644
--- a/pyamf/sol.py
+++ b/pyamf/sol.py
@@ -150,15 +150,17 @@ def load(name_or_file):
     elif not hasattr(f, 'read'):
         raise ValueError('Readable stream expected')
 
-    name, values = decode(f.read())
+    try:
+        name, values = decode(f.read())
+    finally:
+        if opened is True:
+            f.close()
+
     s = SOL(name)
 
     for n, v in values.iteritems():
         s[n] = v
 
-    if opened is True:
-        f.close()
-
     return s
 
 
@@ -172,16 +174,21 @@ def save(sol, name_or_file, encoding=pyamf.AMF0):
     f = name_or_file
     opened = False
 
+    if not isinstance(name_or_file, basestring) and not hasattr(f, 'write'):
+        raise ValueError('Writable stream expected')
+
+    # before the file is opened, which removes what it holds
+    data = encode(sol.name, sol, encoding=encoding).getvalue()
+
     if isinstance(name_or_file, basestring):
         f = open(name_or_file, 'wb+')
         opened = True
-    elif not hasattr(f, 'write'):
-        raise ValueError('Writable stream expected')
-
-    f.write(encode(sol.name, sol, encoding=encoding).getvalue())
 
-    if opened:
-        f.close()
+    try:
+        f.write(data)
+    finally:
+        if opened:
+            f.close()
 
 
 class SOL(dict):
-- 
2.43.0


From 56f0e203b7f14768dfa4ea5a821e5d6bd4ee8967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:11 +0000
Subject: [PATCH 074/114] fix: shared objects with a name in bytes that is not
 ASCII could not be encoded

---
 pyamf/sol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyamf/sol.py b/pyamf/sol.py
index d86a402..16406bb 100644
--- a/pyamf/sol.py
+++ b/pyamf/sol.py
@@ -109,7 +109,8 @@ def encode(name, values, strict=True, encoding=pyamf.AMF0):
     stream.write(HEADER_SIGNATURE)
 
     # write the root name
-    name = name.encode('utf-8')
+    if isinstance(name, unicode):
+        name = name.encode('utf-8')
 
     stream.write_ushort(len(name))
     stream.write(name)
-- 
2.43.0


From b2cdf7d68f735e309326667b3a27bd4e40a993a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:23 +0000
Subject: [PATCH 075/114] fix: shared objects that end early were refused with
 IOError, not DecodeError

---
 pyamf/sol.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyamf/sol.py b/pyamf/sol.py
index 16406bb..737b658 100644
--- a/pyamf/sol.py
+++ b/pyamf/sol.py
@@ -36,6 +36,13 @@ def decode(stream, strict=True):
     if not isinstance(stream, util.BufferedByteStream):
         stream = util.BufferedByteStream(stream)
 
+    try:
+        return _decode(stream, strict)
+    except IOError:
+        raise pyamf.DecodeError('Unexpected end of stream')
+
+
+def _decode(stream, strict):
     # read the version
     version = stream.read(2)
 
-- 
2.43.0


From 2b81224f7c37845be9d49b2bd9bb73f6e18ecfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:32 +0000
Subject: [PATCH 076/114] fix: short messages with ids that are no UUIDs could
 not be encoded

---
 pyamf/flex/messaging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/flex/messaging.py b/pyamf/flex/messaging.py
index 9c3038e..b669081 100644
--- a/pyamf/flex/messaging.py
+++ b/pyamf/flex/messaging.py
@@ -204,7 +204,7 @@ class AbstractMessage(object):
             attr = self.SMALL_UUIDS[flag]
             value = getattr(self, attr)
 
-            if not value:
+            if not isinstance(value, uuid.UUID):
                 continue
 
             byte |= flag
-- 
2.43.0


From 8f8e80ae8bfa12023c2ea4b452d6f9e5f5a9647d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:41 +0000
Subject: [PATCH 077/114] fix: short messages with a timestamp or time to live
 in milliseconds could not be encoded

---
 pyamf/flex/messaging.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyamf/flex/messaging.py b/pyamf/flex/messaging.py
index b669081..db2355a 100644
--- a/pyamf/flex/messaging.py
+++ b/pyamf/flex/messaging.py
@@ -151,6 +151,10 @@ class AbstractMessage(object):
             return obj
 
         if attr in ['timestamp', 'timeToLive']:
+            if isinstance(obj, (int, long, float)):
+                # milliseconds
+                return obj
+
             return pyamf.util.get_timestamp(obj) * 1000.0
         elif attr in ['clientId', 'messageId']:
             if isinstance(obj, uuid.UUID):
-- 
2.43.0


From c7d55716e6dd41f8db52debe2cf332308850f326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:41 +0000
Subject: [PATCH 078/114] fix: fields of short messages that are empty or zero
 were lost, the operation of subscriptions among them

---
 pyamf/flex/messaging.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyamf/flex/messaging.py b/pyamf/flex/messaging.py
index db2355a..4212fbf 100644
--- a/pyamf/flex/messaging.py
+++ b/pyamf/flex/messaging.py
@@ -147,8 +147,8 @@ class AbstractMessage(object):
         """
         obj = getattr(self, attr)
 
-        if not obj:
-            return obj
+        if obj is None:
+            return None
 
         if attr in ['timestamp', 'timeToLive']:
             if isinstance(obj, (int, long, float)):
@@ -197,7 +197,7 @@ class AbstractMessage(object):
         for flag in self.SMALL_ATTRIBUTE_FLAGS:
             value = self.encodeSmallAttribute(self.SMALL_ATTRIBUTES[flag])
 
-            if value:
+            if value is not None:
                 byte |= flag
                 flag_attrs.append(value)
 
@@ -430,7 +430,7 @@ class CommandMessage(AsyncMessage):
     def __writeamf__(self, output):
         AsyncMessage.__writeamf__(self, output)
 
-        if self.operation:
+        if self.operation is not None:
             output.writeUnsignedByte(0x01)
             output.writeObject(self.operation)
         else:
-- 
2.43.0


From 7c9d094760d956a6a49a308d22898286050177c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:15 +0000
Subject: [PATCH 079/114] fix: values of unknown flags in short messages were
 taken for what follows them

---
 pyamf/flex/messaging.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pyamf/flex/messaging.py b/pyamf/flex/messaging.py
index 4212fbf..b652415 100644
--- a/pyamf/flex/messaging.py
+++ b/pyamf/flex/messaging.py
@@ -189,6 +189,8 @@ class AbstractMessage(object):
                         attr = self.SMALL_UUIDS[flag]
                         setattr(self, attr, decode_uuid(input.readObject()))
 
+                skip_unknown(byte, 2, input)
+
     def __writeamf__(self, output):
         flag_attrs = []
         uuid_attrs = []
@@ -283,6 +285,8 @@ class AsyncMessage(AbstractMessage):
         if byte & 0x02:
             self.correlationId = decode_uuid(input.readObject())
 
+        skip_unknown(byte, 2, input)
+
     def __writeamf__(self, output):
         AbstractMessage.__writeamf__(self, output)
 
@@ -331,6 +335,8 @@ class AcknowledgeMessage(AsyncMessage):
                 )
             )
 
+        skip_unknown(flags[0], 0, input)
+
     def __writeamf__(self, output):
         AsyncMessage.__writeamf__(self, output)
 
@@ -427,6 +433,8 @@ class CommandMessage(AsyncMessage):
         if byte & 0x01:
             self.operation = input.readObject()
 
+        skip_unknown(byte, 1, input)
+
     def __writeamf__(self, output):
         AsyncMessage.__writeamf__(self, output)
 
@@ -572,6 +580,16 @@ def read_flags(input):
     return flags
 
 
+def skip_unknown(byte, known, input):
+    """
+    Reads the values of flags not known (yet), those above the C{known} lowest
+    ones, to get to what follows.
+    """
+    for i in range(known, 7):
+        if byte & (1 << i):
+            input.readObject()
+
+
 def decode_uuid(obj):
     """
     Decode a L{ByteArray} contents to a C{uuid.UUID} instance.
-- 
2.43.0


From 6d8c66844305ae3ed268665d0b6bf87165a61c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:56 +0000
Subject: [PATCH 080/114] fix: data messages lost their own fields in the short
 form of the message they extend

---
 pyamf/flex/data.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyamf/flex/data.py b/pyamf/flex/data.py
index 7ecb61f..c4813b1 100644
--- a/pyamf/flex/data.py
+++ b/pyamf/flex/data.py
@@ -53,6 +53,12 @@ class DataMessage(AsyncMessage):
         #: this message.
         self.operation = None
 
+    def getSmallMessage(self):
+        """
+        The short forms have no place for these fields.
+        """
+        raise NotImplementedError
+
 
 class SequencedMessage(AcknowledgeMessage):
     """
@@ -81,6 +87,12 @@ class SequencedMessage(AcknowledgeMessage):
         #:
         self.dataMessage = None
 
+    def getSmallMessage(self):
+        """
+        The short forms have no place for these fields.
+        """
+        raise NotImplementedError
+
 
 class PagedMessage(SequencedMessage):
     """
-- 
2.43.0


From 45209098cd6c114de24ef6011ec9ad31e276c334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:41 +0000
Subject: [PATCH 081/114] fix: short messages with an id that begins like zlib
 data could not be decoded again

---
 pyamf/flex/messaging.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pyamf/flex/messaging.py b/pyamf/flex/messaging.py
index b652415..709e74b 100644
--- a/pyamf/flex/messaging.py
+++ b/pyamf/flex/messaging.py
@@ -214,7 +214,7 @@ class AbstractMessage(object):
                 continue
 
             byte |= flag
-            uuid_attrs.append(amf3.ByteArray(value.bytes))
+            uuid_attrs.append(encode_uuid(value))
 
         del attr
 
@@ -295,7 +295,7 @@ class AsyncMessage(AbstractMessage):
             output.writeObject(self.correlationId)
         else:
             output.writeUnsignedByte(0x02)
-            output.writeObject(pyamf.amf3.ByteArray(self.correlationId.bytes))
+            output.writeObject(encode_uuid(self.correlationId))
 
     def getSmallMessage(self):
         """
@@ -590,6 +590,18 @@ def skip_unknown(byte, known, input):
             input.readObject()
 
 
+def encode_uuid(obj):
+    """
+    The L{ByteArray} that holds a C{uuid.UUID}.
+    """
+    ret = amf3.ByteArray()
+
+    # given to the constructor it could be taken for compressed
+    ret.write(obj.bytes)
+
+    return ret
+
+
 def decode_uuid(obj):
     """
     Decode a L{ByteArray} contents to a C{uuid.UUID} instance.
-- 
2.43.0


From 4f13867c4818da4ed7dacb0d7ab498bd435859d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:41 +0000
Subject: [PATCH 082/114] fix: when_imported did not return the module as
 documented

---
 pyamf/util/imports.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyamf/util/imports.py b/pyamf/util/imports.py
index 99b8471..512520e 100644
--- a/pyamf/util/imports.py
+++ b/pyamf/util/imports.py
@@ -27,7 +27,7 @@ def when_imported(name, *hooks):
     """
     global finder
 
-    finder.when_imported(name, *hooks)
+    return finder.when_imported(name, *hooks)
 
 
 class ModuleFinder(object):
@@ -96,10 +96,12 @@ class ModuleFinder(object):
         @see: L{when_imported}
         """
         if name in sys.modules:
+            module = sys.modules[name]
+
             for hook in hooks:
-                hook(sys.modules[name])
+                hook(module)
 
-            return
+            return module
 
         h = self.post_load_hooks.setdefault(name, [])
         h.extend(hooks)
-- 
2.43.0


From c1d834d6c8f20af05c56876d2ff89c1a4910d8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:41 +0000
Subject: [PATCH 083/114] fix: hooks of a module were lost if its import failed
 while it imported others, or if it was imported again

---
 pyamf/util/imports.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyamf/util/imports.py b/pyamf/util/imports.py
index 512520e..03380e1 100644
--- a/pyamf/util/imports.py
+++ b/pyamf/util/imports.py
@@ -84,10 +84,8 @@ class ModuleFinder(object):
 
             mod = sys.modules[name]
             self._run_hooks(name, mod)
-        except:
-            self.loaded_modules.pop()
-
-            raise
+        finally:
+            self.loaded_modules.remove(name)
 
         return mod
 
-- 
2.43.0


From 28298f85a70666715f393fe6bdd92d9f3191e476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:00 +0000
Subject: [PATCH 084/114] fix: the hooks of a module after one that failed were
 lost

---
 pyamf/util/imports.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pyamf/util/imports.py b/pyamf/util/imports.py
index 03380e1..938a032 100644
--- a/pyamf/util/imports.py
+++ b/pyamf/util/imports.py
@@ -93,25 +93,29 @@ class ModuleFinder(object):
         """
         @see: L{when_imported}
         """
+        h = self.post_load_hooks.setdefault(name, [])
+        h.extend(hooks)
+
         if name in sys.modules:
             module = sys.modules[name]
 
-            for hook in hooks:
-                hook(module)
+            self._run_hooks(name, module)
 
             return module
 
-        h = self.post_load_hooks.setdefault(name, [])
-        h.extend(hooks)
-
     def _run_hooks(self, name, module):
         """
-        Run all hooks for a module.
+        Run all hooks for a module, whatever happens to one of them.
         """
         hooks = self.post_load_hooks.pop(name, [])
 
-        for hook in hooks:
-            hook(module)
+        try:
+            while hooks:
+                hooks.pop(0)(module)
+        finally:
+            if hooks:
+                self.post_load_hooks[name] = hooks
+                self._run_hooks(name, module)
 
     def __getstate__(self):
         return (self.post_load_hooks.copy(), self.loaded_modules[:])
-- 
2.43.0


From 6117f108d8f9c079681c9183af0fadf43b9647e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:00 +0000
Subject: [PATCH 085/114] fix: hooks registered while their module is imported
 were run before it was complete

---
 pyamf/util/imports.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyamf/util/imports.py b/pyamf/util/imports.py
index 938a032..8b0278d 100644
--- a/pyamf/util/imports.py
+++ b/pyamf/util/imports.py
@@ -96,7 +96,7 @@ class ModuleFinder(object):
         h = self.post_load_hooks.setdefault(name, [])
         h.extend(hooks)
 
-        if name in sys.modules:
+        if name in sys.modules and name not in self.loaded_modules:
             module = sys.modules[name]
 
             self._run_hooks(name, module)
@@ -107,15 +107,16 @@ class ModuleFinder(object):
         """
         Run all hooks for a module, whatever happens to one of them.
         """
-        hooks = self.post_load_hooks.pop(name, [])
+        hooks = self.post_load_hooks.get(name, [])
 
         try:
             while hooks:
                 hooks.pop(0)(module)
         finally:
             if hooks:
-                self.post_load_hooks[name] = hooks
                 self._run_hooks(name, module)
+            else:
+                self.post_load_hooks.pop(name, None)
 
     def __getstate__(self):
         return (self.post_load_hooks.copy(), self.loaded_modules[:])
-- 
2.43.0


From f7cc58b1d247153ae5e82e39857d6f5eaa7766d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:05 +0000
Subject: [PATCH 086/114] fix: the use_amf3 option of the AMF0 encoder was
 refused

---
 pyamf/amf0.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 734ab38..baed267 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -418,10 +418,10 @@ class Encoder(codec.Encoder):
     """
 
     def __init__(self, *args, **kwargs):
-        codec.Encoder.__init__(self, *args, **kwargs)
-
         self.use_amf3 = kwargs.pop('use_amf3', False)
 
+        codec.Encoder.__init__(self, *args, **kwargs)
+
     def buildContext(self, **kwargs):
         return Context(**kwargs)
 
-- 
2.43.0


From 62f1e6d6da8fbd17f5ea679b4a41c6e0a15f1bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:05 +0000
Subject: [PATCH 087/114] fix: modules were encoded as objects

---
 pyamf/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/codec.py b/pyamf/codec.py
index e175331..65931a5 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -645,7 +645,7 @@ class Encoder(_Codec):
         elif isinstance(data, python.func_types):
             # can't encode code objects
             return None
-        elif isinstance(t, types.ModuleType):
+        elif isinstance(data, types.ModuleType):
             # cannot encode module objects
             return None
 
-- 
2.43.0


From 895a8e4a31a96ca414fb58b4ca147d19d52487a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:05 +0000
Subject: [PATCH 088/114] fix: nothing was written for custom types converted
 to None, dead weak references among them

---
 pyamf/codec.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyamf/codec.py b/pyamf/codec.py
index 65931a5..ff7d6d4 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -522,9 +522,11 @@ class _CustomTypeFunc(object):
         self.func = func
 
     def __call__(self, data, **kwargs):
+        pos = self.encoder.stream.tell()
         ret = self.func(data, encoder=self.encoder)
 
-        if ret is not None:
+        # the function may have written the value itself
+        if ret is not None or self.encoder.stream.tell() == pos:
             self.encoder.writeElement(ret)
 
 
-- 
2.43.0


From 0f06f79f1fc0b2f9c6cc2c0c1e317b607160c141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:05 +0000
Subject: [PATCH 089/114] fix: the custom type of one old style class was
 applied to the instances of all others

---
 pyamf/codec.py  | 4 ++++
 pyamf/python.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pyamf/codec.py b/pyamf/codec.py
index ff7d6d4..9969e0c 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -662,6 +662,10 @@ class Encoder(_Codec):
         key = type(data)
         func = None
 
+        if key is python.instance_type:
+            # shared by the instances of all old style classes
+            key = data.__class__
+
         try:
             func = self._func_cache[key]
         except KeyError:
diff --git a/pyamf/python.py b/pyamf/python.py
index d24c9d0..f14e963 100644
--- a/pyamf/python.py
+++ b/pyamf/python.py
@@ -18,6 +18,10 @@ func_types = (
     types.FunctionType, types.GeneratorType, types.LambdaType, types.MethodType
 )
 class_types = [type]
+
+#: The type of the instances of old style classes, if there is such a thing.
+instance_type = getattr(types, 'InstanceType', None)
+
 int_types = [int]
 str_types = [str]
 
-- 
2.43.0


From fbce709709f72b927107271f8715b9280484ff27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:34 +0000
Subject: [PATCH 090/114] fix: custom types given as a function were decided by
 the first value of each type

---
 pyamf/codec.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyamf/codec.py b/pyamf/codec.py
index 9969e0c..4feb54e 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -634,6 +634,10 @@ class Encoder(_Codec):
                 if isinstance(data, type_):
                     return _CustomTypeFunc(self, func)
             except TypeError:
+                # a function that tells by the value, what it says of this one
+                # is not true for others of its type
+                self._by_value = True
+
                 if python.callable(type_) and type_(data):
                     return _CustomTypeFunc(self, func)
 
@@ -669,13 +673,15 @@ class Encoder(_Codec):
         try:
             func = self._func_cache[key]
         except KeyError:
+            self._by_value = False
             func = self.getTypeFunc(data)
 
             if func is None:
                 raise pyamf.EncodeError('Unable to encode %r (type %r)' % (
                     data, key))
 
-            self._func_cache[key] = func
+            if not self._by_value:
+                self._func_cache[key] = func
 
         func(data)
 
-- 
2.43.0


From b6dcc42d6b5275a345d0bffe46c1325e88a6d7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:34 +0000
Subject: [PATCH 091/114] fix: of several custom types that fit any one was
 used, not the closest, and functions in a tuple were ignored

---
 pyamf/codec.py | 54 ++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 44 insertions(+), 10 deletions(-)

diff --git a/pyamf/codec.py b/pyamf/codec.py
index 4feb54e..9effbaf 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -7,6 +7,7 @@ Provides basic functionality for all pyamf.amf?.[De|E]ncoder classes.
 
 import types
 import datetime
+import inspect
 
 import pyamf
 from pyamf import util, python, xml
@@ -629,17 +630,10 @@ class Encoder(_Codec):
             return self.writeXML
 
         # check for any overridden types
-        for type_, func in pyamf.TYPE_MAP.iteritems():
-            try:
-                if isinstance(data, type_):
-                    return _CustomTypeFunc(self, func)
-            except TypeError:
-                # a function that tells by the value, what it says of this one
-                # is not true for others of its type
-                self._by_value = True
+        func = self.getCustomTypeFunc(data)
 
-                if python.callable(type_) and type_(data):
-                    return _CustomTypeFunc(self, func)
+        if func is not None:
+            return func
 
         if isinstance(data, (list, tuple)):
             return self.writeSequence
@@ -658,6 +652,46 @@ class Encoder(_Codec):
         # well, we tried ..
         return self.writeObject
 
+    def getCustomTypeFunc(self, data):
+        """
+        Returns a callable that will encode C{data} the way L{pyamf.add_type}
+        was told to, C{None} if there is no such custom type. If there are
+        several the closest base class is used.
+        """
+        found = []
+
+        for type_, func in pyamf.TYPE_MAP.iteritems():
+            if not isinstance(type_, tuple):
+                type_ = (type_,)
+
+            for x in type_:
+                if isinstance(x, python.class_types):
+                    if isinstance(data, x):
+                        found.append((x, func))
+                else:
+                    # a function that tells by the value, what it says of this
+                    # one is not true for others of its type
+                    self._by_value = True
+
+                    if x(data):
+                        return _CustomTypeFunc(self, func)
+
+        if not found:
+            return
+
+        func = found[0][1]
+
+        if len(found) > 1:
+            found = dict(found)
+
+            for x in inspect.getmro(data.__class__):
+                if x in found:
+                    func = found[x]
+
+                    break
+
+        return _CustomTypeFunc(self, func)
+
     def writeElement(self, data):
         """
         Encodes C{data} to AMF. If the data is not able to be matched to an AMF
-- 
2.43.0


From 51b2003ed899b2ed6ad0211c2d22044cf45e8860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:34 +0000
Subject: [PATCH 092/114] fix: custom types for subclasses of strings were
 ignored

---
 pyamf/codec.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyamf/codec.py b/pyamf/codec.py
index 9effbaf..9d1d444 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -608,9 +608,9 @@ class Encoder(_Codec):
         t = type(data)
 
         # try types that we know will work
-        if t is str or issubclass(t, str):
+        if t is str:
             return self.writeBytes
-        if t is unicode or issubclass(t, unicode):
+        elif t is unicode:
             return self.writeString
         elif t is bool:
             return self.writeBoolean
@@ -635,7 +635,11 @@ class Encoder(_Codec):
         if func is not None:
             return func
 
-        if isinstance(data, (list, tuple)):
+        if issubclass(t, str):
+            return self.writeBytes
+        elif issubclass(t, unicode):
+            return self.writeString
+        elif isinstance(data, (list, tuple)):
             return self.writeSequence
 
         # now try some types that won't encode
-- 
2.43.0


From 52f52fda2b7027a4b3f4fe843363abb7c3daf4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:46 +0000
Subject: [PATCH 093/114] fix: instances of subclasses of numbers and dates
 were encoded as empty objects

---
 pyamf/amf3.py  |  9 +++++++++
 pyamf/codec.py | 18 ++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 029f336..50bae64 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1203,6 +1203,15 @@ class Encoder(codec.Encoder):
 
         return codec.Encoder.getTypeFunc(self, data)
 
+    def getScalarFunc(self, t):
+        """
+        @see: L{codec.Encoder.getScalarFunc}
+        """
+        if issubclass(t, python.int_types):
+            return self.writeInteger
+
+        return codec.Encoder.getScalarFunc(self, t)
+
     def writeUndefined(self, n):
         """
         Writes an C{pyamf.Undefined} value to the stream.
diff --git a/pyamf/codec.py b/pyamf/codec.py
index 9d1d444..c8975ef 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -27,6 +27,12 @@ except NameError:
     str = bytes
 
 
+#: Numbers and dates, subclasses of these have the form of what they extend.
+SCALAR_TYPES = python.int_types + (
+    float, datetime.date, datetime.datetime, datetime.time
+)
+
+
 class IndexedCollection(object):
     """
     Store references to objects and provides an api to query references.
@@ -639,6 +645,8 @@ class Encoder(_Codec):
             return self.writeBytes
         elif issubclass(t, unicode):
             return self.writeString
+        elif issubclass(t, SCALAR_TYPES) and t not in pyamf.CLASS_CACHE:
+            return self.getScalarFunc(t)
         elif isinstance(data, (list, tuple)):
             return self.writeSequence
 
@@ -696,6 +704,16 @@ class Encoder(_Codec):
 
         return _CustomTypeFunc(self, func)
 
+    def getScalarFunc(self, t):
+        """
+        Returns a callable that encodes instances of C{t}, a subclass of a
+        number or date type.
+        """
+        if issubclass(t, python.int_types + (float,)):
+            return self.writeNumber
+
+        return self.writeDate
+
     def writeElement(self, data):
         """
         Encodes C{data} to AMF. If the data is not able to be matched to an AMF
-- 
2.43.0


From bd469771741416758263ce46e991f8c5f9600a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:56 +0000
Subject: [PATCH 094/114] fix: values of types AMF has no form for were refused
 with AttributeError or TypeError, not EncodeError

---
 pyamf/alias.py | 6 +++++-
 pyamf/codec.py | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index 205006d..a44fef5 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -420,7 +420,11 @@ class ClassAlias(object):
             return attrs
 
         if self.shortcut_encode and self.dynamic:
-            return obj.__dict__.copy()
+            try:
+                return obj.__dict__.copy()
+            except AttributeError:
+                raise pyamf.EncodeError('Unable to encode %r (type %r)' % (
+                    obj, type(obj)))
 
         attrs = {}
 
diff --git a/pyamf/codec.py b/pyamf/codec.py
index c8975ef..06821f1 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -660,6 +660,9 @@ class Encoder(_Codec):
         elif isinstance(data, types.ModuleType):
             # cannot encode module objects
             return None
+        elif t is object:
+            # has nothing that could be encoded
+            return None
 
         # well, we tried ..
         return self.writeObject
-- 
2.43.0


From 3701b259e6050f458a735b1e490b37c5969a5a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:34 +0000
Subject: [PATCH 095/114] fix: instances of subclasses of float could not be
 encoded to AMF3

---
 pyamf/amf3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 50bae64..3cc7ed1 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1270,7 +1270,7 @@ class Encoder(codec.Encoder):
         @type n: C{float}
         """
         self.stream.write(TYPE_NUMBER)
-        self.stream.write_double(n)
+        self.stream.write_double(float(n))
 
     def serialiseBytes(self, b):
         if len(b) == 0:
-- 
2.43.0


From 45886f6692408cf6f53da11834a47a2ab38df4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:49 +0000
Subject: [PATCH 096/114] fix: integers too large for AMF were refused with
 OverflowError, not EncodeError

---
 pyamf/amf0.py  |  4 +++-
 pyamf/amf3.py  |  6 ++++--
 pyamf/codec.py | 11 +++++++++++
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index baed267..fe070db 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -482,8 +482,10 @@ class Encoder(codec.Encoder):
 
         @param  n: The number data to be encoded to the AMF0 data stream.
         """
+        n = self.toFloat(n)
+
         self.writeType(TYPE_NUMBER)
-        self.stream.write_double(float(n))
+        self.stream.write_double(n)
 
     def writeBoolean(self, b):
         """
diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 3cc7ed1..bcefb2c 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1256,7 +1256,7 @@ class Encoder(codec.Encoder):
         @param  n: The integer data to be encoded to the AMF3 data stream.
         """
         if n < MIN_29B_INT or n > MAX_29B_INT:
-            self.writeNumber(float(n))
+            self.writeNumber(n)
 
             return
 
@@ -1269,8 +1269,10 @@ class Encoder(codec.Encoder):
 
         @type n: C{float}
         """
+        n = self.toFloat(n)
+
         self.stream.write(TYPE_NUMBER)
-        self.stream.write_double(float(n))
+        self.stream.write_double(n)
 
     def serialiseBytes(self, b):
         if len(b) == 0:
diff --git a/pyamf/codec.py b/pyamf/codec.py
index 06821f1..d76a55f 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -571,6 +571,17 @@ class Encoder(_Codec):
     writeXML = _write_type
     writeObject = _write_type
 
+    def toFloat(self, n):
+        """
+        Returns the number C{n} as a C{float}.
+
+        @raise pyamf.EncodeError: C{n} is out of range.
+        """
+        try:
+            return float(n)
+        except OverflowError:
+            raise pyamf.EncodeError('Unable to encode %r (out of range)' % (n,))
+
     def writeSequence(self, iterable):
         """
         Encodes an iterable. The default is to write If the iterable has an al
-- 
2.43.0


From bc4f33ac95f27fc5aba2caeda1347c63d6ce4922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:49 +0000
Subject: [PATCH 097/114] fix: keys too long for AMF0 were refused with
 OverflowError, not EncodeError

---
 pyamf/amf0.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index fe070db..2b8fb27 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -509,6 +509,10 @@ class Encoder(codec.Encoder):
         elif not isinstance(s, str):
             raise pyamf.EncodeError('AMF0 keys and names must be strings (got:%r)' % (s,))
 
+        if len(s) > 0xffff:
+            raise pyamf.EncodeError(
+                'AMF0 keys and names can have up to 65535 bytes (got:%d)' % (len(s),))
+
         self.stream.write_ushort(len(s))
         self.stream.write(s)
 
-- 
2.43.0


From 7203f2da0dd883ba8096f4b52a5a9856bc97a8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:49 +0000
Subject: [PATCH 098/114] fix: AMF0 could not encode mixed arrays with large
 indices

---
 pyamf/amf0.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 2b8fb27..baab7e7 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -597,7 +597,8 @@ class Encoder(codec.Encoder):
         except ValueError:
             max_index = 0
 
-        self.stream.write_ulong(max_index)
+        # only a hint, keys beyond are carried as text like any other
+        self.stream.write_ulong(min(int(max_index), 0xffffffff))
 
         self._writeDict(o)
         self._writeEndObject()
-- 
2.43.0


From 32ae7fa46d6803792be667738256cb8579b26320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:23 +0000
Subject: [PATCH 099/114] fix: several values were written where a generator
 stood in place of one

---
 pyamf/codec.py             | 38 +++++++++++++++++++++++++++++++-------
 pyamf/remoting/__init__.py |  6 +++---
 pyamf/sol.py               |  2 +-
 3 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/pyamf/codec.py b/pyamf/codec.py
index d76a55f..bee2ae6 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -553,6 +553,7 @@ class Encoder(_Codec):
         _Codec.__init__(self, *args, **kwargs)
 
         self.bucket = []
+        self._depth = 0
 
     def _write_type(self, obj, **kwargs):
         """
@@ -605,14 +606,21 @@ class Encoder(_Codec):
     def writeGenerator(self, gen):
         """
         Iterates over a generator object and encodes all that is returned.
+
+        @raise pyamf.EncodeError: C{gen} is part of another value, which has
+            room for exactly one.
         """
-        n = getattr(gen, 'next')
+        if self._depth > 1:
+            raise pyamf.EncodeError(
+                'Unable to encode %r within another value' % (gen,))
+
+        depth, self._depth = self._depth, 0
 
-        while True:
-            try:
-                self.writeElement(n())
-            except StopIteration:
-                break
+        try:
+            for element in gen:
+                self.writeElement(element)
+        finally:
+            self._depth = depth
 
     def getTypeFunc(self, data):
         """
@@ -753,7 +761,23 @@ class Encoder(_Codec):
             if not self._by_value:
                 self._func_cache[key] = func
 
-        func(data)
+        self._depth += 1
+
+        try:
+            func(data)
+        finally:
+            self._depth -= 1
+
+    def writeValue(self, data):
+        """
+        Encodes C{data} as exactly one AMF value, what generators are not.
+        """
+        self._depth += 1
+
+        try:
+            self.writeElement(data)
+        finally:
+            self._depth -= 1
 
     def send(self, element):
         self.bucket.append(element)
diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index ad8e0c4..4323887 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -429,7 +429,7 @@ def _write_header(name, header, required, stream, encoder, strict=False):
 
     stream.write_ulong(0)
     old_pos = stream.tell()
-    encoder.writeElement(header)
+    encoder.writeValue(header)
     new_pos = stream.tell()
 
     if strict:
@@ -538,14 +538,14 @@ def _write_body(name, message, stream, encoder, strict=False):
     """
     def _encode_body(message):
         if isinstance(message, Response):
-            encoder.writeElement(message.body)
+            encoder.writeValue(message.body)
 
             return
 
         stream.write('\x0a')
         stream.write_ulong(len(message.body))
         for x in message.body:
-            encoder.writeElement(x)
+            encoder.writeValue(x)
 
     if not isinstance(message, (Request, Response)):
         raise TypeError("Unknown message type")
diff --git a/pyamf/sol.py b/pyamf/sol.py
index 737b658..da395bc 100644
--- a/pyamf/sol.py
+++ b/pyamf/sol.py
@@ -128,7 +128,7 @@ def encode(name, values, strict=True, encoding=pyamf.AMF0):
 
     for n, v in values.iteritems():
         encoder.serialiseString(n)
-        encoder.writeElement(v)
+        encoder.writeValue(v)
 
         # write the padding
         stream.write(PADDING_BYTE)
-- 
2.43.0


From f5afdfb5f98ebbc25872de05819ef7b5a6380b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:04 +0000
Subject: [PATCH 100/114] fix: the values of a generator were written as one
 AMF3 value within AMF0

---
 pyamf/amf0.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index baab7e7..311db41 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -17,6 +17,7 @@ LocalConnection, SharedObjects and other classes in the Adobe Flash Player.
 """
 
 import datetime
+import types
 
 import pyamf
 from pyamf import util, codec, xml, python
@@ -426,10 +427,14 @@ class Encoder(codec.Encoder):
         return Context(**kwargs)
 
     def getTypeFunc(self, data):
+        t = type(data)
+
         if self.use_amf3:
-            return self.writeAMF3
+            if t is types.GeneratorType:
+                # each of its values is a value of its own
+                return self.writeGenerator
 
-        t = type(data)
+            return self.writeAMF3
 
         if t is pyamf.MixedArray:
             return self.writeMixedArray
@@ -697,7 +702,7 @@ class Encoder(codec.Encoder):
         """
         self.writeType(TYPE_AMF3)
 
-        self.context.getAMF3Encoder(self).writeElement(data)
+        self.context.getAMF3Encoder(self).writeValue(data)
 
 
 class RecordSet(object):
-- 
2.43.0


From 78dc2144527db31195e769c1eaadd627218f2e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:36 +0000
Subject: [PATCH 101/114] fix: record sets with a service name or id that is
 not ASCII could not be encoded

---
 pyamf/amf0.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 311db41..3d4abd9 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -745,13 +745,19 @@ class RecordSet(object):
         )
 
         if self.service is not None:
-            ret.update({'serviceName': str(self.service['name'])})
+            ret.update({'serviceName': self._to_text(self.service['name'])})
 
         if self.id is not None:
-            ret.update({'id': str(self.id)})
+            ret.update({'id': self._to_text(self.id)})
 
         return ret
 
+    def _to_text(self, value):
+        if isinstance(value, basestring):
+            return value
+
+        return str(value)
+
     def _set_server_info(self, val):
         self.columns = val['columnNames']
         self.items = val['initialData']
-- 
2.43.0


From 457f39c2aef3880f8238ab71c9cf9e92e2110f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:36 +0000
Subject: [PATCH 102/114] fix: a record set without columns or data escaped as
 KeyError from the decoder

---
 pyamf/amf0.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 3d4abd9..d091df0 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -759,8 +759,11 @@ class RecordSet(object):
         return str(value)
 
     def _set_server_info(self, val):
-        self.columns = val['columnNames']
-        self.items = val['initialData']
+        try:
+            self.columns = val['columnNames']
+            self.items = val['initialData']
+        except KeyError as e:
+            raise pyamf.DecodeError('Record set without %s' % (e,))
 
         try:
             # TODO nick: find relevant service and link in here.
-- 
2.43.0


From bc80b33bfd7569724b1a09e405249c52e261e72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:31 +0000
Subject: [PATCH 103/114] fix: record sets made without columns or rows shared
 their lists

---
 pyamf/amf0.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index d091df0..c62964a 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -729,9 +729,9 @@ class RecordSet(object):
         static = ('serverInfo',)
         dynamic = False
 
-    def __init__(self, columns=[], items=[], service=None, id=None):
-        self.columns = columns
-        self.items = items
+    def __init__(self, columns=None, items=None, service=None, id=None):
+        self.columns = columns if columns is not None else []
+        self.items = items if items is not None else []
         self.service = service
         self.id = id
 
-- 
2.43.0


From e14d8b848dfd994e883381a0f5f38dd26c3af3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:51 +0000
Subject: [PATCH 104/114] fix: the Twisted gateway ran protected services for
 any RemoteObject request

---
 pyamf/remoting/gateway/twisted.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/pyamf/remoting/gateway/twisted.py b/pyamf/remoting/gateway/twisted.py
index 9771a64..f5be2e3 100644
--- a/pyamf/remoting/gateway/twisted.py
+++ b/pyamf/remoting/gateway/twisted.py
@@ -170,13 +170,27 @@ class AMF3RequestProcessor(amf3.RequestProcessor):
             )
             d.addCallback(response_cb).addErrback(eb)
 
+        def auth_cb(result):
+            if result is not True:
+                raise amf3.AuthenticationError('Authentication failed')
+
+            d = defer.maybeDeferred(
+                self.gateway.preprocessRequest,
+                service_request,
+                *ro_request.body,
+                **kwargs
+            )
+            d.addCallback(process_cb).addErrback(eb)
+
+        # we have a valid service, now attempt authentication
         d = defer.maybeDeferred(
-            self.gateway.preprocessRequest,
+            self.authenticateRequest,
+            amf_request,
+            ro_request,
             service_request,
-            *ro_request.body,
             **kwargs
         )
-        d.addCallback(process_cb).addErrback(eb)
+        d.addCallback(auth_cb).addErrback(eb)
 
         return deferred_response
 
-- 
2.43.0


From 1b6b517335e9b4da154493b6c4277a36b22bd805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:51 +0000
Subject: [PATCH 105/114] fix: a malformed RemoteObject request spoilt the
 answers of the Twisted gateway

---
 pyamf/remoting/gateway/twisted.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pyamf/remoting/gateway/twisted.py b/pyamf/remoting/gateway/twisted.py
index f5be2e3..9d81510 100644
--- a/pyamf/remoting/gateway/twisted.py
+++ b/pyamf/remoting/gateway/twisted.py
@@ -202,7 +202,10 @@ class AMF3RequestProcessor(amf3.RequestProcessor):
         @rtype: C{Deferred<twisted.internet.defer.Deferred>}
         """
         deferred_response = defer.Deferred()
-        ro_request = amf_request.body[0]
+        ro_request = None
+
+        if amf_request.body:
+            ro_request = amf_request.body[0]
 
         def cb(amf_response):
             deferred_response.callback(amf_response)
@@ -214,11 +217,12 @@ class AMF3RequestProcessor(amf3.RequestProcessor):
                 self.gateway.logger.error(errMesg)
                 self.gateway.logger.error(failure.getTraceback())
 
+            fault = self.buildErrorResponse(
+                ro_request,
+                (failure.type, failure.value, failure.tb)
+            )
             deferred_response.callback(
-                self.buildErrorResponse(
-                    ro_request,
-                    (failure.type, failure.value, failure.tb)
-                )
+                remoting.Response(fault, status=remoting.STATUS_ERROR)
             )
 
         d = defer.maybeDeferred(
-- 
2.43.0


From ee2feb1ede974e26bddb05922eb50bf9544e02a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:06 +0000
Subject: [PATCH 106/114] fix: a Django object sent without all of its fields
 could not be decoded

---
 pyamf/adapters/_django_db_models_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyamf/adapters/_django_db_models_base.py b/pyamf/adapters/_django_db_models_base.py
index 4102e1f..97cf193 100644
--- a/pyamf/adapters/_django_db_models_base.py
+++ b/pyamf/adapters/_django_db_models_base.py
@@ -221,6 +221,9 @@ class DjangoClassAlias(pyamf.ClassAlias):
                 if n in self.relations:
                     continue
 
+                if n not in attrs:
+                    continue
+
                 try:
                     f = self.fields[n]
                 except KeyError:
-- 
2.43.0


From 368c96ee4d50bc913a9221c35a7ac69cc2a0ed79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:06 +0000
Subject: [PATCH 107/114] fix: Django proxy models could be neither encoded nor
 decoded

---
 pyamf/adapters/_django_db_models_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyamf/adapters/_django_db_models_base.py b/pyamf/adapters/_django_db_models_base.py
index 97cf193..7821714 100644
--- a/pyamf/adapters/_django_db_models_base.py
+++ b/pyamf/adapters/_django_db_models_base.py
@@ -100,6 +100,10 @@ class DjangoClassAlias(pyamf.ClassAlias):
         parent_fields = []
 
         for field in self.meta.parents.values():
+            if field is None:
+                # proxy models have no link to a parent row
+                continue
+
             parent_fields.append(field.attname)
             del self.relations[field.name]
 
-- 
2.43.0


From 917deaac53236fe102a92e4337896a99dced3818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:33 +0000
Subject: [PATCH 108/114] fix: sets of objects mapped with SQLAlchemy could not
 be encoded

---
 pyamf/adapters/_sqlalchemy_orm_collections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/adapters/_sqlalchemy_orm_collections.py b/pyamf/adapters/_sqlalchemy_orm_collections.py
index 4bcee47..1cb18c6 100644
--- a/pyamf/adapters/_sqlalchemy_orm_collections.py
+++ b/pyamf/adapters/_sqlalchemy_orm_collections.py
@@ -17,7 +17,7 @@ from pyamf.adapters import util
 
 pyamf.add_type(collections.InstrumentedList, util.to_list)
 pyamf.add_type(collections.InstrumentedDict, util.to_dict)
-pyamf.add_type(collections.InstrumentedSet, util.to_set)
+pyamf.add_type(collections.InstrumentedSet, util.to_list)
 
 
 if hasattr(collections, 'CollectionAdapter'):
-- 
2.43.0


From 408e483250f5db2c57f0f77708455a85c6fac300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:03 +0000
Subject: [PATCH 109/114] fix: ndb Expando models without declared properties
 could not be encoded

---
 pyamf/adapters/_google_appengine_ext_ndb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/adapters/_google_appengine_ext_ndb.py b/pyamf/adapters/_google_appengine_ext_ndb.py
index cd70f96..1755fbe 100644
--- a/pyamf/adapters/_google_appengine_ext_ndb.py
+++ b/pyamf/adapters/_google_appengine_ext_ndb.py
@@ -184,7 +184,7 @@ class NDBClassAlias(gae_base.BaseDatastoreClassAlias):
 
         if isinstance(obj, ndb.Expando):
             for name, prop in obj._properties.iteritems():
-                if name in self.model_properties:
+                if self.model_properties and name in self.model_properties:
                     continue
 
                 value = self.getAttribute(obj, name, codec=codec)
-- 
2.43.0


From cda767709356a8cc511edb419276495d782ee9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:26 +0000
Subject: [PATCH 110/114] fix: encoding an ndb entity changed its repeated
 properties

---
 pyamf/adapters/_google_appengine_ext_ndb.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pyamf/adapters/_google_appengine_ext_ndb.py b/pyamf/adapters/_google_appengine_ext_ndb.py
index 1755fbe..0400cba 100644
--- a/pyamf/adapters/_google_appengine_ext_ndb.py
+++ b/pyamf/adapters/_google_appengine_ext_ndb.py
@@ -150,14 +150,10 @@ class NDBClassAlias(gae_base.BaseDatastoreClassAlias):
         if not value:
             return []
 
-        for idx, val in enumerate(value):
-            value[idx] = adapter_models.encode_model_property(
-                obj,
-                prop,
-                val
-            )
-
-        return value
+        return [
+            adapter_models.encode_model_property(obj, prop, val)
+            for val in value
+        ]
 
     def getEncodableAttributes(self, obj, codec=None):
         attrs = super(NDBClassAlias, self).getEncodableAttributes(
-- 
2.43.0


From d6fb9bc4767f0c08ed868ceab20aafa72203e51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:26 +0000
Subject: [PATCH 111/114] fix: App Engine entities that refer to entities could
 not be decoded

---
 pyamf/adapters/gae_base.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pyamf/adapters/gae_base.py b/pyamf/adapters/gae_base.py
index c5fb671..201521b 100644
--- a/pyamf/adapters/gae_base.py
+++ b/pyamf/adapters/gae_base.py
@@ -106,6 +106,15 @@ class StubCollection(object):
         stub.__dict__.clear()
         stub.__class__ = klass
 
+        ds_entity = None
+
+        if key is not None:
+            ds_entity = self.fetched_entities.get(key, None)
+
+        if ds_entity:
+            # the entities referred to may refer back to this one
+            stub.__dict__.update(ds_entity.__dict__)
+
         for k, v in attrs.items():
             if not isinstance(v, EntityStub):
                 continue
@@ -117,14 +126,10 @@ class StubCollection(object):
 
             return
 
-        ds_entity = self.fetched_entities.get(key, None)
-
         if not ds_entity:
             attrs['key'] = key
             stub.__init__(**attrs)
         else:
-            stub.__dict__.update(ds_entity.__dict__)
-
             for k, v in attrs.items():
                 setattr(stub, k, v)
 
@@ -133,13 +138,15 @@ class StubCollection(object):
             self.fetched_entities = self.fetchEntities()
 
         if stub is not None:
-            stub, klass, key = self.stubs.pop(stub)
+            klass, key = self.stubs.pop(stub)
 
             self.transformStub(stub, klass, key)
 
             return
 
-        for stub, (klass, key) in self.stubs.iteritems():
+        while self.stubs:
+            stub, (klass, key) = self.stubs.popitem(last=False)
+
             self.transformStub(stub, klass, key)
 
 
-- 
2.43.0


From 235226c4d04e72819572c90eef3ecb745e8dbd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:26 +0000
Subject: [PATCH 112/114] fix: App Engine entities could not be decoded one
 after the other

---
 pyamf/adapters/gae_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyamf/adapters/gae_base.py b/pyamf/adapters/gae_base.py
index 201521b..1057d96 100644
--- a/pyamf/adapters/gae_base.py
+++ b/pyamf/adapters/gae_base.py
@@ -149,6 +149,10 @@ class StubCollection(object):
 
             self.transformStub(stub, klass, key)
 
+        # the next payload has its own entities to fetch
+        self.to_fetch = []
+        self.fetched_entities = None
+
 
 class BaseDatastoreClassAlias(pyamf.ClassAlias):
     """
-- 
2.43.0


From 0e3825342e1a994ba9fdcd2c2101a54c9597e35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:22 +0000
Subject: [PATCH 113/114] fix: peeking at everything with the position beyond
 the end never returned

---
 pyamf/util/pure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyamf/util/pure.py b/pyamf/util/pure.py
index 461ff8f..8e32c5b 100644
--- a/pyamf/util/pure.py
+++ b/pyamf/util/pure.py
@@ -561,7 +561,7 @@ class BufferedByteStream(StringIOProxy, DataTypeMixIn):
         @return: Bytes.
         """
         if size == -1:
-            return self.peek(len(self) - self.tell())
+            return self.peek(self.remaining())
 
         if size < -1:
             raise ValueError("Cannot peek backwards")
@@ -583,7 +583,7 @@ class BufferedByteStream(StringIOProxy, DataTypeMixIn):
         @rtype: C{number}
         @return: Number of remaining bytes.
         """
-        return len(self) - self.tell()
+        return max(len(self) - self.tell(), 0)
 
     def at_eof(self):
         """
-- 
2.43.0


From 020f175f74501b782442ec1b6cb74b002c534055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:30 +0000
Subject: [PATCH 114/114] fix: settings of service methods made on the fly did
 not apply

---
 pyamf/remoting/gateway/__init__.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/pyamf/remoting/gateway/__init__.py b/pyamf/remoting/gateway/__init__.py
index 5a04cf0..aadd472 100644
--- a/pyamf/remoting/gateway/__init__.py
+++ b/pyamf/remoting/gateway/__init__.py
@@ -153,11 +153,32 @@ class ServiceWrapper(object):
 
         return callables
 
+    def _getMethods(self, name):
+        """
+        Like L{getMethods}, but with the method called C{name} also where the
+        service makes it on the fly (C{__getattr__}).
+        """
+        callables = self.getMethods()
+
+        if isinstance(self.service, python.class_types) or not name:
+            return callables
+
+        if name not in callables and not name.startswith('_'):
+            try:
+                method = getattr(self.service, str(name), None)
+            except UnicodeError:
+                method = None
+
+            if python.callable(method):
+                callables[name] = method
+
+        return callables
+
     def getAuthenticator(self, service_request=None):
         if service_request is None:
             return self.authenticator
 
-        methods = self.getMethods()
+        methods = self._getMethods(service_request.method)
 
         if service_request.method is None:
             for func in (self.service, getattr(self.service, '__call__', None)):
@@ -178,7 +199,7 @@ class ServiceWrapper(object):
         if service_request is None:
             return self.expose_request
 
-        methods = self.getMethods()
+        methods = self._getMethods(service_request.method)
 
         if service_request.method is None:
             for func in (self.service, getattr(self.service, '__call__', None)):
@@ -201,7 +222,7 @@ class ServiceWrapper(object):
         if service_request is None:
             return self.preprocessor
 
-        methods = self.getMethods()
+        methods = self._getMethods(service_request.method)
 
         if service_request.method is None:
             for func in (self.service, getattr(self.service, '__call__', None)):
-- 
2.43.0

