From 91dba66194d920c49a297c3aade3a1b225f5e134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:30 +0000
Subject: [PATCH 01/39] fix: readable forms of method type, method handle,
 module, package and dynamic constants

---
 javatools/__init__.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index 4cb55db..527a623 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -398,13 +398,17 @@ class JavaConstantPool(object):
             result = "Dynamic %r %r" % (v[0], self.deref_const(v[1]))
 
         elif t == CONST_MethodType:
-            result = "MethodType %r %r" % (v[0], self.deref_const(v[1]))
+            result = "MethodType %s" % self.deref_const(v)
+
+        elif t == CONST_MethodHandle:
+            # TODO: v[0] treat index according to its kind
+            result = "MethodHandle %r %r" % (v[0], self.deref_const(v[1]))
 
         elif t == CONST_Module:
-            result = "Module %s" % self.deref_cons(v[0])
+            result = "Module %s" % self.deref_const(v)
 
         elif t == CONST_Package:
-            result = "Package %s" % self.deref_cons(v[0])
+            result = "Package %s" % self.deref_const(v)
 
         elif not t:
             # the skipped-type, meaning the prior index was a
@@ -2220,6 +2224,9 @@ def _pretty_const_type_val(typecode, val):
     elif typecode == CONST_InvokeDynamic:
         typestr = "InvokeDynamic"
         val = repr(val)
+    elif typecode == CONST_Dynamic:
+        typestr = "Dynamic"
+        val = repr(val)
     elif typecode == CONST_Module:
         typestr = "Module"
     elif typecode == CONST_Package:
-- 
2.43.0


From fa8f3c27bfd68528f499d6fcdbcd633f0697be02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:51 +0000
Subject: [PATCH 02/39] fix: bipush operand is a signed byte

---
 javatools/opcodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/opcodes.py b/javatools/opcodes.py
index 6914b1d..8238396 100644
--- a/javatools/opcodes.py
+++ b/javatools/opcodes.py
@@ -282,7 +282,7 @@ OP_athrow = __op('athrow', 0xbf)
 
 OP_baload = __op('baload', 0x33)
 OP_bastore = __op('bastore', 0x54)
-OP_bipush = __op('bipush', 0x10, fmt='>B')
+OP_bipush = __op('bipush', 0x10, fmt='>b')
 
 OP_caload = __op('caload', 0x34)
 OP_castore = __op('castore', 0x55)
-- 
2.43.0


From 2633285d96102cacd0d94f374aafe4a8dda3a933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:51 +0000
Subject: [PATCH 03/39] fix: multianewarray operand refers to the constant pool

---
 javatools/opcodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/opcodes.py b/javatools/opcodes.py
index 8238396..e477718 100644
--- a/javatools/opcodes.py
+++ b/javatools/opcodes.py
@@ -457,7 +457,7 @@ OP_lxor = __op('lxor', 0x83)
 
 OP_monitorentry = __op('monitorentry', 0xc2)
 OP_monitorexit = __op('monitorexit', 0xc3)
-OP_multianewarray = __op('multianewarray', 0xc5, fmt='>HB')
+OP_multianewarray = __op('multianewarray', 0xc5, fmt='>HB', const=True)
 
 OP_new = __op('new', 0xbb, fmt='>H', const=True)
 OP_newarray = __op('newarray', 0xbc, fmt='>B')
-- 
2.43.0


From 0446857db11927ec1f34be117c64032ba55d42fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:51 +0000
Subject: [PATCH 04/39] fix: Deprecated and Synthetic attributes are empty but
 count when present

---
 javatools/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index 527a623..212941a 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -696,7 +696,7 @@ class JavaClassInfo(object):
         reference: http://docs.oracle.com/javase/specs/jvms/se7/html/jvms-4.html#jvms-4.7.15
         """  # noqa
 
-        return bool(self.get_attribute("Deprecated"))
+        return self.get_attribute("Deprecated") is not None
 
 
     def get_super(self):
@@ -1238,7 +1238,7 @@ class JavaMemberInfo(object):
         """  # noqa
 
         return ((self.access_flags & ACC_SYNTHETIC) or
-                bool(self.get_attribute("Synthetic")))
+                (self.get_attribute("Synthetic") is not None))
 
 
     def is_enum(self):
@@ -1264,7 +1264,7 @@ class JavaMemberInfo(object):
         reference: http://docs.oracle.com/javase/specs/jvms/se5.0/html/ClassFile.doc.html#78232
         """  # noqa
 
-        return bool(self.get_attribute("Deprecated"))
+        return self.get_attribute("Deprecated") is not None
 
 
     def _get_annotations(self, python_attr_name, java_attr_name,
-- 
2.43.0


From 3820bcbb38a617515b2cd06ed96d65c1647f5164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:20 +0000
Subject: [PATCH 05/39] fix: merge_code keeps the instructions of a line that
 is left and entered again

---
 javatools/classdiff.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index 5323bd6..39ef56b 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -924,22 +924,17 @@ def merge_code(left_code, right_code):
 
     data = dict()
 
-    code_lines = (left_code and left_code.iter_code_by_lines()) or tuple()
-    for abs_line, rel_line, dis in code_lines:
-        assert rel_line is not None
+    for side, code in enumerate((left_code, right_code)):
+        code_lines = (code and code.iter_code_by_lines()) or tuple()
+        for abs_line, rel_line, dis in code_lines:
+            assert rel_line is not None
 
-        data[rel_line] = [(abs_line, dis), None]
+            found = data.setdefault(rel_line, [None, None])
+            if found[side] is not None:
+                # the line was left and entered again
+                dis = found[side][1] + dis
 
-    code_lines = (right_code and right_code.iter_code_by_lines()) or tuple()
-    for abs_line, rel_line, dis in code_lines:
-        assert rel_line is not None
-
-        found = data.get(rel_line, None)
-        if found is None:
-            found = [None, (abs_line, dis)]
-            data[rel_line] = found
-        else:
-            found[1] = (abs_line, dis)
+            found[side] = (abs_line, dis)
 
     return data
 
-- 
2.43.0


From 79c6137fa9dae190128204d301548cd90d77bf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:02 +0000
Subject: [PATCH 06/39] fix: members that share an identifier are each
 compared, added or removed

---
 javatools/classdiff.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index 39ef56b..95ec199 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -305,20 +305,20 @@ class ClassMembersChange(SuperChange):
         li = {}
 
         for member in self.ldata:
-            li[member.get_identifier()] = member
+            # identifiers need not be unique
+            li.setdefault(member.get_identifier(), []).append(member)
 
         for member in self.rdata:
-            key = member.get_identifier()
-            lf = li.get(key, None)
+            lf = li.get(member.get_identifier(), None)
 
             if lf:
-                del li[key]
-                yield self.member_changed(lf, member)
+                yield self.member_changed(lf.pop(0), member)
             else:
                 yield self.member_added(None, member)
 
-        for member in li.values():
-            yield self.member_removed(member, None)
+        for members in li.values():
+            for member in members:
+                yield self.member_removed(member, None)
 
 
 class CodeAbsoluteLinesChange(GenericChange):
-- 
2.43.0


From e5069383057c9a248e779754d9104767dce7fdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:02 +0000
Subject: [PATCH 07/39] fix: pretty_merge_constants lists the last common index
 once

---
 javatools/classdiff.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index 95ec199..bef7ad9 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -897,19 +897,20 @@ def pretty_merge_constants(left_cpool, right_cpool):
     lsize = len(left_cpool.consts)
     rsize = len(right_cpool.consts)
 
-    index = 1
-    for index in range(1, min(lsize, rsize)):
+    common = max(min(lsize, rsize), 1)
+
+    for index in range(1, common):
         lt, lv = left_cpool.pretty_const(index)
         rt, rv = right_cpool.pretty_const(index)
         yield (index, lt, lv, rt, rv)
 
     if lsize > rsize:
-        for index in range(index, lsize):
+        for index in range(common, lsize):
             lt, lv = left_cpool.pretty_const(index)
             yield (index, lt, lv, None, None)
 
     elif rsize > lsize:
-        for index in range(index, rsize):
+        for index in range(common, rsize):
             rt, rv = right_cpool.pretty_const(index)
             yield (index, None, None, rt, rv)
 
-- 
2.43.0


From 69348e2bb3e5ebe644c7691892331345261f5b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:31 +0000
Subject: [PATCH 08/39] fix: a NaN constant is the same as itself when classes
 are compared

---
 javatools/__init__.py  | 19 ++++++++++++++++++-
 javatools/classdiff.py |  6 +++++-
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index 212941a..866f29c 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -1994,7 +1994,7 @@ def _annotation_val_eq(left_tag, left_data, left_cpool,
     rconst = right_cpool.deref_const
 
     if left_tag in 'BCDFIJSZs':
-        return lconst(left_data) == rconst(right_data)
+        return _const_val_eq(lconst(left_data), rconst(right_data))
 
     elif left_tag == 'e':
         return ((lconst(left_data[0]) == rconst(right_data[0])) and
@@ -2116,6 +2116,19 @@ def platform_from_version(major, minor):
 # Utility functions for the constants pool
 
 
+# the one value of every NaN constant, so that pools compare as equal
+_NAN = float("nan")
+
+
+def _const_val_eq(left, right):
+    """
+    whether two dereferenced constants are the same. Unlike the numbers,
+    a NaN constant is the same as another
+    """
+
+    return left == right or (left != left and right != right)
+
+
 def _unpack_const_item(unpacker):
     """
     unpack a constant pool item, which will consist of a type byte
@@ -2142,12 +2155,16 @@ def _unpack_const_item(unpacker):
 
     elif typecode == CONST_Float:
         (val,) = unpacker.unpack(">f")
+        if val != val:
+            val = _NAN
 
     elif typecode == CONST_Long:
         (val,) = unpacker.unpack(">q")
 
     elif typecode == CONST_Double:
         (val,) = unpacker.unpack(">d")
+        if val != val:
+            val = _NAN
 
     elif typecode in (CONST_Class, CONST_String, CONST_MethodType,
                       CONST_Module, CONST_Package):
diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index bef7ad9..4cb0cfb 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -31,7 +31,7 @@ from abc import ABCMeta
 from argparse import ArgumentParser, Action
 from six import add_metaclass
 
-from . import unpack_classfile
+from . import unpack_classfile, _const_val_eq
 from .change import GenericChange, SuperChange
 from .change import Addition, Removal
 from .change import yield_sorted_by_type
@@ -726,6 +726,10 @@ class FieldConstvalueChange(GenericChange):
         return c.deref_constantvalue()
 
 
+    def fn_differ(self, left_data, right_data):
+        return not _const_val_eq(left_data, right_data)
+
+
     def fn_pretty(self, c):
         return repr(c.deref_constantvalue())
 
-- 
2.43.0


From fe74fb8f216487a5176a78ebe8a05103f7817c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:47 +0000
Subject: [PATCH 09/39] fix: a class constant is not the string constant that
 spells its name

---
 javatools/classdiff.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index 4cb0cfb..8ac4170 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -423,6 +423,12 @@ class CodeConstantsChange(GenericChange):
         return pr
 
 
+    def _deref_const(self, code, index):
+        # with its type, a class is not the string that spells its name
+        value = code.cpool.deref_const(index)
+        return code.cpool.get_const(index)[0], value
+
+
     def check_impl(self):
         left = self.ldata
         right = self.rdata
@@ -445,8 +451,8 @@ class CodeConstantsChange(GenericChange):
 
             if has_const_arg(l[1]):
                 largs, rargs = list(largs), list(rargs)
-                largs[0] = left.cpool.deref_const(largs[0])
-                rargs[0] = right.cpool.deref_const(rargs[0])
+                largs[0] = self._deref_const(left, largs[0])
+                rargs[0] = self._deref_const(right, rargs[0])
 
             if largs != rargs:
                 offsets.append(l[0])
-- 
2.43.0


From fd7142ecdfebfe7674f503b0cc4ca5b67e7b2c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:45 +0000
Subject: [PATCH 10/39] fix: code bodies with different numbers of instructions
 differ

---
 javatools/classdiff.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index 8ac4170..f8cba84 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -495,6 +495,10 @@ class CodeBodyChange(GenericChange):
                    (len(left.code), len(right.code))
             return True, desc
 
+        if len(left.disassemble()) != len(right.disassemble()):
+            # the last common instruction is longer on one side
+            return True, None
+
         for l, r in zip(left.disassemble(), right.disassemble()):
             if not ((l[0] == r[0]) and (l[1] == r[1])):
                 return True, None
-- 
2.43.0


From 248c8b255261693744a4bed4ad67dbd9ecb7d27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:49 +0000
Subject: [PATCH 11/39] fix: platform changes are ignored by the platform
 options

---
 javatools/classdiff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index f8cba84..062d6ab 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -130,8 +130,8 @@ class ClassPlatformChange(GenericChange):
         lver = self.ldata.version
         rver = self.rdata.version
 
-        return ((o.ignore_version_up and lver < rver) or
-                (o.ignore_version_down and lver > rver))
+        return ((o.ignore_platform_up and lver < rver) or
+                (o.ignore_platform_down and lver > rver))
 
 
 class ClassSuperclassChange(GenericChange):
-- 
2.43.0


From 21ee9d88437b525d8253dce74fa8496860754a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:52 +0000
Subject: [PATCH 12/39] fix: --ignore lines, platform and version act as the
 options of those names

---
 javatools/classdiff.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/javatools/classdiff.py b/javatools/classdiff.py
index 062d6ab..980f3b2 100644
--- a/javatools/classdiff.py
+++ b/javatools/classdiff.py
@@ -1026,6 +1026,14 @@ def add_classdiff_optgroup(parser):
                    action=_opt_cb_ign_version)
 
 
+# ignore options which stand for several others
+_IGNORE_IMPLIES = {
+    "ignore_lines": ("ignore_absolute_lines", "ignore_relative_lines"),
+    "ignore_platform": ("ignore_platform_up", "ignore_platform_down"),
+    "ignore_version": ("ignore_version_up", "ignore_version_down"),
+}
+
+
 class _opt_cb_ignore(Action):
     """
     handle the --ignore option, which trigges other options
@@ -1044,7 +1052,12 @@ class _opt_cb_ignore(Action):
         ign = (i for i in ign if i)
         for i in ign:
             ignore.append(i)
-            setattr(options, "ignore_" + i.replace("-", "_"), True)
+            name = "ignore_" + i.replace("-", "_")
+            setattr(options, name, True)
+
+            # some of the options stand for several others
+            for implied in _IGNORE_IMPLIES.get(name, ()):
+                setattr(options, implied, True)
 
 
 class _opt_cb_ign_lines(Action):
-- 
2.43.0


From d93e31a197b7796bf0edee3f8d787478a25cf9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:11 +0000
Subject: [PATCH 13/39] fix: manifest keys are ignored without regard for case,
 and nothing else with them

---
 javatools/manifest.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 7f27418..9218837 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -124,6 +124,22 @@ _add_digest("SHA-384", "sha384")
 _add_digest("SHA-512", "sha512")
 
 
+def _same_but_for_ignored(lsection, rsection, options):
+    """
+    True if some manifest keys are to be ignored (without regard for
+    case), and without those the two sections are the same
+    """
+
+    ikeys = getattr(options, "ignore_manifest_key", None)
+    if not ikeys:
+        return False
+
+    ikeys = set(k.lower() for k in ikeys)
+    left = [(k, v) for k, v in lsection.items() if k.lower() not in ikeys]
+    right = [(k, v) for k, v in rsection.items() if k.lower() not in ikeys]
+    return left == right
+
+
 class ManifestSectionChange(GenericChange):
     label = "Manifest Subsection"
 
@@ -141,15 +157,7 @@ class ManifestSectionChange(GenericChange):
         if getattr(options, "ignore_manifest_subsections", False):
             return True
 
-        ikeys = set(getattr(options, "ignore_manifest_key", set()))
-        if ikeys:
-            lset = set(self.ldata.items())
-            rset = set(self.rdata.items())
-            changed = set(k for k, _v in lset.symmetric_difference(rset))
-            return changed.issubset(ikeys)
-
-        else:
-            return False
+        return _same_but_for_ignored(self.ldata, self.rdata, options)
 
 
 class ManifestSectionAdded(ManifestSectionChange, Addition):
@@ -189,15 +197,7 @@ class ManifestMainChange(GenericChange):
 
 
     def is_ignored(self, options):
-        ikeys = set(getattr(options, "ignore_manifest_key", set()))
-        if ikeys:
-            lset = set(self.ldata.items())
-            rset = set(self.rdata.items())
-            changed = set(k for k, _v in lset.symmetric_difference(rset))
-            return changed.issubset(ikeys)
-
-        else:
-            return False
+        return _same_but_for_ignored(self.ldata, self.rdata, options)
 
 
 class ManifestChange(SuperChange):
-- 
2.43.0


From 347eb1006440dc7fbcd18fb0b5653eb0d0ea4836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:27 +0000
Subject: [PATCH 14/39] fix: entries of jar signatures are ignored by name and
 by their content as other entries are

---
 javatools/jardiff.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/javatools/jardiff.py b/javatools/jardiff.py
index 08d09c6..7a74a7e 100644
--- a/javatools/jardiff.py
+++ b/javatools/jardiff.py
@@ -114,7 +114,8 @@ class JarContentChange(SuperChange):
 
 
     def is_ignored(self, options):
-        return fnmatches(self.entry, *options.ignore_jar_entry) or \
+        patterns = getattr(options, "ignore_jar_entry", ())
+        return fnmatches(self.entry, *patterns) or \
             super(JarContentChange, self).is_ignored(options)
 
 
@@ -206,7 +207,8 @@ class JarSignatureFileChange(JarContentChange):
     label = "Jar Signature File"
 
     def is_ignored(self, options):
-        return options.ignore_jar_signature
+        return options.ignore_jar_signature or \
+            super(JarSignatureFileChange, self).is_ignored(options)
 
     def collect_impl(self):
         if self.is_change():
@@ -226,7 +228,8 @@ class JarSignatureFileAdded(JarContentAdded):
     label = "Jar Signature File Added"
 
     def is_ignored(self, options):
-        return options.ignore_jar_signature
+        return options.ignore_jar_signature or \
+            super(JarSignatureFileAdded, self).is_ignored(options)
 
 
 class JarSignatureFileRemoved(JarContentRemoved):
@@ -234,7 +237,8 @@ class JarSignatureFileRemoved(JarContentRemoved):
     label = "Jar Signature File Removed"
 
     def is_ignored(self, options):
-        return options.ignore_jar_signature
+        return options.ignore_jar_signature or \
+            super(JarSignatureFileRemoved, self).is_ignored(options)
 
 
 class JarSignatureBlockFileChange(JarContentChange):
@@ -242,7 +246,8 @@ class JarSignatureBlockFileChange(JarContentChange):
     label = "Jar Signature Block File"
 
     def is_ignored(self, options):
-        return options.ignore_jar_signature
+        return options.ignore_jar_signature or \
+            super(JarSignatureBlockFileChange, self).is_ignored(options)
 
     def collect_impl(self):
         if self.is_change():
@@ -258,7 +263,8 @@ class JarSignatureBlockFileAdded(JarContentAdded):
 
 
     def is_ignored(self, options):
-        return options.ignore_jar_signature
+        return options.ignore_jar_signature or \
+            super(JarSignatureBlockFileAdded, self).is_ignored(options)
 
 
 class JarSignatureBlockFileRemoved(JarContentRemoved):
@@ -267,7 +273,8 @@ class JarSignatureBlockFileRemoved(JarContentRemoved):
 
 
     def is_ignored(self, options):
-        return options.ignore_jar_signature
+        return options.ignore_jar_signature or \
+            super(JarSignatureBlockFileRemoved, self).is_ignored(options)
 
 
 class GenericFileChange(GenericChange):
-- 
2.43.0


From 36483bbde24094e3fd2c1893b92a7ebf39961cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:27 +0000
Subject: [PATCH 15/39] fix: writing a manifest attribute with an empty value
 raised TypeError

---
 javatools/manifest.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 9218837..0355cfe 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -771,8 +771,8 @@ def write_key_val(stream, key, val, linesep=os.linesep):
     if hasattr(stream, 'buffer'):
         stream = stream.buffer
 
-    key = key.encode('utf-8') or ""
-    val = val.encode('utf-8') or ""
+    key = key.encode('utf-8')
+    val = val.encode('utf-8')
     linesep = linesep.encode('utf-8')
 
     if not (0 < len(key) < 69):
-- 
2.43.0


From f97d048d253c068074962e21e0c2c890b556b3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:07 +0000
Subject: [PATCH 16/39] fix: parsing a manifest lost characters folded over two
 lines and broke lines at characters that are no line endings

---
 javatools/manifest.py | 44 +++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 0355cfe..ebe49ba 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -374,8 +374,6 @@ class Manifest(ManifestSection):
         :type data: bytes
         """
 
-        # we want at least some data, thus we ignore unknown characters
-        data = data.decode('utf-8', errors="ignore")
         self.linesep = detect_linesep(data)
 
         # the first section is the main one for the manifest. It's
@@ -695,23 +693,41 @@ def b64_encoded_digest(data, algorithm):
 
 def detect_linesep(data):
     """
-    :type data: unicode in Py2, str in Py3
+    :type data: bytes
     """
-    return "\r\n" if "\r\n" in data else "\n"
+    return "\r\n" if b"\r\n" in data else "\n"
 
 
 def parse_sections(data):
     """
     yields one section at a time in the form
 
+    [ (key, [val]), ... ]
+
+    where key is a string and val is a string, the value associated
+    with the key. A value that is long enough to require line
+    continuations is put together again before it is decoded, as lines
+    are limited in bytes and may break in the middle of a character.
+    :param data: UTF-8 encoded manifest
+    :type data: bytes
+    """
+
+    for section in _parse_raw_sections(data):
+        # we want at least some data, thus we ignore unknown characters
+        yield [(key.decode('utf-8', 'ignore'),
+                [b"".join(vals).decode('utf-8', 'ignore')])
+               for key, vals in section]
+
+
+def _parse_raw_sections(data):
+    """
+    yields one section at a time in the form
+
     [ (key, [val, ...]), ... ]
 
-    where key is a string and val is a string representing a single
-    line of any value associated with the key. Multiple vals may be
-    present if the value is long enough to require line continuations
-    in which case simply concatenate the vals together to get the full
-    value.
-    :type data: unicode in Py2, str in Py3
+    where key is the encoded key, and each val is what a single line
+    holds of the encoded value. Lines end in CR, LF, or both.
+    :type data: bytes
     """
 
     if not data:
@@ -722,7 +738,7 @@ def parse_sections(data):
 
     for lineno, line in enumerate(data.splitlines()):
         # Clean up the line
-        cleanline = line.replace('\x00', '')
+        cleanline = line.replace(b'\x00', b'')
 
         if not cleanline:
             # blank line means end of current section (if any)
@@ -730,7 +746,7 @@ def parse_sections(data):
                 yield curr
                 curr = None
 
-        elif cleanline[0] == ' ':
+        elif cleanline.startswith(b' '):
             # line beginning with a space means a continuation
             if curr is None:
                 raise MalformedManifest("bad line continuation, "
@@ -745,12 +761,12 @@ def parse_sections(data):
                 curr = list()
 
             try:
-                key, val = cleanline.split(':', 1)
+                key, val = cleanline.split(b':', 1)
                 curr.append((key, [val[1:]]))
             except ValueError:
                 raise MalformedManifest(
                     "Invalid manifest line: %i; line contents: %s"
-                    % (lineno, cleanline))
+                    % (lineno, cleanline.decode('utf-8', 'replace')))
 
 
     # yield and leftovers
-- 
2.43.0


From 236edc1f412ff46474473a652789aa19151ca043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:41 +0000
Subject: [PATCH 17/39] fix: the name of a digest is its key without the
 suffix, whatever characters it ends with

---
 javatools/manifest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index ebe49ba..04044b9 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -302,7 +302,8 @@ class ManifestSection(OrderedDict):
         """
         :return: list of keys ending with given :suffix:.
         """
-        return [k.rstrip(suffix) for k in self.keys() if k.endswith(suffix)]
+        return [k[:len(k) - len(suffix)] for k in self.keys()
+                if k.endswith(suffix)]
 
 
 class Manifest(ManifestSection):
-- 
2.43.0


From bb7b511986deb3e4ab10db67a7cef061c19a9b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:41 +0000
Subject: [PATCH 18/39] fix: entries without digests fail verification only
 where it is strict

---
 javatools/manifest.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 04044b9..d0a62a6 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -445,8 +445,9 @@ class Manifest(ManifestSection):
             file_section = self.create_section(filename, overwrite=False)
 
             digests = file_section.keys_with_suffix("-Digest")
-            if not digests and strict:
-                verify_failures.append(filename)
+            if not digests:
+                if strict:
+                    verify_failures.append(filename)
                 continue
 
             for java_digest in digests:
@@ -609,8 +610,9 @@ class SignatureManifest(Manifest):
             sf_section = self.create_section(s.primary(), overwrite=False)
 
             digests = s.keys_with_suffix("-Digest")
-            if not digests and strict:
-                failures.append(s.primary())
+            if not digests:
+                if strict:
+                    failures.append(s.primary())
                 continue
 
             for java_digest in digests:
-- 
2.43.0


From 3d8e6cf197f5667b7bc580baaf90cf41dae07e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:41 +0000
Subject: [PATCH 19/39] fix: sections of a manifest are verified by the digests
 the signature file records

---
 javatools/manifest.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index d0a62a6..2d95620 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -606,10 +606,12 @@ class SignatureManifest(Manifest):
 
         failures = []
 
+        linesep = manifest.linesep or os.linesep
+
         for s in manifest.sub_sections.values():
             sf_section = self.create_section(s.primary(), overwrite=False)
 
-            digests = s.keys_with_suffix("-Digest")
+            digests = sf_section.keys_with_suffix("-Digest")
             if not digests:
                 if strict:
                     failures.append(s.primary())
@@ -617,7 +619,7 @@ class SignatureManifest(Manifest):
 
             for java_digest in digests:
                 section_digest = b64_encoded_digest(
-                    s.get_data(manifest.linesep),
+                    s.get_data(linesep),
                     _get_digest(java_digest))
 
                 if section_digest == sf_section.get(java_digest + "-Digest"):
-- 
2.43.0


From 61358bac585fc6ccd000d3f95fe3950f81fc1d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:13 +0000
Subject: [PATCH 20/39] fix: ziputils.compare closed both archives before
 comparing them

---
 javatools/ziputils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/javatools/ziputils.py b/javatools/ziputils.py
index 4b92ca3..3dc447a 100644
--- a/javatools/ziputils.py
+++ b/javatools/ziputils.py
@@ -54,7 +54,9 @@ def compare(left, right):
     """
 
     with open_zip(left) as lz, open_zip(right) as rz:
-        return compare_zips(lz, rz)
+        # the archives must stay open for as long as pairs are produced
+        for event in compare_zips(lz, rz):
+            yield event
 
 
 def compare_zips(left, right):
-- 
2.43.0


From 39b3f3b3908a6e9f2f4594268e4d640ecac1472d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:15 +0000
Subject: [PATCH 21/39] fix: entries of an exploded archive were read as text

---
 javatools/ziputils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/javatools/ziputils.py b/javatools/ziputils.py
index 3dc447a..5910b1b 100644
--- a/javatools/ziputils.py
+++ b/javatools/ziputils.py
@@ -290,7 +290,10 @@ class ExplodedZipFile(object):
         return self.members.values()
 
 
-    def open(self, name, mode='rb'):
+    def open(self, name, mode='r'):
+        # as with ZipFile.open, the stream of an entry is always binary
+        if "b" not in mode:
+            mode += "b"
         return open(join(self.fn, name), mode)
 
 
-- 
2.43.0


From 5c20297cd220e2923febf55a4458d503d6be6cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:42 +0000
Subject: [PATCH 22/39] fix: comparing trees with two common directories raised
 TypeError

---
 javatools/dirutils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/javatools/dirutils.py b/javatools/dirutils.py
index b5c2174..b278e84 100644
--- a/javatools/dirutils.py
+++ b/javatools/dirutils.py
@@ -136,9 +136,8 @@ def _gen_from_dircmp(dc, lpath, rpath):
     for f in same_files:
         yield (BOTH, join(relpath(dc.left, lpath), f))
 
-    subdirs = dc.subdirs.values()
-    subdirs = sorted(subdirs)
-    for sub in subdirs:
+    # dircmp instances cannot be ordered, their names can
+    for _name, sub in sorted(dc.subdirs.items(), key=lambda item: item[0]):
         for event in _gen_from_dircmp(sub, lpath, rpath):
             yield event
 
-- 
2.43.0


From 74cdf08cec03ea7b08e114a05ae7071b6e533dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:45 +0000
Subject: [PATCH 23/39] fix: files of equal size and modification time were
 reported as same whatever their content

---
 javatools/dirutils.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/javatools/dirutils.py b/javatools/dirutils.py
index b278e84..43cfba1 100644
--- a/javatools/dirutils.py
+++ b/javatools/dirutils.py
@@ -22,7 +22,7 @@ trees
 """
 
 
-from filecmp import dircmp
+from filecmp import clear_cache, cmpfiles, dircmp
 from fnmatch import fnmatch
 from os import makedirs, walk
 from os.path import exists, isdir, join, relpath
@@ -89,6 +89,10 @@ def compare(left, right):
     BOTH constants. This generator recursively walks both trees.
     """
 
+    # files may have been changed since an earlier comparison, keeping
+    # their size and modification time
+    clear_cache()
+
     dc = dircmp(left, right, ignore=[])
     return _gen_from_dircmp(dc, left, right)
 
@@ -124,13 +128,17 @@ def _gen_from_dircmp(dc, lpath, rpath):
         else:
             yield (RIGHT, relpath(fp, rpath))
 
-    diff_files = dc.diff_files
+    # dircmp itself would take files of the same size and modification
+    # time to be the same, without looking at their content
+    same_files, diff_files, _errors = cmpfiles(dc.left, dc.right,
+                                               dc.common_files,
+                                               shallow=False)
+
     diff_files.sort()
 
     for f in diff_files:
         yield (DIFF, join(relpath(dc.right, rpath), f))
 
-    same_files = dc.same_files
     same_files.sort()
 
     for f in same_files:
-- 
2.43.0


From 2cad98f4849bd32f456381fd7076fce67d1be391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:07 +0000
Subject: [PATCH 24/39] fix: a name that is a file in one tree and a directory
 in the other was not reported

---
 javatools/dirutils.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/javatools/dirutils.py b/javatools/dirutils.py
index 43cfba1..12c748f 100644
--- a/javatools/dirutils.py
+++ b/javatools/dirutils.py
@@ -102,7 +102,12 @@ def _gen_from_dircmp(dc, lpath, rpath):
     do the work of comparing the dircmp
     """
 
-    left_only = dc.left_only
+    # a name which is a directory on one side but not on the other
+    # stands for separate entries, each of them on one side only
+    mixed = [f for f in dc.common_funny
+             if isdir(join(dc.left, f)) != isdir(join(dc.right, f))]
+
+    left_only = dc.left_only + mixed
     left_only.sort()
 
     for f in left_only:
@@ -115,7 +120,7 @@ def _gen_from_dircmp(dc, lpath, rpath):
         else:
             yield (LEFT, relpath(fp, lpath))
 
-    right_only = dc.right_only
+    right_only = dc.right_only + mixed
     right_only.sort()
 
     for f in right_only:
@@ -130,10 +135,12 @@ def _gen_from_dircmp(dc, lpath, rpath):
 
     # dircmp itself would take files of the same size and modification
     # time to be the same, without looking at their content
-    same_files, diff_files, _errors = cmpfiles(dc.left, dc.right,
-                                               dc.common_files,
-                                               shallow=False)
+    same_files, diff_files, errors = cmpfiles(dc.left, dc.right,
+                                              dc.common_files,
+                                              shallow=False)
 
+    # what cannot be compared is not known to be the same
+    diff_files += errors
     diff_files.sort()
 
     for f in diff_files:
-- 
2.43.0


From 7e849ef8be45354d9273345d11535ddd2940668f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:30 +0000
Subject: [PATCH 25/39] fix: reporting unchanged items of jars without entries
 raised AssertionError

---
 javatools/change.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/javatools/change.py b/javatools/change.py
index ba4fbcd..c185b66 100644
--- a/javatools/change.py
+++ b/javatools/change.py
@@ -409,7 +409,7 @@ class SuperChange(GenericChange):
 
     def __init__(self, ldata, rdata):
         super(SuperChange, self).__init__(ldata, rdata)
-        self.changes = tuple()
+        self.changes = None
 
 
     def fn_pretty(self, c):
@@ -423,9 +423,9 @@ class SuperChange(GenericChange):
 
         super(SuperChange, self).clear()
 
-        for c in self.changes:
+        for c in self.changes or ():
             c.clear()
-        self.changes = tuple()
+        self.changes = None
 
 
     def collect_impl(self):
@@ -449,7 +449,8 @@ class SuperChange(GenericChange):
         time, unless force is True
         """
 
-        if force or not self.changes:
+        # None until collected, having no children is a result as well
+        if force or self.changes is None:
             self.changes = tuple(self.collect_impl())
         return self.changes
 
-- 
2.43.0


From 5917fd1d6d79cad073bf5762be9b1e859a87898e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:33 +0000
Subject: [PATCH 26/39] fix: files of a distribution that differ in content
 alone were reported unchanged

---
 javatools/distdiff.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/javatools/distdiff.py b/javatools/distdiff.py
index 5da4d79..08f23a9 100644
--- a/javatools/distdiff.py
+++ b/javatools/distdiff.py
@@ -107,6 +107,19 @@ class DistContentChange(SuperChange):
         return tuple()
 
 
+    def check_impl(self):
+        """
+        a difference in content which has no deeper meaning to compare,
+        and so no children, is a change by itself
+        """
+
+        differs = self.changed
+        c, desc = super(DistContentChange, self).check_impl()
+        if not self.collect():
+            c = differs
+        return c, desc
+
+
     def get_description(self):
         c = "has changed" if self.is_change() else "is unchanged"
         return "%s %s: %s" % (self.label, c, self.entry)
-- 
2.43.0


From 5f8b1e911c4533d7104f255741842335b3be5bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:51 +0000
Subject: [PATCH 27/39] fix: text files that are no UTF-8 could not be
 compared, and line endings were no difference

---
 javatools/distdiff.py | 43 +++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/javatools/distdiff.py b/javatools/distdiff.py
index 08f23a9..bafbc44 100644
--- a/javatools/distdiff.py
+++ b/javatools/distdiff.py
@@ -148,6 +148,19 @@ class DistContentRemoved(DistContentChange, Removal):
         return "%s: %s" % (self.label, self.entry)
 
 
+class DistTextContentChange(GenericChange):
+    """
+    the content of a text file, in whatever encoding. It is compared
+    as it is, and decoded only to be shown.
+    """
+
+    label = GenericChange.label
+
+
+    def fn_pretty(self, side_data):
+        return side_data.decode("utf-8", "replace")
+
+
 class DistTextChange(DistContentChange):
 
     label = "Distributed Text"
@@ -163,16 +176,20 @@ class DistTextChange(DistContentChange):
         # check if the only difference is in the trailing whitespace,
         # and if so, set lineending to true so we can optionally
         # ignore the change later.
-        with self.open_left(mode="rt") as lfd:
-            with self.open_right(mode="rt") as rfd:
-                for li, ri in zip_longest(lfd, rfd, fillvalue=""):
-                    if li.rstrip() != ri.rstrip():
-                        self.lineending = False
-                        break
-                else:
-                    # we went through every line, and they were all
-                    # equal when stripped of their trailing whitespace
-                    self.lineending = True
+        with self.open_left() as lfd:
+            left = lfd.read().splitlines()
+
+        with self.open_right() as rfd:
+            right = rfd.read().splitlines()
+
+        for li, ri in zip_longest(left, right, fillvalue=b""):
+            if li.rstrip() != ri.rstrip():
+                self.lineending = False
+                break
+        else:
+            # we went through every line, and they were all equal when
+            # stripped of their trailing whitespace
+            self.lineending = True
 
         return super(DistTextChange, self).check()
 
@@ -182,13 +199,11 @@ class DistTextChange(DistContentChange):
                 (self.lineending and options.ignore_trailing_whitespace))
 
     def collect_impl(self):
-        with self.open_left(mode="rt") as lfd, \
-             self.open_right(mode="rt") as rfd:
-
+        with self.open_left() as lfd, self.open_right() as rfd:
             left = lfd.read()
             right = rfd.read()
             if left != right:
-                yield GenericChange(left, right)
+                yield DistTextContentChange(left, right)
 
 
 class DistManifestChange(DistContentChange):
-- 
2.43.0


From f05d4ba855b26dd9a2250af0f8b0c965e0ad84d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:13 +0000
Subject: [PATCH 28/39] fix: name the element class of a multi-dimensional
 array as a requirement

---
 javatools/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index 866f29c..da3cab9 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -983,9 +983,9 @@ class JavaClassInfo(object):
                     # the event that this was a method or field on the
                     # array, we'll throw away that as well, and just
                     # emit the type contained in the array.
-                    t = _typeseq(pv)[0]
-                    if t[1] == "L":
-                        pv = _pretty_type(t[1:])
+                    t = _typeseq(pv)[0].lstrip("[")
+                    if t[0] == "L":
+                        pv = _pretty_type(t)
                     else:
                         pv = None
 
-- 
2.43.0


From 1975dc3fe8df01a6518b865f706931a23c0f12b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:13 +0000
Subject: [PATCH 29/39] fix: look into the exploded copy of a zipped
 distribution

---
 javatools/distinfo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javatools/distinfo.py b/javatools/distinfo.py
index 843b47f..4778dc6 100644
--- a/javatools/distinfo.py
+++ b/javatools/distinfo.py
@@ -153,7 +153,7 @@ class DistInfo(object):
 
 
     def get_jarinfo(self, entry):
-        return JarInfo(join(self.base_path, entry))
+        return JarInfo(join(self._working_path(), entry))
 
 
     def get_classes(self):
@@ -167,7 +167,7 @@ class DistInfo(object):
 
 
     def get_classinfo(self, entry):
-        return unpack_classfile(join(self.base_path, entry))
+        return unpack_classfile(join(self._working_path(), entry))
 
 
     def get_contents(self):
-- 
2.43.0


From 661dccbf28d2c869ac2be411b25142be4318afa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:13 +0000
Subject: [PATCH 30/39] fix: pass members, not options, when simplifying a
 class for JSON

---
 javatools/classinfo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javatools/classinfo.py b/javatools/classinfo.py
index ac8b84b..01127a1 100644
--- a/javatools/classinfo.py
+++ b/javatools/classinfo.py
@@ -327,7 +327,7 @@ def cli_simplify_fields(options, info):
     fields = list()
     for field in info.fields:
         if should_show(options, field):
-            fields.append(cli_simplify_field(options, field))
+            fields.append(cli_simplify_field(field))
     return fields
 
 
@@ -335,7 +335,7 @@ def cli_simplify_methods(options, info):
     methods = list()
     for method in info.methods:
         if should_show(options, method):
-            methods.append(cli_simplify_method(options, method))
+            methods.append(cli_simplify_method(method))
     return methods
 
 
-- 
2.43.0


From 4b5b6031b8a53f6a9ee668317f681c18ee013a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:04 +0000
Subject: [PATCH 31/39] fix: recognise the key usages that permit signing by
 the names M2Crypto gives them

---
 javatools/crypto.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/javatools/crypto.py b/javatools/crypto.py
index da896b9..6f81c3b 100644
--- a/javatools/crypto.py
+++ b/javatools/crypto.py
@@ -170,8 +170,9 @@ def ignore_missing_email_protection_eku_cb(ok, ctx):
     cert = ctx.get_current_cert()
     try:
         key_usage = cert.get_ext('keyUsage').get_value()
-        if 'digitalSignature' not in key_usage \
-                and 'nonRepudiation' not in key_usage:
+        # the value lists the long names of the usages
+        if 'Digital Signature' not in key_usage \
+                and 'Non Repudiation' not in key_usage:
             return ok
     except LookupError:
         pass
-- 
2.43.0


From 13a9bb6b0f8ec47befdac05bdcc47ae63c77cf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:48 +0000
Subject: [PATCH 32/39] fix: text files of the same content are unchanged,
 whatever they were taken for

---
 javatools/distdiff.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/javatools/distdiff.py b/javatools/distdiff.py
index bafbc44..7588542 100644
--- a/javatools/distdiff.py
+++ b/javatools/distdiff.py
@@ -206,6 +206,11 @@ class DistTextChange(DistContentChange):
                 yield DistTextContentChange(left, right)
 
 
+    def check_impl(self):
+        # the whole of the content was compared by collect_impl
+        return SuperChange.check_impl(self)
+
+
 class DistManifestChange(DistContentChange):
     """
     A MANIFEST.MF file found in the directory structure of the
-- 
2.43.0


From 23b04b1748034f1d8e514ad090d9db3dbcfcaf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:48 +0000
Subject: [PATCH 33/39] fix: accept the magic as bytes, and refuse an empty one

---
 javatools/__init__.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/javatools/__init__.py b/javatools/__init__.py
index da3cab9..0cc66a9 100644
--- a/javatools/__init__.py
+++ b/javatools/__init__.py
@@ -503,12 +503,11 @@ class JavaClassInfo(object):
         """
 
         # only unpack the magic bytes if it wasn't specified
-        magic = magic or unpacker.unpack_struct(_BBBB)
+        if magic is None:
+            magic = unpacker.unpack_struct(_BBBB)
 
-        if isinstance(magic, (str, buffer)):
-            magic = tuple(ord(m) for m in magic)
-        else:
-            magic = tuple(magic)
+        # what was specified is either the numbers or their characters
+        magic = tuple(m if isinstance(m, int) else ord(m) for m in magic)
 
         if magic != JAVA_CLASS_MAGIC:
             raise ClassUnpackException("Not a Java class file")
@@ -2461,7 +2460,7 @@ def unpack_class(data, magic=None):
 
     If data is a stream which has already been confirmed to be a java
     class, it may have had the first four bytes read from it already.
-    In this case, pass those magic bytes as a str or tuple and the
+    In this case, pass those magic bytes as bytes, str or tuple and the
     unpacker will not attempt to read them again.
 
     Raises a ClassUnpackException or an UnpackException if the class
@@ -2470,10 +2469,6 @@ def unpack_class(data, magic=None):
     """
 
     with unpack(data) as up:
-        magic = magic or up.unpack_struct(_BBBB)
-        if magic != JAVA_CLASS_MAGIC:
-            raise ClassUnpackException("Not a Java class file")
-
         o = JavaClassInfo()
         o.unpack(up, magic=magic)
 
-- 
2.43.0


From bbbce0d4ead66e986b214771e1b9fd23a4dc02db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:35 +0000
Subject: [PATCH 34/39] fix: read plain bytes out of a memoryview, so that
 classes decode from one

---
 javatools/pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/pack.py b/javatools/pack.py
index 36bbe9a..ddb77c1 100644
--- a/javatools/pack.py
+++ b/javatools/pack.py
@@ -242,7 +242,7 @@ class BufferUnpacker(Unpacker):
             raise UnpackException(None, count, avail)
 
         self.offset = offset + count
-        return self.data[offset:self.offset]
+        return bytes(self.data[offset:self.offset])
 
 
     def close(self):
-- 
2.43.0


From 28e24929c65f2a312cbea5a7570bd3b0a881bc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:44 +0000
Subject: [PATCH 35/39] fix: signing again under the same name left the
 previous signature in the jar

---
 javatools/jarutil.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/javatools/jarutil.py b/javatools/jarutil.py
index 5507fc3..95aa36d 100644
--- a/javatools/jarutil.py
+++ b/javatools/jarutil.py
@@ -209,11 +209,17 @@ def sign(jar_file, cert_file, key_file, key_alias,
         new_jar.writestr("META-INF/%s.SF" % key_alias, sf.get_data())
         new_jar.writestr("META-INF/%s.%s" % (key_alias, sig_block_extension),
                          sigdata)
+        # a previous signature of the same name is replaced, whatever
+        # the type of the key that made it
+        written = set("META-INF/%s.%s" % (key_alias, ext)
+                      for ext in ("SF", "RSA", "DSA", "EC"))
         jar = ZipFile(jar_file, "a")
         for entry in jar.namelist():
             # TODO: In Py2, namelist() can be of type unicode
-            if not entry.upper() == "META-INF/MANIFEST.MF":
-                new_jar.writestr(entry, jar.read(entry))
+            if entry in written or entry.upper() == "META-INF/MANIFEST.MF":
+                continue
+            written.add(entry)
+            new_jar.writestr(entry, jar.read(entry))
 
         new_jar.close()
         new_jar_file.flush()
-- 
2.43.0


From 70fb52d58235a310df4099a926d4d4e1dc38d849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:44 +0000
Subject: [PATCH 36/39] fix: signing without naming a digest raised TypeError

---
 javatools/jarutil.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/javatools/jarutil.py b/javatools/jarutil.py
index 95aa36d..f3d7f65 100644
--- a/javatools/jarutil.py
+++ b/javatools/jarutil.py
@@ -184,6 +184,9 @@ def sign(jar_file, cert_file, key_file, key_alias,
     :return None
     """
 
+    if digest is None:
+        digest = "SHA-256"
+
     mf = Manifest()
     mf.load_from_jar(jar_file)
     mf.add_jar_entries(jar_file, digest)
@@ -192,8 +195,7 @@ def sign(jar_file, cert_file, key_file, key_alias,
     # style of the manifest it'll be digesting.
     sf = SignatureManifest(linesep=mf.linesep)
 
-    sf_digest_algorithm = "SHA-256" if digest is None else digest
-    sf.digest_manifest(mf, sf_digest_algorithm)
+    sf.digest_manifest(mf, digest)
 
     sig_digest_algorithm = digest  # No point to make it different
     sig_block_extension = private_key_type(key_file)
-- 
2.43.0


From c29aee55068e7e237e88d2a141c85f251053f769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:44 +0000
Subject: [PATCH 37/39] fix: the digest of the whole manifest was taken of its
 sections in another order than written

---
 javatools/manifest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index 2d95620..a2c882d 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -535,7 +535,8 @@ class SignatureManifest(Manifest):
         accum = manifest.get_main_section()
         self[main_key] = b64_encoded_digest(accum, digest)
 
-        for sub_section in manifest.sub_sections.values():
+        # in the order they are written
+        for sub_section in sorted(manifest.sub_sections.values()):
             sub_data = sub_section.get_data(linesep)
             sf_sect = self.create_section(sub_section.primary())
             sf_sect[sect_key] = b64_encoded_digest(sub_data, digest)
-- 
2.43.0


From 0460c3be0f096e0f8d790a0f929dc0032d943f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:44 +0000
Subject: [PATCH 38/39] fix: signing dropped the attributes and other digests
 of entries from the manifest

---
 javatools/manifest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javatools/manifest.py b/javatools/manifest.py
index a2c882d..c7a43a8 100644
--- a/javatools/manifest.py
+++ b/javatools/manifest.py
@@ -483,7 +483,7 @@ class Manifest(ManifestSection):
             for entry in jar.namelist():
                 if file_skips_verification(entry):
                     continue
-                section = self.create_section(entry)
+                section = self.create_section(entry, overwrite=False)
                 section[key_digest] = b64_encoded_digest(jar.read(entry),
                                                          digest)
 
-- 
2.43.0


From 3a26bfd62dbcece5e22dd5ebb154402b759180e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:42 +0000
Subject: [PATCH 39/39] fix: replace nothing but the previous signature when
 signing again

---
 javatools/jarutil.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/javatools/jarutil.py b/javatools/jarutil.py
index f3d7f65..c11be77 100644
--- a/javatools/jarutil.py
+++ b/javatools/jarutil.py
@@ -213,15 +213,14 @@ def sign(jar_file, cert_file, key_file, key_alias,
                          sigdata)
         # a previous signature of the same name is replaced, whatever
         # the type of the key that made it
-        written = set("META-INF/%s.%s" % (key_alias, ext)
-                      for ext in ("SF", "RSA", "DSA", "EC"))
+        replaced = ["META-INF/%s.%s" % (key_alias, ext)
+                    for ext in ("SF", "RSA", "DSA", "EC")]
         jar = ZipFile(jar_file, "a")
         for entry in jar.namelist():
             # TODO: In Py2, namelist() can be of type unicode
-            if entry in written or entry.upper() == "META-INF/MANIFEST.MF":
-                continue
-            written.add(entry)
-            new_jar.writestr(entry, jar.read(entry))
+            if entry not in replaced \
+               and not entry.upper() == "META-INF/MANIFEST.MF":
+                new_jar.writestr(entry, jar.read(entry))
 
         new_jar.close()
         new_jar_file.flush()
-- 
2.43.0

