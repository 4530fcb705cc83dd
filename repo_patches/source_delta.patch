From 0932e3b2a072cc111c6b72924119bf0d1ec82e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:21 +0000
Subject: [PATCH 01/26] fix: do not leak or crash on the name of a checked
 operation

The C checker encoded the name to UTF-8 for each look at it, never released
the bytes, and dereferenced NULL when the name cannot be encoded.
---
 src/zope/security/_zope_security_checker.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 23d7fb9..d25897d 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -22,9 +22,6 @@ static PyObject *ForbiddenAttribute, *Unauthorized;
 
 #define IS_STRING PyUnicode_Check
 
-#define MAKE_STRING(name) PyBytes_AS_STRING( \
-        PyUnicode_AsUTF8String(name))
-
 #define FROM_STRING PyUnicode_FromString
 
 #define FROM_STRING_FORMAT PyUnicode_FromFormat
@@ -161,8 +158,9 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
 
 
   operator = (IS_STRING(name)
-              && MAKE_STRING(name)[0] == '_'
-              && MAKE_STRING(name)[1] == '_');
+              && PyUnicode_GetLength(name) >= 2
+              && PyUnicode_ReadChar(name, 0) == '_'
+              && PyUnicode_ReadChar(name, 1) == '_');
 
   if (operator)
     {
@@ -178,7 +176,7 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
 /*             __traceback_supplement__ = (TracebackSupplement, object) */
 /*             raise ForbiddenAttribute, (name, object) */
 
-      if (strcmp("__iter__", MAKE_STRING(name)) == 0
+      if (PyUnicode_CompareWithASCIIString(name, "__iter__") == 0
           && ! PyObject_HasAttr(object, name))
         /* We want an attr error if we're asked for __iter__ and we don't
            have it. We'll get one by allowing the access. */
-- 
2.43.0


From 96ea62fe23fcb38b405b5511857a94ee9aea2c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:43 +0000
Subject: [PATCH 02/26] fix: do not leak or crash on the class names in a
 proxy's generic repr

The UTF-8 encodings of the module and class names were never released, and a
__module__ or __name__ that is no encodable string dereferenced NULL.
---
 src/zope/security/_proxy.c | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/zope/security/_proxy.c b/src/zope/security/_proxy.c
index d38eaeb..5ce1822 100644
--- a/src/zope/security/_proxy.c
+++ b/src/zope/security/_proxy.c
@@ -23,9 +23,6 @@ static PyObject *__class__str = 0, *__name__str = 0, *__module__str = 0;
 
 #define IS_STRING PyUnicode_Check
 
-#define MAKE_STRING(name) PyBytes_AS_STRING( \
-        PyUnicode_AsUTF8String(name))
-
 #define FROM_STRING PyUnicode_FromString
 
 #define FROM_STRING_FORMAT PyUnicode_FromFormat
@@ -384,7 +381,6 @@ static PyObject *
 default_repr(PyObject *object)
 {
   PyObject *klass, *name = 0, *module = 0, *result = 0;
-  char *sname, *smodule;
 
   klass = PyObject_GetAttr(object, __class__str);
   if (klass == NULL)
@@ -393,22 +389,16 @@ default_repr(PyObject *object)
   name  = PyObject_GetAttr(klass, __name__str);
   if (name == NULL)
     goto err;
-  sname = MAKE_STRING(name);
-  if (sname == NULL)
-    goto err;
 
   module = PyObject_GetAttr(klass, __module__str);
   if (module != NULL) {
-    smodule = MAKE_STRING(module);
-    if (smodule == NULL)
-      goto err;
-    result = FROM_STRING_FORMAT("<security proxied %s.%s instance at %p>",
-                                 smodule, sname, object);
+    result = FROM_STRING_FORMAT("<security proxied %S.%S instance at %p>",
+                                 module, name, object);
   }
   else {
     PyErr_Clear();
-    result = FROM_STRING_FORMAT("<security proxied %s instance at %p>",
-                                 sname, object);
+    result = FROM_STRING_FORMAT("<security proxied %S instance at %p>",
+                                 name, object);
   }
 
  err:
-- 
2.43.0


From dfa64a0cadf5c43590b872e742684bd336e6907f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:28 +0000
Subject: [PATCH 03/26] fix: keep the permission alive while the security
 policy is consulted

The C checker passed the policy a borrowed reference from its permission
dictionary, and used it again for Unauthorized: a policy (or another thread)
replacing the declaration meanwhile left it dangling.
---
 src/zope/security/_zope_security_checker.c | 23 ++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index d25897d..e0997dc 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -151,9 +151,12 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
       if (permission == CheckerPublic)
         return 0;
 
-      if (checkPermission(permission, object, name) < 0)
-        return -1;
-      return 0;
+      /* The policy may replace the permission while it is being checked. */
+      int r;
+      Py_INCREF(permission);
+      r = checkPermission(permission, object, name);
+      Py_DECREF(permission);
+      return r;
     }
 
 
@@ -232,9 +235,17 @@ Checker_check_setattr(Checker *self, PyObject *args)
     {
 /*             if permission is CheckerPublic: */
 /*                 return # Public */
-      if (permission != CheckerPublic
-          && checkPermission(permission, object, name) < 0)
-        return NULL;
+      if (permission != CheckerPublic)
+        {
+          /* The policy may replace the permission while it is being
+             checked. */
+          int r;
+          Py_INCREF(permission);
+          r = checkPermission(permission, object, name);
+          Py_DECREF(permission);
+          if (r < 0)
+            return NULL;
+        }
 
       Py_INCREF(Py_None);
       return Py_None;
-- 
2.43.0


From 36b30655e033b38b15a800c6e39c799a35a6bd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:39 +0000
Subject: [PATCH 04/26] fix: forbid names declared with None in the C checker

As documented and as the Python implementation does: None stands for no
permission.  The C checker asked the security policy about permission None
instead, and granted access where the policy allowed that.
---
 src/zope/security/_zope_security_checker.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index e0997dc..8166932 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -144,7 +144,7 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
     permission = PyDict_GetItem(self->getperms, name);
 
 /*         if permission is not None: */
-  if (permission != NULL)
+  if (permission != NULL && permission != Py_None)
     {
 /*             if permission is CheckerPublic: */
 /*                 return # Public */
@@ -231,7 +231,7 @@ Checker_check_setattr(Checker *self, PyObject *args)
     permission = PyDict_GetItem(self->setperms, name);
 
 /*         if permission is not None: */
-  if (permission != NULL)
+  if (permission != NULL && permission != Py_None)
     {
 /*             if permission is CheckerPublic: */
 /*                 return # Public */
-- 
2.43.0


From 6bfb4f4bbc7facc44ae16ab26de1eb4bee6af44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:11 +0000
Subject: [PATCH 05/26] fix: check the use of a proxied object as an index

The C security proxy inherited nb_index from zope.proxy, which calls the
object without asking the checker for __index__ (and without proxying).
---
 src/zope/security/_proxy.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/zope/security/_proxy.c b/src/zope/security/_proxy.c
index 5ce1822..5351786 100644
--- a/src/zope/security/_proxy.c
+++ b/src/zope/security/_proxy.c
@@ -68,6 +68,7 @@ DECLARE_STRING(op_ifloordiv);
 DECLARE_STRING(op_ilshift);
 DECLARE_STRING(op_imod);
 DECLARE_STRING(op_imul);
+DECLARE_STRING(op_index);
 DECLARE_STRING(op_int);
 DECLARE_STRING(op_invert);
 DECLARE_STRING(op_ior);
@@ -552,6 +553,7 @@ proxy_bool(PyObject *self)
 UNOP(invert, PyNumber_Invert)
 UNOP(int, call_int)
 UNOP(float, call_float)
+UNOP(index, PyNumber_Index)
 
 INPLACE(add, PyNumber_InPlaceAdd)
 INPLACE(sub, PyNumber_InPlaceSubtract)
@@ -712,6 +714,9 @@ proxy_as_number = {
     proxy_truediv,                  /* nb_true_divide */
     proxy_ifloordiv,                /* nb_inplace_floor_divide */
     proxy_itruediv,                 /* nb_inplace_true_divide */
+
+    /* Added in release 2.5 */
+    proxy_index,                    /* nb_index */
 };
 
 static PySequenceMethods
@@ -881,6 +886,7 @@ if((str_op_##S = INTERN("__" #S "__")) == NULL) return MOD_ERROR_VAL
   INIT_STRING_OP(ilshift);
   INIT_STRING_OP(imod);
   INIT_STRING_OP(imul);
+  INIT_STRING_OP(index);
   INIT_STRING_OP(int);
   INIT_STRING_OP(invert);
   INIT_STRING_OP(ior);
-- 
2.43.0


From 5db62d000cc7c4213ebb75ff4b0d1aa2d4d5cb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:23 +0000
Subject: [PATCH 06/26] fix: do not ignore errors in the lookup of a value's
 own checker

Only an AttributeError says that there is no __Security_checker__.  The C
checker took any other exception for that, too, and went on with the checker
for the type, or without a proxy, while ProxyFactory and the Python
implementation let it through.
---
 src/zope/security/_zope_security_checker.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 8166932..afeb2fc 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -285,6 +285,8 @@ Checker_proxy(Checker *self, PyObject *value)
 /*         if checker is None: */
   if (checker == NULL)
     {
+      if (! PyErr_ExceptionMatches(PyExc_AttributeError))
+        return NULL;
       PyErr_Clear();
 
 /*             checker = selectChecker(value) */
-- 
2.43.0


From 30d0c73db6632a88ed43f89173623a38eceb3195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:35 +0000
Subject: [PATCH 07/26] fix: do not take an error in selecting a checker for an
 exception object

PyObject_IsInstance returns -1 when the object's __class__ raises.  That
counted as true: the object was left unproxied, with the error still set.
---
 src/zope/security/_zope_security_checker.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index afeb2fc..d361047 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -531,11 +531,16 @@ selectChecker(PyObject *ignored, PyObject *object)
 /*     if checker is _defaultChecker and isinstance(object, Exception): */
 /*         return None */
 
-  if (checker == _defaultChecker
-      && PyObject_IsInstance(object, PyExc_Exception))
+  if (checker == _defaultChecker)
     {
-      Py_INCREF(Py_None);
-      return Py_None;
+      int r = PyObject_IsInstance(object, PyExc_Exception);
+      if (r < 0)
+        return NULL;
+      if (r)
+        {
+          Py_INCREF(Py_None);
+          return Py_None;
+        }
     }
 
 /*     while not isinstance(checker, Checker): */
-- 
2.43.0


From f95a1349f26c2265504c24feab757280b6a10b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:46 +0000
Subject: [PATCH 08/26] fix: release the old permissions when a C checker is
 initialized again

---
 src/zope/security/_zope_security_checker.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index d361047..818098e 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -384,9 +384,9 @@ Checker_init(Checker *self, PyObject *args, PyObject *kwds)
     return -1;
 
   Py_INCREF(getperms);
-  self->getperms = getperms;
+  Py_XSETREF(self->getperms, getperms);
   Py_XINCREF(setperms);
-  self->setperms = setperms;
+  Py_XSETREF(self->setperms, setperms);
 
   return 0;
 }
-- 
2.43.0


From cb488bcef83801dd92df4b11cac540119f620701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:33 +0000
Subject: [PATCH 09/26] fix: do not crash on 'del checker[object]'

The slot that checks names for the security proxy is called without a name
then.
---
 src/zope/security/_zope_security_checker.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 818098e..1ef3a8d 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -139,6 +139,13 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
   PyObject *permission=NULL;
   int operator;
 
+  if (name == NULL)
+    {
+      PyErr_SetString(PyExc_TypeError,
+                      "a checker doesn't support item deletion");
+      return -1;
+    }
+
 /*         permission = self._permission_func(name) */
   if (self->getperms)
     permission = PyDict_GetItem(self->getperms, name);
-- 
2.43.0


From 1a6d8b282984a2f33e1bd4f647b54b3f9e66c695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:18 +0000
Subject: [PATCH 10/26] fix: protect the results of comparisons in the Python
 proxy

A rich comparison may return any object.  The C implementation proxies what
is not a plain boolean; the Python implementation returned it unprotected.
---
 src/zope/security/proxy.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index 66a4cb7..a422f86 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -55,6 +55,13 @@ def _check_name_inplace(meth):
     return functools.update_wrapper(_wrapper, meth)
 
 
+def _proxy_comparison(proxy, result):
+    # Like the C implementation, only proxy what is not a plain boolean.
+    if result is True or result is False:
+        return result
+    return getCheckerPy(proxy).proxy(result)
+
+
 def _fmt_address(obj):
     # Try to replicate PyString_FromString("%p", obj), which actually uses
     # the platform sprintf(buf, "%p", obj), which we cannot access from Python
@@ -177,32 +184,32 @@ class ProxyPy(PyProxyBase):
     def __lt__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped < other
+        return _proxy_comparison(self, wrapped < other)
 
     def __le__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped <= other
+        return _proxy_comparison(self, wrapped <= other)
 
     def __eq__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped == other
+        return _proxy_comparison(self, wrapped == other)
 
     def __ne__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped != other
+        return _proxy_comparison(self, wrapped != other)
 
     def __ge__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped >= other
+        return _proxy_comparison(self, wrapped >= other)
 
     def __gt__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped > other
+        return _proxy_comparison(self, wrapped > other)
 
     def __hash__(self):
         # no check
-- 
2.43.0


From 9130e2be0f04e7cb36669e0c946e263c868d57ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:45 +0000
Subject: [PATCH 11/26] fix: do not rebind the Python proxy to the result of an
 in-place operation

A proxy stands for one object.  The Python implementation replaced that object
by whatever the object's in-place method returned, even NotImplemented, for
all who hold the proxy, and kept the checker of the old object for the new
one.  As in the C implementation, the proxy is returned if the operation was
really carried out in place, and the proxied result otherwise.
---
 src/zope/security/proxy.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index a422f86..c3339c1 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -17,6 +17,7 @@ Helper functions for proxies.
 .. seealso:: :ref:`proxy-known-issues`
 """
 import functools
+import operator
 import sys
 
 from zope.proxy import PyProxyBase
@@ -40,18 +41,17 @@ def _check_name(meth, wrap_result=True):
 
 def _check_name_inplace(meth):
     name = meth.__name__
+    operation = getattr(operator, name)
 
-    def _wrapper(self, *args, **kw):
+    def _wrapper(self, other):
         wrapped = super(PyProxyBase, self).__getattribute__('_wrapped')
         checker = super(PyProxyBase, self).__getattribute__('_checker')
         checker.check(wrapped, name)
-        w_meth = getattr(wrapped, name, None)
-        if w_meth is not None:
-            # The proxy object cannot change; we are modifying in place.
-            self._wrapped = w_meth(*args, **kw)
+        res = operation(wrapped, other)
+        if res is wrapped:
+            # The operation was really carried out in place.
             return self
-        x_name = '__%s__' % name[3:-2]
-        return ProxyPy(getattr(wrapped, x_name)(*args, **kw), checker)
+        return checker.proxy(res)
     return functools.update_wrapper(_wrapper, meth)
 
 
-- 
2.43.0


From 5a416ad3d2400b9fc5893fe37e83b1443344f68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:36 +0000
Subject: [PATCH 12/26] fix: keep untrusted code from reading and setting the
 Python proxy's slots

Anybody could set _wrapped and _checker of a ProxyPy, and so give it a checker
that grants everything, and code with a local variable 'self' that happens to
be the proxy could read them.  Leave both to the code of the proxy classes.
---
 src/zope/security/proxy.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index c3339c1..bd6b482 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -20,6 +20,7 @@ import functools
 import operator
 import sys
 
+import zope.proxy
 from zope.proxy import PyProxyBase
 
 from zope.security._compat import PURE_PYTHON
@@ -73,6 +74,15 @@ def _fmt_address(obj):
     return '0x%016X' % id(obj)  # pragma: no cover
 
 
+def _is_proxy_code(frame, cls):
+    # Is this code of the implementation of proxies, or of the class itself?
+    if frame.f_globals is globals() or frame.f_globals is vars(zope.proxy):
+        return True
+    return any(getattr(attr, '__code__', None) is frame.f_code
+               for klass in cls.__mro__
+               for attr in vars(klass).values())
+
+
 class ProxyPy(PyProxyBase):
     """
     The pure-Python reference implementation of a security proxy.
@@ -102,7 +112,9 @@ class ProxyPy(PyProxyBase):
     def __getattribute__(self, name):
         if name in ('_wrapped', '_checker'):
             # Only allow _wrapped and _checker to be accessed from inside.
-            if sys._getframe(1).f_locals.get('self') is not self:
+            frame = sys._getframe(1)
+            if (frame.f_locals.get('self') is not self
+                    or not _is_proxy_code(frame, type(self))):
                 raise AttributeError(name)
         wrapped = super().__getattribute__('_wrapped')
         if name == '_wrapped':
@@ -167,7 +179,10 @@ class ProxyPy(PyProxyBase):
 
     def __setattr__(self, name, value):
         if name in ('_wrapped', '_checker'):
-            return super().__setattr__(name, value)
+            # Only allow _wrapped and _checker to be set from inside.
+            if not _is_proxy_code(sys._getframe(1), type(self)):
+                raise AttributeError(name)
+            return object.__setattr__(self, name, value)
         wrapped = super().__getattribute__('_wrapped')
         checker = super().__getattribute__('_checker')
         checker.check_setattr(wrapped, name)
-- 
2.43.0


From c953a1771bca82058bc156cbf38bd8ba0763e166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:54 +0000
Subject: [PATCH 13/26] fix: do not crash on next() of a proxy for an object
 that is no iterator

PyIter_Next may only be called with iterators.
---
 src/zope/security/_proxy.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/zope/security/_proxy.c b/src/zope/security/_proxy.c
index 5351786..5fe159d 100644
--- a/src/zope/security/_proxy.c
+++ b/src/zope/security/_proxy.c
@@ -351,6 +351,12 @@ proxy_iternext(SecurityProxy *self)
 
   if (check(self, str_check_getattr, str___next__) >= 0)
     {
+      if (! PyIter_Check(self->proxy.proxy_object))
+        {
+          PyErr_Format(PyExc_TypeError, "'%.200s' object is not an iterator",
+                       Py_TYPE(self->proxy.proxy_object)->tp_name);
+          return NULL;
+        }
       result = PyIter_Next(self->proxy.proxy_object);
       PROXY_RESULT(self, result);
     }
-- 
2.43.0


From 71913a1c848cfffdf799c522c1df714ac567edb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:52 +0000
Subject: [PATCH 14/26] fix: protect the views of a proxied dict

The views returned by keys(), values() and items() of a proxied dict were
handed out without a proxy, and with them the unproxied objects in the dict.
---
 src/zope/security/checker.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/zope/security/checker.py b/src/zope/security/checker.py
index 3fa15d3..619fa68 100644
--- a/src/zope/security/checker.py
+++ b/src/zope/security/checker.py
@@ -786,9 +786,6 @@ _basic_types = {
     datetime.date: NoProxy,
     datetime.time: NoProxy,
     datetime.tzinfo: NoProxy,
-    type({}.values()): NoProxy,
-    type({}.keys()): NoProxy,
-    type({}.items()): NoProxy,
 }
 
 try:
@@ -847,6 +844,11 @@ _default_checkers = {
     list: NamesChecker(['__getitem__', '__len__', '__iter__',
                         '__contains__', 'index', 'count', '__str__',
                         '__add__', '__radd__', ]),
+    # The views of a dict give access to the objects in it, so they need to
+    # be proxied like the dict itself.
+    type({}.keys()): _setChecker,
+    type({}.values()): _setChecker,
+    type({}.items()): _setChecker,
     set: _setChecker,
     frozenset: _setChecker,
     # XXX: actually decimal.Decimal has more methods, which are unlisted here
@@ -932,6 +934,10 @@ def _fixup_dictlike(dict_type):
                 _default_checkers[iter_type] = _iteratorChecker
 
 
+# The iterators of the views of a dict.
+_fixup_dictlike(dict)
+
+
 def _fixup_odict():
     from collections import OrderedDict
 
-- 
2.43.0


From 95bbf3b7f0facc1b24039c0f7175c11c2d5d38ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:03 +0000
Subject: [PATCH 15/26] fix: remove exactly the given participation from an
 interaction

Participations that compare equal to another one made remove() take the
other one out of the interaction, while the one given lost its back
reference.
---
 src/zope/security/simplepolicies.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/zope/security/simplepolicies.py b/src/zope/security/simplepolicies.py
index 7035e07..a155058 100644
--- a/src/zope/security/simplepolicies.py
+++ b/src/zope/security/simplepolicies.py
@@ -54,7 +54,14 @@ class ParanoidSecurityPolicy:
         if participation.interaction is not self:
             raise ValueError("%r does not belong to this interaction"
                              % participation)
-        self.participations.remove(participation)
+        # Participations may compare equal; remove exactly this one.
+        for index, other in enumerate(self.participations):
+            if other is participation:
+                del self.participations[index]
+                break
+        else:
+            raise ValueError("%r does not belong to this interaction"
+                             % participation)
         participation.interaction = None
 
     def checkPermission(self, permission, object):
-- 
2.43.0


From 6f73ad3c838c288b0029dcd5236436493aa142f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:39 +0000
Subject: [PATCH 16/26] fix: keep redefined permissions inside the
 configuration that redefines them

A redefinition in a nested or included configuration changed the mapping
of the surrounding one whenever that had redefined any permission itself.
---
 src/zope/security/zcml.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/zope/security/zcml.py b/src/zope/security/zcml.py
index d24e04d..ef34f45 100644
--- a/src/zope/security/zcml.py
+++ b/src/zope/security/zcml.py
@@ -120,7 +120,12 @@ def redefinePermission(_context, from_, to):
     _context = _context.context
 
     # check if context has any permission mappings yet
-    if not hasattr(_context, 'permission_mapping'):
-        _context.permission_mapping = {}
-
-    _context.permission_mapping[from_] = to
+    mapping = getattr(_context, 'permission_mapping', None)
+    outer = getattr(getattr(_context, 'context', None),
+                    'permission_mapping', None)
+    if mapping is None or mapping is outer:
+        # Do not redefine the permission for the surrounding configuration,
+        # whose mapping we have inherited.
+        mapping = _context.permission_mapping = dict(mapping or ())
+
+    mapping[from_] = to
-- 
2.43.0


From 824c7196ad4942652451e0a38d80cce661ba6b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:37 +0000
Subject: [PATCH 17/26] fix: accept 'interface' in the require directive of a
 module

Its documentation and its handler provide for it, but its schema did not,
so that requiring a permission for the names of an interface failed.
---
 src/zope/security/metadirectives.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/zope/security/metadirectives.py b/src/zope/security/metadirectives.py
index 34cee99..1e6c782 100644
--- a/src/zope/security/metadirectives.py
+++ b/src/zope/security/metadirectives.py
@@ -201,3 +201,10 @@ class IRequire(Interface):
     permission = Permission(
         title="Permission ID",
         description="The ID of the permission to require.")
+
+    interface = Tokens(
+        title="Interface",
+        description=("Interfaces whose names to require the permission for. "
+                     "Multiple interfaces can be supplied."),
+        value_type=GlobalInterface(),
+        required=False)
-- 
2.43.0


From 9eea223b9b374c7c2f68c7fb7f1cec5e223f56aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:25 +0000
Subject: [PATCH 18/26] fix: Check and access attributes under the same name

A name that is an instance of a subclass of str could be equal to a
declared name while it was checked and to another one when the attribute
was accessed, and so read or set attributes that are not declared.
---
 src/zope/security/_proxy.c | 25 +++++++++++++++++++++++--
 src/zope/security/proxy.py | 10 ++++++++++
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/zope/security/_proxy.c b/src/zope/security/_proxy.c
index 5fe159d..6ab2ff9 100644
--- a/src/zope/security/_proxy.c
+++ b/src/zope/security/_proxy.c
@@ -363,25 +363,46 @@ proxy_iternext(SecurityProxy *self)
   return result;
 }
 
+/* An instance of a subclass of str can be equal to one name while it is
+   checked and to another one afterwards, so use what it contains instead. */
+static PyObject *
+exact_name(PyObject *name)
+{
+  if (PyUnicode_Check(name))
+    return PyUnicode_FromObject(name);
+  Py_INCREF(name);
+  return name;
+}
+
 static PyObject *
 proxy_getattro(SecurityProxy *self, PyObject *name)
 {
   PyObject *result = NULL;
 
+  name = exact_name(name);
+  if (name == NULL)
+    return NULL;
   if (check(self, str_check_getattr, name) >= 0)
     {
       result = PyObject_GetAttr(self->proxy.proxy_object, name);
       PROXY_RESULT(self, result);
     }
+  Py_DECREF(name);
   return result;
 }
 
 static int
 proxy_setattro(SecurityProxy *self, PyObject *name, PyObject *value)
 {
+  int result = -1;
+
+  name = exact_name(name);
+  if (name == NULL)
+    return -1;
   if (check(self, str_check_setattr, name) >= 0)
-    return PyObject_SetAttr(self->proxy.proxy_object, name, value);
-  return -1;
+    result = PyObject_SetAttr(self->proxy.proxy_object, name, value);
+  Py_DECREF(name);
+  return result;
 }
 
 static PyObject *
diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index bd6b482..749e1e1 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -74,6 +74,12 @@ def _fmt_address(obj):
     return '0x%016X' % id(obj)  # pragma: no cover
 
 
+def _exact_name(name):
+    # An instance of a subclass of str can be equal to one name while it is
+    # checked and to another one afterwards, so use what it contains instead.
+    return str.__str__(name) if isinstance(name, str) else name
+
+
 def _is_proxy_code(frame, cls):
     # Is this code of the implementation of proxies, or of the class itself?
     if frame.f_globals is globals() or frame.f_globals is vars(zope.proxy):
@@ -110,6 +116,7 @@ class ProxyPy(PyProxyBase):
 
     # Attribute protocol
     def __getattribute__(self, name):
+        name = _exact_name(name)
         if name in ('_wrapped', '_checker'):
             # Only allow _wrapped and _checker to be accessed from inside.
             frame = sys._getframe(1)
@@ -172,12 +179,14 @@ class ProxyPy(PyProxyBase):
         # but we're consistent. We would provide a better error
         # message or even subclass of AttributeError, but that's liable to
         # break (doc)tests.
+        name = _exact_name(name)
         wrapped = super().__getattribute__('_wrapped')
         checker = super().__getattribute__('_checker')
         checker.check_getattr(wrapped, name)
         raise AttributeError(name)
 
     def __setattr__(self, name, value):
+        name = _exact_name(name)
         if name in ('_wrapped', '_checker'):
             # Only allow _wrapped and _checker to be set from inside.
             if not _is_proxy_code(sys._getframe(1), type(self)):
@@ -189,6 +198,7 @@ class ProxyPy(PyProxyBase):
         setattr(wrapped, name, value)
 
     def __delattr__(self, name):
+        name = _exact_name(name)
         if name in ('_wrapped', '_checker'):
             raise AttributeError()
         wrapped = super().__getattribute__('_wrapped')
-- 
2.43.0


From 0b650f97fbfa2adb47426d90963fee12a83fbe47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:09 +0000
Subject: [PATCH 19/26] fix: Check __getitem__ before iterating over a sequence

An object without an __iter__ method can still be iterated over if it has a
__getitem__ method.  Access to a missing __iter__ was always allowed, so all
of its items could be read by iteration even if __getitem__ is forbidden.
---
 src/zope/security/_zope_security_checker.c | 23 ++++++++++++++++------
 src/zope/security/checker.py               | 11 ++++++++---
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 1ef3a8d..15a6768 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -43,6 +43,7 @@ static PyObject *ForbiddenAttribute, *Unauthorized;
 
 #define DECLARE_STRING(N) static PyObject *str_##N
 
+DECLARE_STRING(__getitem__);
 DECLARE_STRING(checkPermission);
 DECLARE_STRING(__Security_checker__);
 DECLARE_STRING(interaction);
@@ -182,17 +183,26 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
       if (ic)
         return 0;
 
-/*         if name != '__iter__' or hasattr(object, name): */
-/*             __traceback_supplement__ = (TracebackSupplement, object) */
-/*             raise ForbiddenAttribute, (name, object) */
+/*         if name == '__iter__' and not hasattr(object, name): */
+/*             if hasattr(type(object), '__getitem__'): */
+/*                 CheckerPy.check(self, object, '__getitem__') */
+/*             return */
 
       if (PyUnicode_CompareWithASCIIString(name, "__iter__") == 0
           && ! PyObject_HasAttr(object, name))
-        /* We want an attr error if we're asked for __iter__ and we don't
-           have it. We'll get one by allowing the access. */
-        return 0;
+        {
+          /* Iterating gets the items of a sequence. */
+          if (PyObject_HasAttr((PyObject *)Py_TYPE(object), str___getitem__))
+            return Checker_check_int(self, object, str___getitem__);
+          /* We want an attr error if we're asked for __iter__ and we don't
+             have it. We'll get one by allowing the access. */
+          return 0;
+        }
     }
 
+/*         __traceback_supplement__ = (TracebackSupplement, object) */
+/*         raise ForbiddenAttribute(name, object) */
+
   {
     PyObject *args;
     args = Py_BuildValue("OO", name, object);
@@ -614,6 +624,7 @@ MOD_INIT(_zope_security_checker)
 #define INIT_STRING(S) \
 if((str_##S = INTERN(#S)) == NULL) return MOD_ERROR_VAL
 
+  INIT_STRING(__getitem__);
   INIT_STRING(checkPermission);
   INIT_STRING(__Security_checker__);
   INIT_STRING(interaction);
diff --git a/src/zope/security/checker.py b/src/zope/security/checker.py
index 619fa68..7a5e971 100644
--- a/src/zope/security/checker.py
+++ b/src/zope/security/checker.py
@@ -271,9 +271,14 @@ class CheckerPy:
         elif name in _available_by_default:
             return
 
-        if name != '__iter__' or hasattr(object, name):
-            __traceback_supplement__ = (TracebackSupplement, object)
-            raise ForbiddenAttribute(name, object)
+        if name == '__iter__' and not hasattr(object, name):
+            if hasattr(type(object), '__getitem__'):
+                # Iterating gets the items of a sequence.
+                CheckerPy.check(self, object, '__getitem__')
+            return
+
+        __traceback_supplement__ = (TracebackSupplement, object)
+        raise ForbiddenAttribute(name, object)
 
     check_getattr = check  # 'See IChecker'
 
-- 
2.43.0


From 83630ef0e48d8ca9161108825d8936e19c08e279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:35 +0000
Subject: [PATCH 20/26] fix: Accept defined permissions that are false

checkPermission() raised an error for a registered permission whose truth
value is false (one with a length of zero, say), as if it was not defined.
---
 src/zope/security/permission.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/security/permission.py b/src/zope/security/permission.py
index 9103477..33395e8 100644
--- a/src/zope/security/permission.py
+++ b/src/zope/security/permission.py
@@ -49,7 +49,7 @@ def checkPermission(context, permission_id):
     """
     if permission_id is CheckerPublic:
         return
-    if not queryUtility(IPermission, permission_id, context=context):
+    if queryUtility(IPermission, permission_id, context=context) is None:
         raise ValueError("Undefined permission ID", permission_id)
 
 
-- 
2.43.0


From 2daa1def1242bf7869756994b215ec1a73abfa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:14 +0000
Subject: [PATCH 21/26] fix: Leave an active interaction that is false alone

testing.interaction() took an active interaction whose truth value is false
for none, and failed with ExistingInteraction instead of running its body
within the active one.
---
 src/zope/security/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/security/testing.py b/src/zope/security/testing.py
index f725912..7e625e4 100644
--- a/src/zope/security/testing.py
+++ b/src/zope/security/testing.py
@@ -93,7 +93,7 @@ def interaction(principal_id, **kw):
     A context manager for running an interaction for the given
     principal ID.
     """
-    if zope.security.management.queryInteraction():
+    if zope.security.management.queryInteraction() is not None:
         # There already is an interaction. Great. Leave it alone.
         yield
     else:
-- 
2.43.0


From 959049c700c2ffca8ef07729c1f88567cd739332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:22 +0000
Subject: [PATCH 22/26] fix: Pass on an AttributeError raised by a length hint

The C proxy took an AttributeError raised within __length_hint__() of the
proxied object for an object without a length hint.  The failure was lost, and
the Python implementation behaved differently.
---
 src/zope/security/_proxy.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/zope/security/_proxy.c b/src/zope/security/_proxy.c
index 6ab2ff9..6f7b404 100644
--- a/src/zope/security/_proxy.c
+++ b/src/zope/security/_proxy.c
@@ -614,14 +614,18 @@ static PyObject *
 proxy_length_hint(SecurityProxy *self)
 {
   PyObject *result = NULL;
-  result = PyObject_CallMethod(self->proxy.proxy_object, "__length_hint__", NULL);
-  if (result == NULL) {
+  PyObject *hint = NULL;
+  hint = PyObject_GetAttrString(self->proxy.proxy_object, "__length_hint__");
+  if (hint == NULL) {
       if (PyErr_ExceptionMatches(PyExc_AttributeError)) {
             PyErr_Clear();
             result = Py_NotImplemented;
             Py_INCREF(result);
       }
+      return result;
   }
+  result = PyObject_CallObject(hint, NULL);
+  Py_DECREF(hint);
   return result;
 }
 
-- 
2.43.0


From c97eac109efe029adbcf503392648de90b764931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:41 +0000
Subject: [PATCH 23/26] fix: Keep the value of StopIteration when stepping an
 iterator

The C proxy stepped the iterator with PyIter_Next(), which forgets the
StopIteration, so the result of a proxied generator was lost (yield from
gave None).  The Python implementation, and calling __next__, pass it on.
---
 src/zope/security/_proxy.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/zope/security/_proxy.c b/src/zope/security/_proxy.c
index 6f7b404..f4c1a4f 100644
--- a/src/zope/security/_proxy.c
+++ b/src/zope/security/_proxy.c
@@ -357,7 +357,10 @@ proxy_iternext(SecurityProxy *self)
                        Py_TYPE(self->proxy.proxy_object)->tp_name);
           return NULL;
         }
-      result = PyIter_Next(self->proxy.proxy_object);
+      /* Not PyIter_Next(), which loses the value of StopIteration, that is,
+         the result of a generator. */
+      result = Py_TYPE(self->proxy.proxy_object)->tp_iternext(
+        self->proxy.proxy_object);
       PROXY_RESULT(self, result);
     }
   return result;
-- 
2.43.0


From 7ad1726974273a23861a64dec77581dafb4ebd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:52 +0000
Subject: [PATCH 24/26] fix: Do not hide failures of looking up declarations in
 C

PyDict_GetItem() and PyObject_HasAttr() forget whatever goes wrong, also
a KeyboardInterrupt.  So an object that failed to say whether it has an
__iter__ was taken for one without, for which reading __iter__ is
allowed, and a name or class that failed to give its hash was treated as
undeclared.  Pass the failure on, like the Python implementation.
---
 src/zope/security/_zope_security_checker.c | 79 +++++++++++++++++-----
 1 file changed, 63 insertions(+), 16 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 15a6768..c5af2d6 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -64,9 +64,13 @@ Checker_permission_id(Checker *self, PyObject *name)
 
   if (self->getperms)
     {
-      result = PyDict_GetItem(self->getperms, name);
+      result = PyDict_GetItemWithError(self->getperms, name);
       if (result == NULL)
-        result = Py_None;
+        {
+          if (PyErr_Occurred())
+            return NULL;
+          result = Py_None;
+        }
     }
   else
     result = Py_None;
@@ -84,9 +88,13 @@ Checker_setattr_permission_id(Checker *self, PyObject *name)
 
   if (self->setperms)
     {
-      result = PyDict_GetItem(self->setperms, name);
+      result = PyDict_GetItemWithError(self->setperms, name);
       if (result == NULL)
-        result = Py_None;
+        {
+          if (PyErr_Occurred())
+            return NULL;
+          result = Py_None;
+        }
     }
   else
     result = Py_None;
@@ -129,6 +137,25 @@ checkPermission(PyObject *permission, PyObject *object, PyObject *name)
 }
 
 
+/* Like hasattr(): PyObject_HasAttr() hides all failures. */
+
+static int
+has_attr(PyObject *object, PyObject *name)
+{
+  PyObject *value = PyObject_GetAttr(object, name);
+
+  if (value == NULL)
+    {
+      if (! PyErr_ExceptionMatches(PyExc_AttributeError))
+        return -1;
+      PyErr_Clear();
+      return 0;
+    }
+  Py_DECREF(value);
+  return 1;
+}
+
+
 /*     def check(self, object, name): */
 
 /* Note that we have an int version here because we will use it for
@@ -149,7 +176,11 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
 
 /*         permission = self._permission_func(name) */
   if (self->getperms)
-    permission = PyDict_GetItem(self->getperms, name);
+    {
+      permission = PyDict_GetItemWithError(self->getperms, name);
+      if (permission == NULL && PyErr_Occurred())
+        return -1;
+    }
 
 /*         if permission is not None: */
   if (permission != NULL && permission != Py_None)
@@ -188,15 +219,23 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
 /*                 CheckerPy.check(self, object, '__getitem__') */
 /*             return */
 
-      if (PyUnicode_CompareWithASCIIString(name, "__iter__") == 0
-          && ! PyObject_HasAttr(object, name))
+      if (PyUnicode_CompareWithASCIIString(name, "__iter__") == 0)
         {
-          /* Iterating gets the items of a sequence. */
-          if (PyObject_HasAttr((PyObject *)Py_TYPE(object), str___getitem__))
-            return Checker_check_int(self, object, str___getitem__);
-          /* We want an attr error if we're asked for __iter__ and we don't
-             have it. We'll get one by allowing the access. */
-          return 0;
+          int has = has_attr(object, name);
+          if (has < 0)
+            return -1;
+          if (! has)
+            {
+              /* Iterating gets the items of a sequence. */
+              has = has_attr((PyObject *)Py_TYPE(object), str___getitem__);
+              if (has < 0)
+                return -1;
+              if (has)
+                return Checker_check_int(self, object, str___getitem__);
+              /* We want an attr error if we're asked for __iter__ and we
+                 don't have it. We'll get one by allowing the access. */
+              return 0;
+            }
         }
     }
 
@@ -245,7 +284,11 @@ Checker_check_setattr(Checker *self, PyObject *args)
 
 /*         permission = self._permission_func(name) */
   if (self->setperms)
-    permission = PyDict_GetItem(self->setperms, name);
+    {
+      permission = PyDict_GetItemWithError(self->setperms, name);
+      if (permission == NULL && PyErr_Occurred())
+        return NULL;
+    }
 
 /*         if permission is not None: */
   if (permission != NULL && permission != Py_None)
@@ -532,9 +575,13 @@ selectChecker(PyObject *ignored, PyObject *object)
 
 /*     checker = _getChecker(type(object), _defaultChecker) */
 
-  checker = PyDict_GetItem(_checkers, (PyObject*)Py_TYPE(object));
+  checker = PyDict_GetItemWithError(_checkers, (PyObject*)Py_TYPE(object));
   if (checker == NULL)
-    checker = _defaultChecker;
+    {
+      if (PyErr_Occurred())
+        return NULL;
+      checker = _defaultChecker;
+    }
 
 /*     if checker is NoProxy: */
 /*         return None */
-- 
2.43.0


From 4c86912495c569269b59135d35eabbc6c5402782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:05 +0000
Subject: [PATCH 25/26] fix: Keep a checker's permissions alive while a name is
 looked up

Comparing the name may run code that replaces the permissions of the
checker, which freed the dictionary being searched.
---
 src/zope/security/_zope_security_checker.c | 96 ++++++++++------------
 1 file changed, 43 insertions(+), 53 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index c5af2d6..a88617c 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -55,6 +55,25 @@ typedef struct {
         PyObject *getperms, *setperms;
 } Checker;
 
+/* Get a new reference to the permission for the name, or NULL without an
+   exception when there is none.  Comparing the names may run arbitrary code,
+   which may replace the permissions, as may the policy that is asked about
+   the permission. */
+
+static int
+get_permission(PyObject *permissions, PyObject *name, PyObject **permission)
+{
+  *permission = NULL;
+  if (permissions == NULL)
+    return 0;
+
+  Py_INCREF(permissions);
+  *permission = PyDict_GetItemWithError(permissions, name);
+  Py_XINCREF(*permission);
+  Py_DECREF(permissions);
+  return (*permission == NULL && PyErr_Occurred()) ? -1 : 0;
+}
+
 /*     def permission_id(self, name): */
 static PyObject *
 Checker_permission_id(Checker *self, PyObject *name)
@@ -62,20 +81,13 @@ Checker_permission_id(Checker *self, PyObject *name)
 /*         return self._permission_func(name) */
   PyObject *result;
 
-  if (self->getperms)
+  if (get_permission(self->getperms, name, &result) < 0)
+    return NULL;
+  if (result == NULL)
     {
-      result = PyDict_GetItemWithError(self->getperms, name);
-      if (result == NULL)
-        {
-          if (PyErr_Occurred())
-            return NULL;
-          result = Py_None;
-        }
+      Py_INCREF(Py_None);
+      result = Py_None;
     }
-  else
-    result = Py_None;
-
-  Py_INCREF(result);
   return result;
 }
 
@@ -86,20 +98,13 @@ Checker_setattr_permission_id(Checker *self, PyObject *name)
 /*         return self._setattr_permission_func(name) */
   PyObject *result;
 
-  if (self->setperms)
+  if (get_permission(self->setperms, name, &result) < 0)
+    return NULL;
+  if (result == NULL)
     {
-      result = PyDict_GetItemWithError(self->setperms, name);
-      if (result == NULL)
-        {
-          if (PyErr_Occurred())
-            return NULL;
-          result = Py_None;
-        }
+      Py_INCREF(Py_None);
+      result = Py_None;
     }
-  else
-    result = Py_None;
-
-  Py_INCREF(result);
   return result;
 }
 
@@ -175,28 +180,21 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
     }
 
 /*         permission = self._permission_func(name) */
-  if (self->getperms)
-    {
-      permission = PyDict_GetItemWithError(self->getperms, name);
-      if (permission == NULL && PyErr_Occurred())
-        return -1;
-    }
+  if (get_permission(self->getperms, name, &permission) < 0)
+    return -1;
 
 /*         if permission is not None: */
   if (permission != NULL && permission != Py_None)
     {
 /*             if permission is CheckerPublic: */
 /*                 return # Public */
-      if (permission == CheckerPublic)
-        return 0;
-
-      /* The policy may replace the permission while it is being checked. */
-      int r;
-      Py_INCREF(permission);
-      r = checkPermission(permission, object, name);
+      int r = 0;
+      if (permission != CheckerPublic)
+        r = checkPermission(permission, object, name);
       Py_DECREF(permission);
       return r;
     }
+  Py_XDECREF(permission);
 
 
   operator = (IS_STRING(name)
@@ -283,33 +281,25 @@ Checker_check_setattr(Checker *self, PyObject *args)
     return NULL;
 
 /*         permission = self._permission_func(name) */
-  if (self->setperms)
-    {
-      permission = PyDict_GetItemWithError(self->setperms, name);
-      if (permission == NULL && PyErr_Occurred())
-        return NULL;
-    }
+  if (get_permission(self->setperms, name, &permission) < 0)
+    return NULL;
 
 /*         if permission is not None: */
   if (permission != NULL && permission != Py_None)
     {
 /*             if permission is CheckerPublic: */
 /*                 return # Public */
+      int r = 0;
       if (permission != CheckerPublic)
-        {
-          /* The policy may replace the permission while it is being
-             checked. */
-          int r;
-          Py_INCREF(permission);
-          r = checkPermission(permission, object, name);
-          Py_DECREF(permission);
-          if (r < 0)
-            return NULL;
-        }
+        r = checkPermission(permission, object, name);
+      Py_DECREF(permission);
+      if (r < 0)
+        return NULL;
 
       Py_INCREF(Py_None);
       return Py_None;
     }
+  Py_XDECREF(permission);
 
 /*         __traceback_supplement__ = (TracebackSupplement, object) */
 /*         raise ForbiddenAttribute, (name, object) */
-- 
2.43.0


From a7d0a9a4ea08d9443035a65338db8c8809c4a72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:06 +0000
Subject: [PATCH 26/26] fix: Convert proxied objects to int and float like the
 objects themselves

The C proxy called the slots of the type directly, so that strings and
objects having only __index__ could not be converted through it, unlike
through the Python proxy.
---
 src/zope/security/_proxy.c | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/zope/security/_proxy.c b/src/zope/security/_proxy.c
index f4c1a4f..ab091cd 100644
--- a/src/zope/security/_proxy.c
+++ b/src/zope/security/_proxy.c
@@ -495,21 +495,17 @@ proxy_call(SecurityProxy *self, PyObject *args, PyObject *kwds)
  * Number methods.
  */
 
-#define NUMBER_METHOD(M) \
-static PyObject * \
-call_##M(PyObject *self) \
-{ \
-  PyNumberMethods *nb = self->ob_type->tp_as_number; \
-  if (nb == NULL || nb->nb_##M == NULL) { \
-    PyErr_SetString(PyExc_TypeError, \
-                    "object can't be converted to " #M); \
-    return NULL; \
-  } \
-  return nb->nb_##M(self); \
-}
-
-NUMBER_METHOD(int)
-NUMBER_METHOD(float)
+static PyObject *
+call_int(PyObject *self)
+{
+  return PyNumber_Long(self);
+}
+
+static PyObject *
+call_float(PyObject *self)
+{
+  return PyNumber_Float(self);
+}
 
 static PyObject *
 call_ipow(PyObject *self, PyObject *other)
-- 
2.43.0

