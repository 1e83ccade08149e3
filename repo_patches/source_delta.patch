From ccd13b48be32fd319c96098afd1e596bf605e610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:07 +0000
Subject: [PATCH 01/72] fix: run_python_string passes the Python
 implementation, not a boolean, to the VM

---
 xpython/execfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xpython/execfile.py b/xpython/execfile.py
index 0b1cc7d..fcb1bf3 100644
--- a/xpython/execfile.py
+++ b/xpython/execfile.py
@@ -332,7 +332,7 @@ def run_python_string(
             code,
             main_mod.__dict__,
             python_version,
-            IS_PYPY,
+            PYTHON_IMPLEMENTATION,
             callback,
             format_instruction=format_instruction,
         )
-- 
2.43.0


From 68df315343f74c677dc2b56c839fa3e38f92679d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:34 +0000
Subject: [PATCH 02/72] fix: PyVMTraced passes the Python implementation, not a
 boolean, to the VM

---
 xpython/vmtrace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index a2b3262..9160d22 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -5,7 +5,7 @@ This can be used in a debugger or profiler.
 import logging
 from types import TracebackType
 
-from xdis import IS_PYPY, PYTHON_VERSION_TRIPLE, codeType2Portable
+from xdis import PYTHON_IMPLEMENTATION, PYTHON_VERSION_TRIPLE, codeType2Portable
 
 # We will add a new "DEBUG" opcode
 from xdis.opcodes.base import def_op
@@ -79,14 +79,14 @@ class PyVMTraced(PyVM):
         self,
         callback,
         python_version: tuple[int, ...]=PYTHON_VERSION_TRIPLE,
-        is_pypy: bool=IS_PYPY,
+        python_implementation=PYTHON_IMPLEMENTATION,
         vmtest_testing: bool=False,
         event_flags: int=PyVMEVENT_ALL,
         format_instruction_func=format_instruction,
     ) -> None:
         super().__init__(
             python_version,
-            is_pypy,
+            python_implementation,
             vmtest_testing,
             format_instruction_func=format_instruction_func,
         )
-- 
2.43.0


From f25fee35b718729c0e23a7ea5dabadda51c1af66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:34 +0000
Subject: [PATCH 03/72] fix: select the 2.7 byteops, and reject unsupported
 versions with PyVMError

---
 xpython/byteop/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/xpython/byteop/__init__.py b/xpython/byteop/__init__.py
index 54e9090..33df4d4 100644
--- a/xpython/byteop/__init__.py
+++ b/xpython/byteop/__init__.py
@@ -8,7 +8,7 @@ from xdis.version_info import PythonImplementation
 
 def get_byteop(vm, python_version, python_implementation):
     """Get Python byteop for given integer Python version, e.g. 2.7,
-    3.2, 3.5..., and the python_implementation. vm.VMError will be raised
+    3.2, 3.5..., and the python_implementation. vm.PyVMError will be raised
     if we can't find a suitable version.
 
     """
@@ -24,7 +24,7 @@ def get_byteop(vm, python_version, python_implementation):
 
                     byteop = ByteOp27PyPy(vm)
                 else:
-                    from xpython.byteop.opcode_2x.byteop27 import ByteOp27
+                    from xpython.byteop.byteop27 import ByteOp27
 
                     byteop = ByteOp27(vm)
             else:
@@ -42,7 +42,8 @@ def get_byteop(vm, python_version, python_implementation):
                 from xpython.byteop.byteop24 import ByteOp24
 
                 byteop = ByteOp24(vm)
-                pass
+            else:
+                raise vm.PyVMError(f"Version {python_version} not supported")
             pass
     else:
         # 3.0 or greater
@@ -68,7 +69,7 @@ def get_byteop(vm, python_version, python_implementation):
 
                 byteop = ByteOp34(vm)
             else:
-                raise vm.VMEerror(f"Version {python_version} not supported")
+                raise vm.PyVMError(f"Version {python_version} not supported")
         else:
             if python_version == (3, 5):
                 if is_pypy:
-- 
2.43.0


From b26bc49cd1665f5dd208ef427d619c930418a7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:03 +0000
Subject: [PATCH 04/72] fix: creating a VM for a newer Python no longer removes
 opcodes from VMs of older ones

---
 xpython/byteop/byteop27.py |  7 +++++--
 xpython/byteop/byteop31.py |  7 +++++--
 xpython/byteop/byteop32.py | 20 +++++++++++---------
 xpython/byteop/byteop34.py |  5 ++++-
 xpython/byteop/byteop35.py |  7 +++++--
 xpython/byteop/byteop36.py |  2 --
 xpython/byteop/byteop37.py |  7 +++++--
 xpython/byteop/byteop38.py | 11 +++++++----
 xpython/byteop/byteop39.py | 21 +++++++++++----------
 9 files changed, 53 insertions(+), 34 deletions(-)

diff --git a/xpython/byteop/byteop27.py b/xpython/byteop/byteop27.py
index c22b3c9..af38641 100644
--- a/xpython/byteop/byteop27.py
+++ b/xpython/byteop/byteop27.py
@@ -9,8 +9,6 @@ from xpython.byteop.byteop24 import ByteOp24, Version_info
 from xpython.byteop.byteop26 import ByteOp26
 
 # Gone since 2.6
-del ByteOp24.JUMP_IF_FALSE
-del ByteOp24.JUMP_IF_TRUE
 
 
 def fmt_set_add(vm, arg, repr_fn=repr):
@@ -26,6 +24,11 @@ def fmt_map_add(vm, arg, repr_fn=repr):
 
 
 class ByteOp27(ByteOp26):
+    # Opcodes that are gone. We must not delete these from the
+    # superclass, since older versions still use them.
+    JUMP_IF_FALSE = None
+    JUMP_IF_TRUE = None
+
     def __init__(self, vm):
         super(ByteOp27, self).__init__(vm)
         self.stack_fmt["SET_ADD"] = fmt_set_add
diff --git a/xpython/byteop/byteop31.py b/xpython/byteop/byteop31.py
index 15486ed..66df7a0 100644
--- a/xpython/byteop/byteop31.py
+++ b/xpython/byteop/byteop31.py
@@ -8,12 +8,15 @@ from xpython.byteop.byteop32 import ByteOp32, Version_info
 # e.g. 3.0 that may want to inherit from this module.
 
 # Added 3.2 but not in 3.1
-del ByteOp32.DUP_TOP_TWO
-del ByteOp32.DELETE_DEREF
 # del ByteOp32.SETUP_WITH
 
 
 class ByteOp31(ByteOp32):
+    # Opcodes not here yet. We must not delete these from the
+    # superclass, since later versions still use them.
+    DUP_TOP_TWO = None
+    DELETE_DEREF = None
+
     def __init__(self, vm):
         super(ByteOp32, self).__init__(vm)
         self.version = "3.1.5 (default, Oct 27 1955, 00:00:00)\n[x-python]"
diff --git a/xpython/byteop/byteop32.py b/xpython/byteop/byteop32.py
index 7f1dba7..468634c 100644
--- a/xpython/byteop/byteop32.py
+++ b/xpython/byteop/byteop32.py
@@ -9,20 +9,11 @@ from xpython.byteop.byteop27 import ByteOp27
 from xpython.pyobj import Function
 
 # Gone since 3.0
-del ByteOp24.PRINT_EXPR
-del ByteOp24.PRINT_ITEM
-del ByteOp24.PRINT_ITEM_TO
-del ByteOp24.PRINT_NEWLINE
-del ByteOp24.PRINT_NEWLINE_TO
-del ByteOp24.BUILD_CLASS
-del ByteOp24.EXEC_STMT
-del ByteOp24.RAISE_VARARGS
 
 # FIXME: "del" removes in a way that messes up modules earlier modules
 # e.g. 3.1 that may want to inherit from this module.
 
 # Gone since 3.2
-del ByteOp24.DUP_TOPX
 
 
 def fmt_make_function(vm, arg=None, repr_fn=repr):
@@ -37,6 +28,17 @@ def fmt_make_function(vm, arg=None, repr_fn=repr):
 
 
 class ByteOp32(ByteOp27):
+    # Opcodes that are gone. We must not delete these from the
+    # superclass, since older versions still use them.
+    PRINT_EXPR = None
+    PRINT_ITEM = None
+    PRINT_ITEM_TO = None
+    PRINT_NEWLINE = None
+    PRINT_NEWLINE_TO = None
+    BUILD_CLASS = None
+    EXEC_STMT = None
+    DUP_TOPX = None
+
     def __init__(self, vm):
         super(ByteOp32, self).__init__(vm)
         self.stack_fmt["MAKE_FUNCTION"] = fmt_make_function
diff --git a/xpython/byteop/byteop34.py b/xpython/byteop/byteop34.py
index a6db178..ca492c3 100644
--- a/xpython/byteop/byteop34.py
+++ b/xpython/byteop/byteop34.py
@@ -13,10 +13,13 @@ from xpython.byteop.byteop33 import ByteOp33
 from xpython.pyobj import Function
 
 # Gone since 3.3
-del ByteOp32.STORE_LOCALS
 
 
 class ByteOp34(ByteOp33):
+    # Opcodes that are gone. We must not delete these from the
+    # superclass, since older versions still use them.
+    STORE_LOCALS = None
+
     def __init__(self, vm):
         super(ByteOp34, self).__init__(vm)
         self.version = "3.4.6 (default, Oct 27 1955, 00:00:00)\n[x-python]"
diff --git a/xpython/byteop/byteop35.py b/xpython/byteop/byteop35.py
index e6af99f..138483e 100644
--- a/xpython/byteop/byteop35.py
+++ b/xpython/byteop/byteop35.py
@@ -6,8 +6,6 @@ from xpython.byteop.byteop34 import ByteOp34
 from xpython.stdlib.inspect3 import iscoroutinefunction, isgeneratorfunction
 
 # Gone in 3.5
-del ByteOp24.STORE_MAP
-del ByteOp32.WITH_CLEANUP
 
 
 def fmt_build_map_unpack_with_call(vm, arg, repr_fn=repr):
@@ -24,6 +22,11 @@ def fmt_build_map_unpack_with_call(vm, arg, repr_fn=repr):
 
 
 class ByteOp35(ByteOp34):
+    # Opcodes that are gone. We must not delete these from the
+    # superclass, since older versions still use them.
+    STORE_MAP = None
+    WITH_CLEANUP = None
+
     def __init__(self, vm):
         super(ByteOp35, self).__init__(vm)
         self.stack_fmt["BUILD_MAP_UNPACK_WITH_CALL"] = fmt_build_map_unpack_with_call
diff --git a/xpython/byteop/byteop36.py b/xpython/byteop/byteop36.py
index 4106515..5c10f24 100644
--- a/xpython/byteop/byteop36.py
+++ b/xpython/byteop/byteop36.py
@@ -14,8 +14,6 @@ from xpython.byteop.byteop35 import ByteOp35
 from xpython.pyobj import Function
 
 # Gone in 3.6
-del ByteOp24.MAKE_CLOSURE
-del ByteOp24.CALL_FUNCTION_VAR
 
 # Even though Python 3.6 loses CALL_FUNCTION_VAR_KW, PyPy retains this for 3.6.
 # However, it is gone in 3.7. So we will keep this around for one more version than
diff --git a/xpython/byteop/byteop37.py b/xpython/byteop/byteop37.py
index 72888a0..31d2495 100644
--- a/xpython/byteop/byteop37.py
+++ b/xpython/byteop/byteop37.py
@@ -4,10 +4,8 @@ from xpython.byteop.byteop24 import ByteOp24, Version_info
 from xpython.byteop.byteop36 import ByteOp36
 
 # Gone in 3.7
-del ByteOp36.STORE_ANNOTATION
 
 # Gone in 3.6 PyPy (and therefore we kept it in 3.6 Python)
-del ByteOp24.CALL_FUNCTION_VAR_KW
 
 # del ByteOp36.WITH_CLEANUP_START
 # del ByteOp36.WITH_CLEANUP_FINISH
@@ -39,6 +37,11 @@ class ByteOp37(ByteOp36):
     """
     Python 3.7 opcodes
     """
+    # Opcodes that are gone. We must not delete these from the
+    # superclass, since older versions still use them.
+    STORE_ANNOTATION = None
+    CALL_FUNCTION_VAR_KW = None
+
     def __init__(self, vm):
         super().__init__(vm)
 
diff --git a/xpython/byteop/byteop38.py b/xpython/byteop/byteop38.py
index ffe32ed..d4196ac 100644
--- a/xpython/byteop/byteop38.py
+++ b/xpython/byteop/byteop38.py
@@ -10,13 +10,16 @@ from xpython.byteop.byteop24 import ByteOp24, Version_info
 from xpython.byteop.byteop37 import ByteOp37
 
 # Gone in 3.8
-del ByteOp24.BREAK_LOOP
-del ByteOp24.CONTINUE_LOOP
-del ByteOp24.SETUP_LOOP
-del ByteOp24.SETUP_EXCEPT
 
 
 class ByteOp38(ByteOp37):
+    # Opcodes that are gone. We must not delete these from the
+    # superclass, since older versions still use them.
+    BREAK_LOOP = None
+    CONTINUE_LOOP = None
+    SETUP_LOOP = None
+    SETUP_EXCEPT = None
+
     def __init__(self, vm):
         super(ByteOp38, self).__init__(vm)
 
diff --git a/xpython/byteop/byteop39.py b/xpython/byteop/byteop39.py
index aa92bde..c52097d 100644
--- a/xpython/byteop/byteop39.py
+++ b/xpython/byteop/byteop39.py
@@ -13,19 +13,20 @@ from xpython.byteop.byteop36 import ByteOp36
 from xpython.byteop.byteop38 import ByteOp38
 
 # Gone in 3.8
-del ByteOp24.END_FINALLY
-del ByteOp35.BUILD_LIST_UNPACK
-del ByteOp35.BUILD_MAP_UNPACK
-del ByteOp35.BUILD_SET_UNPACK
-del ByteOp35.BUILD_TUPLE_UNPACK
-del ByteOp35.WITH_CLEANUP_FINISH
-del ByteOp35.WITH_CLEANUP_START
-del ByteOp36.BUILD_MAP_UNPACK_WITH_CALL
-del ByteOp38.CALL_FINALLY
-del ByteOp38.POP_FINALLY
 
 
 class ByteOp39(ByteOp38):
+    # Opcodes that are gone. We must not delete these from the
+    # superclass, since older versions still use them.
+    BUILD_LIST_UNPACK = None
+    BUILD_MAP_UNPACK = None
+    BUILD_SET_UNPACK = None
+    BUILD_TUPLE_UNPACK = None
+    WITH_CLEANUP_FINISH = None
+    WITH_CLEANUP_START = None
+    CALL_FINALLY = None
+    POP_FINALLY = None
+
     def __init__(self, vm) -> None:
         super(ByteOp38, self).__init__(vm)
         self.hexversion = 0x30907F0
-- 
2.43.0


From 78a50ed8f0d58cdf706e4eaf10ecf94dd9eca3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:56 +0000
Subject: [PATCH 05/72] fix: report an uncaught exception whose value is not
 iterable

---
 xpython/vm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index 2f699ec..f5767c1 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -444,7 +444,7 @@ class PyVM(object):
                 self.last_traceback.print_tb()
             if self.last_exception is not None:
                 print(
-                    f"{self.last_exception[0].__name__}:", *self.last_exception[1]
+                    f"{self.last_exception[0].__name__}:", self.last_exception[1]
                 )
             return 1
 
@@ -455,7 +455,7 @@ class PyVM(object):
                 le1 = self.last_exception[1]
                 tail = ""
                 if le1:
-                    tail = "\n".join(le1.args)
+                    tail = "\n".join(str(arg) for arg in le1.args)
                 print(tail)
             raise
 
-- 
2.43.0


From 10c64158c7eb01cf965ebc80b5150941987e03a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:18 +0000
Subject: [PATCH 06/72] fix: scale 3.10 absolute jumps when the version is
 given as (3, 10)

---
 xpython/vm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index f5767c1..9d3d9ba 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -597,7 +597,7 @@ class PyVM(object):
                     # We probably could set fallthough, since many (all?)
                     # of these are unconditional, but we'll make the jump do
                     # the work of setting.
-                    if self.version >= (3, 10, 0):
+                    if self.version >= (3, 10):
                         int_arg += int_arg
                     arg = int_arg
                 elif byte_code in self.opc.LOCAL_OPS:
-- 
2.43.0


From e04248ffe7df9bff59bf0aa4accb0aab71eae695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:18 +0000
Subject: [PATCH 07/72] fix: CALL_METHOD for PyPy 3.7 and later

---
 xpython/byteop/byteop37pypy.py | 11 +++++++++++
 xpython/byteop/byteop38pypy.py |  1 +
 xpython/byteop/byteop39pypy.py |  1 +
 3 files changed, 13 insertions(+)

diff --git a/xpython/byteop/byteop37pypy.py b/xpython/byteop/byteop37pypy.py
index 1de6785..75e43ee 100644
--- a/xpython/byteop/byteop37pypy.py
+++ b/xpython/byteop/byteop37pypy.py
@@ -48,6 +48,17 @@ class ByteOp37PyPy(ByteOp37, ByteOpPyPy):
         self.is_pypy = True
         self.version = "3.7.12 (x-python, Oct 27 1955, 00:00:00)\n[PyPy with x-python]"
 
+    def CALL_METHOD(self, argc: int):
+        """
+        Calls a method with argc positional arguments. Below the
+        arguments is the cached method slot that LOOKUP_METHOD pushed,
+        which we do not use. After that is the method to call.
+        """
+        pos_args = self.vm.popn(argc)
+        self.vm.pop()  # cached method slot is not used here.
+        func = self.vm.pop()
+        return self.call_function_with_args_resolved(func, pos_args, {})
+
     def CALL_METHOD_KW(self, argc: int):
         """
         argc has a count of the number of keyword parameters.
diff --git a/xpython/byteop/byteop38pypy.py b/xpython/byteop/byteop38pypy.py
index 8af168d..5ec9f0a 100644
--- a/xpython/byteop/byteop38pypy.py
+++ b/xpython/byteop/byteop38pypy.py
@@ -22,4 +22,5 @@ class ByteOp38PyPy(ByteOp38, ByteOpPyPy):
 
         self.vm.push_block("setup-except", jump_offset)
 
+    CALL_METHOD = ByteOp37PyPy.CALL_METHOD
     CALL_METHOD_KW = ByteOp37PyPy.CALL_METHOD_KW
diff --git a/xpython/byteop/byteop39pypy.py b/xpython/byteop/byteop39pypy.py
index d3ab917..814df43 100644
--- a/xpython/byteop/byteop39pypy.py
+++ b/xpython/byteop/byteop39pypy.py
@@ -22,4 +22,5 @@ class ByteOp39PyPy(ByteOp39, ByteOpPyPy):
 
         self.vm.push_block("setup-except", jump_offset)
 
+    CALL_METHOD = ByteOp37PyPy.CALL_METHOD
     CALL_METHOD_KW = ByteOp37PyPy.CALL_METHOD_KW
-- 
2.43.0


From 64bc4fb49198ef2423b4e1de5903c0d74da087b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:47 +0000
Subject: [PATCH 08/72] fix: an exception that a called frame does not handle
 propagates to its caller

---
 xpython/vm.py      | 18 ++++++++----------
 xpython/vmtrace.py | 23 +++++++++--------------
 2 files changed, 17 insertions(+), 24 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index 9d3d9ba..11d6cdc 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -6,7 +6,6 @@ import linecache
 import logging
 import os
 import sys
-from types import TracebackType
 from typing import Any, List
 
 from xdis import (
@@ -24,7 +23,7 @@ from xdis.opcodes.opcode_3x.opcode_311 import _nb_ops
 from xdis.version_info import PythonImplementation
 
 from xpython.byteop import get_byteop
-from xpython.pyobj import Block, Frame, Traceback, traceback_from_frame
+from xpython.pyobj import Block, Frame, traceback_from_frame
 
 log = logging.getLogger(__name__)
 
@@ -893,14 +892,13 @@ class PyVM(object):
         if why == "exception":
             last_exception = self.last_exception
             if last_exception and last_exception[0]:
-                if isinstance(last_exception[2], (Traceback, TracebackType)):
-                    if not self.frame:
-                        if isinstance(last_exception, tuple):
-                            raise PyVMUncaughtException.from_tuple(last_exception)
-                        else:
-                            raise
-                else:
-                    raise
+                if not self.frame:
+                    raise PyVMUncaughtException.from_tuple(last_exception)
+                # Propagate the exception to the calling frame.
+                exc_value = last_exception[1]
+                if not isinstance(exc_value, BaseException):
+                    exc_value = last_exception[0](exc_value)
+                raise exc_value
             else:
                 raise PyVMError("Borked exception recording")
             # if self.exception and .... ?
diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index 9160d22..2876aee 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -3,14 +3,13 @@ This can be used in a debugger or profiler.
 """
 
 import logging
-from types import TracebackType
 
 from xdis import PYTHON_IMPLEMENTATION, PYTHON_VERSION_TRIPLE, codeType2Portable
 
 # We will add a new "DEBUG" opcode
 from xdis.opcodes.base import def_op
 
-from xpython.pyobj import Frame, Traceback, traceback_from_frame
+from xpython.pyobj import Frame, traceback_from_frame
 from xpython.vm import PyVM, PyVMError, PyVMUncaughtException, byteint, format_instruction
 
 log = logging.getLogger(__name__)
@@ -321,7 +320,7 @@ class PyVMTraced(PyVM):
                 and frame
                 and (not frame or frame.event_flags & PyVMEVENT_EXCEPTION)
             ):
-                frame.f_trace(
+                callback(
                     "exception",
                     offset,
                     bytecode_name,
@@ -352,17 +351,13 @@ class PyVMTraced(PyVM):
         if why == "exception":
             last_exception = self.last_exception
             if last_exception and last_exception[0]:
-                if isinstance(last_exception[2], (Traceback, TracebackType)):
-                    if not self.frame:
-                        if isinstance(last_exception, tuple):
-                            self.last_exception = PyVMUncaughtException.from_tuple(
-                                last_exception
-                            )
-                        raise self.last_exception
-                    else:
-                        raise last_exception[0]
-                    pass
-                pass
+                if not self.frame:
+                    raise PyVMUncaughtException.from_tuple(last_exception)
+                # Propagate the exception to the calling frame.
+                exc_value = last_exception[1]
+                if not isinstance(exc_value, BaseException):
+                    exc_value = last_exception[0](exc_value)
+                raise exc_value
             else:
                 raise PyVMError("Borked exception recording")
             # if self.exception and .... ?
-- 
2.43.0


From 5429e32e2c648c622375f0bc4cdd2e4139d6984d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:18 +0000
Subject: [PATCH 09/72] fix: programs can catch SystemExit and
 KeyboardInterrupt, and finally clauses run for them

---
 xpython/vm.py      | 10 ++++++----
 xpython/vmtrace.py |  7 ++++---
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index 11d6cdc..94f2b22 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -679,8 +679,9 @@ class PyVM(object):
                     )
                 why = bytecode_fn(*arguments)
 
-        except Exception:
+        except BaseException:
             # Deal with exceptions encountered while executing the op.
+            # Programs can catch SystemExit and KeyboardInterrupt too.
             self.last_traceback = byteop.traceback_from_frame()
             self.last_exception = sys.exc_info()
 
@@ -892,12 +893,13 @@ class PyVM(object):
         if why == "exception":
             last_exception = self.last_exception
             if last_exception and last_exception[0]:
-                if not self.frame:
-                    raise PyVMUncaughtException.from_tuple(last_exception)
-                # Propagate the exception to the calling frame.
                 exc_value = last_exception[1]
                 if not isinstance(exc_value, BaseException):
                     exc_value = last_exception[0](exc_value)
+                if not self.frame and isinstance(exc_value, Exception):
+                    raise PyVMUncaughtException.from_tuple(last_exception)
+                # Propagate the exception to the calling frame. SystemExit and
+                # KeyboardInterrupt leave the outermost frame as they are.
                 raise exc_value
             else:
                 raise PyVMError("Borked exception recording")
diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index 2876aee..2441842 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -351,12 +351,13 @@ class PyVMTraced(PyVM):
         if why == "exception":
             last_exception = self.last_exception
             if last_exception and last_exception[0]:
-                if not self.frame:
-                    raise PyVMUncaughtException.from_tuple(last_exception)
-                # Propagate the exception to the calling frame.
                 exc_value = last_exception[1]
                 if not isinstance(exc_value, BaseException):
                     exc_value = last_exception[0](exc_value)
+                if not self.frame and isinstance(exc_value, Exception):
+                    raise PyVMUncaughtException.from_tuple(last_exception)
+                # Propagate the exception to the calling frame. SystemExit and
+                # KeyboardInterrupt leave the outermost frame as they are.
                 raise exc_value
             else:
                 raise PyVMError("Borked exception recording")
-- 
2.43.0


From e7a031753f9875b6b8c960b305db86b3bc53fff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:29 +0000
Subject: [PATCH 10/72] fix: BINARY_DIVIDE and INPLACE_DIVIDE follow Python 2's
 classic division

---
 xpython/byteop/byteop.py | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 70b27ba..fd873f3 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -20,6 +20,33 @@ from xpython.vm import PyVM
 
 log = logging.getLogger(__name__)
 
+
+
+def classic_divide(x, y):
+    """Python 2's "/" when "from __future__ import division" isn't in effect"""
+    if isinstance(x, int) and isinstance(y, int):
+        return x // y
+    for method, args in (
+        (getattr(type(x), "__div__", None), (x, y)),
+        (getattr(type(y), "__rdiv__", None), (y, x)),
+    ):
+        if method is not None:
+            result = method(*args)
+            if result is not NotImplemented:
+                return result
+    return x / y
+
+
+def classic_inplace_divide(x, y):
+    """Python 2's "/=" when "from __future__ import division" isn't in effect"""
+    method = getattr(type(x), "__idiv__", None)
+    if method is not None:
+        result = method(x, y)
+        if result is not NotImplemented:
+            return result
+    return classic_divide(x, y)
+
+
 UNARY_OPERATORS = {
     "POSITIVE": operator.pos,
     "NEGATIVE": operator.neg,
@@ -31,7 +58,7 @@ UNARY_OPERATORS = {
 BINARY_OPERATORS = {
     "POWER": pow,
     "MULTIPLY": operator.mul,
-    "DIVIDE": getattr(operator, "div", lambda x, y: x / y),
+    "DIVIDE": classic_divide,
     "FLOOR_DIVIDE": operator.floordiv,
     "TRUE_DIVIDE": operator.truediv,
     "MODULO": operator.mod,
@@ -439,10 +466,7 @@ class ByteOpBase(object):
             # Overwritten __div__ is not picked up by x //= y
             # which seems to puck up FLOOR_DIVIDE
             # See Python 2.7 test_augassign.py
-            if hasattr(x, "__idiv__"):
-                x = x.__idiv__(y)
-            else:
-                x //= y
+            x = classic_inplace_divide(x, y)
         elif op == "FLOOR_DIVIDE":
             x //= y
         elif op == "TRUE_DIVIDE":
-- 
2.43.0


From b88307c560b302d87a62e6ffb6b1017606054b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:29 +0000
Subject: [PATCH 11/72] fix: x @= y stores the result of the operation

---
 xpython/byteop/byteop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index fd873f3..a23d6a8 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -489,7 +489,7 @@ class ByteOpBase(object):
             x |= y
         # 3.5 on
         elif op == "MATRIX_MULTIPLY":
-            operator.imatmul(x, y)
+            x = operator.imatmul(x, y)
         else:  # pragma: no cover
             raise self.PyVMError(f"Unknown in-place operator: {op!r}")
         self.vm.push(x)
-- 
2.43.0


From 1f7ba9f55023bb01b5add29e5c602081c205000e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:29 +0000
Subject: [PATCH 12/72] fix: INPLACE_RSHIFT operands are shown in instruction
 traces

---
 xpython/byteop/byteop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index a23d6a8..e5cc9a9 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -82,7 +82,8 @@ INPLACE_OPERATORS = frozenset(
         "MODULO",
         "MULTIPLY",
         "OR",
-        "POWER" "RSHIFT",
+        "POWER",
+        "RSHIFT",
         "SUBTRACT",
         "TRUE_DIVIDE",
         "XOR",
-- 
2.43.0


From 50dde75eb475d9dbcba6895bd9e60a35821317c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:51 +0000
Subject: [PATCH 13/72] fix: STORE_SLICE leaves nothing on the value stack

---
 xpython/byteop/byteop312.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/xpython/byteop/byteop312.py b/xpython/byteop/byteop312.py
index 64b7eb3..abf549f 100644
--- a/xpython/byteop/byteop312.py
+++ b/xpython/byteop/byteop312.py
@@ -71,11 +71,10 @@ class ByteOp312(ByteOp311):
           start = STACK.pop()
           container = STACK.pop()
           values = STACK.pop()
-          STACK.push(container)
+          container[start:end] = values
         """
         values, container, start, end = self.vm.popn(4)
         container[start:end]= values
-        self.vm.push(container)
 
     def CLEANUP_THROW(self):
         """
-- 
2.43.0


From e2dd1929e33b0f700b54f192c32a230143928dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:51 +0000
Subject: [PATCH 14/72] fix: implement ROT_N

---
 xpython/byteop/byteop310.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xpython/byteop/byteop310.py b/xpython/byteop/byteop310.py
index 26c9208..efa4a11 100644
--- a/xpython/byteop/byteop310.py
+++ b/xpython/byteop/byteop310.py
@@ -168,8 +168,8 @@ class ByteOp310(ByteOp39):
         """Lift the top count stack items one position up, and move
         TOS down to position count.
         """
-        # FIXME
-        raise self.vm.PyVMError("ROT_N not implemented")
+        *items, tos = self.vm.popn(count)
+        self.vm.push(tos, *items)
 
     def MATCH_CLASS(self):
         """TOS is a tuple of keyword attribute names, TOS1 is the class being
-- 
2.43.0


From ec9369853c96d1068d6833cdc0652d02107098c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:51 +0000
Subject: [PATCH 15/72] fix: GET_LEN leaves its operand on the value stack

---
 xpython/byteop/byteop310.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xpython/byteop/byteop310.py b/xpython/byteop/byteop310.py
index efa4a11..7a908c6 100644
--- a/xpython/byteop/byteop310.py
+++ b/xpython/byteop/byteop310.py
@@ -124,7 +124,7 @@ class ByteOp310(ByteOp39):
 
     def GET_LEN(self):
         """Push len(TOS) onto the stack."""
-        self.vm.push(len(self.vm.pop()))
+        self.vm.push(len(self.vm.top))
 
     def MATCH_MAPPING(self):
         """If TOS is an instance of collections.abc.Mapping (or, more
-- 
2.43.0


From fd9dd847eb055741c3baa99887de9ec870fe2f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:01 +0000
Subject: [PATCH 16/72] fix: formatting instructions for the log can't disturb
 or end the program

---
 xpython/vm.py | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index 94f2b22..5ce550a 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -107,7 +107,12 @@ def format_instruction(
     byte_code = opc.opmap.get(bytecode_name, 0)
 
     if vm and bytecode_name in vm.byteop.stack_fmt:
-        stack_args = vm.byteop.stack_fmt[bytecode_name](vm, int_arg, repr)
+        try:
+            stack_args = vm.byteop.stack_fmt[bytecode_name](vm, int_arg, repr)
+        except Exception:
+            # In the presence of exceptions the operands might already be gone,
+            # or the program's own __repr__() might fail.
+            stack_args = " (?)"
     else:
         stack_args = ""
 
@@ -325,7 +330,7 @@ class PyVM(object):
         log.debug(
             "make_frame: code=%r, callargs=%s, f_globals=%r, f_locals=%r",
             code,
-            repr(callargs),
+            list(callargs),
             (type(f_globals), id(f_globals)),
             (type(f_locals), id(f_locals)),
         )
@@ -625,11 +630,16 @@ class PyVM(object):
             vm=self,
         )
         indent = "    " * (len(self.frames) - 1)
-        stack_rep = repr(self.frame.stack)
-        block_stack_rep = repr(self.frame.block_stack)
-
-        log.debug(f"  {indent}frame.stack: {stack_rep}")
-        log.debug(f"  {indent}blocks     : {block_stack_rep}")
+        if log.isEnabledFor(logging.DEBUG):
+            try:
+                stack_rep = repr(self.frame.stack)
+            except Exception:
+                # The program's own __repr__() failed.
+                stack_rep = "(?)"
+            block_stack_rep = repr(self.frame.block_stack)
+
+            log.debug(f"  {indent}frame.stack: {stack_rep}")
+            log.debug(f"  {indent}blocks     : {block_stack_rep}")
         log.info(f"{indent}{op}")
 
     def dispatch(self, bytecode_name, int_arg, arguments, offset, line_number):
@@ -687,7 +697,9 @@ class PyVM(object):
 
             # FIXME: dry code
             if not self.in_exception_processing:
-                if self.last_exception[0] != SystemExit:
+                if self.last_exception[0] != SystemExit and log.isEnabledFor(
+                    logging.INFO
+                ):
                     log.info(
                         (
                             "exception in the execution of "
@@ -853,7 +865,9 @@ class PyVM(object):
 
                 if not self.in_exception_processing:
                     # FIXME: DRY code
-                    if self.last_exception[0] != SystemExit:
+                    if self.last_exception[0] != SystemExit and log.isEnabledFor(
+                        logging.INFO
+                    ):
                         log.info(
                             (
                                 "exception in the execution of "
-- 
2.43.0


From f2cd9787b3bb153d286bf12ac6b43b7d462dc2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:31 +0000
Subject: [PATCH 17/72] fix: slices with omitted bounds don't need the length
 of the container

---
 xpython/vm.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index 5ce550a..3660a10 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -928,8 +928,7 @@ class PyVM(object):
     # Operators
 
     def sliceOperator(self, op):
-        start = 0
-        end = None  # we will take this to mean end
+        start = end = None  # an omitted bound
         op, count = op[:-2], int(op[-1])
         if count == 1:
             start = self.pop()
@@ -939,8 +938,6 @@ class PyVM(object):
             end = self.pop()
             start = self.pop()
         slice_len = self.pop()
-        if end is None:
-            end = len(slice_len)
         if op.startswith("STORE_"):
             slice_len[start:end] = self.pop()
         elif op.startswith("DELETE_"):
-- 
2.43.0


From 7573d2ef73aac6010722062f42da39c675ea3f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:31 +0000
Subject: [PATCH 18/72] fix: classic division looks up __rdiv__ only when it is
 needed

---
 xpython/byteop/byteop.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index e5cc9a9..82a032f 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -26,14 +26,16 @@ def classic_divide(x, y):
     """Python 2's "/" when "from __future__ import division" isn't in effect"""
     if isinstance(x, int) and isinstance(y, int):
         return x // y
-    for method, args in (
-        (getattr(type(x), "__div__", None), (x, y)),
-        (getattr(type(y), "__rdiv__", None), (y, x)),
-    ):
-        if method is not None:
-            result = method(*args)
-            if result is not NotImplemented:
-                return result
+    method = getattr(type(x), "__div__", None)
+    if method is not None:
+        result = method(x, y)
+        if result is not NotImplemented:
+            return result
+    method = getattr(type(y), "__rdiv__", None)
+    if method is not None:
+        result = method(y, x)
+        if result is not NotImplemented:
+            return result
     return x / y
 
 
-- 
2.43.0


From b407bd302999fdd8b7d2d3adafebc699ed612024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:47 +0000
Subject: [PATCH 19/72] fix: 3.11 conditional jumps test the truth value, not
 equality with True or False

---
 xpython/byteop/byteop311.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index ca98958..4b844bf 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -559,7 +559,7 @@ class ByteOp311(ByteOp310):
         If TOS is true, increments the bytecode counter by delta. TOS is popped.
         """
         val = self.vm.pop()
-        if val == True:  # noqa
+        if val:  # noqa
             self.vm.jump(offset)
 
     def POP_JUMP_BACKWARD_IF_TRUE(self, offset: int):
@@ -567,7 +567,7 @@ class ByteOp311(ByteOp310):
         If TOS is true, decrements the bytecode counter by delta. TOS is popped.
         """
         val = self.vm.pop()
-        if val == True:  # noqa
+        if val:  # noqa
             self.vm.jump(offset)
 
     def POP_JUMP_FORWARD_IF_FALSE(self, offset: int):
@@ -575,7 +575,7 @@ class ByteOp311(ByteOp310):
         If TOS is false, increments the bytecode counter by delta. TOS is popped.
         """
         val = self.vm.pop()
-        if val == False:  # noqa
+        if not val:  # noqa
             self.vm.jump(offset)
 
     def POP_JUMP_BACKWARD_IF_FALSE(self, offset: int):
@@ -583,7 +583,7 @@ class ByteOp311(ByteOp310):
         If TOS is false, decrements the bytecode counter by delta. TOS is popped.
         """
         val = self.vm.pop()
-        if val == False:  # noqa
+        if not val:  # noqa
             self.vm.jump(offset)
 
     def POP_JUMP_FORWARD_IF_NOT_NONE(self, offset: int):
-- 
2.43.0


From b54e9086b733051ac1daf990be1cb09fdf38d025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:10 +0000
Subject: [PATCH 20/72] fix: implement POP_JUMP_IF_NONE and
 POP_JUMP_IF_NOT_NONE for 3.12

---
 xpython/byteop/byteop312.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/xpython/byteop/byteop312.py b/xpython/byteop/byteop312.py
index abf549f..2edaf86 100644
--- a/xpython/byteop/byteop312.py
+++ b/xpython/byteop/byteop312.py
@@ -118,19 +118,19 @@ class ByteOp312(ByteOp311):
     #     # FIXME
     #     raise self.vm.PyVMError("POP_JUMP_IF_FALSE not implemented")
 
-    def POP_JUMP_IF_NOT_NONE(self):
+    def POP_JUMP_IF_NOT_NONE(self, target: int):
         """
-        To be continued...
+        If TOS is not None, sets the bytecode counter to target. TOS is popped.
         """
-        # FIXME
-        raise self.vm.PyVMError("POP_JUMP_IF_NOT_NONE not implemented")
+        if self.vm.pop() is not None:
+            self.vm.jump(target)
 
-    def POP_JUMP_IF_NONE(self):
+    def POP_JUMP_IF_NONE(self, target: int):
         """
-        To be continued...
+        If TOS is None, sets the bytecode counter to target. TOS is popped.
         """
-        # FIXME
-        raise self.vm.PyVMError("POP_JUMP_IF_NONE not implemented")
+        if self.vm.pop() is None:
+            self.vm.jump(target)
 
     def LOAD_SUPER_ATTR(self):
         """
-- 
2.43.0


From 4bb5b2c6ede2b21cb028d5c127766a714dc66f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:10 +0000
Subject: [PATCH 21/72] fix: JUMP_BACKWARD_NO_INTERRUPT is defined under its
 own name

---
 xpython/byteop/byteop311.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index 4b844bf..39b77cd 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -548,7 +548,7 @@ class ByteOp311(ByteOp310):
         """
         self.vm.jump(offset)
 
-    def POP_JUMP_BACKWARD_NO_INTERRUPT(self, offset: int):
+    def JUMP_BACKWARD_NO_INTERRUPT(self, offset: int):
         """
         Decrements bytecode counter by delta. Does not check for interrupts.
         """
-- 
2.43.0


From b40d4608f3a9e795d953275cccbf4ef463be9d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:01 +0000
Subject: [PATCH 22/72] fix: implement LOAD_LOCALS and LOAD_FAST_CHECK for 3.12

---
 xpython/byteop/byteop312.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/xpython/byteop/byteop312.py b/xpython/byteop/byteop312.py
index 2edaf86..20bad68 100644
--- a/xpython/byteop/byteop312.py
+++ b/xpython/byteop/byteop312.py
@@ -84,11 +84,8 @@ class ByteOp312(ByteOp311):
         raise self.vm.PyVMError("CLEANUP_THROW not implemented")
 
     def LOAD_LOCALS(self):
-        """
-        To be continued...
-        """
-        # FIXME
-        raise self.vm.PyVMError("LOAD_LOCALS not implemented")
+        """Pushes a reference to the locals dictionary onto the stack."""
+        self.vm.push(self.vm.frame.f_locals)
 
     def RETURN_CONST(self, consti):
         """
@@ -97,12 +94,12 @@ class ByteOp312(ByteOp311):
         self.vm.return_value = consti
         return "return"
 
-    def LOAD_FAST_CHECK(self):
-        """
-        To be continued...
+    def LOAD_FAST_CHECK(self, name):
+        """Pushes a reference to the local co_varnames[var_num] onto
+        the stack, raising an UnboundLocalError if the local variable
+        has not been initialized.
         """
-        # FIXME
-        raise self.vm.PyVMError("LOAD_FAST_CHECK not implemented")
+        self.LOAD_FAST(name)
 
     # def POP_JUMP_IF_FALSE(self):
     #     """
-- 
2.43.0


From 5c68c4e36531975e07c0e14687b3ed2950df0bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:01 +0000
Subject: [PATCH 23/72] fix: LOAD_FAST_AND_CLEAR unbinds the variable, and
 STORE_FAST restores that

---
 xpython/byteop/byteop312.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/xpython/byteop/byteop312.py b/xpython/byteop/byteop312.py
index 20bad68..c150709 100644
--- a/xpython/byteop/byteop312.py
+++ b/xpython/byteop/byteop312.py
@@ -142,10 +142,17 @@ class ByteOp312(ByteOp311):
         has not been initialized) and sets co_varnames[var_num] to
         NULL.
         """
-        value = self.vm.frame.f_locals.get(name, NULL)
+        self.vm.push(self.vm.frame.f_locals.pop(name, NULL))
+
+    def STORE_FAST(self, name):
+        """Stores TOS into the local co_varnames[var_num]. A NULL, which
+        LOAD_FAST_AND_CLEAR left, unbinds the variable.
+        """
+        value = self.vm.pop()
         if value is NULL:
-            self.vm.frame.f_locals[name] = NULL
-        self.vm.push(value)
+            self.vm.frame.f_locals.pop(name, None)
+        else:
+            self.vm.frame.f_locals[name] = value
 
 
     # And many more...
-- 
2.43.0


From 9de5b974ea60c73e8b21c2eed239cf7783782420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:41 +0000
Subject: [PATCH 24/72] fix: deleting an unbound variable raises NameError

---
 xpython/byteop/byteop24.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 6c4b1e2..7a0ff58 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -426,11 +426,15 @@ class ByteOp24(ByteOpBase):
 
     def DELETE_GLOBAL(self, name):
         """Implements del name, where name in global."""
+        if name not in self.vm.frame.f_globals:
+            raise NameError(f"name '{name}' is not defined")
         del self.vm.frame.f_globals[name]
 
     def DELETE_NAME(self, name):
         """Implements del name, where name is the index into co_names
         attribute of the code object."""
+        if name not in self.vm.frame.f_locals:
+            raise NameError(f"name '{name}' is not defined")
         del self.vm.frame.f_locals[name]
 
     def UNPACK_SEQUENCE(self, count):
@@ -722,6 +726,10 @@ class ByteOp24(ByteOpBase):
 
     def DELETE_FAST(self, var_num):
         """Deletes local co_varnames[var_num]."""
+        if var_num not in self.vm.frame.f_locals:
+            raise UnboundLocalError(
+                f"local variable '{var_num}' referenced before assignment"
+            )
         del self.vm.frame.f_locals[var_num]
 
     def LOAD_CLOSURE(self, i):
-- 
2.43.0


From 4b3e23d42f4053d2a1bee6071543004dd32af7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:02 +0000
Subject: [PATCH 25/72] fix: function creation takes defaults, annotations and
 closure cells in the order the version pushes them

---
 xpython/byteop/byteop24.py |   7 +--
 xpython/byteop/byteop25.py |  17 ++++++
 xpython/byteop/byteop26.py |  16 -----
 xpython/byteop/byteop32.py | 122 +++++++++++++------------------------
 xpython/byteop/byteop33.py | 102 +++++--------------------------
 xpython/byteop/byteop34.py |  96 -----------------------------
 6 files changed, 76 insertions(+), 284 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 7a0ff58..9a5077f 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -17,7 +17,7 @@ from xpython.byteop.byteop import (
     fmt_ternary_op,
     fmt_unary_op,
 )
-from xpython.pyobj import Cell, Function, Traceback
+from xpython.pyobj import Function, Traceback
 from xpython.vm import PyVM
 from xpython.vmtrace import PyVMEVENT_RETURN, PyVMEVENT_YIELD
 
@@ -798,13 +798,12 @@ class ByteOp24(ByteOpBase):
         function also has argc default parameters, where are found
         before the cells.
 
-        Changed in 2.6
+        Changed in 2.5
         """
         code = self.vm.pop()
+        closure = tuple(self.vm.popn(len(code.co_freevars)))
         defaults = self.vm.popn(argc)
         globs = self.vm.frame.f_globals
-
-        closure = tuple([Cell(self.lookup_name(var)) for var in code.co_freevars])
         fn = Function(
             name=None,
             code=code,
diff --git a/xpython/byteop/byteop25.py b/xpython/byteop/byteop25.py
index 5313e76..d7599a6 100644
--- a/xpython/byteop/byteop25.py
+++ b/xpython/byteop/byteop25.py
@@ -5,6 +5,7 @@ Note: this is subclassed. Later versions use operations from here.
 """
 
 from xpython.byteop.byteop24 import ByteOp24, Version_info
+from xpython.pyobj import Function
 
 
 class ByteOp25(ByteOp24):
@@ -13,6 +14,22 @@ class ByteOp25(ByteOp24):
         self.version = "2.5.6 (default, Oct 27 1955, 00:00:00)\n[x-python]"
         self.version_info = Version_info(2, 5, 6, "final", 0)
 
+    # Changed in 2.5
+    def MAKE_CLOSURE(self, argc: int):
+        """
+        Creates a new function object, sets its ``func_closure`` slot, and
+        pushes it on the stack. TOS is the code associated with the
+        function, TOS1 the tuple containing cells for the closure’s
+        free variables. The function also has ``argc`` default parameters,
+        which are found below the cells.
+        """
+        name = None
+        closure, code = self.vm.popn(2)
+        defaults = self.vm.popn(argc)
+        globs = self.vm.frame.f_globals
+        fn = Function(name, code, globs, defaults, closure, self.vm)
+        self.vm.push(fn)
+
     # New in Python 2.5 but changes in 3.3.
     def WITH_CLEANUP(self):
         """Cleans up the stack when a "with" statement block exits. On top of
diff --git a/xpython/byteop/byteop26.py b/xpython/byteop/byteop26.py
index cdb7c39..17ab974 100644
--- a/xpython/byteop/byteop26.py
+++ b/xpython/byteop/byteop26.py
@@ -16,7 +16,6 @@ except ImportError:
 from xpython.byteop.byteop import fmt_binary_op
 from xpython.byteop.byteop24 import Version_info, fmt_make_function
 from xpython.byteop.byteop25 import ByteOp25
-from xpython.pyobj import Function
 
 
 class ByteOp26(ByteOp25):
@@ -84,18 +83,3 @@ class ByteOp26(ByteOp25):
             module = self.setup_sys_module()
 
         self.vm.push(module)
-
-    def MAKE_CLOSURE(self, argc: int):
-        """
-        Creates a new function object, sets its ``func_closure`` slot, and
-        pushes it on the stack. TOS is the code associated with the
-        function, TOS1 the tuple containing cells for the closure’s
-        free variables. The function also has ``argc`` default parameters,
-        which are found below the cells.
-        """
-        name = None
-        closure, code = self.vm.popn(2)
-        defaults = self.vm.popn(argc)
-        globs = self.vm.frame.f_globals
-        fn = Function(name, code, globs, defaults, closure, self.vm)
-        self.vm.push(fn)
diff --git a/xpython/byteop/byteop32.py b/xpython/byteop/byteop32.py
index 468634c..c205c1f 100644
--- a/xpython/byteop/byteop32.py
+++ b/xpython/byteop/byteop32.py
@@ -3,7 +3,6 @@
 """
 import inspect
 
-from xdis.opcodes.opcode_3x.opcode_3x import parse_fn_counts_30_35
 from xpython.byteop.byteop24 import ByteOp24, Version_info
 from xpython.byteop.byteop27 import ByteOp27
 from xpython.pyobj import Function
@@ -77,57 +76,62 @@ class ByteOp32(ByteOp27):
         later called by CALL_FUNCTION to construct a class."""
         self.vm.push(__build_class__)
 
-    def MAKE_CLOSURE(self, argc: int):
-        """
-        Creates a new function object, sets its ``__closure__`` slot, and
-        pushes it on the stack. TOS is the code qualified name of the
-        function, TOS is the code associated with the function and
-        TOS1 is the tuple containing cells for the closure's free
-        variables. The function asl has ``argc`` default parameters,
-        which are found below the cells.
-        """
-        default_count, kw_default_count, annotate_count = parse_fn_counts_30_35(argc)
-        closure, code = self.vm.popn(2)
+    def pop_kwdefaults(self, count: int) -> dict:
+        """Pops ``count`` name and default value pairs off the stack, and
+        returns them as a dictionary."""
+        pairs = self.vm.popn(2 * count)
+        return {pairs[i]: pairs[i + 1] for i in range(0, len(pairs), 2)}
 
-        if kw_default_count:
-            kw_default_pairs = self.vm.popn(2 * kw_default_count)
-            kwdefaults = dict(
-                kw_default_pairs[i : i + 2] for i in range(0, len(kw_default_pairs), 2)
-            )
-        else:
-            kwdefaults = {}
-
-        if default_count:
-            defaults = self.vm.popn(default_count)
-        else:
-            defaults = tuple()
+    def make_function(self, code, name, argc: int, closure=None, qualname=None):
+        """Pushes a new function object, after removing its annotations and its
+        default values from the stack, for MAKE_FUNCTION and
+        MAKE_CLOSURE in Python 3.0 to 3.5.
 
+        See MAKE_FUNCTION for how ``argc`` gives the number of each of these.
+        """
+        annotations = {}
+        annotate_count = (argc >> 16) & 0x7FFF
         if annotate_count:
-            annotate_names = self.vm.pop()
-            annotate_types = self.vm.popn(annotate_count)
-            n = len(annotate_names)
-            assert n == len(annotate_types)
-            annotations = {annotate_names[i]: annotate_types[i] for i in range(n)}
+            # The count includes the tuple of names.
+            names = self.vm.pop()
+            objects = self.vm.popn(annotate_count - 1)
+            annotations = {names[i]: objects[i] for i in range(len(objects))}
+
+        default_count = argc & 0xFF
+        kw_default_count = (argc >> 8) & 0xFF
+        if self.vm.version >= (3, 4):
+            kwdefaults = self.pop_kwdefaults(kw_default_count)
+            defaults = self.vm.popn(default_count)
         else:
-            annotations = {}
-
-        # FIXME: DRY with code in MAKE_FUNCTION
-
-        globs = self.vm.frame.f_globals
+            # Before 3.4, keyword-only defaults are evaluated first.
+            defaults = self.vm.popn(default_count)
+            kwdefaults = self.pop_kwdefaults(kw_default_count)
 
         fn = Function(
-            name=code.co_name,
+            name=name,
             code=code,
-            globs=globs,
+            globs=self.vm.frame.f_globals,
             argdefs=tuple(defaults),
             closure=closure,
             vm=self.vm,
             kwdefaults=kwdefaults,
             annotations=annotations,
+            qualname=qualname,
         )
-
         self.vm.push(fn)
 
+    def MAKE_CLOSURE(self, argc: int):
+        """
+        Creates a new function object, sets its ``__closure__`` slot, and
+        pushes it on the stack. TOS is the code qualified name of the
+        function, TOS is the code associated with the function and
+        TOS1 is the tuple containing cells for the closure's free
+        variables. The function asl has ``argc`` default parameters,
+        which are found below the cells.
+        """
+        closure, code = self.vm.popn(2)
+        self.make_function(code, code.co_name, argc, closure)
+
     # Changed from 3.1
     # 3.2 has kwdefaults that aren't allowed in 2.4
     def MAKE_FUNCTION(self, argc: int):
@@ -147,50 +151,8 @@ class ByteOp32(ByteOp27):
 
         Changed from Python 2.4.
         """
-        default_count, kw_default_count, annotate_count = parse_fn_counts_30_35(argc)
-
         code = self.vm.pop()
-        name = code.co_name
-
-        if kw_default_count:
-            kw_default_pairs = self.vm.popn(2 * kw_default_count)
-            kwdefaults = dict(
-                kw_default_pairs[i : i + 2] for i in range(0, len(kw_default_pairs), 2)
-            )
-        else:
-            kwdefaults = {}
-
-        if default_count:
-            defaults = self.vm.popn(default_count)
-        else:
-            defaults = tuple()
-
-        if annotate_count:
-            annotate_names = self.vm.pop()
-            # annotate count includes +1 for the above names
-            annotate_objects = self.vm.popn(annotate_count - 1)
-            n = len(annotate_names)
-            assert n == len(annotate_objects)
-            annotations = {annotate_names[i]: annotate_objects[i] for i in range(n)}
-        else:
-            annotations = {}
-
-        # FIXME: DRY with code in byteop3{2,6}.py
-
-        globs = self.vm.frame.f_globals
-
-        fn = Function(
-            name=name,
-            code=code,
-            globs=globs,
-            argdefs=tuple(defaults),
-            closure=None,
-            vm=self.vm,
-            kwdefaults=kwdefaults,
-            annotations=annotations,
-        )
-
-        self.vm.push(fn)
+        self.make_function(code, code.co_name, argc)
 
     def WITH_CLEANUP(self):
         """Cleans up the stack when a `with` statement block exits. TOS is the
diff --git a/xpython/byteop/byteop33.py b/xpython/byteop/byteop33.py
index 21d8770..185331b 100644
--- a/xpython/byteop/byteop33.py
+++ b/xpython/byteop/byteop33.py
@@ -2,10 +2,9 @@
 """Byte Interpreter operations for Python 3.3
 """
 
-from xdis.opcodes.opcode_3x.opcode_3x import parse_fn_counts_30_35
 from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop32 import ByteOp32
-from xpython.pyobj import Function, Generator
+from xpython.pyobj import Generator
 
 
 class ByteOp33(ByteOp32):
@@ -23,49 +22,15 @@ class ByteOp33(ByteOp32):
         variables. The function also has ``argc`` default parameters,
         which are found below the cells.
         """
-        default_count, kw_default_count, annotate_count = parse_fn_counts_30_35(argc)
-        code, name = self.vm.popn(2)
-        closure = self.vm.pop()
-
-        if kw_default_count:
-            kw_default_pairs = self.vm.popn(2 * kw_default_count)
-            kwdefaults = dict(
-                kw_default_pairs[i : i + 2] for i in range(0, len(kw_default_pairs), 2)
-            )
-        else:
-            kwdefaults = {}
-
-        if default_count:
-            defaults = self.vm.popn(default_count)
-        else:
-            defaults = tuple()
-
-        if annotate_count:
-            annotate_names = self.vm.pop()
-            annotate_types = self.vm.popn(annotate_count)
-            n = len(annotate_names)
-            assert n == len(annotate_types)
-            annotations = {annotate_names[i]: annotate_types[i] for i in range(n)}
-        else:
-            annotations = {}
-
-        # FIXME: DRY with code in MAKE_FUNCTION
-
-        globs = self.vm.frame.f_globals
-
-        fn = Function(
-            name=name,
-            code=code,
-            globs=globs,
-            argdefs=tuple(defaults),
-            closure=closure,
-            vm=self.vm,
-            kwdefaults=kwdefaults,
-            annotations=annotations,
+        closure, code, qualname = self.vm.popn(3)
+        self.make_function(
+            code,
+            code.co_name,
+            argc,
+            closure,
+            qualname if self.vm.version >= (3, 4) else None,
         )
 
-        self.vm.push(fn)
-
     # Changed from 3.2; 3.3 adds annotations.
     def MAKE_FUNCTION(self, argc):
         """
@@ -82,53 +47,14 @@ class ByteOp33(ByteOp32):
           3.0..3.2)
         * the qualified name of the function (at TOS if 3.3+)
         """
-        default_count, kw_default_count, annotate_count = parse_fn_counts_30_35(argc)
-
-        # The string function name does not seem to be used.
-        # In the 3.4, it is dropped.
-        self.vm.pop()
-        code = self.vm.pop()
-        name = code.co_name
-
-        if kw_default_count:
-            kw_default_pairs = self.vm.popn(2 * kw_default_count)
-            kwdefaults = dict(
-                kw_default_pairs[i : i + 2] for i in range(0, len(kw_default_pairs), 2)
-            )
-        else:
-            kwdefaults = {}
-
-        if annotate_count:
-            annotate_names = self.vm.pop()
-            annotate_objects = self.vm.popn(annotate_count)
-            n = len(annotate_objects)
-            assert n == len(annotate_names)
-            annotations = {annotate_names[i]: annotate_objects[i] for i in range(n)}
-        else:
-            annotations = {}
-
-        if default_count:
-            defaults = self.vm.popn(default_count)
-        else:
-            defaults = tuple()
-
-        # FIXME: DRY with code in byteop3{2,6}.py
-
-        globs = self.vm.frame.f_globals
-
-        fn = Function(
-            name=name,
-            code=code,
-            globs=globs,
-            argdefs=tuple(defaults),
-            closure=None,
-            vm=self.vm,
-            kwdefaults=kwdefaults,
-            annotations=annotations,
+        code, qualname = self.vm.popn(2)
+        self.make_function(
+            code,
+            code.co_name,
+            argc,
+            qualname=qualname if self.vm.version >= (3, 4) else None,
         )
 
-        self.vm.push(fn)
-
     def YIELD_FROM(self):
         """
         Pops TOS and delegates to it as a subiterator from a generator.
diff --git a/xpython/byteop/byteop34.py b/xpython/byteop/byteop34.py
index ca492c3..ea42853 100644
--- a/xpython/byteop/byteop34.py
+++ b/xpython/byteop/byteop34.py
@@ -1,16 +1,9 @@
 # -*- coding: utf-8 -*-
 """Bytecode Interpreter operations for Python 3.4
 """
-import inspect
-import types
-
-from xdis.opcodes.opcode_3x.opcode_3x import parse_fn_counts_30_35
-from xdis.version_info import IS_PYPY, PYTHON_VERSION_TRIPLE
-
 from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop32 import ByteOp32
 from xpython.byteop.byteop33 import ByteOp33
-from xpython.pyobj import Function
 
 # Gone since 3.3
 
@@ -41,92 +34,3 @@ class ByteOp34(ByteOp33):
     # https://docs.python.org/3.4/library/dis.htmls#python-bytecode-instructions
     #
     ##############################################################################
-
-    # Changed in 3.4
-
-    # Python 3.4 __build_class__ is more strict about what can be a
-    # function type whereas in earlier version we could get away with
-    # our own kind of xpython.pyobj.Function object.
-    #
-
-    # Python 3.3 docs describe this but seem to follow pre-3.3
-    # conventions (which go back to Python 2.x days).
-    def MAKE_FUNCTION(self, argc: int):
-        """
-        Pushes a new function object on the stack. From bottom to top, the consumed
-        stack must consist of:
-
-        * argc & 0xFF default argument objects in positional order
-        * (argc >> 8) & 0xFF pairs of name and default argument, with the name just
-          below the object on the stack, for keyword-only parameters
-        * (argc >> 16) & 0x7FFF parameter annotation objects
-        * a tuple listing the parameter names for the annotations (only if there are
-          only annotation objects)
-        * the code associated with the function (at TOS1)
-        * the qualified name of the function (at TOS)
-        """
-
-        default_count, kw_default_count, annotate_count = parse_fn_counts_30_35(argc)
-
-        name = self.vm.pop()
-        code = self.vm.pop()
-        if annotate_count:
-            annotate_names = self.vm.pop()
-            # annotate count includes +1 for the above names
-            annotate_objects = self.vm.popn(annotate_count - 1)
-            n = len(annotate_objects)
-            # We can annotate a function return value, but
-            # that does is not a parameter object and not
-            # listed in annotate_objects
-            if annotate_names[-1] == "return":
-                assert n == len(annotate_names) - 1
-            else:
-                assert n == len(annotate_names)
-            annotations = {annotate_names[i]: annotate_objects[i] for i in range(n)}
-        else:
-            annotations = {}
-
-        if kw_default_count:
-            kw_default_pairs = self.vm.popn(2 * kw_default_count)
-            kwdefaults = dict(
-                kw_default_pairs[i : i + 2] for i in range(0, len(kw_default_pairs), 2)
-            )
-        else:
-            kwdefaults = {}
-
-        if default_count:
-            defaults = self.vm.popn(default_count)
-        else:
-            defaults = tuple()
-
-        # FIXME: DRY with code in byteop3{2,6}.py
-
-        globs = self.vm.frame.f_globals
-
-        fn = Function(
-            name=name,
-            code=code,
-            globs=globs,
-            argdefs=tuple(defaults),
-            closure=None,
-            vm=self.vm,
-            kwdefaults=kwdefaults,
-            annotations=annotations,
-            # FIXME: figure out qualname
-        )
-
-        if (
-            inspect.iscode(code)
-            and self.version[:2] == PYTHON_VERSION_TRIPLE[:2]
-            and self.is_pypy == IS_PYPY
-        ):
-            # Python 3.4 __build_class__ is more strict about what can be a
-            # function type whereas in earlier version we could get away with
-            # our own kind of xpython.pyobj.Function object.
-
-            native_fn = types.FunctionType(code, globs, name, tuple(defaults))
-            native_fn.__kwdefaults__ = kwdefaults
-            native_fn.__annotations__ = annotations
-            self.vm.fn2native[fn] = native_fn
-
-        self.vm.push(fn)
-- 
2.43.0


From d2936f7e1124de2f76d103957136d921e04e98f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:29 +0000
Subject: [PATCH 26/72] fix: cells belong to one activation, can be empty, and
 DELETE_DEREF empties them

---
 xpython/byteop/byteop24.py  | 16 +++++++++++++++-
 xpython/byteop/byteop311.py | 14 ++++----------
 xpython/byteop/byteop312.py | 17 ++++++++++++++---
 xpython/byteop/byteop32.py  |  7 ++++---
 xpython/byteop/byteop34.py  |  8 ++++++--
 xpython/pyobj.py            | 15 +++++++++------
 6 files changed, 52 insertions(+), 25 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 9a5077f..18d1bba 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -746,7 +746,21 @@ class ByteOp24(ByteOpBase):
         storage. Pushes a reference to the object the cell contains on the
         stack.
         """
-        self.vm.push(self.vm.frame.cells[name].get())
+        self.vm.push(self.get_cell_contents(name))
+
+    def get_cell_contents(self, name):
+        """Returns what the cell for the variable ``name`` contains."""
+        frame = self.vm.frame
+        cell = frame.cells[name]
+        if cell.is_empty():
+            if name in (frame.f_code.co_cellvars or ()):
+                raise UnboundLocalError(
+                    f"local variable '{name}' referenced before assignment"
+                )
+            raise NameError(
+                f"free variable '{name}' referenced before assignment in enclosing scope"
+            )
+        return cell.get()
 
     def STORE_DEREF(self, name):
         """Stores TOS into the cell contained in slot i of the cell
diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index 39b77cd..f7ed91c 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -22,7 +22,7 @@ from xpython.byteop.byteop36 import (
 from xpython.builtins import build_class, builtin_super
 from xpython.byteop.byteop37 import NULL
 from xpython.byteop.byteop310 import ByteOp310
-from xpython.pyobj import Function
+from xpython.pyobj import Cell, Function
 
 log = logging.getLogger(__name__)
 
@@ -340,12 +340,7 @@ class ByteOp311(ByteOp310):
         #     Py_INCREF(o);
         #     frame->localsplus[offset + i] = o;
         # }
-        frame = self.vm.frame
-        co = frame.f_code
-        localsplus = co.co_freevars + co.co_cellvars
-        for i in range(argc):
-            name = localsplus[i]
-            frame.f_locals[name] = frame.cells[name].get()
+        # Here, a frame gets the cells of its free variables when it is created.
         return
 
     def KW_NAMES(self, names: Tuple[str]):
@@ -366,8 +361,6 @@ class ByteOp311(ByteOp310):
         """
         Creates a new cell in slot i having name "name". If that slot is nonempty then that value is stored into the new cell.
 
-
-        In this interpreter, we create all cells when the frame is created. So there's nothing to do
         """
         # PyObject *initial = GETLOCAL(oparg);
         # PyObject *cell = PyCell_New(initial);
@@ -375,7 +368,8 @@ class ByteOp311(ByteOp310):
         #     goto resume_with_error;
         # }
         # SETLOCAL(oparg, cell);
-        self.vm.frame.cells[name].set(self.vm.frame.f_locals.get(name, None))
+        frame = self.vm.frame
+        frame.cells[name] = Cell(frame.f_locals.get(name, Cell.empty))
         return
 
     # Changed in 3.11...
diff --git a/xpython/byteop/byteop312.py b/xpython/byteop/byteop312.py
index c150709..16ec7b5 100644
--- a/xpython/byteop/byteop312.py
+++ b/xpython/byteop/byteop312.py
@@ -10,6 +10,7 @@
 from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop311 import ByteOp311
 from xpython.byteop.byteop37 import NULL
+from xpython.pyobj import Cell
 
 
 # pylint: disable=too-many-public-methods
@@ -142,17 +143,27 @@ class ByteOp312(ByteOp311):
         has not been initialized) and sets co_varnames[var_num] to
         NULL.
         """
-        self.vm.push(self.vm.frame.f_locals.pop(name, NULL))
+        frame = self.vm.frame
+        value = frame.f_locals.pop(name, NULL)
+        if frame.cells and name in frame.cells:
+            # The slot of a captured variable contains its cell.
+            value = frame.cells[name]
+        self.vm.push(value)
 
     def STORE_FAST(self, name):
         """Stores TOS into the local co_varnames[var_num]. A NULL, which
         LOAD_FAST_AND_CLEAR left, unbinds the variable.
         """
+        frame = self.vm.frame
         value = self.vm.pop()
         if value is NULL:
-            self.vm.frame.f_locals.pop(name, None)
+            frame.f_locals.pop(name, None)
+        elif isinstance(value, Cell):
+            # Restore a captured variable.
+            frame.f_locals.pop(name, None)
+            frame.cells[name] = value
         else:
-            self.vm.frame.f_locals[name] = value
+            frame.f_locals[name] = value
 
 
     # And many more...
diff --git a/xpython/byteop/byteop32.py b/xpython/byteop/byteop32.py
index c205c1f..4622eaa 100644
--- a/xpython/byteop/byteop32.py
+++ b/xpython/byteop/byteop32.py
@@ -5,7 +5,7 @@ import inspect
 
 from xpython.byteop.byteop24 import ByteOp24, Version_info
 from xpython.byteop.byteop27 import ByteOp27
-from xpython.pyobj import Function
+from xpython.pyobj import Cell, Function
 
 # Gone since 3.0
 
@@ -47,10 +47,11 @@ class ByteOp32(ByteOp27):
     def convert_native_to_Function(self, frame, func):
         assert inspect.isfunction(func) or isinstance(func, Function)
 
-    def DELETE_DEREF(self, i):
+    def DELETE_DEREF(self, name):
         """Empties the cell contained in slot i of the cell and free
         variable storage. Used by the del statement."""
-        raise self.vm.PyVMError("DELETE_DEREF not implemented")
+        self.get_cell_contents(name)
+        self.vm.frame.cells[name].set(Cell.empty)
 
     def DUP_TOP_TWO(self):
         """Duplicates the reference on top of the stack."""
diff --git a/xpython/byteop/byteop34.py b/xpython/byteop/byteop34.py
index ea42853..59f4fe8 100644
--- a/xpython/byteop/byteop34.py
+++ b/xpython/byteop/byteop34.py
@@ -21,13 +21,17 @@ class ByteOp34(ByteOp33):
 
     # New in 3.4
 
-    def LOAD_CLASSDEREF(self, count):
+    def LOAD_CLASSDEREF(self, name):
         """
         Much like LOAD_DEREF but first checks the locals dictionary before
         consulting the cell. This is used for loading free variables in class
         bodies.
         """
-        self.vm.push(self.vm.frame.cells[count].get())
+        f_locals = self.vm.frame.f_locals
+        if name in f_locals:
+            self.vm.push(f_locals[name])
+        else:
+            self.vm.push(self.get_cell_contents(name))
 
     ##############################################################################
     # Order of function here is the same as in:
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index d1189a9..d17eb82 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -345,9 +345,15 @@ class Cell:
 
     """
 
-    def __init__(self, value) -> None:
+    # What an empty cell contains.
+    empty = object()
+
+    def __init__(self, value=empty) -> None:
         self.contents = value
 
+    def is_empty(self) -> bool:
+        return self.contents is Cell.empty
+
     def get(self):
         return self.contents
 
@@ -438,12 +444,9 @@ class Frame(object):
 
         if f_code.co_cellvars:
             self.cells = {}
-            if not f_back.cells:
-                f_back.cells = {}
             for var in f_code.co_cellvars:
-                # Make a cell for the variable in our locals, or None.
-                cell = Cell(self.f_locals.get(var))
-                f_back.cells[var] = self.cells[var] = cell
+                # Make a cell for the variable in our locals, or an empty one.
+                self.cells[var] = Cell(self.f_locals.get(var, Cell.empty))
         else:
             self.cells = None
 
-- 
2.43.0


From bfee74700208805bb0e3d5ba771b306e895828cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:52 +0000
Subject: [PATCH 27/72] fix: implement LOAD_FROM_DICT_OR_DEREF and
 LOAD_FROM_DICT_OR_GLOBALS for 3.12

---
 xpython/byteop/byteop312.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/xpython/byteop/byteop312.py b/xpython/byteop/byteop312.py
index 16ec7b5..0928e7c 100644
--- a/xpython/byteop/byteop312.py
+++ b/xpython/byteop/byteop312.py
@@ -102,6 +102,29 @@ class ByteOp312(ByteOp311):
         """
         self.LOAD_FAST(name)
 
+    def LOAD_FROM_DICT_OR_DEREF(self, name):
+        """Pops a mapping off the stack and looks up name in it. If the
+        name is not found there, loads it from the cell of that name
+        as LOAD_DEREF does.
+        """
+        mapping = self.vm.pop()
+        try:
+            value = mapping[name]
+        except KeyError:
+            value = self.get_cell_contents(name)
+        self.vm.push(value)
+
+    def LOAD_FROM_DICT_OR_GLOBALS(self, name):
+        """Pops a mapping off the stack and looks up name in it. If the
+        name is not found there, looks it up in the globals and then
+        the builtins.
+        """
+        mapping = self.vm.pop()
+        try:
+            self.vm.push(mapping[name])
+        except KeyError:
+            self.LOAD_GLOBAL(name)
+
     # def POP_JUMP_IF_FALSE(self):
     #     """
     #     To be continued...
-- 
2.43.0


From 8afcc9773f38c6cb968dcf8ee9cf20a9bf004440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:19 +0000
Subject: [PATCH 28/72] fix: UNPACK_SEQUENCE takes any iterable and checks the
 number of items; implement UNPACK_EX

---
 xpython/byteop/byteop24.py | 24 +++++++++++++++++++++---
 xpython/byteop/byteop32.py | 25 +++++++++++++++++++++++++
 2 files changed, 46 insertions(+), 3 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 18d1bba..38d4986 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -441,9 +441,27 @@ class ByteOp24(ByteOpBase):
         """Unpacks TOS into count individual values, which are put onto the
         stack right-to-left.
         """
-        seq = self.vm.pop()
-        for x in reversed(seq):
-            self.vm.push(x)
+        iterator = iter(self.vm.pop())
+        items = self.take_items(iterator, count)
+        try:
+            next(iterator)
+        except StopIteration:
+            pass
+        else:
+            raise ValueError(f"too many values to unpack (expected {count})")
+        self.vm.push(*reversed(items))
+
+    def take_items(self, iterator, count) -> list:
+        """Returns the next ``count`` items of ``iterator``."""
+        items = []
+        while len(items) < count:
+            try:
+                items.append(next(iterator))
+            except StopIteration:
+                raise ValueError(
+                    f"not enough values to unpack (expected {count}, got {len(items)})"
+                ) from None
+        return items
 
     def DUP_TOPX(self, count: int):
         """
diff --git a/xpython/byteop/byteop32.py b/xpython/byteop/byteop32.py
index 4622eaa..b99f332 100644
--- a/xpython/byteop/byteop32.py
+++ b/xpython/byteop/byteop32.py
@@ -53,6 +53,31 @@ class ByteOp32(ByteOp27):
         self.get_cell_contents(name)
         self.vm.frame.cells[name].set(Cell.empty)
 
+    def UNPACK_EX(self, counts: int):
+        """Implements assignment with a starred target: Unpacks an
+        iterable in TOS into individual values, where the total number
+        of values can be smaller than the number of items in the
+        iterable: one of the new values will be a list of all leftover
+        items.
+
+        The low byte of counts is the number of values before the list
+        value, the high byte of counts the number of values after it.
+        The resulting values are put onto the stack right-to-left.
+        """
+        before, after = counts & 0xFF, counts >> 8
+        iterator = iter(self.vm.pop())
+        items = self.take_items(iterator, before)
+        rest = list(iterator)
+        if len(rest) < after:
+            raise ValueError(
+                f"not enough values to unpack (expected at least {before + after}, "
+                f"got {before + len(rest)})"
+            )
+        split = len(rest) - after
+        self.vm.push(*reversed(rest[split:]))
+        self.vm.push(rest[:split])
+        self.vm.push(*reversed(items))
+
     def DUP_TOP_TWO(self):
         """Duplicates the reference on top of the stack."""
         a, b = self.vm.popn(2)
-- 
2.43.0


From 54560dfcdb82bf41f8fd31019860e6c65c991d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:19 +0000
Subject: [PATCH 29/72] fix: merging mappings rejects duplicate keywords with
 TypeError and accepts any mapping

---
 xpython/byteop/byteop35.py | 34 ++++++++++++++++++----------------
 xpython/byteop/byteop36.py | 31 +++++++------------------------
 xpython/byteop/byteop39.py | 13 +++++++------
 3 files changed, 32 insertions(+), 46 deletions(-)

diff --git a/xpython/byteop/byteop35.py b/xpython/byteop/byteop35.py
index 138483e..24411bd 100644
--- a/xpython/byteop/byteop35.py
+++ b/xpython/byteop/byteop35.py
@@ -248,23 +248,25 @@ class ByteOp35(ByteOp34):
         mappings, the relative position of the corresponding callable
         f is encoded in the second byte of oparg.
         """
-        # In 3.5 fn_pos may be always 1 which meant the stack
-        # entry after the mappings. In 3.6 this function-position
-        # encoding was dropped. But we'll follow the spec.
-        fn_pos, count = divmod(oparg, 256)
-        fn_pos -= 1
+        # The position of the callable is for error messages only.
+        self.merge_call_mappings(oparg & 0xFF)
 
-        elts = self.vm.popn(count)
-        if elts:
-            kwargs = {k: v for m in elts for k, v in m.items()}
-        else:
-            kwargs = None
-        func = self.vm.pop(fn_pos)
-
-        # Put everything in the right order for CALL_FUNCTION_KW
-        self.vm.push(func)
-        if kwargs:
-            self.vm.push(kwargs)
+    def merge_call_mappings(self, count: int):
+        """Pops ``count`` mappings and pushes a dictionary of the
+        keyword arguments they contain. No keyword may be in more than
+        one of them.
+        """
+        kwargs = {}
+        for mapping in self.vm.popn(count):
+            self.merge_keywords(kwargs, mapping)
+        self.vm.push(kwargs)
+
+    def merge_keywords(self, kwargs: dict, mapping):
+        """Adds the keyword arguments in ``mapping`` to ``kwargs``."""
+        for key in mapping.keys():
+            if key in kwargs:
+                raise TypeError(f"got multiple values for keyword argument '{key}'")
+            kwargs[key] = mapping[key]
 
     def CALL_FUNCTION_VAR(self, argc: int):
         """Calls a callable object, similarly to `CALL_FUNCTION_VAR` and
diff --git a/xpython/byteop/byteop36.py b/xpython/byteop/byteop36.py
index 5c10f24..9ba1c18 100644
--- a/xpython/byteop/byteop36.py
+++ b/xpython/byteop/byteop36.py
@@ -104,27 +104,9 @@ class ByteOp36(ByteOp35):
     def BUILD_MAP_UNPACK_WITH_CALL(self, oparg):
         """
         This is similar to BUILD_MAP_UNPACK, but is used for f(**x, **y,
-        **z) call syntax. The lowest byte of oparg is the count of
-        mappings, the relative position of the corresponding callable
-        f is encoded in the second byte of oparg.
+        **z) call syntax. oparg is the count of mappings.
         """
-        count = oparg
-        fn_pos = 0
-
-        elts = self.vm.popn(count)
-        if elts:
-            kwargs = {k: v for m in elts for k, v in m.items()}
-        else:
-            kwargs = None
-
-        posargs = self.vm.pop()
-        func = self.vm.pop(fn_pos)
-
-        # Put everything in the right order for CALL_FUNCTION_EX
-        self.vm.push(func)
-        self.vm.push(posargs)
-        if kwargs:
-            self.vm.push(kwargs)
+        self.merge_call_mappings(oparg)
 
     def CALL_FUNCTION_KW(self, argc: int):
         """
@@ -315,7 +297,8 @@ class ByteOp36(ByteOp35):
         """
         assert isinstance(count, int) and count >= 0
         parameter_tuples = self.vm.popn(count)
-        parameters = [
-            parameter for sublist in parameter_tuples for parameter in sublist
-        ]
-        self.vm.push(parameters)
+        self.vm.push(
+            tuple(
+                parameter for sublist in parameter_tuples for parameter in sublist
+            )
+        )
diff --git a/xpython/byteop/byteop39.py b/xpython/byteop/byteop39.py
index c52097d..6b67440 100644
--- a/xpython/byteop/byteop39.py
+++ b/xpython/byteop/byteop39.py
@@ -126,18 +126,19 @@ class ByteOp39(ByteOp38):
     def DICT_MERGE(self, i) -> None:
         """Like DICT_UPDATE but raises an exception for duplicate keys."""
         TOS = self.vm.pop()
-        assert isinstance(TOS, dict)
         destination = self.vm.peek(i)
         assert isinstance(destination, dict)
-        dups = set(destination.keys()) & set(TOS.keys())
-        if bool(dups):
-            raise RuntimeError(f"Duplicate keys '{dups}' in DICT_MERGE")
-        destination.update(TOS)
+        if not hasattr(TOS, "keys"):
+            raise TypeError(
+                f"argument after ** must be a mapping, not {type(TOS).__name__}"
+            )
+        self.merge_keywords(destination, TOS)
 
     def DICT_UPDATE(self, i) -> None:
         """Calls dict.update(TOS1[-i], TOS). Used to build dicts."""
         TOS = self.vm.pop()
-        assert isinstance(TOS, dict)
         destination = self.vm.peek(i)
         assert isinstance(destination, dict)
+        if not hasattr(TOS, "keys"):
+            raise TypeError(f"'{type(TOS).__name__}' object is not a mapping")
         destination.update(TOS)
-- 
2.43.0


From 1b643ec0ffa1ba8fb9346f87d65d2ca04b927653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:44 +0000
Subject: [PATCH 30/72] fix: StopIteration raised by an unpacked iterable's
 __iter__ reaches the program

build_container_flat iterated inside a generator expression, which turns it into RuntimeError.
---
 xpython/byteop/byteop35.py | 11 ++++++++---
 xpython/byteop/byteop36.py |  7 +------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/xpython/byteop/byteop35.py b/xpython/byteop/byteop35.py
index 24411bd..a3b8ac4 100644
--- a/xpython/byteop/byteop35.py
+++ b/xpython/byteop/byteop35.py
@@ -35,8 +35,10 @@ class ByteOp35(ByteOp34):
         self.version_info = Version_info(3, 5, 10, "final", 0)
 
     def build_container_flat(self, count, container_fn):
-        elts = self.vm.popn(count)
-        self.vm.push(container_fn(e for elt in elts for e in elt))
+        items = []
+        for elt in self.vm.popn(count):
+            items.extend(elt)
+        self.vm.push(container_fn(items))
 
     def get_awaitable_iter(self, o):
         # This helper function returns an awaitable for `o`:
@@ -226,7 +228,10 @@ class ByteOp35(ByteOp34):
         dictionary, and pushes the result. Implements dictionary
         unpacking in dictionary displays {**x, **y, **z}.
         """
-        self.build_container_flat(count, set)
+        result = set()
+        for elt in self.vm.popn(count):
+            result.update(elt)
+        self.vm.push(result)
 
     def BUILD_MAP_UNPACK(self, count):
         """
diff --git a/xpython/byteop/byteop36.py b/xpython/byteop/byteop36.py
index 9ba1c18..3775c16 100644
--- a/xpython/byteop/byteop36.py
+++ b/xpython/byteop/byteop36.py
@@ -296,9 +296,4 @@ class ByteOp36(ByteOp35):
         corresponding callable f.
         """
         assert isinstance(count, int) and count >= 0
-        parameter_tuples = self.vm.popn(count)
-        self.vm.push(
-            tuple(
-                parameter for sublist in parameter_tuples for parameter in sublist
-            )
-        )
+        self.build_container_flat(count, tuple)
-- 
2.43.0


From 16a94bbb33947e855e82963684c7a48a75feaa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:59 +0000
Subject: [PATCH 31/72] fix: keyword arguments of 3.6+ calls keep their order
 and 3.11+ CALL gives them the right values

KW_NAMES popped the values in the wrong order and CALL mistook bound methods;
CALL_FUNCTION_EX left the NULL below the callable on the stack and passed a tuple
where call_function_with_args_resolved needs a list.
---
 xpython/byteop/byteop311.py    | 235 ++++-----------------------------
 xpython/byteop/byteop36.py     |  19 ++-
 xpython/byteop/byteop37pypy.py |  22 +--
 xpython/pyobj.py               |   2 +-
 4 files changed, 40 insertions(+), 238 deletions(-)

diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index f7ed91c..0c93005 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -11,7 +11,7 @@ import inspect
 import logging
 from typing import Tuple
 
-from xdis.version_info import PYTHON_VERSION_TRIPLE, version_tuple_to_str
+from xdis.version_info import PYTHON_VERSION_TRIPLE
 
 from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop36 import (
@@ -19,7 +19,6 @@ from xpython.byteop.byteop36 import (
     MAKE_FUNCTION_SLOT_NAMES,
     MAKE_FUNCTION_SLOTS,
 )
-from xpython.builtins import build_class, builtin_super
 from xpython.byteop.byteop37 import NULL
 from xpython.byteop.byteop310 import ByteOp310
 from xpython.pyobj import Cell, Function
@@ -56,196 +55,6 @@ class ByteOp311(ByteOp310):
         self.version = "3.11.0 (default, Oct 27 1955, 00:00:00)\n[x-python]"
         self.version_info = Version_info(3, 11, 0, "final", 0)
 
-    def call311_function_with_args_resolved(self, func, pos_args, named_args):
-        frame = self.vm.frame
-
-        assert not self.vm.is_empty_stack
-        if self.vm.top is NULL:
-            self.vm.pop()  # Remove NULL
-        else:
-            # Pickup self.
-            self_obj = self.vm.pop()
-            retval = self_obj(func, *pos_args, **named_args)
-            self.vm.push(retval)
-            return
-
-        # FIXME: put this in a separate routine.
-        if inspect.isbuiltin(func):
-            log.debug(f"handling built-in function {func.__name__}")
-            if func == globals:
-                # Use the frame's globals(), not the interpreter's
-                self.vm.push(frame.f_globals)
-                return
-            elif func == locals:
-                # Use the frame's locals(), not the interpreter's
-                self.vm.push(frame.f_locals)
-                return
-
-            if func == compile:
-                # Set dont_inherit parameter.  FIXME: we should set
-                # other flags too based on the interpreted
-                # environment?
-                if len(pos_args) < 5 and "dont_inherit" not in named_args:
-                    named_args["dont_inherit"] = True
-                    pass
-            elif func.__name__ == "exec":
-                if not 1 <= len(pos_args) <= 3:
-                    raise self.vm.PyVMError(
-                        "exec() builtin should have 1..3 positional arguments; got %d"
-                        % (len(pos_args))
-                    )
-                n = len(pos_args)
-                assert 1 <= n <= 3
-
-                # Note that in contrast to `eval()` handled below, if
-                # the `locals` parameter is not provided, the
-                # `globals` parameter value (whether provided or
-                # default value) is used for the `locals`
-                # parameter. So we shouldn't use the frame's `locals`.
-                if len(pos_args) == 1:
-                    pos_args.append(self.vm.frame.f_globals)
-
-                if self.version_info[:2] == PYTHON_VERSION_TRIPLE[:2]:
-                    # Use the compile() and interprete the bytecode using our own
-                    # interpreter not CPython's.
-                    source = pos_args[0]
-                    if isinstance(source, str) or isinstance(source, bytes):
-                        try:
-                            pos_args[0] = compile(
-                                source, "<string>", mode="exec", dont_inherit=True
-                            )
-                        except (TypeError, SyntaxError, ValueError):
-                            raise
-                    self.vm.push(self.vm.run_code(*pos_args, toplevel=False))
-                    return
-                else:
-                    if not self.cross_bytecode_exec_warning_shown:
-                        log.warning(
-                            "Running built-in `exec()`, because bytecode compile() is not available "
-                            "and we are cross-version. "
-                            "Interpreting version %s from version %s."
-                            % (
-                                version_tuple_to_str(self.version_info, end=2),
-                                version_tuple_to_str(PYTHON_VERSION_TRIPLE, end=2),
-                            )
-                        )
-                        self.cross_bytecode_exec_warning_shown = True
-
-            elif func == eval:
-                if not 1 <= len(pos_args) <= 3:
-                    raise self.vm.PyVMError(
-                        "eval() builtin should have 1..3 positional arguments; got %d"
-                        % (len(pos_args))
-                    )
-                assert 1 <= len(pos_args) <= 3
-                # Use the frame's globals(), not the interpreter's
-                n = len(pos_args)
-                if n < 2:
-                    pos_args.append(self.vm.frame.f_globals)
-                # Likewise for locals()
-                if n < 3:
-                    pos_args.append(self.vm.frame.f_locals)
-                assert len(pos_args) == 3
-
-                if self.version_info[:2] == PYTHON_VERSION_TRIPLE[:2]:
-                    # Use the compile() and interprete the bytecode using our own
-                    # interpreter not CPython's.
-                    source = pos_args[0]
-                    if isinstance(source, str):
-                        try:
-                            pos_args[0] = compile(
-                                source, "<string>", mode="eval", dont_inherit=True
-                            )
-                        except (TypeError, SyntaxError, ValueError):
-                            raise
-                    self.vm.push(self.vm.run_code(*pos_args, toplevel=False))
-                    return
-                else:
-                    if not self.cross_bytecode_eval_warning_shown:
-                        log.warning(
-                            "Running built-in `eval()`, because bytecode compile() is not available "
-                            "and we are cross-version. "
-                            "Interpreting version %s from version %s."
-                            % (
-                                version_tuple_to_str(self.version_info, end=2),
-                                version_tuple_to_str(PYTHON_VERSION_TRIPLE, end=2),
-                            )
-                        )
-                        self.cross_bytecode_eval_warning_shown = True
-
-            elif PYTHON_VERSION_TRIPLE >= (3, 0) and func == __build_class__:
-                assert len(pos_args) > 0, (
-                    "__build_class__() should have at least one argument, an "
-                    "__init__() function."
-                )
-                init_fn = pos_args[0]
-                if (
-                    isinstance(init_fn, Function)
-                    or self.is_pypy
-                    or self.version_info[:2] != PYTHON_VERSION_TRIPLE[:2]
-                ):
-                    # 3.3+ __build_class__() works only on bytecode
-                    # that matches the CPython interpreter, so use
-                    # Darius' version instead.  Down the line we will
-                    # try to do this universally, but it is tricky:
-                    retval = build_class(self.vm.opc, *pos_args, **named_args)
-                    self.vm.push(retval)
-                    return
-                else:
-                    # Use builtin __build_class__(). However for that,
-                    # we need a native function.  This is wrong though
-                    # in that we won't trace into __init__().
-                    init_fn = pos_args[0]
-                    if isinstance(init_fn, Function) and init_fn in self.vm.fn2native:
-                        pos_args[0] = self.vm.fn2native[init_fn]
-        elif func is type and len(pos_args) == 3:
-            # Set __module__
-            assert not named_args
-            namespace = pos_args[2]
-            namespace["__module__"] = namespace.get(
-                "__name__", self.vm.frame.f_globals["__name__"]
-            )
-
-        if (
-            inspect.isfunction(func)
-            and self.version_info[:2] == PYTHON_VERSION_TRIPLE[:2]
-        ):
-            # Try to convert to an interpreter function, so we can interpret it.
-            if func in self.vm.fn2native:
-                func = self.vm.fn2native[func]
-            elif False:  # self.vm.version < (3, 0):
-                # Not quite ready. See 3.7 test_asyncgen.py for an
-                # example of code that comes here. In that test, the
-                # LOAD_GLOBAL '_ignore_deprecated_imports' fails to
-                # find the global. '_ignore_deprecated_imports' is a method name
-                # in test.support module of test/support/__init__.py.
-                # In Python 2.X we work around a similar problem by
-                # not tying to handle functions with closures.
-                assert len(pos_args) > 0
-                pos_args[0] = self.convert_native_to_Function(frame, pos_args[0])
-
-        if (
-            inspect.isfunction(func)
-            and self.version_info[:2] == PYTHON_VERSION_TRIPLE[:2]
-        ):
-            log.debug(f"calling native function {func.__name__}")
-        elif inspect.isclass(func):
-            if func.__name__ == "super":
-                pos_args = [self.vm.frame] + pos_args
-                func = builtin_super
-
-        retval = func(*pos_args, **named_args)
-        self.vm.push(retval)
-
-    def is_method(self, argc: int) -> bool:
-        """
-        Translation of ceval.c is_method() macro:
-            #define is_method(stack_pointer, args) (PEEK((args)+2) != NULL)
-        and Py_TYPE(function) == &PyMethod_Type)
-        """
-        function = self.vm.peek(argc + 1)
-        return self.vm.peek(argc + 2) is not NULL and inspect.ismethod(function)
-
     # Added in 3.11...
 
     # New in 3.11.  Note: below, the parameter mentioned in the
@@ -309,21 +118,31 @@ class ByteOp311(ByteOp310):
         Replaces CALL_FUNCTION
 
         """
-        total_args = argc + 1 if self.is_method(argc) else argc
-        # FIXME: figure out how to set this
-        kw_names_len = len(self.vm.frame.call_shape_kwnames)
-        named_args = self.vm.frame.call_shape_kwnames
-        positional_args = total_args - kw_names_len
-        pos_args = self.vm.popn(positional_args)
-        function = self.vm.pop()
+        kw_names = self.vm.frame.call_shape_kwnames
+        # Clear names set by KW_NAMES
+        self.vm.frame.call_shape_kwnames = ()
+
+        args = self.vm.popn(argc)
+        positional = argc - len(kw_names)
+        named_args = dict(zip(kw_names, args[positional:]))
+        pos_args = args[:positional]
+        func, self_or_func = self.vm.popn(2)
+        if func is NULL:
+            func = self_or_func
+        else:
+            pos_args.insert(0, self_or_func)
         # C interpreter checks for inlining here.
         # We will skip this.
+        return self.call_function_with_args_resolved(func, pos_args, named_args)
 
-        ret_val = self.call311_function_with_args_resolved(function, pos_args, named_args)
-
-        # Clear names set by KW_NAMES
-        self.vm.frame.call_shape_kwnames = {}
-        return ret_val
+    def CALL_FUNCTION_EX(self, flags):
+        """Calls a callable object with variable set of positional and
+        keyword arguments as before 3.11. Below the callable there is
+        now also a NULL which is popped.
+        """
+        func, pos_args, named_args = self.pop_call_ex(flags)
+        self.vm.pop()  # Remove NULL
+        return self.call_function_with_args_resolved(func, pos_args, named_args)
 
     def COPY_FREE_VARS(self, argc: int):
         """Copies the n free variables from the closure into the
@@ -352,9 +171,7 @@ class ByteOp311(ByteOp310):
         Replaces CALL_FUNCTION_KW
         """
 
-        for name in names:
-            self.vm.frame.call_shape_kwnames[name] = self.vm.pop()
-        return
+        self.vm.frame.call_shape_kwnames = names
 
     # Changed in 3.11...
     def MAKE_CELL(self, name: str):
@@ -491,10 +308,6 @@ class ByteOp311(ByteOp310):
          make it accept the `self` as a first argument.
 
         """
-        n_args = argc + 1 if self.is_method(argc) else argc
-        function = self.vm.peek(n_args + 1)
-        if inspect.ismethod(function):
-            pass
         return
 
     def PUSH_NULL(self):
diff --git a/xpython/byteop/byteop36.py b/xpython/byteop/byteop36.py
index 3775c16..24ec334 100644
--- a/xpython/byteop/byteop36.py
+++ b/xpython/byteop/byteop36.py
@@ -77,10 +77,8 @@ class ByteOp36(ByteOp35):
         self.version_info = Version_info(3, 6, 14, "final", 0)
 
     def call_function_kw(self, argc: int):
-        namedargs = {}
         namedargs_tup = self.vm.pop()
-        for name in reversed(namedargs_tup):
-            namedargs[name] = self.vm.pop()
+        namedargs = dict(zip(namedargs_tup, self.vm.popn(len(namedargs_tup))))
 
         lenPos = argc - len(namedargs_tup)
         posargs = self.vm.popn(lenPos)
@@ -263,11 +261,18 @@ class ByteOp36(ByteOp35):
         callable object with those arguments, and pushes the return
         value returned by the callable object.
         """
+        func, pos_args, named_args = self.pop_call_ex(flags)
+        return self.call_function_with_args_resolved(func, pos_args, named_args)
+
+    def pop_call_ex(self, flags):
+        """Pops the operands of CALL_FUNCTION_EX: the mapping of keyword
+        arguments if the low bit of ``flags`` is set, the iterable of
+        positional arguments, and the callable.
+        """
         assert isinstance(flags, int)
-        namedargs = self.vm.pop() if flags & 1 else {}
-        posargs = self.vm.pop()
-        func = self.vm.pop()
-        self.call_function_with_args_resolved(func, posargs, namedargs)
+        named_args = {**self.vm.pop()} if flags & 1 else {}
+        pos_args = list(self.vm.pop())
+        return self.vm.pop(), pos_args, named_args
 
     def SETUP_ANNOTATIONS(self):
         """
diff --git a/xpython/byteop/byteop37pypy.py b/xpython/byteop/byteop37pypy.py
index 75e43ee..d3930ea 100644
--- a/xpython/byteop/byteop37pypy.py
+++ b/xpython/byteop/byteop37pypy.py
@@ -67,27 +67,11 @@ class ByteOp37PyPy(ByteOp37, ByteOpPyPy):
         case is garbage. After that is the method to call.
         """
 
-        # We are going to access parameter off of the stack which is
-        # has the last parameter closest to the top.
-        # Reverse keyword names in the tuple match our access pattern.
         kw_names = self.vm.pop()
         assert isinstance(kw_names, tuple)
-        kw_names = list(reversed(kw_names))
-        kwarg_count = len(kw_names)
-
-        assert argc >= kwarg_count
-        pos_argc = argc - kwarg_count
-        keyword_args = {}
-
-        for i in range(kwarg_count):
-            param_value = self.vm.pop()
-            keyword_args[kw_names[i]] = param_value
-
-        pos_args = []
-        for i in range(pos_argc):
-            pos_args.append(self.vm.pop())
-
-        pos_args = list(reversed(pos_args))
+        assert argc >= len(kw_names)
+        keyword_args = dict(zip(kw_names, self.vm.popn(len(kw_names))))
+        pos_args = self.vm.popn(argc - len(kw_names))
 
         self.vm.pop()  # cached method slot is not used here.
         func = self.vm.pop()
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index d17eb82..0bbff13 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -486,7 +486,7 @@ class Frame(object):
 
         # Python 3.11 adds call_shape structure which
         # has only one item, kwnames.
-        self.call_shape_kwnames = {}
+        self.call_shape_kwnames = ()
         return
 
     def __repr__(self) -> str:  # pragma: no cover
-- 
2.43.0


From c4f10d3c863ee98cfb2d8e983f7e6c0c8e9f665a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:35 +0000
Subject: [PATCH 32/72] fix: pre-3.6 calls with ** keep argument layout and
 reject repeated keywords

---
 xpython/byteop/byteop.py   |  9 ++++++++-
 xpython/byteop/byteop35.py | 19 +++++++++++--------
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 82a032f..1fae9ba 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -368,13 +368,20 @@ class ByteOpBase(object):
         for i in range(len_kw):
             key, val = self.vm.popn(2)
             named_args[key] = val
-        named_args.update(keyword_args)
+        self.merge_keywords(named_args, keyword_args)
         pos_args = self.vm.popn(len_pos)
         pos_args.extend(var_args)
 
         func = self.vm.pop()
         return self.call_function_with_args_resolved(func, pos_args, named_args)
 
+    def merge_keywords(self, kwargs: dict, mapping):
+        """Adds the keyword arguments in ``mapping`` to ``kwargs``."""
+        for key in mapping.keys():
+            if key in kwargs:
+                raise TypeError(f"got multiple values for keyword argument '{key}'")
+            kwargs[key] = mapping[key]
+
     def convert_native_to_Function(self, frame, func: Callable) -> Callable:
         assert inspect.isfunction(func) or isinstance(func, Function)
         slots = {"kwdefaults": {}, "annotations": {}}
diff --git a/xpython/byteop/byteop35.py b/xpython/byteop/byteop35.py
index a3b8ac4..0aa9eb4 100644
--- a/xpython/byteop/byteop35.py
+++ b/xpython/byteop/byteop35.py
@@ -266,13 +266,6 @@ class ByteOp35(ByteOp34):
             self.merge_keywords(kwargs, mapping)
         self.vm.push(kwargs)
 
-    def merge_keywords(self, kwargs: dict, mapping):
-        """Adds the keyword arguments in ``mapping`` to ``kwargs``."""
-        for key in mapping.keys():
-            if key in kwargs:
-                raise TypeError(f"got multiple values for keyword argument '{key}'")
-            kwargs[key] = mapping[key]
-
     def CALL_FUNCTION_VAR(self, argc: int):
         """Calls a callable object, similarly to `CALL_FUNCTION_VAR` and
         `CALL_FUNCTION_KW`. *argc* represents the number of keyword
@@ -295,15 +288,25 @@ class ByteOp35(ByteOp34):
         keyword arguments.
 
         """
+        return self.call_function_var(argc, {})
+
+    def CALL_FUNCTION_VAR_KW(self, argc: int):
+        """Like CALL_FUNCTION_VAR with, on top of the stack, a mapping of
+        additional keyword arguments.
+        """
+        return self.call_function_var(argc, self.vm.pop())
+
+    def call_function_var(self, argc: int, mapping):
         keyword_args = {}
         len_kw, len_pos = divmod(argc, 256)
         for i in range(len_kw):
             key, val = self.vm.popn(2)
             keyword_args[key] = val
+        self.merge_keywords(keyword_args, mapping)
         var_args = self.vm.pop()
         pos_args = self.vm.popn(len_pos)
         pos_args.extend(var_args)
         func = self.vm.pop()
-        self.call_function_with_args_resolved(
+        return self.call_function_with_args_resolved(
             func, pos_args=pos_args, named_args=keyword_args
         )
-- 
2.43.0


From 453a15a1f1d5d9645e1c249813a471c74e823ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:22 +0000
Subject: [PATCH 33/72] fix: 3.12 STORE_FAST takes only the cell of a captured
 variable as its cell

---
 xpython/byteop/byteop312.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xpython/byteop/byteop312.py b/xpython/byteop/byteop312.py
index 0928e7c..2a7ae34 100644
--- a/xpython/byteop/byteop312.py
+++ b/xpython/byteop/byteop312.py
@@ -181,7 +181,7 @@ class ByteOp312(ByteOp311):
         value = self.vm.pop()
         if value is NULL:
             frame.f_locals.pop(name, None)
-        elif isinstance(value, Cell):
+        elif type(value) is Cell and frame.cells and name in frame.cells:
             # Restore a captured variable.
             frame.f_locals.pop(name, None)
             frame.cells[name] = value
-- 
2.43.0


From 338b5ee8d9b339c7ab9305d89902f167d9063906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:54 +0000
Subject: [PATCH 34/72] fix: logging a failed instruction does not touch what
 is left on the stack, and formats comparisons without a vm

---
 xpython/vm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index 3660a10..a041dab 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -121,7 +121,7 @@ def format_instruction(
     elif int_arg is None:
         argrepr = ""
     elif byte_code in opc.COMPARE_OPS:
-        if vm.version >= (3, 12):
+        if tuple(opc.version_tuple[:2]) >= (3, 12):
             int_arg >>= 4
         argrepr = opc.cmp_op[int_arg]
     elif isinstance(arguments, list) and arguments:
@@ -696,6 +696,7 @@ class PyVM(object):
             self.last_exception = sys.exc_info()
 
             # FIXME: dry code
+            # Note: operands may have been popped already, so we do not show them.
             if not self.in_exception_processing:
                 if self.last_exception[0] != SystemExit and log.isEnabledFor(
                     logging.INFO
@@ -713,7 +714,6 @@ class PyVM(object):
                                 offset,
                                 line_number,
                                 False,
-                                vm=self,
                             )
                         )
                     )
-- 
2.43.0


From 204cc5f0cce121e910c7c40003789627afc6dc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:54 +0000
Subject: [PATCH 35/72] fix: LOAD_METHOD looks up once and lets the program see
 AttributeError; PyPy 3.9 LOAD_METHOD matches its CALL_METHOD

---
 xpython/byteop/byteop37.py     | 18 ++++++------------
 xpython/byteop/byteop39pypy.py |  2 ++
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/xpython/byteop/byteop37.py b/xpython/byteop/byteop37.py
index 31d2495..9a3bb30 100644
--- a/xpython/byteop/byteop37.py
+++ b/xpython/byteop/byteop37.py
@@ -81,18 +81,12 @@ class ByteOp37(ByteOp36):
         by CALL_METHOD when calling the unbound method. Otherwise,
         NULL and the object return by the attribute lookup are pushed.
         """
-        TOS = self.vm.pop()
-
-        if hasattr(TOS, name):
-            # FIXME: Figure out how to get an unbound method and self from a callable function.
-            # Until then, we need to push NULL and the callable (the default slow path).
-            function = getattr(TOS, name)
-            if not callable(function):
-                raise self.vm.PyVMError(f"LOAD_METHOD {name} off of {TOS} of type {type(TOS)} is not callable.")
-            self.vm.push(NULL)
-            self.vm.push(function)
-        else:
-            raise self.vm.PyVMError(f"LOAD_METHOD can't find {name} off of {TOS} of type {type(TOS)}")
+        # If the attribute is missing, the program gets the AttributeError.
+        # FIXME: for now we bind methods eagerly, so this is the
+        # "not an unbound method" case.
+        function = getattr(self.vm.pop(), name)
+        self.vm.push(NULL)
+        self.vm.push(function)
 
     def CALL_METHOD(self, count):
         """Calls a method. argc is the number of positional
diff --git a/xpython/byteop/byteop39pypy.py b/xpython/byteop/byteop39pypy.py
index 814df43..a34a764 100644
--- a/xpython/byteop/byteop39pypy.py
+++ b/xpython/byteop/byteop39pypy.py
@@ -22,5 +22,7 @@ class ByteOp39PyPy(ByteOp39, ByteOpPyPy):
 
         self.vm.push_block("setup-except", jump_offset)
 
+    # PyPy 3.9 renames LOOKUP_METHOD, keeping what it does
+    LOAD_METHOD = ByteOpPyPy.LOOKUP_METHOD
     CALL_METHOD = ByteOp37PyPy.CALL_METHOD
     CALL_METHOD_KW = ByteOp37PyPy.CALL_METHOD_KW
-- 
2.43.0


From d9d9b4f2706009007d659e844020be06e023434c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:54 +0000
Subject: [PATCH 36/72] fix: CALL_FUNCTION takes more than 255 arguments since
 3.6, keeps keyword order and the exception's own type

---
 xpython/byteop/byteop.py       | 13 +++++++++----
 xpython/byteop/byteop24.py     |  7 +------
 xpython/byteop/byteop35.py     |  5 +----
 xpython/byteop/byteop36.py     | 12 ++++++++++++
 xpython/byteop/byteop36pypy.py |  1 +
 5 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 1fae9ba..ccbc120 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -363,11 +363,8 @@ class ByteOpBase(object):
         self.vm.push(retval)
 
     def call_function(self, argc: int, var_args, keyword_args: dict) -> Any:
-        named_args = {}
         len_kw, len_pos = divmod(argc, 256)
-        for i in range(len_kw):
-            key, val = self.vm.popn(2)
-            named_args[key] = val
+        named_args = self.pop_keywords(len_kw)
         self.merge_keywords(named_args, keyword_args)
         pos_args = self.vm.popn(len_pos)
         pos_args.extend(var_args)
@@ -375,6 +372,14 @@ class ByteOpBase(object):
         func = self.vm.pop()
         return self.call_function_with_args_resolved(func, pos_args, named_args)
 
+    def pop_keywords(self, count: int) -> dict:
+        """Pops ``count`` name, value pairs; the last pair is on top."""
+        pairs = self.vm.popn(2 * count)
+        named_args = {}
+        for i in range(count):
+            named_args[pairs[2 * i]] = pairs[2 * i + 1]
+        return named_args
+
     def merge_keywords(self, kwargs: dict, mapping):
         """Adds the keyword arguments in ``mapping`` to ``kwargs``."""
         for key in mapping.keys():
diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 38d4986..9035b67 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -928,12 +928,7 @@ class ByteOp24(ByteOpBase):
         off the stack, calls the callable object with those arguments,
         and pushes the return value returned by the callable object.
         """
-        try:
-            return self.call_function(argc, var_args=[], keyword_args={})
-        except TypeError as exc:
-            tb = self.vm.last_traceback = self.traceback_from_frame()
-            self.vm.last_exception = (TypeError, exc, tb)
-            return "exception"
+        return self.call_function(argc, var_args=[], keyword_args={})
 
     def CALL_FUNCTION_VAR(self, argc: int):
         """
diff --git a/xpython/byteop/byteop35.py b/xpython/byteop/byteop35.py
index 0aa9eb4..6fa6191 100644
--- a/xpython/byteop/byteop35.py
+++ b/xpython/byteop/byteop35.py
@@ -297,11 +297,8 @@ class ByteOp35(ByteOp34):
         return self.call_function_var(argc, self.vm.pop())
 
     def call_function_var(self, argc: int, mapping):
-        keyword_args = {}
         len_kw, len_pos = divmod(argc, 256)
-        for i in range(len_kw):
-            key, val = self.vm.popn(2)
-            keyword_args[key] = val
+        keyword_args = self.pop_keywords(len_kw)
         self.merge_keywords(keyword_args, mapping)
         var_args = self.vm.pop()
         pos_args = self.vm.popn(len_pos)
diff --git a/xpython/byteop/byteop36.py b/xpython/byteop/byteop36.py
index 24ec334..ebb4720 100644
--- a/xpython/byteop/byteop36.py
+++ b/xpython/byteop/byteop36.py
@@ -106,6 +106,18 @@ class ByteOp36(ByteOp35):
         """
         self.merge_call_mappings(oparg)
 
+    def CALL_FUNCTION(self, argc: int):
+        """
+        Calls a callable object with positional arguments.
+
+        argc is the number of positional arguments; since 3.6 it can
+        be greater than 255. The stack contains the arguments, with
+        the right-most one on top, and the callable below them.
+        """
+        pos_args = self.vm.popn(argc)
+        func = self.vm.pop()
+        return self.call_function_with_args_resolved(func, pos_args, {})
+
     def CALL_FUNCTION_KW(self, argc: int):
         """
         Calls a callable object with positional (if any) and keyword
diff --git a/xpython/byteop/byteop36pypy.py b/xpython/byteop/byteop36pypy.py
index c54a3c2..08adfb7 100644
--- a/xpython/byteop/byteop36pypy.py
+++ b/xpython/byteop/byteop36pypy.py
@@ -18,5 +18,6 @@ class ByteOp36PyPy(ByteOp36, ByteOpPyPy):
     # Python 3.6 changes the semantics of the below opcodes.
     # However, PyPy 3.6 uses the previous semantics, which we can pull
     # from older Python versions
+    CALL_FUNCTION = ByteOp24.CALL_FUNCTION
     CALL_FUNCTION_KW = ByteOp24.CALL_FUNCTION_KW
     BUILD_MAP_UNPACK_WITH_CALL = ByteOp35.BUILD_MAP_UNPACK_WITH_CALL
-- 
2.43.0


From 8497009e6bd9cebfc226f74d1ae355e8ce7b136a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:52 +0000
Subject: [PATCH 37/72] fix: classes: metaclass keywords, __orig_bases__,
 implicit class methods, Python 2 __metaclass__, zero-argument super

Class bodies of Python 3.3 and before get their namespace as an argument.
exec with only globals uses these as locals too.
---
 xpython/builtins.py        | 126 +++++++++++++++++--------------------
 xpython/byteop/byteop24.py |  33 ++++++----
 2 files changed, 78 insertions(+), 81 deletions(-)

diff --git a/xpython/builtins.py b/xpython/builtins.py
index 4785643..ff1053c 100644
--- a/xpython/builtins.py
+++ b/xpython/builtins.py
@@ -4,7 +4,7 @@ A place to implement built-in functions.
 We use the bytecode for these when doing cross-version interpreting
 """
 
-from typing import Any
+import types
 
 from xdis import IS_PYPY, PYTHON_VERSION_TRIPLE, codeType2Portable
 
@@ -43,6 +43,10 @@ def build_class(opc, func, name, *bases, **kwds):
     if not isinstance(name, str):
         raise TypeError("name is not a string")
 
+    # Bases which stand for other classes, e.g. Generic[T]. See PEP 560.
+    orig_bases = bases
+    bases = types.resolve_bases(bases)
+
     metaclass = kwds.pop("metaclass", None)
 
     if metaclass is None:
@@ -50,11 +54,8 @@ def build_class(opc, func, name, *bases, **kwds):
     if isinstance(metaclass, type):
         metaclass = calculate_metaclass(metaclass, bases)
 
-    if hasattr(metaclass, "__prepare__"):
-        prepare = metaclass.__prepare__
-        namespace = prepare(name, bases, **kwds)
-    else:
-        namespace = {}
+    prepare = getattr(metaclass, "__prepare__", None)
+    namespace = {} if prepare is None else prepare(name, bases, **kwds)
 
     python_implementation = "PyPy" if IS_PYPY else "CPython"
 
@@ -67,6 +68,14 @@ def build_class(opc, func, name, *bases, **kwds):
     else:
         class_body_code = func.func_code
 
+    # Before Python 3.4, the class body takes its namespace as an argument, and
+    # makes that its local variables using STORE_LOCALS.
+    callargs = (
+        {class_body_code.co_varnames[0]: namespace}
+        if class_body_code.co_argcount
+        else {}
+    )
+
     # Execute the body of func. This is the step that would go wrong if
     # we tried to use the built-in __build_class__, because __build_class__
     # does not call func, it magically executes its body directly, as we
@@ -77,90 +86,69 @@ def build_class(opc, func, name, *bases, **kwds):
     # between Python 3.5 running 3.4 or earlier.
     frame = func._vm.make_frame(
         code=class_body_code,
+        callargs=callargs,
         f_globals=func.func_globals,
         f_locals=namespace,
         closure=func.__closure__,
     )
 
-    # rocky: cell is the return value of a function where?
+    # The class body returns the cell of the class that its methods use, if any.
     cell = func._vm.eval_frame(frame)
 
-    # Add any class variables that may have been added in running class_body_code.
-    # See test_attribute_access.py for a simple example that needs the update below.
-    namespace.update(frame.f_locals)
+    if bases is not orig_bases:
+        namespace["__orig_bases__"] = orig_bases
 
-    # If metaclass is builtin "type", it can't deal with a xpython.pyobj.Cell object
+    # The metaclass can't deal with a xpython.pyobj.Cell object
     # but needs a builtin cell object. make_cell() can do this.
-    if "__classcell__" in namespace and metaclass == type:
-        namespace["__classcell__"] = make_cell(namespace["__classcell__"].get())
-
-    try:
-        cls = metaclass(name, bases, namespace)
-    except TypeError:
-        # For mysterious reasons the above can raise a:
-        #  __init__() takes *n* positional arguments but *n+1* were given.
-        # In particular for:
-        #     class G(Generic[T]):
-        #        pass
-        import types
-
-        cls = types.new_class(name, bases, kwds, exec_body=lambda ns: namespace)
-        pass
+    if isinstance(cell, Cell) and "__classcell__" in namespace:
+        namespace["__classcell__"] = make_cell(None)
+
+    wrap_special_methods(namespace)
+    cls = metaclass(name, bases, namespace, **kwds)
 
     if isinstance(cell, Cell):
         cell.set(cls)
     return cls
 
 
-# FIXME: change to return a true Proxy object.
-def builtin_super(self: Any, typ=None, obj=None):
+def wrap_special_methods(namespace):
     """
-    super() but first argument is filled in via interpreter
+    Does what type() does for native functions: some special methods are
+    static methods or class methods even when they are not declared as such.
     """
-    cells = self.cells
-    if hasattr(cells, "__class__"):
-        cell = cells["__class__"]
-    elif hasattr(cells, "__classcell__"):
-        cell = cells["__classcell__"]
-
-    start_class = cell.get()
-    return WrappedSuperClass(start_class, typ, obj)
-
-    return None
+    for name, wrapper in (
+        ("__new__", staticmethod),
+        ("__init_subclass__", classmethod),
+        ("__class_getitem__", classmethod),
+    ):
+        if name in namespace and isinstance(namespace[name], Function):
+            namespace[name] = wrapper(namespace[name])
 
 
-class WrappedSuperClass(object):
+def builtin_super(frame, *args):
     """
-    builtin "super" object return type. This is a
-    proxy object that delegates method calls to a parent or sibling class of ``type``.
-    See https://docs.python.org/3.7/library/functions.html#super
+    super() where, if there are no arguments, these are filled in from
+    the frame of the method that calls it.
     """
-
-    def __init__(self, start_class, typ, obj: Any):
-        if obj is not None:
-            assert isinstance(obj, typ)
-
-        self.type_given = typ is not None
-        if self.type_given:
-            start_class = typ
-        self.start_class = start_class
-        self.superclass = start_class.__mro__[1]
-        self.__orig_init__ = self.superclass.__init__
-        self.__init__ = self.init
-        self.object = obj
-        self.type = typ
-
-    def __repr__(self):
-        if self.type_given is not None and self.object is None:
-            obj_str = "NULL"
-        elif self.object is not None:
-            obj_str = f"<{self.object.__class__.__name__} object>"
-        else:
-            obj_str = repr(self.type)
-        return f"<super: <class '{self.start_class.__name__}'>, {obj_str}>"
-
-    def init(self, *args, **kwargs):
-        return self.__orig_init__(self, *args, **kwargs)
+    if args:
+        return super(*args)
+
+    code = frame.f_code
+    if not code.co_argcount:
+        raise RuntimeError("super(): no arguments")
+    name = code.co_varnames[0]
+    if frame.cells and name in frame.cells:
+        first = frame.cells[name].get()
+    else:
+        first = frame.f_locals.get(name, Cell.empty)
+    if first is Cell.empty:
+        raise RuntimeError("super(): arg[0] deleted")
+    if "__class__" not in code.co_freevars:
+        raise RuntimeError("super(): __class__ cell not found")
+    cell = frame.cells["__class__"]
+    if cell.is_empty():
+        raise RuntimeError("super(): empty __class__ cell")
+    return super(cell.get(), first)
 
 
 # From Pypy 3.6
diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 9035b67..a04998c 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -17,6 +17,7 @@ from xpython.byteop.byteop import (
     fmt_ternary_op,
     fmt_unary_op,
 )
+from xpython.builtins import wrap_special_methods
 from xpython.pyobj import Function, Traceback
 from xpython.vm import PyVM
 from xpython.vmtrace import PyVMEVENT_RETURN, PyVMEVENT_YIELD
@@ -353,11 +354,19 @@ class ByteOp24(ByteOpBase):
         """
         stmt, globs, locs = self.vm.popn(3)
 
-        # if `locals` or `globals` is None, use the frame equivalent.
+        # A tuple is the form "exec (stmt, globals, locals)".
+        if isinstance(stmt, tuple) and globs is None and locs is None:
+            if 2 <= len(stmt) <= 3:
+                stmt, globs, locs = (stmt + (None,))[:3]
+
+        # If `globals` is None, use the frame equivalents. If only `locals` is
+        # None, `globals` stands for both.
         if globs is None:
             globs = self.vm.frame.f_globals
-        if locs is None:
-            locs = self.vm.frame.f_locals
+            if locs is None:
+                locs = self.vm.frame.f_locals
+        elif locs is None:
+            locs = globs
         exec(stmt, globs, locs)
 
     def POP_BLOCK(self):
@@ -407,15 +416,15 @@ class ByteOp24(ByteOpBase):
         tuple of the names of the base classes, and TOS2 the class name.
         """
         name, bases, methods = self.vm.popn(3)
-        # Note: type() wants to only create new-style classes, while
-        # bases might include only old-style classes. This will
-        # trigger this error: TypeError: a new-style class can't have
-        # only classic bases So what we'll do is throw in "object" so
-        # there is at least one new-style class.
-        try:
-            klass = type(name, bases, methods)
-        except TypeError:
-            klass = type(name, tuple([object] + list(bases)), methods)
+        # Note: there are only new-style classes.
+        if "__metaclass__" in methods:
+            metaclass = methods["__metaclass__"]
+        elif bases:
+            metaclass = type(bases[0])
+        else:
+            metaclass = self.vm.frame.f_globals.get("__metaclass__", type)
+        wrap_special_methods(methods)
+        klass = metaclass(name, bases, methods)
         self.vm.push(klass)
 
     def STORE_NAME(self, name):
-- 
2.43.0


From 57ff55f3cb1fa799dd6e7375ce781182b26198fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:52 +0000
Subject: [PATCH 38/72] fix: eval/exec/locals/vars/dir use the calling frame's
 namespaces; methods check their first argument

run_code(toplevel=False) lets exceptions through without printing them, and
gives the value of the frame it ran.
---
 xpython/byteop/byteop.py | 166 ++++++++++++++-------------------------
 xpython/pyobj.py         |  52 ++++++++++--
 xpython/vm.py            |  18 ++---
 3 files changed, 112 insertions(+), 124 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index ccbc120..ce25ad6 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -14,7 +14,7 @@ from typing import Any, Callable
 from xdis.version_info import PYTHON_VERSION_TRIPLE, version_tuple_to_str
 
 from xpython.builtins import build_class, builtin_super
-from xpython.pyobj import Function, copy_module
+from xpython.pyobj import Function, Method, copy_module
 from xpython.vm import PyVM
 
 
@@ -177,33 +177,23 @@ class ByteOpBase(object):
 
     def call_function_with_args_resolved(self, func, pos_args, named_args):
         frame = self.vm.frame
-        if hasattr(func, "im_func"):
-            # Methods get self as an implicit first parameter.
-            if func.im_self is not None:
-                pos_args.insert(0, func.im_self)
-            # The first parameter must be the correct type.
-            if not isinstance(pos_args[0], func.im_class):
-                raise TypeError(
-                    "unbound method %s() must be called with %s instance "
-                    "as first argument (got %s instance instead)"
-                    % (
-                        func.im_func.func_name,
-                        func.im_class.__name__,
-                        type(pos_args[0]).__name__,
-                    )
-                )
+        if isinstance(func, Method):
+            pos_args = func.bind(pos_args)
             func = func.im_func
 
         # FIXME: put this in a separate routine.
         if inspect.isbuiltin(func):
             log.debug(f"handling built-in function {func.__name__}")
-            if func == globals:
+            if func == globals and not pos_args and not named_args:
                 # Use the frame's globals(), not the interpreter's
                 self.vm.push(frame.f_globals)
                 return
-            elif func == locals:
+            elif func in (locals, vars) and not pos_args and not named_args:
                 # Use the frame's locals(), not the interpreter's
-                self.vm.push(frame.f_locals)
+                self.vm.push(frame.current_locals())
+                return
+            elif func == dir and not pos_args and not named_args:
+                self.vm.push(sorted(frame.current_locals()))
                 return
 
             if func == compile:
@@ -216,97 +206,25 @@ class ByteOpBase(object):
             # In Python 3.0 or greater, "exec()" is a builtin.  In
             # Python 2.7 it was an opcode EXEC_STMT and is not a
             # built-in function.
-            #
-            # FIXME: a better test would be nice. There can be
-            # other builtin "exec"s. Tk has a built-in "eval". See 3.6.10
-            # test_tcl.py.
-            # If we drop the requirement of supporting 2.7 we can do the simpler
-            # and more reliable:
-            #   func == exec
-            elif func.__name__ == "exec":
-                if not 1 <= len(pos_args) <= 3:
-                    raise self.vm.PyVMError(
-                        "exec() builtin should have 1..3 positional arguments; got %d"
-                        % (len(pos_args))
-                    )
-                n = len(pos_args)
-                assert 1 <= n <= 3
-
-                # Note that in contrast to `eval()` handled below, if
-                # the `locals` parameter is not provided, the
-                # `globals` parameter value (whether provided or
-                # default value) is used for the `locals`
-                # parameter. So we shouldn't use the frame's `locals`.
-                if len(pos_args) == 1:
-                    pos_args.append(self.vm.frame.f_globals)
+            elif func in (exec, eval) and 1 <= len(pos_args) <= 3 and not named_args:
+                # (For a wrong number of arguments, the builtin raises the TypeError)
+                self.set_eval_namespaces(pos_args)
 
                 if self.version_info[:2] == PYTHON_VERSION_TRIPLE[:2]:
                     # Use the compile() and interprete the bytecode using our own
                     # interpreter not CPython's.
                     source = pos_args[0]
-                    if isinstance(source, str) or isinstance(source, bytes):
-                        try:
-                            pos_args[0] = compile(
-                                source, "<string>", mode="exec", dont_inherit=True
-                            )
-                        except (TypeError, SyntaxError, ValueError):
-                            raise
-                    self.vm.push(self.vm.run_code(*pos_args, toplevel=False))
-                    return
-                else:
-                    if not self.cross_bytecode_exec_warning_shown:
-                        log.warning(
-                            "Running built-in `exec()`, because bytecode compile() is not available "
-                            "and we are cross-version. "
-                            "Interpreting version %s from version %s."
-                            % (
-                                version_tuple_to_str(self.version_info, end=2),
-                                version_tuple_to_str(PYTHON_VERSION_TRIPLE, end=2),
-                            )
+                    if not inspect.iscode(source):
+                        if func == eval and isinstance(source, str):
+                            source = source.lstrip(" \t")
+                        pos_args[0] = compile(
+                            source, "<string>", mode=func.__name__, dont_inherit=True
                         )
-                        self.cross_bytecode_exec_warning_shown = True
-
-            elif func == eval:
-                if not 1 <= len(pos_args) <= 3:
-                    raise self.vm.PyVMError(
-                        "eval() builtin should have 1..3 positional arguments; got %d"
-                        % (len(pos_args))
-                    )
-                assert 1 <= len(pos_args) <= 3
-                # Use the frame's globals(), not the interpreter's
-                n = len(pos_args)
-                if n < 2:
-                    pos_args.append(self.vm.frame.f_globals)
-                # Likewise for locals()
-                if n < 3:
-                    pos_args.append(self.vm.frame.f_locals)
-                assert len(pos_args) == 3
-
-                if self.version_info[:2] == PYTHON_VERSION_TRIPLE[:2]:
-                    # Use the compile() and interprete the bytecode using our own
-                    # interpreter not CPython's.
-                    source = pos_args[0]
-                    if isinstance(source, str) or isinstance(source, unicode):
-                        try:
-                            pos_args[0] = compile(
-                                source, "<string>", mode="eval", dont_inherit=True
-                            )
-                        except (TypeError, SyntaxError, ValueError):
-                            raise
-                    self.vm.push(self.vm.run_code(*pos_args, toplevel=False))
+                    value = self.vm.run_code(*pos_args, toplevel=False)
+                    self.vm.push(value if func == eval else None)
                     return
                 else:
-                    if not self.cross_bytecode_eval_warning_shown:
-                        log.warning(
-                            "Running built-in `eval()`, because bytecode compile() is not available "
-                            "and we are cross-version. "
-                            "Interpreting version %s from version %s."
-                            % (
-                                version_tuple_to_str(self.version_info, end=2),
-                                version_tuple_to_str(PYTHON_VERSION_TRIPLE, end=2),
-                            )
-                        )
-                        self.cross_bytecode_eval_warning_shown = True
+                    self.warn_cross_version_eval(func)
 
             elif func == __build_class__:
                 assert len(pos_args) > 0, (
@@ -334,12 +252,14 @@ class ByteOpBase(object):
                     if isinstance(init_fn, Function) and init_fn in self.vm.fn2native:
                         pos_args[0] = self.vm.fn2native[init_fn]
         elif func is type and len(pos_args) == 3:
-            # Set __module__
-            assert not named_args
+            # Set __module__: for type() the caller would be us.
             namespace = pos_args[2]
-            namespace["__module__"] = namespace.get(
-                "__name__", self.vm.frame.f_globals["__name__"]
-            )
+            if (
+                isinstance(namespace, dict)
+                and "__module__" not in namespace
+                and "__name__" in frame.f_globals
+            ):
+                pos_args[2] = {**namespace, "__module__": frame.f_globals["__name__"]}
 
         if (
             inspect.isfunction(func)
@@ -355,13 +275,43 @@ class ByteOpBase(object):
         ):
             log.debug(f"calling native function {func.__name__}")
         elif inspect.isclass(func):
-            if func.__name__ == "super":
+            if func is super:
                 pos_args = [self.vm.frame] + pos_args
                 func = builtin_super
 
         retval = func(*pos_args, **named_args)
         self.vm.push(retval)
 
+    def set_eval_namespaces(self, pos_args: list):
+        """Fills in the namespaces exec() and eval() use when
+        these are not given: those of the frame, not the interpreter's.
+        """
+        frame = self.vm.frame
+        pos_args.extend([None] * (3 - len(pos_args)))
+        if pos_args[1] is None:
+            pos_args[1] = frame.f_globals
+            if pos_args[2] is None:
+                pos_args[2] = frame.current_locals()
+        elif pos_args[2] is None:
+            pos_args[2] = pos_args[1]
+        if "__builtins__" not in pos_args[1]:
+            pos_args[1]["__builtins__"] = frame.f_builtins
+
+    def warn_cross_version_eval(self, func):
+        shown = f"cross_bytecode_{func.__name__}_warning_shown"
+        if not getattr(self, shown):
+            log.warning(
+                "Running built-in `%s()`, because bytecode compile() is not available "
+                "and we are cross-version. "
+                "Interpreting version %s from version %s."
+                % (
+                    func.__name__,
+                    version_tuple_to_str(self.version_info, end=2),
+                    version_tuple_to_str(PYTHON_VERSION_TRIPLE, end=2),
+                )
+            )
+            setattr(self, shown, True)
+
     def call_function(self, argc: int, var_args, keyword_args: dict) -> Any:
         len_kw, len_pos = divmod(argc, 256)
         named_args = self.pop_keywords(len_kw)
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 0bbff13..c278aa4 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -7,7 +7,7 @@ import types
 from copy import copy
 from sys import stderr
 
-from xdis import CO_GENERATOR, CO_ITERABLE_COROUTINE, iscode
+from xdis import CO_GENERATOR, CO_ITERABLE_COROUTINE, CO_OPTIMIZED, iscode
 from xdis.cross_dis import findlinestarts
 from xdis.version_info import PYTHON_VERSION_TRIPLE
 from xpython.stdlib.types34 import _AsyncGeneratorWrapper
@@ -232,7 +232,7 @@ class Function:
             return str(self._func)
         return f"<Function at 0x{id(self):08x}>"
 
-    def __get__(self, instance, owner):
+    def __get__(self, instance, owner=None):
         if instance is not None:
             return Method(instance, owner, self)
         version = self.version if hasattr(self, "version") else PYTHON_VERSION_TRIPLE
@@ -296,7 +296,7 @@ class Method(object):
     """Create a bound instance method object."""
 
     def __init__(self, obj, _class, func) -> None:
-        self.__doc__ = obj.__doc__
+        self.__doc__ = func.__doc__
         self.im_self = obj
         self.im_class = _class
         self.im_func = func
@@ -319,10 +319,25 @@ class Method(object):
             return f"<Unbound Method {name}>"
 
     def __call__(self, *args, **kwargs):
+        return self.im_func(*self.bind(args), **kwargs)
+
+    def bind(self, args) -> list:
+        """The positional arguments the function gets in a call of the method."""
         if self.im_self is not None:
-            return self.im_func(self.im_self, *args, **kwargs)
-        else:
-            return self.im_func(*args, **kwargs)
+            # Methods get self as an implicit first parameter.
+            return [self.im_self, *args]
+        # The first parameter must be the correct type.
+        if not args or not isinstance(args[0], self.im_class):
+            raise TypeError(
+                "unbound method %s() must be called with %s instance "
+                "as first argument (got %s instead)"
+                % (
+                    self.im_func.func_name,
+                    self.im_class.__name__,
+                    type(args[0]).__name__ + " instance" if args else "nothing",
+                )
+            )
+        return list(args)
 
 
 class Cell:
@@ -410,7 +425,8 @@ class Frame(object):
         self.f_code = f_code
         self.f_globals = f_globals
         self.f_locals = f_locals
-        self.f_locals = f_locals
+        # What the program sees of a function's f_locals
+        self.f_locals_copy = {}
         self.f_trace = None
         self.localsplusnames = localsplusnames
         self.stack = []
@@ -497,6 +513,28 @@ class Frame(object):
             self.f_lasti,
         )
 
+    def current_locals(self) -> dict:
+        """What locals() gives in this frame.
+
+        In a function this is a dictionary of its own, which is
+        brought up to date with the variables, including the captured ones.
+        """
+        if not self.f_code.co_flags & CO_OPTIMIZED:
+            return self.f_locals
+        for name in self.localsplusnames:
+            if self.cells and name in self.cells:
+                cell = self.cells[name]
+                is_bound = not cell.is_empty()
+                value = cell.get()
+            else:
+                is_bound = name in self.f_locals
+                value = self.f_locals.get(name)
+            if is_bound:
+                self.f_locals_copy[name] = value
+            else:
+                self.f_locals_copy.pop(name, None)
+        return self.f_locals_copy
+
     def line_number(self) -> int:
         """Get the current line number the frame is executing."""
         # We don't keep f_lineno up to date, so calculate it based on the
diff --git a/xpython/vm.py b/xpython/vm.py
index a041dab..f53fba3 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -353,7 +353,7 @@ class PyVM(object):
 
         # Implement NEWLOCALS flag. See Objects/frameobject.c in CPython.
         if code.co_flags & CO_NEWLOCALS:
-            f_locals = {"__locals__": {}}
+            f_locals = {}
 
         f_locals.update(callargs)
 
@@ -440,6 +440,9 @@ class PyVM(object):
         This matters when this is called to interpret eval().
         """
         frame = self.make_frame(code, f_globals=f_globals, f_locals=f_locals)
+        if not toplevel:
+            return self.eval_frame(frame)
+
         try:
             self.eval_frame(frame)
         except PyVMUncaughtException:
@@ -464,15 +467,12 @@ class PyVM(object):
             raise
 
         # Frame ran to normal completion... check some invariants
-        if toplevel:
-            if self.frames:  # pragma: no cover
-                raise PyVMError("Frames left over!")
-            if self.frame and self.frame.stack:  # pragma: no cover
-                raise PyVMError(f"Data left on stack! {self.frame.stack!r}")
+        if self.frames:  # pragma: no cover
+            raise PyVMError("Frames left over!")
+        if self.frame and self.frame.stack:  # pragma: no cover
+            raise PyVMError(f"Data left on stack! {self.frame.stack!r}")
 
-            return 0
-        else:
-            return self.return_value
+        return 0
 
     def unwind_block(self, block):
         """
-- 
2.43.0


From 75e4a1d7f38c7b7ffb44dfb4cbb506901fd28e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:37 +0000
Subject: [PATCH 39/72] fix: 3.11+: cell variables come before free variables
 in the local variable numbering

---
 xpython/vm.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index f53fba3..950b5d4 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -361,11 +361,11 @@ class PyVM(object):
         varnames = code.co_varnames
         cells = code.co_cellvars
         freevars = code.co_freevars
-        localsplusnames = (varnames or tuple()) + tuple(
-            name for name in (freevars or tuple()) if name not in varnames
-            ) + tuple(
-            name for name in (cells or tuple()) if name not in varnames
-            )
+        localsplusnames = (
+            (varnames or tuple())
+            + tuple(name for name in (cells or tuple()) if name not in varnames)
+            + tuple(freevars or tuple())
+        )
 
         frame = Frame(
             f_code=code,
@@ -605,7 +605,10 @@ class PyVM(object):
                         int_arg += int_arg
                     arg = int_arg
                 elif byte_code in self.opc.LOCAL_OPS:
-                    arg = f_code.co_varnames[int_arg]
+                    if self.version >= (3, 11):
+                        arg = f.localsplusnames[int_arg]
+                    else:
+                        arg = f_code.co_varnames[int_arg]
                     if isinstance(arg, UnicodeForPython3):
                         arg = str(arg)
                 else:
-- 
2.43.0


From ee19c99f96c2b567c6620077d8255bb70565e5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:03 +0000
Subject: [PATCH 40/72] fix: 3.12: implement super() with attribute lookup
 (LOAD_SUPER_ATTR)

---
 xpython/byteop/byteop312.py | 26 +++++++++++++++++++++-----
 xpython/vm.py               |  5 +++++
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/xpython/byteop/byteop312.py b/xpython/byteop/byteop312.py
index 2a7ae34..5ede7cf 100644
--- a/xpython/byteop/byteop312.py
+++ b/xpython/byteop/byteop312.py
@@ -153,12 +153,28 @@ class ByteOp312(ByteOp311):
         if self.vm.pop() is None:
             self.vm.jump(target)
 
-    def LOAD_SUPER_ATTR(self):
-        """
-        To be continued...
+    def LOAD_SUPER_ATTR(self, name, push_null=False, two_args=False):
+        """Implements super(), both in its zero-argument and in its
+        two-argument form, followed by an attribute lookup. It pops
+        the global super, the class and the first argument of the method.
+
+        If two_args is not set, the program has called super() without
+        arguments. If push_null is set, a NULL is pushed before the
+        attribute, as LOAD_ATTR does.
+
+        Note: name = co_names[namei >> 2], push_null and two_args are set in
+        parse_byte_and_args()
         """
-        # FIXME
-        raise self.vm.PyVMError("LOAD_SUPER_ATTR not implemented")
+        super_fn, cls, first_arg = self.vm.popn(3)
+        if two_args or super_fn is super:
+            obj = super_fn(cls, first_arg)
+        else:
+            obj = super_fn()
+        value = getattr(obj, name)
+
+        if push_null:
+            self.vm.push(NULL)
+        self.vm.push(value)
 
     def LOAD_FAST_AND_CLEAR(self, name):
         """Pushes a reference to the local co_varnames[var_num] onto
diff --git a/xpython/vm.py b/xpython/vm.py
index 950b5d4..c478d31 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -575,6 +575,11 @@ class PyVM(object):
                         namei = f_code.co_names[int_arg >> 1]
                         push_NULL = bool(int_arg & 1)
                         arguments = [namei, push_NULL]
+                    elif bytecode_name == "LOAD_SUPER_ATTR":
+                        namei = f_code.co_names[int_arg >> 2]
+                        push_NULL = bool(int_arg & 1)
+                        two_args = bool(int_arg & 2)
+                        arguments = [namei, push_NULL, two_args]
                     else:
                         arg = f_code.co_names[int_arg]
                         if isinstance(arg, UnicodeForPython3):
-- 
2.43.0


From ca5ff04dd261679c4ea1a8c528bacebfa08a6196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:13 +0000
Subject: [PATCH 41/72] fix: keep the handled exception per frame, apart from
 the one being raised

A bare raise re-raised the exception raised last instead of the one being
handled, and leaving a handler made the finished exception current again.
---
 xpython/byteop/byteop24.py |  8 +-------
 xpython/byteop/byteop35.py | 11 +++--------
 xpython/pyobj.py           |  4 ++++
 xpython/vm.py              | 23 ++++++++++++++++++-----
 4 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index a04998c..f3c96d8 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -141,7 +141,7 @@ class ByteOp24(ByteOpBase):
         """
         Python 2.4ish style sys.exc_info() function.
         """
-        return self.vm.last_exception
+        return self.vm.exc_info()
 
     def fmt_unary_op(vm: PyVM, _=None):
         """
@@ -399,12 +399,6 @@ class ByteOp24(ByteOpBase):
             val = self.vm.pop()
             tb = self.vm.pop()
             self.vm.last_exception = (exctype, val, tb)
-            if self.version_info[:2] >= (3, 5):
-                block = self.vm.top_block()
-                while len(self.vm.frame.stack) > block.level:
-                    self.vm.pop()
-                self.vm.push(tb, val, exctype)
-
             why = "reraise"
         else:  # pragma: no cover
             raise self.vm.PyVMError("Confused END_FINALLY")
diff --git a/xpython/byteop/byteop35.py b/xpython/byteop/byteop35.py
index 6fa6191..1f45080 100644
--- a/xpython/byteop/byteop35.py
+++ b/xpython/byteop/byteop35.py
@@ -174,6 +174,7 @@ class ByteOp35(ByteOp34):
             fourth, third, second = self.vm.popn(3)
             tp, exc, tb = self.vm.popn(3)
             exit_method = self.vm.pop()
+            self.vm.push(tp, exc, tb)
             self.vm.push(None)
             self.vm.push(fourth, third, second)
             block = self.vm.pop_block()
@@ -194,15 +195,9 @@ class ByteOp35(ByteOp34):
         """
         exit_result = self.vm.pop()
         exception = self.vm.pop()
-        if (
-            exit_result
-            and type(exception) is type
-            and issubclass(exception, BaseException)
-        ):
-            # Pop the exception and replace with "silenced".
-            self.vm.popn(1)
+        if exception is not None and exit_result:
+            # END_FINALLY drops the exception.
             self.vm.push("silenced")
-            return "silenced"
 
     # All of the following opcodes expect arguments. An argument is
     # two bytes, with the more significant byte last.
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index c278aa4..0b95296 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -428,6 +428,10 @@ class Frame(object):
         # What the program sees of a function's f_locals
         self.f_locals_copy = {}
         self.f_trace = None
+
+        # The exception this frame is handling, as (type, value, traceback).
+        self.exc_info = None
+
         self.localsplusnames = localsplusnames
         self.stack = []
 
diff --git a/xpython/vm.py b/xpython/vm.py
index c478d31..b12d2e8 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -394,6 +394,16 @@ class PyVM(object):
         else:
             self.frame = None
 
+    def exc_info(self) -> tuple:
+        """
+        The exception being handled: what the interpreted program
+        gets from sys.exc_info(), and what a bare "raise" re-raises.
+        """
+        for frame in reversed(self.frames):
+            if frame.exc_info is not None:
+                return frame.exc_info
+        return (None, None, None)
+
     def print_frames(self):
         """Print the call stack for debugging. Note that the
         format exactly the same as in traceback.print_tb()
@@ -487,11 +497,10 @@ class PyVM(object):
         while len(self.frame.stack) > block.level + offset:
             self.pop()
 
-        # Set self.last_exception which will filter its way to
-        # sys.last_exception. 3.11+ has a already set this.
+        # The exception handled before this one, if any, is handled again.
         if block.type == "except-handler" and self.version < (3, 11):
             tb, value, exctype = self.popn(3)
-            self.last_exception = exctype, value, tb
+            self.frame.exc_info = None if exctype is None else (exctype, value, tb)
 
     def parse_byte_and_args(self, byte_code, replay=False):
         """Parse 1 - 3 bytes of bytecode into
@@ -763,6 +772,8 @@ class PyVM(object):
             ):
                 if why == "exception":
                     exctype, value, tb = self.last_exception
+                    if block.type != "finally":
+                        self.frame.exc_info = self.last_exception
                     self.push(tb, value, exctype)
                 else:
                     if why in ("return", "continue"):
@@ -776,9 +787,11 @@ class PyVM(object):
         else:
             if why == "exception" and block.type in ["setup-except", "finally"]:
                 self.push_block("except-handler")
+                # Save the exception handled so far, for when this handler ends.
+                old_type, old_value, old_tb = self.frame.exc_info or (None, None, None)
+                self.push(old_tb, old_value, old_type)
+                self.frame.exc_info = self.last_exception
                 exc_type, exc_value, exc_traceback = self.last_exception
-                # FIXME: start here - is this right for 2.7?
-                self.push(exc_traceback, exc_value, exc_type)
                 why = None
 
                 # Make the raw exception data available to the
-- 
2.43.0


From 9f09d73ba4f1d7285bb4b66371a850ff35c1069c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:51 +0000
Subject: [PATCH 42/72] fix: 3.11+: go through the exception table, and
 implement the with and reraise instructions

---
 xpython/byteop/byteop311.py | 70 ++++++++++++++++++++++++++++++++-----
 xpython/vm.py               | 51 +++++++++------------------
 xpython/vmtrace.py          |  8 ++---
 3 files changed, 81 insertions(+), 48 deletions(-)

diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index 0c93005..d439657 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -341,13 +341,39 @@ class ByteOp311(ByteOp310):
         TOS1 is an exception matching TOS. Pops TOS and pushes the
         boolean result of the test.
 
-        TOS is usually the exception in an `except` cluase of a `try` block,
-        while TOS1 is usually the exception that got raised.
-
-        For "exception matching" use isinstance(TOS1 TOS.__class__) so superclasses
-        """
-        _, tos = self.vm.popn(2)
-        self.vm.push(isinstance(tos, tos.__class__))
+        TOS is usually the exception class in an `except` clause of a
+        `try` block, or a tuple of them, while TOS1 is the exception
+        that got raised. It stays on the stack.
+        """
+        classes = self.vm.pop()
+        if not isinstance(classes, tuple):
+            classes = (classes,)
+        for cls in classes:
+            if not (isinstance(cls, type) and issubclass(cls, BaseException)):
+                raise TypeError(
+                    "catching classes that do not inherit from BaseException "
+                    "is not allowed"
+                )
+        self.vm.push(issubclass(type(self.vm.top), classes))
+
+    def BEFORE_WITH(self):
+        """Performs several operations before a with block starts. First, it
+        loads __exit__() from the context manager and pushes it onto
+        the stack for later use by WITH_EXCEPT_START. Then,
+        __enter__() is called. Finally, the result of calling the
+        __enter__() method is pushed onto the stack.
+        """
+        context_manager = self.vm.pop()
+        try:
+            enter_method = context_manager.__enter__
+            exit_method = context_manager.__exit__
+        except AttributeError:
+            raise TypeError(
+                f"'{type(context_manager).__name__}' object does not support the "
+                "context manager protocol"
+            )
+        self.vm.push(exit_method)
+        self.vm.push(enter_method())
 
     def JUMP_BACKWARD(self, offset: int):
         """
@@ -430,10 +456,38 @@ class ByteOp311(ByteOp310):
         to the top of the stack. Pushes the value originally popped
         back to the stack. Used in exception handlers.
         """
+        frame = self.vm.frame
         val = self.vm.pop()
-        self.vm.push(self.vm.last_exception[1])
+        self.vm.push(frame.exc_info[1] if frame.exc_info else None)
+        frame.exc_info = type(val), val, val.__traceback__
         self.vm.push(val)
 
+    def POP_EXCEPT(self):
+        """Pops a value from the stack, which is used to restore the exception state."""
+        val = self.vm.pop()
+        self.vm.frame.exc_info = (
+            None if val is None else (type(val), val, val.__traceback__)
+        )
+
+    def RERAISE(self, oparg: int) -> str:
+        """Re-raises the exception currently on top of the stack. If oparg is
+        non-zero, the value oparg places below it is the offset of the
+        instruction that raised it.
+        """
+        val = self.vm.pop()
+        self.vm.last_exception = type(val), val, val.__traceback__
+        return "reraise"
+
+    def WITH_EXCEPT_START(self):
+        """Calls the function in position 4 on the stack with arguments
+        (type, val, tb) representing the exception at the top of the
+        stack. Used to implement the call
+        context_manager.__exit__(*exc_info()) when an exception has
+        occurred in a with statement.
+        """
+        val = self.vm.top
+        exit_method = self.vm.peek(4)
+        self.vm.push(exit_method(type(val), val, val.__traceback__))
 
     def RESUME(self, where: int):
         """
diff --git a/xpython/vm.py b/xpython/vm.py
index b12d2e8..a522ba0 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -190,25 +190,24 @@ class PyVM(object):
         """In Python 3.11 exception handling blocks are handled off
         of a code co_exceptiontable.
 
-        Here, we find the exception block associated with a code offset,
-        determined by the frame's f_lasti, push the exception block,
-        and note we are in exception processing
-
+        Here, we find the handler associated with a code offset,
+        determined by the frame's f_lasti. If there is one, we cut the
+        value stack back to its depth, push the exception, go to the
+        handler, and return None. Otherwise we return "exception".
         """
         frame = self.frame
         lasti = frame.f_lasti
         encoded_exception_table = frame.f_code.co_exceptiontable
         exception_entries = parse_exception_table(encoded_exception_table)
         for exception_entry in exception_entries:
-            if exception_entry.start <= lasti <= exception_entry.end:
-                self.push_block(
-                    "setup-except311",
-                    exception_entry.target,
-                    exception_entry.depth,
-                )
-                self.in_exception_processing = True
-                break
-        return
+            if exception_entry.start <= lasti < exception_entry.end:
+                del frame.stack[exception_entry.depth :]
+                if exception_entry.lasti:
+                    self.push(lasti)
+                self.push(self.last_exception[1])
+                self.jump(exception_entry.target)
+                return None
+        return "exception"
 
     ##############################################
     # Frame operations. First the frame stack....
@@ -752,9 +751,7 @@ class PyVM(object):
             why = None
             return why
 
-        if not (
-            block.type in ("except-handler", "setup-except311") and why == "silenced"
-        ):
+        if not (block.type == "except-handler" and why == "silenced"):
             self.pop_block()
             self.unwind_block(block)
 
@@ -804,20 +801,6 @@ class PyVM(object):
                 self.push(exc_traceback, exc_value, exc_type)
                 return why
 
-            if why == "exception" and block.type == "setup-except311":
-                # FIXME: Is this right?
-                self.push(self.last_exception)
-                self.push_block("except-handler")
-                why = None
-
-                # Make the raw exception data available to the
-                # handler, so a program can emulate the Python main
-                # loop.
-
-                # PyErr_NormalizeException goes here
-                self.jump(block.handler)
-                return why
-
             elif block.type == "finally":
                 if why in ("return", "continue"):
                     self.push(self.return_value)
@@ -881,9 +864,6 @@ class PyVM(object):
                 # Deal with exceptions encountered while executing the op.
                 # TODO: ceval calls PyTraceBack_Here, not sure what that does.
 
-                if self.version >= (3, 11):
-                    self.exception_handling_311()
-
                 if not self.in_exception_processing:
                     # FIXME: DRY code
                     if self.last_exception[0] != SystemExit and log.isEnabledFor(
@@ -910,8 +890,9 @@ class PyVM(object):
 
             elif why == "reraise":
                 why = "exception"
-                if self.version >= (3, 11):
-                    self.exception_handling_311()
+
+            if why == "exception" and self.version >= (3, 11):
+                why = self.exception_handling_311()
 
             if why != "yield":
                 while why and frame.block_stack:
diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index 2441842..50922c2 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -289,17 +289,15 @@ class PyVMTraced(PyVM):
                 # Deal with exceptions encountered while executing the op.
                 # TODO: ceval calls PyTraceBack_Here, not sure what that does.
 
-                if self.version >= (3, 11):
-                    self.exception_handling_311()
-
                 if not self.in_exception_processing:
                     self.last_traceback = traceback_from_frame(self.frame)
                     self.in_exception_processing = True
 
             elif why == "reraise":
                 why = "exception"
-                if self.version >= (3, 11):
-                    self.exception_handling_311()
+
+            if why == "exception" and self.version >= (3, 11):
+                why = self.exception_handling_311()
 
 
             if why != "yield":
-- 
2.43.0


From 862db1c885c9ecff2eaa146710dc389b542cd84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:51 +0000
Subject: [PATCH 43/72] fix: raise: re-raise the handled exception, and
 normalise the operands of all forms

---
 xpython/byteop/byteop.py   | 46 ++++++++++++++++----------
 xpython/byteop/byteop24.py | 66 ++++++++++++++++++++++----------------
 xpython/byteop/byteop32.py | 10 ++----
 3 files changed, 70 insertions(+), 52 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index ce25ad6..e8b0db0 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -388,38 +388,50 @@ class ByteOpBase(object):
             self.vm.fn2native[native_func] = func
         return func
 
-    def do_raise(self, exc, cause):
-        if exc is None:  # reraise
-            exc_type, val, _ = self.vm.last_exception
-            if exc_type is None:
-                return "exception"  # error
-            else:
-                return "reraise"
+    def reraise(self):
+        """raise, without operands"""
+        exc_info = self.vm.exc_info()
+        if exc_info[0] is None:
+            if self.version_info[:2] < (3, 0):
+                raise TypeError(
+                    "exceptions must be old-style classes or derived from "
+                    "BaseException, not NoneType"
+                )
+            raise RuntimeError("No active exception to reraise")
+        self.vm.last_exception = exc_info
+        return "reraise"
 
-        elif type(exc) is type:
+    def do_raise(self, exc, *cause):
+        """raise exc, and raise exc from cause"""
+        if isinstance(exc, type) and issubclass(exc, BaseException):
             # As in `raise ValueError`
-            exc_type = exc
             val = exc()  # Make an instance.
+            if not isinstance(val, BaseException):
+                raise TypeError(
+                    f"calling {exc!r} should have returned an instance of "
+                    f"BaseException, not {type(val)!r}"
+                )
         elif isinstance(exc, BaseException):
             # As in `raise ValueError('foo')`
-            exc_type = type(exc)
             val = exc
         else:
-            return "exception"  # error
+            raise TypeError("exceptions must derive from BaseException")
 
         # If you reach this point, you're guaranteed that
-        # val is a valid exception instance and exc_type is its class.
+        # val is a valid exception instance.
         # Now do a similar thing for the cause, if present.
         if cause:
-            if type(cause) is type:
+            (cause,) = cause
+            if isinstance(cause, type) and issubclass(cause, BaseException):
                 cause = cause()
-            elif not isinstance(cause, BaseException):
-                return "exception"  # error
+            elif not isinstance(cause, BaseException) and (
+                cause is not None or self.version_info[:2] < (3, 3)
+            ):
+                raise TypeError("exception causes must derive from BaseException")
 
             val.__cause__ = cause
 
-        self.vm.last_exception = exc_type, val, val.__traceback__
-        return "exception"
+        raise val
 
     def inplace_operator(self, op):
         x, y = self.vm.popn(2)
diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index f3c96d8..82dada2 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -7,6 +7,7 @@ Note: this is subclassed. Later versions use operations from here.
 import logging
 import operator
 import sys
+import types
 from collections import namedtuple
 from copy import copy
 from typing import Any, Optional
@@ -878,39 +879,48 @@ class ByteOp24(ByteOpBase):
         """
         # NOTE: the dis docs quoted above are completely wrong about the order of the
         # operands on the stack!
-        tb = None
-        exctype = None
         if argc == 0:
-            exctype, val, tb = self.vm.last_exception
-        elif argc == 1:
-            exctype = self.vm.pop()
-            val = AssertionError()
-        elif argc == 2:
-            val = self.vm.pop()
-            # Investigate: right now we see this *only* in 2.6.
-            # Can it happen in other bytecode versions?
-            if self.version_info[:2] == (2, 6):
-                val = AssertionError(val)
-            exctype = self.vm.pop()
-        elif argc == 3:
-            tb = self.vm.pop()
-            val = self.vm.pop()
-            # See comment above
-            if self.version_info[:2] == (2, 6):
-                val = AssertionError(val)
-            exctype = self.vm.pop()
-
-        # There are a number of forms of "raise", normalize them somewhat.
-        if isinstance(exctype, BaseException):
+            return self.reraise()
+        operands = self.vm.popn(argc)
+        exctype, val, tb = operands + [None] * (3 - argc)
+
+        if tb is not None and not isinstance(tb, (Traceback, types.TracebackType)):
+            raise TypeError("raise: arg 3 must be a traceback or None")
+
+        # The first item of a tuple stands for the tuple.
+        while isinstance(exctype, tuple) and exctype:
+            exctype = exctype[0]
+
+        # There are a number of forms of "raise", normalize them.
+        if isinstance(exctype, type) and issubclass(exctype, BaseException):
+            if not isinstance(val, exctype):
+                if val is None:
+                    val = exctype()
+                elif isinstance(val, tuple):
+                    val = exctype(*val)
+                else:
+                    val = exctype(val)
+                if not isinstance(val, BaseException):
+                    raise TypeError(
+                        f"calling {exctype!r} should have returned an instance of "
+                        f"BaseException, not {type(val)!r}"
+                    )
+            exctype = type(val)
+        elif isinstance(exctype, BaseException):
+            if val is not None:
+                raise TypeError("instance exception may not have a separate value")
             val = exctype
             exctype = type(val)
+        else:
+            raise TypeError(
+                "exceptions must be old-style classes or derived from "
+                f"BaseException, not {type(exctype).__name__}"
+            )
 
+        if tb is None:
+            raise val
         self.vm.last_exception = (exctype, val, tb)
-
-        if tb:
-            return "reraise"
-        else:
-            return "exception"
+        return "reraise"
 
     def CALL_FUNCTION(self, argc: int):
         """
diff --git a/xpython/byteop/byteop32.py b/xpython/byteop/byteop32.py
index b99f332..3d707f0 100644
--- a/xpython/byteop/byteop32.py
+++ b/xpython/byteop/byteop32.py
@@ -248,13 +248,9 @@ class ByteOp32(ByteOp27):
         the traceback as TOS2, the parameter as TOS1, and the
         exception as TOS.
         """
-        cause = exc = None
-        if argc == 2:
-            cause = self.vm.pop()
-            exc = self.vm.pop()
-        elif argc == 1:
-            exc = self.vm.pop()
-        return self.do_raise(exc, cause)
+        if argc == 0:
+            return self.reraise()
+        return self.do_raise(*self.vm.popn(argc))
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 6d53873b55f1a6c15c80ce8685948ae64b756028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:17 +0000
Subject: [PATCH 44/72] fix: 3.8 to 3.10: finally blocks, re-raising, leaving
 handlers, and with statements

---
 xpython/byteop/byteop38.py | 78 ++++++++++++++++++++++----------------
 xpython/byteop/byteop39.py | 29 +++++++-------
 xpython/vm.py              | 11 ++++--
 3 files changed, 67 insertions(+), 51 deletions(-)

diff --git a/xpython/byteop/byteop38.py b/xpython/byteop/byteop38.py
index d4196ac..2799261 100644
--- a/xpython/byteop/byteop38.py
+++ b/xpython/byteop/byteop38.py
@@ -78,31 +78,37 @@ class ByteOp38(ByteOp37):
         """
         v = self.vm.pop()
         if v is None:
-            why = None
-        elif isinstance(v, int):
+            return None
+        if isinstance(v, int):
             self.vm.jump(v)
-            why = "return"
-        elif issubclass(v, BaseException):
-            # from trepan.api import debug; debug()
-            exctype = v
-            val = self.vm.pop()
-            tb = self.vm.pop()
-            self.vm.last_exception = (exctype, val, tb)
-
-            raise self.vm.PyVMError("END_FINALLY not finished yet")
-            # FIXME: pop 3 more values
-            why = "reraise"
-        else:  # pragma: no cover
-            raise self.vm.PyVMError("Confused END_FINALLY")
-        return why
+            return None
+        # The exception-handler block goes when unwinding for the exception.
+        val = self.vm.pop()
+        tb = self.vm.pop()
+        self.vm.last_exception = (v, val, tb)
+        return "reraise"
+
+    def POP_EXCEPT(self):
+        """
+        Removes one block from the block stack. The popped block must be an
+        exception handler block, as implicitly created when entering an except
+        handler. The three values on top of the stack are used to restore
+        the exception state. A value being returned may be below these.
+        """
+        block = self.vm.pop_block()
+        if block.type != "except-handler":
+            raise self.vm.PyVMError(
+                f"popped block is not an except handler; is {block}"
+            )
+        self.vm.restore_exc_info()
 
     def CALL_FINALLY(self, delta):
         """Pushes the address of the next instruction onto the stack and
         increments bytecode counter by delta. Used for calling the
         "finally" block as a "subroutine".
         """
-        # Is it f_lasti or the one after that
-        self.vm.push(self.vm.frame.f_lasti)
+        # Instructions take two bytes.
+        self.vm.push(self.vm.frame.f_lasti + 2)
         self.vm.jump(delta)
 
     def POP_FINALLY(self, preserve_tos: int):
@@ -122,22 +128,28 @@ class ByteOp38(ByteOp37):
         continue and return in the "finally" block.
 
         """
+        preserved = [self.vm.pop()] if preserve_tos else []
         v = self.vm.pop()
-        if v is None:
-            why = None
-        elif issubclass(v, BaseException):
-            # from trepan.api import debug; debug()
-            exctype = v
-            val = self.vm.pop()
-            tb = self.vm.pop()
-            self.vm.last_exception = (exctype, val, tb)
-
-            # FIXME: pop 3 more values
-            why = "reraise"
-            raise self.vm.PyVMError("POP_FINALLY not finished yet")
-        else:  # pragma: no cover
-            raise self.vm.PyVMError("Confused POP_FINALLY")
-        return why
+        if not (v is None or isinstance(v, int)):
+            self.vm.popn(2)
+            self.POP_EXCEPT()
+        self.vm.push(*preserved)
+
+    def WITH_CLEANUP_FINISH(self):
+        """Finishes cleaning up the stack when a with statement block
+        exits. TOS is result of __exit__() or __aexit__() function
+        call pushed by WITH_CLEANUP_START. SECOND is None or an
+        exception type (pushed when an exception has been raised).
+
+        Pops two values from the stack. If SECOND is not None and TOS
+        is true unwinds the EXCEPT_HANDLER block which was created
+        when the exception was caught and pushes NULL to the stack.
+        """
+        exit_result = self.vm.pop()
+        exception = self.vm.pop()
+        if exception is not None and exit_result:
+            self.vm.unwind_block(self.vm.pop_block())
+            self.vm.push(None)
 
     # Changed from 2.4: Map value is TOS and map key is TOS1. Before,
     # those were reversed.
diff --git a/xpython/byteop/byteop39.py b/xpython/byteop/byteop39.py
index 6b67440..dbe65c1 100644
--- a/xpython/byteop/byteop39.py
+++ b/xpython/byteop/byteop39.py
@@ -49,24 +49,25 @@ class ByteOp39(ByteOp38):
     #   already been performed in parse_byte_and_args().
     ##############################################################################
 
-    def RERAISE(self, oparg: int) -> str:
-        """Re-raises the exception currently on top of the stack.  If
-        oparg is non-zero, pops an additional value from the stack
-        which is used to set f_lasti of the current frame.
+    def RERAISE(self, oparg: int = 0) -> str:
+        """Re-raises the exception currently on top of the stack, which
+        takes three items. If oparg (3.10) is non-zero, f_lasti is set back
+        to the instruction which raised it.
 
         """
-        # An exception was already set up to set: self.vm.last_exception,
-        # self.vm.last_type, self.vm.last_value, self.vm.last_traceback.
-        # All we need to do here is note an exception return.
-        for _ in range(oparg, 0, -1):
-            self.vm.frame.block_stack.pop()
-        return "exception"
+        tb, val, exctype = self.vm.popn(3)
+        self.vm.last_exception = (exctype, val, tb)
+        return "reraise"
 
     def WITH_EXCEPT_START(self) -> None:
-        # FIXME
-        raise RuntimeError("WITH_EXCEPT_START not implemented yet")
-        pass
-
+        """Calls the function in position 7 on the stack with the top three
+        items on the stack as arguments. Used to implement the call
+        context_manager.__exit__(*exc_info()) when an exception has
+        occurred in a with statement.
+        """
+        exit_method = self.vm.peek(7)
+        args = [self.vm.peek(i) for i in (1, 2, 3)]
+        self.vm.push(exit_method(*args))
 
     def LOAD_ASSERTION_ERROR(self) -> None:
         """
diff --git a/xpython/vm.py b/xpython/vm.py
index a522ba0..5a00340 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -496,10 +496,13 @@ class PyVM(object):
         while len(self.frame.stack) > block.level + offset:
             self.pop()
 
-        # The exception handled before this one, if any, is handled again.
-        if block.type == "except-handler" and self.version < (3, 11):
-            tb, value, exctype = self.popn(3)
-            self.frame.exc_info = None if exctype is None else (exctype, value, tb)
+        if block.type == "except-handler":
+            self.restore_exc_info()
+
+    def restore_exc_info(self):
+        """The exception handled before this one, if any, is handled again."""
+        tb, value, exctype = self.popn(3)
+        self.frame.exc_info = None if exctype is None else (exctype, value, tb)
 
     def parse_byte_and_args(self, byte_code, replay=False):
         """Parse 1 - 3 bytes of bytecode into
-- 
2.43.0


From 08c38766ec179a6c4802942bcff06eb2fa1f3828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:27 +0000
Subject: [PATCH 45/72] fix: 2.5: WITH_CLEANUP finds the exit method on top of
 the stack

---
 xpython/byteop/byteop25.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/xpython/byteop/byteop25.py b/xpython/byteop/byteop25.py
index d7599a6..e4fd8d7 100644
--- a/xpython/byteop/byteop25.py
+++ b/xpython/byteop/byteop25.py
@@ -56,6 +56,19 @@ class ByteOp25(ByteOp24):
         All of the following opcodes expect arguments. An argument is
         two bytes, with the more significant byte last.
         """
+        if self.version_info[:2] == (2, 5):
+            # Here, EXIT is on top of the stack; move it to where 2.6 and later
+            # have it: under what says how the "finally" clause was entered.
+            exit_func = self.vm.pop()
+            u = self.vm.top
+            if u is None:
+                count = 1
+            elif isinstance(u, str):
+                count = 2 if u in ("return", "continue") else 1
+            else:
+                count = 3
+            self.vm.push(exit_func, *self.vm.popn(count))
+
         # The code here does some weird stack manipulation: the __exit__ function
         # is buried in the stack, and where depends on what's on top of it.
         # Pull out the exit function, and leave the rest in place.
-- 
2.43.0


From fcdec383f59ba842127da2fbd1581c83b31d5207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:10 +0000
Subject: [PATCH 46/72] fix: the call stack is left as it was, however running
 a frame ends

---
 xpython/vm.py      | 18 +++++++++++++++---
 xpython/vmtrace.py |  4 ++--
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index 5a00340..bea2ce5 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -430,9 +430,10 @@ class PyVM(object):
         else:
             frame.fallthrough = True
 
-        val = self.eval_frame(frame)
-        frame.f_back = None
-        return val
+        try:
+            return self.eval_frame(frame)
+        finally:
+            frame.f_back = None
 
     ##############################################
     # End Frame operations.
@@ -826,6 +827,17 @@ class PyVM(object):
     # This is analogous to CPython's _PyEval_EvalFrameDefault() (in 3.x newer Python)
     # or eval_frame() in older 2.x code.
     def eval_frame(self, frame: Frame):
+        """Run a frame until it returns (somehow). However this ends, the
+        call stack is afterwards as it was before.
+        """
+        depth = len(self.frames)
+        try:
+            return self.run_frame(frame)
+        finally:
+            while len(self.frames) > depth:
+                self.pop_frame()
+
+    def run_frame(self, frame: Frame):
         """Run a frame until it returns (somehow).
 
         Exceptions are raised, the return value is returned.
diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index 50922c2..04bb0ff 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -134,7 +134,7 @@ class PyVMTraced(PyVM):
     # Interpreter main loop
     # This is analogous to CPython's _PyEval_EvalFrameDefault() (in 3.x newer Python)
     # or eval_frame() in older 2.x code.
-    def eval_frame(self, frame: Frame) -> None:
+    def run_frame(self, frame: Frame) -> None:
         """Run a frame until it returns (somehow).
 
         Exceptions are raised, the return value is returned.
@@ -265,7 +265,7 @@ class PyVMTraced(PyVM):
                 # As per https://docs.python.org/3/library/sys.html#sys.settrace
                 # None indicates turning off tracing in this scope.
                 # We could imagine a fancier code organization where we use
-                # eval_frame() of PyVM instead of PyVMTrace, but save that for later.
+                # run_frame() of PyVM instead of PyVMTrace, but save that for later.
                 frame.event_flags = 0
             elif callable(result):
                 pass
-- 
2.43.0


From d35b0db3da0c4a9f3163a16d81d0142799f70258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:57 +0000
Subject: [PATCH 47/72] fix: generators: what is sent, how they finish, throw()
 and close()

---
 xpython/byteop/byteop24.py |   2 -
 xpython/byteop/byteop33.py |   4 +-
 xpython/pyobj.py           | 139 ++++++++++++++++++++++++++++++++++---
 xpython/vm.py              |  30 ++++++--
 xpython/vmtrace.py         |  10 +--
 5 files changed, 162 insertions(+), 23 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 82dada2..594f25b 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -326,8 +326,6 @@ class ByteOp24(ByteOpBase):
     def RETURN_VALUE(self):
         """Returns with TOS to the caller of the function."""
         self.vm.return_value = self.vm.pop()
-        if self.vm.frame.generator:
-            self.vm.frame.generator.finished = True
         return "return"
 
     def YIELD_VALUE(self):
diff --git a/xpython/byteop/byteop33.py b/xpython/byteop/byteop33.py
index 185331b..f2c31db 100644
--- a/xpython/byteop/byteop33.py
+++ b/xpython/byteop/byteop33.py
@@ -4,7 +4,6 @@
 
 from xpython.byteop.byteop24 import Version_info
 from xpython.byteop.byteop32 import ByteOp32
-from xpython.pyobj import Generator
 
 
 class ByteOp33(ByteOp32):
@@ -63,7 +62,7 @@ class ByteOp33(ByteOp32):
         x = self.vm.top
 
         try:
-            if not isinstance(x, Generator) or u is None:
+            if u is None:
                 # Call next on iterators.
                 retval = next(x)
             else:
@@ -73,6 +72,7 @@ class ByteOp33(ByteOp32):
             self.vm.pop()
             self.vm.push(e.value)
         else:
+            self.vm.frame.yield_from = x, self.vm.frame.f_lasti
             # FIXME: The code has the effect of rerunning the last instruction.
             # I'm not sure if or why it is correct.
             if self.vm.version >= (3, 6):
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 0b95296..0ba3ac1 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -17,6 +17,9 @@ import xpython.stdlib.inspect3 as inspect3
 
 from xpython.stdlib.types34 import ModuleType
 
+# from __future__ import generator_stop
+CO_FUTURE_GENERATOR_STOP = 0x80000
+
 
 def copy_module(old_module) -> ModuleType:
     """
@@ -279,9 +282,8 @@ class Function:
                 g_frame=frame, name=self.__name__, qualname=qualname, vm=self._vm
             )
             if self.__code__.co_flags & CO_ITERABLE_COROUTINE:
-                gen = _AsyncGeneratorWrapper(gen)
                 frame.generator = gen
-                return gen
+                return _AsyncGeneratorWrapper(gen)
 
             frame.generator = gen
             retval = gen
@@ -493,6 +495,14 @@ class Frame(object):
 
         self.block_stack = []
         self.generator = None
+
+        # Has the frame returned, or been left by an exception?
+        self.finished = False
+
+        # For a generator: an exception to raise on resuming it, and the
+        # iterator "yield from" is at, with the offset to go on after when that ends.
+        self.thrown = None
+        self.yield_from = None
         self.version = version
 
         # These are sentinel or bogus values to start out.
@@ -594,12 +604,11 @@ class Generator(object):
     def __init__(self, g_frame, name, qualname, vm) -> None:
         self.gi_frame = g_frame
         self.vm = vm
-        self.name = vm
         self.started = False
         self.finished = False
         self.gi_running = False
         self.gi_code = g_frame.f_code
-        self.__name__ = g_frame.f_code.co_name
+        self.__name__ = name if g_frame.version >= (3, 5) else g_frame.f_code.co_name
         self.__qualname__ = qualname if g_frame.version >= (3, 4) else None
 
     def __iter__(self):
@@ -609,18 +618,126 @@ class Generator(object):
         return self.send(None)
 
     def send(self, value=None):
+        if self.gi_running:
+            raise ValueError("generator already executing")
+        if self.finished:
+            raise StopIteration
         if not self.started and value is not None:
             raise TypeError("Can't send non-None value to a just-started generator")
-        self.gi_frame.stack.append(value)
-        self.started = True
-        self.running = True
-        val = self.vm.resume_frame(self.gi_frame)
+
+        # What is sent is the value of the yield expression, which there is
+        # since 2.5. 3.10's GEN_START takes what is sent to start the generator.
+        version = self.gi_frame.version[:2]
+        if version >= (2, 5) if self.started else version == (3, 10):
+            self.gi_frame.stack.append(value)
+        return self.resume()
+
+    __next__ = next
+
+    def resume(self, thrown=None):
+        """Runs the generator to its next yield, beginning with raising
+        exception ``thrown`` if there is one."""
+        self.started = self.gi_running = True
+        frame = self.gi_frame
+        if thrown is not None:
+            # In place of what would have been sent
+            frame.stack.append(None)
+        try:
+            val = self.vm.resume_frame(frame, thrown)
+        except StopIteration as e:
+            if frame.version >= (3, 7) or (
+                frame.version >= (3, 5)
+                and self.gi_code.co_flags & CO_FUTURE_GENERATOR_STOP
+            ):
+                raise RuntimeError("generator raised StopIteration") from e
+            raise
+        finally:
+            self.gi_running = False
+            if frame.finished:
+                self.finished = True
+                self.gi_frame = None
         if self.finished:
-            self.running = False
-            raise StopIteration(val)
+            raise StopIteration if val is None else StopIteration(val)
         return val
 
-    __next__ = next
+    def throw(self, typ, val=None, tb=None):
+        """Raises an exception where the generator is paused, and returns
+        the next value it yields."""
+        if tb is not None and not isinstance(tb, (types.TracebackType, Traceback)):
+            raise TypeError("throw() third argument must be a traceback object")
+        if isinstance(typ, type) and issubclass(typ, BaseException):
+            if isinstance(val, typ):
+                exc = val
+            elif val is None:
+                exc = typ()
+            elif isinstance(val, tuple):
+                exc = typ(*val)
+            else:
+                exc = typ(val)
+        elif isinstance(typ, BaseException):
+            if val is not None:
+                raise TypeError("instance exception may not have a separate value")
+            exc = typ
+        else:
+            raise TypeError(
+                "exceptions must be classes or instances deriving from "
+                f"BaseException, not {type(typ).__name__}"
+            )
+        if isinstance(tb, types.TracebackType):
+            exc = exc.with_traceback(tb)
+
+        if self.gi_running:
+            raise ValueError("generator already executing")
+        if self.finished:
+            raise exc
+        if not self.started:
+            self.finished = True
+            self.gi_frame = None
+            raise exc
+
+        if self.gi_frame.yield_from is None:
+            return self.resume(exc)
+
+        # "yield from" has the iterator deal with the exception first.
+        iterator, last_offset = self.gi_frame.yield_from
+        self.gi_running = True
+        try:
+            if isinstance(exc, GeneratorExit):
+                if hasattr(iterator, "close"):
+                    iterator.close()
+            elif hasattr(iterator, "throw"):
+                if tb is not None:
+                    return iterator.throw(typ, val, tb)
+                return iterator.throw(typ) if val is None else iterator.throw(typ, val)
+        except StopIteration as e:
+            if self.gi_frame.version >= (3, 12):
+                # There is code for this in the generator.
+                exc = e
+            else:
+                # The value of the "yield from" expression
+                self.gi_frame.stack[-1] = e.value
+                self.gi_frame.f_lasti = last_offset
+                exc = None
+        except BaseException as e:
+            exc = e
+        finally:
+            self.gi_running = False
+        return self.resume(exc)
+
+    def close(self):
+        """Has the generator finish, by raising GeneratorExit where it is paused."""
+        if self.gi_running:
+            raise ValueError("generator already executing")
+        if not self.started:
+            self.finished = True
+            self.gi_frame = None
+        if self.finished:
+            return
+        try:
+            self.throw(GeneratorExit())
+        except (GeneratorExit, StopIteration):
+            return
+        raise RuntimeError("generator ignored GeneratorExit")
 
 
 if __name__ == "__main__":
diff --git a/xpython/vm.py b/xpython/vm.py
index bea2ce5..bd9dca1 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -416,7 +416,9 @@ class PyVM(object):
             if line:
                 print("    " + line.strip())
 
-    def resume_frame(self, frame):
+    def resume_frame(self, frame, thrown=None):
+        """Runs the frame of a generator to its next yield. First, exception
+        ``thrown`` is raised where it stopped, if there is one."""
         frame.f_back = self.frame
         log.debug("resume_frame: %r", frame)
 
@@ -430,6 +432,8 @@ class PyVM(object):
         else:
             frame.fallthrough = True
 
+        frame.thrown = thrown
+        frame.yield_from = None
         try:
             return self.eval_frame(frame)
         finally:
@@ -826,12 +830,30 @@ class PyVM(object):
     # Interpreter main loop
     # This is analogous to CPython's _PyEval_EvalFrameDefault() (in 3.x newer Python)
     # or eval_frame() in older 2.x code.
+    def raise_thrown(self, frame: Frame):
+        """Begin resuming a frame with raising the exception Generator.throw()
+        has for it, if there is one. Returns None if the frame goes on."""
+        if frame.thrown is None:
+            return None
+        try:
+            raise frame.thrown
+        except BaseException:
+            self.last_exception = sys.exc_info()
+        frame.thrown = None
+        why = "exception"
+        if self.version >= (3, 11):
+            why = self.exception_handling_311()
+        while why and frame.block_stack:
+            why = self.manage_block_stack(why)
+        return why
+
     def eval_frame(self, frame: Frame):
         """Run a frame until it returns (somehow). However this ends, the
         call stack is afterwards as it was before.
         """
         depth = len(self.frames)
         try:
+            frame.finished = True  # unless it yields
             return self.run_frame(frame)
         finally:
             while len(self.frames) > depth:
@@ -858,7 +880,8 @@ class PyVM(object):
 
         self.push_frame(frame)
         offset = 0
-        while True:
+        why = self.raise_thrown(frame)
+        while not why:
             (
                 bytecode_name,
                 byte_code,
@@ -917,8 +940,7 @@ class PyVM(object):
             if why:
                 break
 
-        # TODO: handle generator exception state
-
+        frame.finished = why != "yield"
         self.pop_frame()
 
         if why == "exception":
diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index 04bb0ff..a55e921 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -218,8 +218,11 @@ class PyVMTraced(PyVM):
             self.opc.findlinestarts(frame.f_code, dup_lines=True)
         )
 
-        offset = 0
-        while True:
+        offset = frame.f_lasti
+        bytecode_name = self.opc.opname[byte_code] if byte_code is not None else ""
+        line_number, int_arg = frame.f_lineno, None
+        why = self.raise_thrown(frame)
+        while not why:
             (
                 bytecode_name,
                 byte_code,
@@ -342,8 +345,7 @@ class PyVMTraced(PyVM):
             pass
         # End extra tracing code
 
-        # TODO: handle generator exception state
-
+        frame.finished = why != "yield"
         self.pop_frame()
 
         if why == "exception":
-- 
2.43.0


From 62a66a747c67ada3e5eab5d58755fc1cac46209d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:38 +0000
Subject: [PATCH 48/72] fix: 3.11+: generators and yield from; 3.12: intrinsic
 functions

---
 xpython/byteop/byteop311.py | 28 ++++++++++++++++++++
 xpython/byteop/byteop312.py | 53 ++++++++++++++++++++++++++++++-------
 xpython/vm.py               |  2 +-
 3 files changed, 73 insertions(+), 10 deletions(-)

diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index d439657..2c51a13 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -489,6 +489,34 @@ class ByteOp311(ByteOp310):
         exit_method = self.vm.peek(4)
         self.vm.push(exit_method(type(val), val, val.__traceback__))
 
+    def RETURN_GENERATOR(self):
+        """Begins a generator, which was made when its function was
+        called. Pushes what is sent to it, for the POP_TOP after this.
+        """
+        self.vm.push(None)
+
+    def SEND(self, target: int):
+        """Sends TOS to the iterator below it, and replaces it with what
+        the iterator yields. When the iterator finishes, its value
+        replaces them both and there is a jump to ``target``.
+        """
+        value = self.vm.pop()
+        iterator = self.vm.top
+        try:
+            result = next(iterator) if value is None else iterator.send(value)
+        except StopIteration as e:
+            self.end_send(e.value)
+            self.vm.jump(target)
+        else:
+            # JUMP_BACKWARD_NO_INTERRUPT is before the target
+            self.vm.frame.yield_from = iterator, target - 2
+            self.vm.push(result)
+
+    def end_send(self, value):
+        """The iterator that SEND sends to has finished with ``value``."""
+        self.vm.pop()
+        self.vm.push(value)
+
     def RESUME(self, where: int):
         """
         A no-op. Performs internal tracing, debugging and optimization checks.
diff --git a/xpython/byteop/byteop312.py b/xpython/byteop/byteop312.py
index 5ede7cf..97a90c9 100644
--- a/xpython/byteop/byteop312.py
+++ b/xpython/byteop/byteop312.py
@@ -51,12 +51,42 @@ class ByteOp312(ByteOp311):
         """
         self.vm.pop()
 
+    def end_send(self, value):
+        """The iterator that SEND sends to has finished with ``value``.
+        It is left for END_SEND to remove."""
+        self.vm.push(value)
+
     def END_SEND(self):
-        """
-        To be continued...
-        """
-        # FIXME
-        raise self.vm.PyVMError("END_SEND not implemented")
+        """Removes the item below the top of the stack: what SEND sent to."""
+        value = self.vm.pop()
+        self.vm.pop()
+        self.vm.push(value)
+
+    def YIELD_VALUE(self, depth: int):
+        """Yields TOS from a generator. ``depth`` is the number of exception
+        handlers around this."""
+        return super().YIELD_VALUE()
+
+    def CALL_INTRINSIC_1(self, number: int):
+        """Calls an intrinsic function with TOS as its argument, and
+        replaces TOS with the result."""
+        value = self.vm.pop()
+        if number == 2:  # INTRINSIC_IMPORT_STAR
+            self.vm.push(value)
+            self.IMPORT_STAR()
+            result = None
+        elif number == 3:  # INTRINSIC_STOPITERATION_ERROR
+            result = value
+            if isinstance(value, StopIteration):
+                result = RuntimeError("generator raised StopIteration")
+                result.__cause__ = result.__context__ = value
+        elif number == 5:  # INTRINSIC_UNARY_POSITIVE
+            result = +value
+        elif number == 6:  # INTRINSIC_LIST_TO_TUPLE
+            result = tuple(value)
+        else:
+            raise self.vm.PyVMError(f"CALL_INTRINSIC_1 {number} not implemented")
+        self.vm.push(result)
 
     def RESERVED(self):
         """
@@ -78,11 +108,16 @@ class ByteOp312(ByteOp311):
         container[start:end]= values
 
     def CLEANUP_THROW(self):
+        """Handles an exception raised while the generator was in a
+        "yield from". A StopIteration ends that, and its value replaces
+        the exception and what was sent. Others are raised again.
         """
-        To be continued...
-        """
-        # FIXME
-        raise self.vm.PyVMError("CLEANUP_THROW not implemented")
+        value = self.vm.pop()
+        if not isinstance(value, StopIteration):
+            self.vm.last_exception = type(value), value, value.__traceback__
+            return "reraise"
+        self.vm.popn(2)
+        self.vm.push(None, value.value)
 
     def LOAD_LOCALS(self):
         """Pushes a reference to the locals dictionary onto the stack."""
diff --git a/xpython/vm.py b/xpython/vm.py
index bd9dca1..ecd3e3c 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -613,7 +613,7 @@ class PyVM(object):
                             int_arg = -int_arg
                         int_arg += int_arg
                     arg = arg_offset + int_arg
-                    if bytecode_name == "FOR_ITER" and self.version >= (3, 12):
+                    if bytecode_name in ("FOR_ITER", "SEND") and self.version >= (3, 12):
                         # 3.12 jumps one more instruction for reasons I can't find
                         # well documented.
                         arg += 2
-- 
2.43.0


From 457248edfaa4a589094670eafaa0019f0400b6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 49/72] fix: except clauses: which classes match, and what is
 no class of exceptions

---
 xpython/byteop/byteop.py    | 28 ++++++++++++++++++++++++++++
 xpython/byteop/byteop24.py  |  9 +++++----
 xpython/byteop/byteop311.py | 10 +---------
 xpython/byteop/byteop39.py  |  3 +--
 4 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index e8b0db0..e00c901 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -388,6 +388,34 @@ class ByteOpBase(object):
             self.vm.fn2native[native_func] = func
         return func
 
+    def exception_match(self, exctype, classes) -> bool:
+        """Whether an "except" clause for ``classes``, which is a class or
+        a tuple of them, handles exceptions of class ``exctype``.
+        """
+        if not isinstance(classes, tuple):
+            classes = (classes,)
+        if self.version_info[:2] < (3, 0):
+            for cls in classes:
+                if isinstance(cls, tuple):
+                    if self.exception_match(exctype, cls):
+                        return True
+                elif isinstance(cls, type) and issubclass(cls, BaseException):
+                    if issubclass(exctype, cls):
+                        return True
+            return False
+
+        for cls in classes:
+            if not (isinstance(cls, type) and issubclass(cls, BaseException)):
+                raise TypeError(
+                    "catching classes that do not inherit from BaseException "
+                    "is not allowed"
+                )
+        for cls in classes:
+            # The __subclasscheck__ of the class's metaclass has no say.
+            if type.__subclasscheck__(cls, exctype):
+                return True
+        return False
+
     def reraise(self):
         """raise, without operands"""
         exc_info = self.vm.exc_info()
diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 594f25b..887780e 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -558,9 +558,7 @@ class ByteOp24(ByteOpBase):
         lambda x, y: x not in y,
         lambda x, y: x is y,
         lambda x, y: x is not y,
-        lambda x, y: issubclass(x, BaseException)
-        and issubclass(x, y),  # exception-match
-    ]
+    ]  # Operation 10 is exception_match()
 
     def COMPARE_OP(self, opname: int):
         """Performs a Boolean operation. The operation name can be
@@ -569,7 +567,10 @@ class ByteOp24(ByteOpBase):
         Changed in 3.12
         """
         x, y = self.vm.popn(2)
-        self.vm.push(self.COMPARE_OPERATORS[opname](x, y))
+        if opname == 10:
+            self.vm.push(self.exception_match(x, y))
+        else:
+            self.vm.push(self.COMPARE_OPERATORS[opname](x, y))
 
     # Imports
 
diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index 2c51a13..d17e8f9 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -346,15 +346,7 @@ class ByteOp311(ByteOp310):
         that got raised. It stays on the stack.
         """
         classes = self.vm.pop()
-        if not isinstance(classes, tuple):
-            classes = (classes,)
-        for cls in classes:
-            if not (isinstance(cls, type) and issubclass(cls, BaseException)):
-                raise TypeError(
-                    "catching classes that do not inherit from BaseException "
-                    "is not allowed"
-                )
-        self.vm.push(issubclass(type(self.vm.top), classes))
+        self.vm.push(self.exception_match(type(self.vm.top), classes))
 
     def BEFORE_WITH(self):
         """Performs several operations before a with block starts. First, it
diff --git a/xpython/byteop/byteop39.py b/xpython/byteop/byteop39.py
index dbe65c1..7250bb8 100644
--- a/xpython/byteop/byteop39.py
+++ b/xpython/byteop/byteop39.py
@@ -96,8 +96,7 @@ class ByteOp39(ByteOp38):
         the stack.
         """
         TOS1, TOS = self.vm.popn(2)
-        # FIXME: not sure what operation should be used to test not "matches".
-        if not issubclass(TOS1, TOS):
+        if not self.exception_match(TOS1, TOS):
             self.vm.jump(target)
         return
 
-- 
2.43.0


From b1b4cf841b7541399a308fb12acc28530092075f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:41 +0000
Subject: [PATCH 50/72] fix: with, 3.6 and later: look up __enter__() before
 __exit__()

---
 xpython/byteop/byteop27.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xpython/byteop/byteop27.py b/xpython/byteop/byteop27.py
index af38641..dd5957b 100644
--- a/xpython/byteop/byteop27.py
+++ b/xpython/byteop/byteop27.py
@@ -120,6 +120,9 @@ class ByteOp27(ByteOp26):
         variable(s) (STORE_FAST, STORE_NAME, or UNPACK_SEQUENCE).
         """
         context_manager = self.vm.pop()
+        if self.version_info[:2] >= (3, 6):
+            # From 3.6 on, this is looked up before __exit__().
+            enter_method = context_manager.__enter__
 
         # Make sure __enter__ and __exit__ functions in context_manager are
         # converted to our Function type, so we can interpret them.
@@ -140,7 +143,9 @@ class ByteOp27(ByteOp26):
             context_manager.__enter__
         ):
             self.convert_method_native_func(self.vm.frame, context_manager.__enter__)
-        finally_block = context_manager.__enter__()
+        if self.version_info[:2] < (3, 6):
+            enter_method = context_manager.__enter__
+        finally_block = enter_method()
         if self.version_info[:2] < (3, 0):
             self.vm.push_block("with", delta)
         else:
-- 
2.43.0


From d08ef2ac094fbed0cb95428af2621e203833962a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:39 +0000
Subject: [PATCH 51/72] fix: decoding: a line that starts at the prefix of an
 instruction is a new line

---
 xpython/vm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index ecd3e3c..576d7ac 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -528,6 +528,7 @@ class PyVM(object):
         # the argument exists.
         arguments = []
         int_arg = None
+        line_number = None
 
         while True:
             if f.fallthrough:
@@ -537,9 +538,9 @@ class PyVM(object):
                 # Jump instructions must set this False.
                 f.fallthrough = True
             offset = f.f_lasti
-            line_number = self.frame.linestarts.get(offset, None)
-            if line_number is not None:
-                f.f_lineno = line_number
+            # A line can start at the prefix of an instruction.
+            if offset in f.linestarts:
+                line_number = f.f_lineno = f.linestarts[offset]
             if not replay:
                 byte_code = byteint(co_code[offset])
             bytecode_name = self.opc.opname[byte_code]
-- 
2.43.0


From 104f374737a5fa15b8e9ecb1cb57a7bc01a5280c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 52/72] fix: breakpoints: the size of the instruction, its
 prefix, other frames, and setting one twice

---
 xpython/vm.py      |  3 +++
 xpython/vmtrace.py | 11 +++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/xpython/vm.py b/xpython/vm.py
index 576d7ac..819bc9d 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -533,6 +533,8 @@ class PyVM(object):
         while True:
             if f.fallthrough:
                 if not replay:
+                    # The size is that of the instruction a breakpoint stands for.
+                    byte_code = f.brkpt.get(f.f_lasti, byteint(co_code[f.f_lasti]))
                     f.f_lasti = next_offset(byte_code, self.opc, f.f_lasti)
             else:
                 # Jump instructions must set this False.
@@ -543,6 +545,7 @@ class PyVM(object):
                 line_number = f.f_lineno = f.linestarts[offset]
             if not replay:
                 byte_code = byteint(co_code[offset])
+            replay = False
             bytecode_name = self.opc.opname[byte_code]
 
             arg_offset = offset + 1
diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index a55e921..17591c9 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -3,6 +3,7 @@ This can be used in a debugger or profiler.
 """
 
 import logging
+from copy import copy
 
 from xdis import PYTHON_IMPLEMENTATION, PYTHON_VERSION_TRIPLE, codeType2Portable
 
@@ -107,12 +108,14 @@ class PyVMTraced(PyVM):
         """
         # FIXME: to be more useful we need to work on a code object, and modified code
         # objects  then get replaced when creating frames.
-        # Convert code to something we can change, then
+        # Convert code to something we can change (and other frames do not run), then
         # Convert its bytecode bytes to a list, update the list and replace this back in
         # the code.
-        code = codeType2Portable(frame.f_code, self.version)
-        frame.brkpt[offset] = code.co_code[offset]
+        code = copy(codeType2Portable(frame.f_code, self.version))
         bytecode = list(code.co_code)
+        if bytecode[offset] == BREAKPOINT_OP:
+            return
+        frame.brkpt[offset] = bytecode[offset]
         bytecode[offset] = BREAKPOINT_OP
         code.co_code = bytes(bytecode)
         frame.f_code = code
@@ -127,7 +130,7 @@ class PyVMTraced(PyVM):
         # the code.
         code = frame.f_code
         bytecode = list(code.co_code)
-        bytecode[offset] = frame.brkpt[offset]
+        bytecode[offset] = frame.brkpt.pop(offset, bytecode[offset])
         code.co_code = bytes(bytecode)
 
     # FIXME: put callback in f_trace, and update it accordingly
-- 
2.43.0


From 775bca5417412d033b2077f3c71474c1297c4e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:02 +0000
Subject: [PATCH 53/72] fix: 2.4, 2.5: IMPORT_NAME takes the fromlist and level
 from the stack

---
 xpython/byteop/byteop24.py | 13 +++++++++----
 xpython/byteop/byteop25.py | 12 ++++++++++++
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 887780e..a2445de 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -576,19 +576,24 @@ class ByteOp24(ByteOpBase):
 
     # Note: this changes in Python 2.6
     def IMPORT_NAME(self, name):
-        """Imports the module co_names[namei]. The module object is pushed
-        onto the stack.  The current namespace is not affected: for a
+        """Imports the module co_names[namei]. TOS is popped and provides the
+        fromlist. The module object is pushed onto the stack.  The current namespace is not affected: for a
         proper import statement, a subsequent STORE_FAST instruction
         modifies the namespace.
 
         Note: name = co_names[namei] set in parse_byte_and_args()
 
-        Changed in 2.6
+        Changed in 2.5, and 2.6
         """
+        fromlist = self.vm.pop()
+        self.import_name(name, fromlist, 0)
+
+    def import_name(self, name, fromlist, level):
+        """Imports module name and pushes it onto the stack."""
         frame = self.vm.frame
 
         module = import_fn(
-            name, frame.f_globals, frame.f_locals, fromlist=None, level=0
+            name, frame.f_globals, frame.f_locals, fromlist=fromlist, level=level
         )
 
         if module is sys:
diff --git a/xpython/byteop/byteop25.py b/xpython/byteop/byteop25.py
index e4fd8d7..1e199c3 100644
--- a/xpython/byteop/byteop25.py
+++ b/xpython/byteop/byteop25.py
@@ -30,6 +30,18 @@ class ByteOp25(ByteOp24):
         fn = Function(name, code, globs, defaults, closure, self.vm)
         self.vm.push(fn)
 
+    # Changed in 2.5
+    def IMPORT_NAME(self, name):
+        """Imports the module co_names[namei]. TOS and TOS1 are popped and
+        provide the fromlist and level arguments of __import__().
+
+        Changed in 2.6
+        """
+        level, fromlist = self.vm.popn(2)
+        # A level of -1 asks for a relative import, then for an absolute one.
+        # We only do the latter.
+        self.import_name(name, fromlist, 0 if level == -1 else level)
+
     # New in Python 2.5 but changes in 3.3.
     def WITH_CLEANUP(self):
         """Cleans up the stack when a "with" statement block exits. On top of
-- 
2.43.0


From d9efc91ec2bd810fe6a66f73d7e6d2ee17c07274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:27 +0000
Subject: [PATCH 54/72] fix: "from module import *" respects __all__

---
 xpython/byteop/byteop24.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index a2445de..6d89369 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -336,15 +336,17 @@ class ByteOp24(ByteOpBase):
         return "yield"
 
     def IMPORT_STAR(self):
-        """Loads all symbols not starting with '_' directly from the module
-        TOS to the local namespace. The module is popped after loading all
+        """Loads all symbols not starting with '_', or if the module has an
+        __all__ those listed there, directly from the module TOS to the local namespace. The module is popped after loading all
         names. This opcode implements from module import *.
         """
-        # TODO: this doesn't use __all__ properly.
         mod = self.vm.pop()
-        for attr in dir(mod):
-            if attr[0] != "_":
-                self.vm.frame.f_locals[attr] = getattr(mod, attr)
+        try:
+            names = mod.__all__
+        except AttributeError:
+            names = [attr for attr in mod.__dict__ if attr[0] != "_"]
+        for attr in names:
+            self.vm.frame.f_locals[attr] = getattr(mod, attr)
 
     def EXEC_STMT(self):
         """
-- 
2.43.0


From 9c50a7219f581247a589c87cb17deeb6482dd4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:41 +0000
Subject: [PATCH 55/72] fix: IMPORT_FROM gets the attribute once, and only an
 AttributeError is an ImportError

---
 xpython/byteop/byteop24.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 6d89369..c84ec62 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -612,19 +612,18 @@ class ByteOp24(ByteOpBase):
         Note: name = co_names[namei] set in parse_byte_and_args()
         """
         mod = self.vm.top
-        if not hasattr(mod, name):
-            if not hasattr(mod, "__file__"):
-                # Builtins don't have a __file__ attribute
-                value = ImportError(f"cannot import name '{name}' from '{mod.__name__}")
-            else:
-                value = ImportError(
-                    f"cannot import name '{name}' from '{mod.__name__} ({mod.__file__}"
-                )
-
-            self.vm.last_exception = (ImportError, value, None)
-            return "exception"
-
-        self.vm.push(getattr(mod, name))
+        try:
+            attr = getattr(mod, name)
+        except AttributeError:
+            mod_name = getattr(mod, "__name__", None)
+            # Builtins don't have a __file__ attribute
+            mod_file = getattr(mod, "__file__", None)
+            value = f"cannot import name '{name}' from '{mod_name}'"
+            if mod_file is not None:
+                value += f" ({mod_file})"
+            raise ImportError(value, name=mod_name, path=mod_file) from None
+
+        self.vm.push(attr)
 
     # Jumps
 
-- 
2.43.0


From f3751fc70089dad695b78d9c3d38000cbf45ab55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:51 +0000
Subject: [PATCH 56/72] fix: importing sys leaves the name "sys" of the globals
 alone

---
 xpython/byteop/byteop.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index e00c901..788893e 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -153,6 +153,9 @@ class ByteOpBase(object):
         for op in INPLACE_OPERATORS:
             self.stack_fmt["INPLACE_" + op] = fmt_binary_op
 
+        # Set this lazily in "setup_sys_module"
+        self.sys_module = None
+
         # Set this lazily in "convert_method_native_func
         self.method_func_access = None
         self.cross_bytecode_eval_warning_shown = False
@@ -552,20 +555,18 @@ class ByteOpBase(object):
 
     def setup_sys_module(self) -> types.ModuleType:
         """If this has not previously been done, make a *copy* of the
-        running sys module, add it in the frame, and adapt it for the
-        interpreter we are simulating.
+        running sys module, and adapt it for the interpreter we are
+        simulating.
         """
 
-        if "sys" not in self.vm.frame.f_globals:
+        if self.sys_module is None:
             sys_module = copy_module(sys)
-            self.vm.frame.f_globals["sys"] = sys_module
 
             sys_module.hexversion = self.hexversion
             sys_module.version_info = self.version_info
             sys_module.exc_info = self.exc_info
-        else:
-            sys_module = self.vm.frame.f_globals["sys"]
-        return sys_module
+            self.sys_module = sys_module
+        return self.sys_module
 
     def unaryOperator(self, op):
         x = self.vm.pop()
-- 
2.43.0


From 77d706ac0489b0a0133ad7f49ddda3e06917d42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:11 +0000
Subject: [PATCH 57/72] fix: GET_YIELD_FROM_ITER does not mistake objects for
 coroutines by their attributes

---
 xpython/byteop/byteop35.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xpython/byteop/byteop35.py b/xpython/byteop/byteop35.py
index 1f45080..a457c22 100644
--- a/xpython/byteop/byteop35.py
+++ b/xpython/byteop/byteop35.py
@@ -1,5 +1,7 @@
 """Bytecode Interpreter operations for Python 3.5
 """
+from types import CoroutineType
+
 from xpython.byteop.byteop24 import ByteOp24, Version_info
 from xpython.byteop.byteop32 import ByteOp32
 from xpython.byteop.byteop34 import ByteOp34
@@ -90,8 +92,7 @@ class ByteOp35(ByteOp34):
         If TOS is a generator iterator or coroutine object it is left as
         is. Otherwise, implements TOS = iter(TOS).
         """
-        TOS = self.vm.top
-        if isgeneratorfunction(TOS) or iscoroutinefunction(TOS):
+        if isinstance(self.vm.top, CoroutineType):
             return
         TOS = self.vm.pop()
         self.vm.push(iter(TOS))
-- 
2.43.0


From 573e2853a2366981bd06af71cd86e76cf4ee605a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:45 +0000
Subject: [PATCH 58/72] fix: Generator.throw instantiates the exception where
 the generator handles it, once; close() of a delegate returns no value

---
 xpython/pyobj.py | 108 +++++++++++++++++++++++++++++------------------
 1 file changed, 66 insertions(+), 42 deletions(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 0ba3ac1..0ac0e15 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -600,6 +600,40 @@ def traceback_from_frame(frame):
     return tb
 
 
+def thrown_exception(typ, val, tb):
+    """The exception a generator's throw() raises given its arguments."""
+    if tb is not None and not isinstance(tb, (types.TracebackType, Traceback)):
+        raise TypeError("throw() third argument must be a traceback object")
+    if isinstance(typ, type) and issubclass(typ, BaseException):
+        # As for "raise", but what goes wrong is raised in the generator.
+        try:
+            if isinstance(val, BaseException) and issubclass(type(val), typ):
+                exc = val
+            elif val is None:
+                exc = typ()
+            elif isinstance(val, tuple):
+                exc = typ(*val)
+            else:
+                exc = typ(val)
+            if not isinstance(exc, BaseException):
+                raise TypeError(
+                    f"calling {typ} should have returned an instance of "
+                    f"BaseException, not {type(exc)}"
+                )
+        except BaseException as e:
+            exc = e
+    elif isinstance(typ, BaseException):
+        if val is not None:
+            raise TypeError("instance exception may not have a separate value")
+        exc = typ
+    else:
+        raise TypeError(
+            "exceptions must be classes or instances deriving from "
+            f"BaseException, not {type(typ).__name__}"
+        )
+    return exc.with_traceback(tb) if isinstance(tb, types.TracebackType) else exc
+
+
 class Generator(object):
     def __init__(self, g_frame, name, qualname, vm) -> None:
         self.gi_frame = g_frame
@@ -663,29 +697,10 @@ class Generator(object):
     def throw(self, typ, val=None, tb=None):
         """Raises an exception where the generator is paused, and returns
         the next value it yields."""
-        if tb is not None and not isinstance(tb, (types.TracebackType, Traceback)):
-            raise TypeError("throw() third argument must be a traceback object")
-        if isinstance(typ, type) and issubclass(typ, BaseException):
-            if isinstance(val, typ):
-                exc = val
-            elif val is None:
-                exc = typ()
-            elif isinstance(val, tuple):
-                exc = typ(*val)
-            else:
-                exc = typ(val)
-        elif isinstance(typ, BaseException):
-            if val is not None:
-                raise TypeError("instance exception may not have a separate value")
-            exc = typ
-        else:
-            raise TypeError(
-                "exceptions must be classes or instances deriving from "
-                f"BaseException, not {type(typ).__name__}"
-            )
-        if isinstance(tb, types.TracebackType):
-            exc = exc.with_traceback(tb)
+        if not self.gi_running and self.gi_frame and self.gi_frame.yield_from:
+            return self.throw_in_delegate(typ, val, tb)
 
+        exc = thrown_exception(typ, val, tb)
         if self.gi_running:
             raise ValueError("generator already executing")
         if self.finished:
@@ -694,34 +709,43 @@ class Generator(object):
             self.finished = True
             self.gi_frame = None
             raise exc
+        return self.resume(exc)
 
-        if self.gi_frame.yield_from is None:
-            return self.resume(exc)
-
-        # "yield from" has the iterator deal with the exception first.
-        iterator, last_offset = self.gi_frame.yield_from
+    def throw_in_delegate(self, typ, val, tb):
+        """throw() in a "yield from", which has its iterator deal with the
+        exception first."""
+        frame = self.gi_frame
+        iterator, last_offset = frame.yield_from
+        closing = isinstance(typ, GeneratorExit) or (
+            isinstance(typ, type) and issubclass(typ, GeneratorExit)
+        )
         self.gi_running = True
         try:
-            if isinstance(exc, GeneratorExit):
-                if hasattr(iterator, "close"):
-                    iterator.close()
-            elif hasattr(iterator, "throw"):
-                if tb is not None:
-                    return iterator.throw(typ, val, tb)
-                return iterator.throw(typ) if val is None else iterator.throw(typ, val)
-        except StopIteration as e:
-            if self.gi_frame.version >= (3, 12):
-                # There is code for this in the generator.
-                exc = e
+            try:
+                method = iterator.close if closing else iterator.throw
+            except AttributeError:
+                pass
             else:
-                # The value of the "yield from" expression
-                self.gi_frame.stack[-1] = e.value
-                self.gi_frame.f_lasti = last_offset
-                exc = None
+                if closing:
+                    method()
+                elif tb is not None:
+                    return method(typ, val, tb)
+                else:
+                    return method(typ) if val is None else method(typ, val)
+            exc = None
         except BaseException as e:
             exc = e
         finally:
             self.gi_running = False
+
+        if exc is None:
+            return self.resume(thrown_exception(typ, val, tb))
+        if isinstance(exc, StopIteration) and not closing and frame.version < (3, 12):
+            # The value of the "yield from" expression. (Later versions have
+            # code for this in the generator.)
+            frame.stack[-1] = exc.value
+            frame.f_lasti = last_offset
+            return self.resume()
         return self.resume(exc)
 
     def close(self):
-- 
2.43.0


From 570fb7f42e940e7c98f7b96a04843251afc2a6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:59 +0000
Subject: [PATCH 59/72] fix: calls: keyword arguments may be called "self", and
 positional-only parameters are not bound by keyword

---
 xpython/builtins.py        | 2 +-
 xpython/pyobj.py           | 4 ++--
 xpython/stdlib/inspect2.py | 2 +-
 xpython/stdlib/inspect3.py | 4 +++-
 4 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/xpython/builtins.py b/xpython/builtins.py
index ff1053c..8f261f8 100644
--- a/xpython/builtins.py
+++ b/xpython/builtins.py
@@ -28,7 +28,7 @@ def func_code(func):
 # added a couple of bug fixes.
 
 
-def build_class(opc, func, name, *bases, **kwds):
+def build_class(opc, func, name, /, *bases, **kwds):
     """
     Like built-in __build_class__() in bltinmodule.c, but running in the
     byterun VM.
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 0ac0e15..fc2999b 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -244,7 +244,7 @@ class Function:
         else:
             return self
 
-    def __call__(self, *args, **kwargs):
+    def __call__(self, /, *args, **kwargs):
         if self.has_dot_zero:
             # D'oh! http://bugs.python.org/issue19611 Py2 doesn't know how to
             # inspect set comprehensions, dict comprehensions, or generator
@@ -320,7 +320,7 @@ class Method(object):
         else:
             return f"<Unbound Method {name}>"
 
-    def __call__(self, *args, **kwargs):
+    def __call__(self, /, *args, **kwargs):
         return self.im_func(*self.bind(args), **kwargs)
 
     def bind(self, args) -> list:
diff --git a/xpython/stdlib/inspect2.py b/xpython/stdlib/inspect2.py
index 983ec6d..093ca53 100644
--- a/xpython/stdlib/inspect2.py
+++ b/xpython/stdlib/inspect2.py
@@ -116,7 +116,7 @@ def getargspec(func) -> ArgSpec:
 ArgInfo = namedtuple("ArgInfo", "args varargs keywords locals")
 
 
-def getcallargs(func, *positional, **named):
+def getcallargs(func, /, *positional, **named):
     """Get the mapping of arguments to values.
 
     A dict is returned, with keys the function argument names (including the
diff --git a/xpython/stdlib/inspect3.py b/xpython/stdlib/inspect3.py
index 35d5a85..f55988a 100644
--- a/xpython/stdlib/inspect3.py
+++ b/xpython/stdlib/inspect3.py
@@ -251,7 +251,9 @@ def getcallargs(*func_and_positional, **named):
         arg2value[args[i]] = positional[i]
     if varargs:
         arg2value[varargs] = tuple(positional[n:])
-    possible_kwargs = set(args + kwonlyargs)
+    # Positional-only parameters can't be given by keyword.
+    num_posonly = getattr(func.__code__, "co_posonlyargcount", 0) or 0
+    possible_kwargs = set(args[num_posonly:] + kwonlyargs)
     if varkw:
         arg2value[varkw] = {}
     for kw, value in named.items():
-- 
2.43.0


From 9c2fc10d9710eafdbedc0383faa19ee346ba33eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 60/72] fix: what a function takes is given by its code and
 defaults, not by __signature__

---
 xpython/stdlib/inspect3.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/xpython/stdlib/inspect3.py b/xpython/stdlib/inspect3.py
index f55988a..9182b1f 100644
--- a/xpython/stdlib/inspect3.py
+++ b/xpython/stdlib/inspect3.py
@@ -350,9 +350,16 @@ def getfullargspec(func):
         # getfullargspec() historically ignored __wrapped__ attributes,
         # so we ensure that remains the case in 3.3+
 
-        sig = _signature_from_callable(
-            func, follow_wrapper_chains=False, skip_bound_arg=False, sigcls=Signature
-        )
+        if isFunction(func):
+            # What the function really takes, whatever its __signature__ says.
+            sig = _signature_from_function(Signature, func)
+        else:
+            sig = _signature_from_callable(
+                func,
+                follow_wrapper_chains=False,
+                skip_bound_arg=False,
+                sigcls=Signature,
+            )
     except Exception:
         # Most of the times 'signature' will raise ValueError.
         # But, it can also raise AttributeError, and, maybe something
@@ -444,6 +451,8 @@ def _signature_from_function(cls, func):
         kwdefaults = {}
 
     if defaults:
+        # The last ones count, if there are too many.
+        defaults = defaults[max(len(defaults) - pos_count, 0) :]
         pos_default_count = len(defaults)
     else:
         pos_default_count = 0
-- 
2.43.0


From 425535ace1e4c93cf8bb13244149494eeeb448e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:40 +0000
Subject: [PATCH 61/72] fix: 2.x: functions with tuple parameters, and
 generator expressions with free variables

---
 xpython/stdlib/inspect2.py | 52 +++-----------------------------------
 1 file changed, 4 insertions(+), 48 deletions(-)

diff --git a/xpython/stdlib/inspect2.py b/xpython/stdlib/inspect2.py
index 093ca53..4b8437c 100644
--- a/xpython/stdlib/inspect2.py
+++ b/xpython/stdlib/inspect2.py
@@ -7,9 +7,6 @@ import sys
 from collections import namedtuple
 from inspect import ismethod
 
-# For the kinds of specific opcode use we need,
-# all 2.x opcodes are compatible with what is in 2.7
-import xdis.opcodes.opcode_2x.opcode_27 as opc
 from xdis import COMPILER_FLAG_BIT, iscode
 
 ArgSpec = namedtuple("ArgSpec", "args varargs keywords defaults")
@@ -27,16 +24,12 @@ def isFunction(obj) -> bool:
 # ------------------------------------------------ argument list extraction
 Arguments = namedtuple("Arguments", "args varargs keywords")
 
-# It turns in spite of all of the other Python opcode changes,
-# out the magic number 90 has always been the number for which
-# opcodes with arguments start.
-
 
 def getargs(co, version) -> Arguments:
     """Get information about the arguments accepted by a code object.
 
     Three things are returned: (args, varargs, varkw), where 'args' is
-    a list of argument names (possibly containing nested lists), and
+    a list of argument names, and
     'varargs' and 'varkw' are the names of the * and ** arguments or None."""
 
     if not iscode(co):
@@ -45,46 +38,9 @@ def getargs(co, version) -> Arguments:
     nargs = co.co_argcount
     names = co.co_varnames
     args = list(names[:nargs])
-    step = 0
-
-    # The following acrobatics are for anonymous (tuple) arguments.
-    for i in range(nargs):
-        if args[i][:1] in ("", "."):
-            stack, remain, count = [], [], []
-            while step < len(co.co_code):
-                op = ord(co.co_code[step])
-                step = step + 1
-                if op >= opc.HAVE_ARGUMENT:
-                    opname = opc.opname[op]
-                    value = ord(co.co_code[step]) + ord(co.co_code[step + 1]) * 256
-                    step = step + 2
-                    if opname in ("UNPACK_TUPLE", "UNPACK_SEQUENCE"):
-                        remain.append(value)
-                        count.append(value)
-                    elif opname in ("STORE_FAST", "STORE_DEREF"):
-                        if opname == "STORE_FAST":
-                            stack.append(names[value])
-                        else:
-                            stack.append(co.co_cellvars[value])
-
-                        # Special case for sublists of length 1: def foo((bar))
-                        # doesn't generate the UNPACK_TUPLE bytecode, so if
-                        # `remain` is empty here, we have such a sublist.
-                        if not remain:
-                            stack[0] = [stack[0]]
-                            break
-                        else:
-                            remain[-1] = remain[-1] - 1
-                            while remain[-1] == 0:
-                                remain.pop()
-                                size = count.pop()
-                                stack[-size:] = [stack[-size:]]
-                                if not remain:
-                                    break
-                                remain[-1] = remain[-1] - 1
-                            if not remain:
-                                break
-            args[i] = stack[0]
+
+    # A tuple parameter has a name like ".0", and what the tuple contains is
+    # stored in the named variables by the code itself.
 
     varargs = None
     if co.co_flags & COMPILER_FLAG_BIT["VARARGS"]:
-- 
2.43.0


From e35bcb816deadbb7ffc58b30e0a4d036e2b56753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:15 +0000
Subject: [PATCH 62/72] fix: creating a tracing interpreter leaves the
 instructions of other interpreters alone

---
 xpython/vmtrace.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index 17591c9..05d13f7 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -4,6 +4,7 @@ This can be used in a debugger or profiler.
 
 import logging
 from copy import copy
+from types import ModuleType
 
 from xdis import PYTHON_IMPLEMENTATION, PYTHON_VERSION_TRIPLE, codeType2Portable
 
@@ -92,13 +93,16 @@ class PyVMTraced(PyVM):
         )
         self.event_flags = event_flags
         self.callback = callback
-        # Add a new opcode to allow us high-speed breakpoints
-
-        # FIXME: older xdis uses  "self.opc.l" instead of "self.opc.loc"
-        if not hasattr(self.opc, "loc"):
-            if hasattr(self.opc, "l"):
-                self.opc.loc = self.opc.l
-        def_op(self.opc.loc, "BRKPT", BREAKPOINT_OP, 0, 0)
+        # Add a new opcode to allow us high-speed breakpoints. The opcode module
+        # is shared with other interpreters, so this is done to a copy of it.
+        opc = ModuleType(self.opc.__name__)
+        for name, value in vars(self.opc).items():
+            if isinstance(value, (dict, list, set)) and not name.startswith("__"):
+                value = value.copy()
+            setattr(opc, name, value)
+        opc.loc = vars(opc)
+        def_op(opc.loc, "BRKPT", BREAKPOINT_OP, 0, 0)
+        self.opc = opc
 
     def add_breakpoint(self, frame: Frame, offset: int) -> None:
         """
-- 
2.43.0


From dec1fb38f4ec6f40e5b7a4219bfbc770a9093acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:15 +0000
Subject: [PATCH 63/72] fix: tracebacks list the frames from the outermost to
 the one raising

A traceback began and ended with the outermost frame, its line was the one
at which a line had last begun, and on the way out it was replaced by those of
the callers. Entering a handler replaced it by one of the host.
---
 xpython/byteop/byteop24.py | 12 ++---------
 xpython/pyobj.py           | 18 ++++++++++-------
 xpython/vm.py              | 41 ++++++++++++++++++++++++++++++++++----
 xpython/vmtrace.py         |  6 ++++--
 4 files changed, 54 insertions(+), 23 deletions(-)

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index c84ec62..1663481 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -9,7 +9,6 @@ import operator
 import sys
 import types
 from collections import namedtuple
-from copy import copy
 from typing import Any, Optional
 
 from xpython.byteop.byteop import (
@@ -19,7 +18,7 @@ from xpython.byteop.byteop import (
     fmt_unary_op,
 )
 from xpython.builtins import wrap_special_methods
-from xpython.pyobj import Function, Traceback
+from xpython.pyobj import Function, Traceback, traceback_from_frame
 from xpython.vm import PyVM
 from xpython.vmtrace import PyVMEVENT_RETURN, PyVMEVENT_YIELD
 
@@ -151,14 +150,7 @@ class ByteOp24(ByteOpBase):
         return f" ({vm.peek(1)})"
 
     def traceback_from_frame(self):
-        frame = self.vm.frame
-        tb = None
-
-        while frame:
-            next_tb = Traceback24(copy(frame))
-            tb = next_tb
-            frame = frame.f_back
-        return tb
+        return traceback_from_frame(self.vm.frame, Traceback24)
 
     def BRKPT(self) -> Optional[Any]:
         """Pseudo opcode: breakpoint. We added this. TODO: call callback, then run
diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index fc2999b..5613551 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -499,6 +499,10 @@ class Frame(object):
         # Has the frame returned, or been left by an exception?
         self.finished = False
 
+        # For each handler that is running: the size of the value stack when it
+        # began, the exception and its traceback.
+        self.handled = []
+
         # For a generator: an exception to raise on resuming it, and the
         # iterator "yield from" is at, with the offset to go on after when that ends.
         self.thrown = None
@@ -563,10 +567,10 @@ class Frame(object):
 
 
 class Traceback:
-    def __init__(self, frame) -> None:
-        self.tb_next = frame.f_back
+    def __init__(self, frame, tb_next=None) -> None:
+        self.tb_next = tb_next
         self.tb_lasti = frame.f_lasti
-        self.tb_lineno = frame.f_lineno
+        self.tb_lineno = frame.line_number()
         self.tb_frame = frame
 
     # Note: this can be removed when we have our own compatibility traceback.
@@ -589,13 +593,13 @@ class Traceback:
 
 
 # FIXME: Remove from here and specialize under specific bytecode classses
-def traceback_from_frame(frame):
+def traceback_from_frame(frame, traceback_class=Traceback):
+    """The traceback of an exception raised in frame. It begins with the
+    outermost frame, and tb_next leads inwards."""
     tb = None
 
     while frame:
-        copy_frame = copy(frame)
-        next_tb = Traceback(copy_frame)
-        tb = next_tb
+        tb = traceback_class(copy(frame), tb)
         frame = frame.f_back
     return tb
 
diff --git a/xpython/vm.py b/xpython/vm.py
index 819bc9d..5a88ab1 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -23,7 +23,7 @@ from xdis.opcodes.opcode_3x.opcode_311 import _nb_ops
 from xdis.version_info import PythonImplementation
 
 from xpython.byteop import get_byteop
-from xpython.pyobj import Block, Frame, traceback_from_frame
+from xpython.pyobj import Block, Frame
 
 log = logging.getLogger(__name__)
 
@@ -156,6 +156,8 @@ class PyVM(object):
         self.last_exception = None
         self.last_traceback_limit = None
         self.last_traceback = None
+        # The exception which is leaving a frame, together with its traceback.
+        self.unwinding = (None, None)
         self.version = python_version
         self.is_pypy = python_implementation is PythonImplementation.PyPy
         self.format_instruction = format_instruction_func
@@ -202,6 +204,7 @@ class PyVM(object):
         for exception_entry in exception_entries:
             if exception_entry.start <= lasti < exception_entry.end:
                 del frame.stack[exception_entry.depth :]
+                self.note_handler()
                 if exception_entry.lasti:
                     self.push(lasti)
                 self.push(self.last_exception[1])
@@ -720,8 +723,8 @@ class PyVM(object):
         except BaseException:
             # Deal with exceptions encountered while executing the op.
             # Programs can catch SystemExit and KeyboardInterrupt too.
-            self.last_traceback = byteop.traceback_from_frame()
             self.last_exception = sys.exc_info()
+            self.note_traceback()
 
             # FIXME: dry code
             # Note: operands may have been popped already, so we do not show them.
@@ -780,6 +783,7 @@ class PyVM(object):
                 or block.type == "with"
             ):
                 if why == "exception":
+                    self.note_handler()
                     exctype, value, tb = self.last_exception
                     if block.type != "finally":
                         self.frame.exc_info = self.last_exception
@@ -795,6 +799,7 @@ class PyVM(object):
 
         else:
             if why == "exception" and block.type in ["setup-except", "finally"]:
+                self.note_handler()
                 self.push_block("except-handler")
                 # Save the exception handled so far, for when this handler ends.
                 old_type, old_value, old_tb = self.frame.exc_info or (None, None, None)
@@ -809,7 +814,6 @@ class PyVM(object):
 
                 # PyErr_NormalizeException goes here
                 self.jump(block.handler)
-                self.last_traceback = exc_traceback
                 self.push(exc_traceback, exc_value, exc_type)
                 return why
 
@@ -834,6 +838,32 @@ class PyVM(object):
     # Interpreter main loop
     # This is analogous to CPython's _PyEval_EvalFrameDefault() (in 3.x newer Python)
     # or eval_frame() in older 2.x code.
+    def note_traceback(self, reraised=False):
+        """Set last_traceback to that of last_exception, which the current frame has
+        just raised, raised again, or got from a frame it called. In the latter
+        two cases the traceback leads to where the exception was raised before.
+        """
+        exception = self.last_exception[1]
+        known = [self.unwinding]
+        if reraised:
+            known += [handled[1:] for handled in reversed(self.frame.handled)]
+        self.unwinding = (None, None)
+        for known_exception, traceback in known:
+            if known_exception is exception and traceback is not None:
+                self.last_traceback = traceback
+                return
+        self.last_traceback = self.byteop.traceback_from_frame()
+
+    def note_handler(self):
+        """Keep the traceback of last_exception for when the handler, which the
+        current frame is about to enter, raises it again."""
+        # Handlers which had begun when the stack was as high as now are over.
+        level = len(self.frame.stack)
+        handled = self.frame.handled
+        while handled and handled[-1][0] >= level:
+            handled.pop()
+        handled.append((level, self.last_exception[1], self.last_traceback))
+
     def raise_thrown(self, frame: Frame):
         """Begin resuming a frame with raising the exception Generator.throw()
         has for it, if there is one. Returns None if the frame goes on."""
@@ -843,6 +873,7 @@ class PyVM(object):
             raise frame.thrown
         except BaseException:
             self.last_exception = sys.exc_info()
+            self.note_traceback()
         frame.thrown = None
         why = "exception"
         if self.version >= (3, 11):
@@ -927,11 +958,12 @@ class PyVM(object):
                                 )
                             )
                         )
-                    self.last_traceback = traceback_from_frame(frame)
+                    self.note_traceback()
                     self.in_exception_processing = True
 
             elif why == "reraise":
                 why = "exception"
+                self.note_traceback(reraised=True)
 
             if why == "exception" and self.version >= (3, 11):
                 why = self.exception_handling_311()
@@ -955,6 +987,7 @@ class PyVM(object):
                     exc_value = last_exception[0](exc_value)
                 if not self.frame and isinstance(exc_value, Exception):
                     raise PyVMUncaughtException.from_tuple(last_exception)
+                self.unwinding = (exc_value, self.last_traceback)
                 # Propagate the exception to the calling frame. SystemExit and
                 # KeyboardInterrupt leave the outermost frame as they are.
                 raise exc_value
diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index 05d13f7..0db6644 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -11,7 +11,7 @@ from xdis import PYTHON_IMPLEMENTATION, PYTHON_VERSION_TRIPLE, codeType2Portable
 # We will add a new "DEBUG" opcode
 from xdis.opcodes.base import def_op
 
-from xpython.pyobj import Frame, traceback_from_frame
+from xpython.pyobj import Frame
 from xpython.vm import PyVM, PyVMError, PyVMUncaughtException, byteint, format_instruction
 
 log = logging.getLogger(__name__)
@@ -300,11 +300,12 @@ class PyVMTraced(PyVM):
                 # TODO: ceval calls PyTraceBack_Here, not sure what that does.
 
                 if not self.in_exception_processing:
-                    self.last_traceback = traceback_from_frame(self.frame)
+                    self.note_traceback()
                     self.in_exception_processing = True
 
             elif why == "reraise":
                 why = "exception"
+                self.note_traceback(reraised=True)
 
             if why == "exception" and self.version >= (3, 11):
                 why = self.exception_handling_311()
@@ -363,6 +364,7 @@ class PyVMTraced(PyVM):
                     exc_value = last_exception[0](exc_value)
                 if not self.frame and isinstance(exc_value, Exception):
                     raise PyVMUncaughtException.from_tuple(last_exception)
+                self.unwinding = (exc_value, self.last_traceback)
                 # Propagate the exception to the calling frame. SystemExit and
                 # KeyboardInterrupt leave the outermost frame as they are.
                 raise exc_value
-- 
2.43.0


From ca192915f9fb49590f2cd0c0a3f2629a9c4b1166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:16 +0000
Subject: [PATCH 64/72] fix: lines more than 127 below the one before, in
 bytecode before 3.6

---
 xpython/pyobj.py   | 21 ++++++++++++++++++++-
 xpython/vm.py      |  4 ++--
 xpython/vmtrace.py |  4 ----
 3 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/xpython/pyobj.py b/xpython/pyobj.py
index 5613551..cdd096c 100644
--- a/xpython/pyobj.py
+++ b/xpython/pyobj.py
@@ -412,6 +412,25 @@ class Block(object):
             )
 
 
+def line_starts(code, version, dup_lines=False):
+    """The pairs of (offset, line number) where lines of the code begin."""
+    if version < (3, 6) and isinstance(code.co_lnotab, (bytes, str)):
+        # Before Python 3.6, line numbers only go up, by up to 255 in an item of
+        # the table. findlinestarts() takes more than 127 as going down.
+        lnotab = bytearray()
+        table = bytearray(
+            ord(c) if isinstance(c, str) else c for c in code.co_lnotab
+        )
+        for offset_delta, line_delta in zip(table[0::2], table[1::2]):
+            while line_delta > 127:
+                lnotab += bytes([offset_delta, 127])
+                offset_delta, line_delta = 0, line_delta - 127
+            lnotab += bytes([offset_delta, line_delta])
+        code = copy(code)
+        code.co_lnotab = bytes(lnotab)
+    return findlinestarts(code, dup_lines=dup_lines)
+
+
 class Frame(object):
     def __init__(
         self,
@@ -516,7 +535,7 @@ class Frame(object):
         self.last_op = None
 
         # Keep a cache of line starts for this frame
-        self.line_starts = list(findlinestarts(self.f_code))
+        self.line_starts = list(line_starts(self.f_code, version))
 
         # Python 3.11 adds call_shape structure which
         # has only one item, kwnames.
diff --git a/xpython/vm.py b/xpython/vm.py
index 5a88ab1..8eb47a7 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -23,7 +23,7 @@ from xdis.opcodes.opcode_3x.opcode_311 import _nb_ops
 from xdis.version_info import PythonImplementation
 
 from xpython.byteop import get_byteop
-from xpython.pyobj import Block, Frame
+from xpython.pyobj import Block, Frame, line_starts
 
 log = logging.getLogger(__name__)
 
@@ -380,7 +380,7 @@ class PyVM(object):
         )
 
         # THINK ABOUT: should this go into making the frame?
-        frame.linestarts = dict(self.opc.findlinestarts(code, dup_lines=True))
+        frame.linestarts = dict(line_starts(code, self.version, dup_lines=True))
 
         log.debug("%r", frame)
         return frame
diff --git a/xpython/vmtrace.py b/xpython/vmtrace.py
index 0db6644..090e681 100644
--- a/xpython/vmtrace.py
+++ b/xpython/vmtrace.py
@@ -221,10 +221,6 @@ class PyVMTraced(PyVM):
             elif result == "return":
                 return self.return_value
 
-        self.frame.linestarts = dict(
-            self.opc.findlinestarts(frame.f_code, dup_lines=True)
-        )
-
         offset = frame.f_lasti
         bytecode_name = self.opc.opname[byte_code] if byte_code is not None else ""
         line_number, int_arg = frame.f_lineno, None
-- 
2.43.0


From 6f39d9218f17b992c5a5a2bea1243ef0e9701039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:23 +0000
Subject: [PATCH 65/72] fix: a traced program that ends with an uncaught
 exception exits with status 1

---
 xpython/execfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xpython/execfile.py b/xpython/execfile.py
index fcb1bf3..22e073d 100644
--- a/xpython/execfile.py
+++ b/xpython/execfile.py
@@ -82,7 +82,7 @@ def exec_code_object(
             format_instruction_func=format_instruction,
         )
         try:
-            vm.run_code(code, f_globals=env)
+            rc = vm.run_code(code, f_globals=env)
         except PyVMUncaughtException:
             vm.last_exception = event_arg = (
                 vm.last_exception[0],
-- 
2.43.0


From 51540d5ceb5bb3c901a89f877a3290ca376b39c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:23 +0000
Subject: [PATCH 66/72] fix: a program given as a string exits with status 1
 after an uncaught exception

---
 xpython/execfile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xpython/execfile.py b/xpython/execfile.py
index 22e073d..d6fe68f 100644
--- a/xpython/execfile.py
+++ b/xpython/execfile.py
@@ -328,7 +328,7 @@ def run_python_string(
         python_version = PYTHON_VERSION_TRIPLE
 
         # Execute the source string.
-        exec_code_object(
+        rc = exec_code_object(
             code,
             main_mod.__dict__,
             python_version,
@@ -344,6 +344,8 @@ def run_python_string(
         # Restore the old argv and path
         sys.path[0] = old_path0
 
+    sys.exit(rc)
+
 
 if __name__ == "__main__":
     if len(sys.argv) < 2:
-- 
2.43.0


From b5dfaf502613a8b5267f08ba70081d21aec7160e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:23 +0000
Subject: [PATCH 67/72] fix: running a program restores the host's main module,
 arguments and path whatever the program does

---
 xpython/execfile.py | 66 ++++++++++++++++++++++++---------------------
 1 file changed, 35 insertions(+), 31 deletions(-)

diff --git a/xpython/execfile.py b/xpython/execfile.py
index d6fe68f..6d2f5e9 100644
--- a/xpython/execfile.py
+++ b/xpython/execfile.py
@@ -189,29 +189,29 @@ def run_python_file(
     execution progresses. This can be used for example in a debugger, or
     for custom tracing or statistics gathering.
     """
-    # Create a module to serve as __main__
     old_main_mod = sys.modules["__main__"]
-    main_mod = new_module("__main__")
-    sys.modules["__main__"] = main_mod
-    main_mod.__file__ = filename
-    if package:
-        main_mod.__package__ = package
-    main_mod.__builtins__ = BUILTINS
-
-    # set sys.argv and the first path element properly.
     old_argv = sys.argv
-    old_path0 = sys.path[0]
-
-    # note: the type of args is na tuple; we want type(sys.argv) == list
-    sys.argv = [filename] + list(args)
-
-    if package:
-        sys.path[0] = ""
-    else:
-        sys.path[0] = osp.abspath(osp.dirname(filename))
+    old_path = sys.path
 
     python_implementation = PYTHON_IMPLEMENTATION
     try:
+        # Create a module to serve as __main__
+        main_mod = new_module("__main__")
+        sys.modules["__main__"] = main_mod
+        main_mod.__file__ = filename
+        if package:
+            main_mod.__package__ = package
+        main_mod.__builtins__ = BUILTINS
+
+        # set sys.argv and the first path element properly.
+        # note: the type of args is na tuple; we want type(sys.argv) == list
+        sys.argv = [filename] + list(args)
+
+        # The program can change the list it gets.
+        sys.path = [""] + old_path[1:]
+        if not package:
+            sys.path[0] = osp.abspath(osp.dirname(filename))
+
         # Open the source or bytecode file.
         try:
             mime = mimetypes.guess_type(filename)
@@ -290,7 +290,7 @@ def run_python_file(
 
         # Restore the old argv and path
         sys.argv = old_argv
-        sys.path[0] = old_path0
+        sys.path = old_path
 
     sys.exit(rc)
 
@@ -299,20 +299,23 @@ def run_python_string(
     source, args, package=None, callback=None, format_instruction=format_instruction
 ):
     """Run a python string as if it were the main program on the command line."""
-    # Create a module to serve as __main__
     old_main_mod = sys.modules["__main__"]
-    main_mod = new_module("__main__")
-    sys.modules["__main__"] = main_mod
-    fake_path = main_mod.__file__ = f"<string {source[:20]}>"
-    if package:
-        main_mod.__package__ = package
-    main_mod.__builtins__ = BUILTINS
-
-    # Set sys.argv and the first path element properly.
-    old_path0 = sys.path[0]
-    sys.argv = [fake_path] + list(args)
+    old_argv = sys.argv
+    old_path = sys.path
 
     try:
+        # Create a module to serve as __main__
+        main_mod = new_module("__main__")
+        sys.modules["__main__"] = main_mod
+        fake_path = main_mod.__file__ = f"<string {source[:20]}>"
+        if package:
+            main_mod.__package__ = package
+        main_mod.__builtins__ = BUILTINS
+
+        # Set sys.argv and sys.path properly. The program can change the list it gets.
+        sys.argv = [fake_path] + list(args)
+        sys.path = list(old_path)
+
         supported_versions, mess = get_supported_versions(IS_PYPY, is_bytecode=False)
         if PYTHON_VERSION_TRIPLE[:2] not in supported_versions:
             raise CannotCompileError(
@@ -342,7 +345,8 @@ def run_python_string(
         sys.modules["__main__"] = old_main_mod
 
         # Restore the old argv and path
-        sys.path[0] = old_path0
+        sys.argv = old_argv
+        sys.path = old_path
 
     sys.exit(rc)
 
-- 
2.43.0


From 5d81d81c3e9fcd98c7c77dab9fdae13f4e979df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:25 +0000
Subject: [PATCH 68/72] fix: apply() without positional or keyword arguments

---
 xpython/stdlib/builtins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xpython/stdlib/builtins.py b/xpython/stdlib/builtins.py
index 64e9dc1..97dbb8a 100644
--- a/xpython/stdlib/builtins.py
+++ b/xpython/stdlib/builtins.py
@@ -53,7 +53,7 @@ def make_compatible_builtins(builtins: dict, target_python: tuple) -> None:
                     )
 
 
-def apply(f: Callable, args=None, kwargs=None) -> Any:
+def apply(f: Callable, args=(), kwargs={}) -> Any:
     """
     Python 1-2.x apply for Python 3.x
     """
-- 
2.43.0


From d2d52ab825e13de4236a6e77a51c555c248b5163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:25 +0000
Subject: [PATCH 69/72] fix: cmp() of equal objects that have no order, and of
 objects whose comparisons are not bools

---
 xpython/stdlib/builtins.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xpython/stdlib/builtins.py b/xpython/stdlib/builtins.py
index 97dbb8a..0916337 100644
--- a/xpython/stdlib/builtins.py
+++ b/xpython/stdlib/builtins.py
@@ -71,7 +71,12 @@ def cmp(x, y) -> int:
     """
     Python 1-2.x cmp (compare) for Python 3.x
     """
-    return (x > y) - (x < y)
+    # Equal things need not be orderable.
+    if x is y or x == y:
+        return 0
+    if x < y:
+        return -1
+    return 1 if x > y else 0
 
 
 numeric_types = (int, float, complex)
-- 
2.43.0


From 21e79c9982b39d22a930a2c157e159903278c1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:25 +0000
Subject: [PATCH 70/72] fix: coerce() converts to the common type

---
 xpython/stdlib/builtins.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/xpython/stdlib/builtins.py b/xpython/stdlib/builtins.py
index 0916337..8d37c8c 100644
--- a/xpython/stdlib/builtins.py
+++ b/xpython/stdlib/builtins.py
@@ -86,12 +86,17 @@ def coerce(x, y) -> tuple:
     """
     Python 1-2.x coerce for Python 3.x
     """
+    if type(x) is type(y):
+        return x, y
     if not isinstance(x, numeric_types):
         raise TypeError("number coercion failed")
     if not isinstance(y, numeric_types):
         raise TypeError("number coercion failed")
-        raise TypeError
-    # Leave unchanged and other operations do the coercion
+    for common_type in (complex, float):
+        if isinstance(x, common_type) or isinstance(y, common_type):
+            return tuple(
+                v if isinstance(v, common_type) else common_type(v) for v in (x, y)
+            )
     return x, y
 
 
-- 
2.43.0


From c87381b1b9bad39ad3eed4a257e8c015a7b6eb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:25 +0000
Subject: [PATCH 71/72] fix: execfile() runs the file, in the namespaces of the
 program

---
 xpython/byteop/byteop.py   | 3 +++
 xpython/stdlib/builtins.py | 6 ++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/xpython/byteop/byteop.py b/xpython/byteop/byteop.py
index 788893e..637a666 100644
--- a/xpython/byteop/byteop.py
+++ b/xpython/byteop/byteop.py
@@ -15,6 +15,7 @@ from xdis.version_info import PYTHON_VERSION_TRIPLE, version_tuple_to_str
 
 from xpython.builtins import build_class, builtin_super
 from xpython.pyobj import Function, Method, copy_module
+from xpython.stdlib.builtins import execfile
 from xpython.vm import PyVM
 
 
@@ -254,6 +255,8 @@ class ByteOpBase(object):
                     init_fn = pos_args[0]
                     if isinstance(init_fn, Function) and init_fn in self.vm.fn2native:
                         pos_args[0] = self.vm.fn2native[init_fn]
+        elif func is execfile and 1 <= len(pos_args) <= 3 and not named_args:
+            self.set_eval_namespaces(pos_args)
         elif func is type and len(pos_args) == 3:
             # Set __module__: for type() the caller would be us.
             namespace = pos_args[2]
diff --git a/xpython/stdlib/builtins.py b/xpython/stdlib/builtins.py
index 8d37c8c..d322570 100644
--- a/xpython/stdlib/builtins.py
+++ b/xpython/stdlib/builtins.py
@@ -100,11 +100,13 @@ def coerce(x, y) -> tuple:
     return x, y
 
 
-def execfile(path: str) -> None:
+def execfile(path: str, globals=None, locals=None) -> None:
     """
     Python 1-2.x execfile for Python 3.x
     """
-    exec(compile(open(path).read()))
+    with open(path) as source_file:
+        code = compile(source_file.read(), path, "exec", dont_inherit=True)
+    exec(code, globals, locals)
 
 
 class OverflowWarning(RuntimeError):
-- 
2.43.0


From 3f24c5c27ecd8e344df99789eff4e662637a09d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:17 +0000
Subject: [PATCH 72/72] fix: show operands and stacks in logs without running
 the program's own code (__repr__, __getattr__)

---
 xpython/byteop/byteop24.py     | 23 ++++-------
 xpython/byteop/byteop311.py    |  3 +-
 xpython/byteop/byteop32.py     |  3 +-
 xpython/byteop/byteop36.py     | 12 ++----
 xpython/byteop/byteop37pypy.py |  9 +++--
 xpython/show.py                | 74 ++++++++++++++++++++++++++++++++++
 xpython/vm.py                  | 12 ++----
 7 files changed, 98 insertions(+), 38 deletions(-)
 create mode 100644 xpython/show.py

diff --git a/xpython/byteop/byteop24.py b/xpython/byteop/byteop24.py
index 1663481..1fb6052 100644
--- a/xpython/byteop/byteop24.py
+++ b/xpython/byteop/byteop24.py
@@ -19,6 +19,7 @@ from xpython.byteop.byteop import (
 )
 from xpython.builtins import wrap_special_methods
 from xpython.pyobj import Function, Traceback, traceback_from_frame
+from xpython.show import callee_name
 from xpython.vm import PyVM
 from xpython.vmtrace import PyVMEVENT_RETURN, PyVMEVENT_YIELD
 
@@ -46,11 +47,11 @@ def get_cell_name(vm, i: int):
 
 
 def fmt_store_deref(vm, _, repr=repr):
-    return f" ({vm.top})"
+    return f" ({repr(vm.top)})"
 
 
 def fmt_load_deref(vm, int_arg, repr=repr):
-    return f" ({vm.frame.cells[get_cell_name(vm, int_arg)].get()})"
+    return f" ({repr(vm.frame.cells[get_cell_name(vm, int_arg)].get())})"
 
 
 def fmt_call_function(vm, argc: int, repr=repr):
@@ -58,26 +59,16 @@ def fmt_call_function(vm, argc: int, repr=repr):
     returns the name of the function from the code object in the stack
     """
     name_default, pos_args = divmod(argc, 256)
-    code = vm.peek(name_default + pos_args + 1)
-    for attr in ("co_name", "func_name", "__name__"):
-        if hasattr(code, attr):
-            return f" ({getattr(code, attr)})"
-
-    # Nothing found.
-    return ""
+    name = callee_name(vm.peek(name_default + pos_args + 1))
+    return f" ({name})" if name else ""
 
 
 def fmt_make_function(vm, _=None, repr=repr):
     """
     returns the name of the function from the code object in the stack
     """
-    TOS = vm.top
-    for attr in ("co_name", "func_name", "__name__"):
-        if hasattr(TOS, attr):
-            return f" ({getattr(TOS, attr)})"
-
-    # Nothing found.
-    return ""
+    name = callee_name(vm.top)
+    return f" ({name})" if name else ""
 
 class Traceback24(Traceback):
     """
diff --git a/xpython/byteop/byteop311.py b/xpython/byteop/byteop311.py
index d17e8f9..25ed086 100644
--- a/xpython/byteop/byteop311.py
+++ b/xpython/byteop/byteop311.py
@@ -22,6 +22,7 @@ from xpython.byteop.byteop36 import (
 from xpython.byteop.byteop37 import NULL
 from xpython.byteop.byteop310 import ByteOp310
 from xpython.pyobj import Cell, Function
+from xpython.show import callee_name
 
 log = logging.getLogger(__name__)
 
@@ -38,7 +39,7 @@ def fmt_make_function(vm, _=None, repr_fn=repr) -> str:
     returns the name of the function from the code object in the stack
     """
     fn_item = vm.top
-    name = fn_item.co_name
+    name = callee_name(fn_item)
     return f" ({name})"
 
 
diff --git a/xpython/byteop/byteop32.py b/xpython/byteop/byteop32.py
index 3d707f0..8fe967d 100644
--- a/xpython/byteop/byteop32.py
+++ b/xpython/byteop/byteop32.py
@@ -6,6 +6,7 @@ import inspect
 from xpython.byteop.byteop24 import ByteOp24, Version_info
 from xpython.byteop.byteop27 import ByteOp27
 from xpython.pyobj import Cell, Function
+from xpython.show import callee_name
 
 # Gone since 3.0
 
@@ -22,7 +23,7 @@ def fmt_make_function(vm, arg=None, repr_fn=repr):
     # Gotta love Python for stuff like this.
     fn_index = 1 if vm.version >= (3, 2) else 2
     fn_item = vm.peek(fn_index)
-    name = fn_item if isinstance(fn_item, str) else fn_item.co_name
+    name = callee_name(fn_item)
     return f" ({name})"
 
 
diff --git a/xpython/byteop/byteop36.py b/xpython/byteop/byteop36.py
index ebb4720..e0d6760 100644
--- a/xpython/byteop/byteop36.py
+++ b/xpython/byteop/byteop36.py
@@ -12,6 +12,7 @@ from xdis.version_info import PYTHON_VERSION_TRIPLE
 from xpython.byteop.byteop24 import ByteOp24, Version_info
 from xpython.byteop.byteop35 import ByteOp35
 from xpython.pyobj import Function
+from xpython.show import callee_name
 
 # Gone in 3.6
 
@@ -45,14 +46,9 @@ def fmt_call_function(vm, argc: int, repr_fn=repr) -> str:
     returns the name of the function from the code object in the stack
     """
     name_default, pos_args = divmod(argc, 256)
-    TOS = vm.peek(pos_args + 1)
     # FIXME: give info on pos_args. Right now this is okay only for pos_args == 0
-    for attr in ("co_name", "func_name", "__name__"):
-        if hasattr(TOS, attr):
-            return f" ({getattr(TOS, attr)})"
-
-    # Nothing found.
-    return ""
+    name = callee_name(vm.peek(pos_args + 1))
+    return f" ({name})" if name else ""
 
 
 def fmt_call_function_kw(vm, argc, repr=repr) -> str:
@@ -61,7 +57,7 @@ def fmt_call_function_kw(vm, argc, repr=repr) -> str:
     """
     namedargs_tup = vm.top
     func = vm.peek(argc + 2)
-    return f" (keyword: {namedargs_tup}, function: {func})"
+    return f" (keyword: {repr(namedargs_tup)}, function: {repr(func)})"
 
 
 # pylint: disable=too-many-public-methods
diff --git a/xpython/byteop/byteop37pypy.py b/xpython/byteop/byteop37pypy.py
index d3930ea..eb7a0c4 100644
--- a/xpython/byteop/byteop37pypy.py
+++ b/xpython/byteop/byteop37pypy.py
@@ -7,6 +7,7 @@
 """
 from xpython.byteop.byteop37 import ByteOp37
 from xpython.byteop.byteoppypy import ByteOpPyPy
+from xpython.show import callee_name
 
 
 def fmt_call_method(vm, argc: int, repr_fn=repr) -> str:
@@ -15,7 +16,7 @@ def fmt_call_method(vm, argc: int, repr_fn=repr) -> str:
     """
     pos_args = [vm.peek(i + 1) for i in range(argc)]
 
-    fn_name = vm.peek(argc + 2).__name__
+    fn_name = callee_name(vm.peek(argc + 2))
     return f""" {fn_name}({", ".join((repr_fn(a) for a in pos_args))})"""
 
 
@@ -27,15 +28,15 @@ def fmt_call_method_kw(vm, argc: int, repr=repr) -> str:
     kwargs_count = len(kwarg_names)
     kwargs_list = []
     for i in range(kwargs_count):
-        kwargs_list.append(f"{kwarg_names[i]}={vm.peek(i+1)}")
+        kwargs_list.append(f"{kwarg_names[i]}={repr(vm.peek(i+1))}")
 
     pos_args = []
     j = kwargs_count + 2
     for i in range(argc - kwargs_count):
         pos_args.append(vm.peek(i + j))
 
-    fn_name = vm.peek(argc + 3).__name__
-    return f""" {fn_name}({", ".join((repr(a) for a in pos_args + kwargs_list))})"""
+    fn_name = callee_name(vm.peek(argc + 3))
+    return f""" {fn_name}({", ".join([repr(a) for a in pos_args] + kwargs_list)})"""
 
 
 class ByteOp37PyPy(ByteOp37, ByteOpPyPy):
diff --git a/xpython/show.py b/xpython/show.py
new file mode 100644
index 0000000..73b44f4
--- /dev/null
+++ b/xpython/show.py
@@ -0,0 +1,74 @@
+"""Showing the objects of the interpreted program, without running any of its code.
+
+The program's own __repr__(), __getattr__() and the like could have side
+effects, and the interpreter would show their instructions too, in turn.
+"""
+import types
+
+from xdis.codetype.base import CodeBase
+
+from xpython.pyobj import Function, Method
+
+ATOMS = frozenset(
+    (
+        int, float, complex, bool, str, bytes, bytearray, range,
+        type(None), type(Ellipsis), type(NotImplemented),
+        types.FunctionType, types.BuiltinFunctionType, types.CodeType,
+        Function,
+    )
+)  # fmt: skip
+
+CONTAINERS = {tuple: "(%s)", list: "[%s]", set: "{%s}", frozenset: "frozenset({%s})"}
+
+MAX_DEPTH = 4
+MAX_ELEMENTS = 20
+
+
+def safe_repr(obj, depth=0) -> str:
+    """What repr() shows, or the type and address of an object that has its own __repr__()."""
+    kind = type(obj)
+    if type(kind) is not type:
+        # Do not even compare the class: that could run code of its metaclass.
+        return object.__repr__(obj)
+    if kind in ATOMS:
+        return repr(obj)
+    if issubclass(kind, type):
+        return type.__repr__(obj)
+    if kind is Method:
+        return f"<Method {callee_name(obj)}>"
+    if kind in CONTAINERS or kind is dict:
+        if depth == MAX_DEPTH:
+            return "..."
+        shown = []
+        for item in list(obj.items() if kind is dict else obj)[:MAX_ELEMENTS]:
+            if kind is dict:
+                item = ": ".join(safe_repr(x, depth + 1) for x in item)
+            else:
+                item = safe_repr(item, depth + 1)
+            shown.append(item)
+        if len(obj) > MAX_ELEMENTS:
+            shown.append("...")
+        elif kind is tuple and len(obj) == 1:
+            shown.append("")
+        return CONTAINERS.get(kind, "{%s}") % ", ".join(shown).rstrip(" ")
+    return object.__repr__(obj)
+
+
+def callee_name(obj) -> str:
+    """The name of a function, method, class or code object, or a name itself; the empty string for any other object."""
+    kind = type(obj)
+    if kind is str:
+        return obj
+    if kind is Function:
+        return obj.func_name
+    if kind is Method:
+        return callee_name(obj.im_func)
+    if kind is types.FunctionType or kind is types.BuiltinFunctionType:
+        return obj.__name__
+    if kind is types.MethodType:
+        return callee_name(obj.__func__)
+    if kind is types.CodeType or issubclass(kind, CodeBase):
+        return obj.co_name
+    if issubclass(kind, type):
+        return type.__dict__["__name__"].__get__(obj)
+    return ""
diff --git a/xpython/vm.py b/xpython/vm.py
index 8eb47a7..c38aa2b 100644
--- a/xpython/vm.py
+++ b/xpython/vm.py
@@ -24,6 +24,7 @@ from xdis.version_info import PythonImplementation
 
 from xpython.byteop import get_byteop
 from xpython.pyobj import Block, Frame, line_starts
+from xpython.show import safe_repr
 
 log = logging.getLogger(__name__)
 
@@ -108,10 +109,9 @@ def format_instruction(
 
     if vm and bytecode_name in vm.byteop.stack_fmt:
         try:
-            stack_args = vm.byteop.stack_fmt[bytecode_name](vm, int_arg, repr)
+            stack_args = vm.byteop.stack_fmt[bytecode_name](vm, int_arg, safe_repr)
         except Exception:
-            # In the presence of exceptions the operands might already be gone,
-            # or the program's own __repr__() might fail.
+            # In the presence of exceptions the operands might already be gone.
             stack_args = " (?)"
     else:
         stack_args = ""
@@ -662,11 +662,7 @@ class PyVM(object):
         )
         indent = "    " * (len(self.frames) - 1)
         if log.isEnabledFor(logging.DEBUG):
-            try:
-                stack_rep = repr(self.frame.stack)
-            except Exception:
-                # The program's own __repr__() failed.
-                stack_rep = "(?)"
+            stack_rep = safe_repr(self.frame.stack)
             block_stack_rep = repr(self.frame.block_stack)
 
             log.debug(f"  {indent}frame.stack: {stack_rep}")
-- 
2.43.0

