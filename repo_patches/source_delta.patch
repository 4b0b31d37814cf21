From 1f75f8f279144a9d44cd8a22951f2a9a5768b956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 01/70] fix: copy constructor and wrapper registry of classes
 held by a smart pointer

---
 pybindgen/cppclass.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 9364adc..62932e6 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -1809,6 +1809,15 @@ public:
             return self.parent._get_wrapper_registry()
     wrapper_registry = property(_get_wrapper_registry)
 
+    def get_wrapper_registry_key(self, obj_expr):
+        """
+        Returns the (raw pointer) expression that identifies in the
+        wrapper registry the instance held by the `obj' slot `obj_expr'.
+        """
+        if self.memory_policy is not None:
+            return self.memory_policy.get_pointer_to_void_name(obj_expr)
+        return obj_expr
+
     def generate_forward_declarations(self, code_sink, module):
         """
         Generates forward declarations for the instance and type
@@ -2302,12 +2311,13 @@ static PyObject*\n%s(%s *self, PyObject *PYBINDGEN_UNUSED(_args))
 
         py_copy = declarations.declare_variable("%s*" % self.pystruct, "py_copy")
         self.write_allocate_pystruct(code_block, py_copy)
-        code_block.write_code("%s->obj = new %s(*self->obj);" % (py_copy, construct_name))
+        self.write_create_instance(code_block, "%s->obj" % py_copy, "*self->obj", construct_name)
         if self.allow_subclassing:
             code_block.write_code("%s->inst_dict = NULL;" % py_copy)
         code_block.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % py_copy)
 
-        self.wrapper_registry.write_register_new_wrapper(code_block, py_copy, "%s->obj" % py_copy)
+        self.wrapper_registry.write_register_new_wrapper(code_block, py_copy,
+                                                         self.get_wrapper_registry_key("%s->obj" % py_copy))
 
         code_block.write_code("return (PyObject*) %s;" % py_copy)
 
@@ -3026,7 +3036,7 @@ class CppClassParameter(CppClassParameterBase):
                                              "%s->obj" % self.py_name,
                                              self.value)
         self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, self.py_name,
-                                                                   "%s->obj" % self.py_name)
+                                                                   self.cpp_class.get_wrapper_registry_key("%s->obj" % self.py_name))
         self.cpp_class.write_post_instance_creation_code(wrapper.before_call,
                                                          "%s->obj" % self.py_name,
                                                          self.value)
@@ -3140,7 +3150,7 @@ class CppClassRefParameter(CppClassParameterBase):
                                                  "%s->obj" % self.py_name,
                                                  '')
             self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, self.py_name,
-                                                                       "%s->obj" % self.py_name)
+                                                                       self.cpp_class.get_wrapper_registry_key("%s->obj" % self.py_name))
             self.cpp_class.write_post_instance_creation_code(wrapper.before_call,
                                                              "%s->obj" % self.py_name,
                                                              '')
@@ -3183,7 +3193,7 @@ class CppClassRefParameter(CppClassParameterBase):
                                                  "%s->obj" % self.py_name,
                                                  self.value)
             self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, self.py_name,
-                                                                       "%s->obj" % self.py_name)
+                                                                       self.cpp_class.get_wrapper_registry_key("%s->obj" % self.py_name))
             self.cpp_class.write_post_instance_creation_code(wrapper.before_call,
                                                              "%s->obj" % self.py_name,
                                                              self.value)
@@ -3218,7 +3228,7 @@ class CppClassRefParameter(CppClassParameterBase):
                                                      "%s->obj" % self.py_name,
                                                      self.value)
                 self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.after_call, self.py_name,
-                                                                           "%s->obj" % self.py_name)
+                                                                           self.cpp_class.get_wrapper_registry_key("%s->obj" % self.py_name))
                 self.cpp_class.write_post_instance_creation_code(wrapper.after_call,
                                                                  "%s->obj" % self.py_name,
                                                                  self.value)
@@ -3265,7 +3275,7 @@ class CppClassReturnValue(CppClassReturnValueBase):
                                              "%s->obj" % py_name,
                                              self.value)
         self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.after_call, py_name,
-                                                                   "%s->obj" % py_name)
+                                                                   self.cpp_class.get_wrapper_registry_key("%s->obj" % py_name))
         self.cpp_class.write_post_instance_creation_code(wrapper.after_call,
                                                          "%s->obj" % py_name,
                                                          self.value)
@@ -3343,7 +3353,7 @@ class CppClassRefReturnValue(CppClassReturnValueBase):
                                                  "%s->obj" % py_name,
                                                  self.value)
             self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.after_call, py_name,
-                                                                       "%s->obj" % py_name)
+                                                                       self.cpp_class.get_wrapper_registry_key("%s->obj" % py_name))
             self.cpp_class.write_post_instance_creation_code(wrapper.after_call,
                                                              "%s->obj" % py_name,
                                                              self.value)
-- 
2.43.0


From 4d6c4f23b305bb670ecab1c01600b2c693499468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:44 +0000
Subject: [PATCH 02/70] fix: free-function and reference-counting policies must
 not release objects the wrapper does not own

---
 pybindgen/cppclass.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 62932e6..0c6ec92 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -183,7 +183,9 @@ class ReferenceCountingMethodsPolicy(ReferenceCountingPolicy):
         delete_code = ("if (self->obj) {\n"
                        "    %s *tmp = self->obj;\n"
                        "    self->obj = NULL;\n"
-                       "    tmp->%s();\n"
+                       "    if (!(self->flags&PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED)) {\n"
+                       "        tmp->%s();\n"
+                       "    }\n"
                        "}"
                        % (cpp_class.full_name, self.decref_method))
         return delete_code
@@ -210,7 +212,9 @@ class ReferenceCountingFunctionsPolicy(ReferenceCountingPolicy):
         delete_code = ("if (self->obj) {\n"
                        "    %s *tmp = self->obj;\n"
                        "    self->obj = NULL;\n"
-                       "    %s(tmp);\n"
+                       "    if (!(self->flags&PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED)) {\n"
+                       "        %s(tmp);\n"
+                       "    }\n"
                        "}"
                        % (cpp_class.full_name, self.decref_function))
         return delete_code
@@ -229,7 +233,9 @@ class FreeFunctionPolicy(MemoryPolicy):
         delete_code = ("if (self->obj) {\n"
                        "    %s *tmp = self->obj;\n"
                        "    self->obj = NULL;\n"
-                       "    %s(tmp);\n"
+                       "    if (!(self->flags&PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED)) {\n"
+                       "        %s(tmp);\n"
+                       "    }\n"
                        "}"
                        % (cpp_class.full_name, self.free_function))
         return delete_code
-- 
2.43.0


From 766ca485fc7f2d7dd3f5cc45bc975fe694e2c94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:40 +0000
Subject: [PATCH 03/70] fix: a Python subclass instance owned by C++ must not
 be destroyed by Python when C++ returns it without ownership

---
 pybindgen/cppclass.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 0c6ec92..6c3ee70 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2494,7 +2494,8 @@ static void
             else:
                 peekref_code = " && self->obj->%s() == 1" % self.memory_policy.peekref_method
             visit_self = '''
-    if (self->obj && typeid(*self->obj).name() == typeid(%s).name() %s)
+    if (self->obj && !(self->flags&PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED)
+        && typeid(*self->obj).name() == typeid(%s).name() %s)
         Py_VISIT((PyObject *) self);
 ''' % (self.helper_class.name, peekref_code)
 
@@ -2850,6 +2851,14 @@ def common_shared_object_return(value, py_name, cpp_class, code_block,
             % (py_name, cpp_class.pystruct,
                cpp_class.helper_class.name, const_cast_value))
 
+        if not isinstance(cpp_class.memory_policy, ReferenceCountingPolicy):
+            if caller_owns_return:
+                code_block.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % py_name)
+            else:
+                # ownership of the object had been transferred to C++, and there it remains
+                code_block.write_code("if (%s->obj == NULL)\n"
+                                      "    %s->flags = PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED;" % (py_name, py_name))
+
         code_block.write_code("%s->obj = %s;" % (py_name, const_cast_value))
 
         # We are already referencing the existing python wrapper,
-- 
2.43.0


From b5ac2cf175710c783d5dcd67151c8e4a748020d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:03 +0000
Subject: [PATCH 04/70] fix: a wrapper found in the registry takes over the
 ownership a function returns

---
 pybindgen/cppclass.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 6c3ee70..144077b 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2793,6 +2793,21 @@ def common_shared_object_return(value, py_name, cpp_class, code_block,
 
     ## closes def write_create_new_wrapper():
 
+    def write_adopt_object():
+        """Code path that gives the returned ownership to an existing wrapper"""
+        if isinstance(cpp_class.memory_policy, ReferenceCountingPolicy):
+            code_block.write_code("if (%s->flags&PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED) {" % py_name)
+            code_block.indent()
+            code_block.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % py_name)
+            code_block.unindent()
+            code_block.write_code("} else {")
+            code_block.indent()
+            cpp_class.memory_policy.write_decref(code_block, value_ptr)
+            code_block.unindent()
+            code_block.write_code("}")
+        elif not isinstance(cpp_class.memory_policy, SmartPointerPolicy):
+            code_block.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % py_name)
+
     if cpp_class.helper_class is None:
         try:
             if cpp_class.memory_policy is not None:
@@ -2823,11 +2838,10 @@ def common_shared_object_return(value, py_name, cpp_class, code_block,
 
             # If we are already referencing the existing python wrapper,
             # we do not need a reference to the C++ object as well.
-            if caller_owns_return and \
-                    isinstance(cpp_class.memory_policy, ReferenceCountingPolicy):
+            if caller_owns_return:
                 code_block.write_code("} else {")
                 code_block.indent()
-                cpp_class.memory_policy.write_decref(code_block, value_ptr)
+                write_adopt_object()
                 code_block.unindent()
                 code_block.write_code("}")
             else:
@@ -2900,13 +2914,12 @@ def common_shared_object_return(value, py_name, cpp_class, code_block,
             code_block.unindent()
 
             # handle ownership rules...
-            if caller_owns_return and \
-                    isinstance(cpp_class.memory_policy, ReferenceCountingPolicy):
+            if caller_owns_return:
                 code_block.write_code("} else {")
                 code_block.indent()
                 # If we are already referencing the existing python wrapper,
                 # we do not need a reference to the C++ object as well.
-                cpp_class.memory_policy.write_decref(code_block, value_ptr)
+                write_adopt_object()
                 code_block.unindent()
                 code_block.write_code("}")
             else:
-- 
2.43.0


From 629385e306a500a80089ec8df3e41bf58db7cb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:10 +0000
Subject: [PATCH 05/70] fix: wrapper registry must know constructed objects and
 forget those given up by the garbage collector

---
 pybindgen/cppclass.py  | 8 +++++++-
 pybindgen/cppmethod.py | 8 ++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 144077b..476e895 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2473,6 +2473,12 @@ static PyObject*\n%s(%s *self, PyObject *PYBINDGEN_UNUSED(_args))
         tp_clear_function_name = "%s__tp_clear" % (self.pystruct,)
         self.slots.setdefault("tp_clear", tp_clear_function_name )
         delete_code = self._get_delete_code()
+        ## tp_clear gives up the C++ object: the registry must forget the wrapper, as in tp_dealloc
+        unregister_block = CodeBlock("return;", DeclarationsScope())
+        self.wrapper_registry.write_unregister_wrapper(unregister_block, 'self',
+                                                       self.get_wrapper_registry_key('self->obj'))
+        unregister_code = (unregister_block.declarations.get_code_sink().flush()
+                           + unregister_block.sink.flush())
         code_sink.writeln(r'''
 static void
 %s(%s *self)
@@ -2480,7 +2486,7 @@ static void
     Py_CLEAR(self->inst_dict);
     %s
 }
-''' % (tp_clear_function_name, self.pystruct, delete_code))
+''' % (tp_clear_function_name, self.pystruct, unregister_code + delete_code))
 
         ## --- tp_traverse ---
         tp_traverse_function_name = "%s__tp_traverse" % (self.pystruct,)
diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 06263fa..9975a8b 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -655,6 +655,8 @@ class CppConstructor(ForwardWrapperBase):
             class_.write_create_instance(self.before_call, "self->obj", ", ".join(self.call_params))
             class_.write_post_instance_creation_code(self.before_call, "self->obj", ", ".join(self.call_params))
             self.before_call.write_code("self->flags = PYBINDGEN_WRAPPER_FLAG_NONE;")
+            class_.wrapper_registry.write_register_new_wrapper(self.before_call, "self",
+                                                               class_.get_wrapper_registry_key("self->obj"))
         else:
             ## We should only create a helper class instance when
             ## being called from a user python subclass.
@@ -669,6 +671,8 @@ class CppConstructor(ForwardWrapperBase):
                                         % class_.helper_class.name)
             class_.write_post_instance_creation_code(self.before_call, "self->obj", ", ".join(self.call_params),
                                                      class_.helper_class.name)
+            class_.wrapper_registry.write_register_new_wrapper(self.before_call, "self",
+                                                               class_.get_wrapper_registry_key("self->obj"))
 
             self.before_call.unindent()
             self.before_call.write_code("} else {")
@@ -687,6 +691,8 @@ class CppConstructor(ForwardWrapperBase):
                 class_.write_create_instance(self.before_call, "self->obj", ", ".join(self.call_params))
                 self.before_call.write_code("self->flags = PYBINDGEN_WRAPPER_FLAG_NONE;")
                 class_.write_post_instance_creation_code(self.before_call, "self->obj", ", ".join(self.call_params))
+                class_.wrapper_registry.write_register_new_wrapper(self.before_call, "self",
+                                                                   class_.get_wrapper_registry_key("self->obj"))
 
             self.before_call.unindent()
             self.before_call.write_code("}")
@@ -819,6 +825,8 @@ class CppFunctionAsConstructor(CppConstructor):
         self.before_call.write_code("self->obj = %s(%s);" %
                                     (self.c_function_name, ", ".join(self.call_params)))
         self.before_call.write_code("self->flags = PYBINDGEN_WRAPPER_FLAG_NONE;")
+        class_.wrapper_registry.write_register_new_wrapper(self.before_call, "self",
+                                                           class_.get_wrapper_registry_key("self->obj"))
 
 
 class CppOverloadedConstructor(overloading.OverloadedWrapper):
-- 
2.43.0


From d345b241f3cb98cad567f1bf2d4ecc7dd963b298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 06/70] fix: untrack a wrapper before tp_dealloc releases what
 it holds

---
 pybindgen/cppclass.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 476e895..b438635 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2585,6 +2585,9 @@ static void
 
         code_block = CodeBlock("PyErr_Print(); return;", DeclarationsScope())
 
+        if self.allow_subclassing:
+            code_block.write_code("PyObject_GC_UnTrack((PyObject *) self);")
+
         if self.memory_policy is not None:
             self.wrapper_registry.write_unregister_wrapper(code_block, 'self', self.memory_policy.get_pointer_to_void_name('self->obj'))
         else:
-- 
2.43.0


From ede18d0e07499036a5a6f2aca7ec088144f83e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 07/70] fix: garbage collection of Python subclasses of
 reference counted classes when the reference count is not known

---
 pybindgen/cppclass.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index b438635..bcd44ee 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2495,11 +2495,17 @@ static void
         if self.helper_class is None:
             visit_self = ''
         else:
-            if not isinstance(self.memory_policy, ReferenceCountingMethodsPolicy) or self.memory_policy.peekref_method is None:
-                peekref_code = ''
-            else:
+            visit_self_ok = True
+            if isinstance(self.memory_policy, ReferenceCountingMethodsPolicy) and self.memory_policy.peekref_method is not None:
                 peekref_code = " && self->obj->%s() == 1" % self.memory_policy.peekref_method
-            visit_self = '''
+            elif isinstance(self.memory_policy, ReferenceCountingFunctionsPolicy) and self.memory_policy.peekref_function is not None:
+                peekref_code = " && %s(self->obj) == 1" % self.memory_policy.peekref_function
+            else:
+                peekref_code = ''
+                ## without knowing the reference count, we cannot tell
+                ## whether C++ code still needs the python instance
+                visit_self_ok = not isinstance(self.memory_policy, ReferenceCountingPolicy)
+            visit_self = '' if not visit_self_ok else '''
     if (self->obj && !(self->flags&PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED)
         && typeid(*self->obj).name() == typeid(%s).name() %s)
         Py_VISIT((PyObject *) self);
-- 
2.43.0


From d1f3bc0e386f90efb36ad1ec0ab5e6245458b5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 08/70] fix: wrappers created for returned objects take part in
 garbage collection

---
 pybindgen/cppclass.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index bcd44ee..0e0d173 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2694,6 +2694,12 @@ if (!PyObject_IsInstance((PyObject*) other, (PyObject*) &%s)) {
                 "%s->inst_dict = NULL;" % (lvalue,))
         if self.memory_policy is not None:
             code_block.write_code(self.memory_policy.get_pystruct_init_code(self, lvalue))
+        if self.allow_subclassing:
+            ## from here on the garbage collector may visit the wrapper
+            if not isinstance(self.memory_policy, SmartPointerPolicy):
+                code_block.write_code("%s->obj = NULL;" % (lvalue,))
+            code_block.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % (lvalue,))
+            code_block.write_code("PyObject_GC_Track((PyObject *) %s);" % (lvalue,))
 
 
 # from pybindgen.cppclass_typehandlers import CppClassParameter, CppClassRefParameter, \
-- 
2.43.0


From 56ace3bde467b996d92ba08b8887326d87eb7f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:51 +0000
Subject: [PATCH 09/70] fix: errors raised while converting an argument or
 result to bool are not ignored

---
 pybindgen/typehandlers/booltype.py | 38 ++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/pybindgen/typehandlers/booltype.py b/pybindgen/typehandlers/booltype.py
index 5fadd2d..b0606c9 100644
--- a/pybindgen/typehandlers/booltype.py
+++ b/pybindgen/typehandlers/booltype.py
@@ -5,6 +5,24 @@ from .base import ReturnValue, Parameter, \
      ReverseWrapperBase, ForwardWrapperBase
 
 
+def _convert_truth_value(wrapper, code_block, target, py_name, condition=None):
+    """
+    Stores in `target` the truth value of `py_name`, or fails with the
+    exception that asking for the truth value raised.  If `condition`
+    is given, nothing is done unless it holds.
+    """
+    truth = wrapper.declarations.declare_variable('int', 'truth_value')
+    if condition is not None:
+        code_block.write_code("if (%s) {" % condition)
+        code_block.indent()
+    code_block.write_code("%s = PyObject_IsTrue(%s);" % (truth, py_name))
+    code_block.write_error_check("%s < 0" % truth)
+    code_block.write_code("%s = (%s != 0);" % (target, truth))
+    if condition is not None:
+        code_block.unindent()
+        code_block.write_code("}")
+
+
 class BoolParam(Parameter):
 
     DIRECTIONS = [Parameter.DIRECTION_IN]
@@ -23,9 +41,10 @@ class BoolParam(Parameter):
             py_name = wrapper.declarations.declare_variable('PyObject *', 'py_'+self.name, 'NULL')
         wrapper.parse_params.add_parameter('O', ['&'+py_name], self.value, optional=(self.default_value is not None))
         if self.default_value:
-            wrapper.before_call.write_code("%s = %s? (bool) PyObject_IsTrue(%s) : %s;" % (name, py_name, py_name, self.default_value))
+            wrapper.before_call.write_code("%s = %s;" % (name, self.default_value))
+            _convert_truth_value(wrapper, wrapper.before_call, name, py_name, condition=py_name)
         else:
-            wrapper.before_call.write_code("%s = (bool) PyObject_IsTrue(%s);" % (name, py_name))
+            _convert_truth_value(wrapper, wrapper.before_call, name, py_name)
         wrapper.call_params.append(name)
 
 
@@ -39,8 +58,7 @@ class BoolReturn(ReturnValue):
     def convert_python_to_c(self, wrapper):
         py_name = wrapper.declarations.declare_variable('PyObject *', 'py_boolretval')
         wrapper.parse_params.add_parameter("O", ["&"+py_name], prepend=True)
-        wrapper.after_call.write_code(
-            "%s = PyObject_IsTrue(%s);" % (self.value, py_name))
+        _convert_truth_value(wrapper, wrapper.after_call, self.value, py_name)
 
     def convert_c_to_python(self, wrapper):
         wrapper.build_params.add_parameter(
@@ -61,8 +79,7 @@ class BoolPtrParam(Parameter):
             py_name = wrapper.declarations.declare_variable(
                 'PyObject *', 'py_'+self.name)
             wrapper.parse_params.add_parameter("O", ["&"+py_name], self.value)
-            wrapper.after_call.write_code(
-                "*%s = PyObject_IsTrue(%s);" % (self.value, py_name,))
+            _convert_truth_value(wrapper, wrapper.after_call, '*' + self.value, py_name)
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'bool*'
@@ -72,8 +89,7 @@ class BoolPtrParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             py_name = wrapper.declarations.declare_variable("PyObject*", 'py_'+self.name)
             wrapper.parse_params.add_parameter("O", ["&"+py_name], self.value)
-            wrapper.before_call.write_code(
-                "%s = PyObject_IsTrue(%s);" % (name, py_name,))
+            _convert_truth_value(wrapper, wrapper.before_call, name, py_name)
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter(
                 'N', ["PyBool_FromLong(%s)" % name])
@@ -93,8 +109,7 @@ class BoolRefParam(Parameter):
             py_name = wrapper.declarations.declare_variable(
                 'PyObject *', 'py_'+self.name)
             wrapper.parse_params.add_parameter("O", ["&"+py_name], self.name)
-            wrapper.after_call.write_code(
-                "%s = PyObject_IsTrue(%s);" % (self.value, py_name,))
+            _convert_truth_value(wrapper, wrapper.after_call, self.value, py_name)
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'bool&'
@@ -103,8 +118,7 @@ class BoolRefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             py_name = wrapper.declarations.declare_variable("PyObject*", 'py_'+self.name)
             wrapper.parse_params.add_parameter("O", ["&"+py_name], self.value)
-            wrapper.before_call.write_code(
-                "%s = PyObject_IsTrue(%s);" % (name, py_name,))
+            _convert_truth_value(wrapper, wrapper.before_call, name, py_name)
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter(
                 'N', ["PyBool_FromLong(%s)" % (name,)])
-- 
2.43.0


From a1068fb120e0728a424f1b7862079161cbeee043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:51 +0000
Subject: [PATCH 10/70] fix: a function added as method without custom name is
 called by its own name

---
 pybindgen/cppclass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 0e0d173..efc6d1f 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -1439,7 +1439,7 @@ public:
         if isinstance(method, CppMethod):
             name = method.mangled_name
         elif isinstance(method, function.Function):
-            name = method.custom_name
+            name = method.mangled_name
             assert isinstance(method.parameters[0], CppClassParameterBase)
             assert method.parameters[0].cpp_class is self, \
                 "expected first parameter to be of class %s, but it is of class %s" % \
-- 
2.43.0


From 12a73c08bbd2d631eae4f32a30cfd7ea6c775ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:34 +0000
Subject: [PATCH 11/70] fix: reference parameters set by Python overrides are
 parsed into the variable, not into its value as an address

---
 pybindgen/typehandlers/doubletype.py |  2 +-
 pybindgen/typehandlers/floattype.py  |  2 +-
 pybindgen/typehandlers/inttype.py    | 10 +++++-----
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pybindgen/typehandlers/doubletype.py b/pybindgen/typehandlers/doubletype.py
index 6c589ed..74cc912 100644
--- a/pybindgen/typehandlers/doubletype.py
+++ b/pybindgen/typehandlers/doubletype.py
@@ -68,7 +68,7 @@ class DoubleRefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('d', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("d", [self.value], self.name)
+            wrapper.parse_params.add_parameter("d", ["&"+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'double&'
diff --git a/pybindgen/typehandlers/floattype.py b/pybindgen/typehandlers/floattype.py
index d51711f..dc08df4 100644
--- a/pybindgen/typehandlers/floattype.py
+++ b/pybindgen/typehandlers/floattype.py
@@ -113,7 +113,7 @@ class FloatRefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('f', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("f", [self.value], self.name)
+            wrapper.parse_params.add_parameter("f", ["&"+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'float&'
diff --git a/pybindgen/typehandlers/inttype.py b/pybindgen/typehandlers/inttype.py
index d8f953e..ab0c3bf 100644
--- a/pybindgen/typehandlers/inttype.py
+++ b/pybindgen/typehandlers/inttype.py
@@ -212,7 +212,7 @@ class IntRefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('i', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("i", [self.value], self.name)
+            wrapper.parse_params.add_parameter("i", ["&"+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'int&'
@@ -233,7 +233,7 @@ class UnsignedIntRefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('I', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("I", [self.value], self.name)
+            wrapper.parse_params.add_parameter("I", ["&"+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'int&'
@@ -311,7 +311,7 @@ class UInt16RefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('H', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("H", [self.value], self.name)
+            wrapper.parse_params.add_parameter("H", ["&"+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
         name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
@@ -351,7 +351,7 @@ class Int16RefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('h', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("h", [self.value], self.name)
+            wrapper.parse_params.add_parameter("h", ["&"+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
         name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
@@ -389,7 +389,7 @@ class UInt8RefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('B', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("B", [self.value], self.name)
+            wrapper.parse_params.add_parameter("B", ["&"+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
         name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
-- 
2.43.0


From cc164f7af2235e349d11aa01d603b07fa4c71b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:59 +0000
Subject: [PATCH 12/70] fix: 8 and 16 bit integer arguments and results are
 range checked at both ends

---
 pybindgen/typehandlers/inttype.py | 38 ++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/pybindgen/typehandlers/inttype.py b/pybindgen/typehandlers/inttype.py
index ab0c3bf..50dd546 100644
--- a/pybindgen/typehandlers/inttype.py
+++ b/pybindgen/typehandlers/inttype.py
@@ -256,7 +256,7 @@ class UInt16Return(ReturnValue):
     def convert_python_to_c(self, wrapper):
         tmp_var = wrapper.declarations.declare_variable("int", "tmp")
         wrapper.parse_params.add_parameter("i", ["&"+tmp_var], prepend=True)
-        wrapper.after_call.write_error_check('%s > 0xffff' % tmp_var,
+        wrapper.after_call.write_error_check('%s > 0xffff || %s < 0' % (tmp_var, tmp_var),
                                              'PyErr_SetString(PyExc_ValueError, "Out of range");')
         wrapper.after_call.write_code(
             "%s = %s;" % (self.value, tmp_var))
@@ -295,9 +295,13 @@ class UInt16Param(Parameter):
 
     def convert_python_to_c(self, wrapper):
         assert isinstance(wrapper, ForwardWrapperBase)
-        name = wrapper.declarations.declare_variable("int", self.name, self.default_value)
+        default_value = self.default_value
+        if default_value:
+            # a default value out of range is converted like C++ does
+            default_value = "(%s) (%s)" % (self.ctype_no_const, default_value)
+        name = wrapper.declarations.declare_variable("int", self.name, default_value)
         wrapper.parse_params.add_parameter('i', ['&'+name], self.name, optional=bool(self.default_value))
-        wrapper.before_call.write_error_check('%s > 0xffff' % name,
+        wrapper.before_call.write_error_check('%s > 0xffff || %s < 0' % (name, name),
                                               'PyErr_SetString(PyExc_ValueError, "Out of range");')
         wrapper.call_params.append(name)
 
@@ -334,9 +338,13 @@ class Int16Param(Parameter):
 
     def convert_python_to_c(self, wrapper):
         assert isinstance(wrapper, ForwardWrapperBase)
-        name = wrapper.declarations.declare_variable("int", self.name, self.default_value)
+        default_value = self.default_value
+        if default_value:
+            # a default value out of range is converted like C++ does
+            default_value = "(%s) (%s)" % (self.ctype_no_const, default_value)
+        name = wrapper.declarations.declare_variable("int", self.name, default_value)
         wrapper.parse_params.add_parameter('i', ['&'+name], self.name, optional=bool(self.default_value))
-        wrapper.before_call.write_error_check('%s > 0x7fff' % name,
+        wrapper.before_call.write_error_check('%s > 0x7fff || %s < -0x8000' % (name, name),
                                               'PyErr_SetString(PyExc_ValueError, "Out of range");')
         wrapper.call_params.append(name)
 
@@ -373,9 +381,13 @@ class UInt8Param(Parameter):
 
     def convert_python_to_c(self, wrapper):
         assert isinstance(wrapper, ForwardWrapperBase)
-        name = wrapper.declarations.declare_variable("int", self.name, self.default_value)
+        default_value = self.default_value
+        if default_value:
+            # a default value out of range is converted like C++ does
+            default_value = "(%s) (%s)" % (self.ctype_no_const, default_value)
+        name = wrapper.declarations.declare_variable("int", self.name, default_value)
         wrapper.parse_params.add_parameter('i', ['&'+name], self.name, optional=bool(self.default_value))
-        wrapper.before_call.write_error_check('%s > 0xff' % name,
+        wrapper.before_call.write_error_check('%s > 0xff || %s < 0' % (name, name),
                                               'PyErr_SetString(PyExc_ValueError, "Out of range");')
         wrapper.call_params.append(name)
 
@@ -411,7 +423,7 @@ class UInt8Return(ReturnValue):
     def convert_python_to_c(self, wrapper):
         tmp_var = wrapper.declarations.declare_variable("int", "tmp")
         wrapper.parse_params.add_parameter("i", ["&"+tmp_var], prepend=True)
-        wrapper.after_call.write_error_check('%s > 0xff' % tmp_var,
+        wrapper.after_call.write_error_check('%s > 0xff || %s < 0' % (tmp_var, tmp_var),
                                              'PyErr_SetString(PyExc_ValueError, "Out of range");')
         wrapper.after_call.write_code(
             "%s = %s;" % (self.value, tmp_var))
@@ -430,9 +442,13 @@ class Int8Param(Parameter):
 
     def convert_python_to_c(self, wrapper):
         assert isinstance(wrapper, ForwardWrapperBase)
-        name = wrapper.declarations.declare_variable("int", self.name, self.default_value)
+        default_value = self.default_value
+        if default_value:
+            # a default value out of range is converted like C++ does
+            default_value = "(%s) (%s)" % (self.ctype_no_const, default_value)
+        name = wrapper.declarations.declare_variable("int", self.name, default_value)
         wrapper.parse_params.add_parameter('i', ['&'+name], self.name, optional=bool(self.default_value))
-        wrapper.before_call.write_error_check('%s > 0x7f' % name,
+        wrapper.before_call.write_error_check('%s > 0x7f || %s < -0x80' % (name, name),
                                               'PyErr_SetString(PyExc_ValueError, "Out of range");')
         wrapper.call_params.append(name)
 
@@ -466,7 +482,7 @@ class Int8Return(ReturnValue):
     def convert_python_to_c(self, wrapper):
         tmp_var = wrapper.declarations.declare_variable("int", "tmp")
         wrapper.parse_params.add_parameter("i", ["&"+tmp_var], prepend=True)
-        wrapper.after_call.write_error_check('%s > 128 || %s < -127' % (tmp_var, tmp_var),
+        wrapper.after_call.write_error_check('%s > 127 || %s < -128' % (tmp_var, tmp_var),
                                              'PyErr_SetString(PyExc_ValueError, "Out of range");')
         wrapper.after_call.write_code(
             "%s = %s;" % (self.value, tmp_var))
-- 
2.43.0


From 34b94d63d0722412e6b5f497d57b25162e4aa622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:12 +0000
Subject: [PATCH 13/70] fix: int8_t references and pointers take negative
 values

---
 pybindgen/typehandlers/inttype.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pybindgen/typehandlers/inttype.py b/pybindgen/typehandlers/inttype.py
index 50dd546..6242174 100644
--- a/pybindgen/typehandlers/inttype.py
+++ b/pybindgen/typehandlers/inttype.py
@@ -10,6 +10,18 @@ from .base import ReturnValue, Parameter, PointerParameter, PointerReturnValue,
      ReverseWrapperBase, ForwardWrapperBase, TypeConfigurationError, NotSupportedError
 
 
+def _parse_int8(wrapper, code_block, target, name):
+    """
+    Parses a signed 8 bit integer into `target`; PyArg_ParseTuple has no
+    format for these ('b' takes 0 to 255).
+    """
+    tmp_var = wrapper.declarations.declare_variable("int", name + "_tmp")
+    wrapper.parse_params.add_parameter("i", ["&"+tmp_var], name)
+    code_block.write_error_check('%s > 0x7f || %s < -0x80' % (tmp_var, tmp_var),
+                                 'PyErr_SetString(PyExc_ValueError, "Out of range");')
+    code_block.write_code("%s = %s;" % (target, tmp_var))
+
+
 class IntParam(Parameter):
 
     DIRECTIONS = [Parameter.DIRECTION_IN]
@@ -462,13 +474,13 @@ class Int8RefParam(Parameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('b', [self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("b", [self.value], self.name)
+            _parse_int8(wrapper, wrapper.after_call, self.value, self.name)
 
     def convert_python_to_c(self, wrapper):
         name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
         wrapper.call_params.append(name)
         if self.direction & self.DIRECTION_IN:
-            wrapper.parse_params.add_parameter('b', ['&'+name], self.name)
+            _parse_int8(wrapper, wrapper.before_call, name, self.name)
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter("b", [name])
 
@@ -711,13 +723,13 @@ class Int8PtrParam(PointerParameter):
         if self.direction & self.DIRECTION_IN:
             wrapper.build_params.add_parameter('b', ['*'+self.value])
         if self.direction & self.DIRECTION_OUT:
-            wrapper.parse_params.add_parameter("b", [self.value], self.name)
+            _parse_int8(wrapper, wrapper.after_call, '*' + self.value, self.name)
 
     def convert_python_to_c(self, wrapper):
         name = wrapper.declarations.declare_variable('int8_t', self.name)
         wrapper.call_params.append('&'+name)
         if self.direction & self.DIRECTION_IN:
-            wrapper.parse_params.add_parameter('b', ['&'+name], self.name)
+            _parse_int8(wrapper, wrapper.before_call, name, self.name)
         if self.direction & self.DIRECTION_OUT:
             wrapper.build_params.add_parameter("b", [name])
 
-- 
2.43.0


From cee5959b7423bd679f6a33970bf390c759404519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:12 +0000
Subject: [PATCH 14/70] fix: default values of float parameters

---
 pybindgen/typehandlers/floattype.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybindgen/typehandlers/floattype.py b/pybindgen/typehandlers/floattype.py
index dc08df4..dfed0e9 100644
--- a/pybindgen/typehandlers/floattype.py
+++ b/pybindgen/typehandlers/floattype.py
@@ -17,8 +17,8 @@ class FloatParam(Parameter):
 
     def convert_python_to_c(self, wrapper):
         assert isinstance(wrapper, ForwardWrapperBase)
-        name = wrapper.declarations.declare_variable(self.ctype_no_const, self.name)
-        wrapper.parse_params.add_parameter('f', ['&'+name], self.value)
+        name = wrapper.declarations.declare_variable(self.ctype_no_const, self.name, self.default_value)
+        wrapper.parse_params.add_parameter('f', ['&'+name], self.value, optional=bool(self.default_value))
         wrapper.call_params.append(name)
 
 
-- 
2.43.0


From 52b9c80599d5ca0b7d020d9a2ccfbccb79805534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:38 +0000
Subject: [PATCH 15/70] fix: array input parameters of unsigned int and float

---
 pybindgen/typehandlers/floattype.py | 3 ++-
 pybindgen/typehandlers/inttype.py   | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pybindgen/typehandlers/floattype.py b/pybindgen/typehandlers/floattype.py
index dfed0e9..c3bc04e 100644
--- a/pybindgen/typehandlers/floattype.py
+++ b/pybindgen/typehandlers/floattype.py
@@ -82,10 +82,11 @@ class FloatPtrParam(Parameter):
 
                 wrapper.before_call.write_code("%(elem)s = PyList_GET_ITEM(%(py_list)s, %(idx)s);" % vars())
                 wrapper.before_call.write_error_check(
-                        '!PyFloat_Check(element)',
+                        '!PyNumber_Check(%s)' % elem,
                         'PyErr_SetString(PyExc_TypeError, "Parameter `%s\' must be a list of %i floats");'
                         % (self.name, self.array_length))
                 wrapper.before_call.write_code("%(name)s[%(idx)s] = (float) PyFloat_AsDouble(%(elem)s);" % vars())
+                wrapper.before_call.write_error_check("PyErr_Occurred()")
 
                 wrapper.before_call.unindent()
                 wrapper.before_call.write_code('}')
diff --git a/pybindgen/typehandlers/inttype.py b/pybindgen/typehandlers/inttype.py
index 6242174..65aa195 100644
--- a/pybindgen/typehandlers/inttype.py
+++ b/pybindgen/typehandlers/inttype.py
@@ -103,10 +103,11 @@ class UnsignedIntPtrParam(PointerParameter):
 
                 wrapper.before_call.write_code("%(elem)s = PyList_GET_ITEM(%(py_list)s, %(idx)s);" % vars())
                 wrapper.before_call.write_error_check(
-                        '!PyNumber_Check(%(elem)s)',
+                        '!PyNumber_Check(%s)' % elem,
                         'PyErr_SetString(PyExc_TypeError, "Parameter `%s\' must be a list of %i ints / longs");'
                         % (self.name, self.array_length))
-                wrapper.before_call.write_code("%(name)s[%(idx)s] = PyLong_AsUnsignedInt(%(elem)s);" % vars())
+                wrapper.before_call.write_code("%(name)s[%(idx)s] = (unsigned int) PyLong_AsUnsignedLongMask(%(elem)s);" % vars())
+                wrapper.before_call.write_error_check("PyErr_Occurred()")
 
                 wrapper.before_call.unindent()
                 wrapper.before_call.write_code('}')
-- 
2.43.0


From 2b4f8909743b8c326e633dbd77a908956f1b1586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:51 +0000
Subject: [PATCH 16/70] fix: int pointer parameters that default to NULL

---
 pybindgen/typehandlers/inttype.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/pybindgen/typehandlers/inttype.py b/pybindgen/typehandlers/inttype.py
index 65aa195..dc0e8f8 100644
--- a/pybindgen/typehandlers/inttype.py
+++ b/pybindgen/typehandlers/inttype.py
@@ -178,30 +178,28 @@ class IntPtrParam(PointerParameter):
     def convert_python_to_c(self, wrapper):
         #import sys
         #sys.stderr.write("***************"  +self.default_value + "\n")
-        optional = bool(self.default_value in ['NULL', '0'])
+        optional = bool(self.default_value in ['NULL', '0'] and self.direction & self.DIRECTION_IN)
         if optional:
             name_int = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name+"_int")
             name_obj = wrapper.declarations.declare_variable("PyObject*", self.name+"_obj", "NULL")
             name_ptr = wrapper.declarations.declare_variable(self.ctype_no_const, self.name+"_ptr")
             wrapper.call_params.append(name_ptr)
-            if self.direction & self.DIRECTION_IN:
-                wrapper.parse_params.add_parameter('O', ['&'+name_obj], self.name, optional=True)
-                wrapper.before_call.write_code(
-                    "if (%(name_obj)s) {\n"
-                    "    %(name_int)s = PyInt_AsLong(%(name_obj)s);\n"
-                    "    %(name_ptr)s = &%(name_obj)s;\n"
-                    "} else {\n"
-                    "    %(name_ptr)s = NULL;\n"
-                    "}\n"
-                    % vars())
-                wrapper.before_call.write_error_check("PyErr_Occurred()")
+            wrapper.parse_params.add_parameter('O', ['&'+name_obj], self.name, optional=True)
+            wrapper.before_call.write_code(
+                "if (%(name_obj)s) {\n"
+                "    %(name_ptr)s = &%(name_int)s;\n"
+                "} else {\n"
+                "    %(name_ptr)s = NULL;\n"
+                "}\n"
+                % vars())
+            wrapper.before_call.write_error_check("%s && !PyArg_Parse(%s, (char *) \"i\", &%s)" % (name_obj, name_obj, name_int))
             if self.direction & self.DIRECTION_OUT:
                 wrapper.after_call.write_code(
                     "if (%(name_obj)s) {\n"
                     "    %(name_obj)s = PyInt_FromLong(%(name_int)s);\n"
                     "} else {\n"
                     "    %(name_obj)s = Py_None;\n"
-                    "    Py_INCREC(%(name_obj)s);\n"
+                    "    Py_INCREF(%(name_obj)s);\n"
                     "}\n"
                     % vars())
                 wrapper.build_params.add_parameter("N", [name_obj])
-- 
2.43.0


From 884fa191f1eb4ecfc38ba528f2d4764ff80baf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:37 +0000
Subject: [PATCH 17/70] fix: the return value comes first among several results

---
 pybindgen/container.py               |  2 +-
 pybindgen/cppclass.py                |  6 +++---
 pybindgen/typehandlers/smart_ptr.py  |  2 +-
 pybindgen/typehandlers/stringtype.py | 10 +++++-----
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pybindgen/container.py b/pybindgen/container.py
index a7966db..220469a 100644
--- a/pybindgen/container.py
+++ b/pybindgen/container.py
@@ -866,7 +866,7 @@ class ContainerReturnValue(ContainerReturnValueBase):
             raise NotSupportedError("reference return type not supported")
         retval = wrapper.declarations.declare_variable(self.ctype, 'retval')
         assert retval == 'retval'
-        wrapper.parse_params.add_parameter('O&', [self.container_type.python_to_c_converter, '&'+self.value])
+        wrapper.parse_params.add_parameter('O&', [self.container_type.python_to_c_converter, '&'+self.value], prepend=True)
 
 
 ## end
diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index efc6d1f..d9d3fbd 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3339,7 +3339,7 @@ class CppClassReturnValue(CppClassReturnValueBase):
         name = wrapper.declarations.declare_variable(
             self.cpp_class.pystruct+'*', "tmp_%s" % self.cpp_class.name)
         wrapper.parse_params.add_parameter(
-            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name])
+            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name], prepend=True)
         if self.REQUIRES_ASSIGNMENT_CONSTRUCTOR:
             wrapper.after_call.write_code('%s %s = *%s->obj;' %
                                           (self.cpp_class.full_name, self.value, name))
@@ -3420,7 +3420,7 @@ class CppClassRefReturnValue(CppClassReturnValueBase):
         name = wrapper.declarations.declare_variable(
             self.cpp_class.pystruct+'*', "tmp_%s" % self.cpp_class.name)
         wrapper.parse_params.add_parameter(
-            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name])
+            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name], prepend=True)
         if self.REQUIRES_ASSIGNMENT_CONSTRUCTOR:
             wrapper.after_call.write_code('%s %s = *%s->obj;' %
                                           (self.cpp_class.full_name, self.value, name))
@@ -3855,7 +3855,7 @@ class CppClassPtrReturnValue(CppClassReturnValueBase):
         name = wrapper.declarations.declare_variable(
             self.cpp_class.pystruct+'*', "tmp_%s" % self.cpp_class.name)
         wrapper.parse_params.add_parameter(
-            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name])
+            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name], prepend=True)
 
         value = self.transformation.transform(
             self, wrapper.declarations, wrapper.after_call, "%s->obj" % name)
diff --git a/pybindgen/typehandlers/smart_ptr.py b/pybindgen/typehandlers/smart_ptr.py
index c0e661b..dd57082 100644
--- a/pybindgen/typehandlers/smart_ptr.py
+++ b/pybindgen/typehandlers/smart_ptr.py
@@ -355,7 +355,7 @@ class CppClassSharedPtrReturnValue(CppClassReturnValueBase):
         name = wrapper.declarations.declare_variable(
             self.cpp_class.pystruct+'*', "tmp_%s" % self.cpp_class.name)
         wrapper.parse_params.add_parameter(
-            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name])
+            'O!', ['&'+self.cpp_class.pytypestruct, '&'+name], prepend=True)
 
         value = self.transformation.transform(
             self, wrapper.declarations, wrapper.after_call, "%s->obj" % name)
diff --git a/pybindgen/typehandlers/stringtype.py b/pybindgen/typehandlers/stringtype.py
index d98a42a..b3ff828 100644
--- a/pybindgen/typehandlers/stringtype.py
+++ b/pybindgen/typehandlers/stringtype.py
@@ -202,7 +202,7 @@ class CharReturn(ReturnValue):
         wrapper.parse_params.add_parameter("c", ['&'+self.value], prepend=True)
 
     def convert_c_to_python(self, wrapper):
-        wrapper.build_params.add_parameter("c", ["(int) %s" % self.value])
+        wrapper.build_params.add_parameter("c", ["(int) %s" % self.value], prepend=True)
 
 
 class CStringReturn(PointerReturnValue):
@@ -217,10 +217,10 @@ class CStringReturn(PointerReturnValue):
         return "return NULL;"
 
     def convert_python_to_c(self, wrapper):
-        wrapper.parse_params.add_parameter("s", ['&'+self.value])
+        wrapper.parse_params.add_parameter("s", ['&'+self.value], prepend=True)
 
     def convert_c_to_python(self, wrapper):
-        wrapper.build_params.add_parameter("s", [self.value])
+        wrapper.build_params.add_parameter("s", [self.value], prepend=True)
         if self.free_after_copy:
             wrapper.after_call.add_cleanup_code("free(retval);")
             wrapper.after_call.add_cleanup_code("// free_after_copy for %s %s()" % (self.ctype, wrapper.function_name))
@@ -236,7 +236,7 @@ class StdStringReturn(ReturnValue):
     def convert_python_to_c(self, wrapper):
         ptr = wrapper.declarations.declare_variable("const char *", "retval_ptr")
         len_ = wrapper.declarations.declare_variable("Py_ssize_t", "retval_len")
-        wrapper.parse_params.add_parameter("s#", ['&'+ptr, '&'+len_])
+        wrapper.parse_params.add_parameter("s#", ['&'+ptr, '&'+len_], prepend=True)
         wrapper.after_call.write_code(
             "%s = std::string(%s, %s);" % (self.value, ptr, len_))
 
@@ -392,7 +392,7 @@ class GlibStringReturn(ReturnValue):
 
     def convert_python_to_c(self, wrapper):
         ptr = wrapper.declarations.declare_variable("const char *", "retval_ptr")
-        wrapper.parse_params.add_parameter("et", ['"utf-8"', '&'+ptr])
+        wrapper.parse_params.add_parameter("et", ['"utf-8"', '&'+ptr], prepend=True)
         wrapper.after_call.write_code(
             "%s = Glib::ustring(%s);" % (self.value, ptr))
 
-- 
2.43.0


From ce1718de0e8e21260776070d43ac9cccccf07d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:57 +0000
Subject: [PATCH 18/70] fix: a NULL pointer result does not drop the other
 results and the cleanup of the call

---
 pybindgen/cppclass.py               | 27 ++++++++++++++++++---------
 pybindgen/typehandlers/smart_ptr.py | 15 +++++++++------
 2 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index d9d3fbd..005c0c4 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3825,23 +3825,26 @@ class CppClassPtrReturnValue(CppClassReturnValueBase):
         value = self.transformation.untransform(
             self, wrapper.declarations, wrapper.after_call, self.value)
 
-        # if value is NULL, return None
-        wrapper.after_call.write_code("if (!(%s)) {\n"
-                                      "    Py_INCREF(Py_None);\n"
-                                      "    return Py_None;\n"
-                                      "}" % value)
-
         ## declare wrapper variable
         py_name = wrapper.declarations.declare_variable(
             self.cpp_class.pystruct+'*', 'py_'+self.cpp_class.name)
         self.py_name = py_name
 
+        # if value is NULL, return None
+        wrapper.after_call.write_code("if (!(%s)) {\n"
+                                      "    Py_INCREF(Py_None);\n"
+                                      "    %s = (%s *) Py_None;\n"
+                                      "} else {" % (value, py_name, self.cpp_class.pystruct))
+        wrapper.after_call.indent()
+
         common_shared_object_return(value, py_name, self.cpp_class, wrapper.after_call,
                                     self.type_traits, self.caller_owns_return,
                                     self.reference_existing_object,
                                     type_is_pointer=True,
                                     caller_manages_return=self.caller_manages_return,
                                     free_after_copy=self.free_after_copy)
+        wrapper.after_call.unindent()
+        wrapper.after_call.write_code("}")
 
         # return the value
         wrapper.build_params.add_parameter("N", [py_name], prepend=True)
@@ -3934,7 +3937,11 @@ def scan_custodians_and_wards(wrapper):
 
 def _add_ward(code_block, custodian, ward):
     wards = code_block.declare_variable(
-        'PyObject*', 'wards')
+        'PyObject*', 'wards', 'NULL')
+    # there is nothing to do when one of them is a NULL pointer
+    code_block.write_code(
+        "if (%(custodian)s && %(custodian)s != Py_None && %(ward)s && %(ward)s != Py_None) {" % vars())
+    code_block.indent()
     code_block.write_code(
         "%(wards)s = PyObject_GetAttrString(%(custodian)s, (char *) \"__wards__\");"
         % vars())
@@ -3945,9 +3952,11 @@ def _add_ward(code_block, custodian, ward):
         "    PyObject_SetAttrString(%(custodian)s, (char *) \"__wards__\", %(wards)s);\n"
         "}" % vars())
     code_block.write_code(
-        "if (%(ward)s && !PySequence_Contains(%(wards)s, %(ward)s))\n"
+        "if (!PySequence_Contains(%(wards)s, %(ward)s))\n"
         "    PyList_Append(%(wards)s, %(ward)s);" % dict(wards=wards, ward=ward))
-    code_block.add_cleanup_code("Py_DECREF(%s);" % wards)
+    code_block.unindent()
+    code_block.write_code("}")
+    code_block.add_cleanup_code("Py_XDECREF(%s);" % wards)
 
 
 def _get_custodian_or_ward(wrapper, num):
diff --git a/pybindgen/typehandlers/smart_ptr.py b/pybindgen/typehandlers/smart_ptr.py
index dd57082..03b7b9c 100644
--- a/pybindgen/typehandlers/smart_ptr.py
+++ b/pybindgen/typehandlers/smart_ptr.py
@@ -330,21 +330,24 @@ class CppClassSharedPtrReturnValue(CppClassReturnValueBase):
         value = self.transformation.untransform(
             self, wrapper.declarations, wrapper.after_call, self.value)
         
-        # if value is NULL, return None
-        wrapper.after_call.write_code("if (!(%s)) {\n"
-                                      "    Py_INCREF(Py_None);\n"
-                                      "    return Py_None;\n"
-                                      "}" % value)
-
         ## declare wrapper variable
         py_name = wrapper.declarations.declare_variable(
             self.cpp_class.pystruct+'*', 'py_'+self.cpp_class.name)
         self.py_name = py_name
 
+        # if value is NULL, return None
+        wrapper.after_call.write_code("if (!(%s)) {\n"
+                                      "    Py_INCREF(Py_None);\n"
+                                      "    %s = (%s *) Py_None;\n"
+                                      "} else {" % (value, py_name, self.cpp_class.pystruct))
+        wrapper.after_call.indent()
+
         common_shared_object_return(value, py_name, self.cpp_class, wrapper.after_call,
                                     self.type_traits, caller_owns_return=True,
                                     reference_existing_object=False,
                                     type_is_pointer=True)
+        wrapper.after_call.unindent()
+        wrapper.after_call.write_code("}")
 
         # return the value
         wrapper.build_params.add_parameter("N", [py_name], prepend=True)
-- 
2.43.0


From fbe9e6bd8fbdf92a4260451442b8baf854551c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:28 +0000
Subject: [PATCH 19/70] fix: the GIL is acquired again before a C++ exception
 is converted to Python

---
 pybindgen/cppmethod.py         |  2 ++
 pybindgen/function.py          |  1 +
 pybindgen/typehandlers/base.py | 15 ++++++++++++---
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 9975a8b..5305f38 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -301,6 +301,7 @@ class CppMethod(ForwardWrapperBase):
                 self.before_call.unindent()
                 self.before_call.write_code('} catch (%s const &exc) {' % exc.full_name)
                 self.before_call.indent()
+                self.write_restore_threads(self.before_call)
                 self.before_call.write_cleanup()
                 exc.write_convert_to_python(self.before_call, 'exc')
                 self.before_call.write_code('return NULL;')
@@ -702,6 +703,7 @@ class CppConstructor(ForwardWrapperBase):
                 self.before_call.unindent()
                 self.before_call.write_code('} catch (%s const &exc) {' % exc.full_name)
                 self.before_call.indent()
+                self.write_restore_threads(self.before_call)
                 self.before_call.write_cleanup()
                 exc.write_convert_to_python(self.before_call, 'exc')
                 self.before_call.write_code('return -1;')
diff --git a/pybindgen/function.py b/pybindgen/function.py
index 6d4069b..16bb0c5 100644
--- a/pybindgen/function.py
+++ b/pybindgen/function.py
@@ -214,6 +214,7 @@ class Function(ForwardWrapperBase):
                 self.before_call.unindent()
                 self.before_call.write_code('} catch (%s const &exc) {' % exc.full_name)
                 self.before_call.indent()
+                self.write_restore_threads(self.before_call)
                 self.before_call.write_cleanup()
                 exc.write_convert_to_python(self.before_call, 'exc')
                 self.before_call.write_code('return NULL;')
diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index 528d15c..b9b4d9b 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -774,6 +774,7 @@ class ForwardWrapperBase(object):
         self.force_parse = force_parse
         self.meth_flags = []
         self.unblock_threads = unblock_threads
+        self.py_thread_state = None # name of the variable that holds the thread state, if unblock_threads
         self.no_c_retval = no_c_retval
         self.overload_index = None
         self.deprecated = False
@@ -840,6 +841,15 @@ class ForwardWrapperBase(object):
         """
         pass
 
+    def write_restore_threads(self, code_block):
+        """
+        Writes code that acquires the Python GIL again, if it is released for the call.
+        """
+        if self.unblock_threads:
+            code_block.write_code(
+                "\nif (%s)\n"
+                "     PyEval_RestoreThread(%s);\n" % (self.py_thread_state, self.py_thread_state))
+
     def write_open_wrapper(self, code_sink, add_static=False):
         assert self.wrapper_actual_name is not None
         assert self.wrapper_return is not None
@@ -864,9 +874,8 @@ class ForwardWrapperBase(object):
 
         if self.unblock_threads:
             py_thread_state = self.declarations.declare_variable("PyThreadState*", "py_thread_state", "NULL")
-            self.after_call.write_code(
-                "\nif (%s)\n"
-                "     PyEval_RestoreThread(%s);\n" % (py_thread_state, py_thread_state))
+            self.py_thread_state = py_thread_state
+            self.write_restore_threads(self.after_call)
 
         ## convert the input parameters
         for param in self.parameters:
-- 
2.43.0


From c5c5724ffd1133cb12834f96f6f0b6bddb6e6537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:26 +0000
Subject: [PATCH 20/70] fix: constructors that release the GIL hold it while
 they use the wrapper registry

---
 pybindgen/cppmethod.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 5305f38..fb2a537 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -656,8 +656,6 @@ class CppConstructor(ForwardWrapperBase):
             class_.write_create_instance(self.before_call, "self->obj", ", ".join(self.call_params))
             class_.write_post_instance_creation_code(self.before_call, "self->obj", ", ".join(self.call_params))
             self.before_call.write_code("self->flags = PYBINDGEN_WRAPPER_FLAG_NONE;")
-            class_.wrapper_registry.write_register_new_wrapper(self.before_call, "self",
-                                                               class_.get_wrapper_registry_key("self->obj"))
         else:
             ## We should only create a helper class instance when
             ## being called from a user python subclass.
@@ -672,8 +670,6 @@ class CppConstructor(ForwardWrapperBase):
                                         % class_.helper_class.name)
             class_.write_post_instance_creation_code(self.before_call, "self->obj", ", ".join(self.call_params),
                                                      class_.helper_class.name)
-            class_.wrapper_registry.write_register_new_wrapper(self.before_call, "self",
-                                                               class_.get_wrapper_registry_key("self->obj"))
 
             self.before_call.unindent()
             self.before_call.write_code("} else {")
@@ -685,15 +681,15 @@ class CppConstructor(ForwardWrapperBase):
                     raise CodeGenerationError("private/protected constructor")
                 class_.get_construct_name()
             except CodeGenerationError:
+                self.write_restore_threads(self.before_call)
                 self.before_call.write_code('PyErr_SetString(PyExc_TypeError, "class \'%s\' '
                                             'cannot be constructed");' % class_.name)
+                self.before_call.write_cleanup()
                 self.before_call.write_code('return -1;')
             else:
                 class_.write_create_instance(self.before_call, "self->obj", ", ".join(self.call_params))
                 self.before_call.write_code("self->flags = PYBINDGEN_WRAPPER_FLAG_NONE;")
                 class_.write_post_instance_creation_code(self.before_call, "self->obj", ", ".join(self.call_params))
-                class_.wrapper_registry.write_register_new_wrapper(self.before_call, "self",
-                                                                   class_.get_wrapper_registry_key("self->obj"))
 
             self.before_call.unindent()
             self.before_call.write_code("}")
@@ -710,6 +706,10 @@ class CppConstructor(ForwardWrapperBase):
             self.before_call.unindent()
             self.before_call.write_code('}')
 
+        ## the wrapper registry may only be used while holding the GIL
+        class_.wrapper_registry.write_register_new_wrapper(self.after_call, "self",
+                                                           class_.get_wrapper_registry_key("self->obj"))
+
     def _before_call_hook(self):
         "hook that post-processes parameters and check for custodian=<n> CppClass parameters"
         from . import cppclass
-- 
2.43.0


From a78c2680349e0a820e1385d300b85916e9c355ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:47 +0000
Subject: [PATCH 21/70] fix: references returned by functions that may throw
 refer to the returned object instead of a local copy

---
 pybindgen/cppclass.py          |  1 +
 pybindgen/cppmethod.py         | 31 +++++++++++--------------------
 pybindgen/function.py          | 19 ++++---------------
 pybindgen/typehandlers/base.py | 23 +++++++++++++++++++++++
 4 files changed, 39 insertions(+), 35 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 005c0c4..58ef9e7 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3352,6 +3352,7 @@ class CppClassRefReturnValue(CppClassReturnValueBase):
     CTYPES = []
     cpp_class = None #cppclass.CppClass('dummy') # CppClass instance
     REQUIRES_ASSIGNMENT_CONSTRUCTOR = True
+    REFERENCE_RETVAL = True
 
     def __init__(self, ctype, is_const=False, caller_owns_return=False, reference_existing_object=None,
                  return_internal_reference=None, caller_manages_return=True):
diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index fb2a537..599ce83 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -247,15 +247,6 @@ class CppMethod(ForwardWrapperBase):
         else:
             template_params = ''
 
-
-        if self.return_value.ctype == 'void':
-            retval_assign = ''
-        else:
-            if self.return_value.REQUIRES_ASSIGNMENT_CONSTRUCTOR:
-                retval_assign = '%s retval = ' % (self.return_value.ctype,)
-            else:
-                retval_assign = 'retval = '
-
         if class_.helper_class is not None and self.is_virtual and not self.is_pure_virtual\
                 and not settings._get_deprecated_virtuals():
             helper = self.before_call.declare_variable(type_="%s *" % class_.helper_class.name,
@@ -275,18 +266,18 @@ class CppMethod(ForwardWrapperBase):
             self.before_call.indent()
 
         if self.is_static:
-            self.before_call.write_code(retval_assign + (
-                    '%s::%s%s(%s);' % (class_.full_name,
-                                       self.method_name, template_params,
-                                       ", ".join(self.call_params))))
+            self.write_call_with_retval(
+                    '%s::%s%s(%s)' % (class_.full_name,
+                                      self.method_name, template_params,
+                                      ", ".join(self.call_params)))
         else:
             if helper is None:
-                self.before_call.write_code(retval_assign + (
-                        'self->obj->%s%s(%s);' % (self.method_name, template_params,
-                                                  ", ".join(self.call_params))))
+                self.write_call_with_retval(
+                        'self->obj->%s%s(%s)' % (self.method_name, template_params,
+                                                 ", ".join(self.call_params)))
             else:
-                self.before_call.write_code(retval_assign + (
-                        '(%s == NULL)? (self->obj->%s%s(%s)) : (self->obj->%s::%s%s(%s));'
+                self.write_call_with_retval(
+                        '(%s == NULL)? (self->obj->%s%s(%s)) : (self->obj->%s::%s%s(%s))'
                         % (helper,
 
                            self.method_name, template_params,
@@ -294,7 +285,7 @@ class CppMethod(ForwardWrapperBase):
 
                            class_.full_name, self.method_name, template_params,
                            ", ".join(self.call_params)
-                           )))
+                           ))
 
         if self.throw:
             for exc in self.throw:
@@ -386,7 +377,7 @@ class CppMethod(ForwardWrapperBase):
         Returns the corresponding PyMethodDef entry string.
         """
 
-        if self.throw: # Bug #780945
+        if self.throw and not self.return_value.REFERENCE_RETVAL: # Bug #780945
             self.return_value.REQUIRES_ASSIGNMENT_CONSTRUCTOR = False
             self.reset_code_generation_state()
 
diff --git a/pybindgen/function.py b/pybindgen/function.py
index 16bb0c5..a646d7f 100644
--- a/pybindgen/function.py
+++ b/pybindgen/function.py
@@ -194,20 +194,9 @@ class Function(ForwardWrapperBase):
             self.before_call.write_code('try\n{')
             self.before_call.indent()
 
-        if self.return_value.ctype == 'void':
-            self.before_call.write_code(
-                '%s%s%s(%s);' % (namespace, self.function_name, template_params,
-                                 ", ".join(self.call_params)))
-        else:
-            if self.return_value.REQUIRES_ASSIGNMENT_CONSTRUCTOR:
-                self.before_call.write_code(
-                    '%s retval = %s%s%s(%s);' % (self.return_value.ctype,
-                                                 namespace, self.function_name, template_params,
-                                                 ", ".join(self.call_params)))
-            else:
-                self.before_call.write_code(
-                    'retval = %s%s%s(%s);' % (namespace, self.function_name, template_params,
-                                              ", ".join(self.call_params)))
+        self.write_call_with_retval(
+            '%s%s%s(%s)' % (namespace, self.function_name, template_params,
+                            ", ".join(self.call_params)))
 
         if self.throw:
             for exc in self.throw:
@@ -239,7 +228,7 @@ class Function(ForwardWrapperBase):
         :param wrapper_name: name of wrapper function
         """
 
-        if self.throw: # Bug #780945
+        if self.throw and not self.return_value.REFERENCE_RETVAL: # Bug #780945
             self.return_value.REQUIRES_ASSIGNMENT_CONSTRUCTOR = False
             self.reset_code_generation_state()
 
diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index b9b4d9b..2d5a1f8 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -841,6 +841,26 @@ class ForwardWrapperBase(object):
         """
         pass
 
+    def write_call_with_retval(self, call):
+        """
+        Writes, into self.before_call, the C/C++ call expression `call` and
+        the code that stores its result for the return value type handler.
+        """
+        retval = self.return_value
+        if retval.ctype == 'void':
+            self.before_call.write_code('%s;' % call)
+        elif getattr(self, 'throw', ()) and retval.REFERENCE_RETVAL:
+            # the call is inside a try block, where the reference cannot be
+            # declared, and must not be replaced by a copy either
+            retval_ptr = self.declarations.declare_variable(
+                str(retval.type_traits.ctype).rstrip().rstrip('&') + '*', 'retval_ptr')
+            self.before_call.write_code('%s = &(%s);' % (retval_ptr, call))
+            retval.value = '(*%s)' % retval_ptr
+        elif retval.REQUIRES_ASSIGNMENT_CONSTRUCTOR:
+            self.before_call.write_code('%s retval = %s;' % (retval.ctype, call))
+        else:
+            self.before_call.write_code('retval = %s;' % call)
+
     def write_restore_threads(self, code_block):
         """
         Writes code that acquires the Python GIL again, if it is released for the call.
@@ -1146,6 +1166,9 @@ class _ReturnValue(TypeHandler):
 
     REQUIRES_ASSIGNMENT_CONSTRUCTOR = False
     NO_RETVAL_DECL = False
+    ## Whether the value is a reference to an object that may have to
+    ## keep its identity
+    REFERENCE_RETVAL = False
 
     #@classmethod
     def new(cls, *args, **kwargs):
-- 
2.43.0


From b8d502fb12180f1f8ce031e542cc2e33ccfc7270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:50 +0000
Subject: [PATCH 22/70] fix: the object made for an output parameter is
 released when the call fails

---
 pybindgen/cppclass.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 58ef9e7..accd821 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3191,9 +3191,9 @@ class CppClassRefParameter(CppClassParameterBase):
 
             self.cpp_class.write_allocate_pystruct(wrapper.before_call, self.py_name)
             if self.cpp_class.allow_subclassing:
-                wrapper.after_call.write_code(
+                wrapper.before_call.write_code(
                     "%s->inst_dict = NULL;" % (self.py_name,))
-            wrapper.after_call.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % (self.py_name,))
+            wrapper.before_call.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % (self.py_name,))
 
             self.cpp_class.write_create_instance(wrapper.before_call,
                                                  "%s->obj" % self.py_name,
@@ -3204,7 +3204,9 @@ class CppClassRefParameter(CppClassParameterBase):
                                                              "%s->obj" % self.py_name,
                                                              '')
             wrapper.call_params.append('*%s->obj' % (self.py_name,))
-            wrapper.build_params.add_parameter("N", [self.py_name])
+            # this reference is given up whether or not the call succeeds
+            wrapper.before_call.add_cleanup_code("Py_DECREF(%s);" % self.py_name)
+            wrapper.build_params.add_parameter("O", [self.py_name])
 
         ## well, personally I think inout here doesn't make much sense
         ## (it's just plain confusing), but might as well support it..
-- 
2.43.0


From 1d05aa5d367ba21cac5671556ede454c79200232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:48 +0000
Subject: [PATCH 23/70] fix: the container made for an output parameter is
 released when the call fails

---
 pybindgen/container.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pybindgen/container.py b/pybindgen/container.py
index 220469a..b262319 100644
--- a/pybindgen/container.py
+++ b/pybindgen/container.py
@@ -792,7 +792,9 @@ class ContainerPtrParameter(ContainerParameterBase):
 
         elif self.direction == Parameter.DIRECTION_OUT:
             container_tmp_var = wrapper.declarations.declare_variable(
-                self.container_type.full_name + '*', self.name + '_value', initializer="new %s" % self.container_type.full_name)
+                self.container_type.full_name + '*', self.name + '_value', initializer="NULL")
+            wrapper.before_call.write_code("%s = new %s;" % (container_tmp_var, self.container_type.full_name))
+            wrapper.before_call.add_cleanup_code("delete %s;" % container_tmp_var)
 
             wrapper.call_params.append(container_tmp_var)
 
@@ -804,6 +806,7 @@ class ContainerPtrParameter(ContainerParameterBase):
                 (py_name, self.container_type.pystruct, '&'+self.container_type.pytypestruct))
 
             wrapper.after_call.write_code("%s->obj = %s;" % (py_name, container_tmp_var))
+            wrapper.after_call.write_code("%s = NULL;" % container_tmp_var)
 
             wrapper.build_params.add_parameter("N", [py_name])
 
-- 
2.43.0


From 07bbeb55e570be789eac1b796afd1ce7e8eeef4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:15 +0000
Subject: [PATCH 24/70] fix: free_after_copy in methods

---
 pybindgen/cppclass.py                | 2 +-
 pybindgen/typehandlers/base.py       | 6 ++++++
 pybindgen/typehandlers/stringtype.py | 2 +-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index accd821..15d09fe 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3853,7 +3853,7 @@ class CppClassPtrReturnValue(CppClassReturnValueBase):
         wrapper.build_params.add_parameter("N", [py_name], prepend=True)
         if self.free_after_copy:
             wrapper.after_call.add_cleanup_code("delete retval;")
-            wrapper.after_call.add_cleanup_code("// free_after_copy for %s* %ss" % (self.cpp_class.name,wrapper.function_name))
+            wrapper.after_call.add_cleanup_code("// free_after_copy for %s* %ss" % (self.cpp_class.name, wrapper.get_wrapped_name()))
 
 
     def convert_python_to_c(self, wrapper):
diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index 2d5a1f8..2a41165 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -870,6 +870,12 @@ class ForwardWrapperBase(object):
                 "\nif (%s)\n"
                 "     PyEval_RestoreThread(%s);\n" % (self.py_thread_state, self.py_thread_state))
 
+    def get_wrapped_name(self):
+        """
+        Name of what is being wrapped, to be used in comments.
+        """
+        return getattr(self, 'function_name', None) or getattr(self, 'method_name', None) or self.wrapper_actual_name
+
     def write_open_wrapper(self, code_sink, add_static=False):
         assert self.wrapper_actual_name is not None
         assert self.wrapper_return is not None
diff --git a/pybindgen/typehandlers/stringtype.py b/pybindgen/typehandlers/stringtype.py
index b3ff828..b096f91 100644
--- a/pybindgen/typehandlers/stringtype.py
+++ b/pybindgen/typehandlers/stringtype.py
@@ -223,7 +223,7 @@ class CStringReturn(PointerReturnValue):
         wrapper.build_params.add_parameter("s", [self.value], prepend=True)
         if self.free_after_copy:
             wrapper.after_call.add_cleanup_code("free(retval);")
-            wrapper.after_call.add_cleanup_code("// free_after_copy for %s %s()" % (self.ctype, wrapper.function_name))
+            wrapper.after_call.add_cleanup_code("// free_after_copy for %s %s()" % (self.ctype, wrapper.get_wrapped_name()))
 
 
 class StdStringReturn(ReturnValue):
-- 
2.43.0


From 907fd9778bad4f9d9c077188f385e2f961d08baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 25/70] fix: default values of pointer parameters of classes

---
 pybindgen/cppclass.py               | 12 +++++++++---
 pybindgen/typehandlers/smart_ptr.py |  7 +++++--
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 15d09fe..f32d7f7 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3513,6 +3513,11 @@ class CppClassPtrParameter(CppClassParameterBase):
             value_ptr = wrapper.declarations.declare_variable("%s*" % self.cpp_class.full_name,
                                                               "%s_ptr" % self.name)
 
+            if self.default_value in (None, '', '0', 'NULL'):
+                default_ptr = 'NULL'
+            else:
+                default_ptr = "(%s *) (%s)" % (self.cpp_class.full_name, self.default_value)
+
             if self.null_ok:
                 num = wrapper.parse_params.add_parameter('O', ['&'+self.py_name], self.name, optional=bool(self.default_value))
 
@@ -3529,14 +3534,15 @@ class CppClassPtrParameter(CppClassParameterBase):
                                                "    else\n"
                                                "        %(VALUE)s = %(PYNAME)s->obj;\n"
                                                "} else {\n"
-                                               "    %(VALUE)s = NULL;\n"
-                                               "}" % dict(PYNAME=self.py_name, VALUE=value_ptr))
+                                               "    %(VALUE)s = %(DEFAULT)s;\n"
+                                               "}" % dict(PYNAME=self.py_name, VALUE=value_ptr,
+                                                          DEFAULT=default_ptr))
 
             else:
 
                 wrapper.parse_params.add_parameter(
                     'O!', ['&'+self.cpp_class.pytypestruct, '&'+self.py_name], self.name, optional=bool(self.default_value))
-                wrapper.before_call.write_code("%s = (%s ? %s->obj : NULL);" % (value_ptr, self.py_name, self.py_name))
+                wrapper.before_call.write_code("%s = (%s ? %s->obj : %s);" % (value_ptr, self.py_name, self.py_name, default_ptr))
 
         value = self.transformation.transform(self, wrapper.declarations, wrapper.before_call, value_ptr)
         wrapper.call_params.append(value)
diff --git a/pybindgen/typehandlers/smart_ptr.py b/pybindgen/typehandlers/smart_ptr.py
index 03b7b9c..827ea5a 100644
--- a/pybindgen/typehandlers/smart_ptr.py
+++ b/pybindgen/typehandlers/smart_ptr.py
@@ -193,14 +193,17 @@ class CppClassSharedPtrParameter(CppClassParameterBase):
                                            "    else\n"
                                            "        %(VALUE)s = %(PYNAME)s->obj;\n"
                                            "} else {\n"
-                                           "    %(VALUE)s = NULL;\n"
-                                           "}" % dict(PYNAME=self.py_name, VALUE=value_ptr))
+                                           "    %(VALUE)s = %(DEFAULT)s;\n"
+                                           "}" % dict(PYNAME=self.py_name, VALUE=value_ptr,
+                                                      DEFAULT=(self.default_value or 'NULL')))
 
         else:
 
             wrapper.parse_params.add_parameter(
                 'O!', ['&'+self.cpp_class.pytypestruct, '&'+self.py_name], self.name, optional=bool(self.default_value))
             wrapper.before_call.write_code("if (%s) { %s = %s->obj; }" % (self.py_name, value_ptr, self.py_name))
+            if self.default_value:
+                wrapper.before_call.write_code("else { %s = %s; }" % (value_ptr, self.default_value))
 
         wrapper.call_params.append(value_ptr)
         
-- 
2.43.0


From 52381cfe0e09f53a0e6265c3e7a958e6b1cf3d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:51 +0000
Subject: [PATCH 26/70] fix: None given for a pointer whose ownership is
 transferred

---
 pybindgen/cppclass.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index f32d7f7..ef0a7b6 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3548,9 +3548,13 @@ class CppClassPtrParameter(CppClassParameterBase):
         wrapper.call_params.append(value)
 
         if self.transfer_ownership:
+            if self.null_ok and not self.take_value_from_python_self:
+                given = "%s && (PyObject *) %s != Py_None" % (self.py_name, self.py_name)
+            else:
+                given = self.py_name
             if not isinstance(self.cpp_class.memory_policy, ReferenceCountingPolicy):
                 # if we transfer ownership, in the end we no longer own the object, so clear our pointer
-                wrapper.after_call.write_code('if (%s) {' % self.py_name)
+                wrapper.after_call.write_code('if (%s) {' % given)
                 wrapper.after_call.indent()
                 if self.cpp_class.memory_policy is not None:
                     self.cpp_class.wrapper_registry.write_unregister_wrapper(wrapper.after_call,
@@ -3564,7 +3568,7 @@ class CppClassPtrParameter(CppClassParameterBase):
                 wrapper.after_call.unindent()
                 wrapper.after_call.write_code('}')
             else:
-                wrapper.before_call.write_code("if (%s) {" % self.py_name)
+                wrapper.before_call.write_code("if (%s) {" % given)
                 wrapper.before_call.indent()
                 self.cpp_class.memory_policy.write_incref(wrapper.before_call, "%s->obj" % self.py_name)
                 wrapper.before_call.unindent()
-- 
2.43.0


From 9775b7e8a6329a0dbd1bc2f4d06744ada7180d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:23 +0000
Subject: [PATCH 27/70] fix: a reference given to a function is not lost when a
 later argument is refused

---
 pybindgen/cppclass.py          | 14 +++++++++-----
 pybindgen/typehandlers/base.py |  5 +++++
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index ef0a7b6..04becc6 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3568,11 +3568,15 @@ class CppClassPtrParameter(CppClassParameterBase):
                 wrapper.after_call.unindent()
                 wrapper.after_call.write_code('}')
             else:
-                wrapper.before_call.write_code("if (%s) {" % given)
-                wrapper.before_call.indent()
-                self.cpp_class.memory_policy.write_incref(wrapper.before_call, "%s->obj" % self.py_name)
-                wrapper.before_call.unindent()
-                wrapper.before_call.write_code("}")
+                # the function gets its own reference; not before all
+                # parameters are converted, which may still fail
+                def write_give_reference(code_block):
+                    code_block.write_code("if (%s) {" % given)
+                    code_block.indent()
+                    self.cpp_class.memory_policy.write_incref(code_block, "%s->obj" % self.py_name)
+                    code_block.unindent()
+                    code_block.write_code("}")
+                wrapper.at_call_actions.append(write_give_reference)
 
 
     def convert_c_to_python(self, wrapper):
diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index 2a41165..ad9d0b6 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -774,6 +774,7 @@ class ForwardWrapperBase(object):
         self.force_parse = force_parse
         self.meth_flags = []
         self.unblock_threads = unblock_threads
+        self.at_call_actions = [] # functions that write code to execute when nothing can fail before the call any more
         self.py_thread_state = None # name of the variable that holds the thread state, if unblock_threads
         self.no_c_retval = no_c_retval
         self.overload_index = None
@@ -807,6 +808,7 @@ class ForwardWrapperBase(object):
         self.build_params.clear()
         self.parse_params.clear()
         self.call_params = []
+        self.at_call_actions = []
         self.meth_flags = []
 
         self._init_code_generation_state()
@@ -921,6 +923,9 @@ class ForwardWrapperBase(object):
 
         self._before_call_hook()
 
+        for action in self.at_call_actions:
+            action(self.before_call)
+
         if self.unblock_threads:
             self.before_call.write_code(
                 "\nif (PyEval_ThreadsInitialized ())\n"
-- 
2.43.0


From 6c1d9ced4172b7b3af004ff0a805410d0b2ff7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:27 +0000
Subject: [PATCH 28/70] fix: constant references of 8 and 16 bit integers,
 constant pointers to int

---
 pybindgen/typehandlers/floattype.py |  2 +-
 pybindgen/typehandlers/inttype.py   | 16 ++++++++--------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pybindgen/typehandlers/floattype.py b/pybindgen/typehandlers/floattype.py
index c3bc04e..c8d5b3f 100644
--- a/pybindgen/typehandlers/floattype.py
+++ b/pybindgen/typehandlers/floattype.py
@@ -118,7 +118,7 @@ class FloatRefParam(Parameter):
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'float&'
-        name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
+        name = wrapper.declarations.declare_variable(str(self.type_traits.target), self.name)
         wrapper.call_params.append(name)
         if self.direction & self.DIRECTION_IN:
             wrapper.parse_params.add_parameter('f', ['&'+name], self.name)
diff --git a/pybindgen/typehandlers/inttype.py b/pybindgen/typehandlers/inttype.py
index dc0e8f8..90cd2b4 100644
--- a/pybindgen/typehandlers/inttype.py
+++ b/pybindgen/typehandlers/inttype.py
@@ -180,7 +180,7 @@ class IntPtrParam(PointerParameter):
         #sys.stderr.write("***************"  +self.default_value + "\n")
         optional = bool(self.default_value in ['NULL', '0'] and self.direction & self.DIRECTION_IN)
         if optional:
-            name_int = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name+"_int")
+            name_int = wrapper.declarations.declare_variable(str(self.type_traits.target), self.name+"_int")
             name_obj = wrapper.declarations.declare_variable("PyObject*", self.name+"_obj", "NULL")
             name_ptr = wrapper.declarations.declare_variable(self.ctype_no_const, self.name+"_ptr")
             wrapper.call_params.append(name_ptr)
@@ -204,7 +204,7 @@ class IntPtrParam(PointerParameter):
                     % vars())
                 wrapper.build_params.add_parameter("N", [name_obj])
         else:
-            name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
+            name = wrapper.declarations.declare_variable(str(self.type_traits.target), self.name)
             wrapper.call_params.append('&'+name)
             if self.direction & self.DIRECTION_IN:
                 wrapper.parse_params.add_parameter('i', ['&'+name], self.name)
@@ -227,7 +227,7 @@ class IntRefParam(Parameter):
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'int&'
-        name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
+        name = wrapper.declarations.declare_variable(str(self.type_traits.target), self.name)
         wrapper.call_params.append(name)
         if self.direction & self.DIRECTION_IN:
             wrapper.parse_params.add_parameter('i', ['&'+name], self.name)
@@ -248,7 +248,7 @@ class UnsignedIntRefParam(Parameter):
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'int&'
-        name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
+        name = wrapper.declarations.declare_variable(str(self.type_traits.target), self.name)
         wrapper.call_params.append(name)
         if self.direction & self.DIRECTION_IN:
             wrapper.parse_params.add_parameter('I', ['&'+name], self.name)
@@ -329,7 +329,7 @@ class UInt16RefParam(Parameter):
             wrapper.parse_params.add_parameter("H", ["&"+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
-        name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
+        name = wrapper.declarations.declare_variable(str(self.type_traits.target), self.name)
         wrapper.call_params.append(name)
         if self.direction & self.DIRECTION_IN:
             wrapper.parse_params.add_parameter('H', ['&'+name], self.name)
@@ -373,7 +373,7 @@ class Int16RefParam(Parameter):
             wrapper.parse_params.add_parameter("h", ["&"+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
-        name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
+        name = wrapper.declarations.declare_variable(str(self.type_traits.target), self.name)
         wrapper.call_params.append(name)
         if self.direction & self.DIRECTION_IN:
             wrapper.parse_params.add_parameter('h', ['&'+name], self.name)
@@ -415,7 +415,7 @@ class UInt8RefParam(Parameter):
             wrapper.parse_params.add_parameter("B", ["&"+self.value], self.name)
 
     def convert_python_to_c(self, wrapper):
-        name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
+        name = wrapper.declarations.declare_variable(str(self.type_traits.target), self.name)
         wrapper.call_params.append(name)
         if self.direction & self.DIRECTION_IN:
             wrapper.parse_params.add_parameter('B', ['&'+name], self.name)
@@ -476,7 +476,7 @@ class Int8RefParam(Parameter):
             _parse_int8(wrapper, wrapper.after_call, self.value, self.name)
 
     def convert_python_to_c(self, wrapper):
-        name = wrapper.declarations.declare_variable(self.ctype_no_const[:-1], self.name)
+        name = wrapper.declarations.declare_variable(str(self.type_traits.target), self.name)
         wrapper.call_params.append(name)
         if self.direction & self.DIRECTION_IN:
             _parse_int8(wrapper, wrapper.before_call, name, self.name)
-- 
2.43.0


From eaf527eb382627d5532e4c8a5ae411da09e7692b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:27 +0000
Subject: [PATCH 29/70] fix: errors in the results of Python overrides are not
 left pending

---
 pybindgen/typehandlers/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index ad9d0b6..266d213 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -152,6 +152,7 @@ class CodeBlock(object):
         self._cleanup_actions = {}
         self._last_cleanup_position = 0
         self.error_return = error_return
+        self.error_action = None # code to write for an error, before the cleanup
         self.declarations = declarations
 
     def clear(self):
@@ -236,6 +237,8 @@ class CodeBlock(object):
     def write_error_return(self):
         '''Add a chunk of code that cleans up and returns an error.
         '''
+        if self.error_action is not None:
+            self.sink.writeln(self.error_action)
         self.write_cleanup()
         self.sink.writeln(self.error_return)
 
@@ -568,6 +571,10 @@ class ReverseWrapperBase(object):
         self.before_call = CodeBlock(error_return, self.declarations)
         self.after_call = CodeBlock(error_return, self.declarations,
                                     predecessor=self.before_call)
+        if not self.NO_GIL_LOCKING:
+            ## the C++ caller is not told of errors: do not leave them pending
+            self.before_call.error_action = 'if (PyErr_Occurred())\n    PyErr_Print();'
+            self.after_call.error_action = self.before_call.error_action
         self.build_params = BuildValueParameters()
         self.parse_params = ParseTupleParameters()
         self._generate_gil_code()
-- 
2.43.0


From 2ad4c8f2377b36af76b036da9c673662e986ae69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:09 +0000
Subject: [PATCH 30/70] fix: overrides that return several values

---
 pybindgen/typehandlers/base.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index 266d213..ff9a741 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -303,6 +303,9 @@ class ParseTupleParameters(object):
             self._parse_tuple_items.append(item)
         return len(self._parse_tuple_items)
 
+    def __len__(self):
+        return len([item for item in self._parse_tuple_items if item[0]])
+
     def is_empty(self):
         return self.get_parameters() == ['""']
 
@@ -648,8 +651,13 @@ class ReverseWrapperBase(object):
                                                'PyErr_SetString(PyExc_TypeError, "function/method should return None");')
         else:
             ## parse the return value
-            ## this ensures that py_retval is always a tuple
-            self.before_call.write_code('py_retval = Py_BuildValue((char*) "(N)", py_retval);')
+            if len(self.parse_params) == 1:
+                ## this ensures that py_retval is always a tuple
+                self.before_call.write_code('py_retval = Py_BuildValue((char*) "(N)", py_retval);')
+            else:
+                self.before_call.write_error_check('!PyTuple_Check(py_retval)',
+                                                   'PyErr_SetString(PyExc_TypeError, "function/method should return a tuple of %i values");'
+                                                   % len(self.parse_params))
 
             parse_tuple_params = ['py_retval']
             parse_params = self.parse_params.get_parameters()
-- 
2.43.0


From 12c20b3f02c8c6c7066c583e7e5de0c53e469790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:04 +0000
Subject: [PATCH 31/70] fix: a Python override can call an inherited virtual
 method of its parent

---
 pybindgen/cppmethod.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 599ce83..5d214ed 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -247,14 +247,15 @@ class CppMethod(ForwardWrapperBase):
         else:
             template_params = ''
 
-        if class_.helper_class is not None and self.is_virtual and not self.is_pure_virtual\
+        ## The virtual method of an object implemented in Python must be
+        ## called explicitly, else the call could come back to the Python
+        ## override that is calling its parent.  Such objects are helper
+        ## class instances, of this class or of a subclass, and their
+        ## Python types are not among the static ones generated here.
+        not_python_subclass = None
+        if self.is_virtual and not self.is_pure_virtual and not self.is_static\
                 and not settings._get_deprecated_virtuals():
-            helper = self.before_call.declare_variable(type_="%s *" % class_.helper_class.name,
-                                                       name="helper_class",
-                                                       initializer=(
-                    "dynamic_cast<%s*> (self->obj)" % class_.helper_class.name))
-        else:
-            helper = None
+            not_python_subclass = "!PyType_HasFeature(Py_TYPE(self), Py_TPFLAGS_HEAPTYPE)"
 
         if self.is_static:
             method = '%s::%s%s' % (class_.full_name, self.method_name, template_params)
@@ -271,14 +272,14 @@ class CppMethod(ForwardWrapperBase):
                                       self.method_name, template_params,
                                       ", ".join(self.call_params)))
         else:
-            if helper is None:
+            if not_python_subclass is None:
                 self.write_call_with_retval(
                         'self->obj->%s%s(%s)' % (self.method_name, template_params,
                                                  ", ".join(self.call_params)))
             else:
                 self.write_call_with_retval(
-                        '(%s == NULL)? (self->obj->%s%s(%s)) : (self->obj->%s::%s%s(%s))'
-                        % (helper,
+                        '(%s)? (self->obj->%s%s(%s)) : (self->obj->%s::%s%s(%s))'
+                        % (not_python_subclass,
 
                            self.method_name, template_params,
                            ", ".join(self.call_params),
-- 
2.43.0


From b991ebe443783966fe03f50234647e4857b0e1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:45 +0000
Subject: [PATCH 32/70] fix: Python subclasses of classes that only inherit
 virtual methods can override them

---
 pybindgen/cppclass.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 04becc6..058dc9d 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -1790,6 +1790,18 @@ public:
         self.instance_attributes.add_attribute(name, getter_wrapper, setter_wrapper, custom_name)
 
 
+    def _have_parent_virtuals(self):
+        """
+        Returns True if any parent class has virtual methods
+        """
+        mro = self.get_mro()
+        next(mro) # skip 'self'
+        for cls in mro:
+            for method in cls.get_all_methods():
+                if method.is_virtual:
+                    return True
+        return False
+
     def _inherit_helper_class_parent_virtuals(self):
         """
         Given a class containing a helper class, add all virtual
@@ -1867,6 +1879,11 @@ typedef struct {
 
         code_sink.writeln()
 
+        if self.helper_class is None and self.allow_subclassing \
+                and not self.import_from_module and self._have_parent_virtuals():
+            ## all virtual methods are inherited
+            self.get_helper_class()
+
         if self.helper_class is not None:
             self._inherit_helper_class_parent_virtuals()
             for hook in self._get_all_helper_class_hooks():
-- 
2.43.0


From 0ad8deacba43c6e6c6d5462646fdca3a9c7f0e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:47 +0000
Subject: [PATCH 33/70] fix: Python overrides of virtual methods that have a
 custom name

---
 pybindgen/cppclass.py  |  2 +-
 pybindgen/cppmethod.py | 15 ++++++++-------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 058dc9d..48cce42 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -322,7 +322,7 @@ class CppHelperClass(object):
         """Add a new CppVirtualMethodParentCaller object to this helper class"""
         assert isinstance(parent_caller, CppVirtualMethodParentCaller)
 
-        name = parent_caller.method_name
+        name = parent_caller.mangled_name
         try:
             overload = self.virtual_parent_callers[name]
         except KeyError:
diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 5d214ed..e367787 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -173,7 +173,7 @@ class CppMethod(ForwardWrapperBase):
     def set_helper_class(self, helper_class):
         "Set the C++ helper class, which is used for overriding virtual methods"
         self._helper_class = helper_class
-        self.wrapper_base_name = "%s::_wrap_%s" % (self._helper_class.name, self.method_name)
+        self.wrapper_base_name = "%s::_wrap_%s" % (self._helper_class.name, self.mangled_name)
     def get_helper_class(self):
         "Get the C++ helper class, which is used for overriding virtual methods"
         return self._helper_class
@@ -884,7 +884,8 @@ class CppVirtualMethodParentCaller(CppMethod):
 
     def __init__(self, method, unblock_threads=None):
         super(CppVirtualMethodParentCaller, self).__init__(
-            method.method_name, method.return_value, method.parameters, unblock_threads=unblock_threads)
+            method.method_name, method.return_value, method.parameters, unblock_threads=unblock_threads,
+            custom_name=method.custom_name)
         #self.static_decl = False
         self.method = method
 
@@ -971,7 +972,7 @@ class CppVirtualMethodParentCaller(CppMethod):
             (self.wrapper_actual_name, self.wrapper_base_name)
         assert self._helper_class is not None
         if method_name is None:
-            method_name = self.method_name
+            method_name = self.mangled_name
         flags = self.get_py_method_def_flags()
         return "{(char *) \"%s\", (PyCFunction) %s, %s, %s }," % \
                (method_name,
@@ -1028,9 +1029,9 @@ class CppVirtualMethodProxy(ReverseWrapperBase):
     def generate_python_call(self):
         """code to call the python method"""
         if settings._get_deprecated_virtuals():
-            params = ['m_pyself', '(char *) "_%s"' % self.method_name]
+            params = ['m_pyself', '(char *) "_%s"' % self.method.mangled_name]
         else:
-            params = ['m_pyself', '(char *) "%s"' % self.method_name]
+            params = ['m_pyself', '(char *) "%s"' % self.method.mangled_name]
         build_params = self.build_params.get_parameters()
         if build_params[0][0] == '"':
             build_params[0] = '(char *) ' + build_params[0]
@@ -1072,10 +1073,10 @@ class CppVirtualMethodProxy(ReverseWrapperBase):
         py_method = self.declarations.declare_variable('PyObject*', 'py_method')
         if settings._get_deprecated_virtuals():
             self.before_call.write_code('%s = PyObject_GetAttrString(m_pyself, (char *) "_%s"); PyErr_Clear();'
-                                        % (py_method, self.method_name))
+                                        % (py_method, self.method.mangled_name))
         else:
             self.before_call.write_code('%s = PyObject_GetAttrString(m_pyself, (char *) "%s"); PyErr_Clear();'
-                                        % (py_method, self.method_name))
+                                        % (py_method, self.method.mangled_name))
         self.before_call.add_cleanup_code('Py_XDECREF(%s);' % py_method)
 
         self.before_call.write_code(
-- 
2.43.0


From 2d2ee9c20ca2a5b8847f339284098f41ba0f0f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 34/70] fix: a class reference returned by an override refers
 to the object and not to a local copy

---
 pybindgen/cppclass.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 48cce42..f94d3e6 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3441,11 +3441,9 @@ class CppClassRefReturnValue(CppClassReturnValueBase):
             self.cpp_class.pystruct+'*', "tmp_%s" % self.cpp_class.name)
         wrapper.parse_params.add_parameter(
             'O!', ['&'+self.cpp_class.pytypestruct, '&'+name], prepend=True)
-        if self.REQUIRES_ASSIGNMENT_CONSTRUCTOR:
-            wrapper.after_call.write_code('%s %s = *%s->obj;' %
-                                          (self.cpp_class.full_name, self.value, name))
-        else:
-            wrapper.after_call.write_code('%s = *%s->obj;' % (self.value, name))
+        ## a reference to the object itself, and not to a local copy of it
+        wrapper.after_call.write_code('const %s &%s = *%s->obj;' %
+                                      (self.cpp_class.full_name, self.value, name))
 
 
 class CppClassPtrParameter(CppClassParameterBase):
-- 
2.43.0


From b9ebfe6b24aabf6c6c612dff8144260ba03d6010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 35/70] fix: objects lent to an override are taken back however
 it ends

---
 pybindgen/cppclass.py | 126 +++++++++++++++++++++---------------------
 1 file changed, 62 insertions(+), 64 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index f94d3e6..d0f15c2 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2692,6 +2692,46 @@ if (!PyObject_IsInstance((PyObject*) other, (PyObject*) &%s)) {
             'PyModule_AddObject(m, (char *) \"%s\", (PyObject *) &%s);' % (
                 alias, self.pytypestruct))
 
+    def write_release_temporary_wrapper(self, wrapper, py_name, value, optional=False):
+        """
+        Generates the cleanup code for a "temporary wrapper", through which
+        Python code directly manipulated the object of a C++ caller.
+
+        Whichever way the Python call ended, if we notice that the callee
+        kept a reference to the pyobject we then swap pywrapper->obj for a
+        copy of the original object.  Else the ->obj pointer is simply
+        erased (we never owned this object in the first place).
+
+        :param wrapper: the reverse wrapper being generated
+        :param py_name: C variable with the (owned reference to the) temporary wrapper
+        :param value: C expression for the object of the caller
+        :param optional: if true, the C variable may be NULL
+        """
+        code = CodeBlock("", wrapper.declarations)
+        if optional:
+            code.write_code("if (%s) {" % py_name)
+            code.indent()
+        if self.has_copy_constructor:
+            code.write_code("if (Py_REFCNT(%s) == 1)\n"
+                            "    %s->obj = NULL;\n"
+                            "else {" % (py_name, py_name))
+            code.indent()
+            self.write_create_instance(code, "%s->obj" % py_name, value)
+            self.wrapper_registry.write_register_new_wrapper(code, py_name,
+                                                             self.get_wrapper_registry_key("%s->obj" % py_name))
+            self.write_post_instance_creation_code(code, "%s->obj" % py_name, value)
+            code.unindent()
+            code.write_code('}')
+        else:
+            ## it's not safe for the python wrapper to keep a
+            ## pointer to the object anymore; just set it to NULL.
+            code.write_code("%s->obj = NULL;" % (py_name,))
+        code.write_code("Py_DECREF(%s);" % py_name)
+        if optional:
+            code.unindent()
+            code.write_code("}")
+        wrapper.before_call.add_cleanup_code(code.sink.flush().rstrip())
+
     def write_allocate_pystruct(self, code_block, lvalue, wrapper_type=None):
         """
         Generates code to allocate a python wrapper structure, using
@@ -3279,33 +3319,7 @@ class CppClassRefParameter(CppClassParameterBase):
             wrapper.before_call.write_code(
                 "%s->obj = %s;" % (self.py_name, value))
             wrapper.build_params.add_parameter("O", [self.py_name])
-            wrapper.before_call.add_cleanup_code("Py_DECREF(%s);" % self.py_name)
-
-            if self.cpp_class.has_copy_constructor:
-                ## if after the call we notice the callee kept a reference
-                ## to the pyobject, we then swap pywrapper->obj for a copy
-                ## of the original object.  Else the ->obj pointer is
-                ## simply erased (we never owned this object in the first
-                ## place).
-                wrapper.after_call.write_code(
-                    "if (Py_REFCNT(%s) == 1)\n"
-                    "    %s->obj = NULL;\n"
-                    "else{\n" % (self.py_name, self.py_name))
-                wrapper.after_call.indent()
-                self.cpp_class.write_create_instance(wrapper.after_call,
-                                                     "%s->obj" % self.py_name,
-                                                     self.value)
-                self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.after_call, self.py_name,
-                                                                           self.cpp_class.get_wrapper_registry_key("%s->obj" % self.py_name))
-                self.cpp_class.write_post_instance_creation_code(wrapper.after_call,
-                                                                 "%s->obj" % self.py_name,
-                                                                 self.value)
-                wrapper.after_call.unindent()
-                wrapper.after_call.write_code('}')
-            else:
-                ## it's not safe for the python wrapper to keep a
-                ## pointer to the object anymore; just set it to NULL.
-                wrapper.after_call.write_code("%s->obj = NULL;" % (self.py_name,))
+            self.cpp_class.write_release_temporary_wrapper(wrapper, self.py_name, self.value)
 
 
 class CppClassReturnValue(CppClassReturnValueBase):
@@ -3606,6 +3620,13 @@ class CppClassPtrParameter(CppClassParameterBase):
             self.cpp_class.pystruct+'*', 'py_'+self.cpp_class.name)
         self.py_name = py_name
 
+        temporary_wrapper = None
+        if (self.direction != Parameter.DIRECTION_IN and not self.transfer_ownership
+            and not isinstance(self.cpp_class.memory_policy, ReferenceCountingPolicy)):
+            temporary_wrapper = wrapper.declarations.declare_variable(
+                self.cpp_class.pystruct+'*', 'temporary_wrapper', 'NULL')
+            self.cpp_class.write_release_temporary_wrapper(wrapper, temporary_wrapper, '*(%s)' % value, optional=True)
+
         def write_create_new_wrapper():
             """Code path that creates a new wrapper for the parameter"""
 
@@ -3661,33 +3682,9 @@ class CppClassPtrParameter(CppClassParameterBase):
                             unconst_value = value
                         wrapper.before_call.write_code(
                             "%s->obj = %s;" % (self.py_name, unconst_value))
-                        wrapper.build_params.add_parameter("O", [self.py_name])
-                        wrapper.before_call.add_cleanup_code("Py_DECREF(%s);" % self.py_name)
-
-                        if self.cpp_class.has_copy_constructor:
-                            ## if after the call we notice the callee kept a reference
-                            ## to the pyobject, we then swap pywrapper->obj for a copy
-                            ## of the original object.  Else the ->obj pointer is
-                            ## simply erased (we never owned this object in the first
-                            ## place).
-
-                            wrapper.after_call.write_code(
-                                "if (Py_REFCNT(%s) == 1)\n"
-                                "    %s->obj = NULL;\n"
-                                "else {\n" % (self.py_name, self.py_name))
-                            wrapper.after_call.indent()
-                            self.cpp_class.write_create_instance(wrapper.after_call,
-                                                                 "%s->obj" % self.py_name,
-                                                                 '*'+value)
-                            self.cpp_class.write_post_instance_creation_code(wrapper.after_call,
-                                                                             "%s->obj" % self.py_name,
-                                                                             '*'+value)
-                            wrapper.after_call.unindent()
-                            wrapper.after_call.write_code('}')
-                        else:
-                            ## it's not safe for the python wrapper to keep a
-                            ## pointer to the object anymore; just set it to NULL.
-                            wrapper.after_call.write_code("%s->obj = NULL;" % (self.py_name,))
+                        wrapper.before_call.write_code(
+                            "%s = %s;" % (temporary_wrapper, self.py_name))
+                        wrapper.before_call.write_code("Py_INCREF(%s);" % temporary_wrapper)
                 else:
                     ## The PyObject gets a new reference to the same obj
                     self.cpp_class.memory_policy.write_incref(wrapper.before_call, value)
@@ -3698,6 +3695,12 @@ class CppClassPtrParameter(CppClassParameterBase):
                         wrapper.before_call.write_code("%s->obj = %s;" % (py_name, value))
         ## closes def write_create_new_wrapper():
 
+        def write_register_wrapper():
+            """A temporary wrapper does not keep the object, and is not registered"""
+            if temporary_wrapper is None:
+                self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, py_name,
+                                                                           "%s->obj" % py_name)
+
         if self.cpp_class.helper_class is None:
             try:
                 if self.cpp_class.memory_policy is not None:
@@ -3708,17 +3711,14 @@ class CppClassPtrParameter(CppClassParameterBase):
                         wrapper.before_call, self.cpp_class.pystruct, py_name, value)
             except NotSupportedError:
                 write_create_new_wrapper()
-                self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, py_name,
-                                                                           "%s->obj" % py_name)
+                write_register_wrapper()
             else:
                 wrapper.before_call.write_code("if (%s == NULL)\n{" % py_name)
                 wrapper.before_call.indent()
                 write_create_new_wrapper()
-                self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, py_name,
-                                                                           "%s->obj" % py_name)
+                write_register_wrapper()
                 wrapper.before_call.unindent()
                 wrapper.before_call.write_code('}')
-            wrapper.build_params.add_parameter("N", [py_name])
         else:
             wrapper.before_call.write_code("if (typeid(*(%s)).name() == typeid(%s).name())\n{"
                                           % (value, self.cpp_class.helper_class.name))
@@ -3751,20 +3751,18 @@ class CppClassPtrParameter(CppClassParameterBase):
                         wrapper.before_call, self.cpp_class.pystruct, py_name, value)
             except NotSupportedError:
                 write_create_new_wrapper()
-                self.cpp_class.wrapper_registry.write_register_new_wrapper(
-                    wrapper.before_call, py_name, "%s->obj" % py_name)
+                write_register_wrapper()
             else:
                 wrapper.before_call.write_code("if (%s == NULL)\n{" % py_name)
                 wrapper.before_call.indent()
                 write_create_new_wrapper()
-                self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, py_name,
-                                                                           "%s->obj" % py_name)
+                write_register_wrapper()
                 wrapper.before_call.unindent()
                 wrapper.before_call.write_code('}') # closes if (%s == NULL)
 
             wrapper.before_call.unindent()
             wrapper.before_call.write_code("}") # closes if (typeid(*(%s)) == typeid(%s))\n{
-            wrapper.build_params.add_parameter("N", [py_name])
+        wrapper.build_params.add_parameter("N", [py_name])
 
 
 
-- 
2.43.0


From 3230acda69af597c5635a177e3655b1f62bb8e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 36/70] fix: null class pointers given to overrides are None

---
 pybindgen/cppclass.py               |  9 +++++++++
 pybindgen/typehandlers/smart_ptr.py | 12 ++++++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index d0f15c2..fd8b17e 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -3701,6 +3701,13 @@ class CppClassPtrParameter(CppClassParameterBase):
                 self.cpp_class.wrapper_registry.write_register_new_wrapper(wrapper.before_call, py_name,
                                                                            "%s->obj" % py_name)
 
+        ## the Python side of a NULL pointer is None
+        wrapper.before_call.write_code("if ((%s) == NULL) {\n"
+                                       "    %s = (%s*) Py_None;\n"
+                                       "    Py_INCREF(%s);\n"
+                                       "} else {" % (value, py_name, self.cpp_class.pystruct, py_name))
+        wrapper.before_call.indent()
+
         if self.cpp_class.helper_class is None:
             try:
                 if self.cpp_class.memory_policy is not None:
@@ -3762,6 +3769,8 @@ class CppClassPtrParameter(CppClassParameterBase):
 
             wrapper.before_call.unindent()
             wrapper.before_call.write_code("}") # closes if (typeid(*(%s)) == typeid(%s))\n{
+        wrapper.before_call.unindent()
+        wrapper.before_call.write_code("}") # closes if ((%s) == NULL)
         wrapper.build_params.add_parameter("N", [py_name])
 
 
diff --git a/pybindgen/typehandlers/smart_ptr.py b/pybindgen/typehandlers/smart_ptr.py
index 827ea5a..ba650af 100644
--- a/pybindgen/typehandlers/smart_ptr.py
+++ b/pybindgen/typehandlers/smart_ptr.py
@@ -247,6 +247,13 @@ class CppClassSharedPtrParameter(CppClassParameterBase):
             ## Assign the C++ value to the Python wrapper
             wrapper.before_call.write_code("%s->obj = %s;" % (py_name, value))
 
+        ## the Python side of a null pointer is None
+        wrapper.before_call.write_code("if (!(%s)) {\n"
+                                       "    %s = (%s*) Py_None;\n"
+                                       "    Py_INCREF(%s);\n"
+                                       "} else {" % (value, py_name, self.cpp_class.pystruct, py_name))
+        wrapper.before_call.indent()
+
         if self.cpp_class.helper_class is None:
             try:
                 self.cpp_class.wrapper_registry.write_lookup_wrapper(
@@ -263,7 +270,6 @@ class CppClassSharedPtrParameter(CppClassParameterBase):
                                                                            "%s->obj" % py_name)
                 wrapper.before_call.unindent()
                 wrapper.before_call.write_code('}')
-            wrapper.build_params.add_parameter("N", [py_name])
         else:
             wrapper.before_call.write_code("if (typeid(*(%s)).name() == typeid(%s).name())\n{"
                                           % (value, self.cpp_class.helper_class.name))
@@ -305,7 +311,9 @@ class CppClassSharedPtrParameter(CppClassParameterBase):
 
             wrapper.before_call.unindent()
             wrapper.before_call.write_code("}") # closes if (typeid(*(%s)) == typeid(%s))\n{
-            wrapper.build_params.add_parameter("N", [py_name])
+        wrapper.before_call.unindent()
+        wrapper.before_call.write_code("}") # closes if (!(%s))
+        wrapper.build_params.add_parameter("N", [py_name])
             
 
 
-- 
2.43.0


From 5f983f4af03b19c0468577c56b8d25390c372791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 37/70] fix: a refused bool output of an override does not leak
 its answer

---
 pybindgen/typehandlers/base.py     | 7 +++++++
 pybindgen/typehandlers/booltype.py | 6 ++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index ff9a741..898bc76 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -571,6 +571,7 @@ class ReverseWrapperBase(object):
             error_return = return_value.get_c_error_return()
         self.error_return = error_return
         self.declarations = DeclarationsScope()
+        self.late_conversions = [] # callables that write to after_call
         self.before_call = CodeBlock(error_return, self.declarations)
         self.after_call = CodeBlock(error_return, self.declarations,
                                     predecessor=self.before_call)
@@ -588,6 +589,7 @@ class ReverseWrapperBase(object):
         self.after_call.error_return = error_return
 
     def reset_code_generation_state(self):
+        self.late_conversions = []
         self.declarations.clear()
         self.before_call.clear()
         self.after_call.clear()
@@ -646,6 +648,11 @@ class ReverseWrapperBase(object):
         ## convert the return value(s)
         self.return_value.convert_python_to_c(self)
 
+        ## conversions that may fail come when it is known what has to be
+        ## cleaned up after a failure
+        for conversion in self.late_conversions:
+            conversion()
+
         if self.parse_params.is_empty():
             self.before_call.write_error_check('py_retval != Py_None',
                                                'PyErr_SetString(PyExc_TypeError, "function/method should return None");')
diff --git a/pybindgen/typehandlers/booltype.py b/pybindgen/typehandlers/booltype.py
index b0606c9..2a320de 100644
--- a/pybindgen/typehandlers/booltype.py
+++ b/pybindgen/typehandlers/booltype.py
@@ -79,7 +79,8 @@ class BoolPtrParam(Parameter):
             py_name = wrapper.declarations.declare_variable(
                 'PyObject *', 'py_'+self.name)
             wrapper.parse_params.add_parameter("O", ["&"+py_name], self.value)
-            _convert_truth_value(wrapper, wrapper.after_call, '*' + self.value, py_name)
+            wrapper.late_conversions.append(
+                lambda: _convert_truth_value(wrapper, wrapper.after_call, '*' + self.value, py_name))
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'bool*'
@@ -109,7 +110,8 @@ class BoolRefParam(Parameter):
             py_name = wrapper.declarations.declare_variable(
                 'PyObject *', 'py_'+self.name)
             wrapper.parse_params.add_parameter("O", ["&"+py_name], self.name)
-            _convert_truth_value(wrapper, wrapper.after_call, self.value, py_name)
+            wrapper.late_conversions.append(
+                lambda: _convert_truth_value(wrapper, wrapper.after_call, self.value, py_name))
 
     def convert_python_to_c(self, wrapper):
         #assert self.ctype == 'bool&'
-- 
2.43.0


From dfe47777b4e76cc52849730f7f6519373d613acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 38/70] fix: values returned by reference to const can be
 received

---
 pybindgen/typehandlers/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index 898bc76..f806cea 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -817,7 +817,9 @@ class ForwardWrapperBase(object):
             and self.return_value.ctype != 'void'
             and not self.return_value.REQUIRES_ASSIGNMENT_CONSTRUCTOR
             and not self.return_value.NO_RETVAL_DECL):
-            self.declarations.declare_variable(str(self.return_value.type_traits.ctype_no_const_no_ref), 'retval')
+            ## what remains of a reference to const is still const, and cannot be assigned to
+            retval_traits = ctypeparser.TypeTraits(str(self.return_value.type_traits.ctype_no_const_no_ref))
+            self.declarations.declare_variable(str(retval_traits.ctype_no_const), 'retval')
 
         self.declarations.reserve_variable('args')
         self.declarations.reserve_variable('kwargs')
-- 
2.43.0


From 63686377020f3c1296d2ce19106413d2aca86419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 39/70] fix: exceptions derive from their declared base also
 when its module is initialized later

---
 pybindgen/cppexception.py | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/pybindgen/cppexception.py b/pybindgen/cppexception.py
index 252a04f..a07ad5b 100644
--- a/pybindgen/cppexception.py
+++ b/pybindgen/cppexception.py
@@ -123,10 +123,35 @@ class CppException(object):
             mod_path.append(self.python_name)
             return '.'.join(mod_path)
         else:
-            return '%s.%s' % (self.outer_class.pytype.slots['tp_name'], self.python_name)
+            path = [self.python_name]
+            outer = self.outer_class
+            while outer is not None and 'tp_name' not in outer.pytype.slots:
+                path.insert(0, outer.get_python_name())
+                module, outer = outer.get_module(), outer.outer_class
+            if outer is not None:
+                path.insert(0, outer.pytype.slots['tp_name'])
+            else:
+                path = module.get_module_path() + path
+            return '.'.join(path)
     python_full_name = property(_get_python_full_name)
 
 
+    def write_create(self, code_block):
+        """
+        Writes code that creates the exception class unless that was done
+        before: the base class may belong to a module that is initialized later.
+        """
+        if self.is_standard_error:
+            return
+        if self.parent is None:
+            parent = 'NULL'
+        else:
+            self.parent.write_create(code_block)
+            parent = "(PyObject*) "+self.parent.pytypestruct
+        code_block.write_error_check('%s == NULL && (%s = (PyTypeObject*) PyErr_NewException((char*)"%s", %s, NULL)) == NULL'
+                                     % (self.pytypestruct, self.pytypestruct, self.python_full_name, parent))
+
+
     def generate_forward_declarations(self, code_sink, dummy_module):
         if self.is_standard_error:
             return
@@ -146,12 +171,7 @@ class CppException(object):
         code_sink.writeln('PyTypeObject *%s;' % (self.pytypestruct,))
         ## --- register the class type in the module ---
         module.after_init.write_code("/* Register the '%s' exception */" % self.full_name)
-        if self.parent is None:
-            parent = 'NULL'
-        else:
-            parent = "(PyObject*) "+self.parent.pytypestruct
-        module.after_init.write_error_check('(%s = (PyTypeObject*) PyErr_NewException((char*)"%s", %s, NULL)) == NULL'
-                                            % (self.pytypestruct, self.python_full_name, parent))
+        self.write_create(module.after_init)
         if docstring:
             module.after_init.write_code("%s->tp_doc = (char*)\"%s\";" % (self.pytypestruct, docstring))
 
-- 
2.43.0


From 1dab98f94e7d593f4deac14babf804d00c5e8340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:10 +0000
Subject: [PATCH 40/70] fix: a class derives from its base also when the base's
 module is initialized later

---
 pybindgen/cppattribute.py | 10 +++--
 pybindgen/cppclass.py     | 86 +++++++++++++++++++++++++--------------
 2 files changed, 62 insertions(+), 34 deletions(-)

diff --git a/pybindgen/cppattribute.py b/pybindgen/cppattribute.py
index f2c0006..77abc47 100644
--- a/pybindgen/cppattribute.py
+++ b/pybindgen/cppattribute.py
@@ -272,9 +272,9 @@ class PyMetaclass(object):
         self.parent_metaclass_expr = parent_metaclass_expr
         self.getsets = getsets
 
-    def generate(self, code_sink, module):
+    def generate(self, code_sink):
         """
-        Generate the metaclass to code_sink and register it in the module.
+        Generate the metaclass to code_sink.
         """
         code_sink.writeln('''
 PyTypeObject %(pytypestruct)s = {
@@ -328,7 +328,11 @@ PyTypeObject %(pytypestruct)s = {
 ''' % dict(pytypestruct=self.pytypestruct, name=self.name,
            getset=(self.getsets and self.getsets.cname or '0')))
 
-        module.after_init.write_code("""
+    def write_ready(self, code_block):
+        """
+        Write the code that makes the metaclass ready for use.
+        """
+        code_block.write_code("""
 %(pytypestruct)s.tp_base = %(parent_metaclass)s;
 /* Some fields need to be manually inheritted from the parent metaclass */
 %(pytypestruct)s.tp_traverse = %(parent_metaclass)s->tp_traverse;
diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index fd8b17e..dbd3af3 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -1964,6 +1964,55 @@ typedef struct {
             self.helper_class.generate(code_sink)
 
 
+    def _get_metaclass(self):
+        """Returns the metaclass, or None if the class does not need one"""
+        if self.static_attributes.empty():
+            return None
+        if self.parent is None:
+            parent_typestruct = 'PyBaseObject_Type'
+        else:
+            parent_typestruct = self.parent.pytypestruct
+        return PyMetaclass(self.metaclass_name,
+                           "Py_TYPE(&%s)" % parent_typestruct,
+                           self.static_attributes)
+
+    def _write_type_ready(self, code_block, module):
+        """
+        Writes the code that makes the Python type ready, unless that was done
+        before: the base classes that belong to other modules, which may be
+        initialized later than module, are made ready first.
+        """
+        for base in self.bases:
+            if base.module is not module and not base.import_from_module:
+                base._write_type_ready(code_block, module)
+
+        code_block.write_code('if (!(%s.tp_flags & Py_TPFLAGS_READY)) {' % self.pytypestruct)
+        code_block.indent()
+
+        metaclass = self._get_metaclass()
+        if metaclass is not None:
+            metaclass.write_ready(code_block)
+
+        if self.parent is not None:
+            assert isinstance(self.parent, CppClass)
+            code_block.write_code('%s.tp_base = &%s;' %
+                                  (self.pytypestruct, self.parent.pytypestruct))
+            if len(self.bases) > 1:
+                code_block.write_code('%s.tp_bases = PyTuple_New(%i);' % (self.pytypestruct, len(self.bases),))
+                for basenum, base in enumerate(self.bases):
+                    code_block.write_code('    Py_INCREF((PyObject *) &%s);' % (base.pytypestruct,))
+                    code_block.write_code('    PyTuple_SET_ITEM(%s.tp_bases, %i, (PyObject *) &%s);'
+                                          % (self.pytypestruct, basenum, base.pytypestruct))
+
+        if metaclass is not None:
+            code_block.write_code('Py_TYPE(&%s) = &%s;' %
+                                  (self.pytypestruct, metaclass.pytypestruct))
+
+        code_block.write_error_check('PyType_Ready(&%s)'
+                                     % (self.pytypestruct,))
+        code_block.unindent()
+        code_block.write_code('}')
+
     def generate(self, code_sink, module):
         """Generates the class to a code sink"""
 
@@ -1990,41 +2039,16 @@ typedef struct {
         ## generate getsets
         instance_getsets = self.instance_attributes.generate(code_sink)
         self.slots.setdefault("tp_getset", instance_getsets)
-        static_getsets = self.static_attributes.generate(code_sink)
-
-        ## --- register the class type in the module ---
-        module.after_init.write_code("/* Register the '%s' class */" % self.full_name)
+        self.static_attributes.generate(code_sink)
 
         ## generate a metaclass if needed
-        if static_getsets == '0':
-            metaclass = None
-        else:
-            if self.parent is None:
-                parent_typestruct = 'PyBaseObject_Type'
-            else:
-                parent_typestruct = self.parent.pytypestruct
-            metaclass = PyMetaclass(self.metaclass_name,
-                                    "Py_TYPE(&%s)" % parent_typestruct,
-                                    self.static_attributes)
-            metaclass.generate(code_sink, module)
-
-        if self.parent is not None:
-            assert isinstance(self.parent, CppClass)
-            module.after_init.write_code('%s.tp_base = &%s;' %
-                                         (self.pytypestruct, self.parent.pytypestruct))
-            if len(self.bases) > 1:
-                module.after_init.write_code('%s.tp_bases = PyTuple_New(%i);' % (self.pytypestruct, len(self.bases),))
-                for basenum, base in enumerate(self.bases):
-                    module.after_init.write_code('    Py_INCREF((PyObject *) &%s);' % (base.pytypestruct,))
-                    module.after_init.write_code('    PyTuple_SET_ITEM(%s.tp_bases, %i, (PyObject *) &%s);'
-                                                 % (self.pytypestruct, basenum, base.pytypestruct))
-
+        metaclass = self._get_metaclass()
         if metaclass is not None:
-            module.after_init.write_code('Py_TYPE(&%s) = &%s;' %
-                                         (self.pytypestruct, metaclass.pytypestruct))
+            metaclass.generate(code_sink)
 
-        module.after_init.write_error_check('PyType_Ready(&%s)'
-                                          % (self.pytypestruct,))
+        ## --- register the class type in the module ---
+        module.after_init.write_code("/* Register the '%s' class */" % self.full_name)
+        self._write_type_ready(module.after_init, module)
 
         class_python_name = self.get_python_name()
 
-- 
2.43.0


From 9508cf397f3f0089827d441696794146c2585a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:04 +0000
Subject: [PATCH 41/70] fix: type narrowing finds the wrapped class with
 several bases nearest to an unwrapped one

---
 pybindgen/cppclass.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index dbd3af3..0fa5456 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -1375,15 +1375,14 @@ public:
 
            // Get closest (in the single inheritance tree provided by cxxabi.h)
            // registered python wrapper.
-           const abi::__si_class_type_info *_typeinfo =
-               dynamic_cast<const abi::__si_class_type_info*> (&cpp_type_info);
-#if PBG_TYPEMAP_DEBUG
-          std::cerr << "  -> looking at C++ type " << _typeinfo->name() << std::endl;
-#endif
+           const std::type_info *_typeinfo = &cpp_type_info;
            while (_typeinfo && (python_wrapper = m_map[std::string(_typeinfo->name())]) == 0) {
-               _typeinfo = dynamic_cast<const abi::__si_class_type_info*> (_typeinfo->__base_type);
+               const abi::__si_class_type_info *_si_typeinfo =
+                   dynamic_cast<const abi::__si_class_type_info*> (_typeinfo);
+               _typeinfo = _si_typeinfo? _si_typeinfo->__base_type : 0;
 #if PBG_TYPEMAP_DEBUG
-               std::cerr << "  -> looking at C++ type " << _typeinfo->name() << std::endl;
+               if (_typeinfo)
+                   std::cerr << "  -> looking at C++ type " << _typeinfo->name() << std::endl;
 #endif
            }
 
-- 
2.43.0


From d4ea200da57a99b8522707fc3f574fe1f93b0aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:29 +0000
Subject: [PATCH 42/70] fix: an object whose class has several bases is taken
 as any of them, by functions, methods and attributes

---
 pybindgen/cppattribute.py           |  14 +--
 pybindgen/cppclass.py               | 146 +++++++++++++++++++---------
 pybindgen/cppcustomattribute.py     |  25 ++---
 pybindgen/cppmethod.py              |  18 ++--
 pybindgen/typehandlers/smart_ptr.py |   8 +-
 5 files changed, 136 insertions(+), 75 deletions(-)

diff --git a/pybindgen/cppattribute.py b/pybindgen/cppattribute.py
index 77abc47..327bb45 100644
--- a/pybindgen/cppattribute.py
+++ b/pybindgen/cppattribute.py
@@ -56,10 +56,6 @@ class CppInstanceAttributeGetter(PyGetter):
         self.getter = getter
         self.c_function_name = "_wrap_%s__get_%s" % (self.class_.pystruct,
                                                      self.attribute_name)
-        if self.getter is None:
-            value_type.value = "self->obj->%s" % self.attribute_name
-        else:
-            value_type.value = "self->obj->%s()" % self.getter
 
     def generate_call(self):
         "virtual method implementation; do not call"
@@ -69,6 +65,12 @@ class CppInstanceAttributeGetter(PyGetter):
         """
         :param code_sink: a CodeSink instance that will receive the generated code
         """
+        obj = self.class_.get_object_expression('self')
+        if self.getter is None:
+            self.return_value.value = "%s->%s" % (obj, self.attribute_name)
+        else:
+            self.return_value.value = "%s->%s()" % (obj, self.getter)
+
         tmp_sink = codesink.MemoryCodeSink()
         self.generate_body(tmp_sink)
         code_sink.writeln("static PyObject* %s(%s *self, void * PYBINDGEN_UNUSED(closure))"
@@ -157,7 +159,7 @@ class CppInstanceAttributeSetter(PySetter):
             self.return_value.value = value_var
         else:
             ## else the value is written directly to a C++ instance attribute
-            self.return_value.value = "self->obj->%s" % self.attribute_name
+            self.return_value.value = "%s->%s" % (self.class_.get_object_expression('self'), self.attribute_name)
             self.return_value.REQUIRES_ASSIGNMENT_CONSTRUCTOR = False
 
         self.return_value.convert_python_to_c(self)
@@ -172,7 +174,7 @@ class CppInstanceAttributeSetter(PySetter):
 
         if self.setter is not None:
             ## if we have a setter method, now is the time to call it
-            self.after_call.write_code("self->obj->%s(%s);" % (self.setter, value_var))
+            self.after_call.write_code("%s->%s(%s);" % (self.class_.get_object_expression('self'), self.setter, value_var))
 
         ## cleanup and return
         self.after_call.write_cleanup()
diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 0fa5456..c37ab94 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -695,6 +695,9 @@ class CppClass(object):
             self.bases = []
         else:
             raise TypeError("'parent' must be None, CppClass instance, or a list of CppClass instances")
+        self.subclasses = [] # classes that have this one as a base
+        for base in self.bases:
+            base.subclasses.append(self)
 
         if free_function:
             warnings.warn("Use FreeFunctionPolicy and memory_policy parameter.", DeprecationWarning)
@@ -1111,6 +1114,59 @@ class CppClass(object):
             construct_type_name = self.get_construct_name()
         post_instance_creation_func(self, code_block, lvalue, parameters, construct_type_name)
 
+    def _get_relocated_subclasses(self):
+        """
+        Returns the derived classes in which this class is reached through a
+        base that is not the first one, the most derived ones first; the C++
+        object such a class wraps has another address as an object of this class.
+        """
+        subclasses = []
+        to_visit = list(self.subclasses)
+        while to_visit:
+            cls = to_visit.pop(0)
+            if cls not in subclasses:
+                subclasses.append(cls)
+                to_visit.extend(cls.subclasses)
+        relocated = []
+        for cls in subclasses:
+            line = [cls]
+            while line[-1].parent is not None:
+                line.append(line[-1].parent)
+            if len(cls.bases) > 1 and self not in line:
+                relocated.append(cls)
+        relocated.sort(key=lambda cls: len(list(cls.get_mro())), reverse=True)
+        return relocated
+
+    def get_object_expression(self, py_name):
+        """
+        Returns a C++ expression for the wrapped object, as this class, of the
+        Python object py_name, which may be an instance of a derived class.
+        """
+        if self._get_relocated_subclasses():
+            return '_wrap_%s__get_object((PyObject *) %s)' % (self.pystruct, py_name)
+        return '((%s *) %s)->obj' % (self.pystruct, py_name)
+
+    def _generate_get_object(self, code_sink):
+        """Generates the function used by get_object_expression()"""
+        relocated_subclasses = self._get_relocated_subclasses()
+        if not relocated_subclasses:
+            return
+        code_sink.writeln("%s\n_wrap_%s__get_object(PyObject *self)\n{" % (self._get_object_type(), self.pystruct))
+        code_sink.indent()
+        for cls in relocated_subclasses:
+            code_sink.writeln("if (PyObject_TypeCheck(self, &%s)) {\n"
+                              "    return ((%s *) self)->obj;\n"
+                              "}" % (cls.pytypestruct, cls.pystruct))
+        code_sink.writeln("return ((%s *) self)->obj;" % (self.pystruct,))
+        code_sink.unindent()
+        code_sink.writeln("}\n")
+
+    def _get_object_type(self):
+        """Returns the C++ type of the obj field of the Python object"""
+        if self.memory_policy is not None:
+            return self.memory_policy.get_pointer_type(self.full_name)
+        return self.full_name + " *"
+
     def get_pystruct(self):
         if self._pystruct is None:
             raise ValueError
@@ -1841,10 +1897,7 @@ public:
         structures.
         """
 
-        if self.memory_policy is not None:
-            pointer_type = self.memory_policy.get_pointer_type(self.full_name)
-        else:
-            pointer_type = self.full_name + " *"
+        pointer_type = self._get_object_type()
 
         if self.allow_subclassing:
             code_sink.writeln('''
@@ -1868,6 +1921,10 @@ typedef struct {
 
         code_sink.writeln()
 
+        if self._get_relocated_subclasses():
+            code_sink.writeln('%s_wrap_%s__get_object(PyObject *self);' % (self._get_object_type(), self.pystruct))
+            code_sink.writeln()
+
         if self.import_from_module:
             code_sink.writeln('extern PyTypeObject *_%s;' % (self.pytypestruct,))
             code_sink.writeln('#define %s (*_%s)' % (self.pytypestruct, self.pytypestruct))
@@ -2017,6 +2074,7 @@ typedef struct {
 
         if self.import_from_module:
             self._generate_import_from_module(code_sink, module)
+            self._generate_get_object(code_sink)
             return # .......................... RETURN
 
         if self.typeid_map_name is not None:
@@ -2027,6 +2085,8 @@ typedef struct {
         if self.automatic_type_narrowing:
             self._register_typeid(module)
 
+        self._generate_get_object(code_sink)
+
         if self.parent is None:
             self.wrapper_registry.generate(code_sink, module)
 
@@ -2357,7 +2417,7 @@ static PyObject*\n%s(%s *self, PyObject *PYBINDGEN_UNUSED(_args))
 
         py_copy = declarations.declare_variable("%s*" % self.pystruct, "py_copy")
         self.write_allocate_pystruct(code_block, py_copy)
-        self.write_create_instance(code_block, "%s->obj" % py_copy, "*self->obj", construct_name)
+        self.write_create_instance(code_block, "%s->obj" % py_copy, "*" + self.get_object_expression("self"), construct_name)
         if self.allow_subclassing:
             code_block.write_code("%s->inst_dict = NULL;" % py_copy)
         code_block.write_code("%s->flags = PYBINDGEN_WRAPPER_FLAG_NONE;" % py_copy)
@@ -2573,11 +2633,11 @@ static PyObject *
 %s(%s *self)
 {
     std::ostringstream oss;
-    oss << *self->obj;
+    oss << *%s;
     return PyUnicode_FromString(oss.str ().c_str ());
 }
 
-''' % (tp_str_function_name, self.pystruct))
+''' % (tp_str_function_name, self.pystruct, self.get_object_expression('self')))
 
     def _generate_tp_hash(self, code_sink):
         """generates a tp_hash function, which returns a hash of the self->obj pointer"""
@@ -2677,13 +2737,14 @@ if (!PyObject_IsInstance((PyObject*) other, (PyObject*) &%s)) {
             code_sink.writeln("case %s:" % opid_code)
             code_sink.indent()
             if name in self.binary_comparison_operators:
-                code_sink.writeln("if (*self->obj %(OP)s *other->obj) {\n"
+                code_sink.writeln("if (*%(SELF)s %(OP)s *%(OTHER)s) {\n"
                                   "    Py_INCREF(Py_True);\n"
                                   "    return Py_True;\n"
                                   "} else {\n"
                                   "    Py_INCREF(Py_False);\n"
                                   "    return Py_False;\n"
-                                  "}" % dict(OP=name))
+                                  "}" % dict(OP=name, SELF=self.get_object_expression('self'),
+                                             OTHER=self.get_object_expression('other')))
             else:
                 code_sink.writeln("Py_INCREF(Py_NotImplemented);\n"
                                   "return Py_NotImplemented;")
@@ -3083,7 +3144,7 @@ class CppClassParameter(CppClassParameterBase):
         if self.take_value_from_python_self:
             self.py_name = 'self'
             wrapper.call_params.append(
-                '*((%s *) %s)->obj' % (self.cpp_class.pystruct, self.py_name))
+                '*' + self.cpp_class.get_object_expression(self.py_name))
         else:
             implicit_conversion_sources = self.cpp_class.get_all_implicit_conversions()
             if not implicit_conversion_sources:
@@ -3094,14 +3155,14 @@ class CppClassParameter(CppClassParameterBase):
                     wrapper.parse_params.add_parameter(
                         'O!', ['&'+self.cpp_class.pytypestruct, '&'+self.py_name], self.name, optional=True)
                     wrapper.call_params.append(
-                        '(%s ? (*((%s *) %s)->obj) : %s)' % (self.py_name, self.cpp_class.pystruct, self.py_name, self.default_value))
+                        '(%s ? (*%s) : %s)' % (self.py_name, self.cpp_class.get_object_expression(self.py_name), self.default_value))
                 else:
                     self.py_name = wrapper.declarations.declare_variable(
                         self.cpp_class.pystruct+'*', self.name)
                     wrapper.parse_params.add_parameter(
                         'O!', ['&'+self.cpp_class.pytypestruct, '&'+self.py_name], self.name)
                     wrapper.call_params.append(
-                        '*((%s *) %s)->obj' % (self.cpp_class.pystruct, self.py_name))
+                        '*' + self.cpp_class.get_object_expression(self.py_name))
             else:
                 if self.default_value is None:
                     self.py_name = wrapper.declarations.declare_variable(
@@ -3118,10 +3179,9 @@ class CppClassParameter(CppClassParameterBase):
 
                 if self.default_value is None:
                     wrapper.before_call.write_code("if (PyObject_IsInstance(%s, (PyObject*) &%s)) {\n"
-                                                   "    %s = *((%s *) %s)->obj;" %
+                                                   "    %s = *%s;" %
                                                    (self.py_name, self.cpp_class.pytypestruct,
-                                                    tmp_value_variable,
-                                                    self.cpp_class.pystruct, self.py_name))
+                                                    tmp_value_variable, self.cpp_class.get_object_expression(self.py_name)))
                 else:
                     wrapper.before_call.write_code(
                         "if (%s == NULL) {\n"
@@ -3129,16 +3189,14 @@ class CppClassParameter(CppClassParameterBase):
                         (self.py_name, tmp_value_variable, self.default_value))
                     wrapper.before_call.write_code(
                         "} else if (PyObject_IsInstance(%s, (PyObject*) &%s)) {\n"
-                                                   "    %s = *((%s *) %s)->obj;" %
+                                                   "    %s = *%s;" %
                                                    (self.py_name, self.cpp_class.pytypestruct,
-                                                    tmp_value_variable,
-                                                    self.cpp_class.pystruct, self.py_name))
+                                                    tmp_value_variable, self.cpp_class.get_object_expression(self.py_name)))
                 for conversion_source in implicit_conversion_sources:
                     wrapper.before_call.write_code("} else if (PyObject_IsInstance(%s, (PyObject*) &%s)) {\n"
-                                                   "    %s = *((%s *) %s)->obj;" %
+                                                   "    %s = *%s;" %
                                                    (self.py_name, conversion_source.pytypestruct,
-                                                    tmp_value_variable,
-                                                    conversion_source.pystruct, self.py_name))
+                                                    tmp_value_variable, conversion_source.get_object_expression(self.py_name)))
                 wrapper.before_call.write_code("} else {\n")
                 wrapper.before_call.indent()
                 possible_type_names = ", ".join([cls.name for cls in [self.cpp_class] + implicit_conversion_sources])
@@ -3202,7 +3260,7 @@ class CppClassRefParameter(CppClassParameterBase):
             if self.take_value_from_python_self:
                 self.py_name = 'self'
                 wrapper.call_params.append(
-                    '*((%s *) %s)->obj' % (self.cpp_class.pystruct, self.py_name))
+                    '*' + self.cpp_class.get_object_expression(self.py_name))
             else:
                 implicit_conversion_sources = self.cpp_class.get_all_implicit_conversions()
                 if not (implicit_conversion_sources and self.type_traits.target_is_const):
@@ -3218,20 +3276,18 @@ class CppClassRefParameter(CppClassParameterBase):
                                 self.default_value_type, "%s_default" % self.name,
                                 self.default_value)
                             wrapper.call_params.append(
-                                '(%s ? (*((%s *) %s)->obj) : %s)' % (self.py_name, self.cpp_class.pystruct,
-                                                                     self.py_name, default_value_name))
+                                '(%s ? (*%s) : %s)' % (self.py_name, self.cpp_class.get_object_expression(self.py_name), default_value_name))
                         else:
                             self.cpp_class.get_construct_name() # raises an exception if the class cannot be constructed
                             wrapper.call_params.append(
-                                '(%s ? (*((%s *) %s)->obj) : %s)' % (self.py_name, self.cpp_class.pystruct,
-                                                                     self.py_name, self.default_value))
+                                '(%s ? (*%s) : %s)' % (self.py_name, self.cpp_class.get_object_expression(self.py_name), self.default_value))
                     else:
                         self.py_name = wrapper.declarations.declare_variable(
                             self.cpp_class.pystruct+'*', self.name)
                         wrapper.parse_params.add_parameter(
                             'O!', ['&'+self.cpp_class.pytypestruct, '&'+self.py_name], self.name)
                         wrapper.call_params.append(
-                            '*((%s *) %s)->obj' % (self.cpp_class.pystruct, self.py_name))
+                            '*' + self.cpp_class.get_object_expression(self.py_name))
                 else:
                     if self.default_value is not None:
                         warnings.warn("with implicit conversions, default value "
@@ -3243,16 +3299,14 @@ class CppClassRefParameter(CppClassParameterBase):
                     wrapper.parse_params.add_parameter('O', ['&'+self.py_name], self.name)
 
                     wrapper.before_call.write_code("if (PyObject_IsInstance(%s, (PyObject*) &%s)) {\n"
-                                                   "    %s = *((%s *) %s)->obj;" %
+                                                   "    %s = *%s;" %
                                                    (self.py_name, self.cpp_class.pytypestruct,
-                                                    tmp_value_variable,
-                                                    self.cpp_class.pystruct, self.py_name))
+                                                    tmp_value_variable, self.cpp_class.get_object_expression(self.py_name)))
                     for conversion_source in implicit_conversion_sources:
                         wrapper.before_call.write_code("} else if (PyObject_IsInstance(%s, (PyObject*) &%s)) {\n"
-                                                       "    %s = *((%s *) %s)->obj;" %
-                                                       (self.py_name, conversion_source.pytypestruct,
-                                                        tmp_value_variable,
-                                                        conversion_source.pystruct, self.py_name))
+                                                       "    %s = *%s;" %
+                                                   (self.py_name, conversion_source.pytypestruct,
+                                                    tmp_value_variable, conversion_source.get_object_expression(self.py_name)))
                     wrapper.before_call.write_code("} else {\n")
                     wrapper.before_call.indent()
                     possible_type_names = ", ".join([cls.name for cls in [self.cpp_class] + implicit_conversion_sources])
@@ -3397,10 +3451,10 @@ class CppClassReturnValue(CppClassReturnValueBase):
         wrapper.parse_params.add_parameter(
             'O!', ['&'+self.cpp_class.pytypestruct, '&'+name], prepend=True)
         if self.REQUIRES_ASSIGNMENT_CONSTRUCTOR:
-            wrapper.after_call.write_code('%s %s = *%s->obj;' %
-                                          (self.cpp_class.full_name, self.value, name))
+            wrapper.after_call.write_code('%s %s = *%s;' %
+                                          (self.cpp_class.full_name, self.value, self.cpp_class.get_object_expression(name)))
         else:
-            wrapper.after_call.write_code('%s = *%s->obj;' % (self.value, name))
+            wrapper.after_call.write_code('%s = *%s;' % (self.value, self.cpp_class.get_object_expression(name)))
 
 
 class CppClassRefReturnValue(CppClassReturnValueBase):
@@ -3479,8 +3533,8 @@ class CppClassRefReturnValue(CppClassReturnValueBase):
         wrapper.parse_params.add_parameter(
             'O!', ['&'+self.cpp_class.pytypestruct, '&'+name], prepend=True)
         ## a reference to the object itself, and not to a local copy of it
-        wrapper.after_call.write_code('const %s &%s = *%s->obj;' %
-                                      (self.cpp_class.full_name, self.value, name))
+        wrapper.after_call.write_code('const %s &%s = *%s;' %
+                                      (self.cpp_class.full_name, self.value, self.cpp_class.get_object_expression(name)))
 
 
 class CppClassPtrParameter(CppClassParameterBase):
@@ -3556,7 +3610,7 @@ class CppClassPtrParameter(CppClassParameterBase):
 
         if self.take_value_from_python_self:
             self.py_name = 'self'
-            value_ptr = 'self->obj'
+            value_ptr = self.cpp_class.get_object_expression('self')
         else:
             self.py_name = wrapper.declarations.declare_variable(
                 self.cpp_class.pystruct+'*', self.name,
@@ -3584,17 +3638,19 @@ class CppClassPtrParameter(CppClassParameterBase):
                                                "    if ((PyObject *) %(PYNAME)s == Py_None)\n"
                                                "        %(VALUE)s = NULL;\n"
                                                "    else\n"
-                                               "        %(VALUE)s = %(PYNAME)s->obj;\n"
+                                               "        %(VALUE)s = %(OBJECT)s;\n"
                                                "} else {\n"
                                                "    %(VALUE)s = %(DEFAULT)s;\n"
                                                "}" % dict(PYNAME=self.py_name, VALUE=value_ptr,
+                                                          OBJECT=self.cpp_class.get_object_expression(self.py_name),
                                                           DEFAULT=default_ptr))
 
             else:
 
                 wrapper.parse_params.add_parameter(
                     'O!', ['&'+self.cpp_class.pytypestruct, '&'+self.py_name], self.name, optional=bool(self.default_value))
-                wrapper.before_call.write_code("%s = (%s ? %s->obj : %s);" % (value_ptr, self.py_name, self.py_name, default_ptr))
+                wrapper.before_call.write_code("%s = (%s ? %s : %s);" % (
+                    value_ptr, self.py_name, self.cpp_class.get_object_expression(self.py_name), default_ptr))
 
         value = self.transformation.transform(self, wrapper.declarations, wrapper.before_call, value_ptr)
         wrapper.call_params.append(value)
@@ -3625,7 +3681,7 @@ class CppClassPtrParameter(CppClassParameterBase):
                 def write_give_reference(code_block):
                     code_block.write_code("if (%s) {" % given)
                     code_block.indent()
-                    self.cpp_class.memory_policy.write_incref(code_block, "%s->obj" % self.py_name)
+                    self.cpp_class.memory_policy.write_incref(code_block, self.cpp_class.get_object_expression(self.py_name))
                     code_block.unindent()
                     code_block.write_code("}")
                 wrapper.at_call_actions.append(write_give_reference)
@@ -3923,7 +3979,7 @@ class CppClassPtrReturnValue(CppClassReturnValueBase):
             'O!', ['&'+self.cpp_class.pytypestruct, '&'+name], prepend=True)
 
         value = self.transformation.transform(
-            self, wrapper.declarations, wrapper.after_call, "%s->obj" % name)
+            self, wrapper.declarations, wrapper.after_call, self.cpp_class.get_object_expression(name))
 
         ## now the hairy part :)
         if self.caller_owns_return:
@@ -3949,7 +4005,7 @@ class CppClassPtrReturnValue(CppClassReturnValueBase):
                     wrapper.after_call.write_code(
                         "%s = %s;" % (self.value, value))
                     wrapper.after_call.write_code(
-                        "%s = NULL;" % (value,))
+                        "%s->obj = NULL;" % (name,))
             else:
                 ## the caller gets a new reference to the same obj
                 self.cpp_class.memory_policy.write_incref(wrapper.after_call, value)
diff --git a/pybindgen/cppcustomattribute.py b/pybindgen/cppcustomattribute.py
index a504551..b7e14ec 100644
--- a/pybindgen/cppcustomattribute.py
+++ b/pybindgen/cppcustomattribute.py
@@ -21,14 +21,7 @@ class CppCustomInstanceAttributeGetter(PyGetter):
         self.getter = getter
         self.c_function_name = "_wrap_%s__get_%s" % (self.class_.pystruct,
                                                      self.attribute_name)
-        if template_parameters == []:
-            value_type.value = "%s(*((%s *)self)->obj)" % (self.getter, self.class_.pystruct)
-        else:
-            value_type.value = "%s<%s" % (self.getter, template_parameters[0])
-            if len(template_parameters) > 1:
-                for x in template_parameters[1:]:
-                    value_type.value += ", %s " % x
-            value_type.value += ">(*((%s *)self)->obj)" % self.class_.pystruct
+        self.template_parameters = template_parameters
 
     def generate_call(self):
         "virtual method implementation; do not call"
@@ -38,6 +31,16 @@ class CppCustomInstanceAttributeGetter(PyGetter):
         """
         :param code_sink: a CodeSink instance that will receive the generated code
         """
+        obj = self.class_.get_object_expression('self')
+        if self.template_parameters == []:
+            self.return_value.value = "%s(*%s)" % (self.getter, obj)
+        else:
+            self.return_value.value = "%s<%s" % (self.getter, self.template_parameters[0])
+            if len(self.template_parameters) > 1:
+                for x in self.template_parameters[1:]:
+                    self.return_value.value += ", %s " % x
+            self.return_value.value += ">(*%s)" % obj
+
         tmp_sink = codesink.MemoryCodeSink()
         self.generate_body(tmp_sink)
         code_sink.writeln("static PyObject* %s(%s *self, void * PYBINDGEN_UNUSED(closure))"
@@ -88,7 +91,7 @@ class CppCustomInstanceAttributeSetter(PySetter):
             self.return_value.value = value_var
         else:
             ## else the value is written directly to a C++ instance attribute
-            self.return_value.value = "self->obj->%s" % self.attribute_name
+            self.return_value.value = "%s->%s" % (self.class_.get_object_expression('self'), self.attribute_name)
             self.return_value.REQUIRES_ASSIGNMENT_CONSTRUCTOR = False
 
         self.return_value.convert_python_to_c(self)
@@ -104,13 +107,13 @@ class CppCustomInstanceAttributeSetter(PySetter):
         if self.setter is not None:
             ## if we have a setter method, now is the time to call it
             if len(self.template_parameters) == 0:
-                code = "%s(*((%s *)self)->obj, %s);" % (self.setter, self.class_.pystruct, value_var)
+                code = "%s(*%s, %s);" % (self.setter, self.class_.get_object_expression('self'), value_var)
             else:
                 code = "%s<%s" % (self.setter, self.template_parameters[0])
                 if len(self.template_parameters) > 1:
                     for x in self.template_parameters[1:]:
                         code += ", %s " % x
-                code += ">(*((%s *)self)->obj, %s);" % (self.class_.pystruct, value_var)
+                code += ">(*%s, %s);" % (self.class_.get_object_expression('self'), value_var)
             self.after_call.write_code(code)
 
         ## cleanup and return
diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index e367787..7e6682e 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -257,10 +257,8 @@ class CppMethod(ForwardWrapperBase):
                 and not settings._get_deprecated_virtuals():
             not_python_subclass = "!PyType_HasFeature(Py_TYPE(self), Py_TPFLAGS_HEAPTYPE)"
 
-        if self.is_static:
-            method = '%s::%s%s' % (class_.full_name, self.method_name, template_params)
-        else:
-            method = 'self->obj->%s%s' % (self.method_name, template_params)
+        if not self.is_static:
+            obj = class_.get_object_expression('self')
 
         if self.throw:
             self.before_call.write_code('try\n{')
@@ -274,17 +272,17 @@ class CppMethod(ForwardWrapperBase):
         else:
             if not_python_subclass is None:
                 self.write_call_with_retval(
-                        'self->obj->%s%s(%s)' % (self.method_name, template_params,
-                                                 ", ".join(self.call_params)))
+                        '%s->%s%s(%s)' % (obj, self.method_name, template_params,
+                                          ", ".join(self.call_params)))
             else:
                 self.write_call_with_retval(
-                        '(%s)? (self->obj->%s%s(%s)) : (self->obj->%s::%s%s(%s))'
+                        '(%s)? (%s->%s%s(%s)) : (%s->%s::%s%s(%s))'
                         % (not_python_subclass,
 
-                           self.method_name, template_params,
+                           obj, self.method_name, template_params,
                            ", ".join(self.call_params),
 
-                           class_.full_name, self.method_name, template_params,
+                           obj, class_.full_name, self.method_name, template_params,
                            ", ".join(self.call_params)
                            ))
 
@@ -943,7 +941,7 @@ class CppVirtualMethodParentCaller(CppMethod):
         helper = self.before_call.declare_variable(
             type_=('%s*' % self._helper_class.name),
             name='helper',
-            initializer=("dynamic_cast< %s* >(self->obj)" %  self._helper_class.name))
+            initializer=("dynamic_cast< %s* >(%s)" % (self._helper_class.name, class_.get_object_expression('self'))))
         method = '%s->%s__parent_caller' % (helper, self.method_name)
         self.before_call.write_error_check(
             "%s == NULL" % helper,
diff --git a/pybindgen/typehandlers/smart_ptr.py b/pybindgen/typehandlers/smart_ptr.py
index ba650af..e7e7e5a 100644
--- a/pybindgen/typehandlers/smart_ptr.py
+++ b/pybindgen/typehandlers/smart_ptr.py
@@ -191,17 +191,19 @@ class CppClassSharedPtrParameter(CppClassParameterBase):
                                            "    if ((PyObject *) %(PYNAME)s == Py_None)\n"
                                            "        %(VALUE)s = NULL;\n"
                                            "    else\n"
-                                           "        %(VALUE)s = %(PYNAME)s->obj;\n"
+                                           "        %(VALUE)s = %(OBJECT)s;\n"
                                            "} else {\n"
                                            "    %(VALUE)s = %(DEFAULT)s;\n"
                                            "}" % dict(PYNAME=self.py_name, VALUE=value_ptr,
+                                                      OBJECT=self.cpp_class.get_object_expression(self.py_name),
                                                       DEFAULT=(self.default_value or 'NULL')))
 
         else:
 
             wrapper.parse_params.add_parameter(
                 'O!', ['&'+self.cpp_class.pytypestruct, '&'+self.py_name], self.name, optional=bool(self.default_value))
-            wrapper.before_call.write_code("if (%s) { %s = %s->obj; }" % (self.py_name, value_ptr, self.py_name))
+            wrapper.before_call.write_code("if (%s) { %s = %s; }" % (
+                self.py_name, value_ptr, self.cpp_class.get_object_expression(self.py_name)))
             if self.default_value:
                 wrapper.before_call.write_code("else { %s = %s; }" % (value_ptr, self.default_value))
 
@@ -372,7 +374,7 @@ class CppClassSharedPtrReturnValue(CppClassReturnValueBase):
             'O!', ['&'+self.cpp_class.pytypestruct, '&'+name], prepend=True)
 
         value = self.transformation.transform(
-            self, wrapper.declarations, wrapper.after_call, "%s->obj" % name)
+            self, wrapper.declarations, wrapper.after_call, self.cpp_class.get_object_expression(name))
 
         # caller gets a shared pointer
         wrapper.after_call.write_code("%s = %s;" % (self.value, value))
-- 
2.43.0


From 209eff96270009206a050be1b105e17bb7a39e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:13 +0000
Subject: [PATCH 43/70] fix: deleting an attribute raises AttributeError
 instead of crashing

---
 pybindgen/cppattribute.py       | 6 ++++++
 pybindgen/cppcustomattribute.py | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/pybindgen/cppattribute.py b/pybindgen/cppattribute.py
index 327bb45..62ab415 100644
--- a/pybindgen/cppattribute.py
+++ b/pybindgen/cppattribute.py
@@ -146,6 +146,9 @@ class CppInstanceAttributeSetter(PySetter):
         """
 
         self.declarations.declare_variable('PyObject*', 'py_retval')
+        self.before_call.write_error_check(
+            'value == NULL',
+            'PyErr_SetString(PyExc_AttributeError, "cannot delete attribute %s");' % self.attribute_name)
         self.before_call.write_code(
             'py_retval = Py_BuildValue((char *) "(O)", value);')
         self.before_call.add_cleanup_code('Py_DECREF(py_retval);')
@@ -220,6 +223,9 @@ class CppStaticAttributeSetter(PySetter):
         """
 
         self.declarations.declare_variable('PyObject*', 'py_retval')
+        self.before_call.write_error_check(
+            'value == NULL',
+            'PyErr_SetString(PyExc_AttributeError, "cannot delete attribute %s");' % self.attribute_name)
         self.before_call.write_code(
             'py_retval = Py_BuildValue((char *) "(O)", value);')
         self.before_call.add_cleanup_code('Py_DECREF(py_retval);')
diff --git a/pybindgen/cppcustomattribute.py b/pybindgen/cppcustomattribute.py
index b7e14ec..a06746d 100644
--- a/pybindgen/cppcustomattribute.py
+++ b/pybindgen/cppcustomattribute.py
@@ -78,6 +78,9 @@ class CppCustomInstanceAttributeSetter(PySetter):
         """
 
         self.declarations.declare_variable('PyObject*', 'py_retval')
+        self.before_call.write_error_check(
+            'value == NULL',
+            'PyErr_SetString(PyExc_AttributeError, "cannot delete attribute %s");' % self.attribute_name)
         self.before_call.write_code(
             'py_retval = Py_BuildValue((char *) "(O)", value);')
         self.before_call.add_cleanup_code('Py_DECREF(py_retval);')
-- 
2.43.0


From 34c47796d69cb7b30d44a957ea76d106c9d229e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:13 +0000
Subject: [PATCH 44/70] fix: a container attribute keeps its value when a new
 one does not convert

---
 pybindgen/container.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pybindgen/container.py b/pybindgen/container.py
index b262319..28b6083 100644
--- a/pybindgen/container.py
+++ b/pybindgen/container.py
@@ -539,15 +539,16 @@ int %(CONTAINER_CONVERTER_FUNC_NAME)s(PyObject *arg, %(CTYPE)s *container)
     if (PyObject_IsInstance(arg, (PyObject*) &%(PYTYPESTRUCT)s)) {
         *container = *((%(PYSTRUCT)s*)arg)->obj;
     } else if (PyList_Check(arg)) {
-        container->clear();
+        %(CTYPE)s result;
         Py_ssize_t size = PyList_Size(arg);
         for (Py_ssize_t i = 0; i < size; i++) {
             %(ITEM_CTYPE)s item;
             if (!%(ITEM_CONVERTER)s(PyList_GET_ITEM(arg, i), &item)) {
                 return 0;
             }
-            container->%(ADD_VALUE)s(item);
+            result.%(ADD_VALUE)s(item);
         }
+        *container = result;
     } else {
         PyErr_SetString(PyExc_TypeError, "parameter must be None, a %(PYTHON_NAME)s instance, or a list of %(ITEM_CTYPE)s");
         return 0;
@@ -571,7 +572,7 @@ int %(CONTAINER_CONVERTER_FUNC_NAME)s(PyObject *arg, %(CTYPE)s *container)
     if (PyObject_IsInstance(arg, (PyObject*) &%(PYTYPESTRUCT)s)) {
         *container = *((%(PYSTRUCT)s*)arg)->obj;
     } else if (PyList_Check(arg)) {
-        container->clear();
+        %(CTYPE)s result;
         Py_ssize_t size = PyList_Size(arg);
         for (Py_ssize_t i = 0; i < size; i++) {
             PyObject *tup = PyList_GET_ITEM(arg, i);
@@ -586,8 +587,9 @@ int %(CONTAINER_CONVERTER_FUNC_NAME)s(PyObject *arg, %(CTYPE)s *container)
             if (!%(ITEM_CONVERTER)s(PyTuple_GET_ITEM(tup, 1), &item.second)) {
                 return 0;
             }
-            container->%(ADD_VALUE)s(item);
+            result.%(ADD_VALUE)s(item);
         }
+        *container = result;
     } else {
         PyErr_SetString(PyExc_TypeError, "parameter must be None, a %(PYTHON_NAME)s instance, or a list of %(ITEM_CTYPE)s");
         return 0;
-- 
2.43.0


From d75fbd2930c0c57e94704a829ebe3ce5776ed047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:13 +0000
Subject: [PATCH 45/70] fix: modules with classes that have several bases and
 static attributes can be imported

---
 pybindgen/cppclass.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index c37ab94..90edf77 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2061,11 +2061,22 @@ typedef struct {
                                           % (self.pytypestruct, basenum, base.pytypestruct))
 
         if metaclass is not None:
-            code_block.write_code('Py_TYPE(&%s) = &%s;' %
-                                  (self.pytypestruct, metaclass.pytypestruct))
+            type_of_type = '&' + metaclass.pytypestruct
+        elif self.parent is not None:
+            type_of_type = 'Py_TYPE(&%s)' % self.parent.pytypestruct
+        else:
+            type_of_type = None
+        if len(self.bases) > 1:
+            ## with a metaclass, PyType_Ready only accepts base classes that
+            ## have compatible layouts, which C++ base classes do not have
+            code_block.write_code('Py_TYPE(&%s) = &PyType_Type;' % (self.pytypestruct,))
+        elif metaclass is not None:
+            code_block.write_code('Py_TYPE(&%s) = %s;' % (self.pytypestruct, type_of_type))
 
         code_block.write_error_check('PyType_Ready(&%s)'
                                      % (self.pytypestruct,))
+        if len(self.bases) > 1:
+            code_block.write_code('Py_TYPE(&%s) = %s;' % (self.pytypestruct, type_of_type))
         code_block.unindent()
         code_block.write_code('}')
 
-- 
2.43.0


From 8388893dce33d266b286e7a2d44ab235085210e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:25 +0000
Subject: [PATCH 46/70] fix: short, char and size_t arguments are passed with
 their own type, so that C++ chooses the registered overload

---
 pybindgen/typehandlers/inttype.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pybindgen/typehandlers/inttype.py b/pybindgen/typehandlers/inttype.py
index 90cd2b4..fa5d82c 100644
--- a/pybindgen/typehandlers/inttype.py
+++ b/pybindgen/typehandlers/inttype.py
@@ -314,7 +314,7 @@ class UInt16Param(Parameter):
         wrapper.parse_params.add_parameter('i', ['&'+name], self.name, optional=bool(self.default_value))
         wrapper.before_call.write_error_check('%s > 0xffff || %s < 0' % (name, name),
                                               'PyErr_SetString(PyExc_ValueError, "Out of range");')
-        wrapper.call_params.append(name)
+        wrapper.call_params.append('(%s) %s' % (self.ctype_no_const, name))
 
 class UInt16RefParam(Parameter):
 
@@ -357,7 +357,7 @@ class Int16Param(Parameter):
         wrapper.parse_params.add_parameter('i', ['&'+name], self.name, optional=bool(self.default_value))
         wrapper.before_call.write_error_check('%s > 0x7fff || %s < -0x8000' % (name, name),
                                               'PyErr_SetString(PyExc_ValueError, "Out of range");')
-        wrapper.call_params.append(name)
+        wrapper.call_params.append('(%s) %s' % (self.ctype_no_const, name))
 
 
 class Int16RefParam(Parameter):
@@ -400,7 +400,7 @@ class UInt8Param(Parameter):
         wrapper.parse_params.add_parameter('i', ['&'+name], self.name, optional=bool(self.default_value))
         wrapper.before_call.write_error_check('%s > 0xff || %s < 0' % (name, name),
                                               'PyErr_SetString(PyExc_ValueError, "Out of range");')
-        wrapper.call_params.append(name)
+        wrapper.call_params.append('(%s) %s' % (self.ctype_no_const, name))
 
 class UInt8RefParam(Parameter):
 
@@ -461,7 +461,7 @@ class Int8Param(Parameter):
         wrapper.parse_params.add_parameter('i', ['&'+name], self.name, optional=bool(self.default_value))
         wrapper.before_call.write_error_check('%s > 0x7f || %s < -0x80' % (name, name),
                                               'PyErr_SetString(PyExc_ValueError, "Out of range");')
-        wrapper.call_params.append(name)
+        wrapper.call_params.append('(%s) %s' % (self.ctype_no_const, name))
 
 class Int8RefParam(Parameter):
 
@@ -658,7 +658,7 @@ class SizeTParam(Parameter):
         assert isinstance(wrapper, ForwardWrapperBase)
         name = wrapper.declarations.declare_variable("unsigned PY_LONG_LONG", self.name, self.default_value)
         wrapper.parse_params.add_parameter('K', ['&'+name], self.name, optional=bool(self.default_value))
-        wrapper.call_params.append(name)
+        wrapper.call_params.append('(%s) %s' % (self.ctype_no_const, name))
 
 
 
-- 
2.43.0


From e712acd8368c302ffe3cc61090596951b2fad808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:55 +0000
Subject: [PATCH 47/70] fix: add_inplace_numeric_operator accepts a CppClass as
 right operand type

---
 pybindgen/cppclass.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 90edf77..7c0ecec 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -914,6 +914,8 @@ class CppClass(object):
             self.inplace_numeric_operators[operator] = l
         if right is None:
             right = self
+        elif isinstance(right, CppClass):
+            pass
         else:
             if isinstance(right, string_types):
                 right = utils.param(right, 'right')
@@ -921,8 +923,9 @@ class CppClass(object):
                 right = utils.eval_param(right, None)
             except utils.SkipWrapper:
                 return
-        if right not in l:
-            l.append((self, self, right))
+        op = (self, self, right)
+        if op not in l:
+            l.append(op)
 
     def add_unary_numeric_operator(self, operator, result_cppclass=None, left_cppclass=None):
         """
-- 
2.43.0


From e6acc3798d0479ae0eaf78ce23a924543011fdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:55 +0000
Subject: [PATCH 48/70] fix: a class with only unary operators has them, and
 they raise TypeError for what they do not take

---
 pybindgen/cppclass.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 7c0ecec..522aff1 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2155,7 +2155,7 @@ typedef struct {
         if self.slots.get("tp_richcompare", "NULL") == "NULL" and self.binary_comparison_operators:
             self.slots["tp_richcompare"] = self._generate_tp_richcompare(code_sink)
 
-        if self.binary_numeric_operators or self.inplace_numeric_operators:
+        if self.binary_numeric_operators or self.inplace_numeric_operators or self.unary_numeric_operators:
             self.slots["tp_as_number"] = self._generate_number_methods(code_sink)
 
         if self.have_sequence_methods():
@@ -2267,8 +2267,10 @@ typedef struct {
                 code_sink.unindent()
                 code_sink.writeln("}")
 
-            code_sink.writeln("Py_INCREF(Py_NotImplemented);")
-            code_sink.writeln("return Py_NotImplemented;")
+            ## unlike those of the binary operators, the result of this
+            ## slot goes to the caller as it is
+            code_sink.writeln('PyErr_Format(PyExc_TypeError, "bad operand type for unary %s: \'%%s\'", Py_TYPE(py_self)->tp_name);' % op_symbol)
+            code_sink.writeln("return NULL;")
             code_sink.unindent()
             code_sink.writeln("}")
 
-- 
2.43.0


From e3727b15ce0be2b69a043a81f3c28e13ef5462b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:55 +0000
Subject: [PATCH 49/70] fix: str() of an object gives all that its output
 stream operator writes, also after a NUL

---
 pybindgen/cppclass.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 522aff1..05ec42b 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2650,7 +2650,8 @@ static PyObject *
 {
     std::ostringstream oss;
     oss << *%s;
-    return PyUnicode_FromString(oss.str ().c_str ());
+    std::string str = oss.str ();
+    return PyUnicode_FromStringAndSize(str.data (), str.size ());
 }
 
 ''' % (tp_str_function_name, self.pystruct, self.get_object_expression('self')))
-- 
2.43.0


From 115b42e28a89cb5fcdf7a7e64be0a2795bd7078c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:55 +0000
Subject: [PATCH 50/70] fix: objects that only pretend to be of a wrapped class
 (__class__) are not read as such

---
 pybindgen/container.py              |  4 ++--
 pybindgen/cppclass.py               | 14 +++++++-------
 pybindgen/typehandlers/smart_ptr.py |  2 +-
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pybindgen/container.py b/pybindgen/container.py
index 28b6083..96ea59f 100644
--- a/pybindgen/container.py
+++ b/pybindgen/container.py
@@ -536,7 +536,7 @@ static PyObject*
             code_sink.writeln(r'''
 int %(CONTAINER_CONVERTER_FUNC_NAME)s(PyObject *arg, %(CTYPE)s *container)
 {
-    if (PyObject_IsInstance(arg, (PyObject*) &%(PYTYPESTRUCT)s)) {
+    if (PyObject_TypeCheck(arg, &%(PYTYPESTRUCT)s)) {
         *container = *((%(PYSTRUCT)s*)arg)->obj;
     } else if (PyList_Check(arg)) {
         %(CTYPE)s result;
@@ -569,7 +569,7 @@ int %(CONTAINER_CONVERTER_FUNC_NAME)s(PyObject *arg, %(CTYPE)s *container)
             code_sink.writeln(r'''
 int %(CONTAINER_CONVERTER_FUNC_NAME)s(PyObject *arg, %(CTYPE)s *container)
 {
-    if (PyObject_IsInstance(arg, (PyObject*) &%(PYTYPESTRUCT)s)) {
+    if (PyObject_TypeCheck(arg, &%(PYTYPESTRUCT)s)) {
         *container = *((%(PYSTRUCT)s*)arg)->obj;
     } else if (PyList_Check(arg)) {
         %(CTYPE)s result;
diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 05ec42b..32abe96 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2743,7 +2743,7 @@ static void
         code_sink.indent()
 
         code_sink.writeln("""
-if (!PyObject_IsInstance((PyObject*) other, (PyObject*) &%s)) {
+if (!PyObject_TypeCheck((PyObject*) other, &%s)) {
     Py_INCREF(Py_NotImplemented);
     return Py_NotImplemented;
 }""" % self.pytypestruct)
@@ -3195,7 +3195,7 @@ class CppClassParameter(CppClassParameterBase):
                     wrapper.parse_params.add_parameter('O', ['&'+self.py_name], self.name, optional=True)
 
                 if self.default_value is None:
-                    wrapper.before_call.write_code("if (PyObject_IsInstance(%s, (PyObject*) &%s)) {\n"
+                    wrapper.before_call.write_code("if (PyObject_TypeCheck(%s, &%s)) {\n"
                                                    "    %s = *%s;" %
                                                    (self.py_name, self.cpp_class.pytypestruct,
                                                     tmp_value_variable, self.cpp_class.get_object_expression(self.py_name)))
@@ -3205,12 +3205,12 @@ class CppClassParameter(CppClassParameterBase):
                         "    %s = %s;" %
                         (self.py_name, tmp_value_variable, self.default_value))
                     wrapper.before_call.write_code(
-                        "} else if (PyObject_IsInstance(%s, (PyObject*) &%s)) {\n"
+                        "} else if (PyObject_TypeCheck(%s, &%s)) {\n"
                                                    "    %s = *%s;" %
                                                    (self.py_name, self.cpp_class.pytypestruct,
                                                     tmp_value_variable, self.cpp_class.get_object_expression(self.py_name)))
                 for conversion_source in implicit_conversion_sources:
-                    wrapper.before_call.write_code("} else if (PyObject_IsInstance(%s, (PyObject*) &%s)) {\n"
+                    wrapper.before_call.write_code("} else if (PyObject_TypeCheck(%s, &%s)) {\n"
                                                    "    %s = *%s;" %
                                                    (self.py_name, conversion_source.pytypestruct,
                                                     tmp_value_variable, conversion_source.get_object_expression(self.py_name)))
@@ -3315,12 +3315,12 @@ class CppClassRefParameter(CppClassParameterBase):
                         self.cpp_class.full_name, self.name)
                     wrapper.parse_params.add_parameter('O', ['&'+self.py_name], self.name)
 
-                    wrapper.before_call.write_code("if (PyObject_IsInstance(%s, (PyObject*) &%s)) {\n"
+                    wrapper.before_call.write_code("if (PyObject_TypeCheck(%s, &%s)) {\n"
                                                    "    %s = *%s;" %
                                                    (self.py_name, self.cpp_class.pytypestruct,
                                                     tmp_value_variable, self.cpp_class.get_object_expression(self.py_name)))
                     for conversion_source in implicit_conversion_sources:
-                        wrapper.before_call.write_code("} else if (PyObject_IsInstance(%s, (PyObject*) &%s)) {\n"
+                        wrapper.before_call.write_code("} else if (PyObject_TypeCheck(%s, &%s)) {\n"
                                                        "    %s = *%s;" %
                                                    (self.py_name, conversion_source.pytypestruct,
                                                     tmp_value_variable, conversion_source.get_object_expression(self.py_name)))
@@ -3646,7 +3646,7 @@ class CppClassPtrParameter(CppClassParameterBase):
 
                 wrapper.before_call.write_error_check(
 
-                    "%s && ((PyObject *) %s != Py_None) && !PyObject_IsInstance((PyObject *) %s, (PyObject *) &%s)"
+                    "%s && ((PyObject *) %s != Py_None) && !PyObject_TypeCheck((PyObject *) %s, &%s)"
                     % (self.py_name, self.py_name, self.py_name, self.cpp_class.pytypestruct),
 
                     'PyErr_SetString(PyExc_TypeError, "Parameter %i must be of type %s");' % (num, self.cpp_class.name))
diff --git a/pybindgen/typehandlers/smart_ptr.py b/pybindgen/typehandlers/smart_ptr.py
index e7e7e5a..42abe7b 100644
--- a/pybindgen/typehandlers/smart_ptr.py
+++ b/pybindgen/typehandlers/smart_ptr.py
@@ -182,7 +182,7 @@ class CppClassSharedPtrParameter(CppClassParameterBase):
 
             wrapper.before_call.write_error_check(
 
-                "%s && ((PyObject *) %s != Py_None) && !PyObject_IsInstance((PyObject *) %s, (PyObject *) &%s)"
+                "%s && ((PyObject *) %s != Py_None) && !PyObject_TypeCheck((PyObject *) %s, &%s)"
                 % (self.py_name, self.py_name, self.py_name, self.cpp_class.pytypestruct),
 
                 'PyErr_SetString(PyExc_TypeError, "Parameter %i must be of type %s");' % (num, self.cpp_class.name))
-- 
2.43.0


From c5ce81c62d634ec47d2deda043f5b10666241f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:20 +0000
Subject: [PATCH 51/70] fix: wards are kept by identity, errors in keeping them
 are raised, and a custodian's object is destroyed before its wards

---
 pybindgen/cppclass.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 32abe96..cc71127 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2599,8 +2599,8 @@ static PyObject*\n%s(%s *self, PyObject *PYBINDGEN_UNUSED(_args))
 static void
 %s(%s *self)
 {
-    Py_CLEAR(self->inst_dict);
     %s
+    Py_CLEAR(self->inst_dict);
 }
 ''' % (tp_clear_function_name, self.pystruct, unregister_code + delete_code))
 
@@ -4073,25 +4073,37 @@ def scan_custodians_and_wards(wrapper):
 def _add_ward(code_block, custodian, ward):
     wards = code_block.declare_variable(
         'PyObject*', 'wards', 'NULL')
+    name = code_block.declare_variable(
+        'PyObject*', 'wards_name', 'NULL')
+    index = code_block.declare_variable(
+        'Py_ssize_t', 'ward_index', '0')
+    code_block.add_cleanup_code("Py_XDECREF(%s);" % wards)
+    code_block.add_cleanup_code("Py_XDECREF(%s);" % name)
     # there is nothing to do when one of them is a NULL pointer
     code_block.write_code(
         "if (%(custodian)s && %(custodian)s != Py_None && %(ward)s && %(ward)s != Py_None) {" % vars())
     code_block.indent()
-    code_block.write_code(
-        "%(wards)s = PyObject_GetAttrString(%(custodian)s, (char *) \"__wards__\");"
-        % vars())
+    # not through the __getattr__ or __setattr__ that a Python subclass may have
+    code_block.write_code("%(name)s = Py_BuildValue((char *) \"s\", \"__wards__\");" % vars())
+    code_block.write_error_check("%(name)s == NULL" % vars())
+    code_block.write_code("%(wards)s = PyObject_GenericGetAttr(%(custodian)s, %(name)s);" % vars())
     code_block.write_code(
         "if (%(wards)s == NULL) {\n"
         "    PyErr_Clear();\n"
-        "    %(wards)s = PyList_New(0);\n"
-        "    PyObject_SetAttrString(%(custodian)s, (char *) \"__wards__\", %(wards)s);\n"
-        "}" % vars())
+        "    %(wards)s = PyList_New(0);" % vars())
+    code_block.indent()
+    code_block.write_error_check(
+        "%(wards)s == NULL || PyObject_GenericSetAttr(%(custodian)s, %(name)s, %(wards)s) != 0" % vars())
+    code_block.unindent()
+    code_block.write_code("}")
+    # the ward itself must be in the list, not just an object that compares equal to it
     code_block.write_code(
-        "if (!PySequence_Contains(%(wards)s, %(ward)s))\n"
-        "    PyList_Append(%(wards)s, %(ward)s);" % dict(wards=wards, ward=ward))
+        "for (%(index)s = PyList_Size(%(wards)s) - 1; %(index)s >= 0; %(index)s--) {\n"
+        "    if (PyList_GET_ITEM(%(wards)s, %(index)s) == %(ward)s) break;\n"
+        "}" % vars())
+    code_block.write_error_check("%(index)s < 0 && PyList_Append(%(wards)s, %(ward)s) != 0" % vars())
     code_block.unindent()
     code_block.write_code("}")
-    code_block.add_cleanup_code("Py_XDECREF(%s);" % wards)
 
 
 def _get_custodian_or_ward(wrapper, num):
-- 
2.43.0


From 5d94c58f187170d33235b55f2a833e129b27a437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:52 +0000
Subject: [PATCH 52/70] fix: inherited wrappers of a method keep its
 exceptions, custodians, GIL and deprecation settings

---
 pybindgen/cppmethod.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 7e6682e..0ada6ee 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -223,6 +223,10 @@ class CppMethod(ForwardWrapperBase):
                          custom_name=self.custom_name)
         meth._class = self._class
         meth.docstring = self.docstring
+        meth.throw = list(self.throw)
+        meth.unblock_threads = self.unblock_threads
+        meth.deprecated = self.deprecated
+        meth.custodians_and_wards = list(self.custodians_and_wards)
         meth.wrapper_base_name = self.wrapper_base_name
         meth.wrapper_actual_name = self.wrapper_actual_name
         return meth
-- 
2.43.0


From 0abeab40859c8a31cfa40c8d0d1388d0feebb387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:35 +0000
Subject: [PATCH 53/70] fix: virtual methods that throw compile as C++17

---
 pybindgen/cppmethod.py | 4 ++--
 pybindgen/utils.py     | 7 +++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 0ada6ee..af3608e 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -1050,7 +1050,7 @@ class CppVirtualMethodProxy(ReverseWrapperBase):
             decl_post_modifiers = ''
 
         if self.method.throw:
-            decl_post_modifiers += " throw (%s)" % (', '.join([ex.full_name for ex in self.method.throw]),)
+            decl_post_modifiers += " PYBINDGEN_THROW((%s))" % (', '.join([ex.full_name for ex in self.method.throw]),)
 
         params_list = ', '.join([join_ctype_and_name(param.ctype, param.name)
                                  for param in self.parameters])
@@ -1067,7 +1067,7 @@ class CppVirtualMethodProxy(ReverseWrapperBase):
             decl_post_modifiers = []
 
         if self.method.throw:
-            decl_post_modifiers.append("throw (%s)" % (', '.join([ex.full_name for ex in self.method.throw]),))
+            decl_post_modifiers.append("PYBINDGEN_THROW((%s))" % (', '.join([ex.full_name for ex in self.method.throw]),))
 
         ## if the python subclass doesn't define a virtual method,
         ## just chain to parent class and don't do anything else
diff --git a/pybindgen/utils.py b/pybindgen/utils.py
index af04804..6c9c42f 100644
--- a/pybindgen/utils.py
+++ b/pybindgen/utils.py
@@ -125,6 +125,13 @@ typedef void* cmpfunc;
 
 
     code_sink.writeln(r'''
+/* C++17 has no dynamic exception specifications */
+#if defined(__cplusplus) && __cplusplus >= 201703L
+# define PYBINDGEN_THROW(types)
+#else
+# define PYBINDGEN_THROW(types) throw types
+#endif
+
 #if     __GNUC__ > 2
 # define PYBINDGEN_UNUSED(param) param __attribute__((__unused__))
 #elif     __GNUC__ > 2 || (__GNUC__ == 2 && __GNUC_MINOR__ > 4)
-- 
2.43.0


From 8514f3deb8a41e6a83efcf56f2dc90a9bf02db79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:52 +0000
Subject: [PATCH 54/70] fix: a precall custodian of a return value is reported
 as TypeConfigurationError

---
 pybindgen/cppmethod.py | 2 +-
 pybindgen/function.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index af3608e..6abf4ea 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -8,7 +8,7 @@ from copy import copy
 
 from pybindgen.typehandlers.base import ForwardWrapperBase, ReverseWrapperBase, \
     join_ctype_and_name, CodeGenerationError
-from pybindgen.typehandlers.base import ReturnValue, Parameter
+from pybindgen.typehandlers.base import ReturnValue, Parameter, TypeConfigurationError
 from pybindgen.typehandlers import codesink
 from pybindgen import overloading
 from pybindgen import settings
diff --git a/pybindgen/function.py b/pybindgen/function.py
index a646d7f..6cd4eae 100644
--- a/pybindgen/function.py
+++ b/pybindgen/function.py
@@ -13,7 +13,7 @@ else:
 
 from copy import copy
 
-from pybindgen.typehandlers.base import ForwardWrapperBase, ReturnValue
+from pybindgen.typehandlers.base import ForwardWrapperBase, ReturnValue, TypeConfigurationError
 from pybindgen.typehandlers import codesink
 from pybindgen.cppexception import CppException
 
-- 
2.43.0


From f9405dc87d1deb8fd86953c55199188631186f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:08 +0000
Subject: [PATCH 55/70] fix: iterators of classes with container traits are
 collectable, work in derived and nested classes

---
 pybindgen/cppclass_container.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pybindgen/cppclass_container.py b/pybindgen/cppclass_container.py
index 7c22320..6c1fb14 100644
--- a/pybindgen/cppclass_container.py
+++ b/pybindgen/cppclass_container.py
@@ -36,7 +36,8 @@ class IterNextWrapper(ForwardWrapperBase):
     def generate_call(self):
         self.before_call.write_code("%s = *self->iterator;" % (self.iter_variable_name,))
         self.before_call.write_error_check(
-            "%s == self->container->obj->%s()" % (self.iter_variable_name, self.container.end_method),
+            "%s == %s->%s()" % (self.iter_variable_name, self.container.cppclass.get_object_expression('self->container'),
+                                self.container.end_method),
             "PyErr_SetNone(PyExc_StopIteration);")
         self.before_call.write_code("++(*self->iterator);")
         if self.container.key_type is None:
@@ -144,7 +145,7 @@ typedef struct {
         else:
             module.after_init.write_code(
                 'PyDict_SetItemString((PyObject*) %s.tp_dict, (char *) \"%s\", (PyObject *) &%s);' % (
-                self.cppclass.outer_class.pytypestruct, self.cppclass.get_iter_python_name(), self.iter_pytypestruct))
+                self.cppclass.outer_class.pytypestruct, self.get_iter_python_name(), self.iter_pytypestruct))
 
         self._generate_gc_methods(code_sink)
         self._generate_destructor(code_sink)
@@ -179,11 +180,12 @@ typedef struct {
         self.iter_pytype.slots.setdefault("tp_clear", tp_clear_function_name )
 
         code_sink.writeln(r'''
-static void
+static int
 %s(%s *self)
 {
-    Py_CLEAR(self->container);
     %s
+    Py_CLEAR(self->container);
+    return 0;
 }
 ''' % (tp_clear_function_name, self.iter_pystruct, self._get_iter_delete_code()))
 
@@ -210,8 +212,9 @@ static int
 static void
 %s(%s *self)
 {
-    Py_CLEAR(self->container);
+    PyObject_GC_UnTrack((PyObject *) self);
     %s
+    Py_CLEAR(self->container);
     Py_TYPE(self)->tp_free((PyObject*)self);
 }
 ''' % (iter_tp_dealloc_function_name, self.iter_pystruct, self._get_iter_delete_code()))
@@ -232,6 +235,7 @@ static void
             'CTYPE': self.cppclass.full_name,
             'BEGIN_METHOD': self.begin_method,
             'ITERATOR_TYPE': self.iterator_type,
+            'SELF': self.cppclass.get_object_expression('self'),
             }
         # -- container --
         code_sink.writeln(r'''
@@ -241,7 +245,8 @@ static PyObject*
     %(ITER_PYSTRUCT)s *iter = PyObject_GC_New(%(ITER_PYSTRUCT)s, &%(ITER_PYTYPESTRUCT)s);
     Py_INCREF(self);
     iter->container = self;
-    iter->iterator = new %(CTYPE)s::%(ITERATOR_TYPE)s(self->obj->%(BEGIN_METHOD)s());
+    iter->iterator = new %(CTYPE)s::%(ITERATOR_TYPE)s(%(SELF)s->%(BEGIN_METHOD)s());
+    PyObject_GC_Track((PyObject *) iter);
     return (PyObject*) iter;
 }
 ''' % subst_vars)
-- 
2.43.0


From ae3659fc21912353abc8d6ed9840f2f1360d38a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:14 +0000
Subject: [PATCH 56/70] fix: containers can be passed by pointer and returned
 by reference by their full names

---
 pybindgen/container.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pybindgen/container.py b/pybindgen/container.py
index 96ea59f..7996d4b 100644
--- a/pybindgen/container.py
+++ b/pybindgen/container.py
@@ -279,11 +279,21 @@ class Container(object):
             param_type_matcher.register(alias+'&', self.ThisContainerRefParameter)
         except ValueError: pass
 
+        self.ThisContainerPtrParameter.CTYPES.append(alias+'*')
+        try:
+            param_type_matcher.register(alias+'*', self.ThisContainerPtrParameter)
+        except ValueError: pass
+
         self.ThisContainerReturn.CTYPES.append(alias)
         try:
             return_type_matcher.register(alias, self.ThisContainerReturn)
         except ValueError: pass
 
+        self.ThisContainerRefReturn.CTYPES.append(alias+'&')
+        try:
+            return_type_matcher.register(alias+'&', self.ThisContainerRefReturn)
+        except ValueError: pass
+
 
     def generate_forward_declarations(self, code_sink, module):
         """
@@ -540,8 +550,7 @@ int %(CONTAINER_CONVERTER_FUNC_NAME)s(PyObject *arg, %(CTYPE)s *container)
         *container = *((%(PYSTRUCT)s*)arg)->obj;
     } else if (PyList_Check(arg)) {
         %(CTYPE)s result;
-        Py_ssize_t size = PyList_Size(arg);
-        for (Py_ssize_t i = 0; i < size; i++) {
+        for (Py_ssize_t i = 0; i < PyList_GET_SIZE(arg); i++) {
             %(ITEM_CTYPE)s item;
             if (!%(ITEM_CONVERTER)s(PyList_GET_ITEM(arg, i), &item)) {
                 return 0;
-- 
2.43.0


From 33df9d8e5bd24b4b1fd9dd6bf5648ab353218b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:14 +0000
Subject: [PATCH 57/70] fix: lists that change while they are converted to
 containers

---
 pybindgen/container.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pybindgen/container.py b/pybindgen/container.py
index 7996d4b..a0c8824 100644
--- a/pybindgen/container.py
+++ b/pybindgen/container.py
@@ -582,18 +582,18 @@ int %(CONTAINER_CONVERTER_FUNC_NAME)s(PyObject *arg, %(CTYPE)s *container)
         *container = *((%(PYSTRUCT)s*)arg)->obj;
     } else if (PyList_Check(arg)) {
         %(CTYPE)s result;
-        Py_ssize_t size = PyList_Size(arg);
-        for (Py_ssize_t i = 0; i < size; i++) {
+        for (Py_ssize_t i = 0; i < PyList_GET_SIZE(arg); i++) {
             PyObject *tup = PyList_GET_ITEM(arg, i);
             if (!PyTuple_Check(tup) || PyTuple_Size(tup) != 2) {
                 PyErr_SetString(PyExc_TypeError, "items must be tuples with two elements");
                 return 0;
             }
             std::pair< %(KEY_CTYPE)s, %(ITEM_CTYPE)s > item;
-            if (!%(KEY_CONVERTER)s(PyTuple_GET_ITEM(tup, 0), &item.first)) {
-                return 0;
-            }
-            if (!%(ITEM_CONVERTER)s(PyTuple_GET_ITEM(tup, 1), &item.second)) {
+            Py_INCREF(tup);
+            bool converted = %(KEY_CONVERTER)s(PyTuple_GET_ITEM(tup, 0), &item.first)
+                && %(ITEM_CONVERTER)s(PyTuple_GET_ITEM(tup, 1), &item.second);
+            Py_DECREF(tup);
+            if (!converted) {
                 return 0;
             }
             result.%(ADD_VALUE)s(item);
-- 
2.43.0


From 71182b6d3ed92c92fadd8a56d6b7a4f28543aaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:15 +0000
Subject: [PATCH 58/70] fix: functions added as methods of several classes
 under one name get distinct wrappers

---
 pybindgen/cppclass.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index cc71127..0c146a3 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -1507,6 +1507,7 @@ public:
             method.is_virtual = False
             method.is_pure_virtual = False
             method.self_parameter_pystruct = self.pystruct
+            method.wrapper_base_name = "_wrap_%s_%s" % (self.pystruct, method.mangled_name)
             method.visibility = 'public'
             method.force_parse = method.PARSE_TUPLE_AND_KEYWORDS
         else:
-- 
2.43.0


From 7335b9cd2b20fe780b9079d3912daae5add512ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:15 +0000
Subject: [PATCH 59/70] fix: sequence slots keep the index range, the
 exceptions and the truth of what methods return

---
 pybindgen/pytypeobject.py | 42 ++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/pybindgen/pytypeobject.py b/pybindgen/pytypeobject.py
index e045cd2..1af039e 100644
--- a/pybindgen/pytypeobject.py
+++ b/pybindgen/pytypeobject.py
@@ -293,8 +293,6 @@ static Py_ssize_t
 
     py_result = %(method_name)s(py_self, NULL, NULL);
     if (py_result == NULL) {
-        PyErr_SetString(PyExc_RuntimeError, "Unknown error in attempting to determine __len__.");
-        Py_XDECREF(py_result);
         return -1;
     }
     result = PyLong_AsSsize_t(py_result);
@@ -319,8 +317,6 @@ static Py_ssize_t
     py_result = %(method_name)s(py_self, args, NULL);
     Py_DECREF(args);
     if (py_result == NULL) {
-        PyErr_SetString(PyExc_RuntimeError, "Unknown error in attempting to determine __len__.");
-        Py_XDECREF(py_result);
         return -1;
     }
     result = PyLong_AsSsize_t(py_result);
@@ -354,7 +350,7 @@ static PyObject*
     PyObject *result;
     PyObject *args;
 
-    args = Py_BuildValue("(i)", py_i);
+    args = Py_BuildValue("(n)", py_i);
     result = %(method_name)s(py_self, args, NULL);
     Py_DECREF(args);
     return result;
@@ -370,7 +366,7 @@ static PyObject*
     PyObject *result;
     PyObject *args;
 
-    args = Py_BuildValue("(i)", py_i);
+    args = Py_BuildValue("(n)", py_i);
     result = %(method_name)s(py_self, args, NULL);
     Py_DECREF(args);
     if (PyErr_ExceptionMatches(PyExc_IndexError) ||
@@ -416,11 +412,14 @@ static int
     PyObject *result;
     PyObject *args;
 
-    args = Py_BuildValue("(iO)", py_i, py_val);
+    if (py_val == NULL) {
+        PyErr_SetString(PyExc_TypeError, "container does not support item deletion");
+        return -1;
+    }
+    args = Py_BuildValue("(nO)", py_i, py_val);
     result = %(method_name)s(py_self, args, NULL);
     Py_DECREF(args);
     if (result == NULL) {
-        PyErr_SetString(PyExc_IndexError, "Unknown error trying to set value in container.");
         return -1;
 #if PY_MAJOR_VERSION >= 3
     } else if (PyLong_Check(result) == 0) {
@@ -428,6 +427,7 @@ static int
     } else if (PyInt_Check(result) == 0) {
 #endif
         PyErr_SetString(PyExc_IndexError, "Error trying to set value in container -- wrapped method should return integer status.");
+        Py_DECREF(result);
         return -1;
     } else {
 #if PY_MAJOR_VERSION >= 3
@@ -436,7 +436,14 @@ static int
         int iresult = int(PyInt_AS_LONG(result));
 #endif
         Py_DECREF(result);
-        return iresult;
+        if (PyErr_Occurred()) {
+            return -1;
+        }
+        if (iresult != 0) {
+            PyErr_SetString(PyExc_IndexError, "Error trying to set value in container.");
+            return -1;
+        }
+        return 0;
     }
 }
 
@@ -480,20 +487,19 @@ static int
     args = Py_BuildValue("(O)", py_val);
     result = %(method_name)s(py_self, args, NULL);
     Py_DECREF(args);
+    if (result == NULL) {
+        return -1;
+    }
 #if PY_MAJOR_VERSION >= 3
-    if (result == NULL || PyLong_Check(result) == 0) {
+    if (PyLong_Check(result) == 0) {
 #else
-    if (result == NULL || PyInt_Check(result) == 0) {
+    if (PyInt_Check(result) == 0) {
 #endif
         PyErr_SetString(PyExc_RuntimeError, "Unknown error in attempting to test __contains__.");
-        Py_XDECREF(result);
+        Py_DECREF(result);
         return -1;
     } else {
-#if PY_MAJOR_VERSION >= 3
-        int iresult = int(PyLong_AS_LONG(result));
-#else
-        int iresult = int(PyInt_AS_LONG(result));
-#endif
+        int iresult = PyErr_Occurred() ? -1 : PyObject_IsTrue(result);
         Py_DECREF(result);
         return iresult;
     }
@@ -525,7 +531,7 @@ static PyObject*
     PyObject *result;
     PyObject *args;
 
-    args = Py_BuildValue("(i)", py_i);
+    args = Py_BuildValue("(n)", py_i);
     result = %(method_name)s(py_self, args, NULL);
     Py_DECREF(args);
     return result;
-- 
2.43.0


From 619f7e2c513f392ca87b1e23c4d30abef2580711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:45 +0000
Subject: [PATCH 60/70] fix: a void virtual method without override runs its
 C++ default with the lock and errors of its caller

---
 pybindgen/cppmethod.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 6abf4ea..38fa4a5 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -1084,11 +1084,11 @@ class CppVirtualMethodProxy(ReverseWrapperBase):
         self.before_call.write_code(
             r'if (%s == NULL || Py_TYPE(%s) == &PyCFunction_Type) {' % (py_method, py_method))
         if self.return_value.ctype == 'void':
-            if not (self.method.is_pure_virtual or self.method.visibility == 'private'):
-                self.before_call.write_code(r'    %s::%s(%s);'
-                                            % (self.class_.full_name, self.method_name, call_params))
             self.before_call.indent()
             self.before_call.write_cleanup()
+            if not (self.method.is_pure_virtual or self.method.visibility == 'private'):
+                self.before_call.write_code(r'%s::%s(%s);'
+                                            % (self.class_.full_name, self.method_name, call_params))
             self.before_call.write_code('return;')
             self.before_call.unindent()
         else:
-- 
2.43.0


From 4e5ec0cfa88fc12676a78efea99febc45b99f449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:45 +0000
Subject: [PATCH 61/70] fix: protected virtual methods called from Python
 honour throw and unblock_threads, and are refused before the lock is released

---
 pybindgen/cppmethod.py | 58 ++++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 30 deletions(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 38fa4a5..1ed82cd 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -264,10 +264,7 @@ class CppMethod(ForwardWrapperBase):
         if not self.is_static:
             obj = class_.get_object_expression('self')
 
-        if self.throw:
-            self.before_call.write_code('try\n{')
-            self.before_call.indent()
-
+        self.write_open_try()
         if self.is_static:
             self.write_call_with_retval(
                     '%s::%s%s(%s)' % (class_.full_name,
@@ -289,7 +286,16 @@ class CppMethod(ForwardWrapperBase):
                            obj, class_.full_name, self.method_name, template_params,
                            ", ".join(self.call_params)
                            ))
+        self.write_catch_exceptions()
 
+    def write_open_try(self):
+        "Writes code that opens the block where the exceptions of the method are caught, if any"
+        if self.throw:
+            self.before_call.write_code('try\n{')
+            self.before_call.indent()
+
+    def write_catch_exceptions(self):
+        "Writes code that closes that block, and converts the exceptions"
         if self.throw:
             for exc in self.throw:
                 self.before_call.unindent()
@@ -885,9 +891,11 @@ class CppVirtualMethodParentCaller(CppMethod):
     """
 
     def __init__(self, method, unblock_threads=None):
+        if unblock_threads is None:
+            unblock_threads = method.unblock_threads
         super(CppVirtualMethodParentCaller, self).__init__(
             method.method_name, method.return_value, method.parameters, unblock_threads=unblock_threads,
-            custom_name=method.custom_name)
+            custom_name=method.custom_name, throw=method.throw)
         #self.static_decl = False
         self.method = method
 
@@ -939,32 +947,25 @@ class CppVirtualMethodParentCaller(CppMethod):
                                                           ', '.join([param.name for param in self.parameters])))
 
 
-    def generate_call(self, class_=None):
-        "virtual method implementation; do not call"
-        class_ = self.class_
-        helper = self.before_call.declare_variable(
+    def _before_call_hook(self):
+        "hook that checks that the object is of a python subclass, while errors can still be raised"
+        self.helper_variable = self.before_call.declare_variable(
             type_=('%s*' % self._helper_class.name),
             name='helper',
-            initializer=("dynamic_cast< %s* >(%s)" % (self._helper_class.name, class_.get_object_expression('self'))))
-        method = '%s->%s__parent_caller' % (helper, self.method_name)
+            initializer=("dynamic_cast< %s* >(%s)" % (self._helper_class.name,
+                                                      self.class_.get_object_expression('self'))))
         self.before_call.write_error_check(
-            "%s == NULL" % helper,
+            "%s == NULL" % self.helper_variable,
             'PyErr_SetString(PyExc_TypeError, "Method %s of class %s is protected and can only be called by a subclass");'
             % (self.method_name, self.class_.name))
+        super(CppVirtualMethodParentCaller, self)._before_call_hook()
 
-        if self.return_value.ctype == 'void':
-            self.before_call.write_code(
-                '%s(%s);' %
-                (method, ", ".join(self.call_params)))
-        else:
-            if self.return_value.REQUIRES_ASSIGNMENT_CONSTRUCTOR:
-                self.before_call.write_code(
-                    '%s retval = %s(%s);' %
-                    (self.return_value.ctype, method, ", ".join(self.call_params)))
-            else:
-                self.before_call.write_code(
-                    'retval = %s(%s);' %
-                    (method, ", ".join(self.call_params)))
+    def generate_call(self, class_=None):
+        "virtual method implementation; do not call"
+        self.write_open_try()
+        self.write_call_with_retval('%s->%s__parent_caller(%s)' % (self.helper_variable, self.method_name,
+                                                                  ", ".join(self.call_params)))
+        self.write_catch_exceptions()
 
     def get_py_method_def(self, method_name=None):
         "Get the PyMethodDef entry suitable for this method"
@@ -988,12 +989,9 @@ class CppVirtualMethodParentCaller(CppMethod):
         method wrapper clone contains copies of all parameters, so
         they can be modified at will.
         """
-        meth = CppVirtualMethodParentCaller(
-            self.return_value,
-            self.method_name,
-            [copy(param) for param in self.parameters])
+        meth = CppVirtualMethodParentCaller(self.method, unblock_threads=self.unblock_threads)
+        meth.parameters = [copy(param) for param in self.parameters]
         #meth._class = self._class
-        meth.method = self.method
         meth._helper_class = self._helper_class
         meth.docstring = self.docstring
         meth.wrapper_base_name = self.wrapper_base_name
-- 
2.43.0


From 8036f926f0654990f9a189bf5224938b63c22bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:45 +0000
Subject: [PATCH 62/70] fix: functions as constructors honour unblock_threads
 and register their wrapper with the lock held

---
 pybindgen/cppmethod.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 1ed82cd..2e6c6a8 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -813,7 +813,7 @@ class CppFunctionAsConstructor(CppConstructor):
             unblock_threads = settings.unblock_threads
 
         parameters = [utils.eval_param(param, self) for param in parameters]
-        super(CppFunctionAsConstructor, self).__init__(parameters)
+        super(CppFunctionAsConstructor, self).__init__(parameters, unblock_threads=unblock_threads)
         self.c_function_name = c_function_name
         self.function_return_value = return_value
 
@@ -827,7 +827,8 @@ class CppFunctionAsConstructor(CppConstructor):
         self.before_call.write_code("self->obj = %s(%s);" %
                                     (self.c_function_name, ", ".join(self.call_params)))
         self.before_call.write_code("self->flags = PYBINDGEN_WRAPPER_FLAG_NONE;")
-        class_.wrapper_registry.write_register_new_wrapper(self.before_call, "self",
+        ## the wrapper registry may only be used while holding the GIL
+        class_.wrapper_registry.write_register_new_wrapper(self.after_call, "self",
                                                            class_.get_wrapper_registry_key("self->obj"))
 
 
-- 
2.43.0


From 6c8bf3b8596b0eb9c4746ce6f0fcac11f33e2e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:45 +0000
Subject: [PATCH 63/70] fix: helper classes take the lock to change reference
 counts

---
 pybindgen/cppclass.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 0c146a3..e4777d5 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -410,16 +410,26 @@ class CppHelperClass(object):
         code_sink.writeln("""
 void set_pyobj(PyObject *pyobj)
 {
+    PyGILState_STATE gil_state = PyGILState_Ensure();
     Py_XDECREF(m_pyself);
     Py_INCREF(pyobj);
     m_pyself = pyobj;
+    PyGILState_Release(gil_state);
 }
 """)
 
         ## write a destructor
         code_sink.writeln("virtual ~%s()\n{" % self.name)
         code_sink.indent()
+        ## the object may be destroyed by C++ code that does not hold the
+        ## GIL, or even after the interpreter is gone
+        code_sink.writeln("if (m_pyself != NULL && Py_IsInitialized()) {")
+        code_sink.indent()
+        code_sink.writeln("PyGILState_STATE gil_state = PyGILState_Ensure();")
         code_sink.writeln("Py_CLEAR(m_pyself);")
+        code_sink.writeln("PyGILState_Release(gil_state);")
+        code_sink.unindent()
+        code_sink.writeln("}")
         code_sink.unindent()
         code_sink.writeln("}\n")
 
-- 
2.43.0


From a50e3842ea1cf0d53596c18574e3766b00a193b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:42 +0000
Subject: [PATCH 64/70] fix: a type's own full name wins over the short name of
 another type registered earlier

---
 pybindgen/container.py         | 10 ++++-----
 pybindgen/cppclass.py          | 41 +++++++++++++++++++---------------
 pybindgen/enum.py              |  8 +++----
 pybindgen/module.py            |  2 +-
 pybindgen/typehandlers/base.py | 14 ++++++++++--
 5 files changed, 45 insertions(+), 30 deletions(-)

diff --git a/pybindgen/container.py b/pybindgen/container.py
index a0c8824..c561a81 100644
--- a/pybindgen/container.py
+++ b/pybindgen/container.py
@@ -159,7 +159,7 @@ class Container(object):
                 container_type = self
             self.ThisContainerParameter = ThisContainerParameter
             try:
-                param_type_matcher.register(name, self.ThisContainerParameter)
+                param_type_matcher.register(name, self.ThisContainerParameter, weak=True)
             except ValueError:
                 pass
 
@@ -169,7 +169,7 @@ class Container(object):
                 container_type = self
             self.ThisContainerRefParameter = ThisContainerRefParameter
             try:
-                param_type_matcher.register(name + '&', self.ThisContainerRefParameter)
+                param_type_matcher.register(name + '&', self.ThisContainerRefParameter, weak=True)
             except ValueError:
                 pass
 
@@ -179,7 +179,7 @@ class Container(object):
                 container_type = self
             self.ThisContainerPtrParameter = ThisContainerPtrParameter
             try:
-                param_type_matcher.register(name + '*', self.ThisContainerPtrParameter)
+                param_type_matcher.register(name + '*', self.ThisContainerPtrParameter, weak=True)
             except ValueError:
                 pass
 
@@ -190,8 +190,8 @@ class Container(object):
             self.ThisContainerReturn = ThisContainerReturn
             self.ThisContainerRefReturn = ThisContainerReturn
             try:
-                return_type_matcher.register(name, self.ThisContainerReturn)
-                return_type_matcher.register(name + '&', self.ThisContainerRefReturn)
+                return_type_matcher.register(name, self.ThisContainerReturn, weak=True)
+                return_type_matcher.register(name + '&', self.ThisContainerRefReturn, weak=True)
             except ValueError:
                 pass
 
diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index e4777d5..f0c5838 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -120,7 +120,7 @@ class MemoryPolicy(object):
             cpp_class = cls
         cls.ThisClassPtrParameter = ThisClassPtrParameter
         try:
-            param_type_matcher.register(name+'*', cls.ThisClassPtrParameter)
+            param_type_matcher.register(name+'*', cls.ThisClassPtrParameter, weak=True)
         except ValueError:
             pass
 
@@ -130,7 +130,7 @@ class MemoryPolicy(object):
             cpp_class = cls
         cls.ThisClassPtrReturn = ThisClassPtrReturn
         try:
-            return_type_matcher.register(name+'*', cls.ThisClassPtrReturn)
+            return_type_matcher.register(name+'*', cls.ThisClassPtrReturn, weak=True)
         except ValueError:
             pass
 
@@ -769,7 +769,7 @@ class CppClass(object):
                 cpp_class = self
             self.ThisClassParameter = ThisClassParameter
             try:
-                param_type_matcher.register(name, self.ThisClassParameter)
+                param_type_matcher.register(name, self.ThisClassParameter, weak=True)
             except ValueError:
                 pass
 
@@ -780,7 +780,7 @@ class CppClass(object):
                 cpp_class = self
             self.ThisClassRefParameter = ThisClassRefParameter
             try:
-                param_type_matcher.register(name+'&', self.ThisClassRefParameter)
+                param_type_matcher.register(name+'&', self.ThisClassRefParameter, weak=True)
             except ValueError:
                 pass
 
@@ -791,8 +791,8 @@ class CppClass(object):
             self.ThisClassReturn = ThisClassReturn
             self.ThisClassRefReturn = ThisClassReturn
             try:
-                return_type_matcher.register(name, self.ThisClassReturn)
-                return_type_matcher.register(name, self.ThisClassRefReturn)
+                return_type_matcher.register(name, self.ThisClassReturn, weak=True)
+                return_type_matcher.register(name, self.ThisClassRefReturn, weak=True)
             except ValueError:
                 pass
 
@@ -805,7 +805,7 @@ class CppClass(object):
                     cpp_class = self
                 self.ThisClassPtrParameter = ThisClassPtrParameter
                 try:
-                    param_type_matcher.register(name+'*', self.ThisClassPtrParameter)
+                    param_type_matcher.register(name+'*', self.ThisClassPtrParameter, weak=True)
                 except ValueError:
                     pass
 
@@ -815,7 +815,7 @@ class CppClass(object):
                     cpp_class = self
                 self.ThisClassPtrReturn = ThisClassPtrReturn
                 try:
-                    return_type_matcher.register(name+'*', self.ThisClassPtrReturn)
+                    return_type_matcher.register(name+'*', self.ThisClassPtrReturn, weak=True)
                 except ValueError:
                     pass
 
@@ -826,7 +826,7 @@ class CppClass(object):
                 cpp_class = self
             self.ThisClassRefReturn = ThisClassRefReturn
             try:
-                return_type_matcher.register(name+'&', self.ThisClassRefReturn)
+                return_type_matcher.register(name+'&', self.ThisClassRefReturn, weak=True)
             except ValueError:
                 pass
 
@@ -1288,25 +1288,30 @@ class CppClass(object):
         else:
             self.typeid_map_name = None
 
-    def register_alias(self, alias):
+    def register_alias(self, alias, weak=False):
         """Re-register the class with another base name, in addition to any
-        registrations that might have already been done."""
+        registrations that might have already been done.
+
+        :param alias: the other name
+
+        :param weak: if true, a type that really has this name takes it over
+        """
 
         self.module.register_type(None, alias, self)
 
         self.ThisClassParameter.CTYPES.append(alias)
         try:
-            param_type_matcher.register(alias, self.ThisClassParameter)
+            param_type_matcher.register(alias, self.ThisClassParameter, weak=weak)
         except ValueError: pass
 
         self.ThisClassRefParameter.CTYPES.append(alias+'&')
         try:
-            param_type_matcher.register(alias+'&', self.ThisClassRefParameter)
+            param_type_matcher.register(alias+'&', self.ThisClassRefParameter, weak=weak)
         except ValueError: pass
 
         self.ThisClassReturn.CTYPES.append(alias)
         try:
-            return_type_matcher.register(alias, self.ThisClassReturn)
+            return_type_matcher.register(alias, self.ThisClassReturn, weak=weak)
         except ValueError: pass
 
         if self.memory_policy is not None:
@@ -1314,17 +1319,17 @@ class CppClass(object):
         else:
             self.ThisClassPtrParameter.CTYPES.append(alias+'*')
             try:
-                param_type_matcher.register(alias+'*', self.ThisClassPtrParameter)
+                param_type_matcher.register(alias+'*', self.ThisClassPtrParameter, weak=weak)
             except ValueError: pass
 
             self.ThisClassPtrReturn.CTYPES.append(alias+'*')
             try:
-                return_type_matcher.register(alias+'*', self.ThisClassPtrReturn)
+                return_type_matcher.register(alias+'*', self.ThisClassPtrReturn, weak=weak)
             except ValueError: pass
 
         self.ThisClassRefReturn.CTYPES.append(alias)
         try:
-            return_type_matcher.register(alias+'&', self.ThisClassRefReturn)
+            return_type_matcher.register(alias+'&', self.ThisClassRefReturn, weak=weak)
         except ValueError: pass
 
 
@@ -1997,7 +2002,7 @@ typedef struct {
         if ' named ' in self.import_from_module:
             module_name, type_name = self.import_from_module.split(" named ")
         else:
-            module_name, type_name = self.import_from_module, self.name
+            module_name, type_name = self.import_from_module, self.get_python_name()
         code_sink.writeln("PyTypeObject *_%s;" % self.pytypestruct)
         module.after_init.write_code("/* Import the %r class from module %r */" % (self.full_name, self.import_from_module))
         module.after_init.write_code("{"); module.after_init.indent()
diff --git a/pybindgen/enum.py b/pybindgen/enum.py
index 960da58..667823b 100644
--- a/pybindgen/enum.py
+++ b/pybindgen/enum.py
@@ -117,19 +117,19 @@ class Enum(object):
 
         if self.name != self.full_name:
             try:
-                param_type_matcher.register(self.name, self.ThisEnumParameter)
+                param_type_matcher.register(self.name, self.ThisEnumParameter, weak=True)
             except ValueError:
                 pass
             try:
-                return_type_matcher.register(self.name, self.ThisEnumReturn)
+                return_type_matcher.register(self.name, self.ThisEnumReturn, weak=True)
             except ValueError:
                 pass
             try:
-                param_type_matcher.register(self.name+' &', self.ThisEnumRefParameter)
+                param_type_matcher.register(self.name+' &', self.ThisEnumRefParameter, weak=True)
             except ValueError:
                 pass
             try:
-                param_type_matcher.register(self.name+' *', self.ThisEnumPtrParameter)
+                param_type_matcher.register(self.name+' *', self.ThisEnumPtrParameter, weak=True)
             except ValueError:
                 pass
 
diff --git a/pybindgen/module.py b/pybindgen/module.py
index 42a0e4b..32e4d7e 100644
--- a/pybindgen/module.py
+++ b/pybindgen/module.py
@@ -893,7 +893,7 @@ __attribute__ ((visibility("default")))
         alias = utils.ascii(alias)
         self.typedefs.append((wrapper, alias))
         self.register_type(alias, alias, wrapper)
-        wrapper.register_alias(alias)
+        wrapper.register_alias(alias, weak=True)
         full_name = '::'.join(self.get_namespace_path() + [alias])
         wrapper.register_alias(full_name)
 
diff --git a/pybindgen/typehandlers/base.py b/pybindgen/typehandlers/base.py
index f806cea..885dd17 100644
--- a/pybindgen/typehandlers/base.py
+++ b/pybindgen/typehandlers/base.py
@@ -1422,6 +1422,7 @@ class TypeMatcher(object):
     def __init__(self):
         """Constructor"""
         self._types = {}
+        self._weak_names = set() # names that a stronger registration may take over
         self._transformations = []
         self._type_aliases = {}
         self._type_aliases_rev = {}
@@ -1432,17 +1433,26 @@ class TypeMatcher(object):
         assert isinstance(transformation, TypeTransformation)
         self._transformations.append(transformation)
 
-    def register(self, name, type_handler):
+    def register(self, name, type_handler, weak=False):
         """Register a new handler class for a given C type
 
         :param name: C type name
 
         :param type_handler: class to handle this C type
+
+        :param weak: if true, the name is only a convenience (e.g. the
+          name of a class without its C++ namespace): a later
+          registration of another type that really has this name
+          replaces this one.
         """
         name = ctypeparser.normalize_type_string(name)
-        if name in self._types:
+        if name in self._types and (weak or name not in self._weak_names):
             raise ValueError("return type %s already registered" % (name,))
         self._types[name] = type_handler
+        if weak:
+            self._weak_names.add(name)
+        else:
+            self._weak_names.discard(name)
 
     def _raw_lookup_with_alias_support(self, name):
         already_tried = []
-- 
2.43.0


From dc5fbfdd21c2148f575ee2edb2979aeab5e49ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:42 +0000
Subject: [PATCH 65/70] fix: wrappers of functions and methods in different
 scopes have different C names

---
 pybindgen/cppclass.py  | 2 +-
 pybindgen/cppmethod.py | 2 +-
 pybindgen/module.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index f0c5838..58e0adb 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -1522,7 +1522,7 @@ public:
             method.is_virtual = False
             method.is_pure_virtual = False
             method.self_parameter_pystruct = self.pystruct
-            method.wrapper_base_name = "_wrap_%s_%s" % (self.pystruct, method.mangled_name)
+            method.wrapper_base_name = "_wrap_%s__m_%s" % (self.pystruct, method.mangled_name)
             method.visibility = 'public'
             method.force_parse = method.PARSE_TUPLE_AND_KEYWORDS
         else:
diff --git a/pybindgen/cppmethod.py b/pybindgen/cppmethod.py
index 2e6c6a8..cc4b2d5 100644
--- a/pybindgen/cppmethod.py
+++ b/pybindgen/cppmethod.py
@@ -234,7 +234,7 @@ class CppMethod(ForwardWrapperBase):
     def set_class(self, class_):
         """set the class object this method belongs to"""
         self._class = class_
-        self.wrapper_base_name = "_wrap_%s_%s" % (
+        self.wrapper_base_name = "_wrap_%s__m_%s" % (
             class_.pystruct, self.mangled_name)
     def get_class(self):
         """get the class object this method belongs to"""
diff --git a/pybindgen/module.py b/pybindgen/module.py
index 32e4d7e..17073d2 100644
--- a/pybindgen/module.py
+++ b/pybindgen/module.py
@@ -317,7 +317,7 @@ class ModuleBase(dict):
             self.prefix = self.name.replace('.', '_')
             self.init_function_name = "init%s" % (self.name.split('.')[-1],)
         else:
-            self.prefix = self.parent.prefix + "_" + self.name
+            self.prefix = self.parent.prefix + "__" + self.name
             self.init_function_name = "init%s" % (self.prefix,)
     
     name = property(get_name, set_name)
-- 
2.43.0


From c48f88dc3cbee3cf767c3a7f22e39f843cff0154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:42 +0000
Subject: [PATCH 66/70] fix: a typedef makes the type ready when the module of
 its class is initialized later

---
 pybindgen/cppclass.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 58e0adb..18cd945 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2805,6 +2805,9 @@ if (!PyObject_TypeCheck((PyObject*) other, &%s)) {
         Generates the appropriate Module code to register the class
         with a new name in that module (typedef alias).
         """
+        if self.module is not module and not self.import_from_module:
+            ## the module of the class may be initialized later
+            self._write_type_ready(module.after_init, module)
         module.after_init.write_code(
             'PyModule_AddObject(m, (char *) \"%s\", (PyObject *) &%s);' % (
                 alias, self.pytypestruct))
-- 
2.43.0


From f6031a84d6432865f6734019f1b1dfe91b1fc1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:42 +0000
Subject: [PATCH 67/70] fix: an explicit custom_name equal to the C++ name is
 kept

---
 pybindgen/function.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pybindgen/function.py b/pybindgen/function.py
index 6cd4eae..2a025e5 100644
--- a/pybindgen/function.py
+++ b/pybindgen/function.py
@@ -97,12 +97,15 @@ class Function(ForwardWrapperBase):
         cppclass.scan_custodians_and_wards(self)
 
     def get_custom_name(self):
+        if self._custom_name is not None:
+            return self._custom_name
         if self.mangled_name != utils.get_mangled_name(self.function_name, self.template_parameters):
             return self.mangled_name
         else:
             return None
 
     def set_custom_name(self, custom_name):
+        self._custom_name = custom_name
         if custom_name is None:
             self.mangled_name = utils.get_mangled_name(self.function_name, self.template_parameters)
         else:
-- 
2.43.0


From 23a4cb9eef36025d61d470048a73a62eec677022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:42 +0000
Subject: [PATCH 68/70] fix: __name__ of a type is the Python name it was given

---
 pybindgen/cppclass.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 18cd945..5311daa 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2370,10 +2370,10 @@ typedef struct {
 
         if self.outer_class is None:
             mod_path = self._module.get_module_path()
-            mod_path.append(self.mangled_name)
+            mod_path.append(self.get_python_name())
             dict_.setdefault("tp_name", '.'.join(mod_path))
         else:
-            dict_.setdefault("tp_name", '%s.%s' % (self.outer_class.slots['tp_name'], self.name))
+            dict_.setdefault("tp_name", '%s.%s' % (self.outer_class.slots['tp_name'], self.get_python_name()))
 
         ## tp_call support
         try:
-- 
2.43.0


From 58432310d37fbf41115737cb933b048a22046182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:42 +0000
Subject: [PATCH 69/70] fix: imported types are imported before submodules need
 them, and 'module named X' imports X

---
 pybindgen/cppclass.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 5311daa..3f0b70b 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -1993,10 +1993,10 @@ typedef struct {
         return class_python_name
 
     def _generate_import_from_module(self, code_sink, module):
-        if module.parent is None:
-            error_retcode = "MOD_ERROR"
-        else:
-            error_retcode = "NULL"
+        ## the root module imports the types, before it initializes its own
+        ## types and submodules, which may depend on them
+        module = module.get_root()
+        error_retcode = "MOD_ERROR"
 
         # TODO: skip this step if the requested typestructure is never used
         if ' named ' in self.import_from_module:
@@ -2013,7 +2013,7 @@ typedef struct {
             "}" % (error_retcode,))
 
         module.after_init.write_code("_%s = (PyTypeObject*) PyObject_GetAttrString(module, (char*) \"%s\");\n"
-                                     % (self.pytypestruct, self.get_python_name()))
+                                     % (self.pytypestruct, type_name))
         module.after_init.write_code("if (PyErr_Occurred()) PyErr_Clear();")
 
         if self.typeid_map_name is not None:
-- 
2.43.0


From 97f7d3f908cbfe6dc6b4f15b7736edefb68ee71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:03 +0000
Subject: [PATCH 70/70] fix: objects implemented in Python are recognised in
 modules that import their class

---
 pybindgen/cppclass.py               | 6 +++---
 pybindgen/typehandlers/smart_ptr.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pybindgen/cppclass.py b/pybindgen/cppclass.py
index 3f0b70b..705b9de 100644
--- a/pybindgen/cppclass.py
+++ b/pybindgen/cppclass.py
@@ -2639,7 +2639,7 @@ static void
                 visit_self_ok = not isinstance(self.memory_policy, ReferenceCountingPolicy)
             visit_self = '' if not visit_self_ok else '''
     if (self->obj && !(self->flags&PYBINDGEN_WRAPPER_FLAG_OBJECT_NOT_OWNED)
-        && typeid(*self->obj).name() == typeid(%s).name() %s)
+        && typeid(*self->obj) == typeid(%s) %s)
         Py_VISIT((PyObject *) self);
 ''' % (self.helper_class.name, peekref_code)
 
@@ -3047,7 +3047,7 @@ def common_shared_object_return(value, py_name, cpp_class, code_block,
     else:
         # since there is a helper class, check if this C++ object is an instance of that class
         # http://stackoverflow.com/questions/579887/how-expensive-is-rtti/1468564#1468564
-        code_block.write_code("if (typeid(%s).name() == typeid(%s).name())\n{"
+        code_block.write_code("if (typeid(%s) == typeid(%s))\n{"
                               % (value_value, cpp_class.helper_class.name))
         code_block.indent()
 
@@ -3842,7 +3842,7 @@ class CppClassPtrParameter(CppClassParameterBase):
                 wrapper.before_call.unindent()
                 wrapper.before_call.write_code('}')
         else:
-            wrapper.before_call.write_code("if (typeid(*(%s)).name() == typeid(%s).name())\n{"
+            wrapper.before_call.write_code("if (typeid(*(%s)) == typeid(%s))\n{"
                                           % (value, self.cpp_class.helper_class.name))
             wrapper.before_call.indent()
 
diff --git a/pybindgen/typehandlers/smart_ptr.py b/pybindgen/typehandlers/smart_ptr.py
index 42abe7b..cd06c4d 100644
--- a/pybindgen/typehandlers/smart_ptr.py
+++ b/pybindgen/typehandlers/smart_ptr.py
@@ -273,7 +273,7 @@ class CppClassSharedPtrParameter(CppClassParameterBase):
                 wrapper.before_call.unindent()
                 wrapper.before_call.write_code('}')
         else:
-            wrapper.before_call.write_code("if (typeid(*(%s)).name() == typeid(%s).name())\n{"
+            wrapper.before_call.write_code("if (typeid(*(%s)) == typeid(%s))\n{"
                                           % (value, self.cpp_class.helper_class.name))
             wrapper.before_call.indent()
 
-- 
2.43.0

