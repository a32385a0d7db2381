From 14fa2788aef9da386e1d4c78d4e9fd806f8bf300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:25 +0000
Subject: [PATCH 01/52] fix: C string lists keep their element lengths in the
 string size type

---
 beschi/writers/c.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 1d052fd..750c4e1 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -79,7 +79,7 @@ class CWriter(Writer):
             self.write_line(f"if ({accessor}{var.name} == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
             if var.vartype == "string":
                 self.write_line(f"{accessor}{var.name}_els_len = ({self.get_native_string_size()}*){self.prefix.upper()}MALLOC(sizeof({self.get_native_string_size()}) * {accessor}{var.name}_len);")
-                self.write_line(f"if ({accessor}{var.name} == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
+                self.write_line(f"if ({accessor}{var.name}_els_len == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
             idx = self.indent_level
             self.write_line(f"for ({self.get_native_list_size()} i{idx} = 0; i{idx} < {accessor}{var.name}_len; i{idx}++) {{")
             self.indent_level += 1
@@ -262,7 +262,7 @@ class CWriter(Writer):
             if var.is_list:
                 self.write_line(f"{self.get_native_list_size()} {var.name}_len;")
                 if var.vartype == "string":
-                    self.write_line(f"{self.get_native_list_size()}* {var.name}_els_len;")
+                    self.write_line(f"{self.get_native_string_size()}* {var.name}_els_len;")
                 if var.vartype in NUMERIC_TYPE_SIZES or var.vartype == "string":
                     self.write_line(f"{self.type_mapping[var.vartype]}* {var.name};")
                 elif var.vartype in self.protocol.structs or var.vartype in self.protocol.enums:
-- 
2.43.0


From 9d1729be2d934ef8cdb06650bdd5f1e2f813506f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:25 +0000
Subject: [PATCH 02/52] fix: C Create sets the length members too

---
 beschi/writers/c.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 750c4e1..56e294c 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -338,9 +338,7 @@ class CWriter(Writer):
             self.indent_level += 1
             self.write_line(f"{self.prefix}{sname}* out = ({self.prefix}{sname}*){self.prefix.upper()}MALLOC(sizeof({self.prefix}{sname}));")
             self.write_line(f"if (out == NULL) {{ return NULL; }}")
-            self.write_line(f"out->_mt = {self.prefix}MessageType_{sname};")
-            for mem in sdata.members:
-                self.write_line(f"out->{mem.name} = {self.prefix}{sname}_default.{mem.name};")
+            self.write_line(f"*out = {self.prefix}{sname}_default;")
             self.write_line("return out;")
             self.indent_level -= 1
             self.write_line("}")
-- 
2.43.0


From e133c2265b91b0189190f300ef24dd86302e0850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:25 +0000
Subject: [PATCH 03/52] fix: C sizes are computed in size_t, not in the list's
 own integer type

---
 beschi/writers/c.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 56e294c..3c80888 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -170,10 +170,10 @@ class CWriter(Writer):
                     accum += NUMERIC_TYPE_SIZES[self.protocol.list_size_type]
                     idx = self.indent_level
                     if var.is_simple(True):
-                        lines.append(f"*size += {accessor}{var.name}_len * {self.protocol.get_size_of(var.vartype)};")
+                        lines.append(f"*size += (size_t){accessor}{var.name}_len * {self.protocol.get_size_of(var.vartype)};")
                     elif var.vartype == "string":
                         lines.append(f"for ({self.get_native_list_size()} i{idx} = 0; i{idx} < {accessor}{var.name}_len; i{idx}++) {{")
-                        lines.append(f"{self.tab}*size += {NUMERIC_TYPE_SIZES[self.protocol.string_size_type]} + {accessor}{var.name}_els_len[i{idx}];")
+                        lines.append(f"{self.tab}*size += {NUMERIC_TYPE_SIZES[self.protocol.string_size_type]} + (size_t){accessor}{var.name}_els_len[i{idx}];")
                         lines.append("}")
                     else:
                         lines.append(f"for ({self.get_native_list_size()} i{idx} = 0; i{idx} < {accessor}{var.name}_len; i{idx}++) {{")
-- 
2.43.0


From 3008a5be110236e7d9e93540c149f51318a68b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:56 +0000
Subject: [PATCH 04/52] fix: C messages can be destroyed after a read that
 failed part way

---
 beschi/writers/boilerplate/C.1.h |  8 ++++++++
 beschi/writers/c.py              | 27 ++++++++++++++++++---------
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/beschi/writers/boilerplate/C.1.h b/beschi/writers/boilerplate/C.1.h
index b2de374..719c8a3 100644
--- a/beschi/writers/boilerplate/C.1.h
+++ b/beschi/writers/boilerplate/C.1.h
@@ -27,6 +27,14 @@
 ///////////////////////////////////////
 // standard utility definitions
 
+void* beschi_AllocateList(size_t count, size_t elementSize);
+void* beschi_AllocateList(size_t count, size_t elementSize) {
+    if (elementSize > 0 && count > SIZE_MAX / elementSize) {
+        return NULL;
+    }
+    return BESCHI_MALLOC(count * elementSize);
+}
+
 bool beschi_IsFinished(const beschi_DataAccess *r) {
     return r->position >= r->bufferSize;
 }
diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 3c80888..3c40395 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -60,14 +60,16 @@ class CWriter(Writer):
             self.subs = [("beschi", self.protocol.namespace), ("BESCHI", self.protocol.namespace.upper())]
             self.prefix = f"{self.protocol.namespace}_"
 
-    def err_check_return(self):
+    def err_check_return(self, cleanup: str = None):
         self.write_line(f"if (err != {self.prefix.upper()}ERR_OK) {{")
         self.indent_level += 1
+        if cleanup != None:
+            self.write_line(cleanup)
         self.write_line("return err;")
         self.indent_level -= 1
         self.write_line("}")
 
-    def deserializer(self, var: Variable, accessor: str):
+    def deserializer(self, var: Variable, accessor: str, cleanup: str = None):
         if var.is_list:
             self.write_line(f"err = {self.prefix}Read{self.base_serializers[self.protocol.list_size_type]}(r, &({accessor}{var.name}_len));")
             self.err_check_return()
@@ -75,11 +77,12 @@ class CWriter(Writer):
                 pref = ""
             else:
                 pref = self.prefix
-            self.write_line(f"{accessor}{var.name} = ({pref}{self.type_mapping[var.vartype]}*){self.prefix.upper()}MALLOC(sizeof({pref}{self.type_mapping[var.vartype]}) * {accessor}{var.name}_len);")
-            self.write_line(f"if ({accessor}{var.name} == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
+            no_list = f"{accessor}{var.name}_len = 0; return {self.prefix.upper()}ERR_ALLOCATION_FAILURE;"
+            self.write_line(f"{accessor}{var.name} = ({pref}{self.type_mapping[var.vartype]}*){self.prefix}AllocateList((size_t){accessor}{var.name}_len, sizeof({pref}{self.type_mapping[var.vartype]}));")
+            self.write_line(f"if ({accessor}{var.name} == NULL) {{ {no_list} }}")
             if var.vartype == "string":
-                self.write_line(f"{accessor}{var.name}_els_len = ({self.get_native_string_size()}*){self.prefix.upper()}MALLOC(sizeof({self.get_native_string_size()}) * {accessor}{var.name}_len);")
-                self.write_line(f"if ({accessor}{var.name}_els_len == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
+                self.write_line(f"{accessor}{var.name}_els_len = ({self.get_native_string_size()}*){self.prefix}AllocateList((size_t){accessor}{var.name}_len, sizeof({self.get_native_string_size()}));")
+                self.write_line(f"if ({accessor}{var.name}_els_len == NULL) {{ {no_list} }}")
             idx = self.indent_level
             self.write_line(f"for ({self.get_native_list_size()} i{idx} = 0; i{idx} < {accessor}{var.name}_len; i{idx}++) {{")
             self.indent_level += 1
@@ -96,7 +99,11 @@ class CWriter(Writer):
                 self.write_line(f"{accessor}{var.name}[i{idx}] = ({self.prefix}{var.vartype})_{var.name};")
             else:
                 inner = Variable(self.protocol, f"{var.name}[i{idx}]", var.vartype)
-                self.deserializer(inner, accessor)
+                if var.is_simple(True):
+                    self.deserializer(inner, accessor)
+                else:
+                    # on an error, only the elements up to this one hold anything to clean up
+                    self.deserializer(inner, accessor, f"{accessor}{var.name}_len = ({self.get_native_list_size()})(i{idx} + 1);")
             self.indent_level -= 1
             self.write_line("}")
             self.err_check_return()
@@ -105,10 +112,11 @@ class CWriter(Writer):
             if idx_search != None:
                 name = idx_search.group(1)
                 idx = idx_search.group(2)
+                self.write_line(f"{accessor}{var.name} = NULL;")
                 self.write_line(f"err = {self.prefix}ReadString(r, &({accessor}{var.name}), &({accessor}{name}_els_len[{idx}]));")
             else:
                 self.write_line(f"err = {self.prefix}ReadString(r, &({accessor}{var.name}), &({accessor}{var.name}_len));")
-            self.err_check_return()
+            self.err_check_return(cleanup)
         elif var.vartype in self.protocol.enums:
             e = self.protocol.enums[var.vartype]
             self.write_line(f"{self.type_mapping[e.encoding]} _{var.name};")
@@ -125,7 +133,7 @@ class CWriter(Writer):
             self.err_check_return()
         else:
             self.write_line(f"err = {self.prefix}{var.vartype}_FromBytes(r, &({accessor}{var.name}));")
-            self.err_check_return()
+            self.err_check_return(cleanup)
 
     def serializer(self, var: Variable, accessor: str):
         if var.is_list:
@@ -362,6 +370,7 @@ class CWriter(Writer):
 
         self.write_line(f"{self.prefix}err_t {self.prefix}{sname}_FromBytes({self.prefix}DataAccess* r, {self.prefix}{sname}* dst) {{")
         self.indent_level += 1
+        self.write_line("memset(dst, 0, sizeof(*dst));")
         if sdata.is_message:
             self.write_line(f"dst->_mt = {self.prefix}MessageType_{sname};")
         if len(sdata.members) > 0:
-- 
2.43.0


From e71b583ef9608b9b87a78a95b6bd73e69137f20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:38 +0000
Subject: [PATCH 05/52] fix: C string lengths cannot wrap around the bounds
 checks

---
 beschi/writers/boilerplate/C.1.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/beschi/writers/boilerplate/C.1.h b/beschi/writers/boilerplate/C.1.h
index 719c8a3..9ecc3cc 100644
--- a/beschi/writers/boilerplate/C.1.h
+++ b/beschi/writers/boilerplate/C.1.h
@@ -136,14 +136,14 @@ beschi_err_t beschi_ReadString(beschi_DataAccess *r, char **s, {# STRING_SIZE_TY
     if (err != BESCHI_ERR_OK) {
         return err;
     }
-    if (r->bufferSize < r->position + *len) {
+    if (r->bufferSize - r->position < (size_t)*len) {
         return BESCHI_ERR_EOF;
     }
-    *s = (char*)BESCHI_MALLOC((size_t)(*len + 1));
+    *s = (char*)BESCHI_MALLOC((size_t)*len + 1);
     if (*s == NULL) { return BESCHI_ERR_ALLOCATION_FAILURE; }
-    memcpy(*s, r->buffer + r->position, *len);
+    memcpy(*s, r->buffer + r->position, (size_t)*len);
     (*s)[*len] = '\0';
-    r->position += *len;
+    r->position += (size_t)*len;
     return BESCHI_ERR_OK;
 }
 
@@ -245,11 +245,11 @@ beschi_err_t beschi_WriteString(beschi_DataAccess *w, char* const *s, const {# S
     if (err != BESCHI_ERR_OK) {
         return err;
     }
-    if (w->bufferSize < w->position + len) {
+    if (w->bufferSize - w->position < (size_t)len) {
         return BESCHI_ERR_EOF;
     }
-    memcpy(w->buffer + w->position, *s, len);
-    w->position += len;
+    memcpy(w->buffer + w->position, *s, (size_t)len);
+    w->position += (size_t)len;
     return BESCHI_ERR_OK;
 }
 
-- 
2.43.0


From 9a852fe827f67d1052e0868d6d0d1882b6b6fe5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:38 +0000
Subject: [PATCH 06/52] fix: C header includes string.h, whose functions it
 uses

---
 beschi/writers/boilerplate/C.0.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beschi/writers/boilerplate/C.0.h b/beschi/writers/boilerplate/C.0.h
index 80a9c48..cb81438 100644
--- a/beschi/writers/boilerplate/C.0.h
+++ b/beschi/writers/boilerplate/C.0.h
@@ -7,6 +7,7 @@
 #define INCLUDE_BESCHI_H
 
 #include <stdlib.h>
+#include <string.h>
 #include <stddef.h>
 #include <stdint.h>
 #include <stdbool.h>
-- 
2.43.0


From b6b31de6833385c414fd4c6ecb2272a118d9d4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:38 +0000
Subject: [PATCH 07/52] fix: C namespaces that contain BESCHI are not
 substituted twice

---
 beschi/writers/c.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 3c40395..ca490d6 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -57,7 +57,7 @@ class CWriter(Writer):
         self.subs: list[tuple[str,str]] = []
         self.prefix = "beschi_"
         if self.protocol.namespace != None:
-            self.subs = [("beschi", self.protocol.namespace), ("BESCHI", self.protocol.namespace.upper())]
+            self.subs = [("BESCHI", self.protocol.namespace.upper()), ("beschi", self.protocol.namespace)]
             self.prefix = f"{self.protocol.namespace}_"
 
     def err_check_return(self, cleanup: str = None):
-- 
2.43.0


From de2f72f0e7f90e283a5d8cd9a6cd2780ebffa94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:38 +0000
Subject: [PATCH 08/52] fix: C packing and unpacking stay in the buffer and
 start at its position

---
 beschi/writers/c.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index ca490d6..8846b1f 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -664,7 +664,12 @@ class CWriter(Writer):
         self.indent_level -= 1
         self.write_line("}")
         self.write_line("const char header[] = \"BSCI\";")
-        self.write_line("memcpy(w->buffer, header, 4);")
+        self.write_line("if (w->bufferSize < w->position + 4) {")
+        self.indent_level += 1
+        self.write_line(f"return {self.prefix.upper()}ERR_EOF;")
+        self.indent_level -= 1
+        self.write_line("}")
+        self.write_line("memcpy(w->buffer + w->position, header, 4);")
         self.write_line("w->position += 4;")
         self.write_line(f"err = {self.prefix}WriteUInt32(w, (uint32_t)len);")
         self.err_check_return()
@@ -690,7 +695,8 @@ class CWriter(Writer):
         self.write_line("}")
         self.indent_level -= 1
         self.write_line("}")
-        self.write_line(f"{self.prefix}WriteUInt8(w, 0);")
+        self.write_line(f"err = {self.prefix}WriteUInt8(w, 0);")
+        self.err_check_return()
         self.write_line()
         self.write_line(f"return {self.prefix.upper()}ERR_OK;")
         self.indent_level -= 1
@@ -700,7 +706,9 @@ class CWriter(Writer):
         self.write_line(f"{self.prefix}err_t {self.prefix}UnpackMessages({self.prefix}DataAccess* r, void*** msgListOut, size_t* len) {{")
         self.indent_level += 1
         self.write_line(f"{self.prefix}err_t err = {self.prefix.upper()}ERR_OK;")
-        self.write_line("if (memcmp(r->buffer, \"BSCI\", 4) != 0) {")
+        self.write_line("*msgListOut = NULL;")
+        self.write_line("*len = 0;")
+        self.write_line("if (r->bufferSize < r->position + 4 || memcmp(r->buffer + r->position, \"BSCI\", 4) != 0) {")
         self.indent_level += 1
         self.write_line(f"return {self.prefix.upper()}ERR_INVALID_DATA;")
         self.indent_level -= 1
-- 
2.43.0


From a2a763d5c88323bdf66e4167e8261608cb87f28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:38 +0000
Subject: [PATCH 09/52] fix: C message list survives a failing reallocation

---
 beschi/writers/c.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 8846b1f..3393691 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -556,8 +556,9 @@ class CWriter(Writer):
         self.write_line("while (*len >= currCapacity) {")
         self.indent_level += 1
         self.write_line("currCapacity *= 2;")
-        self.write_line(f"*msgListDst = (void**){self.prefix.upper()}REALLOC(*msgListDst, (sizeof(void*) * currCapacity));")
-        self.write_line(f"if (*msgListDst == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
+        self.write_line(f"void** grown = (void**){self.prefix.upper()}REALLOC(*msgListDst, (sizeof(void*) * currCapacity));")
+        self.write_line(f"if (grown == NULL) {{ return {self.prefix.upper()}ERR_ALLOCATION_FAILURE; }}")
+        self.write_line("*msgListDst = grown;")
         self.indent_level -= 1
         self.write_line("}")
         self.write_line("uint8_t msgType;")
-- 
2.43.0


From 648df2e18aa957907e4be989e6d0ad973fd02b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:38 +0000
Subject: [PATCH 10/52] fix: C Cleanup does not free the static strings of a
 default message

---
 beschi/writers/c.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 3393691..8962daf 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -229,7 +229,7 @@ class CWriter(Writer):
                 self.indent_level -= 1
                 self.write_line("},")
 
-    def destructor(self, var: Variable, accessor: str):
+    def destructor(self, var: Variable, accessor: str, default: str = None):
         if var.is_simple():
             return
         if var.is_list:
@@ -247,9 +247,15 @@ class CWriter(Writer):
                     self.write_line(f"{self.prefix.upper()}FREE({accessor}{var.name}_els_len);")
                 self.write_line(f"{self.prefix.upper()}FREE({accessor}{var.name});")
         elif var.vartype == "string":
-            self.write_line(f"{self.prefix.upper()}FREE({accessor}{var.name});")
+            if default != None:
+                # the empty string of a default message is not allocated
+                self.write_line(f"if ({accessor}{var.name} != {default}{var.name}) {{ {self.prefix.upper()}FREE({accessor}{var.name}); }}")
+            else:
+                self.write_line(f"{self.prefix.upper()}FREE({accessor}{var.name});")
         else:
-            [self.destructor(mem, f"{accessor}{var.name}.") for mem in self.protocol.structs[var.vartype].members]
+            if default != None:
+                default = f"{default}{var.name}."
+            [self.destructor(mem, f"{accessor}{var.name}.", default) for mem in self.protocol.structs[var.vartype].members]
 
     def gen_enum(self, ename: str, edata: Enum):
         self.write_line(f"typedef enum {self.prefix}{ename} {{")
@@ -354,7 +360,7 @@ class CWriter(Writer):
 
             self.write_line(f"void {self.prefix}{sname}_Cleanup({self.prefix}{sname} *m) {{")
             self.indent_level += 1
-            [self.destructor(mem, f"m->") for mem in sdata.members]
+            [self.destructor(mem, f"m->", f"{self.prefix}{sname}_default.") for mem in sdata.members]
             self.indent_level -= 1
             self.write_line("}")
             self.write_line()
-- 
2.43.0


From 20f60cbfc32e0352a682fb39fd3fdf694788fbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:38 +0000
Subject: [PATCH 11/52] fix: C structs are declared after the structs they
 contain

---
 beschi/writers/c.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 8962daf..5a09771 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -453,8 +453,18 @@ class CWriter(Writer):
         for enum, edata in self.protocol.enums.items():
             self.gen_enum(enum, edata)
 
-        for sname, sdata in self.protocol.structs.items():
-            self.gen_struct(sname, sdata)
+        declared: set[str] = set()
+        def declare_struct(sname: str):
+            # C needs the types of a struct's members to be declared before it
+            if sname in declared: return
+            declared.add(sname)
+            for var in self.protocol.structs[sname].members:
+                if var.vartype in self.protocol.structs:
+                    declare_struct(var.vartype)
+            self.gen_struct(sname, self.protocol.structs[sname])
+
+        for sname in self.protocol.structs:
+            declare_struct(sname)
 
         for mname, mdata in self.protocol.messages.items():
             self.gen_struct(mname, mdata)
-- 
2.43.0


From a2d5f757e6aad6e97a02915a790d0095e7988250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:09 +0000
Subject: [PATCH 12/52] fix: Go readString reports truncated input as an error

---
 beschi/writers/boilerplate/Go.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/beschi/writers/boilerplate/Go.go b/beschi/writers/boilerplate/Go.go
index 9b24e78..da99b5a 100644
--- a/beschi/writers/boilerplate/Go.go
+++ b/beschi/writers/boilerplate/Go.go
@@ -8,14 +8,15 @@ import (
 
 func readString(data io.Reader, str *string) error {
 	var len {# STRING_SIZE_TYPE #}
-	binary.Read(data, binary.LittleEndian, &len)
+	if err := binary.Read(data, binary.LittleEndian, &len); err != nil {
+		return err
+	}
 	sbytes := make([]byte, len)
-	err := binary.Read(data, binary.LittleEndian, &sbytes)
-	if err != nil {
-		panic(err)
+	if err := binary.Read(data, binary.LittleEndian, &sbytes); err != nil {
+		return err
 	}
 	*str = string(sbytes)
-	return err
+	return nil
 }
 
 func writeString(data io.Writer, str *string) {
-- 
2.43.0


From 1724cde0fbfeaeb30b8fd1b5bc16b6b016b152a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:09 +0000
Subject: [PATCH 13/52] fix: Go UnpackMessages returns an error for a buffer
 shorter than the header

---
 beschi/writers/boilerplate/Go.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/boilerplate/Go.go b/beschi/writers/boilerplate/Go.go
index da99b5a..c0893c7 100644
--- a/beschi/writers/boilerplate/Go.go
+++ b/beschi/writers/boilerplate/Go.go
@@ -56,7 +56,7 @@ func UnpackMessages(data io.Reader) ([]Message, error) {
 	sbytes := make([]byte, 4)
 	err := binary.Read(data, binary.LittleEndian, &sbytes)
 	if err != nil {
-		panic(err)
+		return nil, fmt.Errorf("could not read packed message header (%w)", err)
 	}
 	if string(sbytes) != "BSCI" {
 		return nil, fmt.Errorf("packed message buffer has invalid header")
-- 
2.43.0


From 95c442fc2fb95103ce64bd45397a0e382394355e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:09 +0000
Subject: [PATCH 14/52] fix: Go reports errors from reading nested structs

---
 beschi/writers/go.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/go.py b/beschi/writers/go.py
index 8513b63..4d3ccc1 100644
--- a/beschi/writers/go.py
+++ b/beschi/writers/go.py
@@ -112,7 +112,11 @@ class GoWriter(Writer):
             self.indent_level -= 1
             self.write_line("}")
         else:
-            self.write_line(f"{var.vartype}FromBytes(data, &{accessor}.{var.name})")
+            self.write_line(f"if err {':' if declare_err else ''}= {var.vartype}FromBytes(data, &{accessor}.{var.name}); err != nil {{")
+            self.indent_level += 1
+            self.write_line(f"return {'' if by_ref else 'nil, '}err")
+            self.indent_level -= 1
+            self.write_line("}")
 
     def serializer(self, var: Variable, accessor: str):
         if var.is_list:
-- 
2.43.0


From f64eea8bcee63fab07ba64910b2d9b4717ffafa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:09 +0000
Subject: [PATCH 15/52] fix: Go checks enums inside fixed-size structs

---
 beschi/writers/go.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/go.py b/beschi/writers/go.py
index 4d3ccc1..4dbb25d 100644
--- a/beschi/writers/go.py
+++ b/beschi/writers/go.py
@@ -105,7 +105,7 @@ class GoWriter(Writer):
             self.indent_level -= 1
             self.write_line("}")
             self.write_line(f"{accessor}.{var.name} = _{var.name}")
-        elif var.is_simple():
+        elif var.vartype in NUMERIC_TYPE_SIZES:
             self.write_line(f"if err {':' if declare_err else ''}= binary.Read(data, binary.LittleEndian, &{accessor}.{var.name}); err != nil {{")
             self.indent_level += 1
             self.write_line(f"return {'' if by_ref else 'nil, '}fmt.Errorf(\"could not read {accessor}.{var.name} at offset %d (%w)\", getDataOffset(data), err)")
-- 
2.43.0


From 497d4923df57cd8bf28dc1a7ad25ffd6772f9b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:09 +0000
Subject: [PATCH 16/52] fix: Go code generated with --go-no-rename can write
 its structs and keeps its namespace

---
 beschi/writers/go.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/go.py b/beschi/writers/go.py
index 4dbb25d..8fd4cb4 100644
--- a/beschi/writers/go.py
+++ b/beschi/writers/go.py
@@ -134,7 +134,7 @@ class GoWriter(Writer):
         elif var.vartype in self.protocol.enums:
             e = self.protocol.enums[var.vartype]
             self.write_line(f"binary.Write(data, binary.LittleEndian, &{accessor}.{var.name})")
-        elif var.is_simple():
+        elif var.vartype in NUMERIC_TYPE_SIZES:
             self.write_line(f"binary.Write(data, binary.LittleEndian, &{accessor}.{var.name})")
         else:
             self.write_line(f"{accessor}.{var.name}.WriteBytes(data)")
@@ -325,6 +325,8 @@ class GoWriter(Writer):
             subs.append(("Beschi", self.protocol.namespace))
             if self.rename:
                 subs.append(("beschi", TextUtil.convert_to_lower_snake_case(self.protocol.namespace)))
+            else:
+                subs.append(("beschi", self.protocol.namespace))
 
         self.add_boilerplate(subs)
         self.write_line()
-- 
2.43.0


From 831d0215fd5b398223ec9f4fa41746dbe77f051e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:57 +0000
Subject: [PATCH 17/52] fix: Rust lists of bytes and bools compile

---
 beschi/writers/rust.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/rust.py b/beschi/writers/rust.py
index 97bd8a3..5b928a4 100644
--- a/beschi/writers/rust.py
+++ b/beschi/writers/rust.py
@@ -78,7 +78,7 @@ class RustWriter(Writer):
             self.write_line(f"writer.extend(({accessor}{var.name}.len() as {self.get_native_list_size()}).to_le_bytes());")
             self.write_line(f"for _el in &{accessor}{var.name} {{")
             self.indent_level += 1
-            inner = Variable(self.protocol, f"{'*' if var.vartype in self.protocol.enums else ''}_el", var.vartype)
+            inner = Variable(self.protocol, f"{'*' if var.vartype in self.protocol.enums or var.vartype in ["byte", "bool"] else ''}_el", var.vartype)
             self.serializer(inner, "")
             self.indent_level -= 1
             self.write_line("}")
-- 
2.43.0


From 79da7d9de0642671843da621909106e7c35f4d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:57 +0000
Subject: [PATCH 18/52] fix: Rust bounds check does not overflow on huge
 lengths

---
 beschi/writers/boilerplate/Rust.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/boilerplate/Rust.rs b/beschi/writers/boilerplate/Rust.rs
index 2c20165..13dc1d2 100644
--- a/beschi/writers/boilerplate/Rust.rs
+++ b/beschi/writers/boilerplate/Rust.rs
@@ -45,7 +45,7 @@ impl<'a> BufferReader<'a> {
     }
 
     pub fn has_remaining(&self, size: usize) -> bool {
-        self.current_position + size <= self.buffer.len()
+        self.current_position <= self.buffer.len() && size <= self.buffer.len() - self.current_position
     }
 
     pub fn take_byte(&mut self) -> Result<u8, BeschiError> {
-- 
2.43.0


From 2b8dd0969a714bdd636c637df7d05fcc2c70bea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:57 +0000
Subject: [PATCH 19/52] fix: Rust list lengths do not shadow members named
 <list>_len

---
 beschi/writers/rust.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/rust.py b/beschi/writers/rust.py
index 5b928a4..6f45959 100644
--- a/beschi/writers/rust.py
+++ b/beschi/writers/rust.py
@@ -45,12 +45,12 @@ class RustWriter(Writer):
 
     def deserializer(self, var: Variable, accessor: str):
         if var.is_list:
-            self.write_line(f"let {var.name}_len = reader.read_{self.get_native_list_size()}()?;")
+            self.write_line(f"let _{var.name}_len = reader.read_{self.get_native_list_size()}()?;")
             if var.vartype in self.type_mapping:
                 self.write_line(f"let mut {var.name}: Vec<{self.type_mapping[var.vartype]}> = Vec::new();")
             else:
                 self.write_line(f"let mut {var.name}: Vec<{var.vartype}> = Vec::new();")
-            self.write_line(f"for _ in 0..{var.name}_len {{")
+            self.write_line(f"for _ in 0.._{var.name}_len {{")
             self.indent_level += 1
             inner = Variable(self.protocol, "_el", var.vartype)
             self.deserializer(inner, "");
-- 
2.43.0


From 95a93fd416d871b15e802484df032a2552f1f887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:49 +0000
Subject: [PATCH 20/52] fix: TypeScript strings are read from within the given
 DataView

---
 beschi/writers/boilerplate/TypeScript.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/beschi/writers/boilerplate/TypeScript.ts b/beschi/writers/boilerplate/TypeScript.ts
index b542075..dfe49ac 100644
--- a/beschi/writers/boilerplate/TypeScript.ts
+++ b/beschi/writers/boilerplate/TypeScript.ts
@@ -80,7 +80,10 @@ export class DataAccess {
 
   getString(): string {
     const len = this.get{# STRING_SIZE_TYPE #}();
-    const strBuffer = new Uint8Array(this.data.buffer, this.currentOffset, len);
+    if (len < 0 || this.currentOffset + len > this.data.byteLength) {
+      throw new RangeError("String is longer than the remaining data.");
+    }
+    const strBuffer = new Uint8Array(this.data.buffer, this.data.byteOffset + this.currentOffset, len);
     this.currentOffset += len;
     return _textDec.decode(strBuffer);
   }
-- 
2.43.0


From 273cebf34c70d15b06bdfc376f2480979137c434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:49 +0000
Subject: [PATCH 21/52] fix: TypeScript packing and unpacking stay within the
 given DataView

---
 beschi/writers/boilerplate/TypeScript.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/boilerplate/TypeScript.ts b/beschi/writers/boilerplate/TypeScript.ts
index dfe49ac..81373f9 100644
--- a/beschi/writers/boilerplate/TypeScript.ts
+++ b/beschi/writers/boilerplate/TypeScript.ts
@@ -176,7 +176,7 @@ export function PackMessages(msgList: Message[], data: DataView|DataAccess): voi
     da = data;
   }
   const headerBytes = _textEnc.encode("BSCI");
-  const arr = new Uint8Array(da.data.buffer);
+  const arr = new Uint8Array(da.data.buffer, da.data.byteOffset, da.data.byteLength);
   arr.set(headerBytes, da.currentOffset);
   da.currentOffset += headerBytes.byteLength;
   da.setUint32(msgList.length);
@@ -194,7 +194,10 @@ export function UnpackMessages(data: DataView|DataAccess): Message[] {
   else {
     da = data;
   }
-  const headerBuffer = new Uint8Array(da.data.buffer, da.currentOffset, 4);
+  if (da.currentOffset + 4 > da.data.byteLength) {
+    throw new Error("Packed message buffer is too short.");
+  }
+  const headerBuffer = new Uint8Array(da.data.buffer, da.data.byteOffset + da.currentOffset, 4);
   da.currentOffset += 4;
   const headerLabel = _textDec.decode(headerBuffer);
   if (headerLabel !== "BSCI") {
-- 
2.43.0


From 8fe91f9bd61a9e12d2382da4c5c7222efeac9add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:49 +0000
Subject: [PATCH 22/52] fix: TypeScript keeps a byte order mark at the start of
 a string

---
 beschi/writers/boilerplate/TypeScript.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/boilerplate/TypeScript.ts b/beschi/writers/boilerplate/TypeScript.ts
index 81373f9..be9f21c 100644
--- a/beschi/writers/boilerplate/TypeScript.ts
+++ b/beschi/writers/boilerplate/TypeScript.ts
@@ -1,5 +1,5 @@
 
-const _textDec = new TextDecoder('utf-8');
+const _textDec = new TextDecoder('utf-8', { ignoreBOM: true });
 const _textEnc = new TextEncoder();
 
 export class DataAccess {
-- 
2.43.0


From 93269fb64cabf08382fbd03cdb6a2446362ce84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:49 +0000
Subject: [PATCH 23/52] fix: TypeScript handles 64-bit list and string size
 types

---
 beschi/writers/boilerplate/TypeScript.ts |  4 ++--
 beschi/writers/typescript.py             | 19 +++++++++++++++----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/beschi/writers/boilerplate/TypeScript.ts b/beschi/writers/boilerplate/TypeScript.ts
index be9f21c..c88b371 100644
--- a/beschi/writers/boilerplate/TypeScript.ts
+++ b/beschi/writers/boilerplate/TypeScript.ts
@@ -79,7 +79,7 @@ export class DataAccess {
   }
 
   getString(): string {
-    const len = this.get{# STRING_SIZE_TYPE #}();
+    const len = Number(this.get{# STRING_SIZE_TYPE #}());
     if (len < 0 || this.currentOffset + len > this.data.byteLength) {
       throw new RangeError("String is longer than the remaining data.");
     }
@@ -140,7 +140,7 @@ export class DataAccess {
 
   setString(val: string): void {
     const strBuffer = _textEnc.encode(val);
-    this.set{# STRING_SIZE_TYPE #}(strBuffer.byteLength);
+    this.set{# STRING_SIZE_TYPE #}({# NATIVE_STRING_SIZE_CAST #}(strBuffer.byteLength));
     const arr = new Uint8Array(this.data.buffer, this.data.byteOffset, this.data.byteLength);
     arr.set(strBuffer, this.currentOffset);
     this.currentOffset += strBuffer.byteLength;
diff --git a/beschi/writers/typescript.py b/beschi/writers/typescript.py
index 9453530..fe578e9 100644
--- a/beschi/writers/typescript.py
+++ b/beschi/writers/typescript.py
@@ -33,6 +33,10 @@ class TypeScriptWriter(Writer):
                 # <sigh>, JavaScript
                 self.type_mapping[var_type] = "number"
 
+        self.type_casts: dict[str,str] = {}
+        for var_type in NUMERIC_TYPE_SIZES:
+            self.type_casts[var_type] = "BigInt" if self.type_mapping[var_type] == "bigint" else "Number"
+
         self.base_serializers: dict[str,str] = {
             "byte": "Byte",
             "bool": "Bool",
@@ -51,12 +55,17 @@ class TypeScriptWriter(Writer):
     def deserializer(self, var: Variable, accessor: str):
         var_clean = TextUtil.replace(var.name, [("[", "_"), ("]", "_")])
         if var.is_list:
-            self.write_line(f"const {var_clean}_Length = da.get{self.base_serializers[self.protocol.list_size_type]}();")
-            if self.is_assembly_script:
+            if not self.is_assembly_script:
+                # lists are indexed by regular numbers, whatever type stores their length
+                idx_type = "number"
+                self.write_line(f"const {var_clean}_Length = Number(da.get{self.base_serializers[self.protocol.list_size_type]}());")
+            else:
+                idx_type = self.type_mapping[self.protocol.list_size_type]
+                self.write_line(f"const {var_clean}_Length = da.get{self.base_serializers[self.protocol.list_size_type]}();")
                 self.write_line("if (da.hasError) { return null; }")
             self.write_line(f"{accessor}{var.name} = new Array<{self.type_mapping[var.vartype]}>({var_clean}_Length);")
             idx = self.indent_level
-            self.write_line(f"for (let i{idx}: {self.type_mapping[self.protocol.list_size_type]} = 0; i{idx} < {var_clean}_Length; i{idx}++) {{")
+            self.write_line(f"for (let i{idx}: {idx_type} = 0; i{idx} < {var_clean}_Length; i{idx}++) {{")
             self.indent_level += 1
             if var.vartype in self.protocol.enums:
                 e = self.protocol.enums[var.vartype]
@@ -126,7 +135,8 @@ class TypeScriptWriter(Writer):
     def serializer(self, var: Variable, accessor: str):
         if var.is_list:
             if not self.is_assembly_script:
-                self.write_line(f"da.set{self.base_serializers[self.protocol.list_size_type]}({accessor}{var.name}.length);")
+                cast = self.type_casts[self.protocol.list_size_type]
+                self.write_line(f"da.set{self.base_serializers[self.protocol.list_size_type]}({cast}({accessor}{var.name}.length));")
             else:
                 self.write_line(f"da.set{self.base_serializers[self.protocol.list_size_type]}({accessor}{var.name}.length as {self.type_mapping[self.protocol.list_size_type]});")
                 self.write_line("if (da.hasError) { return false; }")
@@ -403,6 +413,7 @@ class TypeScriptWriter(Writer):
         self.add_boilerplate(substitutions=[
             ("{# STRING_SIZE_TYPE #}", self.base_serializers[self.protocol.string_size_type]),
             ("{# NATIVE_STRING_SIZE_TYPE #}", self.type_mapping[self.protocol.string_size_type]),
+            ("{# NATIVE_STRING_SIZE_CAST #}", "" if self.is_assembly_script else self.type_casts[self.protocol.string_size_type]),
         ])
 
         self.write_line("export enum MessageType {")
-- 
2.43.0


From 863bdf3504f09dc091e6ca89f10123f3144f6a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:49 +0000
Subject: [PATCH 24/52] fix: TypeScript measures nested lists whose members
 share a name

---
 beschi/writers/typescript.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/beschi/writers/typescript.py b/beschi/writers/typescript.py
index fe578e9..cbebb31 100644
--- a/beschi/writers/typescript.py
+++ b/beschi/writers/typescript.py
@@ -183,20 +183,22 @@ class TypeScriptWriter(Writer):
 
             for var in st.members:
                 if var.is_list:
+                    # a nested list needs its own index, even when its member has the same name
+                    depth = accessor.count("[") or ""
                     accum += NUMERIC_TYPE_SIZES[self.protocol.list_size_type]
                     if var.is_simple(True):
                         lines.append(f"size += {accessor}{var.name}.length * {self.protocol.get_size_of(var.vartype)};")
                     elif var.vartype == "string":
-                        lines.append(f"for (let {var.name}_i=0; {var.name}_i < {accessor}{var.name}.length; {var.name}_i++) {{")
+                        lines.append(f"for (let {var.name}_i{depth}=0; {var.name}_i{depth} < {accessor}{var.name}.length; {var.name}_i{depth}++) {{")
                         if not self.is_assembly_script:
-                            lines.append(f"{self.tab}size += {NUMERIC_TYPE_SIZES[self.protocol.string_size_type]} + _textEnc.encode({accessor}{var.name}[{var.name}_i]).byteLength;")
+                            lines.append(f"{self.tab}size += {NUMERIC_TYPE_SIZES[self.protocol.string_size_type]} + _textEnc.encode({accessor}{var.name}[{var.name}_i{depth}]).byteLength;")
                         else:
-                            lines.append(f"{self.tab}size += {NUMERIC_TYPE_SIZES[self.protocol.string_size_type]} + String.UTF8.encode({accessor}{var.name}[{var.name}_i], false).byteLength;")
+                            lines.append(f"{self.tab}size += {NUMERIC_TYPE_SIZES[self.protocol.string_size_type]} + String.UTF8.encode({accessor}{var.name}[{var.name}_i{depth}], false).byteLength;")
                         lines.append("}")
                     else:
                         var_clean = TextUtil.replace(var.name, [("[", "_"), ("]", "_")])
-                        lines.append(f"for (let {var_clean}_i=0; {var_clean}_i < {accessor}{var.name}.length; {var_clean}_i++) {{")
-                        clines, caccum = self.gen_measurement(self.protocol.structs[var.vartype], f"{accessor}{var.name}[{var_clean}_i].")
+                        lines.append(f"for (let {var_clean}_i{depth}=0; {var_clean}_i{depth} < {accessor}{var.name}.length; {var_clean}_i{depth}++) {{")
+                        clines, caccum = self.gen_measurement(self.protocol.structs[var.vartype], f"{accessor}{var.name}[{var_clean}_i{depth}].")
                         if clines[0] == size_init:
                             clines = clines[1:]
                         clines.append(f"size += {caccum};")
-- 
2.43.0


From 897240eab73eced3dc6dec61ef57b0fa6f7a8c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:24 +0000
Subject: [PATCH 25/52] fix: C# measures strings by their encoded bytes

---
 beschi/writers/csharp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/csharp.py b/beschi/writers/csharp.py
index 0198a7c..b31e85d 100644
--- a/beschi/writers/csharp.py
+++ b/beschi/writers/csharp.py
@@ -141,7 +141,7 @@ class CSharpWriter(Writer):
                         accum += self.protocol.get_size_of(var.vartype)
                     elif var.vartype == "string":
                         accum += NUMERIC_TYPE_SIZES[self.protocol.string_size_type]
-                        lines.append(f"size += {accessor}{var.name}.Length;")
+                        lines.append(f"size += System.Text.Encoding.UTF8.GetByteCount({accessor}{var.name});")
                     else:
                         clines, caccum = self.gen_measurement(self.protocol.structs[var.vartype], f"{accessor}{var.name}.")
                         if clines[0] == size_init:
-- 
2.43.0


From 986103c01a035c3ac1996a28a56d5796590a4ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:24 +0000
Subject: [PATCH 26/52] fix: C# reports truncated strings as an error

---
 beschi/writers/csharp.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/beschi/writers/csharp.py b/beschi/writers/csharp.py
index b31e85d..971639c 100644
--- a/beschi/writers/csharp.py
+++ b/beschi/writers/csharp.py
@@ -66,6 +66,12 @@ class CSharpWriter(Writer):
         elif var.vartype == "string":
             self.write_line(f"{self.get_native_string_size()} {var_clean}_Length = br.{self.base_deserializers[self.protocol.string_size_type]}();")
             self.write_line(f"byte[] {var_clean}_Buffer = br.ReadBytes((int){var_clean}_Length);")
+            self.write_line(f"if ({var_clean}_Buffer.Length != (long){var_clean}_Length)")
+            self.write_line("{")
+            self.indent_level += 1
+            self.write_line("throw new System.IO.EndOfStreamException();")
+            self.indent_level -= 1
+            self.write_line("}")
             self.write_line(f"{accessor}{var.name} = System.Text.Encoding.UTF8.GetString({var_clean}_Buffer);")
         elif var.vartype in self.protocol.enums:
             e = self.protocol.enums[var.vartype]
-- 
2.43.0


From 1aa179f5e8d9ad3c103d9b081643db004496c715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:24 +0000
Subject: [PATCH 27/52] fix: C# code for uint64 list sizes compiles

---
 beschi/writers/csharp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/csharp.py b/beschi/writers/csharp.py
index 971639c..6ff7b38 100644
--- a/beschi/writers/csharp.py
+++ b/beschi/writers/csharp.py
@@ -44,7 +44,7 @@ class CSharpWriter(Writer):
             self.write_line(f"{self.get_native_list_size()} {var_clean}_Length = br.{self.base_deserializers[self.protocol.list_size_type]}();")
             self.write_line(f"{accessor}{var.name} = new List<{self.type_mapping[var.vartype]}>();")
             idx = self.indent_level
-            self.write_line(f"for (int i{idx} = 0; i{idx} < {var_clean}_Length; i{idx}++)")
+            self.write_line(f"for ({self.get_native_list_size()} i{idx} = 0; i{idx} < {var_clean}_Length; i{idx}++)")
             self.write_line("{")
             self.indent_level += 1
             if var.vartype in self.protocol.enums:
-- 
2.43.0


From 8f12a64be56b5433ecc5a38fea674ba4f0f92703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:07 +0000
Subject: [PATCH 28/52] fix: Zig writes string lengths in the string size type

---
 beschi/writers/boilerplate/Zig.zig | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beschi/writers/boilerplate/Zig.zig b/beschi/writers/boilerplate/Zig.zig
index 643fd3a..a9c8c2e 100644
--- a/beschi/writers/boilerplate/Zig.zig
+++ b/beschi/writers/boilerplate/Zig.zig
@@ -202,9 +202,9 @@ pub fn writeNumber(comptime T: type, offset: usize, buffer: []u8, value: T) usiz
 }
 
 pub fn writeString(offset: usize, buffer: []u8, value: []const u8) usize {
-    _ = writeNumber({# LIST_SIZE_TYPE #}, offset, buffer, @intCast(value.len));
-    std.mem.copyForwards(u8, buffer[offset+@sizeOf({# LIST_SIZE_TYPE #})..][0..value.len], value);
-    return @sizeOf({# LIST_SIZE_TYPE #}) + value.len;
+    _ = writeNumber({# STRING_SIZE_TYPE #}, offset, buffer, @intCast(value.len));
+    std.mem.copyForwards(u8, buffer[offset+@sizeOf({# STRING_SIZE_TYPE #})..][0..value.len], value);
+    return @sizeOf({# STRING_SIZE_TYPE #}) + value.len;
 }
 
 pub fn writeList(comptime T: type, offset: usize, buffer: []u8, value: []T) usize {
-- 
2.43.0


From 09550a2bd92280c3f76ce339e90752bd30bb82ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:07 +0000
Subject: [PATCH 29/52] fix: Zig writes the enums and structs inside fixed-size
 structs

---
 beschi/writers/zig.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beschi/writers/zig.py b/beschi/writers/zig.py
index 163d5f4..a20c969 100644
--- a/beschi/writers/zig.py
+++ b/beschi/writers/zig.py
@@ -76,6 +76,10 @@ class ZigWriter(Writer):
         if parent_is_simple:
             if var.vartype in NUMERIC_TYPE_SIZES:
                 self.write_line(f"_ = writeNumber({self.type_mapping[var.vartype]}, offset + {simple_offset}, buffer, {accessor}{var.name});")
+            elif var.vartype in self.protocol.enums:
+                self.write_line(f"_ = writeNumber({self.type_mapping[var.vartype]}, offset + {simple_offset}, buffer, {accessor}{var.name});")
+            else:
+                self.write_line(f"_ = {accessor}{var.name}.writeBytes(offset + {simple_offset}, buffer);")
         else:
             if var.is_list:
                 self.write_line(f"local_offset += writeList({self.type_mapping[var.vartype]}, local_offset, buffer, {accessor}{var.name});")
-- 
2.43.0


From 8902dbbbfe87fb25cdd97a6f919904be887f780a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:07 +0000
Subject: [PATCH 30/52] fix: Zig compiles structs nested in fixed-size structs

---
 beschi/writers/zig.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/zig.py b/beschi/writers/zig.py
index a20c969..f9b85b2 100644
--- a/beschi/writers/zig.py
+++ b/beschi/writers/zig.py
@@ -50,7 +50,7 @@ class ZigWriter(Writer):
                 e = self.protocol.enums[var.vartype]
                 self.write_line(f"const {accessor}_{var.name} = (try readNumber({var.vartype}, offset + {simple_offset}, buffer)).value;")
             else:
-                self.write_line(f"const {accessor}_{var.name}_read = {var.vartype}.fromBytes(offset + {simple_offset}, buffer);")
+                self.write_line(f"const {accessor}_{var.name}_read = try {var.vartype}.fromBytes(offset + {simple_offset}, buffer);")
                 self.write_line(f"const {accessor}_{var.name} = {accessor}_{var.name}_read.value;")
         else:
             if var.is_list:
-- 
2.43.0


From 56ee3204f7ae940e72aa188491956f3b6b01a068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:07 +0000
Subject: [PATCH 31/52] fix: Zig compiles with signed size types and checks
 huge string lengths

---
 beschi/writers/boilerplate/Zig.zig | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beschi/writers/boilerplate/Zig.zig b/beschi/writers/boilerplate/Zig.zig
index a9c8c2e..c378f99 100644
--- a/beschi/writers/boilerplate/Zig.zig
+++ b/beschi/writers/boilerplate/Zig.zig
@@ -100,9 +100,9 @@ pub fn readNumber(comptime T: type, offset: usize, buffer: []const u8) !struct {
 
 pub fn readString(allocator: std.mem.Allocator, offset: usize, buffer: []const u8) !struct { value: []u8, bytes_read: usize } {
     const len_read = try readNumber({# STRING_SIZE_TYPE #}, offset, buffer);
-    const len = len_read.value;
+    const len = std.math.cast(usize, len_read.value) orelse return DataReaderError.InvalidData;
 
-    if (offset + @sizeOf({# STRING_SIZE_TYPE #}) + len > buffer.len) {
+    if (len > buffer.len - offset - @sizeOf({# STRING_SIZE_TYPE #})) {
         return DataReaderError.EOF;
     }
 
@@ -116,10 +116,10 @@ pub fn readString(allocator: std.mem.Allocator, offset: usize, buffer: []const u
 pub fn readList(comptime T: type, allocator: std.mem.Allocator, offset: usize, buffer: []const u8) !struct { value: []T, bytes_read: usize } {
     var local_offset = offset;
     const len_read = try readNumber({# LIST_SIZE_TYPE #}, local_offset, buffer);
-    const len = len_read.value;
+    const len = std.math.cast(usize, len_read.value) orelse return DataReaderError.InvalidData;
     local_offset += len_read.bytes_read;
     var list = try allocator.alloc(T, len);
-    var made_count: {# LIST_SIZE_TYPE #} = 0;
+    var made_count: usize = 0;
 
     errdefer {
         for (0..made_count) |i| {
-- 
2.43.0


From 3ea12b6d91bc4a0ed796fc6ff59c94d12f008e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:07 +0000
Subject: [PATCH 32/52] fix: Zig unpackMessages rejects malformed headers
 instead of panicking

---
 beschi/writers/boilerplate/Zig.zig | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/boilerplate/Zig.zig b/beschi/writers/boilerplate/Zig.zig
index c378f99..b25b9ad 100644
--- a/beschi/writers/boilerplate/Zig.zig
+++ b/beschi/writers/boilerplate/Zig.zig
@@ -263,7 +263,7 @@ pub fn packMessages(msg_list: []const Message, buffer: []u8) void {
 
 pub fn unpackMessages(allocator: std.mem.Allocator, buffer: []u8) ![]Message {
     var offset: usize = 0;
-    if (!std.mem.eql(u8, buffer[0..4], "BSCI")) {
+    if (buffer.len < 4 or !std.mem.eql(u8, buffer[0..4], "BSCI")) {
         return DataReaderError.InvalidData;
     }
     offset += 4;
@@ -273,7 +273,7 @@ pub fn unpackMessages(allocator: std.mem.Allocator, buffer: []u8) ![]Message {
     if (msg_count == 0) {
         return allocator.alloc(Message, 0);
     }
-    const msg_list = try processRawBytes(allocator, buffer[offset..], @intCast(msg_count));
+    const msg_list = try processRawBytes(allocator, buffer[offset..], std.math.cast(i32, msg_count) orelse -1);
     errdefer allocator.free(msg_list);
 
     if (msg_list.len == 0) {
-- 
2.43.0


From e5a120425d3337e2e02514d9f328635638671eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:54 +0000
Subject: [PATCH 33/52] fix: the check for cyclic structs always terminates

---
 beschi/protocol.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/beschi/protocol.py b/beschi/protocol.py
index 0f13d62..3ec5259 100644
--- a/beschi/protocol.py
+++ b/beschi/protocol.py
@@ -239,15 +239,16 @@ class Protocol():
             raise ValueError("Cannot, at present, have more than 255 types of messages. Sorry. :(")
 
         def check_for_cycles(s: Struct):
-            encountered = set([s.name])
+            encountered = set()
             frontier = [m.vartype for m in s.members if m.vartype in self.structs]
             while len(frontier) > 0:
                 new_type = frontier.pop()
-                if new_type in encountered:
-                    raise RecursionError(f"{s.name} and {new_type} reference each other")
+                if new_type == s.name:
+                    raise RecursionError(f"{s.name} contains itself")
+                # any other loop is reported when its own structs get checked
+                if new_type in encountered: continue
+                encountered.add(new_type)
                 for cvar in self.structs[new_type].members:
-                    if cvar.vartype in encountered:
-                        raise RecursionError(f"{s.name} and {cvar.vartype} reference each other")
                     if cvar.vartype not in self.structs: continue
                     frontier.append(cvar.vartype)
 
-- 
2.43.0


From 91661a515069120a29d6d22688b4fc0c1ed21393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:54 +0000
Subject: [PATCH 34/52] fix: reject duplicate enum names and enum value names

---
 beschi/protocol.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beschi/protocol.py b/beschi/protocol.py
index 3ec5259..4c36999 100644
--- a/beschi/protocol.py
+++ b/beschi/protocol.py
@@ -85,6 +85,8 @@ class Enum():
                     raise TypeError("Missing _value in enum entry")
                 if not type(entry["_value"]) is int:
                     raise TypeError(f"Enum entry _value is not an integer: {entry['_value']}")
+                if entry["_name"] in od:
+                    raise ValueError(f"Duplicate values in enum {name}: {entry['_name']}")
                 od[entry["_name"]] = entry["_value"]
             self.values = od
 
@@ -184,6 +186,8 @@ class Protocol():
             if not type(enum_data["_values"]) is list:
                 raise ValueError(f"Values is not list on {enum_data}")
             e = Enum(enum_data["_name"], enum_data["_values"])
+            if e.name in self.enums:
+                raise ValueError(f"Duplicate _name on {enum_data}")
             self.enums[e.name] = e
 
         def validate_enum(e: Enum):
-- 
2.43.0


From a09952c64094d303347e0dbcd5425a768f34f9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:54 +0000
Subject: [PATCH 35/52] fix: reject empty member names and members named like a
 base type

---
 beschi/protocol.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/beschi/protocol.py b/beschi/protocol.py
index 4c36999..bc8491f 100644
--- a/beschi/protocol.py
+++ b/beschi/protocol.py
@@ -211,6 +211,8 @@ class Protocol():
                     raise ValueError(f"Enum value name cannot shadow struct: '{e.name}.{v}'")
                 if v in self.messages:
                     raise ValueError(f"Enum value name cannot shadow message: '{e.name}.{v}'")
+                if len(v) == 0:
+                    raise ValueError(f"Enum value name cannot be empty! (definition: {e.name})")
                 if _contains_whitespace(v):
                     raise ValueError(f"Enum value name cannot contain whitespace: '{e.name}.{v}'")
 
@@ -227,6 +229,10 @@ class Protocol():
             if s.is_message and s.name in self.structs:
                 raise ValueError(f"Message name cannot shadow struct: '{s.name}'")
             for var in s.members:
+                if len(var.name) == 0:
+                    raise ValueError(f"Member name cannot be empty! (definition: {s.name})")
+                if var.name in RESERVED_WORDS:
+                    raise ValueError(f"Member name is reserved word: '{s.name}.{var.name}'")
                 if _contains_whitespace(var.name):
                     raise ValueError(f"Member name cannot contain whitespace: '{var.name}'")
                 valid_types: list[str] = list(self.structs) + list(self.enums) + list(NUMERIC_TYPE_SIZES.keys()) + ["string"]
-- 
2.43.0


From c0811c1198a1de3fb66e5899635481b89b8312c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:54 +0000
Subject: [PATCH 36/52] fix: reject namespaces that are not strings

---
 beschi/protocol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beschi/protocol.py b/beschi/protocol.py
index bc8491f..d5fb5d4 100644
--- a/beschi/protocol.py
+++ b/beschi/protocol.py
@@ -134,6 +134,8 @@ class Protocol():
 
         if "meta" in protocol_data:
             if "namespace" in protocol_data["meta"]:
+                if not type(protocol_data["meta"]["namespace"]) is str:
+                    raise TypeError(f"Namespace is not a string: {protocol_data['meta']['namespace']}")
                 if _contains_whitespace(protocol_data["meta"]["namespace"]):
                     raise ValueError(f"Namespace cannot contain whitespace: '{protocol_data['meta']['namespace']}'")
                 self.namespace = protocol_data["meta"]["namespace"]
-- 
2.43.0


From fa9aff534a0cbb80418b51e46493c566e8bc65b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:18 +0000
Subject: [PATCH 37/52] fix: Swift reads Data slices and short packed buffers
 without trapping

---
 beschi/writers/boilerplate/Swift.0.swift | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/beschi/writers/boilerplate/Swift.0.swift b/beschi/writers/boilerplate/Swift.0.swift
index 1fb74e7..f4a940f 100644
--- a/beschi/writers/boilerplate/Swift.0.swift
+++ b/beschi/writers/boilerplate/Swift.0.swift
@@ -140,7 +140,8 @@ class DataReader {
         if (self.data.count < self.currentOffset + stringLength) {
             throw DataReaderError.EOF
         }
-        let stringData = self.data[self.currentOffset..<(self.currentOffset+stringLength)]
+        let stringStart = self.data.startIndex + self.currentOffset
+        let stringData = self.data[stringStart..<(stringStart+stringLength)]
         guard
             let ret = String(data: stringData, encoding: String.Encoding.utf8)
         else {
@@ -248,7 +249,10 @@ public class Message {
 
     public static func UnpackMessages(_ data: Data) throws -> [Message] {
         let dataReader = DataReader(fromData: data)
-        let headerBytes = dataReader.data[dataReader.currentOffset..<dataReader.currentOffset+4];
+        if data.count < 4 {
+            throw DataReaderError.EOF
+        }
+        let headerBytes = data.prefix(4)
         guard
             let headerLabel = String(data: headerBytes, encoding: String.Encoding.utf8)
         else {
@@ -262,7 +266,7 @@ public class Message {
         if msgCount == 0 {
             return [Message]()
         }
-        let listData = data.subdata(in: dataReader.currentOffset..<dataReader.data.count)
+        let listData = data.subdata(in: (data.startIndex + dataReader.currentOffset)..<data.endIndex)
         let msgList: [Message] = try ProcessRawBytes(listData, max: Int(msgCount))
         if msgList.count == 0 {
             throw DataReaderError.InvalidData
-- 
2.43.0


From c1f895123f814e9f6b8b5ad77282a719e837b333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:18 +0000
Subject: [PATCH 38/52] fix: AssemblyScript Message.fromBytes hands on a
 DataAccess as what it is

---
 beschi/writers/boilerplate/AssemblyScript.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/boilerplate/AssemblyScript.ts b/beschi/writers/boilerplate/AssemblyScript.ts
index 682673c..ef1fb14 100644
--- a/beschi/writers/boilerplate/AssemblyScript.ts
+++ b/beschi/writers/boilerplate/AssemblyScript.ts
@@ -235,11 +235,11 @@ export abstract class Message {
 
   static fromBytes(data: DataView): Message | null {
     const da = new DataAccess(data);
-    return this.fromBytesDA(da);
+    return Message.fromBytesDA(da);
   };
 
   static fromBytesDA(data: DataAccess): Message | null {
-    const msgList = ProcessRawBytes(data, 1);
+    const msgList = ProcessRawBytesDA(data, 1);
     if (msgList.length == 0) {
       return null;
     }
-- 
2.43.0


From 134627a12f9a608c5772c9dcfba939e4b35d1330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:18 +0000
Subject: [PATCH 39/52] fix: AssemblyScript UnpackMessages stays within its
 DataView and takes every valid container

---
 beschi/writers/boilerplate/AssemblyScript.ts | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/beschi/writers/boilerplate/AssemblyScript.ts b/beschi/writers/boilerplate/AssemblyScript.ts
index ef1fb14..1b3bc1b 100644
--- a/beschi/writers/boilerplate/AssemblyScript.ts
+++ b/beschi/writers/boilerplate/AssemblyScript.ts
@@ -276,7 +276,7 @@ export function PackMessages(msgList: Message[], data: DataView): void {
 
 export function UnpackMessages(data: DataView): Message[] {
   const da = new DataAccess(data);
-  if (da.data.byteLength < 12) {
+  if (da.data.byteLength < 8) {
     throw new Error("Packed message buffer is too short.");
   }
   const headerBuffer = new Uint8Array(4);
@@ -291,8 +291,7 @@ export function UnpackMessages(data: DataView): Message[] {
   if (msgCount == 0) {
     return [];
   }
-  const dv = new DataView(data.buffer, da.currentOffset, data.byteLength - da.currentOffset);
-  const msgList = ProcessRawBytes(dv, msgCount);
+  const msgList = ProcessRawBytesDA(da, msgCount);
   if (msgList.length == 0) {
     throw new Error("No messages in buffer.");
   }
-- 
2.43.0


From 0d53061027e9d3decdd0db0f7b1c37a37d962ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:18 +0000
Subject: [PATCH 40/52] fix: AssemblyScript string lengths cannot wrap around
 the bounds check

---
 beschi/writers/boilerplate/AssemblyScript.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/boilerplate/AssemblyScript.ts b/beschi/writers/boilerplate/AssemblyScript.ts
index 1b3bc1b..f820f64 100644
--- a/beschi/writers/boilerplate/AssemblyScript.ts
+++ b/beschi/writers/boilerplate/AssemblyScript.ts
@@ -113,7 +113,7 @@ export class DataAccess {
     if (this.hasError) {
         return "";
     }
-    if (this.currentOffset + len > (this.data.byteLength as u32)) {
+    if ((len as u64) > ((this.data.byteLength as u32) - this.currentOffset)) {
         this.hasError = true;
         return "";
     }
-- 
2.43.0


From 17acda2c09070ca1d55a86befd7b58f8bba3d760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:52 +0000
Subject: [PATCH 41/52] fix: AssemblyScript accepts exactly the declared enum
 values

---
 beschi/writers/typescript.py | 39 ++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/beschi/writers/typescript.py b/beschi/writers/typescript.py
index cbebb31..3fcdc20 100644
--- a/beschi/writers/typescript.py
+++ b/beschi/writers/typescript.py
@@ -1,6 +1,6 @@
 import argparse
 
-from ..protocol import Protocol, Variable, Struct, Enum, NUMERIC_TYPE_SIZES
+from ..protocol import Protocol, Variable, Struct, Enum, NUMERIC_TYPE_SIZES, NUMERIC_TYPE_RANGES
 from ..writer import Writer, TextUtil
 from .. import LIB_NAME, LIB_VERSION
 
@@ -77,11 +77,11 @@ class TypeScriptWriter(Writer):
                     self.indent_level -= 1
                     self.write_line("}")
                 else:
-                    self.write_line(f"let _{var.name} = da.get{self.base_serializers[e.encoding]}();")
+                    self.write_line(f"let _{var.name}: i32 = da.get{self.base_serializers[e.encoding]}();")
                     self.write_line("if (da.hasError) { return null; }")
-                    self.write_line(f"if (_{var.name} < {e.get_minimum_pair()[1]} || _{var.name} >= ({var.vartype}._Unknown as {self.type_mapping[e.encoding]})) {{")
+                    self.write_line(f"if (!_isValid{var.vartype}(_{var.name})) {{")
                     self.indent_level += 1
-                    self.write_line(f"_{var.name} = {var.vartype}._Unknown as {self.type_mapping[e.encoding]};")
+                    self.write_line(f"_{var.name} = {var.vartype}._Unknown;")
                     self.indent_level -= 1
                     self.write_line("}")
                 self.write_line(f"{accessor}{var.name}[i{idx}] = _{var.name};")
@@ -104,11 +104,11 @@ class TypeScriptWriter(Writer):
                 self.indent_level -= 1
                 self.write_line("}")
             else:
-                self.write_line(f"let _{var.name} = da.get{self.base_serializers[e.encoding]}();")
+                self.write_line(f"let _{var.name}: i32 = da.get{self.base_serializers[e.encoding]}();")
                 self.write_line("if (da.hasError) { return null; }")
-                self.write_line(f"if (_{var.name} < {e.get_minimum_pair()[1]} || _{var.name} >= ({var.vartype}._Unknown as {self.type_mapping[e.encoding]})) {{")
+                self.write_line(f"if (!_isValid{var.vartype}(_{var.name})) {{")
                 self.indent_level += 1
-                self.write_line(f"_{var.name} = {var.vartype}._Unknown as {self.type_mapping[e.encoding]};")
+                self.write_line(f"_{var.name} = {var.vartype}._Unknown;")
                 self.indent_level -= 1
                 self.write_line("}")
             self.write_line(f"{accessor}{var.name} = _{var.name};")
@@ -227,11 +227,34 @@ class TypeScriptWriter(Writer):
         for v, vi in edata.values.items():
             self.write_line(f"{v} = {vi},")
         if self.is_assembly_script:
-            self.write_line("_Unknown,")
+            # a number that no declared value has
+            unknown = max(edata.values.values()) + 1
+            if unknown > NUMERIC_TYPE_RANGES["int32"][1]:
+                unknown = next(n for n in range(unknown - 1, -1, -1) if n not in edata.values.values())
+            self.write_line(f"_Unknown = {unknown},")
         self.indent_level -= 1
         self.write_line("}")
         self.write_line()
 
+        if self.is_assembly_script:
+            self.write_line(f"function _isValid{ename}(value: i32): bool {{")
+            self.indent_level += 1
+            self.write_line("switch (value) {")
+            self.indent_level += 1
+            for vi in edata.values.values():
+                self.write_line(f"case {vi}:")
+            self.indent_level += 1
+            self.write_line("return true;")
+            self.indent_level -= 1
+            self.write_line("default:")
+            self.indent_level += 1
+            self.write_line("return false;")
+            self.indent_level -= 2
+            self.write_line("}")
+            self.indent_level -= 1
+            self.write_line("}")
+            self.write_line()
+
     def gen_struct(self, sname: str, sdata: Struct):
         if sdata.is_message:
             self.write_line(f"export class {sname} extends Message {{")
-- 
2.43.0


From e63238380a8a94262998cdc186814e52d8f32f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:53 +0000
Subject: [PATCH 42/52] fix: embedded protocol text cannot end the comment it
 is in

---
 beschi/writer.py             | 5 +++++
 beschi/writers/c.py          | 2 +-
 beschi/writers/csharp.py     | 2 +-
 beschi/writers/go.py         | 2 +-
 beschi/writers/rust.py       | 2 +-
 beschi/writers/swift.py      | 2 +-
 beschi/writers/typescript.py | 2 +-
 7 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/beschi/writer.py b/beschi/writer.py
index 990a59e..095e03b 100644
--- a/beschi/writer.py
+++ b/beschi/writer.py
@@ -91,6 +91,11 @@ class Writer:
     def indent_string(self, text: str) -> str:
         return (self.tab * self.indent_level) + text
 
+    # the lines of the protocol file, safe to put inside a block comment
+    def get_embedded_protocol(self) -> list[str]:
+        text = TextUtil.replace(self.protocol.protocol_string, [("*/", "* /"), ("/*", "/ *")])
+        return text.splitlines()
+
     def get_native_list_size(self) -> str:
         return self.type_mapping[self.protocol.list_size_type]
 
diff --git a/beschi/writers/c.py b/beschi/writers/c.py
index 5a09771..dcfb5c8 100644
--- a/beschi/writers/c.py
+++ b/beschi/writers/c.py
@@ -419,7 +419,7 @@ class CWriter(Writer):
             self.write_line("/*")
             self.write_line("DATA PROTOCOL")
             self.write_line("-----------------")
-            [self.write_line(f"{l}") for l in self.protocol.protocol_string.splitlines()]
+            [self.write_line(f"{l}") for l in self.get_embedded_protocol()]
             self.write_line("-----------------")
             self.write_line("END DATA PROTOCOL")
             self.write_line("*/")
diff --git a/beschi/writers/csharp.py b/beschi/writers/csharp.py
index 6ff7b38..cef8eac 100644
--- a/beschi/writers/csharp.py
+++ b/beschi/writers/csharp.py
@@ -263,7 +263,7 @@ class CSharpWriter(Writer):
             self.write_line("/*")
             self.write_line("DATA PROTOCOL")
             self.write_line("-----------------")
-            [self.write_line(f"{l}") for l in self.protocol.protocol_string.splitlines()]
+            [self.write_line(f"{l}") for l in self.get_embedded_protocol()]
             self.write_line("-----------------")
             self.write_line("END DATA PROTOCOL")
             self.write_line("*/")
diff --git a/beschi/writers/go.py b/beschi/writers/go.py
index 8fd4cb4..6ed8315 100644
--- a/beschi/writers/go.py
+++ b/beschi/writers/go.py
@@ -312,7 +312,7 @@ class GoWriter(Writer):
             self.write_line("/*")
             self.write_line("DATA PROTOCOL")
             self.write_line("-----------------")
-            [self.write_line(f"{l}") for l in self.protocol.protocol_string.splitlines()]
+            [self.write_line(f"{l}") for l in self.get_embedded_protocol()]
             self.write_line("-----------------")
             self.write_line("END DATA PROTOCOL")
             self.write_line("*/")
diff --git a/beschi/writers/rust.py b/beschi/writers/rust.py
index 6f45959..a38be99 100644
--- a/beschi/writers/rust.py
+++ b/beschi/writers/rust.py
@@ -263,7 +263,7 @@ class RustWriter(Writer):
             self.write_line("/*")
             self.write_line("DATA PROTOCOL")
             self.write_line("-----------------")
-            [self.write_line(f"{l}") for l in self.protocol.protocol_string.splitlines()]
+            [self.write_line(f"{l}") for l in self.get_embedded_protocol()]
             self.write_line("-----------------")
             self.write_line("END DATA PROTOCOL")
             self.write_line("*/")
diff --git a/beschi/writers/swift.py b/beschi/writers/swift.py
index 5860b31..5057c7a 100644
--- a/beschi/writers/swift.py
+++ b/beschi/writers/swift.py
@@ -244,7 +244,7 @@ class SwiftWriter(Writer):
             self.write_line("/*")
             self.write_line("DATA PROTOCOL")
             self.write_line("-----------------")
-            [self.write_line(f"{l}") for l in self.protocol.protocol_string.splitlines()]
+            [self.write_line(f"{l}") for l in self.get_embedded_protocol()]
             self.write_line("-----------------")
             self.write_line("END DATA PROTOCOL")
             self.write_line("*/")
diff --git a/beschi/writers/typescript.py b/beschi/writers/typescript.py
index 3fcdc20..6d775d7 100644
--- a/beschi/writers/typescript.py
+++ b/beschi/writers/typescript.py
@@ -424,7 +424,7 @@ class TypeScriptWriter(Writer):
             self.write_line("/*")
             self.write_line("DATA PROTOCOL")
             self.write_line("-----------------")
-            [self.write_line(f"{l}") for l in self.protocol.protocol_string.splitlines()]
+            [self.write_line(f"{l}") for l in self.get_embedded_protocol()]
             self.write_line("-----------------")
             self.write_line("END DATA PROTOCOL")
             self.write_line("*/")
-- 
2.43.0


From 0e1bf799a211de8de8c76e7f39f352246ce5d472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:53 +0000
Subject: [PATCH 43/52] fix: TypeScript does not open a namespace called None

---
 beschi/writers/typescript.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beschi/writers/typescript.py b/beschi/writers/typescript.py
index 6d775d7..01c7bc4 100644
--- a/beschi/writers/typescript.py
+++ b/beschi/writers/typescript.py
@@ -22,7 +22,7 @@ class TypeScriptWriter(Writer):
 
         self.embed_protocol = extra_args["embed_protocol"]
 
-        self.use_namespace = extra_args["typescript_use_namespace"]
+        self.use_namespace = extra_args["typescript_use_namespace"] and p.namespace != None
 
         for var_type in NUMERIC_TYPE_SIZES:
             if var_type == "bool":
-- 
2.43.0


From 910795f9af0c9d91490b5eaa5ef89cc87865618d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:53 +0000
Subject: [PATCH 44/52] fix: generated files are UTF-8 whatever the locale

---
 beschi/cli.py    | 2 +-
 beschi/writer.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/beschi/cli.py b/beschi/cli.py
index 092cfec..823d9cb 100644
--- a/beschi/cli.py
+++ b/beschi/cli.py
@@ -94,5 +94,5 @@ def main():
     else:
         # if there's any problem with creating/writing to this file, just let
         #    the regular exceptions bubble out
-        with open(args.output, "w") as output_file:
+        with open(args.output, "w", encoding="utf-8") as output_file:
             output_file.write(output)
diff --git a/beschi/writer.py b/beschi/writer.py
index 095e03b..a3103ab 100644
--- a/beschi/writer.py
+++ b/beschi/writer.py
@@ -57,7 +57,7 @@ class Writer:
         filename = f"{self.language_name}{index_str}{self.default_extension}"
         boilerplate_path = os.path.join(os.path.abspath(os.path.dirname(__file__)), "writers", "boilerplate", filename)
         if os.path.exists(boilerplate_path):
-            boilerplate_lines = open(boilerplate_path, "r").read().splitlines()
+            boilerplate_lines = open(boilerplate_path, "r", encoding="utf-8").read().splitlines()
             for s in substitutions:
                 if type(s[1]) == str:
                     boilerplate_lines = [bpl.replace(s[0], s[1]) for bpl in boilerplate_lines]
-- 
2.43.0


From def49f20a0673b9ac875bc8586911d350c9c2589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:53 +0000
Subject: [PATCH 45/52] fix: --namespace follows the rule for namespaces in a
 protocol

---
 beschi/cli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/beschi/cli.py b/beschi/cli.py
index 823d9cb..4de0405 100644
--- a/beschi/cli.py
+++ b/beschi/cli.py
@@ -62,6 +62,9 @@ def main():
         sys.exit(1)
 
     if args.namespace and len(args.namespace) > 0:
+        if True in [c.isspace() for c in args.namespace]:
+            sys.stderr.write(f"ERROR: Namespace cannot contain whitespace: '{args.namespace}'\n")
+            sys.exit(1)
         protocol.namespace = args.namespace
 
     if args.lang not in writers and args.lang not in exp_writers:
-- 
2.43.0


From af036ca64d065060939c581f72366ff07bd4538b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:59 +0000
Subject: [PATCH 46/52] fix: Go reads strings and lists without trusting their
 length

A negative length, or one that no slice can have, made the reader panic;
a large one made it claim memory for data that is not there.
---
 beschi/writers/boilerplate/Go.go | 12 ++++++++----
 beschi/writers/go.py             | 10 +++++++++-
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/beschi/writers/boilerplate/Go.go b/beschi/writers/boilerplate/Go.go
index c0893c7..a7a19c9 100644
--- a/beschi/writers/boilerplate/Go.go
+++ b/beschi/writers/boilerplate/Go.go
@@ -7,14 +7,18 @@ import (
 )
 
 func readString(data io.Reader, str *string) error {
-	var len {# STRING_SIZE_TYPE #}
-	if err := binary.Read(data, binary.LittleEndian, &len); err != nil {
+	var strLen {# STRING_SIZE_TYPE #}
+	if err := binary.Read(data, binary.LittleEndian, &strLen); err != nil {
 		return err
 	}
-	sbytes := make([]byte, len)
-	if err := binary.Read(data, binary.LittleEndian, &sbytes); err != nil {
+	// takes only what is there, whatever the length claims
+	sbytes, err := io.ReadAll(io.LimitReader(data, int64(strLen)))
+	if err != nil {
 		return err
 	}
+	if uint64(len(sbytes)) != uint64(strLen) {
+		return io.ErrUnexpectedEOF
+	}
 	*str = string(sbytes)
 	return nil
 }
diff --git a/beschi/writers/go.py b/beschi/writers/go.py
index 6ed8315..accd2fe 100644
--- a/beschi/writers/go.py
+++ b/beschi/writers/go.py
@@ -64,10 +64,18 @@ class GoWriter(Writer):
             self.write_line(f"return {'' if by_ref else 'nil, '}fmt.Errorf(\"could not read {var.name}_Len at offset %d (%w)\", getDataOffset(data), err)")
             self.indent_level -= 1
             self.write_line("}")
-            self.write_line(f"{accessor}.{var.name} = make([]{self.type_mapping[var.vartype]}, {var.name}_Len)")
+            if self.protocol.list_size_type.startswith("int"):
+                self.write_line(f"if {var.name}_Len < 0 {{")
+                self.indent_level += 1
+                self.write_line(f"return {'' if by_ref else 'nil, '}fmt.Errorf(\"negative length for {accessor}.{var.name}\")")
+                self.indent_level -= 1
+                self.write_line("}")
+            # grows with the data, so a bogus length cannot claim more memory than there are elements
+            self.write_line(f"{accessor}.{var.name} = make([]{self.type_mapping[var.vartype]}, 0)")
             idx = self.indent_level
             self.write_line(f"for i{idx} := ({self.get_native_list_size()})(0); i{idx} < {var.name}_Len; i{idx}++ {{")
             self.indent_level += 1
+            self.write_line(f"{accessor}.{var.name} = append({accessor}.{var.name}, *new({self.type_mapping[var.vartype]}))")
             if var.vartype in self.protocol.enums:
                 self.write_line(f"var _{var.name} {var.vartype}")
                 self.write_line(f"if err {':' if declare_err else ''}= binary.Read(data, binary.LittleEndian, &_{var.name}); err != nil {{")
-- 
2.43.0


From 0547ed368af32f38966307de89f512e1a0649933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:59 +0000
Subject: [PATCH 47/52] fix: Zig checks a list's length before it allocates the
 list

---
 beschi/writers/boilerplate/Zig.zig | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/beschi/writers/boilerplate/Zig.zig b/beschi/writers/boilerplate/Zig.zig
index b25b9ad..b204cb8 100644
--- a/beschi/writers/boilerplate/Zig.zig
+++ b/beschi/writers/boilerplate/Zig.zig
@@ -118,6 +118,12 @@ pub fn readList(comptime T: type, allocator: std.mem.Allocator, offset: usize, b
     const len_read = try readNumber({# LIST_SIZE_TYPE #}, local_offset, buffer);
     const len = std.math.cast(usize, len_read.value) orelse return DataReaderError.InvalidData;
     local_offset += len_read.bytes_read;
+
+    // every element that holds anything takes at least one byte
+    if (@sizeOf(T) > 0 and len > buffer.len - local_offset) {
+        return DataReaderError.EOF;
+    }
+
     var list = try allocator.alloc(T, len);
     var made_count: usize = 0;
 
-- 
2.43.0


From ab81e3430fdd3895fd34fd0fbe9c9c65adf9eb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:14 +0000
Subject: [PATCH 48/52] fix: Rust refuses negative list lengths

---
 beschi/writers/rust.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/beschi/writers/rust.py b/beschi/writers/rust.py
index a38be99..d0fc8fa 100644
--- a/beschi/writers/rust.py
+++ b/beschi/writers/rust.py
@@ -46,6 +46,12 @@ class RustWriter(Writer):
     def deserializer(self, var: Variable, accessor: str):
         if var.is_list:
             self.write_line(f"let _{var.name}_len = reader.read_{self.get_native_list_size()}()?;")
+            if self.protocol.list_size_type.startswith("int"):
+                self.write_line(f"if _{var.name}_len < 0 {{")
+                self.indent_level += 1
+                self.write_line(f"return Err({self.prefix}Error::InvalidData);")
+                self.indent_level -= 1
+                self.write_line("}")
             if var.vartype in self.type_mapping:
                 self.write_line(f"let mut {var.name}: Vec<{self.type_mapping[var.vartype]}> = Vec::new();")
             else:
-- 
2.43.0


From a727457b74dc1c092f922f04c55e40ec2c9efc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:14 +0000
Subject: [PATCH 49/52] fix: C# refuses negative list lengths

---
 beschi/writers/csharp.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/beschi/writers/csharp.py b/beschi/writers/csharp.py
index cef8eac..a78f06a 100644
--- a/beschi/writers/csharp.py
+++ b/beschi/writers/csharp.py
@@ -42,6 +42,13 @@ class CSharpWriter(Writer):
         var_clean = TextUtil.replace(var.name, [("[", "_"), ("]", "_"), (" ", "_")])
         if var.is_list:
             self.write_line(f"{self.get_native_list_size()} {var_clean}_Length = br.{self.base_deserializers[self.protocol.list_size_type]}();")
+            if self.protocol.list_size_type.startswith("int"):
+                self.write_line(f"if ({var_clean}_Length < 0)")
+                self.write_line("{")
+                self.indent_level += 1
+                self.write_line(f"throw new DataReadErrorException(\"negative length for {accessor}{var.name}\");")
+                self.indent_level -= 1
+                self.write_line("}")
             self.write_line(f"{accessor}{var.name} = new List<{self.type_mapping[var.vartype]}>();")
             idx = self.indent_level
             self.write_line(f"for ({self.get_native_list_size()} i{idx} = 0; i{idx} < {var_clean}_Length; i{idx}++)")
-- 
2.43.0


From 4d660daae9a7cde36fdad066d624bf54e59962b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:14 +0000
Subject: [PATCH 50/52] fix: Swift refuses lengths that are negative or too
 large instead of trapping

---
 beschi/writers/boilerplate/Swift.0.swift | 8 ++++++--
 beschi/writers/swift.py                  | 6 ++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/boilerplate/Swift.0.swift b/beschi/writers/boilerplate/Swift.0.swift
index f4a940f..5133100 100644
--- a/beschi/writers/boilerplate/Swift.0.swift
+++ b/beschi/writers/boilerplate/Swift.0.swift
@@ -136,8 +136,12 @@ class DataReader {
     }
 
     func GetString() throws -> String {
-        let stringLength = try Int(self.Get{# STRING_SIZE_TYPE #}())
-        if (self.data.count < self.currentOffset + stringLength) {
+        guard
+            let stringLength = try Int(exactly: self.Get{# STRING_SIZE_TYPE #}()), stringLength >= 0
+        else {
+            throw DataReaderError.InvalidData
+        }
+        if (self.data.count - self.currentOffset < stringLength) {
             throw DataReaderError.EOF
         }
         let stringStart = self.data.startIndex + self.currentOffset
diff --git a/beschi/writers/swift.py b/beschi/writers/swift.py
index 5057c7a..fb95545 100644
--- a/beschi/writers/swift.py
+++ b/beschi/writers/swift.py
@@ -43,6 +43,12 @@ class SwiftWriter(Writer):
     def deserializer(self, var: Variable, accessor: str):
         if var.is_list:
             self.write_line(f"let {var.name}_Length = try dataReader.Get{self.get_native_list_size()}()")
+            if self.protocol.list_size_type.startswith("int"):
+                self.write_line(f"guard {var.name}_Length >= 0 else {{")
+                self.indent_level += 1
+                self.write_line("throw DataReaderError.InvalidData")
+                self.indent_level -= 1
+                self.write_line("}")
             self.write_line(f"{accessor}{var.name} = []")
             self.write_line(f"for _ in 0..<{var.name}_Length {{")
             self.indent_level += 1
-- 
2.43.0


From 0c7bddef9b386ba82a8b2a35cae97c37e901bd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:43 +0000
Subject: [PATCH 51/52] fix: AssemblyScript lists grow with the data and refuse
 negative lengths

---
 beschi/writers/typescript.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/beschi/writers/typescript.py b/beschi/writers/typescript.py
index 01c7bc4..fb034ff 100644
--- a/beschi/writers/typescript.py
+++ b/beschi/writers/typescript.py
@@ -62,8 +62,13 @@ class TypeScriptWriter(Writer):
             else:
                 idx_type = self.type_mapping[self.protocol.list_size_type]
                 self.write_line(f"const {var_clean}_Length = da.get{self.base_serializers[self.protocol.list_size_type]}();")
-                self.write_line("if (da.hasError) { return null; }")
-            self.write_line(f"{accessor}{var.name} = new Array<{self.type_mapping[var.vartype]}>({var_clean}_Length);")
+                if self.protocol.list_size_type.startswith("int"):
+                    self.write_line(f"if (da.hasError || {var_clean}_Length < 0) {{ return null; }}")
+                else:
+                    self.write_line("if (da.hasError) { return null; }")
+            # AssemblyScript claims the memory at once and cannot recover when there is too little,
+            # so there the array grows with the data
+            self.write_line(f"{accessor}{var.name} = new Array<{self.type_mapping[var.vartype]}>({'' if self.is_assembly_script else f'{var_clean}_Length'});")
             idx = self.indent_level
             self.write_line(f"for (let i{idx}: {idx_type} = 0; i{idx} < {var_clean}_Length; i{idx}++) {{")
             self.indent_level += 1
-- 
2.43.0


From 9e70706d7edf45377a647a0d3eeb626f1a7e7f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:54 +0000
Subject: [PATCH 52/52] fix: C# reports string lengths that cannot be read as
 DataReadErrorException

---
 beschi/writers/csharp.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/beschi/writers/csharp.py b/beschi/writers/csharp.py
index a78f06a..d8571fb 100644
--- a/beschi/writers/csharp.py
+++ b/beschi/writers/csharp.py
@@ -72,6 +72,24 @@ class CSharpWriter(Writer):
             self.write_line("}")
         elif var.vartype == "string":
             self.write_line(f"{self.get_native_string_size()} {var_clean}_Length = br.{self.base_deserializers[self.protocol.string_size_type]}();")
+            size_type = self.protocol.string_size_type
+            if size_type.startswith("int"):
+                self.write_line(f"if ({var_clean}_Length < 0)")
+                self.write_line("{")
+                self.indent_level += 1
+                self.write_line(f"throw new DataReadErrorException(\"negative length for {accessor}{var.name}\");")
+                self.indent_level -= 1
+                self.write_line("}")
+            if size_type in ["uint32", "int32", "uint64", "int64"]:
+                too_long = f"br.BaseStream.CanSeek && (long){var_clean}_Length > br.BaseStream.Length - br.BaseStream.Position"
+                if size_type != "int32":
+                    too_long = f"{var_clean}_Length > int.MaxValue || ({too_long})"
+                self.write_line(f"if ({too_long})")
+                self.write_line("{")
+                self.indent_level += 1
+                self.write_line("throw new System.IO.EndOfStreamException();")
+                self.indent_level -= 1
+                self.write_line("}")
             self.write_line(f"byte[] {var_clean}_Buffer = br.ReadBytes((int){var_clean}_Length);")
             self.write_line(f"if ({var_clean}_Buffer.Length != (long){var_clean}_Length)")
             self.write_line("{")
-- 
2.43.0

