From 0dd43a28d8abdc5a7306c620b6960b487bbccd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:30 +0000
Subject: [PATCH 01/40] fix: iterator: forget the last dependency once it is
 dequeued

create_and_append_dep asserted (or would have linked after a freed entry)
when a task added more dependencies after having taken all previous results.
---
 src/iterator.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iterator.c b/src/iterator.c
index 4d4738a..eca2584 100644
--- a/src/iterator.c
+++ b/src/iterator.c
@@ -284,6 +284,9 @@ void * metac_recursive_iterator_dequeue_and_delete_dep(metac_recursive_iterator_
     recursive_iterator_entry_t * p_entry = LIST_FIRST(&p_iterator->p_current->deps);
     assert(metac_r_iter_state_is_end(p_entry->state));
     LIST_REMOVE(p_entry, links);
+    if (p_iterator->p_current->last_dep == p_entry) {
+        p_iterator->p_current->last_dep = NULL;
+    }
 
     void * p_out = metac_recursive_iterator_entry_get_out(p_entry, pp_in, p_fail);
     metac_recursive_iterator_entry_free(p_entry);
-- 
2.43.0


From ef130929bce1009de73568a854f1c93bac7008ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:30 +0000
Subject: [PATCH 02/40] fix: hashmap: put NULL to *p_res when the allocation
 fails, as documented

---
 src/hashmap.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hashmap.c b/src/hashmap.c
index 8a73998..4d43085 100644
--- a/src/hashmap.c
+++ b/src/hashmap.c
@@ -197,6 +197,9 @@ int hashmapPut(Hashmap* map, void* key, void* value, void ** p_res) {
         if (current == NULL) {
             *p = createEntry(key, hash, value);
             if (*p == NULL) {
+                if (p_res != NULL) {
+                    *p_res = NULL;
+                }
                 return -(ENOMEM);
             }
             map->size++;
-- 
2.43.0


From 8f4a303704904daccb1c1e41b6f370dd01002b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:16 +0000
Subject: [PATCH 03/40] fix: metadb: deduplicate types in a stable order and
 keep children of duplicates referencable

The index map was walked in random order and children of duplicated types were
marked as duplicates without being mapped to the remaining copy. References to
them from other places were lost and the generated code didn't compile.
---
 pkg/metadb/metadb_builder.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/pkg/metadb/metadb_builder.go b/pkg/metadb/metadb_builder.go
index fc292d7..616b3e4 100644
--- a/pkg/metadb/metadb_builder.go
+++ b/pkg/metadb/metadb_builder.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"log"
 	"path/filepath"
+	"sort"
 
 	"github.com/aodinokov/metac/pkg/dwarfy"
 	"github.com/huandu/xstrings"
@@ -826,22 +827,19 @@ func (builder *MetaDbBuilder) build() error {
 func (builder *MetaDbBuilder) deduplicateTypes() error {
 	headerSignatures := map[string]*IndexEntry{}
 	signatures := map[string]map[string]*IndexEntry{}
-	// go via all indexes, find only types
-	for _, indx := range builder.index {
+	// go via all indexes in the stable order, find only types
+	offsets := make([]dwarfy.Offset, 0, len(builder.index))
+	for offset := range builder.index {
+		offsets = append(offsets, offset)
+	}
+	sort.Slice(offsets, func(i, j int) bool { return offsets[i] < offsets[j] })
+	for _, offset := range offsets {
+		indx := builder.index[offset]
 		if indx.p == nil {
 			continue
 		}
 		if isTypeTag(indx.Tag) {
-			// skip children of duplicated entries
-			pIndx, _, err := builder.getIndex(*indx.Entry.Parent)
-			if err != nil {
-				return err
-			}
-			if pIndx.isDuplicate {
-				indx.isDuplicate = true
-				continue
-			}
-
+			// children of duplicated entries go the same way: they can be referenced from elsewhere
 			hs, err := indx.p.Signature(false)
 			if err != nil {
 				return err
-- 
2.43.0


From adda6973109df7830b5b62e1b96ab754d9f33102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:16 +0000
Subject: [PATCH 04/40] fix: reflect-gen: define the db the way
 include/metac/reflect/db.h declares it

METAC_DB_LINK() declares a pointer, the template defined the structure itself:
METAC_DB_LINK_PTR() read the first word of it (the version) as an address.
---
 modules/metac-reflect-gen/templates/_db_v0.tpl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/metac-reflect-gen/templates/_db_v0.tpl b/modules/metac-reflect-gen/templates/_db_v0.tpl
index c97c6a1..2beea67 100644
--- a/modules/metac-reflect-gen/templates/_db_v0.tpl
+++ b/modules/metac-reflect-gen/templates/_db_v0.tpl
@@ -11,7 +11,8 @@
 {{-       end -}}
 {{-     end }}
 /* db */
-struct metac_db METAC_DB_NAME() = {
+struct metac_db *METAC_DB_NAME() = (struct metac_db[]) {
+{
     .version = 0,
     .db_v0 = {
 {{-   indent 8 (include "metac_reflect_gen.name_to_entries" (dict "base_types" $metaDb.BaseTypes)) -}}
@@ -25,6 +26,7 @@ struct metac_db METAC_DB_NAME() = {
 {{-   indent 8 (include "metac_reflect_gen.name_to_entries" (dict "subprograms" $metaDb.Subprograms)) -}}
 {{-   indent 8 (include "metac_reflect_gen.name_to_entries" (dict "compile_units" $metaDb.CompileUnits)) }}
     },
+},
 };
 {{-   end -}}
 {{- end -}}
-- 
2.43.0


From df27c7adb1e79df897197a97c393315a3ba9cad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:16 +0000
Subject: [PATCH 05/40] fix: cdecl: qualified pointers, pointers to arrays and
 functions returning pointers to functions or arrays

Qualifiers of a pointer which has several of them or is an array element went to
the pointed type; pointer to array was printed as array of pointers; parameters
were appended after the whole type of the result.
---
 src/entry_cdecl.c | 95 +++++++++++++++++++++++++++++------------------
 1 file changed, 59 insertions(+), 36 deletions(-)

diff --git a/src/entry_cdecl.c b/src/entry_cdecl.c
index 49547cc..5c8b7e3 100644
--- a/src/entry_cdecl.c
+++ b/src/entry_cdecl.c
@@ -9,6 +9,35 @@ dsprintf_render_with_buf(64)
 
 #include <assert.h>
 
+/** skip qualifiers */
+static metac_entry_t * _skip_quals(metac_entry_t * p) {
+    while (p != NULL && (
+            p->kind == METAC_KND_const_type ||
+            p->kind == METAC_KND_volatile_type ||
+            p->kind == METAC_KND_restrict_type ||
+            p->kind == METAC_KND_mutable_type ||
+            p->kind == METAC_KND_shared_type ||
+            p->kind == METAC_KND_packed_type)) {
+        p = p->qual_type_info.type;
+    }
+    return p;
+}
+
+/** the type is (an array of) a pointer: its qualifiers go right before the placeholder */
+static metac_flag_t _declarator_is_pointer(metac_entry_t * p) {
+    p = _skip_quals(p);
+    while (p != NULL && p->kind == METAC_KND_array_type) {
+        p = _skip_quals(p->array_type_info.type);
+    }
+    return p != NULL && p->kind == METAC_KND_pointer_type;
+}
+
+/** the type is an array: pointer to it needs parentheses */
+static metac_flag_t _declarator_is_array(metac_entry_t * p) {
+    p = _skip_quals(p);
+    return p != NULL && p->kind == METAC_KND_array_type;
+}
+
 /**
  * convert metac_entry to the C-declaration like string.
  * if entry is type the result will container a placeholder %s
@@ -184,7 +213,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             continue;
                         }
                         char * res = NULL;
-                        if (p->qual_type_info.type != NULL && p->qual_type_info.type->kind == METAC_KND_pointer_type) {
+                        if (_declarator_is_pointer(p->qual_type_info.type)) {
                             /* this is more universal way... maybe we will switch to that*/
                             /*printf("PTR: returned %s, qual_str %s\n", (type_pattern != NULL)?type_pattern:"void %%s", qual_str);*/
                             res = dsprintf((type_pattern != NULL)?type_pattern:"void %s",
@@ -226,7 +255,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             }
                         }
                         char * res = dsprintf((type_pattern != NULL)?type_pattern:"void %s",
-                            "* %s");
+                            _declarator_is_array(p->pointer_type_info.type)?"(* %s)":"* %s");
                         if (type_pattern != NULL) {
                             free(type_pattern);
                         }
@@ -437,29 +466,25 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             metac_recursive_iterator_fail(p_iter);
                             continue;
                         }
-                        // append type_pattern with (%s)
-                        char * subprogram_pattern = dsprintf("%s(%s)",
-                            (type_pattern != NULL)?type_pattern:"void %s",
-                            "%s");
-                        if (type_pattern != NULL) {
-                            free(type_pattern);
+                        // the name with its parameters takes the place of the declarator in the pattern of the returned type
+                        char * declarator = dsprintf("%s(%s)",
+                            p->name,
+                            (params!=NULL)?params:"");
+                        if (params != NULL) {
+                            free(params);
                         }
-                        if (subprogram_pattern == NULL) {
-                            if (params != NULL) {
-                                free(params);
+                        if (declarator == NULL) {
+                            if (type_pattern != NULL) {
+                                free(type_pattern);
                             }
                             metac_recursive_iterator_fail(p_iter);
                             continue;
                         }
-                        // put everything into pattern
-                        char * res = dsprintf(subprogram_pattern,
-                            p->name,
-                            (params!=NULL)?params:"");
-                        if (subprogram_pattern != NULL) {
-                            free(subprogram_pattern);
-                        }
-                        if (params != NULL) {
-                            free(params);
+                        char * res = dsprintf((type_pattern != NULL)?type_pattern:"void %s",
+                            declarator);
+                        free(declarator);
+                        if (type_pattern != NULL) {
+                            free(type_pattern);
                         }
                         if (res == NULL) {
                             metac_recursive_iterator_fail(p_iter);
@@ -547,27 +572,25 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             metac_recursive_iterator_fail(p_iter);
                             continue;
                         }
-                        // append type_pattern with (%s)
-                        char * subroutine_pattern = dsprintf("%s(%s)",
-                            (type_pattern != NULL)?type_pattern:"void %s",
-                            "%s");
-                        if (type_pattern != NULL) {
-                            free(type_pattern);
+                        // the placeholder with parameters takes the place of the declarator in the pattern of the returned type
+                        char * declarator = dsprintf("(%s)(%s)",
+                            "%s",
+                            (params!=NULL)?params:"");
+                        if (params != NULL) {
+                            free(params);
                         }
-                        if (subroutine_pattern == NULL) {
-                            if (params != NULL) {
-                                free(params);
+                        if (declarator == NULL) {
+                            if (type_pattern != NULL) {
+                                free(type_pattern);
                             }
                             metac_recursive_iterator_fail(p_iter);
                             continue;
                         }
-                        // now we can form final result
-                        char * res = dsprintf(subroutine_pattern,
-                            "(%s)",
-                            (params!=NULL)?params:"");
-                        free(subroutine_pattern);
-                        if (params != NULL) {
-                            free(params);
+                        char * res = dsprintf((type_pattern != NULL)?type_pattern:"void %s",
+                            declarator);
+                        free(declarator);
+                        if (type_pattern != NULL) {
+                            free(type_pattern);
                         }
                         if (res == NULL) {
                             metac_recursive_iterator_fail(p_iter);
-- 
2.43.0


From 7a86fbe9f90a41928a9b20ea96f71ab2bea6f846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:01 +0000
Subject: [PATCH 06/40] fix: value: bit-fields wider than 30 bits or crossing
 their storage unit, enumeration signedness and enumeration bit-fields

---
 src/value.c | 155 ++++++++++++++++++++++++++++++----------------------
 1 file changed, 91 insertions(+), 64 deletions(-)

diff --git a/src/value.c b/src/value.c
index 1d15d06..e1527d1 100644
--- a/src/value.c
+++ b/src/value.c
@@ -122,23 +122,29 @@ static int _entry_bitfield_read(metac_entry_t *p_memb_entry, void * base_addr, v
     metac_offset_t byte_offset;
     metac_offset_t bit_offset;
     metac_offset_t bit_size;
-    uint8_t buf[16];
 
     _check_(metac_entry_member_bitfield_offsets(p_memb_entry, &byte_offset, &bit_offset, &bit_size) != 0, -(EINVAL));
 
+    base_addr += byte_offset;
      /* TODO: Caution: this has been tested only with little-endian machines*/
     if (IS_LITTLE_ENDIAN) {
-        base_addr += byte_offset;
-        // read only number of bytes that we really need
-        // TODO: make it without extra copy if possible
-        // TODO: need to make it for both endians
+        // the field can occupy more bytes than var_size (e.g. if the structure is packed): go bit by bit
+        // and touch only those bytes that we really need
+        uint8_t * p_bytes = (uint8_t *)base_addr;
+        uint64_t data = 0;
         assert(bit_size != 0);
-        memcpy(buf, base_addr, (bit_offset + bit_size - 1)/8 + 1);
-        base_addr = buf;
-    } else {
-        base_addr += byte_offset;
-        bit_offset = 8 * var_size - (bit_offset + bit_size);
+        _check_(var_size > sizeof(data) || bit_size > 8 * var_size, -(EINVAL));
+        for (metac_offset_t i = 0; i < bit_size; ++i) {
+            uint64_t bit = (p_bytes[(bit_offset + i) / 8] >> ((bit_offset + i) % 8)) & 1;
+            data |= bit << i;
+        }
+        if (correct_sign && bit_size < 8 * sizeof(data) && ((data >> (bit_size - 1)) & 1) != 0) {
+            data |= (~(uint64_t)0) << bit_size;
+        }
+        memcpy(p_var, &data, var_size);
+        return 0;
     }
+    bit_offset = 8 * var_size - (bit_offset + bit_size);
 
 #define _read_(_type_) \
     do{ \
@@ -176,25 +182,29 @@ static int _entry_bitfield_write(metac_entry_t *p_memb_entry, void * base_addr,
     metac_offset_t byte_offset;
     metac_offset_t bit_offset;
     metac_offset_t bit_size;
-    void * base_addr_orig = NULL;
-    uint8_t buf[16];
 
     _check_(metac_entry_member_bitfield_offsets(p_memb_entry, &byte_offset, &bit_offset, &bit_size) != 0, -(EINVAL));
 
+    base_addr += byte_offset;
      /* TODO: Caution: this has been tested only with little-endian machines*/
     if (IS_LITTLE_ENDIAN) {
-        base_addr += byte_offset;
-        // write only number of bytes that we really need
-        // TODO: make it without extra copy if possible
-        // TODO: need to make it for both endians
+        // the same as for read - touch only bits that belong to the field
+        uint8_t * p_bytes = (uint8_t *)base_addr;
+        uint64_t data = 0;
         assert(bit_size != 0);
-        base_addr_orig = base_addr;
-        memcpy(buf, base_addr, (bit_offset + bit_size - 1)/8 + 1);
-        base_addr = buf;
-    } else {
-        base_addr += byte_offset;
-        bit_offset = 8 * var_size - (bit_offset + bit_size);
+        _check_(var_size > sizeof(data) || bit_size > 8 * var_size, -(EINVAL));
+        memcpy(&data, p_var, var_size);
+        for (metac_offset_t i = 0; i < bit_size; ++i) {
+            uint8_t mask = 1 << ((bit_offset + i) % 8);
+            if (((data >> i) & 1) != 0) {
+                p_bytes[(bit_offset + i) / 8] |= mask;
+            } else {
+                p_bytes[(bit_offset + i) / 8] &= ~mask;
+            }
+        }
+        return 0;
     }
+    bit_offset = 8 * var_size - (bit_offset + bit_size);
 
 #define _write_(_type_) \
     do { \
@@ -217,11 +227,6 @@ static int _entry_bitfield_write(metac_entry_t *p_memb_entry, void * base_addr,
     }
 #undef _write_
 
-    if (IS_LITTLE_ENDIAN) {
-        // write back only needed data
-        memcpy(base_addr_orig, buf, (bit_offset + bit_size-1)/8 +1);
-    }
-
     return 0;
 }
 
@@ -472,6 +477,21 @@ struct metac_type_enumerator_info const * metac_value_enumeration_info(metac_val
     return metac_entry_enumeration_info(p_final_entry, id);
 }
 
+/* compilers use a signed type for enumeration only if it has negative values */
+static metac_flag_t _enumeration_is_signed(metac_entry_t * p_final_entry) {
+    for (metac_num_t i = 0; i < p_final_entry->enumeration_type_info.enumerators_count; ++i) {
+        if (p_final_entry->enumeration_type_info.enumerators[i].const_value < 0) {
+            return 1;
+        }
+    }
+    return 0;
+}
+
+static metac_flag_t _value_is_bitfield(metac_value_t *p_val) {
+    return metac_entry_kind(p_val->p_entry) == METAC_KND_member &&
+        p_val->p_entry->member_info.p_bit_size != NULL;
+}
+
 int metac_value_enumeration(metac_value_t * p_val, metac_const_value_t *p_var) {
     _check_(p_var == NULL, -(EINVAL));
 
@@ -484,26 +504,36 @@ int metac_value_enumeration(metac_value_t * p_val, metac_const_value_t *p_var) {
         return -(EFAULT);
     }
 
-    if (enum_byte_size == sizeof(char)) {
-        *p_var = *(char*)p_val->addr;
-        return 0;
-    }
-    if (enum_byte_size == sizeof(short)){
-        *p_var = *(short*)p_val->addr;
-        return 0;
-    }
-    if (enum_byte_size == sizeof(int)){
-        *p_var = *(int*)p_val->addr;
-        return 0;
-    }
-    if (enum_byte_size == sizeof(long)){
-        *p_var = *(long*)p_val->addr;
-        return 0;
+    metac_flag_t is_signed = _enumeration_is_signed(p_final_entry);
+    if (_value_is_bitfield(p_val)) {
+        uint64_t data = 0;
+        _check_(enum_byte_size > sizeof(data), -(ENOTSUP));
+        // because of DWARF 4 which introduced data_bit_offset we need to calc from the structure base addr;
+        int err = _entry_bitfield_read(p_val->p_entry, p_val->addr - p_val->p_entry->member_info.byte_offset, &data, sizeof(data), is_signed);
+        if (err == 0) {
+            *p_var = (metac_const_value_t)data;
+        }
+        return err;
     }
-    if (enum_byte_size == sizeof(long long)){
-        *p_var = *(long long*)p_val->addr;
-        return 0;
+
+#define _read_(_signed_type_, _unsigned_type_) \
+    if (enum_byte_size == sizeof(_signed_type_)) { \
+        if (is_signed != 0) { \
+            _signed_type_ data; \
+            memcpy(&data, p_val->addr, sizeof(data)); \
+            *p_var = data; \
+        } else { \
+            _unsigned_type_ data; \
+            memcpy(&data, p_val->addr, sizeof(data)); \
+            *p_var = data; \
+        } \
+        return 0; \
     }
+    _read_(int8_t, uint8_t)
+    _read_(int16_t, uint16_t)
+    _read_(int32_t, uint32_t)
+    _read_(int64_t, uint64_t)
+#undef _read_
     return -(ENOTSUP);
 }
 
@@ -522,26 +552,23 @@ int metac_value_set_enumeration(metac_value_t * p_val, metac_const_value_t var)
         return -(EFAULT);
     }
 
-    if (enum_byte_size == sizeof(char)) {
-        *(char*)p_val->addr = (char)var;
-        return 0;
-    }
-    if (enum_byte_size == sizeof(short)){
-        *(short*)p_val->addr = (short)var;
-        return 0;
-    }
-    if (enum_byte_size == sizeof(int)){
-        *(int*)p_val->addr = (int)var;
-        return 0;
-    }
-    if (enum_byte_size == sizeof(long)){
-        *(long*)p_val->addr = (long)var;
-        return 0;
-    }
-    if (enum_byte_size == sizeof(long long)){
-        *(long long*)p_val->addr = (long long)var;
-        return 0;
+    if (_value_is_bitfield(p_val)) {
+        uint64_t data = (uint64_t)var;
+        _check_(enum_byte_size > sizeof(data), -(ENOTSUP));
+        return _entry_bitfield_write(p_val->p_entry, p_val->addr - p_val->p_entry->member_info.byte_offset, &data, sizeof(data));
     }
+
+#define _write_(_type_) \
+    if (enum_byte_size == sizeof(_type_)) { \
+        _type_ data = (_type_)var; \
+        memcpy(p_val->addr, &data, sizeof(data)); \
+        return 0; \
+    }
+    _write_(int8_t)
+    _write_(int16_t)
+    _write_(int32_t)
+    _write_(int64_t)
+#undef _write_
     return -(ENOTSUP);
 }
 
-- 
2.43.0


From 3b219a1ec09dbd1911d3832854a545fae3f9783a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:01 +0000
Subject: [PATCH 07/40] fix: entry: recognize pointers to qualified or
 typedefed void and declarations

---
 src/entry.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/entry.c b/src/entry.c
index 362a2cb..6eb875b 100644
--- a/src/entry.c
+++ b/src/entry.c
@@ -298,14 +298,17 @@ metac_flag_t metac_entry_is_pointer(metac_entry_t *p_entry) {
 metac_flag_t metac_entry_is_void_pointer(metac_entry_t *p_entry) {
     _check_(p_entry == NULL, 0);
     metac_entry_t * p_final_entry = _entry_with_pointer_info(p_entry);
-    return p_final_entry != NULL && p_final_entry->pointer_type_info.type == NULL;
+    // the pointed type can be qualified or typedefed void
+    return p_final_entry != NULL && metac_entry_final_entry(p_final_entry->pointer_type_info.type, NULL) == NULL;
 }
 
 metac_flag_t metac_entry_is_declaration_pointer(metac_entry_t *p_entry) {
     _check_(p_entry == NULL, 0);
     metac_entry_t * p_final_entry = _entry_with_pointer_info(p_entry);
-    if (p_final_entry != NULL && p_final_entry->pointer_type_info.type != NULL) {
-        return p_final_entry->pointer_type_info.type->declaration != 0;
+    if (p_final_entry != NULL) {
+        // the pointed type can be qualified or typedefed declaration
+        metac_entry_t * p_target_entry = metac_entry_final_entry(p_final_entry->pointer_type_info.type, NULL);
+        return p_target_entry != NULL && p_target_entry->declaration != 0;
     }
     return 0;
 }
-- 
2.43.0


From b993d01aaaf159655893f5adbf70649451028c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:01 +0000
Subject: [PATCH 08/40] fix: value: support signed char (int8_t) when
 comparing, copying and printing

---
 src/value_base_type.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/value_base_type.c b/src/value_base_type.c
index 7ece656..45a88e7 100644
--- a/src/value_base_type.c
+++ b/src/value_base_type.c
@@ -221,6 +221,17 @@ int metac_value_set_ldouble_complex(metac_value_t * p_val, long double complex v
     return metac_value_set_base_type(p_val, "long complex double", METAC_ENC_complex_float, &var, sizeof(long double complex));
 }
 
+/* signed char (e.g. int8_t) is a separate type in C. it doesn't have public helpers yet, but it has to be printed, copied and compared as others */
+static metac_flag_t metac_value_is_schar(metac_value_t * p_val) {
+    return metac_entry_check_base_type(metac_value_entry(p_val), "signed char", METAC_ENC_signed_char, sizeof(signed char)) == 0;
+}
+static int metac_value_schar(metac_value_t * p_val, signed char *p_var) {
+    return metac_value_base_type(p_val, "signed char", METAC_ENC_signed_char, (void*)p_var, sizeof(*p_var));
+}
+static int metac_value_set_schar(metac_value_t * p_val, signed char var) {
+    return metac_value_set_base_type(p_val, "signed char", METAC_ENC_signed_char, &var, sizeof(var));
+}
+
 int metac_value_num(metac_value_t * p_val, metac_num_t * p_var) {
     if (p_var == NULL) {
         return -(EINVAL);
@@ -237,6 +248,7 @@ int metac_value_num(metac_value_t * p_val, metac_num_t * p_var) {
     } while(0)
     _read_(bool, bool);
     _read_(char, char);
+    _read_(signed char, schar);
     _read_(unsigned char, uchar);
     _read_(short, short);
     _read_(unsigned short, ushort);
@@ -279,6 +291,7 @@ int metac_value_equal_base_type(metac_value_t *p_val1, metac_value_t *p_val2) {
         } \
     } while(0)
     _cmp_(char, char);
+    _cmp_(signed char, schar);
     _cmp_(unsigned char, uchar);
     _cmp_(short, short);
     _cmp_(unsigned short, ushort);
@@ -324,6 +337,7 @@ metac_value_t * metac_value_copy_base_type(metac_value_t *p_src_val, metac_value
     } while(0)
 
     _copy_(char, char);
+    _copy_(signed char, schar);
     _copy_(unsigned char, uchar);
     _copy_(short, short);
     _copy_(unsigned short, ushort);
@@ -366,6 +380,7 @@ char *metac_value_base_type_string(metac_value_t * p_val) {
             return dsprintf(_dprint_expr_); \
         } \
     } while(0)
+    _string_(signed char, schar, "%"PRIi8, v);
     _string_(unsigned char, uchar, "%"PRIu8, v);
     _string_(short, short, "%hi", v);
     _string_(unsigned short, ushort, "%hu", v);
-- 
2.43.0


From d71b50017a1e41a0f9c6d3db439a67799428f5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:57 +0000
Subject: [PATCH 09/40] fix: value: escape quote and backslash in printed
 character constants

---
 src/value_base_type.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/value_base_type.c b/src/value_base_type.c
index 45a88e7..57cb080 100644
--- a/src/value_base_type.c
+++ b/src/value_base_type.c
@@ -365,6 +365,9 @@ char *metac_value_base_type_string(metac_value_t * p_val) {
         if (metac_value_char(p_val, &v) != 0) {
             return NULL;
         }
+        if (v == '\'' || v == '\\') { /* must be escaped to stay a correct character constant */
+            return dsprintf("'\\%c'", v);
+        }
         if (isprint(v)) {
             return dsprintf("'%c'", v);
         }
-- 
2.43.0


From 0718d69fcf0a32650477e56e06089ef0a66a299a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:27 +0000
Subject: [PATCH 10/40] fix: value: memory map used its entries after deleting
 them when a part of the map failed

---
 src/value_deep.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index 1e44f49..80b2f53 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -322,6 +322,16 @@ static metac_value_memory_map_mode_t const _default_value_memory_map_mode = {
     .unknown_ptr_mode = METAC_UPTR_fail,
 };
 
+/* delete entry (with all its children) of the map which can't be built. the hashmap could refer to them,
+and it's not going to be used anymore, because failure of any part means failure of the whole map */
+static void _delete_entry_of_failed_map(struct metac_memory_map * p_map, struct metac_memory_entry * p_memory_entry) {
+    if (p_map->p_addr_ptr_val_to_memory_entry != NULL) {
+        hashmapFree(p_map->p_addr_ptr_val_to_memory_entry);
+        p_map->p_addr_ptr_val_to_memory_entry = NULL;
+    }
+    metac_memory_entry_delete(p_memory_entry);
+}
+
 struct metac_memory_map * metac_new_value_memory_map_ex(
     metac_value_t * p_val, 
     metac_value_memory_map_mode_t * p_map_mode,
@@ -336,12 +346,14 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
 
     struct metac_memory_map *p_map = calloc(1, sizeof(*p_map));
     if (p_map == NULL) {
+        metac_value_delete(p_val);
         return NULL;
     }
     if (p_map_mode->memory_block_mode == METAC_MMODE_dag) {
         p_map->p_addr_ptr_val_to_memory_entry = hashmapCreate(1024, addr_ptr_key_hash, addr_ptr_key_equals);
         if (p_map->p_addr_ptr_val_to_memory_entry == NULL) {
             free(p_map);
+            metac_value_delete(p_val);
             return NULL;
         }
     }
@@ -551,7 +563,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                                 metac_value_delete(p_memb_val);
                             }
                         }else {
-                            metac_memory_entry_delete(p_member_memory_entry);
+                            _delete_entry_of_failed_map(p_map, p_member_memory_entry);
                         }
                     }
 
@@ -561,7 +573,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                         if (p_memory_entry->p_val == p) {
                             p_memory_entry->p_val = NULL;
                         }
-                        metac_memory_entry_delete(p_memory_entry);
+                        _delete_entry_of_failed_map(p_map, p_memory_entry);
                     }
 
                     metac_recursive_iterator_fail(p_iter);
@@ -708,7 +720,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                             if (p_memory_entry->p_val == p) {
                                 p_memory_entry->p_val = NULL;
                             }
-                            metac_memory_entry_delete(p_memory_entry);
+                            _delete_entry_of_failed_map(p_map, p_memory_entry);
                         }
 
                         metac_recursive_iterator_fail(p_iter);
@@ -731,7 +743,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                                     if (p_memory_entry->p_val == p) {
                                         p_memory_entry->p_val = NULL;
                                     }
-                                    metac_memory_entry_delete(p_memory_entry);
+                                    _delete_entry_of_failed_map(p_map, p_memory_entry);
                                     metac_recursive_iterator_fail(p_iter);
                                     continue;
                                 }
@@ -742,7 +754,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                                 if (p_memory_entry->p_val == p) {
                                     p_memory_entry->p_val = NULL;
                                 }
-                                metac_memory_entry_delete(p_memory_entry);
+                                _delete_entry_of_failed_map(p_map, p_memory_entry);
                                 metac_recursive_iterator_fail(p_iter);
                                 continue;
                             }
@@ -831,7 +843,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                                 metac_value_delete(p_memb_val);
                             }
                         }else {
-                            metac_memory_entry_delete(p_member_memory_entry);
+                            _delete_entry_of_failed_map(p_map, p_member_memory_entry);
                         }
                     }
 
@@ -841,7 +853,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                         if (p_memory_entry->p_val == p) {
                             p_memory_entry->p_val = NULL;
                         }
-                        metac_memory_entry_delete(p_memory_entry);
+                        _delete_entry_of_failed_map(p_map, p_memory_entry);
                     }
 
                     metac_recursive_iterator_fail(p_iter);
-- 
2.43.0


From e14be24039986f1ef8e95aff589c24e74c806edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:48 +0000
Subject: [PATCH 11/40] fix: value: copy several pointers to the same place
 inside of a memory block

---
 src/value_deep.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index 80b2f53..f9f9835 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -1087,6 +1087,7 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                     if (p->children_count == 1) {
                         size_t nmemb;
                         void * src;
+                        struct metac_memory_entry * p_target_entry;
                         switch (p_mode->memory_block_mode) {
                             case METAC_MMODE_tree:
                                 nmemb = 1;
@@ -1109,14 +1110,17 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                                 src = metac_value_addr(p->pp_children[0]->p_val);
                                 assert(src != NULL); /* since children count >0 this must be true */
                                 assert(context.src_to_dst != NULL);
-                                if (p->pp_children[0]->offset_from_allocate_base != 0) {
-                                    void * allocate_src = src - p->pp_children[0]->offset_from_allocate_base;
+                                /* several pointers can point to the same address, only the entry which is kept in map has the offset */
+                                p_target_entry = hashmapGet(context.p_map->p_addr_ptr_val_to_memory_entry, src);
+                                assert(p_target_entry != NULL);
+                                if (p_target_entry->offset_from_allocate_base != 0) {
+                                    void * allocate_src = src - p_target_entry->offset_from_allocate_base;
                                     void * allocate_dst = hashmapGet(context.src_to_dst, allocate_src);
                                     if (allocate_dst == NULL) {
                                         metac_recursive_iterator_fail(p_iter);
                                         continue;
                                     }
-                                    p_dst_children_addr_override = allocate_dst + p->pp_children[0]->offset_from_allocate_base;
+                                    p_dst_children_addr_override = allocate_dst + p_target_entry->offset_from_allocate_base;
                                 } else {
                                     p_dst_children_addr_override = hashmapGet(context.src_to_dst, src);
                                     if (p_dst_children_addr_override == NULL) {
-- 
2.43.0


From 4d071090fe74c57c58d2accdd9f109718ac42383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:10 +0000
Subject: [PATCH 12/40] fix: value: copy NULL pointers in all modes of handling
 unknown pointers

---
 src/value_deep.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index f9f9835..33765dc 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -1161,13 +1161,13 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                             metac_recursive_iterator_fail(p_iter);
                             continue;
                         }
-                    } else if (p_mode->unknown_ptr_mode == METAC_UPTR_ignore){  /* set as NULL. */
-                        if (metac_value_set_pointer(p_dst_val, NULL)!=0) {
+                    } else if (p_mode->unknown_ptr_mode == METAC_UPTR_as_values) { /* treat as value, just copy as memory sizeof(void*) */
+                        if (metac_value_copy_pointer(p->p_val, p_dst_val)== NULL) {
                             metac_recursive_iterator_fail(p_iter);
                             continue;
                         }
-                    } else if (p_mode->unknown_ptr_mode == METAC_UPTR_as_values) { /* treat as value, just copy as memory sizeof(void*) */
-                        if (metac_value_copy_pointer(p->p_val, p_dst_val)== NULL) {
+                    } else {  /* NULL in the source or METAC_UPTR_ignore - set as NULL. */
+                        if (metac_value_set_pointer(p_dst_val, NULL)!=0) {
                             metac_recursive_iterator_fail(p_iter);
                             continue;
                         }
-- 
2.43.0


From d962d15a7833d5afe33c59793166118e02a727e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:10 +0000
Subject: [PATCH 13/40] fix: value: don't compare addresses of the pointers
 which create loops

---
 src/value_deep.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index 33765dc..eea1d56 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -1330,8 +1330,8 @@ int metac_value_equal_ex(metac_value_t * p_val1, metac_value_t * p_val2,
 
                 if (metac_value_is_pointer(p1->p_val) != 0 && metac_value_is_pointer(p2->p_val) != 0) {
                     if (p1->children_count == 0 && p2->children_count == 0) {
-                        if (p_mode->unknown_ptr_mode == METAC_UPTR_as_values) {
-                            /*treat pointer as value*/
+                        if (p_mode->unknown_ptr_mode == METAC_UPTR_as_values && p1->loop_level <= 0) {
+                            /*treat pointer as value (pointers of loops are equal if loop_levels are) */
                             int _cmp = metac_value_equal_pointer(p1->p_val, p2->p_val);
                             if (_cmp < 0) {
                                 metac_recursive_iterator_fail(p_iter);
-- 
2.43.0


From 250e60197e4c52344db87781e116b0c33d5cdd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:43 +0000
Subject: [PATCH 14/40] fix: value: free all blocks with free_fn when copying
 of a tree fails

---
 src/value_deep.c | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index eea1d56..7cedde4 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -966,7 +966,7 @@ static bool _value_copy_preallocate(void* key, void* value, void* context) {
             return false;
         }
         if (hashmapPut(p_context->src_to_dst, key, dst, NULL) != 0) {
-            free(dst);
+            p_context->free_fn(dst);
             p_context->preallocation_failed = 1;
             return false;
         }
@@ -1054,13 +1054,14 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
         return NULL;
     }
 
+    /* dag: allocated block for each source block. tree: all allocated blocks. used to free memory in case of failure */
+    context.src_to_dst = hashmapCreate(1024, addr_ptr_key_hash, addr_ptr_key_equals);
+    if (context.src_to_dst == NULL) {
+        metac_value_memory_map_delete(context.p_map);
+        return NULL;
+    }
     if (p_mode->memory_block_mode != METAC_MMODE_tree) {
         /* preparations are needed for that mode - we need to allocate memory for all allocatable blocks */
-        context.src_to_dst = hashmapCreate(1024, addr_ptr_key_hash, addr_ptr_key_equals);
-        if (context.src_to_dst == NULL) {
-            metac_value_memory_map_delete(context.p_map);
-            return NULL;   
-        }
         hashmapForEach(context.p_map->p_addr_ptr_val_to_memory_entry, _value_copy_preallocate, &context);
 
         if (context.preallocation_failed != 0) {
@@ -1103,6 +1104,11 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                                     metac_recursive_iterator_fail(p_iter);
                                     continue;
                                 }
+                                if (hashmapPut(context.src_to_dst, p_dst_children_addr_override, p_dst_children_addr_override, NULL) != 0) {
+                                    free_fn(p_dst_children_addr_override);
+                                    metac_recursive_iterator_fail(p_iter);
+                                    continue;
+                                }
                                 break;
                             case METAC_MMODE_dag:
                             default:
@@ -1242,13 +1248,6 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                         gfail = 1;
                     }
                     if (p_children != NULL && p_children->private_data != NULL) {
-                        if (fail != 0 && metac_value_is_pointer(p->p_val) && p_mode->memory_block_mode == METAC_MMODE_tree) {
-                            /*need to free memory in that case */
-                            assert(p->children_count == 1);
-                            void * p_dst_children_addr_override = metac_value_addr((metac_value_t*)p_children->private_data);
-                            assert(p_dst_children_addr_override != NULL);
-                            free (p_dst_children_addr_override);
-                        }
                         metac_value_delete((metac_value_t*)p_children->private_data);
                         p_children->private_data = NULL;
                     }
-- 
2.43.0


From 5af18b44d59d482320c5a24d8d3227cdf7e58235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:58 +0000
Subject: [PATCH 15/40] fix: value_string: print pointers to incomplete types
 as addresses

---
 src/value_string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/value_string.c b/src/value_string.c
index 2844c7c..2c3bcbb 100644
--- a/src/value_string.c
+++ b/src/value_string.c
@@ -215,8 +215,8 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                                     }
                                 }
                             }
-                            if (p_arr_val == NULL && metac_value_is_void_pointer(p)) {
-                                /* if p is void * we won't be able to do anything - there are no arrays of void. fallback to shallow */
+                            if (p_arr_val == NULL && (metac_value_is_void_pointer(p) != 0 || metac_value_is_declaration_pointer(p) != 0)) {
+                                /* if p is void * or points to incomplete type we won't be able to do anything - there are no arrays of such elements. fallback to shallow */
                                 char * out = metac_value_pointer_string(p);
                                 if (out == NULL) {
                                     metac_recursive_iterator_fail(p_iter);
-- 
2.43.0


From 50a35c1dd8f85a2b1ecb7e0969ef5d1a1ecb3d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:58 +0000
Subject: [PATCH 16/40] fix: entry_tag: continue with the next category when
 external tag map has no tag

---
 src/entry_tag.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/entry_tag.c b/src/entry_tag.c
index abe4eec..0e2b0f3 100644
--- a/src/entry_tag.c
+++ b/src/entry_tag.c
@@ -180,6 +180,7 @@ metac_entry_tag_t * metac_tag_map_tag(metac_tag_map_t * p_tag_map, metac_entry_t
             if (p_ext_res != NULL) {
                 return p_ext_res;
             }
+            continue;
         }
         if (p_tag_map->p_categories[i].p_map == NULL) {
             assert(0);
-- 
2.43.0


From 85491514a9c8e477b6df76f0c7e433f2870ed1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:42 +0000
Subject: [PATCH 17/40] fix: entry_tag: don't leak the tag string when the tag
 can't be stored

---
 src/entry_tag.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/entry_tag.c b/src/entry_tag.c
index 0e2b0f3..9792bbd 100644
--- a/src/entry_tag.c
+++ b/src/entry_tag.c
@@ -228,6 +228,7 @@ static int _tag_map_set_tag(metac_tag_map_t * p_tag_map,
     metac_entry_tag_t *p_prev_tag = NULL;
     
     if (hashmapPut(p_tag_map->p_categories[category].p_map, (void*)p_entry, (void*)p_local_tag, (void**)&p_prev_tag) != 0) {
+        free(p_local_tag->p_tagstring); /* context still belongs to the caller */
         free(p_local_tag);
         return -(EFAULT);
     }
-- 
2.43.0


From 8b558cb99ebc297a52863db685f627d388a052ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:33 +0000
Subject: [PATCH 18/40] fix: entry_tag: support flexible arrays in zero-ended
 string handler as documented

---
 src/entry_tag.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/entry_tag.c b/src/entry_tag.c
index 9792bbd..cfc4fa3 100644
--- a/src/entry_tag.c
+++ b/src/entry_tag.c
@@ -446,17 +446,22 @@ int metac_handle_zero_ended_string(metac_value_walker_hierarchy_t *p_hierarchy,
         metac_value_walker_hierarchy_level(p_hierarchy) >= 0) {
         
         metac_value_t *p_val = metac_value_walker_hierarchy_value(p_hierarchy, 0);
-        if (p_val == NULL || metac_value_is_pointer(p_val) == 0) {
+        if (p_val == NULL || (metac_value_is_pointer(p_val) == 0 && metac_value_has_elements(p_val) == 0)) {
             return -(EFAULT);
         }
-        metac_entry_t *p_target_entry = metac_entry_final_entry(metac_entry_pointer_entry(metac_value_entry(p_val)), NULL);
+        /* flexible array contains the string itself, pointer - its address */
+        metac_entry_t *p_target_entry = metac_entry_final_entry((metac_value_has_elements(p_val) != 0)?
+            metac_entry_element_entry(metac_value_entry(p_val)):
+            metac_entry_pointer_entry(metac_value_entry(p_val)), NULL);
         if (p_target_entry == NULL || metac_entry_kind(p_target_entry) != METAC_KND_base_type ||
             metac_entry_name(p_target_entry) == NULL || strcmp(metac_entry_name(p_target_entry), "char") != 0) {
             return -(EFAULT);
         }
 
         char * ptr = NULL;
-        if (metac_value_pointer(p_val, (void**)&ptr) != 0) {
+        if (metac_value_has_elements(p_val) != 0) {
+            ptr = (char *)metac_value_addr(p_val);
+        } else if (metac_value_pointer(p_val, (void**)&ptr) != 0) {
             return -(EFAULT);
         }
         if (ptr == NULL) {
-- 
2.43.0


From f3e4f5b55df79d6dd8cf6d0cfa258432daed9a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:58 +0000
Subject: [PATCH 19/40] fix: entry_tag: fail if the counter of the casted
 pointer isn't found

---
 src/entry_tag.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/entry_tag.c b/src/entry_tag.c
index cfc4fa3..f7eaeef 100644
--- a/src/entry_tag.c
+++ b/src/entry_tag.c
@@ -766,7 +766,9 @@ int metac_handle_ptr_cast(metac_value_walker_hierarchy_t *p_hierarchy, metac_val
         metac_num_t content_count = 1;
         if (p_cnxt->sibling_count_fieldname != NULL && strcmp(p_cnxt->sibling_count_fieldname, "") != 0) {
             metac_num_t count_id = metac_entry_member_name_to_id(metac_value_entry(p_parent_val), p_cnxt->sibling_count_fieldname);
-
+            if (count_id < 0) {
+                return -(EINVAL);
+            }
             metac_value_t *p_sibling_val = metac_new_value_by_member_id(p_parent_val, count_id);
             if (metac_value_num(p_sibling_val, &content_count) != 0) {
                 metac_value_delete(p_sibling_val);
-- 
2.43.0


From 11aad7f1da7ffc0d40f3b365ea9cc48275b8a45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:12 +0000
Subject: [PATCH 20/40] fix: capture signed char call parameters

---
 src/value_with_args.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/value_with_args.c b/src/value_with_args.c
index 4ba049e..82db2ff 100644
--- a/src/value_with_args.c
+++ b/src/value_with_args.c
@@ -344,6 +344,7 @@ static void _handle_subprogram(
                 } while(0)
                 // handle all known base types
                 _base_type_paremeter_(char, int, char);
+                _base_type_paremeter_(signed char, int, signed char);
                 _base_type_paremeter_(unsigned char, int, unsigned char);
                 _base_type_paremeter_(short, int, short int);
                 _base_type_paremeter_(unsigned short, int, unsigned short int);
-- 
2.43.0


From da9da60dbea680c74155f23abc91badfb7147364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:32 +0000
Subject: [PATCH 21/40] fix: survive failed allocations while capturing call
 parameters

---
 src/entry_cdecl.c     | 42 ++++++++++++++++++++++++++++--------------
 src/iterator.c        |  3 +++
 src/value.c           |  3 +++
 src/value_with_args.c |  6 +++++-
 4 files changed, 39 insertions(+), 15 deletions(-)

diff --git a/src/entry_cdecl.c b/src/entry_cdecl.c
index 5c8b7e3..65b97bf 100644
--- a/src/entry_cdecl.c
+++ b/src/entry_cdecl.c
@@ -38,6 +38,14 @@ static metac_flag_t _declarator_is_array(metac_entry_t * p) {
     return p != NULL && p->kind == METAC_KND_array_type;
 }
 
+/** fail the current task, the results of its dependencies aren't needed anymore */
+static void _cdecl_fail(metac_recursive_iterator_t * p_iter) {
+    while(!metac_recursive_iterator_dep_queue_is_empty(p_iter)) {
+        free(metac_recursive_iterator_dequeue_and_delete_dep(p_iter, NULL, NULL));
+    }
+    metac_recursive_iterator_fail(p_iter);
+}
+
 /**
  * convert metac_entry to the C-declaration like string.
  * if entry is type the result will container a placeholder %s
@@ -91,6 +99,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                 char * res = dsprintf("%s %%s",p->name);
                 if (res == NULL) {
                     metac_recursive_iterator_fail(p_iter);
+                    continue;
                 }
                 metac_recursive_iterator_done(p_iter, res);
                 continue;
@@ -324,6 +333,11 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                                     name = dsprintf("%s",
                                         p->structure_type_info.members[i].name);        
                                 }
+                                if (name == NULL) {
+                                    free(type_pattern);
+                                    failure = 1;
+                                    break;
+                                }
                             }
                             // build field out of returned pattern and field name (can be absent)
                             char *field = trim_trailing_spaces(dsprintf((
@@ -347,11 +361,11 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             if (res != NULL) {
                                 free(res);
                             }
-                            if (new_res == NULL) {
+                            res = new_res;
+                            if (res == NULL) {
                                 failure = 1;
                                 break;
                             }
-                            res = new_res;
                         }
                         if (failure != 0) {
                             if (res != NULL) {
@@ -411,7 +425,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                         if (p->subprogram_info.type != NULL) {
                             type_pattern = metac_recursive_iterator_dequeue_and_delete_dep(p_iter, NULL, NULL);
                             if (type_pattern == NULL) {
-                                metac_recursive_iterator_fail(p_iter);
+                                _cdecl_fail(p_iter);
                                 continue;
                             }
                         }
@@ -449,11 +463,11 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                                 if (param != NULL) {
                                     free(param);
                                 }
-                                if (new_params == NULL) {
+                                params = new_params;
+                                if (params == NULL) {
                                     failure = 1;
                                     break;
                                 }
-                                params = new_params;
                             }
                         }
                         if (failure != 0){
@@ -463,7 +477,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             if (type_pattern != NULL) {
                                 free(type_pattern);
                             }
-                            metac_recursive_iterator_fail(p_iter);
+                            _cdecl_fail(p_iter);
                             continue;
                         }
                         // the name with its parameters takes the place of the declarator in the pattern of the returned type
@@ -477,7 +491,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             if (type_pattern != NULL) {
                                 free(type_pattern);
                             }
-                            metac_recursive_iterator_fail(p_iter);
+                            _cdecl_fail(p_iter);
                             continue;
                         }
                         char * res = dsprintf((type_pattern != NULL)?type_pattern:"void %s",
@@ -487,7 +501,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             free(type_pattern);
                         }
                         if (res == NULL) {
-                            metac_recursive_iterator_fail(p_iter);
+                            _cdecl_fail(p_iter);
                             continue;
                         }
                         metac_recursive_iterator_done(p_iter, res);
@@ -519,7 +533,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                         if (p->subroutine_type_info.type != NULL) {
                             type_pattern = metac_recursive_iterator_dequeue_and_delete_dep(p_iter, NULL, NULL);
                             if (type_pattern == NULL) {
-                                metac_recursive_iterator_fail(p_iter);
+                                _cdecl_fail(p_iter);
                                 continue;
                             }
                         }
@@ -556,11 +570,11 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             if (param != NULL) {
                                 free(param);
                             }
-                            if (new_params == NULL) {
+                            params = new_params;
+                            if (params == NULL) {
                                 failure = 1;
                                 break;
                             }
-                            params = new_params;
                         }
                         if (failure != 0) {
                             if (params != NULL) {
@@ -569,7 +583,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             if (type_pattern != NULL) {
                                 free(type_pattern);
                             }
-                            metac_recursive_iterator_fail(p_iter);
+                            _cdecl_fail(p_iter);
                             continue;
                         }
                         // the placeholder with parameters takes the place of the declarator in the pattern of the returned type
@@ -583,7 +597,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             if (type_pattern != NULL) {
                                 free(type_pattern);
                             }
-                            metac_recursive_iterator_fail(p_iter);
+                            _cdecl_fail(p_iter);
                             continue;
                         }
                         char * res = dsprintf((type_pattern != NULL)?type_pattern:"void %s",
@@ -593,7 +607,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             free(type_pattern);
                         }
                         if (res == NULL) {
-                            metac_recursive_iterator_fail(p_iter);
+                            _cdecl_fail(p_iter);
                             continue;
                         }
                         metac_recursive_iterator_done(p_iter, res);
diff --git a/src/iterator.c b/src/iterator.c
index eca2584..dbe8d1e 100644
--- a/src/iterator.c
+++ b/src/iterator.c
@@ -85,6 +85,9 @@ metac_recursive_iterator_t * metac_new_recursive_iterator(void * p_in) {
 }
 
 void metac_recursive_iterator_free(metac_recursive_iterator_t * p_iterator) {
+    if (p_iterator == NULL) {
+        return;
+    }
     metac_cleanup_recursive_iterator_entry(&p_iterator->recursive_iterator_entry);
     free(p_iterator);
 }
diff --git a/src/value.c b/src/value.c
index e1527d1..fbcfd0c 100644
--- a/src/value.c
+++ b/src/value.c
@@ -829,6 +829,9 @@ metac_value_t * metac_new_value_with_call_params(metac_entry_t *p_entry) {
     metac_parameter_storage_t * p_param_storage = metac_new_parameter_storage();
     if (p_param_storage != NULL) {
         p_val = metac_new_value(p_entry, p_param_storage);
+        if (p_val == NULL) {
+            metac_parameter_storage_delete(p_param_storage);
+        }
     }
     return p_val;
 }
diff --git a/src/value_with_args.c b/src/value_with_args.c
index 82db2ff..f9feddf 100644
--- a/src/value_with_args.c
+++ b/src/value_with_args.c
@@ -151,7 +151,7 @@ int metac_parameter_storage_append_by_parameter_storage(metac_parameter_storage_
     assert(metac_entry_is_unspecified_parameter(p_entry) != 0 || metac_entry_is_va_list_parameter(p_entry) != 0);
 
     metac_parameter_storage_t * p_inner_param_storage = metac_new_parameter_storage();
-    _check_(p_entry == NULL, -(ENOMEM));
+    _check_(p_inner_param_storage == NULL, -(ENOMEM));
 
     metac_parameter_t * p_param = _parameter_storage_append_by_buffer(p_param_storage,
         0,
@@ -457,6 +457,10 @@ static metac_value_t * _value_parameter_wrap(metac_value_t * p_val, metac_tag_ma
     // the only drawback is - we need to add special parameters into event:
     // va_list_param_id and p_va_list_load. 
     metac_recursive_iterator_t * p_iter = metac_new_recursive_iterator(p_val);
+    if (p_iter == NULL) {
+        metac_value_delete(p_val);
+        return NULL;
+    }
     for (metac_value_t * p = (metac_value_t *)metac_recursive_iterator_next(p_iter); p != NULL;
         p = (metac_value_t *)metac_recursive_iterator_next(p_iter)) {
         int state = metac_recursive_iterator_get_state(p_iter);
-- 
2.43.0


From d693b4f34b6f3df84298554f0b41046e521e2211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:08 +0000
Subject: [PATCH 22/40] fix: printf_format: read width and precision as
 decimal, don't take space as 0 flag

---
 src/printf_format.c | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/printf_format.c b/src/printf_format.c
index 53aa508..414ea8d 100644
--- a/src/printf_format.c
+++ b/src/printf_format.c
@@ -37,7 +37,7 @@ size_t metac_parse_format_specifier(const char *format, size_t *pos, metac_print
         } else if (format[*pos] == '0') {
             p_specifier->flags.oct = 1;
         } else if (format[*pos] == ' ') {
-            p_specifier->flags.oct = 1;
+            p_specifier->flags.space = 1;
         } else {
             break;
         }
@@ -48,11 +48,7 @@ size_t metac_parse_format_specifier(const char *format, size_t *pos, metac_print
     p_specifier->format_len = 0;
     while (*pos < strlen(format) && isdigit(format[*pos])) {
         metac_num_t d = format[*pos] - '0';
-        if (p_specifier->flags.oct != 0) {
-            p_specifier->format_len = p_specifier->format_len * 8 + d;
-        } else {
-            p_specifier->format_len = p_specifier->format_len * 10 + d;
-        }
+        p_specifier->format_len = p_specifier->format_len * 10 + d;
         (*pos)++;
     }
 
@@ -63,11 +59,7 @@ size_t metac_parse_format_specifier(const char *format, size_t *pos, metac_print
         (*pos)++;
         while (*pos < strlen(format) && isdigit(format[*pos])) {
             metac_num_t d = format[*pos] - '0';
-            if (p_specifier->flags.oct != 0) {
-                p_specifier->precision = p_specifier->precision * 8 + d;
-            } else {
-                p_specifier->precision = p_specifier->precision * 10 + d;
-            }
+            p_specifier->precision = p_specifier->precision * 10 + d;
             (*pos)++;
         }
     }
-- 
2.43.0


From e651020c82f4cc98d6c7ad215be1c2676fa16edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:08 +0000
Subject: [PATCH 23/40] fix: printf_format: don't skip the symbol after a
 specifier, handle %%, refuse unknown specifiers

---
 src/printf_format.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/printf_format.c b/src/printf_format.c
index 414ea8d..9d8ae02 100644
--- a/src/printf_format.c
+++ b/src/printf_format.c
@@ -105,10 +105,15 @@ size_t metac_count_format_specifiers(const char *format) {
 
     while (pos < strlen(format)) {
         if (format[pos] == '%') {
+            if (format[pos + 1] == '%') { // just % symbol
+                pos += 2;
+                continue;
+            }
             // Check if a valid format specifier follows
             if (metac_parse_format_specifier(format, &pos, &dummy_specifier) > 0) {
-            num_specifiers++;
+                num_specifiers++;
             }
+            continue; // pos is already after the specifier
         }
         pos++;
     }
@@ -163,14 +168,16 @@ static int _new_value_from_format_specifier(metac_parameter_storage_t * p_pload,
         return -(EINVAL);
     }
 
-    metac_num_t parameters_count = metac_count_format_specifiers(format);
-
     metac_num_t param_id = 0;
     size_t pos = 0;
     metac_printf_specifier_t dummy_specifier;
 
     while (pos < strlen(format)) {
         if (format[pos] == '%') {
+            if (format[pos + 1] == '%') { // just % symbol
+                pos += 2;
+                continue;
+            }
             // Check if a valid format specifier follows
             if (metac_parse_format_specifier(format, &pos, &dummy_specifier) > 0) {
                 switch (dummy_specifier.t) {
@@ -325,8 +332,11 @@ static int _new_value_from_format_specifier(metac_parameter_storage_t * p_pload,
                         return -(EFAULT);
                     }
                 }
+            } else { // we don't know how many parameters to take
+                return -(EFAULT);
             }
             ++param_id;
+            continue; // pos is already after the specifier
         }
         ++pos;
     }
-- 
2.43.0


From dc904b0dddcab75acb3fb256a627300e5c6059ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:08 +0000
Subject: [PATCH 24/40] fix: printf_format: allocate enough for %s, respect its
 precision

---
 src/printf_format.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/printf_format.c b/src/printf_format.c
index 9d8ae02..4436a9c 100644
--- a/src/printf_format.c
+++ b/src/printf_format.c
@@ -199,13 +199,15 @@ static int _new_value_from_format_specifier(metac_parameter_storage_t * p_pload,
                             metac_value_delete(p_param_value);
                             memcpy(p_param_value_ptr, &p, sizeof(p));
                         }else{
-                            size_t len = strlen(p);
+                            // the string may be not terminated if precision limits it
+                            size_t len = dummy_specifier.precision < 0 ? strlen(p) : strnlen(p, dummy_specifier.precision);
                             metac_entry_t * p_param_with_len_entry = metac_new_element_count_entry(p_param_entry, len+1);
                             if (p_param_with_len_entry == NULL) {
                                 return -(EFAULT);
                             }
 
-                            if (metac_parameter_storage_append_by_buffer(p_pload, p_param_with_len_entry, sizeof(p)) != 0) {
+                            if (metac_parameter_storage_append_by_buffer(p_pload, p_param_with_len_entry, len+1) != 0) {
+                                metac_entry_delete(p_param_with_len_entry);
                                 return -(EFAULT);
                             }
                             metac_value_t * p_param_value = metac_parameter_storage_new_param_value(p_pload, param_id);
@@ -215,7 +217,7 @@ static int _new_value_from_format_specifier(metac_parameter_storage_t * p_pload,
                             }
                             void * p_param_value_ptr = metac_value_addr(p_param_value);
                             metac_value_delete(p_param_value);
-                            memcpy(p_param_value_ptr, p, len+1);
+                            memcpy(p_param_value_ptr, p, len); // the rest of the buffer is zeroed
                         }
                     }
                     break;
-- 
2.43.0


From 2ad0e1a23223181d8a3d557e2b4806a92ed16d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:08 +0000
Subject: [PATCH 25/40] fix: printf_format: refuse wide characters instead of
 taking them as char

---
 src/printf_format.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/printf_format.c b/src/printf_format.c
index 4436a9c..9f20a88 100644
--- a/src/printf_format.c
+++ b/src/printf_format.c
@@ -182,6 +182,9 @@ static int _new_value_from_format_specifier(metac_parameter_storage_t * p_pload,
             if (metac_parse_format_specifier(format, &pos, &dummy_specifier) > 0) {
                 switch (dummy_specifier.t) {
                 case 's': {
+                        if (dummy_specifier.arg_len != psal_no) { // wchar_t isn't supported
+                            return -(EFAULT);
+                        }
                         WITH_METAC_DECLLOC(decl, char * p = NULL);
                         p = (char*)va_arg(p_cntr->parameters, char*);
 
@@ -276,7 +279,7 @@ static int _new_value_from_format_specifier(metac_parameter_storage_t * p_pload,
                 case 'c':
                 case 'i':
                 case 'd': {
-                        if (dummy_specifier.t == 'c' ||
+                        if ((dummy_specifier.t == 'c' && dummy_specifier.arg_len == psal_no) ||
                             dummy_specifier.arg_len == psal_hh) {
                             _process(char, int);
                         } else if (dummy_specifier.t != 'c') {
-- 
2.43.0


From d0c5128bf6440043a6c2dc1a6be4bd521d4a5dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:08 +0000
Subject: [PATCH 26/40] fix: value_deep: copy calls with ... and va_list
 parameters

---
 src/value.c      |  2 ++
 src/value_deep.c | 18 ++++++++++--------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/value.c b/src/value.c
index fbcfd0c..def676c 100644
--- a/src/value.c
+++ b/src/value.c
@@ -620,6 +620,8 @@ static metac_entry_t * _value_with_pointer_info(metac_value_t *p_val) {
     metac_entry_t * p_final_entry = metac_entry_final_entry(p_val->p_entry, NULL);
     _check_(p_final_entry == NULL, NULL);
     _check_(metac_entry_kind(p_final_entry) != METAC_KND_pointer_type, NULL);
+    // va_list parameter can be a pointer for compiler, but its value is kept in the parameter load
+    _check_(metac_entry_has_parameter_load(p_val->p_entry) != 0, NULL);
 
     return p_final_entry;
 }
diff --git a/src/value_deep.c b/src/value_deep.c
index 7cedde4..4d13dce 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -1204,14 +1204,16 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                 } else if (metac_value_has_parameter_load(p->p_val)) {
                     metac_parameter_storage_t * p_param_storage = (metac_parameter_storage_t *)metac_value_addr(p->p_val);
                     metac_parameter_storage_t * p_dst_param_storage = (metac_parameter_storage_t *)metac_value_addr(p_dst_val);
-                    if (metac_parameter_storage_size(p_dst_param_storage) > 0) {
-                        // can't copy to non-empty (TODO: btw maybe it will be interesting feature later?)
-                        metac_recursive_iterator_fail(p_iter);
-                        continue;
-                    }
-                    if (metac_parameter_storage_copy(p_param_storage, p_dst_param_storage) !=0) {
-                        metac_recursive_iterator_fail(p_iter);
-                        continue;   
+                    if (p->p_parent == NULL || metac_value_has_parameter_load(p->p_parent->p_val) == 0) { // the parent's storage is copied with all inner storages
+                        if (metac_parameter_storage_size(p_dst_param_storage) > 0) {
+                            // can't copy to non-empty (TODO: btw maybe it will be interesting feature later?)
+                            metac_recursive_iterator_fail(p_iter);
+                            continue;
+                        }
+                        if (metac_parameter_storage_copy(p_param_storage, p_dst_param_storage) !=0) {
+                            metac_recursive_iterator_fail(p_iter);
+                            continue;   
+                        }
                     }
 
                     for (metac_num_t i = 0; i < p->children_count; ++i) {
-- 
2.43.0


From 421ab593460579210e2a20040ee6eeb9a6a648d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:08 +0000
Subject: [PATCH 27/40] fix: value_string: print calls with no variadic
 parameters, fix double free

---
 src/value_string.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/value_string.c b/src/value_string.c
index 2c3bcbb..a6e9c5e 100644
--- a/src/value_string.c
+++ b/src/value_string.c
@@ -406,7 +406,7 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                         continue;
                     }
                     if (out == NULL) { /*empty string, or union without handler*/
-                        out = dsprintf("");
+                        out = dsprintf("%s", "");
                         if (out == NULL) {
                             metac_recursive_iterator_fail(p_iter);
                             continue;                  
@@ -467,7 +467,7 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                                 p_non_flexible = ev.p_return_value;
                             }
                             if (p_non_flexible == NULL) { /* this is a way to skip that item */
-                                char * out = dsprintf("");
+                                char * out = dsprintf("%s", "");
                                 if (out == NULL) {
                                     metac_recursive_iterator_fail(p_iter);
                                     continue;
@@ -633,7 +633,7 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                             char * param_cdecl = metac_entry_cdecl(metac_value_entry(p_param_val));
                             metac_value_delete(p_param_val);
                             if (param_cdecl == NULL) {
-                                free(out);
+                                free(param_out);
                                 failure = 1;
                                 break;
                             }
@@ -641,7 +641,7 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                             char * param_type = dsprintf(param_cdecl, "");
                             free(param_cdecl);
                             if (param_type == NULL) {
-                                free(out);
+                                free(param_out);
                                 failure = 1;
                                 break;
                             }
@@ -677,6 +677,11 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                         } else { // building part of fn call - append value
                             metac_value_delete(p_param_val);
 
+                            if (param_out[0] == 0) { // ... without parameters
+                                free(param_out);
+                                continue;
+                            }
+
                             char *prev_out = out;
                             out = dsprintf("%s%s%s",
                                 prev_out == NULL?"":prev_out, /*must include , at the end */
@@ -705,12 +710,16 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                     if (final_kind == METAC_KND_func_parameter) {
                         if (metac_entry_is_va_list_parameter(metac_value_entry(p))!=0) { // wrap with VA_LIST()
                             char *prev_out = out;
-                            out = dsprintf("VA_LIST(%s)",prev_out);
-                            free(prev_out);
+                            out = dsprintf("VA_LIST(%s)", prev_out==NULL?"":prev_out);
+                            if (prev_out) {
+                                free(prev_out);
+                            }
                             if (out == NULL) {
                                 metac_recursive_iterator_set_state(p_iter, 2); // failure cleanup
                                 continue;   
                             }
+                        } else if (out == NULL) { // ... without parameters
+                            out = dsprintf("%s", "");
                         }
                         metac_recursive_iterator_done(p_iter, out);
                         continue;
-- 
2.43.0


From c132e2003a0c8bf4862492f8e1335e82ec2745b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:08 +0000
Subject: [PATCH 28/40] fix: value_with_args: take va_list parameters without
 tag, fix leak and double free

---
 src/value_with_args.c | 51 +++++++++++++++++++------------------------
 1 file changed, 23 insertions(+), 28 deletions(-)

diff --git a/src/value_with_args.c b/src/value_with_args.c
index f9feddf..fa58023 100644
--- a/src/value_with_args.c
+++ b/src/value_with_args.c
@@ -268,41 +268,37 @@ static void _handle_subprogram(
                 return;
             }
 
-            metac_entry_tag_t * p_tag = metac_tag_map_tag(p_tag_map, p_param_entry);
-            
-            if (p_tag != NULL && p_tag->handler) {
-
-                // if parameter is va_list - we need to extract it
-                int local = 0;
-                struct va_list_container local_cntr = {};
+            // if parameter is va_list - we need to extract it
+            int local = 0;
+            struct va_list_container local_cntr = {};
 #if VA_ARG_IN_VA_ARG != 0
-                if (metac_entry_is_va_list_parameter(p_param_entry) != 0) {
-                    local = 1;
+            if (metac_entry_is_va_list_parameter(p_param_entry) != 0) {
+                local = 1;
 #if __linux__
-                    // linux (gcc) can't extract va_arg from va_arg
-                    void * p = va_arg(p_va_list_container->parameters, void*);
-                    memcpy(&local_cntr, p, sizeof(local_cntr));
+                // linux (gcc) can't extract va_arg from va_arg
+                void * p = va_arg(p_va_list_container->parameters, void*);
+                memcpy(&local_cntr, p, sizeof(local_cntr));
 #else
-                    _va_list_cp_to_container(&local_cntr, va_arg(p_va_list_container->parameters, va_list));
+                _va_list_cp_to_container(&local_cntr, va_arg(p_va_list_container->parameters, va_list));
 #endif
-                    ev.p_va_list_container = &local_cntr;
-                }
+                ev.p_va_list_container = &local_cntr;
+            }
 #endif
 
-                if (metac_value_event_handler_call(p_tag->handler, p_iter, &ev, p_tag->p_context) != 0) {
-                    if (local != 0){
-                        va_end(local_cntr.parameters);
-                    }
-                    metac_value_delete(ev.p_return_value);
+            int failed = 0;
+            metac_entry_tag_t * p_tag = metac_tag_map_tag(p_tag_map, p_param_entry);
+            if (p_tag != NULL && p_tag->handler) {
+                failed = (metac_value_event_handler_call(p_tag->handler, p_iter, &ev, p_tag->p_context) != 0);
+            }
 
+            if (local != 0){
+                va_end(local_cntr.parameters);
+            }
+            metac_value_delete(ev.p_return_value);
 
-                    metac_recursive_iterator_fail(p_iter);
-                    return;
-                }
-                if (local != 0){
-                    va_end(local_cntr.parameters);
-                }
-                metac_value_delete(ev.p_return_value);
+            if (failed != 0) {
+                metac_recursive_iterator_fail(p_iter);
+                return;
             }
         } else { /* normal param */
             void * addr = NULL;
@@ -431,7 +427,6 @@ static void _handle_subprogram(
 
                         if (addr != NULL) {
                             if (metac_entry_struct_va_arg(p_param_type_entry, p_va_list_container, addr) == 0) {
-                                free(addr);
                                 addr = NULL;
                                 break;
                             }
-- 
2.43.0


From 6f7a9fa828dee3eb2f3b173c7f6354908332aa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:33 +0000
Subject: [PATCH 29/40] fix: override: accept an override which is yaml null,
 don't ignore errors of merge

---
 pkg/override/override.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/override/override.go b/pkg/override/override.go
index c5e70cd..56dbe2b 100644
--- a/pkg/override/override.go
+++ b/pkg/override/override.go
@@ -48,7 +48,10 @@ func MergeAll(in *map[string]interface{}, overrides []string) (*map[string]inter
 			return nil, err
 		}
 		// support only merge so far
-		in, _ = Merge(in, overrideUnstr)
+		in, err = Merge(in, overrideUnstr)
+		if err != nil {
+			return nil, err
+		}
 	}
 	return in, nil
 }
@@ -59,6 +62,9 @@ func Merge(in *map[string]interface{}, override *map[string]interface{}) (*map[s
 	//return in, nil
 	merge := true
 	v := *override
+	if v == nil { // e.g. yaml null
+		v = map[string]interface{}{}
+	}
 
 	// Using c.Values directly when coalescing a table can cause problems where
 	// the original c.Values is altered. Creating a deep copy stops the problem.
-- 
2.43.0


From cadb7d4913e5d888fd4bc4a591afa4e2538aee9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:24 +0000
Subject: [PATCH 30/40] fix: exit with an error status if the module fails

---
 main.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 9ff9267..2e137f1 100644
--- a/main.go
+++ b/main.go
@@ -1,7 +1,13 @@
 package main
 
-import "github.com/aodinokov/metac/cmd/run"
+import (
+	"os"
+
+	"github.com/aodinokov/metac/cmd/run"
+)
 
 func main() {
-	run.NewCommand().Execute()
+	if err := run.NewCommand().Execute(); err != nil {
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From d6a3c68c8146e0c9c52f23227083119f62194aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:22 +0000
Subject: [PATCH 31/40] fix: gotemplate: fail if workdir can't be changed,
 restore it also after errors

---
 pkg/module/gotemplate/gotemplate.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pkg/module/gotemplate/gotemplate.go b/pkg/module/gotemplate/gotemplate.go
index f1268aa..d391ac7 100644
--- a/pkg/module/gotemplate/gotemplate.go
+++ b/pkg/module/gotemplate/gotemplate.go
@@ -164,13 +164,16 @@ func (i *GoTemplateInstance) Run(workDir string, overrides []string) ([]byte, er
 		}
 	}
 
-	priorWorkDir := ""
 	if workDir != "" {
-		priorWorkDir, err = os.Getwd()
+		priorWorkDir, err := os.Getwd()
 		if err != nil {
 			return nil, fmt.Errorf("couldn't change workdir %v", err)
 		}
-		os.Chdir(workDir)
+		err = os.Chdir(workDir)
+		if err != nil {
+			return nil, fmt.Errorf("couldn't change workdir %v", err)
+		}
+		defer os.Chdir(priorWorkDir)
 	}
 
 	// finally exec our module
@@ -179,8 +182,6 @@ func (i *GoTemplateInstance) Run(workDir string, overrides []string) ([]byte, er
 		return nil, fmt.Errorf("template exec returned error: %v", err)
 	}
 
-	os.Chdir(priorWorkDir)
-
 	return out.Bytes(), nil
 }
 
-- 
2.43.0


From dcc22a0ce0f291a056d063d04d15d926d5191281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:39 +0000
Subject: [PATCH 32/40] fix: gotemplate: fail if an included module has only
 candidates of other kinds

---
 pkg/module/gotemplate/gotemplate.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/module/gotemplate/gotemplate.go b/pkg/module/gotemplate/gotemplate.go
index d391ac7..d45c9c2 100644
--- a/pkg/module/gotemplate/gotemplate.go
+++ b/pkg/module/gotemplate/gotemplate.go
@@ -147,6 +147,7 @@ func (i *GoTemplateInstance) Run(workDir string, overrides []string) ([]byte, er
 
 		}
 		errs := []error{}
+		loaded := false
 		for _, infoInst := range info {
 			if i.runner.Kinds[infoInst.Kind] != i.factory {
 				// not our kind - shouldn't even try
@@ -154,11 +155,12 @@ func (i *GoTemplateInstance) Run(workDir string, overrides []string) ([]byte, er
 			}
 			err = i.handleIncludes(tmpl, infoInst.Path)
 			if err == nil {
+				loaded = true
 				break
 			}
 			errs = append(errs, fmt.Errorf("error processing kind %s path %s: %v", infoInst.Kind, infoInst.Path, err))
 		}
-		if len(errs) == len(info) {
+		if !loaded {
 			// no successful runs
 			return nil, fmt.Errorf("wasn't able to load anything for module %s, errors: %s", moduleName, errs)
 		}
-- 
2.43.0


From e36c7c08550faa3475e921823bf662ebd49e40cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:07 +0000
Subject: [PATCH 33/40] fix: metadb: don't merge types which refer to different
 types with the same name

---
 pkg/metadb/metadb_builder.go | 204 +++++++++++++++++++++++------------
 pkg/metadb/metadb_types.go   |   6 +-
 2 files changed, 141 insertions(+), 69 deletions(-)

diff --git a/pkg/metadb/metadb_builder.go b/pkg/metadb/metadb_builder.go
index 616b3e4..0aacfb7 100644
--- a/pkg/metadb/metadb_builder.go
+++ b/pkg/metadb/metadb_builder.go
@@ -824,88 +824,158 @@ func (builder *MetaDbBuilder) build() error {
 	return nil
 }
 
+// typeLinks returns all links from the type to other entries
+func typeLinks(ic ICommon) []*CommonLink {
+	var links []*CommonLink
+	switch x := ic.(type) {
+	case *ArrayType:
+		links = append(links, &x.Type)
+	case *PointerType:
+		links = append(links, &x.Type)
+	case *ReferenceType:
+		links = append(links, &x.Type)
+	case *QualType:
+		links = append(links, &x.Type)
+	case *Typedef:
+		links = append(links, &x.Type)
+	case *SubroutineType:
+		links = append(links, &x.Type)
+		for _, p := range x.Param {
+			links = append(links, &p.Type)
+		}
+	case *StructType:
+		for _, f := range x.Fields {
+			links = append(links, &f.Type)
+		}
+		for _, h := range x.Hierarchy {
+			links = append(links, &h.CommonLink)
+		}
+	}
+	return links
+}
+
+// classifyTypes splits types into classes of duplicates: signatures must match and
+// all types they refer to must belong to the same classes. It isn't enough to compare
+// signatures, because they contain only the names of the types they refer to and
+// different compile units can have different types with the same name
+func classifyTypes(types []*IndexEntry, signatures map[ICommon]string) map[ICommon]int {
+	classes := map[ICommon]int{}
+	keys := map[string]int{}
+	for _, indx := range types {
+		key := signatures[indx.p]
+		if cmnt := indx.GetCommonType(); cmnt != nil {
+			for _, size := range []*int64{cmnt.ByteSize, cmnt.Alignment} {
+				if size != nil {
+					key += fmt.Sprintf(",%d", *size)
+				} else {
+					key += ","
+				}
+			}
+		}
+		if _, ok := keys[key]; !ok {
+			keys[key] = len(keys)
+		}
+		classes[indx.p] = keys[key]
+	}
+	for count := 0; count != len(keys); {
+		count = len(keys)
+		keys = map[string]int{}
+		next := map[ICommon]int{}
+		for _, indx := range types {
+			key := fmt.Sprintf("%d", classes[indx.p])
+			for _, link := range typeLinks(indx.p) {
+				target := link.p
+				if targetIndx, ok := target.(*IndexEntry); ok && targetIndx != nil {
+					target = targetIndx.p
+				}
+				key += ","
+				if class, ok := classes[target]; ok {
+					key += fmt.Sprintf("%d", class)
+				}
+			}
+			if _, ok := keys[key]; !ok {
+				keys[key] = len(keys)
+			}
+			next[indx.p] = keys[key]
+		}
+		classes = next
+	}
+	return classes
+}
+
 func (builder *MetaDbBuilder) deduplicateTypes() error {
-	headerSignatures := map[string]*IndexEntry{}
-	signatures := map[string]map[string]*IndexEntry{}
 	// go via all indexes in the stable order, find only types
 	offsets := make([]dwarfy.Offset, 0, len(builder.index))
 	for offset := range builder.index {
 		offsets = append(offsets, offset)
 	}
 	sort.Slice(offsets, func(i, j int) bool { return offsets[i] < offsets[j] })
+	types := []*IndexEntry{}
+	signatures := map[ICommon]string{}
+	definitions := map[string]map[string]*IndexEntry{}
 	for _, offset := range offsets {
 		indx := builder.index[offset]
-		if indx.p == nil {
+		if indx.p == nil || !isTypeTag(indx.Tag) {
 			continue
 		}
-		if isTypeTag(indx.Tag) {
-			// children of duplicated entries go the same way: they can be referenced from elsewhere
-			hs, err := indx.p.Signature(false)
-			if err != nil {
-				return err
-			}
-			if indx.isDeclaration() { // declarations can be deduplicated by header signature
-				found, ok := headerSignatures[hs]
-				if ok {
-					//merge parents
-					icmnt := indx.GetCommonType()
-					fcmnt := found.GetCommonType()
-					if icmnt == nil || fcmnt == nil {
-						return fmt.Errorf("coun't merge parents - one of the object isn't type")
-					}
-					fcmnt.Parents = append(fcmnt.Parents, icmnt.Parents...)
-					//dedup
-					indx.isDuplicate = true
-					indx.p = found.p
-					continue
-				}
-				headerSignatures[hs] = indx
-				builder.appendDb(indx.p)
-				continue
-			}
-			// non-declaration... hmm.. use comparable signature (may want to rework this later if needed)
-			cs, err := indx.p.Signature(true)
-			if err != nil {
-				return err
-			}
-			foundMap, ok := signatures[hs]
-			if ok {
-				found, ok := foundMap[cs]
-				if ok {
-					//merge parents
-					icmnt := indx.GetCommonType()
-					fcmnt := found.GetCommonType()
-					if icmnt == nil || fcmnt == nil {
-						return fmt.Errorf("couldn't merge parents - one of the objects isn't type")
-					}
-					fcmnt.Parents = append(fcmnt.Parents, icmnt.Parents...)
-					//dedup
-					indx.isDuplicate = true
-					indx.p = found.p
-					continue
-				}
-
-				if indx.Entry.Tag != "BaseType" { /* developer doesn't define base types. Clang can generate Complex base type with different sizes */
-					// warning - we have several types with the same name, but different structure
-					emsg := fmt.Sprintf("WARNING:\n%s: %s doesn't match with previous definition of %s from",
-						indx.MixinDeclLocation.toString(indx.cu), cs, hs)
-					for fcs, found := range foundMap {
-						emsg += fmt.Sprintf("\n%s: %s", found.MixinDeclLocation.toString(found.cu), fcs)
-					}
-					log.Print(emsg)
-				}
-
-				foundMap[cs] = indx
-				builder.appendDb(indx.p)
-				continue
+		types = append(types, indx)
+		hs, err := indx.p.Signature(false)
+		if err != nil {
+			return err
+		}
+		if indx.isDeclaration() { // declarations can be deduplicated by header signature
+			signatures[indx.p] = "Declaration," + hs
+			continue
+		}
+		// non-declaration... hmm.. use comparable signature (may want to rework this later if needed)
+		cs, err := indx.p.Signature(true)
+		if err != nil {
+			return err
+		}
+		signatures[indx.p] = cs
 
+		foundMap, ok := definitions[hs]
+		if !ok {
+			foundMap = map[string]*IndexEntry{}
+			definitions[hs] = foundMap
+		}
+		if _, ok := foundMap[cs]; ok {
+			continue
+		}
+		if len(foundMap) > 0 && indx.Entry.Tag != "BaseType" { /* developer doesn't define base types. Clang can generate Complex base type with different sizes */
+			// warning - we have several types with the same name, but different structure
+			emsg := fmt.Sprintf("WARNING:\n%s: %s doesn't match with previous definition of %s from",
+				indx.MixinDeclLocation.toString(indx.cu), cs, hs)
+			for fcs, found := range foundMap {
+				emsg += fmt.Sprintf("\n%s: %s", found.MixinDeclLocation.toString(found.cu), fcs)
 			}
-			signatures[hs] = map[string]*IndexEntry{cs: indx}
+			log.Print(emsg)
+		}
+		foundMap[cs] = indx
+	}
+
+	classes := classifyTypes(types, signatures)
+	firsts := map[int]*IndexEntry{}
+	for _, indx := range types {
+		// children of duplicated entries go the same way: they can be referenced from elsewhere
+		found, ok := firsts[classes[indx.p]]
+		if !ok {
+			firsts[classes[indx.p]] = indx
 			builder.appendDb(indx.p)
-		} //else {
-		// TODO: dedup for hierarchy objects... - declarations of variables and subroutines
-		// }
+			continue
+		}
+		//merge parents
+		icmnt := indx.GetCommonType()
+		fcmnt := found.GetCommonType()
+		if icmnt == nil || fcmnt == nil {
+			return fmt.Errorf("couldn't merge parents - one of the objects isn't type")
+		}
+		fcmnt.Parents = append(fcmnt.Parents, icmnt.Parents...)
+		//dedup
+		indx.isDuplicate = true
+		indx.p = found.p
 	}
+	// TODO: dedup for hierarchy objects... - declarations of variables and subroutines
 	return nil
 }
 
diff --git a/pkg/metadb/metadb_types.go b/pkg/metadb/metadb_types.go
index 7383df6..b63f5e4 100644
--- a/pkg/metadb/metadb_types.go
+++ b/pkg/metadb/metadb_types.go
@@ -576,11 +576,13 @@ func (s *StructType) Signature(comparable bool) (string, error) {
 			if p.BitSize != nil {
 				signature += "BitSize:" + fmt.Sprintf("%d", *p.BitSize) + ","
 			}
+			if p.ByteSize != nil {
+				signature += "ByteSize:" + fmt.Sprintf("%d", *p.ByteSize) + ","
+			}
 			if p.BitOffset != nil {
 				signature += "BitOffset:" + fmt.Sprintf("%d", *p.BitOffset) + ","
-			} else {
-				signature += "ByteOffset:" + fmt.Sprintf("%d", p.ByteOffset) + ","
 			}
+			signature += "ByteOffset:" + fmt.Sprintf("%d", p.ByteOffset) + ","
 			if p.DataBitOffset != nil {
 				signature += "DataBitOffset:" + fmt.Sprintf("%d", *p.DataBitOffset) + ","
 			}
-- 
2.43.0


From 26644cd3ffc37a7d24d59a56460898bdd7023ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:05 +0000
Subject: [PATCH 34/40] fix: dwarfy: keep integers read from json exact

---
 pkg/dwarfy/dwarf.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/pkg/dwarfy/dwarf.go b/pkg/dwarfy/dwarf.go
index a55acaf..d8af114 100644
--- a/pkg/dwarfy/dwarf.go
+++ b/pkg/dwarfy/dwarf.go
@@ -1,6 +1,7 @@
 package dwarfy
 
 import (
+	"bytes"
 	"debug/dwarf"
 	"encoding/json"
 	"fmt"
@@ -118,6 +119,38 @@ func NewFieldFromUnstructured(iu interface{}) (*Field, error) {
 	return &field, nil
 }
 
+// UnmarshalJSON keeps all digits of integers - float64 isn't able to hold all of them
+func (f *Field) UnmarshalJSON(buf []byte) error {
+	type plainField Field
+	decoder := json.NewDecoder(bytes.NewReader(buf))
+	decoder.UseNumber()
+	if err := decoder.Decode((*plainField)(f)); err != nil {
+		return err
+	}
+	f.Val = fromJsonNumber(f.Val)
+	return nil
+}
+
+func fromJsonNumber(val interface{}) interface{} {
+	switch v := val.(type) {
+	case json.Number:
+		if i, err := strconv.Atoi(v.String()); err == nil {
+			return i
+		}
+		if u, err := strconv.ParseUint(v.String(), 10, 64); err == nil {
+			return u
+		}
+		if fl, err := v.Float64(); err == nil {
+			return fl
+		}
+	case []interface{}:
+		for i := range v {
+			v[i] = fromJsonNumber(v[i])
+		}
+	}
+	return val
+}
+
 func (f *Field) ToUnstructured() interface{} {
 	val := f.Val
 	offset, ok := val.(Offset)
-- 
2.43.0


From b5eab7f2c050161ec537dfdceb4c57c69b0c46ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:40 +0000
Subject: [PATCH 35/40] fix: dwarfy: accept compile units without line table

---
 pkg/dwarfy/dwarf.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pkg/dwarfy/dwarf.go b/pkg/dwarfy/dwarf.go
index d8af114..dd9b64e 100644
--- a/pkg/dwarfy/dwarf.go
+++ b/pkg/dwarfy/dwarf.go
@@ -281,13 +281,15 @@ func NewEntry(dwarfData *dwarf.Data, dwarfEntry *dwarf.Entry) (*Entry, error) {
 			return nil, err
 		}
 		var declFiles []string
-		for _, f := range lreader.Files() {
-			if f == nil {
-				// to keep the same index
-				declFiles = append(declFiles, "")
-				continue
+		if lreader != nil { // compile unit can have no line table
+			for _, f := range lreader.Files() {
+				if f == nil {
+					// to keep the same index
+					declFiles = append(declFiles, "")
+					continue
+				}
+				declFiles = append(declFiles, f.Name)
 			}
-			declFiles = append(declFiles, f.Name)
 		}
 		entry.DeclFiles = &declFiles
 	}
-- 
2.43.0


From 2f4a526a73e339ddad40dce8ea50c24225bb7b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:49 +0000
Subject: [PATCH 36/40] fix: metac-reflect-gen: answer a symbol link which
 several compile units see only once

---
 .../templates/_glob_responses.tpl             | 31 ++++++++++++++-----
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/modules/metac-reflect-gen/templates/_glob_responses.tpl b/modules/metac-reflect-gen/templates/_glob_responses.tpl
index 299f45d..6f5845a 100644
--- a/modules/metac-reflect-gen/templates/_glob_responses.tpl
+++ b/modules/metac-reflect-gen/templates/_glob_responses.tpl
@@ -6,18 +6,33 @@
 {{-   $resNameMacro := index . "resNameMacro" -}}
 {{-   if hasKey $resDict $key -}}
 {{-     $requests := get $resDict $key -}}
-{{-     range $_,$r := $requests -}}
-{{-       $cu := index $metaDb.CompileUnits (get $r "cu") -}}
-{{-       $out := include "metac_reflect_gen.glob_responses_hierarchy" (dict "metaDb" $metaDb "hierarchy" $cu.Hierarchy "resNameMacro" $resNameMacro "resName" (get $r "reqName")) -}}
-{{-       if eq $out "" -}}
+{{- /* the same request may be seen in several CUs (e.g. extern declaration in a header): answer only once,
+       first look for the symbol in CUs which define the request, next in those which declare it */ -}}
+{{-     $done := dict -}}
+{{-     range $_,$declared := list false true -}}
+{{-       range $_,$r := $requests -}}
+{{-         $h := get $r "h" -}}
+{{-         if and (not (hasKey $done (get $r "reqName"))) (eq $declared (eq "true" (toJson $h.Declaration))) -}}
+{{-           $cu := index $metaDb.CompileUnits (get $r "cu") -}}
+{{-           $out := include "metac_reflect_gen.glob_responses_hierarchy" (dict "metaDb" $metaDb "hierarchy" $cu.Hierarchy "resNameMacro" $resNameMacro "resName" (get $r "reqName")) -}}
+{{-           if ne $out "" -}}
+{{-             $_ := set $done (get $r "reqName") "" -}}
+{{-           end -}}
+{{-           $out -}}
+{{-         end -}}
+{{-       end -}}
+{{-     end -}}
 {{- /* clang doesn't create declarations, so need to try all cu*/ -}}
-{{-         range $_,$cu := $metaDb.CompileUnits -}}
-{{-           if eq $out "" -}}
-{{-             $out = include "metac_reflect_gen.glob_responses_hierarchy" (dict "metaDb" $metaDb "hierarchy" $cu.Hierarchy "resNameMacro" $resNameMacro "resName" (get $r "reqName")) -}}
+{{-     range $_,$r := $requests -}}
+{{-       range $_,$cu := $metaDb.CompileUnits -}}
+{{-         if not (hasKey $done (get $r "reqName")) -}}
+{{-           $out := include "metac_reflect_gen.glob_responses_hierarchy" (dict "metaDb" $metaDb "hierarchy" $cu.Hierarchy "resNameMacro" $resNameMacro "resName" (get $r "reqName")) -}}
+{{-           if ne $out "" -}}
+{{-             $_ := set $done (get $r "reqName") "" -}}
 {{-           end -}}
+{{-           $out -}}
 {{-         end -}}
 {{-       end -}}
-{{-       $out -}}
 {{-     end -}}
 {{-   end -}}
 {{- end -}}
-- 
2.43.0


From f0bcd139221b4945e13cd47d8f0b58852b718b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:56 +0000
Subject: [PATCH 37/40] fix: metac-test-gen: run a test which several compile
 units declare only once

---
 modules/metac-test-gen/templates/_build_requests.tpl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/metac-test-gen/templates/_build_requests.tpl b/modules/metac-test-gen/templates/_build_requests.tpl
index 65914af..f10184f 100644
--- a/modules/metac-test-gen/templates/_build_requests.tpl
+++ b/modules/metac-test-gen/templates/_build_requests.tpl
@@ -14,7 +14,10 @@
 {{-               $reqName := (index $splitted_request 1) -}}
 {{-               if eq $reqType "test" -}}
 {{-                 if hasKey $resDict $reqType -}}
-{{-                   $_ := set $resDict $reqType (append (get $resDict $reqType) $reqName) -}}
+{{- /* the same test can be seen in several CUs (extern declaration) */ -}}
+{{-                   if not (has $reqName (get $resDict $reqType)) -}}
+{{-                     $_ := set $resDict $reqType (append (get $resDict $reqType) $reqName) -}}
+{{-                   end -}}
 {{-                 else -}}
 {{-                   $_ := set $resDict $reqType (list $reqName) -}}
 {{-                 end -}}
-- 
2.43.0


From b340ab0edbe2116c5343d3c54518de71468864ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:00 +0000
Subject: [PATCH 38/40] fix: keep 128-bit constants of debug information in all
 representations

Constants of 16 bytes (DW_FORM_data16) were left as []byte: json made a base64
string of them, which was not converted back when it was read.
---
 pkg/dwarfy/dwarf.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/dwarfy/dwarf.go b/pkg/dwarfy/dwarf.go
index dd9b64e..3d9b6ff 100644
--- a/pkg/dwarfy/dwarf.go
+++ b/pkg/dwarfy/dwarf.go
@@ -188,7 +188,15 @@ func (f *Field) fixValBasedOnClass() {
 	// For unrecognized or vendor-defined attributes, Class may be
 	// ClassUnknown.
 
-	switch f.Class {
+	class := f.Class
+	switch f.Val.(type) {
+	case []byte, []interface{}:
+		if class == "ClassConstant" { // 128-bit constant
+			class = "ClassBlock"
+		}
+	}
+
+	switch class {
 	case "ClassAddress":
 		fallthrough
 	case "ClassReferenceSig":
-- 
2.43.0


From aa3d796c3685630aee05a4a83d65517a90701bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:00 +0000
Subject: [PATCH 39/40] fix: keep the types of values of DWARF 5 classes in all
 representations

yaml, json and unstructured data gave int or float64 for offsets and indices of
the classes that DWARF 5 added.
---
 pkg/dwarfy/dwarf.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pkg/dwarfy/dwarf.go b/pkg/dwarfy/dwarf.go
index 3d9b6ff..f8c76a2 100644
--- a/pkg/dwarfy/dwarf.go
+++ b/pkg/dwarfy/dwarf.go
@@ -184,6 +184,11 @@ func (f *Field) fixValBasedOnClass() {
 	//    loclistptr        int64          ClassLocListPtr
 	//    macptr            int64          ClassMacPtr
 	//    rangelistptr      int64          ClassRangeListPtr
+	//    loclist           uint64         ClassLocList
+	//    rnglist           uint64         ClassRngList
+	//    addrptr           int64          ClassAddrPtr
+	//    rnglistsptr       int64          ClassRngListsPtr
+	//    stroffsetsptr     int64          ClassStrOffsetsPtr
 	//
 	// For unrecognized or vendor-defined attributes, Class may be
 	// ClassUnknown.
@@ -199,6 +204,10 @@ func (f *Field) fixValBasedOnClass() {
 	switch class {
 	case "ClassAddress":
 		fallthrough
+	case "ClassLocList":
+		fallthrough
+	case "ClassRngList":
+		fallthrough
 	case "ClassReferenceSig":
 		switch f.Val.(type) {
 		case float64:
@@ -225,6 +234,12 @@ func (f *Field) fixValBasedOnClass() {
 		fallthrough
 	case "ClassRangeListPtr":
 		fallthrough
+	case "ClassStrOffsetsPtr":
+		fallthrough
+	case "ClassAddrPtr":
+		fallthrough
+	case "ClassRngListsPtr":
+		fallthrough
 	case "ClassUnknown":
 		switch f.Val.(type) {
 		case float64:
-- 
2.43.0


From 4a0eea1b8270c12319ac11dc4f55398ee8790a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:00 +0000
Subject: [PATCH 40/40] fix: override: give a copy of the settings also without
 overrides

---
 pkg/override/override.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/override/override.go b/pkg/override/override.go
index 56dbe2b..450fe68 100644
--- a/pkg/override/override.go
+++ b/pkg/override/override.go
@@ -42,6 +42,9 @@ func MergeAll(in *map[string]interface{}, overrides []string) (*map[string]inter
 	if in == nil {
 		return nil, fmt.Errorf("module spec isn't loaded")
 	}
+	if len(overrides) == 0 { // the caller is allowed to change the result in any case - make a copy
+		return Merge(in, &map[string]interface{}{})
+	}
 	for _, ovrd := range overrides {
 		overrideUnstr, err := New(ovrd)
 		if err != nil {
-- 
2.43.0

