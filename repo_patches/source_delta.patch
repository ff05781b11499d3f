From f72a6e932bb0e2aff384d4e458491098fb12e472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:25 +0000
Subject: [PATCH 01/90] fix: propagate errors raised inside a partial and
 restore the VM after any error

An error raised while a string partial (or the result of a lambda) was being
parsed, compiled or executed was swallowed by execute_template, which carried
on with the module, buffer and stacks of the failed partial. Errors thrown
through a jmp_buf owned by the caller left the VM pointing at dead stacks.
---
 src/handlebars_vm.c | 49 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 114b227..30a1dcf 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -337,6 +337,8 @@ static struct handlebars_string * execute_template(
     jmp_buf * prev_jmp = HBSCTX(vm)->e->jmp;
     jmp_buf buf;
 
+    volatile bool failed = false;
+
     handlebars_string_addref(tmpl);
 
     // Get template
@@ -346,6 +348,8 @@ static struct handlebars_string * execute_template(
 
     // Save jmp buf
     if( handlebars_setjmp_ex(vm, &buf) ) {
+        failed = true;
+        retval = NULL;
         goto done;
     }
 
@@ -365,11 +369,17 @@ static struct handlebars_string * execute_template(
             }
         }
         struct handlebars_ast_node * ast = handlebars_parse_ex(parser, tmpl, vm->flags);
+        if( context->e->num != HANDLEBARS_SUCCESS ) {
+            handlebars_rethrow(CONTEXT, context);
+        }
 
         // Compile
         struct handlebars_compiler * compiler = handlebars_compiler_ctor(context);
         handlebars_compiler_set_flags(compiler, vm->flags);
         struct handlebars_program * program = handlebars_compiler_compile_ex(compiler, ast);
+        if( context->e->num != HANDLEBARS_SUCCESS ) {
+            handlebars_rethrow(CONTEXT, context);
+        }
 
         // Serialize
         module = handlebars_program_serialize(context, program);
@@ -400,6 +410,10 @@ done:
     }
     handlebars_string_delref(tmpl);
     handlebars_context_dtor(context);
+    if (failed && prev_jmp) {
+        // The error was recorded above, let the enclosing handler deal with it
+        longjmp(*prev_jmp, HBSCTX(vm)->e->num);
+    }
     if (retval) {
         return retval;
     } else {
@@ -1391,25 +1405,34 @@ struct handlebars_string * handlebars_vm_execute_ex(
     struct handlebars_string * prev_delim_open = vm->delim_open;
     struct handlebars_string * prev_delim_close = vm->delim_close;
 
-    struct handlebars_string * buffer = NULL;
-    bool volatile setup_stacks = false;
+    struct handlebars_string * prev_buffer = vm->buffer;
+    long prev_depth = vm->depth;
+
+    struct handlebars_string * volatile buffer = NULL;
+    bool const setup_stacks = vm->stack == NULL;
+    bool volatile failed = false;
     jmp_buf buf;
+    HANDLEBARS_VALUE_DECL(prev_data);
+
+    if (setup_stacks) {
+        handlebars_value_value(prev_data, &vm->data);
+    }
 
-    // Save jump buffer
-    if( !prev ) {
+    // Save jump buffer. The outermost execution always has to clean up, since the stacks live in its frame
+    if( !prev || setup_stacks ) {
         if( handlebars_setjmp_ex(vm, &buf) ) {
+            failed = true;
             goto done;
         }
     }
 
     // Setup stacks
-    if (vm->stack == NULL) {
+    if (setup_stacks) {
         vm->stack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
         vm->contextStack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
         vm->hashStack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
         vm->blockParamStack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
         vm->partialBlockStack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
-        setup_stacks = true;
     }
 
     if (vm->last_context == NULL) {
@@ -1433,15 +1456,29 @@ done:
         vm->hashStack = NULL;
         vm->blockParamStack = NULL;
         vm->partialBlockStack = NULL;
+        if (failed) {
+            handlebars_value_value(&vm->data, prev_data);
+        }
     }
+    HANDLEBARS_VALUE_UNDECL(prev_data);
 
     // Reset
+    if (failed) {
+        vm->buffer = prev_buffer;
+        vm->depth = prev_depth;
+        vm->last_helper = NULL;
+        buffer = NULL;
+    }
     vm->delim_open = prev_delim_open;
     vm->delim_close = prev_delim_close;
     vm->last_context = prev_last_context;
     vm->module = prev_module;
     vm->flags = prev_flags;
 
+    if (failed && prev) {
+        longjmp(*prev, HBSCTX(vm)->e->num);
+    }
+
     return buffer;
 }
 
-- 
2.43.0


From b5866db60efb3a82f9ddfd8ce96a0a042925aa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:59 +0000
Subject: [PATCH 02/90] fix: bound the nesting of partials so that endless
 recursion is an error, not a crash

---
 src/handlebars_vm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 30a1dcf..81ddaa9 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -393,7 +393,9 @@ static struct handlebars_string * execute_template(
         handlebars_parser_dtor(parser);
     }
 
-    vm->depth++;
+    if (++vm->depth > HANDLEBARS_VM_STACK_SIZE) {
+        handlebars_throw(CONTEXT, HANDLEBARS_STACK_OVERFLOW, "Stack overflow");
+    }
 
     retval = handlebars_vm_execute(vm, module, input);
     assert(retval != NULL);
-- 
2.43.0


From 7bd0184ff3549225e6d9e2c711be4b8319a5cf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:06 +0000
Subject: [PATCH 03/90] fix: keep block params aligned with the nesting the
 compiler counted

Only blocks that declare or supply block params pushed a level at run time,
while the compiler numbers every block, so {{#each xs as |v|}}{{#if v}}{{v}}
looked in the wrong level. A partial block now sees the block params of the
place it was written in.
---
 src/handlebars_vm.c | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 81ddaa9..f9be3b5 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -49,6 +49,9 @@
 #include "handlebars_value_handlers.h"
 #include "handlebars_vm.h"
 
+//! Every block takes up a level of the block param stack, but only those that change the context a level of the others
+#define HANDLEBARS_VM_BLOCK_PARAM_STACK_SIZE (HANDLEBARS_VM_STACK_SIZE * 4)
+
 // @TODO fix these?
 #pragma GCC diagnostic warning "-Winline"
 
@@ -426,14 +429,16 @@ done:
 HANDLEBARS_CLOSURE_ATTRS
 static struct handlebars_value * invoke_partial_block_closure(HANDLEBARS_CLOSURE_ARGS)
 {
-    assert(localc >= 3);
+    assert(localc >= 4);
     assert(HANDLEBARS_LOCAL_AT(0)->type == HANDLEBARS_VALUE_TYPE_PTR);
     assert(HANDLEBARS_LOCAL_AT(1)->type == HANDLEBARS_VALUE_TYPE_INTEGER);
     assert(HANDLEBARS_LOCAL_AT(2)->type == HANDLEBARS_VALUE_TYPE_INTEGER);
+    assert(HANDLEBARS_LOCAL_AT(3)->type == HANDLEBARS_VALUE_TYPE_INTEGER);
 
     struct handlebars_module * module = handlebars_value_get_ptr(HANDLEBARS_LOCAL_AT(0), struct handlebars_module);
     long program = handlebars_value_get_intval(HANDLEBARS_LOCAL_AT(1));
     long partial_block_depth = handlebars_value_get_intval(HANDLEBARS_LOCAL_AT(2));
+    size_t block_param_depth = (size_t) handlebars_value_get_intval(HANDLEBARS_LOCAL_AT(3));
     bool pushed_partial_block = false;
 
     // Push partial block
@@ -442,17 +447,28 @@ static struct handlebars_value * invoke_partial_block_closure(HANDLEBARS_CLOSURE
         PUSH(vm->partialBlockStack, handlebars_stack_get(vm->partialBlockStack, partial_block_depth - 1));
     }
 
+    // The block sees the block params of where it was written, not those of where it is invoked
+    struct handlebars_stack * prev_block_param_stack = vm->blockParamStack;
+    vm->blockParamStack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_BLOCK_PARAM_STACK_SIZE);
+    for (size_t i = 0; i < block_param_depth; i++) {
+        PUSH(vm->blockParamStack, handlebars_stack_get(prev_block_param_stack, i));
+    }
+
     struct handlebars_value * input = argc > 0 ? &argv[0] : TOP(vm->contextStack);
     struct handlebars_string * buffer;
     if (vm->module == module) {
-        buffer = handlebars_vm_execute_program_ex(vm, program, input, NULL, TOP(vm->blockParamStack));
+        buffer = handlebars_vm_execute_program_ex(vm, program, input, NULL, NULL);
     } else {
-        buffer = handlebars_vm_execute_ex(vm, module, input, program, NULL, TOP(vm->blockParamStack));
+        buffer = handlebars_vm_execute_ex(vm, module, input, program, NULL, NULL);
     }
     if (buffer) {
         handlebars_value_str(rv, buffer);
     }
 
+    // Restore the block param stack
+    handlebars_stack_truncate(vm->blockParamStack, 0);
+    vm->blockParamStack = prev_block_param_stack;
+
     // Pop partial block
     if (pushed_partial_block) {
         // This should never happen, but we need to convince scan-build of it
@@ -829,11 +845,12 @@ ACCEPT_FUNCTION(invoke_partial)
 
     // Push partial block
     if (options.program > 0) {
-        const int closure_localc = 3;
+        const int closure_localc = 4;
         HANDLEBARS_VALUE_ARRAY_DECL(closure_localv, closure_localc);
         handlebars_value_ptr(&closure_localv[0], handlebars_ptr_ctor(CONTEXT, struct handlebars_module, vm->module, true));
         handlebars_value_integer(&closure_localv[1], options.program);
         handlebars_value_integer(&closure_localv[2], LEN(vm->partialBlockStack));
+        handlebars_value_integer(&closure_localv[3], LEN(vm->blockParamStack));
         handlebars_value_closure(partial_block, handlebars_closure_ctor(vm, invoke_partial_block_closure, closure_localc, closure_localv));
         pushed_partial_block = true;
         PUSH(vm->partialBlockStack, partial_block);
@@ -1354,9 +1371,13 @@ struct handlebars_string * handlebars_vm_execute_program_ex(
         handlebars_value_value(&vm->data, data);
     }
 
-    // Set block params
+    // Set block params. The compiler counts a level for every block, whether or not it has block params
     if( block_params ) {
         PUSH(vm->blockParamStack, block_params);
+    } else if( program_num > 0 ) {
+        HANDLEBARS_VALUE_DECL(no_block_params);
+        PUSH(vm->blockParamStack, no_block_params);
+        HANDLEBARS_VALUE_UNDECL(no_block_params);
     }
 
     // Execute the program
@@ -1433,7 +1454,7 @@ struct handlebars_string * handlebars_vm_execute_ex(
         vm->stack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
         vm->contextStack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
         vm->hashStack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
-        vm->blockParamStack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
+        vm->blockParamStack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_BLOCK_PARAM_STACK_SIZE);
         vm->partialBlockStack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
     }
 
-- 
2.43.0


From e54f0dedc9acedb3d10ae170c40126630563d366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:12 +0000
Subject: [PATCH 04/90] fix: a missing member of a block param or @data
 variable is not the variable itself

---
 src/handlebars_vm.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index f9be3b5..25a83af 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -968,9 +968,8 @@ ACCEPT_FUNCTION(lookup_block_param)
         struct handlebars_value * tmp2;
         for( i = 1; i < arr_len; i++ ) {
             tmp2 = handlebars_value_map_find(tmp, arr[i].string, rv);
-            if( tmp2 ) {
-                tmp = tmp2;
-            } else {
+            tmp = tmp2;
+            if( !tmp ) {
                 break;
             }
         }
@@ -1040,6 +1039,9 @@ ACCEPT_FUNCTION(lookup_data)
             handlebars_value_value(val, tmp);
         } else if( is_strict || require_terminal ) {
             goto done_and_err;
+        } else {
+            handlebars_value_null(val);
+            break;
         }
     }
 
-- 
2.43.0


From e95f43e452add45d7574669a88ce37445d196a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:50 +0000
Subject: [PATCH 05/90] fix: off-by-one in the nesting limits of the compiler

The last entry was written one past the end of the stack.
---
 src/handlebars_compiler.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_compiler.c b/src/handlebars_compiler.c
index 933770e..d83abad 100644
--- a/src/handlebars_compiler.c
+++ b/src/handlebars_compiler.c
@@ -691,7 +691,7 @@ static inline void handlebars_compiler_accept_program(
 
     assert(compiler != NULL);
 
-    if( compiler->bps->i > HANDLEBARS_COMPILER_STACK_SIZE ) {
+    if( compiler->bps->i >= HANDLEBARS_COMPILER_STACK_SIZE ) {
         handlebars_throw(CONTEXT, HANDLEBARS_STACK_OVERFLOW, "Block param stack blown");
     }
     compiler->bps->s[compiler->bps->i].block_param1 = block_param1;
@@ -1367,7 +1367,7 @@ static void handlebars_compiler_accept(
     }
 
     // Add node to source node stack
-    if( compiler->sns->i > HANDLEBARS_COMPILER_STACK_SIZE ) {
+    if( compiler->sns->i >= HANDLEBARS_COMPILER_STACK_SIZE ) {
         handlebars_throw(CONTEXT, HANDLEBARS_STACK_OVERFLOW, "Source node stack blown");
     }
     compiler->sns->s[compiler->sns->i] = node;
-- 
2.43.0


From 08f8bb757835c29c62085a80524d9fd7621a45cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:19 +0000
Subject: [PATCH 06/90] fix: iterating a map that is already being iterated
 aborted the process

The flag that marked the map was also left set when an error ended the
iteration. The iterator now holds a reference instead, so that a modification
during the iteration separates from the map being iterated.
---
 src/handlebars_partial_loader.c | 17 ++++++++---------
 src/handlebars_value.c          | 19 +++++++++----------
 2 files changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/handlebars_partial_loader.c b/src/handlebars_partial_loader.c
index a12ff28..8512024 100644
--- a/src/handlebars_partial_loader.c
+++ b/src/handlebars_partial_loader.c
@@ -138,16 +138,15 @@ static bool hbs_partial_loader_iterator_next_void(struct handlebars_value_iterat
 
 static bool hbs_partial_loader_iterator_next_map(struct handlebars_value_iterator * it)
 {
-    struct handlebars_partial_loader * intern = GET_INTERN_V(it->value);
-    struct handlebars_map * map = intern->map;
+    struct handlebars_map * map = (struct handlebars_map *) it->usr;
     struct handlebars_value * tmp;
 
-    assert(it->value != NULL);
-    assert(handlebars_value_get_type(it->value) == HANDLEBARS_VALUE_TYPE_MAP);
+    assert(map != NULL);
 
     if( it->index >= handlebars_map_count(map) - 1 ) {
         handlebars_value_dtor(it->cur);
-        handlebars_map_set_is_in_iteration(map, false);
+        handlebars_map_delref(map);
+        it->usr = NULL;
         return false;
     }
 
@@ -174,10 +173,9 @@ static bool hbs_partial_loader_iterator_init(struct handlebars_value_iterator *
     handlebars_map_get_kv_at_index(map, it->index, &it->key, &tmp);
     handlebars_value_value(it->cur, tmp);
     it->next = &hbs_partial_loader_iterator_next_map;
-    if (handlebars_map_set_is_in_iteration(map, true)) {
-        fprintf(stderr, "Nested map iteration is not currently supported [%s:%d]", __FILE__, __LINE__);
-        abort();
-    }
+    // Hold a reference, so that loading another partial during the iteration separates from this map
+    it->usr = (void *) map;
+    handlebars_map_addref(map);
 
     return true;
 }
@@ -212,6 +210,7 @@ struct handlebars_value * handlebars_value_partial_loader_init(
     obj->base_path = talloc_steal(obj, handlebars_string_copy_ctor(context, base_path));
     obj->extension = talloc_steal(obj, handlebars_string_copy_ctor(context, extension));
     obj->map = talloc_steal(obj, handlebars_map_ctor(context, 32));
+    handlebars_map_addref(obj->map);
     talloc_set_destructor(obj, partial_loader_dtor);
     handlebars_value_user(rv, (struct handlebars_user *) obj);
     return rv;
diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index 117e959..09afc10 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -842,20 +842,20 @@ static bool handlebars_value_iterator_next_stack(struct handlebars_value_iterato
 
 static bool handlebars_value_iterator_next_map(struct handlebars_value_iterator * it)
 {
+    struct handlebars_map * map = (struct handlebars_map *) it->usr;
     struct handlebars_value * tmp;
 
-    assert(it->value != NULL);
-    assert(it->value->type == HANDLEBARS_VALUE_TYPE_MAP);
+    assert(map != NULL);
 
-
-    if( it->index >= handlebars_map_count(it->value->v.map) - 1 ) {
+    if( it->index >= handlebars_map_count(map) - 1 ) {
         handlebars_value_dtor(it->cur);
-        handlebars_map_set_is_in_iteration(it->value->v.map, false);
+        handlebars_map_delref(map);
+        it->usr = NULL;
         return false;
     }
 
     it->index++;
-    handlebars_map_get_kv_at_index(it->value->v.map, it->index, &it->key, &tmp);
+    handlebars_map_get_kv_at_index(map, it->index, &it->key, &tmp);
     handlebars_value_value(it->cur, tmp);
     return true;
 }
@@ -890,10 +890,9 @@ bool handlebars_value_iterator_init(struct handlebars_value_iterator * it, struc
             handlebars_map_get_kv_at_index(value->v.map, it->index, &it->key, &tmp);
             handlebars_value_value(it->cur, tmp);
             it->next = &handlebars_value_iterator_next_map;
-            if (handlebars_map_set_is_in_iteration(value->v.map, true)) {
-                fprintf(stderr, "Nested map iteration is not currently supported [%s:%d]", __FILE__, __LINE__);
-                abort();
-            }
+            // Hold a reference, so that any modification of the map during the iteration separates from it
+            it->usr = (void *) value->v.map;
+            handlebars_map_addref(value->v.map);
             return true;
 
         case HANDLEBARS_VALUE_TYPE_USER:
-- 
2.43.0


From d7d4847e08ed70a36070aa02a399099432efcec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:25 +0000
Subject: [PATCH 07/90] fix: compacting a map lost entries that precede the
 first removed one

---
 src/handlebars_map.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_map.c b/src/handlebars_map.c
index cfaeed1..f07c096 100644
--- a/src/handlebars_map.c
+++ b/src/handlebars_map.c
@@ -551,8 +551,8 @@ void handlebars_map_sparse_array_compact(struct handlebars_map * map)
     // Scan until the first tombstone
     for (; i < map->vec_offset; i++) {
         if (0 == memcmp(&vec[i], &HANDLEBARS_MAP_TOMBSTONE_V, sizeof(HANDLEBARS_MAP_TOMBSTONE_V))) {
+            vec_offset = i;
             i++;
-            vec_offset++;
             break;
         }
     }
-- 
2.43.0


From 53a54d0d5e3c1584827e5402090e995f3fbcf502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:30 +0000
Subject: [PATCH 08/90] fix: slots of removed map entries were never reused, so
 adding could fail in a map with room

---
 src/handlebars_map.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_map.c b/src/handlebars_map.c
index f07c096..326eb0f 100644
--- a/src/handlebars_map.c
+++ b/src/handlebars_map.c
@@ -188,13 +188,15 @@ static inline struct ht_find_result map_find_entry(
     for (i = 0; i < table_capacity; i++) {
         pos = (start + i) % table_capacity;
         if (!table[pos]) {
-            ret.empty_found = true;
-            ret.empty_offset = pos;
+            if (!ret.empty_found) {
+                ret.empty_found = true;
+                ret.empty_offset = pos;
+            }
             break;
         } else if (table[pos] == HANDLEBARS_MAP_TOMBSTONE) {
             ret.tombstones++;
             if (!ret.empty_found) {
-                ret.empty_offset = true;
+                ret.empty_found = true;
                 ret.empty_offset = pos;
             }
         } else if( handlebars_string_eq(table[pos]->key, key) ) {
-- 
2.43.0


From 698600a3b233d5c6152052ddc672d0e15e6f20a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:36 +0000
Subject: [PATCH 09/90] fix: adding to a full map during iteration wrote past
 its end

---
 src/handlebars_map.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_map.c b/src/handlebars_map.c
index 326eb0f..5365597 100644
--- a/src/handlebars_map.c
+++ b/src/handlebars_map.c
@@ -220,7 +220,11 @@ static inline void map_add_at_table_offset(
     struct handlebars_map_entry ** table = map_table(map);
     struct handlebars_map_entry * entry = &vec[map->vec_offset];
 
-    assert(map->vec_offset < map->vec_capacity);
+    if (map->vec_offset >= map->vec_capacity) {
+        // this should never happen - unless rehash locked due to iteration
+        handlebars_throw(map->ctx, HANDLEBARS_ERROR, "Failed to add to hash table");
+    }
+
     assert(table[offset] == NULL || table[offset] == HANDLEBARS_MAP_TOMBSTONE);
 
 #ifndef HANDLEBARS_NO_REFCOUNT
-- 
2.43.0


From d8478e57be718b498d403b99a8e82b0234b42bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:43 +0000
Subject: [PATCH 10/90] fix: @root referred to the current context instead of
 the root one

---
 src/handlebars_vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 25a83af..34bf267 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -1023,7 +1023,7 @@ ACCEPT_FUNCTION(lookup_data)
     if( data && (tmp = handlebars_value_map_find(data, first->string, rv)) ) {
         handlebars_value_value(val, tmp);
     } else if (hbs_str_eq_strl(first->string, HBS_STRL("root"))) {
-        handlebars_value_value(val, TOP(vm->contextStack));
+        handlebars_value_value(val, handlebars_stack_get(vm->contextStack, 0));
     } else if (hbs_str_eq_strl(first->string, HBS_STRL("partial-block"))) {
         handlebars_value_value(val, TOP(vm->partialBlockStack));
     } else if( vm->flags & handlebars_compiler_flag_assume_objects ) {
-- 
2.43.0


From f14bc5084d61d06d896af9b30a0e528881e3d8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:49 +0000
Subject: [PATCH 11/90] fix: lookup helper crashed when the array index is out
 of range

---
 src/handlebars_helpers.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_helpers.c b/src/handlebars_helpers.c
index 0168746..27109a3 100644
--- a/src/handlebars_helpers.c
+++ b/src/handlebars_helpers.c
@@ -265,7 +265,7 @@ struct handlebars_value * handlebars_builtin_lookup(HANDLEBARS_HELPER_ARGS)
     } else if( type == HANDLEBARS_VALUE_TYPE_ARRAY ) {
         // @todo sscanf?
         if( handlebars_value_get_type(field) == HANDLEBARS_VALUE_TYPE_INTEGER ) {
-            rv = handlebars_value_array_find(context, handlebars_value_get_intval(field), rv);
+            (void) handlebars_value_array_find(context, handlebars_value_get_intval(field), rv);
         }
     }
 
-- 
2.43.0


From ea72b9cfd480ab9deb66c43b3d66e955637824b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:55 +0000
Subject: [PATCH 12/90] fix: with helper: the inverse block keeps its context,
 and runs for every empty value

---
 src/handlebars_helpers.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_helpers.c b/src/handlebars_helpers.c
index 27109a3..273a737 100644
--- a/src/handlebars_helpers.c
+++ b/src/handlebars_helpers.c
@@ -346,8 +346,10 @@ struct handlebars_value * handlebars_builtin_with(HANDLEBARS_HELPER_ARGS)
 
     assert(context != NULL);
 
-    if( handlebars_value_get_type(context) == HANDLEBARS_VALUE_TYPE_NULL ) {
-        result_str = handlebars_vm_execute_program(vm, options->inverse, context);
+    const bool is_zero = handlebars_value_get_type(context) == HANDLEBARS_VALUE_TYPE_INTEGER && handlebars_value_get_intval(context) == 0;
+
+    if( handlebars_value_is_empty(context) && !is_zero ) {
+        result_str = handlebars_vm_execute_program(vm, options->inverse, options->scope);
     } else {
         handlebars_value_array(block_params, handlebars_stack_ctor(CONTEXT, 2));
         handlebars_value_array_set(block_params, 0, context);
-- 
2.43.0


From fc74534df07c07bfd5267ec7d96aca65f22cf6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:00 +0000
Subject: [PATCH 13/90] fix: if helper: includeZero=false included zero

---
 src/handlebars_helpers.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_helpers.c b/src/handlebars_helpers.c
index 273a737..e9ecf86 100644
--- a/src/handlebars_helpers.c
+++ b/src/handlebars_helpers.c
@@ -275,6 +275,7 @@ struct handlebars_value * handlebars_builtin_lookup(HANDLEBARS_HELPER_ARGS)
 struct handlebars_value * handlebars_builtin_if(HANDLEBARS_HELPER_ARGS)
 {
     struct handlebars_value * conditional = &argv[0];
+    struct handlebars_value * include_zero;
     long program;
     struct handlebars_string * result_str = NULL;
     HANDLEBARS_VALUE_DECL(rv2);
@@ -295,7 +296,8 @@ struct handlebars_value * handlebars_builtin_if(HANDLEBARS_HELPER_ARGS)
         program = options->program;
     } else if( handlebars_value_get_type(conditional) == HANDLEBARS_VALUE_TYPE_INTEGER &&
             handlebars_value_get_intval(conditional) == 0 &&
-            NULL != handlebars_value_map_str_find(options->hash, HBS_STRL("includeZero"), rv2) ) {
+            NULL != (include_zero = handlebars_value_map_str_find(options->hash, HBS_STRL("includeZero"), rv2)) &&
+            !handlebars_value_is_empty(include_zero) ) {
         program = options->program;
     } else {
         program = options->inverse;
-- 
2.43.0


From 4e5e28ea9a5ad27eaee72b8067c0da07e0736025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:07 +0000
Subject: [PATCH 14/90] fix: partial hash arguments were dropped when the
 context is empty or not an object

---
 src/handlebars_vm.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 34bf267..55d26e1 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -307,11 +307,16 @@ static inline void depthed_lookup(struct handlebars_vm * vm, struct handlebars_s
 HBS_ATTR_NONNULL(1, 2)
 static inline struct handlebars_value * merge_hash(struct handlebars_context * context, struct handlebars_value * input, struct handlebars_value * hash)
 {
-    if( handlebars_value_get_type(input) == HANDLEBARS_VALUE_TYPE_MAP && handlebars_value_count(input) > 0 &&
-            hash && handlebars_value_get_type(hash) == HANDLEBARS_VALUE_TYPE_MAP && handlebars_value_count(hash) > 0 ) {
-        struct handlebars_map * new_map = handlebars_map_ctor(context, handlebars_value_count(input) + handlebars_value_count(hash));
-        HANDLEBARS_VALUE_FOREACH_KV(input, key, child) {
-            new_map = handlebars_map_update(new_map, key, child);
+    if( hash && handlebars_value_get_type(hash) == HANDLEBARS_VALUE_TYPE_MAP && handlebars_value_count(hash) > 0 ) {
+        struct handlebars_map * new_map = handlebars_map_ctor(context, handlebars_value_count(hash) + 4);
+        HANDLEBARS_VALUE_FOREACH_IDX_KV(input, index, key, child) {
+            if( key ) {
+                new_map = handlebars_map_update(new_map, key, child);
+            } else {
+                char tmp[32];
+                size_t tmp_len = snprintf(tmp, sizeof(tmp), "%zu", index);
+                new_map = handlebars_map_str_update(new_map, tmp, tmp_len, child);
+            }
         } HANDLEBARS_VALUE_FOREACH_END();
         HANDLEBARS_VALUE_FOREACH_KV(hash, key, child) {
             new_map = handlebars_map_update(new_map, key, child);
-- 
2.43.0


From 068438f6c491bd1bebe274b092a1f29f48b1ad41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:13 +0000
Subject: [PATCH 15/90] fix: @partial-block was looked up as a registered
 partial before the block itself

With a partial loader, which raises an error for a missing file, no partial
could invoke its block.
---
 src/handlebars_vm.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 55d26e1..d1e9cec 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -839,13 +839,11 @@ ACCEPT_FUNCTION(invoke_partial)
         }
     }
 
-    if (name) {
-        partial = handlebars_value_map_find(&vm->partials, name, partial_rv);
-    }
-
     // Try to look up partial block
-    if (!partial && name && hbs_str_eq_strl(name, HBS_STRL("@partial-block")) && LEN(vm->partialBlockStack) > 0) {
+    if (name && hbs_str_eq_strl(name, HBS_STRL("@partial-block")) && LEN(vm->partialBlockStack) > 0) {
         partial = TOP(vm->partialBlockStack);
+    } else if (name) {
+        partial = handlebars_value_map_find(&vm->partials, name, partial_rv);
     }
 
     // Push partial block
-- 
2.43.0


From 84283dd27cea0b93b7a005385c3be357fe4d536f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:19 +0000
Subject: [PATCH 16/90] fix: a null in a JSON array or object repeated the
 element before it during iteration

---
 src/handlebars_json.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/handlebars_json.c b/src/handlebars_json.c
index 13f4526..d0f6ce7 100644
--- a/src/handlebars_json.c
+++ b/src/handlebars_json.c
@@ -191,6 +191,7 @@ static bool hbs_json_iterator_next_object(struct handlebars_value_iterator * it)
     it->usr = (void *) (entry = entry->next);
     tmp = (char *) entry->k;
     it->key = handlebars_string_ctor(intern->user.ctx, tmp, strlen(tmp));
+    handlebars_value_null(it->cur);
     handlebars_value_init_json_object(intern->user.ctx, it->cur, (struct json_object *) entry->v);
     handlebars_string_addref(it->key);
     return true;
@@ -210,6 +211,7 @@ static bool hbs_json_iterator_next_array(struct handlebars_value_iterator * it)
         return false;
     }
 
+    handlebars_value_null(it->cur);
     handlebars_value_init_json_object(intern->user.ctx, it->cur, json_object_array_get_idx(intern->object, it->index));
     return true;
 }
-- 
2.43.0


From e9d39d12dd63bd030e00fbd210a3725d5cf82598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:25 +0000
Subject: [PATCH 17/90] fix: array members were resolved from any name that
 starts like a number, or from a stale index

---
 src/handlebars_vm.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index d1e9cec..f3f41ce 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -21,6 +21,7 @@
 
 #include <assert.h>
 #include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 
 #define HANDLEBARS_OPCODE_SERIALIZER_PRIVATE
@@ -1084,7 +1085,6 @@ ACCEPT_FUNCTION(lookup_on_context)
     size_t arr_len = opcode->op1.data.array.count;
     struct handlebars_operand_string * arr = opcode->op1.data.array.array;
     struct handlebars_operand_string * arr_end = arr + arr_len;
-    long index = -1;
     bool is_strict = (vm->flags & handlebars_compiler_flag_strict) || (vm->flags & handlebars_compiler_flag_assume_objects);
     bool require_terminal = (vm->flags & handlebars_compiler_flag_strict) && opcode->op3.data.boolval;
 
@@ -1101,7 +1101,10 @@ ACCEPT_FUNCTION(lookup_on_context)
         if( handlebars_value_get_type(value) == HANDLEBARS_VALUE_TYPE_MAP ) {
             value = handlebars_value_map_find(value, arr->string, rv2);
         } else if( handlebars_value_get_type(value) == HANDLEBARS_VALUE_TYPE_ARRAY ) {
-            if (sscanf(hbs_str_val(arr->string), "%ld", &index)) {
+            const char * index_str = hbs_str_val(arr->string);
+            char * index_end = NULL;
+            long index = strtol(index_str, &index_end, 10);
+            if (hbs_str_len(arr->string) > 0 && index_end == index_str + hbs_str_len(arr->string) && index >= 0) {
                 value = handlebars_value_array_find(value, index, rv2);
             } else {
                 value = NULL;
-- 
2.43.0


From e03e6b8e18d6cce66f81ccfca0a79cf06def1973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:16 +0000
Subject: [PATCH 18/90] fix: lexer: whitespace in {{^ }} and {{ else if}} was a
 literal "s"

---
 src/handlebars.l     |    4 +-
 src/handlebars.lex.c | 2497 +++++++++++++++++++++---------------------
 src/handlebars.lex.h |    6 +-
 3 files changed, 1235 insertions(+), 1272 deletions(-)

diff --git a/src/handlebars.l b/src/handlebars.l
index b23c252..0c6e68e 100644
--- a/src/handlebars.l
+++ b/src/handlebars.l
@@ -285,7 +285,7 @@ BLOCKPARAM [\x7C]
 										return OPEN_ENDBLOCK;
                              		}
 
-<mu>"{{"{LEFT_STRIP}?"^"\s*{RIGHT_STRIP}?"}}"        {
+<mu>"{{"{LEFT_STRIP}?"^"{WHITESPACE}*{RIGHT_STRIP}?"}}"        {
 										// v2.0.0 handlebars.l line 73
 										yy_pop_state(yyg);
 										handlebars_yy_copy_lval();
@@ -305,7 +305,7 @@ BLOCKPARAM [\x7C]
 										return OPEN_INVERSE;
                              		}
 
-<mu>"{{"{LEFT_STRIP}?\s*"else"   	{
+<mu>"{{"{LEFT_STRIP}?{WHITESPACE}*"else"   	{
 										// v2.0.0 handlebars.l line 76
 										handlebars_yy_copy_lval();
 										return OPEN_INVERSE_CHAIN;
diff --git a/src/handlebars.lex.c b/src/handlebars.lex.c
index e18ac8c..ae79a18 100644
--- a/src/handlebars.lex.c
+++ b/src/handlebars.lex.c
@@ -1,6 +1,6 @@
-#line 1 "handlebars.lex.c"
+#line 2 "handlebars.lex.c"
 
-#line 3 "handlebars.lex.c"
+#line 4 "handlebars.lex.c"
 
 #define  YY_INT_ALIGNED long int
 
@@ -599,9 +599,9 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const struct yy_trans_info yy_transition[20137] =
+static const struct yy_trans_info yy_transition[19957] =
     {
- {   0,   0 }, {   0,19881 }, {   0,   2 }, {   0,19879 }, {   1,3096 },
+ {   0,   0 }, {   0,19701 }, {   0,   2 }, {   0,19699 }, {   1,3096 },
  {   2,3096 }, {   3,3096 }, {   4,3096 }, {   5,3096 }, {   6,3096 },
  {   7,3096 }, {   8,3096 }, {   9,3096 }, {  10,3353 }, {  11,3096 },
  {  12,3096 }, {  13,3353 }, {  14,3096 }, {  15,3096 }, {  16,3096 },
@@ -658,7 +658,7 @@ static const struct yy_trans_info yy_transition[20137] =
 
  { 247,3096 }, { 248,3096 }, { 249,3096 }, { 250,3096 }, { 251,3096 },
  { 252,3096 }, { 253,3096 }, { 254,3096 }, { 255,3096 }, { 256,3359 },
- {   0,   2 }, {   0,19621 }, {   1,2838 }, {   2,2838 }, {   3,2838 },
+ {   0,   2 }, {   0,19441 }, {   1,2838 }, {   2,2838 }, {   3,2838 },
  {   4,2838 }, {   5,2838 }, {   6,2838 }, {   7,2838 }, {   8,2838 },
  {   9,2838 }, {  10,3095 }, {  11,2838 }, {  12,2838 }, {  13,3095 },
  {  14,2838 }, {  15,2838 }, {  16,2838 }, {  17,2838 }, {  18,2838 },
@@ -714,7 +714,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 239,2838 }, { 240,2838 }, { 241,2838 }, { 242,2838 }, { 243,2838 },
  { 244,2838 }, { 245,2838 }, { 246,2838 }, { 247,2838 }, { 248,2838 },
  { 249,2838 }, { 250,2838 }, { 251,2838 }, { 252,2838 }, { 253,2838 },
- { 254,2838 }, { 255,2838 }, { 256,3101 }, {   0,   0 }, {   0,19363 },
+ { 254,2838 }, { 255,2838 }, { 256,3101 }, {   0,   0 }, {   0,19183 },
  {   1,3223 }, {   2,3223 }, {   3,3223 }, {   4,3223 }, {   5,3223 },
  {   6,3223 }, {   7,3223 }, {   8,3223 }, {   9,2845 }, {  10,2852 },
  {  11,3223 }, {  12,3223 }, {  13,2845 }, {  14,3223 }, {  15,3223 },
@@ -771,7 +771,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 241,3223 }, { 242,3223 }, { 243,3223 }, { 244,3223 }, { 245,3223 },
  { 246,3223 }, { 247,3223 }, { 248,3223 }, { 249,3223 }, { 250,3223 },
  { 251,3223 }, { 252,3223 }, { 253,3223 }, { 254,3223 }, { 255,3223 },
- { 256,3223 }, {   0,   0 }, {   0,19105 }, {   1,2965 }, {   2,2965 },
+ { 256,3223 }, {   0,   0 }, {   0,18925 }, {   1,2965 }, {   2,2965 },
  {   3,2965 }, {   4,2965 }, {   5,2965 }, {   6,2965 }, {   7,2965 },
  {   8,2965 }, {   9,2587 }, {  10,2594 }, {  11,2965 }, {  12,2965 },
  {  13,2587 }, {  14,2965 }, {  15,2965 }, {  16,2965 }, {  17,2965 },
@@ -828,7 +828,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 243,2965 }, { 244,2965 }, { 245,2965 }, { 246,2965 }, { 247,2965 },
  { 248,2965 }, { 249,2965 }, { 250,2965 }, { 251,2965 }, { 252,2965 },
  { 253,2965 }, { 254,2965 }, { 255,2965 }, { 256,2965 }, {   0,   0 },
- {   0,18847 }, {   1,3792 }, {   2,3792 }, {   3,3792 }, {   4,3792 },
+ {   0,18667 }, {   1,3792 }, {   2,3792 }, {   3,3792 }, {   4,3792 },
  {   5,3792 }, {   6,3792 }, {   7,3792 }, {   8,3792 }, {   9,3792 },
  {  10,2327 }, {  11,3792 }, {  12,3792 }, {  13,3792 }, {  14,3792 },
 
@@ -884,7 +884,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 240,3792 }, { 241,3792 }, { 242,3792 }, { 243,3792 }, { 244,3792 },
  { 245,3792 }, { 246,3792 }, { 247,3792 }, { 248,3792 }, { 249,3792 },
  { 250,3792 }, { 251,3792 }, { 252,3792 }, { 253,3792 }, { 254,3792 },
- { 255,3792 }, { 256,3792 }, {   0,   0 }, {   0,18589 }, {   1,3534 },
+ { 255,3792 }, { 256,3792 }, {   0,   0 }, {   0,18409 }, {   1,3534 },
  {   2,3534 }, {   3,3534 }, {   4,3534 }, {   5,3534 }, {   6,3534 },
 
  {   7,3534 }, {   8,3534 }, {   9,3534 }, {  10,2069 }, {  11,3534 },
@@ -942,7 +942,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 247,3534 }, { 248,3534 }, { 249,3534 }, { 250,3534 }, { 251,3534 },
  { 252,3534 }, { 253,3534 }, { 254,3534 }, { 255,3534 }, { 256,3534 },
 
- {   0,   0 }, {   0,18331 }, {   1,1811 }, {   2,1811 }, {   3,1811 },
+ {   0,   0 }, {   0,18151 }, {   1,1811 }, {   2,1811 }, {   3,1811 },
  {   4,1811 }, {   5,1811 }, {   6,1811 }, {   7,1811 }, {   8,1811 },
  {   9,1811 }, {  10,1811 }, {  11,1811 }, {  12,1811 }, {  13,1811 },
  {  14,1811 }, {  15,1811 }, {  16,1811 }, {  17,1811 }, {  18,1811 },
@@ -998,7 +998,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 244,1811 }, { 245,1811 }, { 246,1811 }, { 247,1811 }, { 248,1811 },
 
  { 249,1811 }, { 250,1811 }, { 251,1811 }, { 252,1811 }, { 253,1811 },
- { 254,1811 }, { 255,1811 }, { 256,1811 }, {   0,   0 }, {   0,18073 },
+ { 254,1811 }, { 255,1811 }, { 256,1811 }, {   0,   0 }, {   0,17893 },
  {   1,1553 }, {   2,1553 }, {   3,1553 }, {   4,1553 }, {   5,1553 },
  {   6,1553 }, {   7,1553 }, {   8,1553 }, {   9,1553 }, {  10,1553 },
  {  11,1553 }, {  12,1553 }, {  13,1553 }, {  14,1553 }, {  15,1553 },
@@ -1055,7 +1055,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 241,1553 }, { 242,1553 }, { 243,1553 }, { 244,1553 }, { 245,1553 },
  { 246,1553 }, { 247,1553 }, { 248,1553 }, { 249,1553 }, { 250,1553 },
  { 251,1553 }, { 252,1553 }, { 253,1553 }, { 254,1553 }, { 255,1553 },
- { 256,1553 }, {   0,   0 }, {   0,17815 }, {   1,4595 }, {   2,4595 },
+ { 256,1553 }, {   0,   0 }, {   0,17635 }, {   1,4595 }, {   2,4595 },
  {   3,4595 }, {   4,4595 }, {   5,4595 }, {   6,4595 }, {   7,4595 },
  {   8,4595 }, {   9,4595 }, {  10,4595 }, {  11,4595 }, {  12,4595 },
  {  13,4595 }, {  14,4595 }, {  15,4595 }, {  16,4595 }, {  17,4595 },
@@ -1112,7 +1112,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 243,4595 }, { 244,4595 }, { 245,4595 }, { 246,4595 }, { 247,4595 },
  { 248,4595 }, { 249,4595 }, { 250,4595 }, { 251,4595 }, { 252,4595 },
  { 253,4595 }, { 254,4595 }, { 255,4595 }, { 256,4595 }, {   0,   0 },
- {   0,17557 }, {   1,4337 }, {   2,4337 }, {   3,4337 }, {   4,4337 },
+ {   0,17377 }, {   1,4337 }, {   2,4337 }, {   3,4337 }, {   4,4337 },
  {   5,4337 }, {   6,4337 }, {   7,4337 }, {   8,4337 }, {   9,4337 },
  {  10,4337 }, {  11,4337 }, {  12,4337 }, {  13,4337 }, {  14,4337 },
  {  15,4337 }, {  16,4337 }, {  17,4337 }, {  18,4337 }, {  19,4337 },
@@ -1168,7 +1168,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 240,4337 }, { 241,4337 }, { 242,4337 }, { 243,4337 }, { 244,4337 },
  { 245,4337 }, { 246,4337 }, { 247,4337 }, { 248,4337 }, { 249,4337 },
  { 250,4337 }, { 251,4337 }, { 252,4337 }, { 253,4337 }, { 254,4337 },
- { 255,4337 }, { 256,4337 }, {   0,   0 }, {   0,17299 }, {   1,4595 },
+ { 255,4337 }, { 256,4337 }, {   0,   0 }, {   0,17119 }, {   1,4595 },
  {   2,4595 }, {   3,4595 }, {   4,4595 }, {   5,4595 }, {   6,4595 },
  {   7,4595 }, {   8,4595 }, {   9,4595 }, {  10,4595 }, {  11,4595 },
  {  12,4595 }, {  13,4595 }, {  14,4595 }, {  15,4595 }, {  16,4595 },
@@ -1225,7 +1225,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 242,4595 }, { 243,4595 }, { 244,4595 }, { 245,4595 }, { 246,4595 },
  { 247,4595 }, { 248,4595 }, { 249,4595 }, { 250,4595 }, { 251,4595 },
  { 252,4595 }, { 253,4595 }, { 254,4595 }, { 255,4595 }, { 256, 779 },
- {   0,   0 }, {   0,17041 }, {   1,4337 }, {   2,4337 }, {   3,4337 },
+ {   0,   0 }, {   0,16861 }, {   1,4337 }, {   2,4337 }, {   3,4337 },
  {   4,4337 }, {   5,4337 }, {   6,4337 }, {   7,4337 }, {   8,4337 },
 
  {   9,4337 }, {  10,4337 }, {  11,4337 }, {  12,4337 }, {  13,4337 },
@@ -1281,7 +1281,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 239,4337 }, { 240,4337 }, { 241,4337 }, { 242,4337 }, { 243,4337 },
  { 244,4337 }, { 245,4337 }, { 246,4337 }, { 247,4337 }, { 248,4337 },
  { 249,4337 }, { 250,4337 }, { 251,4337 }, { 252,4337 }, { 253,4337 },
- { 254,4337 }, { 255,4337 }, { 256, 521 }, {   0,   2 }, {   0,16783 },
+ { 254,4337 }, { 255,4337 }, { 256, 521 }, {   0,   2 }, {   0,16603 },
 
  {   1,4461 }, {   2,4461 }, {   3,4461 }, {   4,4461 }, {   5,4461 },
  {   6,4461 }, {   7,4461 }, {   8,4461 }, {   9,4461 }, {  10,4338 },
@@ -1339,14 +1339,14 @@ static const struct yy_trans_info yy_transition[20137] =
  { 246,4461 }, { 247,4461 }, { 248,4461 }, { 249,4461 }, { 250,4461 },
 
  { 251,4461 }, { 252,4461 }, { 253,4461 }, { 254,4461 }, { 255,4461 },
- {   0,   2 }, {   0,16526 }, {   0,   6 }, {   0,16524 }, {   0,   6 },
- {   0,16522 }, {   0,  51 }, {   0,16520 }, {   0,  35 }, {   0,16518 },
+ {   0,   2 }, {   0,16346 }, {   0,   6 }, {   0,16344 }, {   0,   6 },
+ {   0,16342 }, {   0,  51 }, {   0,16340 }, {   0,  35 }, {   0,16338 },
  {   0,   0 }, {  10,4081 }, {   0,   0 }, {   0,   0 }, {  13,4081 },
- {   0,  35 }, {   0,16511 }, {   0,   0 }, {   9,4742 }, {  10,4742 },
- {   0,  50 }, {   0,16506 }, {  13,4742 }, {   0,  14 }, {   0,16503 },
- {   9,4735 }, {  10,4735 }, {   0,  15 }, {   0,16499 }, {  13,4735 },
- {   0,  34 }, {   0,16496 }, {   0,  31 }, {   0,16494 }, {   0,  40 },
- {   0,16492 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  35 }, {   0,16331 }, {   0,   0 }, {   9,4742 }, {  10,4742 },
+ {   0,  50 }, {   0,16326 }, {  13,4742 }, {   0,  14 }, {   0,16323 },
+ {   9,4735 }, {  10,4735 }, {   0,  15 }, {   0,16319 }, {  13,4735 },
+ {   0,  34 }, {   0,16316 }, {   0,  31 }, {   0,16314 }, {   0,  40 },
+ {   0,16312 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  32,4742 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,4735 }, {   0,   0 },
@@ -1367,7 +1367,7 @@ static const struct yy_trans_info yy_transition[20137] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, { 123,4461 }, {   0,   0 }, { 123,4461 }, {   0,   2 },
- {   0,16397 }, {   1,4075 }, {   2,4075 }, {   3,4075 }, {   4,4075 },
+ {   0,16217 }, {   1,4075 }, {   2,4075 }, {   3,4075 }, {   4,4075 },
  {   5,4075 }, {   6,4075 }, {   7,4075 }, {   8,4075 }, {   9,4075 },
  {  10,3952 }, {  11,4075 }, {  12,4075 }, {  13,3952 }, {  14,4075 },
 
@@ -1423,7 +1423,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 240,4075 }, { 241,4075 }, { 242,4075 }, { 243,4075 }, { 244,4075 },
  { 245,4075 }, { 246,4075 }, { 247,4075 }, { 248,4075 }, { 249,4075 },
  { 250,4075 }, { 251,4075 }, { 252,4075 }, { 253,4075 }, { 254,4075 },
- { 255,4075 }, {   0,  50 }, {   0,16140 }, {   1,4106 }, {   2,4106 },
+ { 255,4075 }, {   0,  50 }, {   0,15960 }, {   1,4106 }, {   2,4106 },
  {   3,4106 }, {   4,4106 }, {   5,4106 }, {   6,4106 }, {   7,4106 },
 
  {   8,4106 }, {   9,4081 }, {  10,4081 }, {  11,4106 }, {  12,4106 },
@@ -1481,7 +1481,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 248,4106 }, { 249,4106 }, { 250,4106 }, { 251,4106 }, { 252,4106 },
  { 253,4106 }, { 254,4106 }, { 255,4106 }, { 256,4106 }, {   0,  50 },
 
- {   0,15882 }, {   1,4140 }, {   2,4140 }, {   3,4140 }, {   4,4140 },
+ {   0,15702 }, {   1,4140 }, {   2,4140 }, {   3,4140 }, {   4,4140 },
  {   5,4140 }, {   6,4140 }, {   7,4140 }, {   8,4140 }, {   9,4140 },
  {  10,4140 }, {  11,4140 }, {  12,4140 }, {  13,4140 }, {  14,4140 },
  {  15,4140 }, {  16,4140 }, {  17,4140 }, {  18,4140 }, {  19,4140 },
@@ -1537,7 +1537,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 245,4140 }, { 246,4140 }, { 247,4140 }, { 248,4140 }, { 249,4140 },
 
  { 250,4140 }, { 251,4140 }, { 252,4140 }, { 253,4140 }, { 254,4140 },
- { 255,4140 }, { 256,4140 }, {   0,  50 }, {   0,15624 }, {   1,4398 },
+ { 255,4140 }, { 256,4140 }, {   0,  50 }, {   0,15444 }, {   1,4398 },
  {   2,4398 }, {   3,4398 }, {   4,4398 }, {   5,4398 }, {   6,4398 },
  {   7,4398 }, {   8,4398 }, {   9,4398 }, {  10,4398 }, {  11,4398 },
  {  12,4398 }, {  13,4398 }, {  14,4398 }, {  15,4398 }, {  16,4398 },
@@ -1594,7 +1594,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 242,4398 }, { 243,4398 }, { 244,4398 }, { 245,4398 }, { 246,4398 },
  { 247,4398 }, { 248,4398 }, { 249,4398 }, { 250,4398 }, { 251,4398 },
  { 252,4398 }, { 253,4398 }, { 254,4398 }, { 255,4398 }, { 256,4398 },
- {   0,  50 }, {   0,15366 }, {   1,3332 }, {   2,3332 }, {   3,3332 },
+ {   0,  50 }, {   0,15186 }, {   1,3332 }, {   2,3332 }, {   3,3332 },
  {   4,3332 }, {   5,3332 }, {   6,3332 }, {   7,3332 }, {   8,3332 },
  {   9,3307 }, {  10,3307 }, {  11,3332 }, {  12,3332 }, {  13,3307 },
  {  14,3332 }, {  15,3332 }, {  16,3332 }, {  17,3332 }, {  18,3332 },
@@ -1650,26 +1650,26 @@ static const struct yy_trans_info yy_transition[20137] =
  { 239,3332 }, { 240,3332 }, { 241,3332 }, { 242,3332 }, { 243,3332 },
  { 244,3332 }, { 245,3332 }, { 246,3332 }, { 247,3332 }, { 248,3332 },
  { 249,3332 }, { 250,3332 }, { 251,3332 }, { 252,3332 }, { 253,3332 },
- { 254,3332 }, { 255,3332 }, { 256,3332 }, {   0,  34 }, {   0,15108 },
+ { 254,3332 }, { 255,3332 }, { 256,3332 }, {   0,  34 }, {   0,14928 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,3338 }, {  10,3338 },
  {   0,   0 }, {   0,   0 }, {  13,3338 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,  50 }, {   0,15090 }, {   0,  42 }, {   0,15088 },
+ {   0,   0 }, {   0,  50 }, {   0,14910 }, {   0,  42 }, {   0,14908 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  32,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  41,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  46,3340 }, {  47,3338 }, {   0,  50 }, {   0,15059 }, {   0,  50 },
- {   0,15057 }, {   0,   7 }, {   0,15055 }, {   0,  51 }, {   0,15053 },
+ {  46,3340 }, {  47,3338 }, {   0,  50 }, {   0,14879 }, {   0,  50 },
+ {   0,14877 }, {   0,   7 }, {   0,14875 }, {   0,  51 }, {   0,14873 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  61,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,  50 }, {   0,15026 }, {   1,2992 }, {   2,2992 }, {   3,2992 },
+ {   0,  50 }, {   0,14846 }, {   1,2992 }, {   2,2992 }, {   3,2992 },
  {   4,2992 }, {   5,2992 }, {   6,2992 }, {   7,2992 }, {   8,2992 },
  {   9,3262 }, {  10,3262 }, {  11,2992 }, {  12,2992 }, {  13,3262 },
  {  14,2992 }, {  15,2992 }, {  16,2992 }, {  17,2992 }, {  18,2992 },
@@ -1725,7 +1725,7 @@ static const struct yy_trans_info yy_transition[20137] =
 
  { 244,2992 }, { 245,2992 }, { 246,2992 }, { 247,2992 }, { 248,2992 },
  { 249,2992 }, { 250,2992 }, { 251,2992 }, { 252,2992 }, { 253,2992 },
- { 254,2992 }, { 255,2992 }, { 256,2992 }, {   0,  50 }, {   0,14768 },
+ { 254,2992 }, { 255,2992 }, { 256,2992 }, {   0,  50 }, {   0,14588 },
  {   1,4375 }, {   2,4375 }, {   3,4375 }, {   4,4375 }, {   5,4375 },
  {   6,4375 }, {   7,4375 }, {   8,4375 }, {   9,4375 }, {  10,4375 },
  {  11,4375 }, {  12,4375 }, {  13,4375 }, {  14,4375 }, {  15,4375 },
@@ -1782,7 +1782,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 241,4375 }, { 242,4375 }, { 243,4375 }, { 244,4375 }, { 245,4375 },
  { 246,4375 }, { 247,4375 }, { 248,4375 }, { 249,4375 }, { 250,4375 },
  { 251,4375 }, { 252,4375 }, { 253,4375 }, { 254,4375 }, { 255,4375 },
- { 256,4375 }, {   0,  50 }, {   0,14510 }, {   1,2476 }, {   2,2476 },
+ { 256,4375 }, {   0,  50 }, {   0,14330 }, {   1,2476 }, {   2,2476 },
  {   3,2476 }, {   4,2476 }, {   5,2476 }, {   6,2476 }, {   7,2476 },
  {   8,2476 }, {   9,2451 }, {  10,2451 }, {  11,2476 }, {  12,2476 },
  {  13,2451 }, {  14,2476 }, {  15,2476 }, {  16,2476 }, {  17,2476 },
@@ -1839,7 +1839,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 243,2476 }, { 244,2476 }, { 245,2476 }, { 246,2476 }, { 247,2476 },
  { 248,2476 }, { 249,2476 }, { 250,2476 }, { 251,2476 }, { 252,2476 },
  { 253,2476 }, { 254,2476 }, { 255,2476 }, { 256,2476 }, {   0,  50 },
- {   0,14252 }, {   1,2218 }, {   2,2218 }, {   3,2218 }, {   4,2218 },
+ {   0,14072 }, {   1,2218 }, {   2,2218 }, {   3,2218 }, {   4,2218 },
  {   5,2218 }, {   6,2218 }, {   7,2218 }, {   8,2218 }, {   9,2193 },
  {  10,2193 }, {  11,2218 }, {  12,2218 }, {  13,2193 }, {  14,2218 },
  {  15,2218 }, {  16,2218 }, {  17,2218 }, {  18,2218 }, {  19,2218 },
@@ -1895,7 +1895,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 240,2218 }, { 241,2218 }, { 242,2218 }, { 243,2218 }, { 244,2218 },
  { 245,2218 }, { 246,2218 }, { 247,2218 }, { 248,2218 }, { 249,2218 },
  { 250,2218 }, { 251,2218 }, { 252,2218 }, { 253,2218 }, { 254,2218 },
- { 255,2218 }, { 256,2218 }, {   0,  50 }, {   0,13994 }, {   1,1960 },
+ { 255,2218 }, { 256,2218 }, {   0,  50 }, {   0,13814 }, {   1,1960 },
  {   2,1960 }, {   3,1960 }, {   4,1960 }, {   5,1960 }, {   6,1960 },
  {   7,1960 }, {   8,1960 }, {   9,1935 }, {  10,1935 }, {  11,1960 },
 
@@ -1952,7 +1952,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 242,1960 }, { 243,1960 }, { 244,1960 }, { 245,1960 }, { 246,1960 },
  { 247,1960 }, { 248,1960 }, { 249,1960 }, { 250,1960 }, { 251,1960 },
  { 252,1960 }, { 253,1960 }, { 254,1960 }, { 255,1960 }, { 256,1960 },
- {   0,  50 }, {   0,13736 }, {   1,1702 }, {   2,1702 }, {   3,1702 },
+ {   0,  50 }, {   0,13556 }, {   1,1702 }, {   2,1702 }, {   3,1702 },
 
  {   4,1702 }, {   5,1702 }, {   6,1702 }, {   7,1702 }, {   8,1702 },
  {   9,1677 }, {  10,1677 }, {  11,1702 }, {  12,1702 }, {  13,1677 },
@@ -2009,7 +2009,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 244,1702 }, { 245,1702 }, { 246,1702 }, { 247,1702 }, { 248,1702 },
  { 249,1702 }, { 250,1702 }, { 251,1702 }, { 252,1702 }, { 253,1702 },
 
- { 254,1702 }, { 255,1702 }, { 256,1702 }, {   0,  50 }, {   0,13478 },
+ { 254,1702 }, { 255,1702 }, { 256,1702 }, {   0,  50 }, {   0,13298 },
  {   1,1444 }, {   2,1444 }, {   3,1444 }, {   4,1444 }, {   5,1444 },
  {   6,1444 }, {   7,1444 }, {   8,1444 }, {   9,1419 }, {  10,1419 },
  {  11,1444 }, {  12,1444 }, {  13,1419 }, {  14,1444 }, {  15,1444 },
@@ -2066,7 +2066,7 @@ static const struct yy_trans_info yy_transition[20137] =
 
  { 246,1444 }, { 247,1444 }, { 248,1444 }, { 249,1444 }, { 250,1444 },
  { 251,1444 }, { 252,1444 }, { 253,1444 }, { 254,1444 }, { 255,1444 },
- { 256,1444 }, {   0,  51 }, {   0,13220 }, {   1,4769 }, {   2,4769 },
+ { 256,1444 }, {   0,  51 }, {   0,13040 }, {   1,4769 }, {   2,4769 },
  {   3,4769 }, {   4,4769 }, {   5,4769 }, {   6,4769 }, {   7,4769 },
  {   8,4769 }, {   9,4769 }, {  10,4769 }, {  11,4769 }, {  12,4769 },
  {  13,4769 }, {  14,4769 }, {  15,4769 }, {  16,4769 }, {  17,4769 },
@@ -2123,7 +2123,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 243,4769 }, { 244,4769 }, { 245,4769 }, { 246,4769 }, { 247,4769 },
  { 248,4769 }, { 249,4769 }, { 250,4769 }, { 251,4769 }, { 252,4769 },
  { 253,4769 }, { 254,4769 }, { 255,4769 }, { 256,4769 }, {   0,  51 },
- {   0,12962 }, {   1,4511 }, {   2,4511 }, {   3,4511 }, {   4,4511 },
+ {   0,12782 }, {   1,4511 }, {   2,4511 }, {   3,4511 }, {   4,4511 },
  {   5,4511 }, {   6,4511 }, {   7,4511 }, {   8,4511 }, {   9,4511 },
  {  10,4511 }, {  11,4511 }, {  12,4511 }, {  13,4511 }, {  14,4511 },
  {  15,4511 }, {  16,4511 }, {  17,4511 }, {  18,4511 }, {  19,4511 },
@@ -2179,7 +2179,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 240,4511 }, { 241,4511 }, { 242,4511 }, { 243,4511 }, { 244,4511 },
  { 245,4511 }, { 246,4511 }, { 247,4511 }, { 248,4511 }, { 249,4511 },
  { 250,4511 }, { 251,4511 }, { 252,4511 }, { 253,4511 }, { 254,4511 },
- { 255,4511 }, { 256,4511 }, {   0,  10 }, {   0,12704 }, {   1,4769 },
+ { 255,4511 }, { 256,4511 }, {   0,  10 }, {   0,12524 }, {   1,4769 },
  {   2,4769 }, {   3,4769 }, {   4,4769 }, {   5,4769 }, {   6,4769 },
  {   7,4769 }, {   8,4769 }, {   9,4769 }, {  10,4769 }, {  11,4769 },
  {  12,4769 }, {  13,4769 }, {  14,4769 }, {  15,4769 }, {  16,4769 },
@@ -2236,7 +2236,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 242,4769 }, { 243,4769 }, { 244,4769 }, { 245,4769 }, { 246,4769 },
  { 247,4769 }, { 248,4769 }, { 249,4769 }, { 250,4769 }, { 251,4769 },
  { 252,4769 }, { 253,4769 }, { 254,4769 }, { 255,4769 }, {   0,  11 },
- {   0,12447 }, {   0,   2 }, {   0,12445 }, {   0,   0 }, {   0,12443 },
+ {   0,12267 }, {   0,   2 }, {   0,12265 }, {   0,   0 }, {   0,12263 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 },
 
@@ -2264,7 +2264,7 @@ static const struct yy_trans_info yy_transition[20137] =
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,4769 }, {   0,   2 },
- {   0,12322 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
+ {   0,12142 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
  {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
  {  10,-123 }, {  11,   0 }, {  12,   0 }, {  13,-123 }, {  14,   0 },
  {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
@@ -2320,13 +2320,13 @@ static const struct yy_trans_info yy_transition[20137] =
  { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
  { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
  { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
- { 255,   0 }, {   0,   0 }, {   0,12065 }, {   0,   0 }, {   0,12063 },
- {   0,   5 }, {   0,12061 }, {   0,  48 }, {   0,12059 }, {   0,   0 },
+ { 255,   0 }, {   0,   0 }, {   0,11885 }, {   0,   0 }, {   0,11883 },
+ {   0,   5 }, {   0,11881 }, {   0,  48 }, {   0,11879 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,12034 }, {   1,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,11854 }, {   1,   0 },
 
  {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
  {   7,   0 }, {   8,   0 }, {   9, -25 }, {  10, -25 }, {  11,   0 },
@@ -2384,14 +2384,14 @@ static const struct yy_trans_info yy_transition[20137] =
  { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
 
  { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
- {   0,  35 }, {   0,11776 }, {   0,  38 }, {   0,11774 }, {   0,  39 },
- {   0,11772 }, {   0,  33 }, {   0,11770 }, {   0,  32 }, {   0,11768 },
- {   9,   0 }, {  10,   0 }, {   0,  47 }, {   0,11764 }, {  13,   0 },
- {   0,  49 }, {   0,11761 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  35 }, {   0,11596 }, {   0,  38 }, {   0,11594 }, {   0,  39 },
+ {   0,11592 }, {   0,  33 }, {   0,11590 }, {   0,  32 }, {   0,11588 },
+ {   9,   0 }, {  10,   0 }, {   0,  47 }, {   0,11584 }, {  13,   0 },
+ {   0,  49 }, {   0,11581 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 },
- {   0,11742 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
+ {   0,11562 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
  {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
 
  {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 }, {  14,   0 },
@@ -2447,7 +2447,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
  { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
  { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
- { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,11484 }, {   1,-258 },
+ { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,11304 }, {   1,-258 },
 
  {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 },
  {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 },
@@ -2505,7 +2505,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 },
 
  { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 },
- {   0,   0 }, {   0,11226 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   0,   0 }, {   0,11046 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
  {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
  {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
  {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
@@ -2561,7 +2561,7 @@ static const struct yy_trans_info yy_transition[20137] =
 
  { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
  { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,10968 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,10788 },
  {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
  {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
  {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 },
@@ -2618,7 +2618,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
  { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
  { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
- { 256,-258 }, {   0,   0 }, {   0,10710 }, {   1,-1324 }, {   2,-1324 },
+ { 256,-258 }, {   0,   0 }, {   0,10530 }, {   1,-1324 }, {   2,-1324 },
  {   3,-1324 }, {   4,-1324 }, {   5,-1324 }, {   6,-1324 }, {   7,-1324 },
  {   8,-1324 }, {   9,-1054 }, {  10,-1054 }, {  11,-1324 }, {  12,-1324 },
  {  13,-1054 }, {  14,-1324 }, {  15,-1324 }, {  16,-1324 }, {  17,-1324 },
@@ -2675,7 +2675,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 243,-1324 }, { 244,-1324 }, { 245,-1324 }, { 246,-1324 }, { 247,-1324 },
  { 248,-1324 }, { 249,-1324 }, { 250,-1324 }, { 251,-1324 }, { 252,-1324 },
  { 253,-1324 }, { 254,-1324 }, { 255,-1324 }, { 256,-1324 }, {   0,  48 },
- {   0,10452 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,10272 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -2687,7 +2687,7 @@ static const struct yy_trans_info yy_transition[20137] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  48,3676 }, {  49,3676 },
  {  50,3676 }, {  51,3676 }, {  52,3676 }, {  53,3676 }, {  54,3676 },
- {  55,3676 }, {  56,3676 }, {  57,3676 }, {   0,   0 }, {   0,10393 },
+ {  55,3676 }, {  56,3676 }, {  57,3676 }, {   0,   0 }, {   0,10213 },
  {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 },
  {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,   0 },
 
@@ -2744,7 +2744,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 },
  { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 },
  { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 },
- { 256,   0 }, {   0,   0 }, {   0,10135 }, {   1,-258 }, {   2,-258 },
+ { 256,   0 }, {   0,   0 }, {   0,9955 }, {   1,-258 }, {   2,-258 },
 
  {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 }, {   7,-258 },
  {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 }, {  12,-258 },
@@ -2802,7 +2802,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 }, { 252,-258 },
 
  { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 }, {   0,   0 },
- {   0,9877 }, {   1,-2157 }, {   2,-2157 }, {   3,-2157 }, {   4,-2157 },
+ {   0,9697 }, {   1,-2157 }, {   2,-2157 }, {   3,-2157 }, {   4,-2157 },
  {   5,-2157 }, {   6,-2157 }, {   7,-2157 }, {   8,-2157 }, {   9,2296 },
  {  10,2296 }, {  11,-2157 }, {  12,-2157 }, {  13,2296 }, {  14,-2157 },
  {  15,-2157 }, {  16,-2157 }, {  17,-2157 }, {  18,-2157 }, {  19,-2157 },
@@ -2858,7 +2858,7 @@ static const struct yy_trans_info yy_transition[20137] =
 
  { 245,-2157 }, { 246,-2157 }, { 247,-2157 }, { 248,-2157 }, { 249,-2157 },
  { 250,-2157 }, { 251,-2157 }, { 252,-2157 }, { 253,-2157 }, { 254,-2157 },
- { 255,-2157 }, { 256,-2157 }, {   0,   0 }, {   0,9619 }, {   1,-2415 },
+ { 255,-2157 }, { 256,-2157 }, {   0,   0 }, {   0,9439 }, {   1,-2415 },
  {   2,-2415 }, {   3,-2415 }, {   4,-2415 }, {   5,-2415 }, {   6,-2415 },
  {   7,-2415 }, {   8,-2415 }, {   9,-2440 }, {  10,-2440 }, {  11,-2415 },
  {  12,-2415 }, {  13,-2440 }, {  14,-2415 }, {  15,-2415 }, {  16,-2415 },
@@ -2915,7 +2915,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 242,-2415 }, { 243,-2415 }, { 244,-2415 }, { 245,-2415 }, { 246,-2415 },
  { 247,-2415 }, { 248,-2415 }, { 249,-2415 }, { 250,-2415 }, { 251,-2415 },
  { 252,-2415 }, { 253,-2415 }, { 254,-2415 }, { 255,-2415 }, { 256,-2415 },
- {   0,   0 }, {   0,9361 }, {   1,-2673 }, {   2,-2673 }, {   3,-2673 },
+ {   0,   0 }, {   0,9181 }, {   1,-2673 }, {   2,-2673 }, {   3,-2673 },
  {   4,-2673 }, {   5,-2673 }, {   6,-2673 }, {   7,-2673 }, {   8,-2673 },
  {   9,-2698 }, {  10,-2698 }, {  11,-2673 }, {  12,-2673 }, {  13,-2698 },
  {  14,-2673 }, {  15,-2673 }, {  16,-2673 }, {  17,-2673 }, {  18,-2673 },
@@ -2971,7 +2971,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 239,-2673 }, { 240,-2673 }, { 241,-2673 }, { 242,-2673 }, { 243,-2673 },
  { 244,-2673 }, { 245,-2673 }, { 246,-2673 }, { 247,-2673 }, { 248,-2673 },
  { 249,-2673 }, { 250,-2673 }, { 251,-2673 }, { 252,-2673 }, { 253,-2673 },
- { 254,-2673 }, { 255,-2673 }, { 256,-2673 }, {   0,   0 }, {   0,9103 },
+ { 254,-2673 }, { 255,-2673 }, { 256,-2673 }, {   0,   0 }, {   0,8923 },
  {   1,-2931 }, {   2,-2931 }, {   3,-2931 }, {   4,-2931 }, {   5,-2931 },
  {   6,-2931 }, {   7,-2931 }, {   8,-2931 }, {   9,-2956 }, {  10,-2956 },
  {  11,-2931 }, {  12,-2931 }, {  13,-2956 }, {  14,-2931 }, {  15,-2931 },
@@ -3028,7 +3028,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 241,-2931 }, { 242,-2931 }, { 243,-2931 }, { 244,-2931 }, { 245,-2931 },
  { 246,-2931 }, { 247,-2931 }, { 248,-2931 }, { 249,-2931 }, { 250,-2931 },
  { 251,-2931 }, { 252,-2931 }, { 253,-2931 }, { 254,-2931 }, { 255,-2931 },
- { 256,-2931 }, {   0,   0 }, {   0,8845 }, {   1,-3189 }, {   2,-3189 },
+ { 256,-2931 }, {   0,   0 }, {   0,8665 }, {   1,-3189 }, {   2,-3189 },
  {   3,-3189 }, {   4,-3189 }, {   5,-3189 }, {   6,-3189 }, {   7,-3189 },
  {   8,-3189 }, {   9,-3214 }, {  10,-3214 }, {  11,-3189 }, {  12,-3189 },
 
@@ -3085,16 +3085,16 @@ static const struct yy_trans_info yy_transition[20137] =
  { 243,-3189 }, { 244,-3189 }, { 245,-3189 }, { 246,-3189 }, { 247,-3189 },
  { 248,-3189 }, { 249,-3189 }, { 250,-3189 }, { 251,-3189 }, { 252,-3189 },
  { 253,-3189 }, { 254,-3189 }, { 255,-3189 }, { 256,-3189 }, {   0,  30 },
- {   0,8587 }, {   0,  37 }, {   0,8585 }, {   0,   0 }, {   0,8583 },
+ {   0,8407 }, {   0,  37 }, {   0,8405 }, {   0,   0 }, {   0,8403 },
 
- {   0,   0 }, {   0,8581 }, {   0,   0 }, {   0,8579 }, {   9,3229 },
- {  10,3229 }, {   0,  13 }, {   0,8575 }, {  13,3229 }, {   0,   0 },
+ {   0,   0 }, {   0,8401 }, {   0,   0 }, {   0,8399 }, {   9,3229 },
+ {  10,3229 }, {   0,  13 }, {   0,8395 }, {  13,3229 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  32,3229 }, {  33,1813 }, {   0,   0 },
  {  35,1815 }, {   0,   0 }, {   0,   0 }, {  38,1817 }, {   0,   0 },
- {   0,   0 }, {  33,3242 }, {  42,1819 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  33,3248 }, {  42,1819 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  47,1823 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
@@ -3111,11 +3111,11 @@ static const struct yy_trans_info yy_transition[20137] =
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 115,3235 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,3237 }, {   0,   0 },
- {   0,   0 }, { 126,3244 }, { 125,3239 }, {   0,   0 }, { 125,3242 },
- {   0,   0 }, { 125,3242 }, {   0,   0 }, {   0,   0 }, { 126,3244 },
- {   0,   0 }, {   0,8451 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,3235 }, {   0,   0 },
+ {   0,   0 }, { 126,3237 }, { 125,3247 }, {   0,   0 }, { 125,3248 },
+ {   0,   0 }, { 125,3248 }, {   0,   0 }, {   0,   0 }, { 126,3250 },
+ {   0,   0 }, {   0,8271 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
  {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
  {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
  {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
@@ -3171,7 +3171,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
  { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
  { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,8193 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,8013 },
  {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
  {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
 
@@ -3228,7 +3228,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
  { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
  { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
- { 256,-258 }, {   0,  10 }, {   0,7935 }, {   1,   0 }, {   2,   0 },
+ { 256,-258 }, {   0,  10 }, {   0,7755 }, {   1,   0 }, {   2,   0 },
 
  {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
  {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 },
@@ -3285,9 +3285,9 @@ static const struct yy_trans_info yy_transition[20137] =
  { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
  { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
 
- { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   0 }, {   0,7678 },
- {   0,   0 }, {   0,7676 }, {   0,   0 }, {   0,7674 }, {   0,   5 },
- {   0,7672 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   0 }, {   0,7498 },
+ {   0,   0 }, {   0,7496 }, {   0,   0 }, {   0,7494 }, {   0,   5 },
+ {   0,7492 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3307,70 +3307,70 @@ static const struct yy_trans_info yy_transition[20137] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
- {   0,  48 }, {   0,7581 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  48 }, {   0,7401 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, { 123,2347 }, {   0,   0 }, { 123,2348 },
- {   0,   0 }, { 123,2350 }, {   0,   4 }, {   0,7549 }, {   1,2350 },
- {   2,2350 }, {   3,2350 }, {   4,2350 }, {   5,2350 }, {   6,2350 },
- {   7,2350 }, {   8,2350 }, {   9,2350 }, {  10,2227 }, {  11,2350 },
- {  12,2350 }, {  13,2227 }, {  14,2350 }, {  15,2350 }, {  16,2350 },
+ {   0,   0 }, {   0,   0 }, { 123,2351 }, {   0,   0 }, { 123,2354 },
+ {   0,   0 }, { 123,2354 }, {   0,   4 }, {   0,7369 }, {   1,2354 },
+ {   2,2354 }, {   3,2354 }, {   4,2354 }, {   5,2354 }, {   6,2354 },
+ {   7,2354 }, {   8,2354 }, {   9,2354 }, {  10,2239 }, {  11,2354 },
+ {  12,2354 }, {  13,2239 }, {  14,2354 }, {  15,2354 }, {  16,2354 },
 
- {  17,2350 }, {  18,2350 }, {  19,2350 }, {  20,2350 }, {  21,2350 },
- {  22,2350 }, {  23,2350 }, {  24,2350 }, {  25,2350 }, {  26,2350 },
- {  27,2350 }, {  28,2350 }, {  29,2350 }, {  30,2350 }, {  31,2350 },
- {  32,2350 }, {  33,2350 }, {  34,2350 }, {  35,2350 }, {  36,2350 },
- {  37,2350 }, {  38,2350 }, {  39,2350 }, {  40,2350 }, {  41,2350 },
- {  42,2350 }, {  43,2350 }, {  44,2350 }, {  45,2350 }, {  46,2350 },
- {  47,2350 }, {  48,2350 }, {  49,2350 }, {  50,2350 }, {  51,2350 },
- {  52,2350 }, {  53,2350 }, {  54,2350 }, {  55,2350 }, {  56,2350 },
- {  57,2350 }, {  58,2350 }, {  59,2350 }, {  60,2350 }, {  61,2350 },
- {  62,2350 }, {  63,2350 }, {  64,2350 }, {  65,2350 }, {  66,2350 },
+ {  17,2354 }, {  18,2354 }, {  19,2354 }, {  20,2354 }, {  21,2354 },
+ {  22,2354 }, {  23,2354 }, {  24,2354 }, {  25,2354 }, {  26,2354 },
+ {  27,2354 }, {  28,2354 }, {  29,2354 }, {  30,2354 }, {  31,2354 },
+ {  32,2354 }, {  33,2354 }, {  34,2354 }, {  35,2354 }, {  36,2354 },
+ {  37,2354 }, {  38,2354 }, {  39,2354 }, {  40,2354 }, {  41,2354 },
+ {  42,2354 }, {  43,2354 }, {  44,2354 }, {  45,2354 }, {  46,2354 },
+ {  47,2354 }, {  48,2354 }, {  49,2354 }, {  50,2354 }, {  51,2354 },
+ {  52,2354 }, {  53,2354 }, {  54,2354 }, {  55,2354 }, {  56,2354 },
+ {  57,2354 }, {  58,2354 }, {  59,2354 }, {  60,2354 }, {  61,2354 },
+ {  62,2354 }, {  63,2354 }, {  64,2354 }, {  65,2354 }, {  66,2354 },
 
- {  67,2350 }, {  68,2350 }, {  69,2350 }, {  70,2350 }, {  71,2350 },
- {  72,2350 }, {  73,2350 }, {  74,2350 }, {  75,2350 }, {  76,2350 },
- {  77,2350 }, {  78,2350 }, {  79,2350 }, {  80,2350 }, {  81,2350 },
- {  82,2350 }, {  83,2350 }, {  84,2350 }, {  85,2350 }, {  86,2350 },
- {  87,2350 }, {  88,2350 }, {  89,2350 }, {  90,2350 }, {  91,2350 },
- { 124,2263 }, {  93,2350 }, {  94,2350 }, {  95,2350 }, {  96,2350 },
- {  97,2350 }, {  98,2350 }, {  99,2350 }, { 100,2350 }, { 101,2350 },
- { 102,2350 }, { 103,2350 }, { 104,2350 }, { 105,2350 }, { 106,2350 },
- { 107,2350 }, { 108,2350 }, { 109,2350 }, { 110,2350 }, { 111,2350 },
- { 112,2350 }, { 113,2350 }, { 114,2350 }, { 115,2350 }, { 116,2350 },
+ {  67,2354 }, {  68,2354 }, {  69,2354 }, {  70,2354 }, {  71,2354 },
+ {  72,2354 }, {  73,2354 }, {  74,2354 }, {  75,2354 }, {  76,2354 },
+ {  77,2354 }, {  78,2354 }, {  79,2354 }, {  80,2354 }, {  81,2354 },
+ {  82,2354 }, {  83,2354 }, {  84,2354 }, {  85,2354 }, {  86,2354 },
+ {  87,2354 }, {  88,2354 }, {  89,2354 }, {  90,2354 }, {  91,2354 },
+ { 124,2277 }, {  93,2354 }, {  94,2354 }, {  95,2354 }, {  96,2354 },
+ {  97,2354 }, {  98,2354 }, {  99,2354 }, { 100,2354 }, { 101,2354 },
+ { 102,2354 }, { 103,2354 }, { 104,2354 }, { 105,2354 }, { 106,2354 },
+ { 107,2354 }, { 108,2354 }, { 109,2354 }, { 110,2354 }, { 111,2354 },
+ { 112,2354 }, { 113,2354 }, { 114,2354 }, { 115,2354 }, { 116,2354 },
 
- { 117,2350 }, { 118,2350 }, { 119,2350 }, { 120,2350 }, { 121,2350 },
- { 122,2350 }, { 123,2607 }, { 124,2350 }, { 125,2350 }, { 126,2350 },
- { 127,2350 }, { 128,2350 }, { 129,2350 }, { 130,2350 }, { 131,2350 },
- { 132,2350 }, { 133,2350 }, { 134,2350 }, { 135,2350 }, { 136,2350 },
- { 137,2350 }, { 138,2350 }, { 139,2350 }, { 140,2350 }, { 141,2350 },
- { 142,2350 }, { 143,2350 }, { 144,2350 }, { 145,2350 }, { 146,2350 },
- { 147,2350 }, { 148,2350 }, { 149,2350 }, { 150,2350 }, { 151,2350 },
- { 152,2350 }, { 153,2350 }, { 154,2350 }, { 155,2350 }, { 156,2350 },
- { 157,2350 }, { 158,2350 }, { 159,2350 }, { 160,2350 }, { 161,2350 },
- { 162,2350 }, { 163,2350 }, { 164,2350 }, { 165,2350 }, { 166,2350 },
+ { 117,2354 }, { 118,2354 }, { 119,2354 }, { 120,2354 }, { 121,2354 },
+ { 122,2354 }, { 123,2611 }, { 124,2354 }, { 125,2354 }, { 126,2354 },
+ { 127,2354 }, { 128,2354 }, { 129,2354 }, { 130,2354 }, { 131,2354 },
+ { 132,2354 }, { 133,2354 }, { 134,2354 }, { 135,2354 }, { 136,2354 },
+ { 137,2354 }, { 138,2354 }, { 139,2354 }, { 140,2354 }, { 141,2354 },
+ { 142,2354 }, { 143,2354 }, { 144,2354 }, { 145,2354 }, { 146,2354 },
+ { 147,2354 }, { 148,2354 }, { 149,2354 }, { 150,2354 }, { 151,2354 },
+ { 152,2354 }, { 153,2354 }, { 154,2354 }, { 155,2354 }, { 156,2354 },
+ { 157,2354 }, { 158,2354 }, { 159,2354 }, { 160,2354 }, { 161,2354 },
+ { 162,2354 }, { 163,2354 }, { 164,2354 }, { 165,2354 }, { 166,2354 },
 
- { 167,2350 }, { 168,2350 }, { 169,2350 }, { 170,2350 }, { 171,2350 },
- { 172,2350 }, { 173,2350 }, { 174,2350 }, { 175,2350 }, { 176,2350 },
- { 177,2350 }, { 178,2350 }, { 179,2350 }, { 180,2350 }, { 181,2350 },
- { 182,2350 }, { 183,2350 }, { 184,2350 }, { 185,2350 }, { 186,2350 },
- { 187,2350 }, { 188,2350 }, { 189,2350 }, { 190,2350 }, { 191,2350 },
- { 192,2350 }, { 193,2350 }, { 194,2350 }, { 195,2350 }, { 196,2350 },
- { 197,2350 }, { 198,2350 }, { 199,2350 }, { 200,2350 }, { 201,2350 },
- { 202,2350 }, { 203,2350 }, { 204,2350 }, { 205,2350 }, { 206,2350 },
- { 207,2350 }, { 208,2350 }, { 209,2350 }, { 210,2350 }, { 211,2350 },
- { 212,2350 }, { 213,2350 }, { 214,2350 }, { 215,2350 }, { 216,2350 },
+ { 167,2354 }, { 168,2354 }, { 169,2354 }, { 170,2354 }, { 171,2354 },
+ { 172,2354 }, { 173,2354 }, { 174,2354 }, { 175,2354 }, { 176,2354 },
+ { 177,2354 }, { 178,2354 }, { 179,2354 }, { 180,2354 }, { 181,2354 },
+ { 182,2354 }, { 183,2354 }, { 184,2354 }, { 185,2354 }, { 186,2354 },
+ { 187,2354 }, { 188,2354 }, { 189,2354 }, { 190,2354 }, { 191,2354 },
+ { 192,2354 }, { 193,2354 }, { 194,2354 }, { 195,2354 }, { 196,2354 },
+ { 197,2354 }, { 198,2354 }, { 199,2354 }, { 200,2354 }, { 201,2354 },
+ { 202,2354 }, { 203,2354 }, { 204,2354 }, { 205,2354 }, { 206,2354 },
+ { 207,2354 }, { 208,2354 }, { 209,2354 }, { 210,2354 }, { 211,2354 },
+ { 212,2354 }, { 213,2354 }, { 214,2354 }, { 215,2354 }, { 216,2354 },
 
- { 217,2350 }, { 218,2350 }, { 219,2350 }, { 220,2350 }, { 221,2350 },
- { 222,2350 }, { 223,2350 }, { 224,2350 }, { 225,2350 }, { 226,2350 },
- { 227,2350 }, { 228,2350 }, { 229,2350 }, { 230,2350 }, { 231,2350 },
- { 232,2350 }, { 233,2350 }, { 234,2350 }, { 235,2350 }, { 236,2350 },
- { 237,2350 }, { 238,2350 }, { 239,2350 }, { 240,2350 }, { 241,2350 },
- { 242,2350 }, { 243,2350 }, { 244,2350 }, { 245,2350 }, { 246,2350 },
- { 247,2350 }, { 248,2350 }, { 249,2350 }, { 250,2350 }, { 251,2350 },
- { 252,2350 }, { 253,2350 }, { 254,2350 }, { 255,2350 }, {   0,  38 },
- {   0,7292 }, {   1,-4450 }, {   2,-4450 }, {   3,-4450 }, {   4,-4450 },
+ { 217,2354 }, { 218,2354 }, { 219,2354 }, { 220,2354 }, { 221,2354 },
+ { 222,2354 }, { 223,2354 }, { 224,2354 }, { 225,2354 }, { 226,2354 },
+ { 227,2354 }, { 228,2354 }, { 229,2354 }, { 230,2354 }, { 231,2354 },
+ { 232,2354 }, { 233,2354 }, { 234,2354 }, { 235,2354 }, { 236,2354 },
+ { 237,2354 }, { 238,2354 }, { 239,2354 }, { 240,2354 }, { 241,2354 },
+ { 242,2354 }, { 243,2354 }, { 244,2354 }, { 245,2354 }, { 246,2354 },
+ { 247,2354 }, { 248,2354 }, { 249,2354 }, { 250,2354 }, { 251,2354 },
+ { 252,2354 }, { 253,2354 }, { 254,2354 }, { 255,2354 }, {   0,  38 },
+ {   0,7112 }, {   1,-4450 }, {   2,-4450 }, {   3,-4450 }, {   4,-4450 },
  {   5,-4450 }, {   6,-4450 }, {   7,-4450 }, {   8,-4450 }, {   9,-4450 },
 
  {  10,-4450 }, {  11,-4450 }, {  12,-4450 }, {  13,-4450 }, {  14,-4450 },
@@ -3426,7 +3426,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 240,-4450 }, { 241,-4450 }, { 242,-4450 }, { 243,-4450 }, { 244,-4450 },
  { 245,-4450 }, { 246,-4450 }, { 247,-4450 }, { 248,-4450 }, { 249,-4450 },
  { 250,-4450 }, { 251,-4450 }, { 252,-4450 }, { 253,-4450 }, { 254,-4450 },
- { 255,-4450 }, { 256,-4450 }, {   0,  39 }, {   0,7034 }, {   1,-4192 },
+ { 255,-4450 }, { 256,-4450 }, {   0,  39 }, {   0,6854 }, {   1,-4192 },
 
  {   2,-4192 }, {   3,-4192 }, {   4,-4192 }, {   5,-4192 }, {   6,-4192 },
  {   7,-4192 }, {   8,-4192 }, {   9,-4192 }, {  10,-4192 }, {  11,-4192 },
@@ -3484,21 +3484,21 @@ static const struct yy_trans_info yy_transition[20137] =
  { 247,-4192 }, { 248,-4192 }, { 249,-4192 }, { 250,-4192 }, { 251,-4192 },
 
  { 252,-4192 }, { 253,-4192 }, { 254,-4192 }, { 255,-4192 }, { 256,-4192 },
- {   0,   0 }, {   0,6776 }, {   0,  29 }, {   0,6774 }, {   0,  20 },
- {   0,6772 }, {   0,  27 }, {   0,6770 }, {   0,  30 }, {   0,6768 },
- {   9,1456 }, {  10,1456 }, {   0,  21 }, {   0,6764 }, {  13,1456 },
- {   0,  18 }, {   0,6761 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,6596 }, {   0,  29 }, {   0,6594 }, {   0,  20 },
+ {   0,6592 }, {   0,  27 }, {   0,6590 }, {   0,  30 }, {   0,6588 },
+ {   9,1470 }, {  10,1470 }, {   0,  21 }, {   0,6584 }, {  13,1470 },
+ {   0,  18 }, {   0,6581 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,1456 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,1470 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,1456 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,1470 }, {   0,   0 }, {   0,   0 },
 
- {   0,   0 }, {   0,   0 }, {  42,1466 }, {  45,1461 }, {  48,   0 },
+ {   0,   0 }, {   0,   0 }, {  42,1478 }, {  45,1476 }, {  48,   0 },
  {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
  {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  62,1469 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  62,1480 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3511,7 +3511,7 @@ static const struct yy_trans_info yy_transition[20137] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 125,1456 }, { 126,1456 }, {   0,  49 }, {   0,6648 },
+ {   0,   0 }, { 125,1470 }, { 126,1470 }, {   0,  49 }, {   0,6468 },
  {   1,-3745 }, {   2,-3745 }, {   3,-3745 }, {   4,-3745 }, {   5,-3745 },
  {   6,-3745 }, {   7,-3745 }, {   8,-3745 }, {   9,-3745 }, {  10,-3745 },
  {  11,-3745 }, {  12,-3745 }, {  13,-3745 }, {  14,-3745 }, {  15,-3745 },
@@ -3568,7 +3568,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 241,-3745 }, { 242,-3745 }, { 243,-3745 }, { 244,-3745 }, { 245,-3745 },
  { 246,-3745 }, { 247,-3745 }, { 248,-3745 }, { 249,-3745 }, { 250,-3745 },
  { 251,-3745 }, { 252,-3745 }, { 253,-3745 }, { 254,-3745 }, { 255,-3745 },
- { 256,-3745 }, {   0,   0 }, {   0,6390 }, {   1,-5644 }, {   2,-5644 },
+ { 256,-3745 }, {   0,   0 }, {   0,6210 }, {   1,-5644 }, {   2,-5644 },
  {   3,-5644 }, {   4,-5644 }, {   5,-5644 }, {   6,-5644 }, {   7,-5644 },
 
  {   8,-5644 }, {   9,-5669 }, {  10,-5669 }, {  11,-5644 }, {  12,-5644 },
@@ -3594,7 +3594,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 103,-5644 }, { 104,-5644 }, { 105,-5644 }, { 106,-5644 }, { 107,-5644 },
 
  { 108,-5644 }, { 109,-5644 }, { 110,-5644 }, { 111,-5644 }, { 112,-5644 },
- { 113,-5644 }, { 114,-5644 }, { 115,1705 }, { 116,-5644 }, { 117,-5644 },
+ { 113,-5644 }, { 114,-5644 }, { 115,1709 }, { 116,-5644 }, { 117,-5644 },
  { 118,-5644 }, { 119,-5644 }, { 120,-5644 }, { 121,-5644 }, { 122,-5644 },
  {   0,   0 }, { 124,-5669 }, { 125,-5669 }, { 126,-5669 }, { 127,-5644 },
  { 128,-5644 }, { 129,-5644 }, { 130,-5644 }, { 131,-5644 }, { 132,-5644 },
@@ -3626,7 +3626,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 248,-5644 }, { 249,-5644 }, { 250,-5644 }, { 251,-5644 }, { 252,-5644 },
  { 253,-5644 }, { 254,-5644 }, { 255,-5644 }, { 256,-5644 }, {   0,   0 },
 
- {   0,6132 }, {   1,-5902 }, {   2,-5902 }, {   3,-5902 }, {   4,-5902 },
+ {   0,5952 }, {   1,-5902 }, {   2,-5902 }, {   3,-5902 }, {   4,-5902 },
  {   5,-5902 }, {   6,-5902 }, {   7,-5902 }, {   8,-5902 }, {   9,-5927 },
  {  10,-5927 }, {  11,-5902 }, {  12,-5902 }, {  13,-5927 }, {  14,-5902 },
  {  15,-5902 }, {  16,-5902 }, {  17,-5902 }, {  18,-5902 }, {  19,-5902 },
@@ -3649,7 +3649,7 @@ static const struct yy_trans_info yy_transition[20137] =
  {  95,-5902 }, {   0,   0 }, {  97,-5902 }, {  98,-5902 }, {  99,-5902 },
 
  { 100,-5902 }, { 101,-5902 }, { 102,-5902 }, { 103,-5902 }, { 104,-5902 },
- { 105,-5902 }, { 106,-5902 }, { 107,-5902 }, { 108,1705 }, { 109,-5902 },
+ { 105,-5902 }, { 106,-5902 }, { 107,-5902 }, { 108,1709 }, { 109,-5902 },
  { 110,-5902 }, { 111,-5902 }, { 112,-5902 }, { 113,-5902 }, { 114,-5902 },
  { 115,-5902 }, { 116,-5902 }, { 117,-5902 }, { 118,-5902 }, { 119,-5902 },
  { 120,-5902 }, { 121,-5902 }, { 122,-5902 }, {   0,   0 }, { 124,-5927 },
@@ -3682,7 +3682,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 245,-5902 }, { 246,-5902 }, { 247,-5902 }, { 248,-5902 }, { 249,-5902 },
 
  { 250,-5902 }, { 251,-5902 }, { 252,-5902 }, { 253,-5902 }, { 254,-5902 },
- { 255,-5902 }, { 256,-5902 }, {   0,   0 }, {   0,5874 }, {   1,-6160 },
+ { 255,-5902 }, { 256,-5902 }, {   0,   0 }, {   0,5694 }, {   1,-6160 },
  {   2,-6160 }, {   3,-6160 }, {   4,-6160 }, {   5,-6160 }, {   6,-6160 },
  {   7,-6160 }, {   8,-6160 }, {   9,-6185 }, {  10,-6185 }, {  11,-6160 },
  {  12,-6160 }, {  13,-6185 }, {  14,-6160 }, {  15,-6160 }, {  16,-6160 },
@@ -3704,7 +3704,7 @@ static const struct yy_trans_info yy_transition[20137] =
  {  87,-6160 }, {  88,-6160 }, {  89,-6160 }, {  90,-6160 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-6160 }, {   0,   0 },
- {  97,-6160 }, {  98,-6160 }, {  99,-6160 }, { 100,-6160 }, { 101,1705 },
+ {  97,-6160 }, {  98,-6160 }, {  99,-6160 }, { 100,-6160 }, { 101,1709 },
  { 102,-6160 }, { 103,-6160 }, { 104,-6160 }, { 105,-6160 }, { 106,-6160 },
  { 107,-6160 }, { 108,-6160 }, { 109,-6160 }, { 110,-6160 }, { 111,-6160 },
  { 112,-6160 }, { 113,-6160 }, { 114,-6160 }, { 115,-6160 }, { 116,-6160 },
@@ -3739,7 +3739,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 242,-6160 }, { 243,-6160 }, { 244,-6160 }, { 245,-6160 }, { 246,-6160 },
  { 247,-6160 }, { 248,-6160 }, { 249,-6160 }, { 250,-6160 }, { 251,-6160 },
  { 252,-6160 }, { 253,-6160 }, { 254,-6160 }, { 255,-6160 }, { 256,-6160 },
- {   0,   0 }, {   0,5616 }, {   1,-6418 }, {   2,-6418 }, {   3,-6418 },
+ {   0,   0 }, {   0,5436 }, {   1,-6418 }, {   2,-6418 }, {   3,-6418 },
  {   4,-6418 }, {   5,-6418 }, {   6,-6418 }, {   7,-6418 }, {   8,-6418 },
  {   9,-6443 }, {  10,-6443 }, {  11,-6418 }, {  12,-6418 }, {  13,-6443 },
  {  14,-6418 }, {  15,-6418 }, {  16,-6418 }, {  17,-6418 }, {  18,-6418 },
@@ -3761,7 +3761,7 @@ static const struct yy_trans_info yy_transition[20137] =
  {  84,-6418 }, {  85,-6418 }, {  86,-6418 }, {  87,-6418 }, {  88,-6418 },
  {  89,-6418 }, {  90,-6418 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  95,-6418 }, {   0,   0 }, {  97,-6418 }, {  98,-6418 },
- {  99,-6418 }, { 100,-6418 }, { 101,1705 }, { 102,-6418 }, { 103,-6418 },
+ {  99,-6418 }, { 100,-6418 }, { 101,1709 }, { 102,-6418 }, { 103,-6418 },
  { 104,-6418 }, { 105,-6418 }, { 106,-6418 }, { 107,-6418 }, { 108,-6418 },
  { 109,-6418 }, { 110,-6418 }, { 111,-6418 }, { 112,-6418 }, { 113,-6418 },
  { 114,-6418 }, { 115,-6418 }, { 116,-6418 }, { 117,-6418 }, { 118,-6418 },
@@ -3795,841 +3795,928 @@ static const struct yy_trans_info yy_transition[20137] =
  { 239,-6418 }, { 240,-6418 }, { 241,-6418 }, { 242,-6418 }, { 243,-6418 },
  { 244,-6418 }, { 245,-6418 }, { 246,-6418 }, { 247,-6418 }, { 248,-6418 },
  { 249,-6418 }, { 250,-6418 }, { 251,-6418 }, { 252,-6418 }, { 253,-6418 },
- { 254,-6418 }, { 255,-6418 }, { 256,-6418 }, {   0,   0 }, {   0,5358 },
- {   0,  24 }, {   0,5356 }, {   0,   0 }, {   0,5354 }, {   0,   0 },
- {   0,5352 }, {   0,  26 }, {   0,5350 }, {   9,   0 }, {  10,   0 },
- {   0,  36 }, {   0,5346 }, {  13,   0 }, {   0,  30 }, {   0,5343 },
- {   0,   0 }, {   0,5341 }, {   0,  37 }, {   0,5339 }, {   0,   0 },
- {   0,5337 }, {   0,   0 }, {   0,5335 }, {   9, -15 }, {  10, -15 },
-
- {   0,   0 }, {   0,5331 }, {  13, -15 }, {   0,   0 }, {   0,5328 },
- {   0,   0 }, {  32,   0 }, {   0,   1 }, {   0,5324 }, {   0,   4 },
- {   0,5322 }, {   0,  47 }, {   0,5320 }, {   0,  41 }, {   0,5318 },
- {   0,   0 }, {   0,   0 }, {   0,5315 }, {   0,   0 }, {   0,5313 },
- {  10,   0 }, {  32, -15 }, {  33,-1431 }, {  13,   0 }, {  35,-1429 },
- {   0,  20 }, {   0,5306 }, {  38,-1427 }, {   0,  19 }, {   0,5303 },
- {  33,  -2 }, {  42,-1425 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  47,-1421 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,1702 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {  62,-1418 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,2594 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 101,  43 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 101,1707 }, {   0,   0 }, {  94, -13 }, {   0,   0 },
- {   0,   0 }, { 108,1707 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 101, -11 }, { 115,1703 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 115,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, { 125,1705 }, { 126,1707 }, {   0,   0 }, { 115,  -9 },
- { 123,1707 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 125,1707 }, { 123,1702 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 125,1704 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,1809 },
- { 108,2594 }, {   0,   0 }, { 123,2064 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 123,2062 }, {   0,   4 }, {   0,5199 }, {   1,   0 },
- {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
- {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,-123 }, {  11,   0 },
- {  12,   0 }, {  13,-123 }, {  14,   0 }, {  15,   0 }, {  16,   0 },
+ { 254,-6418 }, { 255,-6418 }, { 256,-6418 }, {   0,   0 }, {   0,5178 },
+ {   0,  24 }, {   0,5176 }, {   0,   0 }, {   0,5174 }, {   0,  26 },
+ {   0,5172 }, {   0,  30 }, {   0,5170 }, {   9,   0 }, {  10,   0 },
+ {   9,1707 }, {  10,1707 }, {  13,   0 }, {   0,   0 }, {  13,1707 },
+ {   0,   0 }, {   9,  -8 }, {  10,  -8 }, {   0,  36 }, {   0,5158 },
+ {  13,  -8 }, {   0,   0 }, {   0,5155 }, {   0,  37 }, {   0,5153 },
 
- {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 },
- {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 },
- {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 },
- {  32,   0 }, {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 },
- {  37,   0 }, {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 },
- {  42,   0 }, {  43,   0 }, {  44,   0 }, {  45,   0 }, {  46,   0 },
- {  47,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 },
- {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 },
- {  57,   0 }, {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 },
- {  62,   0 }, {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 },
+ {   0,   0 }, {   0,5151 }, {   0,   0 }, {   0,5149 }, {   0,   0 },
+ {   0,5147 }, {  32,   0 }, {   0,   0 }, {  32,1707 }, {   0,   0 },
+ {   0,5142 }, {   0,   1 }, {   0,5140 }, {   0,   0 }, {  32,  -8 },
+ {  33,-1424 }, {   0,   0 }, {  35,-1422 }, {   0,   0 }, {   0,   0 },
+ {  38,-1420 }, {   0,   4 }, {   0,5130 }, {   0,   0 }, {  42,-1418 },
+ {   0,  47 }, {   0,5126 }, {   0,  41 }, {   0,5124 }, {  47,-1414 },
+ {   0,   0 }, {   0,   0 }, {  10,   0 }, {   0,   0 }, {   0,5118 },
+ {  13,   0 }, {  33,  -2 }, {   0,  20 }, {   0,5114 }, {   0,  19 },
+ {   0,5112 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  62,-1411 },
+ {   0,   0 }, {  45,1701 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
- {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 },
- {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 },
- {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 },
- {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 },
- {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 },
- {   0,   0 }, {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 },
- {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 },
- { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 },
- { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 },
- { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 101,   4 }, {  94,  -6 }, {   0,   0 }, {   0,   0 }, {  45,2046 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, { 101,  -4 }, {   0,   0 },
+ {   0,   0 }, { 108,1711 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
- { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 },
- { 122,   0 }, {   0,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 },
- { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 },
- { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 },
- { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 },
- { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 },
- { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 },
- { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 },
- { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 },
- { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 },
+ {   0,   0 }, { 125,1709 }, { 126,1711 }, { 123,1711 }, {   0,   0 },
+ { 123,1713 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,1704 },
+ {   0,   0 }, {   0,   0 }, { 125,1703 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,1809 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,2062 }, {   0,   0 },
+ { 123,2062 }, {   0,   4 }, {   0,5015 }, {   1,   0 }, {   2,   0 },
+ {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
+ {   8,   0 }, {   9,   0 }, {  10,-115 }, {  11,   0 }, {  12,   0 },
 
- { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 },
- { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 },
- { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 },
- { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 },
- { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 },
- { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 },
- { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 },
- { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 },
- { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 },
- { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 },
+ {  13,-115 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
+ {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 },
+ {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 },
+ {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 },
+ {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 },
+ {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 },
+ {  43,   0 }, {  44,   0 }, {  45,   0 }, {  46,   0 }, {  47,   0 },
+ {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
+ {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
+ {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 },
 
- { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 },
- { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 },
- { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 },
- { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 },
- { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 },
- { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 },
- { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
- { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   4 },
- {   0,4942 }, {   1,-257 }, {   2,-257 }, {   3,-257 }, {   4,-257 },
- {   5,-257 }, {   6,-257 }, {   7,-257 }, {   8,-257 }, {   9,-257 },
-
- {  10,-380 }, {  11,-257 }, {  12,-257 }, {  13,-380 }, {  14,-257 },
- {  15,-257 }, {  16,-257 }, {  17,-257 }, {  18,-257 }, {  19,-257 },
- {  20,-257 }, {  21,-257 }, {  22,-257 }, {  23,-257 }, {  24,-257 },
- {  25,-257 }, {  26,-257 }, {  27,-257 }, {  28,-257 }, {  29,-257 },
- {  30,-257 }, {  31,-257 }, {  32,-257 }, {  33,-257 }, {  34,-257 },
- {  35,-257 }, {  36,-257 }, {  37,-257 }, {  38,-257 }, {  39,-257 },
- {  40,-257 }, {  41,-257 }, {  42,-257 }, {  43,-257 }, {  44,-257 },
- {  45,-257 }, {  46,-257 }, {  47,-257 }, {  48,-257 }, {  49,-257 },
- {  50,-257 }, {  51,-257 }, {  52,-257 }, {  53,-257 }, {  54,-257 },
- {  55,-257 }, {  56,-257 }, {  57,-257 }, {  58,-257 }, {  59,-257 },
-
- {  60,-257 }, {  61,-257 }, {  62,-257 }, {  63,-257 }, {  64,-257 },
- {  65,-257 }, {  66,-257 }, {  67,-257 }, {  68,-257 }, {  69,-257 },
- {  70,-257 }, {  71,-257 }, {  72,-257 }, {  73,-257 }, {  74,-257 },
- {  75,-257 }, {  76,-257 }, {  77,-257 }, {  78,-257 }, {  79,-257 },
- {  80,-257 }, {  81,-257 }, {  82,-257 }, {  83,-257 }, {  84,-257 },
- {  85,-257 }, {  86,-257 }, {  87,-257 }, {  88,-257 }, {  89,-257 },
- {  90,-257 }, {  91,-257 }, {   0,   0 }, {  93,-257 }, {  94,-257 },
- {  95,-257 }, {  96,-257 }, {  97,-257 }, {  98,-257 }, {  99,-257 },
- { 100,-257 }, { 101,-257 }, { 102,-257 }, { 103,-257 }, { 104,-257 },
- { 105,-257 }, { 106,-257 }, { 107,-257 }, { 108,-257 }, { 109,-257 },
-
- { 110,-257 }, { 111,-257 }, { 112,-257 }, { 113,-257 }, { 114,-257 },
- { 115,-257 }, { 116,-257 }, { 117,-257 }, { 118,-257 }, { 119,-257 },
- { 120,-257 }, { 121,-257 }, { 122,-257 }, {   0,   0 }, { 124,-257 },
- { 125,-257 }, { 126,-257 }, { 127,-257 }, { 128,-257 }, { 129,-257 },
- { 130,-257 }, { 131,-257 }, { 132,-257 }, { 133,-257 }, { 134,-257 },
- { 135,-257 }, { 136,-257 }, { 137,-257 }, { 138,-257 }, { 139,-257 },
- { 140,-257 }, { 141,-257 }, { 142,-257 }, { 143,-257 }, { 144,-257 },
- { 145,-257 }, { 146,-257 }, { 147,-257 }, { 148,-257 }, { 149,-257 },
- { 150,-257 }, { 151,-257 }, { 152,-257 }, { 153,-257 }, { 154,-257 },
- { 155,-257 }, { 156,-257 }, { 157,-257 }, { 158,-257 }, { 159,-257 },
-
- { 160,-257 }, { 161,-257 }, { 162,-257 }, { 163,-257 }, { 164,-257 },
- { 165,-257 }, { 166,-257 }, { 167,-257 }, { 168,-257 }, { 169,-257 },
- { 170,-257 }, { 171,-257 }, { 172,-257 }, { 173,-257 }, { 174,-257 },
- { 175,-257 }, { 176,-257 }, { 177,-257 }, { 178,-257 }, { 179,-257 },
- { 180,-257 }, { 181,-257 }, { 182,-257 }, { 183,-257 }, { 184,-257 },
- { 185,-257 }, { 186,-257 }, { 187,-257 }, { 188,-257 }, { 189,-257 },
- { 190,-257 }, { 191,-257 }, { 192,-257 }, { 193,-257 }, { 194,-257 },
- { 195,-257 }, { 196,-257 }, { 197,-257 }, { 198,-257 }, { 199,-257 },
- { 200,-257 }, { 201,-257 }, { 202,-257 }, { 203,-257 }, { 204,-257 },
- { 205,-257 }, { 206,-257 }, { 207,-257 }, { 208,-257 }, { 209,-257 },
-
- { 210,-257 }, { 211,-257 }, { 212,-257 }, { 213,-257 }, { 214,-257 },
- { 215,-257 }, { 216,-257 }, { 217,-257 }, { 218,-257 }, { 219,-257 },
- { 220,-257 }, { 221,-257 }, { 222,-257 }, { 223,-257 }, { 224,-257 },
- { 225,-257 }, { 226,-257 }, { 227,-257 }, { 228,-257 }, { 229,-257 },
- { 230,-257 }, { 231,-257 }, { 232,-257 }, { 233,-257 }, { 234,-257 },
- { 235,-257 }, { 236,-257 }, { 237,-257 }, { 238,-257 }, { 239,-257 },
- { 240,-257 }, { 241,-257 }, { 242,-257 }, { 243,-257 }, { 244,-257 },
- { 245,-257 }, { 246,-257 }, { 247,-257 }, { 248,-257 }, { 249,-257 },
- { 250,-257 }, { 251,-257 }, { 252,-257 }, { 253,-257 }, { 254,-257 },
- { 255,-257 }, {   0,   0 }, {   0,4685 }, {   1,-7349 }, {   2,-7349 },
-
- {   3,-7349 }, {   4,-7349 }, {   5,-7349 }, {   6,-7349 }, {   7,-7349 },
- {   8,-7349 }, {   9,-7374 }, {  10,-7374 }, {  11,-7349 }, {  12,-7349 },
- {  13,-7374 }, {  14,-7349 }, {  15,-7349 }, {  16,-7349 }, {  17,-7349 },
- {  18,-7349 }, {  19,-7349 }, {  20,-7349 }, {  21,-7349 }, {  22,-7349 },
- {  23,-7349 }, {  24,-7349 }, {  25,-7349 }, {  26,-7349 }, {  27,-7349 },
- {  28,-7349 }, {  29,-7349 }, {  30,-7349 }, {  31,-7349 }, {  32,-7374 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-7349 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-7374 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-7349 }, {  46,-7374 }, {  47,-7374 },
- {  48,-7349 }, {  49,-7349 }, {  50,-7349 }, {  51,-7349 }, {  52,-7349 },
-
- {  53,-7349 }, {  54,-7349 }, {  55,-7349 }, {  56,-7349 }, {  57,-7349 },
- {  58,-7349 }, {   0,   0 }, {   0,   0 }, {  61,-7374 }, {   0,   0 },
- {  63,-7349 }, {   0,   0 }, {  65,-7349 }, {  66,-7349 }, {  67,-7349 },
- {  68,-7349 }, {  69,-7349 }, {  70,-7349 }, {  71,-7349 }, {  72,-7349 },
- {  73,-7349 }, {  74,-7349 }, {  75,-7349 }, {  76,-7349 }, {  77,-7349 },
- {  78,-7349 }, {  79,-7349 }, {  80,-7349 }, {  81,-7349 }, {  82,-7349 },
- {  83,-7349 }, {  84,-7349 }, {  85,-7349 }, {  86,-7349 }, {  87,-7349 },
- {  88,-7349 }, {  89,-7349 }, {  90,-7349 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-7349 }, {   0,   0 }, {  97,-7349 },
- {  98,-7349 }, {  99,-7349 }, { 100,-7349 }, { 101,1448 }, { 102,-7349 },
-
- { 103,-7349 }, { 104,-7349 }, { 105,-7349 }, { 106,-7349 }, { 107,-7349 },
- { 108,-7349 }, { 109,-7349 }, { 110,-7349 }, { 111,-7349 }, { 112,-7349 },
- { 113,-7349 }, { 114,-7349 }, { 115,-7349 }, { 116,-7349 }, { 117,-7349 },
- { 118,-7349 }, { 119,-7349 }, { 120,-7349 }, { 121,-7349 }, { 122,-7349 },
- {   0,   0 }, { 124,-7374 }, { 125,-7374 }, { 126,-7374 }, { 127,-7349 },
- { 128,-7349 }, { 129,-7349 }, { 130,-7349 }, { 131,-7349 }, { 132,-7349 },
- { 133,-7349 }, { 134,-7349 }, { 135,-7349 }, { 136,-7349 }, { 137,-7349 },
- { 138,-7349 }, { 139,-7349 }, { 140,-7349 }, { 141,-7349 }, { 142,-7349 },
- { 143,-7349 }, { 144,-7349 }, { 145,-7349 }, { 146,-7349 }, { 147,-7349 },
- { 148,-7349 }, { 149,-7349 }, { 150,-7349 }, { 151,-7349 }, { 152,-7349 },
-
- { 153,-7349 }, { 154,-7349 }, { 155,-7349 }, { 156,-7349 }, { 157,-7349 },
- { 158,-7349 }, { 159,-7349 }, { 160,-7349 }, { 161,-7349 }, { 162,-7349 },
- { 163,-7349 }, { 164,-7349 }, { 165,-7349 }, { 166,-7349 }, { 167,-7349 },
- { 168,-7349 }, { 169,-7349 }, { 170,-7349 }, { 171,-7349 }, { 172,-7349 },
- { 173,-7349 }, { 174,-7349 }, { 175,-7349 }, { 176,-7349 }, { 177,-7349 },
- { 178,-7349 }, { 179,-7349 }, { 180,-7349 }, { 181,-7349 }, { 182,-7349 },
- { 183,-7349 }, { 184,-7349 }, { 185,-7349 }, { 186,-7349 }, { 187,-7349 },
- { 188,-7349 }, { 189,-7349 }, { 190,-7349 }, { 191,-7349 }, { 192,-7349 },
- { 193,-7349 }, { 194,-7349 }, { 195,-7349 }, { 196,-7349 }, { 197,-7349 },
- { 198,-7349 }, { 199,-7349 }, { 200,-7349 }, { 201,-7349 }, { 202,-7349 },
-
- { 203,-7349 }, { 204,-7349 }, { 205,-7349 }, { 206,-7349 }, { 207,-7349 },
- { 208,-7349 }, { 209,-7349 }, { 210,-7349 }, { 211,-7349 }, { 212,-7349 },
- { 213,-7349 }, { 214,-7349 }, { 215,-7349 }, { 216,-7349 }, { 217,-7349 },
- { 218,-7349 }, { 219,-7349 }, { 220,-7349 }, { 221,-7349 }, { 222,-7349 },
- { 223,-7349 }, { 224,-7349 }, { 225,-7349 }, { 226,-7349 }, { 227,-7349 },
- { 228,-7349 }, { 229,-7349 }, { 230,-7349 }, { 231,-7349 }, { 232,-7349 },
- { 233,-7349 }, { 234,-7349 }, { 235,-7349 }, { 236,-7349 }, { 237,-7349 },
- { 238,-7349 }, { 239,-7349 }, { 240,-7349 }, { 241,-7349 }, { 242,-7349 },
- { 243,-7349 }, { 244,-7349 }, { 245,-7349 }, { 246,-7349 }, { 247,-7349 },
- { 248,-7349 }, { 249,-7349 }, { 250,-7349 }, { 251,-7349 }, { 252,-7349 },
-
- { 253,-7349 }, { 254,-7349 }, { 255,-7349 }, { 256,-7349 }, {   0,   0 },
- {   0,4427 }, {   1,-7607 }, {   2,-7607 }, {   3,-7607 }, {   4,-7607 },
- {   5,-7607 }, {   6,-7607 }, {   7,-7607 }, {   8,-7607 }, {   9,1167 },
- {  10,1167 }, {  11,-7607 }, {  12,-7607 }, {  13,1167 }, {  14,-7607 },
- {  15,-7607 }, {  16,-7607 }, {  17,-7607 }, {  18,-7607 }, {  19,-7607 },
- {  20,-7607 }, {  21,-7607 }, {  22,-7607 }, {  23,-7607 }, {  24,-7607 },
- {  25,-7607 }, {  26,-7607 }, {  27,-7607 }, {  28,-7607 }, {  29,-7607 },
- {  30,-7607 }, {  31,-7607 }, {  32,1167 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-7607 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,1167 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {  45,-7607 }, {  46,-7632 }, {  47,-7632 }, {  48,-7607 }, {  49,-7607 },
- {  50,-7607 }, {  51,-7607 }, {  52,-7607 }, {  53,-7607 }, {  54,-7607 },
- {  55,-7607 }, {  56,-7607 }, {  57,-7607 }, {  58,-7607 }, {   0,   0 },
- {   0,   0 }, {  61,-7632 }, {   0,   0 }, {  63,-7607 }, {   0,   0 },
- {  65,-7607 }, {  66,-7607 }, {  67,-7607 }, {  68,-7607 }, {  69,-7607 },
- {  70,-7607 }, {  71,-7607 }, {  72,-7607 }, {  73,-7607 }, {  74,-7607 },
- {  75,-7607 }, {  76,-7607 }, {  77,-7607 }, {  78,-7607 }, {  79,-7607 },
- {  80,-7607 }, {  81,-7607 }, {  82,-7607 }, {  83,-7607 }, {  84,-7607 },
- {  85,-7607 }, {  86,-7607 }, {  87,-7607 }, {  88,-7607 }, {  89,-7607 },
- {  90,-7607 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {  95,-7607 }, {   0,   0 }, {  97,-7607 }, {  98,-7607 }, {  99,-7607 },
- { 100,-7607 }, { 101,-7607 }, { 102,-7607 }, { 103,-7607 }, { 104,-7607 },
- { 105,-7607 }, { 106,-7607 }, { 107,-7607 }, { 108,-7607 }, { 109,-7607 },
- { 110,-7607 }, { 111,-7607 }, { 112,-7607 }, { 113,-7607 }, { 114,-7607 },
- { 115,-7607 }, { 116,-7607 }, { 117,-7607 }, { 118,-7607 }, { 119,-7607 },
- { 120,-7607 }, { 121,-7607 }, { 122,-7607 }, {   0,   0 }, { 124,-7632 },
- { 125,1167 }, { 126,1167 }, { 127,-7607 }, { 128,-7607 }, { 129,-7607 },
- { 130,-7607 }, { 131,-7607 }, { 132,-7607 }, { 133,-7607 }, { 134,-7607 },
- { 135,-7607 }, { 136,-7607 }, { 137,-7607 }, { 138,-7607 }, { 139,-7607 },
- { 140,-7607 }, { 141,-7607 }, { 142,-7607 }, { 143,-7607 }, { 144,-7607 },
-
- { 145,-7607 }, { 146,-7607 }, { 147,-7607 }, { 148,-7607 }, { 149,-7607 },
- { 150,-7607 }, { 151,-7607 }, { 152,-7607 }, { 153,-7607 }, { 154,-7607 },
- { 155,-7607 }, { 156,-7607 }, { 157,-7607 }, { 158,-7607 }, { 159,-7607 },
- { 160,-7607 }, { 161,-7607 }, { 162,-7607 }, { 163,-7607 }, { 164,-7607 },
- { 165,-7607 }, { 166,-7607 }, { 167,-7607 }, { 168,-7607 }, { 169,-7607 },
- { 170,-7607 }, { 171,-7607 }, { 172,-7607 }, { 173,-7607 }, { 174,-7607 },
- { 175,-7607 }, { 176,-7607 }, { 177,-7607 }, { 178,-7607 }, { 179,-7607 },
- { 180,-7607 }, { 181,-7607 }, { 182,-7607 }, { 183,-7607 }, { 184,-7607 },
- { 185,-7607 }, { 186,-7607 }, { 187,-7607 }, { 188,-7607 }, { 189,-7607 },
- { 190,-7607 }, { 191,-7607 }, { 192,-7607 }, { 193,-7607 }, { 194,-7607 },
-
- { 195,-7607 }, { 196,-7607 }, { 197,-7607 }, { 198,-7607 }, { 199,-7607 },
- { 200,-7607 }, { 201,-7607 }, { 202,-7607 }, { 203,-7607 }, { 204,-7607 },
- { 205,-7607 }, { 206,-7607 }, { 207,-7607 }, { 208,-7607 }, { 209,-7607 },
- { 210,-7607 }, { 211,-7607 }, { 212,-7607 }, { 213,-7607 }, { 214,-7607 },
- { 215,-7607 }, { 216,-7607 }, { 217,-7607 }, { 218,-7607 }, { 219,-7607 },
- { 220,-7607 }, { 221,-7607 }, { 222,-7607 }, { 223,-7607 }, { 224,-7607 },
- { 225,-7607 }, { 226,-7607 }, { 227,-7607 }, { 228,-7607 }, { 229,-7607 },
- { 230,-7607 }, { 231,-7607 }, { 232,-7607 }, { 233,-7607 }, { 234,-7607 },
- { 235,-7607 }, { 236,-7607 }, { 237,-7607 }, { 238,-7607 }, { 239,-7607 },
- { 240,-7607 }, { 241,-7607 }, { 242,-7607 }, { 243,-7607 }, { 244,-7607 },
-
- { 245,-7607 }, { 246,-7607 }, { 247,-7607 }, { 248,-7607 }, { 249,-7607 },
- { 250,-7607 }, { 251,-7607 }, { 252,-7607 }, { 253,-7607 }, { 254,-7607 },
- { 255,-7607 }, { 256,-7607 }, {   0,   0 }, {   0,4169 }, {   1,-7865 },
- {   2,-7865 }, {   3,-7865 }, {   4,-7865 }, {   5,-7865 }, {   6,-7865 },
- {   7,-7865 }, {   8,-7865 }, {   9, 911 }, {  10, 911 }, {  11,-7865 },
- {  12,-7865 }, {  13, 911 }, {  14,-7865 }, {  15,-7865 }, {  16,-7865 },
- {  17,-7865 }, {  18,-7865 }, {  19,-7865 }, {  20,-7865 }, {  21,-7865 },
- {  22,-7865 }, {  23,-7865 }, {  24,-7865 }, {  25,-7865 }, {  26,-7865 },
- {  27,-7865 }, {  28,-7865 }, {  29,-7865 }, {  30,-7865 }, {  31,-7865 },
- {  32, 911 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-7865 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41, 911 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-7865 }, {  46,-7890 },
- {  47,-7890 }, {  48,-7865 }, {  49,-7865 }, {  50,-7865 }, {  51,-7865 },
- {  52,-7865 }, {  53,-7865 }, {  54,-7865 }, {  55,-7865 }, {  56,-7865 },
- {  57,-7865 }, {  58,-7865 }, {   0,   0 }, {   0,   0 }, {  61,-7890 },
- {   0,   0 }, {  63,-7865 }, {   0,   0 }, {  65,-7865 }, {  66,-7865 },
- {  67,-7865 }, {  68,-7865 }, {  69,-7865 }, {  70,-7865 }, {  71,-7865 },
- {  72,-7865 }, {  73,-7865 }, {  74,-7865 }, {  75,-7865 }, {  76,-7865 },
- {  77,-7865 }, {  78,-7865 }, {  79,-7865 }, {  80,-7865 }, {  81,-7865 },
- {  82,-7865 }, {  83,-7865 }, {  84,-7865 }, {  85,-7865 }, {  86,-7865 },
-
- {  87,-7865 }, {  88,-7865 }, {  89,-7865 }, {  90,-7865 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-7865 }, {   0,   0 },
- {  97,-7865 }, {  98,-7865 }, {  99,-7865 }, { 100,-7865 }, { 101,-7865 },
- { 102,-7865 }, { 103,-7865 }, { 104,-7865 }, { 105,-7865 }, { 106,-7865 },
- { 107,-7865 }, { 108,-7865 }, { 109,-7865 }, { 110,-7865 }, { 111,-7865 },
- { 112,-7865 }, { 113,-7865 }, { 114,-7865 }, { 115,-7865 }, { 116,-7865 },
- { 117,-7865 }, { 118,-7865 }, { 119,-7865 }, { 120,-7865 }, { 121,-7865 },
- { 122,-7865 }, {   0,   0 }, { 124,-7890 }, { 125, 911 }, { 126, 911 },
- { 127,-7865 }, { 128,-7865 }, { 129,-7865 }, { 130,-7865 }, { 131,-7865 },
- { 132,-7865 }, { 133,-7865 }, { 134,-7865 }, { 135,-7865 }, { 136,-7865 },
-
- { 137,-7865 }, { 138,-7865 }, { 139,-7865 }, { 140,-7865 }, { 141,-7865 },
- { 142,-7865 }, { 143,-7865 }, { 144,-7865 }, { 145,-7865 }, { 146,-7865 },
- { 147,-7865 }, { 148,-7865 }, { 149,-7865 }, { 150,-7865 }, { 151,-7865 },
- { 152,-7865 }, { 153,-7865 }, { 154,-7865 }, { 155,-7865 }, { 156,-7865 },
- { 157,-7865 }, { 158,-7865 }, { 159,-7865 }, { 160,-7865 }, { 161,-7865 },
- { 162,-7865 }, { 163,-7865 }, { 164,-7865 }, { 165,-7865 }, { 166,-7865 },
- { 167,-7865 }, { 168,-7865 }, { 169,-7865 }, { 170,-7865 }, { 171,-7865 },
- { 172,-7865 }, { 173,-7865 }, { 174,-7865 }, { 175,-7865 }, { 176,-7865 },
- { 177,-7865 }, { 178,-7865 }, { 179,-7865 }, { 180,-7865 }, { 181,-7865 },
- { 182,-7865 }, { 183,-7865 }, { 184,-7865 }, { 185,-7865 }, { 186,-7865 },
-
- { 187,-7865 }, { 188,-7865 }, { 189,-7865 }, { 190,-7865 }, { 191,-7865 },
- { 192,-7865 }, { 193,-7865 }, { 194,-7865 }, { 195,-7865 }, { 196,-7865 },
- { 197,-7865 }, { 198,-7865 }, { 199,-7865 }, { 200,-7865 }, { 201,-7865 },
- { 202,-7865 }, { 203,-7865 }, { 204,-7865 }, { 205,-7865 }, { 206,-7865 },
- { 207,-7865 }, { 208,-7865 }, { 209,-7865 }, { 210,-7865 }, { 211,-7865 },
- { 212,-7865 }, { 213,-7865 }, { 214,-7865 }, { 215,-7865 }, { 216,-7865 },
- { 217,-7865 }, { 218,-7865 }, { 219,-7865 }, { 220,-7865 }, { 221,-7865 },
- { 222,-7865 }, { 223,-7865 }, { 224,-7865 }, { 225,-7865 }, { 226,-7865 },
- { 227,-7865 }, { 228,-7865 }, { 229,-7865 }, { 230,-7865 }, { 231,-7865 },
- { 232,-7865 }, { 233,-7865 }, { 234,-7865 }, { 235,-7865 }, { 236,-7865 },
-
- { 237,-7865 }, { 238,-7865 }, { 239,-7865 }, { 240,-7865 }, { 241,-7865 },
- { 242,-7865 }, { 243,-7865 }, { 244,-7865 }, { 245,-7865 }, { 246,-7865 },
- { 247,-7865 }, { 248,-7865 }, { 249,-7865 }, { 250,-7865 }, { 251,-7865 },
- { 252,-7865 }, { 253,-7865 }, { 254,-7865 }, { 255,-7865 }, { 256,-7865 },
- {   0,   0 }, {   0,3911 }, {   1,-8123 }, {   2,-8123 }, {   3,-8123 },
- {   4,-8123 }, {   5,-8123 }, {   6,-8123 }, {   7,-8123 }, {   8,-8123 },
- {   9,-8148 }, {  10,-8148 }, {  11,-8123 }, {  12,-8123 }, {  13,-8148 },
- {  14,-8123 }, {  15,-8123 }, {  16,-8123 }, {  17,-8123 }, {  18,-8123 },
- {  19,-8123 }, {  20,-8123 }, {  21,-8123 }, {  22,-8123 }, {  23,-8123 },
- {  24,-8123 }, {  25,-8123 }, {  26,-8123 }, {  27,-8123 }, {  28,-8123 },
-
- {  29,-8123 }, {  30,-8123 }, {  31,-8123 }, {  32,-8148 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,-8123 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,-8148 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-8123 }, {  46,-8148 }, {  47,-8148 }, {  48,-8123 },
- {  49,-8123 }, {  50,-8123 }, {  51,-8123 }, {  52,-8123 }, {  53,-8123 },
- {  54,-8123 }, {  55,-8123 }, {  56,-8123 }, {  57,-8123 }, {  58,-8123 },
- {   0,   0 }, {   0,   0 }, {  61,-8148 }, {   0,   0 }, {  63,-8123 },
- {   0,   0 }, {  65,-8123 }, {  66,-8123 }, {  67,-8123 }, {  68,-8123 },
- {  69,-8123 }, {  70,-8123 }, {  71,-8123 }, {  72,-8123 }, {  73,-8123 },
- {  74,-8123 }, {  75,-8123 }, {  76,-8123 }, {  77,-8123 }, {  78,-8123 },
-
- {  79,-8123 }, {  80,-8123 }, {  81,-8123 }, {  82,-8123 }, {  83,-8123 },
- {  84,-8123 }, {  85,-8123 }, {  86,-8123 }, {  87,-8123 }, {  88,-8123 },
- {  89,-8123 }, {  90,-8123 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-8123 }, {   0,   0 }, {  97,-8123 }, {  98,-8123 },
- {  99,-8123 }, { 100,-8123 }, { 101,-8123 }, { 102, 932 }, { 103,-8123 },
- { 104,-8123 }, { 105,-8123 }, { 106,-8123 }, { 107,-8123 }, { 108,-8123 },
- { 109,-8123 }, { 110,-8123 }, { 111,-8123 }, { 112,-8123 }, { 113,-8123 },
- { 114,-8123 }, { 115,-8123 }, { 116,-8123 }, { 117,-8123 }, { 118,-8123 },
- { 119,-8123 }, { 120,-8123 }, { 121,-8123 }, { 122,-8123 }, {   0,   0 },
- { 124,-8148 }, { 125,-8148 }, { 126,-8148 }, { 127,-8123 }, { 128,-8123 },
-
- { 129,-8123 }, { 130,-8123 }, { 131,-8123 }, { 132,-8123 }, { 133,-8123 },
- { 134,-8123 }, { 135,-8123 }, { 136,-8123 }, { 137,-8123 }, { 138,-8123 },
- { 139,-8123 }, { 140,-8123 }, { 141,-8123 }, { 142,-8123 }, { 143,-8123 },
- { 144,-8123 }, { 145,-8123 }, { 146,-8123 }, { 147,-8123 }, { 148,-8123 },
- { 149,-8123 }, { 150,-8123 }, { 151,-8123 }, { 152,-8123 }, { 153,-8123 },
- { 154,-8123 }, { 155,-8123 }, { 156,-8123 }, { 157,-8123 }, { 158,-8123 },
- { 159,-8123 }, { 160,-8123 }, { 161,-8123 }, { 162,-8123 }, { 163,-8123 },
- { 164,-8123 }, { 165,-8123 }, { 166,-8123 }, { 167,-8123 }, { 168,-8123 },
- { 169,-8123 }, { 170,-8123 }, { 171,-8123 }, { 172,-8123 }, { 173,-8123 },
- { 174,-8123 }, { 175,-8123 }, { 176,-8123 }, { 177,-8123 }, { 178,-8123 },
-
- { 179,-8123 }, { 180,-8123 }, { 181,-8123 }, { 182,-8123 }, { 183,-8123 },
- { 184,-8123 }, { 185,-8123 }, { 186,-8123 }, { 187,-8123 }, { 188,-8123 },
- { 189,-8123 }, { 190,-8123 }, { 191,-8123 }, { 192,-8123 }, { 193,-8123 },
- { 194,-8123 }, { 195,-8123 }, { 196,-8123 }, { 197,-8123 }, { 198,-8123 },
- { 199,-8123 }, { 200,-8123 }, { 201,-8123 }, { 202,-8123 }, { 203,-8123 },
- { 204,-8123 }, { 205,-8123 }, { 206,-8123 }, { 207,-8123 }, { 208,-8123 },
- { 209,-8123 }, { 210,-8123 }, { 211,-8123 }, { 212,-8123 }, { 213,-8123 },
- { 214,-8123 }, { 215,-8123 }, { 216,-8123 }, { 217,-8123 }, { 218,-8123 },
- { 219,-8123 }, { 220,-8123 }, { 221,-8123 }, { 222,-8123 }, { 223,-8123 },
- { 224,-8123 }, { 225,-8123 }, { 226,-8123 }, { 227,-8123 }, { 228,-8123 },
-
- { 229,-8123 }, { 230,-8123 }, { 231,-8123 }, { 232,-8123 }, { 233,-8123 },
- { 234,-8123 }, { 235,-8123 }, { 236,-8123 }, { 237,-8123 }, { 238,-8123 },
- { 239,-8123 }, { 240,-8123 }, { 241,-8123 }, { 242,-8123 }, { 243,-8123 },
- { 244,-8123 }, { 245,-8123 }, { 246,-8123 }, { 247,-8123 }, { 248,-8123 },
- { 249,-8123 }, { 250,-8123 }, { 251,-8123 }, { 252,-8123 }, { 253,-8123 },
- { 254,-8123 }, { 255,-8123 }, { 256,-8123 }, {   0,   0 }, {   0,3653 },
- {   0,   0 }, {   0,3651 }, {   0,   0 }, {   0,3649 }, {   0,   0 },
- {   0,3647 }, {   0,   0 }, {   0,3645 }, {   0,  16 }, {   0,3643 },
- {   0,  26 }, {   0,3641 }, {   0,  17 }, {   0,3639 }, {   0,  36 },
- {   0,3637 }, {   0,   0 }, {   0,3635 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,1039 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 115,   0 },
- { 108, 932 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- { 115, 932 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,   2 },
- { 126,   4 }, { 125, 934 }, {   0,   0 }, { 125,  -2 }, {   0,   0 },
- {   0,3522 }, {   1, 811 }, {   2, 811 }, {   3, 811 }, {   4, 811 },
- {   5, 811 }, {   6, 811 }, {   7, 811 }, {   8, 811 }, {   9, 811 },
- {  10, 811 }, {  11, 811 }, {  12, 811 }, {  13, 811 }, {  14, 811 },
- {  15, 811 }, {  16, 811 }, {  17, 811 }, {  18, 811 }, {  19, 811 },
- {  20, 811 }, {  21, 811 }, {  22, 811 }, {  23, 811 }, {  24, 811 },
- {  25, 811 }, {  26, 811 }, {  27, 811 }, {  28, 811 }, {  29, 811 },
- {  30, 811 }, {  31, 811 }, {  32, 811 }, {  33, 811 }, {  34, 811 },
- {  35, 811 }, {  36, 811 }, {  37, 811 }, {  38, 811 }, {  39, 811 },
-
- {  40, 811 }, {  41, 811 }, {  42, 811 }, {  43, 811 }, {  44, 811 },
- {  45, 811 }, {  46, 811 }, {  47,1184 }, {  48, 811 }, {  49, 811 },
- {  50, 811 }, {  51, 811 }, {  52, 811 }, {  53, 811 }, {  54, 811 },
- {  55, 811 }, {  56, 811 }, {  57, 811 }, {  58, 811 }, {  59, 811 },
- {  60, 811 }, {  61, 811 }, {  62, 811 }, {  63, 811 }, {  64, 811 },
- {  65, 811 }, {  66, 811 }, {  67, 811 }, {  68, 811 }, {  69, 811 },
- {  70, 811 }, {  71, 811 }, {  72, 811 }, {  73, 811 }, {  74, 811 },
- {  75, 811 }, {  76, 811 }, {  77, 811 }, {  78, 811 }, {  79, 811 },
- {  80, 811 }, {  81, 811 }, {  82, 811 }, {  83, 811 }, {  84, 811 },
- {  85, 811 }, {  86, 811 }, {  87, 811 }, {  88, 811 }, {  89, 811 },
-
- {  90, 811 }, {  91, 811 }, {  92, 811 }, {  93, 811 }, {  94, 811 },
- {  95, 811 }, {  96, 811 }, {  97, 811 }, {  98, 811 }, {  99, 811 },
- { 100, 811 }, { 101, 811 }, { 102, 811 }, { 103, 811 }, { 104, 811 },
- { 105, 811 }, { 106, 811 }, { 107, 811 }, { 108, 811 }, { 109, 811 },
- { 110, 811 }, { 111, 811 }, { 112, 811 }, { 113, 811 }, { 114, 811 },
- { 115, 811 }, { 116, 811 }, { 117, 811 }, { 118, 811 }, { 119, 811 },
- { 120, 811 }, { 121, 811 }, { 122, 811 }, { 123, 811 }, { 124, 811 },
- { 125, 811 }, { 126, 811 }, { 127, 811 }, { 128, 811 }, { 129, 811 },
- { 130, 811 }, { 131, 811 }, { 132, 811 }, { 133, 811 }, { 134, 811 },
- { 135, 811 }, { 136, 811 }, { 137, 811 }, { 138, 811 }, { 139, 811 },
-
- { 140, 811 }, { 141, 811 }, { 142, 811 }, { 143, 811 }, { 144, 811 },
- { 145, 811 }, { 146, 811 }, { 147, 811 }, { 148, 811 }, { 149, 811 },
- { 150, 811 }, { 151, 811 }, { 152, 811 }, { 153, 811 }, { 154, 811 },
- { 155, 811 }, { 156, 811 }, { 157, 811 }, { 158, 811 }, { 159, 811 },
- { 160, 811 }, { 161, 811 }, { 162, 811 }, { 163, 811 }, { 164, 811 },
- { 165, 811 }, { 166, 811 }, { 167, 811 }, { 168, 811 }, { 169, 811 },
- { 170, 811 }, { 171, 811 }, { 172, 811 }, { 173, 811 }, { 174, 811 },
- { 175, 811 }, { 176, 811 }, { 177, 811 }, { 178, 811 }, { 179, 811 },
- { 180, 811 }, { 181, 811 }, { 182, 811 }, { 183, 811 }, { 184, 811 },
- { 185, 811 }, { 186, 811 }, { 187, 811 }, { 188, 811 }, { 189, 811 },
-
- { 190, 811 }, { 191, 811 }, { 192, 811 }, { 193, 811 }, { 194, 811 },
- { 195, 811 }, { 196, 811 }, { 197, 811 }, { 198, 811 }, { 199, 811 },
- { 200, 811 }, { 201, 811 }, { 202, 811 }, { 203, 811 }, { 204, 811 },
- { 205, 811 }, { 206, 811 }, { 207, 811 }, { 208, 811 }, { 209, 811 },
- { 210, 811 }, { 211, 811 }, { 212, 811 }, { 213, 811 }, { 214, 811 },
- { 215, 811 }, { 216, 811 }, { 217, 811 }, { 218, 811 }, { 219, 811 },
- { 220, 811 }, { 221, 811 }, { 222, 811 }, { 223, 811 }, { 224, 811 },
- { 225, 811 }, { 226, 811 }, { 227, 811 }, { 228, 811 }, { 229, 811 },
- { 230, 811 }, { 231, 811 }, { 232, 811 }, { 233, 811 }, { 234, 811 },
- { 235, 811 }, { 236, 811 }, { 237, 811 }, { 238, 811 }, { 239, 811 },
-
- { 240, 811 }, { 241, 811 }, { 242, 811 }, { 243, 811 }, { 244, 811 },
- { 245, 811 }, { 246, 811 }, { 247, 811 }, { 248, 811 }, { 249, 811 },
- { 250, 811 }, { 251, 811 }, { 252, 811 }, { 253, 811 }, { 254, 811 },
- { 255, 811 }, { 256, 811 }, {   0,   1 }, {   0,3264 }, {   0,   1 },
- {   0,3262 }, {   0,  46 }, {   0,3260 }, {   0,  43 }, {   0,3258 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,3237 }, {   1,-8797 }, {   2,-8797 }, {   3,-8797 }, {   4,-8797 },
-
- {   5,-8797 }, {   6,-8797 }, {   7,-8797 }, {   8,-8797 }, {   9, 530 },
- {  10, 530 }, {  11,-8797 }, {  12,-8797 }, {  13, 530 }, {  14,-8797 },
- {  15,-8797 }, {  16,-8797 }, {  17,-8797 }, {  18,-8797 }, {  19,-8797 },
- {  20,-8797 }, {  21,-8797 }, {  22,-8797 }, {  23,-8797 }, {  24,-8797 },
- {  25,-8797 }, {  26,-8797 }, {  27,-8797 }, {  28,-8797 }, {  29,-8797 },
- {  30,-8797 }, {  31,-8797 }, {  32, 530 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-8797 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41, 530 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,-8797 }, {  46,-8822 }, {  47,-8822 }, {  48,-8797 }, {  49,-8797 },
- {  50,-8797 }, {  51,-8797 }, {  52,-8797 }, {  53,-8797 }, {  54,-8797 },
-
- {  55,-8797 }, {  56,-8797 }, {  57,-8797 }, {  58,-8797 }, {   0,   0 },
- {   0,   0 }, {  61,-8822 }, {   0,   0 }, {  63,-8797 }, {   0,   0 },
- {  65,-8797 }, {  66,-8797 }, {  67,-8797 }, {  68,-8797 }, {  69,-8797 },
- {  70,-8797 }, {  71,-8797 }, {  72,-8797 }, {  73,-8797 }, {  74,-8797 },
- {  75,-8797 }, {  76,-8797 }, {  77,-8797 }, {  78,-8797 }, {  79,-8797 },
- {  80,-8797 }, {  81,-8797 }, {  82,-8797 }, {  83,-8797 }, {  84,-8797 },
- {  85,-8797 }, {  86,-8797 }, {  87,-8797 }, {  88,-8797 }, {  89,-8797 },
- {  90,-8797 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,-8797 }, { 123, 555 }, {  97,-8797 }, {  98,-8797 }, {  99,-8797 },
- { 100,-8797 }, { 101,-8797 }, { 102,-8797 }, { 103,-8797 }, { 104,-8797 },
-
- { 105,-8797 }, { 106,-8797 }, { 107,-8797 }, { 108,-8797 }, { 109,-8797 },
- { 110,-8797 }, { 111,-8797 }, { 112,-8797 }, { 113,-8797 }, { 114,-8797 },
- { 115,-8797 }, { 116,-8797 }, { 117,-8797 }, { 118,-8797 }, { 119,-8797 },
- { 120,-8797 }, { 121,-8797 }, { 122,-8797 }, {   0,   0 }, { 124,-8822 },
- { 125, 530 }, { 126, 530 }, { 127,-8797 }, { 128,-8797 }, { 129,-8797 },
- { 130,-8797 }, { 131,-8797 }, { 132,-8797 }, { 133,-8797 }, { 134,-8797 },
- { 135,-8797 }, { 136,-8797 }, { 137,-8797 }, { 138,-8797 }, { 139,-8797 },
- { 140,-8797 }, { 141,-8797 }, { 142,-8797 }, { 143,-8797 }, { 144,-8797 },
- { 145,-8797 }, { 146,-8797 }, { 147,-8797 }, { 148,-8797 }, { 149,-8797 },
- { 150,-8797 }, { 151,-8797 }, { 152,-8797 }, { 153,-8797 }, { 154,-8797 },
-
- { 155,-8797 }, { 156,-8797 }, { 157,-8797 }, { 158,-8797 }, { 159,-8797 },
- { 160,-8797 }, { 161,-8797 }, { 162,-8797 }, { 163,-8797 }, { 164,-8797 },
- { 165,-8797 }, { 166,-8797 }, { 167,-8797 }, { 168,-8797 }, { 169,-8797 },
- { 170,-8797 }, { 171,-8797 }, { 172,-8797 }, { 173,-8797 }, { 174,-8797 },
- { 175,-8797 }, { 176,-8797 }, { 177,-8797 }, { 178,-8797 }, { 179,-8797 },
- { 180,-8797 }, { 181,-8797 }, { 182,-8797 }, { 183,-8797 }, { 184,-8797 },
- { 185,-8797 }, { 186,-8797 }, { 187,-8797 }, { 188,-8797 }, { 189,-8797 },
- { 190,-8797 }, { 191,-8797 }, { 192,-8797 }, { 193,-8797 }, { 194,-8797 },
- { 195,-8797 }, { 196,-8797 }, { 197,-8797 }, { 198,-8797 }, { 199,-8797 },
- { 200,-8797 }, { 201,-8797 }, { 202,-8797 }, { 203,-8797 }, { 204,-8797 },
-
- { 205,-8797 }, { 206,-8797 }, { 207,-8797 }, { 208,-8797 }, { 209,-8797 },
- { 210,-8797 }, { 211,-8797 }, { 212,-8797 }, { 213,-8797 }, { 214,-8797 },
- { 215,-8797 }, { 216,-8797 }, { 217,-8797 }, { 218,-8797 }, { 219,-8797 },
- { 220,-8797 }, { 221,-8797 }, { 222,-8797 }, { 223,-8797 }, { 224,-8797 },
- { 225,-8797 }, { 226,-8797 }, { 227,-8797 }, { 228,-8797 }, { 229,-8797 },
- { 230,-8797 }, { 231,-8797 }, { 232,-8797 }, { 233,-8797 }, { 234,-8797 },
- { 235,-8797 }, { 236,-8797 }, { 237,-8797 }, { 238,-8797 }, { 239,-8797 },
- { 240,-8797 }, { 241,-8797 }, { 242,-8797 }, { 243,-8797 }, { 244,-8797 },
- { 245,-8797 }, { 246,-8797 }, { 247,-8797 }, { 248,-8797 }, { 249,-8797 },
- { 250,-8797 }, { 251,-8797 }, { 252,-8797 }, { 253,-8797 }, { 254,-8797 },
-
- { 255,-8797 }, { 256,-8797 }, {   0,   0 }, {   0,2979 }, {   1,-9055 },
- {   2,-9055 }, {   3,-9055 }, {   4,-9055 }, {   5,-9055 }, {   6,-9055 },
- {   7,-9055 }, {   8,-9055 }, {   9,-9080 }, {  10,-9080 }, {  11,-9055 },
- {  12,-9055 }, {  13,-9080 }, {  14,-9055 }, {  15,-9055 }, {  16,-9055 },
- {  17,-9055 }, {  18,-9055 }, {  19,-9055 }, {  20,-9055 }, {  21,-9055 },
- {  22,-9055 }, {  23,-9055 }, {  24,-9055 }, {  25,-9055 }, {  26,-9055 },
- {  27,-9055 }, {  28,-9055 }, {  29,-9055 }, {  30,-9055 }, {  31,-9055 },
- {  32,-9080 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-9055 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-9080 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-9055 }, {  46,-9080 },
-
- {  47,-9080 }, {  48,-9055 }, {  49,-9055 }, {  50,-9055 }, {  51,-9055 },
- {  52,-9055 }, {  53,-9055 }, {  54,-9055 }, {  55,-9055 }, {  56,-9055 },
- {  57,-9055 }, {  58,-9055 }, {   0,   0 }, {   0,   0 }, {  61,-9080 },
- {   0,   0 }, {  63,-9055 }, {   0,   0 }, {  65,-9055 }, {  66,-9055 },
- {  67,-9055 }, {  68,-9055 }, {  69,-9055 }, {  70,-9055 }, {  71,-9055 },
- {  72,-9055 }, {  73,-9055 }, {  74,-9055 }, {  75,-9055 }, {  76,-9055 },
- {  77,-9055 }, {  78,-9055 }, {  79,-9055 }, {  80,-9055 }, {  81,-9055 },
- {  82,-9055 }, {  83,-9055 }, {  84,-9055 }, {  85,-9055 }, {  86,-9055 },
- {  87,-9055 }, {  88,-9055 }, {  89,-9055 }, {  90,-9055 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-9055 }, {   0,   0 },
-
- {  97,-9055 }, {  98,-9055 }, {  99,-9055 }, { 100,-9055 }, { 101,-9055 },
- { 102,-9055 }, { 103,-9055 }, { 104,-9055 }, { 105, 899 }, { 106,-9055 },
- { 107,-9055 }, { 108,-9055 }, { 109,-9055 }, { 110,-9055 }, { 111,-9055 },
- { 112,-9055 }, { 113,-9055 }, { 114,-9055 }, { 115,-9055 }, { 116,-9055 },
- { 117,-9055 }, { 118,-9055 }, { 119,-9055 }, { 120,-9055 }, { 121,-9055 },
- { 122,-9055 }, {   0,   0 }, { 124,-9080 }, { 125,-9080 }, { 126,-9080 },
- { 127,-9055 }, { 128,-9055 }, { 129,-9055 }, { 130,-9055 }, { 131,-9055 },
- { 132,-9055 }, { 133,-9055 }, { 134,-9055 }, { 135,-9055 }, { 136,-9055 },
- { 137,-9055 }, { 138,-9055 }, { 139,-9055 }, { 140,-9055 }, { 141,-9055 },
- { 142,-9055 }, { 143,-9055 }, { 144,-9055 }, { 145,-9055 }, { 146,-9055 },
-
- { 147,-9055 }, { 148,-9055 }, { 149,-9055 }, { 150,-9055 }, { 151,-9055 },
- { 152,-9055 }, { 153,-9055 }, { 154,-9055 }, { 155,-9055 }, { 156,-9055 },
- { 157,-9055 }, { 158,-9055 }, { 159,-9055 }, { 160,-9055 }, { 161,-9055 },
- { 162,-9055 }, { 163,-9055 }, { 164,-9055 }, { 165,-9055 }, { 166,-9055 },
- { 167,-9055 }, { 168,-9055 }, { 169,-9055 }, { 170,-9055 }, { 171,-9055 },
- { 172,-9055 }, { 173,-9055 }, { 174,-9055 }, { 175,-9055 }, { 176,-9055 },
- { 177,-9055 }, { 178,-9055 }, { 179,-9055 }, { 180,-9055 }, { 181,-9055 },
- { 182,-9055 }, { 183,-9055 }, { 184,-9055 }, { 185,-9055 }, { 186,-9055 },
- { 187,-9055 }, { 188,-9055 }, { 189,-9055 }, { 190,-9055 }, { 191,-9055 },
- { 192,-9055 }, { 193,-9055 }, { 194,-9055 }, { 195,-9055 }, { 196,-9055 },
-
- { 197,-9055 }, { 198,-9055 }, { 199,-9055 }, { 200,-9055 }, { 201,-9055 },
- { 202,-9055 }, { 203,-9055 }, { 204,-9055 }, { 205,-9055 }, { 206,-9055 },
- { 207,-9055 }, { 208,-9055 }, { 209,-9055 }, { 210,-9055 }, { 211,-9055 },
- { 212,-9055 }, { 213,-9055 }, { 214,-9055 }, { 215,-9055 }, { 216,-9055 },
- { 217,-9055 }, { 218,-9055 }, { 219,-9055 }, { 220,-9055 }, { 221,-9055 },
- { 222,-9055 }, { 223,-9055 }, { 224,-9055 }, { 225,-9055 }, { 226,-9055 },
- { 227,-9055 }, { 228,-9055 }, { 229,-9055 }, { 230,-9055 }, { 231,-9055 },
- { 232,-9055 }, { 233,-9055 }, { 234,-9055 }, { 235,-9055 }, { 236,-9055 },
- { 237,-9055 }, { 238,-9055 }, { 239,-9055 }, { 240,-9055 }, { 241,-9055 },
- { 242,-9055 }, { 243,-9055 }, { 244,-9055 }, { 245,-9055 }, { 246,-9055 },
-
- { 247,-9055 }, { 248,-9055 }, { 249,-9055 }, { 250,-9055 }, { 251,-9055 },
- { 252,-9055 }, { 253,-9055 }, { 254,-9055 }, { 255,-9055 }, { 256,-9055 },
- {   0,   0 }, {   0,2721 }, {   0,  28 }, {   0,2719 }, {   0,  22 },
- {   0,2717 }, {   0,   0 }, {   0,2715 }, {   0,   0 }, {   0,2713 },
- {   0,   8 }, {   0,2711 }, {   0,   1 }, {   0,2709 }, {   0,  44 },
- {   0,2707 }, {   0,   0 }, {   0,2705 }, {   0,   0 }, {   0,2703 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 101, 893 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 115,  16 }, {   0,   0 }, { 101,2043 }, {   0,   0 },
- { 101,2049 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 115,  10 },
- {   0,   0 }, {   0,2596 }, {   1, 902 }, {   2, 902 }, {   3, 902 },
- {   4, 902 }, {   5, 902 }, {   6, 902 }, {   7, 902 }, {   8, 902 },
- {   9, 902 }, {  10, 902 }, {  11, 902 }, {  12, 902 }, {  13, 902 },
-
- {  14, 902 }, {  15, 902 }, {  16, 902 }, {  17, 902 }, {  18, 902 },
- {  19, 902 }, {  20, 902 }, {  21, 902 }, {  22, 902 }, {  23, 902 },
- {  24, 902 }, {  25, 902 }, {  26, 902 }, {  27, 902 }, {  28, 902 },
- {  29, 902 }, {  30, 902 }, {  31, 902 }, {  32, 902 }, {  33, 902 },
- {  34, 902 }, {  35, 902 }, {  36, 902 }, {  37, 902 }, {  38, 902 },
- {  39, 902 }, {  40, 902 }, {  41, 902 }, {  42, 902 }, {  43, 902 },
- {  44, 902 }, {  45,1160 }, {  46, 902 }, {  47, 902 }, {  48, 902 },
- {  49, 902 }, {  50, 902 }, {  51, 902 }, {  52, 902 }, {  53, 902 },
- {  54, 902 }, {  55, 902 }, {  56, 902 }, {  57, 902 }, {  58, 902 },
- {  59, 902 }, {  60, 902 }, {  61, 902 }, {  62, 902 }, {  63, 902 },
-
- {  64, 902 }, {  65, 902 }, {  66, 902 }, {  67, 902 }, {  68, 902 },
- {  69, 902 }, {  70, 902 }, {  71, 902 }, {  72, 902 }, {  73, 902 },
- {  74, 902 }, {  75, 902 }, {  76, 902 }, {  77, 902 }, {  78, 902 },
- {  79, 902 }, {  80, 902 }, {  81, 902 }, {  82, 902 }, {  83, 902 },
- {  84, 902 }, {  85, 902 }, {  86, 902 }, {  87, 902 }, {  88, 902 },
- {  89, 902 }, {  90, 902 }, {  91, 902 }, {  92, 902 }, {  93, 902 },
- {  94, 902 }, {  95, 902 }, {  96, 902 }, {  97, 902 }, {  98, 902 },
- {  99, 902 }, { 100, 902 }, { 101, 902 }, { 102, 902 }, { 103, 902 },
- { 104, 902 }, { 105, 902 }, { 106, 902 }, { 107, 902 }, { 108, 902 },
- { 109, 902 }, { 110, 902 }, { 111, 902 }, { 112, 902 }, { 113, 902 },
-
- { 114, 902 }, { 115, 902 }, { 116, 902 }, { 117, 902 }, { 118, 902 },
- { 119, 902 }, { 120, 902 }, { 121, 902 }, { 122, 902 }, { 123, 902 },
- { 124, 902 }, { 125, 902 }, { 126, 902 }, { 127, 902 }, { 128, 902 },
- { 129, 902 }, { 130, 902 }, { 131, 902 }, { 132, 902 }, { 133, 902 },
- { 134, 902 }, { 135, 902 }, { 136, 902 }, { 137, 902 }, { 138, 902 },
- { 139, 902 }, { 140, 902 }, { 141, 902 }, { 142, 902 }, { 143, 902 },
- { 144, 902 }, { 145, 902 }, { 146, 902 }, { 147, 902 }, { 148, 902 },
- { 149, 902 }, { 150, 902 }, { 151, 902 }, { 152, 902 }, { 153, 902 },
- { 154, 902 }, { 155, 902 }, { 156, 902 }, { 157, 902 }, { 158, 902 },
- { 159, 902 }, { 160, 902 }, { 161, 902 }, { 162, 902 }, { 163, 902 },
-
- { 164, 902 }, { 165, 902 }, { 166, 902 }, { 167, 902 }, { 168, 902 },
- { 169, 902 }, { 170, 902 }, { 171, 902 }, { 172, 902 }, { 173, 902 },
- { 174, 902 }, { 175, 902 }, { 176, 902 }, { 177, 902 }, { 178, 902 },
- { 179, 902 }, { 180, 902 }, { 181, 902 }, { 182, 902 }, { 183, 902 },
- { 184, 902 }, { 185, 902 }, { 186, 902 }, { 187, 902 }, { 188, 902 },
- { 189, 902 }, { 190, 902 }, { 191, 902 }, { 192, 902 }, { 193, 902 },
- { 194, 902 }, { 195, 902 }, { 196, 902 }, { 197, 902 }, { 198, 902 },
- { 199, 902 }, { 200, 902 }, { 201, 902 }, { 202, 902 }, { 203, 902 },
- { 204, 902 }, { 205, 902 }, { 206, 902 }, { 207, 902 }, { 208, 902 },
- { 209, 902 }, { 210, 902 }, { 211, 902 }, { 212, 902 }, { 213, 902 },
-
- { 214, 902 }, { 215, 902 }, { 216, 902 }, { 217, 902 }, { 218, 902 },
- { 219, 902 }, { 220, 902 }, { 221, 902 }, { 222, 902 }, { 223, 902 },
- { 224, 902 }, { 225, 902 }, { 226, 902 }, { 227, 902 }, { 228, 902 },
- { 229, 902 }, { 230, 902 }, { 231, 902 }, { 232, 902 }, { 233, 902 },
- { 234, 902 }, { 235, 902 }, { 236, 902 }, { 237, 902 }, { 238, 902 },
- { 239, 902 }, { 240, 902 }, { 241, 902 }, { 242, 902 }, { 243, 902 },
- { 244, 902 }, { 245, 902 }, { 246, 902 }, { 247, 902 }, { 248, 902 },
- { 249, 902 }, { 250, 902 }, { 251, 902 }, { 252, 902 }, { 253, 902 },
- { 254, 902 }, { 255, 902 }, { 256, 902 }, {   0,   0 }, {   0,2338 },
- {   1,1160 }, {   2,1160 }, {   3,1160 }, {   4,1160 }, {   5,1160 },
-
- {   6,1160 }, {   7,1160 }, {   8,1160 }, {   0,   0 }, {   0,   0 },
- {  11,1160 }, {  12,1160 }, {   0,   0 }, {  14,1160 }, {  15,1160 },
- {  16,1160 }, {  17,1160 }, {  18,1160 }, {  19,1160 }, {  20,1160 },
- {  21,1160 }, {  22,1160 }, {  23,1160 }, {  24,1160 }, {  25,1160 },
- {  26,1160 }, {  27,1160 }, {  28,1160 }, {  29,1160 }, {  30,1160 },
- {  31,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,1160 },
- {   0,   0 }, {   0,   0 }, {  48,1160 }, {  49,1160 }, {  50,1160 },
- {  51,1160 }, {  52,1160 }, {  53,1160 }, {  54,1160 }, {  55,1160 },
-
- {  56,1160 }, {  57,1160 }, {  58,1160 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  63,1160 }, {   0,   0 }, {  65,1160 },
- {  66,1160 }, {  67,1160 }, {  68,1160 }, {  69,1160 }, {  70,1160 },
- {  71,1160 }, {  72,1160 }, {  73,1160 }, {  74,1160 }, {  75,1160 },
- {  76,1160 }, {  77,1160 }, {  78,1160 }, {  79,1160 }, {  80,1160 },
- {  81,1160 }, {  82,1160 }, {  83,1160 }, {  84,1160 }, {  85,1160 },
- {  86,1160 }, {  87,1160 }, {  88,1160 }, {  89,1160 }, {  90,1160 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,1160 },
- {   0,   0 }, {  97,1160 }, {  98,1160 }, {  99,1160 }, { 100,1160 },
- { 101,1160 }, { 102,1160 }, { 103,1160 }, { 104,1160 }, { 105,1160 },
-
- { 106,1160 }, { 107,1160 }, { 108,1160 }, { 109,1160 }, { 110,1160 },
- { 111,1160 }, { 112,1160 }, { 113,1160 }, { 114,1160 }, { 115,1160 },
- { 116,1160 }, { 117,1160 }, { 118,1160 }, { 119,1160 }, { 120,1160 },
- { 121,1160 }, { 122,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 127,1160 }, { 128,1160 }, { 129,1160 }, { 130,1160 },
- { 131,1160 }, { 132,1160 }, { 133,1160 }, { 134,1160 }, { 135,1160 },
- { 136,1160 }, { 137,1160 }, { 138,1160 }, { 139,1160 }, { 140,1160 },
- { 141,1160 }, { 142,1160 }, { 143,1160 }, { 144,1160 }, { 145,1160 },
- { 146,1160 }, { 147,1160 }, { 148,1160 }, { 149,1160 }, { 150,1160 },
- { 151,1160 }, { 152,1160 }, { 153,1160 }, { 154,1160 }, { 155,1160 },
-
- { 156,1160 }, { 157,1160 }, { 158,1160 }, { 159,1160 }, { 160,1160 },
- { 161,1160 }, { 162,1160 }, { 163,1160 }, { 164,1160 }, { 165,1160 },
- { 166,1160 }, { 167,1160 }, { 168,1160 }, { 169,1160 }, { 170,1160 },
- { 171,1160 }, { 172,1160 }, { 173,1160 }, { 174,1160 }, { 175,1160 },
- { 176,1160 }, { 177,1160 }, { 178,1160 }, { 179,1160 }, { 180,1160 },
- { 181,1160 }, { 182,1160 }, { 183,1160 }, { 184,1160 }, { 185,1160 },
- { 186,1160 }, { 187,1160 }, { 188,1160 }, { 189,1160 }, { 190,1160 },
- { 191,1160 }, { 192,1160 }, { 193,1160 }, { 194,1160 }, { 195,1160 },
- { 196,1160 }, { 197,1160 }, { 198,1160 }, { 199,1160 }, { 200,1160 },
- { 201,1160 }, { 202,1160 }, { 203,1160 }, { 204,1160 }, { 205,1160 },
-
- { 206,1160 }, { 207,1160 }, { 208,1160 }, { 209,1160 }, { 210,1160 },
- { 211,1160 }, { 212,1160 }, { 213,1160 }, { 214,1160 }, { 215,1160 },
- { 216,1160 }, { 217,1160 }, { 218,1160 }, { 219,1160 }, { 220,1160 },
- { 221,1160 }, { 222,1160 }, { 223,1160 }, { 224,1160 }, { 225,1160 },
- { 226,1160 }, { 227,1160 }, { 228,1160 }, { 229,1160 }, { 230,1160 },
- { 231,1160 }, { 232,1160 }, { 233,1160 }, { 234,1160 }, { 235,1160 },
- { 236,1160 }, { 237,1160 }, { 238,1160 }, { 239,1160 }, { 240,1160 },
- { 241,1160 }, { 242,1160 }, { 243,1160 }, { 244,1160 }, { 245,1160 },
- { 246,1160 }, { 247,1160 }, { 248,1160 }, { 249,1160 }, { 250,1160 },
- { 251,1160 }, { 252,1160 }, { 253,1160 }, { 254,1160 }, { 255,1160 },
-
- { 256,1160 }, {   0,   0 }, {   0,2080 }, {   1,-9954 }, {   2,-9954 },
- {   3,-9954 }, {   4,-9954 }, {   5,-9954 }, {   6,-9954 }, {   7,-9954 },
- {   8,-9954 }, {   9,-9979 }, {  10,-9979 }, {  11,-9954 }, {  12,-9954 },
- {  13,-9979 }, {  14,-9954 }, {  15,-9954 }, {  16,-9954 }, {  17,-9954 },
- {  18,-9954 }, {  19,-9954 }, {  20,-9954 }, {  21,-9954 }, {  22,-9954 },
- {  23,-9954 }, {  24,-9954 }, {  25,-9954 }, {  26,-9954 }, {  27,-9954 },
- {  28,-9954 }, {  29,-9954 }, {  30,-9954 }, {  31,-9954 }, {  32,-9979 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-9954 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-9979 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-9954 }, {  46,-9979 }, {  47,-9979 },
-
- {  48,-9954 }, {  49,-9954 }, {  50,-9954 }, {  51,-9954 }, {  52,-9954 },
- {  53,-9954 }, {  54,-9954 }, {  55,-9954 }, {  56,-9954 }, {  57,-9954 },
- {  58,-9954 }, {   0,   0 }, {   0,   0 }, {  61,-9979 }, {   0,   0 },
- {  63,-9954 }, {   0,   0 }, {  65,-9954 }, {  66,-9954 }, {  67,-9954 },
- {  68,-9954 }, {  69,-9954 }, {  70,-9954 }, {  71,-9954 }, {  72,-9954 },
- {  73,-9954 }, {  74,-9954 }, {  75,-9954 }, {  76,-9954 }, {  77,-9954 },
- {  78,-9954 }, {  79,-9954 }, {  80,-9954 }, {  81,-9954 }, {  82,-9954 },
- {  83,-9954 }, {  84,-9954 }, {  85,-9954 }, {  86,-9954 }, {  87,-9954 },
- {  88,-9954 }, {  89,-9954 }, {  90,-9954 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-9954 }, {   0,   0 }, {  97,-9954 },
-
- {  98,-9954 }, {  99,-9954 }, { 100,-9954 }, { 101,-9954 }, { 102,-9954 },
- { 103,-9954 }, { 104,-9954 }, { 105,-9954 }, { 106,-9954 }, { 107,-9954 },
- { 108,-9954 }, { 109,-9954 }, { 110,1160 }, { 111,-9954 }, { 112,-9954 },
- { 113,-9954 }, { 114,-9954 }, { 115,-9954 }, { 116,-9954 }, { 117,-9954 },
- { 118,-9954 }, { 119,-9954 }, { 120,-9954 }, { 121,-9954 }, { 122,-9954 },
- {   0,   0 }, { 124,-9979 }, { 125,-9979 }, { 126,-9979 }, { 127,-9954 },
- { 128,-9954 }, { 129,-9954 }, { 130,-9954 }, { 131,-9954 }, { 132,-9954 },
- { 133,-9954 }, { 134,-9954 }, { 135,-9954 }, { 136,-9954 }, { 137,-9954 },
- { 138,-9954 }, { 139,-9954 }, { 140,-9954 }, { 141,-9954 }, { 142,-9954 },
- { 143,-9954 }, { 144,-9954 }, { 145,-9954 }, { 146,-9954 }, { 147,-9954 },
-
- { 148,-9954 }, { 149,-9954 }, { 150,-9954 }, { 151,-9954 }, { 152,-9954 },
- { 153,-9954 }, { 154,-9954 }, { 155,-9954 }, { 156,-9954 }, { 157,-9954 },
- { 158,-9954 }, { 159,-9954 }, { 160,-9954 }, { 161,-9954 }, { 162,-9954 },
- { 163,-9954 }, { 164,-9954 }, { 165,-9954 }, { 166,-9954 }, { 167,-9954 },
- { 168,-9954 }, { 169,-9954 }, { 170,-9954 }, { 171,-9954 }, { 172,-9954 },
- { 173,-9954 }, { 174,-9954 }, { 175,-9954 }, { 176,-9954 }, { 177,-9954 },
- { 178,-9954 }, { 179,-9954 }, { 180,-9954 }, { 181,-9954 }, { 182,-9954 },
- { 183,-9954 }, { 184,-9954 }, { 185,-9954 }, { 186,-9954 }, { 187,-9954 },
- { 188,-9954 }, { 189,-9954 }, { 190,-9954 }, { 191,-9954 }, { 192,-9954 },
- { 193,-9954 }, { 194,-9954 }, { 195,-9954 }, { 196,-9954 }, { 197,-9954 },
-
- { 198,-9954 }, { 199,-9954 }, { 200,-9954 }, { 201,-9954 }, { 202,-9954 },
- { 203,-9954 }, { 204,-9954 }, { 205,-9954 }, { 206,-9954 }, { 207,-9954 },
- { 208,-9954 }, { 209,-9954 }, { 210,-9954 }, { 211,-9954 }, { 212,-9954 },
- { 213,-9954 }, { 214,-9954 }, { 215,-9954 }, { 216,-9954 }, { 217,-9954 },
- { 218,-9954 }, { 219,-9954 }, { 220,-9954 }, { 221,-9954 }, { 222,-9954 },
- { 223,-9954 }, { 224,-9954 }, { 225,-9954 }, { 226,-9954 }, { 227,-9954 },
- { 228,-9954 }, { 229,-9954 }, { 230,-9954 }, { 231,-9954 }, { 232,-9954 },
- { 233,-9954 }, { 234,-9954 }, { 235,-9954 }, { 236,-9954 }, { 237,-9954 },
- { 238,-9954 }, { 239,-9954 }, { 240,-9954 }, { 241,-9954 }, { 242,-9954 },
- { 243,-9954 }, { 244,-9954 }, { 245,-9954 }, { 246,-9954 }, { 247,-9954 },
+ {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 },
+ {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 },
+ {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 },
+ {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 },
+ {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 },
+ {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 }, {   0,   0 },
+ {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 },
+ {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 },
+ { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 },
+ { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 },
+
+ { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 },
+ { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 },
+ {   0,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 },
+ { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 },
+ { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 },
+ { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 },
+ { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 },
+ { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 },
+ { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 },
+ { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 },
+
+ { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 },
+ { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 },
+ { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 },
+ { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 },
+ { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 },
+ { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 },
+ { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 },
+ { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 },
+ { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 },
+ { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 },
+
+ { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 },
+ { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 },
+ { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 },
+ { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 },
+ { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 },
+ { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 },
+ { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
+ { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
+ { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   4 }, {   0,4758 },
+ {   1,-257 }, {   2,-257 }, {   3,-257 }, {   4,-257 }, {   5,-257 },
+
+ {   6,-257 }, {   7,-257 }, {   8,-257 }, {   9,-257 }, {  10,-372 },
+ {  11,-257 }, {  12,-257 }, {  13,-372 }, {  14,-257 }, {  15,-257 },
+ {  16,-257 }, {  17,-257 }, {  18,-257 }, {  19,-257 }, {  20,-257 },
+ {  21,-257 }, {  22,-257 }, {  23,-257 }, {  24,-257 }, {  25,-257 },
+ {  26,-257 }, {  27,-257 }, {  28,-257 }, {  29,-257 }, {  30,-257 },
+ {  31,-257 }, {  32,-257 }, {  33,-257 }, {  34,-257 }, {  35,-257 },
+ {  36,-257 }, {  37,-257 }, {  38,-257 }, {  39,-257 }, {  40,-257 },
+ {  41,-257 }, {  42,-257 }, {  43,-257 }, {  44,-257 }, {  45,-257 },
+ {  46,-257 }, {  47,-257 }, {  48,-257 }, {  49,-257 }, {  50,-257 },
+ {  51,-257 }, {  52,-257 }, {  53,-257 }, {  54,-257 }, {  55,-257 },
+
+ {  56,-257 }, {  57,-257 }, {  58,-257 }, {  59,-257 }, {  60,-257 },
+ {  61,-257 }, {  62,-257 }, {  63,-257 }, {  64,-257 }, {  65,-257 },
+ {  66,-257 }, {  67,-257 }, {  68,-257 }, {  69,-257 }, {  70,-257 },
+ {  71,-257 }, {  72,-257 }, {  73,-257 }, {  74,-257 }, {  75,-257 },
+ {  76,-257 }, {  77,-257 }, {  78,-257 }, {  79,-257 }, {  80,-257 },
+ {  81,-257 }, {  82,-257 }, {  83,-257 }, {  84,-257 }, {  85,-257 },
+ {  86,-257 }, {  87,-257 }, {  88,-257 }, {  89,-257 }, {  90,-257 },
+ {  91,-257 }, {   0,   0 }, {  93,-257 }, {  94,-257 }, {  95,-257 },
+ {  96,-257 }, {  97,-257 }, {  98,-257 }, {  99,-257 }, { 100,-257 },
+ { 101,-257 }, { 102,-257 }, { 103,-257 }, { 104,-257 }, { 105,-257 },
+
+ { 106,-257 }, { 107,-257 }, { 108,-257 }, { 109,-257 }, { 110,-257 },
+ { 111,-257 }, { 112,-257 }, { 113,-257 }, { 114,-257 }, { 115,-257 },
+ { 116,-257 }, { 117,-257 }, { 118,-257 }, { 119,-257 }, { 120,-257 },
+ { 121,-257 }, { 122,-257 }, {   0,   0 }, { 124,-257 }, { 125,-257 },
+ { 126,-257 }, { 127,-257 }, { 128,-257 }, { 129,-257 }, { 130,-257 },
+ { 131,-257 }, { 132,-257 }, { 133,-257 }, { 134,-257 }, { 135,-257 },
+ { 136,-257 }, { 137,-257 }, { 138,-257 }, { 139,-257 }, { 140,-257 },
+ { 141,-257 }, { 142,-257 }, { 143,-257 }, { 144,-257 }, { 145,-257 },
+ { 146,-257 }, { 147,-257 }, { 148,-257 }, { 149,-257 }, { 150,-257 },
+ { 151,-257 }, { 152,-257 }, { 153,-257 }, { 154,-257 }, { 155,-257 },
+
+ { 156,-257 }, { 157,-257 }, { 158,-257 }, { 159,-257 }, { 160,-257 },
+ { 161,-257 }, { 162,-257 }, { 163,-257 }, { 164,-257 }, { 165,-257 },
+ { 166,-257 }, { 167,-257 }, { 168,-257 }, { 169,-257 }, { 170,-257 },
+ { 171,-257 }, { 172,-257 }, { 173,-257 }, { 174,-257 }, { 175,-257 },
+ { 176,-257 }, { 177,-257 }, { 178,-257 }, { 179,-257 }, { 180,-257 },
+ { 181,-257 }, { 182,-257 }, { 183,-257 }, { 184,-257 }, { 185,-257 },
+ { 186,-257 }, { 187,-257 }, { 188,-257 }, { 189,-257 }, { 190,-257 },
+ { 191,-257 }, { 192,-257 }, { 193,-257 }, { 194,-257 }, { 195,-257 },
+ { 196,-257 }, { 197,-257 }, { 198,-257 }, { 199,-257 }, { 200,-257 },
+ { 201,-257 }, { 202,-257 }, { 203,-257 }, { 204,-257 }, { 205,-257 },
+
+ { 206,-257 }, { 207,-257 }, { 208,-257 }, { 209,-257 }, { 210,-257 },
+ { 211,-257 }, { 212,-257 }, { 213,-257 }, { 214,-257 }, { 215,-257 },
+ { 216,-257 }, { 217,-257 }, { 218,-257 }, { 219,-257 }, { 220,-257 },
+ { 221,-257 }, { 222,-257 }, { 223,-257 }, { 224,-257 }, { 225,-257 },
+ { 226,-257 }, { 227,-257 }, { 228,-257 }, { 229,-257 }, { 230,-257 },
+ { 231,-257 }, { 232,-257 }, { 233,-257 }, { 234,-257 }, { 235,-257 },
+ { 236,-257 }, { 237,-257 }, { 238,-257 }, { 239,-257 }, { 240,-257 },
+ { 241,-257 }, { 242,-257 }, { 243,-257 }, { 244,-257 }, { 245,-257 },
+ { 246,-257 }, { 247,-257 }, { 248,-257 }, { 249,-257 }, { 250,-257 },
+ { 251,-257 }, { 252,-257 }, { 253,-257 }, { 254,-257 }, { 255,-257 },
+
+ {   0,   0 }, {   0,4501 }, {   1,-7353 }, {   2,-7353 }, {   3,-7353 },
+ {   4,-7353 }, {   5,-7353 }, {   6,-7353 }, {   7,-7353 }, {   8,-7353 },
+ {   9,-7378 }, {  10,-7378 }, {  11,-7353 }, {  12,-7353 }, {  13,-7378 },
+ {  14,-7353 }, {  15,-7353 }, {  16,-7353 }, {  17,-7353 }, {  18,-7353 },
+ {  19,-7353 }, {  20,-7353 }, {  21,-7353 }, {  22,-7353 }, {  23,-7353 },
+ {  24,-7353 }, {  25,-7353 }, {  26,-7353 }, {  27,-7353 }, {  28,-7353 },
+ {  29,-7353 }, {  30,-7353 }, {  31,-7353 }, {  32,-7378 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,-7353 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,-7378 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,-7353 }, {  46,-7378 }, {  47,-7378 }, {  48,-7353 },
+
+ {  49,-7353 }, {  50,-7353 }, {  51,-7353 }, {  52,-7353 }, {  53,-7353 },
+ {  54,-7353 }, {  55,-7353 }, {  56,-7353 }, {  57,-7353 }, {  58,-7353 },
+ {   0,   0 }, {   0,   0 }, {  61,-7378 }, {   0,   0 }, {  63,-7353 },
+ {   0,   0 }, {  65,-7353 }, {  66,-7353 }, {  67,-7353 }, {  68,-7353 },
+ {  69,-7353 }, {  70,-7353 }, {  71,-7353 }, {  72,-7353 }, {  73,-7353 },
+ {  74,-7353 }, {  75,-7353 }, {  76,-7353 }, {  77,-7353 }, {  78,-7353 },
+ {  79,-7353 }, {  80,-7353 }, {  81,-7353 }, {  82,-7353 }, {  83,-7353 },
+ {  84,-7353 }, {  85,-7353 }, {  86,-7353 }, {  87,-7353 }, {  88,-7353 },
+ {  89,-7353 }, {  90,-7353 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,-7353 }, {   0,   0 }, {  97,-7353 }, {  98,-7353 },
+
+ {  99,-7353 }, { 100,-7353 }, { 101,1448 }, { 102,-7353 }, { 103,-7353 },
+ { 104,-7353 }, { 105,-7353 }, { 106,-7353 }, { 107,-7353 }, { 108,-7353 },
+ { 109,-7353 }, { 110,-7353 }, { 111,-7353 }, { 112,-7353 }, { 113,-7353 },
+ { 114,-7353 }, { 115,-7353 }, { 116,-7353 }, { 117,-7353 }, { 118,-7353 },
+ { 119,-7353 }, { 120,-7353 }, { 121,-7353 }, { 122,-7353 }, {   0,   0 },
+ { 124,-7378 }, { 125,-7378 }, { 126,-7378 }, { 127,-7353 }, { 128,-7353 },
+ { 129,-7353 }, { 130,-7353 }, { 131,-7353 }, { 132,-7353 }, { 133,-7353 },
+ { 134,-7353 }, { 135,-7353 }, { 136,-7353 }, { 137,-7353 }, { 138,-7353 },
+ { 139,-7353 }, { 140,-7353 }, { 141,-7353 }, { 142,-7353 }, { 143,-7353 },
+ { 144,-7353 }, { 145,-7353 }, { 146,-7353 }, { 147,-7353 }, { 148,-7353 },
+
+ { 149,-7353 }, { 150,-7353 }, { 151,-7353 }, { 152,-7353 }, { 153,-7353 },
+ { 154,-7353 }, { 155,-7353 }, { 156,-7353 }, { 157,-7353 }, { 158,-7353 },
+ { 159,-7353 }, { 160,-7353 }, { 161,-7353 }, { 162,-7353 }, { 163,-7353 },
+ { 164,-7353 }, { 165,-7353 }, { 166,-7353 }, { 167,-7353 }, { 168,-7353 },
+ { 169,-7353 }, { 170,-7353 }, { 171,-7353 }, { 172,-7353 }, { 173,-7353 },
+ { 174,-7353 }, { 175,-7353 }, { 176,-7353 }, { 177,-7353 }, { 178,-7353 },
+ { 179,-7353 }, { 180,-7353 }, { 181,-7353 }, { 182,-7353 }, { 183,-7353 },
+ { 184,-7353 }, { 185,-7353 }, { 186,-7353 }, { 187,-7353 }, { 188,-7353 },
+ { 189,-7353 }, { 190,-7353 }, { 191,-7353 }, { 192,-7353 }, { 193,-7353 },
+ { 194,-7353 }, { 195,-7353 }, { 196,-7353 }, { 197,-7353 }, { 198,-7353 },
+
+ { 199,-7353 }, { 200,-7353 }, { 201,-7353 }, { 202,-7353 }, { 203,-7353 },
+ { 204,-7353 }, { 205,-7353 }, { 206,-7353 }, { 207,-7353 }, { 208,-7353 },
+ { 209,-7353 }, { 210,-7353 }, { 211,-7353 }, { 212,-7353 }, { 213,-7353 },
+ { 214,-7353 }, { 215,-7353 }, { 216,-7353 }, { 217,-7353 }, { 218,-7353 },
+ { 219,-7353 }, { 220,-7353 }, { 221,-7353 }, { 222,-7353 }, { 223,-7353 },
+ { 224,-7353 }, { 225,-7353 }, { 226,-7353 }, { 227,-7353 }, { 228,-7353 },
+ { 229,-7353 }, { 230,-7353 }, { 231,-7353 }, { 232,-7353 }, { 233,-7353 },
+ { 234,-7353 }, { 235,-7353 }, { 236,-7353 }, { 237,-7353 }, { 238,-7353 },
+ { 239,-7353 }, { 240,-7353 }, { 241,-7353 }, { 242,-7353 }, { 243,-7353 },
+ { 244,-7353 }, { 245,-7353 }, { 246,-7353 }, { 247,-7353 }, { 248,-7353 },
+
+ { 249,-7353 }, { 250,-7353 }, { 251,-7353 }, { 252,-7353 }, { 253,-7353 },
+ { 254,-7353 }, { 255,-7353 }, { 256,-7353 }, {   0,   0 }, {   0,4243 },
+ {   1,-7611 }, {   2,-7611 }, {   3,-7611 }, {   4,-7611 }, {   5,-7611 },
+ {   6,-7611 }, {   7,-7611 }, {   8,-7611 }, {   9,1167 }, {  10,1167 },
+ {  11,-7611 }, {  12,-7611 }, {  13,1167 }, {  14,-7611 }, {  15,-7611 },
+ {  16,-7611 }, {  17,-7611 }, {  18,-7611 }, {  19,-7611 }, {  20,-7611 },
+ {  21,-7611 }, {  22,-7611 }, {  23,-7611 }, {  24,-7611 }, {  25,-7611 },
+ {  26,-7611 }, {  27,-7611 }, {  28,-7611 }, {  29,-7611 }, {  30,-7611 },
+ {  31,-7611 }, {  32,1167 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  36,-7611 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {  41,1167 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-7611 },
+ {  46,-7636 }, {  47,-7636 }, {  48,-7611 }, {  49,-7611 }, {  50,-7611 },
+ {  51,-7611 }, {  52,-7611 }, {  53,-7611 }, {  54,-7611 }, {  55,-7611 },
+ {  56,-7611 }, {  57,-7611 }, {  58,-7611 }, {   0,   0 }, {   0,   0 },
+ {  61,-7636 }, {   0,   0 }, {  63,-7611 }, {   0,   0 }, {  65,-7611 },
+ {  66,-7611 }, {  67,-7611 }, {  68,-7611 }, {  69,-7611 }, {  70,-7611 },
+ {  71,-7611 }, {  72,-7611 }, {  73,-7611 }, {  74,-7611 }, {  75,-7611 },
+ {  76,-7611 }, {  77,-7611 }, {  78,-7611 }, {  79,-7611 }, {  80,-7611 },
+ {  81,-7611 }, {  82,-7611 }, {  83,-7611 }, {  84,-7611 }, {  85,-7611 },
+ {  86,-7611 }, {  87,-7611 }, {  88,-7611 }, {  89,-7611 }, {  90,-7611 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-7611 },
+ {   0,   0 }, {  97,-7611 }, {  98,-7611 }, {  99,-7611 }, { 100,-7611 },
+ { 101,-7611 }, { 102,-7611 }, { 103,-7611 }, { 104,-7611 }, { 105,-7611 },
+ { 106,-7611 }, { 107,-7611 }, { 108,-7611 }, { 109,-7611 }, { 110,-7611 },
+ { 111,-7611 }, { 112,-7611 }, { 113,-7611 }, { 114,-7611 }, { 115,-7611 },
+ { 116,-7611 }, { 117,-7611 }, { 118,-7611 }, { 119,-7611 }, { 120,-7611 },
+ { 121,-7611 }, { 122,-7611 }, {   0,   0 }, { 124,-7636 }, { 125,1167 },
+ { 126,1167 }, { 127,-7611 }, { 128,-7611 }, { 129,-7611 }, { 130,-7611 },
+ { 131,-7611 }, { 132,-7611 }, { 133,-7611 }, { 134,-7611 }, { 135,-7611 },
+ { 136,-7611 }, { 137,-7611 }, { 138,-7611 }, { 139,-7611 }, { 140,-7611 },
+
+ { 141,-7611 }, { 142,-7611 }, { 143,-7611 }, { 144,-7611 }, { 145,-7611 },
+ { 146,-7611 }, { 147,-7611 }, { 148,-7611 }, { 149,-7611 }, { 150,-7611 },
+ { 151,-7611 }, { 152,-7611 }, { 153,-7611 }, { 154,-7611 }, { 155,-7611 },
+ { 156,-7611 }, { 157,-7611 }, { 158,-7611 }, { 159,-7611 }, { 160,-7611 },
+ { 161,-7611 }, { 162,-7611 }, { 163,-7611 }, { 164,-7611 }, { 165,-7611 },
+ { 166,-7611 }, { 167,-7611 }, { 168,-7611 }, { 169,-7611 }, { 170,-7611 },
+ { 171,-7611 }, { 172,-7611 }, { 173,-7611 }, { 174,-7611 }, { 175,-7611 },
+ { 176,-7611 }, { 177,-7611 }, { 178,-7611 }, { 179,-7611 }, { 180,-7611 },
+ { 181,-7611 }, { 182,-7611 }, { 183,-7611 }, { 184,-7611 }, { 185,-7611 },
+ { 186,-7611 }, { 187,-7611 }, { 188,-7611 }, { 189,-7611 }, { 190,-7611 },
+
+ { 191,-7611 }, { 192,-7611 }, { 193,-7611 }, { 194,-7611 }, { 195,-7611 },
+ { 196,-7611 }, { 197,-7611 }, { 198,-7611 }, { 199,-7611 }, { 200,-7611 },
+ { 201,-7611 }, { 202,-7611 }, { 203,-7611 }, { 204,-7611 }, { 205,-7611 },
+ { 206,-7611 }, { 207,-7611 }, { 208,-7611 }, { 209,-7611 }, { 210,-7611 },
+ { 211,-7611 }, { 212,-7611 }, { 213,-7611 }, { 214,-7611 }, { 215,-7611 },
+ { 216,-7611 }, { 217,-7611 }, { 218,-7611 }, { 219,-7611 }, { 220,-7611 },
+ { 221,-7611 }, { 222,-7611 }, { 223,-7611 }, { 224,-7611 }, { 225,-7611 },
+ { 226,-7611 }, { 227,-7611 }, { 228,-7611 }, { 229,-7611 }, { 230,-7611 },
+ { 231,-7611 }, { 232,-7611 }, { 233,-7611 }, { 234,-7611 }, { 235,-7611 },
+ { 236,-7611 }, { 237,-7611 }, { 238,-7611 }, { 239,-7611 }, { 240,-7611 },
+
+ { 241,-7611 }, { 242,-7611 }, { 243,-7611 }, { 244,-7611 }, { 245,-7611 },
+ { 246,-7611 }, { 247,-7611 }, { 248,-7611 }, { 249,-7611 }, { 250,-7611 },
+ { 251,-7611 }, { 252,-7611 }, { 253,-7611 }, { 254,-7611 }, { 255,-7611 },
+ { 256,-7611 }, {   0,   0 }, {   0,3985 }, {   1,-7869 }, {   2,-7869 },
+ {   3,-7869 }, {   4,-7869 }, {   5,-7869 }, {   6,-7869 }, {   7,-7869 },
+ {   8,-7869 }, {   9, 911 }, {  10, 911 }, {  11,-7869 }, {  12,-7869 },
+ {  13, 911 }, {  14,-7869 }, {  15,-7869 }, {  16,-7869 }, {  17,-7869 },
+ {  18,-7869 }, {  19,-7869 }, {  20,-7869 }, {  21,-7869 }, {  22,-7869 },
+ {  23,-7869 }, {  24,-7869 }, {  25,-7869 }, {  26,-7869 }, {  27,-7869 },
+ {  28,-7869 }, {  29,-7869 }, {  30,-7869 }, {  31,-7869 }, {  32, 911 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-7869 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41, 911 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,-7869 }, {  46,-7894 }, {  47,-7894 },
+ {  48,-7869 }, {  49,-7869 }, {  50,-7869 }, {  51,-7869 }, {  52,-7869 },
+ {  53,-7869 }, {  54,-7869 }, {  55,-7869 }, {  56,-7869 }, {  57,-7869 },
+ {  58,-7869 }, {   0,   0 }, {   0,   0 }, {  61,-7894 }, {   0,   0 },
+ {  63,-7869 }, {   0,   0 }, {  65,-7869 }, {  66,-7869 }, {  67,-7869 },
+ {  68,-7869 }, {  69,-7869 }, {  70,-7869 }, {  71,-7869 }, {  72,-7869 },
+ {  73,-7869 }, {  74,-7869 }, {  75,-7869 }, {  76,-7869 }, {  77,-7869 },
+ {  78,-7869 }, {  79,-7869 }, {  80,-7869 }, {  81,-7869 }, {  82,-7869 },
+
+ {  83,-7869 }, {  84,-7869 }, {  85,-7869 }, {  86,-7869 }, {  87,-7869 },
+ {  88,-7869 }, {  89,-7869 }, {  90,-7869 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  95,-7869 }, {   0,   0 }, {  97,-7869 },
+ {  98,-7869 }, {  99,-7869 }, { 100,-7869 }, { 101,-7869 }, { 102,-7869 },
+ { 103,-7869 }, { 104,-7869 }, { 105,-7869 }, { 106,-7869 }, { 107,-7869 },
+ { 108,-7869 }, { 109,-7869 }, { 110,-7869 }, { 111,-7869 }, { 112,-7869 },
+ { 113,-7869 }, { 114,-7869 }, { 115,-7869 }, { 116,-7869 }, { 117,-7869 },
+ { 118,-7869 }, { 119,-7869 }, { 120,-7869 }, { 121,-7869 }, { 122,-7869 },
+ {   0,   0 }, { 124,-7894 }, { 125, 911 }, { 126, 911 }, { 127,-7869 },
+ { 128,-7869 }, { 129,-7869 }, { 130,-7869 }, { 131,-7869 }, { 132,-7869 },
+
+ { 133,-7869 }, { 134,-7869 }, { 135,-7869 }, { 136,-7869 }, { 137,-7869 },
+ { 138,-7869 }, { 139,-7869 }, { 140,-7869 }, { 141,-7869 }, { 142,-7869 },
+ { 143,-7869 }, { 144,-7869 }, { 145,-7869 }, { 146,-7869 }, { 147,-7869 },
+ { 148,-7869 }, { 149,-7869 }, { 150,-7869 }, { 151,-7869 }, { 152,-7869 },
+ { 153,-7869 }, { 154,-7869 }, { 155,-7869 }, { 156,-7869 }, { 157,-7869 },
+ { 158,-7869 }, { 159,-7869 }, { 160,-7869 }, { 161,-7869 }, { 162,-7869 },
+ { 163,-7869 }, { 164,-7869 }, { 165,-7869 }, { 166,-7869 }, { 167,-7869 },
+ { 168,-7869 }, { 169,-7869 }, { 170,-7869 }, { 171,-7869 }, { 172,-7869 },
+ { 173,-7869 }, { 174,-7869 }, { 175,-7869 }, { 176,-7869 }, { 177,-7869 },
+ { 178,-7869 }, { 179,-7869 }, { 180,-7869 }, { 181,-7869 }, { 182,-7869 },
+
+ { 183,-7869 }, { 184,-7869 }, { 185,-7869 }, { 186,-7869 }, { 187,-7869 },
+ { 188,-7869 }, { 189,-7869 }, { 190,-7869 }, { 191,-7869 }, { 192,-7869 },
+ { 193,-7869 }, { 194,-7869 }, { 195,-7869 }, { 196,-7869 }, { 197,-7869 },
+ { 198,-7869 }, { 199,-7869 }, { 200,-7869 }, { 201,-7869 }, { 202,-7869 },
+ { 203,-7869 }, { 204,-7869 }, { 205,-7869 }, { 206,-7869 }, { 207,-7869 },
+ { 208,-7869 }, { 209,-7869 }, { 210,-7869 }, { 211,-7869 }, { 212,-7869 },
+ { 213,-7869 }, { 214,-7869 }, { 215,-7869 }, { 216,-7869 }, { 217,-7869 },
+ { 218,-7869 }, { 219,-7869 }, { 220,-7869 }, { 221,-7869 }, { 222,-7869 },
+ { 223,-7869 }, { 224,-7869 }, { 225,-7869 }, { 226,-7869 }, { 227,-7869 },
+ { 228,-7869 }, { 229,-7869 }, { 230,-7869 }, { 231,-7869 }, { 232,-7869 },
+
+ { 233,-7869 }, { 234,-7869 }, { 235,-7869 }, { 236,-7869 }, { 237,-7869 },
+ { 238,-7869 }, { 239,-7869 }, { 240,-7869 }, { 241,-7869 }, { 242,-7869 },
+ { 243,-7869 }, { 244,-7869 }, { 245,-7869 }, { 246,-7869 }, { 247,-7869 },
+ { 248,-7869 }, { 249,-7869 }, { 250,-7869 }, { 251,-7869 }, { 252,-7869 },
+ { 253,-7869 }, { 254,-7869 }, { 255,-7869 }, { 256,-7869 }, {   0,   0 },
+ {   0,3727 }, {   1,-8127 }, {   2,-8127 }, {   3,-8127 }, {   4,-8127 },
+ {   5,-8127 }, {   6,-8127 }, {   7,-8127 }, {   8,-8127 }, {   9,-8152 },
+ {  10,-8152 }, {  11,-8127 }, {  12,-8127 }, {  13,-8152 }, {  14,-8127 },
+ {  15,-8127 }, {  16,-8127 }, {  17,-8127 }, {  18,-8127 }, {  19,-8127 },
+ {  20,-8127 }, {  21,-8127 }, {  22,-8127 }, {  23,-8127 }, {  24,-8127 },
+
+ {  25,-8127 }, {  26,-8127 }, {  27,-8127 }, {  28,-8127 }, {  29,-8127 },
+ {  30,-8127 }, {  31,-8127 }, {  32,-8152 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  36,-8127 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  41,-8152 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,-8127 }, {  46,-8152 }, {  47,-8152 }, {  48,-8127 }, {  49,-8127 },
+ {  50,-8127 }, {  51,-8127 }, {  52,-8127 }, {  53,-8127 }, {  54,-8127 },
+ {  55,-8127 }, {  56,-8127 }, {  57,-8127 }, {  58,-8127 }, {   0,   0 },
+ {   0,   0 }, {  61,-8152 }, {   0,   0 }, {  63,-8127 }, {   0,   0 },
+ {  65,-8127 }, {  66,-8127 }, {  67,-8127 }, {  68,-8127 }, {  69,-8127 },
+ {  70,-8127 }, {  71,-8127 }, {  72,-8127 }, {  73,-8127 }, {  74,-8127 },
+
+ {  75,-8127 }, {  76,-8127 }, {  77,-8127 }, {  78,-8127 }, {  79,-8127 },
+ {  80,-8127 }, {  81,-8127 }, {  82,-8127 }, {  83,-8127 }, {  84,-8127 },
+ {  85,-8127 }, {  86,-8127 }, {  87,-8127 }, {  88,-8127 }, {  89,-8127 },
+ {  90,-8127 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  95,-8127 }, {   0,   0 }, {  97,-8127 }, {  98,-8127 }, {  99,-8127 },
+ { 100,-8127 }, { 101,-8127 }, { 102, 932 }, { 103,-8127 }, { 104,-8127 },
+ { 105,-8127 }, { 106,-8127 }, { 107,-8127 }, { 108,-8127 }, { 109,-8127 },
+ { 110,-8127 }, { 111,-8127 }, { 112,-8127 }, { 113,-8127 }, { 114,-8127 },
+ { 115,-8127 }, { 116,-8127 }, { 117,-8127 }, { 118,-8127 }, { 119,-8127 },
+ { 120,-8127 }, { 121,-8127 }, { 122,-8127 }, {   0,   0 }, { 124,-8152 },
+
+ { 125,-8152 }, { 126,-8152 }, { 127,-8127 }, { 128,-8127 }, { 129,-8127 },
+ { 130,-8127 }, { 131,-8127 }, { 132,-8127 }, { 133,-8127 }, { 134,-8127 },
+ { 135,-8127 }, { 136,-8127 }, { 137,-8127 }, { 138,-8127 }, { 139,-8127 },
+ { 140,-8127 }, { 141,-8127 }, { 142,-8127 }, { 143,-8127 }, { 144,-8127 },
+ { 145,-8127 }, { 146,-8127 }, { 147,-8127 }, { 148,-8127 }, { 149,-8127 },
+ { 150,-8127 }, { 151,-8127 }, { 152,-8127 }, { 153,-8127 }, { 154,-8127 },
+ { 155,-8127 }, { 156,-8127 }, { 157,-8127 }, { 158,-8127 }, { 159,-8127 },
+ { 160,-8127 }, { 161,-8127 }, { 162,-8127 }, { 163,-8127 }, { 164,-8127 },
+ { 165,-8127 }, { 166,-8127 }, { 167,-8127 }, { 168,-8127 }, { 169,-8127 },
+ { 170,-8127 }, { 171,-8127 }, { 172,-8127 }, { 173,-8127 }, { 174,-8127 },
+
+ { 175,-8127 }, { 176,-8127 }, { 177,-8127 }, { 178,-8127 }, { 179,-8127 },
+ { 180,-8127 }, { 181,-8127 }, { 182,-8127 }, { 183,-8127 }, { 184,-8127 },
+ { 185,-8127 }, { 186,-8127 }, { 187,-8127 }, { 188,-8127 }, { 189,-8127 },
+ { 190,-8127 }, { 191,-8127 }, { 192,-8127 }, { 193,-8127 }, { 194,-8127 },
+ { 195,-8127 }, { 196,-8127 }, { 197,-8127 }, { 198,-8127 }, { 199,-8127 },
+ { 200,-8127 }, { 201,-8127 }, { 202,-8127 }, { 203,-8127 }, { 204,-8127 },
+ { 205,-8127 }, { 206,-8127 }, { 207,-8127 }, { 208,-8127 }, { 209,-8127 },
+ { 210,-8127 }, { 211,-8127 }, { 212,-8127 }, { 213,-8127 }, { 214,-8127 },
+ { 215,-8127 }, { 216,-8127 }, { 217,-8127 }, { 218,-8127 }, { 219,-8127 },
+ { 220,-8127 }, { 221,-8127 }, { 222,-8127 }, { 223,-8127 }, { 224,-8127 },
+
+ { 225,-8127 }, { 226,-8127 }, { 227,-8127 }, { 228,-8127 }, { 229,-8127 },
+ { 230,-8127 }, { 231,-8127 }, { 232,-8127 }, { 233,-8127 }, { 234,-8127 },
+ { 235,-8127 }, { 236,-8127 }, { 237,-8127 }, { 238,-8127 }, { 239,-8127 },
+ { 240,-8127 }, { 241,-8127 }, { 242,-8127 }, { 243,-8127 }, { 244,-8127 },
+ { 245,-8127 }, { 246,-8127 }, { 247,-8127 }, { 248,-8127 }, { 249,-8127 },
+ { 250,-8127 }, { 251,-8127 }, { 252,-8127 }, { 253,-8127 }, { 254,-8127 },
+ { 255,-8127 }, { 256,-8127 }, {   0,   0 }, {   0,3469 }, {   0,   0 },
+ {   0,3467 }, {   0,   0 }, {   0,3465 }, {   0,   0 }, {   0,3463 },
+ {   0,  16 }, {   0,3461 }, {   9,   0 }, {  10,   0 }, {   0,  26 },
+ {   0,3457 }, {  13,   0 }, {   0,  17 }, {   0,3454 }, {   0,  36 },
+
+ {   0,3452 }, {   0,   0 }, {   0,3450 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  32,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45, 913 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 115, 400 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,   2 }, { 126,   4 },
+ { 125, 397 }, {   0,   0 }, { 125,  -2 }, {   0,   0 }, {   0,3338 },
+ {   1, 277 }, {   2, 277 }, {   3, 277 }, {   4, 277 }, {   5, 277 },
+ {   6, 277 }, {   7, 277 }, {   8, 277 }, {   9, 277 }, {  10, 277 },
+ {  11, 277 }, {  12, 277 }, {  13, 277 }, {  14, 277 }, {  15, 277 },
+ {  16, 277 }, {  17, 277 }, {  18, 277 }, {  19, 277 }, {  20, 277 },
+ {  21, 277 }, {  22, 277 }, {  23, 277 }, {  24, 277 }, {  25, 277 },
+ {  26, 277 }, {  27, 277 }, {  28, 277 }, {  29, 277 }, {  30, 277 },
+ {  31, 277 }, {  32, 277 }, {  33, 277 }, {  34, 277 }, {  35, 277 },
+
+ {  36, 277 }, {  37, 277 }, {  38, 277 }, {  39, 277 }, {  40, 277 },
+ {  41, 277 }, {  42, 277 }, {  43, 277 }, {  44, 277 }, {  45, 277 },
+ {  46, 277 }, {  47,1059 }, {  48, 277 }, {  49, 277 }, {  50, 277 },
+ {  51, 277 }, {  52, 277 }, {  53, 277 }, {  54, 277 }, {  55, 277 },
+ {  56, 277 }, {  57, 277 }, {  58, 277 }, {  59, 277 }, {  60, 277 },
+ {  61, 277 }, {  62, 277 }, {  63, 277 }, {  64, 277 }, {  65, 277 },
+ {  66, 277 }, {  67, 277 }, {  68, 277 }, {  69, 277 }, {  70, 277 },
+ {  71, 277 }, {  72, 277 }, {  73, 277 }, {  74, 277 }, {  75, 277 },
+ {  76, 277 }, {  77, 277 }, {  78, 277 }, {  79, 277 }, {  80, 277 },
+ {  81, 277 }, {  82, 277 }, {  83, 277 }, {  84, 277 }, {  85, 277 },
+
+ {  86, 277 }, {  87, 277 }, {  88, 277 }, {  89, 277 }, {  90, 277 },
+ {  91, 277 }, {  92, 277 }, {  93, 277 }, {  94, 277 }, {  95, 277 },
+ {  96, 277 }, {  97, 277 }, {  98, 277 }, {  99, 277 }, { 100, 277 },
+ { 101, 277 }, { 102, 277 }, { 103, 277 }, { 104, 277 }, { 105, 277 },
+ { 106, 277 }, { 107, 277 }, { 108, 277 }, { 109, 277 }, { 110, 277 },
+ { 111, 277 }, { 112, 277 }, { 113, 277 }, { 114, 277 }, { 115, 277 },
+ { 116, 277 }, { 117, 277 }, { 118, 277 }, { 119, 277 }, { 120, 277 },
+ { 121, 277 }, { 122, 277 }, { 123, 277 }, { 124, 277 }, { 125, 277 },
+ { 126, 277 }, { 127, 277 }, { 128, 277 }, { 129, 277 }, { 130, 277 },
+ { 131, 277 }, { 132, 277 }, { 133, 277 }, { 134, 277 }, { 135, 277 },
+
+ { 136, 277 }, { 137, 277 }, { 138, 277 }, { 139, 277 }, { 140, 277 },
+ { 141, 277 }, { 142, 277 }, { 143, 277 }, { 144, 277 }, { 145, 277 },
+ { 146, 277 }, { 147, 277 }, { 148, 277 }, { 149, 277 }, { 150, 277 },
+ { 151, 277 }, { 152, 277 }, { 153, 277 }, { 154, 277 }, { 155, 277 },
+ { 156, 277 }, { 157, 277 }, { 158, 277 }, { 159, 277 }, { 160, 277 },
+ { 161, 277 }, { 162, 277 }, { 163, 277 }, { 164, 277 }, { 165, 277 },
+ { 166, 277 }, { 167, 277 }, { 168, 277 }, { 169, 277 }, { 170, 277 },
+ { 171, 277 }, { 172, 277 }, { 173, 277 }, { 174, 277 }, { 175, 277 },
+ { 176, 277 }, { 177, 277 }, { 178, 277 }, { 179, 277 }, { 180, 277 },
+ { 181, 277 }, { 182, 277 }, { 183, 277 }, { 184, 277 }, { 185, 277 },
+
+ { 186, 277 }, { 187, 277 }, { 188, 277 }, { 189, 277 }, { 190, 277 },
+ { 191, 277 }, { 192, 277 }, { 193, 277 }, { 194, 277 }, { 195, 277 },
+ { 196, 277 }, { 197, 277 }, { 198, 277 }, { 199, 277 }, { 200, 277 },
+ { 201, 277 }, { 202, 277 }, { 203, 277 }, { 204, 277 }, { 205, 277 },
+ { 206, 277 }, { 207, 277 }, { 208, 277 }, { 209, 277 }, { 210, 277 },
+ { 211, 277 }, { 212, 277 }, { 213, 277 }, { 214, 277 }, { 215, 277 },
+ { 216, 277 }, { 217, 277 }, { 218, 277 }, { 219, 277 }, { 220, 277 },
+ { 221, 277 }, { 222, 277 }, { 223, 277 }, { 224, 277 }, { 225, 277 },
+ { 226, 277 }, { 227, 277 }, { 228, 277 }, { 229, 277 }, { 230, 277 },
+ { 231, 277 }, { 232, 277 }, { 233, 277 }, { 234, 277 }, { 235, 277 },
+
+ { 236, 277 }, { 237, 277 }, { 238, 277 }, { 239, 277 }, { 240, 277 },
+ { 241, 277 }, { 242, 277 }, { 243, 277 }, { 244, 277 }, { 245, 277 },
+ { 246, 277 }, { 247, 277 }, { 248, 277 }, { 249, 277 }, { 250, 277 },
+ { 251, 277 }, { 252, 277 }, { 253, 277 }, { 254, 277 }, { 255, 277 },
+ { 256, 277 }, {   0,   1 }, {   0,3080 }, {   0,   1 }, {   0,3078 },
+ {   0,  46 }, {   0,3076 }, {   0,  43 }, {   0,3074 }, {   0,  28 },
+ {   0,3072 }, {   0,  22 }, {   0,3070 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,3063 },
+ {   0,   8 }, {   0,3061 }, {   0,   1 }, {   0,3059 }, {   0,  44 },
+ {   0,3057 }, {   0,   0 }, {   0,3055 }, {   0,   0 }, {   0,3053 },
+
+ {   1,-8801 }, {   2,-8801 }, {   3,-8801 }, {   4,-8801 }, {   5,-8801 },
+ {   6,-8801 }, {   7,-8801 }, {   8,-8801 }, {   9,  -4 }, {  10,  -4 },
+ {  11,-8801 }, {  12,-8801 }, {  13,  -4 }, {  14,-8801 }, {  15,-8801 },
+ {  16,-8801 }, {  17,-8801 }, {  18,-8801 }, {  19,-8801 }, {  20,-8801 },
+ {  21,-8801 }, {  22,-8801 }, {  23,-8801 }, {  24,-8801 }, {  25,-8801 },
+ {  26,-8801 }, {  27,-8801 }, {  28,-8801 }, {  29,-8801 }, {  30,-8801 },
+ {  31,-8801 }, {  32,  -4 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  36,-8801 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  41,  -4 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-8801 },
+ {  46,-8826 }, {  47,-8826 }, {  48,-8801 }, {  49,-8801 }, {  50,-8801 },
+
+ {  51,-8801 }, {  52,-8801 }, {  53,-8801 }, {  54,-8801 }, {  55,-8801 },
+ {  56,-8801 }, {  57,-8801 }, {  58,-8801 }, {   0,   0 }, {   0,   0 },
+ {  61,-8826 }, {   0,   0 }, {  63,-8801 }, {   0,   0 }, {  65,-8801 },
+ {  66,-8801 }, {  67,-8801 }, {  68,-8801 }, {  69,-8801 }, {  70,-8801 },
+ {  71,-8801 }, {  72,-8801 }, {  73,-8801 }, {  74,-8801 }, {  75,-8801 },
+ {  76,-8801 }, {  77,-8801 }, {  78,-8801 }, {  79,-8801 }, {  80,-8801 },
+ {  81,-8801 }, {  82,-8801 }, {  83,-8801 }, {  84,-8801 }, {  85,-8801 },
+ {  86,-8801 }, {  87,-8801 }, {  88,-8801 }, {  89,-8801 }, {  90,-8801 },
+ { 101,1300 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-8801 },
+ { 123,  21 }, {  97,-8801 }, {  98,-8801 }, {  99,-8801 }, { 100,-8801 },
+
+ { 101,-8801 }, { 102,-8801 }, { 103,-8801 }, { 104,-8801 }, { 105,-8801 },
+ { 106,-8801 }, { 107,-8801 }, { 108,-8801 }, { 109,-8801 }, { 110,-8801 },
+ { 111,-8801 }, { 112,-8801 }, { 113,-8801 }, { 114,-8801 }, { 115,-8801 },
+ { 116,-8801 }, { 117,-8801 }, { 118,-8801 }, { 119,-8801 }, { 120,-8801 },
+ { 121,-8801 }, { 122,-8801 }, { 125,2460 }, { 124,-8826 }, { 125,  -4 },
+ { 126,  -4 }, { 127,-8801 }, { 128,-8801 }, { 129,-8801 }, { 130,-8801 },
+ { 131,-8801 }, { 132,-8801 }, { 133,-8801 }, { 134,-8801 }, { 135,-8801 },
+ { 136,-8801 }, { 137,-8801 }, { 138,-8801 }, { 139,-8801 }, { 140,-8801 },
+ { 141,-8801 }, { 142,-8801 }, { 143,-8801 }, { 144,-8801 }, { 145,-8801 },
+ { 146,-8801 }, { 147,-8801 }, { 148,-8801 }, { 149,-8801 }, { 150,-8801 },
+
+ { 151,-8801 }, { 152,-8801 }, { 153,-8801 }, { 154,-8801 }, { 155,-8801 },
+ { 156,-8801 }, { 157,-8801 }, { 158,-8801 }, { 159,-8801 }, { 160,-8801 },
+ { 161,-8801 }, { 162,-8801 }, { 163,-8801 }, { 164,-8801 }, { 165,-8801 },
+ { 166,-8801 }, { 167,-8801 }, { 168,-8801 }, { 169,-8801 }, { 170,-8801 },
+ { 171,-8801 }, { 172,-8801 }, { 173,-8801 }, { 174,-8801 }, { 175,-8801 },
+ { 176,-8801 }, { 177,-8801 }, { 178,-8801 }, { 179,-8801 }, { 180,-8801 },
+ { 181,-8801 }, { 182,-8801 }, { 183,-8801 }, { 184,-8801 }, { 185,-8801 },
+ { 186,-8801 }, { 187,-8801 }, { 188,-8801 }, { 189,-8801 }, { 190,-8801 },
+ { 191,-8801 }, { 192,-8801 }, { 193,-8801 }, { 194,-8801 }, { 195,-8801 },
+ { 196,-8801 }, { 197,-8801 }, { 198,-8801 }, { 199,-8801 }, { 200,-8801 },
+
+ { 201,-8801 }, { 202,-8801 }, { 203,-8801 }, { 204,-8801 }, { 205,-8801 },
+ { 206,-8801 }, { 207,-8801 }, { 208,-8801 }, { 209,-8801 }, { 210,-8801 },
+ { 211,-8801 }, { 212,-8801 }, { 213,-8801 }, { 214,-8801 }, { 215,-8801 },
+ { 216,-8801 }, { 217,-8801 }, { 218,-8801 }, { 219,-8801 }, { 220,-8801 },
+ { 221,-8801 }, { 222,-8801 }, { 223,-8801 }, { 224,-8801 }, { 225,-8801 },
+ { 226,-8801 }, { 227,-8801 }, { 228,-8801 }, { 229,-8801 }, { 230,-8801 },
+ { 231,-8801 }, { 232,-8801 }, { 233,-8801 }, { 234,-8801 }, { 235,-8801 },
+ { 236,-8801 }, { 237,-8801 }, { 238,-8801 }, { 239,-8801 }, { 240,-8801 },
+ { 241,-8801 }, { 242,-8801 }, { 243,-8801 }, { 244,-8801 }, { 245,-8801 },
+ { 246,-8801 }, { 247,-8801 }, { 248,-8801 }, { 249,-8801 }, { 250,-8801 },
+
+ { 251,-8801 }, { 252,-8801 }, { 253,-8801 }, { 254,-8801 }, { 255,-8801 },
+ { 256,-8801 }, {   0,   0 }, {   0,2795 }, {   1,-9059 }, {   2,-9059 },
+ {   3,-9059 }, {   4,-9059 }, {   5,-9059 }, {   6,-9059 }, {   7,-9059 },
+ {   8,-9059 }, {   9,-9084 }, {  10,-9084 }, {  11,-9059 }, {  12,-9059 },
+ {  13,-9084 }, {  14,-9059 }, {  15,-9059 }, {  16,-9059 }, {  17,-9059 },
+ {  18,-9059 }, {  19,-9059 }, {  20,-9059 }, {  21,-9059 }, {  22,-9059 },
+ {  23,-9059 }, {  24,-9059 }, {  25,-9059 }, {  26,-9059 }, {  27,-9059 },
+ {  28,-9059 }, {  29,-9059 }, {  30,-9059 }, {  31,-9059 }, {  32,-9084 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-9059 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-9084 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {  45,-9059 }, {  46,-9084 }, {  47,-9084 },
+ {  48,-9059 }, {  49,-9059 }, {  50,-9059 }, {  51,-9059 }, {  52,-9059 },
+ {  53,-9059 }, {  54,-9059 }, {  55,-9059 }, {  56,-9059 }, {  57,-9059 },
+ {  58,-9059 }, {   0,   0 }, {   0,   0 }, {  61,-9084 }, {   0,   0 },
+ {  63,-9059 }, {   0,   0 }, {  65,-9059 }, {  66,-9059 }, {  67,-9059 },
+ {  68,-9059 }, {  69,-9059 }, {  70,-9059 }, {  71,-9059 }, {  72,-9059 },
+ {  73,-9059 }, {  74,-9059 }, {  75,-9059 }, {  76,-9059 }, {  77,-9059 },
+ {  78,-9059 }, {  79,-9059 }, {  80,-9059 }, {  81,-9059 }, {  82,-9059 },
+ {  83,-9059 }, {  84,-9059 }, {  85,-9059 }, {  86,-9059 }, {  87,-9059 },
+ {  88,-9059 }, {  89,-9059 }, {  90,-9059 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {  95,-9059 }, {   0,   0 }, {  97,-9059 },
+ {  98,-9059 }, {  99,-9059 }, { 100,-9059 }, { 101,-9059 }, { 102,-9059 },
+ { 103,-9059 }, { 104,-9059 }, { 105, 774 }, { 106,-9059 }, { 107,-9059 },
+ { 108,-9059 }, { 109,-9059 }, { 110,-9059 }, { 111,-9059 }, { 112,-9059 },
+ { 113,-9059 }, { 114,-9059 }, { 115,-9059 }, { 116,-9059 }, { 117,-9059 },
+ { 118,-9059 }, { 119,-9059 }, { 120,-9059 }, { 121,-9059 }, { 122,-9059 },
+ {   0,   0 }, { 124,-9084 }, { 125,-9084 }, { 126,-9084 }, { 127,-9059 },
+ { 128,-9059 }, { 129,-9059 }, { 130,-9059 }, { 131,-9059 }, { 132,-9059 },
+ { 133,-9059 }, { 134,-9059 }, { 135,-9059 }, { 136,-9059 }, { 137,-9059 },
+ { 138,-9059 }, { 139,-9059 }, { 140,-9059 }, { 141,-9059 }, { 142,-9059 },
+
+ { 143,-9059 }, { 144,-9059 }, { 145,-9059 }, { 146,-9059 }, { 147,-9059 },
+ { 148,-9059 }, { 149,-9059 }, { 150,-9059 }, { 151,-9059 }, { 152,-9059 },
+ { 153,-9059 }, { 154,-9059 }, { 155,-9059 }, { 156,-9059 }, { 157,-9059 },
+ { 158,-9059 }, { 159,-9059 }, { 160,-9059 }, { 161,-9059 }, { 162,-9059 },
+ { 163,-9059 }, { 164,-9059 }, { 165,-9059 }, { 166,-9059 }, { 167,-9059 },
+ { 168,-9059 }, { 169,-9059 }, { 170,-9059 }, { 171,-9059 }, { 172,-9059 },
+ { 173,-9059 }, { 174,-9059 }, { 175,-9059 }, { 176,-9059 }, { 177,-9059 },
+ { 178,-9059 }, { 179,-9059 }, { 180,-9059 }, { 181,-9059 }, { 182,-9059 },
+ { 183,-9059 }, { 184,-9059 }, { 185,-9059 }, { 186,-9059 }, { 187,-9059 },
+ { 188,-9059 }, { 189,-9059 }, { 190,-9059 }, { 191,-9059 }, { 192,-9059 },
+
+ { 193,-9059 }, { 194,-9059 }, { 195,-9059 }, { 196,-9059 }, { 197,-9059 },
+ { 198,-9059 }, { 199,-9059 }, { 200,-9059 }, { 201,-9059 }, { 202,-9059 },
+ { 203,-9059 }, { 204,-9059 }, { 205,-9059 }, { 206,-9059 }, { 207,-9059 },
+ { 208,-9059 }, { 209,-9059 }, { 210,-9059 }, { 211,-9059 }, { 212,-9059 },
+ { 213,-9059 }, { 214,-9059 }, { 215,-9059 }, { 216,-9059 }, { 217,-9059 },
+ { 218,-9059 }, { 219,-9059 }, { 220,-9059 }, { 221,-9059 }, { 222,-9059 },
+ { 223,-9059 }, { 224,-9059 }, { 225,-9059 }, { 226,-9059 }, { 227,-9059 },
+ { 228,-9059 }, { 229,-9059 }, { 230,-9059 }, { 231,-9059 }, { 232,-9059 },
+ { 233,-9059 }, { 234,-9059 }, { 235,-9059 }, { 236,-9059 }, { 237,-9059 },
+ { 238,-9059 }, { 239,-9059 }, { 240,-9059 }, { 241,-9059 }, { 242,-9059 },
+
+ { 243,-9059 }, { 244,-9059 }, { 245,-9059 }, { 246,-9059 }, { 247,-9059 },
+ { 248,-9059 }, { 249,-9059 }, { 250,-9059 }, { 251,-9059 }, { 252,-9059 },
+ { 253,-9059 }, { 254,-9059 }, { 255,-9059 }, { 256,-9059 }, {   0,   0 },
+ {   0,2537 }, {   1, 902 }, {   2, 902 }, {   3, 902 }, {   4, 902 },
+ {   5, 902 }, {   6, 902 }, {   7, 902 }, {   8, 902 }, {   9, 902 },
+ {  10, 902 }, {  11, 902 }, {  12, 902 }, {  13, 902 }, {  14, 902 },
+ {  15, 902 }, {  16, 902 }, {  17, 902 }, {  18, 902 }, {  19, 902 },
+ {  20, 902 }, {  21, 902 }, {  22, 902 }, {  23, 902 }, {  24, 902 },
+ {  25, 902 }, {  26, 902 }, {  27, 902 }, {  28, 902 }, {  29, 902 },
+ {  30, 902 }, {  31, 902 }, {  32, 902 }, {  33, 902 }, {  34, 902 },
+
+ {  35, 902 }, {  36, 902 }, {  37, 902 }, {  38, 902 }, {  39, 902 },
+ {  40, 902 }, {  41, 902 }, {  42, 902 }, {  43, 902 }, {  44, 902 },
+ {  45,1160 }, {  46, 902 }, {  47, 902 }, {  48, 902 }, {  49, 902 },
+ {  50, 902 }, {  51, 902 }, {  52, 902 }, {  53, 902 }, {  54, 902 },
+ {  55, 902 }, {  56, 902 }, {  57, 902 }, {  58, 902 }, {  59, 902 },
+ {  60, 902 }, {  61, 902 }, {  62, 902 }, {  63, 902 }, {  64, 902 },
+ {  65, 902 }, {  66, 902 }, {  67, 902 }, {  68, 902 }, {  69, 902 },
+ {  70, 902 }, {  71, 902 }, {  72, 902 }, {  73, 902 }, {  74, 902 },
+ {  75, 902 }, {  76, 902 }, {  77, 902 }, {  78, 902 }, {  79, 902 },
+ {  80, 902 }, {  81, 902 }, {  82, 902 }, {  83, 902 }, {  84, 902 },
+
+ {  85, 902 }, {  86, 902 }, {  87, 902 }, {  88, 902 }, {  89, 902 },
+ {  90, 902 }, {  91, 902 }, {  92, 902 }, {  93, 902 }, {  94, 902 },
+ {  95, 902 }, {  96, 902 }, {  97, 902 }, {  98, 902 }, {  99, 902 },
+ { 100, 902 }, { 101, 902 }, { 102, 902 }, { 103, 902 }, { 104, 902 },
+ { 105, 902 }, { 106, 902 }, { 107, 902 }, { 108, 902 }, { 109, 902 },
+ { 110, 902 }, { 111, 902 }, { 112, 902 }, { 113, 902 }, { 114, 902 },
+ { 115, 902 }, { 116, 902 }, { 117, 902 }, { 118, 902 }, { 119, 902 },
+ { 120, 902 }, { 121, 902 }, { 122, 902 }, { 123, 902 }, { 124, 902 },
+ { 125, 902 }, { 126, 902 }, { 127, 902 }, { 128, 902 }, { 129, 902 },
+ { 130, 902 }, { 131, 902 }, { 132, 902 }, { 133, 902 }, { 134, 902 },
+
+ { 135, 902 }, { 136, 902 }, { 137, 902 }, { 138, 902 }, { 139, 902 },
+ { 140, 902 }, { 141, 902 }, { 142, 902 }, { 143, 902 }, { 144, 902 },
+ { 145, 902 }, { 146, 902 }, { 147, 902 }, { 148, 902 }, { 149, 902 },
+ { 150, 902 }, { 151, 902 }, { 152, 902 }, { 153, 902 }, { 154, 902 },
+ { 155, 902 }, { 156, 902 }, { 157, 902 }, { 158, 902 }, { 159, 902 },
+ { 160, 902 }, { 161, 902 }, { 162, 902 }, { 163, 902 }, { 164, 902 },
+ { 165, 902 }, { 166, 902 }, { 167, 902 }, { 168, 902 }, { 169, 902 },
+ { 170, 902 }, { 171, 902 }, { 172, 902 }, { 173, 902 }, { 174, 902 },
+ { 175, 902 }, { 176, 902 }, { 177, 902 }, { 178, 902 }, { 179, 902 },
+ { 180, 902 }, { 181, 902 }, { 182, 902 }, { 183, 902 }, { 184, 902 },
+
+ { 185, 902 }, { 186, 902 }, { 187, 902 }, { 188, 902 }, { 189, 902 },
+ { 190, 902 }, { 191, 902 }, { 192, 902 }, { 193, 902 }, { 194, 902 },
+ { 195, 902 }, { 196, 902 }, { 197, 902 }, { 198, 902 }, { 199, 902 },
+ { 200, 902 }, { 201, 902 }, { 202, 902 }, { 203, 902 }, { 204, 902 },
+ { 205, 902 }, { 206, 902 }, { 207, 902 }, { 208, 902 }, { 209, 902 },
+ { 210, 902 }, { 211, 902 }, { 212, 902 }, { 213, 902 }, { 214, 902 },
+ { 215, 902 }, { 216, 902 }, { 217, 902 }, { 218, 902 }, { 219, 902 },
+ { 220, 902 }, { 221, 902 }, { 222, 902 }, { 223, 902 }, { 224, 902 },
+ { 225, 902 }, { 226, 902 }, { 227, 902 }, { 228, 902 }, { 229, 902 },
+ { 230, 902 }, { 231, 902 }, { 232, 902 }, { 233, 902 }, { 234, 902 },
+
+ { 235, 902 }, { 236, 902 }, { 237, 902 }, { 238, 902 }, { 239, 902 },
+ { 240, 902 }, { 241, 902 }, { 242, 902 }, { 243, 902 }, { 244, 902 },
+ { 245, 902 }, { 246, 902 }, { 247, 902 }, { 248, 902 }, { 249, 902 },
+ { 250, 902 }, { 251, 902 }, { 252, 902 }, { 253, 902 }, { 254, 902 },
+ { 255, 902 }, { 256, 902 }, {   0,   0 }, {   0,2279 }, {   1,1160 },
+ {   2,1160 }, {   3,1160 }, {   4,1160 }, {   5,1160 }, {   6,1160 },
+ {   7,1160 }, {   8,1160 }, {   0,   0 }, {   0,   0 }, {  11,1160 },
+ {  12,1160 }, {   0,   0 }, {  14,1160 }, {  15,1160 }, {  16,1160 },
+ {  17,1160 }, {  18,1160 }, {  19,1160 }, {  20,1160 }, {  21,1160 },
+ {  22,1160 }, {  23,1160 }, {  24,1160 }, {  25,1160 }, {  26,1160 },
+
+ {  27,1160 }, {  28,1160 }, {  29,1160 }, {  30,1160 }, {  31,1160 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,1160 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,1160 }, {   0,   0 },
+ {   0,   0 }, {  48,1160 }, {  49,1160 }, {  50,1160 }, {  51,1160 },
+ {  52,1160 }, {  53,1160 }, {  54,1160 }, {  55,1160 }, {  56,1160 },
+ {  57,1160 }, {  58,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  63,1160 }, {   0,   0 }, {  65,1160 }, {  66,1160 },
+ {  67,1160 }, {  68,1160 }, {  69,1160 }, {  70,1160 }, {  71,1160 },
+ {  72,1160 }, {  73,1160 }, {  74,1160 }, {  75,1160 }, {  76,1160 },
+
+ {  77,1160 }, {  78,1160 }, {  79,1160 }, {  80,1160 }, {  81,1160 },
+ {  82,1160 }, {  83,1160 }, {  84,1160 }, {  85,1160 }, {  86,1160 },
+ {  87,1160 }, {  88,1160 }, {  89,1160 }, {  90,1160 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,1160 }, {   0,   0 },
+ {  97,1160 }, {  98,1160 }, {  99,1160 }, { 100,1160 }, { 101,1160 },
+ { 102,1160 }, { 103,1160 }, { 104,1160 }, { 105,1160 }, { 106,1160 },
+ { 107,1160 }, { 108,1160 }, { 109,1160 }, { 110,1160 }, { 111,1160 },
+ { 112,1160 }, { 113,1160 }, { 114,1160 }, { 115,1160 }, { 116,1160 },
+ { 117,1160 }, { 118,1160 }, { 119,1160 }, { 120,1160 }, { 121,1160 },
+ { 122,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ { 127,1160 }, { 128,1160 }, { 129,1160 }, { 130,1160 }, { 131,1160 },
+ { 132,1160 }, { 133,1160 }, { 134,1160 }, { 135,1160 }, { 136,1160 },
+ { 137,1160 }, { 138,1160 }, { 139,1160 }, { 140,1160 }, { 141,1160 },
+ { 142,1160 }, { 143,1160 }, { 144,1160 }, { 145,1160 }, { 146,1160 },
+ { 147,1160 }, { 148,1160 }, { 149,1160 }, { 150,1160 }, { 151,1160 },
+ { 152,1160 }, { 153,1160 }, { 154,1160 }, { 155,1160 }, { 156,1160 },
+ { 157,1160 }, { 158,1160 }, { 159,1160 }, { 160,1160 }, { 161,1160 },
+ { 162,1160 }, { 163,1160 }, { 164,1160 }, { 165,1160 }, { 166,1160 },
+ { 167,1160 }, { 168,1160 }, { 169,1160 }, { 170,1160 }, { 171,1160 },
+ { 172,1160 }, { 173,1160 }, { 174,1160 }, { 175,1160 }, { 176,1160 },
+
+ { 177,1160 }, { 178,1160 }, { 179,1160 }, { 180,1160 }, { 181,1160 },
+ { 182,1160 }, { 183,1160 }, { 184,1160 }, { 185,1160 }, { 186,1160 },
+ { 187,1160 }, { 188,1160 }, { 189,1160 }, { 190,1160 }, { 191,1160 },
+ { 192,1160 }, { 193,1160 }, { 194,1160 }, { 195,1160 }, { 196,1160 },
+ { 197,1160 }, { 198,1160 }, { 199,1160 }, { 200,1160 }, { 201,1160 },
+ { 202,1160 }, { 203,1160 }, { 204,1160 }, { 205,1160 }, { 206,1160 },
+ { 207,1160 }, { 208,1160 }, { 209,1160 }, { 210,1160 }, { 211,1160 },
+ { 212,1160 }, { 213,1160 }, { 214,1160 }, { 215,1160 }, { 216,1160 },
+ { 217,1160 }, { 218,1160 }, { 219,1160 }, { 220,1160 }, { 221,1160 },
+ { 222,1160 }, { 223,1160 }, { 224,1160 }, { 225,1160 }, { 226,1160 },
+
+ { 227,1160 }, { 228,1160 }, { 229,1160 }, { 230,1160 }, { 231,1160 },
+ { 232,1160 }, { 233,1160 }, { 234,1160 }, { 235,1160 }, { 236,1160 },
+ { 237,1160 }, { 238,1160 }, { 239,1160 }, { 240,1160 }, { 241,1160 },
+ { 242,1160 }, { 243,1160 }, { 244,1160 }, { 245,1160 }, { 246,1160 },
+ { 247,1160 }, { 248,1160 }, { 249,1160 }, { 250,1160 }, { 251,1160 },
+ { 252,1160 }, { 253,1160 }, { 254,1160 }, { 255,1160 }, { 256,1160 },
+ {   0,   0 }, {   0,2021 }, {   1,-9833 }, {   2,-9833 }, {   3,-9833 },
+ {   4,-9833 }, {   5,-9833 }, {   6,-9833 }, {   7,-9833 }, {   8,-9833 },
+ {   9,-9858 }, {  10,-9858 }, {  11,-9833 }, {  12,-9833 }, {  13,-9858 },
+ {  14,-9833 }, {  15,-9833 }, {  16,-9833 }, {  17,-9833 }, {  18,-9833 },
+
+ {  19,-9833 }, {  20,-9833 }, {  21,-9833 }, {  22,-9833 }, {  23,-9833 },
+ {  24,-9833 }, {  25,-9833 }, {  26,-9833 }, {  27,-9833 }, {  28,-9833 },
+ {  29,-9833 }, {  30,-9833 }, {  31,-9833 }, {  32,-9858 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,-9833 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,-9858 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,-9833 }, {  46,-9858 }, {  47,-9858 }, {  48,-9833 },
+ {  49,-9833 }, {  50,-9833 }, {  51,-9833 }, {  52,-9833 }, {  53,-9833 },
+ {  54,-9833 }, {  55,-9833 }, {  56,-9833 }, {  57,-9833 }, {  58,-9833 },
+ {   0,   0 }, {   0,   0 }, {  61,-9858 }, {   0,   0 }, {  63,-9833 },
+ {   0,   0 }, {  65,-9833 }, {  66,-9833 }, {  67,-9833 }, {  68,-9833 },
+
+ {  69,-9833 }, {  70,-9833 }, {  71,-9833 }, {  72,-9833 }, {  73,-9833 },
+ {  74,-9833 }, {  75,-9833 }, {  76,-9833 }, {  77,-9833 }, {  78,-9833 },
+ {  79,-9833 }, {  80,-9833 }, {  81,-9833 }, {  82,-9833 }, {  83,-9833 },
+ {  84,-9833 }, {  85,-9833 }, {  86,-9833 }, {  87,-9833 }, {  88,-9833 },
+ {  89,-9833 }, {  90,-9833 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,-9833 }, {   0,   0 }, {  97,-9833 }, {  98,-9833 },
+ {  99,-9833 }, { 100,-9833 }, { 101,-9833 }, { 102,-9833 }, { 103,-9833 },
+ { 104,-9833 }, { 105,-9833 }, { 106,-9833 }, { 107,-9833 }, { 108,-9833 },
+ { 109,-9833 }, { 110,1160 }, { 111,-9833 }, { 112,-9833 }, { 113,-9833 },
+ { 114,-9833 }, { 115,-9833 }, { 116,-9833 }, { 117,-9833 }, { 118,-9833 },
+
+ { 119,-9833 }, { 120,-9833 }, { 121,-9833 }, { 122,-9833 }, {   0,   0 },
+ { 124,-9858 }, { 125,-9858 }, { 126,-9858 }, { 127,-9833 }, { 128,-9833 },
+ { 129,-9833 }, { 130,-9833 }, { 131,-9833 }, { 132,-9833 }, { 133,-9833 },
+ { 134,-9833 }, { 135,-9833 }, { 136,-9833 }, { 137,-9833 }, { 138,-9833 },
+ { 139,-9833 }, { 140,-9833 }, { 141,-9833 }, { 142,-9833 }, { 143,-9833 },
+ { 144,-9833 }, { 145,-9833 }, { 146,-9833 }, { 147,-9833 }, { 148,-9833 },
+ { 149,-9833 }, { 150,-9833 }, { 151,-9833 }, { 152,-9833 }, { 153,-9833 },
+ { 154,-9833 }, { 155,-9833 }, { 156,-9833 }, { 157,-9833 }, { 158,-9833 },
+ { 159,-9833 }, { 160,-9833 }, { 161,-9833 }, { 162,-9833 }, { 163,-9833 },
+ { 164,-9833 }, { 165,-9833 }, { 166,-9833 }, { 167,-9833 }, { 168,-9833 },
+
+ { 169,-9833 }, { 170,-9833 }, { 171,-9833 }, { 172,-9833 }, { 173,-9833 },
+ { 174,-9833 }, { 175,-9833 }, { 176,-9833 }, { 177,-9833 }, { 178,-9833 },
+ { 179,-9833 }, { 180,-9833 }, { 181,-9833 }, { 182,-9833 }, { 183,-9833 },
+ { 184,-9833 }, { 185,-9833 }, { 186,-9833 }, { 187,-9833 }, { 188,-9833 },
+ { 189,-9833 }, { 190,-9833 }, { 191,-9833 }, { 192,-9833 }, { 193,-9833 },
+ { 194,-9833 }, { 195,-9833 }, { 196,-9833 }, { 197,-9833 }, { 198,-9833 },
+ { 199,-9833 }, { 200,-9833 }, { 201,-9833 }, { 202,-9833 }, { 203,-9833 },
+ { 204,-9833 }, { 205,-9833 }, { 206,-9833 }, { 207,-9833 }, { 208,-9833 },
+ { 209,-9833 }, { 210,-9833 }, { 211,-9833 }, { 212,-9833 }, { 213,-9833 },
+ { 214,-9833 }, { 215,-9833 }, { 216,-9833 }, { 217,-9833 }, { 218,-9833 },
 
- { 248,-9954 }, { 249,-9954 }, { 250,-9954 }, { 251,-9954 }, { 252,-9954 },
- { 253,-9954 }, { 254,-9954 }, { 255,-9954 }, { 256,-9954 }, {   0,  25 },
- {   0,1822 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,1162 },
- {  10,1162 }, {   0,   0 }, {   0,   0 }, {  13,1162 }, {   0,   0 },
+ { 219,-9833 }, { 220,-9833 }, { 221,-9833 }, { 222,-9833 }, { 223,-9833 },
+ { 224,-9833 }, { 225,-9833 }, { 226,-9833 }, { 227,-9833 }, { 228,-9833 },
+ { 229,-9833 }, { 230,-9833 }, { 231,-9833 }, { 232,-9833 }, { 233,-9833 },
+ { 234,-9833 }, { 235,-9833 }, { 236,-9833 }, { 237,-9833 }, { 238,-9833 },
+ { 239,-9833 }, { 240,-9833 }, { 241,-9833 }, { 242,-9833 }, { 243,-9833 },
+ { 244,-9833 }, { 245,-9833 }, { 246,-9833 }, { 247,-9833 }, { 248,-9833 },
+ { 249,-9833 }, { 250,-9833 }, { 251,-9833 }, { 252,-9833 }, { 253,-9833 },
+ { 254,-9833 }, { 255,-9833 }, { 256,-9833 }, {   0,  25 }, {   0,1763 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,1160 }, {  10,1160 },
+
+ {   0,   0 }, {   0,   0 }, {  13,1160 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  32,1162 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
+ {   0,   0 }, {  32,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 125,1164 }, { 126,1166 }, {   0,   0 }, {   0,1694 }, {   1,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,-1292 },
+ { 126,1162 }, {   0,   0 }, {   0,1635 }, {   1,   0 }, {   2,   0 },
+ {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
+ {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 },
+ {  13,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
+ {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 },
+ {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 },
+ {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 },
+
+ {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 },
+ {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 },
+ {  43,   0 }, {  44,   0 }, {  45, 258 }, {  46,   0 }, {  47,   0 },
+ {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
+ {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
+ {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 },
+ {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 },
+ {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 },
+ {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 },
+ {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 },
+
+ {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 },
+ {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 },
+ {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 },
+ {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 },
+ { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 },
+ { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 },
+ { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 },
+ { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 },
+ { 123,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 },
+ { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 },
+
+ { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 },
+ { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 },
+ { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 },
+ { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 },
+ { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 },
+ { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 },
+ { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 },
+ { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 },
+ { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 },
+ { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 },
+
+ { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 },
+ { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 },
+ { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 },
+ { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 },
+ { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 },
+ { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 },
+ { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 },
+ { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 },
+ { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 },
+ { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 },
+
+ { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 },
+ { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 },
+ { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
+ { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
+ { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 },
+ {   0,1377 }, {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 },
+ {   5,-258 }, {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 },
+ {  10,-258 }, {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 },
+ {  15,-258 }, {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 },
+ {  20,-258 }, {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 },
+
+ {  25,-258 }, {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 },
+ {  30,-258 }, {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 },
+ {  35,-258 }, {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,-258 },
+ {  40,-258 }, {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 },
+ {  45, 778 }, {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 },
+ {  50,-258 }, {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 },
+ {  55,-258 }, {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 },
+ {  60,-258 }, {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 },
+ {  65,-258 }, {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 },
+ {  70,-258 }, {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 },
+
+ {  75,-258 }, {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 },
+ {  80,-258 }, {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 },
+ {  85,-258 }, {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 },
+ {  90,-258 }, {  91,-258 }, {  92,-258 }, {  93,-258 }, {  94,-258 },
+ {  95,-258 }, {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 },
+ { 100,-258 }, { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 },
+ { 105,-258 }, { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 },
+ { 110,-258 }, { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 },
+ { 115,-258 }, { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 },
+ { 120,-258 }, { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 },
+
+ { 125,-258 }, { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 },
+ { 130,-258 }, { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 },
+ { 135,-258 }, { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 },
+ { 140,-258 }, { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 },
+ { 145,-258 }, { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 },
+ { 150,-258 }, { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 },
+ { 155,-258 }, { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 },
+ { 160,-258 }, { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 },
+ { 165,-258 }, { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 },
+ { 170,-258 }, { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 },
+
+ { 175,-258 }, { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 },
+ { 180,-258 }, { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 },
+ { 185,-258 }, { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 },
+ { 190,-258 }, { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 },
+ { 195,-258 }, { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 },
+ { 200,-258 }, { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 },
+ { 205,-258 }, { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 },
+ { 210,-258 }, { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 },
+ { 215,-258 }, { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 },
+ { 220,-258 }, { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 },
+
+ { 225,-258 }, { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 },
+ { 230,-258 }, { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 },
+ { 235,-258 }, { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 },
+ { 240,-258 }, { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 },
+ { 245,-258 }, { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 },
+ { 250,-258 }, { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 },
+ { 255,-258 }, { 256,-258 }, {   0,   0 }, {   0,1119 }, {   1,   0 },
  {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
- {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 },
+ {   7,   0 }, {   8,   0 }, {   0,   0 }, {   0,   0 }, {  11,   0 },
+ {  12,   0 }, {   0,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 },
 
- {  12,   0 }, {  13,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 },
  {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 },
  {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 },
  {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 },
- {  32,   0 }, {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 },
- {  37,   0 }, {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 },
- {  42,   0 }, {  43,   0 }, {  44,   0 }, {  45, 258 }, {  46,   0 },
- {  47,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,   0 }, {   0,   0 },
+ {   0,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 },
  {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 },
- {  57,   0 }, {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 },
+ {  57,   0 }, {  58,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  63,   0 }, {   0,   0 }, {  65,   0 }, {  66,   0 },
 
- {  62,   0 }, {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 },
  {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 },
  {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 },
  {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 },
  {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 },
- {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 },
- {  92,   0 }, {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 },
+ {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,   0 }, {   0,   0 },
  {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 },
  { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 },
  { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 },
-
  { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 },
+
  { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 },
- { 122,   0 }, { 123,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 },
+ { 122,   0 }, {   0,   0 }, {   0,   0 }, { 125, 522 }, {   0,   0 },
  { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 },
  { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 },
  { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 },
@@ -4637,8 +4724,8 @@ static const struct yy_trans_info yy_transition[20137] =
  { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 },
  { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 },
  { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 },
-
  { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 },
+
  { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 },
  { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 },
  { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 },
@@ -4648,8 +4735,8 @@ static const struct yy_trans_info yy_transition[20137] =
  { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 },
  { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 },
  { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 },
-
  { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 },
+
  { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 },
  { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 },
  { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 },
@@ -4658,323 +4745,197 @@ static const struct yy_trans_info yy_transition[20137] =
  { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 },
  { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
  { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
- {   0,   0 }, {   0,1436 }, {   1,-258 }, {   2,-258 }, {   3,-258 },
-
- {   4,-258 }, {   5,-258 }, {   6,-258 }, {   7,-258 }, {   8,-258 },
- {   9,-258 }, {  10,-258 }, {  11,-258 }, {  12,-258 }, {  13,-258 },
- {  14,-258 }, {  15,-258 }, {  16,-258 }, {  17,-258 }, {  18,-258 },
- {  19,-258 }, {  20,-258 }, {  21,-258 }, {  22,-258 }, {  23,-258 },
- {  24,-258 }, {  25,-258 }, {  26,-258 }, {  27,-258 }, {  28,-258 },
- {  29,-258 }, {  30,-258 }, {  31,-258 }, {  32,-258 }, {  33,-258 },
- {  34,-258 }, {  35,-258 }, {  36,-258 }, {  37,-258 }, {  38,-258 },
- {  39,-258 }, {  40,-258 }, {  41,-258 }, {  42,-258 }, {  43,-258 },
- {  44,-258 }, {  45, 791 }, {  46,-258 }, {  47,-258 }, {  48,-258 },
- {  49,-258 }, {  50,-258 }, {  51,-258 }, {  52,-258 }, {  53,-258 },
-
- {  54,-258 }, {  55,-258 }, {  56,-258 }, {  57,-258 }, {  58,-258 },
- {  59,-258 }, {  60,-258 }, {  61,-258 }, {  62,-258 }, {  63,-258 },
- {  64,-258 }, {  65,-258 }, {  66,-258 }, {  67,-258 }, {  68,-258 },
- {  69,-258 }, {  70,-258 }, {  71,-258 }, {  72,-258 }, {  73,-258 },
- {  74,-258 }, {  75,-258 }, {  76,-258 }, {  77,-258 }, {  78,-258 },
- {  79,-258 }, {  80,-258 }, {  81,-258 }, {  82,-258 }, {  83,-258 },
- {  84,-258 }, {  85,-258 }, {  86,-258 }, {  87,-258 }, {  88,-258 },
- {  89,-258 }, {  90,-258 }, {  91,-258 }, {  92,-258 }, {  93,-258 },
- {  94,-258 }, {  95,-258 }, {  96,-258 }, {  97,-258 }, {  98,-258 },
- {  99,-258 }, { 100,-258 }, { 101,-258 }, { 102,-258 }, { 103,-258 },
-
- { 104,-258 }, { 105,-258 }, { 106,-258 }, { 107,-258 }, { 108,-258 },
- { 109,-258 }, { 110,-258 }, { 111,-258 }, { 112,-258 }, { 113,-258 },
- { 114,-258 }, { 115,-258 }, { 116,-258 }, { 117,-258 }, { 118,-258 },
- { 119,-258 }, { 120,-258 }, { 121,-258 }, { 122,-258 }, { 123,-258 },
- { 124,-258 }, { 125,-258 }, { 126,-258 }, { 127,-258 }, { 128,-258 },
- { 129,-258 }, { 130,-258 }, { 131,-258 }, { 132,-258 }, { 133,-258 },
- { 134,-258 }, { 135,-258 }, { 136,-258 }, { 137,-258 }, { 138,-258 },
- { 139,-258 }, { 140,-258 }, { 141,-258 }, { 142,-258 }, { 143,-258 },
- { 144,-258 }, { 145,-258 }, { 146,-258 }, { 147,-258 }, { 148,-258 },
- { 149,-258 }, { 150,-258 }, { 151,-258 }, { 152,-258 }, { 153,-258 },
-
- { 154,-258 }, { 155,-258 }, { 156,-258 }, { 157,-258 }, { 158,-258 },
- { 159,-258 }, { 160,-258 }, { 161,-258 }, { 162,-258 }, { 163,-258 },
- { 164,-258 }, { 165,-258 }, { 166,-258 }, { 167,-258 }, { 168,-258 },
- { 169,-258 }, { 170,-258 }, { 171,-258 }, { 172,-258 }, { 173,-258 },
- { 174,-258 }, { 175,-258 }, { 176,-258 }, { 177,-258 }, { 178,-258 },
- { 179,-258 }, { 180,-258 }, { 181,-258 }, { 182,-258 }, { 183,-258 },
- { 184,-258 }, { 185,-258 }, { 186,-258 }, { 187,-258 }, { 188,-258 },
- { 189,-258 }, { 190,-258 }, { 191,-258 }, { 192,-258 }, { 193,-258 },
- { 194,-258 }, { 195,-258 }, { 196,-258 }, { 197,-258 }, { 198,-258 },
- { 199,-258 }, { 200,-258 }, { 201,-258 }, { 202,-258 }, { 203,-258 },
-
- { 204,-258 }, { 205,-258 }, { 206,-258 }, { 207,-258 }, { 208,-258 },
- { 209,-258 }, { 210,-258 }, { 211,-258 }, { 212,-258 }, { 213,-258 },
- { 214,-258 }, { 215,-258 }, { 216,-258 }, { 217,-258 }, { 218,-258 },
- { 219,-258 }, { 220,-258 }, { 221,-258 }, { 222,-258 }, { 223,-258 },
- { 224,-258 }, { 225,-258 }, { 226,-258 }, { 227,-258 }, { 228,-258 },
- { 229,-258 }, { 230,-258 }, { 231,-258 }, { 232,-258 }, { 233,-258 },
- { 234,-258 }, { 235,-258 }, { 236,-258 }, { 237,-258 }, { 238,-258 },
- { 239,-258 }, { 240,-258 }, { 241,-258 }, { 242,-258 }, { 243,-258 },
- { 244,-258 }, { 245,-258 }, { 246,-258 }, { 247,-258 }, { 248,-258 },
- { 249,-258 }, { 250,-258 }, { 251,-258 }, { 252,-258 }, { 253,-258 },
-
- { 254,-258 }, { 255,-258 }, { 256,-258 }, {   0,   0 }, {   0,1178 },
- {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 },
- {   6,   0 }, {   7,   0 }, {   8,   0 }, {   0,   0 }, {   0,   0 },
- {  11,   0 }, {  12,   0 }, {   0,   0 }, {  14,   0 }, {  15,   0 },
- {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 },
- {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 },
- {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 },
- {  31,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,   0 },
-
- {   0,   0 }, {   0,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 },
- {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 },
- {  56,   0 }, {  57,   0 }, {  58,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  63,   0 }, {   0,   0 }, {  65,   0 },
- {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 },
- {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 },
- {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 },
- {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 },
- {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,   0 },
-
- {   0,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 },
- { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 },
- { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 },
- { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 },
- { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 },
- { 121,   0 }, { 122,   0 }, {   0,   0 }, {   0,   0 }, { 125, 535 },
- {   0,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 },
- { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 },
- { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 },
- { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 },
-
- { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 },
- { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 },
- { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 },
- { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 },
- { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 },
- { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 },
- { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 },
- { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 },
- { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 },
- { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 },
-
- { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 },
- { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 },
- { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 },
- { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 },
- { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 },
- { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 },
- { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 },
- { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 },
- { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 },
- { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 },
-
- { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 },
- { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 },
- { 256,   0 }, {   0,   0 }, {   0, 920 }, {   1,-11114 }, {   2,-11114 },
- {   3,-11114 }, {   4,-11114 }, {   5,-11114 }, {   6,-11114 }, {   7,-11114 },
- {   8,-11114 }, {   9,-11139 }, {  10,-11139 }, {  11,-11114 }, {  12,-11114 },
- {  13,-11139 }, {  14,-11114 }, {  15,-11114 }, {  16,-11114 }, {  17,-11114 },
- {  18,-11114 }, {  19,-11114 }, {  20,-11114 }, {  21,-11114 }, {  22,-11114 },
- {  23,-11114 }, {  24,-11114 }, {  25,-11114 }, {  26,-11114 }, {  27,-11114 },
- {  28,-11114 }, {  29,-11114 }, {  30,-11114 }, {  31,-11114 }, {  32,-11139 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-11114 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-11139 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-11114 }, {  46,-11139 }, {  47,-11139 },
- {  48,-11114 }, {  49,-11114 }, {  50,-11114 }, {  51,-11114 }, {  52,-11114 },
- {  53,-11114 }, {  54,-11114 }, {  55,-11114 }, {  56,-11114 }, {  57,-11114 },
- {  58,-11114 }, {   0,   0 }, {   0,   0 }, {  61,-11139 }, {   0,   0 },
- {  63,-11114 }, {   0,   0 }, {  65,-11114 }, {  66,-11114 }, {  67,-11114 },
- {  68,-11114 }, {  69,-11114 }, {  70,-11114 }, {  71,-11114 }, {  72,-11114 },
- {  73,-11114 }, {  74,-11114 }, {  75,-11114 }, {  76,-11114 }, {  77,-11114 },
- {  78,-11114 }, {  79,-11114 }, {  80,-11114 }, {  81,-11114 }, {  82,-11114 },
- {  83,-11114 }, {  84,-11114 }, {  85,-11114 }, {  86,-11114 }, {  87,-11114 },
-
- {  88,-11114 }, {  89,-11114 }, {  90,-11114 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-11114 }, {   0,   0 }, {  97,-11114 },
- {  98,-11114 }, {  99,-11114 }, { 100,-11114 }, { 101, 404 }, { 102,-11114 },
- { 103,-11114 }, { 104,-11114 }, { 105,-11114 }, { 106,-11114 }, { 107,-11114 },
- { 108,-11114 }, { 109,-11114 }, { 110,-11114 }, { 111,-11114 }, { 112,-11114 },
- { 113,-11114 }, { 114,-11114 }, { 115,-11114 }, { 116,-11114 }, { 117,-11114 },
- { 118,-11114 }, { 119,-11114 }, { 120,-11114 }, { 121,-11114 }, { 122,-11114 },
- {   0,   0 }, { 124,-11139 }, { 125,-11139 }, { 126,-11139 }, { 127,-11114 },
- { 128,-11114 }, { 129,-11114 }, { 130,-11114 }, { 131,-11114 }, { 132,-11114 },
- { 133,-11114 }, { 134,-11114 }, { 135,-11114 }, { 136,-11114 }, { 137,-11114 },
-
- { 138,-11114 }, { 139,-11114 }, { 140,-11114 }, { 141,-11114 }, { 142,-11114 },
- { 143,-11114 }, { 144,-11114 }, { 145,-11114 }, { 146,-11114 }, { 147,-11114 },
- { 148,-11114 }, { 149,-11114 }, { 150,-11114 }, { 151,-11114 }, { 152,-11114 },
- { 153,-11114 }, { 154,-11114 }, { 155,-11114 }, { 156,-11114 }, { 157,-11114 },
- { 158,-11114 }, { 159,-11114 }, { 160,-11114 }, { 161,-11114 }, { 162,-11114 },
- { 163,-11114 }, { 164,-11114 }, { 165,-11114 }, { 166,-11114 }, { 167,-11114 },
- { 168,-11114 }, { 169,-11114 }, { 170,-11114 }, { 171,-11114 }, { 172,-11114 },
- { 173,-11114 }, { 174,-11114 }, { 175,-11114 }, { 176,-11114 }, { 177,-11114 },
- { 178,-11114 }, { 179,-11114 }, { 180,-11114 }, { 181,-11114 }, { 182,-11114 },
- { 183,-11114 }, { 184,-11114 }, { 185,-11114 }, { 186,-11114 }, { 187,-11114 },
-
- { 188,-11114 }, { 189,-11114 }, { 190,-11114 }, { 191,-11114 }, { 192,-11114 },
- { 193,-11114 }, { 194,-11114 }, { 195,-11114 }, { 196,-11114 }, { 197,-11114 },
- { 198,-11114 }, { 199,-11114 }, { 200,-11114 }, { 201,-11114 }, { 202,-11114 },
- { 203,-11114 }, { 204,-11114 }, { 205,-11114 }, { 206,-11114 }, { 207,-11114 },
- { 208,-11114 }, { 209,-11114 }, { 210,-11114 }, { 211,-11114 }, { 212,-11114 },
- { 213,-11114 }, { 214,-11114 }, { 215,-11114 }, { 216,-11114 }, { 217,-11114 },
- { 218,-11114 }, { 219,-11114 }, { 220,-11114 }, { 221,-11114 }, { 222,-11114 },
- { 223,-11114 }, { 224,-11114 }, { 225,-11114 }, { 226,-11114 }, { 227,-11114 },
- { 228,-11114 }, { 229,-11114 }, { 230,-11114 }, { 231,-11114 }, { 232,-11114 },
- { 233,-11114 }, { 234,-11114 }, { 235,-11114 }, { 236,-11114 }, { 237,-11114 },
-
- { 238,-11114 }, { 239,-11114 }, { 240,-11114 }, { 241,-11114 }, { 242,-11114 },
- { 243,-11114 }, { 244,-11114 }, { 245,-11114 }, { 246,-11114 }, { 247,-11114 },
- { 248,-11114 }, { 249,-11114 }, { 250,-11114 }, { 251,-11114 }, { 252,-11114 },
- { 253,-11114 }, { 254,-11114 }, { 255,-11114 }, { 256,-11114 }, {   0,   0 },
- {   0, 662 }, {   0,   0 }, {   0, 660 }, {   0,   0 }, {   0, 658 },
- {   0,   0 }, {   0, 656 }, {   0,  25 }, {   0, 654 }, {   9,   2 },
- {  10,   2 }, {   9,   0 }, {  10,   0 }, {  13,   2 }, {   0,   0 },
- {  13,   0 }, {   0,   0 }, {   0, 645 }, {   0,   0 }, {   0, 643 },
- {   0,  23 }, {   0, 641 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {  32,   2 }, {   0,   0 }, {  32,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0, 608 },
- {   0,   0 }, {   0, 606 }, {   0,   0 }, {   0, 604 }, {   0,  12 },
- {   0, 602 }, {   0,   0 }, {   0,   0 }, {   0, 599 }, {   0,  45 },
- {   0, 597 }, {   0,   9 }, {   0, 595 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 125,   4 }, { 126,   6 }, { 125,   2 }, { 126,   4 }, { 125,  17 },
-
- {   0,   0 }, { 125,  -2 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, { 125,  37 }, { 126,  39 }, { 125,  39 },
- {   0,   0 }, {   0, 516 }, {   1,-11518 }, {   2,-11518 }, {   3,-11518 },
- {   4,-11518 }, {   5,-11518 }, {   6,-11518 }, {   7,-11518 }, {   8,-11518 },
- {   9,-11543 }, {  10,-11543 }, {  11,-11518 }, {  12,-11518 }, {  13,-11543 },
- {  14,-11518 }, {  15,-11518 }, {  16,-11518 }, {  17,-11518 }, {  18,-11518 },
- {  19,-11518 }, {  20,-11518 }, {  21,-11518 }, {  22,-11518 }, {  23,-11518 },
- {  24,-11518 }, {  25,-11518 }, {  26,-11518 }, {  27,-11518 }, {  28,-11518 },
- {  29,-11518 }, {  30,-11518 }, {  31,-11518 }, {  32,-11543 }, { 125,   6 },
-
- {   0,   0 }, { 125,  -2 }, {  36,-11518 }, { 125,   5 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,-11543 }, { 125,   4 }, {   0,   0 },
- {   0,   0 }, {  45,-11518 }, {  46,-11543 }, {  47,-11543 }, {  48,-11518 },
- {  49,-11518 }, {  50,-11518 }, {  51,-11518 }, {  52,-11518 }, {  53,-11518 },
- {  54,-11518 }, {  55,-11518 }, {  56,-11518 }, {  57,-11518 }, {  58,-11518 },
- {   0,   0 }, {   0,   0 }, {  61,-11543 }, {   0,   0 }, {  63,-11518 },
- {   0,   0 }, {  65,-11518 }, {  66,-11518 }, {  67,-11518 }, {  68,-11518 },
- {  69,-11518 }, {  70,-11518 }, {  71,-11518 }, {  72,-11518 }, {  73,-11518 },
- {  74,-11518 }, {  75,-11518 }, {  76,-11518 }, {  77,-11518 }, {  78,-11518 },
- {  79,-11518 }, {  80,-11518 }, {  81,-11518 }, {  82,-11518 }, {  83,-11518 },
-
- {  84,-11518 }, {  85,-11518 }, {  86,-11518 }, {  87,-11518 }, {  88,-11518 },
- {  89,-11518 }, {  90,-11518 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-11518 }, {   0,   0 }, {  97,-11518 }, {  98,-11518 },
- {  99,-11518 }, { 100, 258 }, { 101,-11518 }, { 102,-11518 }, { 103,-11518 },
- { 104,-11518 }, { 105,-11518 }, { 106,-11518 }, { 107,-11518 }, { 108,-11518 },
- { 109,-11518 }, { 110,-11518 }, { 111,-11518 }, { 112,-11518 }, { 113,-11518 },
- { 114,-11518 }, { 115,-11518 }, { 116,-11518 }, { 117,-11518 }, { 118,-11518 },
- { 119,-11518 }, { 120,-11518 }, { 121,-11518 }, { 122,-11518 }, {   0,   0 },
- { 124,-11543 }, { 125,-11543 }, { 126,-11543 }, { 127,-11518 }, { 128,-11518 },
- { 129,-11518 }, { 130,-11518 }, { 131,-11518 }, { 132,-11518 }, { 133,-11518 },
-
- { 134,-11518 }, { 135,-11518 }, { 136,-11518 }, { 137,-11518 }, { 138,-11518 },
- { 139,-11518 }, { 140,-11518 }, { 141,-11518 }, { 142,-11518 }, { 143,-11518 },
- { 144,-11518 }, { 145,-11518 }, { 146,-11518 }, { 147,-11518 }, { 148,-11518 },
- { 149,-11518 }, { 150,-11518 }, { 151,-11518 }, { 152,-11518 }, { 153,-11518 },
- { 154,-11518 }, { 155,-11518 }, { 156,-11518 }, { 157,-11518 }, { 158,-11518 },
- { 159,-11518 }, { 160,-11518 }, { 161,-11518 }, { 162,-11518 }, { 163,-11518 },
- { 164,-11518 }, { 165,-11518 }, { 166,-11518 }, { 167,-11518 }, { 168,-11518 },
- { 169,-11518 }, { 170,-11518 }, { 171,-11518 }, { 172,-11518 }, { 173,-11518 },
- { 174,-11518 }, { 175,-11518 }, { 176,-11518 }, { 177,-11518 }, { 178,-11518 },
- { 179,-11518 }, { 180,-11518 }, { 181,-11518 }, { 182,-11518 }, { 183,-11518 },
-
- { 184,-11518 }, { 185,-11518 }, { 186,-11518 }, { 187,-11518 }, { 188,-11518 },
- { 189,-11518 }, { 190,-11518 }, { 191,-11518 }, { 192,-11518 }, { 193,-11518 },
- { 194,-11518 }, { 195,-11518 }, { 196,-11518 }, { 197,-11518 }, { 198,-11518 },
- { 199,-11518 }, { 200,-11518 }, { 201,-11518 }, { 202,-11518 }, { 203,-11518 },
- { 204,-11518 }, { 205,-11518 }, { 206,-11518 }, { 207,-11518 }, { 208,-11518 },
- { 209,-11518 }, { 210,-11518 }, { 211,-11518 }, { 212,-11518 }, { 213,-11518 },
- { 214,-11518 }, { 215,-11518 }, { 216,-11518 }, { 217,-11518 }, { 218,-11518 },
- { 219,-11518 }, { 220,-11518 }, { 221,-11518 }, { 222,-11518 }, { 223,-11518 },
- { 224,-11518 }, { 225,-11518 }, { 226,-11518 }, { 227,-11518 }, { 228,-11518 },
- { 229,-11518 }, { 230,-11518 }, { 231,-11518 }, { 232,-11518 }, { 233,-11518 },
-
- { 234,-11518 }, { 235,-11518 }, { 236,-11518 }, { 237,-11518 }, { 238,-11518 },
- { 239,-11518 }, { 240,-11518 }, { 241,-11518 }, { 242,-11518 }, { 243,-11518 },
- { 244,-11518 }, { 245,-11518 }, { 246,-11518 }, { 247,-11518 }, { 248,-11518 },
- { 249,-11518 }, { 250,-11518 }, { 251,-11518 }, { 252,-11518 }, { 253,-11518 },
- { 254,-11518 }, { 255,-11518 }, { 256,-11518 }, {   0,   0 }, {   0, 258 },
- {   1,-11776 }, {   2,-11776 }, {   3,-11776 }, {   4,-11776 }, {   5,-11776 },
- {   6,-11776 }, {   7,-11776 }, {   8,-11776 }, {   9,-339 }, {  10,-339 },
- {  11,-11776 }, {  12,-11776 }, {  13,-339 }, {  14,-11776 }, {  15,-11776 },
- {  16,-11776 }, {  17,-11776 }, {  18,-11776 }, {  19,-11776 }, {  20,-11776 },
- {  21,-11776 }, {  22,-11776 }, {  23,-11776 }, {  24,-11776 }, {  25,-11776 },
-
- {  26,-11776 }, {  27,-11776 }, {  28,-11776 }, {  29,-11776 }, {  30,-11776 },
- {  31,-11776 }, {  32,-339 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,-11776 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,-339 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-11776 },
- {  46,-11801 }, {  47,-11801 }, {  48,-11776 }, {  49,-11776 }, {  50,-11776 },
- {  51,-11776 }, {  52,-11776 }, {  53,-11776 }, {  54,-11776 }, {  55,-11776 },
- {  56,-11776 }, {  57,-11776 }, {  58,-11776 }, {   0,   0 }, {   0,   0 },
- {  61,-11801 }, {   0,   0 }, {  63,-11776 }, {   0,   0 }, {  65,-11776 },
- {  66,-11776 }, {  67,-11776 }, {  68,-11776 }, {  69,-11776 }, {  70,-11776 },
- {  71,-11776 }, {  72,-11776 }, {  73,-11776 }, {  74,-11776 }, {  75,-11776 },
-
- {  76,-11776 }, {  77,-11776 }, {  78,-11776 }, {  79,-11776 }, {  80,-11776 },
- {  81,-11776 }, {  82,-11776 }, {  83,-11776 }, {  84,-11776 }, {  85,-11776 },
- {  86,-11776 }, {  87,-11776 }, {  88,-11776 }, {  89,-11776 }, {  90,-11776 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-11776 },
- {   0,   0 }, {  97,-11776 }, {  98,-11776 }, {  99,-11776 }, { 100,-11776 },
- { 101,-11776 }, { 102,-11776 }, { 103,-11776 }, { 104,-11776 }, { 105,-11776 },
- { 106,-11776 }, { 107,-11776 }, { 108,-11776 }, { 109,-11776 }, { 110,-11776 },
- { 111,-11776 }, { 112,-11776 }, { 113,-11776 }, { 114,-11776 }, { 115,-11776 },
- { 116,-11776 }, { 117,-11776 }, { 118,-11776 }, { 119,-11776 }, { 120,-11776 },
- { 121,-11776 }, { 122,-11776 }, {   0,   0 }, { 124,-11801 }, { 125,-339 },
-
- { 126,-339 }, { 127,-11776 }, { 128,-11776 }, { 129,-11776 }, { 130,-11776 },
- { 131,-11776 }, { 132,-11776 }, { 133,-11776 }, { 134,-11776 }, { 135,-11776 },
- { 136,-11776 }, { 137,-11776 }, { 138,-11776 }, { 139,-11776 }, { 140,-11776 },
- { 141,-11776 }, { 142,-11776 }, { 143,-11776 }, { 144,-11776 }, { 145,-11776 },
- { 146,-11776 }, { 147,-11776 }, { 148,-11776 }, { 149,-11776 }, { 150,-11776 },
- { 151,-11776 }, { 152,-11776 }, { 153,-11776 }, { 154,-11776 }, { 155,-11776 },
- { 156,-11776 }, { 157,-11776 }, { 158,-11776 }, { 159,-11776 }, { 160,-11776 },
- { 161,-11776 }, { 162,-11776 }, { 163,-11776 }, { 164,-11776 }, { 165,-11776 },
- { 166,-11776 }, { 167,-11776 }, { 168,-11776 }, { 169,-11776 }, { 170,-11776 },
- { 171,-11776 }, { 172,-11776 }, { 173,-11776 }, { 174,-11776 }, { 175,-11776 },
-
- { 176,-11776 }, { 177,-11776 }, { 178,-11776 }, { 179,-11776 }, { 180,-11776 },
- { 181,-11776 }, { 182,-11776 }, { 183,-11776 }, { 184,-11776 }, { 185,-11776 },
- { 186,-11776 }, { 187,-11776 }, { 188,-11776 }, { 189,-11776 }, { 190,-11776 },
- { 191,-11776 }, { 192,-11776 }, { 193,-11776 }, { 194,-11776 }, { 195,-11776 },
- { 196,-11776 }, { 197,-11776 }, { 198,-11776 }, { 199,-11776 }, { 200,-11776 },
- { 201,-11776 }, { 202,-11776 }, { 203,-11776 }, { 204,-11776 }, { 205,-11776 },
- { 206,-11776 }, { 207,-11776 }, { 208,-11776 }, { 209,-11776 }, { 210,-11776 },
- { 211,-11776 }, { 212,-11776 }, { 213,-11776 }, { 214,-11776 }, { 215,-11776 },
- { 216,-11776 }, { 217,-11776 }, { 218,-11776 }, { 219,-11776 }, { 220,-11776 },
- { 221,-11776 }, { 222,-11776 }, { 223,-11776 }, { 224,-11776 }, { 225,-11776 },
-
- { 226,-11776 }, { 227,-11776 }, { 228,-11776 }, { 229,-11776 }, { 230,-11776 },
- { 231,-11776 }, { 232,-11776 }, { 233,-11776 }, { 234,-11776 }, { 235,-11776 },
- { 236,-11776 }, { 237,-11776 }, { 238,-11776 }, { 239,-11776 }, { 240,-11776 },
- { 241,-11776 }, { 242,-11776 }, { 243,-11776 }, { 244,-11776 }, { 245,-11776 },
- { 246,-11776 }, { 247,-11776 }, { 248,-11776 }, { 249,-11776 }, { 250,-11776 },
- { 251,-11776 }, { 252,-11776 }, { 253,-11776 }, { 254,-11776 }, { 255,-11776 },
- { 256,-11776 }, { 257,  52 }, {   1,   0 },    };
+ {   0,   0 }, {   0, 861 }, {   1,-10993 }, {   2,-10993 }, {   3,-10993 },
+ {   4,-10993 }, {   5,-10993 }, {   6,-10993 }, {   7,-10993 }, {   8,-10993 },
+
+ {   9,-11018 }, {  10,-11018 }, {  11,-10993 }, {  12,-10993 }, {  13,-11018 },
+ {  14,-10993 }, {  15,-10993 }, {  16,-10993 }, {  17,-10993 }, {  18,-10993 },
+ {  19,-10993 }, {  20,-10993 }, {  21,-10993 }, {  22,-10993 }, {  23,-10993 },
+ {  24,-10993 }, {  25,-10993 }, {  26,-10993 }, {  27,-10993 }, {  28,-10993 },
+ {  29,-10993 }, {  30,-10993 }, {  31,-10993 }, {  32,-11018 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,-10993 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,-11018 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,-10993 }, {  46,-11018 }, {  47,-11018 }, {  48,-10993 },
+ {  49,-10993 }, {  50,-10993 }, {  51,-10993 }, {  52,-10993 }, {  53,-10993 },
+ {  54,-10993 }, {  55,-10993 }, {  56,-10993 }, {  57,-10993 }, {  58,-10993 },
+
+ {   0,   0 }, {   0,   0 }, {  61,-11018 }, {   0,   0 }, {  63,-10993 },
+ {   0,   0 }, {  65,-10993 }, {  66,-10993 }, {  67,-10993 }, {  68,-10993 },
+ {  69,-10993 }, {  70,-10993 }, {  71,-10993 }, {  72,-10993 }, {  73,-10993 },
+ {  74,-10993 }, {  75,-10993 }, {  76,-10993 }, {  77,-10993 }, {  78,-10993 },
+ {  79,-10993 }, {  80,-10993 }, {  81,-10993 }, {  82,-10993 }, {  83,-10993 },
+ {  84,-10993 }, {  85,-10993 }, {  86,-10993 }, {  87,-10993 }, {  88,-10993 },
+ {  89,-10993 }, {  90,-10993 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,-10993 }, {   0,   0 }, {  97,-10993 }, {  98,-10993 },
+ {  99,-10993 }, { 100,-10993 }, { 101, 345 }, { 102,-10993 }, { 103,-10993 },
+ { 104,-10993 }, { 105,-10993 }, { 106,-10993 }, { 107,-10993 }, { 108,-10993 },
+
+ { 109,-10993 }, { 110,-10993 }, { 111,-10993 }, { 112,-10993 }, { 113,-10993 },
+ { 114,-10993 }, { 115,-10993 }, { 116,-10993 }, { 117,-10993 }, { 118,-10993 },
+ { 119,-10993 }, { 120,-10993 }, { 121,-10993 }, { 122,-10993 }, {   0,   0 },
+ { 124,-11018 }, { 125,-11018 }, { 126,-11018 }, { 127,-10993 }, { 128,-10993 },
+ { 129,-10993 }, { 130,-10993 }, { 131,-10993 }, { 132,-10993 }, { 133,-10993 },
+ { 134,-10993 }, { 135,-10993 }, { 136,-10993 }, { 137,-10993 }, { 138,-10993 },
+ { 139,-10993 }, { 140,-10993 }, { 141,-10993 }, { 142,-10993 }, { 143,-10993 },
+ { 144,-10993 }, { 145,-10993 }, { 146,-10993 }, { 147,-10993 }, { 148,-10993 },
+ { 149,-10993 }, { 150,-10993 }, { 151,-10993 }, { 152,-10993 }, { 153,-10993 },
+ { 154,-10993 }, { 155,-10993 }, { 156,-10993 }, { 157,-10993 }, { 158,-10993 },
+
+ { 159,-10993 }, { 160,-10993 }, { 161,-10993 }, { 162,-10993 }, { 163,-10993 },
+ { 164,-10993 }, { 165,-10993 }, { 166,-10993 }, { 167,-10993 }, { 168,-10993 },
+ { 169,-10993 }, { 170,-10993 }, { 171,-10993 }, { 172,-10993 }, { 173,-10993 },
+ { 174,-10993 }, { 175,-10993 }, { 176,-10993 }, { 177,-10993 }, { 178,-10993 },
+ { 179,-10993 }, { 180,-10993 }, { 181,-10993 }, { 182,-10993 }, { 183,-10993 },
+ { 184,-10993 }, { 185,-10993 }, { 186,-10993 }, { 187,-10993 }, { 188,-10993 },
+ { 189,-10993 }, { 190,-10993 }, { 191,-10993 }, { 192,-10993 }, { 193,-10993 },
+ { 194,-10993 }, { 195,-10993 }, { 196,-10993 }, { 197,-10993 }, { 198,-10993 },
+ { 199,-10993 }, { 200,-10993 }, { 201,-10993 }, { 202,-10993 }, { 203,-10993 },
+ { 204,-10993 }, { 205,-10993 }, { 206,-10993 }, { 207,-10993 }, { 208,-10993 },
+
+ { 209,-10993 }, { 210,-10993 }, { 211,-10993 }, { 212,-10993 }, { 213,-10993 },
+ { 214,-10993 }, { 215,-10993 }, { 216,-10993 }, { 217,-10993 }, { 218,-10993 },
+ { 219,-10993 }, { 220,-10993 }, { 221,-10993 }, { 222,-10993 }, { 223,-10993 },
+ { 224,-10993 }, { 225,-10993 }, { 226,-10993 }, { 227,-10993 }, { 228,-10993 },
+ { 229,-10993 }, { 230,-10993 }, { 231,-10993 }, { 232,-10993 }, { 233,-10993 },
+ { 234,-10993 }, { 235,-10993 }, { 236,-10993 }, { 237,-10993 }, { 238,-10993 },
+ { 239,-10993 }, { 240,-10993 }, { 241,-10993 }, { 242,-10993 }, { 243,-10993 },
+ { 244,-10993 }, { 245,-10993 }, { 246,-10993 }, { 247,-10993 }, { 248,-10993 },
+ { 249,-10993 }, { 250,-10993 }, { 251,-10993 }, { 252,-10993 }, { 253,-10993 },
+ { 254,-10993 }, { 255,-10993 }, { 256,-10993 }, {   0,   0 }, {   0, 603 },
+
+ {   0,   0 }, {   0, 601 }, {   0,   0 }, {   0, 599 }, {   0,   0 },
+ {   0, 597 }, {   0,  23 }, {   0, 595 }, {   9,   0 }, {  10,   0 },
+ {   0,   0 }, {   0,   0 }, {  13,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0, 582 }, {   0,   0 }, {   0,   0 }, {   0, 579 }, {   0,   0 },
+ {   0, 577 }, {   0,  12 }, {   0, 575 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  32,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0, 550 }, {   0,  45 }, {   0, 548 },
+ {   0,   9 }, {   0, 546 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0, 516 }, {   1,-11338 }, {   2,-11338 }, {   3,-11338 },
+ {   4,-11338 }, {   5,-11338 }, {   6,-11338 }, {   7,-11338 }, {   8,-11338 },
+ {   9,-11363 }, {  10,-11363 }, {  11,-11338 }, {  12,-11338 }, {  13,-11363 },
+
+ {  14,-11338 }, {  15,-11338 }, {  16,-11338 }, {  17,-11338 }, {  18,-11338 },
+ {  19,-11338 }, {  20,-11338 }, {  21,-11338 }, {  22,-11338 }, {  23,-11338 },
+ {  24,-11338 }, {  25,-11338 }, {  26,-11338 }, {  27,-11338 }, {  28,-11338 },
+ {  29,-11338 }, {  30,-11338 }, {  31,-11338 }, {  32,-11363 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,-11338 }, {   0,   0 }, { 125,-2452 },
+ { 126,   2 }, { 125,-2454 }, {  41,-11363 }, { 125,  17 }, { 126,  20 },
+ { 125,  20 }, {  45,-11338 }, {  46,-11363 }, {  47,-11363 }, {  48,-11338 },
+ {  49,-11338 }, {  50,-11338 }, {  51,-11338 }, {  52,-11338 }, {  53,-11338 },
+ {  54,-11338 }, {  55,-11338 }, {  56,-11338 }, {  57,-11338 }, {  58,-11338 },
+ { 125,   7 }, {   0,   0 }, {  61,-11363 }, { 125,  -3 }, {  63,-11338 },
+
+ { 125,  27 }, {  65,-11338 }, {  66,-11338 }, {  67,-11338 }, {  68,-11338 },
+ {  69,-11338 }, {  70,-11338 }, {  71,-11338 }, {  72,-11338 }, {  73,-11338 },
+ {  74,-11338 }, {  75,-11338 }, {  76,-11338 }, {  77,-11338 }, {  78,-11338 },
+ {  79,-11338 }, {  80,-11338 }, {  81,-11338 }, {  82,-11338 }, {  83,-11338 },
+ {  84,-11338 }, {  85,-11338 }, {  86,-11338 }, {  87,-11338 }, {  88,-11338 },
+ {  89,-11338 }, {  90,-11338 }, { 125,   4 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,-11338 }, {   0,   0 }, {  97,-11338 }, {  98,-11338 },
+ {  99,-11338 }, { 100, 258 }, { 101,-11338 }, { 102,-11338 }, { 103,-11338 },
+ { 104,-11338 }, { 105,-11338 }, { 106,-11338 }, { 107,-11338 }, { 108,-11338 },
+ { 109,-11338 }, { 110,-11338 }, { 111,-11338 }, { 112,-11338 }, { 113,-11338 },
+
+ { 114,-11338 }, { 115,-11338 }, { 116,-11338 }, { 117,-11338 }, { 118,-11338 },
+ { 119,-11338 }, { 120,-11338 }, { 121,-11338 }, { 122,-11338 }, {   0,   0 },
+ { 124,-11363 }, { 125,-11363 }, { 126,-11363 }, { 127,-11338 }, { 128,-11338 },
+ { 129,-11338 }, { 130,-11338 }, { 131,-11338 }, { 132,-11338 }, { 133,-11338 },
+ { 134,-11338 }, { 135,-11338 }, { 136,-11338 }, { 137,-11338 }, { 138,-11338 },
+ { 139,-11338 }, { 140,-11338 }, { 141,-11338 }, { 142,-11338 }, { 143,-11338 },
+ { 144,-11338 }, { 145,-11338 }, { 146,-11338 }, { 147,-11338 }, { 148,-11338 },
+ { 149,-11338 }, { 150,-11338 }, { 151,-11338 }, { 152,-11338 }, { 153,-11338 },
+ { 154,-11338 }, { 155,-11338 }, { 156,-11338 }, { 157,-11338 }, { 158,-11338 },
+ { 159,-11338 }, { 160,-11338 }, { 161,-11338 }, { 162,-11338 }, { 163,-11338 },
+
+ { 164,-11338 }, { 165,-11338 }, { 166,-11338 }, { 167,-11338 }, { 168,-11338 },
+ { 169,-11338 }, { 170,-11338 }, { 171,-11338 }, { 172,-11338 }, { 173,-11338 },
+ { 174,-11338 }, { 175,-11338 }, { 176,-11338 }, { 177,-11338 }, { 178,-11338 },
+ { 179,-11338 }, { 180,-11338 }, { 181,-11338 }, { 182,-11338 }, { 183,-11338 },
+ { 184,-11338 }, { 185,-11338 }, { 186,-11338 }, { 187,-11338 }, { 188,-11338 },
+ { 189,-11338 }, { 190,-11338 }, { 191,-11338 }, { 192,-11338 }, { 193,-11338 },
+ { 194,-11338 }, { 195,-11338 }, { 196,-11338 }, { 197,-11338 }, { 198,-11338 },
+ { 199,-11338 }, { 200,-11338 }, { 201,-11338 }, { 202,-11338 }, { 203,-11338 },
+ { 204,-11338 }, { 205,-11338 }, { 206,-11338 }, { 207,-11338 }, { 208,-11338 },
+ { 209,-11338 }, { 210,-11338 }, { 211,-11338 }, { 212,-11338 }, { 213,-11338 },
+
+ { 214,-11338 }, { 215,-11338 }, { 216,-11338 }, { 217,-11338 }, { 218,-11338 },
+ { 219,-11338 }, { 220,-11338 }, { 221,-11338 }, { 222,-11338 }, { 223,-11338 },
+ { 224,-11338 }, { 225,-11338 }, { 226,-11338 }, { 227,-11338 }, { 228,-11338 },
+ { 229,-11338 }, { 230,-11338 }, { 231,-11338 }, { 232,-11338 }, { 233,-11338 },
+ { 234,-11338 }, { 235,-11338 }, { 236,-11338 }, { 237,-11338 }, { 238,-11338 },
+ { 239,-11338 }, { 240,-11338 }, { 241,-11338 }, { 242,-11338 }, { 243,-11338 },
+ { 244,-11338 }, { 245,-11338 }, { 246,-11338 }, { 247,-11338 }, { 248,-11338 },
+ { 249,-11338 }, { 250,-11338 }, { 251,-11338 }, { 252,-11338 }, { 253,-11338 },
+ { 254,-11338 }, { 255,-11338 }, { 256,-11338 }, {   0,   0 }, {   0, 258 },
+ {   1,-11596 }, {   2,-11596 }, {   3,-11596 }, {   4,-11596 }, {   5,-11596 },
+
+ {   6,-11596 }, {   7,-11596 }, {   8,-11596 }, {   9,-290 }, {  10,-290 },
+ {  11,-11596 }, {  12,-11596 }, {  13,-290 }, {  14,-11596 }, {  15,-11596 },
+ {  16,-11596 }, {  17,-11596 }, {  18,-11596 }, {  19,-11596 }, {  20,-11596 },
+ {  21,-11596 }, {  22,-11596 }, {  23,-11596 }, {  24,-11596 }, {  25,-11596 },
+ {  26,-11596 }, {  27,-11596 }, {  28,-11596 }, {  29,-11596 }, {  30,-11596 },
+ {  31,-11596 }, {  32,-290 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  36,-11596 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  41,-290 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-11596 },
+ {  46,-11621 }, {  47,-11621 }, {  48,-11596 }, {  49,-11596 }, {  50,-11596 },
+ {  51,-11596 }, {  52,-11596 }, {  53,-11596 }, {  54,-11596 }, {  55,-11596 },
+
+ {  56,-11596 }, {  57,-11596 }, {  58,-11596 }, {   0,   0 }, {   0,   0 },
+ {  61,-11621 }, {   0,   0 }, {  63,-11596 }, {   0,   0 }, {  65,-11596 },
+ {  66,-11596 }, {  67,-11596 }, {  68,-11596 }, {  69,-11596 }, {  70,-11596 },
+ {  71,-11596 }, {  72,-11596 }, {  73,-11596 }, {  74,-11596 }, {  75,-11596 },
+ {  76,-11596 }, {  77,-11596 }, {  78,-11596 }, {  79,-11596 }, {  80,-11596 },
+ {  81,-11596 }, {  82,-11596 }, {  83,-11596 }, {  84,-11596 }, {  85,-11596 },
+ {  86,-11596 }, {  87,-11596 }, {  88,-11596 }, {  89,-11596 }, {  90,-11596 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-11596 },
+ {   0,   0 }, {  97,-11596 }, {  98,-11596 }, {  99,-11596 }, { 100,-11596 },
+ { 101,-11596 }, { 102,-11596 }, { 103,-11596 }, { 104,-11596 }, { 105,-11596 },
+
+ { 106,-11596 }, { 107,-11596 }, { 108,-11596 }, { 109,-11596 }, { 110,-11596 },
+ { 111,-11596 }, { 112,-11596 }, { 113,-11596 }, { 114,-11596 }, { 115,-11596 },
+ { 116,-11596 }, { 117,-11596 }, { 118,-11596 }, { 119,-11596 }, { 120,-11596 },
+ { 121,-11596 }, { 122,-11596 }, {   0,   0 }, { 124,-11621 }, { 125,-290 },
+ { 126,-290 }, { 127,-11596 }, { 128,-11596 }, { 129,-11596 }, { 130,-11596 },
+ { 131,-11596 }, { 132,-11596 }, { 133,-11596 }, { 134,-11596 }, { 135,-11596 },
+ { 136,-11596 }, { 137,-11596 }, { 138,-11596 }, { 139,-11596 }, { 140,-11596 },
+ { 141,-11596 }, { 142,-11596 }, { 143,-11596 }, { 144,-11596 }, { 145,-11596 },
+ { 146,-11596 }, { 147,-11596 }, { 148,-11596 }, { 149,-11596 }, { 150,-11596 },
+ { 151,-11596 }, { 152,-11596 }, { 153,-11596 }, { 154,-11596 }, { 155,-11596 },
+
+ { 156,-11596 }, { 157,-11596 }, { 158,-11596 }, { 159,-11596 }, { 160,-11596 },
+ { 161,-11596 }, { 162,-11596 }, { 163,-11596 }, { 164,-11596 }, { 165,-11596 },
+ { 166,-11596 }, { 167,-11596 }, { 168,-11596 }, { 169,-11596 }, { 170,-11596 },
+ { 171,-11596 }, { 172,-11596 }, { 173,-11596 }, { 174,-11596 }, { 175,-11596 },
+ { 176,-11596 }, { 177,-11596 }, { 178,-11596 }, { 179,-11596 }, { 180,-11596 },
+ { 181,-11596 }, { 182,-11596 }, { 183,-11596 }, { 184,-11596 }, { 185,-11596 },
+ { 186,-11596 }, { 187,-11596 }, { 188,-11596 }, { 189,-11596 }, { 190,-11596 },
+ { 191,-11596 }, { 192,-11596 }, { 193,-11596 }, { 194,-11596 }, { 195,-11596 },
+ { 196,-11596 }, { 197,-11596 }, { 198,-11596 }, { 199,-11596 }, { 200,-11596 },
+ { 201,-11596 }, { 202,-11596 }, { 203,-11596 }, { 204,-11596 }, { 205,-11596 },
+
+ { 206,-11596 }, { 207,-11596 }, { 208,-11596 }, { 209,-11596 }, { 210,-11596 },
+ { 211,-11596 }, { 212,-11596 }, { 213,-11596 }, { 214,-11596 }, { 215,-11596 },
+ { 216,-11596 }, { 217,-11596 }, { 218,-11596 }, { 219,-11596 }, { 220,-11596 },
+ { 221,-11596 }, { 222,-11596 }, { 223,-11596 }, { 224,-11596 }, { 225,-11596 },
+ { 226,-11596 }, { 227,-11596 }, { 228,-11596 }, { 229,-11596 }, { 230,-11596 },
+ { 231,-11596 }, { 232,-11596 }, { 233,-11596 }, { 234,-11596 }, { 235,-11596 },
+ { 236,-11596 }, { 237,-11596 }, { 238,-11596 }, { 239,-11596 }, { 240,-11596 },
+ { 241,-11596 }, { 242,-11596 }, { 243,-11596 }, { 244,-11596 }, { 245,-11596 },
+ { 246,-11596 }, { 247,-11596 }, { 248,-11596 }, { 249,-11596 }, { 250,-11596 },
+ { 251,-11596 }, { 252,-11596 }, { 253,-11596 }, { 254,-11596 }, { 255,-11596 },
+
+ { 256,-11596 }, { 257,  52 }, {   1,   0 },    };
 
 static const struct yy_trans_info *yy_start_state_list[13] =
     {
@@ -4998,7 +4959,7 @@ static const struct yy_trans_info *yy_start_state_list[13] =
 static const flex_int32_t yy_rule_can_match_eol[52] =
     {   0,
 1, 1, 0, 1, 0, 0, 0, 1, 0, 1, 0, 1, 1, 0, 0, 0, 0, 0, 0, 
-    0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 0, 0, 1, 1, 
+    0, 0, 1, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 0, 0, 1, 1, 
     0, 1, 0, 1, 1, 1, 1, 1, 1, 1, 0, 0,     };
 
 /* The intent behind this definition is that it'll catch
@@ -5101,9 +5062,9 @@ static const flex_int32_t yy_rule_can_match_eol[52] =
     yylloc->last_column = yycolumn + yyleng - 1; \
     yycolumn += yyleng; \
    	YY_USER_DEBUG_ACTION;
-#line 5104 "handlebars.lex.c"
+#line 5066 "handlebars.lex.c"
 
-#line 5106 "handlebars.lex.c"
+#line 5068 "handlebars.lex.c"
 
 #define INITIAL 0
 #define mu 1
@@ -5386,7 +5347,7 @@ YY_DECL
 
 
 
-#line 5389 "handlebars.lex.c"
+#line 5351 "handlebars.lex.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -5673,6 +5634,7 @@ YY_RULE_SETUP
                              		}
 	YY_BREAK
 case 22:
+/* rule 22 can match eol */
 YY_RULE_SETUP
 #line 288 "handlebars.l"
 {
@@ -5703,6 +5665,7 @@ YY_RULE_SETUP
                              		}
 	YY_BREAK
 case 25:
+/* rule 25 can match eol */
 YY_RULE_SETUP
 #line 308 "handlebars.l"
 {
@@ -6006,7 +5969,7 @@ YY_RULE_SETUP
 #line 483 "handlebars.l"
 ECHO;
 	YY_BREAK
-#line 6009 "handlebars.lex.c"
+#line 5973 "handlebars.lex.c"
 
 	case YY_END_OF_BUFFER:
 		{
diff --git a/src/handlebars.lex.h b/src/handlebars.lex.h
index e85c698..f0d06e3 100644
--- a/src/handlebars.lex.h
+++ b/src/handlebars.lex.h
@@ -2,9 +2,9 @@
 #define handlebars_yy_HEADER_H 1
 #define handlebars_yy_IN_HEADER 1
 
-#line 5 "handlebars.lex.h"
+#line 6 "handlebars.lex.h"
 
-#line 7 "handlebars.lex.h"
+#line 8 "handlebars.lex.h"
 
 #define  YY_INT_ALIGNED long int
 
@@ -736,6 +736,6 @@ extern int yylex \
 #line 483 "handlebars.l"
 
 
-#line 739 "handlebars.lex.h"
+#line 740 "handlebars.lex.h"
 #undef handlebars_yy_IN_HEADER
 #endif /* handlebars_yy_HEADER_H */
-- 
2.43.0


From 2653c6708536d3b1c4b154fc42813f1f6fee5bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:23 +0000
Subject: [PATCH 19/90] fix: lexer: more than one space before block params was
 a syntax error

---
 src/handlebars.l     |    2 +-
 src/handlebars.lex.c | 2935 +++++++++++++++++++++---------------------
 2 files changed, 1480 insertions(+), 1457 deletions(-)

diff --git a/src/handlebars.l b/src/handlebars.l
index 0c6e68e..94a3196 100644
--- a/src/handlebars.l
+++ b/src/handlebars.l
@@ -410,7 +410,7 @@ BLOCKPARAM [\x7C]
 										return DATA;
 									}
 
-<mu>"as"{WHITESPACE}"|"				{
+<mu>"as"{WHITESPACE}+"|"				{
 										// v3.0.3 handlebars.l line 108
 										handlebars_yy_copy_lval();
 										return OPEN_BLOCK_PARAMS;
diff --git a/src/handlebars.lex.c b/src/handlebars.lex.c
index ae79a18..52afbc7 100644
--- a/src/handlebars.lex.c
+++ b/src/handlebars.lex.c
@@ -599,9 +599,9 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const struct yy_trans_info yy_transition[19957] =
+static const struct yy_trans_info yy_transition[20061] =
     {
- {   0,   0 }, {   0,19701 }, {   0,   2 }, {   0,19699 }, {   1,3096 },
+ {   0,   0 }, {   0,19805 }, {   0,   2 }, {   0,19803 }, {   1,3096 },
  {   2,3096 }, {   3,3096 }, {   4,3096 }, {   5,3096 }, {   6,3096 },
  {   7,3096 }, {   8,3096 }, {   9,3096 }, {  10,3353 }, {  11,3096 },
  {  12,3096 }, {  13,3353 }, {  14,3096 }, {  15,3096 }, {  16,3096 },
@@ -658,7 +658,7 @@ static const struct yy_trans_info yy_transition[19957] =
 
  { 247,3096 }, { 248,3096 }, { 249,3096 }, { 250,3096 }, { 251,3096 },
  { 252,3096 }, { 253,3096 }, { 254,3096 }, { 255,3096 }, { 256,3359 },
- {   0,   2 }, {   0,19441 }, {   1,2838 }, {   2,2838 }, {   3,2838 },
+ {   0,   2 }, {   0,19545 }, {   1,2838 }, {   2,2838 }, {   3,2838 },
  {   4,2838 }, {   5,2838 }, {   6,2838 }, {   7,2838 }, {   8,2838 },
  {   9,2838 }, {  10,3095 }, {  11,2838 }, {  12,2838 }, {  13,3095 },
  {  14,2838 }, {  15,2838 }, {  16,2838 }, {  17,2838 }, {  18,2838 },
@@ -714,7 +714,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 239,2838 }, { 240,2838 }, { 241,2838 }, { 242,2838 }, { 243,2838 },
  { 244,2838 }, { 245,2838 }, { 246,2838 }, { 247,2838 }, { 248,2838 },
  { 249,2838 }, { 250,2838 }, { 251,2838 }, { 252,2838 }, { 253,2838 },
- { 254,2838 }, { 255,2838 }, { 256,3101 }, {   0,   0 }, {   0,19183 },
+ { 254,2838 }, { 255,2838 }, { 256,3101 }, {   0,   0 }, {   0,19287 },
  {   1,3223 }, {   2,3223 }, {   3,3223 }, {   4,3223 }, {   5,3223 },
  {   6,3223 }, {   7,3223 }, {   8,3223 }, {   9,2845 }, {  10,2852 },
  {  11,3223 }, {  12,3223 }, {  13,2845 }, {  14,3223 }, {  15,3223 },
@@ -771,7 +771,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 241,3223 }, { 242,3223 }, { 243,3223 }, { 244,3223 }, { 245,3223 },
  { 246,3223 }, { 247,3223 }, { 248,3223 }, { 249,3223 }, { 250,3223 },
  { 251,3223 }, { 252,3223 }, { 253,3223 }, { 254,3223 }, { 255,3223 },
- { 256,3223 }, {   0,   0 }, {   0,18925 }, {   1,2965 }, {   2,2965 },
+ { 256,3223 }, {   0,   0 }, {   0,19029 }, {   1,2965 }, {   2,2965 },
  {   3,2965 }, {   4,2965 }, {   5,2965 }, {   6,2965 }, {   7,2965 },
  {   8,2965 }, {   9,2587 }, {  10,2594 }, {  11,2965 }, {  12,2965 },
  {  13,2587 }, {  14,2965 }, {  15,2965 }, {  16,2965 }, {  17,2965 },
@@ -828,7 +828,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 243,2965 }, { 244,2965 }, { 245,2965 }, { 246,2965 }, { 247,2965 },
  { 248,2965 }, { 249,2965 }, { 250,2965 }, { 251,2965 }, { 252,2965 },
  { 253,2965 }, { 254,2965 }, { 255,2965 }, { 256,2965 }, {   0,   0 },
- {   0,18667 }, {   1,3792 }, {   2,3792 }, {   3,3792 }, {   4,3792 },
+ {   0,18771 }, {   1,3792 }, {   2,3792 }, {   3,3792 }, {   4,3792 },
  {   5,3792 }, {   6,3792 }, {   7,3792 }, {   8,3792 }, {   9,3792 },
  {  10,2327 }, {  11,3792 }, {  12,3792 }, {  13,3792 }, {  14,3792 },
 
@@ -884,7 +884,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 240,3792 }, { 241,3792 }, { 242,3792 }, { 243,3792 }, { 244,3792 },
  { 245,3792 }, { 246,3792 }, { 247,3792 }, { 248,3792 }, { 249,3792 },
  { 250,3792 }, { 251,3792 }, { 252,3792 }, { 253,3792 }, { 254,3792 },
- { 255,3792 }, { 256,3792 }, {   0,   0 }, {   0,18409 }, {   1,3534 },
+ { 255,3792 }, { 256,3792 }, {   0,   0 }, {   0,18513 }, {   1,3534 },
  {   2,3534 }, {   3,3534 }, {   4,3534 }, {   5,3534 }, {   6,3534 },
 
  {   7,3534 }, {   8,3534 }, {   9,3534 }, {  10,2069 }, {  11,3534 },
@@ -942,7 +942,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 247,3534 }, { 248,3534 }, { 249,3534 }, { 250,3534 }, { 251,3534 },
  { 252,3534 }, { 253,3534 }, { 254,3534 }, { 255,3534 }, { 256,3534 },
 
- {   0,   0 }, {   0,18151 }, {   1,1811 }, {   2,1811 }, {   3,1811 },
+ {   0,   0 }, {   0,18255 }, {   1,1811 }, {   2,1811 }, {   3,1811 },
  {   4,1811 }, {   5,1811 }, {   6,1811 }, {   7,1811 }, {   8,1811 },
  {   9,1811 }, {  10,1811 }, {  11,1811 }, {  12,1811 }, {  13,1811 },
  {  14,1811 }, {  15,1811 }, {  16,1811 }, {  17,1811 }, {  18,1811 },
@@ -998,7 +998,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 244,1811 }, { 245,1811 }, { 246,1811 }, { 247,1811 }, { 248,1811 },
 
  { 249,1811 }, { 250,1811 }, { 251,1811 }, { 252,1811 }, { 253,1811 },
- { 254,1811 }, { 255,1811 }, { 256,1811 }, {   0,   0 }, {   0,17893 },
+ { 254,1811 }, { 255,1811 }, { 256,1811 }, {   0,   0 }, {   0,17997 },
  {   1,1553 }, {   2,1553 }, {   3,1553 }, {   4,1553 }, {   5,1553 },
  {   6,1553 }, {   7,1553 }, {   8,1553 }, {   9,1553 }, {  10,1553 },
  {  11,1553 }, {  12,1553 }, {  13,1553 }, {  14,1553 }, {  15,1553 },
@@ -1055,7 +1055,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 241,1553 }, { 242,1553 }, { 243,1553 }, { 244,1553 }, { 245,1553 },
  { 246,1553 }, { 247,1553 }, { 248,1553 }, { 249,1553 }, { 250,1553 },
  { 251,1553 }, { 252,1553 }, { 253,1553 }, { 254,1553 }, { 255,1553 },
- { 256,1553 }, {   0,   0 }, {   0,17635 }, {   1,4595 }, {   2,4595 },
+ { 256,1553 }, {   0,   0 }, {   0,17739 }, {   1,4595 }, {   2,4595 },
  {   3,4595 }, {   4,4595 }, {   5,4595 }, {   6,4595 }, {   7,4595 },
  {   8,4595 }, {   9,4595 }, {  10,4595 }, {  11,4595 }, {  12,4595 },
  {  13,4595 }, {  14,4595 }, {  15,4595 }, {  16,4595 }, {  17,4595 },
@@ -1112,7 +1112,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 243,4595 }, { 244,4595 }, { 245,4595 }, { 246,4595 }, { 247,4595 },
  { 248,4595 }, { 249,4595 }, { 250,4595 }, { 251,4595 }, { 252,4595 },
  { 253,4595 }, { 254,4595 }, { 255,4595 }, { 256,4595 }, {   0,   0 },
- {   0,17377 }, {   1,4337 }, {   2,4337 }, {   3,4337 }, {   4,4337 },
+ {   0,17481 }, {   1,4337 }, {   2,4337 }, {   3,4337 }, {   4,4337 },
  {   5,4337 }, {   6,4337 }, {   7,4337 }, {   8,4337 }, {   9,4337 },
  {  10,4337 }, {  11,4337 }, {  12,4337 }, {  13,4337 }, {  14,4337 },
  {  15,4337 }, {  16,4337 }, {  17,4337 }, {  18,4337 }, {  19,4337 },
@@ -1168,7 +1168,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 240,4337 }, { 241,4337 }, { 242,4337 }, { 243,4337 }, { 244,4337 },
  { 245,4337 }, { 246,4337 }, { 247,4337 }, { 248,4337 }, { 249,4337 },
  { 250,4337 }, { 251,4337 }, { 252,4337 }, { 253,4337 }, { 254,4337 },
- { 255,4337 }, { 256,4337 }, {   0,   0 }, {   0,17119 }, {   1,4595 },
+ { 255,4337 }, { 256,4337 }, {   0,   0 }, {   0,17223 }, {   1,4595 },
  {   2,4595 }, {   3,4595 }, {   4,4595 }, {   5,4595 }, {   6,4595 },
  {   7,4595 }, {   8,4595 }, {   9,4595 }, {  10,4595 }, {  11,4595 },
  {  12,4595 }, {  13,4595 }, {  14,4595 }, {  15,4595 }, {  16,4595 },
@@ -1225,7 +1225,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 242,4595 }, { 243,4595 }, { 244,4595 }, { 245,4595 }, { 246,4595 },
  { 247,4595 }, { 248,4595 }, { 249,4595 }, { 250,4595 }, { 251,4595 },
  { 252,4595 }, { 253,4595 }, { 254,4595 }, { 255,4595 }, { 256, 779 },
- {   0,   0 }, {   0,16861 }, {   1,4337 }, {   2,4337 }, {   3,4337 },
+ {   0,   0 }, {   0,16965 }, {   1,4337 }, {   2,4337 }, {   3,4337 },
  {   4,4337 }, {   5,4337 }, {   6,4337 }, {   7,4337 }, {   8,4337 },
 
  {   9,4337 }, {  10,4337 }, {  11,4337 }, {  12,4337 }, {  13,4337 },
@@ -1281,7 +1281,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 239,4337 }, { 240,4337 }, { 241,4337 }, { 242,4337 }, { 243,4337 },
  { 244,4337 }, { 245,4337 }, { 246,4337 }, { 247,4337 }, { 248,4337 },
  { 249,4337 }, { 250,4337 }, { 251,4337 }, { 252,4337 }, { 253,4337 },
- { 254,4337 }, { 255,4337 }, { 256, 521 }, {   0,   2 }, {   0,16603 },
+ { 254,4337 }, { 255,4337 }, { 256, 521 }, {   0,   2 }, {   0,16707 },
 
  {   1,4461 }, {   2,4461 }, {   3,4461 }, {   4,4461 }, {   5,4461 },
  {   6,4461 }, {   7,4461 }, {   8,4461 }, {   9,4461 }, {  10,4338 },
@@ -1339,14 +1339,14 @@ static const struct yy_trans_info yy_transition[19957] =
  { 246,4461 }, { 247,4461 }, { 248,4461 }, { 249,4461 }, { 250,4461 },
 
  { 251,4461 }, { 252,4461 }, { 253,4461 }, { 254,4461 }, { 255,4461 },
- {   0,   2 }, {   0,16346 }, {   0,   6 }, {   0,16344 }, {   0,   6 },
- {   0,16342 }, {   0,  51 }, {   0,16340 }, {   0,  35 }, {   0,16338 },
+ {   0,   2 }, {   0,16450 }, {   0,   6 }, {   0,16448 }, {   0,   6 },
+ {   0,16446 }, {   0,  51 }, {   0,16444 }, {   0,  35 }, {   0,16442 },
  {   0,   0 }, {  10,4081 }, {   0,   0 }, {   0,   0 }, {  13,4081 },
- {   0,  35 }, {   0,16331 }, {   0,   0 }, {   9,4742 }, {  10,4742 },
- {   0,  50 }, {   0,16326 }, {  13,4742 }, {   0,  14 }, {   0,16323 },
- {   9,4735 }, {  10,4735 }, {   0,  15 }, {   0,16319 }, {  13,4735 },
- {   0,  34 }, {   0,16316 }, {   0,  31 }, {   0,16314 }, {   0,  40 },
- {   0,16312 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  35 }, {   0,16435 }, {   0,   0 }, {   9,4742 }, {  10,4742 },
+ {   0,  50 }, {   0,16430 }, {  13,4742 }, {   0,  14 }, {   0,16427 },
+ {   9,4735 }, {  10,4735 }, {   0,  15 }, {   0,16423 }, {  13,4735 },
+ {   0,  34 }, {   0,16420 }, {   0,  31 }, {   0,16418 }, {   0,  40 },
+ {   0,16416 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  32,4742 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,4735 }, {   0,   0 },
@@ -1367,7 +1367,7 @@ static const struct yy_trans_info yy_transition[19957] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, { 123,4461 }, {   0,   0 }, { 123,4461 }, {   0,   2 },
- {   0,16217 }, {   1,4075 }, {   2,4075 }, {   3,4075 }, {   4,4075 },
+ {   0,16321 }, {   1,4075 }, {   2,4075 }, {   3,4075 }, {   4,4075 },
  {   5,4075 }, {   6,4075 }, {   7,4075 }, {   8,4075 }, {   9,4075 },
  {  10,3952 }, {  11,4075 }, {  12,4075 }, {  13,3952 }, {  14,4075 },
 
@@ -1423,7 +1423,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 240,4075 }, { 241,4075 }, { 242,4075 }, { 243,4075 }, { 244,4075 },
  { 245,4075 }, { 246,4075 }, { 247,4075 }, { 248,4075 }, { 249,4075 },
  { 250,4075 }, { 251,4075 }, { 252,4075 }, { 253,4075 }, { 254,4075 },
- { 255,4075 }, {   0,  50 }, {   0,15960 }, {   1,4106 }, {   2,4106 },
+ { 255,4075 }, {   0,  50 }, {   0,16064 }, {   1,4106 }, {   2,4106 },
  {   3,4106 }, {   4,4106 }, {   5,4106 }, {   6,4106 }, {   7,4106 },
 
  {   8,4106 }, {   9,4081 }, {  10,4081 }, {  11,4106 }, {  12,4106 },
@@ -1481,7 +1481,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 248,4106 }, { 249,4106 }, { 250,4106 }, { 251,4106 }, { 252,4106 },
  { 253,4106 }, { 254,4106 }, { 255,4106 }, { 256,4106 }, {   0,  50 },
 
- {   0,15702 }, {   1,4140 }, {   2,4140 }, {   3,4140 }, {   4,4140 },
+ {   0,15806 }, {   1,4140 }, {   2,4140 }, {   3,4140 }, {   4,4140 },
  {   5,4140 }, {   6,4140 }, {   7,4140 }, {   8,4140 }, {   9,4140 },
  {  10,4140 }, {  11,4140 }, {  12,4140 }, {  13,4140 }, {  14,4140 },
  {  15,4140 }, {  16,4140 }, {  17,4140 }, {  18,4140 }, {  19,4140 },
@@ -1537,7 +1537,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 245,4140 }, { 246,4140 }, { 247,4140 }, { 248,4140 }, { 249,4140 },
 
  { 250,4140 }, { 251,4140 }, { 252,4140 }, { 253,4140 }, { 254,4140 },
- { 255,4140 }, { 256,4140 }, {   0,  50 }, {   0,15444 }, {   1,4398 },
+ { 255,4140 }, { 256,4140 }, {   0,  50 }, {   0,15548 }, {   1,4398 },
  {   2,4398 }, {   3,4398 }, {   4,4398 }, {   5,4398 }, {   6,4398 },
  {   7,4398 }, {   8,4398 }, {   9,4398 }, {  10,4398 }, {  11,4398 },
  {  12,4398 }, {  13,4398 }, {  14,4398 }, {  15,4398 }, {  16,4398 },
@@ -1594,7 +1594,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 242,4398 }, { 243,4398 }, { 244,4398 }, { 245,4398 }, { 246,4398 },
  { 247,4398 }, { 248,4398 }, { 249,4398 }, { 250,4398 }, { 251,4398 },
  { 252,4398 }, { 253,4398 }, { 254,4398 }, { 255,4398 }, { 256,4398 },
- {   0,  50 }, {   0,15186 }, {   1,3332 }, {   2,3332 }, {   3,3332 },
+ {   0,  50 }, {   0,15290 }, {   1,3332 }, {   2,3332 }, {   3,3332 },
  {   4,3332 }, {   5,3332 }, {   6,3332 }, {   7,3332 }, {   8,3332 },
  {   9,3307 }, {  10,3307 }, {  11,3332 }, {  12,3332 }, {  13,3307 },
  {  14,3332 }, {  15,3332 }, {  16,3332 }, {  17,3332 }, {  18,3332 },
@@ -1650,26 +1650,26 @@ static const struct yy_trans_info yy_transition[19957] =
  { 239,3332 }, { 240,3332 }, { 241,3332 }, { 242,3332 }, { 243,3332 },
  { 244,3332 }, { 245,3332 }, { 246,3332 }, { 247,3332 }, { 248,3332 },
  { 249,3332 }, { 250,3332 }, { 251,3332 }, { 252,3332 }, { 253,3332 },
- { 254,3332 }, { 255,3332 }, { 256,3332 }, {   0,  34 }, {   0,14928 },
+ { 254,3332 }, { 255,3332 }, { 256,3332 }, {   0,  34 }, {   0,15032 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,3338 }, {  10,3338 },
  {   0,   0 }, {   0,   0 }, {  13,3338 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,  50 }, {   0,14910 }, {   0,  42 }, {   0,14908 },
+ {   0,   0 }, {   0,  50 }, {   0,15014 }, {   0,  42 }, {   0,15012 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  32,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  41,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  46,3340 }, {  47,3338 }, {   0,  50 }, {   0,14879 }, {   0,  50 },
- {   0,14877 }, {   0,   7 }, {   0,14875 }, {   0,  51 }, {   0,14873 },
+ {  46,3340 }, {  47,3338 }, {   0,  50 }, {   0,14983 }, {   0,  50 },
+ {   0,14981 }, {   0,   7 }, {   0,14979 }, {   0,  51 }, {   0,14977 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  61,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,  50 }, {   0,14846 }, {   1,2992 }, {   2,2992 }, {   3,2992 },
+ {   0,  50 }, {   0,14950 }, {   1,2992 }, {   2,2992 }, {   3,2992 },
  {   4,2992 }, {   5,2992 }, {   6,2992 }, {   7,2992 }, {   8,2992 },
  {   9,3262 }, {  10,3262 }, {  11,2992 }, {  12,2992 }, {  13,3262 },
  {  14,2992 }, {  15,2992 }, {  16,2992 }, {  17,2992 }, {  18,2992 },
@@ -1725,7 +1725,7 @@ static const struct yy_trans_info yy_transition[19957] =
 
  { 244,2992 }, { 245,2992 }, { 246,2992 }, { 247,2992 }, { 248,2992 },
  { 249,2992 }, { 250,2992 }, { 251,2992 }, { 252,2992 }, { 253,2992 },
- { 254,2992 }, { 255,2992 }, { 256,2992 }, {   0,  50 }, {   0,14588 },
+ { 254,2992 }, { 255,2992 }, { 256,2992 }, {   0,  50 }, {   0,14692 },
  {   1,4375 }, {   2,4375 }, {   3,4375 }, {   4,4375 }, {   5,4375 },
  {   6,4375 }, {   7,4375 }, {   8,4375 }, {   9,4375 }, {  10,4375 },
  {  11,4375 }, {  12,4375 }, {  13,4375 }, {  14,4375 }, {  15,4375 },
@@ -1782,7 +1782,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 241,4375 }, { 242,4375 }, { 243,4375 }, { 244,4375 }, { 245,4375 },
  { 246,4375 }, { 247,4375 }, { 248,4375 }, { 249,4375 }, { 250,4375 },
  { 251,4375 }, { 252,4375 }, { 253,4375 }, { 254,4375 }, { 255,4375 },
- { 256,4375 }, {   0,  50 }, {   0,14330 }, {   1,2476 }, {   2,2476 },
+ { 256,4375 }, {   0,  50 }, {   0,14434 }, {   1,2476 }, {   2,2476 },
  {   3,2476 }, {   4,2476 }, {   5,2476 }, {   6,2476 }, {   7,2476 },
  {   8,2476 }, {   9,2451 }, {  10,2451 }, {  11,2476 }, {  12,2476 },
  {  13,2451 }, {  14,2476 }, {  15,2476 }, {  16,2476 }, {  17,2476 },
@@ -1839,7 +1839,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 243,2476 }, { 244,2476 }, { 245,2476 }, { 246,2476 }, { 247,2476 },
  { 248,2476 }, { 249,2476 }, { 250,2476 }, { 251,2476 }, { 252,2476 },
  { 253,2476 }, { 254,2476 }, { 255,2476 }, { 256,2476 }, {   0,  50 },
- {   0,14072 }, {   1,2218 }, {   2,2218 }, {   3,2218 }, {   4,2218 },
+ {   0,14176 }, {   1,2218 }, {   2,2218 }, {   3,2218 }, {   4,2218 },
  {   5,2218 }, {   6,2218 }, {   7,2218 }, {   8,2218 }, {   9,2193 },
  {  10,2193 }, {  11,2218 }, {  12,2218 }, {  13,2193 }, {  14,2218 },
  {  15,2218 }, {  16,2218 }, {  17,2218 }, {  18,2218 }, {  19,2218 },
@@ -1895,7 +1895,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 240,2218 }, { 241,2218 }, { 242,2218 }, { 243,2218 }, { 244,2218 },
  { 245,2218 }, { 246,2218 }, { 247,2218 }, { 248,2218 }, { 249,2218 },
  { 250,2218 }, { 251,2218 }, { 252,2218 }, { 253,2218 }, { 254,2218 },
- { 255,2218 }, { 256,2218 }, {   0,  50 }, {   0,13814 }, {   1,1960 },
+ { 255,2218 }, { 256,2218 }, {   0,  50 }, {   0,13918 }, {   1,1960 },
  {   2,1960 }, {   3,1960 }, {   4,1960 }, {   5,1960 }, {   6,1960 },
  {   7,1960 }, {   8,1960 }, {   9,1935 }, {  10,1935 }, {  11,1960 },
 
@@ -1952,7 +1952,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 242,1960 }, { 243,1960 }, { 244,1960 }, { 245,1960 }, { 246,1960 },
  { 247,1960 }, { 248,1960 }, { 249,1960 }, { 250,1960 }, { 251,1960 },
  { 252,1960 }, { 253,1960 }, { 254,1960 }, { 255,1960 }, { 256,1960 },
- {   0,  50 }, {   0,13556 }, {   1,1702 }, {   2,1702 }, {   3,1702 },
+ {   0,  50 }, {   0,13660 }, {   1,1702 }, {   2,1702 }, {   3,1702 },
 
  {   4,1702 }, {   5,1702 }, {   6,1702 }, {   7,1702 }, {   8,1702 },
  {   9,1677 }, {  10,1677 }, {  11,1702 }, {  12,1702 }, {  13,1677 },
@@ -2009,7 +2009,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 244,1702 }, { 245,1702 }, { 246,1702 }, { 247,1702 }, { 248,1702 },
  { 249,1702 }, { 250,1702 }, { 251,1702 }, { 252,1702 }, { 253,1702 },
 
- { 254,1702 }, { 255,1702 }, { 256,1702 }, {   0,  50 }, {   0,13298 },
+ { 254,1702 }, { 255,1702 }, { 256,1702 }, {   0,  50 }, {   0,13402 },
  {   1,1444 }, {   2,1444 }, {   3,1444 }, {   4,1444 }, {   5,1444 },
  {   6,1444 }, {   7,1444 }, {   8,1444 }, {   9,1419 }, {  10,1419 },
  {  11,1444 }, {  12,1444 }, {  13,1419 }, {  14,1444 }, {  15,1444 },
@@ -2066,7 +2066,7 @@ static const struct yy_trans_info yy_transition[19957] =
 
  { 246,1444 }, { 247,1444 }, { 248,1444 }, { 249,1444 }, { 250,1444 },
  { 251,1444 }, { 252,1444 }, { 253,1444 }, { 254,1444 }, { 255,1444 },
- { 256,1444 }, {   0,  51 }, {   0,13040 }, {   1,4769 }, {   2,4769 },
+ { 256,1444 }, {   0,  51 }, {   0,13144 }, {   1,4769 }, {   2,4769 },
  {   3,4769 }, {   4,4769 }, {   5,4769 }, {   6,4769 }, {   7,4769 },
  {   8,4769 }, {   9,4769 }, {  10,4769 }, {  11,4769 }, {  12,4769 },
  {  13,4769 }, {  14,4769 }, {  15,4769 }, {  16,4769 }, {  17,4769 },
@@ -2123,7 +2123,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 243,4769 }, { 244,4769 }, { 245,4769 }, { 246,4769 }, { 247,4769 },
  { 248,4769 }, { 249,4769 }, { 250,4769 }, { 251,4769 }, { 252,4769 },
  { 253,4769 }, { 254,4769 }, { 255,4769 }, { 256,4769 }, {   0,  51 },
- {   0,12782 }, {   1,4511 }, {   2,4511 }, {   3,4511 }, {   4,4511 },
+ {   0,12886 }, {   1,4511 }, {   2,4511 }, {   3,4511 }, {   4,4511 },
  {   5,4511 }, {   6,4511 }, {   7,4511 }, {   8,4511 }, {   9,4511 },
  {  10,4511 }, {  11,4511 }, {  12,4511 }, {  13,4511 }, {  14,4511 },
  {  15,4511 }, {  16,4511 }, {  17,4511 }, {  18,4511 }, {  19,4511 },
@@ -2179,7 +2179,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 240,4511 }, { 241,4511 }, { 242,4511 }, { 243,4511 }, { 244,4511 },
  { 245,4511 }, { 246,4511 }, { 247,4511 }, { 248,4511 }, { 249,4511 },
  { 250,4511 }, { 251,4511 }, { 252,4511 }, { 253,4511 }, { 254,4511 },
- { 255,4511 }, { 256,4511 }, {   0,  10 }, {   0,12524 }, {   1,4769 },
+ { 255,4511 }, { 256,4511 }, {   0,  10 }, {   0,12628 }, {   1,4769 },
  {   2,4769 }, {   3,4769 }, {   4,4769 }, {   5,4769 }, {   6,4769 },
  {   7,4769 }, {   8,4769 }, {   9,4769 }, {  10,4769 }, {  11,4769 },
  {  12,4769 }, {  13,4769 }, {  14,4769 }, {  15,4769 }, {  16,4769 },
@@ -2236,7 +2236,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 242,4769 }, { 243,4769 }, { 244,4769 }, { 245,4769 }, { 246,4769 },
  { 247,4769 }, { 248,4769 }, { 249,4769 }, { 250,4769 }, { 251,4769 },
  { 252,4769 }, { 253,4769 }, { 254,4769 }, { 255,4769 }, {   0,  11 },
- {   0,12267 }, {   0,   2 }, {   0,12265 }, {   0,   0 }, {   0,12263 },
+ {   0,12371 }, {   0,   2 }, {   0,12369 }, {   0,   0 }, {   0,12367 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 },
 
@@ -2264,7 +2264,7 @@ static const struct yy_trans_info yy_transition[19957] =
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,4769 }, {   0,   2 },
- {   0,12142 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
+ {   0,12246 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
  {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
  {  10,-123 }, {  11,   0 }, {  12,   0 }, {  13,-123 }, {  14,   0 },
  {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
@@ -2320,13 +2320,13 @@ static const struct yy_trans_info yy_transition[19957] =
  { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
  { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
  { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
- { 255,   0 }, {   0,   0 }, {   0,11885 }, {   0,   0 }, {   0,11883 },
- {   0,   5 }, {   0,11881 }, {   0,  48 }, {   0,11879 }, {   0,   0 },
+ { 255,   0 }, {   0,   0 }, {   0,11989 }, {   0,   0 }, {   0,11987 },
+ {   0,   5 }, {   0,11985 }, {   0,  48 }, {   0,11983 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,11854 }, {   1,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,11958 }, {   1,   0 },
 
  {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
  {   7,   0 }, {   8,   0 }, {   9, -25 }, {  10, -25 }, {  11,   0 },
@@ -2384,14 +2384,14 @@ static const struct yy_trans_info yy_transition[19957] =
  { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
 
  { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
- {   0,  35 }, {   0,11596 }, {   0,  38 }, {   0,11594 }, {   0,  39 },
- {   0,11592 }, {   0,  33 }, {   0,11590 }, {   0,  32 }, {   0,11588 },
- {   9,   0 }, {  10,   0 }, {   0,  47 }, {   0,11584 }, {  13,   0 },
- {   0,  49 }, {   0,11581 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  35 }, {   0,11700 }, {   0,  38 }, {   0,11698 }, {   0,  39 },
+ {   0,11696 }, {   0,  33 }, {   0,11694 }, {   0,  32 }, {   0,11692 },
+ {   9,   0 }, {  10,   0 }, {   0,  47 }, {   0,11688 }, {  13,   0 },
+ {   0,  49 }, {   0,11685 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 },
- {   0,11562 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
+ {   0,11666 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
  {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
 
  {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 }, {  14,   0 },
@@ -2447,7 +2447,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
  { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
  { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
- { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,11304 }, {   1,-258 },
+ { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,11408 }, {   1,-258 },
 
  {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 },
  {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 },
@@ -2505,7 +2505,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 },
 
  { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 },
- {   0,   0 }, {   0,11046 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   0,   0 }, {   0,11150 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
  {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
  {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
  {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
@@ -2561,7 +2561,7 @@ static const struct yy_trans_info yy_transition[19957] =
 
  { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
  { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,10788 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,10892 },
  {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
  {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
  {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 },
@@ -2618,7 +2618,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
  { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
  { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
- { 256,-258 }, {   0,   0 }, {   0,10530 }, {   1,-1324 }, {   2,-1324 },
+ { 256,-258 }, {   0,   0 }, {   0,10634 }, {   1,-1324 }, {   2,-1324 },
  {   3,-1324 }, {   4,-1324 }, {   5,-1324 }, {   6,-1324 }, {   7,-1324 },
  {   8,-1324 }, {   9,-1054 }, {  10,-1054 }, {  11,-1324 }, {  12,-1324 },
  {  13,-1054 }, {  14,-1324 }, {  15,-1324 }, {  16,-1324 }, {  17,-1324 },
@@ -2675,7 +2675,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 243,-1324 }, { 244,-1324 }, { 245,-1324 }, { 246,-1324 }, { 247,-1324 },
  { 248,-1324 }, { 249,-1324 }, { 250,-1324 }, { 251,-1324 }, { 252,-1324 },
  { 253,-1324 }, { 254,-1324 }, { 255,-1324 }, { 256,-1324 }, {   0,  48 },
- {   0,10272 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,10376 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -2687,7 +2687,7 @@ static const struct yy_trans_info yy_transition[19957] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  48,3676 }, {  49,3676 },
  {  50,3676 }, {  51,3676 }, {  52,3676 }, {  53,3676 }, {  54,3676 },
- {  55,3676 }, {  56,3676 }, {  57,3676 }, {   0,   0 }, {   0,10213 },
+ {  55,3676 }, {  56,3676 }, {  57,3676 }, {   0,   0 }, {   0,10317 },
  {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 },
  {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,   0 },
 
@@ -2744,7 +2744,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 },
  { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 },
  { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 },
- { 256,   0 }, {   0,   0 }, {   0,9955 }, {   1,-258 }, {   2,-258 },
+ { 256,   0 }, {   0,   0 }, {   0,10059 }, {   1,-258 }, {   2,-258 },
 
  {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 }, {   7,-258 },
  {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 }, {  12,-258 },
@@ -2802,13 +2802,13 @@ static const struct yy_trans_info yy_transition[19957] =
  { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 }, { 252,-258 },
 
  { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 }, {   0,   0 },
- {   0,9697 }, {   1,-2157 }, {   2,-2157 }, {   3,-2157 }, {   4,-2157 },
- {   5,-2157 }, {   6,-2157 }, {   7,-2157 }, {   8,-2157 }, {   9,2296 },
- {  10,2296 }, {  11,-2157 }, {  12,-2157 }, {  13,2296 }, {  14,-2157 },
+ {   0,9801 }, {   1,-2157 }, {   2,-2157 }, {   3,-2157 }, {   4,-2157 },
+ {   5,-2157 }, {   6,-2157 }, {   7,-2157 }, {   8,-2157 }, {   9,3487 },
+ {  10,3487 }, {  11,-2157 }, {  12,-2157 }, {  13,3487 }, {  14,-2157 },
  {  15,-2157 }, {  16,-2157 }, {  17,-2157 }, {  18,-2157 }, {  19,-2157 },
  {  20,-2157 }, {  21,-2157 }, {  22,-2157 }, {  23,-2157 }, {  24,-2157 },
  {  25,-2157 }, {  26,-2157 }, {  27,-2157 }, {  28,-2157 }, {  29,-2157 },
- {  30,-2157 }, {  31,-2157 }, {  32,2296 }, {   0,   0 }, {   0,   0 },
+ {  30,-2157 }, {  31,-2157 }, {  32,3487 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  36,-2157 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  41,-2182 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
@@ -2858,7 +2858,7 @@ static const struct yy_trans_info yy_transition[19957] =
 
  { 245,-2157 }, { 246,-2157 }, { 247,-2157 }, { 248,-2157 }, { 249,-2157 },
  { 250,-2157 }, { 251,-2157 }, { 252,-2157 }, { 253,-2157 }, { 254,-2157 },
- { 255,-2157 }, { 256,-2157 }, {   0,   0 }, {   0,9439 }, {   1,-2415 },
+ { 255,-2157 }, { 256,-2157 }, {   0,   0 }, {   0,9543 }, {   1,-2415 },
  {   2,-2415 }, {   3,-2415 }, {   4,-2415 }, {   5,-2415 }, {   6,-2415 },
  {   7,-2415 }, {   8,-2415 }, {   9,-2440 }, {  10,-2440 }, {  11,-2415 },
  {  12,-2415 }, {  13,-2440 }, {  14,-2415 }, {  15,-2415 }, {  16,-2415 },
@@ -2882,7 +2882,7 @@ static const struct yy_trans_info yy_transition[19957] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-2415 }, {   0,   0 },
  {  97,-2415 }, {  98,-2415 }, {  99,-2415 }, { 100,-2415 }, { 101,-2415 },
  { 102,-2415 }, { 103,-2415 }, { 104,-2415 }, { 105,-2415 }, { 106,-2415 },
- { 107,-2415 }, { 108,3229 }, { 109,-2415 }, { 110,-2415 }, { 111,-2415 },
+ { 107,-2415 }, { 108,3289 }, { 109,-2415 }, { 110,-2415 }, { 111,-2415 },
  { 112,-2415 }, { 113,-2415 }, { 114,-2415 }, { 115,-2415 }, { 116,-2415 },
  { 117,-2415 }, { 118,-2415 }, { 119,-2415 }, { 120,-2415 }, { 121,-2415 },
  { 122,-2415 }, {   0,   0 }, { 124,-2440 }, { 125,-2440 }, { 126,-2440 },
@@ -2915,7 +2915,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 242,-2415 }, { 243,-2415 }, { 244,-2415 }, { 245,-2415 }, { 246,-2415 },
  { 247,-2415 }, { 248,-2415 }, { 249,-2415 }, { 250,-2415 }, { 251,-2415 },
  { 252,-2415 }, { 253,-2415 }, { 254,-2415 }, { 255,-2415 }, { 256,-2415 },
- {   0,   0 }, {   0,9181 }, {   1,-2673 }, {   2,-2673 }, {   3,-2673 },
+ {   0,   0 }, {   0,9285 }, {   1,-2673 }, {   2,-2673 }, {   3,-2673 },
  {   4,-2673 }, {   5,-2673 }, {   6,-2673 }, {   7,-2673 }, {   8,-2673 },
  {   9,-2698 }, {  10,-2698 }, {  11,-2673 }, {  12,-2673 }, {  13,-2698 },
  {  14,-2673 }, {  15,-2673 }, {  16,-2673 }, {  17,-2673 }, {  18,-2673 },
@@ -2938,7 +2938,7 @@ static const struct yy_trans_info yy_transition[19957] =
  {  89,-2673 }, {  90,-2673 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  95,-2673 }, {   0,   0 }, {  97,-2673 }, {  98,-2673 },
  {  99,-2673 }, { 100,-2673 }, { 101,-2673 }, { 102,-2673 }, { 103,-2673 },
- { 104,-2673 }, { 105,-2673 }, { 106,-2673 }, { 107,-2673 }, { 108,3229 },
+ { 104,-2673 }, { 105,-2673 }, { 106,-2673 }, { 107,-2673 }, { 108,3289 },
  { 109,-2673 }, { 110,-2673 }, { 111,-2673 }, { 112,-2673 }, { 113,-2673 },
  { 114,-2673 }, { 115,-2673 }, { 116,-2673 }, { 117,-2673 }, { 118,-2673 },
  { 119,-2673 }, { 120,-2673 }, { 121,-2673 }, { 122,-2673 }, {   0,   0 },
@@ -2971,7 +2971,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 239,-2673 }, { 240,-2673 }, { 241,-2673 }, { 242,-2673 }, { 243,-2673 },
  { 244,-2673 }, { 245,-2673 }, { 246,-2673 }, { 247,-2673 }, { 248,-2673 },
  { 249,-2673 }, { 250,-2673 }, { 251,-2673 }, { 252,-2673 }, { 253,-2673 },
- { 254,-2673 }, { 255,-2673 }, { 256,-2673 }, {   0,   0 }, {   0,8923 },
+ { 254,-2673 }, { 255,-2673 }, { 256,-2673 }, {   0,   0 }, {   0,9027 },
  {   1,-2931 }, {   2,-2931 }, {   3,-2931 }, {   4,-2931 }, {   5,-2931 },
  {   6,-2931 }, {   7,-2931 }, {   8,-2931 }, {   9,-2956 }, {  10,-2956 },
  {  11,-2931 }, {  12,-2931 }, {  13,-2956 }, {  14,-2931 }, {  15,-2931 },
@@ -2997,7 +2997,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 101,-2931 }, { 102,-2931 }, { 103,-2931 }, { 104,-2931 }, { 105,-2931 },
  { 106,-2931 }, { 107,-2931 }, { 108,-2931 }, { 109,-2931 }, { 110,-2931 },
  { 111,-2931 }, { 112,-2931 }, { 113,-2931 }, { 114,-2931 }, { 115,-2931 },
- { 116,-2931 }, { 117,3229 }, { 118,-2931 }, { 119,-2931 }, { 120,-2931 },
+ { 116,-2931 }, { 117,3289 }, { 118,-2931 }, { 119,-2931 }, { 120,-2931 },
 
  { 121,-2931 }, { 122,-2931 }, {   0,   0 }, { 124,-2956 }, { 125,-2956 },
  { 126,-2956 }, { 127,-2931 }, { 128,-2931 }, { 129,-2931 }, { 130,-2931 },
@@ -3028,7 +3028,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 241,-2931 }, { 242,-2931 }, { 243,-2931 }, { 244,-2931 }, { 245,-2931 },
  { 246,-2931 }, { 247,-2931 }, { 248,-2931 }, { 249,-2931 }, { 250,-2931 },
  { 251,-2931 }, { 252,-2931 }, { 253,-2931 }, { 254,-2931 }, { 255,-2931 },
- { 256,-2931 }, {   0,   0 }, {   0,8665 }, {   1,-3189 }, {   2,-3189 },
+ { 256,-2931 }, {   0,   0 }, {   0,8769 }, {   1,-3189 }, {   2,-3189 },
  {   3,-3189 }, {   4,-3189 }, {   5,-3189 }, {   6,-3189 }, {   7,-3189 },
  {   8,-3189 }, {   9,-3214 }, {  10,-3214 }, {  11,-3189 }, {  12,-3189 },
 
@@ -3050,7 +3050,7 @@ static const struct yy_trans_info yy_transition[19957] =
  {  83,-3189 }, {  84,-3189 }, {  85,-3189 }, {  86,-3189 }, {  87,-3189 },
  {  88,-3189 }, {  89,-3189 }, {  90,-3189 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  95,-3189 }, {   0,   0 }, {  97,-3189 },
- {  98,-3189 }, {  99,-3189 }, { 100,3229 }, { 101,-3189 }, { 102,-3189 },
+ {  98,-3189 }, {  99,-3189 }, { 100,3289 }, { 101,-3189 }, { 102,-3189 },
  { 103,-3189 }, { 104,-3189 }, { 105,-3189 }, { 106,-3189 }, { 107,-3189 },
  { 108,-3189 }, { 109,-3189 }, { 110,-3189 }, { 111,-3189 }, { 112,-3189 },
 
@@ -3085,37 +3085,37 @@ static const struct yy_trans_info yy_transition[19957] =
  { 243,-3189 }, { 244,-3189 }, { 245,-3189 }, { 246,-3189 }, { 247,-3189 },
  { 248,-3189 }, { 249,-3189 }, { 250,-3189 }, { 251,-3189 }, { 252,-3189 },
  { 253,-3189 }, { 254,-3189 }, { 255,-3189 }, { 256,-3189 }, {   0,  30 },
- {   0,8407 }, {   0,  37 }, {   0,8405 }, {   0,   0 }, {   0,8403 },
+ {   0,8511 }, {   0,  37 }, {   0,8509 }, {   0,   0 }, {   0,8507 },
 
- {   0,   0 }, {   0,8401 }, {   0,   0 }, {   0,8399 }, {   9,3229 },
- {  10,3229 }, {   0,  13 }, {   0,8395 }, {  13,3229 }, {   0,   0 },
+ {   0,   0 }, {   0,8505 }, {   0,   0 }, {   0,8503 }, {   9,3289 },
+ {  10,3289 }, {   0,  13 }, {   0,8499 }, {  13,3289 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  32,3229 }, {  33,1813 }, {   0,   0 },
- {  35,1815 }, {   0,   0 }, {   0,   0 }, {  38,1817 }, {   0,   0 },
- {   0,   0 }, {  33,3248 }, {  42,1819 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  47,1823 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  32,3289 }, {  33, 917 }, {   0,   0 },
+ {  35, 919 }, {   0,   0 }, {   0,   0 }, {  38, 921 }, {   0,   0 },
+ {   0,   0 }, {  33,3285 }, {  42, 923 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  47, 925 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  62,1826 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  62, 927 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  94,3231 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  94,3291 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 101,3233 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 101,1022 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,3235 }, {   0,   0 },
- {   0,   0 }, { 126,3237 }, { 125,3247 }, {   0,   0 }, { 125,3248 },
- {   0,   0 }, { 125,3248 }, {   0,   0 }, {   0,   0 }, { 126,3250 },
- {   0,   0 }, {   0,8271 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,2225 }, {   0,   0 },
+ {   0,   0 }, { 126,3297 }, { 125,2226 }, {   0,   0 }, { 125,2251 },
+ {   0,   0 }, { 125,2285 }, {   0,   0 }, {   0,   0 }, { 126,3287 },
+ {   0,   0 }, {   0,8375 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
  {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
  {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
  {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
@@ -3171,7 +3171,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
  { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
  { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,8013 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,8117 },
  {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
  {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
 
@@ -3228,7 +3228,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
  { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
  { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
- { 256,-258 }, {   0,  10 }, {   0,7755 }, {   1,   0 }, {   2,   0 },
+ { 256,-258 }, {   0,  10 }, {   0,7859 }, {   1,   0 }, {   2,   0 },
 
  {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
  {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 },
@@ -3285,11 +3285,11 @@ static const struct yy_trans_info yy_transition[19957] =
  { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
  { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
 
- { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   0 }, {   0,7498 },
- {   0,   0 }, {   0,7496 }, {   0,   0 }, {   0,7494 }, {   0,   5 },
- {   0,7492 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   0 }, {   0,7602 },
+ {   0,   0 }, {   0,7600 }, {   0,   0 }, {   0,7598 }, {   0,   5 },
+ {   0,7596 }, {   0,  29 }, {   0,7594 }, {   0,  20 }, {   0,7592 },
+ {   0,  27 }, {   0,7590 }, {   0,  30 }, {   0,7588 }, {   0,  21 },
+ {   0,7586 }, {   0,  18 }, {   0,7584 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3297,80 +3297,80 @@ static const struct yy_trans_info yy_transition[19957] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  42,2430 }, {  45,2430 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  62,2432 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
- {   0,  48 }, {   0,7401 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,7489 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, { 123,2351 }, {   0,   0 }, { 123,2354 },
- {   0,   0 }, { 123,2354 }, {   0,   4 }, {   0,7369 }, {   1,2354 },
- {   2,2354 }, {   3,2354 }, {   4,2354 }, {   5,2354 }, {   6,2354 },
- {   7,2354 }, {   8,2354 }, {   9,2354 }, {  10,2239 }, {  11,2354 },
- {  12,2354 }, {  13,2239 }, {  14,2354 }, {  15,2354 }, {  16,2354 },
+ {   0,   0 }, {   0,   0 }, { 123,2400 }, {   0,   0 }, { 123,2401 },
+ {   0,   0 }, { 123,2401 }, {   0,   4 }, {   0,7473 }, {   1,2401 },
+ {   2,2401 }, {   3,2401 }, {   4,2401 }, {   5,2401 }, {   6,2401 },
+ {   7,2401 }, {   8,2401 }, {   9,2401 }, {  10,2289 }, {  11,2401 },
+ {  12,2401 }, {  13,2289 }, {  14,2401 }, {  15,2401 }, {  16,2401 },
 
- {  17,2354 }, {  18,2354 }, {  19,2354 }, {  20,2354 }, {  21,2354 },
- {  22,2354 }, {  23,2354 }, {  24,2354 }, {  25,2354 }, {  26,2354 },
- {  27,2354 }, {  28,2354 }, {  29,2354 }, {  30,2354 }, {  31,2354 },
- {  32,2354 }, {  33,2354 }, {  34,2354 }, {  35,2354 }, {  36,2354 },
- {  37,2354 }, {  38,2354 }, {  39,2354 }, {  40,2354 }, {  41,2354 },
- {  42,2354 }, {  43,2354 }, {  44,2354 }, {  45,2354 }, {  46,2354 },
- {  47,2354 }, {  48,2354 }, {  49,2354 }, {  50,2354 }, {  51,2354 },
- {  52,2354 }, {  53,2354 }, {  54,2354 }, {  55,2354 }, {  56,2354 },
- {  57,2354 }, {  58,2354 }, {  59,2354 }, {  60,2354 }, {  61,2354 },
- {  62,2354 }, {  63,2354 }, {  64,2354 }, {  65,2354 }, {  66,2354 },
+ {  17,2401 }, {  18,2401 }, {  19,2401 }, {  20,2401 }, {  21,2401 },
+ {  22,2401 }, {  23,2401 }, {  24,2401 }, {  25,2401 }, {  26,2401 },
+ {  27,2401 }, {  28,2401 }, {  29,2401 }, {  30,2401 }, {  31,2401 },
+ {  32,2401 }, {  33,2401 }, {  34,2401 }, {  35,2401 }, {  36,2401 },
+ {  37,2401 }, {  38,2401 }, {  39,2401 }, {  40,2401 }, {  41,2401 },
+ {  42,2401 }, {  43,2401 }, {  44,2401 }, {  45,2401 }, {  46,2401 },
+ {  47,2401 }, {  48,2401 }, {  49,2401 }, {  50,2401 }, {  51,2401 },
+ {  52,2401 }, {  53,2401 }, {  54,2401 }, {  55,2401 }, {  56,2401 },
+ {  57,2401 }, {  58,2401 }, {  59,2401 }, {  60,2401 }, {  61,2401 },
+ {  62,2401 }, {  63,2401 }, {  64,2401 }, {  65,2401 }, {  66,2401 },
 
- {  67,2354 }, {  68,2354 }, {  69,2354 }, {  70,2354 }, {  71,2354 },
- {  72,2354 }, {  73,2354 }, {  74,2354 }, {  75,2354 }, {  76,2354 },
- {  77,2354 }, {  78,2354 }, {  79,2354 }, {  80,2354 }, {  81,2354 },
- {  82,2354 }, {  83,2354 }, {  84,2354 }, {  85,2354 }, {  86,2354 },
- {  87,2354 }, {  88,2354 }, {  89,2354 }, {  90,2354 }, {  91,2354 },
- { 124,2277 }, {  93,2354 }, {  94,2354 }, {  95,2354 }, {  96,2354 },
- {  97,2354 }, {  98,2354 }, {  99,2354 }, { 100,2354 }, { 101,2354 },
- { 102,2354 }, { 103,2354 }, { 104,2354 }, { 105,2354 }, { 106,2354 },
- { 107,2354 }, { 108,2354 }, { 109,2354 }, { 110,2354 }, { 111,2354 },
- { 112,2354 }, { 113,2354 }, { 114,2354 }, { 115,2354 }, { 116,2354 },
+ {  67,2401 }, {  68,2401 }, {  69,2401 }, {  70,2401 }, {  71,2401 },
+ {  72,2401 }, {  73,2401 }, {  74,2401 }, {  75,2401 }, {  76,2401 },
+ {  77,2401 }, {  78,2401 }, {  79,2401 }, {  80,2401 }, {  81,2401 },
+ {  82,2401 }, {  83,2401 }, {  84,2401 }, {  85,2401 }, {  86,2401 },
+ {  87,2401 }, {  88,2401 }, {  89,2401 }, {  90,2401 }, {  91,2401 },
+ { 108,2968 }, {  93,2401 }, {  94,2401 }, {  95,2401 }, {  96,2401 },
+ {  97,2401 }, {  98,2401 }, {  99,2401 }, { 100,2401 }, { 101,2401 },
+ { 102,2401 }, { 103,2401 }, { 104,2401 }, { 105,2401 }, { 106,2401 },
+ { 107,2401 }, { 108,2401 }, { 109,2401 }, { 110,2401 }, { 111,2401 },
+ { 112,2401 }, { 113,2401 }, { 114,2401 }, { 115,2401 }, { 116,2401 },
 
- { 117,2354 }, { 118,2354 }, { 119,2354 }, { 120,2354 }, { 121,2354 },
- { 122,2354 }, { 123,2611 }, { 124,2354 }, { 125,2354 }, { 126,2354 },
- { 127,2354 }, { 128,2354 }, { 129,2354 }, { 130,2354 }, { 131,2354 },
- { 132,2354 }, { 133,2354 }, { 134,2354 }, { 135,2354 }, { 136,2354 },
- { 137,2354 }, { 138,2354 }, { 139,2354 }, { 140,2354 }, { 141,2354 },
- { 142,2354 }, { 143,2354 }, { 144,2354 }, { 145,2354 }, { 146,2354 },
- { 147,2354 }, { 148,2354 }, { 149,2354 }, { 150,2354 }, { 151,2354 },
- { 152,2354 }, { 153,2354 }, { 154,2354 }, { 155,2354 }, { 156,2354 },
- { 157,2354 }, { 158,2354 }, { 159,2354 }, { 160,2354 }, { 161,2354 },
- { 162,2354 }, { 163,2354 }, { 164,2354 }, { 165,2354 }, { 166,2354 },
+ { 117,2401 }, { 118,2401 }, { 119,2401 }, { 120,2401 }, { 121,2401 },
+ { 122,2401 }, { 123,2658 }, { 124,2401 }, { 125,2401 }, { 126,2401 },
+ { 127,2401 }, { 128,2401 }, { 129,2401 }, { 130,2401 }, { 131,2401 },
+ { 132,2401 }, { 133,2401 }, { 134,2401 }, { 135,2401 }, { 136,2401 },
+ { 137,2401 }, { 138,2401 }, { 139,2401 }, { 140,2401 }, { 141,2401 },
+ { 142,2401 }, { 143,2401 }, { 144,2401 }, { 145,2401 }, { 146,2401 },
+ { 147,2401 }, { 148,2401 }, { 149,2401 }, { 150,2401 }, { 151,2401 },
+ { 152,2401 }, { 153,2401 }, { 154,2401 }, { 155,2401 }, { 156,2401 },
+ { 157,2401 }, { 158,2401 }, { 159,2401 }, { 160,2401 }, { 161,2401 },
+ { 162,2401 }, { 163,2401 }, { 164,2401 }, { 165,2401 }, { 166,2401 },
 
- { 167,2354 }, { 168,2354 }, { 169,2354 }, { 170,2354 }, { 171,2354 },
- { 172,2354 }, { 173,2354 }, { 174,2354 }, { 175,2354 }, { 176,2354 },
- { 177,2354 }, { 178,2354 }, { 179,2354 }, { 180,2354 }, { 181,2354 },
- { 182,2354 }, { 183,2354 }, { 184,2354 }, { 185,2354 }, { 186,2354 },
- { 187,2354 }, { 188,2354 }, { 189,2354 }, { 190,2354 }, { 191,2354 },
- { 192,2354 }, { 193,2354 }, { 194,2354 }, { 195,2354 }, { 196,2354 },
- { 197,2354 }, { 198,2354 }, { 199,2354 }, { 200,2354 }, { 201,2354 },
- { 202,2354 }, { 203,2354 }, { 204,2354 }, { 205,2354 }, { 206,2354 },
- { 207,2354 }, { 208,2354 }, { 209,2354 }, { 210,2354 }, { 211,2354 },
- { 212,2354 }, { 213,2354 }, { 214,2354 }, { 215,2354 }, { 216,2354 },
+ { 167,2401 }, { 168,2401 }, { 169,2401 }, { 170,2401 }, { 171,2401 },
+ { 172,2401 }, { 173,2401 }, { 174,2401 }, { 175,2401 }, { 176,2401 },
+ { 177,2401 }, { 178,2401 }, { 179,2401 }, { 180,2401 }, { 181,2401 },
+ { 182,2401 }, { 183,2401 }, { 184,2401 }, { 185,2401 }, { 186,2401 },
+ { 187,2401 }, { 188,2401 }, { 189,2401 }, { 190,2401 }, { 191,2401 },
+ { 192,2401 }, { 193,2401 }, { 194,2401 }, { 195,2401 }, { 196,2401 },
+ { 197,2401 }, { 198,2401 }, { 199,2401 }, { 200,2401 }, { 201,2401 },
+ { 202,2401 }, { 203,2401 }, { 204,2401 }, { 205,2401 }, { 206,2401 },
+ { 207,2401 }, { 208,2401 }, { 209,2401 }, { 210,2401 }, { 211,2401 },
+ { 212,2401 }, { 213,2401 }, { 214,2401 }, { 215,2401 }, { 216,2401 },
 
- { 217,2354 }, { 218,2354 }, { 219,2354 }, { 220,2354 }, { 221,2354 },
- { 222,2354 }, { 223,2354 }, { 224,2354 }, { 225,2354 }, { 226,2354 },
- { 227,2354 }, { 228,2354 }, { 229,2354 }, { 230,2354 }, { 231,2354 },
- { 232,2354 }, { 233,2354 }, { 234,2354 }, { 235,2354 }, { 236,2354 },
- { 237,2354 }, { 238,2354 }, { 239,2354 }, { 240,2354 }, { 241,2354 },
- { 242,2354 }, { 243,2354 }, { 244,2354 }, { 245,2354 }, { 246,2354 },
- { 247,2354 }, { 248,2354 }, { 249,2354 }, { 250,2354 }, { 251,2354 },
- { 252,2354 }, { 253,2354 }, { 254,2354 }, { 255,2354 }, {   0,  38 },
- {   0,7112 }, {   1,-4450 }, {   2,-4450 }, {   3,-4450 }, {   4,-4450 },
+ { 217,2401 }, { 218,2401 }, { 219,2401 }, { 220,2401 }, { 221,2401 },
+ { 222,2401 }, { 223,2401 }, { 224,2401 }, { 225,2401 }, { 226,2401 },
+ { 227,2401 }, { 228,2401 }, { 229,2401 }, { 230,2401 }, { 231,2401 },
+ { 232,2401 }, { 233,2401 }, { 234,2401 }, { 235,2401 }, { 236,2401 },
+ { 237,2401 }, { 238,2401 }, { 239,2401 }, { 240,2401 }, { 241,2401 },
+ { 242,2401 }, { 243,2401 }, { 244,2401 }, { 245,2401 }, { 246,2401 },
+ { 247,2401 }, { 248,2401 }, { 249,2401 }, { 250,2401 }, { 251,2401 },
+ { 252,2401 }, { 253,2401 }, { 254,2401 }, { 255,2401 }, {   0,  38 },
+ {   0,7216 }, {   1,-4450 }, {   2,-4450 }, {   3,-4450 }, {   4,-4450 },
  {   5,-4450 }, {   6,-4450 }, {   7,-4450 }, {   8,-4450 }, {   9,-4450 },
 
  {  10,-4450 }, {  11,-4450 }, {  12,-4450 }, {  13,-4450 }, {  14,-4450 },
@@ -3426,7 +3426,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 240,-4450 }, { 241,-4450 }, { 242,-4450 }, { 243,-4450 }, { 244,-4450 },
  { 245,-4450 }, { 246,-4450 }, { 247,-4450 }, { 248,-4450 }, { 249,-4450 },
  { 250,-4450 }, { 251,-4450 }, { 252,-4450 }, { 253,-4450 }, { 254,-4450 },
- { 255,-4450 }, { 256,-4450 }, {   0,  39 }, {   0,6854 }, {   1,-4192 },
+ { 255,-4450 }, { 256,-4450 }, {   0,  39 }, {   0,6958 }, {   1,-4192 },
 
  {   2,-4192 }, {   3,-4192 }, {   4,-4192 }, {   5,-4192 }, {   6,-4192 },
  {   7,-4192 }, {   8,-4192 }, {   9,-4192 }, {  10,-4192 }, {  11,-4192 },
@@ -3484,21 +3484,21 @@ static const struct yy_trans_info yy_transition[19957] =
  { 247,-4192 }, { 248,-4192 }, { 249,-4192 }, { 250,-4192 }, { 251,-4192 },
 
  { 252,-4192 }, { 253,-4192 }, { 254,-4192 }, { 255,-4192 }, { 256,-4192 },
- {   0,   0 }, {   0,6596 }, {   0,  29 }, {   0,6594 }, {   0,  20 },
- {   0,6592 }, {   0,  27 }, {   0,6590 }, {   0,  30 }, {   0,6588 },
- {   9,1470 }, {  10,1470 }, {   0,  21 }, {   0,6584 }, {  13,1470 },
- {   0,  18 }, {   0,6581 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,6700 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   9,1523 }, {  10,1523 }, {   0,   0 }, {   0,   0 }, {  13,1523 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,1470 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,1470 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,1523 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,1523 }, {   0,   0 }, {   0,   0 },
 
- {   0,   0 }, {   0,   0 }, {  42,1478 }, {  45,1476 }, {  48,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  48,   0 },
  {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
  {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  62,1480 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3511,7 +3511,7 @@ static const struct yy_trans_info yy_transition[19957] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 125,1470 }, { 126,1470 }, {   0,  49 }, {   0,6468 },
+ {   0,   0 }, { 125,1523 }, { 126,1523 }, {   0,  49 }, {   0,6572 },
  {   1,-3745 }, {   2,-3745 }, {   3,-3745 }, {   4,-3745 }, {   5,-3745 },
  {   6,-3745 }, {   7,-3745 }, {   8,-3745 }, {   9,-3745 }, {  10,-3745 },
  {  11,-3745 }, {  12,-3745 }, {  13,-3745 }, {  14,-3745 }, {  15,-3745 },
@@ -3568,994 +3568,1016 @@ static const struct yy_trans_info yy_transition[19957] =
  { 241,-3745 }, { 242,-3745 }, { 243,-3745 }, { 244,-3745 }, { 245,-3745 },
  { 246,-3745 }, { 247,-3745 }, { 248,-3745 }, { 249,-3745 }, { 250,-3745 },
  { 251,-3745 }, { 252,-3745 }, { 253,-3745 }, { 254,-3745 }, { 255,-3745 },
- { 256,-3745 }, {   0,   0 }, {   0,6210 }, {   1,-5644 }, {   2,-5644 },
- {   3,-5644 }, {   4,-5644 }, {   5,-5644 }, {   6,-5644 }, {   7,-5644 },
-
- {   8,-5644 }, {   9,-5669 }, {  10,-5669 }, {  11,-5644 }, {  12,-5644 },
- {  13,-5669 }, {  14,-5644 }, {  15,-5644 }, {  16,-5644 }, {  17,-5644 },
- {  18,-5644 }, {  19,-5644 }, {  20,-5644 }, {  21,-5644 }, {  22,-5644 },
- {  23,-5644 }, {  24,-5644 }, {  25,-5644 }, {  26,-5644 }, {  27,-5644 },
- {  28,-5644 }, {  29,-5644 }, {  30,-5644 }, {  31,-5644 }, {  32,-5669 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-5644 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-5669 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-5644 }, {  46,-5669 }, {  47,-5669 },
- {  48,-5644 }, {  49,-5644 }, {  50,-5644 }, {  51,-5644 }, {  52,-5644 },
- {  53,-5644 }, {  54,-5644 }, {  55,-5644 }, {  56,-5644 }, {  57,-5644 },
-
- {  58,-5644 }, {   0,   0 }, {   0,   0 }, {  61,-5669 }, {   0,   0 },
- {  63,-5644 }, {   0,   0 }, {  65,-5644 }, {  66,-5644 }, {  67,-5644 },
- {  68,-5644 }, {  69,-5644 }, {  70,-5644 }, {  71,-5644 }, {  72,-5644 },
- {  73,-5644 }, {  74,-5644 }, {  75,-5644 }, {  76,-5644 }, {  77,-5644 },
- {  78,-5644 }, {  79,-5644 }, {  80,-5644 }, {  81,-5644 }, {  82,-5644 },
- {  83,-5644 }, {  84,-5644 }, {  85,-5644 }, {  86,-5644 }, {  87,-5644 },
- {  88,-5644 }, {  89,-5644 }, {  90,-5644 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-5644 }, {   0,   0 }, {  97,-5644 },
- {  98,-5644 }, {  99,-5644 }, { 100,-5644 }, { 101,-5644 }, { 102,-5644 },
- { 103,-5644 }, { 104,-5644 }, { 105,-5644 }, { 106,-5644 }, { 107,-5644 },
-
- { 108,-5644 }, { 109,-5644 }, { 110,-5644 }, { 111,-5644 }, { 112,-5644 },
- { 113,-5644 }, { 114,-5644 }, { 115,1709 }, { 116,-5644 }, { 117,-5644 },
- { 118,-5644 }, { 119,-5644 }, { 120,-5644 }, { 121,-5644 }, { 122,-5644 },
- {   0,   0 }, { 124,-5669 }, { 125,-5669 }, { 126,-5669 }, { 127,-5644 },
- { 128,-5644 }, { 129,-5644 }, { 130,-5644 }, { 131,-5644 }, { 132,-5644 },
- { 133,-5644 }, { 134,-5644 }, { 135,-5644 }, { 136,-5644 }, { 137,-5644 },
- { 138,-5644 }, { 139,-5644 }, { 140,-5644 }, { 141,-5644 }, { 142,-5644 },
- { 143,-5644 }, { 144,-5644 }, { 145,-5644 }, { 146,-5644 }, { 147,-5644 },
- { 148,-5644 }, { 149,-5644 }, { 150,-5644 }, { 151,-5644 }, { 152,-5644 },
- { 153,-5644 }, { 154,-5644 }, { 155,-5644 }, { 156,-5644 }, { 157,-5644 },
-
- { 158,-5644 }, { 159,-5644 }, { 160,-5644 }, { 161,-5644 }, { 162,-5644 },
- { 163,-5644 }, { 164,-5644 }, { 165,-5644 }, { 166,-5644 }, { 167,-5644 },
- { 168,-5644 }, { 169,-5644 }, { 170,-5644 }, { 171,-5644 }, { 172,-5644 },
- { 173,-5644 }, { 174,-5644 }, { 175,-5644 }, { 176,-5644 }, { 177,-5644 },
- { 178,-5644 }, { 179,-5644 }, { 180,-5644 }, { 181,-5644 }, { 182,-5644 },
- { 183,-5644 }, { 184,-5644 }, { 185,-5644 }, { 186,-5644 }, { 187,-5644 },
- { 188,-5644 }, { 189,-5644 }, { 190,-5644 }, { 191,-5644 }, { 192,-5644 },
- { 193,-5644 }, { 194,-5644 }, { 195,-5644 }, { 196,-5644 }, { 197,-5644 },
- { 198,-5644 }, { 199,-5644 }, { 200,-5644 }, { 201,-5644 }, { 202,-5644 },
- { 203,-5644 }, { 204,-5644 }, { 205,-5644 }, { 206,-5644 }, { 207,-5644 },
-
- { 208,-5644 }, { 209,-5644 }, { 210,-5644 }, { 211,-5644 }, { 212,-5644 },
- { 213,-5644 }, { 214,-5644 }, { 215,-5644 }, { 216,-5644 }, { 217,-5644 },
- { 218,-5644 }, { 219,-5644 }, { 220,-5644 }, { 221,-5644 }, { 222,-5644 },
- { 223,-5644 }, { 224,-5644 }, { 225,-5644 }, { 226,-5644 }, { 227,-5644 },
- { 228,-5644 }, { 229,-5644 }, { 230,-5644 }, { 231,-5644 }, { 232,-5644 },
- { 233,-5644 }, { 234,-5644 }, { 235,-5644 }, { 236,-5644 }, { 237,-5644 },
- { 238,-5644 }, { 239,-5644 }, { 240,-5644 }, { 241,-5644 }, { 242,-5644 },
- { 243,-5644 }, { 244,-5644 }, { 245,-5644 }, { 246,-5644 }, { 247,-5644 },
- { 248,-5644 }, { 249,-5644 }, { 250,-5644 }, { 251,-5644 }, { 252,-5644 },
- { 253,-5644 }, { 254,-5644 }, { 255,-5644 }, { 256,-5644 }, {   0,   0 },
-
- {   0,5952 }, {   1,-5902 }, {   2,-5902 }, {   3,-5902 }, {   4,-5902 },
- {   5,-5902 }, {   6,-5902 }, {   7,-5902 }, {   8,-5902 }, {   9,-5927 },
- {  10,-5927 }, {  11,-5902 }, {  12,-5902 }, {  13,-5927 }, {  14,-5902 },
- {  15,-5902 }, {  16,-5902 }, {  17,-5902 }, {  18,-5902 }, {  19,-5902 },
- {  20,-5902 }, {  21,-5902 }, {  22,-5902 }, {  23,-5902 }, {  24,-5902 },
- {  25,-5902 }, {  26,-5902 }, {  27,-5902 }, {  28,-5902 }, {  29,-5902 },
- {  30,-5902 }, {  31,-5902 }, {  32,-5927 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-5902 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,-5927 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,-5902 }, {  46,-5927 }, {  47,-5927 }, {  48,-5902 }, {  49,-5902 },
-
- {  50,-5902 }, {  51,-5902 }, {  52,-5902 }, {  53,-5902 }, {  54,-5902 },
- {  55,-5902 }, {  56,-5902 }, {  57,-5902 }, {  58,-5902 }, {   0,   0 },
- {   0,   0 }, {  61,-5927 }, {   0,   0 }, {  63,-5902 }, {   0,   0 },
- {  65,-5902 }, {  66,-5902 }, {  67,-5902 }, {  68,-5902 }, {  69,-5902 },
- {  70,-5902 }, {  71,-5902 }, {  72,-5902 }, {  73,-5902 }, {  74,-5902 },
- {  75,-5902 }, {  76,-5902 }, {  77,-5902 }, {  78,-5902 }, {  79,-5902 },
- {  80,-5902 }, {  81,-5902 }, {  82,-5902 }, {  83,-5902 }, {  84,-5902 },
- {  85,-5902 }, {  86,-5902 }, {  87,-5902 }, {  88,-5902 }, {  89,-5902 },
- {  90,-5902 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,-5902 }, {   0,   0 }, {  97,-5902 }, {  98,-5902 }, {  99,-5902 },
-
- { 100,-5902 }, { 101,-5902 }, { 102,-5902 }, { 103,-5902 }, { 104,-5902 },
- { 105,-5902 }, { 106,-5902 }, { 107,-5902 }, { 108,1709 }, { 109,-5902 },
- { 110,-5902 }, { 111,-5902 }, { 112,-5902 }, { 113,-5902 }, { 114,-5902 },
- { 115,-5902 }, { 116,-5902 }, { 117,-5902 }, { 118,-5902 }, { 119,-5902 },
- { 120,-5902 }, { 121,-5902 }, { 122,-5902 }, {   0,   0 }, { 124,-5927 },
- { 125,-5927 }, { 126,-5927 }, { 127,-5902 }, { 128,-5902 }, { 129,-5902 },
- { 130,-5902 }, { 131,-5902 }, { 132,-5902 }, { 133,-5902 }, { 134,-5902 },
- { 135,-5902 }, { 136,-5902 }, { 137,-5902 }, { 138,-5902 }, { 139,-5902 },
- { 140,-5902 }, { 141,-5902 }, { 142,-5902 }, { 143,-5902 }, { 144,-5902 },
- { 145,-5902 }, { 146,-5902 }, { 147,-5902 }, { 148,-5902 }, { 149,-5902 },
-
- { 150,-5902 }, { 151,-5902 }, { 152,-5902 }, { 153,-5902 }, { 154,-5902 },
- { 155,-5902 }, { 156,-5902 }, { 157,-5902 }, { 158,-5902 }, { 159,-5902 },
- { 160,-5902 }, { 161,-5902 }, { 162,-5902 }, { 163,-5902 }, { 164,-5902 },
- { 165,-5902 }, { 166,-5902 }, { 167,-5902 }, { 168,-5902 }, { 169,-5902 },
- { 170,-5902 }, { 171,-5902 }, { 172,-5902 }, { 173,-5902 }, { 174,-5902 },
- { 175,-5902 }, { 176,-5902 }, { 177,-5902 }, { 178,-5902 }, { 179,-5902 },
- { 180,-5902 }, { 181,-5902 }, { 182,-5902 }, { 183,-5902 }, { 184,-5902 },
- { 185,-5902 }, { 186,-5902 }, { 187,-5902 }, { 188,-5902 }, { 189,-5902 },
- { 190,-5902 }, { 191,-5902 }, { 192,-5902 }, { 193,-5902 }, { 194,-5902 },
- { 195,-5902 }, { 196,-5902 }, { 197,-5902 }, { 198,-5902 }, { 199,-5902 },
-
- { 200,-5902 }, { 201,-5902 }, { 202,-5902 }, { 203,-5902 }, { 204,-5902 },
- { 205,-5902 }, { 206,-5902 }, { 207,-5902 }, { 208,-5902 }, { 209,-5902 },
- { 210,-5902 }, { 211,-5902 }, { 212,-5902 }, { 213,-5902 }, { 214,-5902 },
- { 215,-5902 }, { 216,-5902 }, { 217,-5902 }, { 218,-5902 }, { 219,-5902 },
- { 220,-5902 }, { 221,-5902 }, { 222,-5902 }, { 223,-5902 }, { 224,-5902 },
- { 225,-5902 }, { 226,-5902 }, { 227,-5902 }, { 228,-5902 }, { 229,-5902 },
- { 230,-5902 }, { 231,-5902 }, { 232,-5902 }, { 233,-5902 }, { 234,-5902 },
- { 235,-5902 }, { 236,-5902 }, { 237,-5902 }, { 238,-5902 }, { 239,-5902 },
- { 240,-5902 }, { 241,-5902 }, { 242,-5902 }, { 243,-5902 }, { 244,-5902 },
- { 245,-5902 }, { 246,-5902 }, { 247,-5902 }, { 248,-5902 }, { 249,-5902 },
-
- { 250,-5902 }, { 251,-5902 }, { 252,-5902 }, { 253,-5902 }, { 254,-5902 },
- { 255,-5902 }, { 256,-5902 }, {   0,   0 }, {   0,5694 }, {   1,-6160 },
- {   2,-6160 }, {   3,-6160 }, {   4,-6160 }, {   5,-6160 }, {   6,-6160 },
- {   7,-6160 }, {   8,-6160 }, {   9,-6185 }, {  10,-6185 }, {  11,-6160 },
- {  12,-6160 }, {  13,-6185 }, {  14,-6160 }, {  15,-6160 }, {  16,-6160 },
- {  17,-6160 }, {  18,-6160 }, {  19,-6160 }, {  20,-6160 }, {  21,-6160 },
- {  22,-6160 }, {  23,-6160 }, {  24,-6160 }, {  25,-6160 }, {  26,-6160 },
- {  27,-6160 }, {  28,-6160 }, {  29,-6160 }, {  30,-6160 }, {  31,-6160 },
- {  32,-6185 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-6160 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-6185 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-6160 }, {  46,-6185 },
- {  47,-6185 }, {  48,-6160 }, {  49,-6160 }, {  50,-6160 }, {  51,-6160 },
- {  52,-6160 }, {  53,-6160 }, {  54,-6160 }, {  55,-6160 }, {  56,-6160 },
- {  57,-6160 }, {  58,-6160 }, {   0,   0 }, {   0,   0 }, {  61,-6185 },
- {   0,   0 }, {  63,-6160 }, {   0,   0 }, {  65,-6160 }, {  66,-6160 },
- {  67,-6160 }, {  68,-6160 }, {  69,-6160 }, {  70,-6160 }, {  71,-6160 },
- {  72,-6160 }, {  73,-6160 }, {  74,-6160 }, {  75,-6160 }, {  76,-6160 },
- {  77,-6160 }, {  78,-6160 }, {  79,-6160 }, {  80,-6160 }, {  81,-6160 },
- {  82,-6160 }, {  83,-6160 }, {  84,-6160 }, {  85,-6160 }, {  86,-6160 },
- {  87,-6160 }, {  88,-6160 }, {  89,-6160 }, {  90,-6160 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-6160 }, {   0,   0 },
- {  97,-6160 }, {  98,-6160 }, {  99,-6160 }, { 100,-6160 }, { 101,1709 },
- { 102,-6160 }, { 103,-6160 }, { 104,-6160 }, { 105,-6160 }, { 106,-6160 },
- { 107,-6160 }, { 108,-6160 }, { 109,-6160 }, { 110,-6160 }, { 111,-6160 },
- { 112,-6160 }, { 113,-6160 }, { 114,-6160 }, { 115,-6160 }, { 116,-6160 },
- { 117,-6160 }, { 118,-6160 }, { 119,-6160 }, { 120,-6160 }, { 121,-6160 },
- { 122,-6160 }, {   0,   0 }, { 124,-6185 }, { 125,-6185 }, { 126,-6185 },
- { 127,-6160 }, { 128,-6160 }, { 129,-6160 }, { 130,-6160 }, { 131,-6160 },
- { 132,-6160 }, { 133,-6160 }, { 134,-6160 }, { 135,-6160 }, { 136,-6160 },
- { 137,-6160 }, { 138,-6160 }, { 139,-6160 }, { 140,-6160 }, { 141,-6160 },
-
- { 142,-6160 }, { 143,-6160 }, { 144,-6160 }, { 145,-6160 }, { 146,-6160 },
- { 147,-6160 }, { 148,-6160 }, { 149,-6160 }, { 150,-6160 }, { 151,-6160 },
- { 152,-6160 }, { 153,-6160 }, { 154,-6160 }, { 155,-6160 }, { 156,-6160 },
- { 157,-6160 }, { 158,-6160 }, { 159,-6160 }, { 160,-6160 }, { 161,-6160 },
- { 162,-6160 }, { 163,-6160 }, { 164,-6160 }, { 165,-6160 }, { 166,-6160 },
- { 167,-6160 }, { 168,-6160 }, { 169,-6160 }, { 170,-6160 }, { 171,-6160 },
- { 172,-6160 }, { 173,-6160 }, { 174,-6160 }, { 175,-6160 }, { 176,-6160 },
- { 177,-6160 }, { 178,-6160 }, { 179,-6160 }, { 180,-6160 }, { 181,-6160 },
- { 182,-6160 }, { 183,-6160 }, { 184,-6160 }, { 185,-6160 }, { 186,-6160 },
- { 187,-6160 }, { 188,-6160 }, { 189,-6160 }, { 190,-6160 }, { 191,-6160 },
-
- { 192,-6160 }, { 193,-6160 }, { 194,-6160 }, { 195,-6160 }, { 196,-6160 },
- { 197,-6160 }, { 198,-6160 }, { 199,-6160 }, { 200,-6160 }, { 201,-6160 },
- { 202,-6160 }, { 203,-6160 }, { 204,-6160 }, { 205,-6160 }, { 206,-6160 },
- { 207,-6160 }, { 208,-6160 }, { 209,-6160 }, { 210,-6160 }, { 211,-6160 },
- { 212,-6160 }, { 213,-6160 }, { 214,-6160 }, { 215,-6160 }, { 216,-6160 },
- { 217,-6160 }, { 218,-6160 }, { 219,-6160 }, { 220,-6160 }, { 221,-6160 },
- { 222,-6160 }, { 223,-6160 }, { 224,-6160 }, { 225,-6160 }, { 226,-6160 },
- { 227,-6160 }, { 228,-6160 }, { 229,-6160 }, { 230,-6160 }, { 231,-6160 },
- { 232,-6160 }, { 233,-6160 }, { 234,-6160 }, { 235,-6160 }, { 236,-6160 },
- { 237,-6160 }, { 238,-6160 }, { 239,-6160 }, { 240,-6160 }, { 241,-6160 },
-
- { 242,-6160 }, { 243,-6160 }, { 244,-6160 }, { 245,-6160 }, { 246,-6160 },
- { 247,-6160 }, { 248,-6160 }, { 249,-6160 }, { 250,-6160 }, { 251,-6160 },
- { 252,-6160 }, { 253,-6160 }, { 254,-6160 }, { 255,-6160 }, { 256,-6160 },
- {   0,   0 }, {   0,5436 }, {   1,-6418 }, {   2,-6418 }, {   3,-6418 },
- {   4,-6418 }, {   5,-6418 }, {   6,-6418 }, {   7,-6418 }, {   8,-6418 },
- {   9,-6443 }, {  10,-6443 }, {  11,-6418 }, {  12,-6418 }, {  13,-6443 },
- {  14,-6418 }, {  15,-6418 }, {  16,-6418 }, {  17,-6418 }, {  18,-6418 },
- {  19,-6418 }, {  20,-6418 }, {  21,-6418 }, {  22,-6418 }, {  23,-6418 },
- {  24,-6418 }, {  25,-6418 }, {  26,-6418 }, {  27,-6418 }, {  28,-6418 },
- {  29,-6418 }, {  30,-6418 }, {  31,-6418 }, {  32,-6443 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {  36,-6418 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,-6443 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-6418 }, {  46,-6443 }, {  47,-6443 }, {  48,-6418 },
- {  49,-6418 }, {  50,-6418 }, {  51,-6418 }, {  52,-6418 }, {  53,-6418 },
- {  54,-6418 }, {  55,-6418 }, {  56,-6418 }, {  57,-6418 }, {  58,-6418 },
- {   0,   0 }, {   0,   0 }, {  61,-6443 }, {   0,   0 }, {  63,-6418 },
- {   0,   0 }, {  65,-6418 }, {  66,-6418 }, {  67,-6418 }, {  68,-6418 },
- {  69,-6418 }, {  70,-6418 }, {  71,-6418 }, {  72,-6418 }, {  73,-6418 },
- {  74,-6418 }, {  75,-6418 }, {  76,-6418 }, {  77,-6418 }, {  78,-6418 },
- {  79,-6418 }, {  80,-6418 }, {  81,-6418 }, {  82,-6418 }, {  83,-6418 },
-
- {  84,-6418 }, {  85,-6418 }, {  86,-6418 }, {  87,-6418 }, {  88,-6418 },
- {  89,-6418 }, {  90,-6418 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-6418 }, {   0,   0 }, {  97,-6418 }, {  98,-6418 },
- {  99,-6418 }, { 100,-6418 }, { 101,1709 }, { 102,-6418 }, { 103,-6418 },
- { 104,-6418 }, { 105,-6418 }, { 106,-6418 }, { 107,-6418 }, { 108,-6418 },
- { 109,-6418 }, { 110,-6418 }, { 111,-6418 }, { 112,-6418 }, { 113,-6418 },
- { 114,-6418 }, { 115,-6418 }, { 116,-6418 }, { 117,-6418 }, { 118,-6418 },
- { 119,-6418 }, { 120,-6418 }, { 121,-6418 }, { 122,-6418 }, {   0,   0 },
- { 124,-6443 }, { 125,-6443 }, { 126,-6443 }, { 127,-6418 }, { 128,-6418 },
- { 129,-6418 }, { 130,-6418 }, { 131,-6418 }, { 132,-6418 }, { 133,-6418 },
-
- { 134,-6418 }, { 135,-6418 }, { 136,-6418 }, { 137,-6418 }, { 138,-6418 },
- { 139,-6418 }, { 140,-6418 }, { 141,-6418 }, { 142,-6418 }, { 143,-6418 },
- { 144,-6418 }, { 145,-6418 }, { 146,-6418 }, { 147,-6418 }, { 148,-6418 },
- { 149,-6418 }, { 150,-6418 }, { 151,-6418 }, { 152,-6418 }, { 153,-6418 },
- { 154,-6418 }, { 155,-6418 }, { 156,-6418 }, { 157,-6418 }, { 158,-6418 },
- { 159,-6418 }, { 160,-6418 }, { 161,-6418 }, { 162,-6418 }, { 163,-6418 },
- { 164,-6418 }, { 165,-6418 }, { 166,-6418 }, { 167,-6418 }, { 168,-6418 },
- { 169,-6418 }, { 170,-6418 }, { 171,-6418 }, { 172,-6418 }, { 173,-6418 },
- { 174,-6418 }, { 175,-6418 }, { 176,-6418 }, { 177,-6418 }, { 178,-6418 },
- { 179,-6418 }, { 180,-6418 }, { 181,-6418 }, { 182,-6418 }, { 183,-6418 },
-
- { 184,-6418 }, { 185,-6418 }, { 186,-6418 }, { 187,-6418 }, { 188,-6418 },
- { 189,-6418 }, { 190,-6418 }, { 191,-6418 }, { 192,-6418 }, { 193,-6418 },
- { 194,-6418 }, { 195,-6418 }, { 196,-6418 }, { 197,-6418 }, { 198,-6418 },
- { 199,-6418 }, { 200,-6418 }, { 201,-6418 }, { 202,-6418 }, { 203,-6418 },
- { 204,-6418 }, { 205,-6418 }, { 206,-6418 }, { 207,-6418 }, { 208,-6418 },
- { 209,-6418 }, { 210,-6418 }, { 211,-6418 }, { 212,-6418 }, { 213,-6418 },
- { 214,-6418 }, { 215,-6418 }, { 216,-6418 }, { 217,-6418 }, { 218,-6418 },
- { 219,-6418 }, { 220,-6418 }, { 221,-6418 }, { 222,-6418 }, { 223,-6418 },
- { 224,-6418 }, { 225,-6418 }, { 226,-6418 }, { 227,-6418 }, { 228,-6418 },
- { 229,-6418 }, { 230,-6418 }, { 231,-6418 }, { 232,-6418 }, { 233,-6418 },
-
- { 234,-6418 }, { 235,-6418 }, { 236,-6418 }, { 237,-6418 }, { 238,-6418 },
- { 239,-6418 }, { 240,-6418 }, { 241,-6418 }, { 242,-6418 }, { 243,-6418 },
- { 244,-6418 }, { 245,-6418 }, { 246,-6418 }, { 247,-6418 }, { 248,-6418 },
- { 249,-6418 }, { 250,-6418 }, { 251,-6418 }, { 252,-6418 }, { 253,-6418 },
- { 254,-6418 }, { 255,-6418 }, { 256,-6418 }, {   0,   0 }, {   0,5178 },
- {   0,  24 }, {   0,5176 }, {   0,   0 }, {   0,5174 }, {   0,  26 },
- {   0,5172 }, {   0,  30 }, {   0,5170 }, {   9,   0 }, {  10,   0 },
- {   9,1707 }, {  10,1707 }, {  13,   0 }, {   0,   0 }, {  13,1707 },
- {   0,   0 }, {   9,  -8 }, {  10,  -8 }, {   0,  36 }, {   0,5158 },
- {  13,  -8 }, {   0,   0 }, {   0,5155 }, {   0,  37 }, {   0,5153 },
-
- {   0,   0 }, {   0,5151 }, {   0,   0 }, {   0,5149 }, {   0,   0 },
- {   0,5147 }, {  32,   0 }, {   0,   0 }, {  32,1707 }, {   0,   0 },
- {   0,5142 }, {   0,   1 }, {   0,5140 }, {   0,   0 }, {  32,  -8 },
- {  33,-1424 }, {   0,   0 }, {  35,-1422 }, {   0,   0 }, {   0,   0 },
- {  38,-1420 }, {   0,   4 }, {   0,5130 }, {   0,   0 }, {  42,-1418 },
- {   0,  47 }, {   0,5126 }, {   0,  41 }, {   0,5124 }, {  47,-1414 },
- {   0,   0 }, {   0,   0 }, {  10,   0 }, {   0,   0 }, {   0,5118 },
- {  13,   0 }, {  33,  -2 }, {   0,  20 }, {   0,5114 }, {   0,  19 },
- {   0,5112 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  62,-1411 },
- {   0,   0 }, {  45,1701 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 101,   4 }, {  94,  -6 }, {   0,   0 }, {   0,   0 }, {  45,2046 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 101,  -4 }, {   0,   0 },
- {   0,   0 }, { 108,1711 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, { 125,1709 }, { 126,1711 }, { 123,1711 }, {   0,   0 },
- { 123,1713 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,1704 },
- {   0,   0 }, {   0,   0 }, { 125,1703 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,1809 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,2062 }, {   0,   0 },
- { 123,2062 }, {   0,   4 }, {   0,5015 }, {   1,   0 }, {   2,   0 },
- {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
- {   8,   0 }, {   9,   0 }, {  10,-115 }, {  11,   0 }, {  12,   0 },
+ { 256,-3745 }, {   0,  48 }, {   0,6314 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   9,1756 }, {  10,1756 }, {   0,   0 }, {   0,   0 },
+ {  13,1756 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,  26 },
+ {   0,6286 }, {   0,   0 }, {   0,  36 }, {   0,6283 }, {  32,1756 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,6256 }, {   0,   0 }, {   0,6254 }, {   1,-5704 }, {   2,-5704 },
+ {   3,-5704 }, {   4,-5704 }, {   5,-5704 }, {   6,-5704 }, {   7,-5704 },
+ {   8,-5704 }, {   9,-5729 }, {  10,-5729 }, {  11,-5704 }, {  12,-5704 },
+ {  13,-5729 }, {  14,-5704 }, {  15,-5704 }, {  16,-5704 }, {  17,-5704 },
+ {  18,-5704 }, {  19,-5704 }, {  20,-5704 }, {  21,-5704 }, {  22,-5704 },
+ {  23,-5704 }, {  24,-5704 }, {  25,-5704 }, {  26,-5704 }, {  27,-5704 },
+ {  28,-5704 }, {  29,-5704 }, {  30,-5704 }, {  31,-5704 }, {  32,-5729 },
+ {   0,  37 }, {   0,6220 }, {   0,   0 }, {  36,-5704 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-5729 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,-5704 }, {  46,-5729 }, {  47,-5729 },
+
+ {  48,-5704 }, {  49,-5704 }, {  50,-5704 }, {  51,-5704 }, {  52,-5704 },
+ {  53,-5704 }, {  54,-5704 }, {  55,-5704 }, {  56,-5704 }, {  57,-5704 },
+ {  58,-5704 }, {   0,   0 }, {   0,   0 }, {  61,-5729 }, {   0,   0 },
+ {  63,-5704 }, { 124,1145 }, {  65,-5704 }, {  66,-5704 }, {  67,-5704 },
+ {  68,-5704 }, {  69,-5704 }, {  70,-5704 }, {  71,-5704 }, {  72,-5704 },
+ {  73,-5704 }, {  74,-5704 }, {  75,-5704 }, {  76,-5704 }, {  77,-5704 },
+ {  78,-5704 }, {  79,-5704 }, {  80,-5704 }, {  81,-5704 }, {  82,-5704 },
+ {  83,-5704 }, {  84,-5704 }, {  85,-5704 }, {  86,-5704 }, {  87,-5704 },
+ {  88,-5704 }, {  89,-5704 }, {  90,-5704 }, { 123,1767 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  95,-5704 }, { 125,1768 }, {  97,-5704 },
+
+ {  98,-5704 }, {  99,-5704 }, { 100,-5704 }, { 101,-5704 }, { 102,-5704 },
+ { 103,-5704 }, { 104,-5704 }, { 105,-5704 }, { 106,-5704 }, { 107,-5704 },
+ { 108,-5704 }, { 109,-5704 }, { 110,-5704 }, { 111,-5704 }, { 112,-5704 },
+ { 113,-5704 }, { 114,-5704 }, { 115,1756 }, { 116,-5704 }, { 117,-5704 },
+ { 118,-5704 }, { 119,-5704 }, { 120,-5704 }, { 121,-5704 }, { 122,-5704 },
+ { 125,1743 }, { 124,-5729 }, { 125,-5729 }, { 126,-5729 }, { 127,-5704 },
+ { 128,-5704 }, { 129,-5704 }, { 130,-5704 }, { 131,-5704 }, { 132,-5704 },
+ { 133,-5704 }, { 134,-5704 }, { 135,-5704 }, { 136,-5704 }, { 137,-5704 },
+ { 138,-5704 }, { 139,-5704 }, { 140,-5704 }, { 141,-5704 }, { 142,-5704 },
+ { 143,-5704 }, { 144,-5704 }, { 145,-5704 }, { 146,-5704 }, { 147,-5704 },
+
+ { 148,-5704 }, { 149,-5704 }, { 150,-5704 }, { 151,-5704 }, { 152,-5704 },
+ { 153,-5704 }, { 154,-5704 }, { 155,-5704 }, { 156,-5704 }, { 157,-5704 },
+ { 158,-5704 }, { 159,-5704 }, { 160,-5704 }, { 161,-5704 }, { 162,-5704 },
+ { 163,-5704 }, { 164,-5704 }, { 165,-5704 }, { 166,-5704 }, { 167,-5704 },
+ { 168,-5704 }, { 169,-5704 }, { 170,-5704 }, { 171,-5704 }, { 172,-5704 },
+ { 173,-5704 }, { 174,-5704 }, { 175,-5704 }, { 176,-5704 }, { 177,-5704 },
+ { 178,-5704 }, { 179,-5704 }, { 180,-5704 }, { 181,-5704 }, { 182,-5704 },
+ { 183,-5704 }, { 184,-5704 }, { 185,-5704 }, { 186,-5704 }, { 187,-5704 },
+ { 188,-5704 }, { 189,-5704 }, { 190,-5704 }, { 191,-5704 }, { 192,-5704 },
+ { 193,-5704 }, { 194,-5704 }, { 195,-5704 }, { 196,-5704 }, { 197,-5704 },
+
+ { 198,-5704 }, { 199,-5704 }, { 200,-5704 }, { 201,-5704 }, { 202,-5704 },
+ { 203,-5704 }, { 204,-5704 }, { 205,-5704 }, { 206,-5704 }, { 207,-5704 },
+ { 208,-5704 }, { 209,-5704 }, { 210,-5704 }, { 211,-5704 }, { 212,-5704 },
+ { 213,-5704 }, { 214,-5704 }, { 215,-5704 }, { 216,-5704 }, { 217,-5704 },
+ { 218,-5704 }, { 219,-5704 }, { 220,-5704 }, { 221,-5704 }, { 222,-5704 },
+ { 223,-5704 }, { 224,-5704 }, { 225,-5704 }, { 226,-5704 }, { 227,-5704 },
+ { 228,-5704 }, { 229,-5704 }, { 230,-5704 }, { 231,-5704 }, { 232,-5704 },
+ { 233,-5704 }, { 234,-5704 }, { 235,-5704 }, { 236,-5704 }, { 237,-5704 },
+ { 238,-5704 }, { 239,-5704 }, { 240,-5704 }, { 241,-5704 }, { 242,-5704 },
+ { 243,-5704 }, { 244,-5704 }, { 245,-5704 }, { 246,-5704 }, { 247,-5704 },
+
+ { 248,-5704 }, { 249,-5704 }, { 250,-5704 }, { 251,-5704 }, { 252,-5704 },
+ { 253,-5704 }, { 254,-5704 }, { 255,-5704 }, { 256,-5704 }, {   0,   0 },
+ {   0,5996 }, {   1,-5962 }, {   2,-5962 }, {   3,-5962 }, {   4,-5962 },
+ {   5,-5962 }, {   6,-5962 }, {   7,-5962 }, {   8,-5962 }, {   9,-5987 },
+ {  10,-5987 }, {  11,-5962 }, {  12,-5962 }, {  13,-5987 }, {  14,-5962 },
+ {  15,-5962 }, {  16,-5962 }, {  17,-5962 }, {  18,-5962 }, {  19,-5962 },
+ {  20,-5962 }, {  21,-5962 }, {  22,-5962 }, {  23,-5962 }, {  24,-5962 },
+ {  25,-5962 }, {  26,-5962 }, {  27,-5962 }, {  28,-5962 }, {  29,-5962 },
+ {  30,-5962 }, {  31,-5962 }, {  32,-5987 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  36,-5962 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {  41,-5987 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,-5962 }, {  46,-5987 }, {  47,-5987 }, {  48,-5962 }, {  49,-5962 },
+ {  50,-5962 }, {  51,-5962 }, {  52,-5962 }, {  53,-5962 }, {  54,-5962 },
+ {  55,-5962 }, {  56,-5962 }, {  57,-5962 }, {  58,-5962 }, {   0,   0 },
+ {   0,   0 }, {  61,-5987 }, {   0,   0 }, {  63,-5962 }, {   0,   0 },
+ {  65,-5962 }, {  66,-5962 }, {  67,-5962 }, {  68,-5962 }, {  69,-5962 },
+ {  70,-5962 }, {  71,-5962 }, {  72,-5962 }, {  73,-5962 }, {  74,-5962 },
+ {  75,-5962 }, {  76,-5962 }, {  77,-5962 }, {  78,-5962 }, {  79,-5962 },
+ {  80,-5962 }, {  81,-5962 }, {  82,-5962 }, {  83,-5962 }, {  84,-5962 },
+ {  85,-5962 }, {  86,-5962 }, {  87,-5962 }, {  88,-5962 }, {  89,-5962 },
+
+ {  90,-5962 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  95,-5962 }, {   0,   0 }, {  97,-5962 }, {  98,-5962 }, {  99,-5962 },
+ { 100,-5962 }, { 101,-5962 }, { 102,-5962 }, { 103,-5962 }, { 104,-5962 },
+ { 105,-5962 }, { 106,-5962 }, { 107,-5962 }, { 108,1756 }, { 109,-5962 },
+ { 110,-5962 }, { 111,-5962 }, { 112,-5962 }, { 113,-5962 }, { 114,-5962 },
+ { 115,-5962 }, { 116,-5962 }, { 117,-5962 }, { 118,-5962 }, { 119,-5962 },
+ { 120,-5962 }, { 121,-5962 }, { 122,-5962 }, {   0,   0 }, { 124,-5987 },
+ { 125,-5987 }, { 126,-5987 }, { 127,-5962 }, { 128,-5962 }, { 129,-5962 },
+ { 130,-5962 }, { 131,-5962 }, { 132,-5962 }, { 133,-5962 }, { 134,-5962 },
+ { 135,-5962 }, { 136,-5962 }, { 137,-5962 }, { 138,-5962 }, { 139,-5962 },
+
+ { 140,-5962 }, { 141,-5962 }, { 142,-5962 }, { 143,-5962 }, { 144,-5962 },
+ { 145,-5962 }, { 146,-5962 }, { 147,-5962 }, { 148,-5962 }, { 149,-5962 },
+ { 150,-5962 }, { 151,-5962 }, { 152,-5962 }, { 153,-5962 }, { 154,-5962 },
+ { 155,-5962 }, { 156,-5962 }, { 157,-5962 }, { 158,-5962 }, { 159,-5962 },
+ { 160,-5962 }, { 161,-5962 }, { 162,-5962 }, { 163,-5962 }, { 164,-5962 },
+ { 165,-5962 }, { 166,-5962 }, { 167,-5962 }, { 168,-5962 }, { 169,-5962 },
+ { 170,-5962 }, { 171,-5962 }, { 172,-5962 }, { 173,-5962 }, { 174,-5962 },
+ { 175,-5962 }, { 176,-5962 }, { 177,-5962 }, { 178,-5962 }, { 179,-5962 },
+ { 180,-5962 }, { 181,-5962 }, { 182,-5962 }, { 183,-5962 }, { 184,-5962 },
+ { 185,-5962 }, { 186,-5962 }, { 187,-5962 }, { 188,-5962 }, { 189,-5962 },
+
+ { 190,-5962 }, { 191,-5962 }, { 192,-5962 }, { 193,-5962 }, { 194,-5962 },
+ { 195,-5962 }, { 196,-5962 }, { 197,-5962 }, { 198,-5962 }, { 199,-5962 },
+ { 200,-5962 }, { 201,-5962 }, { 202,-5962 }, { 203,-5962 }, { 204,-5962 },
+ { 205,-5962 }, { 206,-5962 }, { 207,-5962 }, { 208,-5962 }, { 209,-5962 },
+ { 210,-5962 }, { 211,-5962 }, { 212,-5962 }, { 213,-5962 }, { 214,-5962 },
+ { 215,-5962 }, { 216,-5962 }, { 217,-5962 }, { 218,-5962 }, { 219,-5962 },
+ { 220,-5962 }, { 221,-5962 }, { 222,-5962 }, { 223,-5962 }, { 224,-5962 },
+ { 225,-5962 }, { 226,-5962 }, { 227,-5962 }, { 228,-5962 }, { 229,-5962 },
+ { 230,-5962 }, { 231,-5962 }, { 232,-5962 }, { 233,-5962 }, { 234,-5962 },
+ { 235,-5962 }, { 236,-5962 }, { 237,-5962 }, { 238,-5962 }, { 239,-5962 },
+
+ { 240,-5962 }, { 241,-5962 }, { 242,-5962 }, { 243,-5962 }, { 244,-5962 },
+ { 245,-5962 }, { 246,-5962 }, { 247,-5962 }, { 248,-5962 }, { 249,-5962 },
+ { 250,-5962 }, { 251,-5962 }, { 252,-5962 }, { 253,-5962 }, { 254,-5962 },
+ { 255,-5962 }, { 256,-5962 }, {   0,   0 }, {   0,5738 }, {   1,-6220 },
+ {   2,-6220 }, {   3,-6220 }, {   4,-6220 }, {   5,-6220 }, {   6,-6220 },
+ {   7,-6220 }, {   8,-6220 }, {   9,-6245 }, {  10,-6245 }, {  11,-6220 },
+ {  12,-6220 }, {  13,-6245 }, {  14,-6220 }, {  15,-6220 }, {  16,-6220 },
+ {  17,-6220 }, {  18,-6220 }, {  19,-6220 }, {  20,-6220 }, {  21,-6220 },
+ {  22,-6220 }, {  23,-6220 }, {  24,-6220 }, {  25,-6220 }, {  26,-6220 },
+ {  27,-6220 }, {  28,-6220 }, {  29,-6220 }, {  30,-6220 }, {  31,-6220 },
+
+ {  32,-6245 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-6220 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-6245 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-6220 }, {  46,-6245 },
+ {  47,-6245 }, {  48,-6220 }, {  49,-6220 }, {  50,-6220 }, {  51,-6220 },
+ {  52,-6220 }, {  53,-6220 }, {  54,-6220 }, {  55,-6220 }, {  56,-6220 },
+ {  57,-6220 }, {  58,-6220 }, {   0,   0 }, {   0,   0 }, {  61,-6245 },
+ {   0,   0 }, {  63,-6220 }, {   0,   0 }, {  65,-6220 }, {  66,-6220 },
+ {  67,-6220 }, {  68,-6220 }, {  69,-6220 }, {  70,-6220 }, {  71,-6220 },
+ {  72,-6220 }, {  73,-6220 }, {  74,-6220 }, {  75,-6220 }, {  76,-6220 },
+ {  77,-6220 }, {  78,-6220 }, {  79,-6220 }, {  80,-6220 }, {  81,-6220 },
+
+ {  82,-6220 }, {  83,-6220 }, {  84,-6220 }, {  85,-6220 }, {  86,-6220 },
+ {  87,-6220 }, {  88,-6220 }, {  89,-6220 }, {  90,-6220 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-6220 }, {   0,   0 },
+ {  97,-6220 }, {  98,-6220 }, {  99,-6220 }, { 100,-6220 }, { 101,1756 },
+ { 102,-6220 }, { 103,-6220 }, { 104,-6220 }, { 105,-6220 }, { 106,-6220 },
+ { 107,-6220 }, { 108,-6220 }, { 109,-6220 }, { 110,-6220 }, { 111,-6220 },
+ { 112,-6220 }, { 113,-6220 }, { 114,-6220 }, { 115,-6220 }, { 116,-6220 },
+ { 117,-6220 }, { 118,-6220 }, { 119,-6220 }, { 120,-6220 }, { 121,-6220 },
+ { 122,-6220 }, {   0,   0 }, { 124,-6245 }, { 125,-6245 }, { 126,-6245 },
+ { 127,-6220 }, { 128,-6220 }, { 129,-6220 }, { 130,-6220 }, { 131,-6220 },
+
+ { 132,-6220 }, { 133,-6220 }, { 134,-6220 }, { 135,-6220 }, { 136,-6220 },
+ { 137,-6220 }, { 138,-6220 }, { 139,-6220 }, { 140,-6220 }, { 141,-6220 },
+ { 142,-6220 }, { 143,-6220 }, { 144,-6220 }, { 145,-6220 }, { 146,-6220 },
+ { 147,-6220 }, { 148,-6220 }, { 149,-6220 }, { 150,-6220 }, { 151,-6220 },
+ { 152,-6220 }, { 153,-6220 }, { 154,-6220 }, { 155,-6220 }, { 156,-6220 },
+ { 157,-6220 }, { 158,-6220 }, { 159,-6220 }, { 160,-6220 }, { 161,-6220 },
+ { 162,-6220 }, { 163,-6220 }, { 164,-6220 }, { 165,-6220 }, { 166,-6220 },
+ { 167,-6220 }, { 168,-6220 }, { 169,-6220 }, { 170,-6220 }, { 171,-6220 },
+ { 172,-6220 }, { 173,-6220 }, { 174,-6220 }, { 175,-6220 }, { 176,-6220 },
+ { 177,-6220 }, { 178,-6220 }, { 179,-6220 }, { 180,-6220 }, { 181,-6220 },
+
+ { 182,-6220 }, { 183,-6220 }, { 184,-6220 }, { 185,-6220 }, { 186,-6220 },
+ { 187,-6220 }, { 188,-6220 }, { 189,-6220 }, { 190,-6220 }, { 191,-6220 },
+ { 192,-6220 }, { 193,-6220 }, { 194,-6220 }, { 195,-6220 }, { 196,-6220 },
+ { 197,-6220 }, { 198,-6220 }, { 199,-6220 }, { 200,-6220 }, { 201,-6220 },
+ { 202,-6220 }, { 203,-6220 }, { 204,-6220 }, { 205,-6220 }, { 206,-6220 },
+ { 207,-6220 }, { 208,-6220 }, { 209,-6220 }, { 210,-6220 }, { 211,-6220 },
+ { 212,-6220 }, { 213,-6220 }, { 214,-6220 }, { 215,-6220 }, { 216,-6220 },
+ { 217,-6220 }, { 218,-6220 }, { 219,-6220 }, { 220,-6220 }, { 221,-6220 },
+ { 222,-6220 }, { 223,-6220 }, { 224,-6220 }, { 225,-6220 }, { 226,-6220 },
+ { 227,-6220 }, { 228,-6220 }, { 229,-6220 }, { 230,-6220 }, { 231,-6220 },
+
+ { 232,-6220 }, { 233,-6220 }, { 234,-6220 }, { 235,-6220 }, { 236,-6220 },
+ { 237,-6220 }, { 238,-6220 }, { 239,-6220 }, { 240,-6220 }, { 241,-6220 },
+ { 242,-6220 }, { 243,-6220 }, { 244,-6220 }, { 245,-6220 }, { 246,-6220 },
+ { 247,-6220 }, { 248,-6220 }, { 249,-6220 }, { 250,-6220 }, { 251,-6220 },
+ { 252,-6220 }, { 253,-6220 }, { 254,-6220 }, { 255,-6220 }, { 256,-6220 },
+ {   0,   0 }, {   0,5480 }, {   1,-6478 }, {   2,-6478 }, {   3,-6478 },
+ {   4,-6478 }, {   5,-6478 }, {   6,-6478 }, {   7,-6478 }, {   8,-6478 },
+ {   9,-6503 }, {  10,-6503 }, {  11,-6478 }, {  12,-6478 }, {  13,-6503 },
+ {  14,-6478 }, {  15,-6478 }, {  16,-6478 }, {  17,-6478 }, {  18,-6478 },
+ {  19,-6478 }, {  20,-6478 }, {  21,-6478 }, {  22,-6478 }, {  23,-6478 },
+
+ {  24,-6478 }, {  25,-6478 }, {  26,-6478 }, {  27,-6478 }, {  28,-6478 },
+ {  29,-6478 }, {  30,-6478 }, {  31,-6478 }, {  32,-6503 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,-6478 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,-6503 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,-6478 }, {  46,-6503 }, {  47,-6503 }, {  48,-6478 },
+ {  49,-6478 }, {  50,-6478 }, {  51,-6478 }, {  52,-6478 }, {  53,-6478 },
+ {  54,-6478 }, {  55,-6478 }, {  56,-6478 }, {  57,-6478 }, {  58,-6478 },
+ {   0,   0 }, {   0,   0 }, {  61,-6503 }, {   0,   0 }, {  63,-6478 },
+ {   0,   0 }, {  65,-6478 }, {  66,-6478 }, {  67,-6478 }, {  68,-6478 },
+ {  69,-6478 }, {  70,-6478 }, {  71,-6478 }, {  72,-6478 }, {  73,-6478 },
+
+ {  74,-6478 }, {  75,-6478 }, {  76,-6478 }, {  77,-6478 }, {  78,-6478 },
+ {  79,-6478 }, {  80,-6478 }, {  81,-6478 }, {  82,-6478 }, {  83,-6478 },
+ {  84,-6478 }, {  85,-6478 }, {  86,-6478 }, {  87,-6478 }, {  88,-6478 },
+ {  89,-6478 }, {  90,-6478 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,-6478 }, {   0,   0 }, {  97,-6478 }, {  98,-6478 },
+ {  99,-6478 }, { 100,-6478 }, { 101,1756 }, { 102,-6478 }, { 103,-6478 },
+ { 104,-6478 }, { 105,-6478 }, { 106,-6478 }, { 107,-6478 }, { 108,-6478 },
+ { 109,-6478 }, { 110,-6478 }, { 111,-6478 }, { 112,-6478 }, { 113,-6478 },
+ { 114,-6478 }, { 115,-6478 }, { 116,-6478 }, { 117,-6478 }, { 118,-6478 },
+ { 119,-6478 }, { 120,-6478 }, { 121,-6478 }, { 122,-6478 }, {   0,   0 },
+
+ { 124,-6503 }, { 125,-6503 }, { 126,-6503 }, { 127,-6478 }, { 128,-6478 },
+ { 129,-6478 }, { 130,-6478 }, { 131,-6478 }, { 132,-6478 }, { 133,-6478 },
+ { 134,-6478 }, { 135,-6478 }, { 136,-6478 }, { 137,-6478 }, { 138,-6478 },
+ { 139,-6478 }, { 140,-6478 }, { 141,-6478 }, { 142,-6478 }, { 143,-6478 },
+ { 144,-6478 }, { 145,-6478 }, { 146,-6478 }, { 147,-6478 }, { 148,-6478 },
+ { 149,-6478 }, { 150,-6478 }, { 151,-6478 }, { 152,-6478 }, { 153,-6478 },
+ { 154,-6478 }, { 155,-6478 }, { 156,-6478 }, { 157,-6478 }, { 158,-6478 },
+ { 159,-6478 }, { 160,-6478 }, { 161,-6478 }, { 162,-6478 }, { 163,-6478 },
+ { 164,-6478 }, { 165,-6478 }, { 166,-6478 }, { 167,-6478 }, { 168,-6478 },
+ { 169,-6478 }, { 170,-6478 }, { 171,-6478 }, { 172,-6478 }, { 173,-6478 },
+
+ { 174,-6478 }, { 175,-6478 }, { 176,-6478 }, { 177,-6478 }, { 178,-6478 },
+ { 179,-6478 }, { 180,-6478 }, { 181,-6478 }, { 182,-6478 }, { 183,-6478 },
+ { 184,-6478 }, { 185,-6478 }, { 186,-6478 }, { 187,-6478 }, { 188,-6478 },
+ { 189,-6478 }, { 190,-6478 }, { 191,-6478 }, { 192,-6478 }, { 193,-6478 },
+ { 194,-6478 }, { 195,-6478 }, { 196,-6478 }, { 197,-6478 }, { 198,-6478 },
+ { 199,-6478 }, { 200,-6478 }, { 201,-6478 }, { 202,-6478 }, { 203,-6478 },
+ { 204,-6478 }, { 205,-6478 }, { 206,-6478 }, { 207,-6478 }, { 208,-6478 },
+ { 209,-6478 }, { 210,-6478 }, { 211,-6478 }, { 212,-6478 }, { 213,-6478 },
+ { 214,-6478 }, { 215,-6478 }, { 216,-6478 }, { 217,-6478 }, { 218,-6478 },
+ { 219,-6478 }, { 220,-6478 }, { 221,-6478 }, { 222,-6478 }, { 223,-6478 },
+
+ { 224,-6478 }, { 225,-6478 }, { 226,-6478 }, { 227,-6478 }, { 228,-6478 },
+ { 229,-6478 }, { 230,-6478 }, { 231,-6478 }, { 232,-6478 }, { 233,-6478 },
+ { 234,-6478 }, { 235,-6478 }, { 236,-6478 }, { 237,-6478 }, { 238,-6478 },
+ { 239,-6478 }, { 240,-6478 }, { 241,-6478 }, { 242,-6478 }, { 243,-6478 },
+ { 244,-6478 }, { 245,-6478 }, { 246,-6478 }, { 247,-6478 }, { 248,-6478 },
+ { 249,-6478 }, { 250,-6478 }, { 251,-6478 }, { 252,-6478 }, { 253,-6478 },
+ { 254,-6478 }, { 255,-6478 }, { 256,-6478 }, {   0,   0 }, {   0,5222 },
+ {   0,  24 }, {   0,5220 }, {   0,   0 }, {   0,5218 }, {   0,   0 },
+ {   0,5216 }, {   0,  30 }, {   0,5214 }, {   9,   0 }, {  10,   0 },
+ {   9,1754 }, {  10,1754 }, {  13,   0 }, {   0,   0 }, {  13,1754 },
+
+ {   0,   0 }, {   9,  -8 }, {  10,  -8 }, {   0,   0 }, {   0,5202 },
+ {  13,  -8 }, {   0,   0 }, {   0,5199 }, {   0,   1 }, {   0,5197 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  32,   0 }, {   0,   0 }, {  32,1754 }, {   0,   0 },
+ {   0,   0 }, {   0,   4 }, {   0,5184 }, {  33,  -2 }, {  32,  -8 },
+ {  33,-2380 }, {   0,   0 }, {  35,-2378 }, {   0,  47 }, {   0,5177 },
+ {  38,-2376 }, {   0,   0 }, {  10,   0 }, {  45, 708 }, {  42,-2374 },
+ {  13,   0 }, {   0,  41 }, {   0,5169 }, {   0,   0 }, {  47,-2372 },
+ {   0,   0 }, {   0,   0 }, {   0,5164 }, {   0,  20 }, {   0,5162 },
+ {   0,  19 }, {   0,5160 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  62,-2370 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 101,-2267 }, {  94,  -6 }, {  45,2092 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, { 101,-2275 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,5105 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 125, 115 }, { 126, 688 }, {   0,   0 }, {   0,   0 },
+ { 123, 697 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, { 123,1864 }, {   0,   0 }, {   0,   0 },
+ { 123,2119 }, {   0,   0 }, { 123,2119 }, {   0,   4 }, {   0,5072 },
+ {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 },
+ {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,-112 },
+ {  11,   0 }, {  12,   0 }, {  13,-112 }, {  14,   0 }, {  15,   0 },
 
- {  13,-115 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
- {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 },
- {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 },
- {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 },
- {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 },
- {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 },
- {  43,   0 }, {  44,   0 }, {  45,   0 }, {  46,   0 }, {  47,   0 },
- {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
- {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
- {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 },
+ {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 },
+ {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 },
+ {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 },
+ {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34,   0 }, {  35,   0 },
+ {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 }, {  40,   0 },
+ {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 }, {  45,   0 },
+ {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 },
+ {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 },
+ {  56,   0 }, {  57,   0 }, {  58,   0 }, {  59,   0 }, {  60,   0 },
+ {  61,   0 }, {  62,   0 }, {  63,   0 }, {  64,   0 }, {  65,   0 },
 
- {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 },
- {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 },
- {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 },
- {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 },
- {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 },
- {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 }, {   0,   0 },
- {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 },
- {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 },
- { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 },
- { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 },
+ {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 },
+ {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 },
+ {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 },
+ {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 },
+ {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 },
+ {  91,   0 }, { 125,2035 }, {  93,   0 }, {  94,   0 }, {  95,   0 },
+ {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 },
+ { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 },
+ { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 },
+ { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 },
 
- { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 },
- { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 },
- {   0,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 },
- { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 },
- { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 },
- { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 },
- { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 },
- { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 },
- { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 },
- { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 },
+ { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 },
+ { 121,   0 }, { 122,   0 }, {   0,   0 }, { 124,   0 }, { 125,   0 },
+ { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 },
+ { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 },
+ { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 },
+ { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 },
+ { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 },
+ { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 },
+ { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 },
+ { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 },
 
- { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 },
- { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 },
- { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 },
- { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 },
- { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 },
- { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 },
- { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 },
- { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 },
- { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 },
- { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 },
+ { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 },
+ { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 },
+ { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 },
+ { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 },
+ { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 },
+ { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 },
+ { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 },
+ { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 },
+ { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 },
+ { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 },
 
- { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 },
- { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 },
- { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 },
- { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 },
- { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 },
- { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 },
- { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
- { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
- { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   4 }, {   0,4758 },
- {   1,-257 }, {   2,-257 }, {   3,-257 }, {   4,-257 }, {   5,-257 },
-
- {   6,-257 }, {   7,-257 }, {   8,-257 }, {   9,-257 }, {  10,-372 },
- {  11,-257 }, {  12,-257 }, {  13,-372 }, {  14,-257 }, {  15,-257 },
- {  16,-257 }, {  17,-257 }, {  18,-257 }, {  19,-257 }, {  20,-257 },
- {  21,-257 }, {  22,-257 }, {  23,-257 }, {  24,-257 }, {  25,-257 },
- {  26,-257 }, {  27,-257 }, {  28,-257 }, {  29,-257 }, {  30,-257 },
- {  31,-257 }, {  32,-257 }, {  33,-257 }, {  34,-257 }, {  35,-257 },
- {  36,-257 }, {  37,-257 }, {  38,-257 }, {  39,-257 }, {  40,-257 },
- {  41,-257 }, {  42,-257 }, {  43,-257 }, {  44,-257 }, {  45,-257 },
- {  46,-257 }, {  47,-257 }, {  48,-257 }, {  49,-257 }, {  50,-257 },
- {  51,-257 }, {  52,-257 }, {  53,-257 }, {  54,-257 }, {  55,-257 },
-
- {  56,-257 }, {  57,-257 }, {  58,-257 }, {  59,-257 }, {  60,-257 },
- {  61,-257 }, {  62,-257 }, {  63,-257 }, {  64,-257 }, {  65,-257 },
- {  66,-257 }, {  67,-257 }, {  68,-257 }, {  69,-257 }, {  70,-257 },
- {  71,-257 }, {  72,-257 }, {  73,-257 }, {  74,-257 }, {  75,-257 },
- {  76,-257 }, {  77,-257 }, {  78,-257 }, {  79,-257 }, {  80,-257 },
- {  81,-257 }, {  82,-257 }, {  83,-257 }, {  84,-257 }, {  85,-257 },
- {  86,-257 }, {  87,-257 }, {  88,-257 }, {  89,-257 }, {  90,-257 },
- {  91,-257 }, {   0,   0 }, {  93,-257 }, {  94,-257 }, {  95,-257 },
- {  96,-257 }, {  97,-257 }, {  98,-257 }, {  99,-257 }, { 100,-257 },
- { 101,-257 }, { 102,-257 }, { 103,-257 }, { 104,-257 }, { 105,-257 },
-
- { 106,-257 }, { 107,-257 }, { 108,-257 }, { 109,-257 }, { 110,-257 },
- { 111,-257 }, { 112,-257 }, { 113,-257 }, { 114,-257 }, { 115,-257 },
- { 116,-257 }, { 117,-257 }, { 118,-257 }, { 119,-257 }, { 120,-257 },
- { 121,-257 }, { 122,-257 }, {   0,   0 }, { 124,-257 }, { 125,-257 },
- { 126,-257 }, { 127,-257 }, { 128,-257 }, { 129,-257 }, { 130,-257 },
- { 131,-257 }, { 132,-257 }, { 133,-257 }, { 134,-257 }, { 135,-257 },
- { 136,-257 }, { 137,-257 }, { 138,-257 }, { 139,-257 }, { 140,-257 },
- { 141,-257 }, { 142,-257 }, { 143,-257 }, { 144,-257 }, { 145,-257 },
- { 146,-257 }, { 147,-257 }, { 148,-257 }, { 149,-257 }, { 150,-257 },
- { 151,-257 }, { 152,-257 }, { 153,-257 }, { 154,-257 }, { 155,-257 },
-
- { 156,-257 }, { 157,-257 }, { 158,-257 }, { 159,-257 }, { 160,-257 },
- { 161,-257 }, { 162,-257 }, { 163,-257 }, { 164,-257 }, { 165,-257 },
- { 166,-257 }, { 167,-257 }, { 168,-257 }, { 169,-257 }, { 170,-257 },
- { 171,-257 }, { 172,-257 }, { 173,-257 }, { 174,-257 }, { 175,-257 },
- { 176,-257 }, { 177,-257 }, { 178,-257 }, { 179,-257 }, { 180,-257 },
- { 181,-257 }, { 182,-257 }, { 183,-257 }, { 184,-257 }, { 185,-257 },
- { 186,-257 }, { 187,-257 }, { 188,-257 }, { 189,-257 }, { 190,-257 },
- { 191,-257 }, { 192,-257 }, { 193,-257 }, { 194,-257 }, { 195,-257 },
- { 196,-257 }, { 197,-257 }, { 198,-257 }, { 199,-257 }, { 200,-257 },
- { 201,-257 }, { 202,-257 }, { 203,-257 }, { 204,-257 }, { 205,-257 },
-
- { 206,-257 }, { 207,-257 }, { 208,-257 }, { 209,-257 }, { 210,-257 },
- { 211,-257 }, { 212,-257 }, { 213,-257 }, { 214,-257 }, { 215,-257 },
- { 216,-257 }, { 217,-257 }, { 218,-257 }, { 219,-257 }, { 220,-257 },
- { 221,-257 }, { 222,-257 }, { 223,-257 }, { 224,-257 }, { 225,-257 },
- { 226,-257 }, { 227,-257 }, { 228,-257 }, { 229,-257 }, { 230,-257 },
- { 231,-257 }, { 232,-257 }, { 233,-257 }, { 234,-257 }, { 235,-257 },
- { 236,-257 }, { 237,-257 }, { 238,-257 }, { 239,-257 }, { 240,-257 },
- { 241,-257 }, { 242,-257 }, { 243,-257 }, { 244,-257 }, { 245,-257 },
- { 246,-257 }, { 247,-257 }, { 248,-257 }, { 249,-257 }, { 250,-257 },
- { 251,-257 }, { 252,-257 }, { 253,-257 }, { 254,-257 }, { 255,-257 },
-
- {   0,   0 }, {   0,4501 }, {   1,-7353 }, {   2,-7353 }, {   3,-7353 },
- {   4,-7353 }, {   5,-7353 }, {   6,-7353 }, {   7,-7353 }, {   8,-7353 },
- {   9,-7378 }, {  10,-7378 }, {  11,-7353 }, {  12,-7353 }, {  13,-7378 },
- {  14,-7353 }, {  15,-7353 }, {  16,-7353 }, {  17,-7353 }, {  18,-7353 },
- {  19,-7353 }, {  20,-7353 }, {  21,-7353 }, {  22,-7353 }, {  23,-7353 },
- {  24,-7353 }, {  25,-7353 }, {  26,-7353 }, {  27,-7353 }, {  28,-7353 },
- {  29,-7353 }, {  30,-7353 }, {  31,-7353 }, {  32,-7378 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,-7353 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,-7378 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-7353 }, {  46,-7378 }, {  47,-7378 }, {  48,-7353 },
-
- {  49,-7353 }, {  50,-7353 }, {  51,-7353 }, {  52,-7353 }, {  53,-7353 },
- {  54,-7353 }, {  55,-7353 }, {  56,-7353 }, {  57,-7353 }, {  58,-7353 },
- {   0,   0 }, {   0,   0 }, {  61,-7378 }, {   0,   0 }, {  63,-7353 },
- {   0,   0 }, {  65,-7353 }, {  66,-7353 }, {  67,-7353 }, {  68,-7353 },
- {  69,-7353 }, {  70,-7353 }, {  71,-7353 }, {  72,-7353 }, {  73,-7353 },
- {  74,-7353 }, {  75,-7353 }, {  76,-7353 }, {  77,-7353 }, {  78,-7353 },
- {  79,-7353 }, {  80,-7353 }, {  81,-7353 }, {  82,-7353 }, {  83,-7353 },
- {  84,-7353 }, {  85,-7353 }, {  86,-7353 }, {  87,-7353 }, {  88,-7353 },
- {  89,-7353 }, {  90,-7353 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-7353 }, {   0,   0 }, {  97,-7353 }, {  98,-7353 },
-
- {  99,-7353 }, { 100,-7353 }, { 101,1448 }, { 102,-7353 }, { 103,-7353 },
- { 104,-7353 }, { 105,-7353 }, { 106,-7353 }, { 107,-7353 }, { 108,-7353 },
- { 109,-7353 }, { 110,-7353 }, { 111,-7353 }, { 112,-7353 }, { 113,-7353 },
- { 114,-7353 }, { 115,-7353 }, { 116,-7353 }, { 117,-7353 }, { 118,-7353 },
- { 119,-7353 }, { 120,-7353 }, { 121,-7353 }, { 122,-7353 }, {   0,   0 },
- { 124,-7378 }, { 125,-7378 }, { 126,-7378 }, { 127,-7353 }, { 128,-7353 },
- { 129,-7353 }, { 130,-7353 }, { 131,-7353 }, { 132,-7353 }, { 133,-7353 },
- { 134,-7353 }, { 135,-7353 }, { 136,-7353 }, { 137,-7353 }, { 138,-7353 },
- { 139,-7353 }, { 140,-7353 }, { 141,-7353 }, { 142,-7353 }, { 143,-7353 },
- { 144,-7353 }, { 145,-7353 }, { 146,-7353 }, { 147,-7353 }, { 148,-7353 },
-
- { 149,-7353 }, { 150,-7353 }, { 151,-7353 }, { 152,-7353 }, { 153,-7353 },
- { 154,-7353 }, { 155,-7353 }, { 156,-7353 }, { 157,-7353 }, { 158,-7353 },
- { 159,-7353 }, { 160,-7353 }, { 161,-7353 }, { 162,-7353 }, { 163,-7353 },
- { 164,-7353 }, { 165,-7353 }, { 166,-7353 }, { 167,-7353 }, { 168,-7353 },
- { 169,-7353 }, { 170,-7353 }, { 171,-7353 }, { 172,-7353 }, { 173,-7353 },
- { 174,-7353 }, { 175,-7353 }, { 176,-7353 }, { 177,-7353 }, { 178,-7353 },
- { 179,-7353 }, { 180,-7353 }, { 181,-7353 }, { 182,-7353 }, { 183,-7353 },
- { 184,-7353 }, { 185,-7353 }, { 186,-7353 }, { 187,-7353 }, { 188,-7353 },
- { 189,-7353 }, { 190,-7353 }, { 191,-7353 }, { 192,-7353 }, { 193,-7353 },
- { 194,-7353 }, { 195,-7353 }, { 196,-7353 }, { 197,-7353 }, { 198,-7353 },
-
- { 199,-7353 }, { 200,-7353 }, { 201,-7353 }, { 202,-7353 }, { 203,-7353 },
- { 204,-7353 }, { 205,-7353 }, { 206,-7353 }, { 207,-7353 }, { 208,-7353 },
- { 209,-7353 }, { 210,-7353 }, { 211,-7353 }, { 212,-7353 }, { 213,-7353 },
- { 214,-7353 }, { 215,-7353 }, { 216,-7353 }, { 217,-7353 }, { 218,-7353 },
- { 219,-7353 }, { 220,-7353 }, { 221,-7353 }, { 222,-7353 }, { 223,-7353 },
- { 224,-7353 }, { 225,-7353 }, { 226,-7353 }, { 227,-7353 }, { 228,-7353 },
- { 229,-7353 }, { 230,-7353 }, { 231,-7353 }, { 232,-7353 }, { 233,-7353 },
- { 234,-7353 }, { 235,-7353 }, { 236,-7353 }, { 237,-7353 }, { 238,-7353 },
- { 239,-7353 }, { 240,-7353 }, { 241,-7353 }, { 242,-7353 }, { 243,-7353 },
- { 244,-7353 }, { 245,-7353 }, { 246,-7353 }, { 247,-7353 }, { 248,-7353 },
-
- { 249,-7353 }, { 250,-7353 }, { 251,-7353 }, { 252,-7353 }, { 253,-7353 },
- { 254,-7353 }, { 255,-7353 }, { 256,-7353 }, {   0,   0 }, {   0,4243 },
- {   1,-7611 }, {   2,-7611 }, {   3,-7611 }, {   4,-7611 }, {   5,-7611 },
- {   6,-7611 }, {   7,-7611 }, {   8,-7611 }, {   9,1167 }, {  10,1167 },
- {  11,-7611 }, {  12,-7611 }, {  13,1167 }, {  14,-7611 }, {  15,-7611 },
- {  16,-7611 }, {  17,-7611 }, {  18,-7611 }, {  19,-7611 }, {  20,-7611 },
- {  21,-7611 }, {  22,-7611 }, {  23,-7611 }, {  24,-7611 }, {  25,-7611 },
- {  26,-7611 }, {  27,-7611 }, {  28,-7611 }, {  29,-7611 }, {  30,-7611 },
- {  31,-7611 }, {  32,1167 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,-7611 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {  41,1167 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-7611 },
- {  46,-7636 }, {  47,-7636 }, {  48,-7611 }, {  49,-7611 }, {  50,-7611 },
- {  51,-7611 }, {  52,-7611 }, {  53,-7611 }, {  54,-7611 }, {  55,-7611 },
- {  56,-7611 }, {  57,-7611 }, {  58,-7611 }, {   0,   0 }, {   0,   0 },
- {  61,-7636 }, {   0,   0 }, {  63,-7611 }, {   0,   0 }, {  65,-7611 },
- {  66,-7611 }, {  67,-7611 }, {  68,-7611 }, {  69,-7611 }, {  70,-7611 },
- {  71,-7611 }, {  72,-7611 }, {  73,-7611 }, {  74,-7611 }, {  75,-7611 },
- {  76,-7611 }, {  77,-7611 }, {  78,-7611 }, {  79,-7611 }, {  80,-7611 },
- {  81,-7611 }, {  82,-7611 }, {  83,-7611 }, {  84,-7611 }, {  85,-7611 },
- {  86,-7611 }, {  87,-7611 }, {  88,-7611 }, {  89,-7611 }, {  90,-7611 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-7611 },
- {   0,   0 }, {  97,-7611 }, {  98,-7611 }, {  99,-7611 }, { 100,-7611 },
- { 101,-7611 }, { 102,-7611 }, { 103,-7611 }, { 104,-7611 }, { 105,-7611 },
- { 106,-7611 }, { 107,-7611 }, { 108,-7611 }, { 109,-7611 }, { 110,-7611 },
- { 111,-7611 }, { 112,-7611 }, { 113,-7611 }, { 114,-7611 }, { 115,-7611 },
- { 116,-7611 }, { 117,-7611 }, { 118,-7611 }, { 119,-7611 }, { 120,-7611 },
- { 121,-7611 }, { 122,-7611 }, {   0,   0 }, { 124,-7636 }, { 125,1167 },
- { 126,1167 }, { 127,-7611 }, { 128,-7611 }, { 129,-7611 }, { 130,-7611 },
- { 131,-7611 }, { 132,-7611 }, { 133,-7611 }, { 134,-7611 }, { 135,-7611 },
- { 136,-7611 }, { 137,-7611 }, { 138,-7611 }, { 139,-7611 }, { 140,-7611 },
-
- { 141,-7611 }, { 142,-7611 }, { 143,-7611 }, { 144,-7611 }, { 145,-7611 },
- { 146,-7611 }, { 147,-7611 }, { 148,-7611 }, { 149,-7611 }, { 150,-7611 },
- { 151,-7611 }, { 152,-7611 }, { 153,-7611 }, { 154,-7611 }, { 155,-7611 },
- { 156,-7611 }, { 157,-7611 }, { 158,-7611 }, { 159,-7611 }, { 160,-7611 },
- { 161,-7611 }, { 162,-7611 }, { 163,-7611 }, { 164,-7611 }, { 165,-7611 },
- { 166,-7611 }, { 167,-7611 }, { 168,-7611 }, { 169,-7611 }, { 170,-7611 },
- { 171,-7611 }, { 172,-7611 }, { 173,-7611 }, { 174,-7611 }, { 175,-7611 },
- { 176,-7611 }, { 177,-7611 }, { 178,-7611 }, { 179,-7611 }, { 180,-7611 },
- { 181,-7611 }, { 182,-7611 }, { 183,-7611 }, { 184,-7611 }, { 185,-7611 },
- { 186,-7611 }, { 187,-7611 }, { 188,-7611 }, { 189,-7611 }, { 190,-7611 },
-
- { 191,-7611 }, { 192,-7611 }, { 193,-7611 }, { 194,-7611 }, { 195,-7611 },
- { 196,-7611 }, { 197,-7611 }, { 198,-7611 }, { 199,-7611 }, { 200,-7611 },
- { 201,-7611 }, { 202,-7611 }, { 203,-7611 }, { 204,-7611 }, { 205,-7611 },
- { 206,-7611 }, { 207,-7611 }, { 208,-7611 }, { 209,-7611 }, { 210,-7611 },
- { 211,-7611 }, { 212,-7611 }, { 213,-7611 }, { 214,-7611 }, { 215,-7611 },
- { 216,-7611 }, { 217,-7611 }, { 218,-7611 }, { 219,-7611 }, { 220,-7611 },
- { 221,-7611 }, { 222,-7611 }, { 223,-7611 }, { 224,-7611 }, { 225,-7611 },
- { 226,-7611 }, { 227,-7611 }, { 228,-7611 }, { 229,-7611 }, { 230,-7611 },
- { 231,-7611 }, { 232,-7611 }, { 233,-7611 }, { 234,-7611 }, { 235,-7611 },
- { 236,-7611 }, { 237,-7611 }, { 238,-7611 }, { 239,-7611 }, { 240,-7611 },
-
- { 241,-7611 }, { 242,-7611 }, { 243,-7611 }, { 244,-7611 }, { 245,-7611 },
- { 246,-7611 }, { 247,-7611 }, { 248,-7611 }, { 249,-7611 }, { 250,-7611 },
- { 251,-7611 }, { 252,-7611 }, { 253,-7611 }, { 254,-7611 }, { 255,-7611 },
- { 256,-7611 }, {   0,   0 }, {   0,3985 }, {   1,-7869 }, {   2,-7869 },
- {   3,-7869 }, {   4,-7869 }, {   5,-7869 }, {   6,-7869 }, {   7,-7869 },
- {   8,-7869 }, {   9, 911 }, {  10, 911 }, {  11,-7869 }, {  12,-7869 },
- {  13, 911 }, {  14,-7869 }, {  15,-7869 }, {  16,-7869 }, {  17,-7869 },
- {  18,-7869 }, {  19,-7869 }, {  20,-7869 }, {  21,-7869 }, {  22,-7869 },
- {  23,-7869 }, {  24,-7869 }, {  25,-7869 }, {  26,-7869 }, {  27,-7869 },
- {  28,-7869 }, {  29,-7869 }, {  30,-7869 }, {  31,-7869 }, {  32, 911 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-7869 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41, 911 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-7869 }, {  46,-7894 }, {  47,-7894 },
- {  48,-7869 }, {  49,-7869 }, {  50,-7869 }, {  51,-7869 }, {  52,-7869 },
- {  53,-7869 }, {  54,-7869 }, {  55,-7869 }, {  56,-7869 }, {  57,-7869 },
- {  58,-7869 }, {   0,   0 }, {   0,   0 }, {  61,-7894 }, {   0,   0 },
- {  63,-7869 }, {   0,   0 }, {  65,-7869 }, {  66,-7869 }, {  67,-7869 },
- {  68,-7869 }, {  69,-7869 }, {  70,-7869 }, {  71,-7869 }, {  72,-7869 },
- {  73,-7869 }, {  74,-7869 }, {  75,-7869 }, {  76,-7869 }, {  77,-7869 },
- {  78,-7869 }, {  79,-7869 }, {  80,-7869 }, {  81,-7869 }, {  82,-7869 },
-
- {  83,-7869 }, {  84,-7869 }, {  85,-7869 }, {  86,-7869 }, {  87,-7869 },
- {  88,-7869 }, {  89,-7869 }, {  90,-7869 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-7869 }, {   0,   0 }, {  97,-7869 },
- {  98,-7869 }, {  99,-7869 }, { 100,-7869 }, { 101,-7869 }, { 102,-7869 },
- { 103,-7869 }, { 104,-7869 }, { 105,-7869 }, { 106,-7869 }, { 107,-7869 },
- { 108,-7869 }, { 109,-7869 }, { 110,-7869 }, { 111,-7869 }, { 112,-7869 },
- { 113,-7869 }, { 114,-7869 }, { 115,-7869 }, { 116,-7869 }, { 117,-7869 },
- { 118,-7869 }, { 119,-7869 }, { 120,-7869 }, { 121,-7869 }, { 122,-7869 },
- {   0,   0 }, { 124,-7894 }, { 125, 911 }, { 126, 911 }, { 127,-7869 },
- { 128,-7869 }, { 129,-7869 }, { 130,-7869 }, { 131,-7869 }, { 132,-7869 },
-
- { 133,-7869 }, { 134,-7869 }, { 135,-7869 }, { 136,-7869 }, { 137,-7869 },
- { 138,-7869 }, { 139,-7869 }, { 140,-7869 }, { 141,-7869 }, { 142,-7869 },
- { 143,-7869 }, { 144,-7869 }, { 145,-7869 }, { 146,-7869 }, { 147,-7869 },
- { 148,-7869 }, { 149,-7869 }, { 150,-7869 }, { 151,-7869 }, { 152,-7869 },
- { 153,-7869 }, { 154,-7869 }, { 155,-7869 }, { 156,-7869 }, { 157,-7869 },
- { 158,-7869 }, { 159,-7869 }, { 160,-7869 }, { 161,-7869 }, { 162,-7869 },
- { 163,-7869 }, { 164,-7869 }, { 165,-7869 }, { 166,-7869 }, { 167,-7869 },
- { 168,-7869 }, { 169,-7869 }, { 170,-7869 }, { 171,-7869 }, { 172,-7869 },
- { 173,-7869 }, { 174,-7869 }, { 175,-7869 }, { 176,-7869 }, { 177,-7869 },
- { 178,-7869 }, { 179,-7869 }, { 180,-7869 }, { 181,-7869 }, { 182,-7869 },
-
- { 183,-7869 }, { 184,-7869 }, { 185,-7869 }, { 186,-7869 }, { 187,-7869 },
- { 188,-7869 }, { 189,-7869 }, { 190,-7869 }, { 191,-7869 }, { 192,-7869 },
- { 193,-7869 }, { 194,-7869 }, { 195,-7869 }, { 196,-7869 }, { 197,-7869 },
- { 198,-7869 }, { 199,-7869 }, { 200,-7869 }, { 201,-7869 }, { 202,-7869 },
- { 203,-7869 }, { 204,-7869 }, { 205,-7869 }, { 206,-7869 }, { 207,-7869 },
- { 208,-7869 }, { 209,-7869 }, { 210,-7869 }, { 211,-7869 }, { 212,-7869 },
- { 213,-7869 }, { 214,-7869 }, { 215,-7869 }, { 216,-7869 }, { 217,-7869 },
- { 218,-7869 }, { 219,-7869 }, { 220,-7869 }, { 221,-7869 }, { 222,-7869 },
- { 223,-7869 }, { 224,-7869 }, { 225,-7869 }, { 226,-7869 }, { 227,-7869 },
- { 228,-7869 }, { 229,-7869 }, { 230,-7869 }, { 231,-7869 }, { 232,-7869 },
-
- { 233,-7869 }, { 234,-7869 }, { 235,-7869 }, { 236,-7869 }, { 237,-7869 },
- { 238,-7869 }, { 239,-7869 }, { 240,-7869 }, { 241,-7869 }, { 242,-7869 },
- { 243,-7869 }, { 244,-7869 }, { 245,-7869 }, { 246,-7869 }, { 247,-7869 },
- { 248,-7869 }, { 249,-7869 }, { 250,-7869 }, { 251,-7869 }, { 252,-7869 },
- { 253,-7869 }, { 254,-7869 }, { 255,-7869 }, { 256,-7869 }, {   0,   0 },
- {   0,3727 }, {   1,-8127 }, {   2,-8127 }, {   3,-8127 }, {   4,-8127 },
- {   5,-8127 }, {   6,-8127 }, {   7,-8127 }, {   8,-8127 }, {   9,-8152 },
- {  10,-8152 }, {  11,-8127 }, {  12,-8127 }, {  13,-8152 }, {  14,-8127 },
- {  15,-8127 }, {  16,-8127 }, {  17,-8127 }, {  18,-8127 }, {  19,-8127 },
- {  20,-8127 }, {  21,-8127 }, {  22,-8127 }, {  23,-8127 }, {  24,-8127 },
-
- {  25,-8127 }, {  26,-8127 }, {  27,-8127 }, {  28,-8127 }, {  29,-8127 },
- {  30,-8127 }, {  31,-8127 }, {  32,-8152 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-8127 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,-8152 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,-8127 }, {  46,-8152 }, {  47,-8152 }, {  48,-8127 }, {  49,-8127 },
- {  50,-8127 }, {  51,-8127 }, {  52,-8127 }, {  53,-8127 }, {  54,-8127 },
- {  55,-8127 }, {  56,-8127 }, {  57,-8127 }, {  58,-8127 }, {   0,   0 },
- {   0,   0 }, {  61,-8152 }, {   0,   0 }, {  63,-8127 }, {   0,   0 },
- {  65,-8127 }, {  66,-8127 }, {  67,-8127 }, {  68,-8127 }, {  69,-8127 },
- {  70,-8127 }, {  71,-8127 }, {  72,-8127 }, {  73,-8127 }, {  74,-8127 },
-
- {  75,-8127 }, {  76,-8127 }, {  77,-8127 }, {  78,-8127 }, {  79,-8127 },
- {  80,-8127 }, {  81,-8127 }, {  82,-8127 }, {  83,-8127 }, {  84,-8127 },
- {  85,-8127 }, {  86,-8127 }, {  87,-8127 }, {  88,-8127 }, {  89,-8127 },
- {  90,-8127 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,-8127 }, {   0,   0 }, {  97,-8127 }, {  98,-8127 }, {  99,-8127 },
- { 100,-8127 }, { 101,-8127 }, { 102, 932 }, { 103,-8127 }, { 104,-8127 },
- { 105,-8127 }, { 106,-8127 }, { 107,-8127 }, { 108,-8127 }, { 109,-8127 },
- { 110,-8127 }, { 111,-8127 }, { 112,-8127 }, { 113,-8127 }, { 114,-8127 },
- { 115,-8127 }, { 116,-8127 }, { 117,-8127 }, { 118,-8127 }, { 119,-8127 },
- { 120,-8127 }, { 121,-8127 }, { 122,-8127 }, {   0,   0 }, { 124,-8152 },
-
- { 125,-8152 }, { 126,-8152 }, { 127,-8127 }, { 128,-8127 }, { 129,-8127 },
- { 130,-8127 }, { 131,-8127 }, { 132,-8127 }, { 133,-8127 }, { 134,-8127 },
- { 135,-8127 }, { 136,-8127 }, { 137,-8127 }, { 138,-8127 }, { 139,-8127 },
- { 140,-8127 }, { 141,-8127 }, { 142,-8127 }, { 143,-8127 }, { 144,-8127 },
- { 145,-8127 }, { 146,-8127 }, { 147,-8127 }, { 148,-8127 }, { 149,-8127 },
- { 150,-8127 }, { 151,-8127 }, { 152,-8127 }, { 153,-8127 }, { 154,-8127 },
- { 155,-8127 }, { 156,-8127 }, { 157,-8127 }, { 158,-8127 }, { 159,-8127 },
- { 160,-8127 }, { 161,-8127 }, { 162,-8127 }, { 163,-8127 }, { 164,-8127 },
- { 165,-8127 }, { 166,-8127 }, { 167,-8127 }, { 168,-8127 }, { 169,-8127 },
- { 170,-8127 }, { 171,-8127 }, { 172,-8127 }, { 173,-8127 }, { 174,-8127 },
-
- { 175,-8127 }, { 176,-8127 }, { 177,-8127 }, { 178,-8127 }, { 179,-8127 },
- { 180,-8127 }, { 181,-8127 }, { 182,-8127 }, { 183,-8127 }, { 184,-8127 },
- { 185,-8127 }, { 186,-8127 }, { 187,-8127 }, { 188,-8127 }, { 189,-8127 },
- { 190,-8127 }, { 191,-8127 }, { 192,-8127 }, { 193,-8127 }, { 194,-8127 },
- { 195,-8127 }, { 196,-8127 }, { 197,-8127 }, { 198,-8127 }, { 199,-8127 },
- { 200,-8127 }, { 201,-8127 }, { 202,-8127 }, { 203,-8127 }, { 204,-8127 },
- { 205,-8127 }, { 206,-8127 }, { 207,-8127 }, { 208,-8127 }, { 209,-8127 },
- { 210,-8127 }, { 211,-8127 }, { 212,-8127 }, { 213,-8127 }, { 214,-8127 },
- { 215,-8127 }, { 216,-8127 }, { 217,-8127 }, { 218,-8127 }, { 219,-8127 },
- { 220,-8127 }, { 221,-8127 }, { 222,-8127 }, { 223,-8127 }, { 224,-8127 },
-
- { 225,-8127 }, { 226,-8127 }, { 227,-8127 }, { 228,-8127 }, { 229,-8127 },
- { 230,-8127 }, { 231,-8127 }, { 232,-8127 }, { 233,-8127 }, { 234,-8127 },
- { 235,-8127 }, { 236,-8127 }, { 237,-8127 }, { 238,-8127 }, { 239,-8127 },
- { 240,-8127 }, { 241,-8127 }, { 242,-8127 }, { 243,-8127 }, { 244,-8127 },
- { 245,-8127 }, { 246,-8127 }, { 247,-8127 }, { 248,-8127 }, { 249,-8127 },
- { 250,-8127 }, { 251,-8127 }, { 252,-8127 }, { 253,-8127 }, { 254,-8127 },
- { 255,-8127 }, { 256,-8127 }, {   0,   0 }, {   0,3469 }, {   0,   0 },
- {   0,3467 }, {   0,   0 }, {   0,3465 }, {   0,   0 }, {   0,3463 },
- {   0,  16 }, {   0,3461 }, {   9,   0 }, {  10,   0 }, {   0,  26 },
- {   0,3457 }, {  13,   0 }, {   0,  17 }, {   0,3454 }, {   0,  36 },
-
- {   0,3452 }, {   0,   0 }, {   0,3450 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 },
+ { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 },
+ { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 },
+ { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 },
+ { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 },
+ { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 },
+ { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 },
+ { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 },
+ {   0,   4 }, {   0,4815 }, {   1,-257 }, {   2,-257 }, {   3,-257 },
+ {   4,-257 }, {   5,-257 }, {   6,-257 }, {   7,-257 }, {   8,-257 },
+
+ {   9,-257 }, {  10,-369 }, {  11,-257 }, {  12,-257 }, {  13,-369 },
+ {  14,-257 }, {  15,-257 }, {  16,-257 }, {  17,-257 }, {  18,-257 },
+ {  19,-257 }, {  20,-257 }, {  21,-257 }, {  22,-257 }, {  23,-257 },
+ {  24,-257 }, {  25,-257 }, {  26,-257 }, {  27,-257 }, {  28,-257 },
+ {  29,-257 }, {  30,-257 }, {  31,-257 }, {  32,-257 }, {  33,-257 },
+ {  34,-257 }, {  35,-257 }, {  36,-257 }, {  37,-257 }, {  38,-257 },
+ {  39,-257 }, {  40,-257 }, {  41,-257 }, {  42,-257 }, {  43,-257 },
+ {  44,-257 }, {  45,-257 }, {  46,-257 }, {  47,-257 }, {  48,-257 },
+ {  49,-257 }, {  50,-257 }, {  51,-257 }, {  52,-257 }, {  53,-257 },
+ {  54,-257 }, {  55,-257 }, {  56,-257 }, {  57,-257 }, {  58,-257 },
+
+ {  59,-257 }, {  60,-257 }, {  61,-257 }, {  62,-257 }, {  63,-257 },
+ {  64,-257 }, {  65,-257 }, {  66,-257 }, {  67,-257 }, {  68,-257 },
+ {  69,-257 }, {  70,-257 }, {  71,-257 }, {  72,-257 }, {  73,-257 },
+ {  74,-257 }, {  75,-257 }, {  76,-257 }, {  77,-257 }, {  78,-257 },
+ {  79,-257 }, {  80,-257 }, {  81,-257 }, {  82,-257 }, {  83,-257 },
+ {  84,-257 }, {  85,-257 }, {  86,-257 }, {  87,-257 }, {  88,-257 },
+ {  89,-257 }, {  90,-257 }, {  91,-257 }, {   0,   0 }, {  93,-257 },
+ {  94,-257 }, {  95,-257 }, {  96,-257 }, {  97,-257 }, {  98,-257 },
+ {  99,-257 }, { 100,-257 }, { 101,-257 }, { 102,-257 }, { 103,-257 },
+ { 104,-257 }, { 105,-257 }, { 106,-257 }, { 107,-257 }, { 108,-257 },
+
+ { 109,-257 }, { 110,-257 }, { 111,-257 }, { 112,-257 }, { 113,-257 },
+ { 114,-257 }, { 115,-257 }, { 116,-257 }, { 117,-257 }, { 118,-257 },
+ { 119,-257 }, { 120,-257 }, { 121,-257 }, { 122,-257 }, {   0,   0 },
+ { 124,-257 }, { 125,-257 }, { 126,-257 }, { 127,-257 }, { 128,-257 },
+ { 129,-257 }, { 130,-257 }, { 131,-257 }, { 132,-257 }, { 133,-257 },
+ { 134,-257 }, { 135,-257 }, { 136,-257 }, { 137,-257 }, { 138,-257 },
+ { 139,-257 }, { 140,-257 }, { 141,-257 }, { 142,-257 }, { 143,-257 },
+ { 144,-257 }, { 145,-257 }, { 146,-257 }, { 147,-257 }, { 148,-257 },
+ { 149,-257 }, { 150,-257 }, { 151,-257 }, { 152,-257 }, { 153,-257 },
+ { 154,-257 }, { 155,-257 }, { 156,-257 }, { 157,-257 }, { 158,-257 },
+
+ { 159,-257 }, { 160,-257 }, { 161,-257 }, { 162,-257 }, { 163,-257 },
+ { 164,-257 }, { 165,-257 }, { 166,-257 }, { 167,-257 }, { 168,-257 },
+ { 169,-257 }, { 170,-257 }, { 171,-257 }, { 172,-257 }, { 173,-257 },
+ { 174,-257 }, { 175,-257 }, { 176,-257 }, { 177,-257 }, { 178,-257 },
+ { 179,-257 }, { 180,-257 }, { 181,-257 }, { 182,-257 }, { 183,-257 },
+ { 184,-257 }, { 185,-257 }, { 186,-257 }, { 187,-257 }, { 188,-257 },
+ { 189,-257 }, { 190,-257 }, { 191,-257 }, { 192,-257 }, { 193,-257 },
+ { 194,-257 }, { 195,-257 }, { 196,-257 }, { 197,-257 }, { 198,-257 },
+ { 199,-257 }, { 200,-257 }, { 201,-257 }, { 202,-257 }, { 203,-257 },
+ { 204,-257 }, { 205,-257 }, { 206,-257 }, { 207,-257 }, { 208,-257 },
+
+ { 209,-257 }, { 210,-257 }, { 211,-257 }, { 212,-257 }, { 213,-257 },
+ { 214,-257 }, { 215,-257 }, { 216,-257 }, { 217,-257 }, { 218,-257 },
+ { 219,-257 }, { 220,-257 }, { 221,-257 }, { 222,-257 }, { 223,-257 },
+ { 224,-257 }, { 225,-257 }, { 226,-257 }, { 227,-257 }, { 228,-257 },
+ { 229,-257 }, { 230,-257 }, { 231,-257 }, { 232,-257 }, { 233,-257 },
+ { 234,-257 }, { 235,-257 }, { 236,-257 }, { 237,-257 }, { 238,-257 },
+ { 239,-257 }, { 240,-257 }, { 241,-257 }, { 242,-257 }, { 243,-257 },
+ { 244,-257 }, { 245,-257 }, { 246,-257 }, { 247,-257 }, { 248,-257 },
+ { 249,-257 }, { 250,-257 }, { 251,-257 }, { 252,-257 }, { 253,-257 },
+ { 254,-257 }, { 255,-257 }, {   0,   0 }, {   0,4558 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   9,   0 }, {  10,   0 }, {   0,   0 },
+ {   0,   0 }, {  13,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,4532 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  32,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45, 913 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 115, 400 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,   2 }, { 126,   4 },
- { 125, 397 }, {   0,   0 }, { 125,  -2 }, {   0,   0 }, {   0,3338 },
- {   1, 277 }, {   2, 277 }, {   3, 277 }, {   4, 277 }, {   5, 277 },
- {   6, 277 }, {   7, 277 }, {   8, 277 }, {   9, 277 }, {  10, 277 },
- {  11, 277 }, {  12, 277 }, {  13, 277 }, {  14, 277 }, {  15, 277 },
- {  16, 277 }, {  17, 277 }, {  18, 277 }, {  19, 277 }, {  20, 277 },
- {  21, 277 }, {  22, 277 }, {  23, 277 }, {  24, 277 }, {  25, 277 },
- {  26, 277 }, {  27, 277 }, {  28, 277 }, {  29, 277 }, {  30, 277 },
- {  31, 277 }, {  32, 277 }, {  33, 277 }, {  34, 277 }, {  35, 277 },
-
- {  36, 277 }, {  37, 277 }, {  38, 277 }, {  39, 277 }, {  40, 277 },
- {  41, 277 }, {  42, 277 }, {  43, 277 }, {  44, 277 }, {  45, 277 },
- {  46, 277 }, {  47,1059 }, {  48, 277 }, {  49, 277 }, {  50, 277 },
- {  51, 277 }, {  52, 277 }, {  53, 277 }, {  54, 277 }, {  55, 277 },
- {  56, 277 }, {  57, 277 }, {  58, 277 }, {  59, 277 }, {  60, 277 },
- {  61, 277 }, {  62, 277 }, {  63, 277 }, {  64, 277 }, {  65, 277 },
- {  66, 277 }, {  67, 277 }, {  68, 277 }, {  69, 277 }, {  70, 277 },
- {  71, 277 }, {  72, 277 }, {  73, 277 }, {  74, 277 }, {  75, 277 },
- {  76, 277 }, {  77, 277 }, {  78, 277 }, {  79, 277 }, {  80, 277 },
- {  81, 277 }, {  82, 277 }, {  83, 277 }, {  84, 277 }, {  85, 277 },
-
- {  86, 277 }, {  87, 277 }, {  88, 277 }, {  89, 277 }, {  90, 277 },
- {  91, 277 }, {  92, 277 }, {  93, 277 }, {  94, 277 }, {  95, 277 },
- {  96, 277 }, {  97, 277 }, {  98, 277 }, {  99, 277 }, { 100, 277 },
- { 101, 277 }, { 102, 277 }, { 103, 277 }, { 104, 277 }, { 105, 277 },
- { 106, 277 }, { 107, 277 }, { 108, 277 }, { 109, 277 }, { 110, 277 },
- { 111, 277 }, { 112, 277 }, { 113, 277 }, { 114, 277 }, { 115, 277 },
- { 116, 277 }, { 117, 277 }, { 118, 277 }, { 119, 277 }, { 120, 277 },
- { 121, 277 }, { 122, 277 }, { 123, 277 }, { 124, 277 }, { 125, 277 },
- { 126, 277 }, { 127, 277 }, { 128, 277 }, { 129, 277 }, { 130, 277 },
- { 131, 277 }, { 132, 277 }, { 133, 277 }, { 134, 277 }, { 135, 277 },
-
- { 136, 277 }, { 137, 277 }, { 138, 277 }, { 139, 277 }, { 140, 277 },
- { 141, 277 }, { 142, 277 }, { 143, 277 }, { 144, 277 }, { 145, 277 },
- { 146, 277 }, { 147, 277 }, { 148, 277 }, { 149, 277 }, { 150, 277 },
- { 151, 277 }, { 152, 277 }, { 153, 277 }, { 154, 277 }, { 155, 277 },
- { 156, 277 }, { 157, 277 }, { 158, 277 }, { 159, 277 }, { 160, 277 },
- { 161, 277 }, { 162, 277 }, { 163, 277 }, { 164, 277 }, { 165, 277 },
- { 166, 277 }, { 167, 277 }, { 168, 277 }, { 169, 277 }, { 170, 277 },
- { 171, 277 }, { 172, 277 }, { 173, 277 }, { 174, 277 }, { 175, 277 },
- { 176, 277 }, { 177, 277 }, { 178, 277 }, { 179, 277 }, { 180, 277 },
- { 181, 277 }, { 182, 277 }, { 183, 277 }, { 184, 277 }, { 185, 277 },
-
- { 186, 277 }, { 187, 277 }, { 188, 277 }, { 189, 277 }, { 190, 277 },
- { 191, 277 }, { 192, 277 }, { 193, 277 }, { 194, 277 }, { 195, 277 },
- { 196, 277 }, { 197, 277 }, { 198, 277 }, { 199, 277 }, { 200, 277 },
- { 201, 277 }, { 202, 277 }, { 203, 277 }, { 204, 277 }, { 205, 277 },
- { 206, 277 }, { 207, 277 }, { 208, 277 }, { 209, 277 }, { 210, 277 },
- { 211, 277 }, { 212, 277 }, { 213, 277 }, { 214, 277 }, { 215, 277 },
- { 216, 277 }, { 217, 277 }, { 218, 277 }, { 219, 277 }, { 220, 277 },
- { 221, 277 }, { 222, 277 }, { 223, 277 }, { 224, 277 }, { 225, 277 },
- { 226, 277 }, { 227, 277 }, { 228, 277 }, { 229, 277 }, { 230, 277 },
- { 231, 277 }, { 232, 277 }, { 233, 277 }, { 234, 277 }, { 235, 277 },
-
- { 236, 277 }, { 237, 277 }, { 238, 277 }, { 239, 277 }, { 240, 277 },
- { 241, 277 }, { 242, 277 }, { 243, 277 }, { 244, 277 }, { 245, 277 },
- { 246, 277 }, { 247, 277 }, { 248, 277 }, { 249, 277 }, { 250, 277 },
- { 251, 277 }, { 252, 277 }, { 253, 277 }, { 254, 277 }, { 255, 277 },
- { 256, 277 }, {   0,   1 }, {   0,3080 }, {   0,   1 }, {   0,3078 },
- {   0,  46 }, {   0,3076 }, {   0,  43 }, {   0,3074 }, {   0,  28 },
- {   0,3072 }, {   0,  22 }, {   0,3070 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,3063 },
- {   0,   8 }, {   0,3061 }, {   0,   1 }, {   0,3059 }, {   0,  44 },
- {   0,3057 }, {   0,   0 }, {   0,3055 }, {   0,   0 }, {   0,3053 },
-
- {   1,-8801 }, {   2,-8801 }, {   3,-8801 }, {   4,-8801 }, {   5,-8801 },
- {   6,-8801 }, {   7,-8801 }, {   8,-8801 }, {   9,  -4 }, {  10,  -4 },
- {  11,-8801 }, {  12,-8801 }, {  13,  -4 }, {  14,-8801 }, {  15,-8801 },
- {  16,-8801 }, {  17,-8801 }, {  18,-8801 }, {  19,-8801 }, {  20,-8801 },
- {  21,-8801 }, {  22,-8801 }, {  23,-8801 }, {  24,-8801 }, {  25,-8801 },
- {  26,-8801 }, {  27,-8801 }, {  28,-8801 }, {  29,-8801 }, {  30,-8801 },
- {  31,-8801 }, {  32,  -4 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,-8801 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,  -4 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-8801 },
- {  46,-8826 }, {  47,-8826 }, {  48,-8801 }, {  49,-8801 }, {  50,-8801 },
-
- {  51,-8801 }, {  52,-8801 }, {  53,-8801 }, {  54,-8801 }, {  55,-8801 },
- {  56,-8801 }, {  57,-8801 }, {  58,-8801 }, {   0,   0 }, {   0,   0 },
- {  61,-8826 }, {   0,   0 }, {  63,-8801 }, {   0,   0 }, {  65,-8801 },
- {  66,-8801 }, {  67,-8801 }, {  68,-8801 }, {  69,-8801 }, {  70,-8801 },
- {  71,-8801 }, {  72,-8801 }, {  73,-8801 }, {  74,-8801 }, {  75,-8801 },
- {  76,-8801 }, {  77,-8801 }, {  78,-8801 }, {  79,-8801 }, {  80,-8801 },
- {  81,-8801 }, {  82,-8801 }, {  83,-8801 }, {  84,-8801 }, {  85,-8801 },
- {  86,-8801 }, {  87,-8801 }, {  88,-8801 }, {  89,-8801 }, {  90,-8801 },
- { 101,1300 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-8801 },
- { 123,  21 }, {  97,-8801 }, {  98,-8801 }, {  99,-8801 }, { 100,-8801 },
-
- { 101,-8801 }, { 102,-8801 }, { 103,-8801 }, { 104,-8801 }, { 105,-8801 },
- { 106,-8801 }, { 107,-8801 }, { 108,-8801 }, { 109,-8801 }, { 110,-8801 },
- { 111,-8801 }, { 112,-8801 }, { 113,-8801 }, { 114,-8801 }, { 115,-8801 },
- { 116,-8801 }, { 117,-8801 }, { 118,-8801 }, { 119,-8801 }, { 120,-8801 },
- { 121,-8801 }, { 122,-8801 }, { 125,2460 }, { 124,-8826 }, { 125,  -4 },
- { 126,  -4 }, { 127,-8801 }, { 128,-8801 }, { 129,-8801 }, { 130,-8801 },
- { 131,-8801 }, { 132,-8801 }, { 133,-8801 }, { 134,-8801 }, { 135,-8801 },
- { 136,-8801 }, { 137,-8801 }, { 138,-8801 }, { 139,-8801 }, { 140,-8801 },
- { 141,-8801 }, { 142,-8801 }, { 143,-8801 }, { 144,-8801 }, { 145,-8801 },
- { 146,-8801 }, { 147,-8801 }, { 148,-8801 }, { 149,-8801 }, { 150,-8801 },
-
- { 151,-8801 }, { 152,-8801 }, { 153,-8801 }, { 154,-8801 }, { 155,-8801 },
- { 156,-8801 }, { 157,-8801 }, { 158,-8801 }, { 159,-8801 }, { 160,-8801 },
- { 161,-8801 }, { 162,-8801 }, { 163,-8801 }, { 164,-8801 }, { 165,-8801 },
- { 166,-8801 }, { 167,-8801 }, { 168,-8801 }, { 169,-8801 }, { 170,-8801 },
- { 171,-8801 }, { 172,-8801 }, { 173,-8801 }, { 174,-8801 }, { 175,-8801 },
- { 176,-8801 }, { 177,-8801 }, { 178,-8801 }, { 179,-8801 }, { 180,-8801 },
- { 181,-8801 }, { 182,-8801 }, { 183,-8801 }, { 184,-8801 }, { 185,-8801 },
- { 186,-8801 }, { 187,-8801 }, { 188,-8801 }, { 189,-8801 }, { 190,-8801 },
- { 191,-8801 }, { 192,-8801 }, { 193,-8801 }, { 194,-8801 }, { 195,-8801 },
- { 196,-8801 }, { 197,-8801 }, { 198,-8801 }, { 199,-8801 }, { 200,-8801 },
-
- { 201,-8801 }, { 202,-8801 }, { 203,-8801 }, { 204,-8801 }, { 205,-8801 },
- { 206,-8801 }, { 207,-8801 }, { 208,-8801 }, { 209,-8801 }, { 210,-8801 },
- { 211,-8801 }, { 212,-8801 }, { 213,-8801 }, { 214,-8801 }, { 215,-8801 },
- { 216,-8801 }, { 217,-8801 }, { 218,-8801 }, { 219,-8801 }, { 220,-8801 },
- { 221,-8801 }, { 222,-8801 }, { 223,-8801 }, { 224,-8801 }, { 225,-8801 },
- { 226,-8801 }, { 227,-8801 }, { 228,-8801 }, { 229,-8801 }, { 230,-8801 },
- { 231,-8801 }, { 232,-8801 }, { 233,-8801 }, { 234,-8801 }, { 235,-8801 },
- { 236,-8801 }, { 237,-8801 }, { 238,-8801 }, { 239,-8801 }, { 240,-8801 },
- { 241,-8801 }, { 242,-8801 }, { 243,-8801 }, { 244,-8801 }, { 245,-8801 },
- { 246,-8801 }, { 247,-8801 }, { 248,-8801 }, { 249,-8801 }, { 250,-8801 },
-
- { 251,-8801 }, { 252,-8801 }, { 253,-8801 }, { 254,-8801 }, { 255,-8801 },
- { 256,-8801 }, {   0,   0 }, {   0,2795 }, {   1,-9059 }, {   2,-9059 },
- {   3,-9059 }, {   4,-9059 }, {   5,-9059 }, {   6,-9059 }, {   7,-9059 },
- {   8,-9059 }, {   9,-9084 }, {  10,-9084 }, {  11,-9059 }, {  12,-9059 },
- {  13,-9084 }, {  14,-9059 }, {  15,-9059 }, {  16,-9059 }, {  17,-9059 },
- {  18,-9059 }, {  19,-9059 }, {  20,-9059 }, {  21,-9059 }, {  22,-9059 },
- {  23,-9059 }, {  24,-9059 }, {  25,-9059 }, {  26,-9059 }, {  27,-9059 },
- {  28,-9059 }, {  29,-9059 }, {  30,-9059 }, {  31,-9059 }, {  32,-9084 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-9059 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-9084 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {  45,-9059 }, {  46,-9084 }, {  47,-9084 },
- {  48,-9059 }, {  49,-9059 }, {  50,-9059 }, {  51,-9059 }, {  52,-9059 },
- {  53,-9059 }, {  54,-9059 }, {  55,-9059 }, {  56,-9059 }, {  57,-9059 },
- {  58,-9059 }, {   0,   0 }, {   0,   0 }, {  61,-9084 }, {   0,   0 },
- {  63,-9059 }, {   0,   0 }, {  65,-9059 }, {  66,-9059 }, {  67,-9059 },
- {  68,-9059 }, {  69,-9059 }, {  70,-9059 }, {  71,-9059 }, {  72,-9059 },
- {  73,-9059 }, {  74,-9059 }, {  75,-9059 }, {  76,-9059 }, {  77,-9059 },
- {  78,-9059 }, {  79,-9059 }, {  80,-9059 }, {  81,-9059 }, {  82,-9059 },
- {  83,-9059 }, {  84,-9059 }, {  85,-9059 }, {  86,-9059 }, {  87,-9059 },
- {  88,-9059 }, {  89,-9059 }, {  90,-9059 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {  95,-9059 }, {   0,   0 }, {  97,-9059 },
- {  98,-9059 }, {  99,-9059 }, { 100,-9059 }, { 101,-9059 }, { 102,-9059 },
- { 103,-9059 }, { 104,-9059 }, { 105, 774 }, { 106,-9059 }, { 107,-9059 },
- { 108,-9059 }, { 109,-9059 }, { 110,-9059 }, { 111,-9059 }, { 112,-9059 },
- { 113,-9059 }, { 114,-9059 }, { 115,-9059 }, { 116,-9059 }, { 117,-9059 },
- { 118,-9059 }, { 119,-9059 }, { 120,-9059 }, { 121,-9059 }, { 122,-9059 },
- {   0,   0 }, { 124,-9084 }, { 125,-9084 }, { 126,-9084 }, { 127,-9059 },
- { 128,-9059 }, { 129,-9059 }, { 130,-9059 }, { 131,-9059 }, { 132,-9059 },
- { 133,-9059 }, { 134,-9059 }, { 135,-9059 }, { 136,-9059 }, { 137,-9059 },
- { 138,-9059 }, { 139,-9059 }, { 140,-9059 }, { 141,-9059 }, { 142,-9059 },
-
- { 143,-9059 }, { 144,-9059 }, { 145,-9059 }, { 146,-9059 }, { 147,-9059 },
- { 148,-9059 }, { 149,-9059 }, { 150,-9059 }, { 151,-9059 }, { 152,-9059 },
- { 153,-9059 }, { 154,-9059 }, { 155,-9059 }, { 156,-9059 }, { 157,-9059 },
- { 158,-9059 }, { 159,-9059 }, { 160,-9059 }, { 161,-9059 }, { 162,-9059 },
- { 163,-9059 }, { 164,-9059 }, { 165,-9059 }, { 166,-9059 }, { 167,-9059 },
- { 168,-9059 }, { 169,-9059 }, { 170,-9059 }, { 171,-9059 }, { 172,-9059 },
- { 173,-9059 }, { 174,-9059 }, { 175,-9059 }, { 176,-9059 }, { 177,-9059 },
- { 178,-9059 }, { 179,-9059 }, { 180,-9059 }, { 181,-9059 }, { 182,-9059 },
- { 183,-9059 }, { 184,-9059 }, { 185,-9059 }, { 186,-9059 }, { 187,-9059 },
- { 188,-9059 }, { 189,-9059 }, { 190,-9059 }, { 191,-9059 }, { 192,-9059 },
-
- { 193,-9059 }, { 194,-9059 }, { 195,-9059 }, { 196,-9059 }, { 197,-9059 },
- { 198,-9059 }, { 199,-9059 }, { 200,-9059 }, { 201,-9059 }, { 202,-9059 },
- { 203,-9059 }, { 204,-9059 }, { 205,-9059 }, { 206,-9059 }, { 207,-9059 },
- { 208,-9059 }, { 209,-9059 }, { 210,-9059 }, { 211,-9059 }, { 212,-9059 },
- { 213,-9059 }, { 214,-9059 }, { 215,-9059 }, { 216,-9059 }, { 217,-9059 },
- { 218,-9059 }, { 219,-9059 }, { 220,-9059 }, { 221,-9059 }, { 222,-9059 },
- { 223,-9059 }, { 224,-9059 }, { 225,-9059 }, { 226,-9059 }, { 227,-9059 },
- { 228,-9059 }, { 229,-9059 }, { 230,-9059 }, { 231,-9059 }, { 232,-9059 },
- { 233,-9059 }, { 234,-9059 }, { 235,-9059 }, { 236,-9059 }, { 237,-9059 },
- { 238,-9059 }, { 239,-9059 }, { 240,-9059 }, { 241,-9059 }, { 242,-9059 },
-
- { 243,-9059 }, { 244,-9059 }, { 245,-9059 }, { 246,-9059 }, { 247,-9059 },
- { 248,-9059 }, { 249,-9059 }, { 250,-9059 }, { 251,-9059 }, { 252,-9059 },
- { 253,-9059 }, { 254,-9059 }, { 255,-9059 }, { 256,-9059 }, {   0,   0 },
- {   0,2537 }, {   1, 902 }, {   2, 902 }, {   3, 902 }, {   4, 902 },
- {   5, 902 }, {   6, 902 }, {   7, 902 }, {   8, 902 }, {   9, 902 },
- {  10, 902 }, {  11, 902 }, {  12, 902 }, {  13, 902 }, {  14, 902 },
- {  15, 902 }, {  16, 902 }, {  17, 902 }, {  18, 902 }, {  19, 902 },
- {  20, 902 }, {  21, 902 }, {  22, 902 }, {  23, 902 }, {  24, 902 },
- {  25, 902 }, {  26, 902 }, {  27, 902 }, {  28, 902 }, {  29, 902 },
- {  30, 902 }, {  31, 902 }, {  32, 902 }, {  33, 902 }, {  34, 902 },
-
- {  35, 902 }, {  36, 902 }, {  37, 902 }, {  38, 902 }, {  39, 902 },
- {  40, 902 }, {  41, 902 }, {  42, 902 }, {  43, 902 }, {  44, 902 },
- {  45,1160 }, {  46, 902 }, {  47, 902 }, {  48, 902 }, {  49, 902 },
- {  50, 902 }, {  51, 902 }, {  52, 902 }, {  53, 902 }, {  54, 902 },
- {  55, 902 }, {  56, 902 }, {  57, 902 }, {  58, 902 }, {  59, 902 },
- {  60, 902 }, {  61, 902 }, {  62, 902 }, {  63, 902 }, {  64, 902 },
- {  65, 902 }, {  66, 902 }, {  67, 902 }, {  68, 902 }, {  69, 902 },
- {  70, 902 }, {  71, 902 }, {  72, 902 }, {  73, 902 }, {  74, 902 },
- {  75, 902 }, {  76, 902 }, {  77, 902 }, {  78, 902 }, {  79, 902 },
- {  80, 902 }, {  81, 902 }, {  82, 902 }, {  83, 902 }, {  84, 902 },
-
- {  85, 902 }, {  86, 902 }, {  87, 902 }, {  88, 902 }, {  89, 902 },
- {  90, 902 }, {  91, 902 }, {  92, 902 }, {  93, 902 }, {  94, 902 },
- {  95, 902 }, {  96, 902 }, {  97, 902 }, {  98, 902 }, {  99, 902 },
- { 100, 902 }, { 101, 902 }, { 102, 902 }, { 103, 902 }, { 104, 902 },
- { 105, 902 }, { 106, 902 }, { 107, 902 }, { 108, 902 }, { 109, 902 },
- { 110, 902 }, { 111, 902 }, { 112, 902 }, { 113, 902 }, { 114, 902 },
- { 115, 902 }, { 116, 902 }, { 117, 902 }, { 118, 902 }, { 119, 902 },
- { 120, 902 }, { 121, 902 }, { 122, 902 }, { 123, 902 }, { 124, 902 },
- { 125, 902 }, { 126, 902 }, { 127, 902 }, { 128, 902 }, { 129, 902 },
- { 130, 902 }, { 131, 902 }, { 132, 902 }, { 133, 902 }, { 134, 902 },
-
- { 135, 902 }, { 136, 902 }, { 137, 902 }, { 138, 902 }, { 139, 902 },
- { 140, 902 }, { 141, 902 }, { 142, 902 }, { 143, 902 }, { 144, 902 },
- { 145, 902 }, { 146, 902 }, { 147, 902 }, { 148, 902 }, { 149, 902 },
- { 150, 902 }, { 151, 902 }, { 152, 902 }, { 153, 902 }, { 154, 902 },
- { 155, 902 }, { 156, 902 }, { 157, 902 }, { 158, 902 }, { 159, 902 },
- { 160, 902 }, { 161, 902 }, { 162, 902 }, { 163, 902 }, { 164, 902 },
- { 165, 902 }, { 166, 902 }, { 167, 902 }, { 168, 902 }, { 169, 902 },
- { 170, 902 }, { 171, 902 }, { 172, 902 }, { 173, 902 }, { 174, 902 },
- { 175, 902 }, { 176, 902 }, { 177, 902 }, { 178, 902 }, { 179, 902 },
- { 180, 902 }, { 181, 902 }, { 182, 902 }, { 183, 902 }, { 184, 902 },
-
- { 185, 902 }, { 186, 902 }, { 187, 902 }, { 188, 902 }, { 189, 902 },
- { 190, 902 }, { 191, 902 }, { 192, 902 }, { 193, 902 }, { 194, 902 },
- { 195, 902 }, { 196, 902 }, { 197, 902 }, { 198, 902 }, { 199, 902 },
- { 200, 902 }, { 201, 902 }, { 202, 902 }, { 203, 902 }, { 204, 902 },
- { 205, 902 }, { 206, 902 }, { 207, 902 }, { 208, 902 }, { 209, 902 },
- { 210, 902 }, { 211, 902 }, { 212, 902 }, { 213, 902 }, { 214, 902 },
- { 215, 902 }, { 216, 902 }, { 217, 902 }, { 218, 902 }, { 219, 902 },
- { 220, 902 }, { 221, 902 }, { 222, 902 }, { 223, 902 }, { 224, 902 },
- { 225, 902 }, { 226, 902 }, { 227, 902 }, { 228, 902 }, { 229, 902 },
- { 230, 902 }, { 231, 902 }, { 232, 902 }, { 233, 902 }, { 234, 902 },
-
- { 235, 902 }, { 236, 902 }, { 237, 902 }, { 238, 902 }, { 239, 902 },
- { 240, 902 }, { 241, 902 }, { 242, 902 }, { 243, 902 }, { 244, 902 },
- { 245, 902 }, { 246, 902 }, { 247, 902 }, { 248, 902 }, { 249, 902 },
- { 250, 902 }, { 251, 902 }, { 252, 902 }, { 253, 902 }, { 254, 902 },
- { 255, 902 }, { 256, 902 }, {   0,   0 }, {   0,2279 }, {   1,1160 },
- {   2,1160 }, {   3,1160 }, {   4,1160 }, {   5,1160 }, {   6,1160 },
- {   7,1160 }, {   8,1160 }, {   0,   0 }, {   0,   0 }, {  11,1160 },
- {  12,1160 }, {   0,   0 }, {  14,1160 }, {  15,1160 }, {  16,1160 },
- {  17,1160 }, {  18,1160 }, {  19,1160 }, {  20,1160 }, {  21,1160 },
- {  22,1160 }, {  23,1160 }, {  24,1160 }, {  25,1160 }, {  26,1160 },
-
- {  27,1160 }, {  28,1160 }, {  29,1160 }, {  30,1160 }, {  31,1160 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,1160 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,1160 }, {   0,   0 },
- {   0,   0 }, {  48,1160 }, {  49,1160 }, {  50,1160 }, {  51,1160 },
- {  52,1160 }, {  53,1160 }, {  54,1160 }, {  55,1160 }, {  56,1160 },
- {  57,1160 }, {  58,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  63,1160 }, {   0,   0 }, {  65,1160 }, {  66,1160 },
- {  67,1160 }, {  68,1160 }, {  69,1160 }, {  70,1160 }, {  71,1160 },
- {  72,1160 }, {  73,1160 }, {  74,1160 }, {  75,1160 }, {  76,1160 },
-
- {  77,1160 }, {  78,1160 }, {  79,1160 }, {  80,1160 }, {  81,1160 },
- {  82,1160 }, {  83,1160 }, {  84,1160 }, {  85,1160 }, {  86,1160 },
- {  87,1160 }, {  88,1160 }, {  89,1160 }, {  90,1160 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,1160 }, {   0,   0 },
- {  97,1160 }, {  98,1160 }, {  99,1160 }, { 100,1160 }, { 101,1160 },
- { 102,1160 }, { 103,1160 }, { 104,1160 }, { 105,1160 }, { 106,1160 },
- { 107,1160 }, { 108,1160 }, { 109,1160 }, { 110,1160 }, { 111,1160 },
- { 112,1160 }, { 113,1160 }, { 114,1160 }, { 115,1160 }, { 116,1160 },
- { 117,1160 }, { 118,1160 }, { 119,1160 }, { 120,1160 }, { 121,1160 },
- { 122,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- { 127,1160 }, { 128,1160 }, { 129,1160 }, { 130,1160 }, { 131,1160 },
- { 132,1160 }, { 133,1160 }, { 134,1160 }, { 135,1160 }, { 136,1160 },
- { 137,1160 }, { 138,1160 }, { 139,1160 }, { 140,1160 }, { 141,1160 },
- { 142,1160 }, { 143,1160 }, { 144,1160 }, { 145,1160 }, { 146,1160 },
- { 147,1160 }, { 148,1160 }, { 149,1160 }, { 150,1160 }, { 151,1160 },
- { 152,1160 }, { 153,1160 }, { 154,1160 }, { 155,1160 }, { 156,1160 },
- { 157,1160 }, { 158,1160 }, { 159,1160 }, { 160,1160 }, { 161,1160 },
- { 162,1160 }, { 163,1160 }, { 164,1160 }, { 165,1160 }, { 166,1160 },
- { 167,1160 }, { 168,1160 }, { 169,1160 }, { 170,1160 }, { 171,1160 },
- { 172,1160 }, { 173,1160 }, { 174,1160 }, { 175,1160 }, { 176,1160 },
-
- { 177,1160 }, { 178,1160 }, { 179,1160 }, { 180,1160 }, { 181,1160 },
- { 182,1160 }, { 183,1160 }, { 184,1160 }, { 185,1160 }, { 186,1160 },
- { 187,1160 }, { 188,1160 }, { 189,1160 }, { 190,1160 }, { 191,1160 },
- { 192,1160 }, { 193,1160 }, { 194,1160 }, { 195,1160 }, { 196,1160 },
- { 197,1160 }, { 198,1160 }, { 199,1160 }, { 200,1160 }, { 201,1160 },
- { 202,1160 }, { 203,1160 }, { 204,1160 }, { 205,1160 }, { 206,1160 },
- { 207,1160 }, { 208,1160 }, { 209,1160 }, { 210,1160 }, { 211,1160 },
- { 212,1160 }, { 213,1160 }, { 214,1160 }, { 215,1160 }, { 216,1160 },
- { 217,1160 }, { 218,1160 }, { 219,1160 }, { 220,1160 }, { 221,1160 },
- { 222,1160 }, { 223,1160 }, { 224,1160 }, { 225,1160 }, { 226,1160 },
-
- { 227,1160 }, { 228,1160 }, { 229,1160 }, { 230,1160 }, { 231,1160 },
- { 232,1160 }, { 233,1160 }, { 234,1160 }, { 235,1160 }, { 236,1160 },
- { 237,1160 }, { 238,1160 }, { 239,1160 }, { 240,1160 }, { 241,1160 },
- { 242,1160 }, { 243,1160 }, { 244,1160 }, { 245,1160 }, { 246,1160 },
- { 247,1160 }, { 248,1160 }, { 249,1160 }, { 250,1160 }, { 251,1160 },
- { 252,1160 }, { 253,1160 }, { 254,1160 }, { 255,1160 }, { 256,1160 },
- {   0,   0 }, {   0,2021 }, {   1,-9833 }, {   2,-9833 }, {   3,-9833 },
- {   4,-9833 }, {   5,-9833 }, {   6,-9833 }, {   7,-9833 }, {   8,-9833 },
- {   9,-9858 }, {  10,-9858 }, {  11,-9833 }, {  12,-9833 }, {  13,-9858 },
- {  14,-9833 }, {  15,-9833 }, {  16,-9833 }, {  17,-9833 }, {  18,-9833 },
-
- {  19,-9833 }, {  20,-9833 }, {  21,-9833 }, {  22,-9833 }, {  23,-9833 },
- {  24,-9833 }, {  25,-9833 }, {  26,-9833 }, {  27,-9833 }, {  28,-9833 },
- {  29,-9833 }, {  30,-9833 }, {  31,-9833 }, {  32,-9858 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,-9833 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,-9858 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-9833 }, {  46,-9858 }, {  47,-9858 }, {  48,-9833 },
- {  49,-9833 }, {  50,-9833 }, {  51,-9833 }, {  52,-9833 }, {  53,-9833 },
- {  54,-9833 }, {  55,-9833 }, {  56,-9833 }, {  57,-9833 }, {  58,-9833 },
- {   0,   0 }, {   0,   0 }, {  61,-9858 }, {   0,   0 }, {  63,-9833 },
- {   0,   0 }, {  65,-9833 }, {  66,-9833 }, {  67,-9833 }, {  68,-9833 },
-
- {  69,-9833 }, {  70,-9833 }, {  71,-9833 }, {  72,-9833 }, {  73,-9833 },
- {  74,-9833 }, {  75,-9833 }, {  76,-9833 }, {  77,-9833 }, {  78,-9833 },
- {  79,-9833 }, {  80,-9833 }, {  81,-9833 }, {  82,-9833 }, {  83,-9833 },
- {  84,-9833 }, {  85,-9833 }, {  86,-9833 }, {  87,-9833 }, {  88,-9833 },
- {  89,-9833 }, {  90,-9833 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-9833 }, {   0,   0 }, {  97,-9833 }, {  98,-9833 },
- {  99,-9833 }, { 100,-9833 }, { 101,-9833 }, { 102,-9833 }, { 103,-9833 },
- { 104,-9833 }, { 105,-9833 }, { 106,-9833 }, { 107,-9833 }, { 108,-9833 },
- { 109,-9833 }, { 110,1160 }, { 111,-9833 }, { 112,-9833 }, { 113,-9833 },
- { 114,-9833 }, { 115,-9833 }, { 116,-9833 }, { 117,-9833 }, { 118,-9833 },
-
- { 119,-9833 }, { 120,-9833 }, { 121,-9833 }, { 122,-9833 }, {   0,   0 },
- { 124,-9858 }, { 125,-9858 }, { 126,-9858 }, { 127,-9833 }, { 128,-9833 },
- { 129,-9833 }, { 130,-9833 }, { 131,-9833 }, { 132,-9833 }, { 133,-9833 },
- { 134,-9833 }, { 135,-9833 }, { 136,-9833 }, { 137,-9833 }, { 138,-9833 },
- { 139,-9833 }, { 140,-9833 }, { 141,-9833 }, { 142,-9833 }, { 143,-9833 },
- { 144,-9833 }, { 145,-9833 }, { 146,-9833 }, { 147,-9833 }, { 148,-9833 },
- { 149,-9833 }, { 150,-9833 }, { 151,-9833 }, { 152,-9833 }, { 153,-9833 },
- { 154,-9833 }, { 155,-9833 }, { 156,-9833 }, { 157,-9833 }, { 158,-9833 },
- { 159,-9833 }, { 160,-9833 }, { 161,-9833 }, { 162,-9833 }, { 163,-9833 },
- { 164,-9833 }, { 165,-9833 }, { 166,-9833 }, { 167,-9833 }, { 168,-9833 },
-
- { 169,-9833 }, { 170,-9833 }, { 171,-9833 }, { 172,-9833 }, { 173,-9833 },
- { 174,-9833 }, { 175,-9833 }, { 176,-9833 }, { 177,-9833 }, { 178,-9833 },
- { 179,-9833 }, { 180,-9833 }, { 181,-9833 }, { 182,-9833 }, { 183,-9833 },
- { 184,-9833 }, { 185,-9833 }, { 186,-9833 }, { 187,-9833 }, { 188,-9833 },
- { 189,-9833 }, { 190,-9833 }, { 191,-9833 }, { 192,-9833 }, { 193,-9833 },
- { 194,-9833 }, { 195,-9833 }, { 196,-9833 }, { 197,-9833 }, { 198,-9833 },
- { 199,-9833 }, { 200,-9833 }, { 201,-9833 }, { 202,-9833 }, { 203,-9833 },
- { 204,-9833 }, { 205,-9833 }, { 206,-9833 }, { 207,-9833 }, { 208,-9833 },
- { 209,-9833 }, { 210,-9833 }, { 211,-9833 }, { 212,-9833 }, { 213,-9833 },
- { 214,-9833 }, { 215,-9833 }, { 216,-9833 }, { 217,-9833 }, { 218,-9833 },
+ {   0,4521 }, {   0,  16 }, {   0,4519 }, {   0,  26 }, {   0,4517 },
+ {   0,  17 }, {   0,4515 }, {   0,  36 }, {   0,4513 }, {   0,   0 },
+ {   0,   0 }, {   0,4510 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,4498 }, {   1,-7460 },
+ {   2,-7460 }, {   3,-7460 }, {   4,-7460 }, {   5,-7460 }, {   6,-7460 },
+ {   7,-7460 }, {   8,-7460 }, {   9,-7485 }, {  10,-7485 }, {  11,-7460 },
+ {  12,-7460 }, {  13,-7485 }, {  14,-7460 }, {  15,-7460 }, {  16,-7460 },
+ {  17,-7460 }, {  18,-7460 }, {  19,-7460 }, {  20,-7460 }, {  21,-7460 },
+ {  22,-7460 }, {  23,-7460 }, {  24,-7460 }, {  25,-7460 }, {  26,-7460 },
+ {  27,-7460 }, {  28,-7460 }, {  29,-7460 }, {  30,-7460 }, {  31,-7460 },
+ {  32,-7485 }, {  45,1973 }, {   0,   0 }, {   0,   0 }, {  36,-7460 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-7485 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-7460 }, {  46,-7485 },
+ {  47,-7485 }, {  48,-7460 }, {  49,-7460 }, {  50,-7460 }, {  51,-7460 },
+ {  52,-7460 }, {  53,-7460 }, {  54,-7460 }, {  55,-7460 }, {  56,-7460 },
+ {  57,-7460 }, {  58,-7460 }, {   0,   0 }, {   0,   0 }, {  61,-7485 },
+ {   0,   0 }, {  63,-7460 }, { 124,-611 }, {  65,-7460 }, {  66,-7460 },
+ {  67,-7460 }, {  68,-7460 }, {  69,-7460 }, {  70,-7460 }, {  71,-7460 },
+ {  72,-7460 }, {  73,-7460 }, {  74,-7460 }, {  75,-7460 }, {  76,-7460 },
+ {  77,-7460 }, {  78,-7460 }, {  79,-7460 }, {  80,-7460 }, {  81,-7460 },
+ {  82,-7460 }, {  83,-7460 }, {  84,-7460 }, {  85,-7460 }, {  86,-7460 },
+ {  87,-7460 }, {  88,-7460 }, {  89,-7460 }, {  90,-7460 }, { 125,-573 },
+
+ { 115,1458 }, {   0,   0 }, {   0,   0 }, {  95,-7460 }, {   0,   0 },
+ {  97,-7460 }, {  98,-7460 }, {  99,-7460 }, { 100,-7460 }, { 101,1445 },
+ { 102,-7460 }, { 103,-7460 }, { 104,-7460 }, { 105,-7460 }, { 106,-7460 },
+ { 107,-7460 }, { 108,-7460 }, { 109,-7460 }, { 110,-7460 }, { 111,-7460 },
+ { 112,-7460 }, { 113,-7460 }, { 114,-7460 }, { 115,-7460 }, { 116,-7460 },
+ { 117,-7460 }, { 118,-7460 }, { 119,-7460 }, { 120,-7460 }, { 121,-7460 },
+ { 122,-7460 }, {   0,   0 }, { 124,-7485 }, { 125,-7485 }, { 126,-7485 },
+ { 127,-7460 }, { 128,-7460 }, { 129,-7460 }, { 130,-7460 }, { 131,-7460 },
+ { 132,-7460 }, { 133,-7460 }, { 134,-7460 }, { 135,-7460 }, { 136,-7460 },
+ { 137,-7460 }, { 138,-7460 }, { 139,-7460 }, { 140,-7460 }, { 141,-7460 },
+
+ { 142,-7460 }, { 143,-7460 }, { 144,-7460 }, { 145,-7460 }, { 146,-7460 },
+ { 147,-7460 }, { 148,-7460 }, { 149,-7460 }, { 150,-7460 }, { 151,-7460 },
+ { 152,-7460 }, { 153,-7460 }, { 154,-7460 }, { 155,-7460 }, { 156,-7460 },
+ { 157,-7460 }, { 158,-7460 }, { 159,-7460 }, { 160,-7460 }, { 161,-7460 },
+ { 162,-7460 }, { 163,-7460 }, { 164,-7460 }, { 165,-7460 }, { 166,-7460 },
+ { 167,-7460 }, { 168,-7460 }, { 169,-7460 }, { 170,-7460 }, { 171,-7460 },
+ { 172,-7460 }, { 173,-7460 }, { 174,-7460 }, { 175,-7460 }, { 176,-7460 },
+ { 177,-7460 }, { 178,-7460 }, { 179,-7460 }, { 180,-7460 }, { 181,-7460 },
+ { 182,-7460 }, { 183,-7460 }, { 184,-7460 }, { 185,-7460 }, { 186,-7460 },
+ { 187,-7460 }, { 188,-7460 }, { 189,-7460 }, { 190,-7460 }, { 191,-7460 },
+
+ { 192,-7460 }, { 193,-7460 }, { 194,-7460 }, { 195,-7460 }, { 196,-7460 },
+ { 197,-7460 }, { 198,-7460 }, { 199,-7460 }, { 200,-7460 }, { 201,-7460 },
+ { 202,-7460 }, { 203,-7460 }, { 204,-7460 }, { 205,-7460 }, { 206,-7460 },
+ { 207,-7460 }, { 208,-7460 }, { 209,-7460 }, { 210,-7460 }, { 211,-7460 },
+ { 212,-7460 }, { 213,-7460 }, { 214,-7460 }, { 215,-7460 }, { 216,-7460 },
+ { 217,-7460 }, { 218,-7460 }, { 219,-7460 }, { 220,-7460 }, { 221,-7460 },
+ { 222,-7460 }, { 223,-7460 }, { 224,-7460 }, { 225,-7460 }, { 226,-7460 },
+ { 227,-7460 }, { 228,-7460 }, { 229,-7460 }, { 230,-7460 }, { 231,-7460 },
+ { 232,-7460 }, { 233,-7460 }, { 234,-7460 }, { 235,-7460 }, { 236,-7460 },
+ { 237,-7460 }, { 238,-7460 }, { 239,-7460 }, { 240,-7460 }, { 241,-7460 },
+
+ { 242,-7460 }, { 243,-7460 }, { 244,-7460 }, { 245,-7460 }, { 246,-7460 },
+ { 247,-7460 }, { 248,-7460 }, { 249,-7460 }, { 250,-7460 }, { 251,-7460 },
+ { 252,-7460 }, { 253,-7460 }, { 254,-7460 }, { 255,-7460 }, { 256,-7460 },
+ {   0,   0 }, {   0,4240 }, {   1,-7718 }, {   2,-7718 }, {   3,-7718 },
+ {   4,-7718 }, {   5,-7718 }, {   6,-7718 }, {   7,-7718 }, {   8,-7718 },
+ {   9,1164 }, {  10,1164 }, {  11,-7718 }, {  12,-7718 }, {  13,1164 },
+ {  14,-7718 }, {  15,-7718 }, {  16,-7718 }, {  17,-7718 }, {  18,-7718 },
+ {  19,-7718 }, {  20,-7718 }, {  21,-7718 }, {  22,-7718 }, {  23,-7718 },
+ {  24,-7718 }, {  25,-7718 }, {  26,-7718 }, {  27,-7718 }, {  28,-7718 },
+ {  29,-7718 }, {  30,-7718 }, {  31,-7718 }, {  32,1164 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {  36,-7718 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,1164 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,-7718 }, {  46,-7743 }, {  47,-7743 }, {  48,-7718 },
+ {  49,-7718 }, {  50,-7718 }, {  51,-7718 }, {  52,-7718 }, {  53,-7718 },
+ {  54,-7718 }, {  55,-7718 }, {  56,-7718 }, {  57,-7718 }, {  58,-7718 },
+ {   0,   0 }, {   0,   0 }, {  61,-7743 }, {   0,   0 }, {  63,-7718 },
+ {   0,   0 }, {  65,-7718 }, {  66,-7718 }, {  67,-7718 }, {  68,-7718 },
+ {  69,-7718 }, {  70,-7718 }, {  71,-7718 }, {  72,-7718 }, {  73,-7718 },
+ {  74,-7718 }, {  75,-7718 }, {  76,-7718 }, {  77,-7718 }, {  78,-7718 },
+ {  79,-7718 }, {  80,-7718 }, {  81,-7718 }, {  82,-7718 }, {  83,-7718 },
+
+ {  84,-7718 }, {  85,-7718 }, {  86,-7718 }, {  87,-7718 }, {  88,-7718 },
+ {  89,-7718 }, {  90,-7718 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,-7718 }, {   0,   0 }, {  97,-7718 }, {  98,-7718 },
+ {  99,-7718 }, { 100,-7718 }, { 101,-7718 }, { 102,-7718 }, { 103,-7718 },
+ { 104,-7718 }, { 105,-7718 }, { 106,-7718 }, { 107,-7718 }, { 108,-7718 },
+ { 109,-7718 }, { 110,-7718 }, { 111,-7718 }, { 112,-7718 }, { 113,-7718 },
+ { 114,-7718 }, { 115,-7718 }, { 116,-7718 }, { 117,-7718 }, { 118,-7718 },
+ { 119,-7718 }, { 120,-7718 }, { 121,-7718 }, { 122,-7718 }, {   0,   0 },
+ { 124,-7743 }, { 125,1164 }, { 126,1164 }, { 127,-7718 }, { 128,-7718 },
+ { 129,-7718 }, { 130,-7718 }, { 131,-7718 }, { 132,-7718 }, { 133,-7718 },
+
+ { 134,-7718 }, { 135,-7718 }, { 136,-7718 }, { 137,-7718 }, { 138,-7718 },
+ { 139,-7718 }, { 140,-7718 }, { 141,-7718 }, { 142,-7718 }, { 143,-7718 },
+ { 144,-7718 }, { 145,-7718 }, { 146,-7718 }, { 147,-7718 }, { 148,-7718 },
+ { 149,-7718 }, { 150,-7718 }, { 151,-7718 }, { 152,-7718 }, { 153,-7718 },
+ { 154,-7718 }, { 155,-7718 }, { 156,-7718 }, { 157,-7718 }, { 158,-7718 },
+ { 159,-7718 }, { 160,-7718 }, { 161,-7718 }, { 162,-7718 }, { 163,-7718 },
+ { 164,-7718 }, { 165,-7718 }, { 166,-7718 }, { 167,-7718 }, { 168,-7718 },
+ { 169,-7718 }, { 170,-7718 }, { 171,-7718 }, { 172,-7718 }, { 173,-7718 },
+ { 174,-7718 }, { 175,-7718 }, { 176,-7718 }, { 177,-7718 }, { 178,-7718 },
+ { 179,-7718 }, { 180,-7718 }, { 181,-7718 }, { 182,-7718 }, { 183,-7718 },
+
+ { 184,-7718 }, { 185,-7718 }, { 186,-7718 }, { 187,-7718 }, { 188,-7718 },
+ { 189,-7718 }, { 190,-7718 }, { 191,-7718 }, { 192,-7718 }, { 193,-7718 },
+ { 194,-7718 }, { 195,-7718 }, { 196,-7718 }, { 197,-7718 }, { 198,-7718 },
+ { 199,-7718 }, { 200,-7718 }, { 201,-7718 }, { 202,-7718 }, { 203,-7718 },
+ { 204,-7718 }, { 205,-7718 }, { 206,-7718 }, { 207,-7718 }, { 208,-7718 },
+ { 209,-7718 }, { 210,-7718 }, { 211,-7718 }, { 212,-7718 }, { 213,-7718 },
+ { 214,-7718 }, { 215,-7718 }, { 216,-7718 }, { 217,-7718 }, { 218,-7718 },
+ { 219,-7718 }, { 220,-7718 }, { 221,-7718 }, { 222,-7718 }, { 223,-7718 },
+ { 224,-7718 }, { 225,-7718 }, { 226,-7718 }, { 227,-7718 }, { 228,-7718 },
+ { 229,-7718 }, { 230,-7718 }, { 231,-7718 }, { 232,-7718 }, { 233,-7718 },
+
+ { 234,-7718 }, { 235,-7718 }, { 236,-7718 }, { 237,-7718 }, { 238,-7718 },
+ { 239,-7718 }, { 240,-7718 }, { 241,-7718 }, { 242,-7718 }, { 243,-7718 },
+ { 244,-7718 }, { 245,-7718 }, { 246,-7718 }, { 247,-7718 }, { 248,-7718 },
+ { 249,-7718 }, { 250,-7718 }, { 251,-7718 }, { 252,-7718 }, { 253,-7718 },
+ { 254,-7718 }, { 255,-7718 }, { 256,-7718 }, {   0,   0 }, {   0,3982 },
+ {   1,-7976 }, {   2,-7976 }, {   3,-7976 }, {   4,-7976 }, {   5,-7976 },
+ {   6,-7976 }, {   7,-7976 }, {   8,-7976 }, {   9, 908 }, {  10, 908 },
+ {  11,-7976 }, {  12,-7976 }, {  13, 908 }, {  14,-7976 }, {  15,-7976 },
+ {  16,-7976 }, {  17,-7976 }, {  18,-7976 }, {  19,-7976 }, {  20,-7976 },
+ {  21,-7976 }, {  22,-7976 }, {  23,-7976 }, {  24,-7976 }, {  25,-7976 },
+
+ {  26,-7976 }, {  27,-7976 }, {  28,-7976 }, {  29,-7976 }, {  30,-7976 },
+ {  31,-7976 }, {  32, 908 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  36,-7976 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  41, 908 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-7976 },
+ {  46,-8001 }, {  47,-8001 }, {  48,-7976 }, {  49,-7976 }, {  50,-7976 },
+ {  51,-7976 }, {  52,-7976 }, {  53,-7976 }, {  54,-7976 }, {  55,-7976 },
+ {  56,-7976 }, {  57,-7976 }, {  58,-7976 }, {   0,   0 }, {   0,   0 },
+ {  61,-8001 }, {   0,   0 }, {  63,-7976 }, {   0,   0 }, {  65,-7976 },
+ {  66,-7976 }, {  67,-7976 }, {  68,-7976 }, {  69,-7976 }, {  70,-7976 },
+ {  71,-7976 }, {  72,-7976 }, {  73,-7976 }, {  74,-7976 }, {  75,-7976 },
+
+ {  76,-7976 }, {  77,-7976 }, {  78,-7976 }, {  79,-7976 }, {  80,-7976 },
+ {  81,-7976 }, {  82,-7976 }, {  83,-7976 }, {  84,-7976 }, {  85,-7976 },
+ {  86,-7976 }, {  87,-7976 }, {  88,-7976 }, {  89,-7976 }, {  90,-7976 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-7976 },
+ {   0,   0 }, {  97,-7976 }, {  98,-7976 }, {  99,-7976 }, { 100,-7976 },
+ { 101,-7976 }, { 102,-7976 }, { 103,-7976 }, { 104,-7976 }, { 105,-7976 },
+ { 106,-7976 }, { 107,-7976 }, { 108,-7976 }, { 109,-7976 }, { 110,-7976 },
+ { 111,-7976 }, { 112,-7976 }, { 113,-7976 }, { 114,-7976 }, { 115,-7976 },
+ { 116,-7976 }, { 117,-7976 }, { 118,-7976 }, { 119,-7976 }, { 120,-7976 },
+ { 121,-7976 }, { 122,-7976 }, {   0,   0 }, { 124,-8001 }, { 125, 908 },
+
+ { 126, 908 }, { 127,-7976 }, { 128,-7976 }, { 129,-7976 }, { 130,-7976 },
+ { 131,-7976 }, { 132,-7976 }, { 133,-7976 }, { 134,-7976 }, { 135,-7976 },
+ { 136,-7976 }, { 137,-7976 }, { 138,-7976 }, { 139,-7976 }, { 140,-7976 },
+ { 141,-7976 }, { 142,-7976 }, { 143,-7976 }, { 144,-7976 }, { 145,-7976 },
+ { 146,-7976 }, { 147,-7976 }, { 148,-7976 }, { 149,-7976 }, { 150,-7976 },
+ { 151,-7976 }, { 152,-7976 }, { 153,-7976 }, { 154,-7976 }, { 155,-7976 },
+ { 156,-7976 }, { 157,-7976 }, { 158,-7976 }, { 159,-7976 }, { 160,-7976 },
+ { 161,-7976 }, { 162,-7976 }, { 163,-7976 }, { 164,-7976 }, { 165,-7976 },
+ { 166,-7976 }, { 167,-7976 }, { 168,-7976 }, { 169,-7976 }, { 170,-7976 },
+ { 171,-7976 }, { 172,-7976 }, { 173,-7976 }, { 174,-7976 }, { 175,-7976 },
+
+ { 176,-7976 }, { 177,-7976 }, { 178,-7976 }, { 179,-7976 }, { 180,-7976 },
+ { 181,-7976 }, { 182,-7976 }, { 183,-7976 }, { 184,-7976 }, { 185,-7976 },
+ { 186,-7976 }, { 187,-7976 }, { 188,-7976 }, { 189,-7976 }, { 190,-7976 },
+ { 191,-7976 }, { 192,-7976 }, { 193,-7976 }, { 194,-7976 }, { 195,-7976 },
+ { 196,-7976 }, { 197,-7976 }, { 198,-7976 }, { 199,-7976 }, { 200,-7976 },
+ { 201,-7976 }, { 202,-7976 }, { 203,-7976 }, { 204,-7976 }, { 205,-7976 },
+ { 206,-7976 }, { 207,-7976 }, { 208,-7976 }, { 209,-7976 }, { 210,-7976 },
+ { 211,-7976 }, { 212,-7976 }, { 213,-7976 }, { 214,-7976 }, { 215,-7976 },
+ { 216,-7976 }, { 217,-7976 }, { 218,-7976 }, { 219,-7976 }, { 220,-7976 },
+ { 221,-7976 }, { 222,-7976 }, { 223,-7976 }, { 224,-7976 }, { 225,-7976 },
+
+ { 226,-7976 }, { 227,-7976 }, { 228,-7976 }, { 229,-7976 }, { 230,-7976 },
+ { 231,-7976 }, { 232,-7976 }, { 233,-7976 }, { 234,-7976 }, { 235,-7976 },
+ { 236,-7976 }, { 237,-7976 }, { 238,-7976 }, { 239,-7976 }, { 240,-7976 },
+ { 241,-7976 }, { 242,-7976 }, { 243,-7976 }, { 244,-7976 }, { 245,-7976 },
+ { 246,-7976 }, { 247,-7976 }, { 248,-7976 }, { 249,-7976 }, { 250,-7976 },
+ { 251,-7976 }, { 252,-7976 }, { 253,-7976 }, { 254,-7976 }, { 255,-7976 },
+ { 256,-7976 }, {   0,   0 }, {   0,3724 }, {   1,-8234 }, {   2,-8234 },
+ {   3,-8234 }, {   4,-8234 }, {   5,-8234 }, {   6,-8234 }, {   7,-8234 },
+ {   8,-8234 }, {   9,-8259 }, {  10,-8259 }, {  11,-8234 }, {  12,-8234 },
+ {  13,-8259 }, {  14,-8234 }, {  15,-8234 }, {  16,-8234 }, {  17,-8234 },
+
+ {  18,-8234 }, {  19,-8234 }, {  20,-8234 }, {  21,-8234 }, {  22,-8234 },
+ {  23,-8234 }, {  24,-8234 }, {  25,-8234 }, {  26,-8234 }, {  27,-8234 },
+ {  28,-8234 }, {  29,-8234 }, {  30,-8234 }, {  31,-8234 }, {  32,-8259 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-8234 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-8259 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,-8234 }, {  46,-8259 }, {  47,-8259 },
+ {  48,-8234 }, {  49,-8234 }, {  50,-8234 }, {  51,-8234 }, {  52,-8234 },
+ {  53,-8234 }, {  54,-8234 }, {  55,-8234 }, {  56,-8234 }, {  57,-8234 },
+ {  58,-8234 }, {   0,   0 }, {   0,   0 }, {  61,-8259 }, {   0,   0 },
+ {  63,-8234 }, {   0,   0 }, {  65,-8234 }, {  66,-8234 }, {  67,-8234 },
+
+ {  68,-8234 }, {  69,-8234 }, {  70,-8234 }, {  71,-8234 }, {  72,-8234 },
+ {  73,-8234 }, {  74,-8234 }, {  75,-8234 }, {  76,-8234 }, {  77,-8234 },
+ {  78,-8234 }, {  79,-8234 }, {  80,-8234 }, {  81,-8234 }, {  82,-8234 },
+ {  83,-8234 }, {  84,-8234 }, {  85,-8234 }, {  86,-8234 }, {  87,-8234 },
+ {  88,-8234 }, {  89,-8234 }, {  90,-8234 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  95,-8234 }, {   0,   0 }, {  97,-8234 },
+ {  98,-8234 }, {  99,-8234 }, { 100,-8234 }, { 101,-8234 }, { 102, 929 },
+ { 103,-8234 }, { 104,-8234 }, { 105,-8234 }, { 106,-8234 }, { 107,-8234 },
+ { 108,-8234 }, { 109,-8234 }, { 110,-8234 }, { 111,-8234 }, { 112,-8234 },
+ { 113,-8234 }, { 114,-8234 }, { 115,-8234 }, { 116,-8234 }, { 117,-8234 },
+
+ { 118,-8234 }, { 119,-8234 }, { 120,-8234 }, { 121,-8234 }, { 122,-8234 },
+ {   0,   0 }, { 124,-8259 }, { 125,-8259 }, { 126,-8259 }, { 127,-8234 },
+ { 128,-8234 }, { 129,-8234 }, { 130,-8234 }, { 131,-8234 }, { 132,-8234 },
+ { 133,-8234 }, { 134,-8234 }, { 135,-8234 }, { 136,-8234 }, { 137,-8234 },
+ { 138,-8234 }, { 139,-8234 }, { 140,-8234 }, { 141,-8234 }, { 142,-8234 },
+ { 143,-8234 }, { 144,-8234 }, { 145,-8234 }, { 146,-8234 }, { 147,-8234 },
+ { 148,-8234 }, { 149,-8234 }, { 150,-8234 }, { 151,-8234 }, { 152,-8234 },
+ { 153,-8234 }, { 154,-8234 }, { 155,-8234 }, { 156,-8234 }, { 157,-8234 },
+ { 158,-8234 }, { 159,-8234 }, { 160,-8234 }, { 161,-8234 }, { 162,-8234 },
+ { 163,-8234 }, { 164,-8234 }, { 165,-8234 }, { 166,-8234 }, { 167,-8234 },
+
+ { 168,-8234 }, { 169,-8234 }, { 170,-8234 }, { 171,-8234 }, { 172,-8234 },
+ { 173,-8234 }, { 174,-8234 }, { 175,-8234 }, { 176,-8234 }, { 177,-8234 },
+ { 178,-8234 }, { 179,-8234 }, { 180,-8234 }, { 181,-8234 }, { 182,-8234 },
+ { 183,-8234 }, { 184,-8234 }, { 185,-8234 }, { 186,-8234 }, { 187,-8234 },
+ { 188,-8234 }, { 189,-8234 }, { 190,-8234 }, { 191,-8234 }, { 192,-8234 },
+ { 193,-8234 }, { 194,-8234 }, { 195,-8234 }, { 196,-8234 }, { 197,-8234 },
+ { 198,-8234 }, { 199,-8234 }, { 200,-8234 }, { 201,-8234 }, { 202,-8234 },
+ { 203,-8234 }, { 204,-8234 }, { 205,-8234 }, { 206,-8234 }, { 207,-8234 },
+ { 208,-8234 }, { 209,-8234 }, { 210,-8234 }, { 211,-8234 }, { 212,-8234 },
+ { 213,-8234 }, { 214,-8234 }, { 215,-8234 }, { 216,-8234 }, { 217,-8234 },
+
+ { 218,-8234 }, { 219,-8234 }, { 220,-8234 }, { 221,-8234 }, { 222,-8234 },
+ { 223,-8234 }, { 224,-8234 }, { 225,-8234 }, { 226,-8234 }, { 227,-8234 },
+ { 228,-8234 }, { 229,-8234 }, { 230,-8234 }, { 231,-8234 }, { 232,-8234 },
+ { 233,-8234 }, { 234,-8234 }, { 235,-8234 }, { 236,-8234 }, { 237,-8234 },
+ { 238,-8234 }, { 239,-8234 }, { 240,-8234 }, { 241,-8234 }, { 242,-8234 },
+ { 243,-8234 }, { 244,-8234 }, { 245,-8234 }, { 246,-8234 }, { 247,-8234 },
+ { 248,-8234 }, { 249,-8234 }, { 250,-8234 }, { 251,-8234 }, { 252,-8234 },
+ { 253,-8234 }, { 254,-8234 }, { 255,-8234 }, { 256,-8234 }, {   0,   0 },
+ {   0,3466 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,   0 },
+
+ {  10,   0 }, {   0,   0 }, {   0,   0 }, {  13,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 125,-1639 }, { 126,-1066 }, {   0,   0 }, {   0,3338 }, {   1, 277 },
+ {   2, 277 }, {   3, 277 }, {   4, 277 }, {   5, 277 }, {   6, 277 },
+ {   7, 277 }, {   8, 277 }, {   9, 277 }, {  10, 277 }, {  11, 277 },
+ {  12, 277 }, {  13, 277 }, {  14, 277 }, {  15, 277 }, {  16, 277 },
+ {  17, 277 }, {  18, 277 }, {  19, 277 }, {  20, 277 }, {  21, 277 },
+ {  22, 277 }, {  23, 277 }, {  24, 277 }, {  25, 277 }, {  26, 277 },
+ {  27, 277 }, {  28, 277 }, {  29, 277 }, {  30, 277 }, {  31, 277 },
+
+ {  32, 277 }, {  33, 277 }, {  34, 277 }, {  35, 277 }, {  36, 277 },
+ {  37, 277 }, {  38, 277 }, {  39, 277 }, {  40, 277 }, {  41, 277 },
+ {  42, 277 }, {  43, 277 }, {  44, 277 }, {  45, 277 }, {  46, 277 },
+ {  47,1059 }, {  48, 277 }, {  49, 277 }, {  50, 277 }, {  51, 277 },
+ {  52, 277 }, {  53, 277 }, {  54, 277 }, {  55, 277 }, {  56, 277 },
+ {  57, 277 }, {  58, 277 }, {  59, 277 }, {  60, 277 }, {  61, 277 },
+ {  62, 277 }, {  63, 277 }, {  64, 277 }, {  65, 277 }, {  66, 277 },
+ {  67, 277 }, {  68, 277 }, {  69, 277 }, {  70, 277 }, {  71, 277 },
+ {  72, 277 }, {  73, 277 }, {  74, 277 }, {  75, 277 }, {  76, 277 },
+ {  77, 277 }, {  78, 277 }, {  79, 277 }, {  80, 277 }, {  81, 277 },
+
+ {  82, 277 }, {  83, 277 }, {  84, 277 }, {  85, 277 }, {  86, 277 },
+ {  87, 277 }, {  88, 277 }, {  89, 277 }, {  90, 277 }, {  91, 277 },
+ {  92, 277 }, {  93, 277 }, {  94, 277 }, {  95, 277 }, {  96, 277 },
+ {  97, 277 }, {  98, 277 }, {  99, 277 }, { 100, 277 }, { 101, 277 },
+ { 102, 277 }, { 103, 277 }, { 104, 277 }, { 105, 277 }, { 106, 277 },
+ { 107, 277 }, { 108, 277 }, { 109, 277 }, { 110, 277 }, { 111, 277 },
+ { 112, 277 }, { 113, 277 }, { 114, 277 }, { 115, 277 }, { 116, 277 },
+ { 117, 277 }, { 118, 277 }, { 119, 277 }, { 120, 277 }, { 121, 277 },
+ { 122, 277 }, { 123, 277 }, { 124, 277 }, { 125, 277 }, { 126, 277 },
+ { 127, 277 }, { 128, 277 }, { 129, 277 }, { 130, 277 }, { 131, 277 },
+
+ { 132, 277 }, { 133, 277 }, { 134, 277 }, { 135, 277 }, { 136, 277 },
+ { 137, 277 }, { 138, 277 }, { 139, 277 }, { 140, 277 }, { 141, 277 },
+ { 142, 277 }, { 143, 277 }, { 144, 277 }, { 145, 277 }, { 146, 277 },
+ { 147, 277 }, { 148, 277 }, { 149, 277 }, { 150, 277 }, { 151, 277 },
+ { 152, 277 }, { 153, 277 }, { 154, 277 }, { 155, 277 }, { 156, 277 },
+ { 157, 277 }, { 158, 277 }, { 159, 277 }, { 160, 277 }, { 161, 277 },
+ { 162, 277 }, { 163, 277 }, { 164, 277 }, { 165, 277 }, { 166, 277 },
+ { 167, 277 }, { 168, 277 }, { 169, 277 }, { 170, 277 }, { 171, 277 },
+ { 172, 277 }, { 173, 277 }, { 174, 277 }, { 175, 277 }, { 176, 277 },
+ { 177, 277 }, { 178, 277 }, { 179, 277 }, { 180, 277 }, { 181, 277 },
+
+ { 182, 277 }, { 183, 277 }, { 184, 277 }, { 185, 277 }, { 186, 277 },
+ { 187, 277 }, { 188, 277 }, { 189, 277 }, { 190, 277 }, { 191, 277 },
+ { 192, 277 }, { 193, 277 }, { 194, 277 }, { 195, 277 }, { 196, 277 },
+ { 197, 277 }, { 198, 277 }, { 199, 277 }, { 200, 277 }, { 201, 277 },
+ { 202, 277 }, { 203, 277 }, { 204, 277 }, { 205, 277 }, { 206, 277 },
+ { 207, 277 }, { 208, 277 }, { 209, 277 }, { 210, 277 }, { 211, 277 },
+ { 212, 277 }, { 213, 277 }, { 214, 277 }, { 215, 277 }, { 216, 277 },
+ { 217, 277 }, { 218, 277 }, { 219, 277 }, { 220, 277 }, { 221, 277 },
+ { 222, 277 }, { 223, 277 }, { 224, 277 }, { 225, 277 }, { 226, 277 },
+ { 227, 277 }, { 228, 277 }, { 229, 277 }, { 230, 277 }, { 231, 277 },
+
+ { 232, 277 }, { 233, 277 }, { 234, 277 }, { 235, 277 }, { 236, 277 },
+ { 237, 277 }, { 238, 277 }, { 239, 277 }, { 240, 277 }, { 241, 277 },
+ { 242, 277 }, { 243, 277 }, { 244, 277 }, { 245, 277 }, { 246, 277 },
+ { 247, 277 }, { 248, 277 }, { 249, 277 }, { 250, 277 }, { 251, 277 },
+ { 252, 277 }, { 253, 277 }, { 254, 277 }, { 255, 277 }, { 256, 277 },
+ {   0,   1 }, {   0,3080 }, {   0,   1 }, {   0,3078 }, {   0,  46 },
+ {   0,3076 }, {   0,  43 }, {   0,3074 }, {   0,  28 }, {   0,3072 },
+ {   0,  22 }, {   0,3070 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,3063 }, {   0,   8 },
+ {   0,3061 }, {   0,   1 }, {   0,3059 }, {   0,  44 }, {   0,3057 },
+
+ {   0,   0 }, {   0,3055 }, {   0,   0 }, {   0,3053 }, {   1,-8905 },
+ {   2,-8905 }, {   3,-8905 }, {   4,-8905 }, {   5,-8905 }, {   6,-8905 },
+ {   7,-8905 }, {   8,-8905 }, {   9,  -4 }, {  10,  -4 }, {  11,-8905 },
+ {  12,-8905 }, {  13,  -4 }, {  14,-8905 }, {  15,-8905 }, {  16,-8905 },
+ {  17,-8905 }, {  18,-8905 }, {  19,-8905 }, {  20,-8905 }, {  21,-8905 },
+ {  22,-8905 }, {  23,-8905 }, {  24,-8905 }, {  25,-8905 }, {  26,-8905 },
+ {  27,-8905 }, {  28,-8905 }, {  29,-8905 }, {  30,-8905 }, {  31,-8905 },
+ {  32,  -4 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-8905 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,  -4 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-8905 }, {  46,-8930 },
+
+ {  47,-8930 }, {  48,-8905 }, {  49,-8905 }, {  50,-8905 }, {  51,-8905 },
+ {  52,-8905 }, {  53,-8905 }, {  54,-8905 }, {  55,-8905 }, {  56,-8905 },
+ {  57,-8905 }, {  58,-8905 }, {   0,   0 }, {   0,   0 }, {  61,-8930 },
+ {   0,   0 }, {  63,-8905 }, {   0,   0 }, {  65,-8905 }, {  66,-8905 },
+ {  67,-8905 }, {  68,-8905 }, {  69,-8905 }, {  70,-8905 }, {  71,-8905 },
+ {  72,-8905 }, {  73,-8905 }, {  74,-8905 }, {  75,-8905 }, {  76,-8905 },
+ {  77,-8905 }, {  78,-8905 }, {  79,-8905 }, {  80,-8905 }, {  81,-8905 },
+ {  82,-8905 }, {  83,-8905 }, {  84,-8905 }, {  85,-8905 }, {  86,-8905 },
+ {  87,-8905 }, {  88,-8905 }, {  89,-8905 }, {  90,-8905 }, { 101,1300 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-8905 }, { 123,  21 },
+
+ {  97,-8905 }, {  98,-8905 }, {  99,-8905 }, { 100,-8905 }, { 101,-8905 },
+ { 102,-8905 }, { 103,-8905 }, { 104,-8905 }, { 105,-8905 }, { 106,-8905 },
+ { 107,-8905 }, { 108,-8905 }, { 109,-8905 }, { 110,-8905 }, { 111,-8905 },
+ { 112,-8905 }, { 113,-8905 }, { 114,-8905 }, { 115,-8905 }, { 116,-8905 },
+ { 117,-8905 }, { 118,-8905 }, { 119,-8905 }, { 120,-8905 }, { 121,-8905 },
+ { 122,-8905 }, { 125,2460 }, { 124,-8930 }, { 125,  -4 }, { 126,  -4 },
+ { 127,-8905 }, { 128,-8905 }, { 129,-8905 }, { 130,-8905 }, { 131,-8905 },
+ { 132,-8905 }, { 133,-8905 }, { 134,-8905 }, { 135,-8905 }, { 136,-8905 },
+ { 137,-8905 }, { 138,-8905 }, { 139,-8905 }, { 140,-8905 }, { 141,-8905 },
+ { 142,-8905 }, { 143,-8905 }, { 144,-8905 }, { 145,-8905 }, { 146,-8905 },
+
+ { 147,-8905 }, { 148,-8905 }, { 149,-8905 }, { 150,-8905 }, { 151,-8905 },
+ { 152,-8905 }, { 153,-8905 }, { 154,-8905 }, { 155,-8905 }, { 156,-8905 },
+ { 157,-8905 }, { 158,-8905 }, { 159,-8905 }, { 160,-8905 }, { 161,-8905 },
+ { 162,-8905 }, { 163,-8905 }, { 164,-8905 }, { 165,-8905 }, { 166,-8905 },
+ { 167,-8905 }, { 168,-8905 }, { 169,-8905 }, { 170,-8905 }, { 171,-8905 },
+ { 172,-8905 }, { 173,-8905 }, { 174,-8905 }, { 175,-8905 }, { 176,-8905 },
+ { 177,-8905 }, { 178,-8905 }, { 179,-8905 }, { 180,-8905 }, { 181,-8905 },
+ { 182,-8905 }, { 183,-8905 }, { 184,-8905 }, { 185,-8905 }, { 186,-8905 },
+ { 187,-8905 }, { 188,-8905 }, { 189,-8905 }, { 190,-8905 }, { 191,-8905 },
+ { 192,-8905 }, { 193,-8905 }, { 194,-8905 }, { 195,-8905 }, { 196,-8905 },
+
+ { 197,-8905 }, { 198,-8905 }, { 199,-8905 }, { 200,-8905 }, { 201,-8905 },
+ { 202,-8905 }, { 203,-8905 }, { 204,-8905 }, { 205,-8905 }, { 206,-8905 },
+ { 207,-8905 }, { 208,-8905 }, { 209,-8905 }, { 210,-8905 }, { 211,-8905 },
+ { 212,-8905 }, { 213,-8905 }, { 214,-8905 }, { 215,-8905 }, { 216,-8905 },
+ { 217,-8905 }, { 218,-8905 }, { 219,-8905 }, { 220,-8905 }, { 221,-8905 },
+ { 222,-8905 }, { 223,-8905 }, { 224,-8905 }, { 225,-8905 }, { 226,-8905 },
+ { 227,-8905 }, { 228,-8905 }, { 229,-8905 }, { 230,-8905 }, { 231,-8905 },
+ { 232,-8905 }, { 233,-8905 }, { 234,-8905 }, { 235,-8905 }, { 236,-8905 },
+ { 237,-8905 }, { 238,-8905 }, { 239,-8905 }, { 240,-8905 }, { 241,-8905 },
+ { 242,-8905 }, { 243,-8905 }, { 244,-8905 }, { 245,-8905 }, { 246,-8905 },
+
+ { 247,-8905 }, { 248,-8905 }, { 249,-8905 }, { 250,-8905 }, { 251,-8905 },
+ { 252,-8905 }, { 253,-8905 }, { 254,-8905 }, { 255,-8905 }, { 256,-8905 },
+ {   0,   0 }, {   0,2795 }, {   1,-9163 }, {   2,-9163 }, {   3,-9163 },
+ {   4,-9163 }, {   5,-9163 }, {   6,-9163 }, {   7,-9163 }, {   8,-9163 },
+ {   9,-9188 }, {  10,-9188 }, {  11,-9163 }, {  12,-9163 }, {  13,-9188 },
+ {  14,-9163 }, {  15,-9163 }, {  16,-9163 }, {  17,-9163 }, {  18,-9163 },
+ {  19,-9163 }, {  20,-9163 }, {  21,-9163 }, {  22,-9163 }, {  23,-9163 },
+ {  24,-9163 }, {  25,-9163 }, {  26,-9163 }, {  27,-9163 }, {  28,-9163 },
+ {  29,-9163 }, {  30,-9163 }, {  31,-9163 }, {  32,-9188 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,-9163 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {  41,-9188 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,-9163 }, {  46,-9188 }, {  47,-9188 }, {  48,-9163 },
+ {  49,-9163 }, {  50,-9163 }, {  51,-9163 }, {  52,-9163 }, {  53,-9163 },
+ {  54,-9163 }, {  55,-9163 }, {  56,-9163 }, {  57,-9163 }, {  58,-9163 },
+ {   0,   0 }, {   0,   0 }, {  61,-9188 }, {   0,   0 }, {  63,-9163 },
+ {   0,   0 }, {  65,-9163 }, {  66,-9163 }, {  67,-9163 }, {  68,-9163 },
+ {  69,-9163 }, {  70,-9163 }, {  71,-9163 }, {  72,-9163 }, {  73,-9163 },
+ {  74,-9163 }, {  75,-9163 }, {  76,-9163 }, {  77,-9163 }, {  78,-9163 },
+ {  79,-9163 }, {  80,-9163 }, {  81,-9163 }, {  82,-9163 }, {  83,-9163 },
+ {  84,-9163 }, {  85,-9163 }, {  86,-9163 }, {  87,-9163 }, {  88,-9163 },
+
+ {  89,-9163 }, {  90,-9163 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,-9163 }, {   0,   0 }, {  97,-9163 }, {  98,-9163 },
+ {  99,-9163 }, { 100,-9163 }, { 101,-9163 }, { 102,-9163 }, { 103,-9163 },
+ { 104,-9163 }, { 105, 774 }, { 106,-9163 }, { 107,-9163 }, { 108,-9163 },
+ { 109,-9163 }, { 110,-9163 }, { 111,-9163 }, { 112,-9163 }, { 113,-9163 },
+ { 114,-9163 }, { 115,-9163 }, { 116,-9163 }, { 117,-9163 }, { 118,-9163 },
+ { 119,-9163 }, { 120,-9163 }, { 121,-9163 }, { 122,-9163 }, {   0,   0 },
+ { 124,-9188 }, { 125,-9188 }, { 126,-9188 }, { 127,-9163 }, { 128,-9163 },
+ { 129,-9163 }, { 130,-9163 }, { 131,-9163 }, { 132,-9163 }, { 133,-9163 },
+ { 134,-9163 }, { 135,-9163 }, { 136,-9163 }, { 137,-9163 }, { 138,-9163 },
+
+ { 139,-9163 }, { 140,-9163 }, { 141,-9163 }, { 142,-9163 }, { 143,-9163 },
+ { 144,-9163 }, { 145,-9163 }, { 146,-9163 }, { 147,-9163 }, { 148,-9163 },
+ { 149,-9163 }, { 150,-9163 }, { 151,-9163 }, { 152,-9163 }, { 153,-9163 },
+ { 154,-9163 }, { 155,-9163 }, { 156,-9163 }, { 157,-9163 }, { 158,-9163 },
+ { 159,-9163 }, { 160,-9163 }, { 161,-9163 }, { 162,-9163 }, { 163,-9163 },
+ { 164,-9163 }, { 165,-9163 }, { 166,-9163 }, { 167,-9163 }, { 168,-9163 },
+ { 169,-9163 }, { 170,-9163 }, { 171,-9163 }, { 172,-9163 }, { 173,-9163 },
+ { 174,-9163 }, { 175,-9163 }, { 176,-9163 }, { 177,-9163 }, { 178,-9163 },
+ { 179,-9163 }, { 180,-9163 }, { 181,-9163 }, { 182,-9163 }, { 183,-9163 },
+ { 184,-9163 }, { 185,-9163 }, { 186,-9163 }, { 187,-9163 }, { 188,-9163 },
+
+ { 189,-9163 }, { 190,-9163 }, { 191,-9163 }, { 192,-9163 }, { 193,-9163 },
+ { 194,-9163 }, { 195,-9163 }, { 196,-9163 }, { 197,-9163 }, { 198,-9163 },
+ { 199,-9163 }, { 200,-9163 }, { 201,-9163 }, { 202,-9163 }, { 203,-9163 },
+ { 204,-9163 }, { 205,-9163 }, { 206,-9163 }, { 207,-9163 }, { 208,-9163 },
+ { 209,-9163 }, { 210,-9163 }, { 211,-9163 }, { 212,-9163 }, { 213,-9163 },
+ { 214,-9163 }, { 215,-9163 }, { 216,-9163 }, { 217,-9163 }, { 218,-9163 },
+ { 219,-9163 }, { 220,-9163 }, { 221,-9163 }, { 222,-9163 }, { 223,-9163 },
+ { 224,-9163 }, { 225,-9163 }, { 226,-9163 }, { 227,-9163 }, { 228,-9163 },
+ { 229,-9163 }, { 230,-9163 }, { 231,-9163 }, { 232,-9163 }, { 233,-9163 },
+ { 234,-9163 }, { 235,-9163 }, { 236,-9163 }, { 237,-9163 }, { 238,-9163 },
+
+ { 239,-9163 }, { 240,-9163 }, { 241,-9163 }, { 242,-9163 }, { 243,-9163 },
+ { 244,-9163 }, { 245,-9163 }, { 246,-9163 }, { 247,-9163 }, { 248,-9163 },
+ { 249,-9163 }, { 250,-9163 }, { 251,-9163 }, { 252,-9163 }, { 253,-9163 },
+ { 254,-9163 }, { 255,-9163 }, { 256,-9163 }, {   0,   0 }, {   0,2537 },
+ {   1, 902 }, {   2, 902 }, {   3, 902 }, {   4, 902 }, {   5, 902 },
+ {   6, 902 }, {   7, 902 }, {   8, 902 }, {   9, 902 }, {  10, 902 },
+ {  11, 902 }, {  12, 902 }, {  13, 902 }, {  14, 902 }, {  15, 902 },
+ {  16, 902 }, {  17, 902 }, {  18, 902 }, {  19, 902 }, {  20, 902 },
+ {  21, 902 }, {  22, 902 }, {  23, 902 }, {  24, 902 }, {  25, 902 },
+ {  26, 902 }, {  27, 902 }, {  28, 902 }, {  29, 902 }, {  30, 902 },
+
+ {  31, 902 }, {  32, 902 }, {  33, 902 }, {  34, 902 }, {  35, 902 },
+ {  36, 902 }, {  37, 902 }, {  38, 902 }, {  39, 902 }, {  40, 902 },
+ {  41, 902 }, {  42, 902 }, {  43, 902 }, {  44, 902 }, {  45,1160 },
+ {  46, 902 }, {  47, 902 }, {  48, 902 }, {  49, 902 }, {  50, 902 },
+ {  51, 902 }, {  52, 902 }, {  53, 902 }, {  54, 902 }, {  55, 902 },
+ {  56, 902 }, {  57, 902 }, {  58, 902 }, {  59, 902 }, {  60, 902 },
+ {  61, 902 }, {  62, 902 }, {  63, 902 }, {  64, 902 }, {  65, 902 },
+ {  66, 902 }, {  67, 902 }, {  68, 902 }, {  69, 902 }, {  70, 902 },
+ {  71, 902 }, {  72, 902 }, {  73, 902 }, {  74, 902 }, {  75, 902 },
+ {  76, 902 }, {  77, 902 }, {  78, 902 }, {  79, 902 }, {  80, 902 },
+
+ {  81, 902 }, {  82, 902 }, {  83, 902 }, {  84, 902 }, {  85, 902 },
+ {  86, 902 }, {  87, 902 }, {  88, 902 }, {  89, 902 }, {  90, 902 },
+ {  91, 902 }, {  92, 902 }, {  93, 902 }, {  94, 902 }, {  95, 902 },
+ {  96, 902 }, {  97, 902 }, {  98, 902 }, {  99, 902 }, { 100, 902 },
+ { 101, 902 }, { 102, 902 }, { 103, 902 }, { 104, 902 }, { 105, 902 },
+ { 106, 902 }, { 107, 902 }, { 108, 902 }, { 109, 902 }, { 110, 902 },
+ { 111, 902 }, { 112, 902 }, { 113, 902 }, { 114, 902 }, { 115, 902 },
+ { 116, 902 }, { 117, 902 }, { 118, 902 }, { 119, 902 }, { 120, 902 },
+ { 121, 902 }, { 122, 902 }, { 123, 902 }, { 124, 902 }, { 125, 902 },
+ { 126, 902 }, { 127, 902 }, { 128, 902 }, { 129, 902 }, { 130, 902 },
+
+ { 131, 902 }, { 132, 902 }, { 133, 902 }, { 134, 902 }, { 135, 902 },
+ { 136, 902 }, { 137, 902 }, { 138, 902 }, { 139, 902 }, { 140, 902 },
+ { 141, 902 }, { 142, 902 }, { 143, 902 }, { 144, 902 }, { 145, 902 },
+ { 146, 902 }, { 147, 902 }, { 148, 902 }, { 149, 902 }, { 150, 902 },
+ { 151, 902 }, { 152, 902 }, { 153, 902 }, { 154, 902 }, { 155, 902 },
+ { 156, 902 }, { 157, 902 }, { 158, 902 }, { 159, 902 }, { 160, 902 },
+ { 161, 902 }, { 162, 902 }, { 163, 902 }, { 164, 902 }, { 165, 902 },
+ { 166, 902 }, { 167, 902 }, { 168, 902 }, { 169, 902 }, { 170, 902 },
+ { 171, 902 }, { 172, 902 }, { 173, 902 }, { 174, 902 }, { 175, 902 },
+ { 176, 902 }, { 177, 902 }, { 178, 902 }, { 179, 902 }, { 180, 902 },
+
+ { 181, 902 }, { 182, 902 }, { 183, 902 }, { 184, 902 }, { 185, 902 },
+ { 186, 902 }, { 187, 902 }, { 188, 902 }, { 189, 902 }, { 190, 902 },
+ { 191, 902 }, { 192, 902 }, { 193, 902 }, { 194, 902 }, { 195, 902 },
+ { 196, 902 }, { 197, 902 }, { 198, 902 }, { 199, 902 }, { 200, 902 },
+ { 201, 902 }, { 202, 902 }, { 203, 902 }, { 204, 902 }, { 205, 902 },
+ { 206, 902 }, { 207, 902 }, { 208, 902 }, { 209, 902 }, { 210, 902 },
+ { 211, 902 }, { 212, 902 }, { 213, 902 }, { 214, 902 }, { 215, 902 },
+ { 216, 902 }, { 217, 902 }, { 218, 902 }, { 219, 902 }, { 220, 902 },
+ { 221, 902 }, { 222, 902 }, { 223, 902 }, { 224, 902 }, { 225, 902 },
+ { 226, 902 }, { 227, 902 }, { 228, 902 }, { 229, 902 }, { 230, 902 },
+
+ { 231, 902 }, { 232, 902 }, { 233, 902 }, { 234, 902 }, { 235, 902 },
+ { 236, 902 }, { 237, 902 }, { 238, 902 }, { 239, 902 }, { 240, 902 },
+ { 241, 902 }, { 242, 902 }, { 243, 902 }, { 244, 902 }, { 245, 902 },
+ { 246, 902 }, { 247, 902 }, { 248, 902 }, { 249, 902 }, { 250, 902 },
+ { 251, 902 }, { 252, 902 }, { 253, 902 }, { 254, 902 }, { 255, 902 },
+ { 256, 902 }, {   0,   0 }, {   0,2279 }, {   1,1160 }, {   2,1160 },
+ {   3,1160 }, {   4,1160 }, {   5,1160 }, {   6,1160 }, {   7,1160 },
+ {   8,1160 }, {   0,   0 }, {   0,   0 }, {  11,1160 }, {  12,1160 },
+ {   0,   0 }, {  14,1160 }, {  15,1160 }, {  16,1160 }, {  17,1160 },
+ {  18,1160 }, {  19,1160 }, {  20,1160 }, {  21,1160 }, {  22,1160 },
+
+ {  23,1160 }, {  24,1160 }, {  25,1160 }, {  26,1160 }, {  27,1160 },
+ {  28,1160 }, {  29,1160 }, {  30,1160 }, {  31,1160 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,1160 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,1160 }, {   0,   0 }, {   0,   0 },
+ {  48,1160 }, {  49,1160 }, {  50,1160 }, {  51,1160 }, {  52,1160 },
+ {  53,1160 }, {  54,1160 }, {  55,1160 }, {  56,1160 }, {  57,1160 },
+ {  58,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  63,1160 }, {   0,   0 }, {  65,1160 }, {  66,1160 }, {  67,1160 },
+ {  68,1160 }, {  69,1160 }, {  70,1160 }, {  71,1160 }, {  72,1160 },
+
+ {  73,1160 }, {  74,1160 }, {  75,1160 }, {  76,1160 }, {  77,1160 },
+ {  78,1160 }, {  79,1160 }, {  80,1160 }, {  81,1160 }, {  82,1160 },
+ {  83,1160 }, {  84,1160 }, {  85,1160 }, {  86,1160 }, {  87,1160 },
+ {  88,1160 }, {  89,1160 }, {  90,1160 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  95,1160 }, {   0,   0 }, {  97,1160 },
+ {  98,1160 }, {  99,1160 }, { 100,1160 }, { 101,1160 }, { 102,1160 },
+ { 103,1160 }, { 104,1160 }, { 105,1160 }, { 106,1160 }, { 107,1160 },
+ { 108,1160 }, { 109,1160 }, { 110,1160 }, { 111,1160 }, { 112,1160 },
+ { 113,1160 }, { 114,1160 }, { 115,1160 }, { 116,1160 }, { 117,1160 },
+ { 118,1160 }, { 119,1160 }, { 120,1160 }, { 121,1160 }, { 122,1160 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 127,1160 },
+ { 128,1160 }, { 129,1160 }, { 130,1160 }, { 131,1160 }, { 132,1160 },
+ { 133,1160 }, { 134,1160 }, { 135,1160 }, { 136,1160 }, { 137,1160 },
+ { 138,1160 }, { 139,1160 }, { 140,1160 }, { 141,1160 }, { 142,1160 },
+ { 143,1160 }, { 144,1160 }, { 145,1160 }, { 146,1160 }, { 147,1160 },
+ { 148,1160 }, { 149,1160 }, { 150,1160 }, { 151,1160 }, { 152,1160 },
+ { 153,1160 }, { 154,1160 }, { 155,1160 }, { 156,1160 }, { 157,1160 },
+ { 158,1160 }, { 159,1160 }, { 160,1160 }, { 161,1160 }, { 162,1160 },
+ { 163,1160 }, { 164,1160 }, { 165,1160 }, { 166,1160 }, { 167,1160 },
+ { 168,1160 }, { 169,1160 }, { 170,1160 }, { 171,1160 }, { 172,1160 },
+
+ { 173,1160 }, { 174,1160 }, { 175,1160 }, { 176,1160 }, { 177,1160 },
+ { 178,1160 }, { 179,1160 }, { 180,1160 }, { 181,1160 }, { 182,1160 },
+ { 183,1160 }, { 184,1160 }, { 185,1160 }, { 186,1160 }, { 187,1160 },
+ { 188,1160 }, { 189,1160 }, { 190,1160 }, { 191,1160 }, { 192,1160 },
+ { 193,1160 }, { 194,1160 }, { 195,1160 }, { 196,1160 }, { 197,1160 },
+ { 198,1160 }, { 199,1160 }, { 200,1160 }, { 201,1160 }, { 202,1160 },
+ { 203,1160 }, { 204,1160 }, { 205,1160 }, { 206,1160 }, { 207,1160 },
+ { 208,1160 }, { 209,1160 }, { 210,1160 }, { 211,1160 }, { 212,1160 },
+ { 213,1160 }, { 214,1160 }, { 215,1160 }, { 216,1160 }, { 217,1160 },
+ { 218,1160 }, { 219,1160 }, { 220,1160 }, { 221,1160 }, { 222,1160 },
+
+ { 223,1160 }, { 224,1160 }, { 225,1160 }, { 226,1160 }, { 227,1160 },
+ { 228,1160 }, { 229,1160 }, { 230,1160 }, { 231,1160 }, { 232,1160 },
+ { 233,1160 }, { 234,1160 }, { 235,1160 }, { 236,1160 }, { 237,1160 },
+ { 238,1160 }, { 239,1160 }, { 240,1160 }, { 241,1160 }, { 242,1160 },
+ { 243,1160 }, { 244,1160 }, { 245,1160 }, { 246,1160 }, { 247,1160 },
+ { 248,1160 }, { 249,1160 }, { 250,1160 }, { 251,1160 }, { 252,1160 },
+ { 253,1160 }, { 254,1160 }, { 255,1160 }, { 256,1160 }, {   0,   0 },
+ {   0,2021 }, {   1,-9937 }, {   2,-9937 }, {   3,-9937 }, {   4,-9937 },
+ {   5,-9937 }, {   6,-9937 }, {   7,-9937 }, {   8,-9937 }, {   9,-9962 },
+ {  10,-9962 }, {  11,-9937 }, {  12,-9937 }, {  13,-9962 }, {  14,-9937 },
+
+ {  15,-9937 }, {  16,-9937 }, {  17,-9937 }, {  18,-9937 }, {  19,-9937 },
+ {  20,-9937 }, {  21,-9937 }, {  22,-9937 }, {  23,-9937 }, {  24,-9937 },
+ {  25,-9937 }, {  26,-9937 }, {  27,-9937 }, {  28,-9937 }, {  29,-9937 },
+ {  30,-9937 }, {  31,-9937 }, {  32,-9962 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  36,-9937 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  41,-9962 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,-9937 }, {  46,-9962 }, {  47,-9962 }, {  48,-9937 }, {  49,-9937 },
+ {  50,-9937 }, {  51,-9937 }, {  52,-9937 }, {  53,-9937 }, {  54,-9937 },
+ {  55,-9937 }, {  56,-9937 }, {  57,-9937 }, {  58,-9937 }, {   0,   0 },
+ {   0,   0 }, {  61,-9962 }, {   0,   0 }, {  63,-9937 }, {   0,   0 },
+
+ {  65,-9937 }, {  66,-9937 }, {  67,-9937 }, {  68,-9937 }, {  69,-9937 },
+ {  70,-9937 }, {  71,-9937 }, {  72,-9937 }, {  73,-9937 }, {  74,-9937 },
+ {  75,-9937 }, {  76,-9937 }, {  77,-9937 }, {  78,-9937 }, {  79,-9937 },
+ {  80,-9937 }, {  81,-9937 }, {  82,-9937 }, {  83,-9937 }, {  84,-9937 },
+ {  85,-9937 }, {  86,-9937 }, {  87,-9937 }, {  88,-9937 }, {  89,-9937 },
+ {  90,-9937 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  95,-9937 }, {   0,   0 }, {  97,-9937 }, {  98,-9937 }, {  99,-9937 },
+ { 100,-9937 }, { 101,-9937 }, { 102,-9937 }, { 103,-9937 }, { 104,-9937 },
+ { 105,-9937 }, { 106,-9937 }, { 107,-9937 }, { 108,-9937 }, { 109,-9937 },
+ { 110,1160 }, { 111,-9937 }, { 112,-9937 }, { 113,-9937 }, { 114,-9937 },
+
+ { 115,-9937 }, { 116,-9937 }, { 117,-9937 }, { 118,-9937 }, { 119,-9937 },
+ { 120,-9937 }, { 121,-9937 }, { 122,-9937 }, {   0,   0 }, { 124,-9962 },
+ { 125,-9962 }, { 126,-9962 }, { 127,-9937 }, { 128,-9937 }, { 129,-9937 },
+ { 130,-9937 }, { 131,-9937 }, { 132,-9937 }, { 133,-9937 }, { 134,-9937 },
+ { 135,-9937 }, { 136,-9937 }, { 137,-9937 }, { 138,-9937 }, { 139,-9937 },
+ { 140,-9937 }, { 141,-9937 }, { 142,-9937 }, { 143,-9937 }, { 144,-9937 },
+ { 145,-9937 }, { 146,-9937 }, { 147,-9937 }, { 148,-9937 }, { 149,-9937 },
+ { 150,-9937 }, { 151,-9937 }, { 152,-9937 }, { 153,-9937 }, { 154,-9937 },
+ { 155,-9937 }, { 156,-9937 }, { 157,-9937 }, { 158,-9937 }, { 159,-9937 },
+ { 160,-9937 }, { 161,-9937 }, { 162,-9937 }, { 163,-9937 }, { 164,-9937 },
+
+ { 165,-9937 }, { 166,-9937 }, { 167,-9937 }, { 168,-9937 }, { 169,-9937 },
+ { 170,-9937 }, { 171,-9937 }, { 172,-9937 }, { 173,-9937 }, { 174,-9937 },
+ { 175,-9937 }, { 176,-9937 }, { 177,-9937 }, { 178,-9937 }, { 179,-9937 },
+ { 180,-9937 }, { 181,-9937 }, { 182,-9937 }, { 183,-9937 }, { 184,-9937 },
+ { 185,-9937 }, { 186,-9937 }, { 187,-9937 }, { 188,-9937 }, { 189,-9937 },
+ { 190,-9937 }, { 191,-9937 }, { 192,-9937 }, { 193,-9937 }, { 194,-9937 },
+ { 195,-9937 }, { 196,-9937 }, { 197,-9937 }, { 198,-9937 }, { 199,-9937 },
+ { 200,-9937 }, { 201,-9937 }, { 202,-9937 }, { 203,-9937 }, { 204,-9937 },
+ { 205,-9937 }, { 206,-9937 }, { 207,-9937 }, { 208,-9937 }, { 209,-9937 },
+ { 210,-9937 }, { 211,-9937 }, { 212,-9937 }, { 213,-9937 }, { 214,-9937 },
 
- { 219,-9833 }, { 220,-9833 }, { 221,-9833 }, { 222,-9833 }, { 223,-9833 },
- { 224,-9833 }, { 225,-9833 }, { 226,-9833 }, { 227,-9833 }, { 228,-9833 },
- { 229,-9833 }, { 230,-9833 }, { 231,-9833 }, { 232,-9833 }, { 233,-9833 },
- { 234,-9833 }, { 235,-9833 }, { 236,-9833 }, { 237,-9833 }, { 238,-9833 },
- { 239,-9833 }, { 240,-9833 }, { 241,-9833 }, { 242,-9833 }, { 243,-9833 },
- { 244,-9833 }, { 245,-9833 }, { 246,-9833 }, { 247,-9833 }, { 248,-9833 },
- { 249,-9833 }, { 250,-9833 }, { 251,-9833 }, { 252,-9833 }, { 253,-9833 },
- { 254,-9833 }, { 255,-9833 }, { 256,-9833 }, {   0,  25 }, {   0,1763 },
+ { 215,-9937 }, { 216,-9937 }, { 217,-9937 }, { 218,-9937 }, { 219,-9937 },
+ { 220,-9937 }, { 221,-9937 }, { 222,-9937 }, { 223,-9937 }, { 224,-9937 },
+ { 225,-9937 }, { 226,-9937 }, { 227,-9937 }, { 228,-9937 }, { 229,-9937 },
+ { 230,-9937 }, { 231,-9937 }, { 232,-9937 }, { 233,-9937 }, { 234,-9937 },
+ { 235,-9937 }, { 236,-9937 }, { 237,-9937 }, { 238,-9937 }, { 239,-9937 },
+ { 240,-9937 }, { 241,-9937 }, { 242,-9937 }, { 243,-9937 }, { 244,-9937 },
+ { 245,-9937 }, { 246,-9937 }, { 247,-9937 }, { 248,-9937 }, { 249,-9937 },
+ { 250,-9937 }, { 251,-9937 }, { 252,-9937 }, { 253,-9937 }, { 254,-9937 },
+ { 255,-9937 }, { 256,-9937 }, {   0,  25 }, {   0,1763 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,1160 }, {  10,1160 },
 
- {   0,   0 }, {   0,   0 }, {  13,1160 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   9,1160 }, {  10,1160 }, {   0,   0 },
+ {   0,   0 }, {  13,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  32,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  32,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -4574,368 +4596,369 @@ static const struct yy_trans_info yy_transition[19957] =
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,-1292 },
- { 126,1162 }, {   0,   0 }, {   0,1635 }, {   1,   0 }, {   2,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,-1292 }, { 126,1162 },
+ {   0,   0 }, {   0,1635 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
+ {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
+ {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
+ {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
+ {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
+
+ {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 },
+ {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 },
+ {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 },
+ {  44,   0 }, {  45, 258 }, {  46,   0 }, {  47,   0 }, {  48,   0 },
+ {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
+ {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
+ {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 },
+ {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
+ {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
+ {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
+
+ {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
+ {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
+ {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 }, {  93,   0 },
+ {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 },
+ {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
+ { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
+ { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
+ { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
+ { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 },
+ { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 },
+
+ { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
+ { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
+ { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
+ { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
+ { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
+ { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
+ { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
+ { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
+ { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
+ { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
+
+ { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
+ { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
+ { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
+ { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
+ { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
+ { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
+ { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
+ { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
+ { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
+ { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
+
+ { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
+ { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
+ { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
+ { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
+ { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,1377 },
+ {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
+ {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
+ {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 },
+ {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 },
+
+ {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 },
+ {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 },
+ {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 }, {  35,-258 },
+ {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,-258 }, {  40,-258 },
+ {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45, 778 },
+ {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 },
+ {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 },
+ {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 },
+ {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 },
+ {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 },
+
+ {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 },
+ {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 },
+ {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 },
+ {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 }, {  90,-258 },
+ {  91,-258 }, {  92,-258 }, {  93,-258 }, {  94,-258 }, {  95,-258 },
+ {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 }, { 100,-258 },
+ { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 }, { 105,-258 },
+ { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 }, { 110,-258 },
+ { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 },
+ { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 },
+
+ { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125,-258 },
+ { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 },
+ { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 },
+ { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 }, { 140,-258 },
+ { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 },
+ { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 }, { 150,-258 },
+ { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 }, { 155,-258 },
+ { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 }, { 160,-258 },
+ { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 }, { 165,-258 },
+ { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 },
+
+ { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 },
+ { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 },
+ { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 },
+ { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 }, { 190,-258 },
+ { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 },
+ { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 }, { 200,-258 },
+ { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 }, { 205,-258 },
+ { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 }, { 210,-258 },
+ { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 }, { 215,-258 },
+ { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 },
+
+ { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 },
+ { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 },
+ { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 },
+ { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 }, { 240,-258 },
+ { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
+ { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
+ { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
+ { 256,-258 }, {   0,   0 }, {   0,1119 }, {   1,   0 }, {   2,   0 },
  {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
- {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 },
- {  13,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
+ {   8,   0 }, {   0,   0 }, {   0,   0 }, {  11,   0 }, {  12,   0 },
+
+ {   0,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
  {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 },
  {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 },
- {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 },
-
- {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 },
- {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 },
- {  43,   0 }, {  44,   0 }, {  45, 258 }, {  46,   0 }, {  47,   0 },
+ {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,   0 }, {   0,   0 }, {   0,   0 },
  {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
  {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
- {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 },
- {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 },
+ {  58,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {  63,   0 }, {   0,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 },
  {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 },
  {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 },
  {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 },
-
  {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 },
- {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 },
- {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 },
+ {  88,   0 }, {  89,   0 }, {  90,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  95,   0 }, {   0,   0 }, {  97,   0 },
  {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 },
  { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 },
  { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 },
+
  { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 },
  { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 },
- { 123,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 },
+ {   0,   0 }, {   0,   0 }, { 125, 522 }, {   0,   0 }, { 127,   0 },
  { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 },
-
  { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 },
  { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 },
  { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 },
  { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 },
  { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 },
  { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 },
+
  { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 },
  { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 },
  { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 },
  { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 },
-
  { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 },
  { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 },
  { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 },
  { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 },
  { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 },
  { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 },
+
  { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 },
  { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 },
  { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 },
  { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 },
-
  { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 },
  { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 },
  { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
  { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
  { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 },
- {   0,1377 }, {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 },
- {   5,-258 }, {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 },
- {  10,-258 }, {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 },
- {  15,-258 }, {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 },
- {  20,-258 }, {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 },
-
- {  25,-258 }, {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 },
- {  30,-258 }, {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 },
- {  35,-258 }, {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,-258 },
- {  40,-258 }, {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 },
- {  45, 778 }, {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 },
- {  50,-258 }, {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 },
- {  55,-258 }, {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 },
- {  60,-258 }, {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 },
- {  65,-258 }, {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 },
- {  70,-258 }, {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 },
-
- {  75,-258 }, {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 },
- {  80,-258 }, {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 },
- {  85,-258 }, {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 },
- {  90,-258 }, {  91,-258 }, {  92,-258 }, {  93,-258 }, {  94,-258 },
- {  95,-258 }, {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 },
- { 100,-258 }, { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 },
- { 105,-258 }, { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 },
- { 110,-258 }, { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 },
- { 115,-258 }, { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 },
- { 120,-258 }, { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 },
-
- { 125,-258 }, { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 },
- { 130,-258 }, { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 },
- { 135,-258 }, { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 },
- { 140,-258 }, { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 },
- { 145,-258 }, { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 },
- { 150,-258 }, { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 },
- { 155,-258 }, { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 },
- { 160,-258 }, { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 },
- { 165,-258 }, { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 },
- { 170,-258 }, { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 },
-
- { 175,-258 }, { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 },
- { 180,-258 }, { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 },
- { 185,-258 }, { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 },
- { 190,-258 }, { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 },
- { 195,-258 }, { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 },
- { 200,-258 }, { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 },
- { 205,-258 }, { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 },
- { 210,-258 }, { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 },
- { 215,-258 }, { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 },
- { 220,-258 }, { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 },
-
- { 225,-258 }, { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 },
- { 230,-258 }, { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 },
- { 235,-258 }, { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 },
- { 240,-258 }, { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 },
- { 245,-258 }, { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 },
- { 250,-258 }, { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 },
- { 255,-258 }, { 256,-258 }, {   0,   0 }, {   0,1119 }, {   1,   0 },
- {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
- {   7,   0 }, {   8,   0 }, {   0,   0 }, {   0,   0 }, {  11,   0 },
- {  12,   0 }, {   0,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 },
-
- {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 },
- {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 },
- {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,   0 },
+ {   0, 861 }, {   1,-11097 }, {   2,-11097 }, {   3,-11097 }, {   4,-11097 },
+
+ {   5,-11097 }, {   6,-11097 }, {   7,-11097 }, {   8,-11097 }, {   9,-11122 },
+ {  10,-11122 }, {  11,-11097 }, {  12,-11097 }, {  13,-11122 }, {  14,-11097 },
+ {  15,-11097 }, {  16,-11097 }, {  17,-11097 }, {  18,-11097 }, {  19,-11097 },
+ {  20,-11097 }, {  21,-11097 }, {  22,-11097 }, {  23,-11097 }, {  24,-11097 },
+ {  25,-11097 }, {  26,-11097 }, {  27,-11097 }, {  28,-11097 }, {  29,-11097 },
+ {  30,-11097 }, {  31,-11097 }, {  32,-11122 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  36,-11097 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  41,-11122 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,-11097 }, {  46,-11122 }, {  47,-11122 }, {  48,-11097 }, {  49,-11097 },
+ {  50,-11097 }, {  51,-11097 }, {  52,-11097 }, {  53,-11097 }, {  54,-11097 },
+
+ {  55,-11097 }, {  56,-11097 }, {  57,-11097 }, {  58,-11097 }, {   0,   0 },
+ {   0,   0 }, {  61,-11122 }, {   0,   0 }, {  63,-11097 }, {   0,   0 },
+ {  65,-11097 }, {  66,-11097 }, {  67,-11097 }, {  68,-11097 }, {  69,-11097 },
+ {  70,-11097 }, {  71,-11097 }, {  72,-11097 }, {  73,-11097 }, {  74,-11097 },
+ {  75,-11097 }, {  76,-11097 }, {  77,-11097 }, {  78,-11097 }, {  79,-11097 },
+ {  80,-11097 }, {  81,-11097 }, {  82,-11097 }, {  83,-11097 }, {  84,-11097 },
+ {  85,-11097 }, {  86,-11097 }, {  87,-11097 }, {  88,-11097 }, {  89,-11097 },
+ {  90,-11097 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  95,-11097 }, {   0,   0 }, {  97,-11097 }, {  98,-11097 }, {  99,-11097 },
+ { 100,-11097 }, { 101, 345 }, { 102,-11097 }, { 103,-11097 }, { 104,-11097 },
+
+ { 105,-11097 }, { 106,-11097 }, { 107,-11097 }, { 108,-11097 }, { 109,-11097 },
+ { 110,-11097 }, { 111,-11097 }, { 112,-11097 }, { 113,-11097 }, { 114,-11097 },
+ { 115,-11097 }, { 116,-11097 }, { 117,-11097 }, { 118,-11097 }, { 119,-11097 },
+ { 120,-11097 }, { 121,-11097 }, { 122,-11097 }, {   0,   0 }, { 124,-11122 },
+ { 125,-11122 }, { 126,-11122 }, { 127,-11097 }, { 128,-11097 }, { 129,-11097 },
+ { 130,-11097 }, { 131,-11097 }, { 132,-11097 }, { 133,-11097 }, { 134,-11097 },
+ { 135,-11097 }, { 136,-11097 }, { 137,-11097 }, { 138,-11097 }, { 139,-11097 },
+ { 140,-11097 }, { 141,-11097 }, { 142,-11097 }, { 143,-11097 }, { 144,-11097 },
+ { 145,-11097 }, { 146,-11097 }, { 147,-11097 }, { 148,-11097 }, { 149,-11097 },
+ { 150,-11097 }, { 151,-11097 }, { 152,-11097 }, { 153,-11097 }, { 154,-11097 },
+
+ { 155,-11097 }, { 156,-11097 }, { 157,-11097 }, { 158,-11097 }, { 159,-11097 },
+ { 160,-11097 }, { 161,-11097 }, { 162,-11097 }, { 163,-11097 }, { 164,-11097 },
+ { 165,-11097 }, { 166,-11097 }, { 167,-11097 }, { 168,-11097 }, { 169,-11097 },
+ { 170,-11097 }, { 171,-11097 }, { 172,-11097 }, { 173,-11097 }, { 174,-11097 },
+ { 175,-11097 }, { 176,-11097 }, { 177,-11097 }, { 178,-11097 }, { 179,-11097 },
+ { 180,-11097 }, { 181,-11097 }, { 182,-11097 }, { 183,-11097 }, { 184,-11097 },
+ { 185,-11097 }, { 186,-11097 }, { 187,-11097 }, { 188,-11097 }, { 189,-11097 },
+ { 190,-11097 }, { 191,-11097 }, { 192,-11097 }, { 193,-11097 }, { 194,-11097 },
+ { 195,-11097 }, { 196,-11097 }, { 197,-11097 }, { 198,-11097 }, { 199,-11097 },
+ { 200,-11097 }, { 201,-11097 }, { 202,-11097 }, { 203,-11097 }, { 204,-11097 },
+
+ { 205,-11097 }, { 206,-11097 }, { 207,-11097 }, { 208,-11097 }, { 209,-11097 },
+ { 210,-11097 }, { 211,-11097 }, { 212,-11097 }, { 213,-11097 }, { 214,-11097 },
+ { 215,-11097 }, { 216,-11097 }, { 217,-11097 }, { 218,-11097 }, { 219,-11097 },
+ { 220,-11097 }, { 221,-11097 }, { 222,-11097 }, { 223,-11097 }, { 224,-11097 },
+ { 225,-11097 }, { 226,-11097 }, { 227,-11097 }, { 228,-11097 }, { 229,-11097 },
+ { 230,-11097 }, { 231,-11097 }, { 232,-11097 }, { 233,-11097 }, { 234,-11097 },
+ { 235,-11097 }, { 236,-11097 }, { 237,-11097 }, { 238,-11097 }, { 239,-11097 },
+ { 240,-11097 }, { 241,-11097 }, { 242,-11097 }, { 243,-11097 }, { 244,-11097 },
+ { 245,-11097 }, { 246,-11097 }, { 247,-11097 }, { 248,-11097 }, { 249,-11097 },
+ { 250,-11097 }, { 251,-11097 }, { 252,-11097 }, { 253,-11097 }, { 254,-11097 },
+
+ { 255,-11097 }, { 256,-11097 }, {   0,   0 }, {   0, 603 }, {   0,   0 },
+ {   0, 601 }, {   0,   0 }, {   0, 599 }, {   0,   0 }, {   0, 597 },
+ {   0,  23 }, {   0, 595 }, {   9,   0 }, {  10,   0 }, {   0,   0 },
+ {   0,   0 }, {  13,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0, 582 },
+ {   0,   0 }, {   0,   0 }, {   0, 579 }, {   0,   0 }, {   0, 577 },
+ {   0,  12 }, {   0, 575 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  32,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,   0 }, {   0,   0 },
- {   0,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 },
- {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 },
- {  57,   0 }, {  58,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  63,   0 }, {   0,   0 }, {  65,   0 }, {  66,   0 },
-
- {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 },
- {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 },
- {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 },
- {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 },
- {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,   0 }, {   0,   0 },
- {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 },
- { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 },
- { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 },
- { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 },
-
- { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 },
- { 122,   0 }, {   0,   0 }, {   0,   0 }, { 125, 522 }, {   0,   0 },
- { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 },
- { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 },
- { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 },
- { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 },
- { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 },
- { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 },
- { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 },
- { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 },
-
- { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 },
- { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 },
- { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 },
- { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 },
- { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 },
- { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 },
- { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 },
- { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 },
- { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 },
- { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 },
 
- { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 },
- { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 },
- { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 },
- { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 },
- { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 },
- { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 },
- { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
- { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
- {   0,   0 }, {   0, 861 }, {   1,-10993 }, {   2,-10993 }, {   3,-10993 },
- {   4,-10993 }, {   5,-10993 }, {   6,-10993 }, {   7,-10993 }, {   8,-10993 },
-
- {   9,-11018 }, {  10,-11018 }, {  11,-10993 }, {  12,-10993 }, {  13,-11018 },
- {  14,-10993 }, {  15,-10993 }, {  16,-10993 }, {  17,-10993 }, {  18,-10993 },
- {  19,-10993 }, {  20,-10993 }, {  21,-10993 }, {  22,-10993 }, {  23,-10993 },
- {  24,-10993 }, {  25,-10993 }, {  26,-10993 }, {  27,-10993 }, {  28,-10993 },
- {  29,-10993 }, {  30,-10993 }, {  31,-10993 }, {  32,-11018 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,-10993 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,-11018 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-10993 }, {  46,-11018 }, {  47,-11018 }, {  48,-10993 },
- {  49,-10993 }, {  50,-10993 }, {  51,-10993 }, {  52,-10993 }, {  53,-10993 },
- {  54,-10993 }, {  55,-10993 }, {  56,-10993 }, {  57,-10993 }, {  58,-10993 },
-
- {   0,   0 }, {   0,   0 }, {  61,-11018 }, {   0,   0 }, {  63,-10993 },
- {   0,   0 }, {  65,-10993 }, {  66,-10993 }, {  67,-10993 }, {  68,-10993 },
- {  69,-10993 }, {  70,-10993 }, {  71,-10993 }, {  72,-10993 }, {  73,-10993 },
- {  74,-10993 }, {  75,-10993 }, {  76,-10993 }, {  77,-10993 }, {  78,-10993 },
- {  79,-10993 }, {  80,-10993 }, {  81,-10993 }, {  82,-10993 }, {  83,-10993 },
- {  84,-10993 }, {  85,-10993 }, {  86,-10993 }, {  87,-10993 }, {  88,-10993 },
- {  89,-10993 }, {  90,-10993 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-10993 }, {   0,   0 }, {  97,-10993 }, {  98,-10993 },
- {  99,-10993 }, { 100,-10993 }, { 101, 345 }, { 102,-10993 }, { 103,-10993 },
- { 104,-10993 }, { 105,-10993 }, { 106,-10993 }, { 107,-10993 }, { 108,-10993 },
-
- { 109,-10993 }, { 110,-10993 }, { 111,-10993 }, { 112,-10993 }, { 113,-10993 },
- { 114,-10993 }, { 115,-10993 }, { 116,-10993 }, { 117,-10993 }, { 118,-10993 },
- { 119,-10993 }, { 120,-10993 }, { 121,-10993 }, { 122,-10993 }, {   0,   0 },
- { 124,-11018 }, { 125,-11018 }, { 126,-11018 }, { 127,-10993 }, { 128,-10993 },
- { 129,-10993 }, { 130,-10993 }, { 131,-10993 }, { 132,-10993 }, { 133,-10993 },
- { 134,-10993 }, { 135,-10993 }, { 136,-10993 }, { 137,-10993 }, { 138,-10993 },
- { 139,-10993 }, { 140,-10993 }, { 141,-10993 }, { 142,-10993 }, { 143,-10993 },
- { 144,-10993 }, { 145,-10993 }, { 146,-10993 }, { 147,-10993 }, { 148,-10993 },
- { 149,-10993 }, { 150,-10993 }, { 151,-10993 }, { 152,-10993 }, { 153,-10993 },
- { 154,-10993 }, { 155,-10993 }, { 156,-10993 }, { 157,-10993 }, { 158,-10993 },
-
- { 159,-10993 }, { 160,-10993 }, { 161,-10993 }, { 162,-10993 }, { 163,-10993 },
- { 164,-10993 }, { 165,-10993 }, { 166,-10993 }, { 167,-10993 }, { 168,-10993 },
- { 169,-10993 }, { 170,-10993 }, { 171,-10993 }, { 172,-10993 }, { 173,-10993 },
- { 174,-10993 }, { 175,-10993 }, { 176,-10993 }, { 177,-10993 }, { 178,-10993 },
- { 179,-10993 }, { 180,-10993 }, { 181,-10993 }, { 182,-10993 }, { 183,-10993 },
- { 184,-10993 }, { 185,-10993 }, { 186,-10993 }, { 187,-10993 }, { 188,-10993 },
- { 189,-10993 }, { 190,-10993 }, { 191,-10993 }, { 192,-10993 }, { 193,-10993 },
- { 194,-10993 }, { 195,-10993 }, { 196,-10993 }, { 197,-10993 }, { 198,-10993 },
- { 199,-10993 }, { 200,-10993 }, { 201,-10993 }, { 202,-10993 }, { 203,-10993 },
- { 204,-10993 }, { 205,-10993 }, { 206,-10993 }, { 207,-10993 }, { 208,-10993 },
-
- { 209,-10993 }, { 210,-10993 }, { 211,-10993 }, { 212,-10993 }, { 213,-10993 },
- { 214,-10993 }, { 215,-10993 }, { 216,-10993 }, { 217,-10993 }, { 218,-10993 },
- { 219,-10993 }, { 220,-10993 }, { 221,-10993 }, { 222,-10993 }, { 223,-10993 },
- { 224,-10993 }, { 225,-10993 }, { 226,-10993 }, { 227,-10993 }, { 228,-10993 },
- { 229,-10993 }, { 230,-10993 }, { 231,-10993 }, { 232,-10993 }, { 233,-10993 },
- { 234,-10993 }, { 235,-10993 }, { 236,-10993 }, { 237,-10993 }, { 238,-10993 },
- { 239,-10993 }, { 240,-10993 }, { 241,-10993 }, { 242,-10993 }, { 243,-10993 },
- { 244,-10993 }, { 245,-10993 }, { 246,-10993 }, { 247,-10993 }, { 248,-10993 },
- { 249,-10993 }, { 250,-10993 }, { 251,-10993 }, { 252,-10993 }, { 253,-10993 },
- { 254,-10993 }, { 255,-10993 }, { 256,-10993 }, {   0,   0 }, {   0, 603 },
-
- {   0,   0 }, {   0, 601 }, {   0,   0 }, {   0, 599 }, {   0,   0 },
- {   0, 597 }, {   0,  23 }, {   0, 595 }, {   9,   0 }, {  10,   0 },
- {   0,   0 }, {   0,   0 }, {  13,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0, 582 }, {   0,   0 }, {   0,   0 }, {   0, 579 }, {   0,   0 },
- {   0, 577 }, {   0,  12 }, {   0, 575 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  32,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0, 550 }, {   0,  45 }, {   0, 548 },
- {   0,   9 }, {   0, 546 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0, 516 }, {   1,-11338 }, {   2,-11338 }, {   3,-11338 },
- {   4,-11338 }, {   5,-11338 }, {   6,-11338 }, {   7,-11338 }, {   8,-11338 },
- {   9,-11363 }, {  10,-11363 }, {  11,-11338 }, {  12,-11338 }, {  13,-11363 },
-
- {  14,-11338 }, {  15,-11338 }, {  16,-11338 }, {  17,-11338 }, {  18,-11338 },
- {  19,-11338 }, {  20,-11338 }, {  21,-11338 }, {  22,-11338 }, {  23,-11338 },
- {  24,-11338 }, {  25,-11338 }, {  26,-11338 }, {  27,-11338 }, {  28,-11338 },
- {  29,-11338 }, {  30,-11338 }, {  31,-11338 }, {  32,-11363 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,-11338 }, {   0,   0 }, { 125,-2452 },
- { 126,   2 }, { 125,-2454 }, {  41,-11363 }, { 125,  17 }, { 126,  20 },
- { 125,  20 }, {  45,-11338 }, {  46,-11363 }, {  47,-11363 }, {  48,-11338 },
- {  49,-11338 }, {  50,-11338 }, {  51,-11338 }, {  52,-11338 }, {  53,-11338 },
- {  54,-11338 }, {  55,-11338 }, {  56,-11338 }, {  57,-11338 }, {  58,-11338 },
- { 125,   7 }, {   0,   0 }, {  61,-11363 }, { 125,  -3 }, {  63,-11338 },
-
- { 125,  27 }, {  65,-11338 }, {  66,-11338 }, {  67,-11338 }, {  68,-11338 },
- {  69,-11338 }, {  70,-11338 }, {  71,-11338 }, {  72,-11338 }, {  73,-11338 },
- {  74,-11338 }, {  75,-11338 }, {  76,-11338 }, {  77,-11338 }, {  78,-11338 },
- {  79,-11338 }, {  80,-11338 }, {  81,-11338 }, {  82,-11338 }, {  83,-11338 },
- {  84,-11338 }, {  85,-11338 }, {  86,-11338 }, {  87,-11338 }, {  88,-11338 },
- {  89,-11338 }, {  90,-11338 }, { 125,   4 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-11338 }, {   0,   0 }, {  97,-11338 }, {  98,-11338 },
- {  99,-11338 }, { 100, 258 }, { 101,-11338 }, { 102,-11338 }, { 103,-11338 },
- { 104,-11338 }, { 105,-11338 }, { 106,-11338 }, { 107,-11338 }, { 108,-11338 },
- { 109,-11338 }, { 110,-11338 }, { 111,-11338 }, { 112,-11338 }, { 113,-11338 },
-
- { 114,-11338 }, { 115,-11338 }, { 116,-11338 }, { 117,-11338 }, { 118,-11338 },
- { 119,-11338 }, { 120,-11338 }, { 121,-11338 }, { 122,-11338 }, {   0,   0 },
- { 124,-11363 }, { 125,-11363 }, { 126,-11363 }, { 127,-11338 }, { 128,-11338 },
- { 129,-11338 }, { 130,-11338 }, { 131,-11338 }, { 132,-11338 }, { 133,-11338 },
- { 134,-11338 }, { 135,-11338 }, { 136,-11338 }, { 137,-11338 }, { 138,-11338 },
- { 139,-11338 }, { 140,-11338 }, { 141,-11338 }, { 142,-11338 }, { 143,-11338 },
- { 144,-11338 }, { 145,-11338 }, { 146,-11338 }, { 147,-11338 }, { 148,-11338 },
- { 149,-11338 }, { 150,-11338 }, { 151,-11338 }, { 152,-11338 }, { 153,-11338 },
- { 154,-11338 }, { 155,-11338 }, { 156,-11338 }, { 157,-11338 }, { 158,-11338 },
- { 159,-11338 }, { 160,-11338 }, { 161,-11338 }, { 162,-11338 }, { 163,-11338 },
-
- { 164,-11338 }, { 165,-11338 }, { 166,-11338 }, { 167,-11338 }, { 168,-11338 },
- { 169,-11338 }, { 170,-11338 }, { 171,-11338 }, { 172,-11338 }, { 173,-11338 },
- { 174,-11338 }, { 175,-11338 }, { 176,-11338 }, { 177,-11338 }, { 178,-11338 },
- { 179,-11338 }, { 180,-11338 }, { 181,-11338 }, { 182,-11338 }, { 183,-11338 },
- { 184,-11338 }, { 185,-11338 }, { 186,-11338 }, { 187,-11338 }, { 188,-11338 },
- { 189,-11338 }, { 190,-11338 }, { 191,-11338 }, { 192,-11338 }, { 193,-11338 },
- { 194,-11338 }, { 195,-11338 }, { 196,-11338 }, { 197,-11338 }, { 198,-11338 },
- { 199,-11338 }, { 200,-11338 }, { 201,-11338 }, { 202,-11338 }, { 203,-11338 },
- { 204,-11338 }, { 205,-11338 }, { 206,-11338 }, { 207,-11338 }, { 208,-11338 },
- { 209,-11338 }, { 210,-11338 }, { 211,-11338 }, { 212,-11338 }, { 213,-11338 },
-
- { 214,-11338 }, { 215,-11338 }, { 216,-11338 }, { 217,-11338 }, { 218,-11338 },
- { 219,-11338 }, { 220,-11338 }, { 221,-11338 }, { 222,-11338 }, { 223,-11338 },
- { 224,-11338 }, { 225,-11338 }, { 226,-11338 }, { 227,-11338 }, { 228,-11338 },
- { 229,-11338 }, { 230,-11338 }, { 231,-11338 }, { 232,-11338 }, { 233,-11338 },
- { 234,-11338 }, { 235,-11338 }, { 236,-11338 }, { 237,-11338 }, { 238,-11338 },
- { 239,-11338 }, { 240,-11338 }, { 241,-11338 }, { 242,-11338 }, { 243,-11338 },
- { 244,-11338 }, { 245,-11338 }, { 246,-11338 }, { 247,-11338 }, { 248,-11338 },
- { 249,-11338 }, { 250,-11338 }, { 251,-11338 }, { 252,-11338 }, { 253,-11338 },
- { 254,-11338 }, { 255,-11338 }, { 256,-11338 }, {   0,   0 }, {   0, 258 },
- {   1,-11596 }, {   2,-11596 }, {   3,-11596 }, {   4,-11596 }, {   5,-11596 },
-
- {   6,-11596 }, {   7,-11596 }, {   8,-11596 }, {   9,-290 }, {  10,-290 },
- {  11,-11596 }, {  12,-11596 }, {  13,-290 }, {  14,-11596 }, {  15,-11596 },
- {  16,-11596 }, {  17,-11596 }, {  18,-11596 }, {  19,-11596 }, {  20,-11596 },
- {  21,-11596 }, {  22,-11596 }, {  23,-11596 }, {  24,-11596 }, {  25,-11596 },
- {  26,-11596 }, {  27,-11596 }, {  28,-11596 }, {  29,-11596 }, {  30,-11596 },
- {  31,-11596 }, {  32,-290 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,-11596 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,-290 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-11596 },
- {  46,-11621 }, {  47,-11621 }, {  48,-11596 }, {  49,-11596 }, {  50,-11596 },
- {  51,-11596 }, {  52,-11596 }, {  53,-11596 }, {  54,-11596 }, {  55,-11596 },
-
- {  56,-11596 }, {  57,-11596 }, {  58,-11596 }, {   0,   0 }, {   0,   0 },
- {  61,-11621 }, {   0,   0 }, {  63,-11596 }, {   0,   0 }, {  65,-11596 },
- {  66,-11596 }, {  67,-11596 }, {  68,-11596 }, {  69,-11596 }, {  70,-11596 },
- {  71,-11596 }, {  72,-11596 }, {  73,-11596 }, {  74,-11596 }, {  75,-11596 },
- {  76,-11596 }, {  77,-11596 }, {  78,-11596 }, {  79,-11596 }, {  80,-11596 },
- {  81,-11596 }, {  82,-11596 }, {  83,-11596 }, {  84,-11596 }, {  85,-11596 },
- {  86,-11596 }, {  87,-11596 }, {  88,-11596 }, {  89,-11596 }, {  90,-11596 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-11596 },
- {   0,   0 }, {  97,-11596 }, {  98,-11596 }, {  99,-11596 }, { 100,-11596 },
- { 101,-11596 }, { 102,-11596 }, { 103,-11596 }, { 104,-11596 }, { 105,-11596 },
-
- { 106,-11596 }, { 107,-11596 }, { 108,-11596 }, { 109,-11596 }, { 110,-11596 },
- { 111,-11596 }, { 112,-11596 }, { 113,-11596 }, { 114,-11596 }, { 115,-11596 },
- { 116,-11596 }, { 117,-11596 }, { 118,-11596 }, { 119,-11596 }, { 120,-11596 },
- { 121,-11596 }, { 122,-11596 }, {   0,   0 }, { 124,-11621 }, { 125,-290 },
- { 126,-290 }, { 127,-11596 }, { 128,-11596 }, { 129,-11596 }, { 130,-11596 },
- { 131,-11596 }, { 132,-11596 }, { 133,-11596 }, { 134,-11596 }, { 135,-11596 },
- { 136,-11596 }, { 137,-11596 }, { 138,-11596 }, { 139,-11596 }, { 140,-11596 },
- { 141,-11596 }, { 142,-11596 }, { 143,-11596 }, { 144,-11596 }, { 145,-11596 },
- { 146,-11596 }, { 147,-11596 }, { 148,-11596 }, { 149,-11596 }, { 150,-11596 },
- { 151,-11596 }, { 152,-11596 }, { 153,-11596 }, { 154,-11596 }, { 155,-11596 },
-
- { 156,-11596 }, { 157,-11596 }, { 158,-11596 }, { 159,-11596 }, { 160,-11596 },
- { 161,-11596 }, { 162,-11596 }, { 163,-11596 }, { 164,-11596 }, { 165,-11596 },
- { 166,-11596 }, { 167,-11596 }, { 168,-11596 }, { 169,-11596 }, { 170,-11596 },
- { 171,-11596 }, { 172,-11596 }, { 173,-11596 }, { 174,-11596 }, { 175,-11596 },
- { 176,-11596 }, { 177,-11596 }, { 178,-11596 }, { 179,-11596 }, { 180,-11596 },
- { 181,-11596 }, { 182,-11596 }, { 183,-11596 }, { 184,-11596 }, { 185,-11596 },
- { 186,-11596 }, { 187,-11596 }, { 188,-11596 }, { 189,-11596 }, { 190,-11596 },
- { 191,-11596 }, { 192,-11596 }, { 193,-11596 }, { 194,-11596 }, { 195,-11596 },
- { 196,-11596 }, { 197,-11596 }, { 198,-11596 }, { 199,-11596 }, { 200,-11596 },
- { 201,-11596 }, { 202,-11596 }, { 203,-11596 }, { 204,-11596 }, { 205,-11596 },
-
- { 206,-11596 }, { 207,-11596 }, { 208,-11596 }, { 209,-11596 }, { 210,-11596 },
- { 211,-11596 }, { 212,-11596 }, { 213,-11596 }, { 214,-11596 }, { 215,-11596 },
- { 216,-11596 }, { 217,-11596 }, { 218,-11596 }, { 219,-11596 }, { 220,-11596 },
- { 221,-11596 }, { 222,-11596 }, { 223,-11596 }, { 224,-11596 }, { 225,-11596 },
- { 226,-11596 }, { 227,-11596 }, { 228,-11596 }, { 229,-11596 }, { 230,-11596 },
- { 231,-11596 }, { 232,-11596 }, { 233,-11596 }, { 234,-11596 }, { 235,-11596 },
- { 236,-11596 }, { 237,-11596 }, { 238,-11596 }, { 239,-11596 }, { 240,-11596 },
- { 241,-11596 }, { 242,-11596 }, { 243,-11596 }, { 244,-11596 }, { 245,-11596 },
- { 246,-11596 }, { 247,-11596 }, { 248,-11596 }, { 249,-11596 }, { 250,-11596 },
- { 251,-11596 }, { 252,-11596 }, { 253,-11596 }, { 254,-11596 }, { 255,-11596 },
-
- { 256,-11596 }, { 257,  52 }, {   1,   0 },    };
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0, 550 }, {   0,  45 }, {   0, 548 }, {   0,   9 },
+ {   0, 546 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0, 516 }, {   1,-11442 }, {   2,-11442 }, {   3,-11442 }, {   4,-11442 },
+ {   5,-11442 }, {   6,-11442 }, {   7,-11442 }, {   8,-11442 }, {   9,-11467 },
+
+ {  10,-11467 }, {  11,-11442 }, {  12,-11442 }, {  13,-11467 }, {  14,-11442 },
+ {  15,-11442 }, {  16,-11442 }, {  17,-11442 }, {  18,-11442 }, {  19,-11442 },
+ {  20,-11442 }, {  21,-11442 }, {  22,-11442 }, {  23,-11442 }, {  24,-11442 },
+ {  25,-11442 }, {  26,-11442 }, {  27,-11442 }, {  28,-11442 }, {  29,-11442 },
+ {  30,-11442 }, {  31,-11442 }, {  32,-11467 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  36,-11442 }, {   0,   0 }, { 125,-2452 }, { 126,   2 },
+ { 125,-2454 }, {  41,-11467 }, { 125,  17 }, { 126,  20 }, { 125,  20 },
+ {  45,-11442 }, {  46,-11467 }, {  47,-11467 }, {  48,-11442 }, {  49,-11442 },
+ {  50,-11442 }, {  51,-11442 }, {  52,-11442 }, {  53,-11442 }, {  54,-11442 },
+ {  55,-11442 }, {  56,-11442 }, {  57,-11442 }, {  58,-11442 }, { 125,   7 },
+
+ {   0,   0 }, {  61,-11467 }, { 125,  -3 }, {  63,-11442 }, { 125,  27 },
+ {  65,-11442 }, {  66,-11442 }, {  67,-11442 }, {  68,-11442 }, {  69,-11442 },
+ {  70,-11442 }, {  71,-11442 }, {  72,-11442 }, {  73,-11442 }, {  74,-11442 },
+ {  75,-11442 }, {  76,-11442 }, {  77,-11442 }, {  78,-11442 }, {  79,-11442 },
+ {  80,-11442 }, {  81,-11442 }, {  82,-11442 }, {  83,-11442 }, {  84,-11442 },
+ {  85,-11442 }, {  86,-11442 }, {  87,-11442 }, {  88,-11442 }, {  89,-11442 },
+ {  90,-11442 }, { 125,   4 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  95,-11442 }, {   0,   0 }, {  97,-11442 }, {  98,-11442 }, {  99,-11442 },
+ { 100, 258 }, { 101,-11442 }, { 102,-11442 }, { 103,-11442 }, { 104,-11442 },
+ { 105,-11442 }, { 106,-11442 }, { 107,-11442 }, { 108,-11442 }, { 109,-11442 },
+
+ { 110,-11442 }, { 111,-11442 }, { 112,-11442 }, { 113,-11442 }, { 114,-11442 },
+ { 115,-11442 }, { 116,-11442 }, { 117,-11442 }, { 118,-11442 }, { 119,-11442 },
+ { 120,-11442 }, { 121,-11442 }, { 122,-11442 }, {   0,   0 }, { 124,-11467 },
+ { 125,-11467 }, { 126,-11467 }, { 127,-11442 }, { 128,-11442 }, { 129,-11442 },
+ { 130,-11442 }, { 131,-11442 }, { 132,-11442 }, { 133,-11442 }, { 134,-11442 },
+ { 135,-11442 }, { 136,-11442 }, { 137,-11442 }, { 138,-11442 }, { 139,-11442 },
+ { 140,-11442 }, { 141,-11442 }, { 142,-11442 }, { 143,-11442 }, { 144,-11442 },
+ { 145,-11442 }, { 146,-11442 }, { 147,-11442 }, { 148,-11442 }, { 149,-11442 },
+ { 150,-11442 }, { 151,-11442 }, { 152,-11442 }, { 153,-11442 }, { 154,-11442 },
+ { 155,-11442 }, { 156,-11442 }, { 157,-11442 }, { 158,-11442 }, { 159,-11442 },
+
+ { 160,-11442 }, { 161,-11442 }, { 162,-11442 }, { 163,-11442 }, { 164,-11442 },
+ { 165,-11442 }, { 166,-11442 }, { 167,-11442 }, { 168,-11442 }, { 169,-11442 },
+ { 170,-11442 }, { 171,-11442 }, { 172,-11442 }, { 173,-11442 }, { 174,-11442 },
+ { 175,-11442 }, { 176,-11442 }, { 177,-11442 }, { 178,-11442 }, { 179,-11442 },
+ { 180,-11442 }, { 181,-11442 }, { 182,-11442 }, { 183,-11442 }, { 184,-11442 },
+ { 185,-11442 }, { 186,-11442 }, { 187,-11442 }, { 188,-11442 }, { 189,-11442 },
+ { 190,-11442 }, { 191,-11442 }, { 192,-11442 }, { 193,-11442 }, { 194,-11442 },
+ { 195,-11442 }, { 196,-11442 }, { 197,-11442 }, { 198,-11442 }, { 199,-11442 },
+ { 200,-11442 }, { 201,-11442 }, { 202,-11442 }, { 203,-11442 }, { 204,-11442 },
+ { 205,-11442 }, { 206,-11442 }, { 207,-11442 }, { 208,-11442 }, { 209,-11442 },
+
+ { 210,-11442 }, { 211,-11442 }, { 212,-11442 }, { 213,-11442 }, { 214,-11442 },
+ { 215,-11442 }, { 216,-11442 }, { 217,-11442 }, { 218,-11442 }, { 219,-11442 },
+ { 220,-11442 }, { 221,-11442 }, { 222,-11442 }, { 223,-11442 }, { 224,-11442 },
+ { 225,-11442 }, { 226,-11442 }, { 227,-11442 }, { 228,-11442 }, { 229,-11442 },
+ { 230,-11442 }, { 231,-11442 }, { 232,-11442 }, { 233,-11442 }, { 234,-11442 },
+ { 235,-11442 }, { 236,-11442 }, { 237,-11442 }, { 238,-11442 }, { 239,-11442 },
+ { 240,-11442 }, { 241,-11442 }, { 242,-11442 }, { 243,-11442 }, { 244,-11442 },
+ { 245,-11442 }, { 246,-11442 }, { 247,-11442 }, { 248,-11442 }, { 249,-11442 },
+ { 250,-11442 }, { 251,-11442 }, { 252,-11442 }, { 253,-11442 }, { 254,-11442 },
+ { 255,-11442 }, { 256,-11442 }, {   0,   0 }, {   0, 258 }, {   1,-11700 },
+
+ {   2,-11700 }, {   3,-11700 }, {   4,-11700 }, {   5,-11700 }, {   6,-11700 },
+ {   7,-11700 }, {   8,-11700 }, {   9,-290 }, {  10,-290 }, {  11,-11700 },
+ {  12,-11700 }, {  13,-290 }, {  14,-11700 }, {  15,-11700 }, {  16,-11700 },
+ {  17,-11700 }, {  18,-11700 }, {  19,-11700 }, {  20,-11700 }, {  21,-11700 },
+ {  22,-11700 }, {  23,-11700 }, {  24,-11700 }, {  25,-11700 }, {  26,-11700 },
+ {  27,-11700 }, {  28,-11700 }, {  29,-11700 }, {  30,-11700 }, {  31,-11700 },
+ {  32,-290 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-11700 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-290 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-11700 }, {  46,-11725 },
+ {  47,-11725 }, {  48,-11700 }, {  49,-11700 }, {  50,-11700 }, {  51,-11700 },
+
+ {  52,-11700 }, {  53,-11700 }, {  54,-11700 }, {  55,-11700 }, {  56,-11700 },
+ {  57,-11700 }, {  58,-11700 }, {   0,   0 }, {   0,   0 }, {  61,-11725 },
+ {   0,   0 }, {  63,-11700 }, {   0,   0 }, {  65,-11700 }, {  66,-11700 },
+ {  67,-11700 }, {  68,-11700 }, {  69,-11700 }, {  70,-11700 }, {  71,-11700 },
+ {  72,-11700 }, {  73,-11700 }, {  74,-11700 }, {  75,-11700 }, {  76,-11700 },
+ {  77,-11700 }, {  78,-11700 }, {  79,-11700 }, {  80,-11700 }, {  81,-11700 },
+ {  82,-11700 }, {  83,-11700 }, {  84,-11700 }, {  85,-11700 }, {  86,-11700 },
+ {  87,-11700 }, {  88,-11700 }, {  89,-11700 }, {  90,-11700 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-11700 }, {   0,   0 },
+ {  97,-11700 }, {  98,-11700 }, {  99,-11700 }, { 100,-11700 }, { 101,-11700 },
+
+ { 102,-11700 }, { 103,-11700 }, { 104,-11700 }, { 105,-11700 }, { 106,-11700 },
+ { 107,-11700 }, { 108,-11700 }, { 109,-11700 }, { 110,-11700 }, { 111,-11700 },
+ { 112,-11700 }, { 113,-11700 }, { 114,-11700 }, { 115,-11700 }, { 116,-11700 },
+ { 117,-11700 }, { 118,-11700 }, { 119,-11700 }, { 120,-11700 }, { 121,-11700 },
+ { 122,-11700 }, {   0,   0 }, { 124,-11725 }, { 125,-290 }, { 126,-290 },
+ { 127,-11700 }, { 128,-11700 }, { 129,-11700 }, { 130,-11700 }, { 131,-11700 },
+ { 132,-11700 }, { 133,-11700 }, { 134,-11700 }, { 135,-11700 }, { 136,-11700 },
+ { 137,-11700 }, { 138,-11700 }, { 139,-11700 }, { 140,-11700 }, { 141,-11700 },
+ { 142,-11700 }, { 143,-11700 }, { 144,-11700 }, { 145,-11700 }, { 146,-11700 },
+ { 147,-11700 }, { 148,-11700 }, { 149,-11700 }, { 150,-11700 }, { 151,-11700 },
+
+ { 152,-11700 }, { 153,-11700 }, { 154,-11700 }, { 155,-11700 }, { 156,-11700 },
+ { 157,-11700 }, { 158,-11700 }, { 159,-11700 }, { 160,-11700 }, { 161,-11700 },
+ { 162,-11700 }, { 163,-11700 }, { 164,-11700 }, { 165,-11700 }, { 166,-11700 },
+ { 167,-11700 }, { 168,-11700 }, { 169,-11700 }, { 170,-11700 }, { 171,-11700 },
+ { 172,-11700 }, { 173,-11700 }, { 174,-11700 }, { 175,-11700 }, { 176,-11700 },
+ { 177,-11700 }, { 178,-11700 }, { 179,-11700 }, { 180,-11700 }, { 181,-11700 },
+ { 182,-11700 }, { 183,-11700 }, { 184,-11700 }, { 185,-11700 }, { 186,-11700 },
+ { 187,-11700 }, { 188,-11700 }, { 189,-11700 }, { 190,-11700 }, { 191,-11700 },
+ { 192,-11700 }, { 193,-11700 }, { 194,-11700 }, { 195,-11700 }, { 196,-11700 },
+ { 197,-11700 }, { 198,-11700 }, { 199,-11700 }, { 200,-11700 }, { 201,-11700 },
+
+ { 202,-11700 }, { 203,-11700 }, { 204,-11700 }, { 205,-11700 }, { 206,-11700 },
+ { 207,-11700 }, { 208,-11700 }, { 209,-11700 }, { 210,-11700 }, { 211,-11700 },
+ { 212,-11700 }, { 213,-11700 }, { 214,-11700 }, { 215,-11700 }, { 216,-11700 },
+ { 217,-11700 }, { 218,-11700 }, { 219,-11700 }, { 220,-11700 }, { 221,-11700 },
+ { 222,-11700 }, { 223,-11700 }, { 224,-11700 }, { 225,-11700 }, { 226,-11700 },
+ { 227,-11700 }, { 228,-11700 }, { 229,-11700 }, { 230,-11700 }, { 231,-11700 },
+ { 232,-11700 }, { 233,-11700 }, { 234,-11700 }, { 235,-11700 }, { 236,-11700 },
+ { 237,-11700 }, { 238,-11700 }, { 239,-11700 }, { 240,-11700 }, { 241,-11700 },
+ { 242,-11700 }, { 243,-11700 }, { 244,-11700 }, { 245,-11700 }, { 246,-11700 },
+ { 247,-11700 }, { 248,-11700 }, { 249,-11700 }, { 250,-11700 }, { 251,-11700 },
+
+ { 252,-11700 }, { 253,-11700 }, { 254,-11700 }, { 255,-11700 }, { 256,-11700 },
+ { 257,  52 }, {   1,   0 },    };
 
 static const struct yy_trans_info *yy_start_state_list[13] =
     {
@@ -5062,9 +5085,9 @@ static const flex_int32_t yy_rule_can_match_eol[52] =
     yylloc->last_column = yycolumn + yyleng - 1; \
     yycolumn += yyleng; \
    	YY_USER_DEBUG_ACTION;
-#line 5066 "handlebars.lex.c"
+#line 5089 "handlebars.lex.c"
 
-#line 5068 "handlebars.lex.c"
+#line 5091 "handlebars.lex.c"
 
 #define INITIAL 0
 #define mu 1
@@ -5347,7 +5370,7 @@ YY_DECL
 
 
 
-#line 5351 "handlebars.lex.c"
+#line 5374 "handlebars.lex.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -5969,7 +5992,7 @@ YY_RULE_SETUP
 #line 483 "handlebars.l"
 ECHO;
 	YY_BREAK
-#line 5973 "handlebars.lex.c"
+#line 5996 "handlebars.lex.c"
 
 	case YY_END_OF_BUFFER:
 		{
-- 
2.43.0


From 8560e0f4ef262396f930d3c5ef26452cdba0d9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:51 +0000
Subject: [PATCH 20/90] fix: comment consisting of dashes only ({{!-}}) wrote
 out of bounds

---
 src/handlebars_ast_helpers.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/handlebars_ast_helpers.c b/src/handlebars_ast_helpers.c
index b9c6115..5ab73d7 100644
--- a/src/handlebars_ast_helpers.c
+++ b/src/handlebars_ast_helpers.c
@@ -409,6 +409,10 @@ struct handlebars_string * handlebars_ast_helper_strip_comment(struct handlebars
     assert(comment != NULL);
     size_t start = handlebars_ast_helper_strip_comment_left(comment);
     size_t len = handlebars_ast_helper_strip_comment_right(comment);
+    // the delimiters may overlap, as in {{!-}}
+    if( len < start ) {
+        len = start;
+    }
     comment = handlebars_string_truncate(comment, start, len);
     return comment;
 }
-- 
2.43.0


From 1fbc2c98b9179144c02e671317bf093d7fe1ea75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:56 +0000
Subject: [PATCH 21/90] fix: lexer: a long comment containing -- was not
 recognized

---
 src/handlebars.l     |    6 +-
 src/handlebars.lex.c | 2736 +++++++++++++++++++++++-------------------
 src/handlebars.lex.h |    2 +-
 3 files changed, 1534 insertions(+), 1210 deletions(-)

diff --git a/src/handlebars.l b/src/handlebars.l
index 94a3196..4df22ff 100644
--- a/src/handlebars.l
+++ b/src/handlebars.l
@@ -133,6 +133,10 @@ IDC	  [^ \r\n\t!\"#%-,\.\/;->@\[-\^`\{-~]
 ID    {IDC}+/{LOOKAHEAD}
 BLOCKPARAM [\x7C]
 
+/* inside of a long comment, after a dash: anything but the first --}} or --~}} */
+COM_DASH  "-"+("~}"|"~"|"}")"-"
+COM_REST  ([^-]|"-"+([^-~}]|"~"[^-}]|"~"?"}"[^-}]))
+
 
 %%
 
@@ -219,7 +223,7 @@ BLOCKPARAM [\x7C]
 										return CONTENT;
 									}
 
-<com>"{{"{LEFT_STRIP}?"!--"([-]?[^-])*"--"{RIGHT_STRIP}?"}}" {
+<com>"{{"{LEFT_STRIP}?"!"([^-]|"-"{COM_DASH}*{COM_REST})*"-"{COM_DASH}*"-"+{RIGHT_STRIP}?"}}" {
 										// v3.0.3 handlebars.l line 59
   										yy_pop_state(yyg);
   										//yytext[yyleng -= 4] = 0;
diff --git a/src/handlebars.lex.c b/src/handlebars.lex.c
index 52afbc7..b209718 100644
--- a/src/handlebars.lex.c
+++ b/src/handlebars.lex.c
@@ -599,9 +599,9 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const struct yy_trans_info yy_transition[20061] =
+static const struct yy_trans_info yy_transition[21511] =
     {
- {   0,   0 }, {   0,19805 }, {   0,   2 }, {   0,19803 }, {   1,3096 },
+ {   0,   0 }, {   0,21255 }, {   0,   2 }, {   0,21253 }, {   1,3096 },
  {   2,3096 }, {   3,3096 }, {   4,3096 }, {   5,3096 }, {   6,3096 },
  {   7,3096 }, {   8,3096 }, {   9,3096 }, {  10,3353 }, {  11,3096 },
  {  12,3096 }, {  13,3353 }, {  14,3096 }, {  15,3096 }, {  16,3096 },
@@ -658,7 +658,7 @@ static const struct yy_trans_info yy_transition[20061] =
 
  { 247,3096 }, { 248,3096 }, { 249,3096 }, { 250,3096 }, { 251,3096 },
  { 252,3096 }, { 253,3096 }, { 254,3096 }, { 255,3096 }, { 256,3359 },
- {   0,   2 }, {   0,19545 }, {   1,2838 }, {   2,2838 }, {   3,2838 },
+ {   0,   2 }, {   0,20995 }, {   1,2838 }, {   2,2838 }, {   3,2838 },
  {   4,2838 }, {   5,2838 }, {   6,2838 }, {   7,2838 }, {   8,2838 },
  {   9,2838 }, {  10,3095 }, {  11,2838 }, {  12,2838 }, {  13,3095 },
  {  14,2838 }, {  15,2838 }, {  16,2838 }, {  17,2838 }, {  18,2838 },
@@ -714,7 +714,7 @@ static const struct yy_trans_info yy_transition[20061] =
  { 239,2838 }, { 240,2838 }, { 241,2838 }, { 242,2838 }, { 243,2838 },
  { 244,2838 }, { 245,2838 }, { 246,2838 }, { 247,2838 }, { 248,2838 },
  { 249,2838 }, { 250,2838 }, { 251,2838 }, { 252,2838 }, { 253,2838 },
- { 254,2838 }, { 255,2838 }, { 256,3101 }, {   0,   0 }, {   0,19287 },
+ { 254,2838 }, { 255,2838 }, { 256,3101 }, {   0,   0 }, {   0,20737 },
  {   1,3223 }, {   2,3223 }, {   3,3223 }, {   4,3223 }, {   5,3223 },
  {   6,3223 }, {   7,3223 }, {   8,3223 }, {   9,2845 }, {  10,2852 },
  {  11,3223 }, {  12,3223 }, {  13,2845 }, {  14,3223 }, {  15,3223 },
@@ -771,7 +771,7 @@ static const struct yy_trans_info yy_transition[20061] =
  { 241,3223 }, { 242,3223 }, { 243,3223 }, { 244,3223 }, { 245,3223 },
  { 246,3223 }, { 247,3223 }, { 248,3223 }, { 249,3223 }, { 250,3223 },
  { 251,3223 }, { 252,3223 }, { 253,3223 }, { 254,3223 }, { 255,3223 },
- { 256,3223 }, {   0,   0 }, {   0,19029 }, {   1,2965 }, {   2,2965 },
+ { 256,3223 }, {   0,   0 }, {   0,20479 }, {   1,2965 }, {   2,2965 },
  {   3,2965 }, {   4,2965 }, {   5,2965 }, {   6,2965 }, {   7,2965 },
  {   8,2965 }, {   9,2587 }, {  10,2594 }, {  11,2965 }, {  12,2965 },
  {  13,2587 }, {  14,2965 }, {  15,2965 }, {  16,2965 }, {  17,2965 },
@@ -828,7 +828,7 @@ static const struct yy_trans_info yy_transition[20061] =
  { 243,2965 }, { 244,2965 }, { 245,2965 }, { 246,2965 }, { 247,2965 },
  { 248,2965 }, { 249,2965 }, { 250,2965 }, { 251,2965 }, { 252,2965 },
  { 253,2965 }, { 254,2965 }, { 255,2965 }, { 256,2965 }, {   0,   0 },
- {   0,18771 }, {   1,3792 }, {   2,3792 }, {   3,3792 }, {   4,3792 },
+ {   0,20221 }, {   1,3792 }, {   2,3792 }, {   3,3792 }, {   4,3792 },
  {   5,3792 }, {   6,3792 }, {   7,3792 }, {   8,3792 }, {   9,3792 },
  {  10,2327 }, {  11,3792 }, {  12,3792 }, {  13,3792 }, {  14,3792 },
 
@@ -884,7 +884,7 @@ static const struct yy_trans_info yy_transition[20061] =
  { 240,3792 }, { 241,3792 }, { 242,3792 }, { 243,3792 }, { 244,3792 },
  { 245,3792 }, { 246,3792 }, { 247,3792 }, { 248,3792 }, { 249,3792 },
  { 250,3792 }, { 251,3792 }, { 252,3792 }, { 253,3792 }, { 254,3792 },
- { 255,3792 }, { 256,3792 }, {   0,   0 }, {   0,18513 }, {   1,3534 },
+ { 255,3792 }, { 256,3792 }, {   0,   0 }, {   0,19963 }, {   1,3534 },
  {   2,3534 }, {   3,3534 }, {   4,3534 }, {   5,3534 }, {   6,3534 },
 
  {   7,3534 }, {   8,3534 }, {   9,3534 }, {  10,2069 }, {  11,3534 },
@@ -942,7 +942,7 @@ static const struct yy_trans_info yy_transition[20061] =
  { 247,3534 }, { 248,3534 }, { 249,3534 }, { 250,3534 }, { 251,3534 },
  { 252,3534 }, { 253,3534 }, { 254,3534 }, { 255,3534 }, { 256,3534 },
 
- {   0,   0 }, {   0,18255 }, {   1,1811 }, {   2,1811 }, {   3,1811 },
+ {   0,   0 }, {   0,19705 }, {   1,1811 }, {   2,1811 }, {   3,1811 },
  {   4,1811 }, {   5,1811 }, {   6,1811 }, {   7,1811 }, {   8,1811 },
  {   9,1811 }, {  10,1811 }, {  11,1811 }, {  12,1811 }, {  13,1811 },
  {  14,1811 }, {  15,1811 }, {  16,1811 }, {  17,1811 }, {  18,1811 },
@@ -998,7 +998,7 @@ static const struct yy_trans_info yy_transition[20061] =
  { 244,1811 }, { 245,1811 }, { 246,1811 }, { 247,1811 }, { 248,1811 },
 
  { 249,1811 }, { 250,1811 }, { 251,1811 }, { 252,1811 }, { 253,1811 },
- { 254,1811 }, { 255,1811 }, { 256,1811 }, {   0,   0 }, {   0,17997 },
+ { 254,1811 }, { 255,1811 }, { 256,1811 }, {   0,   0 }, {   0,19447 },
  {   1,1553 }, {   2,1553 }, {   3,1553 }, {   4,1553 }, {   5,1553 },
  {   6,1553 }, {   7,1553 }, {   8,1553 }, {   9,1553 }, {  10,1553 },
  {  11,1553 }, {  12,1553 }, {  13,1553 }, {  14,1553 }, {  15,1553 },
@@ -1055,7 +1055,7 @@ static const struct yy_trans_info yy_transition[20061] =
  { 241,1553 }, { 242,1553 }, { 243,1553 }, { 244,1553 }, { 245,1553 },
  { 246,1553 }, { 247,1553 }, { 248,1553 }, { 249,1553 }, { 250,1553 },
  { 251,1553 }, { 252,1553 }, { 253,1553 }, { 254,1553 }, { 255,1553 },
- { 256,1553 }, {   0,   0 }, {   0,17739 }, {   1,4595 }, {   2,4595 },
+ { 256,1553 }, {   0,   0 }, {   0,19189 }, {   1,4595 }, {   2,4595 },
  {   3,4595 }, {   4,4595 }, {   5,4595 }, {   6,4595 }, {   7,4595 },
  {   8,4595 }, {   9,4595 }, {  10,4595 }, {  11,4595 }, {  12,4595 },
  {  13,4595 }, {  14,4595 }, {  15,4595 }, {  16,4595 }, {  17,4595 },
@@ -1112,7 +1112,7 @@ static const struct yy_trans_info yy_transition[20061] =
  { 243,4595 }, { 244,4595 }, { 245,4595 }, { 246,4595 }, { 247,4595 },
  { 248,4595 }, { 249,4595 }, { 250,4595 }, { 251,4595 }, { 252,4595 },
  { 253,4595 }, { 254,4595 }, { 255,4595 }, { 256,4595 }, {   0,   0 },
- {   0,17481 }, {   1,4337 }, {   2,4337 }, {   3,4337 }, {   4,4337 },
+ {   0,18931 }, {   1,4337 }, {   2,4337 }, {   3,4337 }, {   4,4337 },
  {   5,4337 }, {   6,4337 }, {   7,4337 }, {   8,4337 }, {   9,4337 },
  {  10,4337 }, {  11,4337 }, {  12,4337 }, {  13,4337 }, {  14,4337 },
  {  15,4337 }, {  16,4337 }, {  17,4337 }, {  18,4337 }, {  19,4337 },
@@ -1168,7 +1168,7 @@ static const struct yy_trans_info yy_transition[20061] =
  { 240,4337 }, { 241,4337 }, { 242,4337 }, { 243,4337 }, { 244,4337 },
  { 245,4337 }, { 246,4337 }, { 247,4337 }, { 248,4337 }, { 249,4337 },
  { 250,4337 }, { 251,4337 }, { 252,4337 }, { 253,4337 }, { 254,4337 },
- { 255,4337 }, { 256,4337 }, {   0,   0 }, {   0,17223 }, {   1,4595 },
+ { 255,4337 }, { 256,4337 }, {   0,   0 }, {   0,18673 }, {   1,4595 },
  {   2,4595 }, {   3,4595 }, {   4,4595 }, {   5,4595 }, {   6,4595 },
  {   7,4595 }, {   8,4595 }, {   9,4595 }, {  10,4595 }, {  11,4595 },
  {  12,4595 }, {  13,4595 }, {  14,4595 }, {  15,4595 }, {  16,4595 },
@@ -1225,7 +1225,7 @@ static const struct yy_trans_info yy_transition[20061] =
  { 242,4595 }, { 243,4595 }, { 244,4595 }, { 245,4595 }, { 246,4595 },
  { 247,4595 }, { 248,4595 }, { 249,4595 }, { 250,4595 }, { 251,4595 },
  { 252,4595 }, { 253,4595 }, { 254,4595 }, { 255,4595 }, { 256, 779 },
- {   0,   0 }, {   0,16965 }, {   1,4337 }, {   2,4337 }, {   3,4337 },
+ {   0,   0 }, {   0,18415 }, {   1,4337 }, {   2,4337 }, {   3,4337 },
  {   4,4337 }, {   5,4337 }, {   6,4337 }, {   7,4337 }, {   8,4337 },
 
  {   9,4337 }, {  10,4337 }, {  11,4337 }, {  12,4337 }, {  13,4337 },
@@ -1281,7 +1281,7 @@ static const struct yy_trans_info yy_transition[20061] =
  { 239,4337 }, { 240,4337 }, { 241,4337 }, { 242,4337 }, { 243,4337 },
  { 244,4337 }, { 245,4337 }, { 246,4337 }, { 247,4337 }, { 248,4337 },
  { 249,4337 }, { 250,4337 }, { 251,4337 }, { 252,4337 }, { 253,4337 },
- { 254,4337 }, { 255,4337 }, { 256, 521 }, {   0,   2 }, {   0,16707 },
+ { 254,4337 }, { 255,4337 }, { 256, 521 }, {   0,   2 }, {   0,18157 },
 
  {   1,4461 }, {   2,4461 }, {   3,4461 }, {   4,4461 }, {   5,4461 },
  {   6,4461 }, {   7,4461 }, {   8,4461 }, {   9,4461 }, {  10,4338 },
@@ -1339,14 +1339,14 @@ static const struct yy_trans_info yy_transition[20061] =
  { 246,4461 }, { 247,4461 }, { 248,4461 }, { 249,4461 }, { 250,4461 },
 
  { 251,4461 }, { 252,4461 }, { 253,4461 }, { 254,4461 }, { 255,4461 },
- {   0,   2 }, {   0,16450 }, {   0,   6 }, {   0,16448 }, {   0,   6 },
- {   0,16446 }, {   0,  51 }, {   0,16444 }, {   0,  35 }, {   0,16442 },
+ {   0,   2 }, {   0,17900 }, {   0,   6 }, {   0,17898 }, {   0,   6 },
+ {   0,17896 }, {   0,  51 }, {   0,17894 }, {   0,  35 }, {   0,17892 },
  {   0,   0 }, {  10,4081 }, {   0,   0 }, {   0,   0 }, {  13,4081 },
- {   0,  35 }, {   0,16435 }, {   0,   0 }, {   9,4742 }, {  10,4742 },
- {   0,  50 }, {   0,16430 }, {  13,4742 }, {   0,  14 }, {   0,16427 },
- {   9,4735 }, {  10,4735 }, {   0,  15 }, {   0,16423 }, {  13,4735 },
- {   0,  34 }, {   0,16420 }, {   0,  31 }, {   0,16418 }, {   0,  40 },
- {   0,16416 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  35 }, {   0,17885 }, {   0,   0 }, {   9,4742 }, {  10,4742 },
+ {   0,  50 }, {   0,17880 }, {  13,4742 }, {   0,  14 }, {   0,17877 },
+ {   9,4735 }, {  10,4735 }, {   0,  15 }, {   0,17873 }, {  13,4735 },
+ {   0,  34 }, {   0,17870 }, {   0,  31 }, {   0,17868 }, {   0,  40 },
+ {   0,17866 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  32,4742 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,4735 }, {   0,   0 },
@@ -1367,7 +1367,7 @@ static const struct yy_trans_info yy_transition[20061] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, { 123,4461 }, {   0,   0 }, { 123,4461 }, {   0,   2 },
- {   0,16321 }, {   1,4075 }, {   2,4075 }, {   3,4075 }, {   4,4075 },
+ {   0,17771 }, {   1,4075 }, {   2,4075 }, {   3,4075 }, {   4,4075 },
  {   5,4075 }, {   6,4075 }, {   7,4075 }, {   8,4075 }, {   9,4075 },
  {  10,3952 }, {  11,4075 }, {  12,4075 }, {  13,3952 }, {  14,4075 },
 
@@ -1423,7 +1423,7 @@ static const struct yy_trans_info yy_transition[20061] =
  { 240,4075 }, { 241,4075 }, { 242,4075 }, { 243,4075 }, { 244,4075 },
  { 245,4075 }, { 246,4075 }, { 247,4075 }, { 248,4075 }, { 249,4075 },
  { 250,4075 }, { 251,4075 }, { 252,4075 }, { 253,4075 }, { 254,4075 },
- { 255,4075 }, {   0,  50 }, {   0,16064 }, {   1,4106 }, {   2,4106 },
+ { 255,4075 }, {   0,  50 }, {   0,17514 }, {   1,4106 }, {   2,4106 },
  {   3,4106 }, {   4,4106 }, {   5,4106 }, {   6,4106 }, {   7,4106 },
 
  {   8,4106 }, {   9,4081 }, {  10,4081 }, {  11,4106 }, {  12,4106 },
@@ -1481,7 +1481,7 @@ static const struct yy_trans_info yy_transition[20061] =
  { 248,4106 }, { 249,4106 }, { 250,4106 }, { 251,4106 }, { 252,4106 },
  { 253,4106 }, { 254,4106 }, { 255,4106 }, { 256,4106 }, {   0,  50 },
 
- {   0,15806 }, {   1,4140 }, {   2,4140 }, {   3,4140 }, {   4,4140 },
+ {   0,17256 }, {   1,4140 }, {   2,4140 }, {   3,4140 }, {   4,4140 },
  {   5,4140 }, {   6,4140 }, {   7,4140 }, {   8,4140 }, {   9,4140 },
  {  10,4140 }, {  11,4140 }, {  12,4140 }, {  13,4140 }, {  14,4140 },
  {  15,4140 }, {  16,4140 }, {  17,4140 }, {  18,4140 }, {  19,4140 },
@@ -1537,7 +1537,7 @@ static const struct yy_trans_info yy_transition[20061] =
  { 245,4140 }, { 246,4140 }, { 247,4140 }, { 248,4140 }, { 249,4140 },
 
  { 250,4140 }, { 251,4140 }, { 252,4140 }, { 253,4140 }, { 254,4140 },
- { 255,4140 }, { 256,4140 }, {   0,  50 }, {   0,15548 }, {   1,4398 },
+ { 255,4140 }, { 256,4140 }, {   0,  50 }, {   0,16998 }, {   1,4398 },
  {   2,4398 }, {   3,4398 }, {   4,4398 }, {   5,4398 }, {   6,4398 },
  {   7,4398 }, {   8,4398 }, {   9,4398 }, {  10,4398 }, {  11,4398 },
  {  12,4398 }, {  13,4398 }, {  14,4398 }, {  15,4398 }, {  16,4398 },
@@ -1594,7 +1594,7 @@ static const struct yy_trans_info yy_transition[20061] =
  { 242,4398 }, { 243,4398 }, { 244,4398 }, { 245,4398 }, { 246,4398 },
  { 247,4398 }, { 248,4398 }, { 249,4398 }, { 250,4398 }, { 251,4398 },
  { 252,4398 }, { 253,4398 }, { 254,4398 }, { 255,4398 }, { 256,4398 },
- {   0,  50 }, {   0,15290 }, {   1,3332 }, {   2,3332 }, {   3,3332 },
+ {   0,  50 }, {   0,16740 }, {   1,3332 }, {   2,3332 }, {   3,3332 },
  {   4,3332 }, {   5,3332 }, {   6,3332 }, {   7,3332 }, {   8,3332 },
  {   9,3307 }, {  10,3307 }, {  11,3332 }, {  12,3332 }, {  13,3307 },
  {  14,3332 }, {  15,3332 }, {  16,3332 }, {  17,3332 }, {  18,3332 },
@@ -1650,26 +1650,26 @@ static const struct yy_trans_info yy_transition[20061] =
  { 239,3332 }, { 240,3332 }, { 241,3332 }, { 242,3332 }, { 243,3332 },
  { 244,3332 }, { 245,3332 }, { 246,3332 }, { 247,3332 }, { 248,3332 },
  { 249,3332 }, { 250,3332 }, { 251,3332 }, { 252,3332 }, { 253,3332 },
- { 254,3332 }, { 255,3332 }, { 256,3332 }, {   0,  34 }, {   0,15032 },
+ { 254,3332 }, { 255,3332 }, { 256,3332 }, {   0,  34 }, {   0,16482 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,3338 }, {  10,3338 },
  {   0,   0 }, {   0,   0 }, {  13,3338 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,  50 }, {   0,15014 }, {   0,  42 }, {   0,15012 },
+ {   0,   0 }, {   0,  50 }, {   0,16464 }, {   0,  42 }, {   0,16462 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  32,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  41,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  46,3340 }, {  47,3338 }, {   0,  50 }, {   0,14983 }, {   0,  50 },
- {   0,14981 }, {   0,   7 }, {   0,14979 }, {   0,  51 }, {   0,14977 },
+ {  46,3340 }, {  47,3338 }, {   0,  50 }, {   0,16433 }, {   0,  50 },
+ {   0,16431 }, {   0,   7 }, {   0,16429 }, {   0,  51 }, {   0,16427 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  61,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,  50 }, {   0,14950 }, {   1,2992 }, {   2,2992 }, {   3,2992 },
+ {   0,  50 }, {   0,16400 }, {   1,2992 }, {   2,2992 }, {   3,2992 },
  {   4,2992 }, {   5,2992 }, {   6,2992 }, {   7,2992 }, {   8,2992 },
  {   9,3262 }, {  10,3262 }, {  11,2992 }, {  12,2992 }, {  13,3262 },
  {  14,2992 }, {  15,2992 }, {  16,2992 }, {  17,2992 }, {  18,2992 },
@@ -1725,7 +1725,7 @@ static const struct yy_trans_info yy_transition[20061] =
 
  { 244,2992 }, { 245,2992 }, { 246,2992 }, { 247,2992 }, { 248,2992 },
  { 249,2992 }, { 250,2992 }, { 251,2992 }, { 252,2992 }, { 253,2992 },
- { 254,2992 }, { 255,2992 }, { 256,2992 }, {   0,  50 }, {   0,14692 },
+ { 254,2992 }, { 255,2992 }, { 256,2992 }, {   0,  50 }, {   0,16142 },
  {   1,4375 }, {   2,4375 }, {   3,4375 }, {   4,4375 }, {   5,4375 },
  {   6,4375 }, {   7,4375 }, {   8,4375 }, {   9,4375 }, {  10,4375 },
  {  11,4375 }, {  12,4375 }, {  13,4375 }, {  14,4375 }, {  15,4375 },
@@ -1782,7 +1782,7 @@ static const struct yy_trans_info yy_transition[20061] =
  { 241,4375 }, { 242,4375 }, { 243,4375 }, { 244,4375 }, { 245,4375 },
  { 246,4375 }, { 247,4375 }, { 248,4375 }, { 249,4375 }, { 250,4375 },
  { 251,4375 }, { 252,4375 }, { 253,4375 }, { 254,4375 }, { 255,4375 },
- { 256,4375 }, {   0,  50 }, {   0,14434 }, {   1,2476 }, {   2,2476 },
+ { 256,4375 }, {   0,  50 }, {   0,15884 }, {   1,2476 }, {   2,2476 },
  {   3,2476 }, {   4,2476 }, {   5,2476 }, {   6,2476 }, {   7,2476 },
  {   8,2476 }, {   9,2451 }, {  10,2451 }, {  11,2476 }, {  12,2476 },
  {  13,2451 }, {  14,2476 }, {  15,2476 }, {  16,2476 }, {  17,2476 },
@@ -1839,7 +1839,7 @@ static const struct yy_trans_info yy_transition[20061] =
  { 243,2476 }, { 244,2476 }, { 245,2476 }, { 246,2476 }, { 247,2476 },
  { 248,2476 }, { 249,2476 }, { 250,2476 }, { 251,2476 }, { 252,2476 },
  { 253,2476 }, { 254,2476 }, { 255,2476 }, { 256,2476 }, {   0,  50 },
- {   0,14176 }, {   1,2218 }, {   2,2218 }, {   3,2218 }, {   4,2218 },
+ {   0,15626 }, {   1,2218 }, {   2,2218 }, {   3,2218 }, {   4,2218 },
  {   5,2218 }, {   6,2218 }, {   7,2218 }, {   8,2218 }, {   9,2193 },
  {  10,2193 }, {  11,2218 }, {  12,2218 }, {  13,2193 }, {  14,2218 },
  {  15,2218 }, {  16,2218 }, {  17,2218 }, {  18,2218 }, {  19,2218 },
@@ -1895,7 +1895,7 @@ static const struct yy_trans_info yy_transition[20061] =
  { 240,2218 }, { 241,2218 }, { 242,2218 }, { 243,2218 }, { 244,2218 },
  { 245,2218 }, { 246,2218 }, { 247,2218 }, { 248,2218 }, { 249,2218 },
  { 250,2218 }, { 251,2218 }, { 252,2218 }, { 253,2218 }, { 254,2218 },
- { 255,2218 }, { 256,2218 }, {   0,  50 }, {   0,13918 }, {   1,1960 },
+ { 255,2218 }, { 256,2218 }, {   0,  50 }, {   0,15368 }, {   1,1960 },
  {   2,1960 }, {   3,1960 }, {   4,1960 }, {   5,1960 }, {   6,1960 },
  {   7,1960 }, {   8,1960 }, {   9,1935 }, {  10,1935 }, {  11,1960 },
 
@@ -1952,7 +1952,7 @@ static const struct yy_trans_info yy_transition[20061] =
  { 242,1960 }, { 243,1960 }, { 244,1960 }, { 245,1960 }, { 246,1960 },
  { 247,1960 }, { 248,1960 }, { 249,1960 }, { 250,1960 }, { 251,1960 },
  { 252,1960 }, { 253,1960 }, { 254,1960 }, { 255,1960 }, { 256,1960 },
- {   0,  50 }, {   0,13660 }, {   1,1702 }, {   2,1702 }, {   3,1702 },
+ {   0,  50 }, {   0,15110 }, {   1,1702 }, {   2,1702 }, {   3,1702 },
 
  {   4,1702 }, {   5,1702 }, {   6,1702 }, {   7,1702 }, {   8,1702 },
  {   9,1677 }, {  10,1677 }, {  11,1702 }, {  12,1702 }, {  13,1677 },
@@ -2009,7 +2009,7 @@ static const struct yy_trans_info yy_transition[20061] =
  { 244,1702 }, { 245,1702 }, { 246,1702 }, { 247,1702 }, { 248,1702 },
  { 249,1702 }, { 250,1702 }, { 251,1702 }, { 252,1702 }, { 253,1702 },
 
- { 254,1702 }, { 255,1702 }, { 256,1702 }, {   0,  50 }, {   0,13402 },
+ { 254,1702 }, { 255,1702 }, { 256,1702 }, {   0,  50 }, {   0,14852 },
  {   1,1444 }, {   2,1444 }, {   3,1444 }, {   4,1444 }, {   5,1444 },
  {   6,1444 }, {   7,1444 }, {   8,1444 }, {   9,1419 }, {  10,1419 },
  {  11,1444 }, {  12,1444 }, {  13,1419 }, {  14,1444 }, {  15,1444 },
@@ -2066,7 +2066,7 @@ static const struct yy_trans_info yy_transition[20061] =
 
  { 246,1444 }, { 247,1444 }, { 248,1444 }, { 249,1444 }, { 250,1444 },
  { 251,1444 }, { 252,1444 }, { 253,1444 }, { 254,1444 }, { 255,1444 },
- { 256,1444 }, {   0,  51 }, {   0,13144 }, {   1,4769 }, {   2,4769 },
+ { 256,1444 }, {   0,  51 }, {   0,14594 }, {   1,4769 }, {   2,4769 },
  {   3,4769 }, {   4,4769 }, {   5,4769 }, {   6,4769 }, {   7,4769 },
  {   8,4769 }, {   9,4769 }, {  10,4769 }, {  11,4769 }, {  12,4769 },
  {  13,4769 }, {  14,4769 }, {  15,4769 }, {  16,4769 }, {  17,4769 },
@@ -2123,7 +2123,7 @@ static const struct yy_trans_info yy_transition[20061] =
  { 243,4769 }, { 244,4769 }, { 245,4769 }, { 246,4769 }, { 247,4769 },
  { 248,4769 }, { 249,4769 }, { 250,4769 }, { 251,4769 }, { 252,4769 },
  { 253,4769 }, { 254,4769 }, { 255,4769 }, { 256,4769 }, {   0,  51 },
- {   0,12886 }, {   1,4511 }, {   2,4511 }, {   3,4511 }, {   4,4511 },
+ {   0,14336 }, {   1,4511 }, {   2,4511 }, {   3,4511 }, {   4,4511 },
  {   5,4511 }, {   6,4511 }, {   7,4511 }, {   8,4511 }, {   9,4511 },
  {  10,4511 }, {  11,4511 }, {  12,4511 }, {  13,4511 }, {  14,4511 },
  {  15,4511 }, {  16,4511 }, {  17,4511 }, {  18,4511 }, {  19,4511 },
@@ -2179,7 +2179,7 @@ static const struct yy_trans_info yy_transition[20061] =
  { 240,4511 }, { 241,4511 }, { 242,4511 }, { 243,4511 }, { 244,4511 },
  { 245,4511 }, { 246,4511 }, { 247,4511 }, { 248,4511 }, { 249,4511 },
  { 250,4511 }, { 251,4511 }, { 252,4511 }, { 253,4511 }, { 254,4511 },
- { 255,4511 }, { 256,4511 }, {   0,  10 }, {   0,12628 }, {   1,4769 },
+ { 255,4511 }, { 256,4511 }, {   0,  10 }, {   0,14078 }, {   1,4769 },
  {   2,4769 }, {   3,4769 }, {   4,4769 }, {   5,4769 }, {   6,4769 },
  {   7,4769 }, {   8,4769 }, {   9,4769 }, {  10,4769 }, {  11,4769 },
  {  12,4769 }, {  13,4769 }, {  14,4769 }, {  15,4769 }, {  16,4769 },
@@ -2236,7 +2236,7 @@ static const struct yy_trans_info yy_transition[20061] =
  { 242,4769 }, { 243,4769 }, { 244,4769 }, { 245,4769 }, { 246,4769 },
  { 247,4769 }, { 248,4769 }, { 249,4769 }, { 250,4769 }, { 251,4769 },
  { 252,4769 }, { 253,4769 }, { 254,4769 }, { 255,4769 }, {   0,  11 },
- {   0,12371 }, {   0,   2 }, {   0,12369 }, {   0,   0 }, {   0,12367 },
+ {   0,13821 }, {   0,   2 }, {   0,13819 }, {   0,   0 }, {   0,13817 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 },
 
@@ -2264,7 +2264,7 @@ static const struct yy_trans_info yy_transition[20061] =
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,4769 }, {   0,   2 },
- {   0,12246 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
+ {   0,13696 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
  {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
  {  10,-123 }, {  11,   0 }, {  12,   0 }, {  13,-123 }, {  14,   0 },
  {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
@@ -2320,13 +2320,13 @@ static const struct yy_trans_info yy_transition[20061] =
  { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
  { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
  { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
- { 255,   0 }, {   0,   0 }, {   0,11989 }, {   0,   0 }, {   0,11987 },
- {   0,   5 }, {   0,11985 }, {   0,  48 }, {   0,11983 }, {   0,   0 },
+ { 255,   0 }, {   0,   0 }, {   0,13439 }, {   0,   0 }, {   0,13437 },
+ {   0,   5 }, {   0,13435 }, {   0,  48 }, {   0,13433 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,11958 }, {   1,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,13408 }, {   1,   0 },
 
  {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
  {   7,   0 }, {   8,   0 }, {   9, -25 }, {  10, -25 }, {  11,   0 },
@@ -2384,14 +2384,14 @@ static const struct yy_trans_info yy_transition[20061] =
  { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
 
  { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
- {   0,  35 }, {   0,11700 }, {   0,  38 }, {   0,11698 }, {   0,  39 },
- {   0,11696 }, {   0,  33 }, {   0,11694 }, {   0,  32 }, {   0,11692 },
- {   9,   0 }, {  10,   0 }, {   0,  47 }, {   0,11688 }, {  13,   0 },
- {   0,  49 }, {   0,11685 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  35 }, {   0,13150 }, {   0,  38 }, {   0,13148 }, {   0,  39 },
+ {   0,13146 }, {   0,  33 }, {   0,13144 }, {   0,  32 }, {   0,13142 },
+ {   9,   0 }, {  10,   0 }, {   0,  47 }, {   0,13138 }, {  13,   0 },
+ {   0,  49 }, {   0,13135 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 },
- {   0,11666 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
+ {   0,13116 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
  {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
 
  {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 }, {  14,   0 },
@@ -2447,7 +2447,7 @@ static const struct yy_trans_info yy_transition[20061] =
  { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
  { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
  { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
- { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,11408 }, {   1,-258 },
+ { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,12858 }, {   1,-258 },
 
  {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 },
  {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 },
@@ -2505,7 +2505,7 @@ static const struct yy_trans_info yy_transition[20061] =
  { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 },
 
  { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 },
- {   0,   0 }, {   0,11150 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   0,   0 }, {   0,12600 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
  {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
  {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
  {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
@@ -2561,7 +2561,7 @@ static const struct yy_trans_info yy_transition[20061] =
 
  { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
  { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,10892 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,12342 },
  {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
  {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
  {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 },
@@ -2618,7 +2618,7 @@ static const struct yy_trans_info yy_transition[20061] =
  { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
  { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
  { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
- { 256,-258 }, {   0,   0 }, {   0,10634 }, {   1,-1324 }, {   2,-1324 },
+ { 256,-258 }, {   0,   0 }, {   0,12084 }, {   1,-1324 }, {   2,-1324 },
  {   3,-1324 }, {   4,-1324 }, {   5,-1324 }, {   6,-1324 }, {   7,-1324 },
  {   8,-1324 }, {   9,-1054 }, {  10,-1054 }, {  11,-1324 }, {  12,-1324 },
  {  13,-1054 }, {  14,-1324 }, {  15,-1324 }, {  16,-1324 }, {  17,-1324 },
@@ -2675,7 +2675,7 @@ static const struct yy_trans_info yy_transition[20061] =
  { 243,-1324 }, { 244,-1324 }, { 245,-1324 }, { 246,-1324 }, { 247,-1324 },
  { 248,-1324 }, { 249,-1324 }, { 250,-1324 }, { 251,-1324 }, { 252,-1324 },
  { 253,-1324 }, { 254,-1324 }, { 255,-1324 }, { 256,-1324 }, {   0,  48 },
- {   0,10376 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,11826 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -2687,7 +2687,7 @@ static const struct yy_trans_info yy_transition[20061] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  48,3676 }, {  49,3676 },
  {  50,3676 }, {  51,3676 }, {  52,3676 }, {  53,3676 }, {  54,3676 },
- {  55,3676 }, {  56,3676 }, {  57,3676 }, {   0,   0 }, {   0,10317 },
+ {  55,3676 }, {  56,3676 }, {  57,3676 }, {   0,   0 }, {   0,11767 },
  {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 },
  {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,   0 },
 
@@ -2744,7 +2744,7 @@ static const struct yy_trans_info yy_transition[20061] =
  { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 },
  { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 },
  { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 },
- { 256,   0 }, {   0,   0 }, {   0,10059 }, {   1,-258 }, {   2,-258 },
+ { 256,   0 }, {   0,   0 }, {   0,11509 }, {   1,-258 }, {   2,-258 },
 
  {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 }, {   7,-258 },
  {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 }, {  12,-258 },
@@ -2802,7 +2802,7 @@ static const struct yy_trans_info yy_transition[20061] =
  { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 }, { 252,-258 },
 
  { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 }, {   0,   0 },
- {   0,9801 }, {   1,-2157 }, {   2,-2157 }, {   3,-2157 }, {   4,-2157 },
+ {   0,11251 }, {   1,-2157 }, {   2,-2157 }, {   3,-2157 }, {   4,-2157 },
  {   5,-2157 }, {   6,-2157 }, {   7,-2157 }, {   8,-2157 }, {   9,3487 },
  {  10,3487 }, {  11,-2157 }, {  12,-2157 }, {  13,3487 }, {  14,-2157 },
  {  15,-2157 }, {  16,-2157 }, {  17,-2157 }, {  18,-2157 }, {  19,-2157 },
@@ -2858,7 +2858,7 @@ static const struct yy_trans_info yy_transition[20061] =
 
  { 245,-2157 }, { 246,-2157 }, { 247,-2157 }, { 248,-2157 }, { 249,-2157 },
  { 250,-2157 }, { 251,-2157 }, { 252,-2157 }, { 253,-2157 }, { 254,-2157 },
- { 255,-2157 }, { 256,-2157 }, {   0,   0 }, {   0,9543 }, {   1,-2415 },
+ { 255,-2157 }, { 256,-2157 }, {   0,   0 }, {   0,10993 }, {   1,-2415 },
  {   2,-2415 }, {   3,-2415 }, {   4,-2415 }, {   5,-2415 }, {   6,-2415 },
  {   7,-2415 }, {   8,-2415 }, {   9,-2440 }, {  10,-2440 }, {  11,-2415 },
  {  12,-2415 }, {  13,-2440 }, {  14,-2415 }, {  15,-2415 }, {  16,-2415 },
@@ -2915,7 +2915,7 @@ static const struct yy_trans_info yy_transition[20061] =
  { 242,-2415 }, { 243,-2415 }, { 244,-2415 }, { 245,-2415 }, { 246,-2415 },
  { 247,-2415 }, { 248,-2415 }, { 249,-2415 }, { 250,-2415 }, { 251,-2415 },
  { 252,-2415 }, { 253,-2415 }, { 254,-2415 }, { 255,-2415 }, { 256,-2415 },
- {   0,   0 }, {   0,9285 }, {   1,-2673 }, {   2,-2673 }, {   3,-2673 },
+ {   0,   0 }, {   0,10735 }, {   1,-2673 }, {   2,-2673 }, {   3,-2673 },
  {   4,-2673 }, {   5,-2673 }, {   6,-2673 }, {   7,-2673 }, {   8,-2673 },
  {   9,-2698 }, {  10,-2698 }, {  11,-2673 }, {  12,-2673 }, {  13,-2698 },
  {  14,-2673 }, {  15,-2673 }, {  16,-2673 }, {  17,-2673 }, {  18,-2673 },
@@ -2971,7 +2971,7 @@ static const struct yy_trans_info yy_transition[20061] =
  { 239,-2673 }, { 240,-2673 }, { 241,-2673 }, { 242,-2673 }, { 243,-2673 },
  { 244,-2673 }, { 245,-2673 }, { 246,-2673 }, { 247,-2673 }, { 248,-2673 },
  { 249,-2673 }, { 250,-2673 }, { 251,-2673 }, { 252,-2673 }, { 253,-2673 },
- { 254,-2673 }, { 255,-2673 }, { 256,-2673 }, {   0,   0 }, {   0,9027 },
+ { 254,-2673 }, { 255,-2673 }, { 256,-2673 }, {   0,   0 }, {   0,10477 },
  {   1,-2931 }, {   2,-2931 }, {   3,-2931 }, {   4,-2931 }, {   5,-2931 },
  {   6,-2931 }, {   7,-2931 }, {   8,-2931 }, {   9,-2956 }, {  10,-2956 },
  {  11,-2931 }, {  12,-2931 }, {  13,-2956 }, {  14,-2931 }, {  15,-2931 },
@@ -3028,7 +3028,7 @@ static const struct yy_trans_info yy_transition[20061] =
  { 241,-2931 }, { 242,-2931 }, { 243,-2931 }, { 244,-2931 }, { 245,-2931 },
  { 246,-2931 }, { 247,-2931 }, { 248,-2931 }, { 249,-2931 }, { 250,-2931 },
  { 251,-2931 }, { 252,-2931 }, { 253,-2931 }, { 254,-2931 }, { 255,-2931 },
- { 256,-2931 }, {   0,   0 }, {   0,8769 }, {   1,-3189 }, {   2,-3189 },
+ { 256,-2931 }, {   0,   0 }, {   0,10219 }, {   1,-3189 }, {   2,-3189 },
  {   3,-3189 }, {   4,-3189 }, {   5,-3189 }, {   6,-3189 }, {   7,-3189 },
  {   8,-3189 }, {   9,-3214 }, {  10,-3214 }, {  11,-3189 }, {  12,-3189 },
 
@@ -3085,16 +3085,16 @@ static const struct yy_trans_info yy_transition[20061] =
  { 243,-3189 }, { 244,-3189 }, { 245,-3189 }, { 246,-3189 }, { 247,-3189 },
  { 248,-3189 }, { 249,-3189 }, { 250,-3189 }, { 251,-3189 }, { 252,-3189 },
  { 253,-3189 }, { 254,-3189 }, { 255,-3189 }, { 256,-3189 }, {   0,  30 },
- {   0,8511 }, {   0,  37 }, {   0,8509 }, {   0,   0 }, {   0,8507 },
+ {   0,9961 }, {   0,  37 }, {   0,9959 }, {   0,   0 }, {   0,9957 },
 
- {   0,   0 }, {   0,8505 }, {   0,   0 }, {   0,8503 }, {   9,3289 },
- {  10,3289 }, {   0,  13 }, {   0,8499 }, {  13,3289 }, {   0,   0 },
+ {   0,   0 }, {   0,9955 }, {   0,   0 }, {   0,9953 }, {   9,3289 },
+ {  10,3289 }, {   0,  13 }, {   0,9949 }, {  13,3289 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  32,3289 }, {  33, 917 }, {   0,   0 },
  {  35, 919 }, {   0,   0 }, {   0,   0 }, {  38, 921 }, {   0,   0 },
- {   0,   0 }, {  33,3285 }, {  42, 923 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  33,3414 }, {  42, 923 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  47, 925 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
@@ -3114,8 +3114,8 @@ static const struct yy_trans_info yy_transition[20061] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,2225 }, {   0,   0 },
  {   0,   0 }, { 126,3297 }, { 125,2226 }, {   0,   0 }, { 125,2251 },
- {   0,   0 }, { 125,2285 }, {   0,   0 }, {   0,   0 }, { 126,3287 },
- {   0,   0 }, {   0,8375 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   0,   0 }, { 125,2285 }, {   0,   0 }, {   0,   0 }, { 126,2309 },
+ {   0,   0 }, {   0,9825 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
  {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
  {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
  {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
@@ -3171,7 +3171,7 @@ static const struct yy_trans_info yy_transition[20061] =
  { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
  { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
  { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,8117 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,9567 },
  {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
  {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
 
@@ -3228,7 +3228,7 @@ static const struct yy_trans_info yy_transition[20061] =
  { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
  { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
  { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
- { 256,-258 }, {   0,  10 }, {   0,7859 }, {   1,   0 }, {   2,   0 },
+ { 256,-258 }, {   0,  10 }, {   0,9309 }, {   1,   0 }, {   2,   0 },
 
  {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
  {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 },
@@ -3285,11 +3285,11 @@ static const struct yy_trans_info yy_transition[20061] =
  { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
  { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
 
- { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   0 }, {   0,7602 },
- {   0,   0 }, {   0,7600 }, {   0,   0 }, {   0,7598 }, {   0,   5 },
- {   0,7596 }, {   0,  29 }, {   0,7594 }, {   0,  20 }, {   0,7592 },
- {   0,  27 }, {   0,7590 }, {   0,  30 }, {   0,7588 }, {   0,  21 },
- {   0,7586 }, {   0,  18 }, {   0,7584 }, {   0,   0 }, {   0,   0 },
+ { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   0 }, {   0,9052 },
+ {   0,   0 }, {   0,9050 }, {   0,   0 }, {   0,9048 }, {   0,   5 },
+ {   0,9046 }, {   0,  29 }, {   0,9044 }, {   0,  20 }, {   0,9042 },
+ {   0,  27 }, {   0,9040 }, {   0,  30 }, {   0,9038 }, {   0,  21 },
+ {   0,9036 }, {   0,  18 }, {   0,9034 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3297,11 +3297,11 @@ static const struct yy_trans_info yy_transition[20061] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  42,2430 }, {  45,2430 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  42,2773 }, {  45,2773 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  62,2432 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  62,2777 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3310,67 +3310,67 @@ static const struct yy_trans_info yy_transition[20061] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,7489 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,8939 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, { 123,2400 }, {   0,   0 }, { 123,2401 },
- {   0,   0 }, { 123,2401 }, {   0,   4 }, {   0,7473 }, {   1,2401 },
- {   2,2401 }, {   3,2401 }, {   4,2401 }, {   5,2401 }, {   6,2401 },
- {   7,2401 }, {   8,2401 }, {   9,2401 }, {  10,2289 }, {  11,2401 },
- {  12,2401 }, {  13,2289 }, {  14,2401 }, {  15,2401 }, {  16,2401 },
+ {   0,   0 }, {   0,   0 }, { 123,2386 }, {   0,   0 }, { 123,2769 },
+ {   0,   0 }, { 123,2769 }, {   0,   4 }, {   0,8923 }, {   1,2769 },
+ {   2,2769 }, {   3,2769 }, {   4,2769 }, {   5,2769 }, {   6,2769 },
+ {   7,2769 }, {   8,2769 }, {   9,2769 }, {  10,2646 }, {  11,2769 },
+ {  12,2769 }, {  13,2646 }, {  14,2769 }, {  15,2769 }, {  16,2769 },
 
- {  17,2401 }, {  18,2401 }, {  19,2401 }, {  20,2401 }, {  21,2401 },
- {  22,2401 }, {  23,2401 }, {  24,2401 }, {  25,2401 }, {  26,2401 },
- {  27,2401 }, {  28,2401 }, {  29,2401 }, {  30,2401 }, {  31,2401 },
- {  32,2401 }, {  33,2401 }, {  34,2401 }, {  35,2401 }, {  36,2401 },
- {  37,2401 }, {  38,2401 }, {  39,2401 }, {  40,2401 }, {  41,2401 },
- {  42,2401 }, {  43,2401 }, {  44,2401 }, {  45,2401 }, {  46,2401 },
- {  47,2401 }, {  48,2401 }, {  49,2401 }, {  50,2401 }, {  51,2401 },
- {  52,2401 }, {  53,2401 }, {  54,2401 }, {  55,2401 }, {  56,2401 },
- {  57,2401 }, {  58,2401 }, {  59,2401 }, {  60,2401 }, {  61,2401 },
- {  62,2401 }, {  63,2401 }, {  64,2401 }, {  65,2401 }, {  66,2401 },
+ {  17,2769 }, {  18,2769 }, {  19,2769 }, {  20,2769 }, {  21,2769 },
+ {  22,2769 }, {  23,2769 }, {  24,2769 }, {  25,2769 }, {  26,2769 },
+ {  27,2769 }, {  28,2769 }, {  29,2769 }, {  30,2769 }, {  31,2769 },
+ {  32,2769 }, {  33,2769 }, {  34,2769 }, {  35,2769 }, {  36,2769 },
+ {  37,2769 }, {  38,2769 }, {  39,2769 }, {  40,2769 }, {  41,2769 },
+ {  42,2769 }, {  43,2769 }, {  44,2769 }, {  45,2769 }, {  46,2769 },
+ {  47,2769 }, {  48,2769 }, {  49,2769 }, {  50,2769 }, {  51,2769 },
+ {  52,2769 }, {  53,2769 }, {  54,2769 }, {  55,2769 }, {  56,2769 },
+ {  57,2769 }, {  58,2769 }, {  59,2769 }, {  60,2769 }, {  61,2769 },
+ {  62,2769 }, {  63,2769 }, {  64,2769 }, {  65,2769 }, {  66,2769 },
 
- {  67,2401 }, {  68,2401 }, {  69,2401 }, {  70,2401 }, {  71,2401 },
- {  72,2401 }, {  73,2401 }, {  74,2401 }, {  75,2401 }, {  76,2401 },
- {  77,2401 }, {  78,2401 }, {  79,2401 }, {  80,2401 }, {  81,2401 },
- {  82,2401 }, {  83,2401 }, {  84,2401 }, {  85,2401 }, {  86,2401 },
- {  87,2401 }, {  88,2401 }, {  89,2401 }, {  90,2401 }, {  91,2401 },
- { 108,2968 }, {  93,2401 }, {  94,2401 }, {  95,2401 }, {  96,2401 },
- {  97,2401 }, {  98,2401 }, {  99,2401 }, { 100,2401 }, { 101,2401 },
- { 102,2401 }, { 103,2401 }, { 104,2401 }, { 105,2401 }, { 106,2401 },
- { 107,2401 }, { 108,2401 }, { 109,2401 }, { 110,2401 }, { 111,2401 },
- { 112,2401 }, { 113,2401 }, { 114,2401 }, { 115,2401 }, { 116,2401 },
+ {  67,2769 }, {  68,2769 }, {  69,2769 }, {  70,2769 }, {  71,2769 },
+ {  72,2769 }, {  73,2769 }, {  74,2769 }, {  75,2769 }, {  76,2769 },
+ {  77,2769 }, {  78,2769 }, {  79,2769 }, {  80,2769 }, {  81,2769 },
+ {  82,2769 }, {  83,2769 }, {  84,2769 }, {  85,2769 }, {  86,2769 },
+ {  87,2769 }, {  88,2769 }, {  89,2769 }, {  90,2769 }, {  91,2769 },
+ { 108,3336 }, {  93,2769 }, {  94,2769 }, {  95,2769 }, {  96,2769 },
+ {  97,2769 }, {  98,2769 }, {  99,2769 }, { 100,2769 }, { 101,2769 },
+ { 102,2769 }, { 103,2769 }, { 104,2769 }, { 105,2769 }, { 106,2769 },
+ { 107,2769 }, { 108,2769 }, { 109,2769 }, { 110,2769 }, { 111,2769 },
+ { 112,2769 }, { 113,2769 }, { 114,2769 }, { 115,2769 }, { 116,2769 },
 
- { 117,2401 }, { 118,2401 }, { 119,2401 }, { 120,2401 }, { 121,2401 },
- { 122,2401 }, { 123,2658 }, { 124,2401 }, { 125,2401 }, { 126,2401 },
- { 127,2401 }, { 128,2401 }, { 129,2401 }, { 130,2401 }, { 131,2401 },
- { 132,2401 }, { 133,2401 }, { 134,2401 }, { 135,2401 }, { 136,2401 },
- { 137,2401 }, { 138,2401 }, { 139,2401 }, { 140,2401 }, { 141,2401 },
- { 142,2401 }, { 143,2401 }, { 144,2401 }, { 145,2401 }, { 146,2401 },
- { 147,2401 }, { 148,2401 }, { 149,2401 }, { 150,2401 }, { 151,2401 },
- { 152,2401 }, { 153,2401 }, { 154,2401 }, { 155,2401 }, { 156,2401 },
- { 157,2401 }, { 158,2401 }, { 159,2401 }, { 160,2401 }, { 161,2401 },
- { 162,2401 }, { 163,2401 }, { 164,2401 }, { 165,2401 }, { 166,2401 },
+ { 117,2769 }, { 118,2769 }, { 119,2769 }, { 120,2769 }, { 121,2769 },
+ { 122,2769 }, { 123,3026 }, { 124,2769 }, { 125,2769 }, { 126,2769 },
+ { 127,2769 }, { 128,2769 }, { 129,2769 }, { 130,2769 }, { 131,2769 },
+ { 132,2769 }, { 133,2769 }, { 134,2769 }, { 135,2769 }, { 136,2769 },
+ { 137,2769 }, { 138,2769 }, { 139,2769 }, { 140,2769 }, { 141,2769 },
+ { 142,2769 }, { 143,2769 }, { 144,2769 }, { 145,2769 }, { 146,2769 },
+ { 147,2769 }, { 148,2769 }, { 149,2769 }, { 150,2769 }, { 151,2769 },
+ { 152,2769 }, { 153,2769 }, { 154,2769 }, { 155,2769 }, { 156,2769 },
+ { 157,2769 }, { 158,2769 }, { 159,2769 }, { 160,2769 }, { 161,2769 },
+ { 162,2769 }, { 163,2769 }, { 164,2769 }, { 165,2769 }, { 166,2769 },
 
- { 167,2401 }, { 168,2401 }, { 169,2401 }, { 170,2401 }, { 171,2401 },
- { 172,2401 }, { 173,2401 }, { 174,2401 }, { 175,2401 }, { 176,2401 },
- { 177,2401 }, { 178,2401 }, { 179,2401 }, { 180,2401 }, { 181,2401 },
- { 182,2401 }, { 183,2401 }, { 184,2401 }, { 185,2401 }, { 186,2401 },
- { 187,2401 }, { 188,2401 }, { 189,2401 }, { 190,2401 }, { 191,2401 },
- { 192,2401 }, { 193,2401 }, { 194,2401 }, { 195,2401 }, { 196,2401 },
- { 197,2401 }, { 198,2401 }, { 199,2401 }, { 200,2401 }, { 201,2401 },
- { 202,2401 }, { 203,2401 }, { 204,2401 }, { 205,2401 }, { 206,2401 },
- { 207,2401 }, { 208,2401 }, { 209,2401 }, { 210,2401 }, { 211,2401 },
- { 212,2401 }, { 213,2401 }, { 214,2401 }, { 215,2401 }, { 216,2401 },
+ { 167,2769 }, { 168,2769 }, { 169,2769 }, { 170,2769 }, { 171,2769 },
+ { 172,2769 }, { 173,2769 }, { 174,2769 }, { 175,2769 }, { 176,2769 },
+ { 177,2769 }, { 178,2769 }, { 179,2769 }, { 180,2769 }, { 181,2769 },
+ { 182,2769 }, { 183,2769 }, { 184,2769 }, { 185,2769 }, { 186,2769 },
+ { 187,2769 }, { 188,2769 }, { 189,2769 }, { 190,2769 }, { 191,2769 },
+ { 192,2769 }, { 193,2769 }, { 194,2769 }, { 195,2769 }, { 196,2769 },
+ { 197,2769 }, { 198,2769 }, { 199,2769 }, { 200,2769 }, { 201,2769 },
+ { 202,2769 }, { 203,2769 }, { 204,2769 }, { 205,2769 }, { 206,2769 },
+ { 207,2769 }, { 208,2769 }, { 209,2769 }, { 210,2769 }, { 211,2769 },
+ { 212,2769 }, { 213,2769 }, { 214,2769 }, { 215,2769 }, { 216,2769 },
 
- { 217,2401 }, { 218,2401 }, { 219,2401 }, { 220,2401 }, { 221,2401 },
- { 222,2401 }, { 223,2401 }, { 224,2401 }, { 225,2401 }, { 226,2401 },
- { 227,2401 }, { 228,2401 }, { 229,2401 }, { 230,2401 }, { 231,2401 },
- { 232,2401 }, { 233,2401 }, { 234,2401 }, { 235,2401 }, { 236,2401 },
- { 237,2401 }, { 238,2401 }, { 239,2401 }, { 240,2401 }, { 241,2401 },
- { 242,2401 }, { 243,2401 }, { 244,2401 }, { 245,2401 }, { 246,2401 },
- { 247,2401 }, { 248,2401 }, { 249,2401 }, { 250,2401 }, { 251,2401 },
- { 252,2401 }, { 253,2401 }, { 254,2401 }, { 255,2401 }, {   0,  38 },
- {   0,7216 }, {   1,-4450 }, {   2,-4450 }, {   3,-4450 }, {   4,-4450 },
+ { 217,2769 }, { 218,2769 }, { 219,2769 }, { 220,2769 }, { 221,2769 },
+ { 222,2769 }, { 223,2769 }, { 224,2769 }, { 225,2769 }, { 226,2769 },
+ { 227,2769 }, { 228,2769 }, { 229,2769 }, { 230,2769 }, { 231,2769 },
+ { 232,2769 }, { 233,2769 }, { 234,2769 }, { 235,2769 }, { 236,2769 },
+ { 237,2769 }, { 238,2769 }, { 239,2769 }, { 240,2769 }, { 241,2769 },
+ { 242,2769 }, { 243,2769 }, { 244,2769 }, { 245,2769 }, { 246,2769 },
+ { 247,2769 }, { 248,2769 }, { 249,2769 }, { 250,2769 }, { 251,2769 },
+ { 252,2769 }, { 253,2769 }, { 254,2769 }, { 255,2769 }, {   0,  38 },
+ {   0,8666 }, {   1,-4450 }, {   2,-4450 }, {   3,-4450 }, {   4,-4450 },
  {   5,-4450 }, {   6,-4450 }, {   7,-4450 }, {   8,-4450 }, {   9,-4450 },
 
  {  10,-4450 }, {  11,-4450 }, {  12,-4450 }, {  13,-4450 }, {  14,-4450 },
@@ -3426,7 +3426,7 @@ static const struct yy_trans_info yy_transition[20061] =
  { 240,-4450 }, { 241,-4450 }, { 242,-4450 }, { 243,-4450 }, { 244,-4450 },
  { 245,-4450 }, { 246,-4450 }, { 247,-4450 }, { 248,-4450 }, { 249,-4450 },
  { 250,-4450 }, { 251,-4450 }, { 252,-4450 }, { 253,-4450 }, { 254,-4450 },
- { 255,-4450 }, { 256,-4450 }, {   0,  39 }, {   0,6958 }, {   1,-4192 },
+ { 255,-4450 }, { 256,-4450 }, {   0,  39 }, {   0,8408 }, {   1,-4192 },
 
  {   2,-4192 }, {   3,-4192 }, {   4,-4192 }, {   5,-4192 }, {   6,-4192 },
  {   7,-4192 }, {   8,-4192 }, {   9,-4192 }, {  10,-4192 }, {  11,-4192 },
@@ -3484,15 +3484,15 @@ static const struct yy_trans_info yy_transition[20061] =
  { 247,-4192 }, { 248,-4192 }, { 249,-4192 }, { 250,-4192 }, { 251,-4192 },
 
  { 252,-4192 }, { 253,-4192 }, { 254,-4192 }, { 255,-4192 }, { 256,-4192 },
- {   0,   0 }, {   0,6700 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,8150 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   9,1523 }, {  10,1523 }, {   0,   0 }, {   0,   0 }, {  13,1523 },
+ {   9,1875 }, {  10,1875 }, {   0,   0 }, {   0,   0 }, {  13,1875 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,1523 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,1875 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,1523 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,1875 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  48,   0 },
  {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
@@ -3511,7 +3511,7 @@ static const struct yy_trans_info yy_transition[20061] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 125,1523 }, { 126,1523 }, {   0,  49 }, {   0,6572 },
+ {   0,   0 }, { 125,1875 }, { 126,1875 }, {   0,  49 }, {   0,8022 },
  {   1,-3745 }, {   2,-3745 }, {   3,-3745 }, {   4,-3745 }, {   5,-3745 },
  {   6,-3745 }, {   7,-3745 }, {   8,-3745 }, {   9,-3745 }, {  10,-3745 },
  {  11,-3745 }, {  12,-3745 }, {  13,-3745 }, {  14,-3745 }, {  15,-3745 },
@@ -3568,48 +3568,48 @@ static const struct yy_trans_info yy_transition[20061] =
  { 241,-3745 }, { 242,-3745 }, { 243,-3745 }, { 244,-3745 }, { 245,-3745 },
  { 246,-3745 }, { 247,-3745 }, { 248,-3745 }, { 249,-3745 }, { 250,-3745 },
  { 251,-3745 }, { 252,-3745 }, { 253,-3745 }, { 254,-3745 }, { 255,-3745 },
- { 256,-3745 }, {   0,  48 }, {   0,6314 }, {   0,   0 }, {   0,   0 },
+ { 256,-3745 }, {   0,  48 }, {   0,7764 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
- {   0,   0 }, {   9,1756 }, {  10,1756 }, {   0,   0 }, {   0,   0 },
- {  13,1756 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   9,2124 }, {  10,2124 }, {   0,   0 }, {   0,   0 },
+ {  13,2124 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,  26 },
- {   0,6286 }, {   0,   0 }, {   0,  36 }, {   0,6283 }, {  32,1756 },
+ {   0,7736 }, {   0,   0 }, {   0,  36 }, {   0,7733 }, {  32,2124 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
- {   0,6256 }, {   0,   0 }, {   0,6254 }, {   1,-5704 }, {   2,-5704 },
+ {   0,7706 }, {   0,   0 }, {   0,7704 }, {   1,-5704 }, {   2,-5704 },
  {   3,-5704 }, {   4,-5704 }, {   5,-5704 }, {   6,-5704 }, {   7,-5704 },
  {   8,-5704 }, {   9,-5729 }, {  10,-5729 }, {  11,-5704 }, {  12,-5704 },
  {  13,-5729 }, {  14,-5704 }, {  15,-5704 }, {  16,-5704 }, {  17,-5704 },
  {  18,-5704 }, {  19,-5704 }, {  20,-5704 }, {  21,-5704 }, {  22,-5704 },
  {  23,-5704 }, {  24,-5704 }, {  25,-5704 }, {  26,-5704 }, {  27,-5704 },
  {  28,-5704 }, {  29,-5704 }, {  30,-5704 }, {  31,-5704 }, {  32,-5729 },
- {   0,  37 }, {   0,6220 }, {   0,   0 }, {  36,-5704 }, {   0,   0 },
+ {   0,  37 }, {   0,7670 }, {   0,   0 }, {  36,-5704 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-5729 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  45,-5704 }, {  46,-5729 }, {  47,-5729 },
 
  {  48,-5704 }, {  49,-5704 }, {  50,-5704 }, {  51,-5704 }, {  52,-5704 },
  {  53,-5704 }, {  54,-5704 }, {  55,-5704 }, {  56,-5704 }, {  57,-5704 },
- {  58,-5704 }, {   0,   0 }, {   0,   0 }, {  61,-5729 }, {   0,   0 },
- {  63,-5704 }, { 124,1145 }, {  65,-5704 }, {  66,-5704 }, {  67,-5704 },
+ {  58,-5704 }, {   0,   0 }, {   0,7644 }, {  61,-5729 }, {   0,   0 },
+ {  63,-5704 }, { 124,1491 }, {  65,-5704 }, {  66,-5704 }, {  67,-5704 },
  {  68,-5704 }, {  69,-5704 }, {  70,-5704 }, {  71,-5704 }, {  72,-5704 },
  {  73,-5704 }, {  74,-5704 }, {  75,-5704 }, {  76,-5704 }, {  77,-5704 },
  {  78,-5704 }, {  79,-5704 }, {  80,-5704 }, {  81,-5704 }, {  82,-5704 },
  {  83,-5704 }, {  84,-5704 }, {  85,-5704 }, {  86,-5704 }, {  87,-5704 },
- {  88,-5704 }, {  89,-5704 }, {  90,-5704 }, { 123,1767 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-5704 }, { 125,1768 }, {  97,-5704 },
+ {  88,-5704 }, {  89,-5704 }, {  90,-5704 }, { 123,2135 }, {   0,   0 },
+ {  33,1105 }, {   0,   0 }, {  95,-5704 }, { 125,2136 }, {  97,-5704 },
 
  {  98,-5704 }, {  99,-5704 }, { 100,-5704 }, { 101,-5704 }, { 102,-5704 },
  { 103,-5704 }, { 104,-5704 }, { 105,-5704 }, { 106,-5704 }, { 107,-5704 },
  { 108,-5704 }, { 109,-5704 }, { 110,-5704 }, { 111,-5704 }, { 112,-5704 },
- { 113,-5704 }, { 114,-5704 }, { 115,1756 }, { 116,-5704 }, { 117,-5704 },
+ { 113,-5704 }, { 114,-5704 }, { 115,2124 }, { 116,-5704 }, { 117,-5704 },
  { 118,-5704 }, { 119,-5704 }, { 120,-5704 }, { 121,-5704 }, { 122,-5704 },
- { 125,1743 }, { 124,-5729 }, { 125,-5729 }, { 126,-5729 }, { 127,-5704 },
+ { 125,2111 }, { 124,-5729 }, { 125,-5729 }, { 126,-5729 }, { 127,-5704 },
  { 128,-5704 }, { 129,-5704 }, { 130,-5704 }, { 131,-5704 }, { 132,-5704 },
  { 133,-5704 }, { 134,-5704 }, { 135,-5704 }, { 136,-5704 }, { 137,-5704 },
  { 138,-5704 }, { 139,-5704 }, { 140,-5704 }, { 141,-5704 }, { 142,-5704 },
@@ -3639,7 +3639,7 @@ static const struct yy_trans_info yy_transition[20061] =
 
  { 248,-5704 }, { 249,-5704 }, { 250,-5704 }, { 251,-5704 }, { 252,-5704 },
  { 253,-5704 }, { 254,-5704 }, { 255,-5704 }, { 256,-5704 }, {   0,   0 },
- {   0,5996 }, {   1,-5962 }, {   2,-5962 }, {   3,-5962 }, {   4,-5962 },
+ {   0,7446 }, {   1,-5962 }, {   2,-5962 }, {   3,-5962 }, {   4,-5962 },
  {   5,-5962 }, {   6,-5962 }, {   7,-5962 }, {   8,-5962 }, {   9,-5987 },
  {  10,-5987 }, {  11,-5962 }, {  12,-5962 }, {  13,-5987 }, {  14,-5962 },
  {  15,-5962 }, {  16,-5962 }, {  17,-5962 }, {  18,-5962 }, {  19,-5962 },
@@ -3662,7 +3662,7 @@ static const struct yy_trans_info yy_transition[20061] =
  {  90,-5962 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  95,-5962 }, {   0,   0 }, {  97,-5962 }, {  98,-5962 }, {  99,-5962 },
  { 100,-5962 }, { 101,-5962 }, { 102,-5962 }, { 103,-5962 }, { 104,-5962 },
- { 105,-5962 }, { 106,-5962 }, { 107,-5962 }, { 108,1756 }, { 109,-5962 },
+ { 105,-5962 }, { 106,-5962 }, { 107,-5962 }, { 108,2124 }, { 109,-5962 },
  { 110,-5962 }, { 111,-5962 }, { 112,-5962 }, { 113,-5962 }, { 114,-5962 },
  { 115,-5962 }, { 116,-5962 }, { 117,-5962 }, { 118,-5962 }, { 119,-5962 },
  { 120,-5962 }, { 121,-5962 }, { 122,-5962 }, {   0,   0 }, { 124,-5987 },
@@ -3695,7 +3695,7 @@ static const struct yy_trans_info yy_transition[20061] =
  { 240,-5962 }, { 241,-5962 }, { 242,-5962 }, { 243,-5962 }, { 244,-5962 },
  { 245,-5962 }, { 246,-5962 }, { 247,-5962 }, { 248,-5962 }, { 249,-5962 },
  { 250,-5962 }, { 251,-5962 }, { 252,-5962 }, { 253,-5962 }, { 254,-5962 },
- { 255,-5962 }, { 256,-5962 }, {   0,   0 }, {   0,5738 }, {   1,-6220 },
+ { 255,-5962 }, { 256,-5962 }, {   0,   0 }, {   0,7188 }, {   1,-6220 },
  {   2,-6220 }, {   3,-6220 }, {   4,-6220 }, {   5,-6220 }, {   6,-6220 },
  {   7,-6220 }, {   8,-6220 }, {   9,-6245 }, {  10,-6245 }, {  11,-6220 },
  {  12,-6220 }, {  13,-6245 }, {  14,-6220 }, {  15,-6220 }, {  16,-6220 },
@@ -3717,7 +3717,7 @@ static const struct yy_trans_info yy_transition[20061] =
  {  82,-6220 }, {  83,-6220 }, {  84,-6220 }, {  85,-6220 }, {  86,-6220 },
  {  87,-6220 }, {  88,-6220 }, {  89,-6220 }, {  90,-6220 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-6220 }, {   0,   0 },
- {  97,-6220 }, {  98,-6220 }, {  99,-6220 }, { 100,-6220 }, { 101,1756 },
+ {  97,-6220 }, {  98,-6220 }, {  99,-6220 }, { 100,-6220 }, { 101,2124 },
  { 102,-6220 }, { 103,-6220 }, { 104,-6220 }, { 105,-6220 }, { 106,-6220 },
  { 107,-6220 }, { 108,-6220 }, { 109,-6220 }, { 110,-6220 }, { 111,-6220 },
  { 112,-6220 }, { 113,-6220 }, { 114,-6220 }, { 115,-6220 }, { 116,-6220 },
@@ -3752,7 +3752,7 @@ static const struct yy_trans_info yy_transition[20061] =
  { 242,-6220 }, { 243,-6220 }, { 244,-6220 }, { 245,-6220 }, { 246,-6220 },
  { 247,-6220 }, { 248,-6220 }, { 249,-6220 }, { 250,-6220 }, { 251,-6220 },
  { 252,-6220 }, { 253,-6220 }, { 254,-6220 }, { 255,-6220 }, { 256,-6220 },
- {   0,   0 }, {   0,5480 }, {   1,-6478 }, {   2,-6478 }, {   3,-6478 },
+ {   0,   0 }, {   0,6930 }, {   1,-6478 }, {   2,-6478 }, {   3,-6478 },
  {   4,-6478 }, {   5,-6478 }, {   6,-6478 }, {   7,-6478 }, {   8,-6478 },
  {   9,-6503 }, {  10,-6503 }, {  11,-6478 }, {  12,-6478 }, {  13,-6503 },
  {  14,-6478 }, {  15,-6478 }, {  16,-6478 }, {  17,-6478 }, {  18,-6478 },
@@ -3774,7 +3774,7 @@ static const struct yy_trans_info yy_transition[20061] =
  {  84,-6478 }, {  85,-6478 }, {  86,-6478 }, {  87,-6478 }, {  88,-6478 },
  {  89,-6478 }, {  90,-6478 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  95,-6478 }, {   0,   0 }, {  97,-6478 }, {  98,-6478 },
- {  99,-6478 }, { 100,-6478 }, { 101,1756 }, { 102,-6478 }, { 103,-6478 },
+ {  99,-6478 }, { 100,-6478 }, { 101,2124 }, { 102,-6478 }, { 103,-6478 },
  { 104,-6478 }, { 105,-6478 }, { 106,-6478 }, { 107,-6478 }, { 108,-6478 },
  { 109,-6478 }, { 110,-6478 }, { 111,-6478 }, { 112,-6478 }, { 113,-6478 },
  { 114,-6478 }, { 115,-6478 }, { 116,-6478 }, { 117,-6478 }, { 118,-6478 },
@@ -3808,21 +3808,21 @@ static const struct yy_trans_info yy_transition[20061] =
  { 239,-6478 }, { 240,-6478 }, { 241,-6478 }, { 242,-6478 }, { 243,-6478 },
  { 244,-6478 }, { 245,-6478 }, { 246,-6478 }, { 247,-6478 }, { 248,-6478 },
  { 249,-6478 }, { 250,-6478 }, { 251,-6478 }, { 252,-6478 }, { 253,-6478 },
- { 254,-6478 }, { 255,-6478 }, { 256,-6478 }, {   0,   0 }, {   0,5222 },
- {   0,  24 }, {   0,5220 }, {   0,   0 }, {   0,5218 }, {   0,   0 },
- {   0,5216 }, {   0,  30 }, {   0,5214 }, {   9,   0 }, {  10,   0 },
- {   9,1754 }, {  10,1754 }, {  13,   0 }, {   0,   0 }, {  13,1754 },
-
- {   0,   0 }, {   9,  -8 }, {  10,  -8 }, {   0,   0 }, {   0,5202 },
- {  13,  -8 }, {   0,   0 }, {   0,5199 }, {   0,   1 }, {   0,5197 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  32,   0 }, {   0,   0 }, {  32,1754 }, {   0,   0 },
- {   0,   0 }, {   0,   4 }, {   0,5184 }, {  33,  -2 }, {  32,  -8 },
- {  33,-2380 }, {   0,   0 }, {  35,-2378 }, {   0,  47 }, {   0,5177 },
- {  38,-2376 }, {   0,   0 }, {  10,   0 }, {  45, 708 }, {  42,-2374 },
- {  13,   0 }, {   0,  41 }, {   0,5169 }, {   0,   0 }, {  47,-2372 },
- {   0,   0 }, {   0,   0 }, {   0,5164 }, {   0,  20 }, {   0,5162 },
- {   0,  19 }, {   0,5160 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 254,-6478 }, { 255,-6478 }, { 256,-6478 }, {   0,   0 }, {   0,6672 },
+ {   0,  24 }, {   0,6670 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,6666 }, {   0,  30 }, {   0,6664 }, {   9,   0 }, {  10,   0 },
+ {   9,2122 }, {  10,2122 }, {  13,   0 }, {   0,   0 }, {  13,2122 },
+
+ {   0,   0 }, {   9,  -8 }, {  10,  -8 }, {   0,   0 }, {   0,   0 },
+ {  13,  -8 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  32,   0 }, {   0,   0 }, {  32,2122 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,  -8 },
+ {  33,-2380 }, {   0,   0 }, {  35,-2378 }, {   0,   0 }, {   0,   0 },
+ {  38,-2376 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  42,-2374 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  47,-2372 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  62,-2370 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3831,757 +3831,460 @@ static const struct yy_trans_info yy_transition[20061] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 101,-2267 }, {  94,  -6 }, {  45,2092 }, {   0,   0 }, {   0,   0 },
+ { 101,-2267 }, {  94,  -6 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, { 101,-2275 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
- {   0,   0 }, {   0,5105 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 125, 115 }, { 126, 688 }, {   0,   0 }, {   0,   0 },
- { 123, 697 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, { 123,1864 }, {   0,   0 }, {   0,   0 },
- { 123,2119 }, {   0,   0 }, { 123,2119 }, {   0,   4 }, {   0,5072 },
- {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 },
- {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,-112 },
- {  11,   0 }, {  12,   0 }, {  13,-112 }, {  14,   0 }, {  15,   0 },
+ {   0,   0 }, { 125, 483 }, { 126,1056 }, { 123,2762 }, {   0,   0 },
+ { 123,1065 }, {   0,   0 }, {   0,6539 }, {   1,2119 }, {   2,2119 },
+ {   3,2119 }, {   4,2119 }, {   5,2119 }, {   6,2119 }, {   7,2119 },
+ {   8,2119 }, {   9,2119 }, {  10,2119 }, {  11,2119 }, {  12,2119 },
+ {  13,2119 }, {  14,2119 }, {  15,2119 }, {  16,2119 }, {  17,2119 },
+ {  18,2119 }, {  19,2119 }, {  20,2119 }, {  21,2119 }, {  22,2119 },
+ {  23,2119 }, {  24,2119 }, {  25,2119 }, {  26,2119 }, {  27,2119 },
+ {  28,2119 }, {  29,2119 }, {  30,2119 }, {  31,2119 }, {  32,2119 },
 
- {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 },
- {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 },
- {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 },
- {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34,   0 }, {  35,   0 },
- {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 }, {  40,   0 },
- {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 }, {  45,   0 },
- {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 },
- {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 },
- {  56,   0 }, {  57,   0 }, {  58,   0 }, {  59,   0 }, {  60,   0 },
- {  61,   0 }, {  62,   0 }, {  63,   0 }, {  64,   0 }, {  65,   0 },
+ {  33,2119 }, {  34,2119 }, {  35,2119 }, {  36,2119 }, {  37,2119 },
+ {  38,2119 }, {  39,2119 }, {  40,2119 }, {  41,2119 }, {  42,2119 },
+ {  43,2119 }, {  44,2119 }, {  45,2377 }, {  46,2119 }, {  47,2119 },
+ {  48,2119 }, {  49,2119 }, {  50,2119 }, {  51,2119 }, {  52,2119 },
+ {  53,2119 }, {  54,2119 }, {  55,2119 }, {  56,2119 }, {  57,2119 },
+ {  58,2119 }, {  59,2119 }, {  60,2119 }, {  61,2119 }, {  62,2119 },
+ {  63,2119 }, {  64,2119 }, {  65,2119 }, {  66,2119 }, {  67,2119 },
+ {  68,2119 }, {  69,2119 }, {  70,2119 }, {  71,2119 }, {  72,2119 },
+ {  73,2119 }, {  74,2119 }, {  75,2119 }, {  76,2119 }, {  77,2119 },
+ {  78,2119 }, {  79,2119 }, {  80,2119 }, {  81,2119 }, {  82,2119 },
 
- {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 },
- {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 },
- {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 },
- {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 },
- {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 },
- {  91,   0 }, { 125,2035 }, {  93,   0 }, {  94,   0 }, {  95,   0 },
- {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 },
- { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 },
- { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 },
- { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 },
+ {  83,2119 }, {  84,2119 }, {  85,2119 }, {  86,2119 }, {  87,2119 },
+ {  88,2119 }, {  89,2119 }, {  90,2119 }, {  91,2119 }, {  92,2119 },
+ {  93,2119 }, {  94,2119 }, {  95,2119 }, {  96,2119 }, {  97,2119 },
+ {  98,2119 }, {  99,2119 }, { 100,2119 }, { 101,2119 }, { 102,2119 },
+ { 103,2119 }, { 104,2119 }, { 105,2119 }, { 106,2119 }, { 107,2119 },
+ { 108,2119 }, { 109,2119 }, { 110,2119 }, { 111,2119 }, { 112,2119 },
+ { 113,2119 }, { 114,2119 }, { 115,2119 }, { 116,2119 }, { 117,2119 },
+ { 118,2119 }, { 119,2119 }, { 120,2119 }, { 121,2119 }, { 122,2119 },
+ { 123,2119 }, { 124,2119 }, { 125,2119 }, { 126,2119 }, { 127,2119 },
+ { 128,2119 }, { 129,2119 }, { 130,2119 }, { 131,2119 }, { 132,2119 },
 
- { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 },
- { 121,   0 }, { 122,   0 }, {   0,   0 }, { 124,   0 }, { 125,   0 },
- { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 },
- { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 },
- { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 },
- { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 },
- { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 },
- { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 },
- { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 },
- { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 },
+ { 133,2119 }, { 134,2119 }, { 135,2119 }, { 136,2119 }, { 137,2119 },
+ { 138,2119 }, { 139,2119 }, { 140,2119 }, { 141,2119 }, { 142,2119 },
+ { 143,2119 }, { 144,2119 }, { 145,2119 }, { 146,2119 }, { 147,2119 },
+ { 148,2119 }, { 149,2119 }, { 150,2119 }, { 151,2119 }, { 152,2119 },
+ { 153,2119 }, { 154,2119 }, { 155,2119 }, { 156,2119 }, { 157,2119 },
+ { 158,2119 }, { 159,2119 }, { 160,2119 }, { 161,2119 }, { 162,2119 },
+ { 163,2119 }, { 164,2119 }, { 165,2119 }, { 166,2119 }, { 167,2119 },
+ { 168,2119 }, { 169,2119 }, { 170,2119 }, { 171,2119 }, { 172,2119 },
+ { 173,2119 }, { 174,2119 }, { 175,2119 }, { 176,2119 }, { 177,2119 },
+ { 178,2119 }, { 179,2119 }, { 180,2119 }, { 181,2119 }, { 182,2119 },
 
- { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 },
- { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 },
- { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 },
- { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 },
- { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 },
- { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 },
- { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 },
- { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 },
- { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 },
- { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 },
+ { 183,2119 }, { 184,2119 }, { 185,2119 }, { 186,2119 }, { 187,2119 },
+ { 188,2119 }, { 189,2119 }, { 190,2119 }, { 191,2119 }, { 192,2119 },
+ { 193,2119 }, { 194,2119 }, { 195,2119 }, { 196,2119 }, { 197,2119 },
+ { 198,2119 }, { 199,2119 }, { 200,2119 }, { 201,2119 }, { 202,2119 },
+ { 203,2119 }, { 204,2119 }, { 205,2119 }, { 206,2119 }, { 207,2119 },
+ { 208,2119 }, { 209,2119 }, { 210,2119 }, { 211,2119 }, { 212,2119 },
+ { 213,2119 }, { 214,2119 }, { 215,2119 }, { 216,2119 }, { 217,2119 },
+ { 218,2119 }, { 219,2119 }, { 220,2119 }, { 221,2119 }, { 222,2119 },
+ { 223,2119 }, { 224,2119 }, { 225,2119 }, { 226,2119 }, { 227,2119 },
+ { 228,2119 }, { 229,2119 }, { 230,2119 }, { 231,2119 }, { 232,2119 },
 
- { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 },
- { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 },
- { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 },
- { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 },
- { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 },
- { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 },
- { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 },
- { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 },
- {   0,   4 }, {   0,4815 }, {   1,-257 }, {   2,-257 }, {   3,-257 },
- {   4,-257 }, {   5,-257 }, {   6,-257 }, {   7,-257 }, {   8,-257 },
-
- {   9,-257 }, {  10,-369 }, {  11,-257 }, {  12,-257 }, {  13,-369 },
- {  14,-257 }, {  15,-257 }, {  16,-257 }, {  17,-257 }, {  18,-257 },
- {  19,-257 }, {  20,-257 }, {  21,-257 }, {  22,-257 }, {  23,-257 },
- {  24,-257 }, {  25,-257 }, {  26,-257 }, {  27,-257 }, {  28,-257 },
- {  29,-257 }, {  30,-257 }, {  31,-257 }, {  32,-257 }, {  33,-257 },
- {  34,-257 }, {  35,-257 }, {  36,-257 }, {  37,-257 }, {  38,-257 },
- {  39,-257 }, {  40,-257 }, {  41,-257 }, {  42,-257 }, {  43,-257 },
- {  44,-257 }, {  45,-257 }, {  46,-257 }, {  47,-257 }, {  48,-257 },
- {  49,-257 }, {  50,-257 }, {  51,-257 }, {  52,-257 }, {  53,-257 },
- {  54,-257 }, {  55,-257 }, {  56,-257 }, {  57,-257 }, {  58,-257 },
-
- {  59,-257 }, {  60,-257 }, {  61,-257 }, {  62,-257 }, {  63,-257 },
- {  64,-257 }, {  65,-257 }, {  66,-257 }, {  67,-257 }, {  68,-257 },
- {  69,-257 }, {  70,-257 }, {  71,-257 }, {  72,-257 }, {  73,-257 },
- {  74,-257 }, {  75,-257 }, {  76,-257 }, {  77,-257 }, {  78,-257 },
- {  79,-257 }, {  80,-257 }, {  81,-257 }, {  82,-257 }, {  83,-257 },
- {  84,-257 }, {  85,-257 }, {  86,-257 }, {  87,-257 }, {  88,-257 },
- {  89,-257 }, {  90,-257 }, {  91,-257 }, {   0,   0 }, {  93,-257 },
- {  94,-257 }, {  95,-257 }, {  96,-257 }, {  97,-257 }, {  98,-257 },
- {  99,-257 }, { 100,-257 }, { 101,-257 }, { 102,-257 }, { 103,-257 },
- { 104,-257 }, { 105,-257 }, { 106,-257 }, { 107,-257 }, { 108,-257 },
-
- { 109,-257 }, { 110,-257 }, { 111,-257 }, { 112,-257 }, { 113,-257 },
- { 114,-257 }, { 115,-257 }, { 116,-257 }, { 117,-257 }, { 118,-257 },
- { 119,-257 }, { 120,-257 }, { 121,-257 }, { 122,-257 }, {   0,   0 },
- { 124,-257 }, { 125,-257 }, { 126,-257 }, { 127,-257 }, { 128,-257 },
- { 129,-257 }, { 130,-257 }, { 131,-257 }, { 132,-257 }, { 133,-257 },
- { 134,-257 }, { 135,-257 }, { 136,-257 }, { 137,-257 }, { 138,-257 },
- { 139,-257 }, { 140,-257 }, { 141,-257 }, { 142,-257 }, { 143,-257 },
- { 144,-257 }, { 145,-257 }, { 146,-257 }, { 147,-257 }, { 148,-257 },
- { 149,-257 }, { 150,-257 }, { 151,-257 }, { 152,-257 }, { 153,-257 },
- { 154,-257 }, { 155,-257 }, { 156,-257 }, { 157,-257 }, { 158,-257 },
-
- { 159,-257 }, { 160,-257 }, { 161,-257 }, { 162,-257 }, { 163,-257 },
- { 164,-257 }, { 165,-257 }, { 166,-257 }, { 167,-257 }, { 168,-257 },
- { 169,-257 }, { 170,-257 }, { 171,-257 }, { 172,-257 }, { 173,-257 },
- { 174,-257 }, { 175,-257 }, { 176,-257 }, { 177,-257 }, { 178,-257 },
- { 179,-257 }, { 180,-257 }, { 181,-257 }, { 182,-257 }, { 183,-257 },
- { 184,-257 }, { 185,-257 }, { 186,-257 }, { 187,-257 }, { 188,-257 },
- { 189,-257 }, { 190,-257 }, { 191,-257 }, { 192,-257 }, { 193,-257 },
- { 194,-257 }, { 195,-257 }, { 196,-257 }, { 197,-257 }, { 198,-257 },
- { 199,-257 }, { 200,-257 }, { 201,-257 }, { 202,-257 }, { 203,-257 },
- { 204,-257 }, { 205,-257 }, { 206,-257 }, { 207,-257 }, { 208,-257 },
-
- { 209,-257 }, { 210,-257 }, { 211,-257 }, { 212,-257 }, { 213,-257 },
- { 214,-257 }, { 215,-257 }, { 216,-257 }, { 217,-257 }, { 218,-257 },
- { 219,-257 }, { 220,-257 }, { 221,-257 }, { 222,-257 }, { 223,-257 },
- { 224,-257 }, { 225,-257 }, { 226,-257 }, { 227,-257 }, { 228,-257 },
- { 229,-257 }, { 230,-257 }, { 231,-257 }, { 232,-257 }, { 233,-257 },
- { 234,-257 }, { 235,-257 }, { 236,-257 }, { 237,-257 }, { 238,-257 },
- { 239,-257 }, { 240,-257 }, { 241,-257 }, { 242,-257 }, { 243,-257 },
- { 244,-257 }, { 245,-257 }, { 246,-257 }, { 247,-257 }, { 248,-257 },
- { 249,-257 }, { 250,-257 }, { 251,-257 }, { 252,-257 }, { 253,-257 },
- { 254,-257 }, { 255,-257 }, {   0,   0 }, {   0,4558 }, {   0,   0 },
+ { 233,2119 }, { 234,2119 }, { 235,2119 }, { 236,2119 }, { 237,2119 },
+ { 238,2119 }, { 239,2119 }, { 240,2119 }, { 241,2119 }, { 242,2119 },
+ { 243,2119 }, { 244,2119 }, { 245,2119 }, { 246,2119 }, { 247,2119 },
+ { 248,2119 }, { 249,2119 }, { 250,2119 }, { 251,2119 }, { 252,2119 },
+ { 253,2119 }, { 254,2119 }, { 255,2119 }, { 256,2119 }, {   0,   0 },
+ {   0,6281 }, {   0,   1 }, {   0,6279 }, {   0,   4 }, {   0,6277 },
+ {   0,  47 }, {   0,6275 }, {   0,  41 }, {   0,6273 }, {   0,   0 },
+ {   0,6271 }, {   0,  20 }, {   0,6269 }, {   0,   0 }, {  10,   0 },
+ {   0,  19 }, {   0,6265 }, {  13,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   9,   0 }, {  10,   0 }, {   0,   0 },
- {   0,   0 }, {  13,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,4532 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  32,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,4521 }, {   0,  16 }, {   0,4519 }, {   0,  26 }, {   0,4517 },
- {   0,  17 }, {   0,4515 }, {   0,  36 }, {   0,4513 }, {   0,   0 },
- {   0,   0 }, {   0,4510 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,4498 }, {   1,-7460 },
- {   2,-7460 }, {   3,-7460 }, {   4,-7460 }, {   5,-7460 }, {   6,-7460 },
- {   7,-7460 }, {   8,-7460 }, {   9,-7485 }, {  10,-7485 }, {  11,-7460 },
- {  12,-7460 }, {  13,-7485 }, {  14,-7460 }, {  15,-7460 }, {  16,-7460 },
- {  17,-7460 }, {  18,-7460 }, {  19,-7460 }, {  20,-7460 }, {  21,-7460 },
- {  22,-7460 }, {  23,-7460 }, {  24,-7460 }, {  25,-7460 }, {  26,-7460 },
- {  27,-7460 }, {  28,-7460 }, {  29,-7460 }, {  30,-7460 }, {  31,-7460 },
- {  32,-7485 }, {  45,1973 }, {   0,   0 }, {   0,   0 }, {  36,-7460 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-7485 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-7460 }, {  46,-7485 },
- {  47,-7485 }, {  48,-7460 }, {  49,-7460 }, {  50,-7460 }, {  51,-7460 },
- {  52,-7460 }, {  53,-7460 }, {  54,-7460 }, {  55,-7460 }, {  56,-7460 },
- {  57,-7460 }, {  58,-7460 }, {   0,   0 }, {   0,   0 }, {  61,-7485 },
- {   0,   0 }, {  63,-7460 }, { 124,-611 }, {  65,-7460 }, {  66,-7460 },
- {  67,-7460 }, {  68,-7460 }, {  69,-7460 }, {  70,-7460 }, {  71,-7460 },
- {  72,-7460 }, {  73,-7460 }, {  74,-7460 }, {  75,-7460 }, {  76,-7460 },
- {  77,-7460 }, {  78,-7460 }, {  79,-7460 }, {  80,-7460 }, {  81,-7460 },
- {  82,-7460 }, {  83,-7460 }, {  84,-7460 }, {  85,-7460 }, {  86,-7460 },
- {  87,-7460 }, {  88,-7460 }, {  89,-7460 }, {  90,-7460 }, { 125,-573 },
-
- { 115,1458 }, {   0,   0 }, {   0,   0 }, {  95,-7460 }, {   0,   0 },
- {  97,-7460 }, {  98,-7460 }, {  99,-7460 }, { 100,-7460 }, { 101,1445 },
- { 102,-7460 }, { 103,-7460 }, { 104,-7460 }, { 105,-7460 }, { 106,-7460 },
- { 107,-7460 }, { 108,-7460 }, { 109,-7460 }, { 110,-7460 }, { 111,-7460 },
- { 112,-7460 }, { 113,-7460 }, { 114,-7460 }, { 115,-7460 }, { 116,-7460 },
- { 117,-7460 }, { 118,-7460 }, { 119,-7460 }, { 120,-7460 }, { 121,-7460 },
- { 122,-7460 }, {   0,   0 }, { 124,-7485 }, { 125,-7485 }, { 126,-7485 },
- { 127,-7460 }, { 128,-7460 }, { 129,-7460 }, { 130,-7460 }, { 131,-7460 },
- { 132,-7460 }, { 133,-7460 }, { 134,-7460 }, { 135,-7460 }, { 136,-7460 },
- { 137,-7460 }, { 138,-7460 }, { 139,-7460 }, { 140,-7460 }, { 141,-7460 },
-
- { 142,-7460 }, { 143,-7460 }, { 144,-7460 }, { 145,-7460 }, { 146,-7460 },
- { 147,-7460 }, { 148,-7460 }, { 149,-7460 }, { 150,-7460 }, { 151,-7460 },
- { 152,-7460 }, { 153,-7460 }, { 154,-7460 }, { 155,-7460 }, { 156,-7460 },
- { 157,-7460 }, { 158,-7460 }, { 159,-7460 }, { 160,-7460 }, { 161,-7460 },
- { 162,-7460 }, { 163,-7460 }, { 164,-7460 }, { 165,-7460 }, { 166,-7460 },
- { 167,-7460 }, { 168,-7460 }, { 169,-7460 }, { 170,-7460 }, { 171,-7460 },
- { 172,-7460 }, { 173,-7460 }, { 174,-7460 }, { 175,-7460 }, { 176,-7460 },
- { 177,-7460 }, { 178,-7460 }, { 179,-7460 }, { 180,-7460 }, { 181,-7460 },
- { 182,-7460 }, { 183,-7460 }, { 184,-7460 }, { 185,-7460 }, { 186,-7460 },
- { 187,-7460 }, { 188,-7460 }, { 189,-7460 }, { 190,-7460 }, { 191,-7460 },
-
- { 192,-7460 }, { 193,-7460 }, { 194,-7460 }, { 195,-7460 }, { 196,-7460 },
- { 197,-7460 }, { 198,-7460 }, { 199,-7460 }, { 200,-7460 }, { 201,-7460 },
- { 202,-7460 }, { 203,-7460 }, { 204,-7460 }, { 205,-7460 }, { 206,-7460 },
- { 207,-7460 }, { 208,-7460 }, { 209,-7460 }, { 210,-7460 }, { 211,-7460 },
- { 212,-7460 }, { 213,-7460 }, { 214,-7460 }, { 215,-7460 }, { 216,-7460 },
- { 217,-7460 }, { 218,-7460 }, { 219,-7460 }, { 220,-7460 }, { 221,-7460 },
- { 222,-7460 }, { 223,-7460 }, { 224,-7460 }, { 225,-7460 }, { 226,-7460 },
- { 227,-7460 }, { 228,-7460 }, { 229,-7460 }, { 230,-7460 }, { 231,-7460 },
- { 232,-7460 }, { 233,-7460 }, { 234,-7460 }, { 235,-7460 }, { 236,-7460 },
- { 237,-7460 }, { 238,-7460 }, { 239,-7460 }, { 240,-7460 }, { 241,-7460 },
-
- { 242,-7460 }, { 243,-7460 }, { 244,-7460 }, { 245,-7460 }, { 246,-7460 },
- { 247,-7460 }, { 248,-7460 }, { 249,-7460 }, { 250,-7460 }, { 251,-7460 },
- { 252,-7460 }, { 253,-7460 }, { 254,-7460 }, { 255,-7460 }, { 256,-7460 },
- {   0,   0 }, {   0,4240 }, {   1,-7718 }, {   2,-7718 }, {   3,-7718 },
- {   4,-7718 }, {   5,-7718 }, {   6,-7718 }, {   7,-7718 }, {   8,-7718 },
- {   9,1164 }, {  10,1164 }, {  11,-7718 }, {  12,-7718 }, {  13,1164 },
- {  14,-7718 }, {  15,-7718 }, {  16,-7718 }, {  17,-7718 }, {  18,-7718 },
- {  19,-7718 }, {  20,-7718 }, {  21,-7718 }, {  22,-7718 }, {  23,-7718 },
- {  24,-7718 }, {  25,-7718 }, {  26,-7718 }, {  27,-7718 }, {  28,-7718 },
- {  29,-7718 }, {  30,-7718 }, {  31,-7718 }, {  32,1164 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {  36,-7718 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,1164 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-7718 }, {  46,-7743 }, {  47,-7743 }, {  48,-7718 },
- {  49,-7718 }, {  50,-7718 }, {  51,-7718 }, {  52,-7718 }, {  53,-7718 },
- {  54,-7718 }, {  55,-7718 }, {  56,-7718 }, {  57,-7718 }, {  58,-7718 },
- {   0,   0 }, {   0,   0 }, {  61,-7743 }, {   0,   0 }, {  63,-7718 },
- {   0,   0 }, {  65,-7718 }, {  66,-7718 }, {  67,-7718 }, {  68,-7718 },
- {  69,-7718 }, {  70,-7718 }, {  71,-7718 }, {  72,-7718 }, {  73,-7718 },
- {  74,-7718 }, {  75,-7718 }, {  76,-7718 }, {  77,-7718 }, {  78,-7718 },
- {  79,-7718 }, {  80,-7718 }, {  81,-7718 }, {  82,-7718 }, {  83,-7718 },
-
- {  84,-7718 }, {  85,-7718 }, {  86,-7718 }, {  87,-7718 }, {  88,-7718 },
- {  89,-7718 }, {  90,-7718 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-7718 }, {   0,   0 }, {  97,-7718 }, {  98,-7718 },
- {  99,-7718 }, { 100,-7718 }, { 101,-7718 }, { 102,-7718 }, { 103,-7718 },
- { 104,-7718 }, { 105,-7718 }, { 106,-7718 }, { 107,-7718 }, { 108,-7718 },
- { 109,-7718 }, { 110,-7718 }, { 111,-7718 }, { 112,-7718 }, { 113,-7718 },
- { 114,-7718 }, { 115,-7718 }, { 116,-7718 }, { 117,-7718 }, { 118,-7718 },
- { 119,-7718 }, { 120,-7718 }, { 121,-7718 }, { 122,-7718 }, {   0,   0 },
- { 124,-7743 }, { 125,1164 }, { 126,1164 }, { 127,-7718 }, { 128,-7718 },
- { 129,-7718 }, { 130,-7718 }, { 131,-7718 }, { 132,-7718 }, { 133,-7718 },
-
- { 134,-7718 }, { 135,-7718 }, { 136,-7718 }, { 137,-7718 }, { 138,-7718 },
- { 139,-7718 }, { 140,-7718 }, { 141,-7718 }, { 142,-7718 }, { 143,-7718 },
- { 144,-7718 }, { 145,-7718 }, { 146,-7718 }, { 147,-7718 }, { 148,-7718 },
- { 149,-7718 }, { 150,-7718 }, { 151,-7718 }, { 152,-7718 }, { 153,-7718 },
- { 154,-7718 }, { 155,-7718 }, { 156,-7718 }, { 157,-7718 }, { 158,-7718 },
- { 159,-7718 }, { 160,-7718 }, { 161,-7718 }, { 162,-7718 }, { 163,-7718 },
- { 164,-7718 }, { 165,-7718 }, { 166,-7718 }, { 167,-7718 }, { 168,-7718 },
- { 169,-7718 }, { 170,-7718 }, { 171,-7718 }, { 172,-7718 }, { 173,-7718 },
- { 174,-7718 }, { 175,-7718 }, { 176,-7718 }, { 177,-7718 }, { 178,-7718 },
- { 179,-7718 }, { 180,-7718 }, { 181,-7718 }, { 182,-7718 }, { 183,-7718 },
-
- { 184,-7718 }, { 185,-7718 }, { 186,-7718 }, { 187,-7718 }, { 188,-7718 },
- { 189,-7718 }, { 190,-7718 }, { 191,-7718 }, { 192,-7718 }, { 193,-7718 },
- { 194,-7718 }, { 195,-7718 }, { 196,-7718 }, { 197,-7718 }, { 198,-7718 },
- { 199,-7718 }, { 200,-7718 }, { 201,-7718 }, { 202,-7718 }, { 203,-7718 },
- { 204,-7718 }, { 205,-7718 }, { 206,-7718 }, { 207,-7718 }, { 208,-7718 },
- { 209,-7718 }, { 210,-7718 }, { 211,-7718 }, { 212,-7718 }, { 213,-7718 },
- { 214,-7718 }, { 215,-7718 }, { 216,-7718 }, { 217,-7718 }, { 218,-7718 },
- { 219,-7718 }, { 220,-7718 }, { 221,-7718 }, { 222,-7718 }, { 223,-7718 },
- { 224,-7718 }, { 225,-7718 }, { 226,-7718 }, { 227,-7718 }, { 228,-7718 },
- { 229,-7718 }, { 230,-7718 }, { 231,-7718 }, { 232,-7718 }, { 233,-7718 },
-
- { 234,-7718 }, { 235,-7718 }, { 236,-7718 }, { 237,-7718 }, { 238,-7718 },
- { 239,-7718 }, { 240,-7718 }, { 241,-7718 }, { 242,-7718 }, { 243,-7718 },
- { 244,-7718 }, { 245,-7718 }, { 246,-7718 }, { 247,-7718 }, { 248,-7718 },
- { 249,-7718 }, { 250,-7718 }, { 251,-7718 }, { 252,-7718 }, { 253,-7718 },
- { 254,-7718 }, { 255,-7718 }, { 256,-7718 }, {   0,   0 }, {   0,3982 },
- {   1,-7976 }, {   2,-7976 }, {   3,-7976 }, {   4,-7976 }, {   5,-7976 },
- {   6,-7976 }, {   7,-7976 }, {   8,-7976 }, {   9, 908 }, {  10, 908 },
- {  11,-7976 }, {  12,-7976 }, {  13, 908 }, {  14,-7976 }, {  15,-7976 },
- {  16,-7976 }, {  17,-7976 }, {  18,-7976 }, {  19,-7976 }, {  20,-7976 },
- {  21,-7976 }, {  22,-7976 }, {  23,-7976 }, {  24,-7976 }, {  25,-7976 },
-
- {  26,-7976 }, {  27,-7976 }, {  28,-7976 }, {  29,-7976 }, {  30,-7976 },
- {  31,-7976 }, {  32, 908 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,-7976 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41, 908 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-7976 },
- {  46,-8001 }, {  47,-8001 }, {  48,-7976 }, {  49,-7976 }, {  50,-7976 },
- {  51,-7976 }, {  52,-7976 }, {  53,-7976 }, {  54,-7976 }, {  55,-7976 },
- {  56,-7976 }, {  57,-7976 }, {  58,-7976 }, {   0,   0 }, {   0,   0 },
- {  61,-8001 }, {   0,   0 }, {  63,-7976 }, {   0,   0 }, {  65,-7976 },
- {  66,-7976 }, {  67,-7976 }, {  68,-7976 }, {  69,-7976 }, {  70,-7976 },
- {  71,-7976 }, {  72,-7976 }, {  73,-7976 }, {  74,-7976 }, {  75,-7976 },
-
- {  76,-7976 }, {  77,-7976 }, {  78,-7976 }, {  79,-7976 }, {  80,-7976 },
- {  81,-7976 }, {  82,-7976 }, {  83,-7976 }, {  84,-7976 }, {  85,-7976 },
- {  86,-7976 }, {  87,-7976 }, {  88,-7976 }, {  89,-7976 }, {  90,-7976 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-7976 },
- {   0,   0 }, {  97,-7976 }, {  98,-7976 }, {  99,-7976 }, { 100,-7976 },
- { 101,-7976 }, { 102,-7976 }, { 103,-7976 }, { 104,-7976 }, { 105,-7976 },
- { 106,-7976 }, { 107,-7976 }, { 108,-7976 }, { 109,-7976 }, { 110,-7976 },
- { 111,-7976 }, { 112,-7976 }, { 113,-7976 }, { 114,-7976 }, { 115,-7976 },
- { 116,-7976 }, { 117,-7976 }, { 118,-7976 }, { 119,-7976 }, { 120,-7976 },
- { 121,-7976 }, { 122,-7976 }, {   0,   0 }, { 124,-8001 }, { 125, 908 },
-
- { 126, 908 }, { 127,-7976 }, { 128,-7976 }, { 129,-7976 }, { 130,-7976 },
- { 131,-7976 }, { 132,-7976 }, { 133,-7976 }, { 134,-7976 }, { 135,-7976 },
- { 136,-7976 }, { 137,-7976 }, { 138,-7976 }, { 139,-7976 }, { 140,-7976 },
- { 141,-7976 }, { 142,-7976 }, { 143,-7976 }, { 144,-7976 }, { 145,-7976 },
- { 146,-7976 }, { 147,-7976 }, { 148,-7976 }, { 149,-7976 }, { 150,-7976 },
- { 151,-7976 }, { 152,-7976 }, { 153,-7976 }, { 154,-7976 }, { 155,-7976 },
- { 156,-7976 }, { 157,-7976 }, { 158,-7976 }, { 159,-7976 }, { 160,-7976 },
- { 161,-7976 }, { 162,-7976 }, { 163,-7976 }, { 164,-7976 }, { 165,-7976 },
- { 166,-7976 }, { 167,-7976 }, { 168,-7976 }, { 169,-7976 }, { 170,-7976 },
- { 171,-7976 }, { 172,-7976 }, { 173,-7976 }, { 174,-7976 }, { 175,-7976 },
-
- { 176,-7976 }, { 177,-7976 }, { 178,-7976 }, { 179,-7976 }, { 180,-7976 },
- { 181,-7976 }, { 182,-7976 }, { 183,-7976 }, { 184,-7976 }, { 185,-7976 },
- { 186,-7976 }, { 187,-7976 }, { 188,-7976 }, { 189,-7976 }, { 190,-7976 },
- { 191,-7976 }, { 192,-7976 }, { 193,-7976 }, { 194,-7976 }, { 195,-7976 },
- { 196,-7976 }, { 197,-7976 }, { 198,-7976 }, { 199,-7976 }, { 200,-7976 },
- { 201,-7976 }, { 202,-7976 }, { 203,-7976 }, { 204,-7976 }, { 205,-7976 },
- { 206,-7976 }, { 207,-7976 }, { 208,-7976 }, { 209,-7976 }, { 210,-7976 },
- { 211,-7976 }, { 212,-7976 }, { 213,-7976 }, { 214,-7976 }, { 215,-7976 },
- { 216,-7976 }, { 217,-7976 }, { 218,-7976 }, { 219,-7976 }, { 220,-7976 },
- { 221,-7976 }, { 222,-7976 }, { 223,-7976 }, { 224,-7976 }, { 225,-7976 },
-
- { 226,-7976 }, { 227,-7976 }, { 228,-7976 }, { 229,-7976 }, { 230,-7976 },
- { 231,-7976 }, { 232,-7976 }, { 233,-7976 }, { 234,-7976 }, { 235,-7976 },
- { 236,-7976 }, { 237,-7976 }, { 238,-7976 }, { 239,-7976 }, { 240,-7976 },
- { 241,-7976 }, { 242,-7976 }, { 243,-7976 }, { 244,-7976 }, { 245,-7976 },
- { 246,-7976 }, { 247,-7976 }, { 248,-7976 }, { 249,-7976 }, { 250,-7976 },
- { 251,-7976 }, { 252,-7976 }, { 253,-7976 }, { 254,-7976 }, { 255,-7976 },
- { 256,-7976 }, {   0,   0 }, {   0,3724 }, {   1,-8234 }, {   2,-8234 },
- {   3,-8234 }, {   4,-8234 }, {   5,-8234 }, {   6,-8234 }, {   7,-8234 },
- {   8,-8234 }, {   9,-8259 }, {  10,-8259 }, {  11,-8234 }, {  12,-8234 },
- {  13,-8259 }, {  14,-8234 }, {  15,-8234 }, {  16,-8234 }, {  17,-8234 },
-
- {  18,-8234 }, {  19,-8234 }, {  20,-8234 }, {  21,-8234 }, {  22,-8234 },
- {  23,-8234 }, {  24,-8234 }, {  25,-8234 }, {  26,-8234 }, {  27,-8234 },
- {  28,-8234 }, {  29,-8234 }, {  30,-8234 }, {  31,-8234 }, {  32,-8259 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-8234 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-8259 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-8234 }, {  46,-8259 }, {  47,-8259 },
- {  48,-8234 }, {  49,-8234 }, {  50,-8234 }, {  51,-8234 }, {  52,-8234 },
- {  53,-8234 }, {  54,-8234 }, {  55,-8234 }, {  56,-8234 }, {  57,-8234 },
- {  58,-8234 }, {   0,   0 }, {   0,   0 }, {  61,-8259 }, {   0,   0 },
- {  63,-8234 }, {   0,   0 }, {  65,-8234 }, {  66,-8234 }, {  67,-8234 },
-
- {  68,-8234 }, {  69,-8234 }, {  70,-8234 }, {  71,-8234 }, {  72,-8234 },
- {  73,-8234 }, {  74,-8234 }, {  75,-8234 }, {  76,-8234 }, {  77,-8234 },
- {  78,-8234 }, {  79,-8234 }, {  80,-8234 }, {  81,-8234 }, {  82,-8234 },
- {  83,-8234 }, {  84,-8234 }, {  85,-8234 }, {  86,-8234 }, {  87,-8234 },
- {  88,-8234 }, {  89,-8234 }, {  90,-8234 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-8234 }, {   0,   0 }, {  97,-8234 },
- {  98,-8234 }, {  99,-8234 }, { 100,-8234 }, { 101,-8234 }, { 102, 929 },
- { 103,-8234 }, { 104,-8234 }, { 105,-8234 }, { 106,-8234 }, { 107,-8234 },
- { 108,-8234 }, { 109,-8234 }, { 110,-8234 }, { 111,-8234 }, { 112,-8234 },
- { 113,-8234 }, { 114,-8234 }, { 115,-8234 }, { 116,-8234 }, { 117,-8234 },
-
- { 118,-8234 }, { 119,-8234 }, { 120,-8234 }, { 121,-8234 }, { 122,-8234 },
- {   0,   0 }, { 124,-8259 }, { 125,-8259 }, { 126,-8259 }, { 127,-8234 },
- { 128,-8234 }, { 129,-8234 }, { 130,-8234 }, { 131,-8234 }, { 132,-8234 },
- { 133,-8234 }, { 134,-8234 }, { 135,-8234 }, { 136,-8234 }, { 137,-8234 },
- { 138,-8234 }, { 139,-8234 }, { 140,-8234 }, { 141,-8234 }, { 142,-8234 },
- { 143,-8234 }, { 144,-8234 }, { 145,-8234 }, { 146,-8234 }, { 147,-8234 },
- { 148,-8234 }, { 149,-8234 }, { 150,-8234 }, { 151,-8234 }, { 152,-8234 },
- { 153,-8234 }, { 154,-8234 }, { 155,-8234 }, { 156,-8234 }, { 157,-8234 },
- { 158,-8234 }, { 159,-8234 }, { 160,-8234 }, { 161,-8234 }, { 162,-8234 },
- { 163,-8234 }, { 164,-8234 }, { 165,-8234 }, { 166,-8234 }, { 167,-8234 },
-
- { 168,-8234 }, { 169,-8234 }, { 170,-8234 }, { 171,-8234 }, { 172,-8234 },
- { 173,-8234 }, { 174,-8234 }, { 175,-8234 }, { 176,-8234 }, { 177,-8234 },
- { 178,-8234 }, { 179,-8234 }, { 180,-8234 }, { 181,-8234 }, { 182,-8234 },
- { 183,-8234 }, { 184,-8234 }, { 185,-8234 }, { 186,-8234 }, { 187,-8234 },
- { 188,-8234 }, { 189,-8234 }, { 190,-8234 }, { 191,-8234 }, { 192,-8234 },
- { 193,-8234 }, { 194,-8234 }, { 195,-8234 }, { 196,-8234 }, { 197,-8234 },
- { 198,-8234 }, { 199,-8234 }, { 200,-8234 }, { 201,-8234 }, { 202,-8234 },
- { 203,-8234 }, { 204,-8234 }, { 205,-8234 }, { 206,-8234 }, { 207,-8234 },
- { 208,-8234 }, { 209,-8234 }, { 210,-8234 }, { 211,-8234 }, { 212,-8234 },
- { 213,-8234 }, { 214,-8234 }, { 215,-8234 }, { 216,-8234 }, { 217,-8234 },
-
- { 218,-8234 }, { 219,-8234 }, { 220,-8234 }, { 221,-8234 }, { 222,-8234 },
- { 223,-8234 }, { 224,-8234 }, { 225,-8234 }, { 226,-8234 }, { 227,-8234 },
- { 228,-8234 }, { 229,-8234 }, { 230,-8234 }, { 231,-8234 }, { 232,-8234 },
- { 233,-8234 }, { 234,-8234 }, { 235,-8234 }, { 236,-8234 }, { 237,-8234 },
- { 238,-8234 }, { 239,-8234 }, { 240,-8234 }, { 241,-8234 }, { 242,-8234 },
- { 243,-8234 }, { 244,-8234 }, { 245,-8234 }, { 246,-8234 }, { 247,-8234 },
- { 248,-8234 }, { 249,-8234 }, { 250,-8234 }, { 251,-8234 }, { 252,-8234 },
- { 253,-8234 }, { 254,-8234 }, { 255,-8234 }, { 256,-8234 }, {   0,   0 },
- {   0,3466 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,   0 },
-
- {  10,   0 }, {   0,   0 }, {   0,   0 }, {  13,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 125,-1639 }, { 126,-1066 }, {   0,   0 }, {   0,3338 }, {   1, 277 },
- {   2, 277 }, {   3, 277 }, {   4, 277 }, {   5, 277 }, {   6, 277 },
- {   7, 277 }, {   8, 277 }, {   9, 277 }, {  10, 277 }, {  11, 277 },
- {  12, 277 }, {  13, 277 }, {  14, 277 }, {  15, 277 }, {  16, 277 },
- {  17, 277 }, {  18, 277 }, {  19, 277 }, {  20, 277 }, {  21, 277 },
- {  22, 277 }, {  23, 277 }, {  24, 277 }, {  25, 277 }, {  26, 277 },
- {  27, 277 }, {  28, 277 }, {  29, 277 }, {  30, 277 }, {  31, 277 },
-
- {  32, 277 }, {  33, 277 }, {  34, 277 }, {  35, 277 }, {  36, 277 },
- {  37, 277 }, {  38, 277 }, {  39, 277 }, {  40, 277 }, {  41, 277 },
- {  42, 277 }, {  43, 277 }, {  44, 277 }, {  45, 277 }, {  46, 277 },
- {  47,1059 }, {  48, 277 }, {  49, 277 }, {  50, 277 }, {  51, 277 },
- {  52, 277 }, {  53, 277 }, {  54, 277 }, {  55, 277 }, {  56, 277 },
- {  57, 277 }, {  58, 277 }, {  59, 277 }, {  60, 277 }, {  61, 277 },
- {  62, 277 }, {  63, 277 }, {  64, 277 }, {  65, 277 }, {  66, 277 },
- {  67, 277 }, {  68, 277 }, {  69, 277 }, {  70, 277 }, {  71, 277 },
- {  72, 277 }, {  73, 277 }, {  74, 277 }, {  75, 277 }, {  76, 277 },
- {  77, 277 }, {  78, 277 }, {  79, 277 }, {  80, 277 }, {  81, 277 },
-
- {  82, 277 }, {  83, 277 }, {  84, 277 }, {  85, 277 }, {  86, 277 },
- {  87, 277 }, {  88, 277 }, {  89, 277 }, {  90, 277 }, {  91, 277 },
- {  92, 277 }, {  93, 277 }, {  94, 277 }, {  95, 277 }, {  96, 277 },
- {  97, 277 }, {  98, 277 }, {  99, 277 }, { 100, 277 }, { 101, 277 },
- { 102, 277 }, { 103, 277 }, { 104, 277 }, { 105, 277 }, { 106, 277 },
- { 107, 277 }, { 108, 277 }, { 109, 277 }, { 110, 277 }, { 111, 277 },
- { 112, 277 }, { 113, 277 }, { 114, 277 }, { 115, 277 }, { 116, 277 },
- { 117, 277 }, { 118, 277 }, { 119, 277 }, { 120, 277 }, { 121, 277 },
- { 122, 277 }, { 123, 277 }, { 124, 277 }, { 125, 277 }, { 126, 277 },
- { 127, 277 }, { 128, 277 }, { 129, 277 }, { 130, 277 }, { 131, 277 },
-
- { 132, 277 }, { 133, 277 }, { 134, 277 }, { 135, 277 }, { 136, 277 },
- { 137, 277 }, { 138, 277 }, { 139, 277 }, { 140, 277 }, { 141, 277 },
- { 142, 277 }, { 143, 277 }, { 144, 277 }, { 145, 277 }, { 146, 277 },
- { 147, 277 }, { 148, 277 }, { 149, 277 }, { 150, 277 }, { 151, 277 },
- { 152, 277 }, { 153, 277 }, { 154, 277 }, { 155, 277 }, { 156, 277 },
- { 157, 277 }, { 158, 277 }, { 159, 277 }, { 160, 277 }, { 161, 277 },
- { 162, 277 }, { 163, 277 }, { 164, 277 }, { 165, 277 }, { 166, 277 },
- { 167, 277 }, { 168, 277 }, { 169, 277 }, { 170, 277 }, { 171, 277 },
- { 172, 277 }, { 173, 277 }, { 174, 277 }, { 175, 277 }, { 176, 277 },
- { 177, 277 }, { 178, 277 }, { 179, 277 }, { 180, 277 }, { 181, 277 },
-
- { 182, 277 }, { 183, 277 }, { 184, 277 }, { 185, 277 }, { 186, 277 },
- { 187, 277 }, { 188, 277 }, { 189, 277 }, { 190, 277 }, { 191, 277 },
- { 192, 277 }, { 193, 277 }, { 194, 277 }, { 195, 277 }, { 196, 277 },
- { 197, 277 }, { 198, 277 }, { 199, 277 }, { 200, 277 }, { 201, 277 },
- { 202, 277 }, { 203, 277 }, { 204, 277 }, { 205, 277 }, { 206, 277 },
- { 207, 277 }, { 208, 277 }, { 209, 277 }, { 210, 277 }, { 211, 277 },
- { 212, 277 }, { 213, 277 }, { 214, 277 }, { 215, 277 }, { 216, 277 },
- { 217, 277 }, { 218, 277 }, { 219, 277 }, { 220, 277 }, { 221, 277 },
- { 222, 277 }, { 223, 277 }, { 224, 277 }, { 225, 277 }, { 226, 277 },
- { 227, 277 }, { 228, 277 }, { 229, 277 }, { 230, 277 }, { 231, 277 },
-
- { 232, 277 }, { 233, 277 }, { 234, 277 }, { 235, 277 }, { 236, 277 },
- { 237, 277 }, { 238, 277 }, { 239, 277 }, { 240, 277 }, { 241, 277 },
- { 242, 277 }, { 243, 277 }, { 244, 277 }, { 245, 277 }, { 246, 277 },
- { 247, 277 }, { 248, 277 }, { 249, 277 }, { 250, 277 }, { 251, 277 },
- { 252, 277 }, { 253, 277 }, { 254, 277 }, { 255, 277 }, { 256, 277 },
- {   0,   1 }, {   0,3080 }, {   0,   1 }, {   0,3078 }, {   0,  46 },
- {   0,3076 }, {   0,  43 }, {   0,3074 }, {   0,  28 }, {   0,3072 },
- {   0,  22 }, {   0,3070 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,3063 }, {   0,   8 },
- {   0,3061 }, {   0,   1 }, {   0,3059 }, {   0,  44 }, {   0,3057 },
-
- {   0,   0 }, {   0,3055 }, {   0,   0 }, {   0,3053 }, {   1,-8905 },
- {   2,-8905 }, {   3,-8905 }, {   4,-8905 }, {   5,-8905 }, {   6,-8905 },
- {   7,-8905 }, {   8,-8905 }, {   9,  -4 }, {  10,  -4 }, {  11,-8905 },
- {  12,-8905 }, {  13,  -4 }, {  14,-8905 }, {  15,-8905 }, {  16,-8905 },
- {  17,-8905 }, {  18,-8905 }, {  19,-8905 }, {  20,-8905 }, {  21,-8905 },
- {  22,-8905 }, {  23,-8905 }, {  24,-8905 }, {  25,-8905 }, {  26,-8905 },
- {  27,-8905 }, {  28,-8905 }, {  29,-8905 }, {  30,-8905 }, {  31,-8905 },
- {  32,  -4 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-8905 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,  -4 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-8905 }, {  46,-8930 },
-
- {  47,-8930 }, {  48,-8905 }, {  49,-8905 }, {  50,-8905 }, {  51,-8905 },
- {  52,-8905 }, {  53,-8905 }, {  54,-8905 }, {  55,-8905 }, {  56,-8905 },
- {  57,-8905 }, {  58,-8905 }, {   0,   0 }, {   0,   0 }, {  61,-8930 },
- {   0,   0 }, {  63,-8905 }, {   0,   0 }, {  65,-8905 }, {  66,-8905 },
- {  67,-8905 }, {  68,-8905 }, {  69,-8905 }, {  70,-8905 }, {  71,-8905 },
- {  72,-8905 }, {  73,-8905 }, {  74,-8905 }, {  75,-8905 }, {  76,-8905 },
- {  77,-8905 }, {  78,-8905 }, {  79,-8905 }, {  80,-8905 }, {  81,-8905 },
- {  82,-8905 }, {  83,-8905 }, {  84,-8905 }, {  85,-8905 }, {  86,-8905 },
- {  87,-8905 }, {  88,-8905 }, {  89,-8905 }, {  90,-8905 }, { 101,1300 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-8905 }, { 123,  21 },
-
- {  97,-8905 }, {  98,-8905 }, {  99,-8905 }, { 100,-8905 }, { 101,-8905 },
- { 102,-8905 }, { 103,-8905 }, { 104,-8905 }, { 105,-8905 }, { 106,-8905 },
- { 107,-8905 }, { 108,-8905 }, { 109,-8905 }, { 110,-8905 }, { 111,-8905 },
- { 112,-8905 }, { 113,-8905 }, { 114,-8905 }, { 115,-8905 }, { 116,-8905 },
- { 117,-8905 }, { 118,-8905 }, { 119,-8905 }, { 120,-8905 }, { 121,-8905 },
- { 122,-8905 }, { 125,2460 }, { 124,-8930 }, { 125,  -4 }, { 126,  -4 },
- { 127,-8905 }, { 128,-8905 }, { 129,-8905 }, { 130,-8905 }, { 131,-8905 },
- { 132,-8905 }, { 133,-8905 }, { 134,-8905 }, { 135,-8905 }, { 136,-8905 },
- { 137,-8905 }, { 138,-8905 }, { 139,-8905 }, { 140,-8905 }, { 141,-8905 },
- { 142,-8905 }, { 143,-8905 }, { 144,-8905 }, { 145,-8905 }, { 146,-8905 },
-
- { 147,-8905 }, { 148,-8905 }, { 149,-8905 }, { 150,-8905 }, { 151,-8905 },
- { 152,-8905 }, { 153,-8905 }, { 154,-8905 }, { 155,-8905 }, { 156,-8905 },
- { 157,-8905 }, { 158,-8905 }, { 159,-8905 }, { 160,-8905 }, { 161,-8905 },
- { 162,-8905 }, { 163,-8905 }, { 164,-8905 }, { 165,-8905 }, { 166,-8905 },
- { 167,-8905 }, { 168,-8905 }, { 169,-8905 }, { 170,-8905 }, { 171,-8905 },
- { 172,-8905 }, { 173,-8905 }, { 174,-8905 }, { 175,-8905 }, { 176,-8905 },
- { 177,-8905 }, { 178,-8905 }, { 179,-8905 }, { 180,-8905 }, { 181,-8905 },
- { 182,-8905 }, { 183,-8905 }, { 184,-8905 }, { 185,-8905 }, { 186,-8905 },
- { 187,-8905 }, { 188,-8905 }, { 189,-8905 }, { 190,-8905 }, { 191,-8905 },
- { 192,-8905 }, { 193,-8905 }, { 194,-8905 }, { 195,-8905 }, { 196,-8905 },
-
- { 197,-8905 }, { 198,-8905 }, { 199,-8905 }, { 200,-8905 }, { 201,-8905 },
- { 202,-8905 }, { 203,-8905 }, { 204,-8905 }, { 205,-8905 }, { 206,-8905 },
- { 207,-8905 }, { 208,-8905 }, { 209,-8905 }, { 210,-8905 }, { 211,-8905 },
- { 212,-8905 }, { 213,-8905 }, { 214,-8905 }, { 215,-8905 }, { 216,-8905 },
- { 217,-8905 }, { 218,-8905 }, { 219,-8905 }, { 220,-8905 }, { 221,-8905 },
- { 222,-8905 }, { 223,-8905 }, { 224,-8905 }, { 225,-8905 }, { 226,-8905 },
- { 227,-8905 }, { 228,-8905 }, { 229,-8905 }, { 230,-8905 }, { 231,-8905 },
- { 232,-8905 }, { 233,-8905 }, { 234,-8905 }, { 235,-8905 }, { 236,-8905 },
- { 237,-8905 }, { 238,-8905 }, { 239,-8905 }, { 240,-8905 }, { 241,-8905 },
- { 242,-8905 }, { 243,-8905 }, { 244,-8905 }, { 245,-8905 }, { 246,-8905 },
-
- { 247,-8905 }, { 248,-8905 }, { 249,-8905 }, { 250,-8905 }, { 251,-8905 },
- { 252,-8905 }, { 253,-8905 }, { 254,-8905 }, { 255,-8905 }, { 256,-8905 },
- {   0,   0 }, {   0,2795 }, {   1,-9163 }, {   2,-9163 }, {   3,-9163 },
- {   4,-9163 }, {   5,-9163 }, {   6,-9163 }, {   7,-9163 }, {   8,-9163 },
- {   9,-9188 }, {  10,-9188 }, {  11,-9163 }, {  12,-9163 }, {  13,-9188 },
- {  14,-9163 }, {  15,-9163 }, {  16,-9163 }, {  17,-9163 }, {  18,-9163 },
- {  19,-9163 }, {  20,-9163 }, {  21,-9163 }, {  22,-9163 }, {  23,-9163 },
- {  24,-9163 }, {  25,-9163 }, {  26,-9163 }, {  27,-9163 }, {  28,-9163 },
- {  29,-9163 }, {  30,-9163 }, {  31,-9163 }, {  32,-9188 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,-9163 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {  41,-9188 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-9163 }, {  46,-9188 }, {  47,-9188 }, {  48,-9163 },
- {  49,-9163 }, {  50,-9163 }, {  51,-9163 }, {  52,-9163 }, {  53,-9163 },
- {  54,-9163 }, {  55,-9163 }, {  56,-9163 }, {  57,-9163 }, {  58,-9163 },
- {   0,   0 }, {   0,   0 }, {  61,-9188 }, {   0,   0 }, {  63,-9163 },
- {   0,   0 }, {  65,-9163 }, {  66,-9163 }, {  67,-9163 }, {  68,-9163 },
- {  69,-9163 }, {  70,-9163 }, {  71,-9163 }, {  72,-9163 }, {  73,-9163 },
- {  74,-9163 }, {  75,-9163 }, {  76,-9163 }, {  77,-9163 }, {  78,-9163 },
- {  79,-9163 }, {  80,-9163 }, {  81,-9163 }, {  82,-9163 }, {  83,-9163 },
- {  84,-9163 }, {  85,-9163 }, {  86,-9163 }, {  87,-9163 }, {  88,-9163 },
-
- {  89,-9163 }, {  90,-9163 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-9163 }, {   0,   0 }, {  97,-9163 }, {  98,-9163 },
- {  99,-9163 }, { 100,-9163 }, { 101,-9163 }, { 102,-9163 }, { 103,-9163 },
- { 104,-9163 }, { 105, 774 }, { 106,-9163 }, { 107,-9163 }, { 108,-9163 },
- { 109,-9163 }, { 110,-9163 }, { 111,-9163 }, { 112,-9163 }, { 113,-9163 },
- { 114,-9163 }, { 115,-9163 }, { 116,-9163 }, { 117,-9163 }, { 118,-9163 },
- { 119,-9163 }, { 120,-9163 }, { 121,-9163 }, { 122,-9163 }, {   0,   0 },
- { 124,-9188 }, { 125,-9188 }, { 126,-9188 }, { 127,-9163 }, { 128,-9163 },
- { 129,-9163 }, { 130,-9163 }, { 131,-9163 }, { 132,-9163 }, { 133,-9163 },
- { 134,-9163 }, { 135,-9163 }, { 136,-9163 }, { 137,-9163 }, { 138,-9163 },
-
- { 139,-9163 }, { 140,-9163 }, { 141,-9163 }, { 142,-9163 }, { 143,-9163 },
- { 144,-9163 }, { 145,-9163 }, { 146,-9163 }, { 147,-9163 }, { 148,-9163 },
- { 149,-9163 }, { 150,-9163 }, { 151,-9163 }, { 152,-9163 }, { 153,-9163 },
- { 154,-9163 }, { 155,-9163 }, { 156,-9163 }, { 157,-9163 }, { 158,-9163 },
- { 159,-9163 }, { 160,-9163 }, { 161,-9163 }, { 162,-9163 }, { 163,-9163 },
- { 164,-9163 }, { 165,-9163 }, { 166,-9163 }, { 167,-9163 }, { 168,-9163 },
- { 169,-9163 }, { 170,-9163 }, { 171,-9163 }, { 172,-9163 }, { 173,-9163 },
- { 174,-9163 }, { 175,-9163 }, { 176,-9163 }, { 177,-9163 }, { 178,-9163 },
- { 179,-9163 }, { 180,-9163 }, { 181,-9163 }, { 182,-9163 }, { 183,-9163 },
- { 184,-9163 }, { 185,-9163 }, { 186,-9163 }, { 187,-9163 }, { 188,-9163 },
-
- { 189,-9163 }, { 190,-9163 }, { 191,-9163 }, { 192,-9163 }, { 193,-9163 },
- { 194,-9163 }, { 195,-9163 }, { 196,-9163 }, { 197,-9163 }, { 198,-9163 },
- { 199,-9163 }, { 200,-9163 }, { 201,-9163 }, { 202,-9163 }, { 203,-9163 },
- { 204,-9163 }, { 205,-9163 }, { 206,-9163 }, { 207,-9163 }, { 208,-9163 },
- { 209,-9163 }, { 210,-9163 }, { 211,-9163 }, { 212,-9163 }, { 213,-9163 },
- { 214,-9163 }, { 215,-9163 }, { 216,-9163 }, { 217,-9163 }, { 218,-9163 },
- { 219,-9163 }, { 220,-9163 }, { 221,-9163 }, { 222,-9163 }, { 223,-9163 },
- { 224,-9163 }, { 225,-9163 }, { 226,-9163 }, { 227,-9163 }, { 228,-9163 },
- { 229,-9163 }, { 230,-9163 }, { 231,-9163 }, { 232,-9163 }, { 233,-9163 },
- { 234,-9163 }, { 235,-9163 }, { 236,-9163 }, { 237,-9163 }, { 238,-9163 },
-
- { 239,-9163 }, { 240,-9163 }, { 241,-9163 }, { 242,-9163 }, { 243,-9163 },
- { 244,-9163 }, { 245,-9163 }, { 246,-9163 }, { 247,-9163 }, { 248,-9163 },
- { 249,-9163 }, { 250,-9163 }, { 251,-9163 }, { 252,-9163 }, { 253,-9163 },
- { 254,-9163 }, { 255,-9163 }, { 256,-9163 }, {   0,   0 }, {   0,2537 },
- {   1, 902 }, {   2, 902 }, {   3, 902 }, {   4, 902 }, {   5, 902 },
- {   6, 902 }, {   7, 902 }, {   8, 902 }, {   9, 902 }, {  10, 902 },
- {  11, 902 }, {  12, 902 }, {  13, 902 }, {  14, 902 }, {  15, 902 },
- {  16, 902 }, {  17, 902 }, {  18, 902 }, {  19, 902 }, {  20, 902 },
- {  21, 902 }, {  22, 902 }, {  23, 902 }, {  24, 902 }, {  25, 902 },
- {  26, 902 }, {  27, 902 }, {  28, 902 }, {  29, 902 }, {  30, 902 },
-
- {  31, 902 }, {  32, 902 }, {  33, 902 }, {  34, 902 }, {  35, 902 },
- {  36, 902 }, {  37, 902 }, {  38, 902 }, {  39, 902 }, {  40, 902 },
- {  41, 902 }, {  42, 902 }, {  43, 902 }, {  44, 902 }, {  45,1160 },
- {  46, 902 }, {  47, 902 }, {  48, 902 }, {  49, 902 }, {  50, 902 },
- {  51, 902 }, {  52, 902 }, {  53, 902 }, {  54, 902 }, {  55, 902 },
- {  56, 902 }, {  57, 902 }, {  58, 902 }, {  59, 902 }, {  60, 902 },
- {  61, 902 }, {  62, 902 }, {  63, 902 }, {  64, 902 }, {  65, 902 },
- {  66, 902 }, {  67, 902 }, {  68, 902 }, {  69, 902 }, {  70, 902 },
- {  71, 902 }, {  72, 902 }, {  73, 902 }, {  74, 902 }, {  75, 902 },
- {  76, 902 }, {  77, 902 }, {  78, 902 }, {  79, 902 }, {  80, 902 },
-
- {  81, 902 }, {  82, 902 }, {  83, 902 }, {  84, 902 }, {  85, 902 },
- {  86, 902 }, {  87, 902 }, {  88, 902 }, {  89, 902 }, {  90, 902 },
- {  91, 902 }, {  92, 902 }, {  93, 902 }, {  94, 902 }, {  95, 902 },
- {  96, 902 }, {  97, 902 }, {  98, 902 }, {  99, 902 }, { 100, 902 },
- { 101, 902 }, { 102, 902 }, { 103, 902 }, { 104, 902 }, { 105, 902 },
- { 106, 902 }, { 107, 902 }, { 108, 902 }, { 109, 902 }, { 110, 902 },
- { 111, 902 }, { 112, 902 }, { 113, 902 }, { 114, 902 }, { 115, 902 },
- { 116, 902 }, { 117, 902 }, { 118, 902 }, { 119, 902 }, { 120, 902 },
- { 121, 902 }, { 122, 902 }, { 123, 902 }, { 124, 902 }, { 125, 902 },
- { 126, 902 }, { 127, 902 }, { 128, 902 }, { 129, 902 }, { 130, 902 },
-
- { 131, 902 }, { 132, 902 }, { 133, 902 }, { 134, 902 }, { 135, 902 },
- { 136, 902 }, { 137, 902 }, { 138, 902 }, { 139, 902 }, { 140, 902 },
- { 141, 902 }, { 142, 902 }, { 143, 902 }, { 144, 902 }, { 145, 902 },
- { 146, 902 }, { 147, 902 }, { 148, 902 }, { 149, 902 }, { 150, 902 },
- { 151, 902 }, { 152, 902 }, { 153, 902 }, { 154, 902 }, { 155, 902 },
- { 156, 902 }, { 157, 902 }, { 158, 902 }, { 159, 902 }, { 160, 902 },
- { 161, 902 }, { 162, 902 }, { 163, 902 }, { 164, 902 }, { 165, 902 },
- { 166, 902 }, { 167, 902 }, { 168, 902 }, { 169, 902 }, { 170, 902 },
- { 171, 902 }, { 172, 902 }, { 173, 902 }, { 174, 902 }, { 175, 902 },
- { 176, 902 }, { 177, 902 }, { 178, 902 }, { 179, 902 }, { 180, 902 },
-
- { 181, 902 }, { 182, 902 }, { 183, 902 }, { 184, 902 }, { 185, 902 },
- { 186, 902 }, { 187, 902 }, { 188, 902 }, { 189, 902 }, { 190, 902 },
- { 191, 902 }, { 192, 902 }, { 193, 902 }, { 194, 902 }, { 195, 902 },
- { 196, 902 }, { 197, 902 }, { 198, 902 }, { 199, 902 }, { 200, 902 },
- { 201, 902 }, { 202, 902 }, { 203, 902 }, { 204, 902 }, { 205, 902 },
- { 206, 902 }, { 207, 902 }, { 208, 902 }, { 209, 902 }, { 210, 902 },
- { 211, 902 }, { 212, 902 }, { 213, 902 }, { 214, 902 }, { 215, 902 },
- { 216, 902 }, { 217, 902 }, { 218, 902 }, { 219, 902 }, { 220, 902 },
- { 221, 902 }, { 222, 902 }, { 223, 902 }, { 224, 902 }, { 225, 902 },
- { 226, 902 }, { 227, 902 }, { 228, 902 }, { 229, 902 }, { 230, 902 },
-
- { 231, 902 }, { 232, 902 }, { 233, 902 }, { 234, 902 }, { 235, 902 },
- { 236, 902 }, { 237, 902 }, { 238, 902 }, { 239, 902 }, { 240, 902 },
- { 241, 902 }, { 242, 902 }, { 243, 902 }, { 244, 902 }, { 245, 902 },
- { 246, 902 }, { 247, 902 }, { 248, 902 }, { 249, 902 }, { 250, 902 },
- { 251, 902 }, { 252, 902 }, { 253, 902 }, { 254, 902 }, { 255, 902 },
- { 256, 902 }, {   0,   0 }, {   0,2279 }, {   1,1160 }, {   2,1160 },
- {   3,1160 }, {   4,1160 }, {   5,1160 }, {   6,1160 }, {   7,1160 },
- {   8,1160 }, {   0,   0 }, {   0,   0 }, {  11,1160 }, {  12,1160 },
- {   0,   0 }, {  14,1160 }, {  15,1160 }, {  16,1160 }, {  17,1160 },
- {  18,1160 }, {  19,1160 }, {  20,1160 }, {  21,1160 }, {  22,1160 },
-
- {  23,1160 }, {  24,1160 }, {  25,1160 }, {  26,1160 }, {  27,1160 },
- {  28,1160 }, {  29,1160 }, {  30,1160 }, {  31,1160 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,1160 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,1160 }, {   0,   0 }, {   0,   0 },
- {  48,1160 }, {  49,1160 }, {  50,1160 }, {  51,1160 }, {  52,1160 },
- {  53,1160 }, {  54,1160 }, {  55,1160 }, {  56,1160 }, {  57,1160 },
- {  58,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  63,1160 }, {   0,   0 }, {  65,1160 }, {  66,1160 }, {  67,1160 },
- {  68,1160 }, {  69,1160 }, {  70,1160 }, {  71,1160 }, {  72,1160 },
-
- {  73,1160 }, {  74,1160 }, {  75,1160 }, {  76,1160 }, {  77,1160 },
- {  78,1160 }, {  79,1160 }, {  80,1160 }, {  81,1160 }, {  82,1160 },
- {  83,1160 }, {  84,1160 }, {  85,1160 }, {  86,1160 }, {  87,1160 },
- {  88,1160 }, {  89,1160 }, {  90,1160 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,1160 }, {   0,   0 }, {  97,1160 },
- {  98,1160 }, {  99,1160 }, { 100,1160 }, { 101,1160 }, { 102,1160 },
- { 103,1160 }, { 104,1160 }, { 105,1160 }, { 106,1160 }, { 107,1160 },
- { 108,1160 }, { 109,1160 }, { 110,1160 }, { 111,1160 }, { 112,1160 },
- { 113,1160 }, { 114,1160 }, { 115,1160 }, { 116,1160 }, { 117,1160 },
- { 118,1160 }, { 119,1160 }, { 120,1160 }, { 121,1160 }, { 122,1160 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 127,1160 },
- { 128,1160 }, { 129,1160 }, { 130,1160 }, { 131,1160 }, { 132,1160 },
- { 133,1160 }, { 134,1160 }, { 135,1160 }, { 136,1160 }, { 137,1160 },
- { 138,1160 }, { 139,1160 }, { 140,1160 }, { 141,1160 }, { 142,1160 },
- { 143,1160 }, { 144,1160 }, { 145,1160 }, { 146,1160 }, { 147,1160 },
- { 148,1160 }, { 149,1160 }, { 150,1160 }, { 151,1160 }, { 152,1160 },
- { 153,1160 }, { 154,1160 }, { 155,1160 }, { 156,1160 }, { 157,1160 },
- { 158,1160 }, { 159,1160 }, { 160,1160 }, { 161,1160 }, { 162,1160 },
- { 163,1160 }, { 164,1160 }, { 165,1160 }, { 166,1160 }, { 167,1160 },
- { 168,1160 }, { 169,1160 }, { 170,1160 }, { 171,1160 }, { 172,1160 },
-
- { 173,1160 }, { 174,1160 }, { 175,1160 }, { 176,1160 }, { 177,1160 },
- { 178,1160 }, { 179,1160 }, { 180,1160 }, { 181,1160 }, { 182,1160 },
- { 183,1160 }, { 184,1160 }, { 185,1160 }, { 186,1160 }, { 187,1160 },
- { 188,1160 }, { 189,1160 }, { 190,1160 }, { 191,1160 }, { 192,1160 },
- { 193,1160 }, { 194,1160 }, { 195,1160 }, { 196,1160 }, { 197,1160 },
- { 198,1160 }, { 199,1160 }, { 200,1160 }, { 201,1160 }, { 202,1160 },
- { 203,1160 }, { 204,1160 }, { 205,1160 }, { 206,1160 }, { 207,1160 },
- { 208,1160 }, { 209,1160 }, { 210,1160 }, { 211,1160 }, { 212,1160 },
- { 213,1160 }, { 214,1160 }, { 215,1160 }, { 216,1160 }, { 217,1160 },
- { 218,1160 }, { 219,1160 }, { 220,1160 }, { 221,1160 }, { 222,1160 },
-
- { 223,1160 }, { 224,1160 }, { 225,1160 }, { 226,1160 }, { 227,1160 },
- { 228,1160 }, { 229,1160 }, { 230,1160 }, { 231,1160 }, { 232,1160 },
- { 233,1160 }, { 234,1160 }, { 235,1160 }, { 236,1160 }, { 237,1160 },
- { 238,1160 }, { 239,1160 }, { 240,1160 }, { 241,1160 }, { 242,1160 },
- { 243,1160 }, { 244,1160 }, { 245,1160 }, { 246,1160 }, { 247,1160 },
- { 248,1160 }, { 249,1160 }, { 250,1160 }, { 251,1160 }, { 252,1160 },
- { 253,1160 }, { 254,1160 }, { 255,1160 }, { 256,1160 }, {   0,   0 },
- {   0,2021 }, {   1,-9937 }, {   2,-9937 }, {   3,-9937 }, {   4,-9937 },
- {   5,-9937 }, {   6,-9937 }, {   7,-9937 }, {   8,-9937 }, {   9,-9962 },
- {  10,-9962 }, {  11,-9937 }, {  12,-9937 }, {  13,-9962 }, {  14,-9937 },
-
- {  15,-9937 }, {  16,-9937 }, {  17,-9937 }, {  18,-9937 }, {  19,-9937 },
- {  20,-9937 }, {  21,-9937 }, {  22,-9937 }, {  23,-9937 }, {  24,-9937 },
- {  25,-9937 }, {  26,-9937 }, {  27,-9937 }, {  28,-9937 }, {  29,-9937 },
- {  30,-9937 }, {  31,-9937 }, {  32,-9962 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-9937 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,-9962 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,-9937 }, {  46,-9962 }, {  47,-9962 }, {  48,-9937 }, {  49,-9937 },
- {  50,-9937 }, {  51,-9937 }, {  52,-9937 }, {  53,-9937 }, {  54,-9937 },
- {  55,-9937 }, {  56,-9937 }, {  57,-9937 }, {  58,-9937 }, {   0,   0 },
- {   0,   0 }, {  61,-9962 }, {   0,   0 }, {  63,-9937 }, {   0,   0 },
-
- {  65,-9937 }, {  66,-9937 }, {  67,-9937 }, {  68,-9937 }, {  69,-9937 },
- {  70,-9937 }, {  71,-9937 }, {  72,-9937 }, {  73,-9937 }, {  74,-9937 },
- {  75,-9937 }, {  76,-9937 }, {  77,-9937 }, {  78,-9937 }, {  79,-9937 },
- {  80,-9937 }, {  81,-9937 }, {  82,-9937 }, {  83,-9937 }, {  84,-9937 },
- {  85,-9937 }, {  86,-9937 }, {  87,-9937 }, {  88,-9937 }, {  89,-9937 },
- {  90,-9937 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,-9937 }, {   0,   0 }, {  97,-9937 }, {  98,-9937 }, {  99,-9937 },
- { 100,-9937 }, { 101,-9937 }, { 102,-9937 }, { 103,-9937 }, { 104,-9937 },
- { 105,-9937 }, { 106,-9937 }, { 107,-9937 }, { 108,-9937 }, { 109,-9937 },
- { 110,1160 }, { 111,-9937 }, { 112,-9937 }, { 113,-9937 }, { 114,-9937 },
-
- { 115,-9937 }, { 116,-9937 }, { 117,-9937 }, { 118,-9937 }, { 119,-9937 },
- { 120,-9937 }, { 121,-9937 }, { 122,-9937 }, {   0,   0 }, { 124,-9962 },
- { 125,-9962 }, { 126,-9962 }, { 127,-9937 }, { 128,-9937 }, { 129,-9937 },
- { 130,-9937 }, { 131,-9937 }, { 132,-9937 }, { 133,-9937 }, { 134,-9937 },
- { 135,-9937 }, { 136,-9937 }, { 137,-9937 }, { 138,-9937 }, { 139,-9937 },
- { 140,-9937 }, { 141,-9937 }, { 142,-9937 }, { 143,-9937 }, { 144,-9937 },
- { 145,-9937 }, { 146,-9937 }, { 147,-9937 }, { 148,-9937 }, { 149,-9937 },
- { 150,-9937 }, { 151,-9937 }, { 152,-9937 }, { 153,-9937 }, { 154,-9937 },
- { 155,-9937 }, { 156,-9937 }, { 157,-9937 }, { 158,-9937 }, { 159,-9937 },
- { 160,-9937 }, { 161,-9937 }, { 162,-9937 }, { 163,-9937 }, { 164,-9937 },
-
- { 165,-9937 }, { 166,-9937 }, { 167,-9937 }, { 168,-9937 }, { 169,-9937 },
- { 170,-9937 }, { 171,-9937 }, { 172,-9937 }, { 173,-9937 }, { 174,-9937 },
- { 175,-9937 }, { 176,-9937 }, { 177,-9937 }, { 178,-9937 }, { 179,-9937 },
- { 180,-9937 }, { 181,-9937 }, { 182,-9937 }, { 183,-9937 }, { 184,-9937 },
- { 185,-9937 }, { 186,-9937 }, { 187,-9937 }, { 188,-9937 }, { 189,-9937 },
- { 190,-9937 }, { 191,-9937 }, { 192,-9937 }, { 193,-9937 }, { 194,-9937 },
- { 195,-9937 }, { 196,-9937 }, { 197,-9937 }, { 198,-9937 }, { 199,-9937 },
- { 200,-9937 }, { 201,-9937 }, { 202,-9937 }, { 203,-9937 }, { 204,-9937 },
- { 205,-9937 }, { 206,-9937 }, { 207,-9937 }, { 208,-9937 }, { 209,-9937 },
- { 210,-9937 }, { 211,-9937 }, { 212,-9937 }, { 213,-9937 }, { 214,-9937 },
-
- { 215,-9937 }, { 216,-9937 }, { 217,-9937 }, { 218,-9937 }, { 219,-9937 },
- { 220,-9937 }, { 221,-9937 }, { 222,-9937 }, { 223,-9937 }, { 224,-9937 },
- { 225,-9937 }, { 226,-9937 }, { 227,-9937 }, { 228,-9937 }, { 229,-9937 },
- { 230,-9937 }, { 231,-9937 }, { 232,-9937 }, { 233,-9937 }, { 234,-9937 },
- { 235,-9937 }, { 236,-9937 }, { 237,-9937 }, { 238,-9937 }, { 239,-9937 },
- { 240,-9937 }, { 241,-9937 }, { 242,-9937 }, { 243,-9937 }, { 244,-9937 },
- { 245,-9937 }, { 246,-9937 }, { 247,-9937 }, { 248,-9937 }, { 249,-9937 },
- { 250,-9937 }, { 251,-9937 }, { 252,-9937 }, { 253,-9937 }, { 254,-9937 },
- { 255,-9937 }, { 256,-9937 }, {   0,  25 }, {   0,1763 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,2633 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
- {   0,   0 }, {   0,   0 }, {   9,1160 }, {  10,1160 }, {   0,   0 },
- {   0,   0 }, {  13,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  32,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,6187 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,2635 }, {   0,   0 },
+
+ { 123,2635 }, {   0,   4 }, {   0,6154 }, {   1,   0 }, {   2,   0 },
+ {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
+ {   8,   0 }, {   9,   0 }, {  10,-123 }, {  11,   0 }, {  12,   0 },
+ {  13,-123 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
+ {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 },
+ {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 },
+ {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 },
+ {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 },
+ {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 },
+ {  43,   0 }, {  44,   0 }, {  45,   0 }, {  46,   0 }, {  47,   0 },
+
+ {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
+ {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
+ {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 },
+ {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 },
+ {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 },
+ {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 },
+ {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 },
+ {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 },
+ {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 }, { 125,2551 },
+ {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 },
+
+ {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 },
+ { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 },
+ { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 },
+ { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 },
+ { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 },
+ {   0,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 },
+ { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 },
+ { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 },
+ { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 },
+ { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 },
+
+ { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 },
+ { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 },
+ { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 },
+ { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 },
+ { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 },
+ { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 },
+ { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 },
+ { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 },
+ { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 },
+ { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 },
+
+ { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 },
+ { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 },
+ { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 },
+ { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 },
+ { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 },
+ { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 },
+ { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 },
+ { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 },
+ { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 },
+ { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
+
+ { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
+ { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   4 }, {   0,5897 },
+ {   1,-257 }, {   2,-257 }, {   3,-257 }, {   4,-257 }, {   5,-257 },
+ {   6,-257 }, {   7,-257 }, {   8,-257 }, {   9,-257 }, {  10,-380 },
+ {  11,-257 }, {  12,-257 }, {  13,-380 }, {  14,-257 }, {  15,-257 },
+ {  16,-257 }, {  17,-257 }, {  18,-257 }, {  19,-257 }, {  20,-257 },
+ {  21,-257 }, {  22,-257 }, {  23,-257 }, {  24,-257 }, {  25,-257 },
+ {  26,-257 }, {  27,-257 }, {  28,-257 }, {  29,-257 }, {  30,-257 },
+ {  31,-257 }, {  32,-257 }, {  33,-257 }, {  34,-257 }, {  35,-257 },
+ {  36,-257 }, {  37,-257 }, {  38,-257 }, {  39,-257 }, {  40,-257 },
+
+ {  41,-257 }, {  42,-257 }, {  43,-257 }, {  44,-257 }, {  45,-257 },
+ {  46,-257 }, {  47,-257 }, {  48,-257 }, {  49,-257 }, {  50,-257 },
+ {  51,-257 }, {  52,-257 }, {  53,-257 }, {  54,-257 }, {  55,-257 },
+ {  56,-257 }, {  57,-257 }, {  58,-257 }, {  59,-257 }, {  60,-257 },
+ {  61,-257 }, {  62,-257 }, {  63,-257 }, {  64,-257 }, {  65,-257 },
+ {  66,-257 }, {  67,-257 }, {  68,-257 }, {  69,-257 }, {  70,-257 },
+ {  71,-257 }, {  72,-257 }, {  73,-257 }, {  74,-257 }, {  75,-257 },
+ {  76,-257 }, {  77,-257 }, {  78,-257 }, {  79,-257 }, {  80,-257 },
+ {  81,-257 }, {  82,-257 }, {  83,-257 }, {  84,-257 }, {  85,-257 },
+ {  86,-257 }, {  87,-257 }, {  88,-257 }, {  89,-257 }, {  90,-257 },
+
+ {  91,-257 }, {   0,   0 }, {  93,-257 }, {  94,-257 }, {  95,-257 },
+ {  96,-257 }, {  97,-257 }, {  98,-257 }, {  99,-257 }, { 100,-257 },
+ { 101,-257 }, { 102,-257 }, { 103,-257 }, { 104,-257 }, { 105,-257 },
+ { 106,-257 }, { 107,-257 }, { 108,-257 }, { 109,-257 }, { 110,-257 },
+ { 111,-257 }, { 112,-257 }, { 113,-257 }, { 114,-257 }, { 115,-257 },
+ { 116,-257 }, { 117,-257 }, { 118,-257 }, { 119,-257 }, { 120,-257 },
+ { 121,-257 }, { 122,-257 }, {   0,   0 }, { 124,-257 }, { 125,-257 },
+ { 126,-257 }, { 127,-257 }, { 128,-257 }, { 129,-257 }, { 130,-257 },
+ { 131,-257 }, { 132,-257 }, { 133,-257 }, { 134,-257 }, { 135,-257 },
+ { 136,-257 }, { 137,-257 }, { 138,-257 }, { 139,-257 }, { 140,-257 },
+
+ { 141,-257 }, { 142,-257 }, { 143,-257 }, { 144,-257 }, { 145,-257 },
+ { 146,-257 }, { 147,-257 }, { 148,-257 }, { 149,-257 }, { 150,-257 },
+ { 151,-257 }, { 152,-257 }, { 153,-257 }, { 154,-257 }, { 155,-257 },
+ { 156,-257 }, { 157,-257 }, { 158,-257 }, { 159,-257 }, { 160,-257 },
+ { 161,-257 }, { 162,-257 }, { 163,-257 }, { 164,-257 }, { 165,-257 },
+ { 166,-257 }, { 167,-257 }, { 168,-257 }, { 169,-257 }, { 170,-257 },
+ { 171,-257 }, { 172,-257 }, { 173,-257 }, { 174,-257 }, { 175,-257 },
+ { 176,-257 }, { 177,-257 }, { 178,-257 }, { 179,-257 }, { 180,-257 },
+ { 181,-257 }, { 182,-257 }, { 183,-257 }, { 184,-257 }, { 185,-257 },
+ { 186,-257 }, { 187,-257 }, { 188,-257 }, { 189,-257 }, { 190,-257 },
+
+ { 191,-257 }, { 192,-257 }, { 193,-257 }, { 194,-257 }, { 195,-257 },
+ { 196,-257 }, { 197,-257 }, { 198,-257 }, { 199,-257 }, { 200,-257 },
+ { 201,-257 }, { 202,-257 }, { 203,-257 }, { 204,-257 }, { 205,-257 },
+ { 206,-257 }, { 207,-257 }, { 208,-257 }, { 209,-257 }, { 210,-257 },
+ { 211,-257 }, { 212,-257 }, { 213,-257 }, { 214,-257 }, { 215,-257 },
+ { 216,-257 }, { 217,-257 }, { 218,-257 }, { 219,-257 }, { 220,-257 },
+ { 221,-257 }, { 222,-257 }, { 223,-257 }, { 224,-257 }, { 225,-257 },
+ { 226,-257 }, { 227,-257 }, { 228,-257 }, { 229,-257 }, { 230,-257 },
+ { 231,-257 }, { 232,-257 }, { 233,-257 }, { 234,-257 }, { 235,-257 },
+ { 236,-257 }, { 237,-257 }, { 238,-257 }, { 239,-257 }, { 240,-257 },
+
+ { 241,-257 }, { 242,-257 }, { 243,-257 }, { 244,-257 }, { 245,-257 },
+ { 246,-257 }, { 247,-257 }, { 248,-257 }, { 249,-257 }, { 250,-257 },
+ { 251,-257 }, { 252,-257 }, { 253,-257 }, { 254,-257 }, { 255,-257 },
+ {   0,   0 }, {   0,5640 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   9,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 }, {  13,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,5614 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,5603 }, {   0,  16 },
+ {   0,5601 }, {   0,  26 }, {   0,5599 }, {   0,  17 }, {   0,5597 },
+ {   0,  36 }, {   0,5595 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,5580 }, {   1,-7828 }, {   2,-7828 }, {   3,-7828 },
+ {   4,-7828 }, {   5,-7828 }, {   6,-7828 }, {   7,-7828 }, {   8,-7828 },
+ {   9,-7853 }, {  10,-7853 }, {  11,-7828 }, {  12,-7828 }, {  13,-7853 },
+ {  14,-7828 }, {  15,-7828 }, {  16,-7828 }, {  17,-7828 }, {  18,-7828 },
+ {  19,-7828 }, {  20,-7828 }, {  21,-7828 }, {  22,-7828 }, {  23,-7828 },
+
+ {  24,-7828 }, {  25,-7828 }, {  26,-7828 }, {  27,-7828 }, {  28,-7828 },
+ {  29,-7828 }, {  30,-7828 }, {  31,-7828 }, {  32,-7853 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,-7828 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,-7853 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,-7828 }, {  46,-7853 }, {  47,-7853 }, {  48,-7828 },
+ {  49,-7828 }, {  50,-7828 }, {  51,-7828 }, {  52,-7828 }, {  53,-7828 },
+ {  54,-7828 }, {  55,-7828 }, {  56,-7828 }, {  57,-7828 }, {  58,-7828 },
+ {   0,   0 }, {   0,   0 }, {  61,-7853 }, {   0,   0 }, {  63,-7828 },
+ { 124,-633 }, {  65,-7828 }, {  66,-7828 }, {  67,-7828 }, {  68,-7828 },
+ {  69,-7828 }, {  70,-7828 }, {  71,-7828 }, {  72,-7828 }, {  73,-7828 },
+
+ {  74,-7828 }, {  75,-7828 }, {  76,-7828 }, {  77,-7828 }, {  78,-7828 },
+ {  79,-7828 }, {  80,-7828 }, {  81,-7828 }, {  82,-7828 }, {  83,-7828 },
+ {  84,-7828 }, {  85,-7828 }, {  86,-7828 }, {  87,-7828 }, {  88,-7828 },
+ {  89,-7828 }, {  90,-7828 }, { 125,-573 }, { 115,1974 }, {   0,   0 },
+ {   0,   0 }, {  95,-7828 }, {   0,   0 }, {  97,-7828 }, {  98,-7828 },
+ {  99,-7828 }, { 100,-7828 }, { 101,1961 }, { 102,-7828 }, { 103,-7828 },
+ { 104,-7828 }, { 105,-7828 }, { 106,-7828 }, { 107,-7828 }, { 108,-7828 },
+ { 109,-7828 }, { 110,-7828 }, { 111,-7828 }, { 112,-7828 }, { 113,-7828 },
+ { 114,-7828 }, { 115,-7828 }, { 116,-7828 }, { 117,-7828 }, { 118,-7828 },
+ { 119,-7828 }, { 120,-7828 }, { 121,-7828 }, { 122,-7828 }, {   0,   0 },
+
+ { 124,-7853 }, { 125,-7853 }, { 126,-7853 }, { 127,-7828 }, { 128,-7828 },
+ { 129,-7828 }, { 130,-7828 }, { 131,-7828 }, { 132,-7828 }, { 133,-7828 },
+ { 134,-7828 }, { 135,-7828 }, { 136,-7828 }, { 137,-7828 }, { 138,-7828 },
+ { 139,-7828 }, { 140,-7828 }, { 141,-7828 }, { 142,-7828 }, { 143,-7828 },
+ { 144,-7828 }, { 145,-7828 }, { 146,-7828 }, { 147,-7828 }, { 148,-7828 },
+ { 149,-7828 }, { 150,-7828 }, { 151,-7828 }, { 152,-7828 }, { 153,-7828 },
+ { 154,-7828 }, { 155,-7828 }, { 156,-7828 }, { 157,-7828 }, { 158,-7828 },
+ { 159,-7828 }, { 160,-7828 }, { 161,-7828 }, { 162,-7828 }, { 163,-7828 },
+ { 164,-7828 }, { 165,-7828 }, { 166,-7828 }, { 167,-7828 }, { 168,-7828 },
+ { 169,-7828 }, { 170,-7828 }, { 171,-7828 }, { 172,-7828 }, { 173,-7828 },
+
+ { 174,-7828 }, { 175,-7828 }, { 176,-7828 }, { 177,-7828 }, { 178,-7828 },
+ { 179,-7828 }, { 180,-7828 }, { 181,-7828 }, { 182,-7828 }, { 183,-7828 },
+ { 184,-7828 }, { 185,-7828 }, { 186,-7828 }, { 187,-7828 }, { 188,-7828 },
+ { 189,-7828 }, { 190,-7828 }, { 191,-7828 }, { 192,-7828 }, { 193,-7828 },
+ { 194,-7828 }, { 195,-7828 }, { 196,-7828 }, { 197,-7828 }, { 198,-7828 },
+ { 199,-7828 }, { 200,-7828 }, { 201,-7828 }, { 202,-7828 }, { 203,-7828 },
+ { 204,-7828 }, { 205,-7828 }, { 206,-7828 }, { 207,-7828 }, { 208,-7828 },
+ { 209,-7828 }, { 210,-7828 }, { 211,-7828 }, { 212,-7828 }, { 213,-7828 },
+ { 214,-7828 }, { 215,-7828 }, { 216,-7828 }, { 217,-7828 }, { 218,-7828 },
+ { 219,-7828 }, { 220,-7828 }, { 221,-7828 }, { 222,-7828 }, { 223,-7828 },
+
+ { 224,-7828 }, { 225,-7828 }, { 226,-7828 }, { 227,-7828 }, { 228,-7828 },
+ { 229,-7828 }, { 230,-7828 }, { 231,-7828 }, { 232,-7828 }, { 233,-7828 },
+ { 234,-7828 }, { 235,-7828 }, { 236,-7828 }, { 237,-7828 }, { 238,-7828 },
+ { 239,-7828 }, { 240,-7828 }, { 241,-7828 }, { 242,-7828 }, { 243,-7828 },
+ { 244,-7828 }, { 245,-7828 }, { 246,-7828 }, { 247,-7828 }, { 248,-7828 },
+ { 249,-7828 }, { 250,-7828 }, { 251,-7828 }, { 252,-7828 }, { 253,-7828 },
+ { 254,-7828 }, { 255,-7828 }, { 256,-7828 }, {   0,   0 }, {   0,5322 },
+ {   1,-8086 }, {   2,-8086 }, {   3,-8086 }, {   4,-8086 }, {   5,-8086 },
+ {   6,-8086 }, {   7,-8086 }, {   8,-8086 }, {   9,1680 }, {  10,1680 },
+ {  11,-8086 }, {  12,-8086 }, {  13,1680 }, {  14,-8086 }, {  15,-8086 },
+
+ {  16,-8086 }, {  17,-8086 }, {  18,-8086 }, {  19,-8086 }, {  20,-8086 },
+ {  21,-8086 }, {  22,-8086 }, {  23,-8086 }, {  24,-8086 }, {  25,-8086 },
+ {  26,-8086 }, {  27,-8086 }, {  28,-8086 }, {  29,-8086 }, {  30,-8086 },
+ {  31,-8086 }, {  32,1680 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  36,-8086 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  41,1680 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-8086 },
+ {  46,-8111 }, {  47,-8111 }, {  48,-8086 }, {  49,-8086 }, {  50,-8086 },
+ {  51,-8086 }, {  52,-8086 }, {  53,-8086 }, {  54,-8086 }, {  55,-8086 },
+ {  56,-8086 }, {  57,-8086 }, {  58,-8086 }, {   0,   0 }, {   0,   0 },
+ {  61,-8111 }, {   0,   0 }, {  63,-8086 }, {   0,   0 }, {  65,-8086 },
+
+ {  66,-8086 }, {  67,-8086 }, {  68,-8086 }, {  69,-8086 }, {  70,-8086 },
+ {  71,-8086 }, {  72,-8086 }, {  73,-8086 }, {  74,-8086 }, {  75,-8086 },
+ {  76,-8086 }, {  77,-8086 }, {  78,-8086 }, {  79,-8086 }, {  80,-8086 },
+ {  81,-8086 }, {  82,-8086 }, {  83,-8086 }, {  84,-8086 }, {  85,-8086 },
+ {  86,-8086 }, {  87,-8086 }, {  88,-8086 }, {  89,-8086 }, {  90,-8086 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-8086 },
+ {   0,   0 }, {  97,-8086 }, {  98,-8086 }, {  99,-8086 }, { 100,-8086 },
+ { 101,-8086 }, { 102,-8086 }, { 103,-8086 }, { 104,-8086 }, { 105,-8086 },
+ { 106,-8086 }, { 107,-8086 }, { 108,-8086 }, { 109,-8086 }, { 110,-8086 },
+ { 111,-8086 }, { 112,-8086 }, { 113,-8086 }, { 114,-8086 }, { 115,-8086 },
+
+ { 116,-8086 }, { 117,-8086 }, { 118,-8086 }, { 119,-8086 }, { 120,-8086 },
+ { 121,-8086 }, { 122,-8086 }, {   0,   0 }, { 124,-8111 }, { 125,1680 },
+ { 126,1680 }, { 127,-8086 }, { 128,-8086 }, { 129,-8086 }, { 130,-8086 },
+ { 131,-8086 }, { 132,-8086 }, { 133,-8086 }, { 134,-8086 }, { 135,-8086 },
+ { 136,-8086 }, { 137,-8086 }, { 138,-8086 }, { 139,-8086 }, { 140,-8086 },
+ { 141,-8086 }, { 142,-8086 }, { 143,-8086 }, { 144,-8086 }, { 145,-8086 },
+ { 146,-8086 }, { 147,-8086 }, { 148,-8086 }, { 149,-8086 }, { 150,-8086 },
+ { 151,-8086 }, { 152,-8086 }, { 153,-8086 }, { 154,-8086 }, { 155,-8086 },
+ { 156,-8086 }, { 157,-8086 }, { 158,-8086 }, { 159,-8086 }, { 160,-8086 },
+ { 161,-8086 }, { 162,-8086 }, { 163,-8086 }, { 164,-8086 }, { 165,-8086 },
+
+ { 166,-8086 }, { 167,-8086 }, { 168,-8086 }, { 169,-8086 }, { 170,-8086 },
+ { 171,-8086 }, { 172,-8086 }, { 173,-8086 }, { 174,-8086 }, { 175,-8086 },
+ { 176,-8086 }, { 177,-8086 }, { 178,-8086 }, { 179,-8086 }, { 180,-8086 },
+ { 181,-8086 }, { 182,-8086 }, { 183,-8086 }, { 184,-8086 }, { 185,-8086 },
+ { 186,-8086 }, { 187,-8086 }, { 188,-8086 }, { 189,-8086 }, { 190,-8086 },
+ { 191,-8086 }, { 192,-8086 }, { 193,-8086 }, { 194,-8086 }, { 195,-8086 },
+ { 196,-8086 }, { 197,-8086 }, { 198,-8086 }, { 199,-8086 }, { 200,-8086 },
+ { 201,-8086 }, { 202,-8086 }, { 203,-8086 }, { 204,-8086 }, { 205,-8086 },
+ { 206,-8086 }, { 207,-8086 }, { 208,-8086 }, { 209,-8086 }, { 210,-8086 },
+ { 211,-8086 }, { 212,-8086 }, { 213,-8086 }, { 214,-8086 }, { 215,-8086 },
+
+ { 216,-8086 }, { 217,-8086 }, { 218,-8086 }, { 219,-8086 }, { 220,-8086 },
+ { 221,-8086 }, { 222,-8086 }, { 223,-8086 }, { 224,-8086 }, { 225,-8086 },
+ { 226,-8086 }, { 227,-8086 }, { 228,-8086 }, { 229,-8086 }, { 230,-8086 },
+ { 231,-8086 }, { 232,-8086 }, { 233,-8086 }, { 234,-8086 }, { 235,-8086 },
+ { 236,-8086 }, { 237,-8086 }, { 238,-8086 }, { 239,-8086 }, { 240,-8086 },
+ { 241,-8086 }, { 242,-8086 }, { 243,-8086 }, { 244,-8086 }, { 245,-8086 },
+ { 246,-8086 }, { 247,-8086 }, { 248,-8086 }, { 249,-8086 }, { 250,-8086 },
+ { 251,-8086 }, { 252,-8086 }, { 253,-8086 }, { 254,-8086 }, { 255,-8086 },
+ { 256,-8086 }, {   0,   0 }, {   0,5064 }, {   1,-8344 }, {   2,-8344 },
+ {   3,-8344 }, {   4,-8344 }, {   5,-8344 }, {   6,-8344 }, {   7,-8344 },
+
+ {   8,-8344 }, {   9,1424 }, {  10,1424 }, {  11,-8344 }, {  12,-8344 },
+ {  13,1424 }, {  14,-8344 }, {  15,-8344 }, {  16,-8344 }, {  17,-8344 },
+ {  18,-8344 }, {  19,-8344 }, {  20,-8344 }, {  21,-8344 }, {  22,-8344 },
+ {  23,-8344 }, {  24,-8344 }, {  25,-8344 }, {  26,-8344 }, {  27,-8344 },
+ {  28,-8344 }, {  29,-8344 }, {  30,-8344 }, {  31,-8344 }, {  32,1424 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-8344 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,1424 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,-8344 }, {  46,-8369 }, {  47,-8369 },
+ {  48,-8344 }, {  49,-8344 }, {  50,-8344 }, {  51,-8344 }, {  52,-8344 },
+ {  53,-8344 }, {  54,-8344 }, {  55,-8344 }, {  56,-8344 }, {  57,-8344 },
+
+ {  58,-8344 }, {   0,   0 }, {   0,   0 }, {  61,-8369 }, {   0,   0 },
+ {  63,-8344 }, {   0,   0 }, {  65,-8344 }, {  66,-8344 }, {  67,-8344 },
+ {  68,-8344 }, {  69,-8344 }, {  70,-8344 }, {  71,-8344 }, {  72,-8344 },
+ {  73,-8344 }, {  74,-8344 }, {  75,-8344 }, {  76,-8344 }, {  77,-8344 },
+ {  78,-8344 }, {  79,-8344 }, {  80,-8344 }, {  81,-8344 }, {  82,-8344 },
+ {  83,-8344 }, {  84,-8344 }, {  85,-8344 }, {  86,-8344 }, {  87,-8344 },
+ {  88,-8344 }, {  89,-8344 }, {  90,-8344 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  95,-8344 }, {   0,   0 }, {  97,-8344 },
+ {  98,-8344 }, {  99,-8344 }, { 100,-8344 }, { 101,-8344 }, { 102,-8344 },
+ { 103,-8344 }, { 104,-8344 }, { 105,-8344 }, { 106,-8344 }, { 107,-8344 },
+
+ { 108,-8344 }, { 109,-8344 }, { 110,-8344 }, { 111,-8344 }, { 112,-8344 },
+ { 113,-8344 }, { 114,-8344 }, { 115,-8344 }, { 116,-8344 }, { 117,-8344 },
+ { 118,-8344 }, { 119,-8344 }, { 120,-8344 }, { 121,-8344 }, { 122,-8344 },
+ {   0,   0 }, { 124,-8369 }, { 125,1424 }, { 126,1424 }, { 127,-8344 },
+ { 128,-8344 }, { 129,-8344 }, { 130,-8344 }, { 131,-8344 }, { 132,-8344 },
+ { 133,-8344 }, { 134,-8344 }, { 135,-8344 }, { 136,-8344 }, { 137,-8344 },
+ { 138,-8344 }, { 139,-8344 }, { 140,-8344 }, { 141,-8344 }, { 142,-8344 },
+ { 143,-8344 }, { 144,-8344 }, { 145,-8344 }, { 146,-8344 }, { 147,-8344 },
+ { 148,-8344 }, { 149,-8344 }, { 150,-8344 }, { 151,-8344 }, { 152,-8344 },
+ { 153,-8344 }, { 154,-8344 }, { 155,-8344 }, { 156,-8344 }, { 157,-8344 },
+
+ { 158,-8344 }, { 159,-8344 }, { 160,-8344 }, { 161,-8344 }, { 162,-8344 },
+ { 163,-8344 }, { 164,-8344 }, { 165,-8344 }, { 166,-8344 }, { 167,-8344 },
+ { 168,-8344 }, { 169,-8344 }, { 170,-8344 }, { 171,-8344 }, { 172,-8344 },
+ { 173,-8344 }, { 174,-8344 }, { 175,-8344 }, { 176,-8344 }, { 177,-8344 },
+ { 178,-8344 }, { 179,-8344 }, { 180,-8344 }, { 181,-8344 }, { 182,-8344 },
+ { 183,-8344 }, { 184,-8344 }, { 185,-8344 }, { 186,-8344 }, { 187,-8344 },
+ { 188,-8344 }, { 189,-8344 }, { 190,-8344 }, { 191,-8344 }, { 192,-8344 },
+ { 193,-8344 }, { 194,-8344 }, { 195,-8344 }, { 196,-8344 }, { 197,-8344 },
+ { 198,-8344 }, { 199,-8344 }, { 200,-8344 }, { 201,-8344 }, { 202,-8344 },
+ { 203,-8344 }, { 204,-8344 }, { 205,-8344 }, { 206,-8344 }, { 207,-8344 },
+
+ { 208,-8344 }, { 209,-8344 }, { 210,-8344 }, { 211,-8344 }, { 212,-8344 },
+ { 213,-8344 }, { 214,-8344 }, { 215,-8344 }, { 216,-8344 }, { 217,-8344 },
+ { 218,-8344 }, { 219,-8344 }, { 220,-8344 }, { 221,-8344 }, { 222,-8344 },
+ { 223,-8344 }, { 224,-8344 }, { 225,-8344 }, { 226,-8344 }, { 227,-8344 },
+ { 228,-8344 }, { 229,-8344 }, { 230,-8344 }, { 231,-8344 }, { 232,-8344 },
+ { 233,-8344 }, { 234,-8344 }, { 235,-8344 }, { 236,-8344 }, { 237,-8344 },
+ { 238,-8344 }, { 239,-8344 }, { 240,-8344 }, { 241,-8344 }, { 242,-8344 },
+ { 243,-8344 }, { 244,-8344 }, { 245,-8344 }, { 246,-8344 }, { 247,-8344 },
+ { 248,-8344 }, { 249,-8344 }, { 250,-8344 }, { 251,-8344 }, { 252,-8344 },
+ { 253,-8344 }, { 254,-8344 }, { 255,-8344 }, { 256,-8344 }, {   0,   0 },
+
+ {   0,4806 }, {   1,-8602 }, {   2,-8602 }, {   3,-8602 }, {   4,-8602 },
+ {   5,-8602 }, {   6,-8602 }, {   7,-8602 }, {   8,-8602 }, {   9,-8627 },
+ {  10,-8627 }, {  11,-8602 }, {  12,-8602 }, {  13,-8627 }, {  14,-8602 },
+ {  15,-8602 }, {  16,-8602 }, {  17,-8602 }, {  18,-8602 }, {  19,-8602 },
+ {  20,-8602 }, {  21,-8602 }, {  22,-8602 }, {  23,-8602 }, {  24,-8602 },
+ {  25,-8602 }, {  26,-8602 }, {  27,-8602 }, {  28,-8602 }, {  29,-8602 },
+ {  30,-8602 }, {  31,-8602 }, {  32,-8627 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  36,-8602 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  41,-8627 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,-8602 }, {  46,-8627 }, {  47,-8627 }, {  48,-8602 }, {  49,-8602 },
+
+ {  50,-8602 }, {  51,-8602 }, {  52,-8602 }, {  53,-8602 }, {  54,-8602 },
+ {  55,-8602 }, {  56,-8602 }, {  57,-8602 }, {  58,-8602 }, {   0,   0 },
+ {   0,   0 }, {  61,-8627 }, {   0,   0 }, {  63,-8602 }, {   0,   0 },
+ {  65,-8602 }, {  66,-8602 }, {  67,-8602 }, {  68,-8602 }, {  69,-8602 },
+ {  70,-8602 }, {  71,-8602 }, {  72,-8602 }, {  73,-8602 }, {  74,-8602 },
+ {  75,-8602 }, {  76,-8602 }, {  77,-8602 }, {  78,-8602 }, {  79,-8602 },
+ {  80,-8602 }, {  81,-8602 }, {  82,-8602 }, {  83,-8602 }, {  84,-8602 },
+ {  85,-8602 }, {  86,-8602 }, {  87,-8602 }, {  88,-8602 }, {  89,-8602 },
+ {  90,-8602 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  95,-8602 }, {   0,   0 }, {  97,-8602 }, {  98,-8602 }, {  99,-8602 },
+
+ { 100,-8602 }, { 101,-8602 }, { 102,1445 }, { 103,-8602 }, { 104,-8602 },
+ { 105,-8602 }, { 106,-8602 }, { 107,-8602 }, { 108,-8602 }, { 109,-8602 },
+ { 110,-8602 }, { 111,-8602 }, { 112,-8602 }, { 113,-8602 }, { 114,-8602 },
+ { 115,-8602 }, { 116,-8602 }, { 117,-8602 }, { 118,-8602 }, { 119,-8602 },
+ { 120,-8602 }, { 121,-8602 }, { 122,-8602 }, {   0,   0 }, { 124,-8627 },
+ { 125,-8627 }, { 126,-8627 }, { 127,-8602 }, { 128,-8602 }, { 129,-8602 },
+ { 130,-8602 }, { 131,-8602 }, { 132,-8602 }, { 133,-8602 }, { 134,-8602 },
+ { 135,-8602 }, { 136,-8602 }, { 137,-8602 }, { 138,-8602 }, { 139,-8602 },
+ { 140,-8602 }, { 141,-8602 }, { 142,-8602 }, { 143,-8602 }, { 144,-8602 },
+ { 145,-8602 }, { 146,-8602 }, { 147,-8602 }, { 148,-8602 }, { 149,-8602 },
+
+ { 150,-8602 }, { 151,-8602 }, { 152,-8602 }, { 153,-8602 }, { 154,-8602 },
+ { 155,-8602 }, { 156,-8602 }, { 157,-8602 }, { 158,-8602 }, { 159,-8602 },
+ { 160,-8602 }, { 161,-8602 }, { 162,-8602 }, { 163,-8602 }, { 164,-8602 },
+ { 165,-8602 }, { 166,-8602 }, { 167,-8602 }, { 168,-8602 }, { 169,-8602 },
+ { 170,-8602 }, { 171,-8602 }, { 172,-8602 }, { 173,-8602 }, { 174,-8602 },
+ { 175,-8602 }, { 176,-8602 }, { 177,-8602 }, { 178,-8602 }, { 179,-8602 },
+ { 180,-8602 }, { 181,-8602 }, { 182,-8602 }, { 183,-8602 }, { 184,-8602 },
+ { 185,-8602 }, { 186,-8602 }, { 187,-8602 }, { 188,-8602 }, { 189,-8602 },
+ { 190,-8602 }, { 191,-8602 }, { 192,-8602 }, { 193,-8602 }, { 194,-8602 },
+ { 195,-8602 }, { 196,-8602 }, { 197,-8602 }, { 198,-8602 }, { 199,-8602 },
+
+ { 200,-8602 }, { 201,-8602 }, { 202,-8602 }, { 203,-8602 }, { 204,-8602 },
+ { 205,-8602 }, { 206,-8602 }, { 207,-8602 }, { 208,-8602 }, { 209,-8602 },
+ { 210,-8602 }, { 211,-8602 }, { 212,-8602 }, { 213,-8602 }, { 214,-8602 },
+ { 215,-8602 }, { 216,-8602 }, { 217,-8602 }, { 218,-8602 }, { 219,-8602 },
+ { 220,-8602 }, { 221,-8602 }, { 222,-8602 }, { 223,-8602 }, { 224,-8602 },
+ { 225,-8602 }, { 226,-8602 }, { 227,-8602 }, { 228,-8602 }, { 229,-8602 },
+ { 230,-8602 }, { 231,-8602 }, { 232,-8602 }, { 233,-8602 }, { 234,-8602 },
+ { 235,-8602 }, { 236,-8602 }, { 237,-8602 }, { 238,-8602 }, { 239,-8602 },
+ { 240,-8602 }, { 241,-8602 }, { 242,-8602 }, { 243,-8602 }, { 244,-8602 },
+ { 245,-8602 }, { 246,-8602 }, { 247,-8602 }, { 248,-8602 }, { 249,-8602 },
+
+ { 250,-8602 }, { 251,-8602 }, { 252,-8602 }, { 253,-8602 }, { 254,-8602 },
+ { 255,-8602 }, { 256,-8602 }, {   0,   0 }, {   0,4548 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   9,   0 }, {  10,   0 }, {   0,   0 },
+ {   0,   0 }, {  13,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  32,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -4597,14 +4300,17 @@ static const struct yy_trans_info yy_transition[20061] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,-1292 }, { 126,1162 },
- {   0,   0 }, {   0,1635 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,-1639 }, { 126,-1066 },
+ {   0,   0 }, {   0,4420 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
  {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
  {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
+
  {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
  {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
  {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
-
  {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 },
  {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 },
  {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 },
@@ -4612,10 +4318,10 @@ static const struct yy_trans_info yy_transition[20061] =
  {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
  {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
  {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 },
+
  {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
  {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
  {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
-
  {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
  {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
  {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 }, {  93,   0 },
@@ -4623,10 +4329,10 @@ static const struct yy_trans_info yy_transition[20061] =
  {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
  { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
  { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
+
  { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
  { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 },
  { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 },
-
  { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
  { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
  { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
@@ -4634,10 +4340,10 @@ static const struct yy_trans_info yy_transition[20061] =
  { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
  { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
  { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
+
  { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
  { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
  { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
-
  { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
  { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
  { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
@@ -4645,32 +4351,32 @@ static const struct yy_trans_info yy_transition[20061] =
  { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
  { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
  { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
+
  { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
  { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
  { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
-
  { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
  { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
  { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
  { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
  { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,1377 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,4162 },
  {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
+
  {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
  {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 },
  {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 },
-
  {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 },
  {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 },
  {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 }, {  35,-258 },
  {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,-258 }, {  40,-258 },
- {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45, 778 },
+ {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,1059 },
  {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 },
  {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 },
+
  {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 },
  {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 },
  {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 },
-
  {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 },
  {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 },
  {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 },
@@ -4678,10 +4384,10 @@ static const struct yy_trans_info yy_transition[20061] =
  {  91,-258 }, {  92,-258 }, {  93,-258 }, {  94,-258 }, {  95,-258 },
  {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 }, { 100,-258 },
  { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 }, { 105,-258 },
+
  { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 }, { 110,-258 },
  { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 },
  { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 },
-
  { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125,-258 },
  { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 },
  { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 },
@@ -4689,10 +4395,10 @@ static const struct yy_trans_info yy_transition[20061] =
  { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 },
  { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 }, { 150,-258 },
  { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 }, { 155,-258 },
+
  { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 }, { 160,-258 },
  { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 }, { 165,-258 },
  { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 },
-
  { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 },
  { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 },
  { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 },
@@ -4700,10 +4406,10 @@ static const struct yy_trans_info yy_transition[20061] =
  { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 },
  { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 }, { 200,-258 },
  { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 }, { 205,-258 },
+
  { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 }, { 210,-258 },
  { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 }, { 215,-258 },
  { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 },
-
  { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 },
  { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 },
  { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 },
@@ -4711,253 +4417,866 @@ static const struct yy_trans_info yy_transition[20061] =
  { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
  { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
  { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
- { 256,-258 }, {   0,   0 }, {   0,1119 }, {   1,   0 }, {   2,   0 },
- {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
- {   8,   0 }, {   0,   0 }, {   0,   0 }, {  11,   0 }, {  12,   0 },
 
- {   0,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
- {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 },
- {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 },
- {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,   0 }, {   0,   0 },
+ { 256,-258 }, {   0,   0 }, {   0,3904 }, {   1, 277 }, {   2, 277 },
+ {   3, 277 }, {   4, 277 }, {   5, 277 }, {   6, 277 }, {   7, 277 },
+ {   8, 277 }, {   9, 277 }, {  10, 277 }, {  11, 277 }, {  12, 277 },
+ {  13, 277 }, {  14, 277 }, {  15, 277 }, {  16, 277 }, {  17, 277 },
+ {  18, 277 }, {  19, 277 }, {  20, 277 }, {  21, 277 }, {  22, 277 },
+ {  23, 277 }, {  24, 277 }, {  25, 277 }, {  26, 277 }, {  27, 277 },
+ {  28, 277 }, {  29, 277 }, {  30, 277 }, {  31, 277 }, {  32, 277 },
+ {  33, 277 }, {  34, 277 }, {  35, 277 }, {  36, 277 }, {  37, 277 },
+ {  38, 277 }, {  39, 277 }, {  40, 277 }, {  41, 277 }, {  42, 277 },
+ {  43, 277 }, {  44, 277 }, {  45, 277 }, {  46, 277 }, {  47,1059 },
+
+ {  48, 277 }, {  49, 277 }, {  50, 277 }, {  51, 277 }, {  52, 277 },
+ {  53, 277 }, {  54, 277 }, {  55, 277 }, {  56, 277 }, {  57, 277 },
+ {  58, 277 }, {  59, 277 }, {  60, 277 }, {  61, 277 }, {  62, 277 },
+ {  63, 277 }, {  64, 277 }, {  65, 277 }, {  66, 277 }, {  67, 277 },
+ {  68, 277 }, {  69, 277 }, {  70, 277 }, {  71, 277 }, {  72, 277 },
+ {  73, 277 }, {  74, 277 }, {  75, 277 }, {  76, 277 }, {  77, 277 },
+ {  78, 277 }, {  79, 277 }, {  80, 277 }, {  81, 277 }, {  82, 277 },
+ {  83, 277 }, {  84, 277 }, {  85, 277 }, {  86, 277 }, {  87, 277 },
+ {  88, 277 }, {  89, 277 }, {  90, 277 }, {  91, 277 }, {  92, 277 },
+ {  93, 277 }, {  94, 277 }, {  95, 277 }, {  96, 277 }, {  97, 277 },
+
+ {  98, 277 }, {  99, 277 }, { 100, 277 }, { 101, 277 }, { 102, 277 },
+ { 103, 277 }, { 104, 277 }, { 105, 277 }, { 106, 277 }, { 107, 277 },
+ { 108, 277 }, { 109, 277 }, { 110, 277 }, { 111, 277 }, { 112, 277 },
+ { 113, 277 }, { 114, 277 }, { 115, 277 }, { 116, 277 }, { 117, 277 },
+ { 118, 277 }, { 119, 277 }, { 120, 277 }, { 121, 277 }, { 122, 277 },
+ { 123, 277 }, { 124, 277 }, { 125, 277 }, { 126, 277 }, { 127, 277 },
+ { 128, 277 }, { 129, 277 }, { 130, 277 }, { 131, 277 }, { 132, 277 },
+ { 133, 277 }, { 134, 277 }, { 135, 277 }, { 136, 277 }, { 137, 277 },
+ { 138, 277 }, { 139, 277 }, { 140, 277 }, { 141, 277 }, { 142, 277 },
+ { 143, 277 }, { 144, 277 }, { 145, 277 }, { 146, 277 }, { 147, 277 },
+
+ { 148, 277 }, { 149, 277 }, { 150, 277 }, { 151, 277 }, { 152, 277 },
+ { 153, 277 }, { 154, 277 }, { 155, 277 }, { 156, 277 }, { 157, 277 },
+ { 158, 277 }, { 159, 277 }, { 160, 277 }, { 161, 277 }, { 162, 277 },
+ { 163, 277 }, { 164, 277 }, { 165, 277 }, { 166, 277 }, { 167, 277 },
+ { 168, 277 }, { 169, 277 }, { 170, 277 }, { 171, 277 }, { 172, 277 },
+ { 173, 277 }, { 174, 277 }, { 175, 277 }, { 176, 277 }, { 177, 277 },
+ { 178, 277 }, { 179, 277 }, { 180, 277 }, { 181, 277 }, { 182, 277 },
+ { 183, 277 }, { 184, 277 }, { 185, 277 }, { 186, 277 }, { 187, 277 },
+ { 188, 277 }, { 189, 277 }, { 190, 277 }, { 191, 277 }, { 192, 277 },
+ { 193, 277 }, { 194, 277 }, { 195, 277 }, { 196, 277 }, { 197, 277 },
+
+ { 198, 277 }, { 199, 277 }, { 200, 277 }, { 201, 277 }, { 202, 277 },
+ { 203, 277 }, { 204, 277 }, { 205, 277 }, { 206, 277 }, { 207, 277 },
+ { 208, 277 }, { 209, 277 }, { 210, 277 }, { 211, 277 }, { 212, 277 },
+ { 213, 277 }, { 214, 277 }, { 215, 277 }, { 216, 277 }, { 217, 277 },
+ { 218, 277 }, { 219, 277 }, { 220, 277 }, { 221, 277 }, { 222, 277 },
+ { 223, 277 }, { 224, 277 }, { 225, 277 }, { 226, 277 }, { 227, 277 },
+ { 228, 277 }, { 229, 277 }, { 230, 277 }, { 231, 277 }, { 232, 277 },
+ { 233, 277 }, { 234, 277 }, { 235, 277 }, { 236, 277 }, { 237, 277 },
+ { 238, 277 }, { 239, 277 }, { 240, 277 }, { 241, 277 }, { 242, 277 },
+ { 243, 277 }, { 244, 277 }, { 245, 277 }, { 246, 277 }, { 247, 277 },
+
+ { 248, 277 }, { 249, 277 }, { 250, 277 }, { 251, 277 }, { 252, 277 },
+ { 253, 277 }, { 254, 277 }, { 255, 277 }, { 256, 277 }, {   0,   1 },
+ {   0,3646 }, {   0,   1 }, {   0,3644 }, {   0,  46 }, {   0,3642 },
+ {   0,  43 }, {   0,3640 }, {   0,  28 }, {   0,3638 }, {   0,  22 },
+ {   0,3636 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,3629 }, {   0,   8 }, {   0,3627 },
+ {   0,   1 }, {   0,3625 }, {   0,  44 }, {   0,3623 }, {   0,   0 },
+ {   0,3621 }, {   0,   0 }, {   0,3619 }, {   1,-9789 }, {   2,-9789 },
+ {   3,-9789 }, {   4,-9789 }, {   5,-9789 }, {   6,-9789 }, {   7,-9789 },
+ {   8,-9789 }, {   9,  -4 }, {  10,  -4 }, {  11,-9789 }, {  12,-9789 },
+
+ {  13,  -4 }, {  14,-9789 }, {  15,-9789 }, {  16,-9789 }, {  17,-9789 },
+ {  18,-9789 }, {  19,-9789 }, {  20,-9789 }, {  21,-9789 }, {  22,-9789 },
+ {  23,-9789 }, {  24,-9789 }, {  25,-9789 }, {  26,-9789 }, {  27,-9789 },
+ {  28,-9789 }, {  29,-9789 }, {  30,-9789 }, {  31,-9789 }, {  32,  -4 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-9789 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,  -4 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,-9789 }, {  46,-9814 }, {  47,-9814 },
+ {  48,-9789 }, {  49,-9789 }, {  50,-9789 }, {  51,-9789 }, {  52,-9789 },
+ {  53,-9789 }, {  54,-9789 }, {  55,-9789 }, {  56,-9789 }, {  57,-9789 },
+ {  58,-9789 }, {   0,   0 }, {   0,   0 }, {  61,-9814 }, {   0,   0 },
+
+ {  63,-9789 }, {   0,   0 }, {  65,-9789 }, {  66,-9789 }, {  67,-9789 },
+ {  68,-9789 }, {  69,-9789 }, {  70,-9789 }, {  71,-9789 }, {  72,-9789 },
+ {  73,-9789 }, {  74,-9789 }, {  75,-9789 }, {  76,-9789 }, {  77,-9789 },
+ {  78,-9789 }, {  79,-9789 }, {  80,-9789 }, {  81,-9789 }, {  82,-9789 },
+ {  83,-9789 }, {  84,-9789 }, {  85,-9789 }, {  86,-9789 }, {  87,-9789 },
+ {  88,-9789 }, {  89,-9789 }, {  90,-9789 }, { 101,1300 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  95,-9789 }, { 123,  21 }, {  97,-9789 },
+ {  98,-9789 }, {  99,-9789 }, { 100,-9789 }, { 101,-9789 }, { 102,-9789 },
+ { 103,-9789 }, { 104,-9789 }, { 105,-9789 }, { 106,-9789 }, { 107,-9789 },
+ { 108,-9789 }, { 109,-9789 }, { 110,-9789 }, { 111,-9789 }, { 112,-9789 },
+
+ { 113,-9789 }, { 114,-9789 }, { 115,-9789 }, { 116,-9789 }, { 117,-9789 },
+ { 118,-9789 }, { 119,-9789 }, { 120,-9789 }, { 121,-9789 }, { 122,-9789 },
+ { 125,2875 }, { 124,-9814 }, { 125,  -4 }, { 126,  -4 }, { 127,-9789 },
+ { 128,-9789 }, { 129,-9789 }, { 130,-9789 }, { 131,-9789 }, { 132,-9789 },
+ { 133,-9789 }, { 134,-9789 }, { 135,-9789 }, { 136,-9789 }, { 137,-9789 },
+ { 138,-9789 }, { 139,-9789 }, { 140,-9789 }, { 141,-9789 }, { 142,-9789 },
+ { 143,-9789 }, { 144,-9789 }, { 145,-9789 }, { 146,-9789 }, { 147,-9789 },
+ { 148,-9789 }, { 149,-9789 }, { 150,-9789 }, { 151,-9789 }, { 152,-9789 },
+ { 153,-9789 }, { 154,-9789 }, { 155,-9789 }, { 156,-9789 }, { 157,-9789 },
+ { 158,-9789 }, { 159,-9789 }, { 160,-9789 }, { 161,-9789 }, { 162,-9789 },
+
+ { 163,-9789 }, { 164,-9789 }, { 165,-9789 }, { 166,-9789 }, { 167,-9789 },
+ { 168,-9789 }, { 169,-9789 }, { 170,-9789 }, { 171,-9789 }, { 172,-9789 },
+ { 173,-9789 }, { 174,-9789 }, { 175,-9789 }, { 176,-9789 }, { 177,-9789 },
+ { 178,-9789 }, { 179,-9789 }, { 180,-9789 }, { 181,-9789 }, { 182,-9789 },
+ { 183,-9789 }, { 184,-9789 }, { 185,-9789 }, { 186,-9789 }, { 187,-9789 },
+ { 188,-9789 }, { 189,-9789 }, { 190,-9789 }, { 191,-9789 }, { 192,-9789 },
+ { 193,-9789 }, { 194,-9789 }, { 195,-9789 }, { 196,-9789 }, { 197,-9789 },
+ { 198,-9789 }, { 199,-9789 }, { 200,-9789 }, { 201,-9789 }, { 202,-9789 },
+ { 203,-9789 }, { 204,-9789 }, { 205,-9789 }, { 206,-9789 }, { 207,-9789 },
+ { 208,-9789 }, { 209,-9789 }, { 210,-9789 }, { 211,-9789 }, { 212,-9789 },
+
+ { 213,-9789 }, { 214,-9789 }, { 215,-9789 }, { 216,-9789 }, { 217,-9789 },
+ { 218,-9789 }, { 219,-9789 }, { 220,-9789 }, { 221,-9789 }, { 222,-9789 },
+ { 223,-9789 }, { 224,-9789 }, { 225,-9789 }, { 226,-9789 }, { 227,-9789 },
+ { 228,-9789 }, { 229,-9789 }, { 230,-9789 }, { 231,-9789 }, { 232,-9789 },
+ { 233,-9789 }, { 234,-9789 }, { 235,-9789 }, { 236,-9789 }, { 237,-9789 },
+ { 238,-9789 }, { 239,-9789 }, { 240,-9789 }, { 241,-9789 }, { 242,-9789 },
+ { 243,-9789 }, { 244,-9789 }, { 245,-9789 }, { 246,-9789 }, { 247,-9789 },
+ { 248,-9789 }, { 249,-9789 }, { 250,-9789 }, { 251,-9789 }, { 252,-9789 },
+ { 253,-9789 }, { 254,-9789 }, { 255,-9789 }, { 256,-9789 }, {   0,   0 },
+ {   0,3361 }, {   1,-10047 }, {   2,-10047 }, {   3,-10047 }, {   4,-10047 },
+
+ {   5,-10047 }, {   6,-10047 }, {   7,-10047 }, {   8,-10047 }, {   9,-10072 },
+ {  10,-10072 }, {  11,-10047 }, {  12,-10047 }, {  13,-10072 }, {  14,-10047 },
+ {  15,-10047 }, {  16,-10047 }, {  17,-10047 }, {  18,-10047 }, {  19,-10047 },
+ {  20,-10047 }, {  21,-10047 }, {  22,-10047 }, {  23,-10047 }, {  24,-10047 },
+ {  25,-10047 }, {  26,-10047 }, {  27,-10047 }, {  28,-10047 }, {  29,-10047 },
+ {  30,-10047 }, {  31,-10047 }, {  32,-10072 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  36,-10047 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  41,-10072 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,-10047 }, {  46,-10072 }, {  47,-10072 }, {  48,-10047 }, {  49,-10047 },
+ {  50,-10047 }, {  51,-10047 }, {  52,-10047 }, {  53,-10047 }, {  54,-10047 },
+
+ {  55,-10047 }, {  56,-10047 }, {  57,-10047 }, {  58,-10047 }, {   0,   0 },
+ {   0,   0 }, {  61,-10072 }, {   0,   0 }, {  63,-10047 }, {   0,   0 },
+ {  65,-10047 }, {  66,-10047 }, {  67,-10047 }, {  68,-10047 }, {  69,-10047 },
+ {  70,-10047 }, {  71,-10047 }, {  72,-10047 }, {  73,-10047 }, {  74,-10047 },
+ {  75,-10047 }, {  76,-10047 }, {  77,-10047 }, {  78,-10047 }, {  79,-10047 },
+ {  80,-10047 }, {  81,-10047 }, {  82,-10047 }, {  83,-10047 }, {  84,-10047 },
+ {  85,-10047 }, {  86,-10047 }, {  87,-10047 }, {  88,-10047 }, {  89,-10047 },
+ {  90,-10047 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  95,-10047 }, {   0,   0 }, {  97,-10047 }, {  98,-10047 }, {  99,-10047 },
+ { 100,-10047 }, { 101,-10047 }, { 102,-10047 }, { 103,-10047 }, { 104,-10047 },
+
+ { 105, 774 }, { 106,-10047 }, { 107,-10047 }, { 108,-10047 }, { 109,-10047 },
+ { 110,-10047 }, { 111,-10047 }, { 112,-10047 }, { 113,-10047 }, { 114,-10047 },
+ { 115,-10047 }, { 116,-10047 }, { 117,-10047 }, { 118,-10047 }, { 119,-10047 },
+ { 120,-10047 }, { 121,-10047 }, { 122,-10047 }, {   0,   0 }, { 124,-10072 },
+ { 125,-10072 }, { 126,-10072 }, { 127,-10047 }, { 128,-10047 }, { 129,-10047 },
+ { 130,-10047 }, { 131,-10047 }, { 132,-10047 }, { 133,-10047 }, { 134,-10047 },
+ { 135,-10047 }, { 136,-10047 }, { 137,-10047 }, { 138,-10047 }, { 139,-10047 },
+ { 140,-10047 }, { 141,-10047 }, { 142,-10047 }, { 143,-10047 }, { 144,-10047 },
+ { 145,-10047 }, { 146,-10047 }, { 147,-10047 }, { 148,-10047 }, { 149,-10047 },
+ { 150,-10047 }, { 151,-10047 }, { 152,-10047 }, { 153,-10047 }, { 154,-10047 },
+
+ { 155,-10047 }, { 156,-10047 }, { 157,-10047 }, { 158,-10047 }, { 159,-10047 },
+ { 160,-10047 }, { 161,-10047 }, { 162,-10047 }, { 163,-10047 }, { 164,-10047 },
+ { 165,-10047 }, { 166,-10047 }, { 167,-10047 }, { 168,-10047 }, { 169,-10047 },
+ { 170,-10047 }, { 171,-10047 }, { 172,-10047 }, { 173,-10047 }, { 174,-10047 },
+ { 175,-10047 }, { 176,-10047 }, { 177,-10047 }, { 178,-10047 }, { 179,-10047 },
+ { 180,-10047 }, { 181,-10047 }, { 182,-10047 }, { 183,-10047 }, { 184,-10047 },
+ { 185,-10047 }, { 186,-10047 }, { 187,-10047 }, { 188,-10047 }, { 189,-10047 },
+ { 190,-10047 }, { 191,-10047 }, { 192,-10047 }, { 193,-10047 }, { 194,-10047 },
+ { 195,-10047 }, { 196,-10047 }, { 197,-10047 }, { 198,-10047 }, { 199,-10047 },
+ { 200,-10047 }, { 201,-10047 }, { 202,-10047 }, { 203,-10047 }, { 204,-10047 },
+
+ { 205,-10047 }, { 206,-10047 }, { 207,-10047 }, { 208,-10047 }, { 209,-10047 },
+ { 210,-10047 }, { 211,-10047 }, { 212,-10047 }, { 213,-10047 }, { 214,-10047 },
+ { 215,-10047 }, { 216,-10047 }, { 217,-10047 }, { 218,-10047 }, { 219,-10047 },
+ { 220,-10047 }, { 221,-10047 }, { 222,-10047 }, { 223,-10047 }, { 224,-10047 },
+ { 225,-10047 }, { 226,-10047 }, { 227,-10047 }, { 228,-10047 }, { 229,-10047 },
+ { 230,-10047 }, { 231,-10047 }, { 232,-10047 }, { 233,-10047 }, { 234,-10047 },
+ { 235,-10047 }, { 236,-10047 }, { 237,-10047 }, { 238,-10047 }, { 239,-10047 },
+ { 240,-10047 }, { 241,-10047 }, { 242,-10047 }, { 243,-10047 }, { 244,-10047 },
+ { 245,-10047 }, { 246,-10047 }, { 247,-10047 }, { 248,-10047 }, { 249,-10047 },
+ { 250,-10047 }, { 251,-10047 }, { 252,-10047 }, { 253,-10047 }, { 254,-10047 },
+
+ { 255,-10047 }, { 256,-10047 }, {   0,   0 }, {   0,3103 }, {   1,-1317 },
+ {   2,-1317 }, {   3,-1317 }, {   4,-1317 }, {   5,-1317 }, {   6,-1317 },
+ {   7,-1317 }, {   8,-1317 }, {   9,-1317 }, {  10,-1317 }, {  11,-1317 },
+ {  12,-1317 }, {  13,-1317 }, {  14,-1317 }, {  15,-1317 }, {  16,-1317 },
+ {  17,-1317 }, {  18,-1317 }, {  19,-1317 }, {  20,-1317 }, {  21,-1317 },
+ {  22,-1317 }, {  23,-1317 }, {  24,-1317 }, {  25,-1317 }, {  26,-1317 },
+ {  27,-1317 }, {  28,-1317 }, {  29,-1317 }, {  30,-1317 }, {  31,-1317 },
+ {  32,-1317 }, {  33,-1317 }, {  34,-1317 }, {  35,-1317 }, {  36,-1317 },
+ {  37,-1317 }, {  38,-1317 }, {  39,-1317 }, {  40,-1317 }, {  41,-1317 },
+ {  42,-1317 }, {  43,-1317 }, {  44,-1317 }, {  45,   0 }, {  46,-1317 },
+
+ {  47,-1317 }, {  48,-1317 }, {  49,-1317 }, {  50,-1317 }, {  51,-1317 },
+ {  52,-1317 }, {  53,-1317 }, {  54,-1317 }, {  55,-1317 }, {  56,-1317 },
+ {  57,-1317 }, {  58,-1317 }, {  59,-1317 }, {  60,-1317 }, {  61,-1317 },
+ {  62,-1317 }, {  63,-1317 }, {  64,-1317 }, {  65,-1317 }, {  66,-1317 },
+ {  67,-1317 }, {  68,-1317 }, {  69,-1317 }, {  70,-1317 }, {  71,-1317 },
+ {  72,-1317 }, {  73,-1317 }, {  74,-1317 }, {  75,-1317 }, {  76,-1317 },
+ {  77,-1317 }, {  78,-1317 }, {  79,-1317 }, {  80,-1317 }, {  81,-1317 },
+ {  82,-1317 }, {  83,-1317 }, {  84,-1317 }, {  85,-1317 }, {  86,-1317 },
+ {  87,-1317 }, {  88,-1317 }, {  89,-1317 }, {  90,-1317 }, {  91,-1317 },
+ {  92,-1317 }, {  93,-1317 }, {  94,-1317 }, {  95,-1317 }, {  96,-1317 },
+
+ {  97,-1317 }, {  98,-1317 }, {  99,-1317 }, { 100,-1317 }, { 101,-1317 },
+ { 102,-1317 }, { 103,-1317 }, { 104,-1317 }, { 105,-1317 }, { 106,-1317 },
+ { 107,-1317 }, { 108,-1317 }, { 109,-1317 }, { 110,-1317 }, { 111,-1317 },
+ { 112,-1317 }, { 113,-1317 }, { 114,-1317 }, { 115,-1317 }, { 116,-1317 },
+ { 117,-1317 }, { 118,-1317 }, { 119,-1317 }, { 120,-1317 }, { 121,-1317 },
+ { 122,-1317 }, { 123,-1317 }, { 124,-1317 }, { 125, 902 }, { 126,1160 },
+ { 127,-1317 }, { 128,-1317 }, { 129,-1317 }, { 130,-1317 }, { 131,-1317 },
+ { 132,-1317 }, { 133,-1317 }, { 134,-1317 }, { 135,-1317 }, { 136,-1317 },
+ { 137,-1317 }, { 138,-1317 }, { 139,-1317 }, { 140,-1317 }, { 141,-1317 },
+ { 142,-1317 }, { 143,-1317 }, { 144,-1317 }, { 145,-1317 }, { 146,-1317 },
+
+ { 147,-1317 }, { 148,-1317 }, { 149,-1317 }, { 150,-1317 }, { 151,-1317 },
+ { 152,-1317 }, { 153,-1317 }, { 154,-1317 }, { 155,-1317 }, { 156,-1317 },
+ { 157,-1317 }, { 158,-1317 }, { 159,-1317 }, { 160,-1317 }, { 161,-1317 },
+ { 162,-1317 }, { 163,-1317 }, { 164,-1317 }, { 165,-1317 }, { 166,-1317 },
+ { 167,-1317 }, { 168,-1317 }, { 169,-1317 }, { 170,-1317 }, { 171,-1317 },
+ { 172,-1317 }, { 173,-1317 }, { 174,-1317 }, { 175,-1317 }, { 176,-1317 },
+ { 177,-1317 }, { 178,-1317 }, { 179,-1317 }, { 180,-1317 }, { 181,-1317 },
+ { 182,-1317 }, { 183,-1317 }, { 184,-1317 }, { 185,-1317 }, { 186,-1317 },
+ { 187,-1317 }, { 188,-1317 }, { 189,-1317 }, { 190,-1317 }, { 191,-1317 },
+ { 192,-1317 }, { 193,-1317 }, { 194,-1317 }, { 195,-1317 }, { 196,-1317 },
+
+ { 197,-1317 }, { 198,-1317 }, { 199,-1317 }, { 200,-1317 }, { 201,-1317 },
+ { 202,-1317 }, { 203,-1317 }, { 204,-1317 }, { 205,-1317 }, { 206,-1317 },
+ { 207,-1317 }, { 208,-1317 }, { 209,-1317 }, { 210,-1317 }, { 211,-1317 },
+ { 212,-1317 }, { 213,-1317 }, { 214,-1317 }, { 215,-1317 }, { 216,-1317 },
+ { 217,-1317 }, { 218,-1317 }, { 219,-1317 }, { 220,-1317 }, { 221,-1317 },
+ { 222,-1317 }, { 223,-1317 }, { 224,-1317 }, { 225,-1317 }, { 226,-1317 },
+ { 227,-1317 }, { 228,-1317 }, { 229,-1317 }, { 230,-1317 }, { 231,-1317 },
+ { 232,-1317 }, { 233,-1317 }, { 234,-1317 }, { 235,-1317 }, { 236,-1317 },
+ { 237,-1317 }, { 238,-1317 }, { 239,-1317 }, { 240,-1317 }, { 241,-1317 },
+ { 242,-1317 }, { 243,-1317 }, { 244,-1317 }, { 245,-1317 }, { 246,-1317 },
+
+ { 247,-1317 }, { 248,-1317 }, { 249,-1317 }, { 250,-1317 }, { 251,-1317 },
+ { 252,-1317 }, { 253,-1317 }, { 254,-1317 }, { 255,-1317 }, { 256,-1317 },
+ {   0,   0 }, {   0,2845 }, {   1,1160 }, {   2,1160 }, {   3,1160 },
+ {   4,1160 }, {   5,1160 }, {   6,1160 }, {   7,1160 }, {   8,1160 },
+ {   0,   0 }, {   0,   0 }, {  11,1160 }, {  12,1160 }, {   0,   0 },
+ {  14,1160 }, {  15,1160 }, {  16,1160 }, {  17,1160 }, {  18,1160 },
+ {  19,1160 }, {  20,1160 }, {  21,1160 }, {  22,1160 }, {  23,1160 },
+ {  24,1160 }, {  25,1160 }, {  26,1160 }, {  27,1160 }, {  28,1160 },
+ {  29,1160 }, {  30,1160 }, {  31,1160 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,1160 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,1160 }, {   0,   0 }, {   0,   0 }, {  48,1160 },
+ {  49,1160 }, {  50,1160 }, {  51,1160 }, {  52,1160 }, {  53,1160 },
+ {  54,1160 }, {  55,1160 }, {  56,1160 }, {  57,1160 }, {  58,1160 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  63,1160 },
+ {   0,   0 }, {  65,1160 }, {  66,1160 }, {  67,1160 }, {  68,1160 },
+ {  69,1160 }, {  70,1160 }, {  71,1160 }, {  72,1160 }, {  73,1160 },
+ {  74,1160 }, {  75,1160 }, {  76,1160 }, {  77,1160 }, {  78,1160 },
+ {  79,1160 }, {  80,1160 }, {  81,1160 }, {  82,1160 }, {  83,1160 },
+ {  84,1160 }, {  85,1160 }, {  86,1160 }, {  87,1160 }, {  88,1160 },
+
+ {  89,1160 }, {  90,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,1160 }, {   0,   0 }, {  97,1160 }, {  98,1160 },
+ {  99,1160 }, { 100,1160 }, { 101,1160 }, { 102,1160 }, { 103,1160 },
+ { 104,1160 }, { 105,1160 }, { 106,1160 }, { 107,1160 }, { 108,1160 },
+ { 109,1160 }, { 110,1160 }, { 111,1160 }, { 112,1160 }, { 113,1160 },
+ { 114,1160 }, { 115,1160 }, { 116,1160 }, { 117,1160 }, { 118,1160 },
+ { 119,1160 }, { 120,1160 }, { 121,1160 }, { 122,1160 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, { 127,1160 }, { 128,1160 },
+ { 129,1160 }, { 130,1160 }, { 131,1160 }, { 132,1160 }, { 133,1160 },
+ { 134,1160 }, { 135,1160 }, { 136,1160 }, { 137,1160 }, { 138,1160 },
+
+ { 139,1160 }, { 140,1160 }, { 141,1160 }, { 142,1160 }, { 143,1160 },
+ { 144,1160 }, { 145,1160 }, { 146,1160 }, { 147,1160 }, { 148,1160 },
+ { 149,1160 }, { 150,1160 }, { 151,1160 }, { 152,1160 }, { 153,1160 },
+ { 154,1160 }, { 155,1160 }, { 156,1160 }, { 157,1160 }, { 158,1160 },
+ { 159,1160 }, { 160,1160 }, { 161,1160 }, { 162,1160 }, { 163,1160 },
+ { 164,1160 }, { 165,1160 }, { 166,1160 }, { 167,1160 }, { 168,1160 },
+ { 169,1160 }, { 170,1160 }, { 171,1160 }, { 172,1160 }, { 173,1160 },
+ { 174,1160 }, { 175,1160 }, { 176,1160 }, { 177,1160 }, { 178,1160 },
+ { 179,1160 }, { 180,1160 }, { 181,1160 }, { 182,1160 }, { 183,1160 },
+ { 184,1160 }, { 185,1160 }, { 186,1160 }, { 187,1160 }, { 188,1160 },
+
+ { 189,1160 }, { 190,1160 }, { 191,1160 }, { 192,1160 }, { 193,1160 },
+ { 194,1160 }, { 195,1160 }, { 196,1160 }, { 197,1160 }, { 198,1160 },
+ { 199,1160 }, { 200,1160 }, { 201,1160 }, { 202,1160 }, { 203,1160 },
+ { 204,1160 }, { 205,1160 }, { 206,1160 }, { 207,1160 }, { 208,1160 },
+ { 209,1160 }, { 210,1160 }, { 211,1160 }, { 212,1160 }, { 213,1160 },
+ { 214,1160 }, { 215,1160 }, { 216,1160 }, { 217,1160 }, { 218,1160 },
+ { 219,1160 }, { 220,1160 }, { 221,1160 }, { 222,1160 }, { 223,1160 },
+ { 224,1160 }, { 225,1160 }, { 226,1160 }, { 227,1160 }, { 228,1160 },
+ { 229,1160 }, { 230,1160 }, { 231,1160 }, { 232,1160 }, { 233,1160 },
+ { 234,1160 }, { 235,1160 }, { 236,1160 }, { 237,1160 }, { 238,1160 },
+
+ { 239,1160 }, { 240,1160 }, { 241,1160 }, { 242,1160 }, { 243,1160 },
+ { 244,1160 }, { 245,1160 }, { 246,1160 }, { 247,1160 }, { 248,1160 },
+ { 249,1160 }, { 250,1160 }, { 251,1160 }, { 252,1160 }, { 253,1160 },
+ { 254,1160 }, { 255,1160 }, { 256,1160 }, {   0,   0 }, {   0,2587 },
+ {   1,-10821 }, {   2,-10821 }, {   3,-10821 }, {   4,-10821 }, {   5,-10821 },
+ {   6,-10821 }, {   7,-10821 }, {   8,-10821 }, {   9,-10846 }, {  10,-10846 },
+ {  11,-10821 }, {  12,-10821 }, {  13,-10846 }, {  14,-10821 }, {  15,-10821 },
+ {  16,-10821 }, {  17,-10821 }, {  18,-10821 }, {  19,-10821 }, {  20,-10821 },
+ {  21,-10821 }, {  22,-10821 }, {  23,-10821 }, {  24,-10821 }, {  25,-10821 },
+ {  26,-10821 }, {  27,-10821 }, {  28,-10821 }, {  29,-10821 }, {  30,-10821 },
+
+ {  31,-10821 }, {  32,-10846 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  36,-10821 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  41,-10846 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-10821 },
+ {  46,-10846 }, {  47,-10846 }, {  48,-10821 }, {  49,-10821 }, {  50,-10821 },
+ {  51,-10821 }, {  52,-10821 }, {  53,-10821 }, {  54,-10821 }, {  55,-10821 },
+ {  56,-10821 }, {  57,-10821 }, {  58,-10821 }, {   0,   0 }, {   0,   0 },
+ {  61,-10846 }, {   0,   0 }, {  63,-10821 }, {   0,   0 }, {  65,-10821 },
+ {  66,-10821 }, {  67,-10821 }, {  68,-10821 }, {  69,-10821 }, {  70,-10821 },
+ {  71,-10821 }, {  72,-10821 }, {  73,-10821 }, {  74,-10821 }, {  75,-10821 },
+ {  76,-10821 }, {  77,-10821 }, {  78,-10821 }, {  79,-10821 }, {  80,-10821 },
+
+ {  81,-10821 }, {  82,-10821 }, {  83,-10821 }, {  84,-10821 }, {  85,-10821 },
+ {  86,-10821 }, {  87,-10821 }, {  88,-10821 }, {  89,-10821 }, {  90,-10821 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-10821 },
+ {   0,   0 }, {  97,-10821 }, {  98,-10821 }, {  99,-10821 }, { 100,-10821 },
+ { 101,-10821 }, { 102,-10821 }, { 103,-10821 }, { 104,-10821 }, { 105,-10821 },
+ { 106,-10821 }, { 107,-10821 }, { 108,-10821 }, { 109,-10821 }, { 110,1160 },
+ { 111,-10821 }, { 112,-10821 }, { 113,-10821 }, { 114,-10821 }, { 115,-10821 },
+ { 116,-10821 }, { 117,-10821 }, { 118,-10821 }, { 119,-10821 }, { 120,-10821 },
+ { 121,-10821 }, { 122,-10821 }, {   0,   0 }, { 124,-10846 }, { 125,-10846 },
+ { 126,-10846 }, { 127,-10821 }, { 128,-10821 }, { 129,-10821 }, { 130,-10821 },
+
+ { 131,-10821 }, { 132,-10821 }, { 133,-10821 }, { 134,-10821 }, { 135,-10821 },
+ { 136,-10821 }, { 137,-10821 }, { 138,-10821 }, { 139,-10821 }, { 140,-10821 },
+ { 141,-10821 }, { 142,-10821 }, { 143,-10821 }, { 144,-10821 }, { 145,-10821 },
+ { 146,-10821 }, { 147,-10821 }, { 148,-10821 }, { 149,-10821 }, { 150,-10821 },
+ { 151,-10821 }, { 152,-10821 }, { 153,-10821 }, { 154,-10821 }, { 155,-10821 },
+ { 156,-10821 }, { 157,-10821 }, { 158,-10821 }, { 159,-10821 }, { 160,-10821 },
+ { 161,-10821 }, { 162,-10821 }, { 163,-10821 }, { 164,-10821 }, { 165,-10821 },
+ { 166,-10821 }, { 167,-10821 }, { 168,-10821 }, { 169,-10821 }, { 170,-10821 },
+ { 171,-10821 }, { 172,-10821 }, { 173,-10821 }, { 174,-10821 }, { 175,-10821 },
+ { 176,-10821 }, { 177,-10821 }, { 178,-10821 }, { 179,-10821 }, { 180,-10821 },
+
+ { 181,-10821 }, { 182,-10821 }, { 183,-10821 }, { 184,-10821 }, { 185,-10821 },
+ { 186,-10821 }, { 187,-10821 }, { 188,-10821 }, { 189,-10821 }, { 190,-10821 },
+ { 191,-10821 }, { 192,-10821 }, { 193,-10821 }, { 194,-10821 }, { 195,-10821 },
+ { 196,-10821 }, { 197,-10821 }, { 198,-10821 }, { 199,-10821 }, { 200,-10821 },
+ { 201,-10821 }, { 202,-10821 }, { 203,-10821 }, { 204,-10821 }, { 205,-10821 },
+ { 206,-10821 }, { 207,-10821 }, { 208,-10821 }, { 209,-10821 }, { 210,-10821 },
+ { 211,-10821 }, { 212,-10821 }, { 213,-10821 }, { 214,-10821 }, { 215,-10821 },
+ { 216,-10821 }, { 217,-10821 }, { 218,-10821 }, { 219,-10821 }, { 220,-10821 },
+ { 221,-10821 }, { 222,-10821 }, { 223,-10821 }, { 224,-10821 }, { 225,-10821 },
+ { 226,-10821 }, { 227,-10821 }, { 228,-10821 }, { 229,-10821 }, { 230,-10821 },
+
+ { 231,-10821 }, { 232,-10821 }, { 233,-10821 }, { 234,-10821 }, { 235,-10821 },
+ { 236,-10821 }, { 237,-10821 }, { 238,-10821 }, { 239,-10821 }, { 240,-10821 },
+ { 241,-10821 }, { 242,-10821 }, { 243,-10821 }, { 244,-10821 }, { 245,-10821 },
+ { 246,-10821 }, { 247,-10821 }, { 248,-10821 }, { 249,-10821 }, { 250,-10821 },
+ { 251,-10821 }, { 252,-10821 }, { 253,-10821 }, { 254,-10821 }, { 255,-10821 },
+ { 256,-10821 }, {   0,  25 }, {   0,2329 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   9,1160 }, {  10,1160 }, {   0,   0 }, {   0,   0 },
+ {  13,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,1160 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, { 125,-1292 }, { 126,1162 }, {   0,   0 },
+ {   0,2201 }, {   1,-2219 }, {   2,-2219 }, {   3,-2219 }, {   4,-2219 },
+ {   5,-2219 }, {   6,-2219 }, {   7,-2219 }, {   8,-2219 }, {   9,-2219 },
+ {  10,-2219 }, {  11,-2219 }, {  12,-2219 }, {  13,-2219 }, {  14,-2219 },
+ {  15,-2219 }, {  16,-2219 }, {  17,-2219 }, {  18,-2219 }, {  19,-2219 },
+ {  20,-2219 }, {  21,-2219 }, {  22,-2219 }, {  23,-2219 }, {  24,-2219 },
+ {  25,-2219 }, {  26,-2219 }, {  27,-2219 }, {  28,-2219 }, {  29,-2219 },
+ {  30,-2219 }, {  31,-2219 }, {  32,-2219 }, {  33,-2219 }, {  34,-2219 },
+ {  35,-2219 }, {  36,-2219 }, {  37,-2219 }, {  38,-2219 }, {  39,-2219 },
+ {  40,-2219 }, {  41,-2219 }, {  42,-2219 }, {  43,-2219 }, {  44,-2219 },
+
+ {  45,1161 }, {  46,-2219 }, {  47,-2219 }, {  48,-2219 }, {  49,-2219 },
+ {  50,-2219 }, {  51,-2219 }, {  52,-2219 }, {  53,-2219 }, {  54,-2219 },
+ {  55,-2219 }, {  56,-2219 }, {  57,-2219 }, {  58,-2219 }, {  59,-2219 },
+ {  60,-2219 }, {  61,-2219 }, {  62,-2219 }, {  63,-2219 }, {  64,-2219 },
+ {  65,-2219 }, {  66,-2219 }, {  67,-2219 }, {  68,-2219 }, {  69,-2219 },
+ {  70,-2219 }, {  71,-2219 }, {  72,-2219 }, {  73,-2219 }, {  74,-2219 },
+ {  75,-2219 }, {  76,-2219 }, {  77,-2219 }, {  78,-2219 }, {  79,-2219 },
+ {  80,-2219 }, {  81,-2219 }, {  82,-2219 }, {  83,-2219 }, {  84,-2219 },
+ {  85,-2219 }, {  86,-2219 }, {  87,-2219 }, {  88,-2219 }, {  89,-2219 },
+ {  90,-2219 }, {  91,-2219 }, {  92,-2219 }, {  93,-2219 }, {  94,-2219 },
+
+ {  95,-2219 }, {  96,-2219 }, {  97,-2219 }, {  98,-2219 }, {  99,-2219 },
+ { 100,-2219 }, { 101,-2219 }, { 102,-2219 }, { 103,-2219 }, { 104,-2219 },
+ { 105,-2219 }, { 106,-2219 }, { 107,-2219 }, { 108,-2219 }, { 109,-2219 },
+ { 110,-2219 }, { 111,-2219 }, { 112,-2219 }, { 113,-2219 }, { 114,-2219 },
+ { 115,-2219 }, { 116,-2219 }, { 117,-2219 }, { 118,-2219 }, { 119,-2219 },
+ { 120,-2219 }, { 121,-2219 }, { 122,-2219 }, { 123,-2219 }, { 124,-2219 },
+ { 125,1036 }, { 126,-2219 }, { 127,-2219 }, { 128,-2219 }, { 129,-2219 },
+ { 130,-2219 }, { 131,-2219 }, { 132,-2219 }, { 133,-2219 }, { 134,-2219 },
+ { 135,-2219 }, { 136,-2219 }, { 137,-2219 }, { 138,-2219 }, { 139,-2219 },
+ { 140,-2219 }, { 141,-2219 }, { 142,-2219 }, { 143,-2219 }, { 144,-2219 },
+
+ { 145,-2219 }, { 146,-2219 }, { 147,-2219 }, { 148,-2219 }, { 149,-2219 },
+ { 150,-2219 }, { 151,-2219 }, { 152,-2219 }, { 153,-2219 }, { 154,-2219 },
+ { 155,-2219 }, { 156,-2219 }, { 157,-2219 }, { 158,-2219 }, { 159,-2219 },
+ { 160,-2219 }, { 161,-2219 }, { 162,-2219 }, { 163,-2219 }, { 164,-2219 },
+ { 165,-2219 }, { 166,-2219 }, { 167,-2219 }, { 168,-2219 }, { 169,-2219 },
+ { 170,-2219 }, { 171,-2219 }, { 172,-2219 }, { 173,-2219 }, { 174,-2219 },
+ { 175,-2219 }, { 176,-2219 }, { 177,-2219 }, { 178,-2219 }, { 179,-2219 },
+ { 180,-2219 }, { 181,-2219 }, { 182,-2219 }, { 183,-2219 }, { 184,-2219 },
+ { 185,-2219 }, { 186,-2219 }, { 187,-2219 }, { 188,-2219 }, { 189,-2219 },
+ { 190,-2219 }, { 191,-2219 }, { 192,-2219 }, { 193,-2219 }, { 194,-2219 },
+
+ { 195,-2219 }, { 196,-2219 }, { 197,-2219 }, { 198,-2219 }, { 199,-2219 },
+ { 200,-2219 }, { 201,-2219 }, { 202,-2219 }, { 203,-2219 }, { 204,-2219 },
+ { 205,-2219 }, { 206,-2219 }, { 207,-2219 }, { 208,-2219 }, { 209,-2219 },
+ { 210,-2219 }, { 211,-2219 }, { 212,-2219 }, { 213,-2219 }, { 214,-2219 },
+ { 215,-2219 }, { 216,-2219 }, { 217,-2219 }, { 218,-2219 }, { 219,-2219 },
+ { 220,-2219 }, { 221,-2219 }, { 222,-2219 }, { 223,-2219 }, { 224,-2219 },
+ { 225,-2219 }, { 226,-2219 }, { 227,-2219 }, { 228,-2219 }, { 229,-2219 },
+ { 230,-2219 }, { 231,-2219 }, { 232,-2219 }, { 233,-2219 }, { 234,-2219 },
+ { 235,-2219 }, { 236,-2219 }, { 237,-2219 }, { 238,-2219 }, { 239,-2219 },
+ { 240,-2219 }, { 241,-2219 }, { 242,-2219 }, { 243,-2219 }, { 244,-2219 },
+
+ { 245,-2219 }, { 246,-2219 }, { 247,-2219 }, { 248,-2219 }, { 249,-2219 },
+ { 250,-2219 }, { 251,-2219 }, { 252,-2219 }, { 253,-2219 }, { 254,-2219 },
+ { 255,-2219 }, { 256,-2219 }, {   0,   0 }, {   0,1943 }, {   1,-2477 },
+ {   2,-2477 }, {   3,-2477 }, {   4,-2477 }, {   5,-2477 }, {   6,-2477 },
+ {   7,-2477 }, {   8,-2477 }, {   9,-2477 }, {  10,-2477 }, {  11,-2477 },
+ {  12,-2477 }, {  13,-2477 }, {  14,-2477 }, {  15,-2477 }, {  16,-2477 },
+ {  17,-2477 }, {  18,-2477 }, {  19,-2477 }, {  20,-2477 }, {  21,-2477 },
+ {  22,-2477 }, {  23,-2477 }, {  24,-2477 }, {  25,-2477 }, {  26,-2477 },
+ {  27,-2477 }, {  28,-2477 }, {  29,-2477 }, {  30,-2477 }, {  31,-2477 },
+ {  32,-2477 }, {  33,-2477 }, {  34,-2477 }, {  35,-2477 }, {  36,-2477 },
+
+ {  37,-2477 }, {  38,-2477 }, {  39,-2477 }, {  40,-2477 }, {  41,-2477 },
+ {  42,-2477 }, {  43,-2477 }, {  44,-2477 }, {  45, 903 }, {  46,-2477 },
+ {  47,-2477 }, {  48,-2477 }, {  49,-2477 }, {  50,-2477 }, {  51,-2477 },
+ {  52,-2477 }, {  53,-2477 }, {  54,-2477 }, {  55,-2477 }, {  56,-2477 },
+ {  57,-2477 }, {  58,-2477 }, {  59,-2477 }, {  60,-2477 }, {  61,-2477 },
+ {  62,-2477 }, {  63,-2477 }, {  64,-2477 }, {  65,-2477 }, {  66,-2477 },
+ {  67,-2477 }, {  68,-2477 }, {  69,-2477 }, {  70,-2477 }, {  71,-2477 },
+ {  72,-2477 }, {  73,-2477 }, {  74,-2477 }, {  75,-2477 }, {  76,-2477 },
+ {  77,-2477 }, {  78,-2477 }, {  79,-2477 }, {  80,-2477 }, {  81,-2477 },
+ {  82,-2477 }, {  83,-2477 }, {  84,-2477 }, {  85,-2477 }, {  86,-2477 },
+
+ {  87,-2477 }, {  88,-2477 }, {  89,-2477 }, {  90,-2477 }, {  91,-2477 },
+ {  92,-2477 }, {  93,-2477 }, {  94,-2477 }, {  95,-2477 }, {  96,-2477 },
+ {  97,-2477 }, {  98,-2477 }, {  99,-2477 }, { 100,-2477 }, { 101,-2477 },
+ { 102,-2477 }, { 103,-2477 }, { 104,-2477 }, { 105,-2477 }, { 106,-2477 },
+ { 107,-2477 }, { 108,-2477 }, { 109,-2477 }, { 110,-2477 }, { 111,-2477 },
+ { 112,-2477 }, { 113,-2477 }, { 114,-2477 }, { 115,-2477 }, { 116,-2477 },
+ { 117,-2477 }, { 118,-2477 }, { 119,-2477 }, { 120,-2477 }, { 121,-2477 },
+ { 122,-2477 }, { 123,-2477 }, { 124,-2477 }, { 125,-258 }, { 126,-2477 },
+ { 127,-2477 }, { 128,-2477 }, { 129,-2477 }, { 130,-2477 }, { 131,-2477 },
+ { 132,-2477 }, { 133,-2477 }, { 134,-2477 }, { 135,-2477 }, { 136,-2477 },
+
+ { 137,-2477 }, { 138,-2477 }, { 139,-2477 }, { 140,-2477 }, { 141,-2477 },
+ { 142,-2477 }, { 143,-2477 }, { 144,-2477 }, { 145,-2477 }, { 146,-2477 },
+ { 147,-2477 }, { 148,-2477 }, { 149,-2477 }, { 150,-2477 }, { 151,-2477 },
+ { 152,-2477 }, { 153,-2477 }, { 154,-2477 }, { 155,-2477 }, { 156,-2477 },
+ { 157,-2477 }, { 158,-2477 }, { 159,-2477 }, { 160,-2477 }, { 161,-2477 },
+ { 162,-2477 }, { 163,-2477 }, { 164,-2477 }, { 165,-2477 }, { 166,-2477 },
+ { 167,-2477 }, { 168,-2477 }, { 169,-2477 }, { 170,-2477 }, { 171,-2477 },
+ { 172,-2477 }, { 173,-2477 }, { 174,-2477 }, { 175,-2477 }, { 176,-2477 },
+ { 177,-2477 }, { 178,-2477 }, { 179,-2477 }, { 180,-2477 }, { 181,-2477 },
+ { 182,-2477 }, { 183,-2477 }, { 184,-2477 }, { 185,-2477 }, { 186,-2477 },
+
+ { 187,-2477 }, { 188,-2477 }, { 189,-2477 }, { 190,-2477 }, { 191,-2477 },
+ { 192,-2477 }, { 193,-2477 }, { 194,-2477 }, { 195,-2477 }, { 196,-2477 },
+ { 197,-2477 }, { 198,-2477 }, { 199,-2477 }, { 200,-2477 }, { 201,-2477 },
+ { 202,-2477 }, { 203,-2477 }, { 204,-2477 }, { 205,-2477 }, { 206,-2477 },
+ { 207,-2477 }, { 208,-2477 }, { 209,-2477 }, { 210,-2477 }, { 211,-2477 },
+ { 212,-2477 }, { 213,-2477 }, { 214,-2477 }, { 215,-2477 }, { 216,-2477 },
+ { 217,-2477 }, { 218,-2477 }, { 219,-2477 }, { 220,-2477 }, { 221,-2477 },
+ { 222,-2477 }, { 223,-2477 }, { 224,-2477 }, { 225,-2477 }, { 226,-2477 },
+ { 227,-2477 }, { 228,-2477 }, { 229,-2477 }, { 230,-2477 }, { 231,-2477 },
+ { 232,-2477 }, { 233,-2477 }, { 234,-2477 }, { 235,-2477 }, { 236,-2477 },
+
+ { 237,-2477 }, { 238,-2477 }, { 239,-2477 }, { 240,-2477 }, { 241,-2477 },
+ { 242,-2477 }, { 243,-2477 }, { 244,-2477 }, { 245,-2477 }, { 246,-2477 },
+ { 247,-2477 }, { 248,-2477 }, { 249,-2477 }, { 250,-2477 }, { 251,-2477 },
+ { 252,-2477 }, { 253,-2477 }, { 254,-2477 }, { 255,-2477 }, { 256,-2477 },
+ {   0,   0 }, {   0,1685 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
+ {   0,   0 }, {   0,   0 }, {  11,   0 }, {  12,   0 }, {   0,   0 },
+ {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
+ {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
+ {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
+
+ {  29,   0 }, {  30,   0 }, {  31,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,   0 }, {   0,   0 }, {   0,   0 },
- {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
- {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
- {  58,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,   0 }, {   0,   0 }, {   0,   0 }, {  48,   0 },
+ {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
+ {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  63,   0 },
+ {   0,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
+ {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
+ {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
 
- {  63,   0 }, {   0,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 },
- {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 },
- {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 },
- {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 },
- {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 },
- {  88,   0 }, {  89,   0 }, {  90,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,   0 }, {   0,   0 }, {  97,   0 },
- {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 },
- { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 },
- { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 },
+ {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
+ {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
+ {  89,   0 }, {  90,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,   0 }, {   0,   0 }, {  97,   0 }, {  98,   0 },
+ {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
+ { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
+ { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
+ { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
+ { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, {   0,   0 },
+ {   0,   0 }, { 125, 903 }, {   0,   0 }, { 127,   0 }, { 128,   0 },
 
- { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 },
- { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 },
- {   0,   0 }, {   0,   0 }, { 125, 522 }, {   0,   0 }, { 127,   0 },
- { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 },
- { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 },
- { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 },
- { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 },
- { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 },
- { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 },
- { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 },
+ { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
+ { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
+ { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
+ { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
+ { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
+ { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
+ { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
+ { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
+ { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
+ { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
 
- { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 },
- { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 },
- { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 },
- { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 },
- { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 },
- { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 },
- { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 },
- { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 },
- { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 },
- { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 },
+ { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
+ { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
+ { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
+ { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
+ { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
+ { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
+ { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
+ { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
+ { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
+ { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
 
- { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 },
- { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 },
- { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 },
- { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 },
- { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 },
- { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 },
- { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
- { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
- { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 },
- {   0, 861 }, {   1,-11097 }, {   2,-11097 }, {   3,-11097 }, {   4,-11097 },
-
- {   5,-11097 }, {   6,-11097 }, {   7,-11097 }, {   8,-11097 }, {   9,-11122 },
- {  10,-11122 }, {  11,-11097 }, {  12,-11097 }, {  13,-11122 }, {  14,-11097 },
- {  15,-11097 }, {  16,-11097 }, {  17,-11097 }, {  18,-11097 }, {  19,-11097 },
- {  20,-11097 }, {  21,-11097 }, {  22,-11097 }, {  23,-11097 }, {  24,-11097 },
- {  25,-11097 }, {  26,-11097 }, {  27,-11097 }, {  28,-11097 }, {  29,-11097 },
- {  30,-11097 }, {  31,-11097 }, {  32,-11122 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-11097 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,-11122 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,-11097 }, {  46,-11122 }, {  47,-11122 }, {  48,-11097 }, {  49,-11097 },
- {  50,-11097 }, {  51,-11097 }, {  52,-11097 }, {  53,-11097 }, {  54,-11097 },
-
- {  55,-11097 }, {  56,-11097 }, {  57,-11097 }, {  58,-11097 }, {   0,   0 },
- {   0,   0 }, {  61,-11122 }, {   0,   0 }, {  63,-11097 }, {   0,   0 },
- {  65,-11097 }, {  66,-11097 }, {  67,-11097 }, {  68,-11097 }, {  69,-11097 },
- {  70,-11097 }, {  71,-11097 }, {  72,-11097 }, {  73,-11097 }, {  74,-11097 },
- {  75,-11097 }, {  76,-11097 }, {  77,-11097 }, {  78,-11097 }, {  79,-11097 },
- {  80,-11097 }, {  81,-11097 }, {  82,-11097 }, {  83,-11097 }, {  84,-11097 },
- {  85,-11097 }, {  86,-11097 }, {  87,-11097 }, {  88,-11097 }, {  89,-11097 },
- {  90,-11097 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,-11097 }, {   0,   0 }, {  97,-11097 }, {  98,-11097 }, {  99,-11097 },
- { 100,-11097 }, { 101, 345 }, { 102,-11097 }, { 103,-11097 }, { 104,-11097 },
-
- { 105,-11097 }, { 106,-11097 }, { 107,-11097 }, { 108,-11097 }, { 109,-11097 },
- { 110,-11097 }, { 111,-11097 }, { 112,-11097 }, { 113,-11097 }, { 114,-11097 },
- { 115,-11097 }, { 116,-11097 }, { 117,-11097 }, { 118,-11097 }, { 119,-11097 },
- { 120,-11097 }, { 121,-11097 }, { 122,-11097 }, {   0,   0 }, { 124,-11122 },
- { 125,-11122 }, { 126,-11122 }, { 127,-11097 }, { 128,-11097 }, { 129,-11097 },
- { 130,-11097 }, { 131,-11097 }, { 132,-11097 }, { 133,-11097 }, { 134,-11097 },
- { 135,-11097 }, { 136,-11097 }, { 137,-11097 }, { 138,-11097 }, { 139,-11097 },
- { 140,-11097 }, { 141,-11097 }, { 142,-11097 }, { 143,-11097 }, { 144,-11097 },
- { 145,-11097 }, { 146,-11097 }, { 147,-11097 }, { 148,-11097 }, { 149,-11097 },
- { 150,-11097 }, { 151,-11097 }, { 152,-11097 }, { 153,-11097 }, { 154,-11097 },
-
- { 155,-11097 }, { 156,-11097 }, { 157,-11097 }, { 158,-11097 }, { 159,-11097 },
- { 160,-11097 }, { 161,-11097 }, { 162,-11097 }, { 163,-11097 }, { 164,-11097 },
- { 165,-11097 }, { 166,-11097 }, { 167,-11097 }, { 168,-11097 }, { 169,-11097 },
- { 170,-11097 }, { 171,-11097 }, { 172,-11097 }, { 173,-11097 }, { 174,-11097 },
- { 175,-11097 }, { 176,-11097 }, { 177,-11097 }, { 178,-11097 }, { 179,-11097 },
- { 180,-11097 }, { 181,-11097 }, { 182,-11097 }, { 183,-11097 }, { 184,-11097 },
- { 185,-11097 }, { 186,-11097 }, { 187,-11097 }, { 188,-11097 }, { 189,-11097 },
- { 190,-11097 }, { 191,-11097 }, { 192,-11097 }, { 193,-11097 }, { 194,-11097 },
- { 195,-11097 }, { 196,-11097 }, { 197,-11097 }, { 198,-11097 }, { 199,-11097 },
- { 200,-11097 }, { 201,-11097 }, { 202,-11097 }, { 203,-11097 }, { 204,-11097 },
-
- { 205,-11097 }, { 206,-11097 }, { 207,-11097 }, { 208,-11097 }, { 209,-11097 },
- { 210,-11097 }, { 211,-11097 }, { 212,-11097 }, { 213,-11097 }, { 214,-11097 },
- { 215,-11097 }, { 216,-11097 }, { 217,-11097 }, { 218,-11097 }, { 219,-11097 },
- { 220,-11097 }, { 221,-11097 }, { 222,-11097 }, { 223,-11097 }, { 224,-11097 },
- { 225,-11097 }, { 226,-11097 }, { 227,-11097 }, { 228,-11097 }, { 229,-11097 },
- { 230,-11097 }, { 231,-11097 }, { 232,-11097 }, { 233,-11097 }, { 234,-11097 },
- { 235,-11097 }, { 236,-11097 }, { 237,-11097 }, { 238,-11097 }, { 239,-11097 },
- { 240,-11097 }, { 241,-11097 }, { 242,-11097 }, { 243,-11097 }, { 244,-11097 },
- { 245,-11097 }, { 246,-11097 }, { 247,-11097 }, { 248,-11097 }, { 249,-11097 },
- { 250,-11097 }, { 251,-11097 }, { 252,-11097 }, { 253,-11097 }, { 254,-11097 },
-
- { 255,-11097 }, { 256,-11097 }, {   0,   0 }, {   0, 603 }, {   0,   0 },
- {   0, 601 }, {   0,   0 }, {   0, 599 }, {   0,   0 }, {   0, 597 },
- {   0,  23 }, {   0, 595 }, {   9,   0 }, {  10,   0 }, {   0,   0 },
- {   0,   0 }, {  13,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0, 582 },
- {   0,   0 }, {   0,   0 }, {   0, 579 }, {   0,   0 }, {   0, 577 },
- {   0,  12 }, {   0, 575 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  32,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
+ { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
+ { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
+ { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
+ { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,1427 },
+ {   1,-11981 }, {   2,-11981 }, {   3,-11981 }, {   4,-11981 }, {   5,-11981 },
+ {   6,-11981 }, {   7,-11981 }, {   8,-11981 }, {   9,-12006 }, {  10,-12006 },
+ {  11,-11981 }, {  12,-11981 }, {  13,-12006 }, {  14,-11981 }, {  15,-11981 },
+ {  16,-11981 }, {  17,-11981 }, {  18,-11981 }, {  19,-11981 }, {  20,-11981 },
+
+ {  21,-11981 }, {  22,-11981 }, {  23,-11981 }, {  24,-11981 }, {  25,-11981 },
+ {  26,-11981 }, {  27,-11981 }, {  28,-11981 }, {  29,-11981 }, {  30,-11981 },
+ {  31,-11981 }, {  32,-12006 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  36,-11981 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  41,-12006 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-11981 },
+ {  46,-12006 }, {  47,-12006 }, {  48,-11981 }, {  49,-11981 }, {  50,-11981 },
+ {  51,-11981 }, {  52,-11981 }, {  53,-11981 }, {  54,-11981 }, {  55,-11981 },
+ {  56,-11981 }, {  57,-11981 }, {  58,-11981 }, {   0,   0 }, {   0,   0 },
+ {  61,-12006 }, {   0,   0 }, {  63,-11981 }, {   0,   0 }, {  65,-11981 },
+ {  66,-11981 }, {  67,-11981 }, {  68,-11981 }, {  69,-11981 }, {  70,-11981 },
+
+ {  71,-11981 }, {  72,-11981 }, {  73,-11981 }, {  74,-11981 }, {  75,-11981 },
+ {  76,-11981 }, {  77,-11981 }, {  78,-11981 }, {  79,-11981 }, {  80,-11981 },
+ {  81,-11981 }, {  82,-11981 }, {  83,-11981 }, {  84,-11981 }, {  85,-11981 },
+ {  86,-11981 }, {  87,-11981 }, {  88,-11981 }, {  89,-11981 }, {  90,-11981 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-11981 },
+ {   0,   0 }, {  97,-11981 }, {  98,-11981 }, {  99,-11981 }, { 100,-11981 },
+ { 101, 647 }, { 102,-11981 }, { 103,-11981 }, { 104,-11981 }, { 105,-11981 },
+ { 106,-11981 }, { 107,-11981 }, { 108,-11981 }, { 109,-11981 }, { 110,-11981 },
+ { 111,-11981 }, { 112,-11981 }, { 113,-11981 }, { 114,-11981 }, { 115,-11981 },
+ { 116,-11981 }, { 117,-11981 }, { 118,-11981 }, { 119,-11981 }, { 120,-11981 },
+
+ { 121,-11981 }, { 122,-11981 }, {   0,   0 }, { 124,-12006 }, { 125,-12006 },
+ { 126,-12006 }, { 127,-11981 }, { 128,-11981 }, { 129,-11981 }, { 130,-11981 },
+ { 131,-11981 }, { 132,-11981 }, { 133,-11981 }, { 134,-11981 }, { 135,-11981 },
+ { 136,-11981 }, { 137,-11981 }, { 138,-11981 }, { 139,-11981 }, { 140,-11981 },
+ { 141,-11981 }, { 142,-11981 }, { 143,-11981 }, { 144,-11981 }, { 145,-11981 },
+ { 146,-11981 }, { 147,-11981 }, { 148,-11981 }, { 149,-11981 }, { 150,-11981 },
+ { 151,-11981 }, { 152,-11981 }, { 153,-11981 }, { 154,-11981 }, { 155,-11981 },
+ { 156,-11981 }, { 157,-11981 }, { 158,-11981 }, { 159,-11981 }, { 160,-11981 },
+ { 161,-11981 }, { 162,-11981 }, { 163,-11981 }, { 164,-11981 }, { 165,-11981 },
+ { 166,-11981 }, { 167,-11981 }, { 168,-11981 }, { 169,-11981 }, { 170,-11981 },
+
+ { 171,-11981 }, { 172,-11981 }, { 173,-11981 }, { 174,-11981 }, { 175,-11981 },
+ { 176,-11981 }, { 177,-11981 }, { 178,-11981 }, { 179,-11981 }, { 180,-11981 },
+ { 181,-11981 }, { 182,-11981 }, { 183,-11981 }, { 184,-11981 }, { 185,-11981 },
+ { 186,-11981 }, { 187,-11981 }, { 188,-11981 }, { 189,-11981 }, { 190,-11981 },
+ { 191,-11981 }, { 192,-11981 }, { 193,-11981 }, { 194,-11981 }, { 195,-11981 },
+ { 196,-11981 }, { 197,-11981 }, { 198,-11981 }, { 199,-11981 }, { 200,-11981 },
+ { 201,-11981 }, { 202,-11981 }, { 203,-11981 }, { 204,-11981 }, { 205,-11981 },
+ { 206,-11981 }, { 207,-11981 }, { 208,-11981 }, { 209,-11981 }, { 210,-11981 },
+ { 211,-11981 }, { 212,-11981 }, { 213,-11981 }, { 214,-11981 }, { 215,-11981 },
+ { 216,-11981 }, { 217,-11981 }, { 218,-11981 }, { 219,-11981 }, { 220,-11981 },
+
+ { 221,-11981 }, { 222,-11981 }, { 223,-11981 }, { 224,-11981 }, { 225,-11981 },
+ { 226,-11981 }, { 227,-11981 }, { 228,-11981 }, { 229,-11981 }, { 230,-11981 },
+ { 231,-11981 }, { 232,-11981 }, { 233,-11981 }, { 234,-11981 }, { 235,-11981 },
+ { 236,-11981 }, { 237,-11981 }, { 238,-11981 }, { 239,-11981 }, { 240,-11981 },
+ { 241,-11981 }, { 242,-11981 }, { 243,-11981 }, { 244,-11981 }, { 245,-11981 },
+ { 246,-11981 }, { 247,-11981 }, { 248,-11981 }, { 249,-11981 }, { 250,-11981 },
+ { 251,-11981 }, { 252,-11981 }, { 253,-11981 }, { 254,-11981 }, { 255,-11981 },
+ { 256,-11981 }, {   0,   0 }, {   0,1169 }, {   0,   0 }, {   0,1167 },
+ {   0,  12 }, {   0,1165 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   9,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 },
+
+ {  13,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, { 125,-2452 }, { 126,   2 }, { 125,-2454 },
+ {   0,   0 }, {   0,1040 }, {   1,-3380 }, {   2,-3380 }, {   3,-3380 },
+ {   4,-3380 }, {   5,-3380 }, {   6,-3380 }, {   7,-3380 }, {   8,-3380 },
+ {   9,-3380 }, {  10,-3380 }, {  11,-3380 }, {  12,-3380 }, {  13,-3380 },
+ {  14,-3380 }, {  15,-3380 }, {  16,-3380 }, {  17,-3380 }, {  18,-3380 },
+ {  19,-3380 }, {  20,-3380 }, {  21,-3380 }, {  22,-3380 }, {  23,-3380 },
+ {  24,-3380 }, {  25,-3380 }, {  26,-3380 }, {  27,-3380 }, {  28,-3380 },
+ {  29,-3380 }, {  30,-3380 }, {  31,-3380 }, {  32,-3380 }, {  33,-3380 },
+
+ {  34,-3380 }, {  35,-3380 }, {  36,-3380 }, {  37,-3380 }, {  38,-3380 },
+ {  39,-3380 }, {  40,-3380 }, {  41,-3380 }, {  42,-3380 }, {  43,-3380 },
+ {  44,-3380 }, {  45,-2063 }, {  46,-3380 }, {  47,-3380 }, {  48,-3380 },
+ {  49,-3380 }, {  50,-3380 }, {  51,-3380 }, {  52,-3380 }, {  53,-3380 },
+ {  54,-3380 }, {  55,-3380 }, {  56,-3380 }, {  57,-3380 }, {  58,-3380 },
+ {  59,-3380 }, {  60,-3380 }, {  61,-3380 }, {  62,-3380 }, {  63,-3380 },
+ {  64,-3380 }, {  65,-3380 }, {  66,-3380 }, {  67,-3380 }, {  68,-3380 },
+ {  69,-3380 }, {  70,-3380 }, {  71,-3380 }, {  72,-3380 }, {  73,-3380 },
+ {  74,-3380 }, {  75,-3380 }, {  76,-3380 }, {  77,-3380 }, {  78,-3380 },
+ {  79,-3380 }, {  80,-3380 }, {  81,-3380 }, {  82,-3380 }, {  83,-3380 },
+
+ {  84,-3380 }, {  85,-3380 }, {  86,-3380 }, {  87,-3380 }, {  88,-3380 },
+ {  89,-3380 }, {  90,-3380 }, {  91,-3380 }, {  92,-3380 }, {  93,-3380 },
+ {  94,-3380 }, {  95,-3380 }, {  96,-3380 }, {  97,-3380 }, {  98,-3380 },
+ {  99,-3380 }, { 100,-3380 }, { 101,-3380 }, { 102,-3380 }, { 103,-3380 },
+ { 104,-3380 }, { 105,-3380 }, { 106,-3380 }, { 107,-3380 }, { 108,-3380 },
+ { 109,-3380 }, { 110,-3380 }, { 111,-3380 }, { 112,-3380 }, { 113,-3380 },
+ { 114,-3380 }, { 115,-3380 }, { 116,-3380 }, { 117,-3380 }, { 118,-3380 },
+ { 119,-3380 }, { 120,-3380 }, { 121,-3380 }, { 122,-3380 }, { 123,-3380 },
+ { 124,-3380 }, { 125,-3380 }, { 126,-3380 }, { 127,-3380 }, { 128,-3380 },
+ { 129,-3380 }, { 130,-3380 }, { 131,-3380 }, { 132,-3380 }, { 133,-3380 },
+
+ { 134,-3380 }, { 135,-3380 }, { 136,-3380 }, { 137,-3380 }, { 138,-3380 },
+ { 139,-3380 }, { 140,-3380 }, { 141,-3380 }, { 142,-3380 }, { 143,-3380 },
+ { 144,-3380 }, { 145,-3380 }, { 146,-3380 }, { 147,-3380 }, { 148,-3380 },
+ { 149,-3380 }, { 150,-3380 }, { 151,-3380 }, { 152,-3380 }, { 153,-3380 },
+ { 154,-3380 }, { 155,-3380 }, { 156,-3380 }, { 157,-3380 }, { 158,-3380 },
+ { 159,-3380 }, { 160,-3380 }, { 161,-3380 }, { 162,-3380 }, { 163,-3380 },
+ { 164,-3380 }, { 165,-3380 }, { 166,-3380 }, { 167,-3380 }, { 168,-3380 },
+ { 169,-3380 }, { 170,-3380 }, { 171,-3380 }, { 172,-3380 }, { 173,-3380 },
+ { 174,-3380 }, { 175,-3380 }, { 176,-3380 }, { 177,-3380 }, { 178,-3380 },
+ { 179,-3380 }, { 180,-3380 }, { 181,-3380 }, { 182,-3380 }, { 183,-3380 },
+
+ { 184,-3380 }, { 185,-3380 }, { 186,-3380 }, { 187,-3380 }, { 188,-3380 },
+ { 189,-3380 }, { 190,-3380 }, { 191,-3380 }, { 192,-3380 }, { 193,-3380 },
+ { 194,-3380 }, { 195,-3380 }, { 196,-3380 }, { 197,-3380 }, { 198,-3380 },
+ { 199,-3380 }, { 200,-3380 }, { 201,-3380 }, { 202,-3380 }, { 203,-3380 },
+ { 204,-3380 }, { 205,-3380 }, { 206,-3380 }, { 207,-3380 }, { 208,-3380 },
+ { 209,-3380 }, { 210,-3380 }, { 211,-3380 }, { 212,-3380 }, { 213,-3380 },
+ { 214,-3380 }, { 215,-3380 }, { 216,-3380 }, { 217,-3380 }, { 218,-3380 },
+ { 219,-3380 }, { 220,-3380 }, { 221,-3380 }, { 222,-3380 }, { 223,-3380 },
+ { 224,-3380 }, { 225,-3380 }, { 226,-3380 }, { 227,-3380 }, { 228,-3380 },
+ { 229,-3380 }, { 230,-3380 }, { 231,-3380 }, { 232,-3380 }, { 233,-3380 },
+
+ { 234,-3380 }, { 235,-3380 }, { 236,-3380 }, { 237,-3380 }, { 238,-3380 },
+ { 239,-3380 }, { 240,-3380 }, { 241,-3380 }, { 242,-3380 }, { 243,-3380 },
+ { 244,-3380 }, { 245,-3380 }, { 246,-3380 }, { 247,-3380 }, { 248,-3380 },
+ { 249,-3380 }, { 250,-3380 }, { 251,-3380 }, { 252,-3380 }, { 253,-3380 },
+ { 254,-3380 }, { 255,-3380 }, { 256,-3380 }, {   0,   0 }, {   0, 782 },
+ {   0,   0 }, {   0, 780 }, {   1,-12628 }, {   2,-12628 }, {   3,-12628 },
+ {   4,-12628 }, {   5,-12628 }, {   6,-12628 }, {   7,-12628 }, {   8,-12628 },
+ {   9,-12653 }, {  10,-12653 }, {  11,-12628 }, {  12,-12628 }, {  13,-12653 },
+ {  14,-12628 }, {  15,-12628 }, {  16,-12628 }, {  17,-12628 }, {  18,-12628 },
+ {  19,-12628 }, {  20,-12628 }, {  21,-12628 }, {  22,-12628 }, {  23,-12628 },
+
+ {  24,-12628 }, {  25,-12628 }, {  26,-12628 }, {  27,-12628 }, {  28,-12628 },
+ {  29,-12628 }, {  30,-12628 }, {  31,-12628 }, {  32,-12653 }, {   0,  23 },
+ {   0, 746 }, {   0,   0 }, {  36,-12628 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,-12653 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,-12628 }, {  46,-12653 }, {  47,-12653 }, {  48,-12628 },
+ {  49,-12628 }, {  50,-12628 }, {  51,-12628 }, {  52,-12628 }, {  53,-12628 },
+ {  54,-12628 }, {  55,-12628 }, {  56,-12628 }, {  57,-12628 }, {  58,-12628 },
+ {   0,   0 }, {   0,   0 }, {  61,-12653 }, {   0,   0 }, {  63,-12628 },
+ {   0,   0 }, {  65,-12628 }, {  66,-12628 }, {  67,-12628 }, {  68,-12628 },
+ {  69,-12628 }, {  70,-12628 }, {  71,-12628 }, {  72,-12628 }, {  73,-12628 },
+
+ {  74,-12628 }, {  75,-12628 }, {  76,-12628 }, {  77,-12628 }, {  78,-12628 },
+ {  79,-12628 }, {  80,-12628 }, {  81,-12628 }, {  82,-12628 }, {  83,-12628 },
+ {  84,-12628 }, {  85,-12628 }, {  86,-12628 }, {  87,-12628 }, {  88,-12628 },
+ {  89,-12628 }, {  90,-12628 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,-12628 }, {   0,   0 }, {  97,-12628 }, {  98,-12628 },
+ {  99,-12628 }, { 100, 260 }, { 101,-12628 }, { 102,-12628 }, { 103,-12628 },
+ { 104,-12628 }, { 105,-12628 }, { 106,-12628 }, { 107,-12628 }, { 108,-12628 },
+ { 109,-12628 }, { 110,-12628 }, { 111,-12628 }, { 112,-12628 }, { 113,-12628 },
+ { 114,-12628 }, { 115,-12628 }, { 116,-12628 }, { 117,-12628 }, { 118,-12628 },
+ { 119,-12628 }, { 120,-12628 }, { 121,-12628 }, { 122,-12628 }, { 125, 260 },
+
+ { 124,-12653 }, { 125,-12653 }, { 126,-12653 }, { 127,-12628 }, { 128,-12628 },
+ { 129,-12628 }, { 130,-12628 }, { 131,-12628 }, { 132,-12628 }, { 133,-12628 },
+ { 134,-12628 }, { 135,-12628 }, { 136,-12628 }, { 137,-12628 }, { 138,-12628 },
+ { 139,-12628 }, { 140,-12628 }, { 141,-12628 }, { 142,-12628 }, { 143,-12628 },
+ { 144,-12628 }, { 145,-12628 }, { 146,-12628 }, { 147,-12628 }, { 148,-12628 },
+ { 149,-12628 }, { 150,-12628 }, { 151,-12628 }, { 152,-12628 }, { 153,-12628 },
+ { 154,-12628 }, { 155,-12628 }, { 156,-12628 }, { 157,-12628 }, { 158,-12628 },
+ { 159,-12628 }, { 160,-12628 }, { 161,-12628 }, { 162,-12628 }, { 163,-12628 },
+ { 164,-12628 }, { 165,-12628 }, { 166,-12628 }, { 167,-12628 }, { 168,-12628 },
+ { 169,-12628 }, { 170,-12628 }, { 171,-12628 }, { 172,-12628 }, { 173,-12628 },
+
+ { 174,-12628 }, { 175,-12628 }, { 176,-12628 }, { 177,-12628 }, { 178,-12628 },
+ { 179,-12628 }, { 180,-12628 }, { 181,-12628 }, { 182,-12628 }, { 183,-12628 },
+ { 184,-12628 }, { 185,-12628 }, { 186,-12628 }, { 187,-12628 }, { 188,-12628 },
+ { 189,-12628 }, { 190,-12628 }, { 191,-12628 }, { 192,-12628 }, { 193,-12628 },
+ { 194,-12628 }, { 195,-12628 }, { 196,-12628 }, { 197,-12628 }, { 198,-12628 },
+ { 199,-12628 }, { 200,-12628 }, { 201,-12628 }, { 202,-12628 }, { 203,-12628 },
+ { 204,-12628 }, { 205,-12628 }, { 206,-12628 }, { 207,-12628 }, { 208,-12628 },
+ { 209,-12628 }, { 210,-12628 }, { 211,-12628 }, { 212,-12628 }, { 213,-12628 },
+ { 214,-12628 }, { 215,-12628 }, { 216,-12628 }, { 217,-12628 }, { 218,-12628 },
+ { 219,-12628 }, { 220,-12628 }, { 221,-12628 }, { 222,-12628 }, { 223,-12628 },
+
+ { 224,-12628 }, { 225,-12628 }, { 226,-12628 }, { 227,-12628 }, { 228,-12628 },
+ { 229,-12628 }, { 230,-12628 }, { 231,-12628 }, { 232,-12628 }, { 233,-12628 },
+ { 234,-12628 }, { 235,-12628 }, { 236,-12628 }, { 237,-12628 }, { 238,-12628 },
+ { 239,-12628 }, { 240,-12628 }, { 241,-12628 }, { 242,-12628 }, { 243,-12628 },
+ { 244,-12628 }, { 245,-12628 }, { 246,-12628 }, { 247,-12628 }, { 248,-12628 },
+ { 249,-12628 }, { 250,-12628 }, { 251,-12628 }, { 252,-12628 }, { 253,-12628 },
+ { 254,-12628 }, { 255,-12628 }, { 256,-12628 }, {   0,   0 }, {   0, 522 },
+ {   0,   0 }, {   0, 520 }, {   1,-12888 }, {   2,-12888 }, {   3,-12888 },
+ {   4,-12888 }, {   5,-12888 }, {   6,-12888 }, {   7,-12888 }, {   8,-12888 },
+ {   9, 260 }, {  10, 260 }, {  11,-12888 }, {  12,-12888 }, {  13, 260 },
+
+ {  14,-12888 }, {  15,-12888 }, {  16,-12888 }, {  17,-12888 }, {  18,-12888 },
+ {  19,-12888 }, {  20,-12888 }, {  21,-12888 }, {  22,-12888 }, {  23,-12888 },
+ {  24,-12888 }, {  25,-12888 }, {  26,-12888 }, {  27,-12888 }, {  28,-12888 },
+ {  29,-12888 }, {  30,-12888 }, {  31,-12888 }, {  32, 260 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,-12888 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41, 260 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,-12888 }, {  46,-12913 }, {  47,-12913 }, {  48,-12888 },
+ {  49,-12888 }, {  50,-12888 }, {  51,-12888 }, {  52,-12888 }, {  53,-12888 },
+ {  54,-12888 }, {  55,-12888 }, {  56,-12888 }, {  57,-12888 }, {  58,-12888 },
+ {   0,   0 }, {   0,   0 }, {  61,-12913 }, {   0,   0 }, {  63,-12888 },
+
+ {   0,   0 }, {  65,-12888 }, {  66,-12888 }, {  67,-12888 }, {  68,-12888 },
+ {  69,-12888 }, {  70,-12888 }, {  71,-12888 }, {  72,-12888 }, {  73,-12888 },
+ {  74,-12888 }, {  75,-12888 }, {  76,-12888 }, {  77,-12888 }, {  78,-12888 },
+ {  79,-12888 }, {  80,-12888 }, {  81,-12888 }, {  82,-12888 }, {  83,-12888 },
+ {  84,-12888 }, {  85,-12888 }, {  86,-12888 }, {  87,-12888 }, {  88,-12888 },
+ {  89,-12888 }, {  90,-12888 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,-12888 }, {   0,   0 }, {  97,-12888 }, {  98,-12888 },
+ {  99,-12888 }, { 100,-12888 }, { 101,-12888 }, { 102,-12888 }, { 103,-12888 },
+ { 104,-12888 }, { 105,-12888 }, { 106,-12888 }, { 107,-12888 }, { 108,-12888 },
+ { 109,-12888 }, { 110,-12888 }, { 111,-12888 }, { 112,-12888 }, { 113,-12888 },
+
+ { 114,-12888 }, { 115,-12888 }, { 116,-12888 }, { 117,-12888 }, { 118,-12888 },
+ { 119,-12888 }, { 120,-12888 }, { 121,-12888 }, { 122,-12888 }, { 125, 260 },
+ { 124,-12913 }, { 125, 260 }, { 126, 260 }, { 127,-12888 }, { 128,-12888 },
+ { 129,-12888 }, { 130,-12888 }, { 131,-12888 }, { 132,-12888 }, { 133,-12888 },
+ { 134,-12888 }, { 135,-12888 }, { 136,-12888 }, { 137,-12888 }, { 138,-12888 },
+ { 139,-12888 }, { 140,-12888 }, { 141,-12888 }, { 142,-12888 }, { 143,-12888 },
+ { 144,-12888 }, { 145,-12888 }, { 146,-12888 }, { 147,-12888 }, { 148,-12888 },
+ { 149,-12888 }, { 150,-12888 }, { 151,-12888 }, { 152,-12888 }, { 153,-12888 },
+ { 154,-12888 }, { 155,-12888 }, { 156,-12888 }, { 157,-12888 }, { 158,-12888 },
+ { 159,-12888 }, { 160,-12888 }, { 161,-12888 }, { 162,-12888 }, { 163,-12888 },
+
+ { 164,-12888 }, { 165,-12888 }, { 166,-12888 }, { 167,-12888 }, { 168,-12888 },
+ { 169,-12888 }, { 170,-12888 }, { 171,-12888 }, { 172,-12888 }, { 173,-12888 },
+ { 174,-12888 }, { 175,-12888 }, { 176,-12888 }, { 177,-12888 }, { 178,-12888 },
+ { 179,-12888 }, { 180,-12888 }, { 181,-12888 }, { 182,-12888 }, { 183,-12888 },
+ { 184,-12888 }, { 185,-12888 }, { 186,-12888 }, { 187,-12888 }, { 188,-12888 },
+ { 189,-12888 }, { 190,-12888 }, { 191,-12888 }, { 192,-12888 }, { 193,-12888 },
+ { 194,-12888 }, { 195,-12888 }, { 196,-12888 }, { 197,-12888 }, { 198,-12888 },
+ { 199,-12888 }, { 200,-12888 }, { 201,-12888 }, { 202,-12888 }, { 203,-12888 },
+ { 204,-12888 }, { 205,-12888 }, { 206,-12888 }, { 207,-12888 }, { 208,-12888 },
+ { 209,-12888 }, { 210,-12888 }, { 211,-12888 }, { 212,-12888 }, { 213,-12888 },
+
+ { 214,-12888 }, { 215,-12888 }, { 216,-12888 }, { 217,-12888 }, { 218,-12888 },
+ { 219,-12888 }, { 220,-12888 }, { 221,-12888 }, { 222,-12888 }, { 223,-12888 },
+ { 224,-12888 }, { 225,-12888 }, { 226,-12888 }, { 227,-12888 }, { 228,-12888 },
+ { 229,-12888 }, { 230,-12888 }, { 231,-12888 }, { 232,-12888 }, { 233,-12888 },
+ { 234,-12888 }, { 235,-12888 }, { 236,-12888 }, { 237,-12888 }, { 238,-12888 },
+ { 239,-12888 }, { 240,-12888 }, { 241,-12888 }, { 242,-12888 }, { 243,-12888 },
+ { 244,-12888 }, { 245,-12888 }, { 246,-12888 }, { 247,-12888 }, { 248,-12888 },
+ { 249,-12888 }, { 250,-12888 }, { 251,-12888 }, { 252,-12888 }, { 253,-12888 },
+ { 254,-12888 }, { 255,-12888 }, { 256,-12888 }, {   0,   0 }, {   0, 262 },
+ {   0,  45 }, {   0, 260 }, {   0,   9 }, {   0, 258 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,   4 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0, 550 }, {   0,  45 }, {   0, 548 }, {   0,   9 },
- {   0, 546 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0, 516 }, {   1,-11442 }, {   2,-11442 }, {   3,-11442 }, {   4,-11442 },
- {   5,-11442 }, {   6,-11442 }, {   7,-11442 }, {   8,-11442 }, {   9,-11467 },
-
- {  10,-11467 }, {  11,-11442 }, {  12,-11442 }, {  13,-11467 }, {  14,-11442 },
- {  15,-11442 }, {  16,-11442 }, {  17,-11442 }, {  18,-11442 }, {  19,-11442 },
- {  20,-11442 }, {  21,-11442 }, {  22,-11442 }, {  23,-11442 }, {  24,-11442 },
- {  25,-11442 }, {  26,-11442 }, {  27,-11442 }, {  28,-11442 }, {  29,-11442 },
- {  30,-11442 }, {  31,-11442 }, {  32,-11467 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-11442 }, {   0,   0 }, { 125,-2452 }, { 126,   2 },
- { 125,-2454 }, {  41,-11467 }, { 125,  17 }, { 126,  20 }, { 125,  20 },
- {  45,-11442 }, {  46,-11467 }, {  47,-11467 }, {  48,-11442 }, {  49,-11442 },
- {  50,-11442 }, {  51,-11442 }, {  52,-11442 }, {  53,-11442 }, {  54,-11442 },
- {  55,-11442 }, {  56,-11442 }, {  57,-11442 }, {  58,-11442 }, { 125,   7 },
-
- {   0,   0 }, {  61,-11467 }, { 125,  -3 }, {  63,-11442 }, { 125,  27 },
- {  65,-11442 }, {  66,-11442 }, {  67,-11442 }, {  68,-11442 }, {  69,-11442 },
- {  70,-11442 }, {  71,-11442 }, {  72,-11442 }, {  73,-11442 }, {  74,-11442 },
- {  75,-11442 }, {  76,-11442 }, {  77,-11442 }, {  78,-11442 }, {  79,-11442 },
- {  80,-11442 }, {  81,-11442 }, {  82,-11442 }, {  83,-11442 }, {  84,-11442 },
- {  85,-11442 }, {  86,-11442 }, {  87,-11442 }, {  88,-11442 }, {  89,-11442 },
- {  90,-11442 }, { 125,   4 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,-11442 }, {   0,   0 }, {  97,-11442 }, {  98,-11442 }, {  99,-11442 },
- { 100, 258 }, { 101,-11442 }, { 102,-11442 }, { 103,-11442 }, { 104,-11442 },
- { 105,-11442 }, { 106,-11442 }, { 107,-11442 }, { 108,-11442 }, { 109,-11442 },
-
- { 110,-11442 }, { 111,-11442 }, { 112,-11442 }, { 113,-11442 }, { 114,-11442 },
- { 115,-11442 }, { 116,-11442 }, { 117,-11442 }, { 118,-11442 }, { 119,-11442 },
- { 120,-11442 }, { 121,-11442 }, { 122,-11442 }, {   0,   0 }, { 124,-11467 },
- { 125,-11467 }, { 126,-11467 }, { 127,-11442 }, { 128,-11442 }, { 129,-11442 },
- { 130,-11442 }, { 131,-11442 }, { 132,-11442 }, { 133,-11442 }, { 134,-11442 },
- { 135,-11442 }, { 136,-11442 }, { 137,-11442 }, { 138,-11442 }, { 139,-11442 },
- { 140,-11442 }, { 141,-11442 }, { 142,-11442 }, { 143,-11442 }, { 144,-11442 },
- { 145,-11442 }, { 146,-11442 }, { 147,-11442 }, { 148,-11442 }, { 149,-11442 },
- { 150,-11442 }, { 151,-11442 }, { 152,-11442 }, { 153,-11442 }, { 154,-11442 },
- { 155,-11442 }, { 156,-11442 }, { 157,-11442 }, { 158,-11442 }, { 159,-11442 },
-
- { 160,-11442 }, { 161,-11442 }, { 162,-11442 }, { 163,-11442 }, { 164,-11442 },
- { 165,-11442 }, { 166,-11442 }, { 167,-11442 }, { 168,-11442 }, { 169,-11442 },
- { 170,-11442 }, { 171,-11442 }, { 172,-11442 }, { 173,-11442 }, { 174,-11442 },
- { 175,-11442 }, { 176,-11442 }, { 177,-11442 }, { 178,-11442 }, { 179,-11442 },
- { 180,-11442 }, { 181,-11442 }, { 182,-11442 }, { 183,-11442 }, { 184,-11442 },
- { 185,-11442 }, { 186,-11442 }, { 187,-11442 }, { 188,-11442 }, { 189,-11442 },
- { 190,-11442 }, { 191,-11442 }, { 192,-11442 }, { 193,-11442 }, { 194,-11442 },
- { 195,-11442 }, { 196,-11442 }, { 197,-11442 }, { 198,-11442 }, { 199,-11442 },
- { 200,-11442 }, { 201,-11442 }, { 202,-11442 }, { 203,-11442 }, { 204,-11442 },
- { 205,-11442 }, { 206,-11442 }, { 207,-11442 }, { 208,-11442 }, { 209,-11442 },
-
- { 210,-11442 }, { 211,-11442 }, { 212,-11442 }, { 213,-11442 }, { 214,-11442 },
- { 215,-11442 }, { 216,-11442 }, { 217,-11442 }, { 218,-11442 }, { 219,-11442 },
- { 220,-11442 }, { 221,-11442 }, { 222,-11442 }, { 223,-11442 }, { 224,-11442 },
- { 225,-11442 }, { 226,-11442 }, { 227,-11442 }, { 228,-11442 }, { 229,-11442 },
- { 230,-11442 }, { 231,-11442 }, { 232,-11442 }, { 233,-11442 }, { 234,-11442 },
- { 235,-11442 }, { 236,-11442 }, { 237,-11442 }, { 238,-11442 }, { 239,-11442 },
- { 240,-11442 }, { 241,-11442 }, { 242,-11442 }, { 243,-11442 }, { 244,-11442 },
- { 245,-11442 }, { 246,-11442 }, { 247,-11442 }, { 248,-11442 }, { 249,-11442 },
- { 250,-11442 }, { 251,-11442 }, { 252,-11442 }, { 253,-11442 }, { 254,-11442 },
- { 255,-11442 }, { 256,-11442 }, {   0,   0 }, {   0, 258 }, {   1,-11700 },
-
- {   2,-11700 }, {   3,-11700 }, {   4,-11700 }, {   5,-11700 }, {   6,-11700 },
- {   7,-11700 }, {   8,-11700 }, {   9,-290 }, {  10,-290 }, {  11,-11700 },
- {  12,-11700 }, {  13,-290 }, {  14,-11700 }, {  15,-11700 }, {  16,-11700 },
- {  17,-11700 }, {  18,-11700 }, {  19,-11700 }, {  20,-11700 }, {  21,-11700 },
- {  22,-11700 }, {  23,-11700 }, {  24,-11700 }, {  25,-11700 }, {  26,-11700 },
- {  27,-11700 }, {  28,-11700 }, {  29,-11700 }, {  30,-11700 }, {  31,-11700 },
- {  32,-290 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-11700 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-290 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-11700 }, {  46,-11725 },
- {  47,-11725 }, {  48,-11700 }, {  49,-11700 }, {  50,-11700 }, {  51,-11700 },
-
- {  52,-11700 }, {  53,-11700 }, {  54,-11700 }, {  55,-11700 }, {  56,-11700 },
- {  57,-11700 }, {  58,-11700 }, {   0,   0 }, {   0,   0 }, {  61,-11725 },
- {   0,   0 }, {  63,-11700 }, {   0,   0 }, {  65,-11700 }, {  66,-11700 },
- {  67,-11700 }, {  68,-11700 }, {  69,-11700 }, {  70,-11700 }, {  71,-11700 },
- {  72,-11700 }, {  73,-11700 }, {  74,-11700 }, {  75,-11700 }, {  76,-11700 },
- {  77,-11700 }, {  78,-11700 }, {  79,-11700 }, {  80,-11700 }, {  81,-11700 },
- {  82,-11700 }, {  83,-11700 }, {  84,-11700 }, {  85,-11700 }, {  86,-11700 },
- {  87,-11700 }, {  88,-11700 }, {  89,-11700 }, {  90,-11700 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-11700 }, {   0,   0 },
- {  97,-11700 }, {  98,-11700 }, {  99,-11700 }, { 100,-11700 }, { 101,-11700 },
-
- { 102,-11700 }, { 103,-11700 }, { 104,-11700 }, { 105,-11700 }, { 106,-11700 },
- { 107,-11700 }, { 108,-11700 }, { 109,-11700 }, { 110,-11700 }, { 111,-11700 },
- { 112,-11700 }, { 113,-11700 }, { 114,-11700 }, { 115,-11700 }, { 116,-11700 },
- { 117,-11700 }, { 118,-11700 }, { 119,-11700 }, { 120,-11700 }, { 121,-11700 },
- { 122,-11700 }, {   0,   0 }, { 124,-11725 }, { 125,-290 }, { 126,-290 },
- { 127,-11700 }, { 128,-11700 }, { 129,-11700 }, { 130,-11700 }, { 131,-11700 },
- { 132,-11700 }, { 133,-11700 }, { 134,-11700 }, { 135,-11700 }, { 136,-11700 },
- { 137,-11700 }, { 138,-11700 }, { 139,-11700 }, { 140,-11700 }, { 141,-11700 },
- { 142,-11700 }, { 143,-11700 }, { 144,-11700 }, { 145,-11700 }, { 146,-11700 },
- { 147,-11700 }, { 148,-11700 }, { 149,-11700 }, { 150,-11700 }, { 151,-11700 },
-
- { 152,-11700 }, { 153,-11700 }, { 154,-11700 }, { 155,-11700 }, { 156,-11700 },
- { 157,-11700 }, { 158,-11700 }, { 159,-11700 }, { 160,-11700 }, { 161,-11700 },
- { 162,-11700 }, { 163,-11700 }, { 164,-11700 }, { 165,-11700 }, { 166,-11700 },
- { 167,-11700 }, { 168,-11700 }, { 169,-11700 }, { 170,-11700 }, { 171,-11700 },
- { 172,-11700 }, { 173,-11700 }, { 174,-11700 }, { 175,-11700 }, { 176,-11700 },
- { 177,-11700 }, { 178,-11700 }, { 179,-11700 }, { 180,-11700 }, { 181,-11700 },
- { 182,-11700 }, { 183,-11700 }, { 184,-11700 }, { 185,-11700 }, { 186,-11700 },
- { 187,-11700 }, { 188,-11700 }, { 189,-11700 }, { 190,-11700 }, { 191,-11700 },
- { 192,-11700 }, { 193,-11700 }, { 194,-11700 }, { 195,-11700 }, { 196,-11700 },
- { 197,-11700 }, { 198,-11700 }, { 199,-11700 }, { 200,-11700 }, { 201,-11700 },
-
- { 202,-11700 }, { 203,-11700 }, { 204,-11700 }, { 205,-11700 }, { 206,-11700 },
- { 207,-11700 }, { 208,-11700 }, { 209,-11700 }, { 210,-11700 }, { 211,-11700 },
- { 212,-11700 }, { 213,-11700 }, { 214,-11700 }, { 215,-11700 }, { 216,-11700 },
- { 217,-11700 }, { 218,-11700 }, { 219,-11700 }, { 220,-11700 }, { 221,-11700 },
- { 222,-11700 }, { 223,-11700 }, { 224,-11700 }, { 225,-11700 }, { 226,-11700 },
- { 227,-11700 }, { 228,-11700 }, { 229,-11700 }, { 230,-11700 }, { 231,-11700 },
- { 232,-11700 }, { 233,-11700 }, { 234,-11700 }, { 235,-11700 }, { 236,-11700 },
- { 237,-11700 }, { 238,-11700 }, { 239,-11700 }, { 240,-11700 }, { 241,-11700 },
- { 242,-11700 }, { 243,-11700 }, { 244,-11700 }, { 245,-11700 }, { 246,-11700 },
- { 247,-11700 }, { 248,-11700 }, { 249,-11700 }, { 250,-11700 }, { 251,-11700 },
-
- { 252,-11700 }, { 253,-11700 }, { 254,-11700 }, { 255,-11700 }, { 256,-11700 },
  { 257,  52 }, {   1,   0 },    };
 
 static const struct yy_trans_info *yy_start_state_list[13] =
@@ -5085,9 +5404,10 @@ static const flex_int32_t yy_rule_can_match_eol[52] =
     yylloc->last_column = yycolumn + yyleng - 1; \
     yycolumn += yyleng; \
    	YY_USER_DEBUG_ACTION;
-#line 5089 "handlebars.lex.c"
+#line 5408 "handlebars.lex.c"
 
-#line 5091 "handlebars.lex.c"
+/* inside of a long comment, after a dash: anything but the first --}} or --~}} */
+#line 5411 "handlebars.lex.c"
 
 #define INITIAL 0
 #define mu 1
@@ -5366,11 +5686,11 @@ YY_DECL
 		}
 
 	{
-#line 137 "handlebars.l"
+#line 141 "handlebars.l"
 
 
 
-#line 5374 "handlebars.lex.c"
+#line 5694 "handlebars.lex.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -5437,7 +5757,7 @@ do_action:	/* This label is used only to access EOF actions. */
 case 1:
 /* rule 1 can match eol */
 YY_RULE_SETUP
-#line 140 "handlebars.l"
+#line 144 "handlebars.l"
 {
 										int n = yytext[yyleng - 3] == '{' ? 3 : 2;
 										handlebars_yy_unput_n(n);
@@ -5450,7 +5770,7 @@ YY_RULE_SETUP
 case 2:
 /* rule 2 can match eol */
 YY_RULE_SETUP
-#line 149 "handlebars.l"
+#line 153 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 31
 										handlebars_yy_copy_lval();
@@ -5459,7 +5779,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 3:
 YY_RULE_SETUP
-#line 155 "handlebars.l"
+#line 159 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 32
 										handlebars_yy_unput_n(2);
@@ -5474,7 +5794,7 @@ YY_RULE_SETUP
 case 4:
 /* rule 4 can match eol */
 YY_RULE_SETUP
-#line 166 "handlebars.l"
+#line 170 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 35
 										yy_push_state(emu, yyscanner);
@@ -5485,7 +5805,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 174 "handlebars.l"
+#line 178 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 38
 										handlebars_yy_unput_all;
@@ -5494,7 +5814,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 180 "handlebars.l"
+#line 184 "handlebars.l"
 {
 										handlebars_yy_copy_lval();
 										return CONTENT;
@@ -5502,7 +5822,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 185 "handlebars.l"
+#line 189 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 47
 										handlebars_yy_unput_all;
@@ -5516,7 +5836,7 @@ YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 191 "handlebars.l"
+#line 195 "handlebars.l"
 {
                                   		yy_push_state(raw, yyscanner);
 										handlebars_yy_copy_lval();
@@ -5525,7 +5845,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 197 "handlebars.l"
+#line 201 "handlebars.l"
 {
 										// v4.0.2 handlebars.l line 54
 
@@ -5543,7 +5863,7 @@ YY_RULE_SETUP
 case 10:
 /* rule 10 can match eol */
 YY_RULE_SETUP
-#line 211 "handlebars.l"
+#line 215 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 57
 										handlebars_yy_copy_lval();
@@ -5552,7 +5872,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 217 "handlebars.l"
+#line 221 "handlebars.l"
 {
 										handlebars_yy_copy_lval();
 										return CONTENT;
@@ -5561,7 +5881,7 @@ YY_RULE_SETUP
 case 12:
 /* rule 12 can match eol */
 YY_RULE_SETUP
-#line 222 "handlebars.l"
+#line 226 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 59
   										yy_pop_state(yyg);
@@ -5574,7 +5894,7 @@ YY_RULE_SETUP
 case 13:
 /* rule 13 can match eol */
 YY_RULE_SETUP
-#line 231 "handlebars.l"
+#line 235 "handlebars.l"
 {
   										//yytext[yyleng -= 2] = 0;
   										yy_pop_state(yyg);
@@ -5584,7 +5904,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 14:
 YY_RULE_SETUP
-#line 238 "handlebars.l"
+#line 242 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 61
 										handlebars_yy_copy_lval();
@@ -5593,7 +5913,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 15:
 YY_RULE_SETUP
-#line 244 "handlebars.l"
+#line 248 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 62
 										handlebars_yy_copy_lval();
@@ -5602,7 +5922,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 16:
 YY_RULE_SETUP
-#line 250 "handlebars.l"
+#line 254 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 64
 										handlebars_yy_copy_lval();
@@ -5611,7 +5931,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
-#line 256 "handlebars.l"
+#line 260 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 65
 										yy_pop_state(yyg);
@@ -5622,7 +5942,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
-#line 264 "handlebars.l"
+#line 268 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 70
 										handlebars_yy_copy_lval();
@@ -5631,7 +5951,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 19:
 YY_RULE_SETUP
-#line 270 "handlebars.l"
+#line 274 "handlebars.l"
 {
 										// v4.0.2 handlebars.l line 83
 										handlebars_yy_copy_lval();
@@ -5640,7 +5960,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
-#line 276 "handlebars.l"
+#line 280 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 71
 										handlebars_yy_copy_lval();
@@ -5649,7 +5969,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 21:
 YY_RULE_SETUP
-#line 282 "handlebars.l"
+#line 286 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 72
 										handlebars_yy_copy_lval();
@@ -5659,7 +5979,7 @@ YY_RULE_SETUP
 case 22:
 /* rule 22 can match eol */
 YY_RULE_SETUP
-#line 288 "handlebars.l"
+#line 292 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 73
 										yy_pop_state(yyg);
@@ -5670,7 +5990,7 @@ YY_RULE_SETUP
 case 23:
 /* rule 23 can match eol */
 YY_RULE_SETUP
-#line 295 "handlebars.l"
+#line 299 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 74
 										yy_pop_state(yyg);
@@ -5680,7 +6000,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 24:
 YY_RULE_SETUP
-#line 302 "handlebars.l"
+#line 306 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 75
 										handlebars_yy_copy_lval();
@@ -5690,7 +6010,7 @@ YY_RULE_SETUP
 case 25:
 /* rule 25 can match eol */
 YY_RULE_SETUP
-#line 308 "handlebars.l"
+#line 312 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 76
 										handlebars_yy_copy_lval();
@@ -5699,7 +6019,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 26:
 YY_RULE_SETUP
-#line 314 "handlebars.l"
+#line 318 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 77
 										handlebars_yy_copy_lval();
@@ -5708,7 +6028,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 27:
 YY_RULE_SETUP
-#line 320 "handlebars.l"
+#line 324 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 78
 										handlebars_yy_copy_lval();
@@ -5717,7 +6037,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 28:
 YY_RULE_SETUP
-#line 326 "handlebars.l"
+#line 330 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 79
 										handlebars_yy_unput_all;
@@ -5727,7 +6047,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 29:
 YY_RULE_SETUP
-#line 333 "handlebars.l"
+#line 337 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 80
 										handlebars_yy_unput_all;
@@ -5737,7 +6057,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 30:
 YY_RULE_SETUP
-#line 340 "handlebars.l"
+#line 344 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 81
 										handlebars_yy_copy_lval();
@@ -5746,7 +6066,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 31:
 YY_RULE_SETUP
-#line 346 "handlebars.l"
+#line 350 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 83
 										handlebars_yy_copy_lval();
@@ -5755,7 +6075,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 32:
 YY_RULE_SETUP
-#line 352 "handlebars.l"
+#line 356 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 84
 										handlebars_yy_copy_lval();
@@ -5769,7 +6089,7 @@ YY_LINENO_REWIND_TO(yy_bp + 1);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 358 "handlebars.l"
+#line 362 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 85
 										handlebars_yy_copy_lval();
@@ -5778,7 +6098,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 34:
 YY_RULE_SETUP
-#line 364 "handlebars.l"
+#line 368 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 86
 										handlebars_yy_copy_lval();
@@ -5788,7 +6108,7 @@ YY_RULE_SETUP
 case 35:
 /* rule 35 can match eol */
 YY_RULE_SETUP
-#line 370 "handlebars.l"
+#line 374 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 87
 										// ignore whitespace
@@ -5796,7 +6116,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 36:
 YY_RULE_SETUP
-#line 375 "handlebars.l"
+#line 379 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 88
 										yy_pop_state(yyg);
@@ -5806,7 +6126,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 37:
 YY_RULE_SETUP
-#line 382 "handlebars.l"
+#line 386 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 89
 										yy_pop_state(yyg);
@@ -5817,7 +6137,7 @@ YY_RULE_SETUP
 case 38:
 /* rule 38 can match eol */
 YY_RULE_SETUP
-#line 389 "handlebars.l"
+#line 393 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 90
 										yytext[--yyleng] = 0;
@@ -5830,7 +6150,7 @@ YY_RULE_SETUP
 case 39:
 /* rule 39 can match eol */
 YY_RULE_SETUP
-#line 398 "handlebars.l"
+#line 402 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 91
 										yytext[--yyleng] = 0;
@@ -5842,7 +6162,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
-#line 407 "handlebars.l"
+#line 411 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 92
 										handlebars_yy_copy_lval();
@@ -5852,7 +6172,7 @@ YY_RULE_SETUP
 case 41:
 /* rule 41 can match eol */
 YY_RULE_SETUP
-#line 413 "handlebars.l"
+#line 417 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 108
 										handlebars_yy_copy_lval();
@@ -5861,7 +6181,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 42:
 YY_RULE_SETUP
-#line 419 "handlebars.l"
+#line 423 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 109
 										handlebars_yy_copy_lval();
@@ -5875,7 +6195,7 @@ YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 425 "handlebars.l"
+#line 429 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 93
 										handlebars_yy_copy_lval();
@@ -5889,7 +6209,7 @@ YY_LINENO_REWIND_TO(yy_bp + 5);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 5;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 431 "handlebars.l"
+#line 435 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 94
 										handlebars_yy_copy_lval();
@@ -5903,7 +6223,7 @@ YY_LINENO_REWIND_TO(yy_bp + 9);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 9;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 437 "handlebars.l"
+#line 441 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 105
 										handlebars_yy_copy_lval();
@@ -5917,7 +6237,7 @@ YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 443 "handlebars.l"
+#line 447 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 106
 										handlebars_yy_copy_lval();
@@ -5931,7 +6251,7 @@ YY_LINENO_REWIND_TO(yy_cp - 1);
 yyg->yy_c_buf_p = yy_cp -= 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 449 "handlebars.l"
+#line 453 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 95
 										handlebars_yy_copy_lval();
@@ -5945,7 +6265,7 @@ YY_LINENO_REWIND_TO(yy_cp - 1);
 yyg->yy_c_buf_p = yy_cp -= 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 456 "handlebars.l"
+#line 460 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 97
 										handlebars_yy_copy_lval();
@@ -5955,7 +6275,7 @@ YY_RULE_SETUP
 case 49:
 /* rule 49 can match eol */
 YY_RULE_SETUP
-#line 462 "handlebars.l"
+#line 466 "handlebars.l"
 {
 										// v4.0.3 handlebars.l line 123
 										// yytext = strip(1,2);
@@ -5968,7 +6288,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 50:
 YY_RULE_SETUP
-#line 472 "handlebars.l"
+#line 476 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 100
 										handlebars_yy_copy_lval();
@@ -5981,7 +6301,7 @@ case YY_STATE_EOF(emu):
 case YY_STATE_EOF(com):
 case YY_STATE_EOF(com1):
 case YY_STATE_EOF(raw):
-#line 478 "handlebars.l"
+#line 482 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 102
 										return END;
@@ -5989,10 +6309,10 @@ case YY_STATE_EOF(raw):
 	YY_BREAK
 case 51:
 YY_RULE_SETUP
-#line 483 "handlebars.l"
+#line 487 "handlebars.l"
 ECHO;
 	YY_BREAK
-#line 5996 "handlebars.lex.c"
+#line 6316 "handlebars.lex.c"
 
 	case YY_END_OF_BUFFER:
 		{
@@ -7200,6 +7520,6 @@ static int yy_flex_strlen (const char * s , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 483 "handlebars.l"
+#line 487 "handlebars.l"
 
 
diff --git a/src/handlebars.lex.h b/src/handlebars.lex.h
index f0d06e3..1147b9e 100644
--- a/src/handlebars.lex.h
+++ b/src/handlebars.lex.h
@@ -733,7 +733,7 @@ extern int yylex \
 #undef yyTABLES_NAME
 #endif
 
-#line 483 "handlebars.l"
+#line 487 "handlebars.l"
 
 
 #line 740 "handlebars.lex.h"
-- 
2.43.0


From faf14b27e8d73e3045ff1eba6152f11ea80b8493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:48 +0000
Subject: [PATCH 22/90] fix: an empty template was a syntax error

---
 src/handlebars.tab.c | 760 ++++++++++++++++++++++---------------------
 src/handlebars.y     |   5 +
 2 files changed, 395 insertions(+), 370 deletions(-)

diff --git a/src/handlebars.tab.c b/src/handlebars.tab.c
index af1591c..e28e043 100644
--- a/src/handlebars.tab.c
+++ b/src/handlebars.tab.c
@@ -542,18 +542,18 @@ union yyalloc
 #endif /* !YYCOPY_NEEDED */
 
 /* YYFINAL -- State number of the termination state.  */
-#define YYFINAL  50
+#define YYFINAL  51
 /* YYLAST -- Last index in YYTABLE.  */
-#define YYLAST   283
+#define YYLAST   330
 
 /* YYNTOKENS -- Number of terminals.  */
 #define YYNTOKENS  36
 /* YYNNTS -- Number of nonterminals.  */
 #define YYNNTS  34
 /* YYNRULES -- Number of rules.  */
-#define YYNRULES  80
+#define YYNRULES  81
 /* YYNSTATES -- Number of states.  */
-#define YYNSTATES  125
+#define YYNSTATES  126
 
 /* YYMAXUTOK -- Last valid token kind.  */
 #define YYMAXUTOK   290
@@ -606,15 +606,15 @@ static const yytype_int8 yytranslate[] =
 /* YYRLINE[YYN] -- Source line where rule number YYN was defined.  */
 static const yytype_int16 yyrline[] =
 {
-       0,   188,   188,   196,   199,   206,   210,   217,   220,   223,
-     226,   229,   232,   235,   242,   252,   256,   262,   265,   271,
-     277,   280,   283,   286,   292,   296,   300,   307,   315,   322,
-     329,   332,   335,   338,   341,   347,   351,   360,   367,   371,
-     378,   382,   386,   390,   397,   400,   406,   410,   414,   418,
-     425,   429,   436,   439,   445,   451,   456,   460,   463,   466,
-     469,   475,   483,   487,   494,   500,   504,   511,   514,   517,
-     520,   523,   526,   529,   532,   538,   541,   547,   553,   559,
-     565
+       0,   188,   188,   193,   201,   204,   211,   215,   222,   225,
+     228,   231,   234,   237,   240,   247,   257,   261,   267,   270,
+     276,   282,   285,   288,   291,   297,   301,   305,   312,   320,
+     327,   334,   337,   340,   343,   346,   352,   356,   365,   372,
+     376,   383,   387,   391,   395,   402,   405,   411,   415,   419,
+     423,   430,   434,   441,   444,   450,   456,   461,   465,   468,
+     471,   474,   480,   488,   492,   499,   505,   509,   516,   519,
+     522,   525,   528,   531,   534,   537,   543,   546,   552,   558,
+     564,   570
 };
 #endif
 
@@ -653,7 +653,7 @@ yysymbol_name (yysymbol_kind_t yysymbol)
 }
 #endif
 
-#define YYPACT_NINF (-57)
+#define YYPACT_NINF (-58)
 
 #define yypact_value_is_default(Yyn) \
   ((Yyn) == YYPACT_NINF)
@@ -667,19 +667,19 @@ yysymbol_name (yysymbol_kind_t yysymbol)
    STATE-NUM.  */
 static const yytype_int16 yypact[] =
 {
-     231,   -57,    13,   150,   150,   150,   124,   150,   150,   124,
-     -57,   -57,    24,    27,   250,   -57,   -57,   -57,     3,   -57,
-     174,   174,   -57,   -57,   -57,   212,   -57,   -57,    15,   -57,
-     -57,   -57,   -57,   -57,   -57,    32,   146,   -57,   -57,     6,
-      33,     9,    35,   150,   -57,   -57,    54,    36,    41,    87,
-     -57,   -57,   -57,   -57,    31,   231,   150,   150,     2,    40,
-     193,   -57,   -57,   -57,    40,   -57,    40,   -57,     6,   -57,
-      43,   146,   -57,   -57,   -57,    47,   -57,   -57,    49,   -57,
-      50,   -57,   -57,    60,   -57,    91,    64,   -57,   -57,   -57,
-     120,    65,   -57,   -57,    67,    68,   -57,   -57,     2,   -57,
-     -57,   -57,   124,   -57,   -57,    43,   -57,   -57,     8,   -57,
-     -57,    69,   -57,   -57,    70,   -57,   -57,   -57,   -57,   -57,
-      48,   -57,   -57,   -57,   -57
+      68,   -58,   -58,     5,   200,   200,   200,   167,   200,   200,
+     167,   -58,   -58,    21,    22,   297,   -58,   -58,   -58,    26,
+     -58,   221,   221,   -58,   -58,   -58,   259,   -58,   -58,    11,
+     -58,   -58,   -58,   -58,   -58,   -58,    24,   181,   -58,   -58,
+      14,    27,     7,    34,   200,   -58,   -58,    94,    36,    35,
+     108,   -58,   -58,   -58,   -58,    37,   278,   200,   200,     2,
+      39,   240,   -58,   -58,   -58,    39,   -58,    39,   -58,    14,
+     -58,    43,   181,   -58,   -58,   -58,    46,   -58,   -58,    47,
+     -58,    48,   -58,   -58,    50,   -58,   134,    59,   -58,   -58,
+     -58,   148,    60,   -58,   -58,    62,    63,   -58,   -58,     2,
+     -58,   -58,   -58,   167,   -58,   -58,    43,   -58,   -58,    -1,
+     -58,   -58,    65,   -58,   -58,    66,   -58,   -58,   -58,   -58,
+     -58,    44,   -58,   -58,   -58,   -58
 };
 
 /* YYDEFACT[STATE-NUM] -- Default reduction number in state STATE-NUM.
@@ -687,37 +687,37 @@ static const yytype_int16 yypact[] =
    means the default is an error.  */
 static const yytype_int8 yydefact[] =
 {
-       0,    13,    16,     0,     0,     0,     0,     0,     0,     0,
-      14,     4,     0,     0,     3,     5,    12,     9,     0,     8,
-       0,     0,     7,    10,    11,     0,    15,    72,     0,    80,
-      71,    69,    74,    73,    70,     0,    60,    68,    67,    78,
-       0,    56,     0,     0,    76,    75,     0,     0,     0,     0,
-       1,     2,     6,    18,     0,    36,     0,     0,    26,     0,
-      33,    24,    34,    21,     0,    23,     0,    45,    77,    38,
-      80,    59,    50,    53,    58,    61,    63,    52,     0,    27,
-       0,    55,    28,     0,    43,     0,     0,    19,    39,    49,
-       0,     0,    17,    35,     0,     0,    25,    20,    32,    31,
-      22,    44,     0,    51,    57,     0,    62,    79,     0,    54,
-      41,     0,    42,    47,     0,    48,    37,    29,    30,    64,
-       0,    66,    40,    46,    65
+       0,     3,    14,    17,     0,     0,     0,     0,     0,     0,
+       0,    15,     5,     0,     0,     4,     6,    13,    10,     0,
+       9,     0,     0,     8,    11,    12,     0,    16,    73,     0,
+      81,    72,    70,    75,    74,    71,     0,    61,    69,    68,
+      79,     0,    57,     0,     0,    77,    76,     0,     0,     0,
+       0,     1,     2,     7,    19,     0,    37,     0,     0,    27,
+       0,    34,    25,    35,    22,     0,    24,     0,    46,    78,
+      39,    81,    60,    51,    54,    59,    62,    64,    53,     0,
+      28,     0,    56,    29,     0,    44,     0,     0,    20,    40,
+      50,     0,     0,    18,    36,     0,     0,    26,    21,    33,
+      32,    23,    45,     0,    52,    58,     0,    63,    80,     0,
+      55,    42,     0,    43,    48,     0,    49,    38,    30,    31,
+      65,     0,    67,    41,    47,    66
 };
 
 /* YYPGOTO[NTERM-NUM].  */
 static const yytype_int8 yypgoto[] =
 {
-     -57,   -57,     1,   -57,    62,     7,   -57,   -57,   -57,    57,
-     -57,   -57,   -57,   -53,   -57,   -15,   -57,   -57,   -57,   -57,
-     -30,   -56,    14,    -3,    10,   -38,   -57,    11,   -57,    -6,
-      72,   -57,   -57,    55
+     -58,   -58,     1,   -58,    57,     6,   -58,   -58,   -58,    51,
+     -58,   -58,   -58,   -54,   -58,   -16,   -58,   -58,   -58,   -58,
+     -31,   -57,    13,    -4,     9,   -39,   -58,    -2,   -58,    -7,
+      70,   -58,   -58,    49
 };
 
 /* YYDEFGOTO[NTERM-NUM].  */
 static const yytype_int8 yydefgoto[] =
 {
-       0,    12,    58,    14,    15,    16,    17,    18,    19,    59,
-      20,    21,    60,    61,    62,    63,    22,    23,    24,    25,
-      71,    72,    73,    40,    41,    74,    75,    76,    81,    36,
-      46,    37,    38,    39
+       0,    13,    59,    15,    16,    17,    18,    19,    20,    60,
+      21,    22,    61,    62,    63,    64,    23,    24,    25,    26,
+      72,    73,    74,    41,    42,    75,    76,    77,    82,    37,
+      47,    38,    39,    40
 };
 
 /* YYTABLE[YYPACT[STATE-NUM]] -- What to do in state STATE-NUM.  If
@@ -725,115 +725,125 @@ static const yytype_int8 yydefgoto[] =
    number is the opposite.  If YYTABLE_NINF, syntax error.  */
 static const yytype_int8 yytable[] =
 {
-      45,    13,    42,    45,    47,    96,    65,    99,    86,    26,
-      67,    91,     2,    35,    53,   103,    85,    55,    48,    90,
-      44,   120,     2,    44,    50,    54,    66,    51,    29,   103,
-      77,    78,    57,   104,   103,   121,    69,    79,    80,    82,
-      77,    87,    92,    77,    97,   118,   119,   111,    88,   100,
-      94,   101,   114,    83,    95,   102,    93,    27,    84,    56,
-     105,    98,   107,   108,    28,    77,   109,    70,   112,   115,
-      30,   116,   117,   122,   123,   124,    52,    43,    64,    77,
-      31,    49,    32,    68,    77,    33,   106,     0,    34,     0,
-      27,    89,     0,     0,    27,   110,    77,    28,     0,     0,
-      70,    28,     0,    30,    70,     0,     0,    30,     0,     0,
-      43,     0,     0,    31,    43,    32,     0,    31,    33,    32,
-       0,    34,    33,    27,   113,    34,     0,    27,     0,     0,
-      28,     0,     0,    70,    28,     0,    30,    29,     0,     0,
-      30,     0,     0,    43,     0,     0,    31,    43,    32,    27,
-      31,    33,    32,    27,    34,    33,    28,     0,    34,    70,
-      28,     0,    30,    29,     0,     0,    30,     0,     0,    43,
-       0,     0,    31,     0,    32,     0,    31,    33,    32,     0,
-      34,    33,     1,     2,    34,     0,     0,     0,     0,    55,
-       0,     3,     4,    56,     5,     6,     7,     0,     8,     0,
-       0,     1,     2,     0,    57,     0,     9,    10,    55,    11,
-       3,     4,     0,     5,     6,     7,     0,     8,     0,     0,
-       1,     2,     0,    57,     0,     9,    10,     0,    11,     3,
-       4,    56,     5,     6,     7,     0,     8,     0,     0,     1,
-       2,     0,     0,     0,     9,    10,     0,    11,     3,     4,
-       0,     5,     6,     7,     0,     8,     0,     0,     1,     2,
-       0,     0,     0,     9,    10,     0,    11,     3,     4,     0,
-       5,     6,     7,     0,     8,     0,     0,     0,     0,     0,
-       0,     0,     9,    10
+      46,    14,    43,    46,    48,    97,    66,   100,    87,    27,
+      68,    92,   121,    36,     3,   104,    86,    56,    49,    91,
+      45,    51,    52,    45,    30,    55,   122,    67,    70,   104,
+      78,    80,    58,   105,   104,     3,    81,    54,    83,    79,
+      78,    88,    89,    78,    98,   119,   120,   112,    93,   101,
+      95,   102,   115,    84,    96,   103,   110,    94,    57,   106,
+     108,   109,    99,   113,   116,    78,   117,   118,     1,   123,
+     124,   125,    53,    65,   107,     0,     2,     3,    69,    78,
+      50,     0,     0,     0,    78,     4,     5,     0,     6,     7,
+       8,     0,     9,     0,     0,     0,    78,    28,    85,     0,
+      10,    11,     0,    12,    29,     0,     0,    71,     0,     0,
+      31,    28,    90,     0,     0,     0,     0,    44,    29,     0,
+      32,    71,    33,     0,    31,    34,     0,     0,    35,     0,
+       0,    44,     0,     0,    32,     0,    33,    28,   111,    34,
+       0,     0,    35,     0,    29,     0,     0,    71,     0,     0,
+      31,    28,   114,     0,     0,     0,     0,    44,    29,     0,
+      32,    71,    33,     0,    31,    34,     0,     0,    35,     0,
+      28,    44,     0,     0,    32,     0,    33,    29,     0,    34,
+      30,     0,    35,    31,    28,     0,     0,     0,     0,     0,
+      44,    29,     0,    32,    71,    33,     0,    31,    34,     0,
+       0,    35,     0,    28,    44,     0,     0,    32,     0,    33,
+      29,     0,    34,    30,     0,    35,    31,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,    32,     0,    33,     2,
+       3,    34,     0,     0,    35,     0,    56,     0,     4,     5,
+      57,     6,     7,     8,     0,     9,     0,     0,     2,     3,
+       0,    58,     0,    10,    11,    56,    12,     4,     5,     0,
+       6,     7,     8,     0,     9,     0,     0,     2,     3,     0,
+      58,     0,    10,    11,     0,    12,     4,     5,    57,     6,
+       7,     8,     0,     9,     0,     0,     2,     3,     0,     0,
+       0,    10,    11,     0,    12,     4,     5,     0,     6,     7,
+       8,     0,     9,     0,     0,     2,     3,     0,     0,     0,
+      10,    11,     0,    12,     4,     5,     0,     6,     7,     8,
+       0,     9,     0,     0,     0,     0,     0,     0,     0,    10,
+      11
 };
 
 static const yytype_int8 yycheck[] =
 {
-       6,     0,     5,     9,     7,    58,    21,    60,    46,     2,
-      25,    49,     9,     3,    11,    71,    46,    15,     8,    49,
-       6,    13,     9,     9,     0,    18,    25,     0,    13,    85,
-      36,    25,    30,    71,    90,    27,     4,     4,    29,     4,
-      46,     5,    11,    49,    59,    98,   102,    85,     7,    64,
-      56,    66,    90,    43,    57,    12,    55,     3,     4,    19,
-      13,    60,    13,    13,    10,    71,     6,    13,     4,     4,
-      16,     4,     4,     4,     4,    27,    14,    23,    21,    85,
-      26,     9,    28,    28,    90,    31,    75,    -1,    34,    -1,
-       3,     4,    -1,    -1,     3,     4,   102,    10,    -1,    -1,
-      13,    10,    -1,    16,    13,    -1,    -1,    16,    -1,    -1,
-      23,    -1,    -1,    26,    23,    28,    -1,    26,    31,    28,
-      -1,    34,    31,     3,     4,    34,    -1,     3,    -1,    -1,
-      10,    -1,    -1,    13,    10,    -1,    16,    13,    -1,    -1,
-      16,    -1,    -1,    23,    -1,    -1,    26,    23,    28,     3,
-      26,    31,    28,     3,    34,    31,    10,    -1,    34,    13,
-      10,    -1,    16,    13,    -1,    -1,    16,    -1,    -1,    23,
-      -1,    -1,    26,    -1,    28,    -1,    26,    31,    28,    -1,
-      34,    31,     8,     9,    34,    -1,    -1,    -1,    -1,    15,
-      -1,    17,    18,    19,    20,    21,    22,    -1,    24,    -1,
-      -1,     8,     9,    -1,    30,    -1,    32,    33,    15,    35,
-      17,    18,    -1,    20,    21,    22,    -1,    24,    -1,    -1,
-       8,     9,    -1,    30,    -1,    32,    33,    -1,    35,    17,
-      18,    19,    20,    21,    22,    -1,    24,    -1,    -1,     8,
-       9,    -1,    -1,    -1,    32,    33,    -1,    35,    17,    18,
-      -1,    20,    21,    22,    -1,    24,    -1,    -1,     8,     9,
-      -1,    -1,    -1,    32,    33,    -1,    35,    17,    18,    -1,
-      20,    21,    22,    -1,    24,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    32,    33
+       7,     0,     6,    10,     8,    59,    22,    61,    47,     3,
+      26,    50,    13,     4,     9,    72,    47,    15,     9,    50,
+       7,     0,     0,    10,    13,    19,    27,    26,     4,    86,
+      37,     4,    30,    72,    91,     9,    29,    11,     4,    25,
+      47,     5,     7,    50,    60,    99,   103,    86,    11,    65,
+      57,    67,    91,    44,    58,    12,     6,    56,    19,    13,
+      13,    13,    61,     4,     4,    72,     4,     4,     0,     4,
+       4,    27,    15,    22,    76,    -1,     8,     9,    29,    86,
+      10,    -1,    -1,    -1,    91,    17,    18,    -1,    20,    21,
+      22,    -1,    24,    -1,    -1,    -1,   103,     3,     4,    -1,
+      32,    33,    -1,    35,    10,    -1,    -1,    13,    -1,    -1,
+      16,     3,     4,    -1,    -1,    -1,    -1,    23,    10,    -1,
+      26,    13,    28,    -1,    16,    31,    -1,    -1,    34,    -1,
+      -1,    23,    -1,    -1,    26,    -1,    28,     3,     4,    31,
+      -1,    -1,    34,    -1,    10,    -1,    -1,    13,    -1,    -1,
+      16,     3,     4,    -1,    -1,    -1,    -1,    23,    10,    -1,
+      26,    13,    28,    -1,    16,    31,    -1,    -1,    34,    -1,
+       3,    23,    -1,    -1,    26,    -1,    28,    10,    -1,    31,
+      13,    -1,    34,    16,     3,    -1,    -1,    -1,    -1,    -1,
+      23,    10,    -1,    26,    13,    28,    -1,    16,    31,    -1,
+      -1,    34,    -1,     3,    23,    -1,    -1,    26,    -1,    28,
+      10,    -1,    31,    13,    -1,    34,    16,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    28,     8,
+       9,    31,    -1,    -1,    34,    -1,    15,    -1,    17,    18,
+      19,    20,    21,    22,    -1,    24,    -1,    -1,     8,     9,
+      -1,    30,    -1,    32,    33,    15,    35,    17,    18,    -1,
+      20,    21,    22,    -1,    24,    -1,    -1,     8,     9,    -1,
+      30,    -1,    32,    33,    -1,    35,    17,    18,    19,    20,
+      21,    22,    -1,    24,    -1,    -1,     8,     9,    -1,    -1,
+      -1,    32,    33,    -1,    35,    17,    18,    -1,    20,    21,
+      22,    -1,    24,    -1,    -1,     8,     9,    -1,    -1,    -1,
+      32,    33,    -1,    35,    17,    18,    -1,    20,    21,    22,
+      -1,    24,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    32,
+      33
 };
 
 /* YYSTOS[STATE-NUM] -- The symbol kind of the accessing symbol of
    state STATE-NUM.  */
 static const yytype_int8 yystos[] =
 {
-       0,     8,     9,    17,    18,    20,    21,    22,    24,    32,
-      33,    35,    37,    38,    39,    40,    41,    42,    43,    44,
-      46,    47,    52,    53,    54,    55,    41,     3,    10,    13,
-      16,    26,    28,    31,    34,    60,    65,    67,    68,    69,
-      59,    60,    59,    23,    58,    65,    66,    59,    60,    66,
-       0,     0,    40,    11,    41,    15,    19,    30,    38,    45,
-      48,    49,    50,    51,    45,    51,    38,    51,    69,     4,
-      13,    56,    57,    58,    61,    62,    63,    65,    25,     4,
-      29,    64,     4,    60,     4,    56,    61,     5,     7,     4,
-      56,    61,    11,    38,    65,    59,    49,    51,    38,    49,
-      51,    51,    12,    57,    61,    13,    63,    13,    13,     6,
-       4,    61,     4,     4,    61,     4,     4,     4,    49,    57,
-      13,    27,     4,     4,    27
+       0,     0,     8,     9,    17,    18,    20,    21,    22,    24,
+      32,    33,    35,    37,    38,    39,    40,    41,    42,    43,
+      44,    46,    47,    52,    53,    54,    55,    41,     3,    10,
+      13,    16,    26,    28,    31,    34,    60,    65,    67,    68,
+      69,    59,    60,    59,    23,    58,    65,    66,    59,    60,
+      66,     0,     0,    40,    11,    41,    15,    19,    30,    38,
+      45,    48,    49,    50,    51,    45,    51,    38,    51,    69,
+       4,    13,    56,    57,    58,    61,    62,    63,    65,    25,
+       4,    29,    64,     4,    60,     4,    56,    61,     5,     7,
+       4,    56,    61,    11,    38,    65,    59,    49,    51,    38,
+      49,    51,    51,    12,    57,    61,    13,    63,    13,    13,
+       6,     4,    61,     4,     4,    61,     4,     4,     4,    49,
+      57,    13,    27,     4,     4,    27
 };
 
 /* YYR1[RULE-NUM] -- Symbol kind of the left-hand side of rule RULE-NUM.  */
 static const yytype_int8 yyr1[] =
 {
-       0,    36,    37,    38,    38,    39,    39,    40,    40,    40,
-      40,    40,    40,    40,    40,    41,    41,    42,    42,    43,
-      44,    44,    44,    44,    45,    45,    45,    46,    47,    48,
-      49,    49,    49,    49,    49,    50,    50,    51,    52,    52,
-      53,    53,    53,    53,    54,    54,    55,    55,    55,    55,
-      56,    56,    57,    57,    58,    59,    59,    60,    60,    60,
-      60,    61,    62,    62,    63,    64,    64,    65,    65,    65,
-      65,    65,    65,    65,    65,    66,    66,    67,    68,    69,
-      69
+       0,    36,    37,    37,    38,    38,    39,    39,    40,    40,
+      40,    40,    40,    40,    40,    40,    41,    41,    42,    42,
+      43,    44,    44,    44,    44,    45,    45,    45,    46,    47,
+      48,    49,    49,    49,    49,    49,    50,    50,    51,    52,
+      52,    53,    53,    53,    53,    54,    54,    55,    55,    55,
+      55,    56,    56,    57,    57,    58,    59,    59,    60,    60,
+      60,    60,    61,    62,    62,    63,    64,    64,    65,    65,
+      65,    65,    65,    65,    65,    65,    66,    66,    67,    68,
+      69,    69
 };
 
 /* YYR2[RULE-NUM] -- Number of symbols on the right-hand side of rule RULE-NUM.  */
 static const yytype_int8 yyr2[] =
 {
-       0,     2,     2,     1,     1,     1,     2,     1,     1,     1,
-       1,     1,     1,     1,     1,     2,     1,     3,     2,     3,
-       3,     2,     3,     2,     1,     2,     1,     3,     3,     3,
-       3,     2,     2,     1,     1,     2,     1,     3,     3,     3,
-       5,     4,     4,     3,     3,     2,     5,     4,     4,     3,
-       1,     2,     1,     1,     3,     2,     1,     3,     2,     2,
-       1,     1,     2,     1,     3,     4,     3,     1,     1,     1,
-       1,     1,     1,     1,     1,     1,     1,     2,     1,     3,
-       1
+       0,     2,     2,     1,     1,     1,     1,     2,     1,     1,
+       1,     1,     1,     1,     1,     1,     2,     1,     3,     2,
+       3,     3,     2,     3,     2,     1,     2,     1,     3,     3,
+       3,     3,     2,     2,     1,     1,     2,     1,     3,     3,
+       3,     5,     4,     4,     3,     3,     2,     5,     4,     4,
+       3,     1,     2,     1,     1,     3,     2,     1,     3,     2,
+       2,     1,     1,     2,     1,     3,     4,     3,     1,     1,
+       1,     1,     1,     1,     1,     1,     1,     1,     2,     1,
+       3,     1
 };
 
 
@@ -1697,94 +1707,104 @@ yyreduce:
       handlebars_whitespace_accept(parser, parser->program);
       return 1;
     }
-#line 1701 "handlebars.tab.c"
+#line 1711 "handlebars.tab.c"
     break;
 
-  case 3: /* program: statements  */
-#line 196 "handlebars.y"
+  case 3: /* start: "end of file"  */
+#line 193 "handlebars.y"
+        {
+      // An empty template is a program without statements
+      parser->program = handlebars_ast_node_ctor_program(parser, handlebars_ast_list_ctor(CONTEXT), NULL, NULL, 0, 0, &(yyloc));
+      return 1;
+    }
+#line 1721 "handlebars.tab.c"
+    break;
+
+  case 4: /* program: statements  */
+#line 201 "handlebars.y"
                {
       (yyval.ast_node) = handlebars_ast_node_ctor_program(parser, (yyvsp[0].ast_list), NULL, NULL, 0, 0, &(yyloc));
     }
-#line 1709 "handlebars.tab.c"
+#line 1729 "handlebars.tab.c"
     break;
 
-  case 4: /* program: ""  */
-#line 199 "handlebars.y"
+  case 5: /* program: ""  */
+#line 204 "handlebars.y"
        {
       struct handlebars_ast_list * list = handlebars_ast_list_ctor(CONTEXT);
       (yyval.ast_node) = handlebars_ast_node_ctor_program(parser, list, NULL, NULL, 0, 0, &(yyloc));
     }
-#line 1718 "handlebars.tab.c"
+#line 1738 "handlebars.tab.c"
     break;
 
-  case 5: /* statements: statement  */
-#line 206 "handlebars.y"
+  case 6: /* statements: statement  */
+#line 211 "handlebars.y"
               {
       (yyval.ast_list) = handlebars_ast_list_ctor(CONTEXT);
       handlebars_ast_list_append((yyval.ast_list), (yyvsp[0].ast_node));
     }
-#line 1727 "handlebars.tab.c"
+#line 1747 "handlebars.tab.c"
     break;
 
-  case 6: /* statements: statements statement  */
-#line 210 "handlebars.y"
+  case 7: /* statements: statements statement  */
+#line 215 "handlebars.y"
                          {
       handlebars_ast_list_append((yyvsp[-1].ast_list), (yyvsp[0].ast_node));
       (yyval.ast_list) = (yyvsp[-1].ast_list);
     }
-#line 1736 "handlebars.tab.c"
+#line 1756 "handlebars.tab.c"
     break;
 
-  case 7: /* statement: mustache  */
-#line 217 "handlebars.y"
+  case 8: /* statement: mustache  */
+#line 222 "handlebars.y"
              {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 1744 "handlebars.tab.c"
+#line 1764 "handlebars.tab.c"
     break;
 
-  case 8: /* statement: block  */
-#line 220 "handlebars.y"
+  case 9: /* statement: block  */
+#line 225 "handlebars.y"
           {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 1752 "handlebars.tab.c"
+#line 1772 "handlebars.tab.c"
     break;
 
-  case 9: /* statement: raw_block  */
-#line 223 "handlebars.y"
+  case 10: /* statement: raw_block  */
+#line 228 "handlebars.y"
               {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 1760 "handlebars.tab.c"
+#line 1780 "handlebars.tab.c"
     break;
 
-  case 10: /* statement: partial  */
-#line 226 "handlebars.y"
+  case 11: /* statement: partial  */
+#line 231 "handlebars.y"
             {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 1768 "handlebars.tab.c"
+#line 1788 "handlebars.tab.c"
     break;
 
-  case 11: /* statement: partial_block  */
-#line 229 "handlebars.y"
+  case 12: /* statement: partial_block  */
+#line 234 "handlebars.y"
                   {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 1776 "handlebars.tab.c"
+#line 1796 "handlebars.tab.c"
     break;
 
-  case 12: /* statement: content  */
-#line 232 "handlebars.y"
+  case 13: /* statement: content  */
+#line 237 "handlebars.y"
             {
       (yyval.ast_node) = handlebars_ast_node_ctor_content(parser, (yyvsp[0].string), &(yyloc));
     }
-#line 1784 "handlebars.tab.c"
+#line 1804 "handlebars.tab.c"
     break;
 
-  case 13: /* statement: COMMENT  */
-#line 235 "handlebars.y"
+  case 14: /* statement: COMMENT  */
+#line 240 "handlebars.y"
             {
       // Strip comment strips in place
       unsigned strip = handlebars_ast_helper_strip_flags((yyvsp[0].string), (yyvsp[0].string));
@@ -1792,11 +1812,11 @@ yyreduce:
       			handlebars_ast_helper_strip_comment((yyvsp[0].string)), false, &(yyloc));
       handlebars_ast_node_set_strip((yyval.ast_node), strip);
     }
-#line 1796 "handlebars.tab.c"
+#line 1816 "handlebars.tab.c"
     break;
 
-  case 14: /* statement: LONG_COMMENT  */
-#line 242 "handlebars.y"
+  case 15: /* statement: LONG_COMMENT  */
+#line 247 "handlebars.y"
                  {
       // Strip comment strips in place
       unsigned strip = handlebars_ast_helper_strip_flags((yyvsp[0].string), (yyvsp[0].string));
@@ -1804,560 +1824,560 @@ yyreduce:
       			handlebars_ast_helper_strip_comment((yyvsp[0].string)), true, &(yyloc));
       handlebars_ast_node_set_strip((yyval.ast_node), strip);
   }
-#line 1808 "handlebars.tab.c"
+#line 1828 "handlebars.tab.c"
     break;
 
-  case 15: /* content: CONTENT content  */
-#line 252 "handlebars.y"
+  case 16: /* content: CONTENT content  */
+#line 257 "handlebars.y"
                     {
       (yyval.string) = handlebars_string_append_str(CONTEXT, (yyvsp[-1].string), (yyvsp[0].string));
       (yyval.string) = talloc_steal(parser, (yyval.string));
     }
-#line 1817 "handlebars.tab.c"
+#line 1837 "handlebars.tab.c"
     break;
 
-  case 16: /* content: CONTENT  */
-#line 256 "handlebars.y"
+  case 17: /* content: CONTENT  */
+#line 261 "handlebars.y"
             {
       (yyval.string) = (yyvsp[0].string);
     }
-#line 1825 "handlebars.tab.c"
+#line 1845 "handlebars.tab.c"
     break;
 
-  case 17: /* raw_block: open_raw_block content END_RAW_BLOCK  */
-#line 262 "handlebars.y"
+  case 18: /* raw_block: open_raw_block content END_RAW_BLOCK  */
+#line 267 "handlebars.y"
                                          {
       (yyval.ast_node) = handlebars_ast_helper_prepare_raw_block(parser, (yyvsp[-2].ast_node), (yyvsp[-1].string), (yyvsp[0].string), &(yyloc));
     }
-#line 1833 "handlebars.tab.c"
+#line 1853 "handlebars.tab.c"
     break;
 
-  case 18: /* raw_block: open_raw_block END_RAW_BLOCK  */
-#line 265 "handlebars.y"
+  case 19: /* raw_block: open_raw_block END_RAW_BLOCK  */
+#line 270 "handlebars.y"
                                    {
       (yyval.ast_node) = handlebars_ast_helper_prepare_raw_block(parser, (yyvsp[-1].ast_node), handlebars_string_ctor(HBSCTX(parser), HBS_STRL("")), (yyvsp[0].string), &(yyloc));
     }
-#line 1841 "handlebars.tab.c"
+#line 1861 "handlebars.tab.c"
     break;
 
-  case 19: /* open_raw_block: "{{{{" intermediate4 "}}}}"  */
-#line 271 "handlebars.y"
+  case 20: /* open_raw_block: "{{{{" intermediate4 "}}}}"  */
+#line 276 "handlebars.y"
                                                  {
       (yyval.ast_node) = (yyvsp[-1].ast_node);
     }
-#line 1849 "handlebars.tab.c"
+#line 1869 "handlebars.tab.c"
     break;
 
-  case 20: /* block: open_block block_intermediate close_block  */
-#line 277 "handlebars.y"
+  case 21: /* block: open_block block_intermediate close_block  */
+#line 282 "handlebars.y"
                                               {
       (yyval.ast_node) = handlebars_ast_helper_prepare_block(parser, (yyvsp[-2].ast_node), (yyvsp[-1].block_intermediate).program, (yyvsp[-1].block_intermediate).inverse_chain, (yyvsp[0].ast_node), 0, &(yyloc));
     }
-#line 1857 "handlebars.tab.c"
+#line 1877 "handlebars.tab.c"
     break;
 
-  case 21: /* block: open_block close_block  */
-#line 280 "handlebars.y"
+  case 22: /* block: open_block close_block  */
+#line 285 "handlebars.y"
                            {
       (yyval.ast_node) = handlebars_ast_helper_prepare_block(parser, (yyvsp[-1].ast_node), NULL, NULL, (yyvsp[0].ast_node), 0, &(yyloc));
     }
-#line 1865 "handlebars.tab.c"
+#line 1885 "handlebars.tab.c"
     break;
 
-  case 22: /* block: open_inverse block_intermediate close_block  */
-#line 283 "handlebars.y"
+  case 23: /* block: open_inverse block_intermediate close_block  */
+#line 288 "handlebars.y"
                                                 {
       (yyval.ast_node) = handlebars_ast_helper_prepare_block(parser, (yyvsp[-2].ast_node), (yyvsp[-1].block_intermediate).program, (yyvsp[-1].block_intermediate).inverse_chain, (yyvsp[0].ast_node), 1, &(yyloc));
     }
-#line 1873 "handlebars.tab.c"
+#line 1893 "handlebars.tab.c"
     break;
 
-  case 23: /* block: open_inverse close_block  */
-#line 286 "handlebars.y"
+  case 24: /* block: open_inverse close_block  */
+#line 291 "handlebars.y"
                              {
       (yyval.ast_node) = handlebars_ast_helper_prepare_block(parser, (yyvsp[-1].ast_node), NULL, NULL, (yyvsp[0].ast_node), 1, &(yyloc));
     }
-#line 1881 "handlebars.tab.c"
+#line 1901 "handlebars.tab.c"
     break;
 
-  case 24: /* block_intermediate: inverse_chain  */
-#line 292 "handlebars.y"
+  case 25: /* block_intermediate: inverse_chain  */
+#line 297 "handlebars.y"
                   {
       (yyval.block_intermediate).program = NULL;
       (yyval.block_intermediate).inverse_chain = (yyvsp[0].ast_node);
     }
-#line 1890 "handlebars.tab.c"
+#line 1910 "handlebars.tab.c"
     break;
 
-  case 25: /* block_intermediate: program inverse_chain  */
-#line 296 "handlebars.y"
+  case 26: /* block_intermediate: program inverse_chain  */
+#line 301 "handlebars.y"
                           {
       (yyval.block_intermediate).program = (yyvsp[-1].ast_node);
       (yyval.block_intermediate).inverse_chain = (yyvsp[0].ast_node);
     }
-#line 1899 "handlebars.tab.c"
+#line 1919 "handlebars.tab.c"
     break;
 
-  case 26: /* block_intermediate: program  */
-#line 300 "handlebars.y"
+  case 27: /* block_intermediate: program  */
+#line 305 "handlebars.y"
             {
       (yyval.block_intermediate).program = (yyvsp[0].ast_node);
       (yyval.block_intermediate).inverse_chain = NULL;
     }
-#line 1908 "handlebars.tab.c"
+#line 1928 "handlebars.tab.c"
     break;
 
-  case 27: /* open_block: "{{#" intermediate4 "}}"  */
-#line 307 "handlebars.y"
+  case 28: /* open_block: "{{#" intermediate4 "}}"  */
+#line 312 "handlebars.y"
                                    {
       (yyval.ast_node) = (yyvsp[-1].ast_node);
       handlebars_ast_node_set_strip((yyval.ast_node), handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)));
       (yyval.ast_node)->node.intermediate.open = talloc_steal((yyval.ast_node), handlebars_string_copy_ctor(CONTEXT, (yyvsp[-2].string)));
     }
-#line 1918 "handlebars.tab.c"
+#line 1938 "handlebars.tab.c"
     break;
 
-  case 28: /* open_inverse: "{{^" intermediate4 "}}"  */
-#line 315 "handlebars.y"
+  case 29: /* open_inverse: "{{^" intermediate4 "}}"  */
+#line 320 "handlebars.y"
                                      {
       (yyval.ast_node) = (yyvsp[-1].ast_node);
       handlebars_ast_node_set_strip((yyval.ast_node), handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)));
     }
-#line 1927 "handlebars.tab.c"
+#line 1947 "handlebars.tab.c"
     break;
 
-  case 29: /* open_inverse_chain: OPEN_INVERSE_CHAIN intermediate4 "}}"  */
-#line 322 "handlebars.y"
+  case 30: /* open_inverse_chain: OPEN_INVERSE_CHAIN intermediate4 "}}"  */
+#line 327 "handlebars.y"
                                            {
       (yyval.ast_node) = (yyvsp[-1].ast_node);
       handlebars_ast_node_set_strip((yyval.ast_node), handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)));
     }
-#line 1936 "handlebars.tab.c"
+#line 1956 "handlebars.tab.c"
     break;
 
-  case 30: /* inverse_chain: open_inverse_chain program inverse_chain  */
-#line 329 "handlebars.y"
+  case 31: /* inverse_chain: open_inverse_chain program inverse_chain  */
+#line 334 "handlebars.y"
                                              {
       (yyval.ast_node) = handlebars_ast_helper_prepare_inverse_chain(parser, (yyvsp[-2].ast_node), (yyvsp[-1].ast_node), (yyvsp[0].ast_node), &(yyloc));
   	}
-#line 1944 "handlebars.tab.c"
+#line 1964 "handlebars.tab.c"
     break;
 
-  case 31: /* inverse_chain: open_inverse_chain inverse_chain  */
-#line 332 "handlebars.y"
+  case 32: /* inverse_chain: open_inverse_chain inverse_chain  */
+#line 337 "handlebars.y"
                                      {
       (yyval.ast_node) = handlebars_ast_helper_prepare_inverse_chain(parser, (yyvsp[-1].ast_node), NULL, (yyvsp[0].ast_node), &(yyloc));
   	}
-#line 1952 "handlebars.tab.c"
+#line 1972 "handlebars.tab.c"
     break;
 
-  case 32: /* inverse_chain: open_inverse_chain program  */
-#line 335 "handlebars.y"
+  case 33: /* inverse_chain: open_inverse_chain program  */
+#line 340 "handlebars.y"
                                {
       (yyval.ast_node) = handlebars_ast_helper_prepare_inverse_chain(parser, (yyvsp[-1].ast_node), (yyvsp[0].ast_node), NULL, &(yyloc));
     }
-#line 1960 "handlebars.tab.c"
+#line 1980 "handlebars.tab.c"
     break;
 
-  case 33: /* inverse_chain: open_inverse_chain  */
-#line 338 "handlebars.y"
+  case 34: /* inverse_chain: open_inverse_chain  */
+#line 343 "handlebars.y"
                        {
       (yyval.ast_node) = handlebars_ast_helper_prepare_inverse_chain(parser, (yyvsp[0].ast_node), NULL, NULL, &(yyloc));
     }
-#line 1968 "handlebars.tab.c"
+#line 1988 "handlebars.tab.c"
     break;
 
-  case 34: /* inverse_chain: inverse_and_program  */
-#line 341 "handlebars.y"
+  case 35: /* inverse_chain: inverse_and_program  */
+#line 346 "handlebars.y"
                         {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 1976 "handlebars.tab.c"
+#line 1996 "handlebars.tab.c"
     break;
 
-  case 35: /* inverse_and_program: INVERSE program  */
-#line 347 "handlebars.y"
+  case 36: /* inverse_and_program: INVERSE program  */
+#line 352 "handlebars.y"
                     {
       (yyval.ast_node) = handlebars_ast_node_ctor_inverse(parser, (yyvsp[0].ast_node), 0,
               handlebars_ast_helper_strip_flags((yyvsp[-1].string), (yyvsp[-1].string)), &(yyloc));
     }
-#line 1985 "handlebars.tab.c"
+#line 2005 "handlebars.tab.c"
     break;
 
-  case 36: /* inverse_and_program: INVERSE  */
-#line 351 "handlebars.y"
+  case 37: /* inverse_and_program: INVERSE  */
+#line 356 "handlebars.y"
             {
       struct handlebars_ast_node * program_node;
       program_node = handlebars_ast_node_ctor(CONTEXT, HANDLEBARS_AST_NODE_PROGRAM);
       (yyval.ast_node) = handlebars_ast_node_ctor_inverse(parser, program_node, 0,
               handlebars_ast_helper_strip_flags((yyvsp[0].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 1996 "handlebars.tab.c"
+#line 2016 "handlebars.tab.c"
     break;
 
-  case 37: /* close_block: OPEN_ENDBLOCK helper_name "}}"  */
-#line 360 "handlebars.y"
+  case 38: /* close_block: OPEN_ENDBLOCK helper_name "}}"  */
+#line 365 "handlebars.y"
                                     {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-1].ast_node), NULL, NULL,
               handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2005 "handlebars.tab.c"
+#line 2025 "handlebars.tab.c"
     break;
 
-  case 38: /* mustache: "{{" intermediate3 "}}"  */
-#line 367 "handlebars.y"
+  case 39: /* mustache: "{{" intermediate3 "}}"  */
+#line 372 "handlebars.y"
                              {
       (yyval.ast_node) = handlebars_ast_helper_prepare_mustache(parser, (yyvsp[-1].ast_node), (yyvsp[-2].string),
         			handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2014 "handlebars.tab.c"
+#line 2034 "handlebars.tab.c"
     break;
 
-  case 39: /* mustache: "{{{" intermediate3 "}}}"  */
-#line 371 "handlebars.y"
+  case 40: /* mustache: "{{{" intermediate3 "}}}"  */
+#line 376 "handlebars.y"
                                                  {
       (yyval.ast_node) = handlebars_ast_helper_prepare_mustache(parser, (yyvsp[-1].ast_node), (yyvsp[-2].string),
         			handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2023 "handlebars.tab.c"
+#line 2043 "handlebars.tab.c"
     break;
 
-  case 40: /* partial: "{{>" partial_name params hash "}}"  */
-#line 378 "handlebars.y"
+  case 41: /* partial: "{{>" partial_name params hash "}}"  */
+#line 383 "handlebars.y"
                                                 {
       (yyval.ast_node) = handlebars_ast_node_ctor_partial(parser, (yyvsp[-3].ast_node), (yyvsp[-2].ast_list), (yyvsp[-1].ast_node),
               handlebars_ast_helper_strip_flags((yyvsp[-4].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2032 "handlebars.tab.c"
+#line 2052 "handlebars.tab.c"
     break;
 
-  case 41: /* partial: "{{>" partial_name params "}}"  */
-#line 382 "handlebars.y"
+  case 42: /* partial: "{{>" partial_name params "}}"  */
+#line 387 "handlebars.y"
                                            {
       (yyval.ast_node) = handlebars_ast_node_ctor_partial(parser, (yyvsp[-2].ast_node), (yyvsp[-1].ast_list), NULL,
               handlebars_ast_helper_strip_flags((yyvsp[-3].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2041 "handlebars.tab.c"
+#line 2061 "handlebars.tab.c"
     break;
 
-  case 42: /* partial: "{{>" partial_name hash "}}"  */
-#line 386 "handlebars.y"
+  case 43: /* partial: "{{>" partial_name hash "}}"  */
+#line 391 "handlebars.y"
                                          {
       (yyval.ast_node) = handlebars_ast_node_ctor_partial(parser, (yyvsp[-2].ast_node), NULL, (yyvsp[-1].ast_node),
               handlebars_ast_helper_strip_flags((yyvsp[-3].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2050 "handlebars.tab.c"
+#line 2070 "handlebars.tab.c"
     break;
 
-  case 43: /* partial: "{{>" partial_name "}}"  */
-#line 390 "handlebars.y"
+  case 44: /* partial: "{{>" partial_name "}}"  */
+#line 395 "handlebars.y"
                                     {
       (yyval.ast_node) = handlebars_ast_node_ctor_partial(parser, (yyvsp[-1].ast_node), NULL, NULL,
               handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2059 "handlebars.tab.c"
+#line 2079 "handlebars.tab.c"
     break;
 
-  case 44: /* partial_block: open_partial_block program close_block  */
-#line 397 "handlebars.y"
+  case 45: /* partial_block: open_partial_block program close_block  */
+#line 402 "handlebars.y"
                                            {
       (yyval.ast_node) = handlebars_ast_helper_prepare_partial_block(parser, (yyvsp[-2].ast_node), (yyvsp[-1].ast_node), (yyvsp[0].ast_node), &(yyloc));
   }
-#line 2067 "handlebars.tab.c"
+#line 2087 "handlebars.tab.c"
     break;
 
-  case 45: /* partial_block: open_partial_block close_block  */
-#line 400 "handlebars.y"
+  case 46: /* partial_block: open_partial_block close_block  */
+#line 405 "handlebars.y"
                                    {
       struct handlebars_ast_node * program = handlebars_ast_node_ctor(CONTEXT, HANDLEBARS_AST_NODE_PROGRAM);
       (yyval.ast_node) = handlebars_ast_helper_prepare_partial_block(parser, (yyvsp[-1].ast_node), program, (yyvsp[0].ast_node), &(yyloc));
   }
-#line 2076 "handlebars.tab.c"
+#line 2096 "handlebars.tab.c"
     break;
 
-  case 46: /* open_partial_block: "{{#>" partial_name params hash "}}"  */
-#line 406 "handlebars.y"
+  case 47: /* open_partial_block: "{{#>" partial_name params hash "}}"  */
+#line 411 "handlebars.y"
                                                       {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-3].ast_node), (yyvsp[-2].ast_list), (yyvsp[-1].ast_node),
       			handlebars_ast_helper_strip_flags((yyvsp[-4].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2085 "handlebars.tab.c"
+#line 2105 "handlebars.tab.c"
     break;
 
-  case 47: /* open_partial_block: "{{#>" partial_name params "}}"  */
-#line 410 "handlebars.y"
+  case 48: /* open_partial_block: "{{#>" partial_name params "}}"  */
+#line 415 "handlebars.y"
                                                  {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-2].ast_node), (yyvsp[-1].ast_list), NULL,
       			handlebars_ast_helper_strip_flags((yyvsp[-3].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2094 "handlebars.tab.c"
+#line 2114 "handlebars.tab.c"
     break;
 
-  case 48: /* open_partial_block: "{{#>" partial_name hash "}}"  */
-#line 414 "handlebars.y"
+  case 49: /* open_partial_block: "{{#>" partial_name hash "}}"  */
+#line 419 "handlebars.y"
                                                {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-2].ast_node), NULL, (yyvsp[-1].ast_node),
               handlebars_ast_helper_strip_flags((yyvsp[-3].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2103 "handlebars.tab.c"
+#line 2123 "handlebars.tab.c"
     break;
 
-  case 49: /* open_partial_block: "{{#>" partial_name "}}"  */
-#line 418 "handlebars.y"
+  case 50: /* open_partial_block: "{{#>" partial_name "}}"  */
+#line 423 "handlebars.y"
                                           {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-1].ast_node), NULL, NULL,
               handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2112 "handlebars.tab.c"
+#line 2132 "handlebars.tab.c"
     break;
 
-  case 50: /* params: param  */
-#line 425 "handlebars.y"
+  case 51: /* params: param  */
+#line 430 "handlebars.y"
           {
       (yyval.ast_list) = handlebars_ast_list_ctor(CONTEXT);
       handlebars_ast_list_append((yyval.ast_list), (yyvsp[0].ast_node));
     }
-#line 2121 "handlebars.tab.c"
+#line 2141 "handlebars.tab.c"
     break;
 
-  case 51: /* params: params param  */
-#line 429 "handlebars.y"
+  case 52: /* params: params param  */
+#line 434 "handlebars.y"
                  {
       handlebars_ast_list_append((yyvsp[-1].ast_list), (yyvsp[0].ast_node));
       (yyval.ast_list) = (yyvsp[-1].ast_list);
     }
-#line 2130 "handlebars.tab.c"
+#line 2150 "handlebars.tab.c"
     break;
 
-  case 52: /* param: helper_name  */
-#line 436 "handlebars.y"
+  case 53: /* param: helper_name  */
+#line 441 "handlebars.y"
                 {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 2138 "handlebars.tab.c"
+#line 2158 "handlebars.tab.c"
     break;
 
-  case 53: /* param: sexpr  */
-#line 439 "handlebars.y"
+  case 54: /* param: sexpr  */
+#line 444 "handlebars.y"
           {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 2146 "handlebars.tab.c"
+#line 2166 "handlebars.tab.c"
     break;
 
-  case 54: /* sexpr: "(" intermediate3 ")"  */
-#line 445 "handlebars.y"
+  case 55: /* sexpr: "(" intermediate3 ")"  */
+#line 450 "handlebars.y"
                                          {
       (yyval.ast_node) = handlebars_ast_node_ctor_sexpr(parser, (yyvsp[-1].ast_node), &(yyloc));
     }
-#line 2154 "handlebars.tab.c"
+#line 2174 "handlebars.tab.c"
     break;
 
-  case 55: /* intermediate4: intermediate3 block_params  */
-#line 451 "handlebars.y"
+  case 56: /* intermediate4: intermediate3 block_params  */
+#line 456 "handlebars.y"
                                {
       (yyval.ast_node) = (yyvsp[-1].ast_node);
       (yyval.ast_node)->node.intermediate.block_param1 = (yyvsp[0].block_params).block_param1;
       (yyval.ast_node)->node.intermediate.block_param2 = (yyvsp[0].block_params).block_param2;
     }
-#line 2164 "handlebars.tab.c"
+#line 2184 "handlebars.tab.c"
     break;
 
-  case 57: /* intermediate3: helper_name params hash  */
-#line 460 "handlebars.y"
+  case 58: /* intermediate3: helper_name params hash  */
+#line 465 "handlebars.y"
                             {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-2].ast_node), (yyvsp[-1].ast_list), (yyvsp[0].ast_node), 0, &(yyloc));
     }
-#line 2172 "handlebars.tab.c"
+#line 2192 "handlebars.tab.c"
     break;
 
-  case 58: /* intermediate3: helper_name hash  */
-#line 463 "handlebars.y"
+  case 59: /* intermediate3: helper_name hash  */
+#line 468 "handlebars.y"
                      {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-1].ast_node), NULL, (yyvsp[0].ast_node), 0, &(yyloc));
     }
-#line 2180 "handlebars.tab.c"
+#line 2200 "handlebars.tab.c"
     break;
 
-  case 59: /* intermediate3: helper_name params  */
-#line 466 "handlebars.y"
+  case 60: /* intermediate3: helper_name params  */
+#line 471 "handlebars.y"
                        {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-1].ast_node), (yyvsp[0].ast_list), NULL, 0, &(yyloc));
     }
-#line 2188 "handlebars.tab.c"
+#line 2208 "handlebars.tab.c"
     break;
 
-  case 60: /* intermediate3: helper_name  */
-#line 469 "handlebars.y"
+  case 61: /* intermediate3: helper_name  */
+#line 474 "handlebars.y"
                 {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[0].ast_node), NULL, NULL, 0, &(yyloc));
     }
-#line 2196 "handlebars.tab.c"
+#line 2216 "handlebars.tab.c"
     break;
 
-  case 61: /* hash: hash_pairs  */
-#line 475 "handlebars.y"
+  case 62: /* hash: hash_pairs  */
+#line 480 "handlebars.y"
                {
       struct handlebars_ast_node * ast_node = handlebars_ast_node_ctor(CONTEXT, HANDLEBARS_AST_NODE_HASH);
       ast_node->node.hash.pairs = (yyvsp[0].ast_list);
       (yyval.ast_node) = ast_node;
     }
-#line 2206 "handlebars.tab.c"
+#line 2226 "handlebars.tab.c"
     break;
 
-  case 62: /* hash_pairs: hash_pairs hash_pair  */
-#line 483 "handlebars.y"
+  case 63: /* hash_pairs: hash_pairs hash_pair  */
+#line 488 "handlebars.y"
                          {
       handlebars_ast_list_append((yyvsp[-1].ast_list), (yyvsp[0].ast_node));
       (yyval.ast_list) = (yyvsp[-1].ast_list);
     }
-#line 2215 "handlebars.tab.c"
+#line 2235 "handlebars.tab.c"
     break;
 
-  case 63: /* hash_pairs: hash_pair  */
-#line 487 "handlebars.y"
+  case 64: /* hash_pairs: hash_pair  */
+#line 492 "handlebars.y"
               {
       (yyval.ast_list) = handlebars_ast_list_ctor(CONTEXT);
       handlebars_ast_list_append((yyval.ast_list), (yyvsp[0].ast_node));
     }
-#line 2224 "handlebars.tab.c"
+#line 2244 "handlebars.tab.c"
     break;
 
-  case 64: /* hash_pair: ID "=" param  */
-#line 494 "handlebars.y"
+  case 65: /* hash_pair: ID "=" param  */
+#line 499 "handlebars.y"
                     {
       (yyval.ast_node) = handlebars_ast_node_ctor_hash_pair(parser, (yyvsp[-2].string), (yyvsp[0].ast_node), &(yyloc));
     }
-#line 2232 "handlebars.tab.c"
+#line 2252 "handlebars.tab.c"
     break;
 
-  case 65: /* block_params: OPEN_BLOCK_PARAMS ID ID CLOSE_BLOCK_PARAMS  */
-#line 500 "handlebars.y"
+  case 66: /* block_params: OPEN_BLOCK_PARAMS ID ID CLOSE_BLOCK_PARAMS  */
+#line 505 "handlebars.y"
                                                {
       (yyval.block_params).block_param1 = handlebars_string_copy_ctor(CONTEXT, (yyvsp[-2].string));
       (yyval.block_params).block_param2 = handlebars_string_copy_ctor(CONTEXT, (yyvsp[-1].string));
     }
-#line 2241 "handlebars.tab.c"
+#line 2261 "handlebars.tab.c"
     break;
 
-  case 66: /* block_params: OPEN_BLOCK_PARAMS ID CLOSE_BLOCK_PARAMS  */
-#line 504 "handlebars.y"
+  case 67: /* block_params: OPEN_BLOCK_PARAMS ID CLOSE_BLOCK_PARAMS  */
+#line 509 "handlebars.y"
                                             {
       (yyval.block_params).block_param1 = handlebars_string_copy_ctor(CONTEXT, (yyvsp[-1].string));
       (yyval.block_params).block_param2 = NULL;
     }
-#line 2250 "handlebars.tab.c"
+#line 2270 "handlebars.tab.c"
     break;
 
-  case 67: /* helper_name: path  */
-#line 511 "handlebars.y"
+  case 68: /* helper_name: path  */
+#line 516 "handlebars.y"
          {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 2258 "handlebars.tab.c"
+#line 2278 "handlebars.tab.c"
     break;
 
-  case 68: /* helper_name: data_name  */
-#line 514 "handlebars.y"
+  case 69: /* helper_name: data_name  */
+#line 519 "handlebars.y"
               {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 2266 "handlebars.tab.c"
+#line 2286 "handlebars.tab.c"
     break;
 
-  case 69: /* helper_name: STRING  */
-#line 517 "handlebars.y"
+  case 70: /* helper_name: STRING  */
+#line 522 "handlebars.y"
            {
       (yyval.ast_node) = handlebars_ast_node_ctor_string(parser, (yyvsp[0].string), false, &(yyloc));
     }
-#line 2274 "handlebars.tab.c"
+#line 2294 "handlebars.tab.c"
     break;
 
-  case 70: /* helper_name: SINGLE_STRING  */
-#line 520 "handlebars.y"
+  case 71: /* helper_name: SINGLE_STRING  */
+#line 525 "handlebars.y"
                   {
       (yyval.ast_node) = handlebars_ast_node_ctor_string(parser, (yyvsp[0].string), true, &(yyloc));
   }
-#line 2282 "handlebars.tab.c"
+#line 2302 "handlebars.tab.c"
     break;
 
-  case 71: /* helper_name: NUMBER  */
-#line 523 "handlebars.y"
+  case 72: /* helper_name: NUMBER  */
+#line 528 "handlebars.y"
            {
       (yyval.ast_node) = handlebars_ast_node_ctor_number(parser, (yyvsp[0].string), &(yyloc));
     }
-#line 2290 "handlebars.tab.c"
+#line 2310 "handlebars.tab.c"
     break;
 
-  case 72: /* helper_name: BOOLEAN  */
-#line 526 "handlebars.y"
+  case 73: /* helper_name: BOOLEAN  */
+#line 531 "handlebars.y"
             {
       (yyval.ast_node) = handlebars_ast_node_ctor_boolean(parser, (yyvsp[0].string), &(yyloc));
     }
-#line 2298 "handlebars.tab.c"
+#line 2318 "handlebars.tab.c"
     break;
 
-  case 73: /* helper_name: "undefined"  */
-#line 529 "handlebars.y"
+  case 74: /* helper_name: "undefined"  */
+#line 534 "handlebars.y"
               {
       (yyval.ast_node) = handlebars_ast_node_ctor_undefined(parser, (yyvsp[0].string), &(yyloc));
     }
-#line 2306 "handlebars.tab.c"
+#line 2326 "handlebars.tab.c"
     break;
 
-  case 74: /* helper_name: "NULL"  */
-#line 532 "handlebars.y"
+  case 75: /* helper_name: "NULL"  */
+#line 537 "handlebars.y"
         {
       (yyval.ast_node) = handlebars_ast_node_ctor_null(parser, (yyvsp[0].string), &(yyloc));
     }
-#line 2314 "handlebars.tab.c"
+#line 2334 "handlebars.tab.c"
     break;
 
-  case 75: /* partial_name: helper_name  */
-#line 538 "handlebars.y"
+  case 76: /* partial_name: helper_name  */
+#line 543 "handlebars.y"
                 {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 2322 "handlebars.tab.c"
+#line 2342 "handlebars.tab.c"
     break;
 
-  case 76: /* partial_name: sexpr  */
-#line 541 "handlebars.y"
+  case 77: /* partial_name: sexpr  */
+#line 546 "handlebars.y"
           {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 2330 "handlebars.tab.c"
+#line 2350 "handlebars.tab.c"
     break;
 
-  case 77: /* data_name: DATA path_segments  */
-#line 547 "handlebars.y"
+  case 78: /* data_name: DATA path_segments  */
+#line 552 "handlebars.y"
                        {
       (yyval.ast_node) = handlebars_ast_helper_prepare_path(parser, (yyvsp[0].ast_list), 1, &(yyloc));
     }
-#line 2338 "handlebars.tab.c"
+#line 2358 "handlebars.tab.c"
     break;
 
-  case 78: /* path: path_segments  */
-#line 553 "handlebars.y"
+  case 79: /* path: path_segments  */
+#line 558 "handlebars.y"
                   {
       (yyval.ast_node) = handlebars_ast_helper_prepare_path(parser, (yyvsp[0].ast_list), 0, &(yyloc));
     }
-#line 2346 "handlebars.tab.c"
+#line 2366 "handlebars.tab.c"
     break;
 
-  case 79: /* path_segments: path_segments SEP ID  */
-#line 559 "handlebars.y"
+  case 80: /* path_segments: path_segments SEP ID  */
+#line 564 "handlebars.y"
                          {
       struct handlebars_ast_node * ast_node = handlebars_ast_node_ctor_path_segment(parser, (yyvsp[0].string), (yyvsp[-1].string), &(yyloc));
 
       handlebars_ast_list_append((yyvsp[-2].ast_list), ast_node);
       (yyval.ast_list) = (yyvsp[-2].ast_list);
     }
-#line 2357 "handlebars.tab.c"
+#line 2377 "handlebars.tab.c"
     break;
 
-  case 80: /* path_segments: ID  */
-#line 565 "handlebars.y"
+  case 81: /* path_segments: ID  */
+#line 570 "handlebars.y"
        {
       struct handlebars_ast_node * ast_node;
       MEMCHK((yyvsp[0].string)); // this is weird
@@ -2368,11 +2388,11 @@ yyreduce:
       (yyval.ast_list) = handlebars_ast_list_ctor(CONTEXT);
       handlebars_ast_list_append((yyval.ast_list), ast_node);
     }
-#line 2372 "handlebars.tab.c"
+#line 2392 "handlebars.tab.c"
     break;
 
 
-#line 2376 "handlebars.tab.c"
+#line 2396 "handlebars.tab.c"
 
       default: break;
     }
diff --git a/src/handlebars.y b/src/handlebars.y
index bcdc392..2e23ef5 100644
--- a/src/handlebars.y
+++ b/src/handlebars.y
@@ -190,6 +190,11 @@ start :
       handlebars_whitespace_accept(parser, parser->program);
       return 1;
     }
+  | END {
+      // An empty template is a program without statements
+      parser->program = handlebars_ast_node_ctor_program(parser, handlebars_ast_list_ctor(CONTEXT), NULL, NULL, 0, 0, &@$);
+      return 1;
+    }
   ;
 
 program :
-- 
2.43.0


From ba1888678cc11e259bc3dd65e30e002c8ec0629f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:54 +0000
Subject: [PATCH 23/90] fix: lookup helper ignored an array index given as a
 string

---
 src/handlebars_helpers.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_helpers.c b/src/handlebars_helpers.c
index e9ecf86..8f10b11 100644
--- a/src/handlebars_helpers.c
+++ b/src/handlebars_helpers.c
@@ -263,9 +263,15 @@ struct handlebars_value * handlebars_builtin_lookup(HANDLEBARS_HELPER_ARGS)
         (void) handlebars_value_map_find(context, key, rv);
         handlebars_string_delref(key);
     } else if( type == HANDLEBARS_VALUE_TYPE_ARRAY ) {
-        // @todo sscanf?
         if( handlebars_value_get_type(field) == HANDLEBARS_VALUE_TYPE_INTEGER ) {
             (void) handlebars_value_array_find(context, handlebars_value_get_intval(field), rv);
+        } else if( handlebars_value_get_type(field) == HANDLEBARS_VALUE_TYPE_STRING && handlebars_value_get_strlen(field) > 0 ) {
+            const char * index_str = handlebars_value_get_strval(field);
+            char * index_end = NULL;
+            long index = strtol(index_str, &index_end, 10);
+            if( index_end == index_str + handlebars_value_get_strlen(field) && index >= 0 ) {
+                (void) handlebars_value_array_find(context, index, rv);
+            }
         }
     }
 
-- 
2.43.0


From de77c5f40ec1555794382747af420d57ddccb28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:14 +0000
Subject: [PATCH 24/90] fix: @../ variables referred to the innermost loop
 instead of the enclosing one

---
 src/handlebars_helpers.c | 5 +++--
 src/handlebars_vm.c      | 7 +++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/handlebars_helpers.c b/src/handlebars_helpers.c
index 8f10b11..70a77b3 100644
--- a/src/handlebars_helpers.c
+++ b/src/handlebars_helpers.c
@@ -102,13 +102,14 @@ struct handlebars_value * handlebars_builtin_each(HANDLEBARS_HELPER_ARGS)
         handlebars_value_array(block_params, handlebars_stack_ctor(CONTEXT, 2));
 
         if( handlebars_value_get_type(options->data) == HANDLEBARS_VALUE_TYPE_MAP ) {
-            data_map = handlebars_map_ctor(CONTEXT, handlebars_value_count(options->data) + 4);
+            data_map = handlebars_map_ctor(CONTEXT, handlebars_value_count(options->data) + 5);
             HANDLEBARS_VALUE_FOREACH_KV(options->data, options_key, child) {
                 data_map = handlebars_map_update(data_map, options_key, child);
             } HANDLEBARS_VALUE_FOREACH_END();
         } else {
-            data_map = handlebars_map_ctor(CONTEXT, 4);
+            data_map = handlebars_map_ctor(CONTEXT, 5);
         }
+        data_map = handlebars_map_str_update(data_map, HBS_STRL("_parent"), options->data);
         handlebars_map_addref(data_map);
     }
 
diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index f3f41ce..92b9ccd 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -1018,9 +1018,12 @@ ACCEPT_FUNCTION(lookup_data)
     if( depth && data ) {
         while( data && depth-- ) {
             tmp = handlebars_value_map_str_find(data, HBS_STRL("_parent"), rv);
-            if (tmp != NULL) {
-                handlebars_value_value(data, tmp);
+            if (tmp == NULL) {
+                // there is no such frame
+                handlebars_value_null(data);
+                break;
             }
+            handlebars_value_value(data, tmp);
         }
     }
 
-- 
2.43.0


From 17effea517edc4fccff6bee7af7f315e947fcabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:21 +0000
Subject: [PATCH 25/90] fix: with, if includeZero and sections treated 0.0
 unlike 0

---
 src/handlebars_helpers.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/handlebars_helpers.c b/src/handlebars_helpers.c
index 70a77b3..5ba64ed 100644
--- a/src/handlebars_helpers.c
+++ b/src/handlebars_helpers.c
@@ -20,6 +20,7 @@
 #endif
 
 #include <assert.h>
+#include <stdlib.h>
 #include <string.h>
 
 #include "handlebars.h"
@@ -47,6 +48,15 @@ const size_t HANDLEBARS_OPTIONS_SIZE = sizeof(struct handlebars_options);
 #undef CONTEXT
 #define CONTEXT HBSCTX(vm)
 
+static inline bool is_zero_value(struct handlebars_value * value)
+{
+    switch( handlebars_value_get_type(value) ) {
+        case HANDLEBARS_VALUE_TYPE_INTEGER: return handlebars_value_get_intval(value) == 0;
+        case HANDLEBARS_VALUE_TYPE_FLOAT: return handlebars_value_get_floatval(value) == 0;
+        default: return false;
+    }
+}
+
 void handlebars_options_deinit(struct handlebars_options * options)
 {
     if (options->data) {
@@ -192,7 +202,7 @@ struct handlebars_value * handlebars_builtin_block_helper_missing(HANDLEBARS_HEL
     }
 
     context = &argv[0];
-    is_zero = handlebars_value_get_type(context) == HANDLEBARS_VALUE_TYPE_INTEGER && handlebars_value_get_intval(context) == 0;
+    is_zero = is_zero_value(context);
 
     if( handlebars_value_get_type(context) == HANDLEBARS_VALUE_TYPE_TRUE ) {
         result_str = handlebars_vm_execute_program(vm, options->program, options->scope);
@@ -301,8 +311,7 @@ struct handlebars_value * handlebars_builtin_if(HANDLEBARS_HELPER_ARGS)
 
     if( !handlebars_value_is_empty(conditional) ) {
         program = options->program;
-    } else if( handlebars_value_get_type(conditional) == HANDLEBARS_VALUE_TYPE_INTEGER &&
-            handlebars_value_get_intval(conditional) == 0 &&
+    } else if( is_zero_value(conditional) &&
             NULL != (include_zero = handlebars_value_map_str_find(options->hash, HBS_STRL("includeZero"), rv2)) &&
             !handlebars_value_is_empty(include_zero) ) {
         program = options->program;
@@ -355,7 +364,7 @@ struct handlebars_value * handlebars_builtin_with(HANDLEBARS_HELPER_ARGS)
 
     assert(context != NULL);
 
-    const bool is_zero = handlebars_value_get_type(context) == HANDLEBARS_VALUE_TYPE_INTEGER && handlebars_value_get_intval(context) == 0;
+    const bool is_zero = is_zero_value(context);
 
     if( handlebars_value_is_empty(context) && !is_zero ) {
         result_str = handlebars_vm_execute_program(vm, options->inverse, options->scope);
-- 
2.43.0


From 34585ef19142f71f4cd51f5040efca837ee1cfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:28 +0000
Subject: [PATCH 26/90] fix: unless ignored includeZero and never called a
 callable condition

---
 src/handlebars_helpers.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/handlebars_helpers.c b/src/handlebars_helpers.c
index 5ba64ed..c72a9a7 100644
--- a/src/handlebars_helpers.c
+++ b/src/handlebars_helpers.c
@@ -329,16 +329,16 @@ struct handlebars_value * handlebars_builtin_if(HANDLEBARS_HELPER_ARGS)
 
 struct handlebars_value * handlebars_builtin_unless(HANDLEBARS_HELPER_ARGS)
 {
-    struct handlebars_value * conditional;
+    long program;
 
     if (argc != 1) {
         handlebars_throw(CONTEXT, HANDLEBARS_ERROR, "#unless requires exactly one argument");
     }
 
-    conditional = &argv[0];
-    assert(conditional != NULL);
-
-    handlebars_value_boolean(conditional, handlebars_value_is_empty(conditional));
+    // The same condition as if, with the branches swapped
+    program = options->program;
+    options->program = options->inverse;
+    options->inverse = program;
 
     return handlebars_vm_call_helper_str(HBS_STRL("if"), HANDLEBARS_HELPER_ARGS_PASSTHRU);
 }
-- 
2.43.0


From c4f501802e074573f7b0c8da2b23336bee46f1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:27 +0000
Subject: [PATCH 27/90] fix: lexer: {{elsewhere}} was taken for an else tag

---
 src/handlebars.l     |    2 +-
 src/handlebars.lex.c | 1242 +++++++++++++++++++++---------------------
 2 files changed, 624 insertions(+), 620 deletions(-)

diff --git a/src/handlebars.l b/src/handlebars.l
index 4df22ff..17f9b0f 100644
--- a/src/handlebars.l
+++ b/src/handlebars.l
@@ -309,7 +309,7 @@ COM_REST  ([^-]|"-"+([^-~}]|"~"[^-}]|"~"?"}"[^-}]))
 										return OPEN_INVERSE;
                              		}
 
-<mu>"{{"{LEFT_STRIP}?{WHITESPACE}*"else"   	{
+<mu>"{{"{LEFT_STRIP}?{WHITESPACE}*"else"/[^a-zA-Z0-9_]   	{
 										// v2.0.0 handlebars.l line 76
 										handlebars_yy_copy_lval();
 										return OPEN_INVERSE_CHAIN;
diff --git a/src/handlebars.lex.c b/src/handlebars.lex.c
index b209718..490b833 100644
--- a/src/handlebars.lex.c
+++ b/src/handlebars.lex.c
@@ -599,9 +599,9 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const struct yy_trans_info yy_transition[21511] =
+static const struct yy_trans_info yy_transition[21514] =
     {
- {   0,   0 }, {   0,21255 }, {   0,   2 }, {   0,21253 }, {   1,3096 },
+ {   0,   0 }, {   0,21258 }, {   0,   2 }, {   0,21256 }, {   1,3096 },
  {   2,3096 }, {   3,3096 }, {   4,3096 }, {   5,3096 }, {   6,3096 },
  {   7,3096 }, {   8,3096 }, {   9,3096 }, {  10,3353 }, {  11,3096 },
  {  12,3096 }, {  13,3353 }, {  14,3096 }, {  15,3096 }, {  16,3096 },
@@ -658,7 +658,7 @@ static const struct yy_trans_info yy_transition[21511] =
 
  { 247,3096 }, { 248,3096 }, { 249,3096 }, { 250,3096 }, { 251,3096 },
  { 252,3096 }, { 253,3096 }, { 254,3096 }, { 255,3096 }, { 256,3359 },
- {   0,   2 }, {   0,20995 }, {   1,2838 }, {   2,2838 }, {   3,2838 },
+ {   0,   2 }, {   0,20998 }, {   1,2838 }, {   2,2838 }, {   3,2838 },
  {   4,2838 }, {   5,2838 }, {   6,2838 }, {   7,2838 }, {   8,2838 },
  {   9,2838 }, {  10,3095 }, {  11,2838 }, {  12,2838 }, {  13,3095 },
  {  14,2838 }, {  15,2838 }, {  16,2838 }, {  17,2838 }, {  18,2838 },
@@ -714,7 +714,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 239,2838 }, { 240,2838 }, { 241,2838 }, { 242,2838 }, { 243,2838 },
  { 244,2838 }, { 245,2838 }, { 246,2838 }, { 247,2838 }, { 248,2838 },
  { 249,2838 }, { 250,2838 }, { 251,2838 }, { 252,2838 }, { 253,2838 },
- { 254,2838 }, { 255,2838 }, { 256,3101 }, {   0,   0 }, {   0,20737 },
+ { 254,2838 }, { 255,2838 }, { 256,3101 }, {   0,   0 }, {   0,20740 },
  {   1,3223 }, {   2,3223 }, {   3,3223 }, {   4,3223 }, {   5,3223 },
  {   6,3223 }, {   7,3223 }, {   8,3223 }, {   9,2845 }, {  10,2852 },
  {  11,3223 }, {  12,3223 }, {  13,2845 }, {  14,3223 }, {  15,3223 },
@@ -771,7 +771,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 241,3223 }, { 242,3223 }, { 243,3223 }, { 244,3223 }, { 245,3223 },
  { 246,3223 }, { 247,3223 }, { 248,3223 }, { 249,3223 }, { 250,3223 },
  { 251,3223 }, { 252,3223 }, { 253,3223 }, { 254,3223 }, { 255,3223 },
- { 256,3223 }, {   0,   0 }, {   0,20479 }, {   1,2965 }, {   2,2965 },
+ { 256,3223 }, {   0,   0 }, {   0,20482 }, {   1,2965 }, {   2,2965 },
  {   3,2965 }, {   4,2965 }, {   5,2965 }, {   6,2965 }, {   7,2965 },
  {   8,2965 }, {   9,2587 }, {  10,2594 }, {  11,2965 }, {  12,2965 },
  {  13,2587 }, {  14,2965 }, {  15,2965 }, {  16,2965 }, {  17,2965 },
@@ -828,7 +828,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 243,2965 }, { 244,2965 }, { 245,2965 }, { 246,2965 }, { 247,2965 },
  { 248,2965 }, { 249,2965 }, { 250,2965 }, { 251,2965 }, { 252,2965 },
  { 253,2965 }, { 254,2965 }, { 255,2965 }, { 256,2965 }, {   0,   0 },
- {   0,20221 }, {   1,3792 }, {   2,3792 }, {   3,3792 }, {   4,3792 },
+ {   0,20224 }, {   1,3792 }, {   2,3792 }, {   3,3792 }, {   4,3792 },
  {   5,3792 }, {   6,3792 }, {   7,3792 }, {   8,3792 }, {   9,3792 },
  {  10,2327 }, {  11,3792 }, {  12,3792 }, {  13,3792 }, {  14,3792 },
 
@@ -884,7 +884,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 240,3792 }, { 241,3792 }, { 242,3792 }, { 243,3792 }, { 244,3792 },
  { 245,3792 }, { 246,3792 }, { 247,3792 }, { 248,3792 }, { 249,3792 },
  { 250,3792 }, { 251,3792 }, { 252,3792 }, { 253,3792 }, { 254,3792 },
- { 255,3792 }, { 256,3792 }, {   0,   0 }, {   0,19963 }, {   1,3534 },
+ { 255,3792 }, { 256,3792 }, {   0,   0 }, {   0,19966 }, {   1,3534 },
  {   2,3534 }, {   3,3534 }, {   4,3534 }, {   5,3534 }, {   6,3534 },
 
  {   7,3534 }, {   8,3534 }, {   9,3534 }, {  10,2069 }, {  11,3534 },
@@ -942,7 +942,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 247,3534 }, { 248,3534 }, { 249,3534 }, { 250,3534 }, { 251,3534 },
  { 252,3534 }, { 253,3534 }, { 254,3534 }, { 255,3534 }, { 256,3534 },
 
- {   0,   0 }, {   0,19705 }, {   1,1811 }, {   2,1811 }, {   3,1811 },
+ {   0,   0 }, {   0,19708 }, {   1,1811 }, {   2,1811 }, {   3,1811 },
  {   4,1811 }, {   5,1811 }, {   6,1811 }, {   7,1811 }, {   8,1811 },
  {   9,1811 }, {  10,1811 }, {  11,1811 }, {  12,1811 }, {  13,1811 },
  {  14,1811 }, {  15,1811 }, {  16,1811 }, {  17,1811 }, {  18,1811 },
@@ -998,7 +998,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 244,1811 }, { 245,1811 }, { 246,1811 }, { 247,1811 }, { 248,1811 },
 
  { 249,1811 }, { 250,1811 }, { 251,1811 }, { 252,1811 }, { 253,1811 },
- { 254,1811 }, { 255,1811 }, { 256,1811 }, {   0,   0 }, {   0,19447 },
+ { 254,1811 }, { 255,1811 }, { 256,1811 }, {   0,   0 }, {   0,19450 },
  {   1,1553 }, {   2,1553 }, {   3,1553 }, {   4,1553 }, {   5,1553 },
  {   6,1553 }, {   7,1553 }, {   8,1553 }, {   9,1553 }, {  10,1553 },
  {  11,1553 }, {  12,1553 }, {  13,1553 }, {  14,1553 }, {  15,1553 },
@@ -1055,7 +1055,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 241,1553 }, { 242,1553 }, { 243,1553 }, { 244,1553 }, { 245,1553 },
  { 246,1553 }, { 247,1553 }, { 248,1553 }, { 249,1553 }, { 250,1553 },
  { 251,1553 }, { 252,1553 }, { 253,1553 }, { 254,1553 }, { 255,1553 },
- { 256,1553 }, {   0,   0 }, {   0,19189 }, {   1,4595 }, {   2,4595 },
+ { 256,1553 }, {   0,   0 }, {   0,19192 }, {   1,4595 }, {   2,4595 },
  {   3,4595 }, {   4,4595 }, {   5,4595 }, {   6,4595 }, {   7,4595 },
  {   8,4595 }, {   9,4595 }, {  10,4595 }, {  11,4595 }, {  12,4595 },
  {  13,4595 }, {  14,4595 }, {  15,4595 }, {  16,4595 }, {  17,4595 },
@@ -1112,7 +1112,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 243,4595 }, { 244,4595 }, { 245,4595 }, { 246,4595 }, { 247,4595 },
  { 248,4595 }, { 249,4595 }, { 250,4595 }, { 251,4595 }, { 252,4595 },
  { 253,4595 }, { 254,4595 }, { 255,4595 }, { 256,4595 }, {   0,   0 },
- {   0,18931 }, {   1,4337 }, {   2,4337 }, {   3,4337 }, {   4,4337 },
+ {   0,18934 }, {   1,4337 }, {   2,4337 }, {   3,4337 }, {   4,4337 },
  {   5,4337 }, {   6,4337 }, {   7,4337 }, {   8,4337 }, {   9,4337 },
  {  10,4337 }, {  11,4337 }, {  12,4337 }, {  13,4337 }, {  14,4337 },
  {  15,4337 }, {  16,4337 }, {  17,4337 }, {  18,4337 }, {  19,4337 },
@@ -1168,7 +1168,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 240,4337 }, { 241,4337 }, { 242,4337 }, { 243,4337 }, { 244,4337 },
  { 245,4337 }, { 246,4337 }, { 247,4337 }, { 248,4337 }, { 249,4337 },
  { 250,4337 }, { 251,4337 }, { 252,4337 }, { 253,4337 }, { 254,4337 },
- { 255,4337 }, { 256,4337 }, {   0,   0 }, {   0,18673 }, {   1,4595 },
+ { 255,4337 }, { 256,4337 }, {   0,   0 }, {   0,18676 }, {   1,4595 },
  {   2,4595 }, {   3,4595 }, {   4,4595 }, {   5,4595 }, {   6,4595 },
  {   7,4595 }, {   8,4595 }, {   9,4595 }, {  10,4595 }, {  11,4595 },
  {  12,4595 }, {  13,4595 }, {  14,4595 }, {  15,4595 }, {  16,4595 },
@@ -1225,7 +1225,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 242,4595 }, { 243,4595 }, { 244,4595 }, { 245,4595 }, { 246,4595 },
  { 247,4595 }, { 248,4595 }, { 249,4595 }, { 250,4595 }, { 251,4595 },
  { 252,4595 }, { 253,4595 }, { 254,4595 }, { 255,4595 }, { 256, 779 },
- {   0,   0 }, {   0,18415 }, {   1,4337 }, {   2,4337 }, {   3,4337 },
+ {   0,   0 }, {   0,18418 }, {   1,4337 }, {   2,4337 }, {   3,4337 },
  {   4,4337 }, {   5,4337 }, {   6,4337 }, {   7,4337 }, {   8,4337 },
 
  {   9,4337 }, {  10,4337 }, {  11,4337 }, {  12,4337 }, {  13,4337 },
@@ -1281,7 +1281,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 239,4337 }, { 240,4337 }, { 241,4337 }, { 242,4337 }, { 243,4337 },
  { 244,4337 }, { 245,4337 }, { 246,4337 }, { 247,4337 }, { 248,4337 },
  { 249,4337 }, { 250,4337 }, { 251,4337 }, { 252,4337 }, { 253,4337 },
- { 254,4337 }, { 255,4337 }, { 256, 521 }, {   0,   2 }, {   0,18157 },
+ { 254,4337 }, { 255,4337 }, { 256, 521 }, {   0,   2 }, {   0,18160 },
 
  {   1,4461 }, {   2,4461 }, {   3,4461 }, {   4,4461 }, {   5,4461 },
  {   6,4461 }, {   7,4461 }, {   8,4461 }, {   9,4461 }, {  10,4338 },
@@ -1339,14 +1339,14 @@ static const struct yy_trans_info yy_transition[21511] =
  { 246,4461 }, { 247,4461 }, { 248,4461 }, { 249,4461 }, { 250,4461 },
 
  { 251,4461 }, { 252,4461 }, { 253,4461 }, { 254,4461 }, { 255,4461 },
- {   0,   2 }, {   0,17900 }, {   0,   6 }, {   0,17898 }, {   0,   6 },
- {   0,17896 }, {   0,  51 }, {   0,17894 }, {   0,  35 }, {   0,17892 },
+ {   0,   2 }, {   0,17903 }, {   0,   6 }, {   0,17901 }, {   0,   6 },
+ {   0,17899 }, {   0,  51 }, {   0,17897 }, {   0,  35 }, {   0,17895 },
  {   0,   0 }, {  10,4081 }, {   0,   0 }, {   0,   0 }, {  13,4081 },
- {   0,  35 }, {   0,17885 }, {   0,   0 }, {   9,4742 }, {  10,4742 },
- {   0,  50 }, {   0,17880 }, {  13,4742 }, {   0,  14 }, {   0,17877 },
- {   9,4735 }, {  10,4735 }, {   0,  15 }, {   0,17873 }, {  13,4735 },
- {   0,  34 }, {   0,17870 }, {   0,  31 }, {   0,17868 }, {   0,  40 },
- {   0,17866 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  35 }, {   0,17888 }, {   0,   0 }, {   9,4742 }, {  10,4742 },
+ {   0,  50 }, {   0,17883 }, {  13,4742 }, {   0,  14 }, {   0,17880 },
+ {   9,4735 }, {  10,4735 }, {   0,  15 }, {   0,17876 }, {  13,4735 },
+ {   0,  34 }, {   0,17873 }, {   0,  31 }, {   0,17871 }, {   0,  40 },
+ {   0,17869 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  32,4742 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,4735 }, {   0,   0 },
@@ -1367,7 +1367,7 @@ static const struct yy_trans_info yy_transition[21511] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, { 123,4461 }, {   0,   0 }, { 123,4461 }, {   0,   2 },
- {   0,17771 }, {   1,4075 }, {   2,4075 }, {   3,4075 }, {   4,4075 },
+ {   0,17774 }, {   1,4075 }, {   2,4075 }, {   3,4075 }, {   4,4075 },
  {   5,4075 }, {   6,4075 }, {   7,4075 }, {   8,4075 }, {   9,4075 },
  {  10,3952 }, {  11,4075 }, {  12,4075 }, {  13,3952 }, {  14,4075 },
 
@@ -1423,7 +1423,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 240,4075 }, { 241,4075 }, { 242,4075 }, { 243,4075 }, { 244,4075 },
  { 245,4075 }, { 246,4075 }, { 247,4075 }, { 248,4075 }, { 249,4075 },
  { 250,4075 }, { 251,4075 }, { 252,4075 }, { 253,4075 }, { 254,4075 },
- { 255,4075 }, {   0,  50 }, {   0,17514 }, {   1,4106 }, {   2,4106 },
+ { 255,4075 }, {   0,  50 }, {   0,17517 }, {   1,4106 }, {   2,4106 },
  {   3,4106 }, {   4,4106 }, {   5,4106 }, {   6,4106 }, {   7,4106 },
 
  {   8,4106 }, {   9,4081 }, {  10,4081 }, {  11,4106 }, {  12,4106 },
@@ -1481,7 +1481,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 248,4106 }, { 249,4106 }, { 250,4106 }, { 251,4106 }, { 252,4106 },
  { 253,4106 }, { 254,4106 }, { 255,4106 }, { 256,4106 }, {   0,  50 },
 
- {   0,17256 }, {   1,4140 }, {   2,4140 }, {   3,4140 }, {   4,4140 },
+ {   0,17259 }, {   1,4140 }, {   2,4140 }, {   3,4140 }, {   4,4140 },
  {   5,4140 }, {   6,4140 }, {   7,4140 }, {   8,4140 }, {   9,4140 },
  {  10,4140 }, {  11,4140 }, {  12,4140 }, {  13,4140 }, {  14,4140 },
  {  15,4140 }, {  16,4140 }, {  17,4140 }, {  18,4140 }, {  19,4140 },
@@ -1537,7 +1537,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 245,4140 }, { 246,4140 }, { 247,4140 }, { 248,4140 }, { 249,4140 },
 
  { 250,4140 }, { 251,4140 }, { 252,4140 }, { 253,4140 }, { 254,4140 },
- { 255,4140 }, { 256,4140 }, {   0,  50 }, {   0,16998 }, {   1,4398 },
+ { 255,4140 }, { 256,4140 }, {   0,  50 }, {   0,17001 }, {   1,4398 },
  {   2,4398 }, {   3,4398 }, {   4,4398 }, {   5,4398 }, {   6,4398 },
  {   7,4398 }, {   8,4398 }, {   9,4398 }, {  10,4398 }, {  11,4398 },
  {  12,4398 }, {  13,4398 }, {  14,4398 }, {  15,4398 }, {  16,4398 },
@@ -1594,7 +1594,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 242,4398 }, { 243,4398 }, { 244,4398 }, { 245,4398 }, { 246,4398 },
  { 247,4398 }, { 248,4398 }, { 249,4398 }, { 250,4398 }, { 251,4398 },
  { 252,4398 }, { 253,4398 }, { 254,4398 }, { 255,4398 }, { 256,4398 },
- {   0,  50 }, {   0,16740 }, {   1,3332 }, {   2,3332 }, {   3,3332 },
+ {   0,  50 }, {   0,16743 }, {   1,3332 }, {   2,3332 }, {   3,3332 },
  {   4,3332 }, {   5,3332 }, {   6,3332 }, {   7,3332 }, {   8,3332 },
  {   9,3307 }, {  10,3307 }, {  11,3332 }, {  12,3332 }, {  13,3307 },
  {  14,3332 }, {  15,3332 }, {  16,3332 }, {  17,3332 }, {  18,3332 },
@@ -1650,26 +1650,26 @@ static const struct yy_trans_info yy_transition[21511] =
  { 239,3332 }, { 240,3332 }, { 241,3332 }, { 242,3332 }, { 243,3332 },
  { 244,3332 }, { 245,3332 }, { 246,3332 }, { 247,3332 }, { 248,3332 },
  { 249,3332 }, { 250,3332 }, { 251,3332 }, { 252,3332 }, { 253,3332 },
- { 254,3332 }, { 255,3332 }, { 256,3332 }, {   0,  34 }, {   0,16482 },
+ { 254,3332 }, { 255,3332 }, { 256,3332 }, {   0,  34 }, {   0,16485 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,3338 }, {  10,3338 },
  {   0,   0 }, {   0,   0 }, {  13,3338 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,  50 }, {   0,16464 }, {   0,  42 }, {   0,16462 },
+ {   0,   0 }, {   0,  50 }, {   0,16467 }, {   0,  42 }, {   0,16465 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  32,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  41,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  46,3340 }, {  47,3338 }, {   0,  50 }, {   0,16433 }, {   0,  50 },
- {   0,16431 }, {   0,   7 }, {   0,16429 }, {   0,  51 }, {   0,16427 },
+ {  46,3340 }, {  47,3338 }, {   0,  50 }, {   0,16436 }, {   0,  50 },
+ {   0,16434 }, {   0,   7 }, {   0,16432 }, {   0,  51 }, {   0,16430 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  61,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,  50 }, {   0,16400 }, {   1,2992 }, {   2,2992 }, {   3,2992 },
+ {   0,  50 }, {   0,16403 }, {   1,2992 }, {   2,2992 }, {   3,2992 },
  {   4,2992 }, {   5,2992 }, {   6,2992 }, {   7,2992 }, {   8,2992 },
  {   9,3262 }, {  10,3262 }, {  11,2992 }, {  12,2992 }, {  13,3262 },
  {  14,2992 }, {  15,2992 }, {  16,2992 }, {  17,2992 }, {  18,2992 },
@@ -1725,7 +1725,7 @@ static const struct yy_trans_info yy_transition[21511] =
 
  { 244,2992 }, { 245,2992 }, { 246,2992 }, { 247,2992 }, { 248,2992 },
  { 249,2992 }, { 250,2992 }, { 251,2992 }, { 252,2992 }, { 253,2992 },
- { 254,2992 }, { 255,2992 }, { 256,2992 }, {   0,  50 }, {   0,16142 },
+ { 254,2992 }, { 255,2992 }, { 256,2992 }, {   0,  50 }, {   0,16145 },
  {   1,4375 }, {   2,4375 }, {   3,4375 }, {   4,4375 }, {   5,4375 },
  {   6,4375 }, {   7,4375 }, {   8,4375 }, {   9,4375 }, {  10,4375 },
  {  11,4375 }, {  12,4375 }, {  13,4375 }, {  14,4375 }, {  15,4375 },
@@ -1782,7 +1782,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 241,4375 }, { 242,4375 }, { 243,4375 }, { 244,4375 }, { 245,4375 },
  { 246,4375 }, { 247,4375 }, { 248,4375 }, { 249,4375 }, { 250,4375 },
  { 251,4375 }, { 252,4375 }, { 253,4375 }, { 254,4375 }, { 255,4375 },
- { 256,4375 }, {   0,  50 }, {   0,15884 }, {   1,2476 }, {   2,2476 },
+ { 256,4375 }, {   0,  50 }, {   0,15887 }, {   1,2476 }, {   2,2476 },
  {   3,2476 }, {   4,2476 }, {   5,2476 }, {   6,2476 }, {   7,2476 },
  {   8,2476 }, {   9,2451 }, {  10,2451 }, {  11,2476 }, {  12,2476 },
  {  13,2451 }, {  14,2476 }, {  15,2476 }, {  16,2476 }, {  17,2476 },
@@ -1839,7 +1839,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 243,2476 }, { 244,2476 }, { 245,2476 }, { 246,2476 }, { 247,2476 },
  { 248,2476 }, { 249,2476 }, { 250,2476 }, { 251,2476 }, { 252,2476 },
  { 253,2476 }, { 254,2476 }, { 255,2476 }, { 256,2476 }, {   0,  50 },
- {   0,15626 }, {   1,2218 }, {   2,2218 }, {   3,2218 }, {   4,2218 },
+ {   0,15629 }, {   1,2218 }, {   2,2218 }, {   3,2218 }, {   4,2218 },
  {   5,2218 }, {   6,2218 }, {   7,2218 }, {   8,2218 }, {   9,2193 },
  {  10,2193 }, {  11,2218 }, {  12,2218 }, {  13,2193 }, {  14,2218 },
  {  15,2218 }, {  16,2218 }, {  17,2218 }, {  18,2218 }, {  19,2218 },
@@ -1895,7 +1895,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 240,2218 }, { 241,2218 }, { 242,2218 }, { 243,2218 }, { 244,2218 },
  { 245,2218 }, { 246,2218 }, { 247,2218 }, { 248,2218 }, { 249,2218 },
  { 250,2218 }, { 251,2218 }, { 252,2218 }, { 253,2218 }, { 254,2218 },
- { 255,2218 }, { 256,2218 }, {   0,  50 }, {   0,15368 }, {   1,1960 },
+ { 255,2218 }, { 256,2218 }, {   0,  50 }, {   0,15371 }, {   1,1960 },
  {   2,1960 }, {   3,1960 }, {   4,1960 }, {   5,1960 }, {   6,1960 },
  {   7,1960 }, {   8,1960 }, {   9,1935 }, {  10,1935 }, {  11,1960 },
 
@@ -1952,7 +1952,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 242,1960 }, { 243,1960 }, { 244,1960 }, { 245,1960 }, { 246,1960 },
  { 247,1960 }, { 248,1960 }, { 249,1960 }, { 250,1960 }, { 251,1960 },
  { 252,1960 }, { 253,1960 }, { 254,1960 }, { 255,1960 }, { 256,1960 },
- {   0,  50 }, {   0,15110 }, {   1,1702 }, {   2,1702 }, {   3,1702 },
+ {   0,  50 }, {   0,15113 }, {   1,1702 }, {   2,1702 }, {   3,1702 },
 
  {   4,1702 }, {   5,1702 }, {   6,1702 }, {   7,1702 }, {   8,1702 },
  {   9,1677 }, {  10,1677 }, {  11,1702 }, {  12,1702 }, {  13,1677 },
@@ -2009,7 +2009,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 244,1702 }, { 245,1702 }, { 246,1702 }, { 247,1702 }, { 248,1702 },
  { 249,1702 }, { 250,1702 }, { 251,1702 }, { 252,1702 }, { 253,1702 },
 
- { 254,1702 }, { 255,1702 }, { 256,1702 }, {   0,  50 }, {   0,14852 },
+ { 254,1702 }, { 255,1702 }, { 256,1702 }, {   0,  50 }, {   0,14855 },
  {   1,1444 }, {   2,1444 }, {   3,1444 }, {   4,1444 }, {   5,1444 },
  {   6,1444 }, {   7,1444 }, {   8,1444 }, {   9,1419 }, {  10,1419 },
  {  11,1444 }, {  12,1444 }, {  13,1419 }, {  14,1444 }, {  15,1444 },
@@ -2066,7 +2066,7 @@ static const struct yy_trans_info yy_transition[21511] =
 
  { 246,1444 }, { 247,1444 }, { 248,1444 }, { 249,1444 }, { 250,1444 },
  { 251,1444 }, { 252,1444 }, { 253,1444 }, { 254,1444 }, { 255,1444 },
- { 256,1444 }, {   0,  51 }, {   0,14594 }, {   1,4769 }, {   2,4769 },
+ { 256,1444 }, {   0,  51 }, {   0,14597 }, {   1,4769 }, {   2,4769 },
  {   3,4769 }, {   4,4769 }, {   5,4769 }, {   6,4769 }, {   7,4769 },
  {   8,4769 }, {   9,4769 }, {  10,4769 }, {  11,4769 }, {  12,4769 },
  {  13,4769 }, {  14,4769 }, {  15,4769 }, {  16,4769 }, {  17,4769 },
@@ -2123,7 +2123,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 243,4769 }, { 244,4769 }, { 245,4769 }, { 246,4769 }, { 247,4769 },
  { 248,4769 }, { 249,4769 }, { 250,4769 }, { 251,4769 }, { 252,4769 },
  { 253,4769 }, { 254,4769 }, { 255,4769 }, { 256,4769 }, {   0,  51 },
- {   0,14336 }, {   1,4511 }, {   2,4511 }, {   3,4511 }, {   4,4511 },
+ {   0,14339 }, {   1,4511 }, {   2,4511 }, {   3,4511 }, {   4,4511 },
  {   5,4511 }, {   6,4511 }, {   7,4511 }, {   8,4511 }, {   9,4511 },
  {  10,4511 }, {  11,4511 }, {  12,4511 }, {  13,4511 }, {  14,4511 },
  {  15,4511 }, {  16,4511 }, {  17,4511 }, {  18,4511 }, {  19,4511 },
@@ -2179,7 +2179,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 240,4511 }, { 241,4511 }, { 242,4511 }, { 243,4511 }, { 244,4511 },
  { 245,4511 }, { 246,4511 }, { 247,4511 }, { 248,4511 }, { 249,4511 },
  { 250,4511 }, { 251,4511 }, { 252,4511 }, { 253,4511 }, { 254,4511 },
- { 255,4511 }, { 256,4511 }, {   0,  10 }, {   0,14078 }, {   1,4769 },
+ { 255,4511 }, { 256,4511 }, {   0,  10 }, {   0,14081 }, {   1,4769 },
  {   2,4769 }, {   3,4769 }, {   4,4769 }, {   5,4769 }, {   6,4769 },
  {   7,4769 }, {   8,4769 }, {   9,4769 }, {  10,4769 }, {  11,4769 },
  {  12,4769 }, {  13,4769 }, {  14,4769 }, {  15,4769 }, {  16,4769 },
@@ -2236,7 +2236,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 242,4769 }, { 243,4769 }, { 244,4769 }, { 245,4769 }, { 246,4769 },
  { 247,4769 }, { 248,4769 }, { 249,4769 }, { 250,4769 }, { 251,4769 },
  { 252,4769 }, { 253,4769 }, { 254,4769 }, { 255,4769 }, {   0,  11 },
- {   0,13821 }, {   0,   2 }, {   0,13819 }, {   0,   0 }, {   0,13817 },
+ {   0,13824 }, {   0,   2 }, {   0,13822 }, {   0,   0 }, {   0,13820 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 },
 
@@ -2264,7 +2264,7 @@ static const struct yy_trans_info yy_transition[21511] =
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,4769 }, {   0,   2 },
- {   0,13696 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
+ {   0,13699 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
  {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
  {  10,-123 }, {  11,   0 }, {  12,   0 }, {  13,-123 }, {  14,   0 },
  {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
@@ -2320,13 +2320,13 @@ static const struct yy_trans_info yy_transition[21511] =
  { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
  { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
  { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
- { 255,   0 }, {   0,   0 }, {   0,13439 }, {   0,   0 }, {   0,13437 },
- {   0,   5 }, {   0,13435 }, {   0,  48 }, {   0,13433 }, {   0,   0 },
+ { 255,   0 }, {   0,   0 }, {   0,13442 }, {   0,   0 }, {   0,13440 },
+ {   0,   5 }, {   0,13438 }, {   0,  48 }, {   0,13436 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,13408 }, {   1,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,13411 }, {   1,   0 },
 
  {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
  {   7,   0 }, {   8,   0 }, {   9, -25 }, {  10, -25 }, {  11,   0 },
@@ -2384,14 +2384,14 @@ static const struct yy_trans_info yy_transition[21511] =
  { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
 
  { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
- {   0,  35 }, {   0,13150 }, {   0,  38 }, {   0,13148 }, {   0,  39 },
- {   0,13146 }, {   0,  33 }, {   0,13144 }, {   0,  32 }, {   0,13142 },
- {   9,   0 }, {  10,   0 }, {   0,  47 }, {   0,13138 }, {  13,   0 },
- {   0,  49 }, {   0,13135 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  35 }, {   0,13153 }, {   0,  38 }, {   0,13151 }, {   0,  39 },
+ {   0,13149 }, {   0,  33 }, {   0,13147 }, {   0,  32 }, {   0,13145 },
+ {   9,   0 }, {  10,   0 }, {   0,  47 }, {   0,13141 }, {  13,   0 },
+ {   0,  49 }, {   0,13138 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 },
- {   0,13116 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
+ {   0,13119 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
  {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
 
  {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 }, {  14,   0 },
@@ -2447,7 +2447,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
  { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
  { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
- { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,12858 }, {   1,-258 },
+ { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,12861 }, {   1,-258 },
 
  {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 },
  {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 },
@@ -2505,7 +2505,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 },
 
  { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 },
- {   0,   0 }, {   0,12600 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   0,   0 }, {   0,12603 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
  {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
  {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
  {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
@@ -2561,7 +2561,7 @@ static const struct yy_trans_info yy_transition[21511] =
 
  { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
  { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,12342 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,12345 },
  {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
  {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
  {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 },
@@ -2618,7 +2618,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
  { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
  { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
- { 256,-258 }, {   0,   0 }, {   0,12084 }, {   1,-1324 }, {   2,-1324 },
+ { 256,-258 }, {   0,   0 }, {   0,12087 }, {   1,-1324 }, {   2,-1324 },
  {   3,-1324 }, {   4,-1324 }, {   5,-1324 }, {   6,-1324 }, {   7,-1324 },
  {   8,-1324 }, {   9,-1054 }, {  10,-1054 }, {  11,-1324 }, {  12,-1324 },
  {  13,-1054 }, {  14,-1324 }, {  15,-1324 }, {  16,-1324 }, {  17,-1324 },
@@ -2675,7 +2675,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 243,-1324 }, { 244,-1324 }, { 245,-1324 }, { 246,-1324 }, { 247,-1324 },
  { 248,-1324 }, { 249,-1324 }, { 250,-1324 }, { 251,-1324 }, { 252,-1324 },
  { 253,-1324 }, { 254,-1324 }, { 255,-1324 }, { 256,-1324 }, {   0,  48 },
- {   0,11826 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,11829 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -2687,7 +2687,7 @@ static const struct yy_trans_info yy_transition[21511] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  48,3676 }, {  49,3676 },
  {  50,3676 }, {  51,3676 }, {  52,3676 }, {  53,3676 }, {  54,3676 },
- {  55,3676 }, {  56,3676 }, {  57,3676 }, {   0,   0 }, {   0,11767 },
+ {  55,3676 }, {  56,3676 }, {  57,3676 }, {   0,   0 }, {   0,11770 },
  {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 },
  {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,   0 },
 
@@ -2744,7 +2744,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 },
  { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 },
  { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 },
- { 256,   0 }, {   0,   0 }, {   0,11509 }, {   1,-258 }, {   2,-258 },
+ { 256,   0 }, {   0,   0 }, {   0,11512 }, {   1,-258 }, {   2,-258 },
 
  {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 }, {   7,-258 },
  {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 }, {  12,-258 },
@@ -2802,7 +2802,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 }, { 252,-258 },
 
  { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 }, {   0,   0 },
- {   0,11251 }, {   1,-2157 }, {   2,-2157 }, {   3,-2157 }, {   4,-2157 },
+ {   0,11254 }, {   1,-2157 }, {   2,-2157 }, {   3,-2157 }, {   4,-2157 },
  {   5,-2157 }, {   6,-2157 }, {   7,-2157 }, {   8,-2157 }, {   9,3487 },
  {  10,3487 }, {  11,-2157 }, {  12,-2157 }, {  13,3487 }, {  14,-2157 },
  {  15,-2157 }, {  16,-2157 }, {  17,-2157 }, {  18,-2157 }, {  19,-2157 },
@@ -2858,7 +2858,7 @@ static const struct yy_trans_info yy_transition[21511] =
 
  { 245,-2157 }, { 246,-2157 }, { 247,-2157 }, { 248,-2157 }, { 249,-2157 },
  { 250,-2157 }, { 251,-2157 }, { 252,-2157 }, { 253,-2157 }, { 254,-2157 },
- { 255,-2157 }, { 256,-2157 }, {   0,   0 }, {   0,10993 }, {   1,-2415 },
+ { 255,-2157 }, { 256,-2157 }, {   0,   0 }, {   0,10996 }, {   1,-2415 },
  {   2,-2415 }, {   3,-2415 }, {   4,-2415 }, {   5,-2415 }, {   6,-2415 },
  {   7,-2415 }, {   8,-2415 }, {   9,-2440 }, {  10,-2440 }, {  11,-2415 },
  {  12,-2415 }, {  13,-2440 }, {  14,-2415 }, {  15,-2415 }, {  16,-2415 },
@@ -2915,7 +2915,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 242,-2415 }, { 243,-2415 }, { 244,-2415 }, { 245,-2415 }, { 246,-2415 },
  { 247,-2415 }, { 248,-2415 }, { 249,-2415 }, { 250,-2415 }, { 251,-2415 },
  { 252,-2415 }, { 253,-2415 }, { 254,-2415 }, { 255,-2415 }, { 256,-2415 },
- {   0,   0 }, {   0,10735 }, {   1,-2673 }, {   2,-2673 }, {   3,-2673 },
+ {   0,   0 }, {   0,10738 }, {   1,-2673 }, {   2,-2673 }, {   3,-2673 },
  {   4,-2673 }, {   5,-2673 }, {   6,-2673 }, {   7,-2673 }, {   8,-2673 },
  {   9,-2698 }, {  10,-2698 }, {  11,-2673 }, {  12,-2673 }, {  13,-2698 },
  {  14,-2673 }, {  15,-2673 }, {  16,-2673 }, {  17,-2673 }, {  18,-2673 },
@@ -2971,7 +2971,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 239,-2673 }, { 240,-2673 }, { 241,-2673 }, { 242,-2673 }, { 243,-2673 },
  { 244,-2673 }, { 245,-2673 }, { 246,-2673 }, { 247,-2673 }, { 248,-2673 },
  { 249,-2673 }, { 250,-2673 }, { 251,-2673 }, { 252,-2673 }, { 253,-2673 },
- { 254,-2673 }, { 255,-2673 }, { 256,-2673 }, {   0,   0 }, {   0,10477 },
+ { 254,-2673 }, { 255,-2673 }, { 256,-2673 }, {   0,   0 }, {   0,10480 },
  {   1,-2931 }, {   2,-2931 }, {   3,-2931 }, {   4,-2931 }, {   5,-2931 },
  {   6,-2931 }, {   7,-2931 }, {   8,-2931 }, {   9,-2956 }, {  10,-2956 },
  {  11,-2931 }, {  12,-2931 }, {  13,-2956 }, {  14,-2931 }, {  15,-2931 },
@@ -3028,7 +3028,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 241,-2931 }, { 242,-2931 }, { 243,-2931 }, { 244,-2931 }, { 245,-2931 },
  { 246,-2931 }, { 247,-2931 }, { 248,-2931 }, { 249,-2931 }, { 250,-2931 },
  { 251,-2931 }, { 252,-2931 }, { 253,-2931 }, { 254,-2931 }, { 255,-2931 },
- { 256,-2931 }, {   0,   0 }, {   0,10219 }, {   1,-3189 }, {   2,-3189 },
+ { 256,-2931 }, {   0,   0 }, {   0,10222 }, {   1,-3189 }, {   2,-3189 },
  {   3,-3189 }, {   4,-3189 }, {   5,-3189 }, {   6,-3189 }, {   7,-3189 },
  {   8,-3189 }, {   9,-3214 }, {  10,-3214 }, {  11,-3189 }, {  12,-3189 },
 
@@ -3085,10 +3085,10 @@ static const struct yy_trans_info yy_transition[21511] =
  { 243,-3189 }, { 244,-3189 }, { 245,-3189 }, { 246,-3189 }, { 247,-3189 },
  { 248,-3189 }, { 249,-3189 }, { 250,-3189 }, { 251,-3189 }, { 252,-3189 },
  { 253,-3189 }, { 254,-3189 }, { 255,-3189 }, { 256,-3189 }, {   0,  30 },
- {   0,9961 }, {   0,  37 }, {   0,9959 }, {   0,   0 }, {   0,9957 },
+ {   0,9964 }, {   0,  37 }, {   0,9962 }, {   0,   0 }, {   0,9960 },
 
- {   0,   0 }, {   0,9955 }, {   0,   0 }, {   0,9953 }, {   9,3289 },
- {  10,3289 }, {   0,  13 }, {   0,9949 }, {  13,3289 }, {   0,   0 },
+ {   0,   0 }, {   0,9958 }, {   0,   0 }, {   0,9956 }, {   9,3289 },
+ {  10,3289 }, {   0,  13 }, {   0,9952 }, {  13,3289 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3115,7 +3115,7 @@ static const struct yy_trans_info yy_transition[21511] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,2225 }, {   0,   0 },
  {   0,   0 }, { 126,3297 }, { 125,2226 }, {   0,   0 }, { 125,2251 },
  {   0,   0 }, { 125,2285 }, {   0,   0 }, {   0,   0 }, { 126,2309 },
- {   0,   0 }, {   0,9825 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   0,   0 }, {   0,9828 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
  {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
  {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
  {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
@@ -3171,7 +3171,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
  { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
  { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,9567 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,9570 },
  {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
  {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
 
@@ -3228,7 +3228,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
  { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
  { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
- { 256,-258 }, {   0,  10 }, {   0,9309 }, {   1,   0 }, {   2,   0 },
+ { 256,-258 }, {   0,  10 }, {   0,9312 }, {   1,   0 }, {   2,   0 },
 
  {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
  {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 },
@@ -3285,11 +3285,11 @@ static const struct yy_trans_info yy_transition[21511] =
  { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
  { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
 
- { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   0 }, {   0,9052 },
- {   0,   0 }, {   0,9050 }, {   0,   0 }, {   0,9048 }, {   0,   5 },
- {   0,9046 }, {   0,  29 }, {   0,9044 }, {   0,  20 }, {   0,9042 },
- {   0,  27 }, {   0,9040 }, {   0,  30 }, {   0,9038 }, {   0,  21 },
- {   0,9036 }, {   0,  18 }, {   0,9034 }, {   0,   0 }, {   0,   0 },
+ { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   0 }, {   0,9055 },
+ {   0,   0 }, {   0,9053 }, {   0,   0 }, {   0,9051 }, {   0,   5 },
+ {   0,9049 }, {   0,  29 }, {   0,9047 }, {   0,  20 }, {   0,9045 },
+ {   0,  27 }, {   0,9043 }, {   0,  30 }, {   0,9041 }, {   0,  21 },
+ {   0,9039 }, {   0,  18 }, {   0,9037 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3310,10 +3310,10 @@ static const struct yy_trans_info yy_transition[21511] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,8939 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,8942 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, { 123,2386 }, {   0,   0 }, { 123,2769 },
- {   0,   0 }, { 123,2769 }, {   0,   4 }, {   0,8923 }, {   1,2769 },
+ {   0,   0 }, { 123,2769 }, {   0,   4 }, {   0,8926 }, {   1,2769 },
  {   2,2769 }, {   3,2769 }, {   4,2769 }, {   5,2769 }, {   6,2769 },
  {   7,2769 }, {   8,2769 }, {   9,2769 }, {  10,2646 }, {  11,2769 },
  {  12,2769 }, {  13,2646 }, {  14,2769 }, {  15,2769 }, {  16,2769 },
@@ -3370,7 +3370,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 242,2769 }, { 243,2769 }, { 244,2769 }, { 245,2769 }, { 246,2769 },
  { 247,2769 }, { 248,2769 }, { 249,2769 }, { 250,2769 }, { 251,2769 },
  { 252,2769 }, { 253,2769 }, { 254,2769 }, { 255,2769 }, {   0,  38 },
- {   0,8666 }, {   1,-4450 }, {   2,-4450 }, {   3,-4450 }, {   4,-4450 },
+ {   0,8669 }, {   1,-4450 }, {   2,-4450 }, {   3,-4450 }, {   4,-4450 },
  {   5,-4450 }, {   6,-4450 }, {   7,-4450 }, {   8,-4450 }, {   9,-4450 },
 
  {  10,-4450 }, {  11,-4450 }, {  12,-4450 }, {  13,-4450 }, {  14,-4450 },
@@ -3426,7 +3426,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 240,-4450 }, { 241,-4450 }, { 242,-4450 }, { 243,-4450 }, { 244,-4450 },
  { 245,-4450 }, { 246,-4450 }, { 247,-4450 }, { 248,-4450 }, { 249,-4450 },
  { 250,-4450 }, { 251,-4450 }, { 252,-4450 }, { 253,-4450 }, { 254,-4450 },
- { 255,-4450 }, { 256,-4450 }, {   0,  39 }, {   0,8408 }, {   1,-4192 },
+ { 255,-4450 }, { 256,-4450 }, {   0,  39 }, {   0,8411 }, {   1,-4192 },
 
  {   2,-4192 }, {   3,-4192 }, {   4,-4192 }, {   5,-4192 }, {   6,-4192 },
  {   7,-4192 }, {   8,-4192 }, {   9,-4192 }, {  10,-4192 }, {  11,-4192 },
@@ -3484,7 +3484,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 247,-4192 }, { 248,-4192 }, { 249,-4192 }, { 250,-4192 }, { 251,-4192 },
 
  { 252,-4192 }, { 253,-4192 }, { 254,-4192 }, { 255,-4192 }, { 256,-4192 },
- {   0,   0 }, {   0,8150 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,8153 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   9,1875 }, {  10,1875 }, {   0,   0 }, {   0,   0 }, {  13,1875 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3511,7 +3511,7 @@ static const struct yy_trans_info yy_transition[21511] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 125,1875 }, { 126,1875 }, {   0,  49 }, {   0,8022 },
+ {   0,   0 }, { 125,1875 }, { 126,1875 }, {   0,  49 }, {   0,8025 },
  {   1,-3745 }, {   2,-3745 }, {   3,-3745 }, {   4,-3745 }, {   5,-3745 },
  {   6,-3745 }, {   7,-3745 }, {   8,-3745 }, {   9,-3745 }, {  10,-3745 },
  {  11,-3745 }, {  12,-3745 }, {  13,-3745 }, {  14,-3745 }, {  15,-3745 },
@@ -3568,34 +3568,34 @@ static const struct yy_trans_info yy_transition[21511] =
  { 241,-3745 }, { 242,-3745 }, { 243,-3745 }, { 244,-3745 }, { 245,-3745 },
  { 246,-3745 }, { 247,-3745 }, { 248,-3745 }, { 249,-3745 }, { 250,-3745 },
  { 251,-3745 }, { 252,-3745 }, { 253,-3745 }, { 254,-3745 }, { 255,-3745 },
- { 256,-3745 }, {   0,  48 }, {   0,7764 }, {   0,   0 }, {   0,   0 },
+ { 256,-3745 }, {   0,  48 }, {   0,7767 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   9,2124 }, {  10,2124 }, {   0,   0 }, {   0,   0 },
  {  13,2124 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,  26 },
- {   0,7736 }, {   0,   0 }, {   0,  36 }, {   0,7733 }, {  32,2124 },
+ {   0,7739 }, {   0,   0 }, {   0,  36 }, {   0,7736 }, {  32,2124 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
- {   0,7706 }, {   0,   0 }, {   0,7704 }, {   1,-5704 }, {   2,-5704 },
+ {   0,7709 }, {   0,   0 }, {   0,7707 }, {   1,-5704 }, {   2,-5704 },
  {   3,-5704 }, {   4,-5704 }, {   5,-5704 }, {   6,-5704 }, {   7,-5704 },
  {   8,-5704 }, {   9,-5729 }, {  10,-5729 }, {  11,-5704 }, {  12,-5704 },
  {  13,-5729 }, {  14,-5704 }, {  15,-5704 }, {  16,-5704 }, {  17,-5704 },
  {  18,-5704 }, {  19,-5704 }, {  20,-5704 }, {  21,-5704 }, {  22,-5704 },
  {  23,-5704 }, {  24,-5704 }, {  25,-5704 }, {  26,-5704 }, {  27,-5704 },
  {  28,-5704 }, {  29,-5704 }, {  30,-5704 }, {  31,-5704 }, {  32,-5729 },
- {   0,  37 }, {   0,7670 }, {   0,   0 }, {  36,-5704 }, {   0,   0 },
+ {   0,  37 }, {   0,7673 }, {   0,   0 }, {  36,-5704 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-5729 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  45,-5704 }, {  46,-5729 }, {  47,-5729 },
 
  {  48,-5704 }, {  49,-5704 }, {  50,-5704 }, {  51,-5704 }, {  52,-5704 },
  {  53,-5704 }, {  54,-5704 }, {  55,-5704 }, {  56,-5704 }, {  57,-5704 },
- {  58,-5704 }, {   0,   0 }, {   0,7644 }, {  61,-5729 }, {   0,   0 },
+ {  58,-5704 }, {   0,   0 }, {   0,7647 }, {  61,-5729 }, {   0,   0 },
  {  63,-5704 }, { 124,1491 }, {  65,-5704 }, {  66,-5704 }, {  67,-5704 },
  {  68,-5704 }, {  69,-5704 }, {  70,-5704 }, {  71,-5704 }, {  72,-5704 },
  {  73,-5704 }, {  74,-5704 }, {  75,-5704 }, {  76,-5704 }, {  77,-5704 },
@@ -3639,7 +3639,7 @@ static const struct yy_trans_info yy_transition[21511] =
 
  { 248,-5704 }, { 249,-5704 }, { 250,-5704 }, { 251,-5704 }, { 252,-5704 },
  { 253,-5704 }, { 254,-5704 }, { 255,-5704 }, { 256,-5704 }, {   0,   0 },
- {   0,7446 }, {   1,-5962 }, {   2,-5962 }, {   3,-5962 }, {   4,-5962 },
+ {   0,7449 }, {   1,-5962 }, {   2,-5962 }, {   3,-5962 }, {   4,-5962 },
  {   5,-5962 }, {   6,-5962 }, {   7,-5962 }, {   8,-5962 }, {   9,-5987 },
  {  10,-5987 }, {  11,-5962 }, {  12,-5962 }, {  13,-5987 }, {  14,-5962 },
  {  15,-5962 }, {  16,-5962 }, {  17,-5962 }, {  18,-5962 }, {  19,-5962 },
@@ -3695,7 +3695,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 240,-5962 }, { 241,-5962 }, { 242,-5962 }, { 243,-5962 }, { 244,-5962 },
  { 245,-5962 }, { 246,-5962 }, { 247,-5962 }, { 248,-5962 }, { 249,-5962 },
  { 250,-5962 }, { 251,-5962 }, { 252,-5962 }, { 253,-5962 }, { 254,-5962 },
- { 255,-5962 }, { 256,-5962 }, {   0,   0 }, {   0,7188 }, {   1,-6220 },
+ { 255,-5962 }, { 256,-5962 }, {   0,   0 }, {   0,7191 }, {   1,-6220 },
  {   2,-6220 }, {   3,-6220 }, {   4,-6220 }, {   5,-6220 }, {   6,-6220 },
  {   7,-6220 }, {   8,-6220 }, {   9,-6245 }, {  10,-6245 }, {  11,-6220 },
  {  12,-6220 }, {  13,-6245 }, {  14,-6220 }, {  15,-6220 }, {  16,-6220 },
@@ -3752,7 +3752,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 242,-6220 }, { 243,-6220 }, { 244,-6220 }, { 245,-6220 }, { 246,-6220 },
  { 247,-6220 }, { 248,-6220 }, { 249,-6220 }, { 250,-6220 }, { 251,-6220 },
  { 252,-6220 }, { 253,-6220 }, { 254,-6220 }, { 255,-6220 }, { 256,-6220 },
- {   0,   0 }, {   0,6930 }, {   1,-6478 }, {   2,-6478 }, {   3,-6478 },
+ {   0,   0 }, {   0,6933 }, {   1,-6478 }, {   2,-6478 }, {   3,-6478 },
  {   4,-6478 }, {   5,-6478 }, {   6,-6478 }, {   7,-6478 }, {   8,-6478 },
  {   9,-6503 }, {  10,-6503 }, {  11,-6478 }, {  12,-6478 }, {  13,-6503 },
  {  14,-6478 }, {  15,-6478 }, {  16,-6478 }, {  17,-6478 }, {  18,-6478 },
@@ -3808,9 +3808,9 @@ static const struct yy_trans_info yy_transition[21511] =
  { 239,-6478 }, { 240,-6478 }, { 241,-6478 }, { 242,-6478 }, { 243,-6478 },
  { 244,-6478 }, { 245,-6478 }, { 246,-6478 }, { 247,-6478 }, { 248,-6478 },
  { 249,-6478 }, { 250,-6478 }, { 251,-6478 }, { 252,-6478 }, { 253,-6478 },
- { 254,-6478 }, { 255,-6478 }, { 256,-6478 }, {   0,   0 }, {   0,6672 },
- {   0,  24 }, {   0,6670 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,6666 }, {   0,  30 }, {   0,6664 }, {   9,   0 }, {  10,   0 },
+ { 254,-6478 }, { 255,-6478 }, { 256,-6478 }, {   0,   0 }, {   0,6675 },
+ {   0,  24 }, {   0,6673 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,6669 }, {   0,  30 }, {   0,6667 }, {   9,   0 }, {  10,   0 },
  {   9,2122 }, {  10,2122 }, {  13,   0 }, {   0,   0 }, {  13,2122 },
 
  {   0,   0 }, {   9,  -8 }, {  10,  -8 }, {   0,   0 }, {   0,   0 },
@@ -3838,7 +3838,7 @@ static const struct yy_trans_info yy_transition[21511] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, { 125, 483 }, { 126,1056 }, { 123,2762 }, {   0,   0 },
- { 123,1065 }, {   0,   0 }, {   0,6539 }, {   1,2119 }, {   2,2119 },
+ { 123,1065 }, {   0,   0 }, {   0,6542 }, {   1,2119 }, {   2,2119 },
  {   3,2119 }, {   4,2119 }, {   5,2119 }, {   6,2119 }, {   7,2119 },
  {   8,2119 }, {   9,2119 }, {  10,2119 }, {  11,2119 }, {  12,2119 },
  {  13,2119 }, {  14,2119 }, {  15,2119 }, {  16,2119 }, {  17,2119 },
@@ -3895,10 +3895,10 @@ static const struct yy_trans_info yy_transition[21511] =
  { 243,2119 }, { 244,2119 }, { 245,2119 }, { 246,2119 }, { 247,2119 },
  { 248,2119 }, { 249,2119 }, { 250,2119 }, { 251,2119 }, { 252,2119 },
  { 253,2119 }, { 254,2119 }, { 255,2119 }, { 256,2119 }, {   0,   0 },
- {   0,6281 }, {   0,   1 }, {   0,6279 }, {   0,   4 }, {   0,6277 },
- {   0,  47 }, {   0,6275 }, {   0,  41 }, {   0,6273 }, {   0,   0 },
- {   0,6271 }, {   0,  20 }, {   0,6269 }, {   0,   0 }, {  10,   0 },
- {   0,  19 }, {   0,6265 }, {  13,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,6284 }, {   0,   1 }, {   0,6282 }, {   0,   4 }, {   0,6280 },
+ {   0,  47 }, {   0,6278 }, {   0,  41 }, {   0,6276 }, {   0,   0 },
+ {   0,6274 }, {   0,  20 }, {   0,6272 }, {   0,   0 }, {  10,   0 },
+ {   0,  19 }, {   0,6268 }, {  13,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3915,7 +3915,7 @@ static const struct yy_trans_info yy_transition[21511] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,6187 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,6190 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3923,7 +3923,7 @@ static const struct yy_trans_info yy_transition[21511] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,2635 }, {   0,   0 },
 
- { 123,2635 }, {   0,   4 }, {   0,6154 }, {   1,   0 }, {   2,   0 },
+ { 123,2635 }, {   0,   4 }, {   0,6157 }, {   1,   0 }, {   2,   0 },
  {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
  {   8,   0 }, {   9,   0 }, {  10,-123 }, {  11,   0 }, {  12,   0 },
  {  13,-123 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
@@ -3979,7 +3979,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
 
  { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
- { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   4 }, {   0,5897 },
+ { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   4 }, {   0,5900 },
  {   1,-257 }, {   2,-257 }, {   3,-257 }, {   4,-257 }, {   5,-257 },
  {   6,-257 }, {   7,-257 }, {   8,-257 }, {   9,-257 }, {  10,-380 },
  {  11,-257 }, {  12,-257 }, {  13,-380 }, {  14,-257 }, {  15,-257 },
@@ -4036,20 +4036,20 @@ static const struct yy_trans_info yy_transition[21511] =
  { 241,-257 }, { 242,-257 }, { 243,-257 }, { 244,-257 }, { 245,-257 },
  { 246,-257 }, { 247,-257 }, { 248,-257 }, { 249,-257 }, { 250,-257 },
  { 251,-257 }, { 252,-257 }, { 253,-257 }, { 254,-257 }, { 255,-257 },
- {   0,   0 }, {   0,5640 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,5643 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   9,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 }, {  13,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,5614 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,5617 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 },
 
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,5603 }, {   0,  16 },
- {   0,5601 }, {   0,  26 }, {   0,5599 }, {   0,  17 }, {   0,5597 },
- {   0,  36 }, {   0,5595 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,5606 }, {   0,  16 },
+ {   0,5604 }, {   0,  26 }, {   0,5602 }, {   0,  17 }, {   0,5600 },
+ {   0,  36 }, {   0,5598 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,5580 }, {   1,-7828 }, {   2,-7828 }, {   3,-7828 },
+ {   0,   0 }, {   0,5583 }, {   1,-7828 }, {   2,-7828 }, {   3,-7828 },
  {   4,-7828 }, {   5,-7828 }, {   6,-7828 }, {   7,-7828 }, {   8,-7828 },
  {   9,-7853 }, {  10,-7853 }, {  11,-7828 }, {  12,-7828 }, {  13,-7853 },
  {  14,-7828 }, {  15,-7828 }, {  16,-7828 }, {  17,-7828 }, {  18,-7828 },
@@ -4105,7 +4105,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 239,-7828 }, { 240,-7828 }, { 241,-7828 }, { 242,-7828 }, { 243,-7828 },
  { 244,-7828 }, { 245,-7828 }, { 246,-7828 }, { 247,-7828 }, { 248,-7828 },
  { 249,-7828 }, { 250,-7828 }, { 251,-7828 }, { 252,-7828 }, { 253,-7828 },
- { 254,-7828 }, { 255,-7828 }, { 256,-7828 }, {   0,   0 }, {   0,5322 },
+ { 254,-7828 }, { 255,-7828 }, { 256,-7828 }, {   0,   0 }, {   0,5325 },
  {   1,-8086 }, {   2,-8086 }, {   3,-8086 }, {   4,-8086 }, {   5,-8086 },
  {   6,-8086 }, {   7,-8086 }, {   8,-8086 }, {   9,1680 }, {  10,1680 },
  {  11,-8086 }, {  12,-8086 }, {  13,1680 }, {  14,-8086 }, {  15,-8086 },
@@ -4162,7 +4162,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 241,-8086 }, { 242,-8086 }, { 243,-8086 }, { 244,-8086 }, { 245,-8086 },
  { 246,-8086 }, { 247,-8086 }, { 248,-8086 }, { 249,-8086 }, { 250,-8086 },
  { 251,-8086 }, { 252,-8086 }, { 253,-8086 }, { 254,-8086 }, { 255,-8086 },
- { 256,-8086 }, {   0,   0 }, {   0,5064 }, {   1,-8344 }, {   2,-8344 },
+ { 256,-8086 }, {   0,   0 }, {   0,5067 }, {   1,-8344 }, {   2,-8344 },
  {   3,-8344 }, {   4,-8344 }, {   5,-8344 }, {   6,-8344 }, {   7,-8344 },
 
  {   8,-8344 }, {   9,1424 }, {  10,1424 }, {  11,-8344 }, {  12,-8344 },
@@ -4220,7 +4220,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 248,-8344 }, { 249,-8344 }, { 250,-8344 }, { 251,-8344 }, { 252,-8344 },
  { 253,-8344 }, { 254,-8344 }, { 255,-8344 }, { 256,-8344 }, {   0,   0 },
 
- {   0,4806 }, {   1,-8602 }, {   2,-8602 }, {   3,-8602 }, {   4,-8602 },
+ {   0,4809 }, {   1,-8602 }, {   2,-8602 }, {   3,-8602 }, {   4,-8602 },
  {   5,-8602 }, {   6,-8602 }, {   7,-8602 }, {   8,-8602 }, {   9,-8627 },
  {  10,-8627 }, {  11,-8602 }, {  12,-8602 }, {  13,-8627 }, {  14,-8602 },
  {  15,-8602 }, {  16,-8602 }, {  17,-8602 }, {  18,-8602 }, {  19,-8602 },
@@ -4276,7 +4276,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 245,-8602 }, { 246,-8602 }, { 247,-8602 }, { 248,-8602 }, { 249,-8602 },
 
  { 250,-8602 }, { 251,-8602 }, { 252,-8602 }, { 253,-8602 }, { 254,-8602 },
- { 255,-8602 }, { 256,-8602 }, {   0,   0 }, {   0,4548 }, {   0,   0 },
+ { 255,-8602 }, { 256,-8602 }, {   0,   0 }, {   0,4551 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   9,   0 }, {  10,   0 }, {   0,   0 },
  {   0,   0 }, {  13,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -4304,7 +4304,7 @@ static const struct yy_trans_info yy_transition[21511] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,-1639 }, { 126,-1066 },
- {   0,   0 }, {   0,4420 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   0,   0 }, {   0,4423 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
  {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
  {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
 
@@ -4360,7 +4360,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
  { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
  { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,4162 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,4165 },
  {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
 
  {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
@@ -4418,7 +4418,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
  { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
 
- { 256,-258 }, {   0,   0 }, {   0,3904 }, {   1, 277 }, {   2, 277 },
+ { 256,-258 }, {   0,   0 }, {   0,3907 }, {   1, 277 }, {   2, 277 },
  {   3, 277 }, {   4, 277 }, {   5, 277 }, {   6, 277 }, {   7, 277 },
  {   8, 277 }, {   9, 277 }, {  10, 277 }, {  11, 277 }, {  12, 277 },
  {  13, 277 }, {  14, 277 }, {  15, 277 }, {  16, 277 }, {  17, 277 },
@@ -4475,12 +4475,12 @@ static const struct yy_trans_info yy_transition[21511] =
 
  { 248, 277 }, { 249, 277 }, { 250, 277 }, { 251, 277 }, { 252, 277 },
  { 253, 277 }, { 254, 277 }, { 255, 277 }, { 256, 277 }, {   0,   1 },
- {   0,3646 }, {   0,   1 }, {   0,3644 }, {   0,  46 }, {   0,3642 },
- {   0,  43 }, {   0,3640 }, {   0,  28 }, {   0,3638 }, {   0,  22 },
- {   0,3636 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,3629 }, {   0,   8 }, {   0,3627 },
- {   0,   1 }, {   0,3625 }, {   0,  44 }, {   0,3623 }, {   0,   0 },
- {   0,3621 }, {   0,   0 }, {   0,3619 }, {   1,-9789 }, {   2,-9789 },
+ {   0,3649 }, {   0,   1 }, {   0,3647 }, {   0,  46 }, {   0,3645 },
+ {   0,  43 }, {   0,3643 }, {   0,  28 }, {   0,3641 }, {   0,  22 },
+ {   0,3639 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,3632 }, {   0,   8 }, {   0,3630 },
+ {   0,   1 }, {   0,3628 }, {   0,  44 }, {   0,3626 }, {   0,  25 },
+ {   0,3624 }, {   0,   0 }, {   0,3622 }, {   1,-9789 }, {   2,-9789 },
  {   3,-9789 }, {   4,-9789 }, {   5,-9789 }, {   6,-9789 }, {   7,-9789 },
  {   8,-9789 }, {   9,  -4 }, {  10,  -4 }, {  11,-9789 }, {  12,-9789 },
 
@@ -4508,7 +4508,7 @@ static const struct yy_trans_info yy_transition[21511] =
 
  { 113,-9789 }, { 114,-9789 }, { 115,-9789 }, { 116,-9789 }, { 117,-9789 },
  { 118,-9789 }, { 119,-9789 }, { 120,-9789 }, { 121,-9789 }, { 122,-9789 },
- { 125,2875 }, { 124,-9814 }, { 125,  -4 }, { 126,  -4 }, { 127,-9789 },
+ {   0,   0 }, { 124,-9814 }, { 125,  -4 }, { 126,  -4 }, { 127,-9789 },
  { 128,-9789 }, { 129,-9789 }, { 130,-9789 }, { 131,-9789 }, { 132,-9789 },
  { 133,-9789 }, { 134,-9789 }, { 135,-9789 }, { 136,-9789 }, { 137,-9789 },
  { 138,-9789 }, { 139,-9789 }, { 140,-9789 }, { 141,-9789 }, { 142,-9789 },
@@ -4537,7 +4537,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 243,-9789 }, { 244,-9789 }, { 245,-9789 }, { 246,-9789 }, { 247,-9789 },
  { 248,-9789 }, { 249,-9789 }, { 250,-9789 }, { 251,-9789 }, { 252,-9789 },
  { 253,-9789 }, { 254,-9789 }, { 255,-9789 }, { 256,-9789 }, {   0,   0 },
- {   0,3361 }, {   1,-10047 }, {   2,-10047 }, {   3,-10047 }, {   4,-10047 },
+ {   0,3364 }, {   1,-10047 }, {   2,-10047 }, {   3,-10047 }, {   4,-10047 },
 
  {   5,-10047 }, {   6,-10047 }, {   7,-10047 }, {   8,-10047 }, {   9,-10072 },
  {  10,-10072 }, {  11,-10047 }, {  12,-10047 }, {  13,-10072 }, {  14,-10047 },
@@ -4594,7 +4594,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 245,-10047 }, { 246,-10047 }, { 247,-10047 }, { 248,-10047 }, { 249,-10047 },
  { 250,-10047 }, { 251,-10047 }, { 252,-10047 }, { 253,-10047 }, { 254,-10047 },
 
- { 255,-10047 }, { 256,-10047 }, {   0,   0 }, {   0,3103 }, {   1,-1317 },
+ { 255,-10047 }, { 256,-10047 }, {   0,   0 }, {   0,3106 }, {   1,-1317 },
  {   2,-1317 }, {   3,-1317 }, {   4,-1317 }, {   5,-1317 }, {   6,-1317 },
  {   7,-1317 }, {   8,-1317 }, {   9,-1317 }, {  10,-1317 }, {  11,-1317 },
  {  12,-1317 }, {  13,-1317 }, {  14,-1317 }, {  15,-1317 }, {  16,-1317 },
@@ -4621,7 +4621,7 @@ static const struct yy_trans_info yy_transition[21511] =
  { 107,-1317 }, { 108,-1317 }, { 109,-1317 }, { 110,-1317 }, { 111,-1317 },
  { 112,-1317 }, { 113,-1317 }, { 114,-1317 }, { 115,-1317 }, { 116,-1317 },
  { 117,-1317 }, { 118,-1317 }, { 119,-1317 }, { 120,-1317 }, { 121,-1317 },
- { 122,-1317 }, { 123,-1317 }, { 124,-1317 }, { 125, 902 }, { 126,1160 },
+ { 122,-1317 }, { 123,-1317 }, { 124,-1317 }, { 125,1032 }, { 126,1290 },
  { 127,-1317 }, { 128,-1317 }, { 129,-1317 }, { 130,-1317 }, { 131,-1317 },
  { 132,-1317 }, { 133,-1317 }, { 134,-1317 }, { 135,-1317 }, { 136,-1317 },
  { 137,-1317 }, { 138,-1317 }, { 139,-1317 }, { 140,-1317 }, { 141,-1317 },
@@ -4651,63 +4651,63 @@ static const struct yy_trans_info yy_transition[21511] =
 
  { 247,-1317 }, { 248,-1317 }, { 249,-1317 }, { 250,-1317 }, { 251,-1317 },
  { 252,-1317 }, { 253,-1317 }, { 254,-1317 }, { 255,-1317 }, { 256,-1317 },
- {   0,   0 }, {   0,2845 }, {   1,1160 }, {   2,1160 }, {   3,1160 },
- {   4,1160 }, {   5,1160 }, {   6,1160 }, {   7,1160 }, {   8,1160 },
- {   0,   0 }, {   0,   0 }, {  11,1160 }, {  12,1160 }, {   0,   0 },
- {  14,1160 }, {  15,1160 }, {  16,1160 }, {  17,1160 }, {  18,1160 },
- {  19,1160 }, {  20,1160 }, {  21,1160 }, {  22,1160 }, {  23,1160 },
- {  24,1160 }, {  25,1160 }, {  26,1160 }, {  27,1160 }, {  28,1160 },
- {  29,1160 }, {  30,1160 }, {  31,1160 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,1160 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,1160 }, {   0,   0 }, {   0,   0 }, {  48,1160 },
- {  49,1160 }, {  50,1160 }, {  51,1160 }, {  52,1160 }, {  53,1160 },
- {  54,1160 }, {  55,1160 }, {  56,1160 }, {  57,1160 }, {  58,1160 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  63,1160 },
- {   0,   0 }, {  65,1160 }, {  66,1160 }, {  67,1160 }, {  68,1160 },
- {  69,1160 }, {  70,1160 }, {  71,1160 }, {  72,1160 }, {  73,1160 },
- {  74,1160 }, {  75,1160 }, {  76,1160 }, {  77,1160 }, {  78,1160 },
- {  79,1160 }, {  80,1160 }, {  81,1160 }, {  82,1160 }, {  83,1160 },
- {  84,1160 }, {  85,1160 }, {  86,1160 }, {  87,1160 }, {  88,1160 },
-
- {  89,1160 }, {  90,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,1160 }, {   0,   0 }, {  97,1160 }, {  98,1160 },
- {  99,1160 }, { 100,1160 }, { 101,1160 }, { 102,1160 }, { 103,1160 },
- { 104,1160 }, { 105,1160 }, { 106,1160 }, { 107,1160 }, { 108,1160 },
- { 109,1160 }, { 110,1160 }, { 111,1160 }, { 112,1160 }, { 113,1160 },
- { 114,1160 }, { 115,1160 }, { 116,1160 }, { 117,1160 }, { 118,1160 },
- { 119,1160 }, { 120,1160 }, { 121,1160 }, { 122,1160 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 127,1160 }, { 128,1160 },
- { 129,1160 }, { 130,1160 }, { 131,1160 }, { 132,1160 }, { 133,1160 },
- { 134,1160 }, { 135,1160 }, { 136,1160 }, { 137,1160 }, { 138,1160 },
-
- { 139,1160 }, { 140,1160 }, { 141,1160 }, { 142,1160 }, { 143,1160 },
- { 144,1160 }, { 145,1160 }, { 146,1160 }, { 147,1160 }, { 148,1160 },
- { 149,1160 }, { 150,1160 }, { 151,1160 }, { 152,1160 }, { 153,1160 },
- { 154,1160 }, { 155,1160 }, { 156,1160 }, { 157,1160 }, { 158,1160 },
- { 159,1160 }, { 160,1160 }, { 161,1160 }, { 162,1160 }, { 163,1160 },
- { 164,1160 }, { 165,1160 }, { 166,1160 }, { 167,1160 }, { 168,1160 },
- { 169,1160 }, { 170,1160 }, { 171,1160 }, { 172,1160 }, { 173,1160 },
- { 174,1160 }, { 175,1160 }, { 176,1160 }, { 177,1160 }, { 178,1160 },
- { 179,1160 }, { 180,1160 }, { 181,1160 }, { 182,1160 }, { 183,1160 },
- { 184,1160 }, { 185,1160 }, { 186,1160 }, { 187,1160 }, { 188,1160 },
-
- { 189,1160 }, { 190,1160 }, { 191,1160 }, { 192,1160 }, { 193,1160 },
- { 194,1160 }, { 195,1160 }, { 196,1160 }, { 197,1160 }, { 198,1160 },
- { 199,1160 }, { 200,1160 }, { 201,1160 }, { 202,1160 }, { 203,1160 },
- { 204,1160 }, { 205,1160 }, { 206,1160 }, { 207,1160 }, { 208,1160 },
- { 209,1160 }, { 210,1160 }, { 211,1160 }, { 212,1160 }, { 213,1160 },
- { 214,1160 }, { 215,1160 }, { 216,1160 }, { 217,1160 }, { 218,1160 },
- { 219,1160 }, { 220,1160 }, { 221,1160 }, { 222,1160 }, { 223,1160 },
- { 224,1160 }, { 225,1160 }, { 226,1160 }, { 227,1160 }, { 228,1160 },
- { 229,1160 }, { 230,1160 }, { 231,1160 }, { 232,1160 }, { 233,1160 },
- { 234,1160 }, { 235,1160 }, { 236,1160 }, { 237,1160 }, { 238,1160 },
-
- { 239,1160 }, { 240,1160 }, { 241,1160 }, { 242,1160 }, { 243,1160 },
- { 244,1160 }, { 245,1160 }, { 246,1160 }, { 247,1160 }, { 248,1160 },
- { 249,1160 }, { 250,1160 }, { 251,1160 }, { 252,1160 }, { 253,1160 },
- { 254,1160 }, { 255,1160 }, { 256,1160 }, {   0,   0 }, {   0,2587 },
+ {   0,   0 }, {   0,2848 }, {   1,1290 }, {   2,1290 }, {   3,1290 },
+ {   4,1290 }, {   5,1290 }, {   6,1290 }, {   7,1290 }, {   8,1290 },
+ {   0,   0 }, {   0,   0 }, {  11,1290 }, {  12,1290 }, {   0,   0 },
+ {  14,1290 }, {  15,1290 }, {  16,1290 }, {  17,1290 }, {  18,1290 },
+ {  19,1290 }, {  20,1290 }, {  21,1290 }, {  22,1290 }, {  23,1290 },
+ {  24,1290 }, {  25,1290 }, {  26,1290 }, {  27,1290 }, {  28,1290 },
+ {  29,1290 }, {  30,1290 }, {  31,1290 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,1290 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,1290 }, {   0,   0 }, {   0,   0 }, {  48,1290 },
+ {  49,1290 }, {  50,1290 }, {  51,1290 }, {  52,1290 }, {  53,1290 },
+ {  54,1290 }, {  55,1290 }, {  56,1290 }, {  57,1290 }, {  58,1290 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  63,1290 },
+ {   0,   0 }, {  65,1290 }, {  66,1290 }, {  67,1290 }, {  68,1290 },
+ {  69,1290 }, {  70,1290 }, {  71,1290 }, {  72,1290 }, {  73,1290 },
+ {  74,1290 }, {  75,1290 }, {  76,1290 }, {  77,1290 }, {  78,1290 },
+ {  79,1290 }, {  80,1290 }, {  81,1290 }, {  82,1290 }, {  83,1290 },
+ {  84,1290 }, {  85,1290 }, {  86,1290 }, {  87,1290 }, {  88,1290 },
+
+ {  89,1290 }, {  90,1290 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,1290 }, {   0,   0 }, {  97,1290 }, {  98,1290 },
+ {  99,1290 }, { 100,1290 }, { 101,1290 }, { 102,1290 }, { 103,1290 },
+ { 104,1290 }, { 105,1290 }, { 106,1290 }, { 107,1290 }, { 108,1290 },
+ { 109,1290 }, { 110,1290 }, { 111,1290 }, { 112,1290 }, { 113,1290 },
+ { 114,1290 }, { 115,1290 }, { 116,1290 }, { 117,1290 }, { 118,1290 },
+ { 119,1290 }, { 120,1290 }, { 121,1290 }, { 122,1290 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, { 127,1290 }, { 128,1290 },
+ { 129,1290 }, { 130,1290 }, { 131,1290 }, { 132,1290 }, { 133,1290 },
+ { 134,1290 }, { 135,1290 }, { 136,1290 }, { 137,1290 }, { 138,1290 },
+
+ { 139,1290 }, { 140,1290 }, { 141,1290 }, { 142,1290 }, { 143,1290 },
+ { 144,1290 }, { 145,1290 }, { 146,1290 }, { 147,1290 }, { 148,1290 },
+ { 149,1290 }, { 150,1290 }, { 151,1290 }, { 152,1290 }, { 153,1290 },
+ { 154,1290 }, { 155,1290 }, { 156,1290 }, { 157,1290 }, { 158,1290 },
+ { 159,1290 }, { 160,1290 }, { 161,1290 }, { 162,1290 }, { 163,1290 },
+ { 164,1290 }, { 165,1290 }, { 166,1290 }, { 167,1290 }, { 168,1290 },
+ { 169,1290 }, { 170,1290 }, { 171,1290 }, { 172,1290 }, { 173,1290 },
+ { 174,1290 }, { 175,1290 }, { 176,1290 }, { 177,1290 }, { 178,1290 },
+ { 179,1290 }, { 180,1290 }, { 181,1290 }, { 182,1290 }, { 183,1290 },
+ { 184,1290 }, { 185,1290 }, { 186,1290 }, { 187,1290 }, { 188,1290 },
+
+ { 189,1290 }, { 190,1290 }, { 191,1290 }, { 192,1290 }, { 193,1290 },
+ { 194,1290 }, { 195,1290 }, { 196,1290 }, { 197,1290 }, { 198,1290 },
+ { 199,1290 }, { 200,1290 }, { 201,1290 }, { 202,1290 }, { 203,1290 },
+ { 204,1290 }, { 205,1290 }, { 206,1290 }, { 207,1290 }, { 208,1290 },
+ { 209,1290 }, { 210,1290 }, { 211,1290 }, { 212,1290 }, { 213,1290 },
+ { 214,1290 }, { 215,1290 }, { 216,1290 }, { 217,1290 }, { 218,1290 },
+ { 219,1290 }, { 220,1290 }, { 221,1290 }, { 222,1290 }, { 223,1290 },
+ { 224,1290 }, { 225,1290 }, { 226,1290 }, { 227,1290 }, { 228,1290 },
+ { 229,1290 }, { 230,1290 }, { 231,1290 }, { 232,1290 }, { 233,1290 },
+ { 234,1290 }, { 235,1290 }, { 236,1290 }, { 237,1290 }, { 238,1290 },
+
+ { 239,1290 }, { 240,1290 }, { 241,1290 }, { 242,1290 }, { 243,1290 },
+ { 244,1290 }, { 245,1290 }, { 246,1290 }, { 247,1290 }, { 248,1290 },
+ { 249,1290 }, { 250,1290 }, { 251,1290 }, { 252,1290 }, { 253,1290 },
+ { 254,1290 }, { 255,1290 }, { 256,1290 }, {   0,   0 }, {   0,2590 },
  {   1,-10821 }, {   2,-10821 }, {   3,-10821 }, {   4,-10821 }, {   5,-10821 },
  {   6,-10821 }, {   7,-10821 }, {   8,-10821 }, {   9,-10846 }, {  10,-10846 },
  {  11,-10821 }, {  12,-10821 }, {  13,-10846 }, {  14,-10821 }, {  15,-10821 },
@@ -4731,7 +4731,7 @@ static const struct yy_trans_info yy_transition[21511] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-10821 },
  {   0,   0 }, {  97,-10821 }, {  98,-10821 }, {  99,-10821 }, { 100,-10821 },
  { 101,-10821 }, { 102,-10821 }, { 103,-10821 }, { 104,-10821 }, { 105,-10821 },
- { 106,-10821 }, { 107,-10821 }, { 108,-10821 }, { 109,-10821 }, { 110,1160 },
+ { 106,-10821 }, { 107,-10821 }, { 108,-10821 }, { 109,-10821 }, { 110,1290 },
  { 111,-10821 }, { 112,-10821 }, { 113,-10821 }, { 114,-10821 }, { 115,-10821 },
  { 116,-10821 }, { 117,-10821 }, { 118,-10821 }, { 119,-10821 }, { 120,-10821 },
  { 121,-10821 }, { 122,-10821 }, {   0,   0 }, { 124,-10846 }, { 125,-10846 },
@@ -4764,466 +4764,444 @@ static const struct yy_trans_info yy_transition[21511] =
  { 241,-10821 }, { 242,-10821 }, { 243,-10821 }, { 244,-10821 }, { 245,-10821 },
  { 246,-10821 }, { 247,-10821 }, { 248,-10821 }, { 249,-10821 }, { 250,-10821 },
  { 251,-10821 }, { 252,-10821 }, { 253,-10821 }, { 254,-10821 }, { 255,-10821 },
- { 256,-10821 }, {   0,  25 }, {   0,2329 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   9,1160 }, {  10,1160 }, {   0,   0 }, {   0,   0 },
- {  13,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,1160 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, { 125,-1292 }, { 126,1162 }, {   0,   0 },
- {   0,2201 }, {   1,-2219 }, {   2,-2219 }, {   3,-2219 }, {   4,-2219 },
- {   5,-2219 }, {   6,-2219 }, {   7,-2219 }, {   8,-2219 }, {   9,-2219 },
- {  10,-2219 }, {  11,-2219 }, {  12,-2219 }, {  13,-2219 }, {  14,-2219 },
- {  15,-2219 }, {  16,-2219 }, {  17,-2219 }, {  18,-2219 }, {  19,-2219 },
- {  20,-2219 }, {  21,-2219 }, {  22,-2219 }, {  23,-2219 }, {  24,-2219 },
- {  25,-2219 }, {  26,-2219 }, {  27,-2219 }, {  28,-2219 }, {  29,-2219 },
- {  30,-2219 }, {  31,-2219 }, {  32,-2219 }, {  33,-2219 }, {  34,-2219 },
- {  35,-2219 }, {  36,-2219 }, {  37,-2219 }, {  38,-2219 }, {  39,-2219 },
- {  40,-2219 }, {  41,-2219 }, {  42,-2219 }, {  43,-2219 }, {  44,-2219 },
-
- {  45,1161 }, {  46,-2219 }, {  47,-2219 }, {  48,-2219 }, {  49,-2219 },
- {  50,-2219 }, {  51,-2219 }, {  52,-2219 }, {  53,-2219 }, {  54,-2219 },
- {  55,-2219 }, {  56,-2219 }, {  57,-2219 }, {  58,-2219 }, {  59,-2219 },
- {  60,-2219 }, {  61,-2219 }, {  62,-2219 }, {  63,-2219 }, {  64,-2219 },
- {  65,-2219 }, {  66,-2219 }, {  67,-2219 }, {  68,-2219 }, {  69,-2219 },
- {  70,-2219 }, {  71,-2219 }, {  72,-2219 }, {  73,-2219 }, {  74,-2219 },
- {  75,-2219 }, {  76,-2219 }, {  77,-2219 }, {  78,-2219 }, {  79,-2219 },
- {  80,-2219 }, {  81,-2219 }, {  82,-2219 }, {  83,-2219 }, {  84,-2219 },
- {  85,-2219 }, {  86,-2219 }, {  87,-2219 }, {  88,-2219 }, {  89,-2219 },
- {  90,-2219 }, {  91,-2219 }, {  92,-2219 }, {  93,-2219 }, {  94,-2219 },
-
- {  95,-2219 }, {  96,-2219 }, {  97,-2219 }, {  98,-2219 }, {  99,-2219 },
- { 100,-2219 }, { 101,-2219 }, { 102,-2219 }, { 103,-2219 }, { 104,-2219 },
- { 105,-2219 }, { 106,-2219 }, { 107,-2219 }, { 108,-2219 }, { 109,-2219 },
- { 110,-2219 }, { 111,-2219 }, { 112,-2219 }, { 113,-2219 }, { 114,-2219 },
- { 115,-2219 }, { 116,-2219 }, { 117,-2219 }, { 118,-2219 }, { 119,-2219 },
- { 120,-2219 }, { 121,-2219 }, { 122,-2219 }, { 123,-2219 }, { 124,-2219 },
- { 125,1036 }, { 126,-2219 }, { 127,-2219 }, { 128,-2219 }, { 129,-2219 },
- { 130,-2219 }, { 131,-2219 }, { 132,-2219 }, { 133,-2219 }, { 134,-2219 },
- { 135,-2219 }, { 136,-2219 }, { 137,-2219 }, { 138,-2219 }, { 139,-2219 },
- { 140,-2219 }, { 141,-2219 }, { 142,-2219 }, { 143,-2219 }, { 144,-2219 },
-
- { 145,-2219 }, { 146,-2219 }, { 147,-2219 }, { 148,-2219 }, { 149,-2219 },
- { 150,-2219 }, { 151,-2219 }, { 152,-2219 }, { 153,-2219 }, { 154,-2219 },
- { 155,-2219 }, { 156,-2219 }, { 157,-2219 }, { 158,-2219 }, { 159,-2219 },
- { 160,-2219 }, { 161,-2219 }, { 162,-2219 }, { 163,-2219 }, { 164,-2219 },
- { 165,-2219 }, { 166,-2219 }, { 167,-2219 }, { 168,-2219 }, { 169,-2219 },
- { 170,-2219 }, { 171,-2219 }, { 172,-2219 }, { 173,-2219 }, { 174,-2219 },
- { 175,-2219 }, { 176,-2219 }, { 177,-2219 }, { 178,-2219 }, { 179,-2219 },
- { 180,-2219 }, { 181,-2219 }, { 182,-2219 }, { 183,-2219 }, { 184,-2219 },
- { 185,-2219 }, { 186,-2219 }, { 187,-2219 }, { 188,-2219 }, { 189,-2219 },
- { 190,-2219 }, { 191,-2219 }, { 192,-2219 }, { 193,-2219 }, { 194,-2219 },
-
- { 195,-2219 }, { 196,-2219 }, { 197,-2219 }, { 198,-2219 }, { 199,-2219 },
- { 200,-2219 }, { 201,-2219 }, { 202,-2219 }, { 203,-2219 }, { 204,-2219 },
- { 205,-2219 }, { 206,-2219 }, { 207,-2219 }, { 208,-2219 }, { 209,-2219 },
- { 210,-2219 }, { 211,-2219 }, { 212,-2219 }, { 213,-2219 }, { 214,-2219 },
- { 215,-2219 }, { 216,-2219 }, { 217,-2219 }, { 218,-2219 }, { 219,-2219 },
- { 220,-2219 }, { 221,-2219 }, { 222,-2219 }, { 223,-2219 }, { 224,-2219 },
- { 225,-2219 }, { 226,-2219 }, { 227,-2219 }, { 228,-2219 }, { 229,-2219 },
- { 230,-2219 }, { 231,-2219 }, { 232,-2219 }, { 233,-2219 }, { 234,-2219 },
- { 235,-2219 }, { 236,-2219 }, { 237,-2219 }, { 238,-2219 }, { 239,-2219 },
- { 240,-2219 }, { 241,-2219 }, { 242,-2219 }, { 243,-2219 }, { 244,-2219 },
-
- { 245,-2219 }, { 246,-2219 }, { 247,-2219 }, { 248,-2219 }, { 249,-2219 },
- { 250,-2219 }, { 251,-2219 }, { 252,-2219 }, { 253,-2219 }, { 254,-2219 },
- { 255,-2219 }, { 256,-2219 }, {   0,   0 }, {   0,1943 }, {   1,-2477 },
- {   2,-2477 }, {   3,-2477 }, {   4,-2477 }, {   5,-2477 }, {   6,-2477 },
- {   7,-2477 }, {   8,-2477 }, {   9,-2477 }, {  10,-2477 }, {  11,-2477 },
- {  12,-2477 }, {  13,-2477 }, {  14,-2477 }, {  15,-2477 }, {  16,-2477 },
- {  17,-2477 }, {  18,-2477 }, {  19,-2477 }, {  20,-2477 }, {  21,-2477 },
- {  22,-2477 }, {  23,-2477 }, {  24,-2477 }, {  25,-2477 }, {  26,-2477 },
- {  27,-2477 }, {  28,-2477 }, {  29,-2477 }, {  30,-2477 }, {  31,-2477 },
- {  32,-2477 }, {  33,-2477 }, {  34,-2477 }, {  35,-2477 }, {  36,-2477 },
-
- {  37,-2477 }, {  38,-2477 }, {  39,-2477 }, {  40,-2477 }, {  41,-2477 },
- {  42,-2477 }, {  43,-2477 }, {  44,-2477 }, {  45, 903 }, {  46,-2477 },
- {  47,-2477 }, {  48,-2477 }, {  49,-2477 }, {  50,-2477 }, {  51,-2477 },
- {  52,-2477 }, {  53,-2477 }, {  54,-2477 }, {  55,-2477 }, {  56,-2477 },
- {  57,-2477 }, {  58,-2477 }, {  59,-2477 }, {  60,-2477 }, {  61,-2477 },
- {  62,-2477 }, {  63,-2477 }, {  64,-2477 }, {  65,-2477 }, {  66,-2477 },
- {  67,-2477 }, {  68,-2477 }, {  69,-2477 }, {  70,-2477 }, {  71,-2477 },
- {  72,-2477 }, {  73,-2477 }, {  74,-2477 }, {  75,-2477 }, {  76,-2477 },
- {  77,-2477 }, {  78,-2477 }, {  79,-2477 }, {  80,-2477 }, {  81,-2477 },
- {  82,-2477 }, {  83,-2477 }, {  84,-2477 }, {  85,-2477 }, {  86,-2477 },
-
- {  87,-2477 }, {  88,-2477 }, {  89,-2477 }, {  90,-2477 }, {  91,-2477 },
- {  92,-2477 }, {  93,-2477 }, {  94,-2477 }, {  95,-2477 }, {  96,-2477 },
- {  97,-2477 }, {  98,-2477 }, {  99,-2477 }, { 100,-2477 }, { 101,-2477 },
- { 102,-2477 }, { 103,-2477 }, { 104,-2477 }, { 105,-2477 }, { 106,-2477 },
- { 107,-2477 }, { 108,-2477 }, { 109,-2477 }, { 110,-2477 }, { 111,-2477 },
- { 112,-2477 }, { 113,-2477 }, { 114,-2477 }, { 115,-2477 }, { 116,-2477 },
- { 117,-2477 }, { 118,-2477 }, { 119,-2477 }, { 120,-2477 }, { 121,-2477 },
- { 122,-2477 }, { 123,-2477 }, { 124,-2477 }, { 125,-258 }, { 126,-2477 },
- { 127,-2477 }, { 128,-2477 }, { 129,-2477 }, { 130,-2477 }, { 131,-2477 },
- { 132,-2477 }, { 133,-2477 }, { 134,-2477 }, { 135,-2477 }, { 136,-2477 },
-
- { 137,-2477 }, { 138,-2477 }, { 139,-2477 }, { 140,-2477 }, { 141,-2477 },
- { 142,-2477 }, { 143,-2477 }, { 144,-2477 }, { 145,-2477 }, { 146,-2477 },
- { 147,-2477 }, { 148,-2477 }, { 149,-2477 }, { 150,-2477 }, { 151,-2477 },
- { 152,-2477 }, { 153,-2477 }, { 154,-2477 }, { 155,-2477 }, { 156,-2477 },
- { 157,-2477 }, { 158,-2477 }, { 159,-2477 }, { 160,-2477 }, { 161,-2477 },
- { 162,-2477 }, { 163,-2477 }, { 164,-2477 }, { 165,-2477 }, { 166,-2477 },
- { 167,-2477 }, { 168,-2477 }, { 169,-2477 }, { 170,-2477 }, { 171,-2477 },
- { 172,-2477 }, { 173,-2477 }, { 174,-2477 }, { 175,-2477 }, { 176,-2477 },
- { 177,-2477 }, { 178,-2477 }, { 179,-2477 }, { 180,-2477 }, { 181,-2477 },
- { 182,-2477 }, { 183,-2477 }, { 184,-2477 }, { 185,-2477 }, { 186,-2477 },
-
- { 187,-2477 }, { 188,-2477 }, { 189,-2477 }, { 190,-2477 }, { 191,-2477 },
- { 192,-2477 }, { 193,-2477 }, { 194,-2477 }, { 195,-2477 }, { 196,-2477 },
- { 197,-2477 }, { 198,-2477 }, { 199,-2477 }, { 200,-2477 }, { 201,-2477 },
- { 202,-2477 }, { 203,-2477 }, { 204,-2477 }, { 205,-2477 }, { 206,-2477 },
- { 207,-2477 }, { 208,-2477 }, { 209,-2477 }, { 210,-2477 }, { 211,-2477 },
- { 212,-2477 }, { 213,-2477 }, { 214,-2477 }, { 215,-2477 }, { 216,-2477 },
- { 217,-2477 }, { 218,-2477 }, { 219,-2477 }, { 220,-2477 }, { 221,-2477 },
- { 222,-2477 }, { 223,-2477 }, { 224,-2477 }, { 225,-2477 }, { 226,-2477 },
- { 227,-2477 }, { 228,-2477 }, { 229,-2477 }, { 230,-2477 }, { 231,-2477 },
- { 232,-2477 }, { 233,-2477 }, { 234,-2477 }, { 235,-2477 }, { 236,-2477 },
-
- { 237,-2477 }, { 238,-2477 }, { 239,-2477 }, { 240,-2477 }, { 241,-2477 },
- { 242,-2477 }, { 243,-2477 }, { 244,-2477 }, { 245,-2477 }, { 246,-2477 },
- { 247,-2477 }, { 248,-2477 }, { 249,-2477 }, { 250,-2477 }, { 251,-2477 },
- { 252,-2477 }, { 253,-2477 }, { 254,-2477 }, { 255,-2477 }, { 256,-2477 },
- {   0,   0 }, {   0,1685 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ { 256,-10821 }, {   0,   0 }, {   0,2332 }, {   1,-1292 }, {   2,-1292 },
+ {   3,-1292 }, {   4,-1292 }, {   5,-1292 }, {   6,-1292 }, {   7,-1292 },
+ {   8,-1292 }, {   9,1290 }, {  10,1290 }, {  11,-1292 }, {  12,-1292 },
+ {  13,1290 }, {  14,-1292 }, {  15,-1292 }, {  16,-1292 }, {  17,-1292 },
+ {  18,-1292 }, {  19,-1292 }, {  20,-1292 }, {  21,-1292 }, {  22,-1292 },
+
+ {  23,-1292 }, {  24,-1292 }, {  25,-1292 }, {  26,-1292 }, {  27,-1292 },
+ {  28,-1292 }, {  29,-1292 }, {  30,-1292 }, {  31,-1292 }, {  32,1290 },
+ {  33,-1292 }, {  34,-1292 }, {  35,-1292 }, {  36,-1292 }, {  37,-1292 },
+ {  38,-1292 }, {  39,-1292 }, {  40,-1292 }, {  41,-1292 }, {  42,-1292 },
+ {  43,-1292 }, {  44,-1292 }, {  45,-1292 }, {  46,-1292 }, {  47,-1292 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  58,-1292 }, {  59,-1292 }, {  60,-1292 }, {  61,-1292 }, {  62,-1292 },
+ {  63,-1292 }, {  64,-1292 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  91,-1292 }, {  92,-1292 },
+ {  93,-1292 }, {  94,-1292 }, {   0,   0 }, {  96,-1292 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ { 123,-1292 }, { 124,-1292 }, { 125,1292 }, { 126,1294 }, { 127,-1292 },
+ { 128,-1292 }, { 129,-1292 }, { 130,-1292 }, { 131,-1292 }, { 132,-1292 },
+ { 133,-1292 }, { 134,-1292 }, { 135,-1292 }, { 136,-1292 }, { 137,-1292 },
+ { 138,-1292 }, { 139,-1292 }, { 140,-1292 }, { 141,-1292 }, { 142,-1292 },
+ { 143,-1292 }, { 144,-1292 }, { 145,-1292 }, { 146,-1292 }, { 147,-1292 },
+ { 148,-1292 }, { 149,-1292 }, { 150,-1292 }, { 151,-1292 }, { 152,-1292 },
+ { 153,-1292 }, { 154,-1292 }, { 155,-1292 }, { 156,-1292 }, { 157,-1292 },
+ { 158,-1292 }, { 159,-1292 }, { 160,-1292 }, { 161,-1292 }, { 162,-1292 },
+ { 163,-1292 }, { 164,-1292 }, { 165,-1292 }, { 166,-1292 }, { 167,-1292 },
+ { 168,-1292 }, { 169,-1292 }, { 170,-1292 }, { 171,-1292 }, { 172,-1292 },
+
+ { 173,-1292 }, { 174,-1292 }, { 175,-1292 }, { 176,-1292 }, { 177,-1292 },
+ { 178,-1292 }, { 179,-1292 }, { 180,-1292 }, { 181,-1292 }, { 182,-1292 },
+ { 183,-1292 }, { 184,-1292 }, { 185,-1292 }, { 186,-1292 }, { 187,-1292 },
+ { 188,-1292 }, { 189,-1292 }, { 190,-1292 }, { 191,-1292 }, { 192,-1292 },
+ { 193,-1292 }, { 194,-1292 }, { 195,-1292 }, { 196,-1292 }, { 197,-1292 },
+ { 198,-1292 }, { 199,-1292 }, { 200,-1292 }, { 201,-1292 }, { 202,-1292 },
+ { 203,-1292 }, { 204,-1292 }, { 205,-1292 }, { 206,-1292 }, { 207,-1292 },
+ { 208,-1292 }, { 209,-1292 }, { 210,-1292 }, { 211,-1292 }, { 212,-1292 },
+ { 213,-1292 }, { 214,-1292 }, { 215,-1292 }, { 216,-1292 }, { 217,-1292 },
+ { 218,-1292 }, { 219,-1292 }, { 220,-1292 }, { 221,-1292 }, { 222,-1292 },
+
+ { 223,-1292 }, { 224,-1292 }, { 225,-1292 }, { 226,-1292 }, { 227,-1292 },
+ { 228,-1292 }, { 229,-1292 }, { 230,-1292 }, { 231,-1292 }, { 232,-1292 },
+ { 233,-1292 }, { 234,-1292 }, { 235,-1292 }, { 236,-1292 }, { 237,-1292 },
+ { 238,-1292 }, { 239,-1292 }, { 240,-1292 }, { 241,-1292 }, { 242,-1292 },
+ { 243,-1292 }, { 244,-1292 }, { 245,-1292 }, { 246,-1292 }, { 247,-1292 },
+ { 248,-1292 }, { 249,-1292 }, { 250,-1292 }, { 251,-1292 }, { 252,-1292 },
+ { 253,-1292 }, { 254,-1292 }, { 255,-1292 }, { 256,-1292 }, {   0,   0 },
+ {   0,2074 }, {   1,-2349 }, {   2,-2349 }, {   3,-2349 }, {   4,-2349 },
+ {   5,-2349 }, {   6,-2349 }, {   7,-2349 }, {   8,-2349 }, {   9,-2349 },
+ {  10,-2349 }, {  11,-2349 }, {  12,-2349 }, {  13,-2349 }, {  14,-2349 },
+
+ {  15,-2349 }, {  16,-2349 }, {  17,-2349 }, {  18,-2349 }, {  19,-2349 },
+ {  20,-2349 }, {  21,-2349 }, {  22,-2349 }, {  23,-2349 }, {  24,-2349 },
+ {  25,-2349 }, {  26,-2349 }, {  27,-2349 }, {  28,-2349 }, {  29,-2349 },
+ {  30,-2349 }, {  31,-2349 }, {  32,-2349 }, {  33,-2349 }, {  34,-2349 },
+ {  35,-2349 }, {  36,-2349 }, {  37,-2349 }, {  38,-2349 }, {  39,-2349 },
+ {  40,-2349 }, {  41,-2349 }, {  42,-2349 }, {  43,-2349 }, {  44,-2349 },
+ {  45,1163 }, {  46,-2349 }, {  47,-2349 }, {  48,-2349 }, {  49,-2349 },
+ {  50,-2349 }, {  51,-2349 }, {  52,-2349 }, {  53,-2349 }, {  54,-2349 },
+ {  55,-2349 }, {  56,-2349 }, {  57,-2349 }, {  58,-2349 }, {  59,-2349 },
+ {  60,-2349 }, {  61,-2349 }, {  62,-2349 }, {  63,-2349 }, {  64,-2349 },
+
+ {  65,-2349 }, {  66,-2349 }, {  67,-2349 }, {  68,-2349 }, {  69,-2349 },
+ {  70,-2349 }, {  71,-2349 }, {  72,-2349 }, {  73,-2349 }, {  74,-2349 },
+ {  75,-2349 }, {  76,-2349 }, {  77,-2349 }, {  78,-2349 }, {  79,-2349 },
+ {  80,-2349 }, {  81,-2349 }, {  82,-2349 }, {  83,-2349 }, {  84,-2349 },
+ {  85,-2349 }, {  86,-2349 }, {  87,-2349 }, {  88,-2349 }, {  89,-2349 },
+ {  90,-2349 }, {  91,-2349 }, {  92,-2349 }, {  93,-2349 }, {  94,-2349 },
+ {  95,-2349 }, {  96,-2349 }, {  97,-2349 }, {  98,-2349 }, {  99,-2349 },
+ { 100,-2349 }, { 101,-2349 }, { 102,-2349 }, { 103,-2349 }, { 104,-2349 },
+ { 105,-2349 }, { 106,-2349 }, { 107,-2349 }, { 108,-2349 }, { 109,-2349 },
+ { 110,-2349 }, { 111,-2349 }, { 112,-2349 }, { 113,-2349 }, { 114,-2349 },
+
+ { 115,-2349 }, { 116,-2349 }, { 117,-2349 }, { 118,-2349 }, { 119,-2349 },
+ { 120,-2349 }, { 121,-2349 }, { 122,-2349 }, { 123,-2349 }, { 124,-2349 },
+ { 125,1038 }, { 126,-2349 }, { 127,-2349 }, { 128,-2349 }, { 129,-2349 },
+ { 130,-2349 }, { 131,-2349 }, { 132,-2349 }, { 133,-2349 }, { 134,-2349 },
+ { 135,-2349 }, { 136,-2349 }, { 137,-2349 }, { 138,-2349 }, { 139,-2349 },
+ { 140,-2349 }, { 141,-2349 }, { 142,-2349 }, { 143,-2349 }, { 144,-2349 },
+ { 145,-2349 }, { 146,-2349 }, { 147,-2349 }, { 148,-2349 }, { 149,-2349 },
+ { 150,-2349 }, { 151,-2349 }, { 152,-2349 }, { 153,-2349 }, { 154,-2349 },
+ { 155,-2349 }, { 156,-2349 }, { 157,-2349 }, { 158,-2349 }, { 159,-2349 },
+ { 160,-2349 }, { 161,-2349 }, { 162,-2349 }, { 163,-2349 }, { 164,-2349 },
+
+ { 165,-2349 }, { 166,-2349 }, { 167,-2349 }, { 168,-2349 }, { 169,-2349 },
+ { 170,-2349 }, { 171,-2349 }, { 172,-2349 }, { 173,-2349 }, { 174,-2349 },
+ { 175,-2349 }, { 176,-2349 }, { 177,-2349 }, { 178,-2349 }, { 179,-2349 },
+ { 180,-2349 }, { 181,-2349 }, { 182,-2349 }, { 183,-2349 }, { 184,-2349 },
+ { 185,-2349 }, { 186,-2349 }, { 187,-2349 }, { 188,-2349 }, { 189,-2349 },
+ { 190,-2349 }, { 191,-2349 }, { 192,-2349 }, { 193,-2349 }, { 194,-2349 },
+ { 195,-2349 }, { 196,-2349 }, { 197,-2349 }, { 198,-2349 }, { 199,-2349 },
+ { 200,-2349 }, { 201,-2349 }, { 202,-2349 }, { 203,-2349 }, { 204,-2349 },
+ { 205,-2349 }, { 206,-2349 }, { 207,-2349 }, { 208,-2349 }, { 209,-2349 },
+ { 210,-2349 }, { 211,-2349 }, { 212,-2349 }, { 213,-2349 }, { 214,-2349 },
+
+ { 215,-2349 }, { 216,-2349 }, { 217,-2349 }, { 218,-2349 }, { 219,-2349 },
+ { 220,-2349 }, { 221,-2349 }, { 222,-2349 }, { 223,-2349 }, { 224,-2349 },
+ { 225,-2349 }, { 226,-2349 }, { 227,-2349 }, { 228,-2349 }, { 229,-2349 },
+ { 230,-2349 }, { 231,-2349 }, { 232,-2349 }, { 233,-2349 }, { 234,-2349 },
+ { 235,-2349 }, { 236,-2349 }, { 237,-2349 }, { 238,-2349 }, { 239,-2349 },
+ { 240,-2349 }, { 241,-2349 }, { 242,-2349 }, { 243,-2349 }, { 244,-2349 },
+ { 245,-2349 }, { 246,-2349 }, { 247,-2349 }, { 248,-2349 }, { 249,-2349 },
+ { 250,-2349 }, { 251,-2349 }, { 252,-2349 }, { 253,-2349 }, { 254,-2349 },
+ { 255,-2349 }, { 256,-2349 }, {   0,   0 }, {   0,1816 }, {   1,-2607 },
+ {   2,-2607 }, {   3,-2607 }, {   4,-2607 }, {   5,-2607 }, {   6,-2607 },
+
+ {   7,-2607 }, {   8,-2607 }, {   9,-2607 }, {  10,-2607 }, {  11,-2607 },
+ {  12,-2607 }, {  13,-2607 }, {  14,-2607 }, {  15,-2607 }, {  16,-2607 },
+ {  17,-2607 }, {  18,-2607 }, {  19,-2607 }, {  20,-2607 }, {  21,-2607 },
+ {  22,-2607 }, {  23,-2607 }, {  24,-2607 }, {  25,-2607 }, {  26,-2607 },
+ {  27,-2607 }, {  28,-2607 }, {  29,-2607 }, {  30,-2607 }, {  31,-2607 },
+ {  32,-2607 }, {  33,-2607 }, {  34,-2607 }, {  35,-2607 }, {  36,-2607 },
+ {  37,-2607 }, {  38,-2607 }, {  39,-2607 }, {  40,-2607 }, {  41,-2607 },
+ {  42,-2607 }, {  43,-2607 }, {  44,-2607 }, {  45, 905 }, {  46,-2607 },
+ {  47,-2607 }, {  48,-2607 }, {  49,-2607 }, {  50,-2607 }, {  51,-2607 },
+ {  52,-2607 }, {  53,-2607 }, {  54,-2607 }, {  55,-2607 }, {  56,-2607 },
+
+ {  57,-2607 }, {  58,-2607 }, {  59,-2607 }, {  60,-2607 }, {  61,-2607 },
+ {  62,-2607 }, {  63,-2607 }, {  64,-2607 }, {  65,-2607 }, {  66,-2607 },
+ {  67,-2607 }, {  68,-2607 }, {  69,-2607 }, {  70,-2607 }, {  71,-2607 },
+ {  72,-2607 }, {  73,-2607 }, {  74,-2607 }, {  75,-2607 }, {  76,-2607 },
+ {  77,-2607 }, {  78,-2607 }, {  79,-2607 }, {  80,-2607 }, {  81,-2607 },
+ {  82,-2607 }, {  83,-2607 }, {  84,-2607 }, {  85,-2607 }, {  86,-2607 },
+ {  87,-2607 }, {  88,-2607 }, {  89,-2607 }, {  90,-2607 }, {  91,-2607 },
+ {  92,-2607 }, {  93,-2607 }, {  94,-2607 }, {  95,-2607 }, {  96,-2607 },
+ {  97,-2607 }, {  98,-2607 }, {  99,-2607 }, { 100,-2607 }, { 101,-2607 },
+ { 102,-2607 }, { 103,-2607 }, { 104,-2607 }, { 105,-2607 }, { 106,-2607 },
+
+ { 107,-2607 }, { 108,-2607 }, { 109,-2607 }, { 110,-2607 }, { 111,-2607 },
+ { 112,-2607 }, { 113,-2607 }, { 114,-2607 }, { 115,-2607 }, { 116,-2607 },
+ { 117,-2607 }, { 118,-2607 }, { 119,-2607 }, { 120,-2607 }, { 121,-2607 },
+ { 122,-2607 }, { 123,-2607 }, { 124,-2607 }, { 125,-258 }, { 126,-2607 },
+ { 127,-2607 }, { 128,-2607 }, { 129,-2607 }, { 130,-2607 }, { 131,-2607 },
+ { 132,-2607 }, { 133,-2607 }, { 134,-2607 }, { 135,-2607 }, { 136,-2607 },
+ { 137,-2607 }, { 138,-2607 }, { 139,-2607 }, { 140,-2607 }, { 141,-2607 },
+ { 142,-2607 }, { 143,-2607 }, { 144,-2607 }, { 145,-2607 }, { 146,-2607 },
+ { 147,-2607 }, { 148,-2607 }, { 149,-2607 }, { 150,-2607 }, { 151,-2607 },
+ { 152,-2607 }, { 153,-2607 }, { 154,-2607 }, { 155,-2607 }, { 156,-2607 },
+
+ { 157,-2607 }, { 158,-2607 }, { 159,-2607 }, { 160,-2607 }, { 161,-2607 },
+ { 162,-2607 }, { 163,-2607 }, { 164,-2607 }, { 165,-2607 }, { 166,-2607 },
+ { 167,-2607 }, { 168,-2607 }, { 169,-2607 }, { 170,-2607 }, { 171,-2607 },
+ { 172,-2607 }, { 173,-2607 }, { 174,-2607 }, { 175,-2607 }, { 176,-2607 },
+ { 177,-2607 }, { 178,-2607 }, { 179,-2607 }, { 180,-2607 }, { 181,-2607 },
+ { 182,-2607 }, { 183,-2607 }, { 184,-2607 }, { 185,-2607 }, { 186,-2607 },
+ { 187,-2607 }, { 188,-2607 }, { 189,-2607 }, { 190,-2607 }, { 191,-2607 },
+ { 192,-2607 }, { 193,-2607 }, { 194,-2607 }, { 195,-2607 }, { 196,-2607 },
+ { 197,-2607 }, { 198,-2607 }, { 199,-2607 }, { 200,-2607 }, { 201,-2607 },
+ { 202,-2607 }, { 203,-2607 }, { 204,-2607 }, { 205,-2607 }, { 206,-2607 },
+
+ { 207,-2607 }, { 208,-2607 }, { 209,-2607 }, { 210,-2607 }, { 211,-2607 },
+ { 212,-2607 }, { 213,-2607 }, { 214,-2607 }, { 215,-2607 }, { 216,-2607 },
+ { 217,-2607 }, { 218,-2607 }, { 219,-2607 }, { 220,-2607 }, { 221,-2607 },
+ { 222,-2607 }, { 223,-2607 }, { 224,-2607 }, { 225,-2607 }, { 226,-2607 },
+ { 227,-2607 }, { 228,-2607 }, { 229,-2607 }, { 230,-2607 }, { 231,-2607 },
+ { 232,-2607 }, { 233,-2607 }, { 234,-2607 }, { 235,-2607 }, { 236,-2607 },
+ { 237,-2607 }, { 238,-2607 }, { 239,-2607 }, { 240,-2607 }, { 241,-2607 },
+ { 242,-2607 }, { 243,-2607 }, { 244,-2607 }, { 245,-2607 }, { 246,-2607 },
+ { 247,-2607 }, { 248,-2607 }, { 249,-2607 }, { 250,-2607 }, { 251,-2607 },
+ { 252,-2607 }, { 253,-2607 }, { 254,-2607 }, { 255,-2607 }, { 256,-2607 },
+
+ {   0,   0 }, {   0,1558 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
  {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
  {   0,   0 }, {   0,   0 }, {  11,   0 }, {  12,   0 }, {   0,   0 },
  {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
  {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
  {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
-
  {  29,   0 }, {  30,   0 }, {  31,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  36,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  45,   0 }, {   0,   0 }, {   0,   0 }, {  48,   0 },
+
  {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
  {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  63,   0 },
  {   0,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
  {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
  {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
-
  {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
  {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
  {  89,   0 }, {  90,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  95,   0 }, {   0,   0 }, {  97,   0 }, {  98,   0 },
+
  {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
  { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
  { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
  { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
  { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, {   0,   0 },
- {   0,   0 }, { 125, 903 }, {   0,   0 }, { 127,   0 }, { 128,   0 },
-
+ {   0,   0 }, { 125, 905 }, {   0,   0 }, { 127,   0 }, { 128,   0 },
  { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
  { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
  { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
  { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
+
  { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
  { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
  { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
  { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
  { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
  { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
-
  { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
  { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
  { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
  { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
+
  { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
  { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
  { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
  { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
  { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
  { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
-
  { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
  { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
  { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
  { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
+
  { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,1427 },
- {   1,-11981 }, {   2,-11981 }, {   3,-11981 }, {   4,-11981 }, {   5,-11981 },
- {   6,-11981 }, {   7,-11981 }, {   8,-11981 }, {   9,-12006 }, {  10,-12006 },
- {  11,-11981 }, {  12,-11981 }, {  13,-12006 }, {  14,-11981 }, {  15,-11981 },
- {  16,-11981 }, {  17,-11981 }, {  18,-11981 }, {  19,-11981 }, {  20,-11981 },
-
- {  21,-11981 }, {  22,-11981 }, {  23,-11981 }, {  24,-11981 }, {  25,-11981 },
- {  26,-11981 }, {  27,-11981 }, {  28,-11981 }, {  29,-11981 }, {  30,-11981 },
- {  31,-11981 }, {  32,-12006 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,-11981 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,-12006 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-11981 },
- {  46,-12006 }, {  47,-12006 }, {  48,-11981 }, {  49,-11981 }, {  50,-11981 },
- {  51,-11981 }, {  52,-11981 }, {  53,-11981 }, {  54,-11981 }, {  55,-11981 },
- {  56,-11981 }, {  57,-11981 }, {  58,-11981 }, {   0,   0 }, {   0,   0 },
- {  61,-12006 }, {   0,   0 }, {  63,-11981 }, {   0,   0 }, {  65,-11981 },
- {  66,-11981 }, {  67,-11981 }, {  68,-11981 }, {  69,-11981 }, {  70,-11981 },
-
- {  71,-11981 }, {  72,-11981 }, {  73,-11981 }, {  74,-11981 }, {  75,-11981 },
- {  76,-11981 }, {  77,-11981 }, {  78,-11981 }, {  79,-11981 }, {  80,-11981 },
- {  81,-11981 }, {  82,-11981 }, {  83,-11981 }, {  84,-11981 }, {  85,-11981 },
- {  86,-11981 }, {  87,-11981 }, {  88,-11981 }, {  89,-11981 }, {  90,-11981 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-11981 },
- {   0,   0 }, {  97,-11981 }, {  98,-11981 }, {  99,-11981 }, { 100,-11981 },
- { 101, 647 }, { 102,-11981 }, { 103,-11981 }, { 104,-11981 }, { 105,-11981 },
- { 106,-11981 }, { 107,-11981 }, { 108,-11981 }, { 109,-11981 }, { 110,-11981 },
- { 111,-11981 }, { 112,-11981 }, { 113,-11981 }, { 114,-11981 }, { 115,-11981 },
- { 116,-11981 }, { 117,-11981 }, { 118,-11981 }, { 119,-11981 }, { 120,-11981 },
-
- { 121,-11981 }, { 122,-11981 }, {   0,   0 }, { 124,-12006 }, { 125,-12006 },
- { 126,-12006 }, { 127,-11981 }, { 128,-11981 }, { 129,-11981 }, { 130,-11981 },
- { 131,-11981 }, { 132,-11981 }, { 133,-11981 }, { 134,-11981 }, { 135,-11981 },
- { 136,-11981 }, { 137,-11981 }, { 138,-11981 }, { 139,-11981 }, { 140,-11981 },
- { 141,-11981 }, { 142,-11981 }, { 143,-11981 }, { 144,-11981 }, { 145,-11981 },
- { 146,-11981 }, { 147,-11981 }, { 148,-11981 }, { 149,-11981 }, { 150,-11981 },
- { 151,-11981 }, { 152,-11981 }, { 153,-11981 }, { 154,-11981 }, { 155,-11981 },
- { 156,-11981 }, { 157,-11981 }, { 158,-11981 }, { 159,-11981 }, { 160,-11981 },
- { 161,-11981 }, { 162,-11981 }, { 163,-11981 }, { 164,-11981 }, { 165,-11981 },
- { 166,-11981 }, { 167,-11981 }, { 168,-11981 }, { 169,-11981 }, { 170,-11981 },
-
- { 171,-11981 }, { 172,-11981 }, { 173,-11981 }, { 174,-11981 }, { 175,-11981 },
- { 176,-11981 }, { 177,-11981 }, { 178,-11981 }, { 179,-11981 }, { 180,-11981 },
- { 181,-11981 }, { 182,-11981 }, { 183,-11981 }, { 184,-11981 }, { 185,-11981 },
- { 186,-11981 }, { 187,-11981 }, { 188,-11981 }, { 189,-11981 }, { 190,-11981 },
- { 191,-11981 }, { 192,-11981 }, { 193,-11981 }, { 194,-11981 }, { 195,-11981 },
- { 196,-11981 }, { 197,-11981 }, { 198,-11981 }, { 199,-11981 }, { 200,-11981 },
- { 201,-11981 }, { 202,-11981 }, { 203,-11981 }, { 204,-11981 }, { 205,-11981 },
- { 206,-11981 }, { 207,-11981 }, { 208,-11981 }, { 209,-11981 }, { 210,-11981 },
- { 211,-11981 }, { 212,-11981 }, { 213,-11981 }, { 214,-11981 }, { 215,-11981 },
- { 216,-11981 }, { 217,-11981 }, { 218,-11981 }, { 219,-11981 }, { 220,-11981 },
-
- { 221,-11981 }, { 222,-11981 }, { 223,-11981 }, { 224,-11981 }, { 225,-11981 },
- { 226,-11981 }, { 227,-11981 }, { 228,-11981 }, { 229,-11981 }, { 230,-11981 },
- { 231,-11981 }, { 232,-11981 }, { 233,-11981 }, { 234,-11981 }, { 235,-11981 },
- { 236,-11981 }, { 237,-11981 }, { 238,-11981 }, { 239,-11981 }, { 240,-11981 },
- { 241,-11981 }, { 242,-11981 }, { 243,-11981 }, { 244,-11981 }, { 245,-11981 },
- { 246,-11981 }, { 247,-11981 }, { 248,-11981 }, { 249,-11981 }, { 250,-11981 },
- { 251,-11981 }, { 252,-11981 }, { 253,-11981 }, { 254,-11981 }, { 255,-11981 },
- { 256,-11981 }, {   0,   0 }, {   0,1169 }, {   0,   0 }, {   0,1167 },
- {   0,  12 }, {   0,1165 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   9,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,1300 },
+ {   1,-12111 }, {   2,-12111 }, {   3,-12111 }, {   4,-12111 }, {   5,-12111 },
+ {   6,-12111 }, {   7,-12111 }, {   8,-12111 }, {   9,-12136 }, {  10,-12136 },
+ {  11,-12111 }, {  12,-12111 }, {  13,-12136 }, {  14,-12111 }, {  15,-12111 },
+ {  16,-12111 }, {  17,-12111 }, {  18,-12111 }, {  19,-12111 }, {  20,-12111 },
+ {  21,-12111 }, {  22,-12111 }, {  23,-12111 }, {  24,-12111 }, {  25,-12111 },
+ {  26,-12111 }, {  27,-12111 }, {  28,-12111 }, {  29,-12111 }, {  30,-12111 },
+ {  31,-12111 }, {  32,-12136 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  36,-12111 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
- {  13,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  41,-12136 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-12111 },
+ {  46,-12136 }, {  47,-12136 }, {  48,-12111 }, {  49,-12111 }, {  50,-12111 },
+ {  51,-12111 }, {  52,-12111 }, {  53,-12111 }, {  54,-12111 }, {  55,-12111 },
+ {  56,-12111 }, {  57,-12111 }, {  58,-12111 }, {   0,   0 }, {   0,   0 },
+ {  61,-12136 }, {   0,   0 }, {  63,-12111 }, {   0,   0 }, {  65,-12111 },
+ {  66,-12111 }, {  67,-12111 }, {  68,-12111 }, {  69,-12111 }, {  70,-12111 },
+ {  71,-12111 }, {  72,-12111 }, {  73,-12111 }, {  74,-12111 }, {  75,-12111 },
+ {  76,-12111 }, {  77,-12111 }, {  78,-12111 }, {  79,-12111 }, {  80,-12111 },
+ {  81,-12111 }, {  82,-12111 }, {  83,-12111 }, {  84,-12111 }, {  85,-12111 },
+ {  86,-12111 }, {  87,-12111 }, {  88,-12111 }, {  89,-12111 }, {  90,-12111 },
 
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-12111 },
+ {   0,   0 }, {  97,-12111 }, {  98,-12111 }, {  99,-12111 }, { 100,-12111 },
+ { 101, 649 }, { 102,-12111 }, { 103,-12111 }, { 104,-12111 }, { 105,-12111 },
+ { 106,-12111 }, { 107,-12111 }, { 108,-12111 }, { 109,-12111 }, { 110,-12111 },
+ { 111,-12111 }, { 112,-12111 }, { 113,-12111 }, { 114,-12111 }, { 115,-12111 },
+ { 116,-12111 }, { 117,-12111 }, { 118,-12111 }, { 119,-12111 }, { 120,-12111 },
+ { 121,-12111 }, { 122,-12111 }, {   0,   0 }, { 124,-12136 }, { 125,-12136 },
+ { 126,-12136 }, { 127,-12111 }, { 128,-12111 }, { 129,-12111 }, { 130,-12111 },
+ { 131,-12111 }, { 132,-12111 }, { 133,-12111 }, { 134,-12111 }, { 135,-12111 },
+ { 136,-12111 }, { 137,-12111 }, { 138,-12111 }, { 139,-12111 }, { 140,-12111 },
+
+ { 141,-12111 }, { 142,-12111 }, { 143,-12111 }, { 144,-12111 }, { 145,-12111 },
+ { 146,-12111 }, { 147,-12111 }, { 148,-12111 }, { 149,-12111 }, { 150,-12111 },
+ { 151,-12111 }, { 152,-12111 }, { 153,-12111 }, { 154,-12111 }, { 155,-12111 },
+ { 156,-12111 }, { 157,-12111 }, { 158,-12111 }, { 159,-12111 }, { 160,-12111 },
+ { 161,-12111 }, { 162,-12111 }, { 163,-12111 }, { 164,-12111 }, { 165,-12111 },
+ { 166,-12111 }, { 167,-12111 }, { 168,-12111 }, { 169,-12111 }, { 170,-12111 },
+ { 171,-12111 }, { 172,-12111 }, { 173,-12111 }, { 174,-12111 }, { 175,-12111 },
+ { 176,-12111 }, { 177,-12111 }, { 178,-12111 }, { 179,-12111 }, { 180,-12111 },
+ { 181,-12111 }, { 182,-12111 }, { 183,-12111 }, { 184,-12111 }, { 185,-12111 },
+ { 186,-12111 }, { 187,-12111 }, { 188,-12111 }, { 189,-12111 }, { 190,-12111 },
+
+ { 191,-12111 }, { 192,-12111 }, { 193,-12111 }, { 194,-12111 }, { 195,-12111 },
+ { 196,-12111 }, { 197,-12111 }, { 198,-12111 }, { 199,-12111 }, { 200,-12111 },
+ { 201,-12111 }, { 202,-12111 }, { 203,-12111 }, { 204,-12111 }, { 205,-12111 },
+ { 206,-12111 }, { 207,-12111 }, { 208,-12111 }, { 209,-12111 }, { 210,-12111 },
+ { 211,-12111 }, { 212,-12111 }, { 213,-12111 }, { 214,-12111 }, { 215,-12111 },
+ { 216,-12111 }, { 217,-12111 }, { 218,-12111 }, { 219,-12111 }, { 220,-12111 },
+ { 221,-12111 }, { 222,-12111 }, { 223,-12111 }, { 224,-12111 }, { 225,-12111 },
+ { 226,-12111 }, { 227,-12111 }, { 228,-12111 }, { 229,-12111 }, { 230,-12111 },
+ { 231,-12111 }, { 232,-12111 }, { 233,-12111 }, { 234,-12111 }, { 235,-12111 },
+ { 236,-12111 }, { 237,-12111 }, { 238,-12111 }, { 239,-12111 }, { 240,-12111 },
+
+ { 241,-12111 }, { 242,-12111 }, { 243,-12111 }, { 244,-12111 }, { 245,-12111 },
+ { 246,-12111 }, { 247,-12111 }, { 248,-12111 }, { 249,-12111 }, { 250,-12111 },
+ { 251,-12111 }, { 252,-12111 }, { 253,-12111 }, { 254,-12111 }, { 255,-12111 },
+ { 256,-12111 }, {   0,  25 }, {   0,1042 }, {   0,  25 }, {   0,1040 },
+ {   0,  25 }, {   0,1038 }, {   0,  12 }, {   0,1036 }, {   0,   0 },
+ {   0,   0 }, {   9, 649 }, {  10, 649 }, {   0,   0 }, {   0,   0 },
+ {  13, 649 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32, 649 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, { 125, 651 }, { 126, 653 }, { 125, 653 },
+ {   0,   0 }, { 125, 647 }, {   0,   0 }, {   0, 911 }, {   1,-3512 },
+
+ {   2,-3512 }, {   3,-3512 }, {   4,-3512 }, {   5,-3512 }, {   6,-3512 },
+ {   7,-3512 }, {   8,-3512 }, {   9,-3512 }, {  10,-3512 }, {  11,-3512 },
+ {  12,-3512 }, {  13,-3512 }, {  14,-3512 }, {  15,-3512 }, {  16,-3512 },
+ {  17,-3512 }, {  18,-3512 }, {  19,-3512 }, {  20,-3512 }, {  21,-3512 },
+ {  22,-3512 }, {  23,-3512 }, {  24,-3512 }, {  25,-3512 }, {  26,-3512 },
+ {  27,-3512 }, {  28,-3512 }, {  29,-3512 }, {  30,-3512 }, {  31,-3512 },
+ {  32,-3512 }, {  33,-3512 }, {  34,-3512 }, {  35,-3512 }, {  36,-3512 },
+ {  37,-3512 }, {  38,-3512 }, {  39,-3512 }, {  40,-3512 }, {  41,-3512 },
+ {  42,-3512 }, {  43,-3512 }, {  44,-3512 }, {  45,-2195 }, {  46,-3512 },
+ {  47,-3512 }, {  48,-3512 }, {  49,-3512 }, {  50,-3512 }, {  51,-3512 },
+
+ {  52,-3512 }, {  53,-3512 }, {  54,-3512 }, {  55,-3512 }, {  56,-3512 },
+ {  57,-3512 }, {  58,-3512 }, {  59,-3512 }, {  60,-3512 }, {  61,-3512 },
+ {  62,-3512 }, {  63,-3512 }, {  64,-3512 }, {  65,-3512 }, {  66,-3512 },
+ {  67,-3512 }, {  68,-3512 }, {  69,-3512 }, {  70,-3512 }, {  71,-3512 },
+ {  72,-3512 }, {  73,-3512 }, {  74,-3512 }, {  75,-3512 }, {  76,-3512 },
+ {  77,-3512 }, {  78,-3512 }, {  79,-3512 }, {  80,-3512 }, {  81,-3512 },
+ {  82,-3512 }, {  83,-3512 }, {  84,-3512 }, {  85,-3512 }, {  86,-3512 },
+ {  87,-3512 }, {  88,-3512 }, {  89,-3512 }, {  90,-3512 }, {  91,-3512 },
+ {  92,-3512 }, {  93,-3512 }, {  94,-3512 }, {  95,-3512 }, {  96,-3512 },
+ {  97,-3512 }, {  98,-3512 }, {  99,-3512 }, { 100,-3512 }, { 101,-3512 },
+
+ { 102,-3512 }, { 103,-3512 }, { 104,-3512 }, { 105,-3512 }, { 106,-3512 },
+ { 107,-3512 }, { 108,-3512 }, { 109,-3512 }, { 110,-3512 }, { 111,-3512 },
+ { 112,-3512 }, { 113,-3512 }, { 114,-3512 }, { 115,-3512 }, { 116,-3512 },
+ { 117,-3512 }, { 118,-3512 }, { 119,-3512 }, { 120,-3512 }, { 121,-3512 },
+ { 122,-3512 }, { 123,-3512 }, { 124,-3512 }, { 125,-3512 }, { 126,-3512 },
+ { 127,-3512 }, { 128,-3512 }, { 129,-3512 }, { 130,-3512 }, { 131,-3512 },
+ { 132,-3512 }, { 133,-3512 }, { 134,-3512 }, { 135,-3512 }, { 136,-3512 },
+ { 137,-3512 }, { 138,-3512 }, { 139,-3512 }, { 140,-3512 }, { 141,-3512 },
+ { 142,-3512 }, { 143,-3512 }, { 144,-3512 }, { 145,-3512 }, { 146,-3512 },
+ { 147,-3512 }, { 148,-3512 }, { 149,-3512 }, { 150,-3512 }, { 151,-3512 },
+
+ { 152,-3512 }, { 153,-3512 }, { 154,-3512 }, { 155,-3512 }, { 156,-3512 },
+ { 157,-3512 }, { 158,-3512 }, { 159,-3512 }, { 160,-3512 }, { 161,-3512 },
+ { 162,-3512 }, { 163,-3512 }, { 164,-3512 }, { 165,-3512 }, { 166,-3512 },
+ { 167,-3512 }, { 168,-3512 }, { 169,-3512 }, { 170,-3512 }, { 171,-3512 },
+ { 172,-3512 }, { 173,-3512 }, { 174,-3512 }, { 175,-3512 }, { 176,-3512 },
+ { 177,-3512 }, { 178,-3512 }, { 179,-3512 }, { 180,-3512 }, { 181,-3512 },
+ { 182,-3512 }, { 183,-3512 }, { 184,-3512 }, { 185,-3512 }, { 186,-3512 },
+ { 187,-3512 }, { 188,-3512 }, { 189,-3512 }, { 190,-3512 }, { 191,-3512 },
+ { 192,-3512 }, { 193,-3512 }, { 194,-3512 }, { 195,-3512 }, { 196,-3512 },
+ { 197,-3512 }, { 198,-3512 }, { 199,-3512 }, { 200,-3512 }, { 201,-3512 },
+
+ { 202,-3512 }, { 203,-3512 }, { 204,-3512 }, { 205,-3512 }, { 206,-3512 },
+ { 207,-3512 }, { 208,-3512 }, { 209,-3512 }, { 210,-3512 }, { 211,-3512 },
+ { 212,-3512 }, { 213,-3512 }, { 214,-3512 }, { 215,-3512 }, { 216,-3512 },
+ { 217,-3512 }, { 218,-3512 }, { 219,-3512 }, { 220,-3512 }, { 221,-3512 },
+ { 222,-3512 }, { 223,-3512 }, { 224,-3512 }, { 225,-3512 }, { 226,-3512 },
+ { 227,-3512 }, { 228,-3512 }, { 229,-3512 }, { 230,-3512 }, { 231,-3512 },
+ { 232,-3512 }, { 233,-3512 }, { 234,-3512 }, { 235,-3512 }, { 236,-3512 },
+ { 237,-3512 }, { 238,-3512 }, { 239,-3512 }, { 240,-3512 }, { 241,-3512 },
+ { 242,-3512 }, { 243,-3512 }, { 244,-3512 }, { 245,-3512 }, { 246,-3512 },
+ { 247,-3512 }, { 248,-3512 }, { 249,-3512 }, { 250,-3512 }, { 251,-3512 },
+
+ { 252,-3512 }, { 253,-3512 }, { 254,-3512 }, { 255,-3512 }, { 256,-3512 },
+ {   0,   0 }, {   0, 653 }, {   0,   0 }, {   0, 651 }, {   1,-12760 },
+ {   2,-12760 }, {   3,-12760 }, {   4,-12760 }, {   5,-12760 }, {   6,-12760 },
+ {   7,-12760 }, {   8,-12760 }, {   9,-12785 }, {  10,-12785 }, {  11,-12760 },
+ {  12,-12760 }, {  13,-12785 }, {  14,-12760 }, {  15,-12760 }, {  16,-12760 },
+ {  17,-12760 }, {  18,-12760 }, {  19,-12760 }, {  20,-12760 }, {  21,-12760 },
+ {  22,-12760 }, {  23,-12760 }, {  24,-12760 }, {  25,-12760 }, {  26,-12760 },
+ {  27,-12760 }, {  28,-12760 }, {  29,-12760 }, {  30,-12760 }, {  31,-12760 },
+ {  32,-12785 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-12760 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-12785 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-12760 }, {  46,-12785 },
+ {  47,-12785 }, {  48,-12760 }, {  49,-12760 }, {  50,-12760 }, {  51,-12760 },
+ {  52,-12760 }, {  53,-12760 }, {  54,-12760 }, {  55,-12760 }, {  56,-12760 },
+ {  57,-12760 }, {  58,-12760 }, {   0,   0 }, {   0,   0 }, {  61,-12785 },
+ {   0,   0 }, {  63,-12760 }, {   0,   0 }, {  65,-12760 }, {  66,-12760 },
+ {  67,-12760 }, {  68,-12760 }, {  69,-12760 }, {  70,-12760 }, {  71,-12760 },
+ {  72,-12760 }, {  73,-12760 }, {  74,-12760 }, {  75,-12760 }, {  76,-12760 },
+ {  77,-12760 }, {  78,-12760 }, {  79,-12760 }, {  80,-12760 }, {  81,-12760 },
+ {  82,-12760 }, {  83,-12760 }, {  84,-12760 }, {  85,-12760 }, {  86,-12760 },
+ {  87,-12760 }, {  88,-12760 }, {  89,-12760 }, {  90,-12760 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-12760 }, {   0,   0 },
+ {  97,-12760 }, {  98,-12760 }, {  99,-12760 }, { 100, 393 }, { 101,-12760 },
+ { 102,-12760 }, { 103,-12760 }, { 104,-12760 }, { 105,-12760 }, { 106,-12760 },
+ { 107,-12760 }, { 108,-12760 }, { 109,-12760 }, { 110,-12760 }, { 111,-12760 },
+ { 112,-12760 }, { 113,-12760 }, { 114,-12760 }, { 115,-12760 }, { 116,-12760 },
+ { 117,-12760 }, { 118,-12760 }, { 119,-12760 }, { 120,-12760 }, { 121,-12760 },
+ { 122,-12760 }, { 125, 268 }, { 124,-12785 }, { 125,-12785 }, { 126,-12785 },
+ { 127,-12760 }, { 128,-12760 }, { 129,-12760 }, { 130,-12760 }, { 131,-12760 },
+ { 132,-12760 }, { 133,-12760 }, { 134,-12760 }, { 135,-12760 }, { 136,-12760 },
+ { 137,-12760 }, { 138,-12760 }, { 139,-12760 }, { 140,-12760 }, { 141,-12760 },
+
+ { 142,-12760 }, { 143,-12760 }, { 144,-12760 }, { 145,-12760 }, { 146,-12760 },
+ { 147,-12760 }, { 148,-12760 }, { 149,-12760 }, { 150,-12760 }, { 151,-12760 },
+ { 152,-12760 }, { 153,-12760 }, { 154,-12760 }, { 155,-12760 }, { 156,-12760 },
+ { 157,-12760 }, { 158,-12760 }, { 159,-12760 }, { 160,-12760 }, { 161,-12760 },
+ { 162,-12760 }, { 163,-12760 }, { 164,-12760 }, { 165,-12760 }, { 166,-12760 },
+ { 167,-12760 }, { 168,-12760 }, { 169,-12760 }, { 170,-12760 }, { 171,-12760 },
+ { 172,-12760 }, { 173,-12760 }, { 174,-12760 }, { 175,-12760 }, { 176,-12760 },
+ { 177,-12760 }, { 178,-12760 }, { 179,-12760 }, { 180,-12760 }, { 181,-12760 },
+ { 182,-12760 }, { 183,-12760 }, { 184,-12760 }, { 185,-12760 }, { 186,-12760 },
+ { 187,-12760 }, { 188,-12760 }, { 189,-12760 }, { 190,-12760 }, { 191,-12760 },
+
+ { 192,-12760 }, { 193,-12760 }, { 194,-12760 }, { 195,-12760 }, { 196,-12760 },
+ { 197,-12760 }, { 198,-12760 }, { 199,-12760 }, { 200,-12760 }, { 201,-12760 },
+ { 202,-12760 }, { 203,-12760 }, { 204,-12760 }, { 205,-12760 }, { 206,-12760 },
+ { 207,-12760 }, { 208,-12760 }, { 209,-12760 }, { 210,-12760 }, { 211,-12760 },
+ { 212,-12760 }, { 213,-12760 }, { 214,-12760 }, { 215,-12760 }, { 216,-12760 },
+ { 217,-12760 }, { 218,-12760 }, { 219,-12760 }, { 220,-12760 }, { 221,-12760 },
+ { 222,-12760 }, { 223,-12760 }, { 224,-12760 }, { 225,-12760 }, { 226,-12760 },
+ { 227,-12760 }, { 228,-12760 }, { 229,-12760 }, { 230,-12760 }, { 231,-12760 },
+ { 232,-12760 }, { 233,-12760 }, { 234,-12760 }, { 235,-12760 }, { 236,-12760 },
+ { 237,-12760 }, { 238,-12760 }, { 239,-12760 }, { 240,-12760 }, { 241,-12760 },
+
+ { 242,-12760 }, { 243,-12760 }, { 244,-12760 }, { 245,-12760 }, { 246,-12760 },
+ { 247,-12760 }, { 248,-12760 }, { 249,-12760 }, { 250,-12760 }, { 251,-12760 },
+ { 252,-12760 }, { 253,-12760 }, { 254,-12760 }, { 255,-12760 }, { 256,-12760 },
+ {   0,   0 }, {   0, 393 }, {   0,   0 }, {   0, 391 }, {   0,   0 },
+ {   0, 389 }, {   0,  23 }, {   0, 387 }, {   0,   0 }, {   0, 385 },
+ {   9,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 }, {  13,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, { 125,-2452 }, { 126,   2 }, { 125,-2454 },
- {   0,   0 }, {   0,1040 }, {   1,-3380 }, {   2,-3380 }, {   3,-3380 },
- {   4,-3380 }, {   5,-3380 }, {   6,-3380 }, {   7,-3380 }, {   8,-3380 },
- {   9,-3380 }, {  10,-3380 }, {  11,-3380 }, {  12,-3380 }, {  13,-3380 },
- {  14,-3380 }, {  15,-3380 }, {  16,-3380 }, {  17,-3380 }, {  18,-3380 },
- {  19,-3380 }, {  20,-3380 }, {  21,-3380 }, {  22,-3380 }, {  23,-3380 },
- {  24,-3380 }, {  25,-3380 }, {  26,-3380 }, {  27,-3380 }, {  28,-3380 },
- {  29,-3380 }, {  30,-3380 }, {  31,-3380 }, {  32,-3380 }, {  33,-3380 },
-
- {  34,-3380 }, {  35,-3380 }, {  36,-3380 }, {  37,-3380 }, {  38,-3380 },
- {  39,-3380 }, {  40,-3380 }, {  41,-3380 }, {  42,-3380 }, {  43,-3380 },
- {  44,-3380 }, {  45,-2063 }, {  46,-3380 }, {  47,-3380 }, {  48,-3380 },
- {  49,-3380 }, {  50,-3380 }, {  51,-3380 }, {  52,-3380 }, {  53,-3380 },
- {  54,-3380 }, {  55,-3380 }, {  56,-3380 }, {  57,-3380 }, {  58,-3380 },
- {  59,-3380 }, {  60,-3380 }, {  61,-3380 }, {  62,-3380 }, {  63,-3380 },
- {  64,-3380 }, {  65,-3380 }, {  66,-3380 }, {  67,-3380 }, {  68,-3380 },
- {  69,-3380 }, {  70,-3380 }, {  71,-3380 }, {  72,-3380 }, {  73,-3380 },
- {  74,-3380 }, {  75,-3380 }, {  76,-3380 }, {  77,-3380 }, {  78,-3380 },
- {  79,-3380 }, {  80,-3380 }, {  81,-3380 }, {  82,-3380 }, {  83,-3380 },
-
- {  84,-3380 }, {  85,-3380 }, {  86,-3380 }, {  87,-3380 }, {  88,-3380 },
- {  89,-3380 }, {  90,-3380 }, {  91,-3380 }, {  92,-3380 }, {  93,-3380 },
- {  94,-3380 }, {  95,-3380 }, {  96,-3380 }, {  97,-3380 }, {  98,-3380 },
- {  99,-3380 }, { 100,-3380 }, { 101,-3380 }, { 102,-3380 }, { 103,-3380 },
- { 104,-3380 }, { 105,-3380 }, { 106,-3380 }, { 107,-3380 }, { 108,-3380 },
- { 109,-3380 }, { 110,-3380 }, { 111,-3380 }, { 112,-3380 }, { 113,-3380 },
- { 114,-3380 }, { 115,-3380 }, { 116,-3380 }, { 117,-3380 }, { 118,-3380 },
- { 119,-3380 }, { 120,-3380 }, { 121,-3380 }, { 122,-3380 }, { 123,-3380 },
- { 124,-3380 }, { 125,-3380 }, { 126,-3380 }, { 127,-3380 }, { 128,-3380 },
- { 129,-3380 }, { 130,-3380 }, { 131,-3380 }, { 132,-3380 }, { 133,-3380 },
-
- { 134,-3380 }, { 135,-3380 }, { 136,-3380 }, { 137,-3380 }, { 138,-3380 },
- { 139,-3380 }, { 140,-3380 }, { 141,-3380 }, { 142,-3380 }, { 143,-3380 },
- { 144,-3380 }, { 145,-3380 }, { 146,-3380 }, { 147,-3380 }, { 148,-3380 },
- { 149,-3380 }, { 150,-3380 }, { 151,-3380 }, { 152,-3380 }, { 153,-3380 },
- { 154,-3380 }, { 155,-3380 }, { 156,-3380 }, { 157,-3380 }, { 158,-3380 },
- { 159,-3380 }, { 160,-3380 }, { 161,-3380 }, { 162,-3380 }, { 163,-3380 },
- { 164,-3380 }, { 165,-3380 }, { 166,-3380 }, { 167,-3380 }, { 168,-3380 },
- { 169,-3380 }, { 170,-3380 }, { 171,-3380 }, { 172,-3380 }, { 173,-3380 },
- { 174,-3380 }, { 175,-3380 }, { 176,-3380 }, { 177,-3380 }, { 178,-3380 },
- { 179,-3380 }, { 180,-3380 }, { 181,-3380 }, { 182,-3380 }, { 183,-3380 },
-
- { 184,-3380 }, { 185,-3380 }, { 186,-3380 }, { 187,-3380 }, { 188,-3380 },
- { 189,-3380 }, { 190,-3380 }, { 191,-3380 }, { 192,-3380 }, { 193,-3380 },
- { 194,-3380 }, { 195,-3380 }, { 196,-3380 }, { 197,-3380 }, { 198,-3380 },
- { 199,-3380 }, { 200,-3380 }, { 201,-3380 }, { 202,-3380 }, { 203,-3380 },
- { 204,-3380 }, { 205,-3380 }, { 206,-3380 }, { 207,-3380 }, { 208,-3380 },
- { 209,-3380 }, { 210,-3380 }, { 211,-3380 }, { 212,-3380 }, { 213,-3380 },
- { 214,-3380 }, { 215,-3380 }, { 216,-3380 }, { 217,-3380 }, { 218,-3380 },
- { 219,-3380 }, { 220,-3380 }, { 221,-3380 }, { 222,-3380 }, { 223,-3380 },
- { 224,-3380 }, { 225,-3380 }, { 226,-3380 }, { 227,-3380 }, { 228,-3380 },
- { 229,-3380 }, { 230,-3380 }, { 231,-3380 }, { 232,-3380 }, { 233,-3380 },
-
- { 234,-3380 }, { 235,-3380 }, { 236,-3380 }, { 237,-3380 }, { 238,-3380 },
- { 239,-3380 }, { 240,-3380 }, { 241,-3380 }, { 242,-3380 }, { 243,-3380 },
- { 244,-3380 }, { 245,-3380 }, { 246,-3380 }, { 247,-3380 }, { 248,-3380 },
- { 249,-3380 }, { 250,-3380 }, { 251,-3380 }, { 252,-3380 }, { 253,-3380 },
- { 254,-3380 }, { 255,-3380 }, { 256,-3380 }, {   0,   0 }, {   0, 782 },
- {   0,   0 }, {   0, 780 }, {   1,-12628 }, {   2,-12628 }, {   3,-12628 },
- {   4,-12628 }, {   5,-12628 }, {   6,-12628 }, {   7,-12628 }, {   8,-12628 },
- {   9,-12653 }, {  10,-12653 }, {  11,-12628 }, {  12,-12628 }, {  13,-12653 },
- {  14,-12628 }, {  15,-12628 }, {  16,-12628 }, {  17,-12628 }, {  18,-12628 },
- {  19,-12628 }, {  20,-12628 }, {  21,-12628 }, {  22,-12628 }, {  23,-12628 },
-
- {  24,-12628 }, {  25,-12628 }, {  26,-12628 }, {  27,-12628 }, {  28,-12628 },
- {  29,-12628 }, {  30,-12628 }, {  31,-12628 }, {  32,-12653 }, {   0,  23 },
- {   0, 746 }, {   0,   0 }, {  36,-12628 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,-12653 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-12628 }, {  46,-12653 }, {  47,-12653 }, {  48,-12628 },
- {  49,-12628 }, {  50,-12628 }, {  51,-12628 }, {  52,-12628 }, {  53,-12628 },
- {  54,-12628 }, {  55,-12628 }, {  56,-12628 }, {  57,-12628 }, {  58,-12628 },
- {   0,   0 }, {   0,   0 }, {  61,-12653 }, {   0,   0 }, {  63,-12628 },
- {   0,   0 }, {  65,-12628 }, {  66,-12628 }, {  67,-12628 }, {  68,-12628 },
- {  69,-12628 }, {  70,-12628 }, {  71,-12628 }, {  72,-12628 }, {  73,-12628 },
-
- {  74,-12628 }, {  75,-12628 }, {  76,-12628 }, {  77,-12628 }, {  78,-12628 },
- {  79,-12628 }, {  80,-12628 }, {  81,-12628 }, {  82,-12628 }, {  83,-12628 },
- {  84,-12628 }, {  85,-12628 }, {  86,-12628 }, {  87,-12628 }, {  88,-12628 },
- {  89,-12628 }, {  90,-12628 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-12628 }, {   0,   0 }, {  97,-12628 }, {  98,-12628 },
- {  99,-12628 }, { 100, 260 }, { 101,-12628 }, { 102,-12628 }, { 103,-12628 },
- { 104,-12628 }, { 105,-12628 }, { 106,-12628 }, { 107,-12628 }, { 108,-12628 },
- { 109,-12628 }, { 110,-12628 }, { 111,-12628 }, { 112,-12628 }, { 113,-12628 },
- { 114,-12628 }, { 115,-12628 }, { 116,-12628 }, { 117,-12628 }, { 118,-12628 },
- { 119,-12628 }, { 120,-12628 }, { 121,-12628 }, { 122,-12628 }, { 125, 260 },
-
- { 124,-12653 }, { 125,-12653 }, { 126,-12653 }, { 127,-12628 }, { 128,-12628 },
- { 129,-12628 }, { 130,-12628 }, { 131,-12628 }, { 132,-12628 }, { 133,-12628 },
- { 134,-12628 }, { 135,-12628 }, { 136,-12628 }, { 137,-12628 }, { 138,-12628 },
- { 139,-12628 }, { 140,-12628 }, { 141,-12628 }, { 142,-12628 }, { 143,-12628 },
- { 144,-12628 }, { 145,-12628 }, { 146,-12628 }, { 147,-12628 }, { 148,-12628 },
- { 149,-12628 }, { 150,-12628 }, { 151,-12628 }, { 152,-12628 }, { 153,-12628 },
- { 154,-12628 }, { 155,-12628 }, { 156,-12628 }, { 157,-12628 }, { 158,-12628 },
- { 159,-12628 }, { 160,-12628 }, { 161,-12628 }, { 162,-12628 }, { 163,-12628 },
- { 164,-12628 }, { 165,-12628 }, { 166,-12628 }, { 167,-12628 }, { 168,-12628 },
- { 169,-12628 }, { 170,-12628 }, { 171,-12628 }, { 172,-12628 }, { 173,-12628 },
-
- { 174,-12628 }, { 175,-12628 }, { 176,-12628 }, { 177,-12628 }, { 178,-12628 },
- { 179,-12628 }, { 180,-12628 }, { 181,-12628 }, { 182,-12628 }, { 183,-12628 },
- { 184,-12628 }, { 185,-12628 }, { 186,-12628 }, { 187,-12628 }, { 188,-12628 },
- { 189,-12628 }, { 190,-12628 }, { 191,-12628 }, { 192,-12628 }, { 193,-12628 },
- { 194,-12628 }, { 195,-12628 }, { 196,-12628 }, { 197,-12628 }, { 198,-12628 },
- { 199,-12628 }, { 200,-12628 }, { 201,-12628 }, { 202,-12628 }, { 203,-12628 },
- { 204,-12628 }, { 205,-12628 }, { 206,-12628 }, { 207,-12628 }, { 208,-12628 },
- { 209,-12628 }, { 210,-12628 }, { 211,-12628 }, { 212,-12628 }, { 213,-12628 },
- { 214,-12628 }, { 215,-12628 }, { 216,-12628 }, { 217,-12628 }, { 218,-12628 },
- { 219,-12628 }, { 220,-12628 }, { 221,-12628 }, { 222,-12628 }, { 223,-12628 },
-
- { 224,-12628 }, { 225,-12628 }, { 226,-12628 }, { 227,-12628 }, { 228,-12628 },
- { 229,-12628 }, { 230,-12628 }, { 231,-12628 }, { 232,-12628 }, { 233,-12628 },
- { 234,-12628 }, { 235,-12628 }, { 236,-12628 }, { 237,-12628 }, { 238,-12628 },
- { 239,-12628 }, { 240,-12628 }, { 241,-12628 }, { 242,-12628 }, { 243,-12628 },
- { 244,-12628 }, { 245,-12628 }, { 246,-12628 }, { 247,-12628 }, { 248,-12628 },
- { 249,-12628 }, { 250,-12628 }, { 251,-12628 }, { 252,-12628 }, { 253,-12628 },
- { 254,-12628 }, { 255,-12628 }, { 256,-12628 }, {   0,   0 }, {   0, 522 },
- {   0,   0 }, {   0, 520 }, {   1,-12888 }, {   2,-12888 }, {   3,-12888 },
- {   4,-12888 }, {   5,-12888 }, {   6,-12888 }, {   7,-12888 }, {   8,-12888 },
- {   9, 260 }, {  10, 260 }, {  11,-12888 }, {  12,-12888 }, {  13, 260 },
-
- {  14,-12888 }, {  15,-12888 }, {  16,-12888 }, {  17,-12888 }, {  18,-12888 },
- {  19,-12888 }, {  20,-12888 }, {  21,-12888 }, {  22,-12888 }, {  23,-12888 },
- {  24,-12888 }, {  25,-12888 }, {  26,-12888 }, {  27,-12888 }, {  28,-12888 },
- {  29,-12888 }, {  30,-12888 }, {  31,-12888 }, {  32, 260 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,-12888 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41, 260 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-12888 }, {  46,-12913 }, {  47,-12913 }, {  48,-12888 },
- {  49,-12888 }, {  50,-12888 }, {  51,-12888 }, {  52,-12888 }, {  53,-12888 },
- {  54,-12888 }, {  55,-12888 }, {  56,-12888 }, {  57,-12888 }, {  58,-12888 },
- {   0,   0 }, {   0,   0 }, {  61,-12913 }, {   0,   0 }, {  63,-12888 },
-
- {   0,   0 }, {  65,-12888 }, {  66,-12888 }, {  67,-12888 }, {  68,-12888 },
- {  69,-12888 }, {  70,-12888 }, {  71,-12888 }, {  72,-12888 }, {  73,-12888 },
- {  74,-12888 }, {  75,-12888 }, {  76,-12888 }, {  77,-12888 }, {  78,-12888 },
- {  79,-12888 }, {  80,-12888 }, {  81,-12888 }, {  82,-12888 }, {  83,-12888 },
- {  84,-12888 }, {  85,-12888 }, {  86,-12888 }, {  87,-12888 }, {  88,-12888 },
- {  89,-12888 }, {  90,-12888 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-12888 }, {   0,   0 }, {  97,-12888 }, {  98,-12888 },
- {  99,-12888 }, { 100,-12888 }, { 101,-12888 }, { 102,-12888 }, { 103,-12888 },
- { 104,-12888 }, { 105,-12888 }, { 106,-12888 }, { 107,-12888 }, { 108,-12888 },
- { 109,-12888 }, { 110,-12888 }, { 111,-12888 }, { 112,-12888 }, { 113,-12888 },
-
- { 114,-12888 }, { 115,-12888 }, { 116,-12888 }, { 117,-12888 }, { 118,-12888 },
- { 119,-12888 }, { 120,-12888 }, { 121,-12888 }, { 122,-12888 }, { 125, 260 },
- { 124,-12913 }, { 125, 260 }, { 126, 260 }, { 127,-12888 }, { 128,-12888 },
- { 129,-12888 }, { 130,-12888 }, { 131,-12888 }, { 132,-12888 }, { 133,-12888 },
- { 134,-12888 }, { 135,-12888 }, { 136,-12888 }, { 137,-12888 }, { 138,-12888 },
- { 139,-12888 }, { 140,-12888 }, { 141,-12888 }, { 142,-12888 }, { 143,-12888 },
- { 144,-12888 }, { 145,-12888 }, { 146,-12888 }, { 147,-12888 }, { 148,-12888 },
- { 149,-12888 }, { 150,-12888 }, { 151,-12888 }, { 152,-12888 }, { 153,-12888 },
- { 154,-12888 }, { 155,-12888 }, { 156,-12888 }, { 157,-12888 }, { 158,-12888 },
- { 159,-12888 }, { 160,-12888 }, { 161,-12888 }, { 162,-12888 }, { 163,-12888 },
-
- { 164,-12888 }, { 165,-12888 }, { 166,-12888 }, { 167,-12888 }, { 168,-12888 },
- { 169,-12888 }, { 170,-12888 }, { 171,-12888 }, { 172,-12888 }, { 173,-12888 },
- { 174,-12888 }, { 175,-12888 }, { 176,-12888 }, { 177,-12888 }, { 178,-12888 },
- { 179,-12888 }, { 180,-12888 }, { 181,-12888 }, { 182,-12888 }, { 183,-12888 },
- { 184,-12888 }, { 185,-12888 }, { 186,-12888 }, { 187,-12888 }, { 188,-12888 },
- { 189,-12888 }, { 190,-12888 }, { 191,-12888 }, { 192,-12888 }, { 193,-12888 },
- { 194,-12888 }, { 195,-12888 }, { 196,-12888 }, { 197,-12888 }, { 198,-12888 },
- { 199,-12888 }, { 200,-12888 }, { 201,-12888 }, { 202,-12888 }, { 203,-12888 },
- { 204,-12888 }, { 205,-12888 }, { 206,-12888 }, { 207,-12888 }, { 208,-12888 },
- { 209,-12888 }, { 210,-12888 }, { 211,-12888 }, { 212,-12888 }, { 213,-12888 },
-
- { 214,-12888 }, { 215,-12888 }, { 216,-12888 }, { 217,-12888 }, { 218,-12888 },
- { 219,-12888 }, { 220,-12888 }, { 221,-12888 }, { 222,-12888 }, { 223,-12888 },
- { 224,-12888 }, { 225,-12888 }, { 226,-12888 }, { 227,-12888 }, { 228,-12888 },
- { 229,-12888 }, { 230,-12888 }, { 231,-12888 }, { 232,-12888 }, { 233,-12888 },
- { 234,-12888 }, { 235,-12888 }, { 236,-12888 }, { 237,-12888 }, { 238,-12888 },
- { 239,-12888 }, { 240,-12888 }, { 241,-12888 }, { 242,-12888 }, { 243,-12888 },
- { 244,-12888 }, { 245,-12888 }, { 246,-12888 }, { 247,-12888 }, { 248,-12888 },
- { 249,-12888 }, { 250,-12888 }, { 251,-12888 }, { 252,-12888 }, { 253,-12888 },
- { 254,-12888 }, { 255,-12888 }, { 256,-12888 }, {   0,   0 }, {   0, 262 },
- {   0,  45 }, {   0, 260 }, {   0,   9 }, {   0, 258 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0, 350 },
+ {   0,  45 }, {   0, 348 }, {   0,   9 }, {   0, 346 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -5240,44 +5218,67 @@ static const struct yy_trans_info yy_transition[21511] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 125,   2 }, { 126,   4 }, { 125,   4 }, {   0,   0 },
+ { 125,  -2 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,  35 },
 
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,   4 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0, 258 }, {   1,-13153 }, {   2,-13153 }, {   3,-13153 },
+ {   4,-13153 }, {   5,-13153 }, {   6,-13153 }, {   7,-13153 }, {   8,-13153 },
+ {   9, -90 }, {  10, -90 }, {  11,-13153 }, {  12,-13153 }, {  13, -90 },
+ {  14,-13153 }, {  15,-13153 }, {  16,-13153 }, {  17,-13153 }, {  18,-13153 },
+ {  19,-13153 }, {  20,-13153 }, {  21,-13153 }, {  22,-13153 }, {  23,-13153 },
+ {  24,-13153 }, {  25,-13153 }, {  26,-13153 }, {  27,-13153 }, {  28,-13153 },
+ {  29,-13153 }, {  30,-13153 }, {  31,-13153 }, {  32, -90 }, { 125,   4 },
+ {   0,   0 }, {   0,   0 }, {  36,-13153 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41, -90 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,-13153 }, {  46,-13178 }, {  47,-13178 }, {  48,-13153 },
 
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  49,-13153 }, {  50,-13153 }, {  51,-13153 }, {  52,-13153 }, {  53,-13153 },
+ {  54,-13153 }, {  55,-13153 }, {  56,-13153 }, {  57,-13153 }, {  58,-13153 },
+ {   0,   0 }, {   0,   0 }, {  61,-13178 }, {   0,   0 }, {  63,-13153 },
+ {   0,   0 }, {  65,-13153 }, {  66,-13153 }, {  67,-13153 }, {  68,-13153 },
+ {  69,-13153 }, {  70,-13153 }, {  71,-13153 }, {  72,-13153 }, {  73,-13153 },
+ {  74,-13153 }, {  75,-13153 }, {  76,-13153 }, {  77,-13153 }, {  78,-13153 },
+ {  79,-13153 }, {  80,-13153 }, {  81,-13153 }, {  82,-13153 }, {  83,-13153 },
+ {  84,-13153 }, {  85,-13153 }, {  86,-13153 }, {  87,-13153 }, {  88,-13153 },
+ {  89,-13153 }, {  90,-13153 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,-13153 }, {   0,   0 }, {  97,-13153 }, {  98,-13153 },
 
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  99,-13153 }, { 100,-13153 }, { 101,-13153 }, { 102,-13153 }, { 103,-13153 },
+ { 104,-13153 }, { 105,-13153 }, { 106,-13153 }, { 107,-13153 }, { 108,-13153 },
+ { 109,-13153 }, { 110,-13153 }, { 111,-13153 }, { 112,-13153 }, { 113,-13153 },
+ { 114,-13153 }, { 115,-13153 }, { 116,-13153 }, { 117,-13153 }, { 118,-13153 },
+ { 119,-13153 }, { 120,-13153 }, { 121,-13153 }, { 122,-13153 }, {   0,   0 },
+ { 124,-13178 }, { 125, -90 }, { 126, -90 }, { 127,-13153 }, { 128,-13153 },
+ { 129,-13153 }, { 130,-13153 }, { 131,-13153 }, { 132,-13153 }, { 133,-13153 },
+ { 134,-13153 }, { 135,-13153 }, { 136,-13153 }, { 137,-13153 }, { 138,-13153 },
+ { 139,-13153 }, { 140,-13153 }, { 141,-13153 }, { 142,-13153 }, { 143,-13153 },
+ { 144,-13153 }, { 145,-13153 }, { 146,-13153 }, { 147,-13153 }, { 148,-13153 },
 
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 257,  52 }, {   1,   0 },    };
+ { 149,-13153 }, { 150,-13153 }, { 151,-13153 }, { 152,-13153 }, { 153,-13153 },
+ { 154,-13153 }, { 155,-13153 }, { 156,-13153 }, { 157,-13153 }, { 158,-13153 },
+ { 159,-13153 }, { 160,-13153 }, { 161,-13153 }, { 162,-13153 }, { 163,-13153 },
+ { 164,-13153 }, { 165,-13153 }, { 166,-13153 }, { 167,-13153 }, { 168,-13153 },
+ { 169,-13153 }, { 170,-13153 }, { 171,-13153 }, { 172,-13153 }, { 173,-13153 },
+ { 174,-13153 }, { 175,-13153 }, { 176,-13153 }, { 177,-13153 }, { 178,-13153 },
+ { 179,-13153 }, { 180,-13153 }, { 181,-13153 }, { 182,-13153 }, { 183,-13153 },
+ { 184,-13153 }, { 185,-13153 }, { 186,-13153 }, { 187,-13153 }, { 188,-13153 },
+ { 189,-13153 }, { 190,-13153 }, { 191,-13153 }, { 192,-13153 }, { 193,-13153 },
+ { 194,-13153 }, { 195,-13153 }, { 196,-13153 }, { 197,-13153 }, { 198,-13153 },
+
+ { 199,-13153 }, { 200,-13153 }, { 201,-13153 }, { 202,-13153 }, { 203,-13153 },
+ { 204,-13153 }, { 205,-13153 }, { 206,-13153 }, { 207,-13153 }, { 208,-13153 },
+ { 209,-13153 }, { 210,-13153 }, { 211,-13153 }, { 212,-13153 }, { 213,-13153 },
+ { 214,-13153 }, { 215,-13153 }, { 216,-13153 }, { 217,-13153 }, { 218,-13153 },
+ { 219,-13153 }, { 220,-13153 }, { 221,-13153 }, { 222,-13153 }, { 223,-13153 },
+ { 224,-13153 }, { 225,-13153 }, { 226,-13153 }, { 227,-13153 }, { 228,-13153 },
+ { 229,-13153 }, { 230,-13153 }, { 231,-13153 }, { 232,-13153 }, { 233,-13153 },
+ { 234,-13153 }, { 235,-13153 }, { 236,-13153 }, { 237,-13153 }, { 238,-13153 },
+ { 239,-13153 }, { 240,-13153 }, { 241,-13153 }, { 242,-13153 }, { 243,-13153 },
+ { 244,-13153 }, { 245,-13153 }, { 246,-13153 }, { 247,-13153 }, { 248,-13153 },
+
+ { 249,-13153 }, { 250,-13153 }, { 251,-13153 }, { 252,-13153 }, { 253,-13153 },
+ { 254,-13153 }, { 255,-13153 }, { 256,-13153 }, { 257,  52 }, {   1,   0 },
+    };
 
 static const struct yy_trans_info *yy_start_state_list[13] =
     {
@@ -5294,7 +5295,6 @@ static const struct yy_trans_info *yy_start_state_list[13] =
     &yy_transition[2325],
     &yy_transition[2583],
     &yy_transition[2841],
-
     } ;
 
 /* Table of booleans, true if rule could match eol. */
@@ -6009,6 +6009,10 @@ YY_RULE_SETUP
 	YY_BREAK
 case 25:
 /* rule 25 can match eol */
+*yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
+YY_LINENO_REWIND_TO(yy_cp - 1);
+yyg->yy_c_buf_p = yy_cp -= 1;
+YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
 #line 312 "handlebars.l"
 {
@@ -6312,7 +6316,7 @@ YY_RULE_SETUP
 #line 487 "handlebars.l"
 ECHO;
 	YY_BREAK
-#line 6316 "handlebars.lex.c"
+#line 6320 "handlebars.lex.c"
 
 	case YY_END_OF_BUFFER:
 		{
-- 
2.43.0


From 0809b12e2a66f8dfeff97a6fd5e88b0ce23ace33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:55 +0000
Subject: [PATCH 28/90] fix: lexer: unterminated comments and null bytes were
 dropped silently

---
 src/handlebars.l     |  6 ++++++
 src/handlebars.lex.c | 30 ++++++++++++++++++++----------
 src/handlebars.lex.h |  2 +-
 3 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/handlebars.l b/src/handlebars.l
index 17f9b0f..9fb7fc3 100644
--- a/src/handlebars.l
+++ b/src/handlebars.l
@@ -479,6 +479,12 @@ COM_REST  ([^-]|"-"+([^-~}]|"~"[^-}]|"~"?"}"[^-}]))
 										return INVALID;
 									}
 
+<*>.|\n                              {
+										// An unterminated comment, or a null byte
+										handlebars_yy_copy_lval();
+										return INVALID;
+									}
+
 <<EOF>>              	            {
 										// v2.0.0 handlebars.l line 102
 										return END;
diff --git a/src/handlebars.lex.c b/src/handlebars.lex.c
index 490b833..ce6bcc5 100644
--- a/src/handlebars.lex.c
+++ b/src/handlebars.lex.c
@@ -592,8 +592,8 @@ static void yynoreturn yy_fatal_error ( const char* msg , yyscan_t yyscanner );
 	yyg->yy_hold_char = *yy_cp; \
 	*yy_cp = '\0'; \
 	yyg->yy_c_buf_p = yy_cp;
-#define YY_NUM_RULES 51
-#define YY_END_OF_BUFFER 52
+#define YY_NUM_RULES 52
+#define YY_END_OF_BUFFER 53
 struct yy_trans_info
 	{
 	flex_int32_t yy_verify;
@@ -5277,7 +5277,7 @@ static const struct yy_trans_info yy_transition[21514] =
  { 244,-13153 }, { 245,-13153 }, { 246,-13153 }, { 247,-13153 }, { 248,-13153 },
 
  { 249,-13153 }, { 250,-13153 }, { 251,-13153 }, { 252,-13153 }, { 253,-13153 },
- { 254,-13153 }, { 255,-13153 }, { 256,-13153 }, { 257,  52 }, {   1,   0 },
+ { 254,-13153 }, { 255,-13153 }, { 256,-13153 }, { 257,  53 }, {   1,   0 },
     };
 
 static const struct yy_trans_info *yy_start_state_list[13] =
@@ -5298,11 +5298,11 @@ static const struct yy_trans_info *yy_start_state_list[13] =
     } ;
 
 /* Table of booleans, true if rule could match eol. */
-static const flex_int32_t yy_rule_can_match_eol[52] =
+static const flex_int32_t yy_rule_can_match_eol[53] =
     {   0,
 1, 1, 0, 1, 0, 0, 0, 1, 0, 1, 0, 1, 1, 0, 0, 0, 0, 0, 0, 
     0, 0, 1, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 0, 0, 1, 1, 
-    0, 1, 0, 1, 1, 1, 1, 1, 1, 1, 0, 0,     };
+    0, 1, 0, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0,     };
 
 /* The intent behind this definition is that it'll catch
  * any uses of REJECT which flex missed.
@@ -6299,24 +6299,34 @@ YY_RULE_SETUP
 										return INVALID;
 									}
 	YY_BREAK
+case 51:
+/* rule 51 can match eol */
+YY_RULE_SETUP
+#line 482 "handlebars.l"
+{
+										// An unterminated comment, or a null byte
+										handlebars_yy_copy_lval();
+										return INVALID;
+									}
+	YY_BREAK
 case YY_STATE_EOF(INITIAL):
 case YY_STATE_EOF(mu):
 case YY_STATE_EOF(emu):
 case YY_STATE_EOF(com):
 case YY_STATE_EOF(com1):
 case YY_STATE_EOF(raw):
-#line 482 "handlebars.l"
+#line 488 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 102
 										return END;
 									}
 	YY_BREAK
-case 51:
+case 52:
 YY_RULE_SETUP
-#line 487 "handlebars.l"
+#line 493 "handlebars.l"
 ECHO;
 	YY_BREAK
-#line 6320 "handlebars.lex.c"
+#line 6330 "handlebars.lex.c"
 
 	case YY_END_OF_BUFFER:
 		{
@@ -7524,6 +7534,6 @@ static int yy_flex_strlen (const char * s , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 487 "handlebars.l"
+#line 493 "handlebars.l"
 
 
diff --git a/src/handlebars.lex.h b/src/handlebars.lex.h
index 1147b9e..83754e4 100644
--- a/src/handlebars.lex.h
+++ b/src/handlebars.lex.h
@@ -733,7 +733,7 @@ extern int yylex \
 #undef yyTABLES_NAME
 #endif
 
-#line 487 "handlebars.l"
+#line 493 "handlebars.l"
 
 
 #line 740 "handlebars.lex.h"
-- 
2.43.0


From a4477f0933dd0be7a057bdc9fe7d08388232fd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:51 +0000
Subject: [PATCH 29/90] fix: arrays could not be indexed by paths that start at
 a block param or @data variable

---
 src/handlebars_vm.c | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 92b9ccd..77c9b43 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -305,6 +305,23 @@ static inline void depthed_lookup(struct handlebars_vm * vm, struct handlebars_s
     HANDLEBARS_VALUE_UNDECL(rv);
 }
 
+// Look up a member of an object, or an element of an array
+HBS_ATTR_NONNULL_ALL
+static inline struct handlebars_value * lookup_member(struct handlebars_value * value, struct handlebars_string * key, struct handlebars_value * rv)
+{
+    if( handlebars_value_get_type(value) == HANDLEBARS_VALUE_TYPE_MAP ) {
+        return handlebars_value_map_find(value, key, rv);
+    } else if( handlebars_value_get_type(value) == HANDLEBARS_VALUE_TYPE_ARRAY ) {
+        const char * index_str = hbs_str_val(key);
+        char * index_end = NULL;
+        long index = strtol(index_str, &index_end, 10);
+        if (hbs_str_len(key) > 0 && index_end == index_str + hbs_str_len(key) && index >= 0) {
+            return handlebars_value_array_find(value, index, rv);
+        }
+    }
+    return NULL;
+}
+
 HBS_ATTR_NONNULL(1, 2)
 static inline struct handlebars_value * merge_hash(struct handlebars_context * context, struct handlebars_value * input, struct handlebars_value * hash)
 {
@@ -971,7 +988,7 @@ ACCEPT_FUNCTION(lookup_block_param)
         struct handlebars_value * tmp = v2;
         struct handlebars_value * tmp2;
         for( i = 1; i < arr_len; i++ ) {
-            tmp2 = handlebars_value_map_find(tmp, arr[i].string, rv);
+            tmp2 = lookup_member(tmp, arr[i].string, rv);
             tmp = tmp2;
             if( !tmp ) {
                 break;
@@ -1041,8 +1058,7 @@ ACCEPT_FUNCTION(lookup_data)
 
     for( i = 1 ; i < arr_len; i++ ) {
         struct handlebars_operand_string * part = arr + i;
-        if( handlebars_value_get_type(val) == HANDLEBARS_VALUE_TYPE_MAP &&
-                NULL != (tmp = handlebars_value_map_find(val, part->string, rv)) ) {
+        if( NULL != (tmp = lookup_member(val, part->string, rv)) ) {
             handlebars_value_value(val, tmp);
         } else if( is_strict || require_terminal ) {
             goto done_and_err;
@@ -1101,17 +1117,8 @@ ACCEPT_FUNCTION(lookup_on_context)
 
     do {
         bool is_last = arr == arr_end - 1;
-        if( handlebars_value_get_type(value) == HANDLEBARS_VALUE_TYPE_MAP ) {
-            value = handlebars_value_map_find(value, arr->string, rv2);
-        } else if( handlebars_value_get_type(value) == HANDLEBARS_VALUE_TYPE_ARRAY ) {
-            const char * index_str = hbs_str_val(arr->string);
-            char * index_end = NULL;
-            long index = strtol(index_str, &index_end, 10);
-            if (hbs_str_len(arr->string) > 0 && index_end == index_str + hbs_str_len(arr->string) && index >= 0) {
-                value = handlebars_value_array_find(value, index, rv2);
-            } else {
-                value = NULL;
-            }
+        if( handlebars_value_get_type(value) == HANDLEBARS_VALUE_TYPE_MAP || handlebars_value_get_type(value) == HANDLEBARS_VALUE_TYPE_ARRAY ) {
+            value = lookup_member(value, arr->string, rv2);
         } else if( vm->flags & handlebars_compiler_flag_assume_objects && is_last ) {
             goto done_and_err;
         } else {
-- 
2.43.0


From 413fd0bfa19bb5e06406767780b5b27a6be659f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:49 +0000
Subject: [PATCH 30/90] fix: the safe mark of a value survived its content and
 spread to the next one

---
 src/handlebars_value.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index 09afc10..5b4a6ad 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -99,6 +99,7 @@ void handlebars_value_dtor(struct handlebars_value * value)
 
     // Initialize to null
     value->type = HANDLEBARS_VALUE_TYPE_NULL;
+    value->flags = 0;
     memset(&value->v, 0, sizeof(value->v));
 
 #ifdef HANDLEBARS_HAVE_VALGRIND
@@ -438,6 +439,7 @@ void handlebars_value_null(struct handlebars_value * value)
     if( value->type != HANDLEBARS_VALUE_TYPE_NULL ) {
         handlebars_value_dtor(value);
     }
+    value->flags = 0;
 }
 
 void handlebars_value_boolean(struct handlebars_value * value, bool bval)
-- 
2.43.0


From 14e4dc1d3e1c2e7b1f09aa88f2f2cf760528371d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:16 +0000
Subject: [PATCH 31/90] fix: assigning a value its own content or a part of it
 read freed memory

---
 src/handlebars_value.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index 5b4a6ad..3650f63 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -519,31 +519,33 @@ void handlebars_value_closure(struct handlebars_value * value, struct handlebars
 
 void handlebars_value_value(struct handlebars_value * dest, struct handlebars_value * src)
 {
-    handlebars_value_null(dest);
-    *dest = *src;
-    switch( dest->type ) {
+    // The source may be the destination, or only be kept alive by it: take the reference first
+    struct handlebars_value tmp = *src;
+    switch( tmp.type ) {
         case HANDLEBARS_VALUE_TYPE_ARRAY:
-            handlebars_stack_addref(dest->v.stack);
+            handlebars_stack_addref(tmp.v.stack);
             break;
         case HANDLEBARS_VALUE_TYPE_MAP:
-            handlebars_map_addref(dest->v.map);
+            handlebars_map_addref(tmp.v.map);
             break;
         case HANDLEBARS_VALUE_TYPE_STRING:
-            handlebars_string_addref(dest->v.string);
+            handlebars_string_addref(tmp.v.string);
             break;
         case HANDLEBARS_VALUE_TYPE_USER:
-            handlebars_user_addref(dest->v.user);
+            handlebars_user_addref(tmp.v.user);
             break;
         case HANDLEBARS_VALUE_TYPE_PTR:
-            handlebars_ptr_addref(dest->v.ptr);
+            handlebars_ptr_addref(tmp.v.ptr);
             break;
         case HANDLEBARS_VALUE_TYPE_CLOSURE:
-            handlebars_closure_addref(dest->v.closure);
+            handlebars_closure_addref(tmp.v.closure);
             break;
         default:
             // do nothing
             break;
     }
+    handlebars_value_null(dest);
+    *dest = tmp;
 }
 
 void handlebars_value_set_flag(
-- 
2.43.0


From 3d501bf072f12eab058818884a8e3748fbc78ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:32 +0000
Subject: [PATCH 32/90] fix: a helper returning null rendered the context
 member of the same name, and helperMissing replaced existing values

---
 src/handlebars_vm.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 77c9b43..f5427dd 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -733,20 +733,17 @@ ACCEPT_FUNCTION(invoke_ambiguous)
         handlebars_string_addref(last_helper);
     } else if (value && is_callable) {
         fn = value;
+    } else if (handlebars_value_get_type(value) != HANDLEBARS_VALUE_TYPE_NULL) {
+        fn = NULL; // just a value
     } else {
         struct handlebars_string * tmp_str = handlebars_string_ctor(CONTEXT, HBS_STRL("helperMissing"));
         fn = lookup_helper(vm, tmp_str, fnv);
         handlebars_string_delref(tmp_str);
     }
 
-    result = handlebars_value_call(fn, argc, argv, &options, vm, rv);
+    result = fn ? handlebars_value_call(fn, argc, argv, &options, vm, rv) : value;
 
-    // Before, the null case was only done for helperMissing
-    if (result->type != HANDLEBARS_VALUE_TYPE_NULL) {
-        PUSH(vm->stack, result);
-    } else {
-        PUSH(vm->stack, value);
-    }
+    PUSH(vm->stack, result);
 
     vm->last_helper = last_helper;
 
-- 
2.43.0


From 07c5bd2736cc7ddc1f505ca3cf63fc416e551806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:41 +0000
Subject: [PATCH 33/90] fix: ../ in the block of a partial call walked the
 contexts of the partial instead of the enclosing ones

---
 src/handlebars_vm.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index f5427dd..96049ad 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -452,16 +452,18 @@ done:
 HANDLEBARS_CLOSURE_ATTRS
 static struct handlebars_value * invoke_partial_block_closure(HANDLEBARS_CLOSURE_ARGS)
 {
-    assert(localc >= 4);
+    assert(localc >= 5);
     assert(HANDLEBARS_LOCAL_AT(0)->type == HANDLEBARS_VALUE_TYPE_PTR);
     assert(HANDLEBARS_LOCAL_AT(1)->type == HANDLEBARS_VALUE_TYPE_INTEGER);
     assert(HANDLEBARS_LOCAL_AT(2)->type == HANDLEBARS_VALUE_TYPE_INTEGER);
     assert(HANDLEBARS_LOCAL_AT(3)->type == HANDLEBARS_VALUE_TYPE_INTEGER);
+    assert(HANDLEBARS_LOCAL_AT(4)->type == HANDLEBARS_VALUE_TYPE_INTEGER);
 
     struct handlebars_module * module = handlebars_value_get_ptr(HANDLEBARS_LOCAL_AT(0), struct handlebars_module);
     long program = handlebars_value_get_intval(HANDLEBARS_LOCAL_AT(1));
     long partial_block_depth = handlebars_value_get_intval(HANDLEBARS_LOCAL_AT(2));
     size_t block_param_depth = (size_t) handlebars_value_get_intval(HANDLEBARS_LOCAL_AT(3));
+    size_t context_depth = (size_t) handlebars_value_get_intval(HANDLEBARS_LOCAL_AT(4));
     bool pushed_partial_block = false;
 
     // Push partial block
@@ -477,7 +479,14 @@ static struct handlebars_value * invoke_partial_block_closure(HANDLEBARS_CLOSURE
         PUSH(vm->blockParamStack, handlebars_stack_get(prev_block_param_stack, i));
     }
 
-    struct handlebars_value * input = argc > 0 ? &argv[0] : TOP(vm->contextStack);
+    // ... and likewise the enclosing contexts
+    struct handlebars_stack * prev_context_stack = vm->contextStack;
+    struct handlebars_value * input = argc > 0 ? &argv[0] : TOP(prev_context_stack);
+    vm->contextStack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
+    for (size_t i = 0; i < context_depth; i++) {
+        PUSH(vm->contextStack, handlebars_stack_get(prev_context_stack, i));
+    }
+
     struct handlebars_string * buffer;
     if (vm->module == module) {
         buffer = handlebars_vm_execute_program_ex(vm, program, input, NULL, NULL);
@@ -488,7 +497,9 @@ static struct handlebars_value * invoke_partial_block_closure(HANDLEBARS_CLOSURE
         handlebars_value_str(rv, buffer);
     }
 
-    // Restore the block param stack
+    // Restore the context and block param stacks
+    handlebars_stack_truncate(vm->contextStack, 0);
+    vm->contextStack = prev_context_stack;
     handlebars_stack_truncate(vm->blockParamStack, 0);
     vm->blockParamStack = prev_block_param_stack;
 
@@ -863,12 +874,13 @@ ACCEPT_FUNCTION(invoke_partial)
 
     // Push partial block
     if (options.program > 0) {
-        const int closure_localc = 4;
+        const int closure_localc = 5;
         HANDLEBARS_VALUE_ARRAY_DECL(closure_localv, closure_localc);
         handlebars_value_ptr(&closure_localv[0], handlebars_ptr_ctor(CONTEXT, struct handlebars_module, vm->module, true));
         handlebars_value_integer(&closure_localv[1], options.program);
         handlebars_value_integer(&closure_localv[2], LEN(vm->partialBlockStack));
         handlebars_value_integer(&closure_localv[3], LEN(vm->blockParamStack));
+        handlebars_value_integer(&closure_localv[4], LEN(vm->contextStack));
         handlebars_value_closure(partial_block, handlebars_closure_ctor(vm, invoke_partial_block_closure, closure_localc, closure_localv));
         pushed_partial_block = true;
         PUSH(vm->partialBlockStack, partial_block);
-- 
2.43.0


From b54a4de258c0f2b85b51039785e31f7fca81634d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:04 +0000
Subject: [PATCH 34/90] fix: indenting an empty string read out of bounds and
 emitted the indentation

---
 src/handlebars_string.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index 690bd62..1939b37 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -770,10 +770,16 @@ struct handlebars_string * handlebars_string_indent_append(
 ) {
     const char * str = input_string->val;
     size_t str_len = input_string->len;
-    bool endsInLine = (str[str_len - 1] == '\n');
+    bool endsInLine = str_len > 0 && str[str_len - 1] == '\n';
     size_t i;
     char tmp[2] = "\0";
 
+    // There is no line to indent
+    if( str_len == 0 ) {
+        handlebars_string_delref(input_string);
+        return append_to_string;
+    }
+
     if( endsInLine ) {
         str_len--;
     }
-- 
2.43.0


From 2d67047f3bf17d669ead2fda1d7df338e7591170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:04 +0000
Subject: [PATCH 35/90] fix: whitespace control next to an empty block crashed
 the parser

---
 src/handlebars_whitespace.c | 8 ++++++++
 src/handlebars_whitespace.h | 4 ++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_whitespace.c b/src/handlebars_whitespace.c
index e423a79..01ca646 100644
--- a/src/handlebars_whitespace.c
+++ b/src/handlebars_whitespace.c
@@ -113,6 +113,10 @@ bool handlebars_whitespace_omit_left(struct handlebars_ast_list * statements,
     struct handlebars_ast_list_item * item;
     size_t original_length;
 
+    if( !statements ) {
+        return 0;
+    }
+
     if( statement == NULL ) {
         current = statements->last ? statements->last->data : NULL;
     } else {
@@ -150,6 +154,10 @@ bool handlebars_whitespace_omit_right(struct handlebars_ast_list * statements,
     struct handlebars_ast_list_item * item;
     size_t original_length;
 
+    if( !statements ) {
+        return 0;
+    }
+
     if( statement == NULL ) {
         current = statements->first ? statements->first->data : NULL;
     } else {
diff --git a/src/handlebars_whitespace.h b/src/handlebars_whitespace.h
index 6df8627..20821ec 100644
--- a/src/handlebars_whitespace.h
+++ b/src/handlebars_whitespace.h
@@ -49,13 +49,13 @@ bool handlebars_whitespace_omit_left(
     struct handlebars_ast_list * statements,
     struct handlebars_ast_node * statement,
     bool multiple
-) HBS_LOCAL HBS_ATTR_NONNULL(1);
+) HBS_LOCAL;
 
 bool handlebars_whitespace_omit_right(
     struct handlebars_ast_list * statements,
     struct handlebars_ast_node * statement,
     bool multiple
-) HBS_LOCAL HBS_ATTR_NONNULL(1);
+) HBS_LOCAL;
 
 void handlebars_whitespace_accept(
     struct handlebars_parser * parser,
-- 
2.43.0


From 844dc518fafe9d3c7c3b1def7aaf772c5708e437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:04 +0000
Subject: [PATCH 36/90] fix: blocks of partial calls had no whitespace control

---
 src/handlebars_whitespace.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_whitespace.c b/src/handlebars_whitespace.c
index 01ca646..837f07c 100644
--- a/src/handlebars_whitespace.c
+++ b/src/handlebars_whitespace.c
@@ -260,7 +260,7 @@ static inline void handlebars_whitespace_accept_program(struct handlebars_parser
             }
         }
         if( do_standalone && open_standalone ) {
-            if( current->type == HANDLEBARS_AST_NODE_BLOCK ) {
+            if( current->type == HANDLEBARS_AST_NODE_BLOCK || current->type == HANDLEBARS_AST_NODE_PARTIAL_BLOCK ) {
                 if( current->node.block.program ) {
                     assert(current->node.block.program->type == HANDLEBARS_AST_NODE_PROGRAM);
                     handlebars_whitespace_omit_right(current->node.block.program->node.program.statements, NULL, 0);
@@ -273,7 +273,7 @@ static inline void handlebars_whitespace_accept_program(struct handlebars_parser
         }
         if( do_standalone && close_standalone ) {
             handlebars_whitespace_omit_right(statements, current, 0);
-            if( current->type == HANDLEBARS_AST_NODE_BLOCK ) {
+            if( current->type == HANDLEBARS_AST_NODE_BLOCK || current->type == HANDLEBARS_AST_NODE_PARTIAL_BLOCK ) {
                 if( current->node.block.inverse ) {
                     assert(current->node.block.inverse->type == HANDLEBARS_AST_NODE_PROGRAM);
                     handlebars_whitespace_omit_left(current->node.block.inverse->node.program.statements, NULL, 0);
@@ -495,6 +495,7 @@ void handlebars_whitespace_accept(struct handlebars_parser * parser,
 
     switch( node->type ) {
         case HANDLEBARS_AST_NODE_BLOCK:
+        case HANDLEBARS_AST_NODE_PARTIAL_BLOCK:
             return handlebars_whitespace_accept_block(parser, node);
         case HANDLEBARS_AST_NODE_MUSTACHE:
             return handlebars_whitespace_accept_mustache(parser, node);
@@ -513,7 +514,6 @@ void handlebars_whitespace_accept(struct handlebars_parser * parser,
         case HANDLEBARS_AST_NODE_CONTENT:
         case HANDLEBARS_AST_NODE_HASH:
         case HANDLEBARS_AST_NODE_HASH_PAIR:
-        case HANDLEBARS_AST_NODE_PARTIAL_BLOCK:
         case HANDLEBARS_AST_NODE_NUL:
         case HANDLEBARS_AST_NODE_NUMBER:
         case HANDLEBARS_AST_NODE_PATH:
-- 
2.43.0


From 99f69c5271b191c1c9fc4ee2a07e0a593fe531cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:50 +0000
Subject: [PATCH 37/90] fix: the block of a partial call could refer to itself
 as @partial-block and recurse until the stack overflowed

---
 src/handlebars_vm.c | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 96049ad..33a2a94 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -461,15 +461,15 @@ static struct handlebars_value * invoke_partial_block_closure(HANDLEBARS_CLOSURE
 
     struct handlebars_module * module = handlebars_value_get_ptr(HANDLEBARS_LOCAL_AT(0), struct handlebars_module);
     long program = handlebars_value_get_intval(HANDLEBARS_LOCAL_AT(1));
-    long partial_block_depth = handlebars_value_get_intval(HANDLEBARS_LOCAL_AT(2));
+    size_t partial_block_depth = (size_t) handlebars_value_get_intval(HANDLEBARS_LOCAL_AT(2));
     size_t block_param_depth = (size_t) handlebars_value_get_intval(HANDLEBARS_LOCAL_AT(3));
     size_t context_depth = (size_t) handlebars_value_get_intval(HANDLEBARS_LOCAL_AT(4));
-    bool pushed_partial_block = false;
 
-    // Push partial block
-    if (partial_block_depth > 0) {
-        pushed_partial_block = true;
-        PUSH(vm->partialBlockStack, handlebars_stack_get(vm->partialBlockStack, partial_block_depth - 1));
+    // The block sees the partial blocks of where it was written: never itself
+    struct handlebars_stack * prev_partial_block_stack = vm->partialBlockStack;
+    vm->partialBlockStack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
+    for (size_t i = 0; i < partial_block_depth; i++) {
+        PUSH(vm->partialBlockStack, handlebars_stack_get(prev_partial_block_stack, i));
     }
 
     // The block sees the block params of where it was written, not those of where it is invoked
@@ -497,22 +497,13 @@ static struct handlebars_value * invoke_partial_block_closure(HANDLEBARS_CLOSURE
         handlebars_value_str(rv, buffer);
     }
 
-    // Restore the context and block param stacks
+    // Restore the context, block param and partial block stacks
     handlebars_stack_truncate(vm->contextStack, 0);
     vm->contextStack = prev_context_stack;
     handlebars_stack_truncate(vm->blockParamStack, 0);
     vm->blockParamStack = prev_block_param_stack;
-
-    // Pop partial block
-    if (pushed_partial_block) {
-        // This should never happen, but we need to convince scan-build of it
-        assert(vm->partialBlockStack != NULL);
-        if (!vm->partialBlockStack) return rv;
-
-        HANDLEBARS_VALUE_DECL(closure_value);
-        POP(vm->partialBlockStack, closure_value);
-        HANDLEBARS_VALUE_UNDECL(closure_value);
-    }
+    handlebars_stack_truncate(vm->partialBlockStack, 0);
+    vm->partialBlockStack = prev_partial_block_stack;
 
     return rv;
 }
-- 
2.43.0


From 1544703a2c3e9a67d851cba31eddffb38aa5088e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:24 +0000
Subject: [PATCH 38/90] fix: reading @partial-block outside of a partial block
 dereferenced a null pointer

---
 src/handlebars_vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 33a2a94..5ea7a61 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -1048,7 +1048,7 @@ ACCEPT_FUNCTION(lookup_data)
         handlebars_value_value(val, tmp);
     } else if (hbs_str_eq_strl(first->string, HBS_STRL("root"))) {
         handlebars_value_value(val, handlebars_stack_get(vm->contextStack, 0));
-    } else if (hbs_str_eq_strl(first->string, HBS_STRL("partial-block"))) {
+    } else if (hbs_str_eq_strl(first->string, HBS_STRL("partial-block")) && LEN(vm->partialBlockStack) > 0) {
         handlebars_value_value(val, TOP(vm->partialBlockStack));
     } else if( vm->flags & handlebars_compiler_flag_assume_objects ) {
         goto done_and_err;
-- 
2.43.0


From 82f0dadd059f15d5e3dd3b8b484cd93b9eb43597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:43 +0000
Subject: [PATCH 39/90] fix: an escaped tag before another tag swallowed its
 braces (\{{{{n}})

---
 src/handlebars.l     |    4 +-
 src/handlebars.lex.c | 2076 ++++++++++++++++++++++--------------------
 2 files changed, 1080 insertions(+), 1000 deletions(-)

diff --git a/src/handlebars.l b/src/handlebars.l
index 9fb7fc3..33a274d 100644
--- a/src/handlebars.l
+++ b/src/handlebars.l
@@ -123,7 +123,7 @@ LITERAL_LOOKAHEAD   [~} \r\n\t)]
 
 MU \{\{\{?
 CMU \}\}\}?
-EMU \\\{\{\{?
+EMU \\\{\{
 EEMU \\\\\{\{\{?
 CONTENT [^\x00\{\\\r\n]*[\r\n]*
 
@@ -167,7 +167,7 @@ COM_REST  ([^-]|"-"+([^-~}]|"~"[^-}]|"~"?"}"[^-}]))
 										return CONTENT;
 									}
 
-{EMU}{CONTENT} 					    {
+{EMU}({CONTENT}|"{"([^\x00\{\\\r\n]+[\r\n]*|[\r\n]+)) {
 										// v2.0.0 handlebars.l line 35
 										yy_push_state(emu, yyscanner);
 										yytext++, yyleng--;
diff --git a/src/handlebars.lex.c b/src/handlebars.lex.c
index ce6bcc5..979a80f 100644
--- a/src/handlebars.lex.c
+++ b/src/handlebars.lex.c
@@ -599,9 +599,9 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const struct yy_trans_info yy_transition[21514] =
+static const struct yy_trans_info yy_transition[21878] =
     {
- {   0,   0 }, {   0,21258 }, {   0,   2 }, {   0,21256 }, {   1,3096 },
+ {   0,   0 }, {   0,21622 }, {   0,   2 }, {   0,21620 }, {   1,3096 },
  {   2,3096 }, {   3,3096 }, {   4,3096 }, {   5,3096 }, {   6,3096 },
  {   7,3096 }, {   8,3096 }, {   9,3096 }, {  10,3353 }, {  11,3096 },
  {  12,3096 }, {  13,3353 }, {  14,3096 }, {  15,3096 }, {  16,3096 },
@@ -658,7 +658,7 @@ static const struct yy_trans_info yy_transition[21514] =
 
  { 247,3096 }, { 248,3096 }, { 249,3096 }, { 250,3096 }, { 251,3096 },
  { 252,3096 }, { 253,3096 }, { 254,3096 }, { 255,3096 }, { 256,3359 },
- {   0,   2 }, {   0,20998 }, {   1,2838 }, {   2,2838 }, {   3,2838 },
+ {   0,   2 }, {   0,21362 }, {   1,2838 }, {   2,2838 }, {   3,2838 },
  {   4,2838 }, {   5,2838 }, {   6,2838 }, {   7,2838 }, {   8,2838 },
  {   9,2838 }, {  10,3095 }, {  11,2838 }, {  12,2838 }, {  13,3095 },
  {  14,2838 }, {  15,2838 }, {  16,2838 }, {  17,2838 }, {  18,2838 },
@@ -714,7 +714,7 @@ static const struct yy_trans_info yy_transition[21514] =
  { 239,2838 }, { 240,2838 }, { 241,2838 }, { 242,2838 }, { 243,2838 },
  { 244,2838 }, { 245,2838 }, { 246,2838 }, { 247,2838 }, { 248,2838 },
  { 249,2838 }, { 250,2838 }, { 251,2838 }, { 252,2838 }, { 253,2838 },
- { 254,2838 }, { 255,2838 }, { 256,3101 }, {   0,   0 }, {   0,20740 },
+ { 254,2838 }, { 255,2838 }, { 256,3101 }, {   0,   0 }, {   0,21104 },
  {   1,3223 }, {   2,3223 }, {   3,3223 }, {   4,3223 }, {   5,3223 },
  {   6,3223 }, {   7,3223 }, {   8,3223 }, {   9,2845 }, {  10,2852 },
  {  11,3223 }, {  12,3223 }, {  13,2845 }, {  14,3223 }, {  15,3223 },
@@ -771,7 +771,7 @@ static const struct yy_trans_info yy_transition[21514] =
  { 241,3223 }, { 242,3223 }, { 243,3223 }, { 244,3223 }, { 245,3223 },
  { 246,3223 }, { 247,3223 }, { 248,3223 }, { 249,3223 }, { 250,3223 },
  { 251,3223 }, { 252,3223 }, { 253,3223 }, { 254,3223 }, { 255,3223 },
- { 256,3223 }, {   0,   0 }, {   0,20482 }, {   1,2965 }, {   2,2965 },
+ { 256,3223 }, {   0,   0 }, {   0,20846 }, {   1,2965 }, {   2,2965 },
  {   3,2965 }, {   4,2965 }, {   5,2965 }, {   6,2965 }, {   7,2965 },
  {   8,2965 }, {   9,2587 }, {  10,2594 }, {  11,2965 }, {  12,2965 },
  {  13,2587 }, {  14,2965 }, {  15,2965 }, {  16,2965 }, {  17,2965 },
@@ -828,7 +828,7 @@ static const struct yy_trans_info yy_transition[21514] =
  { 243,2965 }, { 244,2965 }, { 245,2965 }, { 246,2965 }, { 247,2965 },
  { 248,2965 }, { 249,2965 }, { 250,2965 }, { 251,2965 }, { 252,2965 },
  { 253,2965 }, { 254,2965 }, { 255,2965 }, { 256,2965 }, {   0,   0 },
- {   0,20224 }, {   1,3792 }, {   2,3792 }, {   3,3792 }, {   4,3792 },
+ {   0,20588 }, {   1,3792 }, {   2,3792 }, {   3,3792 }, {   4,3792 },
  {   5,3792 }, {   6,3792 }, {   7,3792 }, {   8,3792 }, {   9,3792 },
  {  10,2327 }, {  11,3792 }, {  12,3792 }, {  13,3792 }, {  14,3792 },
 
@@ -884,7 +884,7 @@ static const struct yy_trans_info yy_transition[21514] =
  { 240,3792 }, { 241,3792 }, { 242,3792 }, { 243,3792 }, { 244,3792 },
  { 245,3792 }, { 246,3792 }, { 247,3792 }, { 248,3792 }, { 249,3792 },
  { 250,3792 }, { 251,3792 }, { 252,3792 }, { 253,3792 }, { 254,3792 },
- { 255,3792 }, { 256,3792 }, {   0,   0 }, {   0,19966 }, {   1,3534 },
+ { 255,3792 }, { 256,3792 }, {   0,   0 }, {   0,20330 }, {   1,3534 },
  {   2,3534 }, {   3,3534 }, {   4,3534 }, {   5,3534 }, {   6,3534 },
 
  {   7,3534 }, {   8,3534 }, {   9,3534 }, {  10,2069 }, {  11,3534 },
@@ -942,7 +942,7 @@ static const struct yy_trans_info yy_transition[21514] =
  { 247,3534 }, { 248,3534 }, { 249,3534 }, { 250,3534 }, { 251,3534 },
  { 252,3534 }, { 253,3534 }, { 254,3534 }, { 255,3534 }, { 256,3534 },
 
- {   0,   0 }, {   0,19708 }, {   1,1811 }, {   2,1811 }, {   3,1811 },
+ {   0,   0 }, {   0,20072 }, {   1,1811 }, {   2,1811 }, {   3,1811 },
  {   4,1811 }, {   5,1811 }, {   6,1811 }, {   7,1811 }, {   8,1811 },
  {   9,1811 }, {  10,1811 }, {  11,1811 }, {  12,1811 }, {  13,1811 },
  {  14,1811 }, {  15,1811 }, {  16,1811 }, {  17,1811 }, {  18,1811 },
@@ -998,7 +998,7 @@ static const struct yy_trans_info yy_transition[21514] =
  { 244,1811 }, { 245,1811 }, { 246,1811 }, { 247,1811 }, { 248,1811 },
 
  { 249,1811 }, { 250,1811 }, { 251,1811 }, { 252,1811 }, { 253,1811 },
- { 254,1811 }, { 255,1811 }, { 256,1811 }, {   0,   0 }, {   0,19450 },
+ { 254,1811 }, { 255,1811 }, { 256,1811 }, {   0,   0 }, {   0,19814 },
  {   1,1553 }, {   2,1553 }, {   3,1553 }, {   4,1553 }, {   5,1553 },
  {   6,1553 }, {   7,1553 }, {   8,1553 }, {   9,1553 }, {  10,1553 },
  {  11,1553 }, {  12,1553 }, {  13,1553 }, {  14,1553 }, {  15,1553 },
@@ -1055,7 +1055,7 @@ static const struct yy_trans_info yy_transition[21514] =
  { 241,1553 }, { 242,1553 }, { 243,1553 }, { 244,1553 }, { 245,1553 },
  { 246,1553 }, { 247,1553 }, { 248,1553 }, { 249,1553 }, { 250,1553 },
  { 251,1553 }, { 252,1553 }, { 253,1553 }, { 254,1553 }, { 255,1553 },
- { 256,1553 }, {   0,   0 }, {   0,19192 }, {   1,4595 }, {   2,4595 },
+ { 256,1553 }, {   0,   0 }, {   0,19556 }, {   1,4595 }, {   2,4595 },
  {   3,4595 }, {   4,4595 }, {   5,4595 }, {   6,4595 }, {   7,4595 },
  {   8,4595 }, {   9,4595 }, {  10,4595 }, {  11,4595 }, {  12,4595 },
  {  13,4595 }, {  14,4595 }, {  15,4595 }, {  16,4595 }, {  17,4595 },
@@ -1112,7 +1112,7 @@ static const struct yy_trans_info yy_transition[21514] =
  { 243,4595 }, { 244,4595 }, { 245,4595 }, { 246,4595 }, { 247,4595 },
  { 248,4595 }, { 249,4595 }, { 250,4595 }, { 251,4595 }, { 252,4595 },
  { 253,4595 }, { 254,4595 }, { 255,4595 }, { 256,4595 }, {   0,   0 },
- {   0,18934 }, {   1,4337 }, {   2,4337 }, {   3,4337 }, {   4,4337 },
+ {   0,19298 }, {   1,4337 }, {   2,4337 }, {   3,4337 }, {   4,4337 },
  {   5,4337 }, {   6,4337 }, {   7,4337 }, {   8,4337 }, {   9,4337 },
  {  10,4337 }, {  11,4337 }, {  12,4337 }, {  13,4337 }, {  14,4337 },
  {  15,4337 }, {  16,4337 }, {  17,4337 }, {  18,4337 }, {  19,4337 },
@@ -1168,7 +1168,7 @@ static const struct yy_trans_info yy_transition[21514] =
  { 240,4337 }, { 241,4337 }, { 242,4337 }, { 243,4337 }, { 244,4337 },
  { 245,4337 }, { 246,4337 }, { 247,4337 }, { 248,4337 }, { 249,4337 },
  { 250,4337 }, { 251,4337 }, { 252,4337 }, { 253,4337 }, { 254,4337 },
- { 255,4337 }, { 256,4337 }, {   0,   0 }, {   0,18676 }, {   1,4595 },
+ { 255,4337 }, { 256,4337 }, {   0,   0 }, {   0,19040 }, {   1,4595 },
  {   2,4595 }, {   3,4595 }, {   4,4595 }, {   5,4595 }, {   6,4595 },
  {   7,4595 }, {   8,4595 }, {   9,4595 }, {  10,4595 }, {  11,4595 },
  {  12,4595 }, {  13,4595 }, {  14,4595 }, {  15,4595 }, {  16,4595 },
@@ -1225,7 +1225,7 @@ static const struct yy_trans_info yy_transition[21514] =
  { 242,4595 }, { 243,4595 }, { 244,4595 }, { 245,4595 }, { 246,4595 },
  { 247,4595 }, { 248,4595 }, { 249,4595 }, { 250,4595 }, { 251,4595 },
  { 252,4595 }, { 253,4595 }, { 254,4595 }, { 255,4595 }, { 256, 779 },
- {   0,   0 }, {   0,18418 }, {   1,4337 }, {   2,4337 }, {   3,4337 },
+ {   0,   0 }, {   0,18782 }, {   1,4337 }, {   2,4337 }, {   3,4337 },
  {   4,4337 }, {   5,4337 }, {   6,4337 }, {   7,4337 }, {   8,4337 },
 
  {   9,4337 }, {  10,4337 }, {  11,4337 }, {  12,4337 }, {  13,4337 },
@@ -1281,7 +1281,7 @@ static const struct yy_trans_info yy_transition[21514] =
  { 239,4337 }, { 240,4337 }, { 241,4337 }, { 242,4337 }, { 243,4337 },
  { 244,4337 }, { 245,4337 }, { 246,4337 }, { 247,4337 }, { 248,4337 },
  { 249,4337 }, { 250,4337 }, { 251,4337 }, { 252,4337 }, { 253,4337 },
- { 254,4337 }, { 255,4337 }, { 256, 521 }, {   0,   2 }, {   0,18160 },
+ { 254,4337 }, { 255,4337 }, { 256, 521 }, {   0,   2 }, {   0,18524 },
 
  {   1,4461 }, {   2,4461 }, {   3,4461 }, {   4,4461 }, {   5,4461 },
  {   6,4461 }, {   7,4461 }, {   8,4461 }, {   9,4461 }, {  10,4338 },
@@ -1339,14 +1339,14 @@ static const struct yy_trans_info yy_transition[21514] =
  { 246,4461 }, { 247,4461 }, { 248,4461 }, { 249,4461 }, { 250,4461 },
 
  { 251,4461 }, { 252,4461 }, { 253,4461 }, { 254,4461 }, { 255,4461 },
- {   0,   2 }, {   0,17903 }, {   0,   6 }, {   0,17901 }, {   0,   6 },
- {   0,17899 }, {   0,  51 }, {   0,17897 }, {   0,  35 }, {   0,17895 },
+ {   0,   2 }, {   0,18267 }, {   0,   6 }, {   0,18265 }, {   0,   6 },
+ {   0,18263 }, {   0,  51 }, {   0,18261 }, {   0,  35 }, {   0,18259 },
  {   0,   0 }, {  10,4081 }, {   0,   0 }, {   0,   0 }, {  13,4081 },
- {   0,  35 }, {   0,17888 }, {   0,   0 }, {   9,4742 }, {  10,4742 },
- {   0,  50 }, {   0,17883 }, {  13,4742 }, {   0,  14 }, {   0,17880 },
- {   9,4735 }, {  10,4735 }, {   0,  15 }, {   0,17876 }, {  13,4735 },
- {   0,  34 }, {   0,17873 }, {   0,  31 }, {   0,17871 }, {   0,  40 },
- {   0,17869 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  35 }, {   0,18252 }, {   0,   0 }, {   9,4742 }, {  10,4742 },
+ {   0,  50 }, {   0,18247 }, {  13,4742 }, {   0,  14 }, {   0,18244 },
+ {   9,4735 }, {  10,4735 }, {   0,  15 }, {   0,18240 }, {  13,4735 },
+ {   0,  34 }, {   0,18237 }, {   0,  31 }, {   0,18235 }, {   0,  40 },
+ {   0,18233 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  32,4742 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,4735 }, {   0,   0 },
@@ -1367,7 +1367,7 @@ static const struct yy_trans_info yy_transition[21514] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, { 123,4461 }, {   0,   0 }, { 123,4461 }, {   0,   2 },
- {   0,17774 }, {   1,4075 }, {   2,4075 }, {   3,4075 }, {   4,4075 },
+ {   0,18138 }, {   1,4075 }, {   2,4075 }, {   3,4075 }, {   4,4075 },
  {   5,4075 }, {   6,4075 }, {   7,4075 }, {   8,4075 }, {   9,4075 },
  {  10,3952 }, {  11,4075 }, {  12,4075 }, {  13,3952 }, {  14,4075 },
 
@@ -1423,7 +1423,7 @@ static const struct yy_trans_info yy_transition[21514] =
  { 240,4075 }, { 241,4075 }, { 242,4075 }, { 243,4075 }, { 244,4075 },
  { 245,4075 }, { 246,4075 }, { 247,4075 }, { 248,4075 }, { 249,4075 },
  { 250,4075 }, { 251,4075 }, { 252,4075 }, { 253,4075 }, { 254,4075 },
- { 255,4075 }, {   0,  50 }, {   0,17517 }, {   1,4106 }, {   2,4106 },
+ { 255,4075 }, {   0,  50 }, {   0,17881 }, {   1,4106 }, {   2,4106 },
  {   3,4106 }, {   4,4106 }, {   5,4106 }, {   6,4106 }, {   7,4106 },
 
  {   8,4106 }, {   9,4081 }, {  10,4081 }, {  11,4106 }, {  12,4106 },
@@ -1481,7 +1481,7 @@ static const struct yy_trans_info yy_transition[21514] =
  { 248,4106 }, { 249,4106 }, { 250,4106 }, { 251,4106 }, { 252,4106 },
  { 253,4106 }, { 254,4106 }, { 255,4106 }, { 256,4106 }, {   0,  50 },
 
- {   0,17259 }, {   1,4140 }, {   2,4140 }, {   3,4140 }, {   4,4140 },
+ {   0,17623 }, {   1,4140 }, {   2,4140 }, {   3,4140 }, {   4,4140 },
  {   5,4140 }, {   6,4140 }, {   7,4140 }, {   8,4140 }, {   9,4140 },
  {  10,4140 }, {  11,4140 }, {  12,4140 }, {  13,4140 }, {  14,4140 },
  {  15,4140 }, {  16,4140 }, {  17,4140 }, {  18,4140 }, {  19,4140 },
@@ -1537,7 +1537,7 @@ static const struct yy_trans_info yy_transition[21514] =
  { 245,4140 }, { 246,4140 }, { 247,4140 }, { 248,4140 }, { 249,4140 },
 
  { 250,4140 }, { 251,4140 }, { 252,4140 }, { 253,4140 }, { 254,4140 },
- { 255,4140 }, { 256,4140 }, {   0,  50 }, {   0,17001 }, {   1,4398 },
+ { 255,4140 }, { 256,4140 }, {   0,  50 }, {   0,17365 }, {   1,4398 },
  {   2,4398 }, {   3,4398 }, {   4,4398 }, {   5,4398 }, {   6,4398 },
  {   7,4398 }, {   8,4398 }, {   9,4398 }, {  10,4398 }, {  11,4398 },
  {  12,4398 }, {  13,4398 }, {  14,4398 }, {  15,4398 }, {  16,4398 },
@@ -1594,7 +1594,7 @@ static const struct yy_trans_info yy_transition[21514] =
  { 242,4398 }, { 243,4398 }, { 244,4398 }, { 245,4398 }, { 246,4398 },
  { 247,4398 }, { 248,4398 }, { 249,4398 }, { 250,4398 }, { 251,4398 },
  { 252,4398 }, { 253,4398 }, { 254,4398 }, { 255,4398 }, { 256,4398 },
- {   0,  50 }, {   0,16743 }, {   1,3332 }, {   2,3332 }, {   3,3332 },
+ {   0,  50 }, {   0,17107 }, {   1,3332 }, {   2,3332 }, {   3,3332 },
  {   4,3332 }, {   5,3332 }, {   6,3332 }, {   7,3332 }, {   8,3332 },
  {   9,3307 }, {  10,3307 }, {  11,3332 }, {  12,3332 }, {  13,3307 },
  {  14,3332 }, {  15,3332 }, {  16,3332 }, {  17,3332 }, {  18,3332 },
@@ -1650,26 +1650,26 @@ static const struct yy_trans_info yy_transition[21514] =
  { 239,3332 }, { 240,3332 }, { 241,3332 }, { 242,3332 }, { 243,3332 },
  { 244,3332 }, { 245,3332 }, { 246,3332 }, { 247,3332 }, { 248,3332 },
  { 249,3332 }, { 250,3332 }, { 251,3332 }, { 252,3332 }, { 253,3332 },
- { 254,3332 }, { 255,3332 }, { 256,3332 }, {   0,  34 }, {   0,16485 },
+ { 254,3332 }, { 255,3332 }, { 256,3332 }, {   0,  34 }, {   0,16849 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,3338 }, {  10,3338 },
  {   0,   0 }, {   0,   0 }, {  13,3338 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,  50 }, {   0,16467 }, {   0,  42 }, {   0,16465 },
+ {   0,   0 }, {   0,  50 }, {   0,16831 }, {   0,  42 }, {   0,16829 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  32,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  41,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  46,3340 }, {  47,3338 }, {   0,  50 }, {   0,16436 }, {   0,  50 },
- {   0,16434 }, {   0,   7 }, {   0,16432 }, {   0,  51 }, {   0,16430 },
+ {  46,3340 }, {  47,3338 }, {   0,  50 }, {   0,16800 }, {   0,  50 },
+ {   0,16798 }, {   0,   7 }, {   0,16796 }, {   0,  51 }, {   0,16794 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  61,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,  50 }, {   0,16403 }, {   1,2992 }, {   2,2992 }, {   3,2992 },
+ {   0,  50 }, {   0,16767 }, {   1,2992 }, {   2,2992 }, {   3,2992 },
  {   4,2992 }, {   5,2992 }, {   6,2992 }, {   7,2992 }, {   8,2992 },
  {   9,3262 }, {  10,3262 }, {  11,2992 }, {  12,2992 }, {  13,3262 },
  {  14,2992 }, {  15,2992 }, {  16,2992 }, {  17,2992 }, {  18,2992 },
@@ -1725,7 +1725,7 @@ static const struct yy_trans_info yy_transition[21514] =
 
  { 244,2992 }, { 245,2992 }, { 246,2992 }, { 247,2992 }, { 248,2992 },
  { 249,2992 }, { 250,2992 }, { 251,2992 }, { 252,2992 }, { 253,2992 },
- { 254,2992 }, { 255,2992 }, { 256,2992 }, {   0,  50 }, {   0,16145 },
+ { 254,2992 }, { 255,2992 }, { 256,2992 }, {   0,  50 }, {   0,16509 },
  {   1,4375 }, {   2,4375 }, {   3,4375 }, {   4,4375 }, {   5,4375 },
  {   6,4375 }, {   7,4375 }, {   8,4375 }, {   9,4375 }, {  10,4375 },
  {  11,4375 }, {  12,4375 }, {  13,4375 }, {  14,4375 }, {  15,4375 },
@@ -1782,7 +1782,7 @@ static const struct yy_trans_info yy_transition[21514] =
  { 241,4375 }, { 242,4375 }, { 243,4375 }, { 244,4375 }, { 245,4375 },
  { 246,4375 }, { 247,4375 }, { 248,4375 }, { 249,4375 }, { 250,4375 },
  { 251,4375 }, { 252,4375 }, { 253,4375 }, { 254,4375 }, { 255,4375 },
- { 256,4375 }, {   0,  50 }, {   0,15887 }, {   1,2476 }, {   2,2476 },
+ { 256,4375 }, {   0,  50 }, {   0,16251 }, {   1,2476 }, {   2,2476 },
  {   3,2476 }, {   4,2476 }, {   5,2476 }, {   6,2476 }, {   7,2476 },
  {   8,2476 }, {   9,2451 }, {  10,2451 }, {  11,2476 }, {  12,2476 },
  {  13,2451 }, {  14,2476 }, {  15,2476 }, {  16,2476 }, {  17,2476 },
@@ -1839,7 +1839,7 @@ static const struct yy_trans_info yy_transition[21514] =
  { 243,2476 }, { 244,2476 }, { 245,2476 }, { 246,2476 }, { 247,2476 },
  { 248,2476 }, { 249,2476 }, { 250,2476 }, { 251,2476 }, { 252,2476 },
  { 253,2476 }, { 254,2476 }, { 255,2476 }, { 256,2476 }, {   0,  50 },
- {   0,15629 }, {   1,2218 }, {   2,2218 }, {   3,2218 }, {   4,2218 },
+ {   0,15993 }, {   1,2218 }, {   2,2218 }, {   3,2218 }, {   4,2218 },
  {   5,2218 }, {   6,2218 }, {   7,2218 }, {   8,2218 }, {   9,2193 },
  {  10,2193 }, {  11,2218 }, {  12,2218 }, {  13,2193 }, {  14,2218 },
  {  15,2218 }, {  16,2218 }, {  17,2218 }, {  18,2218 }, {  19,2218 },
@@ -1895,7 +1895,7 @@ static const struct yy_trans_info yy_transition[21514] =
  { 240,2218 }, { 241,2218 }, { 242,2218 }, { 243,2218 }, { 244,2218 },
  { 245,2218 }, { 246,2218 }, { 247,2218 }, { 248,2218 }, { 249,2218 },
  { 250,2218 }, { 251,2218 }, { 252,2218 }, { 253,2218 }, { 254,2218 },
- { 255,2218 }, { 256,2218 }, {   0,  50 }, {   0,15371 }, {   1,1960 },
+ { 255,2218 }, { 256,2218 }, {   0,  50 }, {   0,15735 }, {   1,1960 },
  {   2,1960 }, {   3,1960 }, {   4,1960 }, {   5,1960 }, {   6,1960 },
  {   7,1960 }, {   8,1960 }, {   9,1935 }, {  10,1935 }, {  11,1960 },
 
@@ -1952,7 +1952,7 @@ static const struct yy_trans_info yy_transition[21514] =
  { 242,1960 }, { 243,1960 }, { 244,1960 }, { 245,1960 }, { 246,1960 },
  { 247,1960 }, { 248,1960 }, { 249,1960 }, { 250,1960 }, { 251,1960 },
  { 252,1960 }, { 253,1960 }, { 254,1960 }, { 255,1960 }, { 256,1960 },
- {   0,  50 }, {   0,15113 }, {   1,1702 }, {   2,1702 }, {   3,1702 },
+ {   0,  50 }, {   0,15477 }, {   1,1702 }, {   2,1702 }, {   3,1702 },
 
  {   4,1702 }, {   5,1702 }, {   6,1702 }, {   7,1702 }, {   8,1702 },
  {   9,1677 }, {  10,1677 }, {  11,1702 }, {  12,1702 }, {  13,1677 },
@@ -2009,7 +2009,7 @@ static const struct yy_trans_info yy_transition[21514] =
  { 244,1702 }, { 245,1702 }, { 246,1702 }, { 247,1702 }, { 248,1702 },
  { 249,1702 }, { 250,1702 }, { 251,1702 }, { 252,1702 }, { 253,1702 },
 
- { 254,1702 }, { 255,1702 }, { 256,1702 }, {   0,  50 }, {   0,14855 },
+ { 254,1702 }, { 255,1702 }, { 256,1702 }, {   0,  50 }, {   0,15219 },
  {   1,1444 }, {   2,1444 }, {   3,1444 }, {   4,1444 }, {   5,1444 },
  {   6,1444 }, {   7,1444 }, {   8,1444 }, {   9,1419 }, {  10,1419 },
  {  11,1444 }, {  12,1444 }, {  13,1419 }, {  14,1444 }, {  15,1444 },
@@ -2066,7 +2066,7 @@ static const struct yy_trans_info yy_transition[21514] =
 
  { 246,1444 }, { 247,1444 }, { 248,1444 }, { 249,1444 }, { 250,1444 },
  { 251,1444 }, { 252,1444 }, { 253,1444 }, { 254,1444 }, { 255,1444 },
- { 256,1444 }, {   0,  51 }, {   0,14597 }, {   1,4769 }, {   2,4769 },
+ { 256,1444 }, {   0,  51 }, {   0,14961 }, {   1,4769 }, {   2,4769 },
  {   3,4769 }, {   4,4769 }, {   5,4769 }, {   6,4769 }, {   7,4769 },
  {   8,4769 }, {   9,4769 }, {  10,4769 }, {  11,4769 }, {  12,4769 },
  {  13,4769 }, {  14,4769 }, {  15,4769 }, {  16,4769 }, {  17,4769 },
@@ -2123,7 +2123,7 @@ static const struct yy_trans_info yy_transition[21514] =
  { 243,4769 }, { 244,4769 }, { 245,4769 }, { 246,4769 }, { 247,4769 },
  { 248,4769 }, { 249,4769 }, { 250,4769 }, { 251,4769 }, { 252,4769 },
  { 253,4769 }, { 254,4769 }, { 255,4769 }, { 256,4769 }, {   0,  51 },
- {   0,14339 }, {   1,4511 }, {   2,4511 }, {   3,4511 }, {   4,4511 },
+ {   0,14703 }, {   1,4511 }, {   2,4511 }, {   3,4511 }, {   4,4511 },
  {   5,4511 }, {   6,4511 }, {   7,4511 }, {   8,4511 }, {   9,4511 },
  {  10,4511 }, {  11,4511 }, {  12,4511 }, {  13,4511 }, {  14,4511 },
  {  15,4511 }, {  16,4511 }, {  17,4511 }, {  18,4511 }, {  19,4511 },
@@ -2179,7 +2179,7 @@ static const struct yy_trans_info yy_transition[21514] =
  { 240,4511 }, { 241,4511 }, { 242,4511 }, { 243,4511 }, { 244,4511 },
  { 245,4511 }, { 246,4511 }, { 247,4511 }, { 248,4511 }, { 249,4511 },
  { 250,4511 }, { 251,4511 }, { 252,4511 }, { 253,4511 }, { 254,4511 },
- { 255,4511 }, { 256,4511 }, {   0,  10 }, {   0,14081 }, {   1,4769 },
+ { 255,4511 }, { 256,4511 }, {   0,  10 }, {   0,14445 }, {   1,4769 },
  {   2,4769 }, {   3,4769 }, {   4,4769 }, {   5,4769 }, {   6,4769 },
  {   7,4769 }, {   8,4769 }, {   9,4769 }, {  10,4769 }, {  11,4769 },
  {  12,4769 }, {  13,4769 }, {  14,4769 }, {  15,4769 }, {  16,4769 },
@@ -2236,7 +2236,7 @@ static const struct yy_trans_info yy_transition[21514] =
  { 242,4769 }, { 243,4769 }, { 244,4769 }, { 245,4769 }, { 246,4769 },
  { 247,4769 }, { 248,4769 }, { 249,4769 }, { 250,4769 }, { 251,4769 },
  { 252,4769 }, { 253,4769 }, { 254,4769 }, { 255,4769 }, {   0,  11 },
- {   0,13824 }, {   0,   2 }, {   0,13822 }, {   0,   0 }, {   0,13820 },
+ {   0,14188 }, {   0,   2 }, {   0,14186 }, {   0,   0 }, {   0,14184 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 },
 
@@ -2264,7 +2264,7 @@ static const struct yy_trans_info yy_transition[21514] =
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,4769 }, {   0,   2 },
- {   0,13699 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
+ {   0,14063 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
  {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
  {  10,-123 }, {  11,   0 }, {  12,   0 }, {  13,-123 }, {  14,   0 },
  {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
@@ -2320,13 +2320,13 @@ static const struct yy_trans_info yy_transition[21514] =
  { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
  { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
  { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
- { 255,   0 }, {   0,   0 }, {   0,13442 }, {   0,   0 }, {   0,13440 },
- {   0,   5 }, {   0,13438 }, {   0,  48 }, {   0,13436 }, {   0,   0 },
+ { 255,   0 }, {   0,   0 }, {   0,13806 }, {   0,   0 }, {   0,13804 },
+ {   0,   5 }, {   0,13802 }, {   0,  48 }, {   0,13800 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,13411 }, {   1,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,13775 }, {   1,   0 },
 
  {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
  {   7,   0 }, {   8,   0 }, {   9, -25 }, {  10, -25 }, {  11,   0 },
@@ -2384,14 +2384,14 @@ static const struct yy_trans_info yy_transition[21514] =
  { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
 
  { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
- {   0,  35 }, {   0,13153 }, {   0,  38 }, {   0,13151 }, {   0,  39 },
- {   0,13149 }, {   0,  33 }, {   0,13147 }, {   0,  32 }, {   0,13145 },
- {   9,   0 }, {  10,   0 }, {   0,  47 }, {   0,13141 }, {  13,   0 },
- {   0,  49 }, {   0,13138 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  35 }, {   0,13517 }, {   0,  38 }, {   0,13515 }, {   0,  39 },
+ {   0,13513 }, {   0,  33 }, {   0,13511 }, {   0,  32 }, {   0,13509 },
+ {   9,   0 }, {  10,   0 }, {   0,  47 }, {   0,13505 }, {  13,   0 },
+ {   0,  49 }, {   0,13502 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 },
- {   0,13119 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
+ {   0,13483 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
  {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
 
  {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 }, {  14,   0 },
@@ -2447,7 +2447,7 @@ static const struct yy_trans_info yy_transition[21514] =
  { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
  { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
  { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
- { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,12861 }, {   1,-258 },
+ { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,13225 }, {   1,-258 },
 
  {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 },
  {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 },
@@ -2505,7 +2505,7 @@ static const struct yy_trans_info yy_transition[21514] =
  { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 },
 
  { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 },
- {   0,   0 }, {   0,12603 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   0,   0 }, {   0,12967 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
  {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
  {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
  {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
@@ -2561,7 +2561,7 @@ static const struct yy_trans_info yy_transition[21514] =
 
  { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
  { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,12345 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,12709 },
  {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
  {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
  {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 },
@@ -2618,7 +2618,7 @@ static const struct yy_trans_info yy_transition[21514] =
  { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
  { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
  { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
- { 256,-258 }, {   0,   0 }, {   0,12087 }, {   1,-1324 }, {   2,-1324 },
+ { 256,-258 }, {   0,   0 }, {   0,12451 }, {   1,-1324 }, {   2,-1324 },
  {   3,-1324 }, {   4,-1324 }, {   5,-1324 }, {   6,-1324 }, {   7,-1324 },
  {   8,-1324 }, {   9,-1054 }, {  10,-1054 }, {  11,-1324 }, {  12,-1324 },
  {  13,-1054 }, {  14,-1324 }, {  15,-1324 }, {  16,-1324 }, {  17,-1324 },
@@ -2675,7 +2675,7 @@ static const struct yy_trans_info yy_transition[21514] =
  { 243,-1324 }, { 244,-1324 }, { 245,-1324 }, { 246,-1324 }, { 247,-1324 },
  { 248,-1324 }, { 249,-1324 }, { 250,-1324 }, { 251,-1324 }, { 252,-1324 },
  { 253,-1324 }, { 254,-1324 }, { 255,-1324 }, { 256,-1324 }, {   0,  48 },
- {   0,11829 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,12193 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -2687,7 +2687,7 @@ static const struct yy_trans_info yy_transition[21514] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  48,3676 }, {  49,3676 },
  {  50,3676 }, {  51,3676 }, {  52,3676 }, {  53,3676 }, {  54,3676 },
- {  55,3676 }, {  56,3676 }, {  57,3676 }, {   0,   0 }, {   0,11770 },
+ {  55,3676 }, {  56,3676 }, {  57,3676 }, {   0,   0 }, {   0,12134 },
  {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 },
  {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,   0 },
 
@@ -2744,7 +2744,7 @@ static const struct yy_trans_info yy_transition[21514] =
  { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 },
  { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 },
  { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 },
- { 256,   0 }, {   0,   0 }, {   0,11512 }, {   1,-258 }, {   2,-258 },
+ { 256,   0 }, {   0,   0 }, {   0,11876 }, {   1,-258 }, {   2,-258 },
 
  {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 }, {   7,-258 },
  {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 }, {  12,-258 },
@@ -2802,7 +2802,7 @@ static const struct yy_trans_info yy_transition[21514] =
  { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 }, { 252,-258 },
 
  { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 }, {   0,   0 },
- {   0,11254 }, {   1,-2157 }, {   2,-2157 }, {   3,-2157 }, {   4,-2157 },
+ {   0,11618 }, {   1,-2157 }, {   2,-2157 }, {   3,-2157 }, {   4,-2157 },
  {   5,-2157 }, {   6,-2157 }, {   7,-2157 }, {   8,-2157 }, {   9,3487 },
  {  10,3487 }, {  11,-2157 }, {  12,-2157 }, {  13,3487 }, {  14,-2157 },
  {  15,-2157 }, {  16,-2157 }, {  17,-2157 }, {  18,-2157 }, {  19,-2157 },
@@ -2858,7 +2858,7 @@ static const struct yy_trans_info yy_transition[21514] =
 
  { 245,-2157 }, { 246,-2157 }, { 247,-2157 }, { 248,-2157 }, { 249,-2157 },
  { 250,-2157 }, { 251,-2157 }, { 252,-2157 }, { 253,-2157 }, { 254,-2157 },
- { 255,-2157 }, { 256,-2157 }, {   0,   0 }, {   0,10996 }, {   1,-2415 },
+ { 255,-2157 }, { 256,-2157 }, {   0,   0 }, {   0,11360 }, {   1,-2415 },
  {   2,-2415 }, {   3,-2415 }, {   4,-2415 }, {   5,-2415 }, {   6,-2415 },
  {   7,-2415 }, {   8,-2415 }, {   9,-2440 }, {  10,-2440 }, {  11,-2415 },
  {  12,-2415 }, {  13,-2440 }, {  14,-2415 }, {  15,-2415 }, {  16,-2415 },
@@ -2915,7 +2915,7 @@ static const struct yy_trans_info yy_transition[21514] =
  { 242,-2415 }, { 243,-2415 }, { 244,-2415 }, { 245,-2415 }, { 246,-2415 },
  { 247,-2415 }, { 248,-2415 }, { 249,-2415 }, { 250,-2415 }, { 251,-2415 },
  { 252,-2415 }, { 253,-2415 }, { 254,-2415 }, { 255,-2415 }, { 256,-2415 },
- {   0,   0 }, {   0,10738 }, {   1,-2673 }, {   2,-2673 }, {   3,-2673 },
+ {   0,   0 }, {   0,11102 }, {   1,-2673 }, {   2,-2673 }, {   3,-2673 },
  {   4,-2673 }, {   5,-2673 }, {   6,-2673 }, {   7,-2673 }, {   8,-2673 },
  {   9,-2698 }, {  10,-2698 }, {  11,-2673 }, {  12,-2673 }, {  13,-2698 },
  {  14,-2673 }, {  15,-2673 }, {  16,-2673 }, {  17,-2673 }, {  18,-2673 },
@@ -2971,7 +2971,7 @@ static const struct yy_trans_info yy_transition[21514] =
  { 239,-2673 }, { 240,-2673 }, { 241,-2673 }, { 242,-2673 }, { 243,-2673 },
  { 244,-2673 }, { 245,-2673 }, { 246,-2673 }, { 247,-2673 }, { 248,-2673 },
  { 249,-2673 }, { 250,-2673 }, { 251,-2673 }, { 252,-2673 }, { 253,-2673 },
- { 254,-2673 }, { 255,-2673 }, { 256,-2673 }, {   0,   0 }, {   0,10480 },
+ { 254,-2673 }, { 255,-2673 }, { 256,-2673 }, {   0,   0 }, {   0,10844 },
  {   1,-2931 }, {   2,-2931 }, {   3,-2931 }, {   4,-2931 }, {   5,-2931 },
  {   6,-2931 }, {   7,-2931 }, {   8,-2931 }, {   9,-2956 }, {  10,-2956 },
  {  11,-2931 }, {  12,-2931 }, {  13,-2956 }, {  14,-2931 }, {  15,-2931 },
@@ -3028,7 +3028,7 @@ static const struct yy_trans_info yy_transition[21514] =
  { 241,-2931 }, { 242,-2931 }, { 243,-2931 }, { 244,-2931 }, { 245,-2931 },
  { 246,-2931 }, { 247,-2931 }, { 248,-2931 }, { 249,-2931 }, { 250,-2931 },
  { 251,-2931 }, { 252,-2931 }, { 253,-2931 }, { 254,-2931 }, { 255,-2931 },
- { 256,-2931 }, {   0,   0 }, {   0,10222 }, {   1,-3189 }, {   2,-3189 },
+ { 256,-2931 }, {   0,   0 }, {   0,10586 }, {   1,-3189 }, {   2,-3189 },
  {   3,-3189 }, {   4,-3189 }, {   5,-3189 }, {   6,-3189 }, {   7,-3189 },
  {   8,-3189 }, {   9,-3214 }, {  10,-3214 }, {  11,-3189 }, {  12,-3189 },
 
@@ -3085,10 +3085,10 @@ static const struct yy_trans_info yy_transition[21514] =
  { 243,-3189 }, { 244,-3189 }, { 245,-3189 }, { 246,-3189 }, { 247,-3189 },
  { 248,-3189 }, { 249,-3189 }, { 250,-3189 }, { 251,-3189 }, { 252,-3189 },
  { 253,-3189 }, { 254,-3189 }, { 255,-3189 }, { 256,-3189 }, {   0,  30 },
- {   0,9964 }, {   0,  37 }, {   0,9962 }, {   0,   0 }, {   0,9960 },
+ {   0,10328 }, {   0,  37 }, {   0,10326 }, {   0,   0 }, {   0,10324 },
 
- {   0,   0 }, {   0,9958 }, {   0,   0 }, {   0,9956 }, {   9,3289 },
- {  10,3289 }, {   0,  13 }, {   0,9952 }, {  13,3289 }, {   0,   0 },
+ {   0,   0 }, {   0,10322 }, {   0,   0 }, {   0,10320 }, {   9,3289 },
+ {  10,3289 }, {   0,  13 }, {   0,10316 }, {  13,3289 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3115,7 +3115,7 @@ static const struct yy_trans_info yy_transition[21514] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,2225 }, {   0,   0 },
  {   0,   0 }, { 126,3297 }, { 125,2226 }, {   0,   0 }, { 125,2251 },
  {   0,   0 }, { 125,2285 }, {   0,   0 }, {   0,   0 }, { 126,2309 },
- {   0,   0 }, {   0,9828 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   0,   0 }, {   0,10192 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
  {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
  {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
  {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
@@ -3171,7 +3171,7 @@ static const struct yy_trans_info yy_transition[21514] =
  { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
  { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
  { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,9570 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,9934 },
  {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
  {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
 
@@ -3228,7 +3228,7 @@ static const struct yy_trans_info yy_transition[21514] =
  { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
  { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
  { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
- { 256,-258 }, {   0,  10 }, {   0,9312 }, {   1,   0 }, {   2,   0 },
+ { 256,-258 }, {   0,  10 }, {   0,9676 }, {   1,   0 }, {   2,   0 },
 
  {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
  {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 },
@@ -3285,11 +3285,11 @@ static const struct yy_trans_info yy_transition[21514] =
  { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
  { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
 
- { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   0 }, {   0,9055 },
- {   0,   0 }, {   0,9053 }, {   0,   0 }, {   0,9051 }, {   0,   5 },
- {   0,9049 }, {   0,  29 }, {   0,9047 }, {   0,  20 }, {   0,9045 },
- {   0,  27 }, {   0,9043 }, {   0,  30 }, {   0,9041 }, {   0,  21 },
- {   0,9039 }, {   0,  18 }, {   0,9037 }, {   0,   0 }, {   0,   0 },
+ { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   0 }, {   0,9419 },
+ {   0,   0 }, {   0,9417 }, {   0,   0 }, {   0,9415 }, {   0,   5 },
+ {   0,9413 }, {   0,  29 }, {   0,9411 }, {   0,  20 }, {   0,9409 },
+ {   0,  27 }, {   0,9407 }, {   0,  30 }, {   0,9405 }, {   0,  21 },
+ {   0,9403 }, {   0,  18 }, {   0,9401 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3310,10 +3310,10 @@ static const struct yy_trans_info yy_transition[21514] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,8942 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,9306 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, { 123,2386 }, {   0,   0 }, { 123,2769 },
- {   0,   0 }, { 123,2769 }, {   0,   4 }, {   0,8926 }, {   1,2769 },
+ {   0,   0 }, { 123,2769 }, {   0,   4 }, {   0,9290 }, {   1,2769 },
  {   2,2769 }, {   3,2769 }, {   4,2769 }, {   5,2769 }, {   6,2769 },
  {   7,2769 }, {   8,2769 }, {   9,2769 }, {  10,2646 }, {  11,2769 },
  {  12,2769 }, {  13,2646 }, {  14,2769 }, {  15,2769 }, {  16,2769 },
@@ -3370,7 +3370,7 @@ static const struct yy_trans_info yy_transition[21514] =
  { 242,2769 }, { 243,2769 }, { 244,2769 }, { 245,2769 }, { 246,2769 },
  { 247,2769 }, { 248,2769 }, { 249,2769 }, { 250,2769 }, { 251,2769 },
  { 252,2769 }, { 253,2769 }, { 254,2769 }, { 255,2769 }, {   0,  38 },
- {   0,8669 }, {   1,-4450 }, {   2,-4450 }, {   3,-4450 }, {   4,-4450 },
+ {   0,9033 }, {   1,-4450 }, {   2,-4450 }, {   3,-4450 }, {   4,-4450 },
  {   5,-4450 }, {   6,-4450 }, {   7,-4450 }, {   8,-4450 }, {   9,-4450 },
 
  {  10,-4450 }, {  11,-4450 }, {  12,-4450 }, {  13,-4450 }, {  14,-4450 },
@@ -3426,7 +3426,7 @@ static const struct yy_trans_info yy_transition[21514] =
  { 240,-4450 }, { 241,-4450 }, { 242,-4450 }, { 243,-4450 }, { 244,-4450 },
  { 245,-4450 }, { 246,-4450 }, { 247,-4450 }, { 248,-4450 }, { 249,-4450 },
  { 250,-4450 }, { 251,-4450 }, { 252,-4450 }, { 253,-4450 }, { 254,-4450 },
- { 255,-4450 }, { 256,-4450 }, {   0,  39 }, {   0,8411 }, {   1,-4192 },
+ { 255,-4450 }, { 256,-4450 }, {   0,  39 }, {   0,8775 }, {   1,-4192 },
 
  {   2,-4192 }, {   3,-4192 }, {   4,-4192 }, {   5,-4192 }, {   6,-4192 },
  {   7,-4192 }, {   8,-4192 }, {   9,-4192 }, {  10,-4192 }, {  11,-4192 },
@@ -3484,7 +3484,7 @@ static const struct yy_trans_info yy_transition[21514] =
  { 247,-4192 }, { 248,-4192 }, { 249,-4192 }, { 250,-4192 }, { 251,-4192 },
 
  { 252,-4192 }, { 253,-4192 }, { 254,-4192 }, { 255,-4192 }, { 256,-4192 },
- {   0,   0 }, {   0,8153 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,8517 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   9,1875 }, {  10,1875 }, {   0,   0 }, {   0,   0 }, {  13,1875 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3511,7 +3511,7 @@ static const struct yy_trans_info yy_transition[21514] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 125,1875 }, { 126,1875 }, {   0,  49 }, {   0,8025 },
+ {   0,   0 }, { 125,1875 }, { 126,1875 }, {   0,  49 }, {   0,8389 },
  {   1,-3745 }, {   2,-3745 }, {   3,-3745 }, {   4,-3745 }, {   5,-3745 },
  {   6,-3745 }, {   7,-3745 }, {   8,-3745 }, {   9,-3745 }, {  10,-3745 },
  {  11,-3745 }, {  12,-3745 }, {  13,-3745 }, {  14,-3745 }, {  15,-3745 },
@@ -3568,34 +3568,34 @@ static const struct yy_trans_info yy_transition[21514] =
  { 241,-3745 }, { 242,-3745 }, { 243,-3745 }, { 244,-3745 }, { 245,-3745 },
  { 246,-3745 }, { 247,-3745 }, { 248,-3745 }, { 249,-3745 }, { 250,-3745 },
  { 251,-3745 }, { 252,-3745 }, { 253,-3745 }, { 254,-3745 }, { 255,-3745 },
- { 256,-3745 }, {   0,  48 }, {   0,7767 }, {   0,   0 }, {   0,   0 },
+ { 256,-3745 }, {   0,  48 }, {   0,8131 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   9,2124 }, {  10,2124 }, {   0,   0 }, {   0,   0 },
  {  13,2124 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,  26 },
- {   0,7739 }, {   0,   0 }, {   0,  36 }, {   0,7736 }, {  32,2124 },
+ {   0,8103 }, {   0,   0 }, {   0,  36 }, {   0,8100 }, {  32,2124 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
- {   0,7709 }, {   0,   0 }, {   0,7707 }, {   1,-5704 }, {   2,-5704 },
+ {   0,8073 }, {   0,   0 }, {   0,8071 }, {   1,-5704 }, {   2,-5704 },
  {   3,-5704 }, {   4,-5704 }, {   5,-5704 }, {   6,-5704 }, {   7,-5704 },
  {   8,-5704 }, {   9,-5729 }, {  10,-5729 }, {  11,-5704 }, {  12,-5704 },
  {  13,-5729 }, {  14,-5704 }, {  15,-5704 }, {  16,-5704 }, {  17,-5704 },
  {  18,-5704 }, {  19,-5704 }, {  20,-5704 }, {  21,-5704 }, {  22,-5704 },
  {  23,-5704 }, {  24,-5704 }, {  25,-5704 }, {  26,-5704 }, {  27,-5704 },
  {  28,-5704 }, {  29,-5704 }, {  30,-5704 }, {  31,-5704 }, {  32,-5729 },
- {   0,  37 }, {   0,7673 }, {   0,   0 }, {  36,-5704 }, {   0,   0 },
+ {   0,  37 }, {   0,8037 }, {   0,   0 }, {  36,-5704 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-5729 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  45,-5704 }, {  46,-5729 }, {  47,-5729 },
 
  {  48,-5704 }, {  49,-5704 }, {  50,-5704 }, {  51,-5704 }, {  52,-5704 },
  {  53,-5704 }, {  54,-5704 }, {  55,-5704 }, {  56,-5704 }, {  57,-5704 },
- {  58,-5704 }, {   0,   0 }, {   0,7647 }, {  61,-5729 }, {   0,   0 },
+ {  58,-5704 }, {   0,   0 }, {   0,8011 }, {  61,-5729 }, {   0,   0 },
  {  63,-5704 }, { 124,1491 }, {  65,-5704 }, {  66,-5704 }, {  67,-5704 },
  {  68,-5704 }, {  69,-5704 }, {  70,-5704 }, {  71,-5704 }, {  72,-5704 },
  {  73,-5704 }, {  74,-5704 }, {  75,-5704 }, {  76,-5704 }, {  77,-5704 },
@@ -3639,7 +3639,7 @@ static const struct yy_trans_info yy_transition[21514] =
 
  { 248,-5704 }, { 249,-5704 }, { 250,-5704 }, { 251,-5704 }, { 252,-5704 },
  { 253,-5704 }, { 254,-5704 }, { 255,-5704 }, { 256,-5704 }, {   0,   0 },
- {   0,7449 }, {   1,-5962 }, {   2,-5962 }, {   3,-5962 }, {   4,-5962 },
+ {   0,7813 }, {   1,-5962 }, {   2,-5962 }, {   3,-5962 }, {   4,-5962 },
  {   5,-5962 }, {   6,-5962 }, {   7,-5962 }, {   8,-5962 }, {   9,-5987 },
  {  10,-5987 }, {  11,-5962 }, {  12,-5962 }, {  13,-5987 }, {  14,-5962 },
  {  15,-5962 }, {  16,-5962 }, {  17,-5962 }, {  18,-5962 }, {  19,-5962 },
@@ -3695,7 +3695,7 @@ static const struct yy_trans_info yy_transition[21514] =
  { 240,-5962 }, { 241,-5962 }, { 242,-5962 }, { 243,-5962 }, { 244,-5962 },
  { 245,-5962 }, { 246,-5962 }, { 247,-5962 }, { 248,-5962 }, { 249,-5962 },
  { 250,-5962 }, { 251,-5962 }, { 252,-5962 }, { 253,-5962 }, { 254,-5962 },
- { 255,-5962 }, { 256,-5962 }, {   0,   0 }, {   0,7191 }, {   1,-6220 },
+ { 255,-5962 }, { 256,-5962 }, {   0,   0 }, {   0,7555 }, {   1,-6220 },
  {   2,-6220 }, {   3,-6220 }, {   4,-6220 }, {   5,-6220 }, {   6,-6220 },
  {   7,-6220 }, {   8,-6220 }, {   9,-6245 }, {  10,-6245 }, {  11,-6220 },
  {  12,-6220 }, {  13,-6245 }, {  14,-6220 }, {  15,-6220 }, {  16,-6220 },
@@ -3752,7 +3752,7 @@ static const struct yy_trans_info yy_transition[21514] =
  { 242,-6220 }, { 243,-6220 }, { 244,-6220 }, { 245,-6220 }, { 246,-6220 },
  { 247,-6220 }, { 248,-6220 }, { 249,-6220 }, { 250,-6220 }, { 251,-6220 },
  { 252,-6220 }, { 253,-6220 }, { 254,-6220 }, { 255,-6220 }, { 256,-6220 },
- {   0,   0 }, {   0,6933 }, {   1,-6478 }, {   2,-6478 }, {   3,-6478 },
+ {   0,   0 }, {   0,7297 }, {   1,-6478 }, {   2,-6478 }, {   3,-6478 },
  {   4,-6478 }, {   5,-6478 }, {   6,-6478 }, {   7,-6478 }, {   8,-6478 },
  {   9,-6503 }, {  10,-6503 }, {  11,-6478 }, {  12,-6478 }, {  13,-6503 },
  {  14,-6478 }, {  15,-6478 }, {  16,-6478 }, {  17,-6478 }, {  18,-6478 },
@@ -3808,9 +3808,9 @@ static const struct yy_trans_info yy_transition[21514] =
  { 239,-6478 }, { 240,-6478 }, { 241,-6478 }, { 242,-6478 }, { 243,-6478 },
  { 244,-6478 }, { 245,-6478 }, { 246,-6478 }, { 247,-6478 }, { 248,-6478 },
  { 249,-6478 }, { 250,-6478 }, { 251,-6478 }, { 252,-6478 }, { 253,-6478 },
- { 254,-6478 }, { 255,-6478 }, { 256,-6478 }, {   0,   0 }, {   0,6675 },
- {   0,  24 }, {   0,6673 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,6669 }, {   0,  30 }, {   0,6667 }, {   9,   0 }, {  10,   0 },
+ { 254,-6478 }, { 255,-6478 }, { 256,-6478 }, {   0,   0 }, {   0,7039 },
+ {   0,  24 }, {   0,7037 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,7033 }, {   0,  30 }, {   0,7031 }, {   9,   0 }, {  10,   0 },
  {   9,2122 }, {  10,2122 }, {  13,   0 }, {   0,   0 }, {  13,2122 },
 
  {   0,   0 }, {   9,  -8 }, {  10,  -8 }, {   0,   0 }, {   0,   0 },
@@ -3838,7 +3838,7 @@ static const struct yy_trans_info yy_transition[21514] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, { 125, 483 }, { 126,1056 }, { 123,2762 }, {   0,   0 },
- { 123,1065 }, {   0,   0 }, {   0,6542 }, {   1,2119 }, {   2,2119 },
+ { 123,1065 }, {   0,   0 }, {   0,6906 }, {   1,2119 }, {   2,2119 },
  {   3,2119 }, {   4,2119 }, {   5,2119 }, {   6,2119 }, {   7,2119 },
  {   8,2119 }, {   9,2119 }, {  10,2119 }, {  11,2119 }, {  12,2119 },
  {  13,2119 }, {  14,2119 }, {  15,2119 }, {  16,2119 }, {  17,2119 },
@@ -3895,10 +3895,10 @@ static const struct yy_trans_info yy_transition[21514] =
  { 243,2119 }, { 244,2119 }, { 245,2119 }, { 246,2119 }, { 247,2119 },
  { 248,2119 }, { 249,2119 }, { 250,2119 }, { 251,2119 }, { 252,2119 },
  { 253,2119 }, { 254,2119 }, { 255,2119 }, { 256,2119 }, {   0,   0 },
- {   0,6284 }, {   0,   1 }, {   0,6282 }, {   0,   4 }, {   0,6280 },
- {   0,  47 }, {   0,6278 }, {   0,  41 }, {   0,6276 }, {   0,   0 },
- {   0,6274 }, {   0,  20 }, {   0,6272 }, {   0,   0 }, {  10,   0 },
- {   0,  19 }, {   0,6268 }, {  13,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,6648 }, {   0,   1 }, {   0,6646 }, {   0,   4 }, {   0,6644 },
+ {   0,  47 }, {   0,6642 }, {   0,  41 }, {   0,6640 }, {   0,   0 },
+ {   0,6638 }, {   0,  20 }, {   0,6636 }, {   0,   0 }, {  10,   0 },
+ {   0,  19 }, {   0,6632 }, {  13,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3907,7 +3907,7 @@ static const struct yy_trans_info yy_transition[21514] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,2633 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,2635 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3915,7 +3915,7 @@ static const struct yy_trans_info yy_transition[21514] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,6190 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,6554 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3923,7 +3923,7 @@ static const struct yy_trans_info yy_transition[21514] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,2635 }, {   0,   0 },
 
- { 123,2635 }, {   0,   4 }, {   0,6157 }, {   1,   0 }, {   2,   0 },
+ { 123,2635 }, {   0,   4 }, {   0,6521 }, {   1,   0 }, {   2,   0 },
  {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
  {   8,   0 }, {   9,   0 }, {  10,-123 }, {  11,   0 }, {  12,   0 },
  {  13,-123 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
@@ -3942,7 +3942,7 @@ static const struct yy_trans_info yy_transition[21514] =
  {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 },
  {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 },
  {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 },
- {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 }, { 125,2551 },
+ {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 }, { 125,2553 },
  {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 },
 
  {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 },
@@ -3979,77 +3979,77 @@ static const struct yy_trans_info yy_transition[21514] =
  { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
 
  { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
- { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   4 }, {   0,5900 },
- {   1,-257 }, {   2,-257 }, {   3,-257 }, {   4,-257 }, {   5,-257 },
- {   6,-257 }, {   7,-257 }, {   8,-257 }, {   9,-257 }, {  10,-380 },
- {  11,-257 }, {  12,-257 }, {  13,-380 }, {  14,-257 }, {  15,-257 },
- {  16,-257 }, {  17,-257 }, {  18,-257 }, {  19,-257 }, {  20,-257 },
- {  21,-257 }, {  22,-257 }, {  23,-257 }, {  24,-257 }, {  25,-257 },
- {  26,-257 }, {  27,-257 }, {  28,-257 }, {  29,-257 }, {  30,-257 },
- {  31,-257 }, {  32,-257 }, {  33,-257 }, {  34,-257 }, {  35,-257 },
- {  36,-257 }, {  37,-257 }, {  38,-257 }, {  39,-257 }, {  40,-257 },
-
- {  41,-257 }, {  42,-257 }, {  43,-257 }, {  44,-257 }, {  45,-257 },
- {  46,-257 }, {  47,-257 }, {  48,-257 }, {  49,-257 }, {  50,-257 },
- {  51,-257 }, {  52,-257 }, {  53,-257 }, {  54,-257 }, {  55,-257 },
- {  56,-257 }, {  57,-257 }, {  58,-257 }, {  59,-257 }, {  60,-257 },
- {  61,-257 }, {  62,-257 }, {  63,-257 }, {  64,-257 }, {  65,-257 },
- {  66,-257 }, {  67,-257 }, {  68,-257 }, {  69,-257 }, {  70,-257 },
- {  71,-257 }, {  72,-257 }, {  73,-257 }, {  74,-257 }, {  75,-257 },
- {  76,-257 }, {  77,-257 }, {  78,-257 }, {  79,-257 }, {  80,-257 },
- {  81,-257 }, {  82,-257 }, {  83,-257 }, {  84,-257 }, {  85,-257 },
- {  86,-257 }, {  87,-257 }, {  88,-257 }, {  89,-257 }, {  90,-257 },
-
- {  91,-257 }, {   0,   0 }, {  93,-257 }, {  94,-257 }, {  95,-257 },
- {  96,-257 }, {  97,-257 }, {  98,-257 }, {  99,-257 }, { 100,-257 },
- { 101,-257 }, { 102,-257 }, { 103,-257 }, { 104,-257 }, { 105,-257 },
- { 106,-257 }, { 107,-257 }, { 108,-257 }, { 109,-257 }, { 110,-257 },
- { 111,-257 }, { 112,-257 }, { 113,-257 }, { 114,-257 }, { 115,-257 },
- { 116,-257 }, { 117,-257 }, { 118,-257 }, { 119,-257 }, { 120,-257 },
- { 121,-257 }, { 122,-257 }, {   0,   0 }, { 124,-257 }, { 125,-257 },
- { 126,-257 }, { 127,-257 }, { 128,-257 }, { 129,-257 }, { 130,-257 },
- { 131,-257 }, { 132,-257 }, { 133,-257 }, { 134,-257 }, { 135,-257 },
- { 136,-257 }, { 137,-257 }, { 138,-257 }, { 139,-257 }, { 140,-257 },
-
- { 141,-257 }, { 142,-257 }, { 143,-257 }, { 144,-257 }, { 145,-257 },
- { 146,-257 }, { 147,-257 }, { 148,-257 }, { 149,-257 }, { 150,-257 },
- { 151,-257 }, { 152,-257 }, { 153,-257 }, { 154,-257 }, { 155,-257 },
- { 156,-257 }, { 157,-257 }, { 158,-257 }, { 159,-257 }, { 160,-257 },
- { 161,-257 }, { 162,-257 }, { 163,-257 }, { 164,-257 }, { 165,-257 },
- { 166,-257 }, { 167,-257 }, { 168,-257 }, { 169,-257 }, { 170,-257 },
- { 171,-257 }, { 172,-257 }, { 173,-257 }, { 174,-257 }, { 175,-257 },
- { 176,-257 }, { 177,-257 }, { 178,-257 }, { 179,-257 }, { 180,-257 },
- { 181,-257 }, { 182,-257 }, { 183,-257 }, { 184,-257 }, { 185,-257 },
- { 186,-257 }, { 187,-257 }, { 188,-257 }, { 189,-257 }, { 190,-257 },
-
- { 191,-257 }, { 192,-257 }, { 193,-257 }, { 194,-257 }, { 195,-257 },
- { 196,-257 }, { 197,-257 }, { 198,-257 }, { 199,-257 }, { 200,-257 },
- { 201,-257 }, { 202,-257 }, { 203,-257 }, { 204,-257 }, { 205,-257 },
- { 206,-257 }, { 207,-257 }, { 208,-257 }, { 209,-257 }, { 210,-257 },
- { 211,-257 }, { 212,-257 }, { 213,-257 }, { 214,-257 }, { 215,-257 },
- { 216,-257 }, { 217,-257 }, { 218,-257 }, { 219,-257 }, { 220,-257 },
- { 221,-257 }, { 222,-257 }, { 223,-257 }, { 224,-257 }, { 225,-257 },
- { 226,-257 }, { 227,-257 }, { 228,-257 }, { 229,-257 }, { 230,-257 },
- { 231,-257 }, { 232,-257 }, { 233,-257 }, { 234,-257 }, { 235,-257 },
- { 236,-257 }, { 237,-257 }, { 238,-257 }, { 239,-257 }, { 240,-257 },
-
- { 241,-257 }, { 242,-257 }, { 243,-257 }, { 244,-257 }, { 245,-257 },
- { 246,-257 }, { 247,-257 }, { 248,-257 }, { 249,-257 }, { 250,-257 },
- { 251,-257 }, { 252,-257 }, { 253,-257 }, { 254,-257 }, { 255,-257 },
- {   0,   0 }, {   0,5643 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   0 }, {   0,6264 },
+ {   1,2282 }, {   2,2282 }, {   3,2282 }, {   4,2282 }, {   5,2282 },
+ {   6,2282 }, {   7,2282 }, {   8,2282 }, {   9,2282 }, {  10,2255 },
+ {  11,2282 }, {  12,2282 }, {  13,2255 }, {  14,2282 }, {  15,2282 },
+ {  16,2282 }, {  17,2282 }, {  18,2282 }, {  19,2282 }, {  20,2282 },
+ {  21,2282 }, {  22,2282 }, {  23,2282 }, {  24,2282 }, {  25,2282 },
+ {  26,2282 }, {  27,2282 }, {  28,2282 }, {  29,2282 }, {  30,2282 },
+ {  31,2282 }, {  32,2282 }, {  33,2282 }, {  34,2282 }, {  35,2282 },
+ {  36,2282 }, {  37,2282 }, {  38,2282 }, {  39,2282 }, {  40,2282 },
+
+ {  41,2282 }, {  42,2282 }, {  43,2282 }, {  44,2282 }, {  45,2282 },
+ {  46,2282 }, {  47,2282 }, {  48,2282 }, {  49,2282 }, {  50,2282 },
+ {  51,2282 }, {  52,2282 }, {  53,2282 }, {  54,2282 }, {  55,2282 },
+ {  56,2282 }, {  57,2282 }, {  58,2282 }, {  59,2282 }, {  60,2282 },
+ {  61,2282 }, {  62,2282 }, {  63,2282 }, {  64,2282 }, {  65,2282 },
+ {  66,2282 }, {  67,2282 }, {  68,2282 }, {  69,2282 }, {  70,2282 },
+ {  71,2282 }, {  72,2282 }, {  73,2282 }, {  74,2282 }, {  75,2282 },
+ {  76,2282 }, {  77,2282 }, {  78,2282 }, {  79,2282 }, {  80,2282 },
+ {  81,2282 }, {  82,2282 }, {  83,2282 }, {  84,2282 }, {  85,2282 },
+ {  86,2282 }, {  87,2282 }, {  88,2282 }, {  89,2282 }, {  90,2282 },
+
+ {  91,2282 }, {   0,   0 }, {  93,2282 }, {  94,2282 }, {  95,2282 },
+ {  96,2282 }, {  97,2282 }, {  98,2282 }, {  99,2282 }, { 100,2282 },
+ { 101,2282 }, { 102,2282 }, { 103,2282 }, { 104,2282 }, { 105,2282 },
+ { 106,2282 }, { 107,2282 }, { 108,2282 }, { 109,2282 }, { 110,2282 },
+ { 111,2282 }, { 112,2282 }, { 113,2282 }, { 114,2282 }, { 115,2282 },
+ { 116,2282 }, { 117,2282 }, { 118,2282 }, { 119,2282 }, { 120,2282 },
+ { 121,2282 }, { 122,2282 }, {   0,   0 }, { 124,2282 }, { 125,2282 },
+ { 126,2282 }, { 127,2282 }, { 128,2282 }, { 129,2282 }, { 130,2282 },
+ { 131,2282 }, { 132,2282 }, { 133,2282 }, { 134,2282 }, { 135,2282 },
+ { 136,2282 }, { 137,2282 }, { 138,2282 }, { 139,2282 }, { 140,2282 },
+
+ { 141,2282 }, { 142,2282 }, { 143,2282 }, { 144,2282 }, { 145,2282 },
+ { 146,2282 }, { 147,2282 }, { 148,2282 }, { 149,2282 }, { 150,2282 },
+ { 151,2282 }, { 152,2282 }, { 153,2282 }, { 154,2282 }, { 155,2282 },
+ { 156,2282 }, { 157,2282 }, { 158,2282 }, { 159,2282 }, { 160,2282 },
+ { 161,2282 }, { 162,2282 }, { 163,2282 }, { 164,2282 }, { 165,2282 },
+ { 166,2282 }, { 167,2282 }, { 168,2282 }, { 169,2282 }, { 170,2282 },
+ { 171,2282 }, { 172,2282 }, { 173,2282 }, { 174,2282 }, { 175,2282 },
+ { 176,2282 }, { 177,2282 }, { 178,2282 }, { 179,2282 }, { 180,2282 },
+ { 181,2282 }, { 182,2282 }, { 183,2282 }, { 184,2282 }, { 185,2282 },
+ { 186,2282 }, { 187,2282 }, { 188,2282 }, { 189,2282 }, { 190,2282 },
+
+ { 191,2282 }, { 192,2282 }, { 193,2282 }, { 194,2282 }, { 195,2282 },
+ { 196,2282 }, { 197,2282 }, { 198,2282 }, { 199,2282 }, { 200,2282 },
+ { 201,2282 }, { 202,2282 }, { 203,2282 }, { 204,2282 }, { 205,2282 },
+ { 206,2282 }, { 207,2282 }, { 208,2282 }, { 209,2282 }, { 210,2282 },
+ { 211,2282 }, { 212,2282 }, { 213,2282 }, { 214,2282 }, { 215,2282 },
+ { 216,2282 }, { 217,2282 }, { 218,2282 }, { 219,2282 }, { 220,2282 },
+ { 221,2282 }, { 222,2282 }, { 223,2282 }, { 224,2282 }, { 225,2282 },
+ { 226,2282 }, { 227,2282 }, { 228,2282 }, { 229,2282 }, { 230,2282 },
+ { 231,2282 }, { 232,2282 }, { 233,2282 }, { 234,2282 }, { 235,2282 },
+ { 236,2282 }, { 237,2282 }, { 238,2282 }, { 239,2282 }, { 240,2282 },
+
+ { 241,2282 }, { 242,2282 }, { 243,2282 }, { 244,2282 }, { 245,2282 },
+ { 246,2282 }, { 247,2282 }, { 248,2282 }, { 249,2282 }, { 250,2282 },
+ { 251,2282 }, { 252,2282 }, { 253,2282 }, { 254,2282 }, { 255,2282 },
+ {   0,   0 }, {   0,6007 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   9,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 }, {  13,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,5617 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,5981 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 },
 
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,5606 }, {   0,  16 },
- {   0,5604 }, {   0,  26 }, {   0,5602 }, {   0,  17 }, {   0,5600 },
- {   0,  36 }, {   0,5598 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,5970 }, {   0,  16 },
+ {   0,5968 }, {   0,  26 }, {   0,5966 }, {   0,  17 }, {   0,5964 },
+ {   0,  36 }, {   0,5962 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,5583 }, {   1,-7828 }, {   2,-7828 }, {   3,-7828 },
+ {   0,   0 }, {   0,5947 }, {   1,-7828 }, {   2,-7828 }, {   3,-7828 },
  {   4,-7828 }, {   5,-7828 }, {   6,-7828 }, {   7,-7828 }, {   8,-7828 },
  {   9,-7853 }, {  10,-7853 }, {  11,-7828 }, {  12,-7828 }, {  13,-7853 },
  {  14,-7828 }, {  15,-7828 }, {  16,-7828 }, {  17,-7828 }, {  18,-7828 },
@@ -4069,9 +4069,9 @@ static const struct yy_trans_info yy_transition[21514] =
  {  74,-7828 }, {  75,-7828 }, {  76,-7828 }, {  77,-7828 }, {  78,-7828 },
  {  79,-7828 }, {  80,-7828 }, {  81,-7828 }, {  82,-7828 }, {  83,-7828 },
  {  84,-7828 }, {  85,-7828 }, {  86,-7828 }, {  87,-7828 }, {  88,-7828 },
- {  89,-7828 }, {  90,-7828 }, { 125,-573 }, { 115,1974 }, {   0,   0 },
+ {  89,-7828 }, {  90,-7828 }, { 125,-573 }, { 115,2761 }, {   0,   0 },
  {   0,   0 }, {  95,-7828 }, {   0,   0 }, {  97,-7828 }, {  98,-7828 },
- {  99,-7828 }, { 100,-7828 }, { 101,1961 }, { 102,-7828 }, { 103,-7828 },
+ {  99,-7828 }, { 100,-7828 }, { 101,2222 }, { 102,-7828 }, { 103,-7828 },
  { 104,-7828 }, { 105,-7828 }, { 106,-7828 }, { 107,-7828 }, { 108,-7828 },
  { 109,-7828 }, { 110,-7828 }, { 111,-7828 }, { 112,-7828 }, { 113,-7828 },
  { 114,-7828 }, { 115,-7828 }, { 116,-7828 }, { 117,-7828 }, { 118,-7828 },
@@ -4105,17 +4105,17 @@ static const struct yy_trans_info yy_transition[21514] =
  { 239,-7828 }, { 240,-7828 }, { 241,-7828 }, { 242,-7828 }, { 243,-7828 },
  { 244,-7828 }, { 245,-7828 }, { 246,-7828 }, { 247,-7828 }, { 248,-7828 },
  { 249,-7828 }, { 250,-7828 }, { 251,-7828 }, { 252,-7828 }, { 253,-7828 },
- { 254,-7828 }, { 255,-7828 }, { 256,-7828 }, {   0,   0 }, {   0,5325 },
+ { 254,-7828 }, { 255,-7828 }, { 256,-7828 }, {   0,   0 }, {   0,5689 },
  {   1,-8086 }, {   2,-8086 }, {   3,-8086 }, {   4,-8086 }, {   5,-8086 },
- {   6,-8086 }, {   7,-8086 }, {   8,-8086 }, {   9,1680 }, {  10,1680 },
- {  11,-8086 }, {  12,-8086 }, {  13,1680 }, {  14,-8086 }, {  15,-8086 },
+ {   6,-8086 }, {   7,-8086 }, {   8,-8086 }, {   9,1682 }, {  10,1682 },
+ {  11,-8086 }, {  12,-8086 }, {  13,1682 }, {  14,-8086 }, {  15,-8086 },
 
  {  16,-8086 }, {  17,-8086 }, {  18,-8086 }, {  19,-8086 }, {  20,-8086 },
  {  21,-8086 }, {  22,-8086 }, {  23,-8086 }, {  24,-8086 }, {  25,-8086 },
  {  26,-8086 }, {  27,-8086 }, {  28,-8086 }, {  29,-8086 }, {  30,-8086 },
- {  31,-8086 }, {  32,1680 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  31,-8086 }, {  32,1682 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  36,-8086 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,1680 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-8086 },
+ {  41,1682 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-8086 },
  {  46,-8111 }, {  47,-8111 }, {  48,-8086 }, {  49,-8086 }, {  50,-8086 },
  {  51,-8086 }, {  52,-8086 }, {  53,-8086 }, {  54,-8086 }, {  55,-8086 },
  {  56,-8086 }, {  57,-8086 }, {  58,-8086 }, {   0,   0 }, {   0,   0 },
@@ -4133,8 +4133,8 @@ static const struct yy_trans_info yy_transition[21514] =
  { 111,-8086 }, { 112,-8086 }, { 113,-8086 }, { 114,-8086 }, { 115,-8086 },
 
  { 116,-8086 }, { 117,-8086 }, { 118,-8086 }, { 119,-8086 }, { 120,-8086 },
- { 121,-8086 }, { 122,-8086 }, {   0,   0 }, { 124,-8111 }, { 125,1680 },
- { 126,1680 }, { 127,-8086 }, { 128,-8086 }, { 129,-8086 }, { 130,-8086 },
+ { 121,-8086 }, { 122,-8086 }, {   0,   0 }, { 124,-8111 }, { 125,1682 },
+ { 126,1682 }, { 127,-8086 }, { 128,-8086 }, { 129,-8086 }, { 130,-8086 },
  { 131,-8086 }, { 132,-8086 }, { 133,-8086 }, { 134,-8086 }, { 135,-8086 },
  { 136,-8086 }, { 137,-8086 }, { 138,-8086 }, { 139,-8086 }, { 140,-8086 },
  { 141,-8086 }, { 142,-8086 }, { 143,-8086 }, { 144,-8086 }, { 145,-8086 },
@@ -4162,16 +4162,16 @@ static const struct yy_trans_info yy_transition[21514] =
  { 241,-8086 }, { 242,-8086 }, { 243,-8086 }, { 244,-8086 }, { 245,-8086 },
  { 246,-8086 }, { 247,-8086 }, { 248,-8086 }, { 249,-8086 }, { 250,-8086 },
  { 251,-8086 }, { 252,-8086 }, { 253,-8086 }, { 254,-8086 }, { 255,-8086 },
- { 256,-8086 }, {   0,   0 }, {   0,5067 }, {   1,-8344 }, {   2,-8344 },
+ { 256,-8086 }, {   0,   0 }, {   0,5431 }, {   1,-8344 }, {   2,-8344 },
  {   3,-8344 }, {   4,-8344 }, {   5,-8344 }, {   6,-8344 }, {   7,-8344 },
 
- {   8,-8344 }, {   9,1424 }, {  10,1424 }, {  11,-8344 }, {  12,-8344 },
- {  13,1424 }, {  14,-8344 }, {  15,-8344 }, {  16,-8344 }, {  17,-8344 },
+ {   8,-8344 }, {   9,1426 }, {  10,1426 }, {  11,-8344 }, {  12,-8344 },
+ {  13,1426 }, {  14,-8344 }, {  15,-8344 }, {  16,-8344 }, {  17,-8344 },
  {  18,-8344 }, {  19,-8344 }, {  20,-8344 }, {  21,-8344 }, {  22,-8344 },
  {  23,-8344 }, {  24,-8344 }, {  25,-8344 }, {  26,-8344 }, {  27,-8344 },
- {  28,-8344 }, {  29,-8344 }, {  30,-8344 }, {  31,-8344 }, {  32,1424 },
+ {  28,-8344 }, {  29,-8344 }, {  30,-8344 }, {  31,-8344 }, {  32,1426 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-8344 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,1424 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,1426 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  45,-8344 }, {  46,-8369 }, {  47,-8369 },
  {  48,-8344 }, {  49,-8344 }, {  50,-8344 }, {  51,-8344 }, {  52,-8344 },
  {  53,-8344 }, {  54,-8344 }, {  55,-8344 }, {  56,-8344 }, {  57,-8344 },
@@ -4190,7 +4190,7 @@ static const struct yy_trans_info yy_transition[21514] =
  { 108,-8344 }, { 109,-8344 }, { 110,-8344 }, { 111,-8344 }, { 112,-8344 },
  { 113,-8344 }, { 114,-8344 }, { 115,-8344 }, { 116,-8344 }, { 117,-8344 },
  { 118,-8344 }, { 119,-8344 }, { 120,-8344 }, { 121,-8344 }, { 122,-8344 },
- {   0,   0 }, { 124,-8369 }, { 125,1424 }, { 126,1424 }, { 127,-8344 },
+ {   0,   0 }, { 124,-8369 }, { 125,1426 }, { 126,1426 }, { 127,-8344 },
  { 128,-8344 }, { 129,-8344 }, { 130,-8344 }, { 131,-8344 }, { 132,-8344 },
  { 133,-8344 }, { 134,-8344 }, { 135,-8344 }, { 136,-8344 }, { 137,-8344 },
  { 138,-8344 }, { 139,-8344 }, { 140,-8344 }, { 141,-8344 }, { 142,-8344 },
@@ -4220,7 +4220,7 @@ static const struct yy_trans_info yy_transition[21514] =
  { 248,-8344 }, { 249,-8344 }, { 250,-8344 }, { 251,-8344 }, { 252,-8344 },
  { 253,-8344 }, { 254,-8344 }, { 255,-8344 }, { 256,-8344 }, {   0,   0 },
 
- {   0,4809 }, {   1,-8602 }, {   2,-8602 }, {   3,-8602 }, {   4,-8602 },
+ {   0,5173 }, {   1,-8602 }, {   2,-8602 }, {   3,-8602 }, {   4,-8602 },
  {   5,-8602 }, {   6,-8602 }, {   7,-8602 }, {   8,-8602 }, {   9,-8627 },
  {  10,-8627 }, {  11,-8602 }, {  12,-8602 }, {  13,-8627 }, {  14,-8602 },
  {  15,-8602 }, {  16,-8602 }, {  17,-8602 }, {  18,-8602 }, {  19,-8602 },
@@ -4242,7 +4242,7 @@ static const struct yy_trans_info yy_transition[21514] =
  {  90,-8602 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  95,-8602 }, {   0,   0 }, {  97,-8602 }, {  98,-8602 }, {  99,-8602 },
 
- { 100,-8602 }, { 101,-8602 }, { 102,1445 }, { 103,-8602 }, { 104,-8602 },
+ { 100,-8602 }, { 101,-8602 }, { 102,1706 }, { 103,-8602 }, { 104,-8602 },
  { 105,-8602 }, { 106,-8602 }, { 107,-8602 }, { 108,-8602 }, { 109,-8602 },
  { 110,-8602 }, { 111,-8602 }, { 112,-8602 }, { 113,-8602 }, { 114,-8602 },
  { 115,-8602 }, { 116,-8602 }, { 117,-8602 }, { 118,-8602 }, { 119,-8602 },
@@ -4276,7 +4276,7 @@ static const struct yy_trans_info yy_transition[21514] =
  { 245,-8602 }, { 246,-8602 }, { 247,-8602 }, { 248,-8602 }, { 249,-8602 },
 
  { 250,-8602 }, { 251,-8602 }, { 252,-8602 }, { 253,-8602 }, { 254,-8602 },
- { 255,-8602 }, { 256,-8602 }, {   0,   0 }, {   0,4551 }, {   0,   0 },
+ { 255,-8602 }, { 256,-8602 }, {   0,   0 }, {   0,4915 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   9,   0 }, {  10,   0 }, {   0,   0 },
  {   0,   0 }, {  13,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -4304,7 +4304,7 @@ static const struct yy_trans_info yy_transition[21514] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,-1639 }, { 126,-1066 },
- {   0,   0 }, {   0,4423 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   0,   0 }, {   0,4787 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
  {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
  {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
 
@@ -4360,7 +4360,7 @@ static const struct yy_trans_info yy_transition[21514] =
  { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
  { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
  { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,4165 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,4529 },
  {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
 
  {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
@@ -4370,7 +4370,7 @@ static const struct yy_trans_info yy_transition[21514] =
  {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 },
  {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 }, {  35,-258 },
  {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,-258 }, {  40,-258 },
- {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,1059 },
+ {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,1423 },
  {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 },
  {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 },
 
@@ -4418,558 +4418,105 @@ static const struct yy_trans_info yy_transition[21514] =
  { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
  { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
 
- { 256,-258 }, {   0,   0 }, {   0,3907 }, {   1, 277 }, {   2, 277 },
- {   3, 277 }, {   4, 277 }, {   5, 277 }, {   6, 277 }, {   7, 277 },
- {   8, 277 }, {   9, 277 }, {  10, 277 }, {  11, 277 }, {  12, 277 },
- {  13, 277 }, {  14, 277 }, {  15, 277 }, {  16, 277 }, {  17, 277 },
- {  18, 277 }, {  19, 277 }, {  20, 277 }, {  21, 277 }, {  22, 277 },
- {  23, 277 }, {  24, 277 }, {  25, 277 }, {  26, 277 }, {  27, 277 },
- {  28, 277 }, {  29, 277 }, {  30, 277 }, {  31, 277 }, {  32, 277 },
- {  33, 277 }, {  34, 277 }, {  35, 277 }, {  36, 277 }, {  37, 277 },
- {  38, 277 }, {  39, 277 }, {  40, 277 }, {  41, 277 }, {  42, 277 },
- {  43, 277 }, {  44, 277 }, {  45, 277 }, {  46, 277 }, {  47,1059 },
-
- {  48, 277 }, {  49, 277 }, {  50, 277 }, {  51, 277 }, {  52, 277 },
- {  53, 277 }, {  54, 277 }, {  55, 277 }, {  56, 277 }, {  57, 277 },
- {  58, 277 }, {  59, 277 }, {  60, 277 }, {  61, 277 }, {  62, 277 },
- {  63, 277 }, {  64, 277 }, {  65, 277 }, {  66, 277 }, {  67, 277 },
- {  68, 277 }, {  69, 277 }, {  70, 277 }, {  71, 277 }, {  72, 277 },
- {  73, 277 }, {  74, 277 }, {  75, 277 }, {  76, 277 }, {  77, 277 },
- {  78, 277 }, {  79, 277 }, {  80, 277 }, {  81, 277 }, {  82, 277 },
- {  83, 277 }, {  84, 277 }, {  85, 277 }, {  86, 277 }, {  87, 277 },
- {  88, 277 }, {  89, 277 }, {  90, 277 }, {  91, 277 }, {  92, 277 },
- {  93, 277 }, {  94, 277 }, {  95, 277 }, {  96, 277 }, {  97, 277 },
-
- {  98, 277 }, {  99, 277 }, { 100, 277 }, { 101, 277 }, { 102, 277 },
- { 103, 277 }, { 104, 277 }, { 105, 277 }, { 106, 277 }, { 107, 277 },
- { 108, 277 }, { 109, 277 }, { 110, 277 }, { 111, 277 }, { 112, 277 },
- { 113, 277 }, { 114, 277 }, { 115, 277 }, { 116, 277 }, { 117, 277 },
- { 118, 277 }, { 119, 277 }, { 120, 277 }, { 121, 277 }, { 122, 277 },
- { 123, 277 }, { 124, 277 }, { 125, 277 }, { 126, 277 }, { 127, 277 },
- { 128, 277 }, { 129, 277 }, { 130, 277 }, { 131, 277 }, { 132, 277 },
- { 133, 277 }, { 134, 277 }, { 135, 277 }, { 136, 277 }, { 137, 277 },
- { 138, 277 }, { 139, 277 }, { 140, 277 }, { 141, 277 }, { 142, 277 },
- { 143, 277 }, { 144, 277 }, { 145, 277 }, { 146, 277 }, { 147, 277 },
-
- { 148, 277 }, { 149, 277 }, { 150, 277 }, { 151, 277 }, { 152, 277 },
- { 153, 277 }, { 154, 277 }, { 155, 277 }, { 156, 277 }, { 157, 277 },
- { 158, 277 }, { 159, 277 }, { 160, 277 }, { 161, 277 }, { 162, 277 },
- { 163, 277 }, { 164, 277 }, { 165, 277 }, { 166, 277 }, { 167, 277 },
- { 168, 277 }, { 169, 277 }, { 170, 277 }, { 171, 277 }, { 172, 277 },
- { 173, 277 }, { 174, 277 }, { 175, 277 }, { 176, 277 }, { 177, 277 },
- { 178, 277 }, { 179, 277 }, { 180, 277 }, { 181, 277 }, { 182, 277 },
- { 183, 277 }, { 184, 277 }, { 185, 277 }, { 186, 277 }, { 187, 277 },
- { 188, 277 }, { 189, 277 }, { 190, 277 }, { 191, 277 }, { 192, 277 },
- { 193, 277 }, { 194, 277 }, { 195, 277 }, { 196, 277 }, { 197, 277 },
-
- { 198, 277 }, { 199, 277 }, { 200, 277 }, { 201, 277 }, { 202, 277 },
- { 203, 277 }, { 204, 277 }, { 205, 277 }, { 206, 277 }, { 207, 277 },
- { 208, 277 }, { 209, 277 }, { 210, 277 }, { 211, 277 }, { 212, 277 },
- { 213, 277 }, { 214, 277 }, { 215, 277 }, { 216, 277 }, { 217, 277 },
- { 218, 277 }, { 219, 277 }, { 220, 277 }, { 221, 277 }, { 222, 277 },
- { 223, 277 }, { 224, 277 }, { 225, 277 }, { 226, 277 }, { 227, 277 },
- { 228, 277 }, { 229, 277 }, { 230, 277 }, { 231, 277 }, { 232, 277 },
- { 233, 277 }, { 234, 277 }, { 235, 277 }, { 236, 277 }, { 237, 277 },
- { 238, 277 }, { 239, 277 }, { 240, 277 }, { 241, 277 }, { 242, 277 },
- { 243, 277 }, { 244, 277 }, { 245, 277 }, { 246, 277 }, { 247, 277 },
-
- { 248, 277 }, { 249, 277 }, { 250, 277 }, { 251, 277 }, { 252, 277 },
- { 253, 277 }, { 254, 277 }, { 255, 277 }, { 256, 277 }, {   0,   1 },
- {   0,3649 }, {   0,   1 }, {   0,3647 }, {   0,  46 }, {   0,3645 },
- {   0,  43 }, {   0,3643 }, {   0,  28 }, {   0,3641 }, {   0,  22 },
- {   0,3639 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,3632 }, {   0,   8 }, {   0,3630 },
- {   0,   1 }, {   0,3628 }, {   0,  44 }, {   0,3626 }, {   0,  25 },
- {   0,3624 }, {   0,   0 }, {   0,3622 }, {   1,-9789 }, {   2,-9789 },
- {   3,-9789 }, {   4,-9789 }, {   5,-9789 }, {   6,-9789 }, {   7,-9789 },
- {   8,-9789 }, {   9,  -4 }, {  10,  -4 }, {  11,-9789 }, {  12,-9789 },
-
- {  13,  -4 }, {  14,-9789 }, {  15,-9789 }, {  16,-9789 }, {  17,-9789 },
- {  18,-9789 }, {  19,-9789 }, {  20,-9789 }, {  21,-9789 }, {  22,-9789 },
- {  23,-9789 }, {  24,-9789 }, {  25,-9789 }, {  26,-9789 }, {  27,-9789 },
- {  28,-9789 }, {  29,-9789 }, {  30,-9789 }, {  31,-9789 }, {  32,  -4 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-9789 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,  -4 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-9789 }, {  46,-9814 }, {  47,-9814 },
- {  48,-9789 }, {  49,-9789 }, {  50,-9789 }, {  51,-9789 }, {  52,-9789 },
- {  53,-9789 }, {  54,-9789 }, {  55,-9789 }, {  56,-9789 }, {  57,-9789 },
- {  58,-9789 }, {   0,   0 }, {   0,   0 }, {  61,-9814 }, {   0,   0 },
-
- {  63,-9789 }, {   0,   0 }, {  65,-9789 }, {  66,-9789 }, {  67,-9789 },
- {  68,-9789 }, {  69,-9789 }, {  70,-9789 }, {  71,-9789 }, {  72,-9789 },
- {  73,-9789 }, {  74,-9789 }, {  75,-9789 }, {  76,-9789 }, {  77,-9789 },
- {  78,-9789 }, {  79,-9789 }, {  80,-9789 }, {  81,-9789 }, {  82,-9789 },
- {  83,-9789 }, {  84,-9789 }, {  85,-9789 }, {  86,-9789 }, {  87,-9789 },
- {  88,-9789 }, {  89,-9789 }, {  90,-9789 }, { 101,1300 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-9789 }, { 123,  21 }, {  97,-9789 },
- {  98,-9789 }, {  99,-9789 }, { 100,-9789 }, { 101,-9789 }, { 102,-9789 },
- { 103,-9789 }, { 104,-9789 }, { 105,-9789 }, { 106,-9789 }, { 107,-9789 },
- { 108,-9789 }, { 109,-9789 }, { 110,-9789 }, { 111,-9789 }, { 112,-9789 },
-
- { 113,-9789 }, { 114,-9789 }, { 115,-9789 }, { 116,-9789 }, { 117,-9789 },
- { 118,-9789 }, { 119,-9789 }, { 120,-9789 }, { 121,-9789 }, { 122,-9789 },
- {   0,   0 }, { 124,-9814 }, { 125,  -4 }, { 126,  -4 }, { 127,-9789 },
- { 128,-9789 }, { 129,-9789 }, { 130,-9789 }, { 131,-9789 }, { 132,-9789 },
- { 133,-9789 }, { 134,-9789 }, { 135,-9789 }, { 136,-9789 }, { 137,-9789 },
- { 138,-9789 }, { 139,-9789 }, { 140,-9789 }, { 141,-9789 }, { 142,-9789 },
- { 143,-9789 }, { 144,-9789 }, { 145,-9789 }, { 146,-9789 }, { 147,-9789 },
- { 148,-9789 }, { 149,-9789 }, { 150,-9789 }, { 151,-9789 }, { 152,-9789 },
- { 153,-9789 }, { 154,-9789 }, { 155,-9789 }, { 156,-9789 }, { 157,-9789 },
- { 158,-9789 }, { 159,-9789 }, { 160,-9789 }, { 161,-9789 }, { 162,-9789 },
-
- { 163,-9789 }, { 164,-9789 }, { 165,-9789 }, { 166,-9789 }, { 167,-9789 },
- { 168,-9789 }, { 169,-9789 }, { 170,-9789 }, { 171,-9789 }, { 172,-9789 },
- { 173,-9789 }, { 174,-9789 }, { 175,-9789 }, { 176,-9789 }, { 177,-9789 },
- { 178,-9789 }, { 179,-9789 }, { 180,-9789 }, { 181,-9789 }, { 182,-9789 },
- { 183,-9789 }, { 184,-9789 }, { 185,-9789 }, { 186,-9789 }, { 187,-9789 },
- { 188,-9789 }, { 189,-9789 }, { 190,-9789 }, { 191,-9789 }, { 192,-9789 },
- { 193,-9789 }, { 194,-9789 }, { 195,-9789 }, { 196,-9789 }, { 197,-9789 },
- { 198,-9789 }, { 199,-9789 }, { 200,-9789 }, { 201,-9789 }, { 202,-9789 },
- { 203,-9789 }, { 204,-9789 }, { 205,-9789 }, { 206,-9789 }, { 207,-9789 },
- { 208,-9789 }, { 209,-9789 }, { 210,-9789 }, { 211,-9789 }, { 212,-9789 },
-
- { 213,-9789 }, { 214,-9789 }, { 215,-9789 }, { 216,-9789 }, { 217,-9789 },
- { 218,-9789 }, { 219,-9789 }, { 220,-9789 }, { 221,-9789 }, { 222,-9789 },
- { 223,-9789 }, { 224,-9789 }, { 225,-9789 }, { 226,-9789 }, { 227,-9789 },
- { 228,-9789 }, { 229,-9789 }, { 230,-9789 }, { 231,-9789 }, { 232,-9789 },
- { 233,-9789 }, { 234,-9789 }, { 235,-9789 }, { 236,-9789 }, { 237,-9789 },
- { 238,-9789 }, { 239,-9789 }, { 240,-9789 }, { 241,-9789 }, { 242,-9789 },
- { 243,-9789 }, { 244,-9789 }, { 245,-9789 }, { 246,-9789 }, { 247,-9789 },
- { 248,-9789 }, { 249,-9789 }, { 250,-9789 }, { 251,-9789 }, { 252,-9789 },
- { 253,-9789 }, { 254,-9789 }, { 255,-9789 }, { 256,-9789 }, {   0,   0 },
- {   0,3364 }, {   1,-10047 }, {   2,-10047 }, {   3,-10047 }, {   4,-10047 },
-
- {   5,-10047 }, {   6,-10047 }, {   7,-10047 }, {   8,-10047 }, {   9,-10072 },
- {  10,-10072 }, {  11,-10047 }, {  12,-10047 }, {  13,-10072 }, {  14,-10047 },
- {  15,-10047 }, {  16,-10047 }, {  17,-10047 }, {  18,-10047 }, {  19,-10047 },
- {  20,-10047 }, {  21,-10047 }, {  22,-10047 }, {  23,-10047 }, {  24,-10047 },
- {  25,-10047 }, {  26,-10047 }, {  27,-10047 }, {  28,-10047 }, {  29,-10047 },
- {  30,-10047 }, {  31,-10047 }, {  32,-10072 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-10047 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,-10072 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,-10047 }, {  46,-10072 }, {  47,-10072 }, {  48,-10047 }, {  49,-10047 },
- {  50,-10047 }, {  51,-10047 }, {  52,-10047 }, {  53,-10047 }, {  54,-10047 },
-
- {  55,-10047 }, {  56,-10047 }, {  57,-10047 }, {  58,-10047 }, {   0,   0 },
- {   0,   0 }, {  61,-10072 }, {   0,   0 }, {  63,-10047 }, {   0,   0 },
- {  65,-10047 }, {  66,-10047 }, {  67,-10047 }, {  68,-10047 }, {  69,-10047 },
- {  70,-10047 }, {  71,-10047 }, {  72,-10047 }, {  73,-10047 }, {  74,-10047 },
- {  75,-10047 }, {  76,-10047 }, {  77,-10047 }, {  78,-10047 }, {  79,-10047 },
- {  80,-10047 }, {  81,-10047 }, {  82,-10047 }, {  83,-10047 }, {  84,-10047 },
- {  85,-10047 }, {  86,-10047 }, {  87,-10047 }, {  88,-10047 }, {  89,-10047 },
- {  90,-10047 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,-10047 }, {   0,   0 }, {  97,-10047 }, {  98,-10047 }, {  99,-10047 },
- { 100,-10047 }, { 101,-10047 }, { 102,-10047 }, { 103,-10047 }, { 104,-10047 },
-
- { 105, 774 }, { 106,-10047 }, { 107,-10047 }, { 108,-10047 }, { 109,-10047 },
- { 110,-10047 }, { 111,-10047 }, { 112,-10047 }, { 113,-10047 }, { 114,-10047 },
- { 115,-10047 }, { 116,-10047 }, { 117,-10047 }, { 118,-10047 }, { 119,-10047 },
- { 120,-10047 }, { 121,-10047 }, { 122,-10047 }, {   0,   0 }, { 124,-10072 },
- { 125,-10072 }, { 126,-10072 }, { 127,-10047 }, { 128,-10047 }, { 129,-10047 },
- { 130,-10047 }, { 131,-10047 }, { 132,-10047 }, { 133,-10047 }, { 134,-10047 },
- { 135,-10047 }, { 136,-10047 }, { 137,-10047 }, { 138,-10047 }, { 139,-10047 },
- { 140,-10047 }, { 141,-10047 }, { 142,-10047 }, { 143,-10047 }, { 144,-10047 },
- { 145,-10047 }, { 146,-10047 }, { 147,-10047 }, { 148,-10047 }, { 149,-10047 },
- { 150,-10047 }, { 151,-10047 }, { 152,-10047 }, { 153,-10047 }, { 154,-10047 },
-
- { 155,-10047 }, { 156,-10047 }, { 157,-10047 }, { 158,-10047 }, { 159,-10047 },
- { 160,-10047 }, { 161,-10047 }, { 162,-10047 }, { 163,-10047 }, { 164,-10047 },
- { 165,-10047 }, { 166,-10047 }, { 167,-10047 }, { 168,-10047 }, { 169,-10047 },
- { 170,-10047 }, { 171,-10047 }, { 172,-10047 }, { 173,-10047 }, { 174,-10047 },
- { 175,-10047 }, { 176,-10047 }, { 177,-10047 }, { 178,-10047 }, { 179,-10047 },
- { 180,-10047 }, { 181,-10047 }, { 182,-10047 }, { 183,-10047 }, { 184,-10047 },
- { 185,-10047 }, { 186,-10047 }, { 187,-10047 }, { 188,-10047 }, { 189,-10047 },
- { 190,-10047 }, { 191,-10047 }, { 192,-10047 }, { 193,-10047 }, { 194,-10047 },
- { 195,-10047 }, { 196,-10047 }, { 197,-10047 }, { 198,-10047 }, { 199,-10047 },
- { 200,-10047 }, { 201,-10047 }, { 202,-10047 }, { 203,-10047 }, { 204,-10047 },
-
- { 205,-10047 }, { 206,-10047 }, { 207,-10047 }, { 208,-10047 }, { 209,-10047 },
- { 210,-10047 }, { 211,-10047 }, { 212,-10047 }, { 213,-10047 }, { 214,-10047 },
- { 215,-10047 }, { 216,-10047 }, { 217,-10047 }, { 218,-10047 }, { 219,-10047 },
- { 220,-10047 }, { 221,-10047 }, { 222,-10047 }, { 223,-10047 }, { 224,-10047 },
- { 225,-10047 }, { 226,-10047 }, { 227,-10047 }, { 228,-10047 }, { 229,-10047 },
- { 230,-10047 }, { 231,-10047 }, { 232,-10047 }, { 233,-10047 }, { 234,-10047 },
- { 235,-10047 }, { 236,-10047 }, { 237,-10047 }, { 238,-10047 }, { 239,-10047 },
- { 240,-10047 }, { 241,-10047 }, { 242,-10047 }, { 243,-10047 }, { 244,-10047 },
- { 245,-10047 }, { 246,-10047 }, { 247,-10047 }, { 248,-10047 }, { 249,-10047 },
- { 250,-10047 }, { 251,-10047 }, { 252,-10047 }, { 253,-10047 }, { 254,-10047 },
-
- { 255,-10047 }, { 256,-10047 }, {   0,   0 }, {   0,3106 }, {   1,-1317 },
- {   2,-1317 }, {   3,-1317 }, {   4,-1317 }, {   5,-1317 }, {   6,-1317 },
- {   7,-1317 }, {   8,-1317 }, {   9,-1317 }, {  10,-1317 }, {  11,-1317 },
- {  12,-1317 }, {  13,-1317 }, {  14,-1317 }, {  15,-1317 }, {  16,-1317 },
- {  17,-1317 }, {  18,-1317 }, {  19,-1317 }, {  20,-1317 }, {  21,-1317 },
- {  22,-1317 }, {  23,-1317 }, {  24,-1317 }, {  25,-1317 }, {  26,-1317 },
- {  27,-1317 }, {  28,-1317 }, {  29,-1317 }, {  30,-1317 }, {  31,-1317 },
- {  32,-1317 }, {  33,-1317 }, {  34,-1317 }, {  35,-1317 }, {  36,-1317 },
- {  37,-1317 }, {  38,-1317 }, {  39,-1317 }, {  40,-1317 }, {  41,-1317 },
- {  42,-1317 }, {  43,-1317 }, {  44,-1317 }, {  45,   0 }, {  46,-1317 },
-
- {  47,-1317 }, {  48,-1317 }, {  49,-1317 }, {  50,-1317 }, {  51,-1317 },
- {  52,-1317 }, {  53,-1317 }, {  54,-1317 }, {  55,-1317 }, {  56,-1317 },
- {  57,-1317 }, {  58,-1317 }, {  59,-1317 }, {  60,-1317 }, {  61,-1317 },
- {  62,-1317 }, {  63,-1317 }, {  64,-1317 }, {  65,-1317 }, {  66,-1317 },
- {  67,-1317 }, {  68,-1317 }, {  69,-1317 }, {  70,-1317 }, {  71,-1317 },
- {  72,-1317 }, {  73,-1317 }, {  74,-1317 }, {  75,-1317 }, {  76,-1317 },
- {  77,-1317 }, {  78,-1317 }, {  79,-1317 }, {  80,-1317 }, {  81,-1317 },
- {  82,-1317 }, {  83,-1317 }, {  84,-1317 }, {  85,-1317 }, {  86,-1317 },
- {  87,-1317 }, {  88,-1317 }, {  89,-1317 }, {  90,-1317 }, {  91,-1317 },
- {  92,-1317 }, {  93,-1317 }, {  94,-1317 }, {  95,-1317 }, {  96,-1317 },
-
- {  97,-1317 }, {  98,-1317 }, {  99,-1317 }, { 100,-1317 }, { 101,-1317 },
- { 102,-1317 }, { 103,-1317 }, { 104,-1317 }, { 105,-1317 }, { 106,-1317 },
- { 107,-1317 }, { 108,-1317 }, { 109,-1317 }, { 110,-1317 }, { 111,-1317 },
- { 112,-1317 }, { 113,-1317 }, { 114,-1317 }, { 115,-1317 }, { 116,-1317 },
- { 117,-1317 }, { 118,-1317 }, { 119,-1317 }, { 120,-1317 }, { 121,-1317 },
- { 122,-1317 }, { 123,-1317 }, { 124,-1317 }, { 125,1032 }, { 126,1290 },
- { 127,-1317 }, { 128,-1317 }, { 129,-1317 }, { 130,-1317 }, { 131,-1317 },
- { 132,-1317 }, { 133,-1317 }, { 134,-1317 }, { 135,-1317 }, { 136,-1317 },
- { 137,-1317 }, { 138,-1317 }, { 139,-1317 }, { 140,-1317 }, { 141,-1317 },
- { 142,-1317 }, { 143,-1317 }, { 144,-1317 }, { 145,-1317 }, { 146,-1317 },
-
- { 147,-1317 }, { 148,-1317 }, { 149,-1317 }, { 150,-1317 }, { 151,-1317 },
- { 152,-1317 }, { 153,-1317 }, { 154,-1317 }, { 155,-1317 }, { 156,-1317 },
- { 157,-1317 }, { 158,-1317 }, { 159,-1317 }, { 160,-1317 }, { 161,-1317 },
- { 162,-1317 }, { 163,-1317 }, { 164,-1317 }, { 165,-1317 }, { 166,-1317 },
- { 167,-1317 }, { 168,-1317 }, { 169,-1317 }, { 170,-1317 }, { 171,-1317 },
- { 172,-1317 }, { 173,-1317 }, { 174,-1317 }, { 175,-1317 }, { 176,-1317 },
- { 177,-1317 }, { 178,-1317 }, { 179,-1317 }, { 180,-1317 }, { 181,-1317 },
- { 182,-1317 }, { 183,-1317 }, { 184,-1317 }, { 185,-1317 }, { 186,-1317 },
- { 187,-1317 }, { 188,-1317 }, { 189,-1317 }, { 190,-1317 }, { 191,-1317 },
- { 192,-1317 }, { 193,-1317 }, { 194,-1317 }, { 195,-1317 }, { 196,-1317 },
-
- { 197,-1317 }, { 198,-1317 }, { 199,-1317 }, { 200,-1317 }, { 201,-1317 },
- { 202,-1317 }, { 203,-1317 }, { 204,-1317 }, { 205,-1317 }, { 206,-1317 },
- { 207,-1317 }, { 208,-1317 }, { 209,-1317 }, { 210,-1317 }, { 211,-1317 },
- { 212,-1317 }, { 213,-1317 }, { 214,-1317 }, { 215,-1317 }, { 216,-1317 },
- { 217,-1317 }, { 218,-1317 }, { 219,-1317 }, { 220,-1317 }, { 221,-1317 },
- { 222,-1317 }, { 223,-1317 }, { 224,-1317 }, { 225,-1317 }, { 226,-1317 },
- { 227,-1317 }, { 228,-1317 }, { 229,-1317 }, { 230,-1317 }, { 231,-1317 },
- { 232,-1317 }, { 233,-1317 }, { 234,-1317 }, { 235,-1317 }, { 236,-1317 },
- { 237,-1317 }, { 238,-1317 }, { 239,-1317 }, { 240,-1317 }, { 241,-1317 },
- { 242,-1317 }, { 243,-1317 }, { 244,-1317 }, { 245,-1317 }, { 246,-1317 },
-
- { 247,-1317 }, { 248,-1317 }, { 249,-1317 }, { 250,-1317 }, { 251,-1317 },
- { 252,-1317 }, { 253,-1317 }, { 254,-1317 }, { 255,-1317 }, { 256,-1317 },
- {   0,   0 }, {   0,2848 }, {   1,1290 }, {   2,1290 }, {   3,1290 },
- {   4,1290 }, {   5,1290 }, {   6,1290 }, {   7,1290 }, {   8,1290 },
- {   0,   0 }, {   0,   0 }, {  11,1290 }, {  12,1290 }, {   0,   0 },
- {  14,1290 }, {  15,1290 }, {  16,1290 }, {  17,1290 }, {  18,1290 },
- {  19,1290 }, {  20,1290 }, {  21,1290 }, {  22,1290 }, {  23,1290 },
- {  24,1290 }, {  25,1290 }, {  26,1290 }, {  27,1290 }, {  28,1290 },
- {  29,1290 }, {  30,1290 }, {  31,1290 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,1290 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,1290 }, {   0,   0 }, {   0,   0 }, {  48,1290 },
- {  49,1290 }, {  50,1290 }, {  51,1290 }, {  52,1290 }, {  53,1290 },
- {  54,1290 }, {  55,1290 }, {  56,1290 }, {  57,1290 }, {  58,1290 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  63,1290 },
- {   0,   0 }, {  65,1290 }, {  66,1290 }, {  67,1290 }, {  68,1290 },
- {  69,1290 }, {  70,1290 }, {  71,1290 }, {  72,1290 }, {  73,1290 },
- {  74,1290 }, {  75,1290 }, {  76,1290 }, {  77,1290 }, {  78,1290 },
- {  79,1290 }, {  80,1290 }, {  81,1290 }, {  82,1290 }, {  83,1290 },
- {  84,1290 }, {  85,1290 }, {  86,1290 }, {  87,1290 }, {  88,1290 },
-
- {  89,1290 }, {  90,1290 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,1290 }, {   0,   0 }, {  97,1290 }, {  98,1290 },
- {  99,1290 }, { 100,1290 }, { 101,1290 }, { 102,1290 }, { 103,1290 },
- { 104,1290 }, { 105,1290 }, { 106,1290 }, { 107,1290 }, { 108,1290 },
- { 109,1290 }, { 110,1290 }, { 111,1290 }, { 112,1290 }, { 113,1290 },
- { 114,1290 }, { 115,1290 }, { 116,1290 }, { 117,1290 }, { 118,1290 },
- { 119,1290 }, { 120,1290 }, { 121,1290 }, { 122,1290 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 127,1290 }, { 128,1290 },
- { 129,1290 }, { 130,1290 }, { 131,1290 }, { 132,1290 }, { 133,1290 },
- { 134,1290 }, { 135,1290 }, { 136,1290 }, { 137,1290 }, { 138,1290 },
-
- { 139,1290 }, { 140,1290 }, { 141,1290 }, { 142,1290 }, { 143,1290 },
- { 144,1290 }, { 145,1290 }, { 146,1290 }, { 147,1290 }, { 148,1290 },
- { 149,1290 }, { 150,1290 }, { 151,1290 }, { 152,1290 }, { 153,1290 },
- { 154,1290 }, { 155,1290 }, { 156,1290 }, { 157,1290 }, { 158,1290 },
- { 159,1290 }, { 160,1290 }, { 161,1290 }, { 162,1290 }, { 163,1290 },
- { 164,1290 }, { 165,1290 }, { 166,1290 }, { 167,1290 }, { 168,1290 },
- { 169,1290 }, { 170,1290 }, { 171,1290 }, { 172,1290 }, { 173,1290 },
- { 174,1290 }, { 175,1290 }, { 176,1290 }, { 177,1290 }, { 178,1290 },
- { 179,1290 }, { 180,1290 }, { 181,1290 }, { 182,1290 }, { 183,1290 },
- { 184,1290 }, { 185,1290 }, { 186,1290 }, { 187,1290 }, { 188,1290 },
-
- { 189,1290 }, { 190,1290 }, { 191,1290 }, { 192,1290 }, { 193,1290 },
- { 194,1290 }, { 195,1290 }, { 196,1290 }, { 197,1290 }, { 198,1290 },
- { 199,1290 }, { 200,1290 }, { 201,1290 }, { 202,1290 }, { 203,1290 },
- { 204,1290 }, { 205,1290 }, { 206,1290 }, { 207,1290 }, { 208,1290 },
- { 209,1290 }, { 210,1290 }, { 211,1290 }, { 212,1290 }, { 213,1290 },
- { 214,1290 }, { 215,1290 }, { 216,1290 }, { 217,1290 }, { 218,1290 },
- { 219,1290 }, { 220,1290 }, { 221,1290 }, { 222,1290 }, { 223,1290 },
- { 224,1290 }, { 225,1290 }, { 226,1290 }, { 227,1290 }, { 228,1290 },
- { 229,1290 }, { 230,1290 }, { 231,1290 }, { 232,1290 }, { 233,1290 },
- { 234,1290 }, { 235,1290 }, { 236,1290 }, { 237,1290 }, { 238,1290 },
-
- { 239,1290 }, { 240,1290 }, { 241,1290 }, { 242,1290 }, { 243,1290 },
- { 244,1290 }, { 245,1290 }, { 246,1290 }, { 247,1290 }, { 248,1290 },
- { 249,1290 }, { 250,1290 }, { 251,1290 }, { 252,1290 }, { 253,1290 },
- { 254,1290 }, { 255,1290 }, { 256,1290 }, {   0,   0 }, {   0,2590 },
- {   1,-10821 }, {   2,-10821 }, {   3,-10821 }, {   4,-10821 }, {   5,-10821 },
- {   6,-10821 }, {   7,-10821 }, {   8,-10821 }, {   9,-10846 }, {  10,-10846 },
- {  11,-10821 }, {  12,-10821 }, {  13,-10846 }, {  14,-10821 }, {  15,-10821 },
- {  16,-10821 }, {  17,-10821 }, {  18,-10821 }, {  19,-10821 }, {  20,-10821 },
- {  21,-10821 }, {  22,-10821 }, {  23,-10821 }, {  24,-10821 }, {  25,-10821 },
- {  26,-10821 }, {  27,-10821 }, {  28,-10821 }, {  29,-10821 }, {  30,-10821 },
-
- {  31,-10821 }, {  32,-10846 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,-10821 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,-10846 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-10821 },
- {  46,-10846 }, {  47,-10846 }, {  48,-10821 }, {  49,-10821 }, {  50,-10821 },
- {  51,-10821 }, {  52,-10821 }, {  53,-10821 }, {  54,-10821 }, {  55,-10821 },
- {  56,-10821 }, {  57,-10821 }, {  58,-10821 }, {   0,   0 }, {   0,   0 },
- {  61,-10846 }, {   0,   0 }, {  63,-10821 }, {   0,   0 }, {  65,-10821 },
- {  66,-10821 }, {  67,-10821 }, {  68,-10821 }, {  69,-10821 }, {  70,-10821 },
- {  71,-10821 }, {  72,-10821 }, {  73,-10821 }, {  74,-10821 }, {  75,-10821 },
- {  76,-10821 }, {  77,-10821 }, {  78,-10821 }, {  79,-10821 }, {  80,-10821 },
-
- {  81,-10821 }, {  82,-10821 }, {  83,-10821 }, {  84,-10821 }, {  85,-10821 },
- {  86,-10821 }, {  87,-10821 }, {  88,-10821 }, {  89,-10821 }, {  90,-10821 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-10821 },
- {   0,   0 }, {  97,-10821 }, {  98,-10821 }, {  99,-10821 }, { 100,-10821 },
- { 101,-10821 }, { 102,-10821 }, { 103,-10821 }, { 104,-10821 }, { 105,-10821 },
- { 106,-10821 }, { 107,-10821 }, { 108,-10821 }, { 109,-10821 }, { 110,1290 },
- { 111,-10821 }, { 112,-10821 }, { 113,-10821 }, { 114,-10821 }, { 115,-10821 },
- { 116,-10821 }, { 117,-10821 }, { 118,-10821 }, { 119,-10821 }, { 120,-10821 },
- { 121,-10821 }, { 122,-10821 }, {   0,   0 }, { 124,-10846 }, { 125,-10846 },
- { 126,-10846 }, { 127,-10821 }, { 128,-10821 }, { 129,-10821 }, { 130,-10821 },
-
- { 131,-10821 }, { 132,-10821 }, { 133,-10821 }, { 134,-10821 }, { 135,-10821 },
- { 136,-10821 }, { 137,-10821 }, { 138,-10821 }, { 139,-10821 }, { 140,-10821 },
- { 141,-10821 }, { 142,-10821 }, { 143,-10821 }, { 144,-10821 }, { 145,-10821 },
- { 146,-10821 }, { 147,-10821 }, { 148,-10821 }, { 149,-10821 }, { 150,-10821 },
- { 151,-10821 }, { 152,-10821 }, { 153,-10821 }, { 154,-10821 }, { 155,-10821 },
- { 156,-10821 }, { 157,-10821 }, { 158,-10821 }, { 159,-10821 }, { 160,-10821 },
- { 161,-10821 }, { 162,-10821 }, { 163,-10821 }, { 164,-10821 }, { 165,-10821 },
- { 166,-10821 }, { 167,-10821 }, { 168,-10821 }, { 169,-10821 }, { 170,-10821 },
- { 171,-10821 }, { 172,-10821 }, { 173,-10821 }, { 174,-10821 }, { 175,-10821 },
- { 176,-10821 }, { 177,-10821 }, { 178,-10821 }, { 179,-10821 }, { 180,-10821 },
-
- { 181,-10821 }, { 182,-10821 }, { 183,-10821 }, { 184,-10821 }, { 185,-10821 },
- { 186,-10821 }, { 187,-10821 }, { 188,-10821 }, { 189,-10821 }, { 190,-10821 },
- { 191,-10821 }, { 192,-10821 }, { 193,-10821 }, { 194,-10821 }, { 195,-10821 },
- { 196,-10821 }, { 197,-10821 }, { 198,-10821 }, { 199,-10821 }, { 200,-10821 },
- { 201,-10821 }, { 202,-10821 }, { 203,-10821 }, { 204,-10821 }, { 205,-10821 },
- { 206,-10821 }, { 207,-10821 }, { 208,-10821 }, { 209,-10821 }, { 210,-10821 },
- { 211,-10821 }, { 212,-10821 }, { 213,-10821 }, { 214,-10821 }, { 215,-10821 },
- { 216,-10821 }, { 217,-10821 }, { 218,-10821 }, { 219,-10821 }, { 220,-10821 },
- { 221,-10821 }, { 222,-10821 }, { 223,-10821 }, { 224,-10821 }, { 225,-10821 },
- { 226,-10821 }, { 227,-10821 }, { 228,-10821 }, { 229,-10821 }, { 230,-10821 },
-
- { 231,-10821 }, { 232,-10821 }, { 233,-10821 }, { 234,-10821 }, { 235,-10821 },
- { 236,-10821 }, { 237,-10821 }, { 238,-10821 }, { 239,-10821 }, { 240,-10821 },
- { 241,-10821 }, { 242,-10821 }, { 243,-10821 }, { 244,-10821 }, { 245,-10821 },
- { 246,-10821 }, { 247,-10821 }, { 248,-10821 }, { 249,-10821 }, { 250,-10821 },
- { 251,-10821 }, { 252,-10821 }, { 253,-10821 }, { 254,-10821 }, { 255,-10821 },
- { 256,-10821 }, {   0,   0 }, {   0,2332 }, {   1,-1292 }, {   2,-1292 },
- {   3,-1292 }, {   4,-1292 }, {   5,-1292 }, {   6,-1292 }, {   7,-1292 },
- {   8,-1292 }, {   9,1290 }, {  10,1290 }, {  11,-1292 }, {  12,-1292 },
- {  13,1290 }, {  14,-1292 }, {  15,-1292 }, {  16,-1292 }, {  17,-1292 },
- {  18,-1292 }, {  19,-1292 }, {  20,-1292 }, {  21,-1292 }, {  22,-1292 },
-
- {  23,-1292 }, {  24,-1292 }, {  25,-1292 }, {  26,-1292 }, {  27,-1292 },
- {  28,-1292 }, {  29,-1292 }, {  30,-1292 }, {  31,-1292 }, {  32,1290 },
- {  33,-1292 }, {  34,-1292 }, {  35,-1292 }, {  36,-1292 }, {  37,-1292 },
- {  38,-1292 }, {  39,-1292 }, {  40,-1292 }, {  41,-1292 }, {  42,-1292 },
- {  43,-1292 }, {  44,-1292 }, {  45,-1292 }, {  46,-1292 }, {  47,-1292 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  58,-1292 }, {  59,-1292 }, {  60,-1292 }, {  61,-1292 }, {  62,-1292 },
- {  63,-1292 }, {  64,-1292 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  91,-1292 }, {  92,-1292 },
- {  93,-1292 }, {  94,-1292 }, {   0,   0 }, {  96,-1292 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- { 123,-1292 }, { 124,-1292 }, { 125,1292 }, { 126,1294 }, { 127,-1292 },
- { 128,-1292 }, { 129,-1292 }, { 130,-1292 }, { 131,-1292 }, { 132,-1292 },
- { 133,-1292 }, { 134,-1292 }, { 135,-1292 }, { 136,-1292 }, { 137,-1292 },
- { 138,-1292 }, { 139,-1292 }, { 140,-1292 }, { 141,-1292 }, { 142,-1292 },
- { 143,-1292 }, { 144,-1292 }, { 145,-1292 }, { 146,-1292 }, { 147,-1292 },
- { 148,-1292 }, { 149,-1292 }, { 150,-1292 }, { 151,-1292 }, { 152,-1292 },
- { 153,-1292 }, { 154,-1292 }, { 155,-1292 }, { 156,-1292 }, { 157,-1292 },
- { 158,-1292 }, { 159,-1292 }, { 160,-1292 }, { 161,-1292 }, { 162,-1292 },
- { 163,-1292 }, { 164,-1292 }, { 165,-1292 }, { 166,-1292 }, { 167,-1292 },
- { 168,-1292 }, { 169,-1292 }, { 170,-1292 }, { 171,-1292 }, { 172,-1292 },
-
- { 173,-1292 }, { 174,-1292 }, { 175,-1292 }, { 176,-1292 }, { 177,-1292 },
- { 178,-1292 }, { 179,-1292 }, { 180,-1292 }, { 181,-1292 }, { 182,-1292 },
- { 183,-1292 }, { 184,-1292 }, { 185,-1292 }, { 186,-1292 }, { 187,-1292 },
- { 188,-1292 }, { 189,-1292 }, { 190,-1292 }, { 191,-1292 }, { 192,-1292 },
- { 193,-1292 }, { 194,-1292 }, { 195,-1292 }, { 196,-1292 }, { 197,-1292 },
- { 198,-1292 }, { 199,-1292 }, { 200,-1292 }, { 201,-1292 }, { 202,-1292 },
- { 203,-1292 }, { 204,-1292 }, { 205,-1292 }, { 206,-1292 }, { 207,-1292 },
- { 208,-1292 }, { 209,-1292 }, { 210,-1292 }, { 211,-1292 }, { 212,-1292 },
- { 213,-1292 }, { 214,-1292 }, { 215,-1292 }, { 216,-1292 }, { 217,-1292 },
- { 218,-1292 }, { 219,-1292 }, { 220,-1292 }, { 221,-1292 }, { 222,-1292 },
-
- { 223,-1292 }, { 224,-1292 }, { 225,-1292 }, { 226,-1292 }, { 227,-1292 },
- { 228,-1292 }, { 229,-1292 }, { 230,-1292 }, { 231,-1292 }, { 232,-1292 },
- { 233,-1292 }, { 234,-1292 }, { 235,-1292 }, { 236,-1292 }, { 237,-1292 },
- { 238,-1292 }, { 239,-1292 }, { 240,-1292 }, { 241,-1292 }, { 242,-1292 },
- { 243,-1292 }, { 244,-1292 }, { 245,-1292 }, { 246,-1292 }, { 247,-1292 },
- { 248,-1292 }, { 249,-1292 }, { 250,-1292 }, { 251,-1292 }, { 252,-1292 },
- { 253,-1292 }, { 254,-1292 }, { 255,-1292 }, { 256,-1292 }, {   0,   0 },
- {   0,2074 }, {   1,-2349 }, {   2,-2349 }, {   3,-2349 }, {   4,-2349 },
- {   5,-2349 }, {   6,-2349 }, {   7,-2349 }, {   8,-2349 }, {   9,-2349 },
- {  10,-2349 }, {  11,-2349 }, {  12,-2349 }, {  13,-2349 }, {  14,-2349 },
-
- {  15,-2349 }, {  16,-2349 }, {  17,-2349 }, {  18,-2349 }, {  19,-2349 },
- {  20,-2349 }, {  21,-2349 }, {  22,-2349 }, {  23,-2349 }, {  24,-2349 },
- {  25,-2349 }, {  26,-2349 }, {  27,-2349 }, {  28,-2349 }, {  29,-2349 },
- {  30,-2349 }, {  31,-2349 }, {  32,-2349 }, {  33,-2349 }, {  34,-2349 },
- {  35,-2349 }, {  36,-2349 }, {  37,-2349 }, {  38,-2349 }, {  39,-2349 },
- {  40,-2349 }, {  41,-2349 }, {  42,-2349 }, {  43,-2349 }, {  44,-2349 },
- {  45,1163 }, {  46,-2349 }, {  47,-2349 }, {  48,-2349 }, {  49,-2349 },
- {  50,-2349 }, {  51,-2349 }, {  52,-2349 }, {  53,-2349 }, {  54,-2349 },
- {  55,-2349 }, {  56,-2349 }, {  57,-2349 }, {  58,-2349 }, {  59,-2349 },
- {  60,-2349 }, {  61,-2349 }, {  62,-2349 }, {  63,-2349 }, {  64,-2349 },
-
- {  65,-2349 }, {  66,-2349 }, {  67,-2349 }, {  68,-2349 }, {  69,-2349 },
- {  70,-2349 }, {  71,-2349 }, {  72,-2349 }, {  73,-2349 }, {  74,-2349 },
- {  75,-2349 }, {  76,-2349 }, {  77,-2349 }, {  78,-2349 }, {  79,-2349 },
- {  80,-2349 }, {  81,-2349 }, {  82,-2349 }, {  83,-2349 }, {  84,-2349 },
- {  85,-2349 }, {  86,-2349 }, {  87,-2349 }, {  88,-2349 }, {  89,-2349 },
- {  90,-2349 }, {  91,-2349 }, {  92,-2349 }, {  93,-2349 }, {  94,-2349 },
- {  95,-2349 }, {  96,-2349 }, {  97,-2349 }, {  98,-2349 }, {  99,-2349 },
- { 100,-2349 }, { 101,-2349 }, { 102,-2349 }, { 103,-2349 }, { 104,-2349 },
- { 105,-2349 }, { 106,-2349 }, { 107,-2349 }, { 108,-2349 }, { 109,-2349 },
- { 110,-2349 }, { 111,-2349 }, { 112,-2349 }, { 113,-2349 }, { 114,-2349 },
-
- { 115,-2349 }, { 116,-2349 }, { 117,-2349 }, { 118,-2349 }, { 119,-2349 },
- { 120,-2349 }, { 121,-2349 }, { 122,-2349 }, { 123,-2349 }, { 124,-2349 },
- { 125,1038 }, { 126,-2349 }, { 127,-2349 }, { 128,-2349 }, { 129,-2349 },
- { 130,-2349 }, { 131,-2349 }, { 132,-2349 }, { 133,-2349 }, { 134,-2349 },
- { 135,-2349 }, { 136,-2349 }, { 137,-2349 }, { 138,-2349 }, { 139,-2349 },
- { 140,-2349 }, { 141,-2349 }, { 142,-2349 }, { 143,-2349 }, { 144,-2349 },
- { 145,-2349 }, { 146,-2349 }, { 147,-2349 }, { 148,-2349 }, { 149,-2349 },
- { 150,-2349 }, { 151,-2349 }, { 152,-2349 }, { 153,-2349 }, { 154,-2349 },
- { 155,-2349 }, { 156,-2349 }, { 157,-2349 }, { 158,-2349 }, { 159,-2349 },
- { 160,-2349 }, { 161,-2349 }, { 162,-2349 }, { 163,-2349 }, { 164,-2349 },
-
- { 165,-2349 }, { 166,-2349 }, { 167,-2349 }, { 168,-2349 }, { 169,-2349 },
- { 170,-2349 }, { 171,-2349 }, { 172,-2349 }, { 173,-2349 }, { 174,-2349 },
- { 175,-2349 }, { 176,-2349 }, { 177,-2349 }, { 178,-2349 }, { 179,-2349 },
- { 180,-2349 }, { 181,-2349 }, { 182,-2349 }, { 183,-2349 }, { 184,-2349 },
- { 185,-2349 }, { 186,-2349 }, { 187,-2349 }, { 188,-2349 }, { 189,-2349 },
- { 190,-2349 }, { 191,-2349 }, { 192,-2349 }, { 193,-2349 }, { 194,-2349 },
- { 195,-2349 }, { 196,-2349 }, { 197,-2349 }, { 198,-2349 }, { 199,-2349 },
- { 200,-2349 }, { 201,-2349 }, { 202,-2349 }, { 203,-2349 }, { 204,-2349 },
- { 205,-2349 }, { 206,-2349 }, { 207,-2349 }, { 208,-2349 }, { 209,-2349 },
- { 210,-2349 }, { 211,-2349 }, { 212,-2349 }, { 213,-2349 }, { 214,-2349 },
-
- { 215,-2349 }, { 216,-2349 }, { 217,-2349 }, { 218,-2349 }, { 219,-2349 },
- { 220,-2349 }, { 221,-2349 }, { 222,-2349 }, { 223,-2349 }, { 224,-2349 },
- { 225,-2349 }, { 226,-2349 }, { 227,-2349 }, { 228,-2349 }, { 229,-2349 },
- { 230,-2349 }, { 231,-2349 }, { 232,-2349 }, { 233,-2349 }, { 234,-2349 },
- { 235,-2349 }, { 236,-2349 }, { 237,-2349 }, { 238,-2349 }, { 239,-2349 },
- { 240,-2349 }, { 241,-2349 }, { 242,-2349 }, { 243,-2349 }, { 244,-2349 },
- { 245,-2349 }, { 246,-2349 }, { 247,-2349 }, { 248,-2349 }, { 249,-2349 },
- { 250,-2349 }, { 251,-2349 }, { 252,-2349 }, { 253,-2349 }, { 254,-2349 },
- { 255,-2349 }, { 256,-2349 }, {   0,   0 }, {   0,1816 }, {   1,-2607 },
- {   2,-2607 }, {   3,-2607 }, {   4,-2607 }, {   5,-2607 }, {   6,-2607 },
-
- {   7,-2607 }, {   8,-2607 }, {   9,-2607 }, {  10,-2607 }, {  11,-2607 },
- {  12,-2607 }, {  13,-2607 }, {  14,-2607 }, {  15,-2607 }, {  16,-2607 },
- {  17,-2607 }, {  18,-2607 }, {  19,-2607 }, {  20,-2607 }, {  21,-2607 },
- {  22,-2607 }, {  23,-2607 }, {  24,-2607 }, {  25,-2607 }, {  26,-2607 },
- {  27,-2607 }, {  28,-2607 }, {  29,-2607 }, {  30,-2607 }, {  31,-2607 },
- {  32,-2607 }, {  33,-2607 }, {  34,-2607 }, {  35,-2607 }, {  36,-2607 },
- {  37,-2607 }, {  38,-2607 }, {  39,-2607 }, {  40,-2607 }, {  41,-2607 },
- {  42,-2607 }, {  43,-2607 }, {  44,-2607 }, {  45, 905 }, {  46,-2607 },
- {  47,-2607 }, {  48,-2607 }, {  49,-2607 }, {  50,-2607 }, {  51,-2607 },
- {  52,-2607 }, {  53,-2607 }, {  54,-2607 }, {  55,-2607 }, {  56,-2607 },
-
- {  57,-2607 }, {  58,-2607 }, {  59,-2607 }, {  60,-2607 }, {  61,-2607 },
- {  62,-2607 }, {  63,-2607 }, {  64,-2607 }, {  65,-2607 }, {  66,-2607 },
- {  67,-2607 }, {  68,-2607 }, {  69,-2607 }, {  70,-2607 }, {  71,-2607 },
- {  72,-2607 }, {  73,-2607 }, {  74,-2607 }, {  75,-2607 }, {  76,-2607 },
- {  77,-2607 }, {  78,-2607 }, {  79,-2607 }, {  80,-2607 }, {  81,-2607 },
- {  82,-2607 }, {  83,-2607 }, {  84,-2607 }, {  85,-2607 }, {  86,-2607 },
- {  87,-2607 }, {  88,-2607 }, {  89,-2607 }, {  90,-2607 }, {  91,-2607 },
- {  92,-2607 }, {  93,-2607 }, {  94,-2607 }, {  95,-2607 }, {  96,-2607 },
- {  97,-2607 }, {  98,-2607 }, {  99,-2607 }, { 100,-2607 }, { 101,-2607 },
- { 102,-2607 }, { 103,-2607 }, { 104,-2607 }, { 105,-2607 }, { 106,-2607 },
-
- { 107,-2607 }, { 108,-2607 }, { 109,-2607 }, { 110,-2607 }, { 111,-2607 },
- { 112,-2607 }, { 113,-2607 }, { 114,-2607 }, { 115,-2607 }, { 116,-2607 },
- { 117,-2607 }, { 118,-2607 }, { 119,-2607 }, { 120,-2607 }, { 121,-2607 },
- { 122,-2607 }, { 123,-2607 }, { 124,-2607 }, { 125,-258 }, { 126,-2607 },
- { 127,-2607 }, { 128,-2607 }, { 129,-2607 }, { 130,-2607 }, { 131,-2607 },
- { 132,-2607 }, { 133,-2607 }, { 134,-2607 }, { 135,-2607 }, { 136,-2607 },
- { 137,-2607 }, { 138,-2607 }, { 139,-2607 }, { 140,-2607 }, { 141,-2607 },
- { 142,-2607 }, { 143,-2607 }, { 144,-2607 }, { 145,-2607 }, { 146,-2607 },
- { 147,-2607 }, { 148,-2607 }, { 149,-2607 }, { 150,-2607 }, { 151,-2607 },
- { 152,-2607 }, { 153,-2607 }, { 154,-2607 }, { 155,-2607 }, { 156,-2607 },
-
- { 157,-2607 }, { 158,-2607 }, { 159,-2607 }, { 160,-2607 }, { 161,-2607 },
- { 162,-2607 }, { 163,-2607 }, { 164,-2607 }, { 165,-2607 }, { 166,-2607 },
- { 167,-2607 }, { 168,-2607 }, { 169,-2607 }, { 170,-2607 }, { 171,-2607 },
- { 172,-2607 }, { 173,-2607 }, { 174,-2607 }, { 175,-2607 }, { 176,-2607 },
- { 177,-2607 }, { 178,-2607 }, { 179,-2607 }, { 180,-2607 }, { 181,-2607 },
- { 182,-2607 }, { 183,-2607 }, { 184,-2607 }, { 185,-2607 }, { 186,-2607 },
- { 187,-2607 }, { 188,-2607 }, { 189,-2607 }, { 190,-2607 }, { 191,-2607 },
- { 192,-2607 }, { 193,-2607 }, { 194,-2607 }, { 195,-2607 }, { 196,-2607 },
- { 197,-2607 }, { 198,-2607 }, { 199,-2607 }, { 200,-2607 }, { 201,-2607 },
- { 202,-2607 }, { 203,-2607 }, { 204,-2607 }, { 205,-2607 }, { 206,-2607 },
-
- { 207,-2607 }, { 208,-2607 }, { 209,-2607 }, { 210,-2607 }, { 211,-2607 },
- { 212,-2607 }, { 213,-2607 }, { 214,-2607 }, { 215,-2607 }, { 216,-2607 },
- { 217,-2607 }, { 218,-2607 }, { 219,-2607 }, { 220,-2607 }, { 221,-2607 },
- { 222,-2607 }, { 223,-2607 }, { 224,-2607 }, { 225,-2607 }, { 226,-2607 },
- { 227,-2607 }, { 228,-2607 }, { 229,-2607 }, { 230,-2607 }, { 231,-2607 },
- { 232,-2607 }, { 233,-2607 }, { 234,-2607 }, { 235,-2607 }, { 236,-2607 },
- { 237,-2607 }, { 238,-2607 }, { 239,-2607 }, { 240,-2607 }, { 241,-2607 },
- { 242,-2607 }, { 243,-2607 }, { 244,-2607 }, { 245,-2607 }, { 246,-2607 },
- { 247,-2607 }, { 248,-2607 }, { 249,-2607 }, { 250,-2607 }, { 251,-2607 },
- { 252,-2607 }, { 253,-2607 }, { 254,-2607 }, { 255,-2607 }, { 256,-2607 },
-
- {   0,   0 }, {   0,1558 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ { 256,-258 }, {   0,   0 }, {   0,4271 }, {   1,1064 }, {   2,1064 },
+ {   3,1064 }, {   4,1064 }, {   5,1064 }, {   6,1064 }, {   7,1064 },
+ {   8,1064 }, {   9,1064 }, {  10,1064 }, {  11,1064 }, {  12,1064 },
+ {  13,1064 }, {  14,1064 }, {  15,1064 }, {  16,1064 }, {  17,1064 },
+ {  18,1064 }, {  19,1064 }, {  20,1064 }, {  21,1064 }, {  22,1064 },
+ {  23,1064 }, {  24,1064 }, {  25,1064 }, {  26,1064 }, {  27,1064 },
+ {  28,1064 }, {  29,1064 }, {  30,1064 }, {  31,1064 }, {  32,1064 },
+ {  33,1064 }, {  34,1064 }, {  35,1064 }, {  36,1064 }, {  37,1064 },
+ {  38,1064 }, {  39,1064 }, {  40,1064 }, {  41,1064 }, {  42,1064 },
+ {  43,1064 }, {  44,1064 }, {  45,1064 }, {  46,1064 }, {  47,1423 },
+
+ {  48,1064 }, {  49,1064 }, {  50,1064 }, {  51,1064 }, {  52,1064 },
+ {  53,1064 }, {  54,1064 }, {  55,1064 }, {  56,1064 }, {  57,1064 },
+ {  58,1064 }, {  59,1064 }, {  60,1064 }, {  61,1064 }, {  62,1064 },
+ {  63,1064 }, {  64,1064 }, {  65,1064 }, {  66,1064 }, {  67,1064 },
+ {  68,1064 }, {  69,1064 }, {  70,1064 }, {  71,1064 }, {  72,1064 },
+ {  73,1064 }, {  74,1064 }, {  75,1064 }, {  76,1064 }, {  77,1064 },
+ {  78,1064 }, {  79,1064 }, {  80,1064 }, {  81,1064 }, {  82,1064 },
+ {  83,1064 }, {  84,1064 }, {  85,1064 }, {  86,1064 }, {  87,1064 },
+ {  88,1064 }, {  89,1064 }, {  90,1064 }, {  91,1064 }, {  92,1064 },
+ {  93,1064 }, {  94,1064 }, {  95,1064 }, {  96,1064 }, {  97,1064 },
+
+ {  98,1064 }, {  99,1064 }, { 100,1064 }, { 101,1064 }, { 102,1064 },
+ { 103,1064 }, { 104,1064 }, { 105,1064 }, { 106,1064 }, { 107,1064 },
+ { 108,1064 }, { 109,1064 }, { 110,1064 }, { 111,1064 }, { 112,1064 },
+ { 113,1064 }, { 114,1064 }, { 115,1064 }, { 116,1064 }, { 117,1064 },
+ { 118,1064 }, { 119,1064 }, { 120,1064 }, { 121,1064 }, { 122,1064 },
+ { 123,1064 }, { 124,1064 }, { 125,1064 }, { 126,1064 }, { 127,1064 },
+ { 128,1064 }, { 129,1064 }, { 130,1064 }, { 131,1064 }, { 132,1064 },
+ { 133,1064 }, { 134,1064 }, { 135,1064 }, { 136,1064 }, { 137,1064 },
+ { 138,1064 }, { 139,1064 }, { 140,1064 }, { 141,1064 }, { 142,1064 },
+ { 143,1064 }, { 144,1064 }, { 145,1064 }, { 146,1064 }, { 147,1064 },
+
+ { 148,1064 }, { 149,1064 }, { 150,1064 }, { 151,1064 }, { 152,1064 },
+ { 153,1064 }, { 154,1064 }, { 155,1064 }, { 156,1064 }, { 157,1064 },
+ { 158,1064 }, { 159,1064 }, { 160,1064 }, { 161,1064 }, { 162,1064 },
+ { 163,1064 }, { 164,1064 }, { 165,1064 }, { 166,1064 }, { 167,1064 },
+ { 168,1064 }, { 169,1064 }, { 170,1064 }, { 171,1064 }, { 172,1064 },
+ { 173,1064 }, { 174,1064 }, { 175,1064 }, { 176,1064 }, { 177,1064 },
+ { 178,1064 }, { 179,1064 }, { 180,1064 }, { 181,1064 }, { 182,1064 },
+ { 183,1064 }, { 184,1064 }, { 185,1064 }, { 186,1064 }, { 187,1064 },
+ { 188,1064 }, { 189,1064 }, { 190,1064 }, { 191,1064 }, { 192,1064 },
+ { 193,1064 }, { 194,1064 }, { 195,1064 }, { 196,1064 }, { 197,1064 },
+
+ { 198,1064 }, { 199,1064 }, { 200,1064 }, { 201,1064 }, { 202,1064 },
+ { 203,1064 }, { 204,1064 }, { 205,1064 }, { 206,1064 }, { 207,1064 },
+ { 208,1064 }, { 209,1064 }, { 210,1064 }, { 211,1064 }, { 212,1064 },
+ { 213,1064 }, { 214,1064 }, { 215,1064 }, { 216,1064 }, { 217,1064 },
+ { 218,1064 }, { 219,1064 }, { 220,1064 }, { 221,1064 }, { 222,1064 },
+ { 223,1064 }, { 224,1064 }, { 225,1064 }, { 226,1064 }, { 227,1064 },
+ { 228,1064 }, { 229,1064 }, { 230,1064 }, { 231,1064 }, { 232,1064 },
+ { 233,1064 }, { 234,1064 }, { 235,1064 }, { 236,1064 }, { 237,1064 },
+ { 238,1064 }, { 239,1064 }, { 240,1064 }, { 241,1064 }, { 242,1064 },
+ { 243,1064 }, { 244,1064 }, { 245,1064 }, { 246,1064 }, { 247,1064 },
+
+ { 248,1064 }, { 249,1064 }, { 250,1064 }, { 251,1064 }, { 252,1064 },
+ { 253,1064 }, { 254,1064 }, { 255,1064 }, { 256,1064 }, {   0,   1 },
+ {   0,4013 }, {   0,   1 }, {   0,4011 }, {   0,   4 }, {   0,4009 },
+ {   0,  46 }, {   0,4007 }, {   0,  43 }, {   0,4005 }, {   0,  28 },
+ {   0,4003 }, {   0,  22 }, {   0,4001 }, {   0,   0 }, {  10,   0 },
+ {   0,   0 }, {   0,   0 }, {  13,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   4 }, {   0,3982 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
  {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
- {   0,   0 }, {   0,   0 }, {  11,   0 }, {  12,   0 }, {   0,   0 },
+
+ {   9,   0 }, {  10, 779 }, {  11,   0 }, {  12,   0 }, {  13, 779 },
  {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
  {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
  {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
- {  29,   0 }, {  30,   0 }, {  31,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,   0 }, {   0,   0 }, {   0,   0 }, {  48,   0 },
-
+ {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 },
+ {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 },
+ {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 },
+ {  44,   0 }, {  45,   0 }, {  46,   0 }, {  47,   0 }, {  48,   0 },
  {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
  {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  63,   0 },
- {   0,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
+
+ {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 },
+ {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
  {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
  {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
  {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
  {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
- {  89,   0 }, {  90,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,   0 }, {   0,   0 }, {  97,   0 }, {  98,   0 },
-
+ {  89,   0 }, {  90,   0 }, {  91,   0 }, { 123, 808 }, {  93,   0 },
+ {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 },
  {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
  { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
+
  { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
  { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
  { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, {   0,   0 },
- {   0,   0 }, { 125, 905 }, {   0,   0 }, { 127,   0 }, { 128,   0 },
+ { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 },
  { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
  { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
  { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
  { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
-
  { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
  { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
+
  { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
  { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
  { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
@@ -4978,9 +4525,9 @@ static const struct yy_trans_info yy_transition[21514] =
  { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
  { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
  { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
-
  { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
  { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
+
  { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
  { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
  { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
@@ -4989,296 +4536,828 @@ static const struct yy_trans_info yy_transition[21514] =
  { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
  { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
  { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
-
  { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,1300 },
- {   1,-12111 }, {   2,-12111 }, {   3,-12111 }, {   4,-12111 }, {   5,-12111 },
- {   6,-12111 }, {   7,-12111 }, {   8,-12111 }, {   9,-12136 }, {  10,-12136 },
- {  11,-12111 }, {  12,-12111 }, {  13,-12136 }, {  14,-12111 }, {  15,-12111 },
- {  16,-12111 }, {  17,-12111 }, {  18,-12111 }, {  19,-12111 }, {  20,-12111 },
- {  21,-12111 }, {  22,-12111 }, {  23,-12111 }, {  24,-12111 }, {  25,-12111 },
- {  26,-12111 }, {  27,-12111 }, {  28,-12111 }, {  29,-12111 }, {  30,-12111 },
- {  31,-12111 }, {  32,-12136 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,-12111 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {  41,-12136 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-12111 },
- {  46,-12136 }, {  47,-12136 }, {  48,-12111 }, {  49,-12111 }, {  50,-12111 },
- {  51,-12111 }, {  52,-12111 }, {  53,-12111 }, {  54,-12111 }, {  55,-12111 },
- {  56,-12111 }, {  57,-12111 }, {  58,-12111 }, {   0,   0 }, {   0,   0 },
- {  61,-12136 }, {   0,   0 }, {  63,-12111 }, {   0,   0 }, {  65,-12111 },
- {  66,-12111 }, {  67,-12111 }, {  68,-12111 }, {  69,-12111 }, {  70,-12111 },
- {  71,-12111 }, {  72,-12111 }, {  73,-12111 }, {  74,-12111 }, {  75,-12111 },
- {  76,-12111 }, {  77,-12111 }, {  78,-12111 }, {  79,-12111 }, {  80,-12111 },
- {  81,-12111 }, {  82,-12111 }, {  83,-12111 }, {  84,-12111 }, {  85,-12111 },
- {  86,-12111 }, {  87,-12111 }, {  88,-12111 }, {  89,-12111 }, {  90,-12111 },
+ { 254,   0 }, { 255,   0 }, {   0,   0 }, {   0,3725 }, {   1,-10050 },
+
+ {   2,-10050 }, {   3,-10050 }, {   4,-10050 }, {   5,-10050 }, {   6,-10050 },
+ {   7,-10050 }, {   8,-10050 }, {   9, 524 }, {  10, 524 }, {  11,-10050 },
+ {  12,-10050 }, {  13, 524 }, {  14,-10050 }, {  15,-10050 }, {  16,-10050 },
+ {  17,-10050 }, {  18,-10050 }, {  19,-10050 }, {  20,-10050 }, {  21,-10050 },
+ {  22,-10050 }, {  23,-10050 }, {  24,-10050 }, {  25,-10050 }, {  26,-10050 },
+ {  27,-10050 }, {  28,-10050 }, {  29,-10050 }, {  30,-10050 }, {  31,-10050 },
+ {  32, 524 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-10050 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41, 524 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-10050 }, {  46,-10075 },
+ {  47,-10075 }, {  48,-10050 }, {  49,-10050 }, {  50,-10050 }, {  51,-10050 },
+
+ {  52,-10050 }, {  53,-10050 }, {  54,-10050 }, {  55,-10050 }, {  56,-10050 },
+ {  57,-10050 }, {  58,-10050 }, {   0,   0 }, {   0,   0 }, {  61,-10075 },
+ {   0,   0 }, {  63,-10050 }, {   0,   0 }, {  65,-10050 }, {  66,-10050 },
+ {  67,-10050 }, {  68,-10050 }, {  69,-10050 }, {  70,-10050 }, {  71,-10050 },
+ {  72,-10050 }, {  73,-10050 }, {  74,-10050 }, {  75,-10050 }, {  76,-10050 },
+ {  77,-10050 }, {  78,-10050 }, {  79,-10050 }, {  80,-10050 }, {  81,-10050 },
+ {  82,-10050 }, {  83,-10050 }, {  84,-10050 }, {  85,-10050 }, {  86,-10050 },
+ {  87,-10050 }, {  88,-10050 }, {  89,-10050 }, {  90,-10050 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-10050 }, {   0,   0 },
+ {  97,-10050 }, {  98,-10050 }, {  99,-10050 }, { 100,-10050 }, { 101,-10050 },
+
+ { 102,-10050 }, { 103,-10050 }, { 104,-10050 }, { 105,-10050 }, { 106,-10050 },
+ { 107,-10050 }, { 108,-10050 }, { 109,-10050 }, { 110,-10050 }, { 111,-10050 },
+ { 112,-10050 }, { 113,-10050 }, { 114,-10050 }, { 115,-10050 }, { 116,-10050 },
+ { 117,-10050 }, { 118,-10050 }, { 119,-10050 }, { 120,-10050 }, { 121,-10050 },
+ { 122,-10050 }, {   0,   0 }, { 124,-10075 }, { 125, 524 }, { 126, 524 },
+ { 127,-10050 }, { 128,-10050 }, { 129,-10050 }, { 130,-10050 }, { 131,-10050 },
+ { 132,-10050 }, { 133,-10050 }, { 134,-10050 }, { 135,-10050 }, { 136,-10050 },
+ { 137,-10050 }, { 138,-10050 }, { 139,-10050 }, { 140,-10050 }, { 141,-10050 },
+ { 142,-10050 }, { 143,-10050 }, { 144,-10050 }, { 145,-10050 }, { 146,-10050 },
+ { 147,-10050 }, { 148,-10050 }, { 149,-10050 }, { 150,-10050 }, { 151,-10050 },
+
+ { 152,-10050 }, { 153,-10050 }, { 154,-10050 }, { 155,-10050 }, { 156,-10050 },
+ { 157,-10050 }, { 158,-10050 }, { 159,-10050 }, { 160,-10050 }, { 161,-10050 },
+ { 162,-10050 }, { 163,-10050 }, { 164,-10050 }, { 165,-10050 }, { 166,-10050 },
+ { 167,-10050 }, { 168,-10050 }, { 169,-10050 }, { 170,-10050 }, { 171,-10050 },
+ { 172,-10050 }, { 173,-10050 }, { 174,-10050 }, { 175,-10050 }, { 176,-10050 },
+ { 177,-10050 }, { 178,-10050 }, { 179,-10050 }, { 180,-10050 }, { 181,-10050 },
+ { 182,-10050 }, { 183,-10050 }, { 184,-10050 }, { 185,-10050 }, { 186,-10050 },
+ { 187,-10050 }, { 188,-10050 }, { 189,-10050 }, { 190,-10050 }, { 191,-10050 },
+ { 192,-10050 }, { 193,-10050 }, { 194,-10050 }, { 195,-10050 }, { 196,-10050 },
+ { 197,-10050 }, { 198,-10050 }, { 199,-10050 }, { 200,-10050 }, { 201,-10050 },
+
+ { 202,-10050 }, { 203,-10050 }, { 204,-10050 }, { 205,-10050 }, { 206,-10050 },
+ { 207,-10050 }, { 208,-10050 }, { 209,-10050 }, { 210,-10050 }, { 211,-10050 },
+ { 212,-10050 }, { 213,-10050 }, { 214,-10050 }, { 215,-10050 }, { 216,-10050 },
+ { 217,-10050 }, { 218,-10050 }, { 219,-10050 }, { 220,-10050 }, { 221,-10050 },
+ { 222,-10050 }, { 223,-10050 }, { 224,-10050 }, { 225,-10050 }, { 226,-10050 },
+ { 227,-10050 }, { 228,-10050 }, { 229,-10050 }, { 230,-10050 }, { 231,-10050 },
+ { 232,-10050 }, { 233,-10050 }, { 234,-10050 }, { 235,-10050 }, { 236,-10050 },
+ { 237,-10050 }, { 238,-10050 }, { 239,-10050 }, { 240,-10050 }, { 241,-10050 },
+ { 242,-10050 }, { 243,-10050 }, { 244,-10050 }, { 245,-10050 }, { 246,-10050 },
+ { 247,-10050 }, { 248,-10050 }, { 249,-10050 }, { 250,-10050 }, { 251,-10050 },
+
+ { 252,-10050 }, { 253,-10050 }, { 254,-10050 }, { 255,-10050 }, { 256,-10050 },
+ {   0,   0 }, {   0,3467 }, {   1,-10308 }, {   2,-10308 }, {   3,-10308 },
+ {   4,-10308 }, {   5,-10308 }, {   6,-10308 }, {   7,-10308 }, {   8,-10308 },
+ {   9,-10333 }, {  10,-10333 }, {  11,-10308 }, {  12,-10308 }, {  13,-10333 },
+ {  14,-10308 }, {  15,-10308 }, {  16,-10308 }, {  17,-10308 }, {  18,-10308 },
+ {  19,-10308 }, {  20,-10308 }, {  21,-10308 }, {  22,-10308 }, {  23,-10308 },
+ {  24,-10308 }, {  25,-10308 }, {  26,-10308 }, {  27,-10308 }, {  28,-10308 },
+ {  29,-10308 }, {  30,-10308 }, {  31,-10308 }, {  32,-10333 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,-10308 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,-10333 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {  45,-10308 }, {  46,-10333 }, {  47,-10333 }, {  48,-10308 },
+ {  49,-10308 }, {  50,-10308 }, {  51,-10308 }, {  52,-10308 }, {  53,-10308 },
+ {  54,-10308 }, {  55,-10308 }, {  56,-10308 }, {  57,-10308 }, {  58,-10308 },
+ {   0,   0 }, {   0,   0 }, {  61,-10333 }, {   0,   0 }, {  63,-10308 },
+ {   0,   0 }, {  65,-10308 }, {  66,-10308 }, {  67,-10308 }, {  68,-10308 },
+ {  69,-10308 }, {  70,-10308 }, {  71,-10308 }, {  72,-10308 }, {  73,-10308 },
+ {  74,-10308 }, {  75,-10308 }, {  76,-10308 }, {  77,-10308 }, {  78,-10308 },
+ {  79,-10308 }, {  80,-10308 }, {  81,-10308 }, {  82,-10308 }, {  83,-10308 },
+ {  84,-10308 }, {  85,-10308 }, {  86,-10308 }, {  87,-10308 }, {  88,-10308 },
+ {  89,-10308 }, {  90,-10308 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {  95,-10308 }, {   0,   0 }, {  97,-10308 }, {  98,-10308 },
+ {  99,-10308 }, { 100,-10308 }, { 101,-10308 }, { 102,-10308 }, { 103,-10308 },
+ { 104,-10308 }, { 105, 877 }, { 106,-10308 }, { 107,-10308 }, { 108,-10308 },
+ { 109,-10308 }, { 110,-10308 }, { 111,-10308 }, { 112,-10308 }, { 113,-10308 },
+ { 114,-10308 }, { 115,-10308 }, { 116,-10308 }, { 117,-10308 }, { 118,-10308 },
+ { 119,-10308 }, { 120,-10308 }, { 121,-10308 }, { 122,-10308 }, {   0,   0 },
+ { 124,-10333 }, { 125,-10333 }, { 126,-10333 }, { 127,-10308 }, { 128,-10308 },
+ { 129,-10308 }, { 130,-10308 }, { 131,-10308 }, { 132,-10308 }, { 133,-10308 },
+ { 134,-10308 }, { 135,-10308 }, { 136,-10308 }, { 137,-10308 }, { 138,-10308 },
+ { 139,-10308 }, { 140,-10308 }, { 141,-10308 }, { 142,-10308 }, { 143,-10308 },
+
+ { 144,-10308 }, { 145,-10308 }, { 146,-10308 }, { 147,-10308 }, { 148,-10308 },
+ { 149,-10308 }, { 150,-10308 }, { 151,-10308 }, { 152,-10308 }, { 153,-10308 },
+ { 154,-10308 }, { 155,-10308 }, { 156,-10308 }, { 157,-10308 }, { 158,-10308 },
+ { 159,-10308 }, { 160,-10308 }, { 161,-10308 }, { 162,-10308 }, { 163,-10308 },
+ { 164,-10308 }, { 165,-10308 }, { 166,-10308 }, { 167,-10308 }, { 168,-10308 },
+ { 169,-10308 }, { 170,-10308 }, { 171,-10308 }, { 172,-10308 }, { 173,-10308 },
+ { 174,-10308 }, { 175,-10308 }, { 176,-10308 }, { 177,-10308 }, { 178,-10308 },
+ { 179,-10308 }, { 180,-10308 }, { 181,-10308 }, { 182,-10308 }, { 183,-10308 },
+ { 184,-10308 }, { 185,-10308 }, { 186,-10308 }, { 187,-10308 }, { 188,-10308 },
+ { 189,-10308 }, { 190,-10308 }, { 191,-10308 }, { 192,-10308 }, { 193,-10308 },
+
+ { 194,-10308 }, { 195,-10308 }, { 196,-10308 }, { 197,-10308 }, { 198,-10308 },
+ { 199,-10308 }, { 200,-10308 }, { 201,-10308 }, { 202,-10308 }, { 203,-10308 },
+ { 204,-10308 }, { 205,-10308 }, { 206,-10308 }, { 207,-10308 }, { 208,-10308 },
+ { 209,-10308 }, { 210,-10308 }, { 211,-10308 }, { 212,-10308 }, { 213,-10308 },
+ { 214,-10308 }, { 215,-10308 }, { 216,-10308 }, { 217,-10308 }, { 218,-10308 },
+ { 219,-10308 }, { 220,-10308 }, { 221,-10308 }, { 222,-10308 }, { 223,-10308 },
+ { 224,-10308 }, { 225,-10308 }, { 226,-10308 }, { 227,-10308 }, { 228,-10308 },
+ { 229,-10308 }, { 230,-10308 }, { 231,-10308 }, { 232,-10308 }, { 233,-10308 },
+ { 234,-10308 }, { 235,-10308 }, { 236,-10308 }, { 237,-10308 }, { 238,-10308 },
+ { 239,-10308 }, { 240,-10308 }, { 241,-10308 }, { 242,-10308 }, { 243,-10308 },
+
+ { 244,-10308 }, { 245,-10308 }, { 246,-10308 }, { 247,-10308 }, { 248,-10308 },
+ { 249,-10308 }, { 250,-10308 }, { 251,-10308 }, { 252,-10308 }, { 253,-10308 },
+ { 254,-10308 }, { 255,-10308 }, { 256,-10308 }, {   0,   0 }, {   0,3209 },
+ {   0,   8 }, {   0,3207 }, {   0,   1 }, {   0,3205 }, {   0,   4 },
+ {   0,3203 }, {   0,  44 }, {   0,3201 }, {   0,  25 }, {   0,3199 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  10,   0 }, {   0,   0 }, {   0,   0 }, {  13,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 101, 877 }, {   0,   0 }, {   0,3106 }, {   1,-1681 }, {   2,-1681 },
+ {   3,-1681 }, {   4,-1681 }, {   5,-1681 }, {   6,-1681 }, {   7,-1681 },
+ {   8,-1681 }, {   9,-1681 }, {  10,-1681 }, {  11,-1681 }, {  12,-1681 },
+ {  13,-1681 }, {  14,-1681 }, {  15,-1681 }, {  16,-1681 }, {  17,-1681 },
+ {  18,-1681 }, {  19,-1681 }, {  20,-1681 }, {  21,-1681 }, {  22,-1681 },
+ {  23,-1681 }, {  24,-1681 }, {  25,-1681 }, {  26,-1681 }, {  27,-1681 },
+ {  28,-1681 }, {  29,-1681 }, {  30,-1681 }, {  31,-1681 }, {  32,-1681 },
+
+ {  33,-1681 }, {  34,-1681 }, {  35,-1681 }, {  36,-1681 }, {  37,-1681 },
+ {  38,-1681 }, {  39,-1681 }, {  40,-1681 }, {  41,-1681 }, {  42,-1681 },
+ {  43,-1681 }, {  44,-1681 }, {  45,   0 }, {  46,-1681 }, {  47,-1681 },
+ {  48,-1681 }, {  49,-1681 }, {  50,-1681 }, {  51,-1681 }, {  52,-1681 },
+ {  53,-1681 }, {  54,-1681 }, {  55,-1681 }, {  56,-1681 }, {  57,-1681 },
+ {  58,-1681 }, {  59,-1681 }, {  60,-1681 }, {  61,-1681 }, {  62,-1681 },
+ {  63,-1681 }, {  64,-1681 }, {  65,-1681 }, {  66,-1681 }, {  67,-1681 },
+ {  68,-1681 }, {  69,-1681 }, {  70,-1681 }, {  71,-1681 }, {  72,-1681 },
+ {  73,-1681 }, {  74,-1681 }, {  75,-1681 }, {  76,-1681 }, {  77,-1681 },
+ {  78,-1681 }, {  79,-1681 }, {  80,-1681 }, {  81,-1681 }, {  82,-1681 },
+
+ {  83,-1681 }, {  84,-1681 }, {  85,-1681 }, {  86,-1681 }, {  87,-1681 },
+ {  88,-1681 }, {  89,-1681 }, {  90,-1681 }, {  91,-1681 }, {  92,-1681 },
+ {  93,-1681 }, {  94,-1681 }, {  95,-1681 }, {  96,-1681 }, {  97,-1681 },
+ {  98,-1681 }, {  99,-1681 }, { 100,-1681 }, { 101,-1681 }, { 102,-1681 },
+ { 103,-1681 }, { 104,-1681 }, { 105,-1681 }, { 106,-1681 }, { 107,-1681 },
+ { 108,-1681 }, { 109,-1681 }, { 110,-1681 }, { 111,-1681 }, { 112,-1681 },
+ { 113,-1681 }, { 114,-1681 }, { 115,-1681 }, { 116,-1681 }, { 117,-1681 },
+ { 118,-1681 }, { 119,-1681 }, { 120,-1681 }, { 121,-1681 }, { 122,-1681 },
+ { 123,-1681 }, { 124,-1681 }, { 125,1032 }, { 126,1290 }, { 127,-1681 },
+ { 128,-1681 }, { 129,-1681 }, { 130,-1681 }, { 131,-1681 }, { 132,-1681 },
+
+ { 133,-1681 }, { 134,-1681 }, { 135,-1681 }, { 136,-1681 }, { 137,-1681 },
+ { 138,-1681 }, { 139,-1681 }, { 140,-1681 }, { 141,-1681 }, { 142,-1681 },
+ { 143,-1681 }, { 144,-1681 }, { 145,-1681 }, { 146,-1681 }, { 147,-1681 },
+ { 148,-1681 }, { 149,-1681 }, { 150,-1681 }, { 151,-1681 }, { 152,-1681 },
+ { 153,-1681 }, { 154,-1681 }, { 155,-1681 }, { 156,-1681 }, { 157,-1681 },
+ { 158,-1681 }, { 159,-1681 }, { 160,-1681 }, { 161,-1681 }, { 162,-1681 },
+ { 163,-1681 }, { 164,-1681 }, { 165,-1681 }, { 166,-1681 }, { 167,-1681 },
+ { 168,-1681 }, { 169,-1681 }, { 170,-1681 }, { 171,-1681 }, { 172,-1681 },
+ { 173,-1681 }, { 174,-1681 }, { 175,-1681 }, { 176,-1681 }, { 177,-1681 },
+ { 178,-1681 }, { 179,-1681 }, { 180,-1681 }, { 181,-1681 }, { 182,-1681 },
+
+ { 183,-1681 }, { 184,-1681 }, { 185,-1681 }, { 186,-1681 }, { 187,-1681 },
+ { 188,-1681 }, { 189,-1681 }, { 190,-1681 }, { 191,-1681 }, { 192,-1681 },
+ { 193,-1681 }, { 194,-1681 }, { 195,-1681 }, { 196,-1681 }, { 197,-1681 },
+ { 198,-1681 }, { 199,-1681 }, { 200,-1681 }, { 201,-1681 }, { 202,-1681 },
+ { 203,-1681 }, { 204,-1681 }, { 205,-1681 }, { 206,-1681 }, { 207,-1681 },
+ { 208,-1681 }, { 209,-1681 }, { 210,-1681 }, { 211,-1681 }, { 212,-1681 },
+ { 213,-1681 }, { 214,-1681 }, { 215,-1681 }, { 216,-1681 }, { 217,-1681 },
+ { 218,-1681 }, { 219,-1681 }, { 220,-1681 }, { 221,-1681 }, { 222,-1681 },
+ { 223,-1681 }, { 224,-1681 }, { 225,-1681 }, { 226,-1681 }, { 227,-1681 },
+ { 228,-1681 }, { 229,-1681 }, { 230,-1681 }, { 231,-1681 }, { 232,-1681 },
+
+ { 233,-1681 }, { 234,-1681 }, { 235,-1681 }, { 236,-1681 }, { 237,-1681 },
+ { 238,-1681 }, { 239,-1681 }, { 240,-1681 }, { 241,-1681 }, { 242,-1681 },
+ { 243,-1681 }, { 244,-1681 }, { 245,-1681 }, { 246,-1681 }, { 247,-1681 },
+ { 248,-1681 }, { 249,-1681 }, { 250,-1681 }, { 251,-1681 }, { 252,-1681 },
+ { 253,-1681 }, { 254,-1681 }, { 255,-1681 }, { 256,-1681 }, {   0,   0 },
+ {   0,2848 }, {   1,1290 }, {   2,1290 }, {   3,1290 }, {   4,1290 },
+ {   5,1290 }, {   6,1290 }, {   7,1290 }, {   8,1290 }, {   0,   0 },
+ {   0,   0 }, {  11,1290 }, {  12,1290 }, {   0,   0 }, {  14,1290 },
+ {  15,1290 }, {  16,1290 }, {  17,1290 }, {  18,1290 }, {  19,1290 },
+ {  20,1290 }, {  21,1290 }, {  22,1290 }, {  23,1290 }, {  24,1290 },
+
+ {  25,1290 }, {  26,1290 }, {  27,1290 }, {  28,1290 }, {  29,1290 },
+ {  30,1290 }, {  31,1290 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  36,1290 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,1290 }, {   0,   0 }, {   0,   0 }, {  48,1290 }, {  49,1290 },
+ {  50,1290 }, {  51,1290 }, {  52,1290 }, {  53,1290 }, {  54,1290 },
+ {  55,1290 }, {  56,1290 }, {  57,1290 }, {  58,1290 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  63,1290 }, {   0,   0 },
+ {  65,1290 }, {  66,1290 }, {  67,1290 }, {  68,1290 }, {  69,1290 },
+ {  70,1290 }, {  71,1290 }, {  72,1290 }, {  73,1290 }, {  74,1290 },
+
+ {  75,1290 }, {  76,1290 }, {  77,1290 }, {  78,1290 }, {  79,1290 },
+ {  80,1290 }, {  81,1290 }, {  82,1290 }, {  83,1290 }, {  84,1290 },
+ {  85,1290 }, {  86,1290 }, {  87,1290 }, {  88,1290 }, {  89,1290 },
+ {  90,1290 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  95,1290 }, {   0,   0 }, {  97,1290 }, {  98,1290 }, {  99,1290 },
+ { 100,1290 }, { 101,1290 }, { 102,1290 }, { 103,1290 }, { 104,1290 },
+ { 105,1290 }, { 106,1290 }, { 107,1290 }, { 108,1290 }, { 109,1290 },
+ { 110,1290 }, { 111,1290 }, { 112,1290 }, { 113,1290 }, { 114,1290 },
+ { 115,1290 }, { 116,1290 }, { 117,1290 }, { 118,1290 }, { 119,1290 },
+ { 120,1290 }, { 121,1290 }, { 122,1290 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, { 127,1290 }, { 128,1290 }, { 129,1290 },
+ { 130,1290 }, { 131,1290 }, { 132,1290 }, { 133,1290 }, { 134,1290 },
+ { 135,1290 }, { 136,1290 }, { 137,1290 }, { 138,1290 }, { 139,1290 },
+ { 140,1290 }, { 141,1290 }, { 142,1290 }, { 143,1290 }, { 144,1290 },
+ { 145,1290 }, { 146,1290 }, { 147,1290 }, { 148,1290 }, { 149,1290 },
+ { 150,1290 }, { 151,1290 }, { 152,1290 }, { 153,1290 }, { 154,1290 },
+ { 155,1290 }, { 156,1290 }, { 157,1290 }, { 158,1290 }, { 159,1290 },
+ { 160,1290 }, { 161,1290 }, { 162,1290 }, { 163,1290 }, { 164,1290 },
+ { 165,1290 }, { 166,1290 }, { 167,1290 }, { 168,1290 }, { 169,1290 },
+ { 170,1290 }, { 171,1290 }, { 172,1290 }, { 173,1290 }, { 174,1290 },
+
+ { 175,1290 }, { 176,1290 }, { 177,1290 }, { 178,1290 }, { 179,1290 },
+ { 180,1290 }, { 181,1290 }, { 182,1290 }, { 183,1290 }, { 184,1290 },
+ { 185,1290 }, { 186,1290 }, { 187,1290 }, { 188,1290 }, { 189,1290 },
+ { 190,1290 }, { 191,1290 }, { 192,1290 }, { 193,1290 }, { 194,1290 },
+ { 195,1290 }, { 196,1290 }, { 197,1290 }, { 198,1290 }, { 199,1290 },
+ { 200,1290 }, { 201,1290 }, { 202,1290 }, { 203,1290 }, { 204,1290 },
+ { 205,1290 }, { 206,1290 }, { 207,1290 }, { 208,1290 }, { 209,1290 },
+ { 210,1290 }, { 211,1290 }, { 212,1290 }, { 213,1290 }, { 214,1290 },
+ { 215,1290 }, { 216,1290 }, { 217,1290 }, { 218,1290 }, { 219,1290 },
+ { 220,1290 }, { 221,1290 }, { 222,1290 }, { 223,1290 }, { 224,1290 },
+
+ { 225,1290 }, { 226,1290 }, { 227,1290 }, { 228,1290 }, { 229,1290 },
+ { 230,1290 }, { 231,1290 }, { 232,1290 }, { 233,1290 }, { 234,1290 },
+ { 235,1290 }, { 236,1290 }, { 237,1290 }, { 238,1290 }, { 239,1290 },
+ { 240,1290 }, { 241,1290 }, { 242,1290 }, { 243,1290 }, { 244,1290 },
+ { 245,1290 }, { 246,1290 }, { 247,1290 }, { 248,1290 }, { 249,1290 },
+ { 250,1290 }, { 251,1290 }, { 252,1290 }, { 253,1290 }, { 254,1290 },
+ { 255,1290 }, { 256,1290 }, {   0,   0 }, {   0,2590 }, {   1,-11185 },
+ {   2,-11185 }, {   3,-11185 }, {   4,-11185 }, {   5,-11185 }, {   6,-11185 },
+ {   7,-11185 }, {   8,-11185 }, {   9,-11210 }, {  10,-11210 }, {  11,-11185 },
+ {  12,-11185 }, {  13,-11210 }, {  14,-11185 }, {  15,-11185 }, {  16,-11185 },
+
+ {  17,-11185 }, {  18,-11185 }, {  19,-11185 }, {  20,-11185 }, {  21,-11185 },
+ {  22,-11185 }, {  23,-11185 }, {  24,-11185 }, {  25,-11185 }, {  26,-11185 },
+ {  27,-11185 }, {  28,-11185 }, {  29,-11185 }, {  30,-11185 }, {  31,-11185 },
+ {  32,-11210 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-11185 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-11210 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-11185 }, {  46,-11210 },
+ {  47,-11210 }, {  48,-11185 }, {  49,-11185 }, {  50,-11185 }, {  51,-11185 },
+ {  52,-11185 }, {  53,-11185 }, {  54,-11185 }, {  55,-11185 }, {  56,-11185 },
+ {  57,-11185 }, {  58,-11185 }, {   0,   0 }, {   0,   0 }, {  61,-11210 },
+ {   0,   0 }, {  63,-11185 }, {   0,   0 }, {  65,-11185 }, {  66,-11185 },
+
+ {  67,-11185 }, {  68,-11185 }, {  69,-11185 }, {  70,-11185 }, {  71,-11185 },
+ {  72,-11185 }, {  73,-11185 }, {  74,-11185 }, {  75,-11185 }, {  76,-11185 },
+ {  77,-11185 }, {  78,-11185 }, {  79,-11185 }, {  80,-11185 }, {  81,-11185 },
+ {  82,-11185 }, {  83,-11185 }, {  84,-11185 }, {  85,-11185 }, {  86,-11185 },
+ {  87,-11185 }, {  88,-11185 }, {  89,-11185 }, {  90,-11185 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-11185 }, {   0,   0 },
+ {  97,-11185 }, {  98,-11185 }, {  99,-11185 }, { 100,-11185 }, { 101,-11185 },
+ { 102,-11185 }, { 103,-11185 }, { 104,-11185 }, { 105,-11185 }, { 106,-11185 },
+ { 107,-11185 }, { 108,-11185 }, { 109,-11185 }, { 110,1290 }, { 111,-11185 },
+ { 112,-11185 }, { 113,-11185 }, { 114,-11185 }, { 115,-11185 }, { 116,-11185 },
+
+ { 117,-11185 }, { 118,-11185 }, { 119,-11185 }, { 120,-11185 }, { 121,-11185 },
+ { 122,-11185 }, {   0,   0 }, { 124,-11210 }, { 125,-11210 }, { 126,-11210 },
+ { 127,-11185 }, { 128,-11185 }, { 129,-11185 }, { 130,-11185 }, { 131,-11185 },
+ { 132,-11185 }, { 133,-11185 }, { 134,-11185 }, { 135,-11185 }, { 136,-11185 },
+ { 137,-11185 }, { 138,-11185 }, { 139,-11185 }, { 140,-11185 }, { 141,-11185 },
+ { 142,-11185 }, { 143,-11185 }, { 144,-11185 }, { 145,-11185 }, { 146,-11185 },
+ { 147,-11185 }, { 148,-11185 }, { 149,-11185 }, { 150,-11185 }, { 151,-11185 },
+ { 152,-11185 }, { 153,-11185 }, { 154,-11185 }, { 155,-11185 }, { 156,-11185 },
+ { 157,-11185 }, { 158,-11185 }, { 159,-11185 }, { 160,-11185 }, { 161,-11185 },
+ { 162,-11185 }, { 163,-11185 }, { 164,-11185 }, { 165,-11185 }, { 166,-11185 },
+
+ { 167,-11185 }, { 168,-11185 }, { 169,-11185 }, { 170,-11185 }, { 171,-11185 },
+ { 172,-11185 }, { 173,-11185 }, { 174,-11185 }, { 175,-11185 }, { 176,-11185 },
+ { 177,-11185 }, { 178,-11185 }, { 179,-11185 }, { 180,-11185 }, { 181,-11185 },
+ { 182,-11185 }, { 183,-11185 }, { 184,-11185 }, { 185,-11185 }, { 186,-11185 },
+ { 187,-11185 }, { 188,-11185 }, { 189,-11185 }, { 190,-11185 }, { 191,-11185 },
+ { 192,-11185 }, { 193,-11185 }, { 194,-11185 }, { 195,-11185 }, { 196,-11185 },
+ { 197,-11185 }, { 198,-11185 }, { 199,-11185 }, { 200,-11185 }, { 201,-11185 },
+ { 202,-11185 }, { 203,-11185 }, { 204,-11185 }, { 205,-11185 }, { 206,-11185 },
+ { 207,-11185 }, { 208,-11185 }, { 209,-11185 }, { 210,-11185 }, { 211,-11185 },
+ { 212,-11185 }, { 213,-11185 }, { 214,-11185 }, { 215,-11185 }, { 216,-11185 },
+
+ { 217,-11185 }, { 218,-11185 }, { 219,-11185 }, { 220,-11185 }, { 221,-11185 },
+ { 222,-11185 }, { 223,-11185 }, { 224,-11185 }, { 225,-11185 }, { 226,-11185 },
+ { 227,-11185 }, { 228,-11185 }, { 229,-11185 }, { 230,-11185 }, { 231,-11185 },
+ { 232,-11185 }, { 233,-11185 }, { 234,-11185 }, { 235,-11185 }, { 236,-11185 },
+ { 237,-11185 }, { 238,-11185 }, { 239,-11185 }, { 240,-11185 }, { 241,-11185 },
+ { 242,-11185 }, { 243,-11185 }, { 244,-11185 }, { 245,-11185 }, { 246,-11185 },
+ { 247,-11185 }, { 248,-11185 }, { 249,-11185 }, { 250,-11185 }, { 251,-11185 },
+ { 252,-11185 }, { 253,-11185 }, { 254,-11185 }, { 255,-11185 }, { 256,-11185 },
+ {   0,   0 }, {   0,2332 }, {   1,-867 }, {   2,-867 }, {   3,-867 },
+ {   4,-867 }, {   5,-867 }, {   6,-867 }, {   7,-867 }, {   8,-867 },
+
+ {   9,1290 }, {  10,1290 }, {  11,-867 }, {  12,-867 }, {  13,1290 },
+ {  14,-867 }, {  15,-867 }, {  16,-867 }, {  17,-867 }, {  18,-867 },
+ {  19,-867 }, {  20,-867 }, {  21,-867 }, {  22,-867 }, {  23,-867 },
+ {  24,-867 }, {  25,-867 }, {  26,-867 }, {  27,-867 }, {  28,-867 },
+ {  29,-867 }, {  30,-867 }, {  31,-867 }, {  32,1290 }, {  33,-867 },
+ {  34,-867 }, {  35,-867 }, {  36,-867 }, {  37,-867 }, {  38,-867 },
+ {  39,-867 }, {  40,-867 }, {  41,-867 }, {  42,-867 }, {  43,-867 },
+ {  44,-867 }, {  45,-867 }, {  46,-867 }, {  47,-867 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  58,-867 },
+
+ {  59,-867 }, {  60,-867 }, {  61,-867 }, {  62,-867 }, {  63,-867 },
+ {  64,-867 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  91,-867 }, {  92,-867 }, {  93,-867 },
+ {  94,-867 }, {   0,   0 }, {  96,-867 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,-867 },
+ { 124,-867 }, { 125,1292 }, { 126,1294 }, { 127,-867 }, { 128,-867 },
+ { 129,-867 }, { 130,-867 }, { 131,-867 }, { 132,-867 }, { 133,-867 },
+ { 134,-867 }, { 135,-867 }, { 136,-867 }, { 137,-867 }, { 138,-867 },
+ { 139,-867 }, { 140,-867 }, { 141,-867 }, { 142,-867 }, { 143,-867 },
+ { 144,-867 }, { 145,-867 }, { 146,-867 }, { 147,-867 }, { 148,-867 },
+ { 149,-867 }, { 150,-867 }, { 151,-867 }, { 152,-867 }, { 153,-867 },
+ { 154,-867 }, { 155,-867 }, { 156,-867 }, { 157,-867 }, { 158,-867 },
+
+ { 159,-867 }, { 160,-867 }, { 161,-867 }, { 162,-867 }, { 163,-867 },
+ { 164,-867 }, { 165,-867 }, { 166,-867 }, { 167,-867 }, { 168,-867 },
+ { 169,-867 }, { 170,-867 }, { 171,-867 }, { 172,-867 }, { 173,-867 },
+ { 174,-867 }, { 175,-867 }, { 176,-867 }, { 177,-867 }, { 178,-867 },
+ { 179,-867 }, { 180,-867 }, { 181,-867 }, { 182,-867 }, { 183,-867 },
+ { 184,-867 }, { 185,-867 }, { 186,-867 }, { 187,-867 }, { 188,-867 },
+ { 189,-867 }, { 190,-867 }, { 191,-867 }, { 192,-867 }, { 193,-867 },
+ { 194,-867 }, { 195,-867 }, { 196,-867 }, { 197,-867 }, { 198,-867 },
+ { 199,-867 }, { 200,-867 }, { 201,-867 }, { 202,-867 }, { 203,-867 },
+ { 204,-867 }, { 205,-867 }, { 206,-867 }, { 207,-867 }, { 208,-867 },
+
+ { 209,-867 }, { 210,-867 }, { 211,-867 }, { 212,-867 }, { 213,-867 },
+ { 214,-867 }, { 215,-867 }, { 216,-867 }, { 217,-867 }, { 218,-867 },
+ { 219,-867 }, { 220,-867 }, { 221,-867 }, { 222,-867 }, { 223,-867 },
+ { 224,-867 }, { 225,-867 }, { 226,-867 }, { 227,-867 }, { 228,-867 },
+ { 229,-867 }, { 230,-867 }, { 231,-867 }, { 232,-867 }, { 233,-867 },
+ { 234,-867 }, { 235,-867 }, { 236,-867 }, { 237,-867 }, { 238,-867 },
+ { 239,-867 }, { 240,-867 }, { 241,-867 }, { 242,-867 }, { 243,-867 },
+ { 244,-867 }, { 245,-867 }, { 246,-867 }, { 247,-867 }, { 248,-867 },
+ { 249,-867 }, { 250,-867 }, { 251,-867 }, { 252,-867 }, { 253,-867 },
+ { 254,-867 }, { 255,-867 }, { 256,-867 }, {   0,   0 }, {   0,2074 },
+
+ {   1,-2713 }, {   2,-2713 }, {   3,-2713 }, {   4,-2713 }, {   5,-2713 },
+ {   6,-2713 }, {   7,-2713 }, {   8,-2713 }, {   9,-2713 }, {  10,-2713 },
+ {  11,-2713 }, {  12,-2713 }, {  13,-2713 }, {  14,-2713 }, {  15,-2713 },
+ {  16,-2713 }, {  17,-2713 }, {  18,-2713 }, {  19,-2713 }, {  20,-2713 },
+ {  21,-2713 }, {  22,-2713 }, {  23,-2713 }, {  24,-2713 }, {  25,-2713 },
+ {  26,-2713 }, {  27,-2713 }, {  28,-2713 }, {  29,-2713 }, {  30,-2713 },
+ {  31,-2713 }, {  32,-2713 }, {  33,-2713 }, {  34,-2713 }, {  35,-2713 },
+ {  36,-2713 }, {  37,-2713 }, {  38,-2713 }, {  39,-2713 }, {  40,-2713 },
+ {  41,-2713 }, {  42,-2713 }, {  43,-2713 }, {  44,-2713 }, {  45,1163 },
+ {  46,-2713 }, {  47,-2713 }, {  48,-2713 }, {  49,-2713 }, {  50,-2713 },
+
+ {  51,-2713 }, {  52,-2713 }, {  53,-2713 }, {  54,-2713 }, {  55,-2713 },
+ {  56,-2713 }, {  57,-2713 }, {  58,-2713 }, {  59,-2713 }, {  60,-2713 },
+ {  61,-2713 }, {  62,-2713 }, {  63,-2713 }, {  64,-2713 }, {  65,-2713 },
+ {  66,-2713 }, {  67,-2713 }, {  68,-2713 }, {  69,-2713 }, {  70,-2713 },
+ {  71,-2713 }, {  72,-2713 }, {  73,-2713 }, {  74,-2713 }, {  75,-2713 },
+ {  76,-2713 }, {  77,-2713 }, {  78,-2713 }, {  79,-2713 }, {  80,-2713 },
+ {  81,-2713 }, {  82,-2713 }, {  83,-2713 }, {  84,-2713 }, {  85,-2713 },
+ {  86,-2713 }, {  87,-2713 }, {  88,-2713 }, {  89,-2713 }, {  90,-2713 },
+ {  91,-2713 }, {  92,-2713 }, {  93,-2713 }, {  94,-2713 }, {  95,-2713 },
+ {  96,-2713 }, {  97,-2713 }, {  98,-2713 }, {  99,-2713 }, { 100,-2713 },
+
+ { 101,-2713 }, { 102,-2713 }, { 103,-2713 }, { 104,-2713 }, { 105,-2713 },
+ { 106,-2713 }, { 107,-2713 }, { 108,-2713 }, { 109,-2713 }, { 110,-2713 },
+ { 111,-2713 }, { 112,-2713 }, { 113,-2713 }, { 114,-2713 }, { 115,-2713 },
+ { 116,-2713 }, { 117,-2713 }, { 118,-2713 }, { 119,-2713 }, { 120,-2713 },
+ { 121,-2713 }, { 122,-2713 }, { 123,-2713 }, { 124,-2713 }, { 125,1038 },
+ { 126,-2713 }, { 127,-2713 }, { 128,-2713 }, { 129,-2713 }, { 130,-2713 },
+ { 131,-2713 }, { 132,-2713 }, { 133,-2713 }, { 134,-2713 }, { 135,-2713 },
+ { 136,-2713 }, { 137,-2713 }, { 138,-2713 }, { 139,-2713 }, { 140,-2713 },
+ { 141,-2713 }, { 142,-2713 }, { 143,-2713 }, { 144,-2713 }, { 145,-2713 },
+ { 146,-2713 }, { 147,-2713 }, { 148,-2713 }, { 149,-2713 }, { 150,-2713 },
+
+ { 151,-2713 }, { 152,-2713 }, { 153,-2713 }, { 154,-2713 }, { 155,-2713 },
+ { 156,-2713 }, { 157,-2713 }, { 158,-2713 }, { 159,-2713 }, { 160,-2713 },
+ { 161,-2713 }, { 162,-2713 }, { 163,-2713 }, { 164,-2713 }, { 165,-2713 },
+ { 166,-2713 }, { 167,-2713 }, { 168,-2713 }, { 169,-2713 }, { 170,-2713 },
+ { 171,-2713 }, { 172,-2713 }, { 173,-2713 }, { 174,-2713 }, { 175,-2713 },
+ { 176,-2713 }, { 177,-2713 }, { 178,-2713 }, { 179,-2713 }, { 180,-2713 },
+ { 181,-2713 }, { 182,-2713 }, { 183,-2713 }, { 184,-2713 }, { 185,-2713 },
+ { 186,-2713 }, { 187,-2713 }, { 188,-2713 }, { 189,-2713 }, { 190,-2713 },
+ { 191,-2713 }, { 192,-2713 }, { 193,-2713 }, { 194,-2713 }, { 195,-2713 },
+ { 196,-2713 }, { 197,-2713 }, { 198,-2713 }, { 199,-2713 }, { 200,-2713 },
+
+ { 201,-2713 }, { 202,-2713 }, { 203,-2713 }, { 204,-2713 }, { 205,-2713 },
+ { 206,-2713 }, { 207,-2713 }, { 208,-2713 }, { 209,-2713 }, { 210,-2713 },
+ { 211,-2713 }, { 212,-2713 }, { 213,-2713 }, { 214,-2713 }, { 215,-2713 },
+ { 216,-2713 }, { 217,-2713 }, { 218,-2713 }, { 219,-2713 }, { 220,-2713 },
+ { 221,-2713 }, { 222,-2713 }, { 223,-2713 }, { 224,-2713 }, { 225,-2713 },
+ { 226,-2713 }, { 227,-2713 }, { 228,-2713 }, { 229,-2713 }, { 230,-2713 },
+ { 231,-2713 }, { 232,-2713 }, { 233,-2713 }, { 234,-2713 }, { 235,-2713 },
+ { 236,-2713 }, { 237,-2713 }, { 238,-2713 }, { 239,-2713 }, { 240,-2713 },
+ { 241,-2713 }, { 242,-2713 }, { 243,-2713 }, { 244,-2713 }, { 245,-2713 },
+ { 246,-2713 }, { 247,-2713 }, { 248,-2713 }, { 249,-2713 }, { 250,-2713 },
+
+ { 251,-2713 }, { 252,-2713 }, { 253,-2713 }, { 254,-2713 }, { 255,-2713 },
+ { 256,-2713 }, {   0,   0 }, {   0,1816 }, {   1,-2971 }, {   2,-2971 },
+ {   3,-2971 }, {   4,-2971 }, {   5,-2971 }, {   6,-2971 }, {   7,-2971 },
+ {   8,-2971 }, {   9,-2971 }, {  10,-2971 }, {  11,-2971 }, {  12,-2971 },
+ {  13,-2971 }, {  14,-2971 }, {  15,-2971 }, {  16,-2971 }, {  17,-2971 },
+ {  18,-2971 }, {  19,-2971 }, {  20,-2971 }, {  21,-2971 }, {  22,-2971 },
+ {  23,-2971 }, {  24,-2971 }, {  25,-2971 }, {  26,-2971 }, {  27,-2971 },
+ {  28,-2971 }, {  29,-2971 }, {  30,-2971 }, {  31,-2971 }, {  32,-2971 },
+ {  33,-2971 }, {  34,-2971 }, {  35,-2971 }, {  36,-2971 }, {  37,-2971 },
+ {  38,-2971 }, {  39,-2971 }, {  40,-2971 }, {  41,-2971 }, {  42,-2971 },
+
+ {  43,-2971 }, {  44,-2971 }, {  45, 905 }, {  46,-2971 }, {  47,-2971 },
+ {  48,-2971 }, {  49,-2971 }, {  50,-2971 }, {  51,-2971 }, {  52,-2971 },
+ {  53,-2971 }, {  54,-2971 }, {  55,-2971 }, {  56,-2971 }, {  57,-2971 },
+ {  58,-2971 }, {  59,-2971 }, {  60,-2971 }, {  61,-2971 }, {  62,-2971 },
+ {  63,-2971 }, {  64,-2971 }, {  65,-2971 }, {  66,-2971 }, {  67,-2971 },
+ {  68,-2971 }, {  69,-2971 }, {  70,-2971 }, {  71,-2971 }, {  72,-2971 },
+ {  73,-2971 }, {  74,-2971 }, {  75,-2971 }, {  76,-2971 }, {  77,-2971 },
+ {  78,-2971 }, {  79,-2971 }, {  80,-2971 }, {  81,-2971 }, {  82,-2971 },
+ {  83,-2971 }, {  84,-2971 }, {  85,-2971 }, {  86,-2971 }, {  87,-2971 },
+ {  88,-2971 }, {  89,-2971 }, {  90,-2971 }, {  91,-2971 }, {  92,-2971 },
+
+ {  93,-2971 }, {  94,-2971 }, {  95,-2971 }, {  96,-2971 }, {  97,-2971 },
+ {  98,-2971 }, {  99,-2971 }, { 100,-2971 }, { 101,-2971 }, { 102,-2971 },
+ { 103,-2971 }, { 104,-2971 }, { 105,-2971 }, { 106,-2971 }, { 107,-2971 },
+ { 108,-2971 }, { 109,-2971 }, { 110,-2971 }, { 111,-2971 }, { 112,-2971 },
+ { 113,-2971 }, { 114,-2971 }, { 115,-2971 }, { 116,-2971 }, { 117,-2971 },
+ { 118,-2971 }, { 119,-2971 }, { 120,-2971 }, { 121,-2971 }, { 122,-2971 },
+ { 123,-2971 }, { 124,-2971 }, { 125,-258 }, { 126,-2971 }, { 127,-2971 },
+ { 128,-2971 }, { 129,-2971 }, { 130,-2971 }, { 131,-2971 }, { 132,-2971 },
+ { 133,-2971 }, { 134,-2971 }, { 135,-2971 }, { 136,-2971 }, { 137,-2971 },
+ { 138,-2971 }, { 139,-2971 }, { 140,-2971 }, { 141,-2971 }, { 142,-2971 },
+
+ { 143,-2971 }, { 144,-2971 }, { 145,-2971 }, { 146,-2971 }, { 147,-2971 },
+ { 148,-2971 }, { 149,-2971 }, { 150,-2971 }, { 151,-2971 }, { 152,-2971 },
+ { 153,-2971 }, { 154,-2971 }, { 155,-2971 }, { 156,-2971 }, { 157,-2971 },
+ { 158,-2971 }, { 159,-2971 }, { 160,-2971 }, { 161,-2971 }, { 162,-2971 },
+ { 163,-2971 }, { 164,-2971 }, { 165,-2971 }, { 166,-2971 }, { 167,-2971 },
+ { 168,-2971 }, { 169,-2971 }, { 170,-2971 }, { 171,-2971 }, { 172,-2971 },
+ { 173,-2971 }, { 174,-2971 }, { 175,-2971 }, { 176,-2971 }, { 177,-2971 },
+ { 178,-2971 }, { 179,-2971 }, { 180,-2971 }, { 181,-2971 }, { 182,-2971 },
+ { 183,-2971 }, { 184,-2971 }, { 185,-2971 }, { 186,-2971 }, { 187,-2971 },
+ { 188,-2971 }, { 189,-2971 }, { 190,-2971 }, { 191,-2971 }, { 192,-2971 },
+
+ { 193,-2971 }, { 194,-2971 }, { 195,-2971 }, { 196,-2971 }, { 197,-2971 },
+ { 198,-2971 }, { 199,-2971 }, { 200,-2971 }, { 201,-2971 }, { 202,-2971 },
+ { 203,-2971 }, { 204,-2971 }, { 205,-2971 }, { 206,-2971 }, { 207,-2971 },
+ { 208,-2971 }, { 209,-2971 }, { 210,-2971 }, { 211,-2971 }, { 212,-2971 },
+ { 213,-2971 }, { 214,-2971 }, { 215,-2971 }, { 216,-2971 }, { 217,-2971 },
+ { 218,-2971 }, { 219,-2971 }, { 220,-2971 }, { 221,-2971 }, { 222,-2971 },
+ { 223,-2971 }, { 224,-2971 }, { 225,-2971 }, { 226,-2971 }, { 227,-2971 },
+ { 228,-2971 }, { 229,-2971 }, { 230,-2971 }, { 231,-2971 }, { 232,-2971 },
+ { 233,-2971 }, { 234,-2971 }, { 235,-2971 }, { 236,-2971 }, { 237,-2971 },
+ { 238,-2971 }, { 239,-2971 }, { 240,-2971 }, { 241,-2971 }, { 242,-2971 },
+
+ { 243,-2971 }, { 244,-2971 }, { 245,-2971 }, { 246,-2971 }, { 247,-2971 },
+ { 248,-2971 }, { 249,-2971 }, { 250,-2971 }, { 251,-2971 }, { 252,-2971 },
+ { 253,-2971 }, { 254,-2971 }, { 255,-2971 }, { 256,-2971 }, {   0,   0 },
+ {   0,1558 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
+ {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   0,   0 },
+ {   0,   0 }, {  11,   0 }, {  12,   0 }, {   0,   0 }, {  14,   0 },
+ {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
+ {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 },
+ {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 },
+ {  30,   0 }, {  31,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-12111 },
- {   0,   0 }, {  97,-12111 }, {  98,-12111 }, {  99,-12111 }, { 100,-12111 },
- { 101, 649 }, { 102,-12111 }, { 103,-12111 }, { 104,-12111 }, { 105,-12111 },
- { 106,-12111 }, { 107,-12111 }, { 108,-12111 }, { 109,-12111 }, { 110,-12111 },
- { 111,-12111 }, { 112,-12111 }, { 113,-12111 }, { 114,-12111 }, { 115,-12111 },
- { 116,-12111 }, { 117,-12111 }, { 118,-12111 }, { 119,-12111 }, { 120,-12111 },
- { 121,-12111 }, { 122,-12111 }, {   0,   0 }, { 124,-12136 }, { 125,-12136 },
- { 126,-12136 }, { 127,-12111 }, { 128,-12111 }, { 129,-12111 }, { 130,-12111 },
- { 131,-12111 }, { 132,-12111 }, { 133,-12111 }, { 134,-12111 }, { 135,-12111 },
- { 136,-12111 }, { 137,-12111 }, { 138,-12111 }, { 139,-12111 }, { 140,-12111 },
-
- { 141,-12111 }, { 142,-12111 }, { 143,-12111 }, { 144,-12111 }, { 145,-12111 },
- { 146,-12111 }, { 147,-12111 }, { 148,-12111 }, { 149,-12111 }, { 150,-12111 },
- { 151,-12111 }, { 152,-12111 }, { 153,-12111 }, { 154,-12111 }, { 155,-12111 },
- { 156,-12111 }, { 157,-12111 }, { 158,-12111 }, { 159,-12111 }, { 160,-12111 },
- { 161,-12111 }, { 162,-12111 }, { 163,-12111 }, { 164,-12111 }, { 165,-12111 },
- { 166,-12111 }, { 167,-12111 }, { 168,-12111 }, { 169,-12111 }, { 170,-12111 },
- { 171,-12111 }, { 172,-12111 }, { 173,-12111 }, { 174,-12111 }, { 175,-12111 },
- { 176,-12111 }, { 177,-12111 }, { 178,-12111 }, { 179,-12111 }, { 180,-12111 },
- { 181,-12111 }, { 182,-12111 }, { 183,-12111 }, { 184,-12111 }, { 185,-12111 },
- { 186,-12111 }, { 187,-12111 }, { 188,-12111 }, { 189,-12111 }, { 190,-12111 },
-
- { 191,-12111 }, { 192,-12111 }, { 193,-12111 }, { 194,-12111 }, { 195,-12111 },
- { 196,-12111 }, { 197,-12111 }, { 198,-12111 }, { 199,-12111 }, { 200,-12111 },
- { 201,-12111 }, { 202,-12111 }, { 203,-12111 }, { 204,-12111 }, { 205,-12111 },
- { 206,-12111 }, { 207,-12111 }, { 208,-12111 }, { 209,-12111 }, { 210,-12111 },
- { 211,-12111 }, { 212,-12111 }, { 213,-12111 }, { 214,-12111 }, { 215,-12111 },
- { 216,-12111 }, { 217,-12111 }, { 218,-12111 }, { 219,-12111 }, { 220,-12111 },
- { 221,-12111 }, { 222,-12111 }, { 223,-12111 }, { 224,-12111 }, { 225,-12111 },
- { 226,-12111 }, { 227,-12111 }, { 228,-12111 }, { 229,-12111 }, { 230,-12111 },
- { 231,-12111 }, { 232,-12111 }, { 233,-12111 }, { 234,-12111 }, { 235,-12111 },
- { 236,-12111 }, { 237,-12111 }, { 238,-12111 }, { 239,-12111 }, { 240,-12111 },
-
- { 241,-12111 }, { 242,-12111 }, { 243,-12111 }, { 244,-12111 }, { 245,-12111 },
- { 246,-12111 }, { 247,-12111 }, { 248,-12111 }, { 249,-12111 }, { 250,-12111 },
- { 251,-12111 }, { 252,-12111 }, { 253,-12111 }, { 254,-12111 }, { 255,-12111 },
- { 256,-12111 }, {   0,  25 }, {   0,1042 }, {   0,  25 }, {   0,1040 },
- {   0,  25 }, {   0,1038 }, {   0,  12 }, {   0,1036 }, {   0,   0 },
- {   0,   0 }, {   9, 649 }, {  10, 649 }, {   0,   0 }, {   0,   0 },
- {  13, 649 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32, 649 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, { 125, 651 }, { 126, 653 }, { 125, 653 },
- {   0,   0 }, { 125, 647 }, {   0,   0 }, {   0, 911 }, {   1,-3512 },
-
- {   2,-3512 }, {   3,-3512 }, {   4,-3512 }, {   5,-3512 }, {   6,-3512 },
- {   7,-3512 }, {   8,-3512 }, {   9,-3512 }, {  10,-3512 }, {  11,-3512 },
- {  12,-3512 }, {  13,-3512 }, {  14,-3512 }, {  15,-3512 }, {  16,-3512 },
- {  17,-3512 }, {  18,-3512 }, {  19,-3512 }, {  20,-3512 }, {  21,-3512 },
- {  22,-3512 }, {  23,-3512 }, {  24,-3512 }, {  25,-3512 }, {  26,-3512 },
- {  27,-3512 }, {  28,-3512 }, {  29,-3512 }, {  30,-3512 }, {  31,-3512 },
- {  32,-3512 }, {  33,-3512 }, {  34,-3512 }, {  35,-3512 }, {  36,-3512 },
- {  37,-3512 }, {  38,-3512 }, {  39,-3512 }, {  40,-3512 }, {  41,-3512 },
- {  42,-3512 }, {  43,-3512 }, {  44,-3512 }, {  45,-2195 }, {  46,-3512 },
- {  47,-3512 }, {  48,-3512 }, {  49,-3512 }, {  50,-3512 }, {  51,-3512 },
-
- {  52,-3512 }, {  53,-3512 }, {  54,-3512 }, {  55,-3512 }, {  56,-3512 },
- {  57,-3512 }, {  58,-3512 }, {  59,-3512 }, {  60,-3512 }, {  61,-3512 },
- {  62,-3512 }, {  63,-3512 }, {  64,-3512 }, {  65,-3512 }, {  66,-3512 },
- {  67,-3512 }, {  68,-3512 }, {  69,-3512 }, {  70,-3512 }, {  71,-3512 },
- {  72,-3512 }, {  73,-3512 }, {  74,-3512 }, {  75,-3512 }, {  76,-3512 },
- {  77,-3512 }, {  78,-3512 }, {  79,-3512 }, {  80,-3512 }, {  81,-3512 },
- {  82,-3512 }, {  83,-3512 }, {  84,-3512 }, {  85,-3512 }, {  86,-3512 },
- {  87,-3512 }, {  88,-3512 }, {  89,-3512 }, {  90,-3512 }, {  91,-3512 },
- {  92,-3512 }, {  93,-3512 }, {  94,-3512 }, {  95,-3512 }, {  96,-3512 },
- {  97,-3512 }, {  98,-3512 }, {  99,-3512 }, { 100,-3512 }, { 101,-3512 },
-
- { 102,-3512 }, { 103,-3512 }, { 104,-3512 }, { 105,-3512 }, { 106,-3512 },
- { 107,-3512 }, { 108,-3512 }, { 109,-3512 }, { 110,-3512 }, { 111,-3512 },
- { 112,-3512 }, { 113,-3512 }, { 114,-3512 }, { 115,-3512 }, { 116,-3512 },
- { 117,-3512 }, { 118,-3512 }, { 119,-3512 }, { 120,-3512 }, { 121,-3512 },
- { 122,-3512 }, { 123,-3512 }, { 124,-3512 }, { 125,-3512 }, { 126,-3512 },
- { 127,-3512 }, { 128,-3512 }, { 129,-3512 }, { 130,-3512 }, { 131,-3512 },
- { 132,-3512 }, { 133,-3512 }, { 134,-3512 }, { 135,-3512 }, { 136,-3512 },
- { 137,-3512 }, { 138,-3512 }, { 139,-3512 }, { 140,-3512 }, { 141,-3512 },
- { 142,-3512 }, { 143,-3512 }, { 144,-3512 }, { 145,-3512 }, { 146,-3512 },
- { 147,-3512 }, { 148,-3512 }, { 149,-3512 }, { 150,-3512 }, { 151,-3512 },
-
- { 152,-3512 }, { 153,-3512 }, { 154,-3512 }, { 155,-3512 }, { 156,-3512 },
- { 157,-3512 }, { 158,-3512 }, { 159,-3512 }, { 160,-3512 }, { 161,-3512 },
- { 162,-3512 }, { 163,-3512 }, { 164,-3512 }, { 165,-3512 }, { 166,-3512 },
- { 167,-3512 }, { 168,-3512 }, { 169,-3512 }, { 170,-3512 }, { 171,-3512 },
- { 172,-3512 }, { 173,-3512 }, { 174,-3512 }, { 175,-3512 }, { 176,-3512 },
- { 177,-3512 }, { 178,-3512 }, { 179,-3512 }, { 180,-3512 }, { 181,-3512 },
- { 182,-3512 }, { 183,-3512 }, { 184,-3512 }, { 185,-3512 }, { 186,-3512 },
- { 187,-3512 }, { 188,-3512 }, { 189,-3512 }, { 190,-3512 }, { 191,-3512 },
- { 192,-3512 }, { 193,-3512 }, { 194,-3512 }, { 195,-3512 }, { 196,-3512 },
- { 197,-3512 }, { 198,-3512 }, { 199,-3512 }, { 200,-3512 }, { 201,-3512 },
-
- { 202,-3512 }, { 203,-3512 }, { 204,-3512 }, { 205,-3512 }, { 206,-3512 },
- { 207,-3512 }, { 208,-3512 }, { 209,-3512 }, { 210,-3512 }, { 211,-3512 },
- { 212,-3512 }, { 213,-3512 }, { 214,-3512 }, { 215,-3512 }, { 216,-3512 },
- { 217,-3512 }, { 218,-3512 }, { 219,-3512 }, { 220,-3512 }, { 221,-3512 },
- { 222,-3512 }, { 223,-3512 }, { 224,-3512 }, { 225,-3512 }, { 226,-3512 },
- { 227,-3512 }, { 228,-3512 }, { 229,-3512 }, { 230,-3512 }, { 231,-3512 },
- { 232,-3512 }, { 233,-3512 }, { 234,-3512 }, { 235,-3512 }, { 236,-3512 },
- { 237,-3512 }, { 238,-3512 }, { 239,-3512 }, { 240,-3512 }, { 241,-3512 },
- { 242,-3512 }, { 243,-3512 }, { 244,-3512 }, { 245,-3512 }, { 246,-3512 },
- { 247,-3512 }, { 248,-3512 }, { 249,-3512 }, { 250,-3512 }, { 251,-3512 },
-
- { 252,-3512 }, { 253,-3512 }, { 254,-3512 }, { 255,-3512 }, { 256,-3512 },
- {   0,   0 }, {   0, 653 }, {   0,   0 }, {   0, 651 }, {   1,-12760 },
- {   2,-12760 }, {   3,-12760 }, {   4,-12760 }, {   5,-12760 }, {   6,-12760 },
- {   7,-12760 }, {   8,-12760 }, {   9,-12785 }, {  10,-12785 }, {  11,-12760 },
- {  12,-12760 }, {  13,-12785 }, {  14,-12760 }, {  15,-12760 }, {  16,-12760 },
- {  17,-12760 }, {  18,-12760 }, {  19,-12760 }, {  20,-12760 }, {  21,-12760 },
- {  22,-12760 }, {  23,-12760 }, {  24,-12760 }, {  25,-12760 }, {  26,-12760 },
- {  27,-12760 }, {  28,-12760 }, {  29,-12760 }, {  30,-12760 }, {  31,-12760 },
- {  32,-12785 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-12760 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-12785 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-12760 }, {  46,-12785 },
- {  47,-12785 }, {  48,-12760 }, {  49,-12760 }, {  50,-12760 }, {  51,-12760 },
- {  52,-12760 }, {  53,-12760 }, {  54,-12760 }, {  55,-12760 }, {  56,-12760 },
- {  57,-12760 }, {  58,-12760 }, {   0,   0 }, {   0,   0 }, {  61,-12785 },
- {   0,   0 }, {  63,-12760 }, {   0,   0 }, {  65,-12760 }, {  66,-12760 },
- {  67,-12760 }, {  68,-12760 }, {  69,-12760 }, {  70,-12760 }, {  71,-12760 },
- {  72,-12760 }, {  73,-12760 }, {  74,-12760 }, {  75,-12760 }, {  76,-12760 },
- {  77,-12760 }, {  78,-12760 }, {  79,-12760 }, {  80,-12760 }, {  81,-12760 },
- {  82,-12760 }, {  83,-12760 }, {  84,-12760 }, {  85,-12760 }, {  86,-12760 },
- {  87,-12760 }, {  88,-12760 }, {  89,-12760 }, {  90,-12760 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-12760 }, {   0,   0 },
- {  97,-12760 }, {  98,-12760 }, {  99,-12760 }, { 100, 393 }, { 101,-12760 },
- { 102,-12760 }, { 103,-12760 }, { 104,-12760 }, { 105,-12760 }, { 106,-12760 },
- { 107,-12760 }, { 108,-12760 }, { 109,-12760 }, { 110,-12760 }, { 111,-12760 },
- { 112,-12760 }, { 113,-12760 }, { 114,-12760 }, { 115,-12760 }, { 116,-12760 },
- { 117,-12760 }, { 118,-12760 }, { 119,-12760 }, { 120,-12760 }, { 121,-12760 },
- { 122,-12760 }, { 125, 268 }, { 124,-12785 }, { 125,-12785 }, { 126,-12785 },
- { 127,-12760 }, { 128,-12760 }, { 129,-12760 }, { 130,-12760 }, { 131,-12760 },
- { 132,-12760 }, { 133,-12760 }, { 134,-12760 }, { 135,-12760 }, { 136,-12760 },
- { 137,-12760 }, { 138,-12760 }, { 139,-12760 }, { 140,-12760 }, { 141,-12760 },
-
- { 142,-12760 }, { 143,-12760 }, { 144,-12760 }, { 145,-12760 }, { 146,-12760 },
- { 147,-12760 }, { 148,-12760 }, { 149,-12760 }, { 150,-12760 }, { 151,-12760 },
- { 152,-12760 }, { 153,-12760 }, { 154,-12760 }, { 155,-12760 }, { 156,-12760 },
- { 157,-12760 }, { 158,-12760 }, { 159,-12760 }, { 160,-12760 }, { 161,-12760 },
- { 162,-12760 }, { 163,-12760 }, { 164,-12760 }, { 165,-12760 }, { 166,-12760 },
- { 167,-12760 }, { 168,-12760 }, { 169,-12760 }, { 170,-12760 }, { 171,-12760 },
- { 172,-12760 }, { 173,-12760 }, { 174,-12760 }, { 175,-12760 }, { 176,-12760 },
- { 177,-12760 }, { 178,-12760 }, { 179,-12760 }, { 180,-12760 }, { 181,-12760 },
- { 182,-12760 }, { 183,-12760 }, { 184,-12760 }, { 185,-12760 }, { 186,-12760 },
- { 187,-12760 }, { 188,-12760 }, { 189,-12760 }, { 190,-12760 }, { 191,-12760 },
-
- { 192,-12760 }, { 193,-12760 }, { 194,-12760 }, { 195,-12760 }, { 196,-12760 },
- { 197,-12760 }, { 198,-12760 }, { 199,-12760 }, { 200,-12760 }, { 201,-12760 },
- { 202,-12760 }, { 203,-12760 }, { 204,-12760 }, { 205,-12760 }, { 206,-12760 },
- { 207,-12760 }, { 208,-12760 }, { 209,-12760 }, { 210,-12760 }, { 211,-12760 },
- { 212,-12760 }, { 213,-12760 }, { 214,-12760 }, { 215,-12760 }, { 216,-12760 },
- { 217,-12760 }, { 218,-12760 }, { 219,-12760 }, { 220,-12760 }, { 221,-12760 },
- { 222,-12760 }, { 223,-12760 }, { 224,-12760 }, { 225,-12760 }, { 226,-12760 },
- { 227,-12760 }, { 228,-12760 }, { 229,-12760 }, { 230,-12760 }, { 231,-12760 },
- { 232,-12760 }, { 233,-12760 }, { 234,-12760 }, { 235,-12760 }, { 236,-12760 },
- { 237,-12760 }, { 238,-12760 }, { 239,-12760 }, { 240,-12760 }, { 241,-12760 },
-
- { 242,-12760 }, { 243,-12760 }, { 244,-12760 }, { 245,-12760 }, { 246,-12760 },
- { 247,-12760 }, { 248,-12760 }, { 249,-12760 }, { 250,-12760 }, { 251,-12760 },
- { 252,-12760 }, { 253,-12760 }, { 254,-12760 }, { 255,-12760 }, { 256,-12760 },
- {   0,   0 }, {   0, 393 }, {   0,   0 }, {   0, 391 }, {   0,   0 },
- {   0, 389 }, {   0,  23 }, {   0, 387 }, {   0,   0 }, {   0, 385 },
- {   9,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 }, {  13,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  36,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 },
+ {  45,   0 }, {   0,   0 }, {   0,   0 }, {  48,   0 }, {  49,   0 },
+ {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 },
+ {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  63,   0 }, {   0,   0 },
+ {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 },
+ {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 },
+ {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 },
+ {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 },
 
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0, 350 },
- {   0,  45 }, {   0, 348 }, {   0,   9 }, {   0, 346 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 },
+ {  90,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  95,   0 }, {   0,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 },
+ { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 },
+ { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 },
+ { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 },
+ { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 },
+ { 120,   0 }, { 121,   0 }, { 122,   0 }, {   0,   0 }, {   0,   0 },
+ { 125, 905 }, {   0,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 },
+ { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 },
 
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 125,   2 }, { 126,   4 }, { 125,   4 }, {   0,   0 },
- { 125,  -2 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,  35 },
+ { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 },
+ { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 },
+ { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 },
+ { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 },
+ { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 },
+ { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 },
+ { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 },
+ { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 },
+ { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 },
+ { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 },
 
- {   0,   0 }, {   0, 258 }, {   1,-13153 }, {   2,-13153 }, {   3,-13153 },
- {   4,-13153 }, {   5,-13153 }, {   6,-13153 }, {   7,-13153 }, {   8,-13153 },
- {   9, -90 }, {  10, -90 }, {  11,-13153 }, {  12,-13153 }, {  13, -90 },
- {  14,-13153 }, {  15,-13153 }, {  16,-13153 }, {  17,-13153 }, {  18,-13153 },
- {  19,-13153 }, {  20,-13153 }, {  21,-13153 }, {  22,-13153 }, {  23,-13153 },
- {  24,-13153 }, {  25,-13153 }, {  26,-13153 }, {  27,-13153 }, {  28,-13153 },
- {  29,-13153 }, {  30,-13153 }, {  31,-13153 }, {  32, -90 }, { 125,   4 },
- {   0,   0 }, {   0,   0 }, {  36,-13153 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41, -90 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-13153 }, {  46,-13178 }, {  47,-13178 }, {  48,-13153 },
+ { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 },
+ { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 },
+ { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 },
+ { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 },
+ { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 },
+ { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 },
+ { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 },
+ { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 },
+ { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 },
+ { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 },
 
- {  49,-13153 }, {  50,-13153 }, {  51,-13153 }, {  52,-13153 }, {  53,-13153 },
- {  54,-13153 }, {  55,-13153 }, {  56,-13153 }, {  57,-13153 }, {  58,-13153 },
- {   0,   0 }, {   0,   0 }, {  61,-13178 }, {   0,   0 }, {  63,-13153 },
- {   0,   0 }, {  65,-13153 }, {  66,-13153 }, {  67,-13153 }, {  68,-13153 },
- {  69,-13153 }, {  70,-13153 }, {  71,-13153 }, {  72,-13153 }, {  73,-13153 },
- {  74,-13153 }, {  75,-13153 }, {  76,-13153 }, {  77,-13153 }, {  78,-13153 },
- {  79,-13153 }, {  80,-13153 }, {  81,-13153 }, {  82,-13153 }, {  83,-13153 },
- {  84,-13153 }, {  85,-13153 }, {  86,-13153 }, {  87,-13153 }, {  88,-13153 },
- {  89,-13153 }, {  90,-13153 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-13153 }, {   0,   0 }, {  97,-13153 }, {  98,-13153 },
+ { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 },
+ { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
+ { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
+ { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
+ { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,1300 }, {   1,-12475 },
+ {   2,-12475 }, {   3,-12475 }, {   4,-12475 }, {   5,-12475 }, {   6,-12475 },
+ {   7,-12475 }, {   8,-12475 }, {   9,-12500 }, {  10,-12500 }, {  11,-12475 },
+ {  12,-12475 }, {  13,-12500 }, {  14,-12475 }, {  15,-12475 }, {  16,-12475 },
+ {  17,-12475 }, {  18,-12475 }, {  19,-12475 }, {  20,-12475 }, {  21,-12475 },
+ {  22,-12475 }, {  23,-12475 }, {  24,-12475 }, {  25,-12475 }, {  26,-12475 },
+
+ {  27,-12475 }, {  28,-12475 }, {  29,-12475 }, {  30,-12475 }, {  31,-12475 },
+ {  32,-12500 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-12475 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-12500 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-12475 }, {  46,-12500 },
+ {  47,-12500 }, {  48,-12475 }, {  49,-12475 }, {  50,-12475 }, {  51,-12475 },
+ {  52,-12475 }, {  53,-12475 }, {  54,-12475 }, {  55,-12475 }, {  56,-12475 },
+ {  57,-12475 }, {  58,-12475 }, {   0,   0 }, {   0,   0 }, {  61,-12500 },
+ {   0,   0 }, {  63,-12475 }, {   0,   0 }, {  65,-12475 }, {  66,-12475 },
+ {  67,-12475 }, {  68,-12475 }, {  69,-12475 }, {  70,-12475 }, {  71,-12475 },
+ {  72,-12475 }, {  73,-12475 }, {  74,-12475 }, {  75,-12475 }, {  76,-12475 },
+
+ {  77,-12475 }, {  78,-12475 }, {  79,-12475 }, {  80,-12475 }, {  81,-12475 },
+ {  82,-12475 }, {  83,-12475 }, {  84,-12475 }, {  85,-12475 }, {  86,-12475 },
+ {  87,-12475 }, {  88,-12475 }, {  89,-12475 }, {  90,-12475 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-12475 }, {   0,   0 },
+ {  97,-12475 }, {  98,-12475 }, {  99,-12475 }, { 100,-12475 }, { 101, 649 },
+ { 102,-12475 }, { 103,-12475 }, { 104,-12475 }, { 105,-12475 }, { 106,-12475 },
+ { 107,-12475 }, { 108,-12475 }, { 109,-12475 }, { 110,-12475 }, { 111,-12475 },
+ { 112,-12475 }, { 113,-12475 }, { 114,-12475 }, { 115,-12475 }, { 116,-12475 },
+ { 117,-12475 }, { 118,-12475 }, { 119,-12475 }, { 120,-12475 }, { 121,-12475 },
+ { 122,-12475 }, {   0,   0 }, { 124,-12500 }, { 125,-12500 }, { 126,-12500 },
+
+ { 127,-12475 }, { 128,-12475 }, { 129,-12475 }, { 130,-12475 }, { 131,-12475 },
+ { 132,-12475 }, { 133,-12475 }, { 134,-12475 }, { 135,-12475 }, { 136,-12475 },
+ { 137,-12475 }, { 138,-12475 }, { 139,-12475 }, { 140,-12475 }, { 141,-12475 },
+ { 142,-12475 }, { 143,-12475 }, { 144,-12475 }, { 145,-12475 }, { 146,-12475 },
+ { 147,-12475 }, { 148,-12475 }, { 149,-12475 }, { 150,-12475 }, { 151,-12475 },
+ { 152,-12475 }, { 153,-12475 }, { 154,-12475 }, { 155,-12475 }, { 156,-12475 },
+ { 157,-12475 }, { 158,-12475 }, { 159,-12475 }, { 160,-12475 }, { 161,-12475 },
+ { 162,-12475 }, { 163,-12475 }, { 164,-12475 }, { 165,-12475 }, { 166,-12475 },
+ { 167,-12475 }, { 168,-12475 }, { 169,-12475 }, { 170,-12475 }, { 171,-12475 },
+ { 172,-12475 }, { 173,-12475 }, { 174,-12475 }, { 175,-12475 }, { 176,-12475 },
+
+ { 177,-12475 }, { 178,-12475 }, { 179,-12475 }, { 180,-12475 }, { 181,-12475 },
+ { 182,-12475 }, { 183,-12475 }, { 184,-12475 }, { 185,-12475 }, { 186,-12475 },
+ { 187,-12475 }, { 188,-12475 }, { 189,-12475 }, { 190,-12475 }, { 191,-12475 },
+ { 192,-12475 }, { 193,-12475 }, { 194,-12475 }, { 195,-12475 }, { 196,-12475 },
+ { 197,-12475 }, { 198,-12475 }, { 199,-12475 }, { 200,-12475 }, { 201,-12475 },
+ { 202,-12475 }, { 203,-12475 }, { 204,-12475 }, { 205,-12475 }, { 206,-12475 },
+ { 207,-12475 }, { 208,-12475 }, { 209,-12475 }, { 210,-12475 }, { 211,-12475 },
+ { 212,-12475 }, { 213,-12475 }, { 214,-12475 }, { 215,-12475 }, { 216,-12475 },
+ { 217,-12475 }, { 218,-12475 }, { 219,-12475 }, { 220,-12475 }, { 221,-12475 },
+ { 222,-12475 }, { 223,-12475 }, { 224,-12475 }, { 225,-12475 }, { 226,-12475 },
+
+ { 227,-12475 }, { 228,-12475 }, { 229,-12475 }, { 230,-12475 }, { 231,-12475 },
+ { 232,-12475 }, { 233,-12475 }, { 234,-12475 }, { 235,-12475 }, { 236,-12475 },
+ { 237,-12475 }, { 238,-12475 }, { 239,-12475 }, { 240,-12475 }, { 241,-12475 },
+ { 242,-12475 }, { 243,-12475 }, { 244,-12475 }, { 245,-12475 }, { 246,-12475 },
+ { 247,-12475 }, { 248,-12475 }, { 249,-12475 }, { 250,-12475 }, { 251,-12475 },
+ { 252,-12475 }, { 253,-12475 }, { 254,-12475 }, { 255,-12475 }, { 256,-12475 },
+ {   0,  25 }, {   0,1042 }, {   0,  25 }, {   0,1040 }, {   0,  25 },
+ {   0,1038 }, {   0,  12 }, {   0,1036 }, {   0,   0 }, {   0,   0 },
+ {   9, 649 }, {  10, 649 }, {   0,   0 }, {   0,   0 }, {  13, 649 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32, 649 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 125, 651 }, { 126, 653 }, { 125, 653 }, {   0,   0 },
+ { 125, 647 }, {   0,   0 }, {   0, 911 }, {   1,-3876 }, {   2,-3876 },
+ {   3,-3876 }, {   4,-3876 }, {   5,-3876 }, {   6,-3876 }, {   7,-3876 },
+ {   8,-3876 }, {   9,-3876 }, {  10,-3876 }, {  11,-3876 }, {  12,-3876 },
+ {  13,-3876 }, {  14,-3876 }, {  15,-3876 }, {  16,-3876 }, {  17,-3876 },
+ {  18,-3876 }, {  19,-3876 }, {  20,-3876 }, {  21,-3876 }, {  22,-3876 },
+ {  23,-3876 }, {  24,-3876 }, {  25,-3876 }, {  26,-3876 }, {  27,-3876 },
+ {  28,-3876 }, {  29,-3876 }, {  30,-3876 }, {  31,-3876 }, {  32,-3876 },
+ {  33,-3876 }, {  34,-3876 }, {  35,-3876 }, {  36,-3876 }, {  37,-3876 },
+
+ {  38,-3876 }, {  39,-3876 }, {  40,-3876 }, {  41,-3876 }, {  42,-3876 },
+ {  43,-3876 }, {  44,-3876 }, {  45,-2195 }, {  46,-3876 }, {  47,-3876 },
+ {  48,-3876 }, {  49,-3876 }, {  50,-3876 }, {  51,-3876 }, {  52,-3876 },
+ {  53,-3876 }, {  54,-3876 }, {  55,-3876 }, {  56,-3876 }, {  57,-3876 },
+ {  58,-3876 }, {  59,-3876 }, {  60,-3876 }, {  61,-3876 }, {  62,-3876 },
+ {  63,-3876 }, {  64,-3876 }, {  65,-3876 }, {  66,-3876 }, {  67,-3876 },
+ {  68,-3876 }, {  69,-3876 }, {  70,-3876 }, {  71,-3876 }, {  72,-3876 },
+ {  73,-3876 }, {  74,-3876 }, {  75,-3876 }, {  76,-3876 }, {  77,-3876 },
+ {  78,-3876 }, {  79,-3876 }, {  80,-3876 }, {  81,-3876 }, {  82,-3876 },
+ {  83,-3876 }, {  84,-3876 }, {  85,-3876 }, {  86,-3876 }, {  87,-3876 },
+
+ {  88,-3876 }, {  89,-3876 }, {  90,-3876 }, {  91,-3876 }, {  92,-3876 },
+ {  93,-3876 }, {  94,-3876 }, {  95,-3876 }, {  96,-3876 }, {  97,-3876 },
+ {  98,-3876 }, {  99,-3876 }, { 100,-3876 }, { 101,-3876 }, { 102,-3876 },
+ { 103,-3876 }, { 104,-3876 }, { 105,-3876 }, { 106,-3876 }, { 107,-3876 },
+ { 108,-3876 }, { 109,-3876 }, { 110,-3876 }, { 111,-3876 }, { 112,-3876 },
+ { 113,-3876 }, { 114,-3876 }, { 115,-3876 }, { 116,-3876 }, { 117,-3876 },
+ { 118,-3876 }, { 119,-3876 }, { 120,-3876 }, { 121,-3876 }, { 122,-3876 },
+ { 123,-3876 }, { 124,-3876 }, { 125,-3876 }, { 126,-3876 }, { 127,-3876 },
+ { 128,-3876 }, { 129,-3876 }, { 130,-3876 }, { 131,-3876 }, { 132,-3876 },
+ { 133,-3876 }, { 134,-3876 }, { 135,-3876 }, { 136,-3876 }, { 137,-3876 },
+
+ { 138,-3876 }, { 139,-3876 }, { 140,-3876 }, { 141,-3876 }, { 142,-3876 },
+ { 143,-3876 }, { 144,-3876 }, { 145,-3876 }, { 146,-3876 }, { 147,-3876 },
+ { 148,-3876 }, { 149,-3876 }, { 150,-3876 }, { 151,-3876 }, { 152,-3876 },
+ { 153,-3876 }, { 154,-3876 }, { 155,-3876 }, { 156,-3876 }, { 157,-3876 },
+ { 158,-3876 }, { 159,-3876 }, { 160,-3876 }, { 161,-3876 }, { 162,-3876 },
+ { 163,-3876 }, { 164,-3876 }, { 165,-3876 }, { 166,-3876 }, { 167,-3876 },
+ { 168,-3876 }, { 169,-3876 }, { 170,-3876 }, { 171,-3876 }, { 172,-3876 },
+ { 173,-3876 }, { 174,-3876 }, { 175,-3876 }, { 176,-3876 }, { 177,-3876 },
+ { 178,-3876 }, { 179,-3876 }, { 180,-3876 }, { 181,-3876 }, { 182,-3876 },
+ { 183,-3876 }, { 184,-3876 }, { 185,-3876 }, { 186,-3876 }, { 187,-3876 },
 
- {  99,-13153 }, { 100,-13153 }, { 101,-13153 }, { 102,-13153 }, { 103,-13153 },
- { 104,-13153 }, { 105,-13153 }, { 106,-13153 }, { 107,-13153 }, { 108,-13153 },
- { 109,-13153 }, { 110,-13153 }, { 111,-13153 }, { 112,-13153 }, { 113,-13153 },
- { 114,-13153 }, { 115,-13153 }, { 116,-13153 }, { 117,-13153 }, { 118,-13153 },
- { 119,-13153 }, { 120,-13153 }, { 121,-13153 }, { 122,-13153 }, {   0,   0 },
- { 124,-13178 }, { 125, -90 }, { 126, -90 }, { 127,-13153 }, { 128,-13153 },
- { 129,-13153 }, { 130,-13153 }, { 131,-13153 }, { 132,-13153 }, { 133,-13153 },
- { 134,-13153 }, { 135,-13153 }, { 136,-13153 }, { 137,-13153 }, { 138,-13153 },
- { 139,-13153 }, { 140,-13153 }, { 141,-13153 }, { 142,-13153 }, { 143,-13153 },
- { 144,-13153 }, { 145,-13153 }, { 146,-13153 }, { 147,-13153 }, { 148,-13153 },
+ { 188,-3876 }, { 189,-3876 }, { 190,-3876 }, { 191,-3876 }, { 192,-3876 },
+ { 193,-3876 }, { 194,-3876 }, { 195,-3876 }, { 196,-3876 }, { 197,-3876 },
+ { 198,-3876 }, { 199,-3876 }, { 200,-3876 }, { 201,-3876 }, { 202,-3876 },
+ { 203,-3876 }, { 204,-3876 }, { 205,-3876 }, { 206,-3876 }, { 207,-3876 },
+ { 208,-3876 }, { 209,-3876 }, { 210,-3876 }, { 211,-3876 }, { 212,-3876 },
+ { 213,-3876 }, { 214,-3876 }, { 215,-3876 }, { 216,-3876 }, { 217,-3876 },
+ { 218,-3876 }, { 219,-3876 }, { 220,-3876 }, { 221,-3876 }, { 222,-3876 },
+ { 223,-3876 }, { 224,-3876 }, { 225,-3876 }, { 226,-3876 }, { 227,-3876 },
+ { 228,-3876 }, { 229,-3876 }, { 230,-3876 }, { 231,-3876 }, { 232,-3876 },
+ { 233,-3876 }, { 234,-3876 }, { 235,-3876 }, { 236,-3876 }, { 237,-3876 },
 
- { 149,-13153 }, { 150,-13153 }, { 151,-13153 }, { 152,-13153 }, { 153,-13153 },
- { 154,-13153 }, { 155,-13153 }, { 156,-13153 }, { 157,-13153 }, { 158,-13153 },
- { 159,-13153 }, { 160,-13153 }, { 161,-13153 }, { 162,-13153 }, { 163,-13153 },
- { 164,-13153 }, { 165,-13153 }, { 166,-13153 }, { 167,-13153 }, { 168,-13153 },
- { 169,-13153 }, { 170,-13153 }, { 171,-13153 }, { 172,-13153 }, { 173,-13153 },
- { 174,-13153 }, { 175,-13153 }, { 176,-13153 }, { 177,-13153 }, { 178,-13153 },
- { 179,-13153 }, { 180,-13153 }, { 181,-13153 }, { 182,-13153 }, { 183,-13153 },
- { 184,-13153 }, { 185,-13153 }, { 186,-13153 }, { 187,-13153 }, { 188,-13153 },
- { 189,-13153 }, { 190,-13153 }, { 191,-13153 }, { 192,-13153 }, { 193,-13153 },
- { 194,-13153 }, { 195,-13153 }, { 196,-13153 }, { 197,-13153 }, { 198,-13153 },
+ { 238,-3876 }, { 239,-3876 }, { 240,-3876 }, { 241,-3876 }, { 242,-3876 },
+ { 243,-3876 }, { 244,-3876 }, { 245,-3876 }, { 246,-3876 }, { 247,-3876 },
+ { 248,-3876 }, { 249,-3876 }, { 250,-3876 }, { 251,-3876 }, { 252,-3876 },
+ { 253,-3876 }, { 254,-3876 }, { 255,-3876 }, { 256,-3876 }, {   0,   0 },
+ {   0, 653 }, {   0,   0 }, {   0, 651 }, {   1,-13124 }, {   2,-13124 },
+ {   3,-13124 }, {   4,-13124 }, {   5,-13124 }, {   6,-13124 }, {   7,-13124 },
+ {   8,-13124 }, {   9,-13149 }, {  10,-13149 }, {  11,-13124 }, {  12,-13124 },
+ {  13,-13149 }, {  14,-13124 }, {  15,-13124 }, {  16,-13124 }, {  17,-13124 },
+ {  18,-13124 }, {  19,-13124 }, {  20,-13124 }, {  21,-13124 }, {  22,-13124 },
+ {  23,-13124 }, {  24,-13124 }, {  25,-13124 }, {  26,-13124 }, {  27,-13124 },
 
- { 199,-13153 }, { 200,-13153 }, { 201,-13153 }, { 202,-13153 }, { 203,-13153 },
- { 204,-13153 }, { 205,-13153 }, { 206,-13153 }, { 207,-13153 }, { 208,-13153 },
- { 209,-13153 }, { 210,-13153 }, { 211,-13153 }, { 212,-13153 }, { 213,-13153 },
- { 214,-13153 }, { 215,-13153 }, { 216,-13153 }, { 217,-13153 }, { 218,-13153 },
- { 219,-13153 }, { 220,-13153 }, { 221,-13153 }, { 222,-13153 }, { 223,-13153 },
- { 224,-13153 }, { 225,-13153 }, { 226,-13153 }, { 227,-13153 }, { 228,-13153 },
- { 229,-13153 }, { 230,-13153 }, { 231,-13153 }, { 232,-13153 }, { 233,-13153 },
- { 234,-13153 }, { 235,-13153 }, { 236,-13153 }, { 237,-13153 }, { 238,-13153 },
- { 239,-13153 }, { 240,-13153 }, { 241,-13153 }, { 242,-13153 }, { 243,-13153 },
- { 244,-13153 }, { 245,-13153 }, { 246,-13153 }, { 247,-13153 }, { 248,-13153 },
+ {  28,-13124 }, {  29,-13124 }, {  30,-13124 }, {  31,-13124 }, {  32,-13149 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-13124 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-13149 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,-13124 }, {  46,-13149 }, {  47,-13149 },
+ {  48,-13124 }, {  49,-13124 }, {  50,-13124 }, {  51,-13124 }, {  52,-13124 },
+ {  53,-13124 }, {  54,-13124 }, {  55,-13124 }, {  56,-13124 }, {  57,-13124 },
+ {  58,-13124 }, {   0,   0 }, {   0,   0 }, {  61,-13149 }, {   0,   0 },
+ {  63,-13124 }, {   0,   0 }, {  65,-13124 }, {  66,-13124 }, {  67,-13124 },
+ {  68,-13124 }, {  69,-13124 }, {  70,-13124 }, {  71,-13124 }, {  72,-13124 },
+ {  73,-13124 }, {  74,-13124 }, {  75,-13124 }, {  76,-13124 }, {  77,-13124 },
 
- { 249,-13153 }, { 250,-13153 }, { 251,-13153 }, { 252,-13153 }, { 253,-13153 },
- { 254,-13153 }, { 255,-13153 }, { 256,-13153 }, { 257,  53 }, {   1,   0 },
-    };
+ {  78,-13124 }, {  79,-13124 }, {  80,-13124 }, {  81,-13124 }, {  82,-13124 },
+ {  83,-13124 }, {  84,-13124 }, {  85,-13124 }, {  86,-13124 }, {  87,-13124 },
+ {  88,-13124 }, {  89,-13124 }, {  90,-13124 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  95,-13124 }, {   0,   0 }, {  97,-13124 },
+ {  98,-13124 }, {  99,-13124 }, { 100, 393 }, { 101,-13124 }, { 102,-13124 },
+ { 103,-13124 }, { 104,-13124 }, { 105,-13124 }, { 106,-13124 }, { 107,-13124 },
+ { 108,-13124 }, { 109,-13124 }, { 110,-13124 }, { 111,-13124 }, { 112,-13124 },
+ { 113,-13124 }, { 114,-13124 }, { 115,-13124 }, { 116,-13124 }, { 117,-13124 },
+ { 118,-13124 }, { 119,-13124 }, { 120,-13124 }, { 121,-13124 }, { 122,-13124 },
+ { 125, 268 }, { 124,-13149 }, { 125,-13149 }, { 126,-13149 }, { 127,-13124 },
+
+ { 128,-13124 }, { 129,-13124 }, { 130,-13124 }, { 131,-13124 }, { 132,-13124 },
+ { 133,-13124 }, { 134,-13124 }, { 135,-13124 }, { 136,-13124 }, { 137,-13124 },
+ { 138,-13124 }, { 139,-13124 }, { 140,-13124 }, { 141,-13124 }, { 142,-13124 },
+ { 143,-13124 }, { 144,-13124 }, { 145,-13124 }, { 146,-13124 }, { 147,-13124 },
+ { 148,-13124 }, { 149,-13124 }, { 150,-13124 }, { 151,-13124 }, { 152,-13124 },
+ { 153,-13124 }, { 154,-13124 }, { 155,-13124 }, { 156,-13124 }, { 157,-13124 },
+ { 158,-13124 }, { 159,-13124 }, { 160,-13124 }, { 161,-13124 }, { 162,-13124 },
+ { 163,-13124 }, { 164,-13124 }, { 165,-13124 }, { 166,-13124 }, { 167,-13124 },
+ { 168,-13124 }, { 169,-13124 }, { 170,-13124 }, { 171,-13124 }, { 172,-13124 },
+ { 173,-13124 }, { 174,-13124 }, { 175,-13124 }, { 176,-13124 }, { 177,-13124 },
+
+ { 178,-13124 }, { 179,-13124 }, { 180,-13124 }, { 181,-13124 }, { 182,-13124 },
+ { 183,-13124 }, { 184,-13124 }, { 185,-13124 }, { 186,-13124 }, { 187,-13124 },
+ { 188,-13124 }, { 189,-13124 }, { 190,-13124 }, { 191,-13124 }, { 192,-13124 },
+ { 193,-13124 }, { 194,-13124 }, { 195,-13124 }, { 196,-13124 }, { 197,-13124 },
+ { 198,-13124 }, { 199,-13124 }, { 200,-13124 }, { 201,-13124 }, { 202,-13124 },
+ { 203,-13124 }, { 204,-13124 }, { 205,-13124 }, { 206,-13124 }, { 207,-13124 },
+ { 208,-13124 }, { 209,-13124 }, { 210,-13124 }, { 211,-13124 }, { 212,-13124 },
+ { 213,-13124 }, { 214,-13124 }, { 215,-13124 }, { 216,-13124 }, { 217,-13124 },
+ { 218,-13124 }, { 219,-13124 }, { 220,-13124 }, { 221,-13124 }, { 222,-13124 },
+ { 223,-13124 }, { 224,-13124 }, { 225,-13124 }, { 226,-13124 }, { 227,-13124 },
+
+ { 228,-13124 }, { 229,-13124 }, { 230,-13124 }, { 231,-13124 }, { 232,-13124 },
+ { 233,-13124 }, { 234,-13124 }, { 235,-13124 }, { 236,-13124 }, { 237,-13124 },
+ { 238,-13124 }, { 239,-13124 }, { 240,-13124 }, { 241,-13124 }, { 242,-13124 },
+ { 243,-13124 }, { 244,-13124 }, { 245,-13124 }, { 246,-13124 }, { 247,-13124 },
+ { 248,-13124 }, { 249,-13124 }, { 250,-13124 }, { 251,-13124 }, { 252,-13124 },
+ { 253,-13124 }, { 254,-13124 }, { 255,-13124 }, { 256,-13124 }, {   0,   0 },
+ {   0, 393 }, {   0,   0 }, {   0, 391 }, {   0,   0 }, {   0, 389 },
+ {   0,  23 }, {   0, 387 }, {   0,   0 }, {   0, 385 }, {   9,   0 },
+ {  10,   0 }, {   0,   0 }, {   0,   0 }, {  13,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0, 350 }, {   0,  45 },
+ {   0, 348 }, {   0,   9 }, {   0, 346 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 125,   2 }, { 126,   4 }, { 125,   4 }, {   0,   0 }, { 125,  -2 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,  35 }, {   0,   0 },
+ {   0, 258 }, {   1,-13517 }, {   2,-13517 }, {   3,-13517 }, {   4,-13517 },
+ {   5,-13517 }, {   6,-13517 }, {   7,-13517 }, {   8,-13517 }, {   9, -90 },
+ {  10, -90 }, {  11,-13517 }, {  12,-13517 }, {  13, -90 }, {  14,-13517 },
+ {  15,-13517 }, {  16,-13517 }, {  17,-13517 }, {  18,-13517 }, {  19,-13517 },
+ {  20,-13517 }, {  21,-13517 }, {  22,-13517 }, {  23,-13517 }, {  24,-13517 },
+ {  25,-13517 }, {  26,-13517 }, {  27,-13517 }, {  28,-13517 }, {  29,-13517 },
+ {  30,-13517 }, {  31,-13517 }, {  32, -90 }, { 125,   4 }, {   0,   0 },
+
+ {   0,   0 }, {  36,-13517 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  41, -90 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,-13517 }, {  46,-13542 }, {  47,-13542 }, {  48,-13517 }, {  49,-13517 },
+ {  50,-13517 }, {  51,-13517 }, {  52,-13517 }, {  53,-13517 }, {  54,-13517 },
+ {  55,-13517 }, {  56,-13517 }, {  57,-13517 }, {  58,-13517 }, {   0,   0 },
+ {   0,   0 }, {  61,-13542 }, {   0,   0 }, {  63,-13517 }, {   0,   0 },
+ {  65,-13517 }, {  66,-13517 }, {  67,-13517 }, {  68,-13517 }, {  69,-13517 },
+ {  70,-13517 }, {  71,-13517 }, {  72,-13517 }, {  73,-13517 }, {  74,-13517 },
+ {  75,-13517 }, {  76,-13517 }, {  77,-13517 }, {  78,-13517 }, {  79,-13517 },
+ {  80,-13517 }, {  81,-13517 }, {  82,-13517 }, {  83,-13517 }, {  84,-13517 },
+
+ {  85,-13517 }, {  86,-13517 }, {  87,-13517 }, {  88,-13517 }, {  89,-13517 },
+ {  90,-13517 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  95,-13517 }, {   0,   0 }, {  97,-13517 }, {  98,-13517 }, {  99,-13517 },
+ { 100,-13517 }, { 101,-13517 }, { 102,-13517 }, { 103,-13517 }, { 104,-13517 },
+ { 105,-13517 }, { 106,-13517 }, { 107,-13517 }, { 108,-13517 }, { 109,-13517 },
+ { 110,-13517 }, { 111,-13517 }, { 112,-13517 }, { 113,-13517 }, { 114,-13517 },
+ { 115,-13517 }, { 116,-13517 }, { 117,-13517 }, { 118,-13517 }, { 119,-13517 },
+ { 120,-13517 }, { 121,-13517 }, { 122,-13517 }, {   0,   0 }, { 124,-13542 },
+ { 125, -90 }, { 126, -90 }, { 127,-13517 }, { 128,-13517 }, { 129,-13517 },
+ { 130,-13517 }, { 131,-13517 }, { 132,-13517 }, { 133,-13517 }, { 134,-13517 },
+
+ { 135,-13517 }, { 136,-13517 }, { 137,-13517 }, { 138,-13517 }, { 139,-13517 },
+ { 140,-13517 }, { 141,-13517 }, { 142,-13517 }, { 143,-13517 }, { 144,-13517 },
+ { 145,-13517 }, { 146,-13517 }, { 147,-13517 }, { 148,-13517 }, { 149,-13517 },
+ { 150,-13517 }, { 151,-13517 }, { 152,-13517 }, { 153,-13517 }, { 154,-13517 },
+ { 155,-13517 }, { 156,-13517 }, { 157,-13517 }, { 158,-13517 }, { 159,-13517 },
+ { 160,-13517 }, { 161,-13517 }, { 162,-13517 }, { 163,-13517 }, { 164,-13517 },
+ { 165,-13517 }, { 166,-13517 }, { 167,-13517 }, { 168,-13517 }, { 169,-13517 },
+ { 170,-13517 }, { 171,-13517 }, { 172,-13517 }, { 173,-13517 }, { 174,-13517 },
+ { 175,-13517 }, { 176,-13517 }, { 177,-13517 }, { 178,-13517 }, { 179,-13517 },
+ { 180,-13517 }, { 181,-13517 }, { 182,-13517 }, { 183,-13517 }, { 184,-13517 },
+
+ { 185,-13517 }, { 186,-13517 }, { 187,-13517 }, { 188,-13517 }, { 189,-13517 },
+ { 190,-13517 }, { 191,-13517 }, { 192,-13517 }, { 193,-13517 }, { 194,-13517 },
+ { 195,-13517 }, { 196,-13517 }, { 197,-13517 }, { 198,-13517 }, { 199,-13517 },
+ { 200,-13517 }, { 201,-13517 }, { 202,-13517 }, { 203,-13517 }, { 204,-13517 },
+ { 205,-13517 }, { 206,-13517 }, { 207,-13517 }, { 208,-13517 }, { 209,-13517 },
+ { 210,-13517 }, { 211,-13517 }, { 212,-13517 }, { 213,-13517 }, { 214,-13517 },
+ { 215,-13517 }, { 216,-13517 }, { 217,-13517 }, { 218,-13517 }, { 219,-13517 },
+ { 220,-13517 }, { 221,-13517 }, { 222,-13517 }, { 223,-13517 }, { 224,-13517 },
+ { 225,-13517 }, { 226,-13517 }, { 227,-13517 }, { 228,-13517 }, { 229,-13517 },
+ { 230,-13517 }, { 231,-13517 }, { 232,-13517 }, { 233,-13517 }, { 234,-13517 },
+
+ { 235,-13517 }, { 236,-13517 }, { 237,-13517 }, { 238,-13517 }, { 239,-13517 },
+ { 240,-13517 }, { 241,-13517 }, { 242,-13517 }, { 243,-13517 }, { 244,-13517 },
+ { 245,-13517 }, { 246,-13517 }, { 247,-13517 }, { 248,-13517 }, { 249,-13517 },
+ { 250,-13517 }, { 251,-13517 }, { 252,-13517 }, { 253,-13517 }, { 254,-13517 },
+ { 255,-13517 }, { 256,-13517 }, { 257,  53 }, {   1,   0 },    };
 
 static const struct yy_trans_info *yy_start_state_list[13] =
     {
@@ -5295,6 +5374,7 @@ static const struct yy_trans_info *yy_start_state_list[13] =
     &yy_transition[2325],
     &yy_transition[2583],
     &yy_transition[2841],
+
     } ;
 
 /* Table of booleans, true if rule could match eol. */
@@ -5404,10 +5484,10 @@ static const flex_int32_t yy_rule_can_match_eol[53] =
     yylloc->last_column = yycolumn + yyleng - 1; \
     yycolumn += yyleng; \
    	YY_USER_DEBUG_ACTION;
-#line 5408 "handlebars.lex.c"
+#line 5488 "handlebars.lex.c"
 
 /* inside of a long comment, after a dash: anything but the first --}} or --~}} */
-#line 5411 "handlebars.lex.c"
+#line 5491 "handlebars.lex.c"
 
 #define INITIAL 0
 #define mu 1
@@ -5690,7 +5770,7 @@ YY_DECL
 
 
 
-#line 5694 "handlebars.lex.c"
+#line 5774 "handlebars.lex.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -6326,7 +6406,7 @@ YY_RULE_SETUP
 #line 493 "handlebars.l"
 ECHO;
 	YY_BREAK
-#line 6330 "handlebars.lex.c"
+#line 6410 "handlebars.lex.c"
 
 	case YY_END_OF_BUFFER:
 		{
-- 
2.43.0


From ad99ac31f137843496b9c198591f7073574add08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:43 +0000
Subject: [PATCH 40/90] fix: brackets in text next to custom delimiters, empty
 close delimiters, trailing backslash

---
 src/handlebars_delimiters.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/handlebars_delimiters.c b/src/handlebars_delimiters.c
index c7340fa..12a5822 100644
--- a/src/handlebars_delimiters.c
+++ b/src/handlebars_delimiters.c
@@ -68,7 +68,8 @@ struct handlebars_string * handlebars_preprocess_delimiters(
     const char *po = NULL;
     const char *pc = NULL;
     const char *pce = NULL;
-    int starts_with_bracket = 0;
+    int starts_with_bracket = 1;
+    int after_tag = 0;
 
     // Initialize/duplicate open/close
     if( open == NULL ) {
@@ -90,8 +91,10 @@ struct handlebars_string * handlebars_preprocess_delimiters(
                 // If current character is a slash, skip one character
                 if( *p == '\\' ) {
                     append(p, 1);
-                    move_forward(1);
-                    append(p, 1);
+                    if( i > 1 ) {
+                        move_forward(1);
+                        append(p, 1);
+                    }
                     continue;
                 }
 
@@ -113,9 +116,16 @@ struct handlebars_string * handlebars_preprocess_delimiters(
 
                 // Escape the bracket if our current custom delims aren't brackets
                 if( i >= 2 && *p == '{' && *(p + 1) == '{' && !starts_with_bracket ) {
-                    append("\\", 1);
+                    append("\\{", 2);
+                    move_forward(1);
                 }
 
+                // A close bracket after a tag is content, unless the tag was closed by brackets
+                if( *p == '}' && (after_tag == 2 || (after_tag == 1 && hbs_str_val(close)[0] != '}')) ) {
+                    append("{{!}}", 5);
+                }
+                after_tag = 0;
+
                 // This is an escape
                 append(p, 1);
                 break;
@@ -168,6 +178,11 @@ struct handlebars_string * handlebars_preprocess_delimiters(
                     handlebars_throw(ctx, HANDLEBARS_ERROR, "Delimiter change must contain two equals");
                 }
 
+                // Empty close tag
+                if( p == pc ) {
+                    handlebars_throw(ctx, HANDLEBARS_ERROR, "Delimiter change must contain a close delimiter");
+                }
+
                 // Scan backwards while whitespace
                 pce = p - 1;
                 while( *pce == ' ' ) {
@@ -215,6 +230,7 @@ struct handlebars_string * handlebars_preprocess_delimiters(
                 } while (0);
 
                 // Goto new state
+                after_tag = 2;
                 if( i > 0 ) {
                     state = 0;
                     goto state0;
@@ -226,6 +242,7 @@ struct handlebars_string * handlebars_preprocess_delimiters(
                     // Ending
                     append("}}", 2);
                     move_forward(hbs_str_len(close));
+                    after_tag = 1;
                     if( i > 0 ) {
                         state = 0;
                         goto state0;
-- 
2.43.0


From e4e83054d3f68cc78a22d029c89be8ef70bdfb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:07 +0000
Subject: [PATCH 41/90] fix: delimiters set by a template leaked

---
 src/handlebars_helpers.c |  7 ++++++-
 src/handlebars_vm.c      | 14 ++++++++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_helpers.c b/src/handlebars_helpers.c
index c72a9a7..44bcae9 100644
--- a/src/handlebars_helpers.c
+++ b/src/handlebars_helpers.c
@@ -386,7 +386,12 @@ struct handlebars_value * handlebars_builtin_with(HANDLEBARS_HELPER_ARGS)
 struct handlebars_value * handlebars_builtin_hbsc_set_delimiters(HANDLEBARS_HELPER_ARGS)
 {
     if (argc == 2 && argv[0].type == HANDLEBARS_VALUE_TYPE_STRING && argv[1].type == HANDLEBARS_VALUE_TYPE_STRING) {
-        // @TODO we should delref the old ones
+        if (vm->delim_open) {
+            handlebars_string_delref(vm->delim_open);
+        }
+        if (vm->delim_close) {
+            handlebars_string_delref(vm->delim_close);
+        }
         vm->delim_open = handlebars_value_get_string(&argv[0]);
         handlebars_string_addref(vm->delim_open);
         vm->delim_close = handlebars_value_get_string(&argv[1]);
diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 5ea7a61..22d1a7d 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -1459,6 +1459,14 @@ struct handlebars_string * handlebars_vm_execute_ex(
         handlebars_value_value(prev_data, &vm->data);
     }
 
+    // The delimiters may be replaced during the execution
+    if (prev_delim_open) {
+        handlebars_string_addref(prev_delim_open);
+    }
+    if (prev_delim_close) {
+        handlebars_string_addref(prev_delim_close);
+    }
+
     // Save jump buffer. The outermost execution always has to clean up, since the stacks live in its frame
     if( !prev || setup_stacks ) {
         if( handlebars_setjmp_ex(vm, &buf) ) {
@@ -1510,6 +1518,12 @@ done:
         vm->last_helper = NULL;
         buffer = NULL;
     }
+    if (vm->delim_open) {
+        handlebars_string_delref(vm->delim_open);
+    }
+    if (vm->delim_close) {
+        handlebars_string_delref(vm->delim_close);
+    }
     vm->delim_open = prev_delim_open;
     vm->delim_close = prev_delim_close;
     vm->last_context = prev_last_context;
-- 
2.43.0


From 1d9121ad2a2bdf12933153a3a79285474c201705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:16 +0000
Subject: [PATCH 42/90] fix: dynamic partial names with explicit partial
 contexts

---
 src/handlebars_compiler.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/handlebars_compiler.c b/src/handlebars_compiler.c
index d83abad..e91ceef 100644
--- a/src/handlebars_compiler.c
+++ b/src/handlebars_compiler.c
@@ -835,7 +835,18 @@ static inline void _handlebars_compiler_accept_partial(
             &node->loc,
             "Unsupported number of partial arguments"
         );
-    } else if( !params || !handlebars_ast_list_count(params) ) {
+    }
+
+    // The name goes below the context on the stack
+    if( name->type == HANDLEBARS_AST_NODE_SEXPR ) {
+    	is_dynamic = true;
+    }
+
+    if( is_dynamic ) {
+    	handlebars_compiler_accept(compiler, name);
+    }
+
+    if( !params || !handlebars_ast_list_count(params) ) {
     	if( compiler->flags & handlebars_compiler_flag_explicit_partial_context ) {
             struct handlebars_opcode * opcode = handlebars_opcode_ctor(CONTEXT, handlebars_opcode_type_push_literal);
             handlebars_operand_set_stringval(CONTEXT, opcode, &opcode->op1, handlebars_string_ctor(CONTEXT, HBS_STRL("undefined")));
@@ -855,14 +866,6 @@ static inline void _handlebars_compiler_accept_partial(
     	}
     }
 
-    if( name->type == HANDLEBARS_AST_NODE_SEXPR ) {
-    	is_dynamic = true;
-    }
-
-    if( is_dynamic ) {
-    	handlebars_compiler_accept(compiler, name);
-    }
-
     programGuid = handlebars_compiler_compile_program(compiler, program);
 
     handlebars_compiler_setup_full_mustache_params(compiler, node, programGuid, -1, 1);
-- 
2.43.0


From 4d2354580ae7946a9d12dfe510f68768ecaa01e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:16 +0000
Subject: [PATCH 43/90] fix: strict and assume objects lookups: null members of
 @data, names found by compat lookup, members of scalars, and registered
 helpers

---
 src/handlebars_vm.c | 45 +++++++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 22d1a7d..7e197e2 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -299,6 +299,11 @@ static inline void depthed_lookup(struct handlebars_vm * vm, struct handlebars_s
         value = empty_value;
     }
 
+    // Not found in any context: it is missing in the innermost one
+    if( value == empty_value && l > 0 ) {
+        value = GET(vm->contextStack, 0);
+    }
+
     PUSH(vm->stack, value);
 
     HANDLEBARS_VALUE_UNDECL(empty_value);
@@ -1031,6 +1036,9 @@ ACCEPT_FUNCTION(lookup_data)
     size_t i;
     struct handlebars_operand_string * arr = opcode->op2.data.array.array;
     struct handlebars_operand_string * first = arr;
+    struct handlebars_operand_string * missing = NULL;
+    bool is_last = false;
+    bool is_object = false;
 
     if( depth && data ) {
         while( data && depth-- ) {
@@ -1050,36 +1058,35 @@ ACCEPT_FUNCTION(lookup_data)
         handlebars_value_value(val, handlebars_stack_get(vm->contextStack, 0));
     } else if (hbs_str_eq_strl(first->string, HBS_STRL("partial-block")) && LEN(vm->partialBlockStack) > 0) {
         handlebars_value_value(val, TOP(vm->partialBlockStack));
-    } else if( vm->flags & handlebars_compiler_flag_assume_objects ) {
-        goto done_and_err;
     } else {
-        goto done_and_null;
+        missing = first;
+        is_last = arr_len <= 1;
+        is_object = true;
     }
 
-    for( i = 1 ; i < arr_len; i++ ) {
+    for( i = 1 ; i < arr_len && !missing; i++ ) {
         struct handlebars_operand_string * part = arr + i;
         if( NULL != (tmp = lookup_member(val, part->string, rv)) ) {
             handlebars_value_value(val, tmp);
-        } else if( is_strict || require_terminal ) {
-            goto done_and_err;
         } else {
-            handlebars_value_null(val);
-            break;
+            missing = part;
+            is_last = i == arr_len - 1;
+            is_object = handlebars_value_get_type(val) == HANDLEBARS_VALUE_TYPE_MAP || handlebars_value_get_type(val) == HANDLEBARS_VALUE_TYPE_ARRAY;
         }
     }
 
-    if( val->type == HANDLEBARS_VALUE_TYPE_NULL ) {
-        done_and_null:
-        if( require_terminal ) {
-            done_and_err:
+    if( missing ) {
+        bool assume_objects = vm->flags & handlebars_compiler_flag_assume_objects;
+        if( is_last ? (require_terminal || (assume_objects && !is_object)) : is_strict ) {
             handlebars_throw_ex(
                 CONTEXT,
                 HANDLEBARS_ERROR,
                 &opcode->loc,
                 "\"%.*s\" not defined in object",
-                (int) hbs_str_len(arr->string), hbs_str_val(arr->string)
+                (int) hbs_str_len(missing->string), hbs_str_val(missing->string)
             );
         }
+        handlebars_value_null(val);
     }
 
     PUSH(vm->stack, val);
@@ -1119,7 +1126,7 @@ ACCEPT_FUNCTION(lookup_on_context)
         bool is_last = arr == arr_end - 1;
         if( handlebars_value_get_type(value) == HANDLEBARS_VALUE_TYPE_MAP || handlebars_value_get_type(value) == HANDLEBARS_VALUE_TYPE_ARRAY ) {
             value = lookup_member(value, arr->string, rv2);
-        } else if( vm->flags & handlebars_compiler_flag_assume_objects && is_last ) {
+        } else if( is_last ? (vm->flags & handlebars_compiler_flag_assume_objects) : is_strict ) {
             goto done_and_err;
         } else {
             goto done_and_null;
@@ -1136,6 +1143,15 @@ ACCEPT_FUNCTION(lookup_on_context)
         done_and_null:
         if( require_terminal ) {
             done_and_err:
+            // A helper of this name takes precedence, so it does not matter
+            if( arr_len == 1
+                && !opcode->op4.data.boolval
+                && !(vm->flags & handlebars_compiler_flag_known_helpers_only)
+                && lookup_helper(vm, arr->string, rv2)
+            ) {
+                value = empty_value;
+                goto done;
+            }
             handlebars_throw_ex(
                 CONTEXT,
                 HANDLEBARS_ERROR,
@@ -1149,6 +1165,7 @@ ACCEPT_FUNCTION(lookup_on_context)
         }
     }
 
+done:
     PUSH(vm->stack, value);
 
     HANDLEBARS_VALUE_UNDECL(rv2);
-- 
2.43.0


From b990df9cd065a768191c3c95401ffa9821339225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:44 +0000
Subject: [PATCH 44/90] fix: standalone lines inside raw blocks

---
 src/handlebars_whitespace.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_whitespace.c b/src/handlebars_whitespace.c
index 837f07c..2336be0 100644
--- a/src/handlebars_whitespace.c
+++ b/src/handlebars_whitespace.c
@@ -260,7 +260,7 @@ static inline void handlebars_whitespace_accept_program(struct handlebars_parser
             }
         }
         if( do_standalone && open_standalone ) {
-            if( current->type == HANDLEBARS_AST_NODE_BLOCK || current->type == HANDLEBARS_AST_NODE_PARTIAL_BLOCK ) {
+            if( current->type == HANDLEBARS_AST_NODE_BLOCK || current->type == HANDLEBARS_AST_NODE_PARTIAL_BLOCK || current->type == HANDLEBARS_AST_NODE_RAW_BLOCK ) {
                 if( current->node.block.program ) {
                     assert(current->node.block.program->type == HANDLEBARS_AST_NODE_PROGRAM);
                     handlebars_whitespace_omit_right(current->node.block.program->node.program.statements, NULL, 0);
@@ -273,7 +273,7 @@ static inline void handlebars_whitespace_accept_program(struct handlebars_parser
         }
         if( do_standalone && close_standalone ) {
             handlebars_whitespace_omit_right(statements, current, 0);
-            if( current->type == HANDLEBARS_AST_NODE_BLOCK || current->type == HANDLEBARS_AST_NODE_PARTIAL_BLOCK ) {
+            if( current->type == HANDLEBARS_AST_NODE_BLOCK || current->type == HANDLEBARS_AST_NODE_PARTIAL_BLOCK || current->type == HANDLEBARS_AST_NODE_RAW_BLOCK ) {
                 if( current->node.block.inverse ) {
                     assert(current->node.block.inverse->type == HANDLEBARS_AST_NODE_PROGRAM);
                     handlebars_whitespace_omit_left(current->node.block.inverse->node.program.statements, NULL, 0);
-- 
2.43.0


From cdb85b98ace2a9e937be8516a9d6c1d203307034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:24 +0000
Subject: [PATCH 45/90] fix: bracketed hash keys

---
 src/handlebars.tab.c | 2 +-
 src/handlebars.y     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/handlebars.tab.c b/src/handlebars.tab.c
index e28e043..5dc7080 100644
--- a/src/handlebars.tab.c
+++ b/src/handlebars.tab.c
@@ -2246,7 +2246,7 @@ yyreduce:
   case 65: /* hash_pair: ID "=" param  */
 #line 499 "handlebars.y"
                     {
-      (yyval.ast_node) = handlebars_ast_node_ctor_hash_pair(parser, (yyvsp[-2].string), (yyvsp[0].ast_node), &(yyloc));
+      (yyval.ast_node) = handlebars_ast_node_ctor_hash_pair(parser, handlebars_ast_helper_strip_id_literal((yyvsp[-2].string)), (yyvsp[0].ast_node), &(yyloc));
     }
 #line 2252 "handlebars.tab.c"
     break;
diff --git a/src/handlebars.y b/src/handlebars.y
index 2e23ef5..4289159 100644
--- a/src/handlebars.y
+++ b/src/handlebars.y
@@ -497,7 +497,7 @@ hash_pairs
 
 hash_pair
   : ID EQUALS param {
-      $$ = handlebars_ast_node_ctor_hash_pair(parser, $1, $3, &@$);
+      $$ = handlebars_ast_node_ctor_hash_pair(parser, handlebars_ast_helper_strip_id_literal($1), $3, &@$);
     }
   ;
 
-- 
2.43.0


From a4d8ea2bc041d5ef624f7c10acdd86e9fdceddad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:24 +0000
Subject: [PATCH 46/90] fix: backslashes in string literals

---
 src/handlebars.l     | 4 ++--
 src/handlebars.lex.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/handlebars.l b/src/handlebars.l
index 33a274d..b324b68 100644
--- a/src/handlebars.l
+++ b/src/handlebars.l
@@ -395,7 +395,7 @@ COM_REST  ([^-]|"-"+([^-~}]|"~"[^-}]|"~"?"}"[^-}]))
 										yytext[--yyleng] = 0;
 										yytext++, yyleng--;
 										handlebars_yy_copy_lval();
-										yylval->string = handlebars_string_stripcslashes(yylval->string);
+										yylval->string = handlebars_str_reduce(yylval->string, HBS_STRL("\\\""), HBS_STRL("\""));
                                    		return STRING;
                                  	}
 
@@ -404,7 +404,7 @@ COM_REST  ([^-]|"-"+([^-~}]|"~"[^-}]|"~"?"}"[^-}]))
 										yytext[--yyleng] = 0;
 										yytext++, yyleng--;
 										handlebars_yy_copy_lval();
-										yylval->string = handlebars_string_stripcslashes(yylval->string);
+										yylval->string = handlebars_str_reduce(yylval->string, HBS_STRL("\\'"), HBS_STRL("'"));
 										return SINGLE_STRING;
                                 	}
 
diff --git a/src/handlebars.lex.c b/src/handlebars.lex.c
index 979a80f..8b69122 100644
--- a/src/handlebars.lex.c
+++ b/src/handlebars.lex.c
@@ -6227,7 +6227,7 @@ YY_RULE_SETUP
 										yytext[--yyleng] = 0;
 										yytext++, yyleng--;
 										handlebars_yy_copy_lval();
-										yylval->string = handlebars_string_stripcslashes(yylval->string);
+										yylval->string = handlebars_str_reduce(yylval->string, HBS_STRL("\\\""), HBS_STRL("\""));
                                    		return STRING;
                                  	}
 	YY_BREAK
@@ -6240,7 +6240,7 @@ YY_RULE_SETUP
 										yytext[--yyleng] = 0;
 										yytext++, yyleng--;
 										handlebars_yy_copy_lval();
-										yylval->string = handlebars_string_stripcslashes(yylval->string);
+										yylval->string = handlebars_str_reduce(yylval->string, HBS_STRL("\\'"), HBS_STRL("'"));
 										return SINGLE_STRING;
                                 	}
 	YY_BREAK
-- 
2.43.0


From f8541612f89d829deed1773cd78d9be10aba3381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:24 +0000
Subject: [PATCH 47/90] fix: raw blocks named by a literal

---
 src/handlebars_ast_helpers.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/handlebars_ast_helpers.c b/src/handlebars_ast_helpers.c
index 5ab73d7..88ca399 100644
--- a/src/handlebars_ast_helpers.c
+++ b/src/handlebars_ast_helpers.c
@@ -294,15 +294,14 @@ struct handlebars_ast_node * handlebars_ast_helper_prepare_raw_block(
         struct handlebars_locinfo * locinfo
 ) {
     struct handlebars_ast_node * content_node;
-    struct handlebars_ast_node * open_block_path;
+    struct handlebars_string * open;
 
     assert(open_raw_block != NULL);
     assert(open_raw_block->type == HANDLEBARS_AST_NODE_INTERMEDIATE);
     assert(close != NULL);
 
-    open_block_path = open_raw_block->node.intermediate.path;
-    if( !handlebars_string_eq(open_block_path->node.path.original, close) ) {
-        struct handlebars_string * open = open_block_path->node.path.original;
+    open = handlebars_ast_node_get_string_mode_value(CONTEXT, open_raw_block->node.intermediate.path);
+    if( !handlebars_string_eq(open, close) ) {
         handlebars_throw_ex(
             CONTEXT,
             HANDLEBARS_ERROR,
-- 
2.43.0


From 10f8dc971a2a0e0efbef136f9e8444778ed1d8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:24 +0000
Subject: [PATCH 48/90] fix: print every construct so that it parses again

---
 src/handlebars_ast_printer.c | 319 +++++++++++++++++++----------------
 1 file changed, 169 insertions(+), 150 deletions(-)

diff --git a/src/handlebars_ast_printer.c b/src/handlebars_ast_printer.c
index 8eafb94..047feeb 100644
--- a/src/handlebars_ast_printer.c
+++ b/src/handlebars_ast_printer.c
@@ -396,8 +396,6 @@ static void _handlebars_ast_print_hash(struct handlebars_ast_node * ast_node, st
     }
 
     __APPENDS("}");
-
-    ctx->in_partial = prev_in_partial;
 }
 
 
@@ -535,7 +533,37 @@ struct handlebars_string * handlebars_ast_print(struct handlebars_context * cont
 #define CONTEXT HBSCTX(ctx->ctx)
 
 static void _handlebars_ast_to_string(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx);
-static void _handlebars_ast_to_string_path(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx, bool first_only);
+static void _handlebars_ast_to_string_path(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx);
+
+static void _handlebars_ast_to_string_open(struct handlebars_ast_printer_context * ctx)
+{
+    // A backslash in front of a tag would escape it
+    size_t len = hbs_str_len(ctx->output);
+    if (len > 0 && hbs_str_val(ctx->output)[len - 1] == '\\') {
+        __APPENDS("\\");
+    }
+    __APPENDS("{{");
+}
+
+static bool _handlebars_ast_to_string_is_literal(struct handlebars_string * str)
+{
+    // What would not be read as an identifier at the end of a path
+    const char * val = hbs_str_val(str);
+    return strspn(val, "-0123456789") == hbs_str_len(str) || 0 == strcmp(val, "true") || 0 == strcmp(val, "false") ||
+        0 == strcmp(val, "null") || 0 == strcmp(val, "undefined");
+}
+
+static void _handlebars_ast_to_string_id(struct handlebars_string * str, struct handlebars_ast_printer_context * ctx)
+{
+    // Segment literal
+    __APPENDS("[");
+    if (hbs_str_len(str) > 0) {
+        struct handlebars_string * escaped = handlebars_str_replace(CONTEXT, str, HBS_STRL("]"), HBS_STRL("\\]"));
+        __APPEND_STR(escaped);
+        handlebars_string_delref(escaped);
+    }
+    __APPENDS("]");
+}
 
 static void _handlebars_ast_to_string_list(struct handlebars_ast_list * ast_list, struct handlebars_ast_printer_context * ctx)
 {
@@ -555,28 +583,17 @@ static void _handlebars_ast_to_string_path_params_hash(
     struct handlebars_ast_node * path, struct handlebars_ast_list * params,
     struct handlebars_ast_node * hash, struct handlebars_ast_printer_context * ctx)
 {
-    int depth = ctx->padding++;
-
-    if (depth > 0) {
-        __APPENDS("(");
-    }
-
     if( path ) {
         __PRINT(path);
     }
 
     if( params ) {
-        struct handlebars_ast_list * ast_list = params;
         struct handlebars_ast_list_item * item;
         struct handlebars_ast_list_item * tmp;
 
-        __APPENDS(" ");
-
-        handlebars_ast_list_foreach(ast_list, item, tmp) {
+        handlebars_ast_list_foreach(params, item, tmp) {
+            __APPENDS(" ");
             __PRINT(item->data);
-            if( item->next ) {
-                __APPENDS(" ");
-            }
         }
     }
 
@@ -584,12 +601,19 @@ static void _handlebars_ast_to_string_path_params_hash(
         __APPENDS(" ");
         __PRINT(hash);
     }
+}
 
-    if (depth > 0) {
-        __APPENDS(")");
+static void _handlebars_ast_to_string_block_params(struct handlebars_ast_node * program, struct handlebars_ast_printer_context * ctx)
+{
+    if (program && program->node.program.block_param1) {
+        __APPENDS(" as |");
+        __APPEND_STR(program->node.program.block_param1);
+        if( program->node.program.block_param2 ) {
+            __APPENDS(" ");
+            __APPEND_STR(program->node.program.block_param2);
+        }
+        __APPENDS("|");
     }
-
-    ctx->padding--;
 }
 
 
@@ -604,7 +628,7 @@ static void _handlebars_ast_to_string_mustache(struct handlebars_ast_node * ast_
 {
     unsigned char unescaped = ast_node->node.mustache.unescaped;
 
-    __APPENDS("{{");
+    _handlebars_ast_to_string_open(ctx);
     __APPEND_STRIP_LEFT(ast_node->strip);
     if (unescaped == 1) {
         __APPENDS("{");
@@ -623,46 +647,41 @@ static void _handlebars_ast_to_string_mustache(struct handlebars_ast_node * ast_
     __APPENDS("}}");
 }
 
-static void _handlebars_ast_to_string_block(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx)
+static void _handlebars_ast_to_string_raw_block(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx)
 {
-    bool is_raw = ast_node->type == HANDLEBARS_AST_NODE_RAW_BLOCK;
-    if (is_raw) {
-        ctx->in_raw_block = 1;
-    }
-
-    // Use an inverted section
-    if (ast_node->node.block.inverse && !ast_node->node.block.program) {
-        if (is_raw) { __APPENDS("{{"); }
-        __APPENDS("{{");
-        __APPEND_STRIP_LEFT(ast_node->node.block.open_strip);
-        __APPENDS("^");
-        _handlebars_ast_to_string_path_params_hash(ast_node->node.block.path,
-                ast_node->node.block.params, ast_node->node.block.hash, ctx);
-        __APPEND_STRIP_RIGHT(ast_node->node.block.open_strip);
-        __APPENDS("}}");
-        if (is_raw) { __APPENDS("}}"); }
-
-        __PRINT(ast_node->node.block.inverse);
+    _handlebars_ast_to_string_open(ctx);
+    __APPENDS("{{");
+    _handlebars_ast_to_string_path_params_hash(ast_node->node.raw_block.path,
+            ast_node->node.raw_block.params, ast_node->node.raw_block.hash, ctx);
+    _handlebars_ast_to_string_block_params(ast_node->node.raw_block.program, ctx);
+    __APPENDS("}}}}");
 
-        if (is_raw) { __APPENDS("{{"); }
-        __APPENDS("{{");
-        __APPEND_STRIP_LEFT(ast_node->node.block.close_strip);
-        __APPENDS("/");
-        _handlebars_ast_to_string_path(ast_node->node.block.path, ctx, 1);
-        __APPEND_STRIP_RIGHT(ast_node->node.block.close_strip);
-        __APPENDS("}}");
-        if (is_raw) { __APPENDS("}}"); }
-        goto done;
+    ctx->in_raw_block = 1;
+    if( ast_node->node.raw_block.program ) {
+        __PRINT(ast_node->node.raw_block.program);
     }
+    ctx->in_raw_block = 0;
+
+    __APPENDS("{{{{/");
+    __APPEND_STR(handlebars_ast_node_get_string_mode_value(CONTEXT, ast_node->node.raw_block.path));
+    __APPENDS("}}}}");
+}
 
+static void _handlebars_ast_to_string_block(struct handlebars_ast_node * ast_node, bool chained, struct handlebars_ast_printer_context * ctx)
+{
+    struct handlebars_ast_node * program = ast_node->node.block.program;
+    struct handlebars_ast_node * inverse = ast_node->node.block.inverse;
 
-    // Sexpr
-    if (is_raw) {
-        __APPENDS("{{{{");
-        __APPEND_STRIP_LEFT(ast_node->node.block.open_strip);
+    _handlebars_ast_to_string_open(ctx);
+    __APPEND_STRIP_LEFT(ast_node->node.block.open_strip);
+    if (chained) {
+        __APPENDS("else ");
+    } else if (inverse && !program) {
+        // Use an inverted section
+        __APPENDS("^");
+        program = inverse;
+        inverse = NULL;
     } else {
-        __APPENDS("{{");
-        __APPEND_STRIP_LEFT(ast_node->node.block.open_strip);
         __APPENDS("#");
     }
 	if( ast_node->node.block.is_decorator ) {
@@ -670,97 +689,62 @@ static void _handlebars_ast_to_string_block(struct handlebars_ast_node * ast_nod
 	}
     _handlebars_ast_to_string_path_params_hash(ast_node->node.block.path,
             ast_node->node.block.params, ast_node->node.block.hash, ctx);
-
-    if (ast_node->node.block.program) {
-        if( ast_node->node.block.program->node.program.block_param1 ) {
-            __APPENDS("as |");
-            __APPEND_STR(ast_node->node.block.program->node.program.block_param1);
-            if( ast_node->node.block.program->node.program.block_param2 ) {
-                __APPENDS(" ");
-                __APPEND_STR(ast_node->node.block.program->node.program.block_param2);
-            }
-            __APPENDS("|");
-        }
-    }
-
+    _handlebars_ast_to_string_block_params(program, ctx);
     __APPEND_STRIP_RIGHT(ast_node->node.block.open_strip);
     __APPENDS("}}");
-    if (is_raw) { __APPENDS("}}"); }
 
     // Program
-    if( ast_node->node.block.program ) {
-        __PRINT(ast_node->node.block.program);
+    if( program ) {
+        __PRINT(program);
     }
 
     // Inverse
-    if( ast_node->node.block.inverse ) {
-        __APPENDS("{{");
+    if( inverse && inverse->node.program.chained && inverse->node.program.statements && inverse->node.program.statements->first ) {
+        _handlebars_ast_to_string_block(inverse->node.program.statements->first->data, true, ctx);
+    } else if( inverse ) {
+        _handlebars_ast_to_string_open(ctx);
         __APPEND_STRIP_LEFT(ast_node->node.block.inverse_strip);
         __APPENDS("^");
         __APPEND_STRIP_RIGHT(ast_node->node.block.inverse_strip);
         __APPENDS("}}");
-        __PRINT(ast_node->node.block.inverse);
+        __PRINT(inverse);
+    }
+
+    // The block that starts the chain ends it
+    if (chained) {
+        return;
     }
 
     // end
-    if (is_raw) { __APPENDS("{{"); }
-    __APPENDS("{{");
+    _handlebars_ast_to_string_open(ctx);
     __APPEND_STRIP_LEFT(ast_node->node.block.close_strip);
     __APPENDS("/");
-    _handlebars_ast_to_string_path_params_hash(ast_node->node.block.path, NULL, NULL, ctx);
-    // _handlebars_ast_to_string_path(ast_node->node.block.path, ctx, 1);
+    __PRINT(ast_node->node.block.path);
     __APPEND_STRIP_RIGHT(ast_node->node.block.close_strip);
     __APPENDS("}}");
-    if (is_raw) { __APPENDS("}}"); }
-
-done:
-    ctx->in_raw_block = 0;
 }
 
 static void _handlebars_ast_to_string_partial(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx)
 {
-    ctx->in_partial = true;
-
     assert(ast_node->node.partial.name != NULL);
 
-    __APPENDS("{{");
+    _handlebars_ast_to_string_open(ctx);
     __APPEND_STRIP_LEFT(ast_node->strip);
-    __APPENDS(">");
-
-    __PRINT(ast_node->node.partial.name);
-
-   if( ast_node->node.partial.params != NULL &&
-            handlebars_ast_list_count(ast_node->node.partial.params) ) {
-        __APPENDS(" ");
-        __PRINT(ast_node->node.partial.params->first->data);
-    }
-
-    if( ast_node->node.partial.hash ) {
-        __APPENDS(" ");
-        __PRINT(ast_node->node.partial.hash);
-    }
-
+    __APPENDS("> ");
+    _handlebars_ast_to_string_path_params_hash(ast_node->node.partial.name,
+            ast_node->node.partial.params, ast_node->node.partial.hash, ctx);
     __APPEND_STRIP_RIGHT(ast_node->strip);
     __APPENDS("}}");
-
-    ctx->in_partial = false;
 }
 
-
 static void _handlebars_ast_to_string_partial_block(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx)
 {
-    ctx->in_partial = true;
-
-    // Sexpr
-    __APPENDS("{{#> ");
-    _handlebars_ast_to_string(ast_node->node.partial_block.path, ctx);
-    if( ast_node->node.partial_block.params ) {
-        _handlebars_ast_to_string_list(ast_node->node.partial_block.params, ctx);
-    }
-    if( ast_node->node.partial_block.hash ) {
-    	__APPENDS(" ");
-        _handlebars_ast_to_string(ast_node->node.partial_block.hash, ctx);
-    }
+    _handlebars_ast_to_string_open(ctx);
+    __APPEND_STRIP_LEFT(ast_node->node.partial_block.open_strip);
+    __APPENDS("#> ");
+    _handlebars_ast_to_string_path_params_hash(ast_node->node.partial_block.path,
+            ast_node->node.partial_block.params, ast_node->node.partial_block.hash, ctx);
+    __APPEND_STRIP_RIGHT(ast_node->node.partial_block.open_strip);
     __APPENDS("}}");
 
     // Program
@@ -769,11 +753,12 @@ static void _handlebars_ast_to_string_partial_block(struct handlebars_ast_node *
     }
 
     // end
-    __APPENDS("{{/");
-    _handlebars_ast_to_string(ast_node->node.partial_block.path, ctx);
+    _handlebars_ast_to_string_open(ctx);
+    __APPEND_STRIP_LEFT(ast_node->node.partial_block.close_strip);
+    __APPENDS("/");
+    __PRINT(ast_node->node.partial_block.path);
+    __APPEND_STRIP_RIGHT(ast_node->node.partial_block.close_strip);
     __APPENDS("}}");
-
-    ctx->in_partial = false;
 }
 
 static void _handlebars_ast_to_string_content(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx)
@@ -782,22 +767,48 @@ static void _handlebars_ast_to_string_content(struct handlebars_ast_node * ast_n
     if (ctx->in_raw_block) {
         __APPEND_STR(ast_node->node.content.original);
     } else {
-        struct handlebars_string *escaped = handlebars_str_replace(CONTEXT, ast_node->node.content.original, HBS_STRL("{{"), HBS_STRL("\\{{"));
-        __APPEND_STR(escaped);
-        handlebars_string_delref(escaped);
+        const char * p = hbs_str_val(ast_node->node.content.original);
+        const char * end = p + hbs_str_len(ast_node->node.content.original);
+        while (p < end) {
+            const char * open = handlebars_strnstr(p, end - p, HBS_STRL("{{"));
+            if (!open) {
+                open = end;
+            } else if ((open > hbs_str_val(ast_node->node.content.original) && open[-1] == '\\') ||
+                    (open + 2 < end && open[2] == '{' && !(open + 3 < end && open[3] == '{'))) {
+                // Escape the last two of three, and not right behind a backslash
+                open++;
+                if (open + 1 >= end || open[1] != '{') {
+                    __APPENDL(p, open - p);
+                    p = open;
+                    continue;
+                }
+            }
+            __APPENDL(p, open - p);
+            if (open < end) {
+                __APPENDS("\\{{");
+                open += 2;
+            }
+            p = open;
+        }
     }
 }
 
 static void _handlebars_ast_to_string_comment(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx)
 {
-    __APPENDS("{{");
+    const char * val = hbs_str_val(ast_node->node.comment.value);
+    size_t len = hbs_str_len(ast_node->node.comment.value);
+    // In the short form these would be taken for a part of the delimiters
+    bool is_long = ast_node->node.comment.is_long ||
+        (len > 0 && (val[0] == '-' || val[0] == '~' || strchr("-~}", val[len - 1])));
+
+    _handlebars_ast_to_string_open(ctx);
     __APPEND_STRIP_LEFT(ast_node->strip);
     __APPENDS("!");
-    if (ast_node->node.comment.is_long) {
+    if (is_long) {
         __APPENDS("--");
     }
     __APPEND_STR(ast_node->node.comment.value);
-    if (ast_node->node.comment.is_long) {
+    if (is_long) {
         __APPENDS("--");
     }
     __APPEND_STRIP_RIGHT(ast_node->strip);
@@ -806,9 +817,10 @@ static void _handlebars_ast_to_string_comment(struct handlebars_ast_node * ast_n
 
 static void _handlebars_ast_to_string_sexpr(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx)
 {
-    // Sexpr
+    __APPENDS("(");
     _handlebars_ast_to_string_path_params_hash(ast_node->node.sexpr.path,
             ast_node->node.sexpr.params, ast_node->node.sexpr.hash, ctx);
+    __APPENDS(")");
 }
 
 static void _handlebars_ast_to_string_string(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx)
@@ -851,51 +863,58 @@ static void _handlebars_ast_to_string_hash(struct handlebars_ast_node * ast_node
     struct handlebars_ast_list * ast_list = ast_node->node.hash.pairs;
     struct handlebars_ast_list_item * item;
     struct handlebars_ast_list_item * tmp;
-    bool prev_in_partial = ctx->in_partial;
-    ctx->in_partial = false;
 
     handlebars_ast_list_foreach(ast_list, item, tmp) {
-        __APPEND_STR(item->data->node.hash_pair.key);
+        struct handlebars_string * key = item->data->node.hash_pair.key;
+        if( hbs_str_len(key) < 1 || NULL != strpbrk(hbs_str_val(key), "!\"#%&'()*+,/;<=>@[\\]^`{|}~ \t\r\n\v\f") ) {
+            _handlebars_ast_to_string_id(key, ctx);
+        } else {
+            __APPEND_STR(key);
+        }
         __APPENDS("=");
         __PRINT(item->data->node.hash_pair.value);
         if( item->next ) {
             __APPENDS(" ");
         }
     }
-
-    ctx->in_partial = prev_in_partial;
 }
 
 
 
 
-static void _handlebars_ast_to_string_path(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx, bool first_only)
+static void _handlebars_ast_to_string_path(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx)
 {
     struct handlebars_ast_list * ast_list = ast_node->node.path.parts;
+    struct handlebars_string * original = ast_node->node.path.original;
     struct handlebars_ast_list_item * item;
     struct handlebars_ast_list_item * tmp;
+    size_t len = 0;
 
     assert(ast_node->node.path.data == 0 || ast_node->node.path.data == 1);
 
-    if (ast_node->node.path.original) {
-        __APPEND_STR(ast_node->node.path.original);
-    } else {
-        if( ast_node->node.path.data ) {
-            __APPENDS("@");
+    if( ast_list ) {
+        handlebars_ast_list_foreach(ast_list, item, tmp) {
+            if( item->data->node.path_segment.separator ) {
+                len += hbs_str_len(item->data->node.path_segment.separator);
+            }
+            len += hbs_str_len(item->data->node.path_segment.part);
         }
+    }
 
-        if( !ast_list || handlebars_ast_list_count(ast_list) <= 0 ) {
-            __APPENDS(".");
-            return;
-        }
+    // What precedes the first part: @ and ../
+    if( original && len <= hbs_str_len(original) ) {
+        __APPENDL(hbs_str_val(original), hbs_str_len(original) - len);
+    }
 
+    if( ast_list ) {
         handlebars_ast_list_foreach(ast_list, item, tmp) {
-            __APPEND_STR(item->data->node.path_segment.part);
-            // if (first_only) {
-            //     return;
-            // }
-            if( item->next ) {
-                __APPEND_STR(item->next->data->node.path_segment.separator);
+            struct handlebars_string * part = item->data->node.path_segment.part;
+            __APPEND_STR(item->data->node.path_segment.separator);
+            if( handlebars_string_eq(part, item->data->node.path_segment.original) &&
+                    !(item->next == NULL && _handlebars_ast_to_string_is_literal(part)) ) {
+                __APPEND_STR(part);
+            } else {
+                _handlebars_ast_to_string_id(part, ctx);
             }
         }
     }
@@ -912,7 +931,7 @@ static void _handlebars_ast_to_string(struct handlebars_ast_node * ast_node, str
             _handlebars_ast_to_string_boolean(ast_node, ctx);
             break;
         case HANDLEBARS_AST_NODE_BLOCK:
-            _handlebars_ast_to_string_block(ast_node, ctx);
+            _handlebars_ast_to_string_block(ast_node, false, ctx);
             break;
         case HANDLEBARS_AST_NODE_COMMENT:
             _handlebars_ast_to_string_comment(ast_node, ctx);
@@ -939,13 +958,13 @@ static void _handlebars_ast_to_string(struct handlebars_ast_node * ast_node, str
             _handlebars_ast_to_string_partial_block(ast_node, ctx);
             break;
         case HANDLEBARS_AST_NODE_PATH:
-            _handlebars_ast_to_string_path(ast_node, ctx, 0);
+            _handlebars_ast_to_string_path(ast_node, ctx);
             break;
         case HANDLEBARS_AST_NODE_PROGRAM:
             _handlebars_ast_to_string_program(ast_node, ctx);
             break;
         case HANDLEBARS_AST_NODE_RAW_BLOCK:
-            _handlebars_ast_to_string_block(ast_node, ctx);
+            _handlebars_ast_to_string_raw_block(ast_node, ctx);
             break;
         case HANDLEBARS_AST_NODE_SEXPR:
             _handlebars_ast_to_string_sexpr(ast_node, ctx);
-- 
2.43.0


From 1a4b7784e6497b67d5b7e271d4d34229949b2698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:22 +0000
Subject: [PATCH 49/90] fix: compiling does not change the syntax tree

---
 src/handlebars_compiler.c | 70 ++++++++++++++++++++++++++++-----------
 src/handlebars_opcodes.c  |  3 +-
 2 files changed, 53 insertions(+), 20 deletions(-)

diff --git a/src/handlebars_compiler.c b/src/handlebars_compiler.c
index e91ceef..ac3fd15 100644
--- a/src/handlebars_compiler.c
+++ b/src/handlebars_compiler.c
@@ -611,7 +611,17 @@ static inline struct handlebars_ast_list * handlebars_compiler_setup_full_mustac
     return params;
 }
 
-static inline void handlebars_compiler_transform_literal_to_path(
+static inline struct handlebars_ast_node * handlebars_compiler_copy_node(
+        struct handlebars_compiler * compiler,
+        struct handlebars_ast_node * node
+) {
+    // The syntax tree may be compiled again, do not change it
+    struct handlebars_ast_node * copy = talloc_steal(compiler, handlebars_ast_node_ctor(CONTEXT, node->type));
+    memcpy(copy, node, sizeof(*copy));
+    return copy;
+}
+
+static inline struct handlebars_ast_node * handlebars_compiler_transform_literal_to_path(
         struct handlebars_compiler * compiler,
         struct handlebars_ast_node * node
 ) {
@@ -619,6 +629,7 @@ static inline void handlebars_compiler_transform_literal_to_path(
 	struct handlebars_ast_node * part;
 	struct handlebars_ast_list * parts;
 	struct handlebars_string * val;
+	struct handlebars_locinfo loc;
 	switch( path->type ) {
 		case HANDLEBARS_AST_NODE_UNDEFINED:
 		case HANDLEBARS_AST_NODE_NUL:
@@ -626,21 +637,38 @@ static inline void handlebars_compiler_transform_literal_to_path(
 		case HANDLEBARS_AST_NODE_NUMBER:
 		case HANDLEBARS_AST_NODE_STRING:
 			val = handlebars_ast_node_get_string_mode_value(CONTEXT, path);
+			node = handlebars_compiler_copy_node(compiler, node);
+			loc = path->loc;
+			path = talloc_steal(node, handlebars_ast_node_ctor(CONTEXT, HANDLEBARS_AST_NODE_PATH));
+			path->loc = loc;
 			// Make parts
 			part = talloc_steal(node, handlebars_ast_node_ctor(CONTEXT, HANDLEBARS_AST_NODE_PATH_SEGMENT));
 			part->node.path_segment.part = talloc_steal(part, handlebars_string_copy_ctor(CONTEXT, val));
 			parts = talloc_steal(node, handlebars_ast_list_ctor(CONTEXT));
 		    handlebars_ast_list_append(parts, part);
-		    // Re-jigger node
-		    memset(path, 0, sizeof(struct handlebars_ast_node));
-			path->type = HANDLEBARS_AST_NODE_PATH;
 			path->node.path.original = talloc_steal(part, handlebars_string_copy_ctor(CONTEXT, val));
 			path->node.path.parts = talloc_steal(path, parts);
+			switch( node->type ) {
+				case HANDLEBARS_AST_NODE_BLOCK:
+					node->node.block.path = path;
+					break;
+				case HANDLEBARS_AST_NODE_RAW_BLOCK:
+					node->node.raw_block.path = path;
+					break;
+				case HANDLEBARS_AST_NODE_MUSTACHE:
+					node->node.mustache.path = path;
+					break;
+				default:
+					assert(node->type == HANDLEBARS_AST_NODE_SEXPR);
+					node->node.sexpr.path = path;
+					break;
+			}
 			break;
         default:
             // do nothing
             break;
 	}
+	return node;
 }
 
 static inline bool handlebars_compiler_block_param_index(
@@ -729,13 +757,14 @@ static inline void handlebars_compiler_accept_block(
     struct handlebars_ast_node * sexpr = block; // cough
     struct handlebars_ast_node * program = block->node.block.program;
     struct handlebars_ast_node * inverse = block->node.block.inverse;
-    struct handlebars_ast_node * path = block->node.block.path;
+    struct handlebars_ast_node * path;
     long programGuid = -1;
     long inverseGuid = -1;
 
     assert(compiler != NULL);
 
-    handlebars_compiler_transform_literal_to_path(compiler, block);
+    sexpr = handlebars_compiler_transform_literal_to_path(compiler, block);
+    path = sexpr->node.block.path;
 
     programGuid = handlebars_compiler_compile_program(compiler, program);
 
@@ -853,13 +882,12 @@ static inline void _handlebars_compiler_accept_partial(
             __PUSH(opcode);
     		//__OPS(push_literal, "undefined";
     	} else {
-			if( !params ) {
-				params = talloc_steal(node, handlebars_ast_list_ctor(CONTEXT));
-				if( node->type == HANDLEBARS_AST_NODE_PARTIAL ) {
-					node->node.partial.params = params;
-				} else if( node->type == HANDLEBARS_AST_NODE_PARTIAL_BLOCK ) {
-					node->node.partial_block.params = params;
-				}
+			node = handlebars_compiler_copy_node(compiler, node);
+			params = talloc_steal(node, handlebars_ast_list_ctor(CONTEXT));
+			if( node->type == HANDLEBARS_AST_NODE_PARTIAL ) {
+				node->node.partial.params = params;
+			} else if( node->type == HANDLEBARS_AST_NODE_PARTIAL_BLOCK ) {
+				node->node.partial_block.params = params;
 			}
 			tmp = talloc_steal(params, handlebars_ast_node_ctor(CONTEXT, HANDLEBARS_AST_NODE_PATH));
 			handlebars_ast_list_append(params, tmp);
@@ -1050,7 +1078,8 @@ static inline void handlebars_compiler_accept_sexpr_ambiguous(
     __OPL(get_context, path->node.path.depth);
     push_program_pair(compiler, programGuid, inverseGuid);
 
-	path->node.path.strict = true;
+    path = handlebars_compiler_copy_node(compiler, path);
+    path->node.path.strict = true;
     handlebars_compiler_accept/*_id*/(compiler, path);
 
     do {
@@ -1081,7 +1110,8 @@ static inline void handlebars_compiler_accept_sexpr_simple(
     path = handlebars_ast_node_get_path(sexpr);
 
     if( path ) {
-    	path->node.path.strict = true;
+        path = handlebars_compiler_copy_node(compiler, path);
+        path->node.path.strict = true;
         handlebars_compiler_accept/*_data*/(compiler, path);
     }
 
@@ -1126,8 +1156,9 @@ static inline void handlebars_compiler_accept_sexpr_helper(
     } else {
         bool is_simple = handlebars_ast_helper_simple_id(path);
 
+        path = handlebars_compiler_copy_node(compiler, path);
         path->node.path.falsy = true;
-    	path->node.path.strict = true;
+        path->node.path.strict = true;
         handlebars_compiler_accept/*_id*/(compiler, path);
 
         struct handlebars_opcode * opcode = handlebars_opcode_ctor(CONTEXT, handlebars_opcode_type_invoke_helper);
@@ -1146,7 +1177,7 @@ static inline void handlebars_compiler_accept_sexpr(
     assert(compiler != NULL);
     assert(sexpr != NULL);
 
-    handlebars_compiler_transform_literal_to_path(compiler, sexpr);
+    sexpr = handlebars_compiler_transform_literal_to_path(compiler, sexpr);
 
     switch( handlebars_compiler_classify_sexpr(compiler, sexpr) ) {
         case SEXPR_HELPER:
@@ -1328,13 +1359,14 @@ static inline void handlebars_compiler_accept_raw_block(
     struct handlebars_ast_node * sexpr = raw_block;
     struct handlebars_ast_node * program = raw_block->node.raw_block.program;
     struct handlebars_ast_node * inverse = raw_block->node.raw_block.inverse;
-    struct handlebars_ast_node * path = raw_block->node.raw_block.path;
+    struct handlebars_ast_node * path;
     long programGuid;
     long inverseGuid;
 
     assert(compiler != NULL);
 
-    handlebars_compiler_transform_literal_to_path(compiler, raw_block);
+    sexpr = handlebars_compiler_transform_literal_to_path(compiler, raw_block);
+    path = sexpr->node.raw_block.path;
 
     programGuid = handlebars_compiler_compile_program(compiler, program);
     inverseGuid = handlebars_compiler_compile_program(compiler, inverse);
diff --git a/src/handlebars_opcodes.c b/src/handlebars_opcodes.c
index dc096fc..c648b43 100644
--- a/src/handlebars_opcodes.c
+++ b/src/handlebars_opcodes.c
@@ -78,7 +78,8 @@ void handlebars_operand_set_stringval(
     assert(operand != NULL);
 
     operand->type = handlebars_operand_type_string;
-    operand->data.string.string = talloc_steal(opcode, string);
+    // The string may belong to the syntax tree
+    operand->data.string.string = string ? talloc_steal(opcode, handlebars_string_copy_ctor(context, string)) : NULL;
 }
 
 void handlebars_operand_set_arrayval(
-- 
2.43.0


From c494994e1d873a7c89e9fe3cc1c38db1d578bfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:46 +0000
Subject: [PATCH 50/90] fix: a module is verified before its size is trusted,
 header included

---
 src/handlebars_opcode_serializer.c | 43 ++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/handlebars_opcode_serializer.c b/src/handlebars_opcode_serializer.c
index c21dfb5..c651c99 100644
--- a/src/handlebars_opcode_serializer.c
+++ b/src/handlebars_opcode_serializer.c
@@ -45,6 +45,8 @@
 const size_t HANDLEBARS_MODULE_SIZE = sizeof(struct handlebars_module);
 const size_t HANDLEBARS_MODULE_TABLE_ENTRY_SIZE = sizeof(struct handlebars_module_table_entry);
 
+static const unsigned char module_header[8] = "HBSCM";
+
 static void * append(struct handlebars_module * module, void * source, size_t size)
 {
     size_t aligned_size = align_size(size);
@@ -241,7 +243,7 @@ struct handlebars_module * handlebars_program_serialize(
 ) {
     // Allocate initial buffer
     struct handlebars_module * module = handlebars_talloc_zero(context, struct handlebars_module);
-    memcpy(&module->header, "HBSCM", sizeof("HBSCM"));
+    memcpy(&module->header, module_header, sizeof(module_header));
     module->version = handlebars_version();
     module->flags = program->flags;
     time(&module->ts);
@@ -410,19 +412,12 @@ bool handlebars_module_verify(
     struct handlebars_module * module,
     struct handlebars_context * ctx
 ) {
-    uint64_t hash = calculate_hash(module);
-    bool matched = true;
-    if (hash != module->hash) {
+    uint64_t hash;
+    if (memcmp(module->header, module_header, sizeof(module_header)) != 0) {
         if (ctx != NULL) {
-            handlebars_throw(
-                ctx,
-                HANDLEBARS_ERROR,
-                "Invalid module hash expected=%llu actual=%llu",
-                (unsigned long long) module->hash,
-                (unsigned long long) hash
-            );
+            handlebars_throw(ctx, HANDLEBARS_ERROR, "Invalid module header");
         }
-        matched = false;
+        return false;
     }
     if (handlebars_version() != module->version) {
         if (ctx != NULL) {
@@ -434,7 +429,27 @@ bool handlebars_module_verify(
                 (unsigned long long) handlebars_version()
             );
         }
-        matched = false;
+        return false;
+    }
+    // The hash covers as many bytes as the size says
+    if (module->size < sizeof(struct handlebars_module) || module->size - sizeof(struct handlebars_module) != module->data_offset) {
+        if (ctx != NULL) {
+            handlebars_throw(ctx, HANDLEBARS_ERROR, "Invalid module size %zu", module->size);
+        }
+        return false;
+    }
+    hash = calculate_hash(module);
+    if (hash != module->hash) {
+        if (ctx != NULL) {
+            handlebars_throw(
+                ctx,
+                HANDLEBARS_ERROR,
+                "Invalid module hash expected=%llu actual=%llu",
+                (unsigned long long) module->hash,
+                (unsigned long long) hash
+            );
+        }
+        return false;
     }
-    return matched;
+    return true;
 }
-- 
2.43.0


From 2eff9aad9462f13f2fcfacca77707ec303dc4d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:33 +0000
Subject: [PATCH 51/90] fix: a module has no uninitialized bytes

---
 src/handlebars_opcode_serializer.c | 31 +++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/handlebars_opcode_serializer.c b/src/handlebars_opcode_serializer.c
index c651c99..271079c 100644
--- a/src/handlebars_opcode_serializer.c
+++ b/src/handlebars_opcode_serializer.c
@@ -66,8 +66,20 @@ static void * append(struct handlebars_module * module, void * source, size_t si
     return addr;
 }
 
-static inline void patch_string(struct handlebars_string * str) {
-    handlebars_string_immortalize(str);
+static struct handlebars_string * append_string(struct handlebars_module * module, struct handlebars_string * str)
+{
+    // Make sure hash is computed
+    hbs_str_hash(str);
+
+    size_t size = HBS_STR_SIZE(hbs_str_len(str));
+    struct handlebars_string * copy = append(module, str, size);
+
+    // The bytes behind the terminator are not always initialized
+    char * end = hbs_str_val(copy) + hbs_str_len(copy);
+    memset(end, 0, (char *) copy + size - end);
+
+    handlebars_string_immortalize(copy);
+    return copy;
 }
 
 static size_t calculate_size_operand(struct handlebars_module * module, struct handlebars_operand * operand)
@@ -139,27 +151,16 @@ static size_t calculate_size_program(struct handlebars_module * module, struct h
 static void serialize_operand(struct handlebars_module * module, struct handlebars_operand * operand)
 {
     size_t i;
-    size_t size;
 
     // Increment for children
     switch( operand->type ) {
         case handlebars_operand_type_string:
-            // Make sure hash is computed
-            hbs_str_hash(operand->data.string.string);
-
-            size = HBS_STR_SIZE(hbs_str_len(operand->data.string.string));
-            operand->data.string.string = append(module, operand->data.string.string, size);
-            patch_string(operand->data.string.string);
+            operand->data.string.string = append_string(module, operand->data.string.string);
             break;
         case handlebars_operand_type_array:
             operand->data.array.array = append(module, operand->data.array.array, sizeof(struct handlebars_operand_string) * operand->data.array.count);
             for( i = 0; i < operand->data.array.count; i++ ) {
-                // Make sure hash is computed
-                hbs_str_hash(operand->data.array.array[i].string);
-
-                size = HBS_STR_SIZE(hbs_str_len(operand->data.array.array[i].string));
-                operand->data.array.array[i].string = append(module, operand->data.array.array[i].string, size);
-                patch_string(operand->data.array.array[i].string);
+                operand->data.array.array[i].string = append_string(module, operand->data.array.array[i].string);
             }
             break;
         default:
-- 
2.43.0


From e6e676e078588d470f76ab3f5936972a2e414a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:11 +0000
Subject: [PATCH 52/90] fix: modifying a shared map never alters another
 reference, refused additions change nothing, iteration survives compaction

---
 src/handlebars_map.c   | 100 +++++++++++++++++++++++++++++------------
 src/handlebars_map.h   |  10 +++--
 src/handlebars_value.c |  12 +++--
 3 files changed, 86 insertions(+), 36 deletions(-)

diff --git a/src/handlebars_map.c b/src/handlebars_map.c
index 5365597..9606a7c 100644
--- a/src/handlebars_map.c
+++ b/src/handlebars_map.c
@@ -388,6 +388,44 @@ struct handlebars_map * handlebars_map_copy_ctor(struct handlebars_map * prev_ma
     return map;
 }
 
+/**
+ * Makes room for one more entry and separates the map if it is shared. If that takes a new map, the one it
+ * replaces is returned in prev_map: release it once its keys and values are not needed any more.
+ */
+static struct handlebars_map * map_separate(struct handlebars_map * map, bool force, struct handlebars_map ** prev_map)
+{
+    *prev_map = NULL;
+
+#ifndef HANDLEBARS_NO_REFCOUNT
+    if (handlebars_rc_refcount(&map->rc) > 1) {
+        force = true;
+    } else
+#endif
+    if (map->is_in_iteration) { // this go go really wrong
+        return map;
+    }
+
+    if (force || map->vec_offset == map->vec_capacity || handlebars_map_load_factor(map) > HANDLEBARS_MAP_MAX_LOAD_FACTOR) {
+        size_t vec_capacity = 1 << map_choose_vec_capacity_log2(map->i + 1);
+        *prev_map = map;
+        map = handlebars_map_copy_ctor(map, vec_capacity);
+#ifndef HANDLEBARS_NO_REFCOUNT
+        if (handlebars_rc_refcount(&(*prev_map)->rc) >= 1) { // ugh
+            handlebars_map_addref(map);
+        }
+#endif
+    }
+
+    return map;
+}
+
+static inline void map_release_prev(struct handlebars_map * prev_map)
+{
+    if (prev_map) {
+        handlebars_map_delref(prev_map);
+    }
+}
+
 
 
 #undef CONTEXT
@@ -405,17 +443,25 @@ void handlebars_map_dtor(struct handlebars_map * map)
 
 struct handlebars_map * handlebars_map_add(struct handlebars_map * map, struct handlebars_string * key, struct handlebars_value * value)
 {
+    // Adding a key twice is an error, and leaves the map alone
+    struct ht_find_result o = map_find_entry(map, key);
+    if (o.entry_found) {
+        handlebars_throw(map->ctx, HANDLEBARS_ERROR, "Failed to add to hash table");
+    }
+
     // Rehash
-    map = handlebars_map_rehash(map, false);
+    struct handlebars_map * prev_map;
+    map = map_separate(map, false, &prev_map);
 
     // Add
-    struct ht_find_result o = map_find_entry(map, key);
-    if (o.entry_found || !o.empty_found) {
+    o = map_find_entry(map, key);
+    if (!o.empty_found) {
         // this should never happen - unless rehash locked due to iteration
         handlebars_throw(map->ctx, HANDLEBARS_ERROR, "Failed to add to hash table");
     }
 
     map_add_at_table_offset(map, key, value, o.empty_offset);
+    map_release_prev(prev_map);
 
     return map;
 }
@@ -423,11 +469,13 @@ struct handlebars_map * handlebars_map_add(struct handlebars_map * map, struct h
 struct handlebars_map * handlebars_map_remove(struct handlebars_map * map, struct handlebars_string * key)
 {
     // Rehash
-    map = handlebars_map_rehash(map, handlebars_map_load_factor(map) < HANDLEBARS_MAP_MIN_LOAD_FACTOR);
+    struct handlebars_map * prev_map;
+    map = map_separate(map, handlebars_map_load_factor(map) < HANDLEBARS_MAP_MIN_LOAD_FACTOR, &prev_map);
 
     // Remove
     struct ht_find_result o = map_find_entry(map, key);
     struct handlebars_map_entry * entry = o.entry;
+    map_release_prev(prev_map);
     if (!entry) {
         return map;
     }
@@ -461,13 +509,15 @@ struct handlebars_value * handlebars_map_find(struct handlebars_map * map, struc
 struct handlebars_map * handlebars_map_update(struct handlebars_map * map, struct handlebars_string * key, struct handlebars_value * value)
 {
     // Rehash
-    map = handlebars_map_rehash(map, false);
+    struct handlebars_map * prev_map;
+    map = map_separate(map, false, &prev_map);
 
     // Update
     struct ht_find_result o = map_find_entry(map, key);
     struct handlebars_map_entry * entry = o.entry;
     if (entry) {
         handlebars_value_value(&entry->value, value);
+        map_release_prev(prev_map);
         return map;
     }
 
@@ -477,6 +527,7 @@ struct handlebars_map * handlebars_map_update(struct handlebars_map * map, struc
     }
 
     map_add_at_table_offset(map, key, value, o.empty_offset);
+    map_release_prev(prev_map);
 
     return map;
 }
@@ -517,32 +568,13 @@ bool handlebars_map_is_sparse(struct handlebars_map * map)
 
 struct handlebars_map * handlebars_map_rehash(struct handlebars_map * map, bool force)
 {
-    if (map->is_in_iteration) { // this go go really wrong
-        return map;
-    }
-
-#ifndef HANDLEBARS_NO_REFCOUNT
-    if (handlebars_rc_refcount(&map->rc) > 1) {
-        force = true;
-    }
-#endif
-
-    if (force || map->vec_offset == map->vec_capacity || handlebars_map_load_factor(map) > HANDLEBARS_MAP_MAX_LOAD_FACTOR) {
-        size_t vec_capacity = 1 << map_choose_vec_capacity_log2(map->i + 1);
-        struct handlebars_map * prev_map = map;
-        map = handlebars_map_copy_ctor(prev_map, vec_capacity);
-#ifndef HANDLEBARS_NO_REFCOUNT
-        if (handlebars_rc_refcount(&prev_map->rc) >= 1) { // ugh
-            handlebars_map_addref(map);
-        }
-#endif
-        handlebars_map_delref(prev_map);
-    }
-
+    struct handlebars_map * prev_map;
+    map = map_separate(map, force, &prev_map);
+    map_release_prev(prev_map);
     return map;
 }
 
-void handlebars_map_sparse_array_compact(struct handlebars_map * map)
+static void map_compact(struct handlebars_map * map)
 {
     // nothing to do
     if (map->i == map->vec_offset) {
@@ -575,6 +607,16 @@ void handlebars_map_sparse_array_compact(struct handlebars_map * map)
     map->vec_offset = vec_offset;
 }
 
+void handlebars_map_sparse_array_compact(struct handlebars_map * map)
+{
+    // the iteration goes by position
+    if (map->is_in_iteration) {
+        return;
+    }
+
+    map_compact(map);
+}
+
 size_t handlebars_map_sparse_array_count(struct handlebars_map * map)
 {
     return map->vec_offset;
@@ -610,6 +652,7 @@ static int map_entry_compare(const void * ptr1, const void * ptr2, void * arg)
 struct handlebars_map * handlebars_map_sort(struct handlebars_map * map, handlebars_map_kv_compare_func compare)
 {
     map = handlebars_map_rehash(map, handlebars_map_is_sparse(map));
+    map_compact(map); // unless rehashed
 
     struct handlebars_map_entry * vec = map_vec(map);
 
@@ -647,6 +690,7 @@ struct handlebars_map * handlebars_map_sort_r(
     const void * arg
 ) {
     map = handlebars_map_rehash(map, handlebars_map_is_sparse(map));
+    map_compact(map); // unless rehashed
 
     struct map_sort_r_arg sort_r_arg = {compare, arg};
 
diff --git a/src/handlebars_map.h b/src/handlebars_map.h
index f76a01d..940c52a 100644
--- a/src/handlebars_map.h
+++ b/src/handlebars_map.h
@@ -302,14 +302,16 @@ struct handlebars_map * handlebars_map_sort_r(
         size_t index = 0; \
         struct handlebars_string * key; \
         struct handlebars_value * value; \
-        bool old_is_in_iteration = handlebars_map_set_is_in_iteration(map, true); \
-        for (; index < handlebars_map_sparse_array_count(map); index++) { \
-            handlebars_map_get_kv_at_index(map, index, &key, &value); \
+        /* modifying a shared map in the loop separates it, what is iterated over stays */ \
+        struct handlebars_map * foreach_map = (map); \
+        bool old_is_in_iteration = handlebars_map_set_is_in_iteration(foreach_map, true); \
+        for (; index < handlebars_map_sparse_array_count(foreach_map); index++) { \
+            handlebars_map_get_kv_at_index(foreach_map, index, &key, &value); \
             if (key == NULL || value == NULL) continue;
 
 #define handlebars_map_foreach_end(map) \
         } \
-        handlebars_map_set_is_in_iteration(map, old_is_in_iteration); \
+        handlebars_map_set_is_in_iteration(foreach_map, old_is_in_iteration); \
     } while(0)
 
 HBS_EXTERN_C_END
diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index 3650f63..4d85588 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -891,12 +891,16 @@ bool handlebars_value_iterator_init(struct handlebars_value_iterator * it, struc
             handlebars_map_sparse_array_compact(value->v.map); // meh
             it->value = value;
             it->index = 0;
-            handlebars_map_get_kv_at_index(value->v.map, it->index, &it->key, &tmp);
-            handlebars_value_value(it->cur, tmp);
-            it->next = &handlebars_value_iterator_next_map;
             // Hold a reference, so that any modification of the map during the iteration separates from it
             it->usr = (void *) value->v.map;
-            handlebars_map_addref(value->v.map);
+            if (handlebars_map_is_sparse(value->v.map)) {
+                // It is already being iterated over
+                it->usr = (void *) handlebars_map_copy_ctor(value->v.map, 0);
+            }
+            handlebars_map_addref((struct handlebars_map *) it->usr);
+            handlebars_map_get_kv_at_index((struct handlebars_map *) it->usr, it->index, &it->key, &tmp);
+            handlebars_value_value(it->cur, tmp);
+            it->next = &handlebars_value_iterator_next_map;
             return true;
 
         case HANDLEBARS_VALUE_TYPE_USER:
-- 
2.43.0


From e5fe9bb03c414aba18c56bf3c018a69cdcd5bd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:20 +0000
Subject: [PATCH 53/90] fix: stack protection survives growing and separating
 and covers all its elements, refused changes change nothing

---
 src/handlebars_stack.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/handlebars_stack.c b/src/handlebars_stack.c
index 5d062e2..65b43fa 100644
--- a/src/handlebars_stack.c
+++ b/src/handlebars_stack.c
@@ -98,6 +98,7 @@ static inline struct handlebars_stack * stack_separate(struct handlebars_stack *
         }
         struct handlebars_stack * prev_stack = stack;
         stack = handlebars_stack_copy_ctor(stack, prev_stack->capacity);
+        stack->protect = prev_stack->protect;
         handlebars_stack_delref(prev_stack);
         handlebars_stack_addref(stack);
     }
@@ -184,6 +185,8 @@ struct handlebars_stack * handlebars_stack_push(struct handlebars_stack * stack,
     assert(stack != NULL);
     assert(value != NULL);
 
+    struct handlebars_stack * full_stack = NULL;
+
     if( stack->capacity > stack->i ) {
         // Separate if refcount > 1
         stack = stack_separate(stack);
@@ -196,9 +199,9 @@ struct handlebars_stack * handlebars_stack_push(struct handlebars_stack * stack,
         }
 
         size_t capacity = (stack->capacity | 3) * 3 / 2;
-        struct handlebars_stack * prev_stack = stack;
-        stack = handlebars_stack_copy_ctor(prev_stack, capacity);
-        handlebars_stack_delref(prev_stack);
+        full_stack = stack;
+        stack = handlebars_stack_copy_ctor(full_stack, capacity);
+        stack->protect = full_stack->protect;
         handlebars_stack_addref(stack);
     }
 
@@ -206,6 +209,11 @@ struct handlebars_stack * handlebars_stack_push(struct handlebars_stack * stack,
     handlebars_value_value(&stack->v[stack->i], value);
     stack->i++;
 
+    // The value may have been one of its elements
+    if (full_stack) {
+        handlebars_stack_delref(full_stack);
+    }
+
     return stack;
 }
 
@@ -222,7 +230,7 @@ struct handlebars_value * handlebars_stack_pop(struct handlebars_stack * stack,
     }
 #endif
 
-    if (stack->i < stack->protect) {
+    if (stack->i <= stack->protect) {
         handlebars_throw(stack->ctx, HANDLEBARS_STACK_OVERFLOW, "Attempting to pop protected stack segment i=%zu protect=%zu", stack->i, stack->protect);
     }
 
@@ -260,9 +268,6 @@ struct handlebars_stack * handlebars_stack_set(struct handlebars_stack * stack,
         return handlebars_stack_push(stack, value);
     }
 
-    // Separate if refcount > 1
-    stack = stack_separate(stack);
-
     // Out-of-bounds
     if( offset >= stack->i ) {
         handlebars_throw(stack->ctx, HANDLEBARS_STACK_OVERFLOW, "Out-of-bounds %zu/%zu", offset, stack->i);
@@ -278,6 +283,9 @@ struct handlebars_stack * handlebars_stack_set(struct handlebars_stack * stack,
         return stack;
     }
 
+    // Separate if refcount > 1
+    stack = stack_separate(stack);
+
     handlebars_value_value(&stack->v[offset], value);
 
     return stack;
-- 
2.43.0


From 4ae7dfe510e191f76ddfc4a9e067b3876575467d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:08 +0000
Subject: [PATCH 54/90] fix: strings of one length and hash were equal whatever
 their bytes

---
 src/handlebars_string.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index 1939b37..9f39259 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -334,7 +334,8 @@ bool handlebars_string_eq(
     if( string1->len != string2->len ) {
         return false;
     } else {
-        return hbs_str_hash(string1) == hbs_str_hash(string2);
+        return hbs_str_hash(string1) == hbs_str_hash(string2)
+            && 0 == memcmp(string1->val, string2->val, string1->len);
     }
 }
 
-- 
2.43.0


From 7f83171b3fb8be82a88f12bc8c7b0a09efbe4f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:09 +0000
Subject: [PATCH 55/90] fix: comparing with or searching for bytes stopped at a
 zero byte, or began before the string

---
 src/handlebars_string.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index 9f39259..eeb1693 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -371,19 +371,21 @@ bool hbs_str_eq_strl(
     if (hbs_str_len(string1) != len2) {
         return false;
     }
-    return 0 == strncmp(hbs_str_val(string1), str2, len2);
+    return 0 == memcmp(hbs_str_val(string1), str2, len2);
 }
 
 const char * handlebars_strnstr(const char * haystack, size_t haystack_len, const char * needle, size_t needle_len)
 {
-    const char * end = haystack + haystack_len - needle_len;
+    const char * end;
 
-    if( !needle_len || !haystack_len ) {
+    if( !needle_len || needle_len > haystack_len ) {
         return NULL;
     }
 
+    end = haystack + haystack_len - needle_len;
+
     for( ; haystack <= end; haystack++ ) {
-        if( haystack[0] == needle[0] && strncmp(haystack, needle, needle_len) == 0 ) {
+        if( haystack[0] == needle[0] && memcmp(haystack, needle, needle_len) == 0 ) {
             return haystack;
         }
     }
-- 
2.43.0


From 87e1267ddd21140d2658843328b3cd5bc2bf7f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:09 +0000
Subject: [PATCH 56/90] fix: the djbx33a hash stopped at a zero byte and read
 beyond the bytes

---
 src/handlebars_string.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index eeb1693..9912ea9 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -101,11 +101,10 @@ uint32_t hbs_str_hash(struct handlebars_string * str) {
 uint32_t handlebars_hash_djbx33a(const char * str, size_t len)
 {
     uint32_t hash = 5381;
-    uint32_t c;
     const unsigned char * ptr = (const unsigned char *) str;
     const unsigned char * end = ptr + len;
-    for (c = *ptr++; ptr <= end && c; c = *ptr++) {
-        hash = ((hash << 5) + hash) + c; /* hash * 33 + c */
+    for (; ptr < end; ptr++) {
+        hash = ((hash << 5) + hash) + *ptr; /* hash * 33 + c */
     }
     return hash;
 }
-- 
2.43.0


From c17f0b7729e3dc16dd49e2e2166f2a6f4039cf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:09 +0000
Subject: [PATCH 57/90] fix: appending a string's own bytes to it read released
 memory

---
 src/handlebars_string.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index 9912ea9..e10948b 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -304,8 +304,13 @@ struct handlebars_string * handlebars_string_append(
     const char * str, size_t len
 ) {
     string = separate_string(string);
+
+    // The bytes to append may be our own, in which case extending moves them
+    const bool is_own = str >= string->val && str <= string->val + string->len;
+    const size_t offset = is_own ? (size_t) (str - string->val) : 0;
+
     string = handlebars_string_extend(context, string, string->len + len);
-    string = handlebars_string_append_unsafe(string, str, len);
+    string = handlebars_string_append_unsafe(string, is_own ? string->val + offset : str, len);
     return string;
 }
 
@@ -700,8 +705,15 @@ struct handlebars_string * handlebars_string_htmlspecialchars_append(
         return handlebars_string_append(context, string, str, len);
     }
 
+    // The bytes to append may be our own, in which case extending moves them
+    const bool is_own = str >= string->val && str <= string->val + string->len;
+    const size_t offset = is_own ? (size_t) (str - string->val) : 0;
+
     // Realloc original buffer
     string = handlebars_string_extend(context, string, string->len + new_len);
+    if (is_own) {
+        str = string->val + offset;
+    }
 
     // Copy
     for( p = str, end = str + len; p < end; p++ ) {
-- 
2.43.0


From 7ccb522f177031a8aecf5aed0c1f44d05f3ebf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:09 +0000
Subject: [PATCH 58/90] fix: compacting a large string lost its type, and it
 could not be released

---
 src/handlebars_string.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index e10948b..f8e12cb 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -326,7 +326,11 @@ struct handlebars_string * handlebars_string_compact(struct handlebars_string *
     size_t size = HBS_STR_SIZE(string->len);
     if( talloc_get_size(string) > size ) {
         string = separate_string(string);
-        string = (struct handlebars_string *) handlebars_talloc_realloc_size(NULL, string, size);
+        struct handlebars_string * compacted = (struct handlebars_string *) handlebars_talloc_realloc_size(NULL, string, size);
+        if (compacted != NULL) { // otherwise keep the larger buffer
+            string = compacted;
+            talloc_set_type(string, struct handlebars_string);
+        }
     }
     return string;
 }
-- 
2.43.0


From 5dc32f3537d8d3b1fd6eaf9c48ee8c2ba1d9f647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:09 +0000
Subject: [PATCH 59/90] fix: truncating or trimming beyond the end or at zero
 bytes, and a stale hash after trimming

---
 src/handlebars_string.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index f8e12cb..1891250 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -360,7 +360,9 @@ struct handlebars_string * handlebars_string_truncate(
     }
 
     // Truncate left
-    if (start > 0) {
+    if (start >= string->len) {
+        string->len = 0;
+    } else if (start > 0) {
         memmove(string->val, string->val + start, string->len - start);
         string->len -= start;
     }
@@ -844,13 +846,14 @@ struct handlebars_string * handlebars_string_ltrim(struct handlebars_string * st
     }
 
     ptr = string->val;
-    while( *ptr && flags[(unsigned char) *ptr] ) {
+    while( string->len > 0 && flags[(unsigned char) *ptr] ) {
         ++ptr;
         --string->len;
     }
 
     if( ptr > string->val ) {
         memmove(string->val, ptr, string->len + 1);
+        string->hash = 0;
     }
 
     return string;
@@ -880,6 +883,7 @@ struct handlebars_string * handlebars_string_rtrim(struct handlebars_string * st
     while( original > string->val && flags[(unsigned char) *--original] ) {
         --string->len;
         *original = '\0';
+        string->hash = 0;
     }
 
     return string;
-- 
2.43.0


From abd499d22090a9de7ebfc632b955c3476fa25910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:09 +0000
Subject: [PATCH 60/90] fix: replacing in place and unescaping wrote to the
 shared string

---
 src/handlebars_string.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index 1891250..d68876f 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -408,13 +408,14 @@ struct handlebars_string * handlebars_str_reduce(
     const char * search, size_t search_len,
     const char * replacement, size_t replacement_len
 ) {
-    char * tok = string->val;
+    char * tok;
 
     if( replacement_len > search_len || search_len <= 0 || string->len <= 0 ) {
         return string;
     }
 
     string = separate_string(string);
+    tok = string->val;
 
     while( NULL != (tok = (char *) handlebars_strnstr(tok, string->len - (tok - string->val), search, search_len)) ) {
         memmove(tok, replacement, replacement_len);
@@ -523,14 +524,17 @@ struct handlebars_string * handlebars_string_addcslashes(struct handlebars_conte
 
 struct handlebars_string * handlebars_string_stripcslashes(struct handlebars_string * string)
 {
-    char * source = string->val;
-    char * target = string->val;
-    char * end = string->val + string->len;
+    char * source;
+    char * target;
+    char * end;
     size_t nlen = string->len;
     size_t i;
     char numtmp[4];
 
     string = separate_string(string);
+    source = string->val;
+    target = string->val;
+    end = string->val + string->len;
 
     for( ; source < end; source++ ) {
         if( *source == '\\' && source + 1 < end ) {
@@ -545,9 +549,9 @@ struct handlebars_string * handlebars_string_stripcslashes(struct handlebars_str
                 case 'f':  *target++='\f'; nlen--; break;
                 case '\\': *target++='\\'; nlen--; break;
                 case 'x':
-                    if( source+1 < end && isxdigit((int)(*(source+1))) ) {
+                    if( source+1 < end && isxdigit((unsigned char) *(source+1)) ) {
                         numtmp[0] = *++source;
-                        if( source+1 < end && isxdigit((int)(*(source+1))) ) {
+                        if( source+1 < end && isxdigit((unsigned char) *(source+1)) ) {
                             numtmp[1] = *++source;
                             numtmp[2] = '\0';
                             nlen -= 3;
-- 
2.43.0


From ba1dde5c336057800cf6565193da163919567702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:09 +0000
Subject: [PATCH 61/90] fix: replace with nothing to do gave its argument
 instead of a new string

---
 src/handlebars_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index d68876f..1c61d7e 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -445,7 +445,7 @@ struct handlebars_string * handlebars_str_replace(
     const char * last_tok = string->val;
 
     if( search_len <= 0 || string->len <= 0 ) {
-        return (struct handlebars_string *) string;
+        return handlebars_string_copy_ctor(context, string);
     }
 
     struct handlebars_string *new_string = handlebars_string_init(context, string->len * 4 + 1);
-- 
2.43.0


From bb4b22ad263536c73bbf45acf2756793634395cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:25 +0000
Subject: [PATCH 62/90] fix: a string beginning with 0 and a zero byte counted
 as false

---
 src/handlebars_value.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index 4d85588..56825a6 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -247,7 +247,7 @@ bool handlebars_value_get_boolval(struct handlebars_value * value)
         case HANDLEBARS_VALUE_TYPE_INTEGER:
             return value->v.lval != 0;
         case HANDLEBARS_VALUE_TYPE_STRING:
-            return hbs_str_len(value->v.string) != 0 && strcmp(hbs_str_val(value->v.string), "0") != 0;
+            return hbs_str_len(value->v.string) != 0 && !hbs_str_eq_strl(value->v.string, HBS_STRL("0"));
         case HANDLEBARS_VALUE_TYPE_ARRAY:
             return handlebars_stack_count(value->v.stack) != 0;
         case HANDLEBARS_VALUE_TYPE_MAP:
-- 
2.43.0


From 9153c2fa9e7651490681ea6f62f6c0c9a749322f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:04 +0000
Subject: [PATCH 63/90] fix: a JSON null counted as missing and left the old
 value, an index beyond 2^32 and a key with a zero byte were found, an empty
 JSON array yielded an element and JSON maps iterated without index

---
 src/handlebars_json.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/handlebars_json.c b/src/handlebars_json.c
index d0f6ce7..664102b 100644
--- a/src/handlebars_json.c
+++ b/src/handlebars_json.c
@@ -145,8 +145,12 @@ static enum handlebars_value_type hbs_json_type(struct handlebars_value * value)
 static struct handlebars_value * hbs_json_map_find(struct handlebars_value * value, struct handlebars_string * key, struct handlebars_value * rv)
 {
     struct handlebars_json * intern = GET_INTERN_V(value);
-    struct json_object * item = json_object_object_get(intern->object, hbs_str_val(key));
-    if( item == NULL ) {
+    struct json_object * item = NULL;
+    if( strlen(hbs_str_val(key)) != hbs_str_len(key) ) {
+        // Keys end at the first zero byte in json-c
+        return NULL;
+    }
+    if( !json_object_object_get_ex(intern->object, hbs_str_val(key), &item) ) {
         return NULL;
     }
     handlebars_value_init_json_object(intern->user.ctx, rv, item);
@@ -156,10 +160,10 @@ static struct handlebars_value * hbs_json_map_find(struct handlebars_value * val
 static struct handlebars_value * hbs_json_array_find(struct handlebars_value * value, size_t index, struct handlebars_value * rv)
 {
     struct handlebars_json * intern = GET_INTERN_V(value);
-    struct json_object * item = json_object_array_get_idx(intern->object, (int) index);
-    if( item == NULL ) {
+    if( index >= (size_t) json_object_array_length(intern->object) ) {
         return NULL;
     }
+    struct json_object * item = json_object_array_get_idx(intern->object, index);
     handlebars_value_init_json_object(intern->user.ctx, rv, item);
     return rv;
 }
@@ -189,6 +193,7 @@ static bool hbs_json_iterator_next_object(struct handlebars_value_iterator * it)
     }
 
     it->usr = (void *) (entry = entry->next);
+    it->index++;
     tmp = (char *) entry->k;
     it->key = handlebars_string_ctor(intern->user.ctx, tmp, strlen(tmp));
     handlebars_value_null(it->cur);
@@ -241,8 +246,12 @@ static bool hbs_json_iterator_init(struct handlebars_value_iterator * it, struct
         }
 
         case json_type_array:
+            if( json_object_array_length(intern->object) <= 0 ) {
+                it->next = &hbs_json_iterator_next_void;
+                return false;
+            }
             it->index = 0;
-            handlebars_value_init_json_object(intern->user.ctx, it->cur, json_object_array_get_idx(intern->object, (int) it->index));
+            handlebars_value_init_json_object(intern->user.ctx, it->cur, json_object_array_get_idx(intern->object, it->index));
             it->next = &hbs_json_iterator_next_array;
             return true;
 
@@ -287,7 +296,7 @@ void handlebars_value_init_json_object(struct handlebars_context * ctx, struct h
 
     switch( json_object_get_type(json) ) {
         case json_type_null:
-            // do nothing
+            handlebars_value_null(value);
             break;
         case json_type_boolean:
             handlebars_value_boolean(value, json_object_get_boolean(json));
-- 
2.43.0


From 79de22653e2843ae2d410cf7a810a4918291ae0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:20 +0000
Subject: [PATCH 64/90] fix: changing or overwriting a value while iterating
 over it read released memory

---
 src/handlebars_value.c | 63 ++++++++++++++++++++++++------------------
 src/handlebars_value.h |  8 +++---
 2 files changed, 40 insertions(+), 31 deletions(-)

diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index 56825a6..1870384 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -829,32 +829,29 @@ static bool handlebars_value_iterator_next_void(struct handlebars_value_iterator
 
 static bool handlebars_value_iterator_next_stack(struct handlebars_value_iterator * it)
 {
-    struct handlebars_value * value = it->value;
+    struct handlebars_stack * stack = it->value->v.stack;
 
-    assert(value != NULL);
-    assert(value->type == HANDLEBARS_VALUE_TYPE_ARRAY);
+    assert(it->value->type == HANDLEBARS_VALUE_TYPE_ARRAY);
 
-    if( it->index >= handlebars_stack_count(value->v.stack) - 1 ) {
+    if( it->index + 1 >= handlebars_stack_count(stack) ) {
         handlebars_value_dtor(it->cur);
         return false;
     }
 
     it->index++;
-    handlebars_value_value(it->cur, handlebars_stack_get(value->v.stack, it->index));
+    handlebars_value_value(it->cur, handlebars_stack_get(stack, it->index));
     return true;
 }
 
 static bool handlebars_value_iterator_next_map(struct handlebars_value_iterator * it)
 {
-    struct handlebars_map * map = (struct handlebars_map *) it->usr;
+    struct handlebars_map * map = it->value->v.map;
     struct handlebars_value * tmp;
 
-    assert(map != NULL);
+    assert(it->value->type == HANDLEBARS_VALUE_TYPE_MAP);
 
-    if( it->index >= handlebars_map_count(map) - 1 ) {
+    if( it->index + 1 >= handlebars_map_count(map) ) {
         handlebars_value_dtor(it->cur);
-        handlebars_map_delref(map);
-        it->usr = NULL;
         return false;
     }
 
@@ -864,20 +861,15 @@ static bool handlebars_value_iterator_next_map(struct handlebars_value_iterator
     return true;
 }
 
-bool handlebars_value_iterator_init(struct handlebars_value_iterator * it, struct handlebars_value * value)
+static bool value_iterator_init(struct handlebars_value_iterator * it, struct handlebars_value * value)
 {
     struct handlebars_value * tmp;
 
-    memset(it, 0, HANDLEBARS_VALUE_ITERATOR_SIZE + HANDLEBARS_VALUE_SIZE);
-    it->cur = (struct handlebars_value *) (void *) (((char *) it) + HANDLEBARS_VALUE_ITERATOR_SIZE);
-
     switch( value->type ) {
         case HANDLEBARS_VALUE_TYPE_ARRAY:
             if (handlebars_stack_count(value->v.stack) <= 0) {
-                it->next = &handlebars_value_iterator_next_void;
                 return false;
             }
-            it->value = value;
             it->index = 0;
             handlebars_value_value(it->cur, handlebars_stack_get(value->v.stack, it->index));
             it->next = &handlebars_value_iterator_next_stack;
@@ -885,20 +877,15 @@ bool handlebars_value_iterator_init(struct handlebars_value_iterator * it, struc
 
         case HANDLEBARS_VALUE_TYPE_MAP:
             if (handlebars_map_count(value->v.map) <= 0) {
-                it->next = &handlebars_value_iterator_next_void;
                 return false;
             }
             handlebars_map_sparse_array_compact(value->v.map); // meh
-            it->value = value;
             it->index = 0;
-            // Hold a reference, so that any modification of the map during the iteration separates from it
-            it->usr = (void *) value->v.map;
             if (handlebars_map_is_sparse(value->v.map)) {
                 // It is already being iterated over
-                it->usr = (void *) handlebars_map_copy_ctor(value->v.map, 0);
+                handlebars_value_map(value, handlebars_map_copy_ctor(value->v.map, 0));
             }
-            handlebars_map_addref((struct handlebars_map *) it->usr);
-            handlebars_map_get_kv_at_index((struct handlebars_map *) it->usr, it->index, &it->key, &tmp);
+            handlebars_map_get_kv_at_index(value->v.map, it->index, &it->key, &tmp);
             handlebars_value_value(it->cur, tmp);
             it->next = &handlebars_value_iterator_next_map;
             return true;
@@ -907,18 +894,40 @@ bool handlebars_value_iterator_init(struct handlebars_value_iterator * it, struc
             return handlebars_value_get_handlers(value)->iterator(it, value);
 
         default:
-            it->next = &handlebars_value_iterator_next_void;
-            break;
+            return false;
     }
+}
 
-    return false;
+bool handlebars_value_iterator_init(struct handlebars_value_iterator * it, struct handlebars_value * value)
+{
+    memset(it, 0, HANDLEBARS_VALUE_ITERATOR_SIZE + 2 * HANDLEBARS_VALUE_SIZE);
+    it->cur = (struct handlebars_value *) (void *) (((char *) it) + HANDLEBARS_VALUE_ITERATOR_SIZE);
+    it->next = &handlebars_value_iterator_next_void;
+
+    // Hold a reference, so that any modification of the value during the iteration separates from it
+    it->value = (struct handlebars_value *) (void *) (((char *) it->cur) + HANDLEBARS_VALUE_SIZE);
+    handlebars_value_value(it->value, value);
+
+    if( !value_iterator_init(it, it->value) ) {
+        handlebars_value_dtor(it->value);
+        return false;
+    }
+
+    return true;
 }
 
 bool handlebars_value_iterator_next(
     struct handlebars_value_iterator * it
 ) {
     assert(it->next != NULL);
-    return it->next(it);
+
+    if( !it->next(it) ) {
+        handlebars_value_dtor(it->value);
+        it->next = &handlebars_value_iterator_next_void;
+        return false;
+    }
+
+    return true;
 };
 
 // }}} Iteration
diff --git a/src/handlebars_value.h b/src/handlebars_value.h
index dcf77aa..eb96597 100644
--- a/src/handlebars_value.h
+++ b/src/handlebars_value.h
@@ -57,7 +57,7 @@ struct handlebars_value_iterator
     //! The current map index. Unused for array
     struct handlebars_string * key;
 
-    //! The element being iterated over
+    //! The element being iterated over, a copy that lasts as long as the iteration
     struct handlebars_value * value;
 
     //! The current child element
@@ -532,17 +532,17 @@ const char * handlebars_value_type_readable(enum handlebars_value_type type)
 #if defined(HANDLEBARS_VALUE_ITERATOR_SIZE) && defined(HANDLEBARS_VALUE_SIZE)
 // We know the size at compile-time
 #define HANDLEBARS_VALUE_ITERATOR_DECL(name) \
-    struct { struct handlebars_value_iterator it; struct handlebars_value value; } mem_ ## name; \
+    struct { struct handlebars_value_iterator it; struct handlebars_value values[2]; } mem_ ## name; \
     struct handlebars_value_iterator * name = (void *) &mem_ ## name
 #elif !defined(__STDC_NO_VLA__)
 // Use a char vla
 #define HANDLEBARS_VALUE_ITERATOR_DECL(name) \
-    char mem_ ## name[HANDLEBARS_VALUE_ITERATOR_SIZE + HANDLEBARS_VALUE_SIZE]; \
+    char mem_ ## name[HANDLEBARS_VALUE_ITERATOR_SIZE + 2 * HANDLEBARS_VALUE_SIZE]; \
     struct handlebars_value_iterator * name = (void *) mem_ ## name;
 #else
 // Use alloca
 #define HANDLEBARS_VALUE_ITERATOR_DECL(name) \
-    struct handlebars_value_iterator * name = alloca(HANDLEBARS_VALUE_ITERATOR_SIZE + HANDLEBARS_VALUE_SIZE);
+    struct handlebars_value_iterator * name = alloca(HANDLEBARS_VALUE_ITERATOR_SIZE + 2 * HANDLEBARS_VALUE_SIZE);
 #endif
 
 #define HANDLEBARS_VALUE_FOREACH(value, v) \
-- 
2.43.0


From 2dccbc7698b6549729ef9ced8f114b84844808ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:26 +0000
Subject: [PATCH 65/90] fix: an array or map put into itself became part of
 itself

---
 src/handlebars_value.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index 1870384..0e2b1b4 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -605,13 +605,21 @@ long handlebars_value_count(struct handlebars_value * value)
 void handlebars_value_array_set(struct handlebars_value * value, size_t index, struct handlebars_value * child)
 {
     assert(value->type == HANDLEBARS_VALUE_TYPE_ARRAY);
-    value->v.stack = handlebars_stack_set(value->v.stack, index, child);
+    // The child may be the array itself: with a second reference it is not changed, but separated from
+    HANDLEBARS_VALUE_DECL(tmp);
+    handlebars_value_value(tmp, child);
+    value->v.stack = handlebars_stack_set(value->v.stack, index, tmp);
+    HANDLEBARS_VALUE_UNDECL(tmp);
 }
 
 void handlebars_value_array_push(struct handlebars_value * value, struct handlebars_value * child)
 {
     assert(value->type == HANDLEBARS_VALUE_TYPE_ARRAY);
-    value->v.stack = handlebars_stack_push(value->v.stack, child);
+    // The child may be the array itself: with a second reference it is not changed, but separated from
+    HANDLEBARS_VALUE_DECL(tmp);
+    handlebars_value_value(tmp, child);
+    value->v.stack = handlebars_stack_push(value->v.stack, tmp);
+    HANDLEBARS_VALUE_UNDECL(tmp);
 }
 
 struct handlebars_value * handlebars_value_array_find(
@@ -689,7 +697,11 @@ void handlebars_value_map_update(struct handlebars_value * value, struct handleb
         abort();
     }
 
-    value->v.map = handlebars_map_update(value->v.map, key, child);
+    // The child may be the map itself: with a second reference it is not changed, but separated from
+    HANDLEBARS_VALUE_DECL(tmp);
+    handlebars_value_value(tmp, child);
+    value->v.map = handlebars_map_update(value->v.map, key, tmp);
+    HANDLEBARS_VALUE_UNDECL(tmp);
 }
 
 // }}} Map
-- 
2.43.0


From 858b85a3951325afeccbe943f5797b4c2f079407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:46 +0000
Subject: [PATCH 66/90] fix: converting a native map or array converted copies
 of its elements

---
 src/handlebars_value.c | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index 0e2b1b4..4d6e521 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -302,6 +302,24 @@ struct handlebars_string * handlebars_value_to_string(
     }
 }
 
+static bool value_is_convertible(struct handlebars_value * value)
+{
+    bool result = false;
+
+    switch( value->type ) {
+        case HANDLEBARS_VALUE_TYPE_USER:
+            return handlebars_value_get_handlers(value)->convert != NULL;
+        case HANDLEBARS_VALUE_TYPE_MAP:
+        case HANDLEBARS_VALUE_TYPE_ARRAY:
+            HANDLEBARS_VALUE_FOREACH(value, child) {
+                result = result || value_is_convertible(child);
+            } HANDLEBARS_VALUE_FOREACH_END();
+            return result;
+        default:
+            return false;
+    }
+}
+
 void handlebars_value_convert_ex(struct handlebars_value * value, bool recurse)
 {
     switch( value->type ) {
@@ -311,9 +329,19 @@ void handlebars_value_convert_ex(struct handlebars_value * value, bool recurse)
             }
             break;
         case HANDLEBARS_VALUE_TYPE_MAP:
+            HANDLEBARS_VALUE_FOREACH_KV(value, key, child) {
+                if (value_is_convertible(child)) {
+                    handlebars_value_convert_ex(child, recurse);
+                    handlebars_value_map_update(value, key, child);
+                }
+            } HANDLEBARS_VALUE_FOREACH_END();
+            break;
         case HANDLEBARS_VALUE_TYPE_ARRAY:
-            HANDLEBARS_VALUE_FOREACH(value, child) {
-                handlebars_value_convert_ex(child, recurse);
+            HANDLEBARS_VALUE_FOREACH_IDX(value, index, child) {
+                if (value_is_convertible(child)) {
+                    handlebars_value_convert_ex(child, recurse);
+                    handlebars_value_array_set(value, index, child);
+                }
             } HANDLEBARS_VALUE_FOREACH_END();
             break;
         default:
-- 
2.43.0


From 2fc9c9a1280fff2e8fe9d74e01421203ce73cb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:28 +0000
Subject: [PATCH 67/90] fix: simple cache: collection and reset freed modules
 in use, adding a key again failed, keys belonged to the caller

---
 src/handlebars_cache.h        |  2 +-
 src/handlebars_cache_simple.c | 96 +++++++++++++++++++++++++++--------
 2 files changed, 76 insertions(+), 22 deletions(-)

diff --git a/src/handlebars_cache.h b/src/handlebars_cache.h
index e56d74a..a2f3d08 100644
--- a/src/handlebars_cache.h
+++ b/src/handlebars_cache.h
@@ -98,7 +98,7 @@ struct handlebars_module * handlebars_cache_find(
 ) HBS_ATTR_NONNULL_ALL HBS_ATTR_WARN_UNUSED_RESULT;
 
 /**
- * @brief Add a program to the cache. Adding the same key twice is an error.
+ * @brief Add a program to the cache. Adding a key again replaces the previous program.
  * @param[in] cache The cache
  * @param[in] key The cache key. Can be a filename, actual template, or arbitrary string
  * @param[in] program The program
diff --git a/src/handlebars_cache_simple.c b/src/handlebars_cache_simple.c
index 838d1c9..72dfc03 100644
--- a/src/handlebars_cache_simple.c
+++ b/src/handlebars_cache_simple.c
@@ -43,6 +43,22 @@ struct handlebars_cache_simple {
     struct handlebars_cache_stat stat;
 };
 
+struct simple_entry {
+    struct handlebars_module * module;
+
+    //! The size it was counted with
+    size_t size;
+
+    //! The number of finds not released yet
+    size_t refcount;
+
+    //! Whether it is no longer in the map
+    bool dropped;
+};
+
+#undef CONTEXT
+#define CONTEXT HBSCTX(cache)
+
 static inline bool should_gc(struct handlebars_cache * cache)
 {
     struct handlebars_cache_simple * intern = (struct handlebars_cache_simple *) cache->internal;
@@ -61,6 +77,13 @@ static inline bool should_gc_entry(struct handlebars_cache * cache, struct handl
     return should_gc(cache);
 }
 
+static struct simple_entry * get_entry(struct handlebars_value * value)
+{
+    struct simple_entry * entry = handlebars_value_get_ptr(value, struct simple_entry);
+    assert(entry != NULL);
+    return entry;
+}
+
 static int cache_compare(const struct handlebars_map_kv_pair * pair1, const struct handlebars_map_kv_pair * pair2)
 {
     double delta;
@@ -70,21 +93,26 @@ static int cache_compare(const struct handlebars_map_kv_pair * pair1, const stru
     assert(pair1->value != NULL);
     assert(pair2->value != NULL);
 
-    struct handlebars_module * entry1 = handlebars_value_get_ptr(pair1->value, struct handlebars_module);
-    struct handlebars_module * entry2 = handlebars_value_get_ptr(pair2->value, struct handlebars_module);
-
-    assert(entry1 != NULL);
-    assert(entry2 != NULL);
-
-    delta = difftime(entry1->ts, entry2->ts);
+    delta = difftime(get_entry(pair1->value)->module->ts, get_entry(pair2->value)->module->ts);
     return (delta > 0) - (delta < 0);
 }
 
+// The entry is no longer in the map. A module that is in use is freed when it is released.
+static void entry_drop(struct handlebars_cache_simple * intern, struct simple_entry * entry)
+{
+    intern->stat.current_entries--;
+    intern->stat.current_size -= entry->size;
+    if( entry->refcount > 0 ) {
+        entry->dropped = true;
+    } else {
+        handlebars_talloc_free(entry);
+    }
+}
+
 static int cache_gc(struct handlebars_cache * cache)
 {
     struct handlebars_cache_simple * intern = (struct handlebars_cache_simple *) cache->internal;
     struct handlebars_map * map = intern->map;
-    struct handlebars_cache_stat * stat = &intern->stat;
     int removed = 0;
     size_t i = 0;
     time_t now;
@@ -97,12 +125,11 @@ static int cache_gc(struct handlebars_cache * cache)
     intern->map = map = handlebars_map_sort(map, cache_compare);
 
     handlebars_map_foreach(map, index, key, value) {
-        struct handlebars_module * module = handlebars_value_get_ptr(value, struct handlebars_module);
-        if( should_gc_entry(cache, module, now) ) {
+        struct simple_entry * entry = get_entry(value);
+        if( should_gc_entry(cache, entry->module, now) ) {
             handlebars_string_addref(key);
             remove_keys[remove_keys_i++] = key;
-            stat->current_entries--;
-            stat->current_size -= module->size;
+            entry_drop(intern, entry);
             removed++;
         } else {
             break;
@@ -131,11 +158,12 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
     struct handlebars_value * value = handlebars_map_find(map, tmpl);
     struct handlebars_module * module = NULL;
     if( value ) {
-        // module = (struct handlebars_module *) value->v.ptr;
-        module = handlebars_value_get_ptr(value, struct handlebars_module);
-        assert(handlebars_value_get_type(value) == HANDLEBARS_VALUE_TYPE_PTR);
+        struct simple_entry * entry = get_entry(value);
+        module = entry->module;
         assert(talloc_get_type_abort(module, struct handlebars_module) != NULL);
         time(&module->ts);
+        entry->refcount++;
+        intern->stat.refcount++;
         intern->stat.hits++;
     } else {
         intern->stat.misses++;
@@ -147,6 +175,7 @@ static void cache_add(struct handlebars_cache * cache, struct handlebars_string
 {
     struct handlebars_cache_simple * intern = (struct handlebars_cache_simple *) cache->internal;
     struct handlebars_cache_stat * stat = &intern->stat;
+    struct handlebars_value * previous;
     HANDLEBARS_VALUE_DECL(value);
 
     // Check if it would exceed the size
@@ -156,22 +185,39 @@ static void cache_add(struct handlebars_cache * cache, struct handlebars_string
 
     time(&module->ts);
 
-    module = talloc_steal(cache, module);
-    struct handlebars_ptr * uptr = handlebars_ptr_ctor(HBSCTX(cache), struct handlebars_module, module, false);
+    struct simple_entry * entry = MC(handlebars_talloc_zero(HBSCTX(cache), struct simple_entry));
+    entry->module = talloc_steal(entry, module);
+    entry->size = module->size;
+    struct handlebars_ptr * uptr = handlebars_ptr_ctor(HBSCTX(cache), struct simple_entry, entry, true);
     handlebars_value_ptr(value, uptr);
 
-    intern->map = handlebars_map_add(intern->map, tmpl, value);
+    // The latest entry replaces the previous one, if any
+    previous = handlebars_map_find(intern->map, tmpl);
+    if( previous ) {
+        struct simple_entry * previous_entry = get_entry(previous);
+        intern->map = handlebars_map_update(intern->map, tmpl, value);
+        entry_drop(intern, previous_entry);
+    } else {
+        // The cache may live longer than the key it was given
+        intern->map = handlebars_map_add(intern->map, handlebars_string_copy_ctor(HBSCTX(cache), tmpl), value);
+    }
 
     // Update master
     stat->current_entries++;
-    stat->current_size += module->size;
+    stat->current_size += entry->size;
 
     HANDLEBARS_VALUE_UNDECL(value);
 }
 
 static void cache_release(struct handlebars_cache * cache, struct handlebars_string * tmpl, struct handlebars_module * module)
 {
-    ;
+    struct handlebars_cache_simple * intern = (struct handlebars_cache_simple *) cache->internal;
+    struct simple_entry * entry = talloc_get_type_abort(talloc_parent(module), struct simple_entry);
+    assert(entry->refcount > 0);
+    intern->stat.refcount--;
+    if( --entry->refcount == 0 && entry->dropped ) {
+        handlebars_talloc_free(entry);
+    }
 }
 
 static struct handlebars_cache_stat cache_stat(struct handlebars_cache * cache)
@@ -186,10 +232,18 @@ static struct handlebars_cache_stat cache_stat(struct handlebars_cache * cache)
 static void cache_reset(struct handlebars_cache * cache)
 {
     struct handlebars_cache_simple * intern = (struct handlebars_cache_simple *) cache->internal;
-    handlebars_talloc_free(intern->map);
+    struct handlebars_map * map = intern->map;
+    size_t refcount = intern->stat.refcount;
+
     intern->map = handlebars_map_ctor(HBSCTX(cache), 32);
 
+    handlebars_map_foreach(map, index, key, value) {
+        entry_drop(intern, get_entry(value));
+    } handlebars_map_foreach_end(map);
+    handlebars_map_delref(map);
+
     memset(&intern->stat, 0, sizeof(intern->stat));
+    intern->stat.refcount = refcount;
 }
 
 #undef CONTEXT
-- 
2.43.0


From 59fd7525712fa4f6b281a182becb9952dde2ca1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:39 +0000
Subject: [PATCH 68/90] fix: shared memory cache: lookups raced with resets,
 stale entries were returned, adding a key again was ignored, sizes were not
 checked

---
 src/handlebars_cache_mmap.c | 240 +++++++++++++++++++-----------------
 1 file changed, 128 insertions(+), 112 deletions(-)

diff --git a/src/handlebars_cache_mmap.c b/src/handlebars_cache_mmap.c
index 5f5b5ae..5f807d5 100644
--- a/src/handlebars_cache_mmap.c
+++ b/src/handlebars_cache_mmap.c
@@ -47,10 +47,6 @@
 #undef CONTEXT
 #define CONTEXT HBSCTX(cache)
 
-#if defined(__ATOMIC_SEQ_CST) && !defined(INTELLIJ)
-#define HAVE_ATOMIC_BUILTINS 1
-#endif
-
 #if !defined(MAP_ANONYMOUS) && defined(MAP_ANON)
 #define MAP_ANONYMOUS MAP_ANON
 #endif
@@ -59,16 +55,6 @@
 #define USE_SPINLOCK 1
 #endif
 
-#ifdef HAVE_ATOMIC_BUILTINS
-#define INCR(var) __atomic_add_fetch(&var, 1, __ATOMIC_SEQ_CST)
-#define DECR(var) __atomic_sub_fetch(&var, 1, __ATOMIC_SEQ_CST)
-#else
-#define INCR(var) lock(cache); var++; unlock(cache)
-#define DECR(var) lock(cache); var--; unlock(cache)
-#endif
-
-
-
 static const char head[] = "handlebars shared opcode cache";
 static const size_t PADDING = 1;
 static size_t page_size;
@@ -113,7 +99,8 @@ struct handlebars_cache_mmap {
 
     size_t collisions;
 
-    bool in_reset;
+    //! The number of resets waiting for the modules in use to be released
+    int in_reset;
 
 #ifdef USE_SPINLOCK
     pthread_spinlock_t write_lock;
@@ -121,9 +108,13 @@ struct handlebars_cache_mmap {
     pthread_mutex_t write_lock;
 #endif
 
+    //! The number of modules in use
     long refcount;
 };
 
+// Everything but the constant fields of the header is only accessed while holding the lock: entries
+// can be found, replaced and reset by several threads and processes at once
+
 struct table_entry {
     //! The offset from the beginning of the memory block at which the key for the entry resides
     struct handlebars_string * key;
@@ -148,14 +139,11 @@ static inline void * append(struct handlebars_cache_mmap * intern, void * source
     return addr;
 }
 
-static inline void protect(struct handlebars_cache * cache, bool on)
+static inline int protect(struct handlebars_cache * cache, bool on)
 {
     struct handlebars_cache_mmap * intern = (struct handlebars_cache_mmap *) cache->internal;
     int prot = on ? PROT_READ : PROT_READ | PROT_WRITE;
-    int rc = mprotect(intern->table, intern->table_size + intern->data_size, prot);
-    if( rc != 0 ) {
-        handlebars_throw(HBSCTX(cache), HANDLEBARS_ERROR, "mprotect error: %s (%d)", strerror(rc), rc);
-    }
+    return mprotect(intern->table, intern->table_size + intern->data_size, prot);
 }
 
 static inline void lock(struct handlebars_cache * cache)
@@ -190,6 +178,25 @@ static inline void unlock(struct handlebars_cache * cache)
     }
 }
 
+// Lock and make writeable
+static inline void lock_write(struct handlebars_cache * cache)
+{
+    lock(cache);
+    if( protect(cache, false) != 0 ) {
+        int err = errno;
+        unlock(cache);
+        handlebars_throw(HBSCTX(cache), HANDLEBARS_ERROR, "mprotect error: %s (%d)", strerror(err), err);
+    }
+}
+
+// Make read-only and unlock
+static inline void unlock_write(struct handlebars_cache * cache)
+{
+    // Failing to is harmless
+    protect(cache, true);
+    unlock(cache);
+}
+
 static inline struct table_entry * table_find(struct handlebars_cache_mmap * intern, struct handlebars_string * string)
 {
     uint32_t offset = hbs_str_hash(string) % intern->table_count;
@@ -199,11 +206,7 @@ static inline struct table_entry * table_find(struct handlebars_cache_mmap * int
 static inline void table_set(struct handlebars_cache_mmap * intern, struct table_entry * entry)
 {
     uint32_t offset = hbs_str_hash(entry->key) % intern->table_count;
-    if( entry == NULL ) {
-        intern->table[offset] = NULL;
-    } else {
-        intern->table[offset] = append(intern, entry, sizeof(struct table_entry));
-    }
+    intern->table[offset] = entry;
 }
 
 static inline void table_unset(struct handlebars_cache_mmap * intern, struct handlebars_string * string)
@@ -228,102 +231,105 @@ static void cache_reset(struct handlebars_cache * cache)
 {
     struct handlebars_cache_mmap * intern = (struct handlebars_cache_mmap *) cache->internal;
 
-    // Lock
-    intern->in_reset = true;
-
-    // Try to wait for refcount to empty
-#ifdef HAVE_ATOMIC_BUILTINS
     int counter = 0;
-    while( __atomic_load_n(&intern->refcount, __ATOMIC_SEQ_CST) > 0 && ++counter <= 100 ) {
-        usleep(5000);
-    }
-    if( __atomic_load_n(&intern->refcount, __ATOMIC_SEQ_CST) > 0 ) {
-        goto error;
-    }
-#else
-    if (intern->refcount > 0) {
-        goto error;
-    }
-#endif
 
-    // Unprotect/Lock
+    // Try to wait for refcount to empty. Nothing is found or added meanwhile.
     lock(cache);
-    protect(cache, false);
+    intern->in_reset++;
+    while( intern->refcount > 0 && ++counter <= 100 ) {
+        unlock(cache);
+        usleep(5000);
+        lock(cache);
+    }
+    intern->in_reset--;
 
-    // Initialize header
-    intern->table_entries = 0;
-    intern->data_length = 0;
+    if( intern->refcount <= 0 && protect(cache, false) == 0 ) {
+        // Initialize header
+        intern->table_entries = 0;
+        intern->data_length = 0;
 
-    // Zero out the hash table
-    memset(intern->table, 0, intern->table_size);
+        // Zero out the hash table
+        memset(intern->table, 0, intern->table_size);
+    }
 
-    // Protect/Unlock
-    protect(cache, true);
-    unlock(cache);
+    unlock_write(cache);
+}
 
-error:
-    // Unlock
-    intern->in_reset = false;
+static inline bool is_stale(struct handlebars_cache * cache, struct handlebars_module * module, time_t now)
+{
+    return module->version != handlebars_version() || (cache->max_age >= 0 && difftime(now, module->ts) >= cache->max_age);
 }
 
 static int cache_gc(struct handlebars_cache * cache)
 {
-    return 0;
-}
+    struct handlebars_cache_mmap * intern = (struct handlebars_cache_mmap *) cache->internal;
+    int removed = 0;
+    uint32_t i;
+    time_t now;
 
+    time(&now);
+    lock_write(cache);
+    for( i = 0; i < intern->table_count; i++ ) {
+        struct table_entry * entry = intern->table[i];
+        if( entry && is_stale(cache, entry->data, now) ) {
+            intern->table[i] = NULL;
+            intern->table_entries--;
+            removed++;
+        }
+    }
+    unlock_write(cache);
+
+    return removed;
+}
 
 static struct handlebars_module * cache_find(struct handlebars_cache * cache, struct handlebars_string * key)
 {
     struct handlebars_cache_mmap * intern = (struct handlebars_cache_mmap *) cache->internal;
     struct handlebars_module * module = NULL;
+    struct table_entry * entry;
     time_t now;
 
+    time(&now);
+    lock(cache);
+
     // Currently resetting
     if( intern->in_reset ) {
-        return NULL;
+        goto done;
     }
 
     // Find entry
-    struct table_entry * entry = table_find(intern, key);
+    entry = table_find(intern, key);
 
-    if( !entry ) {
-        // Not found, or not ready
-        INCR(intern->misses);
-        goto error;
+    // Not found, or another key
+    if( !entry || !handlebars_string_eq(key, entry->key) ) {
+        intern->misses++;
+        goto done;
     }
 
-    // Compare key
-    if( !handlebars_string_eq(key, entry->key) ) {
-        INCR(intern->misses);
-        //INCR(intern->collisions);
-        goto error;
+    // Check if it's too old or wrong version
+    if( is_stale(cache, entry->data, now) ) {
+        intern->misses++;
+        if( protect(cache, false) == 0 ) {
+            table_unset(intern, key);
+            intern->table_entries--;
+            protect(cache, true);
+        }
+        goto done;
     }
 
     // Get data
     module = entry->data;
+    intern->hits++;
+    intern->refcount++;
 
-    // Check if it's too old or wrong version
-    time(&now);
-    if( module->version != handlebars_version() || (cache->max_age >= 0 && difftime(now, module->ts) >= cache->max_age) ) {
-        lock(cache);
-        protect(cache, false);
-        table_unset(intern, key);
-        intern->misses++;
-        intern->table_entries--;
-        protect(cache, true);
-        unlock(cache);
-        goto error;
-    }
+done:
+    unlock(cache);
 
     // Check for pointer mismatch
-    if( unlikely((void *) module != module->addr) ) {
+    if( module && unlikely((void *) module != module->addr) ) {
         handlebars_throw(CONTEXT, HANDLEBARS_ERROR, "Shared memory pointer mismatch: %p != %p", module, module->addr);
     }
 
-    INCR(intern->hits);
-    INCR(intern->refcount);
-
-error:
     return module;
 }
 
@@ -333,65 +339,71 @@ static void cache_add(
     struct handlebars_module * module
 ) {
     struct handlebars_cache_mmap * intern = (struct handlebars_cache_mmap *) cache->internal;
-    struct table_entry entry;
-
-    // Currently resetting
-    if( intern->in_reset ) {
-        return;
-    }
+    struct table_entry * entry;
 
     // Lock
-    lock(cache);
-    protect(cache, false);
+    lock_write(cache);
 
     assert(module == module->addr);
 
+    // Currently resetting
+    if( intern->in_reset ) {
+        goto done;
+    }
+
     // Collision
     struct table_entry * found = table_find(intern, key);
-    if( found ) {
-        if( !handlebars_string_eq(found->key, key) ) {
-            INCR(intern->collisions);
-        }
-        goto error;
+    if( found && !handlebars_string_eq(found->key, key) ) {
+        intern->collisions++;
+        goto done;
     }
 
+    // Make the entry
+    entry = append(intern, &(struct table_entry) {0}, sizeof(struct table_entry));
+
     // Copy key
-    entry.key = append(intern, (void *) key, HBS_STR_SIZE(hbs_str_len(key)));
+    struct handlebars_string * entry_key = append(intern, (void *) key, HBS_STR_SIZE(hbs_str_len(key)));
 
     // Copy data
-    entry.data = append(intern, (void *) module, module->size);
+    void * entry_data = append(intern, (void *) module, module->size);
 
     // Check for failure
-    if( unlikely(!entry.key || !entry.data) ) {
-        protect(cache, true);
-        unlock(cache);
+    if( unlikely(!entry || !entry_key || !entry_data) ) {
+        unlock_write(cache);
         cache_reset(cache);
         return;
     }
 
+    entry->key = entry_key;
+    entry->data = entry_data;
+
     // Pre-patch pointers
-    handlebars_module_patch_pointers(entry.data);
+    handlebars_module_patch_pointers(entry->data);
 
-    // Finish;
-    table_set(intern, &entry);
-    intern->table_entries++;
+    // Finish; an entry that is replaced may still be in use, and stays as it is
+    table_set(intern, entry);
+    if( !found ) {
+        intern->table_entries++;
+    }
 
-error:
+done:
     // Unlock
-    protect(cache, true);
-    unlock(cache);
+    unlock_write(cache);
 }
 
 static void cache_release(struct handlebars_cache * cache, struct handlebars_string * tmpl, struct handlebars_module * module)
 {
     struct handlebars_cache_mmap * intern = (struct handlebars_cache_mmap *) cache->internal;
-    DECR(intern->refcount);
+    lock(cache);
+    intern->refcount--;
+    unlock(cache);
 }
 
 static struct handlebars_cache_stat cache_stat(struct handlebars_cache * cache)
 {
     struct handlebars_cache_mmap * intern = (struct handlebars_cache_mmap *) cache->internal;
     struct handlebars_cache_stat stat = {0};
+    lock(cache);
     stat.name = "mmap";
     stat.total_size = intern->size;
     stat.total_table_size = intern->table_size;
@@ -405,6 +417,7 @@ static struct handlebars_cache_stat cache_stat(struct handlebars_cache * cache)
     stat.misses = intern->misses;
     stat.refcount = intern->refcount;
     stat.collisions = intern->collisions;
+    unlock(cache);
     return stat;
 }
 
@@ -446,11 +459,14 @@ struct handlebars_cache * handlebars_cache_mmap_ctor(
     size_t intern_size = handlebars_align_size(sizeof(struct handlebars_cache_mmap), page_size);
     size_t shm_size = handlebars_align_size(size, page_size);
     size_t table_size = handlebars_align_size(entries * sizeof(struct table_entry *), page_size);
-    size_t data_size = shm_size - table_size - intern_size;
 
-    if( table_size >= shm_size ) {
+    if( entries < 1 || entries > UINT32_MAX ) {
+        handlebars_throw(CONTEXT, HANDLEBARS_ERROR, "Invalid number of entries");
+    }
+    if( shm_size < size || table_size >= shm_size || shm_size - table_size <= intern_size ) {
         handlebars_throw(CONTEXT, HANDLEBARS_ERROR, "Table size must not be greater than segment size");
     }
+    size_t data_size = shm_size - table_size - intern_size;
 
     struct handlebars_cache_mmap * intern = mmap(NULL, shm_size, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
     if( intern == MAP_FAILED ) {
-- 
2.43.0


From e20b02dab5ebcddb225ed7ce5aa672a1a40c386c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:31 +0000
Subject: [PATCH 69/90] fix: a string whose hash is zero was written to when
 read, which crashed for one in the shared memory cache

---
 src/handlebars_string.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index 1c61d7e..e7a8654 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -89,7 +89,11 @@ size_t hbs_str_len(struct handlebars_string * str) {
 
 uint32_t hbs_str_hash(struct handlebars_string * str) {
     if (str->hash == 0) {
-        str->hash = handlebars_string_hash(str->val, str->len);
+        uint32_t hash = handlebars_string_hash(str->val, str->len);
+        // A string in read-only memory has been hashed already, but the hash may be zero
+        if (hash != 0) {
+            str->hash = hash;
+        }
     }
     return str->hash;
 }
-- 
2.43.0


From a677b1fa5883af14499073253df17e7fe993ae05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:41 +0000
Subject: [PATCH 70/90] fix: LMDB cache: collection and reset were not
 committed, long keys shared records, damaged records were read, a failed
 commit freed the transaction twice

---
 src/handlebars_cache_lmdb.c | 179 +++++++++++++++++++++---------------
 1 file changed, 106 insertions(+), 73 deletions(-)

diff --git a/src/handlebars_cache_lmdb.c b/src/handlebars_cache_lmdb.c
index 36f7745..41444d2 100644
--- a/src/handlebars_cache_lmdb.c
+++ b/src/handlebars_cache_lmdb.c
@@ -20,6 +20,7 @@
 #endif
 
 #include <assert.h>
+#include <string.h>
 #include <time.h>
 
 #ifdef HANDLEBARS_HAVE_LMDB
@@ -61,16 +62,31 @@ static int cache_dtor(struct handlebars_cache * cache)
     return 0;
 }
 
+// Keys that are too long are stored under their hash. The record then holds the key after the module.
+static void make_key(struct handlebars_cache_lmdb * intern, struct handlebars_string * tmpl, char * tmp, size_t tmp_size, MDB_val * key, size_t * stored_key_size)
+{
+    if( hbs_str_len(tmpl) + 1 > (size_t) mdb_env_get_maxkeysize(intern->env) ) {
+        snprintf(tmp, tmp_size, "hash:%lu", (unsigned long) hbs_str_hash(tmpl));
+        key->mv_size = strlen(tmp);
+        key->mv_data = tmp;
+        *stored_key_size = hbs_str_len(tmpl);
+    } else {
+        key->mv_size = hbs_str_len(tmpl) + 1;
+        key->mv_data = hbs_str_val(tmpl);
+        *stored_key_size = 0;
+    }
+}
+
 static int cache_gc(struct handlebars_cache * cache)
 {
     struct handlebars_cache_lmdb * intern = (struct handlebars_cache_lmdb *) cache->internal;
     int err;
+    int removed = 0;
     MDB_txn *txn;
     MDB_dbi dbi;
     MDB_val key;
     MDB_val data;
     MDB_cursor *cursor;
-    MDB_stat stat;
     time_t now;
 
     time(&now);
@@ -81,9 +97,6 @@ static int cache_gc(struct handlebars_cache * cache)
     err = mdb_dbi_open(txn, NULL, MDB_CREATE, &dbi);
     if( err != 0 ) goto error;
 
-    err = mdb_stat(txn, dbi, &stat);
-    if( err != 0 ) goto error;
-
     err = mdb_cursor_open(txn, dbi, &cursor);
     if( err != 0 ) goto error;
 
@@ -92,16 +105,31 @@ static int cache_gc(struct handlebars_cache * cache)
                 key.mv_data,  (int) key.mv_size,  (char *) key.mv_data,
                 data.mv_data, (int) data.mv_size, (char *) data.mv_data); */
 
-        struct handlebars_module * module = (struct handlebars_module *) data.mv_data;
-        if( cache->max_age >= 0 && difftime(now, module->ts) > cache->max_age ) {
-            mdb_del(txn, dbi, &key, NULL);
+        // The record may be damaged, and is not necessarily aligned
+        struct handlebars_module module;
+        if( data.mv_size >= sizeof(module) ) {
+            memcpy(&module, data.mv_data, sizeof(module));
+            if( cache->max_age < 0 || difftime(now, module.ts) < cache->max_age ) {
+                continue;
+            }
         }
+
+        err = mdb_cursor_del(cursor, 0);
+        if( err != 0 ) break;
+        removed++;
     }
 
     mdb_cursor_close(cursor);
-error:
+    if( err != MDB_NOTFOUND ) goto error;
+
+    // Commit
+    err = mdb_txn_commit(txn);
     HANDLE_RC(err);
+    return removed;
+
+error:
     mdb_txn_abort(txn);
+    HANDLE_RC(err);
     return 0;
 }
 
@@ -114,74 +142,75 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
     MDB_val key;
     MDB_val data;
     char tmp[256];
-    struct handlebars_module * module;
+    struct handlebars_module * module = NULL;
     time_t now;
-    size_t size;
+    size_t stored_key_size;
 
     time(&now);
 
     err = mdb_txn_begin(intern->env, NULL, MDB_RDONLY, &txn);
     HANDLE_RC(err);
 
-    err = mdb_dbi_open(txn, NULL, MDB_CREATE, &dbi);
+    err = mdb_dbi_open(txn, NULL, 0, &dbi);
     if( err != 0 ) goto error;
 
-    // Make key
-    if( hbs_str_len(tmpl) > (size_t) mdb_env_get_maxkeysize(intern->env) ) {
-        snprintf(tmp, 256, "hash:%lu", (unsigned long) hbs_str_hash(tmpl));
-        key.mv_size = strlen(tmp);
-        key.mv_data = tmp;
-    } else {
-        key.mv_size = hbs_str_len(tmpl) + 1;
-        key.mv_data = hbs_str_val(tmpl);
-    }
+    make_key(intern, tmpl, tmp, sizeof(tmp), &key, &stored_key_size);
 
     // Fetch data
     err = mdb_get(txn, dbi, &key, &data);
-    if( err == MDB_NOTFOUND ) {
-        intern->stat.misses++;
+    if( err == MDB_NOTFOUND ) goto miss;
+    if( err != 0 ) goto error;
+
+    // The record may be damaged or for another key with the same hash
+    if( data.mv_size < sizeof(struct handlebars_module) + stored_key_size ) goto miss;
+    data.mv_size -= stored_key_size;
+    if( memcmp((char *) data.mv_data + data.mv_size, hbs_str_val(tmpl), stored_key_size) != 0 ) goto miss;
+
+    // Duplicate data
+    module = handlebars_talloc_size(cache, data.mv_size);
+    if( module == NULL ) {
         mdb_txn_abort(txn);
-        return NULL;
+        HANDLEBARS_MEMCHECK(module, CONTEXT);
     }
-    if( err != 0 ) goto error;
+    talloc_set_type(module, struct handlebars_module);
+    memcpy(module, data.mv_data, data.mv_size);
 
-    module = ((struct handlebars_module *) data.mv_data);
+    if( module->size != data.mv_size ) goto miss;
 
 #if defined(HANDLEBARS_ENABLE_DEBUG)
     // In debug mode, throw
+    mdb_txn_abort(txn);
     handlebars_module_verify(module, CONTEXT);
 #else
     // In release mode, consider a failed hash/version match a miss
-    if (!handlebars_module_verify(module, NULL)) {
-        intern->stat.misses++;
-        goto error;
-    }
+    if( !handlebars_module_verify(module, NULL) ) goto miss;
+
+    // Close
+    mdb_txn_abort(txn);
 #endif
 
     // Check if it's too old
-    if (cache->max_age >= 0 && difftime(now, module->ts) >= cache->max_age) {
+    if( cache->max_age >= 0 && difftime(now, module->ts) >= cache->max_age ) {
+        handlebars_talloc_free(module);
         intern->stat.misses++;
-        goto error;
+        return NULL;
     }
 
     intern->stat.hits++;
 
-    // Duplicate data
-    size = module->size;
-    module = handlebars_talloc_size(cache, size);
-    talloc_set_type(module, struct handlebars_module);
-    memcpy(module, data.mv_data, size);
-
-    // Close
-    mdb_txn_abort(txn);
-
     // Convert pointers
     handlebars_module_patch_pointers(module);
 
     return module;
 
+miss:
+    intern->stat.misses++;
+    err = 0;
 error:
     mdb_txn_abort(txn);
+    if( module != NULL ) {
+        handlebars_talloc_free(module);
+    }
     HANDLE_RC(err);
     return NULL;
 }
@@ -199,25 +228,12 @@ static void cache_add(
     MDB_val data;
     char tmp[256];
     struct handlebars_module * module_copy;
+    size_t stored_key_size;
 
-    err = mdb_txn_begin(intern->env, NULL, 0, &txn);
-    HANDLE_RC(err);
-
-    err = mdb_dbi_open(txn, NULL, MDB_CREATE, &dbi);
-    if( err != 0 ) goto error;
-
-    // Make key
-    if( hbs_str_len(tmpl) > (size_t) mdb_env_get_maxkeysize(intern->env) ) {
-        snprintf(tmp, 256, "hash:%lu", (unsigned long) hbs_str_hash(tmpl));
-        key.mv_size = strlen(tmp);
-        key.mv_data = tmp;
-    } else {
-        key.mv_size = hbs_str_len(tmpl) + 1;
-        key.mv_data = hbs_str_val(tmpl);
-    }
+    make_key(intern, tmpl, tmp, sizeof(tmp), &key, &stored_key_size);
 
     // Normalize pointers
-    module_copy = handlebars_talloc_size(CONTEXT, module->size);
+    module_copy = MC(handlebars_talloc_size(CONTEXT, module->size + stored_key_size));
     talloc_set_type(module_copy, struct handlebars_module);
     memcpy(module_copy, module, module->size);
     handlebars_module_patch_pointers(module_copy);
@@ -225,23 +241,32 @@ static void cache_add(
     handlebars_module_generate_hash(module_copy);
 
     // Make data
-    data.mv_size = module_copy->size;
+    memcpy((char *) module_copy + module->size, hbs_str_val(tmpl), stored_key_size);
+    data.mv_size = module->size + stored_key_size;
     data.mv_data = module_copy;
 
     // Store
-    err = mdb_put(txn, dbi, &key, &data, 0);
-    handlebars_talloc_free(module_copy);
-    if( err != 0 ) goto error;
+    err = mdb_txn_begin(intern->env, NULL, 0, &txn);
+    if( err == 0 ) {
+        err = mdb_dbi_open(txn, NULL, MDB_CREATE, &dbi);
+        if( err == 0 ) {
+            err = mdb_put(txn, dbi, &key, &data, 0);
+        }
 
-    // Commit
-    err = mdb_txn_commit(txn);
-    if( err != 0 ) goto error;
+        // Commit
+        if( err == 0 ) {
+            err = mdb_txn_commit(txn);
+        } else {
+            mdb_txn_abort(txn);
+        }
+    }
 
-    return;
+    handlebars_talloc_free(module_copy);
 
-error:
-    mdb_txn_abort(txn);
-    HANDLE_RC(err);
+    // When it is full, it is just not cached
+    if( err != MDB_MAP_FULL ) {
+        HANDLE_RC(err);
+    }
 }
 
 static void cache_release(struct handlebars_cache * cache, struct handlebars_string * tmpl, struct handlebars_module * module)
@@ -257,16 +282,16 @@ static struct handlebars_cache_stat cache_stat(struct handlebars_cache * cache)
     MDB_dbi dbi;
     MDB_stat stat;
 
-    err = mdb_txn_begin(intern->env, NULL, 0, &txn);
+    err = mdb_txn_begin(intern->env, NULL, MDB_RDONLY, &txn);
     HANDLE_RC(err);
 
-    err = mdb_dbi_open(txn, NULL, MDB_CREATE, &dbi);
+    err = mdb_dbi_open(txn, NULL, 0, &dbi);
     if( err != 0 ) goto error;
 
     err = mdb_stat(txn, dbi, &stat);
     if( err != 0 ) goto error;
 
-    intern->stat.name = "mmap";
+    intern->stat.name = "lmdb";
     intern->stat.current_entries = stat.ms_entries;
 
 error:
@@ -291,7 +316,14 @@ static void cache_reset(struct handlebars_cache * cache)
     err = mdb_drop(txn, dbi, 0);
     if( err != 0 ) goto error;
 
-    error:
+    // Commit
+    err = mdb_txn_commit(txn);
+    HANDLE_RC(err);
+
+    memset(&intern->stat, 0, sizeof(intern->stat));
+    return;
+
+error:
     mdb_txn_abort(txn);
     HANDLE_RC(err);
 }
@@ -323,10 +355,11 @@ struct handlebars_cache * handlebars_cache_lmdb_ctor(
     struct handlebars_cache_lmdb * intern = (void *) ((char *) cache + sizeof(struct handlebars_cache));
     cache->internal = intern;
 
-    mdb_env_create(&intern->env);
+    int err = mdb_env_create(&intern->env);
+    HANDLE_RC(err);
     talloc_set_destructor(cache, cache_dtor);
 
-    int err = mdb_env_open(intern->env, path, MDB_WRITEMAP | MDB_MAPASYNC | MDB_NOSUBDIR, 0644);
+    err = mdb_env_open(intern->env, path, MDB_WRITEMAP | MDB_MAPASYNC | MDB_NOSUBDIR, 0644);
     HANDLE_RC(err);
 
     return cache;
-- 
2.43.0


From ea24f0d9f5ef18aec1fee494c5261d01fe67e11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:31 +0000
Subject: [PATCH 71/90] fix: a cached partial was rendered whatever its flags,
 delimiters and indentation, and freed while it was executed

---
 src/handlebars_vm.c | 51 ++++++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 19 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 7e197e2..7e4b9b2 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -354,7 +354,7 @@ static inline struct handlebars_value * merge_hash(struct handlebars_context * c
 HBS_ATTR_NONNULL(1, 2)
 static struct handlebars_string * execute_template(
     struct handlebars_vm * vm,
-    struct handlebars_string * volatile tmpl,
+    struct handlebars_string * tmpl,
     struct handlebars_value * input,
     struct handlebars_string * indent,
     int escape,
@@ -362,8 +362,9 @@ static struct handlebars_string * execute_template(
 ) {
     struct handlebars_context * context = handlebars_context_ctor_ex(vm);
     struct handlebars_string * volatile retval = NULL;
-    struct handlebars_module * volatile module = vm->cache ? handlebars_cache_find(vm->cache, tmpl) : NULL;
-    bool const from_cache = module != NULL;
+    struct handlebars_string * volatile source = tmpl;
+    struct handlebars_module * volatile module = NULL;
+    volatile bool from_cache = false;
     long prev_depth = vm->depth;
     jmp_buf * prev_jmp = HBSCTX(vm)->e->jmp;
     jmp_buf buf;
@@ -384,22 +385,34 @@ static struct handlebars_string * execute_template(
         goto done;
     }
 
-    // Check for cached template, if available
+    // The source depends on the delimiters and the indentation
+    if (vm->flags & handlebars_compiler_flag_compat) {
+        handlebars_string_addref(tmpl); // it takes over a reference
+        source = handlebars_preprocess_delimiters(
+            HBSCTX(context),
+            tmpl,
+            use_delimiters ? vm->delim_open : NULL,
+            use_delimiters ? vm->delim_close : NULL
+        );
+        if (indent) {
+            source = handlebars_string_indent(HBSCTX(context), source, indent);
+        }
+    }
+
+    // Check for cached template, if available. It may have been compiled with other flags.
+    if( vm->cache ) {
+        module = handlebars_cache_find(vm->cache, source);
+        if( module && handlebars_module_get_flags(module) != vm->flags ) {
+            handlebars_cache_release(vm->cache, source, module);
+            module = NULL;
+        }
+        from_cache = module != NULL;
+    }
+
     if( !from_cache ) {
         // Parse
         struct handlebars_parser * parser = handlebars_parser_ctor(context);
-        if (vm->flags & handlebars_compiler_flag_compat) {
-            tmpl = handlebars_preprocess_delimiters(
-                HBSCTX(context),
-                tmpl,
-                use_delimiters ? vm->delim_open : NULL,
-                use_delimiters ? vm->delim_close : NULL
-            );
-            if (indent) {
-                tmpl = handlebars_string_indent(CONTEXT, tmpl, indent);
-            }
-        }
-        struct handlebars_ast_node * ast = handlebars_parse_ex(parser, tmpl, vm->flags);
+        struct handlebars_ast_node * ast = handlebars_parse_ex(parser, source, vm->flags);
         if( context->e->num != HANDLEBARS_SUCCESS ) {
             handlebars_rethrow(CONTEXT, context);
         }
@@ -415,9 +428,9 @@ static struct handlebars_string * execute_template(
         // Serialize
         module = handlebars_program_serialize(context, program);
 
-        // Save cache entry
+        // Save cache entry. The cache may take the module and remove it at any time.
         if( vm->cache ) {
-            handlebars_cache_add(vm->cache, tmpl, module);
+            handlebars_cache_add(vm->cache, source, handlebars_program_serialize(context, program));
         }
 
         // Cleanup parser
@@ -439,7 +452,7 @@ done:
     HBSCTX(vm)->e->jmp = prev_jmp;
     vm->depth = prev_depth;
     if( from_cache ) {
-        handlebars_cache_release(vm->cache, tmpl, module);
+        handlebars_cache_release(vm->cache, source, module);
     }
     handlebars_string_delref(tmpl);
     handlebars_context_dtor(context);
-- 
2.43.0


From ae8a844f67beb4097d20d648ef11d87c2562dc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:10 +0000
Subject: [PATCH 72/90] fix: resetting the shared memory cache did nothing
 while a module was in use

---
 src/handlebars_cache_mmap.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/handlebars_cache_mmap.c b/src/handlebars_cache_mmap.c
index 5f807d5..197f765 100644
--- a/src/handlebars_cache_mmap.c
+++ b/src/handlebars_cache_mmap.c
@@ -243,13 +243,15 @@ static void cache_reset(struct handlebars_cache * cache)
     }
     intern->in_reset--;
 
-    if( intern->refcount <= 0 && protect(cache, false) == 0 ) {
-        // Initialize header
-        intern->table_entries = 0;
-        intern->data_length = 0;
-
+    if( protect(cache, false) == 0 ) {
         // Zero out the hash table
         memset(intern->table, 0, intern->table_size);
+        intern->table_entries = 0;
+
+        // The modules in use stay where they are
+        if( intern->refcount <= 0 ) {
+            intern->data_length = 0;
+        }
     }
 
     unlock_write(cache);
-- 
2.43.0


From 7efc066dc2b2e57814550c6d0b06132a827bd3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:57 +0000
Subject: [PATCH 73/90] fix: running out of memory while decoding JSON or YAML
 was not reported, or leaked

---
 src/handlebars_json.c | 27 ++++++++++++++++++---------
 src/handlebars_yaml.c |  7 ++++++-
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/handlebars_json.c b/src/handlebars_json.c
index 664102b..74d96a8 100644
--- a/src/handlebars_json.c
+++ b/src/handlebars_json.c
@@ -313,13 +313,11 @@ void handlebars_value_init_json_object(struct handlebars_context * ctx, struct h
 
         case json_type_object:
         case json_type_array:
-            // Increment refcount
-            json_object_get(json);
-
             obj = handlebars_talloc(ctx, struct handlebars_json);
             HANDLEBARS_MEMCHECK(obj, ctx);
             handlebars_user_init((struct handlebars_user *) obj, ctx, &handlebars_value_hbs_json_handlers);
-            obj->object = json;
+            // Increment refcount
+            obj->object = json_object_get(json);
             talloc_set_destructor(obj, handlebars_json_dtor);
             handlebars_value_user(value, (struct handlebars_user *) obj);
             break;
@@ -328,19 +326,23 @@ void handlebars_value_init_json_object(struct handlebars_context * ctx, struct h
     }
 }
 
-static struct json_object *json_tokener_parse_verbose_length(const char *str, size_t length, enum json_tokener_error *error)
+static struct json_object *json_tokener_parse_verbose_length(const char *str, size_t length, enum json_tokener_error *error, bool *nomem)
 {
 	struct json_tokener *tok;
 	struct json_object *obj;
 
 	tok = json_tokener_new();
 	if (!tok) {
+		*nomem = true;
 		return NULL;
     }
 
 	obj = json_tokener_parse_ex(tok, str, length);
 	*error = tok->err;
 	if (tok->err != json_tokener_success) {
+#if defined(JSON_C_VERSION_NUM) && JSON_C_VERSION_NUM >= ((0 << 16) | (17 << 8))
+		*nomem = tok->err == json_tokener_error_memory;
+#endif
 		if (obj != NULL) {
 			json_object_put(obj);
         }
@@ -354,10 +356,17 @@ static struct json_object *json_tokener_parse_verbose_length(const char *str, si
 void handlebars_value_init_json_stringl(struct handlebars_context *ctx, struct handlebars_value * value, const char * json, size_t length)
 {
     enum json_tokener_error parse_err = json_tokener_success;
-    struct json_object * result = json_tokener_parse_verbose_length(json, length, &parse_err);
-    if( parse_err == json_tokener_success ) {
-        handlebars_value_init_json_object(ctx, value, result);
-        json_object_put(result);
+    bool nomem = false;
+    // The context owns the result, in case of an error below
+    struct handlebars_json * root = handlebars_talloc_zero(ctx, struct handlebars_json);
+    HANDLEBARS_MEMCHECK(root, ctx);
+    talloc_set_destructor(root, handlebars_json_dtor);
+    root->object = json_tokener_parse_verbose_length(json, length, &parse_err, &nomem);
+    if( unlikely(nomem) ) {
+        handlebars_throw(ctx, HANDLEBARS_NOMEM, HANDLEBARS_MEMCHECK_MSG);
+    } else if( parse_err == json_tokener_success ) {
+        handlebars_value_init_json_object(ctx, value, root->object);
+        handlebars_talloc_free(root);
     } else {
         handlebars_throw(ctx, HANDLEBARS_ERROR, "JSON Parse error: %s", json_tokener_error_desc(parse_err));
     }
diff --git a/src/handlebars_yaml.c b/src/handlebars_yaml.c
index 6f9b350..ee802d9 100644
--- a/src/handlebars_yaml.c
+++ b/src/handlebars_yaml.c
@@ -113,9 +113,14 @@ void handlebars_value_init_yaml_string(struct handlebars_context * ctx, struct h
     struct _yaml_ctx * yctx = handlebars_talloc_zero(ctx, struct _yaml_ctx);
     HANDLEBARS_MEMCHECK(yctx, ctx);
     talloc_set_destructor(yctx, _yaml_ctx_dtor);
-    yaml_parser_initialize(&yctx->parser);
+    if( unlikely(!yaml_parser_initialize(&yctx->parser)) ) {
+        handlebars_throw(ctx, HANDLEBARS_NOMEM, HANDLEBARS_MEMCHECK_MSG);
+    }
     yaml_parser_set_input_string(&yctx->parser, (unsigned char *) yaml, strlen(yaml));
     yaml_parser_load(&yctx->parser, &yctx->document);
+    if( unlikely(yctx->parser.error == YAML_MEMORY_ERROR) ) {
+        handlebars_throw(ctx, HANDLEBARS_NOMEM, HANDLEBARS_MEMCHECK_MSG);
+    }
     yaml_node_t * node = yaml_document_get_root_node(&yctx->document);
     if( node ) {
         handlebars_value_init_yaml_node(ctx, value, &yctx->document, node);
-- 
2.43.0


From bc6218ec97395727731e3a3d4a2afee8400d336b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:57 +0000
Subject: [PATCH 74/90] fix: the partial loader crashed without memory and when
 the file cannot be read

---
 src/handlebars_partial_loader.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/handlebars_partial_loader.c b/src/handlebars_partial_loader.c
index 8512024..34e336f 100644
--- a/src/handlebars_partial_loader.c
+++ b/src/handlebars_partial_loader.c
@@ -20,6 +20,8 @@
 #endif
 
 #include <assert.h>
+#include <limits.h>
+#include <stdio.h>
 #include <string.h>
 #include <talloc.h>
 
@@ -105,15 +107,18 @@ static struct handlebars_value * hbs_partial_loader_map_find(struct handlebars_v
         handlebars_throw(intern->user.ctx, HANDLEBARS_ERROR, "File to open partial: %.*s", (int) hbs_str_len(filename), hbs_str_val(filename));
     }
 
-    fseek(f, 0, SEEK_END);
-    size = ftell(f);
-    fseek(f, 0, SEEK_SET);
+    if( fseek(f, 0, SEEK_END) != 0 || (size = ftell(f)) < 0 || size == LONG_MAX || fseek(f, 0, SEEK_SET) != 0 ) {
+        fclose(f);
+        handlebars_throw(intern->user.ctx, HANDLEBARS_ERROR, "Failed to read partial: %.*s", (int) hbs_str_len(filename), hbs_str_val(filename));
+    }
 
     char * buf = handlebars_talloc_array(intern->user.ctx, char, size + 1);
-    size_t read = fread(buf, size, 1, f);
+    size_t read = buf ? fread(buf, size, 1, f) : 0;
     fclose(f);
+    HANDLEBARS_MEMCHECK(buf, intern->user.ctx);
 
     if (!read) {
+        handlebars_talloc_free(buf);
         handlebars_throw(intern->user.ctx, HANDLEBARS_ERROR, "Failed to read partial: %.*s", (int) hbs_str_len(filename), hbs_str_val(filename));
     }
 
-- 
2.43.0


From f5bff25c074c803cf11dc3e86839467abf270a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:57 +0000
Subject: [PATCH 75/90] fix: handlebars_value_dump lost text when out of memory

---
 src/handlebars_value.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index 4d6e521..a0c9ca7 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -785,46 +785,46 @@ char * handlebars_value_dump(struct handlebars_value * value, struct handlebars_
 
     switch( handlebars_value_get_type(value) ) {
         case HANDLEBARS_VALUE_TYPE_NULL:
-            buf = handlebars_talloc_asprintf_append_buffer(buf, "NULL");
+            buf = MC(handlebars_talloc_asprintf_append_buffer(buf, "NULL"));
             break;
         case HANDLEBARS_VALUE_TYPE_TRUE:
-            buf = handlebars_talloc_strndup_append_buffer(buf, HBS_STRL("boolean(true)"));
+            buf = MC(handlebars_talloc_strndup_append_buffer(buf, HBS_STRL("boolean(true)")));
             break;
         case HANDLEBARS_VALUE_TYPE_FALSE:
-            buf = handlebars_talloc_strndup_append_buffer(buf, HBS_STRL("boolean(false)"));
+            buf = MC(handlebars_talloc_strndup_append_buffer(buf, HBS_STRL("boolean(false)")));
             break;
         case HANDLEBARS_VALUE_TYPE_FLOAT:
-            buf = handlebars_talloc_asprintf_append_buffer(buf, "float(%g)", value->v.dval);
+            buf = MC(handlebars_talloc_asprintf_append_buffer(buf, "float(%g)", value->v.dval));
             break;
         case HANDLEBARS_VALUE_TYPE_INTEGER:
-            buf = handlebars_talloc_asprintf_append_buffer(buf, "integer(%ld)", value->v.lval);
+            buf = MC(handlebars_talloc_asprintf_append_buffer(buf, "integer(%ld)", value->v.lval));
             break;
         case HANDLEBARS_VALUE_TYPE_STRING:
-            buf = handlebars_talloc_asprintf_append_buffer(buf, "string(%.*s)", (int) hbs_str_len(value->v.string), hbs_str_val(value->v.string));
+            buf = MC(handlebars_talloc_asprintf_append_buffer(buf, "string(%.*s)", (int) hbs_str_len(value->v.string), hbs_str_val(value->v.string)));
             break;
         case HANDLEBARS_VALUE_TYPE_ARRAY:
-            buf = handlebars_talloc_asprintf_append_buffer(buf, "[%s", handlebars_value_count(value) ? "\n" : "");
+            buf = MC(handlebars_talloc_asprintf_append_buffer(buf, "[%s", handlebars_value_count(value) ? "\n" : ""));
             HANDLEBARS_VALUE_FOREACH_IDX(value, index, child) {
                 char * tmp = handlebars_value_dump(child, context, depth + 1);
-                buf = handlebars_talloc_asprintf_append_buffer(buf, "%s%zd => %s\n", indent2, index, tmp);
+                buf = MC(handlebars_talloc_asprintf_append_buffer(buf, "%s%zd => %s\n", indent2, index, tmp));
                 handlebars_talloc_free(tmp);
             } HANDLEBARS_VALUE_FOREACH_END();
-            buf = handlebars_talloc_asprintf_append_buffer(buf, "%s]", handlebars_value_count(value) ? indent : "");
+            buf = MC(handlebars_talloc_asprintf_append_buffer(buf, "%s]", handlebars_value_count(value) ? indent : ""));
             break;
         case HANDLEBARS_VALUE_TYPE_MAP:
-            buf = handlebars_talloc_asprintf_append_buffer(buf, "{%s", handlebars_value_count(value) ? "\n" : "");
+            buf = MC(handlebars_talloc_asprintf_append_buffer(buf, "{%s", handlebars_value_count(value) ? "\n" : ""));
             HANDLEBARS_VALUE_FOREACH_KV(value, key, child) {
                 char * tmp = handlebars_value_dump(child, context, depth + 1);
-                buf = handlebars_talloc_asprintf_append_buffer(buf, "%s%.*s => %s\n", indent2, (int) hbs_str_len(key), hbs_str_val(key), tmp);
+                buf = MC(handlebars_talloc_asprintf_append_buffer(buf, "%s%.*s => %s\n", indent2, (int) hbs_str_len(key), hbs_str_val(key), tmp));
                 handlebars_talloc_free(tmp);
             } HANDLEBARS_VALUE_FOREACH_END();
-            buf = handlebars_talloc_asprintf_append_buffer(buf, "%s}", handlebars_value_count(value) ? indent : "");
+            buf = MC(handlebars_talloc_asprintf_append_buffer(buf, "%s}", handlebars_value_count(value) ? indent : ""));
             break;
         case HANDLEBARS_VALUE_TYPE_HELPER:
-            buf = handlebars_talloc_asprintf_append_buffer(buf, "(function, real type %d)", value->type);
+            buf = MC(handlebars_talloc_asprintf_append_buffer(buf, "(function, real type %d)", value->type));
             break;
         default:
-            buf = handlebars_talloc_asprintf_append_buffer(buf, "unknown type %d", value->type);
+            buf = MC(handlebars_talloc_asprintf_append_buffer(buf, "unknown type %d", value->type));
             break;
     }
 
-- 
2.43.0


From 21326b8d98ec80d9727517bb775c03b66aacf268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:57 +0000
Subject: [PATCH 76/90] fix: simple cache: collecting left freed entries in the
 cache when out of memory

---
 src/handlebars_cache_simple.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/handlebars_cache_simple.c b/src/handlebars_cache_simple.c
index 72dfc03..9628258 100644
--- a/src/handlebars_cache_simple.c
+++ b/src/handlebars_cache_simple.c
@@ -119,6 +119,8 @@ static int cache_gc(struct handlebars_cache * cache)
     time(&now);
 
     size_t remove_keys_i = 0;
+    size_t prev_entries = intern->stat.current_entries;
+    size_t prev_size = intern->stat.current_size;
     struct handlebars_string ** remove_keys = handlebars_talloc_array(HBSCTX(cache), struct handlebars_string *, handlebars_map_count(map) + 1);
     HANDLEBARS_MEMCHECK(remove_keys, HBSCTX(cache));
 
@@ -129,25 +131,31 @@ static int cache_gc(struct handlebars_cache * cache)
         if( should_gc_entry(cache, entry->module, now) ) {
             handlebars_string_addref(key);
             remove_keys[remove_keys_i++] = key;
-            entry_drop(intern, entry);
+            intern->stat.current_entries--;
+            intern->stat.current_size -= entry->size;
             removed++;
         } else {
             break;
         }
     } handlebars_map_foreach_end(map);
 
+    // They are still in the map
+    intern->stat.current_entries = prev_entries;
+    intern->stat.current_size = prev_size;
+
     for( i = 0; i < remove_keys_i; i++ ) {
         struct handlebars_string * key = remove_keys[i];
-        map = handlebars_map_remove(map, key);
+        struct simple_entry * entry = get_entry(handlebars_map_find(map, key));
+        // This may fail, the entry must not be in the map once it is dropped
+        intern->map = map = handlebars_map_remove(map, key);
+        entry_drop(intern, entry);
         handlebars_string_delref(key);
     }
 
-    map = handlebars_map_rehash(map, false);
-
-    intern->map = map;
-
     handlebars_talloc_free(remove_keys);
 
+    intern->map = handlebars_map_rehash(map, false);
+
     return removed;
 }
 
-- 
2.43.0


From 5673479c3793ecf0ced5d149259367ca7fe557e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:57 +0000
Subject: [PATCH 77/90] fix: unchecked allocations in the serializer and in
 closures

---
 src/handlebars_closure.c           | 1 +
 src/handlebars_opcode_serializer.c | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/handlebars_closure.c b/src/handlebars_closure.c
index 404ea63..a0eebd6 100644
--- a/src/handlebars_closure.c
+++ b/src/handlebars_closure.c
@@ -83,6 +83,7 @@ struct handlebars_closure * handlebars_closure_ctor(
     struct handlebars_value * localv
 ) {
     struct handlebars_closure * closure = handlebars_talloc_zero_size(vm, sizeof(struct handlebars_closure) + (sizeof(struct handlebars_value) * localc));
+    HANDLEBARS_MEMCHECK(closure, HBSCTX(vm));
     talloc_set_type(closure, struct handlebars_closure);
 #ifndef HANDLEBARS_NO_REFCOUNT
     handlebars_rc_init(&closure->rc);
diff --git a/src/handlebars_opcode_serializer.c b/src/handlebars_opcode_serializer.c
index 271079c..135d35c 100644
--- a/src/handlebars_opcode_serializer.c
+++ b/src/handlebars_opcode_serializer.c
@@ -244,6 +244,7 @@ struct handlebars_module * handlebars_program_serialize(
 ) {
     // Allocate initial buffer
     struct handlebars_module * module = handlebars_talloc_zero(context, struct handlebars_module);
+    HANDLEBARS_MEMCHECK(module, context);
     memcpy(&module->header, module_header, sizeof(module_header));
     module->version = handlebars_version();
     module->flags = program->flags;
@@ -254,6 +255,7 @@ struct handlebars_module * handlebars_program_serialize(
 
     // Reallocate buffer
     module = handlebars_talloc_realloc_size(context, module, module->size);
+    HANDLEBARS_MEMCHECK(module, context);
     module->addr = (void *) module;
     talloc_set_type(module, struct handlebars_module);
 
-- 
2.43.0


From 9df79a09332b790eaae9d5df6f76435a360ee3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:57 +0000
Subject: [PATCH 78/90] fix: handlebars_vm_execute was declared never to return
 NULL, which it does on an error

---
 src/handlebars_vm.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_vm.h b/src/handlebars_vm.h
index 45deb93..6067efb 100644
--- a/src/handlebars_vm.h
+++ b/src/handlebars_vm.h
@@ -62,7 +62,7 @@ struct handlebars_string * handlebars_vm_execute(
     struct handlebars_vm * vm,
     struct handlebars_module * module,
     struct handlebars_value * context
-) HBS_ATTR_NONNULL_ALL HBS_ATTR_RETURNS_NONNULL HBS_ATTR_NOINLINE;
+) HBS_ATTR_NONNULL_ALL HBS_ATTR_NOINLINE;
 
 struct handlebars_string * handlebars_vm_execute_ex(
     struct handlebars_vm * vm,
@@ -71,7 +71,7 @@ struct handlebars_string * handlebars_vm_execute_ex(
     long program,
     struct handlebars_value * data,
     struct handlebars_value * block_params
-) HBS_ATTR_NONNULL(1, 2, 3) HBS_ATTR_RETURNS_NONNULL HBS_ATTR_NOINLINE;
+) HBS_ATTR_NONNULL(1, 2, 3) HBS_ATTR_NOINLINE;
 
 struct handlebars_string * handlebars_vm_execute_program(
     struct handlebars_vm * vm,
-- 
2.43.0


From 89305a7b488bd8e070e54e9f2301e2c3e566d125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:57 +0000
Subject: [PATCH 79/90] fix: an error in the context of a partial or lambda,
 such as running out of memory, aborted the process

---
 src/handlebars_vm.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 7e4b9b2..44844a8 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -360,7 +360,7 @@ static struct handlebars_string * execute_template(
     int escape,
     bool use_delimiters
 ) {
-    struct handlebars_context * context = handlebars_context_ctor_ex(vm);
+    struct handlebars_context * volatile context = NULL;
     struct handlebars_string * volatile retval = NULL;
     struct handlebars_string * volatile source = tmpl;
     struct handlebars_module * volatile module = NULL;
@@ -368,6 +368,7 @@ static struct handlebars_string * execute_template(
     long prev_depth = vm->depth;
     jmp_buf * prev_jmp = HBSCTX(vm)->e->jmp;
     jmp_buf buf;
+    jmp_buf context_buf;
 
     volatile bool failed = false;
 
@@ -385,6 +386,12 @@ static struct handlebars_string * execute_template(
         goto done;
     }
 
+    // Errors in the context of the template are errors of the vm
+    context = MC(handlebars_context_ctor_ex(vm));
+    if( handlebars_setjmp_ex(context, &context_buf) ) {
+        handlebars_rethrow(CONTEXT, context);
+    }
+
     // The source depends on the delimiters and the indentation
     if (vm->flags & handlebars_compiler_flag_compat) {
         handlebars_string_addref(tmpl); // it takes over a reference
@@ -413,17 +420,11 @@ static struct handlebars_string * execute_template(
         // Parse
         struct handlebars_parser * parser = handlebars_parser_ctor(context);
         struct handlebars_ast_node * ast = handlebars_parse_ex(parser, source, vm->flags);
-        if( context->e->num != HANDLEBARS_SUCCESS ) {
-            handlebars_rethrow(CONTEXT, context);
-        }
 
         // Compile
         struct handlebars_compiler * compiler = handlebars_compiler_ctor(context);
         handlebars_compiler_set_flags(compiler, vm->flags);
         struct handlebars_program * program = handlebars_compiler_compile_ex(compiler, ast);
-        if( context->e->num != HANDLEBARS_SUCCESS ) {
-            handlebars_rethrow(CONTEXT, context);
-        }
 
         // Serialize
         module = handlebars_program_serialize(context, program);
@@ -455,7 +456,9 @@ done:
         handlebars_cache_release(vm->cache, source, module);
     }
     handlebars_string_delref(tmpl);
-    handlebars_context_dtor(context);
+    if( context ) {
+        handlebars_context_dtor(context);
+    }
     if (failed && prev_jmp) {
         // The error was recorded above, let the enclosing handler deal with it
         longjmp(*prev_jmp, HBSCTX(vm)->e->num);
-- 
2.43.0


From c5194c0a52bbffde4e7f026d5bf8f31042c01636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:10 +0000
Subject: [PATCH 80/90] fix: an error in a partial or lambda that sets
 delimiters left the renderer with freed delimiters

---
 src/handlebars_vm.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 44844a8..f910e84 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -1500,12 +1500,11 @@ struct handlebars_string * handlebars_vm_execute_ex(
         handlebars_string_addref(prev_delim_close);
     }
 
-    // Save jump buffer. The outermost execution always has to clean up, since the stacks live in its frame
-    if( !prev || setup_stacks ) {
-        if( handlebars_setjmp_ex(vm, &buf) ) {
-            failed = true;
-            goto done;
-        }
+    // Save jump buffer. An execution always has to clean up, since the stacks live in the outermost frame and
+    // the module may be gone by the time an enclosing handler is reached
+    if( handlebars_setjmp_ex(vm, &buf) ) {
+        failed = true;
+        goto done;
     }
 
     // Setup stacks
-- 
2.43.0


From b7c2cefc6a1bb46f614d85da8b061c18d501ecfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:21 +0000
Subject: [PATCH 81/90] fix: after a failed call every later call on the
 context looked failed

---
 src/handlebars_compiler.c |  2 ++
 src/handlebars_parser.c   |  4 ++++
 src/handlebars_private.h  | 11 +++++++++++
 src/handlebars_vm.c       |  2 ++
 4 files changed, 19 insertions(+)

diff --git a/src/handlebars_compiler.c b/src/handlebars_compiler.c
index ac3fd15..583a207 100644
--- a/src/handlebars_compiler.c
+++ b/src/handlebars_compiler.c
@@ -1485,6 +1485,8 @@ void handlebars_compiler_compile(
     jmp_buf * prev = e->jmp;
     jmp_buf buf;
 
+    handlebars_error_reset(HBSCTX(compiler));
+
     // Save jump buffer
     if( !prev ) {
         if( handlebars_setjmp_ex(compiler, &buf) ) {
diff --git a/src/handlebars_parser.c b/src/handlebars_parser.c
index 51ec25a..37aa814 100644
--- a/src/handlebars_parser.c
+++ b/src/handlebars_parser.c
@@ -97,6 +97,8 @@ struct handlebars_token ** handlebars_lex(struct handlebars_parser * parser)
     jmp_buf * prev = e->jmp;
     jmp_buf buf;
 
+    handlebars_error_reset(HBSCTX(parser));
+
     // Save jump buffer
     if( !prev ) {
         e->jmp = &buf;
@@ -147,6 +149,8 @@ struct handlebars_ast_node * handlebars_parse_ex(struct handlebars_parser * pars
     jmp_buf * prev = e->jmp;
     jmp_buf buf;
 
+    handlebars_error_reset(HBSCTX(parser));
+
     // Save jump buffer
     if( !prev ) {
         if( handlebars_setjmp_ex(parser, &buf) ) {
diff --git a/src/handlebars_private.h b/src/handlebars_private.h
index a38f3fd..63768a8 100644
--- a/src/handlebars_private.h
+++ b/src/handlebars_private.h
@@ -19,6 +19,7 @@
 #define HANDLEBARS_PRIVATE_H
 
 #include <assert.h>
+#include <string.h>
 
 #include "handlebars.h"
 
@@ -46,6 +47,16 @@ struct handlebars_context;
 #define YY_NO_UNISTD_H 1
 #define YYLTYPE handlebars_locinfo
 
+// A call without an enclosing handler reports only its own error
+static inline void handlebars_error_reset(struct handlebars_context * context)
+{
+    if( context->e->jmp == NULL ) {
+        context->e->num = HANDLEBARS_SUCCESS;
+        context->e->msg = NULL;
+        memset(&context->e->loc, 0, sizeof(context->e->loc));
+    }
+}
+
 HBS_ATTR_CONST
 static inline size_t handlebars_align_size(size_t size, size_t alignment)
 {
diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index f910e84..6fc6b23 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -1500,6 +1500,8 @@ struct handlebars_string * handlebars_vm_execute_ex(
         handlebars_string_addref(prev_delim_close);
     }
 
+    handlebars_error_reset(HBSCTX(vm));
+
     // Save jump buffer. An execution always has to clean up, since the stacks live in the outermost frame and
     // the module may be gone by the time an enclosing handler is reached
     if( handlebars_setjmp_ex(vm, &buf) ) {
-- 
2.43.0


From 3b17853b496eccf7f0571ab35ff85f664f1bc45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:39 +0000
Subject: [PATCH 82/90] fix: a partial name with a NUL byte read the file of
 the truncated name

---
 src/handlebars_partial_loader.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_partial_loader.c b/src/handlebars_partial_loader.c
index 34e336f..25881fd 100644
--- a/src/handlebars_partial_loader.c
+++ b/src/handlebars_partial_loader.c
@@ -102,7 +102,8 @@ static struct handlebars_value * hbs_partial_loader_map_find(struct handlebars_v
     FILE * f;
     long size;
 
-    f = fopen(hbs_str_val(filename), "rb");
+    // A null byte would end the name of the file early
+    f = strlen(hbs_str_val(filename)) == hbs_str_len(filename) ? fopen(hbs_str_val(filename), "rb") : NULL;
     if( !f ) {
         handlebars_throw(intern->user.ctx, HANDLEBARS_ERROR, "File to open partial: %.*s", (int) hbs_str_len(filename), hbs_str_val(filename));
     }
-- 
2.43.0


From ab6c574fedff3f3215cb635db66230a73f4a05ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:45 +0000
Subject: [PATCH 83/90] fix: string_params and track_ids crashed on a partial
 without arguments

---
 src/handlebars_ast.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_ast.c b/src/handlebars_ast.c
index 87ca15a..544298c 100644
--- a/src/handlebars_ast.c
+++ b/src/handlebars_ast.c
@@ -105,11 +105,12 @@ struct handlebars_string * handlebars_ast_node_get_string_mode_value(
             string = node->node.nul.value;
             break;
         default:
-            string = handlebars_string_ctor(context, HBS_STRL(""));
+            string = NULL;
             break;
     }
 
-    return string;
+    // There is no text for a subexpression, or for the context a partial is given implicitly
+    return string ? string : handlebars_string_ctor(context, HBS_STRL(""));
 }
 
 struct handlebars_ast_node * handlebars_ast_node_get_path(struct handlebars_ast_node * node)
-- 
2.43.0


From f7d823f4c4d02caa91ec843c92fd093e766e2dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:50 +0000
Subject: [PATCH 84/90] fix: handlebarsc cut input at NUL bytes, crashed on
 pipes and directories, ignored unknown options, unreadable empty values and
 write failures

---
 bin/handlebarsc.c | 105 +++++++++++++++++++++++++++-------------------
 1 file changed, 63 insertions(+), 42 deletions(-)

diff --git a/bin/handlebarsc.c b/bin/handlebarsc.c
index 26c5b92..e42e863 100644
--- a/bin/handlebarsc.c
+++ b/bin/handlebarsc.c
@@ -278,30 +278,45 @@ start:
             pretty_print = true;
             break;
 
-        default: assert(0); break; // LCOV_EXCL_LINE
+        // getopt_long has already printed what is wrong
+        default: exit(1);
     }
 
     goto start;
 }
 
-static char * read_stdin(void)
+static char * read_all(FILE * in)
 {
-    char buffer[__BUFF_SIZE];
-    FILE * in = stdin;
-    char * buf = talloc_strdup(root, "");
+    size_t size = 0;
+    size_t capacity = __BUFF_SIZE;
+    size_t read;
+    char * buf = talloc_array(root, char, capacity);
 
     // Read
-    while( fgets(buffer, __BUFF_SIZE, in) != NULL ) {
-        buf = talloc_strdup_append_buffer(buf, buffer);
+    while( buf && (read = fread(buf + size, 1, capacity - size, in)) > 0 ) {
+        size += read;
+        if( size == capacity ) {
+            capacity *= 2;
+            buf = talloc_realloc(root, buf, char, capacity);
+        }
+    }
+
+    if( buf ) {
+        buf = talloc_realloc(root, buf, char, size + 1);
+    }
+
+    if( !buf ) {
+        fprintf(stderr, "Out of memory\n");
+        exit(1);
     }
 
+    buf[size] = 0;
     return buf;
 }
 
 static char * file_get_contents(char * filename)
 {
     FILE * f;
-    long size;
     char * buf;
 
     // No input file?
@@ -309,7 +324,7 @@ static char * file_get_contents(char * filename)
         fprintf(stderr, "No input file!\n");
         exit(1);
     } else if( strcmp(filename, "-") == 0 ) {
-        return read_stdin();
+        return read_all(stdin);
     }
 
     f = fopen(filename, "rb");
@@ -318,17 +333,11 @@ static char * file_get_contents(char * filename)
         exit(1);
     }
 
-    fseek(f, 0, SEEK_END);
-    size = ftell(f);
-    fseek(f, 0, SEEK_SET);
-
-    buf = talloc_array(root, char, size + 1);
-    size_t read = fread(buf, size, 1, f);
+    buf = read_all(f);
+    bool failed = ferror(f) || talloc_array_length(buf) <= 1;
     fclose(f);
 
-    buf[size] = 0;
-
-    if (!read) {
+    if( failed ) {
         fprintf(stderr, "Failed to read file: %s\n", filename);
         exit(1);
     }
@@ -465,7 +474,7 @@ static int do_lex(void)
 
     // Read
     readInput();
-    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, strlen(input_buf));
+    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, input_buf_length);
 
     // Preprocess
     if( compiler_flags & handlebars_compiler_flag_compat ) {
@@ -508,7 +517,7 @@ static int do_parse(void)
 
     // Read
     readInput();
-    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, strlen(input_buf));
+    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, input_buf_length);
 
     // Preprocess
     if( compiler_flags & handlebars_compiler_flag_compat ) {
@@ -554,7 +563,7 @@ static int do_compile(void)
 
     // Read
     readInput();
-    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, strlen(input_buf));
+    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, input_buf_length);
 
     // Preprocess
     if( compiler_flags & handlebars_compiler_flag_compat ) {
@@ -603,7 +612,7 @@ static int do_module(void)
 
     // Read
     readInput();
-    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, strlen(input_buf));
+    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, input_buf_length);
 
     // Preprocess
     if( compiler_flags & handlebars_compiler_flag_compat ) {
@@ -668,7 +677,7 @@ static int do_execute(void)
 
     // Read
     readInput();
-    tmpl = handlebars_string_ctor(HBSCTX(parser), input_buf, strlen(input_buf));
+    tmpl = handlebars_string_ctor(HBSCTX(parser), input_buf, input_buf_length);
 
     // Preprocess
     if( compiler_flags & handlebars_compiler_flag_compat ) {
@@ -682,16 +691,15 @@ static int do_execute(void)
         char * input_str = file_get_contents(input_data_name);
         size_t input_str_size = talloc_array_length(input_str);
         if (input_str && input_str_size > 1) {
-            if (handlebars_value_is_empty(input) && input_data_name_len > 5 && (0 == strcmp(input_data_name + input_data_name_len - 5, ".yaml") ||
-                    0 == strcmp(input_data_name + input_data_name_len - 4, ".yml"))) {
+            if ((input_data_name_len > 5 && 0 == strcmp(input_data_name + input_data_name_len - 5, ".yaml")) ||
+                    (input_data_name_len > 4 && 0 == strcmp(input_data_name + input_data_name_len - 4, ".yml"))) {
 #ifdef HANDLEBARS_HAVE_YAML
                 handlebars_value_init_yaml_string(ctx, input, input_str);
 #else
                 fprintf(stderr, "Failed to process input data: YAML support is disabled");
                 exit(1);
 #endif
-            }
-            if (handlebars_value_is_empty(input)) {
+            } else {
 #ifdef HANDLEBARS_HAVE_JSON
                 // assume json
                 handlebars_value_init_json_stringl(ctx, input, input_str, input_str_size - 1);
@@ -748,6 +756,27 @@ static int do_execute(void)
     return 0;
 }
 
+static int run_mode(void)
+{
+    switch( mode ) {
+        case handlebarsc_mode_version: return do_version();
+        case handlebarsc_mode_lex: return do_lex();
+        case handlebarsc_mode_parse: return do_parse();
+        case handlebarsc_mode_compile: return do_compile();
+        case handlebarsc_mode_module: return do_module();
+        case handlebarsc_mode_execute: return do_execute();
+        case handlebarsc_mode_debuginfo: return do_debuginfo();
+        case handlebarsc_mode_usage: return do_usage();
+
+        // LCOV_EXCL_START
+        default:
+            assert(0);
+            do_usage();
+            return 1;
+        // LCOV_EXCL_STOP
+    }
+}
+
 int main(int argc, char * argv[])
 {
 #ifdef HANDLEBARS_HAVE_VALGRIND
@@ -778,21 +807,13 @@ int main(int argc, char * argv[])
         }
     }
 
-    switch( mode ) {
-        case handlebarsc_mode_version: return do_version();
-        case handlebarsc_mode_lex: return do_lex();
-        case handlebarsc_mode_parse: return do_parse();
-        case handlebarsc_mode_compile: return do_compile();
-        case handlebarsc_mode_module: return do_module();
-        case handlebarsc_mode_execute: return do_execute();
-        case handlebarsc_mode_debuginfo: return do_debuginfo();
-        case handlebarsc_mode_usage: return do_usage();
+    int status = run_mode();
 
-        // LCOV_EXCL_START
-        default:
-            assert(0);
-            do_usage();
-            return 1;
-        // LCOV_EXCL_STOP
+    // Nothing is known to be written before it is flushed
+    if( (fflush(stdout) != 0 || ferror(stdout)) && status == 0 ) {
+        fprintf(stderr, "Failed to write output\n");
+        status = 1;
     }
+
+    return status;
 }
-- 
2.43.0


From bac8182396f1e851935ed66f23c836c6361d4131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:54 +0000
Subject: [PATCH 85/90] fix: a JSON object entered twice counted as two
 contexts

---
 src/handlebars_json.c           | 9 ++++++++-
 src/handlebars_value.c          | 6 +++++-
 src/handlebars_value_handlers.h | 3 +++
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_json.c b/src/handlebars_json.c
index 74d96a8..1579779 100644
--- a/src/handlebars_json.c
+++ b/src/handlebars_json.c
@@ -277,6 +277,12 @@ static long hbs_json_count(struct handlebars_value * value)
 
 }
 
+static bool hbs_json_eq(struct handlebars_user * user, struct handlebars_user * user2)
+{
+    // Every lookup wraps the object again
+    return GET_INTERN(user)->object == GET_INTERN(user2)->object;
+}
+
 static const struct handlebars_value_handlers handlebars_value_hbs_json_handlers = {
     "json",
     &hbs_json_copy,
@@ -287,7 +293,8 @@ static const struct handlebars_value_handlers handlebars_value_hbs_json_handlers
     &hbs_json_array_find,
     &hbs_json_iterator_init,
     NULL, // call
-    &hbs_json_count
+    &hbs_json_count,
+    &hbs_json_eq
 };
 
 void handlebars_value_init_json_object(struct handlebars_context * ctx, struct handlebars_value * value, struct json_object *json)
diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index a0c9ca7..291d3f1 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -379,7 +379,11 @@ bool handlebars_value_eq(
         case HANDLEBARS_VALUE_TYPE_MAP:
             return value->v.map == value2->v.map;
         case HANDLEBARS_VALUE_TYPE_USER:
-            return value->v.user == value2->v.user;
+            return value->v.user == value2->v.user || (
+                value->v.user->handlers == value2->v.user->handlers &&
+                value->v.user->handlers->eq &&
+                value->v.user->handlers->eq(value->v.user, value2->v.user)
+            );
         case HANDLEBARS_VALUE_TYPE_HELPER:
             return value->v.helper == value2->v.helper;
         case HANDLEBARS_VALUE_TYPE_PTR:
diff --git a/src/handlebars_value_handlers.h b/src/handlebars_value_handlers.h
index 8ef5202..6157362 100644
--- a/src/handlebars_value_handlers.h
+++ b/src/handlebars_value_handlers.h
@@ -39,6 +39,7 @@ typedef struct handlebars_value * (*handlebars_array_find_func)(struct handlebar
 typedef bool (*handlebars_iterator_init_func)(struct handlebars_value_iterator * it, struct handlebars_value * value);
 typedef struct handlebars_value * (*handlebars_call_func)(struct handlebars_value * value, HANDLEBARS_FUNCTION_ARGS);
 typedef long (*handlebars_count_func)(struct handlebars_value * value);
+typedef bool (*handlebars_eq_func)(struct handlebars_user * user, struct handlebars_user * user2);
 
 void handlebars_user_init(struct handlebars_user * user, struct handlebars_context * ctx, const struct handlebars_value_handlers * handlers)
     HBS_ATTR_NONNULL_ALL;
@@ -84,6 +85,8 @@ struct handlebars_value_handlers {
     handlebars_iterator_init_func iterator;
     handlebars_call_func call;
     handlebars_count_func count;
+    //! Whether two users of this type stand for the same object, may be NULL
+    handlebars_eq_func eq;
 };
 
 HBS_EXTERN_C_END
-- 
2.43.0


From f0b134a6cb5cee6c5aff11f9e85d6bedbaf52d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:00 +0000
Subject: [PATCH 86/90] fix: JSON followed by anything else was accepted, a
 number at the end of a text was not

---
 src/handlebars_json.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_json.c b/src/handlebars_json.c
index 1579779..a658891 100644
--- a/src/handlebars_json.c
+++ b/src/handlebars_json.c
@@ -345,6 +345,19 @@ static struct json_object *json_tokener_parse_verbose_length(const char *str, si
     }
 
 	obj = json_tokener_parse_ex(tok, str, length);
+	if (tok->err == json_tokener_success) {
+		// Only whitespace may follow, and the terminator of the string
+		size_t end = tok->char_offset;
+		while (end < length && strchr(" \t\r\n", str[end]) && (str[end] || end == length - 1)) {
+			end++;
+		}
+		if (end < length) {
+			tok->err = json_tokener_error_parse_unexpected;
+		}
+	} else if (tok->err == json_tokener_continue) {
+		// A number may end with the text
+		obj = json_tokener_parse_ex(tok, "", 1);
+	}
 	*error = tok->err;
 	if (tok->err != json_tokener_success) {
 #if defined(JSON_C_VERSION_NUM) && JSON_C_VERSION_NUM >= ((0 << 16) | (17 << 8))
@@ -381,5 +394,5 @@ void handlebars_value_init_json_stringl(struct handlebars_context *ctx, struct h
 
 void handlebars_value_init_json_string(struct handlebars_context *ctx, struct handlebars_value * value, const char * json)
 {
-    handlebars_value_init_json_stringl(ctx, value, json, strlen(json) + 1);
+    handlebars_value_init_json_stringl(ctx, value, json, strlen(json));
 }
-- 
2.43.0


From a0736190812a3254ae9457d9329fd842721e8328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:06 +0000
Subject: [PATCH 87/90] fix: YAML quoted scalars and nulls had the wrong type,
 cycles, odd keys and deep nesting crashed

---
 src/handlebars_yaml.c | 61 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 49 insertions(+), 12 deletions(-)

diff --git a/src/handlebars_yaml.c b/src/handlebars_yaml.c
index ee802d9..0049080 100644
--- a/src/handlebars_yaml.c
+++ b/src/handlebars_yaml.c
@@ -19,6 +19,7 @@
 #include "config.h"
 #endif
 
+#include <errno.h>
 #include <yaml.h>
 
 #include "handlebars.h"
@@ -44,21 +45,44 @@ static int _yaml_ctx_dtor(struct _yaml_ctx * holder)
     return 0;
 }
 
-void handlebars_value_init_yaml_node(struct handlebars_context *ctx, struct handlebars_value * value, struct yaml_document_s * document, struct yaml_node_s * node)
+// The nodes being converted, innermost first
+struct _yaml_path {
+    const struct yaml_node_s * node;
+    const struct _yaml_path * parent;
+    unsigned depth;
+};
+
+// Deeper documents are rejected, before the recursion below (or that of a destructor) exhausts the stack
+#define YAML_MAX_DEPTH 1000
+
+static void _yaml_node(struct handlebars_context *ctx, struct handlebars_value * value, struct yaml_document_s * document, struct yaml_node_s * node, const struct _yaml_path * parent)
 {
+    const struct _yaml_path path = {node, parent, parent ? parent->depth + 1 : 0};
     HANDLEBARS_VALUE_DECL(tmp);
     yaml_node_pair_t * pair;
     yaml_node_item_t * item;
     char * end = NULL;
 
+    if( path.depth > YAML_MAX_DEPTH ) {
+        handlebars_throw(ctx, HANDLEBARS_ERROR, "YAML Parse Error: nested too deeply");
+    }
+
+    for( ; parent; parent = parent->parent ) {
+        if( parent->node == node ) {
+            handlebars_throw(ctx, HANDLEBARS_ERROR, "YAML Parse Error: an alias refers to a node that contains it");
+        }
+    }
+
     switch( node->type ) {
         case YAML_MAPPING_NODE: {
             struct handlebars_map * map = handlebars_map_ctor(ctx, node->data.mapping.pairs.top - node->data.mapping.pairs.start);
             for( pair = node->data.mapping.pairs.start; pair < node->data.mapping.pairs.top; pair++ ) {
                 yaml_node_t * keyNode = yaml_document_get_node(document, pair->key);
                 yaml_node_t * valueNode = yaml_document_get_node(document, pair->value);
-                assert(keyNode->type == YAML_SCALAR_NODE);
-                handlebars_value_init_yaml_node(ctx, tmp, document, valueNode);
+                if( keyNode->type != YAML_SCALAR_NODE ) {
+                    handlebars_throw(ctx, HANDLEBARS_ERROR, "YAML Parse Error: a key is not a scalar");
+                }
+                _yaml_node(ctx, tmp, document, valueNode, &path);
                 map = handlebars_map_str_update(map, (const char *) keyNode->data.scalar.value, keyNode->data.scalar.length, tmp);
             }
             handlebars_value_map(value, map);
@@ -68,31 +92,39 @@ void handlebars_value_init_yaml_node(struct handlebars_context *ctx, struct hand
             struct handlebars_stack * stack = handlebars_stack_ctor(ctx, node->data.sequence.items.top - node->data.sequence.items.start);
             for( item = node->data.sequence.items.start; item < node->data.sequence.items.top; item++) {
                 yaml_node_t * valueNode = yaml_document_get_node(document, *item);
-                handlebars_value_init_yaml_node(ctx, tmp, document, valueNode);
+                _yaml_node(ctx, tmp, document, valueNode, &path);
                 stack = handlebars_stack_push(stack, tmp);
             }
             handlebars_value_array(value, stack);
             break;
         }
         case YAML_SCALAR_NODE:
-            if( 0 == strcmp((const char *) node->data.scalar.value, "true") ) {
+            // Only plain scalars have a type other than string
+            if( node->data.scalar.style != YAML_PLAIN_SCALAR_STYLE ) {
+                handlebars_value_str(value, handlebars_string_ctor(ctx, (const char *) node->data.scalar.value, node->data.scalar.length));
+            } else if( 0 == strcmp((const char *) node->data.scalar.value, "true") ) {
                 handlebars_value_boolean(value, 1);
             } else if( 0 == strcmp((const char *) node->data.scalar.value, "false") ) {
                 handlebars_value_boolean(value, 0);
+            } else if( node->data.scalar.length == 0 || 0 == strcmp((const char *) node->data.scalar.value, "null") || 0 == strcmp((const char *) node->data.scalar.value, "~") ) {
+                handlebars_value_null(value);
             } else {
                 long lval;
                 double dval;
                 // Long
+                errno = 0;
                 lval = strtol((const char *) node->data.scalar.value, &end, 10);
-                if( !*end ) {
+                if( !*end && errno != ERANGE ) {
                     handlebars_value_integer(value, lval);
                     goto done;
                 }
-                // Double
-                dval = strtod((const char *) node->data.scalar.value, &end);
-                if( !*end ) {
-                    handlebars_value_float(value, dval);
-                    goto done;
+                // Double, but not the words strtod understands
+                if( !node->data.scalar.value[strspn((const char *) node->data.scalar.value, "+-.0123456789abcdefABCDEFxXpP")] ) {
+                    dval = strtod((const char *) node->data.scalar.value, &end);
+                    if( !*end ) {
+                        handlebars_value_float(value, dval);
+                        goto done;
+                    }
                 }
                 // String
                 handlebars_value_str(value, handlebars_string_ctor(ctx, (const char *) node->data.scalar.value, node->data.scalar.length));
@@ -108,6 +140,11 @@ done:
     HANDLEBARS_VALUE_UNDECL(tmp);
 }
 
+void handlebars_value_init_yaml_node(struct handlebars_context *ctx, struct handlebars_value * value, struct yaml_document_s * document, struct yaml_node_s * node)
+{
+    _yaml_node(ctx, value, document, node, NULL);
+}
+
 void handlebars_value_init_yaml_string(struct handlebars_context * ctx, struct handlebars_value * value, const char * yaml)
 {
     struct _yaml_ctx * yctx = handlebars_talloc_zero(ctx, struct _yaml_ctx);
@@ -125,7 +162,7 @@ void handlebars_value_init_yaml_string(struct handlebars_context * ctx, struct h
     if( node ) {
         handlebars_value_init_yaml_node(ctx, value, &yctx->document, node);
     } else {
-        handlebars_throw(ctx, HANDLEBARS_ERROR, "YAML Parse Error: [%d] %s", yctx->parser.error, yctx->parser.problem);
+        handlebars_throw(ctx, HANDLEBARS_ERROR, "YAML Parse Error: [%d] %s", yctx->parser.error, yctx->parser.problem ? yctx->parser.problem : "no document");
     }
     handlebars_talloc_free(yctx);
 }
-- 
2.43.0


From 95f8ee3bcc0af19a3c8faf925ff5c2b1e562b425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:17 +0000
Subject: [PATCH 88/90] fix: eight or more hash arguments used a map that was
 freed

---
 src/handlebars_vm.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 6fc6b23..36747b1 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -654,9 +654,7 @@ ACCEPT_FUNCTION(assign_to_hash)
     assert(opcode->op1.type == handlebars_operand_type_string);
     assert(handlebars_value_get_type(hash) == HANDLEBARS_VALUE_TYPE_MAP);
 
-    struct handlebars_map * map = handlebars_value_get_map(hash);
-    map = handlebars_map_update(map, opcode->op1.data.string.string, value);
-    handlebars_value_map(hash, map);
+    handlebars_value_map_update(hash, opcode->op1.data.string.string, value);
 
     PUSH(vm->hashStack, hash);
 
-- 
2.43.0


From 4e8a10d933f4c49c11740d5161280e7d77f17959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:06 +0000
Subject: [PATCH 89/90] fix: known_helpers_only crashed on a helper call by a
 path without a part

---
 src/handlebars_compiler.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/handlebars_compiler.c b/src/handlebars_compiler.c
index 583a207..6477e9b 100644
--- a/src/handlebars_compiler.c
+++ b/src/handlebars_compiler.c
@@ -1146,6 +1146,10 @@ static inline void handlebars_compiler_accept_sexpr_helper(
         handlebars_operand_set_stringval(CONTEXT, opcode, &opcode->op2, name);
         __PUSH(opcode);
     } else if( compiler->flags & handlebars_compiler_flag_known_helpers_only ) {
+        if( !name ) {
+            // A path without a part, such as "."
+            name = path->node.path.original;
+        }
         handlebars_throw_ex(
             CONTEXT,
             HANDLEBARS_UNKNOWN_HELPER,
-- 
2.43.0


From d35607d826685c963256af2518b7d992e8212f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:12 +0000
Subject: [PATCH 90/90] fix: alternate_decorators crashed on a decorator using
 its surroundings

---
 src/handlebars_compiler.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/handlebars_compiler.c b/src/handlebars_compiler.c
index 6477e9b..42b184d 100644
--- a/src/handlebars_compiler.c
+++ b/src/handlebars_compiler.c
@@ -1015,6 +1015,11 @@ static inline void handlebars_compiler_accept_decorator(
 
         origcompiler = compiler;
         subcompiler = talloc_steal(compiler, handlebars_compiler_ctor(CONTEXT));
+        subcompiler->program->main = program->main;
+        handlebars_compiler_set_flags(subcompiler, handlebars_compiler_get_flags(compiler));
+        subcompiler->bps = compiler->bps;
+        subcompiler->sns = compiler->sns;
+        subcompiler->known_helpers = compiler->known_helpers;
         program->decorators[program->decorators_length++] = talloc_steal(program, subcompiler->program);
         compiler = subcompiler;
 
-- 
2.43.0

