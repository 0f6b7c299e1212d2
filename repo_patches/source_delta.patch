From 0837e7ad5d25e64ee0efd41ac245ba9a203ff695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:34 +0000
Subject: [PATCH 01/78] fix: do not put a popped work queue entry back into the
 queue (ABA problem in work_queue_get_work)

---
 src/main.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index a4b32f0..636c828 100644
--- a/src/main.c
+++ b/src/main.c
@@ -3231,7 +3231,14 @@ func void worker_parse_global_scope_entry(struct context *context, struct work_q
     if(context->error) return;
     if(context->should_sleep){
         struct token *sleep_on = context->sleep_on;
-        work->sleeping_on = context->sleep_on;
+        
+        // @note: The sleeping entry has to be a new one. Another thread might have loaded 'work' as 'queue->begin' 
+        //        (and is about to load 'work->next' or to compare-and-swap 'queue->begin'). If we would link 'work' 
+        //        into the sleeper table and later back into the queue, that compare-and-swap could succeed using a 
+        //        stale 'next', skipping entries and parsing others twice.
+        struct work_queue_entry *sleeping_work = push_struct(context->arena, struct work_queue_entry);
+        sleeping_work->data        = work->data;
+        sleeping_work->sleeping_on = context->sleep_on;
         
         parse_work->sleeping_ident = context->sleeping_ident;
         assert(!parse_work->sleeping_ident || parse_work->sleeping_ident->type == TOKEN_identifier);
@@ -3244,7 +3251,7 @@ func void worker_parse_global_scope_entry(struct context *context, struct work_q
             if(is_static) sleeper_table = &context->current_compilation_unit->static_sleeper_table;
         }
         
-        sleeper_table_add(sleeper_table, work, sleep_on, context->sleep_purpose);
+        sleeper_table_add(sleeper_table, sleeping_work, sleep_on, context->sleep_purpose);
         return;
     }
     
-- 
2.43.0


From a7a4b228d95aecd25157c19949ed06f2d9293895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 02/78] fix: announce table accesses before checking for a
 concurrent grow (ast_table and sleeper_table)

---
 src/main.c | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/main.c b/src/main.c
index 636c828..34296ab 100644
--- a/src/main.c
+++ b/src/main.c
@@ -155,6 +155,19 @@ func void maybe_grow_ast_table__internal(struct ast_table *table){
     
 }
 
+// Announces that this thread is about to use 'table->nodes'. 
+// The check of the lock has to happen _after_ we have incremented 'threads_in_flight', as the thread growing the table 
+// first sets the lock and then waits for the 'threads_in_flight' to drain. If the check happened before the increment, 
+// the table could get replaced (and freed) while we are using it.
+// Returns 0 (without having announced anything) if the table is currently locked.
+func int table_try_begin_access(s64 *is_locked_for_growing, s64 *threads_in_flight){
+    atomic_preincrement(threads_in_flight);
+    if(!atomic_load(s64, *is_locked_for_growing)) return 1;
+    
+    atomic_predecrement(threads_in_flight);
+    return 0;
+}
+
 func enum ast_kind *ast_table_add_or_return_previous_entry(struct ast_table *table, enum ast_kind *ast_to_insert, struct token *token){
     while(true){
         if(atomic_load(s64, table->is_locked_for_growing)) continue;
@@ -177,11 +190,9 @@ func enum ast_kind *ast_table_add_or_return_previous_entry(struct ast_table *tab
             table->is_locked_for_growing = false;
         }
         
-        break;
+        if(table_try_begin_access(&table->is_locked_for_growing, &table->threads_in_flight)) break;
     }
     
-    atomic_preincrement(&table->threads_in_flight);
-    
     // @WARNING: this portion needs to stay in sync with :c_compat_build_global_definition_table
     
     assert(ast_to_insert);
@@ -219,9 +230,11 @@ func enum ast_kind *ast_table_add_or_return_previous_entry(struct ast_table *tab
 }
 
 func enum ast_kind *ast_table_get(struct ast_table *table, struct atom atom){
-    while(atomic_load(s64, table->is_locked_for_growing));
-    
-    atomic_preincrement(&table->threads_in_flight);
+    while(true){
+        if(atomic_load(s64, table->is_locked_for_growing)) continue;
+        
+        if(table_try_begin_access(&table->is_locked_for_growing, &table->threads_in_flight)) break;
+    }
     
     u64 index = atom.string_hash & table->mask;
     assert(index < table->capacity);
@@ -1332,7 +1345,7 @@ func struct sleeper_table sleeper_table_create(smm capacity){
     return sleeper_table;
 }
 
-func void sleeper_table_maybe_grow(struct sleeper_table *table){
+func void sleeper_table_maybe_grow_and_begin_access(struct sleeper_table *table){
     while(true){
         if(atomic_load(s64, table->is_locked_for_growing)) continue;
         
@@ -1386,14 +1399,13 @@ func void sleeper_table_maybe_grow(struct sleeper_table *table){
             // unlock
             table->is_locked_for_growing = false;
         }
-        break;
+        
+        if(table_try_begin_access(&table->is_locked_for_growing, &table->threads_in_flight)) break;
     }
 }
 
 func void sleeper_table_add(struct sleeper_table *table, struct work_queue_entry *entry, struct token *token, enum sleep_purpose sleep_purpose){
-    sleeper_table_maybe_grow(table);
-    
-    atomic_preincrement(&table->threads_in_flight);
+    sleeper_table_maybe_grow_and_begin_access(table);
     
     assert(token);
     assert(entry);
@@ -1452,8 +1464,7 @@ func void sleeper_table_add(struct sleeper_table *table, struct work_queue_entry
 }
 
 func u64 sleeper_table_delete(struct sleeper_table *table, struct token *token, enum sleep_purpose sleep_purpose){
-    sleeper_table_maybe_grow(table);
-    atomic_preincrement(&table->threads_in_flight);
+    sleeper_table_maybe_grow_and_begin_access(table);
     
     assert(token);
     
-- 
2.43.0


From 716dbe42d11013182d6811a7ef21ddcce3819990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:57 +0000
Subject: [PATCH 03/78] fix: fill in the size of an array of unknown size
 atomically instead of patching a shared type

---
 src/main.c  | 80 ++++++++++++++++++++++++++++++++++-------------------
 src/parse.c |  2 +-
 2 files changed, 52 insertions(+), 30 deletions(-)

diff --git a/src/main.c b/src/main.c
index 34296ab..b5ae8e0 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1851,34 +1851,33 @@ func struct ast_declaration *register_declaration(struct context *context, struc
             // @cleanup: I think one could cleanup this function really well..
             
             
-            if(redecl->type->kind == AST_array_type && decl->type->kind == AST_array_type){
-                struct ast_array_type *redecl_type = (struct ast_array_type *)redecl->type;
+            // :threading
+            // @note: The type of an array of unknown size is filled in by whoever knows its size first, hence 'redecl->type' 
+            //        might change while we are in here. We only look at it once and never alter the type itself, as we are 
+            //        not the only one using it (e.g. it might come from a typedef).
+            struct ast_type *redecl_type_at_load = redecl->type;
+            
+            if(redecl->kind == IR_declaration && decl->kind == IR_declaration && redecl_type_at_load->kind == AST_array_type && decl->type->kind == AST_array_type){
+                struct ast_array_type *redecl_type = (struct ast_array_type *)redecl_type_at_load;
                 struct ast_array_type *decl_type   = (struct ast_array_type *)decl->type;
                 
-                if(redecl_type->is_of_unknown_size && !decl_type->is_of_unknown_size){
-                    
-                    // :threading @cleanup: Here we set the size and the amount of elements.
-                    // 
-                    // Maybe there is a bug where 
-                    //     int arr[];
-                    //     int arr[3];
-                    //     int arr[5];
-                    // might go through, as one might go through, after both started in here and then the second one 
-                    // set the size and the amount of elements, thus also passing the redeclaration check down below.
-                    // I am not gonna handle this right now, as it requires really weird code and I could not think
-                    // of a good solution. (maybe compare-and-swap in the correct value for amount of elements?),
-                    // but are there races all over the place, where people check if its an array of unknown size?
-                    //                                                                                   02.05.2021
-                    
-                    patch_array_size(context, redecl_type, decl_type->amount_of_elements, redecl->identifier);
-                    
-                    struct sleeper_table *sleeper_table = &globals.declaration_sleeper_table;
-                    if(redecl->flags & DECLARATION_FLAGS_is_static) sleeper_table = &decl->compilation_unit->static_sleeper_table;
-                    wake_up_sleepers(sleeper_table, redecl->identifier, SLEEP_on_array_size);
-                }
-                
-                if(decl_type->is_of_unknown_size && !redecl_type->is_of_unknown_size){
-                    patch_array_size(context, decl_type, redecl_type->amount_of_elements, decl->identifier);
+                if(types_are_equal(redecl_type->element_type, decl_type->element_type)){
+                    if(redecl_type->is_of_unknown_size && !decl_type->is_of_unknown_size){
+                        struct ast_type *previous = atomic_compare_and_swap(&redecl->type, decl->type, redecl_type_at_load);
+                        
+                        if(previous == redecl_type_at_load){
+                            // We were the one to fill in the size.
+                            redecl_type_at_load = decl->type;
+                            
+                            struct sleeper_table *sleeper_table = declaration_is_static ? &compilation_unit->static_sleeper_table : &globals.declaration_sleeper_table;
+                            wake_up_sleepers(sleeper_table, redecl->identifier, SLEEP_on_array_size);
+                        }else{
+                            // Someone else filled in the size, below we check that it is the same one.
+                            redecl_type_at_load = previous;
+                        }
+                    }else if(decl_type->is_of_unknown_size && !redecl_type->is_of_unknown_size){
+                        decl->type = redecl_type_at_load;
+                    }
                 }
             }
             
@@ -1941,7 +1940,7 @@ func struct ast_declaration *register_declaration(struct context *context, struc
                         end_error_report(context);
                         return decl;
                     }
-                }else if(types_are_equal(redecl->type, decl->type)){
+                }else if(types_are_equal(redecl_type_at_load, decl->type)){
                     
                     // 
                     // @cleanup: How do we handle this eventually...?
@@ -1959,7 +1958,7 @@ func struct ast_declaration *register_declaration(struct context *context, struc
                     return redecl;
                 }else{
                     struct string   decl_type = push_type_string(context->arena, &context->scratch,   decl->type);
-                    struct string redecl_type = push_type_string(context->arena, &context->scratch, redecl->type);
+                    struct string redecl_type = push_type_string(context->arena, &context->scratch, redecl_type_at_load);
                     
                     begin_error_report(context);
                     report_error(context, decl->identifier, "[%lld] Redeclaration with mismatching type '%.*s'.", decl->compilation_unit->index, decl_type.size, decl_type.data);
@@ -2061,9 +2060,32 @@ func int parser_register_definition(struct context *context, struct ast_declarat
         }
         return 0;
     }else{
+        
+        struct ast_type *previous_type = decl->type;
+        
+        if(type->kind == AST_array_type && previous_type->kind == AST_array_type){
+            // :threading
+            // @note: If this definition is the one that knows the size of an array of unknown size, fill it in. 
+            //        Another declaration might do the same thing right now, in which case they have to agree.
+            if(type_is_array_of_unknown_size(previous_type)){
+                struct ast_type *at_load = previous_type;
+                previous_type = atomic_compare_and_swap(&decl->type, type, at_load);
+                if(previous_type == at_load) return 1;
+            }
+            
+            if(((struct ast_array_type *)previous_type)->amount_of_elements != ((struct ast_array_type *)type)->amount_of_elements){
+                struct string          type_string = push_type_string(context->arena, &context->scratch, type);
+                struct string previous_type_string = push_type_string(context->arena, &context->scratch, previous_type);
+                
+                report_error(context, initializer_token, "[%lld] Definition has type '%.*s', but it was previously declared with type '%.*s'.", context->current_compilation_unit->index, type_string.size, type_string.data, previous_type_string.size, previous_type_string.data);
+                return 0;
+            }
+            
+            return 1;
+        }
+        
         // @note: Hard set the type here, we know that this is the definition, this is necessary for functions
         //        e.g: replace 'int _start(int some_wrong_name)' by 'int _start(int the_right_name)'.
-        //        We also use this for arrays of unknown size.
         decl->type = type; 
         return 1;
     }
diff --git a/src/parse.c b/src/parse.c
index 5056f2e..3eb157b 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -2712,7 +2712,7 @@ func void parse_initializer(struct context *context, struct ast_declaration *dec
         compound_literal->decl = decl;
         compound_literal->trailing_array_size = 0;
         
-        parse_initializer_list(context, decl->type, 0, &compound_literal->trailing_array_size);
+        parse_initializer_list(context, type, 0, &compound_literal->trailing_array_size);
         
         initializer_start = &compound_literal->base;
         
-- 
2.43.0


From e224495f25e8bc0ec1a38cdea4390a542e44f30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:18 +0000
Subject: [PATCH 04/78] fix: wake up everyone sleeping on the size of an array
 once its initializer has filled it in

---
 src/parse.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 3eb157b..e6a0596 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -2699,7 +2699,8 @@ func void parse_initializer(struct context *context, struct ast_declaration *dec
     //     6) struct s a = {?};
     // 
     struct ir *initializer_start = null;
-    struct ast_type *type = decl->type;
+    struct ast_type *initial_type = decl->type;
+    struct ast_type *type = initial_type;
     
     if(peek_token(context, TOKEN_open_curly)){
         // 
@@ -2743,13 +2744,6 @@ func void parse_initializer(struct context *context, struct ast_declaration *dec
             
             // Reset the trailing array size, to not overallocate later on.
             compound_literal->trailing_array_size = 0;
-            
-            if(decl->flags & DECLARATION_FLAGS_is_global){
-                struct sleeper_table *sleeper_table = &globals.declaration_sleeper_table;
-                if(decl->flags & DECLARATION_FLAGS_is_static) sleeper_table = &decl->compilation_unit->static_sleeper_table;
-                
-                wake_up_sleepers(sleeper_table, decl->identifier, SLEEP_on_array_size);
-            }
         }
         
     }else{
@@ -2876,6 +2870,15 @@ func void parse_initializer(struct context *context, struct ast_declaration *dec
         
         // If we are at global scope, submit that this is actually a definition.
         parser_register_definition(context, decl, initializer_start, equals, type);
+        
+        if((decl->flags & DECLARATION_FLAGS_is_global) && type_is_array_of_unknown_size(initial_type)){
+            // The initializer filled in the size of the array, wake up everyone that was waiting for it. 
+            // This has to happen after 'decl->type' is set.
+            struct sleeper_table *sleeper_table = &globals.declaration_sleeper_table;
+            if(decl->flags & DECLARATION_FLAGS_is_static) sleeper_table = &decl->compilation_unit->static_sleeper_table;
+            
+            wake_up_sleepers(sleeper_table, decl->identifier, SLEEP_on_array_size);
+        }
     }else{
         // If we are at local scope, we control this declaration, thus we can just plug in
         // its expression and type slot.
-- 
2.43.0


From 019281ee96d442a356c51ef349d87b5d6220288c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:35 +0000
Subject: [PATCH 05/78] fix: retry a _Static_assert at global scope once the
 declaration it sleeps on exists, instead of dropping it

---
 src/main.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/main.c b/src/main.c
index b5ae8e0..25b1e4f 100644
--- a/src/main.c
+++ b/src/main.c
@@ -3253,14 +3253,17 @@ func void worker_parse_global_scope_entry(struct context *context, struct work_q
         return;
     }
     
-    if(peek_token(context, TOKEN_static_assert)){
+    int is_static_assert = (peek_token(context, TOKEN_static_assert) != null);
+    struct declaration_list declaration_list = zero_struct;
+    
+    if(is_static_assert){
+        // @note: The condition might contain something we have to sleep on, e.g. _Static_assert(sizeof(struct later) == 4).
         struct token *static_assert_token = next_token(context);
-        parse_static_assert(context, static_assert_token); // @cleanup: static_assert and sleeping.
-        expect_token(context, TOKEN_semicolon, "Expected a ';' after _Static_assert.");
-        return;
+        parse_static_assert(context, static_assert_token);
+    }else{
+        declaration_list = parse_declaration_list(context, null, null);
     }
     
-    struct declaration_list declaration_list = parse_declaration_list(context, null, null);
     if(context->error) return;
     if(context->should_sleep){
         struct token *sleep_on = context->sleep_on;
@@ -3288,6 +3291,11 @@ func void worker_parse_global_scope_entry(struct context *context, struct work_q
         return;
     }
     
+    if(is_static_assert){
+        expect_token(context, TOKEN_semicolon, "Expected a ';' after _Static_assert.");
+        return;
+    }
+    
     // might not be the full type e.g. int (*a)
     struct ast_type *lhs_type = declaration_list.type_specifier;
     
-- 
2.43.0


From be84b6dc2ae0bb99540e007fd8c2f29815cd4814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:12 +0000
Subject: [PATCH 06/78] fix: report an error if a file could not be read
 completely, instead of using what was read of it

---
 src/preprocess.c | 5 +++++
 src/std.c        | 1 +
 src/windows.c    | 4 ++++
 3 files changed, 10 insertions(+)

diff --git a/src/preprocess.c b/src/preprocess.c
index 409e7bb..448e2b8 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -2683,6 +2683,11 @@ func struct file *load_or_get_source_file_by_absolute_path(struct context *conte
     
     end_counter(context, load_file);
     
+    if(os_file.file_does_not_exist){
+        report_error(context, 0, "Error: Could not read file '%s'.", absolute_file_path);
+        goto end;
+    }
+    
     if(os_file.amount != file_size){
         report_error(context, 0, "Error: File '%s' changed during compilation.", absolute_file_path);
         goto end;
diff --git a/src/std.c b/src/std.c
index 5e3a84a..ea36a3a 100644
--- a/src/std.c
+++ b/src/std.c
@@ -1783,6 +1783,7 @@ func struct os_file load_file_into_arena(char *file_name, struct memory_arena *a
     u8 *buf = push_uninitialized_data(arena, u8, file.amount + 1);
     buf[file.amount] = 0;
     file = os_load_file(file_name, buf, file.amount + 1);
+    if(!file.data) file.file_does_not_exist = true; // The file grew in between the two loads.
     return file;
 }
 
diff --git a/src/windows.c b/src/windows.c
index c6f3c83..46db2f7 100644
--- a/src/windows.c
+++ b/src/windows.c
@@ -726,6 +726,7 @@ static struct os_file os_load_file(char *file_name, void *buffer, smm buffer_siz
     if(!GetFileInformationByHandle(file_handle, &file_information)){
         CloseHandle(file_handle);
         // @reserche, when can this happen?
+        result.file_does_not_exist = true; // We cannot load it, in particular do not treat it like an empty file.
         return result;
     }
     
@@ -748,6 +749,9 @@ static struct os_file os_load_file(char *file_name, void *buffer, smm buffer_siz
     DWORD bytes_read;
     if(file_size && (!ReadFile(file_handle, buffer, cast(DWORD) file_size, &bytes_read, 0) || file_size != bytes_read)){
         CloseHandle(file_handle);
+        // We could not read (all of) the file, make sure no one works with an incomplete file.
+        result.size = 0;
+        result.file_does_not_exist = true;
         return result;
     }
     
-- 
2.43.0


From 5a7ef796c4fad7b311ead8d8b277acf8e35a7ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:23 +0000
Subject: [PATCH 07/78] fix: report an error if the .pdb could not be written
 completely

---
 src/coff_writer.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/coff_writer.c b/src/coff_writer.c
index 36bb330..81f5514 100644
--- a/src/coff_writer.c
+++ b/src/coff_writer.c
@@ -332,6 +332,11 @@ struct msf_stream{
     u64 size;
 };
 
+func int msf_write_to_file(HANDLE file_handle, void *data, u32 size){
+    DWORD bytes_written = 0;
+    return WriteFile(file_handle, data, size, &bytes_written, 0) && (bytes_written == size);
+}
+
 // 
 // Write an MSF from a set of streams.
 // The general layout will be as follows:
@@ -527,7 +532,8 @@ int write_msf(char *file_name, struct msf_stream *streams, u32 amount_of_streams
     HANDLE file_handle = CreateFileA(file_name, GENERIC_WRITE, 0, 0, CREATE_ALWAYS, 0, NULL);
     if(file_handle == INVALID_HANDLE_VALUE) return 0;
     
-    WriteFile(file_handle, msf_header, 0x1000, 0, 0);
+    int success = 1;
+    success = success && msf_write_to_file(file_handle, msf_header, 0x1000);
     
     u64 write_offset = 0x1000;
     u64 next_free_page_maps = 0x1000;
@@ -556,11 +562,11 @@ int write_msf(char *file_name, struct msf_stream *streams, u32 amount_of_streams
                 if(range_end <= amount_of_pages){
                     // If the range covered by this free page map is entirely in the file,
                     // write all zeros (all allocated).
-                    WriteFile(file_handle, zero_buffer, 0x1000, 0, 0);
+                    success = success && msf_write_to_file(file_handle, zero_buffer, 0x1000);
                 }else if(amount_of_pages < range_start){
                     // If the range covered by this free page map is entirely outside the file,
                     // write all ones (all free).
-                    WriteFile(file_handle, ones_buffer, 0x1000, 0, 0);
+                    success = success && msf_write_to_file(file_handle, ones_buffer, 0x1000);
                 }else{
                     u8 buffer[0x1000] = {0};
                     
@@ -573,10 +579,10 @@ int write_msf(char *file_name, struct msf_stream *streams, u32 amount_of_streams
                         
                         buffer[byte_index] |= (u8)(1 << bit_index);
                     }
-                    WriteFile(file_handle, buffer, 0x1000, 0, 0);
+                    success = success && msf_write_to_file(file_handle, buffer, 0x1000);
                 }
                 
-                WriteFile(file_handle, zero_buffer, 0x1000, 0, 0); // Ignored free page map.
+                success = success && msf_write_to_file(file_handle, zero_buffer, 0x1000); // Ignored free page map.
                 
                 write_offset += 0x2000;
                 next_free_page_maps += 0x1000 * 0x1000;
@@ -588,11 +594,11 @@ int write_msf(char *file_name, struct msf_stream *streams, u32 amount_of_streams
                 size_to_write = (u32)(next_free_page_maps - write_offset);
             }
             
-            WriteFile(file_handle, stream.data + offset_in_stream, size_to_write, 0, 0);
+            success = success && msf_write_to_file(file_handle, stream.data + offset_in_stream, size_to_write);
             
             if(size_to_write & 0xfff){
                 u32 size_to_zero = 0x1000 - (size_to_write & 0xfff);
-                WriteFile(file_handle, zero_buffer, size_to_zero, 0, 0); // Ignored free page map.
+                success = success && msf_write_to_file(file_handle, zero_buffer, size_to_zero); // Ignored free page map.
                 size_to_write += size_to_zero;
             }
             
@@ -602,7 +608,7 @@ int write_msf(char *file_name, struct msf_stream *streams, u32 amount_of_streams
     }
     
     CloseHandle(file_handle);
-    return 1;
+    return success;
 }
 
 //_____________________________________________________________________________________________________________________
-- 
2.43.0


From d6368e7416de313e3984499f9c35c5abd7931e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:23 +0000
Subject: [PATCH 08/78] fix: do not write through a failed allocation in
 write_msf

---
 src/coff_writer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/coff_writer.c b/src/coff_writer.c
index 81f5514..77a984b 100644
--- a/src/coff_writer.c
+++ b/src/coff_writer.c
@@ -416,6 +416,7 @@ int write_msf(char *file_name, struct msf_stream *streams, u32 amount_of_streams
     // 
     u32 *stream_table_stream    = malloc(stream_table_stream_size);
     u32 *stream_table_page_list = malloc(stream_table_page_list_size);
+    if(!stream_table_stream || !stream_table_page_list) return 0;
     
     u32 stream_table_page_list_size_in_pages = (u32)((stream_table_page_list_size + 0xfff)/0x1000);
     
-- 
2.43.0


From a3c17d7bdad3bbac5c67f115029ec0adcf498d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:23 +0000
Subject: [PATCH 09/78] fix: report an error if the command line cannot be
 allocated

---
 src/windows.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/windows.c b/src/windows.c
index 46db2f7..5781cfc 100644
--- a/src/windows.c
+++ b/src/windows.c
@@ -932,12 +932,19 @@ func struct parsed_command_line windows_parse_command_line(char *command_line){
     smm command_line_size = cstring_length(command_line);
 
     char *preped_command_line = (char *)GlobalAlloc(GMEM_FIXED, command_line_size + 1);
+    if(!preped_command_line){
+        print("Error: Out of memory while parsing the command line.\n");
+        os_panic(1);
+    }
     
     smm amount_of_arguments = windows_parse_command_line__internal(
                                   command_line, command_line_size, preped_command_line);
     
     char **argv = (char **)GlobalAlloc(GMEM_FIXED, (amount_of_arguments + 1) * sizeof(char *));
-
+    if(!argv){
+        print("Error: Out of memory while parsing the command line.\n");
+        os_panic(1);
+    }
     
     char *at = preped_command_line;
     for(smm i = 0; i < amount_of_arguments; i++){
-- 
2.43.0


From 2340dd7e52d6e35d39555d1d2026d9627a3aeee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:18 +0000
Subject: [PATCH 10/78] fix: report an error if the preprocessed file (/P, /EP)
 cannot be written

---
 src/main.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/main.c b/src/main.c
index 25b1e4f..62a60d7 100644
--- a/src/main.c
+++ b/src/main.c
@@ -2715,6 +2715,14 @@ func void reset_context(struct context *context){
     context->pragma_pack_stack.first = context->pragma_pack_stack.last = null;
 }
 
+func void write_to_preprocessed_file(struct context *context, char *data, smm size){
+    DWORD bytes_written = 0;
+    if(!WriteFile(globals.preprocessed_file_handle, data, (DWORD)size, &bytes_written, 0) || bytes_written != (DWORD)size){
+        report_error(context, null, "Error: Unable to write the preprocessed file.");
+        globals.an_error_has_occurred = true;
+    }
+}
+
 func void worker_preprocess_file(struct context *context, struct work_queue_entry *work){
     
     struct work_tokenize_file *work_tokenize_file = cast(struct work_tokenize_file *)work->data;
@@ -2868,7 +2876,7 @@ func void worker_preprocess_file(struct context *context, struct work_queue_entr
         
         smm preprocessed_file_size = (char *)arena_current(&context->scratch) - preprocessed_file_start;
         
-        WriteFile(globals.preprocessed_file_handle, preprocessed_file_start, (DWORD)preprocessed_file_size, NULL, NULL);
+        write_to_preprocessed_file(context, preprocessed_file_start, preprocessed_file_size);
         return;
     }
     
@@ -4897,6 +4905,10 @@ globals.typedef_##postfix = (struct ast_type){
             }
             
             globals.preprocessed_file_handle = CreateFileA((char *)output_file_name.data, GENERIC_WRITE, 0, 0, CREATE_ALWAYS, 0, NULL);
+            if(globals.preprocessed_file_handle == INVALID_HANDLE_VALUE){
+                print("Error: Unable to write file '%.*s'.\n", output_file_name.size, output_file_name.data);
+                return 1;
+            }
         }else{
             globals.preprocessed_file_handle = GetStdHandle(STD_OUTPUT_HANDLE);
         }
@@ -4997,16 +5009,16 @@ globals.typedef_##postfix = (struct ast_type){
         char buffer[0x100];
         for(struct alternate_name *name = globals.alternate_names.first; name; name = name->next){
             int length = snprintf(buffer, sizeof(buffer), "#pragma comment(linker, \"/ALTERNATENAME:%.*s=%.*s\")\n", (int)name->source.size, name->source.data, (int)name->destination.size, name->destination.data);
-            DWORD chars_written;
-            WriteFile(globals.preprocessed_file_handle, buffer, (u32)length, &chars_written, 0);
+            write_to_preprocessed_file(context, buffer, length);
         }
         
         for(struct specified_library *library = globals.specified_libraries.first; library; library = library->next){
             int length = snprintf(buffer, sizeof(buffer), "#pragma comment(lib, \"%.*s\")\n", (int)library->library_path.size, library->library_path.data);
-            DWORD chars_written;
-            WriteFile(globals.preprocessed_file_handle, buffer, (u32)length, &chars_written, 0);
+            write_to_preprocessed_file(context, buffer, length);
         }
         
+        if(globals.an_error_has_occurred) goto end;
+        
         return 0;
     }
     
-- 
2.43.0


From 8fea52dd6414e45b793fe66b5eb13789ca2d7c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:27 +0000
Subject: [PATCH 11/78] sim: let the simulator choose the initial capacity of
 the shared tables (HLC_SIMULATION, off by default)

---
 src/main.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 62a60d7..afaa69c 100644
--- a/src/main.c
+++ b/src/main.c
@@ -103,9 +103,15 @@ struct ast_table{
 };
 
 
+#ifdef HLC_SIMULATION
+smm sim_knob(char *name, smm value); // provided by the simulator, which may choose another value.
+#else
+#define sim_knob(name, value) (value)
+#endif
+
 func struct ast_table ast_table_create(smm initial_capacity){
     struct ast_table ret = zero_struct;
-    ret.capacity = initial_capacity;
+    ret.capacity = sim_knob("initial table capacity", initial_capacity);
     ret.mask = ret.capacity - 1;
     smm byte_size = ret.capacity * sizeof(struct ast_node);
     ret.nodes = os_allocate_memory(byte_size);
@@ -1337,7 +1343,7 @@ func struct ast_table *compilation_unit_get_declaration_table_for_ident(struct c
 
 func struct sleeper_table sleeper_table_create(smm capacity){
     struct sleeper_table sleeper_table = zero_struct;
-    sleeper_table.capacity = capacity;
+    sleeper_table.capacity = sim_knob("initial table capacity", capacity);
     sleeper_table.mask = sleeper_table.capacity - 1;
     smm byte_size = sleeper_table.capacity * sizeof(struct sleeper_node);
     sleeper_table.nodes = os_allocate_memory(byte_size);
-- 
2.43.0


From 8c91d56a912ecd587def072871a9c2dfea638e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:12 +0000
Subject: [PATCH 12/78] fix: do not use a different file if an include or
 library cannot be opened

---
 src/main.c       | 2 +-
 src/preprocess.c | 4 ++--
 src/std.c        | 1 +
 src/windows.c    | 8 ++++++++
 4 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/main.c b/src/main.c
index afaa69c..75bf293 100644
--- a/src/main.c
+++ b/src/main.c
@@ -5382,7 +5382,7 @@ globals.typedef_##postfix = (struct ast_type){
                     struct string file_path = concatenate_file_paths(context->arena, library_path_node->string, library);
                     struct os_file file = os_load_file((char *)file_path.data, 0, 0);
                     
-                    if(!file.file_does_not_exist){
+                    if(!file.file_does_not_exist || file.file_is_unreadable){ // @note: If it is unreadable, parsing it reports the error.
                         full_library_path = file_path;
                         break;
                     }
diff --git a/src/preprocess.c b/src/preprocess.c
index 448e2b8..eafa63a 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -2760,7 +2760,7 @@ func struct file *get_or_load_file_by_walking_system_include_directories(struct
         
         struct string path = concatenate_file_paths(&context->scratch, directory, include_string);
         struct os_file dummy = os_load_file((char *)path.data, 0, 0);
-        if(!dummy.file_does_not_exist){
+        if(!dummy.file_does_not_exist || dummy.file_is_unreadable){ // @note: If it is unreadable, loading it reports the error.
             return load_or_get_source_file_by_absolute_path(context, push_cstring_from_string(context->arena, path), dummy.size, /*is_system_include*/1);
         }
     }
@@ -2788,7 +2788,7 @@ func struct file *get_or_load_file_for_include_string(struct context *context, s
         struct string path = strip_file_name(string_from_cstring(parent_file->absolute_file_path));
         struct string absolute_file_path = canonicalize_slashes(concatenate_file_paths(&context->scratch, path, include_string));
         struct os_file dummy = os_load_file((char *)absolute_file_path.data, 0, 0);
-        if(!dummy.file_does_not_exist){
+        if(!dummy.file_does_not_exist || dummy.file_is_unreadable){ // @note: If it is unreadable, loading it reports the error.
             // 
             // The include was a relative ""-include.
             // 
diff --git a/src/std.c b/src/std.c
index ea36a3a..9f2c009 100644
--- a/src/std.c
+++ b/src/std.c
@@ -148,6 +148,7 @@ struct memory_buffer{
 
 struct os_file{
     b32 file_does_not_exist;
+    b32 file_is_unreadable; // Set in addition to 'file_does_not_exist', if there is a file, but we could not open it.
     
     // time given in number 100-nanosecond intervals elapsed since 00:00 hours, Jan 1, 1970 UTC
     // I.e a more precise version of unix time stamps
diff --git a/src/windows.c b/src/windows.c
index 5781cfc..3baf504 100644
--- a/src/windows.c
+++ b/src/windows.c
@@ -712,12 +712,18 @@ u32 get_unix_time(void){
     return (u32)((ull.QuadPart / 10000000ULL) - epochOffset);
 }
 
+func b32 path_is_directory(char *path);
+
 static struct os_file os_load_file(char *file_name, void *buffer, smm buffer_size){
     struct os_file result = zero_struct;
     
     // @cleanup this should do the W-thing
     HANDLE file_handle = CreateFileA(file_name, GENERIC_READ, FILE_SHARE_READ, NULL, OPEN_EXISTING, FILE_ATTRIBUTE_NORMAL, NULL);
     if(file_handle == INVALID_HANDLE_VALUE){
+        DWORD error = GetLastError();
+        
+        // @note: Opening a directory results in 'ERROR_ACCESS_DENIED'.
+        result.file_is_unreadable  = (error == /*ERROR_SHARING_VIOLATION*/32) || (error == /*ERROR_ACCESS_DENIED*/5 && !path_is_directory(file_name));
         result.file_does_not_exist = true;
         return result;
     }
@@ -726,6 +732,7 @@ static struct os_file os_load_file(char *file_name, void *buffer, smm buffer_siz
     if(!GetFileInformationByHandle(file_handle, &file_information)){
         CloseHandle(file_handle);
         // @reserche, when can this happen?
+        result.file_is_unreadable  = true;
         result.file_does_not_exist = true; // We cannot load it, in particular do not treat it like an empty file.
         return result;
     }
@@ -751,6 +758,7 @@ static struct os_file os_load_file(char *file_name, void *buffer, smm buffer_siz
         CloseHandle(file_handle);
         // We could not read (all of) the file, make sure no one works with an incomplete file.
         result.size = 0;
+        result.file_is_unreadable  = true;
         result.file_does_not_exist = true;
         return result;
     }
-- 
2.43.0


From 10cd2e5c6ef307a1088f09e34080861a110ca4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:12 +0000
Subject: [PATCH 13/78] fix: do not use the table of system include files if a
 directory could not be listed

---
 src/main.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 75bf293..982ae7b 100644
--- a/src/main.c
+++ b/src/main.c
@@ -4753,6 +4753,8 @@ globals.typedef_##postfix = (struct ast_type){
         
         struct system_include_file_entry *entries = push_data(arena, struct system_include_file_entry, capacity);
         
+        int listing_failed = false;
+        
         for(struct string_list_node *node = globals.system_include_directories.list.first; node; node = node->next){
             
             struct file_path_entry{
@@ -4788,7 +4790,11 @@ globals.typedef_##postfix = (struct ast_type){
                 
                 WIN32_FIND_DATAA FindData = {0};
                 HANDLE FindHandle = FindFirstFileA(SearchBuffer, &FindData);
-                if(FindHandle == INVALID_HANDLE_VALUE) continue; // I don't think this can happen.
+                if(FindHandle == INVALID_HANDLE_VALUE){
+                    DWORD error = GetLastError();
+                    if(error != /*ERROR_FILE_NOT_FOUND*/2 && error != /*ERROR_PATH_NOT_FOUND*/3) listing_failed = true;
+                    continue;
+                }
                 
                 do{
                     char *FileName       = FindData.cFileName;
@@ -4866,10 +4872,22 @@ globals.typedef_##postfix = (struct ast_type){
                     
                 } while(FindNextFileA(FindHandle, &FindData));
                 
+                if(GetLastError() != /*ERROR_NO_MORE_FILES*/18) listing_failed = true;
+                
                 FindClose(FindHandle);
             }
         }
         
+        if(listing_failed){
+            // 
+            // We don't know all of the files, hence the table could contain a file that is hidden by a file in an earlier directory.
+            // Leave the table empty, and walk the system include directories for every include instead.
+            // 
+            entries  = null;
+            capacity = 0;
+            count    = 0;
+        }
+        
         globals.system_include_table.entries  = entries;
         globals.system_include_table.capacity = capacity;
         globals.system_include_table.count    = count;
-- 
2.43.0


From 663f711168ac12da1505e4ddb53067ee9322cd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:12 +0000
Subject: [PATCH 14/78] fix: report an error if the files matching a wildcard
 could not all be found

---
 src/main.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main.c b/src/main.c
index 982ae7b..c98d95d 100644
--- a/src/main.c
+++ b/src/main.c
@@ -4041,6 +4041,11 @@ int main(int argc, char *argv[]){
                 
             }while(FindNextFileA(search_handle, &find_data));
             
+            if(GetLastError() != /*ERROR_NO_MORE_FILES*/18){
+                print("Error: Could not find all files matching '%.*s'.\n", path.size, path.data);
+                return 1;
+            }
+            
             FindClose(search_handle);
         }else{
             
-- 
2.43.0


From c47fde83497fc989dca79c773e048a74cad8c6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:12 +0000
Subject: [PATCH 15/78] fix: do not wait forever for a thread that could not be
 created

---
 src/main.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index c98d95d..98fc3e4 100644
--- a/src/main.c
+++ b/src/main.c
@@ -5005,7 +5005,14 @@ globals.typedef_##postfix = (struct ast_type){
     
     // @note: thread '0' is the main thread, so just start all other ones
     for(u32 thread_index = 1; thread_index < thread_count; thread_index++){
-        os_create_thread(work_thread_proc, &thread_infos[thread_index]);
+        struct os_thread_info os_thread_info = os_create_thread(work_thread_proc, &thread_infos[thread_index]);
+        if(!os_thread_info.handle){
+            // 
+            // Use the threads that could be started.
+            // 
+            thread_count = globals.thread_count = thread_index;
+            break;
+        }
     }
     
     while(globals.work_queue_tokenize_files.work_entries_in_flight > 0) worker_work(context, &globals.work_queue_tokenize_files, worker_preprocess_file);
-- 
2.43.0


From 1719f4d538c821233fd99409f918ca6e61f5458d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:20 +0000
Subject: [PATCH 16/78] fix: reject a thread count of zero

---
 src/main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.c b/src/main.c
index 98fc3e4..227d814 100644
--- a/src/main.c
+++ b/src/main.c
@@ -4910,6 +4910,10 @@ globals.typedef_##postfix = (struct ast_type){
     
     if(globals.cli_options.thread_count_specified){
         thread_count = globals.cli_options.thread_count;
+        if(thread_count < 1){
+            print("Error: /thread_count option must specify at least one thread.\n");
+            return 1;
+        }
         if(thread_count > 10 * system_info.dwNumberOfProcessors){
             print("Error: /thread_count option specifies a thread count of more than 10 times the number of processors on the system.\n");
             return 1;
-- 
2.43.0


From 75116f00573e7be7a394e93912781388c3b2cb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 17/78] fix: do not let the xmm registers of a function depend
 on the functions compiled before it

---
 src/emit_x64.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index 1f03a6c..078bd87 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -4748,6 +4748,7 @@ func void emit_code_for_function(struct context *context, struct ast_function *f
     };
     
     context->gpr_allocator.rolling_index = REGISTER_C;
+    context->xmm_allocator.rolling_index = 0;
     
     struct ast_type *return_type = function->type->return_type;
     
-- 
2.43.0


From 0adf6e9956305c2a1728c0fcd8fb4ef2ad6bf57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 18/78] fix: do not drop the first line of a file included by
 #include_next

---
 src/preprocess.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/preprocess.c b/src/preprocess.c
index eafa63a..01e367a 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -4411,6 +4411,17 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                         
                         struct file *parent_file = globals.file_table.data[directive->file_index];
                         
+                        // We have do handle the junk ourselves, as we will push new tokens.
+                        eat_whitespace_and_comments(context);
+                        if(!peek_token_raw(context, TOKEN_newline)){
+                            report_warning(context, WARNING_junk_after_directive, get_current_token_raw(context), "Junk after '#%.*s'.", directive_string.size, directive_string.data);
+                        }
+                        
+                        while(!peek_token_raw(context, TOKEN_newline)){
+                            next_token_raw(context);
+                        }
+                        got_newline = true;
+                        
                         struct file *next_include = get_or_load_file_by_walking_system_include_directories(context, file_name, parent_file);
                         if(!next_include){
                             report_error(context, directive, "'%.*s' include_next file not found.", file_name.size, file_name.data);
@@ -4418,6 +4429,8 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                         }
                         
                         maybe_push_file_to_include_stack(context, next_include);
+                        
+                        continue;
                     }else if(directive_kind == DIRECTIVE_embed){
                         assert(!have_postponed_directive); // @paranoid
                         
-- 
2.43.0


From 50e58fa1153296a514eafa096dc688f05cface65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 19/78] fix: treat different spellings of the path of a file as
 the same file

---
 src/std.c | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/std.c b/src/std.c
index 9f2c009..6bf1ca7 100644
--- a/src/std.c
+++ b/src/std.c
@@ -1550,6 +1550,37 @@ func b32 path_contains_wildcard(struct string path){
 // always zero_terminated, this routine assumes that both 'absolute' and 'relative' have been canonicalized to only contain forward slashes.
 func struct string concatenate_file_paths(struct memory_arena *arena, struct string absolute, struct string relative){
     
+    // 
+    // Remove '.' and '..' components which are not at the front, e.g. "foo/../bar/./baz.h" -> "bar/baz.h".
+    // Otherwise, different spellings of the same path would be treated as different files.
+    // 
+    struct string normalized = { .data = push_uninitialized_data(arena, u8, relative.size + 1) };
+    
+    for(smm at = 0; at < relative.size;){
+        smm end = at;
+        while(end < relative.size && relative.data[end] != '/') end++;
+        
+        struct string component = create_string(relative.data + at, end - at);
+        at = end + /*slash*/(end < relative.size);
+        
+        smm last = normalized.size - 1; // Start of the last component in 'normalized', it always ends in a slash.
+        while(last > 0 && normalized.data[last - 1] != '/') last--;
+        
+        struct string last_component = create_string(normalized.data + last, normalized.size - last);
+        
+        if(normalized.size && string_match(component, string("."))){
+            // Ignore it.
+        }else if(normalized.size > 1 && string_match(component, string("..")) && !string_match(last_component, string("/")) && !string_match(last_component, string("./")) && !string_match(last_component, string("../"))){
+            normalized.size = last;
+        }else{
+            smm size = at - (component.data - relative.data);
+            memcpy(normalized.data + normalized.size, component.data, size);
+            normalized.size += size;
+        }
+    }
+    
+    relative = normalized;
+    
     int directories_to_pop = 0;
     
     while(relative.size){
-- 
2.43.0


From f08fde2bd8e4b837fe41c0c7f875c0ea5e8fbcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 20/78] fix: let #include_next continue after the directory the
 file was found in

---
 src/preprocess.c | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index 01e367a..dc560e9 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -2733,31 +2733,37 @@ func struct file *load_or_get_source_file_by_absolute_path(struct context *conte
 // If the last include is null, this is called as a last resort in `get_or_load_file_for_include_string` otherwise it is called from #include_next.
 func struct file *get_or_load_file_by_walking_system_include_directories(struct context *context, struct string include_string, struct file *include_next){
     
-    int found_last = (include_next == null); 
+    struct string_list_node *first_directory = globals.system_include_directories.list.first;
     
-    for(struct string_list_node *node = globals.system_include_directories.list.first; node; node = node->next){
-        
-        struct string directory = node->string;
+    if(include_next){
+        // 
+        // Start after the directory 'include_next' was found in. This is the directory which gives 'include_next'
+        // for the same include string or, if there is none, the first directory containing 'include_next'.
+        // 
+        struct string include_next_file_path = string_from_cstring(include_next->absolute_file_path);
+        struct string_list_node *found = null;
         
-        if(!found_last){
-            // 
-            // Check if 'include_next->absolute_file_path' starts with 'node->string'.
-            // 
-            char *include_next_file_path = include_next->absolute_file_path;
-            
-            int skip = false;
+        for(struct string_list_node *node = first_directory; node; node = node->next){
             
-            for(smm index = 0; index < directory.size && include_next_file_path[index]; index++){
-                if(directory.data[index] != include_next_file_path[index]){
-                    skip = true;
-                    break;
-                }
+            if(string_match(concatenate_file_paths(&context->scratch, node->string, include_string), include_next_file_path)){
+                found = node;
+                break;
             }
             
-            if(!skip) found_last = true;
-            continue;
+            struct string directory = node->string;
+            while(directory.size && directory.data[directory.size - 1] == '/') directory.size -= 1;
+            
+            int is_inside = directory.size < include_next_file_path.size && include_next_file_path.data[directory.size] == '/' && string_match(directory, create_string(include_next_file_path.data, directory.size));
+            if(is_inside && !found) found = node;
         }
         
+        first_directory = found ? found->next : null;
+    }
+    
+    for(struct string_list_node *node = first_directory; node; node = node->next){
+        
+        struct string directory = node->string;
+        
         struct string path = concatenate_file_paths(&context->scratch, directory, include_string);
         struct os_file dummy = os_load_file((char *)path.data, 0, 0);
         if(!dummy.file_does_not_exist || dummy.file_is_unreadable){ // @note: If it is unreadable, loading it reports the error.
-- 
2.43.0


From 7a43da942df5ac3bd03670fbcfef0a2538eccc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 21/78] fix: an error about an /ALTERNATENAME ends the
 compilation

---
 src/main.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main.c b/src/main.c
index 227d814..5b6f543 100644
--- a/src/main.c
+++ b/src/main.c
@@ -5131,6 +5131,11 @@ globals.typedef_##postfix = (struct ast_type){
         }
     }
     
+    if(context->error){
+        globals.an_error_has_occurred = true;
+        goto end;
+    }
+    
     struct string_list attempted_entry_point_string_list = {};
     
     if(!globals.cli_options.no_entry){
-- 
2.43.0


From c0b7f4dc3a97dca7f1df42c4953fac1b3c0d0bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 22/78] fix: relocations of selectany variables in object files
 belong to the section of the variable

---
 src/obj_writer.c | 76 +++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 72 insertions(+), 4 deletions(-)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index 1ec2f64..2359378 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -2316,6 +2316,8 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
     // Selectany sections.
     // 
     
+    u64 first_selectany_section_index = section_header_count;
+    
     for_ast_list(selectany_variables){
         struct ast_declaration *decl = (struct ast_declaration *)it->value;
         
@@ -2692,6 +2694,8 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
         record->type = 0;
     }
     
+    smm first_selectany_symbol_table_index = (arena_current(arena) - (u8 *)symbol_table_base)/18;
+    
     for_ast_list(selectany_variables){
         struct ast_declaration *decl = (struct ast_declaration *)it->value;
         
@@ -2718,6 +2722,8 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
         record->type = 0;
     }
     
+    smm end_selectany_symbol_table_index = (arena_current(arena) - (u8 *)symbol_table_base)/18;
+    
     smm string_symbol_base = (arena_current(arena) - (u8 *)symbol_table_base)/18;
     for(struct string_symbol *symbol = string_symbols.first; symbol; symbol = symbol->next){
         struct coff_symbol_table_record *record = (struct coff_symbol_table_record *)push_data(arena, u8, 18);
@@ -2801,6 +2807,7 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
     struct patch_node *text_patches = null;
     struct patch_node *data_patches = null;
     struct patch_node *tls_patches  = null;
+    struct patch_node *selectany_patches = null;
     
     smm amount_of_text_patches = 0;
     smm amount_of_data_patches = 0;
@@ -2809,10 +2816,6 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
     for(smm thread_index = 0; thread_index < globals.thread_count; thread_index++){
         struct context *thread_context = globals.thread_infos[thread_index].context;
         
-        // 
-        // @cleanup: Patches to __declspec(selectany) variables probably do not work.
-        // 
-        
         for(struct patch_node *patch = thread_context->local_patch_list.first; patch; ){
             struct patch_node *next = patch->next;
             
@@ -2834,6 +2837,9 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
                     patch->next = tls_patches;
                     tls_patches = patch;
                     amount_of_tls_patches += 1;
+                }else if(dest_declaration->symbol_table_index >= first_selectany_symbol_table_index && dest_declaration->symbol_table_index < end_selectany_symbol_table_index){
+                    patch->next = selectany_patches;
+                    selectany_patches = patch;
                 }else{
                     patch->next = data_patches;
                     data_patches = patch;
@@ -3041,6 +3047,68 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
     }
     
     
+    // 
+    // Every selectany variable has its own section and hence its own relocations.
+    // 
+    for_ast_list(selectany_variables){
+        struct ast_declaration *declaration = (struct ast_declaration *)it->value;
+        
+        u64 section_index = first_selectany_section_index + (declaration->symbol_table_index - first_selectany_symbol_table_index);
+        struct coff_section_header *selectany_section = &section_headers[section_index];
+        
+        smm amount_of_selectany_patches = 0;
+        for(struct patch_node *patch = selectany_patches; patch; patch = patch->next){
+            if(patch->dest_declaration == declaration) amount_of_selectany_patches += 1;
+        }
+        
+        if(!amount_of_selectany_patches) continue;
+        
+        selectany_section->pointer_to_relocations = (u32)(arena_current(arena) - obj_base_address);
+        
+        if(amount_of_selectany_patches <= 0xffff){
+            selectany_section->number_of_relocations = (u16)amount_of_selectany_patches;
+        }else{
+            assert(amount_of_selectany_patches < 0xffffffff);
+            
+            selectany_section->characteristics |= /*IMAGE_SCN_LNK_NRELOC_OVFL*/0x01000000;
+            selectany_section->number_of_relocations = 0xffff;
+            
+            struct coff_relocation *relocation = (void *)push_data(arena, u8, 10);
+            relocation->relocation_type = 0; // The relocation is ignored.
+            relocation->destination_offset_in_section = (u32)(amount_of_selectany_patches + 1);
+        }
+        
+        u8 *selectany_relocations_data = push_data(arena, u8, 10 * amount_of_selectany_patches);
+        
+        smm index = 0;
+        for(struct patch_node *patch = selectany_patches; patch; patch = patch->next){
+            if(patch->dest_declaration != declaration) continue;
+            assert(patch->kind == PATCH_absolute); // There should only be absolute patches to .data
+            
+            struct coff_relocation *relocation = (void *)(selectany_relocations_data + 10 * index++);
+            relocation->relocation_type = /*ADDR64*/1;
+            relocation->destination_offset_in_section = (u32)patch->location_offset_in_dest_declaration;
+            
+            // @note: We need the source offset to already be applied to the data.
+            *(u64 *)(declaration->memory_location + patch->location_offset_in_dest_declaration) = patch->location_offset_in_source_declaration;
+            
+            enum ast_kind source_kind = patch->source->kind;
+            
+            if(source_kind == IR_function || source_kind == IR_declaration){
+                struct ast_declaration *source = (struct ast_declaration *)patch->source;
+                
+                u32 is_reference_to_stub = (source->flags & DECLARATION_FLAGS_need_dllimport_stub_function) != 0;
+                relocation->source_symbol_table_index = (u32)source->symbol_table_index + is_reference_to_stub;
+            }else{
+                assert(source_kind == IR_string_literal);
+                struct ir_string_literal *source = (struct ir_string_literal *)patch->source;
+                
+                relocation->source_symbol_table_index = (u32)(string_symbol_base + source->symbol_table_index);
+            }
+        }
+        assert(index == amount_of_selectany_patches);
+    }
+    
     if(defined_functions.count){
         // .pdata reloations:
         // 
-- 
2.43.0


From 4b1f4a0710cc4fb309797c228acff26bdc06c42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:08 +0000
Subject: [PATCH 23/78] fix: relocations of file scope compound literals in
 object files

---
 src/main.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.c b/src/main.c
index 5b6f543..5da1233 100644
--- a/src/main.c
+++ b/src/main.c
@@ -2377,6 +2377,8 @@ func void evaluate_static_initializer__internal(struct context *context, struct
                     evaluate_static_initializer__internal(context, ir_node, patch_declaration, data, data_size, offset);
                 }else{
                     // Add this compound literal to the list of unnamed global declarations.
+                    // It is only evaluated if the declaration containing it is reachable.
+                    compound_literal->decl->flags |= DECLARATION_FLAGS_is_reachable_from_entry;
                     ast_list_append(&context->global_struct_and_array_literals, context->arena, &compound_literal->decl->kind);
                     
                     ir_stack[ir_stack_at].ir = &compound_literal->decl->base;
-- 
2.43.0


From 1b8aa51e5a82e5c3815a4a12d7b53cbea22675a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 24/78] fix: thread local static variables of functions, and
 references to thread local variables of other objects

---
 src/coff_writer.c |  8 ++++++--
 src/obj_writer.c  | 13 ++++++++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/coff_writer.c b/src/coff_writer.c
index 77a984b..d4e90d5 100644
--- a/src/coff_writer.c
+++ b/src/coff_writer.c
@@ -692,7 +692,9 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
                     
                     for_ast_list(function->static_variables){
                         struct ast_declaration *static_decl = (struct ast_declaration *)it->value;
-                        if(static_decl->assign_expr){
+                        if(static_decl->flags & DECLARATION_FLAGS_is_thread_local){
+                            ast_list_append(&tls_declarations, scratch, &static_decl->kind);
+                        }else if(static_decl->assign_expr){
                             ast_list_append(&initialized_declarations, scratch, &static_decl->kind);
                         }else{
                             ast_list_append(&uninitialized_declarations, scratch, &static_decl->kind);
@@ -720,7 +722,9 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
             
             for_ast_list(function->static_variables){
                 struct ast_declaration *decl = cast(struct ast_declaration *)it->value;
-                if(decl->assign_expr){
+                if(decl->flags & DECLARATION_FLAGS_is_thread_local){
+                    ast_list_append(&tls_declarations, scratch, &decl->kind);
+                }else if(decl->assign_expr){
                     ast_list_append(&initialized_declarations, scratch, &decl->kind);
                 }else{
                     ast_list_append(&uninitialized_declarations, scratch, &decl->kind);
diff --git a/src/obj_writer.c b/src/obj_writer.c
index 2359378..4de3c80 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -1176,6 +1176,7 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
     }
     
     u64 selectany_sections = 0;
+    int references_thread_local_variables = false;
     
     for(struct compilation_unit *compilation_unit = &globals.hacky_global_compilation_unit; compilation_unit; compilation_unit = compilation_unit->next){
         
@@ -1198,6 +1199,8 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
                 // 
                 
                 if(decl->flags & DECLARATION_FLAGS_is_thread_local){
+                    references_thread_local_variables = true;
+                    
                     if((decl->flags & DECLARATION_FLAGS_is_extern) && !decl->assign_expr){
                         ast_list_append(&external_variables, scratch, &decl->kind);
                     }else{
@@ -1272,6 +1275,13 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
                     
                     // @cleanup: These should work different for selectany.
                     for_ast_list(function->static_variables){
+                        struct ast_declaration *static_decl = (struct ast_declaration *)it->value;
+                        if(static_decl->flags & DECLARATION_FLAGS_is_thread_local){
+                            references_thread_local_variables = true;
+                            ast_list_append(&tls_variables, scratch, it->value);
+                            continue;
+                        }
+                        
                         ast_list_append(&defined_variables, scratch, it->value);
                     }
                     continue;
@@ -1291,6 +1301,7 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
         if(!(decl->flags & DECLARATION_FLAGS_is_reachable_from_entry)) continue;
         
         if(decl->kind == IR_declaration){
+            if(decl->flags & DECLARATION_FLAGS_is_thread_local) references_thread_local_variables = true;
             ast_list_append(&external_variables, scratch, &decl->kind);
         }else{
             ast_list_append(&external_functions, scratch, &decl->kind);
@@ -1321,7 +1332,7 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
         }
     }
     
-    if(tls_variables.count){
+    if(references_thread_local_variables){
         // If there were tls variables, the index was referenced.
         ast_list_append(&external_variables, scratch, &globals.tls_index_declaration->kind);
     }
-- 
2.43.0


From 6657da23b7fcff6f7634bd2eace9921da9430882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:34 +0000
Subject: [PATCH 25/78] fix: alignment of variables in object files

---
 src/obj_writer.c | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index 4de3c80..b4e72de 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -1223,6 +1223,8 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
                     
                     if(decl->assign_expr){
                         ast_list_append(&defined_variables, scratch, &decl->kind);
+                    }else if(get_declaration_alignment(decl) > decl->type->alignment){
+                        ast_list_append(&zero_initialized_statics, scratch, &decl->kind);
                     }else{
                         ast_list_append(&automatic_variables, scratch, &decl->kind);
                     }
@@ -1250,6 +1252,12 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
                     continue;
                 }
                 
+                if(get_declaration_alignment(decl) > decl->type->alignment){
+                    // The linker does not know about the alignment of common symbols.
+                    ast_list_append(&zero_initialized_statics, scratch, &decl->kind);
+                    continue;
+                }
+                
                 ast_list_append(&automatic_variables, scratch, &decl->kind);
                 
             }else if(*ast == IR_function){
@@ -1776,9 +1784,6 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
     if(defined_variables.count || global_struct_and_array_literals.count){
         data = section_headers + section_header_count++;
         
-        push_zero_align(arena, 0x10); // @hack: This is because of the alignment thing below. 
-        u8 *data_base = arena_current(arena);
-        
         smm section_alignment = 1;
         
         struct ast_list lists[] = {
@@ -1786,6 +1791,16 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
             global_struct_and_array_literals,
         };
         
+        for(u32 index = 0; index < array_count(lists); index++){
+            for_ast_list(lists[index]){
+                section_alignment = max_of(section_alignment, get_declaration_alignment((struct ast_declaration *)it->value));
+            }
+        }
+        
+        // Align the base, so that aligned addresses have aligned offsets in the section.
+        push_zero_align(arena, max_of(section_alignment, 0x10));
+        u8 *data_base = arena_current(arena);
+        
         for(u32 index = 0; index < array_count(lists); index++){
             for_ast_list(lists[index]){
                 struct ast_declaration *decl = cast(struct ast_declaration *)it->value;
@@ -1793,9 +1808,7 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
                 smm alignment = get_declaration_alignment(decl);
                 smm decl_size = get_declaration_size(decl);
                 
-                push_zero_align(arena, alignment); // @cleanup: This seems wrong... We want to align the offset from the base.
-                
-                section_alignment = max_of(section_alignment, alignment);
+                push_zero_align(arena, alignment);
                 
                 u8 *mem = push_uninitialized_data(arena, u8, decl_size);
                 
@@ -1822,11 +1835,16 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
     if(tls_variables.count){
         tls = section_headers + section_header_count++;
         
-        push_zero_align(arena, 0x10); // @hack: This is because of the alignment thing below. 
+        smm section_alignment = 1;
         
-        u8 *tls_base = arena_current(arena);
+        for_ast_list(tls_variables){
+            section_alignment = max_of(section_alignment, get_declaration_alignment((struct ast_declaration *)it->value));
+        }
         
-        smm section_alignment = 1;
+        // Align the base, so that aligned addresses have aligned offsets in the section.
+        push_zero_align(arena, max_of(section_alignment, 0x10));
+        
+        u8 *tls_base = arena_current(arena);
         
         for_ast_list(tls_variables){
             struct ast_declaration *decl = cast(struct ast_declaration *)it->value;
@@ -1834,9 +1852,7 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
             smm alignment = get_declaration_alignment(decl);
             smm decl_size = get_declaration_size(decl);
             
-            push_zero_align(arena, alignment); // @cleanup: This seems wrong... We want to align the offset from the base.
-            
-            section_alignment = max_of(section_alignment, alignment);
+            push_zero_align(arena, alignment);
             
             u8 *mem = push_uninitialized_data(arena, u8, decl_size);
             
-- 
2.43.0


From 6393340cbfc43bf4d92b53876c108f6fe5856c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 26/78] fix: alignment of the thread local variables of an
 executable

---
 src/coff_writer.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/coff_writer.c b/src/coff_writer.c
index d4e90d5..0c7c7c0 100644
--- a/src/coff_writer.c
+++ b/src/coff_writer.c
@@ -1513,9 +1513,11 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
         
         if(tls_declarations.count){
             {
-                // Calculate the start of the tls section.
-                struct ast_declaration *first_tls_decl = (struct ast_declaration *)tls_declarations.first->value;
-                smm alignment = get_declaration_alignment(first_tls_decl);
+                // Calculate the start of the tls section. Its alignment has to suffice for all variables in there.
+                smm alignment = 1;
+                for_ast_list(tls_declarations){
+                    alignment = max_of(alignment, get_declaration_alignment((struct ast_declaration *)it->value));
+                }
                 push_align(arena, (u32)alignment); // @cleanup: why does push align take a u32?
                 tls_data_rva = make_relative_virtual_address(rdata_section_start, arena_current(arena));
             }
-- 
2.43.0


From 89e303790a3123f1cd89a08249541c203dd23c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:55 +0000
Subject: [PATCH 27/78] fix: the alignment of a variable may be specified by
 any of its declarations

---
 src/main.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main.c b/src/main.c
index 5da1233..5f4c43c 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1952,6 +1952,14 @@ func struct ast_declaration *register_declaration(struct context *context, struc
                     // @cleanup: How do we handle this eventually...?
                     // 
                     
+                    // :threading
+                    // Any of the declarations might specify the alignment, the strictest one wins.
+                    for(smm alignment = redecl->overwrite_alignment; alignment < decl->overwrite_alignment; ){
+                        smm previous = atomic_compare_and_swap_smm(&redecl->overwrite_alignment, decl->overwrite_alignment, alignment);
+                        if(previous == alignment) break;
+                        alignment = previous;
+                    }
+                    
                     if((redecl->flags & DECLARATION_FLAGS_is_extern) && !(decl->flags & DECLARATION_FLAGS_is_extern)){
                         redecl->flags &= ~DECLARATION_FLAGS_is_extern;
                     }
-- 
2.43.0


From f3ee1a1c3cb4d2b6f84c69f5a3929b7ced5a4812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:28 +0000
Subject: [PATCH 28/78] fix: alignment of variables beyond the file alignment

---
 src/coff_writer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/coff_writer.c b/src/coff_writer.c
index 0c7c7c0..a029d9d 100644
--- a/src/coff_writer.c
+++ b/src/coff_writer.c
@@ -1589,7 +1589,9 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
             smm alignment = get_declaration_alignment(decl);
             smm decl_size = get_declaration_size(decl);
             
-            push_zero_align(arena, alignment);
+            // @note: Align inside of the image. Sections are only aligned to 'FILE_ALIGNMENT' inside of the file.
+            smm offset = arena_current(arena) - data_section_start;
+            memset(push_uninitialized_data(arena, u8, align_up(offset, alignment) - offset), 0, align_up(offset, alignment) - offset);
             
             assert(decl->memory_location);
             
-- 
2.43.0


From 63b60f0c049ea9c15db39a95313314b4e73a97d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:47 +0000
Subject: [PATCH 29/78] fix: export every definition that any declaration marks
 dllexport

---
 src/main.c  | 6 +++++-
 src/parse.c | 6 ------
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/main.c b/src/main.c
index 5f4c43c..4c259c3 100644
--- a/src/main.c
+++ b/src/main.c
@@ -5528,15 +5528,19 @@ globals.typedef_##postfix = (struct ast_type){
         globals.globally_referenced_declarations = entry_point_node;
     }
     
-    if(globals.output_file_type == OUTPUT_FILE_obj){
+    {
         // 
         // For an .obj any external function is a potential entry point.
+        // Otherwise, everything that is defined and exported is. Any of the declarations might be 
+        // the one marked '__declspec(dllexport)', not necessarily the one that defines it.
         // 
         
         for(u32 table_index = 0; table_index < globals.global_declarations.capacity; table_index++){
             enum ast_kind *ast = globals.global_declarations.nodes[table_index].ast;
             if(!ast) continue;
             
+            if(globals.output_file_type != OUTPUT_FILE_obj && !(((struct ast_declaration *)ast)->flags & DECLARATION_FLAGS_is_dllexport)) continue;
+            
             if(*ast == IR_function){    
                 struct ast_function *function = (struct ast_function *)ast;
                 assert(!(function->as_decl.flags & DECLARATION_FLAGS_is_static)); // These are 'global_declarations' they should not be static.
diff --git a/src/parse.c b/src/parse.c
index e6a0596..a29cd26 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -8842,8 +8842,6 @@ func struct declaration_list parse_declaration_list(struct context *context, str
                     //                                                                              - 19.10.2024
                     function->scope = scope;
                     decl = &function->as_decl;
-                }else if(specifiers.specifier_flags & SPECIFIER_dllexport){
-                    add_global_reference_for_declaration(context->arena, &function->as_decl);
                 }
             }
         }else{
@@ -8960,10 +8958,6 @@ func struct declaration_list parse_declaration_list(struct context *context, str
                     goto end;
                 }
                 
-                if(specifiers.specifier_flags & SPECIFIER_dllexport){
-                    add_global_reference_for_declaration(context->arena, decl);
-                }
-                
                 // :DeclarationReferenceThreadingBug
                 context->current_declaration = decl;
                 
-- 
2.43.0


From 9fb5407316d3a1a5abd5751c57f803162bc5cabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:47 +0000
Subject: [PATCH 30/78] fix: export variables

---
 src/coff_writer.c | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/coff_writer.c b/src/coff_writer.c
index a029d9d..48358cc 100644
--- a/src/coff_writer.c
+++ b/src/coff_writer.c
@@ -625,6 +625,7 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
     struct ast_list typedefs = zero_struct;
     
     struct ast_list dllexports = zero_struct;
+    u32 *export_address_table = null;
     struct ast_list dll_function_stubs = zero_struct;
     struct ast_list dll_imports = zero_struct;
     
@@ -657,6 +658,10 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
                         continue;
                     }
                     
+                    if(decl->flags & DECLARATION_FLAGS_is_dllexport){
+                        ast_list_append(&dllexports, scratch, ast);
+                    }
+                    
                     if(decl->assign_expr){
                         ast_list_append(&initialized_declarations, arena, ast);
                     }else{
@@ -1446,7 +1451,7 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
         }
         
         if(dllexports.count){
-            u32 *export_address_table = push_data(arena, u32, dllexports.count);
+            export_address_table = push_data(arena, u32, dllexports.count);
             u32 *name_pointer_table   = push_data(arena, u32, dllexports.count);
             u16 *ordinal_table        = push_data(arena, u16, dllexports.count);
             
@@ -1488,8 +1493,8 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
             
 #define function_node_smaller(a, b) \
             string_lexically_smaller( \
-                    ((struct ast_function *)a->value)->identifier->string, \
-                    ((struct ast_function *)b->value)->identifier->string)
+                    ((struct ast_declaration *)a->value)->identifier->string, \
+                    ((struct ast_declaration *)b->value)->identifier->string)
             
             sll_sort(dllexports, scratch, function_node_smaller);
 #undef function_node_smaller
@@ -1498,14 +1503,20 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
             
             u32 i = 0;
             for_ast_list(dllexports){
-                assert(*it->value == IR_function);
-                struct ast_function *function = cast(struct ast_function *)it->value;
-                assert(function->relative_virtual_address); // The function better be emitted!
+                struct ast_declaration *decl = (struct ast_declaration *)it->value;
+                
+                char *name = push_cstring_from_string(arena, decl->identifier->string);
+                name_pointer_table[i] = make_relative_virtual_address(rdata_section_start, name);
+                
+                if(decl->kind == IR_function){
+                    struct ast_function *function = (struct ast_function *)decl;
+                    assert(function->relative_virtual_address); // The function better be emitted!
+                    
+                    export_address_table[i] = to_u32(function->relative_virtual_address);
+                }
                 
+                // @note: The address of an exported variable is only known after the '.data' section was laid out.
                 
-                char *function_name = push_cstring_from_string(arena, function->identifier->string);
-                name_pointer_table[i] = make_relative_virtual_address(rdata_section_start, function_name);
-                export_address_table[i] = to_u32(function->relative_virtual_address);
                 ordinal_table[i] = to_u16((smm)i);
                 i++;
             }
@@ -1613,6 +1624,16 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
     // From this point all functions and all declarations have their relative virtual address set.
     // thus we can patch now.
     
+    {
+        // Fill in the exported variables.
+        u32 i = 0;
+        for_ast_list(dllexports){
+            struct ast_declaration *decl = (struct ast_declaration *)it->value;
+            if(decl->kind == IR_declaration) export_address_table[i] = to_u32(decl->relative_virtual_address);
+            i++;
+        }
+    }
+    
     struct relocation_node{
         struct relocation_node *next;
         smm offset_in_page;
-- 
2.43.0


From c84a2ea831b868194a2aa3ac9bced608c03a1fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:26 +0000
Subject: [PATCH 31/78] fix: change the flags of shared declarations atomically

---
 src/main.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/main.c b/src/main.c
index 4c259c3..7322611 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1819,6 +1819,17 @@ func void parser_register_declaration_in_scope(struct context *context, struct a
 
 func struct ast_type *types_are_equal(struct ast_type *wanted, struct ast_type *given);
 
+// :threading
+// @note: The declarations at global scope are shared by all threads, several of them might alter the flags at the same time.
+func void change_declaration_flags(struct ast_declaration *decl, u64 flags_to_set, u64 flags_to_clear){
+    u64 flags = atomic_load(u64, decl->flags);
+    while(true){
+        u64 previous = atomic_compare_and_swap_u64((u64 *)&decl->flags, (flags | flags_to_set) & ~flags_to_clear, flags);
+        if(previous == flags) break;
+        flags = previous;
+    }
+}
+
 func struct ast_declaration *register_declaration(struct context *context, struct ast_declaration *decl){
     if(context->should_sleep) return decl;
     struct ast_scope *scope = context->current_scope;
@@ -1919,10 +1930,10 @@ func struct ast_declaration *register_declaration(struct context *context, struc
                         report_warning(context, WARNING_declaration_differs_in_attribute, redecl->identifier, "[%lld] ... Here was the previous declaration.", redecl->compilation_unit->index);
                         end_error_report(context);
                         
-                        redecl->flags |= decl_extended_attributes;
+                        change_declaration_flags(redecl, decl_extended_attributes, 0);
                     }
                     
-                    if((decl_extended_attributes & DECLARATION_FLAGS_is_dllimport) != (redecl_extended_attributes & DECLARATION_FLAGS_is_dllimport)) redecl->flags &= ~DECLARATION_FLAGS_is_dllimport;
+                    if((decl_extended_attributes & DECLARATION_FLAGS_is_dllimport) != (redecl_extended_attributes & DECLARATION_FLAGS_is_dllimport)) change_declaration_flags(redecl, 0, DECLARATION_FLAGS_is_dllimport);
                 }
             }
             
@@ -1961,11 +1972,11 @@ func struct ast_declaration *register_declaration(struct context *context, struc
                     }
                     
                     if((redecl->flags & DECLARATION_FLAGS_is_extern) && !(decl->flags & DECLARATION_FLAGS_is_extern)){
-                        redecl->flags &= ~DECLARATION_FLAGS_is_extern;
+                        change_declaration_flags(redecl, 0, DECLARATION_FLAGS_is_extern);
                     }
                     
                     if((redecl->flags & DECLARATION_FLAGS_is_extern) && (decl->flags & DECLARATION_FLAGS_is_static)){
-                        redecl->flags |= DECLARATION_FLAGS_is_static;
+                        change_declaration_flags(redecl, DECLARATION_FLAGS_is_static, 0);
                     }
                     
                     assert(!decl->assign_expr);
@@ -2012,7 +2023,7 @@ func struct ast_declaration *register_declaration(struct context *context, struc
                 if(function->as_decl.flags & DECLARATION_FLAGS_is_dllexport){
                     if(!(redecl_function->type->flags & DECLARATION_FLAGS_is_dllexport)){
                         // only set this if it is not set, to not polute write cache.
-                        redecl_function->as_decl.flags |= DECLARATION_FLAGS_is_dllexport;
+                        change_declaration_flags(redecl, DECLARATION_FLAGS_is_dllexport, 0);
                     }
                 }
                 
-- 
2.43.0


From 63e95f6b809f06e48d1aba068ab7a2a1d1389530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:14 +0000
Subject: [PATCH 32/78] fix: references of an entry were added to the
 declaration of a previous entry

context->current_declaration was never reset, so the first references of an
entry at global scope (for example inside a _Static_assert) were pushed onto
the list of whatever declaration the thread had parsed an initializer for
previously, potentially at the same time as the thread which retries that
initializer pushes to it.
---
 src/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.c b/src/main.c
index 7322611..dd94c66 100644
--- a/src/main.c
+++ b/src/main.c
@@ -3278,6 +3278,7 @@ func void worker_parse_global_scope_entry(struct context *context, struct work_q
     struct parse_work *parse_work = (struct parse_work *)work->data;
     context->current_compilation_unit = parse_work->compilation_unit;
     context->pragma_alignment = parse_work->pragma_alignment;
+    context->current_declaration = null; // @note: References found by this entry must not be added to a declaration of a previous entry.
     
     begin_token_array(context, parse_work->tokens);
     
-- 
2.43.0


From 5906d40ef422d23feebb457b2164f9437a1eea52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:47 +0000
Subject: [PATCH 33/78] fix: looking up a declaration did not terminate for
 cyclic alternate names

---
 src/explain.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/explain.c b/src/explain.c
index d563eaa..d17201f 100644
--- a/src/explain.c
+++ b/src/explain.c
@@ -330,6 +330,9 @@ void lookup_declaration_in_libraries(struct context *context, struct ast_declara
     
     struct atom identifier = declaration->identifier->atom;
     
+    // @note: Alternate names might form a cycle, hence we follow every one of them at most once.
+    smm alternate_names_left = 0;
+    for(struct alternate_name *alternate_name = globals.alternate_names.first; alternate_name; alternate_name = alternate_name->next) alternate_names_left++;
     
     while(true){
         for(struct library_node *library = globals.libraries.first; library; library = library->next){
@@ -354,12 +357,12 @@ void lookup_declaration_in_libraries(struct context *context, struct ast_declara
         if(!ar_import_header && !object_file_library_name.data){
             struct alternate_name *alternate_name = globals.alternate_names.first;
             for(; alternate_name; alternate_name = alternate_name->next){
-                if(atoms_match(alternate_name->source, identifier)){ // @cleanup: Cycles?
+                if(atoms_match(alternate_name->source, identifier)){
                     identifier = alternate_name->destination;
                     break;
                 }
             }
-            if(alternate_name == null) break;  // @cleanup: In the below also report on alternate names being used.
+            if(alternate_name == null || alternate_names_left-- == 0) break;  // @cleanup: In the below also report on alternate names being used.
         }else{
             break;
         }
-- 
2.43.0


From adf727b1aca107e7aacc03162b6c9b876a94bdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:47 +0000
Subject: [PATCH 34/78] fix: emit a stub for implicitly imported functions
 referenced by initializers

---
 src/main.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index dd94c66..8fe6ffa 100644
--- a/src/main.c
+++ b/src/main.c
@@ -2364,9 +2364,12 @@ func void evaluate_static_initializer__internal(struct context *context, struct
                     }else if(decl->kind == IR_function){
                         report_warning(context, WARNING_reference_to_dllimport_inserts_stub, /*ir->token*/error_token, "Constant reference of __declspec(dllimport)-function '%.*s' causes a stub to be generated. This causes `==` to potentially produce undesired results.", decl->identifier->size, decl->identifier->data);
                         report_warning(context, WARNING_reference_to_dllimport_inserts_stub, decl->identifier, "... Here is the referenced declaration.");
-                        if(!(decl->flags & DECLARATION_FLAGS_need_dllimport_stub_function)) decl->flags |= DECLARATION_FLAGS_need_dllimport_stub_function;
+                        change_declaration_flags(decl, DECLARATION_FLAGS_need_dllimport_stub_function, 0);
                     }else invalid_code_path;
                     // end_error_report(context);
+                }else if(decl->kind == IR_function && !((struct ast_function *)decl)->scope && globals.output_file_type != OUTPUT_FILE_obj){
+                    // @note: The function is not defined, it might still turn out to be a dllimport, once we look it up in the libraries.
+                    change_declaration_flags(decl, DECLARATION_FLAGS_need_dllimport_stub_function, 0);
                 }
                 
                 ir_offset += sizeof(struct ir_identifier);
-- 
2.43.0


From 96c976f7ecbb8d5289cba9d861691dce4e38e1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:06 +0000
Subject: [PATCH 35/78] fix: functions were emitted before the libraries had
 been searched for the declarations they reference

---
 src/main.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 8fe6ffa..558a717 100644
--- a/src/main.c
+++ b/src/main.c
@@ -5592,6 +5592,14 @@ globals.typedef_##postfix = (struct ast_type){
         }
     }
     
+    // @note: The code we emit for a function depends on what 'lookup_declaration_in_libraries' figures out for the
+    //        declarations it references. Hence, we only start emitting functions once we are done with all lookups.
+    struct{
+        struct work_queue_entry *first;
+        struct work_queue_entry *last;
+        smm amount;
+    } functions_to_emit = zero_struct;
+    
     struct temporary_memory temp = begin_temporary_memory(&context->scratch);
     
     begin_error_report(context);
@@ -5612,7 +5620,10 @@ globals.typedef_##postfix = (struct ast_type){
         
         if((initial_declaration->kind == IR_function) && initial_declaration->assign_expr){
             // Queue the entry point, if it is a defined function.
-            work_queue_push_work(context, &globals.work_queue_emit_code, initial_declaration);
+            struct work_queue_entry *work = push_struct(context->arena, struct work_queue_entry);
+            work->data = initial_declaration;
+            sll_push_back(functions_to_emit, work);
+            functions_to_emit.amount++;
         }
         
         if((initial_declaration->kind == IR_declaration) && initial_declaration->assign_expr){
@@ -5675,7 +5686,10 @@ globals.typedef_##postfix = (struct ast_type){
                                 }
                             }
                         }else if(!(function->type->flags & FUNCTION_TYPE_FLAGS_is_inline_asm)){
-                            work_queue_push_work(context, &globals.work_queue_emit_code, function);
+                            struct work_queue_entry *work = push_struct(context->arena, struct work_queue_entry);
+                            work->data = function;
+                            sll_push_back(functions_to_emit, work);
+                            functions_to_emit.amount++;
                         }
                     }else{
                         
@@ -5734,6 +5748,8 @@ globals.typedef_##postfix = (struct ast_type){
         goto end;
     }
     
+    if(functions_to_emit.first) work_queue_append_list(&globals.work_queue_emit_code, functions_to_emit.first, functions_to_emit.last, functions_to_emit.amount);
+    
     while(globals.work_queue_emit_code.work_entries_in_flight > 0) worker_work(context, &globals.work_queue_emit_code, worker_emit_code);
     assert(globals.work_queue_emit_code.work_entries_in_flight == 0);
     if(globals.an_error_has_occurred) goto end;
-- 
2.43.0


From e7b35603e97fb5bb79b9c1843b3ed1c7dd316dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:59 +0000
Subject: [PATCH 36/78] fix: the preprocessed file did not contain embedded
 files and __pragma(pack) correctly

---
 src/main.c | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 558a717..c94a8d7 100644
--- a/src/main.c
+++ b/src/main.c
@@ -2834,12 +2834,19 @@ func void worker_preprocess_file(struct context *context, struct work_queue_entr
         
         struct token *last_token = &globals.invalid_token;
         
+        int is_inside_pragma_pack = 0;
+        int is_after_pragma_pack  = 0;
+        smm pragma_pack_parenthesis_depth = 0;
+        
         char *preprocessed_file_start = (char *)arena_current(&context->scratch);
         
         for(smm token_index = 0; token_index < tokenized_file.amount; token_index++){
             struct token *token = &tokenized_file.data[token_index];
             
-            if(token->line != last_token->line || token->file_index != last_token->file_index){ 
+            if(is_inside_pragma_pack){
+                // @note: All tokens of the '#pragma pack' have to be on the same line, even if they come from a '__pragma' inside of a macro.
+                *push_uninitialized_struct(&context->scratch, char) = ' ';
+            }else if(token->line != last_token->line || token->file_index != last_token->file_index){ 
                 
                 *push_uninitialized_struct(&context->scratch, char) = '\n';
                 if(token->line != last_token->line + 1){
@@ -2860,6 +2867,9 @@ func void worker_preprocess_file(struct context *context, struct work_queue_entr
                     smm amount_of_spaces = token->column-1; // @note: column is one-based;
                     memset(push_uninitialized_data(&context->scratch, char, amount_of_spaces), ' ', amount_of_spaces);
                 }
+            }else if(token->type == TOKEN_pragma_pack || is_after_pragma_pack){
+                // @note: The '#pragma pack' needs its own line.
+                *push_uninitialized_struct(&context->scratch, char) = '\n';
             }else{
                 int skip = 0;
                 
@@ -2897,9 +2907,30 @@ func void worker_preprocess_file(struct context *context, struct work_queue_entr
             if(token->type == TOKEN_pragma_pack){
                 struct string pragma = string("#pragma ");
                 memcpy(push_uninitialized_data(&context->scratch, char, pragma.size), pragma.data, pragma.size);
+                is_inside_pragma_pack = 1;
+                pragma_pack_parenthesis_depth = 0;
             }
             last_token = token;
             
+            is_after_pragma_pack = 0;
+            if(is_inside_pragma_pack){
+                if(token->type == TOKEN_open_paren) pragma_pack_parenthesis_depth++;
+                if(token->type == TOKEN_closed_paren && --pragma_pack_parenthesis_depth <= 0){
+                    is_inside_pragma_pack = 0;
+                    is_after_pragma_pack  = 1;
+                }
+            }
+            
+            if(token->type == TOKEN_embed){
+                // @note: The 'string' is the contents of the file, write it as a list of integers.
+                for(smm index = 0; index < (smm)token->string.size; index++){
+                    char number[8];
+                    int length = snprintf(number, sizeof(number), index ? ",%u" : "%u", token->string.data[index]);
+                    memcpy(push_uninitialized_data(&context->scratch, char, length), number, length);
+                }
+                continue;
+            }
+            
             memcpy(push_uninitialized_data(&context->scratch, char, token->string.size), token->string.data, token->string.size);
         }
         *push_uninitialized_struct(&context->scratch, char) = '\n';
-- 
2.43.0


From dcbb8745e892be918bc97e83fe0246c03b1deae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:59 +0000
Subject: [PATCH 37/78] fix: the preprocessed file contained truncated pragmas

---
 src/main.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/main.c b/src/main.c
index c94a8d7..4803fa1 100644
--- a/src/main.c
+++ b/src/main.c
@@ -2824,12 +2824,11 @@ func void worker_preprocess_file(struct context *context, struct work_queue_entr
     if(globals.preprocessed_file_handle){
         
         if(globals.cli_options.EP){
-            char buffer[0x100];
-            int length = snprintf(buffer, sizeof(buffer), "%.*s\n", (int)work_tokenize_file->absolute_file_path.size, work_tokenize_file->absolute_file_path.data);
+            struct string path = push_format_string(&context->scratch, "%.*s\n", (int)work_tokenize_file->absolute_file_path.size, work_tokenize_file->absolute_file_path.data);
             
             DWORD chars_written;
             HANDLE stderr = GetStdHandle(STD_ERROR_HANDLE);
-            WriteFile(stderr, buffer, (u32)length, &chars_written, 0);
+            WriteFile(stderr, path.data, (u32)path.size, &chars_written, 0);
         }
         
         struct token *last_token = &globals.invalid_token;
@@ -5102,15 +5101,14 @@ globals.typedef_##postfix = (struct ast_type){
         //   1) #pragma comment(linker, "/ALTERNATENAME:strdup=_strdup")
         //   2) #pragma comment(lib, "dbghelp")
         
-        char buffer[0x100];
         for(struct alternate_name *name = globals.alternate_names.first; name; name = name->next){
-            int length = snprintf(buffer, sizeof(buffer), "#pragma comment(linker, \"/ALTERNATENAME:%.*s=%.*s\")\n", (int)name->source.size, name->source.data, (int)name->destination.size, name->destination.data);
-            write_to_preprocessed_file(context, buffer, length);
+            struct string pragma = push_format_string(arena, "#pragma comment(linker, \"/ALTERNATENAME:%.*s=%.*s\")\n", (int)name->source.size, name->source.data, (int)name->destination.size, name->destination.data);
+            write_to_preprocessed_file(context, (char *)pragma.data, pragma.size);
         }
         
         for(struct specified_library *library = globals.specified_libraries.first; library; library = library->next){
-            int length = snprintf(buffer, sizeof(buffer), "#pragma comment(lib, \"%.*s\")\n", (int)library->library_path.size, library->library_path.data);
-            write_to_preprocessed_file(context, buffer, length);
+            struct string pragma = push_format_string(arena, "#pragma comment(lib, \"%.*s\")\n", (int)library->library_path.size, library->library_path.data);
+            write_to_preprocessed_file(context, (char *)pragma.data, pragma.size);
         }
         
         if(globals.an_error_has_occurred) goto end;
-- 
2.43.0


From 8fbbc45b78968ae894dacac8928b959da1798d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:59 +0000
Subject: [PATCH 38/78] fix: diagnostics were mixed into the preprocessed file
 on the stdout

---
 src/cli.c     | 4 ++++
 src/main.c    | 5 ++++-
 src/windows.c | 4 +++-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index b9d77ed..35fa8c1 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -451,7 +451,9 @@ int cli_parse_options(struct cli_options *cli_options, struct memory_arena *aren
             }
             
             if(option_kind == CLI_OPTION_none){
+                print_to_stderr = 1; // The stdout might be used for the preprocessed file.
                 print("Warning: Unknown command-line option '%s'.\n", option_cstring);
+                print_to_stderr = 0;
                 continue;
             }
             
@@ -484,7 +486,9 @@ int cli_parse_options(struct cli_options *cli_options, struct memory_arena *aren
             
             case CLI_ARGUMENT_TYPE_directory_list:{
                 if(!path_is_directory(option_argument)){
+                    print_to_stderr = 1; // The stdout might be used for the preprocessed file.
                     print("Warning: Argument '%s' of command line option '%s' must be a directory, but it is not.\n", option_argument, option_cstring);
+                    print_to_stderr = 0;
                     continue;
                 }
             }break;
diff --git a/src/main.c b/src/main.c
index 4803fa1..9166c20 100644
--- a/src/main.c
+++ b/src/main.c
@@ -3986,7 +3986,10 @@ int main(int argc, char *argv[]){
         globals.cli_options.seed = __rdtsc(); // @cleanup: Maybe get some better "random" here?
     }
     
-    if(globals.cli_options.EP) globals.cli_options.quiet = 1;
+    if(globals.cli_options.EP){
+        globals.cli_options.quiet = 1;
+        print_to_stderr = !globals.cli_options.P; // Do not mix diagnostics into the preprocessed file.
+    }
     
     // @cleanup: Warn when we compile to an .exe that none of these options are valid.
     if(globals.cli_options.MD + globals.cli_options.MDd + globals.cli_options.MT + globals.cli_options.MTd > 1){
diff --git a/src/windows.c b/src/windows.c
index 3baf504..4835b11 100644
--- a/src/windows.c
+++ b/src/windows.c
@@ -802,8 +802,10 @@ static __declspec(noreturn) void os_panic(u32 exit_code){
     ExitProcess(exit_code);
 }
 
+static int print_to_stderr; // Set if the stdout is already used for something else, e.g. -EP.
+
 static u32 os_print_string(char *string, smm length){
-    HANDLE stdout = GetStdHandle(STD_OUTPUT_HANDLE);
+    HANDLE stdout = GetStdHandle(print_to_stderr ? STD_ERROR_HANDLE : STD_OUTPUT_HANDLE);
 #if 0
     if(stdout == INVALID_HANDLE_VALUE){
         win32_init_console();
-- 
2.43.0


From 89745ec14b2cc6dd5769d5f8b7661affbb7b6545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:08 +0000
Subject: [PATCH 39/78] fix: the SDK version was uninitialised when the SDK was
 not found

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 9166c20..2446f56 100644
--- a/src/main.c
+++ b/src/main.c
@@ -4221,7 +4221,7 @@ int main(int argc, char *argv[]){
     
     add_system_include_directory(arena, strip_file_name(compiler_path), string("/implicit/include"), false);
     
-    u64 sdk_version[4];
+    u64 sdk_version[4] = {0}; // @note: Stays zero if we cannot find the SDK.
     struct string windows_kits_path = find_windows_kits_root_and_sdk_version(arena, sdk_version);
     
     struct string um_library_path   = push_format_string(arena, "%.*s\\Lib\\%llu.%llu.%llu.%llu\\um\\x64\\",   windows_kits_path.size, windows_kits_path.data, sdk_version[0], sdk_version[1], sdk_version[2], sdk_version[3]);
-- 
2.43.0


From 86242b95a5ef0cd8cbad6b3d1ff8b0094eff996d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:16 +0000
Subject: [PATCH 40/78] fix: atomic_exchange could not be used for atomic_bool

---
 implicit/include/stdatomic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/include/stdatomic.h b/implicit/include/stdatomic.h
index 0b2062f..de160b1 100644
--- a/implicit/include/stdatomic.h
+++ b/implicit/include/stdatomic.h
@@ -51,7 +51,7 @@
 // void atomic_exchange(volatile atomic_type *object, non_atomic_type value);
 // void atomic_exchange_explicit(volatile atomic_type *object, non_atomic_type value, memory_order order);
 #define atomic_exchange(object, value) _Generic((object), \
-        atomic_char*:    __atomic_exchange_bool,          \
+        atomic_bool*:    __atomic_exchange_bool,          \
                                                           \
         atomic_char*:    __atomic_exchange_char,          \
         atomic_short*:   __atomic_exchange_short,         \
-- 
2.43.0


From 9c244637db515295cad18cbf6d28842e2c921d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:16 +0000
Subject: [PATCH 41/78] fix: _Generic lost the chosen expression when other
 associations followed it

---
 src/parse.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index a29cd26..9e3db4a 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -4972,7 +4972,7 @@ case NUMBER_KIND_##type:{ \
             
             context->ir_arena.current = ir_arena_start;
             
-            struct expr default_expression = zero_struct;
+            smm default_token_at = -1;
             struct expr choosen_expression = zero_struct;
             
             while(in_current_token_array(context) && !peek_token_eat(context, TOKEN_closed_paren)){
@@ -4983,7 +4983,11 @@ case NUMBER_KIND_##type:{ \
                 if(peek_token_eat(context, TOKEN_default)){
                     expect_token(context, TOKEN_colon, "Expected ':' after 'default' while parsing a _Generic association list.");
                     
-                    default_expression = parse_expression(context, /*skip_comma_expression*/1);
+                    // Only check the expression for now, we parse it again, if none of the associations match.
+                    default_token_at = context->token_at;
+                    parse_expression(context, /*skip_comma_expression*/1);
+                    memset(ir_arena_start, 0, context->ir_arena.current - ir_arena_start);
+                    context->ir_arena.current = ir_arena_start;
                 }else{
                     struct type_info_return type_name = maybe_parse_type_for_cast_or_sizeof(context);
                     if(!type_name.type){
@@ -4996,8 +5000,9 @@ case NUMBER_KIND_##type:{ \
                     
                     struct expr expression = parse_expression(context, /*skip_comma_expression*/1);
                     
-                    if(types_are_equal(type_name.type, choice)){
+                    if(!choosen_expression.ir && types_are_equal(type_name.type, choice)){ // @note: We might match more then once, as 'int' and 'long' are the same type.
                         choosen_expression = expression;
+                        ir_arena_start = arena_current(&context->ir_arena); // Keep the ir of the expression we chose.
                     }else{
                         memset(ir_arena_start, 0, context->ir_arena.current - ir_arena_start);
                         context->ir_arena.current = ir_arena_start;
@@ -5007,8 +5012,11 @@ case NUMBER_KIND_##type:{ \
             
             if(choosen_expression.ir){
                 operand = choosen_expression;
-            }else if(default_expression.ir){
-                operand = default_expression;
+            }else if(default_token_at != -1){
+                smm end_token_at = context->token_at;
+                context->token_at = default_token_at;
+                operand = parse_expression(context, /*skip_comma_expression*/1);
+                context->token_at = end_token_at;
             }else{
                 // :Error
                 report_error(context, generic, "_Generic choice did not match any of the associations.");
-- 
2.43.0


From f26adc7e69ffface63ffd72e0528ff0c7b8ade9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:16 +0000
Subject: [PATCH 42/78] fix: increments, decrements and values of compound
 assignments were not atomic for _Atomic objects

---
 src/emit_x64.c | 141 +++++++++++++++++++++++++++++++++++++++++++++----
 src/ir.h       |  24 +++++++++
 src/parse.c    |  93 +++++++++++++++++---------------
 3 files changed, 203 insertions(+), 55 deletions(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index 078bd87..c214e7a 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -2093,6 +2093,61 @@ struct emit_location *emit_store_atomic_integer(struct context *context, struct
     return lhs;
 }
 
+// Emit the atomic operation 'lhs op= rhs'.
+// If the value is used, the value the operation has stored (or replaced, if 'return_old_value' is set) is returned.
+// This value cannot be loaded from memory afterwards, because another thread might have changed it already.
+func struct emit_location *emit_atomic_compound_assignment(struct context *context, struct emit_location *lhs, struct emit_location *rhs, 
+        u8 reg_extension, u8 u8_code, u8 opcode, b32 value_is_used, b32 return_old_value){
+    
+    struct prefixes lock = create_prefixes(ASM_PREFIX_lock);
+    
+    if(!value_is_used) return emit_compound_assignment__internal(context, lock, lhs, rhs, /*is_signed*/0, reg_extension, u8_code, opcode);
+    
+    // Allocate 'rax' first, as it might currently be in use by either 'lhs' or 'rhs'.
+    enum register_encoding rax = allocate_specific_register(context, REGISTER_KIND_gpr, REGISTER_A);
+    struct emit_location *old_value = emit_location_loaded(context, REGISTER_KIND_gpr, rax, lhs->size);
+    emit_location_prevent_spilling(context, old_value);
+    
+    emit_location_prevent_spilling(context, lhs);
+    
+    if(rhs->state == EMIT_LOCATION_immediate) rhs->size = lhs->size;
+    rhs = emit_load_gpr(context, rhs);
+    emit_location_prevent_spilling(context, rhs);
+    
+    struct emit_location *new_value = emit_location_loaded(context, REGISTER_KIND_gpr, allocate_register(context, REGISTER_KIND_gpr), lhs->size);
+    emit_location_prevent_spilling(context, new_value);
+    
+    //      mov rax, lhs
+    // retry:
+    //      mov new_value, rax
+    //      op  new_value, rhs
+    //      lock cmpxchg lhs, new_value
+    //      jne retry
+    
+    struct opcode move = one_byte_opcode((lhs->size == 1) ? MOVE_REG8_REGM8 : MOVE_REG_REGM);
+    struct opcode op   = one_byte_opcode((lhs->size == 1) ? u8_code : opcode);
+    struct opcode compare_exchange = two_byte_opcode((lhs->size == 1) ? 0xB0 : 0xB1);
+    
+    emit_register_relative_register(context, no_prefix(), move, rax, lhs);
+    
+    smm retry = get_bytes_emitted(context);
+    emit_register_register(context, no_prefix(), move, new_value, old_value);
+    emit_register_register(context, no_prefix(), op, rhs, new_value);
+    emit_register_relative_register(context, lock, compare_exchange, new_value->loaded_register, lhs);
+    emit_jump(context, retry, COMP_unequals, JUMP_CONTEXT_jump_on_true);
+    
+    emit_location_allow_spilling(context, new_value);
+    emit_location_allow_spilling(context, rhs);
+    emit_location_allow_spilling(context, lhs);
+    emit_location_allow_spilling(context, old_value);
+    
+    free_emit_location(context, rhs);
+    free_emit_location(context, lhs);
+    free_emit_location(context, return_old_value ? new_value : old_value);
+    
+    return return_old_value ? old_value : new_value;
+}
+
 //_____________________________________________________________________________________________________________________
 // Conditions
 
@@ -3935,6 +3990,25 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 struct emit_location *loc = emit_location_stack[emit_location_stack_at-1];
                 assert(loc->state == EMIT_LOCATION_register_relative);
                 
+                if(ir_kind == IR_postinc_pointer || ir_kind == IR_postdec_pointer || ir_kind == IR_preinc_pointer || ir_kind == IR_predec_pointer){
+                    struct ir_pointer_increment *increment = (struct ir_pointer_increment *)(ir_arena_at - sizeof(struct ir));
+                    
+                    if(increment->pointer_type->base.flags & TYPE_FLAG_is_atomic){
+                        ir_arena_at = (u8 *)(increment + 1);
+                        
+                        struct emit_location *size = emit_location_immediate(context, increment->pointer_type->pointer_to->size, 8);
+                        
+                        b32 value_is_used = (ir_arena_at >= current_function->end_in_ir_arena) || ((struct ir *)ir_arena_at)->kind != IR_pop_expression;
+                        b32 is_post = ir_kind < IR_preinc_u8;
+                        b32 is_inc  = (ir_kind == IR_postinc_pointer) || (ir_kind == IR_preinc_pointer);
+                        
+                        emit_location_stack[emit_location_stack_at-1] = is_inc ? 
+                            emit_atomic_compound_assignment(context, loc, size, REG_OPCODE_ADD, ADD_REGM8_REG8, ADD_REGM_REG, value_is_used, is_post) : 
+                            emit_atomic_compound_assignment(context, loc, size, REG_OPCODE_SUB, SUB_REGM8_REG8, SUB_REGM_REG, value_is_used, is_post);
+                        break;
+                    }
+                }
+                
                 emit_location_prevent_spilling(context, loc);
                 
                 struct emit_location *loaded = null;
@@ -4446,6 +4520,32 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 emit_location_stack[stack_index] = emit_load_bitfield(context, operand, op->bitfield_type);
             }break;
             
+            case IR_postinc_atomic_u8: case IR_postinc_atomic_u16: case IR_postinc_atomic_u32: case IR_postinc_atomic_u64: case IR_postinc_atomic_bool:
+            case IR_postdec_atomic_u8: case IR_postdec_atomic_u16: case IR_postdec_atomic_u32: case IR_postdec_atomic_u64: case IR_postdec_atomic_bool:
+            case IR_preinc_atomic_u8:  case IR_preinc_atomic_u16:  case IR_preinc_atomic_u32:  case IR_preinc_atomic_u64:  case IR_preinc_atomic_bool:
+            case IR_predec_atomic_u8:  case IR_predec_atomic_u16:  case IR_predec_atomic_u32:  case IR_predec_atomic_u64:  case IR_predec_atomic_bool:{
+                ir_arena_at += sizeof(struct ir);
+                
+                struct emit_location *lhs = emit_location_stack[emit_location_stack_at - 1];
+                struct emit_location *one = emit_location_immediate(context, /*value*/1, lhs->size);
+                
+                b32 value_is_used = (ir_arena_at >= current_function->end_in_ir_arena) || ((struct ir *)ir_arena_at)->kind != IR_pop_expression;
+                b32 is_post = ir_kind < IR_preinc_atomic_u8;
+                
+                u8 reg_extension, u8_code, opcode;
+                if(ir_kind == IR_postinc_atomic_bool || ir_kind == IR_preinc_atomic_bool){
+                    reg_extension = REG_OPCODE_OR;  u8_code = OR_REGM8_REG8;  opcode = OR_REGM_REG;
+                }else if(ir_kind == IR_postdec_atomic_bool || ir_kind == IR_predec_atomic_bool){
+                    reg_extension = REG_OPCODE_XOR; u8_code = XOR_REGM8_REG8; opcode = XOR_REGM_REG;
+                }else if(ir_kind < IR_postdec_atomic_u8 || (!is_post && ir_kind < IR_predec_atomic_u8)){
+                    reg_extension = REG_OPCODE_ADD; u8_code = ADD_REGM8_REG8; opcode = ADD_REGM_REG;
+                }else{
+                    reg_extension = REG_OPCODE_SUB; u8_code = SUB_REGM8_REG8; opcode = SUB_REGM_REG;
+                }
+                
+                emit_location_stack[emit_location_stack_at - 1] = emit_atomic_compound_assignment(context, lhs, one, reg_extension, u8_code, opcode, value_is_used, is_post);
+            }break;
+            
             case IR_and_assignment_u8: case IR_and_assignment_u16: case IR_and_assignment_u32: case IR_and_assignment_u64:
             case IR_and_atomic_assignment_u8: case IR_and_atomic_assignment_u16: case IR_and_atomic_assignment_u32: case IR_and_atomic_assignment_u64:{
                 ir_arena_at += sizeof(struct ir);
@@ -4454,8 +4554,12 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 struct emit_location *rhs = emit_location_stack[emit_location_stack_at - 1];
                 emit_location_stack_at -= 1;
                 
-                struct prefixes prefix = (ir_kind >= IR_and_atomic_assignment_u8) ? create_prefixes(ASM_PREFIX_lock) : no_prefix();
-                emit_location_stack[emit_location_stack_at - 1] = emit_compound_assignment__internal(context, prefix, lhs, rhs, /*is_signed*/0, REG_OPCODE_AND, AND_REGM8_REG8, AND_REGM_REG);
+                if(ir_kind >= IR_and_atomic_assignment_u8){
+                    b32 value_is_used = (ir_arena_at >= current_function->end_in_ir_arena) || ((struct ir *)ir_arena_at)->kind != IR_pop_expression;
+                    emit_location_stack[emit_location_stack_at - 1] = emit_atomic_compound_assignment(context, lhs, rhs, REG_OPCODE_AND, AND_REGM8_REG8, AND_REGM_REG, value_is_used, /*return_old_value*/0);
+                }else{
+                    emit_location_stack[emit_location_stack_at - 1] = emit_compound_assignment__internal(context, no_prefix(), lhs, rhs, /*is_signed*/0, REG_OPCODE_AND, AND_REGM8_REG8, AND_REGM_REG);
+                }
             }break;
             
             case IR_or_assignment_u8: case IR_or_assignment_u16: case IR_or_assignment_u32: case IR_or_assignment_u64:
@@ -4466,8 +4570,12 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 struct emit_location *rhs = emit_location_stack[emit_location_stack_at - 1];
                 emit_location_stack_at -= 1;
                 
-                struct prefixes prefix = (ir_kind >= IR_or_atomic_assignment_u8) ? create_prefixes(ASM_PREFIX_lock) : no_prefix();
-                emit_location_stack[emit_location_stack_at - 1] = emit_compound_assignment__internal(context, prefix, lhs, rhs, /*is_signed*/0, REG_OPCODE_OR, OR_REGM8_REG8, OR_REGM_REG);
+                if(ir_kind >= IR_or_atomic_assignment_u8){
+                    b32 value_is_used = (ir_arena_at >= current_function->end_in_ir_arena) || ((struct ir *)ir_arena_at)->kind != IR_pop_expression;
+                    emit_location_stack[emit_location_stack_at - 1] = emit_atomic_compound_assignment(context, lhs, rhs, REG_OPCODE_OR, OR_REGM8_REG8, OR_REGM_REG, value_is_used, /*return_old_value*/0);
+                }else{
+                    emit_location_stack[emit_location_stack_at - 1] = emit_compound_assignment__internal(context, no_prefix(), lhs, rhs, /*is_signed*/0, REG_OPCODE_OR, OR_REGM8_REG8, OR_REGM_REG);
+                }
             }break;
             
             case IR_xor_assignment_u8: case IR_xor_assignment_u16: case IR_xor_assignment_u32: case IR_xor_assignment_u64:
@@ -4478,8 +4586,12 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 struct emit_location *rhs = emit_location_stack[emit_location_stack_at - 1];
                 emit_location_stack_at -= 1;
                 
-                struct prefixes prefix = (ir_kind >= IR_xor_atomic_assignment_u8) ? create_prefixes(ASM_PREFIX_lock) : no_prefix();
-                emit_location_stack[emit_location_stack_at - 1] = emit_compound_assignment__internal(context, prefix, lhs, rhs, /*is_signed*/0, REG_OPCODE_XOR, XOR_REGM8_REG8, XOR_REGM_REG);
+                if(ir_kind >= IR_xor_atomic_assignment_u8){
+                    b32 value_is_used = (ir_arena_at >= current_function->end_in_ir_arena) || ((struct ir *)ir_arena_at)->kind != IR_pop_expression;
+                    emit_location_stack[emit_location_stack_at - 1] = emit_atomic_compound_assignment(context, lhs, rhs, REG_OPCODE_XOR, XOR_REGM8_REG8, XOR_REGM_REG, value_is_used, /*return_old_value*/0);
+                }else{
+                    emit_location_stack[emit_location_stack_at - 1] = emit_compound_assignment__internal(context, no_prefix(), lhs, rhs, /*is_signed*/0, REG_OPCODE_XOR, XOR_REGM8_REG8, XOR_REGM_REG);
+                }
             }break;
             
             
@@ -4491,8 +4603,12 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 struct emit_location *rhs = emit_location_stack[emit_location_stack_at - 1];
                 emit_location_stack_at -= 1;
                 
-                struct prefixes prefix = (ir_kind >= IR_add_atomic_assignment_u8) ? create_prefixes(ASM_PREFIX_lock) : no_prefix();
-                emit_location_stack[emit_location_stack_at - 1] = emit_compound_assignment__internal(context, prefix, lhs, rhs, /*is_signed*/0, REG_OPCODE_ADD, ADD_REGM8_REG8, ADD_REGM_REG); // :ir_refactor_atomic_operations.
+                if(ir_kind >= IR_add_atomic_assignment_u8){
+                    b32 value_is_used = (ir_arena_at >= current_function->end_in_ir_arena) || ((struct ir *)ir_arena_at)->kind != IR_pop_expression;
+                    emit_location_stack[emit_location_stack_at - 1] = emit_atomic_compound_assignment(context, lhs, rhs, REG_OPCODE_ADD, ADD_REGM8_REG8, ADD_REGM_REG, value_is_used, /*return_old_value*/0);
+                }else{
+                    emit_location_stack[emit_location_stack_at - 1] = emit_compound_assignment__internal(context, no_prefix(), lhs, rhs, /*is_signed*/0, REG_OPCODE_ADD, ADD_REGM8_REG8, ADD_REGM_REG);
+                }
             }break;
             
             case IR_add_assignment_f32: case IR_add_assignment_f64:{
@@ -4513,9 +4629,12 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 struct emit_location *rhs = emit_location_stack[emit_location_stack_at - 1];
                 emit_location_stack_at -= 1;
                 
-                struct prefixes prefix = (ir_kind >= IR_subtract_atomic_assignment_u8) ? create_prefixes(ASM_PREFIX_lock) : no_prefix();
-                
-                emit_location_stack[emit_location_stack_at - 1] = emit_compound_assignment__internal(context, prefix, lhs, rhs, /*is_signed*/0, REG_OPCODE_SUB, SUB_REGM8_REG8, SUB_REGM_REG); // :ir_refactor_atomic_operations.
+                if(ir_kind >= IR_subtract_atomic_assignment_u8){
+                    b32 value_is_used = (ir_arena_at >= current_function->end_in_ir_arena) || ((struct ir *)ir_arena_at)->kind != IR_pop_expression;
+                    emit_location_stack[emit_location_stack_at - 1] = emit_atomic_compound_assignment(context, lhs, rhs, REG_OPCODE_SUB, SUB_REGM8_REG8, SUB_REGM_REG, value_is_used, /*return_old_value*/0);
+                }else{
+                    emit_location_stack[emit_location_stack_at - 1] = emit_compound_assignment__internal(context, no_prefix(), lhs, rhs, /*is_signed*/0, REG_OPCODE_SUB, SUB_REGM8_REG8, SUB_REGM_REG);
+                }
             }break;
             
             case IR_subtract_assignment_f32: case IR_subtract_assignment_f64:{
diff --git a/src/ir.h b/src/ir.h
index ff51940..c267630 100644
--- a/src/ir.h
+++ b/src/ir.h
@@ -135,6 +135,30 @@ enum ir_kind{
     IR_predec_pointer,
     IR_predec_bitfield,
     
+    IR_postinc_atomic_u8,
+    IR_postinc_atomic_u16,
+    IR_postinc_atomic_u32,
+    IR_postinc_atomic_u64,
+    IR_postinc_atomic_bool,
+    
+    IR_postdec_atomic_u8,
+    IR_postdec_atomic_u16,
+    IR_postdec_atomic_u32,
+    IR_postdec_atomic_u64,
+    IR_postdec_atomic_bool,
+    
+    IR_preinc_atomic_u8,
+    IR_preinc_atomic_u16,
+    IR_preinc_atomic_u32,
+    IR_preinc_atomic_u64,
+    IR_preinc_atomic_bool,
+    
+    IR_predec_atomic_u8,
+    IR_predec_atomic_u16,
+    IR_predec_atomic_u32,
+    IR_predec_atomic_u64,
+    IR_predec_atomic_bool,
+    
     IR_deref,
     IR_member,
     IR_member_deref,
diff --git a/src/parse.c b/src/parse.c
index 9e3db4a..08564b2 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -4081,6 +4081,13 @@ static void parse_call_to_printlike_function_arguments(struct context *context,
 
 // :compound_assignments
 func void punt_compound_assignment(struct context *context, struct expr *lhs, struct expr *rhs, struct token *site, enum ast_kind ast_kind){
+    
+    if(lhs->resolved_type->kind == AST_atomic_integer_type){
+        // Punting loads and stores the value separately, hence the operation would not be atomic.
+        report_error(context, site, "Atomic integer operation currently not supported.");
+        return;
+    }
+    
     // 
     // IR_duplicate_lhs:
     //     {lhs, rhs} -> {lhs, lhs, rhs}
@@ -5050,10 +5057,6 @@ case NUMBER_KIND_##type:{ \
                 if(!check_unary_for_basic_types(context, operand.resolved_type, CHECK_basic, test)) return operand;
                 if(check_types_for_increment_or_decrement(context, operand.resolved_type, test, "++")) return operand;
                 
-                // 
-                // @cleanup: Atomic integer types.
-                // 
-                
                 if(operand.resolved_type->kind == AST_pointer_type){
                     struct ir_pointer_increment *increment = push_uninitialized_struct(&context->ir_arena, struct ir_pointer_increment);
                     increment->base.kind = IR_postinc_pointer;
@@ -5087,20 +5090,19 @@ case NUMBER_KIND_##type:{ \
                         [IR_TYPE_f32] = IR_postinc_f32,
                         [IR_TYPE_f64] = IR_postinc_f64,
                         
-                        // @incomplete: There should probably be atomic versions of these.
-                        [IR_TYPE_atomic_bool] = IR_postinc_bool,
+                        [IR_TYPE_atomic_bool] = IR_postinc_atomic_bool,
                         
-                        [IR_TYPE_atomic_s8] = IR_postinc_u8,
-                        [IR_TYPE_atomic_u8] = IR_postinc_u8,
+                        [IR_TYPE_atomic_s8] = IR_postinc_atomic_u8,
+                        [IR_TYPE_atomic_u8] = IR_postinc_atomic_u8,
                         
-                        [IR_TYPE_atomic_s16] = IR_postinc_u16,
-                        [IR_TYPE_atomic_u16] = IR_postinc_u16,
+                        [IR_TYPE_atomic_s16] = IR_postinc_atomic_u16,
+                        [IR_TYPE_atomic_u16] = IR_postinc_atomic_u16,
                         
-                        [IR_TYPE_atomic_s32] = IR_postinc_u32,
-                        [IR_TYPE_atomic_u32] = IR_postinc_u32,
+                        [IR_TYPE_atomic_s32] = IR_postinc_atomic_u32,
+                        [IR_TYPE_atomic_u32] = IR_postinc_atomic_u32,
                         
-                        [IR_TYPE_atomic_s64] = IR_postinc_u64,
-                        [IR_TYPE_atomic_u64] = IR_postinc_u64,
+                        [IR_TYPE_atomic_s64] = IR_postinc_atomic_u64,
+                        [IR_TYPE_atomic_u64] = IR_postinc_atomic_u64,
                     };
                     
                     operand.ir = push_ir(context, ir_type_to_inc_kind[ir_type]);
@@ -5145,20 +5147,19 @@ case NUMBER_KIND_##type:{ \
                         [IR_TYPE_f32] = IR_postdec_f32,
                         [IR_TYPE_f64] = IR_postdec_f64,
                         
-                        // @incomplete: There should probably be atomic versions of these.
-                        [IR_TYPE_atomic_bool] = IR_postdec_bool,
+                        [IR_TYPE_atomic_bool] = IR_postdec_atomic_bool,
                         
-                        [IR_TYPE_atomic_s8] = IR_postdec_u8,
-                        [IR_TYPE_atomic_u8] = IR_postdec_u8,
+                        [IR_TYPE_atomic_s8] = IR_postdec_atomic_u8,
+                        [IR_TYPE_atomic_u8] = IR_postdec_atomic_u8,
                         
-                        [IR_TYPE_atomic_s16] = IR_postdec_u16,
-                        [IR_TYPE_atomic_u16] = IR_postdec_u16,
+                        [IR_TYPE_atomic_s16] = IR_postdec_atomic_u16,
+                        [IR_TYPE_atomic_u16] = IR_postdec_atomic_u16,
                         
-                        [IR_TYPE_atomic_s32] = IR_postdec_u32,
-                        [IR_TYPE_atomic_u32] = IR_postdec_u32,
+                        [IR_TYPE_atomic_s32] = IR_postdec_atomic_u32,
+                        [IR_TYPE_atomic_u32] = IR_postdec_atomic_u32,
                         
-                        [IR_TYPE_atomic_s64] = IR_postdec_u64,
-                        [IR_TYPE_atomic_u64] = IR_postdec_u64,
+                        [IR_TYPE_atomic_s64] = IR_postdec_atomic_u64,
+                        [IR_TYPE_atomic_u64] = IR_postdec_atomic_u64,
                     };
                     
                     operand.ir = push_ir(context, ir_type_to_inc_kind[ir_type]);
@@ -5614,20 +5615,19 @@ case NUMBER_KIND_##type:{ \
                         [IR_TYPE_f32] = IR_preinc_f32,
                         [IR_TYPE_f64] = IR_preinc_f64,
                         
-                        // @incomplete: There should probably be atomic versions of these.
-                        [IR_TYPE_atomic_bool] = IR_preinc_bool,
+                        [IR_TYPE_atomic_bool] = IR_preinc_atomic_bool,
                         
-                        [IR_TYPE_atomic_s8] = IR_preinc_u8,
-                        [IR_TYPE_atomic_u8] = IR_preinc_u8,
+                        [IR_TYPE_atomic_s8] = IR_preinc_atomic_u8,
+                        [IR_TYPE_atomic_u8] = IR_preinc_atomic_u8,
                         
-                        [IR_TYPE_atomic_s16] = IR_preinc_u16,
-                        [IR_TYPE_atomic_u16] = IR_preinc_u16,
+                        [IR_TYPE_atomic_s16] = IR_preinc_atomic_u16,
+                        [IR_TYPE_atomic_u16] = IR_preinc_atomic_u16,
                         
-                        [IR_TYPE_atomic_s32] = IR_preinc_u32,
-                        [IR_TYPE_atomic_u32] = IR_preinc_u32,
+                        [IR_TYPE_atomic_s32] = IR_preinc_atomic_u32,
+                        [IR_TYPE_atomic_u32] = IR_preinc_atomic_u32,
                         
-                        [IR_TYPE_atomic_s64] = IR_preinc_u64,
-                        [IR_TYPE_atomic_u64] = IR_preinc_u64,
+                        [IR_TYPE_atomic_s64] = IR_preinc_atomic_u64,
+                        [IR_TYPE_atomic_u64] = IR_preinc_atomic_u64,
                     };
                     
                     operand.ir = push_ir(context, ir_type_to_inc_kind[ir_type]);
@@ -5673,20 +5673,19 @@ case NUMBER_KIND_##type:{ \
                         [IR_TYPE_f32] = IR_predec_f32,
                         [IR_TYPE_f64] = IR_predec_f64,
                         
-                        // @incomplete: There should probably be atomic versions of these.
-                        [IR_TYPE_atomic_bool] = IR_predec_bool,
+                        [IR_TYPE_atomic_bool] = IR_predec_atomic_bool,
                         
-                        [IR_TYPE_atomic_s8] = IR_predec_u8,
-                        [IR_TYPE_atomic_u8] = IR_predec_u8,
+                        [IR_TYPE_atomic_s8] = IR_predec_atomic_u8,
+                        [IR_TYPE_atomic_u8] = IR_predec_atomic_u8,
                         
-                        [IR_TYPE_atomic_s16] = IR_predec_u16,
-                        [IR_TYPE_atomic_u16] = IR_predec_u16,
+                        [IR_TYPE_atomic_s16] = IR_predec_atomic_u16,
+                        [IR_TYPE_atomic_u16] = IR_predec_atomic_u16,
                         
-                        [IR_TYPE_atomic_s32] = IR_predec_u32,
-                        [IR_TYPE_atomic_u32] = IR_predec_u32,
+                        [IR_TYPE_atomic_s32] = IR_predec_atomic_u32,
+                        [IR_TYPE_atomic_u32] = IR_predec_atomic_u32,
                         
-                        [IR_TYPE_atomic_s64] = IR_predec_u64,
-                        [IR_TYPE_atomic_u64] = IR_predec_u64,
+                        [IR_TYPE_atomic_s64] = IR_predec_atomic_u64,
+                        [IR_TYPE_atomic_u64] = IR_predec_atomic_u64,
                     };
                     
                     operand.ir = push_ir(context, ir_type_to_inc_kind[ir_type]);
@@ -7021,6 +7020,7 @@ case NUMBER_KIND_##type:{ \
                     }
                     
                     enum ir_kind ir_kind = ast_kind == AST_plus_assignment ? IR_add_assignment_u64 : IR_subtract_assignment_u64;
+                    if(lhs_type->flags & TYPE_FLAG_is_atomic) ir_kind += IR_add_atomic_assignment_u64 - IR_add_assignment_u64;
                     handle_pointer_arithmetic(context, ir_kind, stack_entry->token, lhs, rhs, &operand, /*need_swap*/false);
                     context->in_lhs_expression = false; // Does not really matter they get scoped the other way.
                     break;
@@ -7110,6 +7110,11 @@ case NUMBER_KIND_##type:{ \
                 }else{
                     maybe_insert_implicit_assignment_cast_and_check_that_types_match(context, lhs->resolved_type, lhs->defined_type, rhs, stack_entry->token);
                     
+                    if(lhs->resolved_type->kind == AST_atomic_integer_type){
+                        report_error(context, stack_entry->token, "Atomic integer operation currently not supported.");
+                        return operand;
+                    }
+                    
                     enum ir_type ir_type = ir_type_from_type(lhs->resolved_type);
                     enum ir_kind ir_kind = IR_modulo_assignment_s8 + (ir_type - IR_TYPE_s8);
                     
-- 
2.43.0


From fcc2606be5c100d33223d7455cbfcdd7c2402835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:26 +0000
Subject: [PATCH 43/78] fix: _InterlockedDecrement returned the old value plus
 one

---
 implicit/include/intrinsic.c | 48 ++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/implicit/include/intrinsic.c b/implicit/include/intrinsic.c
index f0c14a1..02164e2 100644
--- a/implicit/include/intrinsic.c
+++ b/implicit/include/intrinsic.c
@@ -241,34 +241,34 @@ __declspec(inline_asm) __int64 _InterlockedIncrement64(__int64 *to_increment){
 
 
 __declspec(inline_asm) __int8 _InterlockedDecrement8(__int8 *to_increment){
-    // We need to return the incremented value, thus we have to use an xadd
-    // to fetch the memory and cannot use a 'lock inc'.
+    // We need to return the decremented value, thus we have to use an xadd
+    // to fetch the memory and cannot use a 'lock dec'.
     
-    // load the one we xadd.
+    // load the minus one we xadd.
     mov edx, -1
     
-    // add the one, the preincremented value will be in dl
+    // add the minus one, the predecremented value will be in dl
     lock xadd [to_increment], dl
     
-    // increment dl such that we have the 'incremented_value'
-    inc dl
+    // decrement it such that we have the 'decremented value'
+    dec dl
     
     // save the value
     return dl
 }
 
 __declspec(inline_asm) __int16 _InterlockedDecrement16(__int16 *to_increment){
-    // We need to return the incremented value, thus we have to use an xadd
-    // to fetch the memory and cannot use a 'lock inc'.
+    // We need to return the decremented value, thus we have to use an xadd
+    // to fetch the memory and cannot use a 'lock dec'.
     
-    // load the one we xadd.
+    // load the minus one we xadd.
     mov edx, -1
     
-    // add the one, the preincremented value will be in dx
+    // add the minus one, the predecremented value will be in dx
     lock xadd [to_increment], dx
     
-    // increment dl such that we have the 'incremented_value'
-    inc dx
+    // decrement it such that we have the 'decremented value'
+    dec dx
     
     // save the value
     return dx
@@ -276,17 +276,17 @@ __declspec(inline_asm) __int16 _InterlockedDecrement16(__int16 *to_increment){
 
 
 __declspec(inline_asm) __int32 _InterlockedDecrement(__int32 *to_increment){
-    // We need to return the incremented value, thus we have to use an xadd
-    // to fetch the memory and cannot use a 'lock inc'.
+    // We need to return the decremented value, thus we have to use an xadd
+    // to fetch the memory and cannot use a 'lock dec'.
     
-    // load the one we xadd.
+    // load the minus one we xadd.
     mov edx, -1
     
-    // add the one, the preincremented value will be in edx
+    // add the minus one, the predecremented value will be in edx
     lock xadd [to_increment], edx
     
-    // increment dl such that we have the 'incremented_value'
-    inc edx
+    // decrement it such that we have the 'decremented value'
+    dec edx
     
     // save the value
     return edx
@@ -294,17 +294,17 @@ __declspec(inline_asm) __int32 _InterlockedDecrement(__int32 *to_increment){
 
 
 __declspec(inline_asm) __int64 _InterlockedDecrement64(__int64 *to_increment){
-    // We need to return the incremented value, thus we have to use an xadd
-    // to fetch the memory and cannot use a 'lock inc'.
+    // We need to return the decremented value, thus we have to use an xadd
+    // to fetch the memory and cannot use a 'lock dec'.
     
-    // load the one we xadd.
+    // load the minus one we xadd.
     mov rdx, -1
     
-    // add the one, the preincremented value will be in rdx
+    // add the minus one, the predecremented value will be in rdx
     lock xadd [to_increment], rdx
     
-    // increment dl such that we have the 'incremented_value'
-    inc rdx
+    // decrement it such that we have the 'decremented value'
+    dec rdx
     
     // save the value
     return rdx
-- 
2.43.0


From 0505ec6d4dd38f5c79ab5df900f9799863641911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:26 +0000
Subject: [PATCH 44/78] fix: _InterlockedAnd, _InterlockedOr and
 _InterlockedXor returned the new value

---
 implicit/include/intrinsic.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/implicit/include/intrinsic.c b/implicit/include/intrinsic.c
index 02164e2..1ef3521 100644
--- a/implicit/include/intrinsic.c
+++ b/implicit/include/intrinsic.c
@@ -873,7 +873,7 @@ __declspec(inline_asm) char _InterlockedOr8(char volatile *value, char mask){
     lock cmpxchg [value], cl
     jne .loop
     
-    return cl
+    return al
 }
 
 __declspec(inline_asm) short _InterlockedOr16(short volatile *value, short mask){
@@ -887,7 +887,7 @@ __declspec(inline_asm) short _InterlockedOr16(short volatile *value, short mask)
     lock cmpxchg [value], cx
     jne .loop
     
-    return cx
+    return ax
 }
 
 __declspec(inline_asm) long _InterlockedOr(long volatile *value, long mask){
@@ -901,7 +901,7 @@ __declspec(inline_asm) long _InterlockedOr(long volatile *value, long mask){
     lock cmpxchg [value], ecx
     jne .loop
     
-    return ecx
+    return eax
 }
 
 
@@ -916,7 +916,7 @@ __declspec(inline_asm) __int64 _InterlockedOr64(__int64 volatile *value, __int64
     lock cmpxchg [value], rcx
     jne .loop
     
-    return rcx
+    return rax
 }
 
 __declspec(inline_asm) char _InterlockedXor8(char volatile *value, char mask){
@@ -930,7 +930,7 @@ __declspec(inline_asm) char _InterlockedXor8(char volatile *value, char mask){
     lock cmpxchg [value], cl
     jne .loop
     
-    return cl
+    return al
 }
 
 __declspec(inline_asm) short _InterlockedXor16(short volatile *value, short mask){
@@ -944,7 +944,7 @@ __declspec(inline_asm) short _InterlockedXor16(short volatile *value, short mask
     lock cmpxchg [value], cx
     jne .loop
     
-    return cx
+    return ax
 }
 
 __declspec(inline_asm) long _InterlockedXor(long volatile *value, long mask){
@@ -958,7 +958,7 @@ __declspec(inline_asm) long _InterlockedXor(long volatile *value, long mask){
     lock cmpxchg [value], ecx
     jne .loop
     
-    return ecx
+    return eax
 }
 
 
@@ -973,7 +973,7 @@ __declspec(inline_asm) __int64 _InterlockedXor64(__int64 volatile *value, __int6
     lock cmpxchg [value], rcx
     jne .loop
     
-    return rcx
+    return rax
 }
 
 
@@ -988,7 +988,7 @@ __declspec(inline_asm) char _InterlockedAnd8(char volatile *value, char mask){
     lock cmpxchg [value], cl
     jne .loop
     
-    return cl
+    return al
 }
 
 __declspec(inline_asm) short _InterlockedAnd16(short volatile *value, short mask){
@@ -1002,7 +1002,7 @@ __declspec(inline_asm) short _InterlockedAnd16(short volatile *value, short mask
     lock cmpxchg [value], cx
     jne .loop
     
-    return cx
+    return ax
 }
 
 __declspec(inline_asm) long _InterlockedAnd(long volatile *value, long mask){
@@ -1016,7 +1016,7 @@ __declspec(inline_asm) long _InterlockedAnd(long volatile *value, long mask){
     lock cmpxchg [value], ecx
     jne .loop
     
-    return ecx
+    return eax
 }
 
 
@@ -1031,7 +1031,7 @@ __declspec(inline_asm) __int64 _InterlockedAnd64(__int64 volatile *value, __int6
     lock cmpxchg [value], rcx
     jne .loop
     
-    return rcx
+    return rax
 }
 
 
-- 
2.43.0


From 3825236173bfd6504bcd2b2dc03def11b0b6dbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:26 +0000
Subject: [PATCH 45/78] fix: |=, &= and ^= were not atomic for atomic_bool

---
 src/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 08564b2..2f7046d 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -7150,7 +7150,7 @@ case NUMBER_KIND_##type:{ \
                     if(ast_kind == AST_or_assignment)  ir_base = IR_or_assignment_u8;
                     if(ast_kind == AST_xor_assignment) ir_base = IR_xor_assignment_u8;
                     
-                    enum ir_type ir_type = ir_type_from_type(lhs->resolved_type);
+                    enum ir_type ir_type = ir_type_from_type(lhs_type);
                     u32 type_index = (ir_type - IR_TYPE_s8) >> 1;
                     if(ir_type >= IR_TYPE_atomic_bool) type_index -= 3;
                     
-- 
2.43.0


From 8fbfd5d76a9397e4de92a638751e032def9dae77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:48 +0000
Subject: [PATCH 46/78] fix: inline assembly with a loop spilled registers
 inside of the loop

---
 src/emit_inline_asm_block.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/emit_inline_asm_block.c b/src/emit_inline_asm_block.c
index 836a395..273926f 100644
--- a/src/emit_inline_asm_block.c
+++ b/src/emit_inline_asm_block.c
@@ -797,6 +797,15 @@ func void emit_inline_asm_block(struct context *context, struct ir_asm_block *as
                 struct asm_operand *inst_op = &inst->operands[0];
                 struct ir_jump_node *jump_label = inst_op->label_jump;
                 
+                // A register must not be spilled between here and a jump back to here, as the spill would
+                // be executed again on each iteration. Hence, spill everything that was not used by the user.
+                for(enum register_kind register_kind = 0; register_kind < REGISTER_KIND_count; register_kind++){
+                    for(enum register_encoding reg = 0; reg < 16; reg++){
+                        struct emit_location *loc = context->register_allocators[register_kind].emit_location_map[reg];
+                        if(loc && !loc->inline_asm__was_used_by_user && !loc->prevent_spilling) spill_register(context, register_kind, reg);
+                    }
+                }
+                
                 context->jump_labels[jump_label->label_number].jump_location = get_bytes_emitted(context);
             }break;
             
-- 
2.43.0


From f576889dbd3135ab8e0df16f28a16695ca03b775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:36 +0000
Subject: [PATCH 47/78] fix: the difference of two pointers was divided as an
 unsigned number

---
 src/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 2f7046d..35aa6e9 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -6129,7 +6129,7 @@ case NUMBER_KIND_##type:{ \
                         struct ast_pointer_type *pointer = cast(struct ast_pointer_type *)op_lhs->resolved_type;
                         if(pointer->pointer_to->size != 1){ // @cleanup: 0?
                             ast_push_s64_literal(context, pointer->pointer_to->size, null);
-                            operand.ir = push_ir(context, IR_divide_u64);
+                            operand.ir = push_ir(context, IR_divide_s64);
                         }
                         
                         operand.resolved_type = &globals.typedef_s64;
-- 
2.43.0


From 7b95b0aa358c9c0878e23df8d8d9a903c251b0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:36 +0000
Subject: [PATCH 48/78] fix: a pointer declared as '*_Atomic' was not atomic

---
 src/parse.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 35aa6e9..8c93ac4 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -9926,7 +9926,14 @@ func struct declarator_return parse_declarator(struct context* context, struct a
             if(get_current_token(context) == begin) break;
         }
         
-        // @incomplete: If there are type qualifiers, we need to set them on the pointer somehow...
+        if(type_qualifiers & QUALIFIER_atomic){
+            struct ast_pointer_type *copied_pointer = push_uninitialized_struct(context->arena, struct ast_pointer_type);
+            *copied_pointer = *(struct ast_pointer_type *)ret.type; // It might be one of the global pointer types.
+            copied_pointer->base.flags |= TYPE_FLAG_is_atomic;
+            ret.type = &copied_pointer->base;
+        }
+        
+        // @incomplete: If there are other type qualifiers, we need to set them on the pointer somehow...
     }
     
     while(true){ // @note: See above.
-- 
2.43.0


From 8b502b9f99b7324492f3f11c8d026ed6bccfa71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:14 +0000
Subject: [PATCH 49/78] fix: _Atomic(T) was rejected depending on when T was
 parsed

---
 src/parse.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index 8c93ac4..71b5161 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -7659,6 +7659,16 @@ func struct declaration_specifiers parse_declaration_specifiers(struct context *
                     struct type_info_return type_info = maybe_parse_type_for_cast_or_sizeof(context);
                     
                     if(!type_info.type){
+                        struct token *type_name = peek_token(context, TOKEN_identifier);
+                        struct ast_declaration *lookup = type_name ? lookup_declaration(context->current_scope, context->current_compilation_unit, type_name->atom) : null;
+                        
+                        if(type_name && globals.compile_stage < COMPILE_STAGE_parse_function && (!lookup || lookup->kind == IR_typedef)){
+                            // The typedef was not parsed yet, when we looked it up.
+                            parser_sleep(context, type_name, SLEEP_on_decl);
+                            specifiers.type_specifier = &globals.typedef_poison;
+                            break;
+                        }
+                        
                         report_error(context, get_current_token_for_error_report(context), "Expected a type after '_Atomic('.");
                         break;
                     }
-- 
2.43.0


From 383ffa8c66508527fe77d1baefe54a1963ab8673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:02 +0000
Subject: [PATCH 50/78] fix: the packing set by #pragma pack leaked into other
 units, and function bodies did not get it

---
 src/main.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.c b/src/main.c
index 2446f56..51726e5 100644
--- a/src/main.c
+++ b/src/main.c
@@ -2743,6 +2743,7 @@ func void reset_context(struct context *context){
     context->filter_function_index = 0;
     
     context->pragma_pack_stack.first = context->pragma_pack_stack.last = null;
+    context->pragma_alignment = 16; // @note: Every compilation unit starts out with the default, the other stages get it from their 'parse_work'.
 }
 
 func void write_to_preprocessed_file(struct context *context, char *data, smm size){
@@ -3413,6 +3414,7 @@ func void worker_parse_function(struct context *context, struct work_queue_entry
     
     struct parse_work *parse_work = cast(struct parse_work *)work->data;
     context->current_compilation_unit = parse_work->compilation_unit;
+    context->pragma_alignment = parse_work->pragma_alignment; // @note: The function body is parsed with the packing in effect at its definition.
     
     // @WARNING: 'function->base.token' is not necessarly the token you might expect, because predefines
     //           might be first when we register the token. @cleanup: maybe we should adjust the token?
-- 
2.43.0


From 7a431190a5b52b60e340f0bd06286753050e5bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:02 +0000
Subject: [PATCH 51/78] fix: static initializers dropped the offset added to a
 string literal

---
 src/coff_writer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/coff_writer.c b/src/coff_writer.c
index 48358cc..1c4fc64 100644
--- a/src/coff_writer.c
+++ b/src/coff_writer.c
@@ -1757,6 +1757,7 @@ func void print_coff(struct string output_file_path, struct memory_arena *arena,
                     struct ir_string_literal *lit = (struct ir_string_literal *)patch->source;
                     
                     source_location = (smm)lit->relative_virtual_address + image_optional_header->image_base;
+                    source_location += patch->location_offset_in_source_declaration;
                 }
                 
                 *cast(smm *)memory_location = source_location;
-- 
2.43.0


From 64102f215669d2d03e1431986f89f4eebcde03d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:02 +0000
Subject: [PATCH 52/78] fix: static initializers of bit-fields overwrote
 neighbouring members

---
 src/main.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/main.c b/src/main.c
index 51726e5..435c68f 100644
--- a/src/main.c
+++ b/src/main.c
@@ -2554,10 +2554,8 @@ func void evaluate_static_initializer__internal(struct context *context, struct
                                 memcpy(&old_value, data + offset, lhs_type->size);
                                 
                                 struct ast_bitfield_type *bitfield = cast(struct ast_bitfield_type *)lhs_type;
-                                value <<= bitfield->bit_index;
-                                
-                                u64 mask = ~(((1ull << bitfield->width) - 1) << bitfield->bit_index);
-                                u64 new_value = (mask & old_value) | value;
+                                u64 mask = (bitfield->width < 64 ? ((1ull << bitfield->width) - 1) : ~0ull) << bitfield->bit_index;
+                                u64 new_value = (old_value & ~mask) | ((value << bitfield->bit_index) & mask);
                                 memcpy(data + offset, &new_value, lhs_type->size);
                             }else{
                                 assert(lhs_type->kind == AST_integer_type || lhs_type->kind == AST_pointer_type || lhs_type->kind == AST_atomic_integer_type);
-- 
2.43.0


From 25bd0e9fe59107122bfaa42a9d88f82f7c43f2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:02 +0000
Subject: [PATCH 53/78] fix: a string initializing a row of size one was taken
 for the whole array

---
 src/parse.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 71b5161..a05255a 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -2493,7 +2493,7 @@ func void parse_initializer_list(struct context *context, struct ast_type *type_
                 struct ast_array_type *wanted_array = (struct ast_array_type *)designator_stack.first->lhs_type;
                 struct ast_array_type *given_array  = (struct ast_array_type *)expression.resolved_type;
                 
-                if(wanted_array->element_type->size == given_array->element_type->size){
+                if(wanted_array->element_type->kind != AST_array_type && wanted_array->element_type->size == given_array->element_type->size){
                     
                     // Pop one layer off the designator stack, making `designator_stack.first->lhs_type` the current object type.
                     current_object_type = designator_stack.first->lhs_type;
@@ -2533,7 +2533,7 @@ func void parse_initializer_list(struct context *context, struct ast_type *type_
                     struct ast_array_type *wanted_array = (struct ast_array_type *)current_object_type;
                     struct ast_array_type *given_array = (struct ast_array_type *)expression.resolved_type;
                     
-                    if(wanted_array->element_type->size == given_array->element_type->size){
+                    if(wanted_array->element_type->kind != AST_array_type && wanted_array->element_type->size == given_array->element_type->size){
                         
                         if(wanted_array->is_of_unknown_size){
                             trailing_initializer_size = max_of(trailing_initializer_size, given_array->base.size);
-- 
2.43.0


From 3a592cd6e54edfeeda669fa9a02f9c5022d6b6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:02 +0000
Subject: [PATCH 54/78] fix: crash on an unbalanced __pragma(pack(push)) inside
 a declaration

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 435c68f..e3a3ac3 100644
--- a/src/main.c
+++ b/src/main.c
@@ -3217,7 +3217,7 @@ func void worker_preprocess_file(struct context *context, struct work_queue_entr
         if(start_pragma_pack_node != context->pragma_pack_stack.first){
             
             int handled = false;
-            if(start_pragma_pack_node->next == context->pragma_pack_stack.first){
+            if(start_pragma_pack_node && start_pragma_pack_node->next == context->pragma_pack_stack.first){
                 // 
                 // Stupid hack for stuff like:
                 //    
-- 
2.43.0


From be17cfef4c639a2c2dfcef5d3e01a6f2dc18c6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:02 +0000
Subject: [PATCH 55/78] fix: reading the SDK root from the registry wrote past
 the buffer

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index e3a3ac3..c28a89f 100644
--- a/src/main.c
+++ b/src/main.c
@@ -3830,7 +3830,7 @@ struct string find_windows_kits_root_and_sdk_version(struct memory_arena *arena,
     
     u8 buffer[/*MAX_PATH*/260 + 1];
     
-    u32 length = sizeof(buffer);
+    u32 length = sizeof(buffer) - 1; // Leave room for the zero-terminator.
     u32 query_KitsRoot10_result = RegQueryValueExA(root_key, "KitsRoot10", NULL, NULL, buffer, &length);
     if(query_KitsRoot10_result != /*ERROR_SUCCESS*/0){
         print("Warning: Could not find Windows 10 SDK.\n");
-- 
2.43.0


From 38306c730770dce9416687b862d78a3e77f39526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:02 +0000
Subject: [PATCH 56/78] fix: object files swapped the symbol kinds of local and
 global data

---
 src/obj_writer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index b4e72de..26a9138 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -2312,7 +2312,7 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
                             u8  identifier[];
                         } *data_symbol = push_struct_(arena, offset_in_type(struct codeview_data32, identifier) + (decl->identifier->length + 1), 4);
                         
-                        u16 kind = ((decl->flags & DECLARATION_FLAGS_is_thread_local) ? /*S_LTHREAD32*/0x1112 : /* S_LDATA32 */ 0x110c) + ((decl->flags & DECLARATION_FLAGS_is_static) != 0);
+                        u16 kind = ((decl->flags & DECLARATION_FLAGS_is_thread_local) ? /*S_LTHREAD32*/0x1112 : /* S_LDATA32 */ 0x110c) + ((decl->flags & DECLARATION_FLAGS_is_static) == 0); // The global kinds directly follow the local ones.
                         data_symbol->kind = kind;
                         data_symbol->type_index = decl->type->pdb_type_index;
                         memcpy(data_symbol->identifier, decl->identifier->data, decl->identifier->length);
-- 
2.43.0


From d9b452a4eb3266229fe1cb1be6ceb5591a04b435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:41 +0000
Subject: [PATCH 57/78] fix: a file scope compound literal with a non-constant
 initializer was not rejected

---
 src/main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.c b/src/main.c
index c28a89f..51dfe5e 100644
--- a/src/main.c
+++ b/src/main.c
@@ -5799,8 +5799,12 @@ globals.typedef_##postfix = (struct ast_type){
             struct ast_declaration *decl = (struct ast_declaration *)it->value;
             decl->memory_location = evaluate_static_initializer(thread_context, decl);
         }
+        
+        if(thread_context->error) globals.an_error_has_occurred = true;
     }
     
+    if(globals.an_error_has_occurred) goto end;
+    
     stage_three_emit_code_time = os_get_time_in_seconds() - stage_three_emit_code_time;
     
     //
-- 
2.43.0


From 002037ca609fde8a25f738897de7af6ecff33f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:41 +0000
Subject: [PATCH 58/78] fix: a file that includes itself was preprocessed
 forever

---
 src/preprocess.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index dc560e9..f461279 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -3372,7 +3372,8 @@ func s64 static_if_evaluate(struct context *context){
 
 //_____________________________________________________________________________________________________________________
 
-func void maybe_push_file_to_include_stack(struct context *context, struct file *file){
+// Returns 0, after reporting an error, if the file (directly or indirectly) includes itself too often.
+func int maybe_push_file_to_include_stack(struct context *context, struct token *directive, struct file *file){
     
     //
     // Check if we are one of the files that contained a '#pragma once' in this compilation unit,
@@ -3397,12 +3398,27 @@ func void maybe_push_file_to_include_stack(struct context *context, struct file
         //
         struct token_array tokens = file->tokens;
         
+        // 
+        // Do not preprocess forever, if a file keeps on including itself.
+        // 
+        smm include_depth = 0;
+        for(smm stack_index = 0; stack_index < context->token_stack.size; stack_index++){
+            if(context->token_stack.nodes[stack_index].tokens.data == tokens.data) include_depth++;
+        }
+        
+        if(tokens.amount && include_depth >= 1024){
+            report_error(context, directive, "'%s' is nested too deeply, it includes itself.", file->absolute_file_path);
+            return 0;
+        }
+        
         atomic_preincrement(&file->amount_of_times_included);
         
         if(tokens.amount){
             push_to_token_stack(context, tokens, 0, null);
         }
     }
+    
+    return 1;
 }
 
 struct static_if_stack_node{
@@ -3570,7 +3586,7 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                             goto end;
                         }
                         
-                        maybe_push_file_to_include_stack(context, file);
+                        if(!maybe_push_file_to_include_stack(context, postponed_directive.directive, file)) goto end;
                     }else{
                         static_if_stack.first->is_true = static_if_evaluate(context) != 0;
                         if(context->should_exit_statement) goto end;
@@ -4392,7 +4408,7 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                                 goto end;
                             }
                             
-                            maybe_push_file_to_include_stack(context, file);
+                            if(!maybe_push_file_to_include_stack(context, directive, file)) goto end;
                             
                             continue;
                         }else{
@@ -4434,7 +4450,7 @@ func struct token_array file_tokenize_and_preprocess(struct context *context, st
                             goto end;
                         }
                         
-                        maybe_push_file_to_include_stack(context, next_include);
+                        if(!maybe_push_file_to_include_stack(context, directive, next_include)) goto end;
                         
                         continue;
                     }else if(directive_kind == DIRECTIVE_embed){
-- 
2.43.0


From 9122a2a2d494046038c9bc88429c25c7b4cbfb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:01 +0000
Subject: [PATCH 59/78] fix: diagnostics between the parse stages were dropped
 when the main thread parsed a sleeping entry last

---
 src/main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.c b/src/main.c
index 51dfe5e..967ea6e 100644
--- a/src/main.c
+++ b/src/main.c
@@ -5158,6 +5158,10 @@ globals.typedef_##postfix = (struct ast_type){
     assert(globals.work_queue_parse_global_scope_entries.work_entries_in_flight == 0);
     if(globals.an_error_has_occurred) goto end;
     
+    // The last global scope entry this thread parsed might have gone to sleep (and another thread might have woken it up and parsed it).
+    // Make sure, we do not suppress the diagnostics we report in between the stages because of it.
+    reset_context(context);
+    
     // If /Zs was specified, we have succeeded when we get here!
     if(globals.cli_options.syntax_check) return 0;
     
-- 
2.43.0


From a0db40185cd77f8a04428a86e06ed9020d4b8da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:08 +0000
Subject: [PATCH 60/78] fix: wmain with an environment parameter got no
 arguments of its own

---
 implicit/pre_wmain_envp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/pre_wmain_envp.c b/implicit/pre_wmain_envp.c
index 13c1fe6..b60df26 100644
--- a/implicit/pre_wmain_envp.c
+++ b/implicit/pre_wmain_envp.c
@@ -56,7 +56,7 @@ int _start(void){
     envp_array[amount_of_environment_strings] = 0;
     
     
-    int exit_code = wmain(argc, argv, envp_array);
+    int exit_code = wmain(argc, wargv, envp_array);
     
     ExitProcess((unsigned int)exit_code);
 }
-- 
2.43.0


From 498322c034b736fd1951935fd294ee6ca5552ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:08 +0000
Subject: [PATCH 61/78] fix: the command line handed to WinMain and wWinMain
 contained the program name

---
 implicit/pre_WinMain.c  | 8 ++++++++
 implicit/pre_wWinMain.c | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/implicit/pre_WinMain.c b/implicit/pre_WinMain.c
index 3e768c1..68823b1 100644
--- a/implicit/pre_WinMain.c
+++ b/implicit/pre_WinMain.c
@@ -46,7 +46,15 @@ void _start(void){
     
     HINSTANCE hInstance = GetModuleHandleA(0); // @cleanup: __ImageBase?
     HINSTANCE hPrevInstance = 0; // "This parameter is always NULL."
+    
+    // "The command line for the application, excluding the program name."
     char *lpCmdLine = GetCommandLineA();
+    int in_quotes = 0;
+    for(; *lpCmdLine && (in_quotes || !character_is_whitespace(*lpCmdLine)); lpCmdLine++){
+        if(*lpCmdLine == '"') in_quotes = !in_quotes;
+    }
+    while(character_is_whitespace(*lpCmdLine)) lpCmdLine++;
+    
     int nShowCmd = (StartupInfo.dwFlags & /*STARTF_USESHOWWINDOW*/1) ? StartupInfo.wShowWindow : /*SW_SHOWDEFAULT*/10;
     
     int ExitCode = WinMain(hInstance, hPrevInstance, lpCmdLine, nShowCmd);
diff --git a/implicit/pre_wWinMain.c b/implicit/pre_wWinMain.c
index 23b7099..af03f2c 100644
--- a/implicit/pre_wWinMain.c
+++ b/implicit/pre_wWinMain.c
@@ -49,7 +49,15 @@ void _start(void){
     
     HINSTANCE hInstance = GetModuleHandleW(0); // @cleanup: __ImageBase?
     HINSTANCE hPrevInstance = 0; // "This parameter is always NULL."
+    
+    // "The command line for the application, excluding the program name."
     wchar_t *lpCmdLine = GetCommandLineW();
+    int in_quotes = 0;
+    for(; *lpCmdLine && (in_quotes || !wchar_is_whitespace(*lpCmdLine)); lpCmdLine++){
+        if(*lpCmdLine == L'"') in_quotes = !in_quotes;
+    }
+    while(wchar_is_whitespace(*lpCmdLine)) lpCmdLine++;
+    
     int nShowCmd = (StartupInfo.dwFlags & /*STARTF_USESHOWWINDOW*/1) ? StartupInfo.wShowWindow : /*SW_SHOWDEFAULT*/10;
     
     int ExitCode = wWinMain(hInstance, hPrevInstance, lpCmdLine, nShowCmd);
-- 
2.43.0


From 37c008a4c55c363aac3d3f111ce86df1c535dbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:08 +0000
Subject: [PATCH 62/78] fix: diagnostics of a function definition referred to
 an earlier declaration of it

---
 src/parse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index a05255a..5f861ea 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -8865,6 +8865,9 @@ func struct declaration_list parse_declaration_list(struct context *context, str
                     //                                                                              - 19.10.2024
                     function->scope = scope;
                     decl = &function->as_decl;
+                }else{
+                    // Diagnostics should refer to the definition, not to whichever declaration was parsed first.
+                    decl->identifier = declarator.ident;
                 }
             }
         }else{
-- 
2.43.0


From cb1facf5596e72cdf966a59db1f4206edc59f045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:08 +0000
Subject: [PATCH 63/78] fix: comparisons of two floating point constants were
 always true

---
 src/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 5f861ea..d27495d 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -2934,7 +2934,7 @@ func void perform_float_operation(struct context *context, enum ast_kind binary_
         // "The result has type int".
         struct ir_integer_literal *lit = (struct ir_integer_literal *)lhs;
         lit->base.kind = IR_integer_literal;
-        lit->_u64 = 1;
+        lit->_u64 = compare_value;
         lit->type = &globals.typedef_s32;
         op_rhs->resolved_type = &globals.typedef_s32;
         op_rhs->defined_type = &globals.typedef_u8.kind;
-- 
2.43.0


From 7ad5b743392377b9142208c5ea0082d657d75339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:08 +0000
Subject: [PATCH 64/78] fix: a conditional expression inside of an exception
 filter crashed the compiler

---
 src/parse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse.c b/src/parse.c
index d27495d..ccefc8d 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -9725,6 +9725,7 @@ func void parse_statement(struct context *context){
                     push_ir(context, IR_return);
                     
                     filter_function->end_in_ir_arena = arena_current(&context->ir_arena);
+                    filter_function->amount_of_jump_labels = context->jump_label_index; // The labels are numbered per parsed function.
                     filter_scope->end_offset = (u32)(filter_function->end_in_ir_arena - filter_function->start_in_ir_arena);
                     
                     {
-- 
2.43.0


From 7157620b11cf3177d3058684d7c73658f4d3fe40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:09 +0000
Subject: [PATCH 65/78] fix: a '__finally'-block crashed the compiler

---
 src/main.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main.c b/src/main.c
index 967ea6e..abe1650 100644
--- a/src/main.c
+++ b/src/main.c
@@ -3581,6 +3581,14 @@ func void worker_emit_code(struct context *context, struct work_queue_entry *wor
     
     emit_code_for_function(context, function);
     
+    for(struct seh_exception_handler *handler = function->seh_exception_handler; handler; handler = handler->next){
+        // A '__try' with a '__finally' has no filter function, and we do not generate a termination handler for it.
+        if(!handler->filter_function){
+            report_error(context, function->identifier, "A '__finally'-block is currently not supported in a function that gets emitted.");
+            break;
+        }
+    }
+    
     for_ast_list(function->static_variables){
         struct ast_declaration *decl = cast(struct ast_declaration *)it->value;
         
-- 
2.43.0


From c249453f30536153523c0d466b871b9c23020a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:02 +0000
Subject: [PATCH 66/78] fix: exception filters accessed the locals of their
 function in the wrong frame

---
 src/emit_x64.c | 35 +++++++++++++++++++++++++----------
 src/main.c     |  7 ++++++-
 2 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index c214e7a..5032343 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -833,6 +833,11 @@ func struct emit_location *emit_location_stack_relative(struct context *context,
     return emit_location_register_relative__internal(context, context->register_bp, null, -offset, size, null);
 }
 
+func struct emit_location *emit_location_frame_relative(struct context *context, smm offset, smm size){
+    // @note: Like 'emit_location_stack_relative', but for declarations. In an exception filter, these are in the frame of the parent function.
+    return emit_location_register_relative__internal(context, context->register_frame, null, -offset, size, null);
+}
+
 func struct emit_location *emit_location_immediate(struct context *context, u64 value, smm size){
     struct emit_location *ret = push_uninitialized_struct(&context->scratch, struct emit_location);
     ret->state = EMIT_LOCATION_immediate;
@@ -1040,7 +1045,7 @@ func void spill_all_allocated_volatile_registers(struct context *context){
 }
 
 func void free_emit_location(struct context *context, struct emit_location *loc){
-    if(loc == context->register_bp) return;
+    if(loc == context->register_bp || loc == context->register_frame) return;
     assert(loc->state != EMIT_LOCATION_freed); // no double frees
     if(loc->prevent_freeing || loc->prevent_spilling) return;
     
@@ -1515,7 +1520,7 @@ func struct emit_location *emit_location_register_relative_copy(struct context *
     struct emit_location *base  = source->base;
     struct emit_location *index = source->index;
     
-    if(base != context->register_bp){
+    if(base != context->register_bp && base != context->register_frame){
         enum register_encoding new_base = allocate_register(context, REGISTER_KIND_gpr);
         emit_location_prevent_freeing(context, base);
         struct emit_location *loaded = emit_load_into_specific_gpr(context, base, new_base);
@@ -2339,10 +2344,10 @@ struct emit_location *get_emit_location_for_declaration(struct context *context,
             // it is actually a pointer to the declaration, not the declaration itself.
             // we emit '[[stack_location]]' here. (register relative to register relative
             
-            struct emit_location *stack_location = emit_location_stack_relative(context, decl->offset_on_stack, 8);
+            struct emit_location *stack_location = emit_location_frame_relative(context, decl->offset_on_stack, 8);
             ret = emit_location_register_relative(context, stack_location, 0, 0, decl_size);
         }else{
-            ret = emit_location_stack_relative(context, decl->offset_on_stack, decl_size);
+            ret = emit_location_frame_relative(context, decl->offset_on_stack, decl_size);
         }
     }
     
@@ -2734,7 +2739,7 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 struct ast_declaration *decl = compound_literal->decl;
                 struct ast_type *type = decl->type;
                 
-                struct emit_location *decl_location = emit_location_stack_relative(context, decl->offset_on_stack, type->size);
+                struct emit_location *decl_location = emit_location_frame_relative(context, decl->offset_on_stack, type->size);
                 if(type->kind == AST_struct || type->kind == AST_union || type->kind == AST_array_type){
                     emit_memset(context, decl_location, 0);
                 }
@@ -4840,6 +4845,12 @@ func void emit_code_for_function(struct context *context, struct ast_function *f
     context->gpr_allocator.emit_location_map[REGISTER_SP] = null;
     context->register_bp = emit_location_loaded(context, REGISTER_KIND_gpr, REGISTER_BP, 8);
     context->gpr_allocator.emit_location_map[REGISTER_BP] = null;
+    context->register_frame = context->register_bp;
+    
+    if(function->type->flags & FUNCTION_TYPE_FLAGS_is_seh_filter){
+        context->register_frame = emit_location_loaded(context, REGISTER_KIND_gpr, REGISTER_R14, 8);
+        context->gpr_allocator.emit_location_map[REGISTER_R14] = null;
+    }
     
     
     // :stack_space_needed. The amount of stack space needed needs to be aligned to 16.
@@ -4884,9 +4895,10 @@ func void emit_code_for_function(struct context *context, struct ast_function *f
     // @WARNING: If you change this code you have to also change the implementation of `_AddressOfReturnAddress`.
     
     if(function->type->flags & FUNCTION_TYPE_FLAGS_is_seh_filter){
+        emit(0x41); emit(0x56); // push r14
         emit(0x41); emit(0x55); // push r13
         emit(0x41); emit(0x54); // push r12
-        function->pushed_register_mask |= (1 << REGISTER_R12) | (1 << REGISTER_R13);
+        function->pushed_register_mask |= (1 << REGISTER_R12) | (1 << REGISTER_R13) | (1 << REGISTER_R14);
     }
     
     emit(PUSH_REGISTER_DI);
@@ -4899,9 +4911,11 @@ func void emit_code_for_function(struct context *context, struct ast_function *f
     emit_reg_reg__(context, REXW, MOVE_REG_REGM, REGISTER_BP, REGISTER_SP);
     
     if(function->type->flags & FUNCTION_TYPE_FLAGS_is_seh_filter){
-        // mov r13, rdx
-        // mov r12, [rdx]
+        // mov r14, rdx     (the frame of the parent function)
+        // mov r13, rcx     (the exception pointers)
+        // mov r12, [rcx]
         // mov r12d, [r12]
+        emit(0x49); emit(0x89); emit(0xd6);
         emit(0x49); emit(0x89); emit(0xcd);
         emit(0x4c); emit(0x8b); emit(0x21);
         emit(0x45); emit(0x8b); emit(0x24); emit(0x24);
@@ -5058,8 +5072,9 @@ func void emit_code_for_function(struct context *context, struct ast_function *f
     emit(POP_REGISTER_DI);
     
     if(function->type->flags & FUNCTION_TYPE_FLAGS_is_seh_filter){
-        emit(0x41); emit(0x5c); // push r12
-        emit(0x41); emit(0x5d); // push r13
+        emit(0x41); emit(0x5c); // pop r12
+        emit(0x41); emit(0x5d); // pop r13
+        emit(0x41); emit(0x5e); // pop r14
     }
     
     emit(NEAR_RET_INSTRUCTION);
diff --git a/src/main.c b/src/main.c
index abe1650..bc23e1a 100644
--- a/src/main.c
+++ b/src/main.c
@@ -894,6 +894,7 @@ struct context{
     
     struct emit_location *register_sp;
     struct emit_location *register_bp;
+    struct emit_location *register_frame; // The register used to address declarations on the stack. This is 'rbp', except for exception filters.
     
     struct jump_context *break_jump_context;
     struct jump_context *continue_jump_context;
@@ -3587,6 +3588,9 @@ func void worker_emit_code(struct context *context, struct work_queue_entry *wor
             report_error(context, function->identifier, "A '__finally'-block is currently not supported in a function that gets emitted.");
             break;
         }
+        
+        // @note: The filter uses the stack locations of the locals of 'function', hence it can only be emitted now.
+        work_queue_push_work(context, &globals.work_queue_emit_code, handler->filter_function);
     }
     
     for_ast_list(function->static_variables){
@@ -5729,7 +5733,8 @@ globals.typedef_##postfix = (struct ast_type){
                                     lookup_declaration_in_libraries(context, &function->as_decl, node->at->token);
                                 }
                             }
-                        }else if(!(function->type->flags & FUNCTION_TYPE_FLAGS_is_inline_asm)){
+                        }else if(!(function->type->flags & (FUNCTION_TYPE_FLAGS_is_inline_asm | FUNCTION_TYPE_FLAGS_is_seh_filter))){
+                            // @note: Filter functions are queued once the function containing them was emitted, see 'worker_emit_code'.
                             struct work_queue_entry *work = push_struct(context->arena, struct work_queue_entry);
                             work->data = function;
                             sll_push_back(functions_to_emit, work);
-- 
2.43.0


From 14e988eeb2fabfcfd03a2612ae3bf99ee4dba376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:02 +0000
Subject: [PATCH 67/78] fix: an exception in a call directly in front of a
 '__try'-block was handled by the block

---
 src/emit_x64.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index 5032343..5ec75b2 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -4775,6 +4775,10 @@ void emit_code_for_function__internal(struct context *context, struct ast_functi
                 struct ir_exception_marker *marker = (struct ir_exception_marker *)ir;
                 ir_arena_at += sizeof(*marker);
                 
+                // If the previous instruction is a call, its return address must not be inside of the '__try'-block.
+                // Otherwise, an exception raised in the called function would be handled by this block.
+                emit(0x90); // nop
+                
                 marker->handler->start_offset_in_function = (u32)get_bytes_emitted(context);
             }break;
             
-- 
2.43.0


From 7705ec371675cc345a7e57ec93c59379f3d9b595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:02 +0000
Subject: [PATCH 68/78] fix: the epilog of functions returning structures used
 stack memory that was not allocated

---
 src/emit_x64.c | 58 ++++++++++++++++++++++++++------------------------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/src/emit_x64.c b/src/emit_x64.c
index 5ec75b2..1875642 100644
--- a/src/emit_x64.c
+++ b/src/emit_x64.c
@@ -5010,7 +5010,37 @@ func void emit_code_for_function(struct context *context, struct ast_function *f
     ////////////////////////////////////////////////
     
     
+    // :function_epilog
+    // we jump to here, instead of returning on the spot, this is so we can get canonical stack framing.
+    emit_end_jumps(context, jump_to_function_epilog);
+    
+    if(type_is_returned_by_address(return_type)){
+        // :returning_structs
+        
+        // Get the value of the implicit return value, which was passed as an implicit first operand.
+        // And thus is contained in the first argument location.
+        // We should return this again, thus load it into rax.
+        struct emit_location *location_of_rax = emit_location_stack_relative(context, -(16 + 8 * amount_of_saved_registers), 8);
+        enum register_encoding rax = allocate_specific_register(context, REGISTER_KIND_gpr, REGISTER_A);
+        struct emit_location *address_of_return_struct = emit_load_into_specific_gpr(context, location_of_rax, rax);
+        struct emit_location *dest = emit_location_register_relative(context, address_of_return_struct, 0, 0, return_type->size);
+        
+        // In the AST_return, we have loaded the location of the return struct into rsi now we want to emit a memcpy for 
+        // 'return_type->size' bytes to the saved rax.
+        enum register_encoding rsi = allocate_specific_register(context, REGISTER_KIND_gpr, REGISTER_SI);
+        struct emit_location *rsi_loc = emit_location_loaded(context, REGISTER_KIND_gpr, rsi, 8); 
+        struct emit_location *source = emit_location_register_relative(context, rsi_loc, 0, 0, return_type->size);
+        
+        emit_memcpy(context, dest, source);
+        
+        // not sure if we need this @cleanup
+        free_emit_location(context, source);
+        free_emit_location(context, address_of_return_struct);
+    }
+    
     // :stack_space_needed
+    // @note: This has to happen after all code of the function was emitted, as the epilog might also use temporary stack memory.
+    // 
     // amount of stack needed for the declarations in the scope, is saved in 'function->stack_space_needed'
     // at the end of parsing. Here we patch it.
     smm stack_memory_needed = function->stack_space_needed;
@@ -5039,34 +5069,6 @@ func void emit_code_for_function(struct context *context, struct ast_function *f
     smm stack_frame_size = stack_memory_needed + amount_of_saved_registers * 8 + /* rbp */8 + /*return value*/8;
     assert((stack_frame_size & 15) == 0);
     
-    // :function_epilog
-    // we jump to here, instead of returning on the spot, this is so we can get canonical stack framing.
-    emit_end_jumps(context, jump_to_function_epilog);
-    
-    if(type_is_returned_by_address(return_type)){
-        // :returning_structs
-        
-        // Get the value of the implicit return value, which was passed as an implicit first operand.
-        // And thus is contained in the first argument location.
-        // We should return this again, thus load it into rax.
-        struct emit_location *location_of_rax = emit_location_stack_relative(context, -(16 + 8 * amount_of_saved_registers), 8);
-        enum register_encoding rax = allocate_specific_register(context, REGISTER_KIND_gpr, REGISTER_A);
-        struct emit_location *address_of_return_struct = emit_load_into_specific_gpr(context, location_of_rax, rax);
-        struct emit_location *dest = emit_location_register_relative(context, address_of_return_struct, 0, 0, return_type->size);
-        
-        // In the AST_return, we have loaded the location of the return struct into rsi now we want to emit a memcpy for 
-        // 'return_type->size' bytes to the saved rax.
-        enum register_encoding rsi = allocate_specific_register(context, REGISTER_KIND_gpr, REGISTER_SI);
-        struct emit_location *rsi_loc = emit_location_loaded(context, REGISTER_KIND_gpr, rsi, 8); 
-        struct emit_location *source = emit_location_register_relative(context, rsi_loc, 0, 0, return_type->size);
-        
-        emit_memcpy(context, dest, source);
-        
-        // not sure if we need this @cleanup
-        free_emit_location(context, source);
-        free_emit_location(context, address_of_return_struct);
-    }
-    
     // deallocate stack memory
     emit_reg_reg__(context, REXW, MOVE_REG_REGM, REGISTER_SP, REGISTER_BP);
     emit(POP_REGISTER_BP);
-- 
2.43.0


From 8aa0132107662a3e5e5c61b5216dccd3b32fe38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:39 +0000
Subject: [PATCH 69/78] fix: the unwind information of functions with more than
 512K of stack was misencoded

The 32 bit operand of UWOP_ALLOC_LARGE was pushed with its natural alignment,
which inserted two bytes of padding whenever the number of unwind codes in
front of it was odd.
---
 src/obj_writer.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index 26a9138..f706685 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -943,7 +943,10 @@ func void *push_unwind_information_for_function(struct memory_arena *arena, stru
         
         stack_allocation_code->operation_code = /*UWOP_ALLOC_LARGE*/1;
         stack_allocation_code->operation_info = 1;
-        *push_struct(arena, u32) = (u32)stack_space_needed;
+        
+        // @note: The unwind codes are only two byte aligned, therefore we cannot use 'push_struct(arena, u32)' here.
+        *push_struct(arena, u16) = (u16)(stack_space_needed);
+        *push_struct(arena, u16) = (u16)(stack_space_needed >> 16);
     }
     
     // @incomplete: Pushing r8-r15 needs 2 bytes each.
-- 
2.43.0


From 1372e6c4e9821c06c203fbe5a96ed5d162cb61c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:09 +0000
Subject: [PATCH 70/78] fix: declarations which differ only in '...' were
 treated as equal

---
 src/parse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse.c b/src/parse.c
index ccefc8d..b84bd3f 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -975,6 +975,7 @@ func struct ast_type *types_are_equal(struct ast_type *wanted, struct ast_type *
         struct ast_function_type *given_function  = cast(struct ast_function_type *)given;
         
         if(wanted_function->argument_list.count != given_function->argument_list.count) return null;
+        if((wanted_function->flags ^ given_function->flags) & FUNCTION_TYPE_FLAGS_is_varargs) return null;
         
         if(!types_are_equal(wanted_function->return_type, given_function->return_type)){
             return null;
-- 
2.43.0


From c53136781dd72f4b4bd0c6bf9f06a0818cfd705b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:50 +0000
Subject: [PATCH 71/78] fix: the symbols of the unwind information in object
 files had wrong offsets

---
 src/obj_writer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index f706685..8141842 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -2515,7 +2515,7 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
             // 
             // Advance the offset to the next unwind info.
             // 
-            u8 *unwind_data = obj_base_address + xdata->pointer_to_raw_data;
+            u8 *unwind_data = obj_base_address + xdata->pointer_to_raw_data + unwind_info_offset;
             u8 count_of_codes = unwind_data[2];
             unwind_info_offset += 4 + (count_of_codes + (count_of_codes & 1)) * 2;
             
-- 
2.43.0


From 9fc579ba971360fb4a80db47b4e6381d844cf7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:50 +0000
Subject: [PATCH 72/78] fix: object files lacked local functions and exception
 filters and the relocations of the exception tables

---
 src/obj_writer.c | 121 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 121 insertions(+)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index 8141842..71a6ef4 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -1319,6 +1319,31 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
         }
     }
     
+    // Add all local functions and exception filters.
+    for(smm thread_index = 0; thread_index < globals.thread_count; thread_index++){
+        struct context *thread_context = globals.thread_infos[thread_index].context;
+        
+        for_ast_list(thread_context->local_functions){
+            struct ast_function *function = (struct ast_function *)it->value;
+            
+            if(!function->memory_location) continue; // The function containing it was never emitted.
+            
+            // They are only visible inside of the function that contains them.
+            function->as_decl.flags |= DECLARATION_FLAGS_is_static;
+            ast_list_append(&defined_functions, scratch, &function->kind);
+            
+            for(struct ast_list_node *static_node = function->static_variables.first; static_node; static_node = static_node->next){
+                struct ast_declaration *static_decl = (struct ast_declaration *)static_node->value;
+                if(static_decl->flags & DECLARATION_FLAGS_is_thread_local){
+                    references_thread_local_variables = true;
+                    ast_list_append(&tls_variables, scratch, &static_decl->kind);
+                }else{
+                    ast_list_append(&defined_variables, scratch, &static_decl->kind);
+                }
+            }
+        }
+    }
+    
     struct ast_list global_struct_and_array_literals = zero_struct;
     
     for(smm thread_index = 0; thread_index < globals.thread_count; thread_index++){
@@ -1546,6 +1571,8 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
         pdata->characteristics     = /*INITIALIZED_DATA*/0x00000040 | /*4-byte align*/0x00300000 | /*MEM_READ*/0x40000000;
     }
     
+    smm amount_of_xdata_relocations = 0;
+    
     if(defined_functions.count){
         xdata = section_headers + section_header_count++;
         
@@ -1555,6 +1582,11 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
             struct ast_function *function = (struct ast_function *)it->value;
             
             push_unwind_information_for_function(arena, function);
+            
+            if(function->seh_exception_handler) amount_of_xdata_relocations += 1;
+            for(struct seh_exception_handler *handler = function->seh_exception_handler; handler; handler = handler->next){
+                amount_of_xdata_relocations += 4;
+            }
         }
         
         memcpy(xdata->name, ".xdata", sizeof(".xdata"));
@@ -2519,6 +2551,13 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
             u8 count_of_codes = unwind_data[2];
             unwind_info_offset += 4 + (count_of_codes + (count_of_codes & 1)) * 2;
             
+            if(function->seh_exception_handler){
+                unwind_info_offset += /*exception handler*/4 + /*count*/4;
+                for(struct seh_exception_handler *handler = function->seh_exception_handler; handler; handler = handler->next){
+                    unwind_info_offset += 4 * 4;
+                }
+            }
+            
             struct coff_symbol_table_record *pdata_record = (struct coff_symbol_table_record *)push_data(arena, u8, 18);
             
             struct string pdata_string = push_format_string(scratch, "$pdata$%.*s", name.size, name.data);
@@ -3185,6 +3224,88 @@ void print_obj(struct string output_file_path, struct memory_arena *arena, struc
         }
     }
     
+    if(amount_of_xdata_relocations){
+        // .xdata relocations:
+        // 
+        // For every function which contains a '__try', there is a reference to '__C_specific_handler', 
+        // which is followed by a scope table. Each entry of it consists of 4 virtual addresses.
+        // 
+        
+        xdata->pointer_to_relocations = (u32)(arena_current(arena) - obj_base_address);
+        
+        if(amount_of_xdata_relocations <= 0xffff){
+            xdata->number_of_relocations = (u16)amount_of_xdata_relocations;
+        }else{
+            assert(amount_of_xdata_relocations < 0xffffffff);
+            
+            xdata->characteristics |= /*IMAGE_SCN_LNK_NRELOC_OVFL*/0x01000000;
+            xdata->number_of_relocations = 0xffff;
+            
+            // If the number of relocations is to big to fit in a u16, 
+            // the actual number of relocations is contained in the 
+            // VirtualAddress (destination_offset_in_section) field of the first relocation.
+            
+            struct coff_relocation *relocation = (void *)push_data(arena, u8, 10);
+            relocation->relocation_type = 0; // The relocation is ignored.
+            relocation->destination_offset_in_section = (u32)(amount_of_xdata_relocations + 1);
+        }
+        
+        u8 *xdata_base = obj_base_address + xdata->pointer_to_raw_data;
+        u8 *xdata_relocations_data = push_data(arena, u8, 10 * amount_of_xdata_relocations);
+        
+        struct ast_declaration *C_specific_handler = &globals.C_specific_handler_declaration->as_decl;
+        smm C_specific_handler_is_stub = (C_specific_handler->flags & DECLARATION_FLAGS_need_dllimport_stub_function) != 0; // :dll_import_function_stubs_have_symbol_index_plus_one.
+        
+        smm relocation_at = 0;
+        smm xdata_at = 0;
+        
+        for_ast_list(defined_functions){
+            struct ast_function *function = (struct ast_function *)it->value;
+            
+            u8 count_of_codes = xdata_base[xdata_at + 2];
+            xdata_at += 4 + (count_of_codes + (count_of_codes & 1)) * 2;
+            
+            if(!function->seh_exception_handler) continue;
+            
+            // 
+            // The relocations add the address of the symbol to what is already there, 
+            // hence the addresses are turned into offsets from the symbol here.
+            // 
+            struct coff_relocation *relocation = (void *)(xdata_relocations_data + 10 * relocation_at++);
+            relocation->relocation_type = /*ADDR32NB*/3;
+            relocation->destination_offset_in_section = (u32)xdata_at;
+            relocation->source_symbol_table_index     = (u32)(C_specific_handler->symbol_table_index + C_specific_handler_is_stub);
+            *(u32 *)(xdata_base + xdata_at) = 0;
+            
+            xdata_at += /*exception handler*/4 + /*count*/4;
+            
+            for(struct seh_exception_handler *handler = function->seh_exception_handler; handler; handler = handler->next){
+                
+                struct{
+                    struct ast_function *symbol;
+                    smm offset;
+                } entry[4] = {
+                    {function, handler->start_offset_in_function}, // BeginAddress
+                    {function, handler->end_offset_in_function},   // EndAddress
+                    {handler->filter_function, 0},                 // HandlerAddress
+                    {function, handler->end_offset_in_function},   // JumpTarget
+                };
+                
+                for(u32 index = 0; index < 4; index++){
+                    relocation = (void *)(xdata_relocations_data + 10 * relocation_at++);
+                    relocation->relocation_type = /*ADDR32NB*/3;
+                    relocation->destination_offset_in_section = (u32)xdata_at;
+                    relocation->source_symbol_table_index     = (u32)entry[index].symbol->symbol_table_index;
+                    *(u32 *)(xdata_base + xdata_at) = (u32)entry[index].offset;
+                    
+                    xdata_at += 4;
+                }
+            }
+        }
+        
+        assert(relocation_at == amount_of_xdata_relocations);
+    }
+    
     if(amount_of_debug_symbols_relocations){
         smm amount_of_relocations = 2 * amount_of_debug_symbols_relocations;
         debug_symbols->pointer_to_relocations = (u32)(arena_current(arena) - obj_base_address);
-- 
2.43.0


From 6cd00b1273489ce38ca8408ee8f200e5ab77eb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:34 +0000
Subject: [PATCH 73/78] fix: a struct, union or enum used as another kind was
 only reported if it was already known

Whether 'extern enum S x;' was an error for a 'struct S' depended on which
of the two was parsed first.
---
 src/ast.c   |  1 +
 src/main.c  |  9 +++++++++
 src/parse.c | 54 +++++++++++++++++++++++++++++++++++++++--------------
 3 files changed, 50 insertions(+), 14 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 0524d75..ec6fa00 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -594,6 +594,7 @@ struct ast_unresolved_type{
     enum ast_kind kind; // AST_union, AST_struct or AST_enum
     struct token *sleeping_on;
     struct ast_scope *containing_scope;
+    struct ast_unresolved_type *next; // Linked list of all unresolved types one thread has encountered.
 };
 
 static struct string type_prefix_for_unresolved_type(struct ast_unresolved_type *unresolved){
diff --git a/src/main.c b/src/main.c
index bc23e1a..766d113 100644
--- a/src/main.c
+++ b/src/main.c
@@ -925,6 +925,8 @@ struct context{
     
     struct ast_list global_struct_and_array_literals; // Used for struct and array literals at global (or local persist) scope.
     
+    struct ast_unresolved_type *unresolved_types;
+    
     struct ast_list local_functions;
     struct ast_list local_dllimports;
     
@@ -5174,6 +5176,13 @@ globals.typedef_##postfix = (struct ast_type){
     // Make sure, we do not suppress the diagnostics we report in between the stages because of it.
     reset_context(context);
     
+    // All types are known now. Make sure that the structs, unions and enums, which were used before they were known, are what they were used as.
+    check_the_kinds_of_unresolved_types(context);
+    if(context->error){
+        globals.an_error_has_occurred = true;
+        goto end;
+    }
+    
     // If /Zs was specified, we have succeeded when we get here!
     if(globals.cli_options.syntax_check) return 0;
     
diff --git a/src/parse.c b/src/parse.c
index b84bd3f..4ba5f38 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -1233,9 +1233,47 @@ func struct ast_type *push_unresolved_type(struct context *context, struct token
     unresolved->kind = kind;
     unresolved->sleeping_on = sleep_on;
     
+    // Remember the type, so we can check later that the struct, union or enum it refers to is of this kind.
+    unresolved->next = context->unresolved_types;
+    context->unresolved_types = unresolved;
+    
     return &unresolved->base;
 }
 
+func void report_error_for_mismatching_compound_kind(struct context *context, struct token *name, enum ast_kind kind, struct ast_type *lookup){
+    char *error = null;
+    if(lookup->kind == AST_union)  error = "a union";
+    if(lookup->kind == AST_struct) error = "a struct";
+    if(lookup->kind == AST_enum)   error = "an enum";
+    assert(error);
+    
+    if(kind == AST_enum){
+        report_error(context, name, "Got 'enum %.*s' but '%.*s' is %s.", name->size, name->data, name->size, name->data, error);
+    }else{
+        char *union_or_struct = (kind == AST_union) ? "union" : "struct";
+        report_error(context, name, "Got '%s %.*s', but '%.*s' is %s.", union_or_struct, name->size, name->data, name->size, name->data, error);
+    }
+}
+
+func void check_the_kinds_of_unresolved_types(struct context *context){
+    
+    for(smm thread_index = 0; thread_index < globals.thread_count; thread_index++){
+        struct context *thread_context = globals.thread_infos[thread_index].context;
+        
+        struct token *previous_token = null;
+        
+        for(struct ast_unresolved_type *unresolved = thread_context->unresolved_types; unresolved; unresolved = unresolved->next){
+            struct token *name = unresolved->sleeping_on;
+            struct ast_type *lookup = lookup_unresolved_type(&unresolved->base);
+            
+            if(lookup && lookup->kind != unresolved->kind && name != previous_token){
+                report_error_for_mismatching_compound_kind(context, name, unresolved->kind, lookup);
+                previous_token = name; // If the declaration went to sleep, it was parsed more than once.
+            }
+        }
+    }
+}
+
 //_____________________________________________________________________________________________________________________
 // expressions 
 
@@ -7938,13 +7976,7 @@ case TOKEN_##type_name:{                                                 \
                         if(!lookup){
                             lookup = push_unresolved_type(context, name, ast_kind);
                         }else if(lookup->kind != ast_kind){
-                            char *error = null;
-                            if(lookup->kind == AST_union)  error = "a union";
-                            if(lookup->kind == AST_struct) error = "a struct";
-                            if(lookup->kind == AST_enum)   error = "an enum";
-                            assert(error);
-                            
-                            report_error(context, name, "Got '%s %.*s', but '%.*s' is %s.", union_or_struct, name->size, name->data, name->size, name->data, error);
+                            report_error_for_mismatching_compound_kind(context, name, ast_kind, lookup);
                         }
                         
                         specifiers.type_specifier         = lookup;
@@ -8386,13 +8418,7 @@ case TOKEN_##type_name:{                                                 \
                         if(!lookup){
                             lookup = push_unresolved_type(context, name, AST_enum);
                         }else if(lookup->kind != AST_enum){
-                            char *error = null;
-                            if(lookup->kind == AST_union)  error = "a union";
-                            if(lookup->kind == AST_struct) error = "a struct";
-                            if(lookup->kind == AST_enum)   error = "an enum";
-                            assert(error);
-                            
-                            report_error(context, name, "Got 'enum %.*s' but '%.*s' is %s.", name->size, name->data, name->size, name->data, error);
+                            report_error_for_mismatching_compound_kind(context, name, AST_enum, lookup);
                         }
                         
                         specifiers.defined_type_specifier = &lookup->kind;
-- 
2.43.0


From c6c48be2332354e9fb06f7eb1b1c01a4883eebee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:13 +0000
Subject: [PATCH 74/78] fix: whether a size of an array contradicting its
 initializer was reported depended on the schedule

'unsigned t[] = {1, 2, 3};' together with 'extern unsigned t[4];' in another compilation unit
was only an error if the definition was registered first.
---
 src/main.c  |  2 +-
 src/parse.c | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/main.c b/src/main.c
index 766d113..070594d 100644
--- a/src/main.c
+++ b/src/main.c
@@ -2105,7 +2105,7 @@ func int parser_register_definition(struct context *context, struct ast_declarat
                 struct string          type_string = push_type_string(context->arena, &context->scratch, type);
                 struct string previous_type_string = push_type_string(context->arena, &context->scratch, previous_type);
                 
-                report_error(context, initializer_token, "[%lld] Definition has type '%.*s', but it was previously declared with type '%.*s'.", context->current_compilation_unit->index, type_string.size, type_string.data, previous_type_string.size, previous_type_string.data);
+                report_error(context, initializer_token, "[%lld] Definition of '%.*s' has type '%.*s', but it was previously declared with type '%.*s'.", context->current_compilation_unit->index, decl->identifier->size, decl->identifier->data, type_string.size, type_string.data, previous_type_string.size, previous_type_string.data);
                 return 0;
             }
             
diff --git a/src/parse.c b/src/parse.c
index 4ba5f38..859a7f8 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -2714,7 +2714,7 @@ func void parse_initializer_list(struct context *context, struct ast_type *type_
 
 
 // This routine patches 'decl->assign_expr' and 'decl->type' instead of returning them.
-func void parse_initializer(struct context *context, struct ast_declaration *decl, struct token *equals){
+func void parse_initializer(struct context *context, struct ast_declaration *decl, struct ast_type *initial_type, struct token *equals){
     
     struct ir_skip *ir_skip = null;
     if(decl->flags & DECLARATION_FLAGS_is_local_persist){
@@ -2738,7 +2738,6 @@ func void parse_initializer(struct context *context, struct ast_declaration *dec
     //     6) struct s a = {?};
     // 
     struct ir *initializer_start = null;
-    struct ast_type *initial_type = decl->type;
     struct ast_type *type = initial_type;
     
     if(peek_token(context, TOKEN_open_curly)){
@@ -8984,6 +8983,7 @@ func struct declaration_list parse_declaration_list(struct context *context, str
             //    int a = 1;
             // works (we would otherwise not call 'evaluate_initializer' on the right decl).
             // 
+            struct ast_type *declared_type = decl->type;
             decl = register_declaration(context, decl);
             if(context->should_exit_statement) goto end;
             
@@ -9014,7 +9014,11 @@ func struct declaration_list parse_declaration_list(struct context *context, str
                 // :DeclarationReferenceThreadingBug
                 context->current_declaration = decl;
                 
-                parse_initializer(context, decl, equals);
+                // If this declares an array of unknown size, its initializer determines the size, even if another declaration
+                // already specified it (they have to agree, independent of which of the declarations was registered first).
+                struct ast_type *initial_type = type_is_array_of_unknown_size(declared_type) ? declared_type : decl->type;
+                
+                parse_initializer(context, decl, initial_type, equals);
                 if(context->should_exit_statement) goto end;
             }
             
-- 
2.43.0


From e86d565e03a74a4c5b0eb9315be67e58b3185b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:45 +0000
Subject: [PATCH 75/78] fix: functions declared dllimport inside of functions
 or by alternate names were imported more than once

---
 src/explain.c | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/explain.c b/src/explain.c
index d17201f..b9529e3 100644
--- a/src/explain.c
+++ b/src/explain.c
@@ -432,17 +432,25 @@ void lookup_declaration_in_libraries(struct context *context, struct ast_declara
         globals.dlls.amount += 1;
     }
     
-    // @note: We should not have to lookup the 'identifier' in the 'dll_node' as otherwise,
-    //        we should have already been here and set the 'import_node' member of the
-    //        lookup table.
+    // 
+    // Several declarations might refer to the same import, for example if it is declared '__declspec(dllimport)' 
+    // inside of functions, or if there are alternate names for it.
+    // 
     
-    struct dll_import_node *import_node = push_uninitialized_struct(context->arena, struct dll_import_node); // @note: No need to zero, 'arena' never has any non-zero bytes.
-    import_node->import_name  = identifier.string;
-    import_node->ordinal_hint = ar_import_header->ordinal_hint;
-    if(ar_import_header->name_type == /*IMPORT_OBJECT_ORDINAL*/0) import_node->import_by_ordinal = 1;
+    struct dll_import_node *import_node = dll_node->import_list.first;
+    for(; import_node; import_node = import_node->next){
+        if(string_match(import_node->import_name, identifier.string)) break;
+    }
     
-    sll_push_back(dll_node->import_list, import_node);
-    dll_node->import_list.count += 1;
+    if(!import_node){
+        import_node = push_uninitialized_struct(context->arena, struct dll_import_node); // @note: No need to zero, 'arena' never has any non-zero bytes.
+        import_node->import_name  = identifier.string;
+        import_node->ordinal_hint = ar_import_header->ordinal_hint;
+        if(ar_import_header->name_type == /*IMPORT_OBJECT_ORDINAL*/0) import_node->import_by_ordinal = 1;
+        
+        sll_push_back(dll_node->import_list, import_node);
+        dll_node->import_list.count += 1;
+    }
     
     if(is_dll_import){
         function->dll_import_node = import_node;
-- 
2.43.0


From 26853759507845361ee10e2bc4e15de0d4cc3feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:43 +0000
Subject: [PATCH 76/78] fix: debug information of enumeration constants below
 -32768 was malformed

---
 src/obj_writer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/obj_writer.c b/src/obj_writer.c
index 71a6ef4..f432306 100644
--- a/src/obj_writer.c
+++ b/src/obj_writer.c
@@ -79,10 +79,10 @@ void push_signed_number_leaf(struct memory_arena *arena, s64 value){
             *push_struct(arena, u16) = (u16)value;
         }else if(value >= s32_min){
             *push_struct(arena, u16) = 0x8003; // LF_LONG
-            *push_struct(arena, u32) = (u32)value;
+            *(u32 *)push_data(arena, u8, sizeof(u32)) = (u32)value;
         }else{
             *push_struct(arena, u16) = 0x8009; // LF_QUADWORD
-            *push_struct(arena, s64) = value;
+            *(u64 *)push_data(arena, u8, sizeof(u64)) = value;
         }
     }
 }
-- 
2.43.0


From 7b3e51496c15db311fb0abdb90e802be4e9cdbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:50 +0000
Subject: [PATCH 77/78] fix: references of a selectany variable initialized in
 several units were lost

---
 src/parse.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 859a7f8..8b44ec7 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -4954,14 +4954,21 @@ case NUMBER_KIND_##type:{ \
                     
                     // :DeclarationReferenceThreadingBug
                     // 
-                    // @cleanup: This should probably be atomic, as we might be parsing an initializer of a declaration
-                    //           in two different threads at the same time.
-                    //           This happens if there are two initializers in the code (a bug), because we `register_declaration` and then
-                    //           reassign the declaration in `parse_declaration_list`.
-                    //           In the future, there should probably be a guard in `parse_declaration_list` against parsing an initializer
-                    //           twice at the same time.
-                    //                                                                                            - 19.10.2024
-                    sll_push_back(outer_declaration->referenced_declarations, new_reference);
+                    // We might be parsing an initializer of a declaration in two different threads at the same time.
+                    // This happens if there are two initializers in the code (e.g. for '__declspec(selectany)'), because we 
+                    // `register_declaration` and then reassign the declaration in `parse_declaration_list`.
+                    new_reference->next = null;
+                    
+                    struct declaration_reference_node *last;
+                    do{
+                        last = atomic_load(struct declaration_reference_node *, outer_declaration->referenced_declarations.last);
+                    }while(atomic_compare_and_swap(&outer_declaration->referenced_declarations.last, new_reference, last) != last);
+                    
+                    if(last){
+                        last->next = new_reference;
+                    }else{
+                        outer_declaration->referenced_declarations.first = new_reference;
+                    }
                 }
             }else{
                 lookup->_times_referenced++;
-- 
2.43.0


From 362435d689f36e7370666402a79b9e3039405693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:50 +0000
Subject: [PATCH 78/78] fix: a variable stayed of unresolved type if its extern
 declaration was parsed before its type

---
 src/main.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main.c b/src/main.c
index 070594d..9aa6788 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1966,6 +1966,12 @@ func struct ast_declaration *register_declaration(struct context *context, struc
                     // @cleanup: How do we handle this eventually...?
                     // 
                     
+                    // :threading
+                    // @note: An 'extern' declaration might have been registered before its type was known.
+                    if(redecl_type_at_load->kind == AST_unresolved_type && decl->type->kind != AST_unresolved_type){
+                        atomic_compare_and_swap(&redecl->type, decl->type, redecl_type_at_load);
+                    }
+                    
                     // :threading
                     // Any of the declarations might specify the alignment, the strictest one wins.
                     for(smm alignment = redecl->overwrite_alignment; alignment < decl->overwrite_alignment; ){
-- 
2.43.0

