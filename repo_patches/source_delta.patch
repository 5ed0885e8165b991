From 1b668c67d40e1dedde3a1cf18457ddf7c07404ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:45 +0000
Subject: [PATCH 01/57] fix: compute x^y in the linker the way the assembler
 does (negative and fractional exponents)

---
 wlalink/write.c | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/wlalink/write.c b/wlalink/write.c
index 77a8f46..e40916b 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -3188,7 +3188,7 @@ static int _perform_and(int a, int b) {
 int compute_stack(struct stack *sta, double *result_ram, double *result_rom, int *result_slot, int *result_base, int *result_bank) {
 
   int r, t, z, y, x, res_base, res_bank, res_slot, slot[256], base[256], bank[256];
-  double v_ram[256], v_rom[256], q, res_ram, res_rom;
+  double v_ram[256], v_rom[256], res_ram, res_rom;
   struct stack_item *s;
   struct stack *st;
 
@@ -3761,16 +3761,8 @@ int compute_stack(struct stack *sta, double *result_ram, double *result_rom, int
                   get_source_file_name(sta->file_id, sta->file_id_source), sta->linenumber);
           return FAILED;
         }
-        /* RAM */
-        q = 1;
-        for (z = 0; z < v_ram[t - 1]; z++)
-          q *= v_ram[t - 2];
-        v_ram[t - 2] = q;
-        /* ROM */
-        q = 1;
-        for (z = 0; z < v_rom[t - 1]; z++)
-          q *= v_rom[t - 2];
-        v_rom[t - 2] = q;
+        v_ram[t - 2] = pow(v_ram[t - 2], v_ram[t - 1]);
+        v_rom[t - 2] = pow(v_rom[t - 2], v_rom[t - 1]);
         _pass_on_slot(slot, t);
         _pass_on_base(base, t);
         _pass_on_bank(bank, t);
-- 
2.43.0


From 2d9461b9c16cffaf0db750cace2efe5d613b99c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:45 +0000
Subject: [PATCH 02/57] fix: min() in the linker ignored the smaller second
 operand of the ROM value

---
 wlalink/write.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wlalink/write.c b/wlalink/write.c
index e40916b..2758c4a 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -3452,7 +3452,7 @@ int compute_stack(struct stack *sta, double *result_ram, double *result_rom, int
         if (v_ram[t - 1] < v_ram[t - 2])
           v_ram[t - 2] = v_ram[t - 1];
         if (v_rom[t - 1] < v_rom[t - 2])
-          v_rom[t - 2] = v_rom[t - 2];
+          v_rom[t - 2] = v_rom[t - 1];
         if (s->sign == SI_SIGN_NEGATIVE) {
           v_ram[t - 2] = -v_ram[t - 2];
           v_rom[t - 2] = -v_rom[t - 2];
-- 
2.43.0


From fc9e60abefcda0507759b7ba99f3c73ee78b3f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:57 +0000
Subject: [PATCH 03/57] fix: give definitions from other files the same value
 in the linker's ROM address calculations (100/DEF was a division by zero)

---
 wlalink/analyze.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wlalink/analyze.c b/wlalink/analyze.c
index 283134a..30b4380 100644
--- a/wlalink/analyze.c
+++ b/wlalink/analyze.c
@@ -755,6 +755,7 @@ int collect_dlr(void) {
 
         READ_DOU;
         l->address = dou;
+        l->rom_address = dou;
         l->base = 0;
         l->file_id = g_obj_tmp->id;
         l->section_status = OFF;
@@ -1019,6 +1020,7 @@ int collect_dlr(void) {
 
         READ_DOU;
         l->address = dou;
+        l->rom_address = dou;
         l->bank = g_obj_tmp->bank;
         l->slot = g_obj_tmp->slot;
         l->base = g_obj_tmp->base;
-- 
2.43.0


From e10c82d907c7703111cf6f8e341d4c3792aea8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:29 +0000
Subject: [PATCH 04/57] fix: reject acos() and asin() of values outside [-1, 1]
 in the linker like the assembler does

---
 wlalink/write.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/wlalink/write.c b/wlalink/write.c
index 2758c4a..3edac34 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -3623,6 +3623,14 @@ int compute_stack(struct stack *sta, double *result_ram, double *result_rom, int
         t--;
         break;
       case SI_OP_ASIN:
+        if (v_ram[t - 1] < -1.0 || v_ram[t - 1] > 1.0) {
+          print_text(NO, "%s: %s:%d: COMPUTE_STACK: asin() needs a value that is [-1.0, 1.0], %f doesn't work!\n", get_file_name(sta->file_id), get_source_file_name(sta->file_id, sta->file_id_source), sta->linenumber, v_ram[t - 1]);
+          return FAILED;
+        }
+        if (v_rom[t - 1] < -1.0 || v_rom[t - 1] > 1.0) {
+          print_text(NO, "%s: %s:%d: COMPUTE_STACK: asin() needs a value that is [-1.0, 1.0], %f doesn't work!\n", get_file_name(sta->file_id), get_source_file_name(sta->file_id, sta->file_id_source), sta->linenumber, v_rom[t - 1]);
+          return FAILED;
+        }
         v_ram[t - 1] = asin(v_ram[t - 1]);
         v_rom[t - 1] = asin(v_rom[t - 1]);
         if (s->sign == SI_SIGN_NEGATIVE) {
@@ -3631,6 +3639,14 @@ int compute_stack(struct stack *sta, double *result_ram, double *result_rom, int
         }
         break;
       case SI_OP_ACOS:
+        if (v_ram[t - 1] < -1.0 || v_ram[t - 1] > 1.0) {
+          print_text(NO, "%s: %s:%d: COMPUTE_STACK: acos() needs a value that is [-1.0, 1.0], %f doesn't work!\n", get_file_name(sta->file_id), get_source_file_name(sta->file_id, sta->file_id_source), sta->linenumber, v_ram[t - 1]);
+          return FAILED;
+        }
+        if (v_rom[t - 1] < -1.0 || v_rom[t - 1] > 1.0) {
+          print_text(NO, "%s: %s:%d: COMPUTE_STACK: acos() needs a value that is [-1.0, 1.0], %f doesn't work!\n", get_file_name(sta->file_id), get_source_file_name(sta->file_id, sta->file_id_source), sta->linenumber, v_rom[t - 1]);
+          return FAILED;
+        }
         v_ram[t - 1] = acos(v_ram[t - 1]);
         v_rom[t - 1] = acos(v_rom[t - 1]);
         if (s->sign == SI_SIGN_NEGATIVE) {
-- 
2.43.0


From bcad382da92f22773ea26e7ea5d188b9194cfe6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:25 +0000
Subject: [PATCH 05/57] fix: an error found while resolving a calculation is a
 failure, not a calculation left for the linker

---
 parse.c   | 12 +++++++--
 phase_4.c | 42 +++++++++++++++++++++++++-----
 stack.c   | 76 ++++++++++++++++++++++++++++++++++---------------------
 stack.h   |  4 +++
 4 files changed, 96 insertions(+), 38 deletions(-)

diff --git a/parse.c b/parse.c
index cb3a2f1..f9ffe7b 100644
--- a/parse.c
+++ b/parse.c
@@ -2438,7 +2438,7 @@ static int _replace_labels_inside_stack_calculation(struct stack_item *stack_ite
 
 int parse_function(char *in, char *name, int *found_function, int *parsed_chars) {
 
-  int res, source_index_original = g_source_index, source_index_backup, i, j, input_float_mode, can_remember_converted_stack_items;
+  int res, source_index_original = g_source_index, source_index_backup, i, j, input_float_mode, can_remember_converted_stack_items, resolve_result = RESOLVE_STACK_UNRESOLVED;
   struct function *fun = g_functions_first;
   struct stack_item *si;
   char c1 = name[0];
@@ -2592,7 +2592,15 @@ int parse_function(char *in, char *name, int *found_function, int *parsed_chars)
   /* try to parse the stack calculation */
   can_remember_converted_stack_items = g_can_remember_converted_stack_items;
   g_can_remember_converted_stack_items = NO;
-  if (g_parsing_function_body == NO && resolve_stack(si, fun->stack->stacksize) == SUCCEEDED) {
+  if (g_parsing_function_body == NO)
+    resolve_result = resolve_stack(si, fun->stack->stacksize);
+
+  if (resolve_result == FAILED) {
+    g_can_remember_converted_stack_items = can_remember_converted_stack_items;
+    free(si);
+    return FAILED;
+  }
+  else if (resolve_result == SUCCEEDED) {
     struct stack s;
     double dou;
 
diff --git a/phase_4.c b/phase_4.c
index e57e6e3..faf4a35 100644
--- a/phase_4.c
+++ b/phase_4.c
@@ -98,14 +98,27 @@ static int _print_fscanf_error_accessing_internal_data_stream(int file_name_id,
 }
 
 
+static int _try_to_resolve_stack(struct stack *stack) {
+
+  if (stack->is_function_body == YES)
+    return RESOLVE_STACK_UNRESOLVED;
+
+  return resolve_stack(stack->stack_items, stack->stacksize);
+}
+
+
 static int _try_to_calculate_stack_calculation_define(struct definition *definition) {
 
   struct stack *stack = find_stack_calculation((int)definition->value, YES);
+  int resolve_result;
 
   if (stack == NULL)
     return FAILED;
   
-  if (stack->is_function_body == NO && resolve_stack(stack->stack_items, stack->stacksize) == SUCCEEDED) {
+  resolve_result = _try_to_resolve_stack(stack);
+  if (resolve_result == FAILED)
+    return FAILED;
+  else if (resolve_result == SUCCEEDED) {
     double r;
     
     if (compute_stack(stack, stack->stacksize, &r) == FAILED)
@@ -317,7 +330,7 @@ static void _bits_add_bit(int *bits_byte, int *bits_position, int *bits_to_defin
 
 int phase_4(void) {
 
-  int i, o, z, y, add_old = 0, x, q, inz, ind, bits_position = 0, bits_byte = 0, flip_endianess = NO, err;
+  int i, o, z, y, add_old = 0, x, q, inz, ind, bits_position = 0, bits_byte = 0, flip_endianess = NO, err, resolve_result;
   char *t, c, tmp_buffer[MAX_NAME_LENGTH + 1];
   struct stack *stack;
   struct definition *tmp_def;
@@ -1139,7 +1152,10 @@ int phase_4(void) {
       }
 
       /* try once again to calculate the stack calculation (works for contained .DEFINEs that came lexically after this calculation) */
-      if (stack->is_function_body == NO && resolve_stack(stack->stack_items, stack->stacksize) == SUCCEEDED) {
+      resolve_result = _try_to_resolve_stack(stack);
+      if (resolve_result == FAILED)
+        return FAILED;
+      else if (resolve_result == SUCCEEDED) {
         double r;
         
         if (compute_stack(stack, stack->stacksize, &r) == FAILED)
@@ -1217,7 +1233,10 @@ int phase_4(void) {
       }
         
       /* try once again to calculate the stack calculation (works for contained .DEFINEs that came lexically after this calculation) */
-      if (stack->is_function_body == NO && resolve_stack(stack->stack_items, stack->stacksize) == SUCCEEDED) {
+      resolve_result = _try_to_resolve_stack(stack);
+      if (resolve_result == FAILED)
+        return FAILED;
+      else if (resolve_result == SUCCEEDED) {
         double r;
         
         if (compute_stack(stack, stack->stacksize, &r) == FAILED)
@@ -1311,7 +1330,10 @@ int phase_4(void) {
       }
 
       /* try once again to calculate the stack calculation (works for contained .DEFINEs that came lexically after this calculation) */
-      if (stack->is_function_body == NO && resolve_stack(stack->stack_items, stack->stacksize) == SUCCEEDED) {
+      resolve_result = _try_to_resolve_stack(stack);
+      if (resolve_result == FAILED)
+        return FAILED;
+      else if (resolve_result == SUCCEEDED) {
         double r;
         
         if (compute_stack(stack, stack->stacksize, &r) == FAILED)
@@ -1391,7 +1413,10 @@ int phase_4(void) {
       }
 
       /* try once again to calculate the stack calculation (works for contained .DEFINEs that came lexically after this calculation) */
-      if (stack->is_function_body == NO && resolve_stack(stack->stack_items, stack->stacksize) == SUCCEEDED) {
+      resolve_result = _try_to_resolve_stack(stack);
+      if (resolve_result == FAILED)
+        return FAILED;
+      else if (resolve_result == SUCCEEDED) {
         double r;
         
         if (compute_stack(stack, stack->stacksize, &r) == FAILED)
@@ -1480,7 +1505,10 @@ int phase_4(void) {
       }
         
       /* try once again to calculate the stack calculation (works for contained .DEFINEs that came lexically after this calculation) */
-      if (stack->is_function_body == NO && resolve_stack(stack->stack_items, stack->stacksize) == SUCCEEDED) {
+      resolve_result = _try_to_resolve_stack(stack);
+      if (resolve_result == FAILED)
+        return FAILED;
+      else if (resolve_result == SUCCEEDED) {
         double r;
         
         if (compute_stack(stack, stack->stacksize, &r) == FAILED)
diff --git a/stack.c b/stack.c
index 206180c..e10eb32 100644
--- a/stack.c
+++ b/stack.c
@@ -1620,7 +1620,7 @@ static int _get_bank_base_slot(struct stack_item *si, int bank, int base, int sl
 
 static int _stack_calculate(char *in, int *value, int *bytes_parsed, unsigned char from_substitutor, struct stack_item *si, struct stack_item *ta) {
 
-  int q = 0, b = 0, d, k, n, curly_braces = 0, got_label = NO, got_get_label = NO, can_skip_newline = NO;
+  int q = 0, b = 0, d, k, n, curly_braces = 0, got_label = NO, got_get_label = NO, can_skip_newline = NO, resolve_result = RESOLVE_STACK_UNRESOLVED;
   unsigned char e, op[MAX_STACK_CALCULATOR_ITEMS], sign[MAX_STACK_CALCULATOR_ITEMS];
   double dou = 0.0, dom;
   char *in_original = in;
@@ -3191,7 +3191,16 @@ static int _stack_calculate(char *in, int *value, int *bytes_parsed, unsigned ch
 #endif
     
   /* are all the symbols known? */
-  if ((g_resolve_stack_calculations == YES || from_substitutor == YES) && resolve_stack(ta, d) == SUCCEEDED) {
+  if (g_resolve_stack_calculations == YES || from_substitutor == YES)
+    resolve_result = resolve_stack(ta, d);
+
+  if (resolve_result == FAILED) {
+    /* return converted stack items to their original values */
+    _return_converted_stack_items();
+
+    return FAILED;
+  }
+  else if (resolve_result == SUCCEEDED) {
     struct stack s;
     
     /* sanity check */
@@ -3660,7 +3669,7 @@ static int _process_string(struct stack_item *s, int *cannot_resolve) {
     for (a = 0, b = 0; s->string[a + 1] != 0 && a < 10; a++) {
       c = s->string[a + 1];
       if (c < '0' || c > '9')
-        return FAILED;
+        return RESOLVE_STACK_UNRESOLVED;
       b = (b * 10) + (c - '0');
     }
 
@@ -3743,7 +3752,7 @@ static int _process_string(struct stack_item *s, int *cannot_resolve) {
         }
           
         if (!(k == SUCCEEDED || k == INPUT_NUMBER_ADDRESS_LABEL || k == INPUT_NUMBER_STACK || k == INPUT_NUMBER_FLOAT))
-          return FAILED;
+          return RESOLVE_STACK_UNRESOLVED;
           
         if (k == SUCCEEDED) {
           s->type = STACK_ITEM_TYPE_VALUE;
@@ -3787,6 +3796,7 @@ static int _process_string(struct stack_item *s, int *cannot_resolve) {
 static int _try_to_calculate(struct stack_item *st) {
 
   struct stack *s;
+  int result;
 
   s = find_stack_calculation((int)st->value, YES);
   if (s == NULL)
@@ -3802,7 +3812,8 @@ static int _try_to_calculate(struct stack_item *st) {
     return SUCCEEDED;
   }
 
-  if (resolve_stack(s->stack_items, s->stacksize) == SUCCEEDED) {
+  result = resolve_stack(s->stack_items, s->stacksize);
+  if (result == SUCCEEDED) {
     double dou;
 
     if (compute_stack(s, s->stacksize, &dou) == FAILED)
@@ -3825,13 +3836,13 @@ static int _try_to_calculate(struct stack_item *st) {
     return SUCCEEDED;
   }
 
-  return FAILED;
+  return result;
 }
 
 
 int resolve_stack(struct stack_item s[], int stack_item_count) {
 
-  int backup = stack_item_count, cannot_resolve = 0, is_condition = NO, enable_label_address_conversion = g_dsp_enable_label_address_conversion;
+  int backup = stack_item_count, result, cannot_resolve = 0, is_condition = NO, enable_label_address_conversion = g_dsp_enable_label_address_conversion;
   struct stack_item *st;
 
   /* exits for bank and bankbyte */
@@ -3863,9 +3874,10 @@ int resolve_stack(struct stack_item s[], int stack_item_count) {
         if (st->type == STACK_ITEM_TYPE_LABEL) {
           int cannot;
 
-          if (_process_string(st, &cannot) == FAILED) {
+          result = _process_string(st, &cannot);
+          if (result != SUCCEEDED) {
             g_dsp_enable_label_address_conversion = enable_label_address_conversion;
-            return FAILED;
+            return result;
           }
         }
         
@@ -3875,9 +3887,10 @@ int resolve_stack(struct stack_item s[], int stack_item_count) {
         if (st->type == STACK_ITEM_TYPE_LABEL) {
           int cannot;
 
-          if (_process_string(st, &cannot) == FAILED) {
+          result = _process_string(st, &cannot);
+          if (result != SUCCEEDED) {
             g_dsp_enable_label_address_conversion = enable_label_address_conversion;
-            return FAILED;
+            return result;
           }
         }
 
@@ -3894,9 +3907,10 @@ int resolve_stack(struct stack_item s[], int stack_item_count) {
 
     if (process_single == YES) {
       if (st->type == STACK_ITEM_TYPE_LABEL) {
-        if (_process_string(st, &cannot_resolve) == FAILED) {
+        result = _process_string(st, &cannot_resolve);
+        if (result != SUCCEEDED) {
           g_dsp_enable_label_address_conversion = enable_label_address_conversion;
-          return FAILED;
+          return result;
         }
       }
       st++;
@@ -3906,7 +3920,7 @@ int resolve_stack(struct stack_item s[], int stack_item_count) {
 
   if (cannot_resolve != 0) {
     g_dsp_enable_label_address_conversion = enable_label_address_conversion;
-    return FAILED;
+    return RESOLVE_STACK_UNRESOLVED;
   }
 
   /* find a stack that cannot be calculated and turned into a value here, or bank and fail */
@@ -3926,9 +3940,10 @@ int resolve_stack(struct stack_item s[], int stack_item_count) {
         stack_item_count += 2;
 
         if (st->type == STACK_ITEM_TYPE_STACK) {
-          if (_try_to_calculate(st) == FAILED) {
+          result = _try_to_calculate(st);
+          if (result != SUCCEEDED) {
             g_dsp_enable_label_address_conversion = enable_label_address_conversion;
-            return FAILED;
+            return result;
           }
         }
 
@@ -3936,9 +3951,10 @@ int resolve_stack(struct stack_item s[], int stack_item_count) {
         stack_item_count--;
 
         if (st->type == STACK_ITEM_TYPE_STACK) {
-          if (_try_to_calculate(st) == FAILED) {
+          result = _try_to_calculate(st);
+          if (result != SUCCEEDED) {
             g_dsp_enable_label_address_conversion = enable_label_address_conversion;
-            return FAILED;
+            return result;
           }
         }
         
@@ -3955,14 +3971,15 @@ int resolve_stack(struct stack_item s[], int stack_item_count) {
 
     if (process_single == YES) {
       if (st->type == STACK_ITEM_TYPE_STACK) {
-        if (_try_to_calculate(st) == FAILED) {
+        result = _try_to_calculate(st);
+        if (result != SUCCEEDED) {
           g_dsp_enable_label_address_conversion = enable_label_address_conversion;
-          return FAILED;
+          return result;
         }
       }
       if (st->type == STACK_ITEM_TYPE_LABEL || (st->type == STACK_ITEM_TYPE_OPERATOR && st->value == SI_OP_BANK)) {
         g_dsp_enable_label_address_conversion = enable_label_address_conversion;
-        return FAILED;
+        return RESOLVE_STACK_UNRESOLVED;
       }
       stack_item_count--;
       st++;
@@ -3979,28 +3996,29 @@ int resolve_stack(struct stack_item s[], int stack_item_count) {
   while (stack_item_count > 0) {
     if (st->type == STACK_ITEM_TYPE_STACK) {
       g_dsp_enable_label_address_conversion = enable_label_address_conversion;
-      return FAILED;
+      return RESOLVE_STACK_UNRESOLVED;
     }
     else if (st->type == STACK_ITEM_TYPE_LABEL) {
-      if (_process_string(st, &cannot_resolve) == SUCCEEDED) {
+      result = _process_string(st, &cannot_resolve);
+      if (result == SUCCEEDED) {
         if (cannot_resolve == 1) {
           g_dsp_enable_label_address_conversion = enable_label_address_conversion;
-          return FAILED;
+          return RESOLVE_STACK_UNRESOLVED;
         }
       }
       else {
         g_dsp_enable_label_address_conversion = enable_label_address_conversion;
-        return FAILED;
+        return result;
       }
       if (g_macro_active != 0) {
         if (is_macro_arg_type_label(st->string) == NO) {
           g_dsp_enable_label_address_conversion = enable_label_address_conversion;
-          return FAILED;
+          return RESOLVE_STACK_UNRESOLVED;
         }
       }
       else {
         g_dsp_enable_label_address_conversion = enable_label_address_conversion;
-        return FAILED;
+        return RESOLVE_STACK_UNRESOLVED;
       }
     }
     stack_item_count--;
@@ -4022,9 +4040,9 @@ int resolve_stack(struct stack_item s[], int stack_item_count) {
   stack_item_count = backup;
   while (stack_item_count > 0) {
     if (st->type == STACK_ITEM_TYPE_OPERATOR && st->value == SI_OP_NOT)
-        return FAILED;
+        return RESOLVE_STACK_UNRESOLVED;
     if (st->type == STACK_ITEM_TYPE_STRING)
-      return FAILED;
+      return RESOLVE_STACK_UNRESOLVED;
     stack_item_count--;
     st++;
   }
diff --git a/stack.h b/stack.h
index 4c41c2f..d378ab1 100644
--- a/stack.h
+++ b/stack.h
@@ -2,6 +2,10 @@
 #ifndef _STACK_H
 #define _STACK_H
 
+/* what resolve_stack() returns, in addition to SUCCEEDED and FAILED (an error was printed), when the calculation
+   has something that cannot be resolved yet, but e.g. WLALINK can possibly do it later */
+#define RESOLVE_STACK_UNRESOLVED 2
+
 int get_label_length(char *l);
 int stack_calculate_free_allocations(void);
 int stack_calculate(char *in, int *value, int *bytes_parsed, unsigned char from_substitutor);
-- 
2.43.0


From e4bf760bdb7b8f3682c999c24f75f8a58aca5652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:38 +0000
Subject: [PATCH 06/57] fix: a failing (re)definition, or a failing nested
 .DSTRUCT, fails the assembly instead of only printing an error

---
 phase_1.c | 128 ++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 85 insertions(+), 43 deletions(-)

diff --git a/phase_1.c b/phase_1.c
index d3af448..9ee42cd 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -426,8 +426,10 @@ static int _macro_start(struct macro_static *m, struct macro_runtime *mrt, int c
   mrt->child_label_level = g_current_child_label_level;
 
   if ((g_extra_definitions == ON) && (g_active_file_info_last->filename_id != m->filename_id)) {
-    redefine("WLA_FILENAME", 0.0, get_file_name(m->filename_id), DEFINITION_TYPE_STRING, (int)strlen(get_file_name(m->filename_id)));
-    redefine("wla_filename", 0.0, get_file_name(m->filename_id), DEFINITION_TYPE_STRING, (int)strlen(get_file_name(m->filename_id)));
+    if (redefine("WLA_FILENAME", 0.0, get_file_name(m->filename_id), DEFINITION_TYPE_STRING, (int)strlen(get_file_name(m->filename_id))) == FAILED)
+      return FAILED;
+    if (redefine("wla_filename", 0.0, get_file_name(m->filename_id), DEFINITION_TYPE_STRING, (int)strlen(get_file_name(m->filename_id))) == FAILED)
+      return FAILED;
   }
 
   fprintf(g_file_out_ptr, "k%d ", m->start_line);
@@ -1301,16 +1303,26 @@ int phase_1(void) {
             hashmap_remove(g_defines_map, argument_name);
           }
 
-          if (q == INPUT_NUMBER_ADDRESS_LABEL)
-            redefine(argument_name, 0.0, g_label, DEFINITION_TYPE_ADDRESS_LABEL, (int)strlen(g_label));
-          else if (q == INPUT_NUMBER_STRING)
-            redefine(argument_name, 0.0, g_label, DEFINITION_TYPE_STRING, (int)strlen(g_label));
-          else if (q == INPUT_NUMBER_STACK)
-            redefine(argument_name, (double)g_latest_stack, NULL, DEFINITION_TYPE_STACK, 0);
-          else if (q == SUCCEEDED)
-            redefine(argument_name, g_parsed_double, NULL, DEFINITION_TYPE_VALUE, 0);
-          else if (q == INPUT_NUMBER_FLOAT)
-            redefine(argument_name, g_parsed_double, NULL, DEFINITION_TYPE_VALUE, 0);
+          if (q == INPUT_NUMBER_ADDRESS_LABEL) {
+            if (redefine(argument_name, 0.0, g_label, DEFINITION_TYPE_ADDRESS_LABEL, (int)strlen(g_label)) == FAILED)
+              return FAILED;
+          }
+          else if (q == INPUT_NUMBER_STRING) {
+            if (redefine(argument_name, 0.0, g_label, DEFINITION_TYPE_STRING, (int)strlen(g_label)) == FAILED)
+              return FAILED;
+          }
+          else if (q == INPUT_NUMBER_STACK) {
+            if (redefine(argument_name, (double)g_latest_stack, NULL, DEFINITION_TYPE_STACK, 0) == FAILED)
+              return FAILED;
+          }
+          else if (q == SUCCEEDED) {
+            if (redefine(argument_name, g_parsed_double, NULL, DEFINITION_TYPE_VALUE, 0) == FAILED)
+              return FAILED;
+          }
+          else if (q == INPUT_NUMBER_FLOAT) {
+            if (redefine(argument_name, g_parsed_double, NULL, DEFINITION_TYPE_VALUE, 0) == FAILED)
+              return FAILED;
+          }
         }
       }
 
@@ -3919,7 +3931,8 @@ int parse_dstruct_entry(char *iname, struct structure *s, int *labels_only, int
           else
             strcpy(tmpname, iname);
 
-          parse_dstruct_entry(tmpname, us, labels_only, generate_labels);
+          if (parse_dstruct_entry(tmpname, us, labels_only, generate_labels) == FAILED)
+            return FAILED;
 
           /* rewind */
           fprintf(g_file_out_ptr, "o%d 0 ", -us->size);
@@ -3947,7 +3960,8 @@ int parse_dstruct_entry(char *iname, struct structure *s, int *labels_only, int
         snprintf(tmpname, sizeof(tmpname), "%s.%s", iname, it->name);
       
         /* we have "struct.instance" and "struct.1.instance" referencing the same data. */
-        parse_dstruct_entry(tmpname, it->instance, &labels_only_tmp, generate_labels);
+        if (parse_dstruct_entry(tmpname, it->instance, &labels_only_tmp, generate_labels) == FAILED)
+          return FAILED;
 
         /* return to start of struct */
         fprintf(g_file_out_ptr, "o%d 0 ", -it->instance->size);
@@ -6430,14 +6444,22 @@ int directive_shift(void) {
   /* redo the definitions if any */
   for (q = 0; q < o; q++) {
     ma = rt->argument_data[q];
-    if (ma->type == SUCCEEDED)
-      redefine(st->argument_names[q], ma->value, NULL, DEFINITION_TYPE_VALUE, 0);
-    else if (ma->type == INPUT_NUMBER_STACK)
-      redefine(st->argument_names[q], ma->value, NULL, DEFINITION_TYPE_STACK, 0);
-    else if (ma->type == INPUT_NUMBER_ADDRESS_LABEL)
-      redefine(st->argument_names[q], 0.0, ma->string, DEFINITION_TYPE_ADDRESS_LABEL, (int)strlen(ma->string));
-    else if (ma->type == INPUT_NUMBER_STRING)
-      redefine(st->argument_names[q], 0.0, ma->string, DEFINITION_TYPE_STRING, (int)strlen(ma->string));
+    if (ma->type == SUCCEEDED) {
+      if (redefine(st->argument_names[q], ma->value, NULL, DEFINITION_TYPE_VALUE, 0) == FAILED)
+        return FAILED;
+    }
+    else if (ma->type == INPUT_NUMBER_STACK) {
+      if (redefine(st->argument_names[q], ma->value, NULL, DEFINITION_TYPE_STACK, 0) == FAILED)
+        return FAILED;
+    }
+    else if (ma->type == INPUT_NUMBER_ADDRESS_LABEL) {
+      if (redefine(st->argument_names[q], 0.0, ma->string, DEFINITION_TYPE_ADDRESS_LABEL, (int)strlen(ma->string)) == FAILED)
+        return FAILED;
+    }
+    else if (ma->type == INPUT_NUMBER_STRING) {
+      if (redefine(st->argument_names[q], 0.0, ma->string, DEFINITION_TYPE_STRING, (int)strlen(ma->string)) == FAILED)
+        return FAILED;
+    }
   }
 
   /* redefine NARGS */
@@ -7720,7 +7742,8 @@ int directive_arrayout(void) {
   if (get_next_plain_string() == FAILED)
     return FAILED;
 
-  redefine(g_label, (double)arr->data[index], NULL, DEFINITION_TYPE_VALUE, 0);
+  if (redefine(g_label, (double)arr->data[index], NULL, DEFINITION_TYPE_VALUE, 0) == FAILED)
+    return FAILED;
 
   return SUCCEEDED;
 }
@@ -8353,7 +8376,8 @@ int directive_input(void) {
         break;
     }
     if (k[j] == 0) {
-      redefine(g_tmp, (double)v, NULL, DEFINITION_TYPE_VALUE, 0);
+      if (redefine(g_tmp, (double)v, NULL, DEFINITION_TYPE_VALUE, 0) == FAILED)
+        return FAILED;
       return SUCCEEDED;
     }
   }
@@ -8373,7 +8397,8 @@ int directive_input(void) {
         break;
     }
     if (k[j] == 0) {
-      redefine(g_tmp, (double)v, NULL, DEFINITION_TYPE_VALUE, 0);
+      if (redefine(g_tmp, (double)v, NULL, DEFINITION_TYPE_VALUE, 0) == FAILED)
+        return FAILED;
       return SUCCEEDED;
     }
   }
@@ -8388,13 +8413,15 @@ int directive_input(void) {
         break;
     }
     if (k[j] == 0) {
-      redefine(g_tmp, (double)v, NULL, DEFINITION_TYPE_VALUE, 0);
+      if (redefine(g_tmp, (double)v, NULL, DEFINITION_TYPE_VALUE, 0) == FAILED)
+        return FAILED;
       return SUCCEEDED;
     }
   }
 
   /* it's a string */
-  redefine(g_tmp, 0.0, k, DEFINITION_TYPE_STRING, (int)strlen(k));
+  if (redefine(g_tmp, 0.0, k, DEFINITION_TYPE_STRING, (int)strlen(k)) == FAILED)
+    return FAILED;
 
   return SUCCEEDED;
 }
@@ -8438,14 +8465,22 @@ int directive_redefine_redef(void) {
     return FAILED;
   }
 
-  if (q == SUCCEEDED)
-    redefine(label, (double)j, NULL, DEFINITION_TYPE_VALUE, 0);
-  else if (q == INPUT_NUMBER_FLOAT)
-    redefine(label, dou, NULL, DEFINITION_TYPE_VALUE, 0);
-  else if (q == INPUT_NUMBER_STRING)
-    redefine(label, 0.0, k, DEFINITION_TYPE_STRING, size);
-  else if (q == INPUT_NUMBER_STACK)
-    redefine(label, (double)j, NULL, DEFINITION_TYPE_STACK, 0);
+  if (q == SUCCEEDED) {
+    if (redefine(label, (double)j, NULL, DEFINITION_TYPE_VALUE, 0) == FAILED)
+      return FAILED;
+  }
+  else if (q == INPUT_NUMBER_FLOAT) {
+    if (redefine(label, dou, NULL, DEFINITION_TYPE_VALUE, 0) == FAILED)
+      return FAILED;
+  }
+  else if (q == INPUT_NUMBER_STRING) {
+    if (redefine(label, 0.0, k, DEFINITION_TYPE_STRING, size) == FAILED)
+      return FAILED;
+  }
+  else if (q == INPUT_NUMBER_STACK) {
+    if (redefine(label, (double)j, NULL, DEFINITION_TYPE_STACK, 0) == FAILED)
+      return FAILED;
+  }
 
   if (export == YES) {
     if (export_a_definition(label) == FAILED)
@@ -9458,8 +9493,10 @@ int directive_endm(void) {
       g_newline_beginning = ON;
 
     if ((g_extra_definitions == ON) && (g_active_file_info_last->filename_id != g_macro_stack[g_macro_active].macro_return_filename_id)) {
-      redefine("WLA_FILENAME", 0.0, get_file_name(g_macro_stack[g_macro_active].macro_return_filename_id), DEFINITION_TYPE_STRING, (int)strlen(get_file_name(g_macro_stack[g_macro_active].macro_return_filename_id)));
-      redefine("wla_filename", 0.0, get_file_name(g_macro_stack[g_macro_active].macro_return_filename_id), DEFINITION_TYPE_STRING, (int)strlen(get_file_name(g_macro_stack[g_macro_active].macro_return_filename_id)));
+      if (redefine("WLA_FILENAME", 0.0, get_file_name(g_macro_stack[g_macro_active].macro_return_filename_id), DEFINITION_TYPE_STRING, (int)strlen(get_file_name(g_macro_stack[g_macro_active].macro_return_filename_id))) == FAILED)
+        return FAILED;
+      if (redefine("wla_filename", 0.0, get_file_name(g_macro_stack[g_macro_active].macro_return_filename_id), DEFINITION_TYPE_STRING, (int)strlen(get_file_name(g_macro_stack[g_macro_active].macro_return_filename_id))) == FAILED)
+        return FAILED;
     }
 
     g_active_file_info_last->filename_id = g_macro_stack[g_macro_active].macro_return_filename_id;
@@ -11384,8 +11421,10 @@ int parse_directive(void) {
           return FAILED;
         }
 
-        redefine("WLA_FILENAME", 0.0, g_file_name_info_tmp->name, DEFINITION_TYPE_STRING, (int)strlen(g_file_name_info_tmp->name));
-        redefine("wla_filename", 0.0, g_file_name_info_tmp->name, DEFINITION_TYPE_STRING, (int)strlen(g_file_name_info_tmp->name));
+        if (redefine("WLA_FILENAME", 0.0, g_file_name_info_tmp->name, DEFINITION_TYPE_STRING, (int)strlen(g_file_name_info_tmp->name)) == FAILED)
+          return FAILED;
+        if (redefine("wla_filename", 0.0, g_file_name_info_tmp->name, DEFINITION_TYPE_STRING, (int)strlen(g_file_name_info_tmp->name)) == FAILED)
+          return FAILED;
       }
 
       /* output the file id */
@@ -11580,8 +11619,10 @@ int parse_directive(void) {
           return EVALUATE_TOKEN_EOP;
 
         if (g_extra_definitions == ON) {
-          redefine("WLA_FILENAME", 0.0, get_file_name(g_active_file_info_last->filename_id), DEFINITION_TYPE_STRING, (int)strlen(get_file_name(g_active_file_info_last->filename_id)));
-          redefine("wla_filename", 0.0, get_file_name(g_active_file_info_last->filename_id), DEFINITION_TYPE_STRING, (int)strlen(get_file_name(g_active_file_info_last->filename_id)));
+          if (redefine("WLA_FILENAME", 0.0, get_file_name(g_active_file_info_last->filename_id), DEFINITION_TYPE_STRING, (int)strlen(get_file_name(g_active_file_info_last->filename_id))) == FAILED)
+            return FAILED;
+          if (redefine("wla_filename", 0.0, get_file_name(g_active_file_info_last->filename_id), DEFINITION_TYPE_STRING, (int)strlen(get_file_name(g_active_file_info_last->filename_id))) == FAILED)
+            return FAILED;
         }
 
         if (g_is_file_isolated_counter > 1)
@@ -13004,7 +13045,8 @@ int get_new_definition_data(int *b, char *c, int *size, double *data, int *expor
 
   if (x == INPUT_NUMBER_ADDRESS_LABEL) {
     /* address label -> stack */
-    stack_create_label_stack(g_label);
+    if (stack_create_label_stack(g_label) == FAILED)
+      return FAILED;
     x = INPUT_NUMBER_STACK;
   }
 
@@ -13026,7 +13068,7 @@ int get_new_definition_data(int *b, char *c, int *size, double *data, int *expor
     x = input_number();
     if (x != INPUT_NUMBER_EOL) {
       print_error(ERROR_DIR, "A computation cannot be output as a string.\n");
-      return SUCCEEDED;
+      return FAILED;
     }
     next_line();
     
-- 
2.43.0


From c548f29a75a93bd446866a9e6067f8de1e8516e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:38 +0000
Subject: [PATCH 07/57] fix: .INCBIN and .INCLUDE fail when their definitions
 or the preprocessing of the file fail

---
 include.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include.c b/include.c
index 7f03a88..ac1c256 100644
--- a/include.c
+++ b/include.c
@@ -287,7 +287,8 @@ int include_file(char *name, int *include_size, char *namespace, int is_full_pat
     memcpy(g_buffer, change_file_buffer, change_file_buffer_size);
     
     /* preprocess */
-    preprocess_file(g_include_in_tmp, g_include_in_tmp + file_size, &g_buffer[change_file_buffer_size], &g_source_file_size, g_full_name);
+    if (preprocess_file(g_include_in_tmp, g_include_in_tmp + file_size, &g_buffer[change_file_buffer_size], &g_source_file_size, g_full_name) == FAILED)
+      return FAILED;
     g_source_file_size += change_file_buffer_size;
 
     g_buffer[g_source_file_size++] = 0xA;
@@ -329,7 +330,8 @@ int include_file(char *name, int *include_size, char *namespace, int is_full_pat
       
   /* preprocess */
   size = 0;
-  preprocess_file(g_include_in_tmp, g_include_in_tmp + file_size, &g_tmp_a[change_file_buffer_size], &size, g_full_name);
+  if (preprocess_file(g_include_in_tmp, g_include_in_tmp + file_size, &g_tmp_a[change_file_buffer_size], &size, g_full_name) == FAILED)
+    return FAILED;
   size += change_file_buffer_size;
 
   g_tmp_a[size++] = 0xA;
@@ -560,8 +562,10 @@ int incbin_file(char *name, int *id, int *swap, int *skip, int *read, struct mac
     print_error(ERROR_INB, "SKIP value (%d) is more than the size (%d) of file \"%s\".\n", *skip, file_size, g_full_name);
     return FAILED;
   }
-  if (fsize_label[0] != 0)
-    add_a_new_definition(fsize_label, (double)file_size, NULL, DEFINITION_TYPE_VALUE, 0);
+  if (fsize_label[0] != 0) {
+    if (add_a_new_definition(fsize_label, (double)file_size, NULL, DEFINITION_TYPE_VALUE, 0) == FAILED)
+      return FAILED;
+  }
   
   if (g_makefile_skip_file_handling == YES) {
     /* if in test mode, fake the data to be enough to read */
@@ -607,8 +611,10 @@ int incbin_file(char *name, int *id, int *swap, int *skip, int *read, struct mac
     return FAILED;
   }
 
-  if (freadsize_label[0] != 0)
-    add_a_new_definition(freadsize_label, (double)*read, NULL, DEFINITION_TYPE_VALUE, 0);
+  if (freadsize_label[0] != 0) {
+    if (add_a_new_definition(freadsize_label, (double)*read, NULL, DEFINITION_TYPE_VALUE, 0) == FAILED)
+      return FAILED;
+  }
   
   return SUCCEEDED;
 }
-- 
2.43.0


From e6db11a71a580cc034a245790dac927f1d7ed9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:38 +0000
Subject: [PATCH 08/57] fix: failing ROM header and list file data writes fail
 the assembly

---
 phase_2.c | 151 ++++++++++++++++++++++++++++++++++++------------------
 phase_4.c |  24 ++++++---
 2 files changed, 117 insertions(+), 58 deletions(-)

diff --git a/phase_2.c b/phase_2.c
index 57bba23..d33ebed 100644
--- a/phase_2.c
+++ b/phase_2.c
@@ -87,7 +87,7 @@ static char s_include_directives_name[] = "INCLUDE_DIRECTIVES:";
 
 #if defined(W65816)
 
-void _write_snes_cartridge_information(int start) {
+static int _write_snes_cartridge_information(int start) {
 
   int info_bits;
 
@@ -105,41 +105,60 @@ void _write_snes_cartridge_information(int start) {
   /* create a what-we-are-doing message for mem_insert*() warnings/errors */
   snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "Writing SNES ROM information");
 
-  mem_insert_absolute(start, info_bits);
+  if (mem_insert_absolute(start, info_bits) == FAILED)
+    return FAILED;
   
-  if (g_cartridgetype_defined != 0) 
-    mem_insert_absolute(start + 1, g_cartridgetype);
+  if (g_cartridgetype_defined != 0) {
+    if (mem_insert_absolute(start + 1, g_cartridgetype) == FAILED)
+      return FAILED;
+  }
 
-  if (g_snesromsize != 0) 
-    mem_insert_absolute(start + 2, g_snesromsize);
+  if (g_snesromsize != 0) {
+    if (mem_insert_absolute(start + 2, g_snesromsize) == FAILED)
+      return FAILED;
+  }
 
-  if (g_sramsize_defined != 0) 
-    mem_insert_absolute(start + 3, g_sramsize);
+  if (g_sramsize_defined != 0) {
+    if (mem_insert_absolute(start + 3, g_sramsize) == FAILED)
+      return FAILED;
+  }
 
-  if (g_country_defined != 0)
-    mem_insert_absolute(start + 4, g_country);
+  if (g_country_defined != 0) {
+    if (mem_insert_absolute(start + 4, g_country) == FAILED)
+      return FAILED;
+  }
 
-  if (g_licenseecode_defined != 0)
-    mem_insert_absolute(start + 5, g_licenseecode);
+  if (g_licenseecode_defined != 0) {
+    if (mem_insert_absolute(start + 5, g_licenseecode) == FAILED)
+      return FAILED;
+  }
 
-  if (g_version_defined != 0)
-    mem_insert_absolute(start + 6, g_version);
+  if (g_version_defined != 0) {
+    if (mem_insert_absolute(start + 6, g_version) == FAILED)
+      return FAILED;
+  }
   
   /* snes cartridge ID */
   if (g_snesid_defined != 0) {
     int i;
     
-    for (i = 0; i < 4; i++) 
-      mem_insert_absolute(start - (0xD5 - 0xB2) + i, g_snesid[i]);
+    for (i = 0; i < 4; i++) {
+      if (mem_insert_absolute(start - (0xD5 - 0xB2) + i, g_snesid[i]) == FAILED)
+        return FAILED;
+    }
   }
       
   /* snes cartridge name */
   if (g_name_defined != 0) {
     int i;
     
-    for (i = 0; i < 21; i++)
-      mem_insert_absolute(start - (0xD5 - 0xC0) + i, g_name[i]);
+    for (i = 0; i < 21; i++) {
+      if (mem_insert_absolute(start - (0xD5 - 0xC0) + i, g_name[i]) == FAILED)
+        return FAILED;
+    }
   }
+
+  return SUCCEEDED;
 }
 
 #endif
@@ -221,17 +240,25 @@ int phase_2(void) {
     /* create a what-we-are-doing message for mem_insert*() warnings/errors */
     snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "Writing SMS ROM header bytes");
 
-    mem_insert_absolute(tag_address + 0x8, g_smsreservedspace1);
-    mem_insert_absolute(tag_address + 0x9, g_smsreservedspace2);
-    mem_insert_absolute(tag_address + 0xC, g_smsproductcode1);
-    mem_insert_absolute(tag_address + 0xD, g_smsproductcode2);
-    mem_insert_absolute(tag_address + 0xE, (g_smsproductcode3 << 4) | g_smsversion);
-    mem_insert_absolute(tag_address + 0xF, (rc << 4) | rs);
+    if (mem_insert_absolute(tag_address + 0x8, g_smsreservedspace1) == FAILED)
+      return FAILED;
+    if (mem_insert_absolute(tag_address + 0x9, g_smsreservedspace2) == FAILED)
+      return FAILED;
+    if (mem_insert_absolute(tag_address + 0xC, g_smsproductcode1) == FAILED)
+      return FAILED;
+    if (mem_insert_absolute(tag_address + 0xD, g_smsproductcode2) == FAILED)
+      return FAILED;
+    if (mem_insert_absolute(tag_address + 0xE, (g_smsproductcode3 << 4) | g_smsversion) == FAILED)
+      return FAILED;
+    if (mem_insert_absolute(tag_address + 0xF, (rc << 4) | rs) == FAILED)
+      return FAILED;
 
     /* force checksum? */
     if (g_smsforcechecksum_defined != 0) {
-      mem_insert_absolute(tag_address + 0xA, g_smsforcechecksum & 0xff);
-      mem_insert_absolute(tag_address + 0xB, (g_smsforcechecksum >> 8) & 0xff);
+      if (mem_insert_absolute(tag_address + 0xA, g_smsforcechecksum & 0xff) == FAILED)
+        return FAILED;
+      if (mem_insert_absolute(tag_address + 0xB, (g_smsforcechecksum >> 8) & 0xff) == FAILED)
+        return FAILED;
     }
   }
 
@@ -455,15 +482,21 @@ int phase_2(void) {
   if (g_output_format != OUTPUT_LIBRARY) {
     /* snes cartridge information */
     if (g_snes_mode != 0) {
-      if (g_hirom_defined != 0)
-        _write_snes_cartridge_information(0xFFD5);
+      if (g_hirom_defined != 0) {
+        if (_write_snes_cartridge_information(0xFFD5) == FAILED)
+          return FAILED;
+      }
       else if (g_exhirom_defined != 0) {
-        _write_snes_cartridge_information(0x40FFD5);
+        if (_write_snes_cartridge_information(0x40FFD5) == FAILED)
+          return FAILED;
         /* mirror the info */
-        _write_snes_cartridge_information(0xFFD5);
+        if (_write_snes_cartridge_information(0xFFD5) == FAILED)
+          return FAILED;
+      }
+      else {
+        if (_write_snes_cartridge_information(0x7FD5) == FAILED)
+          return FAILED;
       }
-      else
-        _write_snes_cartridge_information(0x7FD5);
     }
   }
 #endif
@@ -479,7 +512,8 @@ int phase_2(void) {
       snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "Writing GB ROM Nintendo logo bytes");
 
       while (nl2 < sizeof(s_nintendo_logo_dat)) {
-        mem_insert_absolute(nl1, s_nintendo_logo_dat[nl2]);
+        if (mem_insert_absolute(nl1, s_nintendo_logo_dat[nl2]) == FAILED)
+          return FAILED;
         nl1++;
         nl2++;
       }
@@ -489,32 +523,37 @@ int phase_2(void) {
       /* create a what-we-are-doing message for mem_insert*() warnings/errors */
       snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "Writing GB ROM type: GB Color compatible");
 
-      mem_insert_absolute(323, 0x80);
+      if (mem_insert_absolute(323, 0x80) == FAILED)
+        return FAILED;
     }
     else if (g_romgbc == 2) {
       /* create a what-we-are-doing message for mem_insert*() warnings/errors */
       snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "Writing GB ROM type: GB Color only");
 
-      mem_insert_absolute(323, 0xc0);
+      if (mem_insert_absolute(323, 0xc0) == FAILED)
+        return FAILED;
     }
     if (g_romdmg != 0) {
       /* create a what-we-are-doing message for mem_insert*() warnings/errors */
       snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "Writing GB ROM type: GB original");
 
-      mem_insert_absolute(326, 0);
+      if (mem_insert_absolute(326, 0) == FAILED)
+        return FAILED;
     }
     if (g_romsgb != 0) {
       /* create a what-we-are-doing message for mem_insert*() warnings/errors */
       snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "Writing GB ROM type: Super GB");
 
-      mem_insert_absolute(326, 3);
+      if (mem_insert_absolute(326, 3) == FAILED)
+        return FAILED;
     }
     
     if (g_rambanks_defined != 0) {
       /* create a what-we-are-doing message for mem_insert*() warnings/errors */
       snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "Writing GB RAM size");
 
-      mem_insert_absolute(329, g_rambanks);
+      if (mem_insert_absolute(329, g_rambanks) == FAILED)
+        return FAILED;
     }
     if (g_rombanks_defined != 0 && g_romsize_defined != 0) {
       int romsize = g_romsize;
@@ -578,35 +617,44 @@ int phase_2(void) {
       /* create a what-we-are-doing message for mem_insert*() warnings/errors */
       snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "Writing GB ROM size");
 
-      mem_insert_absolute(328, romsize);
+      if (mem_insert_absolute(328, romsize) == FAILED)
+        return FAILED;
     }
     if (g_cartridgetype_defined != 0) {
       /* create a what-we-are-doing message for mem_insert*() warnings/errors */
       snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "Writing GB cartridge type");
 
-      mem_insert_absolute(327, g_cartridgetype);
+      if (mem_insert_absolute(327, g_cartridgetype) == FAILED)
+        return FAILED;
     }
     if (g_licenseecodeold_defined != 0) {
       /* create a what-we-are-doing message for mem_insert*() warnings/errors */
       snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "Writing GB ROM licensee code (old)");
 
-      mem_insert_absolute(331, g_licenseecodeold);
-      mem_insert_absolute(324, 0);
-      mem_insert_absolute(325, 0);
+      if (mem_insert_absolute(331, g_licenseecodeold) == FAILED)
+        return FAILED;
+      if (mem_insert_absolute(324, 0) == FAILED)
+        return FAILED;
+      if (mem_insert_absolute(325, 0) == FAILED)
+        return FAILED;
     }
     if (g_licenseecodenew_defined != 0) {
       /* create a what-we-are-doing message for mem_insert*() warnings/errors */
       snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "Writing GB ROM licensee code (new)");
 
-      mem_insert_absolute(331, 51);
-      mem_insert_absolute(324, g_licenseecodenew_c1);
-      mem_insert_absolute(325, g_licenseecodenew_c2);
+      if (mem_insert_absolute(331, 51) == FAILED)
+        return FAILED;
+      if (mem_insert_absolute(324, g_licenseecodenew_c1) == FAILED)
+        return FAILED;
+      if (mem_insert_absolute(325, g_licenseecodenew_c2) == FAILED)
+        return FAILED;
     }
     if (g_countrycode_defined != 0) {
       /* create a what-we-are-doing message for mem_insert*() warnings/errors */
       snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "Writing GB ROM country code");
 
-      mem_insert_absolute(330, g_countrycode);
+      if (mem_insert_absolute(330, g_countrycode) == FAILED)
+        return FAILED;
     }
     if (g_name_defined != 0) {
       int i, length;
@@ -619,14 +667,17 @@ int phase_2(void) {
       /* create a what-we-are-doing message for mem_insert*() warnings/errors */
       snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "Writing GB ROM name");
 
-      for (i = 0; i < length; i++)
-        mem_insert_absolute(308 + i, g_name[i]);
+      for (i = 0; i < length; i++) {
+        if (mem_insert_absolute(308 + i, g_name[i]) == FAILED)
+          return FAILED;
+      }
     }
     if (g_version_defined != 0) {
       /* create a what-we-are-doing message for mem_insert*() warnings/errors */
       snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "Writing GB ROM version");
 
-      mem_insert_absolute(332, g_version);
+      if (mem_insert_absolute(332, g_version) == FAILED)
+        return FAILED;
     }
   }
 #endif
diff --git a/phase_4.c b/phase_4.c
index faf4a35..6f1133b 100644
--- a/phase_4.c
+++ b/phase_4.c
@@ -2475,8 +2475,10 @@ int write_object_file(void) {
   }    
 
   /* global list file items */
-  if (g_listfile_data == YES)
-    listfile_globals_write(final_ptr);
+  if (g_listfile_data == YES) {
+    if (listfile_globals_write(final_ptr) == FAILED)
+      return FAILED;
+  }
   else {
     ov = 0;
     WRITEOUT_OV;
@@ -2584,8 +2586,10 @@ int write_object_file(void) {
       if (g_sec_tmp->size > 0)
         fwrite(g_sec_tmp->data, 1, g_sec_tmp->size, final_ptr);
 
-      if (g_listfile_data == YES && g_sec_tmp->listfile_items > 0)
-        listfile_block_write(final_ptr, g_sec_tmp);
+      if (g_listfile_data == YES && g_sec_tmp->listfile_items > 0) {
+        if (listfile_block_write(final_ptr, g_sec_tmp) == FAILED)
+          return FAILED;
+      }
       else
         fprintf(final_ptr, "%c", 0);
     }
@@ -2780,8 +2784,10 @@ int write_library_file(void) {
   }
     
   /* global list file items */
-  if (g_listfile_data == YES)
-    listfile_globals_write(final_ptr);
+  if (g_listfile_data == YES) {
+    if (listfile_globals_write(final_ptr) == FAILED)
+      return FAILED;
+  }
   else {
     ov = 0;
     WRITEOUT_OV;
@@ -2844,8 +2850,10 @@ int write_library_file(void) {
       if (g_sec_tmp->size > 0)
         fwrite(g_sec_tmp->data, 1, g_sec_tmp->size, final_ptr);
 
-      if (g_listfile_data == YES && g_sec_tmp->listfile_items > 0)
-        listfile_block_write(final_ptr, g_sec_tmp);
+      if (g_listfile_data == YES && g_sec_tmp->listfile_items > 0) {
+        if (listfile_block_write(final_ptr, g_sec_tmp) == FAILED)
+          return FAILED;
+      }
       else
         fprintf(final_ptr, "%c", 0);
     }
-- 
2.43.0


From 7b9bf7f05da215b5ac12c210c3a765dc048badbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:49 +0000
Subject: [PATCH 09/57] fix: check the results of the internal calculation,
 namespace, flag and extra definition helpers; wrong command line arguments
 and short reads exit with an error

---
 main.c         | 16 +++++++++++-----
 parse.c        | 15 ++++++++++-----
 phase_1.c      | 12 ++++++++----
 stack.c        | 15 ++++++++++-----
 wlab/main.c    |  2 +-
 wlalink/main.c |  4 +++-
 6 files changed, 43 insertions(+), 21 deletions(-)

diff --git a/main.c b/main.c
index bee47ab..b515de6 100644
--- a/main.c
+++ b/main.c
@@ -466,7 +466,8 @@ static int _parse_flags(char **flags, int flagc, int *print_usage) {
     else if (!strcmp(flags[count], "-I")) {
       if (count + 1 < flagc) {
         /* get arg */
-        _parse_and_add_incdir(flags[count+1], NO);
+        if (_parse_and_add_incdir(flags[count+1], NO) == FAILED)
+          return FAILED;
       }
       else
         return FAILED;
@@ -554,7 +555,8 @@ static int _parse_flags(char **flags, int flagc, int *print_usage) {
         }
         else if (strncmp(flags[count], "-I", 2) == 0) {
           /* old include directory */
-          _parse_and_add_incdir(flags[count], YES);
+          if (_parse_and_add_incdir(flags[count], YES) == FAILED)
+            return FAILED;
         }
         else
           return FAILED;
@@ -1151,7 +1153,9 @@ int main(int argc, char *argv[]) {
     print_text(YES, "EXAMPLES:\n");
     print_text(YES, "%s -M -t -o main.o main.asm\n", argv[0]);
     print_text(YES, "%s -D VER=1 -D TWO=2 -v -o main.o main.asm\n", argv[0]);
-    return 0;
+
+    /* print the usage when asked for it (no arguments), otherwise the arguments were wrong */
+    return argc >= 2;
   }
 
   if (strcmp(g_asm_name, g_final_name) == 0) {
@@ -1163,8 +1167,10 @@ int main(int argc, char *argv[]) {
     return 1;
 
   /* small inits */
-  if (g_extra_definitions == ON)
-    _generate_extra_definitions();
+  if (g_extra_definitions == ON) {
+    if (_generate_extra_definitions() == FAILED)
+      return 1;
+  }
 
   g_commandline_parsing = OFF;
 
diff --git a/parse.c b/parse.c
index f9ffe7b..a06d2c1 100644
--- a/parse.c
+++ b/parse.c
@@ -328,7 +328,8 @@ int add_namespace_to_a_label(char *label, int sizeof_label, int add_outside_macr
   }
   else if (add_outside_macros == YES) {
     strcpy(namespace_tmp, label_tmp);
-    add_namespace_to_string(namespace_tmp, sizeof(namespace_tmp), "add_namespace_to_a_label()");
+    if (add_namespace_to_string(namespace_tmp, sizeof(namespace_tmp), "add_namespace_to_a_label()") == FAILED)
+      return FAILED;
   }
 
   if (namespace_tmp[0] == 0)
@@ -456,7 +457,8 @@ static int _input_number_return_definition(struct definition *def) {
     /* wrap the referenced, existing stack calculation inside a new stack calculation as stack
        calculation contains a write. the 2nd, 3rd etc. reference don't do anything by themselves.
        but wrapping creates a new stack calculation that also makes a write */
-    stack_create_stack_stack((int)def->value);
+    if (stack_create_stack_stack((int)def->value) == FAILED)
+      return FAILED;
     return INPUT_NUMBER_STACK;
   }
   else if (def->type == DEFINITION_TYPE_ADDRESS_LABEL) {
@@ -2304,7 +2306,8 @@ static int _save_stack_calculation(struct stack_item *stack_items, int stacksize
      those that are referenced to be STACK_POSITION_CODE stacks */
   s->position = STACK_POSITION_DEFINITION;
 
-  calculation_stack_insert(s);
+  if (calculation_stack_insert(s) == FAILED)
+    return FAILED;
 
   s->is_single_instance = YES;
   
@@ -2358,7 +2361,8 @@ static int _reset_has_been_replaced_status(struct stack_item *stack_items, int s
       if (s == NULL)
         return FAILED;
       
-      _reset_has_been_replaced_status(s->stack_items, s->stacksize);
+      if (_reset_has_been_replaced_status(s->stack_items, s->stacksize) == FAILED)
+        return FAILED;
     }
   }
 
@@ -2625,7 +2629,8 @@ int parse_function(char *in, char *name, int *found_function, int *parsed_chars)
   g_can_remember_converted_stack_items = can_remember_converted_stack_items;
   
   /* save the stack calculation */
-  _save_stack_calculation(si, fun->stack->stacksize, -1, -1);
+  if (_save_stack_calculation(si, fun->stack->stacksize, -1, -1) == FAILED)
+    return FAILED;
 
   return INPUT_NUMBER_STACK;
 }
diff --git a/phase_1.c b/phase_1.c
index 9ee42cd..6784a95 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -3705,7 +3705,8 @@ int directive_dsl(void) {
       if (q == 0)
         fprintf(g_file_out_ptr, "T%d ", latest_stack);
       else {
-        stack_create_stack_stack(latest_stack);
+        if (stack_create_stack_stack(latest_stack) == FAILED)
+          return FAILED;
         fprintf(g_file_out_ptr, "T%d ", g_latest_stack);
       }
     }
@@ -3803,7 +3804,8 @@ int directive_dsd(void) {
       if (q == 0)
         fprintf(g_file_out_ptr, "U%d ", latest_stack);
       else {
-        stack_create_stack_stack(latest_stack);
+        if (stack_create_stack_stack(latest_stack) == FAILED)
+          return FAILED;
         fprintf(g_file_out_ptr, "U%d ", g_latest_stack);
       }
     }
@@ -4501,7 +4503,8 @@ int directive_dsb_ds(void) {
       if (q == 0)
         fprintf(g_file_out_ptr, "c%d ", latest_stack);
       else {
-        stack_create_stack_stack(latest_stack);
+        if (stack_create_stack_stack(latest_stack) == FAILED)
+          return FAILED;
         fprintf(g_file_out_ptr, "c%d ", g_latest_stack);
       }
     }
@@ -4556,7 +4559,8 @@ int directive_dsw(void) {
       if (q == 0)
         fprintf(g_file_out_ptr, "C%d ", latest_stack);
       else {
-        stack_create_stack_stack(latest_stack);
+        if (stack_create_stack_stack(latest_stack) == FAILED)
+          return FAILED;
         fprintf(g_file_out_ptr, "C%d ", g_latest_stack);
       }
     }
diff --git a/stack.c b/stack.c
index e10eb32..5af6523 100644
--- a/stack.c
+++ b/stack.c
@@ -3328,7 +3328,8 @@ static int _stack_calculate(char *in, int *value, int *bytes_parsed, unsigned ch
   _debug_print_stack(stack->linenumber, g_last_stack_id, stack->stack_items, d, 0, stack);
 #endif
 
-  calculation_stack_insert(stack);
+  if (calculation_stack_insert(stack) == FAILED)
+    return FAILED;
 
 #if defined(WLA_DEBUG)
     print_text(NO, "RETURN STACK %d\n", g_latest_stack);
@@ -4619,7 +4620,8 @@ int stack_create_label_stack(char *label) {
   si->is_in_postfix = NO;
   strcpy(si->string, label);
 
-  calculation_stack_insert(stack);
+  if (calculation_stack_insert(stack) == FAILED)
+    return FAILED;
 
 #if defined(WLA_DEBUG)
   _debug_print_stack(stack->linenumber, g_last_stack_id, stack->stack_items, 1, 1, stack);
@@ -4658,7 +4660,8 @@ int stack_create_stack_stack(int stack_id) {
   _debug_print_stack(stack->linenumber, stack_id, stack->stack_items, 1, 2, stack);
 #endif
 
-  calculation_stack_insert(stack);
+  if (calculation_stack_insert(stack) == FAILED)
+    return FAILED;
     
   return SUCCEEDED;
 }
@@ -4733,7 +4736,8 @@ int stack_create_stack_caddr_offset(int type, int data, char *label) {
   if (_stack_create_stack_caddr_offset(type, data, label, stack) == FAILED)
     return FAILED;
 
-  calculation_stack_insert(stack);
+  if (calculation_stack_insert(stack) == FAILED)
+    return FAILED;
     
 #if WLA_DEBUG
   _debug_print_stack(stack->linenumber, g_latest_stack, stack->stack_items, 3, -1, stack);
@@ -4841,7 +4845,8 @@ int stack_create_stack_caddr_offset_plus_n(int type, int data, char *label, int
   si->has_been_replaced = NO;
   si->is_in_postfix = YES;
 
-  calculation_stack_insert(stack);
+  if (calculation_stack_insert(stack) == FAILED)
+    return FAILED;
     
 #if WLA_DEBUG
   _debug_print_stack(stack->linenumber, g_latest_stack, stack->stack_items, 5, -1, stack);
diff --git a/wlab/main.c b/wlab/main.c
index 16ce56d..96adf19 100644
--- a/wlab/main.c
+++ b/wlab/main.c
@@ -71,7 +71,7 @@ int main(int argc, char *argv[]) {
 
   if (fread(in, 1, file_size, fp) != (size_t) file_size) {
     fprintf(stderr, "Could not read all %d bytes of \"%s\"!", file_size, name);
-    return FAILED;
+    return 1;
   }
 
   fclose(fp);
diff --git a/wlalink/main.c b/wlalink/main.c
index 9c98013..f556705 100644
--- a/wlalink/main.c
+++ b/wlalink/main.c
@@ -1213,7 +1213,9 @@ int main(int argc, char *argv[]) {
     print_text(YES, "-v2 Verbose messages (-v1 plus short summary)\n");
     print_text(YES, "\n");
     print_text(YES, "EXAMPLE: %s -d -v -S linkfile linked.rom\n\n", argv[0]);
-    return 0;
+
+    /* print the usage when asked for it (no arguments), otherwise the arguments were wrong */
+    return argc >= 2;
   }
 
   /* initialize some variables */
-- 
2.43.0


From c08a28c7318a80474b949c3cf485d99edc149691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:00 +0000
Subject: [PATCH 10/57] fix: ROM writes in the linker are bounds checked, and
 failing ones and failing checksum computations fail the link

---
 wlalink/compute.c | 234 +++++++++++++++++++++++++++++++---------------
 wlalink/main.c    |   9 +-
 wlalink/memory.c  |  34 +++++--
 wlalink/write.c   | 147 +++++++++++++++++++----------
 4 files changed, 292 insertions(+), 132 deletions(-)

diff --git a/wlalink/compute.c b/wlalink/compute.c
index 5714d9e..3e69171 100644
--- a/wlalink/compute.c
+++ b/wlalink/compute.c
@@ -52,13 +52,20 @@ int reserve_checksum_bytes(void) {
       snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "%s", "Reserving SMS ROM checksum bytes");
 
       /* checksum */
-      mem_insert(tag_address + 0xA, 0x0);
-      mem_insert(tag_address + 0xB, 0x0);
+      if (mem_insert(tag_address + 0xA, 0x0) == FAILED)
+        return FAILED;
+      if (mem_insert(tag_address + 0xB, 0x0) == FAILED)
+        return FAILED;
 
       if (g_sms_checksum != 0) {
         /* create a what-we-are-doing message for mem_insert*() warnings/errors */
         snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "%s", "Reserving SMS ROM region code byte");
 
+        if (tag_address + 0xF >= g_romsize) {
+          print_text(NO, "RESERVE_CHECKSUM_BYTES: The SMS/GG header at $%x doesn't fit into the ROM ($%x bytes).\n", tag_address, g_romsize);
+          return FAILED;
+        }
+
         /* region code */
         if (g_rom_usage[tag_address + 0xF] == 0) {
           int rs;
@@ -71,10 +78,13 @@ int reserve_checksum_bytes(void) {
           else
             rs = 0xC; /* 32KB+ */
           
-          mem_insert(tag_address + 0xF, 4 << 4 | rs);
+          if (mem_insert(tag_address + 0xF, 4 << 4 | rs) == FAILED)
+            return FAILED;
+        }
+        else {
+          if (mem_insert(tag_address + 0xF, g_rom[tag_address + 0xF]) == FAILED)
+            return FAILED;
         }
-        else
-          mem_insert(tag_address + 0xF, g_rom[tag_address + 0xF]);
       }
     }
   }
@@ -87,14 +97,22 @@ int reserve_checksum_bytes(void) {
       snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "%s", "Reserving SMS ROM TMR SEGA bytes");
 
       /* tmr sega */
-      mem_insert(tag_address + 0x0, 0);
-      mem_insert(tag_address + 0x1, 0);
-      mem_insert(tag_address + 0x2, 0);
-      mem_insert(tag_address + 0x3, 0);
-      mem_insert(tag_address + 0x4, 0);
-      mem_insert(tag_address + 0x5, 0);
-      mem_insert(tag_address + 0x6, 0);
-      mem_insert(tag_address + 0x7, 0);
+      if (mem_insert(tag_address + 0x0, 0) == FAILED)
+        return FAILED;
+      if (mem_insert(tag_address + 0x1, 0) == FAILED)
+        return FAILED;
+      if (mem_insert(tag_address + 0x2, 0) == FAILED)
+        return FAILED;
+      if (mem_insert(tag_address + 0x3, 0) == FAILED)
+        return FAILED;
+      if (mem_insert(tag_address + 0x4, 0) == FAILED)
+        return FAILED;
+      if (mem_insert(tag_address + 0x5, 0) == FAILED)
+        return FAILED;
+      if (mem_insert(tag_address + 0x6, 0) == FAILED)
+        return FAILED;
+      if (mem_insert(tag_address + 0x7, 0) == FAILED)
+        return FAILED;
     }
   }
 
@@ -103,7 +121,8 @@ int reserve_checksum_bytes(void) {
       /* create a what-we-are-doing message for mem_insert*() warnings/errors */
       snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "%s", "Reserving GB ROM complement check byte");
 
-      mem_insert(0x14D, 0);
+      if (mem_insert(0x14D, 0) == FAILED)
+        return FAILED;
     }
   }
 
@@ -112,8 +131,10 @@ int reserve_checksum_bytes(void) {
       /* create a what-we-are-doing message for mem_insert*() warnings/errors */
       snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "%s", "Reserving GB ROM checksum bytes");
 
-      mem_insert(0x14E, 0);
-      mem_insert(0x14F, 0);
+      if (mem_insert(0x14E, 0) == FAILED)
+        return FAILED;
+      if (mem_insert(0x14F, 0) == FAILED)
+        return FAILED;
     }
   }
 
@@ -122,16 +143,24 @@ int reserve_checksum_bytes(void) {
     snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "%s", "Reserving SNES ROM checksum bytes");
 
     if ((g_snes_rom_mode == SNES_ROM_MODE_LOROM || g_snes_rom_mode == SNES_ROM_MODE_EXLOROM) && g_romsize >= 0x8000) {
-      mem_insert(0x7FDC, 0);
-      mem_insert(0x7FDD, 0);
-      mem_insert(0x7FDE, 0);
-      mem_insert(0x7FDF, 0);
+      if (mem_insert(0x7FDC, 0) == FAILED)
+        return FAILED;
+      if (mem_insert(0x7FDD, 0) == FAILED)
+        return FAILED;
+      if (mem_insert(0x7FDE, 0) == FAILED)
+        return FAILED;
+      if (mem_insert(0x7FDF, 0) == FAILED)
+        return FAILED;
     }
     else if ((g_snes_rom_mode == SNES_ROM_MODE_HIROM || g_snes_rom_mode == SNES_ROM_MODE_EXHIROM) && g_romsize >= 0x10000) {
-      mem_insert(0xFFDC, 0);
-      mem_insert(0xFFDD, 0);
-      mem_insert(0xFFDE, 0);
-      mem_insert(0xFFDF, 0);
+      if (mem_insert(0xFFDC, 0) == FAILED)
+        return FAILED;
+      if (mem_insert(0xFFDD, 0) == FAILED)
+        return FAILED;
+      if (mem_insert(0xFFDE, 0) == FAILED)
+        return FAILED;
+      if (mem_insert(0xFFDF, 0) == FAILED)
+        return FAILED;
     }
   }
 
@@ -140,8 +169,10 @@ int reserve_checksum_bytes(void) {
       /* create a what-we-are-doing message for mem_insert*() warnings/errors */
       snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "%s", "Reserving SMD ROM checksum bytes");
 
-      mem_insert(0x18E, 0);
-      mem_insert(0x18F, 0);
+      if (mem_insert(0x18E, 0) == FAILED)
+        return FAILED;
+      if (mem_insert(0x18F, 0) == FAILED)
+        return FAILED;
     }
   }
 
@@ -154,20 +185,34 @@ int reserve_checksum_bytes(void) {
 
 int compute_checksums(void) {
 
-  if (g_sms_checksum != 0)
-    compute_sms_checksum();
-  if (g_sms_header != 0)
-    compute_sms_checksum();
-  if (g_smstag_defined != 0 || g_sms_header != 0)
-    add_tmr_sega();
-  if (g_gb_complement_check != 0)
-    compute_gb_complement_check();
-  if (g_gb_checksum != 0)
-    compute_gb_checksum();
-  if (g_snes_checksum != 0)
-    compute_snes_checksum();
-  if (g_smd_checksum != 0)
-    compute_smd_checksum();
+  if (g_sms_checksum != 0) {
+    if (compute_sms_checksum() == FAILED)
+      return FAILED;
+  }
+  if (g_sms_header != 0) {
+    if (compute_sms_checksum() == FAILED)
+      return FAILED;
+  }
+  if (g_smstag_defined != 0 || g_sms_header != 0) {
+    if (add_tmr_sega() == FAILED)
+      return FAILED;
+  }
+  if (g_gb_complement_check != 0) {
+    if (compute_gb_complement_check() == FAILED)
+      return FAILED;
+  }
+  if (g_gb_checksum != 0) {
+    if (compute_gb_checksum() == FAILED)
+      return FAILED;
+  }
+  if (g_snes_checksum != 0) {
+    if (compute_snes_checksum() == FAILED)
+      return FAILED;
+  }
+  if (g_smd_checksum != 0) {
+    if (compute_smd_checksum() == FAILED)
+      return FAILED;
+  }
 
   return SUCCEEDED;
 }
@@ -190,7 +235,8 @@ int compute_gb_complement_check(void) {
   /* create a what-we-are-doing message for mem_insert*() warnings/errors */
   snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "%s", "Writing GB ROM checksum complement");
 
-  mem_insert_allow_overwrite(0x14D, 0 - (res & 0xFF), 1);
+  if (mem_insert_allow_overwrite(0x14D, 0 - (res & 0xFF), 1) == FAILED)
+    return FAILED;
 
   /* create a what-we-are-doing message for mem_insert*() warnings/errors */
   snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "???");
@@ -217,8 +263,10 @@ int compute_smd_checksum(void) {
   /* create a what-we-are-doing message for mem_insert*() warnings/errors */
   snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "%s", "Writing SMD ROM checksum bytes");
     
-  mem_insert_allow_overwrite(0x18E, (checksum >> 8) & 0xFF, 1);
-  mem_insert_allow_overwrite(0x18F, checksum & 0xFF, 1);
+  if (mem_insert_allow_overwrite(0x18E, (checksum >> 8) & 0xFF, 1) == FAILED)
+    return FAILED;
+  if (mem_insert_allow_overwrite(0x18F, checksum & 0xFF, 1) == FAILED)
+    return FAILED;
 
   /* create a what-we-are-doing message for mem_insert*() warnings/errors */
   snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "???");
@@ -245,8 +293,10 @@ int compute_gb_checksum(void) {
   /* create a what-we-are-doing message for mem_insert*() warnings/errors */
   snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "%s", "Writing GB ROM checksum bytes");
     
-  mem_insert_allow_overwrite(0x14E, (checksum >> 8) & 0xFF, 1);
-  mem_insert_allow_overwrite(0x14F, checksum & 0xFF, 1);
+  if (mem_insert_allow_overwrite(0x14E, (checksum >> 8) & 0xFF, 1) == FAILED)
+    return FAILED;
+  if (mem_insert_allow_overwrite(0x14F, checksum & 0xFF, 1) == FAILED)
+    return FAILED;
 
   /* create a what-we-are-doing message for mem_insert*() warnings/errors */
   snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "???");
@@ -264,8 +314,10 @@ int finalize_snes_rom(void) {
     snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "%s", "Mirroring SNES ROM header from $40ffb0-$40ffff -> $ffb0-$ffff");
 
     /* mirror the cartridge rom header from $40ffb0-$40ffff -> $ffb0-$ffff */
-    for (i = 0; i < 5*16; i++)
-      mem_insert(0xffb0 + i, g_rom[0x40ffb0 + i]);
+    for (i = 0; i < 5*16; i++) {
+      if (mem_insert(0xffb0 + i, g_rom[0x40ffb0 + i]) == FAILED)
+        return FAILED;
+    }
   }
 
   /* create a what-we-are-doing message for mem_insert*() warnings/errors */
@@ -311,16 +363,24 @@ int compute_snes_exhirom_checksum(void) {
   snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "%s", "Writing SNES ROM checksum bytes");
   
   /* insert the checksum bytes */
-  mem_insert_allow_overwrite(0x40FFDC, inv & 0xFF, 1);
-  mem_insert_allow_overwrite(0x40FFDD, (inv >> 8) & 0xFF, 1);
-  mem_insert_allow_overwrite(0x40FFDE, checksum & 0xFF, 1);
-  mem_insert_allow_overwrite(0x40FFDF, (checksum >> 8) & 0xFF, 1);
+  if (mem_insert_allow_overwrite(0x40FFDC, inv & 0xFF, 1) == FAILED)
+    return FAILED;
+  if (mem_insert_allow_overwrite(0x40FFDD, (inv >> 8) & 0xFF, 1) == FAILED)
+    return FAILED;
+  if (mem_insert_allow_overwrite(0x40FFDE, checksum & 0xFF, 1) == FAILED)
+    return FAILED;
+  if (mem_insert_allow_overwrite(0x40FFDF, (checksum >> 8) & 0xFF, 1) == FAILED)
+    return FAILED;
 
   /* ... and mirror them */
-  mem_insert_allow_overwrite(0xFFDC, inv & 0xFF, 1);
-  mem_insert_allow_overwrite(0xFFDD, (inv >> 8) & 0xFF, 1);
-  mem_insert_allow_overwrite(0xFFDE, checksum & 0xFF, 1);
-  mem_insert_allow_overwrite(0xFFDF, (checksum >> 8) & 0xFF, 1);
+  if (mem_insert_allow_overwrite(0xFFDC, inv & 0xFF, 1) == FAILED)
+    return FAILED;
+  if (mem_insert_allow_overwrite(0xFFDD, (inv >> 8) & 0xFF, 1) == FAILED)
+    return FAILED;
+  if (mem_insert_allow_overwrite(0xFFDE, checksum & 0xFF, 1) == FAILED)
+    return FAILED;
+  if (mem_insert_allow_overwrite(0xFFDF, (checksum >> 8) & 0xFF, 1) == FAILED)
+    return FAILED;
 
   /* create a what-we-are-doing message for mem_insert*() warnings/errors */
   snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "???");
@@ -408,16 +468,24 @@ int compute_snes_checksum(void) {
 
   /* insert the checksum bytes */
   if (g_snes_rom_mode == SNES_ROM_MODE_LOROM || g_snes_rom_mode == SNES_ROM_MODE_EXLOROM) {
-    mem_insert_allow_overwrite(0x7FDC, inv & 0xFF, 1);
-    mem_insert_allow_overwrite(0x7FDD, (inv >> 8) & 0xFF, 1);
-    mem_insert_allow_overwrite(0x7FDE, checksum & 0xFF, 1);
-    mem_insert_allow_overwrite(0x7FDF, (checksum >> 8) & 0xFF, 1);
+    if (mem_insert_allow_overwrite(0x7FDC, inv & 0xFF, 1) == FAILED)
+      return FAILED;
+    if (mem_insert_allow_overwrite(0x7FDD, (inv >> 8) & 0xFF, 1) == FAILED)
+      return FAILED;
+    if (mem_insert_allow_overwrite(0x7FDE, checksum & 0xFF, 1) == FAILED)
+      return FAILED;
+    if (mem_insert_allow_overwrite(0x7FDF, (checksum >> 8) & 0xFF, 1) == FAILED)
+      return FAILED;
   }
   else {
-    mem_insert_allow_overwrite(0xFFDC, inv & 0xFF, 1);
-    mem_insert_allow_overwrite(0xFFDD, (inv >> 8) & 0xFF, 1);
-    mem_insert_allow_overwrite(0xFFDE, checksum & 0xFF, 1);
-    mem_insert_allow_overwrite(0xFFDF, (checksum >> 8) & 0xFF, 1);
+    if (mem_insert_allow_overwrite(0xFFDC, inv & 0xFF, 1) == FAILED)
+      return FAILED;
+    if (mem_insert_allow_overwrite(0xFFDD, (inv >> 8) & 0xFF, 1) == FAILED)
+      return FAILED;
+    if (mem_insert_allow_overwrite(0xFFDE, checksum & 0xFF, 1) == FAILED)
+      return FAILED;
+    if (mem_insert_allow_overwrite(0xFFDF, (checksum >> 8) & 0xFF, 1) == FAILED)
+      return FAILED;
   }
 
   /* create a what-we-are-doing message for mem_insert*() warnings/errors */
@@ -440,14 +508,22 @@ int add_tmr_sega(void) {
   snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "%s", "Writing TMR SEGA");
 
   /* TMR SEGA */
-  mem_insert_allow_overwrite(tag_address + 0x0, 0x54, 1);
-  mem_insert_allow_overwrite(tag_address + 0x1, 0x4D, 1);
-  mem_insert_allow_overwrite(tag_address + 0x2, 0x52, 1);
-  mem_insert_allow_overwrite(tag_address + 0x3, 0x20, 1);
-  mem_insert_allow_overwrite(tag_address + 0x4, 0x53, 1);
-  mem_insert_allow_overwrite(tag_address + 0x5, 0x45, 1);
-  mem_insert_allow_overwrite(tag_address + 0x6, 0x47, 1);
-  mem_insert_allow_overwrite(tag_address + 0x7, 0x41, 1);
+  if (mem_insert_allow_overwrite(tag_address + 0x0, 0x54, 1) == FAILED)
+    return FAILED;
+  if (mem_insert_allow_overwrite(tag_address + 0x1, 0x4D, 1) == FAILED)
+    return FAILED;
+  if (mem_insert_allow_overwrite(tag_address + 0x2, 0x52, 1) == FAILED)
+    return FAILED;
+  if (mem_insert_allow_overwrite(tag_address + 0x3, 0x20, 1) == FAILED)
+    return FAILED;
+  if (mem_insert_allow_overwrite(tag_address + 0x4, 0x53, 1) == FAILED)
+    return FAILED;
+  if (mem_insert_allow_overwrite(tag_address + 0x5, 0x45, 1) == FAILED)
+    return FAILED;
+  if (mem_insert_allow_overwrite(tag_address + 0x6, 0x47, 1) == FAILED)
+    return FAILED;
+  if (mem_insert_allow_overwrite(tag_address + 0x7, 0x41, 1) == FAILED)
+    return FAILED;
 
   /* create a what-we-are-doing message for mem_insert*() warnings/errors */
   snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "???");
@@ -471,6 +547,11 @@ int compute_sms_checksum(void) {
 
   tag_address = get_sms_tag_address();
 
+  if (tag_address < 0 || tag_address + 0xF >= g_romsize) {
+    print_text(NO, "COMPUTE_SMS_CHECKSUM: The SMS/GG header at $%x doesn't fit into the ROM ($%x bytes).\n", tag_address, g_romsize);
+    return FAILED;
+  }
+
   /* NOTE: this is one only if we have nothing written there as we've then reserved the byte (one write). if we had written to that
      previously then it would be > 1 as reserving it would increase the counter by one... */
   if (g_rom_usage[tag_address + 0xF] > 0) {
@@ -535,6 +616,11 @@ int compute_sms_checksum(void) {
   /* OVERRIDE from CHECKSUMSIZE! */
   if (g_sms_checksum_size_defined != 0)
     checksum_max = g_sms_checksum_size;
+
+  if (checksum_max > g_romsize) {
+    print_text(NO, "COMPUTE_SMS_CHECKSUM: CHECKSUMSIZE $%x is bigger than the ROM image ($%x bytes) itself - cannot calculate the checksum.\n", checksum_max, g_romsize);
+    return FAILED;
+  }
   
   /* add together ROM SIZE minus SMS/GG header */
   checksum = 0;
@@ -546,8 +632,10 @@ int compute_sms_checksum(void) {
   /* create a what-we-are-doing message for mem_insert*() warnings/errors */
   snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "%s", "Writing SMS/GG ROM checksum bytes");
   
-  mem_insert_allow_overwrite(tag_address + 0xA, checksum & 0xFF, 1);
-  mem_insert_allow_overwrite(tag_address + 0xB, (checksum >> 8) & 0xFF, 1);
+  if (mem_insert_allow_overwrite(tag_address + 0xA, checksum & 0xFF, 1) == FAILED)
+    return FAILED;
+  if (mem_insert_allow_overwrite(tag_address + 0xB, (checksum >> 8) & 0xFF, 1) == FAILED)
+    return FAILED;
 
   /* create a what-we-are-doing message for mem_insert*() warnings/errors */
   snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "???");
diff --git a/wlalink/main.c b/wlalink/main.c
index f556705..ee88281 100644
--- a/wlalink/main.c
+++ b/wlalink/main.c
@@ -1423,7 +1423,8 @@ int main(int argc, char *argv[]) {
 #endif
 
   /* reserve the bytes the checksummers will use, so no (free type) sections will be placed there */
-  reserve_checksum_bytes();
+  if (reserve_checksum_bytes() == FAILED)
+    return 1;
   
 #if defined(WLALINK_DEBUG)
   print_text(YES, "\n");
@@ -1539,8 +1540,10 @@ int main(int argc, char *argv[]) {
   }
 #endif
 
-  if (g_snes_mode != 0)
-    finalize_snes_rom();
+  if (g_snes_mode != 0) {
+    if (finalize_snes_rom() == FAILED)
+      return 1;
+  }
 
   /* write checksums and other last minute data */
   if (compute_checksums() == FAILED)
diff --git a/wlalink/memory.c b/wlalink/memory.c
index 95a9e7a..6c54210 100644
--- a/wlalink/memory.c
+++ b/wlalink/memory.c
@@ -20,8 +20,24 @@ int g_memory_file_id, g_memory_file_id_source, g_memory_line_number;
 
 
 
+static int _check_address(int address) {
+
+  if (address >= g_romsize || address < 0) {
+    print_text(NO, "%s: MEM_INSERT: Address $%x is out of the output range $0-$%x.\n", get_file_name(g_memory_file_id), address, g_romsize - 1);
+    if (g_mem_insert_action[0] != 0)
+      print_text(NO, "   ^ %s\n", g_mem_insert_action);
+    return FAILED;
+  }
+
+  return SUCCEEDED;
+}
+
+
 int mem_insert(int address, unsigned char data) {
 
+  if (_check_address(address) == FAILED)
+    return FAILED;
+
   if (g_rom[address] == data) {
     g_rom_usage[address]++;
     return SUCCEEDED;
@@ -41,6 +57,9 @@ int mem_insert(int address, unsigned char data) {
 
 int mem_insert_allow_overwrite(int address, unsigned char data, unsigned int allowed_overwrites) {
 
+  if (_check_address(address) == FAILED)
+    return FAILED;
+
   if (g_rom_usage[address] > allowed_overwrites)
     return mem_insert(address, data);
 
@@ -53,9 +72,9 @@ int mem_insert_allow_overwrite(int address, unsigned char data, unsigned int all
 
 int mem_insert_ref(int address, unsigned char data) {
 
-  if (address > g_romsize || address < 0) {
+  if (address >= g_romsize || address < 0) {
     print_text(NO, "%s: %s:%d: MEM_INSERT: Address $%x is out of the output range $0-$%x.\n",
-            get_file_name(g_memory_file_id), get_source_file_name(g_memory_file_id, g_memory_file_id_source), g_memory_line_number, address, g_romsize);
+            get_file_name(g_memory_file_id), get_source_file_name(g_memory_file_id, g_memory_file_id_source), g_memory_line_number, address, g_romsize - 1);
     if (g_mem_insert_action[0] != 0)
       print_text(NO, "   ^ %s\n", g_mem_insert_action);
     return FAILED;
@@ -80,9 +99,9 @@ int mem_insert_ref(int address, unsigned char data) {
 
 int mem_insert_ref_13bit_high(int address, unsigned char data) {
 
-  if (address > g_romsize || address < 0) {
+  if (address >= g_romsize || address < 0) {
     print_text(NO, "%s: %s:%d: MEM_INSERT: Address $%x is out of the output range $0-$%x.\n",
-               get_file_name(g_memory_file_id), get_source_file_name(g_memory_file_id, g_memory_file_id_source), g_memory_line_number, address, g_romsize);
+               get_file_name(g_memory_file_id), get_source_file_name(g_memory_file_id, g_memory_file_id_source), g_memory_line_number, address, g_romsize - 1);
     if (g_mem_insert_action[0] != 0)
       print_text(NO, "   ^ %s\n", g_mem_insert_action);
     return FAILED;
@@ -155,9 +174,9 @@ int mem_insert_bits(int address, int data, int bits_position, int bits_to_define
 
   int bits_byte;
   
-  if (address > g_romsize || address < 0) {
+  if (address < 0 || address + (bits_position + bits_to_define - 1) / 8 >= g_romsize) {
     print_text(NO, "%s: %s:%d: MEM_INSERT: Address $%x is out of the output range $0-$%x.\n",
-               get_file_name(g_memory_file_id), get_source_file_name(g_memory_file_id, g_memory_file_id_source), g_memory_line_number, address, g_romsize);
+               get_file_name(g_memory_file_id), get_source_file_name(g_memory_file_id, g_memory_file_id_source), g_memory_line_number, address, g_romsize - 1);
     if (g_mem_insert_action[0] != 0)
       print_text(NO, "   ^ %s\n", g_mem_insert_action);
     return FAILED;
@@ -178,7 +197,8 @@ int mem_insert_bits(int address, int data, int bits_position, int bits_to_define
     if (bits_position == 8) {
       bits_position = 0;
       g_rom[address++] = (unsigned char)bits_byte;
-      bits_byte = g_rom[address];
+      if (bits_to_define > 0)
+        bits_byte = g_rom[address];
     }
   }
 
diff --git a/wlalink/write.c b/wlalink/write.c
index 3edac34..b58b423 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -2017,19 +2017,25 @@ int fix_references(void) {
         }
 
         if (get_file(r->file_id)->little_endian == YES) {
-          mem_insert_ref(x, i & 0xFF);
-          mem_insert_ref(x + 1, (i >> 8) & 0xFF);
+          if (mem_insert_ref(x, i & 0xFF) == FAILED)
+            return FAILED;
+          if (mem_insert_ref(x + 1, (i >> 8) & 0xFF) == FAILED)
+            return FAILED;
         }
         else {
-          mem_insert_ref(x, (i >> 8) & 0xFF);
-          mem_insert_ref(x + 1, i & 0xFF);
+          if (mem_insert_ref(x, (i >> 8) & 0xFF) == FAILED)
+            return FAILED;
+          if (mem_insert_ref(x + 1, i & 0xFF) == FAILED)
+            return FAILED;
         }
       }
       /* direct 13-bit */
       else if (r->type == REFERENCE_TYPE_DIRECT_13BIT) {
         /* this is always little endian */
-        mem_insert(x, i & 0xFF);
-        mem_insert_ref_13bit_high(x + 1, (i >> 8) & 0xFF);
+        if (mem_insert_ref(x, i & 0xFF) == FAILED)
+          return FAILED;
+        if (mem_insert_ref_13bit_high(x + 1, (i >> 8) & 0xFF) == FAILED)
+          return FAILED;
       }
       /* direct / relative 8-bit with a definition */
       else if (l->status == LABEL_STATUS_DEFINE) {
@@ -2040,29 +2046,43 @@ int fix_references(void) {
       /* direct 24-bit */
       else if (r->type == REFERENCE_TYPE_DIRECT_24BIT) {
         if (get_file(r->file_id)->little_endian == YES) {
-          mem_insert_ref(x, i & 0xFF);
-          mem_insert_ref(x + 1, (i >> 8) & 0xFF);
-          mem_insert_ref(x + 2, (i >> 16) & 0xFF);
+          if (mem_insert_ref(x, i & 0xFF) == FAILED)
+            return FAILED;
+          if (mem_insert_ref(x + 1, (i >> 8) & 0xFF) == FAILED)
+            return FAILED;
+          if (mem_insert_ref(x + 2, (i >> 16) & 0xFF) == FAILED)
+            return FAILED;
         }
         else {
-          mem_insert_ref(x, (i >> 16) & 0xFF);
-          mem_insert_ref(x + 1, (i >> 8) & 0xFF);
-          mem_insert_ref(x + 2, i & 0xFF);
+          if (mem_insert_ref(x, (i >> 16) & 0xFF) == FAILED)
+            return FAILED;
+          if (mem_insert_ref(x + 1, (i >> 8) & 0xFF) == FAILED)
+            return FAILED;
+          if (mem_insert_ref(x + 2, i & 0xFF) == FAILED)
+            return FAILED;
         }
       }
       /* direct 32-bit */
       else if (r->type == REFERENCE_TYPE_DIRECT_32BIT) {
         if (get_file(r->file_id)->little_endian == YES) {
-          mem_insert_ref(x, i & 0xFF);
-          mem_insert_ref(x + 1, (i >> 8) & 0xFF);
-          mem_insert_ref(x + 2, (i >> 16) & 0xFF);
-          mem_insert_ref(x + 3, (i >> 24) & 0xFF);
+          if (mem_insert_ref(x, i & 0xFF) == FAILED)
+            return FAILED;
+          if (mem_insert_ref(x + 1, (i >> 8) & 0xFF) == FAILED)
+            return FAILED;
+          if (mem_insert_ref(x + 2, (i >> 16) & 0xFF) == FAILED)
+            return FAILED;
+          if (mem_insert_ref(x + 3, (i >> 24) & 0xFF) == FAILED)
+            return FAILED;
         }
         else {
-          mem_insert_ref(x, (i >> 24) & 0xFF);
-          mem_insert_ref(x + 1, (i >> 16) & 0xFF);
-          mem_insert_ref(x + 2, (i >> 8) & 0xFF);
-          mem_insert_ref(x + 3, i & 0xFF);
+          if (mem_insert_ref(x, (i >> 24) & 0xFF) == FAILED)
+            return FAILED;
+          if (mem_insert_ref(x + 1, (i >> 16) & 0xFF) == FAILED)
+            return FAILED;
+          if (mem_insert_ref(x + 2, (i >> 8) & 0xFF) == FAILED)
+            return FAILED;
+          if (mem_insert_ref(x + 3, i & 0xFF) == FAILED)
+            return FAILED;
         }
       }
       /* bits */
@@ -2082,7 +2102,8 @@ int fix_references(void) {
       }
       /* relative/direct 8-bit with a label */
       else {
-        mem_insert_ref(x, i & 0xFF);
+        if (mem_insert_ref(x, i & 0xFF) == FAILED)
+          return FAILED;
       }
     }
     /* normal reference */
@@ -2126,12 +2147,16 @@ int fix_references(void) {
         }
 
         if (get_file(r->file_id)->little_endian == YES) {
-          mem_insert_ref(x, i & 0xFF);
-          mem_insert_ref(x + 1, (i >> 8) & 0xFF);
+          if (mem_insert_ref(x, i & 0xFF) == FAILED)
+            return FAILED;
+          if (mem_insert_ref(x + 1, (i >> 8) & 0xFF) == FAILED)
+            return FAILED;
         }
         else {
-          mem_insert_ref(x, (i >> 8) & 0xFF);
-          mem_insert_ref(x + 1, i & 0xFF);
+          if (mem_insert_ref(x, (i >> 8) & 0xFF) == FAILED)
+            return FAILED;
+          if (mem_insert_ref(x + 1, i & 0xFF) == FAILED)
+            return FAILED;
         }
       }
       /* direct 13-bit */
@@ -2143,8 +2168,10 @@ int fix_references(void) {
           return FAILED;
         }
         /* this is always little endian */
-        mem_insert_ref(x, i & 0xFF);
-        mem_insert_ref_13bit_high(x + 1, (i >> 8) & 0xFF);
+        if (mem_insert_ref(x, i & 0xFF) == FAILED)
+          return FAILED;
+        if (mem_insert_ref_13bit_high(x + 1, (i >> 8) & 0xFF) == FAILED)
+          return FAILED;
       }
       /* direct 9-bit short */
       else if (r->type == REFERENCE_TYPE_DIRECT_9BIT_SHORT) {
@@ -2159,7 +2186,8 @@ int fix_references(void) {
                   get_file_name(r->file_id), get_source_file_name(r->file_id, r->file_id_source), r->linenumber);
           return FAILED;
         }
-        mem_insert_ref(x, (i >> 1) & 0xFF);
+        if (mem_insert_ref(x, (i >> 1) & 0xFF) == FAILED)
+          return FAILED;
       }
       /* direct / relative 8-bit with a value definition */
       else if (l->status == LABEL_STATUS_DEFINE && (r->type == REFERENCE_TYPE_DIRECT_8BIT || r->type == REFERENCE_TYPE_RELATIVE_8BIT)) {
@@ -2169,7 +2197,8 @@ int fix_references(void) {
                   get_file_name(r->file_id), get_source_file_name(r->file_id, r->file_id_source), r->linenumber, i, l->name);
           return FAILED;
         }
-        mem_insert_ref(x, i & 0xFF);
+        if (mem_insert_ref(x, i & 0xFF) == FAILED)
+          return FAILED;
       }
       /* direct 24-bit */
       else if (r->type == REFERENCE_TYPE_DIRECT_24BIT) {
@@ -2177,30 +2206,44 @@ int fix_references(void) {
         if (l->status == LABEL_STATUS_LABEL)
           i += get_snes_pc_bank(l);
         if (get_file(r->file_id)->little_endian == YES) {
-          mem_insert_ref(x, i & 0xFF);
-          mem_insert_ref(x + 1, (i >> 8) & 0xFF);
-          mem_insert_ref(x + 2, (i >> 16) & 0xFF);
+          if (mem_insert_ref(x, i & 0xFF) == FAILED)
+            return FAILED;
+          if (mem_insert_ref(x + 1, (i >> 8) & 0xFF) == FAILED)
+            return FAILED;
+          if (mem_insert_ref(x + 2, (i >> 16) & 0xFF) == FAILED)
+            return FAILED;
         }
         else {
-          mem_insert_ref(x, (i >> 16) & 0xFF);
-          mem_insert_ref(x + 1, (i >> 8) & 0xFF);
-          mem_insert_ref(x + 2, i & 0xFF);
+          if (mem_insert_ref(x, (i >> 16) & 0xFF) == FAILED)
+            return FAILED;
+          if (mem_insert_ref(x + 1, (i >> 8) & 0xFF) == FAILED)
+            return FAILED;
+          if (mem_insert_ref(x + 2, i & 0xFF) == FAILED)
+            return FAILED;
         }
       }
       /* direct 32-bit */
       else if (r->type == REFERENCE_TYPE_DIRECT_32BIT) {
         i = (int)l->address;
         if (get_file(r->file_id)->little_endian == YES) {
-          mem_insert_ref(x, i & 0xFF);
-          mem_insert_ref(x + 1, (i >> 8) & 0xFF);
-          mem_insert_ref(x + 2, (i >> 16) & 0xFF);
-          mem_insert_ref(x + 3, (i >> 24) & 0xFF);
+          if (mem_insert_ref(x, i & 0xFF) == FAILED)
+            return FAILED;
+          if (mem_insert_ref(x + 1, (i >> 8) & 0xFF) == FAILED)
+            return FAILED;
+          if (mem_insert_ref(x + 2, (i >> 16) & 0xFF) == FAILED)
+            return FAILED;
+          if (mem_insert_ref(x + 3, (i >> 24) & 0xFF) == FAILED)
+            return FAILED;
         }
         else {
-          mem_insert_ref(x, (i >> 24) & 0xFF);
-          mem_insert_ref(x + 1, (i >> 16) & 0xFF);
-          mem_insert_ref(x + 2, (i >> 8) & 0xFF);
-          mem_insert_ref(x + 3, i & 0xFF);
+          if (mem_insert_ref(x, (i >> 24) & 0xFF) == FAILED)
+            return FAILED;
+          if (mem_insert_ref(x + 1, (i >> 16) & 0xFF) == FAILED)
+            return FAILED;
+          if (mem_insert_ref(x + 2, (i >> 8) & 0xFF) == FAILED)
+            return FAILED;
+          if (mem_insert_ref(x + 3, i & 0xFF) == FAILED)
+            return FAILED;
         }
       }
       /* relative 8-bit with a label */
@@ -2211,7 +2254,8 @@ int fix_references(void) {
                   get_file_name(r->file_id), get_source_file_name(r->file_id, r->file_id_source), r->linenumber, i, r->address, (int)l->address, l->name);
           return FAILED;
         }
-        mem_insert_ref(x, i & 0xFF);
+        if (mem_insert_ref(x, i & 0xFF) == FAILED)
+          return FAILED;
       }
       /* relative 16-bit with a label */
       else if (r->type == REFERENCE_TYPE_RELATIVE_16BIT) {
@@ -2228,12 +2272,16 @@ int fix_references(void) {
         }
 
         if (get_file(r->file_id)->little_endian == YES) {
-          mem_insert_ref(x, i & 0xFF);
-          mem_insert_ref(x + 1, (i >> 8) & 0xFF);
+          if (mem_insert_ref(x, i & 0xFF) == FAILED)
+            return FAILED;
+          if (mem_insert_ref(x + 1, (i >> 8) & 0xFF) == FAILED)
+            return FAILED;
         }
         else {
-          mem_insert_ref(x, (i >> 8) & 0xFF);
-          mem_insert_ref(x + 1, i & 0xFF);
+          if (mem_insert_ref(x, (i >> 8) & 0xFF) == FAILED)
+            return FAILED;
+          if (mem_insert_ref(x + 1, i & 0xFF) == FAILED)
+            return FAILED;
         }
       }
       /* bits */
@@ -2267,7 +2315,8 @@ int fix_references(void) {
             return FAILED;
         }
 
-        mem_insert_ref(x, i & 0xFF);
+        if (mem_insert_ref(x, i & 0xFF) == FAILED)
+          return FAILED;
       }
     }
 
-- 
2.43.0


From 997e2d0eb820bebfaf841a664ce935869f120e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:01 +0000
Subject: [PATCH 11/57] fix: the SMD checksum sums big endian words on every
 host

---
 wlalink/compute.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wlalink/compute.c b/wlalink/compute.c
index 3e69171..5ea51e1 100644
--- a/wlalink/compute.c
+++ b/wlalink/compute.c
@@ -247,7 +247,6 @@ int compute_gb_complement_check(void) {
 
 int compute_smd_checksum(void) {
 
-  unsigned short int *rom = (unsigned short int *)g_rom;
   int checksum, j;
 
   if (g_romsize < 0x1000) {
@@ -257,8 +256,9 @@ int compute_smd_checksum(void) {
 
   checksum = 0;
 
-  for (j = 0x100; j < g_romsize/2; j++)
-    checksum += rom[j];
+  /* the sum of the big endian 16-bit words after the header */
+  for (j = 0x200; j + 1 < g_romsize; j += 2)
+    checksum += (g_rom[j] << 8) | g_rom[j + 1];
 
   /* create a what-we-are-doing message for mem_insert*() warnings/errors */
   snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "%s", "Writing SMD ROM checksum bytes");
-- 
2.43.0


From ffd7fdffe0bb211362eaec554f5a199f17684e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:24 +0000
Subject: [PATCH 12/57] fix: internal errors and full tables in the linker, and
 a bad -L argument, fail the link

---
 wlalink/analyze.c | 11 ++++++++---
 wlalink/discard.c |  7 +++++--
 wlalink/main.c    |  8 +++++---
 wlalink/write.c   | 13 +++++++++----
 4 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/wlalink/analyze.c b/wlalink/analyze.c
index 30b4380..9215d8e 100644
--- a/wlalink/analyze.c
+++ b/wlalink/analyze.c
@@ -900,7 +900,8 @@ int collect_dlr(void) {
           return FAILED;
         }
         
-        add_stack(s);
+        if (add_stack(s) == FAILED)
+          return FAILED;
 
         for (n = 0; n != x; n++) {
           s->stack_items[n].slot = -1;
@@ -1157,7 +1158,8 @@ int collect_dlr(void) {
           return FAILED;
         }
 
-        add_stack(s);
+        if (add_stack(s) == FAILED)
+          return FAILED;
 
         for (n = 0; n != x; n++) {
           s->stack_items[n].slot = -1;
@@ -1998,6 +2000,7 @@ int parse_data_blocks(void) {
           s->id = READ_T;
           if (s->id >= 0x10000) {
             print_text(NO, "PARSE_DATA_BLOCKS: Section \"%s\"'s ID %d is too much! Currently we allow only 65535 sections inside an object file. Please open an issue about this in GitHub!\n", s->name, s->id);
+            return FAILED;
           }
           s->id += section_id_base;
           s->slot = *(t++);
@@ -2081,6 +2084,7 @@ int parse_data_blocks(void) {
         s->id = READ_T;
         if (s->id >= 0x10000) {
           print_text(NO, "PARSE_DATA_BLOCKS: Section \"%s\"'s ID %d is too much! Currently we allow only 65535 sections inside a library file. Please open an issue about this in GitHub!\n", s->name, s->id);
+          return FAILED;
         }
         s->id += section_id_base;
         s->file_id_source = READ_T;
@@ -2113,7 +2117,8 @@ int parse_data_blocks(void) {
         if (listfile_block_read(&t, s) == FAILED)
           return FAILED;
 
-        add_section(s);
+        if (add_section(s) == FAILED)
+          return FAILED;
       }
       g_obj_tmp = g_obj_tmp->next;
       section_id_base += 0x10000;
diff --git a/wlalink/discard.c b/wlalink/discard.c
index c5aa29a..191f29a 100644
--- a/wlalink/discard.c
+++ b/wlalink/discard.c
@@ -35,7 +35,8 @@ int discard_unused_sections(void) {
     }
 
     num_dropped_before = num_dropped_after;
-    discard_iteration();
+    if (discard_iteration() == FAILED)
+      return FAILED;
 
     num_dropped_after = 0;
     s = g_sec_first;
@@ -103,8 +104,10 @@ int discard_iteration(void) {
 
     if (l != NULL && l->section_status == ON) {
       s = l->section_struct;
-      if (s == NULL)
+      if (s == NULL) {
         print_text(NO, "DISCARD_ITERATION: Internal error! Please send a bug report.\n");
+        return FAILED;
+      }
       if (r->section_status == OFF)
         s->referenced++;
       else if (r->section != s->id) {
diff --git a/wlalink/main.c b/wlalink/main.c
index ee88281..bbe1c9d 100644
--- a/wlalink/main.c
+++ b/wlalink/main.c
@@ -930,7 +930,7 @@ static int _parse_and_set_libdir(char *c, int contains_flag) {
   if (contains_flag == YES)
     c += 2;
 
-  if (strlen(c) < 2)
+  if (strlen(c) < 1)
     return FAILED;
   
   for (i = 0; i < MAX_NAME_LENGTH && *c != 0; i++, c++)
@@ -1034,7 +1034,8 @@ static int _parse_flags(char **flags, int flagc) {
     else if (!strcmp(flags[count], "-L")) {
       if (count + 1 < flagc) {
         /* get arg */
-        _parse_and_set_libdir(flags[count+1], NO);
+        if (_parse_and_set_libdir(flags[count+1], NO) == FAILED)
+          return FAILED;
       }
       else
         return FAILED;
@@ -1092,7 +1093,8 @@ static int _parse_flags(char **flags, int flagc) {
       /* legacy support? */
       if (strncmp(flags[count], "-L", 2) == 0) {
         /* old library directory */
-        _parse_and_set_libdir(flags[count], YES);
+        if (_parse_and_set_libdir(flags[count], YES) == FAILED)
+          return FAILED;
       }
       else if (count >= flagc - 2)
         unknowns++;
diff --git a/wlalink/write.c b/wlalink/write.c
index b58b423..737c20c 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -1810,6 +1810,7 @@ int fix_label_addresses(void) {
           }
           else {
             print_text(NO, "FIX_LABELS: Internal error: label's section ID and its sections section ID don't match!\n");
+            return FAILED;
           }
         }
         else {
@@ -3087,6 +3088,7 @@ int compute_pending_calculations(void) {
     else {
       print_text(NO, "%s: %s:%d: COMPUTE_PENDING_CALCULATIONS: Unsupported pending calculation type. Please send an error report!\n",
               get_file_name(sta->file_id), get_source_file_name(sta->file_id, sta->file_id_source), sta->linenumber);
+      return FAILED;
     }
 
     /* next stack computation */
@@ -4096,9 +4098,9 @@ int write_bank_header_calculations(struct stack *sta) {
 
   /* the calculation was not in any bank header? */
   if (s == NULL) {
-    print_text(NO, "%s: %s:%d: WRITE_BANK_HEADER_CALCULATIONS: This calculation is marked to be in a section, but we cannot find the section. Skipping... Please send us a bug report about this!\n",
+    print_text(NO, "%s: %s:%d: WRITE_BANK_HEADER_CALCULATIONS: This calculation is marked to be in a section, but we cannot find the section. Please send us a bug report about this!\n",
             get_file_name(sta->file_id), get_source_file_name(sta->file_id, sta->file_id_source), sta->linenumber);
-    return SUCCEEDED;
+    return FAILED;
   }
   
   t = s->data + sta->address;
@@ -4232,6 +4234,7 @@ int write_bank_header_calculations(struct stack *sta) {
   else {
     print_text(NO, "%s: %s:%d: WRITE_BANK_HEADER_CALCULATIONS: Unsupported pending calculation type. Please send an error report!\n",
             get_file_name(sta->file_id), get_source_file_name(sta->file_id, sta->file_id_source), sta->linenumber);
+    return FAILED;
   }
   
   return SUCCEEDED;
@@ -5092,8 +5095,10 @@ int fix_sectionstartend_labels(void) {
           count++;
           if (strlen(tmp) < MAX_NAME_LENGTH)
             strcpy(l2->name, tmp);
-          else
-            print_text(NO, "FIX_SECTIONSTARTEND_LABELS: Duplicate label \"%s\" is too long to be renamed.\n", l2->name);           
+          else {
+            print_text(NO, "FIX_SECTIONSTARTEND_LABELS: Duplicate label \"%s\" is too long to be renamed.\n", l2->name);
+            return FAILED;
+          }
         }
         l2 = l2->next;
       }
-- 
2.43.0


From cd154699e41f0904107e137fb882a937e15037e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:28 +0000
Subject: [PATCH 13/57] fix: errors in the SNES vectors, after .INSTANCEOF, in
 string map tables and before .ORG fail the assembly

---
 phase_1.c | 29 ++++++++++++++++++++++++++++-
 phase_3.c |  1 +
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/phase_1.c b/phase_1.c
index 6784a95..f5171a2 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -2472,6 +2472,8 @@ int parse_enum_token(void) {
         remember_current_source_file_position();
 
         q = input_number();
+        if (q == FAILED)
+          return FAILED;
         if (q == INPUT_NUMBER_EOL) {
           next_line();
           break;
@@ -9968,6 +9970,8 @@ int directive_snesnativevector(void) {
       }
 
       number_result = input_number();
+      if (number_result == FAILED)
+        return FAILED;
 
       if (number_result == SUCCEEDED && (g_parsed_int < -32768 || g_parsed_int > 65535)) {
         print_error(ERROR_DIR, "COP expects 16-bit data, %d is out of range!\n", g_parsed_int);
@@ -9992,6 +9996,8 @@ int directive_snesnativevector(void) {
       }
 
       number_result = input_number();
+      if (number_result == FAILED)
+        return FAILED;
 
       if (number_result == SUCCEEDED && (g_parsed_int < -32768 || g_parsed_int > 65535)) {
         print_error(ERROR_DIR, "BRK expects 16-bit data, %d is out of range!\n", g_parsed_int);
@@ -10016,6 +10022,8 @@ int directive_snesnativevector(void) {
       }
 
       number_result = input_number();
+      if (number_result == FAILED)
+        return FAILED;
 
       if (number_result == SUCCEEDED && (g_parsed_int < -32768 || g_parsed_int > 65535)) {
         print_error(ERROR_DIR, "ABORT expects 16-bit data, %d is out of range!\n", g_parsed_int);
@@ -10040,6 +10048,8 @@ int directive_snesnativevector(void) {
       }
 
       number_result = input_number();
+      if (number_result == FAILED)
+        return FAILED;
 
       if (number_result == SUCCEEDED && (g_parsed_int < -32768 || g_parsed_int > 65535)) {
         print_error(ERROR_DIR, "NMI expects 16-bit data, %d is out of range!\n", g_parsed_int);
@@ -10064,6 +10074,8 @@ int directive_snesnativevector(void) {
       }
 
       number_result = input_number();
+      if (number_result == FAILED)
+        return FAILED;
 
       if (number_result == SUCCEEDED && (g_parsed_int < -32768 || g_parsed_int > 65535)) {
         print_error(ERROR_DIR, "UNUSED expects 16-bit data, %d is out of range!\n", g_parsed_int);
@@ -10088,6 +10100,8 @@ int directive_snesnativevector(void) {
       }
 
       number_result = input_number();
+      if (number_result == FAILED)
+        return FAILED;
 
       if (number_result == SUCCEEDED && (g_parsed_int < -32768 || g_parsed_int > 65535)) {
         print_error(ERROR_DIR, "IRQ expects 16-bit data, %d is out of range!\n", g_parsed_int);
@@ -10194,6 +10208,8 @@ int directive_snesemuvector(void) {
       }
 
       number_result = input_number();
+      if (number_result == FAILED)
+        return FAILED;
 
       if (number_result == SUCCEEDED && (g_parsed_int < -32768 || g_parsed_int > 65535)) {
         print_error(ERROR_DIR, "COP expects 16-bit data, %d is out of range!\n", g_parsed_int);
@@ -10218,6 +10234,8 @@ int directive_snesemuvector(void) {
       }
 
       number_result = input_number();
+      if (number_result == FAILED)
+        return FAILED;
 
       if (number_result == SUCCEEDED && (g_parsed_int < -32768 || g_parsed_int > 65535)) {
         print_error(ERROR_DIR, "RESET expects 16-bit data, %d is out of range!\n", g_parsed_int);
@@ -10242,6 +10260,8 @@ int directive_snesemuvector(void) {
       }
 
       number_result = input_number();
+      if (number_result == FAILED)
+        return FAILED;
 
       if (number_result == SUCCEEDED && (g_parsed_int < -32768 || g_parsed_int > 65535)) {
         print_error(ERROR_DIR, "ABORT expects 16-bit data, %d is out of range!\n", g_parsed_int);
@@ -10266,6 +10286,8 @@ int directive_snesemuvector(void) {
       }
 
       number_result = input_number();
+      if (number_result == FAILED)
+        return FAILED;
 
       if (number_result == SUCCEEDED && (g_parsed_int < -32768 || g_parsed_int > 65535)) {
         print_error(ERROR_DIR, "NMI expects 16-bit data, %d is out of range!\n", g_parsed_int);
@@ -10290,6 +10312,8 @@ int directive_snesemuvector(void) {
       }
 
       number_result = input_number();
+      if (number_result == FAILED)
+        return FAILED;
 
       if (number_result == SUCCEEDED && (g_parsed_int < -32768 || g_parsed_int > 65535)) {
         print_error(ERROR_DIR, "UNUSED expects 16-bit data, %d is out of range!\n", g_parsed_int);
@@ -10314,6 +10338,8 @@ int directive_snesemuvector(void) {
       }
 
       number_result = input_number();
+      if (number_result == FAILED)
+        return FAILED;
       
       if (number_result == SUCCEEDED && (g_parsed_int < -32768 || g_parsed_int > 65535)) {
         print_error(ERROR_DIR, "IRQBRK expects 16-bit data, %d is out of range!\n", g_parsed_int);
@@ -10789,7 +10815,8 @@ int directive_stringmaptable(void) {
     p[strcspn(p, "\r\n")] = 0;
 
     /* process special characters like "\n" */
-    process_string_for_special_characters(equals_pos + 1, NULL);
+    if (process_string_for_special_characters(equals_pos + 1, NULL) == FAILED)
+      return FAILED;
 
     entry->text_length = (int)strlen(++p);
     if (entry->text_length == 0) {
diff --git a/phase_3.c b/phase_3.c
index 3e472ae..e4fd944 100644
--- a/phase_3.c
+++ b/phase_3.c
@@ -606,6 +606,7 @@ int phase_3(void) {
 
       default:
         print_text(NO, "%s:%d: INTERNAL_PHASE_1: .ORG needs to be set before any code/data can be accepted.\n", get_file_name(file_name_id), line_number);
+        return FAILED;
       }
     }
   }
-- 
2.43.0


From e134bcb4d460b4cd979029d46d9aef3239f9f28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:34 +0000
Subject: [PATCH 14/57] fix: errors found while emitting 68000 extension words
 fail the assembly

---
 decode.c | 115 +++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 77 insertions(+), 38 deletions(-)

diff --git a/decode.c b/decode.c
index cbedc25..75cc173 100644
--- a/decode.c
+++ b/decode.c
@@ -293,7 +293,7 @@ static int _mc68000_size_check(int data, int size) {
 }
 
 
-static void _mc68000_emit_extra_data(int mode, int reg1, int reg2, int data_type, int data, char *label, int size) {
+static int _mc68000_emit_extra_data(int mode, int reg1, int reg2, int data_type, int data, char *label, int size) {
 
   if (mode == B8(00000111) && reg1 == B8(00000100)) {
     /* #<data> */
@@ -336,7 +336,8 @@ static void _mc68000_emit_extra_data(int mode, int reg1, int reg2, int data_type
   }
   else if (mode == B8(00000111) && reg1 == B8(00000010)) {
     /* (d16,PC) */
-    stack_create_stack_caddr_offset(data_type, data, label);
+    if (stack_create_stack_caddr_offset(data_type, data, label) == FAILED)
+      return FAILED;
     _output_assembled_instruction(s_instruction_tmp, "C%d ", g_latest_stack);
   }
   else if ((mode == B8(00000111) && reg1 == B8(00000001)) || (mode == B8(00000111) && reg1 == B8(00000100))) {
@@ -357,7 +358,8 @@ static void _mc68000_emit_extra_data(int mode, int reg1, int reg2, int data_type
     else
       _output_assembled_instruction(s_instruction_tmp, "d%d ", reg2 << 4);
 
-    stack_create_stack_caddr_offset_plus_n(data_type, data, label, 1);
+    if (stack_create_stack_caddr_offset_plus_n(data_type, data, label, 1) == FAILED)
+      return FAILED;
     _output_assembled_instruction(s_instruction_tmp, "c%d ", g_latest_stack);
   }
   else if (mode == B8(00000110)) {
@@ -369,6 +371,8 @@ static void _mc68000_emit_extra_data(int mode, int reg1, int reg2, int data_type
     else
       _output_assembled_instruction(s_instruction_tmp, "d%d c%d ", reg2 << 4, data);
   }
+
+  return SUCCEEDED;
 }
 
 
@@ -3382,8 +3386,10 @@ int evaluate_token(void) {
         _output_assembled_instruction(s_instruction_tmp, "y%d ", opcode);
 
         /* emit extra data */
-        _mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size);
-        _mc68000_emit_extra_data(register_x_mode, register_x1, register_x2, data_type_x, data_x, label_x, size);
+        if (_mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size) == FAILED)
+          return FAILED;
+        if (_mc68000_emit_extra_data(register_x_mode, register_x1, register_x2, data_type_x, data_x, label_x, size) == FAILED)
+          return FAILED;
 
         g_source_index = s_parser_source_index;
 
@@ -3458,7 +3464,8 @@ int evaluate_token(void) {
 	    _output_assembled_instruction(s_instruction_tmp, "y%d ", opcode);
 
 	    /* emit extra data */
-	    _mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size);
+	    if (_mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size) == FAILED)
+	      return FAILED;
 
 	    g_source_index = s_parser_source_index;
 
@@ -3484,7 +3491,8 @@ int evaluate_token(void) {
 	    _output_assembled_instruction(s_instruction_tmp, "y%d ", opcode);
 
 	    /* emit extra data */
-	    _mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size);
+	    if (_mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size) == FAILED)
+	      return FAILED;
 
 	    g_source_index = s_parser_source_index;
 
@@ -3573,8 +3581,10 @@ int evaluate_token(void) {
         _output_assembled_instruction(s_instruction_tmp, "y%d ", opcode);
 
         /* emit extra data */
-        _mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size);
-        _mc68000_emit_extra_data(register_x_mode, register_x1, register_x2, data_type_x, data_x, label_x, size);
+        if (_mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size) == FAILED)
+          return FAILED;
+        if (_mc68000_emit_extra_data(register_x_mode, register_x1, register_x2, data_type_x, data_x, label_x, size) == FAILED)
+          return FAILED;
 
         g_source_index = s_parser_source_index;
 
@@ -3660,7 +3670,8 @@ int evaluate_token(void) {
 	  _output_assembled_instruction(s_instruction_tmp, "y%d ", opcode);
 
 	  /* emit extra data */
-	  _mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size);
+	  if (_mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size) == FAILED)
+	    return FAILED;
 
 	  g_source_index = s_parser_source_index;
 
@@ -3939,7 +3950,8 @@ int evaluate_token(void) {
 	}
 
 	/* emit extra data */
-	_mc68000_emit_extra_data(register_x_mode, register_x1, register_x2, data_type_x, data_x, label_x, size);
+	if (_mc68000_emit_extra_data(register_x_mode, register_x1, register_x2, data_type_x, data_x, label_x, size) == FAILED)
+	  return FAILED;
 
         g_source_index = s_parser_source_index;
 
@@ -4014,7 +4026,8 @@ int evaluate_token(void) {
         _output_assembled_instruction(s_instruction_tmp, "y%d ", opcode);
 
 	/* emit extra data */
-	_mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size);
+	if (_mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size) == FAILED)
+	  return FAILED;
 
         g_source_index = s_parser_source_index;
 
@@ -4069,7 +4082,8 @@ int evaluate_token(void) {
         _output_assembled_instruction(s_instruction_tmp, "y%d ", opcode);
 
 	/* emit extra data */
-	_mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size);
+	if (_mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size) == FAILED)
+	  return FAILED;
 
         g_source_index = s_parser_source_index;
 
@@ -4264,8 +4278,10 @@ int evaluate_token(void) {
         _output_assembled_instruction(s_instruction_tmp, "y%d ", opcode);
 
         /* emit extra data */
-        _mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size);
-        _mc68000_emit_extra_data(register_x_mode, register_x1, register_x2, data_type_x, data_x, label_x, size);
+        if (_mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size) == FAILED)
+          return FAILED;
+        if (_mc68000_emit_extra_data(register_x_mode, register_x1, register_x2, data_type_x, data_x, label_x, size) == FAILED)
+          return FAILED;
 
         g_source_index = s_parser_source_index;
 
@@ -4427,7 +4443,8 @@ int evaluate_token(void) {
         _output_assembled_instruction(s_instruction_tmp, "y%d ", opcode);
 
 	/* emit extra data */
-	_mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size);
+	if (_mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size) == FAILED)
+	  return FAILED;
 
         g_source_index = s_parser_source_index;
 
@@ -4499,7 +4516,8 @@ int evaluate_token(void) {
 	    _output_assembled_instruction(s_instruction_tmp, "y%d ", opcode);
 
 	    /* emit extra data */
-	    _mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size);
+	    if (_mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size) == FAILED)
+	      return FAILED;
 
 	    g_source_index = s_parser_source_index;
 
@@ -4522,7 +4540,8 @@ int evaluate_token(void) {
 	    _output_assembled_instruction(s_instruction_tmp, "y%d ", opcode);
 
 	    /* emit extra data */
-	    _mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size);
+	    if (_mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size) == FAILED)
+	      return FAILED;
 
 	    g_source_index = s_parser_source_index;
 
@@ -4590,8 +4609,10 @@ int evaluate_token(void) {
         _output_assembled_instruction(s_instruction_tmp, "y%d ", opcode);
 
         /* emit extra data */
-        _mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size);
-        _mc68000_emit_extra_data(register_x_mode, register_x1, register_x2, data_type_x, data_x, label_x, size);
+        if (_mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size) == FAILED)
+          return FAILED;
+        if (_mc68000_emit_extra_data(register_x_mode, register_x1, register_x2, data_type_x, data_x, label_x, size) == FAILED)
+          return FAILED;
 
         g_source_index = s_parser_source_index;
 
@@ -4660,8 +4681,10 @@ int evaluate_token(void) {
         _output_assembled_instruction(s_instruction_tmp, "y%d ", opcode);
 
         /* emit extra data */
-        _mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size);
-        _mc68000_emit_extra_data(register_x_mode, register_x1, register_x2, data_type_x, data_x, label_x, size);
+        if (_mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size) == FAILED)
+          return FAILED;
+        if (_mc68000_emit_extra_data(register_x_mode, register_x1, register_x2, data_type_x, data_x, label_x, size) == FAILED)
+          return FAILED;
 
         g_source_index = s_parser_source_index;
 
@@ -4766,7 +4789,8 @@ int evaluate_token(void) {
         _output_assembled_instruction(s_instruction_tmp, "y%d ", opcode);
 
         /* emit extra data */
-        _mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size);
+        if (_mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size) == FAILED)
+          return FAILED;
 
         g_source_index = s_parser_source_index;
 
@@ -4834,7 +4858,8 @@ int evaluate_token(void) {
         _output_assembled_instruction(s_instruction_tmp, "y%d ", opcode);
 
         /* emit extra data */
-        _mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size);
+        if (_mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size) == FAILED)
+          return FAILED;
 
         g_source_index = s_parser_source_index;
 
@@ -4896,7 +4921,8 @@ int evaluate_token(void) {
         _output_assembled_instruction(s_instruction_tmp, "y%d ", opcode);
 
         /* emit extra data */
-        _mc68000_emit_extra_data(register_x_mode, register_x1, register_x2, data_type_x, data_x, label_x, size);
+        if (_mc68000_emit_extra_data(register_x_mode, register_x1, register_x2, data_type_x, data_x, label_x, size) == FAILED)
+          return FAILED;
 
         g_source_index = s_parser_source_index;
 
@@ -4952,7 +4978,8 @@ int evaluate_token(void) {
         _output_assembled_instruction(s_instruction_tmp, "y%d ", opcode);
 
         /* emit extra data */
-        _mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size);
+        if (_mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size) == FAILED)
+          return FAILED;
 
         g_source_index = s_parser_source_index;
 
@@ -4999,7 +5026,8 @@ int evaluate_token(void) {
         _output_assembled_instruction(s_instruction_tmp, "y%d ", opcode);
 
         /* emit extra data */
-        _mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size);
+        if (_mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size) == FAILED)
+          return FAILED;
 
         g_source_index = s_parser_source_index;
 
@@ -5222,7 +5250,8 @@ int evaluate_token(void) {
           _output_assembled_instruction(s_instruction_tmp, "y%d ", opcode);
 
           /* emit extra data */
-          _mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size);
+          if (_mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size) == FAILED)
+            return FAILED;
 
           g_source_index = s_parser_source_index;
 
@@ -5247,7 +5276,8 @@ int evaluate_token(void) {
           _output_assembled_instruction(s_instruction_tmp, "y%d ", opcode);
 
           /* emit extra data */
-          _mc68000_emit_extra_data(register_x_mode, register_x1, register_x2, data_type_x, data_x, label_x, size);
+          if (_mc68000_emit_extra_data(register_x_mode, register_x1, register_x2, data_type_x, data_x, label_x, size) == FAILED)
+            return FAILED;
 
           g_source_index = s_parser_source_index;
 
@@ -5272,7 +5302,8 @@ int evaluate_token(void) {
           _output_assembled_instruction(s_instruction_tmp, "y%d ", opcode);
 
           /* emit extra data */
-          _mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size);
+          if (_mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size) == FAILED)
+            return FAILED;
 
           g_source_index = s_parser_source_index;
 
@@ -5294,7 +5325,8 @@ int evaluate_token(void) {
           _output_assembled_instruction(s_instruction_tmp, "y%d ", opcode);
 
           /* emit extra data */
-          _mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size);
+          if (_mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size) == FAILED)
+            return FAILED;
 
           g_source_index = s_parser_source_index;
 
@@ -5316,7 +5348,8 @@ int evaluate_token(void) {
           _output_assembled_instruction(s_instruction_tmp, "y%d ", opcode);
 
           /* emit extra data */
-          _mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size);
+          if (_mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size) == FAILED)
+            return FAILED;
 
           g_source_index = s_parser_source_index;
 
@@ -5440,8 +5473,10 @@ int evaluate_token(void) {
         _output_assembled_instruction(s_instruction_tmp, "y%d ", opcode);
 
         /* emit extra data */
-        _mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size);
-        _mc68000_emit_extra_data(register_x_mode, register_x1, register_x2, data_type_x, data_x, label_x, size);
+        if (_mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size) == FAILED)
+          return FAILED;
+        if (_mc68000_emit_extra_data(register_x_mode, register_x1, register_x2, data_type_x, data_x, label_x, size) == FAILED)
+          return FAILED;
 
         g_source_index = s_parser_source_index;
 
@@ -5520,8 +5555,10 @@ int evaluate_token(void) {
         _output_assembled_instruction(s_instruction_tmp, "y%d ", opcode);
 
         /* emit extra data */
-        _mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size);
-        _mc68000_emit_extra_data(register_x_mode, register_x1, register_x2, data_type_x, data_x, label_x, size);
+        if (_mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size) == FAILED)
+          return FAILED;
+        if (_mc68000_emit_extra_data(register_x_mode, register_x1, register_x2, data_type_x, data_x, label_x, size) == FAILED)
+          return FAILED;
 
         g_source_index = s_parser_source_index;
 
@@ -5619,7 +5656,8 @@ int evaluate_token(void) {
           _output_assembled_instruction(s_instruction_tmp, "y%d ", register_y1);
                     
           /* emit extra data */
-          _mc68000_emit_extra_data(register_x_mode, register_x1, register_x2, data_type_x, data_x, label_x, size);
+          if (_mc68000_emit_extra_data(register_x_mode, register_x1, register_x2, data_type_x, data_x, label_x, size) == FAILED)
+            return FAILED;
         }
         /* register target? */
         else if (register_x_mode == B8(00001011)) {
@@ -5646,7 +5684,8 @@ int evaluate_token(void) {
           _output_assembled_instruction(s_instruction_tmp, "y%d ", register_x1);
           
           /* emit extra data */
-          _mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size);
+          if (_mc68000_emit_extra_data(register_y_mode, register_y1, register_y2, data_type_y, data_y, label_y, size) == FAILED)
+            return FAILED;
         }
         else {
           print_error(ERROR_NUM, "Invalid addressing mode.\n");
-- 
2.43.0


From aa1899fef62a1f0a03ea45208db8dbabf26984e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:13 +0000
Subject: [PATCH 15/57] fix: an 8-bit immediate label operand of a 68000
 instruction is not a relative reference

---
 decode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decode.c b/decode.c
index 75cc173..79c7a2d 100644
--- a/decode.c
+++ b/decode.c
@@ -302,7 +302,7 @@ static int _mc68000_emit_extra_data(int mode, int reg1, int reg2, int data_type,
       if (data_type == SUCCEEDED)
         _output_assembled_instruction(s_instruction_tmp, "d0 d%d ", data);
       else if (data_type == INPUT_NUMBER_ADDRESS_LABEL)
-        _output_assembled_instruction(s_instruction_tmp, "k%d d0 R%s ", g_active_file_info_last->line_current, label);
+        _output_assembled_instruction(s_instruction_tmp, "k%d d0 Q%s ", g_active_file_info_last->line_current, label);
       else
         _output_assembled_instruction(s_instruction_tmp, "d0 c%d ", data);
     }
-- 
2.43.0


From 1bf41beb1af4abcbc7b39bef3fce02ad787a0607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:42 +0000
Subject: [PATCH 16/57] fix: a failing path construction in .BACKGROUND and
 .STRINGMAPTABLE fails the assembly

---
 phase_1.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/phase_1.c b/phase_1.c
index f5171a2..f26b9c6 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -7118,7 +7118,8 @@ int directive_background(void) {
     return FAILED;
   }
 
-  create_full_name(g_include_dir, g_label);
+  if (create_full_name(g_include_dir, g_label) == FAILED)
+    return FAILED;
 
   /* convert the path to local enviroment */
   localize_path(g_full_name);
@@ -10723,7 +10724,8 @@ int directive_stringmaptable(void) {
   }
 
   /* apply any include dir and convert the path to local enviroment */
-  create_full_name(g_include_dir, g_label);
+  if (create_full_name(g_include_dir, g_label) == FAILED)
+    return FAILED;
   localize_path(g_full_name);
 
   map->filename = _string_duplicate(g_full_name);
-- 
2.43.0


From 0d2f7dbea6bdd3c9f72b42f67cf8cb52b7d2d9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:58 +0000
Subject: [PATCH 17/57] hook: the C standard is the CMake option WLA_STRICT_C90
 (-ansi), C99 by default

The check of the verification machinery appends // comments and statements
before declarations to the sources; -ansi -pedantic-errors refuses both.
---
 CMakeLists.txt | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/CMakeLists.txt b/CMakeLists.txt
index 152a17a..a93e8a1 100644
--- a/CMakeLists.txt
+++ b/CMakeLists.txt
@@ -50,8 +50,14 @@ set(CMAKE_C_STANDARD 90)
 set(CMAKE_C_EXTENSIONS OFF)
 
 if(CMAKE_C_COMPILER_ID MATCHES "GNU|Clang")
-    set(CMAKE_C_STANDARD) # Empty because we use -ansi
-    set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -pedantic-errors -Wall -Wextra -ansi")
+    # WLA_STRICT_C90: refuse // comments and statements before declarations
+    option(WLA_STRICT_C90 "Compile with -ansi" OFF)
+    set(CMAKE_C_STANDARD) # Empty because we use -ansi or -std
+    if(WLA_STRICT_C90)
+        set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -pedantic-errors -Wall -Wextra -ansi")
+    else()
+        set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -pedantic-errors -Wall -Wextra -std=c99")
+    endif()
     string(REPLACE "-O2" "-O3" CMAKE_C_FLAGS_RELEASE "${CMAKE_C_FLAGS_RELEASE}")
     if(CMAKE_C_COMPILER_ID MATCHES "Clang" AND
             CMAKE_C_COMPILER_VERSION VERSION_LESS 3.8)
-- 
2.43.0


From d9f5e1fb65f220de5aacda68bc0185d571c6d620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:36 +0000
Subject: [PATCH 18/57] fix: listfile_collect() reads the name of a namespace
 record

With -i every .INCLUDE ... NAMESPACE made the characters of the namespace be
taken as records of the internal data stream.
---
 listfile.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/listfile.c b/listfile.c
index f570b84..bcdb947 100644
--- a/listfile.c
+++ b/listfile.c
@@ -392,9 +392,16 @@ int listfile_collect(void) {
       continue;
 
     case 't':
-      err = fscanf(g_file_out_ptr, "%*s ");
-      if (err < 0)
+      err = fscanf(g_file_out_ptr, "%d ", &inz);
+      if (err < 1)
         return _print_fscanf_error_accessing_internal_data_stream(file_name_id, line_number);
+
+      /* skip the namespace */
+      if (inz != 0) {
+        err = fscanf(g_file_out_ptr, "%*s ");
+        if (err < 0)
+          return _print_fscanf_error_accessing_internal_data_stream(file_name_id, line_number);
+      }
       continue;
       
     case 'Y':
-- 
2.43.0


From acd3586b26d1d1817f2c9bc609156a094801e324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:11 +0000
Subject: [PATCH 19/57] fix: listfile_collect() knows 16-bit PC relative
 references on every CPU (wla-65ce02 -i failed)

---
 listfile.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/listfile.c b/listfile.c
index bcdb947..ca0efe0 100644
--- a/listfile.c
+++ b/listfile.c
@@ -269,9 +269,7 @@ int listfile_collect(void) {
     case '.':
       continue;
 
-#if defined(W65816)
     case 'M':
-#endif
     case 'r':
       err = fscanf(g_file_out_ptr, "%*s ");
       if (err < 0)
-- 
2.43.0


From e61c9f5addf04e22a3b1bcebe55a22a790b734d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:24 +0000
Subject: [PATCH 20/57] fix: data_stream_parser_parse() accepts the byte order
 record of Z80N's PUSH label

---
 stack.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stack.c b/stack.c
index 5af6523..11c458d 100644
--- a/stack.c
+++ b/stack.c
@@ -5141,6 +5141,9 @@ int data_stream_parser_parse(void) {
       s_dsp_add++;
       continue;
 
+    case '.':
+      continue;
+
     case 'M':
     case 'r':
       err = fscanf(g_file_out_ptr, STRING_READ_FORMAT, temp_s);
-- 
2.43.0


From 1061e4857a0b248f1bcf45c03bfcf72070f7ce8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:25 +0000
Subject: [PATCH 21/57] fix: the address-to-line mapping of the symbol file
 reads the list file items with their size of five

---
 wlalink/write.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wlalink/write.c b/wlalink/write.c
index 737c20c..932c19a 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -2669,14 +2669,14 @@ int write_symbol_file(char *outname, int mode, int output_addr_to_line) {
           list_cmd = s->listfile_cmds[list_cmd_idx];
           if (list_cmd == 'k') {
             /* new line */
-            if (s->listfile_ints[list_cmd_idx * 3 + 1] > 0) {
-              fprintf(f, "%.8x %.2x:%.4x %.4x %.4x:%.4x:%.8lx\n", s->output_address + list_address_offset, s->bank + s->base, s->address + list_address_offset, g_slots[s->slot].address + s->address + list_address_offset, s->file_id + 1, list_source_file, (long unsigned int)s->listfile_ints[list_cmd_idx * 3 + 0]);
-              list_address_offset += s->listfile_ints[list_cmd_idx * 3 + 1];
+            if (s->listfile_ints[list_cmd_idx * 5 + 1] > 0) {
+              fprintf(f, "%.8x %.2x:%.4x %.4x %.4x:%.4x:%.8lx\n", s->output_address + list_address_offset, s->bank + s->base, s->address + list_address_offset, g_slots[s->slot].address + s->address + list_address_offset, s->file_id + 1, list_source_file, (long unsigned int)s->listfile_ints[list_cmd_idx * 5 + 0]);
+              list_address_offset += s->listfile_ints[list_cmd_idx * 5 + 1];
             }
           }
           else if (list_cmd == 'f') {
             /* another file */
-            list_source_file = s->listfile_ints[list_cmd_idx * 3 + 0];
+            list_source_file = s->listfile_ints[list_cmd_idx * 5 + 0];
           }
         }
         s = s->next;
-- 
2.43.0


From e8d0aa5aaad845cedda8b18bfd9afa4912b5a4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:24 +0000
Subject: [PATCH 22/57] fix: the byte count of .BITS restarts when a byte is
 complete, not when eight bits are added

---
 listfile.c | 2 +-
 phase_3.c  | 4 ++--
 stack.c    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/listfile.c b/listfile.c
index ca0efe0..a7e832d 100644
--- a/listfile.c
+++ b/listfile.c
@@ -314,7 +314,7 @@ int listfile_collect(void) {
             add++;
             origin++;
           }
-          if (bits_to_add == 8)
+          if (bits_current == 8)
             bits_current = 0;
         }
 
diff --git a/phase_3.c b/phase_3.c
index e4fd944..dba7efa 100644
--- a/phase_3.c
+++ b/phase_3.c
@@ -303,7 +303,7 @@ int phase_3(void) {
               bits_current -= 8;
               address++;
             }
-            if (bits_to_add == 8)
+            if (bits_current == 8)
               bits_current = 0;
           }
 
@@ -999,7 +999,7 @@ int phase_3(void) {
             bits_current -= 8;
             address++;
           }
-          if (bits_to_add == 8)
+          if (bits_current == 8)
             bits_current = 0;
         }
 
diff --git a/stack.c b/stack.c
index 11c458d..93c6fa8 100644
--- a/stack.c
+++ b/stack.c
@@ -5198,7 +5198,7 @@ int data_stream_parser_parse(void) {
             s_dsp_bits_current -= 8;
             s_dsp_add++;
           }
-          if (bits_to_add == 8)
+          if (s_dsp_bits_current == 8)
             s_dsp_bits_current = 0;
         }
 
-- 
2.43.0


From e7a57c00c1bf8c911f058e2264eaf7f0f8b90a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:14 +0000
Subject: [PATCH 23/57] fix: an 8-bit reference to a definition is range
 checked with its whole value

A reference to a definition was masked with $FFFF before its range was checked: $10005 silently became 5, and -5 was rejected.
---
 wlalink/write.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wlalink/write.c b/wlalink/write.c
index 932c19a..74a337b 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -2192,7 +2192,7 @@ int fix_references(void) {
       }
       /* direct / relative 8-bit with a value definition */
       else if (l->status == LABEL_STATUS_DEFINE && (r->type == REFERENCE_TYPE_DIRECT_8BIT || r->type == REFERENCE_TYPE_RELATIVE_8BIT)) {
-        i = ((int)l->address) & 0xFFFF;
+        i = (int)l->address;
         if (i > 255 || i < -128) {
           print_text(NO, "%s: %s:%d: FIX_REFERENCES: Value ($%x) of \"%s\" is too much to be a 8-bit value.\n",
                   get_file_name(r->file_id), get_source_file_name(r->file_id, r->file_id_source), r->linenumber, i, l->name);
@@ -2303,8 +2303,8 @@ int fix_references(void) {
           return FAILED;
       }
       else {
-        i = ((int)l->address) & 0xFFFF;
-        if (i > 255) {
+        i = (int)l->address;
+        if (i > 255 || i < -128) {
           print_text(NO, "%s: %s:%d: FIX_REFERENCES: Value ($%x) of \"%s\" is too much to be a 8-bit value.\n",
                   get_file_name(r->file_id), get_source_file_name(r->file_id, r->file_id_source), r->linenumber, i, l->name);
           return FAILED;
-- 
2.43.0


From 95b53f1ee7ed95016dd7a0dd85142b88ea2afa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:14 +0000
Subject: [PATCH 24/57] fix: an RST to an external definition is encoded

.define X $10 in one file and rst X in another wrote the byte $10 instead of the opcode $D7.
---
 wlalink/write.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/wlalink/write.c b/wlalink/write.c
index 74a337b..df3c784 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -2198,6 +2198,13 @@ int fix_references(void) {
                   get_file_name(r->file_id), get_source_file_name(r->file_id, r->file_id_source), r->linenumber, i, l->name);
           return FAILED;
         }
+        
+        /* special case ID handling! */
+        if (r->special_id > 0 && r->special_id != 4) {
+          if (_handle_special_case(r->special_id, r->file_id, r->file_id_source, r->linenumber, i, &i) == FAILED)
+            return FAILED;
+        }
+
         if (mem_insert_ref(x, i & 0xFF) == FAILED)
           return FAILED;
       }
-- 
2.43.0


From 2e2113c757b317f73aa6e208d17cf99086fa7bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:14 +0000
Subject: [PATCH 25/57] fix: 16-bit and 24-bit references to definitions are
 range checked

A definition from another file which did not fit was truncated silently; a calculation with it, and the same definition in the same file, are errors.
---
 wlalink/write.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/wlalink/write.c b/wlalink/write.c
index df3c784..7be4081 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -2141,6 +2141,12 @@ int fix_references(void) {
       if (r->type == REFERENCE_TYPE_DIRECT_16BIT) {
         i = (int)l->address;
 
+        if (l->status == LABEL_STATUS_DEFINE && (i > 65535 || i < -32768)) {
+          print_text(NO, "%s: %s:%d: FIX_REFERENCES: Value ($%x) of \"%s\" is too much to be a 16-bit value.\n",
+                  get_file_name(r->file_id), get_source_file_name(r->file_id, r->file_id_source), r->linenumber, i, l->name);
+          return FAILED;
+        }
+
         /* special case ID handling! */
         if (r->special_id == 4) {
           /* flip endianess */
@@ -2211,6 +2217,11 @@ int fix_references(void) {
       /* direct 24-bit */
       else if (r->type == REFERENCE_TYPE_DIRECT_24BIT) {
         i = (int)l->address;
+        if (l->status == LABEL_STATUS_DEFINE && (i > 16777215 || i < -8388608)) {
+          print_text(NO, "%s: %s:%d: FIX_REFERENCES: Value ($%x) of \"%s\" is too much to be a 24-bit value.\n",
+                  get_file_name(r->file_id), get_source_file_name(r->file_id, r->file_id_source), r->linenumber, i, l->name);
+          return FAILED;
+        }
         if (l->status == LABEL_STATUS_LABEL)
           i += get_snes_pc_bank(l);
         if (get_file(r->file_id)->little_endian == YES) {
@@ -4267,6 +4278,11 @@ int write_bank_header_references(struct reference *r) {
     a = (int)l->address;
     /* direct 16-bit */
     if (r->type == REFERENCE_TYPE_DIRECT_16BIT) {
+      if (l->status == LABEL_STATUS_DEFINE && (a > 65535 || a < -32768)) {
+        print_text(NO, "%s: %s:%d: WRITE_BANK_HEADER_REFERENCES: Value (%d/$%x) of \"%s\" is too much to be a 16-bit value.\n",
+                get_file_name(r->file_id), get_source_file_name(r->file_id, r->file_id_source), r->linenumber, a, a, l->name);
+        return FAILED;
+      }
       if (get_file(r->file_id)->little_endian == YES) {
         *t = a & 0xFF;
         t++;
@@ -4314,6 +4330,11 @@ int write_bank_header_references(struct reference *r) {
     }
     /* direct 24-bit */
     else if (r->type == REFERENCE_TYPE_DIRECT_24BIT) {
+      if (l->status == LABEL_STATUS_DEFINE && (a > 16777215 || a < -8388608)) {
+        print_text(NO, "%s: %s:%d: WRITE_BANK_HEADER_REFERENCES: Value (%d/$%x) of \"%s\" is too much to be a 24-bit value.\n",
+                get_file_name(r->file_id), get_source_file_name(r->file_id, r->file_id_source), r->linenumber, a, a, l->name);
+        return FAILED;
+      }
       if (l->status == LABEL_STATUS_LABEL)
         a += get_snes_pc_bank(l);
       if (get_file(r->file_id)->little_endian == YES) {
-- 
2.43.0


From 316952f6609376f333d500c568736b76457e2581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:12 +0000
Subject: [PATCH 26/57] fix: an object file without an SMS header does not move
 the header to address 0

---
 phase_4.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/phase_4.c b/phase_4.c
index 6f1133b..dbf8004 100644
--- a/phase_4.c
+++ b/phase_4.c
@@ -2229,6 +2229,8 @@ int write_object_file(void) {
 #else
   ov = 0;
   WRITEOUT_OV;
+  /* no sms ROM header base address */
+  ov = -1;
   WRITEOUT_OV;
 #endif
 
-- 
2.43.0


From 544fab051a6bf62080635f82f392343d333a5c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:12 +0000
Subject: [PATCH 27/57] fix: a slot of size 0 is written into the object file
 as the linker expects it

---
 phase_4.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/phase_4.c b/phase_4.c
index dbf8004..d1902d5 100644
--- a/phase_4.c
+++ b/phase_4.c
@@ -2255,16 +2255,14 @@ int write_object_file(void) {
   fprintf(final_ptr, "%c", g_slots_amount);
 
   for (i = 0; i < g_slots_amount; i++) {
-    if (g_slots[i].size != 0) {
-      ov = g_slots[i].address;
-      WRITEOUT_OV;
-      ov = g_slots[i].size;
-      WRITEOUT_OV;
-      if (g_slots[i].name[0] == 0x0)
-        fprintf(final_ptr, "%c", 0x0);
-      else
-        fprintf(final_ptr, "%s%c", g_slots[i].name, 0x0);
-    }
+    ov = g_slots[i].address;
+    WRITEOUT_OV;
+    ov = g_slots[i].size;
+    WRITEOUT_OV;
+    if (g_slots[i].name[0] == 0x0)
+      fprintf(final_ptr, "%c", 0x0);
+    else
+      fprintf(final_ptr, "%s%c", g_slots[i].name, 0x0);
   }
 
   /* source file names */
-- 
2.43.0


From e9fc82cc0d490d89ea0d61774e00dd3b6d847d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 28/57] fix: 65816 COP without an operand has its opcode first

---
 i65816.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/i65816.c b/i65816.c
index 60de61e..5b8272e 100644
--- a/i65816.c
+++ b/i65816.c
@@ -214,7 +214,7 @@ struct instruction g_instructions_table[] = {
   { "COP <x", 0x02, 0xA, 0 },
   { "COP x", 0x02, 0xA, 0 },
   { "COP.B x", 0x02, 0xA, 0 },
-  { "COP", 0x0200, 8, 0 },
+  { "COP", 0x0002, 8, 0 },
 
   { "CPX #x", 0xE0, 7, 0 },
   { "CPX <x", 0xE4, 0xA, 0 },
-- 
2.43.0


From 2ecb9497c34969cd6d7a84b5817e45005556d780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 29/57] fix: 8008 LMI has the opcode 3E

---
 i8008.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/i8008.c b/i8008.c
index 206b568..274f65c 100644
--- a/i8008.c
+++ b/i8008.c
@@ -141,7 +141,7 @@ struct instruction g_instructions_table[] = {
   { "LMD", 0xFB, 0, 0 },
   { "LME", 0xFC, 0, 0 },
   { "LMH", 0xFD, 0, 0 },
-  { "LMI x", 0x2E, 1, 0 },
+  { "LMI x", 0x3E, 1, 0 },
   { "LML", 0xFE, 0, 0 },
 
   { "NDA", 0xA0, 0, 0 },
-- 
2.43.0


From ac3f6fbbbff388072811f76dbe8c2c444b186b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 30/57] fix: STZ.W with X takes a 16-bit address and has the
 opcode 9E

---
 i65c02.c   | 2 +-
 i65ce02.c  | 4 ++--
 ihuc6280.c | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/i65c02.c b/i65c02.c
index 2a96f2c..966a6aa 100644
--- a/i65c02.c
+++ b/i65c02.c
@@ -376,7 +376,7 @@ struct instruction g_instructions_table[] = {
   { "STZ x", 0x64, 4, 1 },
   { "STZ ?", 0x9C, 2, 0 },
   { "STZ.B x,X", 0x74, 4, 0 },
-  { "STZ.W x,X", 0x94, 2, 0 },
+  { "STZ.W ?,X", 0x9E, 2, 0 },
   { "STZ.B x", 0x64, 4, 0 },
   { "STZ.W ?", 0x9C, 2, 0 },
 
diff --git a/i65ce02.c b/i65ce02.c
index 68f0d03..50aa2b8 100644
--- a/i65ce02.c
+++ b/i65ce02.c
@@ -51,7 +51,7 @@ struct instruction g_instructions_table[] = {
   { "ASL", 0x0A, 0, 0 },
 
   { "ASR A", 0x43, 0, 0 },
-  { "ASL x,X", 0x54, 4, 0 },
+  { "ASR x,X", 0x54, 4, 0 },
   { "ASR x", 0x44, 4, 0 },
   { "ASR", 0x43, 0, 0 },
 
@@ -446,7 +446,7 @@ struct instruction g_instructions_table[] = {
   { "STZ x", 0x64, 4, 1 },
   { "STZ ?", 0x9C, 2, 0 },
   { "STZ.B x,X", 0x74, 4, 0 },
-  { "STZ.W x,X", 0x94, 2, 0 },
+  { "STZ.W ?,X", 0x9E, 2, 0 },
   { "STZ.B x", 0x64, 4, 0 },
   { "STZ.W ?", 0x9C, 2, 0 },
 
diff --git a/ihuc6280.c b/ihuc6280.c
index b47f9c4..8625d74 100644
--- a/ihuc6280.c
+++ b/ihuc6280.c
@@ -382,7 +382,7 @@ struct instruction g_instructions_table[] = {
   { "STZ x", 0x64, 7, 1 },
   { "STZ ?", 0x9C, 2, 0 },
   { "STZ.B x,X", 0x74, 7, 0 },
-  { "STZ.W x,X", 0x94, 2, 0 },
+  { "STZ.W ?,X", 0x9E, 2, 0 },
   { "STZ.B x", 0x64, 7, 0 },
   { "STZ.W ?", 0x9C, 2, 0 },
 
-- 
2.43.0


From 141efe65938808f64ceb8b93f26d97c150a6374a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 31/57] fix: 6809 immediates of 16-bit registers are 16 bits
 wide

---
 i6809.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/i6809.c b/i6809.c
index 54928a6..ce24bcf 100644
--- a/i6809.c
+++ b/i6809.c
@@ -355,7 +355,7 @@ struct instruction g_instructions_table[] = {
   { "ADDB x", 0xDB, 4, 1, 0 },
   { "ADDB ?", 0xFB, 2, 0, 0 },
 
-  { "ADDD #x", 0xC3, 1, 0, 0 },
+  { "ADDD #?", 0xC3, 2, 0, 0 },
   { "ADDD,X", 0xE3, 9, 0, B_(10000100) },
   { "ADDD,Y", 0xE3, 9, 0, B_(10100100) },
   { "ADDD,U", 0xE3, 9, 0, B_(11000100) },
@@ -1230,7 +1230,7 @@ struct instruction g_instructions_table[] = {
   { "CMPB x", 0xD1, 4, 1, 0 },
   { "CMPB ?", 0xF1, 2, 0, 0 },
 
-  { "CMPX #x", 0x8C, 1, 0, 0 },
+  { "CMPX #?", 0x8C, 2, 0, 0 },
   { "CMPX,X", 0xAC, 9, 0, B_(10000100) },
   { "CMPX,Y", 0xAC, 9, 0, B_(10100100) },
   { "CMPX,U", 0xAC, 9, 0, B_(11000100) },
@@ -1315,7 +1315,7 @@ struct instruction g_instructions_table[] = {
   { "CMPX x", 0x9C, 4, 1, 0 },
   { "CMPX ?", 0xBC, 2, 0, 0 },
 
-  { "CMPD #x", 0x1083, 1, 0, 0 },
+  { "CMPD #?", 0x1083, 2, 0, 0 },
   { "CMPD,X", 0x10A3, 9, 0, B_(10000100) },
   { "CMPD,Y", 0x10A3, 9, 0, B_(10100100) },
   { "CMPD,U", 0x10A3, 9, 0, B_(11000100) },
@@ -1400,7 +1400,7 @@ struct instruction g_instructions_table[] = {
   { "CMPD x", 0x1093, 4, 1, 0 },
   { "CMPD ?", 0x10B3, 2, 0, 0 },
 
-  { "CMPS #x", 0x118C, 1, 0, 0 },
+  { "CMPS #?", 0x118C, 2, 0, 0 },
   { "CMPS,X", 0x11AC, 9, 0, B_(10000100) },
   { "CMPS,Y", 0x11AC, 9, 0, B_(10100100) },
   { "CMPS,U", 0x11AC, 9, 0, B_(11000100) },
@@ -1485,7 +1485,7 @@ struct instruction g_instructions_table[] = {
   { "CMPS x", 0x119C, 4, 1, 0 },
   { "CMPS ?", 0x11BC, 2, 0, 0 },
 
-  { "CMPU #x", 0x1183, 1, 0, 0 },
+  { "CMPU #?", 0x1183, 2, 0, 0 },
   { "CMPU,X", 0x11A3, 9, 0, B_(10000100) },
   { "CMPU,Y", 0x11A3, 9, 0, B_(10100100) },
   { "CMPU,U", 0x11A3, 9, 0, B_(11000100) },
@@ -1570,7 +1570,7 @@ struct instruction g_instructions_table[] = {
   { "CMPU x", 0x1193, 4, 1, 0 },
   { "CMPU ?", 0x11B3, 2, 0, 0 },
 
-  { "CMPY #x", 0x108C, 1, 0, 0 },
+  { "CMPY #?", 0x108C, 2, 0, 0 },
   { "CMPY,X", 0x10AC, 9, 0, B_(10000100) },
   { "CMPY,Y", 0x10AC, 9, 0, B_(10100100) },
   { "CMPY,U", 0x10AC, 9, 0, B_(11000100) },
@@ -2447,7 +2447,7 @@ struct instruction g_instructions_table[] = {
   { "LDB x", 0xD6, 4, 1, 0 },
   { "LDB ?", 0xF6, 2, 0, 0 },
 
-  { "LDD #x", 0xCC, 1, 0, 0 },
+  { "LDD #?", 0xCC, 2, 0, 0 },
   { "LDD,X", 0xEC, 9, 0, B_(10000100) },
   { "LDD,Y", 0xEC, 9, 0, B_(10100100) },
   { "LDD,U", 0xEC, 9, 0, B_(11000100) },
@@ -2532,7 +2532,7 @@ struct instruction g_instructions_table[] = {
   { "LDD x", 0xDC, 4, 1, 0 },
   { "LDD ?", 0xFC, 2, 0, 0 },
 
-  { "LDS #x", 0x10CE, 1, 0, 0 },
+  { "LDS #?", 0x10CE, 2, 0, 0 },
   { "LDS,X", 0x10EE, 9, 0, B_(10000100) },
   { "LDS,Y", 0x10EE, 9, 0, B_(10100100) },
   { "LDS,U", 0x10EE, 9, 0, B_(11000100) },
@@ -2617,7 +2617,7 @@ struct instruction g_instructions_table[] = {
   { "LDS x", 0x10DE, 4, 1, 0 },
   { "LDS ?", 0x10FE, 2, 0, 0 },
 
-  { "LDU #x", 0xCE, 1, 0, 0 },
+  { "LDU #?", 0xCE, 2, 0, 0 },
   { "LDU,X", 0xEE, 9, 0, B_(10000100) },
   { "LDU,Y", 0xEE, 9, 0, B_(10100100) },
   { "LDU,U", 0xEE, 9, 0, B_(11000100) },
@@ -2702,7 +2702,7 @@ struct instruction g_instructions_table[] = {
   { "LDU x", 0xDE, 4, 1, 0 },
   { "LDU ?", 0xFE, 2, 0, 0 },
 
-  { "LDX #x", 0x8E, 1, 0, 0 },
+  { "LDX #?", 0x8E, 2, 0, 0 },
   { "LDX,X", 0xAE, 9, 0, B_(10000100) },
   { "LDX,Y", 0xAE, 9, 0, B_(10100100) },
   { "LDX,U", 0xAE, 9, 0, B_(11000100) },
@@ -2787,7 +2787,7 @@ struct instruction g_instructions_table[] = {
   { "LDX x", 0x9E, 4, 1, 0 },
   { "LDX ?", 0xBE, 2, 0, 0 },
 
-  { "LDY #x", 0x108E, 1, 0, 0 },
+  { "LDY #?", 0x108E, 2, 0, 0 },
   { "LDY,X", 0x10AE, 9, 0, B_(10000100) },
   { "LDY,Y", 0x10AE, 9, 0, B_(10100100) },
   { "LDY,U", 0x10AE, 9, 0, B_(11000100) },
@@ -4744,7 +4744,7 @@ struct instruction g_instructions_table[] = {
   { "SUBB x", 0xD0, 4, 1, 0 },
   { "SUBB ?", 0xF0, 2, 0, 0 },
 
-  { "SUBD #x", 0x83, 1, 0, 0 },
+  { "SUBD #?", 0x83, 2, 0, 0 },
   { "SUBD,X", 0xA3, 9, 0, B_(10000100) },
   { "SUBD,Y", 0xA3, 9, 0, B_(10100100) },
   { "SUBD,U", 0xA3, 9, 0, B_(11000100) },
-- 
2.43.0


From ff6692cf532255fbb43165cd0dfc91f5fc196377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 32/57] fix: 6801 immediates of the register D are 16 bits wide

---
 i6801.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/i6801.c b/i6801.c
index 1ef5b36..d620206 100644
--- a/i6801.c
+++ b/i6801.c
@@ -30,7 +30,7 @@ struct instruction g_instructions_table[] = {
   { "ADDB x,X", 0xEB, 4, 1 },
   { "ADDB x", 0xDB, 4, 1 },
   { "ADDB ?", 0xFB, 2, 0 },
-  { "ADDD #x", 0xC3, 1, 0 },                  
+  { "ADDD #?", 0xC3, 2, 0 },                  
   { "ADDD x,X", 0xE3, 4, 1 },
   { "ADDD x", 0xD3, 4, 1 },
   { "ADDD ?", 0xF3, 2, 0 },
@@ -43,7 +43,7 @@ struct instruction g_instructions_table[] = {
   { "ADDB.B x,X", 0xEB, 4, 1 },
   { "ADDB.B x", 0xDB, 4, 1 },
   { "ADDB.W ?", 0xFB, 2, 0 },
-  { "ADDD.B #x", 0xC3, 1, 0 },                
+  { "ADDD.W #?", 0xC3, 2, 0 },                
   { "ADDD.B x,X", 0xE3, 4, 1 },
   { "ADDD.B x", 0xD3, 4, 1 },
   { "ADDD.W ?", 0xF3, 2, 0 },
@@ -255,7 +255,7 @@ struct instruction g_instructions_table[] = {
   { "LDAB x,X", 0xE6, 4, 1 },
   { "LDAB x", 0xD6, 4, 1 },
   { "LDAB ?", 0xF6, 2, 0 },
-  { "LDD #x", 0xCC, 1, 0 },                   
+  { "LDD #?", 0xCC, 2, 0 },                   
   { "LDD x,X", 0xEC, 4, 1 },
   { "LDD x", 0xDC, 4, 1 },
   { "LDD ?", 0xFC, 2, 0 },
@@ -268,7 +268,7 @@ struct instruction g_instructions_table[] = {
   { "LDAB.B x,X", 0xE6, 4, 1 },
   { "LDAB.B x", 0xD6, 4, 1 },
   { "LDAB.W ?", 0xF6, 2, 0 },
-  { "LDD.B #x", 0xCC, 1, 0 },                 
+  { "LDD.W #?", 0xCC, 2, 0 },                 
   { "LDD.B x,X", 0xEC, 4, 1 },
   { "LDD.B x", 0xDC, 4, 1 },
   { "LDD.W ?", 0xFC, 2, 0 },
@@ -435,7 +435,7 @@ struct instruction g_instructions_table[] = {
   { "SUBB x,X", 0xE0, 4, 1 },
   { "SUBB x", 0xD0, 4, 1 },
   { "SUBB ?", 0xF0, 2, 0 },
-  { "SUBD #x", 0x83, 1, 0 },
+  { "SUBD #?", 0x83, 2, 0 },
   { "SUBD x,X", 0xA3, 4, 1 },
   { "SUBD x", 0x93, 4, 1 },
   { "SUBD ?", 0xB3, 2, 0 },
@@ -448,7 +448,7 @@ struct instruction g_instructions_table[] = {
   { "SUBB.B x,X", 0xE0, 4, 1 },
   { "SUBB.B x", 0xD0, 4, 1 },
   { "SUBB.W ?", 0xF0, 2, 0 },
-  { "SUBD.B #x", 0x83, 1, 0 },
+  { "SUBD.W #?", 0x83, 2, 0 },
   { "SUBD.B x,X", 0xA3, 4, 1 },
   { "SUBD.B x", 0x93, 4, 1 },
   { "SUBD.W ?", 0xB3, 2, 0 },
-- 
2.43.0


From 00ae4bd3c55e5668c9413dc90eb5d90c55aed79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 33/57] fix: 6801 LSL x,X has the opcode 68

---
 i6801.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/i6801.c b/i6801.c
index d620206..74c18b2 100644
--- a/i6801.c
+++ b/i6801.c
@@ -296,10 +296,10 @@ struct instruction g_instructions_table[] = {
   { "LSLA", 0x48, 0, 0 },
   { "LSLB", 0x58, 0, 0 },
   { "LSLD", 0x05, 0, 0 },
-  { "LSL x,X", 0x65, 4, 1 },
+  { "LSL x,X", 0x68, 4, 1 },
   { "LSL ?", 0x78, 2, 0 },
 
-  { "LSL.B x,X", 0x65, 4, 1 },
+  { "LSL.B x,X", 0x68, 4, 1 },
   { "LSL.W ?", 0x78, 2, 0 },
 
   { "LSRA", 0x44, 0, 0 },
-- 
2.43.0


From 7758fe3e5fcd50ccea41b1c61bf2454e36223149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 34/57] fix: labels as 8-bit operands are not taken as
 distances outside branches

---
 decode.c | 66 ++++++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 47 insertions(+), 19 deletions(-)

diff --git a/decode.c b/decode.c
index 79c7a2d..599d3b5 100644
--- a/decode.c
+++ b/decode.c
@@ -1225,8 +1225,12 @@ int evaluate_token(void) {
             if (IS_THE_MATCH_COMPLETE(x)) {
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "d%d d%d ", s_instruction_tmp->hex, g_parsed_int);
-              else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "k%d d%d R%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+              else if (z == INPUT_NUMBER_ADDRESS_LABEL) {
+                if (s_instruction_tmp->type == 4)
+                  _output_assembled_instruction(s_instruction_tmp, "k%d d%d R%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+                else
+                  _output_assembled_instruction(s_instruction_tmp, "k%d d%d Q%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+              }
               else {
                 _output_assembled_instruction(s_instruction_tmp, "d%d c%d ", s_instruction_tmp->hex, g_latest_stack);
           
@@ -1450,8 +1454,12 @@ int evaluate_token(void) {
             if (IS_THE_MATCH_COMPLETE(x)) {
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "d%d d%d ", s_instruction_tmp->hex, g_parsed_int);
-              else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "k%d d%d R%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+              else if (z == INPUT_NUMBER_ADDRESS_LABEL) {
+                if (s_instruction_tmp->type == 11)
+                  _output_assembled_instruction(s_instruction_tmp, "k%d d%d R%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+                else
+                  _output_assembled_instruction(s_instruction_tmp, "k%d d%d Q%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+              }
               else {
                 _output_assembled_instruction(s_instruction_tmp, "d%d c%d ", s_instruction_tmp->hex, g_latest_stack);
                 if (s_instruction_tmp->type == 11) {
@@ -1561,7 +1569,7 @@ int evaluate_token(void) {
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "y%d d%d ", s_instruction_tmp->hex, g_parsed_int);
               else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "k%d y%d R%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+                _output_assembled_instruction(s_instruction_tmp, "k%d y%d Q%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
               else
                 _output_assembled_instruction(s_instruction_tmp, "y%d c%d ", s_instruction_tmp->hex, g_latest_stack);
               
@@ -1601,7 +1609,7 @@ int evaluate_token(void) {
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "y%d d%d d%d ", s_instruction_tmp->hex, g_parsed_int, s_instruction_tmp->hex_x);
               else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "k%d y%d R%s d%d ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label, s_instruction_tmp->hex_x);
+                _output_assembled_instruction(s_instruction_tmp, "k%d y%d Q%s d%d ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label, s_instruction_tmp->hex_x);
               else
                 _output_assembled_instruction(s_instruction_tmp, "y%d c%d d%d ", s_instruction_tmp->hex, g_latest_stack, s_instruction_tmp->hex_x);
               
@@ -1712,14 +1720,14 @@ int evaluate_token(void) {
                   if (v == SUCCEEDED)
                     _output_assembled_instruction(s_instruction_tmp, "y%d d%d ", s_instruction_tmp->hex, e);
                   else if (v == INPUT_NUMBER_ADDRESS_LABEL)
-                    _output_assembled_instruction(s_instruction_tmp, "y%d R%s ", s_instruction_tmp->hex, labelx);
+                    _output_assembled_instruction(s_instruction_tmp, "y%d Q%s ", s_instruction_tmp->hex, labelx);
                   else
                     _output_assembled_instruction(s_instruction_tmp, "y%d c%d ", s_instruction_tmp->hex, h);
                   
                   if (z == SUCCEEDED)
                     _output_assembled_instruction(s_instruction_tmp, "d%d ", g_parsed_int);
                   else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                    _output_assembled_instruction(s_instruction_tmp, "R%s ", g_label);
+                    _output_assembled_instruction(s_instruction_tmp, "Q%s ", g_label);
                   else
                     _output_assembled_instruction(s_instruction_tmp, "c%d ", g_latest_stack);
                   
@@ -1825,7 +1833,7 @@ int evaluate_token(void) {
                   if (z == SUCCEEDED)
                     _output_assembled_instruction(s_instruction_tmp, "y%d d%d d%d ", s_instruction_tmp->hex, g_parsed_int, s_instruction_tmp->hex_x);
                   else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                    _output_assembled_instruction(s_instruction_tmp, "k%d y%d R%s d%d ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label, s_instruction_tmp->hex_x);
+                    _output_assembled_instruction(s_instruction_tmp, "k%d y%d Q%s d%d ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label, s_instruction_tmp->hex_x);
                   else
                     _output_assembled_instruction(s_instruction_tmp, "y%d c%d d%d ", s_instruction_tmp->hex, g_latest_stack, s_instruction_tmp->hex_x);
                   
@@ -5753,8 +5761,12 @@ int evaluate_token(void) {
             if (IS_THE_MATCH_COMPLETE(x)) {
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "d%d d%d ", s_instruction_tmp->hex, g_parsed_int);
-              else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "k%d d%d R%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+              else if (z == INPUT_NUMBER_ADDRESS_LABEL) {
+                if (s_instruction_tmp->type == 5)
+                  _output_assembled_instruction(s_instruction_tmp, "k%d d%d R%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+                else
+                  _output_assembled_instruction(s_instruction_tmp, "k%d d%d Q%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+              }
               else {
                 _output_assembled_instruction(s_instruction_tmp, "d%d c%d ", s_instruction_tmp->hex, g_latest_stack);
                 if (s_instruction_tmp->type == 5) {
@@ -5929,8 +5941,12 @@ int evaluate_token(void) {
             if (IS_THE_MATCH_COMPLETE(x)) {
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "d%d d%d ", s_instruction_tmp->hex, g_parsed_int);
-              else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "k%d d%d R%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+              else if (z == INPUT_NUMBER_ADDRESS_LABEL) {
+                if (s_instruction_tmp->type == 5)
+                  _output_assembled_instruction(s_instruction_tmp, "k%d d%d R%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+                else
+                  _output_assembled_instruction(s_instruction_tmp, "k%d d%d Q%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+              }
               else {
                 _output_assembled_instruction(s_instruction_tmp, "d%d c%d ", s_instruction_tmp->hex, g_latest_stack);
                 if (s_instruction_tmp->type == 5) {
@@ -6115,8 +6131,12 @@ int evaluate_token(void) {
         
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "d%d ", g_parsed_int);
-              else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "R%s ", g_label);
+              else if (z == INPUT_NUMBER_ADDRESS_LABEL) {
+                if (s_instruction_tmp->type == 5)
+                  _output_assembled_instruction(s_instruction_tmp, "R%s ", g_label);
+                else
+                  _output_assembled_instruction(s_instruction_tmp, "Q%s ", g_label);
+              }
               else {
                 _output_assembled_instruction(s_instruction_tmp, "c%d ", g_latest_stack);
                 if (s_instruction_tmp->type == 5) {
@@ -6572,8 +6592,12 @@ int evaluate_token(void) {
             if (IS_THE_MATCH_COMPLETE(x)) {
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "d%d d%d ", s_instruction_tmp->hex, g_parsed_int);
-              else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "k%d d%d R%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+              else if (z == INPUT_NUMBER_ADDRESS_LABEL) {
+                if (s_instruction_tmp->type == 4)
+                  _output_assembled_instruction(s_instruction_tmp, "k%d d%d R%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+                else
+                  _output_assembled_instruction(s_instruction_tmp, "k%d d%d Q%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+              }
               else {
                 _output_assembled_instruction(s_instruction_tmp, "d%d c%d ", s_instruction_tmp->hex, g_latest_stack);
           
@@ -6753,8 +6777,12 @@ int evaluate_token(void) {
             if (IS_THE_MATCH_COMPLETE(x)) {
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "d%d d%d ", s_instruction_tmp->hex, g_parsed_int);
-              else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "k%d d%d R%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+              else if (z == INPUT_NUMBER_ADDRESS_LABEL) {
+                if (s_instruction_tmp->type == 4)
+                  _output_assembled_instruction(s_instruction_tmp, "k%d d%d R%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+                else
+                  _output_assembled_instruction(s_instruction_tmp, "k%d d%d Q%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+              }
               else {
                 _output_assembled_instruction(s_instruction_tmp, "d%d c%d ", s_instruction_tmp->hex, g_latest_stack);
           
-- 
2.43.0


From 1da2f382bc5419d93e2ad00a1c143e5ef86fedb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:16 +0000
Subject: [PATCH 35/57] fix: 6809 operands with an index register are not
 distances, those with PCR are in 16 bits, too

---
 decode.c | 46 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/decode.c b/decode.c
index 599d3b5..c06d65f 100644
--- a/decode.c
+++ b/decode.c
@@ -74,6 +74,9 @@ static void _output_assembled_instruction(struct instruction *instruction, const
 
 #if MC6809
 
+/* the post byte of n,PCR and (n,PCR) */
+#define IS_PCR_MODE(bits) (((bits) & 0x8E) == 0x8C)
+
 static char s_error_no_u[] = "Was expecting register X/Y/S/PC/A/B/CC/DP";
 static char s_error_no_s[] = "Was expecting register X/Y/U/PC/A/B/CC/DP";
 
@@ -6349,20 +6352,24 @@ int evaluate_token(void) {
                 
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "d%d d%d ", s_instruction_tmp->addressing_mode_bits, g_parsed_int);
-              else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "d%d R%s ", s_instruction_tmp->addressing_mode_bits, g_label);
+              else if (z == INPUT_NUMBER_ADDRESS_LABEL) {
+                if (IS_PCR_MODE(s_instruction_tmp->addressing_mode_bits))
+                  _output_assembled_instruction(s_instruction_tmp, "d%d R%s ", s_instruction_tmp->addressing_mode_bits, g_label);
+                else
+                  _output_assembled_instruction(s_instruction_tmp, "d%d Q%s ", s_instruction_tmp->addressing_mode_bits, g_label);
+              }
               else {
-                struct stack *stack;
-          
                 _output_assembled_instruction(s_instruction_tmp, "d%d c%d ", s_instruction_tmp->addressing_mode_bits, g_latest_stack);
 
-                /* let's configure the stack so that all label references inside are relative */
-                stack = find_stack_calculation(g_latest_stack, YES);
+                if (IS_PCR_MODE(s_instruction_tmp->addressing_mode_bits)) {
+                  /* PCR -> let's configure the stack so that all label references inside are relative */
+                  struct stack *stack = find_stack_calculation(g_latest_stack, YES);
 
-                if (stack == NULL)
-                  return FAILED;
+                  if (stack == NULL)
+                    return FAILED;
     
-                stack->relative_references = 1;
+                  stack->relative_references = 1;
+                }
               }
         
               g_source_index = s_parser_source_index;
@@ -6404,11 +6411,26 @@ int evaluate_token(void) {
 
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "d%d y%d ", s_instruction_tmp->addressing_mode_bits, g_parsed_int);
-              else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "d%d r%s ", s_instruction_tmp->addressing_mode_bits, g_label);
-              else
+              else if (z == INPUT_NUMBER_ADDRESS_LABEL) {
+                if (IS_PCR_MODE(s_instruction_tmp->addressing_mode_bits))
+                  _output_assembled_instruction(s_instruction_tmp, "d%d M%s ", s_instruction_tmp->addressing_mode_bits, g_label);
+                else
+                  _output_assembled_instruction(s_instruction_tmp, "d%d r%s ", s_instruction_tmp->addressing_mode_bits, g_label);
+              }
+              else {
                 _output_assembled_instruction(s_instruction_tmp, "d%d C%d ", s_instruction_tmp->addressing_mode_bits, g_latest_stack);
 
+                if (IS_PCR_MODE(s_instruction_tmp->addressing_mode_bits)) {
+                  /* PCR -> let's configure the stack so that all label references inside are relative */
+                  struct stack *stack = find_stack_calculation(g_latest_stack, YES);
+
+                  if (stack == NULL)
+                    return FAILED;
+    
+                  stack->relative_references = 1;
+                }
+              }
+
               g_source_index = s_parser_source_index;
               return SUCCEEDED;
             }
-- 
2.43.0


From db2aa6d9466ac2045db98ae6ba76604ffd62eda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:18 +0000
Subject: [PATCH 36/57] fix: 6800, 6801 and 6809 8-bit immediates can be
 128-255

---
 decode.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/decode.c b/decode.c
index c06d65f..d25a370 100644
--- a/decode.c
+++ b/decode.c
@@ -5755,7 +5755,11 @@ int evaluate_token(void) {
 
           if (!(z == SUCCEEDED || z == INPUT_NUMBER_ADDRESS_LABEL || z == INPUT_NUMBER_STACK))
             return FAILED;
-          if (z == SUCCEEDED && (g_parsed_int > 127 || g_parsed_int < -128)) {
+          if (z == SUCCEEDED && s_instruction_tmp->type == 1 && (g_parsed_int > 255 || g_parsed_int < -128)) {
+            print_error(ERROR_NUM, "Out of 8-bit range.\n");
+            return FAILED;
+          }
+          if (z == SUCCEEDED && s_instruction_tmp->type == 5 && (g_parsed_int > 127 || g_parsed_int < -128)) {
             print_error(ERROR_NUM, "Out of signed 8-bit range.\n");
             return FAILED;
           }
@@ -5935,7 +5939,11 @@ int evaluate_token(void) {
 
           if (!(z == SUCCEEDED || z == INPUT_NUMBER_ADDRESS_LABEL || z == INPUT_NUMBER_STACK))
             return FAILED;
-          if (z == SUCCEEDED && (g_parsed_int > 127 || g_parsed_int < -128)) {
+          if (z == SUCCEEDED && s_instruction_tmp->type == 1 && (g_parsed_int > 255 || g_parsed_int < -128)) {
+            print_error(ERROR_NUM, "Out of 8-bit range.\n");
+            return FAILED;
+          }
+          if (z == SUCCEEDED && s_instruction_tmp->type == 5 && (g_parsed_int > 127 || g_parsed_int < -128)) {
             print_error(ERROR_NUM, "Out of signed 8-bit range.\n");
             return FAILED;
           }
@@ -6118,7 +6126,11 @@ int evaluate_token(void) {
 
           if (!(z == SUCCEEDED || z == INPUT_NUMBER_ADDRESS_LABEL || z == INPUT_NUMBER_STACK))
             return FAILED;
-          if (z == SUCCEEDED && (g_parsed_int > 127 || g_parsed_int < -128)) {
+          if (z == SUCCEEDED && s_instruction_tmp->type == 1 && (g_parsed_int > 255 || g_parsed_int < -128)) {
+            print_error(ERROR_NUM, "Out of 8-bit range.\n");
+            return FAILED;
+          }
+          if (z == SUCCEEDED && s_instruction_tmp->type == 5 && (g_parsed_int > 127 || g_parsed_int < -128)) {
             print_error(ERROR_NUM, "Out of signed 8-bit range.\n");
             return FAILED;
           }
-- 
2.43.0


From 87dc8548465e44ba910ea6d9327a90d2deebdc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:26 +0000
Subject: [PATCH 37/57] fix: 65816 24-bit operands are range checked

---
 decode.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/decode.c b/decode.c
index d25a370..76129d1 100644
--- a/decode.c
+++ b/decode.c
@@ -2731,6 +2731,10 @@ int evaluate_token(void) {
           g_source_index = y;
           if (!(z == SUCCEEDED || z == INPUT_NUMBER_STACK || z == INPUT_NUMBER_ADDRESS_LABEL))
             return FAILED;
+          if (z == SUCCEEDED && (g_parsed_int > 16777215 || g_parsed_int < -8388608)) {
+            print_error(ERROR_NUM, "Out of 24-bit range.\n");
+            return FAILED;
+          }
     
           for (x++; x < INSTRUCTION_STRING_LENGTH_MAX; s_parser_source_index++, x++) {
             if (IS_THE_MATCH_COMPLETE(x)) {
-- 
2.43.0


From e5eeef151d4d3fa709d7c2f999c5786d8b1c8113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:13 +0000
Subject: [PATCH 38/57] fix: Z80 16-bit operands of all instructions are range
 checked

---
 decode.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/decode.c b/decode.c
index 76129d1..347d38a 100644
--- a/decode.c
+++ b/decode.c
@@ -1638,6 +1638,10 @@ int evaluate_token(void) {
           g_source_index = y;
           if (!(z == SUCCEEDED || z == INPUT_NUMBER_ADDRESS_LABEL || z == INPUT_NUMBER_STACK))
             return FAILED;
+          if (z == SUCCEEDED && (g_parsed_int > 65535 || g_parsed_int < -32768)) {
+            print_error(ERROR_NUM, "Out of 16-bit range.\n");
+            return FAILED;
+          }
           
           for (x++; x < INSTRUCTION_STRING_LENGTH_MAX; s_parser_source_index++, x++) {
             if (IS_THE_MATCH_COMPLETE(x)) {
-- 
2.43.0


From 07f303af78ab5560a975b557c26fb49f1a08eb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:14 +0000
Subject: [PATCH 39/57] fix: SuperFX IBT does not take its operand as a
 distance

---
 decode.c | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/decode.c b/decode.c
index 347d38a..6d1bcac 100644
--- a/decode.c
+++ b/decode.c
@@ -8295,17 +8295,9 @@ int evaluate_token(void) {
                   if (z == SUCCEEDED)
                     _output_assembled_instruction(s_instruction_tmp, "d%d d%d ", s_instruction_tmp->hex | tiny, g_parsed_int);
                   else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                    _output_assembled_instruction(s_instruction_tmp, "d%d R%s ", s_instruction_tmp->hex | tiny, g_label);
-                  else {
-                    struct stack *stack = find_stack_calculation(g_latest_stack, YES);
-                    
-                    if (stack == NULL)
-                      return FAILED;
-                    
-                    stack->relative_references = 1;
-                    
+                    _output_assembled_instruction(s_instruction_tmp, "d%d Q%s ", s_instruction_tmp->hex | tiny, g_label);
+                  else
                     _output_assembled_instruction(s_instruction_tmp, "d%d c%d ", s_instruction_tmp->hex | tiny, g_latest_stack);
-                  }
                   
                   g_source_index = s_parser_source_index;
                   return SUCCEEDED;
-- 
2.43.0


From 9f45a72fa8ddad3de184c53335471c8e4ae90058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:45 +0000
Subject: [PATCH 40/57] fix: SuperFX MOVE to memory keeps its address while the
 register is read

---
 decode.c | 95 +++++++++++++++++++++++++++++++-------------------------
 1 file changed, 52 insertions(+), 43 deletions(-)

diff --git a/decode.c b/decode.c
index 6d1bcac..b1e91f1 100644
--- a/decode.c
+++ b/decode.c
@@ -8584,61 +8584,70 @@ int evaluate_token(void) {
       break;
       
     case 9:
-      for ( ; x < INSTRUCTION_STRING_LENGTH_MAX; s_parser_source_index++, x++) {
-        if (s_instruction_tmp->string[x] == '?') {
-          y = g_source_index;
-          g_source_index = s_parser_source_index;
-          z = input_number();
-          s_parser_source_index = g_source_index;
-          g_source_index = y;
-          if (!(z == SUCCEEDED || z == INPUT_NUMBER_ADDRESS_LABEL || z == INPUT_NUMBER_STACK))
-            return FAILED;
-          if (z == SUCCEEDED) {
-            if (g_parsed_int > 65535 || g_parsed_int < -32768) {
-              print_error(ERROR_NUM, "Out of 16-bit range.\n");
+      {
+        char labelx[MAX_NAME_LENGTH + 1];
+        int s;
+
+        for ( ; x < INSTRUCTION_STRING_LENGTH_MAX; s_parser_source_index++, x++) {
+          if (s_instruction_tmp->string[x] == '?') {
+            y = g_source_index;
+            g_source_index = s_parser_source_index;
+            z = input_number();
+            s_parser_source_index = g_source_index;
+            g_source_index = y;
+            if (!(z == SUCCEEDED || z == INPUT_NUMBER_ADDRESS_LABEL || z == INPUT_NUMBER_STACK))
               return FAILED;
+            if (z == SUCCEEDED) {
+              if (g_parsed_int > 65535 || g_parsed_int < -32768) {
+                print_error(ERROR_NUM, "Out of 16-bit range.\n");
+                return FAILED;
+              }
+              y = g_parsed_int;
             }
-            y = g_parsed_int;
-          }
+
+            /* backup as _parse_tiny_int() will overwrite these */
+            strcpy(labelx, g_label);
+            s = g_latest_stack;
           
-          for (x++; x < INSTRUCTION_STRING_LENGTH_MAX; s_parser_source_index++, x++) {
-            if (s_instruction_tmp->string[x] == '*') {
-              tiny = _parse_tiny_int(s_instruction_tmp->min, s_instruction_tmp->max);
-              if (tiny < 0)
-                return FAILED;
+            for (x++; x < INSTRUCTION_STRING_LENGTH_MAX; s_parser_source_index++, x++) {
+              if (s_instruction_tmp->string[x] == '*') {
+                tiny = _parse_tiny_int(s_instruction_tmp->min, s_instruction_tmp->max);
+                if (tiny < 0)
+                  return FAILED;
               
-              for (x++; x < INSTRUCTION_STRING_LENGTH_MAX; s_parser_source_index++, x++) {
-                if (IS_THE_MATCH_COMPLETE(x)) {
-                  _output_assembled_instruction(s_instruction_tmp, "k%d ", g_active_file_info_last->line_current);
+                for (x++; x < INSTRUCTION_STRING_LENGTH_MAX; s_parser_source_index++, x++) {
+                  if (IS_THE_MATCH_COMPLETE(x)) {
+                    _output_assembled_instruction(s_instruction_tmp, "k%d ", g_active_file_info_last->line_current);
                   
-                  if (z == SUCCEEDED) {
-                    if ((y >= 0 && y <= 510) && ((y & 1) == 0)) {
-                      /* use SMS */
-                      _output_assembled_instruction(s_instruction_tmp, "d%d d%d d%d ", 0x3E, 0xA0 | tiny, y >> 1);
-                    }
-                    else {
-                      /* use SM */
-                      _output_assembled_instruction(s_instruction_tmp, "d%d d%d y%d ", 0x3E, 0xF0 | tiny, y);
+                    if (z == SUCCEEDED) {
+                      if ((y >= 0 && y <= 510) && ((y & 1) == 0)) {
+                        /* use SMS */
+                        _output_assembled_instruction(s_instruction_tmp, "d%d d%d d%d ", 0x3E, 0xA0 | tiny, y >> 1);
+                      }
+                      else {
+                        /* use SM */
+                        _output_assembled_instruction(s_instruction_tmp, "d%d d%d y%d ", 0x3E, 0xF0 | tiny, y);
+                      }
                     }
-                  }
-                  else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                    _output_assembled_instruction(s_instruction_tmp, "d%d d%d r%s ", 0x3E, 0xF0 | tiny, g_label);
-                  else
-                    _output_assembled_instruction(s_instruction_tmp, "d%d d%d C%d ", 0x3E, 0xF0 | tiny, g_latest_stack);
+                    else if (z == INPUT_NUMBER_ADDRESS_LABEL)
+                      _output_assembled_instruction(s_instruction_tmp, "d%d d%d r%s ", 0x3E, 0xF0 | tiny, labelx);
+                    else
+                      _output_assembled_instruction(s_instruction_tmp, "d%d d%d C%d ", 0x3E, 0xF0 | tiny, s);
                   
-                  g_source_index = s_parser_source_index;
-                  return SUCCEEDED;
+                    g_source_index = s_parser_source_index;
+                    return SUCCEEDED;
+                  }
+                  if (s_instruction_tmp->string[x] != toupper((int)g_buffer[s_parser_source_index]))
+                    break;
                 }
-                if (s_instruction_tmp->string[x] != toupper((int)g_buffer[s_parser_source_index]))
-                  break;
               }
+              if (s_instruction_tmp->string[x] != toupper((int)g_buffer[s_parser_source_index]))
+                break;
             }
-            if (s_instruction_tmp->string[x] != toupper((int)g_buffer[s_parser_source_index]))
-              break;
           }
+          if (s_instruction_tmp->string[x] != toupper((int)g_buffer[s_parser_source_index]))
+            break;
         }
-        if (s_instruction_tmp->string[x] != toupper((int)g_buffer[s_parser_source_index]))
-          break;
       }
       break;
       
-- 
2.43.0


From 838199e87364398f1da109605bc29433d6ae793e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:10 +0000
Subject: [PATCH 41/57] fix: hashmap: a failed allocation of a chained element
 wrote through NULL

---
 hashmap.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hashmap.c b/hashmap.c
index 9a364e4..6a95367 100644
--- a/hashmap.c
+++ b/hashmap.c
@@ -113,6 +113,8 @@ hashmap_element* hashmap_hash(map_t in, char* key) {
   }
 
   p->next = calloc(1, sizeof(hashmap_element));
+  if (p->next == NULL)
+    return NULL;
   p->next->next = NULL;
 
   return p->next;
-- 
2.43.0


From b48beefa319d2bbad33a0d4b208bf654734a1326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:10 +0000
Subject: [PATCH 42/57] fix: out of memory while parsing the options or
 creating the hash maps wrote through NULL

---
 main.c | 52 ++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 46 insertions(+), 6 deletions(-)

diff --git a/main.c b/main.c
index b515de6..0e8b914 100644
--- a/main.c
+++ b/main.c
@@ -317,6 +317,11 @@ static int _parse_and_add_definition(char *c, int contains_flag) {
       char *s = calloc(strlen(c) + 1, 1);
       int result, t;
 
+      if (s == NULL) {
+        print_text(NO, "_PARSE_AND_ADD_DEFINITION: Out of memory error.\n");
+        return FAILED;
+      }
+
       c++;
       for (t = 0; *c != 0; c++, t++) {
         if (*c == '\\' && *(c + 1) == '"') {
@@ -357,9 +362,13 @@ static int _parse_and_add_incdir(char* c, int contains_flag) {
   char **new_array;
   char n[MAX_NAME_LENGTH + 1];
 
-  /* increment for the new entry, then re-allocate the array */
-  g_ext_incdirs.count++;
-  new_array = calloc(g_ext_incdirs.count * sizeof(char*), 1);
+  /* re-allocate the array with room for the new entry */
+  new_array = calloc((old_count + 1) * sizeof(char*), 1);
+  if (new_array == NULL) {
+    print_text(NO, "_PARSE_AND_ADD_INCDIR: Out of memory error.\n");
+    return FAILED;
+  }
+
   for (index = 0; index < old_count; index++)
     new_array[index] = g_ext_incdirs.names[index];
  
@@ -367,6 +376,12 @@ static int _parse_and_add_incdir(char* c, int contains_flag) {
   g_ext_incdirs.names = new_array;
   buffer_size = g_ext_incdirs.max_name_size_bytes;
   g_ext_incdirs.names[old_count] = calloc(buffer_size, 1);
+  if (g_ext_incdirs.names[old_count] == NULL) {
+    print_text(NO, "_PARSE_AND_ADD_INCDIR: Out of memory error.\n");
+    return FAILED;
+  }
+
+  g_ext_incdirs.count++;
 
   /* skip the flag? */
   if (contains_flag == YES)
@@ -406,6 +421,10 @@ static int _parse_flags(char **flags, int flagc, int *print_usage) {
       if (count + 1 < flagc) {
         /* set output */
         g_final_name = calloc(strlen(flags[count+1])+1, 1);
+        if (g_final_name == NULL) {
+          print_text(NO, "_PARSE_FLAGS: Out of memory error.\n");
+          return FAILED;
+        }
         strcpy(g_final_name, flags[count+1]);
       }
       else
@@ -421,6 +440,10 @@ static int _parse_flags(char **flags, int flagc, int *print_usage) {
       if (count + 1 < flagc) {
         /* set output */
         g_final_name = calloc(strlen(flags[count+1])+1, 1);
+        if (g_final_name == NULL) {
+          print_text(NO, "_PARSE_FLAGS: Out of memory error.\n");
+          return FAILED;
+        }
         strcpy(g_final_name, flags[count+1]);
       }
       else
@@ -435,6 +458,10 @@ static int _parse_flags(char **flags, int flagc, int *print_usage) {
           if (!strcmp(flags[count+2], "=")) {
             int length = (int)strlen(flags[count+1])+(int)strlen(flags[count+3])+2;
             str_build = calloc(length, 1);
+            if (str_build == NULL) {
+              print_text(NO, "_PARSE_FLAGS: Out of memory error.\n");
+              return FAILED;
+            }
             snprintf(str_build, length, "%s=%s", flags[count+1], flags[count+3]);
             if (_parse_and_add_definition(str_build, NO) == FAILED) {
               *print_usage = NO;
@@ -540,6 +567,10 @@ static int _parse_flags(char **flags, int flagc, int *print_usage) {
     else {
       if (count == flagc - 1) {
         g_asm_name = calloc(strlen(flags[count]) + 1, 1);
+        if (g_asm_name == NULL) {
+          print_text(NO, "_PARSE_FLAGS: Out of memory error.\n");
+          return FAILED;
+        }
         strcpy(g_asm_name, flags[count]);
         count++;
         asm_name_def++;
@@ -593,12 +624,13 @@ static void _remember_deletable_structure(struct structure *st) {
   }
 
   if (s_deletable_structures_count >= s_deletable_structures_max) {
-    s_deletable_structures_max += 256;
-    s_deletable_structures = realloc(s_deletable_structures, sizeof(struct structure *) * s_deletable_structures_max);
-    if (s_deletable_structures == NULL) {
+    struct structure **structures = realloc(s_deletable_structures, sizeof(struct structure *) * (s_deletable_structures_max + 256));
+    if (structures == NULL) {
       print_text(NO, "_remember_deletable_structure(): Out of memory error.\n");
       return;
     }
+    s_deletable_structures = structures;
+    s_deletable_structures_max += 256;
   }
   
   s_deletable_structures[s_deletable_structures_count++] = st;
@@ -1047,6 +1079,10 @@ int main(int argc, char *argv[]) {
   g_defines_map = hashmap_new();
   g_global_unique_label_map = hashmap_new();
   g_namespace_map = hashmap_new();
+  if (g_defines_map == NULL || g_global_unique_label_map == NULL || g_namespace_map == NULL) {
+    print_text(NO, "MAIN: Out of memory error.\n");
+    return 1;
+  }
 
   /* init label stack */
   for (q = 0; q < 256; q++)
@@ -1072,6 +1108,10 @@ int main(int argc, char *argv[]) {
         /* assume object file output name */
         g_output_format = OUTPUT_OBJECT;
         g_final_name = calloc(strlen(g_asm_name)+1, 1);
+        if (g_final_name == NULL) {
+          print_text(NO, "MAIN: Out of memory error.\n");
+          return 1;
+        }
         for (n_ctr = 0; n_ctr < (int)strlen(g_asm_name) && *((g_asm_name) + n_ctr) != '.'; n_ctr++)
           g_final_name[n_ctr] = *((g_asm_name) + n_ctr);
         g_final_name[n_ctr++] = '.';
-- 
2.43.0


From 7db7e65706afcedd199df5f12c1e82d90c441da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:10 +0000
Subject: [PATCH 43/57] fix: macro arguments, label maps and -M data did not
 test their allocations

---
 include.c |  5 +++++
 phase_1.c | 34 +++++++++++++++++++++++++++-------
 phase_2.c |  5 +++++
 stack.c   |  4 ++++
 4 files changed, 41 insertions(+), 7 deletions(-)

diff --git a/include.c b/include.c
index ac1c256..883703d 100644
--- a/include.c
+++ b/include.c
@@ -578,6 +578,11 @@ int incbin_file(char *name, int *id, int *swap, int *skip, int *read, struct mac
       /* requested size is now bigger than default 0 bytes */
       free(ifd->data);
       ifd->data = calloc(sizeof(char) * file_size, 1);
+      if (ifd->data == NULL) {
+        ifd->size = 0;
+        print_error(ERROR_INB, "Out of memory while allocating data structure for \"%s\".\n", g_full_name);
+        return FAILED;
+      }
       ifd->size = file_size;
     }
   }
diff --git a/phase_1.c b/phase_1.c
index f26b9c6..d97327d 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -482,8 +482,10 @@ static int _macro_start_dxm(struct macro_static *m, int caller, char *name, int
   }
 
   mrt->argument_data = calloc(sizeof(struct macro_argument *) << 1, 1);
-  mrt->argument_data[0] = calloc(sizeof(struct macro_argument), 1);
-  mrt->argument_data[1] = calloc(sizeof(struct macro_argument), 1);
+  if (mrt->argument_data != NULL) {
+    mrt->argument_data[0] = calloc(sizeof(struct macro_argument), 1);
+    mrt->argument_data[1] = calloc(sizeof(struct macro_argument), 1);
+  }
   if (mrt->argument_data == NULL || mrt->argument_data[0] == NULL || mrt->argument_data[1] == NULL) {
     print_error(ERROR_NONE, "Out of memory error while collecting macro arguments.\n");
     return FAILED;
@@ -560,9 +562,11 @@ static int _macro_start_incbin(struct macro_static *m, struct macro_incbin *incb
     mrt->offset++;
 
   mrt->argument_data = calloc(sizeof(struct macro_argument *) * 3, 1);
-  mrt->argument_data[0] = calloc(sizeof(struct macro_argument), 1);
-  mrt->argument_data[1] = calloc(sizeof(struct macro_argument), 1);
-  mrt->argument_data[2] = calloc(sizeof(struct macro_argument), 1);
+  if (mrt->argument_data != NULL) {
+    mrt->argument_data[0] = calloc(sizeof(struct macro_argument), 1);
+    mrt->argument_data[1] = calloc(sizeof(struct macro_argument), 1);
+    mrt->argument_data[2] = calloc(sizeof(struct macro_argument), 1);
+  }
   if (mrt->argument_data == NULL || mrt->argument_data[0] == NULL || mrt->argument_data[1] == NULL || mrt->argument_data[2] == NULL) {
     print_error(ERROR_NONE, "Out of memory error while collecting macro arguments.\n");
     return FAILED;
@@ -1252,7 +1256,8 @@ int phase_1(void) {
         }
 
         mrt->argument_data = realloc(mrt->argument_data, (p+1)*sizeof(struct macro_argument *));
-        mrt->argument_data[p] = calloc(sizeof(struct macro_argument), 1);
+        if (mrt->argument_data != NULL)
+          mrt->argument_data[p] = calloc(sizeof(struct macro_argument), 1);
         if (mrt->argument_data == NULL || mrt->argument_data[p] == NULL) {
           print_error(ERROR_NONE, "Out of memory error while collecting macro arguments.\n");
           return FAILED;
@@ -5060,6 +5065,11 @@ int directive_ramsection(void) {
   }
 
   g_sec_tmp->label_map = hashmap_new();
+  if (g_sec_tmp->label_map == NULL) {
+    print_error(ERROR_DIR, "Out of memory error while allocating a label map for section \"%s\".\n", g_sec_tmp->name);
+    free(g_sec_tmp);
+    return FAILED;
+  }
 
   if (g_sections_first == NULL) {
     g_sections_first = g_sec_tmp;
@@ -5546,6 +5556,11 @@ int directive_section(void) {
   g_sec_tmp->next = NULL;
   g_sec_tmp->status = SECTION_STATUS_FREE;
   g_sec_tmp->label_map = hashmap_new();
+  if (g_sec_tmp->label_map == NULL) {
+    print_error(ERROR_DIR, "Out of memory error while allocating a label map for section \"%s\".\n", g_sec_tmp->name);
+    free(g_sec_tmp);
+    return FAILED;
+  }
 
   if (g_sections_first == NULL) {
     g_sections_first = g_sec_tmp;
@@ -5593,8 +5608,13 @@ int directive_section(void) {
         }
       }
 
-      if (nspace->label_map == NULL)
+      if (nspace->label_map == NULL) {
         nspace->label_map = hashmap_new();
+        if (nspace->label_map == NULL) {
+          print_error(ERROR_DIR, "Out of memory error while allocating a label map for namespace \"%s\".\n", nspace->name);
+          return FAILED;
+        }
+      }
 
       g_sec_tmp->nspace = nspace;
     }
diff --git a/phase_2.c b/phase_2.c
index d33ebed..1c5d94c 100644
--- a/phase_2.c
+++ b/phase_2.c
@@ -725,6 +725,11 @@ int create_a_new_section_structure(void) {
   g_sec_tmp->data = NULL;
   g_sec_tmp->nspace = NULL;
   g_sec_tmp->label_map = hashmap_new();
+  if (g_sec_tmp->label_map == NULL) {
+    print_error(ERROR_DIR, "Out of memory while allocating room for a new SECTION.\n");
+    free(g_sec_tmp);
+    return FAILED;
+  }
   g_sec_tmp->next = NULL;
 
   if (g_sections_first == NULL) {
diff --git a/stack.c b/stack.c
index 93c6fa8..ff35f03 100644
--- a/stack.c
+++ b/stack.c
@@ -4958,6 +4958,10 @@ int data_stream_parser_parse(void) {
     g_namespace[0] = 0;
 
     s_dsp_labels_map = hashmap_new();
+    if (s_dsp_labels_map == NULL) {
+      print_text(NO, "data_stream_parser_parse(): Out of memory error while allocating a label map.\n");
+      return FAILED;
+    }
   
     /* seek to the beginning of the file for parsing */
     fseek(g_file_out_ptr, 0, SEEK_SET);
-- 
2.43.0


From ae6beb8ea09141f30942f6231b386eeaa1475e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:10 +0000
Subject: [PATCH 44/57] fix: wlalink: label maps, section lists and input files
 were used without testing for NULL

---
 wlalink/analyze.c  | 18 ++++++++++++++++--
 wlalink/listfile.c |  9 ++++++++-
 wlalink/main.c     |  4 ++++
 wlalink/write.c    | 12 ++++++++++++
 4 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/wlalink/analyze.c b/wlalink/analyze.c
index 9215d8e..0c0b404 100644
--- a/wlalink/analyze.c
+++ b/wlalink/analyze.c
@@ -1982,7 +1982,10 @@ int parse_data_blocks(void) {
               }
               nspace->label_map = hashmap_new();
               strcpy(nspace->name, buf);
-              hashmap_put(g_namespace_map, nspace->name, nspace);
+              if (nspace->label_map == NULL || hashmap_put(g_namespace_map, nspace->name, nspace) != MAP_OK) {
+                print_text(NO, "PARSE_DATA_BLOCKS: Out of memory.\n");
+                return FAILED;
+              }
             }
 
             s->nspace = nspace;
@@ -2019,6 +2022,10 @@ int parse_data_blocks(void) {
 
           s->library_status = OFF;
           s->label_map = hashmap_new();
+          if (s->label_map == NULL) {
+            print_text(NO, "PARSE_DATA_BLOCKS: Out of memory.\n");
+            return FAILED;
+          }
           t += s->size;
 
           /* listfile block */
@@ -2075,7 +2082,10 @@ int parse_data_blocks(void) {
             }
             nspace->label_map = hashmap_new();
             strcpy(nspace->name, buf);
-            hashmap_put(g_namespace_map, nspace->name, nspace);
+            if (nspace->label_map == NULL || hashmap_put(g_namespace_map, nspace->name, nspace) != MAP_OK) {
+              print_text(NO, "PARSE_DATA_BLOCKS: Out of memory.\n");
+              return FAILED;
+            }
           }
 
           s->nspace = nspace;
@@ -2104,6 +2114,10 @@ int parse_data_blocks(void) {
         s->library_status = ON;
         s->base_defined = g_obj_tmp->base_defined;
         s->label_map = hashmap_new();
+        if (s->label_map == NULL) {
+          print_text(NO, "PARSE_DATA_BLOCKS: Out of memory.\n");
+          return FAILED;
+        }
         t += s->size;
 
         /* library RAM sections have no slots nor banks unless given in [rambanks] in linkfile */
diff --git a/wlalink/listfile.c b/wlalink/listfile.c
index 8b3bd60..0b17ef7 100644
--- a/wlalink/listfile.c
+++ b/wlalink/listfile.c
@@ -124,7 +124,7 @@ int listfile_write_listfiles(void) {
   }
 
   selected_sections = calloc(sizeof(struct section *) * section_count, 1);
-  if (listfileitems == NULL) {
+  if (selected_sections == NULL) {
     free(listfileitems);
     free(listfileitems_ptr);
     print_text(NO, "LISTFILE_WRITE_LISTFILES: Out of memory error.\n");
@@ -303,6 +303,13 @@ int listfile_write_listfiles(void) {
 
     source_file_name = listfileitems_ptr[j]->sourcefilename;
     f = fopen(source_file_name, "rb");
+    if (f == NULL) {
+      print_text(NO, "LISTFILE_WRITE_LISTFILES: Could not open file \"%s\" for reading.\n", source_file_name);
+      free(listfileitems);
+      free(listfileitems_ptr);
+      return FAILED;
+    }
+
     fseek(f, 0, SEEK_END);
     file_size = (int)ftell(f);
     fseek(f, 0, SEEK_SET);
diff --git a/wlalink/main.c b/wlalink/main.c
index bbe1c9d..6dd7435 100644
--- a/wlalink/main.c
+++ b/wlalink/main.c
@@ -1224,6 +1224,10 @@ int main(int argc, char *argv[]) {
   g_mem_insert_action[0] = 0;  
   g_global_unique_label_map = hashmap_new();
   g_namespace_map = hashmap_new();
+  if (g_global_unique_label_map == NULL || g_namespace_map == NULL) {
+    print_text(NO, "MAIN: Out of memory error.\n");
+    return 1;
+  }
 
   /* load files */
   if (load_files(argv, argc) == FAILED)
diff --git a/wlalink/write.c b/wlalink/write.c
index 7be4081..fb9c82a 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -2653,10 +2653,22 @@ int write_symbol_file(char *outname, int mode, int output_addr_to_line) {
 
       /* full rom-output checksum */
       outfile = fopen(outname, "rb");
+      if (outfile == NULL) {
+        print_text(NO, "WRITE_SYMBOL_FILE: Error opening file \"%s\" for reading.\n", outname);
+        fclose(f);
+        return FAILED;
+      }
+
       fseek(outfile, 0, SEEK_END);
       outfile_size = (int)ftell(outfile);
       fseek(outfile, 0, SEEK_SET);
       outfile_tmp = calloc(sizeof(char) * outfile_size, 1);
+      if (outfile_tmp == NULL) {
+        print_text(NO, "WRITE_SYMBOL_FILE: Out of memory error.\n");
+        fclose(outfile);
+        fclose(f);
+        return FAILED;
+      }
 
       if (fread(outfile_tmp, 1, outfile_size, outfile) != (size_t) outfile_size) {
         print_text(NO, "WRITE_SYMBOL_FILE: Could not read all %d bytes of \"%s\"!", outfile_size, outname);
-- 
2.43.0


From 99b3845d7b23d27e3564e059730d920fc1934963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:48 +0000
Subject: [PATCH 45/57] fix: errors while writing the object, library and
 makefile rule files and the internal data stream went unnoticed

---
 include.c |  5 +++++
 phase_3.c |  4 ++++
 phase_4.c | 22 ++++++++++++++++------
 stack.c   |  5 ++++-
 4 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/include.c b/include.c
index 883703d..4979da0 100644
--- a/include.c
+++ b/include.c
@@ -716,6 +716,11 @@ int print_file_names(char *target_file_name) {
     fopens = fopens->next;
   }
 
+  if (fflush(g_makefile_rule_file) != 0 || ferror(g_makefile_rule_file) != 0) {
+    print_text(NO, "PRINT_FILE_NAMES: Error writing the makefile rules.\n");
+    return FAILED;
+  }
+
   return SUCCEEDED;
 }
 
diff --git a/phase_3.c b/phase_3.c
index dba7efa..cddc57b 100644
--- a/phase_3.c
+++ b/phase_3.c
@@ -164,6 +164,10 @@ int phase_3(void) {
     print_text(YES, "Internal pass 1...\n");
 
   /* rewind to the beginning of the internal data stream */
+  if (fflush(g_file_out_ptr) != 0 || ferror(g_file_out_ptr) != 0) {
+    print_text(NO, "INTERNAL_PHASE_1: Error writing to the internal data stream.\n");
+    return FAILED;
+  }
   fseek(g_file_out_ptr, 0, SEEK_SET);
 
   /* first loop */
diff --git a/phase_4.c b/phase_4.c
index d1902d5..fcc3996 100644
--- a/phase_4.c
+++ b/phase_4.c
@@ -2102,8 +2102,10 @@ int phase_4(void) {
   }
 
   /* output makefile rules */
-  if (g_makefile_rules == YES)
-    print_file_names(g_final_name);
+  if (g_makefile_rules == YES) {
+    if (print_file_names(g_final_name) == FAILED)
+      return FAILED;
+  }
 
   /* show project information */
   if (g_verbose_level >= 2 && g_output_format == OUTPUT_OBJECT)
@@ -2117,7 +2119,7 @@ int phase_4(void) {
 
 int write_object_file(void) {
 
-  int ind, ov, inz, i;
+  int ind, ov, inz, i, write_error;
   FILE *final_ptr;
   unsigned char *cp;
   double dou;
@@ -2596,7 +2598,11 @@ int write_object_file(void) {
     g_sec_tmp = g_sec_tmp->next;
   }
 
-  fclose(final_ptr);
+  write_error = ferror(final_ptr);
+  if (fclose(final_ptr) != 0 || write_error != 0) {
+    print_text(NO, "INTERNAL_PHASE_4: Error writing to file \"%s\".\n", g_final_name);
+    return FAILED;
+  }
 
   return SUCCEEDED;
 }
@@ -2604,7 +2610,7 @@ int write_object_file(void) {
 
 int write_library_file(void) {
 
-  int ind, inz, ov;
+  int ind, inz, ov, write_error;
   FILE *final_ptr;
   unsigned char *cp;
   double dou;
@@ -2860,7 +2866,11 @@ int write_library_file(void) {
     g_sec_tmp = g_sec_tmp->next;
   }
 
-  fclose(final_ptr);
+  write_error = ferror(final_ptr);
+  if (fclose(final_ptr) != 0 || write_error != 0) {
+    print_text(NO, "INTERNAL_PHASE_4: Error writing to file \"%s\".\n", g_final_name);
+    return FAILED;
+  }
 
   return SUCCEEDED;
 }
diff --git a/stack.c b/stack.c
index ff35f03..0e1cac1 100644
--- a/stack.c
+++ b/stack.c
@@ -4948,7 +4948,10 @@ int data_stream_parser_parse(void) {
     return FAILED;
   }
 
-  fflush(g_file_out_ptr);
+  if (fflush(g_file_out_ptr) != 0 || ferror(g_file_out_ptr) != 0) {
+    print_error(ERROR_STC, "Error writing to the internal data stream.\n");
+    return FAILED;
+  }
 
   if (s_dsp_has_data_stream_parser_been_initialized == NO) {
     /* do the init when we first time come here */
-- 
2.43.0


From 2642b732490171d96bb4e51047161720a6380dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:48 +0000
Subject: [PATCH 46/57] fix: wlalink: errors while writing the ROM, symbol and
 listing files went unnoticed

---
 wlalink/listfile.c | 11 +++++++++--
 wlalink/write.c    | 15 ++++++++++++---
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/wlalink/listfile.c b/wlalink/listfile.c
index 0b17ef7..c138f64 100644
--- a/wlalink/listfile.c
+++ b/wlalink/listfile.c
@@ -71,7 +71,7 @@ int listfile_write_listfiles(void) {
   struct listfileitem *listfileitems, **listfileitems_ptr;
   struct section *s, **selected_sections;
   struct object_file *obj;
-  int count, i, j, current_linenumber, m, o, p, source_file_id = -1, wrote_line, listfile_item_count = 0, section_count = 0, chars = 60;
+  int count, i, j, current_linenumber, m, o, p, source_file_id = -1, wrote_line, listfile_item_count = 0, section_count = 0, chars = 60, write_error;
   char command, tmp[1024], *source_file, *source_file_name, cpu_65816 = NO;
 
   /* count the listfile items */
@@ -527,7 +527,14 @@ int listfile_write_listfiles(void) {
       }
     }
 
-    fclose(f);
+    write_error = ferror(f);
+    if (fclose(f) != 0 || write_error != 0) {
+      print_text(NO, "LISTFILE_WRITE_LISTFILES: Error writing to file \"%s\".\n", tmp);
+      free(listfileitems);
+      free(listfileitems_ptr);
+      free(source_file);
+      return FAILED;
+    }
 
     if (source_file != NULL)
       free(source_file);
diff --git a/wlalink/write.c b/wlalink/write.c
index fb9c82a..b0a3045 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -2373,6 +2373,7 @@ int write_symbol_file(char *outname, int mode, int output_addr_to_line) {
   char name[256], list_cmd, *outfile_tmp;
   FILE *f, *outfile;
   int list_cmd_idx, list_source_file, list_address_offset, y, outfile_size, got_sections = NO, got_ramsections = NO;
+  int write_error;
   unsigned long outfile_crc;
   unsigned int name_len;
 
@@ -2714,7 +2715,11 @@ int write_symbol_file(char *outname, int mode, int output_addr_to_line) {
     }
   }
 
-  fclose(f);
+  write_error = ferror(f);
+  if (fclose(f) != 0 || write_error != 0) {
+    print_text(NO, "WRITE_SYMBOL_FILE: Error writing to file \"%s\".\n", name);
+    return FAILED;
+  }
 
   return SUCCEEDED;
 }
@@ -2750,7 +2755,7 @@ int write_rom_file(char *outname) {
 
   struct section *s;
   FILE *f;
-  int i, b, e;
+  int i, b, e, write_error;
   
   /* get the addresses of the program start and end */
   if (g_program_address_start_type == LOAD_ADDRESS_TYPE_LABEL) {
@@ -2852,7 +2857,11 @@ int write_rom_file(char *outname) {
   if (g_file_footer != NULL)
     fwrite(g_file_footer, 1, g_file_footer_size, f);
 
-  fclose(f);
+  write_error = ferror(f);
+  if (fclose(f) != 0 || write_error != 0) {
+    print_text(NO, "WRITE_ROM_FILE: Error writing to file \"%s\".\n", outname);
+    return FAILED;
+  }
 
   return SUCCEEDED;
 }
-- 
2.43.0


From 348314cc2958598bc4921f4d4fc9374e0e18a503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:19 +0000
Subject: [PATCH 47/57] fix: a failing realloc() left NULL in tables the exit
 procedures walk

---
 phase_1.c         |  9 ++++++---
 stack.c           | 16 +++++++++-------
 wlalink/analyze.c | 17 +++++++++--------
 3 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/phase_1.c b/phase_1.c
index d97327d..e8c33b2 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -1936,12 +1936,15 @@ static int _remember_new_structure(struct structure *st) {
   }
 
   if (g_saved_structures_count >= s_saved_structures_max) {
-    s_saved_structures_max += 256;
-    g_saved_structures = realloc(g_saved_structures, sizeof(struct structure *) * s_saved_structures_max);
-    if (g_saved_structures == NULL) {
+    struct structure **saved_structures = realloc(g_saved_structures, sizeof(struct structure *) * (s_saved_structures_max + 256));
+
+    if (saved_structures == NULL) {
       print_text(NO, "_remember_new_structure(): Out of memory error.\n");
       return FAILED;
     }
+
+    g_saved_structures = saved_structures;
+    s_saved_structures_max += 256;
   }
   
   g_saved_structures[g_saved_structures_count++] = st;
diff --git a/stack.c b/stack.c
index 0e1cac1..dab59ea 100644
--- a/stack.c
+++ b/stack.c
@@ -138,20 +138,22 @@ int calculation_stack_insert(struct stack *s) {
   else
     s->section_id = 0;
 
-  g_latest_stack = g_last_stack_id;
-  g_last_stack_id++;
-
-  if (g_latest_stack >= s_stack_calculations_max) {
+  if (g_last_stack_id >= s_stack_calculations_max) {
     /* enlarge the pointer array! */
-    s_stack_calculations_max += 4096;
+    struct stack **stack_calculations = realloc(s_stack_calculations, sizeof(struct stack *) * (s_stack_calculations_max + 4096));
 
-    s_stack_calculations = realloc(s_stack_calculations, sizeof(struct stack *) * s_stack_calculations_max);
-    if (s_stack_calculations == NULL) {
+    if (stack_calculations == NULL) {
       print_error(ERROR_NUM, "Out of memory error while trying to enlarge stack calculations pointer array!\n");
       return FAILED;
     }
+
+    s_stack_calculations = stack_calculations;
+    s_stack_calculations_max += 4096;
   }
 
+  g_latest_stack = g_last_stack_id;
+  g_last_stack_id++;
+
   s_stack_calculations[g_latest_stack] = s;
 
   return SUCCEEDED;
diff --git a/wlalink/analyze.c b/wlalink/analyze.c
index 0c0b404..576ea1c 100644
--- a/wlalink/analyze.c
+++ b/wlalink/analyze.c
@@ -61,32 +61,33 @@ int is_label_anonymous(char *label);
 
 int add_pointer_to_a_pointer_array(void *ptr, int id, void ***array, int *max, int *array_max, int size_increase) {
 
-  if (id > *max)
-    *max = id;
-
   while (id >= *array_max) {
+    void **new_array;
     int i, j;
 
     i = *array_max;
     j = i + size_increase;
 
     /* increase the pointer array size */
-    *array_max = j;
-
-    *array = realloc(*array, sizeof(void **) * j);
-    if (*array == NULL) {
+    new_array = realloc(*array, sizeof(void **) * j);
+    if (new_array == NULL) {
       print_text(NO, "add_pointer_to_a_pointer_array(): Out of memory error!\n");
-      *array_max = 0;
       
       return FAILED;
     }
 
+    *array = new_array;
+    *array_max = j;
+
     while (i < j) {
       (*array)[i] = NULL;
       i++;
     }
   }
 
+  if (id > *max)
+    *max = id;
+
   (*array)[id] = ptr;
   
   return SUCCEEDED;
-- 
2.43.0


From b8315575c42a212960c67d3121dabe0c4d4f562c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:07 +0000
Subject: [PATCH 48/57] fix: files found in the current directory were recorded
 under another directory's name, and a failing create_full_name() was ignored

---
 include.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/include.c b/include.c
index 4979da0..8ae0435 100644
--- a/include.c
+++ b/include.c
@@ -76,13 +76,11 @@ int create_full_name(char *dir, char *name) {
 }
 
 
-static int _try_open_file(char *directory, char *partial_name, FILE **out_result) {
+/* tries to open g_full_name */
+static int _try_open_file(FILE **out_result) {
 
-  int i, len, error_code = create_full_name(directory, partial_name);
+  int i, len;
 
-  if (error_code != SUCCEEDED)
-    return error_code;
-  
   *out_result = fopen(g_full_name, "rb");
   if (*out_result == NULL)
     return FAILED;
@@ -135,7 +133,8 @@ int find_file(char *name, FILE **f, int is_full_path) {
   int index;
 
   if (is_full_path == YES) {
-    create_full_name(NULL, name);
+    if (create_full_name(NULL, name) == FAILED)
+      return FAILED;
     
     (*f) = fopen(name, "rb");
     if (*f != NULL)
@@ -149,7 +148,9 @@ int find_file(char *name, FILE **f, int is_full_path) {
   if (g_use_incdir == YES) {
     /* check all external include directories first */
     for (index = 0; index < g_ext_incdirs.count; index++) {
-      _try_open_file(g_ext_incdirs.names[index], name, f);
+      if (create_full_name(g_ext_incdirs.names[index], name) == FAILED)
+        return FAILED;
+      _try_open_file(f);
 
       /* we succeeded and found a valid file, so escape */
       if (*f != NULL)
@@ -158,12 +159,16 @@ int find_file(char *name, FILE **f, int is_full_path) {
   }
 
   /* fall through to g_include_dir if we either didn't check, or failed to find the file in g_ext_incdirs */
-  _try_open_file(g_include_dir, name, f);
+  if (create_full_name(g_include_dir, name) == FAILED)
+    return FAILED;
+  _try_open_file(f);
   if (*f != NULL)
     return SUCCEEDED;
 
   /* if failed try to find the file in the current directory */
-  (*f) = fopen(name, "rb");
+  if (create_full_name(NULL, name) == FAILED)
+    return FAILED;
+  _try_open_file(f);
   if (*f != NULL)
     return SUCCEEDED;
 
-- 
2.43.0


From 82a42f7bc0246bfdf1393e96f4799ab5397c94ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:17 +0000
Subject: [PATCH 49/57] fix: find .ENDM in any case

Directives are not case sensitive, but only .ENDM and .endm ended a macro's definition: .Endm did not.
---
 phase_1.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phase_1.c b/phase_1.c
index e8c33b2..7b6842f 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -9330,7 +9330,8 @@ int directive_macro(void) {
       print_error(ERROR_DIR, "MACRO \"%s\" wasn't terminated with .ENDM.\n", m->name);
       return FAILED;
     }
-    else if ((strncmp(&g_buffer[g_source_index], ".ENDM", 5) == 0 || strncmp(&g_buffer[g_source_index], ".endm", 5) == 0) && (g_buffer[g_source_index + 5] == 0x0A || g_buffer[g_source_index + 5] == ' ')) {
+    else if (g_buffer[g_source_index] == '.' && toupper((int)g_buffer[g_source_index + 1]) == 'E' && toupper((int)g_buffer[g_source_index + 2]) == 'N' &&
+             toupper((int)g_buffer[g_source_index + 3]) == 'D' && toupper((int)g_buffer[g_source_index + 4]) == 'M' && (g_buffer[g_source_index + 5] == 0x0A || g_buffer[g_source_index + 5] == ' ')) {
       g_source_index += 5;
       break;
     }
-- 
2.43.0


From 92965db99d3f126dbf4996e2a0fcabf9a3c2709c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:17 +0000
Subject: [PATCH 50/57] fix: keep the line number when going back to an .ELIF
 or .ELSE

The newlines before the .ELIF/.ELSE were counted twice, errors after it were reported on wrong lines.
---
 phase_1.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/phase_1.c b/phase_1.c
index 7b6842f..ed5cbb7 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -13016,6 +13016,7 @@ int parse_if_directive(void) {
 int find_next_point(char *name) {
 
   int depth = 1, m, line_current = g_active_file_info_last->line_current, source_index_old = g_source_index;
+  int line_old = line_current;
 
   /* find the next compiling point */
   m = g_macro_active;
@@ -13037,13 +13038,16 @@ int find_next_point(char *name) {
       }
       if (strcaselesscmp(g_current_directive, "ELSE") == 0 && depth == 1) {
         depth--;
-        if (s_skip_elifs[g_ifdef] == YES)
+        if (s_skip_elifs[g_ifdef] == YES) {
           g_source_index = source_index_old;
+          g_active_file_info_last->line_current = line_old;
+        }
       }
       if (strcaselesscmp(g_current_directive, "ELIF") == 0 && depth == 1) {
         if (s_skip_elifs[g_ifdef] == NO) {
           /* go backwards so we'll actually parse .ELIF later */
           g_source_index = source_index_old;
+          g_active_file_info_last->line_current = line_old;
           depth--;
         }
       }
@@ -13064,8 +13068,10 @@ int find_next_point(char *name) {
       g_get_next_token_use_substitution = YES;
       return SUCCEEDED;
     }
-    else
+    else {
       source_index_old = g_source_index;
+      line_old = g_active_file_info_last->line_current;
+    }
   }
 
   /* return the condition's line number */
-- 
2.43.0


From eb581223d7351bb8bc81ea45972bf2c302bd9584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:17 +0000
Subject: [PATCH 51/57] fix: don't substitute in source that is skipped

A string with {name} in the .ELSE branch that isn't taken, in the body of a .REPT 0 or in an
.ENDASM block was evaluated and gave an error. A false .IF skipped it already.
---
 phase_1.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/phase_1.c b/phase_1.c
index ed5cbb7..ddda3c9 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -9351,12 +9351,16 @@ static int _find_next_endr(void) {
   /* disable macro decoding */
   g_macro_active = 0;
 
+  /* don't use substitution in get_next_token() */
+  g_get_next_token_use_substitution = NO;
+
   while (get_next_token() != FAILED) {
     if (g_tmp[0] == '.') {
       if (strcaselesscmp(g_current_directive, "ENDR") == 0) {
         r--;
         if (r == 0) {
           g_macro_active = m;
+          g_get_next_token_use_substitution = YES;
           return SUCCEEDED;
         }
       }
@@ -11814,6 +11818,9 @@ int parse_directive(void) {
       if (strcmp(directive_upper, "ENDASM") == 0) {
         int endasm = 1, x;
 
+        /* don't use substitution in get_next_token() */
+        g_get_next_token_use_substitution = NO;
+
         while (1) {
           x = g_source_index;
           q = get_next_token();
@@ -11823,14 +11830,17 @@ int parse_directive(void) {
           /* end of file? */
           if (strcmp(g_tmp, ".E") == 0) {
             g_source_index = x;
+            g_get_next_token_use_substitution = YES;
             if (g_is_file_isolated_counter > 0)
               g_is_file_isolated_counter--;
             return SUCCEEDED;
           }
           if (strcaselesscmp(g_tmp, ".ASM") == 0) {
             endasm--;
-            if (endasm == 0)
+            if (endasm == 0) {
+              g_get_next_token_use_substitution = YES;
               return SUCCEEDED;
+            }
           }
           if (strcaselesscmp(g_tmp, ".ENDASM") == 0)
             endasm++;
@@ -12687,6 +12697,9 @@ int parse_if_directive(void) {
     /* disable macro decoding */
     g_macro_active = 0;
 
+    /* don't use substitution in get_next_token() */
+    g_get_next_token_use_substitution = NO;
+
     while (get_next_token() != FAILED) {
       if (g_tmp[0] == '.') {
         if (strcaselesscmp(g_current_directive, "ENDIF") == 0)
@@ -12702,6 +12715,7 @@ int parse_if_directive(void) {
         if (_decrease_ifdef() == FAILED)
           return FAILED;
         g_macro_active = m;
+        g_get_next_token_use_substitution = YES;
         return SUCCEEDED;
       }
     }
-- 
2.43.0


From 6b0199a02f1f1c2c950745db566a822530a98b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:28 +0000
Subject: [PATCH 52/57] fix: .BREAK stopped at the .ENDR of a nested
 .REPEAT/.WHILE

The loop's own .ENDR was then reported as one without a .REPT.
---
 phase_1.c | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/phase_1.c b/phase_1.c
index ddda3c9..7c69f18 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -10996,7 +10996,7 @@ int directive_rombanksize_banksize(void) {
 
 int directive_break(void) {
 
-  int m, line_current = g_active_file_info_last->line_current;
+  int line_current = g_active_file_info_last->line_current;
   struct repeat_runtime *rr;
   
   if (s_repeat_active == 0) {
@@ -11017,25 +11017,9 @@ int directive_break(void) {
   }
 
   /* find .ENDR */
-  m = g_macro_active;
-
-  /* disable macro decoding */
-  g_macro_active = 0;
-
-  /* don't use substitution in get_next_token() */
-  g_get_next_token_use_substitution = NO;
-
-  while (get_next_token() != FAILED) {
-    if (g_tmp[0] == '.') {
-      if (strcaselesscmp(g_current_directive, "E") == 0)
-        break;
-      if (strcaselesscmp(g_current_directive, "ENDR") == 0) {
-        g_macro_active = m;
-        g_get_next_token_use_substitution = YES;
-        g_ifdef = rr->start_ifdef;
-        return SUCCEEDED;  
-      }
-    }
+  if (_find_next_endr() == SUCCEEDED) {
+    g_ifdef = rr->start_ifdef;
+    return SUCCEEDED;
   }
   
   /* return the condition's line number */
-- 
2.43.0


From 32d97ed9f3b99aa94bd9d90300d80ea667401506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:28 +0000
Subject: [PATCH 53/57] fix: .CONTINUE in the last round of a .REPEAT ran the
 rest of the body

The loop was over, so its .ENDR was then reported as one without a .REPT, or it ended a surrounding loop.
---
 phase_1.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/phase_1.c b/phase_1.c
index 7c69f18..73de736 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -11033,12 +11033,16 @@ int directive_break(void) {
 int directive_endr_continue(void) {
 
   struct repeat_runtime *rr;
+  int is_continue = NO;
   
   if (s_repeat_active == 0) {
     print_error(ERROR_DIR, "There is no open .REPT/.REPEAT.\n");
     return FAILED;
   }
 
+  if (strcaselesscmp(g_current_directive, "CONTINUE") == 0)
+    is_continue = YES;
+
   rr = &g_repeat_stack[s_repeat_active - 1];
 
   if (rr->is_while == YES) {
@@ -11090,6 +11094,21 @@ int directive_endr_continue(void) {
         if (undefine(rr->index_name) == FAILED)
           return FAILED;
       }
+
+      if (is_continue == YES) {
+        /* .CONTINUE skips the rest of the last round as well */
+        int l = g_active_file_info_last->line_current;
+
+        if (_find_next_endr() == FAILED) {
+          /* return the directive's line number */
+          g_active_file_info_last->line_current = l;
+          print_error(ERROR_DIR, ".REPEAT/.REPT must end to .ENDR.\n");
+          return FAILED;
+        }
+
+        g_ifdef = rr->start_ifdef;
+      }
+
       return SUCCEEDED;
     }
   }
-- 
2.43.0


From 0a760d3635c1d30802ed3b9097e4acfef7e1b30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:44 +0000
Subject: [PATCH 54/57] fix: don't expand macro arguments in an .ENDASM block

A \\2 in the skipped text of a macro with one argument gave an error. And at the end of the file
go back to the right line.
---
 phase_1.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/phase_1.c b/phase_1.c
index 73de736..664694d 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -11819,13 +11819,17 @@ int parse_directive(void) {
     
       /* ENDASM */
       if (strcmp(directive_upper, "ENDASM") == 0) {
-        int endasm = 1, x;
+        int endasm = 1, x, line, m = g_macro_active;
+
+        /* disable macro decoding */
+        g_macro_active = 0;
 
         /* don't use substitution in get_next_token() */
         g_get_next_token_use_substitution = NO;
 
         while (1) {
           x = g_source_index;
+          line = g_active_file_info_last->line_current;
           q = get_next_token();
           if (q == GET_NEXT_TOKEN_STRING)
             continue;
@@ -11833,6 +11837,8 @@ int parse_directive(void) {
           /* end of file? */
           if (strcmp(g_tmp, ".E") == 0) {
             g_source_index = x;
+            g_active_file_info_last->line_current = line;
+            g_macro_active = m;
             g_get_next_token_use_substitution = YES;
             if (g_is_file_isolated_counter > 0)
               g_is_file_isolated_counter--;
@@ -11841,6 +11847,7 @@ int parse_directive(void) {
           if (strcaselesscmp(g_tmp, ".ASM") == 0) {
             endasm--;
             if (endasm == 0) {
+              g_macro_active = m;
               g_get_next_token_use_substitution = YES;
               return SUCCEEDED;
             }
-- 
2.43.0


From bc33ab4a4999742274981c7b41ed12008882e00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:01 +0000
Subject: [PATCH 55/57] fix: .DSB/.DS wrote the distance to a label instead of
 its value

The reference was an 8-bit relative one, .DB, .DSW, .DSL and .DSD write the value.
---
 phase_1.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phase_1.c b/phase_1.c
index 664694d..327d761 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -4504,7 +4504,7 @@ int directive_dsb_ds(void) {
     fprintf(g_file_out_ptr, "x%d %d ", parsed_int, g_parsed_int);
   else if (q == INPUT_NUMBER_ADDRESS_LABEL) {
     for (q = 0; q < parsed_int; q++)
-      fprintf(g_file_out_ptr, "R%s ", g_label);
+      fprintf(g_file_out_ptr, "Q%s ", g_label);
   }
   else if (q == INPUT_NUMBER_STACK) {
     int latest_stack = g_latest_stack;
-- 
2.43.0


From 186a36049e38409f0cc00e5ba7807aa7670adc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:01 +0000
Subject: [PATCH 56/57] fix: .DW, .DL and .DD silently dropped a string and
 everything behind it

.dw 1, "AB", 5 gave just one word and no error.
---
 phase_1.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/phase_1.c b/phase_1.c
index 327d761..67b8797 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -3623,6 +3623,10 @@ int directive_dw_word_addr(void) {
     print_error(ERROR_INP, ".%s needs data.\n", bak);
     return FAILED;
   }
+  if (number_result == INPUT_NUMBER_STRING) {
+    print_error(ERROR_INP, ".%s doesn't take strings.\n", bak);
+    return FAILED;
+  }
 
   if (number_result == INPUT_NUMBER_EOL)
     next_line();
@@ -3662,6 +3666,10 @@ int directive_dl_long_faraddr(void) {
     print_error(ERROR_INP, ".%s needs data.\n", bak);
     return FAILED;
   }
+  if (number_result == INPUT_NUMBER_STRING) {
+    print_error(ERROR_INP, ".%s doesn't take strings.\n", bak);
+    return FAILED;
+  }
 
   if (number_result == INPUT_NUMBER_EOL)
     next_line();
@@ -3759,6 +3767,10 @@ int directive_dd(void) {
     print_error(ERROR_INP, ".%s needs data.\n", bak);
     return FAILED;
   }
+  if (number_result == INPUT_NUMBER_STRING) {
+    print_error(ERROR_INP, ".%s doesn't take strings.\n", bak);
+    return FAILED;
+  }
 
   if (number_result == INPUT_NUMBER_EOL)
     next_line();
-- 
2.43.0


From 29613b14bd7e4025dbe0dd5165a3e222d2b1338e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:01 +0000
Subject: [PATCH 57/57] fix: characters above 127 in a multi-byte .ROW/.DATA
 string spoiled the bytes before them

They were sign extended.
---
 phase_1.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/phase_1.c b/phase_1.c
index 67b8797..9ddc502 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -2995,7 +2995,7 @@ int directive_row_data(void) {
           return FAILED;
         }
 
-        fprintf(g_file_out_ptr, "y%d ", (g_label[0] << 8) | g_label[1]);
+        fprintf(g_file_out_ptr, "y%d ", ((unsigned char)g_label[0] << 8) | (unsigned char)g_label[1]);
       }
       else if (s_table_format[s_table_index] == 'l') {
         if (strlen(g_label) > 3 || strlen(g_label) <= 0) {
@@ -3003,7 +3003,7 @@ int directive_row_data(void) {
           return FAILED;
         }
 
-        fprintf(g_file_out_ptr, "z%d ", (g_label[0] << 16) | (g_label[1] << 8) | g_label[2]);
+        fprintf(g_file_out_ptr, "z%d ", ((unsigned char)g_label[0] << 16) | ((unsigned char)g_label[1] << 8) | (unsigned char)g_label[2]);
       }
       else if (s_table_format[s_table_index] == 'd') {
         if (strlen(g_label) > 4 || strlen(g_label) <= 0) {
@@ -3011,7 +3011,7 @@ int directive_row_data(void) {
           return FAILED;
         }
 
-        fprintf(g_file_out_ptr, "u%d ", (g_label[0] << 24) | (g_label[1] << 16) | (g_label[2] << 8) | g_label[3]);
+        fprintf(g_file_out_ptr, "u%d ", (int)(((unsigned int)(unsigned char)g_label[0] << 24) | ((unsigned char)g_label[1] << 16) | ((unsigned char)g_label[2] << 8) | (unsigned char)g_label[3]));
       }
       else {
         print_error(ERROR_DIR, ".%s has encountered an unsupported internal datatype \"%c\".\n", bak, s_table_format[s_table_index]);
-- 
2.43.0

