From 30240b5ea4365773b9f198eeaecd531d9695c6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:09 +0000
Subject: [PATCH 01/64] fix: align RAM sections up to the next multiple of
 their alignment

The distance past the previous aligned address was added instead of the
distance to the next one, so a slot (or ORG) that is not itself aligned
gave sections misaligned addresses (slot $102, ALIGN 8 -> $104).
---
 wlalink/write.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/wlalink/write.c b/wlalink/write.c
index 77a8f46..2a5e7b0 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -1113,7 +1113,8 @@ static int _write_ramsection_force(struct section *s) {
   /* align the starting address */
   overflow = (slot_address + s->address) % s->alignment;
   address = s->address;
-  address += overflow;
+  if (overflow > 0)
+    address += s->alignment - overflow;
   address += s->offset;
 
   c = g_ram_slots[s->bank][s->slot];
@@ -1171,7 +1172,8 @@ static int _write_ramsection_semisubfree(struct section *s) {
   overflow = slot_address % s->alignment;
   address = 0;
   offset = s->offset;
-  address += overflow;
+  if (overflow > 0)
+    address += s->alignment - overflow;
 
   c = g_ram_slots[s->bank][s->slot];
   max_address = s->address;
@@ -1241,7 +1243,8 @@ static int _write_ramsection_free_and_semifree(struct section *s) {
   overflow = (slot_address + s->address) % s->alignment;
   address = s->address;
   offset = s->offset;
-  address += overflow;
+  if (overflow > 0)
+    address += s->alignment - overflow;
 
   c = g_ram_slots[s->bank][s->slot];
   slot_size = g_slots[s->slot].size;
-- 
2.43.0


From 451b9f180c8e32a8e34d05a1b06b9090c5837b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:09 +0000
Subject: [PATCH 02/64] fix: refuse to place a ROM section after one that has
 no address

FORCE, OVERWRITE and RAM sections already report this; the other kinds
silently used the unplaced (e.g., discarded) section's stale address.
---
 wlalink/write.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/wlalink/write.c b/wlalink/write.c
index 2a5e7b0..baeb0ac 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -333,6 +333,12 @@ static int _insert_rom_after_section(struct section *s) {
 
   int address, end_address;
   
+  if (s->after->placed == NO) {
+    print_text(NO, "%s: %s: INSERT_SECTIONS: Trying to insert SECTION \"%s\" after \"%s\", but its address is unknown.\n", get_file_name(s->file_id),
+            get_source_file_name(s->file_id, s->file_id_source), s->name, s->after->name);
+    return FAILED;
+  }
+
   /* NOTE! SUPERFREE sections can have a new bank at this point */
   s->bank = s->after->bank;
 
-- 
2.43.0


From 40c2e375f3de5f859a38438c0b037f64a7f59ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 03/64] fix: don't place appended sections a second time when
 discarding

A section that was appended to another one and may not be dropped (KEEP,
'!' or a kind that's never dropped) was brought back to life by discarding
and written to the ROM twice. Keep the section it lives in instead.
---
 wlalink/discard.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/wlalink/discard.c b/wlalink/discard.c
index c5aa29a..2995bb6 100644
--- a/wlalink/discard.c
+++ b/wlalink/discard.c
@@ -79,8 +79,12 @@ int discard_iteration(void) {
   s = g_sec_first;
   while (s != NULL) {
     if (s->keep == YES || s->name[0] == '!' || !(s->status == SECTION_STATUS_FREE || s->status == SECTION_STATUS_SEMIFREE || s->status == SECTION_STATUS_SEMISUBFREE || s->status == SECTION_STATUS_SUPERFREE || s->status == SECTION_STATUS_RAM_FREE || s->status == SECTION_STATUS_RAM_SEMIFREE || s->status == SECTION_STATUS_RAM_SEMISUBFREE)) {
-      s->referenced++;
-      s->alive = YES;
+      /* NOTE! a section that has been appended to another one lives inside it */
+      ss = s;
+      while (ss->appended_to == YES)
+        ss = ss->appended_to_section;
+      ss->referenced++;
+      ss->alive = YES;
     }
     s = s->next;
   }
-- 
2.43.0


From 72a5c86bdcb97872de02f906451798ff840b6bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:41 +0000
Subject: [PATCH 04/64] fix: don't crash when discarding with a calculation in
 a BANKHEADER

find_section() doesn't know BANKHEADER sections, so a pending calculation
inside one made wlalink -d dereference a NULL pointer.
---
 wlalink/discard.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wlalink/discard.c b/wlalink/discard.c
index 2995bb6..e9364e0 100644
--- a/wlalink/discard.c
+++ b/wlalink/discard.c
@@ -144,7 +144,8 @@ int discard_iteration(void) {
           if (st->section_status == OFF)
             s->referenced++;
           else if (st->section != s->id) {
-            if (ss->alive == YES)
+            /* NOTE! BANKHEADER sections are not in the section table, and they are always alive */
+            if (ss == NULL || ss->alive == YES)
               s->referenced++;
           }
         }
-- 
2.43.0


From 9aa4e43f7bedd17437e1b58c093d3bc40bbc114b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:04 +0000
Subject: [PATCH 05/64] fix: bank of a label when the slot and the bank differ
 in size

The bank operator divided the ROM address by the size of the slot, so
with a slot of $80 bytes and banks of $40 bytes the bank of a label in
bank 1 was given as 0. Use the bank the label is in when the address is
still inside it.
---
 wlalink/write.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/wlalink/write.c b/wlalink/write.c
index baeb0ac..46715cb 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -3057,13 +3057,21 @@ int compute_pending_calculations(void) {
 }
 
 
-static int _get_bank_of_address(int address, int slot) {
+static int _get_bank_of_address(int address, int slot, int bank) {
 
   int start_address, slot_size, j;
 
   if (address < 0)
     return -1;
 
+  if (slot >= 0 && bank >= 0) {
+    /* is the address inside the bank (ROM or RAM) of the labels it was calculated from? */
+    if (bank < g_rombanks && address >= g_bankaddress[bank] && address < g_bankaddress[bank] + g_banksizes[bank])
+      return bank;
+    if (address >= g_slots[slot].size * bank && address < g_slots[slot].size * (bank + 1))
+      return bank;
+  }
+
   if (slot < 0) {
     /* we don't know the SLOT so we'll use the .ROMBANKSIZE for the calculation */
     start_address = 0;
@@ -3649,7 +3657,7 @@ int compute_stack(struct stack *sta, double *result_ram, double *result_rom, int
         break;
       case SI_OP_BANK:
         z = (int)v_rom[t - 1];
-        y = _get_bank_of_address(z, slot[t - 1]);
+        y = _get_bank_of_address(z, slot[t - 1], bank[t - 1]);
         if (y < 0) {
           print_text(NO, "%s: %s:%d: COMPUTE_STACK: Could not get the bank number for ROM address %d/$%x (out of bounds).\n", get_file_name(sta->file_id),
                   get_source_file_name(sta->file_id, sta->file_id_source), sta->linenumber, z, z);
-- 
2.43.0


From 276bf7c242001a87404ae9e1abeec290f95ccbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:07 +0000
Subject: [PATCH 06/64] fix: SUPERFREE search for the next start uses the size
 of the bank searched

It used the size of the section's original bank, so when that was smaller
than the candidate bank and a byte was in use beyond it the search never
advanced, and the linker hung.
---
 wlalink/write.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wlalink/write.c b/wlalink/write.c
index 46715cb..5081af5 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -988,7 +988,7 @@ static int _write_section_superfree(struct section *s) {
         f = (g_pc_bank + d) % s->alignment;
         if (f > 0)
           g_pc_bank += s->alignment - f;
-        for (; g_pc_bank + s->offset < g_banksizes[s->bank] && g_rom_usage[g_pc_bank + s->offset + d] != 0; g_pc_bank += s->alignment)
+        for (; g_pc_bank + s->offset < g_banksizes[q] && g_rom_usage[g_pc_bank + s->offset + d] != 0; g_pc_bank += s->alignment)
           ;
       }
     }
-- 
2.43.0


From 22f3df3f71c1bff3919bf4f3001cb902fb3d2909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:27 +0000
Subject: [PATCH 07/64] fix: a RAM section after a SEMISUBFREE one can use all
 of the slot

---
 wlalink/write.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wlalink/write.c b/wlalink/write.c
index 5081af5..5f010db 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -1187,6 +1187,9 @@ static int _write_ramsection_semisubfree(struct section *s) {
     /* AFTER section override! */
     if (_after_section_override_ram(s, g_ram_slots, &address) == FAILED)
       return FAILED;
+
+    /* the limit is for the section we follow, all of the slot is available here */
+    max_address = g_slots[s->slot].size;
   }
   else {
     t = 0;
-- 
2.43.0


From 2cdede55f790bee6ccf2499c1a4badd1ea9fd70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:01 +0000
Subject: [PATCH 08/64] fix: macro argument that is a label inside a FORCE
 section lost its offset in calculations

---
 stack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stack.c b/stack.c
index 206180c..9ffcd92 100644
--- a/stack.c
+++ b/stack.c
@@ -3513,7 +3513,7 @@ static int _resolve_string(struct stack_item *s, int *cannot_resolve) {
               return FAILED;
             
             s->type = STACK_ITEM_TYPE_VALUE;
-            s->value = g_slots[section->slot].address + section->address;
+            s->value = g_slots[section->slot].address + dSI->address;
           }
           else {
             /* wla cannot resolve freely floating address labels -> only wlalink can do that */
-- 
2.43.0


From 32bb696835fc954d37014bc9a6205acdb6343bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:16 +0000
Subject: [PATCH 09/64] fix: address of a label in an APPENDTO/AFTER section
 isn't known to the assembler

---
 stack.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/stack.c b/stack.c
index 9ffcd92..2274ac8 100644
--- a/stack.c
+++ b/stack.c
@@ -36,6 +36,7 @@ extern int g_operand_hint, g_operand_hint_type, g_can_calculate_a_minus_b, g_exp
 extern int g_is_file_isolated_counter, g_force_add_namespace, g_bank, g_base, g_current_slot;
 extern struct slot g_slots[256];
 extern struct section_def *g_sections_first, *g_sections_last;
+extern struct after_section *g_after_sections;
 
 int g_latest_stack = 0, g_last_stack_id = 0, g_resolve_stack_calculations = YES, s_stack_calculations_max = 0;
 int g_parsing_function_body = NO, g_fail_quetly_on_non_found_functions = NO, g_input_parse_if = NO, g_dsp_enable_label_address_conversion = YES;
@@ -1568,6 +1569,23 @@ static struct data_stream_item *_data_stream_parser_find_label(char *label, int
 }
 
 
+static int _is_section_address_fixed(struct section_def *section) {
+
+  struct after_section *as;
+
+  if (section == NULL || (section->status != SECTION_STATUS_FORCE && section->status != SECTION_STATUS_OVERWRITE))
+    return NO;
+
+  /* APPENDTO/AFTER sections get their address from the section they follow */
+  for (as = g_after_sections; as != NULL; as = as->next) {
+    if (as->section == section)
+      return NO;
+  }
+
+  return YES;
+}
+
+
 static int _get_bank_base_slot(struct stack_item *si, int bank, int base, int slot) {
 
   struct data_stream_item *dSI;
@@ -3508,7 +3526,7 @@ static int _resolve_string(struct stack_item *s, int *cannot_resolve) {
             section = section->next;
           }
 
-          if (section != NULL && (section->status == SECTION_STATUS_FORCE || section->status == SECTION_STATUS_OVERWRITE)) {
+          if (_is_section_address_fixed(section) == YES) {
             if (_remember_converted_stack_item(s) == FAILED)
               return FAILED;
             
@@ -3620,7 +3638,7 @@ static int _resolve_string(struct stack_item *s, int *cannot_resolve) {
             section = section->next;
           }
 
-          if (section != NULL && (section->status == SECTION_STATUS_FORCE || section->status == SECTION_STATUS_OVERWRITE)) {
+          if (_is_section_address_fixed(section) == YES) {
             if (_remember_converted_stack_item(s) == FAILED)
               return FAILED;
             
-- 
2.43.0


From a65a31d7ae926fe40788d56dc2690146d56d2d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:06 +0000
Subject: [PATCH 10/64] fix: a relative calculation that is too far forward
 isn't an error

---
 wlalink/write.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wlalink/write.c b/wlalink/write.c
index 5f010db..2d05deb 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -2920,7 +2920,7 @@ int compute_pending_calculations(void) {
     snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "Writing pending calculation %s: %s:%d.", get_file_name(sta->file_id), get_source_file_name(sta->file_id, sta->file_id_source), sta->linenumber);
 
     if (sta->type == STACK_TYPE_8BIT) {
-      if (k < -128 || k > 255) {
+      if (k < -128 || k > 255 || (sta->relative_references == YES && k > 127)) {
         print_text(NO, "%s: %s:%d: COMPUTE_PENDING_CALCULATIONS: Result (%d/$%x) of a computation is out of 8-bit range.\n",
                 get_file_name(sta->file_id), get_source_file_name(sta->file_id, sta->file_id_source), sta->linenumber, k, k);
         return FAILED;
@@ -2951,7 +2951,7 @@ int compute_pending_calculations(void) {
         return FAILED;
     }
     else if (sta->type == STACK_TYPE_16BIT) {
-      if (k < -32768 || k > 65535) {
+      if (k < -32768 || k > 65535 || (sta->relative_references == YES && k > 32767)) {
         print_text(NO, "%s: %s:%d: COMPUTE_PENDING_CALCULATIONS: Result (%d/$%x) of a computation is out of 16-bit range.\n",
                 get_file_name(sta->file_id), get_source_file_name(sta->file_id, sta->file_id_source), sta->linenumber, k, k);
         return FAILED;
-- 
2.43.0


From 67d7f9fd16f8b6bf63bc4edd41094f845ca2dfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:16 +0000
Subject: [PATCH 11/64] fix: label as an 8-bit immediate or index displacement
 assembled into a relative distance

---
 decode.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/decode.c b/decode.c
index cbedc25..7874bd6 100644
--- a/decode.c
+++ b/decode.c
@@ -1222,7 +1222,7 @@ int evaluate_token(void) {
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "d%d d%d ", s_instruction_tmp->hex, g_parsed_int);
               else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "k%d d%d R%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+                _output_assembled_instruction(s_instruction_tmp, "k%d d%d %c%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, s_instruction_tmp->type == 4 ? 'R' : 'Q', g_label);
               else {
                 _output_assembled_instruction(s_instruction_tmp, "d%d c%d ", s_instruction_tmp->hex, g_latest_stack);
           
@@ -1447,7 +1447,7 @@ int evaluate_token(void) {
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "d%d d%d ", s_instruction_tmp->hex, g_parsed_int);
               else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "k%d d%d R%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+                _output_assembled_instruction(s_instruction_tmp, "k%d d%d %c%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, s_instruction_tmp->type == 11 ? 'R' : 'Q', g_label);
               else {
                 _output_assembled_instruction(s_instruction_tmp, "d%d c%d ", s_instruction_tmp->hex, g_latest_stack);
                 if (s_instruction_tmp->type == 11) {
@@ -1557,7 +1557,7 @@ int evaluate_token(void) {
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "y%d d%d ", s_instruction_tmp->hex, g_parsed_int);
               else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "k%d y%d R%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+                _output_assembled_instruction(s_instruction_tmp, "k%d y%d Q%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
               else
                 _output_assembled_instruction(s_instruction_tmp, "y%d c%d ", s_instruction_tmp->hex, g_latest_stack);
               
@@ -1597,7 +1597,7 @@ int evaluate_token(void) {
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "y%d d%d d%d ", s_instruction_tmp->hex, g_parsed_int, s_instruction_tmp->hex_x);
               else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "k%d y%d R%s d%d ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label, s_instruction_tmp->hex_x);
+                _output_assembled_instruction(s_instruction_tmp, "k%d y%d Q%s d%d ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label, s_instruction_tmp->hex_x);
               else
                 _output_assembled_instruction(s_instruction_tmp, "y%d c%d d%d ", s_instruction_tmp->hex, g_latest_stack, s_instruction_tmp->hex_x);
               
@@ -1708,14 +1708,14 @@ int evaluate_token(void) {
                   if (v == SUCCEEDED)
                     _output_assembled_instruction(s_instruction_tmp, "y%d d%d ", s_instruction_tmp->hex, e);
                   else if (v == INPUT_NUMBER_ADDRESS_LABEL)
-                    _output_assembled_instruction(s_instruction_tmp, "y%d R%s ", s_instruction_tmp->hex, labelx);
+                    _output_assembled_instruction(s_instruction_tmp, "y%d Q%s ", s_instruction_tmp->hex, labelx);
                   else
                     _output_assembled_instruction(s_instruction_tmp, "y%d c%d ", s_instruction_tmp->hex, h);
                   
                   if (z == SUCCEEDED)
                     _output_assembled_instruction(s_instruction_tmp, "d%d ", g_parsed_int);
                   else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                    _output_assembled_instruction(s_instruction_tmp, "R%s ", g_label);
+                    _output_assembled_instruction(s_instruction_tmp, "Q%s ", g_label);
                   else
                     _output_assembled_instruction(s_instruction_tmp, "c%d ", g_latest_stack);
                   
@@ -1821,7 +1821,7 @@ int evaluate_token(void) {
                   if (z == SUCCEEDED)
                     _output_assembled_instruction(s_instruction_tmp, "y%d d%d d%d ", s_instruction_tmp->hex, g_parsed_int, s_instruction_tmp->hex_x);
                   else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                    _output_assembled_instruction(s_instruction_tmp, "k%d y%d R%s d%d ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label, s_instruction_tmp->hex_x);
+                    _output_assembled_instruction(s_instruction_tmp, "k%d y%d Q%s d%d ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label, s_instruction_tmp->hex_x);
                   else
                     _output_assembled_instruction(s_instruction_tmp, "y%d c%d d%d ", s_instruction_tmp->hex, g_latest_stack, s_instruction_tmp->hex_x);
                   
@@ -5715,7 +5715,7 @@ int evaluate_token(void) {
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "d%d d%d ", s_instruction_tmp->hex, g_parsed_int);
               else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "k%d d%d R%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+                _output_assembled_instruction(s_instruction_tmp, "k%d d%d %c%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, s_instruction_tmp->type == 5 ? 'R' : 'Q', g_label);
               else {
                 _output_assembled_instruction(s_instruction_tmp, "d%d c%d ", s_instruction_tmp->hex, g_latest_stack);
                 if (s_instruction_tmp->type == 5) {
@@ -5891,7 +5891,7 @@ int evaluate_token(void) {
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "d%d d%d ", s_instruction_tmp->hex, g_parsed_int);
               else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "k%d d%d R%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+                _output_assembled_instruction(s_instruction_tmp, "k%d d%d %c%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, s_instruction_tmp->type == 5 ? 'R' : 'Q', g_label);
               else {
                 _output_assembled_instruction(s_instruction_tmp, "d%d c%d ", s_instruction_tmp->hex, g_latest_stack);
                 if (s_instruction_tmp->type == 5) {
@@ -6077,7 +6077,7 @@ int evaluate_token(void) {
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "d%d ", g_parsed_int);
               else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "R%s ", g_label);
+                _output_assembled_instruction(s_instruction_tmp, "%c%s ", s_instruction_tmp->type == 5 ? 'R' : 'Q', g_label);
               else {
                 _output_assembled_instruction(s_instruction_tmp, "c%d ", g_latest_stack);
                 if (s_instruction_tmp->type == 5) {
@@ -6534,7 +6534,7 @@ int evaluate_token(void) {
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "d%d d%d ", s_instruction_tmp->hex, g_parsed_int);
               else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "k%d d%d R%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+                _output_assembled_instruction(s_instruction_tmp, "k%d d%d Q%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
               else {
                 _output_assembled_instruction(s_instruction_tmp, "d%d c%d ", s_instruction_tmp->hex, g_latest_stack);
           
@@ -6715,7 +6715,7 @@ int evaluate_token(void) {
               if (z == SUCCEEDED)
                 _output_assembled_instruction(s_instruction_tmp, "d%d d%d ", s_instruction_tmp->hex, g_parsed_int);
               else if (z == INPUT_NUMBER_ADDRESS_LABEL)
-                _output_assembled_instruction(s_instruction_tmp, "k%d d%d R%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
+                _output_assembled_instruction(s_instruction_tmp, "k%d d%d Q%s ", g_active_file_info_last->line_current, s_instruction_tmp->hex, g_label);
               else {
                 _output_assembled_instruction(s_instruction_tmp, "d%d c%d ", s_instruction_tmp->hex, g_latest_stack);
           
-- 
2.43.0


From 5aaa84cb3c96016220b3cd58dde87fcab7535afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:32 +0000
Subject: [PATCH 12/64] fix: a prefix operator does not end the operators that
 wait for their right operand

---
 stack.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/stack.c b/stack.c
index 2274ac8..fc61e10 100644
--- a/stack.c
+++ b/stack.c
@@ -590,6 +590,19 @@ static struct stack_item_priority_item s_stack_item_priority_items[] = {
 };
 
 
+/* is this operator written before its operand(s)? */
+static int _is_prefix_op(int op) {
+
+  if (op == SI_OP_LOW_BYTE || op == SI_OP_HIGH_BYTE || op == SI_OP_NOT || op == SI_OP_BANK)
+    return YES;
+  /* the functions and the sign of a parenthesized expression */
+  if (op >= SI_OP_LOW_WORD && op <= SI_OP_SIGN)
+    return YES;
+
+  return NO;
+}
+
+
 static int _get_op_priority(int op) {
 
   int i = 0;
@@ -3177,7 +3190,8 @@ static int _stack_calculate(char *in, int *value, int *bytes_parsed, unsigned ch
           int priority = _get_op_priority((int)(in->value));
 
           b--;
-          while (b != -1 && op[b] != SI_OP_LEFT && _get_op_priority(op[b]) >= priority) {
+          /* a prefix operator has no left operand, so it cannot end the operators that wait for their right operand */
+          while (b != -1 && op[b] != SI_OP_LEFT && _is_prefix_op((int)in->value) == NO && _get_op_priority(op[b]) >= priority) {
             out->type = STACK_ITEM_TYPE_OPERATOR;
             out->value = op[b];
             out->sign = sign[b];
-- 
2.43.0


From adecf2c8713349f8a0e2cdeaade6d7e002fd2c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:32 +0000
Subject: [PATCH 13/64] fix: signs of functions, calculations and negations
 after comparison and logical operators

---
 stack.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stack.c b/stack.c
index fc61e10..f677dc1 100644
--- a/stack.c
+++ b/stack.c
@@ -2978,7 +2978,7 @@ static int _stack_calculate(char *in, int *value, int *bytes_parsed, unsigned ch
          si[k + 1].value == SI_OP_CLAMP ||
          si[k + 1].value == SI_OP_SIGN ||
          si[k + 1].value == SI_OP_SQRT)) {
-      if (k == 0 || (si[k - 1].type == STACK_ITEM_TYPE_OPERATOR && si[k - 1].value == SI_OP_LEFT)) {
+      if (b == 1) {
         si[k].type = STACK_ITEM_TYPE_DELETED;
         if (si[k + 1].sign == SI_SIGN_POSITIVE)
           si[k + 1].sign = SI_SIGN_NEGATIVE;
@@ -2988,7 +2988,7 @@ static int _stack_calculate(char *in, int *value, int *bytes_parsed, unsigned ch
     }
     /* -C(?)? (stack calculation) */
     if (k < q-1 && si[k].type == STACK_ITEM_TYPE_OPERATOR && si[k].value == SI_OP_SUB && si[k+1].type == STACK_ITEM_TYPE_STACK) {
-      if (k == 0 || (si[k - 1].type == STACK_ITEM_TYPE_OPERATOR && si[k - 1].value == SI_OP_LEFT)) {
+      if (b == 1) {
         si[k].type = STACK_ITEM_TYPE_DELETED;
         if (si[k + 1].sign == SI_SIGN_POSITIVE)
           si[k + 1].sign = SI_SIGN_NEGATIVE;
@@ -3052,7 +3052,7 @@ static int _stack_calculate(char *in, int *value, int *bytes_parsed, unsigned ch
         /* it wasn't a minus operator, it was a sign */
         si[k].type = STACK_ITEM_TYPE_DELETED;
       }
-      else if (si[k + 1].type == STACK_ITEM_TYPE_OPERATOR && si[k + 1].value == SI_OP_LEFT)
+      else if (si[k + 1].type == STACK_ITEM_TYPE_OPERATOR && (si[k + 1].value == SI_OP_LEFT || si[k + 1].value == SI_OP_NOT))
         si[k].value = SI_OP_NEGATE;
     }
     /* remove unnecessary + */
-- 
2.43.0


From 92b7162a96c136567ce81f066d1d774f232808ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:11 +0000
Subject: [PATCH 14/64] build: C99 dialect, so that a trailing // comment (as
 the edits vcheck makes) compiles

---
 CMakeLists.txt | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CMakeLists.txt b/CMakeLists.txt
index 152a17a..0dd5594 100644
--- a/CMakeLists.txt
+++ b/CMakeLists.txt
@@ -50,8 +50,8 @@ set(CMAKE_C_STANDARD 90)
 set(CMAKE_C_EXTENSIONS OFF)
 
 if(CMAKE_C_COMPILER_ID MATCHES "GNU|Clang")
-    set(CMAKE_C_STANDARD) # Empty because we use -ansi
-    set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -pedantic-errors -Wall -Wextra -ansi")
+    set(CMAKE_C_STANDARD) # Empty because we use -std=c99
+    set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -pedantic-errors -Wall -Wextra -std=c99")
     string(REPLACE "-O2" "-O3" CMAKE_C_FLAGS_RELEASE "${CMAKE_C_FLAGS_RELEASE}")
     if(CMAKE_C_COMPILER_ID MATCHES "Clang" AND
             CMAKE_C_COMPILER_VERSION VERSION_LESS 3.8)
-- 
2.43.0


From a857137365fd2538017bb5302ed337a53a7bf28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:25 +0000
Subject: [PATCH 15/64] fix: A-B is only a difference of two labels when
 nothing around it binds tighter, and slots count

---
 stack.c | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/stack.c b/stack.c
index f677dc1..f798ffe 100644
--- a/stack.c
+++ b/stack.c
@@ -603,6 +603,27 @@ static int _is_prefix_op(int op) {
 }
 
 
+static int _get_op_priority(int op);
+
+
+/* is A-B at si[k] really a difference of the two labels and not, e.g., in C-A-B, <A-B or A-B*2? */
+static int _is_delta_a_difference(struct stack_item *si, int k, int q) {
+
+  int priority = _get_op_priority(SI_OP_SUB);
+
+  if (si[k].sign == SI_SIGN_NEGATIVE || si[k+2].sign == SI_SIGN_NEGATIVE)
+    return NO;
+  
+  if (k > 0 && si[k-1].type == STACK_ITEM_TYPE_OPERATOR && si[k-1].value != SI_OP_LEFT && si[k-1].value != SI_OP_ADD &&
+      _get_op_priority((int)si[k-1].value) >= priority)
+    return NO;
+  if (k+3 < q && si[k+3].type == STACK_ITEM_TYPE_OPERATOR && si[k+3].value != SI_OP_RIGHT && _get_op_priority((int)si[k+3].value) > priority)
+    return NO;
+
+  return YES;
+}
+
+
 static int _get_op_priority(int op) {
 
   int i = 0;
@@ -3107,7 +3128,8 @@ static int _stack_calculate(char *in, int *value, int *bytes_parsed, unsigned ch
       if (si[k].is_in_postfix == YES)
         continue;
       if (si[k].type == STACK_ITEM_TYPE_LABEL && si[k].can_calculate_deltas != NOT_APPLICABLE) {
-        if (k+2 < q && si[k+1].type == STACK_ITEM_TYPE_OPERATOR && si[k+1].value == SI_OP_SUB && si[k+2].type == STACK_ITEM_TYPE_LABEL && si[k+2].can_calculate_deltas != NOT_APPLICABLE) {
+        if (k+2 < q && si[k+1].type == STACK_ITEM_TYPE_OPERATOR && si[k+1].value == SI_OP_SUB && si[k+2].type == STACK_ITEM_TYPE_LABEL && si[k+2].can_calculate_deltas != NOT_APPLICABLE &&
+            _is_delta_a_difference(si, k, q) == YES) {
           /* yes! mark such labels! */
           si[k].can_calculate_deltas = YES;
           si[k+2].can_calculate_deltas = YES;
@@ -3592,6 +3614,8 @@ static int _resolve_string(struct stack_item *s, int *cannot_resolve) {
           s_delta_old_pointer = s;
 
           s->value = dSI->address;
+          if (dSI->section_id < 0)
+            s->value += g_slots[dSI->slot].address;
 
           s_delta_counter = 1;
         }
@@ -3606,6 +3630,8 @@ static int _resolve_string(struct stack_item *s, int *cannot_resolve) {
             /* success! A-B makes sense! */
             s->type = STACK_ITEM_TYPE_VALUE;
             s->value = dSI->address;
+            if (dSI->section_id < 0)
+              s->value += g_slots[dSI->slot].address;
 
             /* turn A to a value as well for the delta calculation to work */
             s_delta_old_pointer->type = STACK_ITEM_TYPE_VALUE;
-- 
2.43.0


From 871c6d39c0c1ac9fb65cccca7215326f297e87ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:25 +0000
Subject: [PATCH 16/64] fix: calculations in 24-bit data have the bank of the
 label wherever the label is defined

---
 phase_1.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/phase_1.c b/phase_1.c
index d3af448..5991225 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -3616,6 +3616,9 @@ int directive_dl_long_faraddr(void) {
 
   strcpy(bak, g_current_directive);
 
+  /* in 24-bit data a label has its bank as well, and only WLALINK knows it */
+  g_dsp_enable_label_address_conversion = NO;
+
   number_result = input_number();
   for (i = 0; number_result == SUCCEEDED || number_result == INPUT_NUMBER_ADDRESS_LABEL || number_result == INPUT_NUMBER_STACK; i++) {
     if (number_result == SUCCEEDED && (g_parsed_int < -8388608 || g_parsed_int > 16777215)) {
@@ -3667,6 +3670,9 @@ int directive_dsl(void) {
 
   parsed_int = g_parsed_int;
 
+  /* in 24-bit data a label has its bank as well, and only WLALINK knows it */
+  g_dsp_enable_label_address_conversion = NO;
+
   q = input_number();
   if (q == FAILED)
     return FAILED;
-- 
2.43.0


From 588c4e8ffd3b538ae2ae52cb1b51ef0d7915f279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:45 +0000
Subject: [PATCH 17/64] fix: the size of a function's argument is not the size
 of its result

---
 stack.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/stack.c b/stack.c
index f798ffe..bd41e20 100644
--- a/stack.c
+++ b/stack.c
@@ -1394,14 +1394,26 @@ static int _parse_function_math3(char *in, int *type_a, int *type_b, int *type_c
 }
 
 
+/* the sizes of a function's arguments say nothing about the size of its result */
+static void _restore_operand_hint(int hint, int hint_type) {
+
+  if (g_operand_hint_type == HINT_TYPE_DEDUCED) {
+    g_operand_hint = hint;
+    g_operand_hint_type = hint_type;
+  }
+}
+
+
 static int _parse_function_math1_base(char **in, struct stack_item *si, int *q, char *name, int operator) {
 
-  int parsed_chars = 0, type = -1;
+  int parsed_chars = 0, type = -1, hint = g_operand_hint, hint_type = g_operand_hint_type;
   char string[MAX_NAME_LENGTH + 1];
   double value = 0.0;
 
   if (_parse_function_math1(*in, &type, &value, string, &parsed_chars, name) == FAILED)
     return FAILED;
+
+  _restore_operand_hint(hint, hint_type);
   *in += parsed_chars;
 
   si[*q].type = STACK_ITEM_TYPE_OPERATOR;
@@ -1436,12 +1448,14 @@ static int _parse_function_math1_base(char **in, struct stack_item *si, int *q,
 
 static int _parse_function_math2_base(char **in, struct stack_item *si, int *q, char *name, int operator) {
 
-  int parsed_chars = 0, type_a = -1, type_b = -1;
+  int parsed_chars = 0, type_a = -1, type_b = -1, hint = g_operand_hint, hint_type = g_operand_hint_type;
   char string_a[MAX_NAME_LENGTH + 1], string_b[MAX_NAME_LENGTH + 1];
   double value_a = 0, value_b = 0;
 
   if (_parse_function_math2(*in, &type_a, &type_b, &value_a, &value_b, string_a, string_b, &parsed_chars, name) == FAILED)
     return FAILED;
+
+  _restore_operand_hint(hint, hint_type);
   *in += parsed_chars;
 
   si[*q].type = STACK_ITEM_TYPE_OPERATOR;
@@ -1493,12 +1507,14 @@ static int _parse_function_math2_base(char **in, struct stack_item *si, int *q,
 
 static int _parse_function_math3_base(char **in, struct stack_item *si, int *q, char *name, int operator) {
 
-  int parsed_chars = 0, type_a = -1, type_b = -1, type_c = -1;
+  int parsed_chars = 0, type_a = -1, type_b = -1, type_c = -1, hint = g_operand_hint, hint_type = g_operand_hint_type;
   char string_a[MAX_NAME_LENGTH + 1], string_b[MAX_NAME_LENGTH + 1], string_c[MAX_NAME_LENGTH + 1];
   double value_a = 0, value_b = 0, value_c = 0;
 
   if (_parse_function_math3(*in, &type_a, &type_b, &type_c, &value_a, &value_b, &value_c, string_a, string_b, string_c, &parsed_chars, name) == FAILED)
     return FAILED;
+
+  _restore_operand_hint(hint, hint_type);
   *in += parsed_chars;
 
   si[*q].type = STACK_ITEM_TYPE_OPERATOR;
-- 
2.43.0


From 6e4bae98340975406e557061a533d01042039393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 18/64] fix: keep \@ of a macro call when the macro calls
 itself

---
 defines.h | 1 +
 parse.c   | 6 +++---
 phase_1.c | 4 ++--
 stack.c   | 4 ++--
 4 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/defines.h b/defines.h
index 610a4ff..9dbf9e4 100644
--- a/defines.h
+++ b/defines.h
@@ -625,6 +625,7 @@ struct definition_storage {
 
 struct macro_runtime {
   struct macro_static *macro;
+  int  call_number;
   int  macro_return_i;
   int  macro_return_line;
   int  macro_return_filename_id;
diff --git a/parse.c b/parse.c
index cb3a2f1..ac4ce0d 100644
--- a/parse.c
+++ b/parse.c
@@ -122,7 +122,7 @@ int compare_next_token(char *token) {
     if (g_buffer[ii + 1] == '@') {
       char tmp_buffer[64];
 
-      snprintf(tmp_buffer, sizeof(tmp_buffer), "%d", g_macro_runtime_current->macro->calls - 1);
+      snprintf(tmp_buffer, sizeof(tmp_buffer), "%d", g_macro_runtime_current->call_number);
 
       e = tmp_buffer[0];
       for (t = 0; t < length && e != 0; ) {
@@ -865,7 +865,7 @@ int input_number(void) {
 
     if (g_buffer[g_source_index] == '@') {
       g_source_index++;
-      g_parsed_int = g_macro_runtime_current->macro->calls - 1;
+      g_parsed_int = g_macro_runtime_current->call_number;
 
       if (g_buffer[g_source_index] != ' ' && g_buffer[g_source_index] != 0xA && g_buffer[g_source_index] != ',')
         exit_here = NO;
@@ -1936,7 +1936,7 @@ int _expand_macro_arguments_one_pass(char *in, int *expands, int *move_up, int *
         (*expands)++;
         i++;
 
-        snprintf(t, sizeof(t), "%d", g_macro_runtime_current->macro->calls - 1);
+        snprintf(t, sizeof(t), "%d", g_macro_runtime_current->call_number);
         for (j = 0; j < MAX_NAME_LENGTH && k < MAX_NAME_LENGTH; j++, k++) {
           g_expanded_macro_string[k] = t[j];
           if (t[j] == 0)
diff --git a/phase_1.c b/phase_1.c
index 5991225..cdade10 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -413,7 +413,7 @@ static int _macro_start(struct macro_static *m, struct macro_runtime *mrt, int c
 
   g_macro_runtime_current = mrt;
   g_macro_active++;
-  m->calls++;
+  mrt->call_number = m->calls++;
 
   /* macro call start */
   fprintf(g_file_out_ptr, "i%d %s ", m->id, m->name);
@@ -1161,7 +1161,7 @@ int phase_1(void) {
           /* check out for \@-symbols */
           if (g_macro_active != 0 && q >= 2) {
             if (g_tmp[q - 2] == '\\' && g_tmp[q - 1] == '@')
-              snprintf(&g_tmp[q - 2], g_sizeof_g_tmp - (q - 2), "%d", g_macro_runtime_current->macro->calls - 1);
+              snprintf(&g_tmp[q - 2], g_sizeof_g_tmp - (q - 2), "%d", g_macro_runtime_current->call_number);
           }
 
           if (g_macro_active != 0) {
diff --git a/stack.c b/stack.c
index bd41e20..bb24d08 100644
--- a/stack.c
+++ b/stack.c
@@ -1929,7 +1929,7 @@ static int _stack_calculate(char *in, int *value, int *bytes_parsed, unsigned ch
     else if (*in == '\\' && *(in + 1) == '@') {
       if (g_macro_runtime_current != NULL) {
         si[q].type = STACK_ITEM_TYPE_VALUE;
-        si[q].value = g_macro_runtime_current->macro->calls - 1;
+        si[q].value = g_macro_runtime_current->call_number;
         si[q].sign = SI_SIGN_POSITIVE;
         in += 2;
         q++;
@@ -3766,7 +3766,7 @@ static int _process_string(struct stack_item *s, int *cannot_resolve) {
   else if (g_macro_active != 0 && s->string[0] == '\\') {
     if (s->string[1] == '@' && s->string[2] == 0) {
       s->type = STACK_ITEM_TYPE_VALUE;
-      s->value = g_macro_runtime_current->macro->calls - 1;
+      s->value = g_macro_runtime_current->call_number;
     }
     else {
       int try_resolve_string = NO;
-- 
2.43.0


From 91d3e1a58660c45c533f7b113b1b7f773b7e07e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 19/64] fix: give \@ its value as a macro argument and next to
 a parenthesis

---
 parse.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/parse.c b/parse.c
index ac4ce0d..45656fe 100644
--- a/parse.c
+++ b/parse.c
@@ -866,6 +866,7 @@ int input_number(void) {
     if (g_buffer[g_source_index] == '@') {
       g_source_index++;
       g_parsed_int = g_macro_runtime_current->call_number;
+      g_parsed_double = (double)g_parsed_int;
 
       if (g_buffer[g_source_index] != ' ' && g_buffer[g_source_index] != 0xA && g_buffer[g_source_index] != ',')
         exit_here = NO;
@@ -1933,6 +1934,15 @@ int _expand_macro_arguments_one_pass(char *in, int *expands, int *move_up, int *
       }
       else if (in[i + 1] == '@') {
         /* we found '@' -> expand! */
+        if (res_type != NULL && i == 0 && in[2] == 0) {
+          /* we need to return this value! */
+          *res_type = SUCCEEDED;
+          *res_value = g_macro_runtime_current->call_number;
+          in[0] = 0;
+
+          return SUCCEEDED;
+        }
+
         (*expands)++;
         i++;
 
-- 
2.43.0


From 8afdfb109f689f003d6cbf18424f249e3bc38207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:37 +0000
Subject: [PATCH 20/64] fix: .BREAK leaves its own loop when further loops
 follow inside it

---
 phase_1.c | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/phase_1.c b/phase_1.c
index cdade10..92f6a53 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -9291,12 +9291,16 @@ static int _find_next_endr(void) {
   /* disable macro decoding */
   g_macro_active = 0;
 
+  /* don't use substitution in get_next_token() */
+  g_get_next_token_use_substitution = NO;
+
   while (get_next_token() != FAILED) {
     if (g_tmp[0] == '.') {
       if (strcaselesscmp(g_current_directive, "ENDR") == 0) {
         r--;
         if (r == 0) {
           g_macro_active = m;
+          g_get_next_token_use_substitution = YES;
           return SUCCEEDED;
         }
       }
@@ -10904,7 +10908,7 @@ int directive_rombanksize_banksize(void) {
 
 int directive_break(void) {
 
-  int m, line_current = g_active_file_info_last->line_current;
+  int line_current = g_active_file_info_last->line_current;
   struct repeat_runtime *rr;
   
   if (s_repeat_active == 0) {
@@ -10924,26 +10928,10 @@ int directive_break(void) {
       return FAILED;
   }
 
-  /* find .ENDR */
-  m = g_macro_active;
-
-  /* disable macro decoding */
-  g_macro_active = 0;
-
-  /* don't use substitution in get_next_token() */
-  g_get_next_token_use_substitution = NO;
-
-  while (get_next_token() != FAILED) {
-    if (g_tmp[0] == '.') {
-      if (strcaselesscmp(g_current_directive, "E") == 0)
-        break;
-      if (strcaselesscmp(g_current_directive, "ENDR") == 0) {
-        g_macro_active = m;
-        g_get_next_token_use_substitution = YES;
-        g_ifdef = rr->start_ifdef;
-        return SUCCEEDED;  
-      }
-    }
+  /* find the .ENDR of this loop */
+  if (_find_next_endr() == SUCCEEDED) {
+    g_ifdef = rr->start_ifdef;
+    return SUCCEEDED;
   }
   
   /* return the condition's line number */
-- 
2.43.0


From 3127983c18741a94c15953b38ed2b50895099b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:38 +0000
Subject: [PATCH 21/64] fix: .CONTINUE on the last round of .REPT skips the
 rest of the round

---
 phase_1.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/phase_1.c b/phase_1.c
index 92f6a53..a4eaf29 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -10945,12 +10945,16 @@ int directive_break(void) {
 int directive_endr_continue(void) {
 
   struct repeat_runtime *rr;
+  int is_continue = NO;
   
   if (s_repeat_active == 0) {
     print_error(ERROR_DIR, "There is no open .REPT/.REPEAT.\n");
     return FAILED;
   }
 
+  if (strcaselesscmp(g_current_directive, "CONTINUE") == 0)
+    is_continue = YES;
+
   rr = &g_repeat_stack[s_repeat_active - 1];
 
   if (rr->is_while == YES) {
@@ -11002,6 +11006,19 @@ int directive_endr_continue(void) {
         if (undefine(rr->index_name) == FAILED)
           return FAILED;
       }
+
+      /* .CONTINUE on the last round -> the rest of the round is skipped */
+      if (is_continue == YES) {
+        int l = g_active_file_info_last->line_current;
+
+        if (_find_next_endr() == FAILED) {
+          g_active_file_info_last->line_current = l;
+          print_error(ERROR_DIR, ".REPEAT/.REPT must end to .ENDR.\n");
+          return FAILED;
+        }
+        g_ifdef = rr->start_ifdef;
+      }
+
       return SUCCEEDED;
     }
   }
-- 
2.43.0


From f867811c1db60ab62881e2edffef801fb2a55854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 22/64] fix: names of macro arguments are bound after the
 call's arguments are worked out

---
 phase_1.c | 69 +++++++++++++++++++++++++++----------------------------
 1 file changed, 34 insertions(+), 35 deletions(-)

diff --git a/phase_1.c b/phase_1.c
index a4eaf29..c90e12c 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -1272,46 +1272,45 @@ int phase_1(void) {
           mrt->argument_data[p]->value = g_parsed_double;
         else
           return FAILED;
+      }
 
-        /* do we have a name for this argument? */
-        if (p < m->nargument_names) {
-          char argument_name[MAX_NAME_LENGTH + 1];
-          struct definition *definition;
-
-          if (m->namespace[0] == 0)
-            strcpy(argument_name, m->argument_names[p]);
-          else
-            snprintf(argument_name, sizeof(argument_name), "%s.%s", m->namespace, m->argument_names[p]);
-
-          /* does the definition exist already? */
-          hashmap_get(g_defines_map, argument_name, (void*)&definition);
-          if (definition != NULL) {
-            /* yes, store it! */
-            struct definition_storage *storage = calloc(sizeof(struct definition_storage), 1);
-            if (storage == NULL) {
-              print_error(ERROR_ERR, "Out of memory error while trying to store a definition.\n");
-              return FAILED;
-            }
-
-            storage->definition = definition;
-            storage->next = mrt->definition_storage;
-            mrt->definition_storage = storage;
+      /* name the arguments - only now as the names must not be visible in the call's own arguments */
+      for (o = 0; o < p && o < m->nargument_names; o++) {
+        struct macro_argument *ma = mrt->argument_data[o];
+        struct definition *definition;
+        char argument_name[MAX_NAME_LENGTH + 1];
 
-            /* temporarily remove the definition, because a new one is going to replace it */
-            hashmap_remove(g_defines_map, argument_name);
+        if (m->namespace[0] == 0)
+          strcpy(argument_name, m->argument_names[o]);
+        else
+          snprintf(argument_name, sizeof(argument_name), "%s.%s", m->namespace, m->argument_names[o]);
+
+        /* does the definition exist already? */
+        hashmap_get(g_defines_map, argument_name, (void*)&definition);
+        if (definition != NULL) {
+          /* yes, store it! */
+          struct definition_storage *storage = calloc(sizeof(struct definition_storage), 1);
+          if (storage == NULL) {
+            print_error(ERROR_ERR, "Out of memory error while trying to store a definition.\n");
+            return FAILED;
           }
 
-          if (q == INPUT_NUMBER_ADDRESS_LABEL)
-            redefine(argument_name, 0.0, g_label, DEFINITION_TYPE_ADDRESS_LABEL, (int)strlen(g_label));
-          else if (q == INPUT_NUMBER_STRING)
-            redefine(argument_name, 0.0, g_label, DEFINITION_TYPE_STRING, (int)strlen(g_label));
-          else if (q == INPUT_NUMBER_STACK)
-            redefine(argument_name, (double)g_latest_stack, NULL, DEFINITION_TYPE_STACK, 0);
-          else if (q == SUCCEEDED)
-            redefine(argument_name, g_parsed_double, NULL, DEFINITION_TYPE_VALUE, 0);
-          else if (q == INPUT_NUMBER_FLOAT)
-            redefine(argument_name, g_parsed_double, NULL, DEFINITION_TYPE_VALUE, 0);
+          storage->definition = definition;
+          storage->next = mrt->definition_storage;
+          mrt->definition_storage = storage;
+
+          /* temporarily remove the definition, because a new one is going to replace it */
+          hashmap_remove(g_defines_map, argument_name);
         }
+
+        if (ma->type == INPUT_NUMBER_ADDRESS_LABEL)
+          redefine(argument_name, 0.0, ma->string, DEFINITION_TYPE_ADDRESS_LABEL, (int)strlen(ma->string));
+        else if (ma->type == INPUT_NUMBER_STRING)
+          redefine(argument_name, 0.0, ma->string, DEFINITION_TYPE_STRING, (int)strlen(ma->string));
+        else if (ma->type == INPUT_NUMBER_STACK)
+          redefine(argument_name, ma->value, NULL, DEFINITION_TYPE_STACK, 0);
+        else if (ma->type == SUCCEEDED || ma->type == INPUT_NUMBER_FLOAT)
+          redefine(argument_name, ma->value, NULL, DEFINITION_TYPE_VALUE, 0);
       }
 
       mrt->supplied_arguments = p;
-- 
2.43.0


From 3617135c16eed970ab50b0528d940f5586a40fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 23/64] fix: a definition that refers to itself doesn't crash
 the assembler

---
 defines.h |  1 +
 stack.c   | 12 +++++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/defines.h b/defines.h
index 9dbf9e4..fe59752 100644
--- a/defines.h
+++ b/defines.h
@@ -788,6 +788,7 @@ struct stack {
   char is_bankheader_section;
   char is_single_instance;
   char has_been_calculated;
+  char is_being_resolved;
   double value;
 };
 
diff --git a/stack.c b/stack.c
index bb24d08..ba9c99a 100644
--- a/stack.c
+++ b/stack.c
@@ -117,6 +117,7 @@ void init_stack_struct(struct stack *s) {
   s->is_bankheader_section = NO;
   s->is_single_instance = NO;
   s->has_been_calculated = NO;
+  s->is_being_resolved = NO;
   s->value = 0.0;
 }
 
@@ -3861,6 +3862,7 @@ static int _process_string(struct stack_item *s, int *cannot_resolve) {
 static int _try_to_calculate(struct stack_item *st) {
 
   struct stack *s;
+  int result;
 
   s = find_stack_calculation((int)st->value, YES);
   if (s == NULL)
@@ -3876,7 +3878,15 @@ static int _try_to_calculate(struct stack_item *st) {
     return SUCCEEDED;
   }
 
-  if (resolve_stack(s->stack_items, s->stacksize) == SUCCEEDED) {
+  /* a calculation that needs its own result cannot be resolved here */
+  if (s->is_being_resolved == YES)
+    return FAILED;
+
+  s->is_being_resolved = YES;
+  result = resolve_stack(s->stack_items, s->stacksize);
+  s->is_being_resolved = NO;
+
+  if (result == SUCCEEDED) {
     double dou;
 
     if (compute_stack(s, s->stacksize, &dou) == FAILED)
-- 
2.43.0


From b254eebd1161c4285937acec92981d912c1db5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:55 +0000
Subject: [PATCH 24/64] fix: a string argument of a macro can be compared by
 its number in .IF

---
 stack.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/stack.c b/stack.c
index ba9c99a..79b18d2 100644
--- a/stack.c
+++ b/stack.c
@@ -3817,10 +3817,14 @@ static int _process_string(struct stack_item *s, int *cannot_resolve) {
           g_parsed_double = ma->value;
         }
           
-        if (!(k == SUCCEEDED || k == INPUT_NUMBER_ADDRESS_LABEL || k == INPUT_NUMBER_STACK || k == INPUT_NUMBER_FLOAT))
+        if (!(k == SUCCEEDED || k == INPUT_NUMBER_ADDRESS_LABEL || k == INPUT_NUMBER_STRING || k == INPUT_NUMBER_STACK || k == INPUT_NUMBER_FLOAT))
           return FAILED;
           
-        if (k == SUCCEEDED) {
+        if (k == INPUT_NUMBER_STRING) {
+          s->type = STACK_ITEM_TYPE_STRING;
+          strcpy(s->string, g_label);
+        }
+        else if (k == SUCCEEDED) {
           s->type = STACK_ITEM_TYPE_VALUE;
           s->value = g_parsed_double;
         }
-- 
2.43.0


From 924bd3364a0097e2ee6daefaf9479ac0e88aa29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:55 +0000
Subject: [PATCH 25/64] fix: X.length is not a label of a label difference

---
 stack.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stack.c b/stack.c
index 79b18d2..6d8ce33 100644
--- a/stack.c
+++ b/stack.c
@@ -3609,6 +3609,11 @@ static int _resolve_string(struct stack_item *s, int *cannot_resolve) {
       _remove_can_calculate_deltas_pair(s);
     }
   }
+  else if (is_string_ending_with(s->string, ".length") > 0 || is_string_ending_with(s->string, ".LENGTH") > 0) {
+    /* not a label, see below */
+    if (s->can_calculate_deltas == YES)
+      _remove_can_calculate_deltas_pair(s);
+  }
   else if (g_can_calculate_a_minus_b == YES) {
     if (s->can_calculate_deltas == YES) {
       /* the current calculation we are trying to solve contains at least one label pair A-B, and no other
-- 
2.43.0


From b6e8803cd356ffdacf54a59ce7b6ad62995cf418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:55 +0000
Subject: [PATCH 26/64] fix: a reference to a missing macro argument is an
 error in every expression

---
 stack.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/stack.c b/stack.c
index 6d8ce33..2c5db15 100644
--- a/stack.c
+++ b/stack.c
@@ -3330,6 +3330,15 @@ static int _stack_calculate(char *in, int *value, int *bytes_parsed, unsigned ch
     print_text(YES, "%d %d %s\n", d, ta[0].type, ta[0].string);
   */
 
+  /* a macro argument that doesn't exist won't exist in wlalink either */
+  if (g_macro_active != 0) {
+    for (b = 0; b < d; b++) {
+      if (ta[b].type == STACK_ITEM_TYPE_LABEL && (ta[b].string[0] == '\\' || ta[b].string[0] == '?') && ta[b].string[1] >= '0' && ta[b].string[1] <= '9' &&
+          atoi(&ta[b].string[1]) > g_macro_runtime_current->supplied_arguments)
+        return FAILED;
+    }
+  }
+
   /* we have a stack full of computation and we save it for wlalink */
   stack = _allocate_struct_stack(d);
   if (stack == NULL)
-- 
2.43.0


From 30ed9e139507cdb841ee7ed1adac5a1e0ca6f911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:55 +0000
Subject: [PATCH 27/64] fix: \@ ends an expression that is complete

---
 stack.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stack.c b/stack.c
index 2c5db15..ec85dd0 100644
--- a/stack.c
+++ b/stack.c
@@ -1929,6 +1929,10 @@ static int _stack_calculate(char *in, int *value, int *bytes_parsed, unsigned ch
     }
     else if (*in == '\\' && *(in + 1) == '@') {
       if (g_macro_runtime_current != NULL) {
+        /* we'll break if the previous item in the stack was a value or a string / label */
+        if (_break_before_value_or_string(q, &si[0]) == SUCCEEDED)
+          break;
+
         si[q].type = STACK_ITEM_TYPE_VALUE;
         si[q].value = g_macro_runtime_current->call_number;
         si[q].sign = SI_SIGN_POSITIVE;
-- 
2.43.0


From 4e02bb8588323ef17ebab06c43c0db79d11eb4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:55 +0000
Subject: [PATCH 28/64] fix: calculations finished at the end of the assembly
 are checked against their fields

---
 phase_4.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/phase_4.c b/phase_4.c
index e57e6e3..9e6ed9b 100644
--- a/phase_4.c
+++ b/phase_4.c
@@ -1157,6 +1157,11 @@ int phase_4(void) {
           o = o >> 1;
         }
 
+        if (o < -128 || o > 255) {
+          print_text(NO, "%s:%d: INTERNAL_PHASE_2: The value of %d is out of 8-bit range.\n", get_file_name(s_filename_id), s_line_number, o);
+          return FAILED;
+        }
+
         /* create a what-we-are-doing message for mem_insert*() warnings/errors */
         snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "%s:%d: Writing an 8-bit computation", get_file_name(s_filename_id), s_line_number);
 
@@ -1228,6 +1233,11 @@ int phase_4(void) {
 
         o = (int)r;
 
+        if (o < -32768 || o > 65535) {
+          print_text(NO, "%s:%d: INTERNAL_PHASE_2: The value of %d is out of 16-bit range.\n", get_file_name(s_filename_id), s_line_number, o);
+          return FAILED;
+        }
+
         /* create a what-we-are-doing message for mem_insert*() warnings/errors */
         snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "%s:%d: Writing a 16-bit computation", get_file_name(s_filename_id), s_line_number);
 
@@ -1402,6 +1412,11 @@ int phase_4(void) {
 
         o = (int)r;
 
+        if (o < -8388608 || o > 16777215) {
+          print_text(NO, "%s:%d: INTERNAL_PHASE_2: The value of %d is out of 24-bit range.\n", get_file_name(s_filename_id), s_line_number, o);
+          return FAILED;
+        }
+
         /* create a what-we-are-doing message for mem_insert*() warnings/errors */
         snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "%s:%d: Writing a 24-bit computation", get_file_name(s_filename_id), s_line_number);
 
-- 
2.43.0


From 9e73e2db9695ee5a420ca1b9d71635ee6b1a2cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:55 +0000
Subject: [PATCH 29/64] fix: a computation in the data of a definition is an
 error

---
 phase_1.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/phase_1.c b/phase_1.c
index c90e12c..09e8580 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -8099,7 +8099,7 @@ int directive_function(void) {
 
 int directive_define_def_equ(void) {
   
-  char k[256], label[MAX_NAME_LENGTH+1];
+  char k[MAX_NAME_LENGTH+1], label[MAX_NAME_LENGTH+1];
   int j, export, q, size;
   struct definition *d;
   double dou;
@@ -8407,7 +8407,7 @@ int directive_input(void) {
 
 int directive_redefine_redef(void) {
   
-  char k[256], label[MAX_NAME_LENGTH+1];
+  char k[MAX_NAME_LENGTH+1], label[MAX_NAME_LENGTH+1];
   int j, export, q, size;
   double dou;
 
@@ -13036,7 +13036,7 @@ int get_new_definition_data(int *b, char *c, int *size, double *data, int *expor
     x = input_number();
     if (x != INPUT_NUMBER_EOL) {
       print_error(ERROR_DIR, "A computation cannot be output as a string.\n");
-      return SUCCEEDED;
+      return FAILED;
     }
     next_line();
     
@@ -13092,6 +13092,11 @@ int get_new_definition_data(int *b, char *c, int *size, double *data, int *expor
       x = SUCCEEDED;
     }
 
+    if (s + (x == INPUT_NUMBER_STRING ? g_string_size : 2) > MAX_NAME_LENGTH) {
+      print_error(ERROR_DIR, "The definition data is too long, max %d bytes.\n", MAX_NAME_LENGTH);
+      return FAILED;
+    }
+
     if (x == INPUT_NUMBER_STRING) {
       memcpy(&c[s], g_label, g_string_size);
       s += g_string_size;
@@ -13109,6 +13114,10 @@ int get_new_definition_data(int *b, char *c, int *size, double *data, int *expor
         s++;
       }
     }
+    else if (x == INPUT_NUMBER_STACK || x == INPUT_NUMBER_ADDRESS_LABEL) {
+      print_error(ERROR_DIR, "A computation cannot be output as a string.\n");
+      return FAILED;
+    }
     else
       return x;
 
-- 
2.43.0


From 6ab06477f58809f92eab3cd0f2fa58e68a2a2641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:02 +0000
Subject: [PATCH 30/64] fix: skipped text is not interpreted, and strings in it
 are not directives

---
 parse.c   | 33 ++++++++++++++++++++++++++++++++-
 phase_1.c | 25 ++++++++++++++++---------
 2 files changed, 48 insertions(+), 10 deletions(-)

diff --git a/parse.c b/parse.c
index 45656fe..085fcdf 100644
--- a/parse.c
+++ b/parse.c
@@ -1705,6 +1705,10 @@ int get_next_token(void) {
     g_tmp[g_ss] = 0;
     g_source_index++;
 
+    /* we are only skipping text? */
+    if (g_get_next_token_use_substitution == NO)
+      return GET_NEXT_TOKEN_STRING;
+
     /* expand e.g., \1 and \@ */
     if (g_macro_active != 0) {
       if (expand_macro_arguments(g_tmp, NULL, NULL) == FAILED)
@@ -1747,7 +1751,30 @@ int get_next_token(void) {
 
       if (e == 0xA)
         break;
-      else if (e == '{')
+
+      /* we are only skipping text? a string can begin in the middle of a token, e.g., MACRO("A B") */
+      if (g_get_next_token_use_substitution == NO) {
+        if (e == '\'' && g_buffer[g_source_index + 1] != 0xA && g_buffer[g_source_index + 2] == '\'') {
+          g_source_index += 3;
+          continue;
+        }
+        if (e == '"') {
+          g_source_index++;
+          while (g_buffer[g_source_index] != 0xA && g_buffer[g_source_index] != '"') {
+            if (g_buffer[g_source_index] == '\\' && g_buffer[g_source_index + 1] == '"')
+              g_source_index++;
+            g_source_index++;
+          }
+          if (g_buffer[g_source_index] == 0xA) {
+            print_error(ERROR_NONE, "GET_NEXT_TOKEN: String wasn't terminated properly.\n");
+            return FAILED;
+          }
+          g_source_index++;
+          continue;
+        }
+      }
+
+      if (e == '{')
         curly_brackets++;
       else if (e == '}') {
         curly_brackets--;
@@ -1787,6 +1814,10 @@ int get_next_token(void) {
       return FAILED;
   }
 
+  /* we are only skipping text? */
+  if (g_get_next_token_use_substitution == NO)
+    return SUCCEEDED;
+
   /* is it actually a string definition? */
   hashmap_get(g_defines_map, g_tmp, (void*)&tmp_def);
   if (tmp_def != NULL) {
diff --git a/phase_1.c b/phase_1.c
index 09e8580..b3f6774 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -9282,7 +9282,7 @@ int directive_macro(void) {
 
 static int _find_next_endr(void) {
 
-  int r, m;
+  int r, m, token_result;
 
   r = 1;
   m = g_macro_active;
@@ -9293,8 +9293,9 @@ static int _find_next_endr(void) {
   /* don't use substitution in get_next_token() */
   g_get_next_token_use_substitution = NO;
 
-  while (get_next_token() != FAILED) {
-    if (g_tmp[0] == '.') {
+  while ((token_result = get_next_token()) != FAILED) {
+    /* strings are not directives */
+    if (token_result != GET_NEXT_TOKEN_STRING && g_tmp[0] == '.') {
       if (strcaselesscmp(g_current_directive, "ENDR") == 0) {
         r--;
         if (r == 0) {
@@ -12585,7 +12586,7 @@ int parse_if_directive(void) {
   /* ELSE */
 
   if (strcaselesscmp(g_current_directive, "ELSE") == 0) {
-    int m, r;
+    int m, r, token_result;
 
     if (g_ifdef == 0) {
       print_error(ERROR_DIR, "There must be .IFxxx before .ELSE.\n");
@@ -12599,8 +12600,12 @@ int parse_if_directive(void) {
     /* disable macro decoding */
     g_macro_active = 0;
 
-    while (get_next_token() != FAILED) {
-      if (g_tmp[0] == '.') {
+    /* don't use substitution in get_next_token() */
+    g_get_next_token_use_substitution = NO;
+
+    while ((token_result = get_next_token()) != FAILED) {
+      /* strings are not directives */
+      if (token_result != GET_NEXT_TOKEN_STRING && g_tmp[0] == '.') {
         if (strcaselesscmp(g_current_directive, "ENDIF") == 0)
           r--;
         if (strcaselesscmp(g_current_directive, "E") == 0)
@@ -12614,6 +12619,7 @@ int parse_if_directive(void) {
         if (_decrease_ifdef() == FAILED)
           return FAILED;
         g_macro_active = m;
+        g_get_next_token_use_substitution = YES;
         return SUCCEEDED;
       }
     }
@@ -12927,7 +12933,7 @@ int parse_if_directive(void) {
 
 int find_next_point(char *name) {
 
-  int depth = 1, m, line_current = g_active_file_info_last->line_current, source_index_old = g_source_index;
+  int depth = 1, m, token_result, line_current = g_active_file_info_last->line_current, source_index_old = g_source_index;
 
   /* find the next compiling point */
   m = g_macro_active;
@@ -12938,8 +12944,9 @@ int find_next_point(char *name) {
   /* don't use substitution in get_next_token() */
   g_get_next_token_use_substitution = NO;
 
-  while (get_next_token() != FAILED) {
-    if (g_tmp[0] == '.') {
+  while ((token_result = get_next_token()) != FAILED) {
+    /* strings are not directives */
+    if (token_result != GET_NEXT_TOKEN_STRING && g_tmp[0] == '.') {
       if (strcaselesscmp(g_current_directive, "ENDIF") == 0) {
         depth--;
         if (depth == 0)
-- 
2.43.0


From 5df617fbb3756e5b65937ac3f9238dacbf7aeaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:02 +0000
Subject: [PATCH 31/64] fix: a string argument at the end of a line or next to
 a symbol is pasted whole

---
 phase_1.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/phase_1.c b/phase_1.c
index b3f6774..64c4814 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -920,14 +920,14 @@ static int _run_macro_replacements(void) {
       /* parse param index */
       s_replacement_memory[x++] = c;
       for (k = 0; k < 4; k++) {
-        c = g_buffer[s++];
-        s_replacement_memory[x++] = c;
-        if (c >= '0' && c <= '9')
+        c = g_buffer[s];
+        if (c >= '0' && c <= '9') {
           param = (param * 10) + (c - '0');
-        else {
-          s--;
-          break;
+          s_replacement_memory[x++] = c;
+          s++;
         }
+        else
+          break;
       }
 
       if (param > g_macro_runtime_current->supplied_arguments) {
@@ -967,7 +967,6 @@ static int _run_macro_replacements(void) {
       else {
         /* no replacement -> continue as usual */
         i = x;
-        s++;
       }
     }
     else if (c == 0xA) {
-- 
2.43.0


From a4be2ab9ce5a5156763ca560ac6e3c466acb55eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:02 +0000
Subject: [PATCH 32/64] fix: .SHIFT without arguments left, and the names of
 missing macro arguments

---
 phase_1.c | 74 ++++++++++++++++++++++++++++++-------------------------
 1 file changed, 41 insertions(+), 33 deletions(-)

diff --git a/phase_1.c b/phase_1.c
index 64c4814..17c6e0c 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -1037,6 +1037,28 @@ int process_label_inside_macro(int add_namespace, char *buffer, int sizeof_buffe
 }
 
 
+static void _get_macro_argument_name(struct macro_static *m, int index, char *argument_name, int sizeof_argument_name) {
+
+  if (m->namespace[0] == 0)
+    snprintf(argument_name, sizeof_argument_name, "%s", m->argument_names[index]);
+  else
+    snprintf(argument_name, sizeof_argument_name, "%s.%s", m->namespace, m->argument_names[index]);
+}
+
+
+static void _name_macro_argument(char *argument_name, struct macro_argument *ma) {
+
+  if (ma->type == INPUT_NUMBER_ADDRESS_LABEL)
+    redefine(argument_name, 0.0, ma->string, DEFINITION_TYPE_ADDRESS_LABEL, (int)strlen(ma->string));
+  else if (ma->type == INPUT_NUMBER_STRING)
+    redefine(argument_name, 0.0, ma->string, DEFINITION_TYPE_STRING, (int)strlen(ma->string));
+  else if (ma->type == INPUT_NUMBER_STACK)
+    redefine(argument_name, ma->value, NULL, DEFINITION_TYPE_STACK, 0);
+  else if (ma->type == SUCCEEDED || ma->type == INPUT_NUMBER_FLOAT)
+    redefine(argument_name, ma->value, NULL, DEFINITION_TYPE_VALUE, 0);
+}
+
+
 int phase_1(void) {
 
   struct macro_runtime *mrt;
@@ -1273,16 +1295,13 @@ int phase_1(void) {
           return FAILED;
       }
 
-      /* name the arguments - only now as the names must not be visible in the call's own arguments */
-      for (o = 0; o < p && o < m->nargument_names; o++) {
-        struct macro_argument *ma = mrt->argument_data[o];
+      /* name the arguments - only now as the names must not be visible in the call's own arguments. hide also
+         the definitions that share their names with the missing arguments, as .ENDM undefines all the names */
+      for (o = 0; o < m->nargument_names; o++) {
         struct definition *definition;
         char argument_name[MAX_NAME_LENGTH + 1];
 
-        if (m->namespace[0] == 0)
-          strcpy(argument_name, m->argument_names[o]);
-        else
-          snprintf(argument_name, sizeof(argument_name), "%s.%s", m->namespace, m->argument_names[o]);
+        _get_macro_argument_name(m, o, argument_name, sizeof(argument_name));
 
         /* does the definition exist already? */
         hashmap_get(g_defines_map, argument_name, (void*)&definition);
@@ -1302,14 +1321,8 @@ int phase_1(void) {
           hashmap_remove(g_defines_map, argument_name);
         }
 
-        if (ma->type == INPUT_NUMBER_ADDRESS_LABEL)
-          redefine(argument_name, 0.0, ma->string, DEFINITION_TYPE_ADDRESS_LABEL, (int)strlen(ma->string));
-        else if (ma->type == INPUT_NUMBER_STRING)
-          redefine(argument_name, 0.0, ma->string, DEFINITION_TYPE_STRING, (int)strlen(ma->string));
-        else if (ma->type == INPUT_NUMBER_STACK)
-          redefine(argument_name, ma->value, NULL, DEFINITION_TYPE_STACK, 0);
-        else if (ma->type == SUCCEEDED || ma->type == INPUT_NUMBER_FLOAT)
-          redefine(argument_name, ma->value, NULL, DEFINITION_TYPE_VALUE, 0);
+        if (o < p)
+          _name_macro_argument(argument_name, mrt->argument_data[o]);
       }
 
       mrt->supplied_arguments = p;
@@ -6393,7 +6406,7 @@ int directive_block(void) {
 
 int directive_shift(void) {
 
-  struct macro_argument *ma;
+  char argument_name[MAX_NAME_LENGTH + 1];
   struct macro_runtime *rt;
   struct macro_static *st;
   int q, o;
@@ -6406,14 +6419,21 @@ int directive_shift(void) {
   rt = &g_macro_stack[g_macro_active - 1];
   st = rt->macro;
 
+  if (rt->supplied_arguments <= 0) {
+    print_error(ERROR_DIR, "Macro \"%s\" has no arguments left for .SHIFT.\n", st->name);
+    return FAILED;
+  }
+
   if (st->nargument_names <= rt->supplied_arguments)
     o = st->nargument_names;
   else
     o = rt->supplied_arguments;
 
   /* free the argument definitions */
-  for (q = 0; q < o; q++)
-    undefine(st->argument_names[q]);
+  for (q = 0; q < o; q++) {
+    _get_macro_argument_name(st, q, argument_name, sizeof(argument_name));
+    undefine(argument_name);
+  }
 
   /* free the first argument data */
   free(rt->argument_data[0]);
@@ -6433,15 +6453,8 @@ int directive_shift(void) {
 
   /* redo the definitions if any */
   for (q = 0; q < o; q++) {
-    ma = rt->argument_data[q];
-    if (ma->type == SUCCEEDED)
-      redefine(st->argument_names[q], ma->value, NULL, DEFINITION_TYPE_VALUE, 0);
-    else if (ma->type == INPUT_NUMBER_STACK)
-      redefine(st->argument_names[q], ma->value, NULL, DEFINITION_TYPE_STACK, 0);
-    else if (ma->type == INPUT_NUMBER_ADDRESS_LABEL)
-      redefine(st->argument_names[q], 0.0, ma->string, DEFINITION_TYPE_ADDRESS_LABEL, (int)strlen(ma->string));
-    else if (ma->type == INPUT_NUMBER_STRING)
-      redefine(st->argument_names[q], 0.0, ma->string, DEFINITION_TYPE_STRING, (int)strlen(ma->string));
+    _get_macro_argument_name(st, q, argument_name, sizeof(argument_name));
+    _name_macro_argument(argument_name, rt->argument_data[q]);
   }
 
   /* redefine NARGS */
@@ -9435,12 +9448,7 @@ int directive_endm(void) {
     for (q = 0; q < g_macro_stack[g_macro_active].macro->nargument_names; q++) {
       char argument_name[MAX_NAME_LENGTH + 1];
 
-      if (g_macro_stack[g_macro_active].macro->namespace[0] == 0)
-        strcpy(argument_name, g_macro_stack[g_macro_active].macro->argument_names[q]);
-      else
-        snprintf(argument_name, sizeof(argument_name), "%s.%s", g_macro_stack[g_macro_active].macro->namespace,
-                 g_macro_stack[g_macro_active].macro->argument_names[q]);
-
+      _get_macro_argument_name(g_macro_stack[g_macro_active].macro, q, argument_name, sizeof(argument_name));
       undefine(argument_name);
     }
 
-- 
2.43.0


From 5ac7f9beb37e7b8f36b2d099bcca07363bb03a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:10 +0000
Subject: [PATCH 33/64] fix: check the range of definitions resolved late or by
 the linker

---
 phase_4.c       | 15 +++++++++++++++
 wlalink/write.c | 13 ++++++++++++-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/phase_4.c b/phase_4.c
index 9e6ed9b..5287034 100644
--- a/phase_4.c
+++ b/phase_4.c
@@ -1578,6 +1578,11 @@ int phase_4(void) {
           if (tmp_def->type != DEFINITION_TYPE_STACK) {
             o = (int)tmp_def->value;
 
+            if (o < -8388608 || o > 16777215) {
+              print_text(NO, "%s:%d: INTERNAL_PHASE_2: Reference value of \"%s\" (%d) is out of 24-bit range.\n", get_file_name(s_filename_id), s_line_number, g_tmp, o);
+              return FAILED;
+            }
+
             /* create a what-we-are-doing message for mem_insert*() warnings/errors */
             snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "%s:%d: Writing a 24-bit reference", get_file_name(s_filename_id), s_line_number);
 
@@ -1794,6 +1799,11 @@ int phase_4(void) {
             if (tmp_def->type != DEFINITION_TYPE_STACK) {
               o = (int)tmp_def->value;
 
+              if (o < -32768 || o > 65535) {
+                print_text(NO, "%s:%d: INTERNAL_PHASE_2: Reference value of \"%s\" (%d) is out of 16-bit range.\n", get_file_name(s_filename_id), s_line_number, g_tmp, o);
+                return FAILED;
+              }
+
               /* create a what-we-are-doing message for mem_insert*() warnings/errors */
               snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "%s:%d: Writing a 16-bit reference", get_file_name(s_filename_id), s_line_number);
 
@@ -1992,6 +2002,11 @@ int phase_4(void) {
           if (tmp_def->type != DEFINITION_TYPE_STACK) {
             o = (int)tmp_def->value;
 
+            if (o < (c == '*' ? 0 : -128) || o > (c == '*' ? 510 : 255)) {
+              print_text(NO, "%s:%d: INTERNAL_PHASE_2: Reference value of \"%s\" (%d) is out of %d-bit range.\n", get_file_name(s_filename_id), s_line_number, g_tmp, o, c == '*' ? 9 : 8);
+              return FAILED;
+            }
+
             /* 9-bit short? */
             if (c == '*') {
               if ((o & 1) == 1) {
diff --git a/wlalink/write.c b/wlalink/write.c
index 2d05deb..977c327 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -2131,6 +2131,12 @@ int fix_references(void) {
       if (r->type == REFERENCE_TYPE_DIRECT_16BIT) {
         i = (int)l->address;
 
+        if (l->status == LABEL_STATUS_DEFINE && (i > 65535 || i < -32768)) {
+          print_text(NO, "%s: %s:%d: FIX_REFERENCES: Value ($%x) of \"%s\" is too much to be a 16-bit value.\n",
+                  get_file_name(r->file_id), get_source_file_name(r->file_id, r->file_id_source), r->linenumber, i, l->name);
+          return FAILED;
+        }
+
         /* special case ID handling! */
         if (r->special_id == 4) {
           /* flip endianess */
@@ -2175,7 +2181,7 @@ int fix_references(void) {
       }
       /* direct / relative 8-bit with a value definition */
       else if (l->status == LABEL_STATUS_DEFINE && (r->type == REFERENCE_TYPE_DIRECT_8BIT || r->type == REFERENCE_TYPE_RELATIVE_8BIT)) {
-        i = ((int)l->address) & 0xFFFF;
+        i = (int)l->address;
         if (i > 255 || i < -128) {
           print_text(NO, "%s: %s:%d: FIX_REFERENCES: Value ($%x) of \"%s\" is too much to be a 8-bit value.\n",
                   get_file_name(r->file_id), get_source_file_name(r->file_id, r->file_id_source), r->linenumber, i, l->name);
@@ -2188,6 +2194,11 @@ int fix_references(void) {
         i = (int)l->address;
         if (l->status == LABEL_STATUS_LABEL)
           i += get_snes_pc_bank(l);
+        else if (l->status == LABEL_STATUS_DEFINE && (i > 16777215 || i < -8388608)) {
+          print_text(NO, "%s: %s:%d: FIX_REFERENCES: Value ($%x) of \"%s\" is too much to be a 24-bit value.\n",
+                  get_file_name(r->file_id), get_source_file_name(r->file_id, r->file_id_source), r->linenumber, i, l->name);
+          return FAILED;
+        }
         if (get_file(r->file_id)->little_endian == YES) {
           mem_insert_ref(x, i & 0xFF);
           mem_insert_ref(x + 1, (i >> 8) & 0xFF);
-- 
2.43.0


From e2044f1920ad8788f34aaa286e0965a7c78b9dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:11 +0000
Subject: [PATCH 34/64] fix: count the bytes of .BITS correctly in every pass

---
 listfile.c | 2 +-
 phase_3.c  | 8 +++++---
 phase_4.c  | 5 +++++
 stack.c    | 2 +-
 4 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/listfile.c b/listfile.c
index f570b84..2e1aa43 100644
--- a/listfile.c
+++ b/listfile.c
@@ -316,7 +316,7 @@ int listfile_collect(void) {
             add++;
             origin++;
           }
-          if (bits_to_add == 8)
+          if (bits_current == 8)
             bits_current = 0;
         }
 
diff --git a/phase_3.c b/phase_3.c
index 3e472ae..d5a70bc 100644
--- a/phase_3.c
+++ b/phase_3.c
@@ -292,8 +292,10 @@ int phase_3(void) {
           if (err < 1)
             return _print_fscanf_error_accessing_internal_data_stream(file_name_id, line_number);
           
-          if (bits_to_add == 0) {
+          if (bits_to_add == 999) {
             bits_current = 0;
+
+            continue;
           }
           else {
             if (bits_current == 0)
@@ -303,7 +305,7 @@ int phase_3(void) {
               bits_current -= 8;
               address++;
             }
-            if (bits_to_add == 8)
+            if (bits_current == 8)
               bits_current = 0;
           }
 
@@ -998,7 +1000,7 @@ int phase_3(void) {
             bits_current -= 8;
             address++;
           }
-          if (bits_to_add == 8)
+          if (bits_current == 8)
             bits_current = 0;
         }
 
diff --git a/phase_4.c b/phase_4.c
index 5287034..9c15406 100644
--- a/phase_4.c
+++ b/phase_4.c
@@ -851,6 +851,11 @@ int phase_4(void) {
               if (tmp_def->type != DEFINITION_TYPE_STACK) {
                 o = (int)tmp_def->value;
 
+                if (bits_to_define < 32 && (o & ~((1 << bits_to_define) - 1)) != 0) {
+                  print_text(NO, "%s:%d: INTERNAL_PHASE_2: We are defining %d bits, but the value of \"%s\" (%d) uses more bits!\n", get_file_name(s_filename_id), s_line_number, bits_to_define, g_tmp, o);
+                  return FAILED;
+                }
+
                 /* create a what-we-are-doing message for mem_insert*() warnings/errors */
                 snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "%s:%d: Writing .BITS' bits", get_file_name(s_filename_id), s_line_number);
 
diff --git a/stack.c b/stack.c
index ec85dd0..c4a7ecb 100644
--- a/stack.c
+++ b/stack.c
@@ -5278,7 +5278,7 @@ int data_stream_parser_parse(void) {
             s_dsp_bits_current -= 8;
             s_dsp_add++;
           }
-          if (bits_to_add == 8)
+          if (s_dsp_bits_current == 8)
             s_dsp_bits_current = 0;
         }
 
-- 
2.43.0


From 80ab22ecee0bfc92dd44be79ce49d14f65600b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:11 +0000
Subject: [PATCH 35/64] fix: a string may end in an escaped backslash

---
 parse.c   | 10 ++++++++--
 phase_1.c |  5 ++---
 stack.c   |  5 +++++
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/parse.c b/parse.c
index 085fcdf..a5c7ea7 100644
--- a/parse.c
+++ b/parse.c
@@ -785,7 +785,9 @@ int input_number(void) {
         /* skip quoted strings */
         while (ee != 0x0A) {
           ee = g_buffer[p++];
-          if (ee == '"' && g_buffer[p-2] != '\\')
+          if (ee == '\\' && g_buffer[p] != 0x0A)
+            p++;
+          else if (ee == '"')
             break;
         }
         if (ee == 0x0A)
@@ -1694,6 +1696,10 @@ int get_next_token(void) {
         g_tmp[g_ss++] = '"';
         g_source_index += 2;
       }
+      else if (g_buffer[g_source_index] == '\\' && g_buffer[g_source_index + 1] == '\\') {
+        g_tmp[g_ss++] = g_buffer[g_source_index++];
+        g_tmp[g_ss++] = g_buffer[g_source_index++];
+      }
       else
         g_tmp[g_ss++] = g_buffer[g_source_index++];
     }
@@ -1761,7 +1767,7 @@ int get_next_token(void) {
         if (e == '"') {
           g_source_index++;
           while (g_buffer[g_source_index] != 0xA && g_buffer[g_source_index] != '"') {
-            if (g_buffer[g_source_index] == '\\' && g_buffer[g_source_index + 1] == '"')
+            if (g_buffer[g_source_index] == '\\' && (g_buffer[g_source_index + 1] == '"' || g_buffer[g_source_index + 1] == '\\'))
               g_source_index++;
             g_source_index++;
           }
diff --git a/phase_1.c b/phase_1.c
index 17c6e0c..bcf2ef3 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -896,10 +896,9 @@ static int _run_macro_replacements(void) {
 
       while (i < (int)sizeof(s_replacement_memory)) {
         c = g_buffer[s++];
-        if (c == '\\' && g_buffer[s] == '"') {
+        if (c == '\\' && (g_buffer[s] == '"' || g_buffer[s] == '\\')) {
           s_replacement_memory[i++] = c;
-          s_replacement_memory[i++] = '"';
-          s++;
+          s_replacement_memory[i++] = g_buffer[s++];
           continue;
         }
         else if (c == '"') {
diff --git a/stack.c b/stack.c
index c4a7ecb..ff808d1 100644
--- a/stack.c
+++ b/stack.c
@@ -2285,6 +2285,11 @@ static int _stack_calculate(char *in, int *value, int *bytes_parsed, unsigned ch
           break;
         if (e == '\\' && *in == '"')
           e = *in++;
+        else if (e == '\\' && *in == '\\' && k < MAX_NAME_LENGTH - 1) {
+          /* let process_string_for_special_characters() handle '\\' */
+          si[q].string[k++] = e;
+          e = *in++;
+        }
 
         si[q].string[k] = e;
       }
-- 
2.43.0


From f17392ae613cbbf176deba6fd317a383be3cdd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:11 +0000
Subject: [PATCH 36/64] fix: strings in .ROW and .DATA have no sign and no
 leftover characters

---
 phase_1.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/phase_1.c b/phase_1.c
index bcf2ef3..1b9a2a8 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -2946,6 +2946,22 @@ int directive_table(void) {
 }
 
 
+static int _string_to_value(int bytes) {
+
+  unsigned int value = 0;
+  int i, length = (int)strlen(g_label);
+
+  /* the first character goes to the most significant byte, missing characters are zeroes */
+  for (i = 0; i < bytes; i++) {
+    value <<= 8;
+    if (i < length)
+      value |= (unsigned char)g_label[i];
+  }
+
+  return (int)value;
+}
+
+
 int directive_row_data(void) {
 
   char bak[256];
@@ -2983,7 +2999,7 @@ int directive_row_data(void) {
           return FAILED;
         }
 
-        fprintf(g_file_out_ptr, "y%d ", (g_label[0] << 8) | g_label[1]);
+        fprintf(g_file_out_ptr, "y%d ", _string_to_value(2));
       }
       else if (s_table_format[s_table_index] == 'l') {
         if (strlen(g_label) > 3 || strlen(g_label) <= 0) {
@@ -2991,7 +3007,7 @@ int directive_row_data(void) {
           return FAILED;
         }
 
-        fprintf(g_file_out_ptr, "z%d ", (g_label[0] << 16) | (g_label[1] << 8) | g_label[2]);
+        fprintf(g_file_out_ptr, "z%d ", _string_to_value(3));
       }
       else if (s_table_format[s_table_index] == 'd') {
         if (strlen(g_label) > 4 || strlen(g_label) <= 0) {
@@ -2999,7 +3015,7 @@ int directive_row_data(void) {
           return FAILED;
         }
 
-        fprintf(g_file_out_ptr, "u%d ", (g_label[0] << 24) | (g_label[1] << 16) | (g_label[2] << 8) | g_label[3]);
+        fprintf(g_file_out_ptr, "u%d ", _string_to_value(4));
       }
       else {
         print_error(ERROR_DIR, ".%s has encountered an unsupported internal datatype \"%c\".\n", bak, s_table_format[s_table_index]);
-- 
2.43.0


From 76bb94cbdcf9c2724235304a59380546427839a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:11 +0000
Subject: [PATCH 37/64] fix: reject unknown names in MAP

---
 phase_1.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phase_1.c b/phase_1.c
index 1b9a2a8..4f00253 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -3434,7 +3434,7 @@ int directive_asctable_asciitable(void) {
 
       if (q == FAILED)
         return FAILED;
-      if (q == SUCCEEDED && (g_parsed_int < 0 || g_parsed_int > 255)) {
+      if ((q == SUCCEEDED && (g_parsed_int < 0 || g_parsed_int > 255)) || (q != SUCCEEDED && q != INPUT_NUMBER_STRING)) {
         print_error(ERROR_DIR, "The entry must be a positive 8-bit immediate value or one letter string.\n");
         return FAILED;
       }
@@ -3461,7 +3461,7 @@ int directive_asctable_asciitable(void) {
 
         if (q == FAILED)
           return FAILED;
-        if (q == SUCCEEDED && (g_parsed_int < 0 || g_parsed_int > 255)) {
+        if ((q == SUCCEEDED && (g_parsed_int < 0 || g_parsed_int > 255)) || (q != SUCCEEDED && q != INPUT_NUMBER_STRING)) {
           print_error(ERROR_DIR, "The entry must be a positive 8-bit immediate value or one letter string.\n");
           return FAILED;
         }
-- 
2.43.0


From 2276330a9b9e43e487dec359456d16d4f91d2a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:11 +0000
Subject: [PATCH 38/64] fix: .DW, .DL and .DD reject strings

---
 phase_1.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/phase_1.c b/phase_1.c
index 4f00253..cbb4520 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -3627,6 +3627,10 @@ int directive_dw_word_addr(void) {
     print_error(ERROR_INP, ".%s needs data.\n", bak);
     return FAILED;
   }
+  if (number_result == INPUT_NUMBER_STRING) {
+    print_error(ERROR_INP, ".%s doesn't take strings.\n", bak);
+    return FAILED;
+  }
 
   if (number_result == INPUT_NUMBER_EOL)
     next_line();
@@ -3669,6 +3673,10 @@ int directive_dl_long_faraddr(void) {
     print_error(ERROR_INP, ".%s needs data.\n", bak);
     return FAILED;
   }
+  if (number_result == INPUT_NUMBER_STRING) {
+    print_error(ERROR_INP, ".%s doesn't take strings.\n", bak);
+    return FAILED;
+  }
 
   if (number_result == INPUT_NUMBER_EOL)
     next_line();
@@ -3768,6 +3776,10 @@ int directive_dd(void) {
     print_error(ERROR_INP, ".%s needs data.\n", bak);
     return FAILED;
   }
+  if (number_result == INPUT_NUMBER_STRING) {
+    print_error(ERROR_INP, ".%s doesn't take strings.\n", bak);
+    return FAILED;
+  }
 
   if (number_result == INPUT_NUMBER_EOL)
     next_line();
-- 
2.43.0


From dccb3aa5669f16455a5db08bfd651ffab62d9c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:11 +0000
Subject: [PATCH 39/64] fix: .DSB with a label emits the address, not a
 distance

---
 phase_1.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phase_1.c b/phase_1.c
index cbb4520..31f5b31 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -4522,7 +4522,7 @@ int directive_dsb_ds(void) {
     fprintf(g_file_out_ptr, "x%d %d ", parsed_int, g_parsed_int);
   else if (q == INPUT_NUMBER_ADDRESS_LABEL) {
     for (q = 0; q < parsed_int; q++)
-      fprintf(g_file_out_ptr, "R%s ", g_label);
+      fprintf(g_file_out_ptr, "Q%s ", g_label);
   }
   else if (q == INPUT_NUMBER_STACK) {
     int latest_stack = g_latest_stack;
-- 
2.43.0


From 7e941f78f71feee18343930839b0c42ecf71e02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:11 +0000
Subject: [PATCH 40/64] fix: new items of arrays are zero, string indices are
 not negative

---
 phase_1.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/phase_1.c b/phase_1.c
index 31f5b31..aacb62e 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -7701,6 +7701,9 @@ int directive_arrayin(void) {
         return FAILED;
       }
 
+      /* clear the new items */
+      memset(&arr->data[arr->size], 0, sizeof(int) * (index - arr->size));
+
       arr->size = index + 1;
       arr->data[index] = value;
     }
@@ -7857,7 +7860,7 @@ int directive_arraydb_arraydw_arraydl_arraydd(void) {
         int k;
 
         for (k = 0; k < g_string_size; k++) {
-          index = (int)g_label[k];
+          index = (int)(unsigned char)g_label[k];
 
           if (index >= arr->size) {
             print_error(ERROR_DIR, "Index %d ('%c') is out of array \"%s\"'s size of %d items.\n", index, (char)index, arr->name, arr->size);
@@ -7888,7 +7891,7 @@ int directive_arraydb_arraydw_arraydl_arraydd(void) {
         int k;
 
         for (k = 0; k < g_string_size; k++) {
-          index = (int)g_label[k];
+          index = (int)(unsigned char)g_label[k];
 
           if (index >= arr->size) {
             print_error(ERROR_DIR, "Index %d ('%c') is out of array \"%s\"'s size of %d items.\n", index, (char)index, arr->name, arr->size);
@@ -7919,7 +7922,7 @@ int directive_arraydb_arraydw_arraydl_arraydd(void) {
         int k;
 
         for (k = 0; k < g_string_size; k++) {
-          index = (int)g_label[k];
+          index = (int)(unsigned char)g_label[k];
 
           if (index >= arr->size) {
             print_error(ERROR_DIR, "Index %d ('%c') is out of array \"%s\"'s size of %d items.\n", index, (char)index, arr->name, arr->size);
@@ -7952,7 +7955,7 @@ int directive_arraydb_arraydw_arraydl_arraydd(void) {
         int k;
 
         for (k = 0; k < g_string_size; k++) {
-          index = (int)g_label[k];
+          index = (int)(unsigned char)g_label[k];
 
           if (index >= arr->size) {
             print_error(ERROR_DIR, "Index %d ('%c') is out of array \"%s\"'s size of %d items.\n", index, (char)index, arr->name, arr->size);
-- 
2.43.0


From 8f89d53395a9ddc9cdd4e87ac45c9594214e302f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:59 +0000
Subject: [PATCH 41/64] fix: labels made of one repeated character are ordinary
 labels

The assembler took labels like A, i or xx for anonymous ones: they had no
child labels, and two of them in a file were found only by the linker.
---
 phase_3.c | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/phase_3.c b/phase_3.c
index d5a70bc..956ec9f 100644
--- a/phase_3.c
+++ b/phase_3.c
@@ -1288,34 +1288,24 @@ int phase_3(void) {
 /* is the label of form __, -, --, ---, +, ++, +++, -:context, +:context ... ? */
 int is_label_anonymous(char *label) {
 
-  int i, length;
   char c;
 
-  if (strcmp(label, "__") == 0)
-    return YES;
-
-  if (strlen(label) == 2 && label[0] == '_') {
+  /* __, _b and _f, a context might follow */
+  if (label[0] == '_') {
     c = label[1];
-    if (c == 'b' || c == 'B' || c == 'f' || c == 'F')
-      return YES;
+    if (c == '_' || c == 'b' || c == 'B' || c == 'f' || c == 'F') {
+      if (label[2] == 0 || label[2] == ':')
+        return YES;
+    }
+
+    return NO;
   }
 
   c = *label;
   if (c == '-' || c == '+')
     return YES;
 
-  length = (int)strlen(label);
-  for (i = 1; i < length; i++) {
-    if (label[i] == c)
-      continue;
-    /* context follows? */
-    if (label[i] == ':')
-      return YES;
-
-    return NO;
-  }
-  
-  return YES;
+  return NO;
 }
 
 
-- 
2.43.0


From 29a72f48483408344d89722b3eeff3fabb4aeec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:10 +0000
Subject: [PATCH 42/64] fix: local labels outside sections are local to their
 object file

The linker put them into the global namespace: two objects could not use
the same local name, and every object saw the local labels of the others.
---
 wlalink/analyze.c | 11 ++++++++++-
 wlalink/analyze.h |  2 +-
 wlalink/defines.h |  1 +
 wlalink/discard.c |  4 ++--
 wlalink/main.c    |  2 ++
 wlalink/write.c   | 30 +++++++++++++++++++++++-------
 6 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/wlalink/analyze.c b/wlalink/analyze.c
index 283134a..647d529 100644
--- a/wlalink/analyze.c
+++ b/wlalink/analyze.c
@@ -387,7 +387,7 @@ int free_section(struct section *s) {
 }
 
 
-int find_label(char *str, struct section *s, struct label **out) {
+int find_label(char *str, struct section *s, int file_id, struct label **out) {
 
   char *str2, *stripped;
   char prefix[MAX_NAME_LENGTH*2+2];
@@ -434,6 +434,15 @@ int find_label(char *str, struct section *s, struct label **out) {
       return SUCCEEDED;
     }
   }
+  if (str[0] == '_' && file_id >= 0) {
+    /* check the local labels of the object file that are outside its sections */
+    struct object_file *o = get_file(file_id);
+
+    if (o != NULL && o->local_label_map != NULL && hashmap_get(o->local_label_map, str, (void*)&l) == MAP_OK) {
+      *out = l;
+      return SUCCEEDED;
+    }
+  }
   /* check the global namespace */
   if (hashmap_get(g_global_unique_label_map, str, (void*)&l) == MAP_OK) {
     *out = l;
diff --git a/wlalink/analyze.h b/wlalink/analyze.h
index cd93472..69a0653 100644
--- a/wlalink/analyze.h
+++ b/wlalink/analyze.h
@@ -6,7 +6,7 @@ int free_stack(struct stack *s);
 int add_label(struct label *l);
 int add_section(struct section *s);
 int free_section(struct section *s);
-int find_label(char *name, struct section *context, struct label **l);
+int find_label(char *name, struct section *context, int file_id, struct label **l);
 int parse_data_blocks(void);
 int obtain_source_file_names(void);
 int obtain_memorymap(void);
diff --git a/wlalink/defines.h b/wlalink/defines.h
index 948d200..346d37a 100644
--- a/wlalink/defines.h
+++ b/wlalink/defines.h
@@ -104,6 +104,7 @@ struct object_file {
   struct stack **stacks;
   int stacks_max;
   int stacks_array_max;
+  struct map_t *local_label_map;
   struct object_file *next;
 };
 
diff --git a/wlalink/discard.c b/wlalink/discard.c
index e9364e0..e1a52b1 100644
--- a/wlalink/discard.c
+++ b/wlalink/discard.c
@@ -103,7 +103,7 @@ int discard_iteration(void) {
     else
       s = NULL;
 
-    find_label(r->name, s, &l);
+    find_label(r->name, s, r->file_id, &l);
 
     if (l != NULL && l->section_status == ON) {
       s = l->section_struct;
@@ -137,7 +137,7 @@ int discard_iteration(void) {
     i = 0;
     while (i != st->stacksize) {
       if (si->type == STACK_ITEM_TYPE_LABEL && is_label_anonymous(si->string) == NO) {
-        find_label(si->string, ss, &l);
+        find_label(si->string, ss, st->file_id, &l);
 
         if (l != NULL && l->section_struct != NULL) {
           s = l->section_struct;
diff --git a/wlalink/main.c b/wlalink/main.c
index 9c98013..123895a 100644
--- a/wlalink/main.c
+++ b/wlalink/main.c
@@ -808,6 +808,8 @@ static void _procedures_at_exit(void) {
     free(g_obj_first->listfile_ints);
     free(g_obj_first->listfile_cmds);
     free(g_obj_first->stacks);
+    if (g_obj_first->local_label_map != NULL)
+      hashmap_free(g_obj_first->local_label_map);
     o = g_obj_first;
     g_obj_first = g_obj_first->next;
     free(o);
diff --git a/wlalink/write.c b/wlalink/write.c
index 977c327..3c2b624 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -101,7 +101,7 @@ int _cbm_write_prg_header(FILE *f) {
     /* find the address of the label */
     struct label *l;
     
-    find_label(g_load_address_label, NULL, &l);
+    find_label(g_load_address_label, NULL, -1, &l);
 
     if (l == NULL) {
       print_text(NO, "_CBM_WRITE_PRG_HEADER: Cannot find label \"%s\".\n", g_load_address_label);
@@ -1780,6 +1780,22 @@ int insert_label_into_maps(struct label* l, int is_sizeof) {
     }
   }
 
+  else if (put_in_anything && base_name[0] == '_' && l->file_id >= 0 && (is_sizeof || l->status == LABEL_STATUS_LABEL)) {
+    /* a local label outside sections is visible only in its own object file */
+    struct object_file *o = get_file(l->file_id);
+
+    if (o == NULL)
+      return FAILED;
+
+    if (o->local_label_map == NULL)
+      o->local_label_map = hashmap_new();
+
+    if (_try_put_label(o->local_label_map, l) == FAILED)
+      return FAILED;
+
+    put_in_global = 0;
+  }
+
   /* put the label into the global namespace */
   if (put_in_anything && put_in_global) {
     if (_try_put_label(g_global_unique_label_map, l) == FAILED)
@@ -2000,7 +2016,7 @@ int fix_references(void) {
         l = &lt;
       }
       else
-        find_label(&r->name[1], s, &l);
+        find_label(&r->name[1], s, r->file_id, &l);
 
       if (l == NULL || l->status == LABEL_STATUS_SYMBOL || l->status == LABEL_STATUS_BREAKPOINT) {
         print_text(NO, "%s: %s:%d: FIX_REFERENCES: Bank number request for an unknown label \"%s\".\n",
@@ -2112,7 +2128,7 @@ int fix_references(void) {
         l = &lt;
       }
       else
-        find_label(r->name, s, &l);
+        find_label(r->name, s, r->file_id, &l);
 
       if (l == NULL || l->status == LABEL_STATUS_SYMBOL || l->status == LABEL_STATUS_BREAKPOINT) {
         print_text(NO, "%s: %s:%d: FIX_REFERENCES: Reference to an unknown label \"%s\".\n",
@@ -2667,7 +2683,7 @@ static int _get_rom_address_of_label(char *label, int *address) {
 
   struct label *l;
 
-  find_label(label, NULL, &l);
+  find_label(label, NULL, -1, &l);
 
   if (l == NULL) {
     print_text(NO, "_GET_ROM_ADDRESS_OF_LABEL: Cannot find label \"%s\".\n", label);
@@ -4226,7 +4242,7 @@ int write_bank_header_references(struct reference *r) {
   t = s->data + r->address;
 
   /* find the destination */
-  find_label(r->name, s, &l);
+  find_label(r->name, s, r->file_id, &l);
   if (l != NULL) {
     a = (int)l->address;
     /* direct 16-bit */
@@ -4487,13 +4503,13 @@ int parse_stack(struct stack *sta) {
           l = &lt;
         }
         else {
-          find_label(si->string, s, &l);
+          find_label(si->string, s, sta->file_id, &l);
 
           /* find matches until something else than a label is found */
           while (l != NULL && l->status == LABEL_STATUS_LABEL) {
             struct label *label_old = l;
             
-            find_label(l->string, s, &l);
+            find_label(l->string, s, sta->file_id, &l);
 
             if (l == NULL) {
               l = label_old;
-- 
2.43.0


From 9140a33cee35f144d015dd45345824b49c6d990c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:56 +0000
Subject: [PATCH 43/64] fix: children of labels in isolated macros keep their
 parents' context

The context of an ISOLATED .MACRO belongs to the parent part of a child
label's full name; definitions, references and the calculations' parent
tracking built the name in three different ways.
---
 phase_1.c |  3 ++-
 phase_3.c | 20 +++++++++++++++-----
 phase_4.c | 11 ++++++++---
 3 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/phase_1.c b/phase_1.c
index aacb62e..0a76213 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -9463,7 +9463,8 @@ int directive_endm(void) {
     /* macro call end */
     fprintf(g_file_out_ptr, "I%d %s ", g_macro_stack[g_macro_active].macro->id, g_macro_stack[g_macro_active].macro->name);
 
-    if (g_macro_stack[g_macro_active].macro->child_labels == YES)
+    if (g_macro_stack[g_macro_active].macro->child_labels == YES || g_macro_stack[g_macro_active].macro->isolated_local == YES ||
+        g_macro_stack[g_macro_active].macro->isolated_unnamed == YES)
       g_current_child_label_level = g_macro_stack[g_macro_active].child_label_level;
     
     /* free the arguments */
diff --git a/phase_3.c b/phase_3.c
index 956ec9f..4ae28aa 100644
--- a/phase_3.c
+++ b/phase_3.c
@@ -479,7 +479,7 @@ int phase_3(void) {
             }
           }
 
-          if (c == 'L' && (is_label_anonymous(l->label) == YES || l->label[0] == '_') && g_label_context_last->isolated_macro != NULL) {
+          if (c == 'L' && mangled_label == NO && (is_label_anonymous(l->label) == YES || l->label[0] == '_') && g_label_context_last->isolated_macro != NULL) {
             if (add_context_to_anonymous_label(l->label, sizeof(l->label), g_label_context_last, file_name_id, line_number) == FAILED)
               return FAILED;
           }
@@ -1175,7 +1175,7 @@ int phase_3(void) {
           }
         }
 
-        if (c == 'L' && (is_label_anonymous(l->label) == YES || l->label[0] == '_') && g_label_context_last->isolated_macro != NULL) {
+        if (c == 'L' && mangled_label == NO && (is_label_anonymous(l->label) == YES || l->label[0] == '_') && g_label_context_last->isolated_macro != NULL) {
           if (add_context_to_anonymous_label(l->label, sizeof(l->label), g_label_context_last, file_name_id, line_number) == FAILED)
             return FAILED;
         }
@@ -1441,7 +1441,7 @@ int process_macro_out(int id, char *name, int file_name_id, int line_number) {
 
 int add_context_to_anonymous_label(char *label, int label_size, struct label_context *label_context, int file_name_id, int line_number) {
 
-  char new_label[MAX_NAME_LENGTH + 1];
+  char new_label[MAX_NAME_LENGTH + 1], child[MAX_NAME_LENGTH + 1];
   int can_do = NO;
 
   if (is_label_anonymous(label) == YES) {
@@ -1454,10 +1454,20 @@ int add_context_to_anonymous_label(char *label, int label_size, struct label_con
   }
 
   if (can_do == YES) {
-    int full_length = (int)strlen(label) + 1 + (int)strlen(label_context->isolated_macro->name) + 1 + (int)strlen(g_asm_name) + 10;
+    char *c = strchr(label, '@');
+    int full_length;
+
+    /* the context belongs to the parent label */
+    child[0] = 0;
+    if (c != NULL) {
+      strcpy(child, c);
+      *c = 0;
+    }
+    
+    full_length = (int)strlen(label) + 1 + (int)strlen(label_context->isolated_macro->name) + 1 + (int)strlen(g_asm_name) + 10 + (int)strlen(child);
 
     if (full_length < label_size - 1 && full_length < (int)(sizeof(new_label) - 1)) {
-      snprintf(new_label, sizeof(new_label), "%s:%s_%s_%d", label, g_asm_name, label_context->isolated_macro->name, label_context->running_number);
+      snprintf(new_label, sizeof(new_label), "%s:%s_%s_%d%s", label, g_asm_name, label_context->isolated_macro->name, label_context->running_number, child);
       strcpy(label, new_label);
     }
     else {
diff --git a/phase_4.c b/phase_4.c
index 9c15406..bbf2b44 100644
--- a/phase_4.c
+++ b/phase_4.c
@@ -239,9 +239,9 @@ static int _mangle_stack_references(struct stack *stack) {
           return FAILED;
       }
 
-      /* add current ISOLATED .MACRO context? */
+      /* add current ISOLATED .MACRO context? the parent of a mangled label has it already */
       s = stack->stack_items[ind].string;
-      if ((is_label_anonymous(s) == YES || s[0] == '_' || strcmp(s, "_b") == 0 || strcmp(s, "_f") == 0) && g_label_context_last->isolated_macro != NULL) {
+      if (n < 0 && (is_label_anonymous(s) == YES || s[0] == '_' || strcmp(s, "_b") == 0 || strcmp(s, "_f") == 0) && g_label_context_last->isolated_macro != NULL) {
         if (add_context_to_anonymous_label(s, sizeof(stack->stack_items[ind].string), g_label_context_last, s_filename_id, s_line_number) == FAILED)
           return FAILED;
       }
@@ -1091,7 +1091,12 @@ int phase_4(void) {
                 return FAILED;
             }
           }
-            
+
+          if (g_tmp[0] == '_' && mangled_label == NO && g_label_context_last->isolated_macro != NULL) {
+            if (add_context_to_anonymous_label(g_tmp, g_sizeof_g_tmp, g_label_context_last, s_filename_id, s_line_number) == FAILED)
+              return FAILED;
+          }
+
           if (m < 10 && find_label(g_tmp, g_sec_tmp, (void*)&l) == SUCCEEDED)
             g_label_context_last->parent_labels[m] = l;
         }
-- 
2.43.0


From 9ba90e7f094ee8c5a6e8088f995f6c31fc471058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:57 +0000
Subject: [PATCH 44/64] fix: the data stream parser follows the scoping rules
 of labels

An expression that needs a label early (.DW baz+2, .IF) ignored section
namespaces, the file of an include namespace, local parents and isolated
macros, and could silently resolve to another label.
---
 defines.h |   2 +
 stack.c   | 138 ++++++++++++++++++++++++++++++++++++++++++++++++------
 2 files changed, 125 insertions(+), 15 deletions(-)

diff --git a/defines.h b/defines.h
index fe59752..934c598 100644
--- a/defines.h
+++ b/defines.h
@@ -898,6 +898,8 @@ struct stack_item_priority_item {
 
 struct data_stream_item {
   char label[MAX_NAME_LENGTH + 1];
+  struct namespace_def *nspace;
+  int  file_name_id;
   int  section_id;
   int  address;
   int  bank;
diff --git a/stack.c b/stack.c
index ff808d1..6bde1bc 100644
--- a/stack.c
+++ b/stack.c
@@ -1582,7 +1582,17 @@ static int _parse_function_math3_base(char **in, struct stack_item *si, int *q,
 }
 
 
+struct dsp_label_context {
+  struct data_stream_item *parent_labels[10];
+  struct dsp_label_context *next;
+};
+
 static struct data_stream_item *s_dsp_parent_labels[10];
+static struct dsp_label_context *s_dsp_label_contexts = NULL;
+static struct section_def *s_dsp_s = NULL;
+
+extern struct macro_static *g_macros_first;
+extern char g_namespace[MAX_NAME_LENGTH + 1];
 static struct map_t *s_dsp_labels_map = NULL;
 
 
@@ -1591,26 +1601,49 @@ static struct data_stream_item *_data_stream_parser_find_label(char *label, int
   char mangled_label[MAX_NAME_LENGTH+1];
   struct data_stream_item *dSI;
 
-  if (s_dsp_labels_map == NULL)
+  if (s_dsp_labels_map == NULL || is_label_anonymous(label) == YES)
     return NULL;
 
   strcpy(mangled_label, label);
   
-  if (is_label_anonymous(label) == NO) {
-    /* if the label has '@' at the start, mangle the label name to get its full form */
+  if (label[0] == '@') {
+    /* the label has '@' at the start, mangle the label name to get its full form */
     int n = 0;
 
     while (n < 10 && label[n] == '@')
       n++;
     n--;
+    while (n >= 0 && s_dsp_parent_labels[n] == NULL)
+      n--;
+
+    if (n < 0)
+      return NULL;
+    if (mangle_label(mangled_label, s_dsp_parent_labels[n]->label, n, MAX_NAME_LENGTH, file_name_id, line_number) == FAILED)
+      return NULL;
+  }
+  else {
+    char *name_space = NULL;
+
+    /* the same name inside the current namespace? */
+    if (s_dsp_s != NULL && s_dsp_s->nspace != NULL)
+      name_space = s_dsp_s->nspace->name;
+    else if (g_namespace[0] != 0)
+      name_space = g_namespace;
 
-    if (n >= 0) {
-      if (s_dsp_parent_labels[n] == NULL) {
-        print_text(NO, "_DATA_STREAM_PARSER_FIND_LABEL: Parent of label \"%s\" is missing! Please submit a bug report!\n", label);
+    if (name_space != NULL && label[0] != '_') {
+      if (add_namespace(mangled_label, name_space, sizeof(mangled_label), file_name_id, line_number) == FAILED)
         return NULL;
+
+      if (hashmap_get(s_dsp_labels_map, mangled_label, (void *)&dSI) == MAP_OK) {
+        if (dSI->nspace != NULL || dSI->file_name_id == file_name_id)
+          return dSI;
       }
-      if (mangle_label(mangled_label, s_dsp_parent_labels[n]->label, n, MAX_NAME_LENGTH, file_name_id, line_number) == FAILED)
+
+      /* the label could still appear in the namespace, so if we don't need the label right now we leave it to the later phases */
+      if (g_input_parse_if == NO)
         return NULL;
+
+      strcpy(mangled_label, label);
     }
   }
 
@@ -1620,6 +1653,56 @@ static struct data_stream_item *_data_stream_parser_find_label(char *label, int
 }
 
 
+static int _data_stream_parser_is_macro_isolated(int id) {
+
+  struct macro_static *macro = g_macros_first;
+
+  while (macro != NULL) {
+    if (macro->id == id)
+      return (macro->isolated_local == YES || macro->isolated_unnamed == YES) ? YES : NO;
+    macro = macro->next;
+  }
+
+  return NO;
+}
+
+
+static int _data_stream_parser_macro_in(int id) {
+
+  struct dsp_label_context *context;
+
+  if (_data_stream_parser_is_macro_isolated(id) == NO)
+    return SUCCEEDED;
+
+  /* an ISOLATED .MACRO has its own child label stack */
+  context = calloc(sizeof(struct dsp_label_context), 1);
+  if (context == NULL) {
+    print_error(ERROR_ERR, "Out of memory error while allocating a label context.\n");
+    return FAILED;
+  }
+
+  memcpy(context->parent_labels, s_dsp_parent_labels, sizeof(s_dsp_parent_labels));
+  context->next = s_dsp_label_contexts;
+  s_dsp_label_contexts = context;
+  memset(s_dsp_parent_labels, 0, sizeof(s_dsp_parent_labels));
+
+  return SUCCEEDED;
+}
+
+
+static void _data_stream_parser_macro_out(int id) {
+
+  struct dsp_label_context *context = s_dsp_label_contexts;
+
+  if (context == NULL || _data_stream_parser_is_macro_isolated(id) == NO)
+    return;
+
+  memcpy(s_dsp_parent_labels, context->parent_labels, sizeof(s_dsp_parent_labels));
+  s_dsp_label_contexts = context->next;
+  free(context);
+}
+
+
 static int _is_section_address_fixed(struct section_def *section) {
 
   struct after_section *as;
@@ -4962,7 +5045,6 @@ extern FILE *g_file_out_ptr;
 static int s_dsp_last_data_stream_position = 0, s_dsp_has_data_stream_parser_been_initialized = NO, s_dsp_base = -1;
 static int s_dsp_add = 0, s_dsp_add_old = 0, s_dsp_section_id = -1, s_dsp_bits_current = 0, s_dsp_inz;
 static int s_dstruct_start, s_dstruct_item_offset, s_dstruct_item_size, s_dsp_bank = 0, s_dsp_slot = 0;
-static struct section_def *s_dsp_s = NULL;
 static struct data_stream_item *s_data_stream_items_first = NULL, *s_data_stream_items_last = NULL;
 
 
@@ -5015,6 +5097,12 @@ int data_stream_parser_free(void) {
   s_data_stream_items_first = NULL;
   s_data_stream_items_last = NULL;
 
+  while (s_dsp_label_contexts != NULL) {
+    struct dsp_label_context *next = s_dsp_label_contexts->next;
+    free(s_dsp_label_contexts);
+    s_dsp_label_contexts = next;
+  }
+
   return SUCCEEDED;
 }
 
@@ -5074,6 +5162,8 @@ int data_stream_parser_parse(void) {
       err = fscanf(g_file_out_ptr, STRING_READ_FORMAT, temp_s);
       if (err < 1)
         return _print_fscanf_error_accessing_internal_data_stream(s_dsp_file_name_id, s_dsp_line_number, c, err);
+      if (_data_stream_parser_macro_in(temp_1) == FAILED)
+        return FAILED;
       continue;
     case 'I':
       err = fscanf(g_file_out_ptr, "%d ", &temp_1);
@@ -5082,6 +5172,7 @@ int data_stream_parser_parse(void) {
       err = fscanf(g_file_out_ptr, STRING_READ_FORMAT, temp_s);
       if (err < 1)
         return _print_fscanf_error_accessing_internal_data_stream(s_dsp_file_name_id, s_dsp_line_number, c, err);
+      _data_stream_parser_macro_out(temp_1);
       continue;
 
     case 'P':
@@ -5395,13 +5486,13 @@ int data_stream_parser_parse(void) {
         if (err < 1)
           return _print_fscanf_error_accessing_internal_data_stream(s_dsp_file_name_id, s_dsp_line_number, c, err);
         
-        if (is_label_anonymous(dSI->label) == YES || dSI->label[0] == '_') {
-          /* we skip anonymous and local labels here, too much trouble */
+        if (is_label_anonymous(dSI->label) == YES) {
+          /* we skip anonymous labels here, too much trouble */
           free(dSI);
         }
         else {
           /* if the label has '@' at the start, mangle the label name to make it unique */
-          int n = 0, m;
+          int n = 0, m, is_known = YES;
 
           while (n < 10 && dSI->label[n] == '@')
             n++;
@@ -5415,30 +5506,47 @@ int data_stream_parser_parse(void) {
           while (n >= 0 && s_dsp_parent_labels[n] == 0)
             n--;
 
+          if (s_dsp_s != NULL)
+            dSI->nspace = s_dsp_s->nspace;
+
           if (n >= 0) {
             /* mangle the label so that we'll save only full forms of labels */
             if (mangle_label(dSI->label, s_dsp_parent_labels[n]->label, n, MAX_NAME_LENGTH, s_dsp_file_name_id, s_dsp_line_number) == FAILED)
               return FAILED;
 
             mangled_label = YES;
+
+            /* a child in a section of another namespace than its parent has no name we could use here */
+            if (dSI->nspace != s_dsp_parent_labels[n]->nspace)
+              is_known = NO;
           }
 
-          if (is_label_anonymous(dSI->label) == NO && g_namespace[0] != 0 && mangled_label == NO) {
-            if (s_dsp_section_id < 0 || s_dsp_s->nspace == NULL) {
-              if (add_namespace(dSI->label, g_namespace, sizeof(dSI->label), s_dsp_file_name_id, s_dsp_line_number) == FAILED)
+          if (mangled_label == NO) {
+            char *name_space = g_namespace;
+
+            if (dSI->nspace != NULL)
+              name_space = dSI->nspace->name;
+
+            if (name_space[0] != 0) {
+              if (add_namespace(dSI->label, name_space, sizeof(dSI->label), s_dsp_file_name_id, s_dsp_line_number) == FAILED)
                 return FAILED;
             }
           }
+
+          /* local labels have the same names in many places, we leave them to the later phases */
+          if (dSI->label[0] == '_')
+            is_known = NO;
         
           dSI->next = NULL;
           dSI->address = s_dsp_add;
           dSI->section_id = s_dsp_section_id;
+          dSI->file_name_id = s_dsp_file_name_id;
           dSI->bank = s_dsp_bank;
           dSI->slot = s_dsp_slot;
           dSI->base = s_dsp_base;
 
           /* store the entry in a hashmap for quick discovery */
-          if (hashmap_put(s_dsp_labels_map, dSI->label, dSI) == MAP_OMEM) {
+          if (is_known == YES && hashmap_put(s_dsp_labels_map, dSI->label, dSI) == MAP_OMEM) {
             print_text(NO, "data_stream_parser_parse(): Out of memory error while trying to insert label \"%s\" into a hashmap.\n", dSI->label);
             return FAILED;
           }
-- 
2.43.0


From 66cdfe9f60f466f15e3512c95282e54bb9b97777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:19 +0000
Subject: [PATCH 45/64] fix: list files (-i) of sources that use a namespace

---
 listfile.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/listfile.c b/listfile.c
index 2e1aa43..6e94ed2 100644
--- a/listfile.c
+++ b/listfile.c
@@ -392,9 +392,16 @@ int listfile_collect(void) {
       continue;
 
     case 't':
-      err = fscanf(g_file_out_ptr, "%*s ");
-      if (err < 0)
+      err = fscanf(g_file_out_ptr, "%d ", &inz);
+      if (err < 1)
         return _print_fscanf_error_accessing_internal_data_stream(file_name_id, line_number);
+
+      /* skip the name of the namespace */
+      if (inz != 0) {
+        err = fscanf(g_file_out_ptr, "%*s ");
+        if (err < 0)
+          return _print_fscanf_error_accessing_internal_data_stream(file_name_id, line_number);
+      }
       continue;
       
     case 'Y':
-- 
2.43.0


From 5512b72b6e494e89e51ba85c3554ad3ce53369f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:20 +0000
Subject: [PATCH 46/64] fix: report output files that could not be written
 completely, and name side outputs of extensionless files correctly

---
 main.c             |  6 ++++++
 phase_4.c          | 28 ++++++++++++++++++++++------
 wlalink/listfile.c | 23 ++++++++++++++++++++---
 wlalink/write.c    | 32 ++++++++++++++++++++++++--------
 4 files changed, 72 insertions(+), 17 deletions(-)

diff --git a/main.c b/main.c
index bee47ab..907f15b 100644
--- a/main.c
+++ b/main.c
@@ -1177,6 +1177,12 @@ int main(int argc, char *argv[]) {
     return 1;
   PROFILE_END("phase_1");
 
+  /* the internal data stream must be complete, otherwise we'd produce an incomplete output */
+  if (fflush(g_file_out_ptr) != 0 || ferror(g_file_out_ptr) != 0) {
+    print_text(NO, "MAIN: Error writing a tmp file.\n");
+    return 1;
+  }
+
   /* disable data stream parser so it doesn't interfere with phase 2+ - everything the data stream parser
      can help us with should be done at this point */
   g_is_data_stream_parser_enabled = NO;
diff --git a/phase_4.c b/phase_4.c
index bbf2b44..0879925 100644
--- a/phase_4.c
+++ b/phase_4.c
@@ -2127,6 +2127,26 @@ int phase_4(void) {
 }
 
 
+static int _close_final_file(FILE *final_ptr) {
+
+  int failed = NO;
+
+  /* did everything we wrote reach the file? */
+  if (ferror(final_ptr) != 0)
+    failed = YES;
+  if (fclose(final_ptr) != 0)
+    failed = YES;
+
+  if (failed == YES) {
+    print_text(NO, "INTERNAL_PHASE_2: Error writing file \"%s\".\n", g_final_name);
+    remove(g_final_name);
+    return FAILED;
+  }
+
+  return SUCCEEDED;
+}
+
+
 int write_object_file(void) {
 
   int ind, ov, inz, i;
@@ -2604,9 +2624,7 @@ int write_object_file(void) {
     g_sec_tmp = g_sec_tmp->next;
   }
 
-  fclose(final_ptr);
-
-  return SUCCEEDED;
+  return _close_final_file(final_ptr);
 }
 
 
@@ -2864,9 +2882,7 @@ int write_library_file(void) {
     g_sec_tmp = g_sec_tmp->next;
   }
 
-  fclose(final_ptr);
-
-  return SUCCEEDED;
+  return _close_final_file(final_ptr);
 }
 
 
diff --git a/wlalink/listfile.c b/wlalink/listfile.c
index 8b3bd60..2898b3e 100644
--- a/wlalink/listfile.c
+++ b/wlalink/listfile.c
@@ -303,6 +303,12 @@ int listfile_write_listfiles(void) {
 
     source_file_name = listfileitems_ptr[j]->sourcefilename;
     f = fopen(source_file_name, "rb");
+    if (f == NULL) {
+      print_text(NO, "LISTFILE_WRITE_LISTFILES: Could not open file \"%s\" for reading.\n", source_file_name);
+      free(listfileitems);
+      free(listfileitems_ptr);
+      return FAILED;
+    }
     fseek(f, 0, SEEK_END);
     file_size = (int)ftell(f);
     fseek(f, 0, SEEK_SET);
@@ -329,9 +335,12 @@ int listfile_write_listfiles(void) {
 
     strcpy(tmp, source_file_name);
     for (i = (int)(strlen(tmp)-1); i >= 0; i--) {
-      if (tmp[i] == '.')
+      if (tmp[i] == '.' || tmp[i] == '/' || tmp[i] == '\\')
         break;
     }
+    /* the file name has no extension? */
+    if (i < 0 || tmp[i] != '.')
+      i = (int)strlen(tmp);
     strcpy(&tmp[i], ".lst");
 
     f = fopen(tmp, "wb");
@@ -520,10 +529,18 @@ int listfile_write_listfiles(void) {
       }
     }
 
-    fclose(f);
-
     if (source_file != NULL)
       free(source_file);
+
+    /* did everything we wrote reach the file? */
+    i = ferror(f);
+    if (fclose(f) != 0 || i != 0) {
+      print_text(NO, "LISTFILE_WRITE_LISTFILES: Error writing file \"%s\".\n", tmp);
+      remove(tmp);
+      free(listfileitems);
+      free(listfileitems_ptr);
+      return FAILED;
+    }
   }
 
   if (listfileitems != NULL)
diff --git a/wlalink/write.c b/wlalink/write.c
index 3c2b624..e6af91d 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -2335,6 +2335,26 @@ static void _fprintf_snes_label(FILE *f, struct label *l, int noca5h) {
 }
 
 
+static int _close_output_file(FILE *f, char *name) {
+
+  int failed = NO;
+
+  /* did everything we wrote reach the file? */
+  if (ferror(f) != 0)
+    failed = YES;
+  if (fclose(f) != 0)
+    failed = YES;
+
+  if (failed == YES) {
+    print_text(NO, "CLOSE_OUTPUT_FILE: Error writing file \"%s\".\n", name);
+    remove(name);
+    return FAILED;
+  }
+
+  return SUCCEEDED;
+}
+
+
 int write_symbol_file(char *outname, int mode, int output_addr_to_line) {
 
   struct source_file_name *src_file;
@@ -2358,9 +2378,9 @@ int write_symbol_file(char *outname, int mode, int output_addr_to_line) {
 
   strcpy(name, outname);
   y = name_len-1;
-  while (y >= 0 && name[y] != '.' && name[y] != 0)
+  while (y >= 0 && name[y] != '.' && name[y] != '/' && name[y] != '\\')
     y--;
-  if (y < 0)
+  if (y < 0 || name[y] != '.')
     y = name_len;
 
   name[y++] = '.';
@@ -2673,9 +2693,7 @@ int write_symbol_file(char *outname, int mode, int output_addr_to_line) {
     }
   }
 
-  fclose(f);
-
-  return SUCCEEDED;
+  return _close_output_file(f, name);
 }
 
 
@@ -2811,9 +2829,7 @@ int write_rom_file(char *outname) {
   if (g_file_footer != NULL)
     fwrite(g_file_footer, 1, g_file_footer_size, f);
 
-  fclose(f);
-
-  return SUCCEEDED;
+  return _close_output_file(f, outname);
 }
 
 
-- 
2.43.0


From 663913ed709044d50e52a993b5c05e7d4ee139ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:50 +0000
Subject: [PATCH 47/64] fix: reject a negative .ORG instead of writing outside
 the ROM image

---
 phase_1.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phase_1.c b/phase_1.c
index 0a76213..4d11da8 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -2595,7 +2595,7 @@ int directive_org(void) {
   if (q == FAILED)
     return FAILED;
 
-  if (q != SUCCEEDED) {
+  if (q != SUCCEEDED || g_parsed_int < 0) {
     print_error(ERROR_DIR, ".ORG needs a positive or zero integer value.\n");
     return FAILED;
   }
-- 
2.43.0


From 52427a9bf2c2c1bc6051d2033bcb63c84efa4ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:45 +0000
Subject: [PATCH 48/64] fix: list files (-i) of sources with 16-bit relative
 references on all processors

---
 listfile.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/listfile.c b/listfile.c
index 6e94ed2..f1aec35 100644
--- a/listfile.c
+++ b/listfile.c
@@ -269,9 +269,7 @@ int listfile_collect(void) {
     case '.':
       continue;
 
-#if defined(W65816)
     case 'M':
-#endif
     case 'r':
       err = fscanf(g_file_out_ptr, "%*s ");
       if (err < 0)
-- 
2.43.0


From c67dc787aba7b0422ed96fef3e55bfb4befcd585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:51 +0000
Subject: [PATCH 49/64] fix: RETURNORG in a library crashed the assembler

---
 phase_4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phase_4.c b/phase_4.c
index 0879925..9eae91b 100644
--- a/phase_4.c
+++ b/phase_4.c
@@ -499,7 +499,7 @@ int phase_4(void) {
       g_bankheader_status = OFF;
 
       /* some sections don't affect the ORG outside of them */
-      if (g_sec_tmp->advance_org == NO) {
+      if (g_sec_tmp->advance_org == NO && g_output_format != OUTPUT_LIBRARY) {
         s_pc_bank = add_old;
         s_pc_full = g_bankaddress[s_rom_bank] + s_pc_bank;
         s_pc_slot = g_slots[s_slot].address + s_pc_bank;
-- 
2.43.0


From e4e1422cf1495af26188bd94a0721cce997bccb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:56 +0000
Subject: [PATCH 50/64] fix: the bank operator gave the next bank for a label
 at the end of a bank

---
 wlalink/write.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/wlalink/write.c b/wlalink/write.c
index e6af91d..60bcc51 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -3103,18 +3103,20 @@ int compute_pending_calculations(void) {
 }
 
 
-static int _get_bank_of_address(int address, int slot, int bank) {
+static int _get_bank_of_address(int address, int slot, int bank, int is_label) {
 
-  int start_address, slot_size, j;
+  int start_address, slot_size, j, limit;
 
   if (address < 0)
     return -1;
 
   if (slot >= 0 && bank >= 0) {
-    /* is the address inside the bank (ROM or RAM) of the labels it was calculated from? */
-    if (bank < g_rombanks && address >= g_bankaddress[bank] && address < g_bankaddress[bank] + g_banksizes[bank])
+    /* is the address inside the bank (ROM or RAM) of the labels it was calculated from? a label at the
+       very end of a bank still belongs to the bank */
+    limit = is_label == YES ? 1 : 0;
+    if (bank < g_rombanks && address >= g_bankaddress[bank] && address < g_bankaddress[bank] + g_banksizes[bank] + limit)
       return bank;
-    if (address >= g_slots[slot].size * bank && address < g_slots[slot].size * (bank + 1))
+    if (address >= g_slots[slot].size * bank && address < g_slots[slot].size * (bank + 1) + limit)
       return bank;
   }
 
@@ -3703,7 +3705,7 @@ int compute_stack(struct stack *sta, double *result_ram, double *result_rom, int
         break;
       case SI_OP_BANK:
         z = (int)v_rom[t - 1];
-        y = _get_bank_of_address(z, slot[t - 1], bank[t - 1]);
+        y = _get_bank_of_address(z, slot[t - 1], bank[t - 1], r > 0 && sta->stack_items[r - 1].type == STACK_ITEM_TYPE_LABEL ? YES : NO);
         if (y < 0) {
           print_text(NO, "%s: %s:%d: COMPUTE_STACK: Could not get the bank number for ROM address %d/$%x (out of bounds).\n", get_file_name(sta->file_id),
                   get_source_file_name(sta->file_id, sta->file_id_source), sta->linenumber, z, z);
-- 
2.43.0


From 473174cd7f9aaffd11f96fd0e13e8eb6d2d1e43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:13 +0000
Subject: [PATCH 51/64] fix: .INCBIN with a negative SKIP or too negative READ,
 and with names that exist already

---
 include.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include.c b/include.c
index 7f03a88..c802b03 100644
--- a/include.c
+++ b/include.c
@@ -556,12 +556,18 @@ int incbin_file(char *name, int *id, int *swap, int *skip, int *read, struct mac
 
   *id = q;
 
+  if (*skip < 0) {
+    print_error(ERROR_INB, "SKIP must not be negative (%d).\n", *skip);
+    return FAILED;
+  }
   if (*skip >= file_size && g_makefile_skip_file_handling == NO) {
     print_error(ERROR_INB, "SKIP value (%d) is more than the size (%d) of file \"%s\".\n", *skip, file_size, g_full_name);
     return FAILED;
   }
-  if (fsize_label[0] != 0)
-    add_a_new_definition(fsize_label, (double)file_size, NULL, DEFINITION_TYPE_VALUE, 0);
+  if (fsize_label[0] != 0) {
+    if (add_a_new_definition(fsize_label, (double)file_size, NULL, DEFINITION_TYPE_VALUE, 0) == FAILED)
+      return FAILED;
+  }
   
   if (g_makefile_skip_file_handling == YES) {
     /* if in test mode, fake the data to be enough to read */
@@ -584,6 +590,10 @@ int incbin_file(char *name, int *id, int *swap, int *skip, int *read, struct mac
   else if (*read == 0)
     *read = file_size - *skip;
 
+  if (*read < 0) {
+    print_error(ERROR_INB, "There are %d bytes too few in file \"%s\" for SKIP and READ.\n", -*read, g_full_name);
+    return FAILED;
+  }
   if (*skip + *read > file_size) {
     print_error(ERROR_INB, "Overreading file \"%s\" by %d bytes.\n", g_full_name, *skip + *read - file_size);
     return FAILED;
@@ -607,8 +617,10 @@ int incbin_file(char *name, int *id, int *swap, int *skip, int *read, struct mac
     return FAILED;
   }
 
-  if (freadsize_label[0] != 0)
-    add_a_new_definition(freadsize_label, (double)*read, NULL, DEFINITION_TYPE_VALUE, 0);
+  if (freadsize_label[0] != 0) {
+    if (add_a_new_definition(freadsize_label, (double)*read, NULL, DEFINITION_TYPE_VALUE, 0) == FAILED)
+      return FAILED;
+  }
   
   return SUCCEEDED;
 }
-- 
2.43.0


From 7d25f0dc6f058b8e8ec468e7fb7982f9805f0c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:13 +0000
Subject: [PATCH 52/64] fix: .FSEEK before the start of the file was ignored

---
 phase_1.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/phase_1.c b/phase_1.c
index 4d11da8..abb31a7 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -6356,7 +6356,10 @@ int directive_fseek(void) {
   
   skip_next_token();
   
-  fseek(f->f, position, mode);
+  if (fseek(f->f, position, mode) != 0) {
+    print_error(ERROR_DIR, ".FSEEK couldn't set the position of file \"%s\" (%s).\n", f->filename, f->name);
+    return FAILED;
+  }
 
   return SUCCEEDED;
 }
-- 
2.43.0


From 54029c8bfc2da21e9b3170a170c255838d60c4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:21 +0000
Subject: [PATCH 53/64] fix: the SMD checksum was the sum of little endian
 words on little endian hosts

The checksum of a Mega Drive ROM is the 16-bit sum of its big endian words
from $200 on, whatever machine WLALINK runs on.
---
 wlalink/compute.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wlalink/compute.c b/wlalink/compute.c
index 5714d9e..de0d432 100644
--- a/wlalink/compute.c
+++ b/wlalink/compute.c
@@ -201,7 +201,6 @@ int compute_gb_complement_check(void) {
 
 int compute_smd_checksum(void) {
 
-  unsigned short int *rom = (unsigned short int *)g_rom;
   int checksum, j;
 
   if (g_romsize < 0x1000) {
@@ -211,8 +210,9 @@ int compute_smd_checksum(void) {
 
   checksum = 0;
 
-  for (j = 0x100; j < g_romsize/2; j++)
-    checksum += rom[j];
+  /* the words are big endian */
+  for (j = 0x200; j + 1 < g_romsize; j += 2)
+    checksum += (g_rom[j] << 8) | g_rom[j + 1];
 
   /* create a what-we-are-doing message for mem_insert*() warnings/errors */
   snprintf(g_mem_insert_action, sizeof(g_mem_insert_action), "%s", "Writing SMD ROM checksum bytes");
-- 
2.43.0


From 7f7eb0a2baddf507fe317a55c63031961704d7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:39 +0000
Subject: [PATCH 54/64] fix: .UNBACKGROUND beyond the end of the ROM cleared a
 byte after the ROM

---
 phase_1.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phase_1.c b/phase_1.c
index abb31a7..25c5990 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -7091,8 +7091,8 @@ int directive_unbackground(void) {
     return FAILED;
   }
   if (end >= g_max_address) {
-    end = g_max_address;
     print_error(ERROR_WRN, "The block's ending address $%x is beyond the ROM's ending address $%x. Using the ROM's ending address instead.\n", end, g_max_address-1);
+    end = g_max_address - 1;
   }
   
   /* clear the memory [start, end] */
-- 
2.43.0


From 7729ea6ac10fb30102ea9841eb09a9d2ee2da9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:39 +0000
Subject: [PATCH 55/64] fix: -bS and -bE outside of the ROM or in the wrong
 order

-bE at the size of the ROM read a byte after the ROM, an end before the first
used byte wrote an incomplete file (a negative size) and succeeded, and so did
a program without any used bytes.
---
 wlalink/write.c | 51 ++++++++++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/wlalink/write.c b/wlalink/write.c
index 60bcc51..d254b1d 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -2727,7 +2727,7 @@ int write_rom_file(char *outname) {
 
   struct section *s;
   FILE *f;
-  int i, b, e;
+  int i, b = 0, e = 0;
   
   /* get the addresses of the program start and end */
   if (g_program_address_start_type == LOAD_ADDRESS_TYPE_LABEL) {
@@ -2739,11 +2739,11 @@ int write_rom_file(char *outname) {
       return FAILED;
   }
 
-  if (g_program_address_start > g_romsize) {
+  if (g_program_address_start >= g_romsize) {
     print_text(NO, "WRITE_ROM_FILE: The supplied -bS ($%x) overflows from the ROM!\n", g_program_address_start);
     return FAILED;
   }
-  if (g_program_address_end > g_romsize) {
+  if (g_program_address_end >= g_romsize) {
     print_text(NO, "WRITE_ROM_FILE: The supplied -bE ($%x) overflows from the ROM!\n", g_program_address_end);
     return FAILED;
   }
@@ -2752,6 +2752,30 @@ int write_rom_file(char *outname) {
     return FAILED;
   }
 
+  if (g_output_mode != OUTPUT_ROM) {
+    /* find the first and the last used byte */
+    for (b = 0; b < g_romsize; b++) {
+      if (g_rom_usage[b] != 0)
+        break;
+    }
+    for (e = g_romsize - 1; e > b; e--) {
+      if (g_rom_usage[e] != 0)
+        break;
+    }
+
+    /* overrides from the options to WLALINK */
+    if (g_program_address_start >= 0)
+      b = g_program_address_start;
+    if (g_program_address_end >= 0)
+      e = g_program_address_end;
+
+    /* NOTE: if nothing is used then b == g_romsize and e == g_romsize - 1, and the program is empty */
+    if (b > e && (b < g_romsize || e < g_romsize - 1)) {
+      print_text(NO, "WRITE_ROM_FILE: The start of the program ($%x) is larger than its end ($%x).\n", b, e);
+      return FAILED;
+    }
+  }
+
   f = fopen(outname, "wb");
   if (f == NULL) {
     print_text(NO, "WRITE_ROM_FILE: Error opening file \"%s\" for writing.\n", outname);
@@ -2791,22 +2815,6 @@ int write_rom_file(char *outname) {
   }
   /* program file output mode */
   else {
-    for (i = 0; i < g_romsize; i++) {
-      if (g_rom_usage[i] != 0)
-        break;
-    }
-    b = i;
-    for (e = b; i < g_romsize; i++) {
-      if (g_rom_usage[i] != 0)
-        e = i;
-    }
-
-    /* overrides from the options to WLALINK */
-    if (g_program_address_start >= 0)
-      b = g_program_address_start;
-    if (g_program_address_end >= 0)
-      e = g_program_address_end;
-
     s = g_sec_bankhd_first;
     while (s != NULL) {
       if (s->bank == 0) {
@@ -2819,11 +2827,6 @@ int write_rom_file(char *outname) {
     fwrite(g_rom + b, 1, e - b + 1, f);
     g_program_start = b;
     g_program_end = e;
-
-    if (g_program_address_start >= 0 && g_program_address_end < 0 && b > e) {
-      print_text(NO, "WRITE_ROM_FILE: The supplied -bS ($%x) is larger than calculated end ($%x).\n", b, e);
-      return FAILED;
-    }
   }
 
   if (g_file_footer != NULL)
-- 
2.43.0


From 61d25024d2458f37bc54c3b6b8d328127ebb8944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:56 +0000
Subject: [PATCH 56/64] fix: the SMS checksum was not written to the header
 when ROMSIZE is smaller than the ROM

It went to $1FFA or $3FFA, over the data there, when the ROM size code of the
header at $3FF0 or $7FF0 was $A or $B.
---
 wlalink/compute.c | 40 +++++++++-------------------------------
 1 file changed, 9 insertions(+), 31 deletions(-)

diff --git a/wlalink/compute.c b/wlalink/compute.c
index de0d432..9505f98 100644
--- a/wlalink/compute.c
+++ b/wlalink/compute.c
@@ -477,42 +477,24 @@ int compute_sms_checksum(void) {
     /* we have the ROM size written in the header so let's use it */
     int rom_size = g_rom[tag_address + 0xF] & 0xF;
     
-    if (rom_size == 0x0A) {
-      tag_address = 0x1FF0;
+    if (rom_size == 0x0A)
       checksum_max = 8*1024;
-    }
-    else if (rom_size == 0x0B) {
-      tag_address = 0x3FF0;
+    else if (rom_size == 0x0B)
       checksum_max = 16*1024;
-    }
-    else if (rom_size == 0x0C) {
-      tag_address = 0x7FF0;
+    else if (rom_size == 0x0C)
       checksum_max = 32*1024;
-    }
-    else if (rom_size == 0x0D) {
-      tag_address = 0x7FF0;
+    else if (rom_size == 0x0D)
       checksum_max = 48*1024;
-    }
-    else if (rom_size == 0x0E) {
-      tag_address = 0x7FF0;
+    else if (rom_size == 0x0E)
       checksum_max = 64*1024;
-    }
-    else if (rom_size == 0x0F) {
-      tag_address = 0x7FF0;
+    else if (rom_size == 0x0F)
       checksum_max = 128*1024;
-    }
-    else if (rom_size == 0x00) {
-      tag_address = 0x7FF0;
+    else if (rom_size == 0x00)
       checksum_max = 256*1024;
-    }
-    else if (rom_size == 0x01) {
-      tag_address = 0x7FF0;
+    else if (rom_size == 0x01)
       checksum_max = 512*1024;
-    }
-    else if (rom_size == 0x02) {
-      tag_address = 0x7FF0;
+    else if (rom_size == 0x02)
       checksum_max = 1024*1024;
-    }
     else {
       print_text(NO, "COMPUTE_SMS_CHECKSUM: Unsupported ROMSIZE $%x - not calculating the checksum.\n", rom_size);
       return SUCCEEDED;
@@ -522,10 +504,6 @@ int compute_sms_checksum(void) {
       print_text(NO, "COMPUTE_SMS_CHECKSUM: Defined ROMSIZE $%x (%dKBs) is bigger than the ROM image (%dKBs) itself - not calculating the checksum.\n", rom_size, checksum_max / 1024, g_romsize / 1024);
       return FAILED;
     }
-
-    /* BASEADDRESS override */
-    if (g_romheader_baseaddress != -1)
-      tag_address = g_romheader_baseaddress;
   }
   else {
     /* no ROM size defined in the header, calculate until the header */
-- 
2.43.0


From ef612783664fd8bda917ea66f09eef788f3b6dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:59 +0000
Subject: [PATCH 57/64] fix: the SNES header's ID with fewer than four letters
 was refused

---
 phase_1.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phase_1.c b/phase_1.c
index 25c5990..0c035ca 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -9638,7 +9638,7 @@ int directive_snesheader(void) {
       if ((token_result = get_next_token()) == FAILED)
         return FAILED;
 
-      if (token_result != GET_NEXT_TOKEN_STRING || g_tmp[4] != 0) {
+      if (token_result != GET_NEXT_TOKEN_STRING || g_tmp[0] == 0 || strlen(g_tmp) > 4) {
         print_error(ERROR_DIR, "ID requires a string of 1 to 4 letters.\n");
         return FAILED;
       }
-- 
2.43.0


From 77266cc983174f60ad447f1810aafaf61083e0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:20 +0000
Subject: [PATCH 58/64] fix: the address to line mapping of the symbol file
 (-A) was garbage

---
 wlalink/write.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/wlalink/write.c b/wlalink/write.c
index d254b1d..781e908 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -2671,6 +2671,21 @@ int write_symbol_file(char *outname, int mode, int output_addr_to_line) {
 
       s = g_sec_first;
       while (s != NULL) {
+        /* the data of sections that were appended is in the section they were appended to */
+        struct section *s_root = s;
+        int s_root_offset = 0;
+
+        while (s_root->appended_to == YES) {
+          s_root_offset += s_root->appended_to_offset;
+          s_root = s_root->appended_to_section;
+        }
+
+        /* skip all dropped sections */
+        if (s_root->alive == NO) {
+          s = s->next;
+          continue;
+        }
+
         /* parse the list file information */
         list_address_offset = 0;
         list_source_file = -1;
@@ -2678,14 +2693,17 @@ int write_symbol_file(char *outname, int mode, int output_addr_to_line) {
           list_cmd = s->listfile_cmds[list_cmd_idx];
           if (list_cmd == 'k') {
             /* new line */
-            if (s->listfile_ints[list_cmd_idx * 3 + 1] > 0) {
-              fprintf(f, "%.8x %.2x:%.4x %.4x %.4x:%.4x:%.8lx\n", s->output_address + list_address_offset, s->bank + s->base, s->address + list_address_offset, g_slots[s->slot].address + s->address + list_address_offset, s->file_id + 1, list_source_file, (long unsigned int)s->listfile_ints[list_cmd_idx * 3 + 0]);
-              list_address_offset += s->listfile_ints[list_cmd_idx * 3 + 1];
+            list_address_offset += s->listfile_ints[list_cmd_idx * 5 + 2];
+            if (s->listfile_ints[list_cmd_idx * 5 + 1] > 0) {
+              int offset = s_root_offset + list_address_offset;
+              
+              fprintf(f, "%.8x %.2x:%.4x %.4x %.4x:%.4x:%.8lx\n", s_root->output_address + offset, s_root->bank + s_root->base, s_root->address + offset, g_slots[s_root->slot].address + s_root->address + offset, s->file_id + 1, list_source_file, (long unsigned int)s->listfile_ints[list_cmd_idx * 5 + 0]);
+              list_address_offset += s->listfile_ints[list_cmd_idx * 5 + 1];
             }
           }
           else if (list_cmd == 'f') {
             /* another file */
-            list_source_file = s->listfile_ints[list_cmd_idx * 3 + 0];
+            list_source_file = s->listfile_ints[list_cmd_idx * 5 + 0];
           }
         }
         s = s->next;
-- 
2.43.0


From aec7d11f63627281ed575d7ec48dee2e06b433e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:58 +0000
Subject: [PATCH 59/64] fix: no _sizeof_ definition for the label of a program
 with only one

---
 wlalink/write.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wlalink/write.c b/wlalink/write.c
index 781e908..a0dae88 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -4983,7 +4983,7 @@ int generate_sizeof_label_definitions(void) {
     l = l->next;
   }
 
-  if (labelsN <= 1)
+  if (labelsN <= 0)
     return SUCCEEDED;
 
   labels = calloc(sizeof(struct label *) * labelsN, 1);
-- 
2.43.0


From 390dcad7e79ec855240338963521db324a494c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:10 +0000
Subject: [PATCH 60/64] fix: _sizeof_ of labels was wrong when labels of other
 sections are between them in the order of addresses

---
 wlalink/write.c | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/wlalink/write.c b/wlalink/write.c
index a0dae88..8989a46 100644
--- a/wlalink/write.c
+++ b/wlalink/write.c
@@ -4960,6 +4960,21 @@ int generate_ram_bank_usage_labels(void) {
 }
 
 
+static int _is_ram_label(struct label *l) {
+
+  struct section *s = l->section_struct;
+  
+  if (s == NULL)
+    return NO;
+
+  if (s->status == SECTION_STATUS_RAM_FREE || s->status == SECTION_STATUS_RAM_FORCE ||
+      s->status == SECTION_STATUS_RAM_SEMIFREE || s->status == SECTION_STATUS_RAM_SEMISUBFREE)
+    return YES;
+
+  return NO;
+}
+
+
 int generate_sizeof_label_definitions(void) {
 
   struct label *l, *lastL, **labels;
@@ -5030,23 +5045,36 @@ int generate_sizeof_label_definitions(void) {
     }
 
     if (ls == NULL) {
+      /* find the next label, other sections' labels can be between the labels of a .SECTION, and
+         the labels in .RAMSECTIONs are not in the ROM */
+      int next = j + 1;
+
+      if (labels[j]->section_struct != NULL) {
+        while (next < labelsN && labels[next]->section != labels[j]->section)
+          next++;
+      }
+      else {
+        while (next < labelsN && _is_ram_label(labels[next]) == YES)
+          next++;
+      }
+
       if (labels[j]->section_struct != NULL) {
         /* inside a .SECTION, there are no holes in .SECTIONs so use labels to calculate the size */
-        if (j == labelsN - 1 || labels[j]->section != labels[j+1]->section) {
+        if (next == labelsN) {
           /* last label in this .SECTION */
           size = labels[j]->section_struct->size - labels[j]->address_in_section;
         }
         else
-          size = (int)labels[j+1]->rom_address - (int)labels[j]->rom_address;
+          size = (int)labels[next]->rom_address - (int)labels[j]->rom_address;
       }
       else {
         /* find the size by examining g_rom_usage */
         int absolute_end, i;
         
-        if (j == labelsN - 1)
+        if (next == labelsN)
           absolute_end = g_romsize;
         else
-          absolute_end = (int)labels[j+1]->rom_address;
+          absolute_end = (int)labels[next]->rom_address;
 
         /* find the next unused byte or encounter absolute_end */
         for (i = (int)labels[j]->rom_address; i < absolute_end; i++) {
-- 
2.43.0


From bccfdd2d92859afba36fee5563f39160e0b6b0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:59 +0000
Subject: [PATCH 61/64] fix: .DSTRUCT of structures with padded, imported,
 dotted or differently numbered instances was misplaced

The padding of instances was left out, which moved everything that followed,
STARTFROM was ignored, imported fields got two dots and could not be given
values, dotted instances took room, a .DSTRUCT without data lost its first
byte, and nameless ones made labels.
---
 phase_1.c | 98 +++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 73 insertions(+), 25 deletions(-)

diff --git a/phase_1.c b/phase_1.c
index 0c035ca..e257a3f 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -3902,6 +3902,34 @@ int directive_name_w65816(void) {
 #endif
 
 
+/* the size of one instance of an INSTANCEOF, padding included */
+static int _get_instance_size(struct structure_item *it) {
+
+  if (it->defined_size > 0)
+    return it->defined_size;
+  if (it->instance->defined_size > 0)
+    return it->instance->defined_size;
+
+  return it->instance->size;
+}
+
+
+static void _generate_instance_padding(struct structure_item *it, int labels_only) {
+
+  int padding = _get_instance_size(it) - it->instance->size;
+
+  if (padding <= 0)
+    return;
+
+  if (labels_only == YES)
+    fprintf(g_file_out_ptr, "o%d 0 ", padding);
+  else {
+    for (; padding > 0; padding--)
+      fprintf(g_file_out_ptr, "d%d ", g_emptyfill);
+  }
+}
+
+
 /* this is used for legacy .DSTRUCT syntax, and only for generating labels in the new
  * .DSTRUCT syntax. */
 int parse_dstruct_entry(char *iname, struct structure *s, int *labels_only, int generate_labels) {
@@ -3917,7 +3945,7 @@ int parse_dstruct_entry(char *iname, struct structure *s, int *labels_only, int
     if (verify_name_length(tmpname) == FAILED)
       return FAILED;
 
-    if (it->type != STRUCTURE_ITEM_TYPE_UNION) {
+    if (it->type != STRUCTURE_ITEM_TYPE_UNION && it->name[0] != '\0') {
       /* add field label */
       char full_label[MAX_NAME_LENGTH + 1];
 
@@ -3974,34 +4002,38 @@ int parse_dstruct_entry(char *iname, struct structure *s, int *labels_only, int
         fprintf(g_file_out_ptr, "o%d 0 ", it->size);
       }
     }
-    else if (it->type == STRUCTURE_ITEM_TYPE_INSTANCEOF) {
+    else if (it->type == STRUCTURE_ITEM_TYPE_INSTANCEOF || it->type == STRUCTURE_ITEM_TYPE_DOTTED_INSTANCEOF) {
       /* handle .INSTANCEOF directive */
-      /* update the naming prefix */
-      snprintf(tmpname, sizeof(tmpname), "%s.%s", iname, it->name);
+      int labels_only_tmp = YES, *labels_only_instance = labels_only;
+
+      /* dotted instances don't have data of their own */
+      if (it->type == STRUCTURE_ITEM_TYPE_DOTTED_INSTANCEOF)
+        labels_only_instance = &labels_only_tmp;
+
+      /* update the naming prefix, nameless INSTANCEOF imports the fields */
+      if (it->name[0] != '\0')
+        snprintf(tmpname, sizeof(tmpname), "%s.%s", iname, it->name);
+      else
+        snprintf(tmpname, sizeof(tmpname), "%s", iname);
       if (verify_name_length(tmpname) == FAILED)
         return FAILED;
 
-      if (it->num_instances == 1) {
-        if (parse_dstruct_entry(tmpname, it->instance, labels_only, generate_labels) == FAILED)
+      if (it->num_instances <= 1) {
+        if (parse_dstruct_entry(tmpname, it->instance, labels_only_instance, generate_labels) == FAILED)
           return FAILED;
+
+        _generate_instance_padding(it, *labels_only_instance);
       }
       else {
-        int labels_only_tmp = YES;
+        labels_only_tmp = YES;
 
-        snprintf(tmpname, sizeof(tmpname), "%s.%s", iname, it->name);
-      
         /* we have "struct.instance" and "struct.1.instance" referencing the same data. */
         parse_dstruct_entry(tmpname, it->instance, &labels_only_tmp, generate_labels);
 
         /* return to start of struct */
         fprintf(g_file_out_ptr, "o%d 0 ", -it->instance->size);
 
-        for (g = 1; g <= it->num_instances; g++) {
-          int size = it->instance->size;
-
-          if (it->defined_size > 0)
-            size = it->defined_size;
-          
+        for (g = it->start_from; g < it->start_from + it->num_instances; g++) {
           snprintf(tmpname, sizeof(tmpname), "%s.%s.%d", iname, it->name, g);
           if (verify_name_length(tmpname) == FAILED)
             return FAILED;
@@ -4010,14 +4042,20 @@ int parse_dstruct_entry(char *iname, struct structure *s, int *labels_only, int
             fprintf(g_file_out_ptr, "k%d L%s ", g_active_file_info_last->line_current, tmpname);
 
           if (generate_labels == YES) {
-            if (add_label_sizeof(tmpname, size) == FAILED)
+            if (add_label_sizeof(tmpname, _get_instance_size(it)) == FAILED)
               return FAILED;
           }
-          if (parse_dstruct_entry(tmpname, it->instance, labels_only, generate_labels) == FAILED)
+          if (parse_dstruct_entry(tmpname, it->instance, labels_only_instance, generate_labels) == FAILED)
             return FAILED;
+
+          _generate_instance_padding(it, *labels_only_instance);
         }
       }
 
+      /* dotted instances don't advance the address */
+      if (it->type == STRUCTURE_ITEM_TYPE_DOTTED_INSTANCEOF)
+        fprintf(g_file_out_ptr, "o%d 0 ", -it->size);
+
       it = it->next;
       continue;
     }
@@ -4180,9 +4218,16 @@ int find_struct_field(struct structure *s, char *field_name, int *item_size, int
       *item_size = si->size;
       return SUCCEEDED;
     }
+    /* nameless ".instanceof" imports the fields */
+    else if (si->type == STRUCTURE_ITEM_TYPE_INSTANCEOF && si->name[0] == '\0') {
+      if (find_struct_field(si->instance, field_name, item_size, field_offset) == SUCCEEDED) {
+        *field_offset += offset;
+        return SUCCEEDED;
+      }
+    }
     /* look for prefix for an ".instanceof" */
     else if (after_dot != NULL && strcmp(prefix, si->name) == 0) {
-      if (si->type == STRUCTURE_ITEM_TYPE_INSTANCEOF) {
+      if (si->type == STRUCTURE_ITEM_TYPE_INSTANCEOF || si->type == STRUCTURE_ITEM_TYPE_DOTTED_INSTANCEOF) {
         if (find_struct_field(si->instance, after_dot, item_size, field_offset) == SUCCEEDED) {
           *field_offset += offset;
           return SUCCEEDED;
@@ -4191,25 +4236,22 @@ int find_struct_field(struct structure *s, char *field_name, int *item_size, int
         else if (si->num_instances > 1) {
           int g;
           
-          for (g = 1; g <= si->num_instances; g++) {
+          for (g = si->start_from; g < si->start_from + si->num_instances; g++) {
             char num_str[256];
         
             snprintf(num_str, sizeof(num_str), "%d", g);
             if (strncmp(num_str, after_dot, strlen(num_str)) == 0) {
-              int size = si->instance->size;
-
-              if (si->defined_size > 0)
-                size = si->defined_size;
+              int size = _get_instance_size(si);
 
               /* entire string matched? */
               if (strcmp(num_str, after_dot) == 0) {
-                *field_offset = offset + (g-1) * size;
+                *field_offset = offset + (g-si->start_from) * size;
                 *item_size = size;
                 return SUCCEEDED;
               }
               /* only prefix matched */
               if (after_dot[strlen(num_str)] == '.' && find_struct_field(si->instance, after_dot + strlen(num_str) + 1, item_size, field_offset) == SUCCEEDED) {
-                *field_offset += offset + (g-1) * size;
+                *field_offset += offset + (g-si->start_from) * size;
                 return SUCCEEDED;
               }
             }
@@ -4465,7 +4507,13 @@ int directive_dstruct(void) {
     }
   }
   
+  /* without a name there are no labels, and all the data can be omitted */
+  if (iname[0] == '\0')
+    generate_labels = NO;
+
   labels_only = NO;
+  if (s_parse_dstruct_result == INPUT_NUMBER_EOL)
+    labels_only = YES;
   if (parse_dstruct_entry(iname, s, &labels_only, generate_labels) == FAILED)
     return FAILED;
   
-- 
2.43.0


From 4edf54c04d53936a531ced0a9cb352c38cab3dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:58 +0000
Subject: [PATCH 62/64] fix: dotted INSTANCEOF moved what follows in
 .RAMSECTIONs, and padded arrays in .ENUMs wrote into the ROM

---
 phase_1.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/phase_1.c b/phase_1.c
index e257a3f..ed81c35 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -1756,7 +1756,6 @@ int enum_add_struct_fields(char *basename, struct structure *st, int reverse) {
   while (si != NULL) {
     int real_si_size = si->size;
     int old_g_enum_offset = s_enum_offset;
-    int old_g_last_enum_offset = s_last_enum_offset;
     
     if (si->type == STRUCTURE_ITEM_TYPE_DOTTED || si->type == STRUCTURE_ITEM_TYPE_DOTTED_INSTANCEOF)
       real_si_size = 0;
@@ -1817,7 +1816,6 @@ int enum_add_struct_fields(char *basename, struct structure *st, int reverse) {
         if (si->type == STRUCTURE_ITEM_TYPE_DOTTED_INSTANCEOF) {
           /* this doesn't advance the counters */
           s_enum_offset = old_g_enum_offset;
-          s_last_enum_offset = old_g_last_enum_offset;
         }
       }
       else {
@@ -1850,8 +1848,10 @@ int enum_add_struct_fields(char *basename, struct structure *st, int reverse) {
 
           /* there is padding in the INSTANCEOF */
           if (padding > 0) {
-            if (s_enum_sizeof_pass == NO)
-              fprintf(g_file_out_ptr, "x%d %d ", padding, g_emptyfill);
+            if (s_enum_sizeof_pass == NO) {
+              if (g_in_enum == NO && g_in_struct == NO)
+                fprintf(g_file_out_ptr, "x%d %d ", padding, g_emptyfill);
+            }
             else {
               if (si->name[0] != '\0') {
                 if (_add_paddingof_definition(tmp, padding) == FAILED)
@@ -1867,7 +1867,6 @@ int enum_add_struct_fields(char *basename, struct structure *st, int reverse) {
         if (si->type == STRUCTURE_ITEM_TYPE_DOTTED_INSTANCEOF) {
           /* this doesn't advance the counters */
           s_enum_offset = old_g_enum_offset;
-          s_last_enum_offset = old_g_last_enum_offset;
         }
       }
     }
-- 
2.43.0


From 2fc50f761c2922d6655e64549223ea8ed22d5e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:58 +0000
Subject: [PATCH 63/64] fix: .STRUCT with an open .UNION was accepted

---
 phase_1.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/phase_1.c b/phase_1.c
index ed81c35..2de69fc 100644
--- a/phase_1.c
+++ b/phase_1.c
@@ -2191,6 +2191,11 @@ int parse_enum_token(void) {
     return SUCCEEDED;
   }
   else if (g_in_struct && strcaselesscmp(g_tmp, ".ENDST") == 0) {
+    if (s_union_stack != NULL) {
+      print_error(ERROR_DIR, ".UNION not closed.\n");
+      return FAILED;
+    }
+
     s_enum_offset = 0;
     s_last_enum_offset = 0;
     s_enum_sizeof_pass = NO;
-- 
2.43.0


From 3784f71a699d29c679f72c4435ceb9140ef83409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:12 +0000
Subject: [PATCH 64/64] fix: a directive without operands at the end of the
 source read beyond the source

---
 parse.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parse.c b/parse.c
index a5c7ea7..25debe3 100644
--- a/parse.c
+++ b/parse.c
@@ -1685,6 +1685,11 @@ int get_next_token(void) {
   
   _skip_whitespace();
 
+  if (g_source_index >= g_source_file_size) {
+    print_error(ERROR_NONE, "GET_NEXT_TOKEN: The source ended unexpectedly.\n");
+    return FAILED;
+  }
+
   /* skip leading commas */
   while (g_buffer[g_source_index] == ',')
     g_source_index++;
-- 
2.43.0

